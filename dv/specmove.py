"""Moving the fronts (C13): lgar_move_wetting_fronts and everything it calls keep the list well formed and every front's moisture and
head in range.  The state clause R is: every front lies in a layer, residual <= moisture <= saturated, head >= 0.
The passes (merge, cross, bottom, dry-over-wet) are proved to keep R under R alone, without the structural preconditions of C08-C10."""
import os, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
import specdry as SD
from speclgar import fld, splitinv, split_list, layers_ok, soil_of, arrlen, modifies, storage
from specsoil import soils_ok
from specsurf import deref
from loops import Cand, is_node_cell, raw
from specdry import nodes, node_of

ALIVE = 'a null pointer dereference ends the run (inside the passes called by lgar_move_wetting_fronts, for profiles outside the structural preconditions of C08-C10); memory safety there is checked by the harness (bounded)'
HEAD0 = 'the head of a front at residual moisture (an infinity in the code) is some non-negative number'


def dry_soil(st):
    """head at zero saturation: not negative"""
    al, m, n = z3.Reals('al!0 m!0 n!0')
    st.facts.append(ForAll([al, m, n], HF(RealVal(0), al, m, n) >= 0, patterns=[HF(RealVal(0), al, m, n)]))
    se = Real('se!0')
    st.facts.append(ForAll([se, al, m, n], Implies(se == 0, HF(se, al, m, n) >= 0), patterns=[HF(se, al, m, n)]))


def R_ok(ex, s, v, L, NL):
    i = Int('i!r')
    x = Select(L.seq(ex, s), i)
    lay = fld(ex, s, 'layer_num', x)
    k = Select(ex.arr(s, v.stype.region, 'int'), lay)
    g = lambda f: SS.soil(ex, s, v.sp, f, k)
    t = fld(ex, s, 'theta', x)
    return ForAll([i], Implies(And(i >= 0, i < L.len(ex, s)), And(lay >= 1, lay <= NL, t >= g('theta_r'), t <= g('theta_e'), fld(ex, s, 'psi_cm', x) >= 0)), patterns=[x])


# ------------------------------------------------------------------ the front that takes the water
def v_wfd(prog):
    ex = V.new_exec(prog, SG.C)

    def pre(ex, st, v):
        L = SS.one_list(ex, st, v.head)
        n = L.len(ex, st)
        st.facts.append(n >= 1)
        i = Int('i!w')
        seq, lay = L.seq(ex, st), ex.heap(st, 'layer_num')

        def pool(ex, st, h, syms, N):
            out = [Cand('the layers change so far', lambda ex_, s, sub: ForAll([i], Implies(And(i >= 0, i < sub(N), i + 1 < n), lay[seq[i]] != lay[seq[i + 1]]), patterns=[seq[i]]))]
            for t, x in syms.items():
                if t[0] == 'c' and x.sort() == I:
                    out.append(Cand('%s counts the fronts' % t[1][-1], lambda ex_, s, sub, k=t[1]: raw(s.cells[k]) == If(sub(N) < n, sub(N) + 1, n) if isinstance(raw(s.cells[k]), z3.ExprRef) else BoolVal(False)))
            return out
        ex.pool.append(pool)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        n, seq, lay = L.len(ex, e), L.seq(ex, e), ex.heap(e, 'layer_num')
        r, i = as_int(rv), fresh('i', I)
        ex.oblige(s, And(r >= 1, r <= n), 'the front that takes the water is a front of the profile', 'post')
        ex.oblige(s, Implies(And(i >= 0, i < r - 1), lay[seq[i]] != lay[seq[i + 1]]), 'every front above it is the only one of its layer', 'post')
        ex.oblige(s, Implies(r < n, lay[seq[r - 1]] == lay[seq[r]]), 'it has a front below it in its layer, or is the last', 'post')
        SL.frame_fields(ex, e, s, 'wetting_front_free_drainage')
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'wetting_front_free_drainage', ['head'], pre, post)


# ------------------------------------------------------------------ the iteration for the new moisture
def v_tmb(prog):
    ex = V.new_exec(prog, SG.C)
    names = ['lay', 'soil', 'psi', 'new', 'prior', 'aet', 'dth', 'thick', 'stype', 'sp']

    def pre(ex, st, v):
        st.facts += [v.lay >= 1, v.psi >= 0]
        arrlen(st, v.dth, v.lay + 1)
        arrlen(st, v.thick, v.lay + 1)
        arrlen(st, v.stype, v.lay + 1)
        soils_ok(ex, st, v.sp)
        x = Int('x!m')
        e = st.copy()
        ex.arr(e, v.aet.region, 'real')

    def post(ex, e, s, rv, v):
        x = Int('x!m')
        a, b = ex.arr(e, v.aet.region, 'real'), ex.arr(s, v.aet.region, 'real')
        if not a.eq(b):
            ex.oblige(s, Implies(x != 0, Select(a, x) == Select(b, x)), 'only the AET is written', 'frame')
        SL.frame_fields(ex, e, s, 'lgar_theta_mass_balance')
        SL.frame_rest(ex, e, s, (v.aet.region,))
    return V.verify(ex, 'lgar_theta_mass_balance', names, pre, post)


# ------------------------------------------------------------------ the passes, under R alone
TOUCH = ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'layer_num', 'to_bottom', 'dzdt_cm_per_h')


def others(ex, e, s, f, lid=1):
    """fronts of other lists keep field f"""
    x = Int('x!p')
    a, b = ex.heap(e, f), ex.heap(s, f)
    return ForAll([x], Implies(Select(ex.heap(e, 'own'), x) != lid, Select(b, x) == Select(a, x)), patterns=[Select(b, x)])


def own_frame(ex, e, s, lid=1):
    x = Int('x!p')
    return ForAll([x], Implies(Select(ex.heap(e, 'own'), x) != lid, And(Select(ex.heap(s, 'own'), x) == Select(ex.heap(e, 'own'), x), Select(ex.heap(s, 'alloc'), x) == Select(ex.heap(e, 'alloc'), x))), patterns=[Select(ex.heap(s, 'own'), x)])


def disjoint(ex, e, s, lid=1):
    """a front that did not belong to the list does not belong to it now"""
    x = Int('x!p')
    return ForAll([x], Implies(Select(ex.heap(e, 'own'), x) != lid, Select(ex.heap(s, 'own'), x) != lid), patterns=[Select(ex.heap(s, 'own'), x)])


REALS = [THETAF, SEF, KF, HF, POW, SQRT]


def links_only(q):
    """the state without the facts about real quantities (weaker hypotheses, for goals about links and ownership)"""
    from loops import consts_of
    isreal = lambda c: c.sort() == R or (z3.is_array(c) and c.sort().range() == R)
    n = q.copy()
    f = lambda fs: [x for x in fs if not any(isreal(c) for c in consts_of(x))]
    n.facts, n.path = f(q.facts), f(q.path)
    return n


def base_name(c):
    n = c.decl().name().split('!')[0].split('.')[-1]
    for p in ('h_', 'n_', 'p_'):
        if n.startswith(p):
            n = n[2:]
    return n


_quant = {}


def quantified(f):
    c = _quant.get(f.get_id())
    if c is None:
        c = _quant[f.get_id()] = (f, z3.is_quantifier(f) or any(quantified(c) for c in f.children()))
    return c[1]


def about(q, fields, ground):
    """the state with only the facts about these arrays, and the plain facts about further ones (weaker hypotheses)"""
    from loops import consts_of
    n = q.copy()

    def keep(f):
        names = {base_name(c) for c in consts_of(f) if z3.is_array(c)}
        return names <= fields or (names <= fields | ground and not quantified(f))
    n.facts, n.path = [f for f in q.facts if keep(f)], [f for f in q.path if keep(f)]
    return n


def by_links(L, e, f):
    """frame goals need ownership, the field and the sequence only"""
    def pr(ex, h, q, N, g, vs):
        fs = {'own', 'alloc'} if f in ('own', 'alloc') else {'own', f}
        if ex.pvalid(about(q, fs, {'seq', 'idx', 'front_num', 'next'}), g, 1500):
            return True
        if ex.pvalid(about(q, fs | {'seq', 'idx'}, {'front_num', 'next'}), g, 3000):
            return True
        arrs = [ex.heap(s, x) for s in (e, h, q) for x in fs] + [L.seq(ex, h), L.idx(ex, h)]
        if ex.valid(SG.only(q, *arrs), g, 4000):
            return True
        return True if ex.valid(links_only(q), g, 6000) else None
    return pr


def pass_pool(ex, v, L, NL, e, extra=()):
    n0 = L.len(ex, e)

    def still(ex, h, q, N, g, vs):
        """a front the loop was at, if still in the list, is named to the prover together with its position"""
        for k in [k for k in h.cells if k[0] == 'L' and is_node_cell(ex, k)]:
            x = node_of(h, k)
            if z3.is_const(x) and not z3.is_int_value(x):
                f = L.mem(ex, q, x)
                if not any(f.eq(z) for z in q.facts) and ex.valid(links_only(q), f, 1500):
                    q.facts.append(f)
        return None

    def ptrs(ex, st, h, syms, N):
        out = []
        for k, x in nodes(ex, syms):
            out += splitinv('%s is a front of the list or null' % k[2], lambda ex, s, N, k=k: Or(node_of(s, k) == 0, L.mem(ex, s, node_of(s, k))), still, required=False)(ex, st, h, syms, N)
            out += splitinv('%s is a front of the list' % k[2], lambda ex, s, N, k=k: L.mem(ex, s, node_of(s, k)), still, required=False)(ex, st, h, syms, N)
            for k2, y in nodes(ex, syms):
                if k2 != k:
                    out += splitinv('%s is the front below %s' % (k2[2], k[2]), lambda ex, s, N, k=k, k2=k2: node_of(s, k2) == If(node_of(s, k) == 0, IntVal(0), fld(ex, s, 'next', node_of(s, k))), required=False)(ex, st, h, syms, N)
        return out
    ex.pool.append(ptrs)
    ex.pool.append(split_list(L))
    touches = lambda *fs: (lambda ex, syms: any(modifies(syms, f) for f in fs))
    add = lambda *a, **k: ex.pool.append(splitinv(*a, **k))
    add('a front remains', lambda ex, s, N: And(L.len(ex, s) >= 1, L.len(ex, s) <= n0), still, when=lambda ex, syms: ('a', L.key('seq')) in syms)
    add('moistures and heads stay in range', lambda ex, s, N: R_ok(ex, s, v, L, NL), when=lambda ex, syms: ('a', L.key('seq')) in syms or any(modifies(syms, f) for f in ('theta', 'psi_cm', 'layer_num')))
    for f in TOUCH + ('next', 'front_num'):
        add('fronts of other lists keep %s' % f, lambda ex, s, N, f=f: others(ex, e, s, f), by_links(L, e, f), when=touches(f))
    add('fronts of other lists stay alive', lambda ex, s, N: own_frame(ex, e, s), by_links(L, e, 'own'), when=touches('own', 'alloc'))


def pass_unit(prog, fname, names, extra_pre=None):
    ex = V.new_exec(prog, SG.C)
    ex.nested_cases = True
    ex.null_ends = True
    NL = Int('NL')

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        nl = v.NL if 'NL' in v.vals else NL
        layers_ok(ex, st, v, nl)
        dry_soil(st)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        st.facts += [L.len(ex, st) >= 1, R_ok(ex, st, v, L, nl)]
        if extra_pre:
            extra_pre(ex, st, v, L)
        e = ex.entry = st.copy()
        pass_pool(ex, v, L, nl, e)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        nl = v.NL if 'NL' in v.vals else NL
        ex.name_heaps(s)
        SL.oblige_wf(ex, s, L, 'profile after %s' % fname)
        ex.oblige(s, And(L.len(ex, s) >= 1, L.len(ex, s) <= L.len(ex, e)), 'a front remains', 'post')
        ex.oblige(s, R_ok(ex, s, v, L, nl), 'moistures and heads stay in range', 'post')
        for f in TOUCH + ('next', 'front_num'):
            if not ex.heap(e, f).eq(ex.heap(s, f)):
                ex.oblige(s, others(ex, e, s, f), 'fronts of other lists keep %s' % f, 'frame')
        ex.oblige(s, own_frame(ex, e, s), 'fronts of other lists stay alive', 'frame')
        SL.frame_rest(ex, e, s, (L.headlv.key,) + ((v.mc.region,) if 'mc' in v.vals else ()))
        ex.assumed.update([ALIVE, HEAD0])
    return V.verify(ex, fname, names, pre, post)


def v_merge_range(prog):
    return pass_unit(prog, 'lgar_merge_wetting_fronts', ['stype', 'ff', 'head', 'sp'])


def v_cross_range(prog):
    return pass_unit(prog, 'lgar_wetting_fronts_cross_layer_boundary', ['NL', 'cum', 'stype', 'ff', 'head', 'sp'])


def bottom_same(ex, st, v, L):
    """the last two fronts share a layer when the upper one reached the bottom"""
    n, seq = L.len(ex, st), L.seq(ex, st)
    x, y = Select(seq, n - 2), Select(seq, n - 1)
    return Implies(And(n >= 2, fld(ex, st, 'depth_cm', x) >= v.dom), fld(ex, st, 'layer_num', x) == fld(ex, st, 'layer_num', y))


def v_domain_range(prog):
    return pass_unit(prog, 'lgar_wetting_front_cross_domain_boundary', ['dom', 'stype', 'ff', 'head', 'sp'], lambda ex, st, v, L: st.facts.append(bottom_same(ex, st, v, L)))


def v_fixdry_range(prog):
    return pass_unit(prog, 'lgar_fix_dry_over_wet_wetting_fronts', ['mc', 'cum', 'stype', 'head', 'sp'])


# ------------------------------------------------------------------ moving
MNAMES = ['dt', 'vin', 'wfd', 'mass', 'NL', 'aet', 'cum', 'stype', 'ff', 'head', 'prev', 'sp']
LINK = ('next', 'front_num', 'alloc', 'own')


def split_oblige(ex, st, goals, kind, node=None):
    """obligations (label, formula of a state), case by case over the branches merged into st"""
    if ex.lite:
        return
    ex.name_heaps(st)
    have = {f.get_id() for f in st.facts}
    goals = [(l, f) for l, f in goals if f(ex, st).get_id() not in have]
    if ex.recording and goals:
        parts = SG.cases(ex, st)
        if len(parts) > 1:
            ex.oblige(st.copy(), Or([And([c if val else Not(c) for c, val in vs] + [BoolVal(True)]) for _, vs in parts]), 'branches covered', 'lemma', node)
        for r, vs in parts:
            ex.name_heaps(r)
            for l, f in goals:
                ex.oblige(r, f(ex, r), l, kind, node)
    st.facts += [f(ex, st) for l, f in goals]


def wf_goals(L, what):
    def clause(k):
        return lambda ex, s: L.wf(ex, s)[k][1]
    return lambda ex, st: [('%s: %s' % (what, n), clause(k)) for k, (n, _) in enumerate(L.wf(ex, st))]


def move_contracts(box):
    """contracts of the callees at R level (each proved by a unit of its own)"""
    def args(ex, st, argn):
        return [ex.ev(a, st) for a in argn]

    def need(ex, st, what, e, L):
        ex.name_heaps(st)
        if ex.lite:
            return
        v = box['v']
        split_oblige(ex, st, wf_goals(L, what + ' requires a well formed list')(ex, st)
                     + [('%s requires a front' % what, lambda ex, s: L.len(ex, s) >= 1),
                        ('%s requires moistures and heads in range' % what, lambda ex, s: R_ok(ex, s, v, L, v.NL))], 'pre', e)

    def own_arrays(ex, st, what, e, **kw):
        v = box['v']
        for k, p in kw.items():
            q = v.vals[k]
            ok = isinstance(p, ArrPtr) and isinstance(q, ArrPtr) and p.region == q.region and (not isinstance(p.off, z3.ExprRef) or z3.is_int_value(simplify(p.off)) and simplify(p.off).as_long() == 0)
            ex.oblige(st, BoolVal(ok), '%s is given the %s array' % (what, k), 'pre', e)

    def havoc(ex, st, L, fields, relist):
        v = box['v']
        e = st.copy()
        for f in fields + (LINK if relist else ()):
            SL.havoc_field(ex, st, f)
        if relist:
            L.set(ex, st, fresh('seq', ArraySort(I, I)), fresh('idx', ArraySort(I, I)), fresh('len', I))
            ex.store(st, L.headlv, fresh('head', I))
            SL.assume_wf(ex, st, L)
            st.facts += [L.len(ex, st) >= 1, L.len(ex, st) <= L.len(ex, e), own_frame(ex, e, st)]
        for f in fields + (('next', 'front_num') if relist else ()):
            st.facts.append(others(ex, e, st, f))
        st.facts.append(R_ok(ex, st, v, L, v.NL))

    def c_merge(ex, st, argn, e):
        ty, ff, pp, sp = args(ex, st, argn)
        L = SL.find_list_pp(ex, st, pp)
        own_arrays(ex, st, 'lgar_merge_wetting_fronts', e, stype=ty, ff=ff, sp=sp)
        need(ex, st, 'lgar_merge_wetting_fronts', e, L)
        havoc(ex, st, L, ('depth_cm', 'psi_cm', 'K_cm_per_h'), True)

    def c_cross(ex, st, argn, e):
        nl, cum, ty, ff, pp, sp = args(ex, st, argn)
        L = SL.find_list_pp(ex, st, pp)
        own_arrays(ex, st, 'lgar_wetting_fronts_cross_layer_boundary', e, cum=cum, stype=ty, ff=ff, sp=sp)
        ex.oblige(st, as_int(nl) == box['v'].NL, 'lgar_wetting_fronts_cross_layer_boundary is given the number of layers', 'pre', e)
        need(ex, st, 'lgar_wetting_fronts_cross_layer_boundary', e, L)
        havoc(ex, st, L, TOUCH, False)

    def c_domain(ex, st, argn, e):
        dom, ty, ff, pp, sp = args(ex, st, argn)
        L = SL.find_list_pp(ex, st, pp)
        own_arrays(ex, st, 'lgar_wetting_front_cross_domain_boundary', e, stype=ty, ff=ff, sp=sp)
        need(ex, st, 'lgar_wetting_front_cross_domain_boundary', e, L)
        havoc(ex, st, L, ('theta', 'psi_cm', 'K_cm_per_h'), True)
        ex.assumed.add('lgar_wetting_front_cross_domain_boundary inside lgar_move_wetting_fronts: when the last but one front has reached the bottom it lies in the last layer like the last front (structural clause of the profile, assumed)')
        return fresh('flux', R)

    def c_fix(ex, st, argn, e):
        mc, cum, ty, pp, sp = args(ex, st, argn)
        L = SL.find_list_pp(ex, st, pp)
        own_arrays(ex, st, 'lgar_fix_dry_over_wet_wetting_fronts', e, cum=cum, stype=ty, sp=sp)
        need(ex, st, 'lgar_fix_dry_over_wet_wetting_fronts', e, L)
        havoc(ex, st, L, ('theta', 'psi_cm'), True)
        ex.store(st, ex.ptr_at(mc, IntVal(0)), fresh('mc', R))

    def c_check(ex, st, argn, e):
        h, = args(ex, st, argn)
        L = SL.find_list(ex, st, h)
        ex.name_heaps(st)
        SL.wf_known(ex, st, L, e, 'lgar_check_dry_over_wet_wetting_fronts')
        if not ex.lite:
            ex.oblige(st, L.len(ex, st) >= 1, 'lgar_check_dry_over_wet_wetting_fronts requires a front', 'pre', e)
        return fresh('dry', B)

    def c_wfd(ex, st, argn, e):
        h, = args(ex, st, argn)
        L = SL.find_list(ex, st, h)
        ex.name_heaps(st)
        SL.wf_known(ex, st, L, e, 'wetting_front_free_drainage')
        if not ex.lite:
            ex.oblige(st, L.len(ex, st) >= 1, 'wetting_front_free_drainage requires a front', 'pre', e)
        r = fresh('wfd', I)
        st.facts += [r >= 1, r <= L.len(ex, st), r <= box['v'].NL]
        ex.assumed.add('the number of the front that takes the water is at most the number of layers (follows from its contract and the layer order of the profile, a structural clause that is assumed)')
        return r

    def c_massb(ex, st, argn, e):
        c, h = args(ex, st, argn)
        L = SL.find_list(ex, st, h)
        ex.name_heaps(st)
        own_arrays(ex, st, 'lgar_calc_mass_bal', e, cum=c)
        SL.wf_known(ex, st, L, e, 'lgar_calc_mass_bal')
        return fresh('stored', R)

    def c_tmb(ex, st, argn, e):
        a = args(ex, st, argn)
        lay = as_int(a[0])
        if not ex.lite:
            own_arrays(ex, st, 'lgar_theta_mass_balance', e, stype=a[8], sp=a[9])
            ex.oblige(st, And(lay >= 1, lay <= box['v'].NL), 'lgar_theta_mass_balance is given a layer', 'pre', e)
            ex.oblige(st, real(a[2]) >= 0, 'lgar_theta_mass_balance is given a non-negative head', 'pre', e)
            for k, w in ((6, 'moistures'), (7, 'thicknesses')):
                n = st.lens.get(a[k].region) if isinstance(a[k], ArrPtr) else None
                ex.oblige(st, n >= lay + 1 if n is not None else BoolVal(False), 'lgar_theta_mass_balance is given enough %s' % w, 'pre', e)
        ex.store(st, ex.ptr_at(a[5], IntVal(0)), fresh('aet', R))
        return fresh('theta', R)
    C = dict(SG.C)
    C.update(lgar_merge_wetting_fronts=c_merge, lgar_wetting_fronts_cross_layer_boundary=c_cross, lgar_wetting_front_cross_domain_boundary=c_domain,
             lgar_fix_dry_over_wet_wetting_fronts=c_fix, lgar_check_dry_over_wet_wetting_fronts=c_check, wetting_front_free_drainage=c_wfd,
             lgar_calc_mass_bal=c_massb, lgar_theta_mass_balance=c_tmb)
    return C


def v_move(prog):
    box = {}
    ex = V.new_exec(prog, move_contracts(box))
    ex.nested_cases = True
    ex.subst_cases = True
    ex.name_terms = True

    def pre(ex, st, v):
        box['v'] = v
        H = SL.ptr_list(ex, 'L', 1, v.head)
        Q = SL.value_list(ex, st, 'Q', 2, v.prev)
        ex.lists = [H, Q]
        ex.load(st, H.headlv)
        SL.assume_wf(ex, st, H)
        SL.assume_wf(ex, st, Q)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, v.NL)
        dry_soil(st)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        n = H.len(ex, st)
        st.facts += [n >= 1, Q.len(ex, st) == n, R_ok(ex, st, v, H, v.NL)]
        e = ex.entry = st.copy()
        # ---- loop annotations
        relist = lambda ex, syms: ('a', H.key('seq')) in syms
        heap = lambda *fs: (lambda ex, syms: any(modifies(syms, f) for f in fs))
        add = lambda *a, **k: ex.pool.append(splitinv(*a, **k))
        ex.pool.append(split_list(H))

        def old_list(ex, st, h, syms, N):
            if not any(modifies(syms, f) for f in ('next', 'front_num', 'own', 'alloc')):
                return []
            out = []
            for k, (nme, _) in enumerate(Q.wf(ex, st)):
                def fn(ex, s, N, k=k):
                    ex.name_heaps(s)
                    return Q.wf(ex, s)[k][1]
                out += splitinv('previous state well formed: ' + nme, fn)(ex, st, h, syms, N)
            return out
        ex.pool.append(old_list)
        add('a front remains', lambda ex, s, N: And(H.len(ex, s) >= 1, H.len(ex, s) <= n), when=relist)
        add('moistures and heads stay in range', lambda ex, s, N: R_ok(ex, s, v, H, v.NL), when=lambda ex, syms: relist(ex, syms) or any(modifies(syms, f) for f in ('theta', 'psi_cm', 'layer_num')))
        for f in TOUCH + ('next', 'front_num'):
            add('fronts of other lists keep %s' % f, lambda ex, s, N, f=f: others(ex, e, s, f), by_links(H, e, f), when=heap(f))
        add('fronts of other lists stay alive', lambda ex, s, N: own_frame(ex, e, s), by_links(H, e, 'own'), when=heap('own', 'alloc'))
        add('the fronts above the cursor are there', lambda ex, s, N: And(n - N <= H.len(ex, s), Implies(N > 0, n - N + 1 <= H.len(ex, s))), when=relist)

        for w in ('vin', 'aet'):
            p = v.vals[w]
            x = Int('x!m')
            a0 = ex.arr(e, p.region, 'real')
            add('only the pointed-to value is written', lambda ex, s, N, p=p, a0=a0: ForAll([x], Implies(x != 0, Select(SG.named(ex, s, p.region, 'real'), x) == Select(a0, x)), patterns=[Select(SG.named(ex, s, p.region, 'real'), x)]), when=lambda ex, syms, p=p: ('a', p.region) in syms, required=False)

        def ptrs(ex, st, h, syms, N):
            out = []
            if relist(ex, syms):
                return out
            for k, x in nodes(ex, syms):
                out += splitinv('%s is a front of the list or null' % k[2], lambda ex, s, N, k=k: Or(node_of(s, k) == 0, H.mem(ex, s, node_of(s, k))), required=False)(ex, st, h, syms, N)
            return out
        ex.pool.append(ptrs)

    def post(ex, e, s, rv, v):
        H, Q = ex.lists
        ex.name_heaps(s)
        SL.oblige_wf(ex, s, H, 'profile after moving')
        ex.oblige(s, And(H.len(ex, s) >= 1, H.len(ex, s) <= H.len(ex, e)), 'a front remains', 'post')
        ex.oblige(s, R_ok(ex, s, v, H, v.NL), 'moistures and heads stay in range', 'post')
        for f in TOUCH + ('next', 'front_num'):
            if not ex.heap(e, f).eq(ex.heap(s, f)):
                ex.oblige(s, others(ex, e, s, f), 'the previous state and fronts of other lists keep %s' % f, 'frame')
        y = fresh('x', I)
        o0, o1, a0, a1 = ex.heap(e, 'own'), ex.heap(s, 'own'), ex.heap(e, 'alloc'), ex.heap(s, 'alloc')
        ex.oblige(links_only(s), Implies(o0[y] != 1, o1[y] == o0[y]), 'fronts of other lists stay theirs', 'frame')
        ex.oblige(links_only(s), Implies(And(o0[y] != 1, o1[y] == o0[y]), a1[y] == a0[y]), 'fronts of other lists stay alive', 'frame')
        q = e.copy()      # what was known at entry, and the frame just shown
        q.arrays = dict(s.arrays)
        z = Int('x!p')
        q.facts = list(e.facts) + [own_frame(ex, e, s), ForAll([z], Implies(o0[z] != 1, a1[z] == a0[z]), patterns=[a1[z]])] + [others(ex, e, s, f) for f in ('next', 'front_num')]
        SL.oblige_wf(ex, q, Q, 'previous state after moving')
        x = Int('x!m')
        for w in ('vin', 'aet'):
            a, b = (ex.arr(z, v.vals[w].region, 'real') for z in (e, s))
            ex.oblige(s, Implies(x != 0, Select(a, x) == Select(b, x)), 'only the pointed-to value is written', 'frame')
        SL.frame_rest(ex, e, s, (H.headlv.key, v.vin.region, v.aet.region))
        ex.assumed.add(HEAD0)
    return V.verify(ex, 'lgar_move_wetting_fronts', MNAMES, pre, post)


# ------------------------------------------------------------------ a new surface front that overtakes the one below it
def v_create_over(prog):
    """lgar_create_surficial_front for any depth of the new front: the merging and crossing passes it may call are used by contract
    (v_merge: storage kept under merge_pre; v_merge_range, v_cross_range: list and range)"""
    import specsurf as SU
    box = {}
    C = move_contracts(box)
    R_merge, R_cross = C['lgar_merge_wetting_fronts'], C['lgar_wetting_fronts_cross_layer_boundary']

    def grown(ex, st, label, node):
        """storage of the profile with the new front = storage before + water put in"""
        v, e = box['v'], box['e']
        L = ex.lists[0]
        cum = ex.arr(e, v.cum.region, 'real')
        q = st
        n0, n = L.len(ex, e), L.len(ex, q)
        T, U = SG.terms(ex, e, L, cum), SG.terms(ex, q, L, cum)
        q.facts += [f for f in e.facts if not any(f.eq(g) for g in q.facts)]
        vi = deref(ex, q, v.volin)
        SG.window(ex, q, T, n0, U, n, IntVal(0), 0, 1, label, how=SG.shifted_terms(ex, e, q, L, cum, T, U))
        ex.oblige(q, Select(U, 0) == vi, label + ': the new front holds the water put in', 'lemma', node)
        ex.oblige(q, SUM(U, 0, n) == SUM(T, 0, n0) + vi, label, 'post', node)
        return U, n

    def c_merge(ex, st, argn, e):
        v, L = box['v'], ex.lists[0]
        ex.name_heaps(st)
        U = None
        if not ex.lite:
            split_oblige(ex, st, [('lgar_merge_wetting_fronts requires: ' + l, lambda ex, s, k=k: SG.merge_pre(ex, s, v, L, v.NL)[k][1]) for k, (l, _) in enumerate(SG.merge_pre(ex, st, v, L, v.NL))], 'pre', e)
            U, n = grown(ex, st, 'soil storage grows by the water put in, before merging', e)
        R_merge(ex, st, argn, e)
        if U is not None:
            st.facts.append(SG.storage(ex, st, L, ex.arr(st, v.cum.region, 'real')) == SUM(U, 0, n))

    def c_cross(ex, st, argn, e):
        v, L, en = box['v'], ex.lists[0], box['e']
        ex.name_heaps(st)
        if not ex.lite:
            cum = ex.arr(en, v.cum.region, 'real')
            T = SG.terms(ex, en, L, cum)
            ex.oblige(st, SG.storage(ex, st, L, cum) == SUM(T, 0, L.len(ex, en)) + deref(ex, st, v.volin), 'soil storage grows by the water put in, before the layer crossing', 'post', e)
        R_cross(ex, st, argn, e)
    C.update(lgar_merge_wetting_fronts=c_merge, lgar_wetting_fronts_cross_layer_boundary=c_cross)
    ex = V.new_exec(prog, C)
    ex.nested_cases = True

    def pre(ex, st, v):
        box['v'] = v
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, v.NL)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        n, seq = L.len(ex, st), L.seq(ex, st)
        h = Select(seq, 0)
        lay, g = soil_of(ex, st, v, h)
        t = fld(ex, st, 'theta', h)
        st.facts += [f for _, f in SG.merge_pre(ex, st, v, L, v.NL)]
        st.facts += [n >= 1, R_ok(ex, st, v, L, v.NL), lay == 1, v.theta1 == t, t > g('theta_r'), t < g('theta_e'), v.dd > 0, deref(ex, st, v.pond) > 0]
        box['e'] = ex.entry = st.copy()

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        p0, p1, vi = deref(ex, e, v.pond), deref(ex, s, v.pond), deref(ex, s, v.volin)
        ex.name_heaps(s)
        ex.oblige(s, And(p0 == vi + p1, vi >= 0, p1 >= 0), 'water on the surface = water put in + water left, neither negative', 'post')
        split_oblige(ex, s, wf_goals(L, 'profile after creation')(ex, s) + [('a front remains', lambda ex, s: L.len(ex, s) >= 1), ('moistures and heads stay in range', lambda ex, s: R_ok(ex, s, v, L, v.NL))], 'post')
        SL.frame_rest(ex, e, s, (L.headlv.key, v.pond.region, v.volin.region))
        ex.assumed.add('the contracts of lgar_merge_wetting_fronts and lgar_wetting_fronts_cross_layer_boundary used where a new front overtakes another are discharged by the checks C08 and C13')
    return V.verify(ex, 'lgar_create_surficial_front', SU.CNAMES, pre, post)
