"""Contracts of the dry-over-wet treatment (C23): lgar_fix_dry_over_wet_wetting_fronts, lgar_check_dry_over_wet_wetting_fronts."""
import os, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
from speclgar import fld, storage, terms, splitinv, split_list, layers_ok, soil_of, cases, profile, modifies
from specsoil import soils_ok
from specsurf import deref
from loops import Cand, is_node_cell, raw

C = SG.C
NAMES = ['mc', 'cum', 'stype', 'head', 'sp']


def dry(ex, st, L, i):
    """the front at i is at most as wet as the one below it in its layer"""
    x, y = Select(L.seq(ex, st), i), Select(L.seq(ex, st), i + 1)
    return And(i >= 0, i + 1 < L.len(ex, st), fld(ex, st, 'theta', x) <= fld(ex, st, 'theta', y), fld(ex, st, 'layer_num', x) == fld(ex, st, 'layer_num', y))


def range_ok(ex, s, v, L, NL, e=None):
    """every front lies in a layer, its moisture in (residual, saturated], its head non-negative"""
    i = Int('i!r')
    x = Select(L.seq(ex, s), i)
    lay = fld(ex, s, 'layer_num', x)
    k = Select(ex.arr(s, v.stype.region, 'int'), lay)
    g = lambda f: SS.soil(ex, s, v.sp, f, k)
    t = fld(ex, s, 'theta', x)
    return ForAll([i], Implies(And(i >= 0, i < L.len(ex, s)), And(lay >= 1, lay <= NL, t > g('theta_r'), t <= g('theta_e'), fld(ex, s, 'psi_cm', x) >= 0)), patterns=[x])


def nodes(ex, syms):
    return [(t[1], x) for t, x in syms.items() if t[0] == 'c' and t[1][0] == 'L' and is_node_cell(ex, t[1])]


def node_of(s, k):
    v = raw(s.cells[k])
    return v if isinstance(v, z3.ExprRef) else IntVal(0)


def v_fixdry(prog, none=False):
    ex = V.new_exec(prog, C)
    ex.nested_cases = True
    NL = Int('NL')

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, NL)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        n0 = L.len(ex, st)
        st.facts += [n0 >= 1, range_ok(ex, st, v, L, NL)]
        cum = ex.arr(st, v.cum.region, 'real')
        e = ex.entry = st.copy()
        S0 = storage(ex, st, L, cum)
        ex.entry = st.copy()
        m0 = deref(ex, st, v.mc)
        i = Int('i!d')
        if none:
            st.facts.append(ForAll([i], Not(dry(ex, st, L, i)), patterns=[Select(L.seq(ex, st), i)]))
        outer = lambda ex, syms: ('a', L.key('seq')) in syms
        add = lambda *a, **k: ex.pool.append(splitinv(*a, when=outer, **k))
        ex.pool.append(split_list(L))

        def ptrs(ex, st, h, syms, N):
            if not outer(ex, syms):
                return []
            out = []
            ns = nodes(ex, syms)
            for k, x in ns:
                out += splitinv('%s is a front of the list or null' % k[2], lambda ex, s, N, k=k: Or(node_of(s, k) == 0, L.mem(ex, s, node_of(s, k))), required=False)(ex, st, h, syms, N)
                out += splitinv('%s is a front of the list' % k[2], lambda ex, s, N, k=k: L.mem(ex, s, node_of(s, k)), required=False)(ex, st, h, syms, N)
                for k2, y in ns:
                    if k2 != k:
                        out += splitinv('%s is the front below %s' % (k2[2], k[2]), lambda ex, s, N, k=k, k2=k2: node_of(s, k2) == If(node_of(s, k) == 0, IntVal(0), fld(ex, s, 'next', node_of(s, k))), required=False)(ex, st, h, syms, N)
                out += splitinv('%s advances one front per pass' % k[2], lambda ex, s, N, k=k: Implies(L.len(ex, s) == n0, And(L.mem(ex, s, node_of(s, k)), Or(Select(L.idx(ex, s), node_of(s, k)) == N, And(N >= n0, Select(L.idx(ex, s), node_of(s, k)) == n0 - 1)))), required=False)(ex, st, h, syms, N)
            return out
        ex.pool.append(ptrs)
        add('a front remains', lambda ex, s, N: And(L.len(ex, s) >= 1, L.len(ex, s) <= n0))
        add('remaining fronts are fronts of the profile in their old order', lambda ex, s, N: ForAll([i], Implies(And(i >= 0, i < L.len(ex, s)), And(L.mem(ex, e, Select(L.seq(ex, s), i)),
            Implies(i + 1 < L.len(ex, s), Select(L.idx(ex, e), Select(L.seq(ex, s), i)) < Select(L.idx(ex, e), Select(L.seq(ex, s), i + 1))))), patterns=[Select(L.seq(ex, s), i)]))
        add('moistures and heads stay in range', lambda ex, s, N: range_ok(ex, s, v, L, NL), required=False)
        x = Int('x!d')
        add('only the pointed-to value is written', lambda ex, s, N: ForAll([x], Implies(x != 0, Select(ex.arr(s, v.mc.region, 'real'), x) == Select(ex.arr(e, v.mc.region, 'real'), x)), patterns=[Select(ex.arr(e, v.mc.region, 'real'), x)]))
        add('nothing is released while nothing is removed', lambda ex, s, N: Implies(L.len(ex, s) == n0, ForAll([x], Select(ex.heap(s, 'alloc'), x) == Select(ex.heap(e, 'alloc'), x), patterns=[Select(ex.heap(s, 'alloc'), x)])))

        def same(f):
            def fn(ex, s, N):
                a, b = (L.seq(ex, s), L.seq(ex, e)) if f == 'seq' else (ex.heap(s, f), ex.heap(e, f))
                return Implies(L.len(ex, s) == n0, ForAll([x], Implies(And(x >= 0, x < n0) if f == 'seq' else BoolVal(True), Select(a, x) == Select(b, x)), patterns=[Select(a, x)]))
            return fn
        for f in ('seq', 'theta', 'psi_cm'):
            add('%s is untouched while no front is removed' % f, same(f))
        add('no dry front above the cursor while no front is removed', lambda ex, s, N: Implies(L.len(ex, s) == n0, ForAll([i], Implies(And(i < N), Not(dry(ex, e, L, i))), patterns=[Select(L.seq(ex, e), i)])), required=False)
        if none:
            add('no front is removed', lambda ex, s, N: L.len(ex, s) == n0)

        def step(ex, h, s, N, g, vs):
            """the report grows by the storage change of this pass; the front removed is the dry one"""
            cum = ex.arr(s, v.cum.region, 'real')
            a, b = storage(ex, h, L, cum), storage(ex, s, L, cum)
            d = deref(ex, s, v.mc) - deref(ex, h, v.mc)
            if L.seq(ex, s).eq(L.seq(ex, h)):
                q = s.copy()
                T, U = terms(ex, h, L, cum), terms(ex, s, L, cum)
                q.facts += [z for z in h.facts if not any(z.eq(w) for w in q.facts)]
                same_ = all(ex.heap(s, f).eq(ex.heap(h, f)) for f in ('theta', 'depth_cm', 'layer_num'))
                return same_ and ex.pvalid(q, d == 0)
            q = s.copy()
            if not ex.removed:
                return False
            pos, old = ex.removed[-1]
            if not ex.pvalid(q, dry(ex, h, L, pos)):
                return False
            if not ex.pvalid(q, d == If(b >= a, b - a, a - b)):
                return False
            return True
        ACC = z3.Function('changes_so_far', I, R)     # defined by: 0 at the start, plus |storage change| of each pass
        st.facts.append(ACC(0) == 0)
        add('the report is the sum of the storage changes of the removals', lambda ex, s, N: deref(ex, s, v.mc) == m0 + ACC(N), step)

        def total(ex, s, N):
            cum = ex.arr(s, v.cum.region, 'real')
            b, m = storage(ex, s, L, cum), deref(ex, s, v.mc)
            return And(Implies(L.len(ex, s) == n0, And(m == m0, b == S0)), Implies(L.len(ex, s) == n0 - 1, m - m0 == If(b >= S0, b - S0, S0 - b)), m - m0 >= b - S0, m - m0 >= S0 - b)

        def total_pr(ex, h, s, N, g, vs):
            if not step(ex, h, s, N, g, vs):
                return False
            cum = ex.arr(s, v.cum.region, 'real')
            a, b = storage(ex, h, L, cum), storage(ex, s, L, cum)
            z = z3.Reals('a b s0 m1 m2 m0')
            ln = z3.Ints('l1 l2 n0')
            same_ = L.seq(ex, s).eq(L.seq(ex, h))
            t = lambda l, b, m: And(Implies(l == ln[2], And(m == z[5], b == z[2])), Implies(l == ln[2] - 1, m - z[5] == If(b >= z[2], b - z[2], z[2] - b)), m - z[5] >= b - z[2], m - z[5] >= z[2] - b)
            if same_:
                return ex.pvalid(s, a == b) if not a.eq(b) else True
            if not ex.pvalid(s, And(L.len(ex, s) == L.len(ex, h) - 1, L.len(ex, h) <= n0)):
                return False
            ar = Implies(And(t(ln[0], z[0], z[3]), ln[1] == ln[0] - 1, ln[0] <= ln[2], z[4] - z[3] == If(z[1] >= z[0], z[1] - z[0], z[0] - z[1])), t(ln[1], z[1], z[4]))
            return solve.prove([], ar, 5000, quick=True).status == 'valid'
        add('the report covers the storage change', total, total_pr)

        # ---- the loop over the fronts above
        def inner(ex, st, h, syms, N):
            if outer(ex, syms) or not (modifies(syms, 'theta') or modifies(syms, 'psi_cm')):
                return []
            out = [Cand('moistures and heads stay in range', lambda ex_, s, sub: (ex_.name_heaps(s), range_ok(ex_, s, v, L, NL))[1])]
            for k, c in st.cells.items():
                if k[0] == 'L' and is_node_cell(ex, k) and ('c', k) not in syms:
                    out.append(Cand('not past %s' % k[2], lambda ex_, s, sub, k=k: And(sub(N) <= Select(L.idx(ex, s), node_of(s, k)), L.mem(ex, s, node_of(s, k))), None, 3000))
            return out
        ex.pool.append(inner)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        n0 = L.len(ex, e)
        cum = ex.arr(e, v.cum.region, 'real')
        ex.name_heaps(s)
        i, x = fresh('i', I), fresh('x', I)
        m0, m1 = deref(ex, e, v.mc), deref(ex, s, v.mc)
        S0, S1 = storage(ex, e, L, cum), storage(ex, s, L, cum)
        n = L.len(ex, s)
        SL.oblige_wf(ex, s, L, 'profile after removing dry fronts')
        ex.oblige(s, And(n >= 1, n <= n0), 'a front remains', 'post')
        y = Select(L.seq(ex, s), i)
        ex.oblige(s, Implies(And(i >= 0, i < n), L.mem(ex, e, y)), 'only fronts of the profile remain', 'post')
        ex.oblige(s, Implies(And(i >= 0, i + 1 < n), Select(L.idx(ex, e), y) < Select(L.idx(ex, e), Select(L.seq(ex, s), i + 1))), 'remaining fronts keep their order', 'post')
        unch = n == n0
        ex.oblige(s, Implies(And(i >= 0, i + 1 < n0, dry(ex, e, L, i)), n < n0), 'a dry-over-wet front leads to a removal', 'post')
        ex.oblige(s, Implies(unch, m1 == m0), 'no change is reported unless a front is removed', 'post')
        ex.oblige(s, Implies(n == n0 - 1, m1 - m0 == If(S1 >= S0, S1 - S0, S0 - S1)), 'the storage change of one removal is reported exactly', 'post')
        ex.oblige(s, And(m1 - m0 >= S1 - S0, m1 - m0 >= S0 - S1), 'the report covers the storage change', 'post')
        ex.oblige(s, range_ok(ex, s, v, L, NL), 'moistures and heads stay in range', 'post')
        for f in ('theta', 'psi_cm'):
            ex.oblige(s, Implies(unch, fld(ex, s, f, x) == fld(ex, e, f, x)), '%s is untouched unless a front is removed' % f, 'post')
        ex.oblige(s, Implies(And(unch, i >= 0, i < n0), y == Select(L.seq(ex, e), i)), 'the profile is untouched unless a front is removed', 'post')
        if none:
            ex.oblige(s, unch, 'a profile without a dry-over-wet front is left alone', 'post')
            ex.oblige(s, m1 == m0, 'a profile without a dry-over-wet front reports no change', 'post')
        SL.frame_fields(ex, e, s, 'removing dry fronts', ('depth_cm', 'layer_num', 'to_bottom', 'dzdt_cm_per_h', 'K_cm_per_h'))
        SL.frame_rest(ex, e, s, (L.headlv.key, v.mc.region))
        z = Int('x!f')
        ex.oblige(s, Implies(z != 0, Select(ex.arr(s, v.mc.region, 'real'), z) == Select(ex.arr(e, v.mc.region, 'real'), z)), 'only the pointed-to value is written', 'frame')
    return V.verify(ex, 'lgar_fix_dry_over_wet_wetting_fronts', NAMES, pre, post)


def v_fixdry_none(prog):
    return v_fixdry(prog, True)


def v_checkdry(prog):
    ex = V.new_exec(prog, C)

    def pre(ex, st, v):
        L = SS.one_list(ex, st, v.head)
        st.facts.append(L.len(ex, st) >= 1)
        i = Int('i!d')

        def pool(ex, st, h, syms, N):
            out = []
            for k, x in nodes(ex, syms):
                out.append(Cand('%s is a front of the list, advancing' % k[2], lambda ex_, s, sub, k=k: And(L.mem(ex, s, node_of(s, k)), Or(Select(L.idx(ex, s), node_of(s, k)) == sub(N), And(sub(N) >= L.len(ex, s), Select(L.idx(ex, s), node_of(s, k)) == L.len(ex, s) - 1)))))
                for k2, y in nodes(ex, syms):
                    if k2 != k:
                        out.append(Cand('%s is below %s' % (k2[2], k[2]), lambda ex_, s, sub, k=k, k2=k2: node_of(s, k2) == If(node_of(s, k) == 0, IntVal(0), fld(ex, s, 'next', node_of(s, k)))))
            for t, x in syms.items():        # a flag that remembers the test of the previous iteration
                if t[0] == 'c' and x.sort() == BoolSort():
                    out.append(Cand('%s: no dry front so far unless set' % str(t[1][-1]), lambda ex_, s, sub, x=x: ForAll([i], Implies(And(i < sub(N), Or(Not(sub(x)), i < sub(N) - 1)), Not(dry(ex, s, L, i))), patterns=[Select(L.seq(ex, s), i)])))
                    out.append(Cand('%s: set only by a dry front' % str(t[1][-1]), lambda ex_, s, sub, x=x: Implies(sub(x), dry(ex, s, L, sub(N) - 1))))
            out.append(Cand('no dry front so far', lambda ex_, s, sub: ForAll([i], Implies(i < sub(N), Not(dry(ex, s, L, i))), patterns=[Select(L.seq(ex, s), i)])))
            return out
        ex.pool.append(pool)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        i = fresh('i', I)
        r = as_bool(rv)
        ex.oblige(s, Implies(And(i >= 0, i + 1 < L.len(ex, e), dry(ex, e, L, i)), r), 'a dry-over-wet front is found', 'post')
        ok = [Select(L.idx(ex, e), node_of(s, k)) for k in s.cells if k[0] == 'L' and is_node_cell(ex, k)]
        ok += [p - 1 for p in ok]
        ex.oblige(s, Implies(r, Or([dry(ex, e, L, p) for p in ok])), 'reported only if there is one', 'post')
        SL.frame_fields(ex, e, s, 'lgar_check_dry_over_wet_wetting_fronts')
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'lgar_check_dry_over_wet_wetting_fronts', ['head'], pre, post)
