"""Contracts of the wetting-front physics (lgar.cxx)."""
import os, sys
from sym import *
import sym, solve
import verify as V
from execu import LCell, LArr, Obl
import speclist as SL
import specsoil as SS
from specsoil import soil, soils_ok, lemma
from loops import Cand

C = dict(SL.CONTRACTS)
C.update(SS.CONTRACTS)
PH = ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'layer_num', 'to_bottom', 'dzdt_cm_per_h')


def fld(ex, st, f, x):
    return Select(ex.heap(st, f), x)


# ------------------------------------------------------------------ soil water of a profile
def term(ex, st, L, cum, i):
    """water of front i: its depth below the top of its layer times its moisture excess over the next front of the layer"""
    seq, n = L.seq(ex, st), L.len(ex, st)
    x, y = Select(seq, i), Select(seq, i + 1)
    d, t, l = ex.heap(st, 'depth_cm'), ex.heap(st, 'theta'), ex.heap(st, 'layer_num')
    below = If(And(i + 1 < n, Select(l, y) == Select(l, x)), Select(t, y), RealVal(0))
    return (Select(d, x) - Select(cum, Select(l, x) - 1)) * (Select(t, x) - below)


def terms(ex, st, L, cum):
    """array of the front terms in state st (named, defined by one axiom)"""
    ex.name_heaps(st)
    key = tuple(a.get_id() for a in (L.seq(ex, st), L.len(ex, st), ex.heap(st, 'depth_cm'), ex.heap(st, 'theta'), ex.heap(st, 'layer_num'), cum))
    tab = ex.__dict__.setdefault('termtab', {})
    if key not in tab:
        T = fresh('STO', ArraySort(I, R))
        i = Int('i!t')
        d = ForAll([i], Select(T, i) == term(ex, st, L, cum, i), patterns=[Select(T, i)])
        tab[key] = (T, d, (L.seq(ex, st), L.len(ex, st), ex.heap(st, 'depth_cm'), ex.heap(st, 'theta'), ex.heap(st, 'layer_num'), cum))
    T, d, _ = tab[key]
    if not any(f.eq(d) for f in st.facts):
        st.facts.append(d)
    return T


def storage(ex, st, L, cum):
    return SUM(terms(ex, st, L, cum), 0, L.len(ex, st))


def c_mass(ex, st, argn, e):
    c, h = [ex.ev(a, st) for a in argn]
    L = SL.find_list(ex, st, h)
    SL.wf_known(ex, st, L, e, 'lgar_calc_mass_bal')
    if not (z3.is_int_value(c.off) and c.off.as_long() == 0):
        raise Unsupported('layer table passed at an offset')
    return storage(ex, st, L, ex.arr(st, c.region, 'real'))


C['lgar_calc_mass_bal'] = c_mass


# ------------------------------------------------------------------ sums
def sum_shift(ex, st, T, a, b, U, d, label, kind='lemma', cond=None, how=None):
    """rule: pointwise U[i+d] = T[i] on [a,b) gives SUM(U,a+d,b+d) = SUM(T,a,b) (lemma 'sums', by induction).
    how(state, goal, label): discharges the pointwise premise (default: an obligation)"""
    i = fresh('i', I)
    s = st.copy()
    if cond is not None:
        s.path.append(cond)
    g = Implies(And(i >= a, i < b), Select(U, i + d) == Select(T, i))
    r = how(s, g, label) if how else ex.oblige(s, g, label, kind)
    if how and not r:
        return False
    c = SUM(U, simplify(a + d), simplify(b + d)) == SUM(T, a, b)
    st.facts.append(c if cond is None else Implies(cond, c))
    return True


def split_at(st, T, lo, m, hi):
    st.facts.append(Implies(And(lo <= m, m <= hi), SUM(T, lo, hi) == SUM(T, lo, m) + SUM(T, m, hi)))


def unfold(st, T, lo, k, hi):
    """SUM(T,lo,hi) with its first k terms split off (lo+k <= hi)"""
    s = RealVal(0)
    for j in range(k):
        s = s + Select(T, simplify(lo + j))
    st.facts.append(Implies(lo + k <= hi, SUM(T, lo, hi) == s + SUM(T, simplify(lo + k), hi)))


def window(ex, st, T, n, U, m, p, a, b, label, cond=None, how=None):
    """T over [0,n) (before), U over [0,m) (after) agree before p and behind the window: a fronts before, b after, m-n = b-a"""
    d = b - a
    s = st
    ok = sum_shift(ex, s, T, IntVal(0), p, U, IntVal(0), label + ': fronts above', cond=cond, how=how)
    ok = ok and sum_shift(ex, s, T, simplify(p + a), n, U, IntVal(d), label + ': fronts below', cond=cond, how=how)
    if not ok:
        return False
    for X, k, c in ((T, n, a), (U, m, b)):
        split_at(s, X, IntVal(0), p, k)
        unfold(s, X, p, c, k)
    # shift rule gives SUM(U, p+b, n+d); n+d = m
    s.facts.append(Implies(n + d == m, SUM(U, simplify(p + a + d), simplify(n + d)) == SUM(U, simplify(p + b), m)))
    return True


def shifted_terms(ex, e, st, L, cum, T, U):
    """how-argument of window(): the storage terms of the fronts behind a new first front, in small steps"""
    def how(s, g, label):
        rng = g.arg(0)
        i = g.arg(1).arg(1).arg(1)
        a, b = simplify(rng.arg(0).arg(1)), rng.arg(1).arg(1)
        if z3.is_int_value(a) and z3.is_int_value(b):
            ex.oblige(s, g, label, 'lemma')
            return True
        S0, S1 = L.seq(ex, e), L.seq(ex, s)
        n0, n = L.len(ex, e), L.len(ex, s)
        lm = [('number of fronts', n == n0 + 1)]
        for k in (0, 1):
            r = And(i + k >= 0, i + k < n0)
            lm.append(('order', Implies(r, Select(S1, i + k + 1) == Select(S0, i + k))))
            lm += [(f, Implies(r, fld(ex, s, f, Select(S0, i + k)) == fld(ex, e, f, Select(S0, i + k)))) for f in ('depth_cm', 'theta', 'layer_num')]
        for l, f in lm:
            ex.oblige(s, f, '%s: %s kept' % (label, l), 'lemma')
        q = s.copy()
        q.path, q.facts = [], [f for _, f in lm] + [Select(T, i) == term(ex, e, L, cum, i), Select(U, i + 1) == term(ex, s, L, cum, i + 1)]
        ex.oblige(q, g, label, 'lemma')
        return True
    return how


def v_sums(prog):
    """the sum rules used by the storage arguments, by induction over the length"""
    ex = V.new_exec(prog)
    A = ArraySort(I, R)
    T, U = Const('T', A), Const('U', A)
    a, k, d, m = z3.Ints('a k d m')
    i = Int('i')
    pw = ForAll([i], Implies(And(i >= a, i < k + 1), U[i + d] == T[i]), patterns=[T[i]])
    st = lambda X, lo, hi: SUM(X, lo, hi + 1) == SUM(X, lo, hi) + X[hi]
    lemma(ex, 'sum shift, base', [k <= a], SUM(U, a + d, k + d) == SUM(T, a, k))
    lemma(ex, 'sum shift, step', [k >= a, pw, SUM(U, a + d, k + d) == SUM(T, a, k), SUM(T, a, k + 1) == SUM(T, a, k) + T[k],
                                  SUM(U, a + d, k + 1 + d) == SUM(U, a + d, k + d) + U[k + d]], SUM(U, a + d, k + 1 + d) == SUM(T, a, k + 1))
    lemma(ex, 'sum split, base', [a <= m], SUM(T, a, m) == SUM(T, a, m) + SUM(T, m, m))
    lemma(ex, 'sum split, step', [a <= m, m <= k, SUM(T, a, k) == SUM(T, a, m) + SUM(T, m, k), st(T, a, k), st(T, m, k)],
          SUM(T, a, k + 1) == SUM(T, a, m) + SUM(T, m, k + 1))
    return ex


def sums_in(e):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == 'SUM' and not any(x.eq(o) for o in out):
                out.append(x)
            stack.extend(x.children())
    return out


def apps(e, kind=None, name=None):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if (kind is not None and x.decl().kind() == kind) or (name is not None and x.decl().name() == name):
                out.append(x)
            stack.extend(x.children())
    return out


def arrlen(st, p, n):
    st.lens[p.region] = n


def profile(ex, st, L, layers, numbered=True):
    """every front lies in a layer 1..layers"""
    i = Int('i!p')
    x = Select(L.seq(ex, st), i)
    l = Select(ex.heap(st, 'layer_num'), x)
    return ForAll([i], Implies(And(i >= 0, i < L.len(ex, st)), And(l >= 1, l <= layers)), patterns=[x])


def v_mass(prog):
    ex = V.new_exec(prog)
    NL = Int('NL')

    def pre(ex, st, v):
        L = SS.one_list(ex, st, v.head)
        st.facts += [NL >= 1, profile(ex, st, L, NL)]
        arrlen(st, v.cum, NL + 1)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        cum = ex.arr(e, v.cum.region, 'real')
        TS = terms(ex, s, L, cum)
        n = L.len(ex, e)
        r = real(rv)
        for q in sums_in(And(s.facts)):
            T, lo, hi = q.children()
            if T.eq(TS) or not any(T.eq(x[0]) and hi.eq(x[1]) for x in ex.sums):
                continue
            ex.oblige(s, And(lo == 0, Or(hi == n, hi + 1 == n)), 'storage: all fronts are covered', 'lemma')
            sum_shift(ex, s, T, lo, hi, TS, IntVal(0), 'storage: every front contributes its own term')
            unfold(s, TS, hi, 1, n)
            split_at(s, TS, IntVal(0), hi, n)
            ex.oblige(s, r == If(hi == n, q, q + term(ex, e, L, cum, hi)), 'storage: the last front', 'lemma')
            s.facts.append(Select(TS, hi) == term(ex, e, L, cum, hi))
        ex.oblige(s, r == SUM(TS, 0, n), 'soil storage is the sum of the front terms', 'post')
        ex.oblige(s, Implies(v.head == 0, r == 0), 'an empty profile holds no water', 'post')
        SL.frame_fields(ex, e, s, 'lgar_calc_mass_bal')
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'lgar_calc_mass_bal', ['cum', 'head'], pre, post)


# ------------------------------------------------------------------ loop annotations
def inv(label, fn, prove=None):
    """annotated loop invariant: fn(ex, state, number of iterations done)"""
    def pool(ex, st, h, syms, N):
        return [Cand(label, lambda ex_, s, sub: fn(ex_, s, sub(N)), prove)]
    return pool


def inv_list(L, numbered=True, when=None):
    """the list stays well formed"""
    def pool(ex, st, h, syms, N):
        if when is not None and not when(ex, st, h, syms):
            return []
        if not any(t[0] == 'a' and t[1] in (L.key('seq'), ('wf', 'next')) for t in syms):
            return []
        def mk(k):
            def at(ex_, s, sub):
                ex_.name_heaps(s)
                return L.wf(ex_, s, numbered)[k][1]
            return at
        return [Cand('list well formed: ' + n, mk(k)) for k, (n, _) in enumerate(L.wf(ex, st, numbered))]
    return pool


def named(ex, st, region, kind):
    a = ex.arr(st, region, kind)
    if not z3.is_const(a):
        c = fresh('n_' + str(region[-1]), a.sort())
        st.facts.append(c == a)
        st.arrays[region] = c
        ex.namedefs[c.get_id()] = (c, a)
        return c
    return a


def modifies(syms, f):
    return ('a', ('wf', f)) in syms


# ------------------------------------------------------------------ initial profile (C20)
def v_init(prog):
    ex = V.new_exec(prog, C)
    names = ['NL', 'psi', 'stype', 'cum', 'ff', 'head', 'sp']

    def want(ex, e, v, l):
        k = Select(ex.arr(e, v.stype.region, 'int'), l)
        g = lambda f: soil(ex, e, v.sp, f, k)
        th = THETAF(v.psi, g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'), g('theta_e'), g('theta_r'))
        K = KF((th - g('theta_r')) / (g('theta_e') - g('theta_r')), Select(ex.arr(e, v.ff.region, 'real'), l) * g('Ksat_cm_per_h'), g('vg_m'))
        return {'layer_num': l, 'depth_cm': Select(ex.arr(e, v.cum.region, 'real'), l), 'psi_cm': v.psi, 'to_bottom': BoolVal(True), 'theta': th, 'K_cm_per_h': K}

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        st.facts += [L.len(ex, st) == 0, v.NL >= 0]
        for p in (v.stype, v.cum, v.ff):
            arrlen(st, p, v.NL + 1)
        ex.pool.append(inv_list(L))
        ex.pool.append(inv('one front per layer so far', lambda ex, s, N: L.len(ex, s) == N))
        ex.pool.append(inv('layers not exceeded', lambda ex, s, N: And(N >= 0, N <= v.NL)))
        for f in ('layer_num', 'depth_cm', 'psi_cm', 'to_bottom', 'theta', 'K_cm_per_h'):
            def at(ex, s, N, f=f):
                ex.name_heaps(s)
                i = Int('i!v')
                x = Select(L.seq(ex, s), i)
                return ForAll([i], Implies(And(i >= 0, i < N), fld(ex, s, f, x) == want(ex, ex.entry, v, i + 1)[f]), patterns=[x])
            ex.pool.append(inv('fronts made so far carry %s of their layer' % f, at))

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        SL.oblige_wf(ex, s, L, 'initial profile')
        ex.oblige(s, L.len(ex, s) == v.NL, 'one front per layer', 'post')
        i = fresh('i', I)
        x = Select(L.seq(ex, s), i)
        for f, val in want(ex, e, v, i + 1).items():
            ex.oblige(s, Implies(And(i >= 0, i < v.NL), fld(ex, s, f, x) == val), 'front of each layer: %s' % f, 'post')
        SL.frame_rest(ex, e, s, (L.headlv.key,))
    return V.verify(ex, 'InitializeWettingFronts', names, pre, post)


# ------------------------------------------------------------------ frozen factor (C15)
def v_frozen(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        P = ('A', 'p')
        F = lambda f: ex.load(st, LCell(P + (f,), ex.fields('lgar_bmi_parameters')[f]))
        v.vals.update(NL=F('num_layers'), NC=F('num_cells_temp'), temp=F('soil_temperature'), z=F('soil_temperature_z'), cum=F('cum_layer_thickness_cm'), ff=F('frozen_factor'))
        arrlen(st, v.cum, v.NL + 1)
        arrlen(st, v.ff, v.NL + 1)
        arrlen(st, v.temp, v.NC)
        arrlen(st, v.z, v.NC)
        z, cum = ex.arr(st, v.z.region, 'real'), ex.arr(st, v.cum.region, 'real')
        temp = ex.arr(st, v.temp.region, 'real')
        st.facts += [v.NL >= 0, v.NC >= 0]
        # BD[l]: number of temperature cells down to the bottom of layer l (definition)
        BD = Const('BD', ArraySort(I, I))
        l, i = z3.Ints('l!b i!b')
        st.facts += [BD[0] == 0,
                     ForAll([l], Implies(l >= 1, And(BD[l - 1] <= BD[l], BD[l] <= v.NC, Implies(BD[l] < v.NC, z[BD[l]] > cum[l]))), patterns=[BD[l]]),
                     ForAll([l, i], Implies(And(l >= 1, i >= BD[l - 1], i < BD[l]), z[i] <= cum[l]), patterns=[z3.MultiPattern(BD[l], z[i])])]
        v.vals['BD'] = BD
        mean = lambda l: SUM(temp, BD[l - 1], BD[l]) / z3.ToReal(BD[l] - BD[l - 1])
        v.vals['mean'] = mean

        def want(l):
            e_ = EXP(-10 * (RealVal('27315/100') - mean(l)))
            return If(e_ >= 1, RealVal(1), If(e_ <= RealVal('1/20'), RealVal('1/20'), e_))
        v.vals['want'] = want

        outer = lambda syms: ('a', v.ff.region) in syms

        def pool(ex, st, h, syms, N):
            if not outer(syms):
                return []
            out = []
            q = Int('l!w')
            for tag, x in syms.items():
                if tag[0] == 'c' and x.sort() == I:
                    out.append(Cand('%s = cells above the next layer' % tag[1][-1], lambda e_, s, sub, x=x: sub(x) == BD[sub(N)]))
                    out.append(Cand('layer bound', lambda e_, s, sub, x=x: And(sub(x) >= 1, sub(x) <= v.NL + 1)))

            def at(e_, s, sub):
                ff = named(ex, s, v.ff.region, 'real')
                return ForAll([q], Select(ff, q) == If(And(q >= 1, q <= sub(N)), want(q), Select(ex.arr(ex.entry, v.ff.region, 'real'), q)), patterns=[Select(ff, q)])

            def prove(ex, s, f, h):
                for T, NN, E in ex.sums:
                    qs = [y for y in sums_in(And(s.facts)) if y.arg(0).eq(T)]
                    for y in qs:
                        sum_shift(ex, s, T, IntVal(0), y.arg(2), temp, BD[N], 'cells of the layer', how=lambda st_, g, lab: ex.valid(st_, g))
                l = N + 1
                for d in apps(And(s.facts), z3.Z3_OP_DIV):
                    for g in (d.arg(0) == SUM(temp, BD[N], BD[l]), d.arg(1) == z3.ToReal(BD[l] - BD[N]), d == mean(l)):
                        if ex.valid(s, g):
                            s.facts.append(g)
                for d in apps(And(s.facts), None, 'EXP'):
                    g = d.arg(0) == -10 * (RealVal('27315/100') - mean(l))
                    if ex.valid(s, g):
                        s.facts += [g, d == EXP(-10 * (RealVal('27315/100') - mean(l)))]
                return ex.valid(s, f)
            out.append(Cand('factors of the layers done', at, prove))
            return out

        ex.pool.append(pool)

    def post(ex, e, s, rv, v):
        l = fresh('l', I)
        ff1, ff0 = ex.arr(s, v.ff.region, 'real'), ex.arr(e, v.ff.region, 'real')
        rng = And(l >= 1, l <= v.NL)
        ex.oblige(s, Implies(rng, ff1[l] == v.want(l)), 'factor of each layer is exp(-10(273.15-T)) limited to [0.05,1], T the mean over the cells of the layer', 'post')
        ex.oblige(s, Implies(rng, And(ff1[l] >= RealVal('1/20'), ff1[l] <= 1)), 'factor lies in [0.05,1]', 'post')
        ex.oblige(s, Implies(And(rng, v.mean(l) >= RealVal('27315/100')), ff1[l] == 1), 'thawed layers have factor 1', 'post')
        ex.oblige(s, Implies(And(rng, v.mean(l) <= RealVal('27285/100')), ff1[l] == RealVal('1/20')), 'hard-frozen layers have factor 0.05', 'post')
        ex.oblige(s, Implies(Not(rng), ff1[l] == ff0[l]), 'only factors of existing layers are written', 'frame')
        SL.frame_fields(ex, e, s, 'frozen factor')
        SL.frame_rest(ex, e, s, (v.ff.region,))
    return V.verify(ex, 'frozen_factor_hydraulic_conductivity', ['p'], pre, post)


def rewrite(ex, s, goal, pairs, under=None, pv=False):
    """replace terms of the goal by equal ones (each equality is checked)"""
    for a, b in pairs:
        if a.eq(b):
            continue
        q = s.copy()
        if under is not None:
            q.path.append(under)
        if (ex.pvalid if pv else ex.valid)(q, a == b):
            goal = z3.substitute(goal, (a, b))
    return goal


def read_at(A, ix):
    while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE and A.arg(1).eq(ix):
        return A.arg(2)
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_ITE:
        return If(A.arg(0), read_at(A.arg(1), ix), read_at(A.arg(2), ix))
    return Select(A, ix)


def visited_update(ex, s, h, L, field, clause, N, ms=8000, define=None):
    """rule: one iteration writes `field` at one front only, the front at position N. Then an invariant
    'clause(x, value, iterations)' about all fronts is preserved if it holds for that front and, for the others, does not
    depend on whether position N was treated"""
    from loops import stores
    nA, A = ex.unname(s.arrays[('wf', field)]), h.arrays[('wf', field)]
    ixs = stores(nA, A)
    if not ixs or len(ixs) != 1:
        return None
    ix = ixs[0]
    q = fresh('x', I)
    d = fresh('d', A.sort().range())
    a, b = clause(q, d, N), clause(q, d, N + 1)
    if not ex.valid(s, And(Select(L.idx(ex, s), ix) == N, L.mem(ex, s, ix))):
        return False
    if not ex.valid(s, Implies(And(q != ix, a), b)):
        return False
    val = read_at(nA, ix)
    g = clause(ix, val, N + 1)
    g = rewrite(ex, s, g, [(Select(L.idx(ex, s), ix), N)])
    under = And(N + 1 < L.len(ex, s))
    g = rewrite(ex, s, g, [(Select(L.seq(ex, s), N + 1), Select(ex.heap(s, 'next'), ix))], under) if ex.valid(s, Or(under, g)) else g
    s2 = s.copy()
    if define is not None:
        f = define(ix)
        f = rewrite(ex, s, f, [(Select(L.idx(ex, s), ix), N)])
        if ex.valid(s, Or(under, g)):
            f = rewrite(ex, s, f, [(Select(L.seq(ex, s), N + 1), Select(ex.heap(s, 'next'), ix))], under)
        g = z3.substitute(g, (f.arg(0), f.arg(1)))
    if ex.valid(s, Or(under, g)):
        s2.path.append(under)
    conds = V.ite_conds(val, 8)
    for c in V.split_goal(g):
        r = V.split_prove(s2.pc(), c, conds, ms, ())
        if r.status != 'valid':
            return False
    return True


# ------------------------------------------------------------------ front velocities (C14)
def soil_of(ex, e, v, x):
    lay = fld(ex, e, 'layer_num', x)
    k = Select(ex.arr(e, v.stype.region, 'int'), lay)
    return lay, (lambda f: soil(ex, e, v.sp, f, k))


def layers_ok(ex, st, v, NL):
    """layer table: depths increase from 0, frozen factors positive"""
    cum = ex.arr(st, v.cum.region, 'real') if 'cum' in v.vals else None
    ff = ex.arr(st, v.ff.region, 'real') if 'ff' in v.vals else None
    k, j = z3.Ints('k!l j!l')
    st.facts.append(NL >= 1)
    if cum is not None:
        st.facts += [cum[0] == 0, ForAll([k], Implies(And(k >= 1, k <= NL), And(cum[k] > cum[k - 1], cum[k] > 0)), patterns=[cum[k]])]
        arrlen(st, v.cum, NL + 2)
    if ff is not None:
        st.facts.append(ForAll([k], Implies(And(k >= 1, k <= NL), And(ff[k] > 0, ff[k] <= 1)), patterns=[ff[k]]))
        arrlen(st, v.ff, NL + 1)
    if 'stype' in v.vals:
        arrlen(st, v.stype, NL + 1)


def front_ok(ex, st, v, L, NL, extra=None):
    """every front lies in a layer, its moisture within the layer's range and its head non-negative"""
    i = Int('i!k')
    x = Select(L.seq(ex, st), i)
    lay, g = soil_of(ex, st, v, x)
    t = fld(ex, st, 'theta', x)
    c = [lay >= 1, lay <= NL, t > g('theta_r'), t <= g('theta_e'), fld(ex, st, 'psi_cm', x) >= 0]
    y = Select(L.seq(ex, st), i + 1)
    c.append(Implies(And(Not(fld(ex, st, 'to_bottom', x)), i + 1 < L.len(ex, st)), fld(ex, st, 'layer_num', y) == lay))   # a moving front has a front below it in its layer
    if extra is not None:
        c += extra(x, lay, g)
    return ForAll([i], Implies(And(i >= 0, i < L.len(ex, st)), And(c)), patterns=[x])


def v_dzdt(prog):
    ex = V.new_exec(prog, C)
    names = ['closed', 'nint', 'hp', 'stype', 'cum', 'ff', 'head', 'sp']
    NL = Int('NL')
    ex.signs = True

    def pre(ex, st, v):
        L = SS.one_list(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, NL)
        cum = ex.arr(st, v.cum.region, 'real')
        st.facts += [v.hp >= 0, v.nint > 0]
        st.facts.append(front_ok(ex, st, v, L, NL, lambda x, lay, g: [fld(ex, st, 'depth_cm', x) > cum[lay - 1], fld(ex, st, 'depth_cm', x) > 0, fld(ex, st, 'K_cm_per_h', x) > 0]))
        q = Int('x!d')

        def at(part):
            def f(ex, s, N):
                ex.name_heaps(s)
                d = fld(ex, s, 'dzdt_cm_per_h', q)
                return ForAll([q], spec(ex, ex.entry, v, L, q, d, N)[part][1], patterns=[d])
            return f
        for k, (lab, _) in enumerate(spec(ex, st, v, L, q, fld(ex, st, 'dzdt_cm_per_h', q), IntVal(0))):
            def pool(ex, st, h, syms, N, k=k, lab=lab):
                if not modifies(syms, 'dzdt_cm_per_h'):
                    return []
                def prove(ex, s, f, h):
                    if h is None:
                        return None
                    return visited_update(ex, s, h, L, 'dzdt_cm_per_h', lambda x, d, n: spec(ex, ex.entry, v, L, x, d, n)[k][1], N,
                                          define=lambda x: LAW(x) == law(ex, ex.entry, v, L, x))
                return [Cand('velocities so far: ' + lab, lambda ex_, s, sub: at(k)(ex_, s, sub(N)), prove)]
            ex.pool.append(pool)

    # LAW(x) is defined as the expression below (velocity law of the top layer at front x); it is unfolded where a velocity is stored
    LAW = z3.Function('top_layer_law', I, R)

    def law(ex, e, v, L, x):
        pos = Select(L.idx(ex, e), x)
        lay, g = soil_of(ex, e, v, x)
        y = Select(L.seq(ex, e), pos + 1)
        th, tn = fld(ex, e, 'theta', x), fld(ex, e, 'theta', y)
        Ks = g('Ksat_cm_per_h') * Select(ex.arr(e, v.ff.region, 'real'), lay)
        G = GEFF(v.closed, tn, th, g('theta_e'), g('theta_r'), g('vg_alpha_per_cm'), g('vg_n'), g('vg_m'), g('h_min_cm'), Ks, v.nint, g('bc_lambda'), g('bc_psib_cm'))
        jump = th - tn
        raw = 1 / jump * (Ks * (G + v.hp) / fld(ex, e, 'depth_cm', x) + fld(ex, e, 'K_cm_per_h', x))
        return If(jump > 0, If(raw == 0, RealVal('1/1000000000'), If(raw > 10000, RealVal(10000), raw)), RealVal('1/1000000000'))

    def spec(ex, e, v, L, x, d, N):
        """clauses about the velocity d of front x after the first N fronts were treated"""
        n = L.len(ex, e)
        pos = Select(L.idx(ex, e), x)
        seen = And(L.mem(ex, e, x), pos < N, pos + 1 < n)
        lay, g = soil_of(ex, e, v, x)
        cap = LAW(x)
        tb = fld(ex, e, 'to_bottom', x)
        return [('untreated fronts keep theirs', Implies(Not(seen), d == fld(ex, e, 'dzdt_cm_per_h', x))),
                ('resting fronts have velocity 0', Implies(And(seen, tb), d == 0)),
                ('moving fronts have a positive velocity of at most 1e4', Implies(And(seen, Not(tb)), And(d > 0, d <= 10000))),
                ('top layer law', Implies(And(seen, Not(tb), lay == 1), d == cap))]

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        x = fresh('x', I)
        parts = cases(ex, s)
        ex.oblige(s, Or([And([c if val else Not(c) for c, val in vs] + [BoolVal(True)]) for _, vs in parts]), 'exits of the pass over the fronts', 'lemma')
        for r, vs in parts:
            d = fld(ex, r, 'dzdt_cm_per_h', x)
            for lab, f in spec(ex, e, v, L, x, d, L.len(ex, e)):
                ex.oblige(r, f, 'velocity: ' + lab, 'post')
        SL.frame_fields(ex, e, s, 'lgar_dzdt_calc', [f for f in SL.NODEF if f != 'dzdt_cm_per_h'])
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'lgar_dzdt_calc', names, pre, post)


# ------------------------------------------------------------------ percolation (C10)
def v_domain(prog):
    ex = V.new_exec(prog, C)
    names = ['dom', 'stype', 'ff', 'head', 'sp']
    NL = Int('NL')
    cum = Const('cum', ArraySort(I, R))

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, NL)
        st.facts.append(profile(ex, st, L, NL))
        n = L.len(ex, st)
        seq = L.seq(ex, st)
        x, y = Select(seq, n - 2), Select(seq, n - 1)
        st.facts.append(Implies(And(n >= 2, fld(ex, st, 'depth_cm', x) >= v.dom), fld(ex, st, 'layer_num', x) == fld(ex, st, 'layer_num', y)))

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        n = L.len(ex, e)
        seq0, seq1 = L.seq(ex, e), L.seq(ex, s)
        x, y = Select(seq0, n - 2), Select(seq0, n - 1)
        hit = And(n >= 2, fld(ex, e, 'depth_cm', x) >= v.dom)
        r = real(rv)
        SL.oblige_wf(ex, s, L, 'profile after percolation')
        ex.oblige(s, L.len(ex, s) == If(hit, n - 1, n), 'exactly the deepest moving front is removed, if it reached the bottom', 'post')
        i, q = fresh('i', I), fresh('x', I)
        ex.oblige(s, Implies(And(i >= 0, i < L.len(ex, s)), Select(seq1, i) == If(And(hit, i == n - 2), y, Select(seq0, i))), 'the other fronts keep their order', 'post')
        ex.oblige(s, Implies(hit, Not(Select(ex.heap(s, 'alloc'), x))), 'the front that left is released', 'post')
        lay, g = soil_of(ex, e, v, x)
        th = fld(ex, e, 'theta', x)
        Se = (th - g('theta_r')) / (g('theta_e') - g('theta_r'))
        new = {'theta': th, 'psi_cm': HF(Se, g('vg_alpha_per_cm'), g('vg_m'), g('vg_n')),
               'K_cm_per_h': KF(Se, g('Ksat_cm_per_h') * Select(ex.arr(e, v.ff.region, 'real'), lay), g('vg_m'))}
        for f in PH:
            old = fld(ex, e, f, q)
            ex.oblige(s, fld(ex, s, f, q) == (If(And(hit, q == y), new[f], old) if f in new else old), 'after percolation: %s' % f, 'post')
        T, U = terms(ex, e, L, cum), terms(ex, s, L, cum)
        m = L.len(ex, s)
        s.facts += [f for f in e.facts if not any(f.eq(z) for z in s.facts)]
        window(ex, s, T, n, U, m, simplify(n - 2), 2, 1, 'storage after percolation', cond=hit)
        s.facts.append(Implies(hit, And([Select(T, n - 2) == term(ex, e, L, cum, n - 2), Select(T, n - 1) == term(ex, e, L, cum, n - 1), Select(U, n - 2) == term(ex, s, L, cum, n - 2)])))
        s2 = s.copy()
        s2.path.append(hit)
        ex.oblige(s2, SUM(T, 0, n) - SUM(U, 0, m) == Select(T, n - 2) + Select(T, n - 1) - Select(U, n - 2), 'storage outside the bottom fronts', 'lemma')
        ex.oblige(s2, Select(T, n - 2) + Select(T, n - 1) - Select(U, n - 2) == (fld(ex, e, 'theta', x) - fld(ex, e, 'theta', y)) * (fld(ex, e, 'depth_cm', x) - fld(ex, e, 'depth_cm', y)), 'storage of the bottom fronts', 'lemma')
        ex.oblige(s2, r == (fld(ex, e, 'theta', x) - fld(ex, e, 'theta', y)) * (fld(ex, e, 'depth_cm', x) - fld(ex, e, 'depth_cm', y)), 'bottom flux is the decrease of soil storage', 'post')
        s3 = s.copy()
        s3.path.append(Not(hit))
        ex.oblige(s3, r == 0, 'no percolation unless a front reached the bottom', 'post')
        SL.frame_rest(ex, e, s, (L.headlv.key,))
    return V.verify(ex, 'lgar_wetting_front_cross_domain_boundary', names, pre, post)


# ------------------------------------------------------------------ case splits over merged states
def case_conds(ex, s, limit=3, un=True):
    """conditions that decide between the branches that were merged into state s"""
    out = []
    for k, a in s.arrays.items():
        if k[0] in ('wf', 'gl'):
            a = ex.unname(a) if un else a
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and not any(a.arg(0).eq(o) for o in out):
                out.append(a.arg(0))
    for k, a in s.cells.items():
        if k[0] == 'gl' and isinstance(a, z3.ExprRef) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and not any(a.arg(0).eq(o) for o in out):
            out.append(a.arg(0))
    return out[:limit]


def assume_case(ex, s, c, val, un=True):
    """state s restricted to the case c = val: conditionals on c are resolved"""
    n = s.copy()
    n.path = list(s.path) + [c if val else Not(c)]
    nc = simplify(Not(c))
    facts = []
    for f in s.facts:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
            a = f.arg(0)
            if a.eq(c):
                if val:
                    facts.append(f.arg(1))
                continue
            if a.eq(nc) or a.eq(Not(c)):
                if not val:
                    facts.append(f.arg(1))
                continue
        if getattr(ex, 'subst_cases', False):
            g = z3.substitute(f, (c, BoolVal(val)))
            if not g.eq(f):
                f = simplify(g)
                if is_true(f):
                    continue
        facts.append(f)
    n.facts = facts
    for k, a in list(n.arrays.items()):
        if k[0] in ('wf', 'gl') and un:
            a = ex.unname(a)
        n.arrays[k] = V.pick(a, c, val)
    for k, a in list(n.cells.items()):
        if isinstance(a, FV):
            n.cells[k] = FV(*[V.pick(x, c, val) if isinstance(x, z3.ExprRef) else x for x in (a.r, a.inf, a.nan)])
        elif isinstance(a, z3.ExprRef):
            n.cells[k] = V.pick(a, c, val)
    return n


def cases(ex, s, conds=None):
    """list of (state, values of the split conditions)"""
    conds = case_conds(ex, s) if conds is None else conds
    possible = ex.__dict__.setdefault('possible', {})

    def impossible(r):
        key = tuple(f.get_id() for f in r.path)
        if key in possible:
            return False
        if ex.valid(r, BoolVal(False), 500):
            return True
        possible[key] = list(r.path)      # kept alive: ids stay unique
        return False
    out = [(s, [])]
    for c in conds:
        nxt = []
        for q, vs in out:
            for val in (True, False):
                r = assume_case(ex, q, c, val)
                if not impossible(r):
                    nxt.append((r, vs + [(c, val)]))
        out = nxt
    if getattr(ex, 'nested_cases', False):
        done = []
        for depth in range(4):
            nxt = []
            for q, vs in out:
                cs = case_conds(ex, q, 1, False)
                if not cs:
                    done.append((q, vs))
                    continue
                for val in (True, False):
                    r = assume_case(ex, q, cs[0], val, False)
                    if not impossible(r):
                        nxt.append((r, vs + [(cs[0], val)]))
            out = nxt
            if not out:
                break
        out = done + out
    return out


def ground(s, clauses, idxs):
    """instances of universally quantified facts at given positions"""
    for f in clauses:
        for c in V.split_goal(f):
            if z3.is_quantifier(c) and c.num_vars() == 1:
                for i in idxs:
                    g = z3.substitute_vars(c.body(), i)
                    s.facts.append(g)


def only(s, *arrays):
    """state s with only the facts about these arrays (a weaker set of hypotheses)"""
    from loops import consts_of
    ok = set()
    for a in arrays:
        ok |= {c.get_id() for c in consts_of(a) if z3.is_array(c)}
    n = s.copy()
    f = lambda fs: [x for x in fs if all(c.get_id() in ok for c in consts_of(x) if z3.is_array(c))]
    n.facts, n.path = f(s.facts), f(s.path)
    return n


def origin_cases(ex, s):
    """cases of the state s was copied from, computed once"""
    b = getattr(s, 'origin', None)
    if b is None:
        return cases(ex, s)
    cache = ex.__dict__.setdefault('casecache', {})
    if id(b) not in cache:
        o = b.copy()
        ex.name_heaps(o)
        cache.clear()
        cache[id(b)] = (b, cases(ex, o))
    return [(q.copy(), vs) for q, vs in cache[id(b)][1]]


def splitinv(label, fn, prove=None, when=None, required=True):
    """annotated invariant fn(ex, state, iterations); preserved case by case over the branches of the loop body.
    prove(ex, head state, case state, iterations before, goal) may prepare or decide the case"""
    def pool(ex, st, h, syms, N):
        if when is not None and not when(ex, syms):
            return []

        def pr(ex, s, f, h):
            if h is None:
                return None
            for q, vs in origin_cases(ex, s):
                ex.name_heaps(q)
                g = fn(ex, q, N + 1)
                r = prove(ex, h, q, N, g, vs) if prove else None
                if r is None:
                    r = ex.pvalid(q, g)
                if not r:
                    if os.environ.get('DV_DEBUG'):
                        print('   case', [str(a)[:200] + '=' + str(b) for a, b in vs], 'of', label, file=sys.stderr)
                        ex.lastfail = (q, g)
                        if os.environ.get('DV_STOP') == label:
                            open('/tmp/fail.smt2', 'w').write(solve.dump(q.pc(), g))
                            raise Unsupported('stop')
                    return False
            return True

        def at(ex_, s, sub):
            ex_.name_heaps(s)
            return fn(ex_, s, sub(N))
        return [Cand(label, at, pr, required=required)]
    return pool


def cursor(L, prove=None):
    """list cursors: the variable is the front at position (iterations done)"""
    def pool(ex, st, h, syms, N):
        from loops import is_node_cell, raw
        out = []
        if ('a', L.key('seq')) not in syms:
            return []
        for t, x in syms.items():
            if t[0] == 'c' and is_node_cell(ex, t[1]) and t[1][0] == 'L':
                def fn(ex, s, N, k=t[1]):
                    v = raw(s.cells[k])
                    return And(N < L.len(ex, s), v == Select(L.seq(ex, s), N)) if isinstance(v, z3.ExprRef) else BoolVal(False)
                out += splitinv('%s is the front at position (iterations)' % t[1][2], fn, prove, required=False)(ex, st, h, syms, N)
        return out
    return pool


def split_list(L, when=None):
    """the list stays well formed (case by case)"""
    def pool(ex, st, h, syms, N):
        if not any(t[0] == 'a' and t[1] in (L.key('seq'), ('wf', 'next')) for t in syms):
            return []
        out = []
        for k, (nme, _) in enumerate(L.wf(ex, st)):
            def fn(ex, s, N, k=k):
                ex.name_heaps(s)
                return L.wf(ex, s)[k][1]
            out += splitinv('list well formed: ' + nme, fn)(ex, st, h, syms, N)
        return out
    return pool


# ------------------------------------------------------------------ merging (C08)
class Merge:
    """what a merging pass does, as a function of the state e before it. Positions are positions in the list before."""

    def __init__(self, ex, e, v, L):
        self.ex, self.e, self.v, self.L = ex, e, v, L
        self.seq, self.idx, self.n = L.seq(ex, e), L.idx(ex, e), L.len(ex, e)
        # kept[p]: the front at p is still there after the pass. kept[0]; kept[p+1] = not (kept[p] and over(p))
        self.kept = fresh('KEPT', ArraySort(I, B))

    def f(self, name, p):
        return fld(self.ex, self.e, name, Select(self.seq, p))

    def over(self, p):
        """the front at p overtakes the one below it"""
        return And(p + 1 < self.n, self.f('depth_cm', p) > self.f('depth_cm', p + 1), self.f('layer_num', p) == self.f('layer_num', p + 1), Not(self.f('to_bottom', p + 1)))

    def unfold(self, p):
        return Implies(And(p >= 0), Select(self.kept, p + 1) == Not(And(Select(self.kept, p), self.over(p))))

    def depth(self, p):
        t = lambda k: self.f('theta', k)
        d = lambda k: self.f('depth_cm', k)
        m = d(p) * (t(p) - t(p + 1)) + d(p + 1) * (t(p + 1) - t(p + 2))
        return m / (t(p) - t(p + 2))

    def new(self, f, p):
        ex, e, v = self.ex, self.e, self.v
        if f == 'depth_cm':
            return self.depth(p)
        lay, g = soil_of(ex, e, v, Select(self.seq, p))
        Se = (self.f('theta', p) - g('theta_r')) / (g('theta_e') - g('theta_r'))
        if f == 'psi_cm':
            return HF(Se, g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'))
        return KF(Se, g('Ksat_cm_per_h') * Select(ex.arr(e, v.ff.region, 'real'), lay), g('vg_m'))


def merge_pre(ex, st, v, L, NL):
    i = Int('i!k')
    n = L.len(ex, st)
    x, y = Select(L.seq(ex, st), i), Select(L.seq(ex, st), i + 1)
    lay, th, tb = ex.heap(st, 'layer_num'), ex.heap(st, 'theta'), ex.heap(st, 'to_bottom')
    return [('there is a front', n >= 1),
            ('fronts lie in the layers', profile(ex, st, L, NL)),
            ('a moving front has a front below it in its layer', ForAll([i], Implies(And(i >= 0, i < n, Not(Select(tb, x))), And(i + 1 < n, Select(lay, y) == Select(lay, x))), patterns=[x])),
            ('moisture decreases downwards within a layer', ForAll([i], Implies(And(i >= 0, i + 1 < n, Select(lay, y) == Select(lay, x)), Select(th, x) > Select(th, y)), patterns=[x]))]


def v_merge(prog):
    ex = V.new_exec(prog, C)
    names = ['stype', 'ff', 'head', 'sp']
    NL = Int('NL')
    cum = Const('cum', ArraySort(I, R))
    MOD = ('depth_cm', 'psi_cm', 'K_cm_per_h')

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, NL)
        ex.name_heaps(st)
        for f in NODEF_:
            ex.heap(st, f)
        st.facts += [f for _, f in merge_pre(ex, st, v, L, NL)]
        M = v.vals['M'] = Merge(ex, st.copy(), v, L)
        st.facts.append(Select(M.kept, 0))
        n0 = M.n
        pos = lambda ex, s, N: N + n0 - L.len(ex, s)
        i, q, x = Int('i!m'), Int('q!m'), Int('x!m')

        lmk = {}

        def here(ex, h, s, N, g, vs):
            """facts about the fronts at the cursor, each proved once per case"""
            p = pos(ex, h, N)
            merged = not L.seq(ex, s).eq(L.seq(ex, h))
            key = (id(h), N.get_id(), merged)
            if key not in lmk:
                q = s.copy()
                q.facts += [M.unfold(p), M.unfold(p + 1), Select(M.kept, simplify(p)) == Select(M.kept, p)]
                ground(q, [f for _, f in merge_pre(ex, M.e, v, L, NL)] + [f for _, f in L.wf(ex, M.e)], [p, p + 1, p + 2])
                ground(q, [f for _, f in L.wf(ex, h)] + [rest(ex, h, N)], [N, N + 1, N + 2])
                hs, S = L.seq(ex, h), M.seq
                lm = [N + 1 < L.len(ex, h), Select(hs, N) == Select(S, p), Select(hs, N + 1) == Select(S, p + 1), Select(M.kept, p)]
                if merged:
                    pv_, old = ex.removed[-1]
                    lm += [M.over(p), p + 2 < n0, N + 2 < L.len(ex, h), Select(hs, N + 2) == Select(S, p + 2), pv_ == N + 1, old == Select(S, p + 1), L.len(ex, s) == L.len(ex, h) - 1,
                           Not(Select(M.kept, p + 1)), Select(M.kept, p + 2), Select(M.idx, Select(S, p)) == p, Select(M.idx, Select(S, p + 1)) == p + 1, Select(M.idx, Select(S, p + 2)) == p + 2]
                else:
                    lm += [L.len(ex, s) == L.len(ex, h), Not(M.over(p)), Select(M.kept, p + 1)]
                ok = []
                for f in lm:
                    if not ex.pvalid(q, f):
                        ok = None
                        break
                    q.facts.append(f)
                    ok.append(f)
                lmk[key] = ok, h
            if lmk[key][0] is None:
                return False
            s.facts += lmk[key][0] + [M.unfold(p), M.unfold(p + 1)]
            if merged:
                ground(s, [f for f in s.facts if any(f.eq(z) for _, z in L.wf(ex, s))], [N, N + 1])
                ground(s, [f for f in h.facts if any(f.eq(z) for _, z in L.wf(ex, h))], [N, N + 1, N + 2])
            return None

        def released(ex, h, s, N, g, vs):
            if here(ex, h, s, N, g, vs) is False:
                return False
            x0 = fresh('x', I)
            s2 = only(s, ex.heap(h, 'alloc'), ex.heap(s, 'alloc'), M.seq, M.idx, M.kept, al0, L.seq(ex, h), ex.heap(h, 'front_num'), ex.heap(h, 'next'))
            p = pos(ex, h, N)
            for c in (Select(M.idx, x0) < p, Select(M.idx, x0) == p, Select(M.idx, x0) == p + 1, Select(M.idx, x0) > p + 1):
                s3 = s2.copy()
                s3.path.append(c)
                if not ex.pvalid(s3, z3.substitute_vars(g.body(), x0)):
                    return False
            return True
        rest = lambda ex, s, N: ForAll([i], Implies(And(i >= N, i < L.len(ex, s)), Select(L.seq(ex, s), i) == Select(M.seq, i + n0 - L.len(ex, s))), patterns=[Select(L.seq(ex, s), i)])
        add = lambda *a: ex.pool.append(splitinv(*a, when=lambda ex, syms: ('a', L.key('seq')) in syms))
        ex.pool.append(split_list(L))
        ex.pool.append(cursor(L, here))
        add('the front visited is still in the list', lambda ex, s, N: And(N + 1 <= L.len(ex, s), L.len(ex, s) <= n0), here)
        add('the front visited is kept', lambda ex, s, N: Select(M.kept, pos(ex, s, N)), here)
        add('fronts not yet visited are the rest of the list', rest, here)
        add('only fronts of the profile remain', lambda ex, s, N: ForAll([i], Implies(And(i >= 0, i < L.len(ex, s)), M_mem(ex, M, Select(L.seq(ex, s), i))), patterns=[Select(L.seq(ex, s), i)]), here)
        add('fronts visited before lie above', lambda ex, s, N: ForAll([i], Implies(And(i >= 0, i < N, i < L.len(ex, s)), And(Select(M.kept, Select(M.idx, Select(L.seq(ex, s), i))), Select(M.idx, Select(L.seq(ex, s), i)) < pos(ex, s, N))), patterns=[Select(L.seq(ex, s), i)]), here)
        add('remaining fronts keep their order', lambda ex, s, N: ForAll([i], Implies(And(i >= 0, i + 1 < L.len(ex, s)), Select(M.idx, Select(L.seq(ex, s), i)) < Select(M.idx, Select(L.seq(ex, s), i + 1))), patterns=[Select(L.seq(ex, s), i)]), here)
        def gone(ex, h, s, N, g, vs):
            if here(ex, h, s, N, g, vs) is False:
                return False
            q0 = fresh('q', I)
            x0 = Select(M.seq, q0)
            ground(s, [f for _, f in L.wf(ex, M.e)] + [kept(ex, h, N)], [q0])
            lem = L.mem(ex, s, x0) == (L.mem(ex, h, x0) if L.seq(ex, s).eq(L.seq(ex, h)) else And(L.mem(ex, h, x0), x0 != Select(L.seq(ex, h), N + 1)))
            if not ex.pvalid(only(s, L.seq(ex, h), L.idx(ex, h), L.seq(ex, s), L.idx(ex, s), M.seq, *[ex.heap(h, f) for f in ('next', 'front_num', 'alloc')]), lem):
                return False
            s.facts.append(lem)
            p = pos(ex, h, N)
            for c in (q0 < p, q0 == p, q0 == p + 1, q0 > p + 1):
                s2 = s.copy()
                s2.path.append(c)
                if not ex.pvalid(s2, z3.substitute_vars(g.body(), q0)):
                    return False
            return True
        kept = lambda ex, s, N: ForAll([q], Implies(And(q >= 0, q < n0), L.mem(ex, s, Select(M.seq, q)) == Or(q >= pos(ex, s, N), Select(M.kept, q))), patterns=[Select(M.seq, q)])
        add('kept fronts are still there', kept, gone)
        al0 = ex.heap(st, 'alloc')
        add('exactly the overtaken fronts are released', lambda ex, s, N: ForAll([x], Select(ex.heap(s, 'alloc'), x) == And(Select(al0, x), Not(And(M_mem(ex, M, x), Select(M.idx, x) < pos(ex, s, N), Not(Select(M.kept, Select(M.idx, x)))))), patterns=[Select(ex.heap(s, 'alloc'), x)]), released)
        for f in MOD:
            def fn(ex, s, N, f=f):
                return ForAll([x], Select(ex.heap(s, f), x) == If(And(M_mem(ex, M, x), Select(M.idx, x) < pos(ex, s, N), Select(M.kept, Select(M.idx, x)), M.over(Select(M.idx, x))), M.new(f, Select(M.idx, x)), Select(ex.heap(M.e, f), x)), patterns=[Select(ex.heap(s, f), x)])

            def pr(ex, h, s, N, g, vs, f=f):
                if here(ex, h, s, N, g, vs) is False:
                    return False
                return update_at(ex, h, s, M, pos, N, f)
            add('%s changed exactly at the fronts that overtook' % f, fn, pr)

        def sto(ex, s, N):
            return storage(ex, s, L, cum) == storage(ex, M.e, L, cum)

        def sto_pr(ex, h, s, N, g, vs):
            if here(ex, h, s, N, g, vs) is False:
                return False
            T, U = terms(ex, h, L, cum), terms(ex, s, L, cum)
            s.facts += [z for z in h.facts if z.get_id() not in {w.get_id() for w in s.facts}]
            n, m = L.len(ex, h), L.len(ex, s)
            how = same_terms(ex, h, L)
            if L.seq(ex, h).eq(L.seq(ex, s)):
                if not sum_shift(ex, s, T, IntVal(0), n, U, IntVal(0), 'no merge', how=how):
                    return False
                return ex.pvalid(s, g)
            s.facts.append(m == n - 1)
            if not window(ex, s, T, n, U, m, N, 2, 1, 'merge', how=how):
                return False
            p = pos(ex, h, N)
            # the window itself
            a, b, c = Select(M.seq, p), Select(M.seq, p + 1), Select(M.seq, p + 2)
            d = lambda z: fld(ex, M.e, 'depth_cm', z)
            t = lambda z: fld(ex, M.e, 'theta', z)
            l0 = fld(ex, M.e, 'layer_num', a)
            DP = fresh('newdepth', R)       # = M.depth(p)
            if not update_at(ex, h, s, M, pos, N, 'depth_cm'):
                return False
            s.facts.append(Select(ex.heap(s, 'depth_cm'), a) == DP)
            if not (term_is(ex, s, h, L, N, d(a), l0, t(a), t(b)) and term_is(ex, s, h, L, N + 1, d(b), l0, t(b), t(c)) and term_is(ex, s, s, L, N, DP, l0, t(a), t(c))):
                return False
            z = Select(T, N) + Select(T, N + 1) == Select(U, N)
            if not ex.pvalid(s, t(a) != t(c)):
                return False
            # pure arithmetic: (d1-c0)(ta-tb) + (d2-c0)(tb-tc) = (D-c0)(ta-tc) for D = (d1(ta-tb)+d2(tb-tc))/(ta-tc)
            D1, D2, TA, TB, TC, C0, DD = z3.Reals('D1 D2 TA TB TC C0 DD')
            ar = Implies(And(TA != TC, DD * (TA - TC) == D1 * (TA - TB) + D2 * (TB - TC)), (D1 - C0) * (TA - TB) + (D2 - C0) * (TB - TC) == (DD - C0) * (TA - TC))
            if solve.prove([], ar, 5000, quick=True).status != 'valid':
                return False
            s.facts += [z]
            return ex.pvalid(s, g)
        add('soil storage is unchanged', sto, sto_pr)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        M = v.M
        n0 = M.n
        ex.name_heaps(s)
        seq = L.seq(ex, s)
        p, x, i = fresh('p', I), fresh('x', I), fresh('i', I)
        SL.oblige_wf(ex, s, L, 'profile after merging')
        ex.oblige(s, L.len(ex, s) >= 1, 'a front remains', 'post')
        ex.oblige(s, Implies(And(p >= 0, p < n0), L.mem(ex, s, Select(M.seq, p)) == Select(M.kept, p)), 'exactly the overtaken fronts are removed', 'post')
        ex.oblige(s, Implies(And(i >= 0, i < L.len(ex, s)), M_mem(ex, M, Select(seq, i))), 'only fronts of the profile remain', 'post')
        ex.oblige(s, Implies(And(i >= 0, i + 1 < L.len(ex, s)), Select(M.idx, Select(seq, i)) < Select(M.idx, Select(seq, i + 1))), 'remaining fronts keep their order', 'post')
        hit = And(M_mem(ex, M, x), Select(M.kept, Select(M.idx, x)), M.over(Select(M.idx, x)))
        for f in MOD:
            ex.oblige(s, Implies(Not(hit), fld(ex, s, f, x) == fld(ex, e, f, x)), 'fronts that did not overtake keep their %s' % f, 'post')
            new = fresh('new', R)
            s.facts.append(Implies(hit, new == M.new(f, Select(M.idx, x))))
            ex.oblige(s, Implies(hit, fld(ex, s, f, x) == M.new(f, Select(M.idx, x))), 'an overtaking front gets its new %s' % f, 'post')
        ex.oblige(s, Select(ex.heap(s, 'alloc'), x) == And(Select(ex.heap(e, 'alloc'), x), Not(And(M_mem(ex, M, x), Not(Select(M.kept, Select(M.idx, x)))))), 'exactly the overtaken fronts are released', 'post')
        ex.oblige(s, storage(ex, s, L, cum) == storage(ex, e, L, cum), 'soil storage is unchanged', 'post')
        SL.frame_fields(ex, e, s, 'merging', ('theta', 'layer_num', 'to_bottom', 'dzdt_cm_per_h'))
        SL.frame_rest(ex, e, s, (L.headlv.key,))
    return V.verify(ex, 'lgar_merge_wetting_fronts', names, pre, post)


NODEF_ = SL.NODEF


def M_mem(ex, M, x):
    return M.L.mem(ex, M.e, x)


def same_terms(ex, h, L, focus=True):
    """discharges 'front j after has the same storage term as front i before': equal ingredients give equal terms"""
    def how(s, g, lab):
        eq = g.arg(1)
        j, i = eq.arg(0).arg(1), eq.arg(1).arg(1)
        q = s.copy()
        q.path.append(g.arg(0))
        q.facts += [i == i]
        hs, ss, n, m = L.seq(ex, h), L.seq(ex, s), L.len(ex, h), L.len(ex, s)
        x, X = Select(hs, i), Select(ss, simplify(j))
        y, Y = Select(hs, i + 1), Select(ss, simplify(j + 1))
        F = lambda st, f, z: fld(ex, st, f, z)
        if focus:
            q = only(q, hs, ss, L.idx(ex, h), L.idx(ex, s), *[ex.heap(st, f) for f in ('depth_cm', 'theta', 'layer_num', 'alloc', 'front_num', 'next') for st in (h, s)])
        ground(q, [f for _, f in L.wf(ex, h) if any(f.eq(z) for z in q.facts)], [i, i + 1])
        from loops import stores
        for f in ('depth_cm', 'theta', 'layer_num'):
            ixs = stores(ex.unname(s.arrays[('wf', f)]), ex.heap(h, f)) if ('wf', f) in s.arrays else None
            for z in (x, y):       # a front at which the field was not written (read over write)
                if ixs:
                    q.facts.append(Implies(And([z != ix for ix in ixs]), F(s, f, z) == F(h, f, z)))
        for f in (X == x, F(s, 'depth_cm', X) == F(h, 'depth_cm', x), F(s, 'theta', X) == F(h, 'theta', x), F(s, 'layer_num', X) == F(h, 'layer_num', x), (j + 1 < m) == (i + 1 < n),
                  Implies(i + 1 < n, Y == y), Implies(i + 1 < n, And(F(s, 'theta', Y) == F(h, 'theta', y), F(s, 'layer_num', Y) == F(h, 'layer_num', y)))):
            if not ex.pvalid(q, f):
                return False
            q.facts.append(f)
        return True
    return how


def term_is(ex, s, st, L, i, d, l, t, below):
    """the storage term of front i in state st is (d - cum[l-1]) * (t - below): its ingredients are equal to these"""
    n = L.len(ex, st)
    x, y = Select(L.seq(ex, st), i), Select(L.seq(ex, st), i + 1)
    F = lambda f, z: fld(ex, st, f, z)
    for g in (F('depth_cm', x) == d, F('layer_num', x) == l, F('theta', x) == t, If(And(i + 1 < n, F('layer_num', y) == F('layer_num', x)), F('theta', y), RealVal(0)) == below):
        if not ex.pvalid(s, g):
            return False
    return True


def update_at(ex, h, s, M, pos, N, f):
    """field f of one front may be written in this case"""
    from loops import stores
    A = ex.heap(h, f)
    nA = ex.unname(s.arrays[('wf', f)])
    x = fresh('x', I)
    p = pos(ex, h, N)
    p1 = pos(ex, s, N + 1)
    cl = lambda x, val, p: val == If(And(M_mem(ex, M, x), Select(M.idx, x) < p, Select(M.kept, Select(M.idx, x)), M.over(Select(M.idx, x))), M.new(f, Select(M.idx, x)), Select(ex.heap(M.e, f), x))
    ixs = stores(nA, A)
    if ixs is None or len(ixs) > 1:
        return None
    new, old = fresh('new', R), fresh('old', R)
    cond = lambda x, p: And(M_mem(ex, M, x), Select(M.idx, x) < p, Select(M.kept, Select(M.idx, x)), M.over(Select(M.idx, x)))
    ix = ixs[0] if ixs else None
    # the fronts not written: the same clause applies before and after
    k = Select(M.idx, x)
    s2 = only(s, M.seq, M.idx, M.kept, M.L.seq(ex, h))
    g = And(M_mem(ex, M, x), k < p, Select(M.kept, k)) == And(M_mem(ex, M, x), k < p1, Select(M.kept, k))
    for c in (k < p, k == p + 1, k > p + 1):
        s3 = s2.copy()
        s3.path.append(c)
        if not ex.pvalid(s3, g):
            return False
    s3 = only(s, M.seq, M.idx, M.kept, M.L.seq(ex, h), *[ex.heap(M.e, w) for w in ('depth_cm', 'layer_num', 'to_bottom')])
    s3.path += [k == p, M_mem(ex, M, x)]
    if ix is not None:
        if not ex.pvalid(s, ix == Select(M.seq, p)) or not ex.pvalid(s3, x == Select(M.seq, p)):
            return False
    elif not ex.pvalid(s3, cond(x, p) == cond(x, p1)):
        return False
    if ix is None:
        return True
    a, b, c = Select(M.seq, p), Select(M.seq, simplify(p + 1)), Select(M.seq, simplify(p + 2))
    if not ex.pvalid(s, And(ix == a, Select(M.idx, ix) == p, cond(a, p1)), 6000):
        return False
    val = read_at(nA, ix)
    nx = ex.heap(h, 'next')
    pairs = [(ix, Select(M.seq, p)), (Select(nx, Select(M.seq, p)), Select(M.seq, p + 1)), (Select(nx, Select(M.seq, p + 1)), Select(M.seq, p + 2))]
    val = rewrite(ex, s, val, pairs, pv=True)
    fl = {ff: ex.heap(h, ff) for ff in PH}
    back = []
    for z in apps(val, z3.Z3_OP_SELECT):
        for ff, arr in fl.items():
            if z.arg(0).eq(arr) and not arr.eq(ex.heap(M.e, ff)):
                back.append((z, Select(ex.heap(M.e, ff), z.arg(1))))
    val = rewrite(ex, s, val, back, pv=True)
    w = M.new(f, p)
    if z3.simplify(val).eq(z3.simplify(w)):
        return True
    return ex.pvalid(s, val == w, 6000)


# ------------------------------------------------------------------ crossing a layer boundary (C09)
class Cross:
    """what a crossing pass does, as a function of the state e before it. Arrays over list positions, defined by recursion:
    D, L, T, P, B, Z: depth, layer, moisture, head, bottom flag, velocity of the front when the pass arrives at it; X: it crosses"""

    def __init__(self, ex, e, v, Ls):
        self.ex, self.e, self.v, self.Ls = ex, e, v, Ls
        self.seq, self.idx, self.n = Ls.seq(ex, e), Ls.idx(ex, e), Ls.len(ex, e)
        A = lambda nm, srt: fresh(nm, ArraySort(I, srt))
        self.arr = {'depth_cm': A('D', R), 'layer_num': A('LAY', I), 'theta': A('TH', R), 'psi_cm': A('PSI', R), 'to_bottom': A('BOT', B), 'dzdt_cm_per_h': A('VEL', R)}
        self.X = A('X', B)
        self.co = A('CO', B)      # some crossing so far met equal moistures in the lower layer
        self.cum = ex.arr(e, v.cum.region, 'real')

    def f(self, name, p):
        return fld(self.ex, self.e, name, Select(self.seq, p))

    def a(self, name, p):
        return Select(self.arr[name], p)

    def soil(self, lay):
        k = Select(self.ex.arr(self.e, self.v.stype.region, 'int'), lay)
        return lambda f: soil(self.ex, self.e, self.v.sp, f, k)

    def start(self):
        return And([self.a(f, 0) == self.f(f, 0) for f in self.arr] + [Not(Select(self.co, 0))])

    def crosses(self, p):
        l = self.a('layer_num', p)
        return And(p + 1 < self.n, self.a('depth_cm', p) > Select(self.cum, l), self.f('depth_cm', p + 1) == Select(self.cum, l), l != self.v.NL)

    def Se(self, p):
        g = self.soil(self.a('layer_num', p))
        return (self.a('theta', p) - g('theta_r')) / (g('theta_e') - g('theta_r'))

    def head(self, p):
        g = self.soil(self.a('layer_num', p))
        return HF(self.Se(p), g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'))

    def K(self, p):
        l = self.a('layer_num', p)
        g = self.soil(l)
        return KF(self.Se(p), g('Ksat_cm_per_h') * Select(self.ex.arr(self.e, self.v.ff.region, 'real'), l), g('vg_m'))

    def below(self, p):
        """moisture of the front that moves into the next layer"""
        g = self.soil(self.a('layer_num', p) + 1)
        return THETAF(self.head(p), g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'), g('theta_e'), g('theta_r'))

    def water(self, p):
        """water beyond the layer bottom"""
        g = self.soil(self.a('layer_num', p))
        th = self.a('theta', p)
        return (self.a('depth_cm', p) - self.f('depth_cm', p + 1)) * (If(g('theta_e') <= th, g('theta_e'), th) - self.f('theta', p + 1))

    def jump(self, p):
        return self.below(p) - self.f('theta', p + 2)

    def newdepth(self, p):
        l = self.a('layer_num', p)
        return Select(self.cum, l) + If(And(self.jump(p) == 0, self.water(p) != 0), Select(self.cum, l + 1) / 1000, self.water(p) / self.jump(p))

    def step(self, p):
        """definitions at p: X[p] and the arrival values at p+1"""
        X = Select(self.X, p)
        nxt = {'depth_cm': self.newdepth(p), 'layer_num': self.a('layer_num', p) + 1, 'theta': self.below(p), 'psi_cm': self.head(p), 'to_bottom': BoolVal(False), 'dzdt_cm_per_h': self.a('dzdt_cm_per_h', p)}
        return [X == self.crosses(p), Select(self.co, p + 1) == Or(Select(self.co, p), And(X, self.jump(p) == 0))] + \
            [Implies(X, self.a(f, p + 1) == nxt[f]) for f in nxt] + [Implies(Not(X), self.a(f, p + 1) == self.f(f, p + 1)) for f in nxt]

    def final(self, f, p):
        """value of the field after the pass has treated position p"""
        X = Select(self.X, p)
        if f == 'depth_cm':
            return If(X, Select(self.cum, self.a('layer_num', p)), self.a(f, p))
        if f == 'psi_cm':
            return If(X, self.head(p), self.a(f, p))
        if f == 'K_cm_per_h':
            return If(X, self.K(p), self.f(f, p))
        if f == 'to_bottom':
            return Or(X, self.a(f, p))
        if f == 'dzdt_cm_per_h':
            return If(X, RealVal(0), self.a(f, p))
        return self.a(f, p)

    def arrive(self, f, p):
        return self.a(f, p) if f in self.arr else self.f(f, p)


def cross_pre(ex, st, v, L):
    i = Int('i!k')
    n = L.len(ex, st)
    x, y = Select(L.seq(ex, st), i), Select(L.seq(ex, st), i + 1)
    lay, th, tb, d = ex.heap(st, 'layer_num'), ex.heap(st, 'theta'), ex.heap(st, 'to_bottom'), ex.heap(st, 'depth_cm')
    cum = ex.arr(st, v.cum.region, 'real')
    k = Select(ex.arr(st, v.stype.region, 'int'), Select(lay, x))
    g = lambda f: soil(ex, st, v.sp, f, k)
    A = lambda c: ForAll([i], Implies(And(i >= 0, i < n), c), patterns=[x])
    l = Select(lay, x)
    return [('there is a front', n >= 1),
            ('fronts lie in the layers', A(And(l >= 1, l <= v.NL))),
            ('moistures lie between residual and saturated', A(And(Select(th, x) > g('theta_r'), Select(th, x) <= g('theta_e')))),
            ('a moving front has a front below it in its layer', A(Implies(Not(Select(tb, x)), And(i + 1 < n, Select(lay, y) == l)))),
            ('a resting front lies at the bottom of its layer, the next layer begins below it', A(Implies(Select(tb, x), And(Select(d, x) == cum[l], (i + 1 < n) == (l < v.NL), Implies(i + 1 < n, Select(lay, y) == l + 1))))),
            ('only the topmost moving front may lie exactly at the bottom of its layer', A(Implies(And(i >= 1, Not(Select(tb, x))), Select(d, x) != cum[l])))]


CROSSF = ('depth_cm', 'layer_num', 'theta', 'psi_cm', 'K_cm_per_h', 'to_bottom', 'dzdt_cm_per_h')


def v_cross(prog):
    ex = V.new_exec(prog, C)
    names = ['NL', 'cum', 'stype', 'ff', 'head', 'sp']

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, v.NL)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        st.facts += [f for _, f in cross_pre(ex, st, v, L)]
        M = v.vals['M'] = Cross(ex, st.copy(), v, L)
        st.facts.append(M.start())
        n, x, q = M.n, Int('x!m'), Int('q!m')
        isloop = lambda ex, syms: modifies(syms, 'layer_num')
        add = lambda *a: ex.pool.append(splitinv(*a, when=isloop))
        lmk = {}

        def facts_at(ex, h, s, N):
            """definitions at the cursor and what is known there"""
            key = (id(h), N.get_id())
            S = M.seq
            if key not in lmk:
                q = h.copy()
                q.facts += M.step(N)
                q.path.append(N + 1 < n)
                ground(q, [f for _, f in cross_pre(ex, M.e, v, L)] + [f for _, f in L.wf(ex, M.e)], [N, N + 1, N + 2])
                lm = [Select(M.idx, Select(S, N)) == N, Select(M.idx, Select(S, N + 1)) == N + 1]
                lm += [fld(ex, h, f, Select(S, N)) == M.arrive(f, N) for f in CROSSF]
                lm += [fld(ex, h, f, Select(S, N + 1)) == M.f(f, N + 1) for f in CROSSF]
                X = Select(M.X, N)
                lm += [Implies(X, And(M.a('layer_num', N) >= 1, M.a('layer_num', N) < v.NL)), Implies(X, M.f('layer_num', N + 1) == M.a('layer_num', N)), Implies(X, M.f('to_bottom', N + 1)), Implies(X, N + 2 < n),
                       Implies(X, And(Select(M.idx, Select(S, N + 2)) == N + 2, M.f('layer_num', N + 2) == M.a('layer_num', N) + 1))]
                lm += [Implies(X, fld(ex, h, f, Select(S, N + 2)) == M.f(f, N + 2)) for f in ('theta', 'layer_num')]
                g = M.soil(M.a('layer_num', N))
                g2 = M.soil(M.a('layer_num', N) + 1)
                lm += [And(g('theta_r') < M.a('theta', N), M.a('theta', N) <= g('theta_e')), And(M.Se(N) > 0, M.Se(N) <= 1), And(g('vg_alpha_per_cm') > 0, g('vg_m') > 0, g('vg_n') > 0), M.head(N) >= 0,
                       And(g2('vg_alpha_per_cm') > 0, g2('vg_m') > 0, g2('vg_n') > 0, g2('theta_e') > g2('theta_r')), And(M.below(N) > g2('theta_r'), M.below(N) <= g2('theta_e'))]
                ok = []
                for f in lm:
                    if not ex.pvalid(q, f):
                        ok = None
                        break
                    q.facts.append(f)
                    ok.append(f)
                lmk[key] = ok, h
            if lmk[key][0] is None:
                return False
            s.facts += lmk[key][0] + M.step(N) + [N + 1 < n]
            return None
        here = lambda ex, h, s, N, g, vs: facts_at(ex, h, s, N)
        add('the pass stays within the list', lambda ex, s, N: N + 1 <= n)
        defs = lambda ex, s, N: ForAll([q], Implies(And(q >= 0, q < N), And(M.step(q))), patterns=[Select(M.X, q)])
        v.vals['defs'] = defs

        def defs_pr(ex, h, s, N, g, vs):
            q0 = fresh('q', I)
            old = z3.substitute_vars(defs(ex, h, N).body(), q0)
            # q < N: as before; q = N: the definitions themselves
            return ex.pvalid(State(), Implies(And(q0 >= 0, q0 < N + 1, q0 != N), And(q0 >= 0, q0 < N)))
        add('definitions at the positions treated', defs, defs_pr)
        lay_ok = lambda p: (lambda l, g, t: And(l >= 1, l <= v.NL, t > g('theta_r'), t <= g('theta_e'),
                                                  Implies(Not(M.a('to_bottom', p)), And(p + 1 < n, M.f('layer_num', p + 1) == l)),
                                                  Implies(M.a('to_bottom', p), And(M.a('depth_cm', p) == M.cum[l], (p + 1 < n) == (l < v.NL), Implies(p + 1 < n, M.f('layer_num', p + 1) == l + 1)))))(
            M.a('layer_num', p), M.soil(M.a('layer_num', p)), M.a('theta', p))
        add('the front visited lies in its layer', lambda ex, s, N: lay_ok(N), here)
        for f in CROSSF:
            def val(x, N, f=f):
                k = Select(M.idx, x)
                return If(L.mem(ex, M.e, x), If(k < N, M.final(f, k), If(k == N, M.arrive(f, k), Select(ex.heap(M.e, f), x))), Select(ex.heap(M.e, f), x))

            def fn(ex, s, N, f=f, val=val):
                return ForAll([x], Select(ex.heap(s, f), x) == val(x, N), patterns=[Select(ex.heap(s, f), x)])

            def pr(ex, h, s, N, g, vs, f=f, val=val):
                if facts_at(ex, h, s, N) is False:
                    return False
                return cross_update(ex, h, s, M, L, N, f, val)
            add('%s after the positions treated' % f, fn, pr)

        def sto(ex, s, N):
            return Implies(Not(Select(M.co, N)), storage(ex, s, L, M.cum) == storage(ex, M.e, L, M.cum))

        def sto_pr(ex, h, s, N, g, vs):
            if facts_at(ex, h, s, N) is False:
                return False
            return cross_storage(ex, h, s, M, L, N, g)
        add('soil storage is unchanged unless moistures coincided', sto, sto_pr)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        M = v.M
        n = M.n
        ex.name_heaps(s)
        p = fresh('p', I)
        x, y = Select(M.seq, p), Select(M.seq, p + 1)
        rng = And(p >= 0, p + 1 < n)
        X, Xb = Select(M.X, p), And(p >= 1, Select(M.X, p - 1))
        F = lambda f, z: fld(ex, s, f, z)
        SL.oblige_wf(ex, s, L, 'profile after crossing')
        ground(s, [f for _, f in L.wf(ex, M.e)], [p, p + 1])
        ground(s, [v.defs(ex, s, n - 1)], [p - 1, p])
        # instances of the field invariants at the fronts p and p+1 (their positions are p and p+1)
        inst = []
        for f in s.facts:
            if z3.is_quantifier(f) and f.num_vars() == 1 and f.var_name(0) == 'x!m':
                for z, k in ((x, p), (y, p + 1)):
                    inst.append(Implies(And(p >= 0, k < n, Select(M.idx, z) == k), z3.substitute(z3.substitute_vars(f.body(), z), (Select(M.idx, z), k))))
        s.facts += inst
        ex.oblige(s, Implies(And(rng, X), And(F('depth_cm', x) == Select(M.cum, F('layer_num', x)), F('to_bottom', x), F('dzdt_cm_per_h', x) == 0)), 'a crossing front ends at the bottom of its layer, at rest and marked', 'post')
        ex.oblige(s, Implies(And(rng, X, Not(Xb)), And(F('layer_num', x) == M.f('layer_num', p), F('theta', x) == M.f('theta', p))), 'a crossing front keeps its layer and moisture', 'post')
        for f in CROSSF:
            ex.oblige(s, Implies(And(p >= 0, p < n, Not(And(p + 1 < n, X)), Not(Xb)), F(f, x) == M.f(f, p)), 'a front that does not cross keeps its %s' % f, 'post')
        ex.oblige(s, Implies(And(rng, Not(Xb)), X == And(M.f('depth_cm', p) > M.cum[M.f('layer_num', p)], M.f('depth_cm', p + 1) == M.cum[M.f('layer_num', p)], M.f('layer_num', p) != v.NL)), 'a front crosses exactly when it is below the bottom of its layer', 'post')
        ex.oblige(s, Implies(And(rng, X), F('layer_num', y) == F('layer_num', x) + 1), 'the front below moves into the next layer', 'post')
        g = M.soil(F('layer_num', y))
        s4 = s.copy()
        s4.path += [rng, X]
        s4.facts = inst + [v_ for v_ in s.facts if not z3.is_quantifier(v_) or v_.var_name(0) != 'x!m']
        ex.oblige(s4, F('psi_cm', x) == M.head(p), 'the crossing front takes the head of its moisture', 'post')
        ex.oblige(s4, F('theta', y) == M.below(p), 'the front below takes the moisture of the head in its new layer', 'post')
        ex.oblige(s, Implies(Not(Select(M.co, n - 1)), storage(ex, s, L, M.cum) == storage(ex, e, L, M.cum)), 'soil storage is unchanged', 'post')
        SL.frame_fields(ex, e, s, 'crossing', ('front_num', 'next', 'alloc', 'own'))
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'lgar_wetting_fronts_cross_layer_boundary', names, pre, post)


def cross_update(ex, h, s, M, L, N, f, val):
    from loops import stores
    A = ex.heap(h, f)
    nA = ex.unname(s.arrays[('wf', f)])
    ixs = stores(nA, A)
    if ixs is None:
        return None
    S = M.seq
    x = fresh('x', I)
    k = Select(M.idx, x)
    a, b, c = Select(S, N), Select(S, N + 1), Select(S, N + 2)
    nx = ex.heap(h, 'next')
    q = s.copy()
    # where is written: the front at the cursor or the one below it
    where = {}
    for ix in ixs:
        o = hops(ix, nx)
        for off in (o, 1 - o) if o <= 1 else (0, 1):
            if ex.pvalid(q, ix == (a, b)[off], 2000):
                where[ix.get_id()] = off
                break
        else:
            return False
        q.facts.append(ix == (a if where[ix.get_id()] == 0 else b))
    # fronts not written
    o = only(q, S, M.idx, M.X)
    w = [z for z in where.values()]
    for cs, off in ((And(k < N), None), (k == N, 0), (k == N + 1, 1), (k > N + 1, None)):
        if off is not None and off in w:
            continue
        o2 = q.copy()
        o2.path += [cs, L.mem(ex, M.e, x)]
        o2.facts += [Implies(k == N, x == a), Implies(k == N + 1, x == b)]
        g = val(x, N) == val(x, N + 1)
        if off is not None:
            g = fld(ex, h, f, (a, b)[off]) == (M.final(f, N) if off == 0 else M.arrive(f, N + 1))
            if not ex.pvalid(o2, g):
                return False
        elif not ex.pvalid(only(o2, S, M.idx), g):
            return False
    # fronts written
    for ix in ixs:
        off = where[ix.get_id()]
        v = last_write(nA, ix)
        want = M.final(f, N) if off == 0 else M.arrive(f, N + 1)
        # landmark equalities turn the code's terms into the specification's
        cells = [(z, Select(S, N)) for z in ixs if where[z.get_id()] == 0] + [(z, Select(S, N + 1)) for z in ixs if where[z.get_id()] == 1]
        v = norm_reads(ex, h, s, M, q, v, N)
        if not ex.pvalid(q, Select(M.X, N)):
            return False
        d = {}
        q.facts.append(Select(M.X, N))
        w_ = M_step_value(M, f, N, off)
        if V.split_prove([], v == w_, V.ite_conds(v == w_, 4), 3000, ()).status == 'valid':
            continue
        if not ex.pvalid(q, v == w_):
            return False
    return True


def M_step_value(M, f, N, off):
    """the value the specification gives when the front at N crosses"""
    l = M.a('layer_num', N)
    if off == 0:
        return {'depth_cm': lambda: Select(M.cum, l), 'psi_cm': lambda: M.head(N), 'K_cm_per_h': lambda: M.K(N), 'to_bottom': lambda: BoolVal(True), 'dzdt_cm_per_h': lambda: RealVal(0)}.get(f, lambda: M.a(f, N))()
    return {'depth_cm': lambda: M.newdepth(N), 'layer_num': lambda: l + 1, 'theta': lambda: M.below(N), 'psi_cm': lambda: M.head(N), 'to_bottom': lambda: BoolVal(False), 'dzdt_cm_per_h': lambda: M.a('dzdt_cm_per_h', N)}.get(f, lambda: M.arrive(f, N + 1))()


def hops(x, nx):
    k = 0
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(nx):
        x, k = x.arg(1), k + 1
    return k


def last_write(A, ix):
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
        if A.arg(1).eq(ix):
            return A.arg(2)
        return last_write(A.arg(0), ix)
    if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_ITE:
        return If(A.arg(0), last_write(A.arg(1), ix), last_write(A.arg(2), ix))
    return Select(A, ix)


def norm_reads(ex, h, s, M, q, v, N):
    """pointer variables -> list positions, fields read -> arrival / entry values (each equality is checked)"""
    S = M.seq
    nx = ex.heap(h, 'next')
    for rnd in range(4):
        pairs = []
        for z in apps(v, z3.Z3_OP_SELECT):
            for f in CROSSF:
                if z.arg(0).eq(ex.heap(h, f)):
                    o = hops(z.arg(1), nx)
                    for off in sorted((0, 1, 2), key=lambda w: abs(w - o)):
                        p = Select(S, N + off)
                        if z.arg(1).eq(p) or ex.pvalid(q, z.arg(1) == p, 2000):
                            pairs.append((z, M.arrive(f, N) if off == 0 else M.f(f, N + off)))
                            break
        pairs = [(a, b) for a, b in pairs if not a.eq(b)]
        if not pairs:
            break
        v2 = rewrite(ex, q, v, pairs, pv=True)
        if v2.eq(v):
            break
        v = v2
    return v


def cross_storage(ex, h, s, M, L, N, g):
    T, U = terms(ex, h, L, M.cum), terms(ex, s, L, M.cum)
    s.facts += [z for z in h.facts if z.get_id() not in {w.get_id() for w in s.facts}]
    n, S = M.n, M.seq
    how = same_terms(ex, h, L)
    if all(ex.heap(s, f).eq(ex.heap(h, f)) for f in ('depth_cm', 'theta', 'layer_num')):
        if not sum_shift(ex, s, T, IntVal(0), n, U, IntVal(0), 'no crossing', how=how):
            return False
        return ex.pvalid(s, g)
    a, b, c = Select(S, N), Select(S, N + 1), Select(S, N + 2)
    if not ex.pvalid(s, Select(M.X, N)):
        return False
    s.facts.append(Select(M.X, N))
    ND, TB = fresh('newdepth', R), fresh('below', R)      # = M.newdepth(N), M.below(N)
    l, D, t, tn, tnn = M.a('layer_num', N), M.a('depth_cm', N), M.a('theta', N), M.f('theta', N + 1), M.f('theta', N + 2)
    # what the fields are after this iteration is the (required) invariant of each field, proved for the same states
    for f, va, vb in (('depth_cm', Select(M.cum, l), ND), ('theta', t, TB), ('layer_num', l, l + 1)):
        s.facts += [fld(ex, s, f, a) == va, fld(ex, s, f, b) == vb]
    s.facts += [fld(ex, s, f, c) == M.f(f, N + 2) for f in ('theta', 'layer_num')]
    s.facts.append(TB == M.below(N))
    if not window(ex, s, T, n, U, n, N, 2, 2, 'crossing', how=how):
        return False
    cl = Select(M.cum, l)
    if not (term_is(ex, s, h, L, N, D, l, t, tn) and term_is(ex, s, h, L, N + 1, cl, l, tn, RealVal(0)) and term_is(ex, s, s, L, N, cl, l, t, RealVal(0)) and term_is(ex, s, s, L, N + 1, ND, l + 1, TB, tnn)):
        return False
    gs = M.soil(l)
    s2 = s.copy()
    s2.path.append(Not(Select(M.co, N + 1)))
    if not (ex.pvalid(s2, TB != tnn) and ex.pvalid(s2, M.f('depth_cm', N + 1) == cl) and ex.pvalid(s, If(gs('theta_e') <= t, gs('theta_e'), t) == t) and ex.pvalid(s2, Not(Select(M.co, N)))):
        return False
    # arithmetic of one crossing, for all values
    D_, t_, n_, c1, c0, B_, nn, ND_ = z3.Reals('D t n c1 c0 B nn ND')
    ar = Implies(And(B_ != nn, ND_ == c1 + ((D_ - c1) * (t_ - n_)) / (B_ - nn)), (D_ - c0) * (t_ - n_) + (c1 - c0) * n_ == (c1 - c0) * t_ + (ND_ - c1) * (B_ - nn))
    w = z3.Real('w')
    ar1 = Implies(And(B_ != nn, ND_ == c1 + w / (B_ - nn)), (ND_ - c1) * (B_ - nn) == w)
    ar2 = (D_ - c0) * (t_ - n_) + (c1 - c0) * n_ == (c1 - c0) * t_ + (D_ - c1) * (t_ - n_)
    for z in (ar1, ar2):
        if solve.prove([], z, 5000, quick=True).status != 'valid':
            return False
    s2.facts.append(Select(T, N) + Select(T, N + 1) == Select(U, N) + Select(U, N + 1))
    return ex.pvalid(s2, g.arg(1))
