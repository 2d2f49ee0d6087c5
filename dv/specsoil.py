"""Contracts: soil hydraulic functions, capillary drive, dry depth, AET, GIUH."""
from sym import *
import sym
import verify as V
from execu import LCell, LArr, Obl
import speclist as SL


# ------------------------------------------------------------------ call-site contracts
def _args(ex, st, argn):
    return [ex.ev(a, st) for a in argn]


def c_theta(ex, st, argn, e):
    return THETAF(*[real(a) for a in _args(ex, st, argn)])


def c_se(ex, st, argn, e):
    return SEF(*[real(a) for a in _args(ex, st, argn)])


def c_k(ex, st, argn, e):
    return KF(*[real(a) for a in _args(ex, st, argn)])


def c_h(ex, st, argn, e):
    return HF(*[real(a) for a in _args(ex, st, argn)])


def c_setheta(ex, st, argn, e):
    t, te, tr = _args(ex, st, argn)
    return ex.arith('/', ex.arith('-', t, tr, st, e), ex.arith('-', te, tr, st, e), st, e)


def geff_pre(a):
    """arguments for which the drive is claimed: residual <= theta1 <= theta2 <= saturated"""
    (closed, t1, t2, te, tr, al, n, m, hmin, Ks, nint, lam, psib) = a
    return And(te > tr, t1 >= tr, t1 <= t2, t2 <= te, lam > 0, psib >= 0)


def c_geff(ex, st, argn, e):
    a = _args(ex, st, argn)
    v = [as_bool(a[0])] + [real(x) for x in a[1:10]] + [as_int(a[10])] + [real(x) for x in a[11:]]
    g = GEFF(*v)
    st.facts.append(Implies(geff_pre(v), g >= 0))
    return g


CONTRACTS = {'calc_theta_from_h': c_theta, 'calc_Se_from_h': c_se, 'calc_K_from_Se': c_k, 'calc_h_from_Se': c_h,
             'calc_Se_from_theta': c_setheta, 'calc_Geff': c_geff}


# ------------------------------------------------------------------ defining formulas
def F_theta(h, al, m, n, te, tr):
    return RealVal(1) / POW(1 + POW(al * h, n), m) * (te - tr) + tr


def F_se(h, al, m, n):
    return If(And(h < RealVal('1/10000000000'), h > -RealVal('1/10000000000')), RealVal(1), RealVal(1) / POW(1 + POW(al * h, n), m))


def F_K(Se, Ks, m):
    u = 1 - POW(1 - POW(Se, 1 / m), m)
    return Ks * SQRT(Se) * (u * u)


def F_h(Se, al, m, n):
    return 1 / al * POW(POW(Se, -1 / m) - 1, 1 / n)


def lemma(ex, label, assums, goal, extra=()):
    ex.obls.append(Obl(label, 'lemma', list(assums), goal, 'lemma', 0, tuple(extra), None))


def _negexp(e):
    """-e if e is written with a leading minus sign, else None"""
    e = simplify(e)
    if z3.is_rational_value(e):
        return RealVal(-e.as_fraction()) if e.as_fraction() < 0 else None
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return e.arg(0)
    if z3.is_mul(e) or z3.is_div(e):
        n = _negexp(e.arg(0))
        if n is not None:
            r = n * e.arg(1) if z3.is_mul(e) else n / e.arg(1)
            for x in e.children()[2:]:
                r = r * x
            return simplify(r)
    return None


def canon(t, _memo=None):
    """powers in a canonical form: x^-e as 1/x^e, (1/x)^e as 1/x^e, (x^a)^b as x^(ab).  Exact for x > 0; for x = 0 both
    sides of the first rule are the same division by zero.  Lets algebraically equal spellings of the curves meet."""
    memo = {} if _memo is None else _memo
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = t
    if z3.is_app(t) and t.num_args():
        a = [canon(x, memo) for x in t.children()]
        if t.decl().eq(POW):
            b, e = a[0], simplify(a[1])
            inv = False
            if z3.is_app(b) and b.decl().eq(POW):
                b, e = b.arg(0), simplify(b.arg(1) * e)
            if z3.is_div(b) and z3.is_rational_value(b.arg(0)) and b.arg(0).as_fraction() == 1:
                b, inv = b.arg(1), True
                if z3.is_app(b) and b.decl().eq(POW):
                    b, e = b.arg(0), simplify(b.arg(1) * e)
            n = _negexp(e)
            if n is not None:
                e, inv = n, not inv
            r = RealVal(1) / POW(b, e) if inv else POW(b, e)
        else:
            r = t.decl()(*a)
    memo[k] = r
    return r


def simple(prog, fname, names, pre, spec, label):
    ex = V.new_exec(prog)

    def post(ex, e, s, rv, v):
        ex.oblige(s, canon(real(rv)) == canon(spec(v)), label, 'post')
        SL.frame_fields(ex, e, s, fname)
        SL.frame_rest(ex, e, s)
    return V.verify(ex, fname, names, pre, post)


def v_theta(prog):
    n = ['h', 'al', 'm', 'n', 'te', 'tr']
    return simple(prog, 'calc_theta_from_h', n, lambda ex, st, v: st.facts.append(And(v.al > 0, v.m > 0, v.n > 0, v.h >= 0)),
                  lambda v: F_theta(v.h, v.al, v.m, v.n, v.te, v.tr), 'moisture from head is theta_r + (theta_e-theta_r)(1+(alpha h)^n)^-m')


def v_se(prog):
    return simple(prog, 'calc_Se_from_h', ['h', 'al', 'm', 'n'],
                  lambda ex, st, v: st.facts.append(And(v.al > 0, v.m > 0, v.n > 0, v.h >= 0)),
                  lambda v: F_se(v.h, v.al, v.m, v.n), 'saturation from head is (1+(alpha h)^n)^-m, 1 for heads below 1e-10')


def v_K(prog):
    return simple(prog, 'calc_K_from_Se', ['Se', 'Ks', 'm'],
                  lambda ex, st, v: st.facts.append(And(v.Se >= 0, v.Se <= 1, v.Ks >= 0, v.m > 0)),
                  lambda v: F_K(v.Se, v.Ks, v.m), 'conductivity is Ks sqrt(Se)(1-(1-Se^(1/m))^m)^2')


def v_h(prog):
    return simple(prog, 'calc_h_from_Se', ['Se', 'al', 'm', 'n'],
                  lambda ex, st, v: st.facts.append(And(v.Se > 0, v.Se <= 1, v.al > 0, v.m > 0, v.n > 0)),
                  lambda v: F_h(v.Se, v.al, v.m, v.n), 'head from saturation is ((Se^(-1/m)-1)^(1/n))/alpha')


def v_setheta(prog):
    return simple(prog, 'calc_Se_from_theta', ['t', 'te', 'tr'], lambda ex, st, v: st.facts.append(v.te > v.tr),
                  lambda v: (v.t - v.tr) / (v.te - v.tr), 'saturation from moisture is (theta-theta_r)/(theta_e-theta_r)')


def v_lemmas(prog):
    """the properties of the curves follow from the defining formulas (these are the axioms used at call sites)"""
    ex = V.new_exec(prog)
    h, h2, al, m, n, te, tr, Se, Ks = z3.Reals('h h2 al m n te tr Se Ks')
    ok = And(al > 0, m > 0, n > 0)

    def stages(label, assums, steps, goal, extra=()):
        """a short chain: every step is an obligation of its own and then an assumption"""
        a = list(assums)
        for i, g in enumerate(steps):
            dep, xt = a, extra
            if isinstance(g, tuple):
                g, dep, xt = g if len(g) == 3 else g + ((),)
            lemma(ex, '%s (step %d)' % (label, i + 1), dep, g, xt)
            a = a + [g]
        dep = a
        if isinstance(goal, tuple):
            goal, dep = goal
        lemma(ex, label, dep, goal, extra if dep is a else ())
    p = POW(al * h, n)
    D = POW(1 + p, m)
    f = F_theta(h, al, m, n, te, tr)
    inv = RealVal(1) / D
    base = [ok, h >= 0]
    st1 = [al * h >= 0, p >= 0, D >= 1, And(inv > 0, inv <= 1)]
    stages('moisture lies between residual and saturated', base + [te >= tr], st1, And(f >= tr, f <= te))
    stages('moisture stays above residual', base + [te > tr], st1, f > tr)
    stages('moisture at zero head is saturated', [ok, te > tr, h == 0], [al * h == 0, p == 0, D == 1], f == te)
    stages('moisture below saturated at positive head', [ok, te > tr, h > 0], [al * h > 0, p > 0, D > 1, inv < 1], f < te)
    p2 = POW(al * h2, n)
    D2 = POW(1 + p2, m)
    stages('moisture decreases with head', [ok, te > tr, h >= 0, h < h2],
           [al * h >= 0, al * h < al * h2, p < p2, And(D >= 1, D < D2), RealVal(1) / D > RealVal(1) / D2],
           F_theta(h2, al, m, n, te, tr) < f)
    s = F_se(h, al, m, n)
    stages('saturation from head lies in (0,1]', base, st1, And(s > 0, s <= 1))
    stages('saturation from head below 1 at positive head', [ok, h >= RealVal('1/10000000000')], [al * h > 0, p > 0, D > 1, inv < 1], And(s < 1, s == inv))
    im = 1 / m
    a = POW(Se, im)
    b = POW(1 - a, m)
    k = F_K(Se, Ks, m)
    kb = [Se >= 0, Se <= 1, Ks >= 0, m > 0]
    ks = [im > 0, And(a >= 0, a <= 1), And(b >= 0, b <= 1), And(SQRT(Se) >= 0, SQRT(Se) <= 1), And((1 - b) * (1 - b) >= 0, (1 - b) * (1 - b) <= 1),
          And(SQRT(Se) * ((1 - b) * (1 - b)) >= 0, SQRT(Se) * ((1 - b) * (1 - b)) <= 1)]
    stages('conductivity lies between 0 and Ks', kb, ks + [k == Ks * (SQRT(Se) * ((1 - b) * (1 - b)))], And(k >= 0, k <= Ks))
    stages('conductivity is positive above residual saturation', kb + [Se > 0, Ks > 0],
           ks + [a > 0, 1 - a < 1, b < 1, (1 - b) * (1 - b) > 0, SQRT(Se) > 0, SQRT(Se) * ((1 - b) * (1 - b)) > 0, k == Ks * (SQRT(Se) * ((1 - b) * (1 - b)))], k > 0)
    stages('conductivity is 0 at Se=0', [Se == 0, Ks >= 0, m > 0], [im > 0, SQRT(Se) == 0], k == 0)
    stages('conductivity is Ks at Se=1', [Se == 1, Ks >= 0, m > 0], [im > 0, a == 1, b == 0, SQRT(Se) == 1], k == Ks)
    hh = F_h(Se, al, m, n)
    q = POW(Se, -1 / m)
    hs = [-1 / m < 0, q >= 1, POW(q - 1, 1 / n) >= 0, 1 / al > 0]
    stages('head from saturation is non-negative', [ok, Se > 0, Se <= 1], [im > 0] + hs, hh >= 0)
    stages('head from saturation is positive below saturation', [ok, Se > 0, Se < 1],
           [im > 0, -1 / m < 0, q > 1, POW(q - 1, 1 / n) > 0, 1 / al > 0], hh > 0)
    stages('head is 0 at saturation', [ok, Se == 1], [im > 0, q == 1, 1 / n > 0, POW(q - 1, 1 / n) == 0], hh == 0)
    # inverse: head(saturation(h)) = h. a^b laws: (1/x)^y = x^-y and (x^a)^b = x^(ab)
    y = 1 + p
    S = RealVal(1) / D
    E1 = POW(S, -1 / m)
    stages('head from saturation inverts saturation from head', [ok, h > 0],
           [al * h > 0, p > 0, D > 1, E1 == POW(D, -(-1 / m)), (-(-1 / m) == im, [m > 0]), POW(D, im) == POW(y, m * im), (m * im == 1, [m > 0]), POW(y, m * im) == y,
            (E1 - 1 == p, [E1 == POW(D, -(-1 / m)), -(-1 / m) == im, POW(D, im) == POW(y, m * im), POW(y, m * im) == y]),
            (POW(p, 1 / n) == POW(al * h, n * (1 / n)), [al * h > 0], ('POWCOMP',)), (n * (1 / n) == 1, [n > 0]),
            (POW(p, 1 / n) == al * h, [POW(p, 1 / n) == POW(al * h, n * (1 / n)), n * (1 / n) == 1]),
            (POW(E1 - 1, 1 / n) == al * h, [E1 - 1 == p, POW(p, 1 / n) == al * h]),
            F_h(S, al, m, n) == (1 / al) * POW(E1 - 1, 1 / n), F_h(S, al, m, n) == (1 / al) * (al * h), ((1 / al) * (al * h) == h, [al > 0])],
           (F_h(S, al, m, n) == h, [F_h(S, al, m, n) == (1 / al) * (al * h), (1 / al) * (al * h) == h]), ('POWINV', 'POWCOMP'))
    # saturation(head(Se)) = Se
    g = q - 1
    H = F_h(Se, al, m, n)
    stages('saturation from head inverts head from saturation', [ok, Se > 0, Se < 1],
           [im > 0, -1 / m < 0, q > 1, 1 / n > 0, POW(g, 1 / n) > 0, al * H == POW(g, 1 / n), (POW(al * H, n) == POW(POW(g, 1 / n), n), [al * H == POW(g, 1 / n)]),
            POW(POW(g, 1 / n), n) == POW(g, (1 / n) * n), ((1 / n) * n == 1, [n > 0]), POW(al * H, n) == g, POW(1 + POW(al * H, n), m) == POW(q, m),
            (POW(q, m) == POW(Se, (-1 / m) * m), [Se > 0], ('POWCOMP',)), ((-1 / m) * m == -1, [m > 0]), POW(q, m) == POW(Se, RealVal(-1)),
            POW(1 / Se, RealVal(-1)) == POW(Se, RealVal(1)), POW(Se, RealVal(1)) == Se, POW(POW(Se, RealVal(-1)), RealVal(-1)) == Se],
           POW(POW(1 + POW(al * H, n), m), RealVal(-1)) == Se, ('POWINV', 'POWCOMP'))
    return ex


def v_geff(prog):
    ex = V.new_exec(prog, {k: v for k, v in CONTRACTS.items() if k not in ('calc_Geff', 'calc_Se_from_theta')})
    names = ['closed', 't1', 't2', 'te', 'tr', 'al', 'n', 'm', 'hmin', 'Ks', 'nint', 'lam', 'psib']

    def pre(ex, st, v):
        st.facts.append(geff_pre([getattr(v, x) for x in names]))
        st.facts.append(v.Ks > 0)
        st.facts.append(v.nint > 0)
        # steps towards the closed form (monotone power of a larger saturation)

    def post(ex, e, s, rv, v):
        r = real(rv)
        si, sf = (v.t2 - v.tr) / (v.te - v.tr), (v.t1 - v.tr) / (v.te - v.tr)
        for lab, g in (('saturations ordered', And(sf >= 0, sf <= si, si <= 1)), ('exponent positive', 3 + 1 / v.lam > 0),
                       ('powers ordered', And(POW(sf, 3 + 1 / v.lam) <= POW(si, 3 + 1 / v.lam), POW(si, 3 + 1 / v.lam) <= 1)),
                       ('drive at saturation non-negative', v.psib * ((2 + 3 * v.lam) / (1 + 3 * v.lam)) >= 0)):
            ex.oblige(s, g, 'capillary drive: ' + lab, 'lemma')
        ex.oblige(s, r >= 0, 'capillary drive is never negative', 'post')
        SL.frame_fields(ex, e, s, 'calc_Geff')
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'calc_Geff', names, pre, post)


SOILF = ('theta_r', 'theta_e', 'vg_alpha_per_cm', 'vg_n', 'vg_m', 'bc_lambda', 'bc_psib_cm', 'h_min_cm', 'Ksat_cm_per_h', 'theta_wp')


def soil(ex, st, sp, f, k):
    return Select(ex.arr(st, sp.region + (f,), 'real'), k)


def soils_ok(ex, st, sp):
    s = Int('s!s')
    g = lambda f: soil(ex, st, sp, f, s)
    ok = And(g('theta_r') >= 0, g('theta_r') < g('theta_e'), g('vg_alpha_per_cm') > 0, g('vg_n') > 1, g('vg_m') > 0, g('Ksat_cm_per_h') > 0,
             g('bc_lambda') > 0, g('bc_psib_cm') > 0)
    st.facts.append(ForAll([s], ok, patterns=[g(f) for f in SOILF if f not in ('h_min_cm', 'theta_wp')]))


def one_list(ex, st, head, name='L'):
    L = SL.value_list(ex, st, name, 1, head)
    ex.lists = [L]
    SL.assume_wf(ex, st, L)
    return L


def v_aet(prog):
    ex = V.new_exec(prog, CONTRACTS)
    names = ['pet', 'dt', 'wp', 'fc', 'stype', 'thr', 'expon', 'head', 'sp']

    def pre(ex, st, v):
        L = one_list(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        st.facts += [v.head != 0, v.pet >= 0, v.dt >= 0, v.fc > 0, v.wp > 0, Select(ex.heap(st, 'psi_cm'), v.head) >= 0]

    def post(ex, e, s, rv, v):
        k = Select(ex.arr(e, v.stype.region, 'int'), Select(ex.heap(e, 'layer_num'), v.head))
        g = lambda f: soil(ex, e, v.sp, f, k)
        th = lambda h: THETAF(h, g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'), g('theta_e'), g('theta_r'))
        mid = (th(v.fc) + th(v.wp)) / 2
        Se = (mid - g('theta_r')) / (g('theta_e') - g('theta_r'))
        psi50 = HF(Se, g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'))
        psi = Select(ex.heap(e, 'psi_cm'), v.head)
        r = real(rv)
        # steps: the midpoint saturation is strictly between 0 and 1
        SeC = ((th(v.fc) - th(v.wp)) * 1 / 2 + th(v.wp) - g('theta_r')) / (g('theta_e') - g('theta_r'))
        for lab, f in (('midpoint moisture inside the retention range', And(mid > g('theta_r'), mid < g('theta_e'))),
                       ('midpoint saturation in (0,1)', And(Se > 0, Se < 1)), ('same midpoint', SeC == Se), ('psi50 positive', psi50 > 0),
                       ('denominator at least 1', 1 + (psi / psi50) * (psi / psi50) * (psi / psi50) >= 1)):
            ex.oblige(s, f, 'AET: ' + lab, 'lemma')
        q = psi / psi50
        den = 1 + q * q * q
        inv = fresh('inv', R)
        s.facts += [inv == 1 / den]
        ex.oblige(s, And(inv > 0, inv <= 1), 'AET: demand factor in (0,1]', 'lemma')
        ex.oblige(s, r == v.pet * v.dt * inv, 'AET is PET dt / (1+(psi/psi50)^3)', 'post')
        ex.oblige(s, And(r >= 0, r <= v.pet * v.dt), 'AET is between 0 and PET dt', 'post')
        ex.oblige(s, Implies(psi == psi50, r == v.pet * v.dt / 2), 'AET is half of PET at psi50', 'post')
        SL.frame_fields(ex, e, s, 'calc_aet')
        SL.frame_rest(ex, e, s)
    ex2 = V.verify(ex, 'calc_aet', names, pre, post)
    q1, q2 = z3.Reals('q1 q2')
    lemma(ex2, 'demand factor does not increase with head', [q1 >= 0, q1 <= q2], And(q1 * q1 >= 0, q1 * q1 <= q2 * q2))
    lemma(ex2, 'demand factor does not increase with head (cube)', [q1 >= 0, q1 <= q2, q1 * q1 >= 0, q1 * q1 <= q2 * q2],
          q1 * q1 * q1 <= q2 * q2 * q2)
    return ex2


def v_giuh(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        st.facts += [v.N >= 1]
        st.lens[v.q.region] = v.N + 1
        st.lens[v.o.region] = v.N

    def post(ex, e, s, rv, v):
        q0, q1 = ex.arr(e, v.q.region, 'real'), ex.arr(s, v.q.region, 'real')
        o0, o1 = ex.arr(e, v.o.region, 'real'), ex.arr(s, v.o.region, 'real')
        ex.oblige(s, rv == q0[0] + o0[0] * v.runoff, 'released water is queue[0] + ordinate[0] x runoff', 'post')
        j = Int('j!p')
        ex.oblige(s, Implies(And(j >= 0, j < v.N - 1), q1[j] == q0[j + 1] + o0[j + 1] * v.runoff), 'entries move one place forward with their ordinate share', 'post')
        ex.oblige(s, q1[v.N - 1] == 0, 'the last entry becomes zero', 'post')
        ex.oblige(s, Implies(Or(j < 0, j > v.N), q1[j] == q0[j]), 'nothing outside the queue is written', 'frame')
        ex.oblige(s, o1[j] == o0[j], 'ordinates unchanged', 'frame')
        SL.frame_rest(ex, e, s, (v.q.region,))
    V.verify(ex, 'giuh_convolution_integral', ['runoff', 'N', 'o', 'q'], pre, post)
    # conservation over the queue, by induction on the number of entries summed:
    # S1(k) = sum of the new queue over [0,k), S0(k) = sum over [1,k+1) of old queue + runoff * ordinates
    A = ArraySort(I, R)
    q0, q1, o = Const('q0', A), Const('q1', A), Const('o', A)
    N, k, j = z3.Ints('N k j')
    r = Real('r')
    D = [ForAll([j], Implies(And(j >= 0, j < N - 1), q1[j] == q0[j + 1] + o[j + 1] * r), patterns=[q1[j]]), q1[N - 1] == 0, N >= 1]
    S1 = lambda a, b: SUM(q1, a, b)
    ind = lambda k: SUM(q1, 0, k) == SUM(q0, 0, k + 1) - q0[0] + r * (SUM(o, 0, k + 1) - o[0])
    lemma(ex, 'conservation, base', D + [SUM(q0, 0, 0) == 0, SUM(o, 0, 0) == 0, SUM(q1, 0, 0) == 0], ind(IntVal(0)))
    lemma(ex, 'conservation, step', D + [k >= 0, k < N - 1, ind(k), SUM(q1, 0, k + 1) == SUM(q1, 0, k) + q1[k],
                                         SUM(q0, 0, k + 2) == SUM(q0, 0, k + 1) + q0[k + 1], SUM(o, 0, k + 2) == SUM(o, 0, k + 1) + o[k + 1]], ind(k + 1))
    rel = q0[0] + o[0] * r
    lemma(ex, 'released + queued after = queued before + runoff x sum of ordinates', D + [ind(N - 1)],
          rel + SUM(q1, 0, N - 1) + q1[N - 1] == SUM(q0, 0, N) + r * SUM(o, 0, N))
    return ex


def layer1_pre(ex, st, v, L):
    pass


def v_drydepth(prog):
    ex = V.new_exec(prog, CONTRACTS)
    names = ['closed', 'nint', 'dt', 'delta', 'stype', 'cum', 'ff', 'head', 'sp']

    def common(ex, e, v):
        lay = Select(ex.heap(e, 'layer_num'), v.head)
        k = Select(ex.arr(e, v.stype.region, 'int'), lay)
        g = lambda f: soil(ex, e, v.sp, f, k)
        th = Select(ex.heap(e, 'theta'), v.head)
        ff = Select(ex.arr(e, v.ff.region, 'real'), lay)
        cum = Select(ex.arr(e, v.cum.region, 'real'), lay)
        return lay, k, g, th, ff, cum

    def pre(ex, st, v):
        one_list(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        lay, k, g, th, ff, cum = common(ex, st, v)
        st.facts += [v.head != 0, v.dt > 0, v.nint > 0, th >= g('theta_r'), th < g('theta_e'), ff > 0, cum > 0]

    def post(ex, e, s, rv, v):
        lay, k, g, th, ff, cum = common(ex, e, v)
        Ks = g('Ksat_cm_per_h') * ff
        tau = v.dt * Ks / (g('theta_e') - th)
        G = GEFF(v.closed, th, g('theta_e'), g('theta_e'), g('theta_r'), g('vg_alpha_per_cm'), g('vg_n'), g('vg_m'), g('h_min_cm'), Ks, v.nint,
                 g('bc_lambda'), g('bc_psib_cm'))
        r = real(rv)
        ex.oblige(s, And(G >= 0, Ks > 0), 'dry depth: drive non-negative', 'lemma')
        ex.oblige(s, tau > 0, 'dry depth: tau positive', 'lemma')
        sq = SQRT(tau * tau + 4 * tau * G)
        ex.oblige(s, And(tau * tau + 4 * tau * G >= 0, sq >= 0), 'dry depth: discriminant non-negative', 'lemma')
        z = (tau + sq) / 2
        ex.oblige(s, r == If(cum <= z, cum, z), 'dry depth is the smaller of the layer bottom and (tau+sqrt(tau^2+4 tau G))/2', 'post')
        ex.oblige(s, And(r >= 0, r <= cum), 'dry depth is between 0 and the layer bottom', 'post')
        d = ex.load(s, ex.ptr_at(v.delta, IntVal(0)))
        ex.oblige(s, real(d) == g('theta_e') - th, 'moisture deficit reported is theta_e - theta', 'post')
        SL.frame_fields(ex, e, s, 'lgar_calc_dry_depth')
        x = Int('x!f')
        SL.frame_rest(ex, e, s, (v.delta.region,))
        if not ex.arr(e, v.delta.region, 'real').eq(ex.arr(s, v.delta.region, 'real')):
            ex.oblige(s, Implies(x != 0, Select(ex.arr(s, v.delta.region, 'real'), x) == Select(ex.arr(e, v.delta.region, 'real'), x)), 'only *delta_theta is written', 'frame')
    return V.verify(ex, 'lgar_calc_dry_depth', names, pre, post)
