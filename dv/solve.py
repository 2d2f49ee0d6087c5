"""Discharging obligations: z3 (in process), with cvc5 as second back end. Background axioms are declared here."""
import time, subprocess, tempfile, os
import z3
from z3 import *
from sym import POW, SQRT, EXP, LOG, SUM, I, R, B, THETAF, SEF, KF, HF, GEFF

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0, 'by': {}}


def _axioms():
    x, y, w, a, b = Reals('x y w a b')
    p = POW(x, y)
    ax = {}
    ax['POW'] = [
        ForAll([x, y], And(Implies(x > 0, p > 0), Implies(x >= 0, p >= 0), Implies(x == 1, p == 1),
                           Implies(y == 0, p == 1), Implies(y == 1, p == x), Implies(And(x == 0, y > 0), p == 0),
                           Implies(And(x >= 1, y >= 0), p >= 1), Implies(And(x > 1, y > 0), p > 1),
                           Implies(And(x >= 0, x <= 1, y >= 0), p <= 1), Implies(And(x >= 0, x < 1, y > 0), p < 1),
                           Implies(And(x >= 1, y <= 0), p <= 1), Implies(And(x > 0, x <= 1, y <= 0), p >= 1),
                           Implies(And(x > 0, x < 1, y < 0), p > 1), Implies(And(x > 1, y < 0), p < 1)),
               patterns=[p]),
        ForAll([x, w, y], And(Implies(And(x >= 0, x < w, y > 0), POW(x, y) < POW(w, y)),
                              Implies(And(x > 0, x < w, y < 0), POW(x, y) > POW(w, y))),
               patterns=[MultiPattern(POW(x, y), POW(w, y))]),
    ]
    ax['POWCOMP'] = [
        ForAll([x, a, b], Implies(x > 0, POW(POW(x, a), b) == POW(x, a * b)), patterns=[POW(POW(x, a), b)]),
    ]
    s = SQRT(x)
    ax['SQRT'] = [
        ForAll([x], Implies(x >= 0, And(s >= 0, s * s == x, Implies(x > 0, s > 0), Implies(x <= 1, s <= 1),
                                        Implies(x == 1, s == 1), Implies(x == 0, s == 0), Implies(x >= 1, s >= 1))), patterns=[s]),
        ForAll([x, w], Implies(And(x >= 0, x < w), SQRT(x) < SQRT(w)), patterns=[MultiPattern(SQRT(x), SQRT(w))]),
    ]
    e = EXP(x)
    ax['EXP'] = [
        ForAll([x], And(e > 0, Implies(x == 0, e == 1), Implies(x >= 0, e >= 1), Implies(x <= 0, e <= 1),
                        Implies(x <= -3, e <= RealVal('0.0498'))), patterns=[e]),
        ForAll([x, w], Implies(x < w, EXP(x) < EXP(w)), patterns=[MultiPattern(EXP(x), EXP(w))]),
    ]
    ax['POWINV'] = [
        ForAll([x, y], Implies(x > 0, POW(1 / x, y) == POW(x, -y)), patterns=[POW(1 / x, y)]),
    ]
    h, al, m, n, te, tr, K, h2 = Reals('h al m n te tr K h2')
    SE_ = Real('SE_')
    t = THETAF(h, al, m, n, te, tr)
    okp = And(al > 0, m > 0, n > 0)
    # each of these is a lemma discharged from the defining formula in the check of C07 (specsoil.lemmas)
    ax['THETAF'] = [
        ForAll([h, al, m, n, te, tr], Implies(And(okp, h >= 0, te >= tr), And(t >= tr, t <= te)), patterns=[t]),
        ForAll([h, al, m, n, te, tr], Implies(And(okp, te > tr, h >= 0), And(t > tr, Implies(h > 0, t < te), Implies(h == 0, t == te))), patterns=[t]),
        ForAll([h, h2, al, m, n, te, tr], Implies(And(okp, te > tr, h >= 0, h < h2), THETAF(h2, al, m, n, te, tr) < t),
               patterns=[MultiPattern(t, THETAF(h2, al, m, n, te, tr))]),
    ]
    ax['SEF'] = [
        ForAll([h, al, m, n], Implies(And(okp, h >= 0), And(SEF(h, al, m, n) > 0, SEF(h, al, m, n) <= 1)), patterns=[SEF(h, al, m, n)]),
    ]
    k = KF(SE_, K, m)
    ax['KF'] = [
        ForAll([SE_, K, m], Implies(And(SE_ >= 0, SE_ <= 1, K >= 0, m > 0), And(k >= 0, k <= K)), patterns=[k]),
        ForAll([SE_, K, m], Implies(And(SE_ > 0, SE_ <= 1, K > 0, m > 0), k > 0), patterns=[k]),
    ]
    hh = HF(SE_, al, m, n)
    ax['HF'] = [
        ForAll([SE_, al, m, n], Implies(And(okp, SE_ > 0, SE_ <= 1), And(hh >= 0, Implies(SE_ < 1, hh > 0), Implies(SE_ == 1, hh == 0))), patterns=[hh]),
    ]
    T = Const('T', ArraySort(I, R))
    lo, hi, l2, h2 = Ints('lo hi l2 h2')
    ax['SUM'] = [
        ForAll([T, lo, hi], Implies(hi <= lo, SUM(T, lo, hi) == 0), patterns=[SUM(T, lo, hi)]),
        ForAll([T, lo, hi, h2], Implies(And(h2 == hi + 1, hi >= lo), SUM(T, lo, h2) == SUM(T, lo, hi) + T[hi]),
               patterns=[MultiPattern(SUM(T, lo, hi), SUM(T, lo, h2))]),
        ForAll([T, lo, l2, hi], Implies(And(l2 == lo + 1, lo < hi), SUM(T, lo, hi) == T[lo] + SUM(T, l2, hi)),
               patterns=[MultiPattern(SUM(T, lo, hi), SUM(T, l2, hi))]),
    ]
    return ax


AX = _axioms()
AXDOC = {
    'POW': 'real power: sign, value at 0/1, bounds relative to 1, strict monotonicity in the base',
    'POWINV': 'real power: (1/x)^y = x^-y for x>0',
    'POWCOMP': 'real power: (x^a)^b = x^(ab) for x>0',
    'SQRT': 'square root: s>=0, s^2=x, monotone',
    'EXP': 'exponential: positive, exp(0)=1, monotone, exp(-3)<=0.0498',
    'SUM': 'finite sums: empty sum, adding one term at either end',
}


_syms = {}


def syms(exprs):
    out = set()
    for e in exprs:
        k = e.get_id()
        c = _syms.get(k)
        if c is None:
            c = _syms[k] = (e, syms1(e))        # e is kept alive: its id stays unique
        out |= c[1]
    return out


def syms1(expr):
    seen, out, stack = set(), set(), [expr]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(e.children())
    return out


def background(exprs, extra=()):
    s = syms(exprs)
    out = []
    for k in ('POW', 'SQRT', 'EXP', 'SUM', 'THETAF', 'SEF', 'KF', 'HF'):
        if k in s:
            out += AX[k]
    for k in extra:
        out += AX[k]
    return out


def mk_solver(ms, seed=0, nl=True):
    s = z3.SimpleSolver() if seed == 0 else z3.Solver()
    s.set('timeout', int(ms * SCALE))
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('random_seed', seed + SEED)
    if not nl:
        s.set('arith.nl', False)
    return s


NL1 = True
SCALE, SEED = 1.0, 0     # a second attempt at an open obligation gets more time and another seed
_nl = {}


def nonlin(fs):
    for e in fs:
        k = e.get_id()
        c = _nl.get(k)
        if c is None:
            c = _nl[k] = (e, nonlin1(e))
        if c[1]:
            return True
    return False


def nonlin1(f):
    seen, stack = set(), [f]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            d = e.decl().kind()
            if d == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
                return True
            if d == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in e.children()) > 1:
                return True
            stack.extend(e.children())
    return False


class Result:
    def __init__(self, status, by, dt, model=None, smt=None):
        self.status, self.by, self.time, self.model, self.smt = status, by, dt, model, smt


def prove(assums, goal, ms=5000, extra=(), want_model=False, quick=False, tries=None):
    """valid / failed (a candidate counterexample exists) / unknown"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result('valid', 'simplifier', 0.0)
    fs = list(assums) + [z3.Not(goal)]
    bg = background(fs, extra)
    t0 = time.time()
    # stage 1: relevant short attempt, then full
    tries = tries or [(ms, 0)] if quick else [(min(ms, 4000), 0), (ms, 7)]
    if NL1 and not quick and nonlin(fs):
        tries = [(min(ms, 1500), -1)] + tries
    r = z3.unknown
    s = None
    for t, seed in tries:
        s = mk_solver(t, max(0, seed), seed >= 0)
        s.add(*bg)
        s.add(*fs)
        r = s.check()
        STATS['z3_queries'] += 1
        if r == z3.unsat:
            break
        if r == z3.sat and seed >= 0:
            break
    dt = time.time() - t0
    STATS['z3_time'] += dt
    if r == z3.unsat:
        STATS['by']['z3'] = STATS['by'].get('z3', 0) + 1
        return Result('valid', 'z3 %s' % z3.get_version_string(), dt)
    model = None
    if want_model or not quick:
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
    smt = None
    if not quick:
        smt = s.to_smt2()
        t1 = time.time()
        c = cvc5(smt, int(max(5, ms // 1000) * SCALE))
        STATS['cvc5_queries'] += 1
        STATS['cvc5_time'] += time.time() - t1
        dt = time.time() - t0
        if c == 'unsat':
            STATS['by']['cvc5'] = STATS['by'].get('cvc5', 0) + 1
            return Result('valid', 'cvc5 1.1.2', dt)
    return Result('failed' if r == z3.sat else 'unknown', 'z3', dt, model, smt)


def nra(assums, goal, ms=2000):
    """pure real arithmetic: every non-arithmetic term (array read, function value) becomes a variable; only ground
    hypotheses about the variables of the goal are kept. Weaker hypotheses, so 'valid' is sound."""
    names = {}
    def ab(e, memo):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(e):
            d = e.decl().kind()
            ar = d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_AND, z3.Z3_OP_OR,
                       z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_ANUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or (d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and not z3.is_array(e.arg(0)))
            if ar and all(c.sort() in (R, B) for c in e.children()) and e.sort() in (R, B):
                r = e.decl()(*[ab(c, memo) for c in e.children()]) if e.num_args() else e
            elif e.sort() in (R, B):
                r = z3.Const('nra!%d' % k, e.sort())
                names[k] = e
            else:
                raise ValueError
            memo[k] = r
            return r
        raise ValueError
    memo = {}
    try:
        g = ab(goal, memo)
    except ValueError:
        return Result('unknown', 'nra', 0.0)
    cs = set(syms([g]))
    fs = []
    for a in assums:
        if z3.is_quantifier(a):
            continue
        for c in (a.children() if z3.is_and(a) else [a]):
            try:
                f = ab(c, memo)
            except ValueError:
                continue
            fs.append((f, set(syms([f]))))
    keep = []
    for _ in range(2):
        for f, q in fs:
            if q & cs and q <= cs | q and len(q - cs) <= (1 if _ else 0) and not any(f.eq(z) for z in keep):
                keep.append(f)
        for f in keep:
            cs |= set(syms([f]))
    t0 = time.time()
    for t in (z3.Tactic('qfnra-nlsat'), z3.Tactic('smt')):
        s = t.solver()
        s.set('timeout', int(ms * SCALE))
        s.add(*keep)
        s.add(z3.Not(g))
        r = s.check()
        STATS['z3_queries'] += 1
        if r == z3.unsat:
            STATS['z3_time'] += time.time() - t0
            return Result('valid', 'z3 %s (nlsat)' % z3.get_version_string(), time.time() - t0)
    STATS['z3_time'] += time.time() - t0
    return Result('unknown', 'nra', time.time() - t0)


def cvc5(smt, secs):
    d = tempfile.mkdtemp(prefix='dvq')
    p = os.path.join(d, 'q.smt2')
    try:
        with open(p, 'w') as f:
            f.write('(set-logic ALL)\n' + smt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=secs + 10)
            return o.stdout.decode().strip().split('\n')[0]
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return 'unknown'
    finally:
        try:
            os.unlink(p)
            os.rmdir(d)
        except OSError:
            pass


def dump(assums, goal):
    s = z3.Solver()
    fs = list(assums) + [z3.Not(goal)]
    s.add(*(background(fs, ()) + fs))
    return s.to_smt2()
