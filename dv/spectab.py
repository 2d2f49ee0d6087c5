"""Contract of the soil table reader (C24): lgar_read_vG_param_file.
The file is modelled as a sequence of lines; line k (k = 0 is the header) carries a name and five numbers."""
import os, re, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
from speclgar import cases, splitinv, arrlen, named
from specsoil import soil
from loops import Cand

FIELD = Function('FIELD', I, I, R)       # number j of line k (j = 1..5)
NAMELEN = Function('NAMELEN', I, I)      # length of the name on line k
LINES = Int('LINES')                     # lines of the file
LINE = ('gh', 'line')                    # ghost: lines read so far
NM = ('gh', 'name')                      # ghost: line whose name a soil slot carries
COLS = ['theta_r', 'theta_e', 'vg_alpha_per_cm', 'vg_n', 'Ksat_cm_per_h']


def text(p):
    if not isinstance(p, ArrPtr):
        raise Unsupported('text buffer %r' % (p,))
    return ('gh', 'text') + tuple(p.region)


def c_fopen(ex, st, argn, e):
    for a in argn:
        ex.ev(a, st)
    b = fresh('opened', B)
    return PhiPtr([(b, CellPtr(('gh', 'file'), 'int')), (Not(b), NULL)])


def c_fgets(ex, st, argn, e):
    b = ex.ev(argn[0], st)
    n = as_int(ex.ev(argn[1], st))
    ex.ev(argn[2], st)
    ln = st.lens.get(b.region) if isinstance(b, ArrPtr) else None
    if ln is not None:
        ex.oblige(st, b.off + n <= ln, 'fgets stays within its buffer', 'safety', e)
    k = st.cells[LINE]
    got = k < LINES
    st.cells[text(b)] = k        # after a failed read: a line that does not exist, of unknown content
    st.cells[LINE] = If(got, k + 1, k)
    return PhiPtr([(got, b), (Not(got), NULL)])


def c_sscanf(ex, st, argn, e):
    b = ex.ev(argn[0], st)
    f = ex.ev(argn[1], st)
    if not (isinstance(f, Str) and isinstance(f.s, str)):
        raise Unsupported('scanf format')
    k = st.cells.get(text(b))
    if k is None:
        raise Unsupported('scanning a buffer never filled')
    conv = re.findall(r'%(\d*)(l?[a-z])', f.s)
    if f.s.count('%') != len(conv) or '*' in f.s:
        raise Unsupported('scanf format %s' % f.s)
    for j, ((w, c), a) in enumerate(zip(conv, argn[2:])):
        p = ex.ev(a, st)
        if c == 's':
            if j:
                raise Unsupported('name not in the first column')
            ln = st.lens.get(p.region)
            if ln is not None:
                ex.oblige(st, p.off + (int(w) if w else 10 ** 6) + 1 <= ln, 'the name fits its buffer', 'safety', e)
            st.cells[text(p)] = k
        elif c == 'lf':
            if isinstance(p, CellPtr):
                from execu import LCell
                ex.store(st, LCell(p.key, p.qt), FIELD(k, IntVal(j)), e)
            elif isinstance(p, ArrPtr):
                ex.store(st, ex.ptr_at(p, IntVal(0)), FIELD(k, IntVal(j)), e)
            else:
                raise Unsupported('scanf target %r' % (p,))
        else:
            raise Unsupported('scanf conversion %' + c)
    return IntVal(len(conv))


def c_strlen(ex, st, argn, e):
    p = ex.ev(argn[0], st)
    k = st.cells.get(text(p))
    if k is None:
        raise Unsupported('length of an unknown text')
    st.facts.append(NAMELEN(k) >= 0)
    return NAMELEN(k)


def c_strcpy(ex, st, argn, e):
    d, s = ex.ev(argn[0], st), ex.ev(argn[1], st)
    k = st.cells.get(text(s))
    if k is None or not (isinstance(d, tuple) and d[0] == 'soatext'):
        raise Unsupported('strcpy to %r' % (d,))
    _, region, ix, f = d
    if f != 'soil_name':
        raise Unsupported('strcpy to %s' % f)
    ex.bounds(st, region, ix, e)
    st.arrays[NM] = Store(ex.arr(st, NM, 'int'), ix, k)
    return d


CON = dict(SS.CONTRACTS)
CON.update(fopen=c_fopen, fgets=c_fgets, sscanf=c_sscanf, strlen=c_strlen, strcpy=c_strcpy, fclose=lambda ex, st, argn, e: IntVal(0))


LAMF = Function('LAMF', R, R)            # Brooks-Corey parameters from alpha and n (definitions below)
PSIBF = Function('PSIBF', R, R, R)
HMINF = Function('HMINF', R, R, R)
DERIVED = ['bc_lambda', 'bc_psib_cm', 'h_min_cm']


def want(f, k, wp):
    """value of a soil field from line k"""
    c = lambda nm: FIELD(k, IntVal(1 + COLS.index(nm)))
    if f in COLS:
        return c(f)
    m = 1 - 1 / c('vg_n')
    if f == 'vg_m':
        return m
    if f == 'theta_wp':
        return THETAF(wp, c('vg_alpha_per_cm'), m, c('vg_n'), c('theta_e'), c('theta_r'))
    return {'bc_lambda': LAMF(c('vg_n')), 'bc_psib_cm': PSIBF(c('vg_alpha_per_cm'), c('vg_n')), 'h_min_cm': HMINF(c('vg_alpha_per_cm'), c('vg_n'))}[f]


def meaning(f, al, n, sub=None):
    """definitions of the derived parameters; h_min in terms of the other two"""
    m = 1 - 1 / n
    p = 1 + 2 / m
    lam = 2 / (p - 3)
    psib = (p + 3) * (RealVal('1478/10') + RealVal('81/10') * p + RealVal('92/1000') * p * p) / (2 * al * p * (p - 1) * (RealVal('556/10') + RealVal('74/10') * p + p * p))
    if f == 'h_min_cm':
        lam, psib = sub or (lam, psib)
        return psib * (2 + 3 / lam) / (1 + 3 / lam)
    return {'bc_lambda': lam, 'bc_psib_cm': psib}[f]


def settle(ex, s, t):
    """conditional sub-terms whose condition is decided on this path"""
    for rnd in range(8):
        its = SG.apps(t, z3.Z3_OP_ITE)
        for x in its:
            for val, g in ((True, x.arg(0)), (False, Not(x.arg(0)))):
                if ex.pvalid(s, g, 3000):
                    t = simplify(z3.substitute(t, (x, x.arg(1) if val else x.arg(2))))
                    break
            else:
                continue
            break
        else:
            break
    return t


def derive(ex, s, v, say=None):
    """the values just stored for the derived parameters are the defined functions of the line's alpha and n"""
    ks = [x for c, x in s.cells.items() if c[:2] == ('gh', 'text')]
    known = []
    for f in DERIVED:
        A = ex.unname(ex.arr(s, v.sp.region + (f,), 'real'))
        A = settle(ex, s, A)
        if not (z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE):
            continue
        val = settle(ex, s, SG.rewrite(ex, s, A.arg(2), [], pv=True) if False else simplify(A.arg(2)))
        val = z3.substitute(val, *known) if known else val
        for k in ks:
            for kk in ([k.arg(1), k] if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_ITE else [k]):
                al, n = FIELD(kk, IntVal(3)), FIELD(kk, IntVal(4))
                u = want(f, kk, v.wp)
                x, y = fresh('al', R), fresh('n', R)
                lam, psib = fresh('lam', R), fresh('psib', R)
                if f == 'h_min_cm':
                    w = z3.substitute(val, (LAMF(n), lam), (PSIBF(al, n), psib))
                    g = w == meaning(f, x, y, (lam, psib))
                    pre = [lam > 0, psib > 0]
                else:
                    w = z3.substitute(val, (al, x), (n, y))
                    g = w == meaning(f, x, y)
                    pre = [x > 0, y > 1]
                ok = is_true(simplify(g)) or solve.prove(pre, g, 8000, quick=True).status == 'valid'
                if ok:
                    fact = A.arg(2) == u
                    s.facts.append(fact)
                    known.append((val, u))
                    break
            else:
                continue
            break
    return s


FIELDS = COLS + ['vg_m', 'theta_wp', 'bc_lambda', 'bc_psib_cm', 'h_min_cm']


def v_table(prog):
    ex = V.new_exec(prog, CON)

    def pre(ex, st, v):
        st.cells[LINE] = IntVal(0)
        ex.init_cells[LINE] = IntVal(0)
        st.facts += [v.NS >= 1, LINES >= 1]
        k = Int('k!f')
        st.facts.append(ForAll([k], Implies(And(k >= 1, k < LINES), And(FIELD(k, 4) > 1, FIELD(k, 3) > 0)), patterns=[FIELD(k, 4)]))
        arrlen(st, v.sp, v.NS + 1)
        ex.arr(st, NM, 'int')
        for f in FIELDS:
            ex.arr(st, v.sp.region + (f,), 'real')
        i = Int('i!t')

        def pool(ex, st, h, syms, N):
            out = [Cand('lines read', lambda ex_, s, sub: And(s.cells[LINE] == sub(N) + 1, sub(N) < v.NS, s.cells[LINE] <= LINES), required=True)]
            for f in FIELDS + ['soil_name']:
                if ('a', v.sp.region + (f,)) not in syms and ('a', NM) not in syms:
                    continue
                def at(ex_, s, sub, f=f):
                    r = NM if f == 'soil_name' else v.sp.region + (f,)
                    a = named(ex, s, r, 'int' if f == 'soil_name' else 'real')
                    a0 = ex.arr(ex.entry, r, 'int' if f == 'soil_name' else 'real')
                    return ForAll([i], Select(a, i) == If(And(i >= 1, i <= sub(N)), i if f == 'soil_name' else want(f, i, v.wp), Select(a0, i)), patterns=[Select(a, i)])
                def prove(ex, s, g, h, f=f):
                    if h is None or f not in DERIVED:
                        return None
                    derive(ex, s, v)
                    return None
                out.append(Cand('slots filled so far: %s' % f, at, prove))
            return out
        ex.pool.append(pool)

    def post(ex, e, s, rv, v):
        i = fresh('i', I)
        r = as_int(rv)
        ex.oblige(s, r == If(v.NS <= LINES - 1, v.NS, LINES - 1), 'the number of slots filled is returned', 'post')
        for f in FIELDS + ['soil_name']:
            rg = NM if f == 'soil_name' else v.sp.region + (f,)
            kd = 'int' if f == 'soil_name' else 'real'
            a, b = Select(ex.arr(s, rg, kd), i), Select(ex.arr(e, rg, kd), i)
            if f in DERIVED:
                continue
            ex.oblige(s, Implies(And(i >= 1, i <= r), a == (i if f == 'soil_name' else want(f, i, v.wp))), 'slot i carries %s of data line i' % f, 'post')
            ex.oblige(s, Implies(Or(i < 1, i > r), a == b), 'other slots keep %s' % f, 'frame')
        end = s.copy()
        todo, ends = [end], []
        for rnd in range(24):
            if not todo:
                break
            q = todo.pop()
            c = next((x.arg(0) for x in [ex.arr(q, v.sp.region + (f,), 'real') for f in DERIVED] if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE), None)
            if c is None:
                ends.append(q)
                continue
            for val in (True, False):
                w = SG.assume_case(ex, q, c, val)
                if not ex.pvalid(w, BoolVal(False), 1000):
                    todo.append(w)
        for q in ends + todo:
            derive(ex, q, v)
            for f in DERIVED:
                rg = v.sp.region + (f,)
                a, b = Select(ex.arr(q, rg, 'real'), i), Select(ex.arr(e, rg, 'real'), i)
                ex.oblige(q, Implies(And(i >= 1, i <= r), a == want(f, i, v.wp)), 'slot i carries %s of data line i' % f, 'post')
                ex.oblige(q, Implies(Or(i < 1, i > r), a == b), 'other slots keep %s' % f, 'frame')
        SL.frame_rest(ex, e, s, (LINE, NM) + tuple(v.sp.region + (f,) for f in FIELDS))
    return V.verify(ex, 'lgar_read_vG_param_file', ['fname', 'NS', 'wp', 'sp'], pre, post)
