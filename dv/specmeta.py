"""Contracts of the BMI variable interface: metadata and value pointers (C16), getters and setters (C17)."""
import os, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
from execu import LCell, End, Obl
from loops import Cand

S = ('this', 'state')
P_ = S + ('lgar_bmi_params',)
CAL = S + ('lgar_calib_params',)
IN = S + ('lgar_bmi_input_params',)
UC = ('this', 'bmi_unit_conv')

# name: (grid, storage, unit, location).  storage: a scalar cell, or a cell that holds the array
VARS = {
    'precipitation_rate': (1, IN + ('precipitation_mm_per_h',), 'mm h^-1', 'node'),
    'potential_evapotranspiration_rate': (1, IN + ('PET_mm_per_h',), 'mm h^-1', 'node'),
    'soil_temperature_profile': (4, P_ + ('soil_temperature',), 'K', 'node'),
    'soil_moisture_wetting_fronts': (3, P_ + ('soil_moisture_wetting_fronts',), 'none', 'node'),
    'soil_depth_layers': (2, P_ + ('cum_layer_thickness_cm',), 'm', 'node'),
    'soil_depth_wetting_fronts': (3, P_ + ('soil_depth_wetting_fronts',), 'm', 'node'),
    'soil_num_wetting_fronts': (0, P_ + ('num_wetting_fronts',), 'none', 'node'),
    'precipitation': (1, UC + ('volprecip_timestep_m',), 'm', 'node'),
    'potential_evapotranspiration': (1, UC + ('volPET_timestep_m',), 'm', 'node'),
    'actual_evapotranspiration': (1, UC + ('volAET_timestep_m',), 'm', 'node'),
    'surface_runoff': (1, UC + ('volrunoff_timestep_m',), 'm', 'node'),
    'giuh_runoff': (1, UC + ('volrunoff_giuh_timestep_m',), 'm', 'node'),
    'soil_storage': (1, UC + ('volend_timestep_m',), 'm', 'node'),
    'total_discharge': (1, UC + ('volQ_timestep_m',), 'm', 'node'),
    'infiltration': (1, UC + ('volin_timestep_m',), 'm', 'node'),
    'percolation': (1, UC + ('volrech_timestep_m',), 'm', 'node'),
    'groundwater_to_stream_recharge': (1, UC + ('volQ_gw_timestep_m',), 'm', 'node'),
    'mass_balance': (1, UC + ('mass_balance_m',), 'm', 'node'),
    'smcmax': (2, CAL + ('theta_e',), 'none', 'none'),
    'smcmin': (2, CAL + ('theta_r',), 'none', 'none'),
    'van_genuchten_n': (2, CAL + ('vg_n',), 'none', 'none'),
    'van_genuchten_alpha': (2, CAL + ('vg_alpha',), 'none', 'none'),
    'hydraulic_conductivity': (2, CAL + ('Ksat',), 'none', 'none'),
    'field_capacity': (1, CAL + ('field_capacity_psi',), 'none', 'none'),
    'ponded_depth_max': (1, CAL + ('ponded_depth_max',), 'none', 'none'),
}
TYPES = {0: 'int', 1: 'double', 2: 'double', 3: 'double', 4: 'double'}
SIZE = {'int': 4, 'double': 8}
UNADVERTISED = ['soil_storage_model', 'van_genuchten_m']     # answered by some metadata functions only


def advertised(prog):
    """names assigned in the constructor: {table: {index: name}}"""
    out = {}

    def lit(n):
        if n.get('kind') == 'StringLiteral':
            return n['value'].strip('"')
        for c in n.get('inner', []):
            r = lit(c)
            if r is not None:
                return r

    def mem(n):
        if n.get('kind') == 'MemberExpr' and str(n.get('name')).endswith('_var_names'):
            return n['name']
        for c in n.get('inner', []):
            r = mem(c)
            if r:
                return r

    def walk(n):
        if n.get('kind') == 'CXXOperatorCallExpr' and len(n['inner']) == 3:
            l = n['inner'][1]
            if l.get('kind') == 'ArraySubscriptExpr' and mem(l['inner'][0]):
                ix = l['inner'][1]
                if ix.get('kind') != 'IntegerLiteral' or lit(n['inner'][2]) is None:
                    raise Unsupported('table of variable names')
                out.setdefault(mem(l['inner'][0]), {})[int(ix['value'])] = lit(n['inner'][2])
                return
        for c in n.get('inner', []):
            if c:
                walk(c)
    for f in prog.funcs.get('BmiLGAR', []):
        if any(x.get('kind') == 'CompoundStmt' for x in f.get('inner', [])):
            walk(f)
    if not out:
        raise Unsupported('no table of variable names')
    return out


def strof(v):
    if not (isinstance(v, Str) and isinstance(v.s, str)):
        raise Unsupported('text result %r' % (v,))
    return v.s


def put_name(st, name):
    for k in st.cells:
        if k[0] == 'L' and k[2] == 'name':
            st.cells[k] = name


def const(ex, label, cond, detail=''):
    """an obligation over constants computed by the contract"""
    ex.obls.append(Obl(label, 'post', [], BoolVal(bool(cond)), ex.curfn, 0, (), ex.curunit))


def run(ex, prog, fname, name, post, params=('name',), pre=None, throws=False):
    def p(ex, st, v):
        put_name(st, name)
        if pre:
            pre(ex, st, v)
    f = prog.func(fname)
    try:
        V.verify(ex, fname, list(params), p, post, check_sat=False)
        if throws:
            const(ex, '%s refuses an unknown name' % fname, False)
    except Unsupported as x:
        if throws and 'never returns' in str(x):
            const(ex, '%s refuses an unknown name' % fname, True)
            return
        raise


def intval(ex, s, v):
    v = simplify(as_int(v))
    if z3.is_int_value(v):
        return v.as_long()
    raise Unsupported('not a constant: %s' % v)


def gridsize(ex, s, grid):
    n = lambda f: ex.load(s, LCell(P_ + (f,), 'int'))
    return {0: IntVal(1), 1: IntVal(1), 2: n('num_layers'), 3: n('num_wetting_fronts'), 4: n('num_cells_temp')}.get(grid, IntVal(-1))


def v_meta(prog):
    ex = V.new_exec(prog)
    tab = advertised(prog)
    for t, d in sorted(tab.items()):
        cnt = prog.statics.get(('BmiLGAR', t[:-1] + '_count'))
        n = intval(ex, None, ex.ev(cnt, None)) if cnt is not None else len(d)
        const(ex, '%s is filled completely' % t, sorted(d) == list(range(n)))
    names = [d[i] for t, d in sorted(tab.items()) for i in sorted(d)]
    const(ex, 'advertised names are distinct', len(set(names)) == len(names))
    for nm in VARS:
        const(ex, '%s is advertised' % nm, nm in names)
    owners = {}
    for nm in names:
        got = {}

        def grab(k, conv):
            def post(ex, e, s, rv, v):
                x = conv(ex, s, rv)
                if k in got and got[k] != x:
                    raise Unsupported('%s(%s) depends on the state' % (k, nm))
                got[k] = x
                SL.frame_rest(ex, e, s)
            return post
        n = Str(nm)
        run(ex, prog, 'GetVarGrid', n, grab('grid', intval))
        run(ex, prog, 'GetVarType', n, grab('type', lambda ex, s, v: strof(v)))
        run(ex, prog, 'GetVarItemsize', n, grab('size', intval))
        run(ex, prog, 'GetVarUnits', n, grab('units', lambda ex, s, v: strof(v)))
        run(ex, prog, 'GetVarLocation', n, grab('loc', lambda ex, s, v: strof(v)))
        g = got['grid']
        const(ex, '%s has a valid grid' % nm, g in TYPES)
        const(ex, '%s: item size matches the type' % nm, SIZE.get(got['type']) == got['size'])
        want = VARS.get(nm)
        if want:
            const(ex, '%s: grid' % nm, g == want[0])
            const(ex, '%s: type' % nm, got['type'] == TYPES[want[0]])
            const(ex, '%s: units' % nm, got['units'] == want[2])
            const(ex, '%s: location' % nm, got['loc'] == want[3])

        def bytes_post(ex, e, s, rv, v):
            ex.oblige(s, as_int(rv) == got['size'] * gridsize(ex, s, g), '%s: bytes = item size x grid size' % nm, 'post')
            SL.frame_rest(ex, e, s)
        run(ex, prog, 'GetVarNbytes', n, bytes_post)

        def ptr_post(ex, e, s, rv, v):
            p = rv
            if isinstance(p, CellPtr):
                owner = tuple(p.key)
                const(ex, '%s: a single value has a grid of size 1' % nm, g in (0, 1))
            elif isinstance(p, ArrPtr) and z3.is_int_value(simplify(p.off)):
                owner = tuple(p.region) + ((simplify(p.off).as_long(),) if simplify(p.off).as_long() else ())
            else:
                raise Unsupported('value pointer %r' % (p,))
            owners.setdefault(owner, []).append(nm)
            if want:
                const(ex, '%s: the pointer leads to its own storage' % nm, owner == want[1])
            SL.frame_rest(ex, e, s)
        run(ex, prog, 'GetValuePtr', n, ptr_post)
    for o, ns in owners.items():
        const(ex, 'storage of %s is not shared' % ns[0], len(ns) == 1)
    # ---- a name the model does not know
    u = Str(Int('str:unknown'))

    def other(ex, st, v):
        for k in names + UNADVERTISED:
            st.facts.append(Not(ex.streq(u, Str(k))))

    def eq(label, val):
        def post(ex, e, s, rv, v):
            ex.oblige(s, as_int(rv) == val, label, 'post')
        return post

    def txt(label, val):
        def post(ex, e, s, rv, v):
            ex.oblige(s, ex.streq(rv, Str(val)), label, 'post')
        return post
    run(ex, prog, 'GetVarGrid', u, eq('an unknown name has no grid', -1), pre=other)
    run(ex, prog, 'GetVarItemsize', u, eq('an unknown name has item size 0', 0), pre=other)
    run(ex, prog, 'GetVarNbytes', u, eq('an unknown name has 0 bytes', 0), pre=other)
    run(ex, prog, 'GetVarType', u, txt('an unknown name has type none', 'none'), pre=other)
    run(ex, prog, 'GetVarUnits', u, txt('an unknown name has units none', 'none'), pre=other)
    run(ex, prog, 'GetVarLocation', u, txt('an unknown name has location none', 'none'), pre=other)

    def gone(ex, e, s, rv, v):
        ex.oblige(s, BoolVal(False), 'asking for the value of an unknown name raises an error', 'post')
    f = prog.func('GetValuePtr')
    try:
        run(ex, prog, 'GetValuePtr', u, gone, pre=other)
    except Unsupported as x:
        if 'never returns' not in str(x):
            raise
        const(ex, 'asking for the value of an unknown name raises an error', True)
    # ---- grids
    gi = Int('grid')

    def size_post(ex, e, s, rv, v):
        for k in range(5):
            ex.oblige(s, Implies(v.grid == k, as_int(rv) == gridsize(ex, s, k)), 'size of grid %d' % k, 'post')
        ex.oblige(s, Implies(Or(v.grid < 0, v.grid > 4), as_int(rv) == -1), 'an unknown grid has size -1', 'post')
        SL.frame_rest(ex, e, s)
    V.verify(ex, 'GetGridSize', ['grid'], lambda ex, st, v: None, size_post)

    def rank_post(ex, e, s, rv, v):
        ex.oblige(s, as_int(rv) == If(And(v.grid >= 0, v.grid <= 4), 1, -1), 'rank of a grid', 'post')
    V.verify(ex, 'GetGridRank', ['grid'], lambda ex, st, v: None, rank_post)

    def shape_post(ex, e, s, rv, v):
        a0, a1 = ex.arr(e, v.shape.region, 'int'), ex.arr(s, v.shape.region, 'int')
        x = fresh('x', I)
        ex.oblige(s, Implies(x != 0, Select(a1, x) == Select(a0, x)), 'only the first entry of the shape is written', 'frame')
        for k in (2, 3):
            ex.oblige(s, Implies(v.grid == k, Select(a1, 0) == gridsize(ex, s, k)), 'shape of grid %d' % k, 'post')
        SL.frame_rest(ex, e, s, (v.shape.region,))
    V.verify(ex, 'GetGridShape', ['grid', 'shape'], lambda ex, st, v: st.lens.__setitem__(v.shape.region, IntVal(1)), shape_post)
    return ex


# ------------------------------------------------------------------ getters and setters
VAR = ('mem', 'var')          # the variable's storage, element by element
EXT = ('mem', 'ext')          # the caller's buffer


def copy_exec(prog, isz):
    G = Int('elements')

    def name_ok(ex, st, argn, e):
        n = ex.ev(argn[0], st)
        if not (isinstance(n, Str) and isinstance(n.s, z3.ExprRef) and str(n.s) == 'str:A.name'):
            raise Unsupported('metadata of another name')

    def c_ptr(ex, st, argn, e):
        name_ok(ex, st, argn, e)
        return ArrPtr(VAR, IntVal(0), 'byte')

    def c_item(ex, st, argn, e):
        name_ok(ex, st, argn, e)
        return IntVal(isz)

    def c_bytes(ex, st, argn, e):
        name_ok(ex, st, argn, e)
        return isz * G

    def c_memcpy(ex, st, argn, e):
        d, s, n = [ex.ev(a, st) for a in argn]
        if not all(isinstance(p, ArrPtr) and p.elem == 'byte' for p in (d, s)):
            raise Unsupported('memcpy of %r' % (d,))
        n = as_int(n)
        ex.oblige(st, And(d.off % isz == 0, s.off % isz == 0, n % isz == 0, n >= 0), 'whole elements are copied', 'safety', e)
        a, b, k = simplify(d.off / isz), simplify(s.off / isz), simplify(n / isz)
        D, S_ = ex.arr(st, d.region, 'int'), ex.arr(st, s.region, 'int')
        for p, o in ((d, a), (s, b)):
            ln = st.lens.get(p.region)
            if ln is not None:
                ex.oblige(st, And(o >= 0, o + k <= ln), 'the copy stays within %s' % p.region[-1], 'safety', e)
        if z3.is_int_value(k) and k.as_long() == 1:
            st.arrays[d.region] = Store(D, a, Select(S_, b))
        else:
            N = fresh('mem', D.sort())
            x = Int('x!c')
            st.facts.append(ForAll([x], Select(N, x) == If(And(x >= a, x < a + k), Select(S_, x - a + b), Select(D, x)), patterns=[Select(N, x)]))
            st.arrays[d.region] = N
        return d
    ex = V.new_exec(prog, {'GetValuePtr': c_ptr, 'GetVarItemsize': c_item, 'GetVarNbytes': c_bytes, 'memcpy': c_memcpy, 'memmove': c_memcpy})
    return ex, G


def buffers(ex, st, v, buf, G, isz, n):
    for k in list(st.cells):
        if k[0] == 'L' and k[2] == buf:
            st.cells[k] = ArrPtr(EXT, IntVal(0), 'byte')
    st.facts += [G >= 0]
    ex.arr(st, VAR, 'int')
    ex.arr(st, EXT, 'int')
    st.lens[VAR] = G
    st.lens[EXT] = n


def v_copy(prog):
    out = None
    for isz in (4, 8):
        for fname, buf in (('GetValue', 'dest'), ('SetValue', 'src')):
            ex, G = copy_exec(prog, isz)
            get = fname == 'GetValue'

            def post(ex, e, s, rv, v):
                x = fresh('x', I)
                A = lambda st, r: Select(ex.arr(st, r, 'int'), x)
                to, fr = (EXT, VAR) if get else (VAR, EXT)
                ex.oblige(s, Implies(And(x >= 0, x < G), A(s, to) == A(e, fr)), '%s transfers every element' % fname, 'post')
                ex.oblige(s, Implies(Or(x < 0, x >= G), A(s, to) == A(e, to)), '%s writes nothing more' % fname, 'frame')
                ex.oblige(s, A(s, fr) == A(e, fr), '%s leaves the source unchanged' % fname, 'frame')
                SL.frame_rest(ex, e, s, (VAR, EXT))
            V.verify(ex, fname, ['name', buf], lambda ex, st, v: buffers(ex, st, v, buf, G, isz, G), post)
            out = join(out, ex)
    return out


def join(a, b):
    if a is None:
        return b
    a.obls += b.obls
    a.loops = getattr(a, 'loops', []) + getattr(b, 'loops', [])
    a.inlined |= b.inlined
    return a


def v_index(prog):
    out = None
    for isz in (4, 8):
        for fname in ('GetValueAtIndices', 'SetValueAtIndices'):
            ex, G = copy_exec(prog, isz)
            get = fname[0] == 'G'
            names = ['name', 'dest', 'inds', 'len'] if get else ['name', 'inds', 'len', 'src']
            SEQ = Function('AFTER', I, ArraySort(I, I))     # the variable after k assignments, in the order of the indices

            def pre(ex, st, v):
                buffers(ex, st, v, names[1] if get else names[3], G, isz, v.len)
                inds = ex.arr(st, v.inds.region, 'int')
                k = Int('k!i')
                v0, e0 = ex.arr(st, VAR, 'int'), ex.arr(st, EXT, 'int')
                st.facts += [v.len >= 0, ForAll([k], Implies(And(k >= 0, k < v.len), And(inds[k] >= 0, inds[k] < G)), patterns=[inds[k]])]
                st.lens[v.inds.region] = v.len
                st.facts.append(SEQ(0) == v0)

                def pool(ex, st, h, syms, N):
                    o = []
                    if get:
                        def at(ex_, s, sub):
                            import speclgar as SG
                            D = SG.named(ex, s, EXT, 'int')
                            return ForAll([k], Select(D, k) == If(And(k >= 0, k < sub(N)), Select(v0, inds[k]), Select(e0, k)), patterns=[Select(D, k)])
                        o.append(Cand('elements fetched so far', at, None, None, True))
                    else:
                        def prove(ex, s, g, h):
                            if h is not None:
                                s.facts.append(SEQ(N + 1) == Store(SEQ(N), inds[N], e0[N]))     # definition at N
                            return None
                        o.append(Cand('elements set so far', lambda ex_, s, sub: ex.arr(s, VAR, 'int') == SEQ(sub(N)), prove, None, True))
                    o.append(Cand('indices not exceeded', lambda ex_, s, sub: sub(N) <= v.len))
                    return o
                ex.pool.append(pool)

            def post(ex, e, s, rv, v):
                x = fresh('x', I)
                inds = ex.arr(e, v.inds.region, 'int')
                A = lambda st, r, i: Select(ex.arr(st, r, 'int'), i)
                if get:
                    ex.oblige(s, Implies(And(x >= 0, x < v.len), A(s, EXT, x) == A(e, VAR, inds[x])), 'element k of the result is the addressed element', 'post')
                    ex.oblige(s, Implies(Or(x < 0, x >= v.len), A(s, EXT, x) == A(e, EXT, x)), 'nothing more is written', 'frame')
                    ex.oblige(s, A(s, VAR, x) == A(e, VAR, x), 'the variable is unchanged', 'frame')
                else:
                    ex.oblige(s, ex.arr(s, VAR, 'int') == SEQ(v.len), 'the addressed elements are replaced in the order of the indices', 'post')
                    ex.oblige(s, A(s, EXT, x) == A(e, EXT, x), 'the source is unchanged', 'frame')
                SL.frame_rest(ex, e, s, (VAR, EXT))
            V.verify(ex, fname, names, pre, post)
            out = join(out, ex)
    # what the sequence of assignments means, by induction over the number of assignments
    A, inds, src = Function('AFTER', I, ArraySort(I, I)), Const('inds', ArraySort(I, I)), Const('src', ArraySort(I, I))
    x, k, n = z3.Ints('x k n')
    step = A(n + 1) == Store(A(n), inds[n], src[n])
    never = lambda m: ForAll([k], Implies(And(k >= 0, k < m), inds[k] != x), patterns=[inds[k]])
    from specsoil import lemma
    lemma(out, 'elements not addressed are unchanged (step)', [n >= 0, step, never(n + 1), Implies(never(n), Select(A(n), x) == Select(A(0), x))], Select(A(n + 1), x) == Select(A(0), x))
    j = Int('j')
    lastof = lambda m: And(j >= 0, j < m, ForAll([k], Implies(And(k > j, k < m), inds[k] != inds[j]), patterns=[inds[k]]))
    lemma(out, 'the last value given for an element stays (step)', [n >= 0, step, lastof(n + 1), Implies(lastof(n), Select(A(n), inds[j]) == src[j])], Select(A(n + 1), inds[j]) == src[j])
    return out
