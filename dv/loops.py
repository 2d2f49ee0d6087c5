"""Loops: inference of inductive invariants (closed forms + candidate pool, pruned Houdini-style) and the cut."""
import os, sys, time
from sym import *
import sym, solve
from execu import LCell, Ref

DEBUG = os.environ.get('DV_DEBUG')


class Cand:
    def __init__(self, label, at, prove=None, ms=None, required=False):
        self.label, self._at, self.custom, self.ms, self.required = label, at, prove, ms, required

    def at(self, ex, s, sub):
        return self._at(ex, s, sub)


_consts = {}


def consts_of(e, cache=None):
    k = e.get_id()
    c = _consts.get(k)
    if c is None:
        c = _consts[k] = (e, frozenset(consts_of1(e)))        # e is kept alive: its id stays unique
    return c[1]


def consts_of1(e):
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x)
            stack.extend(x.children())
    return out


def raw(v):
    if isinstance(v, FV):
        return v.r
    if isinstance(v, Null):
        return IntVal(0)
    if isinstance(v, ArrPtr):
        return v.off
    return v


def sub_ite(nv, v):
    """nv - v pushed under ite"""
    if z3.is_app(nv) and nv.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = nv.children()
        return If(c, sub_ite(a, v), sub_ite(b, v))
    return simplify(nv - v, som=False)


def pc_of(states, np):
    return [conj(s.path[np:]) for s in states]


def run_iter(ex, cond, inc, body, h, do):
    """one iteration from h. returns (exit states, back-edge states, outcome extras)"""
    from execu import End
    exits, back = [], []
    rets, thrown = [], []
    s = h
    if not do and cond is not None:
        try:
            c = as_bool(ex.ev(cond, s))
        except End as x:
            if x.kind == 'throw':
                thrown.append(s)
            return exits, back, rets, thrown
        c = simplify(c)
        if not is_true(c):
            x = s.copy()
            x.path.append(simplify(Not(c)))
            exits.append(x)
        if is_false(c):
            return exits, back, rets, thrown
        if not is_true(c):
            s = s.copy()
            s.path.append(c)
        else:
            s = s.copy()
    else:
        s = s.copy()
    o = ex.stmt(body, s)
    exits += o.brk
    rets += o.ret
    thrown += o.thrown
    nxt = ([o.normal] if o.normal is not None else []) + o.cont
    m = ex.merge(nxt, len(h.path), len(h.facts)) if nxt else None
    if m is not None and do:
        try:
            c = simplify(as_bool(ex.ev(cond, m)))
            if not is_true(c):
                x = m.copy()
                x.path.append(simplify(Not(c)))
                exits.append(x)
            if is_false(c):
                m = None
            elif not is_true(c):
                m.path.append(c)
        except End as x:
            if x.kind == 'throw':
                thrown.append(m)
            m = None
    if m is not None and inc is not None:
        o2 = ex.stmt(inc, m)
        m = o2.normal
    if m is not None:
        back.append(m)
    return exits, back, rets, thrown


def diff_keys(ex, h, s):
    cells, arrays = set(), set()
    for k, v in s.cells.items():
        if k in h.cells:
            if not (v is h.cells[k] or same(v, h.cells[k])):
                cells.add(k)
        elif k in ex.init_cells and not same(v, ex.init_cells[k]):
            cells.add(k)
    for k, v in s.arrays.items():
        base = h.arrays.get(k, ex.init_arrays.get(k))
        if base is not None and not same(v, base):
            arrays.add(k)
    return cells, arrays


def unchanged(ex, h, b, k):
    """the iteration provably stores the value that was there (tried for caller-visible reals only)"""
    if k[0] == 'L' or k[0] == 'gh':
        return False
    a, c = h.cells.get(k, ex.init_cells.get(k)), b.cells[k]
    if not (isinstance(a, z3.ArithRef) and isinstance(c, z3.ArithRef) and a.sort() == R and c.sort() == R):
        return False
    return solve.prove(b.pc(), a == c, 1500, ex.extra_ax, quick=True).status == 'valid'


def touch(ex, st, s):
    """inputs first read inside the loop exist before it as well"""
    for k, v in s.cells.items():
        if k not in st.cells and k in ex.init_cells:
            st.cells[k] = ex.init_cells[k]
    for k, v in s.arrays.items():
        if k not in st.arrays and k in ex.init_arrays and not (k[0] == 'new' and k in s.lens and k not in st.lens):
            st.arrays[k] = ex.init_arrays[k]


def havoc(ex, st, mc, ma):
    h = st.copy()
    syms = {}
    for k in mc:
        v = st.cells[k]
        nm = 'h_' + str(k[2] if k[0] == 'L' else k[-1])
        if isinstance(v, FV):
            x = fresh(nm, R)
            h.cells[k] = x
            syms[('c', k)] = x
        elif isinstance(v, z3.ExprRef):
            x = fresh(nm, v.sort())
            h.cells[k] = x
            syms[('c', k)] = x
        elif isinstance(v, ArrPtr):
            x = fresh(nm, I)
            h.cells[k] = ArrPtr(v.region, x, v.elem)
            syms[('c', k)] = x
        elif isinstance(v, Null):
            x = fresh(nm, I)
            h.cells[k] = x
            syms[('c', k)] = x
        elif isinstance(v, Ref):
            raise Unsupported('reference rebound in loop')
        else:
            h.cells[k] = Opaque('loop')
    for k in ma:
        v = st.arrays[k]
        x = fresh('h_' + str(k[-1]), v.sort())
        h.arrays[k] = x
        syms[('a', k)] = x
    hv = ex.__dict__.get('havocs')
    if hv is not None:
        for t, x in syms.items():
            hv[x.decl().name()] = t
    return h, syms


def value_in(s, tag):
    t, k = tag
    return raw(s.cells[k]) if t == 'c' else s.arrays[k]


class SubMap:
    def __init__(self, pairs):
        self.pairs = pairs

    def __call__(self, f):
        return z3.substitute(f, *self.pairs) if self.pairs else f


def submap(syms, s, extra=()):
    pairs = []
    for tag, x in syms.items():
        v = value_in(s, tag)
        if not isinstance(v, z3.ExprRef):
            v = fresh('junk', x.sort())
        if v.sort() != x.sort():
            if x.sort() == R:
                v = real(v)
            elif x.sort() == I and v.sort() == B:
                v = as_int(v)
            else:
                v = fresh('junk', x.sort())
        pairs.append((x, v))
    return SubMap(pairs + list(extra))


def is_node_cell(ex, k):
    qt = ex.vartype.get(k)
    if qt is None:
        return str(k[-1]) in ('head', 'state_previous', '*')
    kk = kind_of(qt)
    return isinstance(kk, tuple) and kk[0] == 'ptr' and kind_of(kk[1]) == ('rec', NODE)


def stores(e, base):
    """set of indices stored on top of base; None if not understood"""
    out = []

    def walk(x):
        if x.eq(base):
            return True
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_STORE:
                if not walk(x.arg(0)):
                    return False
                if not any(x.arg(1).eq(o) for o in out):
                    out.append(x.arg(1))
                return True
            if x.decl().kind() == z3.Z3_OP_ITE:
                return walk(x.arg(1)) and walk(x.arg(2))
        return False
    return out if walk(e) else None


def affine(e, n):
    """e = a + c*n with c in {1,-1,0}: returns (a, c)"""
    a = simplify(z3.substitute(e, (n, IntVal(0))))
    b = simplify(z3.substitute(e, (n, IntVal(1))))
    d = simplify(b - a)
    if z3.is_int_value(d):
        c = d.as_long()
        # n must occur only linearly
        t = simplify(z3.substitute(e, (n, IntVal(7))) - a)
        if z3.is_int_value(t) and t.as_long() == 7 * c:
            return a, c
    return None


def run_loop(ex, node, cond, inc, body, st, do):
    ex.loopdepth += 1
    try:
        return _run_loop(ex, node, cond, inc, body, st, do)
    finally:
        ex.loopdepth -= 1


def concrete_trip(ex, node, cond, inc, body, st, do):
    return None


def _run_loop(ex, node, cond, inc, body, st, do, tag=()):
    line = ex.prog.line(ex.curunit, node.get('off'))
    # ---------------------------------------------------------------- effects
    mc, ma = set(), set()
    lite0 = ex.lite
    nobl = len(ex.obls)
    for rnd in range(12):
        h, syms = havoc(ex, st, mc, ma)
        ex.lite = True
        try:
            _, back, _, _ = run_iter(ex, cond, inc, body, h.copy(), do)
        finally:
            ex.lite = lite0
        n0 = (len(mc), len(ma))
        for b in back:
            touch(ex, st, b)
            c, a = diff_keys(ex, h, b)
            mc |= {k for k in c if k in st.cells and (k in mc or not unchanged(ex, h, b, k))}
            ma |= {k for k in a if k in st.arrays}
        if (len(mc), len(ma)) == n0:
            break
    else:
        raise Unsupported('loop effects do not stabilise')
    del ex.obls[nobl:]
    mc = sorted(mc, key=str)
    ma = sorted(ma, key=str)
    if ex.lite:
        h, syms = havoc(ex, st, mc, ma)
        exits, back, rets, thrown = run_iter(ex, cond, inc, body, h, do)
        out = Outcome(ex.merge(exits, len(st.path), len(st.facts)))
        out.ret, out.thrown = rets, thrown
        return out
    # ---------------------------------------------------------------- a cursor that starts in one of several places
    for k in mc:
        v0 = raw(st.cells[k])
        if is_node_cell(ex, k) and isinstance(v0, z3.ExprRef) and z3.is_app(v0) and v0.decl().kind() == z3.Z3_OP_ITE:
            c = v0.arg(0)
            out = Outcome(None)
            norm = []
            for val in (True, False):
                s1 = st.copy()
                g = c if val else simplify(Not(c))
                s1.path.append(g)
                if ex.valid(s1, BoolVal(False), 1000):
                    continue
                for kk, vv in list(s1.cells.items()):
                    if isinstance(vv, z3.ArithRef) and vv.sort() == I and z3.is_app(vv) and vv.decl().kind() == z3.Z3_OP_ITE:
                        s1.cells[kk] = simplify(z3.substitute(vv, (c, BoolVal(val))))
                o = _run_loop(ex, node, cond, inc, body, s1, do, tag + (val,))
                out.absorb(o)
                if o.normal is not None:
                    norm.append(o.normal)
            out.normal = ex.merge(norm, len(st.path), len(st.facts))
            return out
    # ---------------------------------------------------------------- candidates
    rec0 = ex.recording
    N = fresh('N', I)
    h, syms = havoc(ex, st, mc, ma)
    h.facts.append(N >= 0)
    mark = next(sym._cnt)
    ex.recording = False
    nl = len(ex.loops)
    try:
        ex.lite = True
        exits, back, _, _ = run_iter(ex, cond, inc, body, h.copy(), do)
        ex.lite = lite0
        guard = None
        if cond is not None and not do:
            ex.lite = True
            guard = as_bool(ex.ev(cond, h.copy()))
            ex.lite = lite0
        cands = candidates(ex, st, h, syms, back, N, mark, guard) if back else []
        defs = ex.loopdefs
        # -------------------------------------------------------- Houdini
        all_labels = {c.label for c in cands}
        init_sub = submap(syms, st, [(N, IntVal(0))])
        st0 = st.copy()
        st0.facts += defs
        keep = []
        skip = ex.__dict__.setdefault('dropped', {}).setdefault((ex.callsites(), ex.curfn, node.get('off'), tag), set())
        for c in cands:
            if c.label in skip:   # dropped before under stronger hypotheses of an enclosing loop
                continue
            s1 = st0.copy()
            f = c.at(ex, s1, init_sub)
            if prove_one(ex, s1, f, c, None):
                keep.append(c)
            elif c.required:
                raise ProofStop(c.label + ' (established)', node)
            elif DEBUG:
                print('   init-drop', c.label, file=sys.stderr)
        cands = keep
        rounds = 0
        while back:
            rounds += 1
            hh = h.copy()
            hh.facts += defs
            idm = SubMap([])
            for c in cands:
                hh.facts.append(c.at(ex, hh, idm))
            exits, back, rets, thrown = run_iter(ex, cond, inc, body, hh, do)
            bad = []
            for b in back:
                bm = submap(syms, b, [(N, N + 1)])
                for c in sorted(cands, key=lambda c: c.custom is not None):
                    if c in bad:
                        continue
                    if bad and c.custom is not None:   # expensive ones only when the others are stable
                        break
                    s1 = b.copy()
                    s1.origin = b
                    f = c.at(ex, s1, bm)
                    if not prove_one(ex, s1, f, c, hh):
                        if c.required:
                            raise ProofStop(c.label + ' (preserved)', node)
                        bad.append(c)
                        if DEBUG:
                            print('   drop', c.label, file=sys.stderr)
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
            if rounds > 12:
                raise Unsupported('invariant inference does not converge')
        if ex.loopdepth > 1:
            skip |= all_labels - {c.label for c in cands}
    finally:
        ex.recording = rec0
        ex.lite = lite0
        del ex.loops[nl:]
    if DEBUG:
        print('loop %s:%d (%s) keeps: %s' % (ex.curfn, line, [str(k[2] if k[0] == 'L' else k) for k in mc + ma],
                                             [c.label for c in cands]), file=sys.stderr)
    ex.loops.append({'function': ex.curfn, 'line': line, 'invariants': [c.label for c in cands]})
    # ---------------------------------------------------------------- the cut
    if ex.recording:
        for c in cands:
            ex.discharged(c.label + ' (established)', 'loop-invariant', node)
            ex.discharged(c.label + ' (preserved)', 'loop-invariant', node)
    hh = h.copy()
    hh.facts += defs
    for c in cands:
        hh.facts.append(c.at(ex, hh, SubMap([])))
    if os.environ.get('VACL'):
        print('VACL', line, ex.valid(st, BoolVal(False), 4000), ex.valid(hh, BoolVal(False), 4000), file=sys.stderr)
    exits, back, rets, thrown = run_iter(ex, cond, inc, body, hh, do)
    if os.environ.get('VACL'):
        print('VACL back', line, [ex.valid(b, BoolVal(False), 4000) for b in back], [ex.valid(b, BoolVal(False), 4000) for b in exits], file=sys.stderr)
    if getattr(ex, 'breakinv', False) and ex.recording:
        # invariants that hold where the loop is left in mid-iteration, counted as a full iteration
        for x in exits[1:] if not do else exits:
            sub = submap(syms, x, [(N, N + 1)])
            for c in cands:
                s1 = x.copy()
                f = c.at(ex, s1, sub)
                if prove_one(ex, s1, f, c, hh):
                    x.facts.append(f)
    out = Outcome(ex.merge(exits, len(st.path), len(st.facts)))
    out.ret, out.thrown = rets, thrown
    return out


def unset(v0):
    return z3.is_const(v0) and v0.decl().name().startswith('uninit')


def prove_one(ex, s, f, c, h):
    if c.custom is not None:
        r = c.custom(ex, s, f, h)
        if r is not None:
            return r
    return ex.valid(s, f, c.ms)


def at(seq, ln, k):
    return If(And(k >= 0, k < ln), Select(seq, k), IntVal(0))


def candidates(ex, st, h, syms, back, N, mark, guard):
    ex.loopdefs = []
    out = []
    b = back[0] if len(back) == 1 else ex.merge(back, len(h.path), len(h.facts))
    H = {x.decl().name(): tag for tag, x in syms.items()}
    CF = {}          # symbol -> closed form over N

    def F(label, f, ms=None):
        out.append(Cand(label, lambda ex_, s, sub, f=f: sub(f), None, ms))

    def nm(tag):
        k = tag[1]
        return str(k[2]) if k[0] == 'L' else '.'.join(str(x) for x in k)
    ints, reals, nodes, bools = [], [], [], []
    for tag, x in syms.items():
        if tag[0] != 'c':
            continue
        if x.sort() == I:
            (nodes if is_node_cell(ex, tag[1]) else ints).append((tag, x))
        elif x.sort() == R:
            reals.append((tag, x))
        else:
            bools.append((tag, x))
    # integers with a constant step
    for tag, x in ints:
        nv, v0 = value_in(b, tag), value_in(st, tag)
        if not isinstance(nv, z3.ExprRef):
            continue
        d = simplify(nv - x)
        if z3.is_int_value(d):
            CF[x] = v0 + d * N
            F('%s = start %+d per iteration' % (nm(tag), d.as_long()), x == v0 + d * N)
        else:
            if unset(v0):
                continue
            F('%s >= start' % nm(tag), x >= v0, 600)
            F('%s <= start' % nm(tag), x <= v0, 600)
            F('%s <= start + iterations' % nm(tag), x <= v0 + N, 600)
    # cursors over ghost lists
    posn = {}
    for tag, x in nodes:
        v0 = value_in(st, tag)
        if not isinstance(v0, z3.ExprRef):
            continue
        for L in ex.lists:
            seqH, lenH, idxH = L.seq(ex, h), L.len(ex, h), L.idx(ex, h)
            seq0, len0, idx0 = L.seq(ex, st), L.len(ex, st), L.idx(ex, st)
            k0 = None
            for c in ([IntVal(0)] if v0.eq(L.head(ex, st)) else []) + [simplify(If(v0 == 0, len0, Select(idx0, v0)))]:
                if ex.valid(st, And(v0 == at(seq0, len0, c), c >= 0, c <= len0)):
                    k0 = c
                    break
            nv = value_in(b, tag)
            if k0 is None:
                continue
            F('%s is front #(start+iterations) of %s' % (nm(tag), L.name), x == at(seqH, lenH, k0 + N))
            F('%s stays within %s' % (nm(tag), L.name), And(k0 >= 0, k0 + N <= lenH))
            F('%s stays at a front of %s' % (nm(tag), L.name), And(k0 >= 0, k0 + N < lenH))
            if seqH.eq(seq0):
                nxt = h.arrays.get(('wf', 'next'))
                if nxt is not None and isinstance(nv, z3.ExprRef) and nv.eq(Select(nxt, x)):
                    posn.setdefault(x, (L, k0))
            else:
                F('%s is a front of %s' % (nm(tag), L.name), Or(x == 0, And(Select(idxH, x) >= 0, Select(idxH, x) < lenH,
                                                                           Select(seqH, Select(idxH, x)) == x)))
    good = posn
    for x, (L, k0) in good.items():
        CF[x] = Select(L.seq(ex, h), k0 + N)

    def closed(e):
        """e over H symbols -> over N only (or None)"""
        for c in consts_of(e):
            n = c.decl().name()
            if c in CF or any(c.eq(y) for y in CF):
                continue
            if c.eq(N):
                continue
            if n in H:
                # array modified in the loop: read at a place not yet written -> its value before the loop
                continue
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > mark:
                        return None
                except ValueError:
                    pass
        pairs = [(x, f) for x, f in CF.items()]
        for tag, x in syms.items():
            if tag[0] == 'a':
                pairs.append((x, value_in(st, tag)))
            elif not any(x.eq(y) for y in CF):
                if any(c.eq(x) for c in consts_of(e)):
                    return None
        return z3.substitute(e, *pairs)

    def guards(n):
        """positions used by cursors are in range"""
        return [And(k0 + n >= 0, k0 + n < L.len(ex, h)) for x, (L, k0) in good.items()]
    # accumulators and last-value forms
    for tag, x in reals + bools + ints + nodes:
        if x in CF:
            continue
        nv, v0 = value_in(b, tag), value_in(st, tag)
        if not isinstance(nv, z3.ExprRef) or not isinstance(v0, z3.ExprRef):
            continue
        if nv.sort() != x.sort():
            continue
        if x.sort() == R:
            d = sub_ite(nv, x)
            if not any(c.eq(x) for c in consts_of(d)):
                E = closed(d)
                if E is not None and getattr(ex, 'linear', False) and not any(c.eq(N) for c in consts_of(E)):
                    F('%s = start + iterations x constant' % nm(tag), x == v0 + z3.ToReal(N) * E)
                elif E is not None:
                    T = fresh('T', ArraySort(I, R))
                    j = Int('j!b')
                    body = z3.substitute(E, (N, j))
                    ex.loopdefs.append(ForAll([j], Select(T, j) == body, patterns=[Select(T, j)]))
                    def pr(ex, s, f, h, tag=tag, x=x, E=E):
                        if h is None:
                            return None
                        w = value_in(s, tag)
                        d = simplify(z3.substitute(sub_ite(w, x), *[(y, c) for y, c in CF.items() if y.sort() == I and not any(y.eq(z) for z in good)])) if isinstance(w, z3.ExprRef) else None
                        return True if d is not None and d.eq(simplify(E)) else None
                    out.append(Cand('%s = start + sum of increments' % nm(tag), lambda ex_, s, sub, f=(x == v0 + SUM(T, 0, N)): sub(f), pr))
                    # instances that make the unfolding of the sum visible
                    ex.loopdefs += [SUM(T, 0, 0) == 0, SUM(T, 0, N + 1) == If(N >= 0, SUM(T, 0, N) + Select(T, N), RealVal(0))]
                    ex.sums.append((T, N, E))
            if unset(v0):
                continue
            for lab, f in (('>= 0', x >= 0), ('> 0', x > 0), ('>= start', x >= v0), ('<= start', x <= v0)):
                F('%s %s' % (nm(tag), lab), f, 600)
        if x.sort() == B:
            cs = flag_sets(nv, x)
            for want, c in cs or ():
                E = closed(c)
                if E is None:
                    continue
                q = Int('k!b')
                body = z3.substitute(E, (N, q))
                rng = And(q >= 0, q < N)
                lit = x if want else Not(x)
                lit0 = v0 if want else Not(v0)
                sel = pick_select(E, N)
                if sel is not None:
                    q2 = Int('k!b')
                    bq = simplify_keep(z3.substitute(E, (N, q2 - sel[1])))
                    F('%s not yet %s: no earlier iteration triggered it' % (nm(tag), want),
                      ForAll([q2], Implies(And(q2 - sel[1] >= 0, q2 - sel[1] < N, Not(lit)), Not(bq)), patterns=[Select(sel[0], q2)]))
                    F('%s %s only after an iteration triggered it' % (nm(tag), want),
                      Implies(And(lit, Not(lit0)), z3.Exists([q2], And(q2 - sel[1] >= 0, q2 - sel[1] < N, bq))))
        if not any(c.eq(x) for c in consts_of(nv)):
            E = closed(nv)
            if E is not None:
                F('%s = value of the last iteration' % nm(tag), x == If(N == 0, v0, z3.substitute(E, (N, N - 1))))
    # arrays written once per iteration
    for tag, x in syms.items():
        if tag[0] != 'a' or tag[1][0] == 'gl':
            continue
        A0 = value_in(st, tag)
        nA = value_in(b, tag)
        ixs = stores(nA, x)
        q = Int('x!b')
        if not ixs:
            continue
        # frame: only places indexed by the written indices may change
        if len(ixs) == 1:
            ix = ixs[0]
            val = simplify(Select(nA, ix))
            if tag[1][0] == 'wf':
                cur = [y for y in good if ix.eq(y)]
                if not cur:
                    # written through another cursor (e.g. p->next)
                    ci = closed(ix)
                    E = closed(val)
                    if ci is not None and E is not None:
                        for L in ex.lists:
                            for dlt in (1, -1):
                                pass
                    continue
                L, k0 = good[cur[0]]
                E = closed(val)
                if E is None:
                    continue
                pos = Select(L.idx(ex, h), q)
                E = z3.substitute(E, (Select(L.seq(ex, h), k0 + N), q))
                E = z3.substitute(E, (Select(L.seq(ex, h), simplify(k0 + N)), q))
                E = z3.substitute(E, (N, pos - k0))
                inl = And(pos >= k0, pos < k0 + N, pos < L.len(ex, h), pos >= 0, Select(L.seq(ex, h), pos) == q)
                F('%s updated exactly at the visited fronts' % nm(tag),
                  ForAll([q], Select(x, q) == If(inl, E, Select(A0, q)), patterns=[Select(x, q)]))
            else:
                ci = closed(ix)
                af = affine(ci, N) if ci is not None else None
                E = closed(val)
                if af is None or af[1] not in (1, -1):
                    continue
                a, c = af
                j = (q - a) if c == 1 else (a - q)
                if E is not None:
                    E = z3.substitute(E, (N, j))
                    E = simplify(E)
                    F('%s updated exactly at the visited entries' % nm(tag),
                      ForAll([q], Select(x, q) == If(And(j >= 0, j < N), E, Select(A0, q)), patterns=[Select(x, q)]))
                F('%s unchanged at entries not visited' % nm(tag),
                  ForAll([q], Implies(Not(And(j >= 0, j < N)), Select(x, q) == Select(A0, q)), patterns=[Select(x, q)]))
    # what was tested in earlier iterations held
    conds = []
    for p in b.path[len(h.path):]:
        conds += list(p.children()) if z3.is_and(p) else [p]
    done = set()
    for p in conds:
        P = closed(p)
        if P is None or P.get_id() in done:
            continue
        done.add(P.get_id())
        sel = pick_select(P, N)
        if sel is None:
            continue
        arr, a = sel
        q = Int('k!b')
        body = simplify_keep(z3.substitute(P, (N, q - a)))
        g = [And(q - a >= 0, q - a < N)]
        F('tested in every earlier iteration: %s' % str(p).replace('\n', ' ')[:60],
          ForAll([q], Implies(conj(g), body), patterns=[Select(arr, q)]))
    # bounds from the guard
    if guard is not None:
        for a in atoms(guard):
            if a.num_args() == 2 and a.arg(0).sort() == I:
                l, r = a.arg(0), a.arg(1)
                for u, v in ((l, r), (r, l)):
                    if any(c.decl().name() in H for c in consts_of(u)):
                        F('bound from loop guard', u <= v)
                        F('bound from loop guard (+1)', u <= v + 1)
                        F('bound from loop guard (lower)', u >= v)
                        F('bound from loop guard (lower -1)', u >= v - 1)
                        break
    for p in ex.pool:
        out += p(ex, st, h, syms, N)
    return out


def flag_sets(nv, x):
    """boolean that is only ever switched one way: [(value it is set to, condition)]"""
    nv = simplify(nv)
    on = simplify(z3.substitute(nv, (x, BoolVal(False))))
    off = simplify(z3.substitute(nv, (x, BoolVal(True))))
    out = []
    if is_true(off) and not is_false(on):
        out.append((True, on))
    if is_false(on) and not is_true(off):
        out.append((False, simplify(Not(off))))
    return out


def simplify_keep(e):
    return simplify(e)


def pick_select(P, N):
    """an array read whose index is a + N"""
    seen, stack = set(), [P]
    best = None
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort() == I and z3.is_const(x.arg(0)):
                af = affine(x.arg(1), N)
                if af is not None and af[1] == 1:
                    best = (x.arg(0), af[0])
            stack.extend(x.children())
    return best


def atoms(e):
    out, stack = [], [e]
    while stack:
        x = stack.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            stack.extend(x.children())
        elif z3.is_app(x) and x.sort() == B and x.num_args() == 2:
            out.append(x)
    return out
