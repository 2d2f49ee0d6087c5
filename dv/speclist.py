"""Contracts of the wetting-front list operations (linked_list.cxx)."""
from sym import *
import sym
from execu import LCell, LArr, Ref
from lists import GList
import verify as V

FIELDS = ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'layer_num', 'front_num', 'to_bottom', 'dzdt_cm_per_h')
NODEF = FIELDS + ('next', 'alloc', 'own')


def assume_wf(ex, st, L, numbered=True):
    for _, f in L.wf(ex, st, numbered):
        st.facts.append(f)


def oblige_wf(ex, st, L, what, numbered=True, node=None, kind='post'):
    ex.name_heaps(st)
    for n, f in L.wf(ex, st, numbered):
        ex.oblige(st, f, '%s: %s' % (what, n), kind, node)


def ptr_list(ex, name, lid, p):
    """ghost list whose head is held in the pointer value p (struct wetting_front** or *)"""
    if isinstance(p, CellPtr):
        return GList(name, lid, LCell(p.key, p.qt))
    raise Unsupported('list head')


class ValHead:
    pass


def value_list(ex, st, name, lid, val):
    key = ('ghead', name)
    st.cells[key] = val
    return GList(name, lid, LCell(key, 'wetting_front *'))


def heap_snapshot(ex, st):
    return {f: ex.heap(st, f) for f in NODEF}


def frame_fields(ex, e, s, what, fields=NODEF, node=None):
    """these heap fields are unchanged"""
    for f in fields:
        a, b = ex.heap(e, f), ex.heap(s, f)
        if not a.eq(b):
            x = Int('x!f')
            ex.oblige(s, Select(a, x) == Select(b, x), '%s: %s unchanged' % (what, f), 'frame', node)


def frame_rest(ex, e, s, allowed=(), what='frame', node=None):
    """nothing but the allowed cells/arrays changed (caller visible state only)"""
    for k, a in s.arrays.items():
        if k in allowed or k[0] in ('L', 'new', 'gl', 'tmp') or k[0] == 'wf':
            continue
        b = e.arrays.get(k, ex.init_arrays.get(k))
        if b is None or a.eq(b):
            continue
        x = Int('x!f')
        ex.oblige(s, Select(a, x) == Select(b, x), '%s: %s unchanged' % (what, '.'.join(map(str, k))), 'frame', node)
    for k, a in s.cells.items():
        if k in allowed or k[0] in ('L', 'new', 'gl', 'tmp', 'ret', 'ghead', 'G'):
            continue
        b = e.cells.get(k, ex.init_cells.get(k))
        if b is None or same(a, b):
            continue
        if isinstance(a, (FV, z3.ExprRef)) and isinstance(b, (FV, z3.ExprRef)):
            ex.oblige(s, real(a) == real(b) if a.sort() == R else a == b, '%s: %s unchanged' % (what, '.'.join(map(str, k))), 'frame', node)
        else:
            raise Unsupported('cell %s changed' % (k,))


# ------------------------------------------------------------------ callee side (used at call sites)
def find_list(ex, st, p):
    for L in ex.lists:
        if same(L.head(ex, st), p):
            return L
    for L in ex.lists:
        if isinstance(p, z3.ExprRef) and ex.valid(st, L.head(ex, st) == p):
            return L
    raise Unsupported('list operation on an unknown list')


def find_list_pp(ex, st, pp):
    """list whose head variable pp points to"""
    if isinstance(pp, CellPtr):
        for L in ex.lists:
            if isinstance(L.headlv, LCell) and L.headlv.key == pp.key:
                return L
    raise Unsupported('list operation through an unknown head pointer')


def wf_known(ex, st, L, e, what):
    """callers must hold a well formed list: obligation per clause (usually syntactically an assumption)"""
    if ex.lite:
        return
    ex.name_heaps(st)
    have = {f.get_id() for f in st.facts}
    for n, f in L.wf(ex, st):
        if f.get_id() in have:
            continue
        ex.oblige(st, f, '%s requires a well formed list: %s' % (what, n), 'pre', e)


def c_listLength(ex, st, argn, e):
    p = ex.ev(argn[0], st)
    L = find_list(ex, st, p)
    wf_known(ex, st, L, e, 'listLength')
    return L.len(ex, st)


def c_listFindFront(ex, st, argn, e):
    k = as_int(ex.ev(argn[0], st))
    h = ex.ev(argn[1], st)
    old = ex.ev(argn[2], st) if len(argn) > 2 and argn[2]['kind'] != 'CXXDefaultArgExpr' else NULL
    L = find_list(ex, st, h)
    wf_known(ex, st, L, e, 'listFindFront')
    r1 = If(And(k >= 1, k <= L.len(ex, st)), Select(L.seq(ex, st), simplify(k - 1)), IntVal(0))
    if isinstance(old, Null) or (isinstance(old, z3.ExprRef) and z3.is_int_value(old) and old.as_long() == 0):
        return r1
    P = find_list(ex, st, old)
    wf_known(ex, st, P, e, 'listFindFront')
    r2 = If(And(k >= 1, k <= P.len(ex, st)), Select(P.seq(ex, st), simplify(k - 1)), IntVal(0))
    return If(h == 0, IntVal(0), If(old == 0, r1, r2))


def nm(prefix, sort):
    return fresh(prefix, sort)


def ghost_shift(ex, st, L, pos, d, newnode=None, old=None):
    """sequence after removing (d=-1) or inserting (d=+1) one front at position pos"""
    seq, idx, ln = L.seq(ex, st), L.idx(ex, st), L.len(ex, st)
    s2, i2 = fresh('seq', seq.sort()), fresh('idx', idx.sort())
    i, x = Int('i!g'), Int('x!g')
    if d == -1:
        st.facts += [ForAll([i], Select(s2, i) == If(i < pos, Select(seq, i), Select(seq, i + 1)), patterns=[Select(s2, i)]),
                     ForAll([x], Select(i2, x) == If(Select(idx, x) > pos, Select(idx, x) - 1, Select(idx, x)), patterns=[Select(i2, x)])]
    else:
        st.facts += [ForAll([i], Select(s2, i) == If(i < pos, Select(seq, i), If(i == pos, newnode, Select(seq, i - 1))), patterns=[Select(s2, i)]),
                     ForAll([x], Select(i2, x) == If(x == newnode, pos, If(Select(idx, x) >= pos, Select(idx, x) + 1, Select(idx, x))), patterns=[Select(i2, x)])]
    L.set(ex, st, s2, i2, simplify(ln + d))


def havoc_field(ex, st, f):
    a = ex.heap(st, f)
    b = fresh('p_' + f, a.sort())
    st.arrays[('wf', f)] = b
    return a, b


def c_listDeleteFront(ex, st, argn, e):
    """removes the front with the given number; the rest keeps order and values; later numbers drop by one"""
    k = as_int(ex.ev(argn[0], st))
    pp = ex.ev(argn[1], st)
    L = find_list_pp(ex, st, pp)
    wf_known(ex, st, L, e, 'listDeleteFront')
    n0 = L.len(ex, st)
    # a number that is not in the list ends the program (abort): on return it was there
    st.facts.append(And(k >= 1, k <= n0))
    pos = simplify(k - 1)
    old = Select(L.seq(ex, st), pos)
    ex.__dict__.setdefault('removed', []).append((pos, old))
    fn0, fn1 = havoc_field(ex, st, 'front_num')
    nx0, nx1 = havoc_field(ex, st, 'next')
    al = ex.heap(st, 'alloc')
    al1 = fresh('p_alloc', al.sort())
    st.arrays[('wf', 'alloc')] = al1
    own = ex.heap(st, 'own')
    own1 = fresh('p_own', own.sort())
    st.arrays[('wf', 'own')] = own1
    x = Int('x!g')
    idx0 = L.idx(ex, st)
    mem0 = L.mem(ex, st, x)
    o = fresh('removed', I)
    st.facts.append(o == old)
    st.facts.append(Select(own, o) == L.lid)        # a consequence of the well formed list
    st.facts.append(ForAll([x], Select(al1, x) == And(Select(al, x), x != o), patterns=[Select(al1, x)]))
    st.facts.append(ForAll([x], Select(own1, x) == If(x == o, IntVal(0), Select(own, x)), patterns=[Select(own1, x)]))
    st.facts.append(ForAll([x], Implies(Not(mem0), And(Select(fn1, x) == Select(fn0, x), Select(nx1, x) == Select(nx0, x))),
                           patterns=[Select(fn1, x), Select(nx1, x)]))
    ghost_shift(ex, st, L, pos, -1)
    h = fresh('head', I)
    ex.store(st, L.headlv, h)
    assume_wf(ex, st, L)
    return If(pos < L.len(ex, st), Select(L.seq(ex, st), pos), IntVal(0))


def new_front(ex, st, L, pos, depth, theta, num, layer, bottom):
    """ghost and heap effect of inserting a front at position pos"""
    r = ex.new_node(st)
    for f, v in (('depth_cm', depth), ('theta', theta), ('layer_num', layer), ('to_bottom', bottom), ('dzdt_cm_per_h', RealVal(0))):
        st.arrays[('wf', f)] = Store(ex.heap(st, f), r, ex.plain(v, ex.node_kind(f)))
    mem_old_idx, mem_old_seq, mem_old_len = L.idx(ex, st), L.seq(ex, st), L.len(ex, st)
    fn0, fn1 = havoc_field(ex, st, 'front_num')
    nx0, nx1 = havoc_field(ex, st, 'next')
    own = ex.heap(st, 'own')
    st.arrays[('wf', 'own')] = Store(own, r, IntVal(L.lid))
    x = Int('x!g')
    i = Select(mem_old_idx, x)
    mem0 = And(i >= 0, i < mem_old_len, Select(mem_old_seq, i) == x)
    st.facts.append(ForAll([x], Implies(And(Not(mem0), x != r), And(Select(fn1, x) == Select(fn0, x), Select(nx1, x) == Select(nx0, x))),
                           patterns=[Select(fn1, x), Select(nx1, x)]))
    ghost_shift(ex, st, L, pos, 1, r)
    h = fresh('head', I)
    ex.store(st, L.headlv, h)
    assume_wf(ex, st, L)
    return r


def c_listInsertFirst(ex, st, argn, e):
    a = [ex.ev(x, st) for x in argn]
    L = find_list_pp(ex, st, a[5])
    wf_known(ex, st, L, e, 'listInsertFirst')
    ex.oblige(st, as_int(a[2]) == 1, 'listInsertFirst requires front number 1', 'pre', e)
    new_front(ex, st, L, IntVal(0), real(a[0]), real(a[1]), as_int(a[2]), as_int(a[3]), as_bool(a[4]))
    return None


def c_listInsertFront(ex, st, argn, e):
    a = [ex.ev(x, st) for x in argn]
    L = find_list_pp(ex, st, a[5])
    wf_known(ex, st, L, e, 'listInsertFront')
    num = as_int(a[2])
    n = L.len(ex, st)
    ex.oblige(st, And(num >= 1, num <= n + 1), 'listInsertFront requires a front number that fits the list', 'pre', e)
    r = new_front(ex, st, L, simplify(num - 1), real(a[0]), real(a[1]), num, as_int(a[3]), as_bool(a[4]))
    return r


def c_listDelete(ex, st, argn, e):
    p = ex.ev(argn[0], st)
    if isinstance(p, Null):
        return None
    L = find_list(ex, st, p)
    wf_known(ex, st, L, e, 'listDelete')
    al, own = ex.heap(st, 'alloc'), ex.heap(st, 'own')
    al1, own1 = fresh('p_alloc', al.sort()), fresh('p_own', own.sort())
    x = Int('x!g')
    mem = L.mem(ex, st, x)
    st.facts.append(ForAll([x], Select(al1, x) == And(Select(al, x), Not(mem)), patterns=[Select(al1, x)]))
    st.facts.append(ForAll([x], Select(own1, x) == If(mem, IntVal(0), Select(own, x)), patterns=[Select(own1, x)]))
    st.arrays[('wf', 'alloc')], st.arrays[('wf', 'own')] = al1, own1
    st.cells[L.key('len')] = IntVal(0)
    return None


CONTRACTS = {'listLength': c_listLength, 'listFindFront': c_listFindFront, 'listDeleteFront': c_listDeleteFront,
             'listInsertFirst': c_listInsertFirst, 'listInsertFront': c_listInsertFront, 'listDelete': c_listDelete}


# ------------------------------------------------------------------ verifying the list functions themselves
def others_unchanged(ex, e, s, L, what, changed=(), new=None):
    """fronts outside the list keep everything; fronts of the list keep everything but `changed`"""
    x = Int('x!o')
    mem = L.mem(ex, e, x)
    pre = [x != new] if new is not None else []
    for f in FIELDS + ('next',):
        a, b = ex.heap(e, f), ex.heap(s, f)
        if a.eq(b):
            continue
        if f in changed or f == 'next':
            g = Implies(conj([Not(mem)] + pre), Select(a, x) == Select(b, x))
        else:
            g = Implies(conj([BoolVal(True)] + pre), Select(a, x) == Select(b, x))
        ex.oblige(s, g, '%s: %s of other fronts unchanged' % (what, f), 'frame')


def v_listLength(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        L = value_list(ex, st, 'L', 1, v.head)
        ex.lists = [L]
        assume_wf(ex, st, L, False)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        ex.oblige(s, rv == L.len(ex, e), 'listLength returns the number of fronts', 'post')
        frame_fields(ex, e, s, 'listLength')
        frame_rest(ex, e, s)
    return V.verify(ex, 'listLength', ['head'], pre, post)


def v_listFindFront(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        L = value_list(ex, st, 'L', 1, v.head)
        P = value_list(ex, st, 'P', 2, v.old)
        ex.lists = [L, P]
        assume_wf(ex, st, L)
        assume_wf(ex, st, P)

    def post(ex, e, s, rv, v):
        L, P = ex.lists
        if isinstance(rv, Null):
            rv = IntVal(0)
        k = v.key
        r1 = If(And(k >= 1, k <= L.len(ex, e)), Select(L.seq(ex, e), k - 1), IntVal(0))
        r2 = If(And(k >= 1, k <= P.len(ex, e)), Select(P.seq(ex, e), k - 1), IntVal(0))
        ex.oblige(s, Implies(And(v.head != 0, v.old == 0), rv == r1), 'listFindFront returns the front with that number, or null', 'post')
        ex.oblige(s, Implies(And(v.head != 0, v.old != 0), rv == r2), 'listFindFront searches the previous state when one is given', 'post')
        ex.oblige(s, Implies(v.head == 0, rv == 0), 'listFindFront on an empty list is null', 'post')
        frame_fields(ex, e, s, 'listFindFront')
        frame_rest(ex, e, s)
    return V.verify(ex, 'listFindFront', ['key', 'head', 'old'], pre, post)


def setup_L(ex, st, pp):
    L = ptr_list(ex, 'L', 1, pp)
    ex.lists = [L]
    ex.load(st, L.headlv)
    assume_wf(ex, st, L)
    return L


def v_listInsertFirst(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        setup_L(ex, st, v.head)
        st.facts.append(v.num == 1)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        r = L.head(ex, s)
        ex.oblige(s, And(r != 0, Not(Select(ex.heap(e, 'alloc'), r))), 'the new front is fresh memory', 'post')
        new_post(ex, e, s, L, IntVal(0), r, v)
    return V.verify(ex, 'listInsertFirst', ['depth', 'theta', 'num', 'layer', 'bottom', 'head'], pre, post)


def new_post(ex, e, s, L, pos, r, v):
    s.arrays[('wf', 'own')] = Store(ex.heap(s, 'own'), r, IntVal(L.lid))
    ghost_shift(ex, s, L, pos, 1, r)
    for f, val in (('depth_cm', v.depth), ('theta', v.theta), ('layer_num', v.layer), ('to_bottom', v.bottom),
                   ('dzdt_cm_per_h', RealVal(0)), ('front_num', v.num)):
        ex.oblige(s, Select(ex.heap(s, f), r) == val, 'new front carries the given %s' % f, 'post')
    oblige_wf(ex, s, L, 'list after insertion')
    others_unchanged(ex, e, s, L, 'insertion', ('front_num',), r)
    x = Int('x!o')
    ex.oblige(s, Select(ex.heap(s, 'alloc'), x) == Or(Select(ex.heap(e, 'alloc'), x), x == r), 'exactly one front allocated', 'post')
    frame_rest(ex, e, s, (L.headlv.key,))


def v_listInsertFront(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        L = setup_L(ex, st, v.head)
        n = L.len(ex, st)
        # instance of the numbering clause (trigger for the search)
        st.facts.append(Implies(And(v.num >= 2, v.num - 2 < n), Select(ex.heap(st, 'front_num'), Select(L.seq(ex, st), v.num - 2)) == v.num - 1))

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        r = IntVal(0) if isinstance(rv, Null) else rv
        n = L.len(ex, e)
        ok = And(v.num >= 1, v.num <= n + 1)
        s2 = s.copy()
        s2.facts.append(Not(ok))
        ex.oblige(s2, And(r == 0, L.head(ex, s2) == L.head(ex, e)), 'a number beyond the list inserts nothing and returns null', 'post')
        frame_fields(ex, e, s2, 'failed insertion')
        frame_rest(ex, e, s2)
        s.facts.append(ok)
        ex.oblige(s, And(r != 0, Not(Select(ex.heap(e, 'alloc'), r))), 'the new front is fresh memory', 'post')
        new_post(ex, e, s, L, v.num - 1, r, v)
    return V.verify(ex, 'listInsertFront', ['depth', 'theta', 'num', 'layer', 'bottom', 'head'], pre, post)


def v_listDeleteFront(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        L = setup_L(ex, st, v.head)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        r = IntVal(0) if isinstance(rv, Null) else rv
        k = v.num
        ex.oblige(s, And(k >= 1, k <= L.len(ex, e)), 'a number that is not in the list does not return', 'post')
        old = Select(L.seq(ex, e), k - 1)
        own = ex.heap(s, 'own')
        s.arrays[('wf', 'own')] = Store(own, old, IntVal(0))
        ghost_shift(ex, s, L, k - 1, -1)
        oblige_wf(ex, s, L, 'list after deletion')
        others_unchanged(ex, e, s, L, 'deletion', ('front_num',))
        x = Int('x!o')
        ex.oblige(s, Select(ex.heap(s, 'alloc'), x) == And(Select(ex.heap(e, 'alloc'), x), x != old), 'exactly the removed front is released', 'post')
        ex.oblige(s, r == If(k - 1 < L.len(ex, s), Select(L.seq(ex, s), k - 1), IntVal(0)), 'returns the front that followed the removed one', 'post')
        frame_rest(ex, e, s, (L.headlv.key,))
    return V.verify(ex, 'listDeleteFront', ['num', 'head'], pre, post)


def v_listDelete(prog):
    ex = V.new_exec(prog)

    def pre(ex, st, v):
        L = value_list(ex, st, 'L', 1, v.head)
        ex.lists = [L]
        assume_wf(ex, st, L, False)

        def pool(ex, st, h, syms, N):
            from loops import Cand
            out = []
            if ('a', ('wf', 'alloc')) in syms:
                x = Int('x!p')
                seq, idx, ln = L.seq(ex, st), L.idx(ex, st), L.len(ex, st)
                pos = Select(idx, x)
                a0 = ex.heap(ex.entry, 'alloc')
                f = ForAll([x], Select(ex.heap(h, 'alloc'), x) == And(Select(a0, x), Not(And(pos >= 0, pos < ln, pos < N, Select(seq, pos) == x))),
                           patterns=[Select(ex.heap(h, 'alloc'), x)])
                out.append(Cand('released exactly the visited fronts', lambda e_, s, sub: sub(f)))
            return out
        ex.pool.append(pool)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        x = Int('x!o')
        ex.oblige(s, Select(ex.heap(s, 'alloc'), x) == And(Select(ex.heap(e, 'alloc'), x), Not(L.mem(ex, e, x))),
                  'every front of the list is released, exactly once, and no other', 'post')
        frame_fields(ex, e, s, 'listDelete', FIELDS)
        frame_rest(ex, e, s)
    return V.verify(ex, 'listDelete', ['head'], pre, post)


def v_listCopy(prog):
    """recursive: verified against its own contract on the tail"""
    ex = V.new_exec(prog)

    def contract(ex, st, argn, e):
        p = ex.ev(argn[0], st)
        L = ex.lists[0]
        # tail of the source: position of p
        seq, idx, ln = L.seq(ex, st), L.idx(ex, st), L.len(ex, st)
        k = simplify(If(p == 0, ln, Select(idx, p)))
        ex.oblige(st, Or(p == 0, L.mem(ex, st, p)), 'recursive copy starts at a front of the source', 'pre', e)
        return copy_effect(ex, st, L, k, ln - k)
    ex.contracts['listCopy'] = contract

    def pre(ex, st, v):
        L = value_list(ex, st, 'L', 1, v.cur)
        ex.lists = [L]
        assume_wf(ex, st, L, False)

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        r = IntVal(0) if isinstance(rv, Null) else rv
        n = L.len(ex, e)
        # witness: if something was copied, the new front followed by the copy of the tail
        tail = ex.lastcopy.get(len(s.facts) and id(s)) if False else None
        C = ex.copies[-1] if ex.copies else None
        x, i = Int('x!o'), Int('i!o')
        al0, al1 = ex.heap(e, 'alloc'), ex.heap(s, 'alloc')
        if C is None:
            cseq = fresh('cseq', ArraySort(I, I))
            cidx = fresh('cidx', ArraySort(I, I))
        else:
            tseq, tidx = C
            cseq, cidx = fresh('cseq', ArraySort(I, I)), fresh('cidx', ArraySort(I, I))
            s.facts += [ForAll([i], Select(cseq, i) == If(i == 0, r, Select(tseq, i - 1)), patterns=[Select(cseq, i)]),
                        ForAll([x], Select(cidx, x) == If(x == r, IntVal(0), Select(tidx, x) + 1), patterns=[Select(cidx, x)])]
        ex.name_heaps(s)
        for lab, f in copy_clauses(ex, e, s, L, IntVal(0), n, cseq, cidx, r):
            ex.oblige(s, f, 'copy: ' + lab, 'post')
        frame_rest(ex, e, s)
    ex.copies = []
    return V.verify(ex, 'listCopy', ['cur', 'prev'], pre, post)


def copy_clauses(ex, e, s, L, k, n, cseq, cidx, r):
    """s: after, e: before. the n fronts of L from position k are copied to cseq[0..n)"""
    i, x = Int('i!c'), Int('x!c')
    al0, al1 = ex.heap(e, 'alloc'), ex.heap(s, 'alloc')
    seq = L.seq(ex, e)
    if not (z3.is_int_value(k) and k.as_long() == 0):
        ts = fresh('tailseq', seq.sort())
        s.facts.append(ForAll([i], Select(ts, i) == Select(seq, k + i), patterns=[Select(ts, i)]))
        seq, k = ts, IntVal(0)
    y = Select(cseq, i)
    rng = And(i >= 0, i < n)
    iny = And(Select(cidx, x) >= 0, Select(cidx, x) < n, Select(cseq, Select(cidx, x)) == x)
    out = [('head', r == If(n > 0, Select(cseq, 0), IntVal(0))),
           ('fresh, distinct fronts', ForAll([i], Implies(rng, And(y > 0, Not(Select(al0, y)), Select(al1, y), Select(cidx, y) == i)), patterns=[y])),
           ('links', ForAll([i], Implies(rng, Select(ex.heap(s, 'next'), y) == If(i + 1 < n, Select(cseq, i + 1), IntVal(0))), patterns=[Select(ex.heap(s, 'next'), y)])),
           ('allocation', ForAll([x], Select(al1, x) == Or(Select(al0, x), iny), patterns=[Select(al1, x)]))]
    for f in FIELDS:
        out.append(('same %s' % f, ForAll([i], Implies(rng, Select(ex.heap(s, f), y) == Select(ex.heap(e, f), Select(seq, i))), patterns=[Select(ex.heap(s, f), y)])))
    for f in FIELDS + ('next',):
        out.append(('%s of existing fronts unchanged' % f, ForAll([x], Implies(Select(al0, x), Select(ex.heap(s, f), x) == Select(ex.heap(e, f), x)), patterns=[Select(ex.heap(s, f), x)])))
    return out


def copy_effect(ex, st, L, k, n):
    ex.name_heaps(st)
    if not z3.is_int_value(k):
        kk, nn = fresh('k', I), fresh('n', I)
        st.facts += [kk == k, nn == n]
        k, n = kk, nn
    before = st.copy()
    for f in FIELDS + ('next', 'alloc'):
        havoc_field(ex, st, f)
    cseq, cidx = fresh('cseq', ArraySort(I, I)), fresh('cidx', ArraySort(I, I))
    r = fresh('copy', I)
    for lab, f in copy_clauses(ex, before, st, L, k, n, cseq, cidx, r):
        st.facts.append(f)
    if not hasattr(ex, 'copies'):
        ex.copies = []
    ex.copies.append((cseq, cidx))
    return r


ALL = [v_listLength, v_listFindFront, v_listInsertFirst, v_listInsertFront, v_listDeleteFront, v_listDelete, v_listCopy]
