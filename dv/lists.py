"""Ghost sequences for wetting-front lists."""
from sym import *


class GList:
    """abstract view of a linked list: seq[0..len), idx = position of a front, own = which list a front belongs to"""

    def __init__(self, name, lid, headlv):
        self.name, self.lid, self.headlv = name, lid, headlv

    def key(self, f):
        return ('gl', self.name, f)

    def seq(self, ex, st):
        return ex.arr(st, self.key('seq'), 'int')

    def idx(self, ex, st):
        return ex.arr(st, self.key('idx'), 'int')

    def len(self, ex, st):
        k = self.key('len')
        if k not in st.cells:
            ex.init_cells.setdefault(k, Int('.'.join(k)))
            st.cells[k] = ex.init_cells[k]
        return st.cells[k]

    def head(self, ex, st):
        lite, ex.lite = ex.lite, True
        try:
            v = ex.load(st, self.headlv)
        finally:
            ex.lite = lite
        return IntVal(0) if isinstance(v, Null) else v

    def at(self, ex, st, k):
        return Select(self.seq(ex, st), k)

    def mem(self, ex, st, x):
        i = Select(self.idx(ex, st), x)
        return And(i >= 0, i < self.len(ex, st), Select(self.seq(ex, st), i) == x)

    def set(self, ex, st, seq, idx, ln):
        st.arrays[self.key('seq')] = seq
        st.arrays[self.key('idx')] = idx
        st.cells[self.key('len')] = ln

    # ---- well-formedness, as separate clauses
    def wf(self, ex, st, numbered=True):
        seq, idx, ln = self.seq(ex, st), self.idx(ex, st), self.len(ex, st)
        nxt, al, own = ex.heap(st, 'next'), ex.heap(st, 'alloc'), ex.heap(st, 'own')
        i = Int('i!wf')
        x = Select(seq, i)
        rng = And(i >= 0, i < ln)
        out = [('length', ln >= 0),
               ('head', self.head(ex, st) == If(ln > 0, Select(seq, 0), IntVal(0))),
               ('fronts live and distinct', ForAll([i], Implies(rng, And(x != 0, Select(al, x), Select(idx, x) == i)),
                                                  patterns=[x])),
               ('owned', ForAll([i], Implies(rng, Select(own, x) == self.lid), patterns=[x])),
               ('links', ForAll([i], Implies(rng, Select(nxt, x) == If(i + 1 < ln, Select(seq, i + 1), IntVal(0))),
                                patterns=[Select(nxt, x)]))]
        if numbered:
            out.append(('numbered 1..n', ForAll([i], Implies(rng, Select(ex.heap(st, 'front_num'), x) == i + 1),
                                                patterns=[x])))
        return out
