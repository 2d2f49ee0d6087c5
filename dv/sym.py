"""Symbolic executor / verification-condition generator over the extracted AST (see DESIGN.md)."""
import itertools, time, os, re
from fractions import Fraction
import z3
from z3 import (Int, Real, Bool, IntVal, RealVal, BoolVal, And, Or, Not, Implies, If, Select, Store, ForAll, Array,
                IntSort, RealSort, BoolSort, ArraySort, Const, Function, simplify, is_true, is_false)

I, R, B = IntSort(), RealSort(), BoolSort()
POW = Function('POW', R, R, R)
SQRT = Function('SQRT', R, R)
EXP = Function('EXP', R, R)
LOG = Function('LOG', R, R)
SUM = Function('SUM', ArraySort(I, R), I, I, R)


THETAF = Function('THETAF', R, R, R, R, R, R, R)     # calc_theta_from_h
SEF = Function('SEF', R, R, R, R, R)                 # calc_Se_from_h
KF = Function('KF', R, R, R, R)                      # calc_K_from_Se
HF = Function('HF', R, R, R, R, R)                   # calc_h_from_Se
GEFF = Function('GEFF', B, R, R, R, R, R, R, R, R, R, I, R, R, R)   # calc_Geff


class Unsupported(Exception):
    """construct outside the verifier's reach: the check becomes undecided, never a violation"""


class ProofStop(Exception):
    """an annotated invariant of a loop does not hold: the function is not verified (a failed obligation)"""

    def __init__(self, label, node):
        super().__init__(label)
        self.label, self.node = label, node


_cnt = itertools.count()


def fresh(prefix, sort):
    return Const('%s!%d' % (prefix, next(_cnt)), sort)


# ----------------------------------------------------------------- values
class FV:
    """a double together with the conditions under which the C value is infinite / not a number (only the code's own
    isinf/isnan tests look at these)"""
    __slots__ = ('r', 'inf', 'nan')

    def __init__(self, r, inf, nan):
        self.r, self.inf, self.nan = r, inf, nan


class ArrPtr:
    def __init__(self, region, off, elem):
        self.region, self.off, self.elem = region, off, elem

    def __repr__(self):
        return 'ArrPtr(%s+%s)' % (self.region, self.off)


class CellPtr:
    def __init__(self, key, qt):
        self.key, self.qt = key, qt

    def __repr__(self):
        return 'CellPtr(%s)' % (self.key,)


class ObjPtr:
    def __init__(self, key, rec):
        self.key, self.rec = key, rec

    def __repr__(self):
        return 'ObjPtr(%s)' % (self.key,)


class NodeFieldPtr:
    def __init__(self, ref, field, kind):
        self.ref, self.field, self.kind = ref, field, kind


class Null:
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Opaque:
    """iostream objects, FILE*, ... : effects dropped"""

    def __init__(self, what):
        self.what = what


class PhiPtr:
    """conditional pointer: [(cond, ptr)], conditions disjoint"""

    def __init__(self, alts):
        self.alts = alts


class Str:
    def __init__(self, s):
        self.s = s     # python str (concrete) or z3 String-ish Int term (symbolic id)


class Vec:
    """std::vector of scalars or concrete python list"""

    def __init__(self, items):
        self.items = list(items)


def real(v):
    if isinstance(v, FV):
        return v.r
    if isinstance(v, z3.ArithRef) and v.sort() == I:
        return z3.ToReal(v)
    if isinstance(v, z3.BoolRef):
        return If(v, RealVal(1), RealVal(0))
    return v


def as_int(v):
    if isinstance(v, z3.BoolRef):
        return If(v, IntVal(1), IntVal(0))
    return v


def as_bool(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, FV):
        return v.r != 0
    if isinstance(v, z3.ArithRef):
        return v != 0
    if isinstance(v, Null):
        return BoolVal(False)
    if isinstance(v, (ArrPtr, CellPtr, ObjPtr, NodeFieldPtr)):
        return BoolVal(True)
    if isinstance(v, PhiPtr):
        return Or([And(c, as_bool(p)) for c, p in v.alts])
    if isinstance(v, Opaque):
        return Bool('opaque!%d' % next(_cnt))
    raise Unsupported('truth value of %r' % (v,))


def is_num(v):
    return isinstance(v, (FV, z3.ArithRef, z3.BoolRef))


# ----------------------------------------------------------------- types
SOA = {'soil_properties_'}
NODE = 'wetting_front'


def norm_qt(qt):
    qt = qt.replace('const ', '').replace(' const', '').replace('struct ', '').replace('class ', '').strip()
    qt = qt.replace('volatile ', '')
    return qt


def kind_of(qt):
    """'real' 'int' 'bool' 'str' 'void' ('ptr', inner) ('arr', inner, n) ('rec', name) 'opaque'"""
    qt = norm_qt(qt)
    if qt.endswith('&&'):
        qt = qt[:-2].strip()
    if qt.endswith('&'):
        qt = qt[:-1].strip()
    m = re.match(r'^(.*)\[(\d+)\]$', qt)
    if m:
        return ('arr', m.group(1).strip(), int(m.group(2)))
    if qt.endswith('*'):
        return ('ptr', qt[:-1].strip())
    if qt in ('double', 'float', 'long double'):
        return 'real'
    if qt in ('int', 'long', 'unsigned int', 'size_t', 'unsigned long', 'short', 'char', 'std::size_t', 'unsigned char',
              'long long', 'unsigned', 'size_type', 'unsigned short', 'int32_t', 'int64_t', 'ptrdiff_t', 'unsigned long long'):
        return 'int'
    if qt.endswith('::size_type'):
        return 'int'
    if qt in ('bool', '_Bool'):
        return 'bool'
    if qt == 'void':
        return 'void'
    if qt in ('string', 'std::string', 'std::__cxx11::basic_string<char>', 'basic_string<char>',
              'std::basic_string<char>') or qt.startswith('std::__cxx11::basic_string<char'):
        return 'str'
    if re.match(r'^(std::)?(basic_)?(i|o|io)?f?(string)?stream', qt) or 'ostream' in qt or 'istream' in qt \
            or 'stringstream' in qt or 'runtime_error' in qt or 'FILE' in qt or 'fstream' in qt:
        return 'opaque'
    if qt.startswith('vector<') or qt.startswith('std::vector<'):
        return 'vec'
    return ('rec', qt)


def sort_of(kind):
    return {'real': R, 'int': I, 'bool': B}.get(kind)


# ----------------------------------------------------------------- state
class State:
    __slots__ = ('cells', 'arrays', 'lens', 'path', 'facts', 'ended', 'log', 'freed', 'origin')

    def __init__(self):
        self.cells = {}
        self.arrays = {}
        self.lens = {}
        self.path = []
        self.facts = []
        self.log = []
        self.freed = frozenset()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.arrays = dict(self.arrays)
        s.lens = dict(self.lens)
        s.path = list(self.path)
        s.facts = list(self.facts)
        s.log = list(self.log)
        s.freed = self.freed
        return s

    def pc(self):
        return self.path + self.facts


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, FV) and isinstance(b, FV):
        return a.r.eq(b.r) and same(a.inf, b.inf) and same(a.nan, b.nan)
    if isinstance(a, ArrPtr) and isinstance(b, ArrPtr):
        return a.region == b.region and same(a.off, b.off)
    if isinstance(a, CellPtr) and isinstance(b, CellPtr):
        return a.key == b.key
    if isinstance(a, ObjPtr) and isinstance(b, ObjPtr):
        return a.key == b.key
    if isinstance(a, Null) and isinstance(b, Null):
        return True
    if isinstance(a, Str) and isinstance(b, Str):
        return same(a.s, b.s) if not isinstance(a.s, str) else a.s == b.s
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    return False


def ite(c, a, b):
    if same(a, b):
        return a
    if isinstance(c, bool):
        return a if c else b
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, FV) or isinstance(b, FV):
        a2 = a if isinstance(a, FV) else FV(real(a), BoolVal(False), BoolVal(False))
        b2 = b if isinstance(b, FV) else FV(real(b), BoolVal(False), BoolVal(False))
        return FV(ite(c, a2.r, b2.r), simplify(If(c, a2.inf, b2.inf)), simplify(If(c, a2.nan, b2.nan)))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort():
            if {a.sort(), b.sort()} == {I, R}:
                a, b = real(a), real(b)
            elif a.sort() == B or b.sort() == B:
                a, b = as_int(a), as_int(b)
                if a.sort() != b.sort():
                    a, b = real(a), real(b)
            else:
                raise Unsupported('merge of sorts %s %s' % (a.sort(), b.sort()))
        return If(c, a, b)
    if isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and a.region == b.region:
        return ArrPtr(a.region, If(c, a.off, b.off), a.elem)
    if isinstance(a, Null) and isinstance(b, z3.ArithRef):
        return If(c, IntVal(0), b)
    if isinstance(b, Null) and isinstance(a, z3.ArithRef):
        return If(c, a, IntVal(0))
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(('ite', c, a, b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('merged')
    P = (ArrPtr, CellPtr, ObjPtr, NodeFieldPtr, Null, PhiPtr)
    if isinstance(a, P) and isinstance(b, P):
        al = a.alts if isinstance(a, PhiPtr) else [(BoolVal(True), a)]
        bl = b.alts if isinstance(b, PhiPtr) else [(BoolVal(True), b)]
        return PhiPtr([(simplify(And(c, x)), p) for x, p in al] + [(simplify(And(Not(c), x)), p) for x, p in bl])
    raise Unsupported('merge of %r and %r' % (a, b))


def conj(l):
    l = [x for x in l if not is_true(x)]
    if not l:
        return BoolVal(True)
    if len(l) == 1:
        return l[0]
    return And(l)


class Outcome:
    """control flow of a statement: at most one merged state for fall-through, lists for the rest"""

    def __init__(self, normal=None):
        self.normal = normal
        self.brk, self.cont, self.ret, self.thrown = [], [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thrown += o.thrown
