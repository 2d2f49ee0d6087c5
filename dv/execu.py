"""Statement and expression execution."""
from sym import *
import os, sys
import sym, solve
from frontend import ExtractionError

F_ = BoolVal(False)
T_ = BoolVal(True)

PRINTS = {'printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fflush', 'perror'}
ENDS = {'abort', 'exit', '__assert_fail', '_exit', 'terminate'}


def _walk(e):
    yield e
    for x in e.get('inner', []):
        if isinstance(x, dict):
            yield from _walk(x)


def ends_in_assert(e):
    return any(x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == '__assert_fail' for x in _walk(e))


def tests_pointer(e):
    """the condition compares pointers (or is one)"""
    for x in _walk(e):
        if x.get('kind') == 'BinaryOperator' and x.get('opcode') in ('==', '!='):
            return all('*' in y.get('type', {}).get('qualType', '') for y in x['inner'])
        if x.get('kind') == 'ImplicitCastExpr' and x.get('castKind') == 'PointerToBoolean':
            return True
        if x.get('kind') in ('BinaryOperator', 'CallExpr', 'UnaryOperator'):
            return False
    return False


class Ref:
    def __init__(self, lv):
        self.lv = lv


class LCell:
    def __init__(s, key, qt):
        s.key, s.qt = key, qt


class LArr:
    def __init__(s, region, idx, elem):
        s.region, s.idx, s.elem = region, idx, elem


class LArrF:
    def __init__(s, region, idx, field, kind):
        s.region, s.idx, s.field, s.kind = region, idx, field, kind


class LSoa:
    def __init__(s, region, idx, rec):
        s.region, s.idx, s.rec = region, idx, rec


class LNode:
    def __init__(s, ref, field, kind):
        s.ref, s.field, s.kind = ref, field, kind


class LObj:
    def __init__(s, key, rec):
        s.key, s.rec = key, rec


class LPhi:
    def __init__(s, alts):
        s.alts = alts


class LTemp:
    def __init__(s, val):
        s.val = val


class End(Exception):
    """the current path ends (abort/exit/throw) inside an expression"""

    def __init__(self, kind):
        self.kind = kind


class Obl:
    __slots__ = ('label', 'kind', 'assums', 'goal', 'fn', 'line', 'res', 'extra', 'unit')

    def __init__(self, label, kind, assums, goal, fn, line, extra=(), unit=None):
        self.label, self.kind, self.assums, self.goal, self.fn, self.line = label, kind, assums, goal, fn, line
        self.res = None
        self.extra = extra
        self.unit = unit


class Exec:
    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.obls = []
        self.recording = True
        self.lite = False          # no solver: effect discovery only
        self.frame = 0
        self.stack = []
        self.init_cells = {}
        self.init_arrays = {}
        self.pool = []             # candidate invariants (property specific)
        self.entry = None          # state at function entry
        self.loops = []            # report of loops cut
        self.assumed = set()
        self.inlined = set()
        self.curfn = None
        self.curunit = None
        self.extra_ax = ()
        self.houdini_ms = 2500
        self.safety = True
        self.loopdepth = 0
        self.lists = []            # ghost lists (see lists.py)
        self.kinds_cache = {}
        self.assumefn = None
        self.skip_calls = set()
        self.solver_calls = 0
        self.deadline = None
        self.pure_cache = {}
        self.track_overflow = False
        self.sums = []
        self.namedefs = {}
        self.signs = False         # state the sign rules of every product and quotient (valid arithmetic, helps the solver)
        self.loopdefs = []

    # ------------------------------------------------------------ names and lazily created inputs
    def init_value(self, key, qt):
        """value of an input cell that is read before being written; deterministic per key"""
        if key in self.init_cells:
            return self.init_cells[key]
        k = kind_of(qt)
        nm = '.'.join(str(x) for x in key)
        if k in ('real', 'int', 'bool'):
            v = Const(nm, sort_of(k))
        elif k == 'str':
            v = Str(Int('str:' + nm))
        elif isinstance(k, tuple) and k[0] == 'ptr':
            v = self.init_ptr(key, k[1], nm)
        elif k in ('opaque', 'vec'):
            v = Opaque(nm)
        else:
            raise Unsupported('initial value of %s : %s' % (nm, qt))
        self.init_cells[key] = v
        return v

    def init_ptr(self, key, inner, nm):
        ki = kind_of(inner)
        if ki in ('real', 'int', 'bool'):
            return ArrPtr(key, IntVal(0), ki)
        if isinstance(ki, tuple) and ki[0] == 'rec':
            if ki[1] == NODE:
                return Const(nm, I)
            if ki[1] in SOA:
                return ArrPtr(key, IntVal(0), ki)
            return ObjPtr(key, ki[1])
        if isinstance(ki, tuple) and ki[0] == 'ptr':
            return CellPtr(key + ('*',), inner)
        if ki in ('void', 'opaque'):
            return Opaque(nm)
        raise Unsupported('pointer %s to %s' % (nm, inner))

    def init_array(self, key, kind):
        if key not in self.init_arrays:
            self.init_arrays[key] = Array('.'.join(str(x) for x in key), I, sort_of(kind))
        return self.init_arrays[key]

    def fields(self, rec):
        if rec not in self.kinds_cache:
            if rec not in self.prog.records:
                raise Unsupported('unknown record type %s' % rec)
            self.kinds_cache[rec] = {f['name']: f['type'] for f in self.prog.records[rec]}
        return self.kinds_cache[rec]

    # ------------------------------------------------------------ memory
    def arr(self, st, key, kind):
        a = st.arrays.get(key)
        if a is None:
            a = self.init_array(key, kind)
            st.arrays[key] = a
        return a

    def heap(self, st, field):
        k = self.node_kind(field)
        return self.arr(st, ('wf', field), k)

    def node_kind(self, field):
        if field in ('alloc',):
            return 'bool'
        if field in ('own',):
            return 'int'
        k = kind_of(self.fields(NODE)[field])
        if isinstance(k, tuple) and k[0] == 'ptr':
            return 'int'
        return k

    def bounds(self, st, region, idx, node):
        if self.quiet:
            return
        n = st.lens.get(region)
        if region in st.freed:
            self.oblige(st, F_, 'use of released memory %s' % (region,), 'safety', node)
        if n is not None and self.safety:
            self.oblige(st, And(idx >= 0, idx < n), 'index within %s' % '.'.join(str(x) for x in region), 'safety', node)

    def name_heaps(self, st):
        """give every front field a plain name (needed wherever it occurs in a trigger)"""
        for k, a in list(st.arrays.items()):
            if k[0] in ('wf', 'gl') and not z3.is_const(a):
                c = fresh('n_' + str(k[-1]), a.sort())
                st.facts.append(c == a)
                st.arrays[k] = c
                self.namedefs[c.get_id()] = (c, a)

    def unname(self, a):
        while a.get_id() in self.namedefs:
            a = self.namedefs[a.get_id()][1]
        return a

    deref_hint = None
    null_ends = False
    print_hook = None

    def deref_ok(self, st, ref, node):
        if self.quiet:
            return
        if self.deref_hint and not self.lite:
            self.deref_hint(st, ref)
        if self.null_ends and isinstance(ref, z3.ExprRef):
            f = ref != 0
            if not any(f.eq(g) for g in st.facts[-40:]):
                st.facts.append(f)
        if self.safety:
            self.oblige(st, And(ref != 0, Select(self.heap(st, 'alloc'), ref)), 'front pointer is live', 'safety', node)

    def load(self, st, lv, node=None):
        if isinstance(lv, LTemp):
            return lv.val
        if isinstance(lv, LCell):
            if lv.key in st.cells:
                v = st.cells[lv.key]
            else:
                v = self.init_value(lv.key, lv.qt)
                st.cells[lv.key] = v
            if isinstance(v, Ref):
                return self.load(st, v.lv, node)
            return v
        if isinstance(lv, LArr):
            self.bounds(st, lv.region, lv.idx, node)
            return Select(self.arr(st, lv.region, lv.elem), lv.idx)
        if isinstance(lv, LArrF):
            if isinstance(lv.kind, tuple) and lv.kind[0] == 'arr':
                return ('soatext', lv.region, lv.idx, lv.field)
            self.bounds(st, lv.region, lv.idx, node)
            return Select(self.arr(st, lv.region + (lv.field,), lv.kind), lv.idx)
        if isinstance(lv, LNode):
            self.deref_ok(st, lv.ref, node)
            return Select(self.heap(st, lv.field), lv.ref)
        if isinstance(lv, LPhi):
            out = None
            for c, l in reversed(lv.alts):
                v = self.guarded(st, c, lambda s, l=l: self.load(s, l, node))
                out = v if out is None else ite(c, v, out)
            return out
        if isinstance(lv, (LObj, LSoa)):
            return lv
        raise Unsupported('load of %r' % (lv,))

    def guarded(self, st, c, fn):
        """evaluate fn where c holds; what is learnt there holds only under c"""
        s2 = st.copy()
        s2.path.append(c)
        n0 = len(s2.facts)
        v = fn(s2)
        for k, x in s2.cells.items():
            if k not in st.cells:
                st.cells[k] = x
            elif st.cells[k] is not x:
                raise Unsupported('side effect in a conditional operand')
        for k, x in s2.arrays.items():
            if k not in st.arrays:
                st.arrays[k] = x
            elif not same(st.arrays[k], x):
                raise Unsupported('side effect in a conditional operand')
        st.facts += [Implies(c, f) for f in s2.facts[n0:]]
        return v

    quiet = False

    def coerce(self, v, kind):
        if kind == 'real':
            return v if isinstance(v, FV) else real(v)
        if kind == 'int':
            if isinstance(v, Null):
                return IntVal(0)
            return as_int(v)
        if kind == 'bool':
            return as_bool(v)
        return v

    def store(self, st, lv, v, node=None):
        if isinstance(lv, LCell):
            cur = st.cells.get(lv.key)
            if isinstance(cur, Ref):
                return self.store(st, cur.lv, v, node)
            k = kind_of(lv.qt)
            if k in ('real', 'int', 'bool'):
                v = self.coerce(v, k)
            elif isinstance(k, tuple) and k[0] == 'ptr':
                ki = kind_of(k[1])
                if ki == ('rec', NODE) and isinstance(v, Null):
                    v = IntVal(0)
            st.cells[lv.key] = v
            return
        if isinstance(lv, LArr):
            self.bounds(st, lv.region, lv.idx, node)
            st.arrays[lv.region] = Store(self.arr(st, lv.region, lv.elem), lv.idx, self.plain(v, lv.elem))
            return
        if isinstance(lv, LArrF):
            self.bounds(st, lv.region, lv.idx, node)
            k = lv.region + (lv.field,)
            st.arrays[k] = Store(self.arr(st, k, lv.kind), lv.idx, self.plain(v, lv.kind))
            return
        if isinstance(lv, LNode):
            self.deref_ok(st, lv.ref, node)
            st.arrays[('wf', lv.field)] = Store(self.heap(st, lv.field), lv.ref, self.plain(v, lv.kind))
            return
        if isinstance(lv, LPhi):
            for c, l in lv.alts:
                old = self.guarded(st, c, lambda s, l=l: self.load(s, l, node))
                q0, self.quiet = self.quiet, True
                try:
                    self.store(st, l, ite(c, v, old), node)
                finally:
                    self.quiet = q0
            return
        if isinstance(lv, LObj):
            if isinstance(v, LObj) and v.rec == lv.rec:
                self.copy_obj(st, v.key, lv.key, v.rec)
                return
        raise Unsupported('store to %r' % (lv,))

    def plain(self, v, kind):
        v = self.coerce(v, kind)
        return v.r if isinstance(v, FV) else v

    def copy_obj(self, st, src, dst, rec):
        for f, qt in self.fields(rec).items():
            k = kind_of(qt)
            if isinstance(k, tuple) and k[0] == 'rec':
                self.copy_obj(st, src + (f,), dst + (f,), k[1])
            elif isinstance(k, tuple) and k[0] == 'arr':
                ke = kind_of(k[1])
                if ke in ('real', 'int', 'bool'):
                    st.arrays[dst + (f,)] = self.arr(st, src + (f,), ke)
            else:
                st.cells[dst + (f,)] = self.load(st, LCell(src + (f,), qt))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, kind, node=None, extra=()):
        if self.lite:
            return
        if self.recording:
            g = simplify(goal)
            if not is_true(g):
                off = node.get('off') if isinstance(node, dict) else None
                line = self.prog.line(self.curunit, off) if off is not None else 0
                self.obls.append(Obl(label, kind, st.pc(), goal, self.curfn, line, tuple(extra) + tuple(self.extra_ax),
                                     self.curunit))
            else:
                self.obls.append(Obl(label, kind, [], T_, self.curfn, 0, (), self.curunit))
        st.facts.append(goal)

    def discharged(self, label, kind, node=None):
        off = node.get('off') if isinstance(node, dict) else None
        line = self.prog.line(self.curunit, off) if off is not None else 0
        o = Obl(label, kind, [], T_, self.curfn, line, (), self.curunit)
        o.res = solve.Result('valid', 'z3 %s (during invariant inference)' % z3.get_version_string(), 0.0)
        self.obls.append(o)

    def valid(self, st, goal, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted during invariant inference')
        self.solver_calls += 1
        return solve.prove(st.pc(), goal, ms or self.houdini_ms, self.extra_ax, quick=True).status == 'valid'

    def pvalid(self, st, goal, ms=6000):
        """as valid, with a portfolio of solver configurations"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted during invariant inference')
        self.solver_calls += 1
        for g in (goal.children() if z3.is_and(goal) else [goal]):
            if solve.prove(st.pc(), g, ms, self.extra_ax, quick=True, tries=[(1500, 7), (1500, 0), (ms, 3), (ms, 0)]).status != 'valid':
                if os.environ.get('DV_DUMP'):
                    print('pvalid fails:', str(g)[:600], file=sys.stderr)
                    open('/tmp/fail.smt2', 'w').write(solve.dump(st.pc(), g))
                return False
        return True

    # ------------------------------------------------------------ merging
    name_terms = False

    def name_term(self, st, v, nm):
        """a plain name for the value of a variable after a branch (keeps later formulas small)"""
        if not self.name_terms:
            return v
        if isinstance(v, FV):
            return FV(self.name_term(st, v.r, nm), v.inf, v.nan)
        if isinstance(v, z3.ExprRef) and z3.is_app(v) and not z3.is_const(v) and (z3.is_bool(v) or v.decl().kind() == z3.Z3_OP_ITE):
            c = fresh('n_' + nm, v.sort())
            st.facts.append(c == v)
            return c
        return v

    def merge(self, states, np, nf):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        # fold pairwise from the right: last state is the default
        conds = [conj(s.path[np:]) for s in states]
        base = states[0]
        out = State()
        out.path = list(base.path[:np])
        out.facts = list(base.facts[:nf])
        compl = len(states) == 2 and len(states[0].path) == np + 1 and len(states[1].path) == np + 1 and \
            (states[1].path[np].eq(simplify(Not(states[0].path[np]))) or states[1].path[np].eq(Not(states[0].path[np]))
             or states[0].path[np].eq(Not(states[1].path[np])))
        if self.name_terms:
            for i, c in enumerate(conds):
                if not (z3.is_const(c) or z3.is_not(c) and z3.is_const(c.arg(0))):
                    b = fresh('br', z3.BoolSort())
                    out.facts.append(b == c)
                    conds[i] = b
        if not compl:
            g = Or(conds)
            out.path.append(g)
        sets = [set(f.get_id() for f in s.facts[nf:]) for s in states]
        common = set.intersection(*sets) if sets else set()
        done = set()
        for s, c in zip(states, conds):
            for f in s.facts[nf:]:
                if f.get_id() in common:
                    if f.get_id() not in done:
                        done.add(f.get_id())
                        out.facts.append(f)
                else:
                    out.facts.append(Implies(c, f))

        def mval(vals):
            v = vals[-1]
            for c, w in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                v = ite(c, w, v)
            return v
        keys = []
        for s in states:
            for k in s.cells:
                keys.append(k)
        seen = set()
        for k in keys:
            if k in seen:
                continue
            seen.add(k)
            vals = []
            ok = True
            for s in states:
                if k in s.cells:
                    vals.append(s.cells[k])
                elif k in self.init_cells:
                    vals.append(self.init_cells[k])
                else:
                    ok = False
                    break
            if not ok:
                continue
            if all(same(v, vals[0]) or (v is vals[0]) for v in vals[1:]):
                out.cells[k] = vals[0]
                continue
            if any(isinstance(v, Ref) for v in vals):
                continue
            try:
                out.cells[k] = self.name_term(out, mval(vals), str(k[2] if k[0] == 'L' else k[-1]))
            except Unsupported:
                # a local whose alternatives cannot be merged: unreadable afterwards
                out.cells[k] = Opaque('unmergeable')
        akeys = set()
        for s in states:
            akeys |= set(s.arrays)
        for k in sorted(akeys, key=str):
            vals = []
            ok = True
            for s in states:
                if k in s.arrays:
                    vals.append(s.arrays[k])
                elif k in self.init_arrays:
                    vals.append(self.init_arrays[k])
                else:
                    ok = False
            if ok:
                out.arrays[k] = mval(vals)
            else:
                out.arrays[k] = [s.arrays[k] for s in states if k in s.arrays][0]
        for s in states:
            for k, v in s.lens.items():
                out.lens.setdefault(k, v)
        out.freed = frozenset.union(*[s.freed for s in states])
        lg = states[0].log
        if all(len(s.log) == len(lg) and all(x is y for x, y in zip(s.log, lg)) for s in states):
            out.log = list(lg)
        else:
            base_n = 0
            while all(len(s.log) > base_n for s in states) and all(s.log[base_n] is lg[base_n] for s in states):
                base_n += 1
            out.log = list(lg[:base_n]) + [('alt', [(c, s.log[base_n:]) for c, s in zip(conds, states)])]
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % e['kind'])
        return m(e, st)

    def lval(self, e, st):
        k = e['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            return self.lval(e['inner'][0], st)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr'):
            ck = e.get('castKind')
            if ck in ('NoOp', 'LValueToRValue', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast', 'LValueBitCast'):
                return self.lval(e['inner'][0], st)
        if k == 'DeclRefExpr':
            return self.declref(e, st)
        if k == 'MemberExpr':
            return self.member(e, st)
        if k == 'ArraySubscriptExpr':
            b, i = e['inner'][0], e['inner'][1]
            p = self.ev(b, st)
            ix = self.ev(i, st)
            if isinstance(p, z3.ArithRef):
                p, ix = ix, p
            return self.ptr_at(p, as_int(ix))
        if k == 'UnaryOperator':
            op = e['opcode']
            if op == '*':
                p = self.ev(e['inner'][0], st)
                return self.ptr_at(p, IntVal(0))
            if op in ('++', '--') and not e.get('isPostfix'):
                self.e_UnaryOperator(e, st)
                return self.lval(e['inner'][0], st)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and e['opcode'].endswith('='):
            self.ev(e, st)
            return self.lval(e['inner'][0], st)
        if k == 'ConditionalOperator':
            c = as_bool(self.ev(e['inner'][0], st))
            a = self.guarded(st, c, lambda s: self.lval(e['inner'][1], s))
            b = self.guarded(st, Not(c), lambda s: self.lval(e['inner'][2], s))
            return LPhi([(c, a), (Not(c), b)])
        if k == 'CXXOperatorCallExpr':
            v = self.ev(e, st)
            if isinstance(v, (LCell, LArr, LArrF, LNode, LTemp)):
                return v
            return LTemp(v)
        if k == 'CXXThisExpr':
            return self.ev(e, st)
        v = self.ev(e, st)
        if isinstance(v, (LObj, LSoa, LCell, LArr, LTemp)):
            return v
        return LTemp(v)

    def ptr_at(self, p, ix):
        if isinstance(p, ArrPtr):
            off = simplify(p.off + ix)
            if isinstance(p.elem, tuple):
                return LSoa(p.region, off, p.elem[1])
            return LArr(p.region, off, p.elem)
        if isinstance(p, CellPtr):
            if z3.is_int_value(simplify(ix)) and simplify(ix).as_long() == 0:
                return LCell(p.key, p.qt)
            raise Unsupported('indexing a pointer to a single variable')
        if isinstance(p, ObjPtr):
            return LObj(p.key, p.rec)
        if isinstance(p, NodeFieldPtr):
            return LNode(p.ref, p.field, p.kind)
        if isinstance(p, PhiPtr):
            return LPhi([(c, self.ptr_at(q, ix)) for c, q in p.alts if not isinstance(q, Null)])
        if isinstance(p, z3.ArithRef):
            return ('nodeobj', p)
        if isinstance(p, Vec):
            return ('vecelem', p, ix)
        raise Unsupported('dereference of %r' % (p,))

    def declref(self, e, st):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            raise Unsupported('enum constant')
        key = self.varkey(d['id'])
        if key is None:
            # global
            g = self.prog.gvars.get(d['name'])
            qt = d['type']['qualType']
            if d['name'] in ('cerr', 'cout', 'endl', 'clog'):
                return LTemp(Opaque(d['name']))
            k = kind_of(qt)
            if isinstance(k, tuple) and k[0] == 'rec':
                return LObj(('G', d['name']), k[1])
            if g and 'const' in qt and g.get('inner'):
                return LTemp(self.ev(g['inner'][-1], st))
            return LCell(('G', d['name']), qt)
        qt = self.vartype[key]
        v = st.cells.get(key)
        if isinstance(v, Ref):
            return v.lv
        k = kind_of(qt)
        if isinstance(k, tuple) and k[0] == 'rec' and k[1] != NODE:
            return LObj(key, k[1])
        if isinstance(k, tuple) and k[0] == 'arr':
            return ('arrobj', key, k)
        return LCell(key, qt)

    vartype = {}

    def varkey(self, did):
        for fr in reversed(self.stack[-1:]):
            if did in fr:
                return fr[did]
        return None

    def member(self, e, st):
        b = e['inner'][0]
        name = e.get('name')
        if e.get('isArrow'):
            p = self.ev(b, st)
            return self.member_of_ptr(p, name, e)
        lv = self.lval(b, st)
        return self.member_of_lv(lv, name, e, st)

    def member_of_ptr(self, p, name, e):
        if isinstance(p, z3.ArithRef):
            return LNode(p, name, self.node_kind(name))
        if isinstance(p, ArrPtr):
            return LArrF(p.region, p.off, name, kind_of(self.fields(p.elem[1])[name]))
        if isinstance(p, ObjPtr):
            return self.objfield(p.key, p.rec, name, e)
        if isinstance(p, PhiPtr):
            return LPhi([(c, self.member_of_ptr(q, name, e)) for c, q in p.alts if not isinstance(q, Null)])
        if isinstance(p, Null):
            return LNode(IntVal(0), name, self.node_kind(name))
        raise Unsupported('member %s of %r' % (name, p))

    def member_of_lv(self, lv, name, e, st):
        if isinstance(lv, LSoa):
            return LArrF(lv.region, lv.idx, name, kind_of(self.fields(lv.rec)[name]))
        if isinstance(lv, LObj):
            return self.objfield(lv.key, lv.rec, name, e)
        if isinstance(lv, tuple) and lv[0] == 'nodeobj':
            return LNode(lv[1], name, self.node_kind(name))
        if isinstance(lv, ObjPtr):
            return self.objfield(lv.key, lv.rec, name, e)
        raise Unsupported('member %s of %r' % (name, lv))

    def objfield(self, key, rec, name, e):
        fs = self.fields(rec)
        if name not in fs:
            st_ = self.prog.statics.get((rec, name))
            if st_ is not None:
                return LTemp(self.ev(st_, None))
            raise Unsupported('no field %s in %s' % (name, rec))
        qt = fs[name]
        k = kind_of(qt)
        if isinstance(k, tuple) and k[0] == 'rec':
            return LObj(key + (name,), k[1])
        if isinstance(k, tuple) and k[0] == 'arr':
            return ('arrobj', key + (name,), k)
        return LCell(key + (name,), qt)

    # literals
    def e_IntegerLiteral(self, e, st):
        return IntVal(int(e['value']))

    def e_FloatingLiteral(self, e, st):
        f = Fraction(repr(float(e['value'])))     # the decimal written in the source
        return RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else RealVal(f.numerator)

    def e_CXXBoolLiteralExpr(self, e, st):
        return BoolVal(bool(e['value']))

    def e_CharacterLiteral(self, e, st):
        return IntVal(int(e['value']))

    def e_StringLiteral(self, e, st):
        s = e['value']
        if s.startswith('"'):
            s = s[1:-1]
        return Str(s)

    def e_GNUNullExpr(self, e, st):
        return IntVal(0) if kind_of(e['type']['qualType']) == 'int' else NULL

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return NULL

    def e_PredefinedExpr(self, e, st):
        return Str('fn')

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get('name') == 'sizeof' and 'argType' in e:
            k = kind_of(e['argType']['qualType'])
            if k == 'int':
                return IntVal(4 if 'long' not in e['argType']['qualType'] else 8)
            if k == 'bool':
                return IntVal(1)
            if k == 'real':
                return IntVal(8)
            if isinstance(k, tuple) and k[0] == 'ptr':
                return IntVal(8)
            return Int('sizeof:' + norm_qt(e['argType']['qualType']))
        return Int('sizeof!%d' % next(sym._cnt))

    def e_ParenExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def e_ConstantExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_CXXDefaultArgExpr(self, e, st):
        return None

    def e_CXXThisExpr(self, e, st):
        return ObjPtr(('this',), 'BmiLGAR')

    def e_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('fn:' + d['name'])
        lv = self.declref(e, st)
        return self.rv(lv, st, e)

    def rv(self, lv, st, e):
        if isinstance(lv, tuple) and lv[0] == 'arrobj':
            k = lv[2]
            ke = kind_of(k[1])
            if ke in ('real', 'int', 'bool'):
                st.lens.setdefault(lv[1], IntVal(k[2]))
                return ArrPtr(lv[1], IntVal(0), ke)
            if ke == 'str':
                return ('strarr', lv[1])
            raise Unsupported('array of %s' % (k[1],))
        if isinstance(lv, tuple) and lv[0] == 'nodeobj':
            return lv
        if isinstance(lv, tuple) and lv[0] == 'strelem':
            v = st.cells.get(lv[1])
            if v is None:
                raise Unsupported('unset string array element')
            return v
        return self.load(st, lv, e)

    def e_MemberExpr(self, e, st):
        return self.rv(self.member(e, st), st, e)

    def e_ArraySubscriptExpr(self, e, st):
        p = self.ev(e['inner'][0], st)
        ix = self.ev(e['inner'][1], st)
        if isinstance(p, tuple) and p[0] == 'strarr':
            i = simplify(as_int(ix))
            if not z3.is_int_value(i):
                raise Unsupported('symbolic index into string table')
            v = st.cells.get(p[1] + (i.as_long(),))
            if v is None:
                v = Str(Int('str:' + '.'.join(map(str, p[1])) + str(i)))
            return v
        if isinstance(p, z3.ArithRef):
            p, ix = ix, p
        return self.rv(self.ptr_at(p, as_int(ix)), st, e)

    def e_ImplicitCastExpr(self, e, st):
        ck = e.get('castKind')
        sub = e['inner'][0]
        if ck == 'LValueToRValue':
            return self.rv(self.lval(sub, st), st, e)
        if ck in ('ArrayToPointerDecay', 'NoOp', 'FunctionToPointerDecay', 'BitCast', 'ConstructorConversion',
                  'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr', 'LValueBitCast',
                  'IntegralCast', 'FloatingCast', 'ToVoid', 'Dependent', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            v = self.ev(sub, st)
            if ck == 'IntegralCast' and is_num(v):
                return as_int(v)
            return v
        if ck == 'IntegralToFloating':
            return real(as_int(self.ev(sub, st)))
        if ck == 'FloatingToIntegral':
            v = real(self.ev(sub, st))
            return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return as_bool(self.ev(sub, st))
        if ck == 'NullToPointer':
            self.ev(sub, st)
            k = kind_of(e['type']['qualType'])
            if isinstance(k, tuple) and kind_of(k[1]) == ('rec', NODE):
                return IntVal(0)
            return NULL
        raise Unsupported('cast %s' % ck)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = \
        e_ImplicitCastExpr

    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        sub = e['inner'][0]
        if op == '*':
            return self.rv(self.lval(e, st), st, e)
        if op == '&':
            lv = self.lval(sub, st)
            return self.addr(lv)
        if op in ('++', '--'):
            lv = self.lval(sub, st)
            v = self.rv(lv, st, e)
            if isinstance(v, ArrPtr):
                nv = ArrPtr(v.region, simplify(v.off + (1 if op == '++' else -1)), v.elem)
            elif isinstance(v, z3.ArithRef) and v.sort() == I and kind_of(sub['type']['qualType']) == 'int':
                nv = simplify(v + (1 if op == '++' else -1))
            else:
                nv = real(v) + (1 if op == '++' else -1)
            self.store(st, lv, nv, e)
            return v if e.get('isPostfix') else nv
        v = self.ev(sub, st)
        if op == '-':
            if isinstance(v, FV):
                return FV(-v.r, v.inf, v.nan)
            v = as_int(v)
            return simplify(-v) if z3.is_int_value(v) or z3.is_rational_value(v) else -v
        if op == '+':
            return v
        if op == '!':
            return simplify(Not(as_bool(v)))
        raise Unsupported('unary %s' % op)

    def addr(self, lv):
        if isinstance(lv, LCell):
            return CellPtr(lv.key, lv.qt)
        if isinstance(lv, LArr):
            return ArrPtr(lv.region, lv.idx, lv.elem)
        if isinstance(lv, LSoa):
            return ArrPtr(lv.region, lv.idx, ('rec', lv.rec))
        if isinstance(lv, LNode):
            return NodeFieldPtr(lv.ref, lv.field, lv.kind)
        if isinstance(lv, LObj):
            return ObjPtr(lv.key, lv.rec)
        if isinstance(lv, tuple) and lv[0] == 'nodeobj':
            return lv[1]
        if isinstance(lv, LPhi):
            return PhiPtr([(c, self.addr(l)) for c, l in lv.alts])
        raise Unsupported('address of %r' % (lv,))

    # ---- arithmetic
    def arith(self, op, a, b, st, e):
        if isinstance(a, (ArrPtr,)) and op in ('+', '-') and is_num(b):
            d = as_int(b)
            return ArrPtr(a.region, simplify(a.off + d if op == '+' else a.off - d), a.elem)
        if isinstance(b, ArrPtr) and op == '+' and is_num(a):
            return ArrPtr(b.region, simplify(b.off + as_int(a)), b.elem)
        if isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and op == '-' and a.region == b.region:
            return a.off - b.off
        if not (is_num(a) and is_num(b)):
            raise Unsupported('arithmetic %s on %r %r' % (op, a, b))
        isr = isinstance(a, FV) or isinstance(b, FV) or (isinstance(a, z3.ArithRef) and a.sort() == R) or \
            (isinstance(b, z3.ArithRef) and b.sort() == R)
        if not isr:
            a, b = as_int(a), as_int(b)
            if op == '+':
                return simplify(a + b)
            if op == '-':
                return simplify(a - b)
            if op == '*':
                return simplify(a * b)
            if op in ('/', '%'):
                self.oblige(st, b != 0, 'integer division by zero', 'safety', e)
                q = If(a >= 0, If(b > 0, a / b, -(a / -b)), If(b > 0, -((-a) / b), (-a) / (-b)))
                return simplify(q) if op == '/' else simplify(a - b * q)
            raise Unsupported('int op ' + op)
        fa = a if isinstance(a, FV) else None
        fb = b if isinstance(b, FV) else None
        x, y = real(a), real(b)
        inf = [f.inf for f in (fa, fb) if f]
        nan = [f.nan for f in (fa, fb) if f]
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
            if self.signs and not (z3.is_rational_value(simplify(x)) or z3.is_rational_value(simplify(y))):
                st.facts.append(And(Implies(And(x > 0, y > 0), r > 0), Implies(And(x >= 0, y >= 0), r >= 0)))
        elif op == '/':
            ys = simplify(y)
            if z3.is_rational_value(ys) and ys.as_fraction() != 0:
                r = x * RealVal(1 / ys.as_fraction())
                r = x / ys
            else:
                r = x / y
                inf.append(And(y == 0, x != 0))
                nan.append(And(y == 0, x == 0))
                if self.signs:
                    st.facts.append(Implies(y > 0, And(Implies(x > 0, r > 0), Implies(x >= 0, r >= 0), Implies(x <= y, r <= 1), Implies(x < y, r < 1))))
        else:
            raise Unsupported('real op ' + op)
        r = fold(r)
        if inf or nan:
            return FV(r, simplify(Or(inf)) if len(inf) > 1 else (inf[0] if inf else F_),
                      simplify(Or(nan)) if len(nan) > 1 else (nan[0] if nan else F_))
        return r

    def compare(self, op, a, b, st):
        P = (ArrPtr, CellPtr, ObjPtr, NodeFieldPtr, Null, PhiPtr, Opaque)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, Null) and isinstance(b, z3.ArithRef):
                a = IntVal(0)
            elif isinstance(b, Null) and isinstance(a, z3.ArithRef):
                b = IntVal(0)
            else:
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    return fresh('opq', B)
                if isinstance(a, PhiPtr):
                    r = Or([And(c, self.compare('==', p, b, st)) for c, p in a.alts])
                elif isinstance(b, PhiPtr):
                    return self.compare(op, b, a, st)
                elif isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and a.region == b.region:
                    return {'==': a.off == b.off, '!=': a.off != b.off, '<': a.off < b.off, '<=': a.off <= b.off,
                            '>': a.off > b.off, '>=': a.off >= b.off}[op]
                else:
                    r = BoolVal(same(a, b))
                return r if op == '==' else simplify(Not(r))
        if isinstance(a, Str) and isinstance(b, Str):
            r = self.streq(a, b)
            return r if op == '==' else simplify(Not(r))
        if not (is_num(a) and is_num(b)):
            raise Unsupported('comparison of %r and %r' % (a, b))
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) and op in ('==', '!='):
            return simplify(a == b) if op == '==' else simplify(a != b)
        a, b = as_int(a), as_int(b)
        if isinstance(a, FV) or isinstance(b, FV) or a.sort() != b.sort():
            a, b = real(a), real(b)
        r = {'==': lambda: a == b, '!=': lambda: Not(a == b), '<': lambda: a < b, '<=': lambda: a <= b,
             '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        return simplify(r) if (z3.is_const(a) and z3.is_const(b)) else r

    def streq(self, a, b):
        if isinstance(a.s, str) and isinstance(b.s, str):
            return BoolVal(a.s == b.s)
        if isinstance(a.s, tuple):
            _, c, x, y = a.s
            return simplify(If(c, self.streq(x, b), self.streq(y, b)))
        if isinstance(b.s, tuple):
            return self.streq(b, a)

        def code(s):
            if isinstance(s, str):
                return IntVal(strid(s))
            return s
        return code(a.s) == code(b.s)

    def pure_rhs(self, e, st, guard):
        """evaluate e in a copy of st that additionally assumes guard; returns (value, state or None)"""
        s2 = st.copy()
        s2.path.append(guard)
        n0 = len(s2.facts)
        try:
            v = self.ev(e, s2)
        except End:
            return None, None, s2
        changed = len(s2.log) != len(st.log) or any(k not in st.cells or s2.cells[k] is not st.cells[k] for k in s2.cells
                                                    if k not in self.init_cells or s2.cells[k] is not self.init_cells[k]) or \
            any((k in st.arrays and not same(s2.arrays[k], st.arrays[k])) or
                (k not in st.arrays and not same(s2.arrays[k], self.init_arrays.get(k))) for k in s2.arrays)
        return v, changed, s2

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e['inner']
        if op == '=':
            v = self.ev(r, st)
            lv = self.lval(l, st)
            if isinstance(v, tuple) and v and v[0] == 'malloc':
                v = self.do_malloc(v, l['type']['qualType'], st)
            self.assign(st, lv, v, e)
            return v
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = as_bool(self.ev(l, st))
            if is_false(a) and op == '&&':
                return F_
            if is_true(a) and op == '||':
                return T_
            guard = a if op == '&&' else simplify(Not(a))
            v, changed, s2 = self.pure_rhs(r, st, guard)
            if v is None and changed is None:
                # right side never returns
                st.path.append(simplify(Not(guard)))
                return F_ if op == '&&' else T_
            b = as_bool(v)
            if changed:
                s3 = st.copy()
                s3.path.append(simplify(Not(guard)))
                m = self.merge([s2, s3], len(st.path), len(st.facts))
                self.become(st, m)
            else:
                for f in s2.facts[len(st.facts):]:
                    st.facts.append(Implies(guard, f))
            return And(a, b) if op == '&&' else Or(a, b)
        a = self.ev(l, st)
        b = self.ev(r, st)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b, st)
        return self.arith(op, a, b, st, e)

    def become(self, st, m):
        st.cells, st.arrays, st.lens, st.path, st.facts, st.log, st.freed = m.cells, m.arrays, m.lens, m.path, m.facts, m.log, m.freed

    def assign(self, st, lv, v, e):
        if isinstance(lv, tuple) and lv[0] == 'strelem':
            st.cells[lv[1]] = v
            return
        self.store(st, lv, v, e)

    def e_CompoundAssignOperator(self, e, st):
        l, r = e['inner']
        b = self.ev(r, st)
        lv = self.lval(l, st)
        a = self.rv(lv, st, e)
        v = self.arith(e['opcode'][:-1], a, b, st, e)
        k = kind_of(l['type']['qualType'])
        if k == 'int' and is_num(v) and not isinstance(v, FV) and v.sort() == R:
            v = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        self.store(st, lv, v, e)
        return v

    def e_ConditionalOperator(self, e, st):
        c = as_bool(self.ev(e['inner'][0], st))
        if is_true(c):
            return self.ev(e['inner'][1], st)
        if is_false(c):
            return self.ev(e['inner'][2], st)
        if getattr(self, 'assert_ptr', False) and ends_in_assert(e['inner'][2]) and tests_pointer(e['inner'][0]):
            self.oblige(st, c, 'asserted pointer is not null', 'assert', e)
        v1, ch1, s1 = self.pure_rhs(e['inner'][1], st, c)
        v2, ch2, s2 = self.pure_rhs(e['inner'][2], st, simplify(Not(c)))
        if ch1 is None and ch2 is None:
            raise End('abort')
        if ch2 is None:
            self.become(st, s1)
            return v1
        if ch1 is None:
            self.become(st, s2)
            return v2
        if ch1 or ch2 or len(s1.facts) > len(st.facts) or len(s2.facts) > len(st.facts):
            m = self.merge([s1, s2], len(st.path), len(st.facts))
            self.become(st, m)
        if v1 is None or v2 is None:
            return None
        k = kind_of(e['type']['qualType'])
        if k in ('real', 'int', 'bool'):
            v1, v2 = self.coerce(v1, k), self.coerce(v2, k)
        return ite(c, v1, v2)

    # ---- construction, new/delete
    def e_CXXConstructExpr(self, e, st):
        qt = e['type']['qualType']
        k = kind_of(qt)
        inner = e.get('inner', [])
        if k == 'str':
            for a in inner:
                v = self.ev(a, st)
                if isinstance(v, Str):
                    return v
                if isinstance(v, LTemp) and isinstance(v.val, Str):
                    return v.val
            return Str('')
        if k == 'opaque':
            return Opaque(qt)
        if k == 'vec':
            if len(inner) == 1:
                v = self.ev(inner[0], st)
                if isinstance(v, Vec):
                    return Vec(v.items)
            return Vec([])
        if isinstance(k, tuple) and k[0] == 'rec':
            if inner and len(inner) == 1 and (kind_of(inner[0]['type']['qualType']) == k):
                return self.ev(inner[0], st)
            if k[1] in self.prog.records:
                key = ('tmp', next(sym._cnt))
                self.default_init(st, key, k[1])
                return LObj(key, k[1])
            return Opaque(qt)
        raise Unsupported('construct %s' % qt)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def default_init(self, st, key, rec, zero=False):
        for f in self.prog.records[rec]:
            k = kind_of(f['type'])
            kk = key + (f['name'],)
            if isinstance(k, tuple) and k[0] == 'rec':
                self.default_init(st, kk, k[1], zero)
            elif isinstance(k, tuple) and k[0] == 'arr':
                ke = kind_of(k[1])
                if ke in ('real', 'int', 'bool'):
                    st.arrays[kk] = fresh('uninit', ArraySort(I, sort_of(ke)))
            elif f['init'] is not None:
                st.cells[kk] = self.coerce(self.ev(f['init'], st), k)
                if isinstance(st.cells[kk], Null) and isinstance(k, tuple) and kind_of(k[1]) == ('rec', NODE):
                    st.cells[kk] = IntVal(0)
            else:
                st.cells[kk] = self.uninit(f['type'], kk)

    def uninit(self, qt, key):
        k = kind_of(qt)
        if k in ('real', 'int', 'bool'):
            return fresh('uninit', sort_of(k))
        if isinstance(k, tuple) and k[0] == 'ptr':
            ki = kind_of(k[1])
            if ki == ('rec', NODE):
                return fresh('uninit_ptr', I)
            return Opaque('uninitialised pointer')
        if k == 'str':
            return Str('')
        if k == 'vec':
            return Vec([])
        return Opaque('uninit')

    def e_InitListExpr(self, e, st):
        return [self.ev(x, st) for x in e.get('inner', [])]

    def e_ImplicitValueInitExpr(self, e, st):
        k = kind_of(e['type']['qualType'])
        if k in ('real', 'int', 'bool'):
            return {'real': RealVal(0), 'int': IntVal(0), 'bool': F_}[k]
        return NULL

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultInitExpr(self, e, st):
        return None

    def e_CXXNewExpr(self, e, st):
        k = kind_of(e['type']['qualType'])
        inner = k[1]
        ki = kind_of(inner)
        if e.get('isArray'):
            n = as_int(self.ev(e['inner'][0], st))
            region = ('new', next(sym._cnt))
            st.lens[region] = n
            if ki in ('real', 'int', 'bool'):
                a = fresh('newarr', ArraySort(I, sort_of(ki)))
                if len(e['inner']) > 1:      # new T[n]() or new T[n]{...}: zero beyond the listed values
                    a = z3.K(I, {'real': RealVal(0), 'int': IntVal(0), 'bool': F_}[ki])
                    for j, x in enumerate(e['inner'][1].get('inner', [])):
                        a = Store(a, IntVal(j), self.scalar(ki, self.ev(x, st)))
                st.arrays[region] = a
                self.init_arrays[region] = a
                return ArrPtr(region, IntVal(0), ki)
            if isinstance(ki, tuple) and ki[0] == 'rec' and ki[1] in SOA:
                return ArrPtr(region, IntVal(0), ki)
            raise Unsupported('new %s[]' % inner)
        if ki == ('rec', NODE):
            ref = self.new_node(st)
            if any(x.get('zeroing') for x in e.get('inner', [])):
                for f in self.fields(NODE):
                    h = self.heap(st, f)
                    z = h.sort().range()
                    st.arrays[('wf', f)] = Store(h, ref, RealVal(0) if z == R else IntVal(0) if z == I else F_)
            return ref
        if isinstance(ki, tuple) and ki[0] == 'rec':
            key = ('new', next(sym._cnt))
            if ki[1] in self.prog.records:
                self.default_init(st, key, ki[1])
            return ObjPtr(key, ki[1])
        if ki in ('real', 'int', 'bool'):
            key = ('new', next(sym._cnt))
            st.cells[key] = self.scalar(ki, self.ev(e['inner'][0], st)) if e.get('inner') else fresh('uninit', sort_of(ki))
            return CellPtr(key, inner)
        raise Unsupported('new %s' % inner)

    def new_node(self, st):
        ref = fresh('node', I)
        al = self.heap(st, 'alloc')
        st.facts.append(And(ref > 0, Not(Select(al, ref))))
        # fresh field contents
        st.arrays[('wf', 'alloc')] = Store(al, ref, T_)
        for f in self.fields(NODE):
            h = self.heap(st, f)
            st.arrays[('wf', f)] = Store(h, ref, fresh('uninit_' + f, h.sort().range()))
        st.arrays[('wf', 'own')] = Store(self.heap(st, 'own'), ref, IntVal(0))
        return ref

    def e_CXXDeleteExpr(self, e, st):
        v = self.ev(e['inner'][0], st)
        self.release(st, v, e)
        return None

    def release(self, st, v, e):
        if isinstance(v, ArrPtr):
            if v.region in st.freed:
                self.oblige(st, F_, 'released twice', 'safety', e)
            st.freed = st.freed | {v.region}
            st.log.append(('free', v.region))
        elif isinstance(v, z3.ArithRef):
            al = self.heap(st, 'alloc')
            self.oblige(st, Or(v == 0, Select(al, v)), 'front released at most once', 'safety', e)
            st.arrays[('wf', 'alloc')] = Store(al, v, F_)
        elif isinstance(v, (Null, Opaque, ObjPtr, CellPtr)):
            pass
        elif isinstance(v, PhiPtr):
            pass
        else:
            raise Unsupported('delete of %r' % (v,))

    def e_CXXThrowExpr(self, e, st):
        raise End('throw')

    # ------------------------------------------------------------ calls
    def callee(self, e):
        c = e['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        return c

    def e_CallExpr(self, e, st):
        c = self.callee(e)
        if c['kind'] != 'DeclRefExpr':
            raise Unsupported('indirect call')
        name = c['referencedDecl']['name']
        return self.call(name, e['inner'][1:], st, e)

    def args_effectful(self, n):
        if n is None:
            return False
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        if k == 'CompoundAssignOperator':
            return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        return any(self.args_effectful(c) for c in n.get('inner', []))

    def call(self, name, argn, st, e):
        if self.print_hook is not None and name in PRINTS and not self.lite:
            vals = [self.ev(a, st) for a in argn]
            st.log.append(('print', name, vals))
            return IntVal(0)
        if name in PRINTS or name in self.skip_calls:
            for a in argn:
                if self.args_effectful(a):
                    self.ev(a, st)
            return IntVal(0)
        if name in ENDS:
            raise End('abort')
        b = getattr(self, 'b_' + name, None) if name not in self.contracts else None
        if b is not None and not self.prog.funcs.get(name):
            return b([self.ev(a, st) for a in argn], st, e)
        if name in self.contracts:
            return self.contracts[name](self, st, argn, e)
        fs = self.prog.funcs.get(name)
        if b is not None and (not fs or fs[0]['name'].startswith('is') and fs[0]['unit'] not in self.prog.text):
            return b([self.ev(a, st) for a in argn], st, e)
        if not fs or name in ('iscanonical', 'issignaling'):
            if b is not None:
                return b([self.ev(a, st) for a in argn], st, e)
            raise Unsupported('call of unknown function %s' % name)
        f = self.pick(fs, argn)
        if self.print_only(f):
            return None
        return self.inline(f, argn, st, e)

    def pick(self, fs, argn):
        n = len(argn)
        for f in fs:
            ps = [p for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl']
            if len(ps) == n:
                return f
        return fs[0]

    def print_only(self, f):
        """void function that assigns only its own scalar locals/parameters: no observable effect on the model state"""
        fid = f['id'] + f.get('unit', '')
        if fid in self.pure_cache:
            return self.pure_cache[fid]
        self.pure_cache[fid] = False
        qt = f['type']['qualType']
        if not qt.startswith('void'):
            return False
        loc = {p['id'] for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl' and not p['type']['qualType'].endswith('&')}
        haveio = [False]

        def ok(n):
            if n is None:
                return True
            k = n.get('kind')
            if k == 'VarDecl':
                loc.add(n['id'])
            if k in ('ReturnStmt',) and n.get('inner'):
                return False
            if k in ('CXXThrowExpr', 'CXXNewExpr', 'CXXDeleteExpr'):
                return False
            tgt = None
            if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator' or \
                    (k == 'UnaryOperator' and n['opcode'] in ('++', '--')):
                tgt = n['inner'][0]
                while tgt['kind'] == 'ParenExpr':
                    tgt = tgt['inner'][0]
                if tgt['kind'] != 'DeclRefExpr' or tgt['referencedDecl']['id'] not in loc:
                    return False
            if k == 'CallExpr':
                c = self.callee(n)
                nm = c.get('referencedDecl', {}).get('name')
                if nm in PRINTS:
                    haveio[0] = True
                elif hasattr(self, 'b_' + str(nm)) and nm not in ('free', 'malloc', 'memcpy', 'memmove', 'memset', 'fill', 'fill_n', 'copy', 'copy_n'):
                    pass
                else:
                    fs = self.prog.funcs.get(nm)
                    if not fs or not self.print_only(fs[0]):
                        return False
            if k == 'CXXMemberCallExpr':
                c = n['inner'][0]
                if c.get('name') not in ('compare', 'size', 'c_str', 'length'):
                    return False
            if k == 'CXXOperatorCallExpr':
                c = self.callee(n)
                if c.get('referencedDecl', {}).get('name') != 'operator<<':
                    return False
                haveio[0] = True
            return all(ok(c) for c in n.get('inner', []))
        body = [x for x in f['inner'] if x['kind'] == 'CompoundStmt'][0]
        r = ok(body) and haveio[0]
        self.pure_cache[fid] = r
        return r

    def bind_args(self, f, argn, st):
        """evaluate arguments in the caller's frame"""
        ps = [p for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl']
        vals = []
        for i, p in enumerate(ps):
            qt = p['type']['qualType']
            a = argn[i] if i < len(argn) else None
            if a is not None and a['kind'] == 'CXXDefaultArgExpr':
                a = None
            if a is None:
                init = p.get('inner', [])
                init = [x for x in init if 'Comment' not in x['kind']]
                if init:
                    vals.append(self.ev(init[0], st))
                else:
                    # default argument lives in the declaration: only NULL defaults occur
                    vals.append(IntVal(0) if kind_of(qt) == ('ptr', NODE) else NULL)
                continue
            if qt.rstrip().endswith('&'):
                lv = self.lval(a, st)
                if isinstance(lv, LTemp):
                    vals.append(lv.val)
                elif isinstance(lv, (LObj,)):
                    vals.append(Ref(lv))
                elif isinstance(lv, ObjPtr):
                    vals.append(Ref(LObj(lv.key, lv.rec)))
                else:
                    vals.append(Ref(lv))
            else:
                vals.append(self.ev(a, st))
        return ps, vals

    def inline(self, f, argn, st, e, thisobj=None):
        if any(fr.get('__fn') == f['id'] + f['unit'] for fr in self.stack):
            raise Unsupported('recursive function %s without a contract' % f['name'])
        if len(self.stack) > 25:
            raise Unsupported('call depth')
        ps, vals = self.bind_args(f, argn, st)
        self.inlined.add(f['name'])
        self._site = e.get('off') if isinstance(e, dict) else None
        return self.run_body(f, ps, vals, st)

    def callsites(self):
        return tuple(str(fr.get('__site')) for fr in self.stack)

    def run_body(self, f, ps, vals, st):
        fid = next(sym._cnt)
        fr = {'__fn': f['id'] + f['unit'], '__fid': fid, '__site': self.__dict__.pop('_site', None)}
        sfn, su = self.curfn, self.curunit
        self.stack.append(fr)
        self.curfn, self.curunit = f['name'], f['unit']
        try:
            for p, v in zip(ps, vals):
                key = ('L', fid, p.get('name') or p['id'])
                fr[p['id']] = key
                qt = p['type']['qualType']
                self.vartype[key] = qt
                k = kind_of(qt)
                if isinstance(v, Ref):
                    st.cells[key] = v
                elif isinstance(v, LObj):
                    self.copy_obj(st, v.key, key, v.rec)
                elif isinstance(v, Null) and isinstance(k, tuple) and kind_of(k[1]) == ('rec', NODE):
                    st.cells[key] = IntVal(0)
                else:
                    st.cells[key] = self.coerce(v, k) if k in ('real', 'int', 'bool') else v
            body = [x for x in f['inner'] if x['kind'] == 'CompoundStmt'][0]
            np, nf = len(st.path), len(st.facts)
            o = self.block(body, st.copy())
            rets = list(o.ret)
            if o.normal is not None:
                rets.append((o.normal, None))
            if o.thrown:
                self.thrown_states = getattr(self, 'thrown_states', []) + o.thrown
            if not rets:
                raise End('throw' if o.thrown else 'abort')
            RK = ('ret', fid)
            for s, v in rets:
                if v is not None:
                    if isinstance(v, LObj):
                        pass
                    s.cells[RK] = v
            rk = kind_of(f['type']['qualType'].split('(')[0])
            m = self.merge([s for s, v in rets], np, nf)
            v = m.cells.pop(RK, None)
            # drop the frame's locals
            for k in [k for k in m.cells if k[0] == 'L' and k[1] == fid]:
                del m.cells[k]
            self.become(st, m)
            if v is not None and rk in ('real', 'int', 'bool'):
                v = self.coerce(v, rk)
            return v
        finally:
            self.stack.pop()
            self.curfn, self.curunit = sfn, su

    # ---- builtins
    def b_fabs(self, a, st, e):
        v = a[0]
        x = real(v)
        r = fold(If(x >= 0, x, -x))
        return FV(r, v.inf, v.nan) if isinstance(v, FV) else r

    def b_abs(self, a, st, e):
        if isinstance(a[0], FV) or a[0].sort() == R:
            return self.b_fabs(a, st, e)
        return If(a[0] >= 0, a[0], -a[0])

    def _minmax(self, a, lt):
        x, y = real(a[0]), real(a[1])
        return fold(If(x <= y, x, y) if lt else If(x >= y, x, y))

    def b_fmin(self, a, st, e):
        return self._minmax(a, True)

    def b_fmax(self, a, st, e):
        return self._minmax(a, False)

    def b_min(self, a, st, e):
        a = [self.load(st, x) if isinstance(x, (LCell, LArr)) else x for x in a]
        if all(not isinstance(x, FV) and x.sort() == I for x in a):
            return If(a[0] <= a[1], a[0], a[1])
        return self._minmax(a, True)

    def b_max(self, a, st, e):
        if all(not isinstance(x, FV) and x.sort() == I for x in a):
            return If(a[0] >= a[1], a[0], a[1])
        return self._minmax(a, False)

    def b_pow(self, a, st, e):
        x, y = real(a[0]), simplify(real(a[1]))
        if z3.is_rational_value(y):
            f = y.as_fraction()
            if f.denominator == 1 and 1 <= f <= 4:
                r = x
                for _ in range(int(f) - 1):
                    r = r * x
                return r
            if f == Fraction(1, 2):
                return SQRT(x)
            if f == -1:
                return self.arith('/', RealVal(1), x, st, e)
        r = POW(x, y)
        fl = [v for v in a if isinstance(v, FV)]
        if fl:
            return FV(r, Or([v.inf for v in fl]), Or([v.nan for v in fl]))
        return r

    def b_sqrt(self, a, st, e):
        return SQRT(real(a[0]))

    def b_exp(self, a, st, e):
        return EXP(real(a[0]))

    def b_log(self, a, st, e):
        return LOG(real(a[0]))

    def b_isinf(self, a, st, e):
        v = a[0]
        return v.inf if isinstance(v, FV) else F_

    def b_isnan(self, a, st, e):
        v = a[0]
        return v.nan if isinstance(v, FV) else F_

    def b_isfinite(self, a, st, e):
        v = a[0]
        return Not(Or(v.inf, v.nan)) if isinstance(v, FV) else T_

    def b_floor(self, a, st, e):
        return z3.ToReal(z3.ToInt(real(a[0])))

    def b_ceil(self, a, st, e):
        x = real(a[0])
        return -z3.ToReal(z3.ToInt(-x))

    def b_free(self, a, st, e):
        self.release(st, a[0], e)

    def b_malloc(self, a, st, e):
        return ('malloc', a[0])

    def b_memcpy(self, a, st, e):
        d, s, n = a
        z = {'real': 8, 'int': 4}.get(d.elem) if isinstance(d, ArrPtr) and isinstance(s, ArrPtr) and d.elem == s.elem else None
        if z is None or not isinstance(n, z3.ArithRef):
            raise Unsupported('memcpy of %r' % (d,))
        self.oblige(st, And(n >= 0, n % z == 0), 'whole elements are copied', 'safety', e)
        k = fresh('cnt', I)
        st.facts.append(k * z == n)
        D, S_ = self.arr(st, d.region, d.elem), self.arr(st, s.region, s.elem)
        for p in (d, s):
            ln = st.lens.get(p.region)
            if ln is not None and self.safety:
                self.oblige(st, Or(k == 0, And(p.off >= 0, p.off + k <= ln)), 'the copy stays within %s' % '.'.join(str(x) for x in p.region), 'safety', e)
        N = fresh('mem', D.sort())
        x = Int('x!c')
        st.facts.append(ForAll([x], Select(N, x) == If(And(x >= d.off, x < d.off + k), Select(S_, x - d.off + s.off), Select(D, x)), patterns=[Select(N, x)]))
        st.arrays[d.region] = N
        return d

    b_memmove = b_memcpy

    def b_memset(self, a, st, e):
        d, c, n = a
        z = {'real': 8, 'int': 4}.get(d.elem) if isinstance(d, ArrPtr) else None
        if z is None or not isinstance(n, z3.ArithRef) or not z3.is_int_value(simplify(as_int(c))) or simplify(as_int(c)).as_long() != 0:
            raise Unsupported('memset of %r' % (d,))
        self.oblige(st, And(n >= 0, n % z == 0), 'whole elements are set', 'safety', e)
        k = fresh('cnt', I)
        st.facts.append(k * z == n)
        D = self.arr(st, d.region, d.elem)
        ln = st.lens.get(d.region)
        if ln is not None and self.safety:
            self.oblige(st, Or(k == 0, And(d.off >= 0, d.off + k <= ln)), 'memset stays within %s' % '.'.join(str(x) for x in d.region), 'safety', e)
        N = fresh('mem', D.sort())
        x = Int('x!c')
        st.facts.append(ForAll([x], Select(N, x) == If(And(x >= d.off, x < d.off + k), RealVal(0) if d.elem == 'real' else IntVal(0), Select(D, x)), patterns=[Select(N, x)]))
        st.arrays[d.region] = N
        return d

    def memblock(self, st, d, k, val, e, src=None):
        """elements d[0..k) become val (or those of src)"""
        if not isinstance(d, ArrPtr) or d.elem not in ('real', 'int', 'bool') or (src is not None and (not isinstance(src, ArrPtr) or src.elem != d.elem)):
            raise Unsupported('block operation on %r' % (d,))
        D = self.arr(st, d.region, d.elem)
        for p in (d,) if src is None else (d, src):
            ln = st.lens.get(p.region)
            if ln is not None and self.safety:
                self.oblige(st, Or(k <= 0, And(p.off >= 0, p.off + k <= ln)), 'the operation stays within %s' % '.'.join(str(x) for x in p.region), 'safety', e)
        if src is not None:
            S_ = self.arr(st, src.region, src.elem)
        N = fresh('mem', D.sort())
        x = Int('x!c')
        st.facts.append(ForAll([x], Select(N, x) == If(And(x >= d.off, x < d.off + k), val if src is None else Select(S_, x - d.off + src.off), Select(D, x)), patterns=[Select(N, x)]))
        st.arrays[d.region] = N
        return ArrPtr(d.region, d.off + If(k > 0, k, IntVal(0)), d.elem)

    def span(self, a, b):
        if not (isinstance(a, ArrPtr) and isinstance(b, ArrPtr) and a.region == b.region):
            raise Unsupported('range of %r' % (a,))
        return b.off - a.off

    def scalar(self, k, v):
        return real(v) if k == 'real' else as_int(v) if k == 'int' else as_bool(v)

    def b_fill(self, a, st, e):
        n = self.span(a[0], a[1])
        self.memblock(st, a[0], n, self.scalar(a[0].elem, a[2]), e)

    def b_fill_n(self, a, st, e):
        if not isinstance(a[0], ArrPtr):
            raise Unsupported('fill_n of %r' % (a[0],))
        return self.memblock(st, a[0], as_int(a[1]), self.scalar(a[0].elem, a[2]), e)

    def b_copy(self, a, st, e):
        return self.memblock(st, a[2], self.span(a[0], a[1]), None, e, a[0])

    def b_copy_n(self, a, st, e):
        return self.memblock(st, a[2], as_int(a[1]), None, e, a[0])

    def b_strcmp(self, a, st, e):
        return If(self.streq(a[0], a[1]), IntVal(0), IntVal(1))

    def b_setprecision(self, a, st, e):
        return Opaque('manip')

    def e_CXXMemberCallExpr(self, e, st):
        m = e['inner'][0]
        while m['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            m = m['inner'][0]
        name = m.get('name')
        base = m['inner'][0]
        argn = e['inner'][1:]
        bk = kind_of(base['type']['qualType'])
        if isinstance(bk, tuple) and bk[0] == 'ptr':
            bkk = kind_of(bk[1])
        else:
            bkk = bk
        if bkk == 'str':
            s = self.ev(base, st)
            if isinstance(s, LTemp):
                s = s.val
            args = [self.ev(a, st) for a in argn]
            if name == 'compare' and len(args) == 1 and isinstance(s, Str) and isinstance(args[0], Str):
                q = self.streq(s, args[0])
                if is_true(q):
                    return IntVal(0)
                if is_false(q):
                    return IntVal(1)
                return If(q, IntVal(0), IntVal(1))
            if name == 'c_str':
                return s
            if name in ('empty',) and isinstance(s, Str):
                return self.streq(s, Str(''))
            raise Unsupported('string::%s' % name)
        if bkk == 'vec':
            lv = self.lval(base, st)
            v = self.rv(lv, st, e)
            if name == 'push_back' and isinstance(v, Vec):
                x = self.ev(argn[0], st)
                self.store(st, lv, Vec(v.items + [x]), e)
                return None
            if name == 'size' and isinstance(v, Vec):
                return IntVal(len(v.items))
            raise Unsupported('vector::%s' % name)
        if bkk == 'opaque':
            for a in argn:
                if self.args_effectful(a):
                    self.ev(a, st)
            return Opaque(name)
        if isinstance(bkk, tuple) and bkk[0] == 'rec':
            if name in self.contracts:
                return self.contracts[name](self, st, argn, e)
            fs = self.prog.funcs.get(name)
            if fs:
                return self.inline(self.pick(fs, argn), argn, st, e)
        raise Unsupported('method %s on %s' % (name, base['type']['qualType']))

    def e_CXXOperatorCallExpr(self, e, st):
        c = self.callee(e)
        op = c.get('referencedDecl', {}).get('name', '')
        args = e['inner'][1:]
        if op == 'operator<<':
            def leaf(n):
                while True:
                    if n['kind'] == 'CXXOperatorCallExpr':
                        n = n['inner'][1]
                    elif n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
                        n = n['inner'][0]
                    else:
                        return n
            if kind_of(leaf(e)['type']['qualType']) == 'opaque' or 'stream' in leaf(e)['type']['qualType']:
                for a in args:
                    if self.args_effectful(a):
                        self.ev(a, st)
                return Opaque('stream')
        if op == 'operator==' or op == 'operator!=':
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            return self.compare('==' if op == 'operator==' else '!=', a, b, st)
        if op == 'operator=':
            # string / vector assignment
            r = self.ev(args[1], st)
            l = args[0]
            if l['kind'] == 'ArraySubscriptExpr':
                p = self.ev(l['inner'][0], st)
                ix = simplify(as_int(self.ev(l['inner'][1], st)))
                if isinstance(p, tuple) and p[0] == 'strarr' and z3.is_int_value(ix):
                    st.cells[p[1] + (ix.as_long(),)] = r
                    return r
            lv = self.lval(l, st)
            self.assign(st, lv, r, e)
            return r
        if op == 'operator[]':
            v = self.ev(args[0], st)
            ix = simplify(as_int(self.ev(args[1], st)))
            if isinstance(v, Vec) and z3.is_int_value(ix):
                return v.items[ix.as_long()]
        if op == 'operator+':
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            if isinstance(a, Str) and isinstance(b, Str):
                if isinstance(a.s, str) and isinstance(b.s, str):
                    return Str(a.s + b.s)
                return Str(fresh('strcat', I))
        if op == 'operator()' or op == 'operator>>':
            return Opaque(op)
        raise Unsupported('operator %s' % op)

    # ------------------------------------------------------------ statements
    def block(self, n, st):
        out = Outcome(st)
        for s in n.get('inner', []):
            if out.normal is None:
                break
            o = self.stmt(s, out.normal)
            out.absorb(o)
            out.normal = o.normal
        return out

    def stmt(self, n, st):
        if n is None:
            return Outcome(st)
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        try:
            self.ev(n, st)
        except End as x:
            o = Outcome(None)
            if x.kind == 'throw':
                o.thrown.append(st)
            return o
        return Outcome(st)

    def s_CompoundStmt(self, n, st):
        return self.block(n, st)

    def s_NullStmt(self, n, st):
        return Outcome(st)

    def s_DeclStmt(self, n, st):
        try:
            for d in n['inner']:
                if d['kind'] == 'VarDecl':
                    self.declare(d, st)
                elif d['kind'] in ('TypedefDecl', 'UsingDirectiveDecl', 'UsingDecl', 'StaticAssertDecl', 'TypeAliasDecl'):
                    pass
                else:
                    raise Unsupported('declaration %s' % d['kind'])
        except End as x:
            o = Outcome(None)
            if x.kind == 'throw':
                o.thrown.append(st)
            return o
        return Outcome(st)

    def declare(self, d, st):
        fr = self.stack[-1]
        key = fr.get(d['id'])
        if key is None:
            key = ('L', fr.get('__fid') or self._fid(fr), d['name'], len(fr))
            fr[d['id']] = key
        qt = d['type']['qualType']
        self.vartype[key] = qt
        k = kind_of(qt)
        init = [x for x in d.get('inner', []) if 'Comment' not in x['kind'] and not x['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static' and 'const' not in qt:
            raise Unsupported('static local %s' % d['name'])
        if qt.rstrip().endswith('&') and init:
            lv = self.lval(init[-1], st)
            if isinstance(lv, LTemp):
                st.cells[key] = lv.val
            elif isinstance(lv, tuple):
                raise Unsupported('reference to aggregate')
            else:
                st.cells[key] = Ref(lv)
            return
        if init:
            v = self.ev(init[-1], st)
            if isinstance(v, tuple) and v and v[0] == 'malloc':
                v = self.do_malloc(v, qt, st)
            if isinstance(k, tuple) and k[0] == 'rec' and k[1] != NODE:
                if isinstance(v, LObj):
                    self.copy_obj(st, v.key, key, v.rec)
                    return
            if isinstance(k, tuple) and k[0] == 'arr':
                ke = kind_of(k[1])
                if isinstance(v, list) and ke in ('real', 'int', 'bool'):
                    a = z3.K(I, {'real': RealVal(0), 'int': IntVal(0), 'bool': F_}[ke])
                    for i, x in enumerate(v):
                        a = Store(a, i, self.plain(x, ke))
                    st.arrays[key] = a
                    st.lens[key] = IntVal(k[2])
                    return
                raise Unsupported('array initialiser')
            if isinstance(v, list) and len(v) == 1:
                v = v[0]
            if k in ('real', 'int', 'bool'):
                v = self.coerce(v, k)
            if k == 'vec' and isinstance(v, list):
                v = Vec(v)
            if isinstance(v, Null) and isinstance(k, tuple) and kind_of(k[1]) == ('rec', NODE):
                v = IntVal(0)
            st.cells[key] = v
            return
        if isinstance(k, tuple) and k[0] == 'rec' and k[1] in self.prog.records:
            self.default_init(st, key, k[1])
            return
        if isinstance(k, tuple) and k[0] == 'arr':
            ke = kind_of(k[1])
            if ke in ('real', 'int', 'bool'):
                st.arrays[key] = fresh('uninit', ArraySort(I, sort_of(ke)))
                st.lens[key] = IntVal(k[2])
                return
            if ke == 'str':
                return
            raise Unsupported('local array of %s' % k[1])
        st.cells[key] = self.uninit(qt, key)

    def _fid(self, fr):
        fr['__fid'] = next(sym._cnt)
        return fr['__fid']

    def do_malloc(self, v, qt, st):
        k = kind_of(qt)
        ki = kind_of(k[1])
        if ki == ('rec', NODE):
            return self.new_node(st)
        if ki in ('real', 'int', 'bool'):
            region = ('new', next(sym._cnt))
            sz = 8 if ki == 'real' else 4
            st.lens[region] = simplify(as_int(v[1]) / sz)
            a = fresh('newarr', ArraySort(I, sort_of(ki)))
            st.arrays[region] = a
            self.init_arrays[region] = a
            return ArrPtr(region, IntVal(0), ki)
        raise Unsupported('malloc of %s' % qt)

    def s_ReturnStmt(self, n, st):
        o = Outcome(None)
        try:
            inner = n.get('inner', [])
            v = None
            if inner:
                v = self.ev(inner[0], st)
                if isinstance(v, LTemp):
                    v = v.val
            o.ret.append((st, v))
        except End as x:
            if x.kind == 'throw':
                o.thrown.append(st)
        return o

    def s_BreakStmt(self, n, st):
        o = Outcome(None)
        o.brk.append(st)
        return o

    def s_ContinueStmt(self, n, st):
        o = Outcome(None)
        o.cont.append(st)
        return o

    def s_IfStmt(self, n, st):
        inner = n['inner']
        i = 0
        if n.get('hasInit') or n.get('hasVar'):
            o = self.stmt(inner[0], st)
            if o.normal is None:
                return o
            st = o.normal
            i = 1
        try:
            c = as_bool(self.ev(inner[i], st))
        except End as x:
            o = Outcome(None)
            if x.kind == 'throw':
                o.thrown.append(st)
            return o
        c = simplify(c) if not z3.is_const(c) else c
        then = inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        if is_true(c):
            return self.stmt(then, st)
        if is_false(c):
            return self.stmt(els, st)
        if self.name_terms and not z3.is_const(c):
            b = fresh('if', z3.BoolSort())
            st.facts.append(b == c)
            c = b
        np, nf = len(st.path), len(st.facts)
        s1, s2 = st.copy(), st
        s1.path.append(c)
        nc = simplify(Not(c))
        s2.path.append(nc)
        out = Outcome(None)
        o1 = self.stmt(then, s1)
        o2 = self.stmt(els, s2)
        out.absorb(o1)
        out.absorb(o2)
        out.normal = self.merge([o1.normal, o2.normal], np, nf)
        return out

    def s_SwitchStmt(self, n, st):
        raise Unsupported('switch')

    def s_CXXTryStmt(self, n, st):
        raise Unsupported('try')

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n['inner']
        o = self.stmt(init, st)
        if o.normal is None:
            return o
        return self.loop(n, cond, inc, body, o.normal, False)

    def s_WhileStmt(self, n, st):
        inner = [x for x in n['inner']]
        cond, body = inner[-2], inner[-1]
        return self.loop(n, cond, None, body, st, False)

    def s_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        return self.loop(n, cond, None, body, st, True)

    def loop(self, n, cond, inc, body, st, do):
        import loops
        return loops.run_loop(self, n, cond, inc, body, st, do)


_strids = {}


def strid(s):
    if s not in _strids:
        _strids[s] = len(_strids) + 1000
    return _strids[s]


def fold(r):
    """constant folding only"""
    if z3.is_app(r) and r.num_args() > 0 and all(z3.is_rational_value(c) or z3.is_int_value(c) for c in r.children()):
        return simplify(r)
    return r
