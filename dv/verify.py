"""Driver: verify one function of the repository against its contract."""
import os, sys, time, json, pickle, signal
from sym import *
import sym, solve, execu, frontend
from execu import Exec, LObj, LCell, Obl, End
from lists import GList

DEBUG = os.environ.get('DV_DEBUG')


class V:
    """bound parameters of the function under verification, by canonical (positional) name"""

    def __init__(self):
        self.vals = {}

    def __getattr__(self, n):
        try:
            return self.__dict__['vals'][n]
        except KeyError:
            raise AttributeError(n)


def new_exec(prog, contracts=None):
    ex = Exec(prog)
    ex.vartype = {}
    ex.contracts = dict(contracts or {})
    return ex


def verify(ex, fname, names, pre, post, unit=None, check_sat=True, method=False, thrown_ok=True):
    f = ex.prog.func(fname, unit)
    ps = [p for p in f.get('inner', []) if p['kind'] == 'ParmVarDecl']
    if len(ps) != len(names):
        raise Unsupported('%s takes %d parameters, the contract names %d' % (fname, len(ps), len(names)))
    st = State()
    v = V()
    fid = next(sym._cnt)
    fr = {'__fn': f['id'] + f['unit'], '__fid': fid}
    ex.stack.append(fr)
    ex.curfn, ex.curunit = f['name'], f['unit']
    ex.target = fname
    try:
        for p, n in zip(ps, names):
            qt = p['type']['qualType']
            k = kind_of(qt)
            key = ('L', fid, n)
            fr[p['id']] = key
            ex.vartype[key] = qt
            if isinstance(k, tuple) and k[0] == 'rec' and k[1] != NODE:
                val = LObj(('A', n), k[1])
                ex.copy_obj(st, ('A', n), key, k[1])
                v.vals[n] = val
                continue
            val = ex.init_value(('A', n), qt)
            v.vals[n] = val
            st.cells[key] = val
        v.ex = ex
        pre(ex, st, v)
        entry = st.copy()
        ex.entry = entry
        if check_sat:
            s = solve.mk_solver(3000)
            s.add(*(st.pc() + solve.background(st.pc())))
            if s.check() == z3.unsat:
                raise Unsupported('precondition of %s is contradictory' % fname)
        body = [x for x in f['inner'] if x['kind'] == 'CompoundStmt'][0]
        n0 = len(ex.obls)
        try:
            o = ex.block(body, st.copy())
        except ProofStop as x:
            ex.recording, ex.lite = True, False
            ob = Obl(x.label, 'loop-invariant', [], BoolVal(False), ex.curfn, ex.prog.line(ex.curunit, x.node.get('off')), (), ex.curunit)
            ob.res = solve.Result('unknown', 'not established by z3', 0.0)
            ex.obls.append(ob)
            return ex
        rets = list(o.ret)
        if o.normal is not None:
            rets.append((o.normal, None))
        if not rets:
            raise Unsupported('%s never returns' % fname)
        rk = kind_of(f['type']['qualType'].split('(')[0])
        if check_sat and not ex.lite and all(solve.prove(s.pc(), BoolVal(False), 1500, ex.extra_ax, quick=True).status == 'valid' for s, _ in rets):
            raise Unsupported('no return of %s is reachable under its contract' % fname)
        for s, rv in rets:
            if rv is not None and rk in ('real', 'int', 'bool'):
                rv = ex.coerce(rv, rk)
            ex.curfn, ex.curunit = f['name'], f['unit']
            post(ex, entry, s, rv, v)
        return ex
    finally:
        ex.stack.pop()


# ------------------------------------------------------------------ discharging
def ite_conds(e, limit=6):
    out, seen, stack = [], set(), [e]
    while stack and len(out) < limit:
        x = stack.pop(0)
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                if not any(c.eq(o) for o in out):
                    out.append(c)
            stack.extend(x.children())
    return out


def split_goal(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += split_goal(c)
        return r
    return [g]


def prove_obl(o, ms):
    g = o.goal
    if any(g.eq(a) for a in o.assums):
        return solve.Result('valid', 'assumption', 0.0)
    tot = 0.0
    worst = None
    for c in split_goal(g):
        r = solve.prove(o.assums, c, ms, o.extra)
        tot += r.time
        if r.status != 'valid':
            # case split on conditional sub-terms
            conds = ite_conds(c)
            if conds:
                r2 = split_prove(o.assums, c, conds[:3], ms, o.extra)
                tot += r2.time
                if r2.status == 'valid':
                    r = r2
                else:
                    t0 = time.time()
                    r2 = deep_prove(o.assums, c, 14, min(ms, 4000), o.extra, t0 + 90)
                    tot += time.time() - t0
                    if r2.status == 'valid':
                        r = r2
        worst = r if worst is None or r.status != 'valid' else worst
        if r.status != 'valid':
            r.time = tot
            return r
    worst.time = tot
    return worst


def pick(e, c, val, memo=None):
    """e with every conditional on c resolved (no other rewriting)"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = e
    if e.eq(c):
        r = BoolVal(val)
    elif z3.is_app(e) and e.num_args():
        if e.decl().kind() == z3.Z3_OP_ITE and e.arg(0).eq(c):
            r = pick(e.arg(1) if val else e.arg(2), c, val, memo)
        else:
            ch = [pick(x, c, val, memo) for x in e.children()]
            if any(not a.eq(b) for a, b in zip(ch, e.children())):
                if e.decl().kind() == z3.Z3_OP_ITE and z3.is_true(ch[0]):
                    r = ch[1]
                elif e.decl().kind() == z3.Z3_OP_ITE and z3.is_false(ch[0]):
                    r = ch[2]
                else:
                    r = e.decl()(*ch)
    memo[k] = r
    return r


class Signs:
    """signs of nonlinear terms from the signs of their factors: each step is a solver query"""

    def __init__(self, assums, ms=700, extra=()):
        self.a, self.ms, self.extra, self.memo = assums, ms, extra, {}

    def q(self, g):
        return solve.prove(self.a, g, self.ms, self.extra, quick=True).status == 'valid'

    def leaf(self, t):
        return '+' if self.q(t > 0) else '-' if self.q(t < 0) else 'p' if self.q(t >= 0) else None

    def sign(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = self._sign(t)
        return self.memo[k]

    def _sign(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            return '+' if v > 0 else '-' if v < 0 else 'p'
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = '+'
            for n, x in enumerate(t.children()):
                s = self.sign(x)
                if s is None or (kd == z3.Z3_OP_DIV and n > 0 and s == 'p'):
                    return self.leaf(t)
                r = {'++': '+', '+-': '-', '-+': '-', '--': '+', '+p': 'p', 'p+': 'p', 'pp': 'p'}.get(r + s)
                if r is None:
                    return self.leaf(t)
            return r
        if kd == z3.Z3_OP_ADD:
            ss = [self.sign(x) for x in t.children()]
            if all(s in ('+', 'p') for s in ss):
                return '+' if '+' in ss else 'p'
            if all(s == '-' for s in ss):
                return '-'
        return self.leaf(t)


def nonlinear(e):
    """outermost products and quotients of non-constants"""
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in x.children()) > 1) or (k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1))):
            out.append(x)
        else:
            stack.extend(x.children())
    return out


def leaf_prove(assums, goal, ms, extra):
    nl = nonlinear(goal)
    r = solve.prove(assums, goal, ms if not nl else min(ms, 2500), extra, quick=True)
    if r.status == 'valid' or not nl:
        return r
    r0 = solve.nra(assums, goal)
    if r0.status == 'valid':
        r0.time += r.time
        return r0
    t0 = time.time()
    S = Signs(assums, extra=extra)
    facts, subs = [], []
    for t in nl:
        s = S.sign(t)
        c = fresh('nl', R)
        subs.append((t, c))
        if s:
            facts.append(c > 0 if s == '+' else c < 0 if s == '-' else c >= 0)
    g = z3.substitute(goal, *subs)
    r2 = solve.prove(assums + facts, g, ms, extra, quick=True)
    r2.time += time.time() - t0 + r.time
    return r2 if r2.status == 'valid' else r


def split_prove(assums, goal, conds, ms, extra):
    if not conds:
        return leaf_prove(assums, goal, ms, extra)
    c = conds[0]
    t = 0.0
    r = None
    for v in (True, False):
        a = assums + [c if v else Not(c)]
        g = pick(goal, c, v)
        if not z3.is_false(simplify(g)) and z3.is_true(simplify(g)):
            r = solve.Result('valid', 'simplifier', 0.0)
            continue
        rest = [pick(x, c, v) for x in conds[1:]]
        r = split_prove(a, g, [x for x in rest if not z3.is_true(x) and not z3.is_false(x)], ms, extra)
        t += r.time
        if r.status != 'valid':
            r.time = t
            return r
    r.time = t
    return r


def deep_prove(assums, goal, depth, ms, extra, deadline):
    """split on conditional sub-terms of the goal, outermost first, until none is left"""
    conds = ite_conds(goal, 1)
    if time.time() > deadline:
        return solve.Result('unknown', 'split deadline', 0.0)
    if not conds or depth == 0:
        return leaf_prove(assums, goal, ms, extra)
    c = conds[0]
    r = solve.Result('valid', 'simplifier', 0.0)
    for v in (True, False):
        lit = c if v else Not(c)
        a = assums + split_goal(lit)
        if solve.prove(assums, Not(lit), 300, extra, quick=True).status == 'valid':
            continue
        q = deep_prove(a, pick(goal, c, v), depth - 1, ms, extra, deadline)
        if q.status != 'valid':
            return q
        r = q
    return r


def discharge(obls, ms=8000, workers=8, budget=600):
    """prove all open obligations in forked workers"""
    todo = [i for i, o in enumerate(obls) if o.res is None]
    # identical obligations once
    seen = {}
    uniq = []
    for i in todo:
        o = obls[i]
        if is_true(simplify(o.goal)) if o.assums == [] else False:
            o.res = solve.Result('valid', 'simplifier', 0.0)
            continue
        key = (o.goal.get_id(), tuple(a.get_id() for a in o.assums))
        if key in seen:
            seen[key].append(i)
        else:
            seen[key] = [i]
            uniq.append((key, i))
    t0 = time.time()
    nw = max(1, min(workers, len(uniq)))
    pipes = []
    rd = {}
    for w in range(nw):
        mine = uniq[w::nw]
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            fd = os.fdopen(wr, 'w')
            for key, i in mine:
                if time.time() - t0 > budget:
                    res = ('unknown', 'time budget', 0.0, None)
                else:
                    try:
                        q = prove_obl(obls[i], ms)
                        md = None
                        if q.status != 'valid' and q.model is not None:
                            try:
                                md = {d.name(): str(q.model[d])[:200] for d in q.model.decls() if d.arity() == 0}
                            except Exception:
                                md = None
                        res = (q.status, q.by, q.time, md)
                    except Exception as x:
                        res = ('unknown', 'error %s' % x, 0.0, None)
                fd.write(json.dumps([i, res, solve.STATS]) + '\n')
                fd.flush()
            fd.close()
            os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r) as fd:
            last = None
            for line in fd:
                i, res, stats = json.loads(line)
                rd[i] = res
                last = stats
            if last:
                for k in ('z3_queries', 'z3_time', 'cvc5_queries', 'cvc5_time'):
                    solve.STATS[k] += last[k]
        os.waitpid(pid, 0)
    for key, i in uniq:
        res = rd.get(i, ('unknown', 'worker died', 0.0, None))
        R_ = solve.Result(res[0], res[1], res[2], res[3])
        for j in seen[key]:
            obls[j].res = R_
    return obls


def summary(obls):
    bad = [o for o in obls if o.res.status != 'valid']
    return len(obls), len(obls) - len(bad), bad
