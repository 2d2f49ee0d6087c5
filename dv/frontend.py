"""Mechanical extraction: clang's JSON AST of /repo's sources, re-read on every run.

Nothing is copied by hand: every function body the verifier executes is the tree clang built from the current
working tree of /repo, with the project's own headers.
"""
import json, os, subprocess, concurrent.futures as cf

REPO = os.environ.get('LGAR_REPO', '/repo')
UNITS = ['src/lgar.cxx', 'src/bmi_lgar.cxx', 'src/linked_list.cxx', 'src/soil_funcs.cxx', 'src/aet.cxx',
         'src/util_funcs.cxx', 'giuh/giuh.c']


class ExtractionError(Exception):
    pass


def _dump(rel):
    path = os.path.join(REPO, rel)
    if rel.endswith('.c'):
        cmd = ['clang', '-std=c99']
    else:
        cmd = ['clang++', '-std=c++14']
    cmd += ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-I' + os.path.join(REPO, 'include'),
            '-I' + os.path.join(REPO, 'bmi'), path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (rel, p.stderr.decode(errors='replace')[:2000]))
    return json.loads(p.stdout)


DROP = ('loc', 'mangledName', 'isUsed', 'isReferenced', 'previousDecl', 'parentDeclContextId', 'foundReferencedDecl',
        'hadMultipleCandidates', 'definitionData', 'bases')


def _slim(n):
    """keep only what the executor reads"""
    out = {}
    for k, v in n.items():
        if k in DROP:
            continue
        if k == 'inner':
            # clang prints absent children ("{}") for for-loops without init etc.; they matter positionally
            if n.get('kind') in ('ForStmt', 'IfStmt', 'WhileStmt', 'CXXForRangeStmt'):
                out[k] = [_slim(c) if c else None for c in v]
            else:
                out[k] = [_slim(c) for c in v if c]
        elif k == 'range':
            b = v.get('begin', {})
            o = b.get('offset')
            if o is None:
                o = b.get('expansionLoc', {}).get('offset')
            out['off'] = o
        elif k == 'referencedDecl':
            out[k] = {x: v[x] for x in ('id', 'kind', 'name', 'type') if x in v}
        else:
            out[k] = v
    return out


def _unit(rel):
    tree = _dump(rel)
    funcs, records, gvars, statics = [], {}, [], {}

    def top(n, inns):
        k = n.get('kind')
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            if inns:
                return
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                s = _slim(n)
                s['unit'] = rel
                funcs.append(s)
        elif k == 'CXXRecordDecl' or k == 'RecordDecl':
            if inns:
                return
            if n.get('completeDefinition'):
                fields = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        init = [x for x in c.get('inner', []) if 'Comment' not in x.get('kind', '')]
                        fields.append({'name': c.get('name'), 'type': c['type']['qualType'], 'id': c['id'],
                                       'init': _slim(init[0]) if init else None})
                    elif c.get('kind') == 'VarDecl' and c.get('inner') and n.get('name'):
                        init = [x for x in c['inner'] if 'Comment' not in x.get('kind', '')]
                        if init:
                            statics[(n['name'], c['name'])] = _slim(init[-1])
                    elif c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and \
                            any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', [])):
                        s = _slim(c)
                        s['unit'] = rel
                        s['record'] = n.get('name')
                        funcs.append(s)
                    elif c.get('kind') in ('CXXRecordDecl', 'RecordDecl'):
                        top(c, inns)
                if n.get('name'):
                    records[n['name']] = fields
        elif k == 'VarDecl':
            if not inns:
                gvars.append(_slim(n))
        elif k == 'LinkageSpecDecl':
            for c in n.get('inner', []):
                top(c, inns)
    for n in tree.get('inner', []):
        top(n, False)
    return rel, funcs, records, gvars, statics


class Program:
    def __init__(self, units=None):
        self.units = units or UNITS
        self.funcs = {}
        self.records = {}
        self.gvars = {}
        self.statics = {}
        self.text = {}
        units = [u for u in self.units if os.path.exists(os.path.join(REPO, u))]
        with cf.ProcessPoolExecutor(max_workers=min(8, len(units))) as ex:
            res = list(ex.map(_unit, units))
        for rel, funcs, records, gvars, statics in res:
            self.statics.update(statics)
            for n, f in records.items():
                self.records.setdefault(n, f)
            for f in funcs:
                self.funcs.setdefault(f['name'], []).append(f)
            for g in gvars:
                self.gvars[g.get('name')] = g
            with open(os.path.join(REPO, rel), 'rb') as fh:
                self.text[rel] = fh.read()

    def line(self, unit, off):
        if off is None or unit not in self.text:
            return 0
        return self.text[unit].count(b'\n', 0, off) + 1

    def func(self, name, unit=None):
        c = self.funcs.get(name, [])
        if unit:
            c = [f for f in c if f['unit'] == unit] or c
        if not c:
            raise ExtractionError('function %s not found in the sources' % name)
        return c[0]


if __name__ == '__main__':
    import sys, time, collections
    t = time.time()
    P = Program()
    print('%.1fs' % (time.time() - t), {k: len(v) for k, v in P.funcs.items()})
    cnt = collections.Counter()

    def walk(n):
        if n is None: return
        cnt[n.get('kind')] += 1
        for c in n.get('inner', []):
            walk(c)
    for fs in P.funcs.values():
        for f in fs: walk(f)
    print(cnt)
    print({k: [(f['name'], f['type']) for f in v] for k, v in P.records.items() if 'lgar' in k or 'model' in k or 'wett' in k or 'Bmi' in k})
