"""Check driver: python3-vt dv/run.py C06 [quick|thorough]"""
import sys, os, json, time, signal, subprocess, traceback, warnings
warnings.simplefilter("ignore", DeprecationWarning)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend, solve, verify, sym
from sym import Unsupported
import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


def run_unit(prog, unit, workers, deadline, ms):
    """in a forked child: returns a plain dict"""
    name, fn = unit
    t0 = time.time()
    d = {'unit': name, 'error': None, 'obls': [], 'loops': [], 'fn': getattr(fn, 'target', None)}
    try:
        ex = fn(prog)
        d['gen_s'] = time.time() - t0
        verify.discharge(ex.obls, ms=ms, workers=workers, budget=max(20, deadline - time.time()))
        for o in ex.obls:
            r = o.res
            x = {'label': o.label, 'kind': o.kind, 'fn': o.fn, 'line': o.line, 'status': r.status, 'by': r.by, 't': round(r.time, 3)}
            if r.status != 'valid':
                x['model'] = r.model
                x['goal'] = str(o.goal)[:1500]
            d['obls'].append(x)
        d['loops'] = ex.loops
        d['inlined'] = sorted(ex.inlined)
        d['contracts'] = sorted(getattr(ex, 'used', set()))
        d['assumed'] = sorted(ex.assumed)
        d['target'] = getattr(ex, 'target', None)
        if not ex.obls:
            d['error'] = 'no obligations generated'
    except (Unsupported, frontend.ExtractionError) as x:
        d['error'] = '%s: %s' % (type(x).__name__, x)
    except Exception as x:
        d['error'] = 'internal %s: %s' % (type(x).__name__, x)
        d['trace'] = traceback.format_exc()
    d['wall'] = time.time() - t0
    d['stats'] = solve.STATS
    return d


def run_units(prog, units, deadline, ms, par=4):
    todo = list(units)
    live = {}
    out = []
    workers = max(2, 8 // max(1, min(par, len(todo))))
    while todo or live:
        while todo and len(live) < par:
            u = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgrp()
                d = run_unit(prog, u, workers, deadline, ms)
                with os.fdopen(w, 'w') as f:
                    json.dump(d, f)
                os._exit(0)
            os.close(w)
            live[r] = (pid, u, b'')
        import select
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 16)
            pid, u, buf = live[r]
            if chunk:
                live[r] = (pid, u, buf + chunk)
            else:
                os.close(r)
                del live[r]
                os.waitpid(pid, 0)
                try:
                    out.append(json.loads(buf))
                except ValueError:
                    out.append({'unit': u[0], 'error': 'verifier process died', 'obls': [], 'loops': [], 'stats': {}, 'wall': 0})
        if time.time() > deadline + 30:
            for r, (pid, u, buf) in live.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                out.append({'unit': u[0], 'error': 'time budget exhausted', 'obls': [], 'loops': [], 'stats': {}, 'wall': 0})
            live = {}
            for u in todo:
                out.append({'unit': u[0], 'error': 'time budget exhausted', 'obls': [], 'loops': [], 'stats': {}, 'wall': 0})
            todo = []
    order = {u[0]: i for i, u in enumerate(units)}
    out.sort(key=lambda d: order[d['unit']])
    return out


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    budget = 520 if tier == 'quick' else 2400
    ms = 8000 if tier == 'quick' else 30000
    res, perr = [], None
    hb = harness_start()
    try:
        prog = frontend.Program()
        res = run_units(prog, P['units'], t0 + budget, ms)
    except frontend.ExtractionError as x:
        perr = 'extraction: %s' % x
    def look():
        return ([(d, o) for d in res for o in d['obls'] if o['status'] != 'valid'],
                [(d['unit'], d['error']) for d in res if d['error']] + ([('extraction', perr)] if perr else []))
    failed, errors = look()
    # --------------------------------------------------------------- replay / bounded stand-in on the real code
    hres = None
    exe = harness_finish(hb)
    if P.get('harness', True):
        n = P.get('cases', 3000 if pid in ('C01', 'C02', 'C13', 'C16', 'C17', 'C18', 'C19', 'C21') else 60000)
        if failed or errors:
            n *= 4
        if tier == 'thorough':
            n *= 20
        hres = harness_run(exe, pid, seed, n, P.get('hsecs', 40) * (1 if tier == 'quick' else 10) * (3 if failed or errors else 1))
    if failed and not (hres and hres.get('fail')):
        # open obligations and no failing input: give the provers more time and another seed before reporting
        left = (760 if tier == 'quick' else 3000) - (time.time() - t0)
        again = [u for u in P['units'] if any(d['unit'] == u[0] for d, _ in failed)]
        if left > 60:
            solve.SCALE, solve.SEED = 3.0, 11
            second = {d['unit']: d for d in run_units(prog, again, time.time() + left - 30, ms)}
            nbad = lambda d: sum(o['status'] != 'valid' for o in d['obls'])
            res = [second[d['unit']] if d['unit'] in second and not second[d['unit']]['error'] and nbad(second[d['unit']]) < nbad(d) else d for d in res]
            failed, errors = look()
    obls = [o for d in res for o in d['obls']]
    viol = []
    if hres and hres.get('fail'):
        viol.append('input')
    if failed:
        viol.append('obligation')
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rp = None
    if viol:
        rp = os.path.join(EVID, 'replay_%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, P['title']))
            for d, o in failed:
                f.write('FAILED OBLIGATION  %s\n  function %s, line %s, kind %s, unit %s\n  solver answer: %s (%s)\n  goal: %s\n' % (
                    o['label'], o['fn'], o['line'], o['kind'], d['unit'], o['status'], o['by'], o.get('goal')))
                if o.get('model'):
                    f.write('  candidate counterexample (verifier model): %s\n' % json.dumps(o['model'])[:4000])
            for u, e in errors:
                f.write('NOT VERIFIED %s: %s\n' % (u, e))
            if hres:
                f.write('\nreplay on the real code: %s\n%s\n' % (hres.get('cmd'), hres.get('out', '')[-6000:]))
    evidence(pid, tier, seed, P, res, obls, failed, errors, hres, time.time() - t0, len(viol))
    for d in res:
        if d.get('trace') and os.environ.get('DV_TRACE'):
            print(d['trace'], file=sys.stderr)
    print('%s: %d obligations over %d units, %d discharged, %d not discharged, %d units out of reach; replay harness: %s; %.1f s' % (
        pid, len(obls), len(res), len(obls) - len(failed), len(failed), len(errors),
        'not run' if not hres else '%s cases, %s' % (hres.get('cases'), 'FAILING INPUT' if hres.get('fail') else hres.get('note', 'no failing input')), time.time() - t0))
    for d, o in failed[:20]:
        print('  failed obligation: %s (%s:%s, %s, %s)' % (o['label'], o['fn'], o['line'], o['kind'], d['unit']))
    for u, e in errors:
        print('  not verified: %s: %s' % (u, e))
    if viol:
        if 'input' in viol:
            print('  failing input: %s' % ([l for l in hres.get('out', '').split('\n') if l.startswith('FAIL ')] or ['?'])[-1][:300])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    return 0


def evidence(pid, tier, seed, P, res, obls, failed, errors, hres, wall, nviol):
    by = {}
    for o in obls:
        if o['status'] == 'valid':
            b = o['by'].split(' (')[0]
            by[b] = by.get(b, 0) + 1
    st = lambda k: round(sum(d['stats'].get(k, 0) for d in res if d.get('stats')), 2)
    kinds = {}
    for o in obls:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    cov = {
        'obligations': len(obls), 'discharged': len(obls) - len(failed),
        'checker_cmd': 'python3-vt /verif/dv/run.py %s %s' % (pid, tier),
        'trusted_base': props.TRUSTED + P.get('trusted', []),
        'functions_under_contract': sorted({d.get('target') for d in res if d.get('target')}),
        'inlined_helpers': sorted({x for d in res for x in d.get('inlined', [])}),
        'obligations_by_kind': kinds, 'discharged_by_backend': by,
        'solver_time_s': {'z3': st('z3_time'), 'cvc5': st('cvc5_time')}, 'solver_queries': {'z3': st('z3_queries'), 'cvc5': st('cvc5_queries')},
        'loop_invariants': [l for d in res for l in d['loops']],
        'units': [{'unit': d['unit'], 'obligations': len(d['obls']), 'wall_s': round(d.get('wall', 0), 2), 'error': d['error']} for d in res],
        'failed_obligations': [o['label'] for d, o in failed], 'not_verified': ['%s: %s' % e for e in errors],
        'samples': [o['label'] for o in obls if o['kind'] in ('post', 'lemma')][:12],
    }
    if hres:
        cov['bounded_replay_on_real_code'] = {'cases': hres.get('cases'), 'seed': seed, 'failing_input': bool(hres.get('fail')), 'note': hres.get('note'),
                                              'label': 'bounded: random inputs run through the compiled code, never counted as proved',
                                              'stands_in_for': P.get('bounded', [])}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': nviol}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


# ------------------------------------------------------------------ harness
def harness_start():
    import tempfile
    d = tempfile.mkdtemp(prefix='lgarh')
    p = subprocess.Popen(['bash', os.path.join(HERE, 'harness', 'build.sh'), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return d, p


def harness_finish(hb):
    d, p = hb
    out, _ = p.communicate(timeout=300)
    exe = os.path.join(d, 'harness')
    return (d, exe if p.returncode == 0 and os.path.exists(exe) else None, out.decode(errors='replace'))


def harness_run(h, pid, seed, n, secs):
    import shutil
    d, exe, blog = h
    try:
        if exe is None:
            return {'cases': 0, 'note': 'harness does not build', 'out': blog}
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='halt_on_error=0')
        cmd = [exe, pid, str(seed), str(n), str(secs)]
        try:
            o = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 2 + 120, env=env)
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b'').decode(errors='replace')
            return {'cases': 0, 'note': 'timeout', 'out': out, 'cmd': ' '.join(cmd), 'fail': 'HANG' in out}
        out = o.stdout.decode(errors='replace')
        cases = 0
        for l in out.split('\n'):
            if l.startswith('CASES '):
                cases = int(l.split()[1])
        fail = any(l.startswith('FAIL ') for l in out.split('\n'))
        note = 'no failing input' if o.returncode == 0 else 'exit %d' % o.returncode
        return {'cases': cases, 'fail': fail, 'out': out[-12000:], 'cmd': 'harness %s %d %d' % (pid, seed, n), 'note': note}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
