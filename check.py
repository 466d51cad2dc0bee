#!/usr/bin/env python3-vt
"""check.py PROP [--thorough] : decides one property against /repo's current source.

1. deductive part: every contract of contracts/PROP.py is executed symbolically over the function bodies read
   from /repo now; every obligation goes to the ring normaliser / z3 / cvc5.
2. concrete part: the same postconditions are run on the real code with generated inputs (conformance of the
   trusted library models, and search for the failing input behind an obligation that is not discharged)."""
import os, sys, json, time, subprocess, multiprocessing as mp, importlib, tempfile, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
ROOT = os.environ.get('VERIF_REPO', '/repo')

def env():
    e = dict(os.environ); e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='%s:%s/irreptables' % (ROOT, ROOT), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_REPO=ROOT)
    return e

def load(prop):
    f = os.path.join(HERE, 'contracts', prop + '.py')
    return importlib.import_module('contracts.' + prop) if os.path.exists(f) else None

def job(prop, i, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from vc import spec
        k = load(prop).contracts()[i]
        R = spec.run_contract(k.name, k.fn, contracts=k.callees, overrides=k.overrides, pv_timeout=k.timeout, max_paths=k.max_paths)
        q.send(dict(name=R.name, paths=R.paths, infeasible=R.infeasible, errors=R.errors, tainted=[str(t) for t in R.tainted], vacuous=R.vacuous, missing=R.missing,
            time=R.time, called={str(a): b for a, b in R.called.items()}, results=[dict(name=r.name, status=r.status, backend=r.backend, time=r.time, instances=r.instances, why=str(r.why)[:2000]) for r in R.results]))
    except MemoryError: q.send(dict(name='', error='memory limit'))
    except BaseException as e: q.send(dict(name='', error='%s: %s' % (type(e).__name__, e)))

def deductive(prop, limit, workers):
    m = load(prop)
    if m is None: return [], []
    ks = m.contracts(); out = [None] * len(ks); running = {}; todo = list(range(len(ks)))
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop(0); a, b = mp.Pipe(False); p = mp.Process(target=job, args=(prop, i, b)); p.start(); b.close(); running[i] = (p, a, time.time())
        for i, (p, a, t) in list(running.items()):
            r = None
            if a.poll(0.05):
                try: r = a.recv()
                except EOFError: r = dict(name='', error='verifier process ended')
            elif not p.is_alive(): r = dict(name='', error='verifier process ended')
            elif time.time() - t > limit: r = dict(name='', error='time limit of %d s' % limit)
            if r is not None:
                if p.is_alive(): p.kill() if 'error' in r else None
                p.join(5); a.close(); del running[i]; r['contract'] = ks[i].name; r['funcs'] = ks[i].funcs; out[i] = r
    return out, ks

def concrete(prop, seed, tier, budget):
    if not os.path.exists(os.path.join(HERE, 'harness', 'h_%s.py' % prop)): return None
    f = tempfile.mktemp(suffix='.json')
    return f, subprocess.Popen([PY, '-B', os.path.join(HERE, 'harness', 'run.py'), prop, str(seed), tier, str(budget), f], cwd=HERE, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
def collect(c, limit):
    if c is None: return dict(evaluations=0, distinct=0, cases={}, failures=[], missing=[], errors=[], samples=[], absent=True)
    f, p = c
    try: _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); return dict(evaluations=0, distinct=0, cases={}, failures=[], missing=[], errors=['time limit'], samples=[])
    try: r = json.load(open(f)); os.unlink(f); return r
    except Exception: return dict(evaluations=0, distinct=0, cases={}, failures=[], missing=[], errors=['harness failed: ' + err[-1500:]], samples=[])

def known(prop):
    """[(case, message part, text)] findings recorded and not repaired"""
    out = []
    f = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(f):
        for d in json.load(open(f))['findings']:
            if d['property'] == prop: out.append(d)
    return out

def main():
    prop = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    os.chdir(HERE); sys.setrecursionlimit(20000)
    m = load(prop)
    hb = (25 if tier == 'quick' else 240)
    c = concrete(prop, seed, tier, hb)
    res, ks = deductive(prop, 400 if tier == 'quick' else 800, 6)
    h = collect(c, 600)
    # ---- evaluate the deductive part
    fails, undec, obl, dis, backends, stime = [], [], 0, 0, {}, 0.0
    for r in res:
        w = r['contract']
        if r.get('error'): undec.append('%s: %s' % (w, r['error'])); continue
        if r['missing']: undec.append('%s: function not found: %s' % (w, r['missing']))
        for e in r['errors']: undec.append('%s: %s' % (w, e))
        # values that are not summarised are arbitrary values: what is proved holds, what is not proved is undecided
        if r['tainted'] and all(x['status'] == 'proved' for x in r['results']): r['tainted'] = []
        for e in r['tainted']: undec.append('%s: outside the modelled subset: %s' % (w, e))
        for e in r['vacuous']: undec.append('%s: precondition or every path infeasible' % w)
        bad = bool(r['missing'] or r['errors'] or r['tainted'] or r['vacuous'])
        for x in r['results']:
            obl += 1; stime += x['time']
            if x['status'] == 'proved': dis += 1; backends[x['backend']] = backends.get(x['backend'], 0) + 1
            elif bad: undec.append('%s: %s: %s' % (w, x['name'], x['status']))
            else: fails.append((w, x))
    kn = known(prop); failures = []
    for f in h['failures']:
        d = next((d for d in kn if d['case'] == f['case'] and d.get('match', '') in f['message']), None)
        if d is None: failures.append(f)
    for d in kn: print('KNOWN-FINDING: property=%s %s' % (prop, d['text']))
    extra = None
    if fails and not failures:       # look harder for an input behind the failed obligation
        for s in range(1, 4):
            e = collect(concrete(prop, seed + 1000 * s, 'thorough', 50), 150)
            failures = [f for f in e['failures'] if not any(d['case'] == f['case'] and d.get('match', '') in f['message'] for d in kn)]
            h['evaluations'] += e['evaluations']
            if failures: break
    funcs = sorted({f for k in ks for f in k.funcs}); called = sorted({f for r in res for f in r.get('called', {})})
    proved = bool(res) and not fails and not undec
    level = (getattr(m, 'LEVEL', 'proof') if not undec else 'exploration') if m else 'exploration'
    scope = getattr(m, 'SCOPE', '') if m else ''
    cov = dict(obligations=obl, discharged=dis, evaluations=h['evaluations'], distinct_nontrivial=h['distinct'],
        rule='concrete contract runs on the real code: random inputs from the generators of harness/h_%s.py; a run is counted as distinct and non-trivial by the key its generator returns (sizes, operation, spinor mode, exercised branch); trivial runs return none' % prop,
        samples=h['samples'] or [dict(note='no sample')],
        checker_cmd='python3-vt check.py %s%s' % (prop, ' --thorough' if tier == 'thorough' else ''),
        trusted_base=['symbolic executor and theory of arrays in /verif/vc (documented semantics of Python and numpy, real numbers for floats)', 'z3 5.3.2, cvc5 1.4.2', 'ring normaliser /verif/vc/ring.py'] + list(getattr(m, 'TRUSTED', [])),
        scope=scope, functions_under_contract=funcs, functions_executed=called,
        backends=backends, solver_seconds=round(stime, 2),
        contracts=[dict(contract=r['contract'], paths=r.get('paths'), infeasible_paths=r.get('infeasible'), obligations=len(r.get('results', [])), discharged=sum(1 for x in r.get('results', []) if x['status'] == 'proved'), seconds=round(r.get('time', 0), 2)) for r in res],
        failed_obligations=['%s: %s (%s)' % (w, x['name'], x['status']) for w, x in fails],
        undecided=undec[:40], deductive_verdict=('all obligations discharged' if proved else 'failed' if fails else 'not decided: bounded check only' if res else 'none (bounded check only)'),
        bounded_part=dict(cases=h['cases'], missing=h['missing'], errors=h['errors']), assumptions=list(getattr(m, 'ASSUMPTIONS', [])))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    if level not in ('proof',): cov.pop('obligations') if not res else None
    os.makedirs('evidence', exist_ok=True)
    json.dump(ev, open('evidence/%s.json' % prop, 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%s), %d concrete runs, %.1f s' % (prop, dis, obl, ', '.join('%s %d' % x for x in sorted(backends.items())), h['evaluations'], time.time() - t0))
    for u in undec[:10]: print('  undecided:', u[:300])
    for e in h['errors'] + h['missing']: print('  harness:', e[:600])
    if failures or fails:
        os.makedirs('evidence/replay', exist_ok=True)
        rp = 'evidence/replay/%s.json' % prop
        d = dict(property=prop, failed_obligations=[dict(contract=w, obligation=x['name'], status=x['status'], backend=x['backend'], verifier_output=x['why']) for w, x in fails])
        if failures:
            d['failing_input'] = failures[0]; d['replay_cmd'] = '%s -B harness/run.py --replay %s' % (PY, rp)
            print('  failing input: %s[%s]: %s' % (failures[0]['case'], failures[0]['index'], failures[0]['message'][:500]))
        for w, x in fails[:10]: print('  failed obligation: %s: %s (%s)' % (w, x['name'], x['status']))
        json.dump(d, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if failures else ' no-failing-input-found'))
        sys.exit(1)
    if (h.get('absent') or h['errors'] or h['missing']) and (undec or not res):
        # neither side could decide anything
        if h['errors']: print('no answer'); sys.exit(2)
    sys.exit(0)

if __name__ == '__main__': main()
