"""check <property> [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def load_props(prop):
    from pyvc import api, loader
    loader.install()
    importlib.import_module('props.' + prop)
    return api


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.worker is not None:
        api = load_props(a.prop)
        api.worker(a.prop, a.worker, a.tier, a.seed, a.out)
        return 0
    if a.replay:
        return replay(a)
    return check(a)


def replay(a):
    api = load_props(a.prop)
    rec = json.load(open(a.replay))
    for h in api.REGISTRY[a.prop]:
        if h.name != rec['harness']:
            continue
        if h.kind == 'prove':
            r, vc = api.run_concrete_once(h, values=rec['violation']['inputs'])
            print(json.dumps(r, indent=1, default=str))
            return 1 if isinstance(r, dict) else 0
        # bounded harnesses are deterministic in the seed
        out = tempfile.mktemp()
        api.worker(a.prop, api.REGISTRY[a.prop].index(h), rec.get('tier', 'quick'), rec.get('seed', 1), out)
        res = json.load(open(out))
        os.unlink(out)
        print(json.dumps(res.get('violation'), indent=1))
        return 1 if res.get('violation') else 0
    print("no such harness")
    return 0


def check(a):
    t0 = time.time()
    api = load_props(a.prop)
    hs = api.REGISTRY.get(a.prop, [])
    known = [k for k in known_findings() if k['property'] == a.prop and k.get('kind') == 'finding']
    env = dict(os.environ)
    env['PYVC_KNOWN'] = json.dumps({a.prop: [k['key'] for k in known]})
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        env[v] = '1'
    tmp = tempfile.mkdtemp(prefix='pyvc_run_')
    env['TMPDIR'] = tmp
    jobs = [(i, h) for i, h in enumerate(hs) if not a.only or a.only in h.name]
    limit = 240 if a.tier == 'quick' else 1200
    overall = t0 + (720 if a.tier == 'quick' else 5400)
    running, results, pending = [], {}, list(jobs)
    ncpu = max(2, min(8, os.cpu_count() or 4))
    try:
        while pending or running:
            while pending and len(running) < ncpu:
                i, h = pending.pop(0)
                out = os.path.join(tmp, f"r{i}.json")
                p = subprocess.Popen([sys.executable, os.path.join(ROOT, 'pyvc', 'runner.py'), a.prop, '--worker', str(i),
                                      '--out', out, '--tier', a.tier, '--seed', str(a.seed)], env=env, cwd=ROOT,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if False else subprocess.DEVNULL,
                                     start_new_session=True)
                running.append((i, h, p, out, time.time()))
            for r in list(running):
                i, h, p, out, st = r
                rc = p.poll()
                late = time.time() - st > limit + h.opts.get('budget', 0) or time.time() > overall
                if rc is None and not late:
                    continue
                if rc is None:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                running.remove(r)
                try:
                    results[i] = json.load(open(out))
                except Exception:
                    results[i] = dict(name=h.name, kind=h.kind, functions=h.functions, violation=None, known={},
                                      error='harness did not finish' if rc is None else f'worker ended with {rc}')
            time.sleep(0.02)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(a, api, hs, results, known, t0)


def report(a, api, hs, results, known, t0):
    prop = a.prop
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations = []
    undecided = []
    obligations = proved = 0
    backends = {}
    solver_s = 0.0
    functions, bfunctions = [], []
    stubs, loops = set(), set()
    evals = distinct = 0
    samples = []
    harness_rows = []
    concrete_runs = 0
    for i in sorted(results):
        r = results[i]
        h = hs[i]
        row = dict(harness=r['name'], kind=r['kind'], functions=h.functions, wall_s=round(r.get('wall', 0), 2))
        if r.get('error'):
            undecided.append(f"{r['name']}: {r['error'][-1200:]}")
            row['error'] = r['error'][-400:]
        s = r.get('sym')
        if s:
            obligations += s['obligations']
            proved += s['proved']
            solver_s += s['solver_s']
            for k, v in s['backends'].items():
                backends[k] = backends.get(k, 0) + v
            stubs |= set(s['stubs'])
            loops |= set(s['loops'])
            row.update(obligations=s['obligations'], discharged=s['proved'], paths=s['paths'], labels=s['labels'],
                       loops_cut=s['loops'], stubs=s['stubs'], not_within_reach=s['unsupported'])
            ok = s['obligations'] > 0 and s['proved'] == s['obligations'] and not s['unsupported'] and s['feasible'] > 0
            row['status'] = 'proved' if ok else 'not proved'
            if ok:
                functions.extend(h.functions)
            else:
                bfunctions.extend(h.functions)
                for u in s['unsupported']:
                    undecided.append(f"{r['name']}: {u}")
                for f in s['failed']:
                    undecided.append(f"{r['name']}: obligation '{f['name']}' {f['status']}")
                if s['obligations'] == 0:
                    undecided.append(f"{r['name']}: no obligation was generated")
        if r.get('conc'):
            concrete_runs += r['conc']['ran']
            row['concrete_runs'] = r['conc']['ran']
        b = r.get('bounded')
        if b:
            evals += b['evaluations']
            distinct += b['distinct']
            samples += b['samples'][:2]
            bfunctions.extend(h.functions)
            row.update(evaluations=b['evaluations'], distinct=b['distinct'], status='bounded')
        if r.get('violation'):
            violations.append((r, r['violation'], False))
        elif s:
            ref = [f for f in s['failed'] if f['status'] == 'refuted' and f['kind'] != 'variant']
            if ref:
                violations.append((r, dict(obligation=ref[0]['name'], label=ref[0]['name'], detail=ref[0]['detail'],
                                           inputs=ref[0]['inputs'],
                                           source='obligation refuted by the verifier; no concrete input was found',
                                           all_failed=s['failed'][:10]), True))
        harness_rows.append(row)
    findings_out = []
    for k in known:
        for i in results:
            if results[i]['kind'] == 'finding' and results[i]['name'] == k['key'] and results[i].get('finding'):
                findings_out.append((k, results[i]['finding']))
            elif k['key'] in (results[i].get('known') or {}):
                findings_out.append((k, results[i]['known'][k['key']]))
    seen = set()
    for k, d in findings_out:
        if k['key'] not in seen:
            seen.add(k['key'])
            print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['what']}")
    meta = json.load(open(os.path.join(ROOT, 'MANIFEST.json'))) if os.path.exists(os.path.join(ROOT, 'MANIFEST.json')) \
        else {'checks': []}
    level = next((c['level'] for c in meta['checks'] if c['property'] == prop), 'proof')
    mod = sys.modules['props.' + prop]
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level=level,
              coverage=dict(
                  obligations=obligations, discharged=proved,
                  checker_cmd=f"./check {prop} --tier {a.tier}",
                  trusted_base=["pyvc: source instrumentation (pyvc/loader.py) and symbolic values (pyvc/core.py)",
                                "CPython 3.12 as the evaluator of the instrumented source", "z3 (python API)",
                                "cvc5 (second back end, only for what z3 leaves open)"],
                  backends=backends, solver_s=round(solver_s, 3),
                  functions_proved=sorted(set(functions)), functions_bounded=sorted(set(bfunctions) - set(functions)),
                  callee_contracts_used=sorted(stubs), loops_with_invariant=sorted(loops),
                  undecided=undecided[:30],
                  contract_runs_on_real_code=concrete_runs,
                  evaluations=evals, distinct_nontrivial=distinct,
                  rule=getattr(mod, 'RULE', 'bounded stand-ins: inputs generated from VERIF_SEED; a case is non-trivial '
                                            'when it reaches the checked operation; distinct by its printed form'),
                  samples=samples[:6] or ['(no bounded stand-in in this check)'],
                  harnesses=harness_rows),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  "floating point arithmetic is treated as real arithmetic in the proved contracts",
                  "integers are mathematical (exact in Python)"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v or a.only:
        for row in harness_rows:
            print(json.dumps({k: v for k, v in row.items() if k not in ('functions',)}, default=str)[:1500])
        for u in dict.fromkeys(undecided):
            print("UNDECIDED", u)
    print(f"{prop}: {proved}/{obligations} obligations discharged, {evals} bounded evaluations, "
          f"{concrete_runs} contract runs, {len(undecided)} undecided, {time.time() - t0:.1f}s")
    if violations:
        replayed = [v for v in violations if not v[2]] or violations
        for n, (r, v, noinput) in enumerate(violations):
            path = os.path.join(rdir, f"{prop}-{n}.json")
            with open(path, 'w') as f:
                json.dump(dict(property=prop, harness=r['name'], tier=a.tier, seed=a.seed, violation=v), f, indent=1, default=str)
            print(f"  {r['name']}: {v.get('obligation')} / {v.get('label')} inputs={str(v.get('inputs'))[:300]}")
            print(f"    {str(v.get('detail'))[-600:]}")
        r, v, noinput = replayed[0]
        n = violations.index(replayed[0])
        print(f"VIOLATION property={prop} replay={os.path.join(rdir, f'{prop}-{n}.json')}"
              + (" no-failing-input-found" if noinput else ""))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2      # the checker itself failed: no verdict about the code
    sys.stdout.flush()
    sys.exit(rc)
