#!/opt/veriftools/pyvenv/bin/python3
"""Entry point of the checks:  run.py check <property> [quick|thorough]   |   run.py list   |   run.py setup

Explores every scenario configuration of the property in parallel worker processes, aggregates the solver's
verdicts, writes evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation (reproduced on the real code), 2 inconclusive or broken check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/veriftools/pyvenv/bin/python3'
JOBS = int(os.environ.get('SYMDEX_JOBS', '8'))
BUDGET = {'quick': 780, 'thorough': 7200}


def known_findings():
    """known-findings.txt: 'known: property=<id> label=<label> scenario=<name> <what>' / 'fixed: ...'"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(w.split('=', 1) for w in line.split()[1:4])
                out.append((f['property'], f['label'], f['scenario'], line.split(None, 4)[4]))
    return out


def tasks_for(prop, tier, scs):
    out = []
    for sc in scs.values():
        if prop not in sc.prop:
            continue
        if sc.tier == 'thorough' and tier != 'thorough':
            continue
        for i, cfg in enumerate(sc.configs):
            if cfg.get('thorough') and tier != 'thorough':
                continue
            out.append((sc, cfg))
    out.sort(key=lambda t: -t[0].weight)
    return out


def run_tasks(tasks, prop, tier, tmp, known):
    deadline = time.time() + BUDGET[tier]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_TIER=tier, TMPDIR=tmp)
    env.setdefault('VERIF_SEED', '1')
    queue, running, results = list(enumerate(tasks)), [], []
    stop = False
    while queue or running:
        while queue and len(running) < JOBS and not stop:
            i, (sc, cfg) = queue.pop(0)
            out = os.path.join(tmp, '%d.json' % i)
            err = open(os.path.join(tmp, '%d.err' % i), 'w')
            kl = [k[1] for k in known if k[0] == prop and k[2] == sc.name]
            p = subprocess.Popen([PY, os.path.join(HERE, 'symdex', 'worker.py'), sc.name, json.dumps(cfg), out,
                                  str(deadline), json.dumps(kl)], stdout=err, stderr=err, env=env,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            running.append((p, i, sc, cfg, out, err.name))
        if stop and not running:
            break
        time.sleep(0.05)
        for t in list(running):
            p, i, sc, cfg, out, err = t
            if p.poll() is None:
                if time.time() > deadline + 60 or stop:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    if stop:
                        running.remove(t)
                        continue
                else:
                    continue
            running.remove(t)
            r = None
            if os.path.exists(out):
                try:
                    r = json.load(open(out))
                except ValueError:
                    pass
            if r is None:
                r = {'scenario': sc.name, 'config': cfg, 'error': 'worker died (%s): %s' % (
                    p.returncode, open(err).read()[-1500:])}
            results.append(r)
            if r.get('violations'):
                stop = True     # one reproduced counterexample decides the check
        if stop and queue:
            queue = []
    return results


def check(prop, tier):
    t0 = time.time()
    from symdex import registry
    scs = registry.load()
    tasks = tasks_for(prop, tier, scs)
    if not tasks:
        print('no scenario for ' + prop)
        return 2
    known = known_findings()
    tmp = tempfile.mkdtemp(prefix='symdex-')
    try:
        results = run_tasks(tasks, prop, tier, tmp, known)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    violations, problems, known_hits = [], [], {}
    tot = {}
    stats = {}
    functions, samples, per, bounds, reach = set(), [], [], set(), []
    validated = 0
    for r in results:
        for v in r.get('violations', ()):
            violations.append((r['scenario'], r['config'], v))
        for lab, v in (r.get('known') or {}).items():
            known_hits[(r['scenario'], lab)] = v
        tag = '%s%s' % (r['scenario'], json.dumps(r['config']) if r['config'] else '')
        if r.get('error'):
            problems.append('%s: %s' % (tag, r['error']))
        if r.get('n_inconclusive'):
            problems.append('%s: %d inconclusive, e.g. %s' % (tag, r['n_inconclusive'], json.dumps(r['inconclusive'][0])[:1500]))
        if r.get('n_mismatch'):
            problems.append('%s: encoding disagrees with the real runtime: %s' % (tag, json.dumps(r['mismatch'][0])[:1500]))
        if 'counts' in r and not r.get('violations'):
            if r['missing_reach']:
                problems.append('%s: vacuous, never reached %s' % (tag, r['missing_reach']))
            if not r['counts']['checks']:
                problems.append('%s: vacuous, no assertion evaluated' % tag)
        for k, v in r.get('counts', {}).items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r.get('stats', {}).items():
            stats[k] = round(stats.get(k, 0) + v, 3)
        functions.update(r.get('functions', ()))
        samples += r.get('samples', ())[:2]
        validated += r.get('validated', 0)
        reach += ['%s: %s' % (tag, l) for l in r.get('reached', ())]
        b = scs[r['scenario']].bound
        if b:
            bounds.add(b)
        per.append({'scenario': tag, 'paths': r.get('counts', {}).get('paths'), 'assertions': r.get('labels'),
                    'wall_s': r.get('wall_s')})
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = None
    if violations:
        sc, cfg, v = violations[0]
        replay = os.path.join(ev, 'replay-%s.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'scenario': sc, 'config': cfg, 'case': v['case'], 'label': v['label'],
                       'detail': v['detail'], 'observed': v['obs'],
                       'replay_with': '/opt/venv/bin/python %s/symdex/replay.py %s' % (HERE, replay)}, f, indent=1)
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'explanation': 'states = symbolic execution paths of the real code (each stands for every concrete input '
                           'satisfying its path condition); transitions = contract deployments, transactions and '
                           'queries executed symbolically; obligations = assertions decided by the solver over all '
                           'values of a path (discharged = unsat negation)',
            'states': tot.get('paths', 0), 'transitions': tot.get('calls', 0),
            'traces_validated_against_impl': validated,
            'obligations': tot.get('checks', 0), 'discharged': tot.get('discharged', 0),
            'constant_obligations': tot.get('trivial', 0),
            'infeasible_or_assumed_away_paths': tot.get('pruned', 0),
            'solver': stats, 'functions_encoded': sorted(functions), 'bounds': sorted(bounds),
            'reachability_witnesses': reach, 'scenarios': per,
            'inconclusive': problems, 'samples': samples[:6] or [{'note': 'no sample'}],
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    with open(os.path.join(ev, '%s.json' % prop), 'w') as f:
        json.dump(doc, f, indent=1)
    print('%s [%s]: %d scenario configurations, %d paths, %d/%d assertions discharged, %d solver queries (%.1f s), '
          '%d paths validated on the real runtime, %.1f s' % (
              prop, tier, len(results), tot.get('paths', 0), tot.get('discharged', 0), tot.get('checks', 0),
              stats.get('queries', 0), stats.get('solver_s', 0), validated, time.time() - t0))
    for (s, lab), v in known_hits.items():
        what = next(k[3] for k in known if k[0] == prop and k[1] == lab and k[2] == s)
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if violations:
        sc, cfg, v = violations[0]
        print('counterexample in %s %s: %s' % (sc, json.dumps(cfg), v['detail'][:600]))
        print(json.dumps(v['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE ' + p)
        return 2
    return 0


ASSUMPTIONS = [
    'one transaction at a time, atomic (the ICON platform executes transactions sequentially and reverts failed ones)',
    'iconservice 1.1.2 decorators, IconScoreBase, InternalCall, InterfaceScore, IcxEngine and container classes are '
    'the real code; the key-value store below them, step accounting, event byte encoding and the deploy pipeline '
    'are replaced by the in-memory layer in symdex/world.py',
    'addresses are an infinite ordered sort (contracts / externally owned / zero); strings are only compared',
    'unknown contracts accept or reject each call and do not call back, except where a scenario installs a '
    're-entering contract',
]


def main():
    if sys.argv[1] == 'check':
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(sys.argv[2], tier if tier in BUDGET else 'quick'))
    if sys.argv[1] == 'list':
        from symdex import registry
        by = {}
        for s in registry.load().values():
            for p in s.prop:
                by.setdefault(p, []).append('%s x%d' % (s.name, len(s.configs)))
        for p in sorted(by):
            print(p, by[p])
    if sys.argv[1] == 'setup':
        import z3
        from symdex import registry
        registry.load()
        r = subprocess.run(['/opt/venv/bin/python', '-c', 'import iconservice'], capture_output=True)
        print('z3 %s, iconservice import %s' % (z3.get_version_string(), 'ok' if r.returncode == 0 else r.stderr))
        sys.exit(r.returncode)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        import traceback
        print('INCONCLUSIVE the check itself failed: ' + traceback.format_exc()[-3000:])
        sys.exit(2)
