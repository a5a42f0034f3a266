"""Explores one scenario configuration symbolically; prints one JSON result on stdout's last line."""
import json
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symdex import boot  # noqa: E402
boot.setup_path()
import z3  # noqa: E402
from symdex import core as C  # noqa: E402
boot.hook_builtins()

CONCRETE_PY = '/opt/venv/bin/python'


class Replayer:
    def __init__(self, module):
        self.module = module
        self.p = None
        self.n = 0
        self.wall = 0.0

    def run(self, scenario, config, case):
        if self.p is None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', SYMDEX_MODULES=self.module, PYTHONHASHSEED='0')
            self.p = subprocess.Popen([CONCRETE_PY, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                                                 'replay.py'), '--serve'],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        t = time.time()
        self.p.stdin.write(json.dumps({'scenario': scenario, 'config': config, 'case': case}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        self.wall += time.time() - t
        self.n += 1
        if not line:
            self.p = None
            return {'status': 'error', 'detail': 'replay process died', 'obs': [], 'reached': [], 'checks': []}
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


class Stop(C.EngineSignal):
    pass


class Runner:
    def __init__(self, sc, config, seed, deadline, tier):
        self.z3 = z3
        self.sc, self.config, self.tier = sc, config, tier
        self.engine = C.Engine(seed=seed, max_paths=sc.max_paths, deadline=deadline)
        self.rep = Replayer(sc.fn.__module__.rsplit('.', 1)[-1])
        self.counts = {'paths': 0, 'pruned': 0, 'checks': 0, 'trivial': 0, 'discharged': 0, 'calls': 0}
        self.labels = {}
        self.reached = {}
        self.violations = []
        self.stuck, self.followed, self.blocked = [], set(), {}
        self.touched = set()
        self.ends = []
        self.inconclusive = []
        self.validated = 0
        self.mismatch = []
        self.functions = set()
        self.samples = []
        self.validate_every = 1
        self.max_validate = 25 if tier == 'quick' else 120
        self.known = set()
        self.known_hit = {}

    # -- callbacks from the environment
    def on_check(self, env, c, label, detail):
        self.counts['checks'] += 1
        L = self.labels.setdefault(label, [0, 0])
        L[0] += 1
        path = env.path
        if c is True or (type(c) is int and c):
            self.counts['trivial'] += 1
            self.counts['discharged'] += 1
            L[1] += 1
            return
        extra = [] if (c is False or c is None or type(c) is int) else [z3.Not(C.bexpr(c))]
        res, val = path.decide(extra, nice=self.nice(env))
        if res == 'unsat':
            self.counts['discharged'] += 1
            L[1] += 1
            if not extra:
                raise C.PathPruned()
            env.assume(c)
            return
        if res == 'unknown':
            self.inconclusive.append({'label': label, 'why': 'solver gave up'})
            if not extra:
                raise C.PathPruned()
            env.assume(c)
            return
        self.handle_violation(env, extra, label, detail, val)
        if not extra:
            raise C.PathPruned()
        env.assume(c)

    def nice(self, env, k=0):
        """Preferences for counterexamples: amounts large enough for rounding not to hide an effect."""
        out = [C.bexpr(e) for e in env.hints[k % len(env.hints)]] if env.hints else []
        for n, i in env.ints.items():
            a = env.path.atoms[i]
            if (a.hi is None or a.hi > 10 ** 20) and (a.lo is None or a.lo >= 0):
                out.append(a.var >= 10 ** 12)
                out.append(a.var <= 10 ** 21)
        return out[:12]

    def handle_violation(self, env, extra, label, detail, val):
        path = env.path
        blocked = []
        last = None
        for tries in range(10):
            case = env.case(val)
            r = self.rep.run(self.sc.name, self.config, case)
            last = {'label': label, 'case': case, 'status': r['status'], 'detail': r['detail'][-600:]}
            if r['status'] == 'failed':
                self.report(r, case)
                return
            for repair in env.repairs:
                # inputs for which the real helpers give what the solver chose for them
                ints = repair(lambda v: v._p.eval(lambda a: val['atoms'][a]))
                if ints:
                    c2 = dict(case, ints=dict(case['ints'], **{k: str(v) for k, v in ints.items()}))
                    r = self.rep.run(self.sc.name, self.config, c2)
                    if r['status'] == 'failed':
                        self.report(r, c2)
                        return
            # a stand-in for an exact real quantity: give it its true value and ask for the remaining inputs again
            ghosts = env.ghosts + [(v, (C.mk(n), C.mk(d)), C.true_rounding)
                                   for (n, d), v in getattr(path, 'floats', {}).items()]
            if ghosts and tries % 2 == 0:
                truth = []
                for ghost, deps, fn in ghosts:
                    vals = [C.to_poly(d).eval(lambda a: val['atoms'][a]) for d in deps]
                    v = fn(*vals)
                    if v is not None:
                        truth += [path.z(C.to_poly(d)) == x for d, x in zip(deps, vals)] + [path.z(ghost._p) == v]
                res, v2 = path.decide(list(extra) + blocked + truth, budget_s=5, nice=self.nice(env, tries // 2))
                if res == 'sat':
                    r = self.rep.run(self.sc.name, self.config, env.case(v2))
                    if r['status'] == 'failed':
                        self.report(r, env.case(v2))
                        return
            # CEGAR for the uninterpreted formula: replace guessed results by the real ones and ask again
            fixed, facts = self.formula_pins(path, val)
            blocked += facts
            if fixed:
                res, v2 = path.decide(list(extra) + blocked + fixed, budget_s=5)
                if res == 'sat':
                    val = v2
                    continue
            if not facts:
                if not env.ints:
                    break
                blocked.append(z3.Or(*[path.atoms[i].var != val['atoms'][i] for i in env.ints.values()]))
            res, val = path.decide(list(extra) + blocked, nice=self.nice(env, tries + 1) if tries % 2 or env.hints else ())
            if res == 'unsat' and facts:
                self.counts['discharged'] += 1
                self.labels[label][1] += 1
                return
            if res != 'sat':
                break
        self.inconclusive.append({'label': label, 'why': 'counterexample did not reproduce', 'case': last})

    def report(self, r, case):
        """A violation that the real code reproduces."""
        lab = r['detail'].split(' ')[0]
        if lab in self.known:
            self.known_hit.setdefault(lab, {'case': case, 'detail': r['detail']})
            return
        self.violations.append({'label': lab, 'case': case, 'detail': r['detail'], 'obs': r['obs'][-12:]})
        raise Stop()

    def formula_pins(self, path, val):
        if self.sc.formula not in ('uf', 'power'):
            return [], []
        from symdex import ufformula
        return ufformula.pins(path, val)

    def on_stuck(self, env):
        """A set-up step failed.  If that happens on every path, or on every path that takes a certain option, so that
        nothing the scenario is about can ever be done, that is a violation, shown by one of these instances."""
        new = [o for o in env.path.choices if not o[0].startswith('ext_') and o not in self.followed and self.blocked.get(o, 0) < 2]
        if (new or not self.counts['checks']) and len(self.stuck) < 40:
            res, val = env.path.decide([], budget_s=4, nice=self.nice(env))
            if res == 'sat':
                self.stuck.append((list(env.path.choices), dict(env.case(val), stuck=True)))
                for o in new:
                    self.blocked[o] = self.blocked.get(o, 0) + 1

    def report_stuck(self):
        if self.violations or self.inconclusive or self.mismatch:
            return
        for choices, case in self.stuck:
            # nothing was possible at all, or nothing once this option had been taken
            if self.counts['checks'] and all(o in self.followed or o[0].startswith('ext_') for o in choices):
                continue
            r = self.rep.run(self.sc.name, self.config, case)
            if r['status'] == 'failed':
                try:
                    self.report(r, case)
                except Stop:
                    return

    def report_never(self):
        """Every path has been followed and decided, and something the scenario is about happens on none of them."""
        never = [l for l in self.sc.reach if l not in self.touched]
        if not never or self.violations or self.inconclusive or self.mismatch or self.known_hit or not self.ends:
            return
        for case in self.ends:
            r = self.rep.run(self.sc.name, self.config, case)
            if r['status'] == 'ok' or self.sc.formula in ('uf', 'power'):
                self.violations.append({'label': 'ordinary-use-works', 'case': case, 'obs': r['obs'][-12:],
                                        'detail': 'ordinary-use-works: no input whatsoever leads to %s; one of them'
                                                  % ' or '.join(map(repr, never))})
                return

    def on_reach(self, env, label):
        self.touched.add(label)
        if self.reached.get(label):
            return
        res, val = env.path.decide([], budget_s=4)
        if res == 'sat':
            self.reached[label] = True
            self.samples.append({'reach': label, 'case': env.case(val)}) if len(self.samples) < 3 else None

    # -- the exploration
    def validate(self, env, must=False):
        """Encoding validation: run one concrete instance of this path on the real runtime and compare every step."""
        path = env.path
        val = path._search_model([], 2, ())
        if val is None:
            if not path.mono_vars and path.check_lin() == z3.sat:
                val = path._valuation(path.solver.model())
            else:
                res, val = path.decide([], budget_s=6 if must else 2)
                if res != 'sat':
                    if must and res == 'unknown':
                        self.inconclusive.append({'label': 'validation', 'why': 'no instance of a crashing path found'})
                    return
        uf_path = self.sc.formula in ('uf', 'power') and path.ufs or getattr(path, 'floats', None)
        case = env.case(val)
        r = self.rep.run(self.sc.name, self.config, case)
        if r['status'] == 'failed':
            # the concrete run violates a check that the symbolic run discharged on this path
            if uf_path or r['detail'].split(' ')[0] in self.known:
                self.report(r, case)
                return
            self.mismatch.append({'case': case, 'detail': r['detail'], 'kind': 'check'})
            return
        if uf_path:
            return
        sym = env.trace(val)
        con = r['obs']
        if sym[:len(con)] != con[:len(sym)] or (r['status'] == 'ok' and len(sym) != len(con)) \
                or r['status'] in ('error', 'diverged'):
            diff = next((i for i, (a, b) in enumerate(zip(sym, con)) if a != b), None)
            self.mismatch.append({'case': case, 'status': r['status'], 'detail': r['detail'][-600:],
                                  'sym': sym[diff] if diff is not None else len(sym),
                                  'con': con[diff] if diff is not None else len(con),
                                  'crashes': env.crashes + r.get('crashes', [])})
            return
        self.validated += 1

    def beyond(self, env, why):
        """The path left the encodable fragment (or the harness failed on it).  It stays undecided; but models of the
        path condition up to this point are run on the real code, and a check that fails there is a violation."""
        self.left = getattr(self, 'left', 0) + 1
        self.inconclusive.append({'label': 'path', 'why': why})
        if self.left > 12:
            raise Stop()
        path, block = env.path, []
        for k in range(10):
            res, val = path.decide(block, budget_s=3, nice=self.nice(env, k) if k % 2 == 0 or env.hints else ())
            if res != 'sat':
                break
            case = dict(env.case(val), fill='%d-%d' % (self.left, k))
            r = self.rep.run(self.sc.name, self.config, case)
            if r['status'] == 'failed':
                self.report(r, case)
            if not env.ints:
                continue
            lo = [path.atoms[i].var != val['atoms'][i] for i in env.ints.values()]
            block = block + [z3.And(*lo)] if k < 3 else block + [z3.Or(*lo)]

    def run(self):
        cur = {}

        def harness(path):
            from symdex.env import SymEnv
            env = SymEnv(path, self, self.config)
            cur['env'] = env
            try:
                self.sc.fn(env)
            except (C.PathPruned, C.Budget, Stop, KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:
                what = 'unsupported' if isinstance(e, C.Unsupported) else 'internal'
                self.beyond(env, '%s: %s\n%s' % (what, e, traceback.format_exc()[-1500:]))
                raise C.PathPruned()

        def end(path, outcome):
            env = cur['env']
            self.counts['calls'] += len(env.obs)
            if outcome == 'pruned':
                self.counts['pruned'] += 1
            else:
                self.counts['paths'] += 1
                self.followed.update(path.choices)
                if len(self.ends) < 3 and self.sc.reach:
                    val = path._search_model([], 2, ())
                    if val is not None:
                        self.ends.append(env.case(val))
            C.CURRENT = path
            try:
                if outcome == 'done' and env.crashes:
                    self.validate(env, must=True)
                elif outcome == 'done' and self.validated < self.max_validate:
                    self.validate(env)
            finally:
                C.CURRENT = None

        err = None
        try:
            if self.sc.custom:
                from symdex import kernelrun
                err, self.notes = kernelrun.run(self)
                self.reached = {l: True for l in self.sc.reach}
            else:
                self.engine.run(harness, end)
                self.report_stuck()
                self.report_never()
        except Stop:
            pass
        except C.Budget as e:
            err = str(e)
        except C.Unsupported as e:
            err = 'unsupported: %s\n%s' % (e, traceback.format_exc()[-1500:])
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            err = 'internal: %s\n%s' % (e, traceback.format_exc()[-2500:])
        self.rep.close()
        missing = [l for l in self.sc.reach if not self.reached.get(l)] if not self.violations else []
        return {'scenario': self.sc.name, 'config': self.config, 'counts': self.counts, 'labels': self.labels,
                'reached': sorted(self.reached), 'missing_reach': missing, 'violations': self.violations, 'known': self.known_hit,
                'inconclusive': self.inconclusive[:20], 'n_inconclusive': len(self.inconclusive),
                'validated': self.validated, 'mismatch': self.mismatch[:5], 'n_mismatch': len(self.mismatch),
                'replays': self.rep.n, 'stats': self.engine.stats.as_dict(), 'error': err,
                'functions': sorted(self.functions), 'samples': self.samples, 'notes': getattr(self, 'notes', []), 'forks': self.engine.forks}


def trace_functions(runner):
    """Records which functions of /repo were executed symbolically (sys.monitoring, near-zero cost)."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'symdex')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(boot.REPO + '/'):
            runner.functions.add(fn[len(boot.REPO) + 1:] + ':' + code.co_qualname)
        elif fn.startswith(tuple(boot.CODE)):
            runner.functions.add('package ' + fn.split('/out/', 1)[-1] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def main():
    name, config, out, deadline = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3], float(sys.argv[4])
    module = name.split('.')[0]
    from symdex import registry
    from symdex.env import sym_world_class
    t = time.time()
    sym_world_class()
    registry.MODULES = [module]
    sc = registry.load()[name]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if sc.formula == 'uf':
        from symdex import ufformula
        ufformula.install()
    elif sc.formula == 'power':
        from symdex import ufformula
        ufformula.install_power()
    elif sc.formula == 'helpers':
        from symdex import ufformula
        ufformula.install_helpers()
    r = Runner(sc, config, seed, deadline, tier)
    r.known = set(json.loads(sys.argv[5])) if len(sys.argv) > 5 else set()
    trace_functions(r)
    res = r.run()
    res['wall_s'] = round(time.time() - t, 2)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
