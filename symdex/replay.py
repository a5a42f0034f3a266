"""Concrete execution of a scenario on the real contracts with the real iconservice runtime
(/opt/venv/bin/python).  `--serve`: JSON lines in, JSON lines out.  Otherwise: replays one saved case."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symdex import boot  # noqa: E402
boot.setup_path()


def run_case(sc, config, case):
    from symdex.env import AssumptionFailed, CheckFailed, ConcreteEnv
    env = ConcreteEnv(case, config)
    status, detail = 'ok', ''
    try:
        sc.fn(env)
    except CheckFailed as e:
        status, detail = 'failed', str(e)
    except AssumptionFailed as e:
        status, detail = 'assume', str(e)
    except KeyError as e:
        # the concrete run asked for an input the symbolic path never created
        status, detail = 'diverged', 'missing input %s' % e
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        status, detail = 'error', traceback.format_exc()
    return {'status': status, 'detail': detail, 'obs': [list(o) for o in env.obs], 'reached': env.reached,
            'checks': env.checks, 'crashes': env.crashes}


def main():
    from symdex import registry
    registry.MODULES = os.environ.get('SYMDEX_MODULES', ','.join(registry.MODULES)).split(',')
    scs = registry.load()
    if sys.argv[1:] == ['--serve']:
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        for line in sys.stdin:
            req = json.loads(line)
            r = run_case(scs[req['scenario']], req['config'], req['case'])
            out.write(json.dumps(r) + '\n')
            out.flush()
        return 0
    d = json.load(open(sys.argv[1]))
    r = run_case(scs[d['scenario']], d['config'], d['case'])
    print('scenario %s, property %s' % (d['scenario'], d['property']))
    print('inputs: ' + json.dumps(d['case'], indent=1))
    for o in r['obs']:
        print('  %-28s ok=%s %s' % tuple(o))
    print('result: %s %s' % (r['status'], r['detail']))
    return 1 if r['status'] == 'failed' else 0


if __name__ == '__main__':
    sys.exit(main())
