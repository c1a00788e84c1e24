"""Runs the concrete side of one property on the freshly built package.

python -m dpv.worker PID OUT.jsonl BUDGET_S [--case JSON]
One JSON line per executed case: {"case":..., "status": "ok"|"skip"|"violation", "msg":...}.
The case about to run is written to OUT.cur first, so that a crash or a hang is attributed to it."""
import sys, os, json, time, signal, importlib, traceback, tempfile
import numpy as np


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(mod, case):
    from dpv.concrete import lib
    lib.reset_parameters()
    limit = int(case.get('limit', getattr(mod, 'CASE_LIMIT', 60)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.check(case)
        return 'ok', None
    except lib.Skip as e:
        return 'skip', str(e)
    except lib.Violation as e:
        return 'violation', str(e)
    except Timeout:
        return 'violation', 'no answer within %d s' % limit
    except SystemExit as e:
        return 'violation', 'the code under verification stopped the interpreter (exit) on a valid input\n' + tb()
    except BaseException as e:
        return 'violation', 'raised %s: %s\n%s' % (type(e).__name__, e, tb())
    finally:
        signal.alarm(0)


def tb():
    return ''.join(traceback.format_exc().splitlines(True)[-8:])


def main():
    pid, out, budget = sys.argv[1], sys.argv[2], float(sys.argv[3])
    import dynaphopy
    pkg = os.path.realpath(os.environ['DPV_PKG'])
    assert os.path.realpath(dynaphopy.__file__).startswith(pkg), dynaphopy.__file__
    mod = importlib.import_module('dpv.concrete.' + pid)
    tmp = tempfile.mkdtemp(prefix='dpvw-', dir=os.environ['DPV_PKG'])
    os.chdir(tmp)
    f = open(out, 'a')

    def emit(case, status, msg):
        f.write(json.dumps({'case': case, 'status': status, 'msg': msg}, default=str) + '\n')
        f.flush()

    if len(sys.argv) > 5 and sys.argv[4] == '--case':
        case = json.loads(sys.argv[5])
        json.dump(case, open(out + '.cur', 'w'))
        emit(case, *run_case(mod, case))
        return
    t0 = time.time()
    rng = np.random.default_rng(int(os.environ.get('VERIF_SEED', '1')))
    tier = os.environ.get('VERIF_TIER', 'quick')
    nviol = 0
    extra = float(os.environ.get('DPV_EXTRA_S', '30' if tier == 'quick' else '600'))

    def stream():
        for c in mod.cases(rng, 'quick'):
            yield c, budget
        more = list(mod.cases(rng, 'thorough'))
        rng.shuffle(more)
        for c in more:
            yield c, min(extra, budget)
    for case, limit in stream():
        if time.time() - t0 > limit:
            break
        case.setdefault('seed', int(rng.integers(1 << 31)))
        with open(out + '.cur', 'w') as g:
            json.dump(case, g)
        status, msg = run_case(mod, case)
        emit(case, status, msg)
        if status == 'violation':
            nviol += 1
            if nviol >= 3:
                break
    emit(None, 'end', None)


if __name__ == '__main__':
    main()
