#!/opt/venv/bin/python
"""
check.py <PROPERTY>            run the seeded search of a property (VERIF_SEED, VERIF_TIER)
check.py replay <FILE>         re-execute a replay file in a fresh process
check.py plan <PROPERTY> <N>   execute run N only, with its event log
check.py hashes <N> [PROP...]  event-log hashes of the first N runs of each property (determinism self-test)
check.py setup                 build what the checks need, and smoke-test the simulator
"""
import os
import sys

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
if 'PYTHONHASHSEED' not in os.environ:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    from sim import kernel, runner
    base = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if argv[0] == 'replay':
        return runner.replay(argv[1])
    if argv[0] == 'plan':
        import json
        prop = runner.load_prop(argv[1])
        kernel.boot()
        plan = runner.make_plan(prop, base, int(argv[2]), tier)
        print(json.dumps(plan))
        out = kernel.execute(prop, plan, keep_log=True)
        for line in out.pop('log'):
            print('  ', line)
        print(json.dumps({k: v for k, v in out.items() if k != 'states'}, indent=1))
        print(out.get('msg', ''))
        return 0
    if argv[0] == 'hashes':
        import glob
        pids = argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(kernel.VERIF, 'sim/props/c*.py')))
        for pid, got in runner.selftest(pids, int(argv[1]), base).items():
            for i in sorted(got):
                print(pid, i, *got[i])
        return 0
    if argv[0] == 'setup':
        kernel.boot()
        from sim import ext
        ext.warm()
        print('simulator ready; code under test from', kernel.REPO)
        return 0
    return runner.check(argv[0].upper(), tier, base)


if __name__ == '__main__':
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR', sys.argv[1:])
        sys.exit(2)
