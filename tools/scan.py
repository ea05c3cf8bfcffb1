"""
scan.py PROP N [SEED] [KEY.PATH ...]: runs N plans of a property without stopping at the first violation, and lists all violations
by class together with the given fields of their plans. A development tool.
"""
import collections
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF]
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from sim import kernel  # noqa: E402
from sim import runner  # noqa: E402

kernel.boot()
prop, n = runner.load_prop(sys.argv[1]), int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else '1'
fields = sys.argv[4:]
seen, total = collections.defaultdict(list), collections.Counter()


def field(plan, path):
    for k in path.split('.'):
        plan = plan.get(k) if isinstance(plan, dict) else None
    return str(plan)


def result(i, out):
    plan = runner.make_plan(prop, seed, i, 'quick')
    key = tuple(field(plan, f) for f in fields)
    total[key] += 1
    if out['status'] != 'ok':
        seen[(out['status'], out.get('cls')) + key].append((i, str(out.get('msg'))[-300:]))


runner.sweep(prop, seed, 'quick', n, result)
for k, v in sorted(seen.items(), key=str):
    print(k, len(v), 'of', total[k[2:]], [i for i, _ in v][:5], v[0][1].replace('\n', ' | ')[-250:])
print(sum(total.values()), 'runs', sum(map(len, seen.values())), 'bad')
