""" C01: labeled, inferred and unknown always partition the dataset """
import random

from .. import world
from ..dataset_model import Model, apply, gen_ops, verify

ID = 'C01'
RUNS = {'quick': 4500, 'thorough': 120000}
BUDGET = 400_000
MIN_EVENTS = 6
LEVEL = 'exploration'
RULE = 'Random histories of 1..40 partition moves, resets and reads over datasets of 1..30 rows, compared after every step with a dict-based reference model; part of the runs use two datasets in turns.'
STATE_MEASURE = 'partition sizes, next operation and argument style'
REAL = ['aideme.explore.PartitionedDataset', 'aideme.explore.LabeledSet', 'index lookup']
STUBS = []
ASSUMPTIONS = ['an interrupt inside a single row swap is not simulated (the swap is not atomic and the library does not claim it is)']
NEEDS_EXT = False
LISTS = ['ops']
NUMBERS = {'data.n': 1, 'data.d': 1}
SIMPLE = {'index.style': 'range'}
MUST_REACH = ['two-datasets', 'op-label', 'op-infer', 'op-forget', 'op-flush', 'op-clear', 'relabel']


def generate(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30]) if rng.random() < .98 else rng.choice([70, 260])
    return {'data': world.gen_data(rng, (n, n), (1, 3), ('uniform', 'grid', 'dup')), 'index': world.gen_index(rng, world.INDEX_STYLES + ['overlap']),
            'parts': rng.choice([1, 1, 2, 3]), 'copy': rng.random() < .6,
            'twin': rng.random() < .3, 'ops': gen_ops(rng, rng.choice([3, 6, 12, 25, 40]), n)}


def execute(plan, ctx):
    from aideme.explore import PartitionedDataset
    subjects = []
    for k in range(2 if plan['twin'] else 1):  # datasets which are used in turns have nothing to do with one another
        X = world.make_data(dict(plan['data'], seed=plan['data']['seed'] + k))
        ids = world.make_index(dict(plan['index'], seed=plan['index']['seed'] + k), len(X))
        model = Model(ids.tolist(), X.copy(), plan['parts'])
        index = None if plan['index']['style'] == 'range' and plan['copy'] else ids.copy()
        subjects.append((PartitionedDataset(X.copy(), index, copy=plan['copy']), model))
    for ds, model in subjects:
        verify(ctx, ds, model)
    if plan['twin']:
        ctx.probe('two-datasets')
    for op in plan['ops']:
        r = random.Random(op['seed'])
        ds, model = subjects[op['seed'] % len(subjects)]
        ever = set(model.labels)
        apply(ctx, ds, model, op, r)
        for other in subjects:
            verify(ctx, *other, r)
        if op['op'] == 'label' and ever - set(model.labels):
            ctx.probe('relabel')
        if op['op'] == 'forget' and ever - set(model.labels):
            ctx.probe('relabel')
        if op['op'] == 'label' and model.last:
            with world.Judging('last-training-set'):
                Xl, yl = ds.last_training_set()
                ctx.check(len(Xl) == len(yl) == len(model.last), 'last-batch', 'size')
                for x, y, i in zip(Xl, yl, model.last):
                    ctx.check((x == model.X[model.row[i]]).all() and y == min(model.labels.get(i, [y])), 'last-batch', lambda: str(i))
        ctx.state(model.sizes(), op['op'], op['style'])
