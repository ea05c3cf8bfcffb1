""" C02: a rejected move changes nothing """
import copy
import random

import numpy as np

from .. import world
from ..dataset_model import I, L, U, Model, apply, as_argument, gen_ops, labeled_set, new_labels, snapshot, verify
from ..kernel import FAULTS, is_injected

ID = 'C02'
RUNS = {'quick': 4000, 'thorough': 100000}
BUDGET = 400_000
MIN_EVENTS = 6
LEVEL = 'exploration'
RULE = ('Random histories of valid moves with failing ones in between (already there, unknown index, duplicates, incompatible '
        'labels, an index iterable that fails midway, malformed partial labels, failing lookups and predictions); bit-for-bit snapshots around each failure, and a twin dataset which never saw it.')
STATE_MEASURE = 'partition sizes, kind of failing move, target partition, position of the offending index'
REAL = ['aideme.explore.PartitionedDataset', 'aideme.explore.LabeledSet', 'index lookup']
STUBS = ['index iterables that raise after k items (the fault seam)']
ASSUMPTIONS = ['an interrupt inside a single row swap is not simulated (the swap is not atomic and the library does not claim it is)']
NEEDS_EXT = False
LISTS = ['ops']
NUMBERS = {'data.n': 1, 'data.d': 1}
SIMPLE = {'index.style': 'range'}
BAD = ['already', 'alien', 'dup', 'width', 'iterfail', 'partial', 'lookup', 'unhashable', 'predict']
MUST_REACH = ['rejected-' + b for b in BAD]


def generate(rng, tier):
    n = rng.choice([2, 3, 5, 8, 13, 20]) if rng.random() < .98 else rng.choice([70, 260])
    return {'data': world.gen_data(rng, (n, n), (1, 2), ('uniform', 'grid')), 'index': world.gen_index(rng),
            'parts': rng.choice([1, 2, 3]), 'copy': rng.random() < .6,
            'ops': gen_ops(rng, rng.choice([4, 8, 16, 30]), n, BAD)}


def failing(items, exc):
    for i in items:
        yield i
    raise exc


def where_is(at, good):
    return 'first' if at == 0 else 'last' if at == len(good) else 'middle'


class Failing:
    """ a learner which fails after having looked at the data """
    def __init__(self, exc):
        self.exc = exc

    def predict(self, X):
        X.sum()
        raise self.exc


def bad_call(ctx, ds, model, op, r):
    """ -> (callable, description) of a move which must be rejected, or None if this state offers none """
    kind = op['op']
    to = r.choice([L, I, U])
    if kind == 'width':
        to = L
    src = [p for p in (L, I, U) if p != to]
    pool = model.members(*src)
    good = r.sample(pool, min(max(1, op['k']), len(pool)))
    there = model.members(to)
    at = r.randint(0, len(good))
    fault = None
    if kind == 'already':
        if not there:
            return None
        idxs = good[:at] + [r.choice(there)] + good[at:]
    elif kind == 'alien':
        alien = max(model.ids) + r.randint(1, 1000)
        idxs = good[:at] + [alien] + good[at:]
    elif kind == 'dup':
        if not good:
            return None
        idxs = good[:at] + [r.choice(good)] + good[at:]
    elif kind == 'width':
        if not good or not model.labels:
            return None
        idxs = good
        wide = model.parts + r.choice([1, 2]) if model.parts == 1 or r.random() < .5 else model.parts - 1
        if wide == model.parts:
            return None
    elif kind == 'unhashable':
        idxs = good[:at] + [r.choice([[1], {}, None, float('nan'), 'x'])] + good[at:]
        if to == L:
            to = I
    elif kind == 'partial':  # partial labels which do not fit the labeled points
        n, wrong = len(model.members(L)), r.choice(['short', 'long', 'flat', 'cube', 'scalar'])
        rows = {'short': n - 1, 'long': n + r.randint(1, 2)}.get(wrong, n)
        if rows < 0 or (n < 2 and wrong != 'long'):
            return None
        cols = r.choice([model.parts, model.parts + 1])
        value = np.array([[float(r.randrange(2)) for _ in range(cols)] for _ in range(rows)]).reshape(rows, cols)
        value = {'flat': value[:, 0], 'cube': value[:, :, None], 'scalar': np.float64(1)}.get(wrong, value)
        if wrong in ('short', 'long', 'flat') and r.random() < .5:
            value = value.tolist()
        return (lambda: ds.set_partial_labels(value)), (kind, L, wrong)
    elif kind == 'lookup':
        alien = max(model.ids) + r.randint(1, 1000)
        return (lambda: ds.from_index(good[:at] + [alien] + good[at:])), (kind, None, where_is(at, good))
    elif kind == 'predict':
        if not model.members(I, U):
            return None
        fault = FAULTS[r.choice(['error', 'interrupt', 'memory', 'os'])]()
        ctx.fault('predict-' + type(fault).__name__)
        return (lambda: ds.predict_user_labels(Failing(fault))), (kind, None, '')
    else:
        idxs, fault = good[:at], FAULTS[r.choice(['error', 'interrupt', 'memory', 'os'])]()
    where = where_is(at, good)

    if to == L:
        if kind == 'iterfail':
            return None
        labels = new_labels(model, idxs, r, 'list')
        if kind == 'width':
            from aideme.explore import LabeledSet
            ls = LabeledSet([float(r.randrange(2)) for _ in idxs], np.array([[float(r.randrange(2)) for _ in range(wide)] for _ in idxs]), idxs)
        else:
            ls = labeled_set(model, idxs, labels)
        return (lambda: ds.move_to_labeled(ls)), (kind, to, where)
    move = ds.move_to_inferred if to == I else ds.move_to_unknown
    if kind == 'iterfail':
        ctx.fault('iterator-' + type(fault).__name__)
        return (lambda: move(failing(idxs, fault))), (kind, to, where)
    arg = as_argument(ds, idxs, op['style'] if op['style'] in ('list', 'array', 'iter', 'tuple') and kind != 'unhashable' else 'list', r)
    return (lambda: move(arg)), (kind, to, where)


def execute(plan, ctx):
    from aideme.explore import PartitionedDataset
    X = world.make_data(plan['data'])
    ids = world.make_index(plan['index'], len(X))
    model = Model(ids.tolist(), X.copy(), plan['parts'])
    twin_model = Model(ids.tolist(), X.copy(), plan['parts'])
    ds = PartitionedDataset(X.copy(), ids.copy(), copy=plan['copy'])
    twin = PartitionedDataset(X.copy(), ids.copy(), copy=plan['copy'])
    for op in plan['ops']:
        r = random.Random(op['seed'])
        if op['op'] not in BAD:
            apply(ctx, ds, model, op, r)
            apply(ctx, twin, twin_model, op, random.Random(op['seed']))
            verify(ctx, ds, model, r)
            continue
        call = bad_call(ctx, ds, model, op, r)
        if call is None:
            continue
        call, what = call
        before = snapshot(ds)
        try:
            call()
            rejected = False
        except BaseException as e:
            if type(e).__name__ == 'BudgetExceeded':
                raise
            rejected = True
            ctx.log('rejected', what, type(e).__name__)
            if what[0] in ('iterfail', 'predict'):
                ctx.check(is_injected(e), 'fault-replaced', lambda: repr(e))
        ctx.check(rejected, 'bad-move-accepted', lambda: str(what))
        ctx.check(snapshot(ds) == before, 'rejected-move-left-traces', lambda: str(what))
        verify(ctx, ds, model, r)
        ctx.probe('rejected-' + what[0])
        ctx.state(model.sizes(), what)
    ctx.check(snapshot(ds) == snapshot(twin), 'later-moves-differ', 'a dataset which saw rejected moves differs from its twin which did not')
