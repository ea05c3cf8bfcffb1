""" C04: the predicted labeling covers every point once, keeps the user's labels, and never changes afterwards """
import random

import numpy as np

from .. import session, world
from ..dataset_model import L, Model, apply, gen_ops, verify
from ..kernel import FAULTS, is_injected
from ..session import Ledger
from ..world import Judging, arr_bytes

ID = 'C04'
RUNS = {'quick': 3200, 'thorough': 60000}
BUDGET = 3_000_000
MIN_EVENTS = 5
LEVEL = 'exploration'
RULE = ('Predicted labelings taken at random moments of move histories and of whole sessions (including with every point labeled, and '
        'with a learner that fails while predicting), compared point by point, and again at the end of the run.')
STATE_MEASURE = 'source, partition sizes, whether every point is labeled, fault'
REAL = ['PartitionedDataset.predict_user_labels', 'ExplorationManager.compute_user_labels_prediction', 'LabeledSet', 'exploration loop and real learners in part of the runs']
STUBS = ['a learner whose prediction is a fixed function of the row (part of the runs)', 'the user']
ASSUMPTIONS = []
NEEDS_EXT = False
LISTS = ['ops']
NUMBERS = {'data.n': 1, 'data.d': 1, 'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'index.style': 'range', 'session.problem.index.style': 'range', 'session.subsampling': None}
MUST_REACH = ['all-labeled', 'none-labeled', 'failed-prediction', 'old-labelings-rechecked', 'second-session']
DETERMINISTIC = ['stub', 'stub_batch', 'simple', 'random', 'uncertainty', 'qbd', 'kvs', 'dsm', 'dsm_stub', 'fdsm_stub', 'ssm']


def generate(rng, tier):
    if rng.random() < .5:
        n = rng.choice([1, 2, 4, 8, 16]) if rng.random() < .97 else rng.choice([70, 260])
        ops = gen_ops(rng, rng.choice([4, 10, 20]), n, ['predict', 'predict', 'predict-fail'])
        return {'source': 'moves', 'data': world.gen_data(rng, (n, n), (1, 3), ('uniform', 'grid', 'dup')), 'index': world.gen_index(rng),
                'parts': rng.choice([1, 1, 2]), 'copy': rng.random() < .6, 'ops': ops}
    return {'source': 'session', 'session': session.gen_session(rng, DETERMINISTIC, n=(5, 20), parts=rng.choice([None, 2])),
            'ops': sorted(rng.sample(range(1, 25), 6)), 'fail': rng.choice([0, 0, 1, 2]), 'kind': rng.choice(list(FAULTS)),
            'again': rng.random() < .4}


class RowLearner:
    """ predicts a fixed function of the row's values """

    def __init__(self, X):
        self.table = {tuple(x.tolist()): float(i % 2) for i, x in enumerate(np.unique(X, axis=0))}
        self.fail = None

    def predict(self, X):
        if self.fail is not None:
            self.failed = True
            raise self.fail
        return np.array([self.table[tuple(x.tolist())] for x in X])


def check_labeling(ctx, pred, ids, expected, what):
    """ expected: index -> label """
    with Judging('labeling'):
        got_ids = pred.index.tolist()
        ctx.check(sorted(got_ids) == sorted(ids), 'labeling-coverage', lambda: '{}: {} of {}'.format(what, len(set(got_ids)), len(ids)))
        labels = np.asarray(pred.labels)
        ctx.check(labels.shape == (len(ids),), 'labeling-shape', lambda: str(labels.shape))
        for i, l in zip(got_ids, labels):
            ctx.check(float(l) == float(expected[i]), 'labeling-mismatch', lambda: '{}: index {} has {} instead of {}'.format(what, i, l, expected[i]))
        one = pred.get_index(got_ids[:2])
        ctx.check([float(v) for v in one.labels] == [float(expected[i]) for i in got_ids[:2]], 'labeling-lookup', what)


def labels_of(model, learner):
    return {i: (min(model.labels[i]) if i in model.labels else learner.table[tuple(model.X[model.row[i]].tolist())]) for i in model.ids}


def freeze(pred):
    return (arr_bytes(np.array(pred.index)), arr_bytes(np.array(pred.labels)), arr_bytes(np.array(pred.partial)))


def execute(plan, ctx):
    kept = []
    (moves if plan['source'] == 'moves' else run_session)(plan, ctx, kept)
    for pred, was, when in kept:
        ctx.check(freeze(pred) == was, 'labeling-changed-later', lambda: 'the labeling taken at {} was modified by what followed'.format(when))
    if len(kept) > 1:
        ctx.probe('old-labelings-rechecked')


def moves(plan, ctx, kept):
    from aideme.explore import PartitionedDataset
    X = world.make_data(plan['data'])
    ids = world.make_index(plan['index'], len(X))
    model = Model(ids.tolist(), X.copy(), plan['parts'])
    ds = PartitionedDataset(X.copy(), ids.copy(), copy=plan['copy'])
    learner = RowLearner(X)
    for k, op in enumerate(plan['ops']):
        r = random.Random(op['seed'])
        if op['op'] == 'predict-fail':
            learner.fail, learner.failed = FAULTS[r.choice(list(FAULTS))](), False
            try:
                pred = ds.predict_user_labels(learner)
                ctx.check(not learner.failed, 'failure-hidden', 'the learner failed, yet a labeling was returned')
                check_labeling(ctx, pred, model.ids, labels_of(model, learner), 'without the learner')
            except BaseException as e:
                if not is_injected(e):
                    raise
                ctx.fault('predict-' + type(e).__name__)
                ctx.probe('failed-prediction')
            learner.fail = None
            verify(ctx, ds, model, r)
        elif op['op'] == 'predict':
            pred = ds.predict_user_labels(learner)
            check_labeling(ctx, pred, model.ids, labels_of(model, learner), 'step {}'.format(k))
            kept.append((pred, freeze(pred), 'step {}'.format(k)))
            verify(ctx, ds, model, r)
            if model.sizes()[0] == len(model.ids):
                ctx.probe('all-labeled')
            if model.sizes()[0] == 0:
                ctx.probe('none-labeled')
            ctx.log('predict', model.sizes())
            ctx.state('moves', model.sizes())
        else:
            apply(ctx, ds, model, op, r)


def run_session(plan, ctx, kept):
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
    s = plan['session']
    b = session.build(s, ctx)
    problem = b.problem
    data = PartitionedDataset(problem.X, problem.ids, copy=True)
    mgr = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=b.sampler)
    mgr.clear()
    one_session(plan, ctx, kept, b, mgr, data, b.labels)
    if plan.get('again'):  # the same manager explores again, for a user who answers the opposite
        mgr.clear()
        other = b.labels if problem.partial.shape[1] > 1 else LabeledSet(1 - problem.y, index=problem.ids.copy())
        ctx.probe('second-session')
        one_session(plan, ctx, kept, b, mgr, data, other)


def one_session(plan, ctx, kept, b, mgr, data, answers):
    s, problem = plan['session'], b.problem
    ledger = Ledger(ctx, problem)
    fitted, fails = False, 0
    for step in range(1, 26):
        if not mgr.converged():
            batch = mgr.get_next_to_label()
            user = answers.get_index(batch.index.tolist())
            ledger.add(user.index.tolist(), user.labels.tolist(), user.partial.tolist())
            mgr.update(user)
            fitted = fitted or mgr.is_exploration_phase
        if not (fitted or s['learner']['name'].startswith('stub')):
            continue
        if step in plan['ops'] or data.unlabeled_size == 0:
            if fails < plan['fail']:
                fails += 1
                original, failed = b.learner.predict, []

                def failing(X):
                    failed.append(1)
                    raise FAULTS[plan['kind']]()
                b.learner.predict = failing
                try:
                    mgr.compute_user_labels_prediction()
                    ctx.check(not failed, 'failure-hidden', 'the learner failed, yet a labeling was returned')
                except BaseException as e:
                    if not is_injected(e):
                        raise
                    ctx.probe('failed-prediction')
                    ctx.fault(plan['kind'] + '@predict')
                b.learner.predict = original
            pred = mgr.compute_user_labels_prediction()
            guess = np.asarray(b.learner.predict(problem.X), dtype=float)
            rowwise = {i: float(g) for i, g in zip(problem.ids.tolist(), guess)}
            expected = {i: (ledger.given[i][0] if i in ledger.given else rowwise[i]) for i in problem.ids.tolist()}
            check_labeling(ctx, pred, problem.ids.tolist(), expected, 'step {}'.format(step))
            kept.append((pred, freeze(pred), 'step {}'.format(step)))
            if data.unlabeled_size == 0:
                ctx.probe('all-labeled')
            ctx.state('session', s['learner']['name'], len(ledger.given), data.inferred_size)
        ctx.log('step', step, len(ledger.given), data.inferred_size)
        if mgr.converged() and step > max(plan['ops'] or [0]):
            break
