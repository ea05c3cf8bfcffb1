""" C26: the scores in an iteration's record are exact for the learner of that iteration """
import math

import numpy as np

from .. import session, world
from ..kernel import FAULTS, is_injected
from ..world import Judging

ID = 'C26'
RUNS = {'quick': 2700, 'thorough': 50000}
BUDGET = 4_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Whole explorations report classification scores over a test set and over the labels given so far (noisy ones included), and the entropy of the predictions. A reference counts them one point at a time '
        'from what the learner predicts at the same moment; the test set is the explored data, a reordered part of it, or other points, and learners fail in the middle of some reports.')
STATE_MEASURE = 'learner, requested scores, test set, confusion counts'
REAL = ['utils.metrics', 'PoolBasedExploration, ExplorationManager, metric logger', 'PartitionedDataset', 'random_noise_injector', 'SimpleMargin, UncertaintySampler, KernelVersionSpace, QueryByDisagreement, RandomSampler, DualSpaceModel']
STUBS = ['one-nearest-neighbour learner, alone or inside of a dual space model (part of the runs)', 'the user']
ASSUMPTIONS = ['what a learner predicts is judged by other properties']
NEEDS_EXT = False
LISTS = ['reports']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'noise': None}
MUST_REACH = ['test', 'training', 'entropy', 'no-positive-predicted', 'all-correct', 'prefix', 'one-class-test', 'noisy', 'reordered', 'explored', 'other', 'learner-failed', 'next-run', 'list-labels', 'skipped']
NAMES = ['stub', 'stub', 'stub_batch', 'simple', 'uncertainty', 'kvs', 'random', 'dsm_stub', 'qbd']
SCORES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


def generate(rng, tier):
    s = session.gen_session(rng, NAMES, n=(5, 24))
    name = s['learner']['name']
    if 'stub' not in name:  # scores need a trained learner: the initial sample holds both classes
        s['sampler'] = rng.choice([{'kind': 'stratified', 'pos': 1, 'neg': 1, 'all': False}, {'kind': 'stratified', 'pos': 2, 'neg': 1, 'all': False}, {'kind': 'fixed', 'seed': rng.getrandbits(31)}])
    s['max_iter'] = min(s['max_iter'], 12 if s['learner']['name'] != 'kvs' else 5)
    s['skip'] = rng.choice([1, 1, 1, 2, 3])
    s['problem']['concept']['ratio'] = rng.choice([.1, .3, .5, .9])
    reports = []
    for k in range(rng.randint(1, 4)):
        reports.append({'kind': rng.choice(['test', 'test', 'training'] + ['entropy'] * (name != 'qbd')), 'scores': rng.sample(SCORES, rng.randint(1, 8)), 'prefix': 'r{}_'.format(k) if k else rng.choice(['', 'r0_']),
                        'on': rng.choice(['explored', 'reordered', 'other', 'one-class']), 'seed': rng.getrandbits(31), 'as': rng.choice(['array', 'list', 'int', 'tuple'])})
    return {'session': s, 'reports': reports, 'noise': rng.choice([None, None, .3, .5]), 'repeat': rng.choice([1, 1, 2]), 'fail': rng.choice([None, None, rng.randint(1, 6)]), 'kind': rng.choice(list(FAULTS)),
            'single': rng.random() < .5}


def count(truth, pred):
    """ one point at a time """
    tp = fp = tn = fn = 0
    for t, p in zip(truth, pred):
        if p == 1:
            tp, fp = tp + (t == 1), fp + (t != 1)
        else:
            fn, tn = fn + (t == 1), tn + (t != 1)
    div = lambda a, b: a / b if b else 0.
    return {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': div(tp + tn, tp + fp + tn + fn), 'precision': div(tp, tp + fp), 'recall': div(tp, tp + fn),
            'fscore': div(2 * tp, 2 * tp + fp + fn)}


def test_set(r, problem):
    """ -> rows, labels """
    rnd = np.random.RandomState(r['seed'] & 0x7fffffff)
    X, y = problem.X.copy(), np.asarray(problem.y, dtype=float).copy()
    if r['on'] == 'reordered':
        rows = rnd.permutation(len(X))[:max(1, len(X) * 2 // 3)]
        X, y = X[rows], y[rows]
    elif r['on'] == 'other':
        X = rnd.permutation(X.ravel()).reshape(X.shape)
        y = rnd.randint(0, 2, size=len(X)).astype(float)
    elif r['on'] == 'one-class':
        rows = np.where(y == r['seed'] % 2)[0]
        X, y = X[rows], y[rows]
    return X, y


def execute(plan, ctx):
    from aideme.utils import metrics
    from aideme.utils.noise import random_noise_injector
    s = plan['session']
    b = session.build(s, ctx)
    problem = b.problem
    name = s['learner']['name']
    current, callbacks, tests = {}, [], {}
    for k, r in enumerate(plan['reports']):
        if r['kind'] == 'test':
            X, y = test_set(r, problem)
            tests[k] = X.copy(), y.copy()
            given = {'array': y.copy(), 'list': y.tolist(), 'tuple': tuple(y.tolist()), 'int': y.astype(int)}[r['as']]
            if r['as'] in ('list', 'tuple'):
                ctx.probe('list-labels')
            ctx.probe(r['on'] if r['on'] != 'one-class' else 'one-class-test')
            callbacks.append(metrics.classification_metrics(X, given, tuple(r['scores']) if r['seed'] % 3 else list(r['scores']), **({'prefix': r['prefix']} if r['prefix'] else {})))
        elif r['kind'] == 'training':
            callbacks.append(metrics.training_classification_metrics(r['scores'], prefix=r['prefix']))
        else:
            callbacks.append(metrics.prediction_entropy)
        ctx.probe(r['kind'])
        if r['prefix'] and r['kind'] != 'entropy':
            ctx.probe('prefix')

    def observe(data, learner):
        """ what the learner predicts at this moment, taken before the scores """
        current['seen'] = seen = {}
        with Judging('prediction'):
            current['labeled'] = data.labeled.index.tolist()
            for k, r in enumerate(plan['reports']):
                if r['kind'] == 'test':
                    seen[k] = np.array(learner.predict(tests[k][0]), dtype=float)
                elif r['kind'] == 'training':
                    seen[k] = np.array(learner.predict(problem.X[problem.rows(current['labeled'])]), dtype=float)
                else:
                    seen[k] = np.array(learner.predict_proba(problem.X), dtype=float)

    fail_at = plan['fail']

    class Failing:
        calls = 0

        def __call__(self, data, learner):
            Failing.calls += 1
            if Failing.calls == fail_at:
                ctx.fault(plan['kind'] + '@callback')
                raise FAULTS[plan['kind']]()

    from aideme.explore import PoolBasedExploration
    order = [observe] + callbacks + ([Failing()] if fail_at else [])
    noise = random_noise_injector(plan['noise']) if plan['noise'] is not None else None
    expl = PoolBasedExploration(initial_sampler=b.sampler, subsampling=s['subsampling'], callback=order, callback_skip=s['skip'], convergence_criteria=session.max_iter(s['max_iter']), noise_injector=noise)
    runs = [problem.X, b.labels, b.learner]
    for rep in range(plan['repeat']):
        current.clear()
        gen = expl.run(*runs, seeds=[s['np_seed'] + rep], return_generator=True)
        if rep:
            ctx.probe('next-run')
        it = 0
        given = {}
        try:
            for run in gen:
                for m in run:
                    it += 1
                    with Judging('record'):
                        labels = m['noisy_labels'] if 'noisy_labels' in m else m['labels']
                        given.update(zip(m['labeled_indexes'], [float(v) for v in labels]))
                        if 'noisy_labels' in m:
                            ctx.probe('noisy')
                    verify(plan, ctx, m, current, tests, problem, given, name, it)
        except BaseException as e:
            if not is_injected(e):
                raise
            ctx.probe('learner-failed')
            ctx.log('failed', it)


def verify(plan, ctx, m, current, tests, problem, given, name, it):
    seen = current.pop('seen', None)
    expected = {}
    if seen is None:
        ctx.probe('skipped')
    else:
        for k, r in enumerate(plan['reports']):
            if r['kind'] == 'entropy':
                p = [float(v) for v in seen[k]]
                expected['prediction_entropy'] = sum(-v * math.log(v) if v > 0 else 0. for q in p for v in (q, 1 - q)) / len(p)
                continue
            if r['kind'] == 'test':
                truth = tests[k][1].tolist()
            else:
                ctx.check(sorted(current['labeled']) == sorted(given), 'labeled-points', lambda: '{} vs {}'.format(current['labeled'], given))
                truth = [given[i] for i in current['labeled']]
            c = count(truth, seen[k].tolist())
            if c['true_positive'] + c['false_positive'] == 0:
                ctx.probe('no-positive-predicted')
            if c['accuracy'] == 1:
                ctx.probe('all-correct')
            ctx.state(name, r['kind'], r['on'], c['true_positive'], c['false_positive'], c['false_negative'])
            expected.update({r['prefix'] + x: c[x] for x in r['scores']})
    with Judging('record'):
        got = {x: v for x, v in m.items() if x.split('_', 1)[-1] in SCORES or x in SCORES or x == 'prediction_entropy'}
        ctx.check(set(got) == set(expected), 'missing-scores', lambda: 'iteration {}: {} instead of {}'.format(it, sorted(got), sorted(expected)))
        for x, v in expected.items():
            ctx.check(abs(float(got[x]) - v) <= 1e-9, 'wrong-score', lambda: 'iteration {}: {} is {} instead of {}'.format(it, x, got[x], v))
    ctx.log('iter', it, {x: round(v, 9) for x, v in sorted(expected.items())})
