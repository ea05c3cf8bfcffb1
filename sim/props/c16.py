""" C16: the three-set metric never exceeds the true F-score """
import numpy as np

from .. import dsm_world, world
from ..kernel import CLOCK
from ..world import Judging

ID = 'C16'
RUNS = {'quick': 3200, 'thorough': 50000}
BUDGET = 3_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions of the dual space model, plain and factorized, over users with a convex interest, in which the three-set metric is computed after every answer (also through callbacks of the exploration, and after failed steps), and '
        'compared with the F-score of the predictions at that moment and with counts of the certain points.')
STATE_MEASURE = 'modes, and the value of the metric rounded to 2 digits'
REAL = ['three_set_metric', 'DualSpaceModel, FactorizedDualSpaceModel', 'polytope models, hulls and cones, Qhull', 'PoolBasedExploration, ExplorationManager', 'PartitionedDataset', 'SimpleMargin, RandomSampler, KernelVersionSpace']
STUBS = ['one-nearest-neighbour inner learner (part of the runs)', 'the user']
ASSUMPTIONS = ['data lies on dyadic grids, or the convex region is separated from the other points by a clear margin', 'both classes are present in the dataset']
NEEDS_EXT = False
LISTS = ['w.faults']
NUMBERS = {'w.steps': 1, 'w.n': 4}
SIMPLE = {'w.subsampling': None, 'w.index.style': 'range', 'w.scale': 1., 'w.offset': 0}
MUST_REACH = ['factorized', 'plain', 'zero', 'between', 'one', 'after-failure', 'records', 'no-model', 'close-to-bound', 'threshold-reached', 'negative', 'positive', 'persist']


def generate(rng, tier):
    return {'w': dsm_world.generate(rng, ['convex'], real=rng.random() < .3), 'mode': rng.choice(['manager', 'pool']), 'threshold': rng.choice([None, .5, .9, 1.])}


def fscore(pred, truth):
    tp = float(((pred == 1) & (truth == 1)).sum())
    wrong = float((pred != truth).sum())
    return 2 * tp / (2 * tp + wrong) if tp else 0.


def execute(plan, ctx):
    from aideme.utils.metrics import three_set_metric
    w = plan['w']
    ctx.probe('factorized' if w['factorized'] else 'plain')
    for p in w['parts']:
        ctx.probe(p['mode'])
    failed = [False]

    def verify(data, learner, value):
        truth = s.problem.y
        with Judging('metric'):
            ctx.check(set(value) == {'tsm'}, 'metric-keys', lambda: str(value))
            tsm = float(value['tsm'])
        known, _ = s.knowledge()
        pos, unknown = float((known == 1).sum()), float((known == .5).sum())
        ctx.check(0 <= tsm <= 1, 'metric-range', lambda: 'tsm = {}'.format(tsm))
        ctx.check(abs(tsm - pos / (pos + unknown)) < 1e-9, 'metric-value', lambda: 'tsm = {} with {} certain positives and {} uncertain'.format(tsm, pos, unknown))
        certain = fscore(np.where(known == 1, 1., 0.), truth)
        ctx.check(tsm <= certain + 1e-9, 'above-fscore', lambda: 'tsm = {} but the F-score of the certain positives is {}'.format(tsm, certain))
        if s.mgr_is_exploring(data):
            with Judging('prediction'):
                pred = np.asarray(learner.predict(s.problem.X.copy()), dtype=float)
                f = fscore(pred, truth)
            ctx.check(tsm <= f + 1e-9, 'above-fscore', lambda: 'tsm = {} but the F-score of the predictions is {}'.format(tsm, f))
            if tsm > .8 * f > 0:
                ctx.probe('close-to-bound')
            if tsm == 1:
                ctx.check(bool((pred == truth).all()), 'one-but-wrong', lambda: 'tsm = 1 but {} predictions are wrong'.format(int((pred != truth).sum())))
        ctx.probe('zero' if tsm == 0 else 'one' if tsm == 1 else 'between')
        ctx.log('tsm', tsm, data.labeled_size)
        ctx.state(tuple(p['mode'] for p in w['parts']), round(tsm, 2))
        return tsm

    def observe(what, arg):
        failed[0] = failed[0] or what == 'failed'
        if what == 'update':
            if failed[0]:
                ctx.probe('after-failure')
            X = s.data.data.copy()
            verify(s.data, s.learner, three_set_metric(s.data, s.learner))
            ctx.check(bool((s.data.data == X).all()), 'metric-modifies-data', '')

    s = dsm_world.Session(w, ctx, observe)
    s.mgr_is_exploring = lambda data: (w['sampler'] is None and data.labeled_size > 0) or data.labeled_set.has_positive_and_negative_labels()
    if s.problem.forced:
        return
    ctx.check(three_set_metric(s.data, s.inner) == {}, 'metric-without-model', 'a learner without polytope model has no three-set metric')
    ctx.probe('no-model')
    if plan['mode'] == 'manager':
        s.run()
        return
    from aideme import PoolBasedExploration
    from aideme.utils.convergence import metric_reached_threshold
    ctx.probe('records')
    values = []

    def callback(data, learner):
        values.append(verify(data, learner, three_set_metric(data, learner)))
    criteria = [lambda manager, metrics: manager.iters >= w['steps']]
    if plan['threshold'] is not None:
        criteria.append(metric_reached_threshold('tsm', plan['threshold']))
    expl = PoolBasedExploration(initial_sampler=s.sampler, subsampling=w['subsampling'], callback=[callback, three_set_metric], convergence_criteria=criteria)
    records = []
    for run in expl.run(s.problem.X.copy(), s.labels, s.learner, seeds=w['rows'] & 0xffffffff):
        for m in run:
            with Judging('record'):
                ctx.check(m['tsm'] == values[-1], 'record-metric', lambda: '{} vs {}'.format(m.get('tsm'), values[-1]))
            records.append(m['tsm'])
    for a in records[:-1]:
        ctx.check(plan['threshold'] is None or a < plan['threshold'], 'threshold-ignored', lambda: str(records))
    if plan['threshold'] is not None and records and records[-1] >= plan['threshold']:
        ctx.probe('threshold-reached')
