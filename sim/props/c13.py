""" C13: the dual space model never contradicts a truly convex user interest """
import numpy as np

from .. import dsm_world, world
from ..world import Judging

ID = 'C13'
RUNS = {'quick': 3200, 'thorough': 50000}
BUDGET = 3_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions of the dual space model, plain and factorized, over users whose positive region is convex in every subspace, on dyadic grids or real-valued data in up to 5 dimensions, with several inner learners, samplers, batch and '
        'subsampling sizes; part of them with failures of the inner learner and interrupts. After every step each inferred label is compared with the label the user would give.')
STATE_MEASURE = 'modes, labeled, inferred and unknown counts'
REAL = ['DualSpaceModel, FactorizedDualSpaceModel', 'polytope models, hulls and cones, Qhull', 'ExplorationManager', 'PartitionedDataset', 'SimpleMargin, RandomSampler, KernelVersionSpace']
STUBS = ['one-nearest-neighbour inner learner (part of the runs)', 'the user']
ASSUMPTIONS = ['data lies on dyadic grids, or the convex region is separated from the other points by a clear margin (1e-5 of the spread)', "'persist' mode is given convex positive regions, 'negative' mode convex negative regions"]
NEEDS_EXT = False
LISTS = ['w.faults']
NUMBERS = {'w.steps': 1, 'w.n': 4}
SIMPLE = {'w.subsampling': None, 'w.index.style': 'range', 'w.scale': 1., 'w.offset': 0}
MUST_REACH = ['inferred-positive', 'inferred-negative', 'factorized', 'plain', 'persist', 'negative', 'positive', 'categorical', 'multiset', 'labeling', 'probabilities', 'all-determined', 'after-failure', 'batch', 'grid', 'uniform', 'normal', 'offset', 'mixed', 'rounded']


def generate(rng, tier):
    return {'w': dsm_world.generate(rng, ['convex'], real=rng.random() < .5)}


def execute(plan, ctx):
    w = plan['w']
    ctx.probe('factorized' if w['factorized'] else 'plain')
    ctx.probe(w.get('real') or 'grid')
    for p in w['parts']:
        ctx.probe(p['mode'])
    failed = [False]

    def observe(what, arg):
        failed[0] = failed[0] or what == 'failed'
        if what == 'asked':
            if len(arg) > 1:
                ctx.probe('batch')
            return
        verify(s, ctx, failed[0])

    s = dsm_world.Session(w, ctx, observe)
    if s.problem.forced:
        return
    s.run()
    truth, data, learner = s.problem.y, s.data, s.learner
    if data.labeled_set.has_positive_and_negative_labels() and s.mgr.is_exploration_phase and not s.refit and s.fits is not None:
        ctx.probe('labeling')
        known, _ = s.knowledge()
        with Judging('labeling'):
            out = s.mgr.compute_user_labels_prediction()
            got = {i: float(l) for i, l in zip(np.asarray(out.index).tolist(), out.labels)}
            for i in data.inferred.index.tolist() + data.labeled.index.tolist():
                r = s.problem.row_of[i]
                ctx.check(got[i] == truth[r], 'wrong-final-label', lambda: 'point {} is labeled {} but the user says {}'.format(i, got[i], truth[r]))
            pred = np.asarray(learner.predict(s.problem.X.copy()), dtype=float)
            bad = np.where((known != .5) & (pred != truth))[0]
            ctx.check(len(bad) == 0, 'wrong-prediction', lambda: 'known points {} predicted {}'.format(s.problem.X[bad[:3]].tolist(), pred[bad[:3]]))
            if w['inner']['name'] in ('stub', 'stub_batch', 'random'):
                ctx.probe('probabilities')
                proba = np.asarray(learner.predict_proba(s.problem.X.copy()), dtype=float)
                bad = np.where((known != .5) & (proba != truth))[0]
                ctx.check(len(bad) == 0, 'wrong-probability', lambda: 'known points {} have probability {}'.format(s.problem.X[bad[:3]].tolist(), proba[bad[:3]]))


def verify(s, ctx, failed):
    truth, data = s.problem.y, s.data
    known, valid = s.knowledge()
    ctx.check(valid, 'false-conflict', lambda: 'the polytope model became invalid over a convex interest: {}'.format(s.ledger.given))
    bad = np.where((known != .5) & (known != truth))[0]
    ctx.check(len(bad) == 0, 'unsound', lambda: 'point {} is inferred as {} but the user says {}; answers {}'.format(
        s.problem.X[bad[0]].tolist(), known[bad[0]], truth[bad[0]], [(s.problem.X[s.problem.row_of[i]].tolist(), v) for i, v in s.ledger.given.items()]))
    if s.w['factorized']:
        with Judging('partial'):
            part = np.array(s.learner.polytope_model.predict_partial(s.problem.X.copy()), dtype=float)
            ctx.check(part.shape == s.problem.partial.shape, 'partial-shape', lambda: str(part.shape))
            bad = (part != .5) & (part != s.problem.partial)
            ctx.check(not bad.any(), 'unsound-partial', lambda: str(np.argwhere(bad)[:3]))
    inferred = data.inferred
    with Judging('inferred'):
        rows = s.problem.rows(inferred.index.tolist())
        ctx.check(bool((np.asarray(inferred.data) == s.problem.X[rows]).all()), 'inferred-rows', 'rows of the inferred partition do not match its indexes')
        ctx.check(bool((known[rows] != .5).all()), 'inferred-undetermined', lambda: 'inferred without being known: {}'.format(s.problem.X[rows[known[rows] == .5]].tolist()))
    if (known[rows] == 1).any():
        ctx.probe('inferred-positive')
    if (known[rows] == 0).any():
        ctx.probe('inferred-negative')
    if len(rows) and data.unknown_size == 0:
        ctx.probe('all-determined')
    if failed and len(rows):
        ctx.probe('after-failure')
