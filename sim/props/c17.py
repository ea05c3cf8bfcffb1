""" C17: everything sampled from a version space agrees with every label given """
import random

import numpy as np
import scipy.optimize

from .. import session, world
from ..kernel import FAULTS, LINES, Violation, is_injected
from ..session import Ledger
from ..world import Judging

ID = 'C17'
RUNS = {'quick': 6300, 'thorough': 100000}
BUDGET = 12_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sampler runs grow linearly separable training sets step by step and sample after each step, under all options of the sampler; solver failures and asynchronous interrupts hit some steps, which are then retried '
        'or skipped. Every sample is checked against every half-space and the unit ball. Session runs drive version space learners (linear, kernel, categorical, multiset, and combinations over subspaces) through whole sessions with failing solvers, draws and interrupts; direct runs '
        'fit them over growing training sets; their predictions on the training set, and after a failed fit on the last one, are compared with the labels.')
STATE_MEASURE = 'sampler options, dimension, number of points, kind of failure, what happened afterwards'
REAL = ['HitAndRunSampler', 'RoundingAlgorithm', 'Ellipsoid', 'BoundedPolyhedralCone', 'LinearVersionSpace', 'KernelVersionSpace', 'CategoricalActiveLearner, MultiSetActiveLearner', 'SubspatialVersionSpace', 'ExplorationManager', 'PartitionedDataset', 'scipy linprog (unless failing)']
STUBS = ['failing linear programming solver (the fault seam)', 'the user']
ASSUMPTIONS = ['training sets are separable with a margin of at least 2% (up to 5e-4 in thin cases)', 'at least two dimensions, counting the intercept', 'kernel learners with a rounding cache receive one more point per sample, and their failed steps are retried']
NEEDS_EXT = False
LISTS = ['steps', 'faults']
NUMBERS = {'session.problem.data.n': 4}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range'}
MUST_REACH = ['sampler', 'session', 'cold-start', 'warm-start', 'solver-used', 'solver-failed', 'interrupted', 'retried', 'skipped', 'cleared', 'shrunk', 'recovered', 'thin', 'single-class', 'flipped', 'fit-failed', 'direct']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')
NAMES = ['lvs', 'lvs', 'lvs_nr', 'lvs_def', 'kvs', 'kvs', 'kvs_nr', 'kvs_def', 'kvs_sphere', 'kvs_multi', 'kvs_nodec', 'kvs_poly', 'kvs_poly_g', 'kvs_lin', 'kvs_rbf_g', 'svs', 'svs_mix', 'svs_mix', 'cat', 'mset', 'mset']
CACHED = ('kvs', 'kvs_lin', 'kvs_multi', 'kvs_poly_g', 'kvs_sphere')  # their rounding ellipsoids only grow by one point at a time


def generate(rng, tier):
    if rng.random() < .5:
        s = session.gen_session(rng, NAMES, n=rng.choice([(5, 14), (3, 8), (15, 25)]), d=(1, 4))
        s['max_iter'] = min(s['max_iter'], 10)
        faults = []
        if rng.random() < .6:
            for _ in range(rng.randint(1, 4)):
                faults.append({'at': rng.randint(1, 10), 'where': rng.choice(['update', 'update', 'next', 'solver', 'sampling', 'sampling']), 'kind': rng.choice(['error', 'interrupt', 'memory']),
                               'line': int(10 ** rng.uniform(0, 3.6)), 'draw': int(10 ** rng.uniform(0, 2.2))})
        if s['learner']['name'] in ('cat', 'mset') and rng.random() < .6:  # interrupts around the end of the initial sampling phase
            s['sampler'] = {'kind': 'random', 'size': rng.choice([1, 1, 2])}
            faults = [{'at': k, 'where': 'update', 'kind': 'interrupt', 'line': int(10 ** rng.uniform(1, 2.7)), 'draw': 1} for k in range(1, 7)]
        if rng.random() < .35:
            s['problem']['int_labels'] = False
            steps = [{'add': rng.choice([1, 1, 1, 2, 4]), 'clear': rng.random() < .08, 'fault': rng.choice([None, None, None, 'solver', 'draw', 'draw', 'draw']), 'draw': int(10 ** rng.uniform(0, 2.2)),
                      'kind': rng.choice(['error', 'memory', 'interrupt']), 'copy': rng.random() < .4} for _ in range(rng.choice([2, 5, 9]))]
            return {'mode': 'direct', 'session': s, 'steps': steps, 'order': rng.getrandbits(31)}
        return {'mode': 'session', 'session': s, 'faults': faults}
    dim = rng.choice([2, 2, 3, 3, 4, 5, 7])
    options = {'single_chain': rng.random() < .6, 'warmup': rng.choice([1, 1, 5, 20, 100]), 'thin': rng.choice([1, 2, 10]), 'cache_samples': rng.random() < .7,
               'rounding': rng.random() < .7, 'rounding_cache': rng.random() < .7,
               'rounding_options': rng.choice([None, {'max_iter': rng.choice([1, 2, 5, 30])}, {'strategy': 'default'}, {'strategy': 'default', 'max_iter': rng.choice([1, 5, 50])}, {'z_cut': False},
                                               {'sphere_cuts': True}, {'sphere_cuts': True, 'max_iter': 20}, {'z_cut': False, 'max_iter': rng.choice([1, 3, 10])}])}
    margin = rng.choice([.02, .02, .02, .1, .0005])
    steps = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        fault = None
        if rng.random() < .3:
            fault = {'kind': rng.choice(['error', 'interrupt', 'memory', 'value', 'fail', 'fail']), 'site': rng.choice(['solver', 'line', 'line']), 'line': int(10 ** rng.uniform(0, 3.5)),
                     'then': rng.choice(['retry', 'retry', 'skip'])}
        steps.append({'add': rng.choice([1, 1, 1, 2, 5]), 'n': rng.choice([1, 2, 4, 10]), 'fault': fault, 'clear': rng.random() < .06, 'shrink': rng.random() < .08, 'flip': rng.random() < .05})
    return {'mode': 'sampler', 'dim': dim, 'data_seed': rng.getrandbits(31), 'options': options, 'margin': margin, 'steps': steps, 'scale': rng.choice([1, 1, 1, 1e-3, 1e4])}


class Solver:
    """ the linear programming seam: counts calls, and fails when told so """

    def __init__(self, ctx):
        self.real, self.ctx, self.fail, self.calls = scipy.optimize.linprog, ctx, None, 0

    def __call__(self, *a, **k):
        self.calls += 1
        self.ctx.probe('solver-used')
        if self.fail is not None:
            kind, self.fail = self.fail, None
            self.ctx.fault('solver-' + kind)
            self.ctx.probe('solver-failed')
            if kind != 'fail':
                raise FAULTS[kind]()
            self.failed_result = True
            return scipy.optimize.OptimizeResult(success=False, status=4, message='injected: numerical difficulties', x=np.full(len(a[0] if a else k['c']), np.nan), fun=np.nan)
        return self.real(*a, **k)


class Draws:
    """ the seam of random draws: every draw allocates an array, which may fail """
    NAMES = ['normal', 'uniform', 'randint', 'rand', 'randn', 'random', 'standard_normal', 'random_sample', 'choice', 'permutation']

    def __init__(self, ctx):
        self.ctx, self.real, self.left, self.kind = ctx, {n: getattr(np.random, n) for n in self.NAMES}, None, None

    def install(self):
        for n in self.NAMES:
            setattr(np.random, n, self.seam(self.real[n]))

    def remove(self):
        for n in self.NAMES:
            setattr(np.random, n, self.real[n])

    def seam(self, f):
        def draw(*a, **k):
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.left = None
                    self.ctx.fault('draw-' + self.kind)
                    raise FAULTS[self.kind]()
            return f(*a, **k)
        return draw


def execute(plan, ctx):
    solver, draws = Solver(ctx), Draws(ctx)
    scipy.optimize.linprog = solver
    draws.install()
    try:
        if plan['mode'] == 'sampler':
            sampling(plan, ctx, solver)
        else:
            (learning if plan['mode'] == 'session' else direct)(plan, ctx, solver, draws)
    finally:
        scipy.optimize.linprog = solver.real
        draws.remove()


def points(r, w, n, margin, scale):
    """ n points whose angle with the separating plane of w is at least 'margin' """
    out = []
    while len(out) < n:
        x = r.normal(size=len(w))
        if margin < .001:  # thin: some points just beyond the margin
            x -= (x @ w) * w * (1 - margin * r.choice([2, 10]))
        if np.linalg.norm(x) > 0 and abs(x @ w) >= margin * np.linalg.norm(x):
            out.append(x * scale)
    return np.array(out)


def sampling(plan, ctx, solver):
    from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
    ctx.probe('sampler')
    r = np.random.RandomState(plan['data_seed'])
    w = r.normal(size=plan['dim'])
    w /= np.linalg.norm(w)
    sampler = HitAndRunSampler(**plan['options'])
    X, y = np.empty((0, plan['dim'])), np.empty(0)
    handed_out, warm = [], False
    if plan['margin'] < .001:
        ctx.probe('thin')
    for k, step in enumerate(plan['steps']):
        if step['shrink'] and len(X) > 1:  # another training set: fewer points
            keep = r.permutation(len(X))[:max(1, len(X) // 2)]
            X, y = X[keep], y[keep]
            if plan['options']['rounding'] and plan['options']['rounding_cache']:
                sampler.clear()  # the cached ellipsoid only suits growing training sets
            ctx.probe('shrunk')
        new = points(r, w, step['add'], plan['margin'], plan['scale'])
        X, y = np.vstack([X, new]), np.hstack([y, (new @ w > 0).astype(float)])
        if step['flip']:  # another user, who answers the opposite
            w, y = -w, 1 - y
            if plan['options']['rounding'] and plan['options']['rounding_cache']:
                sampler.clear()
            ctx.probe('flipped')
        if step['clear']:
            sampler.clear()
            warm = False
            ctx.probe('cleared')
        fault = step['fault']
        before = solver.calls
        given = (X.tobytes(), y.tobytes())
        if fault is not None:
            if attempt(ctx, solver, sampler, X, y, step['n'], fault, handed_out) == 'failed':
                ctx.log('failed', k, fault['site'], fault['kind'])
                ctx.state('failed', fault['site'], fault['kind'], fault['then'], sorted(plan['options'].items(), key=str), len(X), plan['dim'])
                ctx.check((X.tobytes(), y.tobytes()) == given, 'training-set-modified', 'a failed step modified its arguments')
                if fault['then'] == 'skip':
                    ctx.probe('skipped')
                    continue
                ctx.probe('retried')
        got = sampler.sample(X, y, step['n'])
        ctx.check((X.tobytes(), y.tobytes()) == given, 'training-set-modified', 'sampling modified its arguments')
        verify(ctx, got, X, y, step['n'])
        for copy, original in handed_out:
            ctx.check(np.array_equal(copy, original), 'samples-modified-later', lambda: '{} {}'.format(copy, original))
        handed_out.append((got.copy(), got))
        ctx.probe('warm-start' if warm and solver.calls == before else 'cold-start')
        if len(set(y.tolist())) == 1:
            ctx.probe('single-class')
        warm = True
        ctx.log('step', k, len(X), np.round(got, 6).tolist())
        ctx.state(sorted(plan['options'].items(), key=str), len(X), plan['dim'], solver.calls - before, int(y.sum()))


def attempt(ctx, solver, sampler, X, y, n, fault, handed_out):
    solver.failed_result = False
    if fault['site'] == 'solver':
        solver.fail = fault['kind']
    elif fault['kind'] != 'fail':
        LINES.arm(fault['line'], FAULTS[fault['kind']]())
    try:
        got = sampler.sample(X, y, n)
        LINES.disarm()
    except BaseException as e:
        LINES.disarm()
        solver.fail = None
        if is_injected(e):
            if fault['site'] == 'line':
                ctx.fault('line-' + fault['kind'])
                ctx.probe('interrupted')
        elif not (solver.failed_result and isinstance(e, RuntimeError)):
            raise
        return 'failed'
    ctx.check(not solver.failed_result, 'solver-failure-ignored', 'the solver failed, yet samples were returned')
    solver.fail = None
    verify(ctx, got, X, y, n)
    handed_out.append((got.copy(), got))
    return 'ok'


def verify(ctx, got, X, y, n):
    with Judging('samples'):
        got = np.asarray(got)
        ctx.check(got.shape == (n, X.shape[1]), 'wrong-shape', lambda: '{} for {} samples of dimension {}'.format(got.shape, n, X.shape[1]))
        ctx.check(np.isfinite(got).all(), 'sample-not-finite', lambda: str(got))
        norms = np.linalg.norm(got, axis=1)
        ctx.check((norms <= 1 + 1e-9).all(), 'outside-unit-ball', lambda: str(norms))
        ctx.check((norms > 0).all(), 'zero-classifier', lambda: str(got))
        margins = (got @ X.T) * np.where(y == 1, 1, -1) / np.linalg.norm(X, axis=1)
        ctx.check((margins >= -1e-10).all(), 'label-contradicted', lambda: 'smallest margin {} of {} samples over {} points'.format(margins.min(), n, len(X)))


# ---------------------------------------------------------------- sessions
def learning(plan, ctx, solver, draws):
    from aideme.explore import ExplorationManager, PartitionedDataset
    ctx.probe('session')
    s = plan['session']
    b = session.build(s, ctx)
    problem, learner, factorized = b.problem, b.learner, s['learner']['name'].startswith('svs')
    data = PartitionedDataset(problem.X, problem.ids, copy=True)
    mgr = ExplorationManager(data, learner, subsampling=s['subsampling'], initial_sampler=b.sampler)
    mgr.clear()
    ledger = Ledger(ctx, problem)
    faults = {}
    for f in plan['faults']:
        faults.setdefault(f['at'], f)
    refit = failed = False
    attempts, fitted = 0, None
    while not mgr.converged() and len(ledger.batches) < s['max_iter'] and attempts < s['max_iter'] + len(plan['faults']) + 2:
        attempts += 1
        fault = faults.pop(attempts, None)
        step, solver.failed_result, solver.fail, inside = 'refit', False, None, False
        try:
            if fault and fault['where'] == 'sampling':
                draws.left, draws.kind, inside = fault['draw'], fault['kind'], True
            if fault and fault['where'] == 'solver':
                solver.fail = 'fail'
            if refit:
                learner.fit_data(data)
                refit = False
                fitted = trained(ctx, learner, data, factorized)
            step = 'next'
            if fault and fault['where'] == 'next':
                LINES.arm(fault['line'], FAULTS[fault['kind']](), MASK)
            idxs = mgr.get_next_to_label().index.tolist()
            LINES.disarm()
            user = b.labels.get_index(idxs)
            step = 'update'
            if fault and fault['where'] == 'update':
                LINES.arm(fault['line'], FAULTS[fault['kind']](), MASK)
            mgr.update(user)
            LINES.disarm()
            draws.left = None
            ledger.add(idxs, user.labels.tolist(), user.partial.tolist())
        except BaseException as e:
            LINES.disarm()
            draws.left = None
            if not is_injected(e) and not (solver.failed_result and isinstance(e, RuntimeError)):
                raise
            failed = True
            ctx.fault('{}@{}'.format(type(e).__name__ if is_injected(e) else 'solver', step))
            if step == 'update' and set(idxs) <= set(data.labeled.index.tolist()):
                ledger.add(idxs, user.labels.tolist(), user.partial.tolist())
            refit = refit or (step == 'update' and mgr.is_exploration_phase and len(ledger.given) == data.labeled_size > 0)
            ctx.log('failed', step, type(e).__name__)
            if fitted is not None and step != 'next' and (inside or not is_injected(e)):
                ctx.probe('fit-failed')  # no new samples: those of the last training set are still there
                agree(ctx, learner, *fitted, factorized)
            continue
        if mgr.is_exploration_phase:
            fitted = trained(ctx, learner, data, factorized)
            if failed:
                ctx.probe('recovered')
        ctx.log('iter', idxs, mgr.phase.value)
        ctx.state(s['learner']['name'], len(ledger.given), failed)


def direct(plan, ctx, solver, draws):
    """ a learner used on its own, over growing training sets """
    ctx.probe('direct')
    s = plan['session']
    b = session.build(s, ctx)
    problem, learner, factorized = b.problem, b.learner, s['learner']['name'].startswith('svs')
    order, size, fitted = np.random.RandomState(plan['order']).permutation(problem.n), 0, None
    for step in plan['steps']:
        one = s['learner']['name'] in CACHED and fitted is not None and not step['clear']
        size = min(size + (1 if one else step['add']), problem.n)
        if step['clear']:
            learner.clear()
            fitted = None
            ctx.probe('learner-cleared')
        X, y = problem.X[order[:size]], (problem.partial if factorized else problem.y)[order[:size]].astype(float)
        given = (X.tobytes(), y.tobytes())
        for attempt in (1, 2):
            solver.failed_result, solver.fail = False, None
            if attempt == 1 and step['fault'] == 'solver':
                solver.fail = 'fail'
            elif attempt == 1 and step['fault'] == 'draw':
                draws.left, draws.kind = step['draw'], step['kind']
            try:
                learner.fit(X, y)
                draws.left = solver.fail = None
            except BaseException as e:
                draws.left = solver.fail = None
                if not is_injected(e) and not (solver.failed_result and isinstance(e, RuntimeError)):
                    raise
                if fitted is not None:
                    ctx.probe('fit-failed')
                    agree(ctx, learner, *fitted, factorized)
                continue
            break
        ctx.check((X.tobytes(), y.tobytes()) == given, 'training-set-modified', 'fit modified its arguments')
        agree(ctx, learner, X.copy() if step['copy'] else X, y, factorized)
        ctx.check((X.tobytes(), y.tobytes()) == given, 'training-set-modified', 'predictions modified the training set')
        fitted = (X, y)
        ctx.log('fit', size, attempt)
        ctx.state(s['learner']['name'], size, attempt)


def trained(ctx, learner, data, factorized):
    X, y = data.training_set(get_partial=factorized)
    agree(ctx, learner, X, y, factorized)
    ctx.log('trained', len(y))
    return np.array(X), np.array(y)


def agree(ctx, learner, X, y, factorized):
    with Judging('predictions'):
        if factorized:
            proba = np.asarray(learner.predict_proba_all(X)).T
            known = borderline(ctx, lambda Z: np.asarray(learner.predict_proba_all(Z)).T, X, proba, y)
            ctx.check(known is not None, 'label-contradicted', lambda: 'partial labels {} predicted with probabilities {}'.format(y.tolist(), proba.tolist()))
            proba, y = np.asarray(learner.predict_proba(X)), y.min(axis=1)
        else:
            proba = np.asarray(learner.predict_proba(X))
            known = borderline(ctx, learner.predict_proba, X, proba, y)
            ctx.check(known is not None, 'sampled-classifier-contradicts-label', lambda: 'labels {} predicted with probabilities {}'.format(y.tolist(), proba.tolist()))
        pred = np.asarray(learner.predict(X))
        ctx.check(np.isfinite(proba).all(), 'probability-not-finite', lambda: str(proba))
        ctx.check(known or np.array_equal(pred, y), 'training-label-contradicted', lambda: 'labels {} predicted {}'.format(y.tolist(), pred.tolist()))
        ctx.check(known or np.array_equal(proba, y), 'sampled-classifier-contradicts-label', lambda: 'labels {} predicted with probabilities {}'.format(y.tolist(), proba.tolist()))


def borderline(ctx, predict, X, proba, y):
    """
    -> False if all probabilities repeat the labels; True if they do up to one classifier at one point, whose boundary passes right through the point
    (kernel features are only accurate up to the square root of the jitter); None if they do not
    """
    if proba.shape != y.shape or not np.isfinite(proba).all():
        return None
    wrong = np.argwhere(proba != y)
    if len(wrong) == 0:
        return False
    at = tuple(wrong[0])
    if len(wrong) > 1 or abs(proba[at] - y[at]) > 1.01 / world.VS['n_samples']:
        return None
    near = X[at[0]] + 1e-5 * (1e-3 + X.std()) * np.random.RandomState(0).normal(size=(64, X.shape[1]))
    if not (np.asarray(predict(near))[(slice(None),) + at[1:]] == y[at]).any():
        return None
    ctx.probe('borderline')
    return True
