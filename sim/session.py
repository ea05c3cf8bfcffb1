""" Builds and drives exploration sessions from plans: pool-based sessions (the library's loop) and manager sessions (our loop). """
import random

import numpy as np

from . import world
from .kernel import Violation, is_injected
from .world import Judging, Problem, chance


LARGE = ('stub', 'stub_batch', 'random', 'simple', 'dsm_stub', 'fdsm_stub')


def gen_session(rng, names, n=(6, 28), d=(1, 4), noise=False, parts=None, faults=False, styles=None, data_kinds=None, sampler=True):
    learner = world.gen_learner(rng, names)
    name = learner['name']
    if name in ('fdsm', 'fdsm_pos', 'fdsm_stub', 'ssm', 'svs'):
        parts = 2
    kw = {}
    if styles:
        kw['styles'] = styles
    if data_kinds:
        kw['data_kinds'] = data_kinds
    problem = world.gen_problem(rng, name, n, d, parts, **kw)
    info = world.LEARNERS[name]
    large = name in LARGE and n[1] >= 20 and rng.random() < .05
    if large:  # well beyond the usual sizes
        problem['data']['n'] = rng.choice([40, 90, 257, 300])
    s = {'problem': problem, 'learner': learner, 'sampler': world.gen_sampler(rng, name, problem['data']['n']) if sampler else None,
         'subsampling': rng.choice([None, None, 1, 2, 5, 100]), 'skip': rng.choice([1, 1, 2, 3, 7]),
         'max_iter': rng.choice([1, 3, 6, 10]) if info else rng.choice([2, 6, 15, 60]), 'np_seed': rng.getrandbits(32) * (rng.random() >= .1)}
    if large:
        s['subsampling'], s['max_iter'] = rng.choice([None, None, 3, 50]), rng.choice([3, 10, 40])
    if name.startswith('svs') or name == 'ssm' or name.startswith('swap') or name == 'flm':
        s['max_iter'] = min(s['max_iter'], 8)
    return s


class Built:
    pass


def build(s, ctx, seams=None, problem=None, on_fit=None):
    """ every object of a session; the caller decides how to run it """
    b = Built()
    b.spec, b.ctx, b.seams = s, ctx, seams
    b.problem = problem or Problem(s['problem'])
    b.labels = b.problem.labeled_set()
    b.learner = world.make_learner(s['learner'], b.problem.d, seams, on_fit)
    b.sampler = world.make_sampler(s['sampler'], b.problem, b.problem.labeled_set(), seams)
    return b


def spy_fit(learner, sink):
    """ records the training sets handed to a learner; the learner itself stays the real one """
    original = learner.fit

    def fit(X, y):
        sink.append((np.array(X), np.array(y)))
        return original(X, y)

    learner.fit = fit


class Ledger:
    """ what the user answered so far: the model of a session's labeled set """

    def __init__(self, ctx, problem):
        self.ctx, self.problem, self.order, self.given = ctx, problem, [], {}
        self.batches = []

    def add(self, idxs, labels, partial):
        ctx = self.ctx
        ctx.check(len(idxs) > 0, 'empty-batch', 'an iteration labeled no point')
        ctx.check(len(idxs) == len(labels) == len(partial), 'batch-shape', lambda: '{} {} {}'.format(idxs, labels, partial))
        for i, y, p in zip(idxs, labels, partial):
            ctx.check(i in self.problem.row_of, 'alien-index', lambda: str(i))
            ctx.check(i not in self.given, 'asked-twice', lambda: 'index {} was presented twice'.format(i))
            self.given[i] = (float(y), [float(v) for v in p])
            self.order.append(i)
        self.batches.append(list(idxs))

    def truth(self, i):
        r = self.problem.row_of[i]
        return float(self.problem.y[r]), [float(v) for v in self.problem.partial[r]]

    def verify_training(self, X, y, what, partial=None):
        """ X, y hold every labeled point exactly once, each with its own row and label """
        ctx, problem = self.ctx, self.problem
        with Judging(what):
            ctx.check(len(X) == len(y) == len(self.given), what + '-size',
                      lambda: '{} rows and {} labels for {} labeled points'.format(len(X), len(y), len(self.given)))
            want = sorted((tuple(problem.X[problem.row_of[i]].tolist()), tuple(v[1]) if partial else v[0]) for i, v in self.given.items())
            got = sorted((tuple(np.asarray(x).tolist()), tuple(np.ravel(l).tolist()) if partial else float(l)) for x, l in zip(X, y))
            ctx.check(want == got, what + '-mismatch', lambda: 'expected {} got {}'.format(want[:6], got[:6]))


def run_pool(b, ctx, seeds=None, callback=None, criteria=None, noise=None, copy=True, repeat=1, data=None, generator=True, labels=None):
    """ -> what PoolBasedExploration.run returns """
    from aideme import PoolBasedExploration
    s = b.spec
    expl = PoolBasedExploration(initial_sampler=b.sampler, subsampling=s['subsampling'], callback=callback, callback_skip=s['skip'],
                                convergence_criteria=criteria, noise_injector=noise)
    return expl.run(b.problem.X.copy() if data is None else data, b.labels if labels is None else labels, b.learner,
                    repeat=repeat, seeds=s['np_seed'] if seeds is None else seeds, copy=copy, return_generator=generator)


def first_run(runs):
    return next(iter(runs))


def max_iter(n):
    def criterion(manager, metrics):
        return manager.iters >= n
    return criterion


# ---------------------------------------------------------------- comparing executions
def watch(data, learner):
    """ a callback exposing the visible state of the dataset """
    return {'w_labeled': data.labeled.index.tolist(), 'w_inferred': sorted(data.inferred.index.tolist()), 'w_unknown': sorted(data.unknown.index.tolist())}


def quality(problem):
    """ a callback using the predictions of the learner, once it has both classes """
    def callback(data, learner):
        labels = data.labeled_set.labels
        if len(np.unique(labels)) < 2:
            return None
        return {'w_positive': float(np.sum(learner.predict(problem.X)))}
    return callback


def item(m):
    """ everything an iteration record says, except for the values of timings """
    return (world.clean(m), tuple(sorted(k for k in m if k.endswith('_time'))))


def difference(want, got, what=''):
    """ -> None if both traces are the same """
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            keys = [k for k in sorted(set(a[0]) | set(b[0])) if a[0].get(k) != b[0].get(k)]
            return '{} iteration {}: {} timings {} / {}'.format(what, i + 1, [(k, a[0].get(k), b[0].get(k)) for k in keys][:4], a[1], b[1])[:900]
    if len(want) != len(got):
        return '{} expected {} iterations, got {}'.format(what, len(want), len(got))
    return None


def exploration(b, s, callback=None, criteria=None, noise=None, limit=None):
    from aideme import PoolBasedExploration
    from aideme.utils.noise import random_noise_injector
    if callback is None:
        callback = [watch]
    if criteria is None:
        criteria = max_iter(s['max_iter'] if limit is None else limit)
    if noise is None and s.get('noise') is not None:
        noise = random_noise_injector(s['noise'], s.get('noise_skip', 0))
    return PoolBasedExploration(initial_sampler=b.sampler, subsampling=s['subsampling'], callback=callback, callback_skip=s['skip'],
                                convergence_criteria=criteria, noise_injector=noise)


def plain_trace(expl, b, learner=None, seed=None, **kw):
    runs = expl.run(b.problem.X, b.labels, b.learner if learner is None else learner, repeat=1, seeds=b.spec['np_seed'] if seed is None else seed, **kw)
    return [item(m) for m in next(iter(runs))]


def disturb(kind, b, s, ctx):
    """ things a process may do before or between explorations """
    from aideme.utils import metric_logger
    if kind == 'rng':
        np.random.seed(s['np_seed'] % 1000)
        np.random.rand(3)
        random.random()
    elif kind == 'metrics':
        metric_logger.log_metric('w_stale', 1)
        metric_logger.log_metric('phase', 'stale')
        metric_logger.log_metric('labeled_indexes', [12345])
        metric_logger.log_metric('rounding_iters', 7, on_duplicates='append')
    elif kind == 'other':
        other = dict(s, learner={'name': 'stub', 'seed': 1}, sampler=None, max_iter=3, noise=None)
        o = build(other, ctx, problem=b.problem)
        plain_trace(exploration(o, other), o)
    elif kind == 'abandoned':
        other = dict(s, learner={'name': 'stub', 'seed': 1}, sampler=None, max_iter=3, noise=None)
        o = build(other, ctx, problem=b.problem)
        run = next(iter(exploration(o, other).run(o.problem.X, o.labels, o.learner, seeds=3)))
        next(run)
        return run  # stays alive while the rest of the run goes on
