""" C20: optimizers carry nothing over between calls, and epochs cover all data """
import random

import numpy as np

from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging

ID = 'C20'
RUNS = {'quick': 7200, 'thorough': 150000}
BUDGET = 8_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('An optimizer (or a factorization learner over one) goes through a seeded history of minimisations: of other functions and data of other shapes, some ended by failures of the function, its gradient or the callback, by '
        'asynchronous interrupts, by overflow or by the iteration limit. A last minimisation must then give what a fresh, equally configured one gives, bit by bit, although memory holds other garbage. Epoch runs identify the rows used by each gradient.')
STATE_MEASURE = 'optimizer and its options, penalty, kinds of previous calls and how they ended'
REAL = ['BFGS', 'GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'Adam', 'step size schedulers', 'penalties', 'LinearFactorizationLearner', 'LinearFactorizationLoss', 'compiled loss functions']
STUBS = ['objective functions of the direct runs', 'contents of uninitialised memory (numpy\'s cache of small blocks is filled with chosen values)']
ASSUMPTIONS = ['sparse factorizations are fit with gradient methods only, as the library does', 'the line search is not combined with proximal methods, which do not support it']
NEEDS_EXT = True
LISTS = ['history']
NUMBERS = {}
SIMPLE = {}
MUST_REACH = ['direct', 'learner', 'epochs', 'func-failed', 'grad-failed', 'callback-failed', 'interrupted', 'overflow', 'limit', 'other-shape', 'shared-with-other-penalty', 'zero-rows', 'retries', 'sparse', 'partial-batch', 'several-epochs',
              'BFGS', 'GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'Adam', 'line-search', 'decay', 'converged']
GARBAGE = [0., 1., float('nan'), float('inf'), float('-inf'), 1e308, -1e308, -3.]


def gen_optimizer(rng, names=('BFGS', 'GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'FISTA', 'Adam', 'Adam')):
    name = rng.choice(names)
    o = {'max_iter': rng.choice([1, 2, 5, 15, 40]), 'gtol': rng.choice([0, 1e-4, 1e-1]), 'rel_tol': rng.choice([0, 0, 1e-3])}
    if name != 'BFGS':
        prox = name in ('ProximalGradientDescent', 'FISTA')
        o.update(step_size=rng.choice([.01, .05, .3] + ([] if prox else [None])), adapt_step_size=rng.random() < .5, adapt_every=rng.choice([1, 2, 7]), power=rng.choice([.5, 1]),
                 exp_decay=rng.choice([0, 0, .5, .9]), batch_size=rng.choice([None, None, 1, 2, 3, 5]))
    if name == 'GradientDescent':
        o['momentum'] = rng.choice([.1, .5, .9])
    if name == 'Adam':
        o.update(beta1=rng.choice([.5, .9]), beta2=rng.choice([.9, .999]))
    return {'name': name, 'options': o}


def gen_penalty(rng, prox):
    if not prox and rng.random() < .35:
        return None
    return {'name': rng.choice(['L1', 'L2Sqrt', 'Sparse', 'Sparse', 'SparseGroups', 'L2'] + ([] if prox else ['Interaction', 'Huber', 'L2SqrtGroups'])), 'value': rng.choice([1e-3, 1e-1, 2.])}


def gen_fault(rng, p):
    if rng.random() > p:
        return None
    return {'site': rng.choice(['func', 'grad', 'grad', 'callback', 'line', 'line', 'line', 'nan', 'huge']), 'kind': rng.choice(['error', 'interrupt', 'memory', 'value']), 'at': rng.choice([1, 1, 2, 3, 5, 10]), 'line': int(10 ** rng.uniform(0, 3))}


def gen_call(rng, p, shape=None):
    K, d = shape or (rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 6]))
    return {'K': K, 'd': d, 'n': rng.choice([3, 4, 7, 10]), 'data_seed': rng.getrandbits(31), 'zero': rng.random() < .35, 'fault': gen_fault(rng, p), 'x0': rng.random() < .6, 'retries': rng.choice([1, 1, 2, 3]),
            'sparse': rng.random() < .3, 'clear': rng.random() < .3, 'own_penalty': rng.random() < .3, 'optimum': rng.random() < .1}


def generate(rng, tier):
    mode = rng.choice(['direct', 'direct', 'learner', 'learner', 'epochs'])
    names = ('BFGS', 'GradientDescent', 'NoisyGradientDescent', 'ProximalGradientDescent', 'FISTA', 'FISTA', 'Adam', 'Adam')
    opt = gen_optimizer(rng, names[1:] if mode == 'epochs' else names)
    prox = opt['name'] in ('ProximalGradientDescent', 'FISTA')
    final = gen_call(rng, 0)
    history = [gen_call(rng, .6, (final['K'], final['d']) if rng.random() < .5 else None) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    if mode == 'epochs':
        opt['options'].update(batch_size=rng.choice([None, 1, 2, 3, 4, 6, 20]), gtol=0, rel_tol=0, step_size=.01, max_iter=rng.choice([3, 10, 40]))
        for c in history:
            c['n'] = rng.choice([1, 2, 3, 5, 7, 12])
    return {'mode': mode, 'opt': opt, 'penalty': gen_penalty(rng, prox), 'other_penalty': gen_penalty(rng, prox), 'history': history, 'final': final, 'bias': rng.random() < .7,
            'garbage': [rng.randrange(len(GARBAGE)) for _ in range(2)], 'callback': rng.random() < .8}


def poison(value, sizes):
    """ numpy hands out small blocks from a cache without clearing them: decide what they contain """
    keep = [np.full(n, value) for n in sizes for _ in range(8)]
    del keep


def execute(plan, ctx):
    ctx.probe(plan['mode'])
    ctx.probe(plan['opt']['name'])
    o = plan['opt']['options']
    if o.get('adapt_step_size'):
        ctx.probe('decay')
    if plan['opt']['name'] != 'BFGS' and o['step_size'] is None:
        ctx.probe('line-search')
    {'direct': direct, 'learner': learner, 'epochs': epochs}[plan['mode']](plan, ctx)


class Callback:
    def __init__(self):
        self.fail, self.seen, self.garbage = None, [], None

    def __call__(self, x):
        self.seen.append(np.asarray(x).tobytes())
        if self.garbage is not None:
            poison(*self.garbage)
        fail(self, 'callback')


def fail(obj, site):
    if obj.fail is not None and obj.fail['site'] == site:
        obj.fail['left'] -= 1
        if obj.fail['left'] == 0:
            raise FAULTS[obj.fail['kind']]()


def make_optimizer(plan, callback, penalty=None):
    from aideme.active_learning.factorization import optimization
    o = dict(plan['opt']['options'], callback=callback if plan['callback'] else None)
    if penalty is not None:
        o['penalty_term'] = penalty
    return getattr(optimization, plan['opt']['name'])(**o)


def make_penalty(spec, d):
    from aideme.active_learning.factorization import penalty
    if spec is None:
        return None
    v, groups = spec['value'], [[i for i in range(d) if i % 2 == k] for k in range(min(d, 2))]
    return {'L1': lambda: penalty.L1Penalty(v), 'L2Sqrt': lambda: penalty.L2SqrtPenalty(v), 'L2SqrtGroups': lambda: penalty.L2SqrtPenalty(v, groups), 'L2': lambda: penalty.L2Penalty(v),
            'Sparse': lambda: penalty.SparseGroupLassoPenalty(v, v), 'SparseGroups': lambda: penalty.SparseGroupLassoPenalty(v, v, groups),
            'Interaction': lambda: penalty.InteractionPenalty(v), 'Huber': lambda: penalty.HuberPenalty(v)}[spec['name']]()


def is_prox(plan):
    return plan['opt']['name'] in ('ProximalGradientDescent', 'FISTA')


def summary(result):
    out = {}
    for k in ('x', 'fun', 'it', 'nit', 'success', 'grad'):
        v = result.get(k)
        out[k] = None if v is None else np.asarray(v).tobytes() if k in ('x', 'grad') else np.asarray(v).item()
    return out


def describe(s):
    return {k: np.round(np.frombuffer(v), 6).tolist() if isinstance(v, bytes) else v for k, v in s.items()}


def guarded(ctx, call, fault, run, callback):
    """ :return: result, or None if the injected failure ended the call """
    before = ctx.faults.get('line', 0)
    if fault is not None and fault['site'] == 'line':
        LINES.arm(fault['line'], FAULTS[fault['kind']]())
    callback.fail = dict(fault, left=fault['at']) if fault is not None and fault['site'] == 'callback' else None
    try:
        return run()
    except BaseException as e:
        LINES.disarm()
        if fault is not None and is_injected(e):
            ctx.fault(fault['site'] + '-' + fault['kind'])
            ctx.probe({'line': 'interrupted'}.get(fault['site'], fault['site'] + '-failed'))
            return None
        if fault is not None and fault['site'] in ('nan', 'huge') and isinstance(e, (RuntimeError, ValueError, FloatingPointError, OverflowError)):
            ctx.probe('overflow')
            return None
        raise
    finally:
        LINES.disarm()
        callback.fail = None


# ---------------------------------------------------------------- optimizers on their own
class Objective:
    """ |A x^T - b|^2 / 2, with the penalty where the method does not handle it on its own """

    def __init__(self, plan, call, penalty, garbage):
        r = np.random.RandomState(call['data_seed'])
        self.K, self.d = call['K'], call['d']
        self.A = r.normal(size=(call['n'], self.d)) / np.sqrt(call['n'])
        self.b = r.normal(size=(call['n'], self.K))
        self.x0 = r.normal(size=(self.K, self.d))
        if call['zero']:
            self.x0[r.uniform(size=self.K) < .6] = 0
        if call['optimum']:
            self.b[:] = 0
            self.x0[:] = 0
        self.penalty, self.smooth_only = penalty, is_prox(plan)
        self.fault = call['fault']
        self.fail = dict(self.fault, left=self.fault['at']) if self.fault is not None else None
        self.garbage, self.sizes = garbage, sorted({1, self.K, self.d, self.K * self.d})

    def spoil(self, v):
        if self.fail is not None and self.fail['site'] in ('nan', 'huge'):
            self.fail['left'] -= 1
            if self.fail['left'] <= 0:
                return v * (float('nan') if self.fail['site'] == 'nan' else 1e200)
        return v

    def func(self, x):
        fail(self, 'func')
        x = np.asarray(x).reshape(self.K, self.d)
        v = np.square(self.A @ x.T - self.b).sum() / 2
        return v if self.penalty is None else v + self.penalty.loss(x)

    def grad(self, x):
        fail(self, 'grad')
        x = np.asarray(x).reshape(self.K, self.d)
        g = (self.A.T @ (self.A @ x.T - self.b)).T
        if self.penalty is not None and not self.smooth_only:
            poison(self.garbage, self.sizes)
            g = g + self.penalty.grad(x)
        g = self.spoil(g)
        poison(self.garbage, self.sizes)
        return g


def direct(plan, ctx):
    def attempt(optimizer, penalty, callback, call, garbage):
        obj = Objective(plan, call, penalty, garbage)
        x0, before = obj.x0, obj.x0.tobytes()
        if call['zero']:
            ctx.probe('zero-rows')
        if plan['opt']['name'] == 'BFGS':
            x0 = x0.ravel()
        if not call['fault'] or call['fault']['site'] not in ('nan', 'huge'):
            result = guarded(ctx, call, call['fault'], lambda: optimizer.minimize(x0, obj.func, obj.grad), callback)
        else:
            ctx.fault(call['fault']['site'])
            ctx.probe('overflow')
            result = guarded(ctx, call, call['fault'], lambda: optimizer.minimize(x0, obj.func, obj.grad), callback)
        ctx.check(obj.x0.tobytes() == before, 'starting-point-modified', lambda: '{} {}'.format(plan['opt'], call))
        return obj, result

    callback = Callback()
    dims = plan['final']['d']
    penalty = make_penalty(plan['penalty'], dims)
    optimizer = make_optimizer(plan, callback, penalty if is_prox(plan) else None)
    kept = []
    for call in plan['history']:
        call = dict(call, d=dims) if plan['penalty'] and 'Groups' in plan['penalty']['name'] else call
        if (call['K'], call['d']) != (plan['final']['K'], plan['final']['d']):
            ctx.probe('other-shape')
        obj, result = attempt(optimizer, penalty, callback, call, GARBAGE[plan['garbage'][0]])
        if result is not None:
            kept.append((result, summary(result)))
            if not result.success:
                ctx.probe('limit')
        ctx.log('call', call['K'], call['d'], call['fault'] and call['fault']['site'], None if result is None else result.success)
        ctx.state(plan['opt']['name'], plan['opt']['options'].get('step_size'), plan['penalty'] and plan['penalty']['name'], call['fault'] and (call['fault']['site'], call['fault']['kind']), result is None)

    outcomes = []
    for which in range(2):
        cb = callback if which == 0 else Callback()
        p = penalty if which == 0 else make_penalty(plan['penalty'], dims)
        o = optimizer if which == 0 else make_optimizer(plan, cb, p if is_prox(plan) else None)
        cb.seen = []
        seed(plan)
        obj, result = attempt(o, p, cb, plan['final'], GARBAGE[plan['garbage'][which]])
        with Judging('optimizer result'):
            outcomes.append((summary(result), list(cb.seen)))
            ctx.check(not np.shares_memory(result.x, obj.x0), 'result-shares-starting-point', '')
    compare(plan, ctx, outcomes)
    for result, before in kept:
        ctx.check(repr(summary(result)) == repr(before), 'earlier-result-modified', lambda: '{} -> {}'.format(describe(before), describe(summary(result))))


def seed(plan):
    np.random.seed(plan['np_seed'])
    random.seed(plan['np_seed'])


def compare(plan, ctx, outcomes):
    (used, seen), (fresh, expected) = outcomes
    ctx.check(repr(used) == repr(fresh), 'history-changes-result', lambda: '{}: reused optimizer {}\nfresh optimizer {}'.format(plan['opt'], describe(used), describe(fresh)))
    ctx.check(seen == expected, 'history-changes-iterates', lambda: '{}: {} iterates of the reused optimizer differ from the {} of the fresh one'.format(plan['opt'], len(seen), len(expected)))
    if used['success']:
        ctx.probe('converged')
    ctx.log('final', describe(used))


# ---------------------------------------------------------------- learners
def problem(plan, call):
    r = np.random.RandomState(call['data_seed'])
    X = r.normal(size=(call['n'], call['d']))
    y = (r.uniform(size=call['n']) < .5).astype(float)
    return r, X, y


def learner(plan, ctx):
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    d = plan['final']['d']

    def build(callback):
        optimizer = make_optimizer(plan, callback)
        return LinearFactorizationLearner(optimizer, penalty_term=make_penalty(plan['penalty'], d), add_bias=plan['bias']), optimizer

    def attempt(model, callback, call, garbage):
        r, X, y = problem(plan, call)
        dim = call['d'] + plan['bias']
        fact = call['K']
        if call['sparse'] and not is_prox(plan):
            ctx.probe('sparse')
            fact = [[j for j in range(call['d']) if j % call['K'] == k] or [0] for k in range(call['K'])]
        x0 = r.normal(size=(call['retries'], call['K'], dim)) if call['x0'] else None
        if x0 is not None and call['zero']:
            ctx.probe('zero-rows')
            x0[:, 0] = 0
        if call['retries'] > 1:
            ctx.probe('retries')
        fault = call['fault']
        if fault is not None and fault['site'] in ('nan', 'huge'):
            ctx.fault(fault['site'])
            X[0, 0] = float('nan') if fault['site'] == 'nan' else 1e200
        callback.garbage = (garbage, sorted({1, call['K'], call['K'] * call['d']}))
        before = [None if a is None else a.tobytes() for a in (X, y, x0)]
        result = guarded(ctx, call, fault, lambda: model.fit(X, y, fact, retries=call['retries'], x0=x0), callback)
        ctx.check(before == [None if a is None else a.tobytes() for a in (X, y, x0)], 'training-data-modified', lambda: '{} {}'.format(plan['opt'], call))
        return X, result

    callback = Callback()
    model, optimizer = build(callback)
    other = None
    for call in plan['history']:
        call = dict(call, d=d) if plan['penalty'] and 'Groups' in plan['penalty']['name'] else call
        if call['own_penalty']:  # the optimizer serves another learner, too
            ctx.probe('shared-with-other-penalty')
            if other is None:
                other = LinearFactorizationLearner(optimizer, penalty_term=make_penalty(plan['other_penalty'], d), add_bias=not plan['bias'])
            target, call = other, dict(call, d=d)
            plan2 = dict(plan, bias=not plan['bias'])
            r, X, y = problem(plan2, call)
            fault = call['fault'] if call['fault'] and call['fault']['site'] not in ('nan', 'huge') else None
            result = guarded(ctx, call, fault, lambda: target.fit(X, y, call['K']), callback)
        else:
            if call['clear']:
                model.clear()
            _, result = attempt(model, callback, call, GARBAGE[plan['garbage'][0]])
        ctx.log('fit', call['K'], call['d'], call['fault'] and call['fault']['site'], result is None)
        ctx.state('learner', plan['opt']['name'], plan['opt']['options'].get('batch_size'), plan['penalty'] and plan['penalty']['name'], call['fault'] and (call['fault']['site'], call['fault']['kind']), call['own_penalty'], result is None)

    outcomes = []
    for which in range(2):
        cb = callback if which == 0 else Callback()
        m = model if which == 0 else build(cb)[0]
        cb.seen = []
        seed(plan)
        X, result = attempt(m, cb, plan['final'], GARBAGE[plan['garbage'][which]])
        with Judging('optimizer result'):
            s = summary(result)
            s['weights'], s['bias'], s['proba'] = m.weights.tobytes(), m.bias.tobytes() if plan['bias'] else None, np.asarray(m.predict_proba(X)).tobytes()
            outcomes.append((s, list(cb.seen)))
    compare(plan, ctx, outcomes)


# ---------------------------------------------------------------- epochs
def epochs(plan, ctx):
    """ with one attribute per data point, the gradient tells which points it was computed from """
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    callback = Callback()
    optimizer = make_optimizer(plan, callback)
    spy = Spy(ctx, optimizer)
    optimizer.minimize = spy.minimize
    size = plan['opt']['options']['batch_size']
    penalty = None if not is_prox(plan) else make_penalty({'name': 'L1', 'value': 1e-6}, 1)
    model = LinearFactorizationLearner(optimizer, penalty_term=penalty, add_bias=plan['bias'])
    for call in plan['history']:
        r = np.random.RandomState(call['data_seed'])
        n, K = call['n'], call['K']
        X, y = np.eye(n) * r.uniform(.5, 2, size=(n, 1)), (r.uniform(size=n) < .5).astype(float)
        spy.start(X, y, K, plan['bias'])
        x0 = r.normal(size=(call['retries'], K, n + plan['bias'])) * .1
        before = X.tobytes(), y.tobytes(), x0.tobytes()
        fault = call['fault'] if call['fault'] and call['fault']['site'] in ('callback', 'line') else None
        guarded(ctx, call, fault, lambda: model.fit(X, y, K, retries=call['retries'], x0=x0), callback)
        ctx.check(before == (X.tobytes(), y.tobytes(), x0.tobytes()), 'training-data-modified', '')
        with Judging('batches'):
            verify_epochs(plan, ctx, spy.calls, n, size)
        ctx.log('epochs', n, size, [[b.tolist() for b in c] for c in spy.calls][:3])
        ctx.state('epochs', plan['opt']['name'], n, size, K, call['retries'], fault and fault['site'])


class Spy:
    def __init__(self, ctx, optimizer):
        self.ctx, self.real = ctx, optimizer.minimize

    def start(self, X, y, K, bias):
        self.X, self.y, self.K, self.bias, self.calls = X, y, K, bias, []

    def minimize(self, x0, func, grad):
        self.calls.append([])

        def watched(x):
            g = grad(x)
            self.calls[-1].append(self.rows(np.asarray(x), np.asarray(g)))
            return g
        return self.real(x0, func, watched)

    def rows(self, x, g):
        """ how often each row takes part in this gradient """
        n = len(self.X)
        x, g = x.reshape(self.K, -1), g.reshape(self.K, -1)
        w, b = (x[:, :-1], x[:, -1]) if self.bias else (x, 0)
        p = 1 / (1 + np.exp(-(self.X @ w.T + b)))
        q = p.prod(axis=1)
        each = ((1 - p) * np.where(self.y > 0, -1, q / (1 - q))[:, None] * self.X.diagonal()[:, None])  # n x K
        ratio = g[:, :n].T[:, 0] / each[:, 0]  # multiplicity / size of the batch
        self.ctx.check(np.isfinite(ratio).all() and (ratio > -1e-9).all(), 'gradient-not-of-a-batch', lambda: 'ratios {}'.format(ratio))
        used = np.where(ratio > 1e-9, ratio, 0)
        self.ctx.check(used.max() > 0, 'empty-batch', '')
        counts = np.round(used / used[used > 0].min()).astype(int)
        self.ctx.check(np.allclose(used, counts / counts.sum(), rtol=1e-6, atol=1e-12), 'gradient-not-of-a-batch', lambda: 'ratios {} for counts {}'.format(ratio, counts))
        return counts


def verify_epochs(plan, ctx, calls, n, size):
    whole = size is None or size >= n
    left = np.ones(n, dtype=int)
    for call in calls:
        first = True
        for k, counts in enumerate(call):
            if whole:
                ctx.check((counts == 1).all(), 'not-all-data-used', lambda: 'evaluation {} uses points {} times, batch size {}'.format(k, counts.tolist(), size))
                continue
            if first and (counts > left).any():
                left = np.ones(n, dtype=int)  # another starting point may also start another epoch
            first = False
            ctx.check((counts <= left).all(), 'point-used-twice-in-an-epoch', lambda: 'evaluation {}: {} although only {} are left in the epoch, batch size {}'.format(k, counts.tolist(), left.tolist(), size))
            ctx.check(counts.sum() == min(size, left.sum()), 'wrong-batch-size', lambda: 'evaluation {}: {} points instead of {}'.format(k, counts.sum(), min(size, left.sum())))
            if counts.sum() < size:
                ctx.probe('partial-batch')
            left = left - counts
            if not left.any():
                ctx.probe('several-epochs')
                left = np.ones(n, dtype=int)
