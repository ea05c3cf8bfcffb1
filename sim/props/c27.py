""" C27: kernel and Laplace models describe exactly the data of their last completed fit """
import random
import types
import sys
import warnings

import numpy as np
from scipy.special import expit
from scipy.stats import norm

from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging

ID = 'C27'
RUNS = {'quick': 6300, 'thorough': 100000}
BUDGET = 2_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Bayesian version spaces with the Laplace approximation, and factorization learners over kernels, go through seeded histories of fits to data of various shapes, predictions and clears, next to other objects of the same kind. Fits fail '
        'on their own (iteration limit, singular matrices, labels of another length), in the callback of the optimizer, or are interrupted anywhere and repeated. After each step the probabilities must be those of a '
        'reference (Newton iterations and dense linear algebra; explicit kernel matrices) computed from the data of the last completed fit.')
STATE_MEASURE = 'model and its options, shape of the data, how the previous steps ended'
REAL = ['BayesianLinearVersionSpace', 'BayesianKernelVersionSpace', 'LaplaceBayesianLogisticRegression', 'KernelLaplaceBayesianLogisticRegression', 'KernelBayesianLogisticRegression', 'KernelFactorizationLearner', 'LinearFactorizationLearner',
        'kernel transformers', 'scipy and scikit-learn']
STUBS = ['pystan (not installed, and not used by these models)']
ASSUMPTIONS = ['posteriors are compared where they exist and are well-conditioned', 'kernel-laplace is used with kernels whose diagonal is one, as its formula assumes', 'a fit which was interrupted asynchronously is repeated before predictions are asked for']
NEEDS_EXT = True
LISTS = ['steps']
NUMBERS = {}
SIMPLE = {'nystroem': None}
MUST_REACH = ['lin', 'kern', 'klap', 'fact', 'fact-partition', 'nystroem', 'nystroem-all', 'compared', 'improper', 'intercept', 'linear', 'rbf', 'poly', 'failed-limit', 'failed-shape', 'failed-singular', 'failed-callback', 'kept-after-failure', 'interrupted', 'cleared',
              'other-object', 'refit', 'other-shape', 'same-shape', 'both-classes', 'single-class']


def gen_step(rng, kind, shape):
    n, d = shape if rng.random() < .45 else (rng.choice([1, 2, 3, 5, 8, 13]), rng.choice([1, 2, 3, 4]))
    return {'op': rng.choice(['fit', 'fit', 'fit', 'fit', 'clear', 'other', 'other']), 'n': n, 'd': d, 'data_seed': rng.getrandbits(31), 'grid': rng.random() < .4, 'copies': rng.random() < .15, 'big': rng.random() < .1,
            'labels': rng.choice(['random', 'random', 'random', 'linear', 'one']), 'fail': rng.choice([None] * 5 + ['shape', 'callback', 'line', 'line']), 'at': rng.choice([1, 1, 2, 4]),
            'line': int(10 ** rng.uniform(0, 2.3)), 'kind': rng.choice(['error', 'interrupt', 'memory', 'value']), 'K': rng.choice([1, 2, 3]), 'partition': rng.random() < .5, 'retries': rng.choice([1, 1, 2])}


def generate(rng, tier):
    kind = rng.choice(['lin', 'kern', 'klap', 'klap', 'fact', 'fact'])
    shape = rng.choice([2, 4, 7, 12]), rng.choice([1, 2, 3, 4])
    plan = {'kind': kind, 'steps': [gen_step(rng, kind, shape) for _ in range(rng.choice([1, 2, 3, 5, 8]))], 'std': rng.choice([.1, 1., 1., 3., 10.]), 'prior': rng.choice(['gaussian', 'gaussian', 'gaussian', 'improper']),
            'intercept': rng.random() < .6, 'kernel': 'rbf' if kind == 'klap' else rng.choice(['rbf', 'rbf', 'linear', 'poly']), 'gamma': rng.choice([None, None, .1, 2.]), 'degree': rng.choice([1, 2, 3]), 'coef0': rng.choice([0., 1.]),
            'max_iter': rng.choice([10000, 10000, 10000, 8, 3]), 'nystroem': rng.choice([None, None, 2, 4, 30]), 'optimizer': rng.choice(['GradientDescent', 'BFGS']), 'opt_iter': rng.choice([1, 5, 20])}
    if kind == 'lin' and rng.random() < .4:  # covariances which are singular
        plan.update(prior='improper', max_iter=10000)
        for step in plan['steps'][1:]:
            if rng.random() < .5:
                step.update(copies=True, big=True, labels='random', op='fit', n=rng.choice([3, 5, 8]))
    return plan


def data(plan, step):
    r = np.random.RandomState(step['data_seed'])
    X = r.uniform(-1.5, 1.5, size=(step['n'], step['d']))
    if step['grid']:
        X = np.round(X * 2) / 2
    if step['copies']:
        X = np.hstack([X, X])
    if step['big'] and plan['kind'] == 'lin':
        X *= 1e4
    y = (r.uniform(size=len(X)) < .5).astype(float)
    if step['labels'] == 'linear':
        y = (X.sum(axis=1) > 0).astype(float)
    elif step['labels'] == 'one':
        y[:] = y[0]
    T = np.vstack([r.uniform(-2, 2, size=(5, X.shape[1])) * (1e4 if step['big'] and plan['kind'] == 'lin' else 1), X[:2]])
    return r, X, y, T


def make(plan, callback, optimizer=None):
    if plan['kind'] == 'fact':
        from aideme.active_learning.factorization import KernelFactorizationLearner, optimization
        if optimizer is None:
            o = {'step_size': .05, 'momentum': .5} if plan['optimizer'] == 'GradientDescent' else {}
            optimizer = getattr(optimization, plan['optimizer'])(max_iter=plan['opt_iter'], callback=callback, **o)
        return KernelFactorizationLearner(optimizer, add_bias=plan['intercept'], kernel=plan['kernel'], gamma=plan['gamma'], degree=plan['degree'], coef0=plan['coef0'], nystroem_components=plan['nystroem']), optimizer
    if 'pystan' not in sys.modules:
        sys.modules['pystan'] = types.ModuleType('pystan')
        sys.modules['pystan'].StanModel = object
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    o = dict(prior_std=plan['std'], max_iter=plan['max_iter'])
    if plan['kind'] == 'klap':
        return BayesianKernelVersionSpace(sampler='kernel-laplace', kernel='rbf', gamma=plan['gamma'], **o), None
    o.update(sampler='laplace', prior=plan['prior'], add_intercept=plan['intercept'])
    if plan['kind'] == 'lin':
        return BayesianLinearVersionSpace(**o), None
    return BayesianKernelVersionSpace(kernel=plan['kernel'], gamma=plan['gamma'], degree=plan['degree'], coef0=plan['coef0'], **o), None


class Callback:
    left, kind = None, None

    def __call__(self, x):
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                raise FAULTS[self.kind]()


# ---------------------------------------------------------------- references
def kernel_matrix(plan, A, B):
    g = plan['gamma'] or 1 / A.shape[1]
    if plan['kernel'] == 'rbf':
        return np.exp(-g * np.square(A[:, None, :] - B[None, :, :]).sum(axis=2))
    return A @ B.T if plan['kernel'] == 'linear' else (g * (A @ B.T) + plan['coef0']) ** plan['degree']


def laplace(X, y, T, info):
    """ posterior class probabilities at T, or None where they are not determined well """
    s = np.where(y == 1, 1., -1.)

    def at(w):
        m = X @ w
        p = expit(m)
        return np.logaddexp(0, -s * m).sum() + .5 * info * w @ w, X.T @ (p - (s > 0)) + info * w, (X.T * (p * (1 - p))) @ X + info * np.eye(len(w))

    w = np.zeros(X.shape[1])
    f, g, H = at(w)
    for _ in range(100):
        if not np.isfinite(H).all() or np.linalg.cond(H) > 1e8:
            return None
        step, t = np.linalg.solve(H, g), 1.
        while at(w - t * step)[0] > f and t > 1e-9:
            t /= 2
        w = w - t * step
        before, (f, g, H) = f, at(w - 0)
        if abs(before - f) <= 1e-14 * max(1, abs(f)):
            break
    else:
        return None
    if not np.isfinite(H).all() or np.linalg.cond(H) > 1e8 or np.abs(w).max() > 100:
        return None
    if info == 0 and np.abs(X @ w).max() > 8:
        return None  # separable: there is no posterior
    var = np.einsum('ij,ij->i', T, np.linalg.solve(H, T.T).T)
    return norm.cdf(T @ w / np.sqrt(var + 8 / np.pi))


def kernel_laplace(K, y, Kt, info):
    s = np.where(y == 1, 1., -1.)
    n, a = len(K), np.zeros(len(K))

    def value(a):
        f = K @ a
        return np.logaddexp(0, -s * f).sum() + .5 * info * a @ f

    for _ in range(300):
        f = K @ a
        p = expit(f)
        w = np.sqrt(p * (1 - p))
        B = info * np.eye(n) + w[:, None] * K * w
        b = w * w * f + ((s > 0) - p)
        new = (b - w * np.linalg.solve(B, w * (K @ b))) / info
        t = 1.
        while value(a + t * (new - a)) > value(a) and t > 1e-9:
            t /= 2
        change = t * (new - a)
        a = a + change
        if np.abs(change).max() < 1e-13 * max(1, np.abs(a).max()):
            break
    p = expit(K @ a)
    w = np.sqrt(p * (1 - p))
    B = info * np.eye(n) + w[:, None] * K * w
    var = (1 - np.einsum('ij,ji->i', Kt * w, np.linalg.solve(B, (Kt * w).T))) / info
    return norm.cdf(Kt @ a / np.sqrt(np.maximum(var, 0) + 8 / np.pi))


class Expected:
    """ what the model must say after a completed fit """

    def __init__(self, plan, X, y, how):
        self.plan, self.X, self.y, self.how = plan, X.copy(), y.copy(), how

    def probabilities(self, model, T):
        """ -> (probabilities, probabilities of the subspaces or None, tolerance) """
        plan, kind = self.plan, self.plan['kind']
        info = 0 if plan['prior'] == 'improper' and kind != 'klap' else plan['std'] ** -2
        ones = lambda A: np.hstack([np.ones((len(A), 1)), A]) if plan['intercept'] else A
        if kind == 'lin':
            return laplace(ones(self.X), self.y, ones(T), info), None, 1e-3
        if kind == 'kern':
            return laplace(ones(kernel_matrix(plan, self.X, self.X)), self.y, ones(kernel_matrix(plan, T, self.X)), info), None, 1e-3
        if kind == 'klap':
            return kernel_laplace(kernel_matrix(plan, self.X, self.X), self.y, kernel_matrix(plan, T, self.X), info), None, 3e-2 if plan['std'] > 2 else 5e-3
        margin = np.stack([self.features(k)(T) @ w for k, w in enumerate(self.weights)], axis=1) + self.bias
        partial = expit(margin)
        return partial.prod(axis=1), partial, 1e-7

    # factorization learners
    def features(self, k):
        plan, g = self.plan, self.how['groups'][k]
        if plan['nystroem'] is None:
            return lambda A: kernel_matrix(plan, A[:, g], self.X[:, g])
        return lambda A: self.how['nystroem'][k].transform(A[:, g])

    def train(self):
        """ the same optimizer over explicit features """
        from aideme.active_learning.factorization import LinearFactorizationLearner, optimization
        plan, how = self.plan, self.how
        if plan['nystroem'] is not None:
            from sklearn.kernel_approximation import Nystroem
            seed(plan)
            made = [Nystroem(n_components=plan['nystroem'], kernel=plan['kernel'], gamma=plan['gamma'], degree=plan['degree'], coef0=plan['coef0']).fit(self.X[:, g]) for g in (how['groups'] if how['partition'] else how['groups'][:1])]
            how['nystroem'] = made if how['partition'] else made * len(how['groups'])
        o = {'step_size': .05, 'momentum': .5} if plan['optimizer'] == 'GradientDescent' else {}
        linear = LinearFactorizationLearner(getattr(optimization, plan['optimizer'])(max_iter=plan['opt_iter'], **o), add_bias=plan['intercept'])
        F = np.stack([self.features(k)(self.X) for k in range(len(how['groups']))], axis=2)
        if plan['nystroem'] is None:
            F[np.arange(len(F)), np.arange(len(F))] += 1e-12
        linear.fit(F if how['partition'] else F[:, :, 0], self.y, len(how['groups']), retries=how['retries'], x0=how['x0'].copy())
        self.weights, self.bias = linear.weights, linear.bias


def seed(plan):
    np.random.seed(plan['np_seed'])
    random.seed(plan['np_seed'])


def fit(plan, ctx, model, callback, step):
    """ -> (Expected, or None where an interrupt ended the fit, or the failure) """
    r, X, y, T = data(plan, step)
    how, kind = {}, plan['kind']
    if kind == 'fact':
        partition = step['partition'] and X.shape[1] > 1
        K = min(step['K'], X.shape[1]) if partition else step['K']
        groups = [[j for j in range(X.shape[1]) if j % K == k] for k in range(K)] if partition else [list(range(X.shape[1]))] * K
        dim = (len(X) if plan['nystroem'] is None else min(len(X), plan['nystroem'])) + plan['intercept']
        how = {'groups': groups, 'partition': partition, 'retries': step['retries'], 'x0': r.normal(size=(step['retries'], K, dim)) * .5}
        if partition:
            ctx.probe('fact-partition')
        if plan['nystroem'] is not None:
            ctx.probe('nystroem-all' if plan['nystroem'] >= len(X) else 'nystroem')
    labels, fail = y, step['fail']
    if fail == 'shape':
        labels = np.append(y, [1., 0.])
    elif fail == 'callback' and kind == 'fact':
        callback.left, callback.kind = step['at'], step['kind']
    before = X.tobytes(), labels.tobytes()
    seed(plan)
    if fail == 'line':
        LINES.arm(step['line'], FAULTS['interrupt']())
    try:
        if kind == 'fact':
            x0 = how['x0'].copy()
            model.fit(X, labels, [list(g) for g in how['groups']] if how['partition'] else len(how['groups']), retries=how['retries'], x0=x0)
            ctx.check(x0.tobytes() == how['x0'].tobytes(), 'starting-point-modified', '')
        else:
            model.clf.fit(X, labels)
    except BaseException as e:
        LINES.disarm()
        if is_injected(e):
            ctx.fault('{}@{}'.format('interrupt' if fail == 'line' else step['kind'], fail))
            ctx.probe('interrupted' if fail == 'line' else 'failed-callback')
            return None if fail == 'line' else 'failed'
        if fail == 'shape' and isinstance(e, (ValueError, IndexError)):
            ctx.fault('labels-of-other-length')
            ctx.probe('failed-shape')
            return 'failed'
        if isinstance(e, np.linalg.LinAlgError) and kind in ('lin', 'kern') and plan['prior'] == 'improper':
            ctx.fault('singular')
            ctx.probe('failed-singular')
            return 'failed'
        unreliable = plan['kernel'] == 'poly' or (kind != 'fact' and (plan['max_iter'] < 1000 or plan['prior'] == 'improper' or step['big']))
        if isinstance(e, RuntimeError) and 'ptimization failed' in str(e) and unreliable:
            ctx.fault('iteration-limit')
            ctx.probe('failed-limit')
            return 'failed'
        raise
    finally:
        LINES.disarm()
        callback.left = None
    ctx.check(before == (X.tobytes(), labels.tobytes()), 'training-data-modified', lambda: str(step))
    if fail == 'shape' or (step['big'] and kind == 'lin'):
        return None  # no accuracy is promised for such data
    e = Expected(plan, X, y, how)
    if kind == 'fact':
        with Judging('weights'):
            e.train()
            got, bias = np.asarray(model.weights), np.asarray(model.bias)
            ctx.check(got.shape == e.weights.shape and np.allclose(got, e.weights, rtol=1e-5, atol=1e-6) and np.allclose(bias, e.bias, rtol=1e-5, atol=1e-6), 'wrong-weights',
                      lambda: '{} {}: weights {} {} instead of {} {}'.format(plan, step, got.tolist(), bias.tolist(), e.weights.tolist(), e.bias.tolist()))
            e.weights, e.bias = got, bias
    ctx.probe('single-class' if len(set(y)) == 1 else 'both-classes')
    return e


def judge(plan, ctx, model, expected, step, what):
    d = expected.X.shape[1]
    r = np.random.RandomState(step['data_seed'] ^ 1)
    scale = np.abs(expected.X).max() if plan['kind'] == 'lin' else 1.5
    T = np.vstack([r.uniform(-1.3, 1.3, size=(5, d)) * max(scale, .5), expected.X[:2]])
    before = T.tobytes()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p, labels = model.predict_proba(T), model.predict(T)
    want, partial, tol = expected.probabilities(model, T)
    if want is None:
        return
    with Judging('probabilities'):
        p, labels = np.asarray(p, dtype=float), np.asarray(labels, dtype=float)
        ctx.check(p.shape == want.shape and bool((np.abs(p - want) <= tol).all()), 'wrong-probability', lambda: '{}, {}: probabilities {} instead of {} for {} after a fit to {} labeled {}'.format(
            what, {k: v for k, v in plan.items() if k != 'steps'}, p.tolist(), want.tolist(), T.tolist(), expected.X.tolist(), expected.y.tolist()))
        ctx.check(bool((labels == (p > .5))[np.abs(p - .5) > 1e-9].all()), 'wrong-prediction', lambda: '{}: {} for probabilities {}'.format(what, labels.tolist(), p.tolist()))
        if partial is not None:
            got = np.asarray(model.partial_proba(T))
            ctx.check(got.shape == partial.shape and np.allclose(got, partial, rtol=0, atol=tol), 'wrong-partial-probability', lambda: '{}: {} instead of {}'.format(what, got.tolist(), partial.tolist()))
        ctx.check(T.tobytes() == before, 'points-modified', '')
    ctx.probe('compared')
    ctx.log(what, np.round(want, 2).tolist())
    if plan['prior'] == 'improper' and plan['kind'] in ('lin', 'kern'):
        ctx.probe('improper')


def execute(plan, ctx):
    kind = plan['kind']
    ctx.probe(kind)
    ctx.probe(plan['kernel'])
    if plan['intercept']:
        ctx.probe('intercept')
    callback = Callback()
    model, optimizer = make(plan, callback)
    expected, other, other_expected = None, None, None
    for i, step in enumerate(plan['steps']):
        what = 'step {} ({})'.format(i, step['op'])
        ctx.state(kind, plan['kernel'], plan['prior'], plan['nystroem'], step['op'], step['fail'], step['n'], step['d'], expected is None)
        if step['op'] == 'clear' and kind != 'fact':
            model.clear()
            expected = None
            ctx.probe('cleared')
            ctx.log('clear')
            continue
        if step['op'] == 'other':
            if other is None:
                other = make(plan, callback, optimizer)[0]
            ctx.probe('other-object')
            result = fit(plan, ctx, other, callback, dict(step, fail=None))
            if result != 'failed':
                other_expected = result
            if other_expected is not None:
                judge(plan, ctx, other, other_expected, step, what + ' other')
        else:
            result = fit(plan, ctx, model, callback, step)
            ctx.log('fit', step['n'], step['d'], step['fail'], type(result).__name__)
            if isinstance(result, Expected):
                if expected is not None:
                    ctx.probe('refit')
                    ctx.probe('same-shape' if expected.X.shape == result.X.shape else 'other-shape')
                expected = result
            elif result is None:
                expected = None
                again = fit(plan, ctx, model, callback, dict(step, fail=None, big=False))
                if isinstance(again, Expected):
                    expected = again
            elif expected is not None:
                ctx.probe('kept-after-failure')
        if expected is not None:
            judge(plan, ctx, model, expected, step, what)
