""" C18: the rounding ellipsoid always encloses the version space """
import numpy as np
import scipy.linalg

from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging
from .c17 import points

ID = 'C18'
RUNS = {'quick': 9000, 'thorough': 80000}
BUDGET = 6_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Random separable label sequences are rounded cut by cut, in one go, and through the sampler which caches and extends the ellipsoid as labels arrive (linear: more half-spaces; kernel: one more dimension per label), with '
        'asynchronous interrupts in some steps. After every step, points of the version space found by an independent chord walk from a known interior point must lie inside of the ellipsoid, whose factors must be consistent.')
STATE_MEASURE = 'strategy and options, dimension, number of half-spaces, number of cuts, extension, interrupts'
REAL = ['Ellipsoid', 'RoundingAlgorithm', 'BoundedPolyhedralCone', 'HitAndRunSampler']
STUBS = ['none (version space points come from an independent chord walk)']
ASSUMPTIONS = ['separable with a margin of at least 1%', 'at least two dimensions, counting the intercept', 'numerical tolerance 1e-5 (relative)']
NEEDS_EXT = False
LISTS = ['steps']
NUMBERS = {}
SIMPLE = {}
MUST_REACH = ['cuts', 'rounding', 'linear', 'kernel', 'default', 'opt', 'sphere-cuts', 'no-z-cut', 'scale-matrix', 'extended', 'interrupted', 'many-cuts', 'converged', 'halfspace-cuts', 'cleared']


def generate(rng, tier):
    mode = rng.choice(['cuts', 'rounding', 'linear', 'kernel', 'kernel'])
    dim = rng.choice([2, 2, 3, 4, 5, 7])
    options = rng.choice([{}, {}, {'strategy': 'default'}, {'strategy': 'default'}, {'z_cut': False}, {'sphere_cuts': True}, {'z_cut': False, 'sphere_cuts': True}])
    if mode in ('linear', 'kernel') and rng.random() < .4 or mode == 'rounding' and rng.random() < .6:
        options = dict(options, max_iter=rng.choice([1, 1, 2, 5, 20]))
    steps = []
    for _ in range({'cuts': rng.choice([3, 10, 40]), 'rounding': rng.choice([2, 5, 20]), 'linear': rng.choice([2, 5, 10]), 'kernel': rng.choice([2, 4, 8, 12])}[mode]):
        fault = None
        if mode in ('linear', 'kernel') and rng.random() < .25:
            fault = {'kind': rng.choice(['error', 'interrupt', 'memory']), 'line': int(10 ** rng.uniform(0, 3.2)), 'then': rng.choice(['retry', 'skip'])}
        steps.append({'add': rng.choice([1, 1, 2, 5]) if mode != 'kernel' else 1, 'fault': fault, 'depth': rng.choice([-.9, -.5, -.1, 0., .1, .3, .6, .9, .99]), 'clear': rng.random() < .05})
    return {'mode': mode, 'dim': dim, 'data_seed': rng.getrandbits(31), 'options': options, 'margin': rng.choice([.01, .05, .2]), 'scale': rng.choice([1, 1, 1e-2, 1e3]), 'steps': steps,
            'gamma': rng.choice([.05, .5, 3.]), 'one_class': rng.random() < .1}


def execute(plan, ctx):
    r = np.random.RandomState(plan['data_seed'])
    ctx.probe(plan['mode'])
    o = plan['options']
    if plan['mode'] != 'cuts':
        ctx.probe(o.get('strategy', 'opt'))
        if o.get('sphere_cuts'):
            ctx.probe('sphere-cuts')
        if o.get('z_cut') is False:
            ctx.probe('no-z-cut')
    {'cuts': cuts, 'rounding': rounding, 'linear': linear, 'kernel': kernel}[plan['mode']](plan, ctx, r)


# ---------------------------------------------------------------- oracle
def chord_walk(r, A, w, n=25):
    """ points of {A x <= 0, |x| <= 1}, including ends of chords and the apex; w is strictly inside """
    x = .9 * w / np.linalg.norm(w)
    out = [np.zeros(len(w)), x]
    for k in range(n):
        d = r.normal(size=len(w))
        d /= np.linalg.norm(d)
        num, den = A @ x, A @ d
        lo, hi = -np.inf, np.inf
        for a, b in zip(num, den):
            if b > 1e-14:
                hi = min(hi, -a / b)
            elif b < -1e-14:
                lo = max(lo, -a / b)
        b, c = x @ d, x @ x - 1
        root = np.sqrt(max(b * b - c, 0))
        lo, hi = max(lo, -b - root), min(hi, -b + root)
        if not lo < hi:
            continue
        out += [x + lo * d, x + hi * d]
        x = x + (lo + (hi - lo) * r.uniform(.05, .95)) * d
    return np.array(out)


def verify(ctx, elp, inside, what, scale_expected=None):
    with Judging('ellipsoid'):
        c, L, D = np.asarray(elp.center), np.asarray(elp.L), np.asarray(elp.D)
        dim = inside.shape[1]
        ctx.check(c.shape == (dim,) and L.shape == (dim, dim) and D.shape == (dim,), 'wrong-dimension', lambda: '{} {} {} for dimension {}'.format(c.shape, L.shape, D.shape, dim))
        ctx.check(np.isfinite(c).all() and np.isfinite(L).all() and np.isfinite(D).all(), 'not-finite', lambda: '{}: {} {}'.format(what, c, D))
        ctx.check((D > 0).all(), 'not-positive-definite', lambda: '{}: D = {}'.format(what, D))
        ctx.check(np.allclose(np.diag(L), 1, atol=1e-9) and np.abs(np.triu(L, 1)).max() <= 1e-9, 'factor-not-unit-lower-triangular', lambda: '{}: {}'.format(what, L))
        P = (L * D) @ L.T
        if elp.scale is not None:
            ctx.probe('scale-matrix')
            S = np.asarray(elp.scale)
            ctx.check(S.shape == P.shape and np.abs(S - P).max() <= 1e-7 * max(np.abs(P).max(), 1e-300), 'factors-disagree', lambda: '{}: scale and LDL^T differ by {}'.format(what, np.abs(S - P).max()))
        u = scipy.linalg.solve_triangular(L, (inside - c).T, lower=True, unit_diagonal=True)
        q = (np.square(u) / D[:, None]).sum(axis=0)
        ctx.check(q.max() <= 1 + 2e-5, 'version-space-not-enclosed', lambda: '{}: a point of the version space has norm {} in the ellipsoid'.format(what, np.sqrt(q.max())))


# ---------------------------------------------------------------- single cuts
def cuts(plan, ctx, r):
    """ any sequence of half-spaces: what was in the ellipsoid and in the half-space stays in the ellipsoid """
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    dim = plan['dim']
    full = plan['options'].get('strategy') == 'default'
    elp = Ellipsoid(dim, compute_scale_matrix=full)
    made = 0
    for k, step in enumerate(plan['steps']):
        L, D = elp.L, elp.D
        M = L * np.sqrt(D)
        sphere = r.normal(size=(60, dim))
        sphere /= np.linalg.norm(sphere, axis=1, keepdims=True)
        sphere *= np.where(r.uniform(size=(60, 1)) < .7, 1, r.uniform(size=(60, 1)))
        cloud = elp.center + sphere @ M.T
        g = r.normal(size=dim) * plan['scale']
        gamma = np.linalg.norm(M.T @ g)
        depth = step['depth'] if step['depth'] > -.85 else -1.0  # depth: in (-1, 1), and beyond -1/dim for shallow ones
        bias = g @ elp.center - depth * gamma
        keep = cloud[cloud @ g <= bias]
        before = (elp.center.copy(), elp.L.copy(), elp.D.copy())
        volume = np.log(D).sum()
        done = elp.cut(bias, g)
        ctx.check(bool(done) == (depth > -1. / dim + 1e-12) or abs(depth + 1. / dim) < 1e-9, 'cut-refused', lambda: 'depth {} in dimension {}: {}'.format(depth, dim, done))
        if done:
            made += 1
            ctx.check(np.log(elp.D).sum() <= volume + 1e-9, 'ellipsoid-grows', lambda: 'cut of depth {}: log volume {} -> {}'.format(depth, volume, np.log(elp.D).sum()))
        else:
            ctx.check(all(np.array_equal(a, b) for a, b in zip(before, (elp.center, elp.L, elp.D))), 'refused-cut-changes-ellipsoid', str(depth))
        if len(keep):
            verify(ctx, elp, keep, 'cut {} of depth {}'.format(k, depth))
        ctx.log('cut', k, depth, bool(done), np.round(elp.center, 9).tolist())
        ctx.state('cuts', dim, depth, made, full)
        if np.linalg.svd(elp.L * np.sqrt(elp.D), compute_uv=False).min() < 1e-4:  # smaller than this, rounding errors are no longer negligible
            break
    ctx.probe('halfspace-cuts', made)


# ---------------------------------------------------------------- rounding algorithms
def half_spaces(plan, r, X, y):
    return X * np.where(y == 1, -1, 1).reshape(-1, 1)


def unknown(plan, r):
    w = r.normal(size=plan['dim'])
    return w / np.linalg.norm(w)


def more(plan, r, w, n, X, y):
    if n == 0:
        return X, y
    new = points(r, w, n, plan['margin'], plan['scale'])
    if plan['one_class']:
        new *= np.sign(new @ w)[:, None]
    return np.vstack([X, new]), np.hstack([y, (new @ w > 0).astype(float)])


def rounding(plan, ctx, r):
    from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
    from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm
    w = unknown(plan, r)
    X, y = np.empty((0, plan['dim'])), np.empty(0)
    elp = None
    for k, step in enumerate(plan['steps']):
        X, y = more(plan, r, w, step['add'] if k % 3 == 0 or 'max_iter' not in plan['options'] else 0, X, y)
        A = half_spaces(plan, r, X, y)
        if step['clear']:
            elp = None
            ctx.probe('cleared')
        elp = RoundingAlgorithm(**plan['options']).fit(BoundedPolyhedralCone(A), elp)
        verify(ctx, elp, chord_walk(r, A, w), 'rounding {} over {} half-spaces'.format(k, len(A)))
        note(plan, ctx, k, A, elp)


def note(plan, ctx, k, A, elp):
    if 'max_iter' not in plan['options']:
        ctx.probe('converged')
        with Judging('ellipsoid'):  # ended by itself: a part of the ellipsoid which only depends on the dimension is within all half-spaces
            dim = A.shape[1]
            reach = np.linalg.norm(A @ (np.asarray(elp.L) * np.sqrt(elp.D)), axis=1)
            depth = A @ elp.center + reach / ((dim + 1) * np.sqrt(dim))
            ctx.check((depth <= 1e-6 * reach).all(), 'not-round', lambda: 'after {} over {} half-spaces: {} of {}'.format(k, len(A), depth.max(), reach[depth.argmax()]))
    if k >= 10:
        ctx.probe('many-cuts')
    with Judging('ellipsoid'):
        ctx.log('round', k, len(A), np.round(elp.center, 9).tolist(), np.round(elp.D, 9).tolist())
    ctx.state(plan['mode'], sorted(plan['options'].items()), A.shape, k)


def sample(ctx, sampler, X, y, fault, k):
    """ -> whether the sampler was trained on this training set """
    if fault is not None:
        LINES.arm(fault['line'], FAULTS[fault['kind']]())
        try:
            sampler.sample(X, y, 2)
            LINES.disarm()
            return True
        except BaseException as e:
            LINES.disarm()
            if not is_injected(e):
                raise
            ctx.fault('line-' + fault['kind'])
            ctx.probe('interrupted')
            ctx.log('interrupted', k, fault['then'])
            return False
    sampler.sample(X, y, 2)
    return True


def make_sampler(plan):
    from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
    return HitAndRunSampler(warmup=2, thin=1, rounding_options=plan['options'])


def linear(plan, ctx, r):
    w = unknown(plan, r)
    sampler = make_sampler(plan)
    X, y = np.empty((0, plan['dim'])), np.empty(0)
    for k, step in enumerate(plan['steps']):
        X, y = more(plan, r, w, step['add'], X, y)
        A = half_spaces(plan, r, X, y)
        if step['clear']:
            sampler.clear()
            ctx.check(sampler.ellipsoid_cache is None, 'cache-survives-clear', '')
            ctx.probe('cleared')
        inside = chord_walk(r, A, w)
        if not sample(ctx, sampler, X, y, step['fault'], k):
            if sampler.ellipsoid_cache is not None:  # whatever is cached serves as the start of the next rounding
                verify(ctx, sampler.ellipsoid_cache, inside, 'after an interrupt in step {}'.format(k))
            if step['fault']['then'] == 'skip':
                continue
            sample(ctx, sampler, X, y, None, k)
        verify(ctx, sampler.ellipsoid_cache, inside, 'sample {} over {} half-spaces'.format(k, len(A)))
        note(plan, ctx, k, A, sampler.ellipsoid_cache)


def kernel(plan, ctx, r):
    """ what a decomposed kernel gives to the sampler: one more dimension for each label """
    sampler = make_sampler(plan)
    n = len(plan['steps']) + 1
    Z = r.normal(size=(n, 3)) * 2
    K = np.exp(-plan['gamma'] * ((Z[:, None] - Z[None]) ** 2).sum(axis=2)) + 1e-2 * np.eye(n)
    labels = (r.uniform(size=n) < .5).astype(float) if not plan['one_class'] else np.ones(n)
    prev = None
    for k, step in enumerate(plan['steps']):
        m = k + 1
        L = np.linalg.cholesky(K[:m, :m])
        X, y = np.c_[np.ones(m), L, np.zeros(m)], labels[:m]
        A = half_spaces(plan, r, X, y)
        w = np.r_[0, scipy.linalg.solve_triangular(L, 2 * y - 1, lower=True), 0]
        inside = chord_walk(r, A, w / np.linalg.norm(w))
        if step['clear'] and k:
            sampler.clear()
            prev = None
            ctx.probe('cleared')
        if not sample(ctx, sampler, X, y, step['fault'], k):
            if sampler.ellipsoid_cache is not None and len(sampler.ellipsoid_cache.center) == X.shape[1]:
                verify(ctx, sampler.ellipsoid_cache, inside, 'after an interrupt in step {}'.format(k))
            sample(ctx, sampler, X, y, None, k)
        if prev is not None:
            ctx.probe('extended')
        prev = m
        verify(ctx, sampler.ellipsoid_cache, inside, 'sample {} in dimension {}'.format(k, X.shape[1]))
        note(plan, ctx, k, A, sampler.ellipsoid_cache)
