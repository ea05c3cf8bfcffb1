""" C28: searches for a factorization return a valid partition, and fit each of them to the data given """
import itertools

import numpy as np
import scipy.optimize

from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging

ID = 'C28'
RUNS = {'quick': 1500, 'thorough': 50000}
BUDGET = 8_000_000
MIN_EVENTS = 2
LEVEL = 'exploration'
RULE = ('One learner and several searches (exhaustive and greedy) are used in a seeded history of fits, merges and searches over data of changing shapes, some interrupted at any call, some ended by a failing optimizer, then repeated. '
        'Classifiers are compared with their definition, counted one subspace at a time; fits with those of a fresh learner; the exhaustive search with an enumeration of all partitions, the greedy one with a reference of its steps.')
STATE_MEASURE = 'operation, shape of the data, limits, optimizer, and how the step ended'
REAL = ['FactorizedLinearClassifier', 'FactorizedLinearLearner', 'BruteForceSelector', 'GreedySelector', 'compiled loss functions', 'scipy.optimize.minimize']
STUBS = []
ASSUMPTIONS = ['the greedy search does not enforce the number of partitions (it only ever merges while this helps)', 'a partition is as good as the fit the search makes of it (the loss has several minima); losses closer than 1e-3 are equal to the exhaustive search']
NEEDS_EXT = True
LISTS = ['steps']
NUMBERS = {}
SIMPLE = {}
REAL_MINIMIZE = scipy.optimize.minimize
MUST_REACH = ['fit', 'merge', 'brute', 'greedy', 'warm', 'starting-point', 'interrupted', 'optimizer-failed', 'repeated', 'limited-dim', 'limited-partitions', 'impossible', 'compared', 'merged-several', 'earlier-classifier', 'limit-reached']


def generate(rng, tier):
    steps, alike = [], rng.choice([None, None, (rng.choice([8, 12, 20]), rng.choice([2, 3, 3]))])
    for _ in range(rng.choice([2, 3, 5, 8])):
        d = rng.choice([1, 2, 3, 3, 4])
        op = rng.choice(['fit', 'fit', 'fit', 'merge', 'merge', 'brute', 'greedy', 'greedy'])
        steps.append({'op': op, 'n': rng.choice([8, 12, 20]), 'd': min(d, 3) if op == 'brute' and rng.random() < .6 else d, 'data_seed': rng.getrandbits(31), 'split': [rng.randrange(3) for _ in range(4)], 'order': rng.random(),
                      'x0': rng.random() < .4, 'i': rng.randrange(4), 'j': rng.randrange(4), 'keep': rng.random() < .7, 'search': rng.randrange(2),
                      'fault': None if rng.random() < .6 else {'site': rng.choice(['line', 'line', 'optimizer']), 'kind': rng.choice(['error', 'interrupt', 'memory']), 'at': int(10 ** rng.uniform(0, 3)), 'call': rng.choice([1, 1, 2, 4])}})
    if alike is not None:  # other data of the same shape
        for s in steps:
            s['n'], s['d'] = alike
    return {'steps': steps, 'method': rng.choice(['BFGS', 'BFGS', 'CG']), 'maxiter': rng.choice([None, None, None, 2]), 'gtol': 1e-4,
            'searches': [{'max_dim': rng.choice([None, None, 1, 2, 3]), 'max_partitions': rng.choice([None, None, 1, 2, 3]), 'warm': rng.random() < .7} for _ in range(2)]}


def partition_of(step):
    groups = [[a for a in range(step['d']) if step['split'][a] == k] for k in range(3)]
    groups = [g for g in groups if g]
    if step['order'] < .5:
        groups = [g[::-1] for g in groups[::-1]]
    return groups


def problem(step):
    r = np.random.RandomState(step['data_seed'])
    X = r.normal(size=(step['n'], step['d']))
    groups = r.randint(2, size=step['d'])  # a conjunction of one or two linear conditions
    positive = np.all([X[:, groups == k].sum(axis=1) > -.6 for k in range(2)], axis=0)
    y = (positive ^ (r.uniform(size=step['n']) < .15)).astype(float)
    y[:2] = 0, 1
    return r, X, y


def margins(partition, w, X):
    """ one column per subspace: intercept and weights of its attributes, in order """
    out, at = np.empty((len(X), len(partition))), 0
    for k, p in enumerate(partition):
        out[:, k] = w[at] + sum(w[at + 1 + m] * X[:, a] for m, a in enumerate(p))
        at += len(p) + 1
    return out


def loss_of(partition, w, X, y):
    p = np.prod(1 / (1 + np.exp(-margins(partition, w, X))), axis=1)
    with np.errstate(divide='ignore'):
        return -np.where(y > 0, np.log(p), np.log1p(-p)).mean()


def all_partitions(d):
    """ restricted growth strings """
    for code in itertools.product(range(d), repeat=d):
        if all(c <= (max(code[:i]) + 1 if i else 0) for i, c in enumerate(code)):
            yield [[a for a in range(d) if code[a] == k] for k in range(max(code) + 1)]


def canonical(partition):
    return sorted(sorted(int(a) for a in p) for p in partition)


class Failing:
    """ scipy's optimizer, which may fail at a chosen call """

    def __init__(self):
        self.left, self.exc = None, None

    def minimize(self, *args, **kwargs):
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                raise self.exc
        return REAL_MINIMIZE(*args, **kwargs)


def execute(plan, ctx):
    from aideme.active_learning.factorization.partitioning import learn, linear

    def make():
        return linear.FactorizedLinearLearner(plan['method'], plan['gtol'], plan['maxiter'])

    def make_search(step):
        s = plan['searches'][step['search']]
        if step['op'] == 'brute':
            return learn.BruteForceSelector(s['max_partitions'], s['max_dim'])
        return learn.GreedySelector(s['max_partitions'], s['max_dim'], s['warm'])

    failing = Failing()
    shared = make()
    searches, kept = {}, []

    for step in plan['steps']:
        ctx.probe(step['op'])
        r, X, y = problem(step)
        partition = partition_of(step)
        dim = step['d'] + len(partition)
        x0 = r.normal(size=dim) if step['x0'] and step['op'] in ('fit', 'merge') else None
        T = np.vstack([X, r.normal(size=(5, step['d'])) * 2])
        before = X.tobytes(), y.tobytes(), None if x0 is None else x0.tobytes(), repr(partition)

        if step['op'] in ('fit', 'merge'):
            def run(learner=shared):
                return learner.fit_and_loss(X, y, partition, x0)
        else:
            if (step['op'], step['search']) not in searches:
                searches[step['op'], step['search']] = make_search(step)
            search = searches[step['op'], step['search']]

            def run(learner=shared, search=search):
                return search(X, y, learner)

        result, error = attempt(ctx, step, failing, run)
        if result is None and error is None:  # an injected failure: the same step again
            ctx.probe('repeated')
            result, error = attempt(ctx, dict(step, fault=None), failing, run)
        now = X.tobytes(), y.tobytes(), None if x0 is None else x0.tobytes(), repr(partition)
        ctx.check(now == before, 'arguments-modified', lambda: str(step))
        with Judging('search'):
            if step['op'] in ('fit', 'merge'):
                ctx.check(error is None, 'fit-failed', lambda: repr(error))
                judge_fit(plan, ctx, step, result, partition, x0, X, y, T, make())
                clf = result[0]
                kept.append((clf, T, values(clf, T)))
                if step['op'] == 'merge':
                    judge_merge(ctx, step, clf, partition, T, kept)
            else:
                judge_search(plan, ctx, step, result, error, X, y, make, make_search)
            for clf, A, old in kept:
                ctx.check(all(np.array_equal(a, b) for a, b in zip(values(clf, A), old)), 'earlier-classifier-changed', lambda: 'a classifier which was handed out gives other probabilities after {}'.format(step))
            if len(kept) > 1:
                ctx.probe('earlier-classifier')
        ctx.log(step['op'], step['n'], step['d'], canonical(result) if step['op'] in ('brute', 'greedy') and result is not None else error and type(error).__name__)
        ctx.state(step['op'], step['d'], plan['method'], plan['maxiter'], tuple(plan['searches'][step['search']].values()), step['fault'] and step['fault']['site'], error is None)


def attempt(ctx, step, failing, run):
    fault = step['fault']
    if fault is not None and fault['site'] == 'line':
        LINES.arm(fault['at'], FAULTS[fault['kind']]())
    elif fault is not None:
        failing.left, failing.exc = fault['call'], FAULTS[fault['kind']]()
        scipy.optimize.minimize = failing.minimize
    try:
        return run(), None
    except BaseException as e:
        LINES.disarm()
        if fault is not None and is_injected(e):
            ctx.fault(fault['site'] + '-' + fault['kind'])
            ctx.probe('interrupted' if fault['site'] == 'line' else 'optimizer-failed')
            return None, None
        if isinstance(e, Exception):
            return None, e
        raise
    finally:
        LINES.disarm()
        scipy.optimize.minimize = REAL_MINIMIZE


def values(clf, T):
    return [np.array(clf.predict_proba(T)), np.array(clf.predict(T))] + [np.array(clf.partial_proba(T[:, p], i)) for i, p in enumerate(clf.partition)]


def judge_classifier(ctx, clf, partition, T, what):
    ctx.check([list(p) for p in clf.partition] == partition, what + '-of-other-partition', lambda: '{} instead of {}'.format(clf.partition, partition))
    ctx.check(clf.dim == len(clf.weights) == sum(map(len, partition)) + len(partition), what + '-of-wrong-size', lambda: '{} weights for {}'.format(len(clf.weights), partition))
    each = 1 / (1 + np.exp(-margins(partition, np.asarray(clf.weights), T)))
    p = each.prod(axis=1)
    proba, classes, partial = clf.predict_proba(T), clf.predict(T), [clf.partial_proba(T[:, p], i) for i, p in enumerate(partition)]
    ctx.check(np.allclose(proba, p, rtol=1e-6, atol=1e-9), what + '-wrong-probability', lambda: '{}: {} instead of {}'.format(partition, proba, p))
    ctx.check(all(np.allclose(q, each[:, i], rtol=1e-6, atol=1e-9) for i, q in enumerate(partial)), what + '-wrong-partial-probability', lambda: '{}: {} instead of {}'.format(partition, partial, each.T))
    sure = np.abs(p - .5) > 1e-6
    ctx.check(np.array_equal(np.asarray(classes)[sure], (p > .5)[sure]), what + '-wrong-class', lambda: '{} for probabilities {}'.format(classes, p))


def judge_fit(plan, ctx, step, result, partition, x0, X, y, T, fresh):
    clf, loss = result
    judge_classifier(ctx, clf, partition, T, 'fit')
    own = loss_of(partition, np.asarray(clf.weights), X, y)
    ctx.check(not np.isfinite(own) or abs(own - loss) <= 1e-6 * (1 + abs(own)), 'fit-wrong-loss', lambda: '{} is reported, but the classifier has loss {}'.format(loss, own))
    start = loss_of(partition, np.zeros(clf.dim) if x0 is None else x0, X, y)
    ctx.check(loss <= start + 1e-9 * (1 + abs(start)), 'fit-worse-than-start', lambda: 'loss {} from a starting point of loss {}'.format(loss, start))
    if x0 is not None:
        ctx.probe('starting-point')
        ctx.check(not np.shares_memory(clf.weights, x0), 'fit-shares-starting-point', '')
    other, other_loss = fresh.fit_and_loss(X, y, [list(p) for p in partition], None if x0 is None else x0.copy())
    ctx.check(loss == other_loss and np.array_equal(clf.weights, other.weights), 'history-changes-fit', lambda: 'loss {} and weights {} instead of {} and {}'.format(loss, clf.weights, other_loss, other.weights))
    if plan['maxiter'] is None:
        # a point where the optimizer stops on its own is stationary; compare by finite differences of the independent loss
        w, g = np.asarray(clf.weights), np.empty(clf.dim)
        for k in range(clf.dim):
            e = np.zeros(clf.dim)
            e[k] = 1e-5
            g[k] = (loss_of(partition, w + e, X, y) - loss_of(partition, w - e, X, y)) / 2e-5
        ctx.probe('compared')
        if np.isfinite(g).all() and np.abs(w).max() < 1e3:
            ctx.check(np.abs(g).max() < 2e-2, 'fit-not-optimal', lambda: '{}: the gradient of the loss at the solution is {}'.format(partition, g))
    else:
        ctx.probe('limit-reached')


def merged(partition, w, i, j):
    """ the two subspaces become one, behind the others; its intercept is the sum of both """
    parts, at = [], 0
    for p in partition:
        parts.append((list(p), w[at:at + len(p) + 1]))
        at += len(p) + 1
    a, b = parts[min(i, j)], parts[max(i, j)]
    rest = [q for k, q in enumerate(parts) if k not in (i, j)]
    rest.append((a[0] + b[0], np.concatenate([[a[1][0] + b[1][0]], a[1][1:], b[1][1:]])))
    return [p for p, _ in rest], np.concatenate([v for _, v in rest])


def judge_merge(ctx, step, clf, partition, T, kept):
    K = len(partition)
    i, j = step['i'] % K, step['j'] % K
    new = clf.merge_partitions(i, j, step['keep'])
    if i == j:
        judge_classifier(ctx, new, partition, T, 'merge')
        return
    ctx.probe('merged-several')
    expected, w = merged(partition, np.asarray(clf.weights), i, j)
    ctx.check(canonical(new.partition) == canonical(expected), 'merge-of-other-subspaces', lambda: '{} and {} of {} give {}'.format(i, j, partition, new.partition))
    given = [list(p) for p in new.partition]
    judge_classifier(ctx, new, given, T, 'merge')
    if step['keep']:
        mine = {tuple(sorted(p)): m for p, m in zip(expected, margins(expected, w, T).T)}
        for p, m in zip(given, margins(given, np.asarray(new.weights), T).T):
            ctx.check(np.allclose(m, mine[tuple(sorted(p))], rtol=1e-9, atol=1e-9), 'merge-loses-weights', lambda: '{} and {} of {}: subspace {}'.format(i, j, partition, p))
    else:
        ctx.check(not np.any(new.weights), 'merge-keeps-weights', lambda: str(new.weights))
    kept.append((new, T, values(new, T)))


def judge_search(plan, ctx, step, result, error, X, y, make, make_search):
    s, N = plan['searches'][step['search']], step['d']
    max_dim, max_k = min(s['max_dim'] or N, N), min(s['max_partitions'] or N, N)
    if max_dim < N:
        ctx.probe('limited-dim')
    if max_k < N:
        ctx.probe('limited-partitions')
    if max_dim * max_k < N:
        ctx.probe('impossible')
        ctx.check(isinstance(error, ValueError), 'impossible-limits-accepted', lambda: '{} attributes, {}: {} {}'.format(N, s, result, error))
        return
    ctx.check(error is None, 'search-failed', lambda: repr(error))
    where = lambda: '{} over {} attributes, limits {}: {}'.format(step['op'], N, s, result)
    ctx.check(sorted(a for p in result for a in p) == list(range(N)) and all(len(p) > 0 for p in result), 'not-a-partition', where)
    ctx.check(max(map(len, result)) <= max_dim, 'subspace-too-large', where)
    if step['op'] == 'brute' or max_k == 1:
        ctx.check(len(result) <= max_k, 'too-many-subspaces', where)

    fresh = make()
    again = make_search(step)(X.copy(), y.copy(), make())
    ctx.check(canonical(again) == canonical(result), 'history-changes-search', lambda: '{}; a fresh search finds {}'.format(where(), again))
    if N == 1 or max_k == 1 or max_dim == 1 or plan['maxiter'] is not None:
        return
    if step['op'] == 'brute':
        # the loss has several minima, and the order of subspaces may decide which one is found: trust what the search itself saw
        fits, spied = {}, make()

        def watched(X, y, partition, x0=None, real=spied.fit_and_loss):
            out = real(X, y, partition, x0)
            fits.setdefault(str(canonical(partition)), []).append(out[1])
            return out
        spied.fit_and_loss = watched
        make_search(step)(X, y, spied)
        losses = {}
        for p in all_partitions(N):
            if len(p) <= max_k and max(map(len, p)) <= max_dim:
                seen = fits.get(str(canonical(p))) or [fresh.fit_and_loss(X, y, list(q))[1] for q in itertools.permutations(p)]
                losses[str(canonical(p))] = (min(seen), max(seen))
        mine, best = losses[str(canonical(result))][0], min(b for _, b in losses.values())
        ctx.check(mine <= best + 1e-3, 'better-partition-exists', lambda: '{} of loss {}, among {}'.format(where(), mine, losses))
        ctx.probe('compared')
    else:
        if s['warm']:
            ctx.probe('warm')
        expected, close = greedy(fresh, X, y, max_dim, s['warm'])
        ctx.check(close or canonical(expected) == canonical(result), 'other-greedy-path', lambda: '{} instead of {}'.format(where(), expected))
        ctx.probe('compared')


def greedy(learner, X, y, max_dim, warm):
    """ :return: partition found by merging, at each step, the best pair; and whether a decision was too close to call """
    N, close = X.shape[1], False
    clf, loss = learner.fit_and_loss(X, y, [[a] for a in range(N)])
    while True:
        options = []
        for i, j in itertools.combinations(range(len(clf.partition)), 2):
            p, w = merged(clf.partition, np.asarray(clf.weights), i, j)
            if max(map(len, p)) <= max_dim:
                options.append(learner.fit_and_loss(X, y, p, w if warm else None))
        options.sort(key=lambda o: o[1])
        if not options:
            return clf.partition, close
        near = [o for o in options[1:] if o[1] - options[0][1] < 1e-5]
        close = close or bool(near) and options[0][1] < loss + 1e-5 or abs(options[0][1] - loss) < 1e-5
        if options[0][1] >= loss:
            return clf.partition, close
        clf, loss = options[0]
