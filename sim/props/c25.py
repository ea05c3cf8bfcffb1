""" C25: each question is a most informative one under the learner's rule, for all labels so far """
import random

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..session import Ledger
from ..world import Judging

ID = 'C25'
RUNS = {'quick': 1800, 'thorough': 50000}
BUDGET = 6_000_000
MIN_EVENTS = 4
LEVEL = 'exploration'
RULE = ('Sessions driven step by step, with subsampling, failed and interrupted choices which are repeated, failed and interrupted updates, and second sessions of the same objects. Each choice is scored by a '
        'reference computed apart from the learner out of every label given so far (support vector machines, naive Bayes, biased pairs, factorized linear models, probabilities of the version space); within a subsample, '
        'enough points may not be better. Predictions are compared as well, and repeated choices show that no admissible point is left out.')
STATE_MEASURE = 'learner and its options, subsampling, labeled and unlabeled points, number of equally informative points'
REAL = ['every active learner below', 'ExplorationManager', 'PartitionedDataset', 'ActiveLearner.next_points_to_label', 'scikit-learn']
STUBS = ['the user']
ASSUMPTIONS = ['probabilities of version spaces are taken from the learner, after checking them on the labeled points (C17 decides what is sampled)', 'support vector machines agree up to their own tolerance', 'a factorized linear sampler ends its session when no subspace is left']
NEEDS_EXT = True
LISTS = ['faults']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'again': False}
KINDS = ['simple', 'simple', 'ratio', 'uncertainty', 'qbd', 'qbd', 'lvs', 'kvs', 'entropy', 'ssm', 'ssm', 'svs', 'svs', 'cat', 'random', 'dsm', 'dsm', 'fdsm', 'flm', 'flm']
MUST_REACH = sorted(set(KINDS)) + ['pruned', 'penalty-grows', 'subsampled', 'everything-scored', 'tied', 'ties-reached', 'all-reached', 'second-session', 'retried-choice', 'retried-update', 'predictions', 'disagreement', 'last-point', 'both-classes-predicted']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')


def generate(rng, tier):
    kind = rng.choice(KINDS)
    s = session.gen_session(rng, [kind], n=(5, 18), d=(1, 4), data_kinds=('uniform', 'grid') if kind in ('kvs', 'lvs', 'entropy', 'svs') else ('uniform', 'grid', 'grid'))
    s['subsampling'] = rng.choice([None, None, None, 1, 2, 3, 6])
    s['max_iter'] = min(s['max_iter'], 5 if kind in ('ratio', 'svs', 'entropy', 'kvs') else 12)
    options = {'C': rng.choice([.1, 1., 100.]), 'kernel': rng.choice(['rbf', 'rbf', 'linear']), 'gamma': rng.choice(['auto', 'auto', 'scale', .5]),
               'loss': rng.choice(['GREEDY', 'SQUARED', 'PRODUCT']), 'labels': rng.choice(['AND', 'OR', 'PROD']), 'weight': rng.choice([1e-5, 1e-2, .5]), 'clf': rng.choice(['nb', 'lr']),
               'chains': rng.random() < .5,
               'flm': {'num_subspaces': rng.randint(1, 3), 'max_iter': rng.randint(3, 15), 'step_size': rng.choice([.05, .1, .5]), 'penalty': rng.choice([0, 1e-4, .02, .1, .3]), 'prune': rng.random() < .4,
                       'penalty_iter': rng.choice([0, 0, 2, 3, 8]), 'log': rng.random() < .4}}
    faults = [{'step': rng.randint(1, 8), 'where': rng.choice(['next', 'update']), 'how': rng.choice(['line', 'seam']), 'line': int(10 ** rng.uniform(0, 2.7)), 'kind': rng.choice(list(FAULTS)),
               'after': rng.random() < .5} for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return {'session': s, 'options': options, 'faults': faults, 'again': rng.random() < .3, 'reach': sorted(rng.sample(range(1, 9), 2))}


def make(plan, d):
    import aideme.active_learning as al
    o, spec = plan['options'], plan['session']['learner']
    kind, parts = spec['name'], world.split_columns(d, min(spec.get('parts', 1), d))
    svm = {'C': o['C'], 'kernel': o['kernel'], 'gamma': o['gamma']}
    vs = dict(world.VS, single_chain=o['chains'])
    if kind == 'simple':
        return al.SimpleMargin(**svm)
    if kind == 'ratio':
        from aideme.active_learning.margin import RatioMargin
        return RatioMargin(**svm)
    if kind == 'qbd':
        return al.QueryByDisagreement(world.make_clf(o['clf']), background_sample_size=1000, background_sample_weight=o['weight'])
    if kind == 'entropy':
        return al.EntropyReductionLearner(data_sample_size=None, **vs)
    if kind == 'ssm':
        return al.SubspatialSimpleMargin(parts, label_function='AND' if o['labels'] == 'PROD' else o['labels'], **svm)
    if kind == 'svs':
        return al.SubspatialVersionSpace(parts, label_function=o['labels'], loss=o['loss'], rounding_cache=False, **vs)
    if kind in ('lvs', 'kvs'):
        return (al.LinearVersionSpace if kind == 'lvs' else al.KernelVersionSpace)(**vs)
    if kind == 'dsm':
        return al.DualSpaceModel(al.SimpleMargin(**svm), mode='persist', sample_unknown_proba=1.)
    if kind == 'fdsm':
        return al.FactorizedDualSpaceModel(al.SimpleMargin(**svm), partition=parts, mode='persist', sample_unknown_proba=1.)
    if kind == 'flm':
        return al.FLMUncertaintySampler(**o['flm'])
    return world.make_learner(spec, d)


# ---------------------------------------------------------------- references
def svc(o):
    from sklearn.svm import SVC
    return SVC(C=o['C'], kernel=o['kernel'], gamma=o['gamma'])


def squared_norm(clf, X):
    """ ||w||^2 of a support vector machine, whose inverse is its squared margin """
    from sklearn.metrics.pairwise import linear_kernel, rbf_kernel
    S, a = clf.support_vectors_, clf.dual_coef_[0]
    K = linear_kernel(S) if clf.kernel == 'linear' else rbf_kernel(S, gamma=clf._gamma)
    return float(a @ K @ a)


def entropy(p):
    q = np.clip(p, 1e-300, 1)
    r = np.clip(1 - p, 1e-300, 1)
    return (-p * np.log(q) - (1 - p) * np.log(r)).mean(axis=-1)


class Reference:
    """ scores (the smaller, the more informative), predictions (nan: not decided here) """

    def __init__(self, plan, ctx, learner, X, y, partial, others, everything, parts):
        self.plan, self.ctx, self.learner, self.X, self.y, self.partial, self.others, self.everything, self.parts = plan, ctx, learner, X, y, partial, others, everything, parts
        self.kind, self.o = plan['session']['learner']['name'], plan['options']
        self.tol = 1e-9

    def votes(self, p, truth, what):
        with Judging('probabilities'):
            self.ctx.check(bool(((p > .5) == (truth == 1)).all()), 'labeled-point-misjudged', lambda: '{}: probabilities {} of points labeled {}'.format(what, p.tolist(), truth.tolist()))

    def scores(self, Z):
        o, k = self.o, self.kind
        if k in ('simple', 'dsm', 'fdsm'):
            self.tol = .01
            return np.abs(svc(o).fit(self.X, self.y).decision_function(Z))
        if k == 'ratio':
            self.tol = .05
            res = []
            for z in Z:
                m = [squared_norm(svc(o).fit(np.vstack([self.X, z]), np.hstack([self.y, l])), Z) for l in (0, 1)]
                res.append(-min(m) / max(m) if min(m) > 1e-9 else np.nan)
            return np.array(res)
        if k == 'flm':
            self.tol = 1e-6
            return np.abs(self.chain.matching(self.learner, self.everything).predict_proba(Z) - .5)
        if k == 'uncertainty':
            return np.abs(world.make_clf('nb').fit(self.X, self.y).predict_proba(Z) - .5)
        if k == 'qbd':
            B = self.others
            pair = []
            for label in (0, 1):
                clf = world.make_clf(o['clf'])
                clf.fit(np.vstack([self.X, B]), np.hstack([self.y, np.full(len(B), label)]), np.hstack([np.ones(len(self.X)), np.full(len(B), o['weight'])]))
                p = clf.predict_proba(Z)
                pair.append(p if p.ndim == 1 else p[:, 1])
            sure = (np.abs(np.array(pair) - .5) > 1e-3).all(axis=0)
            res = np.where((pair[0] > .5) == (pair[1] > .5), 1., 0.)
            if (res[sure] == 0).any():
                self.ctx.probe('disagreement')
            return np.where(sure, res, np.nan)
        if k in ('lvs', 'kvs'):
            self.votes(self.learner.predict_proba(self.X), self.y, 'version space')
            return np.abs(self.learner.predict_proba(Z) - .5)
        if k == 'entropy':
            self.tol = 1e-6
            with Judging('probabilities'):
                H, D = np.asarray(self.learner.predict_all(Z), dtype=float), np.asarray(self.learner.predict_all(self.everything), dtype=float)
            p = H.mean(axis=0)
            cut = np.abs(p - .5)
            best = np.zeros(len(Z))
            for j in range(len(Z)):
                if 0 < p[j] < 1:
                    yes, no = D[H[:, j] == 1], D[H[:, j] == 0]
                    best[j] = p[j] * entropy(yes.mean(axis=0)) + (1 - p[j]) * entropy(no.mean(axis=0))
            return cut * 1000 + best
        if k == 'ssm':
            self.tol = .02
            return sum(np.abs(svc(o).fit(self.X[:, g], self.partial[:, i]).decision_function(Z[:, g])) for i, g in enumerate(self.parts))
        if k == 'svs':
            with Judging('probabilities'):
                for i, p in enumerate(self.learner.predict_proba_all(self.X)):
                    self.votes(p, self.partial[:, i], 'subspace {}'.format(i))
                ps = np.asarray(self.learner.predict_proba_all(Z))
            if o['loss'] == 'GREEDY':
                return np.prod([p * p + (1 - p) * (1 - p) for p in ps], axis=0)
            return np.abs(np.prod(ps, axis=0) - .5) if o['loss'] == 'PRODUCT' else sum((p - .5) ** 2 for p in ps)
        if k == 'cat':
            pos, neg = ({tuple(x) for x, l in zip(self.X.tolist(), self.y) if l == v} for v in (1, 0))
            return np.array([.5 if tuple(z) in pos or tuple(z) in neg else np.nan for z in Z.tolist()])
        return np.zeros(len(Z))

    def predictions(self, Z):
        o, k = self.o, self.kind
        if k in ('simple', 'ratio'):
            d = svc(o).fit(self.X, self.y).decision_function(Z)
            return np.where(np.abs(d) > .01, d > 0, np.nan)
        if k == 'flm':
            p = self.chain.models[0].predict_proba(Z)
            return np.where(np.abs(p - .5) > 1e-6, p > .5, np.nan)
        if k in ('uncertainty', 'random', 'qbd'):
            clf = world.make_clf(o['clf'] if k == 'qbd' else 'nb').fit(self.X, self.y)
            p = clf.predict_proba(Z)
            p = p if p.ndim == 1 else p[:, 1]
            return np.where(np.abs(p - .5) > 1e-3, p > .5, np.nan)
        if k == 'ssm':
            d = np.array([svc(o).fit(self.X[:, g], self.partial[:, i]).decision_function(Z[:, g]) for i, g in enumerate(self.parts)])
            d = np.min(d, axis=0) if o['labels'] != 'OR' else np.max(d, axis=0)
            return np.where(np.abs(d) > .01, d > 0, np.nan)
        if k == 'svs':
            with Judging('probabilities'):
                ps = np.asarray(self.learner.predict_proba_all(Z))
            if o['labels'] == 'PROD':
                p = np.prod(ps, axis=0)
            else:
                p = np.min(ps, axis=0) if o['labels'] == 'AND' else np.max(ps, axis=0)
            return np.where(np.abs(p - .5) > 1e-9, p > .5, np.nan)
        if k in ('lvs', 'kvs', 'entropy'):
            p = np.asarray(self.learner.predict_proba(Z)) if k != 'entropy' else np.asarray(self.learner.predict_all(Z), dtype=float).mean(axis=0)
            return np.where(np.abs(p - .5) > 1e-9, p > .5, np.nan)
        return np.full(len(Z), np.nan)


class Product:
    """ the classifier of a matrix of weights and biases: the product of one logistic probability per row """

    def __init__(self, matrix):
        self.matrix = np.array(matrix)
        self.weights, self.bias = self.matrix[:, :-1], self.matrix[:, -1]

    def margins(self, Z):
        return Z @ self.weights.T + self.bias

    def partial_proba(self, Z):
        return np.exp(-np.logaddexp(0, -self.margins(Z)))

    def predict_proba(self, Z):
        return np.exp(-np.logaddexp(0, -self.margins(Z)).sum(axis=1))


class Chain:
    """ the factorized linear model after each completed update: each one starts from the weights of the last, with the penalty of its turn. A failed update may or may not have been completed. """

    def __init__(self, options, ctx):
        self.o, self.ctx = options, ctx
        self.states = [(0, None)]
        self.models = []

    def step(self, state, X, y, everything, generator):
        from aideme.active_learning.factorization.linear import LinearFactorizationLearner
        from aideme.active_learning.factorization.optimization import Adam
        from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
        o, (done, x0) = self.o, state
        if x0 is not None and not len(x0):
            return None  # everything was pruned
        penalty, turn = o['penalty'], done + 1
        if turn < o['penalty_iter']:
            penalty *= np.log(1 + (np.e - 1) * turn / o['penalty_iter']) if o['log'] else turn / o['penalty_iter']
            self.ctx.probe('penalty-grows')
        model = LinearFactorizationLearner(Adam(step_size=o['step_size'], max_iter=o['max_iter'], gtol=0, rel_tol=0), SparseGroupLassoPenalty(l1_penalty=penalty, l2_sqrt_penalty=penalty) if o['penalty'] else None)
        np.random.set_state(generator)
        model.fit(X, y, factorization=o['num_subspaces'] if x0 is None else len(x0), x0=x0)
        result = Product(model.weight_matrix)
        if o['prune']:
            keep = (result.partial_proba(everything).min(axis=0) < .99) & (np.linalg.norm(result.weights, axis=1) > 1e-8)
            if not keep.all():
                self.ctx.probe('pruned')
            result = Product(result.matrix[keep])
        return (turn, result.matrix), result

    def update(self, X, y, everything, generators):
        """ generators: state of the random generator at the beginning of each attempt; all but the last one have failed """
        now = np.random.get_state()
        for k, g in enumerate(generators):
            after = [r for s in self.states for r in [self.step(s, X, y, everything, g)] if r is not None]
            if k == len(generators) - 1:
                self.states, self.models = [s for s, _ in after], [m for _, m in after]
            else:
                self.states = self.states + [s for s, _ in after]
        np.random.set_state(now)

    def matching(self, learner, Z):
        """ only states which agree with the learner are kept """
        with Judging('probabilities'):
            got = np.asarray(learner.predict_proba(Z))
            want = [m.predict_proba(Z) for m in self.models]
            fine = [k for k, w in enumerate(want) if np.allclose(got, w, rtol=1e-6, atol=1e-9)]
            self.ctx.check(bool(fine), 'wrong-model', lambda: 'flm {}: probabilities {}, but {} expected'.format(self.o, got.tolist(), [w.tolist() for w in want]))
            self.states, self.models = [self.states[k] for k in fine], [self.models[k] for k in fine]
            return self.models[0]


def guarded(ctx, fault, learner, call, where):
    """ -> (result, whether a failure was injected) """
    if fault is None:
        return call(), False
    name = 'fit_data' if where == 'update' else 'rank'
    original = getattr(learner, name)

    def failing(*a, **k):
        if fault['after']:
            original(*a, **k)
        ctx.fault('{}@{}'.format(fault['kind'], name))
        raise FAULTS[fault['kind']]()

    if fault['how'] == 'line':
        LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
    else:
        setattr(learner, name, failing)
    try:
        return call(), False
    except BaseException as e:
        if not is_injected(e):
            raise
        ctx.log('failed', where, LINES.fired_at if fault['how'] == 'line' else fault['kind'])
        if fault['how'] == 'line':
            ctx.fault('interrupt@line')
        return None, True
    finally:
        LINES.disarm()
        learner.__dict__.pop(name, None)


def execute(plan, ctx):
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
    s = plan['session']
    b = session.build(s, ctx)
    problem, kind = b.problem, s['learner']['name']
    learner = make(plan, problem.d)
    ctx.probe(kind)
    data = PartitionedDataset(problem.X, problem.ids, copy=True)
    mgr = ExplorationManager(data, learner, subsampling=s['subsampling'], initial_sampler=b.sampler)
    mgr.clear()
    one_session(plan, ctx, problem, mgr, data, learner, b.labels)
    if plan['again']:
        ctx.probe('second-session')
        mgr.clear()
        opposite = problem.partial.shape[1] == 1 and kind not in ('lvs', 'cat')
        one_session(plan, ctx, problem, mgr, data, learner, LabeledSet(1 - problem.y, index=problem.ids.copy()) if opposite else b.labels)


def one_session(plan, ctx, problem, mgr, data, learner, answers):
    s = plan['session']
    kind, k = s['learner']['name'], s['subsampling']
    parts = world.split_columns(problem.d, min(s['learner'].get('parts', 1), problem.d))
    ledger = Ledger(ctx, problem)
    faults = {(f['step'], f['where']): f for f in plan['faults']}
    chain = Chain(plan['options'].get('flm'), ctx) if kind == 'flm' else None
    for step in range(1, s['max_iter'] + 2):
        if not data.unlabeled_size:
            ctx.probe('last-point')
            break
        initial = mgr.is_initial_sampling_phase
        choosing = not initial and len(ledger.given) > 0
        ref = reference(plan, ctx, ledger, problem, data, learner, parts, chain) if choosing else None
        if choosing:
            compare_predictions(ctx, plan, ref, problem, learner)
        batch, failed = guarded(ctx, faults.get((step, 'next')) if choosing else None, learner, mgr.get_next_to_label, 'next')
        if failed:
            ctx.probe('retried-choice')
            batch = mgr.get_next_to_label()
        with Judging('batch'):
            idxs = batch.index.tolist()
            ctx.check(np.array_equal(np.asarray(batch.data), problem.X[problem.rows(idxs)]), 'wrong-rows', lambda: str(idxs))
        if choosing:
            check_choice(plan, ctx, ref, problem, data, idxs, 'iteration {}'.format(step))
            if step in plan['reach']:
                reach(plan, ctx, ref, problem, data, learner)
        user = answers.get_index(idxs)
        generators = [np.random.get_state()]
        _, failed = guarded(ctx, faults.get((step, 'update')) if choosing else None, learner, lambda: mgr.update(user), 'update')
        if failed:
            ctx.probe('retried-update')
            generators.append(np.random.get_state())
            if not set(idxs) <= set(data.labeled.index.tolist()):
                mgr.update(user)
            else:
                learner.fit_data(data)  # the labels are there: only the learner is trained again
        ledger.given.update({i: (float(l), [float(v) for v in p]) for i, l, p in zip(idxs, user.labels, user.partial)})
        ledger.order.extend(idxs)
        if chain and not mgr.is_initial_sampling_phase:
            chain.update(problem.X[problem.rows(ledger.order)], np.array([ledger.given[i][0] for i in ledger.order]), problem.X, generators)
            if not chain.states or any(not len(w) for _, w in chain.states):
                ctx.probe('pruned')
                break  # no subspace is left
        ctx.log('step', step, initial, idxs)


def reference(plan, ctx, ledger, problem, data, learner, parts, chain):
    with Judging('dataset'):
        X = problem.X[problem.rows(ledger.order)]
        y, partial = np.array([ledger.given[i][0] for i in ledger.order]), np.array([ledger.given[i][1] for i in ledger.order])
        pool = sorted(data.unlabeled.index.tolist())
        ctx.check(pool == sorted(set(problem.ids.tolist()) - set(ledger.order)), 'wrong-pool', lambda: str(pool))
        if plan['session']['learner']['name'].endswith('dsm') and data.unknown_size:
            pool = sorted(data.unknown.index.tolist())
    ref = Reference(plan, ctx, learner, X, y, partial, problem.X[problem.rows(data.unlabeled.index.tolist())], problem.X, parts)
    ref.pool, ref.chain = pool, chain
    ref.values = dict(zip(pool, np.asarray(ref.scores(problem.X[problem.rows(pool)]), dtype=float)))
    return ref


def compare_predictions(ctx, plan, ref, problem, learner):
    want = np.asarray(ref.predictions(problem.X), dtype=float)
    with Judging('prediction'):
        got = np.asarray(learner.predict(problem.X), dtype=float)
        bad = ~np.isnan(want) & (got != want)
        ctx.check(got.shape == want.shape and not bad.any(), 'wrong-prediction', lambda: '{} {}: predicted {} instead of {} for {}'.format(
            ref.kind, plan['options'], got[bad].tolist(), want[bad].tolist(), problem.X[bad].tolist()))
    if not np.isnan(want).all():
        ctx.probe('predictions')
        if (want == 1).any() and (want == 0).any():
            ctx.probe('both-classes-predicted')


def check_choice(plan, ctx, ref, problem, data, idxs, what):
    kind, k = ref.kind, plan['session']['subsampling']
    ctx.check(set(idxs) <= set(ref.pool) and len(set(idxs)) == len(idxs) > 0, 'not-in-pool', lambda: '{}: {} of {}'.format(what, idxs, ref.pool))
    if kind == 'random':
        size = min(plan['session']['learner'].get('batch', 1), min(k or len(ref.pool), len(ref.pool)))
        ctx.check(len(idxs) == size, 'wrong-batch-size', lambda: '{}: {} instead of {}'.format(what, len(idxs), size))
        return
    ctx.check(len(idxs) == 1, 'wrong-batch-size', lambda: '{}: {}'.format(what, idxs))
    v, size = ref.values[idxs[0]], min(k or len(ref.pool), len(ref.pool))
    all_values = np.array([ref.values[i] for i in ref.pool])
    ctx.probe('everything-scored' if size == len(ref.pool) else 'subsampled')
    ctx.state(kind, size, len(ref.pool), len(problem.ids) - len(ref.pool), int((all_values <= np.nanmin(all_values) + 1e-12).sum()) if not np.isnan(all_values).all() else 0)
    if np.isnan(v):
        return
    scale = ref.tol * max(1., abs(v)) if np.isfinite(v) else 0
    better = [i for i in ref.pool if ref.values[i] < v - scale]
    ctx.check(len(ref.pool) - len(better) >= size, 'not-most-informative', lambda: '{}: {} {} chose index {} with score {}, among {} of {} points, of which {} are better: {}'.format(
        kind, plan['options'], what, idxs[0], v, size, len(ref.pool), len(better), sorted(ref.values[i] for i in better)[:5]))


def reach(plan, ctx, ref, problem, data, learner):
    """ repeated choices: every admissible point is chosen at last (one is missed with probability below 1e-9) """
    kind = ref.kind
    discrete = kind in ('lvs', 'kvs', 'qbd', 'random', 'uncertainty')
    values = np.array([ref.values[i] for i in ref.pool])
    for size in (1, None):
        if size is None:
            if not discrete or np.isnan(values).any():
                continue
            want = [i for i in ref.pool if ref.values[i] <= values.min() + 1e-12]
            if len(want) < 2:
                continue
            if len({tuple(problem.X[problem.row_of[i]].tolist()) for i in want}) > 1 and kind in ('uncertainty', 'lvs', 'kvs'):
                if kind == 'uncertainty':
                    continue  # equal only up to rounding errors
                if np.min(np.abs(values[values > values.min() + 1e-12] - values.min()), initial=1) < 1e-6:
                    continue
            ctx.probe('tied')
        else:
            want = ref.pool
        if len(want) > 8:
            continue
        seen = set()
        for _ in range(300):
            got = learner.next_points_to_label(data, size)
            with Judging('batch'):
                seen |= set(got.index.tolist())
            if len(seen) == len(want):
                break
        ctx.check(seen <= set(want), 'not-in-pool', lambda: '{} of {}'.format(seen, want))
        ctx.check(seen == set(want), 'unreachable-choice', lambda: '{}: {} never chosen among {} in 300 choices, subsampling {}'.format(kind, set(want) - seen, want, size))
        ctx.probe('all-reached' if size else 'ties-reached')
