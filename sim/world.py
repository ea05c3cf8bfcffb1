"""
The simulated world shared by the properties: datasets, user concepts, learners, samplers, callbacks and criteria, all built
from the plan; and the seams (learner, sampler, callback, criterion, noise, solver, input) through which faults arrive.

Nothing here draws from the global random generators: those belong to the code under test.
"""
import copy
import hashlib

import numpy as np

from .kernel import FAULTS, LINES, Violation


# ---------------------------------------------------------------- plan generation helpers
def chance(rng, p):
    return rng.random() < p


def pick_weighted(rng, table):
    items = list(table)
    return rng.choices(items, [table[k] for k in items])[0]


def gen_data(rng, n=(4, 30), d=(1, 4), kinds=('uniform', 'grid', 'wide')):
    return {'n': rng.randint(*n), 'd': rng.randint(*d), 'seed': rng.getrandbits(31), 'kind': rng.choice(kinds)}


INDEX_STYLES = ['range', 'perm', 'sparse', 'negative', 'big', 'float', 'uint8']


def gen_index(rng, styles=INDEX_STYLES):
    return {'style': rng.choice(styles), 'seed': rng.getrandbits(31)}


def gen_concept(rng, parts=None, kinds=('box', 'half', 'ball', 'random'), ratio=None):
    return {'kind': rng.choice(kinds), 'seed': rng.getrandbits(31), 'parts': parts if parts else 1,
            'ratio': ratio if ratio else rng.choice([.15, .3, .5, .7])}


# ---------------------------------------------------------------- building data
def make_data(spec):
    r = np.random.RandomState(spec['seed'] & 0x7fffffff)
    n, d = spec['n'], spec['d']
    kind = spec['kind']
    if kind == 'uniform':
        X = r.uniform(size=(n, d))
    elif kind == 'grid':  # dyadic values; rows are distinct as long as the grid is large enough
        size = 64 if d > 1 or n <= 64 else 1024
        cells = r.choice(size ** d if size ** d < 10 ** 7 else 10 ** 7, size=n, replace=False)
        X = np.stack([(cells // size ** k) % size for k in range(d)], axis=1) / 64.
    elif kind == 'wide':
        X = r.normal(size=(n, d)) * 10
    elif kind == 'dup':  # few distinct rows
        base = r.randint(0, 3, size=(max(2, n // 3), d)).astype(float)
        X = base[r.randint(0, len(base), size=n)]
        X[1:2] = (X[:1] + 1) % 3  # never all the same
    elif kind == 'onehot':
        X = np.eye(d)[r.randint(0, d, size=n)]
        if d > 1:
            X[:2] = np.eye(d)[r.permutation(d)[:2]]
    elif kind == 'multiset':
        X = (r.uniform(size=(n, d)) < .45).astype(float)
        X[X.sum(axis=1) == 0, 0] = 1.
        X[0, -1], X[0, 0], X[1, -1] = 0, 1, 1  # the first two rows never hold the same items
    elif kind == 'mixed':
        sizes = [len(g) for g in mixed_groups(d)]
        X = np.hstack([make_data({'n': n, 'd': k, 'seed': spec['seed'] + i, 'kind': t}) for i, (k, t) in enumerate(zip(sizes, ('uniform', 'onehot', 'multiset')))])
    else:
        raise KeyError(kind)
    return X


def make_index(spec, n):
    r = np.random.RandomState(spec['seed'] & 0x7fffffff)
    s = spec['style']
    if s == 'range':
        return np.arange(n)
    if s == 'perm':
        return r.permutation(n)
    if s == 'sparse':
        return r.choice(10 * n + 50, size=n, replace=False)
    if s == 'negative':
        return r.choice(4 * n + 20, size=n, replace=False) - 2 * n
    if s == 'big':
        return r.choice(5 * n, size=n, replace=False).astype('int64') + 2 ** 40
    if s == 'float':
        return r.choice(5 * n, size=n, replace=False) + .5
    if s == 'uint8':
        return r.choice(256, size=n, replace=False).astype('uint8') if n <= 256 else np.arange(n)
    if s == 'overlap':  # a permutation of most of 0..n-1, so that row numbers and indexes are easily confused
        return (r.permutation(n + 2))[:n]
    raise KeyError(s)


def split_columns(d, parts):
    """ 'parts' groups of columns, as even as possible """
    return [list(map(int, g)) for g in np.array_split(np.arange(d), parts)]


def mixed_groups(d):
    """ columns of 'mixed' data: two numbers, a one-hot encoded category, a set of items """
    return [[0, 1], list(range(2, 2 + (d - 2) // 2)), list(range(2 + (d - 2) // 2, d))]


def concept_partial(X, spec):
    """ partial labels (one column per group of columns); both classes are present in every column and in the final label """
    n, d = X.shape
    parts = min(spec['parts'], d)
    kinds = ('half', 'cats', 'items') if spec['kind'] == 'mixed' else (spec['kind'],) * parts
    groups = mixed_groups(d) if spec['kind'] == 'mixed' else split_columns(d, parts)
    seed = spec['seed']
    ratio = spec['ratio'] ** (1. / parts)
    for attempt in range(200):
        r = np.random.RandomState((seed + attempt) & 0x7fffffff)
        cols = []
        for kind, g in zip(kinds, groups):
            Z = X[:, g]
            if kind == 'box':
                c = Z[r.randint(n)]
                score = np.abs((Z - c) * r.uniform(.5, 1.5, size=len(g))).max(axis=1)
            elif kind == 'half':
                score = Z @ r.normal(size=len(g))
            elif kind == 'ball':
                score = np.square(Z - Z[r.randint(n)]).sum(axis=1)
            elif kind == 'random':
                score = r.uniform(size=n)
            elif kind == 'items':  # positive: without any of the disliked items
                cols.append(Z @ (r.uniform(size=len(g)) < r.choice([.15, .3, .5])) == 0)
                continue
            elif kind == 'cats':
                present = np.where(Z.any(axis=0))[0]
                cols.append(Z[:, r.permutation(present)[:r.randint(1, max(2, len(present)))]].any(axis=1))
                continue
            else:
                raise KeyError(kind)
            k = min(max(int(round(ratio * n)), 1), n - 1)
            cols.append(score <= np.sort(score)[k - 1])
        partial = np.stack(cols, axis=1).astype(float)
        y = partial.min(axis=1)
        if 0 < y.sum() < n and (parts == 1 or ((partial.max(axis=1) == 0).any() and all(0 < c.sum() < n for c in partial.T))):
            return partial
    # fall back to the smallest legal concept
    return np.stack([Z @ ((Z[0] == 0) & (Z[1] > 0)) == 0 if kind == 'items' else (Z == Z[0]).all(axis=1) for kind, Z in zip(kinds, (X[:, g] for g in groups))], axis=1).astype(float)


# ---------------------------------------------------------------- fault seams
class Seams:
    """ counts the calls of every seam; raises the planned fault when a seam reaches its planned call number """

    def __init__(self, ctx, faults=()):
        self.ctx, self.count, self.plan, self.fired = ctx, {}, {}, []
        for f in faults:
            self.plan.setdefault(f['site'], {})[f['at']] = f['kind']

    def hit(self, site):
        k = self.count.get(site, 0) + 1
        self.count[site] = k
        kind = self.plan.get(site, {}).get(k)
        if kind is not None:
            self.fired.append((site, k, kind))
            self.ctx.fault('{}@{}'.format(kind, site.split(':')[0]))
            self.ctx.log('fault', site, k, kind)
            raise FAULTS[kind]()

    def wrap(self, obj, name, site=None):
        """ installs the seam around a method of one object """
        site = site or name
        original = getattr(obj, name)

        def seam(*args, **kwargs):
            self.hit(site)
            res = original(*args, **kwargs)
            self.hit(site + ':after')
            return res

        setattr(obj, name, seam)
        return obj

    def func(self, f, site):
        def seam(*args, **kwargs):
            self.hit(site)
            res = f(*args, **kwargs)
            self.hit(site + ':after')
            return res
        return seam


def importable(cls, name):
    """ makes a class defined inside of a function available to pickle """
    cls = globals().setdefault('_' + name, cls)
    cls.__module__, cls.__qualname__, cls.__name__ = __name__, '_' + name, '_' + name
    return cls


# ---------------------------------------------------------------- stub learners (subclasses of the library's base class)
def stub_class():
    from aideme.active_learning import ActiveLearner

    class Stub(ActiveLearner):
        """
        Deterministic one-nearest-neighbour learner. Its scores are coarse, so that ties are frequent and the library's own
        random tie-break decides. Keeps no state besides its training set and, if asked to, the points it was ever trained on (for its
        scores, as learners with warm starts do); 'clear' drops both.
        """

        memory = None

        def __init__(self, coarse=4, batch=1, seams=None, on_fit=None):
            self.coarse, self.batch, self.seams, self.on_fit = coarse, batch, seams, on_fit
            self.X = self.y = None
            self.fits = 0

        def hit(self, site):
            if self.seams is not None:
                self.seams.hit('learner.' + site)

        def clear(self):
            self.hit('clear')
            self.X = self.y = None
            self.fits = 0
            if self.memory is not None:
                self.memory = {}

        def fit(self, X, y):
            self.hit('fit')
            self.X, self.y = np.array(X), np.array(y)
            self.fits += 1
            if self.memory is not None:
                self.memory.update((x.tobytes(), x) for x in self.X)
            if self.on_fit is not None:
                self.on_fit(self.X, self.y)
            self.hit('fit:after')

        def _dist(self, X):
            return np.abs(X[:, None, :] - self.X[None]).sum(axis=2)

        def predict(self, X):
            self.hit('predict')
            if self.X is None or len(self.X) == 0:
                return np.zeros(len(X))
            y = self.y if self.y.ndim == 1 else self.y.min(axis=1)
            return np.asarray(y, dtype=float)[self._dist(X).argmin(axis=1)]

        def predict_proba(self, X):
            return .25 + .5 * self.predict(X)

        def rank(self, X):
            self.hit('rank')
            if self.X is None or len(self.X) == 0:
                return np.zeros(len(X))
            if self.memory:
                known = np.array([self.memory[k] for k in sorted(self.memory)])
                return -np.floor(np.abs(X[:, None, :] - known[None]).sum(axis=2).min(axis=1) * self.coarse)
            return -np.floor(self._dist(X).min(axis=1) * self.coarse)

        def _select_next(self, dataset):
            if self.batch == 1:
                return super()._select_next(dataset)
            ranks = self.rank(dataset.data)
            order = np.argsort(ranks, kind='stable')[:self.batch]
            return dataset[order]

    return importable(Stub, 'Stub')


def factorized_stub_class():
    from aideme.active_learning import FactorizedActiveLearner
    Stub = stub_class()

    class FactorizedStub(Stub, FactorizedActiveLearner):
        fit_data = FactorizedActiveLearner.fit_data

    return importable(FactorizedStub, 'FactorizedStub')


# ---------------------------------------------------------------- classifiers for wrapper learners
def make_clf(name='nb'):
    from sklearn.naive_bayes import GaussianNB
    from sklearn.svm import SVC
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.linear_model import LogisticRegression

    class NB(GaussianNB):
        """ the library expects one-dimensional probabilities from the classifiers it wraps """

        def predict_proba(self, X):
            p = super().predict_proba(X)
            return p[:, -1] if p.shape[1] > 1 else np.full(len(X), float(self.classes_[0]))

    NB = importable(NB, 'NB')
    return {'nb': NB, 'svc': SVC, 'tree': lambda: DecisionTreeClassifier(max_depth=3, random_state=0),
            'lr': LogisticRegression}[name]()


VS = dict(n_samples=4, warmup=15, thin=2)

# name -> (cost, concept kinds it can learn without noise, needs)
LEARNERS = {
    'stub': {}, 'stub_batch': {}, 'random': {}, 'simple': {}, 'ratio': {'slow': 1}, 'uncertainty': {}, 'qbd': {}, 'qbd_tree': {},
    'lvs': {'linear': 1, 'vs': 1}, 'lvs_nr': {'linear': 1, 'vs': 1}, 'lvs_def': {'linear': 1, 'vs': 1},
    'kvs': {'vs': 1}, 'kvs_nr': {'vs': 1}, 'kvs_def': {'vs': 1}, 'kvs_sphere': {'vs': 1}, 'kvs_multi': {'vs': 1},
    'kvs_nodec': {'vs': 1}, 'kvs_rbf_g': {'vs': 1},
    'kvs_poly': {'vs': 1, 'data': ('uniform', 'grid'), 'kinds': ('half', 'half', 'ball')}, 'kvs_lin': {'vs': 1, 'linear': 1, 'data': ('uniform', 'grid')},
    'kvs_poly_g': {'vs': 1, 'data': ('uniform', 'grid'), 'kinds': ('half', 'half', 'ball')},  # few features: concepts they express, values their jitter suits
    'cat': {'data': ('onehot',), 'd': (3, 7), 'vs': 1}, 'mset': {'data': ('multiset',), 'kinds': ('items',), 'd': (3, 7), 'vs': 1},
    'svs_mix': {'parts': 3, 'vs': 1, 'data': ('mixed',), 'kinds': ('mixed',), 'd': (6, 9), 'n': (9, 18)},
    'entropy': {'vs': 1},
    'dsm': {}, 'dsm_pos': {}, 'dsm_neg': {}, 'dsm_kvs': {'vs': 1}, 'dsm_stub': {},
    'fdsm': {'parts': 1}, 'fdsm_pos': {'parts': 1}, 'fdsm_stub': {'parts': 1},
    'ssm': {'parts': 1}, 'svs': {'parts': 1, 'vs': 1},
    'swap': {'ext': 1}, 'swap_full': {'ext': 1, 'slow': 1, 'data': ('uniform', 'grid')}, 'swap_fista': {'ext': 1}, 'flm': {'ext': 1},
}


def make_learner(spec, d, seams=None, on_fit=None):
    """ spec: {'name': ..., 'parts': k, 'seed': ...}. Real learners everywhere except for the names holding 'stub'. """
    import aideme.active_learning as al
    name = spec['name']
    parts = split_columns(d, min(spec.get('parts', 1), d))
    unk = spec.get('unk', .5)
    kw = dict(VS)
    Stub = stub_class()
    if name == 'stub':
        return Stub(spec.get('coarse', 4), 1, seams, on_fit)
    if name == 'stub_batch':
        return Stub(spec.get('coarse', 4), spec.get('batch', 3), seams, on_fit)
    if name == 'random':
        return al.RandomSampler(make_clf('nb'), spec.get('batch', 1))
    if name == 'simple':
        return al.SimpleMargin(C=100.)
    if name == 'ratio':
        from aideme.active_learning.margin import RatioMargin
        return RatioMargin(C=100.)
    if name == 'uncertainty':
        return al.UncertaintySampler(make_clf('nb'))
    if name == 'qbd':
        return al.QueryByDisagreement(make_clf('svc'), background_sample_size=spec.get('bg', 10))
    if name == 'qbd_tree':
        return al.QueryByDisagreement(make_clf('tree'), background_sample_size=spec.get('bg', 10), background_sample_weight=1e-2)
    if name == 'lvs':
        return al.LinearVersionSpace(**kw)
    if name == 'lvs_nr':
        return al.LinearVersionSpace(rounding=False, **kw)
    if name == 'lvs_def':
        return al.LinearVersionSpace(rounding_options={'strategy': 'default', 'max_iter': 60}, **kw)
    if name == 'kvs':
        return al.KernelVersionSpace(**kw)
    if name == 'kvs_nr':
        return al.KernelVersionSpace(rounding=False, **kw)
    if name == 'kvs_def':
        return al.KernelVersionSpace(rounding_cache=False, rounding_options={'strategy': 'default', 'max_iter': 60}, **kw)
    if name == 'kvs_sphere':
        return al.KernelVersionSpace(rounding_options={'sphere_cuts': True}, **kw)
    if name == 'kvs_multi':
        return al.KernelVersionSpace(single_chain=False, **kw)
    if name == 'kvs_nodec':
        return al.KernelVersionSpace(decompose=False, rounding_cache=False, **kw)
    if name == 'kvs_poly':
        return al.KernelVersionSpace(kernel='poly', coef0=1., rounding_cache=False, **kw)
    if name == 'kvs_poly_g':
        return al.KernelVersionSpace(kernel='poly', gamma=.5, degree=2, coef0=.5, **kw)
    if name == 'kvs_lin':
        return al.KernelVersionSpace(kernel='linear', **kw)
    if name == 'kvs_rbf_g':
        return al.KernelVersionSpace(gamma=2., rounding=False, **kw)
    if name == 'entropy':
        return al.EntropyReductionLearner(data_sample_size=spec.get('sample', 12), **kw)
    tol = {'tol': spec['tol']} if spec.get('tol') else {}
    if name == 'dsm':
        return al.DualSpaceModel(al.SimpleMargin(C=100.), mode='persist', sample_unknown_proba=unk, **tol)
    if name == 'dsm_pos':
        return al.DualSpaceModel(al.SimpleMargin(C=100.), mode='positive', sample_unknown_proba=unk, **tol)
    if name == 'dsm_neg':
        return al.DualSpaceModel(al.SimpleMargin(C=100.), mode='negative', sample_unknown_proba=unk, **tol)
    if name == 'dsm_kvs':
        return al.DualSpaceModel(al.KernelVersionSpace(rounding_cache=False, **kw), mode=spec.get('mode', 'persist'), sample_unknown_proba=unk, **tol)
    if name == 'dsm_stub':
        return al.DualSpaceModel(Stub(spec.get('coarse', 4), spec.get('batch', 1), seams, on_fit), mode=spec.get('mode', 'persist'),
                                 sample_unknown_proba=unk, **tol)
    if name == 'fdsm':
        return al.FactorizedDualSpaceModel(al.SimpleMargin(C=100.), partition=parts, mode='persist', sample_unknown_proba=unk, **tol)
    if name == 'fdsm_pos':
        return al.FactorizedDualSpaceModel(al.SimpleMargin(C=100.), partition=parts, mode='positive', sample_unknown_proba=unk, **tol)
    if name == 'fdsm_stub':
        return al.FactorizedDualSpaceModel(Stub(spec.get('coarse', 4), spec.get('batch', 1), seams, on_fit), partition=parts,
                                           mode=spec.get('mode', 'persist'), sample_unknown_proba=unk, **tol)
    if name == 'ssm':
        return al.SubspatialSimpleMargin(parts, C=100.)
    if name == 'svs':
        return al.SubspatialVersionSpace(parts, rounding_cache=False, **kw)
    if name == 'svs_mix':
        return al.SubspatialVersionSpace(mixed_groups(d), mode=['numerical', 'categorical', 'multiset'], rounding_cache=False, loss=spec.get('loss', 'GREEDY'), **kw)
    if name == 'cat':
        from aideme.active_learning.version_space.categorical import CategoricalActiveLearner
        return CategoricalActiveLearner()
    if name == 'mset':
        from aideme.active_learning.version_space.categorical import MultiSetActiveLearner
        return MultiSetActiveLearner()
    if name == 'swap':
        return al.SimplifiedSwapLearner(swap_iter=spec.get('swap', 3), num_subspaces=2, use_vs=False, train_sample_size=20, prune=False,
                                        refine_max_iter=15, use_exp_decay=False, cars=False, adapt_max_iter=spec.get('adapt', True),
                                        refine_min_iter=5, refine_every=2)
    if name == 'swap_fista':
        return al.SimplifiedSwapLearner(swap_iter=spec.get('swap', 3), num_subspaces=2, use_vs=False, train_sample_size=20, prune=False,
                                        refine_max_iter=15, use_fista=True, refine_step_size=.5)
    if name == 'swap_full':
        return al.SimplifiedSwapLearner(swap_iter=spec.get('swap', 3), num_subspaces=3, use_vs=False, train_sample_size=20, prune=False,
                                        refine_max_iter=15, full_fact=True, fact_max_iter=30)
    if name == 'flm':
        return al.FLMUncertaintySampler(max_iter=15, num_subspaces=2, prune=False, penalty_iter=3)
    raise KeyError(name)


# ---------------------------------------------------------------- sessions
class Problem:
    """ data + index + user concept, built from plan['problem'] """

    def __init__(self, spec):
        self.spec = spec
        self.X = make_data(spec['data'])
        self.n, self.d = self.X.shape
        self.ids = make_index(spec['index'], self.n)
        self.partial = concept_partial(self.X, spec['concept'])
        self.y = self.partial.min(axis=1)
        if spec.get('int_labels'):
            self.y = self.y.astype(int)
        self.row_of = {idx: i for i, idx in enumerate(self.ids.tolist())}

    def labeled_set(self):
        from aideme.explore import LabeledSet
        partial = self.partial.copy() if self.partial.shape[1] > 1 else None
        index = None if self.spec['index']['style'] == 'range' else self.ids.copy()
        return LabeledSet(self.y.copy(), partial, index)

    def row(self, idx):
        return self.row_of[idx]

    def rows(self, idxs):
        return [self.row_of[i] for i in idxs]


def gen_problem(rng, learner=None, n=(6, 28), d=(1, 4), parts=None, kinds=None, styles=INDEX_STYLES, data_kinds=('uniform', 'grid', 'wide')):
    info = LEARNERS.get(learner, {}) if learner else {}
    dd = list(d)
    if info.get('parts'):
        dd[0] = max(2, dd[0])
        parts = 3 if info['parts'] == 3 else parts or 2
    if info.get('linear'):
        parts = None  # an intersection of half-spaces is not linearly separable
    if kinds is None:
        kinds = ('half',) if info.get('linear') else ('box', 'half', 'ball', 'random')
    if info.get('vs'):
        kinds = tuple(k for k in kinds if k != 'random')  # equal values always have equal labels: the version space is not empty
        data_kinds = tuple(k for k in data_kinds if k != 'dup')
        n = (n[0], min(n[1], 18))
    if info.get('slow'):
        n = (n[0], min(n[1], 14))
    data_kinds, kinds, d, n = info.get('data', data_kinds), info.get('kinds', kinds), info.get('d', dd), info.get('n', n)
    data = gen_data(rng, n, tuple(d), data_kinds)
    return {'data': data, 'index': gen_index(rng, styles), 'concept': gen_concept(rng, parts, kinds), 'int_labels': chance(rng, .3)}


def gen_learner(rng, names, **kw):
    spec = {'name': rng.choice(names), 'seed': rng.getrandbits(31)}
    if spec['name'] in ('stub', 'stub_batch', 'dsm_stub', 'fdsm_stub'):
        spec['coarse'] = rng.choice([0.01, 1, 4, 50])
    if spec['name'] in ('stub_batch', 'random'):
        spec['batch'] = rng.choice([1, 2, 3, 5])
    if spec['name'] in ('dsm_stub', 'fdsm_stub'):
        spec['batch'] = rng.choice([1, 1, 2, 3])
        spec['mode'] = rng.choice(['persist', 'positive', 'negative'])
    if LEARNERS.get(spec['name'], {}).get('parts'):
        spec['parts'] = 2 if LEARNERS[spec['name']]['parts'] == 1 else 3
    if spec['name'].startswith('swap'):
        spec['swap'] = rng.choice([1, 2, 4])
        spec['adapt'] = chance(rng, .5)
    if 'dsm' in spec['name']:
        spec['unk'] = rng.choice([.2, .5, 1.])
    spec.update(kw)
    return spec


def gen_sampler(rng, learner_name, n):
    """ initial samplers under which the given learner is usable """
    if learner_name in ('stub', 'stub_batch', 'random') and chance(rng, .3):
        return None
    if LEARNERS.get(learner_name, {}).get('parts') and learner_name in ('ssm', 'svs', 'svs_mix'):
        return {'kind': 'stratified', 'pos': 1, 'neg': 1, 'all': True}
    return rng.choice([{'kind': 'stratified', 'pos': 1, 'neg': 1, 'all': False}, {'kind': 'random', 'size': 1},
                       {'kind': 'random', 'size': rng.choice([2, 3])}, {'kind': 'fixed', 'seed': rng.getrandbits(31)}])


def stratified_args(pos, neg, everywhere):
    """ arguments which hold their default are not given """
    return {k: v for k, v in (('pos', pos), ('neg', neg), ('neg_in_all_subspaces', everywhere)) if v != {'pos': 1, 'neg': 1, 'neg_in_all_subspaces': False}[k]}


def make_sampler(spec, problem, labeled_set, seams=None):
    import aideme
    if spec is None:
        return None
    if spec['kind'] == 'stratified':
        pos = min(spec['pos'], int((problem.y == 1).sum()))
        neg = min(spec['neg'], int((problem.partial.max(axis=1) == 0).sum() if spec.get('all') else (problem.y != 1).sum()))
        s = aideme.stratified_sampler(labeled_set, **stratified_args(pos, neg, bool(spec.get('all'))))
    elif spec['kind'] == 'random':
        s = aideme.random_sampler(spec['size'])
    elif spec['kind'] == 'fixed':
        r = np.random.RandomState(spec['seed'])
        pos, neg = np.where(problem.y == 1)[0], np.where(problem.y != 1)[0]
        s = aideme.fixed_sampler([problem.ids[r.choice(pos)], problem.ids[r.choice(neg)]])
    else:
        raise KeyError(spec['kind'])
    return seams.func(s, 'sampler') if seams is not None else s


def clean(m):
    """ metrics as plain data, for comparisons (timings depend on the virtual clock and are dropped) """
    return {k: freeze(v) for k, v in m.items() if not k.endswith('_time')}


def freeze(v):
    if isinstance(v, np.ndarray):
        return ('nd', v.shape, tuple(freeze(x) for x in v.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return 'nan'
    return v


def digest(*vs):
    return hashlib.md5(repr([freeze(v) for v in vs]).encode()).hexdigest()[:12]


def arr_bytes(a):
    return (a.shape, a.dtype.str, a.tobytes())


class Judging:
    """ an observation the harness cannot even read (wrong type, missing key, ...) is a malformed result, not a harness error """

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if e is None or isinstance(e, Violation) or not isinstance(e, (TypeError, AttributeError, KeyError, IndexError, ValueError)):
            return False
        raise Violation('malformed-' + self.what, '{}: {}'.format(t.__name__, e)) from e
