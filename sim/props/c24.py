""" C24: swap learners change phase exactly when configured """
import copy

import numpy as np
from scipy.special import expit

from .. import world
from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging

ID = 'C24'
RUNS = {'quick': 800, 'thorough': 60000}
BUDGET = 30_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Swap learners, put together from parts or in the simplified configuration, go through several sessions over one dataset. Inner learners, optimizers and any executed line may fail, after which the iteration is retried, the session '
        'goes on with another point, or the learner is cleared for another session. A reference model, itself started afresh for each session, says at every iteration which phase it is, which parts are called and what is predicted.')
STATE_MEASURE = 'configuration, phase, iteration within the phase, faults, number of subspaces left'
REAL = ['SwapLearner', 'SimplifiedSwapLearner', 'FactorizationManager', 'LinearFactorizationLearner', 'optimizers', 'penalties', 'PartitionedDataset', 'SimpleMargin', 'UncertaintySampler', 'KernelVersionSpace', 'SubspatialSimpleMargin']
STUBS = ['nearest-neighbour learners for the first and the last phase (part of the runs)', 'the user']
ASSUMPTIONS = ['the number of iterations of a phase counts the successful ones', 'the fit of one linear model is a function of its data, its starting point and the random state (C20)']
NEEDS_EXT = True
LISTS = ['sessions', 'sessions.0.faults', 'sessions.1.faults', 'sessions.2.faults']
NUMBERS = {'data.n': 8}
SIMPLE = {}
MUST_REACH = ['custom', 'simplified', 'swapped', 'refined', 'full', 'full-refit', 'reordered', 'cyclic', 'pruned', 'adapted', 'retries', 'on-labels', 'on-sample', 'no-bias', 'shared-optimizer', 'same-model', 'fista', 'retry', 'go-on', 'clear-after-failure',
              'failed-active', 'failed-swap', 'failed-refine', 'failed-full', 'second-session', 'line', 'inner', 'optimizer', 'unstable', 'incompatible', 'compatible', 'user-later', 'dual-space', 'dual-space-inferred']


def gen_linear(rng, swap):
    o = {'name': rng.choice(['Adam', 'Adam', 'Adam', 'GradientDescent'] + ([] if swap else ['FISTA'])), 'max_iter': rng.choice([1, 4, 15] if swap else [1, 3, 8]), 'step': rng.choice([.05, .1, .3]),
         'batch': rng.choice([None, None, 3]) if swap else None, 'decay': rng.random() < .3}
    return {'opt': o, 'penalty': rng.choice([None, 1e-4, 1e-2]) if o['name'] != 'FISTA' else rng.choice([1e-4, 1e-2]), 'bias': rng.random() < .8}


def generate(rng, tier):
    kind = rng.choice(['custom', 'custom', 'custom', 'simplified'])
    full = rng.random() < (.5 if kind == 'custom' else .35)
    d = rng.choice([1, 2, 3]) if not full else rng.choice([3, 4, 5])
    n = rng.choice([8, 14, 20]) if not full else rng.choice([24, 36])
    plan = {'kind': kind, 'data': {'n': n, 'd': d, 'seed': rng.getrandbits(31)}, 'relevant': rng.randint(1, d) if not full else rng.choice([1, 2, d - 1, d - 1]), 'label_seed': rng.getrandbits(31)}
    many = n - 4
    if kind == 'custom':
        c = {'inner': rng.choice(['stub', 'stub', 'simple', 'uncertainty', 'kvs']), 'swap_iter': rng.choice([1, 1, 2, 3, 5]), 'subspaces': rng.choice([1, 2, 3]), 'retries': rng.choice([1, 1, 3]), 'on_prediction': rng.random() < .6,
             'sample': rng.choice([None, 3, 10, 1000]), 'prune': rng.random() < .6, 'threshold': rng.choice([.9, .99, 1.]), 'adapter': rng.choice([None, None, [2, 1, 5, 3], [1, 2, 3, 4]]), 'swap': gen_linear(rng, True),
             'refine': rng.choice([None, 'shared', 'own', 'own'])}
        c['own'] = gen_linear(rng, False)
        if full:
            c['swap']['opt'].update(name='Adam', max_iter=rng.choice([60, 200]), step=.2, decay=False)
            c['refine'] = rng.choice([None, 'own'])
            c['own']['opt'].update(max_iter=20, step=.1)
            c['adapter'] = None
            c['subspaces'] = rng.choice([1, 2, 3, 4, 4])
        c['full'] = {'every': rng.choice([1, 1, 2, 3]), 'repeat': rng.choice([1, 2]), 'max_iter': rng.choice([5, 25]), 'step': rng.choice([1, 5]), 'penalty': rng.choice([1e-4, 1e-3]), 'model': rng.choice(['stub', 'stub', 'ssm', 'fdsm']), 'dsm_mode': rng.choice(['persist', 'persist', 'positive', 'negative'])} if full else None
    else:
        c = {'swap_iter': rng.choice([1, 2, 3]), 'num_subspaces': rng.choice([1, 2, 3]), 'retries': rng.choice([1, 1, 2]), 'train_sample_size': rng.choice([10, 20, 300]), 'prune': rng.random() < .6, 'adapt_max_iter': rng.random() < .6,
             'refine_min_iter': rng.choice([1, 2, 5]), 'refine_max_iter': rng.choice([5, 12]), 'refine_every': rng.choice([1, 2, 3]), 'refine_increment': rng.choice([1, 4]), 'refine_exp': rng.random() < .4,
             'refine_step_size': rng.choice([None, .3]), 'use_exp_decay': rng.random() < .7, 'use_fista': rng.random() < .4, 'cars': False, 'full_fact': full, 'fact_max_iter': 10, 'l1_penalty': rng.choice([1e-4, 1e-2]),
             'l2_sqrt_penalty': rng.choice([1e-4, 1e-2]), 'one_hot_groups': [list(range(d))] if rng.random() < .2 and not full else None}
    plan['config'] = c
    plan['user'] = {'kind': rng.choice(['match', 'match', 'match', 'match', 'other', 'none', 'fewer']), 'extra_seed': rng.getrandbits(31), 'later': rng.random() < .3} if full else None
    inner_faulty = kind != 'custom' or c['inner'] != 'kvs'
    sessions = []
    for _ in range(rng.choice([1, 2, 2, 3]) if not full else rng.choice([1, 2])):
        length = rng.choice([2, 5, 9, 12]) if not full else rng.choice([many, many, 12])
        faults = []
        if rng.random() < .6 and inner_faulty:
            for _ in range(rng.choice([1, 1, 2, 4])):
                faults.append({'at': rng.randint(1, min(length, many)), 'where': rng.choice(['line', 'line', 'line', 'inner', 'optimizer', 'fact']), 'kind': rng.choice(['error', 'interrupt', 'memory', 'value']), 'line': int(10 ** rng.uniform(0, 3.5)),
                               'then': rng.choice(['retry', 'go-on', 'clear'])})
        sessions.append({'extra': rng.choice([0, 0, n // 3, n // 2]) if full else rng.choice([0, 0, 2]), 'length': min(length, many), 'seed': rng.getrandbits(31), 'start': rng.getrandbits(31), 'batch': 1 if full and kind == 'custom' and c['full']['model'] == 'fdsm' else rng.choice([1, 1, 1, 2]), 'faults': faults})
    plan['sessions'] = sessions
    return plan


# ---------------------------------------------------------------- the parts
def make_opt(o, max_iter=None):
    from aideme.active_learning.factorization import optimization
    kw = dict(step_size=o['step'], max_iter=o['max_iter'] if max_iter is None else max_iter, batch_size=o['batch'], gtol=0, rel_tol=0)
    if o['decay']:
        kw.update(adapt_step_size=True, adapt_every=3)
    kw.update(o.get('more') or {})
    return getattr(optimization, o['name'])(**kw)


def make_linear(spec, max_iter=None, opt=None):
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
    p = spec['penalty']
    if isinstance(p, dict):
        p = SparseGroupLassoPenalty(**p)
    elif p is not None:
        p = SparseGroupLassoPenalty(l1_penalty=p, l2_sqrt_penalty=p)
    return LinearFactorizationLearner(opt or make_opt(spec['opt'], max_iter), p, add_bias=spec['bias'])


def make_inner(name):
    import aideme.active_learning as al
    if name == 'stub':
        return world.stub_class()(coarse=4)
    if name == 'simple':
        return al.SimpleMargin(C=100.)
    if name == 'simple6':
        return al.SimpleMargin(C=1e6)
    if name == 'uncertainty':
        return al.UncertaintySampler(world.make_clf('nb'))
    return al.KernelVersionSpace(rounding_cache=False, **world.VS)


def make_fact(full, partition=None):
    import aideme.active_learning as al
    if full['model'] == 'stub':
        return world.factorized_stub_class()(coarse=4)
    if full['model'] == 'fdsm':
        return al.FactorizedDualSpaceModel(al.SimpleMargin(C=1e3), partition=partition, mode=full['dsm_mode'])
    return al.SubspatialSimpleMargin(C=1e3)


class Calls:
    """ counts the calls which reach a part, and makes one of them fail """

    def __init__(self):
        self.fit, self.opt, self.fact, self.structure, self.fail = 0, {'swap': 0, 'refine': 0}, 0, [], None

    def start(self):
        self.fit, self.fact, self.structure = 0, 0, []
        self.opt = {'swap': 0, 'refine': 0}

    def hit(self, where):
        if self.fail is not None and self.fail['where'] == where:
            kind, self.fail = self.fail['kind'], None
            raise FAULTS[kind]()

    def watch(self, obj, name, note):
        original = getattr(obj, name)

        def seam(*a, **k):
            note(*a, **k)
            return original(*a, **k)
        setattr(obj, name, seam)


SNAPSHOT = {}


def simplified_defaults():
    """ class constants, as they were when first read """
    from aideme.active_learning.factorization.active_learning import SimplifiedSwapLearner as S
    now = {k: copy.deepcopy(v) for k, v in vars(S).items() if k.isupper()}
    SNAPSHOT.setdefault('constants', now)
    return SNAPSHOT['constants'], now


def describe(plan):
    """ the configuration in one form: the one of 'custom' """
    c = plan['config']
    if plan['kind'] == 'custom':
        return c
    k, _ = simplified_defaults()
    s = dict(k['SWAP_EXP_DECAY'] if c['use_exp_decay'] else k['SWAP_DEFAULT_PARAMS'])
    epochs = -(-c['train_sample_size'] // s['batch_size'])
    swap = {'name': 'Adam', 'max_iter': s['max_iter'] * epochs, 'step': s['step_size'], 'batch': s['batch_size'], 'decay': False,
            'more': {'adapt_step_size': s['adapt_step_size'], 'adapt_every': s['adapt_every'] * epochs, 'exp_decay': s.get('exp_decay', 0)}}
    r = k['FISTA_DEFAULT_PARAMS'] if c['use_fista'] else k['REFINE_DEFAULT_PARAMS']
    refine = {'name': 'FISTA' if c['use_fista'] else 'Adam', 'max_iter': c['refine_max_iter'], 'step': c['refine_step_size'] or r['step_size'], 'batch': None, 'decay': False}
    lo, hi, every, inc = c['refine_min_iter'], c['refine_max_iter'], c['refine_every'], c['refine_increment']
    adapter = None
    if c['adapt_max_iter']:
        if c['refine_exp']:
            adapter = [min(hi, lo * 2 ** (i // every)) for i in range(1, 60)]
        else:
            adapter = [min(hi, lo + inc * (i // every)) for i in range(1, 60)]
    return {'inner': 'simple6', 'swap_iter': c['swap_iter'], 'subspaces': c['num_subspaces'], 'retries': c['retries'], 'on_prediction': True, 'sample': c['train_sample_size'], 'prune': c['prune'], 'threshold': .99, 'adapter': adapter,
            'swap': {'opt': swap, 'penalty': None, 'bias': True}, 'refine': 'own',
            'own': {'opt': refine, 'penalty': dict(l1_penalty=c['l1_penalty'], l2_sqrt_penalty=c['l2_sqrt_penalty'], groups=c['one_hot_groups']), 'bias': True},
            'full': {'every': 5, 'repeat': 2, 'max_iter': c['fact_max_iter'], 'step': 5, 'penalty': 5e-4, 'model': 'ssm'} if c['full_fact'] else None}


def adapted(adapter, i):
    return adapter[(i - 1) % len(adapter)] if len(adapter) < 10 else adapter[i - 1]


def build(plan, c, calls, user):
    from aideme.active_learning.factorization import active_learning as fal
    if plan['kind'] == 'simplified':
        learner = fal.SimplifiedSwapLearner(use_vs=False, **copy.deepcopy(plan['config']))
        if user is not None and not plan['user']['later']:
            learner.set_user_factorization(copy.deepcopy(user))
        return learner
    inner = make_inner(c['inner'])

    def fit(*a):
        calls.fit += 1
        calls.hit('inner')
    calls.watch(inner, 'fit', fit)
    swap = make_linear(c['swap'])
    calls.watch(swap.optimizer, 'minimize', lambda *a: (calls.opt.__setitem__('swap', calls.opt['swap'] + 1), calls.hit('optimizer')))
    refine = None
    if c['refine'] == 'shared':
        refine = make_linear(dict(c['own'], opt=c['swap']['opt']), opt=swap.optimizer)
    elif c['refine'] == 'own':
        refine = make_linear(c['own'])
        calls.watch(refine.optimizer, 'minimize', lambda *a: (calls.opt.__setitem__('refine', calls.opt['refine'] + 1), calls.hit('optimizer')))
    fact, kw = None, {}
    if c['full']:
        f = c['full']
        fact = make_fact(f)
        calls.watch(fact, 'set_factorization_structure', lambda **k: calls.structure.append(copy.deepcopy(k.get('partition'))))

        def fit_fact(*a):
            calls.fact += 1
            calls.hit('fact')
        calls.watch(fact.active_learner if f['model'] == 'fdsm' else fact, 'fit', fit_fact)
        kw = dict(fact_model=fact, user_fact=None if plan['user']['later'] else copy.deepcopy(user), compute_fact_every=f['every'], fact_repeat=f['repeat'], fact_max_iter=f['max_iter'], fact_step_size=f['step'],
                  fact_l1_penalty=f['penalty'], fact_l2_sqrt_penalty=f['penalty'])
    return fal.SwapLearner(inner, swap, refining_model=refine, num_subspaces=c['subspaces'], retries=c['retries'], swap_iter=c['swap_iter'], train_on_prediction=c['on_prediction'], train_sample_size=c['sample'], prune=c['prune'],
                           prune_threshold=c['threshold'], max_iter_adapter=None if c['adapter'] is None else lambda i: adapted(c['adapter'], i), **kw)


# ---------------------------------------------------------------- the reference model
def compatible(factorization, user):
    """ :return: which learned subspace goes to each of the user's (sorted) subspaces, or None """
    if user is None or len(factorization) != len(user):
        return None
    user = sorted(sorted(s) for s in user)
    fits = [[j for j, u in enumerate(user) if set(f) <= set(u)] for f in factorization]
    if any(len(f) != 1 for f in fits) or len({f[0] for f in fits}) != len(user):
        return None
    return [[f[0] for f in fits].index(j) for j in range(len(user))]


def relevant(matrix, X, threshold):
    """ rows of weights and biases which matter: positive somewhere only, with weights """
    return (expit(X @ matrix[:, :-1].T + matrix[:, -1]).min(axis=0) < threshold) & (np.sqrt(np.square(matrix[:, :-1]).sum(axis=1)) > 1e-8)


def factorize(data, matrix, f):
    """ sparse weights; their relevant attributes, which form the factorization; partial labels by the weights over these attributes only """
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.optimization import Adam, FISTA
    from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
    X, y = data.training_set()
    sparse = LinearFactorizationLearner(FISTA(step_size=f['step'], max_iter=f['max_iter']), SparseGroupLassoPenalty(l1_penalty=f['penalty'], l2_sqrt_penalty=f['penalty']))
    sparse.fit(X, y, len(matrix), x0=matrix)
    matrix = sparse.weight_matrix
    matrix = matrix[relevant(matrix, data.data, .99)]
    size = np.abs(matrix[:, :-1])
    with np.errstate(all='ignore'):
        attributes = [np.flatnonzero(row).tolist() for row in size / size.sum(axis=1, keepdims=True) > 1 / size.shape[1]]
    factorization = sorted([list(t) for t in {tuple(a) for a in attributes} if not any(set(t) < set(b) for b in attributes)])
    final = LinearFactorizationLearner(Adam(step_size=.1, max_iter=f['max_iter']))
    final.fit(X, y, attributes, x0=matrix)
    matrix = final.weight_matrix
    logs = -np.logaddexp(0, -(X @ matrix[:, :-1].T + matrix[:, -1]))
    total = np.zeros((len(X), len(factorization)))
    for j, a in enumerate(attributes):  # attributes of several subspaces say a share about each of them
        where = [i for i, s in enumerate(factorization) if set(a) <= set(s)]
        for i in where:
            total[:, i] += logs[:, j] / len(where)
    return factorization, (total > np.log(.5)).astype(float)


class Reference:
    def __init__(self, c, X):
        self.c, self.X = c, X
        self.it, self.weights, self.bias, self.full = 0, None, None, False
        self.inner = make_inner(c['inner'])
        self.fact, self.partition = None, None
        self.counts = {(None, 0)}  # possible (last factorization, how often it was repeated)
        self.factorization = self.order = self.labels = None

    def phase(self):
        return 'full' if self.full else 'active' if self.it <= self.c['swap_iter'] else 'swap' if self.it == self.c['swap_iter'] + 1 else 'refine'

    def fork(self):
        other = copy.copy(self)
        other.counts = set(self.counts)
        return other

    def fit(self, data, user):
        """ one successful iteration """
        c = self.c
        self.it += 1
        self.factorization = self.order = self.labels = self.stages = None
        phase = self.phase()
        if phase == 'active':
            self.inner.fit_data(data)
        elif phase == 'full':
            self.fit_fact(data)
        else:
            if phase == 'swap':
                if c['on_prediction']:
                    X = data.sample(c['sample'])
                    y = self.inner.predict(X)
                else:
                    X, y = data.training_set()
                model = make_linear(c['swap'])
                model.fit(X, y, c['subspaces'], retries=c['retries'])
                self.keep(model)
            else:
                self.refine(data)
            self.refactor(data, user)
        return phase

    def keep(self, model):
        self.weights = model.weights
        m = model.weight_matrix
        self.bias = m[:, -1].copy() if model.add_bias and self.spec()['bias'] else np.zeros(len(m))  # the refined model has the last word

    def spec(self):
        c = self.c
        return c['swap'] if c['refine'] is None else dict(c['own'], opt=c['swap']['opt']) if c['refine'] == 'shared' else c['own']

    def refine(self, data):
        c = self.c
        X, y = data.training_set()
        i = self.it - c['swap_iter'] - 1
        model = make_linear(self.spec(), adapted(c['adapter'], i) if c['adapter'] else None)
        x0 = np.hstack([self.weights, self.bias.reshape(-1, 1)]) if model.add_bias else self.weights
        model.fit(X, y, len(self.weights), x0=x0)
        self.keep(model)
        self.stages = [self.weights]
        if c['prune']:
            # the largest probability is what matters: subspaces positive everywhere, or without weights, say nothing
            keep = relevant(np.hstack([self.weights, self.bias.reshape(-1, 1)]), data.data, c['threshold'])
            self.weights, self.bias = self.weights[keep], self.bias[keep]
            self.stages.append(self.weights)

    def refactor(self, data, user):
        f = self.c['full']
        if f is None or (self.it - self.c['swap_iter'] - 1) % f['every']:
            return
        factorization, labels = factorize(data, np.hstack([self.weights, self.bias.reshape(-1, 1)]), f)
        self.factorization = factorization
        key = tuple(tuple(int(a) for a in s) for s in factorization)
        self.counts = {(key, k + 1 if last == key else 0) for last, k in self.counts}
        self.stable = {k >= f['repeat'] for _, k in self.counts}
        self.order = compatible(factorization, user)
        self.labels = labels

    def switch(self, data):
        """ hands the factorization over, in the user's order """
        self.full = True
        self.partition = [self.factorization[i] for i in self.order]
        self.fact = make_fact(self.c['full'], self.partition)
        if self.c['full']['model'] == 'fdsm':
            from aideme.explore import LabeledSet, PartitionedDataset
            self.data = PartitionedDataset(self.X.copy())
            self.data.move_to_labeled(LabeledSet(data.training_set()[1], self.labels[:, self.order], index=data.labeled.index.tolist()))
            self.fact.fit_data(self.data)
            return
        self.fact.set_factorization_structure(partition=self.partition, mode='numerical')
        self.fact.fit(data.training_set()[0], self.labels[:, self.order])

    def fit_fact(self, data):
        if self.c['full']['model'] == 'fdsm':
            known = set(self.data.labeled.index.tolist())
            new = [i for i in data.labeled.index.tolist() if i not in known]
            if new:
                self.data.move_to_labeled(data.labeled_set.get_index(new))
            self.fact.fit_data(self.data)
            return
        self.fact.fit_data(data)

    def predict(self):
        """ -> labels, probabilities (None if there are none), ranks """
        phase = self.phase()
        if phase in ('active', 'full'):
            m = self.inner if phase == 'active' else self.fact
            proba = None
            if not (phase == 'full' and self.c['full']['model'] in ('ssm', 'fdsm')) and self.c['inner'] not in ('simple', 'simple6'):
                proba = m.predict_proba(self.X)
            return m.predict(self.X), proba, m.rank(self.X)
        with np.errstate(all='ignore'):
            margin = self.X @ self.weights.T + self.bias
            proba = np.exp(-np.logaddexp(0, -margin).sum(axis=1))
        return None, proba, np.abs(proba - .5)


# ---------------------------------------------------------------- runs
def concept(plan):
    r = np.random.RandomState(plan['data']['seed'] & 0x7fffffff)
    n, d = plan['data']['n'], plan['data']['d']
    X = r.uniform(-1, 1, size=(n, d)) * (3 if plan['user'] else 1)
    attrs = np.sort(r.choice(d, plan['relevant'], replace=False))
    if plan['user'] is not None and r.uniform() < .85:
        attrs = np.arange(d - plan['relevant'], d)  # the first attributes say nothing
    sign = r.choice([-1, 1], size=len(attrs))
    score = (X[:, attrs] * sign).min(axis=1)
    y = (score >= np.sort(score)[n // 2]).astype(float)
    return X, y


def user_partial(y, k, seed):
    r = np.random.RandomState(seed & 0x7fffffff)
    P = np.ones((len(y), k))
    neg = np.where(y == 0)[0]
    P[neg] = r.randint(0, 2, size=(len(neg), k))
    full = neg[P[neg].min(axis=1) == 1]
    P[full, r.randint(k, size=len(full))] = 0
    return P


def choose_user(plan, factorizations):
    """ the user's own subspaces, chosen after what a first run learned """
    u = plan['user']
    if u['kind'] == 'none' or not factorizations:
        return None
    r = np.random.RandomState(u['extra_seed'] & 0x7fffffff)
    base = factorizations[-1]
    if not base or any(len(s) == 0 for s in base):
        return None
    d = plan['data']['d']
    if u['kind'] == 'other':
        return [[int(a)] for a in r.permutation(d)[:len(base)]]
    if u['kind'] == 'fewer':
        return [list(range(d))]
    out = [sorted(int(a) for a in s) for s in base]
    for a in range(d):
        if not any(a in s for s in out) and r.uniform() < .9:
            out[r.randint(len(out)) if r.uniform() < .3 else len(out) - 1].append(a)
    return [out[i] for i in r.permutation(len(out))]


class Quiet:
    """ a context for the pilot: nothing is judged """

    def __getattr__(self, name):
        return lambda *a, **k: None


def execute(plan, ctx):
    c = describe(plan)
    X, y = concept(plan)
    ctx.probe(plan['kind'])
    for flag, name in ((c['retries'] > 1, 'retries'), (c['on_prediction'], 'on-sample'), (not c['on_prediction'], 'on-labels'), (not c['swap']['bias'] or not c['own']['bias'], 'no-bias'), (c['refine'] == 'shared', 'shared-optimizer'),
                       (c['refine'] is None, 'same-model'), (c['own']['opt']['name'] == 'FISTA' and c['refine'] == 'own', 'fista')):
        if flag:
            ctx.probe(name)
    user = None
    if c['full']:
        with np.errstate(all='ignore'):
            user = choose_user(plan, pilot(plan, c, X, y))
    k = len(user) if user else 1
    partial = user_partial(y, k, plan['label_seed']) if k > 1 else None
    calls = Calls()
    learner = build(plan, c, calls, user)
    if user is not None and plan['user']['later']:
        ctx.probe('user-later')
    with np.errstate(all='ignore'):
        for s, session in enumerate(plan['sessions']):
            if s:
                ctx.probe('second-session')
                learner.clear()
            ctx.log('session', s)
            run_session(plan, c, ctx, learner, calls, session, X, y, partial, user)
    if plan['kind'] == 'simplified':
        before, now = simplified_defaults()
        ctx.check(repr(before) == repr(now), 'shared-configuration', lambda: '{} became {}'.format(before, now))


def start(session, X, y, partial):
    from aideme.explore import LabeledSet, PartitionedDataset
    labels = LabeledSet(y.copy(), None if partial is None else partial.copy())
    data = PartitionedDataset(X.copy())
    r = np.random.RandomState(session['start'] & 0x7fffffff)
    first = [int(r.choice(np.where(y == 1)[0])), int(r.choice(np.where(y == 0)[0]))]
    first += [int(i) for i in r.permutation(len(y)) if i not in first][:session['extra']]
    data.move_to_labeled(labels.get_index(first))
    return labels, data


def pilot(plan, c, X, y):
    """ the factorizations learned when no user factorization is known: none of the picks depends on it """
    session = dict(plan['sessions'][0], faults=[])
    found = []
    ref = Reference(c, X)
    try:
        calls = Calls()
        learner = build(dict(plan, user={'later': True}), c, calls, None)
        labels, data = start(session, X, y, None)
        np.random.seed(session['seed'])
        for _ in range(session['length']):
            state = np.random.get_state()
            learner.fit_data(data)
            after = np.random.get_state()
            np.random.set_state(state)
            ref.fit(data, None)
            np.random.set_state(after)
            if ref.factorization is not None:
                found.append(ref.factorization)
            label_next(session, learner, labels, data)
    except Exception:
        pass  # the run itself will judge
    return found


def label_next(session, learner, labels, data):
    for _ in range(session['batch']):
        batch = learner.next_points_to_label(data, None)
        data.move_to_labeled(labels.get_index(batch.index.tolist()))


def run_session(plan, c, ctx, learner, calls, session, X, y, partial, user):
    from aideme.utils import metric_logger
    ref = Reference(c, X)
    labels, data = start(session, X, y, partial)
    np.random.seed(session['seed'])
    if user is not None and plan['user']['later']:
        learner.set_user_factorization(copy.deepcopy(user))
    custom = plan['kind'] == 'custom'
    ctx.check(learner.is_active_learning_phase and not learner.is_factorization_phase and learner.linear_model is None, 'phase', 'a cleared learner is not in its first phase')
    faults = {}
    for f in session['faults']:
        faults.setdefault(f['at'], f)
    step, failed_before, expected_partial = 0, False, None
    while step < session['length'] and data.unlabeled_size > session['batch']:
        step += 1
        fault = faults.pop(step, None)
        while True:
            calls.start()
            metric_logger.flush()
            before = np.random.get_state()
            want, want_error = ref.fork(), None
            try:
                phase = want.fit(data, user)
            except (RuntimeError, ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError, FloatingPointError, TypeError, IndexError) as e:
                want_error, phase = e, want.phase()
            np.random.set_state(before)
            metric_logger.flush()
            error = None
            if fault is not None:
                if fault['where'] == 'line':
                    LINES.arm(fault['line'], FAULTS[fault['kind']](), ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py') if c['full'] and c['full']['model'] == 'fdsm' else ())
                else:
                    calls.fail = dict(fault)
            try:
                learner.fit_data(data)
            except BaseException as e:
                LINES.disarm()
                error = e
            LINES.disarm()
            calls.fail = None
            ctx.state(plan['kind'], c['inner'], phase, want.it - c['swap_iter'], bool(fault), None if want.weights is None else len(want.weights))
            if error is None:
                break
            if not is_injected(error):
                if want_error is None:
                    want_error = cannot_switch(c, want, data)
                    if want_error is None:
                        raise error
                ctx.probe('degenerate')
                ctx.log('degenerate', type(error).__name__)
                return
            # an iteration which failed does not count
            ctx.fault(fault['where'] + '-' + fault['kind'])
            ctx.probe(fault['where'])
            ctx.probe('failed-' + phase)
            ctx.log('failed', step, phase, fault['where'])
            fault, failed_before = None, True
            ctx.check(learner.is_active_learning_phase == (ref.it <= c['swap_iter']), 'phase-after-failure', lambda: 'after a failure in phase {}'.format(phase))
            switching = want_error is None and want.order is not None and True in getattr(want, 'stable', ())
            then = [f for f in session['faults'] if f['at'] == step][0]['then']
            if want_error is not None or switching or then == 'clear' or (phase == 'full' and c['full']['model'] == 'fdsm'):
                ctx.probe('clear-after-failure')
                return
            if phase in ('refine', 'swap'):
                adopt(ctx, ref, want, learner, phase)
            ctx.probe('retry' if then == 'retry' else 'go-on')
            if then == 'go-on' and data.unlabeled_size > session['batch'] and not (phase == 'active' and ref.it == 0) and phase != 'full':
                before = np.random.get_state()
                label_free(session, labels, data, y)
                np.random.set_state(before)
        ctx.check(want_error is None, 'error-missed', lambda: 'the reference model fails: {!r}'.format(want_error))
        metrics = dict(metric_logger.get_metrics())
        after = np.random.get_state()
        expected_partial = judge(plan, c, ctx, learner, calls, ref, want, phase, data, metrics, X, partial, user, custom, failed_before, expected_partial)
        ref = want
        np.random.set_state(after)
        if ref.weights is not None and not len(ref.weights):
            ctx.probe('pruned-away')
            return
        metric_logger.flush()
        label_next(session, learner, labels, data)
        if expected_partial is not None:
            for i in data.labeled.index.tolist():
                if i not in expected_partial:
                    expected_partial[i] = (y[i:i + 1] if partial is None else partial[i]).tolist()
        ctx.log('step', step, phase, data.labeled.index.tolist()[-1])


def cannot_switch(c, want, data):
    """ the factorized model of the library needs both classes in each subspace """
    if c['full'] and c['full']['model'] == 'ssm' and (want.full or (want.order is not None and True in want.stable)):
        try:
            if want.full:
                want.fit_fact(data)
            else:
                want.fork().switch(data)
        except ValueError as e:
            return e


def label_free(session, labels, data, y):
    i = sorted(data.unknown.index.tolist())[session['seed'] % data.unlabeled_size]
    data.move_to_labeled(labels.get_index([i]))


def adopt(ctx, ref, want, learner, phase):
    """ the failure happened before or after the new weights were in place """
    model = learner.linear_model
    if ref.it == want.it - 1 and phase == 'swap':
        ctx.check(model is None, 'phase-after-failure', 'a failed swap left the first phase')
        ref.counts = ref.counts | want.counts
        return
    W = model.weight_matrix
    got = W[:, :ref.weights.shape[1]]
    stages = [ref.weights] + list(want.stages or [])
    match = [s for s in stages if s.shape == got.shape and np.allclose(s, got, rtol=1e-7, atol=1e-10, equal_nan=True)]
    ctx.check(match, 'weights-after-failure', lambda: 'the linear model is neither the one before the failed iteration nor the one after it: {}'.format(got.tolist()))
    ref.weights = got.copy()
    ref.bias = W[:, -1].copy() if model.add_bias else np.zeros(len(W))
    ref.counts = ref.counts | want.counts


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-8, equal_nan=True)


def judge(plan, c, ctx, learner, calls, old, want, phase, data, metrics, X, partial, user, custom, failed_before, expected_partial):
    what = 'iteration {} (swap after {}), {}'.format(want.it, c['swap_iter'], phase)
    first = want.it <= c['swap_iter']
    ctx.check(learner.is_active_learning_phase == first and learner.is_factorization_phase != first and bool(learner.is_swap_iter) == (want.it == c['swap_iter'] + 1), 'phase', what)
    switched = False
    if want.order is not None and not old.full and phase != 'full':
        ctx.probe('compatible')
        if True in want.stable:
            must = want.stable == {True}
            switched = must or (custom and bool(calls.structure)) or (not custom and learner_uses(learner, want, data, X))
            if switched:
                want.switch(data)
                ctx.probe('full')
                if want.order != sorted(want.order):
                    ctx.probe('reordered')
                    if [want.order[i] for i in want.order] != list(range(len(want.order))):
                        ctx.probe('cyclic')
            want.counts = {x for x in want.counts if (x[1] >= c['full']['repeat']) == switched}
        else:
            ctx.probe('unstable')
    elif want.factorization is not None:
        ctx.probe('incompatible')
    if custom:
        got = (calls.fit, calls.opt['swap'], calls.opt['refine'], calls.fact, len(calls.structure))
        own = c['refine'] == 'own'
        expected = {'active': (1, 0, 0, 0, 0), 'swap': (0, c['retries'], 0, 0, 0), 'refine': (0, 0 if own else 1, 1 if own else 0, 0, 0), 'full': (0, 0, 0, 1, 0)}[phase]
        if switched:
            expected = expected[:3] + (1, 1)
        ctx.check(got == expected, 'calls', lambda: '{}: calls to the first model, swap optimizer, refining optimizer, factorized model, and new structures: {} instead of {}'.format(what, got, expected))
    if switched:
        with Judging('structure'):
            if custom:
                ctx.check([list(map(int, s)) for s in calls.structure[0]] == [list(map(int, s)) for s in want.partition], 'subspace-order', lambda: '{}: {} handed over, user {}: expected {}'.format(what, calls.structure[0], user, want.partition))
            expected_partial = {i: row for i, row in zip(data.labeled.index.tolist(), want.labels[:, want.order].tolist())}
    if want.factorization is not None:
        logged = metrics.get('factorization')
        ctx.check(logged is not None and [list(map(int, s)) for s in logged] == [list(map(int, s)) for s in (want.partition if switched else want.factorization)], 'factorization', lambda: '{}: logged {} instead of {}'.format(what, logged, want.factorization))
    else:
        ctx.check('factorization' not in metrics, 'factorization-schedule', lambda: '{}: a factorization was computed'.format(what))
    if want.full and expected_partial is not None:
        got = dict(zip(data.labeled.index.tolist(), data.labeled_set.partial.tolist()))
        ctx.check(got == expected_partial, 'partial-labels', lambda: '{}: {} instead of {}'.format(what, got, expected_partial))
    if phase == 'full':
        ctx.probe('full-refit')
        if c['full']['model'] == 'fdsm':
            ctx.probe('dual-space')
            if data.inferred_size:
                ctx.probe('dual-space-inferred')
            ctx.check(sorted(data.inferred.index.tolist()) == sorted(want.data.inferred.index.tolist()), 'inferred', lambda: '{}: {} instead of {}'.format(what, sorted(data.inferred.index.tolist()), sorted(want.data.inferred.index.tolist())))
    with Judging('predictions'):
        model = learner.linear_model
        ctx.check((model is None) == first, 'linear-model', what)
        if model is not None and phase != 'full':
            ctx.check(close(model.weights, want.weights), 'weights', lambda: '{}: {} instead of {}'.format(what, np.asarray(model.weights).tolist(), want.weights.tolist()))
        if phase == 'swap':
            ctx.probe('swapped')
        if phase == 'refine':
            ctx.probe('refined')
            if c['adapter']:
                ctx.probe('adapted')
            if old.weights is not None and len(want.weights) < len(old.weights):
                ctx.probe('pruned')
        rng = np.random.get_state()
        y, proba, rank = want.predict()
        np.random.set_state(rng)
        got_y = learner.predict(X.copy())
        if y is None:
            sure = np.abs(proba - .5) > 1e-9
            ctx.check(np.isnan(proba).any() or (np.asarray(got_y)[sure] == (proba > .5)[sure]).all(), 'predict', lambda: '{}: {} with probabilities {}'.format(what, np.asarray(got_y).tolist(), proba.tolist()))
        else:
            ctx.check(close(got_y, y), 'predict', lambda: '{}: {} instead of {}'.format(what, np.asarray(got_y).tolist(), np.asarray(y).tolist()))
        if proba is not None:
            np.random.set_state(rng)
            got = learner.predict_proba(X.copy())
            ctx.check(close(got, proba), 'predict_proba', lambda: '{}: {} instead of {}'.format(what, np.asarray(got).tolist(), np.asarray(proba).tolist()))
        np.random.set_state(rng)
        got = learner.rank(X.copy())
        ctx.check(close(got, rank), 'rank', lambda: '{}: {} instead of {}'.format(what, np.asarray(got).tolist(), np.asarray(rank).tolist()))
    return expected_partial


def learner_uses(learner, want, data, X):
    """ after a failure it may be unknown how often the factorization was seen: did the learner switch? """
    linear = np.asarray(learner.linear_model.predict(X))
    return not np.array_equal(np.asarray(learner.rank(X)), np.abs(learner.linear_model.predict_proba(X) - .5)) or not np.array_equal(linear, learner.predict(X))
