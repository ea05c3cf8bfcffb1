""" Sessions of the dual space model over users whose interest has a known shape (see convexity.Part), driven through the manager. """
import random

import numpy as np

from . import convexity, world
from .convexity import Part
from .kernel import FAULTS, LINES, is_injected
from .session import Ledger
from .world import Judging, Seams

MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')
CONVEX = ['positive', 'positive', 'persist', 'persist', 'negative']
INNER = ['stub', 'stub', 'stub_batch', 'simple', 'random', 'kvs']


def generate(rng, concepts, faults=True, noise=False, real=False):
    real = rng.choice([None, 'uniform', 'normal', 'offset', 'mixed', 'rounded']) if real else None
    fact = rng.random() < .5
    parts = []
    for _ in range(rng.choice([1, 2, 2, 3]) if fact else 1):
        mode = rng.choice(CONVEX + (['categorical', 'multiset'] if fact else []))
        d = rng.choice(([1, 2, 2, 3] if not fact else [1, 1, 2]) if not real else [1, 2, 3, 4, 5] if not fact else [1, 2, 3]) if mode in CONVEX else rng.choice([2, 3, 5])
        parts.append({'mode': mode, 'd': d, 'concept': rng.choice(concepts), 'seed': rng.getrandbits(31)})
    inner = {'name': rng.choice(INNER), 'coarse': rng.choice([.01, 1, 4, 50]), 'batch': rng.choice([1, 2, 3, 5]), 'seed': 0}
    w = {'parts': parts, 'factorized': fact, 'grid': rng.choice([3, 4, 5, 7]), 'scale': rng.choice([1., .125]), 'offset': rng.choice([0, 0, -5]), 'n': rng.randint(8, 60),
         'rows': rng.getrandbits(31), 'index': world.gen_index(rng), 'inner': inner, 'unk': rng.choice([1., .5, .5, .2]), 'subsampling': rng.choice([None, None, 1, 3, 10, 100]),
         'sampler': rng.choice([{'kind': 'stratified', 'pos': 1, 'neg': 1}, {'kind': 'stratified', 'pos': 2, 'neg': 2}, {'kind': 'random', 'size': rng.choice([1, 2, 5])}, {'kind': 'fixed', 'seed': 1}]),
         'steps': rng.choice([10, 25, 60]), 'shared_mode': rng.random() < .3 and fact, 'faults': []}
    if inner['name'] in ('stub', 'stub_batch') and rng.random() < .15:
        w['sampler'] = None
    if inner['name'] == 'kvs':
        w['steps'], w['n'] = 8, min(w['n'], 20)
    if rng.random() < .3:
        w['scatter'] = rng.choice([20, 200])
    if real:
        w['real'] = real
    if noise:
        w['noise'] = rng.choice([0, 0, .1, .3])
    if faults and rng.random() < .4:
        for _ in range(rng.randint(1, 3)):
            w['faults'].append({'step': rng.randint(1, 14), 'where': rng.choice(['fit', 'fit', 'next', 'line-next', 'line-update']), 'kind': rng.choice(['error', 'interrupt', 'memory']), 'line': rng.choice([3, 10, 30, 80, 200, int(10 ** rng.uniform(1, 3.5))])})
    if faults and rng.random() < .12:  # an interrupt of the update which ends the initial sampling phase
        w['sampler'] = {'kind': 'random', 'size': rng.choice([1, 1, 2])}
        w['faults'] = [{'step': 0, 'where': 'line-first', 'kind': 'interrupt', 'line': int(10 ** rng.uniform(1.3, 3))}]
    return w


class DsmProblem:
    """ like world.Problem """

    def __init__(self, w, ctx=None):
        self.w = w
        for attempt in range(50):
            parts = [Part(dict(p, seed=p['seed'] + attempt), w) for p in w['parts']]
            r = np.random.RandomState((w['rows'] + attempt) & 0x7fffffff)
            picks = np.stack([r.randint(len(p.points), size=w['n']) for p in parts], axis=1)
            if r.rand() < .7:
                picks = np.unique(picks, axis=0)
                picks = picks[r.permutation(len(picks))]
            partial = np.stack([p.truth[picks[:, k]] for k, p in enumerate(parts)], axis=1)
            y = partial.min(axis=1)
            if 2 < len(y) and 0 < y.sum() < len(y):
                break
        else:  # force both classes, keeping every concept convex: the first point alone is positive
            picks = np.stack([np.arange(4) % len(p.points) for p in parts], axis=1)
            for k, p in enumerate(parts):
                keep = (p.points == p.points[0]).all(axis=1)
                p.truth = (~keep if p.mode == 'negative' else keep).astype(float)
                if p.mode == 'multiset':
                    p.truth = np.array([float(set(np.where(x)[0]) <= set(np.where(p.points[0])[0])) for x in p.points])
            partial = np.stack([p.truth[picks[:, k]] for k, p in enumerate(parts)], axis=1)
            y = partial.min(axis=1)
        self.forced = not (0 < y.sum() < len(y))
        self.parts, self.picks, self.partial, self.y = parts, picks, partial, y
        self.X = np.hstack([p.real(p.points[picks[:, k]]) for k, p in enumerate(parts)]).astype(float)
        self.n, self.d = self.X.shape
        self.ids = world.make_index(w['index'], self.n)
        self.row_of = {idx: i for i, idx in enumerate(self.ids.tolist())}
        self.columns, at = [], 0
        for p in parts:
            self.columns.append(list(range(at, at + p.d)))
            at += p.d

    def labeled_set(self):
        from aideme.explore import LabeledSet
        return LabeledSet(self.y.copy(), self.partial.copy() if self.w['factorized'] else None, self.ids.copy())

    def rows(self, idxs):
        return np.array([self.row_of[i] for i in idxs], dtype=int)


class Reference:
    """ what the answers given so far imply """

    def __init__(self, problem):
        self.problem = problem
        self.refs = [convexity.Reference(p.mode) for p in problem.parts]

    def add(self, rows, partial):
        for k, ref in enumerate(self.refs):
            p = self.problem.parts[k]
            ref.add(p.points[self.problem.picks[rows, k]], partial[:, k])


def make_inner(spec, seams):
    import aideme.active_learning as al
    Stub = world.stub_class()
    name = spec['name']
    if name == 'stub':
        return Stub(spec['coarse'], 1, seams)
    if name == 'stub_batch':
        return Stub(spec['coarse'], spec['batch'], seams)
    if name == 'simple':
        return al.SimpleMargin(C=100.)
    if name == 'random':
        return al.RandomSampler(world.make_clf('nb'), spec['batch'])
    return al.KernelVersionSpace(rounding_cache=False, **world.VS)


def make_learner(w, problem, inner):
    import aideme.active_learning as al
    if not w['factorized']:
        return al.DualSpaceModel(inner, mode=w['parts'][0]['mode'], sample_unknown_proba=w['unk'])
    modes = [p['mode'] for p in w['parts']]
    mode = modes[0] if len(set(modes)) == 1 and w['shared_mode'] else modes
    return al.FactorizedDualSpaceModel(inner, partition=problem.columns, mode=mode, sample_unknown_proba=w['unk'])


class Session:
    """
    One exploration driven step by step. 'observer' is called after every step:
        observer('fit', X, y) at each training of the inner learner, ('asked', idxs), ('update', idxs), ('failed', step)
    """

    def __init__(self, w, ctx, observer=None):
        from aideme.explore import ExplorationManager, PartitionedDataset
        self.w, self.ctx = w, ctx
        self.problem = DsmProblem(w)
        self.seams = Seams(ctx)
        self.inner = make_inner(w['inner'], None)
        self.armed = None
        self.fits = []
        self.observer = observer or (lambda *a: None)
        for name in ('fit', 'rank'):
            self.seam(name)
        self.learner = make_learner(w, self.problem, self.inner)
        self.labels = self.problem.labeled_set()
        self.sampler = world.make_sampler(w['sampler'], self.problem, self.problem.labeled_set())
        self.data = PartitionedDataset(self.problem.X.copy(), self.problem.ids, copy=True)
        self.mgr = ExplorationManager(self.data, self.learner, subsampling=w['subsampling'], initial_sampler=self.sampler)
        self.mgr.clear()
        self.ledger = Ledger(ctx, self.problem)
        self.reference = Reference(self.problem) if not w.get('real') else None
        self.refit = False
        self.noise = random.Random(w['rows'])

    def seam(self, name):
        original = getattr(self.inner, name)

        def f(*a, **k):
            if self.armed is not None and self.armed['where'] == {'fit': 'fit', 'rank': 'next'}[name]:
                kind, self.armed = self.armed['kind'], None
                raise FAULTS[kind]()
            if name == 'fit':
                self.fits.append((np.array(a[0]), np.array(a[1])))
                if len(np.unique(a[1])) < 2 and self.w['inner']['name'] in ('simple', 'kvs'):
                    raise AssertionError('the inner learner needs both classes')
            return original(*a, **k)
        setattr(self.inner, name, f)

    def answer(self, idxs):
        """ -> the user's LabeledSet for these points, possibly noisy """
        ls = self.labels.get_index(idxs)
        if not self.w.get('noise'):
            return ls
        from aideme.explore import LabeledSet
        partial = np.array(ls.partial, dtype=float)
        flip = np.array([[self.noise.random() < self.w['noise'] for _ in row] for row in partial])
        if not self.mgr.is_exploration_phase:
            flip[:] = False
        if flip.any():
            self.ctx.probe('noise')
            self.ctx.fault('flipped-label', int(flip.sum()))
        partial = np.where(flip, 1 - partial, partial)
        return LabeledSet(partial.min(axis=1), partial if self.w['factorized'] else None, ls.index)

    def run(self):
        ctx, w = self.ctx, self.w
        faults = {}
        for f in w['faults']:
            faults.setdefault(f['step'], f)
        step = 0
        while not self.mgr.converged() and step < w['steps']:
            step += 1
            fault = faults.get(step)
            if 0 in faults and not self.mgr.is_exploration_phase:
                fault = faults[0]
            stage, idxs, user = 'next', None, None
            try:
                self.fits.clear()
                if self.refit:
                    self.learner.fit_data(self.data)
                    self.refit = False
                    self.observer('update', [])
                if fault is not None:
                    self.armed = fault
                    if fault['where'] == 'line-next':
                        LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
                self.fits.clear()
                batch = self.mgr.get_next_to_label()
                LINES.disarm()
                with Judging('batch'):
                    idxs = batch.index.tolist()
                    rows = self.problem.rows(idxs)
                    ctx.check(len(idxs) > 0, 'empty-batch', '')
                    ctx.check(bool((np.asarray(batch.data) == self.problem.X[rows]).all()), 'batch-data', 'rows of the batch do not match its indexes')
                self.observer('asked', idxs)
                self.fits.clear()
                user = self.answer(idxs)
                stage = 'update'
                if fault is not None and fault['where'] in ('line-update', 'line-first'):
                    LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
                self.mgr.update(user)
                LINES.disarm()
                self.record(idxs, user)
                self.observer('update', idxs)
            except BaseException as e:
                LINES.disarm()
                if not is_injected(e):
                    raise
                ctx.fault('{}@{}'.format(fault['kind'] if fault else type(e).__name__, fault['where'] if fault else 'late'))
                if stage == 'update':
                    if set(idxs) <= set(self.data.labeled.index.tolist()):
                        self.record(idxs, user)
                        self.refit = self.mgr.is_exploration_phase
                self.observer('failed', stage)
                if stage == 'update' and fault is not None and fault['where'].startswith('line') and self.refit and self.conflicting():
                    ctx.probe('interrupted-conflict')  # the retry cannot tell that relabeling was cut short
                    return
            ctx.log(step, stage, idxs, self.data.labeled_size, self.data.inferred_size, self.data.unknown_size, len(self.fits))
            ctx.state(tuple(p['mode'] for p in w['parts']), self.data.labeled_size, self.data.inferred_size, self.data.unknown_size)
        if not self.mgr.converged() or self.data.unlabeled_size:
            ctx.probe('partial-run')

    def conflicting(self):
        return self.reference is not None and any(c for ref in self.reference.refs for c, _ in (m.state() for m in ref.models))

    def record(self, idxs, user):
        partial = np.array(user.partial, dtype=float).reshape(len(idxs), -1)
        self.ledger.add(idxs, user.labels.tolist(), partial.tolist())
        if self.reference is not None:
            self.reference.add(self.problem.rows(idxs), partial if self.w['factorized'] else np.array(user.labels, dtype=float).reshape(-1, 1))

    def knowledge(self):
        """ -> (label which the polytope model gives to every row of the problem, whether the model is valid) """
        with Judging('knowledge'):
            pred = np.array(self.learner.polytope_model.predict(self.problem.X.copy()), dtype=float)
            self.ctx.check(pred.shape == (self.problem.n,) and bool(np.isin(pred, [0, .5, 1]).all()), 'prediction-values', lambda: str(pred))
        return pred, bool(self.learner.polytope_model.is_valid)
