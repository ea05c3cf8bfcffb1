""" C14: polytope knowledge is exactly what convexity implies, in any order """
import copy
import pickle
import random

import numpy as np

from .. import convexity, world
from ..kernel import FAULTS, LINES, is_injected
from ..convexity import Part
from ..world import Judging

ID = 'C14'
RUNS = {'quick': 4500, 'thorough': 80000}
BUDGET = 3_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Histories of labeled batches given to every polytope class and to factorized models, interleaved with predictions, pickling, deep copies, resets and interrupted updates which are retried, compared after '
        'every update with a model which enumerates supporting hyperplanes over integers; the same answers are also given to a second object in another order and batching.')
STATE_MEASURE = 'mode, dimension, numbers of positive and negative answers, whether they contradict each other'
REAL = ['Polytope, FlippedPolytope, PersistentPolytope, CategoricalPolytope, MultiSetPolytope', 'PolytopeModel, FactorizedPolytopeModel', 'convex hulls, cones and Qhull', 'pickle']
STUBS = ['the user']
ASSUMPTIONS = ['points lie on dyadic grids, or are scattered integers, in up to 4 dimensions, so that the reference is exact', 'while the answers do not span the space yet, knowing less than what they imply is accepted',
               'an interrupted update is retried with the same answers']
NEEDS_EXT = False
LISTS = ['ops']
NUMBERS = {'grid': 2, 'd': 1}
SIMPLE = {'scale': 1.0, 'offset': 0}
MUST_REACH = ['answered-twice', 'positive', 'negative', 'persist', 'categorical', 'multiset', 'factorized', 'pickled', 'deepcopied', 'interrupted', 'conflict', 'known-positive', 'known-negative', 'flipped-knowledge',
              'degenerate', 'cleared', 'reordered', 'd1', 'd2', 'd3', 'd4', 'scattered', 'subspace-lost', 'subclass']
MODES = ['positive', 'positive', 'negative', 'persist', 'persist', 'categorical', 'multiset']


def generate(rng, tier):
    fact = rng.random() < .35
    scatter = rng.choice([0, 0, 20, 200])
    parts = []
    for _ in range(rng.choice([1, 2, 2, 3]) if fact else 1):
        mode = rng.choice(MODES)
        d = rng.choice([1, 2, 2, 2, 3]) if mode in ('positive', 'negative', 'persist') else rng.choice([2, 3, 4, 6])
        if fact and d == 3 and mode in ('positive', 'negative', 'persist'):
            d = 2
        if scatter and not fact and mode in ('positive', 'negative', 'persist') and rng.random() < .2:
            d = 4
        parts.append({'mode': mode, 'd': d, 'concept': rng.choice(['convex', 'convex', 'coconvex', 'noisy', 'random']), 'seed': rng.getrandbits(31)})
    ops = []
    for _ in range(rng.randint(2, 14)):
        op = rng.choice(['update'] * 8 + ['pickle', 'deepcopy', 'predict', 'interrupt', 'interrupt', 'clear' if rng.random() < .3 else 'update'])
        ops.append([op, rng.choice([1, 1, 1, 2, 3, 5]), rng.getrandbits(31), rng.randint(1, 60)])
    return {'parts': parts, 'factorized': fact, 'grid': rng.choice([2, 3, 4, 5, 7]), 'scatter': scatter, 'scale': rng.choice([1., .125, .125, 8.]), 'offset': rng.choice([0, 0, -5, 100]), 'ops': ops,
            'kind': rng.choice(['class', 'model', 'model']), 'flip': rng.choice([0, 0, 0, .1]), 'shuffle': rng.getrandbits(31), 'extra_cols': rng.random() < .3 and fact}


def new_object(plan, parts, tol=None):
    from aideme.active_learning.dsm import model, polytope
    kw = {} if tol is None else {'tol': tol}
    if plan['factorized']:
        cols, at = [], 1 if plan['extra_cols'] else 0
        for p in parts:
            cols.append(list(range(at, at + p.d)))
            at += p.d
        modes = [p.mode for p in parts]
        return model.FactorizedPolytopeModel(cols, modes[0] if len(set(modes)) == 1 and plan['kind'] == 'model' else modes)
    if plan['kind'] == 'model':
        return model.PolytopeModel(parts[0].mode)
    return {'positive': polytope.Polytope, 'negative': polytope.FlippedPolytope, 'persist': polytope.PersistentPolytope, 'categorical': polytope.CategoricalPolytope,
            'multiset': polytope.MultiSetPolytope}[parts[0].mode]()


class Subject:
    """ one object under test with the answers it was given """

    def __init__(self, plan, parts, ctx):
        self.plan, self.parts, self.ctx = plan, parts, ctx
        self.obj = new_object(plan, parts)
        self.refs = [convexity.Reference(p.mode) for p in parts]
        self.valid = [True] * len(parts)

    def rows(self, picks):
        """ picks: (n, number of parts) point numbers -> data matrix and labels """
        picks, flip = picks
        X = [p.real(p.points[picks[:, k]]) for k, p in enumerate(self.parts)]
        if self.plan['extra_cols']:
            X = [np.full((len(picks), 1), 7.)] + X + [np.full((len(picks), 2), -7.)]
        y = np.stack([np.abs(p.truth[picks[:, k]] - flip[:, k]) for k, p in enumerate(self.parts)], axis=1)
        return np.hstack(X).astype(float), y if self.plan['factorized'] else y[:, 0]

    @property
    def alive(self):
        return any(self.valid)

    def update(self, picks, interrupt=0):
        ctx = self.ctx
        X, y = self.rows(picks)
        before = (X.copy(), y.copy())
        was = list(self.valid)
        if interrupt:
            LINES.arm(interrupt, FAULTS['interrupt']())
            try:
                self.obj.update(X, y)
            except BaseException as e:
                LINES.disarm()
                if not is_injected(e):
                    raise
                ctx.fault('interrupt@update')
                ctx.probe('interrupted')
                ctx.log('interrupted', LINES.fired_at)
                if not self.obj.is_valid:  # the contradiction was found already
                    self.learn(picks)
                    self.adopt(None, was)
                    return
                res = self.obj.update(X, y)
                if self.plan['factorized']:
                    res = None  # some of the subspaces may have found the contradiction the first time
                elif res and not self.obj.is_valid:
                    ctx.check(False, 'conflict-not-reported', 'update returned {} on an invalid model'.format(res))
                else:
                    res = None
            else:
                LINES.disarm()
                res = 'unknown'
        else:
            res = self.obj.update(X, y)
        ctx.check((X == before[0]).all() and (y == before[1]).all(), 'inputs-modified', 'update changed its inputs')
        self.learn(picks)
        self.adopt(None if isinstance(res, str) else res, was)

    def learn(self, picks):
        picks, flip = picks
        for k, (p, ref) in enumerate(zip(self.parts, self.refs)):
            if self.valid[k]:
                ref.add(p.points[picks[:, k]], np.abs(p.truth[picks[:, k]] - flip[:, k]))

    def part_valid(self, k):
        return bool(self.obj.polytope_models[k].is_valid if self.plan['factorized'] else self.obj.is_valid)

    def adopt(self, res, was):
        """ the validity which the code reports must be one the answers permit """
        ctx = self.ctx
        for k, ref in enumerate(self.refs):
            got = self.part_valid(k)
            if not was[k]:
                ctx.check(not got, 'validity', 'an invalid polytope became valid again')
                continue
            want = ref.validity()
            ctx.check(got in want, 'validity', lambda: '{}: is_valid is {} but the answers imply {}: {}'.format(ref.mode, got, want, self.describe(ref)))
            self.valid[k] = got
            if not got:
                ctx.probe('conflict')
        lost = any(a and not b for a, b in zip(was, self.valid))
        if res is not None:
            ctx.check(not (lost and res), 'conflict-not-reported', lambda: 'update returned {}'.format(res))
            if self.all_plain() and not lost:
                ctx.check(bool(res), 'false-conflict', lambda: 'update returned {} without any contradiction: {}'.format(res, [self.describe(r) for r in self.refs]))
        if any(self.valid) and not all(self.valid):
            ctx.probe('subspace-lost')
        if self.plan['factorized']:
            ctx.check(bool(self.obj.is_valid) == any(self.valid), 'validity', 'a factorized model is valid while one of its subspaces is')

    def all_plain(self):
        return all(r.mode != 'persist' for r in self.refs)

    def describe(self, ref):
        return [(type(m).__name__, {k: sorted(map(str, v)) if not isinstance(v, bool) else v for k, v in vars(m).items()}) for m in ref.models]

    def predictions(self):
        parts = self.parts
        n = max(len(p.test) for p in parts)
        T = [p.test[np.arange(n) % len(p.test)] if k == 0 else p.test[(np.arange(n) * (2 * k + 1) + k) % len(p.test)] for k, p in enumerate(parts)]
        X = [p.real(t) for p, t in zip(parts, T)]
        if self.plan['extra_cols']:
            X = [np.full((n, 1), 7.)] + X + [np.full((n, 2), -7.)]
        X = np.hstack(X).astype(float)
        before = X.copy()
        with Judging('prediction'):
            pred = np.array(self.obj.predict(X), dtype=float)
            partial = np.array(self.obj.predict_partial(X), dtype=float) if self.plan['factorized'] else pred.reshape(-1, 1)
            self.ctx.check(pred.shape == (n,) and partial.shape == (n, len(parts)), 'prediction-shape', lambda: '{} {}'.format(pred.shape, partial.shape))
            self.ctx.check((X == before).all(), 'inputs-modified', 'predict changed its input')
            self.ctx.check(bool(np.isin(partial, [0, .5, 1]).all() and np.isin(pred, [0, .5, 1]).all()), 'prediction-values', lambda: str(np.unique(partial)))
        return T, pred, partial

    def verify(self):
        ctx = self.ctx
        T, pred, partial = self.predictions()
        for k, (p, ref) in enumerate(zip(self.parts, self.refs)):
            col = partial[:, k]
            if (col == 1).any():
                ctx.probe('known-positive')
            if (col == 0).any():
                ctx.probe('known-negative')
            if p.mode == 'persist' and self.valid[k] and ref.models[0].state() == (True, True) and (col != .5).any():
                ctx.probe('flipped-knowledge')
            answer = ref.answers(T[k], self.valid[k])
            if answer is None:
                continue
            if any(np.isnan(o[0]).any() for o in answer.options):
                ctx.probe('degenerate')
            bad = answer.violations(col)
            ctx.check(len(bad) == 0, 'wrong-knowledge', lambda: '{} in {} dimensions: point {} predicted {}, but the answers allow {} (known) or {}; answers {}'.format(
                p.mode, p.d, T[k][bad[0]].tolist(), col[bad[0]], [float(o[0][bad[0]]) for o in answer.options], [float(o[1][bad[0]]) for o in answer.options], self.describe(ref)))
        if self.plan['factorized']:
            usable = [k for k in range(len(self.parts)) if self.valid[k]]
            want = partial[:, usable].min(axis=1) if usable else np.full(len(pred), .5)
            if len(usable) < len(self.parts):
                want = np.minimum(want, .5)
            ctx.check(bool((want == pred).all()), 'wrong-combination', lambda: 'subspaces say {} but the model says {}'.format(partial[want != pred][:3].tolist(), pred[want != pred][:3].tolist()))
        return pred


def execute(plan, ctx):
    parts = [Part(s, plan) for s in plan['parts']]
    if len(parts) > 1 or plan['factorized']:
        ctx.probe('factorized')
    for p in parts:
        ctx.probe(p.mode)
        if p.convex:
            ctx.probe('d{}'.format(p.d))
            if plan.get('scatter'):
                ctx.probe('scattered')
    s = Subject(plan, parts, ctx)
    if plan['kind'] == 'class' and not plan['factorized']:
        ctx.probe('subclass')
    history, others = [], []
    for op, size, seed, line in plan['ops']:
        r = np.random.RandomState(seed & 0x7fffffff)
        if op in ('update', 'interrupt'):
            if not s.alive:
                break
            picks = np.stack([r.randint(len(p.points), size=size) for p in parts], axis=1)
            picks = np.stack([picks, r.uniform(size=picks.shape) < plan['flip']])
            s.update(picks, line if op == 'interrupt' else 0)
            history.append(picks)
            if picks[1].any():
                ctx.probe('answered-twice')
        elif op == 'predict':
            s.predictions()
            continue
        elif op == 'clear':
            s.obj.clear()
            s.refs = [convexity.Reference(p.mode) for p in parts]
            s.valid, history = [True] * len(parts), []
            ctx.probe('cleared')
            ctx.check(bool(s.obj.is_valid), 'validity', 'invalid after clear')
        else:
            twin = pickle.loads(pickle.dumps(s.obj)) if op == 'pickle' else copy.deepcopy(s.obj)
            pair = (s.obj, twin) if seed % 2 else (twin, s.obj)  # the copy or the original goes on
            others.append((pair[0], s.predictions()[1]))
            s.obj = pair[1]
            ctx.probe('pickled' if op == 'pickle' else 'deepcopied')
        pred = s.verify()
        ctx.log(op, size, world.digest(pred), s.valid)
        ctx.state([p.mode for p in parts], [p.d for p in parts], sum(h.shape[1] for h in history), s.valid)
    for obj, pred in others:  # the original of a copy is not affected by what the copy learned, and conversely
        s2 = Subject(plan, parts, ctx)
        s2.obj = obj
        ctx.check(bool((s2.predictions()[1] == pred).all()), 'copy-shares-state', 'an object differs from before its copy (or original) was updated')
    if history and all(r.validity() == {True} for r in s.refs):
        exact = not any(op[0] == 'interrupt' for op in plan['ops'])  # a retried answer counts twice while the answers do not span the space
        # the same answers in another order, batching, without anything in between
        picks = np.concatenate(history, axis=1)
        rnd = random.Random(plan['shuffle'])
        order = list(range(picks.shape[1]))
        rnd.shuffle(order)
        other = Subject(plan, parts, ctx)
        while order:
            k = rnd.choice([1, 2, 5, 100])
            batch, order = order[:k], order[k:]
            other.update(picks[:, batch])
        ctx.probe('reordered')
        a, b = s.predictions(), other.predictions()
        other.verify()
        ctx.check(not exact or s.valid == other.valid and bool((a[2] == b[2]).all() and (a[1] == b[1]).all()), 'order-dependent', lambda: 'answers {} give {} or {}'.format(
            [s.describe(r) for r in s.refs], a[2][(a[2] != b[2]).any(axis=1)][:3].tolist(), b[2][(a[2] != b[2]).any(axis=1)][:3].tolist()))
