""" C12: the caller's own data is never damaged """
import random

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging, LEARNERS, Seams

ID = 'C12'
RUNS = {'quick': 2000, 'thorough': 50000}
BUDGET = 5_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions of all learners over data in all memory layouts (C, Fortran, strided, read-only, integer, single precision), labels of all types and labels given as arrays or label sets, run to the end or '
        'failing at a seam or executed line; the bytes of everything the caller owns are compared before and after.')
STATE_MEASURE = 'learner, layout, copy flag, fault'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'LabeledSet', 'initial samplers', 'every active learner of the library except TwoStepsLearner']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['rows of data are compared as multisets when copying is disabled; a caller does not change its arrays during a session']
NEEDS_EXT = True
LISTS = ['faults']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.noise': None, 'layout': 'C', 'labels': 'set'}
LAYOUTS = ['C', 'F', 'strided', 'readonly', 'int', 'float32', 'columns', 'subclass']
MUST_REACH = LAYOUTS + ['copy', 'no-copy', 'permuted', 'set', 'array', 'set-readonly', 'failed', 'interrupted', 'dataset-only', 'prediction', 'estimated-partial-labels']
ALL = sorted(LEARNERS) + ['stub', 'stub_batch', 'dsm_stub', 'fdsm_stub', 'random', 'simple', 'dsm', 'swap']


def generate(rng, tier):
    s = session.gen_session(rng, ALL, n=(5, 22), parts=rng.choice([None, None, 2]))
    s['max_iter'] = min(s['max_iter'], 12)
    s['noise'] = rng.choice([None, None, .3]) if not LEARNERS[s['learner']['name']] else None
    faults = []
    if rng.random() < .5:
        faults = [{'how': rng.choice(['line', 'line', 'callback', 'fit', 'next']), 'at': rng.randint(1, 8), 'line': rng.choice([5, 30, 100, 300, 1000, 3000]), 'kind': rng.choice(['error', 'interrupt', 'memory'])}]
    layouts = [x for x in LAYOUTS if x not in ('int', 'float32') or not LEARNERS[s['learner']['name']]]  # kernel matrices need full precision
    return {'session': s, 'layout': rng.choice(layouts), 'copy': rng.random() < .6, 'labels': rng.choice(['set', 'array', 'set-readonly', 'list']), 'faults': faults,
            'generator': rng.random() < .7, 'repeat': rng.choice([1, 1, 2]), 'mode': rng.choice(['pool', 'pool', 'pool', 'dataset-only']), 'moves': rng.getrandbits(31)}


def lay(X, layout):
    """ -> the array handed to the library, and the memory it lives in """
    if layout == 'F':
        return np.asfortranarray(X), None
    if layout == 'strided':
        big = np.full((2 * len(X), X.shape[1]), np.pi)
        big[::2] = X
        return big[::2], big
    if layout == 'columns':
        big = np.full((len(X), X.shape[1] + 2), np.pi)
        big[:, 1:-1] = X
        return big[:, 1:-1], big
    if layout == 'readonly':
        X = X.copy()
        X.setflags(write=False)
        return X, None
    if layout == 'int':
        return np.round(X * 64).astype(int), None
    if layout == 'float32':
        return X.astype('float32'), None
    if layout == 'subclass':
        return X.copy().view(Rows), None
    return X.copy(), None


class Rows(np.ndarray):
    """ like np.memmap, a subclass of arrays: the library works on a view of its memory """


class Guard:
    def __init__(self, ctx):
        self.ctx, self.arrays, self.lists = ctx, [], []

    def array(self, name, a):
        self.arrays.append((name, a, world.arr_bytes(np.asarray(a))))
        return a

    def list(self, name, a):
        self.lists.append((name, a, list(a)))
        return a

    def verify(self, when):
        for name, a, before in self.arrays:
            self.ctx.check(world.arr_bytes(np.asarray(a)) == before, 'caller-data-changed', lambda: '{} changed {}'.format(name, when))
        for name, a, before in self.lists:
            self.ctx.check(list(a) == before, 'caller-list-changed', lambda: '{} changed {}: {} became {}'.format(name, when, before, a))


def execute(plan, ctx):
    from aideme.explore import LabeledSet, PartitionedDataset
    s = plan['session']
    seams = Seams(ctx)
    b = session.build(s, ctx, seams)
    p = b.problem
    g = Guard(ctx)
    X, base = lay(p.X, plan['layout'])
    rows = sorted(map(tuple, X.tolist()))
    copy = plan['copy'] or plan['layout'] == 'readonly'
    ctx.probe(plan['layout'])
    ctx.probe('copy' if copy else 'no-copy')
    if copy:
        g.array('data', X)
        if base is not None:
            g.array('memory around the data', base)
    elif base is not None:
        outside = base[1::2] if plan['layout'] == 'strided' else base[:, [0, -1]]

    # labels
    y, partial, ids = g.array('labels', p.y.copy()), g.array('partial labels', p.partial.copy()), g.array('index', p.ids.copy())
    kind = plan['labels']
    if s['problem']['index']['style'] != 'range' or p.partial.shape[1] > 1:
        kind = 'set-readonly' if kind == 'set-readonly' else 'set'
    if kind == 'set-readonly':
        for a in (y, partial, ids):
            a.setflags(write=False)
    ctx.probe(kind)
    if kind in ('array', 'list'):
        labels = y if kind == 'array' else g.list('labels', y.tolist())
    else:
        labels = LabeledSet(y, partial if p.partial.shape[1] > 1 else None, None if s['problem']['index']['style'] == 'range' else ids)
        for name in ('labels', 'partial', 'index'):
            g.array('LabeledSet.' + name, getattr(labels, name))

    def intact(when):
        g.verify(when)
        if kind in ('set', 'set-readonly'):
            ctx.check(labels.labels.tolist() == p.y.tolist() and labels.partial.tolist() == (p.partial if p.partial.shape[1] > 1 else p.y.reshape(-1, 1)).tolist()
                      and labels.index.tolist() == (p.ids.tolist()), 'label-set-changed', when)
        if not copy:
            now = X.tolist()
            ctx.check(sorted(map(tuple, now)) == rows, 'rows-damaged', when)
            if now != lay(p.X, plan['layout'])[0].tolist():
                ctx.probe('permuted')
            if base is not None:
                ctx.check((outside == np.pi).all(), 'memory-around-data-changed', when)

    if plan['mode'] == 'dataset-only':
        ctx.probe('dataset-only')
        return dataset_only(plan, ctx, g, X, ids, p, copy, intact)

    callbacks = g.list('callbacks', [session.watch, seams.func(lambda data, learner: None, 'callback')])
    criteria = g.list('criteria', [session.max_iter(s['max_iter'])])
    expl = session.exploration(b, s, callbacks, criteria)
    seeds = g.list('seeds', [s['np_seed'], 5][:plan['repeat']])
    for name in ('fit_data', 'next_points_to_label'):
        seams.wrap(b.learner, name)
    fault = plan['faults'][0] if plan['faults'] else None
    if fault:
        if fault['how'] == 'line':
            LINES.arm(fault['line'] * fault['at'], FAULTS['interrupt']())
        else:
            seams.plan = {{'callback': 'callback', 'fit': 'fit_data', 'next': 'next_points_to_label'}[fault['how']]: {fault['at']: fault['kind']}}
    try:
        runs = expl.run(X, labels, b.learner, repeat=plan['repeat'], seeds=seeds, copy=copy, return_generator=plan['generator'])
        for run in runs:
            k = 0
            for m in run:
                k += 1
                if plan['generator']:
                    intact('after iteration {}'.format(k))
                    ctx.log('iter', k, m['labeled_indexes'])
        outcome = 'finished'
    except BaseException as e:
        LINES.disarm()
        if not is_injected(e):
            raise
        outcome = 'failed'
        ctx.probe('failed')
        if fault['how'] == 'line':
            ctx.probe('interrupted')
            ctx.fault('interrupt@line')
            ctx.log('interrupted', LINES.fired_at)
    LINES.disarm()
    intact('when the session ' + outcome)
    ctx.log('end', outcome)
    ctx.state(s['learner']['name'], plan['layout'], copy, kind, outcome, fault and fault['how'])


def dataset_only(plan, ctx, g, X, ids, p, copy, intact):
    """ a manager session by the caller: everything passed to the dataset stays the caller's """
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
    r = random.Random(plan['moves'])
    own_index = ids if copy or ids.flags.writeable else ids.copy()
    if not copy:  # the index is re-ordered together with the rows
        own_index = ids.copy()
    data = PartitionedDataset(X, own_index, copy=copy)
    b = session.build(plan['session'], ctx)
    stub = world.make_learner({'name': 'stub', 'seed': 1}, p.d)
    mgr = ExplorationManager(data, stub, initial_sampler=None, callback=g.list('callbacks', [session.watch]), convergence_criteria=g.list('criteria', [session.max_iter(30)]))
    mgr.clear()
    answers = []
    for k in range(8):
        left = data.unlabeled.index.tolist()
        if not left:
            break
        idx = r.sample(left, r.randint(1, min(3, len(left))))
        arrays = [g.array('answer labels', np.array([p.y[p.row_of[i]] for i in idx])), g.array('answer index', np.array(idx)), g.array('answer partial', p.partial[p.rows(idx)].copy())]
        answer = LabeledSet(arrays[0], arrays[2] if p.partial.shape[1] > 1 else None, arrays[1])
        answers.append((answer, answer.labels.tolist(), answer.partial.tolist(), answer.index.tolist()))
        mgr.update(answer)
        if r.random() < .4:  # what a SwapLearner does with the partial labels it estimates
            data.set_partial_labels(np.full((data.labeled_size, p.partial.shape[1]), .25))
            ctx.probe('estimated-partial-labels')
        rest = data.unknown.index.tolist()
        moved = g.list('moved', r.sample(rest, min(len(rest), r.randint(0, 3))))
        data.move_to_inferred(moved)
        if r.random() < .5:
            data.move_to_unknown(g.array('moved array', np.array(moved)))
        if r.random() < .3:
            with Judging('prediction'):
                res = mgr.compute_user_labels_prediction()
                ctx.check(len(res) == p.n, 'prediction-size', '')
                frozen = (res.labels.tolist(), res.index.tolist())
            ctx.probe('prediction')
            data.move_to_labeled(LabeledSet([1.], np.ones((1, max(1, p.partial.shape[1]))), data.unlabeled.index[:1])) if data.unlabeled_size else None
            ctx.check((res.labels.tolist(), res.index.tolist()) == frozen, 'prediction-changed', '')
        intact('after update {}'.format(k))
        for a, *before in answers:
            ctx.check([a.labels.tolist(), a.partial.tolist(), a.index.tolist()] == before, 'answer-changed', lambda: '{} became {}'.format(before, [a.labels.tolist(), a.partial.tolist(), a.index.tolist()]))
        if not copy:  # data and index stay aligned
            ctx.check(all(tuple(X[row].tolist()) == tuple(lay(p.X, plan['layout'])[0][p.row_of[i]].tolist()) for row, i in enumerate(own_index.tolist())) or own_index is not data.index, 'index-misaligned', '')
        ctx.log('update', k, idx)
    ctx.state('dataset-only', plan['layout'], copy)
