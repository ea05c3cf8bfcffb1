""" C22: a saved and restored exploration continues exactly as the original """
import copy
import json
import os
import pickle
import random

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..world import Judging, LEARNERS

ID = 'C22'
RUNS = {'quick': 3200, 'thorough': 40000}
BUDGET = 12_000_000
MIN_EVENTS = 4
LEVEL = 'exploration'
RULE = ('A session is first run without interruption. Then it runs again while its state is saved at seeded moments; crashes (asynchronous interrupts anywhere, after which everything in memory is discarded) send it back to its last '
        'checkpoint, in the same process or in a fresh one which only receives the saved bytes; other restores happen while the original goes on. All continuations must repeat the uninterrupted session.')
STATE_MEASURE = 'learner, how the state was saved and restored, moment, number of labeled and inferred points'
REAL = ['ExplorationManager', 'PartitionedDataset', 'initial samplers (deep copies)', 'every active learner of the library except TwoStepsLearner (pickle: except version spaces and subspace learners, which hold closures)']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user', 'storage of the saved bytes (perfect)']
ASSUMPTIONS = ['the state of the global random generators is saved with the exploration', 'saved state is not torn: storage is the caller\'s']
NEEDS_EXT = True
LISTS = ['saves', 'crashes']
NUMBERS = {'session.problem.data.n': 4}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range'}
MUST_REACH = ['pickle', 'deepcopy', 'crash', 'restored', 'fresh-process', 'saved-mid-iteration', 'saved-initial', 'saved-exploring', 'both-continue', 'saved-inferred', 'parts', 'manager', 'restored-twice', 'original-goes-on', 'factorized']
PICKLABLE = ['dsm', 'dsm_neg', 'dsm_pos', 'fdsm', 'fdsm_pos', 'flm', 'qbd', 'qbd_tree', 'simple', 'swap', 'swap_fista', 'stub', 'stub_batch', 'dsm_stub', 'fdsm_stub', 'random', 'uncertainty', 'dsm', 'dsm_stub', 'fdsm_stub', 'ratio']
COPYABLE = sorted(LEARNERS) + ['dsm', 'dsm_stub', 'fdsm_stub', 'kvs', 'lvs']


def generate(rng, tier):
    how = rng.choice(['pickle', 'pickle', 'deepcopy'])
    names = PICKLABLE if how == 'pickle' else COPYABLE
    s = session.gen_session(rng, names, n=(5, 18), d=(1, 3))
    name = s['learner']['name']
    if name in ('ratio', 'swap_full', 'svs', 'svs_mix') and rng.random() < .7:
        s = session.gen_session(rng, ['dsm', 'dsm_stub', 'simple', 'fdsm_stub'], n=(5, 18), d=(1, 3))
        name = s['learner']['name']
    if name.startswith('swap') and how == 'pickle':
        s['learner']['adapt'] = False  # adapters of the number of iterations are closures
    what = rng.choice(['manager', 'parts'])
    if how == 'pickle' and what == 'manager' and s['sampler'] is not None:
        s['sampler'] = dict(s['sampler'], plain=True)
    if 'dsm' in name and rng.random() < .4:
        s['learner']['tol'] = rng.choice([.01, .1])
    s['max_iter'] = min(s['max_iter'], 12 if not LEARNERS[name] else 8)
    steps = 3 * s['max_iter']
    saves = [{'at': rng.randint(0, steps), 'keep': rng.random() < .5} for _ in range(rng.choice([1, 2, 3, 6]))]
    crashes = [{'after': rng.randint(0, steps), 'line': int(10 ** rng.uniform(0, 3.3)), 'kind': rng.choice(['error', 'interrupt', 'memory']), 'where': rng.choice(['here', 'here', 'fresh'])} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return {'how': how, 'what': what, 'session': s, 'saves': saves, 'crashes': crashes}


class PlainSampler:
    """ an initial sampler which can be pickled: one positive and one negative point, or random ones """

    def __init__(self, spec, problem):
        r = np.random.RandomState(spec.get('seed', 0))
        pos, neg = np.where(problem.y == 1)[0], np.where(problem.partial.max(axis=1) == 0)[0]
        self.pair = [problem.ids[r.choice(pos)], problem.ids[r.choice(neg)]]
        self.size = spec['size'] if spec['kind'] == 'random' else None

    def __call__(self, data):
        return self.pair if self.size is None else data.unlabeled.sample(self.size).index


def rng_state():
    return np.random.get_state(), random.getstate()


def set_rng(state):
    np.random.set_state(state[0])
    random.setstate(state[1])


class Live:
    """ the exploration as it is in memory; 'step' is 0 before a batch is chosen, 1 before it is labeled """

    def __init__(self, plan, b):
        from aideme.explore import ExplorationManager, PartitionedDataset
        s = plan['session']
        self.plan, self.b = plan, b
        sampler = PlainSampler(s['sampler'], b.problem) if s['sampler'] is not None and s['sampler'].get('plain') else b.sampler
        data = PartitionedDataset(b.problem.X, b.problem.ids)
        self.manager = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=sampler)
        self.manager.clear()
        self.position, self.idxs = 0, None

    def state(self):
        m = self.manager
        return m if self.plan['what'] == 'manager' else (m.data, m.active_learner)

    def adopt(self, state, position, idxs):
        from aideme.explore import ExplorationManager
        if self.plan['what'] == 'manager':
            self.manager = state
        else:
            data, learner = state
            self.manager = ExplorationManager(data, learner, subsampling=self.b.spec['subsampling'], initial_sampler=self.manager.initial_sampler)
        self.position, self.idxs = position, idxs

    def twin(self):
        other = object.__new__(Live)
        other.plan, other.b, other.manager = self.plan, self.b, self.manager
        return other

    def advance(self):
        """ half of an iteration -> what could be observed """
        m, b = self.manager, self.b
        self.position += 1
        if self.idxs is None:
            if m.converged() or self.position > 2 * b.spec['max_iter']:
                return None
            batch = m.get_next_to_label()
            self.idxs = batch.index.tolist()
            return ['next', self.idxs, batch.data.tolist()]
        m.update(b.labels.get_index(self.idxs))
        self.idxs = None
        data = m.data
        seen = ['update', data.labeled.index.tolist(), sorted(data.inferred.index.tolist()), sorted(data.unknown.index.tolist()), data.labeled_set.labels.tolist()]
        if m.is_exploration_phase and len(set(data.labeled_set.labels.tolist())) == 2:
            before = rng_state()
            prediction = m.compute_user_labels_prediction()
            seen.append(sorted(zip(prediction.index.tolist(), prediction.labels.tolist())))
            set_rng(before)
        return json.loads(json.dumps(seen))


def save(plan, live):
    return (pickle.dumps(live.state()) if plan['how'] == 'pickle' else copy.deepcopy(live.state())), live.position, live.idxs, rng_state()


def load(plan, live, saved):
    state, position, idxs, rng = saved
    live.adopt(pickle.loads(state) if plan['how'] == 'pickle' else copy.deepcopy(state), position, copy.copy(idxs))
    set_rng(rng)


class FreshProcess:
    """ forked before the session exists: all it will know of the session are the saved bytes """

    def __init__(self, plan, ctx):
        self.down, self.up = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(self.down[1])
                os.close(self.up[0])
                with os.fdopen(self.down[0], 'rb') as f:
                    blob = f.read()
                out = self.resume(plan, ctx, pickle.loads(blob)) if blob else None
                with os.fdopen(self.up[1], 'wb') as f:
                    f.write(json.dumps(out).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(self.down[0])
        os.close(self.up[1])

    @staticmethod
    def resume(plan, ctx, saved):
        try:
            live = Live(plan, session.build(plan['session'], ctx))
            load(plan, live, saved)
            trace = []
            while True:
                seen = live.advance()
                if seen is None:
                    return {'trace': trace}
                trace.append(seen)
        except BaseException as e:
            return {'error': '{}: {}'.format(type(e).__name__, e)[:500]}

    def run(self, saved):
        with os.fdopen(self.down[1], 'wb') as f:
            if saved is not None:
                f.write(pickle.dumps(saved))
        with os.fdopen(self.up[0], 'rb') as f:
            data = f.read()
        os.waitpid(self.pid, 0)
        return json.loads(data) if data else {'error': 'the fresh process died'}


def execute(plan, ctx):
    from aideme.utils import metric_logger
    s = plan['session']
    fresh = FreshProcess(plan, ctx) if plan['how'] == 'pickle' and any(c['where'] == 'fresh' for c in plan['crashes']) else None
    try:
        ctx.probe(plan['how'])
        ctx.probe(plan['what'])
        name = s['learner']['name']
        if name.startswith('fdsm'):
            ctx.probe('factorized')
        start = rng_state()
        trace, inferred, initial = [], [], []
        live = Live(plan, session.build(s, ctx))
        while True:
            initial.append(live.manager.is_initial_sampling_phase)
            seen = live.advance()
            if seen is None:
                break
            trace.append(seen)
            inferred.append(bool(live.manager.data.inferred_size))
        ctx.log('alone', len(trace), trace[-1][:2] if trace else None)

        set_rng(start)
        metric_logger.flush()
        live = Live(plan, session.build(s, ctx))
        follow(plan, ctx, live, trace, inferred, initial, fresh, name)
    finally:
        if fresh is not None and not fresh_used(fresh):
            fresh.run(None)


def fresh_used(fresh):
    return getattr(fresh, 'used', False)


def same(ctx, trace, k, seen, what):
    want = trace[k] if k < len(trace) else None
    ctx.check(seen == want, 'continuation-differs', lambda: '{}: step {}: expected {} got {}'.format(what, k, want, seen)[:900])


def follow(plan, ctx, live, trace, inferred, initial, fresh, name):
    saves = sorted(plan['saves'], key=lambda x: x['at'])
    crashes = sorted(plan['crashes'], key=lambda x: x['after'])
    last, restores, steps, others = None, 0, 0, []
    what = 'original'
    with Judging('state'):
        while True:
            k = live.position
            due = [x for x in saves if x['at'] == steps]
            if last is None or due:
                last = save(plan, live)
                ctx.log('save', k, live.idxs is not None)
                ctx.probe('saved-initial' if initial[min(k, len(initial) - 1)] else 'saved-exploring')
                if live.idxs is not None:
                    ctx.probe('saved-mid-iteration')
                if k and inferred and inferred[min(k, len(inferred)) - 1]:
                    ctx.probe('saved-inferred')
                ctx.state(name, plan['how'], plan['what'], live.idxs is not None, k)
                if due and due[0]['keep']:  # a restored copy goes on by itself, next to the original
                    mine = rng_state()
                    other = live.twin()
                    load(plan, other, last)
                    others.append([other, rng_state()])
                    set_rng(mine)
                    ctx.probe('both-continue')
            for o in others[:3]:
                mine = rng_state()
                set_rng(o[1])
                j = o[0].position
                if j <= len(trace):
                    same(ctx, trace, j, o[0].advance(), 'restored copy next to the original')
                o[1] = rng_state()
                set_rng(mine)
            crash = next((c for c in crashes if c['after'] <= steps), None)
            if crash is not None:
                crashes.remove(crash)
                LINES.arm(crash['line'], FAULTS[crash['kind']]())
            steps += 1
            try:
                seen = live.advance()
                LINES.disarm()
            except BaseException as e:
                LINES.disarm()
                if not is_injected(e):
                    raise
                ctx.fault('crash')
                ctx.probe('crash')
                ctx.log('crash', k, last[1])
                restores += 1
                ctx.probe('restored')
                if restores > 1:
                    ctx.probe('restored-twice')
                if crash['where'] == 'fresh' and fresh is not None and not fresh_used(fresh):
                    fresh.used = True
                    out = fresh.run(last)
                    ctx.probe('fresh-process')
                    ctx.check('error' not in out, 'cannot-continue', lambda: 'in a fresh process: {}'.format(out['error']))
                    for j, got in enumerate(out['trace'] + [None]):
                        same(ctx, trace, last[1] + j, got, 'in a fresh process')
                    ctx.log('fresh', last[1], len(out['trace']))
                old = live
                live = old.twin()
                load(plan, live, last)
                what = 'restored after a crash'
                continue
            if others:
                ctx.probe('original-goes-on')
            same(ctx, trace, k, seen, what)
            ctx.log('step', k, seen[:2] if seen else None)
            if seen is None:
                break
