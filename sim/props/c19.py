""" C19: sessions consumed in turns do not influence one another """
import random

import numpy as np

from .. import session, world
from ..kernel import CLOCK, FAULTS, LINES, is_injected
from ..world import LEARNERS

ID = 'C19'
RUNS = {'quick': 700, 'thorough': 40000}
BUDGET = 8_000_000
MIN_EVENTS = 6
LEVEL = 'exploration'
RULE = ('Two to four explorations, run alone first, are then consumed step by step in a seeded interleaving, each with its own random state and clock; some share the labels, the data, the '
        'sampler and the exploration object; some are driven through the manager in half steps; some fail or are abandoned on the way. Every record must be the one of the lonely run.')
STATE_MEASURE = 'learners, kinds of driving and positions of all sessions after each step'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'metric logger', 'initial samplers', 'every active learner of the library except TwoStepsLearner']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['the global random generators are saved and restored around each step, as sessions are documented to share them', 'no threads: the library is used from one thread']
NEEDS_EXT = True
LISTS = ['schedule', 'faults']
NUMBERS = {}
SIMPLE = {}
MUST_REACH = ['pool', 'manager', 'shared-labels', 'shared-exploration', 'interleaved', 'throw', 'line', 'abandon', 'metric-criterion', 'late-start', 'timings', 'one-exploration-object', 'requested-early']
POOL = sorted(n for n in LEARNERS if n not in ('swap_full', 'ratio')) + ['stub', 'stub', 'stub_batch', 'dsm', 'dsm_stub', 'swap', 'swap', 'random', 'simple', 'kvs', 'fdsm_stub']


def generate(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    own = rng.random() < .2  # all use the same exploration object, each with its own data, labels and learner
    first = session.gen_session(rng, ['stub', 'stub_batch'] if own else POOL, n=(5, 16), parts=rng.choice([None, None, 2]))
    if own:
        first['sampler'] = None
    sessions = []
    for k in range(n):
        s = session.gen_session(rng, ['stub', 'stub_batch'] if own else POOL, n=(5, 16), parts=rng.choice([None, None, 2])) if k else first
        s['share'] = bool(k) and not own and rng.random() < .4
        s['early'] = rng.random() < .5
        if s['share']:
            names = ['stub', 'stub_batch', 'random', 'simple', 'dsm_stub', 'swap'] if first['sampler'] else ['stub', 'stub_batch']
            same = rng.random() < .5
            s = dict(first, share=True, learner=first['learner'] if same else world.gen_learner(rng, names), np_seed=rng.getrandbits(32))
        s['max_iter'] = min(s['max_iter'], 8)
        s['drive'] = rng.choice(['pool', 'pool', 'manager'])
        s['criterion'] = rng.choice(['iters', 'metric'])
        s['noise'] = rng.choice([None, None, .4]) if not LEARNERS[s['learner']['name']] else None
        if own:
            s.update(own=True, sampler=None, drive='pool', criterion='iters')
            s.update({f: first[f] for f in ('noise', 'max_iter', 'skip', 'subsampling')})
        s['clock_seed'], s['clock'] = rng.getrandbits(31), rng.choice(['smooth', 'jumpy'])
        sessions.append(s)
    burst = rng.random() < .3
    schedule = []
    while len(schedule) < 60:
        schedule += [rng.randrange(n)] * (rng.randint(1, 4) if burst else 1)
    faults = [{'session': rng.randrange(n), 'step': rng.randint(0, 6), 'how': rng.choice(['throw', 'line', 'line', 'abandon', 'close']), 'line': rng.choice([1, 5, 20, 60, 200, 500])}
              for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    return {'sessions': sessions, 'schedule': schedule, 'faults': faults}


class World:
    """ random state and clock of one session """

    def __init__(self, s):
        np.random.seed(s['np_seed'])
        random.seed(s['np_seed'])
        self.np, self.py = np.random.get_state(), random.getstate()
        self.clock = (random.Random(s['clock_seed']), s['clock'], 1000.0, 1000.0, 0)

    def __enter__(self):
        np.random.set_state(self.np)
        random.setstate(self.py)
        CLOCK.rng, CLOCK.mode, CLOCK.t, CLOCK.start, CLOCK.reads = self.clock

    def __exit__(self, *a):
        self.np, self.py = np.random.get_state(), random.getstate()
        self.clock = (CLOCK.rng, CLOCK.mode, CLOCK.t, CLOCK.start, CLOCK.reads)
        return False


def full(m):
    return ({k: world.freeze(v) for k, v in m.items()}, ())


class Session:
    """ 'step' advances by one iteration (pool) or half an iteration (manager) and returns an observation; None at the end """

    def __init__(self, s, ctx, shared=None):
        self.s, self.ctx = s, ctx
        self.world = World(s)
        self.b = session.build(s, ctx, problem=shared.b.problem if shared else None)
        if shared:
            self.b.labels, self.b.sampler = shared.b.labels, shared.b.sampler
        self.expl = self.make_exploration()
        self.records = []
        self.gen = None
        self.done = False

    def make_exploration(self):
        from aideme.utils.convergence import metric_reached_threshold
        s = self.s
        if s['criterion'] == 'metric':
            criteria = [metric_reached_threshold('w_count', min(s['max_iter'] + 2, self.b.problem.n)), session.max_iter(s['max_iter'] + 4)]
        else:
            criteria = session.max_iter(s['max_iter'])
        return session.exploration(self.b, s, [session.watch, lambda data, learner: {'w_count': data.labeled_size}], criteria)

    def start(self):
        if self.s['drive'] == 'pool':
            b, s = self.b, self.s
            self.gen = next(iter(self.expl.run(b.problem.X, b.labels, b.learner, seeds=s['np_seed'])))
        else:
            self.gen = self.drive()

    def drive(self):
        from aideme.explore import ExplorationManager, PartitionedDataset
        b, s = self.b, self.s
        data = PartitionedDataset(b.problem.X, b.problem.ids, copy=True)
        mgr = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=b.sampler, callback=[session.watch], callback_skip=s['skip'],
                                 convergence_criteria=session.max_iter(s['max_iter']))
        mgr.clear()
        while not mgr.converged():
            batch = mgr.get_next_to_label()
            yield {'step': 'next', 'index': batch.index.tolist(), 'rows': batch.data.tolist(), 'phase': mgr.phase.value}
            mgr.update(b.labels.get_index(batch.index.tolist()))
            yield dict(mgr.get_callback_metrics(), step='update', iters=mgr.iters)

    def step(self):
        with self.world:
            if self.gen is None:
                self.start()
            m = next(self.gen, None)
        if m is None:
            self.done = True
            return None
        self.records.append((m, full(m)))
        return self.records[-1][1]


def execute(plan, ctx):
    sessions = plan['sessions']
    want = []
    for k, s in enumerate(sessions):
        alone, trace = Session(s, ctx), []
        while True:
            o = alone.step()
            if o is None:
                break
            trace.append(o)
        want.append(trace)
        ctx.log('alone', k, world.digest(trace), len(trace))
        ctx.probe(s['drive'])
        if s['criterion'] == 'metric' and s['drive'] == 'pool':
            ctx.probe('metric-criterion')
        if any(k2.endswith('_time') for o, _ in trace for k2 in o):
            ctx.probe('timings')

    live = []
    for k, s in enumerate(sessions):
        x = Session(s, ctx, live[0] if s['share'] else None)
        if s['share']:
            ctx.probe('shared-labels')
            first = sessions[0]
            if x.s['drive'] == 'pool' and live[0].s['drive'] == 'pool' and all(s[f] == first[f] for f in ('criterion', 'noise', 'max_iter', 'skip', 'subsampling', 'sampler')):
                x.expl = live[0].expl
                ctx.probe('shared-exploration')
        if s.get('own') and k:
            x.expl = live[0].expl
            ctx.probe('one-exploration-object')
        live.append(x)
    for x in live:
        if x.s.get('early') and x.s['drive'] == 'pool':
            with x.world:
                x.start()
            ctx.probe('requested-early')
    faults = {(f['session'], f['step']): f for f in plan['faults']}
    dead, last = {}, None
    order = list(plan['schedule']) + [k for _ in range(200) for k in range(len(sessions))]
    for k in order:
        if all(x.done or j in dead for j, x in enumerate(live)):
            break
        x = live[k]
        if x.done or k in dead:
            continue
        if last is not None and last != k:
            ctx.probe('interleaved')
            if len(x.records) == 0 and len(live[last].records) > 0:
                ctx.probe('late-start')
        last = k
        pos = len(x.records)
        f = faults.get((k, pos))
        if f is not None:
            dead[k] = f
            try:
                with x.world:
                    if x.gen is None:
                        x.start()
                    if f['how'] == 'line':
                        LINES.arm(f['line'], FAULTS['interrupt']())
                        next(x.gen, None)
                        LINES.disarm()
                        if LINES.fired_at is None:  # the step was over before
                            f['how'] = 'abandon'
                    elif f['how'] == 'throw':
                        x.gen.throw(FAULTS['error']())
                    elif f['how'] == 'close':
                        x.gen.close()
            except BaseException as e:
                LINES.disarm()
                if not is_injected(e):
                    raise
            ctx.probe(f['how'])
            ctx.fault(f['how'] + '@session')
            ctx.log('fault', k, pos, f['how'])
            continue
        o = x.step()
        ctx.log('step', k, pos, o is None)
        ctx.state(tuple((s['learner']['name'], s['drive'], len(x.records)) for s, x in zip(sessions, live)))
        d = session.difference(want[k][:pos] + ([want[k][pos]] if o is not None and pos < len(want[k]) else []), [r for _, r in x.records])
        ctx.check(d is None, 'sessions-interfere', lambda: 'session {}: {}'.format(k, d))
        ctx.check(o is not None or len(want[k]) == pos, 'stopped-early-when-interleaved', lambda: 'session {} after {} of {} steps'.format(k, pos, len(want[k])))
    for k, x in enumerate(live):
        for i, (m, r) in enumerate(x.records):
            d = session.difference([r], [full(m)])
            ctx.check(d is None, 'record-changed', lambda: 'session {} record {}: {}'.format(k, i + 1, d))
        ctx.check(k in dead or len(x.records) == len(want[k]), 'lost-steps', '')
