""" C08: iteration records are complete, immutable, and exact about time """
import copy
import random

import numpy as np

from .. import session, world
from ..kernel import CLOCK, FAULTS, is_injected
from ..session import Ledger
from ..world import Judging, LEARNERS

ID = 'C08'
RUNS = {'quick': 2700, 'thorough': 60000}
BUDGET = 6_000_000
MIN_EVENTS = 4
LEVEL = 'exploration'
RULE = ('Sessions of all learners with callbacks whose keys and values change at every call; sessions on a clock which only our seams advance, by known amounts; and histories of operations '
        'on the metric logger with failing timed functions, compared with a reference logger. Records are modified by the consumer and compared again at the end.')
STATE_MEASURE = 'mode, learner, phase, and set of keys of each record'
REAL = ['metric logger', 'PoolBasedExploration', 'ExplorationManager', 'LabeledSet', 'learners', 'noise injector']
STUBS = ['one-nearest-neighbour learner with known durations', 'the user', 'the clock']
ASSUMPTIONS = ['the duration of a step is the virtual time which elapsed inside its seams']
NEEDS_EXT = True
LISTS = ['ops', 'before']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.noise': None}
MUST_REACH = ['timing', 'pool', 'logger', 'noisy', 'no-callback-iteration', 'initial-phase', 'second-run', 'stale-before', 'consumer-modified', 'failed-timed-call', 'foreign-metrics']
ALL = sorted(LEARNERS) + ['stub', 'stub_batch', 'dsm_stub', 'fdsm_stub', 'random', 'simple']


def generate(rng, tier):
    mode = rng.choice(['timing', 'timing', 'pool', 'pool', 'logger'])
    if mode == 'logger':
        keys = ['a', 'b', 'c']
        ops = [[rng.choice(['flush', 'log', 'log', 'log', 'many', 'timed', 'timed', 'get']), rng.choice(keys), rng.choice(['overwrite', 'sum', 'append']),
                rng.randint(0, 9), rng.choice(['ok', 'ok', 'error', 'interrupt', 'nested'])] for _ in range(rng.randint(3, 30))]
        return {'mode': mode, 'ops': ops}
    s = session.gen_session(rng, ['stub', 'stub', 'stub_batch'] if mode == 'timing' else ALL, n=(5, 22), parts=rng.choice([None, None, 2]))
    s['max_iter'] = min(s['max_iter'], 10)
    s['noise'] = rng.choice([None, .3, 1.]) if not LEARNERS[s['learner']['name']] else None
    s['noise_skip'] = rng.choice([0, 0, 2])
    return {'mode': mode, 'session': s, 'clock': 'frozen' if mode == 'timing' else rng.choice(['smooth', 'jumpy']), 'repeat': rng.choice([1, 1, 2]),
            'before': [rng.choice(['metrics', 'abandoned', 'other'])] if rng.random() < .4 else [], 'ncallbacks': rng.choice([1, 2, 3]), 'modify': rng.random() < .5, 'foreign': rng.choice([0, 0, 1, 2, 3]),
            'container': rng.choice(['list', 'tuple', 'list']), 'durations': rng.getrandbits(31)}


def execute(plan, ctx):
    ctx.probe(plan['mode'])
    if plan['mode'] == 'logger':
        return logger(plan, ctx)
    s = plan['session']
    timing = plan['mode'] == 'timing'
    r = random.Random(plan['durations'])
    spent = {'fit': 0., 'next': 0., 'callback': 0., 'user': 0.}

    def sleep(what):
        dt = r.choice([0, 1, 7, 64, 1024 * 3600, 5]) / 1024.  # dyadic: sums are exact
        CLOCK.sleep(dt)
        spent[what] += dt

    b = session.build(s, ctx)
    if timing:
        def slow(obj, name, what):
            original = getattr(obj, name)

            def f(*a, **k):
                sleep(what)
                res = original(*a, **k)
                sleep(what)
                return res
            setattr(obj, name, f)
        slow(b.learner, 'fit', 'fit')
        slow(b.learner, 'rank', 'next')
        if b.sampler is not None:
            inner = b.sampler

            def sampler(data):
                sleep('next')
                return inner(data)
            b.sampler = sampler

    fired = []

    def make_callback(k):
        def callback(data, learner):
            if timing:
                sleep('callback')
            n = len(fired)
            fired.append(k)
            # a mutable value, a key which is new at every call, a key shared by all callbacks, sometimes nothing at all
            kind = r.choice(['full', 'full', 'none', 'empty'])
            if kind != 'full':
                answers.append({})
                return None if kind == 'none' else {}
            res = {'w_{}_{}'.format(k, n): n, 'w_shared': (k, n), 'w_same_{}'.format(k): [n, float(data.labeled_size)]}
            answers.append(copy.deepcopy(res))
            return res
        return callback
    answers = []
    callbacks = [make_callback(k) for k in range(plan['ncallbacks'])]
    if plan['container'] == 'tuple':
        callbacks = tuple(callbacks)
    if plan['ncallbacks'] == 1 and plan['durations'] % 2:
        callbacks = callbacks[0]
    from aideme.utils.noise import random_noise_injector
    noise = None
    if s['noise'] is not None:
        inner_noise = random_noise_injector(s['noise'], s['noise_skip'])

        def noise(it, ls):
            if timing:
                sleep('user')
            res = inner_noise(it, ls)
            answers_noise.append((np.array(res.labels).tolist(), np.array(res.partial).tolist()))
            return res
    answers_noise = []
    keep = []
    for d in plan['before']:
        keep.append(session.disturb(d, b, s, ctx))
        ctx.probe('stale-before')
    expl = session.exploration(b, s, callbacks, noise=noise)
    seeds = [s['np_seed'], (s['np_seed'] + 1) & 0xffffffff][:plan['repeat']]
    handed = []
    for k, run in enumerate(expl.run(b.problem.X, b.labels, b.learner, repeat=len(seeds), seeds=seeds)):
        if k:
            ctx.probe('second-run')
        ledger = Ledger(ctx, b.problem)
        for w in spent:
            spent[w] = 0.
        fired.clear(), answers.clear(), answers_noise.clear()
        t0 = CLOCK.t
        for m in run:
            elapsed = CLOCK.t - t0
            with Judging('record'):
                verify(ctx, plan, s, b, ledger, m, timing, spent, elapsed, list(answers), bool(fired), list(answers_noise))
            handed.append((m, world.freeze(m)))
            if plan['foreign'] and (len(handed) + plan['durations']) % 3 < 2:
                foreign(plan, ctx, len(handed))
                ctx.probe('foreign-metrics')
            ctx.log('iter', k, len(ledger.order), sorted(m))
            ctx.state(plan['mode'], s['learner']['name'], m['phase'], tuple(sorted(x for x in m if not x.startswith('w_'))))
            if plan['modify'] and len(handed) % 2:
                ctx.probe('consumer-modified')
                m['labels'].append(77)
                m['w_mine'] = 1
                m.pop('phase')
                handed[-1] = (m, world.freeze(m))
            for w in spent:
                spent[w] = 0.
            fired.clear(), answers.clear(), answers_noise.clear()
            t0 = CLOCK.t
    if timing and plan['before'] == ['abandoned']:
        pass
    for i, (m, frozen) in enumerate(handed):
        ctx.check(world.freeze(m) == frozen, 'record-changed', lambda: 'record {}: {} became {}'.format(i, frozen, world.freeze(m)))


def verify(ctx, plan, s, b, ledger, m, timing, spent, elapsed, answers, fired, noisy):
    first = not ledger.order
    initial = s['sampler'] is not None and (first or len({v[0] for v in ledger.given.values()}) < 2)
    idxs, labels, partial = m['labeled_indexes'], m['labels'], m['partial_labels']
    ctx.check(len(idxs) == len(labels) == len(partial) > 0, 'record-shape', lambda: str(m)[:400])
    for i, y, p in zip(idxs, labels, partial):
        ctx.check(i in ledger.problem.row_of and (float(y), [float(v) for v in np.ravel(p)]) == ledger.truth(i), 'record-labels', lambda: '{}: {} {} expected {}'.format(i, y, p, ledger.truth(i)))
    ctx.check(m['phase'] == ('initial_sampling' if initial else 'exploration'), 'record-phase', lambda: '{} at {}'.format(m['phase'], ledger.given))
    if initial:
        ctx.probe('initial-phase')
    if noisy:
        ctx.probe('noisy')
        ctx.check(len(noisy) == 1 and (m.get('noisy_labels'), m.get('noisy_partial_labels')) == noisy[0], 'record-noisy-labels', lambda: '{} vs {}'.format(m.get('noisy_labels'), noisy))
        labels, partial = noisy[0]
    else:
        ctx.check('noisy_labels' not in m and 'noisy_partial_labels' not in m, 'stale-noisy-labels', '')
    ledger.add(idxs, labels, [np.ravel(p) for p in partial])
    # callbacks
    want = {}
    for a in answers:
        want.update(a)
    got = {k: v for k, v in m.items() if k.startswith('w_')}
    ctx.check(world.freeze(got) == world.freeze(want), 'record-callbacks', lambda: 'callbacks returned {}, record has {}'.format(want, got))
    if not fired:
        ctx.probe('no-callback-iteration')
    ctx.check(('callback_time' in m) == fired, 'record-callback-time', lambda: str(sorted(m)))
    for k in ('iter_time', 'fit_time', 'get_next_time'):
        ctx.check(k in m, 'record-misses-' + k, '')
    times = {k: m[k] for k in ('iter_time', 'fit_time', 'get_next_time', 'callback_time') if k in m}
    ctx.check(all(isinstance(t, float) and t >= 0 for t in times.values()), 'negative-time', lambda: str(times))
    if timing:
        want = {'fit_time': spent['fit'], 'get_next_time': spent['next'], 'iter_time': spent['fit'] + spent['next'] + spent['user']}
        if fired:
            want['callback_time'] = spent['callback']
        ctx.check(times == want, 'wrong-time', lambda: 'record {} elapsed {}'.format(times, want))
    else:  # steps do not overlap and lie inside the iteration; other reads of the clock only add to what elapsed
        ctx.check(m['fit_time'] + m['get_next_time'] <= m['iter_time'] + 1e-6, 'wrong-time', lambda: str(times))
        ctx.check(m['iter_time'] + m.get('callback_time', 0) <= elapsed + 1e-6, 'wrong-time', lambda: '{} elapsed {}'.format(times, elapsed))


def foreign(plan, ctx, k):
    """ another exploration of the same process, or anybody else, uses the metric logger between two iterations """
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
    from aideme.utils import metric_logger
    if plan['foreign'] & 1:
        mgr = ExplorationManager(PartitionedDataset(np.arange(8.).reshape(4, 2)), world.stub_class()(1, 1), callback=[lambda data, learner: {'w_foreign': 1}])
        mgr.clear()
        mgr.update(LabeledSet([k % 2], index=mgr.get_next_to_label().index))
        mgr.get_callback_metrics()
    if plan['foreign'] & 2:
        metric_logger.log_metrics({'phase': 'foreign', 'labels': [99], 'iter_time': -1., 'noisy_labels': [98], 'w_foreign': k})
        metric_logger.log_metric('w_foreign_list', k, on_duplicates='append')


def logger(plan, ctx):
    """ the metric logger against a reference dictionary """
    from aideme.utils import metric_logger
    CLOCK.mode = 'frozen'
    model, handed = {}, []

    def put(model, key, value, how):
        if how == 'overwrite':
            model[key] = value
        elif how == 'sum':
            model[key] = value if model.get(key) is None else model[key] + value
        else:
            model[key] = model.get(key, []) + [value]
    for op, key, how, value, result in plan['ops']:
        kinds = {'sum': 'n_', 'append': 'l_', 'overwrite': 'o_'}
        key = kinds[how] + key
        if op == 'flush':
            metric_logger.flush()
            model = {}
        elif op == 'log':
            metric_logger.log_metric(key, value, on_duplicates=how)
            put(model, key, value, how)
        elif op == 'many':
            metric_logger.log_metrics({key: value, key + 'x': value + 1}, on_duplicates=how)
            put(model, key, value, how)
            put(model, key + 'x', value + 1, how)
        elif op == 'timed':
            dt = value / 64.

            @metric_logger.log_execution_time(key, on_duplicates=how)
            def inner(a, b=0):
                CLOCK.sleep(dt)
                return (a, b)

            @metric_logger.log_execution_time(key + '_outer')
            def timed(a, b=0):
                CLOCK.sleep(dt)
                if result in FAULTS:
                    raise FAULTS[result]()
                return inner(a, b=b)
            try:
                res = timed(value, b=3)
                ctx.check(res == (value, 3), 'timed-result', lambda: str(res))
                put(model, key, dt, how)
                put(model, key + '_outer', 2 * dt, 'overwrite')
            except BaseException as e:
                if not is_injected(e):
                    raise
                ctx.probe('failed-timed-call')
                ctx.fault(result + '@timed')
        got = metric_logger.get_metrics()
        known = {k: v for k, v in got.items()}
        if op == 'timed' and result in FAULTS:  # whether a failed call is timed is not specified
            model = {k: v for k, v in model.items()}
            if key + '_outer' in known and key + '_outer' not in model:
                model[key + '_outer'] = known[key + '_outer']
        ctx.check(known == model, 'logger-mismatch', lambda: 'after {}: expected {} got {}'.format((op, key, how, value), model, known))
        lists = [(k, v, list(v)) for k, v in got.items() if isinstance(v, list)]
        handed.append(lists)
        ctx.log(op, key, how, world.digest(known))
        ctx.state('logger', op, how, len(model))
    for lists in handed:
        for k, v, before in lists:
            ctx.check(v == before, 'handed-list-changed', lambda: '{}: {} became {}'.format(k, before, v))
