""" C09: runs stop at the first satisfied criterion; callbacks fire on schedule """
import random

import numpy as np

from .. import session, world
from ..session import Ledger
from ..world import Judging

ID = 'C09'
RUNS = {'quick': 2700, 'thorough': 60000}
BUDGET = 3_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions with up to four criteria (iteration limits, thresholds on scripted metrics, predicates over the state and over the record) and callbacks whose values are scripted by '
        'the plan; a reference schedule says after which iteration the run ends and which callbacks were called when.')
STATE_MEASURE = 'criteria, period of the callbacks, number of iterations, cause of the end'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'utils.convergence', 'metric logger', 'PartitionedDataset', 'some learners']
STUBS = ['one-nearest-neighbour learner (most runs)', 'the user', 'scripted callbacks']
ASSUMPTIONS = ['criteria are functions of the state and record they are given']
NEEDS_EXT = False
LISTS = ['criteria', 'before']
NUMBERS = {'session.problem.data.n': 4}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.skip': 1}
MUST_REACH = ['end-exhausted', 'end-iters', 'end-limit', 'end-threshold', 'end-record', 'end-immediately', 'skipped-callback', 'last-off-schedule', 'threshold-missed', 'manager', 'second-run', 'modified-record']


def generate(rng, tier):
    s = session.gen_session(rng, ['stub'] * 4 + ['stub_batch', 'random', 'simple', 'dsm_stub'], n=(4, 26))
    s['skip'] = rng.choice([1, 1, 2, 3, 5, 40])
    crit = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        kind = rng.choice(['iters', 'limit', 'threshold', 'threshold', 'record', 'labeled', 'phase'])
        crit.append({'kind': kind, 'at': rng.choice([0, 1, 2, 3, 5, 8, 13, 40]), 'threshold': rng.choice([.1, .5, .9, 1., 2., 0., -.5]), 'metric': rng.choice(['w_a', 'w_b', 'w_never'])})
    return {'session': s, 'criteria': crit, 'mode': rng.choice(['pool', 'pool', 'pool', 'manager']), 'repeat': rng.choice([1, 1, 2]), 'values': rng.getrandbits(31),
            'before': [rng.choice(['metrics', 'abandoned', 'other'])] if rng.random() < .3 else [], 'ncallbacks': rng.choice([0, 1, 2, 3]),
            'modify': rng.random() < .4}


def scripted(seed, name, it):
    """ the value of a callback metric at an iteration; None: not reported """
    r = random.Random('{}/{}/{}'.format(seed, name, it))
    return None if r.random() < .15 else round(r.random() ** 3, 3) if r.random() < .8 else r.choice([.1, .5, .9, 1., 0., 0., -.5, -1.])


def execute(plan, ctx):
    from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
    s = plan['session']
    b = session.build(s, ctx)
    n, skip = b.problem.n, s['skip']
    names = ['w_a', 'w_b', 'w_c'][:plan['ncallbacks']]
    calls, live = [], {}

    def make_callback(name):
        def callback(data, learner):
            calls.append((name, data.labeled_size, sorted(data.labeled.index.tolist())))
            v = scripted(plan['values'], name, live['iters'] + 1)
            return None if v is None else {name: v}
        return callback

    criteria, spec = [], plan['criteria']
    for c in spec:
        if plan['mode'] == 'manager' and c['kind'] in ('threshold', 'record'):
            c['kind'] = 'labeled'
        if c['kind'] == 'iters':
            criteria.append(lambda mgr, m, at=c['at']: mgr.iters >= at)
        elif c['kind'] == 'limit':
            criteria.append(max_iter_reached(c['at']))
        elif c['kind'] == 'threshold':
            criteria.append(metric_reached_threshold(c['metric'], c['threshold']))
        elif c['kind'] == 'record':
            criteria.append(lambda mgr, m, at=c['at']: 'labeled_indexes' in m and min(b.problem.row_of[i] for i in m['labeled_indexes']) % 16 == at)
        elif c['kind'] == 'labeled':
            criteria.append(lambda mgr, m, at=c['at']: mgr.data.labeled_size > at)
        elif c['kind'] == 'phase':
            criteria.append(lambda mgr, m, at=c['at']: mgr.iters > at and mgr.is_exploration_phase)

    def reference(it, ledger, exploring, values, rows):
        """ which criteria hold after iteration 'it' """
        res = []
        for c in spec:
            k, at = c['kind'], c['at']
            if k == 'iters':
                res.append((it >= at, 'end-iters'))
            elif k == 'limit':
                res.append((it > at, 'end-limit'))
            elif k == 'threshold':
                res.append((values.get(c['metric'], -np.inf) >= c['threshold'], 'end-threshold'))
            elif k == 'record':
                res.append((rows is not None and min(rows) % 16 == at, 'end-record'))
            elif k == 'labeled':
                res.append((len(ledger.given) > at, 'end-labeled'))
            elif k == 'phase':
                res.append((it > at and exploring, 'end-phase'))
        res.append((len(ledger.given) == n, 'end-exhausted'))
        return [why for ok, why in res if ok]

    keep = [session.disturb(d, b, s, ctx) for d in plan['before']]
    callbacks = [make_callback(c) for c in names]

    def one(run, get):
        """ follows one run against the reference schedule """
        ledger = Ledger(ctx, b.problem)
        live['iters'] = it = 0
        calls.clear()
        ends = reference(0, ledger, s['sampler'] is None, {}, None)
        while True:
            m = get(run)
            if m is None:
                ctx.check(bool(ends), 'stopped-early', lambda: 'no criterion holds after {} iterations: {}'.format(it, spec))
                break
            ctx.check(not ends, 'stopped-late', lambda: 'iteration {} runs although {}'.format(it + 1, ends))
            it += 1
            with Judging('record'):
                idxs = list(m['labeled_indexes'])
                ledger.add(idxs, m['labels'], [np.ravel(p) for p in m['partial_labels']])
            exploring = s['sampler'] is None or len({v[0] for v in ledger.given.values()}) == 2
            rows = [b.problem.row_of[i] for i in idxs]
            # callbacks run on schedule, and at the last iteration
            values = {c: scripted(plan['values'], c, it) for c in names}
            values = {k: v for k, v in values.items() if v is not None}
            on = (it - 1) % skip == 0
            before = reference(it, ledger, exploring, {}, rows)
            fire = on or bool(before)
            if not fire:
                ctx.probe('skipped-callback')
                if reference(it, ledger, exploring, values, rows):
                    ctx.probe('threshold-missed')
            elif not on:
                ctx.probe('last-off-schedule')
            want = [(c, len(ledger.given), sorted(ledger.given)) for c in names] if fire else []
            ctx.check(calls == want, 'callback-schedule', lambda: 'iteration {} period {} last {}: calls {} expected {}'.format(
                it, skip, bool(before), [(c[0], c[1]) for c in calls], [(c[0], c[1]) for c in want]))
            calls.clear()
            live['iters'] = it
            with Judging('record'):
                got = {k: v for k, v in m.items() if k in ('w_a', 'w_b', 'w_c')}
                ctx.check(got == (values if fire else {}), 'callback-values', lambda: '{} vs {}'.format(got, values))
            ends = reference(it, ledger, exploring, values if fire else {}, rows)
            ctx.log('iter', it, idxs, fire, ends)
            if plan.get('modify') and run is not None:  # the record is the caller's: changing it does not change the run
                m.pop('labeled_indexes')
                m.update({c: 100 * (it % 2) for c in ['w_a', 'w_b', 'w_never']})
                ctx.probe('modified-record')
        for e in ends:
            ctx.probe(e)
        if it == 0:
            ctx.probe('end-immediately')
        ctx.log('end', it, ends)
        ctx.state(tuple(sorted({c['kind'] for c in spec})), skip, it, tuple(sorted(set(ends))), len(names))

    if plan['mode'] == 'manager':
        from aideme.explore import ExplorationManager, PartitionedDataset
        ctx.probe('manager')
        data = PartitionedDataset(b.problem.X, b.problem.ids, copy=True)
        mgr = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=b.sampler, callback=callbacks, callback_skip=skip, convergence_criteria=criteria)
        for k in range(plan['repeat']):
            mgr.clear()

            def get(_):
                if mgr.converged():
                    return None
                ls = b.labels.get_index(mgr.get_next_to_label().index)
                mgr.update(ls)
                m = dict(ls.asdict(), **mgr.get_callback_metrics())
                ctx.check(mgr.iters == live['iters'] + 1, 'iteration-count', lambda: '{} vs {}'.format(mgr.iters, live['iters'] + 1))
                return m
            one(None, get)
            if k:
                ctx.probe('second-run')
        return
    expl = session.exploration(b, s, callbacks if len(callbacks) != 1 else callbacks[0], criteria if len(criteria) != 1 else criteria[0])
    for k, run in enumerate(expl.run(b.problem.X, b.labels, b.learner, repeat=plan['repeat'], seeds=[s['np_seed'], s['np_seed'] // 2][:plan['repeat']])):
        one(run, lambda r: next(r, None))
        if k:
            ctx.probe('second-run')
