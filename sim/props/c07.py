""" C07: an aborted or failed run leaves no trace on the next one """
import random

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..world import LEARNERS, Seams

ID = 'C07'
RUNS = {'quick': 1400, 'thorough': 40000}
BUDGET = 8_000_000
MIN_EVENTS = 4
LEVEL = 'exploration'
RULE = ('A reference exploration is run with fresh objects. Then one to three explorations with one learner and one exploration object are aborted: abandoned, closed, failed at a seam, '
        'or interrupted at a chosen executed line. The next exploration with the same objects must equal the reference in every record.')
STATE_MEASURE = 'learner, kind of abort, function interrupted'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'metric logger', 'initial samplers', 'noise injector', 'every active learner of the library except TwoStepsLearner']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['repeats of one run share a dataset: for them an interrupt never lands inside the dataset bookkeeping']
NEEDS_EXT = True
LISTS = ['aborts']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.noise': None, 'session.skip': 1}
ALL = sorted(LEARNERS) + ['stub', 'dsm', 'dsm', 'dsm_stub', 'fdsm_stub', 'fdsm', 'swap', 'swap', 'swap', 'flm', 'kvs', 'kvs', 'lvs', 'dsm_kvs', 'random']
HOWS = ['abandon', 'close', 'throw', 'line', 'line', 'line', 'learner.fit', 'learner.next', 'callback', 'criterion', 'sampler', 'noise']
MUST_REACH = HOWS + ['next-repeat', 'other-data', 'aborted', 'same-exploration', 'fresh-exploration', 'twice', 'learner-with-memory']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')


def generate(rng, tier):
    s = session.gen_session(rng, ALL, n=(5, 22), parts=rng.choice([None, None, 2]))
    s['max_iter'] = min(s['max_iter'], 12)
    s['noise'] = rng.choice([None, .3]) if not LEARNERS[s['learner']['name']] else None
    aborts = [{'how': rng.choice(HOWS), 'frac': round(rng.random(), 4), 'seed': rng.getrandbits(31), 'kind': rng.choice(['error', 'interrupt', 'memory', 'value']),
               'after': rng.random() < .5, 'data': rng.choice(['same', 'same', 'other']), 'where': rng.choice(['separate', 'separate', 'repeat'])}
              for _ in range(rng.randint(1, 3))]
    return {'session': s, 'memory': rng.random() < .6, 'aborts': aborts, 'final': rng.choice(['same', 'same', 'fresh']), 'criterion': rng.choice(['iters', 'metric'])}


def patch(obj, name, seams, site):
    original = getattr(obj, name)

    def seam(*a, **k):
        seams.hit(site)
        res = original(*a, **k)
        seams.hit(site + ':after')
        return res
    setattr(obj, name, seam)


def execute(plan, ctx):
    s = plan['session']

    def counting(data, learner):  # feeds the metric criterion
        return {'w_count': data.labeled_size}

    def criteria(seams):
        from aideme.utils.convergence import metric_reached_threshold
        if plan['criterion'] == 'metric':  # a stale metric of an aborted run would stop the next run
            base = [metric_reached_threshold('w_count', s['max_iter'] + 2), session.max_iter(s['max_iter'] + 4)]
        else:
            base = [session.max_iter(s['max_iter'])]
        return [seams.func(c, 'criterion') for c in base]

    def make():
        seams = Seams(ctx)
        b = session.build(s, ctx, seams)
        if plan.get('memory'):
            stub = getattr(b.learner, 'active_learner', b.learner)
            if hasattr(stub, 'memory'):
                stub.memory = {}
                ctx.probe('learner-with-memory')
        patch(b.learner, 'fit_data', seams, 'learner.fit_data')
        patch(b.learner, 'next_points_to_label', seams, 'learner.next')
        return seams, b

    def expl_of(seams, b):
        from aideme.utils.noise import random_noise_injector
        noise = seams.func(random_noise_injector(s['noise']), 'noise') if s['noise'] is not None else None
        return session.exploration(b, s, [session.watch, seams.func(counting, 'callback')], criteria(seams), noise)

    seams0, b0 = make()
    start = LINES.count
    want = session.plain_trace(expl_of(seams0, b0), b0)
    lines = max(LINES.count - start, 20)
    calls = dict(seams0.count)
    ctx.log('reference', world.digest(want), len(want))

    seams, b = make()
    expl = expl_of(seams, b)
    keep = []
    for i, a in enumerate(plan['aborts']):
        last = i + 1 == len(plan['aborts'])
        repeat = a['where'] == 'repeat' and a['data'] == 'same' and last
        labels, X, sampler = b.labels, b.problem.X, expl.initial_sampler
        use = expl
        if a['data'] == 'other':
            ctx.probe('other-data')
            p2 = world.Problem(dict(s['problem'], data=dict(s['problem']['data'], seed=a['seed'])))
            s2 = dict(s)
            if s2['sampler'] and s2['sampler']['kind'] == 'fixed':
                s2['sampler'] = dict(s2['sampler'], seed=a['seed'])
            o = session.build(s2, ctx, seams, problem=p2)
            labels, X = o.labels, p2.X
            o.sampler, keep_sampler = o.sampler, b.sampler
            tmp, b.sampler = b.sampler, o.sampler
            use = expl_of(seams, b)
            b.sampler = tmp
        seeds = [(s['np_seed'] + 7 + i) & 0xffffffff] + ([s['np_seed']] if repeat else [])
        runs = iter(use.run(X, labels, b.learner, repeat=len(seeds), seeds=seeds))
        run = next(runs)
        keep.append(run)
        how = a['how']
        steps = int(a['frac'] * (len(want) + 1))
        site = {'learner.fit': 'learner.fit_data', 'learner.next': 'learner.next'}.get(how, how)
        if how == 'line':
            LINES.arm(1 + int(a['frac'] * lines), FAULTS['interrupt'](), MASK if repeat else ())
        elif how not in ('abandon', 'close', 'throw'):
            full = site + (':after' if a['after'] else '')
            at = seams.count.get(full, 0) + 1 + int(a['frac'] * calls.get(full, 1))
            seams.plan = {full: {at: a['kind']}}
        outcome = 'finished'
        try:
            if how in ('abandon', 'close', 'throw'):
                for _ in range(steps):
                    if next(run, None) is None:
                        break
                else:
                    outcome = 'aborted'
                    if how == 'close':
                        run.close()
                    elif how == 'throw':
                        run.throw(FAULTS[a['kind']]())
            else:
                for _ in run:
                    pass
        except BaseException as e:
            LINES.disarm()
            if not is_injected(e):
                raise
            outcome = 'aborted'
        LINES.disarm()
        seams.plan = {}
        if outcome == 'aborted':
            ctx.probe('aborted')
            ctx.probe(how)
            if how in ('abandon', 'close', 'throw', 'line'):
                ctx.fault(how + '@run')
        ctx.log('abort', how, outcome, LINES.fired_at if how == 'line' else None)
        ctx.state(s['learner']['name'], how, outcome, LINES.fired_at if how == 'line' else steps if how in ('abandon', 'close') else None)
        if repeat:
            ctx.probe('next-repeat')
            d = session.difference(want, [session.item(m) for m in next(runs)])
            ctx.check(d is None, 'trace-left-in-next-repeat', lambda: '{} {}: {}'.format(how, LINES.fired_at, d))
    if len(plan['aborts']) > 1:
        ctx.probe('twice')
    if plan['final'] == 'fresh':
        ctx.probe('fresh-exploration')
        expl = expl_of(seams, b)
    else:
        ctx.probe('same-exploration')
    got = session.plain_trace(expl, b)
    d = session.difference(want, got)
    ctx.check(d is None, 'trace-left', lambda: '{} {}: {}'.format([a['how'] for a in plan['aborts']], LINES.fired_at, d))
