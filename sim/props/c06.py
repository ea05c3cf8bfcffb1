""" C06: the same seed gives the same exploration, whatever happened before """
import random

import numpy as np

from .. import session, world
from ..kernel import CLOCK
from ..world import LEARNERS

ID = 'C06'
RUNS = {'quick': 1000, 'thorough': 40000}
BUDGET = 6_000_000
MIN_EVENTS = 4
LEVEL = 'exploration'
RULE = ('One exploration is run first, then again under a few variations: other work before it, a learner already used for other explorations, repeats in all '
        'positions, list and generator results, another clock. All runs with equal seeds must agree in every iteration record.')
STATE_MEASURE = 'learner and final sizes of the partitions, per variation'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'initial samplers', 'noise injector', 'every active learner of the library except TwoStepsLearner']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['runs are compared within one process and one version of the numerical libraries']
NEEDS_EXT = True
LISTS = ['variants']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.noise': None, 'session.skip': 1}
MUST_REACH = ['fresh', 'reused-learner', 'reused-exploration', 'repeats', 'repeats-list', 'list', 'clock', 'used-elsewhere', 'factorization', 'seed-zero']
ALL = sorted(LEARNERS) + ['stub', 'stub_batch', 'dsm', 'dsm_stub', 'fdsm_stub', 'swap', 'swap', 'kvs', 'random', 'qbd']
VARIANTS = ['fresh', 'reused-learner', 'reused-exploration', 'repeats', 'repeats-list', 'list', 'clock', 'used-elsewhere']


def generate(rng, tier):
    s = session.gen_session(rng, ALL, n=(5, 24), parts=rng.choice([None, None, 2]))
    s['max_iter'] = min(s['max_iter'], 15)
    s['noise'] = rng.choice([None, None, .3]) if not LEARNERS[s['learner']['name']] else None
    return {'session': s, 'variants': [{'kind': rng.choice(VARIANTS), 'disturb': rng.choice(['none', 'rng', 'metrics', 'other', 'abandoned']),
                                        'seed': rng.getrandbits(31)} for _ in range(rng.randint(2, 4))],
            'draws': rng.random() < .3, 'predict': rng.random() < .3 and 'stub' in s['learner']['name']}


def draw(data, learner):
    """ a callback which uses both random generators """
    return {'w_python': random.random(), 'w_numpy': float(np.random.rand())}


def execute(plan, ctx):
    s = plan['session']
    b = session.build(s, ctx)
    keep = []
    callback = [session.watch] + ([draw] if plan.get('draws') else []) + ([session.quality(b.problem)] if plan['predict'] else [])
    expl = session.exploration(b, s, callback)
    want = session.plain_trace(expl, b)
    ctx.check(len(want) > 0, 'no-iteration', '')
    ctx.log('baseline', world.digest(want), len(want))
    other_seed = (s['np_seed'] + 1) & 0xffffffff
    other = None
    if s['np_seed'] == 0:
        ctx.probe('seed-zero')
    if any(k.startswith('factorization') or k.startswith('fact') for m, _ in want for k in m):
        ctx.probe('factorization')

    def same(got, what, ref=None):
        d = session.difference(want if ref is None else ref, got)
        ctx.check(d is None, 'not-reproducible-' + what, d)

    for v in plan['variants']:
        kind = v['kind']
        ctx.probe(kind)
        if kind == 'clock':
            CLOCK.reset(v['seed'], ['smooth', 'jumpy', 'frozen'][v['seed'] % 3])
        keep.append(session.disturb(v['disturb'], b, s, ctx))
        if kind in ('fresh', 'clock'):
            f = session.build(s, ctx)
            same(session.plain_trace(session.exploration(f, s, callback), f), kind)
        elif kind == 'reused-learner':
            same(session.plain_trace(session.exploration(b, s, callback), b), kind)
        elif kind == 'reused-exploration':
            f = session.build(s, ctx)
            same(session.plain_trace(expl, f), kind)
        elif kind == 'used-elsewhere':  # the learner first explores other data, with another seed
            p2 = world.Problem(dict(s['problem'], data=dict(s['problem']['data'], seed=v['seed'])))
            s2 = dict(s, sampler=s['sampler'] and dict(s['sampler']), max_iter=min(4, s['max_iter']))
            if s2['sampler'] and s2['sampler']['kind'] == 'fixed':
                s2['sampler'] = dict(s2['sampler'], seed=v['seed'])
            o = session.build(s2, ctx, problem=p2)
            session.plain_trace(session.exploration(o, s2), o, learner=b.learner, seed=other_seed)
            same(session.plain_trace(expl, b), kind)
        elif kind == 'list':
            runs = expl.run(b.problem.X, b.labels, b.learner, seeds=s['np_seed'], return_generator=False)
            ctx.check(isinstance(runs, list) and len(runs) == 1, 'list-shape', str(type(runs)))
            same([session.item(m) for m in runs[0]], kind)
        else:
            if other is None:
                f = session.build(s, ctx)
                other = session.plain_trace(session.exploration(f, s, callback), f, seed=other_seed)
            seeds = [[s['np_seed'], other_seed, s['np_seed']], [other_seed, s['np_seed']], [s['np_seed']] * 2][v['seed'] % 3]
            runs = expl.run(b.problem.X, b.labels, b.learner, repeat=len(seeds), seeds=seeds, return_generator=kind == 'repeats')
            count = 0
            for seed, run in zip(seeds, runs):
                count += 1
                same([session.item(m) for m in run], kind, want if seed == s['np_seed'] else other)
            ctx.check(count == len(seeds), 'repeats-shape', '')
        ctx.log('variant', kind)
        ctx.state(s['learner']['name'], kind, v['disturb'], s['sampler'] and s['sampler']['kind'])
