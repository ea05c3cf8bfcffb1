""" C05: every iteration asks for new points, and an unbounded exploration ends exactly when everything is labeled """
import random

import numpy as np

from .. import session, world
from ..kernel import FAULTS, LINES, is_injected
from ..session import Ledger
from ..world import Judging, LEARNERS

ID = 'C05'
RUNS = {'quick': 2000, 'thorough': 40000}
BUDGET = 1_500_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions run to exhaustion (or to a cap for the costly learners) with every learner of the library, all initial samplers, subsampling, '
        'duplicated rows; part of the runs inject transient learner failures and interrupts, after which the session must still finish.')
STATE_MEASURE = 'learner, phase, labeled, inferred and unknown counts'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'initial samplers', 'every active learner of the library except TwoStepsLearner']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['progress is bounded by executed lines of the code under test, not by wall time',
               'the dual space model is only claimed to progress for a positive probability of sampling from the unknown partition']
NEEDS_EXT = True
LISTS = ['faults']
NUMBERS = {'session.problem.data.n': 4, 'cap': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range'}
MUST_REACH = ['exhausted', 'batch', 'initial-phase', 'recovered', 'last-batch-short', 'inferred-while-exploring']
CHEAP = ['stub', 'stub_batch', 'random', 'simple', 'uncertainty', 'qbd', 'qbd_tree', 'dsm', 'dsm_pos', 'dsm_neg', 'dsm_stub', 'fdsm', 'fdsm_pos', 'fdsm_stub', 'ssm']
ALL = sorted(LEARNERS)
FAULTY = ['stub', 'stub_batch', 'dsm_stub', 'fdsm_stub', 'random', 'simple']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')


def generate(rng, tier):
    mode = rng.choice(['pool', 'pool', 'faulty'])
    names = FAULTY if mode == 'faulty' else ALL if rng.random() < .6 else CHEAP
    kinds = ('uniform', 'grid', 'wide', 'dup') if rng.random() < .3 else ('uniform', 'grid', 'wide')
    s = session.gen_session(rng, names, n=(3, 24), parts=None, data_kinds=kinds)
    name = s['learner']['name']
    if s['problem']['data']['kind'] == 'dup' and name in ('ratio', 'lvs', 'lvs_nr', 'lvs_def'):
        s['problem']['data']['kind'] = 'uniform'
    if LEARNERS[name].get('parts'):
        s['problem']['data']['n'] = max(6, s['problem']['data']['n'])
    cap = 8 if LEARNERS[name].get('ext') or LEARNERS[name].get('slow') or name.startswith('svs') else rng.choice([100, 100, 5])
    plan = {'mode': mode, 'session': s, 'cap': cap, 'faults': []}
    if mode == 'faulty':
        for _ in range(rng.randint(1, 5)):
            plan['faults'].append({'at': rng.randint(1, 30), 'where': rng.choice(['next', 'fit', 'rank', 'line-next', 'line-update']),
                                   'kind': rng.choice(['error', 'interrupt', 'memory', 'value']), 'line': rng.choice([2, 6, 15, 40, 90, 200])})
    return plan


def execute(plan, ctx):
    s = plan['session']
    b = session.build(s, ctx)
    ledger = Ledger(ctx, b.problem)
    (pool if plan['mode'] == 'pool' else faulty)(plan, ctx, s, b, ledger)


def pool(plan, ctx, s, b, ledger):
    problem, cap = b.problem, plan['cap']
    seen = {}
    run = session.first_run(session.run_pool(b, ctx, callback=lambda data, learner: seen.update(data=data), criteria=session.max_iter(cap)))
    iters = 0
    for m in run:
        iters += 1
        with Judging('metrics'):
            idxs = list(m['labeled_indexes'])
            ledger.add(idxs, m['labels'], [np.ravel(p) for p in m['partial_labels']])
            ctx.check(iters <= problem.n, 'too-many-iterations', lambda: '{} iterations over {} points'.format(iters, problem.n))
            data = seen.get('data')
        if m['phase'] != 'exploration':
            ctx.probe('initial-phase')
        if len(idxs) > 1:
            ctx.probe('batch')
        if data is not None:
            ctx.check(data.labeled_size == len(ledger.given), 'progress-not-recorded', lambda: '{} vs {}'.format(data.labeled_size, len(ledger.given)))
            if data.inferred_size:
                ctx.probe('inferred-while-exploring')
            ctx.state(s['learner']['name'], m['phase'], data.labeled_size, data.inferred_size)
        batch = s['learner'].get('batch', 1)
        if iters > 1 and batch > len(idxs) and m['phase'] == 'exploration':
            ctx.probe('last-batch-short')
        ctx.log('iter', iters, m['phase'], idxs)
    done = len(ledger.given) == problem.n
    ctx.check(done or iters >= cap, 'stopped-early', lambda: 'stopped after {} iterations with {} of {} points labeled'.format(iters, len(ledger.given), problem.n))
    if done:
        ctx.probe('exhausted')


def faulty(plan, ctx, s, b, ledger):
    """ our own loop retries each failed step; faults are finite, so that the session must finish """
    from aideme.explore import ExplorationManager, PartitionedDataset
    problem = b.problem
    data = PartitionedDataset(problem.X, problem.ids, copy=True)
    mgr = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=b.sampler)
    mgr.clear()
    faults = {}
    for f in plan['faults']:
        faults.setdefault(f['at'], f)
    learner = b.learner
    armed = [None]

    def seam(name):
        original = getattr(learner, name)

        def f(*a, **k):
            if armed[0] == name:
                armed[0] = None
                raise FAULTS[fault['kind']]()
            return original(*a, **k)
        setattr(learner, name, f)
    for name in ('next_points_to_label', 'fit_data', 'rank'):
        if hasattr(learner, name):
            seam(name)

    attempts, refit, failed = 0, False, False
    limit = 3 * (problem.n + len(faults)) + 5
    fault = None
    while not mgr.converged():
        attempts += 1
        ctx.check(attempts <= limit, 'no-progress', lambda: '{} attempts for {} points and {} faults'.format(attempts, problem.n, len(faults)))
        fault = faults.pop(attempts, None)
        step = 'next'
        try:
            if fault is not None:
                armed[0] = {'next': 'next_points_to_label', 'fit': 'fit_data', 'rank': 'rank'}.get(fault['where'])
            if refit:
                learner.fit_data(data)
                refit = False
            if fault is not None and fault['where'] == 'line-next':
                LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
            batch = mgr.get_next_to_label()
            LINES.disarm()
            idxs = batch.index.tolist()
            ctx.check(not set(idxs) & set(ledger.given), 'asked-twice', lambda: str(idxs))
            step = 'update'
            user = b.labels.get_index(idxs)
            if fault is not None and fault['where'] == 'line-update':
                LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
            mgr.update(user)
            LINES.disarm()
            ledger.add(idxs, user.labels.tolist(), user.partial.tolist())
            if failed:
                ctx.probe('recovered')
        except BaseException as e:
            LINES.disarm()
            if not is_injected(e):
                raise
            failed = True
            ctx.fault('{}@{}'.format(type(e).__name__, fault['where'] if fault else '?'))
            ctx.log('failed', step, type(e).__name__)
            if step == 'update':
                there = set(data.labeled.index.tolist())
                if set(idxs) <= there:
                    ledger.add(idxs, user.labels.tolist(), user.partial.tolist())
                    refit = mgr.is_exploration_phase
            elif refit is False and fault and fault['where'] == 'fit' and mgr.is_exploration_phase and ledger.given:
                refit = True
        armed[0] = None
        ctx.log('step', attempts, step, len(ledger.given), data.inferred_size)
        ctx.state('faulty', s['learner']['name'], len(ledger.given), data.inferred_size)
    ctx.check(len(ledger.given) == problem.n, 'stopped-early', lambda: '{} of {}'.format(len(ledger.given), problem.n))
    ctx.probe('exhausted')
