""" C03: the training set is exactly what the user labeled """
import random

import numpy as np

from .. import session, world
from ..kernel import is_injected
from ..session import Ledger
from ..world import Judging, chance

ID = 'C03'
RUNS = {'quick': 2700, 'thorough': 60000}
BUDGET = 3_000_000
MIN_EVENTS = 5
LEVEL = 'exploration'
RULE = ('Whole sessions (initial sampling, exploration, noise, partial labels, batches) with real and stub learners; sessions driven '
        'by our own loop add failing or interrupted learner updates in the middle of a session that goes on.')
STATE_MEASURE = 'learner, phase, batch size, labeled count, last fault'
REAL = ['PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'LabeledSet', 'initial samplers', 'noise injector', 'real learners in part of the runs']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user (answers from a synthetic concept)']
ASSUMPTIONS = ['an interrupt never lands inside the partitioned dataset itself']
NEEDS_EXT = False
LISTS = ['faults']
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'session.skip': 1}
MUST_REACH = ['failed-update', 'continued-after-failure', 'noisy', 'batch', 'partial', 'initial-phase']

FREE = ['stub', 'stub', 'stub_batch', 'random', 'simple', 'uncertainty', 'kvs', 'kvs_nr', 'ssm', 'fdsm_stub', 'dsm_stub', 'qbd']
FAULTY = ['stub', 'stub_batch', 'random', 'simple', 'ssm', 'fdsm_stub', 'dsm_stub']
MASK = ('explore/partitioned.py', 'explore/index.py', 'explore/labeledset.py')


def generate(rng, tier):
    mode = rng.choice(['pool', 'manager', 'faulty'])
    s = session.gen_session(rng, FAULTY if mode == 'faulty' else FREE, n=(6, 26), parts=rng.choice([None, None, 2, 3]))
    plan = {'mode': mode, 'session': s, 'noise': rng.choice([None, None, .3, 1.]) if not s['learner']['name'] in ('ssm',) else None, 'faults': []}
    if mode == 'faulty':
        for _ in range(rng.randint(1, 4)):
            plan['faults'].append({'step': rng.randint(1, 12), 'where': rng.choice(['next', 'update', 'update', 'update']),
                                   'how': rng.choice(['line', 'seam']), 'line': rng.choice([1, 3, 8, 20, 50, 120, 300]), 'seed': rng.getrandbits(31),
                                   'kind': rng.choice(['error', 'interrupt', 'memory', 'value'])})
    return plan


def fits_of(learner):
    """ records what reaches the learner that trains on the plain training set (None if this learner trains on more than that) """
    sink = []
    session.spy_fit(learner, sink)
    return sink


def check_data(ctx, ledger, data, fits, name, partial_learner, fitted):
    with Judging('dataset'):
        X, y = data.training_set()
        ledger.verify_training(X, y, 'training-set')
        Xp, p = data.training_set(get_partial=True)
        ledger.verify_training(Xp, p, 'partial-training-set', partial=True)
        ls = data.labeled_set
        ctx.check(sorted(ls.index.tolist()) == sorted(ledger.given), 'labeled-set-mismatch', '')
        ctx.check(data.labeled_size == len(ledger.given), 'labeled-size', '')
        if ledger.batches:
            last = ledger.batches[-1]
            Xl, yl = data.last_training_set()
            _, pl = data.last_training_set(get_partial=True)
            ctx.check(len(Xl) == len(yl) == len(pl) == len(last), 'last-batch-size', '')
            ctx.check(np.shape(pl) == (len(last), ledger.problem.partial.shape[1]), 'last-batch-partial-shape', lambda: str(np.shape(pl)))
            for x, l, q, i in zip(Xl, yl, pl, last):
                ctx.check(np.array_equal(x, ledger.problem.X[ledger.problem.row_of[i]]) and float(l) == ledger.given[i][0]
                          and np.ravel(q).tolist() == ledger.given[i][1], 'last-batch-mismatch', lambda: str(i))
    if fits is not None and fitted:
        ctx.check(len(fits) > 0, 'learner-not-fitted', name)
        ledger.verify_training(fits[-1][0], fits[-1][1], 'learner-training-set', partial=partial_learner)


def execute(plan, ctx):
    s = plan['session']
    b = session.build(s, ctx)
    name = s['learner']['name']
    ledger = Ledger(ctx, b.problem)
    fits = fits_of(b.learner) if name in ('stub', 'stub_batch', 'random', 'simple', 'uncertainty', 'kvs', 'kvs_nr', 'ssm') else None
    partial_learner = name == 'ssm'
    if b.problem.partial.shape[1] > 1:
        ctx.probe('partial')
    if plan['mode'] == 'pool':
        pool(plan, ctx, s, b, name, ledger, fits, partial_learner)
    else:
        manager(plan, ctx, s, b, name, ledger, fits, partial_learner)


def pool(plan, ctx, s, b, name, ledger, fits, partial_learner):
    from aideme.utils.noise import random_noise_injector
    seen = {}

    def callback(data, learner):
        seen['data'] = data

    noise = random_noise_injector(plan['noise']) if plan['noise'] is not None else None
    run = session.first_run(session.run_pool(b, ctx, callback=callback, criteria=session.max_iter(s['max_iter']), noise=noise))
    iters = 0
    for m in run:
        iters += 1
        with Judging('metrics'):
            idxs, labels, partial = m['labeled_indexes'], m['labels'], m['partial_labels']
            for i, y, p in zip(idxs, labels, partial):
                ctx.check((float(y), [float(v) for v in np.ravel(p)]) == ledger.truth(i), 'user-answer-mismatch', lambda: '{} {}'.format(i, y))
            ctx.check((m['phase'] == 'exploration' and noise is not None) == ('noisy_labels' in m), 'noisy-labels-presence', m['phase'])
            if 'noisy_labels' in m:
                labels, partial = m['noisy_labels'], m['noisy_partial_labels']
                ctx.probe('noisy')
        ledger.add(idxs, labels, [np.ravel(p) for p in partial])
        if len(idxs) > 1:
            ctx.probe('batch')
        if m['phase'] != 'exploration':
            ctx.probe('initial-phase')
        explored = m['phase'] == 'exploration' or (s['sampler'] is None) or 0 < sum(v[0] for v in ledger.given.values()) < len(ledger.given)
        check_data(ctx, ledger, seen['data'], fits, name, partial_learner, explored)
        ctx.log('iter', iters, m['phase'], idxs, labels)
        ctx.state(name, m['phase'], len(idxs), len(ledger.given))


def manager(plan, ctx, s, b, name, ledger, fits, partial_learner):
    from aideme.explore import ExplorationManager, PartitionedDataset, LabeledSet
    problem = b.problem
    data = PartitionedDataset(problem.X, problem.ids, copy=True)
    mgr = ExplorationManager(data, b.learner, subsampling=s['subsampling'], initial_sampler=b.sampler)
    mgr.clear()
    r = random.Random(s['np_seed'])
    faults = {(f['step'], f['where']): f for f in plan['faults']}
    failed = False
    for step in range(1, min(s['max_iter'], 25) + 1):
        if data.unlabeled_size == 0:
            break
        initial = mgr.is_initial_sampling_phase
        try:
            batch = guarded(ctx, faults.get((step, 'next')), b, lambda: mgr.get_next_to_label(), 'next')
        except BaseException as e:
            if not is_injected(e):
                raise
            failed = True
            ctx.probe('failed-next')
            check_data(ctx, ledger, data, None, name, partial_learner, False)
            continue
        with Judging('batch'):
            idxs = batch.index.tolist()
            if s['sampler'] and s['sampler']['kind'] == 'fixed' and set(idxs) & set(ledger.given):
                return  # a fixed sample may be asked again after a failure: out of scope
        labels = [ledger.truth(i) for i in idxs]
        if plan['noise'] and not initial:
            flip = [r.random() < plan['noise'] for _ in idxs]
            labels = [(1 - y, [1 - y] * len(p)) if f else (y, p) for f, (y, p) in zip(flip, labels)]
        ls = LabeledSet([y for y, _ in labels], np.array([p for _, p in labels]), idxs if chance(r, .5) else batch.index)
        before = len(fits) if fits is not None else 0
        try:
            guarded(ctx, faults.get((step, 'update')), b, lambda: mgr.update(ls), 'update')
            fitted = mgr.is_exploration_phase
            if failed:
                ctx.probe('continued-after-failure')
        except BaseException as e:
            if not is_injected(e):
                raise
            failed, fitted = True, False
            ctx.probe('failed-update')
            # the batch was either recorded completely or not at all
            with Judging('dataset'):
                there = set(data.labeled.index.tolist()) & set(idxs)
                ctx.check(there in (set(), set(idxs)), 'half-recorded-batch', lambda: '{} of {}'.format(there, idxs))
            ctx.log('failed-update', bool(there))
            if not there:
                check_data(ctx, ledger, data, None, name, partial_learner, False)
                continue
            if mgr.is_exploration_phase:  # the user fits again before going on
                b.learner.fit_data(data)
                fitted = True
        ledger.add(idxs, [y for y, _ in labels], [p for _, p in labels])
        check_data(ctx, ledger, data, fits, name, partial_learner, fitted)
        if len(idxs) > 1:
            ctx.probe('batch')
        ctx.log('step', step, initial, idxs)
        ctx.state(name, initial, len(idxs), len(ledger.given), failed)


def guarded(ctx, fault, b, call, where):
    if fault is None:
        return call()
    from ..kernel import FAULTS, LINES
    if fault['how'] == 'line':
        LINES.arm(fault['line'], FAULTS['interrupt'](), MASK)
        try:
            return call()
        finally:
            LINES.disarm()
            if LINES.fired_at:
                ctx.fault('interrupt@line')
                ctx.log('interrupted', LINES.fired_at)
    names = ['fit', 'fit_data'] if where == 'update' else ['rank', 'next_points_to_label', '_select_next']
    name = names[fault['seed'] % len(names)]
    if not hasattr(b.learner, name):
        return call()
    after = bool(fault['seed'] // 8 % 2)
    original = getattr(b.learner, name)

    def failing(*a, **k):
        if after:
            original(*a, **k)
        ctx.fault('{}@{}'.format(fault['kind'], name))
        raise FAULTS[fault['kind']]()

    had = name in b.learner.__dict__
    setattr(b.learner, name, failing)
    try:
        return call()
    finally:
        if had:
            setattr(b.learner, name, original)
        else:
            delattr(b.learner, name)
