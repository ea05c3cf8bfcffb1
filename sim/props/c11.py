""" C11: label noise flips only what it may, when it may """
import random

import numpy as np

from .. import session, world
from ..session import Ledger
from ..world import Judging, chance

ID = 'C11'
RUNS = {'quick': 2700, 'thorough': 60000}
BUDGET = 4_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions with seeded noise of all probabilities and skips, initial phases of all lengths and partial labels; and single injectors on many random label sets, including '
        'the frequency of flips over thousands of labels (bounds of six standard deviations).')
STATE_MEASURE = 'noise, skip, phase, number of partial labels, flips per batch'
REAL = ['noise injector', 'PoolBasedExploration', 'ExplorationManager', 'PartitionedDataset', 'LabeledSet']
STUBS = ['one-nearest-neighbour learner (most runs)', 'the user']
ASSUMPTIONS = ['the user\'s own final label is the minimum of the partial labels']
NEEDS_EXT = False
LISTS = []
NUMBERS = {'session.problem.data.n': 4, 'session.max_iter': 1, 'noise_skip': 0}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range'}
MUST_REACH = ['session', 'injector', 'flipped', 'kept', 'partial', 'skipped', 'initial-phase', 'frequency', 'flip-0-1-partial', 'flip-1-0-partial', 'always', 'never']


def generate(rng, tier):
    noise = rng.choice([0., 0., .1, .5, .9, 1., 1.])
    skip = rng.choice([0, 0, 1, 2, 5])
    if rng.random() < .6:
        s = session.gen_session(rng, ['stub', 'stub', 'stub_batch', 'random', 'dsm_stub'], n=(6, 26), d=(2, 4), parts=rng.choice([None, 2, 3]))
        s['max_iter'] = min(s['max_iter'], 20)
        return {'mode': 'session', 'session': s, 'noise': noise, 'noise_skip': skip, 'repeat': rng.choice([1, 1, 2])}
    return {'mode': 'injector', 'noise': noise, 'noise_skip': skip, 'parts': rng.choice([1, 1, 2, 3]), 'size': rng.choice([1, 2, 8, 64, 4000]), 'rseed': rng.getrandbits(31), 'calls': rng.choice([1, 3])}


def check_flips(ctx, noise, ids, labels, partial, noisy, noisy_partial):
    """ labels, partial: the user's; noisy, noisy_partial: what the injector made of them -> number of flips """
    flips = 0
    ctx.check(len(noisy) == len(labels) == len(noisy_partial), 'noise-shape', '')
    for i, y, p, ny, np_ in zip(ids, labels, partial, noisy, noisy_partial):
        ctx.check(ny in (0, 1) and all(v in (0, 1) for v in np_), 'noise-not-binary', lambda: '{} {}'.format(ny, np_))
        ctx.check(len(np_) == len(p), 'noise-partial-shape', '')
        if ny == y:
            ctx.check(noise < 1, 'noise-kept', lambda: 'label of {} not flipped at probability 1'.format(i))
            ctx.check(list(np_) == list(p), 'partial-changed-without-flip', lambda: '{}: {} became {}'.format(i, p, np_))
            ctx.probe('kept')
            continue
        flips += 1
        ctx.check(noise > 0, 'noise-flipped', lambda: 'label of {} flipped at probability 0'.format(i))
        ctx.check(min(np_) == ny, 'partial-disagrees', lambda: 'label {} of {} has partial labels {}'.format(ny, i, np_))
        ctx.probe('flipped')
        if len(p) > 1:
            ctx.probe('flip-0-1-partial' if ny == 1 else 'flip-1-0-partial')
    return flips


def execute(plan, ctx):
    ctx.probe(plan['mode'])
    if plan['noise'] in (0, 1):
        ctx.probe('always' if plan['noise'] else 'never')
    (run_session if plan['mode'] == 'session' else injector)(plan, ctx)


def injector(plan, ctx):
    from aideme.explore import LabeledSet
    from aideme.utils.noise import random_noise_injector
    r = np.random.RandomState(plan['rseed'])
    noise, n, parts = plan['noise'], plan['size'], plan['parts']
    partial = (r.uniform(size=(n, parts)) < .7).astype(float)
    labels = partial.min(axis=1)
    ids = r.permutation(3 * n)[:n]
    inj = random_noise_injector(noise, plan['noise_skip'])
    if parts > 1:
        ctx.probe('partial')
    for it in range(plan['noise_skip'] + 2 + plan['calls']):
        ls = LabeledSet(labels.copy(), partial.copy() if parts > 1 else None, ids.copy())
        res = inj(it, ls)
        with Judging('noise'):
            ctx.check(np.array_equal(ls.labels, labels) and np.array_equal(ls.partial, partial if parts > 1 else labels.reshape(-1, 1)) and np.array_equal(ls.index, ids),
                      'user-answer-modified', '')
            ctx.check(np.array_equal(res.index, ids), 'noise-index', '')
            if it <= plan['noise_skip']:
                if it < plan['noise_skip'] or it > 0:
                    ctx.check(np.array_equal(res.labels, labels) and np.array_equal(res.partial, ls.partial), 'noise-too-early', lambda: 'iteration {} skip {}'.format(it, plan['noise_skip']))
                    ctx.probe('skipped')
                continue
            flips = check_flips(ctx, noise, ids, labels, ls.partial.tolist(), res.labels, res.partial.tolist())
        if 0 < noise < 1 and n >= 64:
            sd = (n * noise * (1 - noise)) ** .5
            ctx.check(abs(flips - n * noise) <= 6.5 * sd, 'noise-frequency', lambda: '{} flips of {} at probability {}'.format(flips, n, noise))
            ctx.probe('frequency')
        ctx.log('call', it, flips)
        ctx.state('injector', noise, plan['noise_skip'], parts, n, flips)


def run_session(plan, ctx):
    from aideme.utils.noise import random_noise_injector
    s, noise, skip = plan['session'], plan['noise'], plan['noise_skip']
    b = session.build(s, ctx)
    user = (b.labels.labels.tolist(), b.labels.partial.tolist(), b.labels.index.tolist())
    seen = {}
    expl = session.exploration(b, dict(s, skip=1), [lambda data, learner: seen.update(data=data)], noise=random_noise_injector(noise, skip))
    if len(b.labels.partial[0]) > 1:
        ctx.probe('partial')
    for run in expl.run(b.problem.X, b.labels, b.learner, repeat=plan['repeat'], seeds=[s['np_seed'], s['np_seed'] // 3][:plan['repeat']]):
        ledger = Ledger(ctx, b.problem)
        it = explored = 0
        for m in run:
            it += 1
            with Judging('record'):
                idxs, initial = m['labeled_indexes'], m['phase'] != 'exploration'
                labels = [ledger.truth(i)[0] for i in idxs]
                partial = [ledger.truth(i)[1] for i in idxs]
                used = seen['data'].labeled_set.get_index(idxs)
                ctx.check(m['labels'] == labels and [[float(v) for v in np.ravel(p)] for p in m['partial_labels']] == partial, 'record-labels', '')
                explored += not initial
                got = (used.labels.tolist(), used.partial.tolist())
                must_skip = initial or (it - 1 <= skip if s['sampler'] else it <= skip)
                must_noise = not initial and it - 1 > skip and (explored > skip)
                if must_skip:
                    ctx.check(got == (labels, partial), 'noise-too-early', lambda: 'iteration {} ({}) skip {}'.format(it, m['phase'], skip))
                    ctx.probe('initial-phase' if initial else 'skipped')
                if not initial and 'noisy_labels' in m:
                    ctx.check((m['noisy_labels'], [list(np.ravel(p)) for p in m['noisy_partial_labels']]) == got, 'noisy-record', lambda: '{} {}'.format(m, got))
                flips = 0
                if not must_skip:
                    flips = check_flips(ctx, noise if must_noise else .5, idxs, labels, partial, *got)
            ledger.add(idxs, got[0], got[1])
            with Judging('dataset'):
                X, y = seen['data'].training_set()
                ledger.verify_training(X, y, 'noisy-training-set')
                ctx.check((b.labels.labels.tolist(), b.labels.partial.tolist(), b.labels.index.tolist()) == user, 'user-answer-modified', '')
            ctx.log('iter', it, m['phase'], idxs, got)
            ctx.state('session', noise, skip, m['phase'], len(partial[0]), flips, len(idxs))
