""" C10: initial samples obey their contract before active learning starts """
import random

import numpy as np

from .. import session, world
from ..session import Ledger
from ..world import Judging, LEARNERS

ID = 'C10'
RUNS = {'quick': 2700, 'thorough': 60000}
BUDGET = 4_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sampler runs draw up to 150 samples under seeded generators from datasets in all states; session runs follow the phases of whole explorations and compare the points presented '
        'in each phase with what the sampler and the learner returned.')
STATE_MEASURE = 'sampler, parameters, class counts; phases of sessions'
REAL = ['initial samplers', 'ExplorationManager', 'PoolBasedExploration', 'PartitionedDataset', 'learners']
STUBS = ['one-nearest-neighbour learner (part of the runs)', 'the user']
ASSUMPTIONS = ['requested class counts exist in the dataset; fixed samples hold both classes']
NEEDS_EXT = False
LISTS = []
NUMBERS = {'session.problem.data.n': 4, 'draws': 1, 'problem.data.n': 4}
SIMPLE = {'session.subsampling': None, 'session.problem.index.style': 'range', 'problem.index.style': 'range'}
MUST_REACH = ['stratified', 'stratified-all-subspaces', 'random', 'fixed', 'session', 'long-initial-phase', 'moved', 'oversized', 'all-points-reached']
NAMES = ['stub', 'stub', 'stub_batch', 'random', 'simple', 'dsm_stub', 'fdsm_stub', 'dsm', 'ssm', 'uncertainty', 'qbd']


def generate(rng, tier):
    if rng.random() < .5:
        s = session.gen_session(rng, NAMES, n=(5, 24), parts=rng.choice([None, None, 2]))
        if s['learner']['name'] not in ('ssm', 'svs') and rng.random() < .8:
            s['sampler'] = rng.choice([{'kind': 'stratified', 'pos': rng.randint(1, 4), 'neg': rng.randint(1, 4), 'all': rng.random() < .5}, {'kind': 'random', 'size': rng.choice([1, 1, 2, 4])},
                                       {'kind': 'fixed', 'seed': rng.getrandbits(31)}])
        s['max_iter'] = min(s['max_iter'], 20)
        s['problem']['concept']['ratio'] = rng.choice([.05, .1, .3, .9, .95])
        return {'mode': 'session', 'session': s}
    parts = rng.choice([1, 1, 2, 3])
    return {'mode': 'sampler', 'problem': world.gen_problem(rng, None, (4, 40) if rng.random() < .95 else (200, 300), (max(1, parts), 4), parts), 'kind': rng.choice(['stratified', 'stratified', 'random', 'fixed']),
            'pos': rng.randint(1, 6), 'neg': rng.randint(1, 6), 'all': rng.random() < .5, 'draws': rng.choice([1, 5, 150, 150]), 'size': rng.choice([1, 2, 5, 60]),
            'moves': rng.getrandbits(31), 'ratio': rng.choice([None, .05, .95])}


def execute(plan, ctx):
    (sampling if plan['mode'] == 'sampler' else phases)(plan, ctx)


def sampling(plan, ctx):
    import aideme
    from aideme.explore import PartitionedDataset
    if plan['ratio']:
        plan['problem']['concept']['ratio'] = plan['ratio']
    p = world.Problem(plan['problem'])
    ls = p.labeled_set()
    data = PartitionedDataset(p.X, p.ids, copy=True)
    r = random.Random(plan['moves'])
    ids = p.ids.tolist()
    positives = {i for i in ids if p.y[p.row_of[i]] == 1}
    negatives = set(ids) - positives
    none = {i for i in ids if not p.partial[p.row_of[i]].any()}
    kind = plan['kind']
    if kind == 'stratified':
        pool = none if plan['all'] else negatives
        pos, neg = min(plan['pos'], len(positives)), min(plan['neg'], len(pool))
        if not pos or not neg:
            return ctx.log('impossible')
        sampler = aideme.stratified_sampler(ls, **world.stratified_args(pos, neg, plan['all']))
        ctx.probe('stratified-all-subspaces' if plan['all'] else 'stratified')
    elif kind == 'random':
        sampler = aideme.random_sampler(plan['size'])
    else:
        fixed = r.sample(ids, r.randint(1, min(6, p.n)))
        sampler = aideme.fixed_sampler(list(fixed))
    ctx.probe(kind)
    seen = set()
    labeled = set()
    for k in range(plan['draws']):
        got = sampler(data)
        with Judging('sample'):
            got = [g.item() if hasattr(g, 'item') else g for g in got]
        ctx.check(len(set(got)) == len(got), 'repeated-point', lambda: str(got))
        ctx.check(set(got) <= set(ids), 'alien-point', lambda: str(got))
        if kind == 'stratified':
            ctx.check(len(positives & set(got)) == pos and len(pool & set(got)) == neg and len(got) == pos + neg, 'not-stratified',
                      lambda: 'asked {}+{}, got {} of positives {} negatives {}'.format(pos, neg, got, positives, pool))
        elif kind == 'random':
            left = set(ids) - labeled
            ctx.check(len(got) == min(plan['size'], len(left)), 'wrong-size', lambda: '{} of {}'.format(got, left))
            ctx.check(set(got) <= left, 'labeled-point-sampled', lambda: '{} {}'.format(got, labeled))
            if plan['size'] > len(left):
                ctx.probe('oversized')
        else:
            ctx.check(got == fixed, 'not-fixed', lambda: '{} {}'.format(got, fixed))
        with Judging('rows'):  # the dataset finds every sampled point
            ctx.check(np.array_equal(data.from_index(got).data, p.X[p.rows(got)]), 'wrong-rows', lambda: str(got))
        seen |= set(got)
        ctx.log('draw', got)
        if kind != 'stratified' and k == 0 and p.n > 6 and r.random() < .6:  # the dataset moves on
            from aideme.explore import LabeledSet
            some = r.sample(ids, r.randint(1, p.n // 2))
            data.move_to_labeled(LabeledSet([1] * len(some), index=some))
            labeled = set(some)
            rest = [i for i in ids if i not in labeled]
            data.move_to_inferred(r.sample(rest, r.randint(0, len(rest) // 2)))
            seen -= labeled
            ctx.probe('moved')
    ctx.state(kind, plan['size'], plan['pos'], plan['neg'], plan['all'], len(positives), len(negatives))
    if plan['draws'] == 150 and kind != 'fixed':  # each admissible point is drawn at last: it is missed with probability below 1e-8
        if kind == 'stratified':
            groups = [(g, q) for g, q in ((positives, pos), (pool, neg))]
        else:
            groups = [(set(ids) - labeled, plan['size'])]
        for g, q in groups:
            if len(g) and (1 - min(1, q / len(g))) ** 140 * len(g) < 1e-8:
                ctx.check(g <= seen, 'unreachable-point', lambda: '{} never sampled in 150 draws'.format(g - seen))
                ctx.probe('all-points-reached')


def phases(plan, ctx):
    s = plan['session']
    b = session.build(s, ctx)
    ctx.probe('session')
    ledger = Ledger(ctx, b.problem)
    asked, sampled, fits = [], [], []
    original = b.learner.next_points_to_label

    def spy(data, subsample=None):
        res = original(data, subsample)
        asked.append(res.index.tolist())
        return res
    b.learner.next_points_to_label = spy
    fit = b.learner.fit_data

    def spy_fit(data):
        fits.append(data.labeled_size)
        return fit(data)
    b.learner.fit_data = spy_fit
    if b.sampler is not None:
        inner = b.sampler

        def sampler(data):
            res = inner(data)
            sampled.append([g.item() if hasattr(g, 'item') else g for g in res])
            return res
        b.sampler = sampler
    run = next(iter(session.exploration(b, s).run(b.problem.X, b.labels, b.learner, seeds=s['np_seed'])))
    over = s['sampler'] is None
    initial = 0
    for m in run:
        with Judging('record'):
            idxs, phase = m['labeled_indexes'], m['phase']
            ctx.check(phase == ('exploration' if over else 'initial_sampling'), 'wrong-phase', lambda: '{} although both classes {}'.format(phase, over))
            if over:
                ctx.check(asked == [idxs] and not sampled, 'not-the-learners-choice', lambda: '{} {} {}'.format(idxs, asked, sampled))
            else:
                initial += 1
                ctx.check(sampled == [idxs] and not asked, 'not-the-samplers-choice', lambda: '{} {} {}'.format(idxs, asked, sampled))
            ledger.add(idxs, m['labels'], [np.ravel(q) for q in m['partial_labels']])
        if not over and s['sampler']['kind'] == 'stratified' and initial == 1:
            ctx.check(len({v[0] for v in ledger.given.values()}) == 2, 'one-class-stratified', lambda: str(ledger.given))
        over = over or len({v[0] for v in ledger.given.values()}) == 2
        ctx.check(fits == ([len(ledger.given)] if over else []), 'learner-trained-in-wrong-phase', lambda: '{} with {} labeled, both classes {}'.format(fits, len(ledger.given), over))
        asked.clear(), sampled.clear(), fits.clear()
        ctx.log('iter', phase, idxs)
        ctx.state('session', s['sampler'] and s['sampler']['kind'], phase, len(idxs), initial)
    if initial > 1:
        ctx.probe('long-initial-phase')
    if s['sampler'] and s['sampler']['kind'] in ('stratified', 'fixed'):
        ctx.check(initial == 1, 'initial-phase-too-long', lambda: str(initial))
