""" C15: a dual space session uses what is already known before asking """
from collections import Counter

import numpy as np

from .. import dsm_world, world
from ..world import Judging

ID = 'C15'
RUNS = {'quick': 3600, 'thorough': 50000}
BUDGET = 3_000_000
MIN_EVENTS = 3
LEVEL = 'exploration'
RULE = ('Sessions of the dual space model, plain and factorized, over users with convex, co-convex, noisy or random interests and flipped answers, so that polytope models become invalid in the middle of a session; part '
        'of them with failures of the inner learner and interrupts. After every step the three partitions, the points asked and the training sets of the inner learner are compared with the '
        'current knowledge, and the knowledge with an exact model of all the answers given.')
STATE_MEASURE = 'modes, labeled, inferred and unknown counts'
REAL = ['DualSpaceModel, FactorizedDualSpaceModel', 'polytope models, hulls and cones, Qhull', 'ExplorationManager', 'PartitionedDataset', 'SimpleMargin, RandomSampler, KernelVersionSpace']
STUBS = ['one-nearest-neighbour inner learner (part of the runs)', 'the user']
ASSUMPTIONS = ['data lies on dyadic grids of up to 3 dimensions', 'a step which failed is retried', 'while the answers do not span the space yet, knowing less than what they imply is accepted']
NEEDS_EXT = False
LISTS = ['w.faults']
NUMBERS = {'w.steps': 1, 'w.n': 4}
SIMPLE = {'w.subsampling': None, 'w.index.style': 'range', 'w.scale': 1., 'w.offset': 0, 'w.noise': 0}
MUST_REACH = ['factorized', 'plain', 'conflict', 'still-valid-after-conflict', 'extra-labels', 'extra-labels-dropped', 'asked-while-unknown', 'asked-known-when-nothing-else', 'inferred', 'noise', 'after-failure', 'batch',
              'subspace-lost', 'invalid', 'exact-knowledge', 'multi-step-initial', 'interrupted-first-update', 'labeled-without-user', 'extra-labels-kept', 'predictions', 'predictions-when-invalid', 'mixed-predictions']


def generate(rng, tier):
    w = dsm_world.generate(rng, ['convex', 'convex', 'coconvex', 'noisy', 'random'], noise=True)
    if w['inner']['name'] == 'kvs':  # contradictory labels leave no classifier to sample
        w['inner']['name'] = 'simple'
    return {'w': w}


def execute(plan, ctx):
    w = plan['w']
    ctx.probe('factorized' if w['factorized'] else 'plain')
    state = {'failed': False, 'pred': None, 'valid': True, 'max_extra': 0, 'before': None, 'extras': {}, 'selected': []}

    def observe(what, arg):
        if what == 'failed':
            state['failed'] = True
            state['pred'] = None
            state['extras'] = None  # a failed step may have kept or lost what it found out
            return
        if what == 'asked':
            asked(s, ctx, state, arg)
        else:
            updated(s, ctx, state, arg)

    s = dsm_world.Session(w, ctx, observe)
    state['initial'] = 0
    # knowledge at the moment the next points are chosen
    original = s.learner.next_points_to_label

    def choosing(data, subsample=None):
        state['pred'] = s.knowledge()
        state['unknown'] = set(data.unknown.index.tolist())
        state['parts'] = (data.labeled_size, data.inferred_size, data.unknown_size)
        state['selected'] = []
        return original(data, subsample)
    s.learner.next_points_to_label = choosing

    # what the inner learner would ask
    select = s.inner._select_next

    def selecting(dataset):
        res = select(dataset)
        with Judging('selection'):
            state['selected'] += np.asarray(res.data, dtype=float).tolist()
        return res
    s.inner._select_next = selecting
    s.run()


def asked(s, ctx, state, idxs):
    data = s.data
    ctx.check(not set(idxs) & set(s.ledger.given), 'asked-twice', lambda: str(idxs))
    if len(idxs) > 1:
        ctx.probe('batch')
    if state['pred'] is None:  # initial sampling
        state['initial'] += 1
        return
    (known, valid), unknown = state['pred'], state['unknown']
    ctx.check(state['parts'] == (data.labeled_size, data.inferred_size, data.unknown_size), 'choosing-moves-points', 'choosing points changed the partitions')
    if not valid:
        return
    rows = s.problem.rows(idxs)
    undetermined = [i for i in unknown if known[s.problem.row_of[i]] == .5]
    if undetermined:
        ctx.probe('asked-while-unknown')
        ctx.check(bool((known[rows] == .5).all()), 'asked-known', lambda: 'asked {}, known as {}, while {} points are undetermined'.format(
            s.problem.X[rows].tolist(), known[rows].tolist(), len(undetermined)))
    elif not unknown:
        ctx.probe('asked-known-when-nothing-else')
    found = False
    if unknown and state['extras'] is not None:  # points which were determined already have been labeled without the user
        labels = dict(zip((tuple(x) for x in s.problem.X.tolist()), known.tolist()))
        for x in map(tuple, state['selected']):
            if labels.get(x, .5) != .5:
                found = True
                state['extras'][x] = labels[x]
    if found:
        ctx.probe('labeled-without-user')
        ctx.check(bool(s.fits), 'determined-not-trained', 'the learner would have asked determined points, and was not trained on their labels')
    if s.fits:
        check_fit(s, ctx, state, s.fits[-1], known, valid)


def check_fit(s, ctx, state, fit, known, valid):
    """ the training set of the inner learner: every label of the user, plus labels which the knowledge supports """
    X, y = fit
    with Judging('training'):
        ctx.check(len(X) == len(y) and y.ndim == 1, 'training-shape', lambda: '{} {}'.format(X.shape, y.shape))
        got = Counter((tuple(map(float, x)), float(l)) for x, l in zip(X, y))
    want = Counter((tuple(s.problem.X[s.problem.row_of[i]].tolist()), v[0]) for i, v in s.ledger.given.items())
    if state['extras'] is not None:
        if state['extras']:
            E = np.array(list(state['extras']))
            sup = np.array(s.learner.polytope_model.predict(E), dtype=float)
            dropped = [x for x, v in zip(list(state['extras']), sup) if v != state['extras'][x]]
            for x in dropped:
                del state['extras'][x]
            if state['extras']:
                ctx.probe('extra-labels-kept')
        lost = [x for x, v in state['extras'].items() if (x, v) not in got]
        ctx.check(not lost, 'determined-label-lost', lambda: 'determined labels missing from the training set: {}'.format(lost[:4]))
    missing = want - got
    ctx.check(not missing, 'label-not-trained', lambda: 'labels of the user missing from the training set: {}'.format(list(missing)[:4]))
    extra = got - want
    if not extra:
        if state['max_extra']:
            ctx.probe('extra-labels-dropped')
        state['max_extra'] = 0
        return
    ctx.probe('extra-labels')
    state['max_extra'] = max(state['max_extra'], sum(extra.values()))
    E = np.array([k[0] for k in extra])
    labels = np.array([k[1] for k in extra])
    have = {tuple(x) for x in s.problem.X.tolist()}
    ctx.check(all(tuple(e) in have for e in E.tolist()), 'extra-not-data', lambda: str(E[:3]))
    sup = np.array(s.learner.polytope_model.predict(E), dtype=float)
    bad = np.where(sup != labels)[0]
    ctx.check(len(bad) == 0, 'extra-label-unsupported', lambda: 'trained on label {} for {}, the knowledge says {} (valid {})'.format(labels[bad[0]], E[bad[0]].tolist(), sup[bad[0]], valid))


def updated(s, ctx, state, idxs):
    data, problem = s.data, s.problem
    state['pred'] = None
    labeled, inferred, unknown = (set(p.index.tolist()) for p in (data.labeled, data.inferred, data.unknown))
    ctx.check(labeled == set(s.ledger.given), 'labeled-mismatch', '')
    if not s.mgr.is_exploration_phase:
        ctx.check(not inferred, 'inferred-early', 'points are inferred before both classes were seen')
        return
    if s.w['sampler'] and state['initial'] > 1:
        ctx.probe('multi-step-initial')
    known, valid = s.knowledge()
    want = set() if not valid else {i for i, r in problem.row_of.items() if i not in labeled and known[r] != .5}
    ctx.check(inferred == want, 'inferred-mismatch', lambda: 'valid {}: inferred but not known {}, known but not inferred {}'.format(
        valid, [problem.X[problem.row_of[i]].tolist() for i in inferred - want][:4], [problem.X[problem.row_of[i]].tolist() for i in want - inferred][:4]))
    if inferred:
        ctx.probe('inferred')
    if state['valid'] and not valid:
        ctx.probe('invalid')
    state['valid'] = valid
    if state['failed']:
        ctx.probe('after-failure')
        if 0 in [f['step'] for f in s.w['faults']] and s.mgr.iters and state['initial'] > 1:
            ctx.probe('interrupted-first-update')
    if s.fits:
        check_fit(s, ctx, state, s.fits[-1], known, valid)
    else:
        ctx.check(not idxs, 'not-trained', 'the inner learner was not trained after an update')
    predictions(s, ctx, known, valid)
    exact(s, ctx)


def predictions(s, ctx, known, valid):
    """ what is known, and the inner learner's opinion elsewhere """
    names = ['predict'] + ['predict_proba'] * (s.w['inner']['name'] in ('stub', 'stub_batch', 'random'))
    with Judging('predictions'):
        for name in names:
            inner = np.array(getattr(s.inner, name)(s.problem.X.copy()), dtype=float)
            got = np.array(getattr(s.learner, name)(s.problem.X.copy()), dtype=float)
            want = np.where(known == .5, inner, known) if valid else inner
            bad = np.where(got != want)[0] if name == 'predict' else np.where(~np.isclose(got, want, rtol=0, atol=1e-9))[0]
            ctx.check(got.shape == want.shape and len(bad) == 0, 'wrong-' + name, lambda: 'point {}: {} instead of {} (known {})'.format(
                s.problem.X[bad[0]].tolist(), got[bad[0]], want[bad[0]], known[bad[0]]))
    ctx.probe('predictions' if valid else 'predictions-when-invalid')
    if (known != .5).any() and (known == .5).any():
        ctx.probe('mixed-predictions')


def exact(s, ctx):
    """ the knowledge is what all the answers imply """
    pm, w = s.learner.polytope_model, s.w
    X = s.problem.X.copy()
    partial = np.array(pm.predict_partial(X) if w['factorized'] else pm.predict(X), dtype=float).reshape(s.problem.n, -1)
    lost = 0
    for k, ref in enumerate(s.reference.refs):
        part = s.problem.parts[k]
        Z = part.points[s.problem.picks[:, k]]
        valid = bool(pm.polytope_models[k].is_valid if w['factorized'] else pm.is_valid)
        states = [m.state() for m in ref.models]
        if any(c for c, _ in states):
            ctx.probe('conflict')
            if valid:
                ctx.probe('still-valid-after-conflict')
        lost += not valid
        ctx.check(valid in ref.validity(), 'validity', lambda: '{}: is_valid is {} but the answers imply {}'.format(ref.mode, valid, ref.validity()))
        answer = ref.answers(Z, valid)
        if answer is None:
            continue
        ctx.probe('exact-knowledge')
        bad = answer.violations(partial[:, k])
        ctx.check(len(bad) == 0, 'knowledge-mismatch', lambda: '{}: point {} is {}, but the answers allow {}; answers {}'.format(
            ref.mode, Z[bad[0]].tolist(), partial[bad[0], k], [(float(o[0][bad[0]]), float(o[1][bad[0]])) for o in answer.options], {str(i): v for i, v in s.ledger.given.items()}))
    if 0 < lost < len(s.reference.refs):
        ctx.probe('subspace-lost')
