""" Reference model of the partitioned dataset (a dict from index to partition, and a dict of labels), and its comparison with the real one. """
import random

from collections import Counter

import numpy as np

from .world import Judging, arr_bytes

L, I, U = 'labeled', 'inferred', 'unknown'


class Model:
    def __init__(self, ids, X, parts):
        self.ids, self.X, self.parts = list(ids), X, parts
        self.row = {idx: i for i, idx in enumerate(self.ids)}
        self.clear()

    def clear(self):
        self.where = {i: U for i in self.ids}
        self.labels = {}
        self.last = []

    def members(self, *names):
        return [i for i in self.ids if self.where[i] in names]

    def move(self, idxs, to, labels=None):
        for k, i in enumerate(idxs):
            self.where[i] = to
            self.labels.pop(i, None)
            if labels is not None:
                self.labels[i] = labels[k]
        if to == L:
            self.last = list(idxs)

    def sizes(self):
        return tuple(len(self.members(p)) for p in (L, I, U))


def gen_ops(rng, n_ops, n, bad=()):
    ops = []
    for _ in range(n_ops):
        op = rng.choices(['label', 'infer', 'forget', 'flush', 'clear', 'read'] + list(bad), [6, 5, 4, 1, .4, 1.5] + [2.5] * len(bad))[0]
        ops.append({'op': op, 'seed': rng.getrandbits(31), 'k': rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 8]), 'style': rng.choice(STYLES)})
    return ops


STYLES = ['list', 'array', 'view', 'iter', 'tuple', 'objects']


def as_argument(ds, idxs, style, r, where=None):
    """ the ways callers pass indexes: lists, arrays, one-shot iterators, and live views of the dataset's own index """
    if style == 'array':
        return np.array(idxs) if len(idxs) else np.array([], dtype=ds.index.dtype)
    if style == 'iter':
        return iter(list(idxs))
    if style == 'tuple':
        return tuple(idxs)
    if style == 'objects':
        return [ds.index[np.where(ds.index == i)[0][0]] for i in idxs]
    return list(idxs)


def live_view(ds, where, r, k):
    """ a live slice of the dataset's own index array (what library code itself passes around) """
    part = getattr(ds, where).index
    if len(part) == 0:
        return None
    a = r.randrange(len(part))
    b = min(len(part), a + max(1, k))
    step = r.choice([1, 1, -1])
    return part[a:b][::step]


def new_labels(model, idxs, r, kind):
    if model.parts == 1:
        return [[float(r.randrange(2))] for _ in idxs]
    return [[float(r.randrange(2)) for _ in range(model.parts)] for _ in idxs]


def labeled_set(model, idxs, labels, style='list'):
    from aideme.explore import LabeledSet
    y = [min(p) for p in labels]
    if style in ('array', 'view'):
        y = np.array(y, dtype=int)
    partial = np.array(labels) if model.parts > 1 else None
    return LabeledSet(y, partial, idxs)


def same_rows(ctx, model, part, what):
    with Judging(what):
        ids = part.index.tolist()
        ctx.check(len(part.data) == len(ids) == len(part), 'partition-shape', what)
        for k, i in enumerate(ids):
            ctx.check(i in model.row, 'alien-index', lambda: '{}: {}'.format(what, i))
            ctx.check(np.array_equal(part.data[k], model.X[model.row[i]]), 'row-mismatch',
                      lambda: '{}: index {} holds row {} instead of {}'.format(what, i, part.data[k], model.X[model.row[i]]))
        return ids


def verify(ctx, ds, model, r=None):
    with Judging('dataset'):
        got = {}
        for name in (L, I, U):
            got[name] = same_rows(ctx, model, getattr(ds, name), name)
        for name in (L, I, U):
            want = model.members(name)
            ctx.check(sorted(got[name]) == sorted(want), 'partition-mismatch',
                      lambda: '{} holds {} instead of {}'.format(name, sorted(got[name]), sorted(want)))
        unl = same_rows(ctx, model, ds.unlabeled, 'unlabeled')
        ctx.check(sorted(unl) == sorted(model.members(I, U)), 'partition-mismatch', 'unlabeled')
        sizes = (ds.labeled_size, ds.inferred_size, ds.unknown_size)
        ctx.check(sizes == model.sizes(), 'size-mismatch', lambda: '{} != {}'.format(sizes, model.sizes()))
        ctx.check(ds.unlabeled_size == sizes[1] + sizes[2] and len(ds) == len(model.ids), 'size-mismatch', 'total')
        every = ds.index.tolist()
        ctx.check(sorted(every) == sorted(model.ids), 'index-lost', 'the dataset index is no longer a permutation of the original')
        for k, i in enumerate(every):
            ctx.check(np.array_equal(ds.data[k], model.X[model.row[i]]), 'row-mismatch', lambda: 'data row of index {}'.format(i))

        X, y = ds.training_set()
        Xp, p = ds.training_set(get_partial=True)
        ls = ds.labeled_set
        ctx.check(len(X) == len(y) == len(p) == sizes[0] == len(ls), 'training-set-size',
                  lambda: '{} rows, {} labels, {} partial labels, {} labeled'.format(len(X), len(y), len(p), sizes[0]))
        for k, i in enumerate(got[L]):
            want = model.labels[i]
            ctx.check(np.array_equal(X[k], model.X[model.row[i]]) and y[k] == min(want), 'label-mismatch',
                      lambda: 'index {} has label {} instead of {}'.format(i, y[k], min(want)))
            if model.parts > 1:
                ctx.check(list(p[k]) == want, 'partial-mismatch', lambda: 'index {} has partial labels {} instead of {}'.format(i, list(p[k]), want))
        ctx.check({i: float(v) for i, v in zip(ls.index.tolist(), ls.labels)} == {i: min(v) for i, v in model.labels.items()},
                  'labeled-set-mismatch', lambda: '{} {}'.format(ls.index, ls.labels))
        if r is not None:
            some = r.sample(model.ids, min(len(model.ids), r.randint(1, 4)))
            part = ds.from_index(some)
            ctx.check(same_rows(ctx, model, part, 'from_index') == some, 'lookup-mismatch', lambda: 'asked {} got {}'.format(some, part.index))
            for name in (U, 'unlabeled', I, L):
                pool = getattr(ds, name)
                size = r.choice([None, 1, 2, len(model.ids) + 1])
                s = same_rows(ctx, model, pool.sample(size), 'sample')
                k = len(pool) if size is None else min(size, len(pool))
                ctx.check(len(s) == len(set(s)) == k and set(s) <= set(pool.index.tolist()), 'sample-mismatch', lambda: '{} {} {}'.format(name, size, s))
            size = r.choice([None, 1, 2, len(model.ids) + 1])
            rows = Counter(map(tuple, np.asarray(ds.sample(size)).tolist()))
            k = len(model.ids) if size is None else min(size, len(model.ids))
            ctx.check(sum(rows.values()) == k and not rows - Counter(map(tuple, model.X.tolist())), 'sample-mismatch', lambda: 'whole data {} {}'.format(size, rows))


def snapshot(ds):
    """ everything observable, bit by bit and in order """
    with Judging('dataset'):
        ls = ds.labeled_set
        X, y = ds.last_training_set()
        _, p = ds.last_training_set(get_partial=True)
        return (arr_bytes(ds.index.copy()), arr_bytes(ds.data.copy()), ds.labeled_size, ds.inferred_size, ds.unknown_size,
                arr_bytes(np.array(ls.index)), arr_bytes(np.array(ls.labels)), arr_bytes(np.array(ls.partial)),
                arr_bytes(np.array(X)), arr_bytes(np.array(y)), arr_bytes(np.array(p)))


def apply(ctx, ds, model, op, r):
    """ one legal operation on both the dataset and the model """
    kind, k = op['op'], op['k']
    if kind == 'clear':
        ds.clear()
        model.clear()
    elif kind == 'flush':
        ds.remove_inferred()
        for i in model.members(I):
            model.where[i] = U
    elif kind == 'read':
        pass
    else:
        to, src = {'label': (L, [I, U]), 'infer': (I, [L, U]), 'forget': (U, [L, I])}[kind]
        if op['style'] == 'view':
            arg = live_view(ds, r.choice([s for s in src]), r, k)
            if arg is None:
                return
            idxs = arg.tolist()
        else:
            if r.random() < .3:
                src = [r.choice(src)]
            pool = model.members(*src)
            idxs = r.sample(pool, min(k, len(pool)))
            arg = as_argument(ds, idxs, op['style'], r)
        if to == L:
            if not idxs:
                return
            labels = new_labels(model, idxs, r, op['style'])
            ds.move_to_labeled(labeled_set(model, arg if op['style'] == 'view' else idxs, labels, op['style']))
            model.move(idxs, L, labels)
        else:
            getattr(ds, 'move_to_inferred' if to == I else 'move_to_unknown')(arg)
            model.move(idxs, to)
    ctx.log(kind, op['style'], model.sizes())
    ctx.probe('op-' + kind)
