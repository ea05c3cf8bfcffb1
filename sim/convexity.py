"""
Reference models of what labels imply under convexity assumptions, computed exactly on integer points (1 to 4 dimensions) by
enumerating every supporting hyperplane. Slow and simple; shares nothing with the code under test.
"""
import itertools

import numpy as np

ONE, ZERO, UNKNOWN = 1.0, 0.0, 0.5


def rank(A):
    """ affine rank of integer points """
    A = np.unique(np.asarray(A, dtype=np.int64).reshape(len(A), -1), axis=0)
    if len(A) < 2:
        return len(A) - 1
    return int(np.linalg.matrix_rank((A[1:] - A[0]).astype(float), tol=1e-6))


def det(M):
    """ integer determinants of a stack of square matrices """
    if M.shape[1] == 1:
        return M[:, 0, 0]
    return sum((-1) ** k * M[:, 0, k] * det(np.delete(M[:, 1:], k, axis=2)) for k in range(M.shape[1]))


def normals(apex, others):
    """ integer normals of the hyperplanes going through 'apex' and d - 1 of the other points """
    d = len(apex)
    D = others - apex
    if d == 1:
        return np.array([[1]], dtype=np.int64)
    if d == 2:
        N = np.stack([-D[:, 1], D[:, 0]], axis=1)
    elif d == 3:
        i, j = np.triu_indices(len(D), 1)
        N = np.cross(D[i], D[j])
    else:
        D = D[(D != 0).any(axis=1)]
        picks = np.array(list(itertools.combinations(range(len(D)), d - 1)), dtype=int).reshape(-1, d - 1)
        N = np.stack([(-1) ** k * det(np.delete(D[picks], k, axis=2)) for k in range(d)], axis=1) if len(picks) else np.zeros((0, d), dtype=np.int64)
    return N[(N != 0).any(axis=1)]


def supporting(apex, P):
    """ (N, apex) such that N.(x - apex) <= 0 for all x in P, for every hyperplane through the apex and spanned by points of P """
    N = normals(apex, P)
    side = N @ (P - apex).T
    return np.concatenate([N[(side <= 0).all(axis=1)], -N[(side >= 0).all(axis=1)]])


class Hull:
    """ conv(P) """

    def __init__(self, P):
        self.P = np.unique(P, axis=0)
        self.full = rank(self.P) == self.P.shape[1]
        if self.full:
            self.planes = [(supporting(a, self.P), a) for a in self.P]

    def contains(self, X):
        if not self.full:
            return in_degenerate(self.P, X)
        res = np.ones(len(X), dtype=bool)
        for N, a in self.planes:
            if len(N):
                res &= (N @ (X - a).T <= 0).all(axis=0)
        return res


def in_degenerate(P, X):
    """ membership in the convex hull of affinely dependent points, by non-negative least squares (grid points are well separated) """
    from scipy.optimize import nnls
    A = np.vstack([P.T, np.ones(len(P)) * 16]).astype(float)
    return np.array([nnls(A, np.append(x, 16.).astype(float))[1] < 1e-7 for x in X], dtype=bool)


class ConvexModel:
    """ what 'the region of label 1 is convex' implies: positive on conv(P); negative where v is in conv(P + x), for negative answers v """

    def __init__(self, flipped=False):
        self.flipped = flipped
        self.P, self.V = [], []

    def copy(self):
        m = ConvexModel(self.flipped)
        m.P, m.V = list(self.P), list(self.V)
        return m

    def add(self, x, y):
        (self.P if (y == 1) != self.flipped else self.V).append(tuple(int(v) for v in x))

    def state(self):
        """ -> (conflict, decided): whether the answers contradict convexity, and whether the model must know by now """
        if not self.P or not self.V:
            return False, True
        hull = Hull(np.array(self.P))
        conflict = bool(hull.contains(np.array(self.V)).any())
        return conflict, not conflict or hull.full

    def allowed(self, X):
        """ -> (required, permitted): label which must be given (nan if free), and label which is implied (0.5 if nothing is) """
        d = X.shape[1]
        required, implied = np.full(len(X), np.nan), np.full(len(X), UNKNOWN)
        pos_full = False
        if self.P:
            P = np.array(self.P)
            hull = Hull(P)
            inside = hull.contains(X)
            implied[inside] = ONE
            pos_full = hull.full
            if pos_full:
                required[inside] = ONE
            every = True
            for v in set(self.V):
                v = np.array(v)
                if rank(np.vstack([P, v[None]])) == d:
                    N = supporting(v, np.unique(P, axis=0))
                    neg = (N @ (X - v).T >= 0).all(axis=0) if len(N) else np.zeros(len(X), dtype=bool)
                    required[neg] = ZERO
                else:
                    every = False
                    neg = np.array([in_degenerate(np.vstack([P, x[None]]), v[None])[0] for x in X], dtype=bool)
                implied[neg] = ZERO
            if pos_full and every:
                required[np.isnan(required)] = UNKNOWN
        else:
            for v in self.V:
                implied[(X == np.array(v)).all(axis=1)] = ZERO
        required[implied == UNKNOWN] = UNKNOWN  # never more than what is implied
        if self.flipped:
            required, implied = 1 - required, 1 - implied
        return required, implied


class CategoricalModel:
    def __init__(self):
        self.pos, self.neg = set(), set()

    def copy(self):
        m = CategoricalModel()
        m.pos, m.neg = set(self.pos), set(self.neg)
        return m

    def add(self, x, y):
        (self.pos if y == 1 else self.neg).add(int(np.argmax(x)))

    def state(self):
        return bool(self.pos & self.neg), True

    def allowed(self, X):
        c = np.argmax(X, axis=1)
        r = np.array([ONE if v in self.pos else ZERO if v in self.neg else UNKNOWN for v in c])
        return r, r


class MultiSetModel:
    """ a point is positive when all its items are; every negative point holds a negative item """

    def __init__(self):
        self.pos, self.negs = set(), []

    def copy(self):
        m = MultiSetModel()
        m.pos, m.negs = set(self.pos), list(self.negs)
        return m

    def add(self, x, y):
        items = frozenset(int(i) for i in np.where(np.asarray(x) > 0)[0])
        if y == 1:
            self.pos |= items
        else:
            self.negs.append(items)

    def state(self):
        return any(n <= self.pos for n in self.negs), True

    def allowed(self, X):
        neg = {i for n in self.negs for i in n - self.pos if len(n - self.pos) == 1}
        r = []
        for x in X:
            items = {int(i) for i in np.where(x > 0)[0]}
            r.append(ZERO if items & neg else ONE if items and items <= self.pos else UNKNOWN)
        r = np.array(r)
        return r, r


class Answer:
    """ the set of predictions permitted for each point """

    def __init__(self, options):
        self.options = options  # list of (required, implied)

    def violations(self, pred):
        bad = np.ones(len(pred), dtype=bool)
        for required, implied in self.options:
            ok = np.where(np.isnan(required), (pred == UNKNOWN) | (pred == implied), pred == required)
            bad &= ~ok
        return np.where(bad)[0]


def free(n):
    return np.full(n, UNKNOWN), np.full(n, UNKNOWN)


class Reference:
    """ the reference of one polytope: 'positive', 'negative', 'persist', 'categorical' or 'multiset' """

    def __init__(self, mode):
        self.mode = mode
        self.models = {'positive': [ConvexModel()], 'negative': [ConvexModel(True)], 'persist': [ConvexModel(), ConvexModel(True)],
                       'categorical': [CategoricalModel()], 'multiset': [MultiSetModel()]}[mode]

    def copy(self):
        r = Reference(self.mode)
        r.models = [m.copy() for m in self.models]
        return r

    def add(self, X, y):
        for x, l in zip(X, y):
            for m in self.models:
                m.add(x, l)

    def validity(self):
        """ -> set of the permitted values of is_valid """
        out = None
        for m in self.models:
            conflict, decided = m.state()
            mine = {not conflict} if decided else {True, False}
            out = mine if out is None else {a or b for a in out for b in mine}
        return out

    def answers(self, X, is_valid):
        """ predictions permitted, given whether the code says it is still valid """
        if not is_valid:
            return Answer([free(len(X))])
        options = []
        for m in self.models:
            conflict, decided = m.state()
            if not conflict:
                options.append(m.allowed(X))
                break
            if not decided:
                return None  # the contradiction may not have been noticed yet
        return Answer(options) if options else None


def real_valued(kind, d, n, r):
    """ -> points which are not on a grid, and a convex region which separates them by a clear margin """
    X = r.uniform(size=(n, d))
    if kind == 'normal':
        X = r.normal(size=(n, d)) * 10
    elif kind == 'offset':
        X = 100 * X + 1000
    elif kind == 'mixed':
        X = X * 10. ** r.randint(-4, 4, size=d)
    elif kind == 'rounded':
        X = np.round(X, 1)
    Z = (X - X.mean(axis=0)) / (X.std(axis=0) + 1e-300)
    shape, center = r.randint(3), Z[r.randint(n)]
    s = np.abs(Z - center).max(axis=1) if shape == 0 else Z @ r.normal(size=d) if shape == 1 else np.square(Z - center).sum(axis=1)
    order = np.sort(s)
    wide = [k for k in range(1, n) if order[k] - order[k - 1] > 1e-5 * max(1, np.abs(s).max())]
    if not wide:
        return X, np.ones(n, dtype=bool)
    k = wide[r.randint(len(wide))]
    return X, s <= order[k - 1]


class Part:
    """ one subspace: its points, and the user's labels for them """

    def __init__(self, spec, plan):
        self.mode, self.d = spec['mode'], spec['d']
        r = np.random.RandomState(spec['seed'] & 0x7fffffff)
        g = max(2, plan['grid'])
        if self.mode == 'categorical':
            self.points = np.eye(self.d, dtype=np.int64)
            truth = r.uniform(size=self.d) < .5
        elif self.mode == 'multiset':
            self.points = np.array([[int(b) for b in np.binary_repr(k, self.d)] for k in range(1, 2 ** self.d)], dtype=np.int64)
            good = r.uniform(size=self.d) < .6
            truth = ~(self.points[:, ~good] > 0).any(axis=1)
        elif plan.get('real'):
            self.points, truth = real_valued(plan['real'], self.d, plan['n'], r)
            truth = truth if self.mode != 'negative' else ~truth
        else:
            if plan.get('scatter'):  # in general position
                g = plan['scatter']
                self.points = np.unique(r.randint(0, g, size=(40, self.d)), axis=0)
                self.points = self.points[r.permutation(len(self.points))]
            else:
                self.points = np.stack(np.meshgrid(*[np.arange(g)] * self.d, indexing='ij'), axis=-1).reshape(-1, self.d)
            Z = self.points
            kind = r.randint(3)
            if kind == 0:
                truth = (np.abs(Z - Z[r.randint(len(Z))]) <= r.randint(0, g, size=self.d)).all(axis=1)
            elif kind == 1:
                n = r.randint(-3, 4, size=self.d)
                truth = Z @ n <= (Z @ n)[r.randint(len(Z))]
            else:
                truth = np.square(Z - Z[r.randint(len(Z))]).sum(axis=1) <= r.randint(0, g * g)
            truth = truth if self.mode != 'negative' else ~truth
        if spec['concept'] == 'coconvex':
            truth = ~truth
        elif spec['concept'] == 'noisy':
            truth = truth ^ (r.uniform(size=len(truth)) < .1)
        elif spec['concept'] == 'random':
            truth = r.uniform(size=len(truth)) < .5
        self.truth = truth.astype(float)
        self.convex = self.mode in ('positive', 'negative', 'persist')
        self.scale, self.offset = (plan['scale'], plan['offset']) if self.convex and not plan.get('real') else (1., 0)
        test = self.points
        if len(test) > 130:
            test = test[np.sort(r.choice(len(test), 130, replace=False))]
        if self.convex:  # and points outside the grid
            test = np.vstack([test, r.randint(-g, 2 * g, size=(12, self.d))])
        self.test = test

    def real(self, Z):
        return Z * self.scale + self.offset if self.convex else Z.astype(float)
