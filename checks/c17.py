"""C17: sprinkled points are uniformly distributed and Poisson counted."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT
from checks.c18 import shapes, Ref, make

ASSUMPTIONS = ['every statistic may fail by chance with a probability below 1e-12 (DKW inequality and Chernoff bounds, no asymptotics)',
               'deviations of less than about 5 percent of a distribution function are not visible in a sample of 4096 points',
               'single precision coordinates', 'no hollow one-dimensional cylinder']
LN = math.log(1e13)


def trivial(d):
    """a spacetime without relations, so that large samples are cheap"""
    from causets.spacetimes import Spacetime

    class Nothing(Spacetime):
        def __init__(self):
            super().__init__()
            self._dim, self._name = d, 'nothing'

        def Causality(self):
            return lambda x, y: (False, False)
    return Nothing()


def kl(o, p):
    if o <= 0: return -math.log(1 - p) if p < 1 else math.inf
    if o >= 1: return -math.log(p) if p > 0 else math.inf
    if p <= 0 or p >= 1: return math.inf
    return o * math.log(o / p) + (1 - o) * math.log((1 - o) / (1 - p))


def share(k, n, p, what):
    """k of n successes of probability p"""
    ensure(n * kl(k / n, p) <= LN, what, ': %d of %d, expected a share of %.4f' % (k, n, p))


def uniform(u, what):
    """u is a sample of the uniform distribution on [0, 1] (Kolmogorov-Smirnov with the DKW bound)"""
    n = len(u)
    v = np.sort(np.asarray(u, dtype=float))
    ensure(v[0] > -5e-3 and v[-1] < 1 + 5e-3, what, 'lies outside of its range:', float(v[0]), float(v[-1]))
    i = np.arange(n)
    D = max(np.max((i + 1) / n - v), np.max(v - i / n))
    eps = math.sqrt((LN + math.log(2)) / (2 * n)) + 5e-3
    ensure(D <= eps, what, 'deviates from its distribution by %.4f at sample size %d (bound %.4f)' % (D, n, eps))


def cells(u, k):
    return np.clip((np.asarray(u) * k).astype(int), 0, k - 1)


def independent(u, v, what, k=3):
    """the pair is uniform on the unit square"""
    c = cells(u, k) * k + cells(v, k)
    n = len(c)
    for j, m in enumerate(np.bincount(c, minlength=k * k)): share(int(m), n, 1.0 / k**2, '%s, cell %d' % (what, j))


def cap(x, d):
    """distribution function of one component of a random direction in d > 1 dimensions"""
    th = np.linspace(-math.pi / 2, math.pi / 2, 4001)
    w = np.cos(th)**(d - 2) if d > 2 else np.ones_like(th)
    c = np.concatenate(([0.0], np.cumsum((w[1:] + w[:-1]) / 2)))
    return np.interp(np.arcsin(np.clip(x, -1, 1)), th, c / c[-1])


def directions(y, what):
    """uniform variates of the directions of the vectors y"""
    n, d = y.shape
    out = []
    if d == 1:
        share(int((y[:, 0] > 0).sum()), n, 0.5, what + ': sign')
        return out
    q = y / np.sqrt((y**2).sum(axis=1))[:, None]
    for k in range(d):
        u = cap(q[:, k], d)
        uniform(u, '%s: direction component %d' % (what, k))
        out.append(u)
    o = ((y > 0) * (1 << np.arange(d))).sum(axis=1)
    for j, m in enumerate(np.bincount(o, minlength=1 << d)): share(int(m), n, 0.5**d, '%s: orthant %d' % (what, j))
    if d == 2: uniform(np.arctan2(y[:, 1], y[:, 0]) / (2 * math.pi) + 0.5, what + ': angle')
    return out


def decompose(R, x, what):
    """independent uniform variates (and sign checks) of the points"""
    y = x - np.array(R.c)
    n, d = y.shape
    U, D = [], []  # D: variates of directions, independent of those of U but not of each other
    if R.name in ('cube', 'cuboid'):
        U = [y[:, k] / (2 * R.half(k)) + 0.5 for k in range(d)]
    elif R.name == 'ball' or R.name == 'cylinder':
        if R.name == 'cylinder':
            U.append(y[:, 0] / R.T + 0.5)
            y = y[:, 1:]
        m = y.shape[1]
        if m:
            s = np.sqrt((y**2).sum(axis=1)) / R.r
            U.append((s**m - R.h**m) / (1 - R.h**m))
            D = directions(y, what)
    else:
        sp = np.sqrt((y[:, 1:]**2).sum(axis=1))
        s = (np.abs(y[:, 0]) + sp)
        U.append(((s / R.r)**d - R.h**d) / (1 - R.h**d))
        share(int((y[:, 0] > 0).sum()), n, 0.5, what + ': sign of the time')
        if d > 1:
            U.append((sp / np.maximum(s, 1e-30))**(d - 1))
            D = directions(y[:, 1:], what)
        for a in range(1, d):  # sign of time and of space are independent
            share(int(((y[:, 0] > 0) == (y[:, a] > 0)).sum()), n, 0.5, what + ': sign of the time against dimension %d' % a)
    return U, D


def sample(case, N):
    from causets.sprinkledcauset import SprinkledCauset
    s, batch = case['shape'], case['batch']
    d = s['d']
    S = make(s)
    rng = np.random.default_rng(case['seed'])
    out = []
    while len(out) < N:
        if case['how'] == 0: C = SprinkledCauset(spacetime=trivial(d), shape=S)
        else: C = SprinkledCauset(spacetime=trivial(d))
        kw = {} if case['how'] == 0 else dict(shape=S)
        if not case.get('default'): kw['rng'] = rng
        if case.get('default') == 2:     # within the constructor
            C = SprinkledCauset(spacetime=trivial(d), shape=S, **(dict(intensity=float(batch)) if case['poisson'] else dict(card=batch)))
            new = set(C)
        else: new = C.sprinkle(batch, **kw) if not case['poisson'] else C.intensify(float(batch), **kw)
        if case['poisson'] and not new: continue
        out += [[float(v) for v in e.Coordinates] for e in sorted(new, key=lambda e: int(e.Label))]
    return np.array(out)


def distribution(case, ctx):
    s = case['shape']
    R = Ref(s)
    w = '%r, batches of %d' % (s, case['batch'])
    x = sample(case, 4096)
    ensure(np.isfinite(x).all(), w, 'has coordinates that are not finite')
    U, D = decompose(R, x, w)
    for k, u in enumerate(U): uniform(u, '%s: variate %d' % (w, k))
    for k in range(len(U)):
        for j in range(k): independent(U[k], U[j], '%s: variates %d and %d' % (w, j, k))
        for j, v in enumerate(D): independent(U[k], v, '%s: variate %d and direction %d' % (w, k, j))
    for k, u in enumerate(U + D[:1]):  # successive points
        h = len(u) // 2 * 2
        independent(u[0:h:2], u[1:h:2], '%s: variate %d of successive points' % (w, k))
    B = case['batch']
    if B > 1 and not case['poisson']:     # within one request
        for k, u in enumerate(U + D[:1]):
            u = u[:len(u) // B * B].reshape(-1, B)
            for lag in {1, 2, B // 2}:
                first = range(0, B - lag, 2 * lag) if lag < B // 2 else range(B // 2)     # no point belongs to two pairs
                independent(u[:, list(first)].ravel(), u[:, [i + lag for i in first]].ravel(), '%s: variate %d of points %d apart' % (w, k, lag))
            independent(u[:, :B // 2].ravel(), u[:, ::-1][:, :B // 2].ravel(), '%s: variate %d of mirrored indices' % (w, k))
            for p in (0.5, 0.25):
                ks, c = (u < p).sum(axis=1), 0.0
                for q in range(B):
                    e = math.exp(math.lgamma(B + 1) - math.lgamma(q + 1) - math.lgamma(B - q + 1) + q * math.log(p) + (B - q) * math.log(1 - p))
                    c += e
                    share(int((ks == q).sum()), len(ks), min(e, 1 - 1e-15), '%s: exactly %d of %d points with variate %d below %g' % (w, q, B, k, p))
                    share(int((ks <= q).sum()), len(ks), min(c, 1 - 1e-15), '%s: at most %d of %d points with variate %d below %g' % (w, q, B, k, p))
    ensure(len(np.unique(x, axis=0)) > len(x) // 2, w, ': most of the points coincide')
    return s['d'] > 1


def repeats(u, what):
    """values of a sample of the uniform distribution that (nearly) coincide; a few do by chance"""
    n, g = len(u), 2e-6
    v = np.sort(np.asarray(u, dtype=float))
    k = int((np.diff(v) < g).sum())
    ensure(k <= 3 * n * n * g + 60, what, ': %d of %d values repeat others, expected are about %.1f' % (k, n, n * n * g))


def large(case, ctx):
    """one request of many points"""
    from causets.sprinkledcauset import SprinkledCauset

    class Unrelated(SprinkledCauset):
        def relate(self, link=True): pass
    s, n = case['shape'], case['n']
    R, S = Ref(s), make(s)
    w = '%d points in %r' % (n, s)
    C = Unrelated(spacetime=trivial(s['d']), **(dict(shape=S) if case['how'] == 0 else {}))
    new = C.sprinkle(n, rng=np.random.default_rng(case['seed']), **(dict(shape=S) if case['how'] else {}))
    eq(len(new), n, w + ': number of events')
    x = np.array([[float(v) for v in e.Coordinates] for e in sorted(new, key=lambda e: int(e.Label))])
    U, D = decompose(R, x, w)
    fine = all(abs(c) <= 2 * R.half(k) for k, c in enumerate(R.c))
    for k, u in enumerate(U + D):
        if k < len(U): uniform(u, '%s: variate %d' % (w, k))
        if fine:    # single precision is fine enough
            repeats(u, '%s: variate %d' % (w, k))
            repeats(np.abs(2 * u - 1), '%s: distance of variate %d from its middle' % (w, k))
        lag = 1
        while lag < n:
            first = np.arange(n - lag)
            first = first[first // lag % 2 == 0]    # no point belongs to two pairs
            if len(first) > 100: independent(u[first], u[first + lag], '%s: variate %d of points %d apart' % (w, k, lag))
            lag *= 2
        h = n // 2
        independent(u[:h], u[::-1][:h], '%s: variate %d of mirrored indices' % (w, k))
    return s['d'] > 1


def poisson(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    s, lam, M = case['shape'], case['lam'], 250
    S = make(s)
    rng = np.random.default_rng(case['seed'])
    ks = []
    for _ in range(M):
        C = SprinkledCauset(spacetime=trivial(s['d']), shape=S)
        for part in case['parts']:
            C.intensify(lam * part, rng=rng, **(dict(shape=S) if case['how'] else {}))
        ks.append(C.Card)
    lam *= sum(case['parts'])
    tot, L = sum(ks), M * lam
    w = 'intensity %g in parts %r' % (lam, case['parts'])
    dev = tot * math.log(tot / L) - tot + L if tot else L
    ensure(dev <= LN, w, ': %d events in %d requests, expected %g' % (tot, M, L))
    p, c = math.exp(-lam), 0.0
    for q in range(int(lam + 6 * math.sqrt(lam) + 6)):
        c += p
        share(sum(1 for k in ks if k <= q), M, min(c, 1 - 1e-15), '%s: at most %d events' % (w, q))
        share(sum(1 for k in ks if k == q), M, p, '%s: exactly %d events' % (w, q))
        p *= lam / (q + 1)
    return lam > 1


def counts(case, ctx):
    """counts of larger intensities, without relating the events"""
    from causets.sprinkledcauset import SprinkledCauset

    class Counted(SprinkledCauset):
        def relate(self, link=True): pass
    s, lam = case['shape'], case['lam']
    M = int(160000 / lam)
    rng = np.random.default_rng(case['seed'])
    C = Counted(shape=make(s))
    ks = []
    for k in range(M):
        if k % 50 == 0: C = Counted(shape=make(s))
        ks.append(len(C.intensify(lam, rng=rng)))
    w = 'intensity %g' % lam
    tot, L = sum(ks), M * lam
    ensure(tot * math.log(tot / L) - tot + L <= LN if tot else False, w, ': %d events in %d requests, expected %g' % (tot, M, L))
    hi = int(lam + 12 * math.sqrt(lam) + 12)
    pm = [math.exp(-lam + q * math.log(lam) - math.lgamma(q + 1)) for q in range(hi)]
    for q in range(hi):
        share(sum(1 for k in ks if k <= q), M, min(sum(pm[:q + 1]), 1 - 1e-15), '%s: at most %d events' % (w, q))
    for x in (0.5, 1.0, 1.5, 2.0, 2.5, 3.0):
        r = x * math.sqrt(lam)
        share(sum(1 for k in ks if abs(k - lam) <= r), M, sum(p for q, p in enumerate(pm) if abs(q - lam) <= r), '%s: within %g of the mean' % (w, r))
    med = int(lam)   # successive counts are independent
    p = sum(pm[:med])
    share(sum(1 for a, b in zip(ks[::2], ks[1::2]) if (a < med) == (b < med)), len(ks[1::2]), p * p + (1 - p)**2, w + ': successive counts on the same side')
    return True


def seeds(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    s = case['shape']
    res = []
    for seed in (case['seed'], case['seed'], case['seed'] + 1):
        rng = np.random.default_rng(seed)
        C = SprinkledCauset(shape=make(s))
        X = []
        for k, n in case['ops']:
            new = C.sprinkle(n, rng=rng) if k else C.intensify(n / 2, rng=rng)
            X.append([[float(v) for v in e.Coordinates] for e in sorted(new, key=lambda e: int(e.Label))])
        res.append(X)
    ensure(res[0] == res[1], 'equal seeds give different coordinates for', s, case['ops'])
    if sum(len(x) for x in res[0]) > 3: ensure(res[0] != res[2], 'different seeds give equal coordinates')
    return sum(len(x) for x in res[0]) > 1


SEED = st.integers(0, 2**31)
FACETS = [
    Facet('distribution', st.fixed_dictionaries(dict(shape=st.one_of([shapes(1, 5)] * 7 + [shapes(6, 8)]), batch=st.sampled_from([1, 4, 16, 16, 64, 200]), how=st.integers(0, 1), poisson=st.sampled_from([False, False, False, True]),
                                                     seed=SEED, salt=SALT)), distribution, 320, thorough=6000, limit=120.0,
          rule='4096 points of a random shape of dimension 1 to 8 in batches; non-trivial: dimension above 1'),
    Facet('default generator', st.fixed_dictionaries(dict(shape=shapes(1, 3), batch=st.sampled_from([1, 4, 16, 64]), how=st.integers(0, 1), poisson=st.booleans(),
                                                          default=st.integers(1, 2), seed=st.just(0), salt=SALT)), distribution, 64, thorough=1200, limit=120.0,
          rule='4096 points in batches, without a generator given or within the constructor (these are not reproducible); non-trivial: dimension above 1'),
    Facet('large requests', st.fixed_dictionaries(dict(shape=shapes(1, 5), n=st.one_of(st.sampled_from([256, 512, 1000, 1024, 2048, 4096]), st.integers(300, 5000)), how=st.integers(0, 1), seed=SEED, salt=SALT)),
          large, 400, thorough=8000, limit=120.0, rule='one request of 256 to 5000 points of a random shape of dimension 1 to 5; non-trivial: dimension above 1'),
    Facet('Poisson', st.fixed_dictionaries(dict(shape=shapes(1, 2), lam=st.sampled_from([0.25, 0.5, 1.0, 2.5, 4.0, 7.0, 12.0]), parts=st.sampled_from([[1], [1], [0.5, 1], [1, 0, 0.25]]),
                                                how=st.integers(0, 1), seed=SEED, salt=SALT)), poisson, 320, thorough=6000, limit=120.0,
          rule='250 sprinkles by intensity; non-trivial: intensity above 1'),
    Facet('Poisson larger', st.fixed_dictionaries(dict(shape=st.sampled_from([dict(d=1, name='cube', kw={}), dict(d=2, name='bicone', kw={}), dict(d=2, name='cuboid', kw={})]), lam=st.sampled_from([20.0, 27.5, 40.0, 75.0, 130.0, 300.0, 700.0]),
                                                       seed=SEED, salt=SALT)), counts, 32, thorough=800, limit=120.0,
          rule='160000 expected events in requests of intensity 20 to 700; all non-trivial'),
    Facet('seeds', st.fixed_dictionaries(dict(shape=shapes(1, 4), ops=st.lists(st.tuples(st.integers(0, 1), st.integers(0, 9)).map(list), min_size=1, max_size=3), seed=SEED, salt=SALT)), seeds, 1200,
          rule='three runs with two seeds; non-trivial: more than one event'),
]
