"""C18: shape volume, limits, extents and parameters describe one region."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.poset import SALT
from pbt import others

ASSUMPTIONS = ['parameters are stored in single precision', 'no hollow one-dimensional cylinder (it has no space to be hollow in)',
               'the half maximal edge is asked for at least two distinct dimensions']
NAMES = ['ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid']
POS = st.one_of(st.integers(1, 24).map(lambda k: k / 8), st.floats(0.015625, 50, width=32))
CRD = st.one_of(st.just(0.0), st.integers(-16, 16).map(lambda k: k / 4), st.floats(-20, 20, width=32))
HOL = st.one_of(st.just(0.0), st.integers(1, 15).map(lambda k: k / 16), st.floats(0.0, 0.96875, width=32))


@st.composite
def shapes(draw, lo=1, hi=6, names=NAMES, hollow=True, pos=POS):
    d = draw(st.integers(lo, hi))
    name = draw(st.sampled_from(names))
    kw = {}
    if draw(st.booleans()): kw['center'] = draw(st.lists(CRD, min_size=d, max_size=d))
    if name in ('ball', 'bicone', 'diamond', 'cylinder'):
        if draw(st.booleans()): kw['radius'] = draw(pos)
        if hollow and draw(st.booleans()) and not (name == 'cylinder' and d == 1): kw['hollow'] = draw(HOL)
        if name == 'cylinder' and draw(st.booleans()): kw['duration'] = draw(pos)
    elif name == 'cube':
        if draw(st.booleans()): kw['edge'] = draw(pos)
    elif draw(st.integers(0, 3)): kw['edges'] = draw(st.lists(pos, min_size=d, max_size=d))
    return dict(d=d, name=name, kw=kw)


class Ref:
    """the region, independently of the library, in double precision"""

    def __init__(self, s):
        f = lambda x: float(np.float32(x))
        self.d, kw = s['d'], s['kw']
        self.name = 'bicone' if s['name'] == 'diamond' else s['name']
        d = self.d
        self.c = [f(x) for x in kw.get('center', [0.0] * d)]
        self.r = f(kw.get('radius', 1.0))
        self.h = f(kw.get('hollow', 0.0))
        self.T = f(kw.get('duration', 2 * self.r))
        self.e = [f(kw.get('edge', 1.0))] * d if self.name == 'cube' else [f(x) for x in kw.get('edges', [1.0] * d)]

    def half(self, k):
        if self.name in ('cube', 'cuboid'): return self.e[k] / 2
        if self.name == 'cylinder' and k == 0: return self.T / 2
        return self.r

    def full(self, scale=1.0):
        d, r = self.d, self.r * scale
        if self.name == 'ball': return unitball(d) * r**d
        if self.name == 'bicone': return 2.0 / d * unitball(d - 1) * r**d
        if self.name == 'cylinder': return unitball(d - 1) * r**(d - 1) * self.T
        return math.prod(self.e)

    def volume(self):
        return self.full() - (self.full(self.h) if self.h else 0.0)

    def radial(self, x):
        """distance as a fraction of the outer boundary: inside iff h <= radial <= 1; and the time part for cylinders"""
        y = [a - b for a, b in zip(x, self.c)]
        if self.name == 'ball': return math.sqrt(sum(v * v for v in y)) / self.r, 0.0
        sp = math.sqrt(sum(v * v for v in y[1:]))
        if self.name == 'bicone': return (abs(y[0]) + sp) / self.r, 0.0
        if self.name == 'cylinder': return sp / self.r, abs(y[0]) / (self.T / 2)
        return max(abs(v) / (e / 2) for v, e in zip(y, self.e)), 0.0

    def scale(self):
        return max([abs(v) for v in self.c] + [self.half(k) for k in range(self.d)])


def unitball(n):
    if n == 0: return 1.0
    if n == 1: return 2.0
    return 2 * math.pi / n * unitball(n - 2)


def make(s):
    from causets.shapes import CoordinateShape
    if others.some([s, 1]): others.shapes(s['d'], s['name'])
    S = CoordinateShape(s['d'], s['name'], **s['kw'])
    if others.some(s): others.shapes(s['d'], s['name'])
    return S


ALIAS = [np.float32, np.float64, list, tuple, np.float16]


def close(a, b, tol, what):
    ensure(abs(float(a) - b) <= tol, what, 'is', float(a), 'expected', b)


def values(case, ctx):
    s = case['shape']
    R = Ref(s)
    if case['alias'] is None: S = make(s)
    else:  # arguments as arrays (or lists) that the caller changes afterwards
        kw = dict(s['kw'])
        own = []
        for k in ('center', 'edges'):
            if k in kw:
                t = ALIAS[case['alias']]
                v = np.array(kw[k], dtype=t) if t in (np.float32, np.float64) else list(kw[k])
                if t is tuple: v = tuple(v)
                kw[k] = v
                own.append(v)
        S = make(dict(s, kw=kw))
        for v in own:
            if not isinstance(v, tuple):
                for i in range(len(v)): v[i] = v[i] * 2 + 3
    d = R.d
    w = repr(s)
    eq(S.Name, R.name, 'name of ' + w)
    eq(S.Dim, d, 'dimension of ' + w)
    ensure(np.shape(S.Center) == (d,), 'centre of', w, 'is', S.Center)
    for k in range(d): close(S.Center[k], R.c[k], 0.0, 'centre of ' + w)
    if R.name in ('ball', 'bicone', 'cylinder'):
        close(S.Parameter('radius'), R.r, 0.0, 'radius of ' + w)
        close(S.Parameter('hollow'), R.h, 0.0, 'hollow of ' + w)
    if R.name == 'cylinder': close(S.Parameter('duration'), R.T, 0.0, 'duration of ' + w)
    if R.name == 'cube': close(S.Parameter('edge'), R.e[0], 0.0, 'edge of ' + w)
    if R.name == 'cuboid':
        ensure(np.shape(S.Parameter('edges')) == (d,), 'edges of', w)
        for k in range(d): close(S.Parameter('edges')[k], R.e[k], 0.0, 'edges of ' + w)
    for f in (str, repr):
        t = f(S)
        ensure(isinstance(t, str) and R.name in t, 'text of', w, 'is', t)
    v = S.Volume
    close(v, R.volume(), 1e-5 * R.full(), 'volume of ' + w)
    eq(float(S.Volume), float(v), 'second volume of ' + w)
    for k in range(d):
        lo, hi = S.Limits(k)
        tol = 1e-6 * (R.scale() + R.half(k))
        close(lo, R.c[k] - R.half(k), tol, 'lower limit %d of %s' % (k, w))
        close(hi, R.c[k] + R.half(k), tol, 'upper limit %d of %s' % (k, w))
    if d > 1:
        perm = case['perm']
        dims = [k for k in perm if k < d]
        for n in (2, 3, d):
            if 2 <= n <= d:
                close(S.MaxEdgeHalf(dims[:n]), max(R.half(k) for k in dims[:n]), 1e-6 * R.scale(), 'MaxEdgeHalf(%s) of %s' % (dims[:n], w))
    # nothing changed by the queries
    for k in range(d): close(S.Center[k], R.c[k], 0.0, 'centre of ' + w)
    return bool(s['kw']) and d > 1


def montecarlo(case, ctx):
    """The volume agrees with a low-discrepancy integration of the definition of the region inside its limits."""
    s = case['shape']
    S, R = make(s), Ref(s)
    d = R.d
    N = 4096
    phi = 2.0
    for _ in range(60): phi = (1 + phi) ** (1.0 / (d + 1))
    a = np.array([phi ** -(k + 1) for k in range(d)])
    u = (0.5 + np.outer(np.arange(1, N + 1), a)) % 1.0
    lim = np.array([S.Limits(k) for k in range(d)], dtype=float)
    x = lim[:, 0] + u * (lim[:, 1] - lim[:, 0])
    y = x - np.array(R.c)
    sp = np.sqrt((y[:, 1:]**2).sum(axis=1))
    if R.name == 'ball': q = np.sqrt((y**2).sum(axis=1)) / R.r
    elif R.name == 'bicone': q = (np.abs(y[:, 0]) + sp) / R.r
    elif R.name == 'cylinder': q = sp / R.r if d > 1 else np.full(N, 0.5)
    else: q = np.full(N, 0.5)
    frac = ((q <= 1) & (q >= R.h)).mean() if R.name not in ('cube', 'cuboid') else 1.0
    box = float(np.prod(lim[:, 1] - lim[:, 0]))
    close(S.Volume, frac * box, 0.05 * box, 'volume of %r compared to the integral %g' % (s, frac * box))
    return R.name not in ('cube', 'cuboid') and d > 1


FACETS = [
    Facet('values', st.fixed_dictionaries(dict(shape=shapes(), perm=st.permutations(range(6)).map(list), alias=st.one_of(st.none(), st.integers(0, 3)), salt=SALT)), values, 8000,
          rule='random shape of dimension 1 to 6; non-trivial: dimension above 1 with explicit parameters'),
    Facet('many dimensions', st.fixed_dictionaries(dict(shape=shapes(7, 48, pos=st.one_of(st.just(1.0), st.sampled_from([0.5, 0.75, 1.25, 1.5]), st.floats(0.5, 1.75, width=32))), perm=st.permutations(range(48)).map(list),
                                                        alias=st.one_of(st.none(), st.integers(0, 3)), salt=SALT)), values, 800,
          rule='shapes of dimension 7 to 48 of sizes about one; non-trivial: explicit parameters'),
    Facet('integral', st.fixed_dictionaries(dict(shape=shapes(1, 4), salt=SALT)), montecarlo, 1500,
          rule='volume against the integral of the membership predicate; non-trivial: curved shape of dimension above 1'),
]
