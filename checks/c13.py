"""C13: causality tests against independent light cones."""
import math
from fractions import Fraction as Fr
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, ensure
from pbt.poset import SALT
from pbt import geometry as G, others

ASSUMPTIONS = ['pairs within the rounding tolerance of the code (1e-12 in the squared interval, or in the interval for 1+1 dimensions) '
               'are not decided unless their coordinates are short binary fractions',
               'no points on the black hole singularity, or on the horizon in Schwarzschild coordinates (which do not cover it)',
               'anti-de Sitter spacetime without reflection at its boundary']


def compare(sp, x, y, want, ctx):
    f = G.make_spacetime(sp).Causality()
    if others.some([sp, x, y]): others.spacetimes()
    got = G.answer(f, x, y)
    ensure(got == want, 'causality of', sp, x, y, 'is', got, 'expected', want)
    ctx.count('related' if any(want) else 'unrelated')


def exact(sp, x, y):
    dt = Fr(y[0]) - Fr(x[0])
    r2 = Fr(0)
    for k, p in enumerate(G.periods(sp)):
        v = abs(Fr(y[k + 1]) - Fr(x[k + 1]))
        if p > 0:
            v %= Fr(p)
            v = min(v, Fr(p) - v)
        r2 += v * v
    c = dt * dt >= r2
    return (c and dt >= 0, c and dt < 0), dt * dt == r2 and r2 > 0


@st.composite
def dyadics(draw):
    sp = draw(G.flat_specs())
    x, y = draw(G.points(sp, 2, dyadic=True))
    d = sp['dim']
    m = draw(st.integers(0, 3))
    if m == 0 and d > 1:  # null: along an axis or a Pythagorean direction, possibly around the period
        y = list(x)
        v = draw(st.sampled_from([(1,), (3, 4), (2, 3, 6), (5, 12), (1, 2, 2), (2, 4, 5, 6), (1, 1, 1, 1), (8, 15), (4, 4, 7), (-3, 4), (0, 1)]))[:d - 1]
        h = math.sqrt(sum(c * c for c in v))
        if h != int(h): v, h = (1,), 1.0
        ax = draw(st.permutations(range(1, d)))
        sc = draw(st.integers(1, 3)) / 8
        for a, c in zip(ax, v): y[a] += c * sc
        y[0] += h * sc * draw(st.sampled_from([-1, 1]))
    elif m == 1: y = [x[0]] + y[1:] if draw(st.booleans()) else list(x)
    p = G.periods(sp)
    if any(q > 0 for q in p) and draw(st.booleans()):
        y = [y[0]] + [v + q * draw(st.integers(-3, 3)) for v, q in zip(y[1:], p)]
    return dict(sp=sp, x=x, y=y, salt=draw(SALT))


def dyadic(case, ctx):
    sp, x, y = case['sp'], case['x'], case['y']
    want, null = exact(sp, x, y)
    if null: ctx.count('null')
    compare(sp, x, y, want, ctx)
    return null or sum(1 for a, b in zip(x, y) if a != b) > 1


@st.composite
def pairs(draw, kinds):
    sp = draw(G.specs(kinds))
    x, y = draw(G.points(sp, 2))
    mode = draw(st.sampled_from(['free', 'near', 'near', 'same', 'equalt'] if sp['st'] != 'dS' else ['free', 'near', 'near', 'same', 'equalt', 'horizon', 'beyond']))
    if sp['st'] in ('AdS', 'flat') and draw(st.integers(0, 3)) == 0: mode = draw(st.sampled_from(['place', 'mirror', 'mirror']))
    delta = draw(st.sampled_from([1, -1])) * 10.0 ** draw(st.integers(-11, 0)) * draw(st.sampled_from([0.5, 0.99, 0.25]))
    c = dict(sp=sp, x=x, y=y, mode=mode, delta=delta, sign=draw(st.sampled_from([-1, 1])), wrap=draw(st.integers(0, 3)), salt=draw(SALT))
    c['axis'] = draw(st.integers(1, sp['dim'] - 1)) if sp['dim'] > 1 else 0
    return c


def points(case):
    """x and the adapted y"""
    sp, x, y = case['sp'], list(case['x']), list(case['y'])
    mode = case['mode']
    if mode == 'same': y = list(x)
    elif mode == 'equalt': y[0] = x[0]
    elif mode == 'near' and sp['st'] != 'BH':
        n = G.null_time(sp, x, y)
        y[0] = x[0] + case['sign'] * n * (1 + case['delta'])
    elif mode == 'near': y[0] = G.nearly_null(sp, x, y, case['sign'], case['delta'])
    elif mode == 'horizon':
        a = sp['r']
        p = x if case['sign'] > 0 else y
        for k in range(1, sp['dim']): p[k] = 0.0
        p[case['axis']] = a * (1.0 if case['delta'] < 0 else 1 + abs(case['delta'])) * (1 if case['wrap'] % 2 else -1)
    elif mode == 'beyond':   # along a diagonal: no single coordinate is beyond the horizon
        p = x if case['sign'] > 0 else y
        f = 1 + abs(case['delta']) * (0.7 if case['delta'] > 0 else 0.01)
        if sp['dim'] == 2: f = max(f, 1.0)
        q = [1 + 0.1 * ((k * 7 + case['wrap']) % 3) for k in range(sp['dim'] - 1)]
        m = math.sqrt(G.dot(q, q))
        for k in range(1, sp['dim']): p[k] = math.copysign(sp['r'] * f * q[k - 1] / m, p[k])
    if mode in ('place', 'mirror'): y = [y[0]] + x[1:] if case['wrap'] else y
    if mode == 'mirror': y[0] = case['sign'] * (case['wrap'] - 1) * math.pi * sp.get('r', 1.0) - x[0]
    if sp['st'] == 'AdS' and case['wrap'] == 3 and mode == 'free': y[0] = x[0] + case['sign'] * (math.pi + case['delta']) * sp['r']
    return x, y


def decided(case, ctx):
    sp = case['sp']
    x, y = points(case)
    want = G.decide(sp, x, y)
    if want is None:
        ctx.count('undecided')
        raise Skip()
    compare(sp, x, y, want, ctx)
    ctx.count(case['mode'])
    return case['mode'] in ('near', 'horizon', 'beyond') or any(want)


def dS2(case, ctx):
    """1+1 de Sitter light rays are the lines of constant t +- a artanh(x/a)."""
    sp = dict(case['sp'], dim=2)
    x, y = points(dict(case, sp=sp, x=case['x'][:2], y=case['y'][:2], axis=1, mode=case['mode'] if case['mode'] not in ('horizon', 'beyond') else 'free'))
    a = sp['r']
    s = abs(math.atanh(y[1] / a) - math.atanh(x[1] / a)) * a
    dt = y[0] - x[0]
    if abs(abs(dt) - s) < 1e-9 * a or G.decide(sp, x, y) is None: raise Skip()
    c = abs(dt) >= s
    compare(sp, x, y, (c and dt >= 0, c and dt < 0), ctx)
    return c


@st.composite
def tables(draw):
    sp = draw(G.specs(('flat', 'dS', 'AdS', 'BH')))
    n = draw(st.integers(2, 5))
    return dict(sp=sp, pts=draw(G.points(sp, n)), order=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=2, max_size=14)), salt=draw(SALT))


def table(case, ctx):
    """one function and one array per point for a series of pairs; the arrays are not changed"""
    sp, pts = case['sp'], case['pts']
    f = G.make_spacetime(sp).Causality()
    A = [np.array(p, dtype=float) for p in pts]
    k = 0
    for i, j in case['order']:
        x, y = pts[i], pts[j]
        r = f(A[i], A[j])
        w = (sp, 'point', j, 'to', i, 'of', pts)
        ensure(A[i].tolist() == x and A[j].tolist() == y, 'the coordinates are changed by a causality test', w)
        want = G.decide(sp, x, y)
        if want is None: continue
        ensure((bool(r[0]), bool(r[1])) == want, 'causality of', w, 'is', r, 'expected', want)
        k += 1
    if not k: raise Skip()
    return k > 1


FACETS = [
    Facet('exact flat', dyadics(), dyadic, 10000,
          rule='flat spacetime of dimension 1 to 9, any directions periodic, coordinates on a grid, decided with exact fractions; non-trivial: null pairs or two differing coordinates'),
    Facet('flat', pairs(['flat']), decided, 6000, rule='random and nearly null pairs; non-trivial: nearly null or related'),
    Facet('de Sitter', pairs(['dS']), decided, 8000, rule='random, nearly null and horizon pairs; non-trivial: nearly null, horizon or related'),
    Facet('de Sitter 1+1', pairs(['dS']), dS2, 3000, rule='tortoise coordinate oracle; non-trivial: related'),
    Facet('anti-de Sitter', pairs(['AdS']), decided, 8000, rule='random and nearly null pairs, time differences of several periods; non-trivial: nearly null or related'),
    Facet('table', tables(), table, 3000, rule='series of pairs out of 2 to 5 points, as arrays that are used again; non-trivial: two pairs'),
    Facet('black hole', pairs(['BH']), decided, 8000, rule='both metrics against Kruskal null coordinates; non-trivial: nearly null or related'),
]
