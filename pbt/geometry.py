"""Spacetimes by specification, and independent light cones for them.

A specification is a JSON-able dict: {'st': 'flat'|'dS'|'AdS'|'BH', 'dim': d, ...} with 'period' (list, flat),
'r' (radius, dS/AdS/BH) and 'metric' (BH: 'S' or 'EF').
"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import others

EPS = 1e-12  # the documented tolerance of the causality functions


def make_spacetime(sp):
    S = new_spacetime(sp)
    if others.some(sp): others.spacetimes()
    return S


def new_spacetime(sp):
    from causets import spacetimes as S
    k, d = sp['st'], sp['dim']
    # (whole numbers as Python integers, in one half of the cases)
    num = (lambda v: int(v) if v == int(v) else v) if others.some(['integers', sp]) else float
    if k == 'flat':
        p = sp.get('period')
        if p is None: return S.FlatSpacetime(d)
        if isinstance(p, float): return S.FlatSpacetime(d, period=p)
        return S.FlatSpacetime(d, period=tuple(map(num, p)))
    if k == 'dS': return S.deSitterSpacetime(d, r_dS=num(sp['r']))
    if k == 'AdS': return S.AntideSitterSpacetime(d, r_AdS=num(sp['r']))
    return S.BlackHoleSpacetime(d, r_S=num(sp['r']), metric={'S': 'Schwarzschild', 'EF': 'Eddington-Finkelstein'}[sp['metric']])


def periods(sp):
    p = sp.get('period')
    if p is None: return [0.0] * (sp['dim'] - 1)
    # (only positive values switch the periodicity on)
    return [max(p, 0.0)] * (sp['dim'] - 1) if isinstance(p, float) else [max(v, 0.0) for v in p]


def dot(a, b):
    return math.fsum(u * v for u, v in zip(a, b))


def separations(sp, x, y):
    """Spatial distances |dx_k| of a flat spacetime, shortest around the period."""
    out = []
    for k, p in enumerate(periods(sp)):
        v = abs(y[k + 1] - x[k + 1])
        if p > 0.0:
            v = math.fmod(v, p)
            v = min(v, p - v)
        out.append(v)
    return out


def null_time(sp, x, y):
    """Coordinate time that light needs between the positions of x and y (flat, dS, AdS); None if there is none."""
    if sp['st'] == 'flat':
        return math.hypot(*separations(sp, x, y)) if sp['dim'] > 1 else 0.0
    a = sp['r']
    rx, ry, xy = dot(x[1:], x[1:]), dot(y[1:], y[1:]), dot(x[1:], y[1:])
    if sp['st'] == 'dS':
        if rx >= a * a or ry >= a * a: return None
        return a * math.acosh(max(1.0, (a * a - xy) / math.sqrt((a * a - rx) * (a * a - ry))))
    return a * math.acos(max(-1.0, min(1.0, (a * a + xy) / math.sqrt((a * a + rx) * (a * a + ry)))))


def kruskal(sp, x):
    """(t_EF + r, sign, u) of a black hole point; the outgoing null coordinate is increasing in (-sign) exp(-u/2rS)."""
    rs, r = sp['r'], abs(x[1])
    ln = math.log(abs(r / rs - 1))
    t = x[0] + (rs * ln if sp['metric'] == 'S' else 0.0)
    return t + r, r > rs, t - r - 2 * rs * ln


def nearly_null(sp, x, y, sign, delta):
    """The time of y moved so that one of its null coordinates nearly agrees with that of x (black holes)."""
    if abs(x[1]) == sp['r'] or abs(y[1]) == sp['r']:
        return x[0] + abs(x[1]) - abs(y[1]) + delta * sp['r']
    v, out, u = kruskal(sp, x)
    w, out2, u2 = kruskal(sp, y)
    return y[0] + ((v - w) if sign > 0 or out != out2 else (u - u2)) + delta * sp['r']


def decide(sp, x, y):
    """(x <= y, x > y) by the exact light cones, or None within the rounding margin of the light cone."""
    x, y = [float(v) for v in x], [float(v) for v in y]
    dt = y[0] - x[0]
    k = sp['st']
    if k == 'flat' and sp['dim'] == 1: return (dt >= 0, dt < 0)
    if k == 'BH':
        if x[1] * y[1] < 0: return (False, False)
        if x == y: return (True, False)
        rs = sp['r']
        h1, h2 = abs(x[1]) == rs, abs(y[1]) == rs
        if h1 or h2:  # on the horizon, which is regular in Eddington-Finkelstein coordinates only
            if sp['metric'] == 'S': return None
            dv = (y[0] - x[0]) + (abs(y[1]) - abs(x[1]))
            if h1 and h2: return (dv >= 0, dv < 0)
            if abs(dv) < 1e-11 * (1 + abs(x[0]) + abs(y[0]) + abs(x[1]) + abs(y[1])): return None
            # the future of the horizon is on or behind it, its past is outside or on it
            return (dv > 0 and (abs(y[1]) <= rs if h1 else abs(x[1]) >= rs), dv < 0 and (abs(x[1]) <= rs if h2 else abs(y[1]) >= rs))
        (v1, out1, u1), (v2, out2, u2) = kruskal(sp, x), kruskal(sp, y)
        tol = 1e-11 * (1 + abs(v1) + abs(v2) + abs(u1) + abs(u2))
        if abs(v1 - v2) < tol or abs(u1 - u2) < tol: return None
        if out1 == out2:
            # U = -+exp(-u/2rs) increases with u outside and decreases with u inside
            f = (v2 > v1) and ((u2 > u1) if out1 else (u2 < u1))
            g = (v1 > v2) and ((u1 > u2) if out1 else (u1 < u2))
        else:
            f, g = out1 and v2 > v1, out2 and v1 > v2
        return (f, g)
    if x == y:
        if k == 'dS' and dot(x[1:], x[1:]) >= sp['r']**2: return (False, False)
        return (True, False)
    if k == 'flat':
        sep = separations(sp, x, y)
        q = dt * dt - dot(sep, sep)
        big = dt * dt + dot(sep, sep)
        if sp['dim'] == 2: q, tol = abs(dt) - sep[0], 2 * EPS + 1e-14 * (abs(x[1]) + abs(y[1]) + abs(x[0]) + abs(y[0]))
        else: tol = 2 * EPS + 1e-14 * (big + math.sqrt(big) * max(abs(v) for v in x + y))
    elif k == 'dS':
        a = sp['r']
        rx, ry = dot(x[1:], x[1:]), dot(y[1:], y[1:])
        for r2 in (rx, ry):
            if r2 != a * a and abs(r2 / (a * a) - 1) < 1e-12: return None
        if rx >= a * a or ry >= a * a: return (False, False)
        amp = math.sqrt((a * a - rx) * (a * a - ry))
        q = 2 * (amp * math.cosh(dt / a) + dot(x[1:], y[1:]) - a * a)
        tol = 2 * EPS + 1e-13 * a * a * (math.cosh(x[0] / a)**2 + math.cosh(y[0] / a)**2)
    else:
        a = sp['r']
        rx, ry = dot(x[1:], x[1:]), dot(y[1:], y[1:])
        if abs(abs(dt) / a - math.pi) < 1e-9: return None
        amp = math.sqrt((a * a + rx) * (a * a + ry))
        q = 1.0 if abs(dt) > math.pi * a else 2 * (a * a + dot(x[1:], y[1:]) - amp * math.cos(dt / a))
        tol = 2 * EPS + 1e-13 * (2 * a * a + rx + ry + amp) * (1 + (abs(x[0]) + abs(y[0])) / a)
        if abs(dt) > math.pi * a: tol = 0.0
    if abs(q) <= tol: return None
    if q < 0: return (False, False)
    if dt == 0 or (abs(dt) < 1e-13 * (abs(x[0]) + abs(y[0]))): return None
    return (dt > 0, dt < 0)


def answer(f, x, y):
    r = f(np.array(x, dtype=float), np.array(y, dtype=float))
    a, b = r
    a, b = bool(a), bool(b)
    if all(v == int(v) and abs(v) < 2**20 for p in (x, y) for v in p if math.isfinite(v)) and others.some([x, y]):   # also as integers
        c, d = f(np.array([int(v) for v in x]), np.array([int(v) for v in y]))
        if (bool(c), bool(d)) != (a, b): return ('as integers', bool(c), bool(d))
    return (a, b)


# ---- strategies
DY = st.integers(-24, 24).map(lambda k: k / 8)
SM = st.integers(-4, 4).map(lambda k: k / 8)
FL = st.floats(-3, 3).map(lambda v: round(v, 9))
POSR = st.one_of(st.sampled_from([0.25, 0.5, 1.0, 2.0]), st.floats(0.1, 5).map(lambda v: round(v, 6)))


@st.composite
def flat_specs(draw, lo=1, hi=5, periodic=None):
    d = draw(st.integers(lo, hi))
    if hi == 5 and draw(st.integers(0, 6)) == 3: d = draw(st.integers(6, 9))
    if periodic is None: periodic = draw(st.booleans())
    sp = dict(st='flat', dim=d)
    if periodic and d > 1:
        per = st.one_of(st.integers(1, 24).map(lambda k: k / 8), st.just(1.0))
        if draw(st.booleans()): sp['period'] = draw(st.one_of(per, per, st.just(0.0)))
        else: sp['period'] = draw(st.lists(st.one_of(per, per, per, per, st.just(0.0), st.sampled_from([0.0, -1.0])), min_size=d - 1, max_size=d - 1))
    return sp


@st.composite
def specs(draw, kinds=('flat', 'dS', 'AdS', 'BH'), lo=2, hi=5):
    k = draw(st.sampled_from(kinds))
    if k == 'flat': return draw(flat_specs(max(1, lo), hi))
    if k == 'BH': return dict(st='BH', dim=2, r=draw(POSR), metric=draw(st.sampled_from(['S', 'EF'])))
    if hi == 5 and draw(st.integers(0, 6)) == 3: return dict(st=k, dim=draw(st.integers(6, 9)), r=draw(POSR))
    return dict(st=k, dim=draw(st.integers(max(2, lo), hi)), r=draw(POSR))


@st.composite
def points(draw, sp, n=1, dyadic=False):
    """n points of the coordinate patch (dS: inside the horizon)."""
    d, out = sp['dim'], []
    for _ in range(n):
        if sp['st'] == 'dS':
            a = sp['r']
            u = draw(st.lists(st.floats(-1, 1), min_size=d - 1, max_size=d - 1))
            m = math.sqrt(dot(u, u))
            q = draw(st.one_of(st.floats(0, 0.97), st.sampled_from([0.0, 0.5])))
            x = [a * q * v / m if m > 1e-3 else 0.0 for v in u]
            t = a * draw(st.one_of(st.floats(-4, 4), st.sampled_from([0.0, 1.0])))
            out.append([t] + x)
        elif sp['st'] == 'AdS':
            a = sp['r']
            x = [a * v for v in draw(st.lists(st.one_of(st.floats(-4, 4), SM), min_size=d - 1, max_size=d - 1))]
            out.append([a * draw(st.one_of(st.floats(-8, 8), st.sampled_from([0.0, 0.5]), st.integers(-10, 10).map(lambda k: k * math.pi / 4)))] + x)
        elif sp['st'] == 'BH':
            rs = sp['r']
            q = draw(st.one_of(st.floats(0.02, 0.999), st.floats(1.001, 6)))
            if sp['metric'] == 'EF' and draw(st.integers(0, 5)) == 0: q = 1.0
            s = 1.0 if n > 1 and draw(st.integers(0, 5)) else draw(st.sampled_from([-1.0, 1.0]))
            out.append([rs * draw(st.one_of(st.floats(-6, 6), st.sampled_from([0.0, 1.0]))), s * rs * q])
        else:
            e = draw(st.sampled_from([DY, SM])) if dyadic else draw(st.sampled_from([DY, SM, FL]))
            out.append(draw(st.lists(e, min_size=d, max_size=d)))
    return out
