"""C25: Newton's method returns a root in range or the default."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Violation, ensure, eq
from pbt.poset import SALT

ASSUMPTIONS = ['the root is further than twice the precision inside of the interval (or its end, for linear functions)',
               'curvature and start distance are bounded such that Newton\'s iteration converges within 45 steps']
F = st.floats
# name -> (f, f', interval of roots, maximal start distance, start allowed on both sides)
FUN = {
    'exp': (math.exp, math.exp, (-3, 3), 3.0),
    'cubic': (lambda x: x**3 + x, lambda x: 3 * x * x + 1, (-4, 4), 4.0),
    'square': (lambda x: x * x, lambda x: 2 * x, (0.5, 9), 0.45),
    'log': (lambda x: math.log(x), lambda x: 1 / x, (0.5, 6), 0.45),
    'sinh': (math.sinh, math.cosh, (-2, 2), 2.5),
    'linear': (lambda x: 2.5 * x - 1, lambda x: 2.5, (-50, 50), 90.0),
    'down': (lambda x: -3.0 * x + 0.5, lambda x: -3.0, (-50, 50), 90.0),
    'decay': (lambda x: math.exp(-x), lambda x: -math.exp(-x), (-3, 3), 2.5),
    'atan': (math.atan, lambda x: 1 / (1 + x * x), (-0.2, 0.2), 0.8),
    'power': (lambda x: x**5, lambda x: 5 * x**4, (1, 5), 0.9),
    'arcsinh': (math.asinh, lambda x: 1 / math.sqrt(1 + x * x), (-0.3, 0.3), 0.7),
}


class Counted:
    """n: number of evaluations; places: the same, counting those at one place in succession once"""
    def __init__(self, f): self.f, self.n, self.places, self.args = f, 0, 0, []
    def __call__(self, x):
        self.n += 1
        if not self.args or self.args[-1] != x: self.places += 1
        self.args.append(x)
        return self.f(x)


def root(case, ctx):
    from causets.calculations import NewtonsMethod
    f, fp, (lo, hi), dist = FUN[case['fun']]
    r = lo + (hi - lo) * case['root'] / 1000.0
    x0 = r + dist * case['start'] / 1000.0
    prec = 10.0 ** -case['prec']
    y = f(r)
    kw = {}
    if case['xmin'] is not None: kw['xmin'] = min(r, x0) - 0.01 - case['xmin'] / 50.0
    if case['xmax'] is not None: kw['xmax'] = max(r, x0) + 0.01 + case['xmax'] / 50.0
    if case['fun'] in ('log',): kw.setdefault('xmin', 1e-3)
    if case['fun'] in ('square', 'power'): kw.setdefault('xmin', 1e-2)
    if case['prec'] != 6 or case['given']: kw['precission'] = prec
    g, gp = Counted(f), Counted(fp)
    if case['lim'] is not None:     # limits close to the number of steps that are needed
        steps, v, inside = [], x0, True
        while len(steps) < 60 and (not steps or steps[-1] >= prec):
            nxt = v - (f(v) - y) / fp(v)
            steps.append(abs(nxt - v))
            v = nxt
            inside = inside and kw.get('xmin', -math.inf) + 1.01 * prec < v < kw.get('xmax', math.inf) - 1.01 * prec
        lim = max(0, len(steps) + case['lim'])
        if inside and (lim > len(steps) or lim == len(steps) and steps[-1] < 0.9 * prec or lim < len(steps) and steps[lim - 1] > 1.1 * prec or not lim):
            x = NewtonsMethod(g, gp, x0, y, default=-777.5, maxIterations=lim, **kw)
            eq(x != -777.5, lim >= len(steps), 'NewtonsMethod(%s, start %r, y = %r, maxIterations=%d, %r) = %r needs %d steps, converges' % (case['fun'], x0, y, lim, kw, x, len(steps)))
            ensure(g.n <= lim, 'the function was evaluated', g.n, 'times with a limit of', lim)
            g, gp = Counted(f), Counted(fp)
    if y == 0.0 and case['given']: x = NewtonsMethod(g, gp, x0, default=-777.5, **kw)
    else: x = NewtonsMethod(g, gp, x0, y, default=-777.5, **kw)
    w = 'NewtonsMethod(%s, start %r, y = %r, %r) = %r' % (case['fun'], x0, y, kw, x)
    scale = 1e-12 * (1 + abs(r))
    ensure(abs(x - r) <= 1.01 * prec + scale * 10, w, 'but the root is', r)
    ensure(kw.get('xmin', -math.inf) <= x <= kw.get('xmax', math.inf), w, 'is out of the interval')
    ensure(g.n <= 50, w, 'took', g.n, 'evaluations')
    return abs(x0 - r) > prec


INT = {'cubic': (lambda x: x**3 + x, lambda x: 3 * x**2 + 1, 4), 'line': (lambda x: 3 * x - 2, lambda x: 3, 9), 'falling': (lambda x: -x**3 - 2 * x + 5, lambda x: -3 * x**2 - 2, 4),
       'square': (lambda x: x**2, lambda x: 2 * x, 9), 'sinh': (math.sinh, math.cosh, 2)}
NUM = [int, np.int64, np.float64, float]


def integers(case, ctx):
    """integers (and other types of numbers) as start value, function value, interval and precision"""
    from causets.calculations import NewtonsMethod
    f, fp, n = INT[case['fun']]
    t = NUM[case['type']]
    x0 = 1 + abs(case['x0']) % n if case['fun'] == 'square' else max(-n, min(n, case['x0']))
    y = abs(case['y']) + 1 if case['fun'] == 'square' else case['y'] % 9 - 4 if case['fun'] == 'sinh' else case['y']
    lo, hi = (0.0, 100.0) if case['fun'] == 'square' else (-200.0, 200.0) if case['fun'] != 'sinh' else (-9.0, 9.0)
    s = 1 if f(hi) > f(lo) else -1
    for _ in range(200):
        m = (lo + hi) / 2
        if s * (f(m) - y) < 0: lo = m
        else: hi = m
    kw = {}
    if case['ends'] & 1: kw['xmin'] = t(0 if case['fun'] == 'square' else -150)
    if case['ends'] & 2: kw['xmax'] = t(150)
    g = Counted(f)
    x = NewtonsMethod(g, fp, t(x0), t(y), default=-777, **kw)
    w = 'NewtonsMethod(%s, start %r, y = %r, %r) = %r' % (case['fun'], t(x0), t(y), kw, x)
    ensure(abs(float(x) - lo) <= 1.01e-6, w, 'but the root is', lo)
    ensure(g.n <= 50, w, 'took', g.n, 'evaluations')
    return abs(lo - round(lo)) > 1e-6


def multiple(case, ctx):
    """roots of higher multiplicity are approached linearly: the last step is smaller than the precision"""
    from causets.calculations import NewtonsMethod
    m, r, d = case['m'], float(case['r']), case['d'] / 8.0 or 1.0
    prec = 10.0 ** -case['prec']
    s = -1.0 if case['neg'] else 1.0
    f = Counted(lambda x: s * (x - r)**m)
    kw = {}
    if case['prec'] != 6: kw['precission'] = prec
    if case['max'] is not None: kw['maxIterations'] = case['max']
    limit = 50 if case['max'] is None else case['max']
    # the distance shrinks by (1 - 1/m) in every step, the step k is d (1 - 1/m)^(k-1) / m
    steps, dist = 1, abs(d)
    while dist / m >= prec: dist, steps = dist * (1 - 1.0 / m), steps + 1
    close = abs(dist / m / prec - 1) < 1e-3 or abs(dist / (1 - 1.0 / m) / m / prec - 1) < 1e-3
    x = NewtonsMethod(f, lambda x: s * m * (x - r)**(m - 1), r + d, default=-777777.5, **kw)
    w = 'NewtonsMethod((x - %r)^%d, start %r, %r) = %r' % (r, m, r + d, kw, x)
    if not close:
        eq(x != -777777.5, steps <= limit, w + ': converges within %d steps' % limit)
        if steps <= limit: eq(f.places, steps, w + ': number of evaluations')
    if x != -777777.5: ensure(abs(x - r) <= 1.01 * m * prec + 1e-11, w, 'is not precise')
    return abs(r) > 10


def iterations(case, ctx):
    """a linear function needs exactly one step and one more to notice"""
    from causets.calculations import NewtonsMethod
    a, r, x0 = case['slope'] / 4.0 or 1.0, case['r'] / 8.0, case['x0'] / 8.0
    n = case['max']
    f = Counted(lambda x: a * (x - r) + 2.0)
    x = NewtonsMethod(f, lambda x: a, x0, 2.0, default=-777.5, maxIterations=n)
    ensure(f.n <= n, 'the function was evaluated', f.n, 'times with a limit of', n)
    if n == 0 or (n == 1 and abs(x0 - r) > 1e-5): eq(x, -777.5, 'limit %d, start %r, root %r' % (n, x0, r))
    elif n >= 2: ensure(abs(x - r) <= 1e-6, 'limit', n, 'start', x0, 'root', r, 'result', x)
    return n >= 1 and x0 != r


def failing(case, ctx):
    """no convergence: exactly the default, within the limit of evaluations"""
    from causets.calculations import NewtonsMethod
    kind, n, d = case['kind'], case['max'], case['default']
    p = case['p'] / 16.0
    x0 = case['x0'] / 16.0 + 0.03125
    kw = {}
    if kind == 0: f, fp = (lambda x: x * x + 1.0 + p), (lambda x: 2 * x)           # no root: |step| >= 1
    elif kind == 1: f, fp = (lambda x: 3.0 + p), (lambda x: 0.0)                    # derivative vanishes
    elif kind == 2:                                                                 # oscillates
        f = lambda x: math.copysign(math.sqrt(abs(x)), x)
        fp = lambda x: 0.5 / math.sqrt(abs(x)) if x else 0.0
    elif kind == 3:                                                                 # slow: halves the distance (double root)
        f, fp = (lambda x: (x - 100.0)**2), (lambda x: 2 * (x - 100.0))
        n = min(n, 12)
        if n == 0: n = 3
    elif kind == 4:                                                                 # the derivative vanishes at a later step
        f, fp = (lambda x: 1.0 if x > 5 else (x - 9.0) * 1.0), (lambda x: 0.0 if x > 5 else 1.0)
        x0 = min(x0, 4.0)
    elif kind == 5:                                                                 # vanishes exactly there, not beside it
        c = case['x0'] / 16.0 or 0.5
        start = case['p'] % 4
        if start == 0: x0, f = 0.0, (lambda x: x * x - c * c)                       # at the start value
        elif start == 1: x0, f = c, (lambda x: x * x + c * c)                       # after one step
        elif start == 2: x0, f = 0.0, (lambda x: x**3 - abs(c) - 1)
        else: x0, f = c, (lambda x: (x * x + c * c) * -3.0)
        fp = [lambda x: 2 * x, lambda x: 2 * x, lambda x: 3 * x * x, lambda x: -6 * x][start]
    if kind == 2 and abs(x0) < 0.01: return False
    g = Counted(f)
    if n is not None and n != 50: kw['maxIterations'] = n
    if d is not None: kw['default'] = d
    x = NewtonsMethod(g, fp, x0, 0.0, **kw)
    want = 0.0 if d is None else d
    w = 'kind %d from %r with %r' % (kind, x0, kw)
    ensure(x == want and not (isinstance(x, float) and math.isnan(x)), w, 'returned', x, 'instead of the default', want)
    ensure(g.n <= (50 if n is None else n), w, 'took', g.n, 'evaluations')
    return True


def bounds(case, ctx):
    """the iteration stays within the interval, by the precision, even if a step ends on its excluded ends"""
    from causets.calculations import NewtonsMethod
    prec = 10.0 ** -case['prec']
    a, x1, up = case['a'] / 8.0, case['x'] / 16.0, case['up']
    s = 1.0 if up else -1.0
    if case['kind'] == 0:  # logarithm: from x1 the first step ends (nearly) at its singularity
        f = lambda x: math.log(s * (x - a))
        fp = lambda x: 1.0 / (x - a)
        y = math.log(x1) - 1.0 + case['off'] * 10.0 ** -case['eps'] * (case['eps'] < 17)
        root = a + s * math.exp(y)
        kw = {'xmin' if up else 'xmax': a}
    else:  # linear, with its root at, beyond or close to the end
        root = a + s * case['off'] / 4.0
        f, fp, y = (lambda x: 2.0 * (x - root) + 1.0), (lambda x: 2.0), 1.0
        kw = {'xmin' if up else 'xmax': a}
    x0 = a + s * x1
    if case['both']: kw['xmax' if up else 'xmin'] = a + s * 64.0
    if case['prec'] != 6: kw['precission'] = prec
    g = Counted(f)
    w = 'function kind %d, start %r, y = %r, %r' % (case['kind'], x0, y, kw)
    try:
        x = NewtonsMethod(g, fp, x0, y, default=-777.5, **kw)
    except (ValueError, ZeroDivisionError) as e:
        raise Violation('%s: the function was evaluated at %r outside of the interval (%s)' % (w, g.args[-1], e))
    lo, hi = kw.get('xmin', -math.inf), kw.get('xmax', math.inf)
    for v in g.args[1:] + ([x] if x != -777.5 else []):
        ensure(lo + prec * 0.999 <= v <= hi - prec * 0.999, w, ': evaluates or returns', v, 'closer than the precision to the ends of the interval')
    if case['kind'] == 1 and root == a: ensure(abs(x - root) <= 1.01 * prec, w, 'returned', x, 'but the root is the end of the interval', root)
    if s * (root - a) > 2 * prec:
        ensure(abs(x - root) <= 1.01 * prec + 1e-11, w, 'returned', x, 'but the root is', root)
        return True
    return False


def coarse(case, ctx):
    """linear functions with any precision, interval and start value (also outside of the interval)"""
    from causets.calculations import NewtonsMethod
    p = case['p'] / 64.0
    a = case['a'] / 8.0
    b = a + 2 * p + case['w'] / 16.0
    x0, root, s = a + case['x0'] / 32.0, a + case['root'] / 32.0, case['s'] / 4.0 or 1.0
    kw = {}
    if case['ends'] != 1: kw['xmin'] = a
    if case['ends'] != 2: kw['xmax'] = b
    f = Counted(lambda x: s * (x - root) - 3.0)
    x = NewtonsMethod(f, lambda x: s, x0, -3.0, default=-777.5, precission=p, **kw)
    lo, hi = (a + p if 'xmin' in kw else -math.inf), (b - p if 'xmax' in kw else math.inf)
    want = min(max(root, lo), hi)
    w = 'NewtonsMethod(linear with root %r, start %r, precission %r, %r) = %r' % (root, x0, p, kw, x)
    ensure(x != -777.5, w, 'does not converge')
    ensure(lo - 1e-9 <= x <= hi + 1e-9, w, 'is closer than the precision to the ends of the interval')
    ensure(abs(x - want) <= 1.0001 * p + 1e-9, w, 'expected', want)
    return not lo <= x0 <= hi or want != root


FACETS = [
    Facet('root', st.fixed_dictionaries(dict(fun=st.sampled_from(sorted(FUN)), root=st.integers(0, 1000), start=st.integers(-1000, 1000),
                                             prec=st.sampled_from([6, 6, 3, 4, 8, 9, 10]), given=st.booleans(), lim=st.one_of(st.none(), st.integers(-6, 4)),
                                             xmin=st.one_of(st.none(), st.integers(0, 100)), xmax=st.one_of(st.none(), st.integers(0, 100)), salt=SALT)),
          root, 8000, rule='monotone function with known root, start value, interval and precision; non-trivial: the start is not the root'),
    Facet('integers', st.fixed_dictionaries(dict(fun=st.sampled_from(sorted(INT)), type=st.sampled_from([0, 0, 0, 1, 2, 3]), x0=st.integers(-9, 9), y=st.integers(-60, 60), ends=st.integers(0, 3), salt=SALT)), integers, 1500,
          rule='integers as start value, function value and interval; non-trivial: the root is no integer'),
    Facet('multiple', st.fixed_dictionaries(dict(m=st.integers(2, 5), r=st.one_of(st.integers(-9000, 9000), st.integers(-9, 9)), d=st.integers(-60, 60), prec=st.sampled_from([6, 6, 3, 4, 8]),
                                                 neg=st.booleans(), max=st.one_of(st.none(), st.integers(1, 120)), salt=SALT)), multiple, 3000,
          rule='multiple roots, approached linearly; non-trivial: the root is larger than 10'),
    Facet('iterations', st.fixed_dictionaries(dict(slope=st.integers(-20, 20), r=st.integers(-80, 80), x0=st.integers(-80, 80),
                                                   max=st.integers(0, 6), salt=SALT)), iterations, 3000,
          rule='linear functions with a limit of 0 to 6 iterations; non-trivial: limit above 0 and the start is not the root'),
    Facet('failing', st.fixed_dictionaries(dict(kind=st.integers(0, 5), max=st.one_of(st.just(50), st.integers(1, 60)), p=st.integers(0, 64),
                                                x0=st.integers(-64, 64), default=st.one_of(st.none(), st.sampled_from([-7.25, 3.0, 1e9, -0.5])), salt=SALT)),
          failing, 3000, rule='functions without a root, with vanishing derivative or without convergence'),
    Facet('bounds', st.fixed_dictionaries(dict(kind=st.integers(0, 1), a=st.integers(-40, 40), x=st.integers(1, 160), up=st.booleans(), both=st.booleans(), prec=st.sampled_from([6, 6, 4, 8]),
                                               off=st.integers(-8, 8), eps=st.integers(1, 17), salt=SALT)), bounds, 3000,
          rule='steps that end at or beyond an end of the interval; non-trivial: the root is inside'),
    Facet('coarse', st.fixed_dictionaries(dict(p=st.one_of(st.integers(1, 64), st.integers(1, 8)), a=st.integers(-40, 40), w=st.integers(0, 64), x0=st.integers(-40, 120), root=st.integers(-40, 120),
                                               s=st.integers(-20, 20), ends=st.integers(0, 2), salt=SALT)), coarse, 3000,
          rule='linear functions, precision 1/64 to 1, any start value and root; non-trivial: the start or the root is outside of the interval'),
]
