"""C19: drawn shape outlines trace the boundary of the shape."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT
from pbt import draw, others
from checks.c18 import shapes, Ref, make

ASSUMPTIONS = ['curves are judged as closed curves with the non-zero winding rule that the plotting backends use', 'the number of points of a cuboid face is not judged (the documented 5 x 4 is not '
               'what any version returned)', 'plotted curves have a tolerance of 1 percent for their sampling']
Q = st.integers(-40, 40).map(lambda k: k / 8)
PQ = st.one_of(st.integers(1, 40).map(lambda k: k / 8), st.floats(0.02, 30))
HOL = st.one_of(st.just(0.0), st.floats(0.02, 0.98), st.just(0.5))
DS = st.sampled_from([0, 0, 0, 16, 7, 60])
SS = st.one_of(st.integers(3, 64), st.sampled_from([-1, 0, 1, 2, 24, 128]))


def split(XY, n, sizes, what):
    ensure(isinstance(XY, np.ndarray) and XY.ndim == 2 and XY.shape[1] == 2, what, 'is no two-column matrix:', np.shape(XY))
    if n is not None: eq(len(XY), n, what + ': number of rows')
    P = draw.parts(XY)
    eq(len(P), sizes, what + ': number of separate curves')
    for q in P: ensure(np.abs(q[0] - q[-1]).max() <= 1e-9 * (1 + np.abs(q).max()), what, ': curve is not closed, from', q[0], 'to', q[-1])
    return P


def near(v, want, tol, what):
    ensure(abs(float(v) - want) <= tol, what, 'is', float(v), 'expected', want)


def around(q, c, radii, s, what):
    """the curve is a regular traversal of the ellipse"""
    y = (q - np.array(c)) / np.array(radii)
    r = np.sqrt((y**2).sum(axis=1))
    tol = 1e-9 * (1 + max(abs(v) for v in c) / min(radii))
    ensure(np.abs(r - 1).max() <= tol, what, 'leaves the boundary:', float(r.min()), float(r.max()))
    if s >= 3:
        a = np.arctan2(y[:, 1], y[:, 0])
        step = np.angle(np.exp(1j * np.diff(a)))
        ensure(np.abs(step).max() <= 2 * math.pi / s * 1.01 + 1e-6, what, 'has gaps of', float(np.abs(step).max()))
        near(abs(step.sum()), 2 * math.pi, 1e-6, what + ': total angle')


def polygon_area(s):
    return s / 2 * math.sin(2 * math.pi / s)


def default_size(run):
    """with another default sampling size"""
    def f(case, ctx):
        from causets import shapes as sh
        old = sh.default_samplingsize
        if case.get('ds'): sh.default_samplingsize = case['ds']
        own = []
        try: res = run(case, ctx, own)
        finally: sh.default_samplingsize = old
        for a, v in own: eq(a.tolist(), list(v), 'an array given for the outline of %r after the call' % case['kind'])
        return res
    return f


def keep(own, v):
    a = np.array(v)
    own.append((a, v))
    return a


@default_size
def curve(case, ctx, own):
    from causets import shapes as sh
    c, (r, r2), h, s, k = case['c'][:2], case['r'], case['h'], case['s'], case['kind']
    if others.some(case):   # integers
        c, r, r2 = [round(v) for v in c], max(1, round(r)), max(1, round(r2))
    C = np.array(c)
    own.append((C, c))
    n = s if s > 0 else sh.default_samplingsize
    big = 1 + max(map(abs, c)) + r + r2
    tol = 1e-9 * big
    kw = {} if s == -1 else dict(samplingsize=s)
    if h > 0: kw['hollow'] = h
    w = '%s%r' % (k, (c, r, r2, kw))
    if k == 'rectangle':
        P = split(sh.RectangleEdge(c[0], c[1], r, r2), 5, 1, w)
        want = {(0, 0), (0, 1), (1, 0), (1, 1)}
        got = {(round((x - c[0]) / r, 6), round((y - c[1]) / r2, 6)) for x, y in P[0]}
        eq(got, want, w + ': corners')
        near(abs(draw.area(P[0])), r * r2, tol * big, w + ': area')
        return True
    if k in ('circle', 'ellipse'):
        radii = (r, r) if k == 'circle' else (r, r2)
        XY = sh.CircleEdge(C, r, **kw) if k == 'circle' else sh.EllipseEdge(C, keep(own, radii), **kw)
        P = split(XY, n + 1 if h == 0 else 2 * n + 3, 1 if h == 0 else 2, w)
        for q, f in zip(sorted(P, key=lambda q: -np.ptp(q[:, 0]) - np.ptp(q[:, 1])) if n > 2 else P, (1.0, h)): around(q, c, [f * v for v in radii], n, w)
        full = radii[0] * radii[1] * (1 - h * h)
        if n >= 3: near(abs(sum(draw.area(q) for q in P)), polygon_area(n) * full, 1e-8 * big * big, w + ': area between the curves')
        return n >= 3
    if k == 'bicone':
        XY = sh.BiconeEdge(C, r, h) if h else sh.BiconeEdge(C, r)
        P = split(XY, 5 if h == 0 else 11, 1 if h == 0 else 2, w)
        for q, f in zip(sorted(P, key=lambda q: -np.ptp(q[:, 0])), (r, h * r)):
            got = {(round((x - c[0]) / f, 6), round((y - c[1]) / f, 6)) for x, y in q}
            eq({(a + 0.0, b + 0.0) for a, b in got}, {(1, 0), (-1, 0), (0, 1), (0, -1)}, w + ': corners')
        near(abs(sum(draw.area(q) for q in P)), 2 * r * r * (1 - h * h), tol * big, w + ': area')
        return True
    XY = sh.CylinderCutEdge(C, r, r2, h) if h else sh.CylinderCutEdge(C, r, r2)
    P = split(XY, 5 if h == 0 else 11, 1 if h == 0 else 2, w)
    got = sorted({(round((x - c[0]) / r, 6) + 0.0, round((y - c[1]) / r2, 6) + 0.0) for q in P for x, y in q})
    xs = [-1.0, 1.0] if h == 0 else [-1.0, -round(h, 6), round(h, 6), 1.0]
    eq(got, sorted((x, y) for x in xs for y in (-0.5, 0.5)), w + ': corners')
    near(abs(sum(draw.area(q) for q in P)), 2 * r * (1 - h) * r2, tol * big, w + ': area')
    return True


def gaps(v, n, what):
    """sorted directions leave no gap larger than their sampling"""
    a = np.sort(np.unique(np.round(v, 9)))
    if len(a) > 1: ensure(np.diff(a).max() <= n * 1.01 + 1e-6, what, 'has gaps of', float(np.diff(a).max()))


@default_size
def surface(case, ctx, own):
    from causets import shapes as sh
    c, (r, r2), h, s, k, z = case['c'], case['r'], case['h'], case['s'], case['kind'], case['z']
    if others.some(case):   # integers
        c, r, r2 = [round(v) for v in c], max(1, round(r)), max(1, round(r2))
    C = np.array(c)
    own.append((C, c))
    n = s if s > 0 else sh.default_samplingsize
    big = 1 + max(map(abs, c)) + r + r2
    tol = 1e-9 * big
    kw = {} if s == -1 else dict(samplingsize=s)
    w = '%s%r' % (k, (c, r, r2, h, z, kw))
    if k in ('cuboid', 'cube'):
        e = [r, r2, case['r3']] if k == 'cuboid' else [r] * 3
        S = sh.CuboidSurface(C, keep(own, e)) if k == 'cuboid' else sh.CubeSurface(C, r)
        faces = set()
        for XYZ in S:
            y = (draw.mesh_points(XYZ) - C) / np.array(e)
            ensure(np.abs(np.abs(y) - 0.5).max() <= 1e-9 * big / min(e), w, 'has points that are no corners')
            flat = [a for a in range(3) if np.ptp(y[:, a]) < 1e-6]
            eq(len(flat), 1, w + ': constant directions of a face')
            faces.add((flat[0], bool(y[0, flat[0]] > 0)))
            eq({tuple(np.sign(p)) for p in y}, {tuple(np.sign(p)) for p in y if True}, w)
            eq(len({tuple(np.sign(p)) for p in y}), 4, w + ': corners of a face')
            ensure(draw.mesh_area(XYZ) > 0.99 * np.prod([e[a] for a in range(3) if a != flat[0]]), w, ': the face is not covered')
        eq(len(faces), 6, w + ': number of faces')
        return True
    if k == 'ball': S = sh.BallSurface(C, r, **kw)
    elif k == 'cylinder':
        if z != 2 or s % 2: kw['zaxis'] = z     # default arguments are left out at times
        if h or s % 3: kw['hollow'] = h
        S = sh.CylinderSurface(C, r, r2, **kw)
    else:
        ht = r2 if case['up'] else -r2
        if z != 2 or s % 2: kw['zaxis'] = z
        S = sh.OpenConeSurface(C, r, ht, **kw)
    eq(len(S), 1, w + ': number of surfaces')
    X, Y, Z = [np.asarray(a) for a in S[0]]
    m = {'ball': [(n + 1, round((n + 1) / 2))], 'cylinder': [(4 if h == 0 else 5, n + 1)], 'cone': [(2, n + 1)]}[k]
    for a in (X, Y, Z): ensure(a.shape in m, w, ': matrix of size', a.shape, 'expected', m)
    y = draw.mesh_points(S[0]) - C
    if k == 'ball':
        near(np.abs(np.sqrt((y**2).sum(axis=1)) - r).max(), 0.0, tol, w + ': distance from the sphere')
        if n >= 3:  # both poles
            reach = [(float(y[:, a].min()), float(y[:, a].max())) for a in range(3)]
            ensure(any(abs(lo + r) <= tol and abs(hi - r) <= tol for lo, hi in reach), w, ': the surface is open, it reaches', reach)
        if n >= 24: near(draw.mesh_area(S[0]), 4 * math.pi * r * r, 0.03 * 4 * math.pi * r * r, w + ': area')
        return n >= 3
    b = y[:, [a for a in range(3) if a != z]]
    q, t = np.sqrt((b**2).sum(axis=1)), y[:, z]
    if k == 'cylinder':
        onside = np.minimum(np.abs(q - r), np.abs(q - h * r) if h else np.inf) <= tol
        oncap = (np.abs(np.abs(t) - r2 / 2) <= tol) & (q <= r + tol) & (q >= h * r - tol)
        inside = np.abs(t) <= r2 / 2 + tol
        ensure((inside & (onside | oncap)).all(), w, 'leaves the boundary of the cylinder')
        for v in (-r2 / 2, r2 / 2):
            e = np.abs(t - v) <= tol
            ensure(e.any(), w, ': no points at height', v)
            near(q[e].max(), r, tol, w + ': outer radius at height %r' % v)
            near(q[e].min(), h * r, tol, w + ': inner radius at height %r' % v)
        if n >= 24:
            A = 2 * math.pi * r * r2 * (1 + h) + 2 * math.pi * r * r * (1 - h * h)
            near(draw.mesh_area(S[0]), A, 0.02 * A, w + ': area')
    else:
        near(np.abs(q - r * t / ht).max(), 0.0, tol, w + ': distance from the cone')
        near(t.min() if ht < 0 else t.max(), ht, tol, w + ': height')
        near(t.max() if ht < 0 else t.min(), 0.0, tol, w + ': tip')
        if n >= 24: near(draw.mesh_area(S[0]), math.pi * r * math.hypot(r, r2), 0.02 * math.pi * r * math.hypot(r, r2), w + ': area')
    if n >= 3:  # all directions
        rim = b[q > (r if k != 'cone' else abs(r)) * 0.99]
        a = np.arctan2(rim[:, 1], rim[:, 0])
        gaps(np.concatenate([a, a + 2 * math.pi]), 2 * math.pi / n, w)
    return n >= 3


# ---- plots
def cut(R, dims, p):
    """full coordinates of a point of the cut through the centre"""
    x = list(R.c)
    for a, v in zip(dims, p): x[a] = v
    return x


def state(R, x, m):
    """1 inside with margin, -1 outside with margin, 0 undecided (margin relative to the size)"""
    q, t = R.radial(x)
    if q > 1 + m or t > 1 + m: return -1
    if R.h > 0 and q < R.h - m: return -1
    if q < 1 - m and t < 1 - m and (R.h == 0 or q > R.h + m): return 1
    return 0


def plot2(case, ctx):
    s, dims = case['shape'], case['dims']
    S, R = make(s), Ref(s)
    own = case['own']
    kw = {}
    if case['style']: kw = dict(alpha=0.5, facecolor='red')
    if own:
        f = draw.plt.figure()
        try:
            p = S.plot(list(dims), **kw)
            ax = f.axes[0]
        finally:
            draw.plt.close(f)
    else:
        ax = draw.axes(False)
        p = S.plot(list(dims), plotAxes=ax, **kw)
    w = 'plot of %r along %r' % (s, dims)
    ensure(len(ax.patches) == 1 and ax.patches[0] is p, w, ': the returned patch is not the one on the axes')
    near(p.get_alpha(), 0.5 if case['style'] else 0.05, 1e-9, w + ': opacity')
    ensure(tuple(p.get_facecolor()[:3]) == ((1, 0, 0) if case['style'] else (0, 0, 0)), w, ': colour', p.get_facecolor())
    P = draw.patch_parts(p)
    half = [R.half(a) for a in dims]
    V = np.vstack(P)
    for a in (0, 1):
        near(V[:, a].min(), R.c[dims[a]] - half[a], 2e-3 * half[a] + 1e-6 * R.scale(), '%s: left end of axis %d' % (w, a))
        near(V[:, a].max(), R.c[dims[a]] + half[a], 2e-3 * half[a] + 1e-6 * R.scale(), '%s: right end of axis %d' % (w, a))
    rng = np.random.default_rng(case['seed'])
    pts = [[R.c[dims[a]] + half[a] * 1.3 * u for a, u in zip((0, 1), uv)] for uv in rng.uniform(-1, 1, size=(150, 2))]
    # more points at the boundaries
    for f in (R.h or 0.5, 1.0):
        for uv in rng.standard_normal(size=(25, 2)):
            q = R.radial(cut(R, dims, [R.c[dims[a]] + half[a] * uv[a] for a in (0, 1)]))
            g = f / max(max(q), 1e-9) * (1 + 0.03 * rng.uniform(-1, 1))
            pts.append([R.c[dims[a]] + half[a] * uv[a] * g for a in (0, 1)])
    m = 0.01 + 4e-6 * R.scale() / min(half)
    win = draw.winding(P, pts)
    n = 0
    for x, k in zip(pts, win):
        t = state(R, cut(R, dims, x), m)
        if t: ensure((k != 0) == (t > 0), w, ': the point', x, 'is drawn', 'inside' if k else 'outside')
        n += t > 0
    ctx.count('points', len(pts))
    return R.h > 0 or dims[1] == 0 or 'center' in s['kw']


def plot3(case, ctx):
    s, dims = case['shape'], case['dims']
    S, R = make(s), Ref(s)
    kw = dict(alpha=0.5) if case['style'] else {}
    if case['own']:
        f = draw.plt.figure()
        try:
            out = S.plot(list(dims), **kw)
            ax = f.axes[0]
        finally:
            draw.plt.close(f)
    else:
        ax = draw.axes(True)
        out = S.plot(list(dims), plotAxes=ax, **kw)
    w = 'plot of %r along %r' % (s, dims)
    ensure(isinstance(out, (list, tuple)) and all(len(o) == 3 and np.ndim(o[0]) == 2 for o in out), w, 'returns no list of surfaces')
    eq(len(ax.collections), len(out), w + ': number of surfaces on the axes')
    ensure(all(hasattr(c, '_vec') for c in ax.collections), w, 'draws no surfaces in 3D')
    for c in ax.collections:
        near(c.get_alpha(), 0.5 if case['style'] else 0.05, 1e-9, w + ': opacity')
    half = [R.half(a) for a in dims]
    m = 2e-3 + 4e-6 * R.scale() / min(half)
    for what, G in (('returned surfaces', [draw.mesh_points(o) for o in out]), ('drawn surfaces', [draw.collection_points(c) for c in ax.collections])):
        V = np.vstack(G)
        V = V[np.isfinite(V).all(axis=1)]
        for a in range(3):
            near(V[:, a].min(), R.c[dims[a]] - half[a], 5e-3 * half[a] + 1e-6 * R.scale(), '%s, %s: left end of axis %d' % (w, what, a))
            near(V[:, a].max(), R.c[dims[a]] + half[a], 5e-3 * half[a] + 1e-6 * R.scale(), '%s, %s: right end of axis %d' % (w, what, a))
        seen, inner = set(), []
        step = max(1, len(V) // 1500)
        for x in V[::step]:
            q, t = R.radial(cut(R, dims, x))
            ensure(q <= 1 + m and t <= 1 + m and q >= R.h - m, w, ':', what, 'leave the region at', list(x))
            on = [abs(q - 1) < m, R.h > 0 and abs(q - R.h) < m, abs(t - 1) < m]
            if not any(on) and R.name not in ('cube', 'cuboid'):
                raise Violation('%s: %s pass through the interior at %r' % (w, what, list(x)))
            if on[0]: seen.add('outer')
            if on[1]:
                seen.add('inner')
                inner.append(x)
        ensure('outer' in seen, w, ':', what, 'do not show the outer boundary')
        if R.h > 0: ensure('inner' in seen, w, ':', what, 'do not show the empty interior')
        if R.h > 0:     # its whole extent
            for a in range(3):
                for s_, f in ((-1, min), (1, max)):
                    flat = R.name == 'cylinder' and dims[a] == 0
                    near(f(x[a] for x in inner), R.c[dims[a]] + s_ * half[a] * (1 if flat else R.h), (5e-3 + (0.02 if step > 1 else 0)) * half[a] + 1e-6 * R.scale(),
                         '%s, %s: end of the empty interior along axis %d' % (w, what, a))
    if R.name == 'bicone' and 0 in dims and not R.h:
        tot = sum(draw.mesh_area(o) for o in out)
        near(tot, 2 * math.pi * R.r * R.r * math.sqrt(2), 0.03 * tot, w + ': area')
    return True


@st.composite
def plots(draw_, n):
    s = draw_(shapes(n, 5))
    dims = draw_(st.permutations(range(s['d'])).map(lambda p: list(p[:n])))
    if draw_(st.booleans()) and 0 not in dims: dims[draw_(st.integers(0, n - 1))] = 0
    return dict(shape=s, dims=dims, own=draw_(st.integers(0, 9)) == 0, style=draw_(st.booleans()), seed=draw_(st.integers(0, 2**31)), salt=draw_(SALT))


FD = st.fixed_dictionaries
FACETS = [
    Facet('curves', FD(dict(kind=st.sampled_from(['rectangle', 'circle', 'ellipse', 'bicone', 'cylinder']), c=st.lists(Q, min_size=2, max_size=2), r=st.lists(PQ, min_size=2, max_size=2), h=HOL, s=SS, ds=DS, salt=SALT)),
          curve, 6000, rule='outlines with random centre, size, hollow fraction and sampling; non-trivial: at least three samples'),
    Facet('surfaces', FD(dict(kind=st.sampled_from(['cuboid', 'cube', 'ball', 'cylinder', 'cylinder', 'cone', 'cone']), c=st.lists(Q, min_size=3, max_size=3), r=st.lists(PQ, min_size=2, max_size=2), r3=PQ, h=HOL, s=SS,
                              z=st.integers(0, 2), up=st.booleans(), ds=DS, salt=SALT)), surface, 4000,
          rule='surfaces with random centre, size, axis and sampling; non-trivial: at least three samples'),
    Facet('plots 2D', plots(2), plot2, 1600, rule='points inside and outside of the drawn patch; non-trivial: hollow, off-centre or time on the second axis'),
    Facet('plots 3D', plots(3), plot3, 1000, rule='vertices of the returned and drawn surfaces; all count as non-trivial'),
]
