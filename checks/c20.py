"""C20: plotted light cones enclose exactly the causally related points."""
import itertools, math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT
from pbt import draw, geometry as G, others

ASSUMPTIONS = ['points within one to three percent of the drawn boundary are not decided', 'periodic cones are compared within one and a half periods around the event (copies are drawn one period apart)',
               'de Sitter cones in two and three dimensions (others are documented as not implemented), anti-de Sitter cones are not implemented',
               'a two-dimensional plot of a three-dimensional de Sitter cone against time shows its projection', 'events at least 5 percent away from the black hole horizon, or exactly on it in Eddington-Finkelstein coordinates',
               'for events inside of the horizon in Schwarzschild coordinates, where time is spacelike, future cones are not bounded by the time slice and past cones only on its side; the part of a future cone behind the horizon is bounded by the time slice only']


def related(sp, o, x, sign):
    """x is in the future (sign 1) or past of o; None if undecided"""
    w = G.decide(sp, o, x)
    return None if w is None else w[0] if sign > 0 else w[1]


def robust(f, p, m):
    """f(p) if it is the same in the neighbourhood"""
    w = f(p)
    if w is None: return None
    for k in range(len(p)):
        for s in (-m[k], m[k]):
            q = list(p)
            q[k] += s
            if f(q) != w: return None
    return w


def setup(case, d3, ctx):
    sp, o, sign = case['sp'], case['o'], case['sign']
    t = o[0] + case['dt']
    S = G.make_spacetime(sp)
    ax = draw.axes(d3)
    alpha = case['alpha']
    seen = []

    def dyn(r):
        seen.append(r)
        return alpha

    kw = dict(dynamicAlpha=dyn) if alpha is not None else {}
    if case['ss']: kw['samplingsize'] = case['ss']
    params = {'alpha': 0.3} if d3 else {'alpha': 0.3, 'facecolor': 'red'}
    if case.get('cur'):  # the current axes, given by default
        draw.plt.sca(ax)
        cone = S.ConePlotter(list(case['dims']), params, float(sign), **kw)
    else: cone = S.ConePlotter(list(case['dims']), params, float(sign), ax, **kw)
    if others.some(case):  # another plotter of the same spacetime
        S.ConePlotter(list(case['dims'])[::-1], {'alpha': 0.7}, -float(sign), draw.other_axes(d3), dynamicAlpha=lambda r: 0.2, samplingsize=7)
    q = np.array(o, dtype=float)
    if others.some([case, 1]) and all(v == int(v) and (v or math.copysign(1, v) > 0) for v in o):
        q = np.array(o, dtype=int)
        ctx.count('integer events')
        if t == int(t): t = int(t)
    out = cone(q, t)
    ensure(list(q) == list(o), 'the coordinates', o, 'were changed to', q)
    r = sign * case['dt']
    w = 'cone of %r along %r from %r to %r (sign %d)' % (sp, case['dims'], o, t, sign)
    beyond = sp['st'] == 'dS' and G.dot(o[1:], o[1:]) >= sp['r']**2
    n = len(ax.collections) if d3 else len(ax.patches)
    if r <= 0 or (alpha is not None and alpha <= 0) or beyond:
        ensure(out is None, w, 'with opacity', alpha, 'is drawn')
        eq(n, 0, w + ': number of artists')
        return None
    ensure(out is not None, w, 'is not drawn')
    if alpha is not None and seen: ensure(abs(seen[-1] - r) < 1e-9 * (1 + abs(r)), w, ': opacity was requested for the size', seen[-1])
    if d3: eq(n, len(out), w + ': number of artists')
    else:
        ensure(n == 1 and ax.patches[0] is out, w, ': the returned patch is not the one on the axes')
        a = out.get_alpha()
        ensure(abs(a - (0.3 if alpha is None else alpha)) < 1e-9, w, ': opacity is', a, 'expected', alpha)
    return out, t, w


def widest(sp, o, x, k, sign, slack):
    """is there a point with the time x[0] and the component x[k] that is related to o? (3D de Sitter)"""
    a = sp['r']
    other = 3 - k
    if abs(x[k]) >= a: return False
    lim = math.sqrt(a * a - x[k]**2)

    def q(v):
        y = [x[k], v] if k == 1 else [v, x[k]]
        return math.sqrt(max(0.0, a * a - G.dot(o[1:], o[1:]))) * math.sqrt(max(0.0, a * a - x[k]**2 - v * v)) * math.cosh((x[0] - o[0]) / a) + o[1] * y[0] + o[2] * y[1] - a * a

    lo, hi = -lim, lim
    for _ in range(100):
        u, v = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if q(u) < q(v): lo = u
        else: hi = v
    return q((lo + hi) / 2) >= 0 and (x[0] - o[0]) * sign >= 0


def flat2(case, ctx):
    res = setup(case, False, ctx)
    if res is None: return False
    p, t, w = res
    sp, o, dims, sign = case['sp'], case['o'], case['dims'], case['sign']
    r = abs(case['dt'])
    P = draw.patch_parts(p)
    timeaxis = dims.index(0) if 0 in dims else -1
    per = G.periods(sp)
    rng = np.random.default_rng(case['seed'])
    copies = images(sp, o, dims, 2)
    ext = []
    for a in dims:
        q = per[a - 1] if a > 0 else 0.0
        ext.append(1.4 * q if q > 0 else 1.4 * r)

    def want(x):
        y = list(o) if timeaxis >= 0 else [t] + list(o[1:])
        for a, v in zip(dims, x): y[a] = v
        if timeaxis >= 0 and not min(o[0], t) <= y[0] <= max(o[0], t): return False
        near = abs(y[0] - o[0]) if timeaxis >= 0 else r
        for c in copies:  # copies may touch
            if abs(math.hypot(*(y[a] - v for a, v in zip(dims, c) if a)) - near) < 0.01 * r: return None
        return related(sp, o, y, sign)

    pts = [[o[a] + e * u for a, e, u in zip(dims, ext, v)] for v in rng.uniform(-1, 1, size=(120, 2))]
    for v in rng.uniform(-1, 1, size=(60, 2)):  # close to the boundary, of any copy
        sh = [per[a - 1] * rng.integers(-1, 2) if a > 0 and per[a - 1] > 0 else 0.0 for a in dims]
        if timeaxis >= 0:
            s = r * abs(v[0])
            x = [o[a] + (sign * s if a == 0 else s * np.sign(v[1]) * (1 + 0.08 * v[1])) + h for a, h in zip(dims, sh)]
        else:
            ang = math.pi * v[0]
            x = [o[a] + r * (1 + 0.08 * v[1]) * c + h for a, c, h in zip(dims, (math.cos(ang), math.sin(ang)), sh)]
        if all(abs(y - o[a]) <= e or a == 0 for y, a, e in zip(x, dims, ext)): pts.append([float(y) for y in x])
    compare(P, pts, want, [0.01 * r] * 2, w, ctx)
    ctx.count('periodic', int(any(per[a - 1] > 0 for a in dims if a)))
    return True


def compare(P, pts, want, m, w, ctx):
    win = draw.winding(P, pts)
    for x, k in zip(pts, win):
        v = robust(want, x, m)
        if v is None: continue
        ctx.count('inside' if v else 'outside')
        ensure((k != 0) == v, w, ': the point', x, 'is', 'inside' if k else 'outside', 'of the drawn cone')


def images(sp, o, dims, n=1):
    per = G.periods(sp)
    sh = [range(-n, n + 1) if a > 0 and per[a - 1] > 0 else [0] for a in dims]
    return [[o[a] + s * (per[a - 1] if a else 0.0) for a, s in zip(dims, c)] for c in itertools.product(*sh)]


def flat3(case, ctx):
    res = setup(case, True, ctx)
    if res is None: return False
    out, t, w = res
    sp, o, dims = case['sp'], case['o'], case['dims']
    r, dt = abs(case['dt']), case['dt']
    V = np.vstack([draw.mesh_points(s) for s in out])
    timeaxis = dims.index(0) if 0 in dims else -1
    I = np.array(images(sp, o, dims))
    big = 1 + np.abs(V).max() + r
    sp_ax = [k for k in range(3) if k != timeaxis]
    dist = np.sqrt(((V[:, None, :] - I[None, :, :])[:, :, sp_ax]**2).sum(axis=2))
    rad = np.abs(V[:, timeaxis] - o[0]) if timeaxis >= 0 else np.full(len(V), r)
    err = np.abs(dist - rad[:, None])
    ensure(err.min(axis=1).max() <= 1e-9 * big, w, ': drawn points are not light-like related to the event or a copy of it')
    if timeaxis >= 0:
        tt = (V[:, timeaxis] - o[0]) / dt
        ensure(tt.min() >= -1e-9 and tt.max() <= 1 + 1e-9, w, ': times exceed the time slice')
        ensure(abs(tt.min()) <= 1e-9 and abs(tt.max() - 1) <= 1e-9, w, ': the cone does not reach from the event to the time slice')
    for k, c in enumerate(I):  # each copy is drawn completely
        sel = (err[:, k] <= 1e-9 * big) & (dist[:, k] > 0.99 * r if timeaxis >= 0 else True)
        ensure(sel.any(), w, ': no cone around', list(c))
        y = V[sel] - c
        for a in sp_ax:
            ensure(y[:, a].max() > 0.5 * r and y[:, a].min() < -0.5 * r, w, ': the cone around', list(c), 'is incomplete along axis', a)
    return True


def dS2(case, ctx):
    res = setup(case, False, ctx)
    if res is None: return False
    p, t, w = res
    sp, o, dims, sign = case['sp'], case['o'], case['dims'], case['sign']
    a, dt = sp['r'], case['dt']
    P = draw.patch_parts(p)
    ensure(all(np.isfinite(q).all() for q in P) and P, w, 'has coordinates that are not finite')
    rng = np.random.default_rng(case['seed'])
    if 0 not in dims:  # the front is an ellipse: points around each vertex
        eq(len(P), 1, w + ': number of curves')
        V = P[0]
        c = (V.max(axis=0) + V.min(axis=0)) / 2
        step = np.angle(np.exp(1j * np.diff(np.arctan2(V[:, 1] - c[1], V[:, 0] - c[0]))))
        ensure(abs(abs(step.sum()) - 2 * math.pi) < 1e-3, w, ': the front is not closed')
        for v in V[::5]:
            for f in (0.98, 1.02):
                x = [t, 0.0, 0.0]
                for b, u in zip(dims, c + f * (v - c)): x[b] = float(u)
                got = related(sp, o, x, sign)
                if got is None: continue
                ctx.count('points')
                ensure(got == (f < 1), w, ': the point', x, 'close to the drawn boundary is', 'related' if got else 'unrelated')
        return True
    k = [b for b in dims if b][0]

    def want(x):
        y = dict(zip(dims, x))
        if not min(o[0], t) <= y[0] <= max(o[0], t): return False
        if sp['dim'] == 2: return related(sp, o, [y[0], y[1]], sign)
        z = [y[0], 0.0, 0.0]
        z[k] = y[k]
        return widest(sp, o, z, k, sign, 0.0)

    V = np.vstack(P)
    lo, hi = V.min(axis=0), V.max(axis=0)
    for b, l, h in zip(dims, lo, hi):
        if b == 0: ensure(abs(l - min(o[0], t)) < 1e-6 and abs(h - max(o[0], t)) < 1e-6, w, ': times range from', l, 'to', h)
    sz = hi - lo
    pts = [list(map(float, lo + sz * v)) for v in rng.uniform(-0.15, 1.15, size=(60, 2))]
    for v in V[rng.integers(0, len(V), size=40)]:
        pts.append(list(map(float, v + sz * rng.uniform(-0.06, 0.06, size=2))))
    f = 0.02 if not case['ss'] or case['ss'] > 60 else 0.05
    compare(P, pts, want, list(map(float, f * sz)), w, ctx)
    return True


def dS3(case, ctx):
    res = setup(case, True, ctx)
    if res is None: return False
    out, t, w = res
    sp, o, dims, sign = case['sp'], case['o'], case['dims'], case['sign']
    eq(len(out), 1, w + ': number of surfaces')
    A = np.stack(draw.mesh(out[0]), axis=2)
    ensure(np.isfinite(A).all(), w, 'has coordinates that are not finite')
    ta = dims.index(0)
    T = A[:, :, ta]
    if np.ptp(T, axis=1).max() > 1e-9: A, T = A.transpose(1, 0, 2), T.T
    ensure(np.ptp(T, axis=1).max() < 1e-9, w, ': the rows are no fronts of constant time')
    tt = T[:, 0]
    ensure(abs(min(tt) - min(o[0], t)) < 1e-9 and abs(max(tt) - max(o[0], t)) < 1e-9, w, ': times range from', min(tt), 'to', max(tt))
    sa = [k for k in range(3) if k != ta]
    for i in range(0, len(tt), max(1, len(tt) // 8)):
        if abs(tt[i] - o[0]) < 0.03 * abs(case['dt']): continue
        F = A[i][:, sa]
        c = (F.max(axis=0) + F.min(axis=0)) / 2
        step = np.angle(np.exp(1j * np.diff(np.arctan2(F[:, 1] - c[1], F[:, 0] - c[0]))))
        ensure(abs(abs(step.sum()) - 2 * math.pi) < 1e-3, w, ': the front is not closed')
        for v in F[::11]:
            for f in (0.98, 1.02):
                x = [float(tt[i]), 0.0, 0.0]
                for k, u in zip(sa, c + f * (v - c)): x[dims[k]] = float(u)
                got = related(sp, o, x, sign)
                if got is None: continue
                ctx.count('points')
                ensure(got == (f < 1), w, ': the point', x, 'close to the drawn boundary is', 'related' if got else 'unrelated')
    return True


def bh(case, ctx):
    res = setup(case, False, ctx)
    if res is None: return False
    p, t, w = res
    sp, o, dims, sign = case['sp'], case['o'], case['dims'], case['sign']
    rs, r0 = sp['r'], abs(o[1])
    P = draw.patch_parts(p)
    ensure(P and all(np.isfinite(q).all() for q in P), w, 'has coordinates that are not finite')
    side = 1.0 if o[1] > 0 else -1.0
    S_inside = sp['metric'] == 'S' and r0 < rs and sign > 0
    S_past = sp['metric'] == 'S' and r0 < rs and sign < 0
    rng = np.random.default_rng(case['seed'])

    def want(x):
        y = dict(zip(dims, x))
        r = side * y[1]
        if r <= 0: return False
        if abs(r / rs - 1) < 0.08: return None
        if S_past:
            if y[0] < t: return False  # time is spacelike at the event: only the side of the time slice is bounded
        elif sp['metric'] == 'S' and r < rs and not S_inside:
            if y[0] > t: return False
        elif not S_inside and not min(o[0], t) <= y[0] <= max(o[0], t): return False
        return related(sp, o, [y[0], y[1]], sign)

    h = abs(case['dt'])
    R = max(r0 + h, 1.5 * rs)
    m = {0: 0.02 * h + 0.01 * rs, 1: 0.03 * min(R, 2 * rs)}
    pts = []
    for u, v, k in zip(rng.uniform(-0.3, 1.3, 200), rng.uniform(-0.1, 1.2, 200), range(200)):
        tt = o[0] + sign * h * u if not S_inside else o[0] + rs * 4 * (u - 0.5)
        rr = R * v if k % 3 else rs * v
        pts.append([tt if d == 0 else side * rr for d in dims])
    compare(P, [[float(a) for a in q] for q in pts], want, [m[d] for d in dims], w, ctx)
    return True


DT = st.one_of(st.floats(0.05, 3.0), st.sampled_from([0.5, 1.0]))


@st.composite
def cones(draw_, kinds, d3):
    k = draw_(st.sampled_from(kinds))
    if k == 'flat':
        sp = draw_(G.flat_specs(3 if d3 else 2, 5, draw_(st.sampled_from([None, None, True]))))
        if 'period' in sp: sp['period'] = [max(v, 0.5) if v else 0.0 for v in G.periods(sp)]
    elif k == 'BH': sp = draw_(G.specs(['BH']))
    else: sp = dict(st='dS', dim=3 if d3 else draw_(st.integers(2, 3)), r=draw_(G.POSR))
    d, n = sp['dim'], 3 if d3 else 2
    dims = draw_(st.permutations(range(d)).map(lambda p: list(p[:n])))
    if k != 'flat' or draw_(st.booleans()):
        if 0 not in dims and (d3 or draw_(st.booleans())): dims[draw_(st.integers(0, n - 1))] = 0
    sign = draw_(st.sampled_from([-1, 1]))
    dt = draw_(DT) * sign
    if k == 'BH':
        q = draw_(st.one_of(st.floats(0.1, 0.93), st.floats(1.07, 4), st.sampled_from([0.5, 2.0] + [1.0] * 2 * (sp['metric'] == 'EF'))))
        o = [draw_(st.floats(-2, 2)), draw_(st.sampled_from([-1.0, 1.0])) * q * sp['r']]
        dt *= sp['r'] * 2
    else:
        o = draw_(G.points(sp, 1))[0]
        if k == 'dS':
            dt *= sp['r']
            if draw_(st.integers(0, 9)) == 0:  # at or beyond the horizon
                a = draw_(st.integers(1, d - 1))
                o = [o[0]] + [sp['r'] * draw_(st.sampled_from([1.0, 1.5])) * draw_(st.sampled_from([-1, 1])) if b == a else 0.0 for b in range(1, d)]
        if draw_(st.integers(0, 4)) == 0 and k == 'flat': o = [round(v) for v in o]
    if draw_(st.integers(0, 9)) == 0: dt = draw_(st.sampled_from([-dt, 0.0]))
    alpha = draw_(st.sampled_from([None, None, 0.5, 0.25, 1.0, 0.0, -0.5]) if draw_(st.booleans()) else st.none())
    ss = draw_(st.sampled_from([0, 16, 40] if d3 else [0, 0, 40, 200]))
    if d3 and not ss and 'period' in sp: ss = 16
    if k == 'BH': ss = draw_(st.sampled_from([0, 0, 200]))
    return dict(sp=sp, o=[float(v) for v in o], dims=dims, sign=sign, dt=dt, alpha=alpha, ss=ss, cur=draw_(st.integers(0, 7)) == 0, seed=draw_(st.integers(0, 2**31)), salt=draw_(SALT))


FACETS = [
    Facet('flat 2D', cones(['flat'], False), flat2, 4000, rule='winding number of the drawn polygon at random points and close to the boundary; non-trivial: a cone is drawn'),
    Facet('flat 3D', cones(['flat'], True), flat3, 400, rule='vertices of the drawn surfaces; non-trivial: a cone is drawn', limit=120.0),
    Facet('de Sitter 2D', cones(['dS'], False), dS2, 1200, rule='points close to the drawn boundary; non-trivial: a cone is drawn', limit=120.0),
    Facet('de Sitter 3D', cones(['dS'], True), dS3, 300, rule='points close to the drawn surface; non-trivial: a cone is drawn', limit=120.0),
    Facet('black hole', cones(['BH'], False), bh, 3000, rule='winding number of the drawn polygon at random points; non-trivial: a cone is drawn'),
]
