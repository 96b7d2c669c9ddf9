"""C14: causality is a partial order that respects the symmetries of the spacetime."""
import math
from hypothesis import strategies as st
from pbt.core import Facet, Skip, ensure, eq
from pbt.poset import SALT
from pbt import geometry as G

ASSUMPTIONS = ['pairs within the rounding tolerance of the code are only used in flat spacetime with grid coordinates, where the arithmetic is exact',
               'no points on the black hole singularity, or on the horizon in Schwarzschild coordinates (which do not cover it)', 'points of the static patch of de Sitter spacetime for its isometries']


def nearly(sp, x, y, sign, delta):
    """y moved in time so that it is (1 + delta) times the light travel time away from x"""
    y = list(y)
    if sp['st'] == 'BH':
        y[0] = G.nearly_null(sp, x, y, sign, delta)
    else:
        y[0] = x[0] + sign * G.null_time(sp, x, y) * (1 + delta)
    return y


@st.composite
def triples(draw, kinds=('flat', 'dS', 'AdS', 'BH')):
    sp = draw(G.specs(kinds))
    x, y, z = draw(G.points(sp, 3))
    if draw(st.integers(0, 3)) == 0 and sp['st'] != 'BH':  # collinear
        q = draw(st.sampled_from([0.0, 0.5, 2.0])) if sp['st'] != 'dS' else 0.5
        z = [z[0]] + [a + q * (b - a) for a, b in zip(x[1:], y[1:])]
    D = lambda: draw(st.sampled_from([1, -1])) * 10.0 ** draw(st.integers(-8, 0)) * 0.5
    modes = [draw(st.sampled_from(['free', 'near', 'same'] + ['near'] * 2 + ['mirror'] * (sp['st'] in ('AdS', 'flat')))) for _ in range(2)]
    signs = [draw(st.sampled_from([-1, 1])) for _ in range(2)]
    if draw(st.integers(0, 2)): signs[1] = signs[0]
    if modes[0] == 'near': y = nearly(sp, x, y, signs[0], D())
    elif modes[0] == 'same' and draw(st.booleans()): y = list(x)
    elif modes[0] == 'mirror': y = [draw(st.integers(-1, 1)) * math.pi * sp.get('r', 1.0) - x[0]] + (x[1:] if draw(st.booleans()) else y[1:])
    if modes[1] == 'near': z = nearly(sp, y, z, signs[1], D())
    elif modes[1] == 'mirror': z = [draw(st.integers(-1, 1)) * math.pi * sp.get('r', 1.0) - x[0]] + (x[1:] if draw(st.booleans()) else z[1:])
    elif modes[1] == 'same': z = [y[0] + draw(st.sampled_from([0.0, 1.0]))] + y[1:]
    return dict(sp=sp, pts=[x, y, z], salt=draw(SALT))


@st.composite
def grid(draw):
    sp = draw(G.flat_specs())
    pts = draw(G.points(sp, 4, dyadic=True))
    for k in range(1, 4):  # light rays along axes
        if draw(st.integers(0, 2)) == 0 and sp['dim'] > 1:
            p = list(pts[k - 1])
            s = draw(st.integers(0, 4)) / 8
            p[draw(st.integers(1, sp['dim'] - 1))] += s * draw(st.sampled_from([-1, 1]))
            p[0] += s * draw(st.sampled_from([-1, 1, 1]))
            pts[k] = p
    return dict(sp=sp, pts=pts, salt=draw(SALT))


def same_point(sp, x, y):
    if x == y: return True
    return sp['st'] == 'flat' and x[0] == y[0] and all(s == 0 for s in G.separations(sp, x, y))


def order(case, ctx):
    sp, pts = case['sp'], case['pts']
    f = G.make_spacetime(sp).Causality()
    exact = sp['st'] == 'flat' and len(pts) == 4
    n = len(pts)
    R = [[G.answer(f, a, b) for b in pts] for a in pts]
    clear = [[exact or G.decide(sp, a, b) is not None for b in pts] for a in pts]
    nt = False
    for i in range(n):
        for j in range(n):
            w = (sp, pts[i], pts[j])
            ensure(not (R[i][j][0] and R[i][j][1]), 'causal in both directions:', w)
            if same_point(sp, pts[i], pts[j]):
                if clear[i][j]: eq(R[i][j], (True, False), 'a point and itself %r' % (w,))
            elif clear[i][j] and clear[j][i]:
                ensure(R[i][j] == R[j][i][::-1], 'swapping points', w, 'turns', R[i][j], 'into', R[j][i])
            for k in range(n):
                if R[i][j][0] and R[j][k][0] and clear[i][j] and clear[j][k] and clear[i][k]:
                    ensure(R[i][k][0], 'not transitive in', sp, [pts[i], pts[j], pts[k]])
                    if len({i, j, k}) == 3: nt = True
    return nt


# ---- isometries
def apply(op, sp, pts):
    """The transformed (specification, points), and whether the answer is reversed; None if it does not apply."""
    k, d, st_ = op['op'], sp['dim'], sp['st']
    per = G.periods(sp) if st_ == 'flat' else [0.0] * (d - 1)
    pts = [list(p) for p in pts]
    if k == 'time':
        if st_ == 'flat' or st_ == 'AdS' or st_ == 'BH' or abs(op['s']) < 3: s = op['s'] * sp.get('r', 1.0)
        else: return None
        for p in pts: p[0] += s
    elif k == 'shift':
        if st_ != 'flat' or d < 2: return None
        a = 1 + op['i'] % (d - 1)
        for p in pts: p[a] += op['s']
    elif k == 'period':
        if st_ != 'flat' or not any(per): return None
        for n, p in enumerate(pts):
            for a, q in enumerate(per):
                if q > 0: p[a + 1] += q * op['n'][(n + a) % len(op['n'])]
    elif k == 'reflect':
        if d < 2: return None
        a = 1 + op['i'] % (d - 1)
        for p in pts: p[a] = -p[a]
    elif k == 'perm':
        if d < 3: return None
        q = [a for a in op['p'] if a < d - 1]
        pts = [[p[0]] + [p[1 + a] for a in q] for p in pts]
        if isinstance(sp.get('period'), list): sp = dict(sp, period=[per[a] for a in q])
    elif k == 'rotate':
        if d < 3: return None
        a, b = 1 + op['i'] % (d - 1), 1 + (op['i'] + 1 + op['j'] % (d - 2)) % (d - 1)
        if per[a - 1] or per[b - 1]: return None
        c, s = math.cos(op['s']), math.sin(op['s'])
        for p in pts: p[a], p[b] = c * p[a] - s * p[b], s * p[a] + c * p[b]
    elif k == 'boost':
        if d < 2: return None
        a = 1 + op['i'] % (d - 1)
        if st_ == 'flat':
            if any(per): return None
            c, s = math.cosh(op['s'] / 2), math.sinh(op['s'] / 2)
            for p in pts: p[0], p[a] = c * p[0] + s * p[a], s * p[0] + c * p[a]
        elif st_ == 'dS':  # rotate the patch within the embedding space, as long as the points stay in the patch
            r = sp['r']
            c, s = math.cos(op['s'] / 2), math.sin(op['s'] / 2)
            for p in pts:
                m = r * r - G.dot(p[1:], p[1:])
                if m <= 0: return None
                m = math.sqrt(m)
                t, z = m * math.sinh(p[0] / r), m * math.cosh(p[0] / r)
                z, p[a] = c * z - s * p[a], s * z + c * p[a]
                if z <= abs(t) * 1.05 + 0.05 * r: return None
                p[0] = r * math.atanh(t / z)
        elif st_ == 'AdS':
            r = sp['r']
            c, s = math.cosh(op['s'] / 2), math.sinh(op['s'] / 2)
            for p in pts:
                if abs(p[0]) >= 3 * r: return None
                m = math.sqrt(r * r + G.dot(p[1:], p[1:]))
                t, z = m * math.sin(p[0] / r), m * math.cos(p[0] / r)
                z, p[a] = c * z + s * p[a], s * z + c * p[a]
                p[0] = r * math.atan2(t, z)
        else: return None
    elif k == 'scale':
        s = op['f']
        pts = [[v * s for v in p] for p in pts]
        sp = dict(sp)
        if 'r' in sp: sp['r'] *= s
        if 'period' in sp: sp['period'] = sp['period'] * s if isinstance(sp['period'], float) else [q * s for q in sp['period']]
    elif k == 'reverse':
        if st_ == 'BH': return None
        for p in pts: p[0] = -p[0]
        return sp, pts, True
    elif k == 'metric':
        if st_ != 'BH' or any(abs(p[1]) == sp['r'] for p in pts): return None
        to = 'S' if sp['metric'] == 'EF' else 'EF'
        for p in pts: p[0] += (1 if to == 'EF' else -1) * sp['r'] * math.log(abs(abs(p[1]) / sp['r'] - 1))
        sp = dict(sp, metric=to)
    return sp, pts, False


S = st.one_of(st.integers(-16, 16).map(lambda k: k / 4), st.floats(-3, 3).map(lambda v: round(v, 6)))
SD = st.integers(-64, 64).map(lambda k: k / 8)


def ops(exact=False):
    s = SD if exact else S
    f = st.fixed_dictionaries
    i = st.integers(0, 5)
    out = [f(dict(op=st.just('time'), s=s)), f(dict(op=st.just('shift'), i=i, s=s)), f(dict(op=st.just('period'), n=st.lists(st.integers(-3, 3), min_size=1, max_size=6))),
           f(dict(op=st.just('reflect'), i=i)), f(dict(op=st.just('perm'), p=st.permutations(range(8)).map(list))),
           f(dict(op=st.just('scale'), f=st.sampled_from([0.5, 2.0, 4.0]))), f(dict(op=st.just('reverse')))]
    if not exact: out += [f(dict(op=st.just('rotate'), i=i, j=i, s=s)), f(dict(op=st.just('boost'), i=i, s=st.floats(-2, 2).map(lambda v: round(v, 6)))),
                          f(dict(op=st.just('metric'))), f(dict(op=st.just('scale'), f=st.floats(0.3, 4).map(lambda v: round(v, 6))))]
    return st.lists(st.one_of(*out), min_size=1, max_size=3)


def isometry(case, ctx):
    sp, pts = case['sp'], case['pts']
    exact = len(pts) == 4
    sp2, pts2, rev, used = sp, pts, False, []
    for op in case['ops']:
        r = apply(op, sp2, pts2)
        if r is None: continue
        sp2, pts2, rev = r[0], r[1], rev != r[2]
        used.append(op['op'])
    if not used: raise Skip()
    f, g = G.make_spacetime(sp).Causality(), G.make_spacetime(sp2).Causality()
    n, nt, k = len(pts), False, 0
    for i in range(n):
        for j in range(n):
            a, b, a2, b2 = pts[i], pts[j], pts2[i], pts2[j]
            if not exact and (G.decide(sp, a, b) is None or G.decide(sp2, a2, b2) is None): continue
            want, got = G.answer(f, a, b), G.answer(g, a2, b2)
            if rev and not same_point(sp, a, b): want = want[::-1]
            if (a2[0] == b2[0]) != (a[0] == b[0]): want, got = sorted(want), sorted(got)
            ensure(got == want, 'causality of', sp, a, b, 'changes to', got, 'under', used, 'from', want, 'at', sp2, a2, b2)
            k += 1
            if i != j and any(want) or (i != j and used): nt = True
    for u in used: ctx.count(u)
    if not k: raise Skip()
    return nt


def with_ops(cases, exact=False):
    return st.builds(lambda c, o: dict(c, ops=o), cases, ops(exact))


FACETS = [
    Facet('order on grids', grid(), order, 5000,
          rule='four points with grid coordinates in flat (periodic) spacetime, exact arithmetic; non-trivial: three points in succession'),
    Facet('order', triples(), order, 9000, rule='three points, consecutive ones nearly null, all spacetimes; non-trivial: three points in succession'),
    Facet('symmetry on grids', with_ops(grid(), True), isometry, 4000,
          rule='exact symmetries of four grid points; non-trivial: any symmetry that applies'),
    Facet('symmetry', with_ops(triples()), isometry, 9000, rule='sequences of one to three symmetries; non-trivial: any symmetry that applies'),
]
