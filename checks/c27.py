"""C27: invalid arguments are rejected, valid ones are accepted with the requested meaning."""
import math, warnings
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT, cases, build, popcount
from pbt import draw as D

ASSUMPTIONS = ['integer dimensions and finite floats that are representable in single precision', 'periods are given as float or tuple of floats, as documented',
               'empty coordinate lists only with a given dimension']
warnings.simplefilter('ignore')


def attempt(f, valid, what):
    """call f: the result if it is valid, a ValueError otherwise"""
    try:
        r = f()
    except ValueError as e:
        ensure(not valid, what, 'is valid but raises', type(e).__name__, str(e)[:200])
        return None
    except Exception as e:
        raise Violation('%s %s raises %s: %s' % (what, 'is valid but' if valid else 'is invalid but', type(e).__name__, str(e)[:200]))
    ensure(valid, what, 'is invalid but was accepted')
    return r


def f32(v):
    return float(np.float32(v))


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))


# ---- shapes
SHAPES = ['ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid']


def shape_valid(dim, name, kw):
    if dim < 1 or name not in SHAPES: return False
    if 'center' in kw and (not isinstance(kw['center'], list) or len(kw['center']) != dim): return False
    round_ = name in ('ball', 'bicone', 'diamond', 'cylinder')
    if round_:
        if kw.get('radius', 1.0) <= 0 or not 0 <= kw.get('hollow', 0.0) < 1: return False
        if name == 'cylinder' and kw.get('duration', 1.0) <= 0: return False
    if name == 'cube' and kw.get('edge', 1.0) <= 0: return False
    if name == 'cuboid' and 'edges' in kw and (not isinstance(kw['edges'], list) or len(kw['edges']) != dim or min(kw['edges']) <= 0): return False
    return True


def typed(v, form):
    if not isinstance(v, list): return v
    return tuple(v) if form == 1 else np.array(v) if form == 2 else v


def shape(case, ctx):
    from causets.shapes import CoordinateShape
    dim, name, kw = case['dim'], case['name'], case['kw']
    valid = shape_valid(dim, name, kw)
    w = 'CoordinateShape(%r, %r, %r)' % (dim, name, kw)
    S = attempt(lambda: CoordinateShape(dim, name, **{k: typed(v, case['form']) for k, v in kw.items()}), valid, w)
    ctx.count('valid' if valid else 'invalid')
    if S is None: return True
    name = 'bicone' if name == 'diamond' else name
    eq(S.Dim, dim, w + ': dimension')
    eq(S.Name, name, w + ': name')
    c = kw.get('center', [0.0] * dim)
    ensure(np.shape(S.Center) == (dim,) and all(near(a, b) for a, b in zip(S.Center, c)), w, ': centre is', S.Center)
    want = {}
    if name in ('ball', 'bicone', 'cylinder'): want.update(radius=kw.get('radius', 1.0), hollow=kw.get('hollow', 0.0))
    if name == 'cylinder': want['duration'] = kw.get('duration', 2 * want['radius'])
    if name == 'cube': want['edge'] = kw.get('edge', 1.0)
    for k, v in want.items(): ensure(near(S.Parameter(k), v), w, ':', k, 'is', S.Parameter(k), 'expected', v)
    if name == 'cuboid':
        e = kw.get('edges', [1.0] * dim)
        ensure(np.shape(S.Parameter('edges')) == (dim,) and all(near(a, b) for a, b in zip(S.Parameter('edges'), e)), w, ': edges are', S.Parameter('edges'))
    hollow = want.get('hollow', 0.0) > 0
    eq(str(S), ('hollow ' if hollow else '') + '%d-%s' % (dim, name), w + ': str')
    ensure(name in repr(S) and str(dim) in repr(S), 'repr is', repr(S))
    for k in range(-2, dim + 3):
        r = attempt(lambda: S.Limits(k), 0 <= k < dim, w + '.Limits(%d)' % k)
        if r is None: continue
        half = want['duration'] / 2 if name == 'cylinder' and k == 0 else want['radius'] if 'radius' in want else want['edge'] / 2 if name == 'cube' else float(e[k]) / 2
        ensure(near(r[0], c[k] - half) and near(r[1], c[k] + half), w, ': limits of', k, 'are', r)
    return True


# ---- spacetimes
def period_valid(dim, p):
    return p is None or isinstance(p, float) or (isinstance(p, tuple) and len(p) == dim - 1)


def spacetime_valid(c):
    k, d = c['st'], c['dim']
    if k == 'flat': return d >= 1 and period_valid(d, period(c))
    if k == 'BH': return d == 2 and (c['r'] is None or c['r'] > 0) and c['metric'] in (None, 'Eddington-Finkelstein', 'Schwarzschild')
    return d >= 2 and (c['r'] is None or c['r'] > 0)


def period(c):
    p = c['period']
    return tuple(p) if isinstance(p, list) and c['ptype'] == 0 else p


def make(c):
    from causets import spacetimes as S
    k, d, r = c['st'], c['dim'], c['r']
    if k == 'flat':
        p = period(c)
        if p is None: return S.FlatSpacetime(d)
        return S.FlatSpacetime(d, p) if c['kwd'] else S.FlatSpacetime(d, period=p)
    if k == 'dS': return S.deSitterSpacetime(d) if r is None else S.deSitterSpacetime(d, r) if c['kwd'] else S.deSitterSpacetime(d, r_dS=r)
    if k == 'AdS': return S.AntideSitterSpacetime(d) if r is None else S.AntideSitterSpacetime(d, r) if c['kwd'] else S.AntideSitterSpacetime(d, r_AdS=r)
    kw = {}
    if r is not None: kw['r_S'] = r
    if c['metric'] is not None: kw['metric'] = c['metric']
    return S.BlackHoleSpacetime(d, **kw)


NAMES = {'flat': ('flat', 'Minkowski'), 'dS': ('de Sitter', 'static'), 'AdS': ('Anti-de Sitter', 'static'), 'BH': ('black hole', 'Eddington-Finkelstein')}


def about(S, c, w):
    """the spacetime is the requested one"""
    k, d = c['st'], c['dim']
    eq(S.Dim, d, w + ': dimension')
    eq(S.Name, NAMES[k][0], w + ': name')
    eq(S.MetricName, k == 'BH' and c.get('metric') or NAMES[k][1], w + ': metric')
    eq(str(S), '%d-dimensional %s spacetime' % (d, NAMES[k][0]), w + ': str')
    ensure(str(d) in repr(S) and type(S).__name__ in repr(S), w, ': repr is', repr(S))
    if k == 'flat':
        p = period(c)
        periodic = False if p is None else p > 0 if isinstance(p, float) else any(q > 0 for q in p)
        eq(bool(S.Parameter('isPeriodic')), periodic, w + ': isPeriodic')
        if periodic:
            want = [p] * (d - 1) if isinstance(p, float) else list(p)
            eq([float(v) for v in S.Parameter('period')], want, w + ': periods')
    else: eq(float(S.Parameter({'dS': 'r_dS', 'AdS': 'r_AdS', 'BH': 'r_S'}[k])), {'dS': 1.0, 'AdS': 0.5, 'BH': 0.5}[k] if c['r'] is None else c['r'], w + ': radius')
    eq(S.DefaultShape().Dim, d, w + ': dimension of the default shape')


def spacetime(case, ctx):
    valid = spacetime_valid(case)
    w = 'spacetime %r' % {k: v for k, v in case.items() if k != 'salt'}
    S = attempt(lambda: make(case), valid, w)
    ctx.count('valid' if valid else 'invalid')
    if S is not None: about(S, case, w)
    return True


# ---- embeddings
SPNAMES = {'flat': 'flat', 'Minkowski': 'flat', 'dS': 'dS', 'de Sitter': 'dS', 'AdS': 'AdS', 'Anti-de Sitter': 'AdS', 'black hole': 'BH', 'Schwarzschild': 'BH'}


def embedding(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets.sprinkledcauset import SprinkledCauset
    from causets.shapes import CoordinateShape
    sp, sh, co, dim = case['sp'], case['sh'], case['co'], case['dim']
    # the requested dimension
    if dim is not None and dim > 0: d = dim
    elif isinstance(sp, dict): d = sp['dim']
    elif isinstance(sh, int): d = sh
    elif co is not None: d = co['d']
    else: d = 2
    valid = True
    kind = 'flat'
    if isinstance(sp, dict):
        valid &= sp['dim'] == d
        kind = sp['st']
    elif sp is not None:
        valid &= sp in SPNAMES
        kind = SPNAMES.get(sp)
    if isinstance(sh, int): valid &= sh == d
    elif sh is not None: valid &= sh in SHAPES
    lens = []
    if co is not None:
        lens = [co['d']] * co['n']
        if co['odd'] >= 0 and co['n'] and co['form'] != 2: lens[co['odd'] % co['n']] += co['by']
        if co['n'] == 0 and not (dim is not None and dim > 0 or isinstance(sp, dict) or isinstance(sh, int)): raise Skip()
        if lens and not (dim is not None and dim > 0 or isinstance(sp, dict) or isinstance(sh, int)) and lens[0] != d: d = lens[0]
        if lens and min(lens) < 1: raise Skip()
        valid &= all(l == d for l in lens)
        if co['form'] == 2 and co['n'] == 0: valid &= co['d'] == d
    if isinstance(sp, str) and kind in ('dS', 'AdS'): valid &= d >= 2
    if isinstance(sp, str) and kind == 'BH': valid &= d == 2
    kw = {}
    if isinstance(sp, dict): S = kw['spacetime'] = make(dict(sp, period=None, ptype=0, kwd=True, metric=None, r=None))
    elif sp is not None: kw['spacetime'] = sp
    shp = None
    if isinstance(sh, int): shp = kw['shape'] = CoordinateShape(sh, case['shname'], center=[0.5] * sh)
    elif sh is not None: kw['shape'] = sh
    rows = []
    if co is not None:
        rows = [[0.1 * k + 0.01 * j for j in range(l)] for k, l in enumerate(lens)]
        if kind == 'BH': rows = [[r[0]] + [0.7 + 0.01 * k] * (len(r) - 1) for k, r in enumerate(rows)]
        kw['coordinates'] = rows if co['form'] == 0 else [np.array(r) for r in rows] if co['form'] == 1 else np.array(rows).reshape((co['n'], co['d']))
    if dim is not None: kw['dim'] = dim
    w = 'EmbeddedCauset(%s)' % ', '.join('%s=%r' % (k, v) for k, v in kw.items())
    C = attempt(lambda: EmbeddedCauset(**kw), valid, w)
    ctx.count('valid' if valid else 'invalid')
    if co is None:
        C2 = attempt(lambda: SprinkledCauset(**kw), valid, 'Sprinkled' + w[8:])
        if C2 is not None:
            eq((C2.Dim, C2.Card, C2.Spacetime.Name), (d, 0, NAMES[kind][0]), 'Sprinkled' + w[8:])
    if C is None: return True
    eq(C.Dim, d, w + ': dimension')
    eq(C.Card, len(rows), w + ': cardinality')
    if isinstance(sp, dict): ensure(C.Spacetime is S, w, ': spacetime is', C.Spacetime)
    else: about(C.Spacetime, dict(st=kind, dim=d, r=None, period=None, ptype=0), w)
    if shp is not None: ensure(C.Shape is shp, w, ': shape is', C.Shape)
    else:
        want = ('bicone' if sh == 'diamond' else sh) if sh is not None else C.Spacetime.DefaultShape().Name
        eq((C.Shape.Name, C.Shape.Dim), (want, d), w + ': shape')
    if rows:
        eq(sorted([float(v) for v in e.Coordinates] for e in C), sorted(rows), w + ': coordinates')
        eq(sorted(e.Label for e in C), list(range(1, len(rows) + 1)), w + ': labels')
    return True


# ---- adding events
def adding(case, ctx):
    """a rejected request leaves the causet as it was"""
    from causets.embeddedcauset import EmbeddedCauset
    from causets.sprinkledcauset import SprinkledCauset
    from causets.shapes import CoordinateShape
    d, spr = case['d'], case['sprinkled']
    C = (SprinkledCauset if spr else EmbeddedCauset)(dim=d)
    rng = np.random.default_rng(case['seed'])
    kinds = set()
    for op in case['ops']:
        k, n, dd, form = op[0] if spr else 'create', op[1], op[2] if op[2] else d, op[3]
        before = (set(C), {e: (set(e.Past), list(e.Coordinates), e.Label) for e in C}, C.Intensity if spr else None)
        if k == 'create':
            rows = [[0.25 * (C.Card + i)] + [0.1 * j for j in range(1, dd)] for i in range(max(n, 0))]
            odd = dd != d and rows and op[4]   # only one of the rows is wrong
            if odd: rows = [r if i == op[4] % len(rows) else [r[0]] + [0.1] * (d - 1) for i, r in enumerate(rows)]
            valid = all(len(r) == d for r in rows)
            arg = rows if form == 0 or odd else np.array(rows).reshape((-1, dd)) if form == 1 else [np.array(r) for r in rows]
            w = 'create(%r) in %d dimensions' % (rows, d)
            new = attempt(lambda: C.create(arg), valid, w)
            if new is not None: eq(sorted([float(v) for v in e.Coordinates] for e in new), sorted(rows), w)
            inten = len(rows)
        else:
            kw = {} if form == 0 else dict(shape=CoordinateShape(dd, ['ball', 'bicone', 'cylinder', 'cube', 'cuboid'][op[4] % 5]))
            if n < 0 and len(op) > 5 and op[5]: n = [n, -0.5, -1e-9, -0.999, -1.5][op[5]]
            valid = n >= 0 and (form == 0 or dd == d)
            w = '%s(%r%s) in %d dimensions' % (k, n, ', shape=%r' % kw['shape'] if kw else '', d)
            new = attempt(lambda: getattr(C, k)(n if k == 'sprinkle' else float(n), rng=rng, **kw), valid, w)
            if new is not None and k == 'sprinkle': eq(len(new), n, w)
            inten = n
        kinds.add(valid)
        if new is None:
            ensure(set(C) == before[0], 'rejected', w, 'changed the set of events')
            for e in C: ensure((set(e.Past), list(e.Coordinates), e.Label) == before[1][e], 'rejected', w, 'changed', e)
            if spr: eq(C.Intensity, before[2], 'intensity after the rejected ' + w)
        else:
            ensure(set(C) == before[0] | set(new) and not before[0] & set(new), w, 'did not add the new events')
            eq(C.Card, len(before[0]) + len(new), w)
            if spr: eq(C.Intensity, before[2] + inten, 'intensity after ' + w)
            for e in C: eq(len(e.Coordinates), d, w + ': dimension of an event')
    ctx.count('valid and invalid' if len(kinds) > 1 else 'all valid' if True in kinds else 'all invalid')
    return True


@st.composite
def adding_args(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 4]))
    op = st.tuples(st.sampled_from(['create', 'sprinkle', 'intensify']), st.sampled_from([0, 1, 2, 3, 4, 1, 2, 3, -1, -2]), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5]), st.integers(0, 2), st.integers(0, 9), st.integers(0, 4)).map(list)
    return dict(d=d, sprinkled=draw(st.sampled_from([True, True, False])), ops=draw(st.lists(op, min_size=1, max_size=5)), seed=draw(st.integers(0, 2**32 - 1)), salt=draw(SALT))


# ---- plots and distances
def plots(case, ctx):
    from causets import causetplotting as cp
    from causets.embeddedcauset import EmbeddedCauset
    d, dims = 4, case['dims']
    valid = len(dims) in (2, 3)
    ax = D.axes(len(dims) == 3)
    C = EmbeddedCauset(coordinates=[[0.0] * d, [1.0] + [0.1] * (d - 1)])
    w = 'dims=%r' % (dims,)
    p = attempt(lambda: cp.plot_parameters(dims=list(dims)), valid, 'plot_parameters with ' + w)
    if p is not None: eq(list(p['dims']), list(dims), 'dimensions of the plot')
    attempt(lambda: cp.Plotter(C, ax, dims=list(dims)), valid, 'Plotter with ' + w)
    H = attempt(lambda: cp.plot(C, ax, dims=list(dims)), valid, 'plot with ' + w)
    if H is not None: eq(len(H['events']), 2, 'events plotted with ' + w)
    else: ensure(not ax.lines and not ax.texts, 'rejected plot with', w, 'left artists behind')
    return True


def counting(case, ctx):
    b = build(case)
    name = case['name']
    valid = name in ('ziczac', 'intersection')
    A = [b.ev[i] for i in range(b.m.n) if b.m.minimal(b.m.all) >> i & 1]
    r = attempt(lambda: b.C.DistanceMatrix(A, name) if case['kwd'] else b.C.DistanceMatrix(A, counting=name, recursive=case['rec']), valid, 'DistanceMatrix with %r' % name)
    if r is not None: eq(np.shape(r), (len(A), len(A)), 'shape of the DistanceMatrix')
    if b.m.n:
        a, c = b.ev[case['salt'] % b.m.n], b.ev[(case['salt'] + len(name)) % b.m.n]
        for q in (2.5, None, {2, 3}, 3.0, (2, 4), (3,), range(2, 4), {2: 3}, b'any', 1j): attempt(lambda: list(b.C.Paths(a, c, q)), False, 'Paths of length %r' % (q,))
        for q in ('any', 'min', 3, [2, 4]): attempt(lambda: list(b.C.Paths(a, c, q)), True, 'Paths of length %r' % (q,))
    return True


# ---- strategies
size = st.one_of(st.sampled_from([1.0, 0.5, 2.0, 1, 3]), st.floats(0.01, 20).map(lambda v: round(v, 4)))
bad = st.sampled_from([0.0, -1.0, -0.001, 0, -3, -1e-6])
maybe = lambda s: st.one_of([s] * 7 + [bad])


@st.composite
def shape_args(draw):
    dim = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 2, 3, 4, 0, -1, -4]))
    name = draw(st.sampled_from(SHAPES * 3 + ['cuboid'] * 4 + ['', 'Ball', 'cone', 'sphere', 'cubic', 'cylinder ']))
    n = max(dim, 0)
    off = st.sampled_from([0] * 6 + [-1, 1, 2])
    kw = {}
    if draw(st.integers(0, 1)):
        k = max(0, n + draw(off))
        kw['center'] = draw(st.lists(st.floats(-5, 5).map(lambda v: round(v, 3)), min_size=k, max_size=k))
        if draw(st.integers(0, 19)) == 0: kw['center'] = draw(st.sampled_from([0.5, 1.0]))
    if draw(st.booleans()): kw['radius'] = draw(maybe(size))
    if draw(st.booleans()): kw['hollow'] = draw(st.one_of(st.floats(0, 0.999).map(lambda v: round(v, 3)), st.floats(0, 0.999).map(lambda v: round(v, 3)), st.sampled_from([0.0, 0, 1.0, 1, 1.5, -0.1, -1e-3, 2])))
    if draw(st.booleans()): kw['duration'] = draw(maybe(size))
    if draw(st.booleans()): kw['edge'] = draw(maybe(size))
    if name == 'cuboid' and draw(st.integers(0, 5)):
        k = max(0, n + draw(off))
        kw['edges'] = draw(st.lists(size, min_size=k, max_size=k))
        if k and draw(st.integers(0, 4)) == 0: kw['edges'][draw(st.integers(0, k - 1))] = draw(bad)
        elif k and draw(st.integers(0, 7)) == 0: kw['edges'] = [draw(st.one_of(size, bad)) for _ in range(k)]
        elif draw(st.integers(0, 7)) == 0: kw['edges'] = [-v for v in kw['edges']]
        if draw(st.integers(0, 19)) == 0: kw['edges'] = draw(st.sampled_from([0.5, 1.0]))
    # parameters of other shapes are not passed
    used = {'ball': 'radius hollow', 'bicone': 'radius hollow', 'diamond': 'radius hollow', 'cylinder': 'radius hollow duration', 'cube': 'edge', 'cuboid': 'edges'}.get(name, 'radius edge').split() + ['center']
    return dict(dim=dim, name=name, kw={k: v for k, v in kw.items() if k in used}, form=draw(st.integers(0, 2)), salt=0)


@st.composite
def spacetime_args(draw):
    k = draw(st.sampled_from(['flat', 'flat', 'dS', 'AdS', 'BH']))
    d = draw(st.sampled_from([2, 2, 2, 1, 3, 0, -1]) if k == 'BH' else st.sampled_from([1, 2, 3, 4, 5, 8, 2, 3, 4, 0, -1, -3]))
    per = st.one_of(st.floats(0.1, 9).map(lambda v: round(v, 4)), st.just(0.0))
    p = None
    if draw(st.booleans()):
        m = max(0, d - 1 + draw(st.sampled_from([0, 0, 0, 1, -1])))
        p = draw(st.one_of(per, st.lists(per, min_size=m, max_size=m), st.lists(per, min_size=m, max_size=m), st.sampled_from([1, 'x', 3])))
    return dict(st=k, dim=d, r=draw(st.one_of(st.none(), maybe(st.floats(0.01, 30).map(lambda v: round(v, 4))))), period=p,
                ptype=draw(st.sampled_from([0, 0, 0, 1])), kwd=draw(st.booleans()),
                metric=draw(st.sampled_from([None, 'Eddington-Finkelstein', 'Schwarzschild', 'Schwarzschild', 'Kruskal', '', 'schwarzschild', 'EF'])), salt=0)


@st.composite
def embed_args(draw):
    d0 = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 1]))
    dd = lambda: draw(st.sampled_from([d0] * 9 + [1, 2, 3, 4]))
    sp = draw(st.one_of(st.none(), st.sampled_from(sorted(SPNAMES)), st.sampled_from(sorted(SPNAMES)), st.sampled_from(['', 'Flat', 'deSitter', 'minkowski', 'Kerr', 'BlackHole']), st.just('obj'), st.just('obj'), st.just('obj')))
    if sp == 'obj':
        k = draw(st.sampled_from(['flat', 'flat', 'dS', 'AdS', 'BH']))
        d = dd()
        if k in ('dS', 'AdS'): d = max(d, 2)
        if k == 'BH': d = 2
        sp = dict(st=k, dim=d)
    sh = draw(st.one_of(st.none(), st.sampled_from(SHAPES), st.sampled_from(['', 'Cube', 'square']), st.just('obj'), st.just('obj')))
    if sh == 'obj': sh = dd()
    co = None
    if draw(st.booleans()):
        co = dict(d=dd(), n=draw(st.integers(0, 4)), odd=draw(st.sampled_from([-1] * 5 + [0, 1, 2])), by=draw(st.sampled_from([-1, 1])), form=draw(st.integers(0, 2)))
    return dict(sp=sp, sh=sh, shname=draw(st.sampled_from(SHAPES)), co=co, dim=draw(st.one_of(st.none(), st.none(), st.just(d0), st.just(d0), st.sampled_from([-1, 0, 1, 2, 3, 4]))), salt=draw(SALT))


def plotdims():
    return st.integers(0, 4).flatmap(lambda n: st.permutations(range(4)).map(lambda p: p[:n])) | st.just([0, 1, 2, 3, 0])


FACETS = [
    Facet('shape', shape_args(), shape, 5000, rule='shapes of dimension -4 to 6 with valid and invalid names, sizes, centres; all non-trivial',
          explicit=[dict(dim=d, name=s, kw={}, form=0, salt=0) for d in range(-1, 5) for s in SHAPES]),
    Facet('spacetime', spacetime_args(), spacetime, 4000, rule='spacetimes of dimension -3 to 8 with valid and invalid radii, periods and metrics; all non-trivial'),
    Facet('embedding', embed_args(), embedding, 5000, rule='combinations of spacetimes, shapes, coordinates and dimensions that agree or not; all non-trivial'),
    Facet('adding', adding_args(), adding, 3000, rule='create, sprinkle and intensify with matching and other dimensions, counts of either sign; all non-trivial'),
    Facet('plots', st.fixed_dictionaries(dict(dims=plotdims(), salt=SALT)), plots, 200, rule='plots with zero to five dimensions'),
    Facet('counting', cases(0, 7, dict(name=st.sampled_from(['ziczac', 'intersection', 'zigzag', '', 'Ziczac', 'intersect', 'both']), kwd=st.booleans(), rec=st.booleans())), counting, 800,
          rule='distance matrices with known and unknown counting, paths with supported and unsupported length requests'),
]
