"""C16: sprinkling fills the requested region and keeps count."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import env
from pbt.core import Facet, Skip, Violation, ensure, eq, longer
from pbt.poset import SALT
from pbt import geometry as G
from checks.c18 import shapes, Ref, make

ASSUMPTIONS = ['coordinates are sprinkled in single precision, which is the tolerance of all region tests',
               'pairs of events very close to the light cone are not compared in curved spacetimes',
               'no hollow one-dimensional cylinder', 'no length scale at intensity 0',
               'added events have coordinates of the right dimension', 'a negative cardinality or intensity is requested by sprinkle or intensify, not by the constructor']


def inside(R, x, what):
    """x lies in the region, up to single precision"""
    ensure(len(x) == R.d, what, 'has', len(x), 'coordinates instead of', R.d)
    ensure(all(math.isfinite(v) for v in x), what, 'is not finite:', x)
    big = R.scale() + max(abs(v) for v in R.c)
    q, t = R.radial(x)
    tol = 2e-6 * big * (R.d + 1) / min(R.r, min(R.half(k) for k in range(R.d))) + 1e-6
    ensure(q <= 1 + tol, what, x, 'is outside of', R.name, 'at', q, 'of its size')
    ensure(q >= R.h - tol, what, x, 'is in the empty interior of', R.name, 'at', q, 'of its size')
    ensure(t <= 1 + tol, what, x, 'is outside of the duration of', R.name)


def robust(sp, x, y, m):
    w = G.decide(sp, x, y)
    if w is None: return None
    for d in (-m, m):
        if G.decide(sp, x, [y[0] + d] + y[1:]) != w: return None
    return w


def related(C, sp, ctx):
    """The relations follow the spacetime."""
    ev = list(C)
    X = [[float(v) for v in e.Coordinates] for e in ev]
    lt = 0
    for i, a in enumerate(ev):
        for j in range(i):
            b = ev[j]
            big = 1 + max(abs(v) for v in X[i] + X[j])
            if sp['st'] == 'BH' and any(abs(abs(p[1]) / sp['r'] - 1) < 1e-3 or abs(p[1]) < 1e-4 for p in (X[i], X[j])): continue
            if sp['st'] in ('dS', 'AdS') and max(abs(X[i][0]), abs(X[j][0])) > 5 * sp['r']: continue
            w = G.decide(sp, X[i], X[j]) if sp['st'] == 'flat' else robust(sp, X[i], X[j], 1e-5 * big)
            if w is None or (X[i][0] == X[j][0] and any(w)): continue   # (coincident)
            ctx.count('pairs')
            ok = ((a < b), (b < a)) == w and ((b > a), (a > b)) == w
            ensure(ok, 'events at', X[i], X[j], 'in', sp, 'are related as', (a < b, b < a), 'expected', w)
            lt += any(w)
    return lt


def region(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    s, n, sp = case['shape'], case['n'], case['sp']
    S, R = make(s), Ref(s)
    kw = dict(spacetime=G.make_spacetime(sp)) if case['give'] or sp != dict(st='flat', dim=s['d']) else {}
    if case['how'] == 0:  # by the constructor
        C = SprinkledCauset(card=n, shape=S, **kw)
        new = set(C)
    elif case['how'] == 1:
        C = SprinkledCauset(shape=S, **kw)
        new = C.sprinkle(n, rng=np.random.default_rng(case['seed']))
    else:  # into another region
        C = SprinkledCauset(dim=s['d'], **kw)
        new = C.sprinkle(n, rng=np.random.default_rng(case['seed']), shape=S)
    eq(C.Card, n, 'cardinality after sprinkling')
    eq(len(new), n, 'number of returned events')
    ensure(set(C) == set(new), 'the returned events are not those of the causet')
    eq(sorted(int(e.Label) for e in C), list(range(1, n + 1)), 'labels')
    for e in C: inside(R, [float(v) for v in e.Coordinates], 'sprinkled event')
    if n >= 8 and any(R.half(k) > 1e-3 * (1 + abs(R.c[k])) for k in range(R.d)):  # rounding may identify a few points
        ensure(len({tuple(map(float, e.Coordinates)) for e in C}) > n // 2, 'most of the sprinkled points coincide')
    lt = related(C, sp, ctx)
    ensure(abs(C.Intensity - n) < 1e-9, 'intensity is', C.Intensity, 'after sprinkling', n)
    return n > 2 and (lt > 0 or R.h > 0 or 'center' in s['kw'])


@st.composite
def regions(draw, maxn=24, maxd=4):
    s = draw(shapes(1, maxd))
    d = s['d']
    kind = draw(st.sampled_from(['flat'] * 4 + (['dS', 'AdS'] if d > 1 else []) + (['BH'] if d == 2 else [])))
    sp = dict(st='flat', dim=d)
    if kind in ('dS', 'AdS'): sp = dict(st=kind, dim=d, r=draw(st.sampled_from([0.5, 1.0, 4.0])))
    elif kind == 'BH': sp = dict(st='BH', dim=2, r=draw(st.sampled_from([0.25, 0.5])), metric=draw(st.sampled_from(['S', 'EF'])))
    elif d > 1 and draw(st.integers(0, 3)) == 0: sp['period'] = [draw(st.sampled_from([0.0, 1.0, 2.5])) for _ in range(d - 1)]
    return dict(shape=s, sp=sp, n=draw(st.integers(0, maxn)), seed=draw(st.integers(0, 2**32 - 1)), give=draw(st.booleans()), how=draw(st.integers(0, 2)), salt=draw(SALT))


def history(case, ctx):
    from causets.sprinkledcauset import SprinkledCauset
    from causets.embeddedcauset import EmbeddedCauset
    s = case['shape']
    S, R = make(s), Ref(s)
    d, vol = s['d'], R.volume()
    sp = dict(st='flat', dim=d)
    rng = np.random.default_rng(case['seed'])
    form = case['init']
    ev = []
    if form[0] == 'card':
        C = SprinkledCauset(card=form[1], shape=S)
        eq(C.Card, form[1], 'cardinality of the new causet')
        inten = float(form[1])
    elif form[0] == 'intensity':
        C = SprinkledCauset(intensity=form[1], shape=S)
        inten = form[1]
    else:
        C, inten = SprinkledCauset(shape=S), 0.0
    ev = list(C)
    spare = [env.CausetEvent(label='s%d' % k, coordinates=[0.25 * k] + [0.5 * (k % 2)] * (d - 1)) for k in range(3)]
    kinds = set()
    others = []
    wrong = make(dict(s, d=d + 1, kw={}))

    def observe(what):
        eq(C.Card, len(ev), what + ': cardinality')
        ensure(set(C) == set(ev), what, ': the set of events is not that of the history')
        tol = 1e-9 * (1 + inten)
        ensure(abs(C.Intensity - inten) <= tol, what, ': intensity is', C.Intensity, 'expected', inten)
        ensure(abs(C.Density - inten / vol) <= 2e-5 * R.full() / vol * max(1e-9, inten / vol) + 1e-12, what, ': density is', C.Density, 'expected', inten / vol)
        if inten > 0:
            want = (vol / inten) ** (1.0 / d)
            ensure(abs(C.LengthScale - want) <= 4e-5 * R.full() / vol * want, what, ': length scale is', C.LengthScale, 'expected', want)

    observe('constructor')
    for op in case['ops']:
        k, before = op[0], C.Card
        kinds.add(k)
        if k in ('sprinkle', 'intensify'):
            amount = op[1] if k == 'sprinkle' else float(op[2])
            sub = case['sub'] if op[3] == 2 else s
            kw = {} if op[3] == 0 else dict(shape=make(sub))
            new = getattr(C, k)(amount, rng=rng, **kw)
            inten += amount
            if k == 'sprinkle': eq(len(new), amount, 'number of sprinkled events')
            elif amount == 0: eq(len(new), 0, 'number of events at intensity 0')
            eq(C.Card, before + len(new), 'cardinality after ' + k)
            ensure(not (set(new) & set(ev)), k, 'returned old events')
            eq(sorted(int(e.Label) for e in new), list(range(before + 1, before + len(new) + 1)), 'labels of sprinkled events')
            R2 = Ref(sub)
            for e in new: inside(R2, [float(v) for v in e.Coordinates], 'sprinkled event')
            ev += list(new)
            related(C, sp, ctx)
        elif k == 'negative':
            f, arg = [(C.sprinkle, -1), (C.sprinkle, -5), (C.intensify, -0.5), (C.intensify, -3.0)][op[1] % 4]
            try:
                f(arg, rng=rng)
            except ValueError: pass
            else: raise Violation('a request of %r was accepted' % arg)
            if op[3]:
                try: C.sprinkle(3, rng=rng, shape=wrong) if op[1] % 2 else C.intensify(5.0, shape=wrong)
                except ValueError: pass
                else: raise Violation('a region of another dimension was accepted')
        elif k == 'create':
            pts = [[0.125 * i + 100 * len(ev) + 7 * j for j in range(d)] for i in range(op[1])]
            arg = pts if op[2] % 3 else (c for c in pts) if op[2] else np.array(pts).reshape((len(pts), d))
            new = C.create(arg, None, op[3] != 1) if op[3] else C.create(arg)
            eq(len(new), len(pts), 'number of created events')
            inten += len(pts)
            ev += list(new)
            if op[3] != 1: related(C, sp, ctx)
        elif k == 'add':
            new = [e for i, e in enumerate(spare) if op[1] >> i & 1]
            if op[3] == 2:    # another sprinkled causet, perhaps again
                if op[1] % 3 == 0 or not others:
                    Q = SprinkledCauset(shape=S)
                    Q.add(set(new))
                    Q.intensify(op[2] / 4.0, rng=rng)
                    others.append(Q)
                arg = others[op[2] % len(others)]
                new = list(arg)
            else: arg = set(new) if op[3] else new
            C.add(arg)
            fresh = [e for e in new if e not in ev]
            inten += len(fresh)
            ev += fresh
        elif k == 'discard':
            gone = [e for i, e in enumerate(ev) if op[2] >> (i % 16) & 1] + ([spare[0]] if op[3] == 1 else [])
            arg = set(gone)
            if op[3] == 2 and others:
                arg = others[op[1] % len(others)]
                gone = list(arg)
            keep = [e for e in ev if e not in gone]
            C.discard(arg)
            if ev: inten *= len(keep) / len(ev)
            ev = keep
        observe(k)
    return len(kinds) > 1 and bool(ev)


AMT = st.tuples(st.sampled_from(['sprinkle', 'intensify', 'create', 'add', 'discard', 'negative', 'sprinkle', 'intensify']), st.integers(0, 6),
                st.integers(0, 12), st.integers(0, 2))
OPS = AMT.flatmap(lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.integers(0, 65535), st.just(t[3])) if t[0] == 'discard' else st.just(t)).map(list)
INIT = st.one_of(st.just(['empty']), st.integers(1, 8).map(lambda k: ['card', k]), st.integers(0, 12).map(lambda k: ['intensity', k / 2]))


@st.composite
def histories(draw):
    s = draw(shapes(1, 4))
    return dict(shape=s, sub=draw(shapes(s['d'], s['d'])), init=draw(INIT), ops=draw(longer(OPS, 6)), seed=draw(st.integers(0, 2**32 - 1)), salt=draw(SALT))


def plain(case, ctx):
    """Density and length scale of embedded causets that were not sprinkled."""
    from causets.embeddedcauset import EmbeddedCauset
    s = case['shape']
    R = Ref(s)
    C = EmbeddedCauset(shape=make(s))
    n, vol, d = 0, R.volume(), s['d']
    for k in case['batches']:
        C.create([[float(n + i)] + [0.5 * i] * (d - 1) for i in range(k)])
        n += k
        rel = 2e-5 * R.full() / vol
        ensure(abs(C.Density - n / vol) <= rel * n / vol, 'density is', C.Density, 'expected', n / vol)
        want = (vol / n) ** (1.0 / d) if n else 0.0
        ensure(abs(C.LengthScale - want) <= 2 * rel * want, 'length scale is', C.LengthScale, 'expected', want)
    return n > 0 and d > 1


FACETS = [
    Facet('region', regions(), region, 5000,
          rule='one sprinkle into a random region of any spacetime; non-trivial: more than two points with relations, hollow or off-centre'),
    Facet('history', histories(), history, 5000, rule='sprinkle, intensify, create, add, discard, negative requests; non-trivial: more than one kind of operation, events left'),
    Facet('plain', st.fixed_dictionaries(dict(shape=shapes(1, 5), batches=st.lists(st.integers(0, 4), min_size=1, max_size=3), salt=SALT)), plain, 1500,
          rule='density of embedded causets; non-trivial: events in more than one dimension'),
]
