"""C15: embedded events are related exactly as their coordinates dictate."""
import math
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq, longer
from pbt.poset import SALT, Poset, Built, bits
from pbt.history import check_relation, check_links
from pbt import geometry as G

ASSUMPTIONS = ['no two events at the same spacetime point', 'pairs for which the rounding tolerance of the spacetime makes the answer depend on the order of the arguments, '
               'or breaks transitivity, are not used', 'relations of discarded events are not looked at']


@st.composite
def world(draw, maxn=10):
    sp = draw(G.specs(lo=1, hi=4)) if draw(st.integers(0, 3)) else draw(G.flat_specs(1, 3))
    n = draw(st.one_of(*[st.integers(3, maxn)] * 2, *[st.integers(6, maxn)] * 4, st.integers(0, 2)))
    pts = draw(G.points(sp, n, dyadic=sp['st'] == 'flat' and draw(st.booleans())))
    for k in range(1, n):  # light-like pairs
        if sp['st'] == 'flat' and sp['dim'] > 1 and draw(st.integers(0, 4)) == 0:
            s = draw(st.integers(1, 4)) / 8
            pts[k] = [pts[k - 1][0] + s, pts[k - 1][1] + draw(st.sampled_from([-s, s]))] + pts[k - 1][2:]
    out, seen = [], set()
    per = G.periods(sp) if sp['st'] == 'flat' else []
    for p in pts:  # no two events at the same point
        key = tuple([p[0]] + [v % q if q > 0 else v for v, q in zip(p[1:], per)]) if per else tuple(p)
        if key not in seen: out.append(p)
        seen.add(key)
    return dict(sp=sp, pts=out)


def model(sp, pts):
    """Poset of the points by the spacetime's own causality test (grid points: by exact light cones); Skip if it is ambiguous."""
    f = G.make_spacetime(sp).Causality()
    n = len(pts)
    P = [0] * n
    for i in range(n):
        for j in range(i):
            a, b = G.answer(f, pts[i], pts[j]), G.answer(f, pts[j], pts[i])
            if a != b[::-1]: raise Skip()
            if a[0] and a[1]: raise Skip()
            if a[0]: P[j] |= 1 << i
            if a[1]: P[i] |= 1 << j
            want = G.decide(sp, pts[i], pts[j])
            if want is not None and want != a: raise Skip()  # C13 decides this
    for i in range(n):
        for j in bits(P[i]):
            if P[j] & ~P[i]: raise Skip()
    return Poset(P)


def as_input(pts, form):
    if form == 0: return [list(p) for p in pts]
    if form == 1: return [np.array(p) for p in pts]
    return np.array(pts, dtype=float).reshape((len(pts), -1)) if pts else []


def same(c, p):
    return len(c) == len(p) and all(float(u) == v for u, v in zip(c, p))


def restricted(m, alive):
    """model restricted to a list of events"""
    return Poset([sum(1 << a for a, i in enumerate(alive) if m.P[j] >> i & 1) for j in alive])


def fetch(S, pts, what):
    """The returned events in the order of the points."""
    S = list(S)
    eq(len(S), len(pts), what + ': number of new events')
    out = []
    for p in pts:
        e = [x for x in S if same(x.Coordinates, p)]
        eq(len(e), 1, '%s: events with the coordinates %r' % (what, p))
        out.append(e[0])
    return out


def history(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    sp, pts = case['sp'], case['pts']
    m = model(sp, pts)
    ev, alive, free = {}, [], list(range(len(pts)))
    rel = {}  # pairs related at the last recomputation among the events of that time
    C = None
    stats = set()

    def made(C, S, new, before, fmt, what):
        E = fetch(S, [pts[i] for i in new], what)
        for k, (i, e) in enumerate(zip(new, E)):
            lab = before + 1 + k
            eq(e.Label, lab if fmt is None else fmt.format(lab), what + ': label of event %d of the batch' % k)
            ev[i] = e
            alive.append(i)

    def observe(what, known, fresh):
        """known: events related at the last recomputation; all others have no relations yet"""
        eq(C.Card, len(alive), what + ': cardinality')
        ensure(set(C) == {ev[i] for i in alive}, what, ': set of events')
        for i in alive: ensure(same(ev[i].Coordinates, pts[i]), what, ': coordinates', ev[i].Coordinates, 'of an event created at', pts[i])
        if fresh:  # everything was recomputed: all views
            b = Built(restricted(m, alive), [ev[i] for i in alive], C)
            check_relation(b)
            check_links(b)
            eq(C.LinkCount(), sum(bin(x).count('1') for x in b.m.LP), what + ': number of links')
        else:
            for i in alive:
                for j in alive:
                    want = m.lt(i, j) and i in known and j in known
                    eq(ev[i] < ev[j], want, '%s: %r < %r' % (what, pts[i], pts[j]))
                    eq(ev[j] > ev[i], want, '%s: %r > %r' % (what, pts[j], pts[i]))

    known, fresh, peak = set(), True, 0
    first = case['first'] % (len(free) + 1) if free else 0
    new = free[:first]
    kw = {}
    if case['by'] == 1 or sp != dict(st='flat', dim=sp['dim']) or not new: kw['spacetime'] = G.make_spacetime(sp)
    elif case['by'] == 2: kw['dim'] = sp['dim']
    if case['by'] == 3:  # sprinkled causets are embedded causets
        from causets.sprinkledcauset import SprinkledCauset
        C = SprinkledCauset(**dict(dict(spacetime=G.make_spacetime(sp)), **kw))
        made(C, C.create(as_input([pts[i] for i in new], case['form'])), new, 0, None, 'create')
    else:
        C = EmbeddedCauset(coordinates=as_input([pts[i] for i in new], case['form']), **kw) if new else EmbeddedCauset(**kw)
    eq(C.Dim, sp['dim'], 'dimension')
    eq(C.Spacetime.Dim, sp['dim'], 'dimension of the spacetime')
    if case['by'] != 3: made(C, set(C), new, 0, None, 'constructor')
    known = set(alive)
    observe('constructor', known, True)
    for op in case['ops']:
        k = op[0]
        left = [i for i in free if i not in ev]
        if k == 'create':
            new = left[:op[1]]
            before = C.Card
            arg = as_input([pts[i] for i in new], op[2])
            fmt = [None, 'e{}', 'x{:03d}'][op[3]]
            a = dict(labelFormat=fmt) if fmt is not None or op[3] else {}
            if not op[4]: a['relate'] = False
            S = C.create(arg, **a)
            if isinstance(arg, np.ndarray): arg[:] = 77.0  # the events keep their coordinates
            made(C, S, new, before, fmt, 'create')
            if op[4]: known, fresh = set(alive), True
            elif new: fresh = False
            stats.add('create')
        elif k == 'discard':
            d = [i for i in alive if op[1] >> i & 1]
            C.discard({ev[i] for i in d})
            for i in d: alive.remove(i)
            if d: fresh = False
            stats.add('discard')
        elif k == 'relate':
            if op[1]: C.relate()
            else: C.relate(link=False)
            known, fresh = set(alive), True
            stats.add('relate')
        elif k == 'relabel':
            dim, desc = op[1] % sp['dim'], op[2]
            if dim == 0 and not desc: C.relabel()
            elif desc: C.relabel(dim=dim, descending=True)
            else: C.relabel(dim=dim)
            num = sorted(((int(ev[i].Label), pts[i][dim]) for i in alive))
            eq([a for a, _ in num], list(range(1, len(alive) + 1)), 'labels after relabel')
            val = [b for _, b in num]
            eq(val, sorted(val, reverse=bool(desc)), 'coordinates in the order of the new labels')
            stats.add('relabel')
        observe(k, known, fresh)
        peak = max(peak, len(alive))
    for s in stats: ctx.count(s)
    return peak > 2 and bool(m.nrel()) and len(stats) > 1


OPS = st.one_of(st.tuples(st.just('create'), st.integers(0, 4), st.integers(0, 2), st.integers(0, 2), st.sampled_from([True, True, False])),
                st.tuples(st.just('create'), st.integers(1, 4), st.integers(0, 2), st.integers(0, 2), st.just(True)),
                st.tuples(st.just('discard'), st.builds(lambda a, b: a & b, st.integers(0, 1023), st.integers(0, 1023))), st.tuples(st.just('relate'), st.booleans()),
                st.tuples(st.just('relabel'), st.integers(0, 4), st.booleans())).map(list)


def cloud(sp, n, rng):
    """random points of a spacetime"""
    d, r = sp['dim'], sp.get('r', 1.0)
    X = rng.uniform(-1, 1, size=(n, d))
    if sp['st'] == 'flat': X *= [2.0] + [1.0] * (d - 1)
    elif sp['st'] == 'dS': X = np.hstack([X[:, :1] * 2 * r, X[:, 1:] * 0.95 * r / np.sqrt(d)])
    elif sp['st'] == 'AdS': X *= [4 * r] + [2 * r] * (d - 1)
    else:
        q = 2.5 * X[:, 1] * r
        q[np.abs(np.abs(q) / r - 1) < 0.01] = 0.5 * r
        q[np.abs(q) < 0.02 * r] = 0.5 * r
        X = np.stack([X[:, 0] * 3 * r, q], axis=1)
    return [[float(v) for v in x] for x in X]


def many(case, ctx):
    n = case['n']
    pts = cloud(case['sp'], n, np.random.default_rng(case['seed']))
    ops = []
    for o in case['ops']:
        if o[0] == 'create': o = [o[0], o[1] * n // 8] + o[2:]
        elif o[0] == 'discard': o = [o[0], int.from_bytes(np.random.default_rng(o[1]).bytes(n // 8 + 1), 'big')]
        ops.append(o)
    return history(dict(case, pts=pts, ops=ops, first=case['first'] * n // 10), ctx)


def permutation(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets.causet import Causet
    p, fmt, r = case['p'], case['fmt'], case['r']
    n = len(p)
    kw = {}
    if fmt is not None: kw['labelFormat'] = fmt
    if r != 1.0: kw['radius'] = r
    C = EmbeddedCauset.FromPermutation(list(p), **kw)
    D = Causet.FromPermutation(list(p), fmt)
    eq(C.Card, n, 'cardinality')
    eq(C.Dim, 2, 'dimension')
    eq(C.Shape.Name, 'bicone', 'shape')
    ensure(abs(C.Shape.Parameter('radius') - r) <= 1e-6 * r, 'radius of the shape is', C.Shape.Parameter('radius'), 'expected', r)
    lab = {}
    for e in C:
        ensure(e.Label not in lab, 'label', e.Label, 'appears twice')
        lab[e.Label] = e
        t, x = e.Coordinates
        ensure(abs(t) + abs(x) <= r * (1 + 1e-9), 'event', e.Label, 'at', [t, x], 'is outside of the diamond of radius', r)
    names = [u if fmt is None else fmt.format(u) for u in range(1, n + 1)]
    eq(set(lab), set(names), 'labels')
    dd = {e.Label: e for e in D}
    eq(set(dd), set(names), 'labels of the plain causet')
    for u in range(n):
        for w in range(n):
            want = u < w and p.index(u + 1) < p.index(w + 1)
            eq(lab[names[u]] < lab[names[w]], want, 'embedded: %r < %r in %r' % (names[u], names[w], p))
            eq(dd[names[u]] < dd[names[w]], want, 'plain: %r < %r in %r' % (names[u], names[w], p))
            eq(lab[names[w]] > lab[names[u]], want, 'embedded: %r > %r in %r' % (names[w], names[u], p))
    return n > 2


NAMED = {'flat': 'flat', 'Minkowski': 'flat', 'dS': 'dS', 'de Sitter': 'dS', 'AdS': 'AdS', 'Anti-de Sitter': 'AdS', 'black hole': 'BH', 'Schwarzschild': 'BH', '': 'flat'}


def named(case, ctx):
    """spacetimes given by their names (with default parameters), dimensions given or not"""
    from causets.embeddedcauset import EmbeddedCauset
    k, d = NAMED[case['name']], case['d']
    sp = dict(st=k, dim=2 if k == 'BH' else max(d, 2) if k != 'flat' else d)
    if k != 'flat': sp['r'] = 1.0 if k == 'dS' else 0.5
    if k == 'BH': sp['metric'] = 'EF'
    pts = cloud(sp, case['n'], np.random.default_rng(case['seed']))
    m = model(sp, pts)
    kw = dict(spacetime=case['name']) if case['name'] else {}
    if case['dim'] == 1 or not pts: kw['dim'] = sp['dim']
    elif case['dim'] == 2: kw['dim'] = -1
    if case['late']:
        C = EmbeddedCauset(**dict(kw, dim=sp['dim']))
        C.create(as_input(pts, case['form']))
    else: C = EmbeddedCauset(coordinates=as_input(pts, case['form']), **kw)
    w = 'EmbeddedCauset(%r)' % kw
    eq(C.Dim, sp['dim'], w + ' dimension')
    b = Built(m, fetch(C, pts, w), C)
    check_relation(b)
    check_links(b)
    return m.nrel() > 0


TYPES = ['float32', 'float64', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'int', 'mixed', 'Fraction']


def numbers(case):
    """The points of a case as values of a number type: an array and the exact values."""
    from fractions import Fraction
    t, d, R = case['type'], case['d'], np.random.default_rng(case['seed'])
    pts = []
    for k in range(case['n']):
        near = bool(pts) and R.integers(4) > 0
        if t in ('float32', 'float64', 'float16'):
            f = getattr(np, t)
            p = R.uniform(-1, 1, d).astype(f) * f(R.choice([0.01, 1, 30]))
            if near:  # nearly light-like
                q = pts[R.integers(len(pts))]
                r = float(np.sqrt(sum((float(a) - float(b))**2 for a, b in zip(p[1:], q[1:]))))
                p[0] = f(float(q[0]) + float(R.choice([-r, r])))
                for i in range(int(R.integers(0, 4))): p[0] = np.nextafter(p[0], f(9 * R.choice([-99, 99])), dtype=f)
        elif t in ('int', 'mixed', 'Fraction'):
            p = [int(v) for v in R.integers(-20, 21, d)]
            if R.integers(4) == 0: p = [v * 2**40 for v in p]
            if t == 'mixed': p = [v + 0.5 if R.integers(2) else v for v in p]
            if t == 'Fraction': p = [Fraction(v, int(R.integers(1, 4))) for v in p]
        else:
            info = np.iinfo(t)
            big = min(info.max, 2**40)
            p = np.array([R.integers(0 if info.min == 0 else -big // 2, big // int(R.choice([1, 2, 8]))) for _ in range(d)], dtype=t)
            if near and d > 1 and info.min < 0:
                q = pts[R.integers(len(pts))]
                r = math.isqrt(sum((int(a) - int(b))**2 for a, b in zip(p[1:], q[1:])))
                v = int(q[0]) + r + int(R.integers(-2, 3))
                if abs(v) < big: p[0] = v
        pts.append(p)
    return pts


def typed(case, ctx):
    from causets.embeddedcauset import EmbeddedCauset
    from causets.causetevent import CausetEvent
    sp, pts = case['sp'], numbers(dict(case, d=case['sp']['dim']))
    val = [[float(v) for v in p] for p in pts]
    n = len(pts)
    if not n or len({tuple(p) for p in val}) < n: raise Skip()
    lt = {}
    for i in range(n):
        for j in range(i): lt[i, j] = G.decide(sp, val[i], val[j])
    S = G.make_spacetime(sp)
    arr = case['form'] == 2 and case['type'] not in ('int', 'mixed', 'Fraction')
    arg = np.array(pts) if arr else [list(p) for p in pts] if case['form'] == 0 else pts
    if case['by'] == 0: C = EmbeddedCauset(spacetime=S, coordinates=arg)
    elif case['by'] == 1:
        C = EmbeddedCauset(spacetime=S)
        C.create(arg)
    else:   # events of a plain causet
        C = EmbeddedCauset(spacetime=S)
        C.add({CausetEvent(label=k + 1, coordinates=p) for k, p in enumerate(arg)})
        C.relate()
    ev = sorted(C, key=lambda e: e.Label)
    eq(len(ev), n, 'number of events')
    rel = 0
    for i, e in enumerate(ev):
        ensure(same(e.Coordinates, val[i]), 'coordinates of', pts[i], 'are', e.Coordinates)
        for j in range(i):
            w = lt[i, j]
            if w is None: continue
            ctx.count('pairs')
            got = (e < ev[j], ev[j] < e)
            ensure(got == w, 'events at', pts[i], pts[j], 'of type', case['type'], 'in', sp, 'are related as', got, 'expected', w)
            rel += any(w)
    return rel > 0 and n > 2


FACETS = [
    Facet('number types', st.fixed_dictionaries(dict(sp=G.specs(lo=1, hi=4), type=st.sampled_from(TYPES), n=st.integers(2, 8), seed=st.integers(0, 2**31), form=st.integers(0, 2),
                                                     by=st.integers(0, 2), salt=SALT)), typed, 1600,
          rule='coordinates given as single, double or half precision, as signed or unsigned integers of any width, as mixed numbers or fractions; many pairs nearly light-like; non-trivial: more than two events, relations'),
    Facet('history', st.builds(lambda w, o, f, b, m, s: dict(w, ops=o, first=f, by=b, form=m, salt=s), world(), longer(OPS, 6), st.integers(0, 10), st.integers(0, 3),
                               st.integers(0, 2), SALT), history, 9000,
          rule='creation in batches, discards, recomputation and relabelling on up to ten points of any spacetime; non-trivial: more than two related events and two kinds of operations'),
    Facet('larger', st.fixed_dictionaries(dict(sp=G.specs(lo=2, hi=4), n=st.integers(20, 60), seed=st.integers(0, 2**31), ops=st.lists(OPS, min_size=1, max_size=3), first=st.integers(0, 10),
                                               by=st.integers(0, 3), form=st.integers(0, 2), salt=SALT)), many, 300,
          rule='the same with 20 to 60 random points', limit=60.0),
    Facet('named', st.fixed_dictionaries(dict(name=st.sampled_from(sorted(NAMED)), d=st.integers(1, 5), n=st.integers(0, 9), seed=st.integers(0, 2**31), dim=st.integers(0, 2), late=st.booleans(),
                                              form=st.integers(0, 2), salt=SALT)), named, 800, rule='random points, the spacetime given by its name; non-trivial: related events'),
    Facet('hundreds', st.fixed_dictionaries(dict(sp=G.specs(lo=2, hi=4), n=st.integers(101, 280), seed=st.integers(0, 2**31), ops=st.lists(OPS, min_size=1, max_size=2), first=st.integers(0, 10),
                                                 by=st.integers(0, 3), form=st.integers(0, 2), salt=SALT)), many, 40,
          rule='the same with 101 to 280 random points', limit=120.0),
    Facet('permutation many', st.fixed_dictionaries(dict(p=st.integers(10, 60).flatmap(lambda n: st.permutations(range(1, n + 1)).map(list)), fmt=st.sampled_from([None, None, 'e{}', '{:03d}']),
                                                         r=st.one_of(st.just(1.0), st.floats(0.05, 50)), salt=SALT)), permutation, 160, rule='the same for 10 to 60 events'),
    Facet('permutation', st.fixed_dictionaries(dict(p=st.integers(0, 9).flatmap(lambda n: st.permutations(range(1, n + 1)).map(list)),
                                                    fmt=st.sampled_from([None, None, 'e{}', '{:03d}']),
                                                    r=st.one_of(st.just(1.0), st.integers(1, 40).map(lambda k: k / 8), st.floats(0.05, 50)), salt=SALT)), permutation, 4000,
          rule='embedded and plain causets from a permutation; non-trivial: more than two events'),
]
