"""C09: rank and layer numbers."""
import math
from hypothesis import strategies as st
from pbt import env
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, build, bits, popcount, subset, Poset, HUNDREDS
from pbt.history import check_relation

ASSUMPTIONS = ['layering is asked for the whole causet or a convex subset']


def number(m, S, i, past, dist):
    """layer/rank number of i relative to S (later members, negative: past=True)"""
    rel = (m.F[i] if past else m.P[i]) & S
    if not rel: return 0
    n = max(dist(i, j) if past else dist(j, i) for j in bits(rel))
    return -n if past else n


def between(m, S, first, last, dist):
    if not S or first > last: return 0
    r = 0
    if first <= 0:
        dom = S
        for i in bits(S): dom |= m.P[i]
        for i in bits(dom):
            if first <= number(m, S, i, True, dist) <= min(0, last): r |= 1 << i
    if last > 0:
        dom = S
        for i in bits(S): dom |= m.F[i]
        for i in bits(dom):
            if max(first, 0) <= number(m, S, i, False, dist) <= last: r |= 1 << i
    return r


def rank(case, ctx):
    b = build(case)
    m = b.m
    big = 0
    for i, a in enumerate(b.ev):
        for j, c in enumerate(b.ev):
            if m.n > 30 and abs(i - j) > 14 and (i * 7 + j * 13 + case['salt']) % 20: continue
            r = m.rank(i, j)
            want = math.inf if r is None else r
            eq(a.Rank(c), want, 'Rank(%d, %d)' % (i, j))
            if r is not None and r > 2: big += 1
            if r is not None and 2 <= r < m.icard(i, j) - 1: ctx.count('shortcuts')
    return big > 0


def numbers(case, ctx):
    b = build(case)
    m, X = b.m, type(b.C)
    rk = lambda i, j: m.rank(i, j)
    iv = lambda i, j: m.icard(i, j) - 1
    S = {0: case['s1'] & m.all, 1: m.minimal(case['s1'] & m.all), 2: 1 << case['start'] % m.n if m.n else 0, 3: m.maximal(case['s1'] & m.all),
         4: m.all}[case['kind']]
    for name, dist in (('Layers', iv), ('Ranks', rk)):
        F = getattr(X, name)
        for first, last in [tuple(case['range']), (0, 0), (-1, 1), (1, 1), (-1, -1), (-20, 20), (1, 20), (-20, -1), (2, 3)]:
            arg = b.S(S)
            b.eqset(F(arg, first, last), between(m, S, first, last, dist), '%s(%s, %d, %d)' % (name, b.rep(S), first, last))
            if first == last: b.eqset(F(arg, first), between(m, S, first, first, dist), '%s(%s, %d)' % (name, b.rep(S), first))
            b.eqset(arg, S, 'argument')
        order = sorted(bits(S), key=lambda i: case['labels'][i])
        if case['start'] % 3 == 1: order = order + order[case['kind']:][::-1]     # (some events listed twice)
        L = [b.ev[i] for i in order]
        N = getattr(X, name[:-1] + 'Numbers')
        for rev in (False, True):
            got = N(L, reverse=rev) if rev else N(L)
            ensure(isinstance(got, list), 'no list of numbers')
            eq(got, [number(m, S, i, rev, dist) for i in order], '%sNumbers(%s, reverse=%s)' % (name[:-1], order, rev))
        eq([b.ix(e) for e in L], order, 'list after the query')
    return S and m.nrel() > 2


def height(m, S, rev):
    Q = m.reversed_() if rev else m
    h = {}
    for i in sorted(bits(S), key=lambda i: popcount(Q.P[i])):
        h[i] = max((h[j] + 1 for j in bits(Q.P[i] & S)), default=0)
    out = []
    for i, k in sorted(h.items(), key=lambda t: t[1]):
        if k == len(out): out.append(0)
        out[k] |= 1 << i
    return out


def convex(m, S):
    r = S
    for i in bits(S):
        for j in bits(S):
            if m.lt(i, j): r |= m.F[i] & m.P[j]
    return r


def layering(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    S = convex(m, case['s1'] & m.all)
    deep = 0
    for mask, whole in ((m.all, True), (m.all, False), (S, False), (convex(m, S & case['s2']), False)):
        for rev in (False, True):
            arg = b.S(mask)
            kw = dict(reverse=True) if rev else {}
            got = C.layered(**kw) if whole else C.layered(arg, **kw)
            ensure(isinstance(got, list), 'layered is no list')
            want = height(m, mask, rev)
            eq([b.rep(b.mask(x)) for x in got], [b.rep(x) for x in want], 'layered(%s, reverse=%s)' % (b.rep(mask), rev))
            b.eqset(arg, mask, 'argument')
            deep = max(deep, len(want))
    eq(b.rep(b.mask(list(C))), b.rep(m.all), 'events after the queries')
    check_relation(b)
    return deep > 2




def interval_numbers(case, ctx):
    """numbers by intervals, of many events"""
    b = build(case)
    m, X = b.m, type(b.C)
    iv = lambda i, j: m.icard(i, j) - 1
    for S in (case['s1'] & m.all, m.all):
        num = {rev: {i: number(m, S, i, rev, iv) for i in bits(S)} for rev in (False, True)}
        order = sorted(bits(S), key=lambda i: case['labels'][i])
        for o in (order, sorted(order)):
            L = [b.ev[i] for i in o]
            for rev in (False, True):
                got = X.LayerNumbers(L, reverse=True) if rev else X.LayerNumbers(L)
                eq(list(got), [num[rev][i] for i in o], 'LayerNumbers(%s, reverse=%s)' % (o, rev))
    S = case['s1'] & case['s2'] & m.all if popcount(case['s1'] & case['s2']) < 6 else 1 << case['start'] % m.n
    for first, last in [tuple(case['range']), (0, 0), (1, 1), (-1, 1), (-1000, 1000), (-250, 250), (127, 128), (-128, -127), (200, 257), (-257, -100), (255, 1000)]:
        b.eqset(X.Layers(b.S(S), first, last), between(m, S, first, last, iv), 'Layers(%s, %d, %d)' % (b.rep(S), first, last))
    return m.nrel() > 2


FLAT = ('wide', 'parts', 'parts', 'parts')
EX = dict(s1=subset, s2=subset, start=st.integers(0, 10), kind=st.integers(0, 4),
          range=st.tuples(st.integers(-5, 5), st.integers(-5, 5)).map(list))
FACETS = [
    Facet('rank', cases(0, 11), rank, 4000, rule='all pairs of a random order; non-trivial: a rank above 2'),
    Facet('numbers', cases(0, 9, EX), numbers, 5000,
          rule='random subset (arbitrary, antichain, single event or all) and number range; non-trivial: not empty and at least 3 relations'),
    Facet('layering', cases(0, 10, EX), layering, 4000, rule='whole order and convex subsets; non-trivial: at least 3 levels'),
    Facet('rank larger', cases(13, 20), rank, 200, rule='the same for orders of 13 to 20 events'),
    Facet('numbers larger', cases(13, 20, EX), numbers, 200, rule='the same for orders of 13 to 20 events'),
    Facet('layering larger', cases(13, 28, EX), layering, 300, rule='the same for orders of 13 to 28 events'),
    Facet('layering many', bulk(50, 140, EX), layering, 320, rule='the same for orders of 50 to 140 events', limit=60.0),
    Facet('layering hundreds', bulk(257, 300, EX, HUNDREDS), layering, 40, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('intervals hundreds', bulk(257, 300, EX, HUNDREDS), interval_numbers, 40, rule='layers and layer numbers in orders of 257 to 300 events', limit=120.0),
    Facet('numbers many', bulk(50, 140, EX, FLAT), numbers, 240, rule='the same for orders of 50 to 140 events with short paths', limit=60.0),
    Facet('rank many', bulk(50, 140, EX, FLAT), rank, 160, rule='one in 20 pairs of orders of 50 to 140 events with short paths', limit=60.0),
    Facet('rank evolved', moved(cases(3, 10)), evolved(rank), 1000, rule='the same queried again after changes of the order of the same events'),
    Facet('numbers evolved', moved(cases(2, 8, EX)), evolved(numbers), 1000, rule='the same queried again after changes of the order of the same events'),
    Facet('layering evolved', moved(cases(2, 9, EX)), evolved(layering), 1000, rule='the same queried again after changes of the order of the same events'),
]
