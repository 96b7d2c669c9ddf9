"""C11: smallest intervals, antichain distances and antipaths."""
import random
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq, Skip
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, edges, build, bits, popcount, subset, index, Poset
from pbt.history import check_relation

ASSUMPTIONS = ['distances beyond the adjacent layers are decided inside the components of the neighbour graph, and in general for causets of two layers',
               'both or none of two related events are searched (both)']


def smallest(m, i, j, searching, inter):
    n = lambda x: popcount(x if inter is None else x & inter)
    if m.lt(j, i): i, j = j, i
    if i == j or m.lt(i, j):
        return n((m.F[i] & m.P[j]) | 1 << i | 1 << j)
    S = m.all if searching is None else searching
    p, f = m.P[i] & m.P[j] & S, m.F[i] & m.F[j] & S
    if p and f: return min(n((m.F[x] & m.P[y]) | 1 << x | 1 << y) for x in bits(p) for y in bits(f))
    if f: return min(n(m.P[y]) for y in bits(f))
    if p: return min(n(m.F[x]) for x in bits(p))
    return 0


def intervals(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    hit = 0
    for i in range(m.n):
        for j in range(m.n):
            if m.n > 30 and (i * 7 + j * 13 + case['salt']) % 71: continue
            for S in (None, case['s1'] & m.all, m.all):
                if S is not None and (i == j or m.rel(i, j)):
                    S |= 1 << i | 1 << j
                for T in (None, case['s2'] & m.all, m.all):
                    kw = {}
                    if S is not None: kw['searching'] = b.S(S)
                    if T is not None: kw['intersecting'] = b.S(T)
                    want = smallest(m, i, j, S, T)
                    eq(C.SmallestIntervalCard(b.ev[i], b.ev[j], **kw), want, 'SmallestIntervalCard(%d, %d, %s, %s)' %
                       (i, j, S if S is None else b.rep(S), T if T is None else b.rep(T)))
                    if want and i != j and not m.rel(i, j): hit += 1
                    for k, x in (('searching', S), ('intersecting', T)):
                        if x is not None: b.eqset(kw[k], x, k)
    return hit > 1


def antichain(case, m):
    """a random antichain, in the order of the priorities; maximal if asked for"""
    A = []
    for k in case['prio'] if not case['base'] else [i for i in case['prio'] if i < case['base']]:
        if (case['full'] or case['s1'] >> k & 1) and not any(m.rel(k, a) for a in A): A.append(k)
    return A


def neighbours(m, A):
    """the slice of adjacent layers, and the first distances (None: no relative)"""
    mask = sum(1 << a for a in A)
    sl = mask
    for i in range(m.n):
        f, p = m.F[i] & mask, m.P[i] & mask
        if f and max(m.icard(i, j) for j in bits(f)) == 2: sl |= 1 << i
        if p and max(m.icard(j, i) for j in bits(p)) == 2: sl |= 1 << i
    return mask, sl


def stage1(m, A, counting):
    mask, sl = neighbours(m, A)
    n = len(A)
    D = [[0 if x == y else -1 for y in range(n)] for x in range(n)]
    if sl == mask: return D, True
    for x in range(n):
        for y in range(n):
            if x != y:
                d = smallest(m, A[x], A[y], sl, mask) - 1
                D[x][y] = min(1, d) if counting == 'ziczac' else d
    return D, False


def graph(D):
    """distances of the neighbour graph, -1 if not connected"""
    n = len(D)
    out = []
    for s in range(n):
        d = [-1] * n
        d[s] = 0
        q = [s]
        while q:
            x = q.pop(0)
            for y in range(n):
                if D[x][y] == 1 and d[y] < 0 and x != y:
                    d[y] = d[x] + 1
                    q.append(y)
        out.append(d)
    return out


def twolayer(m):
    return all(not (m.P[i] and m.F[i]) for i in range(m.n))


def array(events):
    L = list(events)
    A = np.empty((len(L),), dtype=object)
    for i, e in enumerate(L): A[i] = e
    return A


def distances(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    A = antichain(case, m)
    n = len(A)
    for form in (list, tuple, array):
        L = form(b.ev[a] for a in A)
        for counting in ('ziczac', 'intersection'):
            D1, empty = stage1(m, A, counting)
            M = C.DistanceMatrix(L, counting, recursive=False)
            ensure(isinstance(M, np.ndarray) and M.shape == (n, n), 'DistanceMatrix is no square matrix')
            eq(M.tolist(), D1, 'DistanceMatrix(%s, %r, recursive=False)' % (A, counting))
            if counting == 'ziczac':
                G = graph(D1)
                M = C.DistanceMatrix(L) if case['s2'] & 1 else C.DistanceMatrix(L, counting=counting, recursive=True)
                ensure((M == M.T).all() and not M.diagonal().any(), 'DistanceMatrix', M.tolist(), 'is not symmetric with zero diagonal')
                full = twolayer(m)
                got = [[int(M[x, y]) if G[x][y] >= 0 or full else -1 for y in range(n)] for x in range(n)]
                eq(got, G, 'DistanceMatrix(%s)' % A)
        eq([b.ix(e) for e in L], A, 'antichain after the call')
    far = max([max(r) for r in G] or [0])
    ctx.count('far', far > 2)
    ctx.count('two layers, unconnected', twolayer(m) and any(-1 in r for r in G))
    return far > 1


def geodesics(G, D1, x, y):
    if x == y:
        yield (x,)
        return
    for z in range(len(G)):
        if D1[x][z] == 1 and z != x and G[z][y] == G[x][y] - 1:
            for p in geodesics(G, D1, z, y): yield (x,) + p


def antipaths(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    A = antichain(case, m)
    D1, empty = stage1(m, A, 'ziczac')
    G = graph(D1)
    if not (twolayer(m) or all(d >= 0 for r in G for d in r)):
        return False
    rich = 0
    all_ = []
    L = [b.ev[a] for a in A]
    for x, i in enumerate(A):
        for y, j in enumerate(A):
            if len(A) > 12 and (x * 7 + y * 3 + case['salt']) % 12: continue
            want = sorted(geodesics(G, D1, x, y)) if G[x][y] >= 0 else []
            want = sorted(tuple(A[k] for k in p) for p in want)
            for form in (0, 1, 2, 3):
                if form == 0: it = C.Antipaths(b.ev[i], b.ev[j], L)
                elif form == 1: it = C.Antipaths(b.ev[i], b.ev[j], set(L))
                elif form == 3: it = C.Antipaths(b.ev[i], b.ev[j], iter(L))
                else: it = C.Antipaths(b.ev[i], b.ev[j], L, np.array(G))
                got = []
                for p in it:
                    got.append(tuple(b.ix(e) for e in p))
                    ensure(len(got) <= len(want) + 4, 'too many antipaths from', i, 'to', j, 'along', A)
                eq(sorted(got), want, 'Antipaths(%d, %d) along %s' % (i, j, A))
            if len(want) > 1 or G[x][y] > 2: rich += 1
            if want: all_ += [(i, j, want)]
    # enumerations that are consumed in turn
    all_.sort(key=lambda r: -len(r[2]) - len(r[2][0]))
    r = random.Random(case['salt'])
    live = [(C.Antipaths(b.ev[i], b.ev[j], L), [], want, (i, j)) for i, j, want in all_[:2] + r.sample(all_, min(2, len(all_)))]
    while live:
        k = r.randrange(len(live))
        p = next(live[k][0], None)
        if p is None:
            it, got, want, w = live.pop(k)
            eq(sorted(got), want, 'Antipaths%r along %s, enumerated in turn with others' % (w, A))
            continue
        live[k][1].append(tuple(b.ix(e) for e in p))
        p.clear()       # the path is the caller's
        ensure(len(live[k][1]) <= len(live[k][2]) + 4, 'too many antipaths', live[k][3])
    # nothing for events that are off the antichain
    for k in range(m.n):
        if k not in A and A:
            eq(list(C.Antipaths(b.ev[k], L[0], L)), [], 'Antipaths(%d, %d) along %s' % (k, A[0], A))
            eq(list(C.Antipaths(L[0], b.ev[k], L)), [], 'Antipaths(%d, %d) along %s' % (A[0], k, A))
            break
    ctx.count('rich', rich > 0)
    return rich > 0


@st.composite
def layered(draw, lo=2, hi=12):
    """two or three layers with sparse relations: long neighbour chains"""
    k = draw(st.integers(lo, 7))
    l = draw(st.integers(min(k - 1, hi - k) if lo > 2 else 1, min(7, hi - k)))
    E = [0] * k
    for _ in range(l):
        x = draw(st.integers(0, k - 1))
        E.append(1 << x | 1 << (x + draw(st.sampled_from([1, 1, 0, 2]))) % k)
    if draw(st.integers(0, 2)) == 0 and len(E) < hi:
        E.append(1 << draw(st.integers(0, k + l - 1)) | 1 << draw(st.integers(0, k + l - 1)))
    n = len(E)
    return dict(E=E, labels=list(draw(st.permutations(range(1, n + 1)))), prio=list(draw(st.permutations(range(n)))),
                style=draw(st.integers(0, 5)), pre=draw(st.sampled_from([0, 1, 2])), salt=draw(st.integers(0, 255)),
                s1=draw(subset(n)), s2=draw(subset(n)), full=draw(st.booleans()), base=draw(st.sampled_from([0, k, k])))


@st.composite
def rows(draw, lo=6, hi=22):
    """two layers in a long zigzag, the lower row of events is the antichain"""
    c = draw(cases(lo, hi, EX, edges(lo, hi, ('zigzag',))))
    k = sum(not e for e in c['E'])
    c['base'], c['full'] = k, draw(st.integers(0, 3)) > 0
    return c


def long_row(n, seed, salt, closed, full):
    """a zigzag of very many events, in random order"""
    R = random.Random(seed)
    k = (n + 1) // 2
    pos = R.sample(range(k), k)
    E = [0] * k + [1 << pos[x] | 1 << pos[x + 1] for x in range(k - 1)]
    if closed: E.append(1 << pos[0] | 1 << pos[-1])
    n = len(E)
    return dict(E=E, labels=R.sample(range(1, n + 1), n), prio=R.sample(range(n), n), style=R.randint(0, 5), pre=R.choice([0, 1, 2]), salt=salt,
                s1=R.getrandbits(n), s2=R.getrandbits(n), full=full, base=k)


EX = dict(s1=subset, s2=subset, full=st.booleans(), base=st.just(0))
ANY = st.one_of(layered(), layered(5), cases(0, 10, EX))
FACETS = [
    Facet('intervals', cases(0, 8, EX), intervals, 3000,
          rule='all pairs of a random order, random sets to search and to intersect; non-trivial: spacelike pairs with a common relative'),
    Facet('distances', ANY, distances, 5000, rule='random antichain of a random order; non-trivial: a distance above 1'),
    Facet('antipaths', ANY, antipaths, 5000,
          rule='all pairs of a random antichain of two layers or with a connected neighbour graph; non-trivial: several shortest chains or a '
               'distance above 2'),
    Facet('intervals many', bulk(50, 110, EX), intervals, 96, rule='the same for some pairs of orders of 50 to 110 events', limit=60.0),
    Facet('intervals hundreds', bulk(257, 300, EX, ('total', 'bipyramid', 'wide')), intervals, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('distances hundreds', st.builds(long_row, st.integers(257, 290), st.integers(0, 2**31), st.integers(0, 255), st.sampled_from([False, False, True]), st.just(True)), distances, 8, thorough=64, explicit=[long_row(257 + 4 * k, k, k, k % 3 == 0, True) for k in range(1, 8)],
          rule='antichains of 129 to 145 events in two layers of 257 to 290 events', limit=240.0),
    Facet('longer distances', rows(30, 60), distances, 200, rule='antichains of up to 30 events in two layers', limit=60.0),
    Facet('longer antipaths', rows(26, 40), antipaths, 64, rule='antichains of up to 20 events in two layers', limit=60.0),
    Facet('long distances', rows(), distances, 1500, rule='antichains of up to 11 events in two layers; non-trivial: a distance above 1'),
    Facet('long antipaths', rows(), antipaths, 500, rule='antichains of up to 11 events in two layers; non-trivial: several shortest chains or a distance above 2'),
    Facet('intervals evolved', moved(cases(2, 7, EX)), evolved(intervals), 600, rule='the same queried again after changes of the order of the same events'),
    Facet('distances evolved', moved(ANY), evolved(distances), 1200, rule='the same queried again after changes of the order of the same events'),
    Facet('antipaths evolved', moved(ANY), evolved(antipaths), 1200, rule='the same queried again after changes of the order of the same events'),
]
