"""All structural queries with answers normalised to masks and numbers of model indices."""
from pbt import env
from pbt.core import Violation
from pbt.poset import bits

X = env.CausetEvent


def lst(b, s):
    return [b.ix(e) for e in s]


def anti(m, order, low=False):
    A = []
    if low: order = [k for k in order if not m.P[k]] + [k for k in order if m.P[k]]
    for k in order:
        if not any(m.rel(k, a) for a in A): A.append(k)
    return A


# name -> function(b, i, j, S, T, order): i, j events, S, T masks, order a permutation of all indices.
# Every function must give the same answer for isomorphic causets (in terms of model indices).
STRUCT = {}
# the same for queries whose answer may depend on labels or iteration order
OTHER = {}


def q(f):
    STRUCT[f.__name__] = f
    return f


def o(f):
    OTHER[f.__name__] = f
    return f


@q
def past(b, i, j, S, T, od): return b.mask(b.ev[i].Past), b.ev[i].PastCard, b.mask(b.ev[i].PresentOrPast)
@q
def future(b, i, j, S, T, od): return b.mask(b.ev[i].Future), b.ev[i].FutureCard, b.mask(b.ev[i].PresentOrFuture)
@q
def cone(b, i, j, S, T, od): return b.mask(b.ev[i].Cone), b.ev[i].ConeCard
@q
def spacelike(b, i, j, S, T, od): return b.mask(b.ev[i].Spacelike(b.S(S))), b.ev[i].SpacelikeCard(b.S(S))
@q
def compare(b, i, j, S, T, od):
    a, c = b.ev[i], b.ev[j]
    return a < c, a <= c, a > c, a >= c, a == c, a.isCausalTo(c), a.isSpacelikeTo(c)
@q
def links(b, i, j, S, T, od):
    a, c = b.ev[i], b.ev[j]
    return b.mask(a.LinkPast), b.mask(a.LinkFuture), b.mask(a.LinkCone), a.LinkPastCard, a.LinkFutureCard, a.LinkConeCard, \
        a.isPastLink(c), a.isFutureLink(c), a.isLinkedTo(c)
@q
def rank(b, i, j, S, T, od): return b.ev[i].Rank(b.ev[j])
@q
def counts(b, i, j, S, T, od): return b.C.LinkCount(), b.C.LinkCount(b.S(S)), b.C.Card, X.LinkCountOf(b.S(S))
@q
def pastof(b, i, j, S, T, od):
    return [b.mask(type(b.C).PastOf(b.S(S), includePresent=p, intersect=x)) for p in (0, 1) for x in (0, 1)]
@q
def futureof(b, i, j, S, T, od):
    return [b.mask(type(b.C).FutureOf(b.S(S), includePresent=p, intersect=x)) for p in (0, 1) for x in (0, 1)]
@q
def coneof(b, i, j, S, T, od):
    return [b.mask(type(b.C).ConeOf(b.S(S), includePresent=p, intersect=x)) for p in (0, 1) for x in (0, 1)] + [b.mask(b.C.SpacelikeTo(b.S(S)))]
@q
def inf(b, i, j, S, T, od):
    C = b.C
    return b.mask(C.PastInf), b.mask(C.FutureInf), C.PastInfCard, C.FutureInfCard, b.mask(C.PastInfOf(b.S(S))), \
        b.mask(C.FutureInfOf(b.S(S))), C.PastInfCardOf(b.S(S)), C.FutureInfCardOf(b.S(S))
@q
def interval(b, i, j, S, T, od):
    C, a, c = b.C, b.ev[i], b.ev[j]
    return b.mask(C.Interval(a, c)), C.IntervalCard(a, c), C.IntervalCard(a, c, False), b.mask(C.PerimetralEvents(a, c)), \
        C.PerimetralEventCount(a, c), b.mask(C.InternalEvents(a, c)), C.InternalEventCount(a, c)
@q
def kinds(b, i, j, S, T, od):
    C, s = b.C, b.S(S)
    return C.isChain(), C.isAntichain(), C.isPath(), C.isChain(s), C.isAntichain(s), C.isPath(s)
@q
def pieces(b, i, j, S, T, od):
    C, s = b.C, b.S(S)
    return sorted(b.mask(x) for x in C.disjoint()), sorted(b.mask(x) for x in C.disjoint(s)), C.isDisjoint(), C.isDisjoint(s)
@q
def layers(b, i, j, S, T, od):
    C = b.C
    r = [b.mask(C.Layers(b.S(S), x, y)) for x, y in ((-1, 1), (0, 2), (-2, 0), (1, 9), (-9, -1))]
    L = [k for k in od if S >> k & 1]
    nums = [sorted(zip(L, C.LayerNumbers([b.ev[k] for k in L], reverse=v))) for v in (False, True)]
    return r, nums, [[b.mask(x) for x in C.layered(reverse=v)] for v in (False, True)]
@q
def ranks(b, i, j, S, T, od):
    C = b.C
    r = [b.mask(C.Ranks(b.S(S), x, y)) for x, y in ((-1, 1), (0, 2), (-2, 0), (1, 9), (-9, -1))]
    L = [k for k in od if S >> k & 1]
    return r, [sorted(zip(L, C.RankNumbers([b.ev[k] for k in L], reverse=v))) for v in (False, True)]
@q
def paths(b, i, j, S, T, od):
    return [sorted(lst(b, p) for p in b.C.Paths(b.ev[i], b.ev[j], l)) for l in ('any', 'min', 'max', 3, [2, 4])]
@q
def smallest(b, i, j, S, T, od):
    C, a, c = b.C, b.ev[i], b.ev[j]
    r = [C.SmallestIntervalCard(a, c), C.SmallestIntervalCard(a, c, intersecting=b.S(T))]
    if not a.isCausalTo(c): r += [C.SmallestIntervalCard(a, c, searching=b.S(S)), C.SmallestIntervalCard(a, c, b.S(S), b.S(T))]
    return r
@q
def distances(b, i, j, S, T, od):
    A = anti(b.m, od)
    C = b.C
    return A, [C.DistanceMatrix([b.ev[k] for k in A], c, r).tolist() for c in ('ziczac', 'intersection') for r in (False, True)]
@q
def antipaths(b, i, j, S, T, od):
    A = anti(b.m, od)
    L = [b.ev[k] for k in A]
    D = b.C.DistanceMatrix(L)
    if (D < 0).any(): return []
    from checks.c11 import stage1, graph
    G = graph(stage1(b.m, A, 'ziczac')[0])
    if any(d < 0 for r in G for d in r): return []
    return sorted(lst(b, p) for p in b.C.Antipaths(b.ev[A[0]], b.ev[A[-1]], L))
@q
def matrices(b, i, j, S, T, od):
    L = [b.ev[k] for k in od if S >> k & 1]
    C = b.C
    return [m.astype(int).tolist() for m in (C.PastMatrix(L), C.FutureMatrix(L), C.LinkPastMatrix(L), C.LinkFutureMatrix(L))]
@q
def setops(b, i, j, S, T, od):
    C, s = b.C, b.S(S)
    return [b.mask(x) for x in (C | s, s | C, C & s, s & C, C - s, s - C, C ^ s, s ^ C, C.union(s), C.intersection(s), C.difference(s),
                                C.symmetric_difference(s))] + [b.ev[i] in C]
@o
def central(b, i, j, S, T, od): return b.mask(b.C.CentralAntichain()), b.mask(b.C.CentralAntichain(b.ev[i]))
@o
def labels(b, i, j, S, T, od): return [lst(b, b.C.sortedByLabels(reverse=r)) for r in (False, True)] + [lst(b, b.C.sortedByLabels(b.S(S)))]
@o
def causality(b, i, j, S, T, od):
    return [lst(b, b.C.sortedByCausality(reverse=r)) for r in (False, True)] + [lst(b, b.C.sortedByCausality(b.S(S)))]
@o
def default_matrices(b, i, j, S, T, od):
    C = b.C
    return [m.astype(int).tolist() for m in (C.PastMatrix(), C.FutureMatrix(), C.LinkPastMatrix(), C.LinkFutureMatrix())]
@o
def finding(b, i, j, S, T, od):
    l = b.ev[i].Label
    return b.ix(b.C.find(l)), b.mask(b.C.findAll(l, b.ev[j].Label)), sorted(b.ix(e) for e in b.C.findAny(l, b.ev[j].Label))
@o
def text(b, i, j, S, T, od): return str(b.ev[i]), sorted(repr(b.ev[i])), sorted(repr(b.C))
@o
def copying(b, i, j, S, T, od):
    c = b.ev[i].copy()
    r = b.mask(c.Past), b.mask(c.Future), b.mask(c.LinkPast), b.mask(c.LinkFuture), c.Label
    return r
@o
def saving(b, i, j, S, T, od):
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix='pbt-q-')
    try:
        b.C.saveAsCSV(os.path.join(d, 'x'))
        return open(os.path.join(d, 'x')).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


SLOW = ('antipaths', 'distances', 'paths', 'rank', 'ranks')     # not for many events
ALL = dict(STRUCT, **OTHER)
# pairs of query answers that are exchanged when the order is reversed: (function on b) vs (function on reversed b)
