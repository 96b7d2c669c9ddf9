"""C07: past, future, cone, interval and infinity queries match the order."""
from hypothesis import strategies as st
from pbt import env
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, build, bits, popcount, subset, HUNDREDS
from pbt.history import check_relation

ASSUMPTIONS = ['the causet holds all relatives of its events (it is closed), as after construction']


def fold(m, S, f, inter):
    r = None
    for i in bits(S):
        x = f(i)
        r = x if r is None else (r & x if inter else r | x)
    return r or 0


def sets(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    X = type(C)
    for S in (case['s1'] & m.all, case['s1'] & case['s2'] & m.all, m.all):
        w = ' of %s' % b.rep(S)
        a = b.S(S)
        for inter in (False, True):
            for pres in (False, True):
                one = lambda f: fold(m, S, lambda i: f(i) | (1 << i if pres else 0), inter)
                kw = dict(includePresent=pres, intersect=inter)
                if not inter and case['s2'] & 1: kw.pop('intersect')
                b.eqset(X.PastOf(a, **kw), one(lambda i: m.P[i]), 'PastOf%s %r' % (w, kw))
                b.eqset(X.FutureOf(a, **kw), one(lambda i: m.F[i]), 'FutureOf%s %r' % (w, kw))
                b.eqset(X.ConeOf(a, **kw), one(lambda i: m.P[i] | m.F[i]), 'ConeOf%s %r' % (w, kw))
        b.eqset(X.PastOf(a), fold(m, S, lambda i: m.P[i], False), 'PastOf' + w)
        b.eqset(X.FutureOf(a), fold(m, S, lambda i: m.F[i], False), 'FutureOf' + w)
        b.eqset(X.ConeOf(a), fold(m, S, m.cone, False), 'ConeOf' + w)
        b.eqset(C.SpacelikeTo(a), m.all & ~fold(m, S, m.cone, False), 'SpacelikeTo' + w)
        mi, ma = m.minimal(S), m.maximal(S)
        b.eqset(X.PastInfOf(a), mi, 'PastInfOf' + w)
        b.eqset(X.FutureInfOf(a), ma, 'FutureInfOf' + w)
        eq(X.PastInfCardOf(a), popcount(mi), 'PastInfCardOf' + w)
        eq(X.FutureInfCardOf(a), popcount(ma), 'FutureInfCardOf' + w)
        b.eqset(a, S, 'argument')
        for i, e in enumerate(b.ev):
            b.eqset(e.Spacelike(a), S & ~m.cone(i), 'Spacelike(%d)%s' % (i, w))
            eq(e.SpacelikeCard(a), popcount(S & ~m.cone(i)), 'SpacelikeCard(%d)%s' % (i, w))
    mi, ma = m.minimal(m.all), m.maximal(m.all)
    b.eqset(C.PastInf, mi, 'PastInf')
    b.eqset(C.FutureInf, ma, 'FutureInf')
    eq(C.PastInfCard, popcount(mi), 'PastInfCard')
    eq(C.FutureInfCard, popcount(ma), 'FutureInfCard')
    check_relation(b)
    return m.nrel() > 1


def pairs(case, ctx):
    b = build(case)
    m, X = b.m, type(b.C)
    for i, a in enumerate(b.ev):
        for j, c in enumerate(b.ev):
            if m.n > 40 and (i * 7 + j * 13 + case['salt']) % 20 and i != j: continue
            w = '(%d, %d)' % (i, j)
            lt = m.lt(i, j)
            op = m.F[i] & m.P[j] if lt else 0
            cl = op | 1 << i | 1 << j if lt or i == j else 0
            b.eqset(X.Interval(a, c), cl, 'Interval' + w)
            b.eqset(X.Interval(a, c, includeBoundary=True), cl, 'Interval' + w)
            eq(X.IntervalCard(a, c), popcount(cl), 'IntervalCard' + w)
            eq(X.IntervalCard(a, c, includeBoundary=True), popcount(cl), 'IntervalCard' + w)
            if i != j:
                b.eqset(X.Interval(a, c, False), op, 'open Interval' + w)
                eq(X.IntervalCard(a, c, False), popcount(op), 'open IntervalCard' + w)
            per = m.LF[i] & m.LP[j] if lt else 0
            b.eqset(X.PerimetralEvents(a, c), per, 'PerimetralEvents' + w)
            eq(X.PerimetralEventCount(a, c), popcount(per), 'PerimetralEventCount' + w)
            b.eqset(X.InternalEvents(a, c), op & ~per, 'InternalEvents' + w)
            eq(X.InternalEventCount(a, c), popcount(op & ~per), 'InternalEventCount' + w)
    check_relation(b)
    return any(m.lt(i, j) and m.icard(i, j) > 3 for i in range(m.n) for j in range(m.n))


FACETS = [
    Facet('sets', cases(0, 10, dict(s1=subset, s2=subset)), sets, 5000,
          rule='set queries for random subsets of a random order; non-trivial: at least 2 related pairs'),
    Facet('pairs', cases(0, 10), pairs, 3500,
          rule='interval queries for all pairs of a random order; non-trivial: an interval with at least 2 inner events'),
    Facet('sets larger', cases(13, 36, dict(s1=subset, s2=subset)), sets, 500, rule='the same for orders of 13 to 36 events'),
    Facet('pairs larger', cases(13, 26), pairs, 240, rule='the same for orders of 13 to 26 events'),
    Facet('sets many', bulk(50, 130, dict(s1=subset, s2=subset)), sets, 240, rule='the same for orders of 50 to 130 events', limit=60.0),
    Facet('sets hundreds', bulk(257, 300, dict(s1=subset, s2=subset), HUNDREDS), sets, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('pairs many', bulk(50, 130), pairs, 96, rule='the same for one in 20 pairs of orders of 50 to 130 events', limit=60.0),
    Facet('pairs hundreds', bulk(257, 300, None, HUNDREDS), pairs, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('sets evolved', moved(cases(2, 9, dict(s1=subset, s2=subset))), evolved(sets), 1200, rule='the same queried again after changes of the order of the same events'),
    Facet('pairs evolved', moved(cases(2, 9)), evolved(pairs), 800, rule='the same queried again after changes of the order of the same events'),
]
