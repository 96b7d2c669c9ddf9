"""C02: link queries report the covering relation after any history."""
import numpy as np
from pbt.core import Facet, eq, ensure
from pbt.history import Sim, histories, check_links
from pbt.poset import cases, bulk, Poset, build, bits, popcount, SALT, subset, Built, HUNDREDS
from pbt import env

ASSUMPTIONS = ['as for C01']


def linkmatrix(b, C, order):
    m = b.m
    want = np.array([[bool(m.LP[i] >> j & 1) for j in order] for i in order], dtype=bool).reshape(len(order), len(order))
    got = C.LinkPastMatrix([b.ev[i] for i in order])
    ensure(got.shape == want.shape and (got == want).all(), 'LinkPastMatrix of', order, ':', got.tolist(), 'expected', want.tolist())
    got = C.LinkFutureMatrix([b.ev[i] for i in order])
    ensure(got.shape == want.shape and (got == want.T).all(), 'LinkFutureMatrix of', order, ':', got.tolist())


def aggregate(b, C, mode, S):
    m = b.m
    total = sum(popcount(x) for x in m.LP)
    inS = sum(popcount(m.LP[i] & S) for i in bits(S))
    if mode == 0: eq(C.LinkCount(), total, 'LinkCount()')
    elif mode == 1: eq(C.LinkCount(b.S(S)), inS, 'LinkCount(subset)')
    elif mode == 2: eq(env.CausetEvent.LinkCountOf(b.S(S)), inS, 'LinkCountOf(subset)')
    elif mode == 3: linkmatrix(b, C, sorted(bits(S), key=lambda i: (i * 7 + S) % 11))


def history(case, ctx):
    from causets.causet import Causet
    s = Sim(case)
    s.run(case['ops'])
    b = s.built()
    C = Causet(set(b.ev)) if b.ev else Causet()
    fin = case['salt']
    # the first query after the history is an aggregate one in some cases
    if b.ev:
        aggregate(b, C, fin % 6, (fin * 0x9E3779B1 >> 7) & b.m.all)
    check_links(b)
    if b.ev:
        for mode in range(4): aggregate(b, C, mode, (fin * 0x85EBCA6B >> 5) & b.m.all)
    for k in ('both', 'merge', 'disjoin', 'links'): ctx.count(k, s.stats[k])
    return s.stats['links'] > 0 and (s.stats['both'] or s.stats['merge'] or s.stats['disjoin'] or s.stats['new'] > 1) \
        and sum(popcount(x) for x in b.m.P) > sum(popcount(x) for x in b.m.LP)


def static(case, ctx):
    b = build(case)
    C = b.C
    S = case['sub'] & b.m.all
    aggregate(b, C, case['mode'], S)
    check_links(b)
    for mode in range(4): aggregate(b, C, mode, S)
    aggregate(b, C, 3, b.m.all)
    return b.m.nrel() > sum(popcount(x) for x in b.m.LP)


from hypothesis import strategies as st
FACETS = [
    Facet('history', histories(True, 28), history, 12000,
          rule='history of order changes with link, unlink and query operations interleaved; non-trivial: links were computed or queried '
               'during the history, the order was changed and it has related pairs that are no links'),
    Facet('history longer', histories(True, 70, 20, 24), history, 800, rule='the same with 20 to 70 operations on up to 24 events'),
    Facet('history many', histories(True, 150, 60, 64), history, 240, rule='the same with 60 to 150 operations on up to 64 events', limit=60.0),
    Facet('static', cases(0, 10, dict(sub=subset, mode=st.integers(0, 3))), static, 4000,
          rule='random order, link state and first query; non-trivial: some related pair is no link'),
    Facet('static larger', cases(13, 30, dict(sub=subset, mode=st.integers(0, 3))), static, 300, rule='the same for orders of 13 to 30 events'),
    Facet('static many', bulk(50, 130, dict(sub=subset, mode=st.integers(0, 3))), static, 240, rule='the same for orders of 50 to 130 events', limit=60.0),
    Facet('static hundreds', bulk(257, 300, dict(sub=subset, mode=st.integers(0, 3)), HUNDREDS), static, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
]
