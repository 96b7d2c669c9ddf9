"""C08: chain, antichain, path, component and central antichain answers."""
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, build, bits, popcount, subset, HUNDREDS
from pbt.history import check_relation

ASSUMPTIONS = ['the causet is closed when the whole causet is asked for']


def chainlike(case, m):
    """masks to ask for: random ones and ones near chains, paths and antichains"""
    out = [case['s1'] & m.all, case['s1'] & case['s2'] & m.all, 0, m.all]
    if m.n:
        i = case['start'] % m.n
        up = [1 << i]
        k = i
        r = case['s2'] * 2654435761 + 12345
        while m.LF[k]:
            ch = list(bits(m.LF[k]))
            k = ch[r % len(ch)]
            r //= 3
            up.append(up[-1] | 1 << k)
        out += up[-2:]
        out.append(up[-1] & ~(1 << k))
        if len(up) > 2:
            for g in {1, len(up) // 2, 1 + case['s2'] % (len(up) - 1)}:
                out.append(up[-1] & ~(up[g] & ~up[g - 1]))          # chains with a gap
            g = 1 + case['s1'] % (len(up) - 1)
            for h in range(g, len(up)): out.append(up[-1] & ~(up[h] & ~up[g - 1]))
        anti = 0
        for j in range(m.n):
            j = (j * 5 + case['s1']) % m.n
            if not m.cone(j) & anti: anti |= 1 << j
        out += [anti, anti | 1 << i, 1 << i]
    return out


def predicates(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    kinds = set()
    for S in chainlike(case, m):
        n = popcount(S)
        chain = all(popcount(m.cone(i) & S) == n for i in bits(S))
        anti = all(m.cone(i) & S == 1 << i for i in bits(S))
        order = sorted(bits(S), key=lambda i: popcount(m.P[i] & S))
        path = n > 0 and chain and all(m.LF[x] >> y & 1 for x, y in zip(order, order[1:]))
        kinds.add((chain, anti, path))
        for arg in (b.S(S), b.L(S), tuple(b.L(S)), iter(b.L(S)), b.L(S) + b.L(S)[:1 + case['s2'] % 3]):
            w = '(%s)' % b.rep(S)
            k = type(arg).__name__ == 'list_iterator'
            eq(C.isChain(arg if not k else iter(b.L(S))), chain, 'isChain' + w)
            eq(C.isAntichain(arg if not k else iter(b.L(S))), anti, 'isAntichain' + w)
            eq(C.isPath(arg if not k else iter(b.L(S))), path, 'isPath' + w)
        if S == m.all:
            eq(C.isChain(), chain, 'isChain of the causet')
            eq(C.isAntichain(), anti, 'isAntichain of the causet')
            eq(C.isPath(), path, 'isPath of the causet')
    check_relation(b)
    return len(kinds) > 2


def components(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    for S, whole in ((case['s1'] & m.all, False), (case['s1'] & case['s2'] & m.all, False), (m.all, True), (m.all, False)):
        arg = b.S(S)
        got = C.disjoint() if whole else C.disjoint(arg)
        ensure(isinstance(got, list), 'disjoint is no list')
        g = sorted(b.mask(x, 'component') for x in got)
        eq([b.rep(x) for x in g], [b.rep(x) for x in sorted(m.components(S))], 'disjoint(%s)' % b.rep(S))
        eq(C.isDisjoint() if whole else C.isDisjoint(arg), len(g) > 1, 'isDisjoint(%s)' % b.rep(S))
        b.eqset(arg, S, 'argument')
    eq(b.rep(b.mask(list(C))), b.rep(m.all), 'events after the queries')
    check_relation(b)
    return len(m.components(m.all)) > 1 and m.nrel() > 0


def central(case, ctx):
    b = build(case)
    m, C = b.m, b.C
    keep = m.all
    if 'keep' in case:      # some events are not in the causet
        keep = case['keep'] & m.all
        C.discard(b.S(m.all & ~keep))
    for k in [None] + list(range(m.n)):
        if m.n > 40 and k is not None and (k + case['salt']) % 9: continue
        d = 0 if k is None else popcount(m.P[k]) - popcount(m.F[k])
        got = C.CentralAntichain() if k is None else C.CentralAntichain(b.ev[k])
        A = b.mask(got, 'CentralAntichain')
        w = 'CentralAntichain(%s) = %s: ' % ('' if k is None else k, b.rep(A))
        dev = [abs(popcount(m.P[i]) - popcount(m.F[i]) - d) for i in range(m.n)]
        for i in bits(A): ensure(m.cone(i) & A == 1 << i, w, 'is no antichain')
        ensure(not A & ~keep, w, 'contains events that are not in the causet')
        for i in bits(keep):
            if A >> i & 1: continue
            ensure(any(dev[j] <= dev[i] for j in bits(m.cone(i) & A)), w, 'event', i, 'with deviation', dev[i],
                   'is not related to a member of at most this deviation; deviations', dev)
        if k is not None and keep >> k & 1: ensure(A >> k & 1, w, 'does not contain the event')
    return m.nrel() > 1


EX = dict(s1=subset, s2=subset, start=st.integers(0, 9))
FACETS = [
    Facet('predicates', cases(0, 9, EX), predicates, 5000,
          rule='random subsets, link paths, chains with gaps and maximal antichains of a random order; non-trivial: at least 3 kinds '
               'of subsets were met'),
    Facet('components', cases(0, 10, EX), components, 4000, rule='random order and subsets; non-trivial: at least 2 components, with relations'),
    Facet('central', cases(0, 9), central, 3000, rule='random order, every event as centre; non-trivial: at least 2 related pairs'),
    Facet('central subsets', cases(1, 9, dict(keep=subset)), central, 1500, rule='the same for causets without some events of the order, also around those'),
    Facet('predicates larger', cases(13, 36, EX), predicates, 400, rule='the same for orders of 13 to 36 events'),
    Facet('components larger', cases(13, 36, EX), components, 400, rule='the same for orders of 13 to 36 events'),
    Facet('central larger', cases(13, 26), central, 240, rule='the same for orders of 13 to 26 events'),
    Facet('predicates many', bulk(50, 140, EX), predicates, 320, rule='the same for orders of 50 to 140 events', limit=60.0),
    Facet('predicates hundreds', bulk(257, 300, EX, HUNDREDS), predicates, 40, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('components many', bulk(50, 140, EX), components, 320, rule='the same for orders of 50 to 140 events', limit=60.0),
    Facet('components hundreds', bulk(257, 300, EX, HUNDREDS), components, 40, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('central many', bulk(50, 140), central, 240, rule='the same for some events of orders of 50 to 140 events', limit=60.0),
    Facet('central hundreds', bulk(257, 300, None, HUNDREDS), central, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('predicates evolved', moved(cases(2, 9, EX)), evolved(predicates), 1200, rule='the same queried again after changes of the order of the same events'),
    Facet('components evolved', moved(cases(2, 9, EX)), evolved(components), 800, rule='the same queried again after changes of the order of the same events'),
    Facet('central evolved', moved(cases(2, 9)), evolved(central), 800, rule='the same queried again after changes of the order of the same events'),
]
