"""C29: answers depend only on the order."""
from hypothesis import strategies as st
from pbt import env, queries
from pbt.core import Facet, eq, Skip, Violation
from pbt.poset import cases, bulk, edges, build, bits, subset, index, SALT, Poset
from pbt.history import check_relation

ASSUMPTIONS = ['sorting and the central antichain may break ties by labels or iteration order']
KW = ('labels', 'prio', 'style', 'pre', 'salt', 'lm')


def isomorphic(case, ctx):
    one = build(case)
    m = one.m
    if not m.n: return False
    other = dict(case, **case['other'])
    env._salt = other['salt']
    two = build(other)
    od = case['perm']
    for k in case['ev']:
        i, j = k[0] % m.n, k[1] % m.n
        # the queries come in different sequences
        names = sorted(k for k in queries.STRUCT if m.n < 40 or k not in queries.SLOW)
        r1 = {n: queries.STRUCT[n](one, i, j, case['s'] & m.all, case['t'] & m.all, od) for n in names}
        off = case['rot'] % len(names)
        r2 = {n: queries.STRUCT[n](two, i, j, case['s'] & m.all, case['t'] & m.all, od) for n in names[off:] + names[:off]}
        for n in names: eq(r2[n], r1[n], 'query %s for events %d, %d, sets %s, %s of the second causet with the same order as the first' %
                           (n, i, j, one.rep(case['s'] & m.all), one.rep(case['t'] & m.all)))
    return m.nrel() > 1


def flip(n, x):
    return sum(1 << n - 1 - i for i in bits(x))


def reversal(case, ctx):
    one = build(case)
    m = one.m
    n = m.n
    if not n: return False
    R = m.reversed_()
    E = [flip(n, R.LP[n - 1 - k]) for k in range(n)]   # index k of the reverse is event n - 1 - k
    env._salt = case['other']['salt']
    two = build(dict(case, E=E, **case['other']))
    C, Q = one.C, two.C
    f = lambda x: flip(n, x)
    S = case['s'] & m.all
    A, B = one.S(S), two.S(f(S))
    M = lambda b, x: b.rep(b.mask(x)) if b is one else b.rep(f(b.mask(x)))
    def same(x, y, what): eq(M(two, y), M(one, x), what + ' of the reversed order')
    for i in range(n):
        a, z = one.ev[i], two.ev[n - 1 - i]
        same(a.Past, z.Future, 'Future(%d)' % i)
        same(a.Future, z.Past, 'Past(%d)' % i)
        same(a.LinkPast, z.LinkFuture, 'LinkFuture(%d)' % i)
        same(a.LinkFuture, z.LinkPast, 'LinkPast(%d)' % i)
        eq((z.PastCard, z.FutureCard, z.ConeCard), (a.FutureCard, a.PastCard, a.ConeCard), 'cards of the reversed order')
        for j in range(n):
            c, y = one.ev[j], two.ev[n - 1 - j]
            eq(y.Rank(z), a.Rank(c), 'Rank(%d, %d) of the reversed order' % (j, i))
            same(C.Interval(a, c), Q.Interval(y, z), 'Interval')
            eq(Q.SmallestIntervalCard(y, z), C.SmallestIntervalCard(a, c), 'SmallestIntervalCard(%d, %d) of the reversed order' % (j, i))
            for l in ('any', 'min', 'max', 4):
                eq(sorted([n - 1 - two.ix(e) for e in reversed(p)] for p in Q.Paths(y, z, l)),
                   sorted([one.ix(e) for e in p] for p in C.Paths(a, c, l)), 'paths from %d to %d (%s) in both orders' % (i, j, l))
            eq((z < y, z > y), (a > c, a < c), 'comparison')
    for kw in (dict(), dict(includePresent=True), dict(intersect=True), dict(includePresent=True, intersect=True)):
        same(C.PastOf(A, **kw), Q.FutureOf(B, **kw), 'FutureOf')
        same(C.FutureOf(A, **kw), Q.PastOf(B, **kw), 'PastOf')
    same(C.PastInf, Q.FutureInf, 'FutureInf')
    same(C.FutureInf, Q.PastInf, 'PastInf')
    same(C.PastInfOf(A), Q.FutureInfOf(B), 'FutureInfOf')
    same(C.FutureInfOf(A), Q.PastInfOf(B), 'PastInfOf')
    eq([M(two, x) for x in Q.layered()], [M(one, x) for x in C.layered(reverse=True)], 'layered of the reversed order')
    eq([M(two, x) for x in Q.layered(reverse=True)], [M(one, x) for x in C.layered()], 'layered(reverse) of the reversed order')
    for name in ('Layers', 'Ranks'):
        for lo, hi in ((1, 3), (1, 1), (2, 9)):
            same(getattr(C, name)(A, lo, hi), getattr(Q, name)(B, -hi, -lo), name)
            same(getattr(C, name)(A, -hi, -lo), getattr(Q, name)(B, lo, hi), name)
    L = [i for i in range(n) if S >> i & 1]
    for name in ('LayerNumbers', 'RankNumbers'):
        for rev in (False, True):
            x = getattr(C, name)([one.ev[i] for i in L], reverse=rev)
            y = getattr(Q, name)([two.ev[n - 1 - i] for i in L], reverse=not rev)
            eq([-v for v in y], list(x), name + ' of the reversed order')
    eq((Q.isChain(B), Q.isAntichain(B), Q.isPath(B), Q.isDisjoint(B)), (C.isChain(A), C.isAntichain(A), C.isPath(A), C.isDisjoint(A)),
       'kinds of the set %s' % L)
    od = case['perm']
    ac = queries.anti(m, od, case['low'])
    for cnt in ('ziczac', 'intersection'):
        x = C.DistanceMatrix([one.ev[i] for i in ac], cnt, recursive=False)
        y = Q.DistanceMatrix([two.ev[n - 1 - i] for i in ac], cnt, recursive=False)
        eq(y.tolist(), x.tolist(), 'DistanceMatrix of the reversed order')
    check_relation(one)
    check_relation(two)
    return m.nrel() > 1


def listed(case, ctx):
    """Answers for lists of events do not depend on the sequence of the list."""
    from checks.c11 import stage1, graph, twolayer
    one = build(case)
    m = one.m
    if not m.n: return False
    env._salt = case['other']['salt']
    two = build(dict(case, **case['other']))
    A = queries.anti(m, case['perm'], case['low'])
    B = sorted(A, key=lambda k: case['prio'][k])
    pos = [A.index(k) for k in B]
    C, Q = one.C, two.C
    for cnt in ('ziczac', 'intersection'):
        for rec in (False, True):
            # distances that the first step does not reach depend on the sequence in more than two layers
            if rec and cnt == 'intersection': continue
            x = C.DistanceMatrix([one.ev[k] for k in A], cnt, recursive=rec).tolist()
            y = Q.DistanceMatrix([two.ev[k] for k in B], cnt, recursive=rec).tolist()
            want = [[x[p][q] for q in pos] for p in pos]
            if rec and not twolayer(m):
                G = graph(stage1(m, B, cnt)[0])
                want = [[v if G[p][q] >= 0 else None for q, v in enumerate(r)] for p, r in enumerate(want)]
                y = [[v if G[p][q] >= 0 else None for q, v in enumerate(r)] for p, r in enumerate(y)]
            eq(y, want, 'DistanceMatrix(%s, %r, recursive=%r) and the same for %s' % (A, cnt, rec, B))
    L = [k for k in case['perm'] if case['s'] >> k & 1]
    R = sorted(L, key=lambda k: case['prio'][k])
    for name in ('LayerNumbers', 'RankNumbers'):
        for rev in (False, True):
            x = getattr(C, name)([one.ev[k] for k in L], reverse=rev)
            y = getattr(Q, name)([two.ev[k] for k in R], reverse=rev)
            eq(dict(zip(R, y)), dict(zip(L, x)), name)
    for name in ('PastMatrix', 'FutureMatrix', 'LinkPastMatrix', 'LinkFutureMatrix'):
        x = getattr(C, name)([one.ev[k] for k in L]).astype(int)
        y = getattr(Q, name)([two.ev[k] for k in R]).astype(int)
        eq({(p, q): int(y[a, b]) for a, p in enumerate(R) for b, q in enumerate(R)},
           {(p, q): int(x[a, b]) for a, p in enumerate(L) for b, q in enumerate(L)}, name)
    eq((Q.isChain([two.ev[k] for k in R]), Q.isPath([two.ev[k] for k in R]), Q.isAntichain([two.ev[k] for k in R])),
       (C.isChain([one.ev[k] for k in L]), C.isPath([one.ev[k] for k in L]), C.isAntichain([one.ev[k] for k in L])), 'kinds of the list %s' % L)
    ctx.count('long antichains', len(A) > 5)
    return m.nrel() > 1 and len(A) > 2


def evolved(case, ctx):
    """Queries between the changes of an order do not matter: the final answers are those of a new causet with the same order."""
    from causets.causet import Causet
    from pbt.history import Sim
    from pbt.poset import Built, make_events, relation_ok
    sim = Sim(case)
    C = Causet(set(sim.ev))
    env._salt = case['salt']
    asked = [0]

    def ask(steps, drop):
        C.add(set(sim.ev))
        if C.Card != sim.n: raise Skip()
        b = Built(sim.model(), sim.ev, C)
        for k, i, j, s, t in steps:
            if b.n:
                names = sorted(queries.STRUCT)
                queries.STRUCT[names[k % len(names)]](b, i % b.n, j % b.n, s & b.m.all, t & b.m.all, [x for x in case['perm'] if x < b.n])
                asked[0] += 1
        for x in C: x.Label, x.LinkPast
        if drop: C.discard({e for i, e in enumerate(sim.ev) if drop >> i & 1})
    try:
        for op, steps, drop in case['ops']:
            try:
                if op: sim.run([op])
            except Violation: raise Skip()
            ask(steps, drop)
    except Skip: raise
    C.add(set(sim.ev))
    m = sim.model()
    if not m.n or C.Card != m.n or not relation_ok(m, sim.ev): raise Skip()
    one = Built(m, sim.ev, C)
    ev = make_events(m, dict(labels=[e.Label for e in sim.ev], prio=list(range(m.n)), style=case['style'], salt=case['salt']))
    two = Built(m, ev, Causet(set(ev)))
    if not relation_ok(m, ev) or two.C.Card != m.n: raise Skip()
    od = [x for x in case['perm'] if x < m.n]
    pairs = [(i % m.n, j % m.n, s & m.all, t & m.all) for _, steps, _ in case['ops'][-2:] for _, i, j, s, t in steps][-3:] or [(0, m.n - 1, m.all, m.all)]
    for i, j, s, t in pairs:
        for n in sorted(queries.STRUCT):
            f = queries.STRUCT[n]
            eq(f(one, i, j, s, t, od), f(two, i, j, s, t, od), 'query %s for events %d, %d, sets %s, %s after a history of changes and queries, compared to a new causet' %
               (n, i, j, one.rep(s), one.rep(t)))
    ctx.count('queries in between', asked[0])
    return asked[0] > 0 and sim.stats['new'] + sim.stats['merge'] + sim.stats['disjoin'] > 0 and m.nrel() > 1


@st.composite
def evolving(draw):
    from pbt.history import op_strategy
    i, s = st.integers(0, 10), st.integers(0, 2047)
    step = st.tuples(st.integers(0, 60), i, i, s, s).map(list)
    op = st.tuples(st.one_of(op_strategy(False, 10), op_strategy(False, 10), op_strategy(True, 10)).map(list), st.lists(step, max_size=4),
                   st.sampled_from([0, 0, 0, 0, 1, 6, 40, 1365])).map(list)
    return dict(maxn=11, E=draw(edges(0, 8)), lm=draw(st.sampled_from([0, 0, 3])), pre=draw(st.integers(0, 2)), salt=draw(SALT),
                ops=[[None, draw(st.lists(step, max_size=4)), 0]] + draw(st.lists(op, min_size=1, max_size=6)), perm=draw(st.permutations(range(11))), style=draw(st.integers(0, 3)))


OTHER = lambda n: st.fixed_dictionaries(dict(labels=st.permutations(range(1, n + 1)).map(list), prio=st.permutations(range(n)).map(list),
                                             style=st.integers(0, 5), pre=st.integers(0, 2), salt=SALT, lm=st.integers(0, 4)))
EX = dict(low=st.booleans(), s=subset, t=subset, perm=lambda n: st.permutations(range(n)).map(list), other=OTHER, rot=st.integers(0, 30),
          ev=lambda n: st.lists(st.tuples(index(n), index(n)).map(list), min_size=1, max_size=3))
FACETS = [
    Facet('isomorphic', cases(1, 8, EX), isomorphic, 4000,
          rule='the same order built twice with other labels, creation sequence and style, link state and iteration order; %d kinds of queries '
               'compared; non-trivial: at least 2 related pairs' % len(queries.STRUCT)),
    Facet('isomorphic many', bulk(50, 120, EX), isomorphic, 160, rule='the same for orders of 50 to 120 events', limit=60.0),
    Facet('evolved', evolving(), evolved, 2500,
          rule='an order that is changed up to 6 times, with queries in between, compared to a new one; non-trivial: queries, changes and 2 related pairs'),
    Facet('listed', st.one_of(cases(1, 10, EX), cases(6, 18, EX, edges(6, 18, ('zigzag', 'zigzag', 'sparse', 'layered', 'perm')))), listed, 2500,
          rule='lists of events in two sequences; non-trivial: at least 2 related pairs and an antichain of 3 events'),
    Facet('reversal', cases(1, 7, EX), reversal, 2500, rule='an order and its reverse; non-trivial: at least 2 related pairs'),
]
