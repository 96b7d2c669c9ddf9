"""C28: queries modify nothing and answer the same again."""
import copy
import numpy as np
from hypothesis import strategies as st
from pbt import env, queries
from pbt.core import Facet, ensure, eq, Violation
from pbt.poset import cases, bulk, permuted, edges, build, bits, subset, index, SALT, Poset
from pbt.history import check_relation, check_links

ASSUMPTIONS = ['diagram plots of a permutation set the positions of the events, as documented']
NAMES = sorted(queries.ALL)
# functions whose sets and lists are handed in by the caller: called with shared argument objects
ARGS = ['PastOf', 'FutureOf', 'ConeOf', 'SpacelikeTo', 'PastInfOf', 'FutureInfOf', 'PastInfCardOf', 'FutureInfCardOf', 'Layers', 'Ranks',
        'disjoint', 'isDisjoint', 'isChain', 'isAntichain', 'isPath', 'layered', 'sortedByLabels', 'sortedByCausality', 'LinkCount',
        'union', 'difference', 'intersection', 'symmetric_difference', 'SmallestIntervalCard', 'Spacelike', 'LinkCountOf']
LISTS = ['LayerNumbers', 'RankNumbers', 'PastMatrix', 'LinkPastMatrix', 'FutureMatrix', 'LinkFutureMatrix', 'isChain', 'isPath', 'isAntichain',
         'DistanceMatrix', 'Antipaths', 'sortedByLabels', 'sortedByCausality', 'union', 'Paths']


def state(b):
    return ([(b.mask(e.Past), b.mask(e.Future), e.Label, e.isEmbedded, list(e.Position)) for e in b.ev], b.mask(list(b.C)), b.C.Card)


def call_set(b, name, S, T, i, j):
    C = b.C
    if name in ('Layers', 'Ranks'): return b.mask(getattr(C, name)(S, -1, 1))
    if name == 'SmallestIntervalCard':
        if (i + j) % 3 == 0: T = S
        return C.SmallestIntervalCard(b.ev[i], b.ev[j], searching=S, intersecting=T) if not b.ev[i].isCausalTo(b.ev[j]) \
            else C.SmallestIntervalCard(b.ev[i], b.ev[j], intersecting=T)
    if name == 'Spacelike': return b.mask(b.ev[i].Spacelike(S)), b.ev[i].SpacelikeCard(S)
    if name == 'LinkCountOf': return env.CausetEvent.LinkCountOf(S)
    return norm(b, getattr(C, name)(S))


def norm(b, r):
    if isinstance(r, (set, frozenset)): return b.mask(r)
    if isinstance(r, list) and r and isinstance(r[0], (set, frozenset)): return [b.mask(x) for x in r]
    if isinstance(r, list) and r and isinstance(r[0], env.CausetEvent): return [b.ix(x) for x in r]
    if isinstance(r, np.ndarray): return r.tolist()
    return r


def run(case, ctx):
    b = build(case)
    m = b.m
    if not m.n: return False
    od = case['perm']
    want = state(b)
    answers = {}
    S, T = b.S(case['s'] & m.all), b.S(case['t'] & m.all)
    L = [b.ev[k] for k in od if case['s'] >> k & 1]
    L0 = list(L)
    A = [b.ev[k] for k in queries.anti(m, od, case['two'])[:6 if m.n > 40 else None]]
    A0 = list(A)
    D = b.C.DistanceMatrix(A)
    D0 = D.copy()
    from checks.c11 import stage1, graph
    connected = not (D < 0).any() and not any(d < 0 for r in graph(stage1(m, [b.ix(e) for e in A], 'ziczac')[0]) for d in r)
    for step, (k, i, j) in enumerate(case['steps'] + case['steps'][:6]):
        if m.n > 40: i, j = i * 11, j * 13
        i, j = i % m.n, j % m.n
        n = len(NAMES) + len(ARGS) + len(LISTS)
        k %= n
        if k < len(NAMES):
            name = NAMES[k]
            if m.n > 40 and name in queries.SLOW: continue
            ans = queries.ALL[name](b, i, j, case['s'] & m.all, case['t'] & m.all, od)
            key = (name, i, j)
        elif k < len(NAMES) + len(ARGS):
            name = ARGS[k - len(NAMES)]
            if m.n > 40 and name == 'Ranks': continue
            ans = call_set(b, name, S, T, i, j)
            key = ('set', name, i, j)
        else:
            name = LISTS[k - len(NAMES) - len(ARGS)]
            if m.n > 40 and name in ('RankNumbers', 'Paths'): continue
            key = ('list', name, i, j)
            if name == 'DistanceMatrix': ans = [norm(b, b.C.DistanceMatrix(A, c, r)) for c in ('ziczac', 'intersection') for r in (True, False)]
            elif name == 'Antipaths': ans = sorted([b.ix(e) for e in p] for p in b.C.Antipaths(A[i % len(A)], A[j % len(A)], A, *([] if (i + j) & 1 else [D]))) \
                    if connected else None
            elif name == 'Paths':
                lim = [2, 4]
                ans = sorted([b.ix(e) for e in p] for p in b.C.Paths(b.ev[i], b.ev[j], lim))
                eq(lim, [2, 4], 'length limits after Paths')
            else: ans = norm(b, getattr(b.C, name)(L))
        eq(state(b), want, 'events, order and labels after the query %s (%r)' % (name, key))
        eq(b.rep(b.mask(S)), b.rep(case['s'] & m.all), 'first set argument after ' + name)
        eq(b.rep(b.mask(T)), b.rep(case['t'] & m.all), 'second set argument after ' + name)
        ensure(len(L) == len(L0) and all(x is y for x, y in zip(L, L0)), 'the list argument was changed by', name)
        ensure(len(A) == len(A0) and all(x is y for x, y in zip(A, A0)), 'the antichain argument was changed by', name)
        ensure((D == D0).all(), 'the distances were changed by', name)
        if case['each']: check_links(b)
        if key in answers: eq(ans, answers[key], 'repeated query %r' % (key,))
        answers[key] = ans
    check_relation(b)
    check_links(b)
    ctx.count('queries', len(case['steps']) + min(6, len(case['steps'])))
    return m.nrel() > 1


def listed(b, r):
    if isinstance(r, list): return [listed(b, x) for x in r]
    if isinstance(r, env.CausetEvent): return b.ix(r)
    return norm(b, r)


def returned(case, ctx):
    """New sets that queries return are the caller's: changing them does not change the causet."""
    b = build(case)
    m, C = b.m, b.C
    if not m.n: return False
    want = state(b)
    for i in range(m.n):
        e = b.ev[i]
        j = (i + 1 + case['t']) % m.n
        S = b.S(case['s'] & m.all)
        one = {e}
        rs = [C.PastOf(one), C.FutureOf(one), C.ConeOf(one), C.PastOf(one, intersect=True), C.FutureOf(one, intersect=True),
              C.ConeOf(one, intersect=True), C.PastOf(one, True, True), C.ConeOf(one, True, True), e.Cone, e.PresentOrPast, e.PresentOrFuture,
              e.Spacelike(S), C.Interval(e, b.ev[j]), C.PerimetralEvents(e, b.ev[j]), C.InternalEvents(e, b.ev[j]), C.CentralAntichain(),
              C.PastInf, C.FutureInf, C.SpacelikeTo(one), C | set(), C & set(C), C - set(), C ^ set(), C.union(set()), C.findAll(1, 2, 3),
              e.LinkCone, C.Layers(one, 0), C.Ranks(one, 0), C.sortedByCausality(), C.sortedByLabels()] + C.disjoint() + C.layered()
        for r in rs: r.clear()
        eq(state(b), want, 'order and events after clearing returned sets')
        f = b.ev[j]
        L = [b.ev[k] for k in case['perm']]
        A = [b.ev[k] for k in queries.anti(m, case['perm'], case['two'])[:5]]
        D = C.DistanceMatrix(A)
        c = None if (i + case['t']) & 1 else L
        for name, q in (('PastMatrix', lambda: C.PastMatrix(c)), ('FutureMatrix', lambda: C.FutureMatrix(c)), ('LinkPastMatrix', lambda: C.LinkPastMatrix(c)), ('LinkFutureMatrix', lambda: C.LinkFutureMatrix(c)),
                        ('DistanceMatrix', lambda: C.DistanceMatrix(A)), ('DistanceMatrix', lambda: C.DistanceMatrix(A, 'intersection')), ('LayerNumbers', lambda: C.LayerNumbers(L)),
                        ('LayerNumbers', lambda: C.LayerNumbers(L, reverse=True)), ('RankNumbers', lambda: C.RankNumbers(L)), ('RankNumbers', lambda: C.RankNumbers(L, reverse=True)),
                        ('sortedByCausality', lambda: C.sortedByCausality()), ('sortedByCausality', lambda: C.sortedByCausality(S, reverse=True)), ('sortedByLabels', lambda: C.sortedByLabels()),
                        ('sortedByLabels', lambda: C.sortedByLabels(S)), ('layered', lambda: C.layered()), ('layered', lambda: C.layered(reverse=True)), ('disjoint', lambda: C.disjoint()), ('disjoint', lambda: C.disjoint(S)),
                        ('Layers', lambda: C.Layers(one, -1, 1)), ('Ranks', lambda: C.Ranks(one, -1, 1)), ('CentralAntichain', lambda: C.CentralAntichain()), ('CentralAntichain', lambda: C.CentralAntichain(f)),
                        ('PastInf', lambda: C.PastInf), ('FutureInf', lambda: C.FutureInf), ('PastInfOf', lambda: C.PastInfOf(S)), ('FutureInfOf', lambda: C.FutureInfOf(S)), ('PastOf', lambda: C.PastOf(S)), ('FutureOf', lambda: C.FutureOf(S)),
                        ('ConeOf', lambda: C.ConeOf(S)), ('PastOf', lambda: C.PastOf(S, intersect=True)), ('ConeOf', lambda: C.ConeOf(one, False)), ('SpacelikeTo', lambda: C.SpacelikeTo(one)), ('Interval', lambda: C.Interval(e, f)),
                        ('Interval', lambda: C.Interval(e, f, False)), ('PerimetralEvents', lambda: C.PerimetralEvents(e, f)), ('InternalEvents', lambda: C.InternalEvents(e, f)), ('Cone', lambda: e.Cone), ('LinkCone', lambda: e.LinkCone),
                        ('PresentOrPast', lambda: e.PresentOrPast), ('PresentOrFuture', lambda: e.PresentOrFuture), ('findAll', lambda: C.findAll(1, 2, 3)), ('union', lambda: C.union(S)), ('and', lambda: C & C), ('or', lambda: C | C),
                        ('intersection', lambda: C.intersection(S)), ('difference', lambda: C.difference(S)), ('paths', lambda: list(C.Paths(e, f))), ('antipaths', lambda: list(C.Antipaths(A[0], A[-1], A, D)) if not (D < 0).any() else [])):
            r = q()
            k = listed(b, r)
            if isinstance(r, np.ndarray): r[:] = r + 1 if r.dtype != bool else ~r
            else:
                for x in list(r):
                    if isinstance(x, (set, list)): x.clear()
                r.clear()
            again = listed(b, q())
            if name in ('paths', 'antipaths'): k, again = sorted(k), sorted(again)
            eq(again, k, 'repeated %s after the earlier result was changed' % name)
        eq(state(b), want, 'order and events after changing results')
    check_relation(b)
    check_links(b)
    return m.nrel() > 1


def plots(case, ctx):
    import matplotlib.pyplot as plt
    from causets.embeddedcauset import EmbeddedCauset
    import causets.causetplotting as cp
    n = len(case['xy'])
    crd = [[float(x) for x in c] for c in case['xy']]
    C = EmbeddedCauset(spacetime=['flat', 'dS'][case['st']], dim=2, coordinates=[[0.1 * t, 0.1 * x] for t, x in crd])
    ev = sorted(C, key=lambda e: e.Label)
    snap = lambda: ([(e.Label, sorted(x.Label for x in e.Past), sorted(x.Label for x in e.Future), sorted(x.Label for x in e.LinkPast),
                     list(map(float, e.Coordinates)), [float(p) for p in e.Position]) for e in ev], C.Card)
    want = snap()
    kw = dict(links=dict(linewidth=1.5), events=dict(markersize=3.0), labels=dict(color='k'), axislim=dict(xlim=(-1, 1), ylim=(-2, 2)), dims=[1, 0])
    kw['pastcones'] = kw['futurecones'] = dict(alpha=0.3)
    if case['depth']: kw.update(timedepth=float(case['depth']), time=[0.0, 0.25])
    kw0 = copy.deepcopy(kw)
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111)
        lst = list(ev)
        if case['how'] == 0: cp.plot(C, ax, **kw)
        elif case['how'] == 1: cp.plot(lst, ax, spacetime=C.Spacetime, **kw)
        elif case['how'] == 2: cp.plotDiagram(lst, plotAxes=ax, links=kw['links'])
        else:
            P = cp.Plotter(C, ax, **kw)
            t = [0.0, 0.5]
            P(t)
            P(t)
            eq(t, [0.0, 0.5], 'time list')
        ensure(len(lst) == len(ev) and all(x is y for x, y in zip(lst, ev)), 'the list of events was changed')
    finally:
        plt.close(fig)
    eq(snap(), want, 'events after the plot')
    eq(kw, kw0, 'plot options after the plot')
    return n > 1


EX = dict(s=subset, t=subset, perm=lambda n: st.permutations(range(n)).map(list), two=st.booleans(),
          each=st.booleans(),
          steps=st.lists(st.tuples(st.integers(0, 200), st.integers(0, 17), st.integers(0, 17)).map(list), min_size=4, max_size=16))
FACETS = [
    Facet('queries', cases(1, 8, EX, unlabelled=False), run, 5000,
          rule='sequence of up to 22 queries of %d kinds, the first ones repeated; the state is compared after each; non-trivial: at least 2 '
               'related pairs' % (len(NAMES) + len(ARGS) + len(LISTS))),
    Facet('larger', cases(8, 16, EX, unlabelled=False), run, 1500, rule='the same for orders of up to 16 events'),
    Facet('many', bulk(50, 110, dict(EX, perm=permuted, each=st.just(False)), unlabelled=False), run, 160, rule='the same for orders of 50 to 110 events', limit=60.0),
    Facet('bushy', cases(7, 13, EX, edges(7, 13, ('bush', 'bush', 'zigzag')), unlabelled=False), run, 1500,
          rule='the same for orders with many links of one event and for long zigzags'),
    Facet('returned', cases(1, 8, EX, unlabelled=False), returned, 1200, rule='returned sets are cleared by the caller; non-trivial: at least 2 related pairs'),
    Facet('plots', st.fixed_dictionaries(dict(xy=st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), min_size=1, max_size=6,
                                                          unique_by=tuple),
                                              st=st.integers(0, 1), depth=st.sampled_from([0, 0, 1, -2]), how=st.integers(0, 3), salt=SALT)),
          plots, 500, rule='plots of up to 6 events in four ways; non-trivial: at least 2 events'),
]
