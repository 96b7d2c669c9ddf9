"""C12: sorting by label and by causality."""
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, build, bits, subset, HUNDREDS

ASSUMPTIONS = ['labels of one causet are numbers or strings']


def labelling(case):
    k, L = case['kind'], case['labels']
    if k == 0: return L
    if k == 1: return ['x%03d' % i for i in L]
    if k == 2: return [i // 2 for i in L]            # labels need not be unique
    if k == 3: return [i * 0.5 - 2 for i in L]
    if k == 4: return [str(i) for i in L]
    if k == 6: return [('x%03d' if i % 2 else 'X%03d') % i for i in L]
    if k == 7: return [i if i % 2 else i + 0.25 for i in L]
    if k == 8: return [2**60 + i for i in L]
    if k == 9: return ['ab c'[i % 4] * (i % 5) + str(i) for i in L]
    return [-i * 100003 for i in L]


def sorting(case, ctx):
    lab = labelling(case)
    b = build(case, labels=lab)
    m, C = b.m, b.C
    S = case['sub'] & m.all
    for whole in (True, False):
        mask = m.all if whole else S
        for rev in (False, True):
            for form in ((0,) if whole else (0, 1)):
                arg = [] if whole else [b.S(mask) if form == 0 else b.L(mask)]
                copy = list(arg[0]) if arg else None
                kw = dict(reverse=True) if rev else {}
                w = 'of %s reverse=%s' % (b.rep(mask), rev)
                got = C.sortedByLabels(*arg, **kw)
                ensure(isinstance(got, list), 'sortedByLabels is no list')
                eq(b.mask(got, 'sortedByLabels'), mask, 'events sorted by label ' + w)
                ls = [lab[b.ix(e)] for e in got]
                eq(ls, sorted(ls, reverse=rev), 'labels ' + w)
                got = C.sortedByCausality(*arg, **kw)
                ensure(isinstance(got, list), 'sortedByCausality is no list')
                eq(b.mask(got, 'sortedByCausality'), mask, 'events sorted by causality ' + w)
                ix = [b.ix(e) for e in got]
                for x in range(len(ix)):
                    for y in range(x):
                        bad = m.lt(ix[y], ix[x]) if rev else m.lt(ix[x], ix[y])
                        ensure(not bad, 'sortedByCausality', w, 'is', ix, 'but', ix[x], 'and', ix[y], 'are in the wrong order; order:', m.P)
                if copy is not None:
                    ensure(list(arg[0]) == copy if form else set(copy) == arg[0], 'the argument was changed')
    for name in ('PastMatrix', 'LinkPastMatrix'):
        D = getattr(C, name)()
        ensure(not np.triu(D).any(), 'default', name, 'is not strictly lower triangular:', D.tolist())
    return m.nrel() > 1


FACETS = [
    Facet('sorting', cases(0, 10, dict(sub=subset, kind=st.integers(0, 9))), sorting, 6000,
          rule='random order with integer, float, mixed or string labels, whole or subset; non-trivial: at least 2 related pairs'),
    Facet('larger', cases(8, 32, dict(sub=subset, kind=st.integers(0, 9))), sorting, 800,
          rule='the same for 8 to 32 events'),
    Facet('many', bulk(50, 140, dict(sub=subset, kind=st.integers(0, 9))), sorting, 320, rule='the same for 50 to 140 events', limit=60.0),
    Facet('hundreds', bulk(257, 300, dict(sub=subset, kind=st.integers(0, 9)), HUNDREDS), sorting, 40, rule='the same for orders of 257 to 300 events', limit=120.0),
    Facet('sorting evolved', moved(cases(2, 9, dict(sub=subset, kind=st.integers(0, 9)))), evolved(sorting), 1500, rule='the same queried again after changes of the order of the same events'),
]
