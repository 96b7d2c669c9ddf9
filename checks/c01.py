"""C01: the relation is a strict partial order with mirrored views, after any history."""
from hypothesis import strategies as st
from pbt.core import Facet, eq, ensure
from pbt.history import Sim, histories, check_relation
from pbt.poset import cases, bulk, Poset, make_events, Built, relation_ok, bits, SALT, subset, HUNDREDS

ASSUMPTIONS = ['constructor arguments are consistent (no future event at or before a past event)',
               'no event of the second set of a merge is at or before an event of the first set']


def history(case, ctx):
    s = Sim(case)
    s.run(case['ops'])
    b = s.built()
    check_relation(b)
    for k in ('both', 'merge', 'part', 'disjoin'): ctx.count(k, s.stats[k])
    return b.m.nrel() >= 2 and (s.stats['both'] or s.stats['merge'] or s.stats['disjoin'])


def construct(case, ctx):
    """Every way of constructing one order gives exactly this order."""
    from causets.causet import Causet
    m = Poset.closed(case['E'])
    ev = make_events(m, case)
    b = Built(m, ev, None)
    check_relation(b)
    C = Causet({ev[i] for i in bits(case['seed'] & m.all)})
    # the causet of some events holds whole components
    want = 0
    for c in m.components(m.all):
        if c & case['seed']: want |= c
    eq(sorted(bits(b.mask(C))), sorted(bits(want)), 'events of the causet')
    S = case['sub'] & m.all
    for i, e in enumerate(ev):
        b.eqset(e.Spacelike(b.S(S)), S & ~m.cone(i), 'Spacelike(%d) in a subset' % i)
        eq(e.SpacelikeCard(b.S(S)), bin(S & ~m.cone(i)).count('1'), 'SpacelikeCard(%d) in a subset' % i)
    check_relation(b)
    return m.nrel() > 1


FACETS = [
    Facet('history', histories(), history, 9000,
          rule='history of event creation, merge and disjoin on up to 11 events; non-trivial: at least 2 related pairs and a '
               'disjoin inside a chain, a merge or an event with past and future'),
    Facet('history longer', histories(hi=70, lo=20, maxn=24), history, 600, rule='the same with 20 to 70 operations on up to 24 events'),
    Facet('history many', histories(hi=150, lo=60, maxn=64), history, 240, rule='the same with 60 to 150 operations on up to 64 events', limit=60.0),
    Facet('construct', cases(0, 10, dict(seed=subset, sub=subset)), construct, 5000,
          rule='random order of up to 10 events built in a random sequence and style; non-trivial: at least 2 related pairs'),
    Facet('construct larger', cases(13, 32, dict(seed=subset, sub=subset)), construct, 300, rule='the same for orders of 13 to 32 events'),
    Facet('construct many', bulk(50, 130, dict(seed=subset, sub=subset)), construct, 240, rule='the same for orders of 50 to 130 events', limit=60.0),
    Facet('construct hundreds', bulk(257, 300, dict(seed=subset, sub=subset), HUNDREDS), construct, 32, rule='the same for orders of 257 to 300 events', limit=120.0),
]
