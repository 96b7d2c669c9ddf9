"""C10: path enumeration."""
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import cases, bulk, edges, build, bits, popcount, index, Poset
from pbt.history import check_relation

ASSUMPTIONS = ['length limits are not negative']


def allpaths(m, i, j):
    if i == j:
        yield (i,)
        return
    if not m.lt(i, j): return
    for k in bits(m.LF[i] & (m.P[j] | 1 << j)):
        for p in allpaths(m, k, j): yield (i,) + p


def lengths(m):
    """masks of path lengths of all pairs"""
    r = {}
    for j in range(m.n):
        for i in sorted(range(m.n), key=lambda k: popcount(m.F[k])):
            r[i, j] = 2 if i == j else 0
            for k in bits(m.LF[i]): r[i, j] |= r[k, j] << 1
    return r


def requests(case):
    r = ['any', 'min', 'max', 'timegeo', None]
    for k in range(1, 6): r.append(k)
    r += [case['one'], case['lim'], sorted(case['lim']), [case['one']], [0, 2], [2, 3], [3, 20], [1, 4]]
    return r


def around(ps):
    """requests of the lengths that exist"""
    n = {len(p) for p in ps}
    if not n: return []
    lo, hi = min(n), max(n)
    return [lo, hi, hi - 1, hi + 1, [lo, hi], [hi, hi], [lo, hi - 1], [lo + 1, hi + 9], [hi], [0, lo], [max(lo - 1, 0), lo + 1], [0, 100000]]


def select(ps, q):
    n = [len(p) for p in ps]
    if not ps or q in ('any', None): return ps
    if q == 'min': return [p for p in ps if len(p) == min(n)]
    if q in ('max', 'timegeo'): return [p for p in ps if len(p) == max(n)]
    lo, hi = (q, q) if isinstance(q, int) else (q[0], q[-1])
    return [p for p in ps if lo <= len(p) <= hi]


def paths(case, ctx):
    b = build(case)
    m, X = b.m, type(b.C)
    rich = 0
    pairs = [(i, j) for i in range(m.n) for j in range(m.n)]
    if not case['all']:     # the pairs with the most path lengths, and random ones
        ls = lengths(m)
        pairs = sorted(pairs, key=lambda q: (-popcount(ls[q]), -ls[q]))[:3] + [(case['i'], case['j'])]
    for i, j in pairs:
        ps = list(allpaths(m, i, j))
        rich = max(rich, len({len(p) for p in ps}))
        for q in requests(case) + (around(ps) if not case['all'] else []):
            got = X.Paths(b.ev[i], b.ev[j]) if q is None else X.Paths(b.ev[i], b.ev[j], list(q) if isinstance(q, list) else q)
            out = []
            for p in got:
                ensure(isinstance(p, list), 'a path is no list')
                out.append(tuple(b.ix(e) for e in p))
                ensure(len(out) <= len(ps) + 5, 'too many paths from', i, 'to', j, 'for', q, ':', sorted(out)[:8])
            eq(sorted(out), sorted(select(ps, q)), 'Paths(%d, %d, %r)' % (i, j, q))
    check_relation(b)
    ctx.count('two or more lengths', rich > 1)
    return rich > 1


def turns(case, ctx):
    """several enumerations that are consumed in turn, some of them not to the end"""
    b = build(case)
    m, X = b.m, type(b.C)
    ls = lengths(m)
    pairs = sorted(ls, key=lambda q: (-popcount(ls[q]), -ls[q]))[:3] + [(case['i'], case['j'])]
    run = []
    for k, q, stop in case['turns']:
        i, j = pairs[k % len(pairs)]
        ps = list(allpaths(m, i, j))
        qs = ['any', 'min', 'max', None] + around(ps)
        q = qs[q % len(qs)]
        run.append([X.Paths(b.ev[i], b.ev[j]) if q is None else X.Paths(b.ev[i], b.ev[j], q), [], sorted(select(ps, q)), (i, j, q), stop])
    live = list(run)
    step = 0
    while live:
        r = live[case['walk'] * (step * step + 1) % len(live)]
        step += 1
        try:
            p = next(r[0])
            r[1].append(tuple(b.ix(e) for e in p))
            p.clear()       # the path is the caller's
            ensure(len(r[1]) <= len(r[2]) + 5, 'too many paths for', r[3])
            if r[4] and len(r[1]) >= r[4]:
                live.remove(r)
                ensure(all(p in r[2] for p in r[1]) and len(set(r[1])) == len(r[1]), 'first paths of Paths%r are' % (r[3],), r[1])
        except StopIteration:
            live.remove(r)
            eq(sorted(r[1]), r[2], 'Paths%r, enumerated in turn with others' % (r[3],))
    check_relation(b)
    return sum(len(r[2]) > 1 for r in run) > 1


EX = dict(i=index, j=index, one=st.integers(0, 7), lim=st.tuples(st.integers(0, 8), st.integers(0, 8)).map(list), all=st.just(True))
EX2 = dict(EX, all=st.just(False))
DEEP = edges(7, 12, ('near', 'near', 'near', 'sum', 'named+', 'dag', 'perm'))
TURNS = dict(EX2, walk=st.integers(1, 97), turns=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 15), st.sampled_from([0, 0, 0, 1, 2])).map(list), min_size=2, max_size=5))
FACETS = [
    Facet('in turn', cases(4, 11, TURNS, DEEP), turns, 1500, rule='two to five enumerations consumed in turn, some not to the end; non-trivial: at least two of them have two paths'),
    Facet('pairs', cases(0, 9, EX, edges(3, 9, ('near', 'near', 'near', 'sum', 'dag', 'perm', 'named+', 'layered', 'union'))), paths, 4500, rule='all pairs of a random order, 18 length requests; non-trivial: a pair with paths of different lengths'),
    Facet('larger', cases(7, 12, EX2, DEEP), paths, 4000, rule='some pairs of orders of 7 to 12 events; non-trivial: a pair with paths of different lengths'),
    Facet('many', bulk(40, 100, EX2, ('wide', 'parts', 'parts', 'parts', 'tree', 'chain', 'ladder', 'ladder')), paths, 400, rule='some pairs of orders of 40 to 100 events with few paths', limit=60.0),
    Facet('hundreds', bulk(258, 300, EX2, ('ladder', 'ladder', 'ladder', 'total', 'bipyramid')), paths, 40, rule='paths of up to 300 events', limit=120.0),
    Facet('pairs evolved', moved(cases(3, 8, EX)), evolved(paths), 1000, rule='the same queried again after changes of the order of the same events'),
]
