"""C04: past, future and link matrices convert faithfully in both directions."""
import random
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Violation, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import Poset, Built, bits, cases, bulk, permuted, edges, build, SALT, subset, LARGE, BULK, bulk_edges
from pbt.history import check_relation, check_links

ASSUMPTIONS = ['matrices are two-dimensional arrays of logical values or of the numbers 0 and 1']
DT = [bool, int, float, np.uint8]


@st.composite
def matrices(draw, lo=0, hi=8):
    E = draw(edges(lo, hi, LARGE) if hi > 12 else edges(lo, hi))
    n = len(E)
    m = Poset.closed(E)
    perm = draw(st.permutations(range(n)))
    mode = draw(st.sampled_from(['direct', 'direct', 'link', 'full']))
    rowsm = dict(direct=[E[i] & ((1 << i) - 1) for i in range(n)], link=m.LP, full=m.P)[mode]
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in bits(rowsm[i]): M[perm[i]][perm[j]] = 1
    if n and draw(st.integers(0, 4)) == 0:     # loops or more relations
        for _ in range(draw(st.integers(1, 2))):
            M[draw(st.integers(0, n - 1))][draw(st.integers(0, n - 1))] = 1
    cut = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    rows = max(0, n - cut)
    extra = draw(st.sampled_from([0] * 7 + [1, 2]))   # more rows than columns
    M = M[:rows]
    if extra:
        M = M + [[0] * n for _ in range(n - rows + extra)]
    return dict(M=M, n=n, dtype=draw(st.integers(0, 3)), future=draw(st.booleans()), order=draw(st.booleans()), salt=draw(SALT))


def warshall(M, n):
    """None: not allowed"""
    if len(M) > n: return None
    R = [sum(1 << j for j in range(n) if r[j]) for r in M] + [0] * (n - len(M))
    for k in range(n):
        for i in range(n):
            if R[i] >> k & 1: R[i] |= R[k]
    if any(R[i] >> i & 1 for i in range(n)): return None
    return R


def importing(case, ctx):
    from causets.causet import Causet
    n, M = case['n'], case['M']
    A = np.array(M, dtype=DT[case['dtype']]).reshape(len(M), n)
    if case['future']: A = A.T
    if case['order']: A = np.asfortranarray(A)
    before = A.copy()
    R = warshall(M, n)
    what = ('FromFutureMatrix' if case['future'] else 'FromPastMatrix') + '(%r)' % (A.tolist(),)
    try:
        C = (Causet.FromFutureMatrix if case['future'] else Causet.FromPastMatrix)(A)
    except ValueError:
        ensure(R is None, what, 'raised a ValueError')
        ctx.count('rejected')
        return True
    ensure((A == before).all(), 'the matrix was changed')
    ensure(R is not None, what, 'was accepted with the order', sorted((e.Label, sorted(x.Label for x in e.Past)) for e in C))
    ev = sorted(C, key=lambda e: e.Label)
    eq([e.Label for e in ev], list(range(1, n + 1)), what + ' labels')
    b = Built(Poset(R), ev, C)
    check_relation(b)
    check_links(b)
    return b.m.nrel() > 0


def importing_many(case, ctx):
    kind, n, seed = case['bulk']
    m, R = Poset.closed(bulk_edges(kind, n, seed)), random.Random(seed + 2)
    p, rows = R.sample(range(n), n), [m.LP, m.P][seed % 2]
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in bits(rows[i]): M[p[i]][p[j]] = 1
    if seed % 5 == 0: M[R.randrange(n)][R.randrange(n)] = 1
    while seed % 3 == 0 and len(M) > n // 2 and not R.randrange(4): M.pop()
    return importing(dict(case, n=n, M=M), ctx)


def exporting(case, ctx):
    from causets.causet import Causet
    b = build(case)
    m, C = b.m, b.C
    dt = DT[case['dtype']]
    order = [i for i in case['perm'] if case['sub'] >> i & 1]
    L = [b.ev[i] for i in order]
    past = np.array([[m.P[i] >> j & 1 for j in order] for i in order]).reshape(len(order), len(order))
    link = np.array([[m.LP[i] >> j & 1 for j in order] for i in order]).reshape(len(order), len(order))
    for name, want in (('PastMatrix', past), ('FutureMatrix', past.T), ('LinkPastMatrix', link), ('LinkFutureMatrix', link.T)):
        got = getattr(C, name)(L, dtype=dt)
        ensure(isinstance(got, np.ndarray) and got.dtype == np.dtype(dt) and got.shape == want.shape and (got == want).all(),
               name, 'of the events', order, 'is', got.tolist(), 'expected', want.tolist())
        got = getattr(C, name)(L)
        ensure(got.dtype == bool and (got == want).all(), name, 'of the events', order, 'is', got.tolist())
    eq([id(e) for e in L], [id(b.ev[i]) for i in order], 'the list of events after the exports')
    # matrices of events that left the causet
    if case['sub'] & 1 and order:
        X = Causet(set(b.ev))
        X.discard({b.ev[i] for i in order[::2]})
        for name, want in (('PastMatrix', past), ('FutureMatrix', past.T), ('LinkPastMatrix', link), ('LinkFutureMatrix', link.T)):
            got = getattr(X, name)(L)
            ensure(got.shape == want.shape and (got == want).all(), name, 'of the listed events', order, 'some of which were discarded is', got.tolist(), 'expected', want.tolist())
    # default order, import of the export
    for name in ('PastMatrix', 'FutureMatrix', 'LinkPastMatrix', 'LinkFutureMatrix'):
        D = getattr(C, name)()
        srt = [b.ix(e) for e in C.sortedByCausality()]
        eq(sorted(srt), list(range(m.n)), 'sorted events')
        rel = m.LP if 'Link' in name else m.P
        want = np.array([[rel[i] >> j & 1 for j in srt] for i in srt]).reshape(m.n, m.n)
        if 'Future' in name: want = want.T
        ensure((D == want).all(), name, 'in default order is', D.tolist(), 'expected', want.tolist())
        N = (Causet.FromFutureMatrix if 'Future' in name else Causet.FromPastMatrix)(D)
        ev = sorted(N, key=lambda e: e.Label)
        P = [sum(1 << k for k, j in enumerate(srt) if m.lt(j, i)) for i in srt]
        check_relation(Built(Poset(P), ev, N))
    return m.nrel() > 1


FACETS = [
    Facet('import', matrices(), importing, 10000,
          rule='matrix of direct relations, links or the whole relation in any event order, with missing rows, loops or surplus rows; '
               'non-trivial: rejected or with relations'),
    Facet('export', cases(0, 8, dict(perm=permuted, sub=subset, dtype=st.integers(0, 3)), unlabelled=False),
          exporting, 2500, rule='random order exported for a list of events and by default; non-trivial: at least 2 related pairs'),
    Facet('import larger', matrices(12, 24), importing, 500, rule='the same for matrices of 12 to 24 events'),
    Facet('import many', st.builds(lambda n, s, k, f, o, d, v: dict(bulk=[k, n, s], future=f, order=o, dtype=d, salt=v), st.integers(40, 110), st.integers(0, 2**32 - 1), st.sampled_from(BULK),
                                   st.booleans(), st.booleans(), st.integers(0, 3), SALT), importing_many, 240, rule='the same for matrices of 40 to 110 events', limit=60.0),
    Facet('import hundreds', st.builds(lambda n, s, k, f, o, d, v: dict(bulk=[k, n, s], future=f, order=o, dtype=d, salt=v), st.integers(258, 300), st.integers(0, 2**32 - 1),
                                       st.sampled_from(['total', 'total', 'bipyramid', 'dense', 'wide', 'points']),
                                       st.booleans(), st.booleans(), st.integers(0, 3), SALT), importing_many, 16, rule='the same for matrices of 258 to 300 events', limit=120.0,
          explicit=[dict(bulk=['total', 260, 31], future=False, order=False, dtype=0, salt=0), dict(bulk=['bipyramid', 258, 31], future=False, order=False, dtype=0, salt=0)]),
    Facet('export many', bulk(50, 120, dict(perm=permuted, sub=subset, dtype=st.integers(0, 3)), unlabelled=False), exporting, 160, rule='the same for orders of 50 to 120 events', limit=60.0),
    Facet('export hundreds', bulk(258, 300, dict(perm=permuted, sub=subset, dtype=st.integers(0, 3)), ('total', 'total', 'bipyramid', 'wide', 'layers'), False), exporting, 24, rule='the same for orders of 258 to 300 events', limit=120.0),
    Facet('export larger', cases(13, 28, dict(perm=permuted, sub=subset, dtype=st.integers(0, 3)), unlabelled=False),
          exporting, 240, rule='the same for orders of 13 to 28 events'),
    Facet('export evolved', moved(cases(1, 8, dict(perm=permuted, sub=subset, dtype=st.integers(0, 3)), unlabelled=False)), evolved(exporting), 1500, rule='the same queried again after changes of the order of the same events'),
]
