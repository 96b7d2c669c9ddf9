"""C03: named constructors build the order that their definition states."""
import itertools, random
from hypothesis import strategies as st
from pbt import env
from pbt.core import Facet, ensure, eq
from pbt.poset import Poset, Built, bits, SALT
from pbt.history import check_relation, check_links

ASSUMPTIONS = ['labels are produced with the documented formats; unlabelled events are compared by colour refinement']


def bylabel(C, labels, P, what):
    """C holds exactly the events with these labels, in the order P"""
    from causets.causet import Causet
    ensure(isinstance(C, Causet), what, 'is no Causet')
    ev = list(C)
    eq(C.Card, len(labels), what + ' number of events')
    eq(len(ev), len(labels), what + ' number of iterated events')
    got = {}
    for e in ev:
        k = (type(e.Label).__name__, e.Label)
        ensure(k not in got, what, 'has label', e.Label, 'twice')
        got[k] = e
    want = [(type(l).__name__, l) for l in labels]
    eq(sorted(map(str, got)), sorted(map(str, want)), what + ' labels')
    b = Built(Poset(P), [got[k] for k in want], C)
    check_relation(b)
    check_links(b)
    return b


def refine(P):
    m = Poset(P)
    col = [0] * m.n
    for _ in range(4):
        col = [hash((col[i], tuple(sorted(col[j] for j in bits(m.P[i]))), tuple(sorted(col[j] for j in bits(m.F[i])))))
               for i in range(m.n)]
    return sorted(col)


def permutation_order(p):
    """masks by value: event u precedes w iff u < w and u is left of w"""
    pos = {u: k for k, u in enumerate(p)}
    n = len(p)
    return [sum(1 << u - 1 for u in range(1, w) if pos[u] < pos[w]) for w in range(1, n + 1)]


FORMATS = [None, None, '', 'e{}', 'my label {:.2f}', '{:03d}', '{}', '{0}-{0}']


def unlabelled(C, P, what):
    ev = list(C)
    eq(len(ev), len(P), what + ' number of events')
    ix = {id(e): i for i, e in enumerate(ev)}
    for e in ev: ensure(e.Label is None, what, 'labels an event', e.Label)
    Q = [sum(1 << ix[id(x)] for x in e.Past) for e in ev]
    eq(refine(Q), refine(P), what + ' order')
    check_relation(Built(Poset(Q), ev, C))


def permutation(case, ctx):
    from causets.causet import Causet
    p = case['p']
    n = len(p)
    P = permutation_order(p)
    arg = list(p)
    f = FORMATS[case['fmt']]
    C = Causet.FromPermutation(arg) if f is None and case['fmt'] == 0 else Causet.FromPermutation(arg, f) \
        if case['kw'] else Causet.FromPermutation(arg, labelFormat=f)
    eq(arg, p, 'the permutation after the call')
    if f == '': unlabelled(C, P, 'FromPermutation')
    else: bylabel(C, [u if f is None else f.format(u) for u in range(1, n + 1)], P, 'FromPermutation(%r)' % (p,))
    return 0 < sum(bin(x).count('1') for x in P) < n * (n - 1) // 2


def linear(case, ctx):
    from causets.causet import Causet
    n, f = case['n'], FORMATS[case['fmt']]
    lab = [u if f is None else f.format(u) for u in range(1, n + 1)]
    chain, anti = [(1 << i) - 1 for i in range(n)], [0] * n
    for name, P in (('NewChain', chain), ('NewAntichain', anti)):
        F = getattr(Causet, name)
        C = F(n) if f is None else F(n, f)
        if f == '': unlabelled(C, P, name)
        elif name == 'NewChain': bylabel(C, lab, P, 'NewChain(%d)' % n)
        else: bylabel(C, lab, P, 'NewAntichain(%d)' % n)
    return n > 1


def simplex(case, ctx):
    from causets.causet import Causet
    d, central = case['d'], case['central']
    faces = [c for k in range(1, d + 1) for c in itertools.combinations(range(1, d + 2), k)]
    if d == 0: faces = [(1,)]
    elif central: faces.append(tuple(range(1, d + 2)))
    P = [sum(1 << i for i, a in enumerate(faces) if set(a) < set(b)) for b in faces]
    C = Causet.NewSimplex(d) if central and case['default'] else Causet.NewSimplex(d, central)
    bylabel(C, ['-'.join(map(str, f)) for f in faces], P, 'NewSimplex(%d, %s)' % (d, central))
    return d > 0


def fence(case, ctx):
    from causets.causet import Causet
    l, h, closed = case['l'], case['h'], case['closed']
    what = 'NewFence(%d, %d, %s)' % (l, h, closed)
    if case['crown']:
        h, closed = 1, True
        C = Causet.NewCrown() if l == 3 else Causet.NewCrown(l)
    elif h == 1 and closed and case['default']: C = Causet.NewFence(l)
    else: C = Causet.NewFence(l, h, closed) if case['default'] else Causet.NewFence(length=l, height=h, closed=closed)
    if l < 1 or h < 0:
        eq(C.Card, 0, what)
        return False
    E = []
    for k in range((h + 1) * l):
        row, i = divmod(k, l)
        m = 0
        if row:
            m |= 1 << k - l
            if i: m |= 1 << k - l - 1
            elif closed: m |= 1 << k - 1   # the last event of the row before
        E.append(m)
    bylabel(C, list(range(1, len(E) + 1)), Poset.closed(E).P, what)
    return l > 1 and h > 0


FACETS = [
    Facet('permutation', st.fixed_dictionaries(dict(p=st.integers(0, 12).flatmap(lambda n: st.permutations(range(1, n + 1)).map(list)),
                                                    fmt=st.integers(0, len(FORMATS) - 1), kw=st.booleans(), salt=SALT)), permutation, 4000,
          rule='permutation of up to 12 integers with a label format; non-trivial: neither chain nor antichain',
          explicit=[dict(p=list(q), fmt=0, kw=True, salt=1) for n in range(5) for q in itertools.permutations(range(1, n + 1))] +
          [dict(p=[(7 * k) % 23 + 1 for k in range(23)], fmt=0, kw=True, salt=3)]),
    Facet('linear', st.fixed_dictionaries(dict(n=st.integers(0, 16), fmt=st.integers(0, len(FORMATS) - 1), salt=SALT)), linear, 400,
          rule='chains and antichains of up to 16 events; non-trivial: at least 2 events'),
    Facet('simplex', st.fixed_dictionaries(dict(d=st.sampled_from([0, 1, 2, 3, 4, 2, 3, 4, 5]), central=st.booleans(), default=st.booleans(), salt=SALT)), simplex, 320,
          rule='simplices in up to 5 space dimensions; non-trivial: dimension above 0',
          explicit=[dict(d=d, central=c, default=True, salt=0) for d in (5, 6) for c in (True, False)] +
          [dict(d=d, central=d != 8, default=False, salt=0) for d in (7, 8, 9)], limit=120.0),
    Facet('fence', st.fixed_dictionaries(dict(l=st.integers(-1, 12), h=st.integers(-1, 5), closed=st.booleans(), crown=st.booleans(),
                                              default=st.booleans(), salt=SALT)), fence, 1600,
          rule='fences and crowns of length up to 12 and height up to 5; non-trivial: length above 1 and height above 0'),
    Facet('permutation larger', st.fixed_dictionaries(dict(p=st.integers(13, 40).flatmap(lambda n: st.permutations(range(1, n + 1)).map(list)),
                                                           fmt=st.integers(0, len(FORMATS) - 1), kw=st.booleans(), salt=SALT)), permutation, 200,
          rule='permutations of 13 to 40 integers'),
    Facet('permutation many', st.builds(lambda n, s, f, k, v: dict(p=random.Random(s).sample(range(1, n + 1), n), fmt=f, kw=k, salt=v), st.integers(50, 130), st.integers(0, 2**31),
                                        st.integers(0, len(FORMATS) - 1), st.booleans(), SALT), permutation, 96, rule='permutations of 50 to 130 integers (and 260)', limit=120.0,
          explicit=[dict(p=random.Random(5).sample(range(1, 261), 260), fmt=0, kw=True, salt=0)]),
    Facet('linear many', st.fixed_dictionaries(dict(n=st.integers(17, 120), fmt=st.integers(0, len(FORMATS) - 1), salt=SALT)), linear, 48,
          rule='chains and antichains of 17 to 120 events (and 260, 400)', limit=120.0, explicit=[dict(n=n, fmt=0, salt=0) for n in (260, 400)]),
    Facet('fence many', st.fixed_dictionaries(dict(l=st.integers(1, 40), h=st.integers(0, 12), closed=st.booleans(), crown=st.booleans(),
                                                   default=st.booleans(), salt=SALT)), fence, 64, rule='fences of length up to 40 and height up to 12', limit=60.0),
]
