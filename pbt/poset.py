"""Reference model of finite orders on bit masks, strategies and builders."""
import random
from hypothesis import strategies as st
from pbt import env
from pbt.core import Skip, Violation, ensure

CausetEvent = env.CausetEvent


def bits(m):
    i = 0
    while m:
        if m & 1: yield i
        m >>= 1
        i += 1


def popcount(m):
    return bin(m).count('1')


class Poset:
    """P[i] = mask of all events before i (closed), F the converse, LP/LF the covering relation."""

    def __init__(self, P):
        n = self.n = len(P)
        self.P = list(P)
        self.F = [0] * n
        for i in range(n):
            for j in bits(P[i]): self.F[j] |= 1 << i
        self.LP = [0] * n
        self.LF = [0] * n
        for i in range(n):
            for j in bits(P[i]):
                if not (self.F[j] & P[i]):
                    self.LP[i] |= 1 << j
                    self.LF[j] |= 1 << i
        self.all = (1 << n) - 1

    @staticmethod
    def closed(E):
        """from arbitrary acyclic direct-past masks with i's masks below 1 << i"""
        P = []
        for i, m in enumerate(E):
            p = 0
            for j in bits(m & ((1 << i) - 1)): p |= P[j] | 1 << j
            P.append(p)
        return Poset(P)

    def lt(self, i, j):
        return bool(self.P[j] >> i & 1)

    def rel(self, i, j):
        return bool((self.P[j] | self.F[j]) >> i & 1)

    def cone(self, i):
        return self.P[i] | self.F[i] | 1 << i

    def icard(self, i, j):
        """closed interval size, 0 if unrelated"""
        if i == j: return 1
        return popcount(self.F[i] & self.P[j]) + 2 if self.lt(i, j) else 0

    def rank(self, i, j):
        if i == j: return 0
        if not self.lt(i, j): return None
        seen, front, d = 1 << i, 1 << i, 0
        while front:
            d += 1
            nxt = 0
            for k in bits(front): nxt |= self.LF[k]
            if nxt >> j & 1: return d
            front = nxt & ~seen
            seen |= nxt
        return None

    def minimal(self, S):
        return sum(1 << i for i in bits(S) if not self.P[i] & S)

    def maximal(self, S):
        return sum(1 << i for i in bits(S) if not self.F[i] & S)

    def reversed_(self):
        return Poset(self.F)

    def components(self, S):
        out = []
        left = S
        while left:
            c = left & -left
            while True:
                g = c
                for i in bits(c): g |= self.cone(i) & S
                if g == c: break
                c = g
            out.append(c)
            left &= ~c
        return out

    def nrel(self):
        return sum(popcount(p) for p in self.P)


# ------------------------------------------------------------------------------- strategies
def named(kind, k):
    """Direct-past masks of special orders."""
    if kind == 'chain': return [(1 << i - 1) if i else 0 for i in range(k)]
    if kind == 'antichain': return [0] * k
    if kind == 'crown':
        k = max(2, k // 2)
        return [0] * k + [1 << i | 1 << (i - 1) % k for i in range(k)]
    if kind == 'fence':
        k = max(2, k // 2)
        return [0] * k + [1 << i | (1 << i - 1 if i else 0) for i in range(k)]
    if kind == 'boolean':
        d = 1 if k < 4 else 2 if k < 8 else 3
        # in order of subset size
        subs = sorted(range(1 << d), key=lambda s: (popcount(s), s))
        return [sum(1 << j for j, t in enumerate(subs) if t != s and t & s == t) for s in subs]
    if kind == 'ladder':
        E = []
        for i in range(k):
            m = 0
            if i >= 2: m |= 1 << i - 2
            if i % 2 and i >= 3: m |= 1 << i - 3
            E.append(m)
        return E
    if kind == 'diamonds':
        E = [0]
        while len(E) < k:
            t = len(E) - 1
            E += [1 << t, 1 << t]
            E.append(1 << len(E) - 1 | 1 << len(E) - 2)
        return E[:max(k, 1)]
    if kind == 'tree':
        return [0] + [1 << (i - 1) // 2 for i in range(1, k)]
    if kind == 'ranks':   # short and long ways between two ends
        E = [0]
        for i in range(1, k - 2): E.append(1 << i - 1)
        if k > 3:
            E.append(1)
            E.append(1 << len(E) - 1 | 1 << len(E) - 2)
        return E
    raise KeyError(kind)


@st.composite
def edges(draw, lo=0, hi=9, kinds=('dag', 'dag', 'dag', 'perm', 'perm', 'layered', 'near', 'near', 'named', 'named+', 'union', 'sum')):
    """Direct-past masks of a random order (indices are a linear extension)."""
    kind = draw(st.sampled_from(kinds))
    if hi < 3: kind = 'dag'
    elif draw(st.integers(0, 2)): lo = max(lo, (lo + hi) // 2)   # (small orders are kept, but not preferred)
    if kind == 'dag':
        n = draw(st.integers(lo, hi))
        cut = draw(st.sampled_from([40, 90, 140, 215]))
        b = draw(st.binary(min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))
        E, k = [], 0
        for i in range(n):
            m = 0
            for j in range(i):
                # 0 (the simplest byte) means unrelated
                if 0 < b[k] < cut: m |= 1 << j
                k += 1
            E.append(m)
        return E
    if kind == 'zigzag':    # a row of events, neighbours of a shuffled row joined from above: far neighbours
        k = draw(st.integers(3, max(3, hi // 2)))
        row = draw(st.permutations(range(k)))
        E = [0] * k
        gap = draw(st.integers(0, 4 * k))
        for x in range(min(k - 1, hi - k)):
            if x != gap: E.append(1 << row[x] | 1 << row[x + 1])
        for m in draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), max_size=max(0, min(3, hi - len(E))))):
            E.append(1 << m[0] | 1 << m[1])
        return E
    if kind == 'bush':      # an event (or two) below many links, which meet above
        k = draw(st.integers(3, max(3, hi - 3)))
        a = draw(st.integers(1, 2))
        E = [0] * a + [draw(st.sampled_from([1, 1, 1, (1 << a) - 1])) for _ in range(k - a)]
        while len(E) < hi and draw(st.integers(0, 3)): E.append(draw(st.integers(1, (1 << len(E)) - 1)) & ~((1 << a) - 1))
        return E
    if kind == 'near':      # links to the preceding few events: paths of many lengths
        n = draw(st.integers(max(lo, min(hi, 5)), hi))
        w = draw(st.integers(2, 4))
        return [b & ((1 << w) - 1) << max(0, i - w) & ((1 << i) - 1) if i < w else
                (b & (1 << w) - 1) << i - w for i, b in enumerate(draw(st.lists(st.integers(0, 15), min_size=n, max_size=n)))]
    if kind == 'sparse':    # few direct predecessors, near and far
        n = draw(st.integers(max(lo, min(hi, 5)), hi))
        return [sum({1 << j for j in js}) for js in
                (draw(st.lists(st.one_of(st.integers(max(0, i - 5), i - 1), st.integers(0, i - 1)), max_size=3)) if i else [] for i in range(n))]
    if kind == 'perm':
        n = draw(st.integers(lo, hi))
        p = draw(st.permutations(range(n)))
        return [sum(1 << j for j in range(i) if p[j] < p[i]) for i in range(n)]
    if kind == 'layered':
        layers = draw(st.integers(2, 4))
        w = max(1, hi // layers)
        E, prev = [], []
        for _ in range(layers):
            k = draw(st.integers(1, w))
            masks = draw(st.lists(st.integers(0, (1 << max(1, len(prev))) - 1), min_size=k, max_size=k))
            cur = []
            for m in masks:
                cur.append(len(E))
                E.append(sum(1 << prev[j] for j in range(len(prev)) if m >> j & 1))
            prev = cur
        return E if len(E) >= lo else E + [0] * (lo - len(E))
    if kind in ('named', 'named+'):
        nm = draw(st.sampled_from(['chain', 'antichain', 'crown', 'fence', 'boolean', 'ladder', 'diamonds', 'tree', 'ranks']))
        E = named(nm, draw(st.integers(max(lo, 1), hi)))[:hi]
        if kind == 'named+' and E:
            for _ in range(draw(st.integers(0, 2))):
                i = draw(st.integers(0, len(E) - 1))
                if i:
                    E[i] ^= 1 << draw(st.integers(0, i - 1))
            if len(E) < hi and draw(st.booleans()):
                E.append(draw(st.integers(0, (1 << len(E)) - 1)))
        return E if len(E) >= lo else E + [0] * (lo - len(E))
    A = draw(edges(0, hi // 2))
    B = draw(edges(0, hi - len(A)))
    a = len(A)
    low = (1 << a) - 1 if kind == 'sum' else 0
    E = A + [(m << a) | low for m in B]
    return E if len(E) >= lo else E + [0] * (lo - len(E))


SALT = st.integers(0, 255)


LARGE = ('sparse', 'sparse', 'sparse', 'near', 'perm', 'layered', 'named', 'named+', 'sum', 'union', 'dag', 'zigzag')


@st.composite
def cases(draw, lo=0, hi=9, extra=None, order=None, unlabelled=True):
    """A poset case: order, labels (distinct, none, equal or shared), creation order and style, prior link state, hash salt."""
    if order is None and hi > 12: order = edges(lo, hi, LARGE)
    E = draw(order if order is not None else edges(lo, hi))
    n = len(E)
    c = dict(E=E, labels=list(draw(st.permutations(range(1, n + 1)))), prio=list(draw(st.permutations(range(n)))),
             style=draw(st.integers(0, 5)), pre=draw(st.sampled_from([0, 0, 1, 2])),
             salt=draw(SALT))
    c['lm'] = draw(st.sampled_from([0] * 5 + [1 if unlabelled else 2, 2, 3, 4]))
    if extra:
        for k, s in extra.items():
            c[k] = draw(s(n) if callable(s) and not isinstance(s, st.SearchStrategy) else s)
    return c


def bulk_edges(kind, n, seed):
    """Direct-past masks of an order of many events (indices are a linear extension)."""
    R = random.Random(seed)
    if kind == 'dag':
        c = R.choice([0.5, 1.0, 2.0, 5.0]) / n
        return [sum(1 << j for j in range(i) if R.random() < c) for i in range(n)]
    if kind == 'dense': return [sum(1 << j for j in range(i) if R.random() < 0.3) for i in range(n)]
    if kind == 'points':    # sprinkled into a diamond in 2 to 4 dimensions
        d = R.randint(2, 4)
        X = sorted([R.random() for _ in range(d)] for _ in range(n))
        return [sum(1 << j for j in range(i) if all(a < b for a, b in zip(X[j], X[i]))) for i in range(n)]
    if kind == 'layers':
        w = R.choice([3, 8, 20, 40])
        return [sum(1 << j for j in range((i // w - 1) * w, i // w * w) if R.random() < 3 / w) if i >= w else 0 for i in range(n)]
    if kind == 'tree': return [1 << R.randrange(max(0, i - R.choice([2, 10, 100])), i) if i else 0 for i in range(n)]
    if kind == 'wide':      # a few events that are related to very many
        E = [0] * n
        for i in range(n // 2, n): E[i] = 1 << R.randrange(3)
        for i in range(n - 4, n): E[i] |= R.getrandbits(n // 2)
        return E
    if kind == 'chain': return [(1 << i - 1 if i else 0) if R.random() < 0.97 else 0 for i in range(n)]
    if kind == 'antichain': return [1 << R.randrange(i) if i and R.random() < 0.03 else 0 for i in range(n)]
    if kind == 'parts':     # many components
        k = R.choice([3, 7, 12])
        return [sum(1 << j for j in range(max(i // k * k, i - R.choice([2, 3, 5, 11])), i) if R.random() < 0.4) for i in range(n)]
    if kind == 'ladder':    # a long chain with a few branches of different lengths
        E, top, k = [], [], R.choice([1, 2, 3, 4])
        at = set(R.sample(range(max(8, n - 60)), k))
        while len(E) < n:
            if len(E) not in at and not (at and min(at) < len(E)):
                E.append(sum(1 << j for j in top))
                top = [len(E) - 1]
                continue
            at.discard(min(at))
            new = []
            for _ in range(R.choice([2, 2, 3])):
                last = top
                for _ in range(R.choice([1, 2, 3, R.randint(1, 12)])):
                    if len(E) == n: break
                    E.append(sum(1 << j for j in last))
                    last = [len(E) - 1]
                new += [j for j in last if j not in new]
            top = new
        return E
    if kind == 'total': return [1 << i - 1 if i else 0 for i in range(n)]
    if kind == 'bipyramid': return [0] + [1] * (n - 2) + [(1 << n - 1) - 2]
    raise KeyError(kind)


BULK = ('dag', 'dag', 'points', 'points', 'layers', 'layers', 'tree', 'wide', 'chain', 'antichain', 'parts', 'dense')
HUNDREDS = ('total', 'total', 'bipyramid', 'wide', 'antichain', 'points', 'layers')


@st.composite
def bulk(draw, lo=50, hi=130, extra=None, kinds=BULK, unlabelled=True):
    """The same for many events; all but the extras comes from a seed."""
    n, seed, kind = draw(st.integers(lo, hi)), draw(st.integers(0, 2**32 - 1)), draw(st.sampled_from(kinds))
    R = random.Random(seed + 1)
    c = dict(E=bulk_edges(kind, n, seed), labels=R.sample(range(1, n + 1), n), prio=R.sample(range(n), n), style=R.randint(0, 5), pre=R.choice([0, 0, 1, 2]),
             salt=draw(SALT), lm=R.choice([0] * 5 + [1 if unlabelled else 2, 2, 3, 4]))
    for k, s in (extra or {}).items():
        if s is subset: c[k] = R.getrandbits(n) & [-1, -1, R.getrandbits(n), R.getrandbits(n) & R.getrandbits(n)][R.randrange(4)] & ((1 << n) - 1)
        elif s is permuted: c[k] = R.sample(range(n), n)
        else: c[k] = draw(s(n) if callable(s) and not isinstance(s, st.SearchStrategy) else s)
    return c


def permuted(n):
    return st.permutations(range(n)).map(list)


def subset(n):
    """mask of a subset of n events, biased to contain something"""
    return st.integers(0, max(0, (1 << n) - 1))


def index(n):
    return st.integers(0, max(0, n - 1))


def linext(m, prio, rev=False):
    """linear extension of the model following the priorities"""
    left = set(range(m.n))
    out = []
    pr = {e: k for k, e in enumerate(prio)}
    done = 0
    while left:
        ready = [i for i in left if not (m.F[i] if rev else m.P[i]) & ~done]
        i = min(ready, key=lambda e: pr[e])
        out.append(i)
        left.discard(i)
        done |= 1 << i
    return out


class Built:
    def __init__(self, m, ev, C):
        self.m, self.ev, self.C = m, ev, C
        self.idx = {id(e): i for i, e in enumerate(ev)}
        self.n = m.n

    def S(self, mask):
        return {self.ev[i] for i in bits(mask)}

    def L(self, mask):
        return [self.ev[i] for i in bits(mask)]

    def ix(self, e):
        try:
            return self.idx[id(e)]
        except KeyError:
            raise Violation('an event that is not part of the causet was returned: %r' % (e,))

    def mask(self, s, what='set'):
        """mask of a returned collection; no duplicates, known events only"""
        r = 0
        for e in s:
            b = 1 << self.ix(e)
            ensure(not r & b, what, 'contains an event twice')
            r |= b
        return r

    def rep(self, mask):
        return sorted(bits(mask))

    def eqset(self, s, mask, what):
        ensure(isinstance(s, (set, frozenset)), what, 'is no set but', type(s).__name__)
        g = self.mask(s, what)
        if g != mask:
            raise Violation('%s: got %s, expected %s' % (what, self.rep(g), self.rep(mask)))


# the causet of the last build, and one that is to be used instead of a new one (pbt/evolve.py)
LAST = GIVEN = None


LABELS = ['', 0, 'a b', None, 1.5, '0', (1, 2), -1, 'x']


def labels_of(case):
    L, lm = case['labels'], case.get('lm', 0)
    return L if lm == 0 else [None if lm == 1 else 7 if lm == 2 else k % 3 if lm == 3 else str(k) if lm == 4 else k - 1 if lm == 5 else -k if lm == 6 else LABELS[k % 9] for k in L]


def make_events(m, case, labels=None):
    n = m.n
    if labels is None: labels = labels_of(case)
    style = case.get('style', 0)
    ev = [None] * n
    if style == 5:
        for i in linext(m, case['prio'], rev=True):
            ev[i] = CausetEvent(future={ev[j] for j in bits(m.F[i])}, label=labels[i])
    else:
        for i in linext(m, case['prio']):
            if style in (0, 3): p = m.P[i]
            elif style == 1: p = m.LP[i]
            elif style == 2: p = m.LP[i] | (m.P[i] & (case.get('salt', 0) * 0x2545F491))
            else: p = m.P[i]
            past = [ev[j] for j in bits(p)]
            ev[i] = CausetEvent(past=past if style == 3 else set(past), label=labels[i])
    return ev


def relation_ok(m, ev):
    """Does the library's relation agree with the model in both stored views?"""
    idx = {id(e): i for i, e in enumerate(ev)}
    for i, e in enumerate(ev):
        p = f = 0
        for x in e.Past:
            if id(x) not in idx: return False
            p |= 1 << idx[id(x)]
        for x in e.Future:
            if id(x) not in idx: return False
            f |= 1 << idx[id(x)]
        if p != m.P[i] or f != m.F[i]: return False
    return True


def build(case, check=True, cls=None, labels=None):
    """Build the causet of a case; Skip if the library did not build the order that was asked for."""
    from causets.causet import Causet
    global LAST
    if GIVEN is not None:
        for e, l in zip(GIVEN.ev, labels_of(case) if labels is None else labels): e.Label = l
        return GIVEN
    m = Poset.closed(case['E'])
    try:
        ev = make_events(m, case, labels)
        C = (cls or Causet)(set(ev))
        ok = relation_ok(m, ev) and C.Card == m.n and all(e in C for e in ev)
    except Skip:
        raise
    except Exception:
        ok = False
    if not ok: raise Skip()
    pre = case.get('pre', 0)
    if pre == 1:
        C.link()
    elif pre == 2:
        for i in bits(case.get('salt', 0) * 2654435761 & m.all): ev[i].link()
    LAST = Built(m, ev, C)
    return LAST


def links_ok(b):
    """Precondition of queries that walk along links (C02 decides the links themselves)."""
    for i, e in enumerate(b.ev):
        if b.mask(e.LinkPast) != b.m.LP[i] or b.mask(e.LinkFuture) != b.m.LF[i]: return False
    return True
