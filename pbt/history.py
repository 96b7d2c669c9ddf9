"""Histories of order changes (and link operations) interpreted on the library and on a reference model."""
import numpy as np
from hypothesis import strategies as st
from pbt import env
from pbt.core import Violation, ensure, eq
from pbt.poset import Poset, bits, popcount, Built, SALT

CausetEvent = env.CausetEvent
MAXN = 11


# how past and future of a new event are given: sets or lists, empty ones, other iterables
FORM = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 15))


def op_strategy(linkops, top=11):
    i = st.integers(0, top)
    mask = st.integers(0, (2 << top) - 1)
    few = st.lists(i, max_size=3)
    new = st.tuples(st.just('new'), few, st.lists(i, max_size=2), FORM)
    newp = st.tuples(st.just('new'), st.lists(i, min_size=1, max_size=3), st.just([]), FORM)
    newb = st.tuples(st.just('new'), st.lists(i, min_size=1, max_size=2), st.lists(i, min_size=1, max_size=2),
                     FORM)
    part = st.tuples(st.just('mergepart'), mask, mask, st.integers(0, 15))
    merge = st.tuples(st.just('merge'), mask, mask, st.integers(0, 15))
    dis = st.tuples(st.just('disjoin'), i)
    fail = st.tuples(st.just('fail'), i, i, st.integers(0, 3))
    ops = [newp, newp, new, newb, merge, part, dis, fail] if not linkops else [newp, newp, new, newb, newb, merge, part, dis, fail]
    if linkops:
        ops += [st.tuples(st.just('link'), i), st.tuples(st.just('unlink'), i),
                st.tuples(st.just('linkmany'), mask),
                st.tuples(st.just('clink'), mask), st.tuples(st.just('clink'), st.just(0)),
                st.tuples(st.just('cunlink'), mask),
                st.tuples(st.just('addunlink'), mask, st.booleans()),
                st.tuples(st.just('query'), i, i, st.integers(0, 9)),
                st.tuples(st.just('query'), i, i, st.integers(0, 9)),
                st.tuples(st.just('disjoin'), i)]
    return st.one_of(ops)


@st.composite
def histories(draw, linkops=False, hi=24, lo=1, maxn=MAXN):
    E = []
    start = draw(st.integers(0, 3))
    if start:   # begin with some order so that short histories are interesting
        from pbt.poset import edges
        E = draw(edges(2, 6) if maxn == MAXN else edges(4, maxn // 2))
    lo = draw(st.sampled_from([lo, lo, 4, 8])) if lo == 1 else lo
    ops = draw(st.lists(op_strategy(linkops, maxn), min_size=lo, max_size=hi))
    return dict(maxn=maxn, E=E, ops=[list(o) for o in ops], lm=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), salt=draw(SALT), pre=draw(st.integers(0, 2)) if linkops else 0)


class Sim:
    def __init__(self, case):
        from causets.causet import Causet
        self.Causet = Causet
        self.P = []
        self.ev = []
        self.maxn = case.get('maxn', MAXN)
        self.stats = dict(new=0, both=0, merge=0, part=0, disjoin=0, links=0)
        m = Poset.closed(case['E'])
        lm = case.get('lm', 0)
        self.label = lambda i: [i, None, 'e', i % 3][lm]
        for i in range(m.n):
            self.ev.append(CausetEvent(past={self.ev[j] for j in bits(m.P[i])}, label=self.label(i)))
            self.P.append(m.P[i])
        if case.get('pre') == 1 and self.ev:
            Causet(set(self.ev)).link()
        elif case.get('pre') == 2:
            for i, e in enumerate(self.ev):
                if i % 2: e.link()
        self.q = []

    @property
    def n(self):
        return len(self.ev)

    def F(self, i):
        return sum(1 << k for k in range(self.n) if self.P[k] >> i & 1)

    def model(self):
        return Poset(self.P)

    def built(self):
        return Built(self.model(), self.ev, None)

    def run(self, ops):
        for op in ops:
            getattr(self, 'op_' + op[0])(*op[1:])

    def op_new(self, past, future, form):
        n = self.n
        if n >= self.maxn: return
        P = F = 0
        pi, fi = [], []
        for k in past:
            if n:
                k %= n
                pi.append(k)
                P |= self.P[k] | 1 << k
        for k in future:
            if n:
                k %= n
                up = self.F(k) | 1 << k
                if not up & P:
                    fi.append(k)
                    F |= up
        kw = {}
        ps, fs = [self.ev[k] for k in pi], [self.ev[k] for k in fi]
        if form & 1: ps, fs = set(ps), set(fs)
        given = ps, fs
        if form & 12: ps, fs = [iter, tuple, lambda x: dict.fromkeys(x).keys()][(form >> 2) - 1](ps), [iter, tuple, frozenset][(form >> 2) - 1](fs)
        if given[0] or form & 2: kw['past'] = ps
        if given[1] or form & 2: kw['future'] = fs
        x = CausetEvent(label=self.label(n), **kw)
        for a in given: a.clear()     # they belong to the caller
        for f in bits(F): self.P[f] |= P | 1 << n
        self.P.append(P)
        self.ev.append(x)
        self.stats['new'] += 1
        self.stats['both'] += bool(P and F)

    def op_fail(self, i, j, form):
        """a request that is rejected (an event with invalid coordinates or position)"""
        if not self.n: return
        i %= self.n
        kw = dict(past={self.ev[i]})
        j %= self.n
        if j != i and not self.P[i] >> j & 1: kw['future'] = [self.ev[j]]
        kw.update([dict(position=[0.0, 1.0, 2.0]), dict(position=[0.5]), dict(coordinates=7), dict(position=np.zeros(5))][form])
        try: CausetEvent(label=-1, **kw)
        except (ValueError, TypeError): pass
        else: raise Violation('an event with %r was created' % {k: v for k, v in kw.items() if k not in ('past', 'future')})

    def op_merge(self, a, b, form):
        if not self.n: return
        comps = self.model().components((1 << self.n) - 1)
        A = B = 0
        for k, c in enumerate(comps):
            if a >> k & 1: A |= c
            elif b >> k & 1: B |= c
        self.merge(A, B, form)

    def op_mergepart(self, a, b, form):
        """merging arbitrary disjoint sets (no event of the second one at or before an event of the first one)"""
        full = (1 << self.n) - 1
        A, B = a & full, b & full
        for i in bits(A): B &= ~(self.P[i] | 1 << i)
        for i in bits(A):   # the same for those that get related by transitivity
            if self.P[i] & B: A &= ~(1 << i)
        self.merge(A, B, form)
        self.stats['part'] += bool(A and B)

    def operand(self, s):
        """a causet of exactly these events"""
        C = self.Causet(s)
        C.discard(C - s)
        return C

    def merge(self, A, B, form):
        disjoint = form in (7, 15)
        sA, sB = {self.ev[i] for i in bits(A)}, {self.ev[i] for i in bits(B)}
        aA = self.operand(sA) if form & 1 else list(sA) if form & 4 else sA
        aB = self.operand(sB) if form & 2 else list(sB) if form & 4 else sB
        if form & 8:
            if form & 1: aA = iter(aA)
            if form & 2: aB = (e for e in aB)
        C = self.Causet.merge(aA, aB, disjoint=True) if disjoint else self.Causet.merge(aA, aB)
        got = Built(self.model(), self.ev, None).mask(C, 'merged causet')
        if not disjoint:
            down, up = A, B
            for i in bits(A): down |= self.P[i]
            for i in bits(B): up |= self.F(i)
            for i in bits(up): self.P[i] |= down
            self.stats['merge'] += bool(A and B)
        want = 0   # the causet consists of whole components
        for c in self.model().components((1 << self.n) - 1):
            if c & (A | B): want |= c
        eq(sorted(bits(got)), sorted(bits(want)), 'events of the merged causet')

    def op_disjoin(self, i):
        if not self.n: return
        i %= self.n
        self.ev[i].disjoin()
        had = bool(self.P[i] and self.F(i))
        self.P[i] = 0
        for k in range(self.n): self.P[k] &= ~(1 << i)
        self.stats['disjoin'] += had

    # ---- link operations
    def op_link(self, i):
        if self.n:
            self.ev[i % self.n].link()
            self.linked([self.ev[i % self.n]], True, 'link()')
            self.stats['links'] += 1

    def linked(self, events, want, what):
        for e in events: eq(bool(e.hasBeenLinked()), want, 'hasBeenLinked directly after ' + what)

    def op_linkmany(self, mask):
        for i in range(self.n):
            if mask >> i & 1: self.ev[i].link()
        self.stats['links'] += 1

    def op_unlink(self, i):
        if self.n:
            self.ev[i % self.n].unlink()
            self.linked([self.ev[i % self.n]], False, 'unlink()')

    def sub(self, drop):
        C = self.Causet(set(self.ev))
        d = {self.ev[i] for i in range(self.n) if drop >> i & 1}
        if d: C.discard(d)
        return C

    def op_clink(self, drop):
        C = self.sub(drop)
        C.link()
        self.linked(C, True, 'Causet.link()')
        self.stats['links'] += 1

    def op_cunlink(self, drop):
        C = self.sub(drop)
        C.unlink()
        self.linked(C, False, 'Causet.unlink()')

    def op_addunlink(self, mask, add):
        C = self.sub(mask)
        d = {self.ev[i] for i in range(self.n) if mask >> i & 1}
        if add: C.add(d, unlink=True)
        else:
            C.add(d)
            C.discard(d, unlink=True)
        self.linked(C, False, 'add or discard with unlink=True')

    def op_query(self, i, j, kind):
        """Queries compare with the model at once."""
        if not self.n: return
        i %= self.n
        j %= self.n
        b = self.built()
        m = b.m
        a, c = self.ev[i], self.ev[j]
        self.stats['links'] += 1
        if kind == 0: b.eqset(a.LinkPast, m.LP[i], 'LinkPast(%d)' % i)
        elif kind == 1: b.eqset(a.LinkFuture, m.LF[i], 'LinkFuture(%d)' % i)
        elif kind == 2: b.eqset(a.LinkCone, m.LP[i] | m.LF[i], 'LinkCone(%d)' % i)
        elif kind == 3: eq(a.isPastLink(c), bool(m.LP[i] >> j & 1), 'isPastLink(%d, %d)' % (i, j))
        elif kind == 4: eq(a.isFutureLink(c), bool(m.LF[i] >> j & 1), 'isFutureLink(%d, %d)' % (i, j))
        elif kind == 5: eq(a.LinkPastCard, popcount(m.LP[i]), 'LinkPastCard(%d)' % i)
        elif kind == 6: eq(a.LinkFutureCard, popcount(m.LF[i]), 'LinkFutureCard(%d)' % i)
        elif kind == 7: eq(a.isLinkedTo(c), bool((m.LP[i] | m.LF[i]) >> j & 1), 'isLinkedTo(%d, %d)' % (i, j))
        elif kind == 8: eq(a.LinkConeCard, popcount(m.LP[i] | m.LF[i]), 'LinkConeCard(%d)' % i)
        elif kind == 9 and m.lt(i, j):
            eq(CausetEvent.isLink(a, c), bool(m.LF[i] >> j & 1), 'isLink(%d, %d)' % (i, j))


def check_relation(b):
    """All public views of the relation agree with the model."""
    m, ev = b.m, b.ev
    allset = set(ev)
    for i, a in enumerate(ev):
        b.eqset(a.Past, m.P[i], 'Past(%d)' % i)
        b.eqset(a.Future, m.F[i], 'Future(%d)' % i)
        b.eqset(a.Cone, m.cone(i), 'Cone(%d)' % i)
        b.eqset(a.PresentOrPast, m.P[i] | 1 << i, 'PresentOrPast(%d)' % i)
        b.eqset(a.PresentOrFuture, m.F[i] | 1 << i, 'PresentOrFuture(%d)' % i)
        b.eqset(a.Spacelike(allset), m.all & ~m.cone(i), 'Spacelike(%d)' % i)
        eq(a.PastCard, popcount(m.P[i]), 'PastCard(%d)' % i)
        eq(a.FutureCard, popcount(m.F[i]), 'FutureCard(%d)' % i)
        eq(a.ConeCard, popcount(m.cone(i)), 'ConeCard(%d)' % i)
        eq(a.SpacelikeCard(allset), m.n - popcount(m.cone(i)), 'SpacelikeCard(%d)' % i)
        for j, c in enumerate(ev):
            lt, gt = m.lt(i, j), m.lt(j, i)
            w = '(%d, %d)' % (i, j)
            eq(a < c, lt, '<' + w)
            eq(a > c, gt, '>' + w)
            eq(a <= c, lt or i == j, '<=' + w)
            eq(a >= c, gt or i == j, '>=' + w)
            eq(a == c, i == j, '==' + w)
            eq(a != c, i != j, '!=' + w)
            eq(a.isCausalTo(c), lt or gt or i == j, 'isCausalTo' + w)
            eq(a.isSpacelikeTo(c), not (lt or gt or i == j), 'isSpacelikeTo' + w)


def check_links(b, C=None):
    m, ev = b.m, b.ev
    for i, a in enumerate(ev):
        b.eqset(a.LinkPast, m.LP[i], 'LinkPast(%d)' % i)
        b.eqset(a.LinkFuture, m.LF[i], 'LinkFuture(%d)' % i)
        b.eqset(a.LinkCone, m.LP[i] | m.LF[i], 'LinkCone(%d)' % i)
        eq(a.LinkPastCard, popcount(m.LP[i]), 'LinkPastCard(%d)' % i)
        eq(a.LinkFutureCard, popcount(m.LF[i]), 'LinkFutureCard(%d)' % i)
        eq(a.LinkConeCard, popcount(m.LP[i] | m.LF[i]), 'LinkConeCard(%d)' % i)
        for j, c in enumerate(ev):
            w = '(%d, %d)' % (i, j)
            lp, lf = bool(m.LP[i] >> j & 1), bool(m.LF[i] >> j & 1)
            eq(a.isPastLink(c), lp, 'isPastLink' + w)
            eq(a.isFutureLink(c), lf, 'isFutureLink' + w)
            eq(a.isLinkedTo(c), lp or lf, 'isLinkedTo' + w)
            if m.lt(i, j): eq(CausetEvent.isLink(a, c), lf, 'isLink' + w)
