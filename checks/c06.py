"""C06: a causet behaves as the mathematical set of its events."""
import itertools, random
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Violation, ensure, eq, longer
from pbt.poset import Poset, Built, bits, popcount, edges, make_events, relation_ok, SALT, cases, bulk
from pbt.core import Skip
from pbt.history import check_relation

ASSUMPTIONS = ['all events of one history belong to one order that is not changed during the history']
M = st.integers(0, 4095)
OPS = st.one_of(
    st.tuples(st.just('add'), M, st.integers(0, 5), st.booleans()),
    st.tuples(st.just('discard'), M, st.integers(0, 5), st.booleans()),
    st.tuples(st.just('ops'), M, st.integers(0, 5)), st.tuples(st.just('alias'), M, M),
    st.tuples(st.just('find'), M),
    st.tuples(st.just('new'), M),
    st.tuples(st.just('swap')), st.tuples(st.just('label'), M, st.integers(0, 7)),
    st.tuples(st.just('self'), st.booleans()),
    st.tuples(st.just('pair')))


def strat():
    return st.fixed_dictionaries(dict(E=edges(0, 9), labels=st.lists(st.integers(1, 6), min_size=12, max_size=12), prio=st.permutations(range(12)).map(list),
                                      style=st.integers(0, 5), salt=SALT, seed=M,
                                      ops=longer(OPS, 14).map(lambda l: [list(o) for o in l])))


class Set:
    """two causets over one order: models are masks"""

    def __init__(self, case):
        from causets.causet import Causet
        self.Causet = Causet
        self.m = Poset.closed(case['E'])
        n = self.m.n
        self.wide = 'wide' in case
        if self.wide: self.lab = [1 + k % 6 for k in case['labels']]
        else:
            self.lab = case['labels'][:n] + [1] * (n - 12)
            case = dict(case, prio=case['prio'] + list(range(12, n)))
        try:
            ev = make_events(self.m, case, self.lab)
        except Exception:
            raise Skip()
        if not relation_ok(self.m, ev): raise Skip()
        self.b = Built(self.m, ev, None)
        self.kind = case['salt'] % 8
        for e, l in zip(ev, self.lab): e.Label = self.val(l)
        self.stats = 0
        self.C, self.mask = self.make(case['seed'])
        self.D, self.dmask = self.make(case['seed'] >> 3)

    def val(self, l):
        """labels of different types"""
        return [l, l, 'e%d' % l, [l], (l, 'x'), {'l': l}, l + 0.5, None if l == 3 else l][self.kind]

    def ask(self, l, x):
        """an equal label, of the same or another type"""
        v = self.val(l)
        if isinstance(v, str): return np.str_(v) if x & 1 else v
        return [lambda u: u, np.int64, float, Fraction][x % 4](v) if isinstance(v, int) else v

    def expand(self, x):
        """masks of more than 12 events"""
        if not self.wide or x in (0, 4095): return x if x < 4095 else self.m.all
        r = random.Random(x)
        return r.getrandbits(self.m.n) & [-1, r.getrandbits(self.m.n), (1 << r.randrange(self.m.n)) - 1][x % 3]

    def make(self, seed):
        seed = self.expand(seed) & self.m.all
        arg = self.b.S(seed)
        C = self.Causet(arg)
        eq(self.b.mask(arg), seed, 'the set given to the constructor')
        want = sum(c for c in self.m.components(self.m.all) if c & seed)
        return C, want

    def form(self, mask, k):
        if k == 0: return self.b.S(mask)
        if k == 1: return self.b.L(mask)
        if k == 2: return tuple(self.b.L(mask))
        if k == 3: return frozenset(self.b.S(mask))
        if k == 4: return (e for e in self.b.L(mask))     # can be iterated once only
        C = self.Causet(set())
        C.add(self.b.S(mask))
        return C

    def run(self, ops):
        self.observe()
        for o in ops:
            getattr(self, 'op_' + o[0])(*o[1:])
            self.observe()

    def observe(self):
        for C, mask in ((self.C, self.mask), (self.D, self.dmask)):
            b = self.b
            g = b.mask(list(C), 'iteration')
            eq(b.rep(g), b.rep(mask), 'events of the causet')
            eq(C.Card, popcount(mask), 'Card')
            eq(self.Causet.len(C), popcount(mask), 'Causet.len')
            for i in range(b.n): eq(b.ev[i] in C, bool(mask >> i & 1), 'event %d in the causet' % i)

    def op_add(self, x, f, unlink):
        x = self.expand(x) & self.m.all
        a = self.form(x, f)
        self.C.add(a, unlink=True) if unlink else self.C.add(a)
        if f != 4: eq(self.b.rep(self.b.mask(list(a))), self.b.rep(x), 'the added set')
        self.stats += bool(x & ~self.mask)
        self.mask |= x

    def op_discard(self, x, f, unlink):
        x = self.expand(x) & self.m.all
        a = self.form(x, f)
        self.C.discard(a, unlink=True) if unlink else self.C.discard(a)
        if f != 4: eq(self.b.rep(self.b.mask(list(a))), self.b.rep(x), 'the discarded set')
        self.stats += bool(x & self.mask)
        self.mask &= ~x

    def op_new(self, x):
        self.C, self.mask = self.make(x)

    def op_swap(self):
        self.C, self.D = self.D, self.C
        self.mask, self.dmask = self.dmask, self.mask

    def op_label(self, x, l):
        for i in bits(self.expand(x) & self.m.all):
            self.b.ev[i].Label = self.val(l)
            self.lab[i] = l

    def op_self(self, add):
        if add: self.C.add(self.C)
        else:
            self.C.discard(self.C)
            self.mask = 0

    def op_pair(self):
        self.algebra(lambda: self.D, self.dmask, False)

    def op_ops(self, x, f):
        x = self.expand(x) & self.m.all
        self.algebra(lambda: self.form(x, f), x, f == 4)

    def op_alias(self, x, y):
        x, y = self.expand(x), self.expand(y)
        """sets given to or taken from a causet do not stay connected with it"""
        arg = self.b.S(self.mask)
        C = self.Causet(arg)
        D = self.Causet()
        D.add(arg)
        arg ^= self.b.S(x & self.m.all)
        D.discard(self.b.S(y & self.m.all))
        D.add(self.b.S(x & y & self.m.all))
        eq(self.b.rep(self.b.mask(list(C))), self.b.rep(sum(c for c in self.m.components(self.m.all) if c & self.mask)), 'a causet after its argument was changed')
        eq(self.b.rep(self.b.mask(list(D))), self.b.rep(self.mask & ~y | x & y & self.m.all), 'a causet after an added set was changed')
        eq(list(self.Causet()), [], 'a new empty causet')

    def algebra(self, make, a, oneshot):
        b, C, c = self.b, self.C, self.mask
        w = 'causet %s and set %s: ' % (b.rep(c), b.rep(a))
        keep = None if oneshot else make()
        A = lambda: make() if oneshot else keep
        b.eqset(C | A(), c | a, w + 'C | A')
        b.eqset(C & A(), c & a, w + 'C & A')
        b.eqset(C - A(), c & ~a, w + 'C - A')
        b.eqset(C ^ A(), c ^ a, w + 'C ^ A')
        b.eqset(A() | C, c | a, w + 'A | C')
        b.eqset(A() & C, c & a, w + 'A & C')
        b.eqset(A() - C, a & ~c, w + 'A - C')
        b.eqset(A() ^ C, c ^ a, w + 'A ^ C')
        b.eqset(C.union(A()), c | a, w + 'union')
        b.eqset(C.intersection(A()), c & a, w + 'intersection')
        b.eqset(C.difference(A()), c & ~a, w + 'difference')
        b.eqset(C.symmetric_difference(A()), c ^ a, w + 'symmetric_difference')
        eq(b.rep(b.mask(list(A()))), b.rep(a), 'operand')
        # results are new sets
        for r in (C | set(), C - set(), C.union(set()), C.difference(set()), C & C, C | C, C ^ set(), C.intersection(C), C.union(C),
                  C & b.S(c), C.symmetric_difference(set()), set() | C, set() ^ C, C | b.S(c)):
            b.eqset(r, c, w + 'an operation that keeps all')
            r.clear()
        for r in (C - C, C ^ C, C.difference(C), C.symmetric_difference(C), C & set(), set() - C):
            b.eqset(r, 0, w + 'an operation that keeps nothing')
            r |= b.S(b.m.all)

    def op_find(self, x):
        b, C = self.b, self.C
        for l in [x % 8] if x % 3 else [x % 8, *range(0, 8), x // 8 % 8]:
            have = sum(1 << i for i in bits(self.mask) if self.lab[i] == l)
            try:
                e = C.find(self.ask(l, x + l))
            except ValueError:
                ensure(not have, 'find(%d) found nothing but there is' % l, b.rep(have))
                continue
            ensure(have >> b.ix(e) & 1, 'find(%d) returned the event' % l, b.ix(e))
        for l in ('1', '2', None, 2.25, '', [], [9], (1,), {}):     # labels that are not there
            if l is None and self.kind == 7: continue
            try: ensure(False, 'find(%r) returned an event labelled' % (l,), C.find(l).Label)
            except ValueError: pass
        b.eqset(C.findAll('1', -1, '3'), 0, 'findAll of text labels')
        eq(list(C.findAny('2', '')), [], 'findAny of text labels')
        ls = [l for l in range(8) if x >> l & 1]
        have = sum(1 << i for i in bits(self.mask) if self.lab[i] in ls)
        b.eqset(C.findAll(*(self.ask(l, x // 8 + l) for l in ls)), have, 'findAll%r' % (ls,))
        it = C.findAny(*map(self.val, ls))
        ensure(iter(it) is iter(it), 'findAny returns no iterator')
        eq(b.rep(b.mask(list(it), 'findAny')), b.rep(have), 'findAny%r' % (ls,))
        other = [l for l in range(8) if l not in ls]     # two searches in turn
        its, got = [C.findAny(*map(self.val, ls)), C.findAny(*map(self.val, other))], [[], []]
        for k in range(2 * popcount(self.mask) + 4):
            for e in itertools.islice(its[k % 2], 1): got[k % 2].append(e)
        eq(b.rep(b.mask(got[0], 'findAny')), b.rep(have), 'findAny%r in turn with another search' % (ls,))
        eq(b.rep(b.mask(got[1], 'findAny')), b.rep(sum(1 << i for i in bits(self.mask) if self.lab[i] in other)), 'findAny%r in turn with another search' % (other,))


def history(case, ctx):
    s = Set(case)
    s.run(case['ops'])
    check_relation(s.b)
    ctx.count('changes', s.stats)
    return s.stats > 0 and s.mask and s.m.nrel() > 0


FACETS = [
    Facet('history', strat(), history, 10000,
          rule='history of additions, discards, set operations and look-ups over an order of up to 9 events; non-trivial: the set of '
               'events was changed, is not empty and the order has relations'),
    Facet('history many', bulk(30, 120, dict(seed=M, wide=st.just(True), ops=st.lists(OPS, min_size=2, max_size=8).map(lambda l: [list(o) for o in l]))), history, 320,
          rule='the same for orders of 30 to 120 events', limit=60.0),
]
