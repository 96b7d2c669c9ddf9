"""Checks of static orders repeated on the same events and causet after changes of the order (nothing may be remembered)."""
from hypothesis import strategies as st
from pbt import poset
from pbt.core import Skip, Violation
from pbt.poset import bits, Built, relation_ok

MOVE = st.one_of(
    st.tuples(st.just('merge'), st.integers(0, 30), st.integers(0, 2**20 - 1), st.integers(0, 2**20 - 1)),
    st.tuples(st.just('merge'), st.integers(0, 30), st.integers(0, 19).map(lambda i: 1 << i), st.integers(0, 19).map(lambda i: 1 << i)),
    st.tuples(st.just('disjoin'), st.integers(0, 30)),
    st.tuples(st.just('readd'), st.integers(1, 2**20 - 1)),
    st.tuples(st.just('relabel'), st.integers(1, 30))).map(list)


def moved(cases):
    """cases with one to three groups of changes"""
    return st.tuples(cases, st.lists(st.lists(MOVE, min_size=1, max_size=3), min_size=1, max_size=3)).map(lambda t: dict(t[0], moves=t[1]))


def change(b, case, move):
    from causets.causet import Causet
    n, P, op = b.n, b.m.P, move[0]
    if not n: raise Skip()
    if op == 'merge':     # the events of A precede those of B, the indices stay a linear extension
        k = move[1] % n
        A, B = move[2] & (2 << k) - 1 & b.m.all, move[3] & ~((2 << k) - 1) & b.m.all
        if not A: A = 1 << k
        if not B: return case
        sA, sB = b.S(A), b.S(B)
        Causet.merge(sA, sB)
        down, up = A, B
        for i in bits(A): down |= P[i]
        for i in bits(B): up |= b.m.F[i]
        P = [p | down if up >> i & 1 else p for i, p in enumerate(P)]
    elif op == 'disjoin':
        k = move[1] % n
        b.ev[k].disjoin()
        P = [0 if i == k else p & ~(1 << k) for i, p in enumerate(P)]
    elif op == 'readd':
        S = b.S(move[1] & b.m.all)
        b.C.discard(S)
        b.C.add(S)
    else:
        k = move[1] % n
        case = dict(case, labels=case['labels'][k:] + case['labels'][:k])
    b.m = poset.Poset(P)
    return dict(case, E=list(P))


def evolved(check):
    def run(case, ctx):
        poset.LAST = None
        try:
            nontrivial = check(dict(case), ctx)
            b = poset.LAST
            if b is None: raise Skip()
            for group in case['moves']:
                for move in group:
                    try:
                        case = change(b, case, move)
                    except Skip: raise
                    except Exception: raise Skip()     # decided by the checks of changes
                if b.C.Card != b.n or not all(e in b.C for e in b.ev) or not relation_ok(b.m, b.ev): raise Skip()
                poset.GIVEN = b = Built(b.m, b.ev, b.C)
                try:
                    nontrivial = check(dict(case), ctx) or nontrivial
                except Violation as v:
                    raise Violation('after changes of the order: %s' % v)
                finally: poset.GIVEN = None
            return nontrivial
        finally:
            poset.GIVEN = poset.LAST = None
    return run
