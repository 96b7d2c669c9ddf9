"""C24: harmonic numbers."""
import bisect, functools, math
from decimal import Decimal, getcontext
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.poset import SALT

ASSUMPTIONS = ['the threshold of approximation is at least 1',
               'beyond n = 2500 the reference is the Euler-Maclaurin expansion with four terms in 40 digits']
getcontext().prec = 40
GAMMA = Decimal('0.5772156649015328606065120900824024310421593')
_H = [Fraction(0)]


def exact(n):
    while len(_H) <= n: _H.append(_H[-1] + Fraction(1, len(_H)))
    return _H[n]


def ref(n):
    if n <= 2500: return float(exact(n))
    x = Decimal(n)
    return float(x.ln() + GAMMA + 1 / (2 * x) - 1 / (12 * x**2) + 1 / (120 * x**4) - 1 / (252 * x**6))


def tol(n, approx):
    t = 2e-15 * (n ** 0.5 if n < approx else 1) * max(1.0, math.log(n + 1)) * 4 + 1e-15
    if n >= approx: t += 1.02 / (252.0 * min(n, 10**40)**6)
    return t


def fractions(case, ctx):
    from causets.calculations import HarmonicNumberFraction, HarmonicNumberFractions
    n = case['n']
    t = TYPES[case['type']]
    x = HarmonicNumberFraction(t(n))
    ensure(isinstance(x, Fraction), 'HarmonicNumberFraction is no fraction')
    eq(x, exact(n), 'HarmonicNumberFraction(%d)' % n)
    L = HarmonicNumberFractions(t(n))
    eq(len(L), n + 1, 'number of HarmonicNumberFractions(%d)' % n)
    for k, x in enumerate(L):
        ensure(isinstance(x, Fraction) and x == exact(k), 'entry', k, 'of HarmonicNumberFractions(%d)' % n, 'is', str(x))
    want = list(L)
    L[:] = [Fraction(7)] * (n + 1)     # the list belongs to the caller
    eq(HarmonicNumberFractions(t(n)), want, 'HarmonicNumberFractions(%d) after an earlier list was changed' % n)
    eq(HarmonicNumberFraction(t(n)), exact(n), 'HarmonicNumberFraction(%d) after an earlier list was changed' % n)
    return n > 1


def int32(n):
    return np.int32(n) if n < 2**31 else np.int64(n)


TYPES = [int, np.int64, int32]
TYPE = st.sampled_from([0, 0, 1, 1, 2])


def single(case, ctx):
    from causets.calculations import HarmonicNumber
    n, a = case['n'], case['approx']
    if n < a and n > 20000: return False
    k, n = n, TYPES[case['type'] if n < 2**62 else 0](n)
    x = HarmonicNumber(n) if a == 100 and case['deflt'] else HarmonicNumber(n, a) if case['deflt'] else HarmonicNumber(n, approximate=a)
    n = k
    ensure(np.ndim(x) == 0, 'HarmonicNumber(%d, %d) is no number' % (n, a))
    ensure(abs(float(x) - ref(n)) <= tol(n, a), 'HarmonicNumber(%d, %d) is' % (n, a), float(x), 'expected', ref(n), 'as', TYPES[case['type']].__name__)
    return n > 1


def vector(case, ctx):
    from causets.calculations import HarmonicNumber, HarmonicNumbers
    n, a = case['n'], case['approx']
    k, n = n, TYPES[case['type']](n)
    H = HarmonicNumbers(n) if a == 100 and case['deflt'] else HarmonicNumbers(n, a) if case['deflt'] else HarmonicNumbers(n, approximate=a)
    n = k
    ensure(np.shape(H) == (n + 1,), 'HarmonicNumbers(%d, %d) has the shape' % (n, a), np.shape(H))
    ensure(np.isfinite(H).all(), 'HarmonicNumbers(%d, %d) has an infinite entry' % (n, a))
    eq(float(H[0]), 0.0, 'first entry')
    ensure((np.diff(H) >= 0).all(), 'HarmonicNumbers(%d, %d) decreases' % (n, a))
    ks = set(case['ks']) | {n, n - 1, a - 1, a, a + 1, 1, 2, 99, 100, 101}
    for k in sorted(ks):
        k = k % (n + 1) if k >= 0 else 0
        w = 'entry %d of HarmonicNumbers(%d, %d)' % (k, n, a)
        ensure(abs(float(H[k]) - ref(k)) <= tol(k, a), w, 'is', float(H[k]), 'expected', ref(k))
        if k < 20000 or k >= a:
            s = float(HarmonicNumber(k, a))
            ensure(abs(float(H[k]) - s) <= 1e-12 * max(1.0, s), w, 'is', float(H[k]), 'but the single value is', s)
    want = H.copy()
    try: H[:] = 7.0     # the vector belongs to the caller
    except ValueError: pass
    ensure(np.array_equal(HarmonicNumbers(n, a), want), 'HarmonicNumbers(%d, %d) after an earlier vector was changed' % (n, a))
    if n:
        k = case['ks'][0] % n if case['ks'] else n // 2
        ensure(np.allclose(HarmonicNumbers(k, a), want[:k + 1], rtol=1e-12, atol=0), 'HarmonicNumbers(%d, %d) after HarmonicNumbers(%d, %d)' % (k, a, n, a))
    return n > 1


A = st.one_of(st.just(100), st.integers(1, 12), st.integers(1, 3000))
NS = st.one_of(st.integers(0, 130), st.integers(0, 2500), st.integers(2501, 10**6), st.integers(0, 62).map(lambda k: 2**k),
               st.integers(1, 18).map(lambda k: 10**k), st.integers(1, 18).map(lambda k: 10**k), st.integers(19, 300).map(lambda k: 10**k))
FACETS = [
    Facet('fractions', st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 40), st.integers(0, 300), st.integers(0, 300), st.integers(300, 1200)), type=TYPE, salt=SALT)), fractions, 800, rule='n up to 1200; non-trivial: n > 1',
          explicit=[dict(n=n, type=0, salt=0) for n in (513, 1025, 1500, 2048)]),
    Facet('single', st.fixed_dictionaries(dict(n=NS, approx=A, type=TYPE, deflt=st.booleans(), salt=SALT)), single, 8000,
          rule='n up to 10^300 with any threshold; non-trivial: n > 1', explicit=[dict(n=n, approx=100, type=0, deflt=True, salt=0) for n in range(140)] + [dict(n=2**k, approx=100, type=1, deflt=True, salt=0) for k in range(7, 60)]),
    Facet('vector', st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 300), st.integers(0, 4000), st.integers(60000, 70000)), approx=A, type=TYPE, deflt=st.booleans(),
                                               ks=st.lists(st.integers(0, 10**6), max_size=6), salt=SALT)), vector, 3000,
          rule='vectors with up to 70000 entries and any threshold; non-trivial: n > 1',
          explicit=[dict(n=200000, approx=100, type=1, deflt=True, ks=[], salt=0), dict(n=3000000, approx=100, type=0, deflt=True, ks=[2999999, 2097152, 55109], salt=0)]),
]
