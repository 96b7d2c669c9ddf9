"""C05: saving a causet and reading it back preserves the order."""
import gzip, io, os, pathlib, shutil, tempfile, zlib
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq
from pbt.evolve import evolved, moved
from pbt.poset import Poset, Built, bits, cases, bulk, build, SALT
from pbt.history import check_relation, check_links
from checks.c04 import matrices, warshall

ASSUMPTIONS = ['events are labelled with distinct integers or strings', 'files are written and read in the same process']
SEP = [',', ';', '\t', ' ', '|']


def scratch(f):
    d = tempfile.mkdtemp(prefix='pbt-c05-')
    try:
        return f(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def roundtrip(case, ctx):
    from causets.causet import Causet
    labels = case['labels'] if not case['strings'] else ['e%02d' % k for k in case['labels']]
    b = build(case, labels=labels)
    m = b.m

    def go(d):
        fn = os.path.join(d, ['c.csv', 'c.csv', 'matrix', 'a causet.v1.dat', 'C', 'x.npy', '\u00e9t\u00e9'][zlib.crc32(repr(case).encode()) % 7])
        if case['path']: fn = pathlib.Path(fn)
        over = case.get('over', 0)     # the file exists
        if over == 1: Causet.NewChain(5).saveAsCSV(fn)
        if over == 2: b.C.saveAsCSV(fn)
        if over == 3:
            with open(fn, 'w') as h: h.write('1,0\n' * 3 + 'something else')
        b.C.saveAsCSV(fn)
        rows = [[int(x) for x in l.split(',')] for l in open(fn).read().split('\n') if l.strip()]
        kw = [{}, dict(delimiter=','), dict(isPastMatrix=True), dict(isPastMatrix=True, delimiter=',')][case.get('kw', 0)]
        return rows, Causet.FromTextFile(fn, **kw)
    rows, N = scratch(go)
    srt = [b.ix(e) for e in b.C.sortedByCausality()]
    eq(sorted(srt), list(range(m.n)), 'events sorted by causality')
    want = [[int(m.lt(j, i)) for j in srt] for i in srt]
    eq(rows, want, 'numbers in the file')
    ev = sorted(N, key=lambda e: e.Label)
    eq([e.Label for e in ev], list(range(1, m.n + 1)), 'labels of the loaded causet')
    P = [sum(1 << k for k, j in enumerate(srt) if m.lt(j, i)) for i in srt]
    r = Built(Poset(P), ev, N)
    check_relation(r)
    check_links(r)
    check_relation(b)
    return m.nrel() > 0


def loading(case, ctx):
    from causets.causet import Causet
    M, n = case['M'], case['n']
    if not M or not n: return False
    R = warshall(M, n)
    sep = SEP[case['sep']]
    A = [list(r) for r in zip(*M)] if case['future'] else M
    text = '\n'.join(sep.join(str(x) for x in r) for r in A) + '\n' * case['eol']
    mark = '%' if case['src'] & 1 else '#'
    head = 0
    if case['head'] < 3: text = (mark + ' a comment\n') * case['head'] + text
    else:       # lines of a header
        head = case['head'] - 2
        text = 'x, y\n' * head + text
    kw = {} if case['sep'] == 0 and case['deflt'] else dict(delimiter=sep)
    if case['future'] or not case['deflt']: kw['isPastMatrix'] = not case['future']
    if mark != '#': kw['comments'] = mark
    if head: kw['skip_header'] = head
    what = 'FromTextFile(%s) of %r' % (', '.join('%s=%r' % k for k in kw.items()), text)
    src = case['src'] >> 1

    def go(d):
        fn = os.path.join(d, 'm.txt')
        if src == 5: fn += '.gz'
        with (gzip.open if src == 5 else open)(fn, 'wt') as f: f.write(text)
        arg = [fn, fn, pathlib.Path(fn), io.StringIO(text), text.split('\n'), fn][src]
        try:
            if src == 1:
                with open(fn) as f: return Causet.FromTextFile(f, **kw)
            return Causet.FromTextFile(arg, **kw)
        except ValueError:
            return None
    C = scratch(go)
    if R is None or C is None:
        ensure(R is None and C is None, what, 'was', 'accepted' if C is not None else 'rejected')
        return True
    ev = sorted(C, key=lambda e: e.Label)
    eq([e.Label for e in ev], list(range(1, n + 1)), what + ' labels')
    check_relation(Built(Poset(R), ev, C))
    return sum(R) > 0


EX = dict(strings=st.booleans(), path=st.booleans(), over=st.integers(0, 3), kw=st.integers(0, 3))
FACETS = [
    Facet('roundtrip', cases(0, 8, EX), roundtrip, 3000,
          rule='random labelled order saved, also over another file, and loaded; non-trivial: it has relations',
          explicit=[dict(E=[0] * n, labels=list(range(1, n + 1)), prio=list(range(n)), style=0, pre=0, salt=0, strings=False, path=False)
                    for n in range(4)] +
          [dict(E=[(1 << i) - 1 & 0x5555555 for i in range(14)], labels=list(range(14, 0, -1)), prio=list(range(14)), style=0, pre=0,
                salt=0, strings=False, path=False)]),
    Facet('loading', st.builds(lambda m, x: dict(m, **x), matrices(),
                               st.fixed_dictionaries(dict(sep=st.integers(0, 4), eol=st.integers(0, 2), deflt=st.booleans(), head=st.integers(0, 4), src=st.integers(0, 11)))),
          loading, 3000, rule='text file (by name or path, compressed, open, or its lines) of a matrix as for C04 with one of five delimiters, either orientation, comments and lines of a header; '
                              'non-trivial: rejected or with relations'),
    Facet('roundtrip larger', cases(13, 30, EX), roundtrip, 400, rule='the same for orders of 13 to 30 events'),
    Facet('roundtrip many', bulk(50, 120, EX), roundtrip, 160, rule='the same for orders of 50 to 120 events', limit=60.0),
    Facet('roundtrip hundreds', bulk(257, 290, EX, ('total', 'bipyramid', 'points', 'dag', 'antichain')), roundtrip, 12,
          rule='the same for orders of 257 to 290 events', limit=120.0),
    Facet('loading larger', st.builds(lambda m, x: dict(m, **x), matrices(12, 24),
                                      st.fixed_dictionaries(dict(sep=st.integers(0, 4), eol=st.integers(0, 2), deflt=st.booleans(), head=st.integers(0, 4), src=st.integers(0, 11)))),
          loading, 400, rule='the same for matrices of 12 to 24 events'),
    Facet('roundtrip evolved', moved(cases(1, 7, EX)), evolved(roundtrip), 600, rule='the same queried again after changes of the order of the same events'),
]
