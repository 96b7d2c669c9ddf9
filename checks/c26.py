"""C26: event labels, embedding, position and copies."""
import numpy as np
from hypothesis import strategies as st
from pbt import env
from pbt.core import Facet, Violation, ensure, eq, longer
from pbt.poset import SALT, Poset, edges, Built, make_events, bits, relation_ok
from pbt.core import Skip

ASSUMPTIONS = ['disembed of an event that is not embedded may raise an AttributeError']
E = env.CausetEvent
VAL = st.one_of(st.integers(-8, 8).map(lambda k: k / 4), st.sampled_from([1e-13, 1 / 3, -0.1, 1e300, 12345678.87654321, -1e-5, 3.0000000000000004]))
CRD = st.lists(VAL, min_size=0, max_size=4)
LAB = [None, 0, '', (1, 2), (), ('a',), 2.5, np.int64(7), (None, 3), 0.0, True, frozenset([3])]
OPS = st.one_of(
    st.tuples(st.just('embed'), st.integers(0, 5), CRD, st.integers(0, 4), st.integers(0, 2)),
    st.tuples(st.just('disembed'), st.integers(0, 5)),
    st.tuples(st.just('broken'), st.integers(0, 5), st.integers(0, 1)),
    st.tuples(st.just('position'), st.integers(0, 5), st.lists(VAL, min_size=0, max_size=4), st.integers(0, 2)),
    st.tuples(st.just('position'), st.integers(0, 5), st.lists(VAL, min_size=2, max_size=2), st.integers(0, 2)),
    st.tuples(st.just('copy'), st.integers(0, 5)),
    st.tuples(st.just('label'), st.integers(0, 5), st.one_of(st.none(), st.integers(-3, 9), st.sampled_from(['a', 'b c', '']), st.integers(0, len(LAB) - 1).map(lambda k: [k]))),
    st.tuples(st.just('mess'), st.integers(0, 5), st.integers(0, 5)))




def history(case, ctx):
    m = Poset.closed(case['E'])
    labels = [[None, i, 'e%d' % i, 0, '', (i, 'e'), i + 0.5, np.int64(i + 1)][(case['lab'] >> i) % (8 if case['lab'] > 150 else 5)] for i in range(m.n)]
    kinds = case['init']
    ev = []
    crd, pos, lab = {}, {}, {}
    order = list(range(m.n))
    try:
        base = make_events(m, dict(style=case['style'], salt=case['salt'], prio=order), labels)
    except Exception:
        raise Skip()
    if not relation_ok(m, base): raise Skip()
    ev = base
    b = Built(m, ev, None)
    if not m.n: return False
    # events with initial coordinates and positions (constructor arguments) that are unrelated to the order
    for i, c in enumerate(kinds):
        kw = {}
        if c is not None: kw['coordinates'] = c if i % 2 else tuple(c) if i % 4 else iter(c)
        if i % 3 == 1: kw['position'] = (0.5 * i, -1.0)
        if i % 6 == 4: kw['position'] = [0.5 * i, -1.0]
        x = E(label=i, **kw)
        if i % 6 == 4: kw['position'][1] = 5.0
        if c is not None and i % 2:
            kw['coordinates'] = c = list(c)
            x = E(label=i, **kw)
            kw['coordinates'].append(3.5)
            c = c[:-1]
        eq(x.Label, i, 'label of a new event')
        eq(x.isEmbedded, c is not None, 'isEmbedded of a new event')
        if c is not None: eq(list(x.Coordinates), c, 'coordinates of a new event')
        eq([float(v) for v in x.Position], [0.5 * i, -1.0] if i % 3 == 1 else [0.0, 0.0], 'position of a new event')
        eq(x.CoordinatesDim, 0 if c is None else len(c), 'dimension of a new event')
    for i in range(m.n): lab[i] = labels[i]
    copies = 0

    def observe(what):
        for i, e in enumerate(ev):
            eq(e.isEmbedded, i in crd, 'isEmbedded of %d after %s' % (i, what))
            eq(e.CoordinatesDim, len(crd.get(i, [])), 'CoordinatesDim of %d after %s' % (i, what))
            if i in crd: eq(list(e.Coordinates), crd[i], 'Coordinates of %d after %s' % (i, what))
            else:
                try:
                    v = e.Coordinates
                except AttributeError: pass
                else: raise Violation('Coordinates of the event %d without embedding is %r after %s' % (i, v, what))
            eq([float(v) for v in e.Position], pos.get(i, [0.0, 0.0]), 'Position of %d after %s' % (i, what))
            eq(len(e.Position), 2, 'Position')
            eq((e.Label, type(e.Label)), (lab[i], type(lab[i])), 'Label of %d after %s' % (i, what))
            text, more = str(e), repr(e)
            ensure(isinstance(text, str) and isinstance(more, str), 'text of an event')
            if lab[i]: ensure(str(lab[i]) in text and str(lab[i]) in more, 'label', lab[i], 'is missing in the text', text, 'or', more)
            for j in bits(m.LP[i]): ensure(str(ev[j]) in more, 'the linked event', str(ev[j]), 'is missing in', more)
            if i in crd: ensure(all(repr(v) in more for v in crd[i]), 'coordinates', crd[i], 'are missing in', more)
        if not relation_ok(m, ev): raise Violation('the order was changed by %s' % what)

    observe('creation')
    for op in case['ops']:
        i = op[1] % m.n
        e = ev[i]
        if op[0] == 'embed':
            c = list(op[2])
            arg = [c, tuple(c), np.array(c), iter(list(c)), (v for v in list(c))][op[3]]
            re = op[4]
            kw = dict(reembed=True) if re == 1 else dict(reembed=False) if re == 2 else {}
            try:
                e.embed(arg, **kw)
            except AttributeError:
                ensure(i in crd and re != 1, 'embed raised an AttributeError')
            else:
                ensure(i not in crd or re == 1, 'an embedded event was embedded again without the flag')
                crd[i] = c
                if op[3] == 0:
                    c2 = list(c)
                    arg.append(99.0)      # the caller's list stays the caller's
                    crd[i] = c2
        elif op[0] == 'broken':     # failed attempts change nothing

            def partly():
                yield 1.0
                raise ZeroDivisionError()
            for f in (lambda: e.embed(5.0, reembed=True), lambda: e.embed(None, reembed=bool(op[2])), lambda: e.embed(partly(), True), lambda: setattr(e, 'Position', partly()), lambda: setattr(e, 'Position', 2.5),
                      lambda: setattr(e, 'Position', [1.0, 2.0, 3.0]), lambda: setattr(e, 'Position', [])):
                try: f()
                except Exception: pass
                else: raise Violation('invalid coordinates or position are accepted')
        elif op[0] == 'disembed':
            try:
                e.disembed()
            except AttributeError:
                ensure(i not in crd, 'disembed of an embedded event raised an AttributeError')
            crd.pop(i, None)
        elif op[0] == 'position':
            p = list(op[2])
            arg = [p, tuple(p), np.array(p)][op[3]]
            try:
                e.Position = arg
            except ValueError:
                ensure(len(p) != 2, 'Position', p, 'raised a ValueError')
            else:
                ensure(len(p) == 2, 'Position', p, 'was accepted')
                pos[i] = [float(v) for v in p]
                if op[3] != 1: arg[0] = 77.0      # the caller's list stays the caller's
        elif op[0] == 'label':
            l = LAB[op[2][0]] if isinstance(op[2], list) else op[2]
            e.Label = l
            lab[i] = l
        else:
            k = e.copy()
            copies += 1
            ensure(k is not e and isinstance(k, E), 'copy')
            eq((k.Label, type(k.Label)), (lab[i], type(lab[i])), 'label of the copy')
            ensure(not k.isEmbedded and k.CoordinatesDim == 0, 'the copy is embedded')
            b.eqset(k.Past, m.P[i], 'past of the copy')
            b.eqset(k.Future, m.F[i], 'future of the copy')
            b.eqset(k.LinkPast, m.LP[i], 'linked past of the copy')
            b.eqset(k.LinkFuture, m.LF[i], 'linked future of the copy')
            if op[0] == 'mess':     # change the copy
                k.Label = 'other'
                k.embed([1.0, 2.0])
                k.Position = [4.0, 5.0]
                if op[2] == 1: k.Past.clear()
                elif op[2] == 2:
                    k.Future.clear()
                    k.unlink()
                elif op[2] == 3:
                    k.LinkPast.clear()
                    k.LinkFuture.clear()
                elif op[2] == 4:
                    if m.P[i]: k.Future.add(k)
                    else: E(past={k})       # a new event after the copy only
                elif op[2] == 5:
                    if m.F[i]: k.Past.add(k)
                    else: E(future={k})
                    k.LinkPast.add(k)
                b.eqset(e.LinkPast, m.LP[i], 'linked past of the original')
                b.eqset(e.LinkFuture, m.LF[i], 'linked future of the original')
        observe(op[0])
    ctx.count('copies', copies)
    return len(crd) + len(pos) + copies > 1


FACETS = [
    Facet('history', st.fixed_dictionaries(dict(E=edges(1, 5), lab=st.integers(0, 255), style=st.integers(0, 4), salt=SALT,
                                                init=st.lists(st.one_of(st.none(), CRD), max_size=4),
                                                ops=longer(OPS, 14).map(lambda l: [list(o) for o in l]))), history, 8000,
          rule='history of embed, disembed, position, label and copy over up to 5 related events; non-trivial: at least 2 embedded, positioned or '
               'copied events'),
]
