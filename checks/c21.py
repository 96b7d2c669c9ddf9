"""C21: plots draw every event, link, label and cone at its place."""
import copy, math, random, warnings
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT, Poset, bits, bulk_edges, edges, cases, build
from pbt import draw as D, geometry as G, others

ASSUMPTIONS = ['the shape of the cones is decided by C20; here they are compared to the cones that the spacetime draws for the same event and time',
               'linear and exponential fading of cones with a positive depth only', 'events on a link are those for which the test of the collinearity (1e-7) is clear']
warnings.simplefilter('ignore')
KEYS = ('links', 'events', 'labels', 'pastcones', 'futurecones')


# ---- what is plotted
def whole(case, p):
    """a list of coordinates, in half of the cases with integers where possible"""
    return [int(v) if v == int(v) and (v or math.copysign(1, v) > 0) else v for v in p] if others.some([case['pts'], 2]) else list(p)


def world(case):
    """(E, events in drawing order, model, coordinates, spacetime of the cones, keyword arguments for the plot)"""
    from causets.embeddedcauset import EmbeddedCauset
    from causets import spacetimes as S
    kind, pts = case['kind'], case['pts']
    n = len(pts)
    if kind == 'embedded':
        from checks.c15 import model
        sp = case['sp']
        m = model(sp, pts)
        C = EmbeddedCauset(spacetime=G.make_spacetime(sp), shape=shape_of(case), coordinates=[whole(case, p) for p in pts])
        ev = list(C)
        order = []
        for e in ev:
            k = [i for i, p in enumerate(pts) if list(e.Coordinates) == p]
            if len(k) != 1: raise Skip()
            order.append(k[0])
        return C, ev, order, m, C.Spacetime, {}
    b = build(dict(case, E=case['E'][:n]))
    m = b.m
    use = [i for i in case['order'] if i < n and case['use'] >> i & 1]
    if kind == 'single': use = list(case['order'][:1])
    d = len(pts[0]) if pts else 2
    for i, e in enumerate(b.ev):
        p = np.array(pts[i]) if case['arr'] else whole(case, pts[i])
        if case['emb']: e.embed(p)
        else: e.Position = p
    ev = [b.ev[i] for i in use]
    E = ev[0] if kind == 'single' else ev
    dims = case['dims']
    if case['emb']:
        sp = G.make_spacetime(dict(st='flat', dim=d))
        return E, ev, use, m, sp, dict(spacetime=sp)
    return E, ev, use, m, S.FlatSpacetime(max(dims) + 1), {}


def shape_of(case):
    from causets.shapes import CoordinateShape
    d = case['sp']['dim']
    c = case['center'][:d]
    kw = {'ball': dict(radius=case['size']), 'bicone': dict(radius=case['size']), 'cube': dict(edge=case['size']),
          'cylinder': dict(radius=case['size'], duration=2 * case['dur']), 'cuboid': dict(edges=[case['size'] + k for k in range(d)])}[case['shape']]
    return CoordinateShape(d, case['shape'], center=np.array(c), **kw)


def limits(case, k):
    """limits of the shape along a coordinate axis"""
    s, name = case['size'], case['shape']
    h = {'ball': s, 'bicone': s, 'cube': s / 2, 'cuboid': (s + k) / 2, 'cylinder': case['dur'] if k == 0 else s}[name]
    return case['center'][k] - h, case['center'][k] + h


# ---- looking at artists
def line_points(h, d3, what):
    ensure(isinstance(h, list) and len(h) == 1, what, 'is', h)
    l = h[0]
    xyz = l.get_data_3d() if d3 else l.get_data()
    return l, np.array([np.asarray(c, dtype=float) for c in xyz]).T


def text_point(t, d3):
    return np.array(t.get_position_3d() if d3 else t.get_position(), dtype=float)


def close(a, b):
    return len(a) == len(b) and all(abs(float(u) - float(v)) <= 1e-12 * (1 + abs(float(v))) for u, v in zip(a, b))


def same_color(a, b):
    import matplotlib.colors as mc
    return all(abs(u - v) < 1e-9 for u, v in zip(mc.to_rgba(a), mc.to_rgba(b)))


def cone_parts(h, d3):
    """matrices of points"""
    if d3: return [D.mesh_points(c) for c in h]
    return [np.concatenate(D.patch_parts(h))]


def matches(A, B):
    return len(A) == len(B) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True) for a, b in zip(A, B))


def check_artists(got, want, d3, what):
    """the cones on the axes are those expected, in any order"""
    eq(len(got), len(want), what + ': number of artists of cones')
    pts = (lambda c: [D.collection_points(c)]) if d3 else (lambda p: cone_parts(p, False))
    left = [(pts(c), c.get_alpha()) for c in want]
    for c in got:
        p, a = pts(c), c.get_alpha()
        k = [i for i, (q, b) in enumerate(left) if matches(p, q) and ((a is None and b is None) or (a is not None and b is not None and abs(a - b) < 1e-9))]
        ensure(k, what, ': a cone with opacity', a, 'and the points', p[0][:3].tolist(), '... should not be drawn or be drawn differently')
        left.pop(k[0])


def fading(kind, dim, depth, amax):
    """the opacity for a time distance"""
    if kind == '': return None
    if kind == 'linear': return lambda r: amax * (1 - r / depth)
    if kind == 'exponential': return lambda r: amax * math.exp(-r / depth)
    return lambda r: amax / (r + 1)**(dim - 1)


def check_cones(handles, key, ax2, sp, pts, order, dims, t, sign, fade, params, d3):
    w = key + ' at time %r along %r' % (t, dims)
    ensure(isinstance(handles, list), w, 'are', handles)
    want = []
    for i in order:
        c = np.array(pts[i], dtype=float)
        a = None if fade is None else fade(sign * (t - c[0])) if sign * (t - c[0]) > 0 else 0.0
        if a is not None and abs(a) < 1e-9 and a != 0.0: raise Skip()
        if a is not None and a <= 0.0: continue
        p = dict(params)
        kw = {} if a is None else dict(dynamicAlpha=lambda r, a=a: a)
        h = sp.ConePlotter(list(dims), p, float(sign), ax2, **kw)(c, t)
        if h is not None: want.append((i, h, a))
    eq(len(handles), len(want), w + ': number of cones of the events %r' % [pts[i] for i in order])
    for h, (i, g, a) in zip(handles, want):
        ensure(matches(cone_parts(h, d3), cone_parts(g, d3)), w, ': the cone of', pts[i], 'is drawn differently')
        if d3: continue
        x = h.get_alpha()
        a = params.get('alpha') if a is None else a
        ensure(x is not None and abs(x - a) < 1e-9, w, ': opacity of the cone of', pts[i], 'is', x, 'expected', a)
    return len(want)


def on_segment(a, b, e):
    """e is on the segment from a to b (True/False), None if that is not clear"""
    a, b, e = np.array(a), np.array(b), np.array(e)
    inside = all(min(u, v) <= w <= max(u, v) for u, v, w in zip(a, b, e))
    near = all(min(u, v) - 1e-9 <= w <= max(u, v) + 1e-9 for u, v, w in zip(a, b, e))
    x, y = e - a, b - e
    ar = np.linalg.norm(np.cross(x, y)) if len(a) == 3 else abs(x[0] * y[1] - x[1] * y[0])
    if not near or ar > 1e-6: return False
    if inside and ar < 1e-8 and ar <= 1e-9 * np.linalg.norm(b - a): return True
    return None


def monotone(P):
    """the polyline runs along the segment without turning"""
    d = P[-1] - P[0]
    s = [float(np.dot(p - P[0], d)) for p in P]
    return all(s[k] <= s[k + 1] + 1e-12 for k in range(len(s) - 1))


# ---- static plots
def static(case, ctx):
    from causets import causetplotting as cp, colorschemes as cs
    E, ev, order, m, sp, args = world(case)
    pts, dims = case['pts'], case['dims']
    d3 = len(dims) == 3
    if any(0 < abs(pts[i][0] - q) < 1e-6 for i in order for q in (case['time'], int(case['time']), case['time2'], case['time'] + 0.5, case['time'] - 0.5, 0.0)): raise Skip()
    ax = D.axes(d3)
    ax2 = D.other_axes(d3)
    opt = case['opt']
    kw = dict(dims=list(dims))
    on = {}
    params = {}
    for k in KEYS:
        v = opt.get(k)
        dflt = k in ('links', 'events', 'labels')
        on[k] = dflt if v is None else v is not False
        if v is not None: kw[k] = dict(v) if isinstance(v, dict) else v
        params[k] = v if isinstance(v, dict) else {}
    conepar = {}
    for k in ('pastcones', 'futurecones'):
        p = {'edgecolor': 'none', 'color': cp.default_colors['conesface'], 'alpha': 0.1} if d3 else \
            {'edgecolor': cp.default_colors['conesedge'], 'facecolor': 'none', 'alpha': 0.1}
        p.update(params[k])
        conepar[k] = cs.convertColorsInDict(p)
    for k in ('conetimefade', 'conetimedepth', 'linkgapsize', 'aspect'):
        if k in opt: kw[k] = opt[k]
    if 'conetimedepth' in kw and kw['conetimedepth'] == int(kw['conetimedepth']) and others.some([case, 3]): kw['conetimedepth'] = int(kw['conetimedepth'])
    fade, depth = opt.get('conetimefade', 'intensity'), abs(opt.get('conetimedepth', 0.0))
    t = case['time']
    mode = case['mode']
    axl = opt.get('axislim')
    if axl == 'shape':
        kw['axislim'] = 'shape'
        if case['kind'] != 'embedded': kw['shape'] = shape_of(case)
    elif axl == 'kw':
        kw['shape'] = shape_of(case)
    elif axl == 'dict':
        kw['axislim'] = dict(zip(('xlim', 'ylim', 'zlim'), case['lims'][: len(dims)]))
    if mode == 'gca':
        import matplotlib.pyplot as plt
        plt.sca(ax)
    w = 'plot of %s' % case['kind']
    mine = {k: v for k, v in kw.items() if isinstance(v, (dict, list))}
    given = {k: copy.copy(v) for k, v in mine.items()}   # options are the caller's
    tt = [t, t]
    use_ax = None if mode == 'gca' else ax
    if mode == 'plotter':
        f = cp.Plotter(E, use_ax, **args, **kw)
        D.another(case, lambda a, k: cp.Plotter(E, a, **args, **k), dims, t, d3)
        if case['twice']:
            f([t + 0.5, t - 0.5])
            D.clear(ax)
        tt = [t, case['time2']]
        H = f(tt if not case['arr'] else np.array(tt))
    elif mode == 'one':
        H = cp.Plotter(E, use_ax, **args, **kw)([t] if not case['arr'] else np.array([t]))
    elif mode == 'float':
        H = cp.Plotter(E, use_ax, **args, **kw)(t)
    else:
        if mode == 'none': tt = [0.0, 0.0]
        elif mode == 'pair':
            tt = [t, case['time2']]
            kw['time'] = tt if not case['arr'] else np.array(tt)
        elif mode == 'single': kw['time'] = [t] if not case['arr'] else np.array([t])
        elif mode == 'int': kw['time'] = t = int(t)
        else: kw['time'] = t
        if mode == 'int': tt = [t, t]
        H = cp.plot(E, use_ax, **args, **kw)
    for k, v in given.items(): eq(mine[k], v, w + ': the option %s of the caller after plotting' % k)
    # parts
    eq(set(H), {k for k in KEYS if on[k]}, w + ': parts of the plot')
    n = len(ev)
    pos = [[pts[i][k] for k in dims] for i in order]
    links = [(x, y) for x in range(n) for y in range(x + 1, n) if (m.LP[order[x]] >> order[y] | m.LF[order[x]] >> order[y]) & 1]
    lines = []
    gaps = 0
    if any(on_segment(pos[x], pos[y], pos[z]) is None for x, y in links for z in range(n) if z not in (x, y)): raise Skip()
    if on['links']:
        ensure(len(H['links']) == len(links), w, 'with', len(links), 'links has the link artists', H['links'], 'order', m.P, 'events', order)
        left = list(links)
        for h in H['links']:
            l, P = line_points(h, d3, 'link')
            lines.append(l)
            hit = [(x, y) for x, y in left if (close(P[0], pos[x]) and close(P[-1], pos[y])) or (close(P[0], pos[y]) and close(P[-1], pos[x]))]
            ensure(hit, w, ': a line from', list(P[0]), 'to', list(P[-1]), 'is drawn for no link; order', m.P, 'events at', pos)
            # several links may look the same in a projection
            x, y = hit[0]
            left.remove((x, y))
            ensure(monotone(P), w, ': the line of a link turns around:', P.tolist())
            want = [pos[z] for z in range(n) if z not in (x, y) and on_segment(pos[x], pos[y], pos[z])]
            inner = P[1:-1]
            gaps += len(inner)
            if d3 and len(inner): ctx.count('3D links through one event' if len(inner) == 1 else '3D links through several events')
            for p in inner:
                ensure(any(close(p, q) for q in want), w, ': the line of the link', pos[x], pos[y], 'passes through', list(p), 'but there is no event on it')
            if opt.get('linkgapsize', 0.0) > 0.0 and len(hit) == 1:
                eq(len(inner), len(want), w + ': number of events on the link %r %r with gaps' % (pos[x], pos[y]))
                for q in want: ensure(any(close(p, q) for p in inner), w, ': the link', pos[x], pos[y], 'has no gap at', q)
                eq(list(l.get_markevery()), list(range(1, len(P) - 1)), w + ': gaps of the link %r %r' % (pos[x], pos[y]))
                if opt.get('links') not in (None, True): eq(l.get_markersize(), opt['linkgapsize'], 'size of the gaps')
            else:
                me = l.get_markevery()
                ensure(me is not None and all(1 <= k < len(P) - 1 for k in me), w, ': markers at the ends of a link:', me)
            for k, v in params['links'].items():
                g = getattr(l, 'get_' + k)()
                if k in ('color', 'markerfacecolor'): ensure(same_color(g, cs.getColor(v)), w, k, 'of a link is', g, 'expected', v)
                elif not (k == 'markersize' and opt.get('linkgapsize', 0.0) > 0.0): eq(g, v, w + ': %s of a link' % k)
    if on['events']:
        eq(len(H['events']), n, w + ': number of event markers')
        for x, h in enumerate(H['events']):
            l, P = line_points(h, d3, 'event')
            lines.append(l)
            ensure(P.shape[0] == 1 and close(P[0], pos[x]), w, ': the marker of event', x, 'is at', P.tolist(), 'expected', pos[x])
            ensure(l.get_linestyle() in ('None', '', ' ') or P.shape[0] == 1, 'event is drawn as a line')
            ensure(l.get_marker() not in (None, 'None', ''), w, ': event', x, 'has no marker')
            for k, v in params['events'].items():
                g = getattr(l, 'get_' + k)()
                if k in ('color', 'markerfacecolor'): ensure(same_color(g, cs.getColor(v)), w, k, 'of an event is', g, 'expected', v)
                else: eq(g, v, w + ': %s of an event' % k)
    texts = []
    if on['labels']:
        eq(len(H['labels']), n, w + ': number of labels')
        for x, h in enumerate(H['labels']):
            texts.append(h)
            ensure(close(text_point(h, d3), pos[x]), w, ': the label of event', x, 'is at', list(text_point(h, d3)), 'expected', pos[x])
            eq(h.get_text(), ' {} '.format(ev[x].Label), w + ': label')
            for k, v in params['labels'].items(): eq(getattr(h, 'get_' + k)(), v, w + ': %s of a label' % k)
    # nothing else is on the axes
    eq(set(map(id, ax.lines)), set(map(id, lines)), w + ': lines on the axes')
    eq(set(map(id, ax.texts)), set(map(id, texts)), w + ': texts on the axes')
    cones = []
    nc = 0
    for k, sign, time in (('pastcones', -1, tt[0]), ('futurecones', 1, tt[-1])):
        if not on[k]: continue
        amax = conepar[k].get('alpha', 1.0)
        nc += check_cones(H[k], k, ax2, sp, pts, order, dims, float(time), sign, fading(fade, 3 if d3 else 2, depth, amax), conepar[k], d3)
        if not d3: cones += H[k]
    if not d3: eq(set(map(id, ax.patches)), set(map(id, cones)), w + ': cones on the axes')
    check_artists(*((ax.collections, ax2.collections) if d3 else (ax.patches, ax2.patches)), d3, w)
    # limits
    want = None
    if axl == 'dict': want = case['lims'][: len(dims)]
    elif axl in ('shape', 'kw'):
        want = [limits(case, k) for k in dims]
        if d3:
            h = max((b - a) / 2 for a, b in want)
            want = [(case['center'][k] - h, case['center'][k] + h) for k in dims]
    if want is not None:
        got = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if d3 else [])
        for k, (g, q) in enumerate(zip(got, want)):
            ensure(close(g, q), w, ': limits of axis', k, 'are', g, 'expected', q, 'shape', case['shape'] if axl != 'dict' else '')
    if not d3:
        a = opt.get('aspect', ['equal', 'box'])
        got = ax.get_aspect()
        eq(1.0 if got == 'equal' else got, 1.0 if a[0] == 'equal' else a[0], w + ': aspect')
        eq(ax.get_adjustable(), a[1], w + ': adjustable')
    ctx.count('links', len(links))
    ctx.count('cones', nc)
    ctx.count('events on links', gaps)
    return n > 1 and (len(links) > 0 or nc > 0)


# ---- diagrams
def diagram(case, ctx):
    from causets import causetplotting as cp
    from causets.causet import Causet
    P = case['perm']
    n = len(P)
    E = Causet.FromPermutation(list(P)).sortedByLabels()
    ax = D.axes(False)
    ax.set_axis_on()
    kw = {}
    if case['cones']: kw = dict(pastcones=True, futurecones=True, time=[-2.0, 2.0], conetimefade='')
    if not case['labels']: kw['labels'] = False
    if case['pos']:  # positions of their own
        for i, e in enumerate(E): e.Position = np.array(case['pts'][i])
    use = list(P)
    if case['pos']: use = [] if n < 2 else list(P[: case['cut'] % n])
    if case['pos'] and not use and case['cut'] % 2: args = ()
    else: args = (use,)
    if not case['pos'] and case['cut'] % 3 == 1: cp.plotDiagram(E, P[::-1] if case['cut'] % 2 else list(range(1, n + 1)), plotAxes=ax)     # drawn before by another one
    if case['gca']:
        import matplotlib.pyplot as plt
        plt.sca(ax)
        H = cp.plotDiagram(E, *args, **kw)
    else: H = cp.plotDiagram(E, *args, plotAxes=ax, **kw)
    ensure(not ax.axison, 'the axes of a diagram are visible')
    X = [list(map(float, e.Position)) for e in E]
    if case['pos']: eq(X, [list(map(float, p)) for p in case['pts'][:n]], 'positions of the events')
    else:
        for i in range(n):
            for j in range(n):
                dt, dx = X[j][0] - X[i][0], abs(X[j][1] - X[i][1])
                ensure(abs(dt - dx) > 1e-9 or i == j, 'events at light-like positions in a diagram of', P)
                want = i < j and P.index(i + 1) < P.index(j + 1)
                eq(dt > dx, want, 'diagram of %r: event %d is before event %d by the positions %r %r' % (P, i + 1, j + 1, X[i], X[j]))
                eq(E[i] < E[j], want, 'order by the permutation')
        ensure(all(abs(t) + abs(x) < 1 for t, x in X), 'positions outside of the diamond')
    eq(len(H['events']), n, 'number of markers')
    for x, h in zip(X, H['events']):
        l, Q = line_points(h, False, 'event')
        ensure(close(Q[0], [x[1], x[0]]), 'marker at', Q.tolist(), 'expected', x[::-1])
    links = sum(1 for i in range(n) for j in range(i) if E[i].isLinkedTo(E[j]))
    eq(len(H['links']), links, 'number of lines')
    left = [(i, j) for i in range(n) for j in range(i) if E[i].isLinkedTo(E[j])]
    for h in H['links']:
        l, Q = line_points(h, False, 'link')
        hit = [(i, j) for i, j in left if close(Q[0], X[i][::-1]) and close(Q[-1], X[j][::-1]) or close(Q[0], X[j][::-1]) and close(Q[-1], X[i][::-1])]
        ensure(hit, 'line from', Q[0].tolist(), 'to', Q[-1].tolist(), 'is no link')
        left.remove(hit[0])
    eq('labels' in H, case['labels'], 'labels are drawn')
    if case['labels']: eq([h.get_text() for h in H['labels']], [' {} '.format(e.Label) for e in E], 'labels')
    if case['cones'] and not case['pos']:
        for key, sign in (('pastcones', -1), ('futurecones', 1)):
            eq(len(H[key]), n, 'number of ' + key)
            for i, h in enumerate(H[key]):
                pp = D.patch_parts(h)
                others = [j for j in range(n) if j != i]
                wn = D.winding(pp, [X[j][::-1] for j in others]) if others else []
                for j, v in zip(others, wn):
                    eq(v != 0, E[i] < E[j] if sign > 0 else E[j] < E[i], '%s of event %d in the diagram of %r encloses event %d' % (key, i + 1, P, j + 1))
    return links > 0


# ---- strategies
@st.composite
def scenes(draw, big=False, gaps=False):
    kind = draw(st.sampled_from(['list'] * 6 + ['embedded'] * 5 + ['single'])) if not gaps else 'list'
    hi = 14 if big else 7
    n = draw(st.integers(4, 6)) if gaps else draw(st.one_of([st.integers(3, hi)] * 7 + [st.integers(1 if kind == 'single' else 0, 2)]))
    case = dict(kind=kind, salt=draw(SALT), arr=draw(st.booleans()))
    if kind == 'embedded':
        sp = draw(st.one_of(G.flat_specs(2, 4, periodic=False), G.flat_specs(2, 4, periodic=False), G.flat_specs(2, 3, periodic=True), G.specs(kinds=('dS', 'BH'), lo=2, hi=3)))
        d = sp['dim']
        if sp['st'] == 'flat' and draw(st.booleans()):
            step = draw(st.sampled_from([0.5, 0.25]))
            pts = [[draw(st.integers(-3, 3)) * step for _ in range(d)] for _ in range(n)]
        else: pts = draw(G.points(sp, n))
        seen, out = set(), []
        for p in pts:
            if tuple(p) not in seen: out.append(p)
            seen.add(tuple(p))
        case.update(sp=sp, pts=out)
    else:
        d = draw(st.integers(2, 4))
        step = draw(st.sampled_from([1.0, 0.5, 0.25]))
        grid = draw(st.integers(0, 3)) > 0
        v = st.integers(-3, 3).map(lambda k: k * step) if grid else st.floats(-3, 3).map(lambda q: round(q, 6))
        case.update(pts=[draw(st.lists(v, min_size=d, max_size=d)) for _ in range(n)], E=draw(edges(n, n)) if n else [], order=draw(st.permutations(range(n))),
                    use=draw(st.one_of(st.just((1 << n) - 1), st.just((1 << n) - 1), st.integers(0, (1 << n) - 1))), emb=d > 2 or draw(st.booleans()), sp=dict(st='flat', dim=d))
        case['E'] = (case['E'] + [0] * n)[:n]
        case.update(labels=draw(st.permutations(range(1, n + 1))), prio=draw(st.permutations(range(n))), style=draw(st.integers(0, 5)), pre=draw(st.integers(0, 2)),
                    lm=draw(st.sampled_from([0, 0, 0, 3, 4, 5, 6, 7, 7])))
    d3 = d > 2 and (gaps or draw(st.booleans()))
    case['dims'] = draw(st.permutations(range(d)))[: 3 if d3 else 2]
    mid = None
    if kind == 'list' and n >= 3 and (gaps or draw(st.booleans())):
        # an event in the middle of the line between two others, often parallel to an axis or a coordinate plane
        order = draw(st.permutations(range(n)))
        i, j, k = order[:3]
        flat = draw(st.integers(0, 2))
        mid = True
        if draw(st.integers(0, 3)): case['E'][max(i, j)] |= 1 << min(i, j)
        for a, x in enumerate(case['dims']):
            if a < flat: case['pts'][j][x] = case['pts'][i][x]
            if draw(st.integers(0, 9)): case['pts'][k][x] = (case['pts'][i][x] + case['pts'][j][x]) / 2
        if gaps or n >= 4 and draw(st.booleans()):  # and another one
            q = draw(st.sampled_from([0.25, 0.75, 0.125]))
            for x in case['dims']: case['pts'][order[3]][x] = case['pts'][i][x] + q * (case['pts'][j][x] - case['pts'][i][x])
        if draw(st.booleans()): case['dims'] = draw(st.permutations(case['dims']))
    opt = {}
    num = lambda *a: st.sampled_from(a)
    tern = lambda f: st.one_of(st.none(), st.none(), st.sampled_from([True, True, False]), f)
    col = st.sampled_from(['red', '#102030', 'cs:green', 'cs:core'])
    opt['links'] = draw(tern(st.fixed_dictionaries({}, optional=dict(linewidth=num(1.0, 3.0), color=col, markersize=num(4.0, 9.0), linestyle=num('-', '--'))))) 
    opt['events'] = draw(tern(st.fixed_dictionaries({}, optional=dict(markersize=num(1.0, 5.0), markerfacecolor=col, marker=num('s', 'o'), alpha=num(0.5, 1.0)))))
    opt['labels'] = draw(tern(st.fixed_dictionaries({}, optional=dict(verticalalignment=num('top', 'bottom'), fontsize=num(6.0, 12.0), color=num('red', 'blue')))))
    cone = st.fixed_dictionaries({}, optional=dict(alpha=num(0.5, 1.0, 0.25)))
    opt['pastcones'] = draw(st.one_of(st.none(), st.sampled_from([True, False]), cone))
    opt['futurecones'] = draw(st.one_of(st.none(), st.sampled_from([True, False]), cone))
    f = draw(st.sampled_from([None, None, '', 'intensity', 'linear', 'exponential']))
    if f is not None:
        opt['conetimefade'] = f
        dep = draw(st.sampled_from([1.0, 2.0, 4.0, -3.0]))
        if f in ('linear', 'exponential') or draw(st.booleans()): opt['conetimedepth'] = dep
    g = draw(st.sampled_from([None, None, 0.0, 12.0] if not mid else [12.0, 12.0, None]))
    if g is not None: opt['linkgapsize'] = g
    opt['axislim'] = draw(st.sampled_from([None, 'shape', 'kw', 'dict', 'dict']))
    if draw(st.integers(0, 3)) == 0: opt['aspect'] = draw(st.sampled_from([['auto', 'datalim'], ['equal', 'datalim'], [2.0, 'box']]))
    if gaps:
        opt.update(links=True, linkgapsize=12.0, pastcones=None, futurecones=None)
        case['use'] = (1 << n) - 1
        for z in range(n):  # the events between are no obstacle to the link
            case['E'][z] = 1 << min(i, j) if z == max(i, j) else case['E'][z] & ~(1 << i | 1 << j)
    for k in list(opt):
        if opt[k] is None: del opt[k]
    tm = st.one_of(st.integers(-8, 8).map(lambda k: k / 2), st.floats(-4, 4).map(lambda q: round(q, 6)))
    low = st.floats(-3, 0).map(lambda q: round(q, 3))
    case.update(opt=opt, time=draw(tm) + 0.0, time2=draw(tm) + 0.0, mode=draw(st.sampled_from(['time', 'time', 'none', 'pair', 'plotter', 'plotter', 'float', 'gca', 'single', 'one', 'int'])), twice=draw(st.booleans()),
                shape=draw(st.sampled_from(['ball', 'bicone', 'cube', 'cylinder', 'cuboid'])), size=draw(st.integers(1, 12)) / 4, dur=draw(st.integers(1, 12)) / 4,
                center=draw(st.lists(st.integers(-8, 8).map(lambda k: k / 4), min_size=4, max_size=4)),
                lims=draw(st.lists(st.tuples(low, st.floats(0.5, 4).map(lambda q: round(q, 3))).map(list), min_size=3, max_size=3)))
    return case


@st.composite
def crowded(draw, base, lo=20, hi=60):
    """a scene of many events; their coordinates and relations come from a seed"""
    from checks.c15 import cloud
    c = draw(base)
    n, seed = draw(st.integers(lo, hi)), draw(st.integers(0, 2**31))
    R, rng = random.Random(seed), np.random.default_rng(seed)
    if c['kind'] == 'single': c['kind'] = 'list'
    d = c['sp']['dim'] if c['kind'] == 'embedded' else len(c['pts'][0]) if c['pts'] else c['sp']['dim']
    if c['kind'] == 'embedded': c['pts'] = [[round(v, 6) for v in p] for p in cloud(c['sp'], n, rng)]
    else:
        if seed % 3: c['pts'] = [[round(float(v), 6) for v in rng.uniform(-3, 3, size=d)] for _ in range(n)]
        else: c['pts'] = [[float(v) / 2 for v in rng.integers(-7, 8, size=d)] for _ in range(n)]
        c.update(E=bulk_edges(R.choice(['dag', 'layers', 'tree', 'points', 'parts']), n, seed), order=R.sample(range(n), n), use=R.choice([(1 << n) - 1, (1 << n) - 1, R.getrandbits(n)]),
                 labels=R.sample(range(1, n + 1), n), prio=R.sample(range(n), n))
        c.setdefault('emb', True)
        for k, v in dict(style=seed % 6, pre=0).items(): c.setdefault(k, v)
    return c


PTS = st.lists(st.lists(st.integers(-4, 4).map(lambda k: k / 2), min_size=2, max_size=2), min_size=9, max_size=9)
diagrams = st.integers(0, 9).flatmap(lambda n: st.fixed_dictionaries(dict(
    perm=st.permutations(range(1, n + 1)), cones=st.booleans(), labels=st.booleans(), pos=st.sampled_from([False, False, True]), cut=st.integers(0, 8),
    gca=st.booleans(), pts=PTS, salt=SALT)))
FACETS = [
    Facet('static', scenes(), static, 4000, rule='random event lists, single events and embedded causets with random coordinates, dimensions and options; non-trivial: at least 2 events and a link or cone'),
    Facet('larger', scenes(True), static, 600, rule='the same with up to 14 events'),
    Facet('many', crowded(scenes()), static, 240, rule='the same with 20 to 60 events', limit=120.0),
    Facet('events on links', scenes(gaps=True), static, 1200, rule='the same with two or more events in the middle of the line between two linked events, in 2D and 3D'),
    Facet('diagram', diagrams, diagram, 1600, rule='diagrams of permutations of up to 9 integers and of given positions; non-trivial: at least one link'),
]
