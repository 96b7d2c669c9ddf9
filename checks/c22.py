"""C22: time-sliced plots show and fade exactly what the time depth covers."""
import math, warnings
import numpy as np
from hypothesis import strategies as st
from pbt.core import Facet, Skip, Violation, ensure, eq
from pbt.poset import SALT
from pbt import draw as D, others
from checks.c21 import KEYS, world, scenes, crowded, line_points, text_point, close, check_cones, check_artists, fading

ASSUMPTIONS = ['time depths other than zero', 'fade values closer than 1e-9 to zero are not decided', 'coordinate time differences below 1e-6 are not decided unless zero',
               'the half-time wording of the exponential fading is read as the factor exp(-1) per time depth']
warnings.simplefilter('ignore')


def fade_value(kind, dim, depth, amax, dt):
    """opacity of an event at the time difference dt; 0 on the hidden side"""
    v = dt if depth > 0 else -dt
    if v < 0: return 0.0
    if kind == 'linear': return amax * (1 - v / abs(depth))
    if kind == 'exponential': return amax * math.exp(-v / abs(depth))
    return amax / (v + 1)**(dim - 1)


def function(case, ctx):
    """the fade functions themselves"""
    from causets.causetplotting import dynamic_parameter
    k, dim, depth, amax = case['fade'], case['dim'], case['depth'], case['alpha']
    f = dynamic_parameter(k, dim, depth, amax)
    ensure(callable(f), 'no function for', k)
    w = 'fading %r (dimension %d, depth %r, maximum %r)' % (k, dim, depth, amax)
    s = 1 if depth > 0 else -1
    last = None
    ensure(abs(float(f(0.0)) - amax) <= 1e-12 * amax, w, 'at the time itself is', f(0.0))
    for v in sorted(case['vs']):
        g, want = float(f(s * v)), fade_value(k, dim, depth, amax, s * v)
        ensure(abs(g - want) <= 1e-9 * max(1.0, abs(want)), w, 'at', s * v, 'is', g, 'expected', want)
        ensure(last is None or g <= last + 1e-12, w, 'increases with the distance')
        if v > 0: ensure(float(f(-s * v)) == 0.0, w, 'on the hidden side at', -s * v, 'is', f(-s * v))
        last = g
    if k == 'linear': ensure(abs(float(f(depth))) <= 1e-12 * amax, w, 'at the depth is', f(depth))
    return len(case['vs']) > 1


def decided(v):
    return abs(v) > 1e-9 or v == 0.0


def slice_check(case, H, ax, ax2, ev, order, m, sp, on, params, conepar, t2, d3):
    pts, dims, opt = case['pts'], case['dims'], case['opt']
    dim = 3 if d3 else 2
    t = t2[0]
    kind, depth = opt.get('timefade', 'linear'), case['timedepth']
    n = len(ev)
    w = 'time %r depth %r fading %r' % (t, depth, kind)
    dts = [pts[i][0] - t for i in order]
    if any(0 < abs(v) < 1e-6 for v in dts): raise Skip()
    emax = params['events'].get('alpha', 1.0)
    fades = [fade_value(kind, dim, depth, emax, v) for v in dts]
    if not all(decided(v) for v in fades): raise Skip()
    vis = [v > 0 for v in fades]
    pos = [[pts[i][k] for k in dims] for i in order]
    eq(set(H), {k for k in KEYS if on[k]}, w + ': parts of the plot')
    lines, texts = [], []
    for key in ('events', 'labels'):
        if not on[key]: continue
        eq(len(H[key]), n, w + ': number of ' + key)
        for x, h in enumerate(H[key]):
            q = '%s: entry %d of %s at %r' % (w, x, key, pts[order[x]])
            ensure((h is not None) == vis[x], q, 'is visible' if h is not None else 'is missing', '; expected fade', fades[x])
            if h is None: continue
            if key == 'events':
                l, P = line_points(h, d3, 'event')
                lines.append(l)
                ensure(len(P) == 1 and close(P[0], pos[x]), q, 'is drawn at', P.tolist())
                a = l.get_alpha()
                ensure(a is not None and abs(a - fades[x]) <= 1e-9, q, 'has the opacity', a, 'expected', fades[x])
            else:
                texts.append(h)
                ensure(close(text_point(h, d3), pos[x]), q, 'is drawn at', list(text_point(h, d3)))
                eq(h.get_text(), ' {} '.format(ev[x].Label), q)
    drawn = 0
    if on['links']:
        links = [(x, y) for x in range(n) for y in range(x + 1, n) if (m.LP[order[x]] >> order[y] | m.LF[order[x]] >> order[y]) & 1]
        eq(len(H['links']), len(links), w + ': number of links')
        lw = params['links'].get('linewidth', 2.0)
        near9 = lambda u, v: all(abs(r - s) <= 1e-9 * (1 + abs(s)) for r, s in zip(u, v))
        want = []
        for x, y in links:
            far = x if abs(dts[x]) > abs(dts[y]) else y
            a, b, part = pos[x], pos[y], False
            if vis[x] and vis[y]: pass
            elif (vis[x] or vis[y]) and dts[x] * dts[y] < 0:
                far, near = (x, y) if vis[x] else (y, x)
                k = dts[far] / (dts[far] - dts[near])
                a = pos[far]
                b = [(1 - k) * u + k * v for u, v in zip(pos[far], pos[near])]
                part = True
            else: continue
            want.append((a, b, part, fades[far], fade_value(kind, dim, depth, lw, dts[far]), (x, y)))
        drawn = len(want)
        for h in H['links']:  # in any order
            if h is None: continue
            l, P = line_points(h, d3, 'link')
            lines.append(l)
            al, wi = l.get_alpha(), l.get_linewidth()
            hit = [k for k, (a, b, part, fa, lg, xy) in enumerate(want) if len(P) >= 2 and (near9(P[0], a) and near9(P[-1], b) or near9(P[0], b) and near9(P[-1], a))]
            dot = np.abs(P - P[0]).max() < 1e-9  # maybe a link that ends at the time itself
            if not hit and dot: continue
            ensure(hit, w, ': a line is drawn from', P[0].tolist(), 'to', P[-1].tolist(), 'expected are only', [q[:2] for q in want])
            good = [k for k in hit if al is not None and abs(al - want[k][3]) <= 1e-9 and abs(wi - want[k][4]) <= 1e-9 * lw]
            if not good and dot: continue
            ensure(good, w, ': the link', P.tolist(), 'has the opacity and width', al, wi, 'expected', want[hit[0]][3:5])
            a, b, part, fa, lg, xy = want.pop(good[0])
            q = '%s: link of %r and %r' % (w, pts[order[xy[0]]], pts[order[xy[1]]])
            if part and 0 in dims:
                c = [p[list(dims).index(0)] for p in P]
                ensure(min(abs(v - t) for v in c) < 1e-9 * (1 + abs(t)), q, 'does not end at the time:', P.tolist())
            me = l.get_markevery()
            at = [k for k in range(len(P)) if near9(P[k], b)]
            if part: ensure(len(me) > 0 and all(k % len(P) in at for k in me), q, 'has its marker at', me, 'of', P.tolist())
            else: ensure(len(me) == 0 or near9(a, b), q, 'has markers at', me)
        ensure(not want, w, ': links are missing:', [q[:2] for q in want])
    eq(sorted(map(id, ax.lines)), sorted(map(id, lines)), w + ': lines on the axes')
    eq(sorted(map(id, ax.texts)), sorted(map(id, texts)), w + ': texts on the axes')
    fade, cdepth = opt.get('conetimefade', 'intensity'), abs(opt.get('conetimedepth', 0.0))
    cones = []
    for k, sign, time in (('pastcones', -1, t2[0]), ('futurecones', 1, t2[-1])):
        if not on[k]: continue
        check_cones(H[k], k, ax2, sp, pts, order, dims, float(time), sign, fading(fade, dim, cdepth, conepar[k].get('alpha', 1.0)), conepar[k], d3)
    check_artists(*((ax.collections, ax2.collections) if d3 else (ax.patches, ax2.patches)), d3, w)
    return sum(vis), drawn


def sliced(case, ctx):
    from causets import causetplotting as cp, colorschemes as cs
    E, ev, order, m, sp, args = world(case)
    pts, dims, opt = case['pts'], case['dims'], case['opt']
    d3 = len(dims) == 3
    ax = D.axes(d3)
    num = lambda v: int(v) if v == int(v) and others.some([case, 3]) else v
    kw = dict(dims=list(dims), timedepth=num(case['timedepth']))
    on, params, conepar = {}, {}, {}
    for k in KEYS:
        v = opt.get(k)
        on[k] = k in ('links', 'events', 'labels') if v is None else v is not False
        if v is not None: kw[k] = dict(v) if isinstance(v, dict) else v
        params[k] = v if isinstance(v, dict) else {}
    for k in ('pastcones', 'futurecones'):
        p = {'edgecolor': 'none', 'color': cp.default_colors['conesface'], 'alpha': 0.1} if d3 else \
            {'edgecolor': cp.default_colors['conesedge'], 'facecolor': 'none', 'alpha': 0.1}
        p.update(params[k])
        conepar[k] = cs.convertColorsInDict(p)
    for k in ('conetimefade', 'conetimedepth', 'linkgapsize', 'timefade'):
        if k in opt: kw[k] = opt[k]
    if 'conetimedepth' in kw: kw['conetimedepth'] = num(kw['conetimedepth'])
    total = linked = 0
    first = True
    times = case['times'] if case['mode'] != 'plot' else case['times'][:1]
    if any(0 < abs(pts[i][0] - q) < 1e-6 for i in order for q in times + [case['time2']]): raise Skip()
    f = cp.Plotter(E, ax, **args, **kw) if case['mode'] != 'plot' else None
    if f is not None: D.another(case, lambda a, k: cp.Plotter(E, a, **args, **k), dims, times[0], d3)
    for t in times:
        D.clear(ax)
        ax2 = D.other_axes(d3)
        t2 = [t, t]
        if case['mode'] == 'pair': t2 = [t, case['time2']]
        if f is None: H = cp.plot(E, ax, time=num(t) if not case['arr'] else [num(t)], **args, **kw)
        elif case['mode'] == 'one': H = f(np.array([t]) if case['arr'] else [t])
        elif case['mode'] == 'float': H = f(t)
        else: H = f(np.array(t2) if case['arr'] else [num(v) for v in t2])
        a, b = slice_check(case, H, ax, ax2, ev, order, m, sp, on, params, conepar, t2, d3)
        total, linked = total + a, linked + b
    ctx.count('visible events', total)
    ctx.count('drawn links', linked)
    return len(ev) > 1 and total > 0


@st.composite
def slices(draw, big=False, many=False):
    c = draw(crowded(scenes()) if many else scenes(big))
    n = len(c['pts'])
    c['timedepth'] = draw(st.one_of(st.sampled_from([1.0, 2.0, -1.0, -2.0, 5.0, -5.0]), st.floats(0.2, 8).map(lambda v: round(v, 5)), st.floats(-8, -0.2).map(lambda v: round(v, 5))))
    f = draw(st.sampled_from([None, 'linear', 'exponential', 'intensity']))
    if f is not None: c['opt']['timefade'] = f
    own = st.sampled_from([p[0] for p in c['pts']]) if n else st.just(0.0)
    tm = st.one_of(st.integers(-8, 8).map(lambda k: k / 2 + 0.0), st.floats(-4, 4).map(lambda q: round(q, 6) + 0.0), own)
    c['times'] = draw(st.lists(tm, min_size=1, max_size=3))
    c['mode'] = draw(st.sampled_from(['plot', 'plot', 'float', 'list', 'list', 'pair', 'one']))
    for k in ('pastcones', 'futurecones'):
        if draw(st.booleans()): c['opt'].pop(k, None)
    # the opacity, width and markers of the links are the plotter's
    for k in ('axislim', 'aspect'): c['opt'].pop(k, None)
    return c


fns = st.fixed_dictionaries(dict(fade=st.sampled_from(['linear', 'exponential', 'intensity']), dim=st.integers(2, 4), depth=st.one_of(st.floats(0.05, 20), st.floats(-20, -0.05)),
                                 alpha=st.floats(0.01, 4), vs=st.lists(st.one_of(st.floats(0, 30), st.integers(0, 9).map(float)), max_size=6), salt=SALT))
FACETS = [
    Facet('function', fns, function, 3000, rule='random fade types, dimensions, depths of both signs and time differences'),
    Facet('sliced', slices(), sliced, 4500, rule='random scenes, one plotter called at up to three times; non-trivial: at least 2 events, at least one visible'),
    Facet('larger', slices(True), sliced, 600, rule='the same with up to 14 events'),
    Facet('many', slices(many=True), sliced, 240, rule='the same with 20 to 60 events', limit=120.0),
]
