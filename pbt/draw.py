"""Looking at matplotlib artists: polygons as NaN separated closed curves, winding numbers, 3D surfaces."""
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d.art3d import Poly3DCollection, Line3DCollection
_axes = {}


def axes(d3):
    """shared axes, emptied"""
    if d3 not in _axes:
        f = plt.figure()
        _axes[d3] = f.add_subplot(111, projection='3d') if d3 else f.add_subplot(111)
    ax = _axes[d3]
    clear(ax)
    if 'decoy' not in _axes: _axes['decoy'] = plt.figure()
    plt.figure(_axes['decoy'].number)   # the axes given to a plot are not the current ones
    return ax


def another(case, make, dims, t, d3):
    """Make another plotter in half of the cases, and use it in half of these."""
    from pbt import others
    if not others.some(case): return
    opt = case['opt']
    kw = dict(dims=list(dims)[::-1], links={'linewidth': 3.5}, labels=True, conetimefade='linear', conetimedepth=0.625, timefade='linear',
              timedepth=-2.25 if case.get('timedepth', 1.0) > 0 else 2.25, linkgapsize=0.375)
    for k in ('pastcones', 'futurecones'):
        if opt.get(k) is not None: kw[k] = opt[k]
    f = make(other_axes(d3), kw)
    if others.some([case, 1]): f([t, t])
    other_axes(d3)


def clear(ax):
    for l in (ax.patches, ax.collections, ax.lines, ax.texts):
        for a in list(l): a.remove()


def fresh(d3):
    """new figure with new axes"""
    f = plt.figure()
    return f, (f.add_subplot(111, projection='3d') if d3 else f.add_subplot(111))


def parts(XY):
    """finite runs of a NaN separated matrix"""
    XY = np.asarray(XY, dtype=float)
    ok = np.isfinite(XY).all(axis=1)
    out, run = [], []
    for k, o in enumerate(ok):
        if o: run.append(XY[k])
        elif run:
            out.append(np.array(run))
            run = []
    if run: out.append(np.array(run))
    return out


def patch_parts(p):
    """closed curves of a patch in data coordinates"""
    path = p.get_path()
    T = p.get_patch_transform()
    if path.codes is not None and any(c in (3, 4) for c in path.codes):  # curves: flatten at a large scale
        q = path.transformed(T)
        lo, hi = q.vertices.min(axis=0), q.vertices.max(axis=0)
        s = 1e4 / max(1e-30, float((hi - lo).max()))
        A = matplotlib.transforms.Affine2D().translate(*-lo).scale(s)
        return [poly / s + lo for poly in q.transformed(A).to_polygons()]
    V = T.transform(path.vertices)
    if path.codes is not None:
        V = np.array([np.array([np.nan, np.nan]) if c == 79 else v for v, c in zip(V, path.codes)])
        return [np.vstack([q, q[:1]]) for q in parts(V)]
    return parts(V)


def winding(P, pts):
    """sum of the winding numbers of the closed curves P around the points"""
    pts = np.asarray(pts, dtype=float)
    w = np.zeros(len(pts), dtype=int)
    x, y = pts[:, 0], pts[:, 1]
    for q in P:
        a = q
        b = np.roll(q, -1, axis=0)
        for (x0, y0), (x1, y1) in zip(a, b):
            if y0 == y1: continue
            side = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
            w += ((y0 <= y) & (y < y1) & (side > 0)).astype(int)
            w -= ((y1 <= y) & (y < y0) & (side < 0)).astype(int)
    return w


def area(q):
    a, b = q, np.roll(q, -1, axis=0)
    return 0.5 * float((a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1]).sum())


def mesh(XYZ):
    """full grid of a surface"""
    return np.broadcast_arrays(*[np.asarray(c, dtype=float) for c in XYZ])


def mesh_points(XYZ):
    return np.stack([c.ravel() for c in mesh(XYZ)], axis=1)


def mesh_area(XYZ):
    g = np.stack(mesh(XYZ), axis=2)
    a, b, c, d = g[:-1, :-1], g[1:, :-1], g[1:, 1:], g[:-1, 1:]
    t = lambda u, v, w: 0.5 * np.sqrt((np.cross(v - u, w - u)**2).sum(axis=2))
    return float((t(a, b, c) + t(a, c, d)).sum())


def collection_points(c):
    """vertices of a 3D polygon collection"""
    return np.asarray(c._vec, dtype=float)[:3].T


def other_axes(d3):
    """a second shared pair of axes, emptied"""
    k = ('other', d3)
    if k not in _axes:
        f = plt.figure()
        _axes[k] = f.add_subplot(111, projection='3d') if d3 else f.add_subplot(111)
    clear(_axes[k])
    return _axes[k]
