"""Other objects that are alive at the same time as the one under test, made in part of the cases only
(so that they do not hide a result that is wrong only for a lonely object)."""
import zlib


def some(x):
    """one half of the cases, by their content"""
    return zlib.crc32(repr(x).encode()) & 1 == 1


_kept = []


def keep(x):
    """alive for the next few objects"""
    _kept.append(x)
    if len(_kept) > 8: del _kept[:4]
    return x


def spacetimes():
    """Make spacetimes of every kind and ask them for their causality."""
    import numpy as np
    from causets import spacetimes as S
    for T, x, y in [(S.FlatSpacetime(3, period=(0.75, 0.0)), (0.0, 0.1, 0.1), (0.3, 0.5, 0.1)), (S.FlatSpacetime(2, period=1.25), (0.0, 0.0), (1.0, 1.0)),
                    (S.deSitterSpacetime(2, r_dS=0.375), (0.0, 0.1), (0.1, 0.1)), (S.deSitterSpacetime(3, r_dS=7.0), (0.0, 0.1, 0.0), (0.1, 0.1, 0.0)),
                    (S.AntideSitterSpacetime(2, r_AdS=0.375), (0.0, 0.1), (0.1, 0.1)), (S.AntideSitterSpacetime(4, r_AdS=7.0), (0.0, 0.1, 0.0, 0.0), (0.1, 0.1, 0.0, 0.0)),
                    (S.BlackHoleSpacetime(2, r_S=0.375), (0.0, 0.1), (0.1, 0.1)), (S.BlackHoleSpacetime(2, r_S=3.0, metric='Schwarzschild'), (0.0, 4.0), (5.0, 4.0))]:
        f = T.Causality()
        f(np.array(x), np.array(y))
        keep((T, f))


def shapes(d, name):
    """Make shapes of the same and other kinds, look at them and change the arrays that they return."""
    from causets.shapes import CoordinateShape
    for k, n in [(d, name), (d, name), (d + 1, name), (d, 'cuboid'), (max(2, d), 'cylinder'), (d, 'cube')]:
        S = CoordinateShape(k, n)
        S.Volume, S.Limits(0), S.MaxEdgeHalf(list(range(k))) if k > 1 else None
        for A in (S.Center, S.Parameter('edges') if n == 'cuboid' else None):
            try: A += 1.5
            except (TypeError, ValueError): pass
        keep(S)
