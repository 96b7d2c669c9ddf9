"""C23: colour schemes resolve every colour to a valid colour."""
import copy
from hypothesis import strategies as st
from pbt.core import Facet, ensure, eq, Violation, longer
from pbt.poset import SALT

ASSUMPTIONS = ['which exception a "cs:" name without a colour raises is not decided']
BASIC = ['core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan', 'green', 'lime', 'yellow', 'orange', 'red', 'pink']
PLAIN = ['red', 'none', '#102030', 'tab:blue', 'cs', '', 'Cs:red', ' cs:red', 'xcs:blue']
OTHER = [1, 2.5, None, True, (0.1, 0.2, 0.3)]


def schemes():
    import causets.colorschemes as cs
    return cs


def reset():
    import causets.causetplotting as cp
    schemes().setGlobalColorScheme('matplotlib')
    cp.default_colors.clear()
    cp.default_colors.update(DEFAULTS)


DEFAULTS = None


def history(case, ctx):
    global DEFAULTS
    import causets.causetplotting as cp
    cs = schemes()
    if DEFAULTS is None: DEFAULTS = dict(cp.default_colors)
    table = copy.deepcopy(cs.ColorSchemes)
    names = sorted(table)
    try:
        reset()
        cur = 'matplotlib'
        changed = 0
        defaults = dict(DEFAULTS)
        for op, a, b, sch in case['ops']:
            # an explicit scheme may be chosen
            pick = None if sch % (len(names) + 1) == 0 else names[sch % (len(names) + 1) - 1]
            S = table[cur if pick is None else pick]
            keys = sorted(S)
            args = () if pick is None else (pick,)

            def value(k):
                k %= 16
                return 'cs:' + keys[(k * 7 + b) % len(keys)] if k < 9 else PLAIN[k % len(PLAIN)]

            def want(v):
                return S[v[3:]] if isinstance(v, str) and v.startswith('cs:') else v
            if op == 'set':
                n = names[a % len(names)]
                cs.setGlobalColorScheme(n)
                changed += n != cur
                cur = n
            elif op == 'default':
                n = names[a % len(names)]
                kw = {k: ['cs:red', 'red', '#102030', 'none', DEFAULTS[k]][(b + a * i) % 5] for i, k in enumerate(sorted(DEFAULTS)) if (b * 37 + sch) >> i & 1}
                cp.setDefaultColors(n, **kw)
                changed += n != cur
                cur = n
                defaults.update(kw)
            elif op == 'unknown':
                n = ['', 'york', 'Matplotlib', 'UniYork ', 'None'][a % 5]
                f = [cs.setGlobalColorScheme, cs.pickColorScheme, cp.setDefaultColors, lambda s: cs.getColor('cs:red', s),
                     lambda s: cs.convertColorsInList(['cs:red'], s), lambda s: cs.convertColorsInDict({'a': 'cs:red'}, s)][b % 6]
                try:
                    f(n)
                except ValueError: pass
                else: raise Violation('the unknown scheme %r was accepted' % n)
            elif op == 'pick':
                n = names[a % len(names)]
                eq(cs.pickColorScheme(n), table[n], 'scheme ' + n)
            elif op == 'color':
                v = value(a)
                eq(cs.getColor(v, *args), want(v), 'getColor(%r, %r) with the global scheme %s' % (v, pick, cur))
            elif op == 'list':
                L = [value(a + 3 * i) for i in range(b % 6)]
                W = [want(v) for v in L]
                eq(cs.convertColorsInList(list(L), *args), W, 'convertColorsInList(%r, %r) with the global scheme %s' % (L, pick, cur))
            elif op == 'missing':    # names that the scheme does not define
                n = 'cs:' + ['', 'redd', 'Red', ' red', 'cs:red', 'none', 'grey ', 'magenta2', 'red blue'][a % 9]
                ensure(n[3:] not in S, 'the colour', n)
                L = [value(a + 3 * i) for i in range(b % 5)]
                L.insert(b % (len(L) + 1), n)
                f, v = [(cs.getColor, n), (cs.convertColorsInList, list(L)), (cs.convertColorsInDict, {'k%d' % i: v for i, v in enumerate(L)})][b % 3]
                try:
                    r = f(v, *args)
                except Exception: pass
                else: raise Violation('the undefined colour %r is accepted in %r: %r' % (n, v, r))
            elif op == 'dict':
                D = {'k%d' % i: value(a + 5 * i) for i in range(b % 5)}
                D.update({'o%d' % i: OTHER[(a + i) % len(OTHER)] for i in range(a % 4)})
                W = {k: want(v) for k, v in D.items()}
                got = cs.convertColorsInDict(dict(D), *args)
                eq(got, W, 'convertColorsInDict(%r, %r) with the global scheme %s' % (D, pick, cur))
                for k in W: ensure(type(got[k]) is type(W[k]), 'type of', got[k])
            elif op == 'plot':
                p = cp.plot_parameters(pastcones=True, futurecones=dict(facecolor='cs:' + keys[a % len(keys)]) if pick is None else True)
                T = table[cur]
                res = lambda v: T[v[3:]] if v.startswith('cs:') else v
                eq(p['links']['color'], res(defaults['links']), 'link colour with the scheme ' + cur)
                eq(p['links']['markeredgecolor'], res(defaults['linksedge']), 'link marker colour with the scheme ' + cur)
                eq(p['links']['markerfacecolor'], res(defaults['linksface']), 'link marker colour with the scheme ' + cur)
                eq(p['events']['markeredgecolor'], res(defaults['eventsedge']), 'event colour with the scheme ' + cur)
                eq(p['events']['markerfacecolor'], res(defaults['eventsface']), 'event colour with the scheme ' + cur)
                eq(p['pastcones']['edgecolor'], res(defaults['conesedge']), 'cone colour with the scheme ' + cur)
                if pick is None: eq(p['futurecones']['facecolor'], T[keys[a % len(keys)]], 'given cone colour with the scheme ' + cur)
            eq(cs.getGlobalColorScheme(), table[cur], 'global scheme after %s' % op)
            eq(cs.ColorSchemes, table, 'table of schemes after %s' % op)
            eq(dict(cp.default_colors), defaults, 'default colours after %s' % op)
        return changed > 0 and len(case['ops']) > 2
    finally:
        reset()


def table(case, ctx):
    """every colour of every scheme"""
    import matplotlib.colors as mc
    import causets.causetplotting as cp
    global DEFAULTS
    if DEFAULTS is None: DEFAULTS = dict(cp.default_colors)
    cs = schemes()
    names = sorted(cs.ColorSchemes)
    for must in ('matplotlib', 'UniYork', 'ImperialLondon'): ensure(must in names, 'the scheme', must, 'is missing')
    n = names[case['scheme'] % len(names)]
    T = cs.pickColorScheme(n)
    for k in BASIC: ensure(k in T, 'the scheme', n, 'has no colour', k)
    keys = sorted(T)
    k = keys[case['key'] % len(keys)]
    ensure(mc.is_color_like(T[k]), 'the colour', k, 'of', n, 'is', T[k])
    ensure(mc.is_color_like(cs.getColor('cs:' + k, n)), 'the colour', k, 'of', n)
    eq(T['gray'], T['grey'], 'gray of ' + n)
    for v in DEFAULTS.values():
        ensure(v == 'none' or mc.is_color_like(cs.getColor(v, n)), 'the default colour', v, 'of', n)
    return True


OP = st.tuples(st.sampled_from(['set', 'default', 'unknown', 'pick', 'color', 'color', 'missing', 'list', 'dict', 'plot']), st.integers(0, 60),
               st.integers(0, 60), st.integers(0, 11)).map(list)
FACETS = [
    Facet('history', st.fixed_dictionaries(dict(ops=longer(OP, 14), salt=SALT)), history, 5000,
          rule='history of scheme changes, failing changes and conversions; non-trivial: the scheme was changed in a history of at least 3 steps'),
    Facet('table', st.fixed_dictionaries(dict(scheme=st.integers(0, 2), key=st.integers(0, 30), salt=SALT)), table, 400,
          rule='one colour of one scheme', explicit=[dict(scheme=i, key=k, salt=0) for i in range(3) for k in range(31)]),
]
