"""One shard: runs all facets of a property; or a replay."""
import hashlib, json, os, resource, signal, sys, time, traceback
from pbt import env
from pbt.core import Violation, Skip, Ctx
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, reject

SUTDIRS = ('/repo/', '/opt/causets-path/')
SHRINK_S = 20.0
FORM = (AttributeError, TypeError, IndexError, KeyError, ValueError)     # examining a result of the library failed


class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def in_sut(tb):
    return any(f.filename.startswith(SUTDIRS) for f in traceback.extract_tb(tb))


def run_case(facet, case, ctx, limit):
    """-> (True/False non-trivial) ; raises Violation, Skip or another exception (harness error)."""
    env.reset(case.get('salt', 0) if isinstance(case, dict) else 0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return bool(facet.check(case, ctx))
    except (Violation, Skip):
        raise
    except CaseTimeout:
        raise Violation('no answer within %.0f s' % limit)
    except hypothesis.errors.HypothesisException:
        raise
    except AssertionError:
        raise
    except Exception as ex:
        if in_sut(ex.__traceback__):
            last = [f for f in traceback.extract_tb(ex.__traceback__) if f.filename.startswith(SUTDIRS)][-1]
            raise Violation('unexpected %s: %s (%s:%d %s)' % (type(ex).__name__, ex, os.path.basename(last.filename),
                                                              last.lineno, last.name)) from None
        if isinstance(ex, FORM):
            last = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation('a result is not of the expected form, %s: %s (%s:%d %s)' % (type(ex).__name__, ex, os.path.basename(last.filename),
                                                                                     last.lineno, last.line)) from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def make_one(f, ctx, st, failing, state, known, res, until):
    def one(case):
        k = None
        if state['first'] and time.time() - state['first'] > SHRINK_S:
            k = key(case)
            if k in failing: raise Violation(failing[k])
            return
        if time.time() > until:
            return
        st['evaluations'] += 1
        try:
            nt = run_case(f, case, ctx, f.limit if not state['first'] else min(f.limit, 5.0))
        except Skip:
            st['skipped'] += 1
            return
        except Violation as v:
            if state['first'] and str(v).startswith('no answer within') and f.limit > 5.0: return    # the shorter limit while shrinking decides nothing
            k = key([f.name, case])
            if k in known:
                res['known'][k] = known[k]
                return
            if not state['first']: state['first'] = time.time()
            failing[key(case)] = str(v)
            size = len(json.dumps(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, str(v))
            raise
        if nt:
            st['nontrivial'] += 1
            st['distinct'].add(key(case)[:14])
            if len(st['samples']) < 2 or st['evaluations'] in (50, 500):
                st['samples'] = ([case] + st['samples'])[:2]

    return one


def run(a, mod, regress, known):
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    ctx0 = Ctx()
    t0 = time.time()
    budget = 500.0 if a.tier == 'quick' else 5 * 3600.0
    res = dict(facets={}, errors=[], known={})
    fails = []
    facets = [f for f in mod.FACETS if not a.facet or f.name == a.facet]
    for f in facets:
        ctx = Ctx()
        st = dict(evaluations=0, skipped=0, nontrivial=0, samples=[], distinct=set(), rule=f.rule)
        failing = {}
        state = dict(first=None, best=None)

        one = make_one(f, ctx, st, failing, state, known, res, t0 + budget)

        try:
            for i, case in enumerate(f.explicit):
                if i % 8 == a.shard: one(case)
            for i, r in enumerate(regress):
                if r['facet'] == f.name and i % 8 == a.shard: one(r['case'])
            n = f.quick if a.tier == 'quick' else f.thorough
            if a.scale: n *= a.scale
            n = max(1, int(n / 8 + 0.5))
            if f.strategy is not None:
                s = int(hashlib.sha1(('%d/%s/%s/%d' % (a.seed, a.id, f.name, a.shard)).encode()).hexdigest()[:12], 16)
                hseed(s)(settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                                  suppress_health_check=list(HealthCheck), print_blob=False,
                                  phases=(Phase.generate, Phase.shrink))(given(case=f.strategy)(one)))()
        except Violation:
            pass
        except Exception as ex:
            if state['best'] is None:
                res['errors'].append('facet %s shard %d: %s' % (f.name, a.shard, traceback.format_exc()[-3000:]))
        except BaseExceptionGroup as ex:
            if state['best'] is None:
                res['errors'].append('facet %s: %s' % (f.name, traceback.format_exc()[-3000:]))
        if state['best'] is not None:
            fails.append(dict(facet=f.name, case=state['best'][1], message=state['best'][2]))
            with open(a.out + '.fail.tmp', 'w') as fh: json.dump(fails, fh)
            os.rename(a.out + '.fail.tmp', a.out + '.fail')
        st['distinct'] = sorted(st['distinct'])
        st['counters'] = ctx.counters
        res['facets'][f.name] = st
    with open(a.out + '.json.tmp', 'w') as fh: json.dump(res, fh)
    os.rename(a.out + '.json.tmp', a.out + '.json')
    return 0


def replay(a, mod):
    r = json.load(open(a.replay))
    f = [f for f in mod.FACETS if f.name == r['facet']][0]
    try:
        run_case(f, r['case'], Ctx(), 60.0)
    except Skip:
        print('the case is outside of the domain')
        return 0
    except Violation as v:
        print(str(v))
        print('VIOLATION property=%s replay=%s' % (a.id, os.path.abspath(a.replay)))
        return 1
    print('%s holds for this case' % a.id)
    return 0
