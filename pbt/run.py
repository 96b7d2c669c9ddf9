"""Driver: run a property's facets over generated cases in several processes."""
import argparse, hashlib, importlib, json, os, resource, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
SHARDS = 8


def parse():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--scale', type=float, default=None)
    a.add_argument('--facet', default=None)
    a.add_argument('--replay', default=None)
    a.add_argument('--shard', type=int, default=None)
    a.add_argument('--out', default=None)
    a.add_argument('--noevidence', action='store_true')
    return a.parse_args()


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def known_open(pid):
    out = {}
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            if l.startswith('open: property=%s case=' % pid):
                h, _, what = l.split('case=', 1)[1].partition(' ')
                out[h.strip()] = what.strip()
    except OSError:
        pass
    return out


def regress(pid):
    p = os.path.join(ROOT, 'regress', pid + '.jsonl')
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def main():
    a = parse()
    if a.shard is not None:
        from pbt import worker
        return worker.run(a, load(a.id), regress(a.id), known_open(a.id))
    if a.replay:
        from pbt import worker
        return worker.replay(a, load(a.id))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pbt-')
    procs = []
    try:
        for s in range(SHARDS):
            cmd = [sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'), a.id, '--tier', a.tier,
                   '--seed', str(a.seed), '--shard', str(s), '--out', os.path.join(tmp, '%d' % s)]
            if a.scale is not None: cmd += ['--scale', str(a.scale)]
            if a.facet: cmd += ['--facet', a.facet]
            procs.append(subprocess.Popen(cmd, cwd=tmp, stdout=open(os.path.join(tmp, 'log%d' % s), 'w'),
                                          stderr=subprocess.STDOUT, start_new_session=True))
        hard = t0 + (800 if a.tier == 'quick' else 6 * 3600)
        grace = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.1)
            now = time.time()
            if grace is None and any(os.path.exists(os.path.join(tmp, '%d.fail' % s)) for s in range(SHARDS)):
                grace = now + 12
            if (grace and now > grace) or now > hard:
                for p in procs:
                    if p.poll() is None:
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError: pass
                break
        for p in procs: p.wait()
        return collect(a, procs, tmp, time.time() - t0, bool(grace))
    finally:
        for p in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def collect(a, procs, tmp, wall, stopped):
    fails, errors, known = [], [], {}
    facets, distinct = {}, {}
    rules = {}
    for s, p in enumerate(procs):
        base = os.path.join(tmp, '%d' % s)
        if os.path.exists(base + '.fail'):
            fails += json.load(open(base + '.fail'))
        if os.path.exists(base + '.json'):
            r = json.load(open(base + '.json'))
            for n, f in r['facets'].items():
                g = facets.setdefault(n, dict(evaluations=0, skipped=0, nontrivial=0, samples=[], counters={}))
                for k in ('evaluations', 'skipped', 'nontrivial'): g[k] += f[k]
                for k, v in f['counters'].items(): g['counters'][k] = g['counters'].get(k, 0) + v
                if len(g['samples']) < 3: g['samples'] += f['samples'][:1]
                rules[n] = f['rule']
                distinct.setdefault(n, set()).update(f['distinct'])
            known.update(r['known'])
            errors += r['errors']
        elif not (stopped and p.returncode in (-9,)):
            errors.append('shard %d died with %s: %s' % (s, p.returncode,
                          open(os.path.join(tmp, 'log%d' % s)).read()[-1500:]))
    for k, w in known.items():
        print('KNOWN-FINDING: property=%s %s' % (a.id, w))
    samples = []
    for n, g in facets.items():
        for c in g['samples'][:2]:
            samples.append(dict(facet=n, case=c))
    nd = sum(len(v) for v in distinct.values())
    if not a.noevidence and not a.facet and not a.scale:
        ev = dict(property=a.id, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level='exploration',
                  coverage=dict(evaluations=sum(g['evaluations'] for g in facets.values()), distinct_nontrivial=nd,
                                rule='; '.join('%s: %s' % (n, r) for n, r in sorted(rules.items())),
                                samples=samples[:20],
                                facets={n: dict(evaluations=g['evaluations'], skipped=g['skipped'], nontrivial=g['nontrivial'],
                                                distinct_nontrivial=len(distinct[n]), counters=g['counters'])
                                        for n, g in facets.items()}),
                  wall_s=round(wall, 2), violations=len(fails),
                  assumptions=getattr(load_meta(a.id), 'ASSUMPTIONS', []))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for n, g in facets.items():
        print('  %-28s %7d cases, %7d non-trivial, %6d distinct, %5d skipped  %s' %
              (n, g['evaluations'], g['nontrivial'], len(distinct[n]), g['skipped'], json.dumps(g['counters'])))
    print('%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s' %
          (a.id, a.tier, a.seed, sum(g['evaluations'] for g in facets.values()), nd, wall))
    if fails:
        best = {}
        for f in fails:
            k = f['facet']
            if k not in best or len(json.dumps(f['case'])) < len(json.dumps(best[k]['case'])): best[k] = f
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for k, f in sorted(best.items())[:4]:
            p = os.path.join(ROOT, 'replays', '%s-%s.json' % (a.id, k.replace(' ', '-')))
            with open(p, 'w') as fh:
                json.dump(dict(property=a.id, facet=k, case=f['case'], message=f['message']), fh, indent=1)
            print('facet %s: %s\ncase: %s' % (k, f['message'][-1800:], json.dumps(f['case'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (a.id, p))
        return 1
    if errors:
        print('HARNESS ERROR\n' + '\n'.join(errors[:1])[:2500])
        return 2
    return 0


def load_meta(pid):
    class M: ASSUMPTIONS = []
    try:
        import re
        src = open(os.path.join(ROOT, 'checks', pid.lower() + '.py')).read()
        m = re.search(r'^ASSUMPTIONS = (\[.*?\])\n', src, re.S | re.M)
        if m: M.ASSUMPTIONS = eval(m.group(1))
    except OSError:
        pass
    return M


if __name__ == '__main__':
    sys.exit(main())
