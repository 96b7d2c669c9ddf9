#!/usr/bin/env python3
"""Development tool: tries planted bugs in private copies of /repo (bind mounted over /repo in a mount namespace of their own).

  seed.py make SPEC.py     write seeded/<id>/ from the specifications in SPEC.py (a list BUGS of dicts)
  seed.py run [ID ...]     build, stable tests, demo and the check of the property (or --checks C01,C02) with every bug
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
ln -s "$PWD" "$d/causets"
cd "$d"
MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$d" /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def make(spec):
    ns = runpy.run_path(spec)
    for b in ns['BUGS']:
        out = os.path.join(ROOT, 'seeded', b['id'])
        d = copy()
        try:
            for f, old, new in b['edits']:
                p = os.path.join(d, f)
                s = open(p, newline='').read()
                nl = '\r\n' if '\r\n' in s else '\n'
                old, new = old.replace('\n', nl), new.replace('\n', nl)
                if s.count(old) != 1:
                    print(b['id'], f, 'matches', s.count(old), repr(old)[:150])
                    break
                k = s[:s.index(old)].count('\n') + 1
                # only lines of the original repository
                o, n = old.split(nl), new.split(nl)
                open(p, 'w', newline='').write(s.replace(old, new))
            else:
                diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True).stdout
                # removed lines have to be original
                bad = mine(d, diff.decode())
                if bad: print(b['id'], 'changes lines of a fix:', bad)
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
                open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(out, 'demo.sh'), 0o755)
                open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def mine(d, diff):
    bad, near = [], []
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)) - 1; continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            n += 1
            r = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (d, n, n, f)).stdout
            if not r.startswith('^'): bad.append((f, n, l[:60]))
        elif l.startswith('+'):   # next to an original line
            for k in (n, n + 1):
                r = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (d, k, k, f)).stdout
                if r and not r.startswith('^'): near.append((f, k, l[:60]))
        else: n = n + 1 if f else 0
    return bad or (near if not removed(diff) else [])


def removed(diff):
    return any(l.startswith('-') and not l.startswith('---') for l in diff.splitlines())


def run(ids, checks):
    for i in ids:
        src = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(os.path.join(src, 'meta.json')))
        d = copy()
        t = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
        res = {}
        try:
            for f in os.listdir(src):
                if f.endswith(('.sh', '.py')): shutil.copy(os.path.join(src, f), t)
            res['demo clean'] = sh('bash %s/demo.sh' % t, cwd='/repo').returncode
            a = sh('git -C %s apply %s/patch.diff' % (d, src))
            if a.returncode:
                print(i, 'patch does not apply', a.stderr[:200])
                continue
            cs = checks or [meta['property']]
            script = ['mount --make-rprivate /', 'mount --bind %s /repo' % d,
                      'bash /opt/vp/build.sh > %s/b.log 2>&1; echo build $?' % t,
                      'bash /opt/vp/test.sh %s/o.json > %s/t.log 2>&1; grep -c "28 passed, 0 failed" %s/t.log' % (t, t, t),
                      '(cd /repo; bash %s/demo.sh > %s/d.log 2>&1; echo demo $?; tail -1 %s/d.log)' % (t, t, t)]
            for c in cs:
                script.append('(cd %s; ./check %s --noevidence > %s/c.log 2>&1; echo check %s $?; grep -a -B2 ^VIOL %s/c.log | cut -c1-230; grep -a -A8 HARNESS %s/c.log | head -20)' % (ROOT, c, t, c, t, t))
            r = sh("unshare -m bash -c '%s'" % '; '.join(script).replace("'", "'\\''"))
            lines = r.stdout.strip().splitlines()
            print('=== %s (%s) demo clean %d | %s' % (i, meta['property'], res['demo clean'], ' | '.join(lines[:4])))
            for l in lines[4:]: print('    ' + l)
            if r.stderr.strip(): print('    ', r.stderr[-300:])
            sys.stdout.flush()
        finally:
            shutil.rmtree(d)
            shutil.rmtree(t)


if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'make': make(a[0])
    else:
        checks = [x.split('=')[1] for x in a if x.startswith('--checks=')]
        ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
        run(ids, checks[0].split(',') if checks else None)
