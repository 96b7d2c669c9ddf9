#!/usr/bin/env python3
"""Branch coverage of /repo under one shard of every check: cover.py [--scale=X] [C01 ...]
(a measure for the author: no check depends on it)"""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if len(sys.argv) > 1 and sys.argv[1] == '--inner':
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import coverage
    pid, data, out, scale = sys.argv[2:6]
    c = coverage.Coverage(data_file=data, branch=True, include=['/repo/*', '/opt/causets-path/*'], messages=False)
    c.start()
    sys.path.insert(0, V)
    sys.argv = ['run.py', pid, '--shard', '0', '--out', out, '--scale', scale]
    from pbt import run
    run.main()
    c.stop()
    c.save()
    sys.exit(0)
scale = next((x[8:] for x in sys.argv[1:] if x.startswith('--scale=')), '1')
ids = [x for x in sys.argv[1:] if not x.startswith('--')] or ['C%02d' % i for i in range(1, 30)]
d = tempfile.mkdtemp(prefix='cover-', dir='/tmp')
try:
    env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH='/opt/causets-path', PYTHONHASHSEED='0')
    ps = []
    for i in ids:
        if len(ps) >= 4:
            ps.pop(0).wait()
        ps.append(subprocess.Popen([PY, '-W', 'ignore', __file__, '--inner', i, f'{d}/{i}.cov', f'{d}/{i}', scale], env=env, cwd=d))
    for p in ps:
        p.wait()
    s = '''import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import coverage, glob
c = coverage.Coverage(data_file='%s/all', branch=True, include=['/repo/*'], messages=False)
c.combine(glob.glob('%s/*.cov'), keep=True)
c.report(show_missing=True, omit=['*/test_*', '*/demo.py'])
''' % (d, d)
    subprocess.run([PY, '-c', s], cwd=d)
finally:
    shutil.rmtree(d)
