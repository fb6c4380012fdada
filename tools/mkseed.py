"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it in a scratch copy of /repo.

A seed file defines PROPERTY, FILE, OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO (python source).
usage: python3 tools/mkseed.py [--only-run] ID...
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PRE = '''import sys, types
sys.path.insert(0, '.')
sys.setrecursionlimit(5000)
from distutils import spawn
spawn.find_executable = lambda name, path=None: '/bin/true'
try:
    import expjobs
except ImportError:
    for name in ('expjobs', 'expjobs.job', 'expjobs.pool', 'expjobs.process'):
        sys.modules.setdefault(name, types.ModuleType(name))
import numpy as np
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch (run with cwd /repo)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def build(sid):
    m = runpy.run_path(os.path.join(HERE, 'tools', 'seeds', sid + '.py'))
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r)
        edits = m.get('EDITS') or [(m['FILE'], m['OLD'], m['NEW'])]
        demo = os.path.join(d, 'demo.py')
        with open(demo, 'w') as f:
            f.write(PRE + m['DEMO'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        x = sh('bash', os.path.join(d, 'demo.sh'), cwd=r)
        if x.returncode:
            return 'demo fails on the unchanged tree:\n' + x.stdout[-1500:]
        base = sh('git', 'diff', '-U0', 'a67ac76', 'HEAD', cwd=r).stdout
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%d matches of the text to replace in %s' % (s.count(old), f)
            b = sh('git', 'show', 'a67ac76:' + f, cwd=r).stdout
            with open(p, 'w') as g:
                g.write(s.replace(old, new))
        diff = sh('git', 'diff', cwd=r).stdout
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---'):
                if '\n+' + l[1:] + '\n' in base:
                    return 'changes a line of a fix commit: ' + l
        with open(os.path.join(d, 'patch.diff'), 'w') as g:
            g.write(diff)
        y = sh('bash', os.path.join(d, 'demo.sh'), cwd=r)
        if y.returncode == 0:
            return 'demo passes with the patch'
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider',
               'tests', '--maxfail=1000', cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
        tail = t.stdout.strip().splitlines()[-1]
        with open(os.path.join(d, 'meta.json'), 'w') as g:
            json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, g, indent=1)
        if ' 198 passed' not in tail:
            return 'TESTS ' + tail
        return 'ok demo=%s tests: %s' % (y.stdout.strip().splitlines()[-1][:100] if y.stdout else '', tail)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for s in sys.argv[1:]:
    print(s, build(s))
