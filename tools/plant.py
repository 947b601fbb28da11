#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in a scratch copy of /repo, and say which checks catch them.

For each /verif/seeded/ID: the patch applies to /repo's HEAD, the stable tests still pass, demo.sh exits 0 without and
nonzero with it.  Then every check runs against the patched copy (SA_REPO).  Not used by any check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PIP_NO_INDEX='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo, tmp):
    sh('/opt/venv/bin/python -m pytest rosemary -q -p no:cacheprovider -n 4 --timeout=60 --continue-on-collection-errors --doctest-modules '
       '-o doctest_optionflags=NORMALIZE_WHITESPACE --randomly-seed=2 --randomly-dont-reorganize -o junit_family=xunit2 --junitxml=%s/junit.xml' % tmp,
       repo, env=dict(ENV, PYTHONPATH=repo))
    sh('/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (tmp, tmp), repo)
    return STABLE - set(json.load(open(tmp + '/out.json'))['passed'])


def one(sid, full=True):
    d = os.path.join(V, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='plant_')
    out = []
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        meta = json.load(open(d + '/meta.json'))
        if full:
            dd = tmp + '/demo'
            shutil.copytree(d, dd)
            for f in ('patch.diff', 'meta.json'):
                os.remove(dd + '/' + f)
            r0 = sh('timeout 300 bash %s/demo.sh' % dd, repo, env=ENV)
        r = sh('git apply %s/patch.diff' % d, repo)
        if r.returncode:
            return sid, ['PATCH DOES NOT APPLY: ' + r.stdout]
        if full:
            r1 = sh('timeout 300 bash %s/demo.sh' % dd, repo, env=ENV)
            out.append('demo %s/%s' % (r0.returncode, r1.returncode))
            if r0.returncode or not r1.returncode:
                out.append('DEMO BAD: %s ||| %s' % (r0.stdout[-300:], r1.stdout[-300:]))
            miss = tests(repo, tmp)
            out.append('tests ok' if not miss else 'TESTS FAIL %s' % sorted(miss)[:5])
        caught = []
        for p in [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]:
            r = sh('SA_REPO=%s SA_EVIDENCE=%s python3 %s/check.py %s' % (repo, tmp, V, p), V)
            if r.returncode == 1:
                caught.append(p)
            elif r.returncode:
                caught.append(p + '(exit %d: %s)' % (r.returncode, r.stdout[-200:]))
        out.append('property %s caught by %s%s' % (meta['property'], caught, '' if meta['property'] in caught else '   <-- MISSED'))
    finally:
        shutil.rmtree(tmp)
    return sid, out


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    full = '--checks' not in sys.argv
    with ThreadPoolExecutor(3 if full else 7) as ex:
        for sid, out in ex.map(lambda s: one(s, full), args):
            print(sid, '; '.join(out), flush=True)
