"""helper used interactively: plant(id, prop, needs, breaks, [(file, old, new)...], demo_python)"""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(sid, prop, needs, breaks, edits, demo):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mk_')
    try:
        shutil.copytree('/repo', tmp + '/r')
        for f, old, new in edits:
            p = '%s/r/%s' % (tmp, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=tmp + '/r', text=True)
    finally:
        shutil.rmtree(tmp)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds on the example; nonzero: it is broken\n'
                                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                    'exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
