"""Build /verif/seeded/<id>/ from a python description; verify the demonstration.

usage: seed.py FILE.py ...   each defines SEEDS = [dict(id, prop, subs=[(path, old, new)...],
demo=str, needs=str, breaks=str)].  Only a bug whose demonstration passes on /repo and fails with
the patch is kept."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '6cea153'
HEAD = '''"""Demonstration; run with cwd /repo. Exit 0 when the property holds."""
import os, sys, itertools, math
sys.dont_write_bytecode = True
os.environ['CGPM_REPO'] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py2load; py2load.install()
import numpy as np
'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
def main():
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)["SEEDS"]:
            if os.path.exists(os.path.join(ROOT, "seeded", s["id"], "meta.json")): continue
            build(s)
def build(s):
    d = tempfile.mkdtemp(prefix='seed_')
    r = d + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for path, old, new in s['subs']:
        p = r + '/src/' + path
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], path, t.count(old))
        base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':src/' + path]).decode()
        changed = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        missing = [l for l in changed if l not in base.splitlines()]
        if missing:
            print(s['id'], 'WARNING: changes lines absent from the original:', missing)
        open(p, 'w').write(t.replace(old, new))
    out = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write(SH); os.chmod(out + '/demo.sh', 0o755)
    shutil.copy(ROOT + '/lib/py2load.py', out + '/py2load.py')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    good = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
    ok = good.returncode == 0 and bad.returncode not in (0, 124)
    print(s['id'], s['prop'], 'clean', good.returncode, 'patched', bad.returncode, 'OK' if ok else 'REJECTED')
    if not ok:
        print(good.stdout[-300:], good.stderr[-800:], bad.stdout[-300:], bad.stderr[-500:])
        shutil.rmtree(out)
    else:
        print('    ', bad.stderr.strip().splitlines()[-1][:150] if bad.stderr.strip() else '')
    shutil.rmtree(d)
main()
