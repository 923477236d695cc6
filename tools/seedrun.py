"""Run the quick check of each planted bug's property against a patched copy of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    s = ROOT + '/seeded/' + i
    prop = json.load(open(s + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seedrun_')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    subprocess.check_call(['git', 'apply', s + '/patch.diff'], cwd=d + '/repo')
    env = dict(os.environ, CGPM_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
    out = subprocess.run(['/opt/venv/bin/python', ROOT + '/run.py', prop, 'quick'], env=env,
                         capture_output=True, text=True)
    caught = out.returncode == 1 and re.search(r'^VIOLATION property=%s ' % prop, out.stdout, re.M)
    lines = [l for l in out.stdout.splitlines() if l.startswith('  [')]
    print(i, prop, 'CAUGHT' if caught else 'MISSED rc=%d' % out.returncode, (lines or [''])[0][:120], out.stderr[-200:] if out.returncode not in (0,1) else '', flush=True)
    shutil.rmtree(d)
