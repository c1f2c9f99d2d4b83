"""runseeds.py [ID...] : runs the check of each seeded bug's property on a patched copy of /repo"""
import sys, os, subprocess, json, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    d = ROOT + '/seeded/' + i; m = json.load(open(d + '/meta.json')); w = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['cp', '-a', '/repo/include', '/repo/src', w]); subprocess.run(['git', 'init', '-q', w])
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, capture_output=True, text=True)
    if r.returncode: print(i, 'patch does not apply', r.stderr); continue
    t = time.time(); r = subprocess.run(['python3-vt', ROOT + '/engine/check.py', m['property']], env=dict(os.environ, VERIF_REPO=w), cwd=ROOT, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-22s %s rc %d %.0fs %s | %s' % (i, m['property'], r.returncode, time.time() - t, 'INPUT' if v and 'no-failing' not in v[0] else 'obligation' if v else 'MISSED', r.stdout.splitlines()[-1][:260] if r.stdout else r.stderr[-300:]), flush=True)
    shutil.rmtree(w)
