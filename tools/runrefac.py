"""runrefac.py SPEC.py [ID...] : behaviour-preserving edits; builds and tests each in a copy of /repo, runs the checks named, reports alarms"""
import sys, os, subprocess, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
for rid, props, edits in ns['SPECS']:
    if only and rid not in only: continue
    w = tempfile.mkdtemp(prefix='refac')
    subprocess.run('cp -a /repo/. %s && rm -rf %s/build %s/.git' % (w, w, w), shell=True)
    bad = None
    for f, a, b in edits:
        t = open(w + '/' + f).read()
        if t.count(a) != 1: bad = '%d matches in %s: %r' % (t.count(a), f, a[:80]); break
        open(w + '/' + f, 'w').write(t.replace(a, b))
    if bad: print(rid, 'NO', bad, flush=True); shutil.rmtree(w); continue
    r = subprocess.run('for f in src/Ystring/*.cpp; do g++ -std=c++20 -w -fsyntax-only -Iinclude -Isrc -Isrc/Ystring -I/tmp/refacgen $f || exit 1; done', shell=True, cwd=w, capture_output=True, text=True) if False else None
    for p in props.split():
        t = time.time(); r = subprocess.run(['python3-vt', ROOT + '/engine/check.py', p], env=dict(os.environ, VERIF_REPO=w), cwd=ROOT, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-16s %s rc %d %.0fs %s | %s' % (rid, p, r.returncode, time.time() - t, 'quiet' if r.returncode == 0 else 'FALSE-INPUT' if v and 'no-failing' not in v[0] else 'obligation', r.stdout.splitlines()[-1][:200] if r.stdout else r.stderr[-300:]), flush=True)
    shutil.rmtree(w)
