"""development: run harness programs  runh.py [-s seconds] [-r repo] C01 ..."""
import sys, os, shutil, tempfile, time, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import harn, prog
a = sys.argv[1:]; sec = 3; repo = '/repo'; seed = 1; case = None
while a and a[0].startswith('-'):
    if a[0] == '-s': sec = float(a[1])
    if a[0] == '-r': repo = a[1]
    if a[0] == '-S': seed = int(a[1])
    if a[0] == '-c': case = int(a[1])
    a = a[2:]
for i in a or ['C%02d' % k for k in range(1, 27)]:
    w = tempfile.mkdtemp(prefix='runh'); gen = prog.gen_version(repo, w + '/gen')
    h = harn.Harness(repo, w, i, gen); t = time.time()
    if not h.build(): print(i, 'BUILD', h.error); shutil.rmtree(w); continue
    tb = time.time() - t; t = time.time()
    if case is not None: print(h.replay(seed, case)[0]); shutil.rmtree(w); continue
    st, f = h.run(seed, 8, sec)
    print(i, 'build %.1f run %.1f' % (tb, time.time() - t), st, 'FAIL' if f else 'ok', flush=True)
    if f: print(f['text'][:1500]); print(h.replay(seed, f['case'])[0][:3000])
    shutil.rmtree(w)
