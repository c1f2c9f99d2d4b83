"""development: run the oracle on /repo for long, record how far it agrees  validate.py [-s seconds] [-p processes] [-S seed] [ids]
(a check whose obligations are all discharged does not look further than that; with another seed than 1 nothing is recorded)"""
import sys, os, shutil, tempfile, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import harn, prog
a = sys.argv[1:]; sec = 100; par = 8; seed = 1
while a and a[0].startswith('-'):
    if a[0] == '-s': sec = float(a[1])
    if a[0] == '-p': par = int(a[1])
    if a[0] == '-S': seed = int(a[1])
    a = a[2:]
F = os.path.join(harn.ROOT, 'data', 'validated.json')
for i in a or ['C%02d' % k for k in range(1, 27)]:
    w = tempfile.mkdtemp(prefix='validate'); h = harn.Harness('/repo', w, i, prog.gen_version('/repo', w + '/gen'))
    if not h.build(): print(i, 'BUILD', h.error); shutil.rmtree(w); continue
    st, f = h.run(seed, par, sec)
    print(i, st, 'FAIL' if f else 'ok', flush=True)
    if f: print(f['text'][:1500]); print(h.replay(seed, f['case'])[0][:3000], flush=True)
    elif seed == 1 and not st['errors']:
        v = json.load(open(F)) if os.path.exists(F) else {}
        v[i] = dict(seed=seed, cases=st['upto'], sources=h.sources()); json.dump(v, open(F, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(w)
