"""Records, for the unchanged tree, which contracts are proved and the hash of the code they cover (data/proved.json)."""
import sys, os, json, tempfile, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import check, prog, contracts
w = tempfile.mkdtemp()
try:
    p = prog.Prog('/repo', w); p.contracts = contracts.C
    ts = contracts.tasks(); res = check.prove(p, [t.name for t in ts], 400, time.time() + 3000)
    out = {}
    for t in ts:
        r = res[t.name]; s = check.status(r); out[t.name] = dict(status=s, hash=check.fnhash(p, t), obligations=r['nobl'])
        if s != 'proved' or r['time'] > 20: print('%-70s %s %d/%d %.1fs %s' % (t.name[:70], s, r['ndis'], r['nobl'], r['time'], r['error'] or r['fails'][:2]))
    json.dump(dict(engine=check.enghash(), tasks=out), open(os.path.join(check.ROOT, 'data', 'proved.json'), 'w'), indent=0, sort_keys=True)
    print(sum(q['status'] == 'proved' for q in out.values()), 'of', len(out), 'proved;', sum(r['nobl'] for r in res.values()), 'obligations; cpu %.0f s' % sum(r['time'] for r in res.values()))
finally: shutil.rmtree(w)
