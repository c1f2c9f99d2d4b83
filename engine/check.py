"""Decides one property: check.py Cnn [--replay CASE]. Environment: VERIF_SEED, VERIF_TIER."""
import sys, os, json, time, re, hashlib, tempfile, shutil, multiprocessing, signal, traceback
sys.setrecursionlimit(100000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
REPO = os.environ.get('VERIF_REPO', '/repo')
import z3, prog, contract, contracts, harn
from sx import Unsupported

ASSUMPTIONS = [
    'the LLVM IR that clang 18 emits at -O0 (x86-64, -std=c++20) is taken as the meaning of the C++ source; every function of it that is reached is executed symbolically, except the standard library operations listed under models',
    'std::string, std::vector, the searching algorithms, exceptions and the other operations listed under models behave as their model in engine/stdmodel.py says; memory allocation does not fail',
    'views and strings passed in have fewer than 2^32 bytes (2^32-1 at most), and distinct view or string arguments do not overlap memory that the function writes',
    'the obligation generator (engine/*.py) and its integer translation of bit-vector terms (engine/intabs.py) are sound; z3 is sound',
]

def enghash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(ROOT, 'engine'))):
        if f.endswith(('.py', '.cpp')) and f not in ('check.py', 'harn.py', 't.py'): h.update(open(os.path.join(ROOT, 'engine', f), 'rb').read())
    return h.hexdigest()[:16]

def fnhash(p, c):
    """hash over the IR of everything the task can reach"""
    seen = set(); todo = c.roots(p); h = hashlib.sha256()
    out = []
    while todo:
        m, n = todo.pop()
        if n in seen: continue
        seen.add(n)
        t = m.fnsrc.get(n); mm = m
        if t is None and n in p.index: mm = p.index[n]; t = mm.fnsrc.get(n)
        if t is None: t = m.globsrc.get(n)
        if t is None: out.append('decl ' + n); continue
        if isinstance(t, (list, tuple)): t = '\n'.join(t)
        out.append(re.sub(r'#\d+|![\w.]+( !\d+)?', '', t))
        for q in re.findall(r'@("[^"]+"|[\w.$]+)', t): todo.append((mm, q.strip('"')))
    for t in sorted(out): h.update(t.encode())
    return h.hexdigest()[:16]

def pack(r):
    models = sorted(r.models)
    return dict(name=r.name, sig=r.sig, kind=r.kind, error=r.error, nobl=r.nobl, ndis=r.ndis, time=round(r.time, 2), stime=round(r.stime, 2), calls=r.solvercalls, used=sorted(r.used), inlined=sorted(r.inlined), models=models,
        kinds=r.kinds, cuts=[(a, b, len(c), d) for a, b, c, d in r.cuts], fams=sorted(getattr(r, 'fams', ())), trusted=sorted(getattr(r, 'trusted', ())), cover=getattr(r, 'cover', None), byint=getattr(r, 'byint', 0),
        fails=[dict(what=f.what, where=f.where, verdict=f.verdict, inputs=f.inputs, detail=f.detail) for f in r.fails[:12]])

def worker(conn, p, tasks, budget):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    while True:
        try: i = conn.recv()
        except EOFError: return
        if i is None: return
        try: r = pack(tasks[i].run(p, budget))
        except BaseException as e:
            r = dict(name=tasks[i].name, sig=getattr(tasks[i], 'sig', ''), kind='?', error='engine: %s: %s' % (type(e).__name__, str(e)[:300]), nobl=0, ndis=0, time=0, stime=0, calls=0, used=[], inlined=[], models=[], kinds={}, cuts=[], fams=[], trusted=[], cover=None, byint=0, fails=[], tb=traceback.format_exc()[-3000:])
        conn.send((i, r))

def prove(p, first, budget, deadline, nproc=8, more=None):
    """runs the tasks and (transitively) those they rely on; -> {name: packed result}"""
    tasks = contracts.tasks(); byname = {t.name: [i] for i, t in enumerate(tasks)}
    for i, t in enumerate(tasks):
        if getattr(t, 'parts', 1) > 1: byname.setdefault(t.base, []).append(i)
    ctx = multiprocessing.get_context('fork')
    todo = [i for n in first for i in byname[n]]; seen = set(todo); res = {}; idle = []; busy = {}
    procs = []
    todo.sort(key=lambda i: -tasks[i].weight)
    def spawn():
        a, b = ctx.Pipe(); pr = ctx.Process(target=worker, args=(b, p, tasks, budget), daemon=True); pr.start(); b.close()
        procs.append(pr); return a, pr
    conns = []
    while todo or busy:
        while todo and (idle or len(conns) < nproc):
            if not idle:
                c = spawn(); conns.append(c); idle.append(c)
            c = idle.pop(); i = todo.pop(0); c[0].send(i); busy[c] = (i, time.time())
        ready = multiprocessing.connection.wait([c[0] for c in busy], timeout=1.0)
        for c in list(busy):
            i, t0 = busy[c]
            if c[0] in ready:
                try: i, r = c[0].recv()
                except EOFError: r = dict(name=tasks[i].name, sig='', kind='?', error='engine: worker died', nobl=0, ndis=0, time=0, stime=0, calls=0, used=[], inlined=[], models=[], kinds={}, cuts=[], fams=[], trusted=[], cover=None, byint=0, fails=[]); conns.remove(c)
                else: idle.append(c)
                del busy[c]; res[tasks[i].name] = r
                for n in list(r['used']) + ['facts of ' + f for f in r['fams']]:
                    for j in byname.get(n, ()):
                        if j not in seen: seen.add(j); todo.append(j)
            elif time.time() - t0 > budget + 60 or time.time() > deadline:
                c[1].kill(); conns.remove(c); del busy[c]
                res[tasks[i].name] = dict(name=tasks[i].name, sig='', kind='?', error='Budget: killed', nobl=0, ndis=0, time=time.time() - t0, stime=0, calls=0, used=[], inlined=[], models=[], kinds={}, cuts=[], fams=[], trusted=[], cover=None, byint=0, fails=[])
        if time.time() > deadline:
            for i in todo: res[tasks[i].name] = dict(name=tasks[i].name, sig='', kind='?', error='Budget: not started', nobl=0, ndis=0, time=0, stime=0, calls=0, used=[], inlined=[], models=[], kinds={}, cuts=[], fams=[], trusted=[], cover=None, byint=0, fails=[])
            todo = []
    for c in conns:
        try: c[0].send(None)
        except OSError: pass
    for pr in procs:
        pr.join(0.2)
        if pr.is_alive(): pr.kill()
    return res
import multiprocessing.connection

def status(r):
    if r['error']: return 'tool'
    if r['fails'] or r['ndis'] != r['nobl']: return 'failed'
    if r['nobl'] == 0: return 'tool'
    return 'proved'

def baseline():
    try: return json.load(open(os.path.join(ROOT, 'data', 'proved.json')))
    except OSError: return {}

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    thorough = tier == 'thorough'
    work = tempfile.mkdtemp(prefix='ystring-check-')
    try: rc = check(pid, tier, seed, thorough, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def check(pid, tier, seed, thorough, work, t0):
    gen = prog.gen_version(REPO, os.path.join(work, 'gen'))
    hs = harn.Harness(REPO, work, pid, gen)
    if '--replay' in sys.argv:
        i = sys.argv.index('--replay'); hs.build()
        if len(sys.argv) > i + 2: hs.corpus = sys.argv[i + 2]
        t, rc = hs.replay(seed, sys.argv[i + 1]); print(t); return rc
    p = prog.Prog(REPO, os.path.join(work, 'ir'))
    p.contracts = contracts.C
    for f, e in p.errors: print('note: does not compile: %s\n%s' % (f, e[-600:]))
    tasks = contracts.tasks(); own = [t.name for t in tasks if pid in t.props]
    # the oracle program is compiled while the proofs run
    ctx = multiprocessing.get_context('fork'); q = ctx.SimpleQueue()
    def hb(): hs.build(); q.put((hs.error, getattr(hs, 'new', [])))
    hp = ctx.Process(target=hb, daemon=False); hp.start()
    budget = 400 if thorough else 200
    res = prove(p, own, budget, t0 + (600 if thorough else 420))
    hp.join(); hs.error, hs.new = q.get()
    base = baseline(); same_engine = base.get('engine') == enghash()
    bym = {t.name: t for t in tasks}
    alarms = []; limits = []; openb = []; resource = []
    for n, r in sorted(res.items()):
        r['status'] = status(r)
        if r['status'] == 'proved': continue
        b = base.get('tasks', {}).get(n)
        if b is None or b['status'] != 'proved': openb.append(n); continue
        try: h = fnhash(p, bym[n])
        except Exception: h = None
        if same_engine and h == b['hash'] and not any(f['verdict'] == 'sat' for f in r['fails']): resource.append(n); continue
        (limits if r['status'] == 'tool' else alarms).append(n)
    # ---- search for failing inputs with the executable oracle
    st = None; fail = None; search = 0.0
    rep = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rep, f))
    if hs.error is None:
        corp = [bytes(v) for n in alarms for f in res[n]['fails'] for v in (f['inputs'] or {}).values() if isinstance(v, list) and all(b < 256 for b in v)]
        if corp:
            hs.corpus = os.path.join(rep, pid + '-corpus.txt')
            with open(hs.corpus, 'w') as f: f.write('\n'.join(c.hex() for c in corp[:60]) + '\n')
        sec = float(os.environ.get('VERIF_SEARCH', 0)) or (120 if thorough else 6)
        if alarms or limits: sec = max(sec, 60)
        st, fail = hs.run(seed, 8, sec, cases=None if alarms or limits or openb else hs.validated(seed)); search = sec
        if fail is None and st['errors']:
            print('note: the oracle program ended abnormally: %s' % (st['errors'][0],))
    else: print('note: the oracle program cannot be built against this tree:\n' + hs.error[-1500:])
    known = knownfindings(pid)
    violations = []
    viol = None
    if fail:
        text, rc = hs.replay(seed, fail['case'])
        k = next((k for k in known if re.search(k[1], fail['text'] + text)), None)
        if k is None:
            viol = os.path.join(rep, pid + '-input.txt')
            with open(viol, 'w') as f:
                f.write('Property %s fails on the code in %s\n\n%s\n\nReplay: cd /verif && VERIF_SEED=%d python3-vt engine/check.py %s --replay %s%s\nThe last CALL line is the failing call, followed by what was expected and what it gave.\n\n%s\n' % (pid, REPO, fail['text'], seed, pid, fail['case'], ' ' + hs.corpus if hs.corpus else '', text))
                for n in alarms: f.write('\nFailed obligations of %s:\n%s\n' % (n, json.dumps(res[n]['fails'], indent=1)))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol)); print(fail['text'][:2500]); violations.append(dict(replay=viol, failing_input=True, obligations=alarms))
    elif alarms:
        viol = os.path.join(rep, pid + '-obligation.txt')
        with open(viol, 'w') as f:
            f.write('Property %s: obligations that the verifier discharged on the original tree are not discharged on %s.\nNo failing input was found in %.0f s (%s evaluations).\n' % (pid, REPO, search, st and st['evaluations']))
            for n in alarms:
                f.write('\nFunction %s\n  contract: %s\n  %d of %d obligations discharged\n' % (n, res[n]['sig'], res[n]['ndis'], res[n]['nobl']))
                for x in res[n]['fails']: f.write('  FAILED %s in %s: solver says %s\n    %s\n    counterexample: %s\n' % (x['what'], x['where'], x['verdict'], x['detail'], x['inputs']))
            f.write('\nReproduce: cd /verif && python3-vt engine/check.py %s\n' % pid)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, viol)); violations.append(dict(replay=viol, failing_input=False, obligations=alarms))
    proved = [n for n, r in res.items() if r['status'] == 'proved']
    nobl = sum(r['nobl'] for r in res.values()); ndis = sum(r['ndis'] for r in res.values())
    for n in sorted(res, key=lambda n: n not in own):
        r = res[n]
        if os.environ.get('VERIF_VERBOSE'): print('  %-60s %s %d/%d %.1fs %s' % (n[:60], r['status'], r['ndis'], r['nobl'], r['time'], r['error'] or ''))
    import lib
    level = 'proof'
    standin = sorted(set(limits + openb)) + list(contracts.BOUNDED.get(pid, []))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(violations), assumptions=ASSUMPTIONS,
        coverage=dict(
            obligations=nobl, discharged=ndis,
            checker_cmd='python3-vt engine/check.py %s' % pid,
            trusted_base=ASSUMPTIONS + ['models used here: ' + '; '.join(sorted(set(m for r in res.values() for m in r['models'])))] + sorted(set('assumed: ' + lib.Fam.all[f].trusted for r in res.values() for f in r['fams'] if lib.Fam.all[f].trusted)),
            functions_under_contract=[dict(function=n, role='states the property' if n in own else 'relied on', kind=res[n]['kind'], signature=res[n]['sig'], status=res[n]['status'], obligations=res[n]['nobl'], discharged=res[n]['ndis'], obligation_kinds=res[n]['kinds'], loops_by_invariant=len(res[n]['cuts']), reachable=res[n]['cover'], seconds=res[n]['time'], solver_seconds=res[n]['stime'], error=res[n]['error']) for n in sorted(res, key=lambda n: (n not in own, n))],
            proved=len(proved), functions=len(res),
            inlined_into_their_callers=sorted(set(i for r in res.values() for i in r['inlined'])),
            back_ends=dict(z3=z3.get_version_string(), translated_to_integers=sum(r['byint'] for r in res.values()), bit_vectors=sum(r['calls'] - r['byint'] for r in res.values())),
            solver_s=round(sum(r['stime'] for r in res.values()), 2), solver_calls=sum(r['calls'] for r in res.values()),
            violation_list=violations, undischarged=alarms, tool_limit=limits, resource_limit_on_unchanged_text=resource,
            bounded_standin=dict(functions=standin, what='executable oracle harness/%s.cpp, compiled with address and undefined behaviour sanitizers; not proof' % pid, seconds=search, parts=8, **(st or {}), new_constants=getattr(hs, 'new', None), unavailable=hs.error is not None),
        ))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    print('%s: %d/%d functions proved, %d/%d obligations discharged; oracle: %s; %.1f s%s' % (pid, len(proved), len(res), ndis, nobl, 'unavailable' if hs.error else '%d evaluations' % st['evaluations'], time.time() - t0, ''.join('; %s: %s' % (a, ', '.join(b)) for a, b in (('undischarged', alarms), ('tool limit', limits), ('open', openb), ('resource limit', resource)) if b)))
    return 1 if violations else 0

def knownfindings(pid):
    out = []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) /(.*?)/ (.*)', l)
        if m and m.group(1) == pid: out.append((m.group(3), m.group(2)))
    return out

if __name__ == '__main__': main()
