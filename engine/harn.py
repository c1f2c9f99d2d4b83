"""Builds and runs the executable oracle (harness/) against /repo's current sources."""
import os, re, subprocess, sys, glob, time, concurrent.futures, signal, hashlib, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'harness')
CXX = '/usr/bin/clang++-18'
SAN = ['-std=c++20', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-w']
TABLES = ('CharClassTables', 'CaseTables', 'NormalizationTables')

def literals(repo):
    """integer literals of the (non-table) sources"""
    r = set()
    for p in glob.glob(repo + '/src/Ystring/*') + glob.glob(repo + '/include/Ystring/*'):
        if not os.path.isfile(p) or any(t in p for t in TABLES): continue
        t = open(p, errors='replace').read()
        t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlLzZ]*\b", t):
            try: r.add(int(m.group(1).replace("'", ''), 0) & 0xFFFFFFFFFFFFFFFF)
            except ValueError:
                try: r.add(int(m.group(1).replace("'", '')))
                except ValueError: pass
        for m in re.finditer(r"'(\\?[^'\n])'", t):
            c = m.group(1)
            if len(c) == 1: r.add(ord(c))
    return r

class Harness:
    def __init__(s, repo, work, prog_id, gen):
        s.repo, s.work, s.id = repo, work, prog_id
        s.gen = gen
        s.exe = os.path.join(work, 'harness_' + prog_id)
        s.error = None; s.corpus = None
        s.consts = os.path.join(work, 'consts.txt')
        s.ucd = os.path.join(ROOT, 'data', 'ucd16.txt')
    def build(s):
        inc = ['-I' + s.repo + '/include', '-I' + s.repo + '/src', '-I' + s.repo + '/src/Ystring', '-I' + s.gen, '-I' + H]
        srcs = sorted(glob.glob(s.repo + '/src/Ystring/*.cpp')) + [H + '/main.cpp', H + '/%s.cpp' % s.id]
        def comp(p):
            o = os.path.join(s.work, os.path.basename(p)[:-4] + '.san.o')
            r = subprocess.run([CXX] + SAN + inc + ['-c', p, '-o', o], capture_output=True, text=True)
            return (o, None) if r.returncode == 0 else (None, r.stderr[-3000:])
        with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, srcs))
        bad = [e for o, e in res if o is None]
        if bad: s.error = bad[0]; return False
        r = subprocess.run([CXX] + SAN[1:] + [o for o, _ in res] + ['-o', s.exe], capture_output=True, text=True)
        if r.returncode: s.error = r.stderr[-3000:]; return False
        base = set(int(x) for x in open(os.path.join(ROOT, 'data', 'literals.txt')).read().split())
        now = literals(s.repo)
        new = sorted(now - base)
        with open(s.consts, 'w') as f: f.write('%d\n' % len(new) + '\n'.join(str(x) for x in new + sorted(now & base)) + '\n')
        s.new = new
        return True
    def sources(s):
        h = hashlib.sha256()
        for f in ('h.hpp', 'impl.hpp', 'main.cpp', s.id + '.cpp'): h.update(open(os.path.join(H, f), 'rb').read())
        return h.hexdigest()
    def validated(s, seed):
        """number of cases with this seed that the oracle is known to judge rightly on the tree the contracts were proved on"""
        try: v = json.load(open(os.path.join(ROOT, 'data', 'validated.json'))).get(s.id)
        except OSError: return None
        return v['cases'] if v and v['seed'] == seed and v['sources'] == s.sources() else None
    def env(s):
        e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000'; e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        if s.corpus: e['HCORPUS'] = s.corpus
        else: e.pop('HCORPUS', None)
        return e
    def run(s, seed, parts, seconds, limit=None, cases=None):
        """-> (stats, failure or None). failure = dict(case, text)"""
        limit = limit or seconds + 400
        ps = []
        for i in range(parts):
            f = open(os.path.join(s.work, 'h%d.out' % i), 'wb')
            ps.append((subprocess.Popen([s.exe, s.ucd, s.consts, str(seed), str(i), str(parts), str(seconds)] + ([str(cases)] if cases else []), stdout=f, stderr=subprocess.STDOUT, env=s.env()), f))
        t0 = time.time(); st = dict(cases=0, evaluations=0, exhaustive=0, nontrivial=0); fail = None; err = []; least = None
        while True:
            alive = False
            for p, f in ps:
                if p.poll() is None: alive = True
                elif p.returncode not in (0,) and fail is None:
                    fail = -1
            if fail is not None or not alive: break
            if time.time() - t0 > limit: break
            time.sleep(0.02)
        for p, f in ps:
            if p.poll() is None:
                if fail is not None:
                    try: p.wait(1.0)
                    except subprocess.TimeoutExpired: pass
                if p.poll() is None: p.kill()
                p.wait()
            f.close()
        fail = None
        for i, (p, f) in enumerate(ps):
            t = open(f.name, 'rb').read().decode('utf-8', 'replace')
            m = re.search(r'DONE cases=(\d+) evaluations=(\d+) exhaustive=(\d+) nontrivial=(\d+)', t)
            if m:
                for k, v in zip(st, m.groups()): st[k] += int(v)
                least = int(m.group(1)) if least is None else min(least, int(m.group(1)))
                continue
            m = re.search(r'FAIL case=(\d+)', t)
            if m:
                c = dict(case=int(m.group(1)), text=t[-6000:] if len(t) > 6000 else t)
                if fail is None or c['case'] < fail['case']: fail = c
            elif p.returncode not in (0, -9): err.append((p.returncode, t[-1000:]))
        st['errors'] = err; st['upto'] = (least or 0) * parts
        return st, fail
    def replay(s, seed, case, timeout=60):
        try: r = subprocess.run([s.exe, s.ucd, s.consts, str(seed), 'case', str(case)], capture_output=True, env=s.env(), timeout=timeout)
        except subprocess.TimeoutExpired as e: return (e.stdout or b'').decode('utf-8', 'replace')[-8000:] + '\n(timeout)', 1
        t = r.stdout.decode('utf-8', 'replace'); e = r.stderr.decode('utf-8', 'replace')
        return t[-8000:] + ('\n' + e[:6000] if e else ''), r.returncode
