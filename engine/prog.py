"""The program under verification: IR modules compiled from /repo, call dispatch, models of the
standard library operations that are not executed from their own code."""
import os, re, subprocess, sys, concurrent.futures, z3
import ir
from spec import *
from sx import *

CLANG = '/usr/bin/clang++-18'
HERE = os.path.dirname(os.path.abspath(__file__))

def norm(d):
    d = d.replace('[abi:cxx11]', '')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'sv').replace('std::basic_string_view<char32_t, std::char_traits<char32_t>>', 'sv32')
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    d = d.replace('std::__cxx11::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t>>', 'string32')
    d = re.sub(r'std::vector<([^<>]*(?:<[^<>]*>)?[^<>]*), std::allocator<\1>>', r'vector<\1>', d)
    return d

BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
         '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt9exception': []}

class Prog:
    def __init__(s, repo, work, inst=True):
        s.repo = repo; s.work = work; s.bypath = {}; s.tabs = {}; s.index = {}; s.contracts = []; s.tids = {}
        os.makedirs(work, exist_ok=True)
        srcs = sorted(os.path.join(repo, 'src/Ystring', f) for f in os.listdir(os.path.join(repo, 'src/Ystring')) if f.endswith('.cpp') and f != 'Subrange.cpp')
        if inst: srcs.append(os.path.join(HERE, 'inst.cpp'))
        gen = os.path.join(work, 'gen')
        s.flags = ['-std=c++20', '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/Ystring'), '-I' + gen_version(repo, gen)]
        s.errors = []
        def comp(p):
            out = os.path.join(work, os.path.basename(p)[:-4] + '.ll')
            r = subprocess.run([CLANG] + s.flags + ['-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-w', p, '-o', out], capture_output=True, text=True)
            if r.returncode: s.errors.append((p, r.stderr[-2000:])); return None
            return out
        with concurrent.futures.ThreadPoolExecutor(8) as ex: outs = list(ex.map(comp, srcs))
        for o in outs:
            if o is None: continue
            m = ir.Module(open(o).read(), o)
            s.bypath[o] = m
            for n in m.fnsrc:
                s.index.setdefault(n, m)
        names = set()
        for m in s.bypath.values(): names |= set(m.fnsrc) | m.decl
        names = sorted(names)
        s.dem = dict(zip(names, [norm(d) for d in ir.demangle(names)]))
        s.bysig = {}
        for n, d in s.dem.items():
            if n in s.index: s.bysig.setdefault(strip_ret(d), n)
        s.models = []
        s.mcache = {}; s.ccache = {}; s.synth = {}
        import stdmodel
        stdmodel.install(s)
    def globmod(s, name):
        for m in s.bypath.values():
            g = m.glob(name)
            if g and g[1] is not None: return m
        return None
    def typeid(s, n):
        return s.tids.setdefault(n, len(s.tids) + 1)
    def bases(s, n):
        if n in BASES: return BASES[n]
        m = s.globmod(n)
        if m is None: return []
        return re.findall(r'ptr @(_ZTI\w+)', m.globsrc[n])
    def derives(s, n, c):
        if n == c: return True
        return any(s.derives(b, c) for b in s.bases(n))
    def find(s, sig):
        """function symbol for a normalised signature (return type stripped)"""
        return s.bysig.get(sig)
    def fn(s, name, m=None):
        if m is not None:
            f = m.fn(name)
            if f: return f
        mm = s.index.get(name)
        return mm.fn(name) if mm else None
    def contract_for(s, name, m=None):
        if name in s.ccache: return s.ccache[name]
        d = s.dem.get(name) or norm(ir.demangle([name])[0])
        sig = strip_ret(d)
        r = None
        for c in s.contracts:
            if c.match(sig): r = c; break
        s.ccache[name] = r
        return r
    def dispatch(s, x, st, name, av, ins, work):
        fr = st.frames[-1]; m = fr.fn.m
        if name.startswith('llvm.'): return s.intrinsic(x, st, name, av, ins, work)
        c = s.contract_for(name, m)
        if c is not None and c.usable(x, st):
            return c.apply(x, st, name, av, ins, work)
        k = s.mcache.get(name)
        if k is None:
            d = s.dem.get(name) or norm(ir.demangle([name])[0])
            k = False
            for rx, f in s.models:
                if rx.search(d): k = (rx, f, d); break
            s.mcache[name] = k
        if k:
            r = k[1](x, st, k[2], av, ins, work)
            if r is not NOTMINE:
                pv = getattr(k[1], 'proved', None)
                if pv: x.used.add(pv(k[2]) if callable(pv) else pv)
                else: x.model_used.add(k[0].pattern)
                return r
        f = m.fn(name) or s.fn(name)
        if f is None: raise Unsupported('external function ' + (s.dem.get(name) or name))
        if name.startswith('_ZN7ystring') or name.startswith('_ZNK7ystring') or 'ystring' in name: x.inlined.add(strip_ret(s.dem.get(name, name)))
        if x.merge and f.ret.k == 'i' and f.ret.n == 1 and not f.loops(): return x.merged_call(st, f, av, ins, work)
        x.push(st, f, av, ins)
        return None
    def intrinsic(s, x, st, name, av, ins, work):
        n = name[5:]
        if n.startswith('memcpy') or n.startswith('memmove'):
            x.memcpy(st, av[0], av[1], av[2]); return x.finish_call(st, None)
        if n.startswith('memset'):
            if not isinstance(av[2], int): raise Unsupported('memset')
            if isinstance(av[1], int):
                for i in range(av[2]): x.store_n(st, x.padd(st, av[0], i, []), 1, av[1])
                # coalesce zero fill into words so that later word loads are cheap
            else: raise Unsupported('memset value')
            return x.finish_call(st, None)
        if n.startswith('eh.typeid.for'):
            t = ins.a[1][0][1][1]
            return x.finish_call(st, s.typeid(t))
        if n.startswith('umul.with.overflow') or n.startswith('uadd.with.overflow'):
            w = int(n.rsplit('i', 1)[1])
            a, b = x.scalar(av[0]), x.scalar(av[1])
            if isinstance(a, int) and isinstance(b, int):
                v = a * b if 'umul' in n else a + b
                return x.finish_call(st, (v & mask(w), int(v > mask(w))))
            a, b = bv(a, w), bv(b, w)
            if 'umul' in n: return x.finish_call(st, (a * b, Not(z3.BVMulNoOverflow(a, b, False))))
            return x.finish_call(st, (a + b, Not(z3.BVAddNoOverflow(a, b, False))))
        if n.startswith('is.constant'): return x.finish_call(st, 0)
        if n.startswith('lifetime') or n.startswith('dbg') or n.startswith('experimental.noalias'): return x.finish_call(st, None)
        if n == 'assume': return x.finish_call(st, None)
        if n.startswith('umin') or n.startswith('umax') or n.startswith('smin') or n.startswith('smax'): 
            w = int(n.rsplit('i', 1)[1]); a, b = bv(x.scalar(av[0]), w), bv(x.scalar(av[1]), w)
            lt = z3.ULT(a, b) if n[0] == 'u' else a < b
            return x.finish_call(st, simp(z3.If(lt, a, b) if 'min' in n else z3.If(lt, b, a)))
        if n.startswith('trap'):
            x.oblige(st, 'trap is not reached', False); raise PathEnd()
        if n.startswith('ctlz') or n.startswith('cttz'):
            w = int(n.rsplit('i', 1)[1]); a = bv(x.scalar(av[0]), w)
            r = K(w, w)
            rng = range(w) if n.startswith('ctlz') else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, a) == K(1, 1), K(w - 1 - i if n.startswith('ctlz') else i, w), r)
            r = simp(r)
            if isinstance(r, int): return x.finish_call(st, r)
            hi = n.startswith('ctlz'); ks = list(range(w)) + [w]; conds = []
            for q in ks:      # one path per position of the first bit that is set
                conds.append(a == K(0, w) if q == w else z3.Extract(w - 1 - q, w - 1 - q, a) == K(1, 1) if hi else z3.Extract(q, q, a) == K(1, 1))
            for i, s2 in x.fork_cases(st, [simp(c) if not isinstance(c, int) else c for c in conds]):
                s2.res = lambda s2, v=ks[i]: x.finish_call(s2, v)
                work.append(s2)
            return 'end'
        raise Unsupported('intrinsic ' + name)

NOTMINE = object()

def strip_ret(d):
    """drop the return type of a demangled template function and trailing requires clauses"""
    d = re.sub(r'\s+requires .*$', '', d)
    # find the top-level space before the function name (outside <> and ())
    dep = 0; pos = -1; i = 0; n = len(d)
    par = None
    while i < n:
        ch = d[i]
        if d.startswith('operator', i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')):
            # operator token: skip its symbol so that <, > and () in it do not count
            j = i + 8
            mm = re.match(r'(\(\)|<=>|<<|>>|<=|>=|->|<|>|[^\w\s(]+|\s+[\w:]+)', d[j:])
            if mm: i = j + mm.end(); continue
        if d.startswith('(anonymous namespace)', i): i += len('(anonymous namespace)'); continue
        if ch in '<': dep += 1
        elif ch in '>': dep -= 1
        elif ch == '(':
            if dep == 0:
                break
            dep += 1
        elif ch == ')': dep -= 1
        elif ch == ' ' and dep == 0: pos = i
        i += 1
    return d[pos+1:]

def gen_version(repo, gen):
    """YstringVersion.hpp as cmake would generate it (only version numbers)"""
    os.makedirs(os.path.join(gen, 'Ystring'), exist_ok=True)
    src = os.path.join(repo, 'include/Ystring/YstringVersion.hpp.in')
    if os.path.exists(src):
        t = open(src).read()
        t = re.sub(r'@\w*(MAJOR|MINOR|PATCH|TWEAK)\w*@', '0', t); t = re.sub(r'@\w+@', '0', t)
        t = re.sub(r'\$\{\w+\}', '0', t)
        p = os.path.join(gen, 'Ystring/YstringVersion.hpp')
        open(p, 'w').write(t); open(os.path.join(gen, 'YstringVersion.hpp'), 'w').write(t)
    return gen
