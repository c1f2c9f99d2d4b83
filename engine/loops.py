"""Loops that do not unroll: cut at the header, invariants inferred from templates (Houdini) and
checked inductive by the solver; the obligations of the body are generated from the havocked state."""
import z3
from spec import *
from sx import *
import sx

def same(a, b):
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o and a.s == b.s and same(a.f, b.f)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, BI) and isinstance(b, BI): return same(a.b, b.b)
    if isinstance(a, GStr) and isinstance(b, GStr): return a.term().eq(b.term())
    if isinstance(a, GVec) and isinstance(b, GVec): return a.term().eq(b.term()) and a.back == b.back
    if isinstance(a, GBuf) and isinstance(b, GBuf): return a.o == b.o
    if isinstance(a, PCS) and isinstance(b, PCS): return len(a.p) == len(b.p) and all(p[:2] == q[:2] and same(p[2], q[2]) for p, q in zip(a.p, b.p))
    if isinstance(a, SC) and isinstance(b, SC): return a.k == b.k and same(a.v, b.v)
    if isinstance(a, FnP) and isinstance(b, FnP): return a.n == b.n
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    return False

def diff(x, s0, s1, mods, sizes):
    ch = False
    for o, a in s0.mem.items():
        b = s1.mem.get(o)
        if b is a: continue
        if b is None: continue        # died: never seen again through this path
        if isinstance(a, Cells):
            for off in set(a.d) | set(b.d):
                e0 = a.d.get(off); e1 = b.d.get(off)
                if e0 is not None and e1 is not None and e0[0] == e1[0] and same(e0[1], e1[1]): continue
                key = (o, off)
                n = (e1 or e0)[0]
                if key not in mods: mods[key] = []; ch = True; sizes[key] = n
                if sizes[key] != n or (e0 is not None and e1 is not None and e0[0] != e1[0]):
                    if sizes[key] != -1: ch = True; sizes[key] = -1
                v = e1[1] if e1 is not None else UNDEF
                k = kind(v, n)
                if k not in mods[key]: mods[key].append(k); ch = True
                k0 = kind(e0[1] if e0 is not None else UNDEF, n)
                if k0 not in mods[key]: mods[key].append(k0); ch = True
        elif isinstance(a, Arr):
            if a.w != b.w or a.c is not b.c:
                ch |= written(o, a, mods, sizes)
    return ch

def written(o, a, mods, sizes):
    key, k, n = (o, 'w'), 'w', 0
    if isinstance(a.name, tuple) and a.name[0] == 'buffer': key, k, n = a.name[1:3], ('g',), 32      # the characters of a string
    if key not in mods: mods[key] = []; sizes[key] = n
    if k in mods[key]: return False
    mods[key].append(k); return True
def kind(v, n):
    if isinstance(v, GBuf): return ('g',)
    if isinstance(v, Undef) or v is None: return 'u'
    if isinstance(v, Ptr): return ('p', v.o, v.s)
    if isinstance(v, int): return 'b01' if n == 1 and v in (0, 1) else 'i'
    if isinstance(v, BI): return 'b'
    if isinstance(v, z3.BoolRef): return 'b'
    if isinstance(v, z3.BitVecRef): return 'i'
    if isinstance(v, SC): return 'i'
    if isinstance(v, GStr): return ('s', v.es)
    if isinstance(v, GVec): return ('v', v.es)
    return '?'

def havoc(x, s0, mods, sizes):
    h = s0.fork(); vals = {}
    for key in sorted(mods, key=str):
        o, off = key
        if off == 'w':
            a = h.mem[o]
            raise Unsupported('array written in a loop')
        ks = set(mods[key]); n = sizes[key]
        e = s0.mem[o].d.get(off)
        v = UNDEF
        if 'u' in ks or n == -1 or '?' in ks: v = UNDEF
        elif ks <= {'b', 'b01'}: v = BI(x.fresh('hb', 0), n * 8)
        elif ks <= {'i', 'b', 'b01'}: v = x.fresh('hi', n * 8)
        elif len(ks) == 1:
            k = next(iter(ks))
            if k[0] == 'p':
                v = Ptr(k[1], x.fresh('hp', 64), k[2])
                if isinstance(h.mem.get(k[1]), Cells): v = UNDEF
            elif k[0] == 'g': v = x.prog.h['newbuf'](x, h, o, off, x.fresh('hn', 64)); h.mem.pop(s0.mem[o].d[off][1].o, None)
            elif k[0] == 's': v = GStr([('t', x.freshseq('hs'))], k[1])
            elif k[0] == 'v': v = GVec([('t', x.freshseq('hv'))], k[1])
        nb = h.mem[o].copy()
        if isinstance(v, Undef):
            # drop the cell (all cells that overlap it)
            size = max([q[0] for q in (e, ) if q] + [n if n > 0 else 0, 1])
            x.cell_store(nb, off, size, UNDEF)
        else:
            x.cell_store(nb, off, n, v); vals[key] = v
        h.mem[o] = nb
    return h, vals

def getter(st):
    def get(key):
        ob = st.mem.get(key[0])
        e = ob.d.get(key[1]) if isinstance(ob, Cells) else None
        return e[1] if e is not None else UNDEF
    return get

class Cand:
    __slots__ = ('name', 'f')
    def __init__(c, name, f): c.name = name; c.f = f
    def at(c, st):
        try: r = c.f(getter(st))
        except (TypeError, AttributeError, Unsupported): return FALSE
        return zb(r)

def off_of(v):
    return b64(v.f)
def as64(v, n):
    """cell value as a 64-bit term"""
    if isinstance(v, BI): raise TypeError
    if isinstance(v, SC): v = v.v * k64(v.k)
    if isinstance(v, int): return k64(v)
    if v.size() == 64: return v
    return z3.ZeroExt(64 - v.size(), v)
def asbv(v, n):
    if isinstance(v, SC): return v.v * k64(v.k)
    if isinstance(v, int): return K(v, n * 8)
    if isinstance(v, BI): return z3.If(zb(v.b), K(1, n * 8), K(0, n * 8))
    return v
def asbool(v):
    if isinstance(v, int): return zb(bool(v))
    if isinstance(v, BI): return zb(v.b)
    raise TypeError

def candidates(x, s0, vals, sizes):
    g0 = getter(s0); out = []
    names = set()
    def C(name, f):
        if name in names and not name.startswith('eq '):
            try: q = f(g0).get_id()
            except Exception: q = None
            if (name, q) in names: return
        names.add(name)
        try: names.add((name, f(g0).get_id()))
        except Exception: pass
        out.append(Cand(name, f))
    P = [k for k, v in vals.items() if isinstance(v, Ptr)]
    N = [k for k, v in vals.items() if isinstance(v, z3.BitVecRef) and v.size() in (32, 64)]
    B = [k for k, v in vals.items() if isinstance(v, BI)]
    S = [k for k, v in vals.items() if isinstance(v, (GStr, GVec))]
    # reference values that the loop does not change
    refp = {}; refn = {}
    for o, ob in s0.mem.items():
        if isinstance(ob, Cells):
            for off, (n, v) in ob.d.items():
                if (o, off) in vals: continue
                if isinstance(v, Ptr) and isinstance(s0.mem.get(v.o), (Arr, Tab)) and not isinstance(v.o, str): refp.setdefault(v.o, {})[b64(v.f).get_id()] = b64(v.f)
                elif isinstance(v, z3.BitVecRef) and v.size() in (32, 64): refn.setdefault(v.size(), {})[v.get_id()] = v
    for o, ob in s0.mem.items():
        if isinstance(ob, Arr):
            d = refp.setdefault(o, {})
            for e in (b64(ob.lo), b64(ob.hi)): d[e.get_id()] = e
            sz = simp(b64(ob.hi) - b64(ob.lo))
            if not isinstance(sz, int): refn.setdefault(64, {})[sz.get_id()] = sz
    for k in P:
        p0 = g0(k)
        if not isinstance(p0, Ptr): continue
        f0 = b64(p0.f); o = p0.o; ob = s0.mem.get(o)
        if not isinstance(ob, (Arr, Tab)): continue
        refs = dict(refp.get(o, {})); refs[f0.get_id()] = f0
        for q in refs.values():
            C('%s>=%s' % (k, q), lambda g, k=k, q=q: z3.ULE(q, off_of(g(k))))
            C('%s<=%s' % (k, q), lambda g, k=k, q=q: z3.ULE(off_of(g(k)), q))
            C('%s>%s' % (k, q), lambda g, k=k, q=q: z3.ULT(q, off_of(g(k))))
            C('%s<%s' % (k, q), lambda g, k=k, q=q: z3.ULT(off_of(g(k)), q))
        for k2 in P:
            if k2 == k: continue
            q0 = g0(k2)
            if isinstance(q0, Ptr) and q0.o != o and str(k2) > str(k):
                C('%s and %s' % (k, k2), lambda g, k=k, k2=k2, f0=f0, h0=b64(q0.f): off_of(g(k)) - f0 == off_of(g(k2)) - h0)     # they move together
            if not isinstance(q0, Ptr) or q0.o != o: continue
            if str(k2) > str(k): C('%s==%s' % (k, k2), lambda g, k=k, k2=k2: off_of(g(k)) == off_of(g(k2)))
            C('%s<=%s' % (k, k2), lambda g, k=k, k2=k2: z3.ULE(off_of(g(k)), off_of(g(k2))))
            C('%s<%s' % (k, k2), lambda g, k=k, k2=k2: z3.ULT(off_of(g(k)), off_of(g(k2))))
        for k2 in N:
            n0 = g0(k2)
            if isinstance(n0, (Undef, Ptr, PCS)): continue
            try: n064 = as64(n0, sizes[k2])
            except TypeError: continue
            C('%s+%s' % (k, k2), lambda g, k=k, k2=k2, e=f0 + n064: off_of(g(k)) + as64(g(k2), 0) == e)
            C('%s-%s' % (k, k2), lambda g, k=k, k2=k2, e=f0 - n064: off_of(g(k)) - as64(g(k2), 0) == e)
    sg = lambda e: e
    for k in N:
        n0 = g0(k); n = sizes[k]
        if isinstance(n0, (Undef, Ptr, PCS)): continue
        e0 = asbv(n0, n); w = n * 8
        C('%s>=%s u' % (k, e0), lambda g, k=k, e0=e0, n=n: z3.ULE(e0, asbv(g(k), n)))
        C('%s<=%s u' % (k, e0), lambda g, k=k, e0=e0, n=n: z3.ULE(asbv(g(k), n), e0))
        C('%s>=%s s' % (k, e0), lambda g, k=k, e0=e0, n=n: e0 <= asbv(g(k), n))
        C('%s<=%s s' % (k, e0), lambda g, k=k, e0=e0, n=n: asbv(g(k), n) <= e0)
        C('%s!=0' % (k,), lambda g, k=k, n=n, w=w: asbv(g(k), n) != K(0, w))
        C('%s>=0 s' % (k,), lambda g, k=k, n=n, w=w: asbv(g(k), n) >= K(0, w))
        C('%s<=0 s' % (k,), lambda g, k=k, n=n, w=w: asbv(g(k), n) <= K(0, w))
        C('%s>=-1 s' % (k,), lambda g, k=k, n=n, w=w: asbv(g(k), n) >= K(-1, w))
        for q in refn.get(w, {}).values():
            if q.eq(e0): continue
            C('%s<=%s u' % (k, q), lambda g, k=k, q=q, n=n: z3.ULE(asbv(g(k), n), q))
            C('%s<=%s s' % (k, q), lambda g, k=k, q=q, n=n: asbv(g(k), n) <= q)
            C('%s>=%s s' % (k, q), lambda g, k=k, q=q, n=n: asbv(g(k), n) >= q)
        for k2 in N:
            if k2 == k or sizes[k2] != n: continue
            m0 = g0(k2)
            if isinstance(m0, (Undef, Ptr, PCS)): continue
            C('%s<=%s' % (k, k2), lambda g, k=k, k2=k2, n=n: z3.ULE(asbv(g(k), n), asbv(g(k2), n)))
            if str(k2) > str(k):
                m0 = asbv(m0, n)
                C('%s+%s' % (k, k2), lambda g, k=k, k2=k2, e=e0 + m0, n=n: asbv(g(k), n) + asbv(g(k2), n) == e)
                C('%s-%s' % (k, k2), lambda g, k=k, k2=k2, e=e0 - m0, n=n: asbv(g(k), n) - asbv(g(k2), n) == e)
    for k in N:      # a number that keeps being the same function of a position
        e0 = g0(k)
        if sizes[k] != 8 or isinstance(e0, (int, Undef, Ptr, PCS, SC, BI)): continue
        for kp in P:
            p0 = g0(kp)
            ob = s0.mem.get(p0.o) if isinstance(p0, Ptr) else None
            if not isinstance(ob, Arr): continue
            for bound, sg in [(b64(ob.hi), 1), (b64(ob.lo), -1)] + [(q, g) for q in refp.get(p0.o, {}).values() if not q.eq(b64(ob.hi)) and not q.eq(b64(ob.lo)) for g in (1, -1)]:
                d = lambda f, bound=bound, sg=sg: bound - f if sg > 0 else f - bound
                d0 = simp(d(b64(p0.f)))
                if isinstance(d0, int) or d0.eq(e0) or z3.substitute(e0, (d0, z3.BitVecVal(0, 64))).eq(e0): continue
                C('%s of %s %d %s' % (k, kp, sg, bound), lambda g, k=k, kp=kp, e0=e0, d=d, d0=d0: as64(g(k), 8) == z3.substitute(e0, (d0, d(off_of(g(kp))))))
    for k in P:      # a number that is the end of the element a position has passed
        p0 = g0(k); ob = s0.mem.get(p0.o) if isinstance(p0, Ptr) else None
        if not (isinstance(ob, Arr) and isinstance(ob.c, VecContent)): continue
        for k2 in N:
            if sizes[k2] != 8 or isinstance(g0(k2), (Undef, Ptr, PCS)): continue
            n0 = as64(g0(k2), 8)
            C('%s end %s' % (k2, k), lambda g, k=k, k2=k2, ob=ob, n0=n0: z3.If(off_of(g(k)) == b64(ob.hi), as64(g(k2), 8) == n0, as64(g(k2), 8) == ob.c.sel(off_of(g(k)), 0, 8) + ob.c.sel(off_of(g(k)), 8, 8)))
            C('%s end< %s' % (k2, k), lambda g, k=k, k2=k2, ob=ob, n0=n0: z3.If(off_of(g(k)) == k64(0), as64(g(k2), 8) == n0, as64(g(k2), 8) == ob.c.sel(off_of(g(k)) - k64(1), 0, 8) + ob.c.sel(off_of(g(k)) - k64(1), 8, 8)))
    for k in B:
        b0 = g0(k)
        if isinstance(b0, Undef): continue
        C('%s==b0' % (k,), lambda g, k=k, b0=b0: asbool(g(k)) == asbool(b0))
    for k in S:      # a list that is not as long as a limit
        if not isinstance(g0(k), GVec): continue
        for q in refn.get(64, {}).values(): C('|%s|!=%s' % (k, q), lambda g, k=k, q=q: g(k).n != q)
    spec_candidates(x, s0, vals, sizes, P, N, B, S, C)
    for t in x.templ:
        t(x, s0, vals, sizes, P, N, B, S, C)
    return out

def positions(x, s0, vals, sizes, P, N, uid):
    """ways to read a position in content `uid` off the changing cells: (name, fn(get) -> term)"""
    g0 = getter(s0); out = []
    for k in P:
        p = g0(k)
        if isinstance(p, Ptr):
            ob = s0.mem.get(p.o)
            if isinstance(ob, Arr) and ob.c.uid == uid: out.append((str(k), lambda g, k=k: off_of(g(k))))
    for k in N:
        if sizes[k] != 8 or isinstance(g0(k), (Undef, PCS, Ptr)): continue
        for b in x.basef.get(uid, ()):
            out.append(('%s+%s' % (b, k), lambda g, k=k, b=b: simp64(b64(b) + as64(g(k), 8))))
    return out
def simp64(e): return b64(simp(e))

def counter(v):
    """a loop counter that starts at a constant"""
    return not isinstance(v, (Undef, Ptr, PCS, SC, BI)) and (isinstance(v, int) or z3.is_bv_value(v))
def spec_candidates(x, s0, vals, sizes, P, N, B, S, C):
    g0 = getter(s0)
    seen = set()
    for a in list(x.seeds):
        fam, key, args, app = APPS[a]
        for k in B:             # what a flag that has changed means
            b0 = g0(k)
            if not isinstance(b0, (int, BI)) or fam.ret not in (BOOL, BV64): continue
            q = app if fam.ret == BOOL else app != k64(-1)
            for v, q in (('', q), ('not ', Not(q))): C('%s means %s%s' % (k, v, app.get_id()), lambda g, k=k, b0=b0, q=q: Imp(asbool(g(k)) != asbool(b0), q))
        if not fam.holes: continue
        opts = [[]]
        for h in fam.holes:
            i, kd = h[0], h[1]
            if kd == 'pos':
                al = positions(x, s0, vals, sizes, P, N, key[h[2]])
                al = al + [('=', None)]
            elif kd == 'vpos': al = [(str(k), lambda g, k=k: off_of(g(k))) for k in P if isinstance(g0(k), Ptr) and isinstance(s0.mem.get(g0(k).o), Arr) and isinstance(s0.mem[g0(k).o].c, VecContent)] + [('=', None)]
            elif kd == 'bool': al = [(str(k), lambda g, k=k: asbool(g(k))) for k in B] + [('=', None)]
            elif kd == 'cnt': al = [(str(k), lambda g, k=k: as64(g(k), 8)) for k in N if sizes[k] == 8 and not isinstance(g0(k), (Undef, Ptr, PCS))] + \
                                   [(str(k) + '+1', lambda g, k=k: simp64(as64(g(k), 8) + k64(1))) for k in N if sizes[k] == 8 and not isinstance(g0(k), (Undef, Ptr, PCS))] + \
                                   [('~' + str(k), lambda g, k=k: simp64(k64(-1) - as64(g(k), 8))) for k in N if sizes[k] == 8 and not isinstance(g0(k), (Undef, Ptr, PCS))] + \
                                   [('-' + str(k), lambda g, k=k: simp64(k64(0) - as64(g(k), 8))) for k in N if sizes[k] == 8 and not isinstance(g0(k), (Undef, Ptr, PCS))] + \
                                   [('%d-' % args[i].get_id() + str(k), lambda g, k=k, q=args[i], e0=as64(g0(k), 8): simp64(q + e0 - as64(g(k), 8))) for k in N if sizes[k] == 8 and counter(g0(k)) and not z3.is_bv_value(args[i])] + \
                                   [('%d-|' % args[i].get_id() + str(k), lambda g, k=k, q=args[i], n0=g0(k).n: simp64(q + n0 - g(k).n)) for k in S if isinstance(g0(k), GVec) and not z3.is_bv_value(args[i])] + \
                                   [('%d-' % args[i].get_id() + str(k), lambda g, k=k, q=args[i], f0=b64(g0(k).f): simp64(q + f0 - off_of(g(k)))) for k in P if fam.lencnt and not z3.is_bv_value(args[i]) and isinstance(g0(k), Ptr) and isinstance(s0.mem.get(g0(k).o), Arr)] + [('=', None)]
            elif kd == 'cp': al = [(str(k), lambda g, k=k: asbv(g(k), 4)) for k in N if sizes[k] == 4 and not isinstance(g0(k), (Undef, Ptr, PCS))] + [('=', None)]
            else: raise ValueError(kd)
            opts = [o + [(i, q)] for o in opts for q in al]
            if len(opts) > 200: opts = opts[:200]
        for o in opts:
            if all(q[1] is None for _, q in o): continue
            def F(g, o=o, fam=fam, key=key, args=args):
                a2 = list(args)
                for i, q in o:
                    if q[1] is not None: a2[i] = q[1](g)
                return fam(key, *a2)
            nm = fam.name + str(key) + ','.join(q[0] for _, q in o)
            if nm + str(app) in seen: continue
            seen.add(nm + str(app))
            try: f0 = F(g0)
            except TypeError: continue
            if fam.ret == SEQ:
                for k in S:
                    v0 = g0(k)
                    if isinstance(v0, Undef): continue
                    e = seq(list(v0.p) + [('t', f0)])
                    C('cat %s %s' % (k, nm), lambda g, k=k, F=F, e=e: seq(list(g(k).p) + [('t', F(g))]) == e)
                C('eq ' + nm, lambda g, F=F, f0=f0: F(g) == f0)
                ho = [(h, dict(o).get(h[0])) for h in fam.holes if h[1] == 'pos' and len(h) > 3]
                for h, q in ho:     # copied up to p; [p,q) is still to be copied
                    if q is None or q[1] is None: continue
                    cc = Content.reg[key[h[2]]]
                    for pn, pf in positions(x, s0, vals, sizes, P, N, cc.uid):
                        if pn == q[0]: continue
                        try: p0 = pf(g0); q0 = q[1](g0)
                        except TypeError: continue
                        for k in S:
                            v0 = g0(k)
                            if isinstance(v0, Undef): continue
                            e = seq(list(v0.p) + [('sl', cc, p0, q0), ('t', f0)])
                            C('catsl %s %s %s' % (k, pn, nm), lambda g, k=k, F=F, e=e, pf=pf, qf=q[1], cc=cc: seq(list(g(k).p) + [('sl', cc, pf(g), qf(g)), ('t', F(g))]) == e)
                for k in S:   # right-to-left accumulation
                    v0 = g0(k)
                    if isinstance(v0, Undef): continue
                    if fam.acc == 'rev':
                        e = seq([('t', f0)] + list(v0.p))
                        C('tac %s %s' % (k, nm), lambda g, k=k, F=F, e=e: seq([('t', F(g))] + list(g(k).p)) == e)
            else:
                C('eq ' + nm, lambda g, F=F, f0=f0: F(g) == f0)
                for k in B:     # until a flag changes
                    b0 = g0(k)
                    if isinstance(b0, (int, BI)): C('eq until %s %s' % (k, nm), lambda g, F=F, f0=f0, k=k, b0=b0: Imp(asbool(g(k)) == asbool(b0), F(g) == f0))
                if fam.acc in ('pos', 'negpos'):
                    for k in P:
                        p0 = g0(k)
                        if not isinstance(p0, Ptr): continue
                        sg = 1 if fam.acc == 'pos' else -1
                        e = off_of(p0) + f0 if sg == 1 else off_of(p0) - f0
                        C('%s %s %s' % (fam.acc, k, nm), lambda g, k=k, F=F, e=e, sg=sg: (off_of(g(k)) + F(g) if sg == 1 else off_of(g(k)) - F(g)) == e)
                if fam.acc == '+':
                    for k in N:
                        n0 = g0(k)
                        if isinstance(n0, (Undef, Ptr, PCS)): continue
                        e = as64(n0, 8) + f0
                        C('sum %s %s' % (k, nm), lambda g, k=k, F=F, e=e: as64(g(k), 8) + F(g) == e)

def hard(e): return z3.is_eq(e) and e.arg(0).sort() == SEQ
def filt(x, st, cands, seqno=None):
    """the candidates that hold in st"""
    exprs = [(c, c.at(st)) for c in cands]
    keep = []
    for c, e in exprs:
        e = z3.simplify(e, bv_le2extract=False) if not (e is TRUE or e is FALSE) else e
        if z3.is_false(e): continue
        keep.append((c, e))
    res = [(c, e) for c, e in keep if z3.is_true(e)]
    keep = [(c, e) for c, e in keep if not z3.is_true(e)]
    def part(keep):         # those that hold: all at once; without those that the counterexample refutes; in halves if the solver has no answer
        while keep:
            if len(keep) == 1: return keep if x.check(st, Not(keep[0][1])) == 'unsat' else []
            x.solver.want = True
            r = x.check(st, Not(And(*[e for c, e in keep])), precise=False)
            x.solver.want = False
            if r == 'unsat': return keep
            if r == 'sat':
                nk = [(c, e) for c, e in keep if x.solver.holds(e)]
                if len(nk) < len(keep): keep = nk; continue
            s1 = [q for q in keep if hard(q[1])]; s2 = [q for q in keep if not hard(q[1])]
            if not s1 or not s2: h = len(keep) // 2; s1, s2 = keep[:h], keep[h:]
            return part(s2) + part(s1)
        return []
    keep = part(keep)
    ok = set(id(c) for c, e in res) | set(id(c) for c, e in keep)
    return [c for c in cands if id(c) in ok]

def iterate(x, h, d, hd, body):
    x.ctxs.append((d, hd, body))
    try: return x.run([h])
    finally: x.ctxs.pop()

def cut(x, s0, hd, d, body):
    x.nloops += 1
    name = '%s:%s' % (x.where(s0), hd)
    x.quiet += 1
    x.havocked = True
    try:
        mods = {}; sizes = {}
        for rnd in range(12):
            h, vals = havoc(x, s0, mods, sizes)
            h.sym = False
            outs = iterate(x, h, d, hd, body)
            ch = False
            for o in outs:
                if o[0] == 'back': ch |= diff(x, h if False else s0, o[1], mods, sizes) if rnd == 0 else diff2(x, s0, h, vals, o[1], mods, sizes)
            if not ch: break
        else: raise Unsupported('loop state does not stabilise')
        h, vals = havoc(x, s0, mods, sizes)
        cands = candidates(x, s0, vals, sizes)
        ncand = len(cands)
        cands = filt(x, s0, cands)
        for rnd in range(40):
            h, vals = havoc(x, s0, mods, sizes)
            x.add(h, *[c.at(h) for c in cands])
            outs = iterate(x, h.fork(), d, hd, body)
            left = cands
            for o in outs:
                if o[0] == 'back': left = filt(x, o[1], left)
            if len(left) == len(cands): break
            cands = left
        else: raise Unsupported('no inductive invariant set')
    finally: x.quiet -= 1
    # final run: obligations are recorded here
    h, vals = havoc(x, s0, mods, sizes)
    x.add(h, *[c.at(h) for c in cands])
    outs = iterate(x, h.fork(), d, hd, body)
    backs = [o[1] for o in outs if o[0] == 'back']
    if not x.quiet:
        for b in backs:
            for c in cands: x.oblige(b, 'loop invariant', c.at(b))
        terminates(x, h, vals, sizes, backs, name)
    x.cuts.append((name, ncand, [c.name for c in cands], len(backs)))
    return [o for o in outs if o[0] != 'back']

def diff2(x, s0, h, vals, s1, mods, sizes):
    """changes of s1 against the havocked state"""
    ch = False
    for o, a in h.mem.items():
        if o not in s0.mem: continue
        b = s1.mem.get(o)
        if b is a or b is None: continue
        if isinstance(a, Cells):
            for off in set(a.d) | set(b.d):
                e0 = a.d.get(off); e1 = b.d.get(off)
                if e0 is not None and e1 is not None and e0[0] == e1[0] and same(e0[1], e1[1]): continue
                key = (o, off); n = (e1 or e0)[0]
                if key not in mods:
                    mods[key] = []; sizes[key] = n; ch = True
                    z = s0.mem[o].d.get(off)
                    k0 = kind(z[1] if z is not None else UNDEF, n)
                    mods[key].append(k0)
                    if z is not None and z[0] != n: sizes[key] = -1
                if e1 is not None and sizes[key] not in (-1, e1[0]): sizes[key] = -1; ch = True
                k1 = kind(e1[1] if e1 is not None else UNDEF, n)
                if k1 not in mods[key]:
                    if k1 == 'u' and 'u' in mods[key]: continue
                    if 'u' in mods[key]: continue          # already indeterminate at the header
                    mods[key].append(k1); ch = True
        elif isinstance(a, Arr):
            if a.w != b.w or a.c is not b.c:
                ch |= written(o, a, mods, sizes)
    return ch

def terminates(x, h, vals, sizes, backs, name):
    if not backs: return
    gs = getter(h)
    meas = []
    for k, v in vals.items():
        if isinstance(v, Ptr): meas.append((k, lambda g, k=k: off_of(g(k))))
        elif isinstance(v, z3.BitVecRef) and v.size() in (32, 64): meas.append((k, lambda g, k=k, n=sizes[k]: asbv(g(k), n)))
        elif isinstance(v, GVec): meas.append((k, lambda g, k=k: b64(g(k).n)))
        elif isinstance(v, BI): meas.append((k, lambda g, k=k: z3.If(asbool(g(k)), k64(1), k64(0))))      # a flag that ends the loop
    x.nobl += 1; x.obkinds['termination'] = x.obkinds.get('termination', 0) + 1
    def holds(rel):
        for b in backs:
            try: c = rel(getter(b))
            except (TypeError, AttributeError): return False
            if x.check(b, Not(c)) != 'unsat': return False
        return True
    for k, f in meas:
        if holds(lambda g: z3.ULT(f(gs), f(g))) or holds(lambda g: z3.ULT(f(g), f(gs))):
            x.ndis += 1; return
    nums = [q for q in meas if isinstance(vals[q[0]], z3.BitVecRef) and sizes[q[0]] == 8]
    sums = [(k + k2, lambda g, f=f, f2=f2: f(g) + f2(g)) for i, (k, f) in enumerate(nums) for k2, f2 in nums[i + 1:]]
    for k, f in meas:
        for k2, f2 in meas + sums:
            if k2 == k: continue
            for up in (0, 1):
                for up2 in (0, 1):
                    lt = lambda a, b: z3.ULT(a, b)
                    r1 = lambda g: lt(f(gs), f(g)) if up else lt(f(g), f(gs))
                    r2 = lambda g: lt(f2(gs), f2(g)) if up2 else lt(f2(g), f2(gs))
                    if holds(lambda g: Or(r1(g), And(f(g) == f(gs), r2(g)))):
                        x.ndis += 1; return
    x.fails.append(Fail('termination', name, 'unknown', None, 'no decreasing measure found'))
