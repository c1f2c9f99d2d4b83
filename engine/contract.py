"""Contracts: one object serves both to verify the body of a function and to replace its calls."""
import re, time, z3
import ir, ival, copy
from spec import *
import sx
from sx import *
import lib

YEXC = '_ZTIN7ystring16YstringExceptionE'
class View:
    floor = None
    def __init__(v, o, c, b, n, p): v.o = o; v.c = c; v.b = b; v.n = n; v.p = p; v.e = simp(b64(b) + b64(n)); v.uid = c.uid; v.B = b64(b); v.N = b64(n); v.E = b64(v.e)
    def sel(v, i): return v.c.sel(v.B + b64(i))
class Pos:
    def __init__(v, o, c, f, p): v.o = o; v.c = c; v.f = f; v.p = p; v.F = b64(f); v.uid = c.uid if c is not None else None
class Ref:
    """reference parameter; .old is its abstract value at entry"""
    def __init__(v, p, old): v.p = p; v.old = old
class Buf:
    """a character buffer to write to: position, number of bytes that may be written"""
    def __init__(v, x, st, p):
        v.p = p; ob = x.deref(st, p, 1, 'store'); v.cur = isinstance(ob, Arr) and ob.cur is not None
        if isinstance(ob, Cells): v.room = k64(ob.size - p.f); v.f = p.f
        elif isinstance(ob, Arr): v.room = b64(simp(b64(ob.hi) - b64(p.f))); v.f = p.f
        else: raise Unsupported('buffer')
class R:
    def __init__(r, v=None, **w): r.v = v; r.w = w
class T:
    def __init__(r, **w): r.w = w
class Inplace:
    """an array that is rewritten"""
    def __init__(v, o, c, b, n, p): v.o = o; v.c = c; v.b = b; v.n = n; v.p = p; v.B = b64(b); v.N = b64(n); v.e = simp(v.B + v.N); v.E = b64(v.e); v.uid = c.uid
class Enc:
    """the bytes of an encoding, written to a buffer"""
    def __init__(v, c): v.c = c
class Any:
    def __repr__(s): return 'any'
ANY = Any()
class A: piece = None
LIM = k64(1 << 61)

class Contract:
    """sig: normalised signature; params: [(name, kind)]; ret: kind; cases(a) -> [(cond, R|T)];
    pre(a) -> [cond]; open: families whose definitions the body's proof may unfold"""
    def __init__(c, sig, params, ret, cases, pre=None, open=(), props=(), depth=1, templ=None, name=None, maxn=(1 << 32) - 1, lemmas=None, trusted=False, inst=False, need=(), timeout=8000, seeddepth=2, noapply=False, split=None, parts=1, tops=None, unroll=None, close=(), seeds=None, merge=True):
        c.merge = merge; c.hints = None; c.uses = {}; c.laws = []
        c.sig = sig; c.params = params; c.ret = ret; c.cases = cases; c.pre = pre; c.open = set(open); c.depth = depth; c.templ = templ; c.props = props
        c.name = name or re.sub(r'\(.*', '', sig); c.maxn = maxn; c.lemmas = lemmas; c.trusted = trusted; c.need = need; c.timeout = timeout; c.seeddepth = seeddepth; c.noapply = noapply
        c.rx = re.compile(sig[3:]) if sig.startswith('re:') else None
        c.weight = 1; c.tops = tops; c.unroll = unroll; c.close = set(close); c.seeds = seeds; c.base = c.name; c.split = split; c.parts = parts; c.part = 0
    def run(c, prog, budget): return verify(prog, c, budget)
    def tasks(c):
        if c.parts == 1: return [c]
        out = []
        for k in range(c.parts):
            d = copy.copy(c); d.part = k; d.base = c.name; d.name = '%s [part %d of %d]' % (c.name, k + 1, c.parts); d.whole = c; out.append(d)
        return out
    def roots(c, p):
        n = find_sym(p, c)
        return [(p.index[n], n)] if n else []
    def match(c, sig):
        return c.rx.search(sig) is not None if c.rx else c.sig == sig
    def usable(c, x, st):
        return (x.self_contract is None or x.self_contract.base != c.base) and not c.noapply and c.name not in x.inline_names
    # ---- arguments at a call site
    def args(c, x, st, av):
        a = A(); a.x = x; av = list(av)
        st_a = {}
        if c.ret in SRET: a._sret = av.pop(0)
        for name, k in c.params:
            setattr(a, name, c.arg(x, st, k, av))
            k0, _, g = k.partition('@')
            if k0 in ('ptr', 'ptr32', 'vptr', 'pref'):      # the contract is about positions of one array per group
                v = getattr(a, name); o = (v.old if k0 == 'pref' else v).o
                if st_a.setdefault(g, o) != o: x.oblige(st, 'pointers into the same array', False); raise PathEnd()
        return a
    def arg(c, x, st, k, av):
        k = k.partition('@')[0]
        if k == 'svm':       # a string_view passed in memory
            p = av.pop(0); n = x.scalar(x.defd(st, x.load_n(st, p, 8))); return mkview(x, st, n, x.load_n(st, x.padd(st, p, 8, []), 8), 1)
        if k in ('sv', 'sv32'):
            n = x.scalar(x.defd(st, av.pop(0))); p = av.pop(0)
            return mkview(x, st, n, p, 4 if k == 'sv32' else 1)
        if '=' in k:       # a constant
            k, w = k.split('='); v = K(int(w), int(k[1:])); x.oblige(st, 'contract covers this constant', bv(x.scalar(x.defd(st, av.pop(0))), int(k[1:])) == v); return v
        if k in ('i64', 'i32', 'i8'):
            w = int(k[1:]); return bv(x.scalar(x.defd(st, av.pop(0))), w)
        if k == 'cref8': return bv(x.scalar(x.defd(st, x.load_n(st, av.pop(0), 1))), 8)
        if k == 'i1':
            v = x.defd(st, av.pop(0)); return tobool(x, v)
        if k in ('ptr', 'vptr'): return mkpos(x, st, av.pop(0))
        if k == 'pref':
            p = av.pop(0); v = x.load_n(st, p, 8); x.defd(st, v)
            return Ref(p, mkpos(x, st, v))
        if k == 'out32': return Ref(av.pop(0), None)
        if k == 'svref':
            p = av.pop(0)
            n = x.scalar(x.defd(st, x.load_n(st, p, 8))); q = x.load_n(st, x.padd(st, p, 8, []), 8)
            return Ref(p, mkview(x, st, n, q, 1))
        if k in ('str&', 'str'):
            p = av.pop(0); return Ref(p, x.prog.h['gs'](x, st, p))
        if k == 'backins':
            p = av.pop(0); return Ref(p, x.prog.h['gs'](x, st, p))
        if k == 'set':
            p = av.pop(0); return lib.mkset(x, st, p)
        if k == 'subr' and isinstance(av[0], PCS): av[0:1] = pair64(x, av[0])
        if k == 'subr':
            return (b64(x.scalar(x.defd(st, av.pop(0)))), b64(x.scalar(x.defd(st, av.pop(0)))))
        if k == 'split': 
            m = b64(x.scalar(x.defd(st, av.pop(0)))); f = x.defd(st, av.pop(0)); return (m, tobool(x, f))
        if k == 'splitm':
            p = av.pop(0); return (b64(x.scalar(x.defd(st, x.load_n(st, p, 8)))), tobool(x, x.defd(st, x.load_n(st, x.padd(st, p, 8, []), 1))))
        if k == 'boolptr': return av.pop(0)
        if k in ('buf', 'buf32'): return Buf(x, st, av.pop(0))
        if k == 'inplace':
            p = av.pop(0); n = x.scalar(x.defd(st, av.pop(0))); ob = x.deref(st, p, 1, 'store')
            if not (isinstance(ob, Arr) and ob.name[0] == 'sdata'): raise Unsupported('buffer')
            x.oblige(st, 'contract covers the whole buffer', And(b64(p.f) == b64(ob.lo), b64(n) == b64(ob.hi) - b64(ob.lo)))
            return Inplace(p.o, ob.c, p.f, n, p)
        if k == 'obj': return av.pop(0)
        raise Unsupported('argument kind ' + k)
    def apply(c, x, st, name, av, ins, work):
        x.used.add(c.name)
        a = c.args(x, st, av); a.st = st; a.call = True
        if c.pre:
            for p in c.pre(a): x.oblige(st, 'precondition of ' + c.name, p)
        locality(x, st, c, a)
        cs = c.cases(a)
        rs = x.fork_cases(st, [q[0] for q in cs])
        first = None
        for i, s in rs:
            s.res = lambda s, out=cs[i][1]: c.effect(x, s, a, out, work)
            work.append(s)
        return 'end'
    def effect(c, x, s, a, out, work):
        kinds = dict(c.params)
        for n, v in out.w.items():
            k = kinds[n]; r = getattr(a, n)
            putref(x, s, k, r, v)
        if isinstance(out, T):
            return x.throw(s, (YEXC, None), work)
        v = out.v
        if callable(v): v = v(x, s)
        return x.finish_call(s, mkval(x, s, c.ret, v, a))

SRET = ('str', 'str32', 'vec', 'pairsc', 'pcs')
def tobool(x, v):
    if isinstance(v, BI): return zb(v.b)
    if isinstance(v, int): return zb(bool(v & 1))
    if z3.is_bool(v): return v
    v = x.scalar(v)
    if isinstance(v, int): return zb(bool(v & 1))
    return v != K(0, v.size())
def mkview(x, st, n, p, es):
    if isinstance(p, Undef): x.oblige(st, 'use of an indeterminate pointer', b64(n) == k64(0)); p = NULL
    if not isinstance(p, Ptr): raise Unsupported('view')
    if p.o == 0:
        x.oblige(st, 'null dereference', b64(n) == k64(0))
        return View(0, lib.nocontent(es), 0, 0, p)
    x.prog.h['readable'](x, st, p, n)
    v = View(p.o, lib.content_of(x, st, p, es, True), p.f, n, p); ob = st.mem.get(p.o)
    if isinstance(ob, Arr) and ob.cur is not None: v.floor = x.curpos(st, ob)
    return v
def locality(x, st, c, a):
    """a specification function over positions from `floor` on does not depend on what is before it: that part of the array may have been overwritten.
    The contract is read with constants for the values of the arguments, so that only what the contract itself says about the text is seen"""
    fl = [(v.uid, v.floor) for v in vars(a).values() if isinstance(v, View) and v.floor is not None]
    if not fl: return
    sub = []
    def gen(v):
        if isinstance(v, View):
            w = View(v.o, v.c, gen(v.b), gen(v.n), v.p); return w
        if isinstance(v, tuple): return tuple(map(gen, v))
        if isinstance(v, (z3.BitVecRef, z3.BoolRef)): t = z3.FreshConst(v.sort(), 'arg'); sub.append((t, v)); return t
        return v
    g = type(a)()
    for k, v in vars(a).items(): setattr(g, k, gen(v))
    cs = c.cases(g); terms = [zb(q) for q, o in cs] + [t for q, o in cs for t in terms_of(o)] + (list(c.pre(g)) if c.pre else [])
    def pieces(v):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('sl', 'view') and isinstance(v[1], Content): return [v]
        if isinstance(v, (tuple, list)): return [q for w in v for q in pieces(w)]
        return []
    for uid, f in fl:
        if any(q[1].uid == uid for r, o in cs if isinstance(o, (R, T)) for w in [getattr(o, 'v', None)] + list(o.w.values()) for q in pieces(w)): raise Unsupported('part of an array that is rewritten')
        seen = set(); todo = [t for t in terms if isinstance(t, z3.ExprRef)]; args = {}
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); todo += t.children()
            q = APPS.get(t.get_id())
            if (q is not None and uid in q[1]) if q is not None else z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.num_args() and t.decl().name().startswith(uid + '.'):
                for ch in t.children():
                    if ch.sort() == BV64: args[ch.get_id()] = ch
        if args: x.oblige(st, 'what is read has not been overwritten', z3.substitute(And(*[z3.ULE(f, t) for t in args.values()]), *sub))
def mkpos(x, st, p):
    if isinstance(p, Undef): x.oblige(st, 'use of an indeterminate pointer', False); raise PathEnd()
    if not isinstance(p, Ptr): raise Unsupported('position')
    if p.o == 0: return Pos(0, lib.nocontent(1), 0, p)
    return Pos(p.o, lib.content_of(x, st, p), p.f, p)
def putref(x, s, k, r, v):
    if isinstance(v, Any):
        if k == 'out32': 
            ob = s.mem[r.p.o]
            if isinstance(ob, Cells): nb = ob.copy(); x.cell_store(nb, r.p.f, 4, UNDEF); s.mem[r.p.o] = nb
            return
        if k == 'buf32':
            ob = s.mem[r.p.o]; s.mem[r.p.o] = Arr(x.anycontent(4), ob.lo, ob.hi, False, (), ob.name); return
        if k == 'boolptr':
            if isinstance(r, Ptr) and r.o != 0: x.store_n(s, r, 1, UNDEF)
            return
        if k == 'inplace':
            ob = s.mem.pop(r.o); x.store_n(s, Ptr(*ob.name[1:3]), 32, GPre([], 0)); return
        raise Unsupported('any')
    if k == 'pref': x.store_n(s, r.p, 8, Ptr(r.old.o, simp(v), r.old.p.s))
    elif k == 'out32': x.store_n(s, r.p, 4, v)
    elif k == 'svref':
        b, n = v
        x.store_n(s, r.p, 8, simp(n)); x.store_n(s, x.padd(s, r.p, 8, []), 8, Ptr(r.old.o, simp(b)))
    elif k in ('str&', 'backins', 'str'):
        x.prog.h['put'](x, s, r.p, GStr(v, r.old.es))
    elif k == 'set':       # v: what the new list holds of any one code point
        t = x.freshseq('set'); g = GVec([('t', t)], 8); x.prog.h['vput'](x, s, r.p, g)
        x.add(s, *v(t)); x.add(s, z3.ULE(vlen(t), k64(1 << 59)))
    elif k == 'boolptr':
        if isinstance(r, Ptr) and r.o != 0: x.store_n(s, r, 1, BI(v, 8))
    elif k == 'buf' and isinstance(v, Enc): x.cur_write(s, r.p, [('t', lib.ENC('', v.c))], lib.enclen(v.c))
    elif k == 'inplace':
        ob = s.mem.pop(r.o); x.store_n(s, Ptr(*ob.name[1:3]), 32, GPre([('t', v[0])], v[1]))
    elif k == 'buf':
        for i, b in enumerate(v): x.store_n(s, x.padd(s, r.p, i, []), 1, simp(b))
    elif k == 'buf32':
        for i, b in enumerate(v): x.store_n(s, x.padd(s, r.p, 4 * i, []), 4, simp(b))
    else: raise Unsupported('write to ' + k)
def mkval(x, s, k, v, a):
    """engine value of the abstract result v"""
    if k == 'void': return None
    if k == 'i1': return simpb(v)
    if k in ('i32', 'i64'): return simp(bv(v, int(k[1:])))
    if k == 'subr': return (simp(b64(v[0])), simp(b64(v[1])))
    if k == 'sv':
        if v is None: return (0, NULL)
        view, b, n = v
        return (simp(b64(n)), Ptr(view.o, simp(b64(b))))
    if k == 'str' or k == 'str32':
        x.prog.h['put'](x, s, a._sret, GStr(v, 1 if k == 'str' else 4)); return None
    if k == 'vec':
        x.prog.h['vput'](x, s, a._sret, v); return None
    if k == 'pairsc':
        x.store_n(s, a._sret, 8, simp(b64(v[0]))); x.store_n(s, x.padd(s, a._sret, 8, []), 8, simp(b64(v[1]))); x.store_n(s, x.padd(s, a._sret, 16, []), 4, simp(bv(v[2], 32))); return None
    if k == 'pcs':
        x.store_n(s, a._sret, 4, simp(bv(v[0], 32)))
        for i in (0, 1): x.store_n(s, x.padd(s, a._sret, 8 + 8 * i, []), 8, simp(b64(v[1][i])))
        return None
    if k == 'opt':
        if v is None: return PCS([(4, 1, 0)], 8)
        return PCS([(0, 4, simp(v)), (4, 1, 1)], 8)
    if k == 'pp':
        (p, f), (q, g) = v
        return (Ptr(p.o, simp(f)), Ptr(q.o, simp(g)))
    if k == 'ptr': return Ptr(v[0].o, simp(v[1]), v[0].s)
    if k == 'cc': return PCS([(0, 4, simp(v[0])), (4, 4, simp(v[1]))], 8)
    if k == 'bn': return (simpb(v[0]) if isinstance(simpb(v[0]), int) else BI(v[0], 8), simp(b64(v[1])))
    if k == 'strref' : return getattr(a, v).p
    raise Unsupported('result kind ' + k)
def simpb(v):
    if isinstance(v, bool): return int(v)
    v = z3.simplify(v, bv_le2extract=False)
    return 1 if z3.is_true(v) else 0 if z3.is_false(v) else v

def eqval(x, s, k, act, exp, a):
    """condition: the actual result act is the abstract value exp (False if impossible)"""
    sc = x.scalar
    if k == 'void': return True
    if isinstance(act, Undef): return False
    if k == 'i1': return tobool(x, act) == zb(exp)
    if k in ('i32', 'i64'): return bv(sc(act), int(k[1:])) == bv(exp, int(k[1:]))
    if k == 'subr':
        act = pair64(x, act)
        if any(isinstance(q, Undef) for q in act): return False
        return And(b64(sc(act[0])) == b64(exp[0]), b64(sc(act[1])) == b64(exp[1]))
    if k == 'sv':
        act = pair64(x, act)
        if isinstance(act[0], Undef): return False
        n = b64(sc(act[0]))
        if exp is None: return n == k64(0)
        view, b, en = exp
        if isinstance(act[1], Ptr) and act[1].o == view.o: return And(n == b64(en), Or(n == k64(0), b64(act[1].f) == b64(b)))
        return And(n == k64(0), b64(en) == k64(0))
    if k in ('str', 'str32'):
        v = x.prog.h['gs'](x, s, a._sret); return v.term() == seq(exp)
    if k == 'vec':
        v = x.load_n(s, a._sret, 24)
        if not isinstance(v, GVec): return False
        return v.term() == exp.term()
    if k == 'pairsc':
        vs = [x.load_n(s, a._sret, 8), x.load_n(s, x.padd(s, a._sret, 8, []), 8), x.load_n(s, x.padd(s, a._sret, 16, []), 4)]
        if any(isinstance(v, Undef) for v in vs): return False
        return And(b64(sc(vs[0])) == b64(exp[0]), b64(sc(vs[1])) == b64(exp[1]), bv(sc(vs[2]), 32) == bv(exp[2], 32))
    if k == 'pcs':
        vs = [x.load_n(s, a._sret, 4), x.load_n(s, x.padd(s, a._sret, 8, []), 8), x.load_n(s, x.padd(s, a._sret, 16, []), 8)]
        if any(isinstance(v, Undef) for v in vs): return False
        return And(bv(sc(vs[0]), 32) == bv(exp[0], 32), b64(sc(vs[1])) == b64(exp[1][0]), b64(sc(vs[2])) == b64(exp[1][1]))
    if k == 'opt':
        c = pcs(x, act, 8)
        fl = x.cell_load(c, 4, 1); v = x.cell_load(c, 0, 4)
        if isinstance(fl, Undef): return False
        fl = tobool(x, fl)
        if exp is None: return Not(fl)
        if isinstance(v, Undef): return False
        return And(fl, bv(sc(v), 32) == exp)
    if k == 'ptr':
        p, f = exp
        return b64(act.f) == f if isinstance(act, Ptr) and act.o == p.o else False
    if k == 'pp':
        (p, f), (q, g) = exp; act = pair64(x, act)
        if not (isinstance(act[0], Ptr) and isinstance(act[1], Ptr) and act[0].o == p.o and act[1].o == q.o): return False
        return And(b64(act[0].f) == f, b64(act[1].f) == g)
    if k == 'cc':
        c = pcs(x, act, 8); u = x.cell_load(c, 0, 4); v = x.cell_load(c, 4, 4)
        if isinstance(u, Undef) or isinstance(v, Undef): return False
        return And(bv(sc(u), 32) == exp[0], bv(sc(v), 32) == exp[1])
    if k == 'bn':
        if not isinstance(act, tuple): c = pcs(x, act, 16); act = (x.cell_load(c, 0, 1), x.cell_load(c, 8, 8))
        if any(isinstance(v, Undef) for v in act): return False
        return And(tobool(x, act[0]) == zb(exp[0]), b64(sc(act[1])) == b64(exp[1]))
    if k == 'strref':
        r = getattr(a, exp).p
        return isinstance(act, Ptr) and act.o == r.o and act.f == r.f
    raise Unsupported('result kind ' + k)
def pair64(x, v):
    if isinstance(v, tuple): return v
    c = pcs(x, v, 16); return (x.cell_load(c, 0, 8), x.cell_load(c, 8, 8))
def pcs(x, v, n):
    if isinstance(v, PCS): return Cells(n, {o: (k, w) for o, k, w in v.p})
    return Cells(n, {0: (n, v)})

def eqref(x, s, k, r, new):
    """condition: the reference parameter r holds `new` now (new None: unchanged)"""
    if isinstance(new, Any): return True
    if k == 'pref':
        v = x.load_n(s, r.p, 8)
        f = r.old.F if new is None else b64(new)
        return And(b64(v.f) == f) if isinstance(v, Ptr) and v.o == r.old.o and v.s == r.old.p.s else False
    if k == 'out32':
        v = x.load_n(s, r.p, 4)
        if new is None: return bv(x.scalar(v), 32) == r.init if not isinstance(v, Undef) else False
        return bv(x.scalar(v), 32) == bv(new, 32) if not isinstance(v, Undef) else False
    if k == 'svref':
        n = x.load_n(s, r.p, 8); p = x.load_n(s, x.padd(s, r.p, 8, []), 8)
        eb, en = (r.old.B, r.old.N) if new is None else (b64(new[0]), b64(new[1]))
        if isinstance(n, Undef) or not isinstance(p, Ptr) or p.o != r.old.o: return False
        return And(b64(x.scalar(n)) == en, b64(p.f) == eb)
    if k == 'tokit':
        vs = [x.load_n(s, x.padd(s, r.p, 8 * i, []), 8) for i in range(4)]; eb, en, eo, el = map(b64, new or (r.old.B, r.old.N) + r.tok)
        if any(isinstance(v, Undef) for v in vs) or not isinstance(vs[1], Ptr) or vs[1].o != r.old.o: return False
        return And(b64(x.scalar(vs[0])) == en, b64(vs[1].f) == eb, b64(x.scalar(vs[2])) == eo, b64(x.scalar(vs[3])) == el)
    if k == 'set':
        w = lib.mkset(x, s, r.p); return And(w.neg == r.neg, w.t == r.t if new is None else And(*new(w.t)))
    if k in ('str&', 'backins'):
        v = x.prog.h['gs'](x, s, r.p)
        return v.term() == seq(r.old.p if new is None else new)
    if k == 'boolptr':
        if r.o == 0: return True
        v = x.load_n(s, r, 1)
        if isinstance(v, Undef): return False
        return tobool(x, v) == (x.boolinit if new is None else zb(new))
    if k == 'inplace':
        q = s.mem[s.mem[r.o].cur]; w = b64(q.d[32][1]); out = list(q.d[0][1].p)
        if new is None: return And(w == r.B, seq(out) == EMPTY)
        e = r.B + b64(new[1])
        return And(z3.ULE(w, e), z3.ULE(e, r.E), seq(out + [('sl', r.c, simp(w), simp(e))]) == seq([('t', new[0])]))
    if k in ('buf', 'buf32'):
        w = 8 if k == 'buf' else 32; ob = s.mem[r.p.o]; new = new or []
        k = x.fresh('anyidx', 64); old = ob.c.sel(k); e = old
        for i, b in enumerate(new): e = z3.If(k == b64(r.f) + k64(i), bv(b, w), e)
        v = old
        for wf, ws, wn, wv in ob.w: v = z3.If(k == b64(wf), bv(x.scalar(wv), w), v)
        return v == e
    return True

# ---- building the symbolic initial state --------------------------------------------------------
def setup(x, st, c, piece=None):
    a = A(); a.x = x; a.call = False; a.st = st; a.piece = piece and piece.get('data')
    av = []
    if c.ret in SRET:
        size = {'str': 32, 'str32': 32, 'vec': 24, 'pairsc': 24, 'pcs': 24}[c.ret]
        o = x.newobj(st, Cells(size, {}, 'result')); a._sret = Ptr(o, 0); av.append(a._sret)
    grp = {}
    def views(name):
        c = lib.ViewArray(name)
        c.obj = x.newobj(st, Arr(c.data, 0, K(-1, 64), True, (), name + '.text'))
        return view(name, 16, c)
    def view(name, es, cont=None):
        cont = cont or Content(es, name)
        b = z3.BitVec(name + '.b', 64); n = z3.BitVec(name + '.n', 64)
        x.add(st, z3.ULE(b, LIM), z3.ULE(n, k64(c.maxn)))
        e = simp(b + n)
        o = x.newobj(st, Arr(cont, b, e, True, (), name))
        p = Ptr(o, b)
        x.inputs.append((name, 'arr', (cont, b, e)))
        v = View(o, cont, b, n, p); x.basef.setdefault(cont.uid, []).append(b)
        return v
    for name, k in c.params:
        k0, _, g = k.partition('@')       # pointers into the same array share a group
        if k0 in ('sv', 'sv32'):
            v = view(name, 4 if k0 == 'sv32' else 1); av += [v.n, v.p]
        elif k0 == 'svm':
            v = view(name, 1); o = x.newobj(st, Cells(16, {0: (8, v.n), 8: (8, v.p)}, name)); av.append(Ptr(o, 0))
        elif k0 in ('i64', 'i32', 'i8') and piece and name in piece:
            w = int(k0[1:]); lo, hi = piece[name]
            if lo == hi: v = K(lo, w); av.append(lo)
            else:
                v = z3.BitVec('%s.%x' % (name, lo), w); av.append(v); x.rng[v.get_id()] = (lo, hi)
                x.add(st, z3.ULE(K(lo, w), v), z3.ULE(v, K(hi, w)))
            x.inputs.append((name, 'val', v))
        elif '=' in k0: av.append(int(k0.split('=')[1])); v = K(av[-1], int(k0[1:].split('=')[0]))
        elif k0 in ('i64', 'i32', 'i8'):
            v = z3.BitVec(name, int(k0[1:])); av.append(v); x.inputs.append((name, 'val', v))
        elif k0 == 'i1':
            v = z3.Bool(name); av.append(v); x.inputs.append((name, 'val', v))
        elif k0 in ('cref8', 'cref32'):
            w = int(k0[4:]); v = z3.BitVec(name, w); av.append(Ptr(x.newobj(st, Cells(w // 8, {0: (w // 8, v)}, name)), 0)); x.inputs.append((name, 'val', v))
        elif k0 in ('ptr', 'ptr32', 'pref', 'vptr'):
            g = g or 'arr'
            if g not in grp: grp[g] = views(g) if k0 == 'vptr' else view(g, 4 if k0 == 'ptr32' else 1)
            w = grp[g]
            f = z3.BitVec(name + '.pos', 64)
            x.add(st, z3.ULE(w.B, f), z3.ULE(f, w.E))
            x.inputs.append((name, 'val', f - w.B))
            pos = Pos(w.o, w.c, f, Ptr(w.o, f)); x.basef[w.c.uid].append(f)
            if k0 != 'pref': v = pos; av.append(pos.p)
            else:
                o = x.newobj(st, Cells(8, {0: (8, pos.p)}, name)); v = Ref(Ptr(o, 0), pos); av.append(v.p)
        elif k0 == 'out32':
            init = z3.BitVec(name + '.init', 32)
            o = x.newobj(st, Cells(4, {0: (4, init)}, name)); v = Ref(Ptr(o, 0), None); v.init = init; av.append(v.p)
        elif k0 == 'svref':
            w = view(name, 1)
            o = x.newobj(st, Cells(16, {0: (8, w.n), 8: (8, w.p)}, name)); v = Ref(Ptr(o, 0), w); av.append(v.p)
        elif k0 in ('str&', 'backins', 'str'):
            w = view(name, 1)
            g0 = GStr([('sl', w.c, w.b, w.e)], 1)
            o = x.newobj(st, Cells(32, {0: (32, g0)}, name)); v = Ref(Ptr(o, 0), g0); v.view = w; av.append(v.p)
        elif k0 == 'set':
            v = lib.setup_set(x, st, name); av.append(v.p)
        elif k0 == 'subr':
            v = (z3.BitVec(name + '.off', 64), z3.BitVec(name + '.len', 64)); av += list(v)
            x.inputs += [(name + '.offset', 'val', v[0]), (name + '.length', 'val', v[1])]
        elif k0 == 'split':
            v = (z3.BitVec(name + '.max', 64), z3.Bool(name + '.ign')); av += [v[0], BI(v[1], 8)]
            x.inputs += [(name + '.max_splits', 'val', v[0]), (name + '.ignore_empty', 'val', v[1])]
        elif k0 == 'splitm':
            v = (z3.BitVec(name + '.max', 64), z3.Bool(name + '.ign')); av.append(Ptr(x.newobj(st, Cells(16, {0: (8, v[0]), 8: (1, BI(v[1], 8))}, name)), 0))
            x.inputs += [(name + '.max_splits', 'val', v[0]), (name + '.ignore_empty', 'val', v[1])]
        elif k0 == 'inplace':
            w = view(name, 1); q = x.newobj(st, Cells(40, {0: (32, GStr([], 1)), 32: (8, w.b)}, name)); st.mem[w.o] = Arr(w.c, w.b, w.e, False, (), name, q)
            v = Inplace(w.o, w.c, w.b, w.n, w.p); v.cur = q; av += [v.p, v.n]
        elif k0 == 'boolptr':
            x.boolinit = z3.Bool(name + '.init'); v = NULL if piece['null'] else Ptr(x.newobj(st, Cells(1, {0: (1, BI(x.boolinit, 8))}, name)), 0); av.append(v)
        elif k0 == 'tokit':      # the part of the text that is left and the current token
            w = view(name, 1); v = Ref(None, w); v.tok = (z3.BitVec(name + '.off', 64), z3.BitVec(name + '.len', 64))
            v.p = Ptr(x.newobj(st, Cells(40, {0: (8, w.n), 8: (8, w.p), 16: (8, v.tok[0]), 24: (8, v.tok[1])}, name)), 0); av.append(v.p)
        elif k0 == 'obj':
            o = x.newobj(st, Cells(16, {}, name)); v = Ptr(o, 0); av.append(v)
        elif k0 in ('buf', 'buf32'):
            w = view(name, 1 if k0 == 'buf' else 4)
            st.mem[w.o] = Arr(w.c, w.b, w.e, False, (), name); v = Buf(x, st, w.p); av.append(v.p)
        else: raise Unsupported('parameter kind ' + k0)
        setattr(a, name, v)
    return a, av

class Result:
    pass

def verify(prog, c, budget=120, timeout=None):
    """all obligations of the body of c; returns a Result"""
    r = Result(); r.name = c.name; r.sig = c.sig; r.error = None; r.kind = 'contract'
    t0 = time.time()
    x = Exec(prog, c.name, timeout or c.timeout, c.depth)
    x.self_contract = c; x.inline_names = set(c.need)
    x.deadline = t0 + budget
    if c.unroll is not None: x.KUNROLL = c.unroll
    x.merge = c.merge
    Revealed.opaque = set(n for n, f in Fam.all.items() if f.defopaque or n in c.close) - c.open
    try:
        sym = find_sym(prog, c)
        if sym is None: raise Unsupported('function not found: ' + c.sig)
        fn = prog.fn(sym); nret = 0
        if c.split:
            ps = c.split(); x.nobl += 1
            if covers(ps, c): x.ndis += 1
            else: x.fails.append(Fail('the pieces cover every value', c.name, 'sat'))
            ps = ps[len(ps) * c.part // c.parts:len(ps) * (c.part + 1) // c.parts]
        else: ps = [None]
        if any(k == 'boolptr' for n, k in c.params): ps = [dict(null=True), dict(null=False)]
        for piece in ps:
            outs, n = vpiece(x, prog, c, fn, piece); nret += n
        if not outs: x.fails.append(Fail('no path reaches the end', c.name, 'unknown'))
    except (Unsupported, Budget, NeedCut) as e:
        r.error = '%s: %s' % (type(e).__name__, e)
        if x.fails: r.error += ' (after %d open obligations)' % len(x.fails)
    except RecursionError as e: r.error = 'recursion'
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, NameError, AssertionError, z3.Z3Exception) as e:
        import traceback
        r.error = 'engine: %s: %s' % (type(e).__name__, traceback.format_exc().strip().splitlines()[-3].strip() + ' ' + str(e)[:100])
        if x.tb: traceback.print_exc()
    r.nobl = x.nobl; r.ndis = x.ndis; r.fails = x.fails; r.time = time.time() - t0; r.stime = x.solver.time; r.used = set(x.used); r.inlined = set(x.inlined)
    r.models = set(x.model_used); r.cuts = x.cuts; r.kinds = dict(x.obkinds); r.solvercalls = x.solver.calls; r.steps = x.steps; r.byint = x.solver.byint; r.cover = [nret > 0] if 'nret' in locals() else None; r.fams = set(x.famused); r.trusted = set(); r.notes = list(x.notes)
    return r

def vpiece(x, prog, c, fn, piece):
    st = State()
    x.rng = {}; x.inputs = []; x.ival = ival.Ival(x.rng) if piece else None
    a, av = setup(x, st, c, piece)
    if c.pre: x.add(st, *c.pre(a))
    cs = c.cases(a)
    lem = c.lemmas(a) if c.lemmas else []
    x.hints = (lambda: c.hints(a)) if c.hints else None; x.uses = c.uses; x.used.update(c.laws)
    x.seeds = seeds_of(x, st, cs, c, lem + (c.seeds(a) if c.seeds else []))
    x.add(st, *lem)
    if c.templ: x.templ = list(c.templ)
    x.a = a
    x.push(st, fn, av, None)
    st.pend = fn.entry
    outs = x.run([enter0(x, st, fn)])
    kinds = [(n, k.partition('@')[0]) for n, k in c.params]
    nret = 0
    for o in outs:
        s = o[1]; neg = []
        for i, (cond, out) in enumerate(cs):
            g = And(*(neg + [zb(cond)])); neg.append(Not(zb(cond)))
            lab = 'post[%d]' % i
            if o[0] == 'ret' and isinstance(out, R):
                if g is FALSE: continue
                if not x.feasible(s, g): 
                    x.oblige(s, lab, Not(g)); continue
                s2 = s.fork(); x.add(s2, g)
                v = out.v
                x.oblige(s2, lab + ' result', zb(eqval(x, s2, c.ret, o[2], v, a)))
                frames(x, s2, c, a, kinds, out, lab)
                nret += 1
            elif o[0] == 'throw' and isinstance(out, T):
                if not x.feasible(s, g): 
                    x.oblige(s, lab, Not(g)); continue
                s2 = s.fork(); x.add(s2, g)
                x.oblige(s2, lab + ' exception type', prog.derives(o[2], YEXC))
                frames(x, s2, c, a, kinds, out, lab)
                nret += 1
            else:
                x.oblige(s, lab + (' must throw' if isinstance(out, T) else ' must return'), Not(g))
        x.oblige(s, 'post: cases complete', Or(*[zb(q[0]) for q in cs]))
    return outs, nret
def covers(ps, c):
    """the boxes are all values of the split parameters, in order"""
    names = [n for n, k in c.params if n in ps[0]]; w = [(1 << int(dict(c.params)[n][1:])) - 1 for n in names]
    if c.tops: w = [c.tops.get(n, q) for n, q in zip(names, w)]
    def rec(ps, d):
        if d == len(names): return len(ps) == 1
        i = 0; n = 0
        while i < len(ps):
            lo, hi = ps[i][names[d]]; j = i
            while j < len(ps) and ps[j][names[d]] == (lo, hi): j += 1
            if lo != n or hi < lo or not rec(ps[i:j], d + 1): return False
            n = hi + 1; i = j
        return n == w[d] + 1
    return rec(ps, 0)

def enter0(x, st, fn):
    st.pend = None
    if fn.entry in fn.loops(): raise Unsupported('entry is a loop header')
    return st
def frames(x, s, c, a, kinds, out, lab):
    for n, k in kinds:
        if k in ('pref', 'out32', 'svref', 'str&', 'backins', 'boolptr', 'buf', 'buf32', 'set', 'inplace', 'tokit'):
            x.oblige(s, lab + ' ' + n, zb(eqref(x, s, k, getattr(a, n), out.w.get(n))))
def find_sym(prog, c):
    if c.rx is None: return prog.find(c.sig)
    for sg, n in prog.bysig.items():
        if c.rx.search(sg): return n
    return None
def terms_of(out):
    def rec(v):
        if v is None or isinstance(v, (int, str, Any, View, Pos, Ref, Ptr)): return []
        if isinstance(v, z3.ExprRef): return [v]
        if isinstance(v, (tuple, list)): return [t for q in v for t in rec(q)]
        if isinstance(v, GVec): return [v.term()]
        return []
    ts = rec(out.v) if isinstance(out, R) else []
    for v in out.w.values(): ts += rec(v)
    return ts
def seeds_of(x, st, cs, c, lem=()):
    ids = []; lev = {}
    def addt(t, l):
        for i in sorted(apps_in(t)):
            if i not in lev: lev[i] = l; ids.append(i)
    for t in lem: addt(zb(t), 0)
    for cond, out in cs:
        addt(zb(cond), 0)
        for t in terms_of(out): addt(t, 0)
    k = 0
    while k < len(ids):
        i = ids[k]; k += 1
        if lev[i] >= c.seeddepth: continue
        f, key, args, app = APPS[i]
        if f.unfold and f.name not in Revealed.opaque:
            d = f.unfold(key, *args)
            if d is not None: addt(zb(d), lev[i] + 1)
    return ids
