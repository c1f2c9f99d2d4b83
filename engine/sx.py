"""Path-based symbolic executor / obligation generator over clang -O0 LLVM IR."""
import re, time, z3
import ir
from spec import *

class Unsupported(Exception): pass      # tool limit: the function is outside the engine's reach
class NeedCut(Exception): pass
class Budget(Exception): pass

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class Ptr:
    __slots__ = ('o', 'f', 's')          # object id, offset in elements, byte offset inside the element
    def __init__(p, o, f=0, s=0): p.o = o; p.f = f; p.s = s
    def __repr__(p): return 'Ptr(%s,%s,%s)' % (p.o, p.f, p.s)
NULL = Ptr(0, 0)
class PI:
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class SC:
    """k * v, v a 64-bit term (byte distance between element pointers)"""
    __slots__ = ('k', 'v')
    def __init__(s, k, v): s.k = k; s.v = v
class BI:
    """zero-extended boolean of width w"""
    __slots__ = ('b', 'w')
    def __init__(s, b, w): s.b = b; s.w = w
class PCS:
    __slots__ = ('p', 'n')
    def __init__(s, p, n): s.p = p; s.n = n
class FnP:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
class GStr:
    """value of a std::basic_string: list of pieces"""
    def __init__(s, pieces, es): s.p = tuple(pieces); s.es = es
    def term(s): return seq(s.p)
    def __repr__(s): return 'GStr(%s)' % (s.term(),)
class GVec:
    """value of a std::vector: list of pieces, element size"""
    def __init__(s, pieces, es, back=None): s.p = tuple(pieces); s.es = es; s.back = back     # back: object that holds the last element
    def term(s): return seq(s.p)
    @property
    def n(s): return vlen(s.term())
    def __repr__(s): return 'GVec(%s)' % (s.term(),)
class GBuf:
    """value of a std::u32string that is used as a buffer: the object that holds its characters"""
    __slots__ = ('o',)
    def __init__(s, o): s.o = o

class GPre:
    """value of a std::string of which only a prefix is known: its characters, their number"""
    __slots__ = ('p', 'n')
    def __init__(s, p, n): s.p = p; s.n = n

class Cells:
    __slots__ = ('size', 'd', 'name', 'frame')
    def __init__(s, size, d=None, name='', frame=None): s.size = size; s.d = d if d is not None else {}; s.name = name; s.frame = frame
    def copy(s): return Cells(s.size, dict(s.d), s.name, s.frame)
class Arr:
    __slots__ = ('c', 'lo', 'hi', 'ro', 'w', 'name', 'cur')
    def __init__(s, c, lo, hi, ro=True, w=(), name='', cur=None): s.cur = cur; s.c = c; s.lo = lo; s.hi = hi; s.ro = ro; s.w = w; s.name = name
class Tab:
    __slots__ = ('m', 't', 'init', 'es', 'n', 'e', 'cont')
    def __init__(s, m, t, init):
        s.m = m; s.t = t; s.init = init; s.cont = None
        if t.k == 'a': s.e = t.e; s.es = m.size(t.e); s.n = t.n
        else: s.e = t; s.es = m.size(t); s.n = 1
class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'i', 'regs', 'dest', 'allocas', 'unw', 'res', 'post')
    def copy(s):
        f = Frame(); f.fn = s.fn; f.blk = s.blk; f.prev = s.prev; f.i = s.i; f.regs = dict(s.regs); f.dest = s.dest; f.unw = s.unw
        f.allocas = list(s.allocas); f.res = s.res; f.post = s.post
        return f
class State:
    __slots__ = ('mem', 'frames', 'pc', 'known', 'pend', 'exc', 'sym', 'forked', 'proved', 'caught', 'trace', 'dead', 'res')
    def __init__(s):
        s.mem = {}; s.frames = []; s.pc = []; s.known = {}; s.pend = None; s.exc = None; s.sym = False; s.forked = False; s.proved = set(); s.caught = []; s.trace = []; s.dead = False; s.res = None
    def fork(s):
        t = State(); t.mem = dict(s.mem); t.frames = [f.copy() for f in s.frames]; t.pc = list(s.pc); t.known = dict(s.known)
        t.pend = s.pend; t.exc = s.exc; t.sym = s.sym; t.forked = s.forked; t.proved = set(s.proved); t.caught = list(s.caught); t.trace = list(s.trace); t.res = s.res
        return t

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Fail:
    """an obligation that was not discharged"""
    def __init__(s, what, where, verdict, inputs=None, detail=''):
        s.what = what; s.where = where; s.verdict = verdict; s.inputs = inputs; s.detail = detail
    def __repr__(s): return '%s at %s: %s %s' % (s.what, s.where, s.verdict, s.detail)

class Exec:
    byteslices = False     # slices of one byte are given as that byte
    KUNROLL = 5; tb = False; ival = None; byival = 0; factlimit = 1 << 30
    def __init__(x, prog, top=None, timeout=8000, depth=1):
        x.prog = prog; x.solver = Solver(timeout); x.oid = 0; x.fresh_n = 0
        x.ctxs = []; x.quiet = 0; x.fails = []; x.nobl = 0; x.ndis = 0; x.obkinds = {}
        x.depth = depth; x.top = top; x.seeds = []; x.deadline = None; x.used = set(); x.inlined = set(); x.model_used = set()
        x.templ = []; x.basef = {}; x.nloops = 0; x.cuts = []; x.steps = 0; x.notes = []
        x.self_contract = None; x.inline_names = set(); x.inputs = []; x.strobjs = {}; x.vecobjs = {}; x.veccont = {}; x.pure_calls = set(); x.famused = set(); x.havocked = False; x.merge = False; x.isfact = {}
    # ---- misc
    def fresh(x, name, w):
        x.fresh_n += 1
        if w == 0: return z3.Bool('%s!%d' % (name, x.fresh_n))
        return z3.BitVec('%s!%d' % (name, x.fresh_n), w)
    def freshseq(x, name):
        x.fresh_n += 1; return z3.Const('%s!%d' % (name, x.fresh_n), SEQ)
    def anycontent(x, es):
        x.fresh_n += 1; return Content(es, 'any!%d' % x.fresh_n)
    def newobj(x, st, obj):
        x.oid += 1; st.mem[x.oid] = obj; return x.oid
    # ---- facts
    def expand(x, conds, known, out):
        """conds -> appends to out the conditions plus facts / unfoldings of the spec applications in them"""
        work = []; start = len(out); ids = set(c.get_id() for c in conds) if x.merge else None
        for c in conds:
            out.append(c)
            for a in apps_in(c):
                if known.get(a, 99) > 0: work.append((a, 0))
        while work:
            a, lev = work.pop()
            if known.get(a, 99) <= lev: continue
            first = a not in known
            known[a] = lev
            fam, key, args, app = APPS[a]
            cs = []
            if first and fam.facts and fam.idx < x.factlimit: cs += fam.facts(key, app, *args); x.famused.add(fam.name)
            if lev == 0 and fam.near and fam.idx < x.factlimit: cs += fam.near(key, app, *args); x.famused.add(fam.name)
            if lev == 0 and fam.name in x.uses: cs += x.uses[fam.name](key, *args)
            if lev < x.depth and fam.unfold and fam.name not in Revealed.opaque:
                d = fam.unfold(key, *args)
                if d is not None: cs.append(app == d)
            for c in cs:
                c = zb(c)
                if c is TRUE: continue
                out.append(c)
                for b in apps_in(c):
                    if known.get(b, 99) > lev + 1: work.append((b, lev + 1))
        x.seqfacts(out, known)
        if x.merge:
            for c in out[start:]:
                if c.get_id() not in ids: x.isfact[c.get_id()] = c
    def seqfacts(x, out, known):
        """laws of concatenation for the sequence terms in the conditions"""
        work = []
        for c in out:
            for i in seqs_in(c):
                if known.get(('q', i), 99) > 0: work.append((i, 0))
        def fact(c, lev):
            if c is TRUE or z3.is_true(c): return
            out.append(c)
            for i in seqs_in(c):
                if known.get(('q', i), 99) > lev + 1: work.append((i, lev + 1))
        while work:
            i, lev = work.pop()
            if known.get(('q', i), 99) <= lev: continue
            first = ('q', i) not in known
            known[('q', i)] = lev
            t = SQT[i]
            if t.decl().eq(SL):
                if first:
                    out.append(z3.Implies(t.arg(1) == t.arg(2), t == EMPTY))
                    c = SLS[i][1][1] if i in SLS else None
                    if c is not None and c.es in (1, 4) and x.byteslices and z3.simplify(t.arg(2) - t.arg(1)).eq(k64(1)): fact(t == seq([('byte' if c.es == 1 else 'u32', c.sel(t.arg(1)))]), lev)
                continue
            a, b = t.arg(0), t.arg(1)
            if first:
                if may_empty(a): out.append(z3.Implies(a == EMPTY, t == b))
                if may_empty(b): out.append(z3.Implies(b == EMPTY, t == a))
            if lev >= 2: continue
            sa = SLS.get(a.get_id())
            if sa is not None:
                h = b.arg(0) if z3.is_app(b) and b.decl().eq(CAT) else b
                sb = SLS.get(h.get_id())
                if sb is not None and sb[1][1] is sa[1][1]:
                    _, c, i0, j0 = sa[1]; _, _, i1, j1 = sb[1]
                    rest = [('t', b.arg(1))] if h is not b and not h.eq(b) else []
                    fact(z3.Implies(z3.And(b64(j0) == b64(i1), z3.ULE(b64(i0), b64(j0)), z3.ULE(b64(i1), b64(j1))), t == seq([('sl', c, i0, j1)] + rest)), lev)
            for u, head in ((a, True), (b, False)):
                q = APPS.get(u.get_id())
                if q is None: continue
                fam, key, args, app = q
                if not fam.unfold or fam.name in Revealed.opaque or known.get(u.get_id(), 99) >= x.depth: continue
                d = fam.unfold(key, *args)
                if d is None: continue
                for g, e in leaves(d):
                    if e.eq(EMPTY): continue
                    n = seq([('t', e), ('t', b)]) if head else seq([('t', a), ('t', e)])
                    if n.eq(t): continue
                    fact(z3.Implies(z3.And(*g), t == n) if g else t == n, lev)
    def add(x, st, *conds):
        cs = []
        for c in conds:
            if c is True or c is TRUE: continue
            if c is False: c = FALSE
            cs.append(c)
        if cs: x.expand(cs, st.known, st.pc)
    def check(x, st, *conds, precise=True, model=False):
        x.tick()
        cs = [zb(c) for c in conds]
        for c in cs:
            if c is FALSE: return 'unsat'
        tmp = []; known = dict(st.known)
        x.expand(cs, known, tmp)
        return x.solver.check(st.pc, tmp, precise, model)
    def tick(x):
        if x.deadline and time.time() > x.deadline: raise Budget('time budget')
    def feasible(x, st, c):
        if c is True or c is TRUE: return True
        if c is False or c is FALSE: return False
        if x.ival and x.ival.b(c) is False: return False
        return x.check(st, c, precise=False) != 'unsat'
    def valid(x, st, c):
        if c is True or c is TRUE: return True
        if c is False or c is FALSE: return x.check(st) == 'unsat'
        return x.check(st, Not(c)) == 'unsat'
    def where(x, st):
        if not st.frames: return x.top or '?'
        f = st.frames[-1]
        return ir.demangle([f.fn.name])[0].split('(')[0]
    def oblige(x, st, kind, c):
        """obligation: c holds here; afterwards it is assumed"""
        if c is True or c is TRUE:
            if not x.quiet: x.nobl += 1; x.ndis += 1; x.obkinds[kind] = x.obkinds.get(kind, 0) + 1
            return True
        c = zb(c)
        cid = c.get_id()
        if cid in st.proved: return True
        if x.quiet:
            st.proved.add(cid); x.add(st, c); x.keep(c)
            return True
        x.nobl += 1; x.obkinds[kind] = x.obkinds.get(kind, 0) + 1
        if x.ival and x.ival.b(c): x.ndis += 1; x.byival += 1; return True
        r = x.check(st, Not(c))
        if r != 'unsat' and x.harder(st, Not(c)): r = 'unsat'; x.extra += 1
        if r == 'unsat': x.ndis += 1; ok = True
        else:
            ok = False
            if r == 'sat' and x.solver.model is None:
                r = x.check(st, Not(c), model=True)
                if r == 'unknown': r = 'sat'
            x.fails.append(Fail(kind, x.where(st), r, x.model_inputs(x.solver.model) if r == 'sat' else None, str(c)[:300]))
        st.proved.add(cid); x.keep(c)
        if not ok: x.add(st, c)
        elif r == 'unsat' and not z3.is_true(c): st.pc.append(c)
        return ok
    extra = 0; tries = 6; hints = None; uses = {}
    def harder(x, st, q):
        """an obligation that is not discharged is tried again with instances of proved laws and with more definitions unfolded"""
        if x.tries <= 0 or (x.deadline and x.deadline - time.time() < 20): return False
        opaque, depth = Revealed.opaque, x.depth; t0 = time.time()
        try:
            h = x.hints() if x.hints else []
            for o, d in ((opaque, depth), (opaque - {'ENC'}, depth), (set(), depth), (set(), depth + 1)):
                Revealed.opaque = o; x.depth = d; tmp = []
                if o == opaque and not h: continue
                x.expand(list(st.pc) + h + [q], {}, tmp)
                if len(tmp) < 4000 and x.solver.check(tmp, [], True, False) == 'unsat': return True
                if time.time() - t0 > 20: break
        finally: Revealed.opaque = opaque; x.depth = depth
        x.tries -= 1
        return False
    _kept = []
    def keep(x, c): Exec._kept.append(c)
    def model_inputs(x, m):
        out = {}
        if m is None: return out
        try:
            for name, kind, v in x.inputs:
                if kind == 'arr':
                    c, lo, hi = v
                    l = m.eval(b64(lo), model_completion=True).as_long(); h = m.eval(b64(hi), model_completion=True).as_long()
                    n = min(h - l, 64)
                    if n < 0: n = 0
                    if c.es in (1, 4): out[name] = [m.eval(c.sel(k64(l + i)), model_completion=True).as_long() for i in range(n)]
                    else: out[name] = 'length %d' % (h - l)
                    if h - l > n: out[name + '.size'] = h - l
                else:
                    r = m.eval(v, model_completion=True)
                    out[name] = r.as_long() if z3.is_bv_value(r) else str(r)
        except Exception as e: out['error'] = str(e)
        return out
    # ---- pointer helpers
    def es(x, st, o):
        ob = st.mem.get(o)
        if isinstance(ob, Arr): return ob.c.es
        if isinstance(ob, Tab): return ob.es
        return 1
    def padd(x, st, p, nbytes_const, scaled):
        """p + const bytes + sum idx*scale"""
        if not isinstance(p, Ptr): raise Unsupported('pointer arithmetic on %r' % (p,))
        es = x.es(st, p.o)
        f = p.f; s = p.s + nbytes_const
        if es == 1 and isinstance(f, int): f = f + s; s = 0
        elif es == 1: 
            if s: f = simp(f + k64(s)); s = 0
        else:
            q, s = divmod(s, es)
            if q: f = f + q if isinstance(f, int) else simp(f + k64(q))
        for idx, sc in scaled:
            if isinstance(idx, SC):
                if idx.k * sc % es: raise Unsupported('scaled index')
                k = idx.k * sc // es; idx = idx.v
            else:
                if sc % es:
                    if isinstance(idx, int):
                        t = sgn(idx, 64) * sc + s
                        q, s = divmod(t, es); f = f + q if isinstance(f, int) else simp(f + k64(q)); continue
                    raise Unsupported('index scale %d in object with element size %d' % (sc, es))
                k = sc // es
            if isinstance(idx, int):
                d = sgn(idx, 64) * k
                f = f + d if isinstance(f, int) else simp(f + k64(d))
            else:
                d = idx if k == 1 else idx * k64(k)
                f = simp(b64(f) + d) if not (isinstance(f, int) and f == 0) else simp(d)
        if isinstance(f, int) and not isinstance(st.mem.get(p.o), Cells) and f >= 1 << 63: f = sgn(f & mask(64), 64)
        return Ptr(p.o, f, s)
    def inbounds(x, st, p):
        ob = st.mem.get(p.o)
        if ob is None:
            if p.o == 0: return p.f == 0 and p.s == 0
            return True
        if isinstance(ob, Cells):
            if not isinstance(p.f, int): raise Unsupported('symbolic offset into local object')
            return 0 <= p.f <= ob.size
        if isinstance(ob, Tab):
            if isinstance(p.f, int): return 0 <= p.f * ob.es + p.s <= ob.n * ob.es
            return z3.ULE(p.f, k64(ob.n))
        if isinstance(p.f, int) and isinstance(ob.lo, int) and isinstance(ob.hi, int): return ob.lo <= p.f <= ob.hi
        f = b64(p.f)
        return And(z3.ULE(b64(ob.lo), f), z3.ULE(f, b64(ob.hi)))
    def peq(x, a, b):
        if a.o != b.o:
            return False
        if isinstance(a.f, int) and isinstance(b.f, int): return a.f == b.f and a.s == b.s
        if a.s != b.s: return False
        return z3_eq(b64(a.f), b64(b.f))
    # ---- memory
    def deref(x, st, p, size, what):
        if isinstance(p, Undef): 
            x.oblige(st, 'use of an indeterminate pointer', False); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
        ob = st.mem.get(p.o)
        if ob is None:
            if p.o == 0:
                x.oblige(st, 'null dereference', False); raise PathEnd()
            if isinstance(p.o, str): return x.globobj(st, p.o)
            x.oblige(st, 'access to a dead object', False); raise PathEnd()
        return ob
    def load(x, st, p, t):
        size = st.frames[-1].fn.m.size(t)
        return x.load_n(st, p, size, t)
    def load_n(x, st, p, size, t=None):
        ob = x.deref(st, p, size, 'load')
        if isinstance(ob, Cells):
            if not isinstance(p.f, int): raise Unsupported('symbolic offset into local object')
            if not (0 <= p.f and p.f + size <= ob.size):
                x.oblige(st, 'load in bounds', False); raise PathEnd()
            x.oblige(st, 'load in bounds', True)
            return x.cell_load(ob, p.f, size)
        if isinstance(ob, Arr):
            f = b64(p.f)
            x.oblige(st, 'load in bounds', And(z3.ULE(b64(ob.lo), f), z3.ULT(f, b64(ob.hi))))
            if ob.cur is not None: x.oblige(st, 'what is read has not been overwritten', z3.ULE(x.curpos(st, ob), f))
            if p.s + size > ob.c.es:
                if ob.c.es > size or p.s: raise Unsupported('load across elements')
                k = size // ob.c.es
                x.oblige(st, 'load in bounds', z3.ULE(f + k64(k), b64(ob.hi)))
                return PCS([(i * ob.c.es, ob.c.es, ob.c.sel(simp(f + k64(i)))) for i in range(k)], size)
            if hasattr(ob.c, 'ptrsub') and p.s in ob.c.ptrsub and size == 8:
                return ob.c.ptrsub[p.s](f)
            v = ob.c.sel(f, p.s, size)
            for (wf, ws, wn, wv) in ob.w:
                same = z3.simplify(b64(wf) == f)
                if z3.is_false(same): continue
                if ws == p.s and wn == size: 
                    if z3.is_true(same): v = wv
                    elif isinstance(wv, Ptr): raise Unsupported('pointer in array')
                    else: v = z3.If(same, bv(x.scalar(wv), size * 8), v)
                elif ws + wn <= p.s or p.s + size <= ws: continue
                else: raise Unsupported('mixed-size array access')
            return simp(v) if not isinstance(v, (Ptr,)) else v
        if isinstance(ob, Tab): return x.tab_load(st, ob, p, size)
        raise Unsupported('load from %r' % ob)
    def cell_load(x, ob, off, size):
        v = ob.d.get(off)
        if v is not None and v[0] == size: return v[1]
        parts = []
        for o, (n, val) in ob.d.items():
            if o + n <= off or off + size <= o: continue
            if off <= o and o + n <= off + size: parts.append((o - off, n, val))
            elif o <= off and off + size <= o + n:   # inside a bigger scalar
                if isinstance(val, Undef): return UNDEF
                if isinstance(val, PCS): 
                    c = Cells(n, {a: (b, w) for a, b, w in val.p}); return x.cell_load(c, off - o, size)
                val = x.scalar(val)
                if isinstance(val, int): return (val >> (8 * (off - o))) & mask(8 * size)
                if z3.is_bv(val): return simp(z3.Extract(8 * (off - o + size) - 1, 8 * (off - o), val))
                raise Unsupported('partial load of %r' % (val,))
            else:
                if isinstance(val, Undef): continue
                val = x.scalar(val)
                a = max(o, off); b = min(o + n, off + size)
                sub = x.cell_load(Cells(n, {0: (n, val)}), a - o, b - a)
                parts.append((a - off, b - a, sub))
        parts = [q for q in parts if not isinstance(q[2], Undef)]
        if not parts: return UNDEF
        return PCS(sorted(parts, key=lambda q: q[0]), size)
    def scalar(x, v, w=None):
        """materialise to int / BV"""
        if isinstance(v, int) or z3.is_bv(v): return v
        if isinstance(v, BI):
            if isinstance(v.b, (bool, int)): return int(v.b)
            return z3.If(v.b, K(1, v.w), K(0, v.w))
        if isinstance(v, SC): return simp(v.v * k64(v.k))
        if isinstance(v, PCS):
            tot = 0; parts = []
            pos = 0
            for o, n, val in v.p:
                if o != pos: raise Unsupported('use of partly indeterminate value')
                parts.append(bv(x.scalar(val), n * 8)); pos = o + n
            if pos != v.n: raise Unsupported('use of partly indeterminate value')
            if all(z3.is_bv_value(q) for q in parts):
                r = 0
                for q, (o, n, _) in zip(parts, v.p): r |= q.as_long() << (8 * o)
                return r
            return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
        if z3.is_bool(v): return z3.If(v, K(1, 1), K(0, 1))
        raise Unsupported('scalar value expected, got %r' % (v,))
    def store_n(x, st, p, size, v):
        ob = x.deref(st, p, size, 'store')
        if isinstance(ob, Cells):
            if not isinstance(p.f, int): raise Unsupported('symbolic offset into local object')
            if not (0 <= p.f and p.f + size <= ob.size):
                x.oblige(st, 'store in bounds', False); raise PathEnd()
            x.oblige(st, 'store in bounds', True)
            nb = ob.copy(); x.cell_store(nb, p.f, size, v); st.mem[p.o] = nb
            return
        if isinstance(ob, Arr):
            f = b64(p.f)
            x.oblige(st, 'store in bounds', And(z3.ULE(b64(ob.lo), f), z3.ULT(f, b64(ob.hi))))
            if ob.ro:
                x.oblige(st, 'store to read-only data', False); raise PathEnd()
            if ob.cur is not None:
                if size != 1: raise Unsupported('store across elements')
                v = x.scalar(v); fn = ob.c.f.get((0, 1))
                if isinstance(v, z3.ExprRef) and fn is not None and z3.is_app(v) and v.decl().eq(fn): return x.cur_write(st, p, [('sl', ob.c, v.arg(0), simp(v.arg(0) + k64(1)))], 1)
                return x.cur_write(st, p, [('byte', v)], 1)
            if p.s + size > ob.c.es: raise Unsupported('store across elements')
            st.mem[p.o] = Arr(ob.c, ob.lo, ob.hi, False, ob.w + ((p.f, p.s, size, v if isinstance(v, (Ptr, GStr)) else x.scalar(v)),), ob.name)
            return
        x.oblige(st, 'store to constant data', False); raise PathEnd()
    # an array that is rewritten from front to back: the text written so far, the position where it ends; what follows is as it was
    def curpos(x, st, ob): return b64(st.mem[ob.cur].d[32][1])
    def cur_write(x, st, p, ps, n):
        ob = st.mem[p.o]; f = b64(p.f); n = b64(n); w = x.curpos(st, ob)
        x.oblige(st, 'store in bounds', And(z3.ULE(b64(ob.lo), f), z3.ULE(f, b64(ob.hi)), z3.ULE(n, b64(ob.hi) - f)))
        x.oblige(st, 'stores move forward', z3.ULE(w, f))
        keep = [] if x.valid(st, w == f) else [('sl', ob.c, w, f)]
        nb = st.mem[ob.cur].copy(); out = nb.d[0][1]
        nb.d[0] = (32, GStr(list(out.p) + keep + ps, 1)); nb.d[32] = (8, simp(f + n)); st.mem[ob.cur] = nb
    def cell_store(x, nb, off, size, v):
        d = nb.d
        e = d.get(off)
        if e is None or e[0] != size or True:
            for o in [o for o, (n, _) in d.items() if o < off + size and off < o + n]:
                n, val = d[o]
                if off <= o and o + n <= off + size: del d[o]
                else:
                    del d[o]
                    if isinstance(val, (Ptr, GStr, GVec, GBuf, GPre)): continue
                    c = Cells(n, {0: (n, val)})
                    if o < off: 
                        q = x.cell_load(c, 0, off - o)
                        if not isinstance(q, Undef): d[o] = (off - o, q)
                    if off + size < o + n:
                        q = x.cell_load(c, off + size - o, o + n - off - size)
                        if not isinstance(q, Undef): d[off + size] = (o + n - off - size, q)
        if isinstance(v, Undef): return
        if isinstance(v, PCS):
            for o, n, val in v.p: d[off + o] = (n, val)
            return
        d[off] = (size, v)
    # ---- globals
    def globptr(x, st, m, name):
        if name in m.fnsrc or name in m.decl or name in m.aliases: return FnP(name)
        return Ptr('%s|%s' % (m.path, name), 0)
    def globobj(x, st, o):
        path, name = o.split('|', 1)
        m = x.prog.bypath[path]
        g = m.glob(name)
        if g is None or g[1] is None:
            m2 = x.prog.globmod(name)
            if m2 is None: raise Unsupported('external global ' + name)
            m = m2; g = m.glob(name)
        t, init, const = g
        if not const:
            raise Unsupported('mutable global ' + name)
        ob = x.prog.tabs.get((m.path, name))
        while t.k == 's' and len(t.e) == 1 and len(init) > 1 and isinstance(init[1], (list, tuple)): t, init = init[1][0]     # a structure around one member
        if ob is None: ob = x.prog.tabs[(m.path, name)] = Tab(m, t, init)
        st.mem[o] = ob
        return ob
    def cval(x, st, m, t, v, off, size):
        """value of `size` bytes at byte offset `off` of constant v : t"""
        k = v[0]
        if k == 'zero': return 0
        if k == 'undef': return UNDEF
        if t.k == 'i':
            if off == 0 and size == m.size(t): return v[1] & mask(t.n)
            return (v[1] >> (8 * off)) & mask(8 * size)
        if t.k == 'p':
            return x.operand(st, v, t, m)
        if t.k == 'a':
            es = m.size(t.e); i = off // es
            if k == 'bytes':
                if size == 1: return v[1][off]
                return int.from_bytes(v[1][off:off + size], 'little')
            if off % es + size > es:
                ps = []; o = off
                while o < off + size:
                    ps.append((o - off, es, x.cval(st, m, t.e, v[1][o // es][1], 0, es))); o += es
                return PCS(ps, size)
            return x.cval(st, m, t.e, v[1][i][1], off - i * es, size)
        if t.k == 's':
            offs, _ = m.layout(t)
            for j in range(len(offs) - 1, -1, -1):
                if offs[j] <= off:
                    if off + size <= offs[j] + m.size(t.e[j]): return x.cval(st, m, t.e[j], v[1][j][1], off - offs[j], size)
                    break
            ps = []
            for j, (et, ev) in enumerate(v[1]):
                n = m.size(t.e[j])
                if off <= offs[j] and offs[j] + n <= off + size: ps.append((offs[j] - off, n, x.cval(st, m, t.e[j], ev, 0, n)))
            return PCS(ps, size)
        raise Unsupported('constant')
    def tab_load(x, st, ob, p, size):
        if isinstance(p.f, int):
            off = p.f * ob.es + p.s
            if not (0 <= off and off + size <= ob.n * ob.es):
                x.oblige(st, 'load in bounds', False); raise PathEnd()
            x.oblige(st, 'load in bounds', True)
            return x.cval(st, ob.m, ob.t, ob.init, off, size)
        x.oblige(st, 'load in bounds', z3.ULT(p.f, k64(ob.n)))
        if ob.n > 512: raise Unsupported('symbolic index into a large table')
        vals = [x.cval(st, ob.m, ob.t, ob.init, i * ob.es + p.s, size) for i in range(ob.n)]
        if not all(isinstance(v, int) for v in vals): raise Unsupported('table')
        # few runs of constant or consecutive values: compare the index, in its own width
        f = p.f; w = 64; rs = []
        if f.decl().kind() == z3.Z3_OP_CONCAT and f.num_args() == 2 and z3.is_bv_value(f.arg(0)) and f.arg(0).as_long() == 0: f = f.arg(1); w = f.size()
        elif f.decl().kind() == z3.Z3_OP_ZERO_EXT: f = f.arg(0); w = f.size()
        for i, v in enumerate(vals):
            if rs and (rs[-1][2] in (None, 0) and v == rs[-1][1] or rs[-1][2] in (None, 1) and v == rs[-1][1] + i - rs[-1][0]):
                if rs[-1][2] is None: rs[-1][2] = v - rs[-1][1]
            else: rs.append([i, v, None])
        if len(rs) <= 24:
            g = simp(f); g = bv(g, w); g = z3.Extract(size * 8 - 1, 0, g) if w > size * 8 else z3.ZeroExt(size * 8 - w, g) if w < size * 8 else g
            r = None
            for i, v, k in rs:
                t = K(v, size * 8) if k != 1 else g + K((v - i) & mask(size * 8), size * 8)
                r = t if r is None else z3.If(z3.ULT(f, K(i, w)), r, t) if i < (1 << w) else r
            return r
        def build(lo, hi):
            if all(v == vals[lo] for v in vals[lo:hi]): return K(vals[lo], size * 8)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(p.f, k64(mid)), build(lo, mid), build(mid, hi))
        return build(0, ob.n)
    # ---- operands
    def operand(x, st, v, t, m=None):
        k = v[0]
        if k == 'loc': 
            r = st.frames[-1].regs
            return r[v[1]]
        if k == 'int': return v[1] & mask(t.n)
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return x.zero(t, m or st.frames[-1].fn.m)
        m = m or st.frames[-1].fn.m
        if k == 'glob': return x.globptr(st, m, v[1])
        if k == 'gep':
            b = x.operand(st, v[2], ir.PTR, m)
            if isinstance(b, Ptr) and isinstance(b.o, str) and b.o not in st.mem:
                try: x.globobj(st, b.o)
                except Unsupported: return Ptr(b.o, 0)
            return x.gep(st, m, v[1], b, [(it, x.operand(st, iv, it, m)) for it, iv in v[3]])
        if k == 'agg': return tuple(x.operand(st, ev, et, m) for et, ev in v[1])
        if k == 'cast':
            q = x.operand(st, v[3], v[2], m)
            return PI(q) if v[1] == 'ptrtoint' else q
        raise Unsupported('operand %r' % (v,))
    def zero(x, t, m):
        if t.k == 'i': return 0
        if t.k == 'p': return NULL
        if t.k == 's': return tuple(x.zero(e, m) for e in t.e)
        if t.k == 'a': return tuple(x.zero(t.e, m) for _ in range(t.n))
        raise Unsupported('zero')
    def gep(x, st, m, t, base, idx):
        if isinstance(base, Undef):
            x.oblige(st, 'use of an indeterminate pointer', False); raise PathEnd()
        cst = 0; sc = []
        cur = t
        for j, (it, iv) in enumerate(idx):
            if isinstance(iv, BI): iv = x.scalar(iv)
            if isinstance(iv, Undef): 
                x.oblige(st, 'use of an indeterminate value', False); raise PathEnd()
            if not isinstance(iv, (int, SC)) and it.n < 64: iv = z3.SignExt(64 - it.n, iv)
            elif isinstance(iv, int): iv = sgn(iv, it.n) & mask(64)
            if j == 0: sz = m.size(cur)
            elif cur.k == 's':
                offs, _ = m.layout(cur); cst += offs[iv]; cur = cur.e[iv]; continue
            else: cur = cur.e; sz = m.size(cur)
            if isinstance(iv, int): cst += sgn(iv, 64) * sz
            else: sc.append((iv, sz))
        if isinstance(base, Ptr) and isinstance(base.o, str) and base.o not in st.mem:
            x.globobj(st, base.o)
        return x.padd(st, base, cst, sc)
    # ---- arithmetic
    def defd(x, st, v):
        if isinstance(v, Undef) or v is None:
            x.oblige(st, 'use of an indeterminate value', False); raise PathEnd()
        return v
    def binop(x, st, op, a, b, w, fl):
        x.defd(st, a); x.defd(st, b)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                p, q = a.p, b.p
                if p.o != q.o: raise Unsupported('difference of pointers to different objects')
                if isinstance(p.f, int) and isinstance(q.f, int):
                    es = x.es(st, p.o); return ((p.f - q.f) * es + p.s - q.s) & mask(64)
                if p.s != q.s: raise Unsupported('sub-element pointer difference')
                es = x.es(st, p.o); d = simp(b64(p.f) - b64(q.f))
                if isinstance(d, int): return (d * es) & mask(64)
                return d if es == 1 else SC(es, d)
            raise Unsupported('integer arithmetic on a pointer')
        if isinstance(a, SC):
            if op in ('sdiv', 'udiv') and isinstance(b, int) and b == a.k: return a.v
            if op in ('ashr', 'lshr') and isinstance(b, int) and (1 << b) == a.k: return a.v
            if op in ('ashr', 'lshr') and isinstance(b, int) and a.k % (1 << b) == 0: return SC(a.k >> b, a.v)
        if w == 1:
            if isinstance(a, int) and isinstance(b, int): 
                a &= 1; b &= 1
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            za, zc = zb(bool(a) if isinstance(a, int) else a), zb(bool(b) if isinstance(b, int) else b)
            if op == 'and': return And(za, zc)
            if op == 'or': return Or(za, zc)
            if op == 'xor':
                if za is TRUE: return Not(zc)
                if zc is TRUE: return Not(za)
                if za is FALSE: return zc
                if zc is FALSE: return za
                return z3.Xor(za, zc)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PCS) or isinstance(b, PCS) or isinstance(a, SC) or isinstance(b, SC):
            a = x.scalar(a) if isinstance(a, (PCS, SC)) else a; b = x.scalar(b) if isinstance(b, (PCS, SC)) else b
        if isinstance(a, BI) and op == 'and' and isinstance(b, int) and b & 1: return a
        if isinstance(a, BI) and op == 'xor' and b == 1: return BI(Not(zb(a.b)), a.w)
        a = x.scalar(a); b = x.scalar(b)
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op in ('shl', 'lshr', 'ashr'):
                if b >= w: 
                    x.oblige(st, 'shift amount below width', False); raise PathEnd()
                r = a << b if op == 'shl' else a >> b if op == 'lshr' else sgn(a, w) >> b
            else:
                if b == 0: 
                    x.oblige(st, 'division by zero', False); raise PathEnd()
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    sa, sb = sgn(a, w), sgn(b, w); q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0): q = -q
                    r = q if op == 'sdiv' else sa - q * sb
            if 'nsw' in fl and op in ('add', 'sub', 'mul'):
                sa, sb = sgn(a, w), sgn(b, w)
                t = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                if not -(1 << (w - 1)) <= t < 1 << (w - 1): x.oblige(st, 'no signed overflow', False)
            return r & M
        za, zc = bv(a, w), bv(b, w)
        if op == 'add': r = za + zc
        elif op == 'sub': r = za - zc
        elif op == 'mul': r = za * zc
        elif op == 'and': r = za & zc
        elif op == 'or': r = za | zc
        elif op == 'xor': r = za ^ zc
        elif op in ('shl', 'lshr', 'ashr'):
            x.oblige(st, 'shift amount below width', z3.ULT(zc, K(w, w)) if not isinstance(b, int) else b < w)
            r = za << zc if op == 'shl' else z3.LShR(za, zc) if op == 'lshr' else za >> zc
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            x.oblige(st, 'division by zero', b != 0 if isinstance(b, int) else zc != K(0, w))
            r = z3.UDiv(za, zc) if op == 'udiv' else z3.URem(za, zc) if op == 'urem' else za / zc if op == 'sdiv' else z3.SRem(za, zc)
        else: raise Unsupported(op)
        if 'nsw' in fl:
            if op == 'add': x.oblige(st, 'no signed overflow', And(z3.BVAddNoOverflow(za, zc, True), z3.BVAddNoUnderflow(za, zc)))
            elif op == 'sub': x.oblige(st, 'no signed overflow', And(z3.BVSubNoOverflow(za, zc), z3.BVSubNoUnderflow(za, zc, True)))
            elif op == 'mul': x.oblige(st, 'no signed overflow', And(z3.BVMulNoOverflow(za, zc, True), z3.BVMulNoUnderflow(za, zc)))
        return simp(r)
    def icmp(x, st, c, a, b, t):
        x.defd(st, a); x.defd(st, b)
        if isinstance(a, FnP) or isinstance(b, FnP):
            r = isinstance(a, FnP) and isinstance(b, FnP) and a.n == b.n
            return int(r) if c == 'eq' else int(not r)
        if isinstance(a, PI): a = a.p
        if isinstance(b, PI): b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int): a = NULL
            if isinstance(b, int): b = NULL
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer comparison')
            if c in ('eq', 'ne'):
                r = x.peq(a, b)
                if isinstance(r, bool): return int(r) if c == 'eq' else int(not r)
                return r if c == 'eq' else Not(r)
            if a.o != b.o: raise Unsupported('ordering of pointers to different objects')
            if a.s != b.s and not (isinstance(a.f, int) and isinstance(b.f, int)): raise Unsupported('ordering')
            a = a.f * x.es(st, a.o) + a.s if isinstance(a.f, int) and isinstance(b.f, int) else a.f
            b = b.f * x.es(st, b.o) + b.s if isinstance(a, int) and isinstance(b.f, int) else b.f
            w = 64
        else: w = t.n
        if isinstance(a, SC) or isinstance(b, SC):
            if isinstance(a, SC) and isinstance(b, SC) and a.k == b.k: a, b = a.v, b.v
            elif isinstance(a, SC) and isinstance(b, int) and sgn(b, 64) % a.k == 0: b = (sgn(b, 64) // a.k) & mask(64); a = a.v
            elif isinstance(b, SC) and isinstance(a, int) and sgn(a, 64) % b.k == 0: a = (sgn(a, 64) // b.k) & mask(64); b = b.v
        if w == 1 and not (isinstance(a, int) and isinstance(b, int)):
            za, zc = zb(bool(a) if isinstance(a, int) else a), zb(bool(b) if isinstance(b, int) else b)
            if c == 'eq': return za == zc
            if c == 'ne': return z3.Xor(za, zc)
            raise Unsupported('i1 icmp')
        if isinstance(a, BI) and isinstance(b, int):
            if b == 0 and c in ('ne', 'eq', 'ugt', 'sgt'): return Not(a.b) if c == 'eq' else a.b
            if b == 1 and c in ('eq', 'ne'): return a.b if c == 'eq' else Not(a.b)
        if isinstance(a, BI) and isinstance(b, BI) and c in ('eq', 'ne'):
            return zb(a.b) == zb(b.b) if c == 'eq' else z3.Xor(zb(a.b), zb(b.b))
        a = x.scalar(a); b = x.scalar(b)
        if isinstance(a, int) and isinstance(b, int):
            if c[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ule': a <= b, 'sle': a <= b,
                        'ugt': a > b, 'sgt': a > b, 'uge': a >= b, 'sge': a >= b}[c])
        a = bv(a, w); b = bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.ULT(b, a),
             'uge': lambda: z3.ULE(b, a), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: b < a, 'sge': lambda: b <= a}[c]()
        r = z3.simplify(r, bv_le2extract=False)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r
    def cast(x, st, op, v, t, t2):
        if op == 'freeze' or op == 'bitcast': return v
        x.defd(st, v)
        if op == 'ptrtoint': return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI): return v.p
            raise Unsupported('inttoptr')
        if isinstance(v, int):
            if op == 'zext': return v
            if op == 'sext': return sgn(v, t.n) & mask(t2.n)
            return v & mask(t2.n)
        if op == 'zext':
            if t.n == 1: return BI(v, t2.n)
            if isinstance(v, BI): return BI(v.b, t2.n)
            v = x.scalar(v)
            if isinstance(v, int): return v
            return z3.ZeroExt(t2.n - t.n, v)
        if op == 'sext':
            if t.n == 1: return z3.If(v, K(-1, t2.n), K(0, t2.n))
            if isinstance(v, BI): v = x.scalar(v)
            if isinstance(v, PCS): v = x.scalar(v)
            return z3.SignExt(t2.n - t.n, v) if not isinstance(v, int) else sgn(v, t.n) & mask(t2.n)
        if op == 'trunc':
            if isinstance(v, BI): return v.b if t2.n == 1 else BI(v.b, t2.n)
            if isinstance(v, PCS):
                n = t2.n // 8 or 1
                c = Cells(v.n, {o: (k, w) for o, k, w in v.p})
                r = x.cell_load(c, 0, n)
                if isinstance(r, Undef): return x.defd(st, r)
                if t2.n >= 8: return r
                v = r
                if isinstance(v, BI): return v.b
            v = x.scalar(v)
            if isinstance(v, int): return v & mask(t2.n)
            if t2.n == 1: return z3.simplify(z3.Extract(0, 0, v) == K(1, 1))
            return simp(z3.Extract(t2.n - 1, 0, v))
        raise Unsupported(op)
    # ---- control
    def inctx(x, st): return x.ctxs[-1] if x.ctxs else None
    def enter(x, st, lab):
        """move to block lab of the top frame; returns an outcome when a loop context ends here"""
        fr = st.frames[-1]
        if x.ctxs:
            d, h, body = x.ctxs[-1]
            if len(st.frames) < d or (len(st.frames) == d and lab not in body):
                st.pend = lab; return ('exit', st)
            if len(st.frames) == d and lab == h:
                x.phis(st, lab); return ('back', st)
        loops = fr.fn.loops()
        if fr.fn.irreducible: raise Unsupported('irreducible control flow')
        if lab in loops:
            x.phis(st, lab)
            return ('loop', st, lab)
        x.phis(st, lab)
        return None
    def phis(x, st, lab):
        fr = st.frames[-1]
        blk = fr.fn.blocks[lab]
        prev = fr.blk; vals = []
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            ins = blk[i]
            for v, b in ins.a:
                if b == prev: vals.append((ins.res, x.operand(st, v, ins.ty))); break
            else: raise Unsupported('phi')
            i += 1
        for r, v in vals: fr.regs[r] = v
        fr.prev = prev; fr.blk = lab; fr.i = i
    def leaves(x, fn, lab, body):
        """the block only selects (phi) whether the loop goes on"""
        blk = fn.blocks[lab]; i = 0
        while blk[i].op == 'phi': i += 1
        t = blk[i]
        return t.op == 'br' and t.a is not None and (t.x[0] in body) != (t.x[1] in body)
    def branch(x, st, c, a, b):
        """fork on c; returns list of (state, label)"""
        x.defd(st, c)
        if isinstance(c, int): return [(st, a if c & 1 else b)]
        c = zb(c)
        if c is TRUE or z3.is_true(c): return [(st, a)]
        if c is FALSE or z3.is_false(c): return [(st, b)]
        if x.ival:
            r = x.ival.b(c)
            if r is not None: return [(st, a if r else b)]
        f1 = x.feasible(st, c)
        f2 = x.feasible(st, Not(c)) if f1 else True
        if x.ctxs and a is not None:
            d, h, body = x.ctxs[-1]
            if len(st.frames) == d and ((a in body) != (b in body)) : st.sym = True
            elif len(st.frames) == d and (x.leaves(st.frames[-1].fn, a, body) or x.leaves(st.frames[-1].fn, b, body)): st.sym = True
            elif len(st.frames) > d and f1 and f2: st.sym = True
        if f1 and not f2: 
            st.pc.append(c)
            return [(st, a)]
        if f2 and not f1:
            st.pc.append(Not(c))
            return [(st, b)]
        s2 = st.fork()
        x.add(st, c); x.add(s2, Not(c))
        return [(st, a), (s2, b)]
    def fork_cases(x, st, conds):
        """fork on an if-else chain of conditions -> [(index, state)]"""
        out = []; cur = st
        if x.ctxs and len(conds) > 1: st.sym = True
        for i, c in enumerate(conds):
            if c is True or c is TRUE: out.append((i, cur)); return out
            c = zb(c)
            if not x.feasible(cur, c): 
                x.add(cur, Not(c)); continue
            if not x.feasible(cur, Not(c)):
                x.add(cur, c); out.append((i, cur)); return out
            s2 = cur.fork(); x.add(s2, c); out.append((i, s2))
            x.add(cur, Not(c))
        return out
    def run(x, work):
        outs = []
        work = list(work)
        while work:
            st = work.pop()
            try:
                r = x.go(st, work)
            except PathEnd: continue
            if r is None: continue
            if r[0] in ('loop', 'multi'):
                for o in x.loop(r[1], r[2]) if r[0] == 'loop' else r[1]:
                    if o[0] == 'exit': work.append(o[1])
                    else: outs.append(o)
            else: outs.append(r)
        return outs
    def go(x, st, work):
        if st.res is not None:
            f = st.res; st.res = None
            r = f(st)
            if r: return r
        elif st.pend is not None:
            lab = st.pend; st.pend = None
            r = x.enter(st, lab)
            if r: return r
        elif x.ctxs and len(st.frames) < x.ctxs[-1][0]: return ('exit', st)
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.i]
            x.steps += 1
            if x.steps % 512 == 0: x.tick()
            r = x.step(st, fr, ins, work)
            if r is not None:
                if r == 'end': return None
                return r
    def goto(x, st, lab): return x.enter(st, lab)
    def step(x, st, fr, ins, work):
        op = ins.op
        if op == 'load':
            p = x.operand(st, ins.a, ir.PTR)
            fr.regs[ins.res] = x.load(st, p, ins.ty)
        elif op == 'store':
            v = x.operand(st, ins.a[0], ins.ty); p = x.operand(st, ins.a[1], ir.PTR)
            if isinstance(v, tuple): x.store_agg(st, p, ins.ty, v)
            else: x.store_n(st, p, fr.fn.m.size(ins.ty), v)
        elif op == 'alloca':
            if ins.a is not None: 
                n = x.operand(st, ins.a, ir.I32)
                if n != 1: raise Unsupported('dynamic alloca')
            o = x.newobj(st, Cells(fr.fn.m.size(ins.ty), {}, ins.res, len(st.frames)))
            fr.allocas.append(o); fr.regs[ins.res] = Ptr(o, 0)
        elif op == 'getelementptr':
            b = x.operand(st, ins.a[0], ir.PTR)
            p = x.gep(st, fr.fn.m, ins.ty, b, [(t, x.operand(st, v, t)) for t, v in ins.a[1]])
            if ins.x: x.oblige(st, 'pointer stays in its object', x.inbounds(st, p))
            fr.regs[ins.res] = p
        elif op in ('call', 'invoke'):
            return x.call(st, fr, ins, work)
        elif op == 'br':
            if ins.a is None:
                return x.enter(st, ins.x[0])
            c = x.operand(st, ins.a, ir.I1)
            br = x.branch(st, c, ins.x[0], ins.x[1])
            for s, l in br[1:]: s.pend = l; work.append(s)
            return x.enter(br[0][0], br[0][1])
        elif op == 'ret':
            v = x.operand(st, ins.a, ins.ty) if ins.a is not None else None
            return x.ret(st, v)
        elif op == 'icmp':
            a = x.operand(st, ins.a[0], ins.ty); b = x.operand(st, ins.a[1], ins.ty)
            fr.regs[ins.res] = x.icmp(st, ins.x, a, b, ins.ty)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            fr.regs[ins.res] = x.cast(st, op, x.operand(st, ins.a, ins.x), ins.x, ins.ty)
        elif op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = x.operand(st, ins.a[0], ins.ty); b = x.operand(st, ins.a[1], ins.ty)
            fr.regs[ins.res] = x.binop(st, op, a, b, ins.ty.n, ins.x)
        elif op == 'phi': pass
        elif op == 'select':
            c = x.operand(st, ins.a[0], ir.I1)
            a = x.operand(st, ins.a[1], ins.ty); b = x.operand(st, ins.a[2], ins.ty)
            if isinstance(c, int): fr.regs[ins.res] = a if c & 1 else b
            elif ins.ty.k == 'i' and isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)) and ins.ty.n > 1:
                fr.regs[ins.res] = simp(z3.If(zb(c), bv(a, ins.ty.n), bv(b, ins.ty.n)))
            elif ins.ty.k == 'i' and ins.ty.n == 1:
                fr.regs[ins.res] = z3.simplify(z3.If(zb(c), zb(bool(a) if isinstance(a, int) else a), zb(bool(b) if isinstance(b, int) else b)), bv_le2extract=False)
            else:
                for s, w in x.branch(st, c, True, False):
                    s.frames[-1].regs[ins.res] = a if w else b
                    s.frames[-1].i += 1
                    if s is not st: work.append(s)
                return None
        elif op == 'switch':
            c = x.operand(st, ins.a, ins.ty); x.defd(st, c)
            c = x.scalar(c)
            if isinstance(c, int):
                for v, l in ins.x[1]:
                    if v & mask(ins.ty.n) == c: return x.enter(st, l)
                return x.enter(st, ins.x[0])
            alts = {}
            for v, l in ins.x[1]: alts.setdefault(l, []).append(v)
            conds = [Or(*[c == K(v, ins.ty.n) for v in vs]) for vs in alts.values()] + [True]
            labs = list(alts) + [ins.x[0]]
            rs = x.fork_cases(st, conds)
            for i, s in rs: s.pend = labs[i]; work.append(s)
            return 'end'
        elif op == 'extractvalue':
            v = x.operand(st, ins.a, ins.ty)
            if isinstance(v, PCS): v = x.explode(v, ins.ty, fr.fn.m)
            for i in ins.x: v = v[i] if not isinstance(v, Undef) else v
            fr.regs[ins.res] = v
        elif op == 'insertvalue':
            v = x.operand(st, ins.a[0], ins.ty); e = x.operand(st, ins.a[1], ins.x[0])
            fr.regs[ins.res] = x.insert(x.explode(v, ins.ty, fr.fn.m) if isinstance(v, PCS) else v, e, ins.x[1], ins.ty)
        elif op == 'unreachable':
            x.oblige(st, 'unreachable code is not reached', False); return 'end'
        elif op == 'landingpad':
            pass   # its value was set by the unwinder
        elif op == 'resume':
            e = x.operand(st, ins.a, ins.ty)
            return x.unwind(st, work, pop=True)
        else: raise Unsupported('instruction ' + op)
        fr.i += 1
        return None
    def explode(x, v, t, m):
        """a value kept as bytes, as the members of the structure type t"""
        c = Cells(v.n, {o: (k, w) for o, k, w in v.p})
        return tuple(x.cell_load(c, o, m.size(e)) for o, e in zip(m.layout(t)[0], t.e))
    def insert(x, v, e, idx, t):
        n = len(t.e)
        v = [UNDEF] * n if isinstance(v, Undef) else list(v)
        if len(idx) == 1: v[idx[0]] = e
        else: v[idx[0]] = x.insert(v[idx[0]], e, idx[1:], t.e[idx[0]])
        return tuple(v)
    def store_agg(x, st, p, t, v):
        m = st.frames[-1].fn.m
        if t.k == 's': offs, _ = m.layout(t); es = t.e
        else: offs = [i * m.size(t.e) for i in range(t.n)]; es = [t.e] * t.n
        for o, et, ev in zip(offs, es, v):
            q = x.padd(st, p, o, [])
            if isinstance(ev, tuple): x.store_agg(st, q, et, ev)
            else: x.store_n(st, q, m.size(et), ev)
    def push(x, st, fn, args, ins):
        if len(st.frames) > 80: raise Unsupported('call depth')
        f = Frame(); f.fn = fn; f.blk = fn.entry; f.prev = None; f.i = 0; f.regs = {}; f.allocas = []; f.post = None
        f.dest = f.unw = None; f.res = None
        for (n, t, at), v in zip(fn.params, args):
            if 'byval' in at:
                o = x.newobj(st, Cells(fn.m.size(at['byval']), {}, n, len(st.frames)))
                x.memcpy(st, Ptr(o, 0), v, fn.m.size(at['byval'])); f.allocas.append(o); v = Ptr(o, 0)
            f.regs[n] = v
        st.frames.append(f)
        return f
    def ret(x, st, v):
        fr = st.frames.pop()
        for o in fr.allocas: st.mem.pop(o, None)
        if not st.frames: return ('ret', st, v)
        if fr.post: fr.post(st, v)
        return x.finish_call(st, v)
    def finish_call(x, st, v):
        """value v returned to the call instruction the top frame is at"""
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.i]
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke': return x.enter(st, ins.x[0])
        fr.i += 1
        if x.ctxs and len(st.frames) < x.ctxs[-1][0]: return ('exit', st)
        return None
    def throw(x, st, exc, work):
        """exc: (typeinfo name, Ptr or None)"""
        st.exc = exc
        return x.unwind(st, work, pop=False)
    def unwind(x, st, work, pop):
        """propagate st.exc from the current instruction of the top frame (or from its caller if pop)"""
        if pop:
            fr = st.frames.pop()
            for o in fr.allocas: st.mem.pop(o, None)
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.i]
            if ins.op == 'invoke':
                lab = ins.x[1]; lp = next(i for i in fr.fn.blocks[lab] if i.op != 'phi')
                if lp.op == 'landingpad':
                    sel = None
                    for cl in lp.a:
                        if cl[0] == 'catch':
                            v = cl[1]
                            if v[0] == 'null' : sel = 0x7ffffff0; break
                            if v[0] == 'glob' and x.prog.derives(st.exc[0], v[1]): sel = x.prog.typeid(v[1]); break
                        elif cl[0] != 'cleanup': raise Unsupported('filter clause')
                    if sel is None and ('cleanup',) in lp.a: sel = 0
                    if sel is not None:
                        if x.ctxs:
                            d, h, body = x.ctxs[-1]
                        r = x.enter_lp(st, lab, lp, sel)
                        return r
            st.frames.pop()
            for o in fr.allocas: st.mem.pop(o, None)
        return ('throw', st, st.exc[0])
    def enter_lp(x, st, lab, lp, sel):
        fr = st.frames[-1]
        ep = st.exc[1]
        if ep is None:
            ep = Ptr(x.newobj(st, Cells(64, {}, 'exception')), 0); st.exc = (st.exc[0], ep)
        fr.regs[lp.res] = (ep, sel)
        return x.enter(st, lab)
    # ---- calls
    def call(x, st, fr, ins, work):
        callee, args = ins.a
        if callee[0] == 'loc':
            fp = x.operand(st, callee, ir.PTR)
            if isinstance(fp, FnP): name = fp.n
            else: raise Unsupported('indirect call')
        elif callee[0] == 'glob': name = callee[1]
        else: raise Unsupported('call target')
        m = fr.fn.m
        av = [x.operand(st, v, t) for t, v, _ in args if t.k != 'metadata']
        r = x.prog.dispatch(x, st, name, av, ins, work)
        return r
    def merged_call(x, st, fn, av, ins, work):
        """call of a function that returns a truth value: the paths through it that leave the memory as it was go on as one"""
        n0 = len(st.pc); mem0 = dict(st.mem); proved0 = set(st.proved); sym0 = st.sym
        x.push(st, fn, av, ins); d = len(st.frames)
        x.ctxs.append((d, None, set(fn.blocks)))
        try: outs = x.run([st])
        finally: x.ctxs.pop()
        todo = [o[1] for o in outs if o[0] == 'exit']; other = [o for o in outs if o[0] != 'exit']
        if len(todo) < 2 or ins.res is None: return ('multi', outs)
        a = todo[0]; fa = a.frames[-1]
        for s in todo:
            if len(s.frames) != d - 1 or s.res is not None: return ('multi', outs)
            f = s.frames[-1]
            if (f.blk, f.i, f.prev, s.pend, s.exc) != (fa.blk, fa.i, fa.prev, a.pend, a.exc): return ('multi', outs)
            if any(s.mem.get(k) is not v for k, v in mem0.items()): return ('multi', outs)
            v = f.regs.get(ins.res)
            if not (isinstance(v, (BI, z3.BoolRef)) or v in (0, 1)): return ('multi', outs)
            if any(k != ins.res and f.regs.get(k) is not v for k, v in fa.regs.items()): return ('multi', outs)
        facts = {}; known = {}; conds = []
        for s in todo:
            cs = []
            for c in s.pc[n0:]:
                if c.get_id() in x.isfact: facts[c.get_id()] = c
                else: cs.append(c)
            conds.append(cs)
            for k, l in s.known.items(): known[k] = min(l, known.get(k, 99))
        ids = set.intersection(*[set(c.get_id() for c in cs) for cs in conds])
        common = [c for c in conds[0] if c.get_id() in ids]
        conds = [And(*[c for c in cs if c.get_id() not in ids]) for cs in conds]
        a.pc[n0:] = common + list(facts.values()) + [Or(*conds)]; a.known = known
        a.proved = set.intersection(*[s.proved for s in todo]); a.sym = sym0
        fa.regs[ins.res] = Or(*[And(c, zb(v.b) if isinstance(v, BI) else zb(bool(v)) if isinstance(v, int) else v) for c, v in zip(conds, [s.frames[-1].regs[ins.res] for s in todo])])
        return ('multi', [('exit', a)] + other)
    def memcpy(x, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        do = st.mem.get(d.o) if isinstance(d, Ptr) else None
        if isinstance(do, Arr) and do.cur is not None:
            if not (isinstance(s, Ptr) and s.o == d.o): raise Unsupported('memcpy')
            f = b64(s.f)
            x.oblige(st, 'load in bounds', And(z3.ULE(f, b64(do.hi)), z3.ULE(b64(n), b64(do.hi) - f))); x.oblige(st, 'what is read has not been overwritten', z3.ULE(x.curpos(st, do), f))
            return x.cur_write(st, d, [('sl', do.c, f, simp(f + b64(n)))], n)
        if not isinstance(n, int): raise Unsupported('memcpy with symbolic length')
        so = x.deref(st, s, n, 'load'); do = x.deref(st, d, n, 'store')
        if isinstance(so, Cells):
            if not (isinstance(s.f, int) and s.f >= 0 and s.f + n <= so.size): x.oblige(st, 'load in bounds', False); raise PathEnd()
            parts = [(o, k, v) for o, (k, v) in so.d.items() if s.f <= o and o + k <= s.f + n]
            cut = [(o, k) for o, (k, v) in so.d.items() if o < s.f + n and s.f < o + k and not (s.f <= o and o + k <= s.f + n)]
            for o, k in cut:
                a = max(o, s.f); b = min(o + k, s.f + n); parts.append((a, b - a, x.cell_load(so, a, b - a)))
            if isinstance(do, Cells):
                if not (isinstance(d.f, int) and d.f >= 0 and d.f + n <= do.size): x.oblige(st, 'store in bounds', False); raise PathEnd()
                nb = do.copy(); x.cell_store(nb, d.f, n, UNDEF)
                for o, k, v in parts: x.cell_store(nb, d.f + o - s.f, k, v)
                st.mem[d.o] = nb; x.oblige(st, 'copy in bounds', True)
                return
            for o, k, v in sorted(parts, key=lambda q: q[0]): x.store_n(st, x.padd(st, d, o - s.f, []), k, v)
            return
        if isinstance(so, Tab):
            m = so.m; off = s.f * so.es + s.s
            def flat(t, o):
                if t.k in ('i', 'p'): return [(o, m.size(t))]
                if t.k == 'a': return [q for i in range(t.n) for q in flat(t.e, o + i * m.size(t.e))]
                offs, _ = m.layout(t); return [q for oo, e in zip(offs, t.e) for q in flat(e, o + oo)]
            for o, k in flat(so.t, 0):
                if off <= o and o + k <= off + n:
                    x.store_n(st, x.padd(st, d, o - off, []), k, x.cval(st, m, so.t, so.init, o, k))
            return
        if isinstance(so, Arr):
            es = so.c.es
            if s.s == 0 and n == es and isinstance(do, Cells):
                for sub, sz in so.c.fields:
                    x.store_n(st, x.padd(st, d, sub, []), sz, x.load_n(st, Ptr(s.o, s.f, sub), sz))
                return
        raise Unsupported('memcpy')
    # ---- loops
    def loop(x, st, h):
        """loop entered at header h (phis done): returns outcomes; 'exit' states have left the loop"""
        d = len(st.frames); body = st.frames[-1].fn.loops()[h]
        mark = (len(x.fails), x.nobl, x.ndis, dict(x.obkinds), len(x.cuts))
        s0 = st.fork()
        try:
            outs = []; todo = [(st, 0, 0)]
            while todo:
                s, k, tot = todo.pop()
                s.sym = False
                x.ctxs.append((d, h, body))
                try: rs = x.run([s])
                finally: x.ctxs.pop()
                for r in rs:
                    if r[0] == 'back':
                        k2 = k + 1 if r[1].sym else k
                        if k2 > x.KUNROLL or tot > 300: raise NeedCut()
                        todo.append((r[1], k2, tot + 1))
                    else:
                        if r[0] == 'exit' and x.ctxs: r[1].sym = True
                        outs.append(r)
            return outs
        except NeedCut:
            x.fails[mark[0]:] = []; x.nobl, x.ndis, x.obkinds = mark[1], mark[2], mark[3]; x.cuts[mark[4]:] = []
        import loops
        outs = loops.cut(x, s0, h, d, body)
        for o in outs:
            if o[0] == 'exit' and x.ctxs: o[1].sym = True
        return outs

class PathEnd(Exception): pass
def may_empty(t):
    d = t.decl()
    if d.eq(CAT): return may_empty(t.arg(0)) and may_empty(t.arg(1))
    return not (d.eq(CAT) or d.eq(BYTE) or d.eq(CP32) or d.eq(SUBR) or d.eq(RNG) or d.eq(VIEW))
def z3_eq(a, b):
    if a.eq(b): return True
    r = z3.simplify(a == b, bv_le2extract=False)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
