"""Logic layer: spec function families (uninterpreted functions with ground unfolding and facts),
the sequence sort used for std::string / std::vector values, and the incremental solver."""
import time, z3
import intabs

z3.set_param('model.completion', True)
BV64 = z3.BitVecSort(64); BV32 = z3.BitVecSort(32); BV8 = z3.BitVecSort(8); BOOL = z3.BoolSort()
SEQ = z3.DeclareSort('Seq')
_vals = {}
def K(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    r = _vals.get(k)
    if r is None: r = _vals[k] = z3.BitVecVal(v, w)
    return r
def k64(v): return K(v, 64)
def bv(v, w):
    return K(v, w) if isinstance(v, int) else v
def b64(v): return K(v, 64) if isinstance(v, int) else v
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def zb(c):
    return (TRUE if c else FALSE) if isinstance(c, (bool, int)) else c
def And(*cs):
    out = []
    for c in cs:
        if c is True or c is TRUE: continue
        if c is False or c is FALSE: return FALSE
        out.append(zb(c))
    return TRUE if not out else out[0] if len(out) == 1 else z3.And(out)
def Or(*cs):
    out = []
    for c in cs:
        if c is False or c is FALSE: continue
        if c is True or c is TRUE: return TRUE
        out.append(zb(c))
    return FALSE if not out else out[0] if len(out) == 1 else z3.Or(out)
def Not(c):
    if c is TRUE or c is True: return FALSE
    if c is FALSE or c is False: return TRUE
    return z3.Not(c)
def Imp(a, b): return Or(Not(a), b)
def If(c, a, b):
    if c is TRUE or c is True: return a
    if c is FALSE or c is False: return b
    return z3.If(c, a, b)
def conc(e):
    """concrete int of a z3 BV value, else None"""
    if isinstance(e, int): return e
    if z3.is_bv_value(e): return e.as_long()
    return None
_smemo = {}
def simp(e):
    """cheap normalisation: ints for BV constants, otherwise z3.simplify"""
    if isinstance(e, int): return e
    i = e.get_id()
    r = _smemo.get(i)
    if r is None:
        s = z3.simplify(e, bv_le2extract=False)
        v = s.as_long() if z3.is_bv_value(s) else s
        r = _smemo[i] = (v, e)
    return r[0]

# ---------------------------------------------------------------------------------------------
class Fam:
    """A family of spec functions. `key` selects a member (content ids, predicate ids), args are z3 terms."""
    all = {}
    def __init__(f, name, sorts, ret, unfold=None, facts=None, holes=(), acc=None, extra=None, opaque=False, meas=None, ldepth=1, args=None, trusted=None, lkeys=None, lhyps=None, lopaque=()):
        f.name = name; f.sorts = sorts; f.ret = ret; f.unfold = unfold; f.facts = facts; f.holes = holes; f.acc = acc; f.fns = {}
        f.extra = extra; f.defopaque = opaque; f.meas = meas; f.ldepth = ldepth; f.margs = args; f.trusted = trusted
        f.near = None; f.vec = None; f.pieces = None; f.ground = None; f.values = None; f.norm = None; f.knorm = None; f.lencnt = False; f.lkeys = lkeys; f.lhyps = lhyps; f.lopaque = lopaque; f.idx = len(Fam.all)
        Fam.all[name] = f
    def __call__(f, key, *args):
        if not isinstance(key, tuple): key = (key,)
        if f.knorm: key, args = f.knorm(key, args)
        fn = f.fns.get(key)
        if fn is None:
            fn = f.fns[key] = z3.Function('%s[%s]' % (f.name, ','.join(str(k) for k in key)), *(list(f.sorts) + [f.ret]))
            DECLS[fn.get_id()] = (f, key, fn)
        a = [zb(x) if s == BOOL else x if not isinstance(x, int) else K(x, s.size()) for x, s in zip(args, f.sorts)]
        if f.norm: a = f.norm(a)
        app = fn(*a)
        i = app.get_id()
        if i not in APPS: APPS[i] = (f, key, tuple(a), app)
        return app
APPS = {}; DECLS = {}
class Revealed:
    """families whose definition is opened in this task (others contribute only facts)"""
    opaque = set()

_apmemo = {}
def apps_in(e):
    i = e.get_id()
    r = _apmemo.get(i)
    if r is not None: return r[0]
    # iterative post-order
    stack = [e]
    while stack:
        x = stack[-1]; xi = x.get_id()
        if xi in _apmemo: stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _apmemo]
        if todo: stack.extend(todo); continue
        s = set()
        for c in ch: s |= _apmemo[c.get_id()][0]
        if xi not in APPS and ch:
            q = DECLS.get(x.decl().get_id())
            if q is not None: APPS[xi] = (q[0], q[1], tuple(ch), x)
        if xi in APPS: s = s | {xi}
        _apmemo[xi] = (frozenset(s), x); stack.pop()
    return _apmemo[i][0]

class Content:
    """contents of a read-only array object"""
    n = 0
    reg = {}
    def __init__(c, es, name=None):
        Content.n += 1
        c.es = es; c.uid = '%s%d' % (name or 'A', Content.n); c.f = {}
        c.const = z3.Const('cont!' + c.uid, CONT)
        Content.reg[c.uid] = c
    def sel(c, i, sub=0, size=None):
        size = size or c.es
        k = (sub, size)
        fn = c.f.get(k)
        if fn is None: fn = c.f[k] = z3.Function('%s.%d.%d' % (c.uid, sub, size), BV64, z3.BitVecSort(size * 8))
        return fn(b64(i))
CONT = z3.DeclareSort('Cont')
class TabContent(Content):
    """known elements (constants or terms), index 0.."""
    def __init__(c, es, vals, name='T', base=0):
        Content.__init__(c, es, name); c.vals = vals; c.base = base
    def sel(c, i, sub=0, size=None):
        size = size or c.es
        if isinstance(i, int) or conc(i) is not None:
            k = conc(i) - c.base
            if 0 <= k < len(c.vals):
                v = c.vals[k]
                if isinstance(v, (list, tuple)): raise KeyError('struct element')
                return bv(v, c.es * 8)
            return K(0, c.es * 8)
        r = Content.sel(c, i, 0, size)
        for k in range(len(c.vals)):
            r = z3.If(i == k64(k + c.base), bv(c.vals[k], c.es * 8), r)
        return r

# ---- sequences (values of strings and vectors) -----------------------------------------------
EMPTY = z3.Const('empty', SEQ)
CAT = z3.Function('cat', SEQ, SEQ, SEQ)
SL = z3.Function('sl', CONT, BV64, BV64, SEQ)
BYTE = z3.Function('byte', BV8, SEQ)
CP32 = z3.Function('u32', BV32, SEQ)
def spine(t, out):
    """pieces of a sequence term"""
    while z3.is_app(t) and t.decl().eq(CAT):
        spine(t.arg(0), out); t = t.arg(1)
    if t.eq(EMPTY): return out
    q = SLS.get(t.get_id())
    out.append(q[1] if q is not None else ('t', t))
    return out
def seq(pieces):
    """normal form: right-nested, empty pieces dropped"""
    if isinstance(pieces, z3.ExprRef): pieces = [('t', pieces)]
    flat = []
    for p in pieces:
        if p[0] == 't': spine(p[1], flat)
        else: flat.append(p)
    pieces = flat
    ps = []
    for p in pieces:
        if p[0] == 'sl':
            if p[2] is p[3] or (isinstance(p[2], int) and isinstance(p[3], int) and p[2] == p[3]) or (not isinstance(p[2], int) and not isinstance(p[3], int) and p[2].eq(p[3])): continue
            if ps and ps[-1][0] == 'sl' and ps[-1][1] is p[1] and z3.simplify(b64(ps[-1][3]) == b64(p[2])).eq(TRUE):
                ps[-1] = ('sl', p[1], ps[-1][2], p[3]); continue
        ps.append(p)
    ts = []
    for p in ps:
        if p[0] == 'sl':
            t = SL(p[1].const, b64(p[2]), b64(p[3])); SLS[t.get_id()] = (t, p)
        elif p[0] == 'byte': t = BYTE(bv(p[1], 8))
        elif p[0] == 'u32': t = CP32(bv(p[1], 32))
        elif p[0] == 'sub': t = SUBR(b64(p[1]), b64(p[2]))
        elif p[0] == 'rng': t = RNG(bv(p[1], 32), bv(p[2], 32))
        elif p[0] == 'view': t = VIEW(p[1].const, b64(p[2]), b64(p[3]))
        elif p[0] == 't':
            t = p[1]
            if t.eq(EMPTY): continue
        else: raise ValueError(p)
        ts.append(t)
    if not ts: return EMPTY
    r = ts[-1]
    for t in reversed(ts[:-1]): r = CAT(t, r)
    return r
SLS = {}
_sqmemo = {}; SQT = {}
def seqs_in(e):
    """ids of the cat / sl subterms of e (terms in SQT)"""
    i = e.get_id()
    r = _sqmemo.get(i)
    if r is not None: return r[0]
    stack = [e]
    while stack:
        x = stack[-1]; xi = x.get_id()
        if xi in _sqmemo: stack.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _sqmemo]
        if todo: stack.extend(todo); continue
        s = frozenset()
        for c in ch:
            q = _sqmemo[c.get_id()][0]
            if q: s = s | q
        if x.sort() == SEQ and ch and (x.decl().eq(CAT) or x.decl().eq(SL)):
            SQT[xi] = x; s = s | {xi}
        _sqmemo[xi] = (s, x); stack.pop()
    return _sqmemo[i][0]
def leaves(e, g=()):
    """branches of an if-then-else sequence term: (guards, term)"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return leaves(e.arg(1), g + (e.arg(0),)) + leaves(e.arg(2), g + (z3.Not(e.arg(0)),))
    return [(g, e)]
SUBR = z3.Function('subr', BV64, BV64, SEQ)       # vector element Subrange(offset, length)
RNG = z3.Function('rng', BV32, BV32, SEQ)         # vector element pair<char32_t, char32_t>
VIEW = z3.Function('view', CONT, BV64, BV64, SEQ) # vector element string_view

# ---- elements of vectors -----------------------------------------------------------------------
def structural(t, cat_, one_, empty, fam):
    """definition over the structure of a sequence term; None where it is not known"""
    if z3.is_app(t):
        d = t.decl()
        if d.kind() == z3.Z3_OP_ITE: return z3.If(t.arg(0), fam(t.arg(1)), fam(t.arg(2)))
        if d.eq(CAT): return cat_(t.arg(0), t.arg(1))
        if t.eq(EMPTY): return empty
        if d.eq(SUBR) or d.eq(RNG) or d.eq(VIEW): return one_(t)
        apps_in(t); q = APPS.get(t.get_id())
        if q is not None and q[0].unfold and q[0].name not in Revealed.opaque: return fam(q[0].unfold(q[1], *q[2]))
    return None
def vlen(t):
    """number of elements"""
    if z3.is_app(t):
        if t.eq(EMPTY): return k64(0)
        if t.decl().eq(CAT): return vlen(t.arg(0)) + vlen(t.arg(1))
        if t.decl().eq(SUBR) or t.decl().eq(RNG) or t.decl().eq(VIEW): return k64(1)
        apps_in(t); q = APPS.get(t.get_id())
        if q is not None and q[0].vec: return q[0].vec[0](q[1], *q[2])
    return VLEN('', t)
VLEN = Fam('VLEN', (SEQ,), BV64, lambda key, t: structural(t, lambda a, b: vlen(a) + vlen(b), lambda e: k64(1), k64(0), lambda u: VLEN('', u)))
def elem(k):
    def at(key, t, j):
        return structural(t, lambda a, b: z3.If(z3.ULT(j, vlen(a)), F('', a, j), F('', b, j - vlen(a))), lambda e: e.arg(k) if e.decl().eq(SUBR) else None, None, lambda u: F('', u, j))
    F = Fam('AT%d' % k, (SEQ, BV64), BV64, at); return F
AT = [elem(0), elem(1)]
class VecContent(Content):
    """the elements of a vector of Subrange"""
    fields = ((0, 8), (8, 8))
    def __init__(c, term):
        Content.__init__(c, 16, 'V'); c.term = term
        q = (apps_in(term), APPS.get(term.get_id()))[1]; c.fam = q if q is not None and q[0].vec else None
    def sel(c, i, sub=0, size=None):
        k = {(0, 8): 0, (8, 8): 1}[(sub, size or 8)]; i = b64(i)
        return c.fam[0].vec[1][k](c.fam[1], *c.fam[2], i) if c.fam else AT[k]('', c.term, i)

# ---- solver -----------------------------------------------------------------------------------
class Solver:
    """answers come from the integer translation where it decides, else from bit-vector solvers"""
    def __init__(s, timeout=8000):
        s.s = z3.Solver()
        s.timeout = timeout; s.quick = 100
        s.stack = []     # asserted constraints, one push per entry
        s.time = 0.0; s.calls = 0; s.fresh = 0; s.byint = 0; s.unk = 0; s.want = False
        s.int = intabs.IntSolver(1500)
    def sync(s, pc):
        n = 0; st = s.stack; m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]: n += 1
        if len(st) > n:
            s.s.pop(len(st) - n); del st[n:]
        for c in pc[n:]:
            s.s.push(); s.s.add(c); st.append(c)
    def check(s, pc, extra=(), precise=True, model=False):
        """sat / unsat / unknown of pc and extra; precise=False: a sat of the translation is good enough;
        model: a bit-vector model is wanted"""
        t = time.time(); s.calls += 1; s.reason = ''; s.model = None
        try:
            r, exact = s.int.check(pc, extra, s.want)
            s.imodel = r == z3.sat
            if r == z3.unsat: s.byint += 1; return 'unsat'
            if r == z3.sat and not model and (exact or not precise): s.byint += 1; return 'sat'
            s.imodel = False
            if r == z3.unknown or not model:
                s.sync(pc); s.s.push(); s.s.add(*extra); s.s.set('timeout', s.quick)
                r = s.s.check()
                if r == z3.sat: s.model = s.s.model()
                s.s.pop()
            else: r = z3.unknown
            if r == z3.unknown:
                q = z3.Solver(); q.set('timeout', s.timeout); q.add(*pc); q.add(*extra)
                r = q.check(); s.fresh += 1
                if r == z3.sat: s.model = q.model()
                if r == z3.unknown: s.reason = q.reason_unknown(); s.unk += 1
            return str(r)
        finally: s.time += time.time() - t
    def holds(s, e):
        if s.imodel: return s.int.holds(e)
        return z3.is_true(s.model.eval(e, model_completion=True))
