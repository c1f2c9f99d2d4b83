"""Integer abstraction of 64-bit terms. A query over 64-bit vectors is translated to one over the integers
in which every consequence is a consequence of the original: additions and subtractions keep their wrap-around,
operators with no linear meaning become uninterpreted functions with the range of their type. `unsat` therefore
carries over to the original query; `sat` says nothing and the caller asks a bit-vector solver."""
import z3
M = 1 << 64
MI = z3.IntVal(M)
INT = z3.IntSort(); BV64 = z3.BitVecSort(64)
_ufs = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(k)
    if f is None: f = _ufs[k] = z3.Function('i!' + name, *sorts)
    return f
_memo = {}     # ast id -> (int term, frozenset of side-condition ids, original)
_side = {}     # id -> constraint
_iv = {}
def iv(v):
    r = _iv.get(v)
    if r is None: r = _iv[v] = z3.IntVal(v)
    return r
_rng = {}
def rng(t):
    """0 <= t < 2^64"""
    i = t.get_id()
    if i not in _rng:
        c = z3.And(t >= 0, t < MI); _side[c.get_id()] = c; _rng[i] = (c.get_id(), t)
    return frozenset((_rng[i][0],))
D = z3
_dmap = {}
def fdecl(d, dom):
    """the function symbol of the translation: 64-bit arguments and results become integers"""
    i = d.get_id()
    r = _dmap.get(i)
    if r is None:
        ss = [INT if d.domain(k) == BV64 else d.domain(k) for k in range(d.arity())]
        rs = INT if d.range() == BV64 else d.range()
        if all(d.domain(k) != BV64 for k in range(d.arity())) and d.range() != BV64: f = d
        else: f = z3.Function('i!%s!%d' % (d.name(), i), *(ss + [rs])) if ss else z3.Const('i!%s!%d' % (d.name(), i), rs)
        r = _dmap[i] = (f, d)
    return r[0]
E_ = frozenset()
OPQ = frozenset((-1,))      # the translation is not exact
_neglits = {}
def wrapadd(s):
    """normalise an integer in (-M, 2M)"""
    return z3.If(s >= MI, s - MI, z3.If(s < 0, s + MI, s))
def tr(e):
    r = _memo.get(e.get_id())
    if r is not None: return r[0], r[1]
    st = [e]
    while st:
        x = st[-1]; xi = x.get_id()
        if xi in _memo: st.pop(); continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _memo]
        if todo: st.extend(todo); continue
        t, s = one(x, ch)
        _memo[xi] = (t, s, x); st.pop()
    r = _memo[e.get_id()]
    return r[0], r[1]
def one(x, ch):
    sd = E_
    ts = []
    for c in ch:
        m = _memo[c.get_id()]; ts.append(m[0]); sd = sd | m[1]
    d = x.decl(); k = d.kind(); is64 = x.sort() == BV64
    args64 = any(c.sort() == BV64 for c in ch)
    if not is64 and not args64:
        if not ch: return x, E_
        if k in CMP and ch[0].sort() == BV32 and (counter(ch[0]) or counter(ch[1])):
            a, s1 = view32(ch[0]); b, s2 = view32(ch[1])
            bx = x if all(t is c or t.eq(c) for t, c in zip(ts, ch)) else d(*ts)
            ia = cmp32(k, a, b)
            c = bx == ia; _side[c.get_id()] = c
            return bx, sd | s1 | s2 | frozenset((c.get_id(),))
        if all(t is c or t.eq(c) for t, c in zip(ts, ch)): return x, sd
        if k == z3.Z3_OP_AND: return z3.And(ts), sd
        if k == z3.Z3_OP_OR: return z3.Or(ts), sd
        if k == z3.Z3_OP_NOT: return z3.Not(ts[0]), sd
        if k == z3.Z3_OP_UNINTERPRETED: return fdecl(d, None)(*ts), sd
        return d(*ts), sd
    if is64:
        if z3.is_bv_value(x): return iv(x.as_long()), E_
        if k == z3.Z3_OP_ITE: return z3.If(ts[0], ts[1], ts[2]), sd
        if k == z3.Z3_OP_BADD:
            # constants with the top bit set are subtractions
            s = None; pos = []; c0 = 0
            for c, t in zip(ch, ts):
                if z3.is_bv_value(c):
                    c0 += c.as_long()
                else: pos.append(t)
            c0 %= M
            if c0 >= M // 2: c0 -= M
            if not pos: return iv(c0 % M), sd
            s = pos[0]
            for t in pos[1:]: s = wrap1(s + t, 0)
            if c0 > 0: s = wrap1(s + c0, 0)
            elif c0 < 0: s = wrap1(s + c0, 1)
            return s, sd
        if k == z3.Z3_OP_BSUB:
            s = ts[0]
            for t in ts[1:]: s = wrap1(s - t, 1)
            return s, sd
        if k == z3.Z3_OP_BNEG: return z3.If(ts[0] == 0, ts[0], MI - ts[0]), sd
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
            c0 = ch[0].as_long()
            if c0 == M - 1: return z3.If(ts[1] == 0, ts[1], MI - ts[1]), sd
            n0 = c0 if c0 <= 16 else M - c0
            if n0 <= 16:
                v = n0 * ts[1]; r = v - (n0 - 1) * M
                for j in range(n0 - 2, -1, -1): r = z3.If(v < (j + 1) * M, v - j * M, r)
                if c0 > 16: r = z3.If(r == 0, r, MI - r)
                return r, sd
        if k == z3.Z3_OP_UNINTERPRETED:
            f = fdecl(d, None)
            t = f(*ts) if ch else f
            return t, sd | rng(t)
        w = None
        if k == z3.Z3_OP_ZERO_EXT and ch[0].size() == 32: w = ch[0]
        elif k == z3.Z3_OP_CONCAT and len(ch) == 2 and ch[1].size() == 32 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0: w = ch[1]
        if w is not None:
            t, s2 = view32(w); return t, sd | s2
        if k == z3.Z3_OP_SIGN_EXT and ch[0].size() == 32:
            t, s2 = view32(ch[0]); return z3.If(t >= iv(1 << 31), t + (M - (1 << 32)), t), sd | s2
        sh = shifted(x, ch)
        if sh is not None:
            src, c0, signed = sh
            v, s2 = tr(src)
            if signed: v = z3.If(v >= iv(M // 2), v - MI, v)
            q = z3.FreshInt('q')
            c = z3.And(q * (1 << c0) <= v, v < (q + 1) * (1 << c0)); _side[c.get_id()] = c
            return (z3.If(q < 0, q + MI, q) if signed else q), s2 | frozenset((c.get_id(),))
        # no linear meaning: uninterpreted, with its range
        t = opaque(x, ch, ts)
        return t, sd | rng(t) | narrow(x, ch, t) | OPQ
    # 64-bit arguments, other result
    if k == z3.Z3_OP_EQ: return ts[0] == ts[1], sd
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(ts), sd
    if k == z3.Z3_OP_ULEQ: return ts[0] <= ts[1], sd
    if k == z3.Z3_OP_ULT: return ts[0] < ts[1], sd
    if k == z3.Z3_OP_UGEQ: return ts[0] >= ts[1], sd
    if k == z3.Z3_OP_UGT: return ts[0] > ts[1], sd
    if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
        a, b = [z3.If(t >= iv(M // 2), t - MI, t) if not z3.is_int_value(t) else iv(t.as_long() - M if t.as_long() >= M // 2 else t.as_long()) for t in ts]
        return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k], sd
    if k == z3.Z3_OP_UNINTERPRETED: return fdecl(d, None)(*ts), sd
    return opaque(x, ch, ts), sd | OPQ
def wrap1(s, neg):
    return z3.If(s < 0, s + MI, s) if neg else z3.If(s >= MI, s - MI, s)
def shifted(x, ch):
    """(term, n, signed) when x is the term shifted right by a constant"""
    k = x.decl().kind()
    if k in (z3.Z3_OP_BASHR, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]) and 0 < ch[1].as_long() < 63:
        return ch[0], ch[1].as_long(), k == z3.Z3_OP_BASHR
    def top(e):
        return e.decl().kind() == z3.Z3_OP_EXTRACT and e.decl().params()[0] == 63 and e.children()[0].sort() == BV64 and e.decl().params()[1] > 0
    if k == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0 and top(ch[1]):
        return ch[1].children()[0], ch[1].decl().params()[1], False
    if k == z3.Z3_OP_SIGN_EXT and top(ch[0]): return ch[0].children()[0], ch[0].decl().params()[1], True
    return None
def opaque(x, ch, ts):
    d = x.decl()
    name = 'op!%s!%s' % (d.name(), ','.join(str(p) for p in d.params()))
    rs = INT if x.sort() == BV64 else x.sort()
    return uf(name, *([t.sort() for t in ts] + [rs]))(*ts)
def narrow(x, ch, t):
    """extra range facts of zero extension and masks"""
    k = x.decl().kind(); hi = None
    if k == z3.Z3_OP_ZERO_EXT: hi = 1 << ch[0].size()
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0: hi = 1 << (64 - ch[0].size())
    elif k == z3.Z3_OP_BAND:
        for c in ch:
            if z3.is_bv_value(c): hi = c.as_long() + 1
    if hi is None: return E_
    c = t < hi; _side[c.get_id()] = c
    return frozenset((c.get_id(),))

CMP = (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
BV32 = z3.BitVecSort(32)
M32 = 1 << 32
def cmp32(k, a, b):
    if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
        a, b = [z3.If(t >= iv(1 << 31), t - M32, t) for t in (a, b)]
    if k == z3.Z3_OP_EQ: return a == b
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ): return a <= b
    if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT): return a < b
    if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ): return a >= b
    return a > b
_cnt = {}
def counter(t):
    """a 32-bit term built from a symbol by additions"""
    i = t.get_id()
    r = _cnt.get(i)
    if r is None:
        k = t.decl().kind(); ch = t.children()
        v = (k == z3.Z3_OP_UNINTERPRETED and not ch) if k not in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_ITE) else any(counter(c) for c in ch if c.sort() == BV32)
        r = _cnt[i] = (v, t)
    return r[0]
_v32 = {}
def view32(t):
    """the unsigned integer value of a 32-bit term"""
    i = t.get_id()
    r = _v32.get(i)
    if r is None:
        r = _v32[i] = mk32(t) + (t,)
    return r[0], r[1]
def mk32(t):
    if z3.is_bv_value(t): return iv(t.as_long()), E_
    k = t.decl().kind(); ch = t.children()
    if k == z3.Z3_OP_BADD:
        c0 = 0; s = None; sd = E_
        for c in ch:
            if z3.is_bv_value(c): c0 += c.as_long(); continue
            v, s2 = view32(c); sd |= s2
            s = v if s is None else w32(s + v)
        c0 %= M32
        if c0 >= M32 // 2: c0 -= M32
        if s is None: return iv(c0 % M32), sd
        if c0 > 0: s = z3.If(s + c0 >= M32, s + c0 - M32, s + c0)
        elif c0 < 0: s = z3.If(s + c0 < 0, s + c0 + M32, s + c0)
        return s, sd
    if k == z3.Z3_OP_BSUB and len(ch) == 2:
        a, s1 = view32(ch[0]); b, s2 = view32(ch[1])
        return z3.If(a < b, a - b + M32, a - b), s1 | s2
    if k == z3.Z3_OP_ITE:
        c, s0 = tr(ch[0]); a, s1 = view32(ch[1]); b, s2 = view32(ch[2])
        return z3.If(c, a, b), s0 | s1 | s2
    tt, s0 = tr(t)
    v = uf('v32', BV32, INT)(tt)
    c = z3.And(v >= 0, v < M32); _side[c.get_id()] = c
    return v, s0 | frozenset((c.get_id(),)) | OPQ
def w32(s): return z3.If(s >= M32, s - M32, s)

class IntSolver:
    def __init__(s, timeout=300):
        s.s = z3.Solver(); s.s.set('timeout', timeout)
        s.stack = []; s.have = [set()]
    def add(s, c):
        t, sd = tr(c)
        new = sd - s.allh() if sd else ()
        for i in new:
            if i >= 0: s.s.add(_side[i])
            s.have[-1].add(i)
        s.s.add(t)
    def allh(s):
        r = set()
        for h in s.have: r |= h
        return r
    def push(s): s.s.push(); s.have.append(set())
    def pop(s, n=1):
        s.s.pop(n); del s.have[-n:]
    def sync(s, pc):
        n = 0; st = s.stack; m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]: n += 1
        if len(st) > n:
            s.pop(len(st) - n); del st[n:]
        for c in pc[n:]:
            s.push(); s.add(c); st.append(c)
    def check(s, pc, extra=(), want=False):
        """(result, exact)"""
        s.sync(pc)
        if extra:
            s.push()
            for e in extra: s.add(e)
        r = s.s.check()
        exact = True
        if r == z3.sat:
            exact = -1 not in s.allh(); s.model = s.s.model() if want else None
        if extra: s.pop()
        return r, exact
    def holds(s, e):
        """value of e in the last model"""
        return z3.is_true(s.model.eval(tr(e)[0], model_completion=True))
