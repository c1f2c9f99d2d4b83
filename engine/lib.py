"""Specification functions: what the properties say, as recursive definitions over the bytes."""
import re, z3
from spec import *
import sx
from sx import Ptr, Arr, Tab, Cells, Undef, Unsupported, PathEnd, GStr, GVec

INV = K(0xFFFFFFFF, 32)
NPOS = K(-1, 64)
def reg(u): return Content.reg[u]
def by(u, i): return Content.reg[u].sel(i)
_nc = {}
def nocontent(es):
    if es not in _nc: _nc[es] = Content(es, 'none')
    return _nc[es]
def content_of(x, st, p, es=None, cur=False):
    ob = st.mem.get(p.o)
    if ob is None and isinstance(p.o, str): ob = x.globobj(st, p.o)
    if isinstance(ob, Arr):
        if ob.cur is not None and not cur: raise Unsupported('view of an array that is rewritten')
        if ob.w: raise Unsupported('view of a written array')
        return ob.c
    if isinstance(ob, Tab):
        if ob.cont is None:
            if ob.e.k != 'i': raise Unsupported('view of a table of structures')
            vals = [x.cval(st, ob.m, ob.t, ob.init, i * ob.es, ob.es) for i in range(ob.n)]
            ob.cont = TabContent(ob.es, vals, 'T')
        return ob.cont
    if isinstance(ob, Cells):
        vals = []
        i = 0
        while i < ob.size:
            v = x.cell_load(ob, i, 1)
            if isinstance(v, Undef): break
            vals.append(x.scalar(v)); i += 1
        key = tuple(v if isinstance(v, int) else v.get_id() for v in vals)
        c = _cellc.get(key)
        if c is None: c = _cellc[key] = TabContent(1, vals, 'L')
        return c
    if p.o == 0: return nocontent(es or 1)
    raise Unsupported('content of %r' % (ob,))
_cellc = {}
def bytecontent(vals):
    """contents of a local buffer that holds these bytes"""
    vals = [simp(v) for v in vals]; key = tuple(v if isinstance(v, int) else v.get_id() for v in vals)
    if key not in _cellc: _cellc[key] = TabContent(1, vals, 'L')
    return _cellc[key]
I = (BV64, BV64)
one = K(1, 64); zero = K(0, 64)

# ---- bytes --------------------------------------------------------------------------------------
def cont(b): return (b & K(0xC0, 8)) == K(0x80, 8)
def leadlen(b):
    return z3.If(z3.ULT(b, K(0x80, 8)), k64(1), z3.If((b & K(0xE0, 8)) == K(0xC0, 8), k64(2), z3.If((b & K(0xF0, 8)) == K(0xE0, 8), k64(3), z3.If((b & K(0xF8, 8)) == K(0xF0, 8), k64(4), k64(0)))))
def z32(b): return z3.ZeroExt(24, b)

# DL(i,e): length of the well-formed sequence at i that ends at or before e, 0 if there is none
def dl_unfold(key, i, e):
    u = key[0]; L = leadlen(by(u, i)); n = e - i
    ok = And(z3.ULT(i, e), L != zero, z3.ULE(L, n), Imp(z3.ULE(k64(2), L), cont(by(u, i + one))), Imp(z3.ULE(k64(3), L), cont(by(u, i + k64(2)))), Imp(z3.ULE(k64(4), L), cont(by(u, i + k64(3)))))
    return z3.If(ok, L, zero)
def dl_facts(key, app, i, e):
    return [z3.ULE(app, k64(4)), Imp(z3.ULE(i, e), z3.ULE(app, e - i)), Imp(Not(z3.ULT(i, e)), app == zero), Imp(app != zero, app == leadlen(by(key[0], i))), Imp(And(z3.ULT(i, e), z3.ULT(by(key[0], i), K(0x80, 8))), app == one)]
DL = Fam('DL', I, BV64, dl_unfold, dl_facts, opaque=True)
# DV(i): value of the sequence at i (meaningful where DL is not 0)
def dv_unfold(key, i):
    u = key[0]; b = [z32(by(u, i + k64(k))) for k in range(4)]; m = K(0x3F, 32)
    v2 = ((b[0] & K(0x1F, 32)) << 6) | (b[1] & m)
    v3 = ((b[0] & K(0x0F, 32)) << 12) | ((b[1] & m) << 6) | (b[2] & m)
    v4 = ((b[0] & K(0x07, 32)) << 18) | ((b[1] & m) << 12) | ((b[2] & m) << 6) | (b[3] & m)
    L = leadlen(by(u, i))
    return z3.If(L == one, b[0], z3.If(L == k64(2), v2, z3.If(L == k64(3), v3, v4)))
def dv_facts(key, app, i): return [z3.ULE(app, K(0x1FFFFF, 32)), Imp(z3.ULT(by(key[0], i), K(0x80, 8)), app == z32(by(key[0], i)))]
DV = Fam('DV', (BV64,), BV32, dv_unfold, dv_facts, opaque=True)
# PL(b,i): length of the well-formed sequence that ends at i and starts at or after b, 0 if there is none
def pl_unfold(key, b, i):
    r = zero
    for k in (4, 3, 2, 1):
        r = z3.If(And(z3.ULE(k64(k), i - b), DL(key, i - k64(k), i) == k64(k)), k64(k), r)
    return z3.If(z3.ULT(b, i), r, zero)
def pl_facts(key, app, b, i):
    return [z3.ULE(app, k64(4)), Imp(z3.ULE(b, i), z3.ULE(app, i - b)), Imp(app != zero, DL(key, i - app, i) == app), Imp(Not(z3.ULT(b, i)), app == zero), Imp(And(z3.ULT(b, i), z3.ULT(by(key[0], i - one), K(0x80, 8))), app == one)]
PL = Fam('PL', I, BV64, pl_unfold, pl_facts, opaque=True)
# RUN(i,e): length of the run of continuation bytes at i
def run_unfold(key, i, e): return z3.If(And(z3.ULT(i, e), cont(by(key[0], i))), one + RUN(key, i + one, e), zero)
def run_facts(key, app, i, e): return [Imp(z3.ULE(i, e), z3.ULE(app, e - i)), Imp(Not(z3.ULT(i, e)), app == zero)]
RUN = Fam('RUN', I, BV64, run_unfold, run_facts, holes=((0, 'pos', 0),), acc='pos', opaque=True, meas=lambda i, e: e - i)
def cap(b):
    """continuation bytes a unit that starts with byte b takes at most"""
    return z3.If(z3.ULT(b, K(0x80, 8)), zero, z3.If((b & K(0xE0, 8)) == K(0xC0, 8), one, z3.If((b & K(0xF0, 8)) == K(0xE0, 8), k64(2), z3.If((b & K(0xF8, 8)) == K(0xF0, 8), k64(3), K(-1, 64)))))
def umin(a, b): return z3.If(z3.ULE(a, b), a, b)
# SK(i,e): length of the unit at i
def sk_unfold(key, i, e): return z3.If(z3.ULT(i, e), one + umin(cap(by(key[0], i)), RUN(key, i + one, e)), zero)
def sk_facts(key, app, i, e):
    return [Imp(z3.ULT(i, e), And(z3.ULE(one, app), z3.ULE(app, e - i))), Imp(Not(z3.ULT(i, e)), app == zero), Imp(DL(key, i, e) != zero, app == DL(key, i, e))]
SK = Fam('SK', I, BV64, sk_unfold, sk_facts, opaque=True, ldepth=5)
# RB(b,i): length of the run of continuation bytes that ends at i
def rb_unfold(key, b, i): return z3.If(And(z3.ULT(b, i), cont(by(key[0], i - one))), one + RB(key, b, i - one), zero)
def rb_facts(key, app, b, i): return [Imp(z3.ULE(b, i), z3.ULE(app, i - b)), Imp(Not(z3.ULT(b, i)), app == zero)]
RB = Fam('RB', I, BV64, rb_unfold, rb_facts, holes=((1, 'pos', 0),), acc='negpos', opaque=True, meas=lambda b, i: i - b)
# SP(b,i): start of the last unit of [b,i), computed from the end
def sp_unfold(key, b, i):
    q = i - RB(key, b, i); c = cap(by(key[0], q - one))
    return z3.If(z3.ULT(b, i), z3.If(q == b, b, z3.If(z3.ULE(i - q, c), q - one, q + c)), i)
def sp_facts(key, app, b, i):
    return [Imp(z3.ULT(b, i), And(z3.ULE(b, app), z3.ULT(app, i))), Imp(Not(z3.ULT(b, i)), app == i), Imp(PL(key, b, i) != zero, app == i - PL(key, b, i))]
SP = Fam('SP', I, BV64, sp_unfold, sp_facts, opaque=True, ldepth=5)
# CNT(i,e): number of units
def cnt_unfold(key, i, e): return z3.If(z3.ULT(i, e), one + CNT(key, i + SK(key, i, e), e), zero)
def cnt_facts(key, app, i, e): return [Imp(z3.ULE(i, e), z3.ULE(app, e - i)), Imp(Not(z3.ULT(i, e)), app == zero)]
CNT = Fam('CNT', I, BV64, cnt_unfold, cnt_facts, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i)
# NTH(i,e,k): position after k units, NPOS if there are fewer
def nth_unfold(key, i, e, k): return z3.If(k == zero, i, z3.If(z3.ULT(i, e), NTH(key, i + SK(key, i, e), e, k - one), NPOS))
def nth_facts(key, app, i, e, k):
    return [Imp(And(z3.ULE(i, e), z3.ULT(e - i, k)), app == NPOS), Imp(And(z3.ULE(i, e), app != NPOS), And(z3.ULE(i, app), z3.ULE(app, e)))]
NTH = Fam('NTH', (BV64, BV64, BV64), BV64, nth_unfold, nth_facts, holes=((0, 'pos', 0), (2, 'cnt')), meas=lambda i, e, k: e - i)
# NTB(b,i,k): position before k units, counted backwards from i; NPOS if there are fewer
def ntb_unfold(key, b, i, k): return z3.If(k == zero, i, z3.If(z3.ULT(b, i), NTB(key, b, SP(key, b, i), k - one), NPOS))
def ntb_facts(key, app, b, i, k):
    return [Imp(And(z3.ULE(b, i), z3.ULT(i - b, k)), app == NPOS), Imp(And(z3.ULE(b, i), app != NPOS), And(z3.ULE(b, app), z3.ULE(app, i)))]
NTB = Fam('NTB', (BV64, BV64, BV64), BV64, ntb_unfold, ntb_facts, holes=((1, 'pos', 0), (2, 'cnt')), meas=lambda b, i, k: i - b)

# ---- comparison of bytes ---------------------------------------------------------------------------
def eql_unfold(key, i, j, n): return z3.If(n == zero, TRUE, And(by(key[0], i) == by(key[1], j), EQL(key, i + one, j + one, n - one)))
def eql_facts(key, app, i, j, n):
    return [Imp(i == j, app)] if key[0] == key[1] else []
EQL = Fam('EQL', (BV64, BV64, BV64), BOOL, eql_unfold, eql_facts, holes=((0, 'pos', 0), (1, 'pos', 1), (2, 'cnt')), meas=lambda i, j, n: n)
def older(u): m = re.search(r'\d+$', u); return int(m[0]) if m else 0
EQL.lencnt = True         # the count is a length
EQL.knorm = lambda key, a: (key, a) if older(key[0]) <= older(key[1]) else ((key[1], key[0]), (a[1], a[0], a[2]))       # equality is symmetric
# MIS(i,e,j,f): the first position of [i,e) whose byte is not that of [j,f) at the same place, or where one of them ends
def mis_unfold(key, i, e, j, f): return z3.If(And(z3.ULT(i, e), z3.ULT(j, f), by(key[0], i) == by(key[1], j)), MIS(key, i + one, e, j + one, f), i)
def mis_facts(key, app, i, e, j, f):
    k = app - i
    return [Imp(And(z3.ULE(i, e), z3.ULE(j, f)), And(z3.ULE(i, app), z3.ULE(app, e), z3.ULE(k, f - j), EQL(key, i, j, k), Imp(And(app != e, k != f - j), by(key[0], app) != by(key[1], j + k)))),
            Imp(And(z3.ULE(i, e), z3.ULE(j, f), z3.ULE(f - j, e - i)), (k == f - j) == EQL(key, i, j, f - j))]
MIS = Fam('MIS', (BV64, BV64, BV64, BV64), BV64, mis_unfold, mis_facts, holes=((0, 'pos', 0), (2, 'pos', 1)), meas=lambda i, e, j, f: e - i)
# SF(i,e,pb,n): the leftmost position of an occurrence of p[pb,pb+n) in [i,e), e if there is none
def sf_unfold(key, i, e, pb, n):
    return z3.If(Or(Not(z3.ULE(i, e)), z3.ULT(e - i, n)), e, z3.If(EQL(key, i, pb, n), i, SF(key, i + one, e, pb, n)))
def sf_facts(key, app, i, e, pb, n):
    return [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e))), Imp(And(z3.ULE(i, e), app != e), z3.ULE(n, e - app)), Imp(And(z3.ULE(i, e), app != e), EQL(key, app, pb, n))]
SF = Fam('SF', (BV64, BV64, BV64, BV64), BV64, sf_unfold, sf_facts, holes=((0, 'pos', 0),), meas=lambda i, e, pb, n: e - i)
# SL_(b,i,pb,n): the rightmost position p with b <= p <= i where p[pb,pb+n) occurs, NPOS if there is none
def slb_unfold(key, b, i, pb, n):
    return z3.If(Not(z3.ULE(b, i)), NPOS, z3.If(EQL(key, i, pb, n), i, z3.If(i == b, NPOS, SLB(key, b, i - one, pb, n))))
def slb_facts(key, app, b, i, pb, n):
    return [Imp(app != NPOS, And(z3.ULE(b, app), z3.ULE(app, i), EQL(key, app, pb, n)))]
SLB = Fam('SLB', (BV64, BV64, BV64, BV64), BV64, slb_unfold, slb_facts, holes=((1, 'pos', 0),), meas=lambda b, i, pb, n: i - b)
# FIND(i,e,v): position of the first element equal to v in [i,e), e if there is none
def find_unfold(key, i, e, v):
    c = reg(key[0]); el = c.sel(i)
    if c.es < 4: el = z3.ZeroExt(32 - 8 * c.es, el)
    return z3.If(z3.ULT(i, e), z3.If(el == v, i, FIND(key, i + one, e, v)), e)
def find_facts(key, app, i, e, v):
    c = reg(key[0]); el = c.sel(app)
    if c.es < 4: el = z3.ZeroExt(32 - 8 * c.es, el)
    return [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e))), Imp(And(z3.ULE(i, e), app != e), el == v)]
FIND = Fam('FIND', (BV64, BV64, BV32), BV64, find_unfold, find_facts, holes=((0, 'pos', 0),), meas=lambda i, e, v: e - i)
FIND.lkeys = lambda: [(Content(1, 'L').uid,), (Content(4, 'L').uid,)]

def enclen(c): return z3.If(z3.ULT(c, K(0x80, 32)), one, z3.If(z3.ULT(c, K(0x800, 32)), k64(2), z3.If(z3.ULT(c, K(0x10000, 32)), k64(3), z3.If(z3.ULE(c, K(0x10FFFF, 32)), k64(4), zero))))
# first position in [i,e) whose byte satisfies a test, e if there is none
def firstbyte(name, test):
    def unfold(key, i, e): return z3.If(z3.ULT(i, e), z3.If(test(by(key[0], i)), i, F(key, i + one, e)), e)
    def facts(key, app, i, e): return [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e))), Imp(And(z3.ULE(i, e), app != e), test(by(key[0], app)))]
    F = Fam(name, I, BV64, unfold, facts, holes=((0, 'pos', 0),), meas=lambda i, e: e - i)
    return F
def b8(ch): return K(ord(ch), 8)
def escapable(b): return Or(z3.ULT(b, K(32, 8)), b == b8('"'), b == b8('\\'))
ESCP = firstbyte('ESCP', escapable)
# EJ(i,e): the JSON text of [i,e)
def ej_unfold(key, i, e):
    p = ESCP(key, i, e); b = by(key[0], p); pre = [('sl', reg(key[0]), i, p), ('byte', 92)]; rest = [('t', EJ(key, p + one, e))]
    dig = lambda n: z3.If(z3.ULT(n, K(10, 8)), n + K(48, 8), n + K(55, 8))
    r = seq(pre + [('byte', v) for v in (117, 48, 48, dig(z3.LShR(b, 4)), dig(b & K(15, 8)))] + rest)
    for ch, v in zip('\b\f\n\r\t"\\', 'bfnrt"\\'): r = z3.If(b == b8(ch), seq(pre + [('byte', ord(v))] + rest), r)
    return z3.If(p == e, sl(key[0], i, e), r)
EJ = Fam('EJ', I, SEQ, ej_unfold, None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i)

def byin(b, lo, hi): return And(z3.ULE(b8(lo), b), z3.ULE(b, b8(hi)))
def hexbyte(b): return Or(byin(b, '0', '9'), byin(b, 'A', 'F'), byin(b, 'a', 'f'))
def octbyte(b): return byin(b, '0', '7')
NHEX = firstbyte('NHEX', lambda b: Not(hexbyte(b))); NOCT = firstbyte('NOCT', lambda b: Not(octbyte(b)))
# ESL(p,e): length of the escape sequence that starts with the backslash at p, 0 if it is malformed
def esl_unfold(key, p, e):
    t = by(key[0], p + one); two = p + k64(2); lim = lambda F, i, n: z3.If(z3.ULE(k64(n), e - p), F(key, i, p + k64(n)), F(key, i, e)) - p; is_ = lambda *cs: Or(*[t == b8(ch) for ch in cs])
    x = NHEX(key, two, e) - p; u = lim(NHEX, two, 6); U = lim(NHEX, two, 10)
    return z3.If(Not(z3.ULT(k64(1), e - p)), zero,
        z3.If(is_('x', 'X'), z3.If(z3.ULT(x, k64(4)), zero, x), z3.If(is_('u'), z3.If(u == k64(6), k64(6), zero), z3.If(is_('U'), z3.If(U == k64(10), k64(10), zero),
        z3.If(octbyte(t), lim(NOCT, p + one, 4), z3.If(z3.ULT(t, K(128, 8)), k64(2), zero))))))
def esl_facts(key, app, p, e):
    t = by(key[0], p + one); ok = And(z3.ULE(p, e), app != zero); is_ = lambda *cs: Or(*[t == b8(ch) for ch in cs]); six = p + k64(6)
    return [Imp(z3.ULE(p, e), z3.ULE(app, e - p)), Or(app == zero, z3.ULE(k64(2), app)), Imp(ok, z3.ULT(t, K(128, 8))), Imp(And(ok, is_('u')), And(app == k64(6), NHEX(key, p + k64(2), six) == six)),
        Imp(And(ok, octbyte(t)), z3.ULE(app, k64(4))), Imp(And(ok, is_('x', 'X', 'U')), And(z3.ULE(k64(4), app), hexbyte(by(key[0], p + k64(2)))))]
ESL = Fam('ESL', I, BV64, esl_unfold, esl_facts, opaque=True, ldepth=2)

NZ = firstbyte('NZ', lambda b: b != b8('0'))
NZ.facts = (lambda f: lambda key, app, i, e: f(key, app, i, e) + [Imp(z3.ULE(i, e), And(NHEX(key, app, e) == NHEX(key, i, e), NOCT(key, app, e) == NOCT(key, i, e)))])(NZ.facts)     # zeros are digits
def hexval(b): return z32(z3.If(byin(b, '0', '9'), b - K(48, 8), z3.If(byin(b, 'A', 'F'), b - K(55, 8), b - K(87, 8))))
def octval(b): return z32(b - K(48, 8))
# NUMH, NUMO(i,q,v): the value of the digits [i,q) after a prefix of value v
def number(name, val, bits):
    F = Fam(name, I + (BV32,), BV32, lambda key, i, q, v: z3.If(z3.ULT(i, q), F(key, i + one, q, (v << bits) | val(by(key[0], i))), v), None, holes=((0, 'pos', 0), (2, 'cp')), meas=lambda i, q, v: q - i)
    return F
NUMH = number('NUMH', hexval, 4); NUMO = number('NUMO', octval, 3)
class Base: pass
HEX = Base(); HEX.base = 16; HEX.digit = hexbyte; HEX.val = hexval; HEX.num = NUMH; HEX.end = NHEX; HEX.over = lambda n, d: z3.ULT(k64(8), n)
OCT = Base(); OCT.base = 8; OCT.digit = octbyte; OCT.val = octval; OCT.num = NUMO; OCT.end = NOCT; OCT.over = lambda n, d: Or(z3.ULT(k64(11), n), And(n == k64(11), z3.ULE(K(4, 32), d)))

def numtext(b, u, i, e):
    """of the digits at i: (position of the first that is not 0, their end, the first's value, the value, whether it has more than 32 bits)"""
    z = NZ(u, i, e); q = b.end(u, i, e); d = b.val(by(u, z)); real = And(z != e, b.digit(by(u, z)))
    return z, q, z3.If(real, b.num(u, z + one, q, d), K(0, 32)), And(real, b.over(q - z, d))

# HXV, OCV: the value of the digits at i; HXO, OCO: it has more than 32 bits
def digitfams(n, b, k):
    V = Fam(n + 'V', I, BV32, lambda key, i, e: numtext(b, key[0], i, e)[2], None, opaque=True)
    O = Fam(n + 'O', I, BOOL, lambda key, i, e: numtext(b, key[0], i, e)[3], lambda key, app, i, e: [Imp(And(z3.ULE(i, e), z3.ULE(e - i, k64(k))), Not(app))], opaque=True, ldepth=2)
    return V, O
HXV, HXO = digitfams('HX', HEX, 8); OCV, OCO = digitfams('OC', OCT, 10)
HEX.value = HXV; HEX.toobig = HXO; OCT.value = OCV; OCT.toobig = OCO
def surrogates(a, b): return (((a & K(0x3FF, 32)) << 10) | (b & K(0x3FF, 32))) + K(0x10000, 32)
def high(v): return And(z3.ULE(K(0xD800, 32), v), z3.ULE(v, K(0xDBFF, 32)))
def low(v): return And(z3.ULE(K(0xDC00, 32), v), z3.ULE(v, K(0xDFFF, 32)))
def u16(u, i, e):
    """(too few digits, the value is of a pair, value, of the pair) of the digits at i"""
    v = HXV(u, i, i + k64(4)); w = HXV(u, i + k64(6), i + k64(10)); n = e - i
    bad = Or(z3.ULT(n, k64(4)), NHEX(u, i, i + k64(4)) != i + k64(4))
    second = And(high(v), z3.ULE(k64(10), n), by(u, i + k64(4)) == K(92, 8), by(u, i + k64(5)) == b8('u'))
    full = NHEX(u, i + k64(6), i + k64(10)) == i + k64(10)
    return bad, And(second, full, low(w)), v, surrogates(v, w), And(second, Not(full))
# the escape sequence at p. UQT: it is malformed; UQV: its value; UQN: where the text goes on
def uq(key, p, e):
    u = key[0]; L = ESL(key, p, e); t = by(u, p + one); i = p + k64(2); q = p + L; is_ = lambda *cs: Or(*[t == b8(ch) for ch in cs])
    bad, pair, v, w, bad2 = u16(u, i, e); hx = is_('x', 'X', 'U')
    T = Or(L == zero, And(hx, HXO(u, i, q)), And(is_('u'), bad2))
    V = z3.If(hx, HXV(u, i, q), z3.If(is_('u'), z3.If(pair, w, v), z3.If(octbyte(t), OCV(u, p + one, q), z32(t))))
    for ch, c in zip('abfnrtv', (7, 8, 12, 10, 13, 9, 11)): V = z3.If(t == b8(ch), K(c, 32), V)
    return T, V, z3.If(And(is_('u'), pair), p + k64(12), q)
UQT = Fam('UQT', I, BOOL, lambda key, p, e: uq(key, p, e)[0], None, opaque=True)
UQV = Fam('UQV', I, BV32, lambda key, p, e: uq(key, p, e)[1], None, opaque=True)
UQN = Fam('UQN', I, BV64, lambda key, p, e: uq(key, p, e)[2], lambda key, app, p, e: [Imp(And(z3.ULT(p, e), Not(UQT(key, p, e))), And(z3.ULT(p, app), z3.ULE(app, e), z3.ULE(enclen(UQV(key, p, e)), app - p)))], opaque=True, ldepth=4)
# UT(i,e): an escape sequence of [i,e) is malformed; UE: the text with its sequences replaced; UL: its length
bs = lambda key, i, e: FIND(key, i, e, K(92, 32))
def ufam(name, ret, end, step, facts=None, acc=None, bad=None):
    bad = bad or end
    def unfold(key, i, e):
        p = bs(key, i, e); return z3.If(p == e, end(key, i, e), z3.If(UQT(key, p, e), bad(key, i, e), step(F, key, i, e, p)))
    F = Fam(name, I, ret, unfold, facts, holes=((0, 'pos', 0),), acc=acc, meas=lambda i, e: e - i)
    return F
UT = ufam('UT', BOOL, lambda key, i, e: FALSE, lambda F, key, i, e, p: F(key, UQN(key, p, e), e), bad=lambda key, i, e: TRUE)
UE = ufam('UE', SEQ, lambda key, i, e: sl(key[0], i, e), lambda F, key, i, e, p: cat(sl(key[0], i, p), ENC('', UQV(key, p, e)), F(key, UQN(key, p, e), e)), acc='+')
UL = ufam('UL', BV64, lambda key, i, e: e - i, lambda F, key, i, e, p: (p - i) + enclen(UQV(key, p, e)) + F(key, UQN(key, p, e), e), lambda key, app, i, e: [Imp(And(z3.ULE(i, e), Not(UT(key, i, e))), z3.ULE(app, e - i))])

# CLEAN(i,e): a text without control characters in which every quote follows a backslash
CLEAN = Fam('CLEAN', I, BOOL, lambda key, i, e: z3.If(z3.ULT(i, e), And(Not(z3.ULT(by(key[0], i), K(32, 8))), z3.If(by(key[0], i) == K(92, 8), And(z3.ULT(one, e - i), Not(z3.ULT(by(key[0], i + one), K(32, 8))), CLEAN(key, i + k64(2), e)), And(by(key[0], i) != b8('"'), CLEAN(key, i + one, e)))), TRUE), None, meas=lambda i, e: e - i)

# PSK(i,e): the position after the backslash-newline pairs at i
PSK = Fam('PSK', I, BV64, lambda key, i, e: z3.If(And(z3.ULT(i, e), z3.ULT(one, e - i), by(key[0], i) == K(92, 8), by(key[0], i + one) == K(10, 8)), PSK(key, i + k64(2), e), i),
    lambda key, app, i, e: [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e))), Imp(z3.ULE(i, e), Not(And(z3.ULT(app, e), z3.ULT(one, e - app), by(key[0], app) == K(92, 8), by(key[0], app + one) == K(10, 8))))], holes=((0, 'pos', 0),), meas=lambda i, e: e - i)

# ---- classification and case: UP, LOW, TITLE, GCC name the functions of the Unicode data (ucd.py) --------
import ucd
def opq(name, ret=BOOL, facts=None): return Fam(name, (BV32,), ret, None, facts)
def mapfacts(key, app, c): return [z3.ULE(c, K(0x10FFFF, 32)) == z3.ULE(app, K(0x10FFFF, 32)), Imp(z3.ULT(K(0x10FFFF, 32), c), app == c)]
def pieced(name, pieces, facts, f):
    F = Fam(name, (BV32,), BV32, None, facts); F.pieces = pieces; F.pf = f; return F
def pick(c, v): return K(v[0], 32) if v[0] == v[1] else z3.If((c & K(1, 32)) == K(0, 32), K(v[0], 32), K(v[1], 32))
def within(c, a, b): return And(z3.ULE(K(a, 32), c), z3.ULE(c, K(b, 32)))
def casemap(name, w, a, d):
    return pieced(name, lambda: ucd.mapping(w), lambda key, app, c: mapfacts(key, app, c) + [Imp(z3.ULT(c, K(128, 32)), app == z3.If(within(c, a, a + 25), c + K(d, 32), c))], lambda c, v: c + pick(c, v))
UP = casemap('UP', 'U', 97, -32); LOW = casemap('LOW', 'L', 65, 32); TITLE = casemap('TITLE', 'T', 97, -32)
# the class of c: a power of two; line / paragraph separators and the ASCII space are the separators below U+0081
GCC = pieced('GCC', ucd.classes, lambda key, app, c: [Imp(Not(z3.ULT(K(128, 32), c)), inclass_v(app, 'Z') == (c == K(32, 32))), Imp(z3.ULT(c, K(128, 32)), inclass_v(app, 'L') == Or(within(c, 65, 90), within(c, 97, 122))), Imp(z3.ULT(c, K(0x300, 32)), Not(inclass_v(app, 'M')))], pick)
def inclass_v(v, cl):
    m = sum(1 << k for k, g in enumerate(ucd.ORDER) if g in cl.split() or g[0] in cl.split())
    return (v & K(m, 32)) != K(0, 32)
def inclass(c, cl): return inclass_v(GCC('', c), cl)
MARK = Fam('MARK', (BV32,), BOOL, lambda key, c: inclass(c, 'M'), lambda key, app, c: [Imp(z3.ULT(c, K(0x300, 32)), Not(app))], opaque=True)
LETTER = Fam('LETTER', (BV32,), BOOL, lambda key, c: inclass(c, 'L'), lambda key, app, c: [Imp(z3.ULT(c, K(128, 32)), app == Or(within(c, 65, 90), within(c, 97, 122)))], opaque=True)
def hexdigit(c): return Or(And(z3.ULE(K(48, 32), c), z3.ULE(c, K(57, 32))), And(z3.ULE(K(65, 32), c), z3.ULE(c, K(70, 32))), And(z3.ULE(K(97, 32), c), z3.ULE(c, K(102, 32))))

# ---- encoding ------------------------------------------------------------------------------------------
def encbytes(c, n):
    t = lambda s: z3.Extract(7, 0, z3.LShR(c, s)) if s else z3.Extract(7, 0, c)
    cb = lambda s: K(0x80, 8) | (t(s) & K(0x3F, 8))
    if n == 0: return []
    if n == 1: return [t(0)]
    if n == 2: return [K(0xC0, 8) | (t(6) & K(0x1F, 8)), cb(0)]
    if n == 3: return [K(0xE0, 8) | (t(12) & K(0x0F, 8)), cb(6), cb(0)]
    return [K(0xF0, 8) | (t(18) & K(0x07, 8)), cb(12), cb(6), cb(0)]
def encseq(c, n): return seq([('byte', b) for b in encbytes(c, n)])
def enc_unfold(key, c):
    L = enclen(c); r = EMPTY
    for n in (4, 3, 2, 1): r = z3.If(L == k64(n), encseq(c, n), r)
    return r
ENC = Fam('ENC', (BV32,), SEQ, enc_unfold, lambda key, app, c: [Imp(z3.ULT(K(0x10FFFF, 32), c), app == EMPTY), Imp(z3.ULT(c, K(0x80, 32)), app == encseq(c, 1))], opaque=True)

# ---- strings as sequences ---------------------------------------------------------------------------------
def cat(*ts): return seq([('t', t) for t in ts])
def sl(u, i, j): return seq([('sl', reg(u), i, j)])
# U32(i,e): the decoded code points in order, up to the first invalid sequence; BAD(i,e): there is one
def u32_unfold(key, i, e):
    L = DL(key, i, e); return z3.If(L == zero, EMPTY, cat(CP32(DV(key, i)), U32(key, i + L, e)))
U32 = Fam('U32', I, SEQ, u32_unfold, None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i)
def bad_unfold(key, i, e):
    L = DL(key, i, e); return z3.If(Not(z3.ULT(i, e)), FALSE, z3.If(L == zero, TRUE, BAD(key, i + L, e)))
BAD = Fam('BAD', I, BOOL, bad_unfold, None, holes=((0, 'pos', 0),), meas=lambda i, e: e - i)
# FU(i,e): the encodings of the code points of a UTF-32 text
def fu_unfold(key, i, e): return z3.If(z3.ULT(i, e), cat(ENC('', by(key[0], i)), FU(key, i + one, e)), EMPTY)
FU = Fam('FU', I, SEQ, fu_unfold, None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i)
FU.keykinds = ('c4',)
# RI(i,e,c): repaired text
def ri_unfold(key, i, e, c):
    L = DL(key, i, e); k = SK(key, i, e)
    return z3.If(z3.ULT(i, e), z3.If(L == zero, cat(ENC('', c), RI(key, i + k, e, c)), cat(sl(key[0], i, i + L), RI(key, i + L, e, c))), EMPTY)
RI = Fam('RI', (BV64, BV64, BV32), SEQ, ri_unfold, None, holes=((0, 'pos', 0, 'copy'),), acc='+', meas=lambda i, e, c: e - i)

# ---- predicates on code points, named by a string -----------------------------------------------------
# 'eq' the value passed along; 'in:a,b,..' one of the constants; 'list:U' an element of the UTF-32 list U[p,q);
# 'NAME' an opaque predicate; 'ci:U' equal to an element of U[p,q) after upper-casing; 'set:U' / 'ciset:U'
# membership in a code point set; 'not X'
def listpid(kind, v):
    """predicate name and parameters for `is in the list v` (a View of code points)"""
    c = v.c
    b, n = conc(simp(v.B)), conc(simp(v.N))
    if isinstance(c, TabContent) and b is not None and n is not None and kind == 'list':
        return 'in:' + ','.join(str(conc(c.vals[k - c.base])) for k in range(b, b + n)), zero, zero
    return '%s:%s' % (kind, c.uid), v.B, v.E
def pred(pid, c, p, q, w):
    if pid.startswith('not '): return Not(pred(pid[4:], c, p, q, w))
    if pid == 'eq': return c == w
    if pid == 'upeq': return UP('', c) == w
    if pid.startswith('in:'): return Or(*[c == K(int(v), 32) for v in pid[3:].split(',') if v])
    if pid.startswith('list:'): return FIND(pid[5:], p, q, c) != q
    if pid.startswith('ci:'): return FINDU(pid[3:], p, q, UP('', c)) != q
    if pid.startswith('set:'): return SETS[pid[4:]].member(c)
    if pid.startswith('ciset:'): return SETS[pid[6:]].cmember(c)
    return OPQ[pid]('', c)
OPQ = {'MARK': MARK, 'LETTER': LETTER, 'PRED': opq('PRED')}
# FINDU(i,e,v): the first element of a UTF-32 list whose upper-case mapping is v
def findu_unfold(key, i, e, v): return z3.If(z3.ULT(i, e), z3.If(UP('', by(key[0], i)) == v, i, FINDU(key, i + one, e, v)), e)
def findu_facts(key, app, i, e, v): return [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e))), Imp(And(z3.ULE(i, e), app != e), UP('', by(key[0], app)) == v)]
FINDU = Fam('FINDU', (BV64, BV64, BV32), BV64, findu_unfold, findu_facts, holes=((0, 'pos', 0),), meas=lambda i, e, v: e - i)
FINDU.keykinds = ('c4',)
PARS = (BV64, BV64, BV64, BV64, BV32)
# FWT(i,e): an invalid sequence is met going forward from i before a code point that satisfies the predicate
def fwt_unfold(key, i, e, p, q, w):
    L = DL(key[0], i, e)
    return z3.If(Not(z3.ULT(i, e)), FALSE, z3.If(L == zero, TRUE, z3.If(pred(key[1], DV(key[0], i), p, q, w), FALSE, FWT(key, i + L, e, p, q, w))))
FWT = Fam('FWT', PARS, BOOL, fwt_unfold, None, holes=((0, 'pos', 0),), meas=lambda i, e, p, q, w: e - i)
# FWP(i,e): position of the first code point that satisfies the predicate, NPOS if none (before an invalid sequence)
def fwp_unfold(key, i, e, p, q, w):
    L = DL(key[0], i, e)
    return z3.If(Or(Not(z3.ULT(i, e)), L == zero), NPOS, z3.If(pred(key[1], DV(key[0], i), p, q, w), i, FWP(key, i + L, e, p, q, w)))
def fwp_facts(key, app, i, e, p, q, w):
    return [Imp(And(app != NPOS), And(z3.ULE(i, app), z3.ULT(app, e), DL(key[0], app, e) != zero, pred(key[1], DV(key[0], app), p, q, w)))]
FWP = Fam('FWP', PARS, BV64, fwp_unfold, fwp_facts, holes=((0, 'pos', 0),), meas=lambda i, e, p, q, w: e - i)
# BWT / BWP: the same going backward from i towards b; BWP is the start of the code point
def bwt_unfold(key, b, i, p, q, w):
    L = PL(key[0], b, i)
    return z3.If(Not(z3.ULT(b, i)), FALSE, z3.If(L == zero, TRUE, z3.If(pred(key[1], DV(key[0], i - L), p, q, w), FALSE, BWT(key, b, i - L, p, q, w))))
BWT = Fam('BWT', PARS, BOOL, bwt_unfold, None, holes=((1, 'pos', 0),), meas=lambda b, i, p, q, w: i - b)
def bwp_unfold(key, b, i, p, q, w):
    L = PL(key[0], b, i)
    return z3.If(Or(Not(z3.ULT(b, i)), L == zero), NPOS, z3.If(pred(key[1], DV(key[0], i - L), p, q, w), i - L, BWP(key, b, i - L, p, q, w)))
def bwp_facts(key, app, b, i, p, q, w):
    n = leadlen(by(key[0], app))
    return [Imp(app != NPOS, And(z3.ULE(b, app), z3.ULT(app, i), n != zero, z3.ULE(n, i - app), pred(key[1], DV(key[0], app), p, q, w)))]
BWP = Fam('BWP', PARS, BV64, bwp_unfold, bwp_facts, holes=((1, 'pos', 0),), meas=lambda b, i, p, q, w: i - b)
for f in (FWT, FWP, BWT, BWP): f.keykinds = ('c', 'PRED')
def fw(u, pid, i, e, p=zero, q=zero, w=K(0, 32)): return FWT((u, pid), i, e, p, q, w), FWP((u, pid), i, e, p, q, w)
def bw(u, pid, b, i, p=zero, q=zero, w=K(0, 32)): return BWT((u, pid), b, i, p, q, w), BWP((u, pid), b, i, p, q, w)

# ---- characters -------------------------------------------------------------------------------------------
W0 = K(0, 32)
def orelse(v, d): return z3.If(v == NPOS, d, v)
# NCT / NCE: the character at i (a code point and the marks after it) meets an invalid sequence / its end
def nct_unfold(key, i, e):
    L = DL(key, i, e); return And(z3.ULT(i, e), Or(L == zero, FWT((key[0], 'not MARK'), i + L, e, zero, zero, W0)))
NCT = Fam('NCT', I, BOOL, nct_unfold, None, opaque=True)
def nce_unfold(key, i, e):
    L = DL(key, i, e); return z3.If(z3.ULT(i, e), orelse(FWP((key[0], 'not MARK'), i + L, e, zero, zero, W0), e), i)
def nce_facts(key, app, i, e): return [Imp(And(z3.ULT(i, e), Not(NCT(key, i, e))), And(z3.ULT(i, app), z3.ULE(app, e))), Imp(i == e, And(app == i, Not(NCT(key, i, e))))]
NCE = Fam('NCE', I, BV64, nce_unfold, nce_facts, opaque=True, ldepth=2)
# PCT / PCS: the character that ends at i: meets an invalid sequence / its start
def pct_unfold(key, b, i): return BWT((key[0], 'not MARK'), b, i, zero, zero, W0)
PCT = Fam('PCT', I, BOOL, pct_unfold, None, opaque=True)
def pcs_unfold(key, b, i): return orelse(BWP((key[0], 'not MARK'), b, i, zero, zero, W0), b)
def pcs_facts(key, app, b, i): return [Imp(z3.ULT(b, i), And(z3.ULE(b, app), z3.ULT(app, i))), Imp(b == i, And(app == i, Not(PCT(key, b, i))))]
PCS_ = Fam('PCS', I, BV64, pcs_unfold, pcs_facts, opaque=True, ldepth=2)
# CC / CCT: number of characters
def cct_unfold(key, i, e): return And(z3.ULT(i, e), Or(NCT(key, i, e), CCT(key, NCE(key, i, e), e)))
CCT = Fam('CCT', I, BOOL, cct_unfold, None, holes=((0, 'pos', 0),), meas=lambda i, e: e - i)
def cc_unfold(key, i, e): return z3.If(And(z3.ULT(i, e), Not(NCT(key, i, e))), one + CC(key, NCE(key, i, e), e), zero)
CC = Fam('CC', I, BV64, cc_unfold, None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i)
# NC / NCTK: position after k characters going forward, NPOS if there are fewer; an invalid sequence is met
def nth_c_t(key, i, e, k): return And(k != zero, z3.ULT(i, e), Or(NCT(key, i, e), CPT(key, NCE(key, i, e), e, k - one)))
CPT = Fam('CPT', (BV64, BV64, BV64), BOOL, nth_c_t, None, holes=((0, 'pos', 0), (2, 'cnt')), meas=lambda i, e, k: e - i)
def nth_c(key, i, e, k): return z3.If(k == zero, i, z3.If(And(z3.ULT(i, e), Not(NCT(key, i, e))), CP(key, NCE(key, i, e), e, k - one), NPOS))
def cp_facts(key, app, i, e, k): return [Imp(And(z3.ULE(i, e), app != NPOS), And(z3.ULE(i, app), z3.ULE(app, e)))]
CP = Fam('CP', (BV64, BV64, BV64), BV64, nth_c, cp_facts, holes=((0, 'pos', 0), (2, 'cnt')), meas=lambda i, e, k: e - i)
def ntb_c_t(key, b, i, k): return And(k != zero, z3.ULT(b, i), Or(PCT(key, b, i), CPBT(key, b, PCS_(key, b, i), k - one)))
CPBT = Fam('CPBT', (BV64, BV64, BV64), BOOL, ntb_c_t, None, holes=((1, 'pos', 0), (2, 'cnt')), meas=lambda b, i, k: i - b)
def ntb_c(key, b, i, k): return z3.If(k == zero, i, z3.If(And(z3.ULT(b, i), Not(PCT(key, b, i))), CPB(key, b, PCS_(key, b, i), k - one), NPOS))
def cpb_facts(key, app, b, i, k): return [Imp(And(z3.ULE(b, i), app != NPOS), And(z3.ULE(b, app), z3.ULE(app, i)))]
CPB = Fam('CPB', (BV64, BV64, BV64), BV64, ntb_c, cpb_facts, holes=((1, 'pos', 0), (2, 'cnt')), meas=lambda b, i, k: i - b)
# REVC: the characters of [b,i) from the last to the first
def revc_unfold(key, b, i): return z3.If(z3.ULT(b, i), cat(sl(key[0], PCS_(key, b, i), i), REVC(key, b, PCS_(key, b, i))), EMPTY)
REVC = Fam('REVC', I, SEQ, revc_unfold, None, holes=((1, 'pos', 0),), acc='+', meas=lambda b, i: i - b)
def revt_unfold(key, b, i): return And(z3.ULT(b, i), Or(PCT(key, b, i), REVT(key, b, PCS_(key, b, i))))
REVT = Fam('REVT', I, BOOL, revt_unfold, None, holes=((1, 'pos', 0),), meas=lambda b, i: i - b)

# ---- case-insensitive comparison ----------------------------------------------------------------------------
# NMT / NM1 / NM2: [i,e) and [j,f) compared code point by code point: an invalid sequence is met / where it ends in each
P4 = (BV64, BV64, BV64, BV64)
def upat(u, i): return UP('', DV(u, i))
def nm(key, i, e, j, f, end, bad, stop, rec):
    L1 = DL(key[0], i, e); L2 = DL(key[1], j, f)
    return z3.If(Not(z3.ULT(i, e)), end, z3.If(L1 == zero, bad, z3.If(Not(z3.ULT(j, f)), end, z3.If(L2 == zero, bad,
        z3.If(upat(key[0], i) == upat(key[1], j), rec(key, i + L1, e, j + L2, f), stop)))))
nmh = dict(holes=((0, 'pos', 0), (2, 'pos', 1)), meas=lambda i, e, j, f: e - i)
NMT = Fam('NMT', P4, BOOL, lambda key, i, e, j, f: nm(key, i, e, j, f, FALSE, TRUE, FALSE, NMT), None, **nmh)
NM1 = Fam('NM1', P4, BV64, lambda key, i, e, j, f: nm(key, i, e, j, f, i, i, i, NM1), lambda key, app, i, e, j, f: [Imp(z3.ULE(i, e), And(z3.ULE(i, app), z3.ULE(app, e)))], **nmh)
NM2 = Fam('NM2', P4, BV64, lambda key, i, e, j, f: nm(key, i, e, j, f, j, j, j, NM2), lambda key, app, i, e, j, f: [Imp(z3.ULE(j, f), And(z3.ULE(j, app), z3.ULE(app, f)))], **nmh)
# the same backward from i and j towards b and d
def pm(key, b, i, d, j, end, bad, stop, rec):
    L1 = PL(key[0], b, i); L2 = PL(key[1], d, j)
    return z3.If(Not(z3.ULT(b, i)), end, z3.If(L1 == zero, bad, z3.If(Not(z3.ULT(d, j)), end, z3.If(L2 == zero, bad,
        z3.If(upat(key[0], i - L1) == upat(key[1], j - L2), rec(key, b, i - L1, d, j - L2), stop)))))
pmh = dict(holes=((1, 'pos', 0), (3, 'pos', 1)), meas=lambda b, i, d, j: i - b)
PMT = Fam('PMT', P4, BOOL, lambda key, b, i, d, j: pm(key, b, i, d, j, FALSE, TRUE, FALSE, PMT), None, **pmh)
PM1 = Fam('PM1', P4, BV64, lambda key, b, i, d, j: pm(key, b, i, d, j, i, i, i, PM1), lambda key, app, b, i, d, j: [Imp(z3.ULE(b, i), And(z3.ULE(b, app), z3.ULE(app, i)))], **pmh)
PM2 = Fam('PM2', P4, BV64, lambda key, b, i, d, j: pm(key, b, i, d, j, j, j, j, PM2), lambda key, app, b, i, d, j: [Imp(z3.ULE(d, j), And(z3.ULE(d, app), z3.ULE(app, j)))], **pmh)
# CMT / CMP / CEQ: comparison of two strings: an invalid sequence is met / sign or difference at the first unequal code points / equal
def cm(key, i, e, j, f, bad, none, first, second, diff, rec):
    L1 = DL(key[0], i, e); L2 = DL(key[1], j, f); has1 = z3.ULT(i, e); has2 = z3.ULT(j, f)
    return z3.If(Or(And(has1, L1 == zero), And(has2, L2 == zero)), bad, z3.If(And(Not(has1), Not(has2)), none, z3.If(Not(has1), second, z3.If(Not(has2), first,
        z3.If(upat(key[0], i) == upat(key[1], j), rec(key, i + L1, e, j + L2, f), diff(key, i, j))))))
CMT = Fam('CMT', P4, BOOL, lambda key, i, e, j, f: cm(key, i, e, j, f, TRUE, FALSE, FALSE, FALSE, lambda k, i, j: FALSE, CMT), None, **nmh)
CMP = Fam('CMP', P4, BV32, lambda key, i, e, j, f: cm(key, i, e, j, f, K(0, 32), K(0, 32), K(1, 32), K(-1, 32), lambda k, i, j: upat(k[0], i) - upat(k[1], j), CMP), None, **nmh)
# CFT / CFP: the leftmost occurrence of the code points of [j,f) in [i,e), compared by upper case (an invalid sequence is met first)
def cf(key, i, e, j, f, none, bad, inner, found, rec):
    L1 = DL(key[0], i, e); L2 = DL(key[1], j, f); a = (key, i + L1, e, j + L2, f)
    return z3.If(Not(z3.ULT(i, e)), none, z3.If(L1 == zero, bad, z3.If(upat(key[0], i) == upat(key[1], j), z3.If(NMT(*a), inner, z3.If(NM2(*a) == f, found, rec(key, i + L1, e, j, f))), rec(key, i + L1, e, j, f))))
cfh = dict(holes=((0, 'pos', 0),), meas=lambda i, e, j, f: e - i)
CFT = Fam('CFT', P4, BOOL, lambda key, i, e, j, f: cf(key, i, e, j, f, FALSE, TRUE, TRUE, FALSE, CFT), None, **cfh)
CFP = Fam('CFP', P4, BV64, lambda key, i, e, j, f: cf(key, i, e, j, f, NPOS, NPOS, NPOS, i, CFP),
    lambda key, app, i, e, j, f: [Imp(And(z3.ULE(i, e), app != NPOS), And(z3.ULE(i, app), z3.ULT(app, e), DL(key[0], app, e) != zero))], **cfh)
def cfend(key, i, e, j, f): return NM1(key, i + DL(key[0], i, e), e, j + DL(key[1], j, f), f)
def cb(key, b, i, d, j, none, bad, inner, found, rec):
    L1 = PL(key[0], b, i); L2 = PL(key[1], d, j); a = (key, b, i - L1, d, j - L2)
    return z3.If(Not(z3.ULT(b, i)), none, z3.If(L1 == zero, bad, z3.If(upat(key[0], i - L1) == upat(key[1], j - L2), z3.If(PMT(*a), inner, z3.If(PM2(*a) == d, found, rec(key, b, i - L1, d, j))), rec(key, b, i - L1, d, j))))
cbh = dict(holes=((1, 'pos', 0),), meas=lambda b, i, d, j: i - b)
CBT = Fam('CBT', P4, BOOL, lambda key, b, i, d, j: cb(key, b, i, d, j, FALSE, TRUE, TRUE, FALSE, CBT), None, **cbh)
CBP = Fam('CBP', P4, BV64, lambda key, b, i, d, j: cb(key, b, i, d, j, NPOS, NPOS, NPOS, i, CBP),
    lambda key, app, b, i, d, j: [Imp(And(z3.ULE(b, i), app != NPOS), And(z3.ULT(b, app), z3.ULE(app, i), PL(key[0], b, app) != zero))], **cbh)
def cbbeg(key, b, i, d, j): return PM1(key, b, i - PL(key[0], b, i), d, j - PL(key[1], d, j))
for _f in (NMT, NM1, NM2, PMT, PM1, PM2, CMT, CMP, CFT, CFP, CBT, CBP): _f.keykinds = ('c', 'c')

# ---- case conversion of strings -----------------------------------------------------------------------------
# XT: an invalid sequence or a value above U+10FFFF is met; LOWC, UPC, TTC: the converted text
def big(c): return z3.ULT(K(0x10FFFF, 32), c)
def sbyte(t): return seq([('byte', K(ord(ch), 8)) for ch in t])
def xt_unfold(key, i, e): L = DL(key, i, e); return And(z3.ULT(i, e), Or(L == zero, big(DV(key, i)), XT(key, i + L, e)))
XT = Fam('XT', I, BOOL, xt_unfold, None, holes=((0, 'pos', 0),), meas=lambda i, e: e - i)
def conv(name, f, special=None):
    def unf(key, i, e):
        L = DL(key, i, e); c = DV(key, i); r = F(key, i + L, e); t = cat(ENC('', f('', c)), r)
        if special: t = z3.If(c == K(0xDF, 32), cat(sbyte(special), r), t)
        return z3.If(And(z3.ULT(i, e), L != zero), t, EMPTY)
    F = Fam(name, I, SEQ, unf, None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e: e - i); return F
LOWC = conv('LOWC', LOW); UPC = conv('UPC', UP, 'SS')
def ttc_unfold(key, i, e, p):
    L = DL(key, i, e); c = DV(key, i); l = LETTER('', c)
    y = TTC(key, i + L, e, TRUE); n = TTC(key, i + L, e, FALSE)
    t = z3.If(Not(l), cat(ENC('', c), n), z3.If(p, cat(ENC('', LOW('', c)), y), z3.If(c == K(0xDF, 32), cat(sbyte('Ss'), y), cat(ENC('', TITLE('', c)), y))))
    return z3.If(And(z3.ULT(i, e), L != zero), t, EMPTY)
TTC = Fam('TTC', (BV64, BV64, BOOL), SEQ, ttc_unfold, None, holes=((0, 'pos', 0), (2, 'bool')), acc='+', meas=lambda i, e, p: e - i)

# ---- replacement (C13, C17): all occurrences going forward, or the last ones found from the end ------------------
# kind 'cs': byte for byte; 'ci': code points compared by upper case. fmatch / bmatch: (an invalid sequence is met, found, start, end)
def fmatch(key, i, e, pb, pe):
    u, v, kind = key[:3]; n = pe - pb
    if kind == 'cs':
        p = SF((u, v), i, e, pb, n); return FALSE, And(n != zero, p != e), p, p + n
    g = ((u, v), i, e, pb, pe); p = CFP(*g); ne = pb != pe
    t = And(ne, Or(DL(v, pb, pe) == zero, CFT(*g)))
    return t, And(ne, Not(t), p != NPOS), p, cfend(g[0], p, e, pb, pe)
def bmatch(key, b, i, pb, pe):
    u, v, kind = key[:3]; n = pe - pb
    if kind == 'cs':
        p = SLB((u, v), b, i - n, pb, n); return FALSE, And(n != zero, z3.ULE(n, i - b), p != NPOS), p, p + n
    g = ((u, v), b, i, pb, pe); p = CBP(*g); ne = pb != pe
    t = And(ne, Or(PL(v, pb, pe) == zero, CBT(*g)))
    return t, And(ne, Not(t), p != NPOS), cbbeg(g[0], b, p, pb, pe), p
CSCI = lambda *more: lambda: [tuple(Content(1, 'L').uid for _ in range(2)) + (k,) + tuple(Content(1, 'L').uid for _ in more) for k in ('cs', 'ci')]
P5 = P4 + (BV64,)
# RP / RPT: [i,e) with the first k occurrences replaced by [tb,te) of the third string
def rp_unfold(key, i, e, pb, pe, k, tb, te):
    t, ok, s, f = fmatch(key, i, e, pb, pe)
    return z3.If(And(k != zero, ok), cat(sl(key[0], i, s), sl(key[3], tb, te), RP(key, f, e, pb, pe, k - one, tb, te)), sl(key[0], i, e))
RP = Fam('RP', P5 + (BV64, BV64), SEQ, rp_unfold, None, holes=((0, 'pos', 0), (4, 'cnt')), acc='+', meas=lambda i, e, pb, pe, k, tb, te: k, lkeys=CSCI(1))
def rpt_unfold(key, i, e, pb, pe, k):
    t, ok, s, f = fmatch(key, i, e, pb, pe)
    return And(k != zero, Or(t, And(ok, RPT(key, f, e, pb, pe, k - one))))
RPT = Fam('RPT', P5, BOOL, rpt_unfold, None, holes=((0, 'pos', 0), (4, 'cnt')), meas=lambda i, e, pb, pe, k: k, lkeys=CSCI())
# FLT / FLL: searching backward from i for k occurrences: an invalid sequence is met / their number;
# FLO, FLH: offset and length of the j-th, counted from the last; FLN: the list of them
def flt_unfold(key, b, i, pb, pe, k):
    t, ok, s, f = bmatch(key, b, i, pb, pe); return And(k != zero, Or(t, And(ok, FLT(key, b, s, pb, pe, k - one))))
FLT = Fam('FLT', P5, BOOL, flt_unfold, None, holes=((1, 'pos', 0), (4, 'cnt')), meas=lambda b, i, pb, pe, k: k, lkeys=CSCI())
def bm_facts(key, b, i, pb, pe):
    t, ok, s, f = bmatch(key, b, i, pb, pe); return Imp(And(z3.ULE(b, i), ok), And(z3.ULE(b, s), z3.ULT(s, f), z3.ULE(f, i)))
def fl(name, sorts, ret, none, some, facts=None, **kw):
    def unf(key, b, i, pb, pe, k, *j):
        t, ok, s, f = bmatch(key, b, i, pb, pe); return z3.If(And(k != zero, ok), some(F, key, b, s, f, pb, pe, k, *j), none)
    F = Fam(name, P5 + sorts, ret, unf, facts, holes=((1, 'pos', 0), (4, 'cnt')) if ret == SEQ or not sorts else (), meas=lambda b, i, pb, pe, k, *j: k, lkeys=CSCI(), **kw); return F
RNGH = lambda b, i, pb, pe, k: And(z3.ULE(b, i), z3.ULE(i, LIM2), z3.ULE(pb, pe), z3.ULE(pe, LIM2))
LIM2 = k64((1 << 61) + (1 << 32))
FLL = fl('FLL', (), BV64, zero, lambda F, key, b, s, f, pb, pe, k: one + F(key, b, s, pb, pe, k - one),
    lambda key, app, b, i, pb, pe, k: [Imp(RNGH(b, i, pb, pe, k), z3.ULE(app, i - b)), z3.ULE(app, k)], ldepth=2)
FLH = fl('FLH', (BV64,), BV64, zero, lambda F, key, b, s, f, pb, pe, k, j: z3.If(j == zero, f - s, F(key, b, s, pb, pe, k - one, j - one)), None)
FLO = fl('FLO', (BV64,), BV64, zero, lambda F, key, b, s, f, pb, pe, k, j: z3.If(j == zero, s - b, F(key, b, s, pb, pe, k - one, j - one)),
    lambda key, app, b, i, pb, pe, k, j: [Imp(And(RNGH(b, i, pb, pe, k), z3.ULT(j, FLL(key, b, i, pb, pe, k))),
        (lambda h: And(z3.ULE(app, i - b), h != zero, z3.ULE(h, (i - b) - app)))(FLH(key, b, i, pb, pe, k, j)))], ldepth=3)
FLO.near = lambda key, app, b, i, pb, pe, k, j: [Imp(And(RNGH(b, i, pb, pe, k), j != zero, z3.ULT(j, FLL(key, b, i, pb, pe, k))),
    z3.ULE(app + FLH(key, b, i, pb, pe, k, j), FLO(key, b, i, pb, pe, k, j - one)))]
FLN = fl('FLN', (), SEQ, EMPTY, lambda F, key, b, s, f, pb, pe, k: cat(SUBR(s - b, f - s), F(key, b, s, pb, pe, k - one)), None, acc='+')
FLN.vec = (FLL, (FLO, FLH))
# RPF: the text with the first j elements of that list (the j last in the text order) replaced, from offset prev on
def rpf_unfold(key, b, i, pb, pe, k, j, prev, tb, te):
    g = (key[:3], b, i, pb, pe, k, j - one); o = FLO(*g)
    return z3.If(j == zero, sl(key[0], b + prev, i), cat(sl(key[0], b + prev, b + o), sl(key[3], tb, te), RPF(key, b, i, pb, pe, k, j - one, o + FLH(*g), tb, te)))
RPF = Fam('RPF', P5 + P4, SEQ, rpf_unfold, None, holes=((5, 'vpos'), (6, 'cnt')), acc='+', meas=lambda b, i, pb, pe, k, j, prev, tb, te: j, lkeys=CSCI(1))
# RPB: [b,i) with the last k occurrences replaced
def rpb_unfold(key, b, i, pb, pe, k, tb, te):
    t, ok, s, f = bmatch(key, b, i, pb, pe)
    return z3.If(And(k != zero, ok), cat(RPB(key, b, s, pb, pe, k - one, tb, te), sl(key[3], tb, te), sl(key[0], f, i)), sl(key[0], b, i))
RPB = Fam('RPB', P5 + (BV64, BV64), SEQ, rpb_unfold, None, meas=lambda b, i, pb, pe, k, tb, te: k, lkeys=CSCI(1))

# ---- splitting (C14) -------------------------------------------------------------------------------------------
# finders: a predicate name (the code points that satisfy it), '#cs' / '#ci' (a text), '#nl' (a newline), '#any' (a
# finder that is any function of the text and may throw). tmatch: (throws, found, start, end) of the first token in [i,e)
OPT = Fam('OPT', I, BOOL); OPO = Fam('OPO', I, BV64); OPL = Fam('OPL', I, BV64, None, None)
NLP = 'in:10,11,12,13,133,8232,8233'
def tmatch(key, i, e, p, q):
    u, kind, v = key
    if kind in ('#cs', '#ci'): return fmatch((u, v, kind[1:]), i, e, p, q)
    if kind == '#any': s = i + OPO(u, i, e); n = OPL(u, i, e); return OPT(u, i, e), n != zero, s, s + n
    if kind == '#nl': t, f = fw(u, NLP, i, e)
    else: t, f = fw(u, kind, i, e, p, q)
    n = leadlen(by(u, f))
    if kind != '#nl': return t, And(Not(t), f != NPOS), f, f + n
    cr = And(DV(u, f) == K(13, 32), z3.ULT(f + n, e)); L = DL(u, f + n, e)
    return Or(t, And(f != NPOS, cr, L == zero)), And(Not(t), f != NPOS), f, f + n + z3.If(And(cr, DV(u, f + n) == K(10, 32)), L, zero)
def oktoken(key, i, e, s, f): return And(z3.ULE(i, s), z3.ULT(s, f), z3.ULE(f, e)) if key[1] == '#any' else TRUE     # what an arbitrary finder has to keep to
def view(u, i, j): return seq([('view', reg(u), i, j)])
PSPL = (BV64, BV64, BV64, BOOL, BV64, BV64)
def spl_unfold(key, i, e, k, ign, p, q):
    t, ok, s, f = tmatch(key, i, e, p, q)
    last = z3.If(And(ign, i == e), EMPTY, view(key[0], i, e))
    return z3.If(And(k != zero, ok, oktoken(key, i, e, s, f)), z3.If(And(ign, i == s), SPL(key, f, e, k, ign, p, q), cat(view(key[0], i, s), SPL(key, f, e, k - one, ign, p, q))), last)
def spl_keys():
    c = lambda: Content(1, 'L').uid
    return [(c(), '#cs', c()), (c(), '#ci', c()), (c(), '#nl', ''), (c(), '#any', ''), (c(), 'PRED', '')]
SPL = Fam('SPL', PSPL, SEQ, spl_unfold, None, meas=lambda i, e, *r: e - i, lkeys=spl_keys, ldepth=2)
def spt_unfold(key, i, e, k, ign, p, q):
    t, ok, s, f = tmatch(key, i, e, p, q)
    return And(k != zero, Or(t, And(ok, oktoken(key, i, e, s, f), SPT(key, f, e, z3.If(And(ign, i == s), k, k - one), ign, p, q))))
SPT = Fam('SPT', PSPL, BOOL, spt_unfold, None, meas=lambda i, e, *r: e - i, lkeys=spl_keys, ldepth=2)

# ---- sets of code points (C26) ----------------------------------------------------------------------------------------
# MEMB(t,c), CMEMB(t,c): a range of the list t holds c, or matches it without regard to case
PROBE = z3.BitVec('any code point', 32)
def inrange(a, b, c): return And(z3.ULE(a, c), z3.ULE(c, b))
def cinrange(a, b, c): return z3.If(a == b, UP('', c) == UP('', a), Or(inrange(a, b, c), And(z3.ULE(UP('', a), UP('', c)), z3.ULE(UP('', c), UP('', b)))))
def member(name, f):
    def el(e, c): return f(e.arg(0), e.arg(1), c) if e.decl().eq(RNG) else FALSE
    def part(t, c): return part(t.arg(0), c) if z3.is_app(t) and t.decl().eq(CAT) and t.arg(1).eq(EMPTY) else Or(part(t.arg(0), c), part(t.arg(1), c)) if z3.is_app(t) and t.decl().eq(CAT) else el(t, c) if z3.is_app(t) and t.decl().eq(RNG) else FALSE if t.eq(EMPTY) else F('', t, c)
    def unf(key, t, c): return structural(t, lambda a, b: Or(part(a, c), part(b, c)), lambda e: el(e, c), FALSE, lambda u: part(u, c))
    F = Fam(name, (SEQ, BV32), BOOL, unf); return F
MEMB = member('MEMB', inrange); CMEMB = member('CMEMB', cinrange)
# the same over the elements i, .. e-1 of the array that holds the list
def anyin(name, f):
    def unf(key, i, e, c): r = reg(key[0]); return And(z3.ULT(i, e), Or(f(r.sel(i, 0, 4), r.sel(i, 4, 4), c), F(key, i + one, e, c)))
    F = Fam(name, (BV64, BV64, BV32), BOOL, unf, holes=((0, 'pos', 0),), meas=lambda i, e, c: e - i); return F
ANYIN = anyin('ANYIN', inrange); CANYIN = anyin('CANYIN', cinrange)
def rangecontent(t): return Content(8, 'G')
class Set:
    """a code point set: list of ranges, negation"""
    def __init__(v, p, t, neg): v.p = p; v.t = t; v.neg = neg; v.pid = 'set:%d' % t.get_id(); SETS[v.pid[4:]] = v
    def member(v, c): return MEMB('', v.t, c) != v.neg
    def cmember(v, c): return CMEMB('', v.t, c) != v.neg
SETS = {}
def mkset(x, st, p):
    g = x.prog.h['gv'](x, st, p); n = x.defd(st, x.load_n(st, x.padd(st, p, 24, []), 1))
    return Set(p, g.term(), zb(bool(n & 1)) if isinstance(n, int) else zb(n.b) if isinstance(n, sx.BI) else n != K(0, 8))
def setup_set(x, st, name):
    t = z3.Const(name + '.ranges', SEQ); neg = z3.Bool(name + '.negated'); g = GVec([('t', t)], 8); x.add(st, z3.ULE(vlen(t), k64(1 << 59)))
    return Set(Ptr(x.newobj(st, Cells(32, {0: (24, g), 24: (1, sx.BI(neg, 8))}, name)), 0), t, neg)

# ---- normalisation (C21, C22) ---------------------------------------------------------------------------------------------
# DS, DF: the second and the first part of the two-part decomposition of c (0 and c if there is none); DN: number of code points
# of the full decomposition; COMP: the code point that has the decomposition (c, m), 0 if there is none
def decpart(name, f, facts):
    F = Fam(name, (BV32,), BV32, None, facts); F.pieces = ucd.decpieces; F.pf = f; return F
DS = decpart('DS', lambda c, v: K(v[1] if v else 0, 32), lambda key, app, c: [z3.ULE(app, K(0x10FFFF, 32)), Imp(app != K(0, 32), z3.ULE(c, K(0x10FFFF, 32)))])
DF = decpart('DF', lambda c, v: K(v[0], 32) if v else c, lambda key, app, c: [Imp(DS('', c) == K(0, 32), app == c), Imp(DS('', c) != K(0, 32), z3.ULE(app, K(0x10FFFF, 32)))])
DF.ground = lambda c, v: [DS('', c) == DS.pf(c, v)]
def decn(c): d = ucd.decompositions(); return 1 + decn(d[c][0]) if c in d else 1
def dn_facts(key, app, c): return [z3.ULE(one, app), z3.ULE(app, k64(4))]
def dn_unfold(key, c): return z3.If(DS('', c) == K(0, 32), one, DN('', DF('', c)) + one)
DN = Fam('DN', (BV32,), BV64, dn_unfold, dn_facts); DN.pieces = ucd.decpieces; DN.pf = lambda c, v: k64(decn(c.as_long()) if v else 1)
DN.ground = lambda c, v: [DS('', c) == DS.pf(c, v), DF('', c) == DF.pf(c, v)] + ([DN('', DF('', c)) == k64(decn(v[0]))] if v else [])
Z32 = K(0, 32)
COMP = Fam('COMP', (BV32, BV32), BV32, None, lambda key, app, c, m: [z3.ULE(app, K(0x10FFFF, 32)), Imp(app != Z32, And(DF('', app) == c, DS('', app) == m, DS('', m) == Z32, z3.ULE(K(0x300, 32), m)))])
COMP.values = lambda: [(0, None, [])] + [(k, cm, [F('', K(x, 32)) == F.pf(K(x, 32), ucd.decompositions().get(x)) for F in (DF, DS) for x in (k, cm[1])]) for cm, k in sorted(ucd.compositions().items())]
# DEC, DENC: the full decomposition, as code points and encoded
def dec_unfold(key, c): return z3.If(DS('', c) == K(0, 32), CP32(c), cat(DEC('', DF('', c)), CP32(DS('', c))))
DEC = Fam('DEC', (BV32,), SEQ, dec_unfold, None, meas=lambda c: DN('', c))
def denc_unfold(key, c): return z3.If(DS('', c) == K(0, 32), ENC('', c), cat(DENC('', DF('', c)), ENC('', DS('', c))))
DENC = Fam('DENC', (BV32,), SEQ, denc_unfold, None, meas=lambda c: DN('', c))
def td_unfold(key, i, e):
    L = DL(key, i, e); c = DV(key, i); r = TD(key, i + L, e)
    return z3.If(And(z3.ULT(i, e), L != zero), z3.If(DS('', c) == K(0, 32), cat(sl(key[0], i, i + L), r), cat(DENC('', c), r)), EMPTY)
TD = Fam('TD', I, SEQ, td_unfold, None, holes=((0, 'pos', 0, 'copy'),), meas=lambda i, e: e - i)
# TC(i,e,f,c,b): composition of what follows i when c is the current code point, which stands at [f,i) unless b: it is a combination
def tc_unfold(key, i, e, f, c, b):
    L = DL(key, i, e); m = DV(key, i); k = COMP('', c, m); cur = lambda r: cat(ENC('', c), r) if z3.is_true(b) else cat(sl(key[0], f, i), r) if z3.is_false(b) else z3.If(b, cat(ENC('', c), r), cat(sl(key[0], f, i), r))
    return z3.If(And(z3.ULT(i, e), L != zero), z3.If(k != K(0, 32), TC(key, i + L, e, zero, k, TRUE), cur(TC(key, i + L, e, i, m, FALSE))), cur(EMPTY))
TC = Fam('TC', (BV64, BV64, BV64, BV32, BOOL), SEQ, tc_unfold, None, meas=lambda i, e, f, c, b: e - i)
TC.norm = lambda a: a[:2] + [zero] + a[3:] if z3.is_true(a[4]) else a       # of no account

# ---- joining (C14) ------------------------------------------------------------------------------------------------------------
# an array of string_views: all of them lie in one array of bytes (in any order, overlapping or not)
ELN = Fam('ELN', (BV64,), BV64, None, lambda key, app, i: [z3.ULE(app, k64((1 << 32) - 1)), z3.ULE(ELB(key, i), k64(1 << 61))], trusted='the string_views that are joined are shorter than 4 GiB')
ELB = Fam('ELB', (BV64,), BV64)
class ViewArray(Content):
    fields = ((0, 8), (8, 8))
    def __init__(c, name): Content.__init__(c, 16, name); c.data = Content(1, name + '.text'); c.obj = None; c.ptrsub = {8: lambda f: Ptr(c.obj, ELB(c.uid, f))}
    def sel(c, i, sub=0, size=None):
        if (sub, size or 8) == (0, 8): return ELN(c.uid, b64(i))
        raise Unsupported('part of a string_view in an array')
def velem(u, i): return sl(reg(u).data.uid, ELB(u, i), ELB(u, i) + ELN(u, i))
# JN(i,e,p,q): the elements i, .. e-1, each after the delimiter [p,q)
JN = Fam('JN', P4, SEQ, lambda key, i, e, p, q: z3.If(z3.ULT(i, e), cat(sl(key[1], p, q), velem(key[0], i), JN(key, i + one, e, p, q)), EMPTY), None, holes=((0, 'pos', 0),), acc='+', meas=lambda i, e, p, q: e - i)
JN1 = Fam('JN1', P4, SEQ, lambda key, i, e, p, q: JN(key, i + one, e, p, q), None, holes=((0, 'pos', 0),), acc='+')      # those after i
JN.lkeys = JN1.lkeys = lambda: [(ViewArray('L').uid, Content(1, 'L').uid)]
