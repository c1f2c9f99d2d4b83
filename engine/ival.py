"""Interval evaluation of conditions over variables with known bounds: decides cheap branches without the solver.
Every operation is exact on the interval or gives up (None)."""
import z3
OPS = {}
class Ival:
    def __init__(s, rng): s.rng = rng; s.m = {}     # rng: {ast id: (lo, hi)} for variables
    def bv(s, e):
        i = e.get_id()
        if i in s.m: return s.m[i][0]
        r = s.bv0(e); s.m[i] = (r, e); return r
    def bv0(s, e):
        if z3.is_bv_value(e): v = e.as_long(); return (v, v)
        r = s.rng.get(e.get_id())
        if r is not None: return r
        if not z3.is_app(e): return None
        k = e.decl().kind(); w = e.size(); M = (1 << w) - 1
        ch = e.children()
        if k == z3.Z3_OP_ITE:
            c = s.b(ch[0])
            if c is True: return s.bv(ch[1])
            if c is False: return s.bv(ch[2])
            return None
        a = [s.bv(c) for c in ch]
        if any(q is None for q in a): return None
        if k == z3.Z3_OP_BADD:
            lo = sum(q[0] for q in a); hi = sum(q[1] for q in a)
            if lo >> w == hi >> w: return (lo & M, hi & M)
            return None
        if k == z3.Z3_OP_BMUL and len(a) == 2:
            lo = a[0][0] * a[1][0]; hi = a[0][1] * a[1][1]
            if lo >> w == hi >> w and (a[0][0] == a[0][1] or a[1][0] == a[1][1]) and hi <= M: return (lo, hi)
            return None
        if k == z3.Z3_OP_BSUB and len(a) == 2:
            lo = a[0][0] - a[1][1]; hi = a[0][1] - a[1][0]
            if lo >> w == hi >> w: return (lo & M, hi & M)
            return None
        if k in (z3.Z3_OP_BSHL,):
            if a[1][0] == a[1][1] and a[1][0] < w and a[0][1] << a[1][0] <= M: return (a[0][0] << a[1][0], a[0][1] << a[1][0])
            return None
        if k == z3.Z3_OP_BLSHR:
            if a[1][0] == a[1][1] and a[1][0] < w: return (a[0][0] >> a[1][0], a[0][1] >> a[1][0])
            return None
        if k == z3.Z3_OP_ZERO_EXT: return a[0]
        if k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            if l == 0 and a[0][1] >> (h + 1) == a[0][0] >> (h + 1):
                m = (1 << (h + 1)) - 1; return (a[0][0] & m, a[0][1] & m)
            if h == ch[0].size() - 1: return (a[0][0] >> l, a[0][1] >> l)
            lo, hi = a[0]
            if lo >> (h + 1) == hi >> (h + 1): m = (1 << (h + 1)) - 1; return ((lo & m) >> l, (hi & m) >> l)
            return None
        if k == z3.Z3_OP_CONCAT:
            lo = hi = 0; exact = True
            for q, c in zip(a, ch):
                if not exact: pass
                lo = (lo << c.size()) | q[0]; hi = (hi << c.size()) | q[1]
            return (lo, hi)
        if k == z3.Z3_OP_BAND and len(a) == 2:
            for p, q in ((0, 1), (1, 0)):
                if a[p][0] == a[p][1]:
                    m = a[p][0]; lo, hi = a[q]
                    if lo == hi: return (lo & m, lo & m)
                    n = (lo ^ hi).bit_length()          # bits below n vary
                    low = (1 << n) - 1
                    if m & low == 0: return (lo & m, lo & m)
                    if (m & low) == low: return (lo & m, hi & m)
                    return ((lo & ~low) & m, ((lo & ~low) & m) | (m & low))
            return None
        if k == z3.Z3_OP_BOR and len(a) == 2:
            (l1, h1), (l2, h2) = a
            if l1 == h1 and l2 == h2: return (l1 | l2, l1 | l2)
            n = h2.bit_length()
            if n == 0 or all_low_zero(ch[0], n): return (l1 | l2, h1 + h2) if True else None
            n = h1.bit_length()
            if n == 0 or all_low_zero(ch[1], n): return (l1 | l2, h1 + h2)
            return None
        return None
    def b(s, e):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if not z3.is_app(e): return None
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = s.b(e.arg(0)); return None if r is None else not r
        if k == z3.Z3_OP_AND:
            rs = [s.b(c) for c in e.children()]
            return False if False in rs else None if None in rs else True
        if k == z3.Z3_OP_OR:
            rs = [s.b(c) for c in e.children()]
            return True if True in rs else None if None in rs else False
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_EQ) and z3.is_bv(e.arg(0)):
            a = s.bv(e.arg(0)); c = s.bv(e.arg(1))
            if a is None or c is None: return None
            if k == z3.Z3_OP_EQ:
                if a[0] == a[1] == c[0] == c[1]: return True
                if a[1] < c[0] or c[1] < a[0]: return False
                return None
            if k == z3.Z3_OP_UGT: a, c, k = c, a, z3.Z3_OP_ULT
            if k == z3.Z3_OP_UGEQ: a, c, k = c, a, z3.Z3_OP_ULEQ
            if k == z3.Z3_OP_ULT:
                if a[1] < c[0]: return True
                if a[0] >= c[1]: return False
            else:
                if a[1] <= c[0]: return True
                if a[0] > c[1]: return False
        return None
def all_low_zero(e, n):
    """the n low bits of e are zero whatever its variables are"""
    if z3.is_bv_value(e): return e.as_long() & ((1 << n) - 1) == 0
    k = e.decl().kind()
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)): return e.arg(1).as_long() >= n
    if k == z3.Z3_OP_CONCAT:
        t = e.arg(e.num_args() - 1)
        return z3.is_bv_value(t) and t.as_long() & ((1 << min(n, t.size())) - 1) == 0 and t.size() >= n
    return False
