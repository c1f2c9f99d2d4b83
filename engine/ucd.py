"""The character database of data/ucd16.txt as pieces: intervals of code points with a formula for the value.
The oracle of the table properties; independent of the tables in the repository."""
import os, functools
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = 0xFFFFFFFF
ORDER = ["Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"]
@functools.lru_cache(None)
def rows():
    out = []
    for l in open(os.path.join(ROOT, 'data', 'ucd16.txt')):
        f = (l.rstrip('\n').split(';') + [''] * 6)[:6]
        a, _, b = f[0].partition('-'); out.append((int(a, 16), int(b or a, 16), f[1], f[2], f[3], f[4], f[5]))
    return out
def pieces(vals):
    """vals: sorted [(lo, hi, kind, v)]; gaps get kind None. -> merged pieces (lo, hi, [v even, v odd])"""
    out = []
    for lo, hi, v in vals:
        if out and out[-1][1] + 1 == lo:
            a, b, w = out[-1]
            n = None
            if hi == lo:
                k = lo & 1
                if w[k] is None or w[k] == v:
                    n = list(w); n[k] = v
            elif w[0] in (None, v) and w[1] in (None, v): n = [v, v]
            if n is not None: out[-1] = (a, hi, n); continue
        if hi == lo:
            w = [None, None]; w[lo & 1] = v; out.append((lo, hi, w))
        else: out.append((lo, hi, [v, v]))
    return [(a, b, tuple(x if x is not None else y for x, y in (w, w[::-1]))) for a, b, w in out]
def fill(vals, default):
    out = []; n = 0
    for lo, hi, v in vals:
        if n < lo: out.append((n, lo - 1, default))
        out.append((lo, hi, v)); n = hi + 1
    if n <= TOP: out.append((n, TOP, default))
    return out
@functools.lru_cache(None)
def classes(): return pieces(fill([(lo, hi, 1 << ORDER.index(gc)) for lo, hi, gc, *_ in rows()], 1 << 29))
@functools.lru_cache(None)
def mapping(which):
    """deltas (mod 2^32) of a simple case mapping: 'U', 'L', 'T'"""
    vs = []
    for lo, hi, gc, u, l, t, d in rows():
        m = {'U': u, 'L': l, 'T': t or u}[which]
        if m: vs.append((lo, hi, (int(m, 16) - lo) & TOP))
    return pieces(fill(vs, 0))
@functools.lru_cache(None)
def decompositions(): return {lo: tuple(int(x, 16) for x in d.split('+')) for lo, hi, gc, u, l, t, d in rows() if d}

@functools.lru_cache(None)
def decpieces(): return fill([(c, c, v) for c, v in sorted(decompositions().items())], None)
@functools.lru_cache(None)
def compositions(): return {v: c for c, v in sorted(decompositions().items(), reverse=True) if v[1] >= 0x300}
@functools.lru_cache(None)
def comppieces(top):
    """boxes (first lo, hi, second lo, hi, composite): first up to `top`"""
    by = {}
    for (f, m), c in compositions().items(): by.setdefault(f, {})[m] = c
    out = []
    for lo, hi, d in fill([(f, f, by[f]) for f in sorted(by)], {}):
        if lo > top: break
        last = 0x300
        out.append((lo, min(hi, top), 0, 0x2FF, 0))
        for m in sorted(d):
            if last < m: out.append((lo, hi, last, m - 1, 0))
            out.append((lo, hi, m, m, d[m])); last = m + 1
        out += [(lo, min(hi, top), last, 0xFFFFF, 0), (lo, min(hi, top), 0x100000, TOP, 0)]
    return out
