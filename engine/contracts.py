"""The contracts of the functions of Ystring."""
from spec import *
from lib import *
from contract import *
import lib
from lemma import *
from loops import asbv, getter, off_of, Undef, Ptr

C = []; LEMMAS = []
NOFACTS = ('JN1', 'UQT', 'UQV', 'MEMB', 'CMEMB', 'VLEN', 'AT0', 'AT1', 'NCT', 'PCT', 'HXV', 'OCV')   # defined without recursion, no facts
BOUNDED = {}       # property -> what only the bounded oracle covers
def tasks():
    for n in NOFACTS: assert not Fam.all[n].facts and not Fam.all[n].near, n
    return [t for c in C for t in c.tasks()] + LEMMAS + [Facts(f) for f in Fam.all.values() if (f.facts or f.unfold) and not f.trusted and f.name not in NOFACTS]
def con(*a, **k):
    c = Contract(*a, **k)
    if any(d.name == c.name for d in C): c.name = c.sig
    c.base = c.name
    C.append(c)
LOW_OPEN = ('DL', 'DV', 'PL', 'RUN', 'SK', 'RB', 'SP')
pp = lambda a: [z3.ULE(a.it.old.F, a.end.F)]
ne = lambda v: v != zero
IT = [('it', 'pref'), ('end', 'ptr')]
con('ystring::decode_next<char const*>(char const*&, char const*)', IT, 'i32',
    lambda a: (lambda L: [(L == zero, R(INV)), (True, R(DV(a.end.uid, a.it.old.F), it=a.it.old.F + L))])(DL(a.end.uid, a.it.old.F, a.end.F)),
    pre=pp, open=('DL', 'DV'), props=('C02',))
con('ystring::safe_decode_next<char const*>(char const*&, char const*, char32_t&)', IT + [('ch', 'out32')], 'i1',
    lambda a: (lambda L: [(a.it.old.F == a.end.F, R(FALSE)), (L == zero, T(ch=ANY)), (True, R(TRUE, it=a.it.old.F + L, ch=DV(a.end.uid, a.it.old.F)))])(DL(a.end.uid, a.it.old.F, a.end.F)),
    pre=pp, props=('C02',))
BIT = [('begin', 'ptr'), ('it', 'pref')]
bp = lambda a: [z3.ULE(a.begin.F, a.it.old.F)]
con('ystring::decode_prev<char const*>(char const*, char const*&)', BIT, 'i32',
    lambda a: (lambda L: [(L == zero, R(INV)), (True, R(DV(a.begin.uid, a.it.old.F - L), it=a.it.old.F - L))])(PL(a.begin.uid, a.begin.F, a.it.old.F)),
    pre=bp, open=('DL', 'DV', 'PL'), props=('C03',), depth=2)
con('ystring::safe_decode_prev<char const*>(char const*, char const*&, char32_t&)', BIT + [('ch', 'out32')], 'i1',
    lambda a: (lambda L: [(a.it.old.F == a.begin.F, R(FALSE)), (L == zero, T(ch=ANY)), (True, R(TRUE, it=a.it.old.F - L, ch=DV(a.begin.uid, a.it.old.F - L)))])(PL(a.begin.uid, a.begin.F, a.it.old.F)),
    pre=bp, props=('C03',))
con('ystring::skip_next<char const*>(char const*&, char const*)', IT, 'i1',
    lambda a: [(a.it.old.F == a.end.F, R(FALSE)), (True, R(TRUE, it=a.it.old.F + SK(a.end.uid, a.it.old.F, a.end.F)))],
    pre=pp, open=('SK', 'RUN'), props=('C04',), depth=4)
con('ystring::skip_prev<char const*>(char const*, char const*&)', BIT, 'i1',
    lambda a: [(a.it.old.F == a.begin.F, R(FALSE)), (True, R(TRUE, it=SP(a.begin.uid, a.begin.F, a.it.old.F)))],
    pre=bp, open=('SP', 'RB'), props=('C04',), depth=2)
SVR = [('str', 'svref')]
con('ystring::remove_utf8_codepoint(sv&)', SVR, 'i1',
    lambda a: (lambda v: [(v.N == zero, R(FALSE)), (True, R(TRUE, str=(v.B + SK(v.uid, v.B, v.E), v.N - SK(v.uid, v.B, v.E))))])(a.str.old), props=('C04',))
con('ystring::remove_last_utf8_codepoint(sv&)', SVR, 'i1',
    lambda a: (lambda v: [(v.N == zero, R(FALSE)), (True, R(TRUE, str=(v.B, SP(v.uid, v.B, v.E) - v.B)))])(a.str.old), props=('C04',))
con('ystring::pop_utf8_codepoint(sv&)', SVR, 'opt',
    lambda a: (lambda v, L: [(v.N == zero, R(None)), (L == zero, T()), (True, R(DV(v.uid, v.B), str=(v.B + L, v.N - L)))])(a.str.old, DL(a.str.old.uid, a.str.old.B, a.str.old.E)), props=('C02',))
con('ystring::pop_last_utf8_codepoint(sv&)', SVR, 'opt',
    lambda a: (lambda v, L: [(v.N == zero, R(None)), (L == zero, T()), (True, R(DV(v.uid, v.E - L), str=(v.B, v.N - L)))])(a.str.old, PL(a.str.old.uid, a.str.old.B, a.str.old.E)), props=('C03',))
SV = [('str', 'sv')]
con('ystring::count_codepoints(sv)', SV, 'i64', lambda a: [(True, R(CNT(a.str.uid, a.str.B, a.str.E)))], props=('C07',))
con('ystring::get_codepoint_pos(sv, long)', SV + [('pos', 'i64')], 'i64',
    lambda a: (lambda s, f, g: [(a.pos >= zero, R(z3.If(f == NPOS, NPOS, f - s.B))), (True, R(z3.If(g == NPOS, NPOS, g - s.B)))])(a.str, NTH(a.str.uid, a.str.B, a.str.E, a.pos), NTB(a.str.uid, a.str.B, a.str.E, zero - a.pos)), props=('C07',))

# ---- encoding (C01), UTF-32 (C05), validation (C06) ------------------------------------------------------
CH = lambda n='c': (n, 'i32')
BAD10 = lambda c: z3.ULT(K(0x10FFFF, 32), c)
con('ystring::get_utf8_encoded_length(char32_t)', [CH()], 'i64', lambda a: [(True, R(enclen(a.c)))], props=('C01',))
con('ystring::encode_utf8<std::back_insert_iterator<string>>(char32_t, std::back_insert_iterator<string>)', [CH(), ('it', 'backins')], 'i64',
    lambda a: [(True, R(enclen(a.c), it=list(a.it.old.p) + [('t', ENC('', a.c))]))], open=('ENC',), props=('C01',))
def encbuf(a, room):
    L = enclen(a.c)
    if a.call and a.dst.cur: return [(True, R(L, dst=Enc(a.c)))]
    return [(Or(L == zero, z3.ULT(room, L)), R(zero))] + [(L == k64(n), R(k64(n), dst=encbytes(a.c, n))) for n in (1, 2, 3, 4)]
con('ystring::encode_utf8(char32_t, char*, unsigned long)', [CH(), ('dst', 'buf'), ('size', 'i64')], 'i64', lambda a: encbuf(a, a.size),
    pre=lambda a: [z3.ULE(umin(a.size, enclen(a.c)), a.dst.room)], props=('C01',))
con('ystring::encode_utf8<char*>(char32_t, char*)', [CH(), ('dst', 'buf')], 'i64', lambda a: encbuf(a, k64(4)),
    pre=lambda a: [z3.ULE(enclen(a.c), a.dst.room)], props=('C01',))
con('ystring::append(string&, char32_t)', [('str', 'str&'), CH()], 'strref',
    lambda a: [(BAD10(a.c), T()), (True, R('str', str=list(a.str.old.p) + [('t', ENC('', a.c))]))], props=('C01',))
con('ystring::append(sv, char32_t)', [('str', 'sv'), CH()], 'str',
    lambda a: [(BAD10(a.c), T()), (True, R([('sl', a.str.c, a.str.b, a.str.e), ('t', ENC('', a.c))]))], props=('C01',))
con('ystring::from_utf32(char32_t)', [CH()], 'str', lambda a: [(True, R([('t', ENC('', a.c))]))], props=('C01',))
con('ystring::from_utf32(sv32)', [('str', 'sv32')], 'str', lambda a: [(True, R([('t', FU(a.str.uid, a.str.B, a.str.E))]))], open=('ENC',), depth=2, props=('C01', 'C05'))
con('ystring::to_utf32(sv)', SV, 'str32', lambda a: [(BAD(a.str.uid, a.str.B, a.str.E), T()), (True, R([('t', U32(a.str.uid, a.str.B, a.str.E))]))], props=('C05',))
con('ystring::is_valid_utf8(sv)', SV, 'i1', lambda a: [(True, R(Not(BAD(a.str.uid, a.str.B, a.str.E))))], props=('C06',))

con('ystring::replace_invalid_utf8(sv, char32_t)', SV + [CH()], 'str', lambda a: [(True, R([('t', RI(a.str.uid, a.str.B, a.str.E, a.c))]))], open=('ENC',), props=('C06',), depth=2)

def dec_enc(x):
    out = []
    for n in (1, 2, 3, 4):
        c = z3.BitVec('c', 32); i = z3.BitVec('i', 64); e = z3.BitVec('e', 64); u = fresh_content('E').uid
        bs = encbytes(c, n)
        h = [enclen(c) == k64(n), z3.ULE(i, LIM), z3.ULE(i + k64(n), e), z3.ULE(e, LIM)] + [by(u, i + k64(k)) == b for k, b in enumerate(bs)]
        out += [('decoding an encoding of %d bytes: length' % n, h, DL(u, i, e) == k64(n)), ('decoding an encoding of %d bytes: value' % n, h, DV(u, i) == c),
                ('backward decoding of an encoding of %d bytes' % n, h + [z3.ULE(k64(8), i)], PL(u, zero, i + k64(n)) == k64(n))]
    return out
LEMMAS.append(Lemma('decoding inverts encoding', ('C01', 'C05'), dec_enc))

def ri_valid(x):
    u = fresh_content('V').uid; i, e = z3.BitVecs('i e', 64); c = z3.BitVec('c', 32); L = DL(u, i, e)
    dom = [z3.ULE(i, e), z3.ULE(e, LIM), Not(BAD(u, i, e))]
    return [('the end', dom + [i == e], RI(u, i, e, c) == sl(u, i, e)), ('one more sequence', dom + [z3.ULT(i, e), RI(u, i + L, e, c) == sl(u, i + L, e), (lambda t: t == t)(CAT(sl(u, i, i + L), sl(u, i + L, e)))], RI(u, i, e, c) == sl(u, i, e))]
LEMMAS.append(Lemma('repairing valid text changes nothing', ('C06',), ri_valid))
# ---- predicates on code points -----------------------------------------------------------------------------
def offs(v, p): return p - v.B
con('ystring::contains(sv32, char32_t)', [('str', 'sv32'), CH()], 'i1', lambda a: [(True, R(FIND(a.str.uid, a.str.B, a.str.E, a.c) != a.str.E))], props=('C12',), depth=6)
con('ystring::case_insensitive_contains(sv32, char32_t)', [('str', 'sv32'), CH()], 'i1', lambda a: [(True, R(FINDU(a.str.uid, a.str.B, a.str.E, UP('', a.c)) != a.str.E))], props=('C17',), depth=5)
# ---- character data (C18, C20): case analysis over the pieces of the Unicode data ------------------------------
import ucd
def pick(c, v): return K(v[0], 32) if v[0] == v[1] else z3.If((c & K(1, 32)) == K(0, 32), K(v[0], 32), K(v[1], 32))
def cmap(fn, which, fam):
    con('ystring::%s(char32_t)' % fn, [CH()], 'i32', lambda a: [(True, R(a.c + pick(a.c, a.piece) if a.piece else fam('', a.c)))], props=('C18',),
        split=lambda: [dict(c=(lo, hi), data=v) for lo, hi, v in ucd.mapping(which)], parts=2)
cmap('to_upper', 'U', UP); cmap('to_lower', 'L', LOW); cmap('to_title', 'T', TITLE)
con('ystring::get_char_class(char32_t)', [CH()], 'i32', lambda a: [(True, R(pick(a.c, a.piece) if a.piece else GCC('', a.c)))], props=('C20',),
    split=lambda: [dict(c=(lo, hi), data=v) for lo, hi, v in ucd.classes()], parts=6)
CLASSES = dict(is_alpha_numeric='L N', is_cased_letter='Lu Ll Lt', is_control='Cc', is_format='Cf', is_graphical='L M N P S', is_letter='L', is_lower='Ll', is_mark='M', is_number='N',
    is_punctuation='P', is_separator='Z', is_surrogate='Cs', is_symbol='S', is_upper='Lu', is_visible='L M N P S Z')
for n, cl in CLASSES.items():
    con('ystring::%s(char32_t)' % n, [CH()], 'i1', lambda a, n=n, cl=cl: [(True, R({'is_mark': MARK('', a.c), 'is_letter': LETTER('', a.c)}.get(n, inclass(a.c, cl))))], props=('C20',), open=('MARK', 'LETTER'))
NLS = (10, 11, 12, 13, 0x85, 0x2028, 0x2029)
isin = lambda c, vs: Or(*[c == K(v, 32) for v in vs])
con('ystring::is_newline(char32_t)', [CH()], 'i1', lambda a: [(True, R(isin(a.c, NLS)))], props=('C20',))
con('ystring::is_whitespace(char32_t)', [CH()], 'i1', lambda a: [(True, R(Or(isin(a.c, NLS + (9, 32)), inclass(a.c, 'Z'))))], props=('C20',))
con('ystring::is_hex_digit(char32_t)', [CH()], 'i1', lambda a: [(True, R(hexdigit(a.c)))], props=('C20', 'C24'))
con('ystring::case_insensitive_compare(char32_t, char32_t)', [CH('a'), CH('b')], 'i32', lambda a: [(True, R(UP('', a.a) - UP('', a.b)))], props=('C18',))
for _n, _q in (('equal', lambda a: UP('', a.a) == UP('', a.b)), ('less', lambda a: z3.ULT(UP('', a.a), UP('', a.b)))):
    con('ystring::CaseInsensitive%s::operator()(char32_t, char32_t) const' % _n.capitalize(), [('f', 'obj'), CH('a'), CH('b')], 'i1', (lambda q: lambda a: [(True, R(q(a)))])(_q), props=('C18',))
con('ystring::CaseInsensitiveCompare::operator()(char32_t, char32_t) const', [('f', 'obj'), CH('a'), CH('b')], 'i32', lambda a: [(True, R(UP('', a.a) - UP('', a.b)))], props=('C18',))
for n, f in (('equal', lambda p, q: p == q), ('less', lambda p, q: z3.ULT(p, q))):
    con('ystring::case_insensitive_%s(char32_t, char32_t)' % n, [CH('a'), CH('b')], 'i1', lambda a, f=f: [(True, R(f(UP('', a.a), UP('', a.b))))], props=('C18',))
def fwres(a, pid, p=zero, q=zero, w=W0, off=None):
    i = a.str.B + (off if off is not None else zero)
    t, f = fw(a.str.uid, pid, i, a.str.E, p, q, w)
    return [(t, T()), (f == NPOS, R((NPOS, zero, INV))), (True, R((offs(a.str, f), leadlen(by(a.str.uid, f)), DV(a.str.uid, f))))]
def bwres(a, pid, p=zero, q=zero, w=W0, off=None):
    i = a.str.B + (umin(off, a.str.N) if off is not None else a.str.N)
    t, f = bw(a.str.uid, pid, a.str.B, i, p, q, w)
    return [(t, T()), (f == NPOS, R((NPOS, zero, INV))), (True, R((offs(a.str, f), leadlen(by(a.str.uid, f)), DV(a.str.uid, f))))]
con('ystring::contains(sv, char32_t)', SV + [CH()], 'i1', lambda a: (lambda tf: [(tf[0], T()), (True, R(tf[1] != NPOS))])(fw(a.str.uid, 'eq', a.str.B, a.str.E, w=a.c)), props=('C12',))
SOFF = SV + [('chars', 'sv32'), ('off', 'i64')]
offpre = lambda a: [z3.ULE(a.off, a.str.N)]
con('ystring::find_first_of(sv, sv32, unsigned long)', SOFF, 'pairsc', lambda a: fwres(a, *listpid('list', a.chars), off=a.off), pre=offpre, props=('C12',))
con('ystring::find_last_of(sv, sv32, unsigned long)', SOFF, 'pairsc', lambda a: bwres(a, *listpid('list', a.chars), off=a.off), props=('C12',))
con('ystring::case_insensitive::find_first_of(sv, sv32, unsigned long)', SOFF, 'pairsc', lambda a: fwres(a, *listpid('ci', a.chars), off=a.off), pre=offpre, props=('C17',))
con('ystring::case_insensitive::find_last_of(sv, sv32, unsigned long)', SOFF, 'pairsc', lambda a: bwres(a, *listpid('ci', a.chars), off=a.off), props=('C17',))
# ---- characters ----------------------------------------------------------------------------------------------
con('ystring::get_next_char_range(sv, unsigned long)', SV + [('off', 'i64')], 'subr',
    lambda a: (lambda v, i: [(NCT(v.uid, i, v.E), T()), (True, R((a.off, NCE(v.uid, i, v.E) - i)))])(a.str, a.str.B + a.off), pre=offpre, open=('NCT', 'NCE'), props=('C08',))
con('ystring::get_prev_char_range(sv, unsigned long)', SV + [('off', 'i64')], 'subr',
    lambda a: (lambda v, i: [(PCT(v.uid, v.B, i), T()), (True, R((PCS_(v.uid, v.B, i) - v.B, i - PCS_(v.uid, v.B, i))))])(a.str, a.str.B + a.off), pre=offpre, open=('PCT', 'PCS'), props=('C08',))
con('ystring::count_chars(sv)', SV, 'i64', lambda a: [(CCT(a.str.uid, a.str.B, a.str.E), T()), (True, R(CC(a.str.uid, a.str.B, a.str.E)))], props=('C08',))
def charpos(v, pos):
    neg = pos < zero; k = z3.If(neg, zero - pos, pos)
    return [(And(Not(neg), CPT(v.uid, v.B, v.E, pos)), 'T'), (And(neg, CPBT(v.uid, v.B, v.E, zero - pos)), 'T'),
            (Not(neg), CP(v.uid, v.B, v.E, pos)), (True, CPB(v.uid, v.B, v.E, zero - pos))]
con('ystring::get_char_pos(sv, long)', SV + [('pos', 'i64')], 'i64',
    lambda a: [(c, T() if isinstance(p, str) else R(z3.If(p == NPOS, NPOS, p - a.str.B))) for c, p in charpos(a.str, a.pos)], props=('C08',))
con('ystring::reverse(sv)', SV, 'str', lambda a: [(REVT(a.str.uid, a.str.B, a.str.E), T()), (True, R([('t', REVC(a.str.uid, a.str.B, a.str.E))]))], props=('C08',))
# ---- case-insensitive comparison (C16) and search (C17) ----------------------------------------------------------
def NMc(fams, post):
    t, p1, p2 = fams
    def f(a):
        g = ((a.beg1.uid, a.beg2.uid), a.beg1.F, a.end1.F, a.beg2.F, a.end2.F)
        q1, q2 = (a.beg1.p, a.beg2.p)
        return [(t(*g), T()), (True, R(((q1, p1(*g)), (q2, p2(*g)))))]
    return f
MM = [('beg1', 'ptr@a'), ('end1', 'ptr@a'), ('beg2', 'ptr@b'), ('end2', 'ptr@b')]
mmpre = lambda a: [z3.ULE(a.beg1.F, a.end1.F), z3.ULE(a.beg2.F, a.end2.F)]
con('ystring::next_case_insensitive_mismatch<char const*>(char const*, char const*, char const*, char const*)', MM, 'pp', NMc((NMT, NM1, NM2), 0), pre=mmpre, props=('C16', 'C17'))
con('ystring::prev_case_insensitive_mismatch<char const*>(char const*, char const*, char const*, char const*)', MM, 'pp', NMc((PMT, PM1, PM2), 0), pre=mmpre, props=('C16', 'C17'))
CI = [('str', 'sv'), ('cmp', 'sv')]
def ciargs(a): return ((a.str.uid, a.cmp.uid), a.str.B, a.str.E, a.cmp.B, a.cmp.E)
con('ystring::case_insensitive::compare(sv, sv)', CI, 'i32', lambda a: [(CMT(*ciargs(a)), T()), (True, R(CMP(*ciargs(a))))], props=('C16',))
con('ystring::case_insensitive::equal(sv, sv)', CI, 'i1', lambda a: [(CMT(*ciargs(a)), T()), (True, R(CMP(*ciargs(a)) == K(0, 32)))], props=('C16',))
con('ystring::case_insensitive::less(sv, sv)', CI, 'i1', lambda a: [(CMT(*ciargs(a)), T()), (True, R(CMP(*ciargs(a)) < K(0, 32)))], props=('C16',))
con('ystring::case_insensitive::starts_with(sv, sv)', CI, 'i1', lambda a: [(NMT(*ciargs(a)), T()), (True, R(NM2(*ciargs(a)) == a.cmp.E))], props=('C16',))
con('ystring::case_insensitive::ends_with(sv, sv)', CI, 'i1', lambda a: [(PMT(*ciargs(a)), T()), (True, R(PM2(*ciargs(a)) == a.cmp.B))], props=('C16',))
CIO = CI + [('off', 'i64')]
def cff(a):
    g = ((a.str.uid, a.cmp.uid), a.str.B + a.off, a.str.E, a.cmp.B, a.cmp.E); p = CFP(*g)
    return [(a.cmp.N == zero, R((NPOS, zero))), (DL(a.cmp.uid, a.cmp.B, a.cmp.E) == zero, T()), (CFT(*g), T()), (p == NPOS, R((NPOS, zero))),
            (True, R((p - a.str.B, cfend(g[0], p, *g[2:]) - p)))]
con('ystring::case_insensitive::find_first(sv, sv, unsigned long)', CIO, 'subr', cff, pre=offpre, props=('C17',))
def cbf(a):
    o = umin(a.off, a.str.N)
    g = ((a.str.uid, a.cmp.uid), a.str.B, a.str.B + o, a.cmp.B, a.cmp.E); p = CBP(*g); s = cbbeg(g[0], g[1], p, *g[3:])
    return [(a.cmp.N == zero, R((NPOS, zero))), (PL(a.cmp.uid, a.cmp.B, a.cmp.E) == zero, T()), (CBT(*g), T()), (p == NPOS, R((NPOS, zero))),
            (True, R((s - a.str.B, p - s)))]
con('ystring::case_insensitive::find_last(sv, sv, unsigned long)', CIO, 'subr', cbf, props=('C17',))
# ---- the algorithms of the standard library that are used: its own code, as compiled here -----------------------------
def stdfind(a): return [(True, R((a.first.p, FIND(a.first.uid, a.first.F, a.last.F, a.val if a.val.size() == 32 else z3.ZeroExt(24, a.val)))))]
for _t, _w, _s in (('char', 'ptr@a', 'cref8'), ('char32_t', 'ptr32@a', 'cref32')):
    con('std::find<%s const*, %s>(%s const*, %s const*, %s const&)' % ((_t,) * 5), [('first', _w), ('last', _w), ('val', _s)], 'ptr', stdfind, pre=lambda a: [z3.ULE(a.first.F, a.last.F)], name='std::find<%s>' % _t, noapply=True, depth=6)
con('std::__find_if<char const*, __gnu_cxx::__ops::_Iter_equals_iter<char const*>>(char const*, char const*, __gnu_cxx::__ops::_Iter_equals_iter<char const*>)', [('first', 'ptr@a'), ('last', 'ptr@a'), ('val', 'cref8')], 'ptr', stdfind, pre=lambda a: [z3.ULE(a.first.F, a.last.F)], name='std::find (iterator)', depth=6)
S4 = [('i', 'ptr@a'), ('e', 'ptr@a'), ('j', 'ptr@b'), ('f', 'ptr@b')]
s4pre = lambda a: [z3.ULE(a.i.F, a.e.F), z3.ULE(a.j.F, a.f.F)]
con('std::search<char const*, char const*>(char const*, char const*, char const*, char const*)', S4, 'ptr', lambda a: [(True, R((a.i.p, SF((a.i.uid, a.j.uid), a.i.F, a.e.F, a.j.F, a.f.F - a.j.F))))], pre=s4pre, name='std::search', noapply=True, depth=3, unroll=1)
con('std::mismatch<char const*, char const*>(char const*, char const*, char const*, char const*)', S4, 'pp', lambda a: (lambda m: [(True, R(((a.i.p, m), (a.j.p, a.j.F + (m - a.i.F)))))])(MIS((a.i.uid, a.j.uid), a.i.F, a.e.F, a.j.F, a.f.F)), pre=s4pre, name='std::mismatch', noapply=True)
# ---- substring search (C11) -----------------------------------------------------------------------------------------
SL4 = [('beg', 'ptr@a'), ('end', 'ptr@a'), ('cbeg', 'ptr@b'), ('cend', 'ptr@b')]
def slast(a):
    n = a.cend.F - a.cbeg.F; p = SLB((a.beg.uid, a.cbeg.uid), a.beg.F, a.end.F - n, a.cbeg.F, n)
    none = R(((a.beg.p, a.beg.F), (a.beg.p, a.beg.F)))
    return [(Or(n == zero, z3.ULT(a.end.F - a.beg.F, n)), none), (p == NPOS, none), (True, R(((a.beg.p, p), (a.beg.p, p + n))))]
con('ystring::search_last<char const*, char const*>(char const*, char const*, char const*, char const*)', SL4, 'pp', slast,
    pre=lambda a: [z3.ULE(a.beg.F, a.end.F), z3.ULE(a.cbeg.F, a.cend.F)], props=('C11',))
def ff(a):
    v, c = a.str, a.cmp; p = SF((v.uid, c.uid), v.B + a.off, v.E, c.B, c.N)
    return [(p == v.E, R((v.N, zero))), (True, R((p - v.B, c.N)))]
con('ystring::find_first(sv, sv, unsigned long)', CIO, 'subr', ff, pre=offpre, props=('C11',))
def fl(a):
    v, c = a.str, a.cmp; o = umin(a.off, v.N); p = SLB((v.uid, c.uid), v.B, v.B + o - c.N, c.B, c.N)
    return [(Or(c.N == zero, z3.ULT(o, c.N)), R((zero, zero))), (p == NPOS, R((zero, zero))), (True, R((p - v.B, c.N)))]
con('ystring::find_last(sv, sv, unsigned long)', CIO, 'subr', fl, props=('C11',))
con('ystring::starts_with(sv, sv)', CI, 'i1', lambda a: [(z3.ULT(a.str.N, a.cmp.N), R(FALSE)), (True, R(EQL((a.str.uid, a.cmp.uid), a.str.B, a.cmp.B, a.cmp.N)))], props=('C11',))
con('ystring::ends_with(sv, sv)', CI, 'i1', lambda a: [(z3.ULT(a.str.N, a.cmp.N), R(FALSE)), (True, R(EQL((a.str.uid, a.cmp.uid), a.str.E - a.cmp.N, a.cmp.B, a.cmp.N)))], props=('C11',))
# ---- positions: capped, substrings, insertion (C07 - C10) -----------------------------------------------------------------
NEG = lambda p: p < zero
def capcp(u, B, E, pos):
    f = z3.If(NEG(pos), NTB(u, B, E, zero - pos), NTH(u, B, E, pos))
    return z3.If(f == NPOS, z3.If(pos > zero, E - B, zero), f - B)
def capch(u, B, E, pos):
    f = z3.If(NEG(pos), CPB(u, B, E, zero - pos), CP(u, B, E, pos))
    return z3.If(f == NPOS, z3.If(pos > zero, E - B, zero), f - B)
def capcht(u, B, E, pos): return z3.If(NEG(pos), CPBT(u, B, E, zero - pos), CPT(u, B, E, pos))
con('ystring::get_capped_codepoint_pos(sv, long)', SV + [('pos', 'i64')], 'i64', lambda a: [(True, R(capcp(a.str.uid, a.str.B, a.str.E, a.pos)))], props=('C09',))
con('ystring::get_capped_char_pos(sv, long)', SV + [('pos', 'i64')], 'i64', lambda a: [(capcht(a.str.uid, a.str.B, a.str.E, a.pos), T()), (True, R(capch(a.str.uid, a.str.B, a.str.E, a.pos)))], props=('C09',))
def slices(a, cap, bad, res):
    """the cases of a substring range; res(offset, length)"""
    v = a.str; u, B, E = v.uid, v.B, v.E; s0, e0 = a.start, a.end
    e1 = z3.If(And(e0 < s0, NEG(e0) == NEG(s0)), s0, e0)
    ns, n1 = NEG(s0), NEG(e1)
    out = []
    def case(cond, bads, off, n):
        for b in bads: out.append((And(cond, b), T()))
        out.append((cond, res(off, n)))
    s = cap(u, B, E, s0); f = lambda *q: [bad(*q)] if bad else []
    g = B + s
    case(And(Not(ns), Not(n1)), f(u, B, E, s0) + f(u, g, E, e1 - s0), s, cap(u, g, E, e1 - s0))
    e = cap(u, B, E, e1); h = B + e
    case(And(ns, n1, s0 == e1), f(u, B, E, e1), e, zero)
    case(And(ns, n1), f(u, B, E, e1) + f(u, B, h, s0 - e1), cap(u, B, h, s0 - e1), e - cap(u, B, h, s0 - e1))
    case(And(Not(ns), n1), f(u, B, E, s0) + f(u, g, E, e1), s, cap(u, g, E, e1))
    case(TRUE, f(u, B, E, s0) + f(u, B, E, e1), s, z3.If(z3.ULT(s, e), e - s, zero))
    return out
SE = SV + [('start', 'i64'), ('end', 'i64')]
con('ystring::get_codepoint_substring_range(sv, long, long)', SE, 'subr', lambda a: slices(a, capcp, None, lambda o, n: R((o, n))), props=('C09',))
con('ystring::get_char_substring_range(sv, long, long)', SE, 'subr', lambda a: slices(a, capch, capcht, lambda o, n: R((o, n))), props=('C09',))
con('ystring::get_codepoint_substring(sv, long, long)', SE, 'sv', lambda a: slices(a, capcp, None, lambda o, n: R((a.str, a.str.B + o, n))), props=('C09',))
con('ystring::get_char_substring(sv, long, long)', SE, 'sv', lambda a: slices(a, capch, capcht, lambda o, n: R((a.str, a.str.B + o, n))), props=('C09',))
def vpc(v, i=None, j=None): return ('sl', v.c, v.B if i is None else i, v.E if j is None else j)
con('ystring::insert_at_offset(sv, unsigned long, sv)', SV + [('off', 'i64'), ('sub', 'sv')], 'str',
    lambda a: [(a.sub.N == zero, R([vpc(a.str)])), (a.off == NPOS, T()), (True, R([vpc(a.str, None, a.str.B + a.off), vpc(a.sub), vpc(a.str, a.str.B + a.off)]))],
    pre=lambda a: [Or(a.off == NPOS, z3.ULE(a.off, a.str.N))], props=('C10',))
con('ystring::insert_at_offset(sv, unsigned long, char32_t)', SV + [('off', 'i64'), CH()], 'str',
    lambda a: [(a.off == NPOS, T()), (BAD10(a.c), T()), (True, R([vpc(a.str, None, a.str.B + a.off), ('t', ENC('', a.c)), vpc(a.str, a.str.B + a.off)]))],
    pre=lambda a: [Or(a.off == NPOS, z3.ULE(a.off, a.str.N))], props=('C10',))
con('ystring::replace_subrange(sv, ystring::Subrange, sv)', SV + [('range', 'subr'), ('repl', 'svm')], 'str',
    lambda a: [(True, R([vpc(a.str, None, a.str.B + a.range[0]), vpc(a.repl), vpc(a.str, a.str.B + a.range[0] + a.range[1])]))],
    pre=lambda a: [z3.ULE(a.range[0], a.str.N), z3.ULE(a.range[1], a.str.N - a.range[0])], props=('C10',))
def cppos(v, pos): return z3.If(NEG(pos), NTB(v.uid, v.B, v.E, zero - pos), NTH(v.uid, v.B, v.E, pos))
def chpos(v, pos): return z3.If(NEG(pos), CPB(v.uid, v.B, v.E, zero - pos), CP(v.uid, v.B, v.E, pos))
def chbad(v, pos): return capcht(v.uid, v.B, v.E, pos)
SP1 = SV + [('pos', 'i64')]
def ins(a, f, bad, sub):
    out = [(bad, T())] if bad is not None else []
    if sub: out.append((a.sub.N == zero, R([vpc(a.str)])))
    out.append((f == NPOS, T()))
    if not sub: out.append((BAD10(a.c), T()))
    return out + [(True, R([vpc(a.str, None, f), vpc(a.sub) if sub else ('t', ENC('', a.c)), vpc(a.str, f)]))]
con('ystring::insert_codepoint(sv, long, char32_t)', SP1 + [CH()], 'str', lambda a: ins(a, cppos(a.str, a.pos), None, 0), props=('C10',))
con('ystring::insert_codepoints(sv, long, sv)', SP1 + [('sub', 'sv')], 'str', lambda a: ins(a, cppos(a.str, a.pos), None, 1), props=('C10',))
con('ystring::insert_char(sv, long, char32_t)', SP1 + [CH()], 'str', lambda a: ins(a, chpos(a.str, a.pos), chbad(a.str, a.pos), 0), props=('C10',))
con('ystring::insert_chars(sv, long, sv)', SP1 + [('sub', 'sv')], 'str', lambda a: ins(a, chpos(a.str, a.pos), chbad(a.str, a.pos), 1), props=('C10',))
def repl(a): return lambda o, n: R([vpc(a.str, None, a.str.B + o), vpc(a.repl), vpc(a.str, a.str.B + o + n)])
con('ystring::replace_codepoints(sv, long, long, sv)', SE + [('repl', 'svm')], 'str', lambda a: slices(a, capcp, None, repl(a)), props=('C10',))
con('ystring::replace_chars(sv, long, long, sv)', SE + [('repl', 'svm')], 'str', lambda a: slices(a, capch, capcht, repl(a)), props=('C10',))
# ---- characters and code points by position
def charrange(a):
    v = a.str; neg = NEG(a.pos); f = chpos(v, a.pos); g = z3.If(a.pos == NPOS, v.E, CPB(v.uid, v.B, v.E, zero - (a.pos + one)))
    fw_ = [(chbad(v, a.pos), T()), (f == NPOS, R((v.N, zero))), (NCT(v.uid, f, v.E), T()), (True, R((f - v.B, NCE(v.uid, f, v.E) - f)))]
    bw_ = [(And(a.pos != NPOS, CPBT(v.uid, v.B, v.E, zero - (a.pos + one))), T()), (g == NPOS, R((zero, zero))), (PCT(v.uid, v.B, g), T()), (True, R((PCS_(v.uid, v.B, g) - v.B, g - PCS_(v.uid, v.B, g))))]
    return [(And(Not(neg), c) if c is not True else Not(neg), r) for c, r in fw_] + bw_
con('ystring::get_char_range(sv, long)', SP1, 'subr', charrange, props=('C08',))
def cpat(a):
    v = a.str; neg = NEG(a.pos); f = NTH(v.uid, v.B, v.E, a.pos); g = NTB(v.uid, v.B, v.E, NPOS - a.pos); L = DL(v.uid, f, v.E); M = PL(v.uid, v.B, g)
    return [(And(Not(neg), Or(f == NPOS, f == v.E)), R((v.N, zero, INV))), (And(Not(neg), L == zero), T()), (Not(neg), R((f - v.B, L, DV(v.uid, f)))),
            (Or(g == NPOS, g == v.B), R((zero, zero, INV))), (M == zero, T()), (True, R((g - M - v.B, M, DV(v.uid, g - M))))]
con('ystring::get_codepoint(sv, long)', SP1, 'pairsc', cpat, props=('C07',))

# ---- newlines (C12), predicates (C12), trimming (C15) ---------------------------------------------------------------------
NLP = 'in:' + ','.join(str(c) for c in NLS)
def fnl(a):
    v = a.str; t, f = fw(v.uid, NLP, v.B + a.off, v.E); c = DV(v.uid, f); n = leadlen(by(v.uid, f)); cr = And(c == K(13, 32), z3.ULT(f + n, v.E)); L = DL(v.uid, f + n, v.E)
    return [(t, T()), (f == NPOS, R((NPOS, zero))), (And(cr, L == zero), T()), (And(cr, DV(v.uid, f + n) == K(10, 32)), R((f - v.B, n + L))), (True, R((f - v.B, n)))]
con('ystring::find_first_newline(sv, unsigned long)', SV + [('off', 'i64')], 'subr', fnl, pre=offpre, props=('C12',))
def bnl(a):
    v = a.str; t, f = bw(v.uid, NLP, v.B, v.B + umin(a.off, v.N)); c = DV(v.uid, f); n = leadlen(by(v.uid, f)); lf = And(c == K(10, 32), z3.ULT(v.B, f)); L = PL(v.uid, v.B, f)
    return [(t, T()), (f == NPOS, R((NPOS, zero))), (And(lf, L == zero), T()), (And(lf, DV(v.uid, f - L) == K(13, 32)), R((f - L - v.B, n + L))), (True, R((f - v.B, n)))]
con('ystring::find_last_newline(sv, unsigned long)', SV + [('off', 'i64')], 'subr', bnl, props=('C12',))
con('ystring::find_first_where<Predicate>(sv, Predicate, unsigned long)', SV + [('off', 'i64')], 'pairsc', lambda a: fwres(a, 'PRED', off=a.off), pre=offpre, props=('C12',))
con('ystring::find_last_where<Predicate>(sv, Predicate, unsigned long)', SV + [('off', 'i64')], 'pairsc', lambda a: bwres(a, 'PRED', off=a.off), props=('C12',))
def trs(a, pid, p=zero, q=zero):
    v = a.str; t, f = fw(v.uid, 'not ' + pid, v.B, v.E, p, q)
    return [(t, T()), (f == NPOS, R(None)), (True, R((v, f, v.E - f)))]
def tre(a, pid, p=zero, q=zero):
    v = a.str; t, f = bw(v.uid, 'not ' + pid, v.B, v.E, p, q)
    return [(t, T()), (f == NPOS, R(None)), (True, R((v, v.B, f + leadlen(by(v.uid, f)) - v.B)))]
def trb(a, pid, p=zero, q=zero):
    v = a.str; t, f = fw(v.uid, 'not ' + pid, v.B, v.E, p, q); u, g = bw(v.uid, 'not ' + pid, f, v.E, p, q)
    return [(t, T()), (f == NPOS, R(None)), (u, T()), (g == NPOS, R(None)), (True, R((v, f, g + leadlen(by(v.uid, g)) - f)))]
for n, f in (('trim_start', trs), ('trim_end', tre), ('trim', trb)):
    con('ystring::%s(sv, sv32)' % n, SV + [('chars', 'sv32')], 'sv', lambda a, f=f: f(a, *listpid('list', a.chars)), props=('C15',))
    con('ystring::%s_where<Predicate>(sv, Predicate)' % n, SV, 'sv', lambda a, f=f: f(a, 'PRED'), props=('C15',))
# ---- case conversion of strings (C19) --------------------------------------------------------------------------------------
for n, f in (('to_lower', lambda v: LOWC(v.uid, v.B, v.E)), ('to_upper', lambda v: UPC(v.uid, v.B, v.E)), ('to_title', lambda v: TTC(v.uid, v.B, v.E, FALSE))):
    con('ystring::%s(sv)' % n, SV, 'str', lambda a, f=f: [(XT(a.str.uid, a.str.B, a.str.E), T()), (True, R([('t', f(a.str))]))], props=('C19',))

# ---- replacement (C13, C17) ---------------------------------------------------------------------------------------------------
def splice(x):
    """the text with the list of the last occurrences replaced is the text with the last occurrences replaced"""
    out = []
    for kind in ('cs', 'ci'):
        key = tuple(fresh_content('S').uid for _ in range(2)) + (kind, fresh_content('S').uid)
        b, i, pb, pe, k, j, prev, tb, te = [z3.BitVec(n, 64) for n in 'b i pb pe k j prev tb te'.split()]
        t, ok, s, f = bmatch(key, b, i, pb, pe)
        dom = [RNGH(b, i, pb, pe, k), z3.ULE(tb, te)]
        def step(j, prev): return RPF(key, b, i, pb, pe, k, j + one, prev, tb, te) == cat(RPF(key, b, s, pb, pe, k - one, j, prev, tb, te), sl(key[3], tb, te), sl(key[0], f, i))
        o = FLO(key[:3], b, i, pb, pe, k, j); h = FLH(key[:3], b, i, pb, pe, k, j)
        base = dom + [k != zero, ok, z3.ULE(j, FLL(key[:3], b, s, pb, pe, k - one))]
        out.append((kind + ': replacing one more occurrence (first)', base + [j == zero], step(j, prev)))
        out.append((kind + ': replacing one more occurrence (next)', base + [j != zero, step(j - one, o + h)], step(j, prev)))
        whole = lambda i, k: RPF(key, b, i, pb, pe, k, FLL(key[:3], b, i, pb, pe, k), zero, tb, te) == RPB(key, b, i, pb, pe, k, tb, te)
        n = FLL(key[:3], b, s, pb, pe, k - one)
        out.append((kind + ': the whole list (none)', dom + [Or(k == zero, Not(ok))], whole(i, k)))
        out.append((kind + ': the whole list', dom + [k != zero, ok, whole(s, k - one), step(n, zero)], whole(i, k)))
    return out
LEMMAS.append(Lemma('replacing the last occurrences', ('C13', 'C17'), splice, depth=2))
def elements(fam):
    def stmt(x):
        out = []
        for key in fam.lkeys():
            args = [z3.Const('v.a%d' % i, so) for i, so in enumerate(fam.sorts)]; j = z3.BitVec('v.j', 64); ln, at = fam.vec; d = fam.unfold(key, *args)
            def elem(t, j, k):
                if t.decl().eq(CAT): return z3.If(z3.ULT(j, vlen(t.arg(0))), elem(t.arg(0), j, k), elem(t.arg(1), j - vlen(t.arg(0)), k))
                if t.decl().eq(SUBR): return t.arg(k)
                q = (apps_in(t), APPS.get(t.get_id()))[1]; return q[0].vec[1][k](q[1], *q[2], j) if q else zero
            for n, (g, t) in enumerate(leaves(d)):
                out.append(('length %d' % n, list(g), ln(key, *args) == vlen(t)))
                out += [('element %d.%d' % (n, k), list(g) + [z3.ULT(j, vlen(t))], at[k](key, *args, j) == elem(t, j, k)) for k in (0, 1) if not vlen(t).eq(zero)]
        return out
    return stmt
LEMMAS.append(Lemma('the list of occurrences has the elements stated', ('C13', 'C17'), elements(FLN)))
con('ystring::find_last_n(sv, sv, unsigned long)', CI + [('count', 'i64')], 'vec',
    lambda a: [(True, R(GVec([('t', FLN((a.str.uid, a.cmp.uid, 'cs'), a.str.B, a.str.E, a.cmp.B, a.cmp.E, a.count))], 16)))], pre=lambda a: [a.count != zero], props=('C13',), depth=2)
def replc(kind):
    def parts(a):
        key = (a.str.uid, a.frm.uid, kind); neg = a.max < zero; nk = zero - a.max
        return key, (a.str.B, a.str.E, a.frm.B, a.frm.E), neg, nk
    def cases(a):
        key, g, neg, nk = parts(a); kw = key + (a.to.uid,); out = []
        if kind == 'ci': out = [(And(Not(neg), RPT(key, *g, a.max)), T()), (And(neg, FLT(key, *g, nk)), T())]
        return out + [(Not(neg), R([('t', RP(kw, *g, a.max, a.to.B, a.to.E))])), (True, R([('t', RPB(kw, *g, nk, a.to.B, a.to.E))]))]
    def lemmas(a):
        key, g, neg, nk = parts(a); kw = key + (a.to.uid,)
        return [RPF(kw, *g, nk, FLL(key, *g, nk), zero, a.to.B, a.to.E) == RPB(kw, *g, nk, a.to.B, a.to.E)]
    def seeds(a): key, g, neg, nk = parts(a); return [FLN(key, *g, nk)]
    return dict(cases=cases, lemmas=lemmas, seeds=seeds)
RPP = SV + [('frm', 'sv'), ('to', 'svm'), ('max', 'i64')]
con('ystring::replace(sv, sv, sv, long)', RPP, 'str', props=('C13',), **replc('cs'))
con('ystring::case_insensitive::replace(sv, sv, sv, long)', RPP, 'str', props=('C17',), unroll=1, close=('CFT', 'CFP', 'CBT', 'CBP', 'NM1', 'NM2', 'NMT', 'PM1', 'PM2', 'PMT', 'FLO', 'FLH'), **replc('ci'))
def replcp(a):
    out = [(BAD10(a.frm), T()), (BAD10(a.to), T())]; g = (a.str.B, a.str.E, zero)
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3, 4):
            key = (a.str.uid, bytecontent(encbytes(a.frm, n)).uid, 'cs', bytecontent(encbytes(a.to, m)).uid); c = And(enclen(a.frm) == k64(n), enclen(a.to) == k64(m))
            out += [(And(c, Not(a.max < zero)), R([('t', RP(key, *g, k64(n), a.max, zero, k64(m)))])), (c, R([('t', RPB(key, *g, k64(n), zero - a.max, zero, k64(m)))]))]
    return out
con('ystring::replace_codepoint(sv, char32_t, char32_t, long)', SV + [CH('frm'), CH('to'), ('max', 'i64')], 'str', replcp, props=('C13',), close=('RP', 'RPB', 'SF', 'SLB'))
con('ystring::replace_invalid_utf8(string&, char32_t)', [('str', 'str&'), CH()], 'strref',
    lambda a: (lambda v: [(Not(BAD(v.uid, v.B, v.E)), R('str')), (True, R('str', str=[('t', RI(v.uid, v.B, v.E, a.c))]))])(a.str.view), props=('C06',), noapply=True)

# ---- splitting (C14) -------------------------------------------------------------------------------------------------------------
def split(sig, params, key, props=('C14',), **kw):
    """key(a) -> finder name, other content, p, q"""
    def g(a):
        kind, other, p, q = key(a); v = a.str; return (v.uid, kind, other), v.B, v.E, a.params[0], a.params[1], p, q
    def templ(x, s0, vals, sizes, P, N, B, S, C):
        gg = g(x.a); k0, i0, e, mx, ign, p, q = gg
        nums = [n for n in N if sizes[n] == 8]
        for s in S:
            C('%s<=max' % (s,), lambda get, s=s: z3.ULE(get(s).n, mx))
            for pk in P:
                for n1 in nums:
                    for n2 in nums:
                        if n1 == n2: continue
                        def parts(get, pk=pk, n1=n1, n2=n2, s=s):
                            if not isinstance(get(pk), Ptr) or get(pk).o != x.a.str.o: raise TypeError
                            return b64(get(pk).f), b64(get(n1)), b64(get(n2)), mx - b64(get(s).n)
                        nm = 'split %s %s %s %s' % (s, pk, n1, n2)
                        def text(get, parts=parts, s=s):
                            f, o, l, k = parts(get); w = SPL(*gg); pc = list(get(s).p)
                            after = lambda i: seq(pc + [('t', SPL(k0, i, e, k, ign, p, q))])
                            return z3.If(l != zero, after(f + o + l) == w, z3.If(o == zero, after(f) == w, seq(pc) == w))
                        def throws(get, parts=parts):
                            f, o, l, k = parts(get); w = SPT(*gg); r = lambda i: SPT(k0, i, e, k, ign, p, q)
                            return z3.If(l != zero, r(f + o + l) == w, z3.If(o == zero, r(f) == w, Not(w)))
                        def token(get, parts=parts):
                            f, o, l, k = parts(get); return Imp(l != zero, And(z3.ULE(o, e - f), z3.ULE(l, (e - f) - o)))
                        C(nm + ' text', text); C(nm + ' throws', throws); C(nm + ' token', token); C(nm + ' not begun', lambda get, parts=parts: (lambda f, o, l, k: And(Imp(mx == zero, And(o == zero, l == zero)), Imp(And(o == zero, l == zero), k == mx)))(*parts(get)))
    con(sig, params, 'vec', lambda a: [(SPT(*g(a)), T()), (True, R(GVec([('t', SPL(*g(a)))], 16)))], templ=[templ], props=props, unroll=1, close=('FWT', 'FWP', 'SF', 'CFT', 'CFP', 'NM1', 'NM2', 'NMT', 'OPL', 'OPO', 'OPT'), **kw)
PAR = [('params', 'splitm')]; PARV = [('params', 'split')]
split('ystring::split(sv, sv32, ystring::SplitParams)', SV + [('chars', 'sv32')] + PAR, lambda a: (lambda k, p, q: (k, '', p, q))(*listpid('list', a.chars)))
split('ystring::split(sv, sv, ystring::SplitParams)', SV + [('sep', 'sv')] + PAR, lambda a: ('#cs', a.sep.uid, a.sep.B, a.sep.E))
split('ystring::split_lines(sv, ystring::SplitParams)', SV + PARV, lambda a: ('#nl', '', zero, zero))
split('ystring::case_insensitive::split(sv, sv32, ystring::SplitParams)', SV + [('chars', 'sv32')] + PAR, lambda a: (lambda k, p, q: (k, '', p, q))(*listpid('ci', a.chars)), props=('C17',))
split('ystring::case_insensitive::split(sv, sv, ystring::SplitParams)', SV + [('sep', 'sv')] + PAR, lambda a: ('#ci', a.sep.uid, a.sep.B, a.sep.E), props=('C17',))
split('ystring::split_where<Finder>(sv, Finder, ystring::SplitParams)', SV + PARV, lambda a: ('#any', '', zero, zero))

# ---- token iteration, with any finder: (what is left, the current token) is what next, part, token and remainder are about
TOK = [('it', 'tokit')]
def tokpre(a): v = a.it.old; o, l = a.it.tok; return [Imp(l != zero, And(z3.ULE(o, v.N), z3.ULE(l, v.N - o)))]
def tokstate(a):
    v = a.it.old; o, l = a.it.tok; begun = o != zero
    return v, v.B + o, v.B + o + l, And(l == zero, begun), And(l == zero, Not(begun))        # text, token, the rest; there are no more tokens; not begun
def toknext(a):
    v, i, f, done, new = tokstate(a); u = v.uid; l = OPL(u, f, v.E); left = (f, v.E - f)
    return [(done, R(FALSE)), (OPT(u, f, v.E), T(it=left + a.it.tok)), (l != zero, R(TRUE, it=left + (OPO(u, f, v.E), l))), (True, R(TRUE, it=left + (NPOS, zero)))]
def tokviews(v, i, f, done, new, E): return [(done, (v.B, E)), (new, (v.B, v.B)), (True, (v.B, i))], [(Or(done, new), (i, i)), (True, (i, f))], [(done, (f, f)), (new, (v.B, E)), (True, (f, E))]
for n, k in (('part', 0), ('token', 1), ('remainder', 2)):
    con('ystring::TokenIterator<Finder>::%s() const' % n, TOK, 'sv', lambda a, k=k: [(c, R((a.it.old, p, q - p))) for c, (p, q) in tokviews(*tokstate(a), a.it.old.E)[k]], pre=tokpre, props=('C14',), noapply=True)
con('ystring::TokenIterator<Finder>::next()', TOK, 'i1', toknext, pre=tokpre, props=('C14',), noapply=True)
con('ystring::TokenIterator<Finder>::operator bool() const', TOK, 'i1', lambda a: [(True, R(a.it.tok[1] != zero))], props=('C14',), noapply=True)
def tokwhole(x):
    """part, token and remainder are the text that is left; next leaves what was the remainder; its token satisfies the precondition"""
    class V: pass
    u = fresh_content('T').uid; B, n, o, l = z3.BitVecs('B n o l', 64); a = V(); a.it = V(); a.it.old = V(); v = a.it.old; v.uid = u; v.B = B; v.N = n; v.E = B + n; a.it.tok = (o, l)
    dom = [z3.ULE(B, LIM), z3.ULE(n, k64((1 << 32) - 1))] + tokpre(a); st = tokstate(a); out = []
    pick_ = lambda cs, k: z3.If(cs[0][0], cs[0][1][k], z3.If(cs[1][0], cs[1][1][k], cs[2][1][k] if len(cs) > 2 else cs[1][1][k]))
    for c, ps in ((st[3], 'at the end'), (st[4], 'at the beginning'), (And(Not(st[3]), Not(st[4])), 'at a token')):
        vs = [next((w for g, w in cs if g is True or x.solver.check(dom + [c, Not(zb(g))]) == 'unsat'), None) for cs in tokviews(*st, v.E)]
        out.append(('part, token and remainder are the text: ' + ps, dom + [c, (lambda t: t == t)(CAT(sl(u, B, B + o), CAT(sl(u, B + o, B + o + l), sl(u, B + o + l, v.E)))), (lambda t: t == t)(CAT(sl(u, B + o, B + o + l), sl(u, B + o + l, v.E)))], cat(*[sl(u, p, q) for p, q in vs]) == sl(u, B, v.E)))
        if ps != 'at the end': out.append(('next goes on with the remainder: ' + ps, dom + [c], And(vs[2][0] == st[2], vs[2][1] == v.E)))
    return out
LEMMAS.append(Lemma('a token iterator loses nothing', ('C14',), tokwhole))
def eqtext(x):
    """ranges with equal bytes are equal texts"""
    u, v = fresh_content('U').uid, fresh_content('V').uid; i, j, n = z3.BitVecs('i j n', 64); same = lambda t: t == t
    h = [z3.ULE(i, LIM), z3.ULE(j, LIM), z3.ULE(n, k64((1 << 32) - 1)), EQL((u, v), i, j, n)]
    return [('none', h + [n == zero], sl(u, i, i + n) == sl(v, j, j + n)),
            ('one more', h + [n != zero, sl(u, i + one, i + n) == sl(v, j + one, j + n), same(CAT(sl(u, i, i + one), sl(u, i + one, i + n))), same(CAT(sl(v, j, j + one), sl(v, j + one, j + n)))], sl(u, i, i + n) == sl(v, j, j + n))]
LEMMAS.append(Lemma('ranges with equal bytes are equal texts', ('C14',), eqtext, bytes=True))
def joinback(x):
    """an array w, from j on, that holds the pieces of the split of [i,e) at [p,q) (an element after another, as the definition of the split goes) is joined to the text [i,e)"""
    u, v, w = fresh_content('U').uid, fresh_content('V').uid, lib.ViewArray('W'); w.obj = 0; i, e, p, q, j, m, k = z3.BitVecs('i e p q j m k', 64)
    t, ok, s, f = tmatch((u, '#cs', v), i, e, p, q); same = lambda t: t == t; B, N = lib.ELB(w.uid, j), lib.ELN(w.uid, j); g = ((w.uid, v), j + one, m, p, q)
    dom = [z3.ULE(i, e), z3.ULE(e, LIM), z3.ULE(p, q), z3.ULE(q - p, k64((1 << 32) - 1)), z3.ULE(q, LIM), z3.ULT(j, m), z3.ULE(m, LIM)]; more = And(k != zero, ok)
    text = lambda j: cat(velem(w.uid, j), JN((w.uid, v), j + one, m, p, q)); piece = lambda i, z: velem(w.uid, j) == sl(u, i, z); spl = lambda i, k: SPL((u, '#cs', v), i, e, k, FALSE, p, q)
    return [('the split: last piece', dom + [Not(more)], spl(i, k) == view(u, i, e)), ('the split: a piece and the rest', dom + [more], spl(i, k) == cat(view(u, i, s), spl(f, k - one))),
            ('the separator is the text between', dom + [more, Imp(EQL((u, v), s, p, q - p), sl(u, s, s + (q - p)) == sl(v, p, p + (q - p)))], sl(u, s, f) == sl(v, p, q)),
            ('the last piece', dom + [Not(more), piece(i, e), j + one == m], text(j) == sl(u, i, e)),
            ('one more piece', dom + [more, piece(i, s), z3.ULT(j + one, m), text(j + one) == sl(u, f, e), sl(u, s, f) == sl(v, p, q), same(CAT(sl(u, i, s), CAT(sl(u, s, f), sl(u, f, e)))), same(CAT(sl(u, s, f), sl(u, f, e)))], text(j) == sl(u, i, e))]
LEMMAS.append(Lemma('joining the pieces of a split gives the text back', ('C14',), joinback))
# ---- joining
con('ystring::join<sv const*>(sv const*, sv const*, sv)', [('begin', 'vptr'), ('end', 'vptr'), ('delim', 'sv')], 'str',
    lambda a: (lambda g: [(a.begin.F == a.end.F, R([])), (True, R([('t', velem(a.begin.uid, a.begin.F)), ('t', JN(*g))]))])(((a.begin.uid, a.delim.uid), a.begin.F + one, a.end.F, a.delim.B, a.delim.E)),
    pre=lambda a: [z3.ULE(a.begin.F, a.end.F)], seeds=lambda a: [JN1((a.begin.uid, a.delim.uid), a.begin.F, a.end.F, a.delim.B, a.delim.E)], props=('C14',), depth=2)

# ---- sets of code points (C26, C12, C17) --------------------------------------------------------------------------------------
SET = [('set', 'set')]
P_ = PROBE
con('ystring::CodepointSet::add_range(char32_t, char32_t)', SET + [CH('a'), CH('b')], 'void',
    lambda a: [(True, R(set=lambda t: [MEMB('', t, P_) == Or(MEMB('', a.set.t, P_), inrange(a.a, a.b, P_)), CMEMB('', t, P_) == Or(CMEMB('', a.set.t, P_), cinrange(a.a, a.b, P_))]))], props=('C26',))
def nolist(a): return [] if a.call else [Imp(vlen(a.set.t) == zero, And(a.set.t == EMPTY, Not(MEMB('', a.set.t, P_)), Not(CMEMB('', a.set.t, P_))))]     # only the empty list has no elements
con('ystring::CodepointSet::add_codepoint(char32_t)', SET + [CH()], 'void',
    lambda a: [(True, R(set=lambda t: [MEMB('', t, P_) == Or(MEMB('', a.set.t, P_), a.c == P_), Imp(vlen(a.set.t) == zero, CMEMB('', t, P_) == (UP('', a.c) == UP('', P_)))]))], props=('C26',), lemmas=nolist)
def addtempl(x, s0, vals, sizes, P, N, B, S, C):
    v = x.a.list; has = lambda i: FIND(v.uid, i, v.E, P_) != v.E
    for s in S:
        for p in P: C('added %s %s' % (s, p), lambda g, s=s, p=p: Or(MEMB('', g(s).term(), P_), has(b64(g(p).f))) == Or(MEMB('', x.a.set.t, P_), has(v.B)))
con('ystring::CodepointSet::add_codepoints(sv32)', SET + [('list', 'sv32')], 'void',
    lambda a: [(True, R(set=lambda t: [MEMB('', t, P_) == Or(MEMB('', a.set.t, P_), FIND(a.list.uid, a.list.B, a.list.E, P_) != a.list.E)]))], props=('C26',), templ=[addtempl])
def asarray(F, M):
    """membership in the list is membership in the array that holds its elements"""
    def f(a):
        if a.call: return []
        t = a.set.t; c = a.x.veccont.setdefault(t.get_id(), rangecontent(t)); a.x.basef.setdefault(c.uid, [zero]); return [M('', t, a.c) == F(c.uid, zero, vlen(t), a.c)]
    return f
con('ystring::CodepointSet::contains(char32_t) const', SET + [CH()], 'i1', lambda a: [(True, R(a.set.member(a.c)))], props=('C26',), lemmas=asarray(ANYIN, MEMB), depth=5)
con('ystring::CodepointSet::case_insensitive_contains(char32_t) const', SET + [CH()], 'i1', lambda a: [(True, R(a.set.cmember(a.c)))], props=('C26',), lemmas=asarray(CANYIN, CMEMB), depth=5, merge=True)
for ns, k, p in (('', 'set:', 'C12'), ('case_insensitive::', 'ciset:', 'C17')):
    SO = SV + SET + [('off', 'i64')]; pid = lambda a, k=k: k + a.set.pid[4:]
    con('ystring::%sfind_first_of(sv, ystring::CodepointSet, unsigned long)' % ns, SO, 'pairsc', lambda a, pid=pid: fwres(a, pid(a), off=a.off), pre=offpre, props=(p,))
    con('ystring::%sfind_last_of(sv, ystring::CodepointSet, unsigned long)' % ns, SO, 'pairsc', lambda a, pid=pid: bwres(a, pid(a), off=a.off), props=(p,))

# ---- normalisation (C21, C22) -----------------------------------------------------------------------------------------------------
ANON = 'ystring::(anonymous namespace)::'
z32 = K(0, 32)
con(ANON + 'find_decomposed(char32_t)', [CH()], 'cc', lambda a: [(True, R((DF.pf(a.c, a.piece[0]), DS.pf(a.c, a.piece[0])) if a.piece else (DF('', a.c), DS('', a.c))))], props=('C21',), name='find_decomposed',
    split=lambda: [dict(c=(lo, hi), data=(v,)) for lo, hi, v in ucd.decpieces()], parts=2)
con(ANON + 'find_composed(char32_t, char32_t)', [CH(), CH('m')], 'i32', lambda a: [(True, R(K(a.piece[0], 32) if a.piece else COMP('', a.c, a.m)))], props=('C22',), name='find_composed', pre=lambda a: [z3.ULE(a.c, K(0x1FFFFF, 32))],
    split=lambda: [dict(c=(l, h), m=(p, q), data=(v,)) for l, h, p, q, v in ucd.comppieces(0x1FFFFF)], parts=3, tops=dict(c=0x1FFFFF))
con(ANON + 'get_decomposed_size(char32_t)', [CH()], 'i64', lambda a: [(True, R(DN('', a.c)))], props=('C21',), name='get_decomposed_size', depth=5, lemmas=lambda a: [] if a.call else [z3.ULE(DN('', a.c), k64(4))])
def decomposed(a):
    """the code points of the full decomposition, for each number of them there can be; written if there is room"""
    c = a.c; n = DN('', c); parts = [c]; cs = []
    for k in range(1, 5):
        if k > 1: parts = [DF('', parts[0]), DS('', parts[0])] + parts[1:]
        cs.append((And(n == k64(k), z3.UGE(a.size, k64(k))), R((TRUE, k64(k)), str=list(parts))))
    return cs + [(True, R((FALSE, n), str=ANY))]
con(ANON + 'decompose_char(char32_t, char32_t*, unsigned long)', [CH(), ('str', 'buf32'), ('size', 'i64')], 'bn', decomposed, props=('C21',), name='decompose_char', depth=5, pre=lambda a: [z3.ULE(a.size, a.str.room)], lemmas=lambda a: [] if a.call else [z3.ULE(DN('', a.c), k64(4))])
con('ystring::decompose(char32_t)', [CH()], 'str32', lambda a: [(True, R([('t', DEC('', a.c))]))], props=('C21',), depth=5)
con('ystring::to_decomposed(sv)', SV, 'str', lambda a: [(BAD(a.str.uid, a.str.B, a.str.E), T()), (True, R([('t', TD(a.str.uid, a.str.B, a.str.E))]))], props=('C21',), depth=5)
def cpbound(x, s0, vals, sizes, P, N, B, S, C):
    for k in N:
        if sizes[k] == 4: C('%s is decoded' % (k,), lambda g, k=k: z3.ULE(asbv(g(k), 4), K(0x1FFFFF, 32)))
def tcinv(x, s0, vals, sizes, P, N, B, S, C):
    """what is written, the text pending before the last code point, and the composition of the rest"""
    v = x.a.str; g0 = getter(s0)
    P = [k for k in P if isinstance(g0(k), Ptr) and g0(k).o == v.o]
    N = [k for k in N if sizes[k] == 4 and not isinstance(g0(k), Undef)]
    for c in N:
        for i in P:
            t = lambda g, i=i, c=c: TC(v.uid, off_of(g(i)), v.E, zero, asbv(g(c), 4), TRUE); t0 = t(g0)
            C('TC(%s, %s)' % (i, c), lambda g, t=t, t0=t0: t(g) == t0)
            for f in P:
                for m in P:
                    if len({f, m, i}) < 3: continue
                    t = lambda g, i=i, c=c, f=f, m=m: [('sl', v.c, off_of(g(f)), off_of(g(m))), ('t', TC(v.uid, off_of(g(i)), v.E, off_of(g(m)), asbv(g(c), 4), FALSE))]
                    for k in S:
                        if isinstance(g0(k), Undef): continue
                        e = seq(list(g0(k).p) + t(g0))
                        C('%s, [%s, %s), TC(%s, %s)' % (k, f, m, i, c), lambda g, t=t, k=k, e=e: seq(list(g(k).p) + t(g)) == e)
con('ystring::to_composed(sv)', SV, 'str', lambda a: (lambda v, L: [(v.N == zero, R([])), (BAD(v.uid, v.B, v.E), T()), (True, R([('t', TC(v.uid, v.B + L, v.E, v.B, DV(v.uid, v.B), FALSE))]))])(a.str, DL(a.str.uid, a.str.B, a.str.E)), props=('C22',), templ=[cpbound, tcinv])

# ---- escape sequences (C23, C24, C25) ------------------------------------------------------------------------------------------------
OFF = [('off', 'i64')]
con('ystring::find_first_escapable_char(sv, unsigned long)', SV + OFF, 'subr', lambda a: (lambda v, p: [(p == v.E, R((v.N, zero))), (True, R((p - v.B, one)))])(a.str, ESCP(a.str.uid, a.str.B + a.off, a.str.E)), pre=offpre, props=('C23',), depth=5)
con('ystring::has_escapable_chars(sv)', SV, 'i1', lambda a: [(True, R(ESCP(a.str.uid, a.str.B, a.str.E) != a.str.E))], props=('C23',))
con('ystring::escape_json(sv)', SV, 'str', lambda a: [(True, R([('t', EJ(a.str.uid, a.str.B, a.str.E))]))], props=('C23',), unroll=1, depth=2)
con(ANON + 'is_hex_digit(char)', [('c', 'i8')], 'i1', lambda a: [(True, R(hexbyte(a.c)))], props=('C24', 'C25'), name='is_hex_digit(char)')
for nm, F in (('hex', NHEX), ('oct', NOCT)):
    con(ANON + 'find_end_of_%s_sequence(sv, unsigned long, unsigned long)' % nm, SV + [('start', 'i64'), ('end', 'i64')], 'i64', name='find_end_of_%s_sequence' % nm, props=('C24', 'C25'),
        cases=lambda a, F=F: (lambda v, m, f: [(z3.ULE(m, a.start), R(m)), (z3.ULE(a.end, v.N), R(f(v.B + a.end))), (True, R(f(v.E)))])(a.str, umin(a.str.N, a.end), lambda e: F(a.str.uid, a.str.B + a.start, e) - a.str.B))
def digits(a, b):
    u, i, e = a.last.uid, a.first.old.F, a.last.F; z = NZ(u, i, e); q = b.end(u, z, e); d = b.val(by(u, z)); v = b.num(u, z + one, q, d)
    return [(Or(z == e, Not(b.digit(by(u, z)))), R(TRUE, first=z)), (True, R(Not(b.over(q - z, d)), first=q, value=v))]
for tf, b in (('true', OCT), ('false', HEX)):
    con('std::__detail::__from_chars_pow2_base<%s, unsigned int>(char const*&, char const*, unsigned int&, int)' % tf, [('first', 'pref'), ('last', 'ptr'), ('value', 'out32'), ('base', 'i32=%d' % b.base)], 'i1', lambda a, b=b: digits(a, b),
        pre=lambda a: [z3.ULE(a.first.old.F, a.last.F)], props=('C24', 'C25'), name='digits of base %d' % b.base)
for nm, b, k in (('hex', HEX, 2), ('oct', OCT, 1)):
    con(ANON + 'parse_escaped_%s_char(sv)' % nm, SV, 'i32', lambda a, b=b, k=k: (lambda u, i, e: [(Or(b.end(u, i, e) == i, b.toobig(u, i, e)), T()), (True, R(b.value(u, i, e)))])(a.str.uid, a.str.B + k64(k), a.str.E),
        pre=lambda a, k=k: [z3.ULE(k64(k), a.str.N)], props=('C24',), name='parse_escaped_%s_char' % nm, open=('HXV', 'HXO', 'OCV', 'OCO'))
def extract(a, b, lo, hi):
    v = a.str.old; u, i, e = v.uid, v.B, v.E; r = lambda m: R(b.value(u, i, m), str=(b.end(u, i, m), e - b.end(u, i, m)))
    return [(And(z3.ULT(v.N, hi), z3.ULT(b.end(u, i, e) - i, lo)), T()), (z3.ULT(v.N, hi), r(e)), (z3.ULT(b.end(u, i, i + hi) - i, lo), T()), (True, r(i + hi))]
con('ystring::extract_hex_char(sv&, unsigned long, unsigned long)', SVR + [('lo', 'i64'), ('hi', 'i64')], 'i32', lambda a: extract(a, HEX, a.lo, a.hi), pre=lambda a: [z3.ULE(one, a.lo), z3.ULE(a.hi, k64(8))], props=('C25',), open=('HXV', 'HXO'), depth=3)
con('ystring::extract_oct_char(sv&)', SVR, 'i32', lambda a: extract(a, OCT, one, k64(3)), props=('C25',), open=('OCV', 'OCO'), depth=3)
con(ANON + 'combine_surrogate_pair(char32_t, char32_t)', [CH('a'), CH('b')], 'i32', lambda a: [(True, R(surrogates(a.a, a.b)))], props=('C24', 'C25'), name='combine_surrogate_pair')
def u16cases(a):
    v = a.str.old; bad, pair, p, q, _ = u16(v.uid, v.B, v.E)
    return [(bad, T()), (pair, R(q, str=(v.B + k64(10), v.N - k64(10)))), (True, R(p, str=(v.B + k64(4), v.N - k64(4))))]
con('ystring::extract_utf16_char(sv&)', SVR, 'i32', u16cases, props=('C25',), depth=2)
def nextcases(a):
    v = a.str.old; u, e = v.uid, v.E; s = PSK(u, v.B, e); t = by(u, s + one); i = s + k64(2); rest = lambda f: (f, e - f); fail = T(str=rest(s), flag=ANY); L = DL(u, s, e); M = DL(u, s + one, e)
    is_ = lambda *cs: Or(*[t == b8(c) for c in cs])
    cs = [(s == e, R(None, str=rest(e), flag=FALSE)), (And(by(u, s) != K(92, 8), L == zero), fail), (by(u, s) != K(92, 8), R(DV(u, s), str=rest(s + L), flag=FALSE)), (s + one == e, fail)]
    cs += [(is_(c), R(K(w, 32), str=rest(i), flag=TRUE)) for c, w in zip('abfnrtv', (7, 8, 12, 10, 13, 9, 11))]
    def num(cond, b, i, lo, hi):
        out = []
        for c, m in ((z3.ULT(e - i, k64(hi)), e), (TRUE, i + k64(hi))):
            q = b.end(u, i, m); out += [(And(cond, c, z3.ULT(q - i, k64(lo))), fail), (And(cond, c), R(b.value(u, i, m), str=rest(q), flag=TRUE))]
        return out
    cs += num(is_('x', 'X'), HEX, i, 1, 8) + num(is_('U'), HEX, i, 8, 8)
    bad, pair, p, q, _ = u16(u, i, e)
    cs += [(And(is_('u'), bad), fail), (And(is_('u'), pair), R(q, str=rest(i + k64(10)), flag=TRUE)), (is_('u'), R(p, str=rest(i + k64(4)), flag=TRUE))]
    cs += num(octbyte(t), OCT, s + one, 1, 3)
    return cs + [(M == zero, fail), (True, R(DV(u, s + one), str=rest(s + one + M), flag=TRUE))]
con('ystring::unescape_next(sv&, bool*)', SVR + [('flag', 'boolptr')], 'opt', nextcases, props=('C25',))
con('ystring::find_first_escaped_char(sv, unsigned long)', SV + OFF, 'subr', lambda a: (lambda v, p: [(p == v.E, R((v.N, zero))), (ESL(v.uid, p, v.E) == zero, T()), (True, R((p - v.B, ESL(v.uid, p, v.E))))])(a.str, FIND(a.str.uid, a.str.B + a.off, a.str.E, K(92, 32))),
    pre=offpre, props=('C24',), open=('ESL',))
con('ystring::has_escaped_chars(sv)', SV, 'i1', lambda a: (lambda v, p: [(p == v.E, R(FALSE)), (ESL(v.uid, p, v.E) == zero, T()), (True, R(TRUE))])(a.str, FIND(a.str.uid, a.str.B, a.str.E, K(92, 32))), props=('C24',))
def utf16(a):
    v, (o, n) = a.str, a.sub; u, e = v.uid, v.E; i = v.B + o + k64(2); bad, pair, p, q, bad2 = u16(u, i, e)
    return [(bad2, T()), (pair, R((q, (o, k64(12))))), (True, R((p, (o, n))))]
con(ANON + 'parse_utf16(sv, ystring::Subrange)', SV + [('sub', 'subr')], 'pcs', utf16, props=('C24',), name='parse_utf16', open=('ESL',),
    pre=lambda a: [z3.ULE(k64(6), a.str.N), z3.ULE(a.sub[0], a.str.N - k64(6)), a.sub[1] == k64(6), NHEX(a.str.uid, a.str.B + a.sub[0] + k64(2), a.str.B + a.sub[0] + k64(6)) == a.str.B + a.sub[0] + k64(6)])
def uninv(x, s0, vals, sizes, P, N, B, S, C):
    """what is written, what was left as it is, and the rest unescaped"""
    v = x.a.str; cur = v.cur; g0 = getter(s0); out = lambda g: list(g((cur, 0)).p); w = lambda g: b64(g((cur, 32)))
    N = [k for k in N if k[0] != cur and sizes[k] == 8 and not isinstance(g0(k), Undef)]
    for f in N:
        F_ = lambda g, f=f: v.B + asbv(g(f), 8)
        C('UT(%s)' % (f,), lambda g, F_=F_: UT(v.uid, F_(g), v.E) == UT(v.uid, v.B, v.E))
        C('%s in text' % (f,), lambda g, f=f: z3.ULE(asbv(g(f), 8), v.N))
        for t in N:
            if t == f: continue
            T_ = lambda g, t=t: v.B + asbv(g(t), 8)
            C('%s <= %s' % (t, f), lambda g, f=f, t=t: z3.ULE(asbv(g(t), 8), asbv(g(f), 8)))
            C('written <= %s' % (t,), lambda g, T_=T_: z3.ULE(w(g), T_(g)))
            C('UL(%s, %s)' % (t, f), lambda g, F_=F_, t=t: asbv(g(t), 8) + UL(v.uid, F_(g), v.E) == UL(v.uid, v.B, v.E))
            C('UE(%s, %s)' % (t, f), lambda g, F_=F_, T_=T_: seq(out(g) + [('sl', v.c, simp(w(g)), simp(T_(g))), ('t', UE(v.uid, F_(g), v.E))]) == UE(v.uid, v.B, v.E))
con('ystring::unescape(char*, unsigned long)', [('str', 'inplace')], 'i64', lambda a: (lambda u, i, e: [(UT(u, i, e), T(str=ANY)), (True, R(UL(u, i, e), str=(UE(u, i, e), UL(u, i, e))))])(a.str.uid, a.str.B, a.str.E), props=('C24',), templ=[uninv], unroll=1, open=('UQT', 'UQV', 'UQN'), depth=2, close=('FIND', 'NHEX', 'NOCT'))
con('ystring::unescape(string)', [('str', 'str')], 'str', lambda a: (lambda v: [(UT(v.uid, v.B, v.E), T()), (True, R([('t', UE(v.uid, v.B, v.E))]))])(a.str.view), props=('C24', 'C23'), noapply=True)

def jsonforms(w, u, i, j):
    """the ways in which a byte of a text u appears in the JSON text w: (name, number of bytes, hypotheses)"""
    b = by(u, i); dig = lambda n: z3.If(z3.ULT(n, K(10, 8)), n + K(48, 8), n + K(55, 8)); short = list(zip('\b\f\n\r\t"\\', 'bfnrt"\\'))
    def text(vs): return [by(w, j + k64(k)) == v for k, v in enumerate(vs)]
    out = [('copied', 1, [Not(lib.escapable(b))] + text([b]))] + [('\\' + v, 2, [b == b8(ch)] + text([b8('\\'), b8(v)])) for ch, v in short]
    return out + [('\\u', 6, [z3.ULT(b, K(32, 8))] + [b != b8(ch) for ch, v in short] + text([b8(v) for v in '\\u00'] + [dig(z3.LShR(b, 4)), dig(b & K(15, 8))]))]
def jsondom():
    w, u = (fresh_content(c).uid for c in 'WU'); i, j, n, e = z3.BitVecs('i j n e', 64)
    return w, u, i, j, n, e, [z3.ULE(n, LIM), z3.ULE(e, LIM), z3.ULT(i, e), z3.ULE(j, n)]
def jsonesc(x):
    out = []; w, u, i, j, n, e, dom = jsondom()
    for nm, L, h in jsonforms(w, u, i, j)[1:]:
        h = dom + [z3.ULE(k64(L), n - j)] + h; q = j + k64(L)
        out += [(nm + ' has its length', h, ESL(w, j, n) == k64(L)), (nm + ' is well formed', h + [ESL(w, j, n) == k64(L)], Not(UQT(w, j, n))), (nm + ' ends there', h + [ESL(w, j, n) == k64(L)], UQN(w, j, n) == q),
            (nm + ' has its value', h + [ESL(w, j, n) == k64(L)], UQV(w, j, n) == lib.z32(by(u, i)))]
    return out
LEMMAS.append(Lemma('escapes of JSON', ('C23',), jsonesc, depth=6))
def jsonback(x):
    """a JSON text is written out byte by byte: what holds for the rest holds for the whole"""
    w, u, i, j, n, e, dom = jsondom()
    props = lambda i, j: [('has no malformed escape', Not(UT(w, j, n))), ('unescaped', UE(w, j, n) == sl(u, i, e)), ('is what escape_json gives', sl(w, j, n) == EJ(u, i, e)), ('is clean', CLEAN(w, j, n))]
    same = lambda t: t == t
    out = [('empty text ' + nm, dom[:2] + [i == e, j == n], c) for nm, c in props(i, j)]
    for nm, L, h in jsonforms(w, u, i, j):
        q = j + k64(L); h = dom + [z3.ULE(k64(L), n - j)] + h + [c for _, c in props(i + one, q)]
        if L > 1: h += [Not(UQT(w, j, n)), UQN(w, j, n) == q, UQV(w, j, n) == lib.z32(by(u, i))]
        h += [same(CAT(sl(u, i, i + one), sl(u, i + one, e))), same(CAT(sl(w, j, q), UE(w, q, n)))]
        h += [same(CAT(sl(w, j + k64(k), j + k64(k + 1)), sl(w, j + k64(k + 1), n))) for k in range(L)] + [same(CAT(sl(u, i, i + one), EJ(u, i + one, e)))]
        out += [(nm + ': ' + l, h, c) for l, c in props(i, j)]
    return out
LEMMAS.append(Lemma('unescaping a JSON text gives the text back', ('C23',), jsonback, depth=5, opaque=('UQT', 'UQN', 'UQV'), bytes=True))

# ---- laws of the specification functions
import laws
LEMMAS += laws.TASKS
