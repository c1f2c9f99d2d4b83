"""Laws of the specification functions: statements for all arguments, each proved by induction on a measure from its own smaller
instances and from instances of earlier laws. The properties that speak of more than one function are laws."""
import time, z3
from spec import *
from lib import *
import lib, contracts
from lemma import *
from sx import Exec, State, Fail, Budget, Unsupported

LAWS = []; TASKS = []
NAT = z3.ULE
LIM = k64(1 << 62)
class Law(Task):
    """keys: what the contents are ('c' bytes, 'c4' UTF-32); sorts of the arguments; hyps, concl: functions of (key, *args); meas: the measure;
    use(ih, key, *args): the instances of ih (the law itself, smaller) and of earlier laws that the proof takes"""
    idx = 0
    def __init__(s, name, props, keys, args, hyps, concl, meas=None, use=None, depth=1, closed=(), bytes=False, cases=None):
        s.name = s.sig = 'law ' + name; s.props = props; s.keys = keys; s.argnames = args.split(); s.hyps = hyps; s.concl = concl; s.meas = meas; s.use = use; s.depth = depth
        s.closed = closed; s.bytes = bytes; s.cases = cases; Law.idx += 1; s.no = Law.idx; LAWS.append(s); TASKS.append(s)
    def sort(s, n): return BV32 if n[0] == 'c' else BOOL if n[0] == '?' else BV64
    def __call__(s, key, *args):
        if Law.current is not None and s.no >= Law.current: raise AssertionError('law used before it is proved')
        return s.form(key, *args)
    def form(s, key, *args): return Imp(And(*s.hyps(key, *args)), s.concl(key, *args))
    def run(s, prog, budget=120):
        t0 = time.time(); x = Exec(prog, s.name, 20000, s.depth); x.deadline = t0 + budget; err = None
        Revealed.opaque = set(s.closed); x.byteslices = s.bytes; Law.current = s.no
        try:
            key = tuple((lib.rangecontent(None) if k == 'g' else fresh_content('K', 4 if k == 'c4' else 1)).uid for k in s.keys)
            args = [z3.Const(n, s.sort(n)) for n in s.argnames]
            def ih(*a):
                k = key
                if isinstance(a[0], tuple): k = a[0]; a = a[1:]
                return Imp(lexlt(s.meas(*a), s.meas(*args)), s.form(k, *a))
            hs = s.hyps(key, *args)
            for i, g in enumerate(s.cases(key, *args) if s.cases else [TRUE]):
                st = State(); x.add(st, *hs); x.add(st, g); lab = 'law' if not s.cases else 'case %d' % i
                if hs and not x.feasible(st, hs[0]): x.fails.append(Fail('the hypotheses contradict each other', s.name, 'sat')); x.nobl += 1; continue
                x.add(st, *(s.use(ih, key, *args) if s.use else []))
                c = s.concl(key, *args)
                if x.check(st, c, precise=False) == 'unsat': x.fails.append(Fail('the premises contradict each other', s.name, 'sat')); x.nobl += 1; continue
                for q in (c.children() if z3.is_and(c) else [c]): x.oblige(st.fork(), lab, q)
            if s.cases: x.oblige(State(), 'the cases are all', Or(*s.cases(key, *args)))
        except (Unsupported, Budget) as e: err = '%s: %s' % (type(e).__name__, e)
        finally: Law.current = None
        return s.res(x, t0, 'lemma', err)
Law.current = None
def law(*a, **k): return Law(*a, **k)
def dom(i, e): return [NAT(i, e), NAT(e, LIM)]
UNIT = ('SK', 'SP', 'CNT', 'NTH', 'NTB', 'DL', 'PL', 'DV')
def closed(*open): return tuple(f.name for f in Fam.all.values() if f.name not in open)

# ---- runs of continuation bytes and units (C04, C07) ---------------------------------------------------------------------
RUNSUB = law('a run seen from inside', ('C04',), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m - i, RUN(u, i, e))], lambda u, i, m, e: RUN(u, m, e) == RUN(u, i, e) - (m - i),
    lambda i, m, e: m - i, lambda ih, u, i, m, e: [ih(i + one, m, e)], closed=closed('RUN'))
RUNPRE = law('a run seen up to a position', ('C04',), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m, e)], lambda u, i, m, e: RUN(u, i, m) == umin(RUN(u, i, e), m - i),
    lambda i, m, e: m - i, lambda ih, u, i, m, e: [ih(i + one, m, e)], closed=closed('RUN'))
RBSUB = law('a run backwards seen from a position', ('C04',), 'c', 'b m e', lambda u, b, m, e: dom(b, e) + [NAT(b, m), NAT(m, e)], lambda u, b, m, e: RB(u, m, e) == umin(RB(u, b, e), e - m),
    lambda b, m, e: e - m, lambda ih, u, b, m, e: [ih(b, m, e - one)], closed=closed('RB'))
RBRUN = law('a range of continuation bytes is one from both ends', ('C04',), 'c', 'm e', lambda u, m, e: dom(m, e), lambda u, m, e: (RB(u, m, e) == e - m) == (RUN(u, m, e) == e - m),
    lambda m, e: e - m, lambda ih, u, m, e: [ih(m, e - one), RUNPRE(u, m, e - one, e), RUNSUB(u, m, e - one, e)], closed=closed('RB', 'RUN'), depth=2)
RBSTOP = law('a run backwards is maximal', ('C04',), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(RB(u, b, e), e - b)], lambda u, b, e: Not(cont(by(u[0], e - RB(u, b, e) - one))),
    lambda b, e: e - b, lambda ih, u, b, e: [ih(b, e - one)], closed=closed('RB'))
def nx(u, b, e): return b + SK(u, b, e)
SPFWD = law('the last unit, seen from the first', ('C04', 'C07'), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e)], lambda u, b, e: SP(u, b, e) == z3.If(nx(u, b, e) == e, b, SP(u, nx(u, b, e), e)),
    None, lambda ih, u, b, e: [RBSUB(u, b, nx(u, b, e), e), RBRUN(u, nx(u, b, e), e), RBRUN(u, b + one, e), RBRUN(u, b, e), RBSUB(u, b, b + one, e), RBSTOP(u, b, e), RUNSUB(u, b + one, nx(u, b, e), e)], closed=closed('SK', 'SP', 'RUN', 'RB'))
# LU(i,e): start of the last of the units that skipping forward produces
LU = Fam('LU', I, BV64, lambda key, i, e: z3.If(z3.ULT(i, e), z3.If(nx(key, i, e) == e, i, LU(key, nx(key, i, e), e)), i), None, meas=lambda i, e: e - i)
LAST = law('skipping backward moves over the last unit of skipping forward', ('C04', 'C07'), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e)], lambda u, b, e: SP(u, b, e) == LU(u, b, e),
    lambda b, e: e - b, lambda ih, u, b, e: [SPFWD(u, b, e), ih(nx(u, b, e), e)], closed=closed('LU'))
SKPRE = law('a unit does not depend on what follows it', ('C07', 'C09'), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [z3.ULT(i, m), NAT(m, e), NAT(nx(u, i, e), m)], lambda u, i, m, e: SK(u, i, m) == SK(u, i, e),
    None, lambda ih, u, i, m, e: [RUNPRE(u, i + one, m, e)], closed=closed('SK'))
NTHADD = law('k units and then l units', ('C07', 'C09'), 'c', 'i e k l', lambda u, i, e, k, l: dom(i, e) + [NAT(k, k + l)],
    lambda u, i, e, k, l: NTH(u, i, e, k + l) == z3.If(NTH(u, i, e, k) == NPOS, NPOS, NTH(u, NTH(u, i, e, k), e, l)), lambda i, e, k, l: k, lambda ih, u, i, e, k, l: [ih(nx(u, i, e), e, k - one, l)], closed=closed('NTH'))
NTBADD = law('k units and then l units backwards', ('C07', 'C09'), 'c', 'b i k l', lambda u, b, i, k, l: dom(b, i) + [NAT(k, k + l)],
    lambda u, b, i, k, l: NTB(u, b, i, k + l) == z3.If(NTB(u, b, i, k) == NPOS, NPOS, NTB(u, b, NTB(u, b, i, k), l)), lambda b, i, k, l: k, lambda ih, u, b, i, k, l: [ih(b, SP(u, b, i), k - one, l)], closed=closed('NTB'))
SPB = law('the last unit, seen from the start of a unit', ('C07', 'C09'), 'c', 'b e k', lambda u, b, e, k: dom(b, e) + [NTH(u, b, e, k) != NPOS, z3.ULT(NTH(u, b, e, k), e)], lambda u, b, e, k: SP(u, b, e) == SP(u, NTH(u, b, e, k), e),
    lambda b, e, k: k, lambda ih, u, b, e, k: [SPFWD(u, b, e), ih(nx(u, b, e), e, k - one)], closed=closed('NTH'))
NTHPRE = law('counting units up to a position', ('C07', 'C09'), 'c', 'i m e k', lambda u, i, m, e, k: dom(i, e) + [NAT(i, m), NAT(m, e), NTH(u, i, e, k) != NPOS, NAT(NTH(u, i, e, k), m)], lambda u, i, m, e, k: NTH(u, i, m, k) == NTH(u, i, e, k),
    lambda i, m, e, k: k, lambda ih, u, i, m, e, k: [SKPRE(u, i, m, e), ih(nx(u, i, e), m, e, k - one)], closed=closed('NTH'))
NTBB = law('counting units backwards from a start of a unit', ('C09',), 'c', 'b e k l', lambda u, b, e, k, l: dom(b, e) + [NTH(u, b, e, k) != NPOS],
    lambda u, b, e, k, l: NTB(u, NTH(u, b, e, k), e, l) == z3.If(Or(NTB(u, b, e, l) == NPOS, z3.ULT(NTB(u, b, e, l), NTH(u, b, e, k))), NPOS, NTB(u, b, e, l)),
    lambda b, e, k, l: l, lambda ih, u, b, e, k, l: [SPB(u, b, e, k), NTHPRE(u, b, SP(u, b, e), e, k), ih(b, SP(u, b, e), k, l - one)], closed=closed('NTB'))
NTHCNT = law('there are as many units as counted', ('C07',), 'c', 'i e k', lambda u, i, e, k: dom(i, e), lambda u, i, e, k: And((NTH(u, i, e, k) == NPOS) == z3.ULT(CNT(u, i, e), k), Imp(k == CNT(u, i, e), NTH(u, i, e, k) == e)),
    lambda i, e, k: e - i, lambda ih, u, i, e, k: [ih(nx(u, i, e), e, k - one)], closed=closed('NTH', 'CNT'))
CNTSP = law('one unit less without the last', ('C07',), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e)], lambda u, b, e: CNT(u, b, e) == CNT(u, b, SP(u, b, e)) + one,
    lambda b, e: e - b, lambda ih, u, b, e: [SPFWD(u, b, e), SKPRE(u, b, SP(u, b, e), e), ih(nx(u, b, e), e)], closed=closed('CNT'), depth=2)
NTHP2 = law('counting units in the text without its last', ('C07',), 'c', 'b e k', lambda u, b, e, k: dom(b, e) + [z3.ULT(b, e), NTH(u, b, SP(u, b, e), k) != NPOS], lambda u, b, e, k: NTH(u, b, e, k) == NTH(u, b, SP(u, b, e), k),
    lambda b, e, k: k, lambda ih, u, b, e, k: [SPFWD(u, b, e), SKPRE(u, b, SP(u, b, e), e), ih(nx(u, b, e), e, k - one)], closed=closed('NTH'))
NTBCNT = law('counting backwards is counting forwards from the other end', ('C07',), 'c', 'b e k', lambda u, b, e, k: dom(b, e), lambda u, b, e, k: NTB(u, b, e, k) == z3.If(NAT(k, CNT(u, b, e)), NTH(u, b, e, CNT(u, b, e) - k), NPOS),
    lambda b, e, k: k, lambda ih, u, b, e, k: [ih(b, SP(u, b, e), k - one), CNTSP(u, b, e), NTHP2(u, b, e, CNT(u, b, e) - k), NTHCNT(u, b, e, CNT(u, b, e)), NTHCNT(u, b, SP(u, b, e), CNT(u, b, e) - k)], closed=closed('NTB', 'CNT'))
# ---- slices (C09): what get_codepoint_substring_range promises is a Python slice: from the start position up to the end position ---------
def cppos(u, b, e, x): f = z3.If(x < zero, NTB(u, b, e, zero - x), NTH(u, b, e, x)); return z3.If(f == NPOS, z3.If(x < zero, b, e), f)
def slicepos(u, b, e, s, t):
    from types import SimpleNamespace as N
    o, n = zero, zero
    for c, r in reversed(contracts.slices(N(str=N(uid=u, B=b, E=e), start=s, end=t), contracts.capcp, None, lambda o, n: (o, n))): o, n = z3.If(c, r[0], o), z3.If(c, r[1], n)
    return o, n
def slice_concl(u, b, e, s, t):
    o, n = slicepos(u, b, e, s, t); p, q = cppos(u, b, e, s), cppos(u, b, e, t)
    return And(n == z3.If(z3.ULT(p, q), q - p, zero), Imp(n != zero, b + o == p))
SLICE = law('a slice is what lies between its two positions', ('C09',), 'c', 'b e s t', lambda u, b, e, s, t: dom(b, e), slice_concl,
    None, lambda ih, u, b, e, s, t: [NTHADD(u, b, e, s, t - s), NTHADD(u, b, e, t, s - t), NTBADD(u, b, e, zero - t, t - s), NTBADD(u, b, e, zero - s, s - t), NTBB(u, b, e, s, zero - t)], closed=closed('NTH', 'NTB'))
# ---- well-formed texts -------------------------------------------------------------------------------------------------------------
def ok(u, i, e): return Not(BAD(u, i, e))
PLMAX = law('going backward decodes exactly the sequences that going forward decodes', ('C03',), 'c', 'b i k', lambda u, b, i, k: dom(b, i) + [z3.ULE(one, k), NAT(k, i - b)], lambda u, b, i, k: (PL(u, b, i) == k) == (DL(u, i - k, i) == k),
    None, None, closed=closed('PL', 'DL'))
PLSUB = law('going backward decodes the same within a part', ('C03',), 'c', 'b m i', lambda u, b, m, i: dom(b, i) + [NAT(b, m), NAT(m, i), NAT(PL(u, b, i), i - m)], lambda u, b, m, i: PL(u, m, i) == PL(u, b, i), None, None, closed=closed('PL', 'DL'))
DLPRE = law('a sequence does not depend on what follows it', ('C02',), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m, e), NAT(DL(u, i, e), m - i)], lambda u, i, m, e: DL(u, i, m) == DL(u, i, e), None, None, closed=closed('DL'))
DLMORE = law('a sequence stays one when more follows', ('C02',), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m, e), DL(u, i, m) != zero], lambda u, i, m, e: DL(u, i, e) == DL(u, i, m), None, None, closed=closed('DL'))
VLAST = law('the last sequence of a valid text', ('C03', 'C06'), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e), ok(u, b, e)], lambda u, b, e: And(PL(u, b, e) != zero, ok(u, b, e - PL(u, b, e))),
    lambda b, e: e - b, lambda ih, u, b, e: [ih(b + DL(u, b, e), e), PLMAX(u, b, e, DL(u, b, e)), PLSUB(u, b, b + DL(u, b, e), e), DLPRE(u, b, e - PL(u, b, e), e), DLPRE(u, b, b + DL(u, b, e), e),
        PLMAX(u, b, e, PL(u, b + DL(u, b, e), e)), PLMAX(u, b + DL(u, b, e), e, PL(u, b + DL(u, b, e), e))], closed=closed('BAD'))
OKCAT = law('what follows a valid text decides', ('C06',), 'c', 'b m e', lambda u, b, m, e: dom(b, e) + [NAT(b, m), NAT(m, e), ok(u, b, m)], lambda u, b, m, e: BAD(u, b, e) == BAD(u, m, e),
    lambda b, m, e: m - b, lambda ih, u, b, m, e: [ih(b + DL(u, b, m), m, e), DLMORE(u, b, m, e)], closed=closed('BAD'), depth=2)
# ---- searching and trimming from the end (C12, C15, C17): backward finds the last of what forward finds; for every predicate -----------------
def preds(name, props, args, hyps, concl, meas, use, **k):
    """a law about a text and a predicate, for an arbitrary one and for the one of characters"""
    out = {}
    for pid in ('PRED', 'not MARK'):
        P = (lambda pid: lambda u: (u[0], pid))(pid)
        out[pid] = law(name + ('' if pid == 'PRED' else ' (marks)'), props, 'c', args, (lambda P: lambda u, *a: hyps(P, u, *a))(P), (lambda P: lambda u, *a: concl(P, u, *a))(P), meas, (lambda P, pid: lambda ih, u, *a: use(pid, P, ih, u, *a))(P, pid), **k)
    return out
def FP(P, u, i, e): return FWP(P(u), i, e, zero, zero, W0)
def FT(P, u, i, e): return FWT(P(u), i, e, zero, zero, W0)
def BP(P, u, b, i): return BWP(P(u), b, i, zero, zero, W0)
def BT(P, u, b, i): return BWT(P(u), b, i, zero, zero, W0)
def pr(P, u, i): return pred(P(u)[1], DV(u, i), zero, zero, W0)
FTV = preds('no invalid sequence is met going forward in a valid text', ('C12', 'C08'), 'b e', lambda P, u, b, e: dom(b, e) + [ok(u, b, e)], lambda P, u, b, e: Not(FT(P, u, b, e)),
    lambda b, e: e - b, lambda pid, P, ih, u, b, e: [ih(b + DL(u, b, e), e)], closed=closed('BAD', 'FWT'))
BTV = preds('no invalid sequence is met going backward in a valid text', ('C12', 'C15', 'C08'), 'b e', lambda P, u, b, e: dom(b, e) + [ok(u, b, e)], lambda P, u, b, e: Not(BT(P, u, b, e)),
    lambda b, e: e - b, lambda pid, P, ih, u, b, e: [VLAST(u, b, e), ih(b, e - PL(u, b, e))], closed=closed('BWT'))
def bsub(P, u, b, e): i = b + DL(u, b, e); return Imp(z3.ULT(b, e), BP(P, u, b, e) == z3.If(BP(P, u, i, e) != NPOS, BP(P, u, i, e), z3.If(pr(P, u, b), b, NPOS)))
BSUB = preds('the last that satisfies, seen from the first', ('C12', 'C08'), 'b e', lambda P, u, b, e: dom(b, e) + [z3.ULT(b, e), ok(u, b, e)], bsub,
    lambda b, e: e - b, lambda pid, P, ih, u, b, e: [VLAST(u, b, e), ih(b, e - PL(u, b, e)), DLPRE(u, b, e - PL(u, b, e), e), PLSUB(u, b, b + DL(u, b, e), e), PLMAX(u, b, e, DL(u, b, e)), VLAST(u, b + DL(u, b, e), e), PLMAX(u, b, e, PL(u, b + DL(u, b, e), e)), PLMAX(u, b + DL(u, b, e), e, PL(u, b + DL(u, b, e), e))], closed=closed('BAD', 'BWP'))
FB = preds('there is a last where there is a first', ('C12', 'C08'), 'b e', lambda P, u, b, e: dom(b, e) + [ok(u, b, e)], lambda P, u, b, e: And((FP(P, u, b, e) == NPOS) == (BP(P, u, b, e) == NPOS), Imp(FP(P, u, b, e) != NPOS, BP(P, u, b, e) == BP(P, u, FP(P, u, b, e), e))),
    lambda b, e: e - b, lambda pid, P, ih, u, b, e: [BSUB[pid](u, b, e), ih(b + DL(u, b, e), e)], closed=closed('BAD', 'FWP', 'BWP'))
# ---- characters (C08, C09) -----------------------------------------------------------------------------------------------------------------
NM = 'not MARK'; NMP = lambda u: (u[0], NM)
def ce(u, i, e): return NCE(u, i, e)
NCTV = law('no invalid sequence is met in a character of a valid text', ('C08',), 'c', 'i e', lambda u, i, e: dom(i, e) + [ok(u, i, e)], lambda u, i, e: And(Not(NCT(u, i, e)), Not(PCT(u, i, e))), None,
    lambda ih, u, i, e: [FTV[NM](u, i + DL(u, i, e), e), BTV[NM](u, i, e)], closed=closed('NCT', 'PCT', 'BAD'))
FPOK = law('a first non-mark starts a valid text', ('C08',), 'c', 'i e', lambda u, i, e: dom(i, e) + [ok(u, i, e), FP(NMP, u, i, e) != NPOS], lambda u, i, e: And(ok(u, FP(NMP, u, i, e), e), ok(u, i, FP(NMP, u, i, e))),
    lambda i, e: e - i, lambda ih, u, i, e: [ih(i + DL(u, i, e), e), DLPRE(u, i, FP(NMP, u, i, e), e)], closed=closed('BAD', 'FWP'))
CEOK = law('a character cuts a valid text in two', ('C08',), 'c', 'i e', lambda u, i, e: dom(i, e) + [ok(u, i, e)], lambda u, i, e: And(ok(u, ce(u, i, e), e), ok(u, i, ce(u, i, e))), None,
    lambda ih, u, i, e: [FPOK(u, i + DL(u, i, e), e), NCTV(u, i, e), DLPRE(u, i, FP(NMP, u, i + DL(u, i, e), e), e)], closed=closed('NCE', 'BAD'))
CHFWD = law('the last character, seen from the first', ('C08',), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e), ok(u, b, e)], lambda u, b, e: PCS_(u, b, e) == z3.If(ce(u, b, e) == e, b, PCS_(u, ce(u, b, e), e)), None,
    lambda ih, u, b, e: [NCTV(u, b, e), BSUB[NM](u, b, e), FB[NM](u, b + DL(u, b, e), e), VLAST(u, b, e)], closed=closed('NCE', 'PCS', 'BAD'))
LC = Fam('LC', I, BV64, lambda key, i, e: z3.If(And(z3.ULT(i, e), z3.ULT(i, NCE(key, i, e))), z3.If(NCE(key, i, e) == e, i, LC(key, NCE(key, i, e), e)), i), None, meas=lambda i, e: e - i)
CHLAST = law('the character that ends a text is the last of those going forward', ('C08',), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e), ok(u, b, e)], lambda u, b, e: PCS_(u, b, e) == LC(u, b, e),
    lambda b, e: e - b, lambda ih, u, b, e: [NCTV(u, b, e), CEOK(u, b, e), CHFWD(u, b, e), ih(ce(u, b, e), e)], closed=closed('LC'))
CSOK = law('the last character cuts a valid text in two', ('C08',), 'c', 'b e', lambda u, b, e: dom(b, e) + [ok(u, b, e)], lambda u, b, e: And(ok(u, b, PCS_(u, b, e)), ok(u, PCS_(u, b, e), e), Imp(z3.ULT(b, e), NCE(u, PCS_(u, b, e), e) == e)),
    lambda b, e: e - b, lambda ih, u, b, e: [NCTV(u, b, e), CEOK(u, b, e), CHFWD(u, b, e), ih(ce(u, b, e), e), OKCAT(u, b, ce(u, b, e), PCS_(u, ce(u, b, e), e)), NCTV(u, ce(u, b, e), e)], closed=closed('BAD'))
FPPRE = law('the first non-mark up to a position', ('C08',), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m, e), ok(u, i, e), ok(u, i, m)], lambda u, i, m, e: FP(NMP, u, i, m) == z3.If(z3.ULT(FP(NMP, u, i, e), m), FP(NMP, u, i, e), NPOS),
    lambda i, m, e: e - i, lambda ih, u, i, m, e: [DLMORE(u, i, m, e), ih(i + DL(u, i, m), m, e)], closed=closed('FWP', 'BAD'))
CEPRE = law('a character does not depend on what follows it', ('C08', 'C09'), 'c', 'i m e', lambda u, i, m, e: dom(i, e) + [NAT(i, m), NAT(m, e), ok(u, i, e), ok(u, i, m), NAT(ce(u, i, e), m)], lambda u, i, m, e: ce(u, i, m) == ce(u, i, e), None,
    lambda ih, u, i, m, e: [DLMORE(u, i, m, e), FPPRE(u, i + DL(u, i, m), m, e), NCTV(u, i, m), NCTV(u, i, e)], closed=closed('NCE', 'BAD'))
CPV = law('no invalid sequence is met counting characters in a valid text', ('C08', 'C09'), 'c', 'i e k', lambda u, i, e, k: dom(i, e) + [ok(u, i, e)], lambda u, i, e, k: And(Not(CPT(u, i, e, k)), Imp(CP(u, i, e, k) != NPOS, ok(u, CP(u, i, e, k), e)), Not(CCT(u, i, e))),
    lambda i, e, k: e - i, lambda ih, u, i, e, k: [NCTV(u, i, e), CEOK(u, i, e), ih(ce(u, i, e), e, k - one)], closed=closed('CPT', 'CP', 'CCT', 'BAD'))
CPBV = law('no invalid sequence is met counting characters backward in a valid text', ('C08', 'C09'), 'c', 'b i k', lambda u, b, i, k: dom(b, i) + [ok(u, b, i)], lambda u, b, i, k: And(Not(CPBT(u, b, i, k)), Imp(CPB(u, b, i, k) != NPOS, ok(u, b, CPB(u, b, i, k))), Not(REVT(u, b, i))),
    lambda b, i, k: i - b, lambda ih, u, b, i, k: [NCTV(u, b, i), CSOK(u, b, i), ih(b, PCS_(u, b, i), k - one)], closed=closed('CPBT', 'CPB', 'REVT', 'BAD'))
CPADD = law('k characters and then l characters', ('C08', 'C09'), 'c', 'i e k l', lambda u, i, e, k, l: dom(i, e) + [NAT(k, k + l), ok(u, i, e)],
    lambda u, i, e, k, l: CP(u, i, e, k + l) == z3.If(CP(u, i, e, k) == NPOS, NPOS, CP(u, CP(u, i, e, k), e, l)), lambda i, e, k, l: k, lambda ih, u, i, e, k, l: [NCTV(u, i, e), CEOK(u, i, e), ih(ce(u, i, e), e, k - one, l)], closed=closed('CP'))
CPBADD = law('k characters and then l characters backwards', ('C08', 'C09'), 'c', 'b i k l', lambda u, b, i, k, l: dom(b, i) + [NAT(k, k + l), ok(u, b, i)],
    lambda u, b, i, k, l: CPB(u, b, i, k + l) == z3.If(CPB(u, b, i, k) == NPOS, NPOS, CPB(u, b, CPB(u, b, i, k), l)), lambda b, i, k, l: k, lambda ih, u, b, i, k, l: [NCTV(u, b, i), CSOK(u, b, i), ih(b, PCS_(u, b, i), k - one, l)], closed=closed('CPB'))
PCSB = law('the last character, seen from the start of a character', ('C08', 'C09'), 'c', 'b e k', lambda u, b, e, k: dom(b, e) + [ok(u, b, e), CP(u, b, e, k) != NPOS, z3.ULT(CP(u, b, e, k), e)], lambda u, b, e, k: PCS_(u, b, e) == PCS_(u, CP(u, b, e, k), e),
    lambda b, e, k: k, lambda ih, u, b, e, k: [NCTV(u, b, e), CEOK(u, b, e), CHFWD(u, b, e), ih(ce(u, b, e), e, k - one)], closed=closed('CP'))
CPPRE = law('counting characters up to a position', ('C08', 'C09'), 'c', 'i m e k', lambda u, i, m, e, k: dom(i, e) + [NAT(i, m), NAT(m, e), ok(u, i, e), ok(u, i, m), CP(u, i, e, k) != NPOS, NAT(CP(u, i, e, k), m)], lambda u, i, m, e, k: CP(u, i, m, k) == CP(u, i, e, k),
    lambda i, m, e, k: k, lambda ih, u, i, m, e, k: [NCTV(u, i, e), NCTV(u, i, m), CEPRE(u, i, m, e), CEOK(u, i, e), CEOK(u, i, m), CPV(u, ce(u, i, e), e, k - one), ih(ce(u, i, e), m, e, k - one)], closed=closed('CP'))
CPBB = law('counting characters backwards from a start of a character', ('C09',), 'c', 'b e k l', lambda u, b, e, k, l: dom(b, e) + [ok(u, b, e), CP(u, b, e, k) != NPOS],
    lambda u, b, e, k, l: CPB(u, CP(u, b, e, k), e, l) == z3.If(Or(CPB(u, b, e, l) == NPOS, z3.ULT(CPB(u, b, e, l), CP(u, b, e, k))), NPOS, CPB(u, b, e, l)),
    lambda b, e, k, l: l, lambda ih, u, b, e, k, l: [NCTV(u, b, e), CPV(u, b, e, k), NCTV(u, CP(u, b, e, k), e), CSOK(u, b, e), PCSB(u, b, e, k), CPPRE(u, b, PCS_(u, b, e), e, k), ih(b, PCS_(u, b, e), k, l - one)], closed=closed('CPB'))
CPCNT = law('there are as many characters as counted', ('C08',), 'c', 'i e k', lambda u, i, e, k: dom(i, e) + [ok(u, i, e)], lambda u, i, e, k: And((CP(u, i, e, k) == NPOS) == z3.ULT(CC(u, i, e), k), Imp(k == CC(u, i, e), CP(u, i, e, k) == e), NAT(CC(u, i, e), e - i)),
    lambda i, e, k: e - i, lambda ih, u, i, e, k: [NCTV(u, i, e), CEOK(u, i, e), ih(ce(u, i, e), e, k - one)], closed=closed('CP', 'CC'))
CCSP = law('one character less without the last', ('C08',), 'c', 'b e', lambda u, b, e: dom(b, e) + [z3.ULT(b, e), ok(u, b, e)], lambda u, b, e: CC(u, b, e) == CC(u, b, PCS_(u, b, e)) + one,
    lambda b, e: e - b, lambda ih, u, b, e: [NCTV(u, b, e), CEOK(u, b, e), CSOK(u, b, e), NCTV(u, b, PCS_(u, b, e)), CHFWD(u, b, e), CEPRE(u, b, PCS_(u, b, e), e), ih(ce(u, b, e), e)], closed=closed('CC'), depth=2)
CPP2 = law('counting characters in the text without its last', ('C08',), 'c', 'b e k', lambda u, b, e, k: dom(b, e) + [z3.ULT(b, e), ok(u, b, e), CP(u, b, PCS_(u, b, e), k) != NPOS], lambda u, b, e, k: CP(u, b, e, k) == CP(u, b, PCS_(u, b, e), k),
    lambda b, e, k: k, lambda ih, u, b, e, k: [NCTV(u, b, e), CEOK(u, b, e), CSOK(u, b, e), NCTV(u, b, PCS_(u, b, e)), CHFWD(u, b, e), CEPRE(u, b, PCS_(u, b, e), e), ih(ce(u, b, e), e, k - one)], closed=closed('CP'))
CPBCNT = law('counting characters backwards is counting forwards from the other end', ('C08',), 'c', 'b e k', lambda u, b, e, k: dom(b, e) + [ok(u, b, e)], lambda u, b, e, k: CPB(u, b, e, k) == z3.If(NAT(k, CC(u, b, e)), CP(u, b, e, CC(u, b, e) - k), NPOS),
    lambda b, e, k: k, lambda ih, u, b, e, k: [NCTV(u, b, e), CSOK(u, b, e), ih(b, PCS_(u, b, e), k - one), CCSP(u, b, e), CPP2(u, b, e, CC(u, b, e) - k), CPCNT(u, b, e, CC(u, b, e)), CPCNT(u, b, PCS_(u, b, e), CC(u, b, e) - k)], closed=closed('CPB', 'CC'))
def chpos(u, b, e, x): f = z3.If(x < zero, CPB(u, b, e, zero - x), CP(u, b, e, x)); return z3.If(f == NPOS, z3.If(x < zero, b, e), f)
def chslice(u, b, e, s, t):
    from types import SimpleNamespace as N
    o, n, bad = zero, zero, FALSE
    for c, r in reversed(contracts.slices(N(str=N(uid=u, B=b, E=e), start=s, end=t), contracts.capch, contracts.capcht, lambda o, n: (o, n))):
        if isinstance(r, tuple): o, n, bad = z3.If(c, r[0], o), z3.If(c, r[1], n), And(Not(c), bad)
        else: bad = Or(c, bad)
    return o, n, bad
def chslice_concl(u, b, e, s, t):
    o, n, bad = chslice(u, b, e, s, t); p, q = chpos(u, b, e, s), chpos(u, b, e, t)
    return And(Not(bad), n == z3.If(z3.ULT(p, q), q - p, zero), Imp(n != zero, b + o == p))
def chslice_use(ih, u, b, e, s, t):
    p, q = contracts.capch(u, b, e, s) + b, contracts.capch(u, b, e, t) + b
    return [CPADD(u, b, e, s, t - s), CPADD(u, b, e, t, s - t), CPBADD(u, b, e, zero - t, t - s), CPBADD(u, b, e, zero - s, s - t), CPBB(u, b, e, s, zero - t),
        CPV(u, b, e, s), CPV(u, b, e, t), CPBV(u, b, e, zero - s), CPBV(u, b, e, zero - t), CPV(u, p, e, t - s), CPBV(u, b, q, t - s), CPBV(u, p, e, zero - t)]
CHSLICE = law('a slice of characters is what lies between its two positions', ('C09',), 'c', 'b e s t', lambda u, b, e, s, t: dom(b, e) + [ok(u, b, e)], chslice_concl, None, chslice_use, closed=closed('CP', 'CPB', 'CPT', 'CPBT', 'BAD'))
# ---- case-insensitive comparison (C16) --------------------------------------------------------------------------------------------------
def swapped(u): return (u[1], u[0])
CMSWAP = law('comparing the other way round', ('C16',), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f),
    lambda u, i, e, j, f: And(CMT(u, i, e, j, f) == CMT(swapped(u), j, f, i, e), CMP(u, i, e, j, f) == Z32 - CMP(swapped(u), j, f, i, e), (CMP(u, i, e, j, f) < Z32) == (Z32 < CMP(swapped(u), j, f, i, e))),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + DL((u[0],), i, e), e, j + DL((u[1],), j, f), f)], closed=closed('CMT', 'CMP'))
# EQU: the code points of the two are the same in upper case, one by one
EQU = Fam('EQU', P4, BOOL, lambda key, i, e, j, f: z3.If(And(z3.ULT(i, e), z3.ULT(j, f)), And(upat(key[0], i) == upat(key[1], j), DL((key[0],), i, e) != zero, DL((key[1],), j, f) != zero, EQU(key, i + DL((key[0],), i, e), e, j + DL((key[1],), j, f), f)), And(i == e, j == f)), None, meas=lambda i, e, j, f: e - i)
EQU.keykinds = ('c', 'c')
CMEQ = law('two texts compare equal exactly if their code points do', ('C16',), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [ok((u[0],), i, e), ok((u[1],), j, f)],
    lambda u, i, e, j, f: And(Not(CMT(u, i, e, j, f)), (CMP(u, i, e, j, f) == Z32) == EQU(u, i, e, j, f)),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + DL((u[0],), i, e), e, j + DL((u[1],), j, f), f)], closed=closed('CMT', 'CMP', 'BAD', 'EQU'))
CMTR = law('the order is transitive', ('C16',), ('c', 'c', 'c'), 'i e j f k g', lambda u, i, e, j, f, k, g: dom(i, e) + dom(j, f) + dom(k, g) + [ok((u[0],), i, e), ok((u[1],), j, f), ok((u[2],), k, g), CMP((u[0], u[1]), i, e, j, f) <= Z32, CMP((u[1], u[2]), j, f, k, g) <= Z32],
    lambda u, i, e, j, f, k, g: And(CMP((u[0], u[2]), i, e, k, g) <= Z32, (CMP((u[0], u[2]), i, e, k, g) == Z32) == And(CMP((u[0], u[1]), i, e, j, f) == Z32, CMP((u[1], u[2]), j, f, k, g) == Z32)),
    lambda i, e, j, f, k, g: e - i, lambda ih, u, i, e, j, f, k, g: [ih(i + DL((u[0],), i, e), e, j + DL((u[1],), j, f), f, k + DL((u[2],), k, g), g)], closed=closed('CMP', 'BAD'))
# ---- case-insensitive prefixes, suffixes and search (C16, C17), all from EQU --------------------------------------------------------------------
def d0(u, i, e): return DL((u[0],), i, e)
def d1(u, j, f): return DL((u[1],), j, f)
def fst(u): return (u[0],)
def snd(u): return (u[1],)
NMV = law('no invalid sequence is met comparing valid texts', ('C16', 'C17'), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [ok(fst(u), i, e), ok(snd(u), j, f)], lambda u, i, e, j, f: Not(NMT(u, i, e, j, f)),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + d0(u, i, e), e, j + d1(u, j, f), f)], closed=closed('NMT', 'BAD'))
PREF = law('a prefix that is found is equal', ('C16', 'C17'), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [ok(fst(u), i, e), ok(snd(u), j, f), NM2(u, i, e, j, f) == f], lambda u, i, e, j, f: EQU(u, i, NM1(u, i, e, j, f), j, f),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + d0(u, i, e), e, j + d1(u, j, f), f), DLPRE(fst(u), i, NM1(u, i, e, j, f), e)], closed=closed('NM1', 'NM2', 'EQU', 'BAD'))
PREFC = law('a prefix that is equal is found', ('C16', 'C17'), ('c', 'c'), 'i k e j f', lambda u, i, k, e, j, f: dom(i, e) + dom(j, f) + [NAT(i, k), NAT(k, e), EQU(u, i, k, j, f)], lambda u, i, k, e, j, f: And(NM2(u, i, e, j, f) == f, NM1(u, i, e, j, f) == k),
    lambda i, k, e, j, f: k - i, lambda ih, u, i, k, e, j, f: [ih(i + d0(u, i, k), k, e, j + d1(u, j, f), f), DLMORE(fst(u), i, k, e)], closed=closed('NM1', 'NM2', 'EQU'))
EQUAPP = law('one more equal code point', ('C16', 'C17'), ('c', 'c'), 'i m e j n f', lambda u, i, m, e, j, n, f: dom(i, e) + dom(j, f) + [NAT(i, m), z3.ULT(m, e), NAT(j, n), z3.ULT(n, f), d0(u, m, e) == e - m, d1(u, n, f) == f - n, upat(u[0], m) == upat(u[1], n), EQU(u, i, m, j, n)],
    lambda u, i, m, e, j, n, f: EQU(u, i, e, j, f), lambda i, m, e, j, n, f: m - i, lambda ih, u, i, m, e, j, n, f: [ih(i + d0(u, i, m), m, e, j + d1(u, j, n), n, f), DLMORE(fst(u), i, m, e), DLMORE(snd(u), j, n, f)], closed=closed('EQU'), depth=2)
EQUOK = law('texts that are equal are valid', ('C16', 'C17'), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [EQU(u, i, e, j, f)], lambda u, i, e, j, f: And(ok(fst(u), i, e), ok(snd(u), j, f), (i == e) == (j == f)),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + d0(u, i, e), e, j + d1(u, j, f), f)], closed=closed('EQU', 'BAD'))
def p0(u, i, e): return PL((u[0],), i, e)
def p1(u, j, f): return PL((u[1],), j, f)
def equlast(ih, u, i, e, j, f):
    a, b = i + d0(u, i, e), j + d1(u, j, f); x, y = e - p0(u, i, e), f - p1(u, j, f)
    return [ih(a, e, b, f), EQUOK(u, i, e, j, f), EQUOK(u, a, e, b, f), VLAST(fst(u), i, e), VLAST(snd(u), j, f), VLAST(fst(u), a, e), VLAST(snd(u), b, f), PLSUB(fst(u), i, a, e), PLSUB(snd(u), j, b, f), PLMAX(fst(u), i, e, e - i), PLMAX(snd(u), j, f, f - j),
        PLMAX(fst(u), i, e, p0(u, a, e)), PLMAX(fst(u), a, e, p0(u, a, e)), PLMAX(snd(u), j, f, p1(u, b, f)), PLMAX(snd(u), b, f, p1(u, b, f)), DLPRE(fst(u), i, x, e), DLPRE(snd(u), j, y, f)]
EQULAST = law('the last code points of equal texts', ('C16', 'C17'), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [EQU(u, i, e, j, f), z3.ULT(i, e)],
    lambda u, i, e, j, f: And(p0(u, i, e) != zero, p1(u, j, f) != zero, upat(u[0], e - p0(u, i, e)) == upat(u[1], f - p1(u, j, f)), EQU(u, i, e - p0(u, i, e), j, f - p1(u, j, f))), lambda i, e, j, f: e - i, equlast, closed=closed('EQU'), depth=2)
PMV = law('no invalid sequence is met comparing valid texts backward', ('C16', 'C17'), ('c', 'c'), 'b i d j', lambda u, b, i, d, j: dom(b, i) + dom(d, j) + [ok(fst(u), b, i), ok(snd(u), d, j)], lambda u, b, i, d, j: Not(PMT(u, b, i, d, j)),
    lambda b, i, d, j: i - b, lambda ih, u, b, i, d, j: [VLAST(fst(u), b, i), VLAST(snd(u), d, j), ih(b, i - p0(u, b, i), d, j - p1(u, d, j))], closed=closed('PMT', 'BAD'))
SUFF = law('a suffix that is found is equal', ('C16', 'C17'), ('c', 'c'), 'b i d j', lambda u, b, i, d, j: dom(b, i) + dom(d, j) + [ok(fst(u), b, i), ok(snd(u), d, j), PM2(u, b, i, d, j) == d], lambda u, b, i, d, j: EQU(u, PM1(u, b, i, d, j), i, d, j),
    lambda b, i, d, j: i - b, lambda ih, u, b, i, d, j: [VLAST(fst(u), b, i), VLAST(snd(u), d, j), ih(b, i - p0(u, b, i), d, j - p1(u, d, j)), EQUAPP(u, PM1(u, b, i, d, j), i - p0(u, b, i), i, d, j - p1(u, d, j), j)], closed=closed('PM1', 'PM2', 'EQU', 'BAD'))
SUFFC = law('a suffix that is equal is found', ('C16', 'C17'), ('c', 'c'), 's b i d j', lambda u, s, b, i, d, j: dom(b, i) + dom(d, j) + [NAT(b, s), NAT(s, i), EQU(u, s, i, d, j)], lambda u, s, b, i, d, j: And(PM2(u, b, i, d, j) == d, PM1(u, b, i, d, j) == s),
    lambda s, b, i, d, j: i - s, lambda ih, u, s, b, i, d, j: [EQULAST(u, s, i, d, j), PLSUB(fst(u), b, s, i), PLMAX(fst(u), b, i, p0(u, s, i)), PLMAX(fst(u), s, i, p0(u, s, i)), ih(s, b, i - p0(u, s, i), d, j - p1(u, d, j))], closed=closed('PM1', 'PM2', 'EQU'))
# the search: CFP is the first code point where the pattern stands; CBP the last where it ends
def stands(u, i, e, j, f): return NM2(u, i, e, j, f) == f
CFLEFT = law('case-insensitive search finds the leftmost occurrence', ('C17',), ('c', 'c'), 'i e j f', lambda u, i, e, j, f: dom(i, e) + dom(j, f) + [ok(fst(u), i, e), ok(snd(u), j, f), z3.ULT(j, f)],
    lambda u, i, e, j, f: And(Not(CFT(u, i, e, j, f)), CFP(u, i, e, j, f) == z3.If(z3.ULT(i, e), z3.If(stands(u, i, e, j, f), i, CFP(u, i + d0(u, i, e), e, j, f)), NPOS), Imp(And(z3.ULT(i, e), stands(u, i, e, j, f)), contracts.cfend(u, i, e, j, f) == NM1(u, i, e, j, f))),
    lambda i, e, j, f: e - i, lambda ih, u, i, e, j, f: [ih(i + d0(u, i, e), e, j, f), NMV(u, i + d0(u, i, e), e, j + d1(u, j, f), f)], closed=closed('CFT', 'CFP', 'NM1', 'NM2', 'BAD'), depth=2)
CBRIGHT = law('case-insensitive search backward finds the rightmost occurrence', ('C17',), ('c', 'c'), 'b i d j', lambda u, b, i, d, j: dom(b, i) + dom(d, j) + [ok(fst(u), b, i), ok(snd(u), d, j), z3.ULT(d, j)],
    lambda u, b, i, d, j: And(Not(CBT(u, b, i, d, j)), CBP(u, b, i, d, j) == z3.If(z3.ULT(b, i), z3.If(PM2(u, b, i, d, j) == d, i, CBP(u, b, i - p0(u, b, i), d, j)), NPOS), Imp(And(z3.ULT(b, i), PM2(u, b, i, d, j) == d), contracts.cbbeg(u, b, i, d, j) == PM1(u, b, i, d, j))),
    lambda b, i, d, j: i - b, lambda ih, u, b, i, d, j: [VLAST(fst(u), b, i), VLAST(snd(u), d, j), ih(b, i - p0(u, b, i), d, j), PMV(u, b, i - p0(u, b, i), d, j - p1(u, d, j))], closed=closed('CBT', 'CBP', 'PM1', 'PM2', 'BAD'), depth=2)
# ---- leftmost and rightmost (C11, C12) ---------------------------------------------------------------------------------------------------------
SFLEFT = law('nothing occurs before the leftmost occurrence', ('C11', 'C13'), ('c', 'c'), 'i e m p n', lambda u, i, e, m, p, n: dom(i, e) + dom(p, LIM) + [NAT(n, LIM), NAT(i, m), NAT(m, e), NAT(n, e - m), EQL(u, m, p, n)], lambda u, i, e, m, p, n: And(NAT(SF(u, i, e, p, n), m), Imp(n != zero, SF(u, i, e, p, n) != e)),
    lambda i, e, m, p, n: e - i, lambda ih, u, i, e, m, p, n: [ih(i + one, e, m, p, n)], closed=closed('SF'))
SLRIGHT = law('nothing occurs after the rightmost occurrence', ('C11', 'C13'), ('c', 'c'), 'b i m p n', lambda u, b, i, m, p, n: dom(b, i) + dom(p, LIM) + [NAT(n, LIM), NAT(b, m), NAT(m, i), EQL(u, m, p, n)], lambda u, b, i, m, p, n: And(SLB(u, b, i, p, n) != NPOS, NAT(m, SLB(u, b, i, p, n))),
    lambda b, i, m, p, n: i - b, lambda ih, u, b, i, m, p, n: [ih(b, i - one, m, p, n)], closed=closed('SLB'))
EQLALL = law('equal ranges are equal at every place', ('C11',), ('c', 'c'), 'i j n k', lambda u, i, j, n, k: dom(i, LIM) + dom(j, LIM) + [NAT(n, LIM - i), NAT(n, LIM - j), z3.ULT(k, n), EQL(u, i, j, n)], lambda u, i, j, n, k: by(u[0], i + k) == by(u[1], j + k),
    lambda i, j, n, k: k, lambda ih, u, i, j, n, k: [ih(i + one, j + one, n - one, k - one)], closed=closed('EQL'))
# ---- texts built from encodings, read back (C05, C06, C19, C21, C22) --------------------------------------------------------------------------
def isenc(w, j, n, c):
    """the bytes of w at j (before n) are the encoding of c"""
    L = enclen(c); return And(NAT(L, n - j), *[Imp(L == k64(m), And(*[by(w, j + k64(k)) == b for k, b in enumerate(encbytes(c, m))])) for m in (1, 2, 3, 4)])
def iscopy(w, j, n, u, i, L):
    """the bytes of w at j are those of u at i, L of them (no more than 4)"""
    return And(NAT(L, n - j), *[Imp(z3.ULT(k64(k), L), by(w, j + k64(k)) == by(u, i + k64(k))) for k in range(4)])
ENCDL = law('an encoding decodes to its value', ('C01', 'C05'), 'c', 'j n cv', lambda w, j, n, c: dom(j, n) + [enclen(c) != zero, isenc(w[0], j, n, c)], lambda w, j, n, c: And(DL(w, j, n) == enclen(c), DV(w, j) == c), None, None, closed=closed('DL', 'DV'))
COPYDL = law('a copy decodes like the original', ('C06',), ('c', 'c'), 'j n i e', lambda w, j, n, i, e: dom(j, n) + dom(i, e) + [DL((w[1],), i, e) != zero, iscopy(w[0], j, n, w[1], i, DL((w[1],), i, e))],
    lambda w, j, n, i, e: And(DL((w[0],), j, n) == DL((w[1],), i, e), DV((w[0],), j) == DV((w[1],), i)), None, None, closed=closed('DL', 'DV'))
# IFU: the bytes of w in [j,n) are what from_utf32 is specified to make of the UTF-32 text [i,e) (FU, read piece by piece)
IFU = Fam('IFU', P4, BOOL, lambda key, i, e, j, n: z3.If(z3.ULT(i, e), And(isenc(key[1], j, n, by(key[0], i)), IFU(key, i + one, e, j + enclen(by(key[0], i)), n)), j == n), None, meas=lambda i, e, j, n: e - i)
IFU.keykinds = ('c4', 'c')
# ALL10: every value is at most U+10FFFF
ALL10 = Fam('ALL10', I, BOOL, lambda key, i, e: Imp(z3.ULT(i, e), And(z3.ULE(by(key[0], i), K(0x10FFFF, 32)), ALL10(key, i + one, e))), None, meas=lambda i, e: e - i)
ALL10.keykinds = ('c4',)
def samet(t): return t == t
ROUND = law('UTF-32 text survives the round trip', ('C05',), ('c4', 'c'), 'i e j n', lambda u, i, e, j, n: dom(i, e) + dom(j, n) + [IFU(u, i, e, j, n), ALL10((u[0],), i, e)],
    lambda u, i, e, j, n: And(ok((u[1],), j, n), U32((u[1],), j, n) == sl(u[0], i, e)), lambda i, e, j, n: e - i,
    lambda ih, u, i, e, j, n: [ENCDL((u[1],), j, n, by(u[0], i)), ih(i + one, e, j + enclen(by(u[0], i)), n), samet(CAT(sl(u[0], i, i + one), sl(u[0], i + one, e)))], closed=closed('IFU', 'ALL10', 'BAD', 'U32'), bytes=True)
# IRI: the bytes of w in [j,n) are the repaired text [i,e) (RI, read piece by piece)
IRI = Fam('IRI', (BV64, BV64, BV64, BV64, BV32), BOOL, lambda key, i, e, j, n, c: z3.If(z3.ULT(i, e), z3.If(DL((key[0],), i, e) == zero, And(isenc(key[1], j, n, c), IRI(key, i + SK((key[0],), i, e), e, j + enclen(c), n, c)),
    And(iscopy(key[1], j, n, key[0], i, DL((key[0],), i, e)), IRI(key, i + DL((key[0],), i, e), e, j + DL((key[0],), i, e), n, c))), j == n), None, meas=lambda i, e, j, n, c: e - i)
IRI.keykinds = ('c', 'c')
RIOK = law('repaired text is valid', ('C06',), ('c', 'c'), 'i e j n cv', lambda u, i, e, j, n, c: dom(i, e) + dom(j, n) + [IRI(u, i, e, j, n, c)], lambda u, i, e, j, n, c: ok((u[1],), j, n), lambda i, e, j, n, c: e - i,
    lambda ih, u, i, e, j, n, c: [ENCDL((u[1],), j, n, c), COPYDL(swapped(u), j, n, i, e), ih(i + SK((u[0],), i, e), e, j + enclen(c), n, c), ih(i + DL((u[0],), i, e), e, j + DL((u[0],), i, e), n, c)], closed=closed('IRI', 'BAD'))
# ---- composition (C22) ---------------------------------------------------------------------------------------------------------------------------
# DD(i,e): the code points of a text, fully decomposed
DD = Fam('DD', I, SEQ, lambda key, i, e: z3.If(And(z3.ULT(i, e), DL(key, i, e) != zero), cat(DEC('', DV(key, i)), DD(key, i + DL(key, i, e), e)), EMPTY), None, meas=lambda i, e: e - i)
# ITC: the bytes of w in [j,n) are what TC, the definition of the composed text, gives (read piece by piece)
def itc_unfold(key, i, e, f, c, b, j, n):
    u, w = (key[0],), key[1]; L = DL(u, i, e); m = DV(u, i); k = COMP('', c, m); p = z3.If(b, enclen(c), i - f); here = z3.If(b, isenc(w, j, n, c), iscopy(w, j, n, key[0], f, i - f))
    return z3.If(And(z3.ULT(i, e), L != zero), z3.If(k != Z32, ITC(key, i + L, e, zero, k, TRUE, j, n), And(here, ITC(key, i + L, e, i, m, FALSE, j + p, n))), And(here, j + p == n))
ITC = Fam('ITC', (BV64, BV64, BV64, BV32, BOOL, BV64, BV64), BOOL, itc_unfold, None, meas=lambda i, e, f, c, b, j, n: e - i)
ITC.keykinds = ('c', 'c')
def itc_use(ih, u, i, e, f, c, b, j, n):
    U, w = (u[0],), (u[1],); L = DL(U, i, e); m = DV(U, i); k = COMP('', c, m); p = z3.If(b, enclen(c), i - f); D = lambda c: DEC('', c); R = DD(U, i + L, e)
    return [ENCDL(w, j, n, c), COPYDL(swapped(u), j, n, f, i), ih(i + L, e, zero, k, TRUE, j, n), ih(i + L, e, i, m, FALSE, j + p, n), DLPRE(U, i, i + L, e), samet(CAT(D(k), R)), samet(CAT(D(c), CAT(CP32(m), R))), samet(D(m)), samet(CAT(D(c), CAT(D(m), R)))]
CANON = law('the composed text is canonically equivalent: it has the same full decomposition', ('C22',), ('c', 'c'), 'i e f cv ?b j n',
    lambda u, i, e, f, c, b, j, n: dom(i, e) + dom(j, n) + [ok((u[0],), i, e), z3.If(b, z3.ULE(c, K(0x10FFFF, 32)), And(z3.ULT(f, i), DL((u[0],), f, i) == i - f, DV((u[0],), f) == c)), ITC(u, i, e, f, c, b, j, n)],
    lambda u, i, e, f, c, b, j, n: And(ok((u[1],), j, n), DD((u[1],), j, n) == cat(DEC('', c), DD((u[0],), i, e))),
    lambda i, e, f, c, b, j, n: e - i, itc_use, closed=closed('ITC', 'DD', 'DEC', 'BAD', 'COMP', 'DS', 'DF'), depth=2, cases=lambda u, i, e, f, c, b, j, n: [Not(z3.ULT(i, e)), And(z3.ULT(i, e), COMP('', c, DV((u[0],), i)) == Z32), And(z3.ULT(i, e), COMP('', c, DV((u[0],), i)) != Z32)])
# ---- decomposition (C21) ---------------------------------------------------------------------------------------------------------------------------
# DENL(c): bytes of the encoded full decomposition; IDE: the bytes of w at j are that; ITD: those in [j,n) are the decomposed text (TD, read piece by piece)
DENL = Fam('DENL', (BV32,), BV64, lambda key, c: z3.If(DS('', c) == Z32, enclen(c), DENL('', DF('', c)) + enclen(DS('', c))), lambda key, app, c: [Imp(z3.ULE(c, K(0x10FFFF, 32)), And(z3.ULE(DN('', c), app), z3.ULE(app, k64(4) * DN('', c))))], meas=lambda c: DN('', c))
IDE = Fam('IDE', (BV64, BV64, BV32), BOOL, lambda key, j, n, c: z3.If(DS('', c) == Z32, isenc(key[0], j, n, c), And(IDE(key, j, n, DF('', c)), NAT(DENL('', DF('', c)), n - j), isenc(key[0], j + DENL('', DF('', c)), n, DS('', c)))), None, meas=lambda j, n, c: DN('', c))
IDE.keykinds = ('c',)
DENU = law('an encoded decomposition decodes to the decomposition', ('C21',), 'c', 'j n cv', lambda w, j, n, c: dom(j, n) + [z3.ULE(c, K(0x10FFFF, 32)), IDE(w, j, n, c)],
    lambda w, j, n, c: And(NAT(DENL('', c), n - j), U32(w, j, n) == cat(DEC('', c), U32(w, j + DENL('', c), n)), BAD(w, j, n) == BAD(w, j + DENL('', c), n)), lambda j, n, c: DN('', c),
    lambda ih, w, j, n, c: [ih(j, n, DF('', c)), ENCDL(w, j, n, c), ENCDL(w, j + DENL('', DF('', c)), n, DS('', c)), samet(CAT(DEC('', DF('', c)), CAT(CP32(DS('', c)), U32(w, j + DENL('', c), n)))), samet(CAT(DEC('', c), U32(w, j + DENL('', c), n)))], closed=closed('IDE', 'DENL', 'DEC', 'U32', 'BAD', 'DN', 'DS', 'DF'), depth=2)
def itd_unfold(key, i, e, j, n):
    u, w = (key[0],), (key[1],); L = DL(u, i, e); c = DV(u, i)
    return z3.If(And(z3.ULT(i, e), L != zero), z3.If(DS('', c) == Z32, And(iscopy(key[1], j, n, key[0], i, L), ITD(key, i + L, e, j + L, n)), And(IDE(w, j, n, c), NAT(DENL('', c), n - j), ITD(key, i + L, e, j + DENL('', c), n))), j == n)
ITD = Fam('ITD', P4, BOOL, itd_unfold, None, meas=lambda i, e, j, n: e - i); ITD.keykinds = ('c', 'c')
def itd_use(ih, u, i, e, j, n):
    U, w = (u[0],), (u[1],); L = DL(U, i, e); c = DV(U, i)
    return [COPYDL(swapped(u), j, n, i, e), DENU(w, j, n, c), ih(i + L, e, j + L, n), ih(i + L, e, j + DENL('', c), n)]
DECOMP = law('the decomposed text has the full decompositions as its code points', ('C21',), ('c', 'c'), 'i e j n', lambda u, i, e, j, n: dom(i, e) + dom(j, n) + [ok((u[0],), i, e), ITD(u, i, e, j, n)],
    lambda u, i, e, j, n: And(ok((u[1],), j, n), U32((u[1],), j, n) == DD((u[0],), i, e)), lambda i, e, j, n: e - i, itd_use, closed=closed('ITD', 'DD', 'DEC', 'BAD', 'U32', 'DS', 'DF'), depth=2,
    cases=lambda u, i, e, j, n: [Not(z3.ULT(i, e)), And(z3.ULT(i, e), DS('', DV((u[0],), i)) == Z32), And(z3.ULT(i, e), DS('', DV((u[0],), i)) != Z32)])

# ---- instances of laws that the proof of a function may take (when it is not accepted without them) -------------------------------------------
CPADDX = law('k characters and then l characters, valid or not', ('C09',), 'c', 'i e k l', lambda u, i, e, k, l: dom(i, e) + [NAT(k, k + l)],
    lambda u, i, e, k, l: And(CP(u, i, e, k + l) == z3.If(CP(u, i, e, k) == NPOS, NPOS, CP(u, CP(u, i, e, k), e, l)), CPT(u, i, e, k + l) == Or(CPT(u, i, e, k), And(CP(u, i, e, k) != NPOS, CPT(u, CP(u, i, e, k), e, l)))),
    lambda i, e, k, l: k, lambda ih, u, i, e, k, l: [ih(ce(u, i, e), e, k - one, l)], closed=closed('CP', 'CPT'))
CPBADDX = law('k characters and then l characters backwards, valid or not', ('C09',), 'c', 'b i k l', lambda u, b, i, k, l: dom(b, i) + [NAT(k, k + l)],
    lambda u, b, i, k, l: And(CPB(u, b, i, k + l) == z3.If(CPB(u, b, i, k) == NPOS, NPOS, CPB(u, b, CPB(u, b, i, k), l)), CPBT(u, b, i, k + l) == Or(CPBT(u, b, i, k), And(CPB(u, b, i, k) != NPOS, CPBT(u, b, CPB(u, b, i, k), l)))),
    lambda b, i, k, l: k, lambda ih, u, b, i, k, l: [ih(b, PCS_(u, b, i), k - one, l)], closed=closed('CPB', 'CPBT'))
def hints(sig, f):
    c, = [c for c in contracts.C if c.sig == sig]; c.hints = f
def slice_hints(a):
    u, b, e, s, t = a.str.uid, a.str.B, a.str.E, a.start, a.end
    return SLICE.use(None, u, b, e, s, t) + [SLICE(u, b, e, s, t)]
def chslice_hints(a):
    u, b, e, s, t = a.str.uid, a.str.B, a.str.E, a.start, a.end
    return [CPADDX(u, b, e, s, t - s), CPADDX(u, b, e, t, s - t), CPBADDX(u, b, e, zero - t, t - s), CPBADDX(u, b, e, zero - s, s - t)]
for n, h in (('codepoint', slice_hints), ('char', chslice_hints)):
    for k in ('_range', ''): hints('ystring::get_%s_substring%s(sv, long, long)' % (n, k), h)

# laws that a proof of the code takes for every application of a function
SFSKIP = law('searching goes on at the next place where the first byte is', (), ('c', 'c'), 'i e p n', lambda u, i, e, p, n: dom(i, e) + dom(p, LIM) + [NAT(n, LIM), n != zero], lambda u, i, e, p, n: SF(u, i, e, p, n) == SF(u, FIND(u[:1], i, e, z3.ZeroExt(24, by(u[1], p))), e, p, n),
    lambda i, e, p, n: e - i, lambda ih, u, i, e, p, n: [ih(i + one, e, p, n)], closed=closed('SF', 'FIND', 'EQL'))
def uses(sig, fam, f, *names):
    c, = [c for c in contracts.C if c.sig == sig]; c.uses = {**c.uses, fam: f}; c.laws += [n.name for n in names]
uses('std::search<char const*, char const*>(char const*, char const*, char const*, char const*)', 'SF', lambda u, i, e, p, n: [SFSKIP(u, i, e, p, n)], SFSKIP)
def ejforms(u, p, e):
    b = by(u[0], p); dig = lambda n: z3.If(z3.ULT(n, K(10, 8)), n + K(48, 8), n + K(55, 8)); rest = [('t', EJ(u, p + one, e))]
    return [seq([('byte', v) for v in (92, 117, 48, 48, dig(z3.LShR(b, 4)), dig(b & K(15, 8)))] + rest)] + [seq([('byte', 92), ('byte', ord(v))] + rest) for v in 'bfnrt"\\']
EJBYTE = law('JSON text goes byte by byte', ('C23',), 'c', 'i e', lambda u, i, e: dom(i, e) + [z3.ULT(i, e), Not(lib.escapable(by(u[0], i)))], lambda u, i, e: EJ(u, i, e) == seq([('byte', by(u[0], i)), ('t', EJ(u, i + one, e))]),
    None, lambda ih, u, i, e: (lambda p: [samet(CAT(sl(u[0], i, i + one), sl(u[0], i + one, p)))] + [samet(CAT(sl(u[0], i, i + one), CAT(sl(u[0], i + one, p), r))) for r in ejforms(u, p, e)])(ESCP(u, i + one, e)), closed=closed('EJ', 'ESCP'), bytes=True)
uses('ystring::escape_json(sv)', 'EJ', lambda u, i, e: [EJBYTE(u, i, e)], EJBYTE)

for F, what, sig in ((lib.ANYIN, 'in a range', 'contains'), (lib.CANYIN, 'in a range without regard to case', 'case_insensitive_contains')):
    q = law('what is %s behind is there as seen from before' % what, ('C26',), 'g', 'i j e c', lambda u, i, j, e, c, F=F: [z3.ULE(i, j), F(u, j, e, c)], lambda u, i, j, e, c, F=F: F(u, i, e, c),
        lambda i, j, e, c: j - i, lambda ih, u, i, j, e, c: [ih(u, i + one, j, e, c)], depth=2)
    uses('ystring::CodepointSet::%s(char32_t) const' % sig, F.name, lambda u, i, e, c, q=q: [q(u, zero, i, e, c), q(u, zero, i - one, e, c)], q)
