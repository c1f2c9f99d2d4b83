"""Lemma obligations: the facts that proofs use about the spec functions follow from their definitions
(by induction on the family's measure), the definitions are well-founded, and statements over the
contracts that a property needs."""
import time, z3
from spec import *
import sx
from sx import Exec, State, Fail, Budget, Unsupported
import contract

def fresh_content(name, es=1): return Content(es, name)
def mkkey(f):
    """a generic key: fresh contents for the content parts"""
    kk = getattr(f, 'keykinds', None)
    if kk is None:
        n = 1 + max([h[2] for h in f.holes if h[1] == 'pos'], default=0)
        kk = ('c',) * n
        if f.name in ('SLB', 'SF', 'EQL', 'MIS'): kk = ('c', 'c')
        if f.sorts and f.sorts[0] == BV32 and len(f.sorts) == 1: kk = ('',)
    return tuple(fresh_content('L' + f.name).uid if k == 'c' else fresh_content('L' + f.name, 4).uid if k == 'c4' else k for k in kk)

class Task:
    props = (); weight = 1
    def roots(s, prog): return []
    def res(s, x, t0, kind, error=None):
        r = contract.Result(); r.name = s.name; r.sig = s.sig; r.error = error; r.kind = kind
        r.nobl = x.nobl; r.ndis = x.ndis; r.fails = x.fails; r.time = time.time() - t0; r.stime = x.solver.time; r.used = set(); r.inlined = set()
        r.models = set(); r.cuts = []; r.kinds = dict(x.obkinds); r.solvercalls = x.solver.calls; r.steps = 0; r.byint = x.solver.byint; r.cover = [True]; r.fams = set(x.famused); r.trusted = set(); r.notes = []
        return r

class Facts(Task):
    def __init__(s, fam): s.fam = fam; s.name = s.sig = 'facts of ' + fam.name
    def run(s, prog, budget=120):
        f = s.fam; t0 = time.time()
        x = Exec(prog, s.name, 20000, f.ldepth); x.deadline = t0 + budget
        x.factlimit = f.idx
        Revealed.opaque = set(f.lopaque)
        err = None
        try:
            for lo, hi, v in (f.pieces() if f.pieces else ()):
                c = K(lo, 32) if lo == hi else z3.BitVec('c', 32); st = State()
                if lo != hi: x.add(st, z3.ULE(K(lo, 32), c), z3.ULE(c, K(hi, 32)))
                if f.ground: x.add(st, *f.ground(c, v))
                for i, q in enumerate(f.facts('', f.pf(c, v), c) + ([f.pf(c, v) == f.unfold('', c)] if f.unfold else [])): x.oblige(st, 'fact %d' % i, z3.simplify(zb(q)))
            if f.values:       # a table: the facts hold for each of its values
                cs = [z3.Const('c%d' % i, so) for i, so in enumerate(f.sorts)]
                for v, at, ground in f.values():      # value, the arguments that have it (None: all others), what earlier tables say
                    for i, q in enumerate(f.facts('', K(v, 32), *([K(a, 32) for a in at] if at else cs))): st = State(); x.add(st, *ground); x.oblige(st, 'fact %d' % i, z3.simplify(zb(q)))
            for keys in () if f.pieces or f.values else (f.lkeys() if f.lkeys else [mkkey(f)]):
                args = [z3.Const('%s.a%d' % (f.name, i), so) for i, so in enumerate(f.sorts)]
                app = f(keys, *args)
                st = State()
                if f.unfold:
                    d = f.unfold(keys, *args)
                    rec = [APPS[i] for i in apps_in(d) if APPS[i][0] is f]
                    # well-foundedness
                    for g, occ in guarded(d, f):
                        st2 = State()
                        x.add(st2, *g)
                        m0 = f.meas(*args); m1 = f.meas(*occ[2])
                        x.oblige(st2, 'well-founded definition', lexlt(m1, m0))
                    x.add(st, app == d)
                    for _, k2, a2, app2 in rec:
                        if f.near:
                            x.add(st, Imp(lexlt(f.meas(*a2), f.meas(*args)), And(*f.near(k2, app2, *a2))))
                        if f.facts:
                            x.add(st, Imp(lexlt(f.meas(*a2), f.meas(*args)), And(*f.facts(k2, app2, *a2))))
                if f.facts or f.near:
                    extra = f.lhyps(keys, *args) if f.lhyps else []
                    x.add(st, *extra)
                    for i, c in enumerate((f.facts(keys, app, *args) if f.facts else []) + (f.near(keys, app, *args) if f.near else [])): x.oblige(st.fork(), 'fact %d' % i, zb(c))
        except (Unsupported, Budget) as e: err = '%s: %s' % (type(e).__name__, e)
        return s.res(x, t0, 'lemma', err)
def lexlt(a, b):
    if isinstance(a, tuple):
        r = FALSE
        for p, q in reversed(list(zip(a, b))): r = Or(z3.ULT(p, q), And(p == q, r))
        return r
    return z3.ULT(a, b)
def guarded(e, f, g=()):
    """occurrences of family f in e with the if-then-else conditions that guard them"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        r = guarded(e.arg(0), f, g) + guarded(e.arg(1), f, g + (e.arg(0),)) + guarded(e.arg(2), f, g + (z3.Not(e.arg(0)),))
        return r
    out = []
    if e.get_id() in APPS and APPS[e.get_id()][0] is f: out.append((g, APPS[e.get_id()]))
    if not apps_in(e): return out
    if e.decl().kind() == z3.Z3_OP_AND:      # later conjuncts are guarded by the earlier ones
        gg = g
        for c in e.children(): out += guarded(c, f, gg); gg = gg + (c,)
        return out
    if e.decl().kind() == z3.Z3_OP_OR:
        gg = g
        for c in e.children(): out += guarded(c, f, gg); gg = gg + (z3.Not(c),)
        return out
    for c in e.children(): out += guarded(c, f, g)
    return out

class Lemma(Task):
    """stmt(x) -> list of (label, hypotheses, conclusion)"""
    def __init__(s, name, props, stmt, depth=2, opaque=(), limit=None, bytes=False):
        s.bytes = bytes
        s.name = s.sig = 'lemma ' + name; s.props = props; s.stmt = stmt; s.depth = depth; s.opaque = opaque; s.limit = limit
    def run(s, prog, budget=120):
        t0 = time.time(); x = Exec(prog, s.name, 20000, s.depth); x.deadline = t0 + budget
        Revealed.opaque = set(s.opaque); err = None; x.byteslices = s.bytes
        try:
            for lab, hyps, concl in s.stmt(x):
                st = State(); x.add(st, *hyps)
                if st.pc and not x.feasible(st, st.pc[-1]): x.nobl += 1; x.fails.append(Fail('the hypotheses contradict each other', lab, 'sat')); continue
                x.oblige(st, lab, zb(concl))
        except (Unsupported, Budget) as e: err = '%s: %s' % (type(e).__name__, e)
        return s.res(x, t0, 'lemma', err)
