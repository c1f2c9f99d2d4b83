"""Assumed behaviour of the C++ standard library operations whose own code is not executed
(std::basic_string, the searching algorithms that work on bytes, exceptions). Everything else of the
library (string_view, optional, pair, min, distance, iterators ...) is executed from its own IR."""
import re, z3
import ir
from spec import *
import sx
from sx import *
import lib

def install(s):
    from prog import NOTMINE
    def M(rx, proved=None):
        """proved: the name of the contract that the library's own code is verified against, and that this applies"""
        def deco(f): f.proved = proved; s.models.append((re.compile(rx), f)); return f
        return deco
    def esof(d): return 4 if 'string32' in d.split('(')[0] else 1
    def gs(x, st, p):
        v = x.load_n(st, p, 32)
        if isinstance(v, Undef): x.oblige(st, 'use of an unconstructed string', False); raise PathEnd()
        if isinstance(v, GBuf):
            ob = st.mem[v.o]
            for n in [ob.hi] if isinstance(ob.hi, int) else range(17):
                if n is ob.hi or x.valid(st, b64(ob.hi) == k64(n)): return GStr([('u32', x.scalar(x.load_n(st, Ptr(v.o, i), 4))) for i in range(n)], 4)
            raise Unsupported('string buffer of unknown size')
        if not isinstance(v, GStr): raise Unsupported('string value %r' % (v,))
        return v
    def put(x, st, p, v): x.store_n(st, p, 32, v)
    def done(x, st, v=None): return x.finish_call(st, v)
    s.h = dict(gs=gs, put=put)
    # ---- pieces of a byte / code point range
    def pieces(x, st, p, n):
        """pieces for n elements at pointer p (obligation: readable)"""
        if isinstance(n, int) and n == 0: return []
        if isinstance(p, Undef): x.oblige(st, 'use of an indeterminate pointer', False); raise PathEnd()
        if isinstance(p, Ptr) and p.o == 0:
            x.oblige(st, 'null dereference', b64(n) == k64(0)); return []
        if not isinstance(p, Ptr): raise Unsupported('pieces of %r' % (p,))
        ob = x.deref(st, p, 1, 'load')
        if isinstance(ob, Arr):
            if ob.w: raise Unsupported('copy from a written array')
            f = b64(p.f); e = simp(f + b64(n))
            x.oblige(st, 'range in bounds', And(z3.ULE(b64(ob.lo), f), z3.ULE(b64(n), b64(ob.hi) - f), z3.ULE(f, b64(ob.hi))))
            return [('sl', ob.c, p.f, e)]
        if isinstance(ob, Tab) or isinstance(ob, Cells):
            es = 1
            if isinstance(ob, Tab): es = ob.es
            if not isinstance(n, int):
                # a symbolic length up to the size of a small buffer: one case per length
                raise Unsupported('symbolic length copy from a local buffer')
            if not isinstance(p.f, int): raise Unsupported('symbolic offset')
            out = []
            for i in range(n):
                v = x.load_n(st, x.padd(st, p, i * es, []), es)
                if isinstance(v, Undef): x.oblige(st, 'use of an indeterminate value', False); raise PathEnd()
                out.append(('byte' if es == 1 else 'u32', x.scalar(v)))
            return out
        raise Unsupported('pieces')
    s.pieces = pieces
    def rng(x, st, a, b):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('range')
        if a.o != b.o: raise Unsupported('range of pointers to different objects')
        if isinstance(a.f, int) and isinstance(b.f, int): n = b.f - a.f
        else: n = simp(b64(b.f) - b64(a.f))
        if isinstance(n, int) and n < 0: n &= mask(64)
        return n
    def app(x, st, p, ps):
        v = gs(x, st, p); put(x, st, p, GStr(list(v.p) + ps, v.es))
    S = r'(?:^|[ &])(?:string|string32)::'
    # ---- a u32string made with a size is a buffer: its characters are written through data()
    def newbuf(x, st, o, f, n, ob=None):
        """its characters: those of ob, which it replaces, or any"""
        x.add(st, z3.ULE(b64(n), k64(1 << 59)))     # max_size()
        return GBuf(x.newobj(st, Arr(ob.c if ob else x.anycontent(4), 0, n, False, ob.w if ob else (), ('buffer', o, f))))
    s.h['newbuf'] = newbuf
    def gbuf(x, st, p):
        v = x.load_n(st, p, 32); return st.mem[v.o] if isinstance(v, GBuf) else None
    @M(r'(?:^|[ &])string32::basic_string<std::allocator<char32_t>>\(unsigned long, char32_t, ')
    def _(x, st, d, av, ins, work): put(x, st, av[0], newbuf(x, st, av[0].o, av[0].f, x.scalar(av[1]))); return done(x, st)
    @M(r'(?:^|[ &])string32::data\(\)$')
    def _(x, st, d, av, ins, work):
        v = x.load_n(st, av[0], 32)
        if not isinstance(v, GBuf): raise Unsupported('data()')
        return done(x, st, Ptr(v.o, 0))
    @M(r'(?:^|[ &])string32::resize\(unsigned long\)$')
    def _(x, st, d, av, ins, work):
        v = x.load_n(st, av[0], 32)
        if not isinstance(v, GBuf): raise Unsupported('resize')
        ob = st.mem.pop(v.o); put(x, st, av[0], newbuf(x, st, av[0].o, av[0].f, x.scalar(x.defd(st, av[1])), ob)); return done(x, st)
    # ---- the characters of a string, rewritten through data() by a function under contract
    @M(r'(?:^|[ &])string::data\(\)$')
    def _(x, st, d, av, ins, work):
        v = gs(x, st, av[0])
        if len(v.p) != 1 or v.p[0][0] != 'sl': raise Unsupported('data()')
        return done(x, st, Ptr(x.newobj(st, Arr(v.p[0][1], v.p[0][2], v.p[0][3], False, (), ('sdata', av[0].o, av[0].f))), v.p[0][2]))
    @M(r'(?:^|[ &])string::resize\(unsigned long\)$')
    def _(x, st, d, av, ins, work):
        v = x.load_n(st, av[0], 32)
        if not isinstance(v, GPre): raise Unsupported('resize')
        n = x.scalar(x.defd(st, av[1]))
        put(x, st, av[0], GStr(v.p if x.valid(st, b64(n) == b64(v.n)) else [('t', x.freshseq('resized'))], 1)); return done(x, st)
    @M(S + r'basic_string\(\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr([], esof(d))); return done(x, st)
    @M(S + r'basic_string\((?:string|string32)&&\)$')
    def _(x, st, d, av, ins, work):
        v = gs(x, st, av[1]); put(x, st, av[0], v); put(x, st, av[1], GStr([], v.es)); return done(x, st)
    @M(S + r'basic_string\((?:string|string32) const&\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], gs(x, st, av[1])); return done(x, st)
    @M(S + r'basic_string<(?:sv|sv32), void>\((?:sv|sv32) const&, (?!unsigned)')
    def _(x, st, d, av, ins, work):
        n = x.load_n(st, av[1], 8); p = x.load_n(st, x.padd(st, av[1], 8, []), 8)
        ps = pieces(x, st, p, x.scalar(n)); put(x, st, av[0], GStr(ps, esof(d))); return done(x, st)
    # ---- parts: (pos, n) selects min(n, size - pos) characters from pos on; out_of_range if pos > size
    def part(x, st, p, size, pos, n, work, then):
        """then(state, pieces) for the part of the `size` characters at p"""
        pos, n, size = b64(x.scalar(pos)), b64(x.scalar(n)), b64(x.scalar(size))
        for k, s in x.fork_cases(st, [z3.ULT(size, pos), True]):
            if k == 0: x.throw(s, ('_ZTISt12out_of_range', None), work); continue
            m = simp(z3.If(z3.ULE(n, size - pos), n, size - pos))
            try: ps = pieces(x, s, x.padd(s, p, 0, [(pos, x.es(s, p.o))]) if isinstance(p, Ptr) and p.o != 0 else p, m)
            except PathEnd: continue
            then(s, ps)
        return 'end'
    def cutstr(x, st, p, pos):
        """the string at p cut in two at pos <= its size"""
        v = gs(x, st, p); pos = b64(x.scalar(pos))
        if x.valid(st, pos == k64(0)): return [], list(v.p)
        if x.valid(st, pos == b64(strlen(x, st, v))): return list(v.p), []
        if len(v.p) != 1 or v.p[0][0] != 'sl': raise Unsupported('a position in a composed string')
        _, c, i, j = v.p[0]; m = simp(b64(i) + pos)
        return [('sl', c, i, m)], [('sl', c, m, j)]
    def view(x, st, p): return x.scalar(x.load_n(st, p, 8)), x.load_n(st, x.padd(st, p, 8, []), 8)
    def ret(x, s, v=None): return x.finish_call(s, v)
    def then(x, work, f):
        def g(s, ps):
            r = f(s, ps); x.finish_call(s, r); work.append(s)
        return g
    @M(S + r'basic_string<(?:sv|sv32), void>\((?:sv|sv32) const&, unsigned long, unsigned long')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[1]); es = esof(d)
        return part(x, st, p, n, av[2], av[3], work, then(x, work, lambda s, ps: put(x, s, av[0], GStr(ps, es))))
    @M(r'type string::append<sv>\(sv const&, unsigned long, unsigned long\)$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[1])
        def f(s, ps): app(x, s, av[0], ps); return av[0]
        return part(x, st, p, n, av[2], av[3], work, then(x, work, f))
    @M(r'type string::(?:assign|operator=)<sv>\(sv const&\)$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[1]); put(x, st, av[0], GStr(pieces(x, st, p, n), 1)); return done(x, st, av[0])
    @M(r'(?:^|[ &])string::(?:assign|operator=)\(char const\*\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr(pieces(x, st, av[1], cstrlen(x, st, av[1])), 1)); return done(x, st, av[0])
    @M(r'(?:^|[ &])string::assign\(char const\*, unsigned long\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr(pieces(x, st, av[1], x.scalar(av[2])), 1)); return done(x, st, av[0])
    @M(r'(?:^|[ &])string::assign<char const\*, void>\(char const\*, char const\*\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr(pieces(x, st, av[1], rng(x, st, av[1], av[2])), 1)); return done(x, st, av[0])
    @M(r'(?:^|[ &])string::assign\(string const&\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], gs(x, st, av[1])); return done(x, st, av[0])
    def splice(x, st, dst, pos, n, ps, work):
        """replaces the n characters from pos on by the pieces ps"""
        size = b64(strlen(x, st, gs(x, st, dst))); pos, n = b64(x.scalar(pos)), b64(x.scalar(n))
        for k, s in x.fork_cases(st, [z3.ULT(size, pos), True]):
            if k == 0: x.throw(s, ('_ZTISt12out_of_range', None), work); continue
            e = simp(z3.If(z3.ULE(n, size - pos), pos + n, size)); v = gs(x, s, dst)
            put(x, s, dst, GStr(cutstr(x, s, dst, pos)[0] + ps + cutstr(x, s, dst, e)[1], v.es)); x.finish_call(s, dst); work.append(s)
        return 'end'
    @M(r'(?:^|[ &])string::insert\(unsigned long, char const\*, unsigned long\)$')
    def _(x, st, d, av, ins, work): return splice(x, st, av[0], av[1], 0, pieces(x, st, av[2], x.scalar(av[3])), work)
    @M(r'(?:^|[ &])string::insert\(unsigned long, string const&\)$')
    def _(x, st, d, av, ins, work): return splice(x, st, av[0], av[1], 0, list(gs(x, st, av[2]).p), work)
    @M(r'type string::insert<sv>\(unsigned long, sv const&\)$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[2]); return splice(x, st, av[0], av[1], 0, pieces(x, st, p, n), work)
    @M(r'(?:^|[ &])string::replace\(unsigned long, unsigned long, char const\*, unsigned long\)$')
    def _(x, st, d, av, ins, work): return splice(x, st, av[0], av[1], av[2], pieces(x, st, av[3], x.scalar(av[4])), work)
    @M(r'(?:^|[ &])string::replace\(unsigned long, unsigned long, string const&\)$')
    def _(x, st, d, av, ins, work): return splice(x, st, av[0], av[1], av[2], list(gs(x, st, av[3]).p), work)
    @M(r'type string::replace<sv>\(unsigned long, unsigned long, sv const&\)$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[3]); return splice(x, st, av[0], av[1], av[2], pieces(x, st, p, n), work)
    @M(r'(?:^|[ &])string::erase\(unsigned long, unsigned long\)$')
    def _(x, st, d, av, ins, work): return splice(x, st, av[0], av[1], av[2], [], work)
    @M(S + r'basic_string<std::allocator<char>>\(char const\*, ')
    def _(x, st, d, av, ins, work):
        n = cstrlen(x, st, av[1]); put(x, st, av[0], GStr(pieces(x, st, av[1], n), 1)); return done(x, st)
    @M(S + r'basic_string<.*>\(char const\*, char const\*, ')
    def _(x, st, d, av, ins, work):
        n = rng(x, st, av[1], av[2]); put(x, st, av[0], GStr(pieces(x, st, av[1], n), 1)); return done(x, st)
    @M(S + r'basic_string\(char const\*, unsigned long, ')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr(pieces(x, st, av[1], x.scalar(av[2])), 1)); return done(x, st)
    @M(S + r'~basic_string\(\)$')
    def _(x, st, d, av, ins, work): return done(x, st)
    @M(S + r'operator=\((?:string|string32)(?:&&| const&)\)$')
    def _(x, st, d, av, ins, work):
        v = gs(x, st, av[1]); put(x, st, av[0], v); return done(x, st, av[0])
    @M(S + r'(?:push_back|operator\+=)\(char(?:32_t)?\)$')
    def _(x, st, d, av, ins, work):
        x.defd(st, av[1])
        app(x, st, av[0], [('byte' if esof(d) == 1 else 'u32', x.scalar(av[1]))]); return done(x, st, av[0])
    @M(r'(?:^|[ &])string(?:::append|::operator\+=|& string::append)\(char const\*\)$')
    def _(x, st, d, av, ins, work):
        app(x, st, av[0], pieces(x, st, av[1], cstrlen(x, st, av[1]))); return done(x, st, av[0])
    @M(S + r'append\(char(?:32_t)? const\*, unsigned long\)$')
    def _(x, st, d, av, ins, work):
        app(x, st, av[0], pieces(x, st, av[1], x.scalar(av[2]))); return done(x, st, av[0])
    @M(S + r'append<char(?:32_t)? const\*, void>\(char(?:32_t)? const\*, char(?:32_t)? const\*\)$')
    def _(x, st, d, av, ins, work):
        app(x, st, av[0], pieces(x, st, av[1], rng(x, st, av[1], av[2]))); return done(x, st, av[0])
    @M(S + r'append\((?:string|string32) const&\)$')
    def _(x, st, d, av, ins, work):
        app(x, st, av[0], list(gs(x, st, av[1]).p)); return done(x, st, av[0])
    @M(r'std::enable_if<.*>::type string::(?:append|operator\+=)<sv>\(sv const&\)$')
    def _(x, st, d, av, ins, work):
        n = x.load_n(st, av[1], 8); p = x.load_n(st, x.padd(st, av[1], 8, []), 8)
        app(x, st, av[0], pieces(x, st, p, x.scalar(n))); return done(x, st, av[0])
    @M(S + r'append\(unsigned long, char(?:32_t)?\)$')
    def _(x, st, d, av, ins, work):
        n = av[1]
        if not isinstance(n, int) or n > 8: raise Unsupported('append(n, c)')
        app(x, st, av[0], [('byte' if esof(d) == 1 else 'u32', x.scalar(av[2]))] * n); return done(x, st, av[0])
    @M(S + r'reserve\(')
    def _(x, st, d, av, ins, work): gs(x, st, av[0]); return done(x, st)
    @M(S + r'clear\(\)$')
    def _(x, st, d, av, ins, work): put(x, st, av[0], GStr([], esof(d))); return done(x, st)
    def strlen(x, st, v):
        n = 0
        for p in v.p:
            if p[0] == 'sl': k = simp(b64(p[3]) - b64(p[2]))
            elif p[0] in ('byte', 'u32'): k = 1
            else: raise Unsupported('size of an unknown string')
            n = n + k if isinstance(n, int) and isinstance(k, int) else simp(b64(n) + b64(k))
        return n
    s.h['strlen'] = strlen
    @M(S + r'(?:size|length)\(\) const$')
    def _(x, st, d, av, ins, work):
        ob = gbuf(x, st, av[0])
        if ob: return done(x, st, ob.hi)
        return done(x, st, strlen(x, st, gs(x, st, av[0])))
    @M(S + r'empty\(\) const$')
    def _(x, st, d, av, ins, work):
        v = gs(x, st, av[0])
        if not v.p: return done(x, st, 1)
        if any(p[0] in ('byte', 'u32') for p in v.p): return done(x, st, 0)
        n = strlen(x, st, v); r = b64(n) == k64(0)
        return done(x, st, r)
    @M(S + r'end\(\)(?: const)?$')
    def _(x, st, d, av, ins, work): return done(x, st, Ptr(('send', av[0].o, av[0].f), 0))
    @M(S + r'begin\(\)(?: const)?$')
    def _(x, st, d, av, ins, work): return done(x, st, Ptr(('sbegin', av[0].o, av[0].f), 0))
    @M(r'string::insert<char const\*, void>\(.*, char const\*, char const\*\)$')
    def _(x, st, d, av, ins, work):
        w = av[1]; ps = pieces(x, st, av[2], rng(x, st, av[2], av[3])); v = gs(x, st, av[0])
        if isinstance(w, PCS): w = w.p[0][2]
        if not isinstance(w, Ptr): raise Unsupported('insert position')
        if w.o == ('send', av[0].o, av[0].f): nv = list(v.p) + ps
        elif w.o == ('sbegin', av[0].o, av[0].f): nv = ps + list(v.p)
        else: raise Unsupported('insert position')
        put(x, st, av[0], GStr(nv, v.es)); return done(x, st, Ptr(('sit', 0), 0))
    @M(r'string::operator sv\(\) const$')
    def _(x, st, d, av, ins, work):
        v = gs(x, st, av[0])
        if len(v.p) == 1 and v.p[0][0] == 'sl':
            _, c, i, j = v.p[0]
            key = ('strobj', c.uid, b64(i).get_id(), b64(j).get_id())
            o = x.strobjs.get(key)
            if o is None or o not in st.mem:
                o = x.newobj(st, Arr(c, i, j, True, (), 'string')); x.strobjs[key] = o
            return done(x, st, (simp(b64(j) - b64(i)), Ptr(o, i)))
        if not v.p: return done(x, st, (0, NULL))
        raise Unsupported('view of a composed string')
    def cstrlen(x, st, p):
        n = 0
        while n < 4096:
            v = x.load_n(st, x.padd(st, p, n, []), 1)
            if not isinstance(v, int): raise Unsupported('strlen')
            if v == 0: return n
            n += 1
        raise Unsupported('strlen')
    # ---- std::vector of Subrange or string_view (elements by value)
    V = r'(?:^|[ &])vector<(ystring::Subrange|sv|std::pair<char32_t, char32_t>)>::'
    def ves(d): return 8 if 'vector<std::pair<char32_t' in d else 16
    def gv(x, st, p):
        v = x.load_n(st, p, 24)
        if isinstance(v, Undef): x.oblige(st, 'use of an unconstructed vector', False); raise PathEnd()
        if not isinstance(v, GVec): raise Unsupported('vector value %r' % (v,))
        if v.back is not None:
            ob = st.mem[v.back]; return GVec(v.p + (('rng', x.scalar(x.cell_load(ob, 0, 4)), x.scalar(x.cell_load(ob, 4, 4))),), 8)
        return v
    s.h['gv'] = gv
    def vput(x, st, p, v):
        # iterators into the old value are dead
        for o in [o for o, ob in st.mem.items() if isinstance(ob, (Arr, Cells)) and ob.name == ('vector', p.o, p.f)]: del st.mem[o]
        x.store_n(st, p, 24, v)
    s.h['vput'] = vput
    def vobj(x, st, p):
        v = gv(x, st, p); t = v.term()
        if v.p and not (apps_in(t), APPS.get(t.get_id()))[1]:      # a list with a known description
            for i in x.seeds:
                if APPS[i][0].vec and x.valid(st, t == APPS[i][3]): t = APPS[i][3]; x.store_n(st, p, 24, GVec([('t', t)], v.es)); break
        key = ('vec', p.o, p.f, t.get_id())
        o = x.strobjs.get(key)
        if o is None or o not in st.mem:
            c = x.veccont.get(t.get_id())
            if c is None: c = x.veccont[t.get_id()] = VecContent(t) if v.es == 16 else lib.rangecontent(t)
            o = x.newobj(st, Arr(c, 0, simp(vlen(t)), True, (), ('vector', p.o, p.f))); x.strobjs[key] = o; x.keep(t)
        x.add(st, z3.ULE(vlen(t), k64(1 << 59)))     # max_size()
        return o, b64(vlen(t))
    @M(V + r'vector\(\)$')
    def _(x, st, d, av, ins, work): vput(x, st, av[0], GVec([], ves(d))); return done(x, st)
    @M(V + r'~vector\(\)$')
    def _(x, st, d, av, ins, work): return done(x, st)
    @M(V + r'(?:clear|reserve)\(')
    def _(x, st, d, av, ins, work):
        gv(x, st, av[0])
        if 'clear' in d: vput(x, st, av[0], GVec([], ves(d)))
        return done(x, st)
    def element(x, st, d, rs):
        """the piece for the element built from the references rs"""
        if ves(d) == 8:
            a = x.defd(st, x.load_n(st, rs[0], 4)); b = x.defd(st, x.load_n(st, rs[1] if len(rs) > 1 else x.padd(st, rs[0], 4, []), 4))
            return ('rng', x.scalar(a), x.scalar(b))
        if len(rs) == 1:
            a = x.defd(st, x.load_n(st, rs[0], 8)); b = x.defd(st, x.load_n(st, x.padd(st, rs[0], 8, []), 8))
        else: a = x.defd(st, x.load_n(st, rs[0], 8)); b = x.defd(st, x.load_n(st, rs[1], 8))
        if 'vector<sv>' not in d: return ('sub', x.scalar(a), x.scalar(b))
        n = x.scalar(a)
        if isinstance(b, Ptr) and b.o == 0:
            x.oblige(st, 'null dereference', b64(n) == k64(0)); return ('view', lib.nocontent(1), 0, 0)
        readable(x, st, b, n); c = content(x, st, b)
        return ('view', c, b.f, simp(b64(b.f) + b64(n)))
    @M(V + r'(?:push_back|emplace_back<[^()]*>)\(')
    def _(x, st, d, av, ins, work):
        v = gv(x, st, av[0]); e = element(x, st, d, av[1:])
        vput(x, st, av[0], GVec(list(v.p) + [e], v.es)); return done(x, st, Ptr(('vback', 0), 0))
    @M(V + r'size\(\) const$')
    def _(x, st, d, av, ins, work):
        v = gv(x, st, av[0]); n = vlen(v.term()); x.add(st, z3.ULE(n, k64(1 << 59))); return done(x, st, simp(n))
    @M(V + r'empty\(\) const$')
    def _(x, st, d, av, ins, work):
        v = gv(x, st, av[0]); n = vlen(v.term()); x.add(st, z3.ULE(n, k64(1 << 59))); return done(x, st, zb(n == k64(0)) if not isinstance(simp(n), int) else int(simp(n) == 0))
    @M(V + r'c?begin\(\)(?: const)?$')
    def _(x, st, d, av, ins, work): return done(x, st, Ptr(vobj(x, st, av[0])[0], 0))
    @M(V + r'c?end\(\)(?: const)?$')
    def _(x, st, d, av, ins, work): o, n = vobj(x, st, av[0]); return done(x, st, Ptr(o, simp(n)))
    @M(V + r'(?:operator\[\]|at)\(unsigned long\)(?: const)?$')
    def _(x, st, d, av, ins, work):
        o, n = vobj(x, st, av[0]); i = x.scalar(av[1]); x.oblige(st, 'index below size', z3.ULT(b64(i), n)); return done(x, st, Ptr(o, i))
    @M(V + r'(?:back|front)\(\)(?: const)?$')
    def _(x, st, d, av, ins, work):
        if ves(d) == 8 and 'back' in d: return done(x, st, lastrange(x, st, av[0]))
        o, n = vobj(x, st, av[0]); x.oblige(st, 'vector not empty', n != k64(0)); return done(x, st, Ptr(o, simp(n - k64(1)) if 'back' in d else 0))
    def lastrange(x, st, p):
        """reference to the last range: from now on the vector's value is read off it"""
        v = x.load_n(st, p, 24)
        if isinstance(v, GVec) and v.back is not None: return Ptr(v.back, 0)
        v = gv(x, st, p); t = v.term()
        if v.p and v.p[-1][0] == 'rng': front, (_, a, b) = list(v.p[:-1]), v.p[-1]
        else:
            x.oblige(st, 'vector not empty', vlen(t) != k64(0))
            front = [('t', x.freshseq('front'))]; a = x.fresh('first', 32); b = x.fresh('last', 32); w = seq(front + [('rng', a, b)])
            x.add(st, t == w, lib.MEMB('', w, lib.PROBE) == lib.MEMB('', t, lib.PROBE), lib.CMEMB('', w, lib.PROBE) == lib.CMEMB('', t, lib.PROBE), vlen(w) == vlen(t))
        vput(x, st, p, v)
        o = x.newobj(st, Cells(8, {0: (4, a), 4: (4, b)}, ('vector', p.o, p.f))); x.store_n(st, p, 24, GVec(front, 8, o)); return Ptr(o, 0)
    # opaque message strings
    @M(r'(?:^| )std::(?:__cxx11::)?(?:to_string\(|operator\+<char)')
    def _(x, st, d, av, ins, work):
        put(x, st, av[0], GStr([('t', x.freshseq('msg'))], 1)); return done(x, st)
    # ---- exceptions
    @M(r'^std::runtime_error::runtime_error\(|^std::runtime_error::~runtime_error|^ystring::YstringException::|^std::(?:logic_error|exception|out_of_range)::')
    def _(x, st, d, av, ins, work): return done(x, st)
    @M(r'^__cxa_allocate_exception$')
    def _(x, st, d, av, ins, work): return done(x, st, Ptr(x.newobj(st, Cells(64, {}, 'exception')), 0))
    @M(r'^__cxa_free_exception$')
    def _(x, st, d, av, ins, work): return done(x, st)
    @M(r'^__cxa_throw$')
    def _(x, st, d, av, ins, work): return x.throw(st, (av[1].o.split('|', 1)[1], av[0]), work)
    @M(r'^__cxa_begin_catch$|^__cxa_get_exception_ptr$')
    def _(x, st, d, av, ins, work):
        if d == '__cxa_begin_catch': st.caught.append(st.exc)
        return done(x, st, av[0])
    @M(r'^__cxa_end_catch$')
    def _(x, st, d, av, ins, work):
        if st.caught: st.caught.pop()
        return done(x, st)
    @M(r'^__cxa_rethrow$')
    def _(x, st, d, av, ins, work): return x.throw(st, st.caught[-1], work)
    @M(r'^__clang_call_terminate$|^std::terminate\(\)$|^abort$|^__assert_fail$|^std::__glibcxx_assert_fail')
    def _(x, st, d, av, ins, work): x.oblige(st, d + ' is not reached', False); raise PathEnd()
    @M(r'^std::__throw_out_of_range')
    def _(x, st, d, av, ins, work): return x.throw(st, ('_ZTISt12out_of_range', None), work)
    @M(r'^std::__throw_length_error')
    def _(x, st, d, av, ins, work): return x.throw(st, ('_ZTISt12length_error', None), work)
    @M(r'^operator delete|^operator new')
    def _(x, st, d, av, ins, work): raise Unsupported(d)
    # the predicate of inst.cpp: any pure function of the code point
    @M(r'^opaque_predicate\(char32_t\)$')
    def _(x, st, d, av, ins, work): return done(x, st, lib.OPQ['PRED']('', bv(x.scalar(x.defd(st, av[0])), 32)))
    # the finder of inst.cpp: any function of the text; its token lies in the text
    @M(r'^opaque_finder\(sv\)$')
    def _(x, st, d, av, ins, work):
        n = b64(x.scalar(x.defd(st, av[0]))); p = av[1]; readable(x, st, p, n); u = lib.content_of(x, st, p).uid; i = b64(p.f); e = b64(simp(i + n))
        o = lib.OPO(u, i, e); l = lib.OPL(u, i, e)
        x.add(st, Imp(l != k64(0), And(z3.ULE(o, n), z3.ULE(l, n - o))))
        for k, s in x.fork_cases(st, [lib.OPT(u, i, e), True]):
            s.res = (lambda s: x.throw(s, ('_ZTIN7ystring16YstringExceptionE', None), work)) if k == 0 else (lambda s: x.finish_call(s, (simp(o), simp(l))))
            work.append(s)
        return 'end'
    # ---- algorithms on bytes
    def content(x, st, p, hi=None):
        return lib.content_of(x, st, p)
    def readable(x, st, p, n):
        if isinstance(n, int) and n == 0: return
        if isinstance(p, Ptr) and p.o == 0: x.oblige(st, 'null dereference', b64(n) == k64(0)); return
        ob = x.deref(st, p, 1, 'load'); f = b64(p.f)
        if isinstance(ob, Arr): lo, hi = b64(ob.lo), b64(ob.hi)
        elif isinstance(ob, Tab): lo, hi = k64(0), k64(ob.n)
        else: lo, hi = k64(0), k64(ob.size)
        x.oblige(st, 'range in bounds', And(z3.ULE(lo, f), z3.ULE(f, hi), z3.ULE(b64(n), hi - f)))
    s.h['readable'] = readable
    @M(r'^(?:memcmp|bcmp)$')
    def _(x, st, d, av, ins, work):
        p, q, n = av[0], av[1], x.scalar(av[2])
        if isinstance(n, int) and n == 0: return done(x, st, 0)
        readable(x, st, p, n); readable(x, st, q, n)
        if p.o == 0 or q.o == 0: return done(x, st, 0)
        c = content(x, st, p); e = content(x, st, q); key = (c.uid, e.uid); n = b64(n)
        r = x.fresh('mc', 32); k = x.fresh('mk', 64); i, j = b64(p.f), b64(q.f); u, v = c.sel(i + k), e.sel(j + k); z = z3.BitVecVal(0, 32)
        x.add(st, z3.ULE(k, n), lib.EQL(key, i, j, k), (r == z) == lib.EQL(key, i, j, n), (r == z) == (k == n), Imp(k != n, And(u != v, (r < z) == z3.ULT(u, v))))
        return done(x, st, r)
    @M(r'^strlen$')
    def _(x, st, d, av, ins, work): return done(x, st, cstrlen(x, st, av[0]))
    @M(r'^memchr$')
    def _(x, st, d, av, ins, work):
        p, n = av[0], x.scalar(av[2])
        if p.o == 0 or isinstance(n, int) and n == 0: return done(x, st, Ptr(0, 0))
        readable(x, st, p, n); c = content(x, st, p); b = b64(p.f); e = simp(b + b64(n)); f = lib.FIND(c.uid, b, e, z3.ZeroExt(24, z3.Extract(7, 0, bv(x.scalar(x.defd(st, av[1])), 32))))
        x.add(st, z3.ULE(b, f), z3.ULE(f, e))
        for k, s in x.fork_cases(st, [f == e, True]): x.finish_call(s, Ptr(p.o, f, p.s) if k else Ptr(0, 0)); work.append(s)
        return 'end'
    @M(r'^sv::(?:find|rfind)\(char const\*, unsigned long, unsigned long\) const$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[0]); q, pos, m = av[1], b64(x.scalar(av[2])), x.scalar(av[3])
        if isinstance(m, int) and m == 0 or isinstance(p, Ptr) and p.o == 0 or isinstance(q, Ptr) and q.o == 0: raise Unsupported('search of or for nothing')
        readable(x, st, p, n); readable(x, st, q, m); n, m = b64(n), b64(m)
        c = content(x, st, p); e = content(x, st, q); key = (c.uid, e.uid); b = b64(p.f)
        if d.startswith('sv::find'):
            f = lib.SF(key, b + pos, b + n, b64(q.f), m)
            r = z3.If(m == k64(0), z3.If(z3.ULE(pos, n), pos, k64(-1)), z3.If(Or(z3.ULE(n, pos), f == b + n), k64(-1), f - b))
            x.add(st, Imp(z3.ULE(pos, n), And(z3.ULE(b + pos, f), z3.ULE(f, b + n))))
        else:
            f = lib.SLB(key, b, b + z3.If(z3.ULE(pos, n - m), pos, n - m), b64(q.f), m)
            r = z3.If(z3.ULT(n, m), k64(-1), z3.If(f == k64(-1), k64(-1), f - b))
        return done(x, st, simp(r))
    @M(r'^sv::find\(char, unsigned long\) const$')
    def _(x, st, d, av, ins, work):
        n, p = view(x, st, av[0]); pos = b64(x.scalar(av[2]))
        if isinstance(p, Ptr) and p.o == 0: return done(x, st, k64(-1))
        readable(x, st, p, n); n = b64(n); c = content(x, st, p); b = b64(p.f)
        f = lib.FIND(c.uid, b + pos, b + n, bv(simp(z3.ZeroExt(24, bv(x.scalar(x.defd(st, av[1])), 8))), 32))
        x.add(st, Imp(z3.ULE(pos, n), And(z3.ULE(b + pos, f), z3.ULE(f, b + n))))
        return done(x, st, simp(z3.If(Or(z3.ULE(n, pos), f == b + n), k64(-1), f - b)))
    @M(r'(?:^| )char const\* std::search<char const\*, char const\*>\(char const\*, char const\*, char const\*, char const\*\)$', 'std::search')
    def _(x, st, d, av, ins, work):
        i, e, pb, pe = av
        n = rng(x, st, i, e); m = rng(x, st, pb, pe)
        readable(x, st, i, n); readable(x, st, pb, m)
        if i.o == 0: return done(x, st, i)
        c = content(x, st, i)
        if pb.o == 0: return done(x, st, i)
        p = content(x, st, pb)
        r = lib.SF((c.uid, p.uid), b64(i.f), b64(e.f), b64(pb.f), b64(m))
        x.add(st, z3.ULE(b64(i.f), r), z3.ULE(r, b64(e.f)))
        return done(x, st, Ptr(i.o, r, i.s))
    @M(r'std::mismatch<char const\*, char const\*>\(char const\*, char const\*, char const\*, char const\*\)$', 'std::mismatch')
    def _(x, st, d, av, ins, work):
        i, e, j, je = av
        n = rng(x, st, i, e); m = rng(x, st, j, je)
        readable(x, st, i, n); readable(x, st, j, m)
        if i.o == 0 or j.o == 0: return done(x, st, (i, j))
        c = content(x, st, i); p = content(x, st, j)
        nn, mm = b64(n), b64(m); key = (c.uid, p.uid); k = lib.MIS(key, b64(i.f), b64(e.f), b64(j.f), b64(je.f)) - b64(i.f)
        x.add(st, Imp(z3.ULE(mm, nn), (k == mm) == lib.EQL(key, b64(i.f), b64(j.f), mm)))
        return done(x, st, (Ptr(i.o, simp(b64(i.f) + k), i.s), Ptr(j.o, simp(b64(j.f) + k), j.s)))
    @M(r'^(?:char|char32_t) const\* std::find<(?:char|char32_t) const\*, (?:char|char32_t)>\(', lambda d: 'std::find<%s>' % d.split(' ')[0])
    def _(x, st, d, av, ins, work):
        i, e, vp = av
        n = rng(x, st, i, e); readable(x, st, i, n)
        if i.o == 0: return done(x, st, i)
        c = content(x, st, i)
        v = bv(x.scalar(x.load_n(st, vp, c.es)), c.es * 8)
        r = lib.FIND(c.uid, b64(i.f), b64(e.f), bv(simp(z3.ZeroExt(32 - c.es * 8, v)), 32) if c.es < 4 else v)
        x.add(st, z3.ULE(b64(i.f), r), z3.ULE(r, b64(e.f)))
        return done(x, st, Ptr(i.o, r, i.s))
    @M(r'^__gxx_personality')
    def _(x, st, d, av, ins, work): raise Unsupported(d)
