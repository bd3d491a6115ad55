"""Contracts with explicit loop invariants, checked in context: at a loop header the invariant is an obligation, the variables and regions the
loop modifies become arbitrary, the invariant is assumed, and one arbitrary iteration (and every exit) is explored from there."""
import re
from symex import *
from symex import _ctr
from contracts import Base, slot_access, base_name, liveness, LIM31
import spec

class Annotated(Base):
    array_region = 65        # local arrays of this size or more are byte regions, indexed symbolically
    def header_mode(self, e, st, b): return 'inv' if self.spec_of(e, st, b) else 'summ'
    def spec_of(self, e, st, b): return None
    def depth(self, e, b): return sum(1 for h in e.f.loops if b in e.f.loops[h])
    def force_cut(self, e, b): return self.spec_of(e, None, b) is not None
    def acc(self, e):
        if not hasattr(self, '_acc'): self._acc = slot_access(e)[0]; self._live = liveness(e)[0]
        return self._acc
    def find(self, e, b, *names):
        """the variable with one of these source names that the loop at b uses (inlined helpers have copies)"""
        a = self.acc(e); near = {k for x in e.f.loops[b] for d, k in a[x]} if b else set(e.slot_names())
        c = sorted((k for k, v in e.slot_names().items() if base_name(v[0]) in names and k in near), key=lambda k: (len(e.slot_names()[k][0]), k))
        if not c: raise Unsupported('variable %s not found' % '/'.join(names))
        return c[0]
    def get(self, e, st, k, w=64):
        v = st.slots.get(k, UNDEF); t = e.mod.resolve(e.slot_names()[k][1])
        if v is UNDEF: raise Unsupported('undefined variable')
        if t[0] == 'ptr' or isinstance(v, list): return v
        return v if t[1] == w else zext(v, t[1], w)
    def put(self, e, st, k, v):
        t = e.mod.resolve(e.slot_names()[k][1])
        st.slots[k] = v if t[0] == 'ptr' or isinstance(v, (list, Ptr)) or t[1] == 64 else trunc(v, t[1])
    def havoc_slots(self, e, st, b):
        names = e.slot_names(); a = self.acc(e)
        for k in {k for x in e.f.loops[b] for d, k in a[x] if d != 'use'}:
            v = st.slots.get(k, UNDEF); t = e.mod.resolve(names[k][1])
            if k not in self._live[b]: st.slots[k] = UNDEF; continue
            if isinstance(v, Ptr) and v.r is not None and v.r.kind == 'slot': continue
            st.slots[k] = e.havoc_like(v, names[k][0], names[k][1])
    def havoc_region(self, e, st, reg, lo=0, n=1 << 40):
        """unknown content; returns the read-only region that stands for it (facts may be attached)"""
        g = Region('%s!%d' % (reg.name, next(_ctr)), 'in'); e.regions[g.name] = g
        st.out[reg.name] = st.out.get(reg.name, ()) + (Layer('copy', lo, n, src=g, soff=lo),)
        return g
    def loop(self, e, st, b):
        s = self.spec_of(e, st, b)(self, e, b)
        e.oblige_group = None
        if e.guarded(s.check, e, st, None) == 'failed': return
        for s.case in s.cases:
            st2 = st.clone(); st2.pc += ('loop:' + b,)
            e.push(); facts = {r: r.facts for r in e.regions.values()}
            self.havoc_slots(e, st2, b)
            s.assume(e, st2)
            if not e.feasible(): raise Unsupported('vacuous invariant at ' + b)
            base = dict(st2.out); mods = set(s.mods)
            def back(s2):
                for r in s2.out:
                    if r not in mods and s2.out[r] != base.get(r, ()): raise Unsupported('loop at %s writes %s' % (b, r))
                s.check(e, s2, s)
            e.loop_iter(st2, b, False, back)
            e.pop()
            for r in list(e.regions.values()): r.facts = facts.get(r, r.facts)
    def arrive(self, e, st, b): raise Unsupported('loop without invariant')
    def verify(self, e):
        st = State(); self.e = e
        e.push(); self.pre(e, st); e.segname = 'body'; self.returned = 0
        if not e.feasible(): raise Unsupported('vacuous precondition')
        e.explore(st, e.f.order[0], None); e.pop()
        if not self.returned: e.fails.append({'obligation': 'returns', 'where': 'no path returns', 'result': 'cex', 'model': '', 'path': [], 'segment': ''})
    def params(self, e): return [(e.mod.resolve(t), p) for t, p in e.f.params]
    def region(self, e, name, kind, lim):
        r = Region(name, kind); e.regions[name] = r; r.rlim = lim
        if kind == 'out': r.wlim = lim
        return r
    def shape(self, e, tys, what):
        if tuple(t[0] + (str(t[1]) if t[0] == 'int' else '') for t, _ in self.params(e)) != tuple(tys): raise Unsupported('signature of ' + what)

class Loop:
    """one loop invariant; mods: names of the regions the loop writes"""
    mods = (); cases = (None,)
    def __init__(self, c, e, b): self.c, self.b = c, b; self.init(e)
    def init(self, e): pass
    def check(self, e, st, start): pass
    def assume(self, e, st): pass

# ------------------------------------------------------------------------------------------------------------------------------
# low entropy codecs: a token is a byte b, or, if rle[b], b and a byte s: a run of 1 + symbolToCount[s] bytes b
class LE:
    def __init__(self, maxcnt): self.maxcnt = maxcnt
BOOL = lambda o, a: cmp('ule', a, 1, 8)

class LEScan(Loop):
    """for (j = 1; j < range; j++) if (pIn[i + j] == b) count++ else break:   count == j - 1, In[i, i + j) == b"""
    def init(self, e):
        c = self.c; self.j, self.cnt, self.i, self.b_ = (c.find(e, self.b, n) for n in ('j', 'count', 'i', 'b'))
        self.K = fresh('K', 64, 0, LIM31)
    def check(self, e, st, start):
        c = self.c; g = lambda k: c.get(e, st, k); j, i = g(self.j), g(self.i)
        e.oblige('scan:count', cmp_eq(g(self.cnt), sub(j, 1, 64), 64), st)
        e.oblige('scan:position', band(cmp('uge', j, 1, 64), cmp('ule', j, c.le.maxcnt + 1, 64), cmp('ule', add(i, j, 64), c.inSize, 64)), st)
        e.oblige('scan:run', bor(cmp('uge', self.K, j, 64), cmp_eq(e.ro_byte(c.inp, add(i, self.K, 64)), c.get(e, st, self.b_, 8), 8)), st)
        if start is not None: e.oblige('progress', cmp('ugt', j, self.j0, 64), st)
    def assume(self, e, st):
        c = self.c; g = lambda k: c.get(e, st, k); j = self.j0 = fresh('j', 64, 1, c.le.maxcnt + 1)
        c.put(e, st, self.j, j); c.put(e, st, self.cnt, sub(j, 1, 64)); i, b = g(self.i), c.get(e, st, self.b_, 8)
        e.assume(cmp('ule', add(i, j, 64), c.inSize, 64), bor(cmp('uge', self.K, j, 64), cmp_eq(e.ro_byte(c.inp, add(i, self.K, 64)), b, 8)))
        st.ghost['run'] = (i, j, b)
class LEOuter(Loop):
    """Out[0, index) expands to In[0, i); each iteration emits exactly one token and moves i behind it"""
    mods = ('out',)
    def init(self, e): self.i, self.index = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'index')
    def check(self, e, st, start):
        c = self.c; i, x = c.get(e, st, self.i), c.get(e, st, self.index)
        if start is None:
            e.oblige('inv:positions', band(cmp('ule', i, c.inSize, 64), bor(bnot(cmp_eq(i, 0, 64)), cmp_eq(x, 0, 64))), st)
            c.fits(e, st, i, x); return
        i0, x0 = self.i0, self.x0; b = e.ro_byte(c.inp, i0); flag = e.ro_byte(c.info, zext(b, 8, 64))
        out = lambda o: e.read_byte(st, c.out, o)
        e.oblige('inv:positions', cmp('ule', i, c.inSize, 64), st); e.oblige('progress', cmp('ugt', i, i0, 64), st)
        e.oblige('token:symbol', cmp_eq(out(x0), b, 8), st)
        isrle = bnot(cmp_eq(flag, 0, 8))
        e.push(); e.assume(bnot(isrle))
        if e.feasible(): e.oblige('token:single', band(cmp_eq(i, add(i0, 1, 64), 64), cmp_eq(x, add(x0, 1, 64), 64)), st)
        e.pop(); e.push(); e.assume(isrle)
        if e.feasible():
            n = sub(i, i0, 64)
            e.oblige('token:run-length', band(cmp_eq(x, add(x0, 2, 64), 64), cmp('ule', n, c.le.maxcnt + 1, 64)), st)
            e.oblige('token:maximal', bor(cmp_eq(n, c.le.maxcnt + 1, 64), cmp_eq(i, c.inSize, 64), bnot(cmp_eq(e.ro_byte(c.inp, i), b, 8))), st)
            e.oblige('token:count-symbol', cmp_eq(out(add(x0, 1, 64)), e.ro_byte(c.info, add(256, sub(n, 1, 64), 64)), 8), st)
            k = fresh('k', 64, 0, LIM31); e.assume(cmp('ult', k, n, 64))
            r = st.ghost.get('run')
            if r is not None and same(r[2], b) and e.must(cmp('ule', n, r[1], 64)) and e.must(cmp_eq(r[0], i0, 64)): pass      # shown by the scan loop's invariant for every offset
            else: e.oblige('token:run-is-input', cmp_eq(e.ro_byte(c.inp, add(i0, k, 64)), b, 8), st)
        e.pop()
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, x0, 64)); e.oblige('frame:earlier-stream', cmp_eq(out(o), e.read_byte(self.st0, c.out, o), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; self.i0, self.x0 = fresh('i', 64, 0, LIM31), fresh('index', 64, 0, LIM31)
        c.put(e, st, self.i, self.i0); c.put(e, st, self.index, self.x0)
        c.havoc_region(e, st, c.out); self.st0 = st.clone(); st.ghost.pop('run', None)
        e.assume(cmp('ule', self.i0, c.inSize, 64), bor(bnot(cmp_eq(self.i0, 0, 64)), cmp_eq(self.x0, 0, 64))); c.fits(e, st, self.i0, self.x0)
class LECompressWithInfo(Annotated):
    """requires  rle flags in {0, 1}; the emitted stream fits the output (see the size argument in DESIGN.md)
    ensures   with an unusable argument 0; otherwise the stream is one token per iteration, covering exactly In[0, inSize)"""
    def __init__(self, le): super().__init__(); self.le = le
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'ptr', 'int32'), 'compress_with_info'); P = [p for _, p in self.params(e)]
        self.inSize, self.outSize = fresh('inSize', 64, 0, 1 << 30), fresh('outSize', 64, 0, (1 << 32) - 1); self.cap = fresh('cap', 64, 0, LIM31)
        self.inp = self.region(e, 'in', 'in', self.inSize); self.info = self.region(e, 'info', 'in', 513); self.out = self.region(e, 'out', 'out', self.cap)
        for r in (self.inp, self.info, self.out): r.nullable = True
        self.info.facts.append(lambda o, a: bor(cmp('uge', o, 256, 64), BOOL(o, a)))
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.info, 0), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        self.usable = band(bnot(self.inp.null), bnot(self.info.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), cmp('uge', self.outSize, self.inSize, 64))
    def fits(self, e, st, i, x):
        """size precondition: the token at i, if any, lies inside the output capacity"""
        e.assume(bor(cmp('uge', i, self.inSize, 64), cmp('ule', add(x, 2, 64), self.cap, 64), band(cmp('ule', add(x, 1, 64), self.cap, 64), cmp_eq(e.ro_byte(self.info, zext(e.ro_byte(self.inp, i), 8, 64)), 0, 8))))
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.out: e.oblige('rejecting-call-writes-nothing', self.usable, st)
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        return {1: LEOuter, 2: LEScan}.get(self.depth(e, b))
    def ret(self, e, st, v):
        self.returned += 1
        h = next((x for x in reversed(st.pc) if x.startswith('loop:') and self.depth(e, x[5:]) == 1), None)
        if h is None:
            e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        i, x = self.find(e, h[5:], 'i'), self.find(e, h[5:], 'index')
        e.oblige('covers-input', cmp_eq(self.get(e, st, i), self.inSize, 64), st)
        e.oblige('returns-stream-size', cmp_eq(zext(v, 32, 64), self.get(e, st, x), 64), st)

class LEDecode(Annotated):
    """common part of the low entropy decoders: the stream in[0, N) is a sequence of tokens that expands to M bytes; (p, o) is a token boundary"""
    def __init__(self, le): super().__init__(); self.le = le
    def buffers(self, e):
        self.N, self.M = fresh('N', 64, 0, LIM31), fresh('M', 64, 0, LIM31)
        self.stream = self.region(e, 'stream', 'in', add(self.N, 64, 64)); self.out = self.region(e, 'outbuf', 'out', add(self.M, 128, 64))
    def flag(self, e, b): raise NotImplementedError
    def cnt(self, e, s): raise NotImplementedError
    def boundary(self, p, o): return band(cmp('ule', p, self.N, 64), cmp('ule', o, self.M, 64), bor(bnot(cmp_eq(p, self.N, 64)), cmp_eq(o, self.M, 64)))
    def step(self, e, p, o):
        """(condition: not a run symbol, next boundary of a single byte, next boundary of a run, its count)"""
        b = e.ro_byte(self.stream, p); n = zext(self.cnt(e, e.ro_byte(self.stream, add(p, 1, 64))), 8, 64)
        return b, cmp_eq(self.flag(e, b), 0, 8), (add(p, 1, 64), add(o, 1, 64)), (add(p, 2, 64), add(add(o, 1, 64), n, 64)), n
    def wf(self, e, p, o, K):
        """well-formedness of the stream at the boundary (p, o): the tokens that follow lie inside stream and output"""
        pre = True
        for k in range(K):
            pk, ok = add(p, k, 64), add(o, k, 64)
            b, lit, (p1, o1), (p2, o2), n = self.step(e, pk, ok); here = band(pre, cmp('ult', pk, self.N, 64))
            e.assume(bor(bnot(band(here, lit)), self.boundary(p1, o1)), bor(bnot(band(here, bnot(lit))), band(cmp('ule', n, self.le.maxcnt, 64), self.boundary(p2, o2))))
            pre = band(here, lit)
    def consume(self, e, st, p, o, P, O, depth=0):
        """the output between the boundaries (p, o) and (P, O) is the expansion of the stream between them"""
        if depth > 70: e.oblige('stream-position', False, st); return
        at = cmp_eq(p, P, 64)
        if at is True or e.must(at): e.oblige('output-position', cmp_eq(o, O, 64), st); return
        if e.feasible(at):
            e.push(); e.assume(at); e.oblige('output-position', cmp_eq(o, O, 64), st); e.pop()
        e.push(); e.assume(bnot(at))
        if not e.oblige('stream-position', band(cmp('ult', p, P, 64), cmp('ult', p, self.N, 64)), st): e.pop(); return
        b, lit, a1, a2, n = self.step(e, p, o)
        e.push(); e.assume(lit, self.boundary(*a1))
        if e.feasible():
            e.oblige('literal-copied', cmp_eq(e.read_byte(st, self.out, o), b, 8), st); self.consume(e, st, a1[0], a1[1], P, O, depth + 1)
        e.pop()
        e.push(); e.assume(bnot(lit), self.boundary(*a2), cmp('ule', n, self.le.maxcnt, 64))
        if e.feasible():
            e.oblige('run-symbol', cmp_eq(e.read_byte(st, self.out, o), b, 8), st)
            q = fresh('q', 64, 1, 256); e.push(); e.assume(cmp('ule', q, n, 64))
            if e.feasible(): e.oblige('run-symbol', cmp_eq(e.read_byte(st, self.out, add(o, q, 64)), b, 8), st)
            e.pop(); self.consume(e, st, a2[0], a2[1], P, O, depth + 1)
        e.pop(); e.pop()
    def writes(self, e, b):
        return any(i.op == 'store' and not (i.a[1][0] == 'loc' and (i.a[1][1][1:] in e.layout)) for x in e.f.loops[b] for i in e.f.blocks[x])
class LEToken(Loop):
    """token loop of a decoder: (pIn, pOut) is a token boundary, earlier output is not touched"""
    mods = ('outbuf',)
    def init(self, e): self.pk, self.ok = self.c.find(e, self.b, 'pIn'), self.c.find(e, self.b, 'pOut')
    def check(self, e, st, start):
        c = self.c; P, O = st.slots.get(self.pk), st.slots.get(self.ok)
        if not (isinstance(P, Ptr) and P.r is c.stream and isinstance(O, Ptr) and O.r is c.out): e.oblige('position-variables', False, st); return
        if start is None: e.oblige('entry-positions', c.boundary(P.o, O.o), st); return
        e.oblige('progress', cmp('ugt', P.o, self.p, 64), st)
        c.consume(e, st, self.p, self.o, P.o, O.o)
        x = fresh('x', 64, 0, 1 << 34); e.push(); e.assume(cmp('ult', x, self.o, 64))
        e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, c.out, x), e.read_byte(self.st0, c.out, x), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; self.p, self.o = fresh('p', 64, 0, LIM31), fresh('o', 64, 0, LIM31)
        st.slots[self.pk], st.slots[self.ok] = Ptr(c.stream, self.p), Ptr(c.out, self.o)
        c.havoc_region(e, st, c.out); self.st0 = st.clone()
        e.assume(c.boundary(self.p, self.o)); c.wf(e, self.p, self.o, c.ahead(e, self.b))
class LESearch(Loop):
    """for (i = 0; i < 256; i++) if (rle[i]) break: i never passes the run symbol"""
    def init(self, e): self.i = self.c.find(e, self.b, 'i')
    def check(self, e, st, start): e.oblige('search:symbol-not-passed', cmp('ule', self.c.get(e, st, self.i), self.c.R, 64), st)
    def assume(self, e, st): i = fresh('i', 64, 0, 256); self.c.put(e, st, self.i, i); e.assume(cmp('ule', i, self.c.R, 64))
class LEPiece(LEDecode):
    """const uint8_t *piece(pIn, pPreEnd, pOut, rle, symbolToCount, ppOut):
    requires  (pIn, pOut) is a token boundary, pPreEnd = end of the stream - 256 [single: exactly one run symbol]
    ensures   the result and *ppOut are a token boundary, the output between is the expansion of the stream between"""
    def __init__(self, le, single): super().__init__(le); self.single = single
    def pre(self, e, st):
        self.shape(e, ('ptr',) * 6, 'decompress piece'); self.buffers(e); P = [p for _, p in self.params(e)]
        self.rle, self.s2c = self.region(e, 'rle', 'in', 256), self.region(e, 'symbolToCount', 'in', 256)
        self.rle.facts.append(BOOL)
        if self.single:
            self.R = fresh('R', 64, 0, 255); self.rle.facts.append(lambda o, a: cmp_eq(a, zext(cmp_eq(o, self.R, 64), 1, 8), 8))
        e.layout['ppOut*'] = {0: (('ptr',), 'ppOut*')}; r = Region('ppOut*', 'slot', 8); r.align = 8; e.regions['ppOut*'] = r
        self.p, self.o = fresh('p', 64, 0, LIM31), fresh('o', 64, 0, LIM31); e.assume(self.boundary(self.p, self.o))
        for p, v in zip(P, (Ptr(self.stream, self.p), Ptr(self.stream, sub(self.N, 256, 64)), Ptr(self.out, self.o), Ptr(self.rle, 0), Ptr(self.s2c, 0), Ptr(r, 0))): st.regs[p] = v
    def flag(self, e, b): return e.ro_byte(self.rle, zext(b, 8, 64))
    def cnt(self, e, s): return e.ro_byte(self.s2c, zext(s, 8, 64))
    def ahead(self, e, b): return 33 if 'avx' in e.fname else 17
    def spec_of(self, e, st, b):
        if b not in e.f.loops or self.depth(e, b) != 1: return None
        return LEToken if self.writes(e, b) else LESearch if self.single else None
    def ret(self, e, st, v):
        self.returned += 1; O = st.slots.get(('ppOut*', 0), UNDEF)
        ok = isinstance(v, Ptr) and v.r is self.stream and isinstance(O, Ptr) and O.r is self.out
        e.oblige('returns-positions', ok and self.boundary(v.o, O.o), st)
        h = next((x for x in reversed(st.pc) if x.startswith('loop:') and self.writes(e, x[5:]) and self.depth(e, x[5:]) == 1), None)
        if ok and h is not None:
            P, Q = st.slots[self.find(e, h[5:], 'pIn')], st.slots[self.find(e, h[5:], 'pOut')]
            e.oblige('returns-positions', band(cmp_eq(P.o, v.o, 64), cmp_eq(Q.o, O.o, 64)), st)
        elif ok: e.oblige('returns-positions', band(cmp_eq(v.o, self.p, 64), cmp_eq(O.o, self.o, 64)), st)
class LECount(Loop):
    """number of run symbols: 0 -> no flag is set, 1 -> exactly one (R)"""
    def init(self, e): self.i, self.n = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'rleSymbolCount')
    def content(self, e, st, o): return e.ro_byte(self.c.dinfo, o)
    def facts(self, i, n, R, o, a): return band(bor(cmp('uge', o, i, 64), bnot(cmp_eq(n, 0, 64)), cmp_eq(a, 0, 8)), bor(cmp('uge', o, i, 64), bnot(cmp_eq(n, 1, 64)), cmp_eq(o, R, 64), cmp_eq(a, 0, 8)))
    def check(self, e, st, start):
        c = self.c; i, n = c.get(e, st, self.i), c.get(e, st, self.n); K = fresh('K', 64, 0, 255)
        if start is None: e.oblige('count:start', band(cmp_eq(i, 0, 64), cmp_eq(n, 0, 64)), st); return
        new = bnot(cmp_eq(e.ro_byte(c.dinfo, self.i0), 0, 8)); R = bite(new, self.i0, self.R, 64)
        e.oblige('count:position', band(cmp('ule', i, 256, 64), cmp('ule', n, i, 64)), st)
        e.oblige('count:flags', self.facts(i, n, R, K, e.ro_byte(c.dinfo, K)), st)
        e.oblige('count:symbol', bor(bnot(cmp_eq(n, 1, 64)), band(cmp('ult', R, i, 64), cmp_eq(bite(new, e.ro_byte(c.dinfo, self.i0), e.ro_byte(c.dinfo, self.R), 8), 1, 8))), st)
    def assume(self, e, st):
        c = self.c; i, n, R = fresh('i', 64, 0, 256), fresh('n', 64, 0, 256), fresh('R', 64, 0, 255); self.i0, self.R = i, R
        c.put(e, st, self.i, i); c.put(e, st, self.n, n); e.assume(cmp('ule', n, i, 64))
        e.add_fact(c.dinfo, lambda o, a: bor(cmp('uge', o, 256, 64), self.facts(i, n, R, o, a)))
        e.assume(bor(bnot(cmp_eq(n, 1, 64)), band(cmp('ult', R, i, 64), cmp_eq(e.ro_byte(c.dinfo, R), 1, 8))))
        st.ghost['count'] = (i, n, R)
        # a stream without run symbols is as long as its expansion
        e.assume(bor(bnot(band(cmp_eq(i, 256, 64), cmp_eq(n, 0, 64))), cmp_eq(c.N, c.M, 64)))
class LEDecompressWithInfo(LEDecode):
    """uint32_t decompress_with_info(pIn, pEnd, info, pOut, expectedOutSize): the output is the expansion of the whole stream"""
    def __init__(self, le, stem): super().__init__(le); self.stem = stem
    def pre(self, e, st):
        self.shape(e, ('ptr', 'ptr', 'ptr', 'ptr', 'int32'), 'decompress_with_info'); self.buffers(e); P = [p for _, p in self.params(e)]
        self.dinfo = self.region(e, 'dinfo', 'in', 512); self.dinfo.facts.append(lambda o, a: bor(cmp('uge', o, 256, 64), BOOL(o, a)))
        e.assume(self.boundary(0, 0))
        for p, v in zip(P, (Ptr(self.stream, 0), Ptr(self.stream, self.N), Ptr(self.dinfo, 0), Ptr(self.out, 0), trunc(self.M, 32))): st.regs[p] = v
    def flag(self, e, b): return e.ro_byte(self.dinfo, zext(b, 8, 64))
    def cnt(self, e, s): return e.ro_byte(self.dinfo, add(256, zext(s, 8, 64), 64))
    def ahead(self, e, b): return 2
    def spec_of(self, e, st, b):
        if b not in e.f.loops or self.depth(e, b) != 1: return None
        return LEToken if self.writes(e, b) else LECount
    def call(self, e, st, name, args, vals, ins):
        m = re.match(self.stem + r'_(single|multi)_(sse|avx2?)$', name)
        if not m: return super().call(e, st, name, args, vals, ins)
        e.depends.add(name)
        a, b, c, r, s, pp = vals
        ok = all(isinstance(x, Ptr) for x in vals) and a.r is self.stream and b.r is self.stream and c.r is self.out and pp.r is not None and pp.r.kind == 'slot'
        e.oblige('call:arguments', ok and band(self.boundary(a.o, c.o), cmp_eq(b.o, sub(self.N, 256, 64), 64)), st, name)
        if not ok: raise Failure('call')
        K = fresh('K', 64, 0, 255)
        e.oblige('call:tables', band(cmp_eq(e.read_byte(st, r.r, add(r.o, K, 64)), e.ro_byte(self.dinfo, K), 8), cmp_eq(e.read_byte(st, s.r, add(s.o, K, 64)), e.ro_byte(self.dinfo, add(256, K, 64)), 8)), st, name)
        if m.group(1) == 'single':
            i, n, R = st.ghost['count']
            e.oblige('call:one-run-symbol', cmp_eq(e.ro_byte(self.dinfo, K), zext(cmp_eq(K, R, 64), 1, 8), 8), st, name)
        p, o = fresh('p', 64, 0, LIM31), fresh('o', 64, 0, LIM31); e.assume(self.boundary(p, o), cmp('uge', p, a.o, 64), cmp('uge', o, c.o, 64))
        g = self.havoc_region(e, st, self.out, c.o)
        e.store(st, pp, ('ptr',), Ptr(self.out, o), 8); e.written.add((pp.r.name, pp.o))
        return Ptr(self.stream, p)
    def ret(self, e, st, v):
        self.returned += 1
        e.oblige('returns-declared-size', cmp_eq(v, trunc(self.M, 32), 32), st)
        h = next((x for x in reversed(st.pc) if x.startswith('loop:') and self.spec_of(e, st, x[5:]) is LEToken), None)
        if h is not None:
            P, O = st.slots[self.find(e, h[5:], 'pIn')], st.slots[self.find(e, h[5:], 'pOut')]
            e.oblige('whole-stream-decoded', band(cmp_eq(P.o, self.N, 64), cmp_eq(O.o, self.M, 64)), st); return
        k = fresh('k', 64, 0, LIM31); e.push(); e.assume(cmp('ult', k, self.M, 64))
        e.oblige('whole-stream-decoded', band(cmp_eq(self.N, self.M, 64), cmp_eq(e.read_byte(st, self.out, k), e.ro_byte(self.stream, k), 8)), st)
        e.oblige('token-not-run', cmp_eq(self.flag(e, e.ro_byte(self.stream, k)), 0, 8), st); e.pop()

# ---- the symbol table in front of the stream: 256 run flags as bits, the number n of used symbols (256 as 0), the symbols by frequency (the last of 256 is
# implied).  perm: the frequency order (used symbols, then the unused ones ascending), inv: its inverse ---------------------------------------------
class Perm:
    def __init__(self, c, e, name='perm'):
        self.e = e; self.p = c.region(e, name, 'in', 256); self.i = c.region(e, name + '_inv', 'in', 256)
        self.n = fresh('n_' + name, 64, 1, 256)
        self.p.facts.append(lambda o, a: band(cmp_eq(self.inv_raw(a), trunc(o, 8) if not isinstance(o, int) else o & 255, 8)) if self.deep(0) else None)
        self.i.facts.append(lambda o, a: cmp_eq(self.at_raw(a), trunc(o, 8) if not isinstance(o, int) else o & 255, 8) if self.deep(0) else None)
        self.d = 0
    def deep(self, k): return self.d < 1
    def inv_raw(self, b):
        self.d += 1
        try: return self.e.ro_byte(self.i, zext(b, 8, 64))
        finally: self.d -= 1
    def at_raw(self, k):
        self.d += 1
        try: return self.e.ro_byte(self.p, zext(k, 8, 64))
        finally: self.d -= 1
    def at(self, k): return self.e.ro_byte(self.p, k)
    def inv(self, b): return zext(self.e.ro_byte(self.i, b), 8, 64)
    def asc(self, k, l):
        """the unused symbols are in ascending order"""
        a, b = zext(self.at(k), 8, 64), zext(self.at(l), 8, 64); lt = lambda x, y: cmp('ult', x, y, 64)
        ins = band(cmp('uge', k, self.n, 64), cmp('uge', l, self.n, 64), lt(k, 256), lt(l, 256))
        return bor(bnot(ins), band(bor(bnot(lt(k, l)), lt(a, b)), bor(bnot(lt(l, k)), lt(b, a))))
    def stored(self): return bite(cmp_eq(self.n, 256, 64), 255, self.n, 64)
    def tag(self): return trunc(self.n, 8)

class LEWriteSymbols(Loop):
    """for (i = 0; i < symbolCount; i++) pOut[33 + i] = symbolsByProb[i]:   the symbols below i are written, the 33 bytes before them are kept"""
    mods = ('out',)
    def init(self, e): self.i = self.c.find(e, self.b, 'i')
    def check(self, e, st, start):
        c = self.c; i = c.get(e, st, self.i); K = fresh('K', 64, 0, 255)
        e.oblige('info:position', cmp('ule', i, 256, 64), st)
        if start is None: e.oblige('info:position', cmp_eq(i, 0, 64), st); self.st0 = st; return
        e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        e.push(); e.assume(cmp('ult', K, i, 64)); e.oblige('info:symbols', cmp_eq(e.read_byte(st, c.out, add(33, K, 64)), e.ro_byte(c.info, add(256, K, 64)), 8), st); e.pop()
        for r in range(33): e.oblige('frame:flags', cmp_eq(e.read_byte(st, c.out, r), e.read_byte(self.st0, c.out, r), 8), st)
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, 256); c.put(e, st, self.i, i)
        g = c.havoc_region(e, st, c.out, 33); g.facts.append(lambda o, a: bor(cmp('ult', o, 33, 64), cmp('uge', o, add(33, i, 64), 64), cmp_eq(a, e.ro_byte(c.info, add(256, sub(o, 33, 64), 64)), 8)))
class LEWriteInfo(Annotated):
    """ensures: flags as bits, number of symbols, the first n (at most 255) symbols; returns 33 + n"""
    def pre(self, e, st):
        self.shape(e, ('ptr', 'ptr', 'int32'), 'write_compress_info'); P = [p for _, p in self.params(e)]
        self.outSize = fresh('outSize', 64, 0, (1 << 32) - 1)
        self.cap = fresh('cap', 64, 0, LIM31)
        self.info = self.region(e, 'info', 'in', 513); self.out = self.region(e, 'out', 'out', self.cap); self.info.nullable = self.out.nullable = True
        sc = e.ro_byte(self.info, 512); e.assume(cmp('uge', self.cap, add(33, bite(cmp_eq(sc, 0, 8), 255, zext(sc, 8, 64), 64), 64), 64))
        self.info.facts.append(lambda o, a: bor(cmp('uge', o, 256, 64), BOOL(o, a)))
        for p, v in zip(P, (Ptr(self.info, 0), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        self.usable = band(bnot(self.info.null), bnot(self.out.null), cmp('uge', self.outSize, 289, 64))
    def spec_of(self, e, st, b):
        if b not in e.f.loops or self.depth(e, b) != 1: return None
        return LEWriteSymbols if any(base_name(e.slot_names()[k][0]) == 'symbolCount' for x in e.f.loops[b] for d, k in self.acc(e)[x]) else None
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.out and not st.ghost.get('stored'): e.oblige('rejecting-call-writes-nothing', self.usable, st)
        st.ghost['stored'] = True
    def ret(self, e, st, v):
        self.returned += 1
        if not st.ghost.get('stored'): e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        out = lambda o: e.read_byte(st, self.out, o); sc = e.ro_byte(self.info, 512); n = bite(cmp_eq(sc, 0, 8), 255, zext(sc, 8, 64), 64)
        for r in range(32):
            b = out(r); e.oblige('info:flags', band(*[z3.Xor(ZB(trunc(lshr(b, j, 8), 1)), ZB(cmp_eq(e.ro_byte(self.info, 8 * r + j), 0, 8))) for j in range(8)]), st)
        e.oblige('info:symbol-count', cmp_eq(out(32), sc, 8), st)
        k = fresh('k', 64, 0, 255); e.push(); e.assume(cmp('ult', k, n, 64)); e.oblige('info:symbols', cmp_eq(out(add(33, k, 64)), e.ro_byte(self.info, add(256, k, 64)), 8), st); e.pop()
        e.oblige('info:size', cmp_eq(zext(v, 32, 64), add(33, n, 64), 64), st)

class LERead1(Loop):
    mods = ('symbolsByProb', 'symbolToCount')
    def init(self, e): self.i, self.x = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'index')
    def check(self, e, st, start):
        c = self.c; i, x = c.get(e, st, self.i), c.get(e, st, self.x); K = fresh('K', 64, 0, 255)
        e.oblige('read:position', band(cmp_eq(x, add(33, i, 64), 64), cmp('ule', i, c.pm.stored(), 64)), st)
        if start is None: e.oblige('read:position', cmp_eq(i, 0, 64), st); return
        e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        e.push(); e.assume(cmp('ult', K, i, 64)); e.oblige('read:symbols', cmp_eq(e.read_byte(st, c.loc['symbolsByProb'], K), c.pm.at(K), 8), st); e.pop()
        e.push(); e.assume(cmp('ult', c.pm.inv(K), i, 64)); e.oblige('read:counts', cmp_eq(zext(e.read_byte(st, c.loc['symbolToCount'], K), 8, 64), c.pm.inv(K), 64), st); e.pop()
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, 255); c.put(e, st, self.i, i); c.put(e, st, self.x, add(33, i, 64)); e.assume(cmp('ule', i, c.pm.stored(), 64))
        g = c.havoc_region(e, st, c.loc['symbolsByProb']); g.facts.append(lambda o, a: bor(cmp('uge', o, i, 64), cmp_eq(a, c.pm.at(o), 8)))
        g = c.havoc_region(e, st, c.loc['symbolToCount']); g.facts.append(lambda o, a: bor(cmp('uge', c.pm.inv(o), i, 64), cmp_eq(zext(a, 8, 64), c.pm.inv(o), 64)))
class LERead2(Loop):
    mods = ('symbolToCount',)
    def init(self, e): self.i, self.x = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'nextSymbol')
    def inv(self, e, i, nx):
        pm = self.c.pm; n = pm.stored(); q = bite(cmp_eq(nx, 256, 64), 255, nx, 64); p1 = sub(bite(cmp_eq(nx, 0, 64), 1, nx, 64), 1, 64)
        return band(cmp('ule', i, 256, 64), cmp('uge', nx, n, 64), cmp('ule', nx, 256, 64), bor(cmp_eq(nx, 256, 64), cmp('uge', zext(pm.at(q), 8, 64), i, 64)), bor(cmp_eq(nx, n, 64), cmp('ult', zext(pm.at(p1), 8, 64), i, 64)))
    def check(self, e, st, start):
        c = self.c; i, x = c.get(e, st, self.i), c.get(e, st, self.x, 8); pm = c.pm
        if start is None:
            e.oblige('read:rest', band(cmp_eq(i, 0, 64), cmp_eq(x, trunc(pm.stored(), 8), 8)), st); nx = pm.stored()
        else:
            t = [self.nx, add(self.nx, 1, 64)]; nx = t[0] if e.must(cmp_eq(x, trunc(t[0], 8), 8)) else t[1]
            e.oblige('read:rest', cmp_eq(x, trunc(nx, 8), 8), st); e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
            k = pm.inv(self.i0)
            for l in (self.nx, sub(self.nx, 1, 64)): e.assume(pm.asc(k, bite(cmp('ult', l, 256, 64), l, 0, 64)))
            e.assume(pm.asc(bite(cmp_eq(nx, 256, 64), 255, nx, 64), bite(cmp('ult', self.nx, 256, 64), self.nx, 255, 64)))
        e.oblige('read:rest', self.inv(e, i, nx), st)
        K = fresh('K', 64, 0, 255); e.push(); e.assume(bor(cmp('ult', K, i, 64), cmp('ult', pm.inv(K), pm.stored(), 64)))
        e.oblige('read:counts', cmp_eq(zext(e.read_byte(st, c.loc['symbolToCount'], K), 8, 64), pm.inv(K), 64), st); e.pop()
    def assume(self, e, st):
        c = self.c; pm = c.pm; i, nx = self.i0, self.nx = fresh('i', 64, 0, 256), fresh('next', 64, 0, 256)
        c.put(e, st, self.i, i); c.put(e, st, self.x, trunc(nx, 8)); e.assume(self.inv(e, i, nx))
        g = c.havoc_region(e, st, c.loc['symbolToCount'])
        g.facts.append(lambda o, a: bor(band(cmp('uge', o, i, 64), cmp('uge', pm.inv(o), pm.stored(), 64)), cmp_eq(zext(a, 8, 64), pm.inv(o), 64)))
class LERead3(Loop):
    def init(self, e): self.i, self.j = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'j')
    def check(self, e, st, start):
        c = self.c; i, j = c.get(e, st, self.i), c.get(e, st, self.j)
        e.oblige('read:listed', band(cmp('ule', j, c.pm.stored(), 64), cmp('uge', c.pm.inv(i), j, 64)), st)
        if start is not None: e.oblige('progress', cmp('ugt', j, self.j0, 64), st)
    def assume(self, e, st):
        c = self.c; j = self.j0 = fresh('j', 64, 0, 255); c.put(e, st, self.j, j); i = c.get(e, st, self.i)
        e.assume(cmp('ule', j, c.pm.stored(), 64), cmp('uge', c.pm.inv(i), j, 64))
class LEReadInfo(Annotated):
    """requires  a symbol table as written by write_compress_info for the permutation perm with n used symbols
    ensures   rle[b] is the flag bit of b, symbolToCount is the inverse permutation, returns 33 + min(n, 255)"""
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr'), 'read_decompress_info'); P = [p for _, p in self.params(e)]
        self.inSize = fresh('inSize', 64, 0, (1 << 32) - 1); self.pm = Perm(self, e); n = self.pm.stored()
        self.stream = self.region(e, 'stream', 'in', add(33, n, 64)); self.dinfo = self.region(e, 'dinfo', 'out', 512); self.stream.nullable = self.dinfo.nullable = True
        self.stream.facts.append(lambda o, a: band(bor(bnot(cmp_eq(o, 32, 64)), cmp_eq(a, self.pm.tag(), 8)), bor(cmp('ult', o, 33, 64), cmp('uge', o, add(33, n, 64), 64), cmp_eq(a, self.pm.at(sub(o, 33, 64)), 8)) if not (isinstance(o, int) and o < 33) else True))
        for p, v in zip(P, (Ptr(self.stream, 0), trunc(self.inSize, 32), Ptr(self.dinfo, 0))): st.regs[p] = v
        self.usable = band(bnot(self.stream.null), bnot(self.dinfo.null), bnot(cmp_eq(self.inSize, 0, 64)))
        self.loc = {re.sub(r'\d*$', '', k): r for k, r in e.bigs.items()}
        if not {'rle', 'symbolToCount', 'symbolsByProb'} <= set(self.loc): raise Unsupported('tables not found')
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        n = {base_name(e.slot_names()[k][0]) for x in e.f.loops[b] for d, k in self.acc(e)[x]}
        if self.depth(e, b) == 2: return LERead3
        return LERead2 if 'nextSymbol' in n else LERead1 if 'symbolsWithProb' in n else None
    def ret(self, e, st, v):
        self.returned += 1
        if not any(x.startswith('loop:') for x in st.pc): e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        for j in range(256):
            f = e.read_byte(st, self.dinfo, j); e.oblige('info:flags', cmp_eq(f, zext(trunc(lshr(e.ro_byte(self.stream, j // 8), j % 8, 8), 1), 1, 8), 8), st)
        K = fresh('K', 64, 0, 255)
        e.oblige('info:counts', cmp_eq(zext(e.read_byte(st, self.dinfo, add(256, K, 64)), 8, 64), self.pm.inv(K), 64), st)
        e.oblige('info:size', cmp_eq(zext(v, 32, 64), add(33, self.pm.stored(), 64), 64), st)

# ---- the API functions over these contracts ------------------------------------------------------------------------------------------------------
class LEApi(Annotated):
    array_region = 256
    def __init__(self, le): super().__init__(); self.le = le
    def buffers(self, e, st, P):
        self.inSize, self.outSize = fresh('inSize', 64, 0, 1 << 30), fresh('outSize', 64, 0, (1 << 32) - 1)
        self.inp, self.out = self.region(e, 'in', 'in', self.inSize), self.region(e, 'out', 'out', self.outSize); self.inp.nullable = self.out.nullable = True
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        if len(e.bigs) != 1: raise Unsupported('symbol table not found')
        self.tab = next(iter(e.bigs.values()))
    def is_ptr(self, v, r, off): return isinstance(v, Ptr) and v.r is r and cmp_eq(v.o, off, 64)
    def copy_into(self, e, st, reg, off, n, name):
        """the callee writes n bytes of its own at off"""
        g = Region('%s!%d' % (name, next(_ctr)), 'in'); e.regions[g.name] = g
        st.out[reg.name] = st.out.get(reg.name, ()) + (Layer('copy', off, n, src=g, soff=0),); return g
    def kept(self, e, st, reg, off, n, g, what):
        k = fresh('k', 64, 0, LIM31); e.push(); e.assume(cmp('ult', k, n, 64)); e.oblige(what, cmp_eq(e.read_byte(st, reg, add(off, k, 64)), e.ro_byte(g, k), 8), st); e.pop()
    def word(self, e, st, reg, off): return from_bytes([e.read_byte(st, reg, add(off, j, 64) if not isinstance(off, int) else off + j) for j in range(4)])
class LEApiCompress(LEApi):
    """ensures  unusable argument: 0, nothing written; otherwise: compressed size, inSize, the symbol table of the input's frequency order, its token stream;
    the result is the number of bytes written"""
    def bound(self): return add(self.inSize, 297, 64)
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'low entropy compress'); self.buffers(e, st, [p for _, p in self.params(e)])
        self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), cmp('uge', self.outSize, self.bound(), 64))
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.out: e.oblige('rejecting-call-writes-nothing', self.usable, st)
    def call(self, e, st, name, args, vals, ins):
        if re.match(r'rle8_low_entropy_(short_)?compress_bounds$', name): e.depends.add(name); v = zext(vals[0], 32, 64); return trunc(bite(cmp('ule', v, (1 << 32) - 298, 64), add(v, 297, 64), 0, 64), 32)
        if re.match(r'rle8_low_entropy_(short_)?get_compress_info', name):
            e.depends.add(name); e.oblige('call:arguments', band(self.is_ptr(vals[0], self.inp, 0), cmp_eq(vals[1], trunc(self.inSize, 32), 32), self.is_ptr(vals[2], self.tab, 0)), st, name)
            e.oblige('call:non-null', bnot(self.inp.null), st, name)
            pm = Perm(self, e, 'order'); g = self.copy_into(e, st, self.tab, 0, 513, 'info')
            g.facts.append(lambda o, a: band(bor(cmp('uge', o, 256, 64), BOOL(o, a)), bor(cmp('ult', o, 256, 64), cmp('uge', o, 512, 64), cmp_eq(a, pm.at(sub(o, 256, 64)), 8)) if not isinstance(o, int) or 256 <= o < 512 else True, bor(bnot(cmp_eq(o, 512, 64)), cmp_eq(a, pm.tag(), 8))))
            st.ghost['info'] = (g, pm); return bnot(cmp_eq(self.inSize, 0, 64))
        if 'info' in st.ghost and name in ('rle8_low_entropy_write_compress_info', 'rle8_low_entropy_short_write_compress_info'):
            e.depends.add(name); g, pm = st.ghost['info']; size = add(33, pm.stored(), 64); o = vals[1]
            ok = isinstance(o, Ptr) and o.r is self.out
            e.oblige('call:arguments', ok and band(self.is_ptr(vals[0], self.tab, 0), cmp('uge', zext(vals[2], 32, 64), 289, 64), cmp('ule', add(o.o, size, 64), self.outSize, 64)), st, name)
            if not ok: raise Failure('call')
            self.kept(e, st, self.tab, 0, 513, g, 'call:tables'); e.oblige('rejecting-call-writes-nothing', self.usable, st)
            st.ghost['table'] = (o.o, size, self.copy_into(e, st, self.out, o.o, size, 'table')); return trunc(size, 32)
        if 'table' in st.ghost and re.match(r'rle8_low_entropy_(short_)?compress_with_info$', name): return self.section(e, st, name, vals)
        return super().call(e, st, name, args, vals, ins)
    def section(self, e, st, name, vals):
        e.depends.add(name); g, pm = st.ghost['info']; o = vals[3]; ok = isinstance(o, Ptr) and o.r is self.out
        cap = zext(vals[4], 32, 64)
        e.oblige('call:arguments', ok and band(self.is_ptr(vals[0], self.inp, 0), cmp_eq(vals[1], trunc(self.inSize, 32), 32), self.is_ptr(vals[2], self.tab, 0), cmp('uge', cap, self.inSize, 64), cmp('ule', add(o.o, cap, 64), self.outSize, 64)), st, name)
        if not ok: raise Failure('call')
        self.kept(e, st, self.tab, 0, 513, g, 'call:tables'); e.oblige('rejecting-call-writes-nothing', self.usable, st)
        n = fresh('stream', 64, 1, LIM31); e.assume(cmp('ule', n, self.inSize, 64))      # the size argument: see DESIGN.md
        st.ghost['stream'] = (o.o, n, self.copy_into(e, st, self.out, o.o, n, 'tokens')); return trunc(n, 32)
    def ret(self, e, st, v):
        self.returned += 1
        if 'stream' not in st.ghost: e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        to, tn, tg = st.ghost['table']; so, sn, sg = st.ghost['stream']; total = add(so, sn, 64)
        e.oblige('layout', band(cmp_eq(to, 8, 64), cmp_eq(so, add(to, tn, 64), 64)), st)
        self.kept(e, st, self.out, to, tn, tg, 'layout:table'); self.kept(e, st, self.out, so, sn, sg, 'layout:tokens')
        e.oblige('compressed-size-field', band(cmp_eq(self.word(e, st, self.out, 0), trunc(total, 32), 32), cmp_eq(v, trunc(total, 32), 32)), st)
        e.oblige('inv:declared-size', cmp_eq(self.word(e, st, self.out, 4), trunc(self.inSize, 32), 32), st)
        e.oblige('result-within-bounds', cmp('ule', total, self.bound(), 64), st)
class LEApiDecompress(LEApi):
    """requires a stream of csize bytes as LEApiCompress ensures;  ensures  unusable argument: 0, nothing written; otherwise the table and the token stream are
    handed to the decoder contracts, the declared size is returned"""
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'low entropy decompress'); self.buffers(e, st, [p for _, p in self.params(e)])
        rd = lambda k: zext(from_bytes([e.ro_byte(self.inp, k + j) for j in range(4)]), 32, 64)
        self.csize, self.usize = rd(0), rd(4); self.pm = Perm(self, e); self.toks = add(self.first(e), add(33, self.pm.stored(), 64), 64)
        e.assume(cmp('ule', self.csize, LIM31, 64), cmp('ult', self.toks, self.csize, 64), bnot(cmp_eq(self.usize, 0, 64)))
        self.inp.rlim = add(self.csize, 64, 64); self.out.wlim = self.out.rlim = add(self.usize, 128, 64)
        self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), bnot(cmp_eq(self.outSize, 0, 64)), cmp('uge', self.outSize, self.usize, 64), cmp('uge', self.inSize, self.csize, 64))
    def first(self, e): return 8
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.out: e.oblige('rejecting-call-writes-nothing', self.usable, st)
    def call(self, e, st, name, args, vals, ins):
        if name in ('rle8_low_entropy_read_decompress_info', 'rle8_low_entropy_short_read_decompress_info'):
            e.depends.add(name); e.oblige('call:arguments', band(self.is_ptr(vals[0], self.inp, self.first(e)), bnot(cmp_eq(vals[1], 0, 32)), self.is_ptr(vals[2], self.tab, 0)), st, name)
            g = self.copy_into(e, st, self.tab, 0, 512, 'dinfo'); st.ghost['info'] = g; return trunc(add(33, self.pm.stored(), 64), 32)
        if 'info' in st.ghost and re.match(r'rle8_low_entropy_(short_)?decompress_with_info$', name): return self.section(e, st, name, vals)
        return super().call(e, st, name, args, vals, ins)
    def section(self, e, st, name, vals):
        e.depends.add(name)
        e.oblige('call:arguments', band(self.is_ptr(vals[0], self.inp, self.toks), self.is_ptr(vals[1], self.inp, self.csize), self.is_ptr(vals[2], self.tab, 0), self.is_ptr(vals[3], self.out, 0), cmp_eq(vals[4], trunc(self.usize, 32), 32)), st, name)
        self.kept(e, st, self.tab, 0, 512, st.ghost['info'], 'call:tables'); e.oblige('rejecting-call-writes-nothing', self.usable, st)
        st.ghost['decoded'] = True; return trunc(self.usize, 32)
    def ret(self, e, st, v):
        self.returned += 1
        if not st.ghost.get('decoded'): e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        e.oblige('returns-declared-size', cmp_eq(v, trunc(self.usize, 32), 32), st)
class LESizeQuery(Annotated):
    """uint32_t decompressed_size(pIn, inSize): the declared size, 0 if there is none"""
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32'), 'decompressed_size'); P = [p for _, p in self.params(e)]
        self.inSize = fresh('inSize', 64, 0, (1 << 32) - 1); self.inp = self.region(e, 'in', 'in', self.inSize); self.inp.nullable = True
        st.regs[P[0]] = Ptr(self.inp, 0); st.regs[P[1]] = trunc(self.inSize, 32)
    def ret(self, e, st, v):
        self.returned += 1; bad = bor(self.inp.null, cmp('ult', self.inSize, 8, 64))
        e.push(); e.assume(bad)
        if e.feasible(): e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st)
        e.pop(); e.push(); e.assume(bnot(bad))
        if e.feasible(): e.oblige('size-query', cmp_eq(v, from_bytes([e.ro_byte(self.inp, 4 + j) for j in range(4)]), 32), st)
        e.pop()

# ---- the frequency order ----------------------------------------------------------------------------------------------------------------------------
def word_fact(e, reg, q):
    """a fact q(index, value) about every 32 bit word of a read-only region"""
    busy = []
    def f(o, a):
        if busy: return None
        if isinstance(o, int): b, ok = o & ~3, o & 3 == 0
        else: b, ok = o, o.c % 4 == 0 and all(k % 4 == 0 for k in o.t.values())
        if not ok: return None
        busy.append(1)
        try: w = from_bytes([a] + [e.ro_byte(reg, add(b, j, 64)) for j in range(1, 4)])
        finally: busy.pop()
        i = o // 4 if isinstance(o, int) else mk(64, {x: k // 4 for x, k in o.t.items()}, o.c // 4)
        return q(i, w)
    e.add_fact(reg, f)
class Order:
    """placed symbols: sym[k] for k in [0, x) and [r, 256), inv the (ghost) inverse, consumed[b] the symbols placed; pcount[b] != 0 of the symbols that are not
    (only those >= t were visited); the symbols from r on are in ascending order"""
    def __init__(self, c, e, st, x, r, t, install=True):
        self.c, self.e, self.x, self.r, self.t, self.d = c, e, x, r, t, 0
        self.sym = c.havoc_region(e, st, c.loc['symbolsByProb']); self.con = c.havoc_region(e, st, c.loc['consumed']); self.inv_ = c.region(e, 'inv!%d' % next(_ctr), 'in', 256)
        self.sym.facts.append(lambda o, a: self.nest(lambda: self.f_sym(o, a))); self.con.facts.append(lambda o, a: self.nest(lambda: self.f_con(o, a)))
        self.at = lambda k: e.ro_byte(self.sym, k); self.cons = lambda b: e.ro_byte(self.con, b); self.inv = lambda b: zext(e.ro_byte(self.inv_, b), 8, 64)
        self.pc = lambda b: c.pcount(e, st, b)
    def nest(self, f):
        if self.d > 1: return None
        self.d += 1
        try: return f()
        finally: self.d -= 1
    def placed(self, k): return band(cmp('ult', k, 256, 64), bor(cmp('ult', k, self.x, 64), cmp('uge', k, self.r, 64)))
    def f_sym(self, k, a):
        b = zext(a, 8, 64); return bor(bnot(self.placed(k)), band(cmp_eq(self.inv(b), k, 64), bnot(cmp_eq(self.cons(b), 0, 8)), cmp('uge', b, self.t, 64)))
    def f_con(self, b, a):
        on = bnot(cmp_eq(a, 0, 8)); i = self.inv(b)
        return bor(cmp('uge', b, 256, 64), band(BOOL(b, a), bor(bnot(on), band(self.placed(i), cmp_eq(zext(self.at(i), 8, 64), b, 64), cmp('uge', b, self.t, 64))), bor(on, cmp('ult', b, self.t, 64), bnot(cmp_eq(self.pc(b), 0, 32)))))
    def asc(self, k, l):
        lt = lambda x, y: cmp('ult', x, y, 64)
        return bor(lt(k, self.r), bnot(lt(k, l)), cmp('uge', l, 256, 64), lt(zext(self.at(k), 8, 64), zext(self.at(l), 8, 64)))
    def check(self, e, st, x, r, t, new):
        """the invariant at (x, r, t) in the state st; new: (symbol, position) placed since, or None"""
        sy = lambda k: e.read_byte(st, self.c.loc['symbolsByProb'], k); co = lambda b: e.read_byte(st, self.c.loc['consumed'], b)
        inv = self.inv if new is None else lambda b: bite(cmp_eq(b, new[0], 64), new[1], self.inv(b), 64)
        pl = lambda k: bor(cmp('ult', k, x, 64), cmp('uge', k, r, 64))
        K, B, k, l = (fresh(n, 64, 0, 255) for n in 'KBkl')
        e.push(); e.assume(pl(K)); s = zext(sy(K), 8, 64); e.oblige('order:inverse', band(cmp_eq(inv(s), K, 64), cmp('uge', s, t, 64)), st); e.oblige('order:consumed', bnot(cmp_eq(co(s), 0, 8)), st); e.pop()
        on = bnot(cmp_eq(co(B), 0, 8)); e.oblige('order:boolean', cmp('ule', co(B), 1, 8), st)
        e.push(); e.assume(on)
        if e.feasible(): i = inv(B); e.oblige('order:placed', band(pl(i), cmp('ult', i, 256, 64), cmp_eq(zext(sy(i), 8, 64), B, 64), cmp('uge', B, t, 64)), st)
        e.pop(); e.push(); e.assume(bnot(on), cmp('uge', B, t, 64))
        if e.feasible(): e.oblige('order:unused', bnot(cmp_eq(self.pc(B), 0, 32)), st)
        e.pop(); e.push(); e.assume(cmp('uge', k, r, 64), cmp('ult', k, l, 64), self.asc(k, l)); e.oblige('order:ascending', cmp('ult', sy(k), sy(l), 8), st); e.pop()
class CIScan(Loop):
    """counting loop: a closed run of c bytes b adds c to prob[b] and at least the number of its tokens, ceil(c / (maxcnt + 1)), to pcount[b]; no counter overflows"""
    mods = ('prob', 'pcount')
    def init(self, e): self.i, self.last, self.cnt = (self.c.find(e, self.b, n) for n in ('i', 'lastSymbol', 'count'))
    def inv(self, i, last, cnt, b, v):
        v = zext(v, 32, 64); here = cmp_eq(b, last, 64)
        return bor(cmp_eq(i, 0, 64), band(cmp('ule', v, i, 64), bor(bnot(here), cmp('ule', add(v, cnt, 64), i, 64))))
    def check(self, e, st, start):
        c = self.c; i, last, cnt = (c.get(e, st, k) for k in (self.i, self.last, self.cnt)); B = fresh('B', 64, 0, 255)
        if start is None:
            e.oblige('count:start', cmp_eq(c.prob(e, st, B), 0, 32), st)
            v = c.pcount(e, st, B); e.oblige('count:start', band(cmp_eq(i, 0, 64), cmp_eq(last, 0, 64), cmp_eq(cnt, 0, 64), bor(cmp_eq(v, 0, 32), band(cmp_eq(B, 0, 64), cmp_eq(v, (1 << 32) - 1, 32), bnot(cmp_eq(e.ro_byte(c.inp, 0), 0, 8))))), st); return
        e.oblige('count:position', band(cmp('ule', i, c.inSize, 64), cmp('uge', cnt, 1, 64), cmp('ule', cnt, i, 64)), st); e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        for z in (cmp_eq(self.i0, 0, 64), bnot(cmp_eq(self.i0, 0, 64))):
            e.push(); e.assume(z)
            if e.feasible():
                L = self.last0; e.oblige('count:no-overflow', self.inv(i, last, cnt, L, c.pcount(e, st, L)), st); e.oblige('count:no-overflow', self.inv(i, last, cnt, L, c.prob(e, st, L)), st)
                if e.must(cmp_eq(last, L, 64)): e.oblige('count:open-run', band(cmp_eq(cnt, add(self.cnt0, 1, 64), 64), c.counted(e, self.st0, st, L, 0)), st)
                else: e.oblige('count:closed-run', band(cmp_eq(cnt, 1, 64), c.counted(e, self.st0, st, L, self.cnt0)), st)
                e.oblige('count:symbol', cmp_eq(trunc(last, 8), e.ro_byte(c.inp, self.i0), 8), st)
            e.pop()
        e.push(); e.assume(bnot(cmp_eq(B, self.last0, 64))); e.oblige('count:no-overflow', band(self.inv(i, last, cnt, B, c.pcount(e, st, B)), self.inv(i, last, cnt, B, c.prob(e, st, B))), st); e.oblige('count:other-symbols', c.counted(e, self.st0, st, B, 0), st); e.pop()
    def assume(self, e, st):
        c = self.c; i, last, cnt = self.i0, self.last0, self.cnt0 = fresh('i', 64, 0, 1 << 30), zext(fresh('last', 8), 8, 64), fresh('count', 64, 0, 1 << 30)
        for k, v in ((self.i, i), (self.last, last), (self.cnt, cnt)): c.put(e, st, k, v)
        e.assume(cmp('ule', i, c.inSize, 64), cmp('ule', cnt, i, 64), bor(bnot(cmp_eq(i, 0, 64)), cmp_eq(last, 0, 64)), bor(cmp_eq(i, 0, 64), cmp('uge', cnt, 1, 64)))
        h = c.havoc_region(e, st, c.loc['prob']); g = c.havoc_region(e, st, c.loc['pcount'])
        word_fact(e, h, lambda b, v: band(self.inv(i, last, cnt, b, v), bor(bnot(cmp_eq(i, 0, 64)), cmp_eq(v, 0, 32))))
        b0 = bnot(cmp_eq(e.ro_byte(c.inp, 0), 0, 8))
        word_fact(e, g, lambda b, v: band(self.inv(i, last, cnt, b, v), bor(bnot(cmp_eq(i, 0, 64)), cmp_eq(v, 0, 32), band(cmp_eq(b, 0, 64), cmp_eq(v, (1 << 32) - 1, 32), b0))))
        self.st0 = st.clone(); st.ghost['last'] = last; st.ghost['scan'] = (self.st0, i, last, cnt)
class CIFlags(Loop):
    """rle[b] is 0 or 1, and 1 only if the runs of b are at least twice as long as their tokens are many"""
    mods = ('rle',)
    def init(self, e): self.i = self.c.find(e, self.b, 'i'); self.own = any(base_name(e.slot_names()[k][0]).startswith('maxBytesSaved') for x in e.f.loops[self.b] for d, k in self.c.acc(e)[x])
    def check(self, e, st, start):
        c = self.c; i = c.get(e, st, self.i); e.oblige('flags:position', cmp('ule', i, 256, 64), st)
        if start is not None: e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        else:
            s0, i0, L, cnt = st.ghost['scan']; B = fresh('B', 64, 0, 255); e.oblige('count:all', cmp_eq(i0, c.inSize, 64), st); e.oblige('count:closed-run', c.counted(e, s0, st, L, cnt), st)
            e.push(); e.assume(bnot(cmp_eq(B, L, 64))); e.oblige('count:other-symbols', c.counted(e, s0, st, B, 0), st); e.pop()
        if self.own:
            m = c.get(e, st, c.find(e, self.b, 'maxBytesSavedIndexIndex')); e.oblige('flags:symbol', cmp('ult', m, 256, 64), st)
            e.oblige('flags:saves-space', bor(cmp_eq(c.get(e, st, c.find(e, self.b, 'maxBytesSaved')), 0, 64), c.saves(e, st, m)), st)
        K = fresh('K', 64, 0, 255); e.push(); e.assume(cmp('ult', K, i, 64)); v = e.read_byte(st, c.loc['rle'], K); e.oblige('flags:boolean', cmp('ule', v, 1, 8), st)
        e.oblige('flags:saves-space', bor(cmp_eq(v, 0, 8), c.saves(e, st, K)), st); e.pop()
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, 256); c.put(e, st, self.i, i)
        if self.own:
            m, v = fresh('best', 64, 0, 255), fresh('saved', 64); c.put(e, st, c.find(e, self.b, 'maxBytesSavedIndexIndex'), m); c.put(e, st, c.find(e, self.b, 'maxBytesSaved'), v)
            e.assume(bor(cmp_eq(v, 0, 64), c.saves(e, st, m)))
        else: g = c.havoc_region(e, st, c.loc['rle']); st1 = st.clone(); g.facts.append(lambda o, a: bor(cmp('uge', o, i, 64), band(BOOL(o, a), bor(cmp_eq(a, 0, 8), c.saves(e, st1, o)))))
class CIUnused(Loop):
    """symbols that do not occur are placed from the back, in ascending order; a used symbol (the last one of the input) keeps a place"""
    mods = ('symbolsByProb', 'consumed')
    def init(self, e): self.i, self.r = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'remaining')
    def check(self, e, st, start):
        c = self.c; t, r = add(c.get(e, st, self.i), 1, 64), c.get(e, st, self.r); L = st.ghost['last']
        if start is None:
            K = fresh('K', 64, 0, 255); e.oblige('order:start', band(cmp_eq(t, 256, 64), cmp_eq(r, 256, 64), cmp_eq(e.read_byte(st, c.loc['consumed'], K), 0, 8)), st)
            e.oblige('count:used-symbol', bnot(cmp_eq(c.pcount(e, st, L), 0, 32)), st); return
        o = self.o; e.oblige('progress', cmp('ult', t, o.t, 64), st)
        e.oblige('order:remaining', self.rem(t, r, L), st)
        o.check(e, st, 0, r, t, None if e.must(cmp_eq(r, o.r, 64)) else (sub(o.t, 1, 64), r))
    def rem(self, t, r, L): return band(cmp('ule', r, 256, 64), cmp('uge', r, bite(cmp('uge', L, t, 64), add(t, 1, 64), t, 64), 64))
    def assume(self, e, st):
        c = self.c; t, r = fresh('t', 64, 0, 256), fresh('r', 64, 0, 256); L = st.ghost['last']; c.put(e, st, self.i, sub(t, 1, 64)); c.put(e, st, self.r, r)
        self.o = st.ghost['order'] = Order(c, e, st, 0, r, t); e.assume(self.rem(t, r, L), bnot(cmp_eq(c.pcount(e, st, L), 0, 32)))
class CISelect(Loop):
    """the used symbols are placed one by one; a symbol is left as long as a place is (256 symbols, one place each)"""
    mods = ('symbolsByProb', 'consumed')
    def init(self, e): self.i, self.r = self.c.find(e, self.b, 'index'), self.c.find(e, self.b, 'remaining')
    def check(self, e, st, start):
        c = self.c; x, r = c.get(e, st, self.i), c.get(e, st, self.r); o = st.ghost['order'] if start is None else self.o
        e.oblige('order:remaining', band(cmp_eq(r, o.r, 64), cmp('ule', x, r, 64), cmp('uge', r, 1, 64)), st)
        if start is None: e.oblige('order:start', band(cmp_eq(x, 0, 64), cmp_eq(o.t, 0, 64)), st); o.check(e, st, x, r, 0, None); self.r0 = r; return
        e.oblige('progress', cmp('ugt', x, o.x, 64), st)
        m = st.ghost.get('max')
        o.check(e, st, x, r, 0, None if m is None else (m, o.x))
    def assume(self, e, st):
        c = self.c; x, r = fresh('x', 64, 0, 256), self.r0; c.put(e, st, self.i, x); c.put(e, st, self.r, r); e.assume(cmp('ule', x, r, 64))
        self.o = st.ghost['order'] = Order(c, e, st, x, r, 0); st.ghost.pop('max', None)
        w = fresh('w', 64, 0, 255); e.assume(bor(cmp('uge', x, r, 64), cmp_eq(self.o.cons(w), 0, 8))); st.ghost['left'] = w        # pigeonhole
class CIMax(Loop):
    """the most frequent symbol that is left"""
    def init(self, e): self.i, self.m, self.mi = (self.c.find(e, self.b, n) for n in ('i', 'max', 'maxIndex'))
    def inv(self, e, o, i, m, mi, B): return band(cmp('ule', i, 256, 64), cmp('ult', mi, 256, 64), bor(cmp_eq(m, 0, 64), cmp_eq(o.cons(mi), 0, 8)), bor(bnot(cmp_eq(m, 0, 64)), cmp('uge', B, i, 64), bnot(cmp_eq(o.cons(B), 0, 8)), cmp_eq(o.pc(B), 0, 32)))
    def check(self, e, st, start):
        c = self.c; o = st.ghost['order']; i, m, mi = (c.get(e, st, k) for k in (self.i, self.m, self.mi))
        if start is None: e.oblige('select:start', band(cmp_eq(i, 0, 64), cmp_eq(m, 0, 64), cmp_eq(mi, 0, 64)), st); return
        e.oblige('progress', cmp('ugt', i, self.i0, 64), st); e.oblige('select:most-frequent', self.inv(e, o, i, m, mi, st.ghost['left']), st)
    def assume(self, e, st):
        c = self.c; o = st.ghost['order']; i, m, mi = fresh('i', 64, 0, 256), fresh('max', 64, 0, (1 << 32) - 1), fresh('maxIndex', 64, 0, 255); self.i0 = i
        for k, v in ((self.i, i), (self.m, m), (self.mi, mi)): c.put(e, st, k, v)
        e.assume(self.inv(e, o, i, m, mi, st.ghost['left'])); st.ghost['max'] = mi
class LEGetInfo(Annotated):
    """ensures  false with an unusable argument; otherwise true, flags in {0, 1}, symbolsByProb is a permutation whose entries from the number n of used symbols on are
    ascending, n in [1, 256], symbolCount = n mod 256"""
    array_region = 256
    def __init__(self, le): super().__init__(); self.le = le
    def quotient(self, e, op, a, b, w):
        """x / y, as far as comparisons with 1, 2 and 3 tell"""
        if op != 'udiv': return None
        q = fresh('quotient', w); A, B = zext(a, w, 2 * w), zext(b, w, 2 * w)
        for k in (1, 2, 3): x, y = cmp('uge', q, k, w), cmp('uge', A, scale(B, k, 2 * w), 2 * w); e.assume(bor(bnot(x), y), bor(bnot(y), x))
        return q
    def prob(self, e, st, b): return from_bytes([e.read_byte(st, self.loc['prob'], add(scale(b, 4, 64), j, 64)) for j in range(4)])
    def counted(self, e, s0, s1, b, n):
        """between s0 and s1 a run of n bytes b was closed"""
        d, f = sub(self.prob(e, s1, b), self.prob(e, s0, b), 32), sub(self.pcount(e, s1, b), self.pcount(e, s0, b), 32)
        if isinstance(n, int) and n == 0: return band(cmp_eq(d, 0, 32), cmp_eq(f, 0, 32))
        return band(cmp_eq(zext(d, 32, 64), n, 64), cmp('uge', scale(zext(f, 32, 64), self.le.maxcnt + 1, 64), n, 64))
    def saves(self, e, st, b): return cmp('uge', zext(self.prob(e, st, b), 32, 64), scale(zext(self.pcount(e, st, b), 32, 64), 2, 64), 64)
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr'), 'get_compress_info'); P = [p for _, p in self.params(e)]
        self.inSize = fresh('inSize', 64, 0, 1 << 30); self.inp = self.region(e, 'in', 'in', self.inSize); self.info = self.region(e, 'info', 'out', 513); self.inp.nullable = self.info.nullable = True
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.info, 0))): st.regs[p] = v
        self.usable = band(bnot(self.inp.null), bnot(self.info.null), bnot(cmp_eq(self.inSize, 0, 64)))
        self.loc = {re.sub(r'\d*$', '', k): r for k, r in e.bigs.items()}
        if not {'rle', 'prob', 'pcount', 'consumed', 'symbolsByProb'} <= set(self.loc): raise Unsupported('tables not found')
    def pcount(self, e, st, b): return from_bytes([e.read_byte(st, self.loc['pcount'], add(scale(b, 4, 64), j, 64)) for j in range(4)])
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.info: e.oblige('rejecting-call-writes-nothing', self.usable, st)
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        n = {base_name(e.slot_names()[k][0]) for x in e.f.loops[b] for d, k in self.acc(e)[x]}
        if self.depth(e, b) == 2: return CIMax
        return CIScan if 'lastSymbol' in n else CISelect if 'maxIndex' in n else CIUnused if 'remaining' in n else CIFlags
    def ret(self, e, st, v):
        self.returned += 1; o = st.ghost.get('order')
        if not any(x.startswith('loop:') for x in st.pc): e.oblige('reject:returns-zero', bnot(v), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        e.oblige('info:returns-true', v, st); out = lambda k: e.read_byte(st, self.info, k)
        if o is None: raise Unsupported('no selection loop')
        e.oblige('info:all-placed', cmp_eq(o.x, o.r, 64), st)
        K, k, l = fresh('K', 64, 0, 255), fresh('k', 64, 0, 255), fresh('l', 64, 0, 255)
        e.oblige('info:flags', cmp('ule', out(K), 1, 8), st); e.oblige('info:saves-space', bor(cmp_eq(out(K), 0, 8), self.saves(e, st, K)), st)
        e.oblige('info:permutation', cmp_eq(o.inv(zext(out(add(256, K, 64)), 8, 64)), K, 64), st)
        e.push(); e.assume(cmp('uge', k, o.r, 64), cmp('ult', k, l, 64), o.asc(k, l)); e.oblige('info:ascending', cmp('ult', out(add(256, k, 64)), out(add(256, l, 64)), 8), st); e.pop()
        e.oblige('info:symbol-count', band(cmp('uge', o.r, 1, 64), cmp('ule', o.r, 256, 64), cmp_eq(out(512), trunc(o.r, 8), 8)), st)

# ---- several sections -------------------------------------------------------------------------------------------------------------------------------
class Sections:
    """n = total / sub; pos = n * i, rest = n * (sub - i): the products the code forms, tracked additively.  lemma: n * k >= n for k >= 1"""
    def __init__(self, e, total, sub, n): self.total, self.sub, self.n, self.i, self.pos, self.rest = total, sub, n, 0, 0, fresh('product', 64, 0, LIM31); e.assume(cmp('ule', self.rest, total, 64)); self.lemma(e)
    def lemma(self, e): e.assume(bor(cmp('uge', self.i, self.sub, 64), cmp('uge', self.rest, self.n, 64)))
    def at(self, e, i):
        """the same division, at an arbitrary section"""
        s = object.__new__(Sections); s.total, s.sub, s.n, s.i, s.pos = self.total, self.sub, self.n, i, fresh('pos', 64, 0, LIM31)
        s.rest = sub(add(self.pos, self.rest, 64), s.pos, 64); e.assume(cmp('ule', s.pos, add(self.pos, self.rest, 64), 64)); s.lemma(e); return s
    def next(self, e):
        s = object.__new__(Sections); s.total, s.sub, s.n, s.i, s.pos, s.rest = self.total, self.sub, self.n, add(self.i, 1, 64), add(self.pos, self.n, 64), sub(self.rest, self.n, 64); s.lemma(e); return s
class SecMixin:
    def quotient(self, e, op, a, b, w):
        if op != 'udiv' or not (e.must(cmp_eq(a, trunc(self.total, w), w)) and e.must(cmp_eq(b, trunc(self.sub, w), w))): raise Unsupported('division')
        if self.sec is None: self.n = fresh('section', 64, 0, LIM31); e.assume(cmp('ule', self.n, self.total, 64)); self.sec = Sections(e, self.total, self.sub, self.n)
        return trunc(self.n, w)
    def product(self, e, a, b, w):
        n = trunc(self.n, w) if self.sec is not None else None
        if n is None: raise Unsupported('product of two variables')
        if e.must(cmp_eq(a, n, w)): a, b = b, a
        if not e.must(cmp_eq(b, n, w)) or not e.must(cmp_eq(a, trunc(self.cur.i, w), w)): raise Unsupported('product of two variables')
        return trunc(self.cur.pos, w)
class SecCompressLoop(Loop):
    mods = ('out',)
    def init(self, e): self.i, self.x = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'index')
    def check(self, e, st, start):
        c = self.c; i, x = c.get(e, st, self.i), c.get(e, st, self.x)
        if start is None:
            to, tn, tg = st.ghost['table']
            e.oblige('sections:start', band(cmp_eq(i, 0, 64), cmp_eq(x, add(to, tn, 64), 64), cmp_eq(to, add(12, scale(sub(c.sub, 1, 64), 4, 64), 64), 64)), st); self.x1 = x; c.cur = c.sec; return
        nx = c.cur.next(e); e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        e.oblige('sections:position', band(cmp_eq(i, nx.i, 64), cmp('ule', i, sub(c.sub, 1, 64), 64), cmp('ule', x, c.outSize, 64)), st)
        so, sn, sg = st.ghost['stream']
        e.oblige('sections:contiguous', band(cmp_eq(so, self.x0, 64), cmp_eq(x, add(so, sn, 64), 64)), st)
        e.oblige('sections:offset', cmp_eq(zext(c.word(e, st, c.out, add(12, scale(self.i0, 4, 64), 64)), 32, 64), x, 64), st)
        c.kept(e, st, c.out, so, sn, sg, 'layout:tokens')
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, self.x0, 64), bor(cmp('ult', o, add(12, scale(self.i0, 4, 64), 64), 64), cmp('uge', o, add(16, scale(self.i0, 4, 64), 64), 64)))
        e.oblige('frame:earlier-stream', cmp_eq(e.read_byte(st, c.out, o), e.read_byte(self.st0, c.out, o), 8), st); e.pop()
        c.cur = self.cur0
    def assume(self, e, st):
        c = self.c; i, x = self.i0, self.x0 = fresh('i', 64, 0, LIM31), fresh('index', 64, 0, LIM31); c.put(e, st, self.i, i); c.put(e, st, self.x, x)
        e.assume(cmp('ule', i, sub(c.sub, 1, 64), 64), cmp('uge', x, self.x1, 64), cmp('ule', x, c.outSize, 64)); self.cur0 = c.cur = c.sec.at(e, i)
        to, tn, tg = st.ghost['table']; g = c.havoc_region(e, st, c.out)
        g.facts.append(lambda o, a: band(bor(cmp('ult', o, to, 64), cmp('uge', o, add(to, tn, 64), 64), cmp_eq(a, e.ro_byte(tg, sub(o, to, 64)), 8)), bor(cmp('ult', o, 4, 64), cmp('uge', o, 12, 64), cmp_eq(a, e.read_byte(self.st1, c.out, o), 8))))
        self.st0 = st.clone(); st.ghost['at'] = x
    st1 = None
class SecCompress(SecMixin, LEApiCompress):
    """rle8m_compress: ensures  0, or: compressed size, inSize, section count, the end offset of every section but the last, the symbol table, and one token stream per
    section, in order and without gaps: section k holds In[n k, n (k + 1)), the last one the rest"""
    def __init__(self, le): super().__init__(le); self.sec = self.cur = None
    def bound(self): b = add(self.inSize, add(295, scale(self.sub, 6, 64), 64), 64); return b
    def pre(self, e, st):
        self.shape(e, ('int32', 'ptr', 'int32', 'ptr', 'int32'), 'rle8m_compress'); P = [p for _, p in self.params(e)]; self.sub = fresh('subSections', 64, 0, (1 << 32) - 1)
        self.buffers(e, st, P[1:]); st.regs[P[0]] = trunc(self.sub, 32); self.total = self.inSize
        self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), bnot(cmp_eq(self.sub, 0, 64)), cmp('uge', self.outSize, self.bound(), 64))
    def spec_of(self, e, st, b): return SecCompressLoop if b in e.f.loops and self.depth(e, b) == 1 else None
    def loop(self, e, st, b): SecCompressLoop.st1 = st.clone(); super().loop(e, st, b)
    def call(self, e, st, name, args, vals, ins):
        if name == 'rle8m_compress_bounds':
            e.depends.add(name); e.oblige('call:arguments', band(cmp_eq(vals[0], trunc(self.sub, 32), 32), cmp_eq(vals[1], trunc(self.inSize, 32), 32)), st, name)
            return trunc(bite(cmp('uge', self.bound(), 1 << 32, 64), 0, self.bound(), 64), 32)
        return super().call(e, st, name, args, vals, ins)
    def section(self, e, st, name, vals):
        e.depends.add(name); g, pm = st.ghost['info']; o = vals[3]; ok = isinstance(o, Ptr) and o.r is self.out; cap, size = zext(vals[4], 32, 64), zext(vals[1], 32, 64)
        if self.cur is None: raise Unsupported('sections outside of the loop')
        last = cmp_eq(self.cur.i, sub(self.sub, 1, 64), 64)
        e.oblige('call:arguments', ok and band(self.is_ptr(vals[0], self.inp, self.cur.pos), self.is_ptr(vals[2], self.tab, 0), cmp('ule', add(o.o, cap, 64), self.outSize, 64)), st, name)
        e.oblige('call:section-size', cmp_eq(size, bite(last, sub(self.inSize, self.cur.pos, 64), self.n, 64), 64), st, name)
        if not ok: raise Failure('call')
        self.kept(e, st, self.tab, 0, 513, g, 'call:tables'); e.oblige('rejecting-call-writes-nothing', self.usable, st)
        n = fresh('stream', 64, 0, LIM31); e.assume(cmp('ule', n, cap, 64), bor(bnot(cmp_eq(n, 0, 64)), cmp_eq(size, 0, 64), cmp('ult', cap, size, 64)), bor(cmp_eq(n, 0, 64), band(bnot(cmp_eq(size, 0, 64)), cmp('uge', cap, size, 64))))      # size argument: DESIGN.md
        st.ghost['stream'] = (o.o, n, self.copy_into(e, st, self.out, o.o, n, 'tokens')); return trunc(n, 32)
    def ret(self, e, st, v):
        self.returned += 1
        if 'stream' not in st.ghost: e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        so, sn, sg = st.ghost['stream']
        if e.must(cmp_eq(sn, 0, 64)): e.oblige('refuses', cmp_eq(v, 0, 32), st); return
        to, tn, tg = st.ghost['table']; total = add(so, sn, 64)
        e.oblige('sections:all', cmp_eq(self.cur.i, sub(self.sub, 1, 64), 64), st); e.oblige('sections:contiguous', cmp_eq(so, st.ghost['at'], 64), st)
        self.kept(e, st, self.out, to, tn, tg, 'layout:table'); self.kept(e, st, self.out, so, sn, sg, 'layout:tokens')
        e.oblige('compressed-size-field', band(cmp_eq(self.word(e, st, self.out, 0), trunc(total, 32), 32), cmp_eq(v, trunc(total, 32), 32)), st)
        e.oblige('inv:declared-size', band(cmp_eq(self.word(e, st, self.out, 4), trunc(self.inSize, 32), 32), cmp_eq(self.word(e, st, self.out, 8), trunc(self.sub, 32), 32)), st)
        e.oblige('result-within-bounds', cmp('ule', total, self.outSize, 64), st)
class SecDecompressLoop(Loop):
    def init(self, e): self.i, self.p, self.o = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'pCIn'), self.c.find(e, self.b, 'pOut')
    def inv(self, e, st, i):
        c = self.c; p, o = st.slots[self.p], st.slots[self.o]
        return band(cmp('ule', i, sub(c.sub, 1, 64), 64), c.is_ptr(p, c.inp, c.start(e, i)), c.is_ptr(o, c.out, c.cur.pos))
    def check(self, e, st, start):
        c = self.c; i = c.get(e, st, self.i)
        if start is None: e.oblige('sections:start', cmp_eq(i, 0, 64), st); c.cur = c.sec; e.oblige('sections:position', self.inv(e, st, 0), st); return
        c.cur = c.cur.next(e); e.oblige('sections:position', band(cmp_eq(i, c.cur.i, 64), self.inv(e, st, c.cur.i)), st); e.oblige('progress', cmp('ugt', i, self.i0, 64), st)
        c.cur = self.cur0
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, LIM31); c.put(e, st, self.i, i); self.cur0 = c.cur = c.sec.at(e, i)
        st.slots[self.p] = Ptr(c.inp, c.start(e, i)); st.slots[self.o] = Ptr(c.out, c.cur.pos); e.assume(cmp('ule', i, sub(c.sub, 1, 64), 64))
class SecDecompress(SecMixin, LEApiDecompress):
    """rle8m_decompress: requires a stream as SecCompress ensures; ensures  every section is handed to the decoder with its own range of stream and output"""
    def __init__(self, le): super().__init__(le); self.sec = self.cur = None
    def pre(self, e, st):
        self.sub = None; super().pre(e, st); self.total = self.usize
        e.assume(cmp('uge', self.sub, 1, 64), cmp('ule', self.sub, self.usize, 64), cmp('ule', self.usize, 1 << 30, 64))
    def first(self, e):
        if self.sub is None: self.sub = zext(from_bytes([e.ro_byte(self.inp, 8 + j) for j in range(4)]), 32, 64)
        return add(12, scale(sub(self.sub, 1, 64), 4, 64), 64)
    def start(self, e, i):
        """start of section i in the stream: behind the table, or the end offset of the section before"""
        at = lambda k: zext(from_bytes([e.ro_byte(self.inp, add(add(12, scale(k, 4, 64), 64), j, 64)) for j in range(4)]), 32, 64)
        if e.must(cmp_eq(i, 0, 64)): return self.toks
        p = bite(cmp_eq(i, 0, 64), self.toks, at(sub(i, 1, 64)), 64); e.assume(cmp('ule', p, self.csize, 64)); return p
    def spec_of(self, e, st, b): return SecDecompressLoop if b in e.f.loops and self.depth(e, b) == 1 else None
    def section(self, e, st, name, vals):
        e.depends.add(name)
        if self.cur is None: raise Unsupported('sections outside of the loop')
        last = cmp_eq(self.cur.i, sub(self.sub, 1, 64), 64); end = self.csize if e.must(last) else self.start(e, add(self.cur.i, 1, 64)); size = sub(self.usize, self.cur.pos, 64) if e.must(last) else self.n
        e.oblige('call:arguments', band(self.is_ptr(vals[0], self.inp, self.start(e, self.cur.i)), self.is_ptr(vals[1], self.inp, end), self.is_ptr(vals[2], self.tab, 0)), st, name)
        e.oblige('call:output', band(self.is_ptr(vals[3], self.out, self.cur.pos), cmp_eq(vals[4], trunc(size, 32), 32)), st, name)
        self.kept(e, st, self.tab, 0, 512, st.ghost['info'], 'call:tables'); e.oblige('rejecting-call-writes-nothing', self.usable, st)
        st.ghost['decoded'] = 'last' if e.must(last) else True; return trunc(size, 32)
    def ret(self, e, st, v):
        if st.ghost.get('decoded'): e.oblige('sections:all', st.ghost['decoded'] == 'last', st)
        super().ret(e, st, v)
class SecBounds(Annotated):
    def pre(self, e, st):
        self.shape(e, ('int32', 'int32'), 'rle8m_compress_bounds'); P = [p for _, p in self.params(e)]
        self.s, self.n = fresh('subSections', 64, 1, (1 << 32) - 1), fresh('inSize', 64, 0, (1 << 32) - 1); st.regs[P[0]] = trunc(self.s, 32); st.regs[P[1]] = trunc(self.n, 32)
    def ret(self, e, st, v):
        self.returned += 1; b = add(self.n, add(295, scale(self.s, 6, 64), 64), 64)
        e.oblige('bounds:value', cmp_eq(zext(v, 32, 64), bite(cmp('uge', b, 1 << 32, 64), 0, b, 64), 64), st)

# ---- move to front ------------------------------------------------------------------------------------------------------------------------------------
# Per lane l the history H is a permutation of the bytes (lemma: mtf keeps permutations, see MtfLemma).  encode: out = the position d of the symbol in H; decode: out =
# H[d] for the given d; both: H' = mtf(H, d), H'[0] = H[d], H'[k] = H[k - 1] for 1 <= k <= d, H'[k] = H[k] above.
class Mtf(Annotated):
    array_region = 256
    def __init__(self, W, encode, aligned): super().__init__(); self.W, self.enc, self.al = W, encode, aligned
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr'), 'move to front'); P = [p for _, p in self.params(e)]
        self.inSize = fresh('inSize', 64, 0, LIM31); self.inp, self.out = self.region(e, 'inbuf', 'in', self.inSize), self.region(e, 'outbuf', 'out', self.inSize)
        if self.al:
            for r in (self.inp, self.out): e.assume(e.aligned(Ptr(r, 0), self.al))
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0))): st.regs[p] = v
        h = [r for k, r in e.bigs.items() if re.sub(r'\d*$', '', k) == 'history']
        if len(h) != 1: raise Unsupported('history not found')
        self.hist = h[0]
        if self.hist.size != 256 * self.W: raise Unsupported('history of %d bytes' % self.hist.size)
        self.hist.align = 64; e.assume(e.aligned(Ptr(self.hist, 0), self.W))
    def names(self, e, b): return {base_name(e.slot_names()[k][0]) for x in e.f.loops[b] for d, k in self.acc(e)[x]}
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        n = self.names(e, b); step = any(x.startswith('prevMatched') for x in n)
        if self.depth(e, b) == 2: return MtfInner if step else MtfFind
        return MtfInit if 'pIn' not in n else MtfOuter if step else MtfTail
    def vec(self, e, st, b, name):
        """the W bytes of a vector variable (in one part or two)"""
        r = []
        for k in self.parts(e, b, name): r += e.val_bytes(st.slots.get(k, UNDEF), e.slot_names()[k][1])
        return (r * (self.W // len(r)) if name == 'index' else r)
    def parts(self, e, b, name):
        a = {base_name(e.slot_names()[k][0]): k for x in e.f.loops[b] for d, k in self.acc(e)[x]}
        if base_name(name) in a: return [a[base_name(name)]]
        if name + '_lo' in a and name + '_hi' in a: return [a[name + '_lo'], a[name + '_hi']]
        raise Unsupported('variable %s not found' % name)
    def setvec(self, e, st, b, name, bs):
        for k in self.parts(e, b, name):
            t = e.slot_names()[k][1]; n = e.mod.size(t); st.slots[k] = e.bytes_val(bs[:n], t); bs = bs[n:]
    def row(self, o):
        """offset -> (row, lane) if it has that form"""
        W = self.W
        if isinstance(o, int): return o // W, o % W
        if any(k % W for k in o.t.values()): return None
        return mk(64, {x: k // W for x, k in o.t.items()}, (o.c - o.c % W) // W), o.c % W
    def at(self, g, k, l): return self.e.ro_byte(g, add(scale(k, self.W, 64) if not isinstance(k, int) else k * self.W, l, 64))
    def ret(self, e, st, v):
        self.returned += 1; e.oblige('returns-size', cmp_eq(v, trunc(self.inSize, 32), 32), st)
        h = next((x for x in reversed(st.pc) if x.startswith('loop:') and self.spec_of(e, st, x[5:]) is MtfTail), None)
        if h is None: raise Unsupported('no tail loop')
        o = st.slots[self.find(e, h[5:], 'pOut')]; e.oblige('whole-input', self.is_at(o, self.out, self.inSize), st)
    def is_at(self, v, r, off): return isinstance(v, Ptr) and v.r is r and cmp_eq(v.o, off, 64)
class MtfInit(Loop):
    def init(self, e): self.i = self.c.find(e, self.b, 'i'); self.mods = (self.c.hist.name,)
    def check(self, e, st, start):
        c = self.c; i = c.get(e, st, self.i)
        if start is None: e.oblige('history:start', cmp_eq(i, 0, 64), st); return
        e.oblige('progress', cmp_eq(i, add(self.i0, 1, 64), 64), st); e.oblige('history:rows', cmp('ule', i, 256, 64), st)
        for l in range(c.W): e.oblige('history:identity', cmp_eq(e.read_byte(st, c.hist, add(scale(self.i0, c.W, 64), l, 64)), trunc(self.i0, 8), 8), st)
        o = fresh('o', 64, 0, 1 << 20); e.push(); e.assume(cmp('ult', o, scale(self.i0, c.W, 64), 64)); e.oblige('frame:history', cmp_eq(e.read_byte(st, c.hist, o), e.read_byte(self.st0, c.hist, o), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, 256); c.put(e, st, self.i, i); g = c.havoc_region(e, st, c.hist); self.st0 = st.clone(); st.ghost['init'] = i
        def f(o, a):
            r = c.row(o)
            return None if r is None else bor(cmp('uge', r[0], i, 64), cmp_eq(a, trunc(r[0], 8) if not isinstance(r[0], int) else r[0] & 255, 8))
        g.facts.append(f)
class MtfOuter(Loop):
    def init(self, e): self.p, self.o, self.r = self.c.find(e, self.b, 'pIn'), self.c.find(e, self.b, 'pOut'), self.c.find(e, self.b, 'inSizeRemaining'); self.mods = (self.c.hist.name, 'outbuf')
    def pos(self, e, st, P): c = self.c; return band(c.is_at(st.slots[self.p], c.inp, P), c.is_at(st.slots[self.o], c.out, P), cmp('ule', P, c.inSize, 64), cmp_eq(c.get(e, st, self.r), sub(c.inSize, P, 64), 64))
    def check(self, e, st, start):
        c = self.c
        if start is None:
            e.oblige('mtf:positions', self.pos(e, st, 0), st); e.oblige('history:rows', cmp_eq(st.ghost.get('init', 0), 256, 64), st)
            k = fresh('k', 64, 0, 255)
            for l in range(c.W): e.oblige('history:identity', cmp_eq(zext(e.read_byte(st, c.hist, add(scale(k, c.W, 64), l, 64)), 8, 64), k, 64), st)
            return
        e.oblige('mtf:positions', self.pos(e, st, add(self.P, c.W, 64)), st)
        pos = st.ghost.get('pos')
        if pos is None: raise Unsupported('no search')
        K = fresh('K', 64, 1, 255)
        for l in range(c.W):
            p = pos[l]; want = trunc(p, 8) if c.enc else c.at(self.g, p, l)
            if c.enc: e.oblige('mtf:position-of-symbol', cmp_eq(c.at(self.g, p, l), e.ro_byte(c.inp, add(self.P, l, 64)), 8), st)
            else: e.oblige('mtf:position', cmp_eq(trunc(p, 8), e.ro_byte(c.inp, add(self.P, l, 64)), 8), st)
            e.oblige('mtf:output', cmp_eq(e.read_byte(st, c.out, add(self.P, l, 64)), want, 8), st)
            e.oblige('mtf:front', cmp_eq(e.read_byte(st, c.hist, l), c.at(self.g, p, l), 8), st)
            a = e.read_byte(st, c.hist, add(scale(K, c.W, 64), l, 64)); low = cmp('ule', K, p, 64)
            e.push(); e.assume(low); e.oblige('mtf:shifted', cmp_eq(a, c.at(self.g, sub(K, 1, 64), l), 8), st); e.pop()
            e.push(); e.assume(bnot(low)); e.oblige('mtf:kept', cmp_eq(a, c.at(self.g, K, l), 8), st); e.pop()
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, self.P, 64)); e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, c.out, o), e.read_byte(self.st0, c.out, o), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; self.P = scale(fresh('t', 64, 0, LIM31 // c.W), c.W, 64); e.assume(cmp('ule', self.P, c.inSize, 64))
        st.slots[self.p] = Ptr(c.inp, self.P); st.slots[self.o] = Ptr(c.out, self.P); c.put(e, st, self.r, sub(c.inSize, self.P, 64))
        self.g = c.havoc_region(e, st, c.hist); c.havoc_region(e, st, c.out); self.st0 = st.clone(); st.ghost['hist'] = self.g; st.ghost['P'] = self.P; st.ghost.pop('pos', None)
class MtfInner(Loop):
    """rows 1 .. m are done: per lane, found <=> the position is <= m"""
    def init(self, e): self.mods = (self.c.hist.name,); self.ph = self.c.find(e, self.b, 'pHistory')
    def expect(self, e, m):
        c = self.c; x = {n: [] for n in ('currentHist', 'prevMatched', 'out', 'history0', 'index')}
        for l in range(c.W):
            p = self.pos[l]; f = cmp('ule', p, m, 64); s = self.s[l]
            x['currentHist'].append(c.at(self.g, m, l)); x['prevMatched'].append(sext(f, 1, 8)); x['index'].append(trunc(m, 8) if not isinstance(m, int) else m)
            x['out'].append(bite(f, trunc(p, 8) if c.enc else s, 0, 8)); x['history0'].append(bite(f, s, 0, 8))
        return x
    def rows(self, e, st, m, K, l):
        """row K of the history while rows 1 .. m are done"""
        c = self.c; a = e.read_byte(st, c.hist, add(scale(K, c.W, 64), l, 64)); p = self.pos[l]
        return bor(bnot(band(cmp('uge', K, 1, 64), cmp('ule', K, m, 64), cmp('ule', K, p, 64))), cmp_eq(a, c.at(self.g, sub(K, 1, 64), l), 8)), bor(band(cmp('uge', K, 1, 64), cmp('ule', K, m, 64), cmp('ule', K, p, 64)), cmp_eq(a, c.at(self.g, K, l), 8))
    def check(self, e, st, start):
        c = self.c
        if start is None:
            self.g = st.ghost['hist']; P = st.ghost['P']; inb = [e.ro_byte(c.inp, add(P, l, 64)) for l in range(c.W)]
            if c.enc:
                self.pos = [fresh('pos', 64, 0, 255) for _ in inb]; self.s = inb
                def f(o, a):         # H is a permutation: the symbol is at exactly one position
                    r = c.row(o)
                    if r is None: return None
                    return bor(cmp('uge', r[0], 256, 64), ZB(cmp_eq(a, self.s[r[1]], 8)) == ZB(cmp_eq(r[0], self.pos[r[1]], 64)))
                e.add_fact(self.g, f)
                for l in range(c.W): e.assume(cmp_eq(c.at(self.g, self.pos[l], l), self.s[l], 8))
            else: self.pos = [zext(b, 8, 64) for b in inb]; self.s = [c.at(self.g, self.pos[l], l) for l in range(c.W)]
            st.ghost['pos'] = self.pos; m = 0; self.st1 = st
        else: m = add(self.m0, 1, 64); e.oblige('search:row-exists', cmp('ule', m, 255, 64), st)
        q = st.slots[self.ph]; e.oblige('search:next-row', c.is_at(q, c.hist, scale(add(m, 1, 64), c.W, 64)), st)
        x = self.expect(e, m)
        for n in x:
            v = c.vec(e, st, self.b, n)
            for l in range(c.W): e.oblige('search:' + n, v[l] is not UNDEF and cmp_eq(v[l], x[n][l], 8), st)
        if start is None:
            o = fresh('o', 64, 0, 1 << 20); e.push(); e.assume(cmp('ult', o, 256 * c.W, 64)); e.oblige('search:history', cmp_eq(e.read_byte(st, c.hist, o), e.ro_byte(self.g, o), 8), st); e.pop()
        else:
            o = fresh('o', 64, 0, 1 << 20); new = scale(m, c.W, 64); e.push(); e.assume(cmp('ult', o, 256 * c.W, 64), bor(cmp('ult', o, new, 64), cmp('uge', o, add(new, c.W, 64), 64)))
            e.oblige('frame:history', cmp_eq(e.read_byte(st, c.hist, o), e.read_byte(self.st0, c.hist, o), 8), st); e.pop()
            for l in range(c.W):
                for r in self.rows(e, st, m, m, l): e.oblige('search:row', r, st)
    def assume(self, e, st):
        c = self.c; m = self.m0 = fresh('m', 64, 0, 255); x = self.expect(e, m)
        for n in x: c.setvec(e, st, self.b, n, x[n])
        st.slots[self.ph] = Ptr(c.hist, scale(add(m, 1, 64), c.W, 64)); h = c.havoc_region(e, st, c.hist)
        def f(o, a):
            r = c.row(o)
            if r is None: return None
            k, l = r; done = band(cmp('uge', k, 1, 64), cmp('ule', k, m, 64), cmp('ule', k, self.pos[l], 64)); bad = cmp('uge', k, 256, 64)
            return bor(bad, band(bor(done, cmp_eq(a, c.at(self.g, k, l), 8)), bor(bnot(done), cmp_eq(a, c.at(self.g, sub(k, 1, 64), l), 8)) if not (isinstance(k, int) and k == 0) else True))
        h.facts.append(f); self.st0 = st.clone()
class MtfTail(Loop):
    mods = ('outbuf',)
    def init(self, e): self.p, self.o, self.i, self.r = (self.c.find(e, self.b, n) for n in ('pIn', 'pOut', 'i', 'inSizeRemaining'))
    def pos(self, e, st, i): c = self.c; Q = add(self.P, i, 64); return band(c.is_at(st.slots[self.p], c.inp, Q), c.is_at(st.slots[self.o], c.out, Q), cmp('ule', Q, c.inSize, 64), cmp_eq(c.get(e, st, self.i), i, 64), cmp_eq(c.get(e, st, self.r), sub(c.inSize, self.P, 64), 64))
    def check(self, e, st, start):
        c = self.c
        if start is None: self.P, self.g = st.ghost['P'], st.ghost['hist']; e.oblige('tail:positions', self.pos(e, st, 0), st); e.oblige('tail:lanes', cmp('ult', sub(c.inSize, self.P, 64), c.W, 64), st); return
        i = self.i0; Q = add(self.P, i, 64); e.oblige('tail:positions', self.pos(e, st, add(i, 1, 64)), st)
        d, s = e.read_byte(st, c.out, Q), e.ro_byte(c.inp, Q)
        if not c.enc: d, s = s, d
        e.oblige('tail:output', cmp_eq(e.ro_byte(self.g, add(scale(zext(d, 8, 64), c.W, 64), i, 64)), s, 8), st)
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, Q, 64)); e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, c.out, o), e.read_byte(self.st0, c.out, o), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, c.W - 1); Q = add(self.P, i, 64); st.slots[self.p] = Ptr(c.inp, Q); st.slots[self.o] = Ptr(c.out, Q); c.put(e, st, self.i, i); c.put(e, st, self.r, sub(c.inSize, self.P, 64))
        e.assume(cmp('ule', Q, c.inSize, 64), cmp('ult', sub(c.inSize, self.P, 64), c.W, 64)); c.havoc_region(e, st, c.out); self.st0 = st.clone(); st.ghost['lane'] = i
class MtfFind(Loop):
    def init(self, e): self.d, self.sy = self.c.find(e, self.b, 'd'), self.c.find(e, self.b, 'symbol')
    def check(self, e, st, start):
        c = self.c; d = c.get(e, st, self.d)
        if start is None: self.pos = fresh('pos', 64, 0, 255); e.assume(cmp_eq(e.ro_byte(st.ghost['hist'], add(scale(self.pos, c.W, 64), st.ghost['lane'], 64)), c.get(e, st, self.sy, 8), 8))      # H is a permutation
        e.oblige('tail:find', cmp('ule', d, self.pos, 64), st)
        if start is not None: e.oblige('progress', cmp('ugt', d, self.d0, 64), st)
    def assume(self, e, st): d = self.d0 = fresh('d', 64, 0, 255); self.c.put(e, st, self.d, d); e.assume(cmp('ule', d, self.pos, 64))

class MtfApi(Annotated):
    """requires nothing about alignment; ensures: output smaller than the input (or no vector unit): 0, nothing written; otherwise exactly one implementation of the same
    transform runs on the same buffers, an aligned one only on aligned buffers"""
    def __init__(self, stem): super().__init__(); self.stem = stem
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'move to front'); P = [p for _, p in self.params(e)]
        self.inSize, self.outSize = fresh('inSize', 64, 0, LIM31), fresh('outSize', 64, 0, (1 << 32) - 1); self.inp, self.out = self.region(e, 'inbuf', 'in', self.inSize), self.region(e, 'outbuf', 'out', self.outSize)
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        self.calls = 0
    def load_global(self, e, st, reg, off, t):
        if reg.name != 'sse2Supported': return super().load_global(e, st, reg, off, t)
        if not hasattr(self, 'sse'): self.sse = fresh('sse2Supported', 8, 0, 1)
        return self.sse
    def on_store(self, e, st, reg, off, n, where): e.oblige('api:writes-nothing-itself', False, st, where)
    def call(self, e, st, name, args, vals, ins):
        m = re.match(self.stem + r'_(un)?aligned', name)
        if not m: return super().call(e, st, name, args, vals, ins)
        e.depends.add(name); self.calls += 1; al = int(re.search(r'mmtf(\d+)', name).group(1)) // 8
        ok = len(vals) == 3 and isinstance(vals[0], Ptr) and vals[0].r is self.inp and isinstance(vals[2], Ptr) and vals[2].r is self.out
        e.oblige('api:call-arguments', ok and band(cmp_eq(vals[0].o, 0, 64), cmp_eq(vals[2].o, 0, 64), cmp_eq(vals[1], trunc(self.inSize, 32), 32)), st)
        e.oblige('rejecting-call-writes-nothing', cmp('ule', self.inSize, self.outSize, 64), st)
        if not m.group(1): e.oblige('api:call-aligned', band(e.aligned(Ptr(self.inp, 0), al), e.aligned(Ptr(self.out, 0), al)), st)
        e.oblige('api:one-call', not st.ghost.get('called'), st); st.ghost['called'] = True; return trunc(self.inSize, 32)
    def ret(self, e, st, v):
        self.returned += 1
        if st.ghost.get('called'): e.oblige('api:returns-result', cmp_eq(v, trunc(self.inSize, 32), 32), st); return
        sse = [x for x in [getattr(self, 'sse', None)] if x is not None]
        e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bor(cmp('ugt', self.inSize, self.outSize, 64), *[cmp_eq(x, 0, 8) for x in sse]), st)
class BitMtf(Annotated):
    """unit of U bytes: encode: Out[t] = In[t] xor In[t - 1], decode: Out[t] = In[t] xor Out[t - 1] (unit -1 is 0), a last incomplete unit is copied"""
    def __init__(self, U_, encode): super().__init__(); self.U, self.enc = U_, encode
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'bit move to front'); P = [p for _, p in self.params(e)]
        self.inSize, self.outSize = fresh('inSize', 64, 0, LIM31), fresh('outSize', 64, 0, (1 << 32) - 1); self.inp, self.out = self.region(e, 'inbuf', 'in', self.inSize), self.region(e, 'outbuf', 'out', self.outSize)
        self.inp.bitwise = True; self.inp.nullable = self.out.nullable = True; self.usable = band(bnot(self.inp.null), bnot(self.out.null), cmp('ule', self.inSize, self.outSize, 64))
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
    def on_store(self, e, st, reg, off, n, where):
        if reg is self.out: e.oblige('rejecting-call-writes-nothing', self.usable, st); e.oblige('store-in-bounds:input-size', cmp('ule', add(off, n, 64), self.inSize, 64), st)
    def spec_of(self, e, st, b): return BitLoop if b in e.f.loops and self.depth(e, b) == 1 else None
    def ret(self, e, st, v):
        self.returned += 1
        if not any(x.startswith('loop:') for x in st.pc): e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        e.oblige('returns-size', cmp_eq(v, trunc(self.inSize, 32), 32), st); i = st.ghost['i']
        e.push(); e.assume(bnot(cmp_eq(i, self.inSize, 64)))
        if e.feasible():
            e.oblige('whole-input', cmp_eq(i, sub(self.inSize, 1, 64), 64) if self.U == 2 else False, st); e.oblige('last-byte', cmp_eq(e.read_byte(st, self.out, sub(self.inSize, 1, 64)), e.ro_byte(self.inp, sub(self.inSize, 1, 64)), 8), st)
        e.pop()
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, i, 64)); e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, self.out, o), e.read_byte(st.ghost['st'], self.out, o), 8), st); e.pop()
class BitLoop(Loop):
    mods = ('outbuf',)
    def init(self, e): self.i, self.s = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'state')
    def state(self, prev):
        """the state vector after the unit prev"""
        c = self.c; r = []
        for u in range(c.U):
            bits = bit_bools(prev[u], 8)
            for j in range(8): r.append((bite(bits[j], 1 << j, 0, 8) if c.enc else sext(bits[j], 1, 8)) if not isinstance(prev[u], int) else ((prev[u] >> j) & 1) * ((1 << j) if c.enc else 255))
        return r + [0] * (16 - len(r))
    def prev(self, e, st, i): c = self.c; return [e.ro_byte(c.inp, add(i, u - c.U, 64)) if c.enc else e.read_byte(st, c.out, add(i, u - c.U, 64)) for u in range(c.U)]
    def check(self, e, st, start):
        c = self.c; i = c.get(e, st, self.i); v = e.val_bytes(st.slots.get(self.s, UNDEF), e.slot_names()[self.s][1])[:8 * c.U]
        if start is None:
            e.oblige('bits:start', band(cmp_eq(i, 0, 64), *[x is not UNDEF and cmp_eq(x, 0, 8) for x in v]), st); return
        n = self.i0; e.oblige('progress', cmp_eq(i, add(n, c.U, 64), 64), st); e.oblige('bits:position', cmp('ule', i, c.inSize, 64), st)
        cur = [e.ro_byte(c.inp, add(n, u, 64)) for u in range(c.U)]; out = [e.read_byte(st, c.out, add(n, u, 64)) for u in range(c.U)]
        for u in range(c.U):
            a, b, o = bit_bools(cur[u], 8), self.pbits[u], bit_bools(out[u], 8)
            for j in range(8): e.oblige('bits:output', z3.Xor(ZB(a[j]), ZB(b[j])) == ZB(o[j]), st)
        x = self.state(cur if c.enc else out)
        for k in range(8 * c.U): e.oblige('bits:state', cmp_eq(v[k], x[k], 8), st)
        o = fresh('o', 64, 0, LIM31); e.push(); e.assume(cmp('ult', o, n, 64)); e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, c.out, o), e.read_byte(self.st0, c.out, o), 8), st); e.pop()
    def assume(self, e, st):
        c = self.c; i = self.i0 = scale(fresh('t', 64, 0, LIM31 // c.U), c.U, 64); c.put(e, st, self.i, i); e.assume(cmp('ule', i, c.inSize, 64)); g = c.havoc_region(e, st, c.out); g.bitwise = True; self.st0 = st.clone(); st.ghost['i'] = i; st.ghost['st'] = self.st0
        first = cmp_eq(i, 0, 64); pv = self.prev(e, st, i); self.pbits = [[band(bnot(first), x) for x in bit_bools(p, 8)] for p in pv]; bs = []
        for u in range(c.U):
            for j in range(8): bs.append(bite(self.pbits[u][j], 1 << j, 0, 8) if c.enc else sext(self.pbits[u][j], 1, 8))
        t = e.slot_names()[self.s][1]; st.slots[self.s] = e.bytes_val(bs + [opaque('rest') for _ in range(16 - len(bs))], t)
