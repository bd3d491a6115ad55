"""rle8_sh: contracts.  A stream is: uncompressed size, compressed size, the body bytes, and, backwards from its last byte, the header bits.  A token is a
prefix code in the header bits and its operands in the body; TOKENS is the statement of the format for the encoder and the decoder."""
import re
from symex import *
from symex import _ctr
from contracts import Base, LIM31, base_name
from hoare import Annotated, Loop

def code(bits):
    """the token kind whose prefix code the bool list starts with, and its length (outside an encoded block)"""
    for k in range(5):
        if not bits[k]: return ('rle1', 'copy', 'second', 'third', 'rle_small')[k], k + 1
    return ('copy_small', 'copy_large', 'rle_large', 'enc')[int(bits[5]) + 2 * int(bits[6])], 7
def code_enc(bits):
    """inside an encoded block"""
    if not bits[0]: return 'rle1', 1
    if not bits[1]: return 'copy', 2
    return ('third' if bits[2] else 'second'), 3
def bits_int(v, n): return [bool(v >> k & 1) for k in range(n)]
SPAN = (1 << 32) + 64
def bounds(n):
    b = add(add(n, udiv_const(n, 4, 64)[0], 64), 17, 64); return bite(cmp('ule', b, (1 << 32) - 1, 64), b, 0, 64)

class ShBits(Annotated):
    """the two bit stream helpers: verified for every state of the bit buffer and every length the format uses"""
    cells = ()
    def cell(self, e, name, ty):
        f = {n: (o, s) for n, o, s in e.fields.get('%struct.' + ty, ())}
        if not f: raise Unsupported('struct ' + ty)
        lay = {}
        for n, (o, s) in f.items(): lay[o] = (('ptr',) if n.startswith('p') else ('int', 8 * s), n)
        e.layout[name] = lay; r = Region(name, 'slot', max(o + s for o, s in f.values())); r.align = 8; e.regions[name] = r; self.f = {n: o for n, (o, s) in f.items()}
        return r
    def verify(self, e):
        self.e = e; self.returned = 0; e.segname = 'body'; n = 0
        for case in self.cases():
            st = State(); e.push(); self.pre(e, st, case); n += 1; r0 = self.returned
            e.explore(st, e.f.order[0], None); e.pop()
            if self.returned == r0: e.fails.append({'obligation': 'returns', 'where': 'no path returns', 'result': 'cex', 'model': '', 'path': [], 'segment': ''})
    def header_mode(self, e, st, b): return 'unroll'
class ShWrite(ShBits):
    """write_bits(header, bits, count): requires 1 <= count <= 7, the unused bits of the current byte are 0;
    ensures the count low bits of `bits` follow the header bits written so far, nothing else changes"""
    def cases(self): return [(nb, c) for nb in range(8) for c in range(1, 8)]
    def pre(self, e, st, case):
        self.shape(e, ('ptr', 'int8', 'int8'), 'write_bits'); nb, c = case; P = [p for _, p in self.params(e)]
        self.hd = self.cell(e, 'hdr*', 'rle8_sh_header_state'); self.H = fresh('H', 64, 0, SPAN); self.h = fresh('h', 64, 1, SPAN); self.hs = fresh('size', 32, 1, LIM31)
        self.h2 = sub(self.h, 1, 64) if nb + c >= 8 else self.h
        self.out = self.region(e, 'outbuf', 'out', add(self.h, 1, 64)); self.out.wlo = self.h2
        self.old = [z3.Bool('old!%d' % k) for k in range(nb)]; self.new = [z3.Bool('new!%d' % k) for k in range(8)]; self.nb, self.c = nb, c
        st.out['outbuf'] = (make_store(self.h, [mask_val(self.old, 8)]),)
        for n, v in (('pHeaderStart', Ptr(self.out, self.H)), ('pHeader', Ptr(self.out, self.h)), ('nextBit', nb), ('headerSize', self.hs)): st.slots[('hdr*', self.f[n])] = v
        for p, v in zip(P, (Ptr(self.hd, 0), mask_val(self.new, 8), c)): st.regs[p] = v
    def ret(self, e, st, v):
        self.returned += 1; g = lambda n: st.slots[('hdr*', self.f[n])]; p = g('pHeader'); k = (self.old + self.new[:self.c] + [False] * 16)[:16]; wrap = self.nb + self.c >= 8
        e.oblige('bits:position', isinstance(p, Ptr) and p.r is self.out and cmp_eq(p.o, self.h2, 64), st); e.oblige('bits:position', cmp_eq(g('nextBit'), (self.nb + self.c) % 8, 8), st)
        e.oblige('bits:position', cmp_eq(g('headerSize'), add(self.hs, int(wrap), 32), 32), st)
        e.oblige('bits:content', cmp_eq(e.read_byte(st, self.out, self.h), mask_val(k[:8], 8), 8), st)
        if wrap: e.oblige('bits:content', cmp_eq(e.read_byte(st, self.out, self.h2), mask_val(k[8:], 8), 8), st)
class ShConsume(ShBits):
    """consume_bits(header, b): requires 1 <= b <= 7, r in [8, 16] buffered bits;  ensures the buffer holds the following bits, at least 8 of them, and the byte
    that is buffered next is the one below"""
    def cases(self): return [(r, b) for r in range(8, 17) for b in range(1, 8)]
    def pre(self, e, st, case):
        self.shape(e, ('ptr', 'int8'), 'consume_bits'); r, b = self.case = case; P = [p for _, p in self.params(e)]
        self.hd = self.cell(e, 'hdr*', 'rle8_sh_read_header'); self.h = fresh('h', 64, 0, SPAN); self.inp = self.region(e, 'inbuf', 'in', add(self.h, 1 if r - b <= 8 else 0, 64)); self.inp.rlo = self.h; self.inp.bitwise = True
        self.old = [z3.Bool('old!%d' % k) for k in range(r)]
        for n, v in (('value', mask_val(self.old, 16)), ('remainingBits', r), ('pHeader', Ptr(self.inp, self.h))): st.slots[('hdr*', self.f[n])] = v
        for p, v in zip(P, (Ptr(self.hd, 0), b)): st.regs[p] = v
    def ret(self, e, st, v):
        self.returned += 1; g = lambda n: st.slots[('hdr*', self.f[n])]; p = g('pHeader'); r, b = self.case; want = self.old[b:]; h = self.h
        if r - b <= 8: want = want + bits_of(e.ro_byte(self.inp, h), 8); h = sub(h, 1, 64)
        e.oblige('bits:content', cmp_eq(g('value'), mask_val(want, 16), 16), st); e.oblige('bits:position', cmp_eq(g('remainingBits'), len(want), 8), st)
        e.oblige('bits:position', isinstance(p, Ptr) and p.r is self.inp and cmp_eq(p.o, h, 64), st)

class G:
    """ghost state of the encoder: P input bytes described by the tokens so far, (rle, s2, s3, so) the symbol state a decoder has there, q end of the body,
    8 * kb + nb header bits, cnt occurrences of rle among the symbols described one by one, tok the token being written, mode the end of the open encoded block"""
    def __init__(self, **k): self.__dict__.update(k)
    def but(self, **k): d = dict(self.__dict__); d.update(k); return G(**d)
    def cost(self): return 8 * U(self.q) + 8 * U(self.kb) + U(self.nb)
def pos(name): return fresh(name, 64, 0, SPAN)
def eqz(a, b): return cmp_eq(a, b, 64)

class ShEnc(Annotated):
    LIM = (1 << 32) - 1; may_end = False
    def buffers(self, e):
        self.inSize, self.outSize = fresh('inSize', 64, 0, self.LIM), fresh('outSize', 64, 0, self.LIM); self.H = sub(self.outSize, 1, 64)
        self.inp, self.out = self.region(e, 'inbuf', 'in', self.inSize), self.region(e, 'outbuf', 'out', self.outSize)
    def fresh_g(self, e, st, **k):
        """an arbitrary token boundary; the program variables hold its state"""
        d = dict(P=pos('P'), rle=opaque('rle'), s2=opaque('s2'), s3=opaque('s3'), so=opaque('so'), q=pos('q'), kb=pos('kb'), nb=fresh('nb', 64, 0, 7), cnt=pos('cnt'), tok=None, mode=None); d.update(k)
        g = G(**d); st.ghost['g'] = g; self.put_g(e, st, g); return g
    def put_g(self, e, st, g):
        for n in ('s2', 's3', 'so'): st.slots[self.k[n]] = getattr(g, n)
        st.slots[self.k['q']] = Ptr(self.out, g.q); self.put_hdr(st, g)
    def put_hdr(self, st, g):
        st.slots[self.k['pHeader']] = Ptr(self.out, sub(self.H, g.kb, 64)); st.slots[self.k['nextBit']] = trunc(g.nb, 8); st.slots[self.k['headerSize']] = trunc(add(g.kb, 1, 64), 32)
    def hdr(self, e, st, g):
        p, b, s = (st.slots.get(self.k[n], UNDEF) for n in ('pHeader', 'nextBit', 'headerSize'))
        e.oblige('header:state', isinstance(p, Ptr) and p.r is self.out and b is not UNDEF and s is not UNDEF and band(eqz(p.o, sub(self.H, g.kb, 64)), cmp_eq(b, trunc(g.nb, 8), 8), cmp_eq(s, trunc(add(g.kb, 1, 64), 32), 32)), st)
    def q(self, e, st):
        p = st.slots.get(self.k['q'], UNDEF)
        if not (isinstance(p, Ptr) and p.r is self.out): e.oblige('token:position', False, st); raise Failure('pOut')
        return p.o
    def space(self, g, cost): return z3.And(g.cost() + cost + 16 <= 8 * U(self.outSize))
    def close(self, e, st):
        g = st.ghost['g']
        if g.tok is None: return g
        kind, q0, rd = g.tok[0], g.q, lambda k: e.read_byte(st, self.out, add(g.q, k, 64)); P = g.P; new = {}
        n32 = lambda: from_bytes([rd(j) for j in range(4)])
        if kind == 'rle1': sym, ln = g.rle, 0
        elif kind == 'copy':
            sym, ln = rd(0), 1; hit = cmp_eq(sym, g.so, 8); new = dict(s3=bite(hit, g.s2, g.s3, 8), s2=bite(hit, sym, g.s2, 8), so=sym)
        elif kind in ('second', 'third'): sym, ln = (g.s2 if kind == 'second' else g.s3), 0; new = dict(so=sym)
        elif kind == 'rle_small': n, sym, ln = add(zext(rd(0), 8, 64), 14, 64), g.rle, 1
        elif kind == 'rle_large': n, sym, ln = zext(add(n32(), 14, 32), 32, 64), rd(4), 5; new = dict(rle=sym)
        elif kind == 'copy_small': n, ln = add(zext(rd(0), 8, 64), 7, 64), 1
        elif kind == 'copy_large':
            n, ln = add(zext(n32(), 32, 64), 7, 64), 4
            if self.may_end and e.must(cmp_eq(n32(), 0, 32)):
                e.oblige('covers-input', eqz(P, self.inSize), st); g = g.but(q=add(q0, 4, 64), tok=None, ended=True); st.ghost['g'] = g; e.oblige('token:operands', eqz(self.q(e, st), g.q), st); return g
            e.oblige('token:not-the-end-marker', bnot(cmp_eq(n32(), 0, 32)), st)
        elif kind == 'enc': n, ln = add(zext(rd(0), 8, 64), 161, 64), 1
        if kind in ('rle1', 'copy', 'second', 'third'):
            e.oblige('token:inside-input', cmp('ult', P, self.inSize, 64), st); x = e.ro_byte(self.inp, P)
            e.oblige('token:symbol', cmp_eq(x, sym, 8), st); new.update(P=add(P, 1, 64), cnt=add(g.cnt, zext(cmp_eq(x, g.rle, 8), 1, 64), 64))
        else:
            e.oblige('token:inside-input', cmp('ule', add(P, n, 64), self.inSize, 64), st)
            if kind == 'enc': new['mode'] = add(P, n, 64)
            else:
                k = fresh('k', 64, 0, SPAN); e.push(); e.assume(cmp('ult', k, n, 64)); x = e.ro_byte(self.inp, add(P, k, 64))
                if kind.startswith('rle'): e.oblige('token:run-is-input', cmp_eq(x, sym, 8), st)
                else: e.oblige('token:literals', cmp_eq(x, e.read_byte(st, self.out, add(q0, add(ln, k, 64), 64)), 8), st)
                e.pop(); new['P'] = add(P, n, 64)
                if kind.startswith('copy'): ln = add(ln, n, 64)
        g = g.but(q=add(q0, ln, 64), tok=None, **new); st.ghost['g'] = g
        e.oblige('token:operands', eqz(self.q(e, st), g.q), st)
        return g
    def sync(self, e, st, rle=None):
        """token boundary: the variables hold the state a decoder has here"""
        g = self.close(e, st)
        e.oblige('token:position', eqz(self.q(e, st), g.q), st); self.hdr(e, st, g)
        for n in ('s2', 's3', 'so'):
            v = st.slots.get(self.k[n], UNDEF); e.oblige('state:symbols', v is not UNDEF and cmp_eq(v, getattr(g, n), 8), st)
        if rle is not None: e.oblige('state:run-symbol', cmp_eq(rle, g.rle, 8), st)
        return g
    def counting(self, e, g): pass
    def leave(self, e, st):
        g = st.ghost['g']
        if g.mode is not None: e.oblige('token:block-length', eqz(g.P, g.mode), st); g = g.but(mode=None); st.ghost['g'] = g
        return g
    def call(self, e, st, name, args, vals, ins):
        if name != 'rle8_sh_write_bits': return super().call(e, st, name, args, vals, ins)
        e.depends.add(name); g = self.close(e, st); hp, bits, cnt = vals
        if getattr(g, 'ended', False): e.oblige('token:position', False, st)
        if not isinstance(bits, int) or not isinstance(cnt, int): raise Unsupported('header bits that are not constant')
        e.oblige('call:arguments', isinstance(hp, Ptr) and hp.r is not None and (hp.r.name, self.k['pHeader'][1]) == self.k['pHeader'] and 1 <= cnt <= 7 and eqz(hp.o, 0), st)
        self.hdr(e, st, g); inside = g.mode is not None; self.counting(e, g)
        if inside and e.must(eqz(g.P, g.mode)): g = g.but(mode=None); inside = False
        elif inside: e.oblige('token:block-length', cmp('ult', g.P, g.mode, 64), st)
        kind, ln = (code_enc if inside else code)(bits_int(bits, 8))
        e.oblige('token:pattern', ln == cnt, st, '%s/%s' % (bits, cnt))
        e.oblige('token:position', eqz(self.q(e, st), g.q), st)
        e.oblige('store-in-bounds:header', cmp('ule', add(add(g.q, g.kb, 64), 2, 64), self.outSize, 64), st)
        kb, nb = pos('kb'), fresh('nb', 64, 0, 7); e.assume(8 * U(kb) + U(nb) == 8 * U(g.kb) + U(g.nb) + cnt)
        g = g.but(kb=kb, nb=nb, tok=(kind,)); st.ghost['g'] = g; self.put_hdr(st, g); self.havoc_region(e, st, self.out, sub(self.H, kb, 64), add(kb, 1, 64))
    def on_store(self, e, st, reg, off, n, where):
        if reg is not self.out: return
        g = st.ghost['g']; e.oblige('frame:earlier-stream', cmp('uge', off, g.q, 64), st, where); e.oblige('store-in-bounds:body', cmp('ule', add(off, add(n, g.kb, 64), 64), self.H, 64), st, where)
class ShSymbols(Loop):
    """for (i = 0; i < limit; i++) one token per symbol pBlockStart[i]"""
    mods = ('outbuf',)
    def init(self, e):
        self.i = self.c.find(e, self.b, 'i'); self.lim = self.c.find(e, self.b, 'copyCount', 'consumedCopyCount', 'remainingCopyCount'); self.bs = self.c.find(e, self.b, 'pBlockStart')
    def at(self, e, st):
        p = st.slots.get(self.bs, UNDEF)
        if not (isinstance(p, Ptr) and p.r is self.c.inp): e.oblige('token:position', False, st); raise Failure('pBlockStart')
        return p.o
    def check(self, e, st, start):
        c = self.c; g = c.sync(e, st); i = c.get(e, st, self.i); e.oblige('symbols:position', eqz(g.P, add(self.at(e, st), i, 64)), st)
        if start is None: self.g0 = g; e.oblige('symbols:position', cmp('ule', i, c.get(e, st, self.lim), 64), st); return
        e.oblige('progress', cmp('ugt', i, self.i0, 64), st); e.oblige('symbols:position', cmp('ule', i, c.get(e, st, self.lim), 64), st)
        e.oblige('size:symbols', self.bound(g), st); e.oblige('frame:earlier-stream', cmp('uge', g.q, self.g0.q, 64), st)
    def bound(self, g): return z3.And(g.cost() <= self.g0.cost() + 10 * (U(g.P) - U(self.g0.P)) - 9 * (U(g.cnt) - U(self.g0.cnt)), U(g.cnt) >= U(self.g0.cnt), U(g.cnt) - U(self.g0.cnt) <= U(g.P) - U(self.g0.P))
    def assume(self, e, st):
        c = self.c; i = self.i0 = fresh('i', 64, 0, SPAN); c.put(e, st, self.i, i); e.assume(cmp('ule', i, c.get(e, st, self.lim), 64)); c.havoc_region(e, st, c.out, self.g0.q)
        g = c.fresh_g(e, st, P=add(self.at(e, st), i, 64), rle=self.g0.rle, mode=self.g0.mode); e.assume(self.bound(g), cmp('uge', g.q, self.g0.q, 64))
class ShCopy(ShEnc):
    """void copy(pBlockStart, &pOut, n, &header, rle, &s2, &s3, &so):  requires a token boundary with symbol state (rle, s2, s3, so) and room for the tokens;
    ensures tokens for exactly pBlockStart[0, n), of at most 10 bits per byte [one bit more for 7 or more], the variables hold the state behind them"""
    def pre(self, e, st):
        self.shape(e, ('ptr', 'ptr', 'int64', 'ptr', 'int8', 'ptr', 'ptr', 'ptr'), 'copy'); self.buffers(e); P = [p for _, p in self.params(e)]; self.k = {}
        hd = ShBits.cell(self, e, 'hdr*', 'rle8_sh_header_state'); self.k.update({n: ('hdr*', o) for n, o in self.f.items()}); ptr = {}
        for n, t in (('q', ('ptr',)), ('s2', ('int', 8)), ('s3', ('int', 8)), ('so', ('int', 8))):
            e.layout[n + '*'] = {0: (t, n + '*')}; r = Region(n + '*', 'slot', 8 if n == 'q' else 1); r.align = 8; e.regions[n + '*'] = r; ptr[n] = r; self.k[n] = (n + '*', 0)
        self.n = fresh('n', 64, 0, self.LIM); g = self.fresh_g(e, st, cnt=0); self.g0 = g; e.assume(cmp('ule', add(g.P, self.n, 64), self.inSize, 64), self.room(g))
        st.slots[self.k['pHeaderStart']] = Ptr(self.out, self.H)
        for p, v in zip(P, (Ptr(self.inp, g.P), Ptr(ptr['q'], 0), self.n, Ptr(hd, 0), g.rle, Ptr(ptr['s2'], 0), Ptr(ptr['s3'], 0), Ptr(ptr['so'], 0))): st.regs[p] = v
    def room(self, g): return self.space(g, self.most(self.n))
    @staticmethod
    def most(n): return 10 * U(n) + z3.If(U(n) >= 7, z3.IntVal(1), z3.IntVal(0))
    def spec_of(self, e, st, b): return ShSymbols if b in e.f.loops and self.depth(e, b) == 1 else None
    def ret(self, e, st, v):
        self.returned += 1; self.sync(e, st); g = self.leave(e, st)
        e.oblige('covers-block', eqz(g.P, add(self.g0.P, self.n, 64)), st); self.size(e, st, g)
    def size(self, e, st, g): e.oblige('size:tokens', g.cost() <= self.g0.cost() + self.most(self.n), st)
class ShBlocks(Loop):
    """while (remaining): the symbols before pBlockStart are described, of at most 162 per 15 extra bits"""
    mods = ('outbuf',)
    def init(self, e): self.rem, self.bs = self.c.find(e, self.b, 'remainingCopyCount'), self.c.find(e, self.b, 'pBlockStart')
    def check(self, e, st, start):
        c = self.c; c.sync(e, st); g = c.leave(e, st); p = st.slots.get(self.bs, UNDEF)
        e.oblige('block:position', isinstance(p, Ptr) and p.r is c.inp and band(eqz(p.o, g.P), eqz(add(g.P, c.get(e, st, self.rem), 64), add(c.g0.P, c.n, 64))), st)
        e.oblige('size:blocks', c.bound(g), st)
        if start is not None: e.oblige('progress', cmp('ugt', g.P, self.P0, 64), st)
    def assume(self, e, st):
        c = self.c; self.P0 = pos('P'); c.havoc_region(e, st, c.out, c.g0.q); g = c.fresh_g(e, st, P=self.P0, rle=c.g0.rle); e.assume(c.bound(g), cmp('uge', g.q, c.g0.q, 64), cmp('ule', g.P, add(c.g0.P, c.n, 64), 64), cmp('uge', g.P, c.g0.P, 64))
        st.slots[self.bs] = Ptr(c.inp, g.P); c.put(e, st, self.rem, sub(add(c.g0.P, c.n, 64), g.P, 64))
class ShEncCopy(ShCopy):
    """encoded_copy: as copy; 15 bits for every 162 symbols more, 9 bits less for every occurrence of the run symbol"""
    def bound(self, g): D = U(g.P) - U(self.g0.P); return z3.And(162 * (g.cost() - self.g0.cost()) <= 1635 * D - 1458 * U(g.cnt), U(g.cnt) <= D)
    def room(self, g): self.T = pos('T'); return z3.And(self.fits(g, self.n, self.T, self.outSize), U(self.T) <= U(self.n))
    @staticmethod
    def fits(g, n, T, outSize): return 162 * (8 * U(outSize) - 16 - g.cost()) >= 1635 * U(n) - 1458 * U(T)
    def counting(self, e, g):
        """T - cnt is the number of run symbols in [P, end of the block)"""
        r = U(self.g0.P) + U(self.n) - U(g.P); x = z3.If(ZB(cmp_eq(e.ro_byte(self.inp, g.P), g.rle, 8)), z3.IntVal(1), z3.IntVal(0)); R = U(self.T) - U(g.cnt)
        e.assume(z3.And(R >= 0, R <= r, z3.Implies(r > 0, z3.And(R - x >= 0, R - x <= r - 1))))
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        return ShBlocks if any(d != 'use' and base_name(e.slot_names()[k][0]) == 'pBlockStart' for x in e.f.loops[b] for d, k in self.acc(e)[x] if k in e.slot_names()) else ShSymbols
    def size(self, e, st, g): e.oblige('size:tokens', self.bound(g), st)

class ShRuns(Loop):
    """for (j = 0; j < rleCount; j++) one run symbol token"""
    mods = ('outbuf',)
    def init(self, e): self.j, self.n = self.c.find(e, self.b, 'j'), self.c.find(e, self.b, 'rleCount')
    def check(self, e, st, start):
        c = self.c; g = c.sync(e, st); j = c.get(e, st, self.j)
        if start is None: self.g0 = g; e.oblige('symbols:position', eqz(j, 0), st); return
        e.oblige('progress', cmp('ugt', j, self.j0, 64), st); e.oblige('symbols:position', band(cmp('ule', j, c.get(e, st, self.n), 64), eqz(g.P, add(self.g0.P, j, 64))), st)
        e.oblige('size:symbols', g.cost() <= self.g0.cost() + U(j), st); e.oblige('frame:earlier-stream', cmp('uge', g.q, self.g0.q, 64), st); e.oblige('state:run-symbol', cmp_eq(g.rle, self.g0.rle, 8), st)
    def assume(self, e, st):
        c = self.c; j = self.j0 = fresh('j', 64, 0, SPAN); c.put(e, st, self.j, j); e.assume(cmp('ule', j, c.get(e, st, self.n), 64)); c.havoc_region(e, st, c.out, self.g0.q)
        g = c.fresh_g(e, st, P=add(self.g0.P, j, 64), rle=self.g0.rle); e.assume(g.cost() <= self.g0.cost() + U(j), cmp('uge', g.q, self.g0.q, 64))
class ShMain(Loop):
    """the tokens describe In[0, pBlockStart); behind it, by mode (lastWasCopy, lastWasSame):
    (0, 0) nothing read yet; (0, 1) an open run of rleCount; (1, 1) copyCount symbols and a short run of rleCount; (1, 0) copyCount symbols, the last rleChangeCount of them equal lastSymbol;
    with lastWasCopy rleSymbolCopyCount is the number of run symbols in In[pBlockStart, i); size: 10 bits per byte described, one more with an open run of 14 or more"""
    mods = ('outbuf',); cases = ((0, 0), (0, 1), (1, 1), (1, 0))
    NAMES = dict(i='i', C='copyCount', R='rleChangeCount', r='rleCount', T='rleSymbolCopyCount', L='lastSymbol', S='lastWasSame', W='lastWasCopy', B='pBlockStart', E='lastRleSymbol')
    def init(self, e): self.v = {n: self.c.find(e, self.b, s) for n, s in self.NAMES.items()}
    def run(self, e, st, name, lo, hi, sym):
        k = fresh('k', 64, 0, SPAN); e.push(); e.assume(cmp('uge', k, lo, 64), cmp('ult', k, hi, 64)); e.oblige(name, cmp_eq(e.ro_byte(self.c.inp, k), sym, 8), st); e.pop()
    def check(self, e, st, start):
        c = self.c
        if start is None: c.begin(e, st)
        g = c.sync(e, st, st.slots[self.v['E']]); v = {n: c.get(e, st, k) for n, k in self.v.items() if n not in 'BLE'}; L = st.slots[self.v['L']]; i, P = v['i'], g.P
        B = st.slots.get(self.v['B']); e.oblige('block:position', isinstance(B, Ptr) and B.r is c.inp and eqz(B.o, P), st); e.oblige('block:position', cmp('ule', i, c.inSize, 64), st)
        if not isinstance(v['W'], int) or not isinstance(v['S'], int): raise Unsupported('mode')
        W, S = mode = v['W'] & 1, v['S'] & 1; Z = lambda *n: band(*[eqz(v[x], 0) for x in n])
        if start is not None: e.oblige('progress', eqz(i, add(self.i0, 1, 64)), st)
        if mode == (0, 0): e.oblige('block:counts', band(Z('C', 'R', 'r', 'T'), eqz(i, 0), eqz(P, 0)), st)
        if mode == (0, 1): e.oblige('block:counts', band(Z('C', 'R'), eqz(add(P, v['r'], 64), i), cmp('uge', v['r'], 1, 64)), st)
        if mode == (1, 1): e.oblige('block:counts', band(Z('R'), eqz(add(P, add(v['C'], v['r'], 64), 64), i), cmp('uge', v['r'], 1, 64), cmp('ule', v['r'], 14, 64), cmp('ule', v['C'], i, 64)), st)
        if mode == (1, 0): e.oblige('block:counts', band(Z('r'), eqz(add(P, v['C'], 64), i), cmp('uge', v['R'], 1, 64), cmp('ule', v['R'], v['C'], 64), cmp('ule', v['C'], i, 64)), st)
        if S: e.oblige('block:symbol', cmp_eq(L, g.rle, 8), st); self.run(e, st, 'block:run', sub(i, v['r'], 64), i, g.rle)
        elif W: e.oblige('block:symbol', bnot(cmp_eq(L, g.rle, 8)), st); self.run(e, st, 'block:run', sub(i, v['R'], 64), i, L)
        e.oblige('size:tokens', g.cost() <= 64 + 10 * U(P) + self.extra(W, v['r']), st); e.oblige('frame:earlier-stream', cmp('uge', g.q, 8, 64), st)
        if W and start is not None:
            one = zext(cmp_eq(e.ro_byte(c.inp, self.i0), g.rle, 8), 1, 64)
            if e.must(eqz(P, self.g0.P)): e.oblige('count:run-symbols', band(eqz(v['T'], add(self.T0, one, 64)), cmp_eq(g.rle, self.g0.rle, 8)), st)
            else: e.oblige('count:run-symbols', band(eqz(P, self.i0), eqz(v['T'], one)), st)
    def extra(self, W, r): return z3.IntVal(0) if W else z3.If(U(r) >= 14, z3.IntVal(1), z3.IntVal(0))
    def assume(self, e, st):
        c = self.c; W, S = self.case; i = self.i0 = pos('i'); put = lambda n, x: c.put(e, st, self.v[n], x); c.havoc_region(e, st, c.out, 8, sub(c.outSize, 8, 64)); C, R, r, T = (pos(n) for n in ('copyCount', 'rleChangeCount', 'rleCount', 'rleSymbolCopyCount'))
        if self.case == (0, 0): i = self.i0 = P = C = R = r = T = 0
        elif self.case == (0, 1): C = R = 0; P = sub(i, r, 64)
        elif self.case == (1, 1): R = 0; P = sub(i, add(C, r, 64), 64); e.assume(cmp('ule', r, 14, 64))
        else: r = 0; P = sub(i, C, 64); e.assume(cmp('uge', R, 1, 64), cmp('ule', R, C, 64))
        if S: e.assume(cmp('uge', r, 1, 64))
        e.assume(cmp('ule', add(C, r, 64), i, 64), cmp('ule', i, c.inSize, 64)); g = self.g0 = c.fresh_g(e, st, P=P); L = g.rle if S else 0 if not W else opaque('lastSymbol'); self.T0 = T
        if W and not S: e.assume(bnot(cmp_eq(L, g.rle, 8)))
        lo, sym = sub(i, r if S else R, 64), g.rle if S else L
        if S or W: c.inp.facts = c.inp.facts + [lambda o, a: bor(cmp('ult', o, lo, 64), cmp('uge', o, i, 64), cmp_eq(a, sym, 8))]
        if W: e.assume(cmp('ule', T, sub(i, P, 64), 64))
        e.assume(g.cost() <= 64 + 10 * U(P) + self.extra(W, r), cmp('uge', g.q, 8, 64))
        for n, x in (('i', i), ('C', C), ('R', R), ('r', r), ('T', T), ('S', S), ('W', W)): put(n, x)
        st.slots[self.v['L']], st.slots[self.v['E']], st.slots[self.v['B']] = L, g.rle, Ptr(c.inp, P); st.ghost['main'] = (i, T, P, g.rle)
class ShCompress(ShEnc):
    """requires buffers of inSize and outSize bytes;  ensures unusable argument: 0, nothing written; otherwise the size fields, tokens for exactly In[0, inSize), the end marker, and the header bits
    backwards from the last byte; the result is the size of all of it, at most rle8_sh_bounds(inSize)"""
    may_end = True
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'sh compress'); P = [p for _, p in self.params(e)]; self.buffers(e); self.inp.nullable = self.out.nullable = True
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        f = {n: o for n, o, s in e.fields.get('%struct.rle8_sh_header_state', ())}; h = [k for k, v in e.slot_names().items() if v[0] == 'pHeader']
        if not f or len(h) != 1 or h[0][1] != f['pHeader']: raise Unsupported('header state')
        self.k = {n: (h[0][0], f[n]) for n in f}; self.k.update(q=self.find(e, None, 'pOut'), s2=self.find(e, None, 'secondMostImportant'), s3=self.find(e, None, 'thirdMostImportant'), so=self.find(e, None, 'lastOccuredSymbol'))
        self.most = bounds(self.inSize); self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(eqz(self.inSize, 0)), bnot(eqz(self.most, 0)), cmp('uge', self.outSize, self.most, 64))
    def spec_of(self, e, st, b):
        if b not in e.f.loops: return None
        return ShMain if len(e.f.loops[b]) > 12 else ShRuns
    def begin(self, e, st):
        st.ghost['g'] = G(P=0, rle=0x7F, s2=0x80, s3=0x7E, so=0x80, q=8, kb=0, nb=0, cnt=0, tok=None, mode=None)
        e.oblige('header:start', cmp_eq(e.read_byte(st, self.out, self.H), 0, 8), st)
    def call(self, e, st, name, args, vals, ins):
        if name == 'rle8_sh_bounds': e.depends.add(name); return trunc(bounds(zext(vals[0], 32, 64)), 32)
        if name not in ('rle8_sh_copy', 'rle8_sh_encoded_copy'): return super().call(e, st, name, args, vals, ins)
        e.depends.add(name); pb, pq, n, hp, rle, p2, p3, po = vals
        slot = lambda p, k: isinstance(p, Ptr) and p.r is not None and p.r.kind == 'slot' and p.r.name == k[0] and eqz(p.o, k[1])
        if not isinstance(pb, Ptr) or pb.r is not self.inp or 'g' not in st.ghost or 'main' not in st.ghost: e.oblige('call:arguments', False, st); raise Failure('call')
        g = self.sync(e, st, rle)
        e.oblige('call:arguments', band(slot(pq, self.k['q']), slot(hp, (self.k['pHeader'][0], 0)), slot(p2, self.k['s2']), slot(p3, self.k['s3']), slot(po, self.k['so'])), st); e.oblige('call:block', eqz(pb.o, g.P), st); e.oblige('call:block', cmp('ule', add(g.P, n, 64), self.inSize, 64), st)
        if isinstance(n, int) and n == 0: return
        if name == 'rle8_sh_copy': most = ShCopy.most(n); e.oblige('call:space', self.space(g, most), st); post = lambda h: h.cost() <= g.cost() + most
        else:
            m = self.occurrences(e, st, g, n); e.oblige('call:worth-encoding', 1458 * U(m) >= 15 * U(n), st); e.oblige('call:space', ShEncCopy.fits(g, n, m, self.outSize), st)
            post = lambda h: 162 * (h.cost() - g.cost()) <= 1635 * U(n) - 1458 * U(m)
        self.havoc_region(e, st, self.out, g.q); h = self.fresh_g(e, st, P=add(g.P, n, 64), rle=g.rle); e.assume(post(h), cmp('uge', h.q, g.q, 64))
    def occurrences(self, e, st, g, n):
        """the number of run symbols in In[P, P + n)"""
        i, T, P, rle = st.ghost['main']; m = pos('m'); e.assume(cmp('ule', m, n, 64))
        if e.must(eqz(n, 0)): return 0
        e.oblige('count:run-symbols', band(eqz(g.P, P), cmp_eq(g.rle, rle, 8)), st); last = e.ro_byte(self.inp, i); a = add(P, n, 64)
        end = add(i, zext(band(cmp('ult', i, self.inSize, 64), cmp_eq(last, rle, 8)), 1, 64), 64); k = fresh('k', 64, 0, SPAN)
        for kind in ('all', 'none'):
            e.push(); e.assume(cmp('uge', k, a, 64), cmp('ult', k, i, 64)); eq = cmp_eq(e.ro_byte(self.inp, k), rle, 8); ok = e.must(eq if kind == 'all' else bnot(eq)); e.pop()
            if ok and kind == 'all' and e.must(cmp('ule', a, end, 64)): return self.exactly(e, m, add(T, sub(a, i, 64), 64))
            if ok and kind == 'none' and e.must(cmp('ule', a, i, 64)): return self.exactly(e, m, T)
        e.oblige('count:run-symbols', False, st); return m
    def exactly(self, e, m, x): e.assume(eqz(m, x)); return m
    def on_store(self, e, st, reg, off, n, where):
        if reg is not self.out: return
        if 'g' not in st.ghost: e.oblige('rejecting-call-writes-nothing', self.usable, st); return
        if e.must(band(cmp('uge', off, 4, 64), cmp('ule', add(off, n, 64), 8, 64))) and st.ghost['g'].mode is None: return
        g = self.close(e, st) if st.ghost['g'].tok and st.ghost['g'].tok[0] == 'copy_large' and not isinstance(n, int) else st.ghost['g']
        if getattr(g, 'ended', False):
            e.oblige('header:moved', 'moved' not in st.ghost and eqz(off, g.q), st); st.ghost['moved'] = (st.clone(), n); return
        super().on_store(e, st, reg, off, n, where)
    def ret(self, e, st, v):
        self.returned += 1
        if 'g' not in st.ghost: e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        g = st.ghost['g']
        if not getattr(g, 'ended', False) or 'moved' not in st.ghost: e.oblige('whole-stream', False, st); return
        st0, n = st.ghost['moved']; hs = add(g.kb, zext(bnot(eqz(g.nb, 0)), 1, 64), 64); total = add(g.q, hs, 64); rd = lambda o: from_bytes([e.read_byte(st, self.out, o + j) for j in range(4)])
        e.oblige('header:moved', eqz(n, hs), st); k = fresh('k', 64, 0, SPAN); e.push(); e.assume(cmp('ult', k, hs, 64))
        e.oblige('header:moved', cmp_eq(e.read_byte(st, self.out, add(g.q, k, 64)), e.read_byte(st0, self.out, add(sub(add(self.H, 1, 64), hs, 64), k, 64)), 8), st); e.pop()
        e.oblige('inv:declared-size', cmp_eq(rd(0), trunc(self.inSize, 32), 32), st); e.oblige('compressed-size-field', cmp_eq(rd(4), trunc(total, 32), 32), st)
        e.oblige('returns-stream-size', cmp_eq(v, trunc(total, 32), 32), st); e.oblige('result-within-bounds', cmp('ule', total, self.most, 64), st)

# ---- decoder ---------------------------------------------------------------------------------------------------------------------------------------
KINDS = {'rle1': '0', 'copy': '10', 'second': '110', 'third': '1110', 'rle_small': '11110', 'copy_small': '1111100', 'copy_large': '1111110', 'rle_large': '1111101', 'enc': '1111111'}      # header bits in stream order
KINDS_ENC = {'rle1': '0', 'copy': '10', 'second': '110', 'third': '111'}
class D(G):
    """a token boundary of the decoder: body position p, header bit K, output position o, symbol state, vb the header bits from K on, mode the end of the open encoded block"""
def is_kind(kind, pat, vb): return band(*[vb[k] if c == '1' else bnot(vb[k]) for k, c in enumerate(pat)])
class ShTokens(Loop):
    """the loop variables are a token boundary; each iteration decodes exactly one token"""
    mods = ('outbuf',)
    def init(self, e):
        self.inner = self.c.depth(e, self.b) > 1
        if self.inner: self.i, self.cnt = self.c.find(e, self.b, 'i'), self.c.find(e, self.b, 'count')
    def check(self, e, st, start):
        c = self.c; B = st.ghost.get('B')
        if start is not None: e.oblige('progress', U(st.ghost['K']) > U(self.B.K), st)
        if B is None:
            c.start(e, st); return
        if self.inner:
            if start is None:
                if not e.oblige('token:pattern', band(B.mode is None, is_kind('enc', KINDS['enc'], B.vb)), st): raise Failure('pattern')
                B = st.ghost['B'] = B.but(p=add(B.p, 1, 64), K=add(B.K, 7, 64), mode=add(B.o, add(zext(e.ro_byte(c.inp, B.p), 8, 64), 161, 64), 64)); c.same(e, st, B)
            else: c.step(e, st, B, KINDS_ENC)
            B = st.ghost['B']; e.oblige('token:block-length', eqz(sub(B.mode, B.o, 64), sub(c.get(e, st, self.cnt), c.get(e, st, self.i), 64)), st)
            e.oblige('token:block-length', cmp('ule', c.get(e, st, self.i), c.get(e, st, self.cnt), 64), st)
        elif B.mode is not None: e.oblige('token:block-length', eqz(B.o, B.mode), st); c.same(e, st, B)
        else: c.step(e, st, B, KINDS)
    def assume(self, e, st):
        c = self.c; B0 = st.ghost.get('B'); mode = B0.mode if self.inner else None
        d = dict(p=pos('p'), K=pos('K'), o=pos('o'), rle=opaque('rle'), s2=opaque('s2'), s3=opaque('s3'), so=opaque('so'), vb=[z3.Bool('hb!%d' % next(_ctr)) for _ in range(16)], mode=mode)
        B = self.B = D(**d); c.havoc_region(e, st, c.out); c.wf(e, B, KINDS_ENC if self.inner else KINDS)
        if self.inner:
            i, n = fresh('i', 64, 0, 1 << 10), c.get(e, st, self.cnt); c.put(e, st, self.i, i); e.assume(cmp('ule', i, n, 64), eqz(sub(mode, B.o, 64), sub(n, i, 64)), cmp('ule', B.o, mode, 64), cmp('ule', mode, c.M, 64), U(B.K) >= U(B0.K))
        c.put_state(e, st, B)
class ShDecompress(Annotated):
    """requires a stream as ShCompress ensures, of N bytes, the header bits backwards from its last byte, for M bytes of output
    ensures unusable argument: 0, nothing written; otherwise exactly the expansion of the tokens up to the end marker, the result is M"""
    VARS = dict(rle='lastRleSymbol', s2='secondMostImportant', s3='thirdMostImportant', so='lastOccuredSymbol')
    def pre(self, e, st):
        self.shape(e, ('ptr', 'int32', 'ptr', 'int32'), 'sh decompress'); P = [p for _, p in self.params(e)]
        self.inSize, self.outSize = fresh('inSize', 64, 0, (1 << 32) - 1), fresh('outSize', 64, 0, (1 << 32) - 1)
        self.inp, self.out = self.region(e, 'inbuf', 'in', 13), self.region(e, 'outbuf', 'out', self.outSize); self.inp.nullable = self.out.nullable = True
        rd = lambda k: zext(from_bytes([e.ro_byte(self.inp, k + j) for j in range(4)]), 32, 64)
        self.M, self.N = rd(0), rd(4); self.KT, self.BE = pos('KT'), pos('BE'); self.inp.rlim = self.N
        e.assume(cmp('uge', self.BE, 12, 64), U(self.KT) >= 7, 8 * (U(self.N) - U(self.BE)) >= U(self.KT), bnot(eqz(self.M, 0)))
        for p, v in zip(P, (Ptr(self.inp, 0), trunc(self.inSize, 32), Ptr(self.out, 0), trunc(self.outSize, 32))): st.regs[p] = v
        self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(eqz(self.inSize, 0)), bnot(eqz(self.outSize, 0)), cmp('uge', self.outSize, self.M, 64), cmp('uge', self.inSize, self.N, 64))
        f = {n: o for n, o, s in e.fields.get('%struct.rle8_sh_read_header', ())}; h = [k for k, v in e.slot_names().items() if v[0] == 'pHeader']
        if not f or len(h) != 1 or h[0][1] != f['pHeader']: raise Unsupported('header state')
        self.hk = {n: (h[0][0], f[n]) for n in f}
        self.v = {n: self.find(e, None, s) for n, s in self.VARS.items()}
    def ptr(self, e, st, n):
        p = st.slots.get(self.find(e, None, n), UNDEF); r = self.inp if n == 'pIn' else self.out
        if not (isinstance(p, Ptr) and p.r is r): e.oblige('position-variables', False, st); raise Failure(n)
        return p
    def reader(self, e, st, B, init=False):
        """the bit buffer stands at header bit B.K"""
        v, r, p = (st.slots.get(self.hk[n], UNDEF) for n in ('value', 'remainingBits', 'pHeader'))
        if init:
            ok = UNDEF not in (v, r) and isinstance(p, Ptr) and p.r is self.inp
            e.oblige('header:start', ok and band(cmp_eq(v, zext(e.ro_byte(self.inp, sub(self.N, 1, 64)), 8, 16), 16), cmp_eq(r, 8, 8), eqz(p.o, sub(self.N, 2, 64))), st)
        else:
            rd = st.ghost['rd']; e.oblige('header:state', all(x is y or (not isinstance(x, Ptr) and x is not UNDEF and same(x, y)) for x, y in zip((v, r, p), rd)) and eqz(st.ghost['K'], B.K), st)
    def put_reader(self, st, vb):
        junk = [z3.Bool('junk!%d' % next(_ctr)) for _ in range(8)]; rd = (mask_val(vb[:8] + junk, 16), fresh('remaining', 8, 8, 16), Ptr(self.inp, pos('h')))
        for n, v in zip(('value', 'remainingBits', 'pHeader'), rd): st.slots[self.hk[n]] = v
        st.ghost['rd'] = rd; st.ghost['vb'] = vb
    def put_state(self, e, st, B):
        st.slots[self.find(e, None, 'pIn')] = Ptr(self.inp, B.p); st.slots[self.find(e, None, 'pOut')] = Ptr(self.out, B.o)
        for n in ('rle', 's2', 's3', 'so'): st.slots[self.v[n]] = getattr(B, n)
        self.put_reader(st, B.vb); st.ghost['K'] = B.K; st.ghost['B'] = B
    def start(self, e, st):
        e.oblige('rejecting-call-writes-nothing', self.usable, st); B = D(p=8, K=0, o=0, rle=0x7F, s2=0x80, s3=0x7E, so=0x80, vb=None, mode=None); self.reader(e, st, B, init=True); self.same(e, st, B, False)
    def same(self, e, st, B, reader=True):
        e.oblige('stream-position', eqz(self.ptr(e, st, 'pIn').o, B.p), st); e.oblige('output-position', eqz(self.ptr(e, st, 'pOut').o, B.o), st)
        for n in ('rle', 's2', 's3', 'so'):
            v = st.slots.get(self.v[n], UNDEF); e.oblige('state:symbols', v is not UNDEF and cmp_eq(v, getattr(B, n), 8), st, n)
        if reader: self.reader(e, st, B)
    def word(self, e, p): return from_bytes([e.ro_byte(self.inp, add(p, j, 64)) for j in range(4)])
    def operands(self, e, B, kind):
        """(operand bytes without literals, output bytes, literal bytes)"""
        b = lambda: zext(e.ro_byte(self.inp, B.p), 8, 64)
        if kind in ('rle1', 'second', 'third'): return 0, 1, 0
        if kind == 'copy': return 1, 1, 0
        if kind == 'rle_small': return 1, add(b(), 14, 64), 0
        if kind == 'rle_large': return 5, zext(add(self.word(e, B.p), 14, 32), 32, 64), 0
        if kind == 'copy_small': n = add(b(), 7, 64); return 1, n, n
        if kind == 'copy_large': n = add(zext(self.word(e, B.p), 32, 64), 7, 64); return 4, n, n
        return 1, add(b(), 161, 64), 0
    def end(self, e, B): return cmp_eq(self.word(e, B.p), 0, 32)
    def wf(self, e, B, kinds):
        """well-formedness of the token at the boundary B, and of the boundary"""
        e.assume(cmp('uge', B.p, 8, 64), cmp('ule', B.p, self.BE, 64), cmp('ule', B.o, self.M, 64), U(B.K) <= U(self.KT)); live = True if B.mode is None else cmp('ult', B.o, B.mode, 64)
        for kind, pat in kinds.items():
            ln, n, lit = self.operands(e, B, kind); here = band(live, is_kind(kind, pat, B.vb))
            fit = band(cmp('ule', add(B.p, add(ln, lit, 64), 64), self.BE, 64), cmp('ule', add(B.o, n, 64), self.M, 64))
            if kind == 'copy_large': fit = band(cmp('ule', add(B.p, 4, 64), self.BE, 64), bor(self.end(e, B), fit), bor(bnot(self.end(e, B)), eqz(B.o, self.M)))
            e.assume(bor(bnot(here), band(fit, U(B.K) + len(pat) <= U(self.KT))))
    def step(self, e, st, B, kinds):
        """the state is the one behind the token at B, and the output between is its expansion"""
        for kind, pat in kinds.items():
            e.push(); e.assume(is_kind(kind, pat, B.vb))
            if e.feasible():
                if kind == 'enc': e.oblige('token:pattern', False, st)
                else: self.token(e, st, B, kind, pat)
            e.pop()
        P, O = self.ptr(e, st, 'pIn'), self.ptr(e, st, 'pOut'); st.ghost['B'] = B.but(p=P.o, o=O.o, K=st.ghost['K'], vb=st.ghost['vb'], **{n: st.slots[self.v[n]] for n in ('rle', 's2', 's3', 'so')})
    def token(self, e, st, B, kind, pat):
        ln, n, lit = self.operands(e, B, kind); new = {}; x = e.ro_byte(self.inp, B.p)
        if kind == 'copy_large': e.oblige('token-not-end', bnot(self.end(e, B)), st)
        sym = {'rle1': B.rle, 'rle_small': B.rle, 'copy': x, 'second': B.s2, 'third': B.s3}.get(kind)
        if kind == 'copy': hit = cmp_eq(x, B.so, 8); new = dict(s3=bite(hit, B.s2, B.s3, 8), s2=bite(hit, x, B.s2, 8), so=x)
        elif kind in ('second', 'third'): new = dict(so=sym)
        elif kind == 'rle_large': sym = e.ro_byte(self.inp, add(B.p, 4, 64)); new = dict(rle=sym)
        self.same(e, st, B.but(p=add(B.p, add(ln, lit, 64), 64), K=add(B.K, len(pat), 64), o=add(B.o, n, 64), **new))
        if n == 1: e.oblige('token:symbol', cmp_eq(e.read_byte(st, self.out, B.o), sym, 8), st); return
        k = fresh('k', 64, 0, SPAN); e.push(); e.assume(cmp('ult', k, n, 64)); y = e.read_byte(st, self.out, add(B.o, k, 64))
        if sym is not None: e.oblige('run-symbol', cmp_eq(y, sym, 8), st)
        else: e.oblige('literal-copied', cmp_eq(y, e.ro_byte(self.inp, add(B.p, add(ln, k, 64), 64)), 8), st)
        e.pop()
    def call(self, e, st, name, args, vals, ins):
        if name != 'rle8_sh_consume_bits': return super().call(e, st, name, args, vals, ins)
        e.depends.add(name); hp, b = vals; B = st.ghost.get('B')
        if B is None or not isinstance(b, int): raise Unsupported('header bits before the first token')
        e.oblige('call:arguments', isinstance(hp, Ptr) and hp.r is not None and hp.r.name == self.hk['value'][0] and 1 <= b <= 7 and eqz(hp.o, 0), st)
        self.reader(e, st, B.but(K=st.ghost['K'])); K = st.ghost['K'] = add(st.ghost['K'], b, 64); e.oblige('load-in-bounds:header', U(K) <= U(self.KT), st)
        self.put_reader(st, st.ghost['vb'][b:] + [z3.Bool('hb!%d' % next(_ctr)) for _ in range(b)])
    def on_store(self, e, st, reg, off, n, where):
        if reg is not self.out: return
        B = st.ghost.get('B'); e.oblige('rejecting-call-writes-nothing', self.usable, st); e.oblige('frame:earlier-output', B is not None and cmp('uge', off, B.o, 64), st, where)
    def spec_of(self, e, st, b): return ShTokens if b in e.f.loops and self.depth(e, b) <= 2 else None
    def ret(self, e, st, v):
        self.returned += 1; B = st.ghost.get('B')
        if B is None: e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st); e.oblige('reject:only-unusable-arguments', bnot(self.usable), st); return
        e.oblige('whole-stream', band(B.mode is None, is_kind('copy_large', KINDS['copy_large'], B.vb), self.end(e, B)), st); e.oblige('returns-declared-size', cmp_eq(v, trunc(self.M, 32), 32), st)
