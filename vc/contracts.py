"""Contracts: pre/postconditions and loop invariants attached to the extracted functions, discharged through symex.Engine."""
import re
from symex import *
from symex import _ctr
import spec

LIM31 = 1 << 31
COMPILER_TEMP = re.compile(r'(indirect-arg|agg\.|byval|tmp|retval|\.|cleanup)')

class TokCtx:
    """runs a grammar at a stream position; case distinctions fork"""
    def __init__(self, eng, rd, decisions, spec_side):
        self.e, self.rd, self.dec, self.k, self.conds, self.new = eng, rd, decisions, 0, [], []
        self.fork = None; self.req = []; self.spec_side = spec_side; self.partial = False
    def byte(self, k): return self.rd(k)
    def u8(self, k): return zext(self.rd(k), 8, 64)
    def u16(self, k): return zext(from_bytes([self.rd(k), self.rd(add(k, 1, 64))]), 16, 64)
    def u32(self, k): return zext(from_bytes([self.rd(add(k, j, 64)) for j in range(4)]), 32, 64)
    def choose(self, c):
        if isinstance(c, bool): return c
        if self.k < len(self.dec): r = self.dec[self.k]
        else:
            t, f = self.e.feasible(c), None
            if not t: r = False
            else:
                f = self.e.feasible(bnot(c)); r = True
                if f: self.fork = self.dec + [False]
            self.dec = self.dec + [r]
            if self.fork is not None and self.fork is not False and len(self.fork) == len(self.dec): self.forks.append(self.fork)
        self.k += 1
        cc = c if r else bnot(c)
        self.conds.append(cc); self.e.assume(cc)
        return r
    def require(self, c):
        """well-formedness condition of the stream: assumed when decoding, an obligation when encoding"""
        self.req.append(c)
        if self.spec_side: self.e.assume(c)

def run_token(eng, codec, rd, st, spec_side, then, partial=False):
    """enumerate the cases of the grammar at this position; then(result, ctx) runs in each case's scope"""
    work = [[]]
    while work:
        d = work.pop()
        eng.push()
        c = TokCtx(eng, rd, d, spec_side); c.forks = []; c.partial = partial
        r = codec.tok(c, st)
        work += c.forks
        if eng.feasible(): then(r, c)
        eng.pop()

class Base:
    """defaults of the engine's callbacks"""
    externs = {}; array_region = 1 << 30
    def quotient(self, e, op, a, b, w): return None
    def product(self, e, a, b, w): raise Unsupported('product of two variables')
    def __init__(self): self.dead = False
    def big_locals(self): return ()
    def on_fail(self, e, name): pass
    def on_store(self, e, st, reg, off, n, where): pass
    def at_block(self, e, st, b): return None
    def determined(self, e, st, vals):
        """(condition under which the caller's input determines the values, their sources that it might not determine)"""
        cs = []; src = []
        for l in e.sources(vals):
            if l[0] == 'undef': c = False
            elif l[0] == 'tz':                    # number of trailing zeros: only the bytes up to the first one that is not zero count
                c = False; upto = True
                for x in l[1]:
                    upto = band(upto, self.determined(e, st, [x])[0]); c = bor(c, band(upto, bnot(byte_zero(x))))
                c = bor(c, upto)
            elif l[0] == 'read' and l[1] is getattr(self, 'inp', None) and getattr(self, 'in_slack', 0) and getattr(self, 'inSize', None) is not None: c = cmp('ult', l[2], self.inSize, 64)
            elif l[0] == 'read' and l[1] is getattr(self, 'out', None): c = self.stream_known(e, l[2])
            elif l[0] in ('sym', 'hvec', 'pad'): c = self.symbol_known(e, l)
            else: c = True
            if c is not True: cs.append(c); src.append(l)
        return band(*cs) if cs else True, src
    def depends(self, e, st, name, vals, unless=False, where=''):
        """obligation: the values are functions of the input (or `unless` holds)"""
        c, src = self.determined(e, st, vals)
        if c is True or e.must(bor(c, unless)): e.stats['obligations'] += 1; e.obkinds[name] = e.obkinds.get(name, 0) + 1
        else: e.unanswered(name, st, '%s on %s' % (where, src[0]))
    def symbol_known(self, e, l): return True
    def stream_known(self, e, off): return True
    def on_branch(self, e, st, conds, b):
        self.depends(e, st, 'depends:branch', conds, False, b)
    def force_cut(self, e, b): return False
    def header_mode(self, e, st, b): return 'cut'
    def unrollable(self, e, b): return False
    def load_global(self, e, st, reg, off, t):
        t = e.mod.resolve(t)
        if t[0] == 'int': return fresh('g_' + reg.name, t[1])       # arbitrary value (CPU feature flags)
        raise Unsupported('global load ' + reg.name)
    def global_bytes(self, e, st, reg, off, n): raise Unsupported('global bytes ' + reg.name)
    def call(self, e, st, name, args, vals, ins):
        if name == '_DetectCPUFeatures': return None
        if name == 'rle_compress_bounds': return bounds_rle(vals[0])
        raise Unsupported('call of ' + name)

def bounds_rle(n):
    """contract of rle_compress_bounds (verified separately against its body)"""
    if isinstance(n, int): return 0 if n > (1 << 30) else n + 193
    return bite(cmp('ugt', n, 1 << 30, 32), 0, add(n, 193, 32), 32)

# ------------------------------------------------------------------------------------------------------------------------------
class Decoder(Base):
    """void decode(const uint8_t *pInStart, uint8_t *pOut [, symbol]):
    requires  a well-formed token stream of N bytes at pInStart that expands to M bytes, buffers N+in_slack / M+out_slack
    ensures   per token: writes exactly the literals and the run at the output position, advances both positions by the token's lengths, returns
              exactly at the end token; every store < M+out_slack, every load < N+in_slack, output before the token untouched."""
    def __init__(self, codec, in_slack=64, out_slack=128, roles=None):
        super().__init__()
        self.codec, self.in_slack, self.out_slack = codec, in_slack, out_slack
        self.roles = roles or {}
    def setup(self, e):
        self.stream = Region('stream', 'in'); self.out = Region('outbuf', 'out')
        e.regions['stream'] = self.stream; e.regions['outbuf'] = self.out
        self.N, self.M = fresh('N', 64, 0, LIM31), fresh('M', 64, 0, LIM31)
        self.stream.rlim = add(self.N, self.in_slack, 64); self.out.wlim = add(self.M, self.out_slack, 64); self.out.rlim = self.out.wlim
    def find_role(self, e, st, role, names, pred):
        c = [(k, v) for k, v in e.slot_names().items() if re.sub(r'(\.addr)?(\.i\d*)*\d*$', '', v[0]) in names and pred(st.slots.get(k, UNDEF))]
        c.sort(key=lambda kv: len(kv[1][0]))
        return c[0][0] if c else None
    def verify(self, e):
        self.setup(e)
        f = e.f
        st = State()
        prm = [p for t, p in f.params]
        st.regs[prm[0]] = Ptr(self.stream, 0); st.regs[prm[1]] = Ptr(self.out, 0)
        self.extra_params(e, st, prm)
        self.phase = 'entry'; self.head = None; self.entry_state = None; self.W = set(); self.first = None
        e.segname = 'entry'
        e.written = set()
        e.push(); e.explore(st, f.order[0], None); e.pop()
        if self.head is None: raise Unsupported('no token loop found')
        acc = slot_access(e)[0]; self.W = {k for b in f.loops[self.head] for d, k in acc[b] if d != 'use'}
        for rnd in range(6):
            e.written = set(); nf = len(e.fails); ob = e.stats['obligations']; kinds = dict(e.obkinds)
            e.segname = 'token loop'
            e.push(); self.body(e); e.pop()
            if e.written <= self.W: break
            self.W |= e.written; del e.fails[nf:]; e.stats['obligations'] = ob; e.obkinds = kinds
        else: raise Unsupported('variable set does not stabilise')
    def extra_params(self, e, st, prm): pass
    def header_mode(self, e, st, b):
        if self.head is None or b == self.head: return 'cut'
        return 'summ'
    def arrive(self, e, st, b):
        if self.phase == 'entry':
            self.head = b; self.entry_state = st
            self.pk = self.find_role(e, st, 'p', ('pInStart', 'pIn'), lambda v: isinstance(v, Ptr) and v.r is self.stream)
            self.ok = self.find_role(e, st, 'o', ('pOut',), lambda v: isinstance(v, Ptr) and v.r is self.out)
            if self.pk is None or self.ok is None: raise Unsupported('stream / output position variables not found')
            e.oblige('entry-positions', band(cmp_eq(st.slots[self.pk].o, self.codec.skip, 64), cmp_eq(st.slots[self.ok].o, 0, 64)), st)
            self.mem_roles(e, st)
            for k, (a, b_) in enumerate(zip(self.codec.init, self.get_mem(e, st))):
                e.oblige('entry-symbol-memory', band(*[cmp_eq(x, y, 8) for x, y in zip(a, b_)]), st)
            return
        self.check_token(e, st)
    # symbol memory of the decoder: the vectors that carry the symbol from one token to the next, each byte k = symbol[k mod S]
    def mem_roles(self, e, st):
        self.mk = []
        if not self.codec.carries: return
        live, acc = liveness(e); loop = e.f.loops[self.head]; w = {k for b in loop for d, k in acc[b] if d != 'use'}
        names = e.slot_names()
        self.mk = [k for k in names if k in live[self.head] and k in w and e.mod.resolve(names[k][1])[0] == 'vec' and not COMPILER_TEMP.match(names[k][0])]
        if not self.mk: raise Unsupported('symbol variable not found')
    def mem_bytes(self, e, st):
        bs = []
        for k in self.mk: bs += e.val_bytes(st.slots[k], e.slot_names()[k][1])
        return bs
    def get_mem(self, e, st):
        if not self.codec.carries: return []
        return [self.mem_bytes(e, st)[:self.codec.S]]
    def assume_mem(self, e, st):
        """invariant: the symbol vector is the symbol repeated"""
        if not self.codec.carries: return
        S = self.codec.S; sy = [opaque('sym') for _ in range(S)]; o = 0
        for k in self.mk:
            t = e.slot_names()[k][1]; n = e.mod.size(t)
            st.slots[k] = e.bytes_val([sy[(o + j) % S] for j in range(n)], t); o += n
    def check_mem(self, e, st):
        if not self.codec.carries: return
        S = self.codec.S; bs = self.mem_bytes(e, st)
        e.oblige('inv:symbol-vector-periodic', band(*[cmp_eq(bs[k], bs[k - S], 8) for k in range(S, len(bs))]), st)
    def body(self, e):
        names = e.slot_names(); self.phase = 'body'
        st = self.entry_state.clone()
        for k in self.W:
            v = st.slots.get(k, UNDEF)
            if isinstance(v, Ptr) and v.r is not None and v.r.kind == 'slot': continue
            st.slots[k] = e.havoc_like(v, names[k][0], names[k][1])
        p, o = fresh('p', 64, 0, LIM31), fresh('o', 64, 0, LIM31)
        st.slots[self.pk] = Ptr(self.stream, p); st.slots[self.ok] = Ptr(self.out, o)
        self.W |= {self.pk, self.ok}
        self.W |= set(self.mk)
        st.out = {}; st.visits = {}; st.cond = (); st.pc = ()
        self.assume_mem(e, st)
        e.assume(cmp('ule', p, self.N, 64), cmp('ule', o, self.M, 64))
        mem = self.get_mem(e, st)
        self.p, self.o, self.mem0 = p, o, mem
        rd = lambda k: e.read_byte(st, self.stream, add(p, k, 64))
        snap = (len(e.fails), e.stats['obligations'], dict(e.obkinds))
        if self.codec.fin and not self.nocut:
            self.cut = self.find_cut(e)
            if self.cut:
                e.push(); ok = self.header_part(e, st, rd, mem); e.pop()
                if ok: ok = self.copy_part(e, st)
                self.cut = None
                if ok and len(e.fails) == snap[0]: return
                del e.fails[snap[0]:]; e.stats['obligations'] = snap[1]; e.obkinds = snap[2]; self.nocut = True      # no modular proof: whole tokens path by path
        def then(r, c):
            self.tokr = r
            self.reach += 1
            h, L, C = r['h'], r['L'], r['C']
            # well-formedness: header, literals and output of this token lie inside the stream / declared output
            e.assume(cmp('ule', h, sub(self.N, p, 64), 64), cmp('ule', L, LIM31, 64), cmp('ule', C, LIM31, 64))
            e.assume(cmp('ule', add(h, L, 64), sub(self.N, p, 64), 64), cmp('ule', add(L, C, 64), sub(self.M, o, 64), 64))
            e.assume(*self.extra_wf(r))
            if not e.feasible(): return
            self.live += 1
            self.seen = 0
            e.push(); e.explore(st.clone(), self.head, None, start=True); e.pop()
            if not self.seen: e.fails.append({'obligation': 'token-handled', 'where': 'token case never completes', 'result': 'cex', 'model': '', 'path': [], 'segment': 'token loop'})
        self.reach = self.live = 0
        run_token(e, self.codec, rd, mem, True, then)
        e.cases = self.live
        if self.live == 0: raise Unsupported('vacuous: no token case is reachable')
    def extra_wf(self, r): return []
    # ---- the token loop in two parts: header parsing up to a cut block, then copy and fill ----------------------------------------
    nocut = False; cut = None
    def local_loop(self, e, h):
        """a loop that only moves local variables"""
        return not any(i.op == 'store' and not (i.a[1][0] == 'loc' and i.a[1][1][1:] in e.layout) and not self.local_ptr(e, h, i.a[1]) for x in e.f.loops[h] for i in e.f.blocks[x])
    def local_ptr(self, e, h, v):
        return any(j.op == 'getelementptr' and j.res == v[1] and j.a[1][0][1][0] == 'loc' and j.a[1][0][1][1][1:] in e.layout for x in e.f.loops[h] for j in e.f.blocks[x])
    def unrollable(self, e, b): return b != self.head and b in e.f.loops and self.local_loop(e, b)
    def find_cut(self, e):
        """the last join block of the token loop that dominates every inner loop"""
        f = e.f; body = f.loops[self.head]; inner = [b for b in body if b in f.loops and b != self.head]
        if not inner: return None
        order = [b for b in f.rpo if b in body]; dom = {b: set(order) for b in order}; dom[self.head] = {self.head}
        preds = {b: [q for q in order if b in f.succ[q]] for b in order}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == self.head: continue
                d = set.intersection(*[dom[q] for q in preds[b]]) | {b} if preds[b] else {b}
                if d != dom[b]: dom[b] = d; ch = True
        # loops with a concrete trip count (table shifts) are unrolled: only loops that write the output count
        wr = [h for h in inner if not self.local_loop(e, h)] or inner
        c = set.intersection(*[dom[h] for h in wr]) - set(wr) - {self.head}
        c = [b for b in order if b in c and len(preds[b]) >= 2 and not any(b in f.loops[h] for h in inner)]
        return c[-1] if c else None
    def at_block(self, e, st, b):
        if self.cut is None or b != self.cut or self.phase != 'head' or e.quiet: return None
        self.at_cut(e, st); return 'stop'
    def header_part(self, e, st, rd, mem):
        self.live_cut = [k for k in liveness(e)[0][self.cut]]; self.match = {}; self.narr = 0; self.cutst = None; self.cutbad = None
        self.phase = 'head'; self.live = 0
        def then(r, c):
            if self.cutbad: return
            self.tokr = r; h = r['h']
            e.assume(cmp('ule', h, sub(self.N, self.p, 64), 64))
            if r['end'] is not None:
                e.assume(cmp('ule', add(h, r['L'], 64), sub(self.N, self.p, 64), 64), cmp('ule', add(r['L'], r['C'], 64), sub(self.M, self.o, 64), 64))
            if not e.feasible(): return
            self.live += 1; self.seen = 0
            e.push(); e.explore(st.clone(), self.head, None, start=True); e.pop()
            if not self.seen: self.cutbad = 'token case never completes'
        run_token(e, self.codec, rd, mem, True, then, partial=True)
        self.phase = 'body'
        return not self.cutbad and self.narr and all(self.match.values())
    def cut_values(self, e, r):
        """value builders: candidate name -> fn(slot type) -> value, from the spec's view of the parsed header"""
        S = self.codec.S; lane = {3: 4, 6: 8}.get(S, S); out = {}
        for nm in ('off', 'cnt'):
            for d in (0, -1, -2): out[(nm, d)] = (lambda t, x=r[nm], d=d: (lambda v: v if t[1] == 64 else trunc(v, t[1]))(add(x, d, 64)) if t[0] == 'int' and t[1] >= 32 else None)
        def per(sy, ph): return lambda t: [(sy[(ph + j) % S]) for j in range(e.mod.size(t))] if t[0] == 'vec' else None
        def lan(sy): return lambda t: [(sy[j % lane] if j % lane < S else None) for j in range(e.mod.size(t))] if t[0] == 'vec' or t[0] == 'int' and e.mod.size(t) in (S, lane) else None
        for m, sy in enumerate(r['st']): out[('lane', m)] = lan(sy)
        out[('sym',)] = lan(r['sym'])
        for ph in range(S): out[('per', ph)] = per(r['sym'], ph)
        return out
    def at_cut(self, e, st):
        r = self.tokr; self.seen += 1; e.stats['paths'] += 1
        if r['end'] is not None or st.out.get('outbuf'): self.cutbad = 'shape'; return
        self.narr += 1; names = e.slot_names()
        if self.cutst is None: self.cutst = st.clone()
        cand = self.cut_values(e, r)
        for k in self.live_cut:
            v = st.slots.get(k, UNDEF); t = e.mod.resolve(names[k][1])
            if self.narr == 1:
                ms = [('const',)]
                if isinstance(v, Ptr) and v.r is self.stream: ms += [('in', self.codec.S), ('in', 0)]
                elif isinstance(v, Ptr) and v.r is self.out: ms.append(('out',))
                elif v is not UNDEF and not isinstance(v, Ptr): ms += [c for c in cand if cand[c](t) is not None]
                self.match[k] = ms
            keep = []
            for m in self.match[k]:
                if m == ('const',): ok = v is UNDEF and self.cutst.slots.get(k, UNDEF) is UNDEF or (v is not UNDEF and same(v, self.cutst.slots.get(k, UNDEF)) and not self.mentions_state(v))
                elif v is UNDEF: ok = False
                elif m[0] == 'in':      # behind the header, or in front of a symbol that ends the header
                    ok = isinstance(v, Ptr) and v.r is self.stream and e.must(cmp_eq(v.o, add(self.p, sub(r['h'], m[1], 64), 64), 64))
                    if ok and m[1]: ok = not self.codec.carries and not self.codec.single and e.must(band(*[cmp_eq(x, e.ro_byte(self.stream, add(v.o, j, 64)), 8) for j, x in enumerate(r['sym'])]))
                elif m == ('out',): ok = isinstance(v, Ptr) and v.r is self.out and e.must(cmp_eq(v.o, self.o, 64))
                else:
                    w = cand[m](t)
                    if isinstance(w, list):
                        bs = e.val_bytes(v, names[k][1]); c = band(*[cmp_eq(x, y, 8) for x, y in zip(bs, w) if y is not None]); ok = c is True or (c is not False and e.must(c))
                    else: ok = e.must(cmp_eq(v, w, t[1]))
                if ok: keep.append(m)
            self.match[k] = keep
            e.stats['obligations'] += 1; e.obkinds['header:parsed-as-specified'] = e.obkinds.get('header:parsed-as-specified', 0) + 1
    def mentions_state(self, v):
        """values that depend on the token at hand cannot be taken as loop constants"""
        if isinstance(v, (int, bool)): return False
        if isinstance(v, Ptr): return not (isinstance(v.o, int))
        if isinstance(v, (list, tuple)): return any(self.mentions_state(x) for x in v)
        return not any(same(v, x) for x in self.consts)
    consts = ()
    def copy_part(self, e, st0):
        """from the cut block: an arbitrary parsed header (length h, literal field, count field, symbol memory)"""
        names = e.slot_names(); S = self.codec.S; st = self.cutst.clone(); st.out = {}; st.visits = {}; st.cond = (); st.pc = ()
        e.push()
        h = fresh('h', 64, 1, 64); off = fresh('off', 64, 0, (1 << 32) - 1); cnt = fresh('cnt', 64, 0, (1 << 32) - 1)
        mem = [[opaque('sym') for _ in range(S)] for _ in (self.codec.init or [0])]
        sym = mem[0] if self.codec.carries else self.mem0[0] if self.codec.single else mem[0]
        if self.codec.single: mem = [sym]
        if any(m[-1:] == [('in', S)] for m in self.match.values()):
            e.assume(cmp('ugt', h, S, 64)); sym = [e.ro_byte(self.stream, add(self.p, add(sub(h, S, 64), j, 64), 64)) for j in range(S)]
        r = dict(h=h, off=off, cnt=cnt, sym=sym, st=mem); cand = self.cut_values(e, r); par = {p for _, p in e.f.params}
        st.regs = {k: v for k, v in st.regs.items() if k in par or isinstance(v, Ptr) and v.r is not None and v.r.kind == 'slot' and v.r.name == k[1:]}
        for k in e.slot_names():
            if k not in self.live_cut: st.slots[k] = UNDEF; continue
            m = self.match[k][-1] if self.match[k][0] != ('const',) else ('const',)
            if m == ('const',): continue
            if m[0] == 'in': st.slots[k] = Ptr(self.stream, add(self.p, sub(h, m[1], 64), 64))
            elif m == ('out',): st.slots[k] = Ptr(self.out, self.o)
            else:
                w = cand[m](e.mod.resolve(names[k][1]))
                st.slots[k] = e.bytes_val([opaque('pad') if x is None else x for x in w], names[k][1]) if isinstance(w, list) else w
        self.seen = 0
        class Fin: tok = staticmethod(lambda c, s: self.codec.fin(c, h, off, cnt, sym, mem))
        def then(r, c):
            self.tokr = r; L, C = r['L'], r['C']
            e.assume(cmp('ule', h, sub(self.N, self.p, 64), 64), cmp('ule', L, LIM31, 64), cmp('ule', C, LIM31, 64))
            e.assume(cmp('ule', add(h, L, 64), sub(self.N, self.p, 64), 64), cmp('ule', add(L, C, 64), sub(self.M, self.o, 64), 64))
            e.assume(*self.extra_wf(r))
            if not e.feasible(): return
            e.push(); e.explore(st.clone(), self.cut, None, start=True); e.pop()
        cut, self.cut = self.cut, self.cut
        run_token(e, Fin, None, mem, True, then)
        e.pop()
        return self.seen > 0
    def check_effect(self, e, st, pout_end):
        r = self.tokr; S = self.codec.S; o, p = self.o, self.p
        L, C, h = r['L'], r['C'], r['h']
        if not (isinstance(L, int) and L == 0):
            k = fresh('k', 64, 0, LIM31)
            e.push(); e.assume(cmp('ult', k, L, 64))
            if e.feasible(): e.oblige('literals-copied', cmp_eq(e.read_byte(st, self.out, add(o, k, 64)), e.ro_byte(self.stream, add(add(p, h, 64), k, 64)), 8), st)
            e.pop()
        if not (isinstance(C, int) and C == 0):
            base = add(o, L, 64)
            for q in range(S):
                e.push(); e.assume(cmp('ult', q, C, 64))
                e.oblige('run-symbol', cmp_eq(e.read_byte(st, self.out, add(base, q, 64)), r['sym'][q], 8), st)
                e.pop()
            k = fresh('k', 64, 0, LIM31)
            e.push(); e.assume(cmp('uge', k, S, 64), cmp('ult', k, C, 64))
            if e.feasible():
                e.oblige('run-periodic', cmp_eq(e.read_byte(st, self.out, add(base, k, 64)), e.read_byte(st, self.out, sub(add(base, k, 64), S, 64)), 8), st)
            e.pop()
        x = fresh('x', 64, 0, 1 << 34)
        e.push(); e.assume(cmp('ult', x, o, 64))
        if e.feasible(): e.oblige('frame:earlier-output', cmp_eq(e.read_byte(st, self.out, x), e.ro_byte(self.out, x), 8), st)
        e.pop()
    def check_token(self, e, st):
        self.seen += 1
        r = self.tokr
        e.oblige('token-not-end', not r['end'], st)
        P, O = st.slots.get(self.pk, UNDEF), st.slots.get(self.ok, UNDEF)
        if not (isinstance(P, Ptr) and P.r is self.stream and isinstance(O, Ptr) and O.r is self.out):
            e.oblige('position-variables', False, st); return
        e.oblige('stream-position', cmp_eq(P.o, add(add(self.p, r['h'], 64), r['L'], 64), 64), st)
        e.oblige('output-position', cmp_eq(O.o, add(add(self.o, r['L'], 64), r['C'], 64), 64), st)
        self.check_effect(e, st, O)
        self.check_mem(e, st)
        for a, b in zip(r['st'], self.get_mem(e, st)):
            e.oblige('symbol-memory-update', band(*[cmp_eq(x, y, 8) for x, y in zip(a, b)]), st)
    def ret(self, e, st, v):
        if self.phase == 'entry':
            e.oblige('return-before-token-loop', False, st); return
        self.seen += 1
        r = self.tokr
        e.oblige('returns-only-at-end-token', bool(r['end']), st)
        self.check_effect(e, st, None)

# ------------------------------------------------------------------------------------------------------------------------------
def base_name(n): return re.sub(r'(\.addr)?(\.i\d*)*\d*$', '', n)

def gep_const(e, t, ops):
    off = 0; cur = t
    for n, (it, iv) in enumerate(ops[1:]):
        if iv[0] != 'const': return None
        if n == 0: off += iv[1] * e.mod.size(cur)
        else:
            c = e.mod.resolve(cur)
            if c[0] == 'struct': o, cur = e.mod.field(cur, iv[1]); off += o
            else: cur = c[2]; off += iv[1] * e.mod.size(cur)
    return off
def slot_access(e):
    """per block: list of ('use'|'def', slot key) in order, for liveness of local variables"""
    f = e.f; names = e.slot_names(); byreg = {}
    for (r, o) in names: byreg.setdefault(r, []).append(o)
    # a local that only ever holds the address of one other local (inlined pState parameters) is an alias of it
    hold = {}; ptr = {}; bad = set()
    for _ in range(6):
        n0 = (len(hold), len(ptr), len(bad))
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'alloca' and i.res[1:] in e.layout: ptr[i.res] = (i.res[1:], 0)
                elif i.op == 'store' and i.a[1][0] == 'loc' and i.a[1][1] in ptr and ptr[i.a[1][1]][1] is not None:
                    v = i.a[0]; k = ptr[i.a[1][1]]
                    t = ptr.get(v[1]) if v[0] == 'loc' else None
                    if t is None or t[1] is None:
                        if e.mod.resolve(i.ty)[0] == 'ptr' and _ > 2: bad.add(k)
                    elif hold.setdefault(k, t) != t: bad.add(k)
                elif i.op == 'load' and i.a[0][0] == 'loc' and i.a[0][1] in ptr and e.mod.resolve(i.ty)[0] == 'ptr':
                    k = ptr[i.a[0][1]]
                    if k in hold and k not in bad: ptr[i.res] = hold[k]
                elif i.op == 'getelementptr':
                    bs = i.a[1][0][1]
                    if bs[0] == 'loc' and bs[1] in ptr:
                        r, o = ptr[bs[1]]
                        try: q = gep_const(e, i.a[0], i.a[1])
                        except Exception: q = None
                        ptr[i.res] = (r, o + q if o is not None and q is not None else None)
        if (len(hold), len(ptr), len(bad)) == n0 and _ > 2: break
    if bad & set(hold): hold = {}      # ambiguous: no aliases
    aliases = {k for k in hold}
    ptr = {}      # ssa -> (region, const off or None)
    acc = {}; escaped = set()
    for b in f.order:
        l = acc[b] = []
        for i in f.blocks[b]:
            if i.op == 'alloca' and i.res[1:] in e.layout: ptr[i.res] = (i.res[1:], 0); continue
            def tgt(v):
                if v[0] == 'loc' and v[1] in ptr: return ptr[v[1]]
                return None
            def leafs(p, t):
                r, o = p
                if o is None: return [(r, x) for x in byreg[r]], False
                n = e.mod.size(t); ks = []; full = True
                for x in byreg[r]:
                    s = e.mod.size(names[(r, x)][1])
                    if x < o + n and o < x + s:
                        ks.append((r, x)); full = full and o <= x and x + s <= o + n
                return ks, full
            if i.op == 'load':
                p = tgt(i.a[0])
                if p: l += [('use', k) for k in leafs(p, i.ty)[0]]
                if p in aliases and e.mod.resolve(i.ty)[0] == 'ptr': ptr[i.res] = hold[p]
            elif i.op == 'store':
                p = tgt(i.a[1])
                if i.a[0][0] == 'loc' and i.a[0][1] in ptr and p not in aliases: escaped.add(ptr[i.a[0][1]][0])
                if p:
                    ks, full = leafs(p, i.ty)
                    l += [('def' if full else 'part', k) for k in ks]
            elif i.op == 'getelementptr':
                bs = i.a[1][0][1]
                if bs[0] == 'loc' and bs[1] in ptr:
                    r, o = ptr[bs[1]]
                    try:
                        q = gep_const(e, i.a[0], i.a[1]); ptr[i.res] = (r, o + q if o is not None and q is not None else None)
                    except Exception: ptr[i.res] = (r, None)
            elif i.op == 'call':
                n = i.a[0]
                if 'llvm.lifetime' in n: continue
                if re.match(r'@llvm\.mem(cpy|set|move)', n) and i.a[1][2][1][0] == 'const':       # exact extent
                    ln = ('arr', i.a[1][2][1][1], ('int', 8)); mc = 'set' not in n
                    for side, (t, v) in (('use', i.a[1][1]), ('def', i.a[1][0])) if mc else (('def', i.a[1][0]),):
                        if v is None or v[0] != 'loc' or v[1] not in ptr: continue
                        ks, full = leafs(ptr[v[1]], ln)
                        l += [(side if side == 'use' or full else 'part', k) for k in ks]
                    continue
                for t, v in i.a[1]:
                    if v is not None and v[0] == 'loc' and v[1] in ptr:
                        r = ptr[v[1]][0]
                        if n.startswith('@llvm.mem') or n.endswith('process_symbol'): l += [('use', (r, x)) for x in byreg[r]] + [('part', (r, x)) for x in byreg[r]]
                        else: escaped.add(r)
            else:
                for v in re.findall(r'%[-\w.$]+', i.text):
                    if v in ptr and v != i.res: escaped.add(ptr[v][0])
    return acc, escaped

def liveness(e):
    f = e.f; acc, esc = slot_access(e)
    live = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            t = f.blocks[b][-1]
            s = set()
            for x in f.succ[b]: s |= live[x]
            for k, key in reversed(acc[b]):
                if k == 'def': s.discard(key)
                elif k == 'use': s.add(key)
            if s != live[b]: live[b] = s; ch = True
    for b in live:
        for key in e.slot_names():
            if key[0] in esc: live[b].add(key)
    return live, acc

class Encoder(Base):
    """uint32_t compress(pIn, inSize, pOut, outSize):
    requires  inSize <= 2^30 (public bound), buffers of the given sizes (or NULL)
    ensures   returns 0 and writes nothing if an argument is unusable; otherwise returns index <= bounds(inSize), and Out[0, index) is a
              header (inSize, index) followed by tokens whose expansion is exactly In[0, inSize); loads stay inside In[0, inSize + in_slack).
    loop invariant at every loop header: Out[0, index) = header + tokens expanding to In[0, lastRLE); index <= H + lastRLE;
              In[i - count, i) is a run of symbol; the decoder's symbol memory equals the encoder's."""
    ROLES = {'i': ('i',), 'count': ('count',), 'lastRLE': ('lastRLE',), 'index': ('index',), 'symbol': ('symbol',)}
    def __init__(self, codec, in_slack=0, mem=('lastSymbol',), pos_form='index'):
        super().__init__()
        self.codec, self.in_slack, self.memnames = codec, in_slack, mem
        self.dropped = set(); self.trace = None
    def setup(self, e):
        self.inp = Region('in', 'in'); self.out = Region('out', 'out'); e.regions['in'] = self.inp; e.regions['out'] = self.out
        self.inSize = fresh('inSize', 64, 0, self.codec.max_in); self.outSize = fresh('outSize', 64, 0, (1 << 32) - 1)
        self.inp.rlim = add(self.inSize, self.in_slack, 64); self.out.wlim = self.outSize; self.out.rlim = self.outSize
        self.inp.nullable = self.out.nullable = True
    def params(self, e, st):
        prm = [(t, p) for t, p in e.f.params]
        ptrs = [p for t, p in prm if e.mod.resolve(t)[0] == 'ptr']; ints = [(t, p) for t, p in prm if e.mod.resolve(t)[0] == 'int']
        st.regs[ptrs[0]] = Ptr(self.inp, 0); st.regs[ptrs[1]] = Ptr(self.out, 0)
        for (t, p), v in zip(ints, (self.inSize, self.outSize)):
            st.regs[p] = v if t[1] == 64 else trunc(v, t[1])
        for t, p in prm[4:]: self.extra_param(e, st, t, p)
    def extra_param(self, e, st, t, p): raise Unsupported('parameter ' + p)
    def usable(self):
        return band(bnot(self.inp.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), cmp('uge', self.outSize, self.codec.bounds(self.inSize), 64))
    def on_store(self, e, st, reg, off, n, where): st.ghost['stored'] = True
    def pick(self, e, names, cands):
        c = [k for k in cands if base_name(e.slot_names()[k][0].split('.')[-1] if '.' in e.slot_names()[k][0] and not e.slot_names()[k][0].split('.')[-1].isdigit() and not e.slot_names()[k][0].endswith('.addr') and '.i' not in e.slot_names()[k][0] else e.slot_names()[k][0]) in names]
        c.sort(key=lambda k: (len(e.slot_names()[k][0]), k))
        return c[0] if c else None
    def verify(self, e):
        self.setup(e); f = e.f; self.fparams = f.params
        self.live, self.acc = liveness(e)
        self.heads = [b for b in f.order if b in f.loops]
        lw = set()
        for h in self.heads:
            for b in f.loops[h]:
                for k, key in self.acc[b]:
                    if k in ('def', 'part'): lw.add(key)
        self.W = lw
        self.find_roles(e)
        self.entry = {}; self.tmpl = {}; self.Wh = set(); self.todo = []
        self.order = {b: n for n, b in enumerate(f.rpo)}
        self.hd = None; self.reached = {}
        e.segname = 'entry'; self.phase = 'entry'
        st = State(); self.params(e, st)
        e.push(); e.explore(st, f.order[0], None); e.pop()
        if not self.entry: raise Unsupported('no loop reached from entry')
        # Houdini over the auxiliary candidates, then the final pass
        for rnd in range(8):
            nd = set(self.dropped); nf = len(e.fails); ob = e.stats['obligations']; kinds = dict(e.obkinds); nW = set(self.Wh)
            self.done = set(); self.queue = list(self.entry)
            while self.queue:
                h = self.queue.pop(0)
                if h in self.done: continue
                self.done.add(h)
                self.segment(e, h)
            if nd == self.dropped and nW == self.Wh: break
            del e.fails[nf:]; e.stats['obligations'] = ob; e.obkinds = kinds
        else: raise Unsupported('invariant does not stabilise')
        if not self.returned: e.fails.append({'obligation': 'returns', 'where': 'no path returns a stream', 'result': 'cex', 'model': '', 'path': [], 'segment': ''})
    returned = 0
    def loop_slots(self, e, h):
        """variables accessed in the outermost loop around h"""
        f = e.f; L = max((f.loops[x] for x in self.heads if h in f.loops[x]), key=len)
        return {key for b in L for k, key in self.acc[b]}
    def find_roles(self, e):
        """the variables that play the contract's roles, per loop header (inlined helpers have their own copies)"""
        names = e.slot_names(); self.roles = {}; self.mems = {}
        for h in self.heads:
            near = self.loop_slots(e, h); d = self.roles[h] = {}
            for r, ns in self.ROLES.items():
                k = self.pick(e, ns, [k for k in names if k in near]) or self.pick(e, ns, [k for k in names if k in self.W]) or self.pick(e, ns, list(names))
                if k is None: raise Unsupported('variable %s not found' % '/'.join(ns))
                d[r] = k
            self.mems[h] = []
            if self.codec.carries:
                for n in self.memnames:
                    k = self.pick(e, (n,), [k for k in names if k in near]) or self.pick(e, (n,), [k for k in names if k in self.live[h]])
                    if k is not None and k in self.live[h]: self.mems[h].append(k)
                if len(self.mems[h]) not in (0, len(self.memnames)): raise Unsupported('symbol memory not found')
    @property
    def role(self): return self.roles[self.cur]
    @property
    def memk(self): return self.mems[self.cur]
    # ---- calls of the token emitting helper, by its contract ------------------------------------------------------------------
    def call(self, e, st, name, args, vals, ins):
        if not re.match(r'_?rle\d+_.*process_symbol$', name): return super().call(e, st, name, args, vals, ins)
        e.depends.add(name)
        ok = len(vals) == 4 and all(isinstance(vals[k], Ptr) for k in (0, 1, 3)) and vals[0].r is self.inp and vals[1].r is self.out and vals[3].r is not None and vals[3].r.kind == 'slot' and vals[3].o == 0
        e.oblige('call:arguments', ok and band(cmp_eq(vals[0].o, 0, 64), cmp_eq(vals[1].o, 0, 64)), st, name)
        if not ok: raise Failure('call')
        reg = vals[3].r.name; key = {v[0]: k for k, v in e.slot_names().items() if k[0] == reg}
        get = lambda n: st.slots.get(key[n], UNDEF)
        for n in ('symbol', 'count', 'lastRLE', 'index') + tuple(self.memnames if self.codec.carries else ()):
            if n not in key: raise Unsupported('field %s of the encoder state not found' % n)
        S = self.codec.S; i = vals[2]; count, last, index = get('count'), get('lastRLE'), get('index')
        sy = e.val_bytes(get('symbol'), e.slot_names()[key['symbol']][1])[:S]
        mem = [e.val_bytes(get(n), e.slot_names()[key[n]][1])[:S] for n in (self.memnames if self.codec.carries else ())]
        if self.codec.single: mem = [sy]
        e.oblige('call:positions', band(cmp('ule', i, self.inSize, 64), cmp('ule', last, i, 64), cmp('ule', count, sub(i, last, 64), 64), cmp('uge', index, self.codec.H, 64), cmp('ule', index, add(last, self.codec.H, 64), 64)), st, name)
        e.oblige('call:run-multiple', self.multiple(count, S) if not self.codec.unbound and not self.codec.partial else True, st, name)
        start = sub(i, count, 64)
        for r in range(S): e.oblige('call:run-is-input', bor(cmp('ule', count, r, 64), cmp_eq(e.ro_byte(self.inp, add(start, r, 64)), sy[r], 8)), st, name)
        self.prove_periodic(e, 'call:run-is-input', start, i, st, name)
        if e.taint:
            self.depends(e, st, 'depends:call', [i, count, last, index] + [x for n in (self.memnames if self.codec.carries and not self.codec.single else ()) for x in e.val_bytes(get(n), e.slot_names()[key[n]][1])], False, name)
            self.depends(e, st, 'depends:call', e.val_bytes(get('symbol'), e.slot_names()[key['symbol']][1]), cmp_eq(count, 0, 64), name)
        pads = [x for n in ('symbol',) + tuple(self.memnames if self.codec.carries else ()) for x in e.val_bytes(get(n), e.slot_names()[key[n]][1])[S:]]
        padz = bool(pads) and all(x is not UNDEF for x in pads) and e.must(band(*[cmp_eq(x, 0, 8) for x in pads]))       # padding zero before: zero after (ensured by Emit)
        def emitted(s2):
            ni = fresh('index', 64, 0, LIM31); e.assume(cmp('ugt', ni, index, 64), cmp('ule', ni, add(i, self.codec.H, 64), 64), cmp('ugt', i, last, 64))
            s2.slots[key['index']] = ni; s2.slots[key['lastRLE']] = i; nm = mem if self.codec.single else []
            for n in (self.memnames if self.codec.carries else ()):
                t = e.slot_names()[key[n]][1]; m = [opaque('mem') for _ in range(S)]; nm.append(m)
                s2.slots[key[n]] = e.bytes_val(m + [0 if padz else opaque('pad') for _ in range(e.mod.size(t) - S)], t)
            for n in ('index', 'lastRLE') + tuple(self.memnames if self.codec.carries else ()): e.written.add(key[n])
            s2.out['out'] = s2.out.get('out', ()) + (Layer('hav', index, 1 << 40, fn=z3.Function('out!%d' % next(_ctr), z3.IntSort(), BSORT)),)
            s2.ghost['stored'] = True
            s2.ghost['chunks'] = s2.ghost.get('chunks', ()) + (dict(pos=index, cov=last, mem=mem, pos2=ni, cov2=i, mem2=nm),)
            return True
        raise Split([(True, emitted), (True, lambda s2: False)])
    # ---- the invariant -------------------------------------------------------------------------------------------------------
    def isl(self, h, r): return self.role[r] in self.live[h]
    def sym_bytes(self, e, st):
        k = self.role['symbol']
        return e.val_bytes(st.slots.get(k, UNDEF), e.slot_names()[k][1])[:self.codec.S]
    def mem_of(self, e, st):
        return [e.val_bytes(st.slots.get(k, UNDEF), e.slot_names()[k][1])[:self.codec.S] for k in self.memk]
    def header_ok(self, e, st):
        """declared uncompressed size at its place"""
        bs = to_bytes(trunc(self.inSize, 32), 4)
        return band(*[cmp_eq(e.read_byte(st, self.out, self.codec.size_at + k), bs[k], 8) for k in range(4)])
    def set_role(self, e, st, r, v):
        k = self.role[r]; t = e.mod.resolve(e.slot_names()[k][1])
        st.slots[k] = v if t[1] == 64 else trunc(v, t[1])
    def get_role(self, e, st, r):
        k = self.role[r]; t = e.mod.resolve(e.slot_names()[k][1]); v = st.slots.get(k, UNDEF)
        if v is UNDEF: raise Unsupported('%s undefined at loop header' % r)
        if t[0] == 'ptr':
            return v.o
        return v if t[1] == 64 else zext(v, t[1], 64)
    def start_mem(self, e, st): return self.mem_of(e, st) if self.memk else [[opaque('mem') for _ in range(self.codec.S)] for _ in self.codec.init]
    def segment(self, e, h):
        names = e.slot_names(); S = self.codec.S
        e.segname = 'from ' + h; self.phase = 'seg'; self.hd = self.cur = h
        st = self.tmpl[h].clone()
        st.out = {}; st.visits = {}; st.cond = (); st.pc = (); st.ghost = {}
        e.push()
        for k in self.W | {k for b, k in self.Wh if b == h}:
            if k not in self.live[h]: st.slots[k] = UNDEF; continue
            v = st.slots.get(k, UNDEF)
            t = e.mod.resolve(names[k][1])
            if v is UNDEF and t[0] == 'ptr': continue
            if v is UNDEF: v = 0 if t[0] == 'int' else [0] * t[1] if t[0] == 'vec' else UNDEF
            st.slots[k] = e.havoc_like(v, names[k][0], names[k][1])
        for k in self.memk:
            if k in self.live[h] and k in self.W: st.slots[k] = e.bytes_val([opaque('mem') if j < S or (h, 'memory-padding') in self.dropped else 0 for j in range(e.mod.size(names[k][1]))], names[k][1])
        i, last = fresh('i', 64, 0, LIM31), fresh('lastRLE', 64, 0, LIM31)
        index = fresh('index', 64, 0, LIM31)
        self.set_role(e, st, 'i', i); self.set_role(e, st, 'lastRLE', last); self.set_role(e, st, 'index', index)
        e.assume(cmp('ule', last, i, 64), cmp('ule', i, self.inSize, 64), cmp('ule', index, add(last, self.codec.H, 64), 64), cmp('uge', index, self.codec.H, 64))
        e.assume(self.usable())
        self.K = fresh('K', 64, 0, LIM31)
        if self.isl(h, 'count'):
            count = fresh('count', 64, 0, LIM31) if (h, 'run-multiple') in self.dropped else scale(fresh('q', 64, 0, LIM31), S, 64)
            self.set_role(e, st, 'count', count)
            e.assume(cmp('ule', count, sub(i, last, 64), 64))
            if self.isl(h, 'symbol'):
                sy = self.new_symbol(e, st)
                self.put_symbol(e, st, sy, (h, 'symbol-padding') not in self.dropped)
                e.assume(*[c for nm, c in self.run_facts(e, i, count, sy) if (h, nm) not in self.dropped])
        for nm, c in self.candidates(e, st, h):
            if (h, nm) not in self.dropped: e.assume(c)
        self.s0 = dict(i=i, last=last, index=index, mem=self.start_mem(e, st), count=count if self.isl(h, 'count') else None)
        self.st0 = st
        self.arrivals = 0
        if not e.feasible(): raise Unsupported('vacuous invariant at ' + h)
        e.explore(st.clone(), h, None, start=True)
        e.pop()
    # ---- nothing but the input decides (C15): two runs on equal inputs agree on every variable at every cut point, except that the symbol (and its
    #      vector copies) may differ where it was loaded across the end of the input, and then no run of it is open
    def symbol_known(self, e, l):
        s = getattr(self, 's0', None)
        if s is None or self.phase == 'entry': return True
        c = [cmp('ule', add(s['i'], self.codec.S, 64), self.inSize, 64)]
        if s.get('count') is not None and l[0] != 'hvec': c.append(bnot(cmp_eq(s['count'], 0, 64)))
        return bor(*c)
    def stream_known(self, e, off):
        s = getattr(self, 's0', None)
        return False if s is None or self.phase == 'entry' else cmp('ult', off, s['index'], 64)
    def check_depends(self, e, st, b, i, count):
        S = self.codec.S; names = e.slot_names(); k0 = self.role['symbol']; end = cmp('ugt', add(i, S, 64), self.inSize, 64)
        open_ = False
        if count is not None: open_ = cmp('uge', count, S, 64); endv = end; end = band(end, cmp_eq(count, 0, 64))
        else: endv = end
        for k in self.live[b]:
            if k not in self.W and (b, k) not in self.Wh or k not in st.slots or COMPILER_TEMP.match(names[k][0]): continue
            v = st.slots[k]; vec = e.mod.resolve(names[k][1])[0] == 'vec'
            self.depends(e, st, 'depends:state', [v], bor(end, open_) if k == k0 or vec and (b, 'splat:%s.%d' % k) not in self.dropped else endv if vec else False, '%s: %s' % (b, names[k][0]))
    def new_symbol(self, e, st): return [opaque('sym') for _ in range(self.codec.S)]
    def put_symbol(self, e, st, sy, zero=True):
        k = self.role['symbol']; t = e.slot_names()[k][1]; n = e.mod.size(t)
        st.slots[k] = e.bytes_val(sy + [0 if zero else opaque('pad') for _ in range(n - len(sy))], t)
    def run_facts(self, e, i, count, sy):
        S = self.codec.S; rd = lambda o: e.ro_byte(self.inp, o)
        start = sub(i, count, 64); K = self.K; out = []
        for r in range(S):
            out.append(('run-first', bor(cmp('ule', count, r, 64), cmp_eq(rd(add(start, r, 64)), sy[r], 8))))
        out.append(('run-periodic', self.periodic(e, start, i, K)))
        for t in range(S):
            out.append(('run-phase', bor(cmp_eq(count, 0, 64), cmp_eq(rd(add(sub(i, S, 64), t, 64)), sy[t], 8))))
        return out
    def periodic(self, e, start, end, K):
        S = self.codec.S; rd = lambda o: e.ro_byte(self.inp, o)
        return bor(bnot(cmp('ule', add(start, S, 64), K, 64)), bnot(cmp('ult', K, end, 64)), cmp_eq(rd(K), rd(sub(K, S, 64)), 8))
    def prove_periodic(self, e, name, start, end, st, where=''):
        """for all K in [start+S, end): In[K] == In[K-S]; case split at the input position of the cut point"""
        a = getattr(self, 's0', None); K = self.K
        if a is None or self.phase == 'entry': return e.oblige(name, self.periodic(e, start, end, K), st, where)
        i0 = a['i']; D = None
        for d in (0, 1, 2, 4, 8, 16, 32, 64, 128):
            c = cmp('ule', end, add(i0, d, 64), 64)
            if c is True or e.must(c): D = d; break
        if D is None: return e.oblige(name, self.periodic(e, start, end, K), st, where)
        e.push(); e.assume(cmp('ult', K, i0, 64)); ok = e.oblige(name, self.periodic(e, start, end, K), st, where); e.pop()
        for j in range(D):
            if not ok: break
            ok = e.oblige(name, self.periodic(e, start, end, add(i0, j, 64)), st, where)
        return ok
    def candidates(self, e, st, h):
        """auxiliary facts, kept only if inductive: vector copies of the symbol"""
        out = [('before-end', cmp('ult', self.get_role(e, st, 'i'), self.inSize, 64))]
        k = self.role['symbol']
        if k not in self.live[h]: return out
        sb = self.sym_bytes(e, st)
        if any(b is UNDEF for b in sb): return out
        for key, (n, t) in e.slot_names().items():
            if key in self.live[h] and key in self.W and not COMPILER_TEMP.match(n) and e.mod.resolve(t)[0] == 'vec' and key != k:
                v = st.slots.get(key, UNDEF)
                if v is UNDEF: continue
                bs = e.val_bytes(v, t)
                if any(b is UNDEF for b in bs): continue
                out.append(('splat:%s.%d' % key, band(*[cmp_eq(b, sb[j % self.codec.S], 8) for j, b in enumerate(bs)])))
        return out
    # ---- arrivals ---------------------------------------------------------------------------------------------------------------
    def template(self, st, b):
        """variables outside W keep the value they have on every arrival at b"""
        if b not in self.tmpl:
            t = self.tmpl[b] = st.clone(); par = {p for _, p in self.fparams}; t.regs = {k: v for k, v in st.regs.items() if k in par or isinstance(v, Ptr) and v.r is not None and v.r.kind == 'slot' and v.r.name == k[1:]}; return
        t = self.tmpl[b]
        for k in set(t.slots) | set(st.slots):
            x, y = t.slots.get(k, UNDEF), st.slots.get(k, UNDEF)
            if k in self.live[b] and k not in self.W and (b, k) not in self.Wh and not (x is UNDEF and y is UNDEF) and not same(x, y): self.Wh.add((b, k))
    def arrive(self, e, st, b):
        self.template(st, b)
        if self.phase == 'entry':
            self.entry.setdefault(b, True)
            e.oblige('rejects-unusable-arguments', self.usable(), st)
            self.check_inv(e, st, b, entry=True)
            return
        self.arrivals += 1
        if b not in self.done and b not in self.queue: self.queue.append(b)
        self.check_inv(e, st, b)
    def check_inv(self, e, st, b, entry=False):
        S = self.codec.S
        self.cur = b
        if e.log: e.log('arrive %s %s' % (b, '/'.join(st.pc[-8:])))
        i, last, index = (self.get_role(e, st, r) for r in ('i', 'lastRLE', 'index'))
        if not hasattr(self, 'K') or entry: self.K = fresh('K', 64, 0, LIM31)
        e.oblige('inv:input-position', band(cmp('ule', i, self.inSize, 64), cmp('ule', last, i, 64)), st, b)
        e.oblige('inv:stream-size', band(cmp('ule', index, add(last, self.codec.H, 64), 64), cmp('uge', index, self.codec.H, 64)), st, b)
        if entry: e.oblige('inv:declared-size', self.header_ok(e, st), st, b)
        if self.isl(b, 'count'):
            count = self.get_role(e, st, 'count')
            e.oblige('inv:run-length', cmp('ule', count, sub(i, last, 64), 64), st, b)
            self.keep(e, b, 'run-multiple', self.multiple(count, S))
            if self.isl(b, 'symbol'):
                k = self.role['symbol']; pad = e.val_bytes(st.slots.get(k, UNDEF), e.slot_names()[k][1])[S:]
                if pad: self.keep(e, b, 'symbol-padding', band(*[cmp_eq(x, 0, 8) for x in pad]))
                for nm, c in self.run_facts(e, i, count, self.sym_bytes(e, st)):
                    if nm == 'run-periodic': self.prove_periodic(e, 'inv:run-periodic', sub(i, count, 64), i, st, b)
                    elif nm == 'run-phase': self.keep(e, b, nm, c)
                    else: e.oblige('inv:' + nm, c, st, b)
        pad = [x for k in self.memk if k in self.live[b] for x in e.val_bytes(st.slots.get(k, UNDEF), e.slot_names()[k][1])[S:]]
        if pad: self.keep(e, b, 'memory-padding', band(*[cmp_eq(x, 0, 8) for x in pad]))
        for nm, c in self.candidates(e, st, b):
            self.keep(e, b, nm, c)
        if entry:
            e.oblige('entry:nothing-consumed', band(cmp_eq(last, 0, 64), cmp_eq(index, self.codec.H, 64)), st, b)
            for a, m in zip(self.codec.init, self.mem_of(e, st)):
                e.oblige('entry:symbol-memory', band(*[cmp_eq(x, y, 8) for x, y in zip(a, m)]), st, b)
            return
        if e.taint: self.check_depends(e, st, b, i, self.get_role(e, st, 'count') if self.isl(b, 'count') else None)
        self.frame(e, st, False)
        e.oblige('progress', bor(cmp('ugt', last, self.s0['last'], 64), cmp('ugt', i, self.s0['i'], 64), band(cmp_eq(i, self.s0['i'], 64), self.order[b] > self.order[self.hd])), st, b)
        self.tokens(e, st, last, index, False)
    def keep(self, e, b, nm, c):
        """auxiliary part of the invariant at b: kept while it is inductive, dropped (and the proof redone without it) otherwise"""
        if (b, nm) in self.dropped: return
        if e.prove(c) != 'ok': self.dropped.add((b, nm))
        else: e.stats['obligations'] += 1; e.obkinds['inv:auxiliary'] = e.obkinds.get('inv:auxiliary', 0) + 1
    def multiple(self, v, S):
        if S == 1: return True
        if isinstance(v, int): return v % S == 0
        return cmp_eq(udiv_const(v, S, 64)[1], 0, 64)
    def frame(self, e, st, final):
        if not st.ghost.get('stored'): return
        x = fresh('x', 64, 0, 1 << 33)
        e.push(); e.assume(cmp('ult', x, self.s0['index'], 64))
        if final: e.assume(bnot(band(cmp('uge', x, self.codec.csize_at, 64), cmp('ult', x, self.codec.csize_at + 4, 64))))
        if e.feasible(): e.oblige('frame:earlier-stream', cmp_eq(e.read_byte(st, self.out, x), e.ro_byte(self.out, x), 8), st)
        e.pop()
    def tokens(self, e, st, last, index, final):
        """the bytes emitted since the last cut point are whole tokens whose expansion is the input consumed since then"""
        self.walk(e, st, self.s0['index'], self.s0['last'], self.s0['mem'], last, index, final, 0)
    def walk(self, e, st, pos, cov, mem, last, index, final, depth):
        if not final:
            d = cmp_eq(pos, index, 64)
            if d is True or (d is not False and e.must(d)):
                e.oblige('stream-matches-input', cmp_eq(cov, last, 64), st)
                for a, m in zip(mem, self.mem_of(e, st)):
                    e.oblige('symbol-memory', band(*[cmp_eq(x, y, 8) for x, y in zip(a, m)]), st)
                return
        for ch in st.ghost.get('chunks', ()):
            d = cmp_eq(pos, ch['pos'], 64)
            if d is True or (d is not False and e.must(d)):
                e.oblige('stream-matches-input', cmp_eq(cov, ch['cov'], 64), st)
                for a, m in zip(mem, ch['mem']): e.oblige('symbol-memory', band(*[cmp_eq(x, y, 8) for x, y in zip(a, m)]), st)
                return self.walk(e, st, ch['pos2'], ch['cov2'], ch['mem2'], last, index, final, depth + 1)
        if depth > 6: e.oblige('whole-tokens', False, st); return
        used = []
        def rd(k):
            x = e.read_byte(st, self.out, add(pos, k, 64)); used.append(x); return x
        self.ntok = getattr(self, 'ntok', 0) + 1
        def then(r, c):
            for q in c.req: e.oblige('well-formed-token', q, st)
            h, L, C = r['h'], r['L'], r['C']
            np, nc = add(add(pos, h, 64), L, 64), add(add(cov, L, 64), C, 64)
            ok = e.oblige('token-inside-stream', band(cmp('ule', L, LIM31, 64), cmp('ule', C, LIM31, 64), cmp('ule', np, index, 64)), st)
            ok = e.oblige('token-inside-input', cmp('ule', nc, self.inSize, 64), st) and ok
            if not ok: return
            if not (isinstance(L, int) and L == 0):
                k = fresh('k', 64, 0, LIM31); e.push(); e.assume(cmp('ult', k, L, 64))
                if e.feasible(): e.oblige('literals', cmp_eq(e.read_byte(st, self.out, add(add(pos, h, 64), k, 64)), e.ro_byte(self.inp, add(cov, k, 64)), 8), st)
                e.pop()
            if not (isinstance(C, int) and C == 0):
                S = self.codec.S; start = add(cov, L, 64); rdi = lambda o: e.ro_byte(self.inp, o)
                for q in range(S): e.oblige('run-is-input', bor(cmp('ule', C, q, 64), cmp_eq(rdi(add(start, q, 64)), r['sym'][q], 8)), st)
                self.prove_periodic(e, 'run-is-input', start, add(start, C, 64), st)
            if e.taint:
                known = [x for q, x in enumerate(r['sym'] or ()) if e.must(cmp('ugt', C, q, 64))] if 'sym' in r and r['sym'] is not None else []       # these bytes equal input bytes (run-is-input)
                for x in used:
                    if not isinstance(x, int) and not any(same(x, y) for y in known): self.depends(e, st, 'depends:token', [x])
            if r['end']:
                e.oblige('end-token-only-at-end', final, st)
                e.oblige('stream-complete', band(cmp_eq(np, index, 64), cmp_eq(nc, self.inSize, 64)), st)
                self.ended += 1
                return
            self.walk(e, st, np, nc, r['st'], last, index, final, depth + 1)
        run_token(e, self.codec, rd, mem, False, then)
    ended = 0
    def ret(self, e, st, v):
        if v is None: raise Unsupported('void encoder')
        if self.phase == 'entry':
            e.oblige('returns-zero-when-rejecting', cmp_eq(v, 0, 32), st)
            e.oblige('rejects-only-unusable-arguments', bnot(self.usable()), st)
            e.oblige('rejecting-writes-nothing', not st.ghost.get('stored'), st)
            return
        self.returned += 1
        index = zext(v, 32, 64)
        if e.taint:
            self.depends(e, st, 'depends:result', [v])
        self.frame(e, st, True)
        bs = to_bytes(v, 4)
        e.oblige('compressed-size-field', band(*[cmp_eq(e.read_byte(st, self.out, self.codec.csize_at + k), bs[k], 8) for k in range(4)]), st)
        e.oblige('result-within-bounds', band(cmp('ule', index, self.outSize, 64), bnot(cmp_eq(v, 0, 32))), st)
        self.tokens(e, st, None, index, True)

class Emit(Encoder):
    """bool process_symbol(pIn, pOut, i, pState): the token emitting helper of the lookup encoders.
    requires  In[i - count, i) is a run of symbol (phase 0 at its start), lastRLE + count <= i <= inSize, H <= index <= H + lastRLE
    ensures   true:  Out[index, index') is whole tokens that expand to In[lastRLE, i), index' <= H + i, lastRLE' = i, symbol memory as the decoder's
              false: nothing written, state unchanged; in both cases Out[0, index), symbol and count unchanged."""
    def verify(self, e):
        self.setup(e); f = e.f; S = self.codec.S
        tys = {i.a[0] for b in f.order for i in f.blocks[b] if i.op == 'getelementptr' and i.a[0][0] == 'named'}
        if len(tys) != 1 or len(f.params) != 4: raise Unsupported('encoder state type')
        t = tys.pop(); ls = e.leaves(t); e.layout['pState*'] = {o: (ty, nm) for o, ty, nm in ls}
        r = Region('pState*', 'slot', e.mod.size(t)); r.align = 64; e.regions['pState*'] = r
        self.key = key = {nm: ('pState*', o) for o, ty, nm in ls}; names = e.slot_names()
        mn = list(self.memnames) if self.codec.carries else []
        for n in ('symbol', 'count', 'lastRLE', 'index') + tuple(mn):
            if n not in key: raise Unsupported('field %s of the encoder state not found' % n)
        self.cur = self.hd = 'entry'; self.roles = {'entry': {}}; self.mems = {'entry': [key[n] for n in mn]}; self.phase = 'seg'
        st = State(); e.push()
        i, last, index = fresh('i', 64, 0, LIM31), fresh('lastRLE', 64, 0, LIM31), fresh('index', 64, 0, LIM31)
        count = fresh('count', 64, 0, LIM31) if self.codec.unbound or self.codec.partial else scale(fresh('q', 64, 0, LIM31), S, 64)
        sy = [opaque('sym') for _ in range(S)]; w = e.mod.size(names[key['symbol']][1])
        for p, v in zip([p for _, p in f.params], (Ptr(self.inp, 0), Ptr(self.out, 0), i, Ptr(r, 0))): st.regs[p] = v
        for n, v in (('count', count), ('lastRLE', last), ('index', index)): st.slots[key[n]] = v
        st.slots[key['symbol']] = e.bytes_val(sy + [opaque('pad') for _ in range(w - S)], names[key['symbol']][1])
        mem = [sy] if self.codec.single else []
        for n in mn:
            m = sy if self.codec.single else [opaque('mem') for _ in range(S)]; mem.append(m)
            if n != 'symbol': st.slots[key[n]] = e.bytes_val(m + [opaque('pad') for _ in range(w - S)], names[key[n]][1])
        e.assume(cmp('ule', i, self.inSize, 64), cmp('ule', last, i, 64), cmp('ule', count, sub(i, last, 64), 64), cmp('uge', index, self.codec.H, 64), cmp('ule', index, add(last, self.codec.H, 64), 64), self.usable())
        self.K = fresh('K', 64, 0, LIM31); start = sub(i, count, 64)
        for r_ in range(S): e.assume(bor(cmp('ule', count, r_, 64), cmp_eq(e.ro_byte(self.inp, add(start, r_, 64)), sy[r_], 8)))
        e.assume(self.periodic(e, start, i, self.K))
        self.s0 = dict(i=i, last=last, index=index, mem=mem, slots=dict(st.slots), count=count); self.outcomes = set()
        self.s0['mempad'] = {str(ATOM[x.single()]) for n in mn if n != 'symbol' for x in e.val_bytes(st.slots[key[n]], names[key[n]][1])[S:] if not isinstance(x, int)}
        if not e.feasible(): raise Unsupported('vacuous precondition')
        e.segname = 'body'
        e.explore(st, f.order[0], None); e.pop()
        if self.outcomes != {True, False}: raise Unsupported('an outcome is missing')
    def arrive(self, e, st, b): raise Unsupported('loop in the token emitting helper')
    def on_branch(self, e, st, conds, b):  # without an open run nothing is emitted, whatever the symbol is
        self.depends(e, st, 'depends:branch', conds, cmp_eq(self.s0['count'], 0, 64), b)
    def symbol_known(self, e, l):         # what the callers guarantee ('depends:call')
        if l[1] in self.s0['mempad']: return True
        return bnot(cmp_eq(self.s0['count'], 0, 64))
    def ret(self, e, st, v):
        v = e.boolv(v); a = self.s0; k = self.key
        if isinstance(v, bool): return self.post(e, st, v)
        if e.taint: self.depends(e, st, 'depends:result', [v], cmp_eq(a['count'], 0, 64))
        for r, c in ((True, v), (False, bnot(v))):
            e.push(); e.assume(c)
            if e.feasible(): self.post(e, st, r)
            e.pop()
    def post(self, e, st, v):
        a = self.s0; k = self.key; self.outcomes.add(v)
        if e.taint and v:
            e.oblige('depends:open-run', bnot(cmp_eq(a['count'], 0, 64)), st)
            for n in ['lastRLE', 'index'] + list(self.memnames if self.codec.carries and not self.codec.single else ()): self.depends(e, st, 'depends:state', [st.slots[k[n]]], False, n)
        unchanged = lambda n: band(*[cmp_eq(x, y, 8) for x, y in zip(e.val_bytes(st.slots[k[n]], e.slot_names()[k[n]][1]), e.val_bytes(a['slots'][k[n]], e.slot_names()[k[n]][1]))])
        for n in ('symbol', 'count') if v else tuple(k): e.oblige('frame:' + n, unchanged(n), st)
        if not v: e.oblige('writes-nothing-when-not-encoding', not st.ghost.get('stored'), st); return
        last, index = st.slots[k['lastRLE']], st.slots[k['index']]
        e.oblige('inv:input-position', band(cmp_eq(last, a['i'], 64), cmp('ugt', last, a['last'], 64)), st)
        e.oblige('inv:stream-size', band(cmp('ule', index, add(a['i'], self.codec.H, 64), 64), cmp('ugt', index, a['index'], 64)), st)
        pads = lambda s: [x for n in ['symbol'] + list(self.memnames if self.codec.carries else ()) for x in e.val_bytes(s[k[n]], e.slot_names()[k[n]][1])[self.codec.S:]]
        if pads(st.slots) and self.codec.carries:
            e.push(); e.assume(*[cmp_eq(x, 0, 8) for x in pads(a['slots'])]); e.oblige('padding-stays-zero', band(*[cmp_eq(x, 0, 8) for x in pads(st.slots)]), st); e.pop()
        self.frame(e, st, False)
        self.tokens(e, st, last, index, False)

class Encoder8(Encoder):
    """8 bit multi symbol encoder: mode byte behind the two sizes"""
    def header_ok(self, e, st): return band(super().header_ok(e, st), cmp_eq(e.read_byte(st, self.out, 8), self.codec.mode, 8))

class Encoder8Single(Encoder8):
    """8 bit single symbol encoder: one symbol for the whole stream, stored behind the mode byte"""
    ROLES = dict(Encoder.ROLES, symbol=('maxFreqSymbol',))
    def header_ok(self, e, st): return band(super().header_ok(e, st), cmp_eq(e.read_byte(st, self.out, 9), self.sym1, 8))
    def setup(self, e): super().setup(e); self.sym1 = opaque('sym')
    def call(self, e, st, name, args, vals, ins):
        if not re.match(r'rle8_single_compress_get_approx_optimal_symbol', name): return super().call(e, st, name, args, vals, ins)
        e.oblige('call:symbol-choice', isinstance(vals[0], Ptr) and vals[0].r is self.inp and band(cmp_eq(vals[0].o, 0, 64), cmp_eq(vals[1], self.inSize, 64)), st)
        return self.sym1
    def put_symbol(self, e, st, sy, zero=True): pass
    def new_symbol(self, e, st): return [self.sym1]
    def start_mem(self, e, st): return [[self.sym1]]

class DecoderLut(Decoder):
    """decoder with a symbol table: one vector per remembered symbol (lanes of W bytes, the first S of each significant); vectors that only
    repeat the current symbol back to back (24 / 48 bit) form one periodic sequence"""
    def __init__(self, codec, **k): super().__init__(codec, **k); self.lane = {3: 4, 6: 8}.get(codec.S, codec.S)
    def mem_roles(self, e, st):
        super().mem_roles(e, st); S = self.codec.S; names = e.slot_names(); rest = list(self.mk); self.tab = []
        for m in self.codec.init:
            c = [k for k in rest if st.slots.get(k, UNDEF) is not UNDEF and all(isinstance(x, int) and x == y for x, y in zip(e.val_bytes(st.slots[k], names[k][1]), m))]
            c.sort(key=lambda k: (len(names[k][0]), k))
            if not c: raise Unsupported('symbol table of the decoder not found')
            self.tab.append(c[0]); rest.remove(c[0])
        self.rest = rest
        self.cat = sum(e.mod.size(names[k][1]) for k in rest)
    def sig(self, n): return [j for j in range(n) if j % self.lane < self.codec.S]
    def get_mem(self, e, st): return [e.val_bytes(st.slots[k], e.slot_names()[k][1])[:self.codec.S] for k in self.tab]
    def assume_mem(self, e, st):
        S = self.codec.S; self.sy = [[opaque('sym') for _ in range(S)] for _ in self.tab]
        for k, s in zip(self.tab, self.sy):
            t = e.slot_names()[k][1]; n = e.mod.size(t)
            st.slots[k] = e.bytes_val([s[j % self.lane] if j % self.lane < S else opaque('pad') for j in range(n)], t)
        o = 0
        for k in self.rest:
            t = e.slot_names()[k][1]; n = e.mod.size(t)
            st.slots[k] = e.bytes_val([self.sy[0][(o + j) % S] for j in range(n)], t); o += n
    def check_mem(self, e, st):
        S = self.codec.S; cur = None
        for k in self.tab:
            bs = e.val_bytes(st.slots[k], e.slot_names()[k][1]); cur = cur or bs
            e.oblige('inv:symbol-vector-periodic', band(*[cmp_eq(bs[j], bs[j % self.lane], 8) for j in self.sig(len(bs)) if j >= self.lane]), st)
        o = 0
        for k in self.rest:
            bs = e.val_bytes(st.slots[k], e.slot_names()[k][1])
            e.oblige('inv:symbol-vector-periodic', band(*[cmp_eq(b, cur[(o + j) % S], 8) for j, b in enumerate(bs)]), st); o += len(bs)

class EncoderStreamSymbol(Encoder):
    """one symbol for the whole stream, chosen up front and stored right behind the sizes"""
    def setup(self, e): super().setup(e); self.sym1 = opaque('sym')
    def header_ok(self, e, st): return band(super().header_ok(e, st), cmp_eq(e.read_byte(st, self.out, self.codec.H - 1), self.sym1, 8))
    def call(self, e, st, name, args, vals, ins):
        if not re.match(r'rle8_single_compress_get_approx_optimal_symbol', name): return super().call(e, st, name, args, vals, ins)
        e.oblige('call:symbol-choice', isinstance(vals[0], Ptr) and vals[0].r is self.inp and band(cmp_eq(vals[0].o, 0, 64), cmp_eq(vals[1], self.inSize, 64)), st)
        return self.sym1
    def new_symbol(self, e, st): return [self.sym1]
    def start_mem(self, e, st): return [[self.sym1]]
    def candidates(self, e, st, h):
        return super().candidates(e, st, h) + ([('no-run', cmp_eq(self.get_role(e, st, 'count'), 0, 64))] if self.isl(h, 'count') else [])
class DecoderStreamSymbol(Decoder):
    """the symbol of the whole stream is the byte in front of the first token"""
    def extra_params(self, e, st, prm): self.sym1 = e.ro_byte(self.stream, 0)
    def get_mem(self, e, st): return [[self.sym1]]
class Decoder8Single(Decoder):
    def extra_params(self, e, st, prm): self.sym1 = opaque('sym'); st.regs[prm[2]] = self.sym1
    def get_mem(self, e, st): return [[self.sym1]]

# ------------------------------------------------------------------------------------------------------------------------------
class Api(Base):
    """dispatch functions: the argument checks, then exactly one call of an implementation with the same contract.
    ensures: with an unusable argument 0 is returned, nothing is called and nothing is written; otherwise the result is the callee's contract's."""
    def __init__(self, codec, callee, in_slack=64):
        super().__init__(); self.codec, self.callee, self.in_slack = codec, re.compile(callee), in_slack
    def on_store(self, e, st, reg, off, n, where): e.oblige('api:writes-nothing-itself', False, st, where)
    def arrive(self, e, st, b): raise Unsupported('loop in a dispatch function')
    def header_mode(self, e, st, b): return 'cut'
    def params(self, e, st):
        (t0, a), (t1, n), (t2, o), (t3, m) = e.f.params[:4]
        self.inSize, self.outSize = fresh('inSize', 64, 0, (1 << 32) - 1), fresh('outSize', 64, 0, (1 << 32) - 1)
        self.inp = Region('in', 'in'); self.out = Region('out', 'out'); e.regions['in'] = self.inp; e.regions['out'] = self.out
        self.inp.rlim = add(self.inSize, self.in_slack, 64); self.out.wlim = self.outSize; self.out.rlim = self.outSize
        self.inp.nullable = self.out.nullable = True
        st.regs[a] = Ptr(self.inp, 0); st.regs[o] = Ptr(self.out, 0)
        st.regs[n] = trunc(self.inSize, 32); st.regs[m] = trunc(self.outSize, 32)
    def verify(self, e):
        st = State(); self.params(e, st); self.called = 0
        self.prepare(e, st)
        e.segname = 'body'
        e.push(); e.explore(st, e.f.order[0], None); e.pop()
        if not self.called: raise Unsupported('vacuous: no implementation is called')
    def prepare(self, e, st): pass
class ApiCompress(Api):
    def call(self, e, st, name, args, vals, ins):
        if not self.callee.match(name): return super().call(e, st, name, args, vals, ins)
        self.called += 1; e.depends.add(name)
        e.oblige('api:one-call', not st.ghost.get('called'), st); st.ghost['called'] = True
        ok = len(vals) >= 4 and isinstance(vals[0], Ptr) and vals[0].r is self.inp and isinstance(vals[2], Ptr) and vals[2].r is self.out
        e.oblige('api:call-arguments', ok and band(cmp_eq(vals[0].o, 0, 64), cmp_eq(vals[2].o, 0, 64), cmp_eq(vals[1], trunc(self.inSize, 32), 32), cmp_eq(vals[3], trunc(self.outSize, 32), 32)), st)
        st.ghost['result'] = fresh('result', 32)
        return st.ghost['result']
    def ret(self, e, st, v):
        if st.ghost.get('called'): e.oblige('api:returns-result', cmp_eq(v, st.ghost['result'], 32), st); return
        e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st)
        e.oblige('reject:only-unusable-arguments', bor(self.inp.null, self.out.null, cmp_eq(self.inSize, 0, 64), cmp('ult', self.outSize, self.codec.bounds(self.inSize), 64), cmp_eq(self.codec.bounds(self.inSize), 0, 64)), st)
class ApiDecompress(Api):
    """the stream declares its sizes at size_at / csize_at; H bytes of header in front of the token stream"""
    def prepare(self, e, st):
        rd = lambda k: zext(from_bytes([e.ro_byte(self.inp, k + j) for j in range(4)]), 32, 64)
        self.usize, self.csize = rd(self.codec.size_at), rd(self.codec.csize_at)
        self.usable = band(bnot(self.inp.null), bnot(self.out.null), bnot(cmp_eq(self.inSize, 0, 64)), cmp('ule', self.csize, self.inSize, 64), cmp('ule', self.usize, self.outSize, 64))
    def selected(self, e, st, name, vals): return True
    def call(self, e, st, name, args, vals, ins):
        if not self.callee.match(name): return super().call(e, st, name, args, vals, ins)
        self.called += 1; e.depends.add(name)
        e.oblige('api:one-call', not st.ghost.get('called'), st); st.ghost['called'] = True
        e.oblige('reject:unusable-arguments', self.usable, st)
        ok = len(vals) >= 2 and isinstance(vals[0], Ptr) and vals[0].r is self.inp and isinstance(vals[1], Ptr) and vals[1].r is self.out
        e.oblige('api:call-arguments', ok and band(cmp_eq(vals[0].o, self.header_len(e, st, name), 64), cmp_eq(vals[1].o, 0, 64)), st)
        e.oblige('api:implementation-of-this-format', self.selected(e, st, name, vals), st)
        return None
    def header_len(self, e, st, name): return self.codec.H - self.codec.skip
    def ret(self, e, st, v):
        if st.ghost.get('called'): e.oblige('api:returns-declared-size', cmp_eq(v, trunc(self.usize, 32), 32), st); return
        e.oblige('reject:returns-zero', cmp_eq(v, 0, 32), st)
        e.oblige('reject:only-unusable-arguments', self.rejectable(), st)
    def rejectable(self): return bor(bnot(self.usable), cmp_eq(self.outSize, 0, 64), cmp_eq(self.usize, 0, 64), cmp_eq(self.csize, 0, 64))
class ApiDecompress8(ApiDecompress):
    """mode byte behind the sizes selects the format, single symbol streams carry the symbol behind it"""
    def prepare(self, e, st):
        super().prepare(e, st); self.mode = e.ro_byte(self.inp, 8)
    def selected(self, e, st, name, vals):
        if '_single_' not in name: return cmp_eq(self.mode, 0, 8)
        return len(vals) > 2 and band(cmp_eq(self.mode, 1, 8), cmp_eq(vals[2], e.ro_byte(self.inp, 9), 8))
    def header_len(self, e, st, name): return 10 if '_single_' in name else 9
    def rejectable(self): return bor(super().rejectable(), cmp('ugt', self.mode, 1, 8))
class Bounds(Base):
    """uint32_t bounds(uint32_t inSize): equals the value the callers' contracts assume"""
    def __init__(self, want): super().__init__(); self.want = want
    def arrive(self, e, st, b): raise Unsupported('loop in a bounds function')
    def verify(self, e):
        st = State(); self.n = fresh('inSize', 64, 0, (1 << 32) - 1)
        for t, p in e.f.params: st.regs[p] = trunc(self.n, 32)
        e.segname = 'body'; e.push(); e.explore(st, e.f.order[0], None); e.pop()
    def ret(self, e, st, v): e.oblige('bounds:value', cmp_eq(v, trunc(self.want(self.n), 32) if not isinstance(self.want, int) else self.want, 32), st)
