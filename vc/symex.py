"""Symbolic execution of the extracted IR between cut points; every access and every contract clause becomes an obligation for z3.

Machine integers are exact: a w-bit value is a linear form E over integer atoms (each with a proved range) and denotes E mod 2^w; the
reduction is dropped only when the range of E (interval, or a solver query under the current path condition) shows it is the identity.
Values: python int = constant | Lin | bool / z3 Bool for i1 | Ptr | list (vector / aggregate).
"""
import z3, time, itertools, re
from llir import Module

ATOM = {}            # ast id -> expr (keeps atoms alive, so ids stay unique)
RNG = {}             # ast id -> (lo, hi)
BYTES_OF = {}        # atom id -> [byte values] (little endian)
ORIGIN = {}          # byte atom id -> (Lin, k): byte k of a wider value;  ('zx', id) -> (value, width): zero extension of
BOOLB = {}           # (atom id) -> z3 Bool       value is all-ones (w bits) if the Bool holds, else 0
MASK = {}            # atom id -> [bools]         bit k of the value is bools[k]
FLAG = {}            # atom id -> Bool            value is 1 if the Bool holds, else 0
UFL = []             # links between a byte and its equality-only twin
UFD = []             # memory reads: constant == mem(offset), used only when a query fails without congruence
SPLIT = []           # bit position variables (small ranges) available for case distinctions
DEP = {}             # name of a fresh atom -> expressions its value is computed from
UNK = set()          # names of fresh atoms whose value may differ between two runs on the same input (loop temporaries)
DEFS = []            # definitional constraints (total definitions of fresh atoms, ranges of memory bytes)
XOR8 = {}            # byte atom id -> Bool: the byte is zero
TZB = {}             # atom id of a trailing-zero count -> number of whole zero bytes
BT = {}              # byte atom id -> the byte as a term of the uninterpreted sort Byte (equality reasoning without arithmetic)
READ = {}            # byte atom id -> (region, offset): the byte is read-only memory at that offset
_MEMO = {}; _JOURNAL = []
ENG = [None]

def reset_tables():
    for d in (ATOM, RNG, BYTES_OF, ORIGIN, BOOLB, MASK, FLAG, _MEMO, XOR8, TZB, READ, BT, ITE0): d.clear()
    del DEFS[:]; del _JOURNAL[:]; del SPLIT[:]; del UFD[:]; del UFL[:]; DEP.clear(); UNK.clear()
def memo(key, v): _MEMO[key] = v; _JOURNAL.append(key); return v

class Unsupported(Exception): pass

class Lin:
    __slots__ = ('w', 't', 'c', '_z', '_k', '_i')
    def __init__(self, w, t, c):
        self.w, self.t, self.c, self._z, self._k, self._i = w, t, c, None, None, None
    @property
    def z(self):
        if self._z is None:
            e = []
            for a, k in self.t.items():
                x = ATOM[a]
                e.append(x if k == 1 else x * k)
            if self.c: e.append(z3.IntVal(self.c))
            self._z = e[0] if len(e) == 1 else z3.Sum(e)
        return self._z
    def key(self):
        if self._k is None: self._k = (self.w, self.c, tuple(sorted(self.t.items())))
        return self._k
    def itv(self):
        if self._i is None:
            lo = hi = self.c
            for a, k in self.t.items():
                l, h = RNG[a]
                if k > 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
            self._i = (lo, hi)
        return self._i
    def single(self):
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1: return a
        return None
    def __repr__(self):
        sx = lambda a: ATOM[a].sexpr() if len(ATOM[a].sexpr()) < 60 else '<%d>' % a
        return '+'.join(['%s%s' % ('' if k == 1 else str(k) + '*', sx(a)) for a, k in sorted(self.t.items())] + ([str(self.c)] if self.c else []))

def sym(c, w):
    """symmetric representative mod 2^w"""
    m = 1 << w; c &= m - 1
    return c - m if c >> (w - 1) else c
def atom(e, w, lo=0, hi=None):
    if z3.is_int_value(e): return e.as_long() & ((1 << w) - 1)
    i = e.get_id()
    if i not in ATOM:
        ATOM[i] = e; RNG[i] = (lo, (1 << w) - 1 if hi is None else hi)
    return Lin(w, {i: 1}, 0)
def isint(a): return isinstance(a, int) and not isinstance(a, bool)
def fresh(name, w, lo=0, hi=None):
    r = atom(z3.Int('%s!%d' % (name, next(_ctr))), w, lo, hi)
    DEFS.append(z3.And(r.z >= lo, r.z <= ((1 << w) - 1 if hi is None else hi)))
    return r
_ctr = itertools.count()
BSORT = z3.DeclareSort('Byte'); B2I = z3.Function('b2i', BSORT, z3.IntSort()); I2B = z3.Function('i2b', z3.IntSort(), BSORT)
def opaque(name):
    """a fresh byte with an equality-only twin; the link between the two is used only when needed"""
    r = fresh(name, 8); i = r.single()
    b = z3.Const('B_%s' % ATOM[i], BSORT); BT[i] = b
    UFL.append(z3.And(B2I(b) == r.z, I2B(r.z) == b))
    return r
def mk(w, t, c):
    t = {a: k for a, k in t.items() if k}
    return Lin(w, t, sym(c, w)) if t else c & ((1 << w) - 1)
def add(a, b, w):
    ca, cb = isinstance(a, int), isinstance(b, int)
    if ca and cb: return (a + b) & ((1 << w) - 1)
    if ca: a, b, cb = b, a, True
    if cb: return a if b == 0 else Lin(w, a.t, sym(a.c + b, w))
    t = dict(a.t)
    for x, k in b.t.items():
        n = sym(t.get(x, 0) + k, w)
        if n: t[x] = n
        else: t.pop(x, None)
    return Lin(w, t, sym(a.c + b.c, w)) if t else (a.c + b.c) & ((1 << w) - 1)
def scale(a, k, w):
    if isinstance(a, int): return (a * k) & ((1 << w) - 1)
    k = sym(k, w)
    if k == 1: return a
    return mk(w, {x: sym(y * k, w) for x, y in a.t.items()}, a.c * k)
def neg(a, w): return scale(a, -1, w)
def sub(a, b, w): return add(a, neg(b, w), w)
def band(*bs):
    r = []
    for b in bs:
        if b is True: continue
        if b is False: return False
        r.append(b)
    return True if not r else (r[0] if len(r) == 1 else z3.And(*r))
def bor(*bs):
    r = []
    for b in bs:
        if b is False: continue
        if b is True: return True
        r.append(b)
    return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))
def bnot(b): return (not b) if isinstance(b, bool) else (b.arg(0) if z3.is_not(b) else z3.Not(b))
def ZB(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def within(v, lo, hi):
    """the integer form of v provably lies in [lo, hi]"""
    l, h = v.itv()
    if lo <= l and h <= hi: return True
    if l > hi or h < lo: return False
    e = ENG[0]
    if e is None or e.noask: return False
    key = ('rng', v.key(), lo, hi)
    if key in _MEMO: return _MEMO[key]
    cs = []
    if l < lo: cs.append(v.z >= lo)
    if h > hi: cs.append(v.z <= hi)
    return memo(key, e.must(band(*cs)))
def U(v, w=None):
    """integer expression of the unsigned value"""
    if isint(v): return z3.IntVal(v)
    w = v.w
    if within(v, 0, (1 << w) - 1): return v.z
    key = ('U', v.key())
    if key in _MEMO: return _MEMO[key]
    l, h = v.itv(); m = 1 << w
    if -m <= l and h < m: r = z3.If(v.z < 0, v.z + m, v.z)
    else: r = v.z % m
    return memo(key, r)
def UL(v, w):
    """the same value as a Lin whose integer form is the unsigned value"""
    if isint(v): return v
    if within(v, 0, (1 << w) - 1): return v
    return atom(U(v), w)
def Sg(v, w):
    """integer expression of the signed value"""
    if isint(v): return z3.IntVal(sym(v, w))
    h2 = 1 << (w - 1)
    if within(v, -h2, h2 - 1): return v.z
    key = ('S', v.key())
    if key in _MEMO: return _MEMO[key]
    return memo(key, ((v.z + h2) % (1 << w)) - h2)
def Z(v, w=64): return U(v)
ITE0 = {}      # atom -> (c, x): the value is c ? x : 0
def bite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    key = ('ite', c.get_id(), a if isinstance(a, int) else a.key(), b if isinstance(b, int) else b.key(), w)
    if key in _MEMO: return _MEMO[key][0]
    la, ha = (a, a) if isint(a) else a.itv(); lb, hb = (b, b) if isint(b) else b.itv()
    lo, hi = min(la, lb), max(ha, hb)
    m = (1 << w) - 1
    if lo >= -(1 << w) and hi <= (1 << w): e = z3.If(c, z3.IntVal(a) if isint(a) else a.z, z3.IntVal(b) if isint(b) else b.z)
    else: e = z3.If(c, U(a), U(b)); lo, hi = 0, m
    r = atom(e, w, lo, hi)
    if w == 8 and isinstance(a, Lin) and isinstance(b, Lin) and a.single() in BT and b.single() in BT and isinstance(r, Lin):
        BT[r.single()] = z3.If(c, BT[a.single()], BT[b.single()])
    if w == 8 and isinstance(r, Lin) and r.single() is not None:
        if isint(b) and b == 0: ITE0[r.single()] = (c, a)
        elif isint(a) and a == 0: ITE0[r.single()] = (bnot(c), b)
    return memo(key, (r, c))[0]
def same(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, Lin) and isinstance(b, Lin): return a.key() == b.key()
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r is b.r and same(a.o, b.o)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a is b

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Region:
    """kind: slot (local variable) | in (read only bytes, uninterpreted function) | out (writable bytes) | glob"""
    def __init__(self, name, kind, size=None, leaves=None):
        self.name, self.kind, self.size, self.leaves = name, kind, size, leaves
        self.base = atom(z3.Int('base_' + name), 64, 1, 1 << 47); self.null = z3.Bool('null_' + name)
        if kind != 'slot': DEFS.append(z3.And(self.base.z >= 1, self.base.z <= (1 << 47)))
        self.rlim = None; self.wlim = None; self.rlo = 0; self.wlo = 0
        self.fn = z3.Function('mem_' + name, z3.IntSort(), BSORT)
        self.nullable = False
        self.align = 1; self.facts = []; self.bitwise = False
    def __repr__(self): return 'R(%s)' % self.name
class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r, self.o = r, o
    def __repr__(self): return '%s[%r]' % (self.r, self.o)
NULL = Ptr(None, 0)

# ---- scalar operations -------------------------------------------------------------------------------------------------------
def to_bytes(v, n):
    """little endian bytes of an n-byte integer"""
    if isinstance(v, int): return [(v >> (8 * k)) & 255 for k in range(n)]
    if v is UNDEF: return [UNDEF] * n
    if n == 1: return [v]
    s = v.single()
    if s is not None and s in BYTES_OF: return list(BYTES_OF[s])[:n]
    if s is not None and s in BOOLB: return [sext(BOOLB[s], 1, 8)] * n
    if s is not None and s in MASK: return [mask_val(MASK[s][8 * k:8 * k + 8], 8) for k in range(n)]
    u = UL(v, 8 * n); out = []
    l, h = u.itv()
    if u.t and within(u, 0, 255): return [Lin(8, u.t, u.c)] + [0] * (n - 1)
    for k in range(n):
        key = ('by', u.key(), k)
        if key not in _MEMO:
            e = u.z if k == 0 else u.z / (1 << (8 * k))
            if k < n - 1: e = e % 256
            b = atom(e, 8)
            if isinstance(b, Lin):
                l = ORIGIN.setdefault(b.single(), [])
                if not any(k == q and same(u, v_) for v_, q in l): l.append((u, k))
            memo(key, b)
        out.append(_MEMO[key])
    return out
def from_bytes(bs):
    n = len(bs); w = 8 * n
    if any(b is UNDEF for b in bs):
        if all(b is UNDEF for b in bs): return UNDEF
        bs = [fresh('undef', 8) if b is UNDEF else b for b in bs]
    if n == 1: return bs[0]
    if all(isinstance(b, int) for b in bs): return sum(b << (8 * k) for k, b in enumerate(bs))
    key = ('cat',) + tuple(b if isinstance(b, int) else b.key() for b in bs)
    if key in _MEMO: return _MEMO[key]
    s0 = bs[0].single() if isinstance(bs[0], Lin) else None
    if s0 in ORIGIN:
        for v, k0 in ORIGIN[s0]:
            if k0 == 0 and all(isinstance(b, Lin) and any(q == k and same(x, v) for x, q in ORIGIN.get(b.single(), ())) for k, b in enumerate(bs)):
                return memo(key, v if v.w == w else trunc(v, w))
    bb = [BOOLB.get(b.single()) if isinstance(b, Lin) and b.single() is not None else None for b in bs]
    if bb[0] is not None and all(x is not None and x.eq(bb[0]) for x in bb): return memo(key, sext(bb[0], 1, w))
    m = n
    while m > 1 and isinstance(bs[m - 1], int) and bs[m - 1] == 0: m -= 1
    if m == 1: r = zext(bs[0], 8, w)
    elif m < n and m in (2, 4): r = zext(from_bytes(bs[:m]), 8 * m, w)
    else:
        e = z3.Sum([U(b) if k == 0 else U(b) * (1 << (8 * k)) for k, b in enumerate(bs)])
        r = atom(e, w)
    if isinstance(r, Lin) and r.single() is not None: BYTES_OF.setdefault(r.single(), list(bs))
    return memo(key, r)
def zext(v, w1, w2):
    if isinstance(v, int): return int(v)
    if v is UNDEF: return UNDEF
    if z3.is_expr(v):  # Bool
        key = ('bz', v.get_id(), w2)
        if key not in _MEMO:
            r = atom(z3.If(v, z3.IntVal(1), z3.IntVal(0)), w2, 0, 1); FLAG[r.single()] = v; memo(key, (r, v))
        return _MEMO[key][0]
    u = UL(v, w1)
    if isint(u): return u
    if u.single() is None: return Lin(w2, u.t, u.c)
    s = u.single()
    key = ('zx', s, w1, w2)
    if key not in _MEMO:
        tabs = s in MASK or s in BOOLB or s in BYTES_OF or s in FLAG or s in TZB or w1 == 8
        if not tabs: r = Lin(w2, u.t, 0)
        else:
            r = atom(ATOM[s] + 0, w2, *RNG[s])
            if s in MASK: MASK[r.single()] = MASK[s] + [False] * (w2 - w1)
            if s in BOOLB: MASK[r.single()] = [BOOLB[s]] * w1 + [False] * (w2 - w1)
            if s in FLAG: FLAG[r.single()] = FLAG[s]
            if w1 % 8 == 0 and w2 % 8 == 0 and (w1 == 8 or s in BYTES_OF): BYTES_OF[r.single()] = to_bytes(u, w1 // 8) + [0] * ((w2 - w1) // 8)
            ORIGIN[('zx', r.single())] = (u, w1)
            if s in TZB: TZB[r.single()] = zext(TZB[s], w1, w2)
        memo(key, r)
    return _MEMO[key]
def sext(v, w1, w2):
    if isinstance(v, bool): return ((1 << w2) - 1) if v else 0
    if isinstance(v, int): return sym(v, w1) & ((1 << w2) - 1)
    if v is UNDEF: return UNDEF
    if z3.is_expr(v):
        key = ('bs', v.get_id(), w2)
        if key not in _MEMO:
            r = atom(z3.If(v, z3.IntVal((1 << w2) - 1), z3.IntVal(0)), w2); BOOLB[r.single()] = v; memo(key, (r, v))
        return _MEMO[key][0]
    s = v.single()
    if s is not None and s in BOOLB: return sext(BOOLB[s], 1, w2)
    if v.itv()[0] >= 0 and v.itv()[1] < 1 << (w1 - 1): return zext(v, w1, w2)
    e = Sg(v, w1)
    if e is v.z: return Lin(w2, v.t, v.c)
    return atom(e, w2, -(1 << (w1 - 1)), (1 << (w1 - 1)) - 1)
def trunc(v, w):
    if v is UNDEF: return UNDEF
    if isinstance(v, int): return v & ((1 << w) - 1)
    if w == 1:
        bs = bits_of(v, v.w) if v.single() is not None else None
        if bs is not None: return bs[0]
        return (v.z % 2) == 1
    s = v.single()
    if s is not None:
        if ('zx', s) in ORIGIN:
            x, w1 = ORIGIN[('zx', s)]
            if w1 == w: return x
            if w1 < w: return zext(x, w1, w)
        if s in BYTES_OF and w % 8 == 0: return from_bytes(BYTES_OF[s][:w // 8])
        if s in MASK: return mask_val(MASK[s][:w], w)
        if s in FLAG: return zext(FLAG[s], 1, w)
        if s in BOOLB: return sext(BOOLB[s], 1, w)
        if s in TZB and RNG[s][1] < 1 << w:
            r = atom(ATOM[s] + 0, w, *RNG[s]); TZB[r.single()] = trunc(TZB[s], w); return r
    r = mk(w, {a: sym(k, w) for a, k in v.t.items()}, v.c)
    if isint(r): return r
    if w < 64:
        # drop whole terms, keep the remainder exact
        if not (0 <= r.itv()[0] and r.itv()[1] < 1 << w):
            q = Lin(v.w, v.t, v.c)
            if within(q, 0, (1 << w) - 1): return Lin(w, v.t, v.c)
    return r
def mask_val(bools, w):
    bools = list(bools) + [False] * (w - len(bools))
    if all(isinstance(b, bool) for b in bools): return sum(int(b) << k for k, b in enumerate(bools))
    live = [k for k, b in enumerate(bools) if b is not False]
    if live == [0]: return zext(bools[0], 1, w)
    key = ('mask', w) + tuple(b if isinstance(b, bool) else b.get_id() for b in bools)
    if key not in _MEMO:
        r = atom(z3.Sum([z3.If(ZB(bools[k]), z3.IntVal(1 << k), z3.IntVal(0)) for k in live]), w); MASK[r.single()] = bools; memo(key, r)
    return _MEMO[key]
def bits_of(v, w):
    """bools of a value with a known bit structure, or None"""
    if isinstance(v, int): return [bool((v >> k) & 1) for k in range(w)]
    s = v.single()
    if s is None: return None
    if s in MASK: return MASK[s]
    if s in FLAG: return [FLAG[s]] + [False] * (w - 1)
    if s in BOOLB: return [BOOLB[s]] * w
    return None
def bit_bools(v, w):
    b = bits_of(v, w)
    if b is not None: return b
    u = U(v)
    return [((u / (1 << k)) % 2) == 1 for k in range(w)]
def lowbits(a, k, w):
    """a mod 2^k"""
    if k >= w: return a
    u = a
    s = a.single()
    if s is not None and ('zx', s) in ORIGIN and ORIGIN[('zx', s)][1] <= k: return a
    if s is not None and k % 8 == 0 and s in BYTES_OF: return from_bytes(BYTES_OF[s][:k // 8] + [0] * (w // 8 - k // 8))
    t = {x: q for x, q in a.t.items() if q % (1 << k)}
    r = mk(w, t, a.c % (1 << k)) if t else a.c % (1 << k)
    if isint(r): return r
    if within(r, 0, (1 << k) - 1): return r
    key = ('low', r.key(), k)
    if key in _MEMO: return _MEMO[key]
    # r = q * 2^k + m
    m = fresh('m', w, 0, (1 << k) - 1); q = z3.Int('q!%d' % next(_ctr))
    DEFS.append(r.z == q * (1 << k) + m.z); DEP[str(m.z)] = DEP[str(q)] = [r.z]
    return memo(key, m)
def divpow(a, k, w):
    """unsigned a div 2^k"""
    u = UL(a, w)
    if isint(u): return u >> k
    if all(q % (1 << k) == 0 for q in u.t.values()):
        # exact part shifts out, the constant rounds down
        return mk(w, {x: q >> k for x, q in u.t.items()}, u.c >> k)
    if within(u, 0, (1 << k) - 1): return 0
    key = ('div', u.key(), k)
    if key in _MEMO: return _MEMO[key]
    q = fresh('d', w, 0, ((1 << w) - 1) >> k)
    DEFS.append(z3.And(q.z * (1 << k) <= u.z, u.z < q.z * (1 << k) + (1 << k))); DEP[str(q.z)] = [u.z]
    return memo(key, q)
def band_bits(a, b, w):
    if isinstance(a, int): a, b = b, a
    if isinstance(a, int): return a & b
    if isinstance(b, int):
        m = (1 << w) - 1
        if b == m: return a
        if b == 0: return 0
        bb = bits_of(a, w) if a.single() is not None else None
        if bb is not None and a.single() not in BOOLB: return mask_val([x if (b >> k) & 1 else False for k, x in enumerate(bb)], w)
        s = a.single()
        if w % 8 == 0 and w > 8 and s in BYTES_OF and all((b >> (8 * k)) & 255 in (0, 255) for k in range(w // 8)):
            return from_bytes([x if (b >> (8 * k)) & 255 else 0 for k, x in enumerate(BYTES_OF[s])])
        if w % 8 == 0 and w > 8 and s in BYTES_OF and any(isinstance(x, Lin) and x.single() in MASK for x in BYTES_OF[s]):
            return from_bytes([band_bits(x, (b >> (8 * k)) & 255, 8) for k, x in enumerate(BYTES_OF[s])])
        if b & (b + 1) == 0: return lowbits(a, b.bit_length(), w)
        nb = (~b) & m
        if nb & (nb + 1) == 0: return sub(a, lowbits(a, nb.bit_length(), w), w)   # clear low bits
        tz = (b & -b).bit_length() - 1
        hi = b >> tz
        if hi & (hi + 1) == 0:    # contiguous field: (a mod 2^(tz+n)) with the low tz bits cleared
            x = lowbits(a, tz + hi.bit_length(), w)
            return x & b if isint(x) else sub(x, lowbits(x, tz, w), w)
        return mask_val([x if (b >> k) & 1 else False for k, x in enumerate(bit_bools(a, w))], w)
    sa, sb = a.single(), b.single()
    if sa in BOOLB and sb in BOOLB: return sext(band(BOOLB[sa], BOOLB[sb]), 1, w)
    if sa in BOOLB: return bite(BOOLB[sa], b, 0, w)
    if sb in BOOLB: return bite(BOOLB[sb], a, 0, w)
    if sa is not None and sb is not None:
        ba, bb = bits_of(a, w), bits_of(b, w)
        if ba is not None and bb is not None: return mask_val([band(x, y) for x, y in zip(ba, bb)], w)
    if w % 8 == 0 and w > 8 and (sa in BYTES_OF or sb in BYTES_OF): return from_bytes([band_bits(x, y, 8) for x, y in zip(to_bytes(a, w // 8), to_bytes(b, w // 8))])
    if w > 32: raise Unsupported('bitwise and of two variables')
    return mask_val([band(x, y) for x, y in zip(bit_bools(a, w), bit_bools(b, w))], w)
def bor_bits(a, b, w):
    if isinstance(a, int): a, b = b, a
    if isinstance(a, int): return a | b
    if isinstance(b, int) and b == 0: return a
    sa = a.single(); sb = b.single() if isinstance(b, Lin) else None
    if sa is not None and sb is not None and sa in BOOLB and sb in BOOLB: return sext(bor(BOOLB[sa], BOOLB[sb]), 1, w)
    if sa is not None and (sa in MASK or sa in FLAG) and (isinstance(b, int) or (sb is not None and (sb in MASK or sb in FLAG))):
        return mask_val([bor(x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))], w)
    if w % 8 == 0 and w > 8 and sa is not None and sa in BYTES_OF and (isinstance(b, int) or (sb is not None and sb in BYTES_OF)):
        x, y = to_bytes(a, w // 8), to_bytes(b, w // 8)
        if all((isinstance(p, int) and p == 0) or (isinstance(q, int) and q == 0) for p, q in zip(x, y)):
            return from_bytes([q if isinstance(p, int) and p == 0 else p for p, q in zip(x, y)])
    # disjoint bits: one operand is a multiple of 2^k, the other below 2^k
    for x, y in ((a, b), (b, a)):
        k = tzeros(x, w)
        if k == 0: continue
        if (y < (1 << k)) if isint(y) else within(y, 0, (1 << k) - 1): return add(x, y, w)
    if w % 8 == 0 and w > 8 and sa is not None and (sa in BYTES_OF or (sb is not None and sb in BYTES_OF) or isint(b)):
        return from_bytes([bor_bits(x, y, 8) for x, y in zip(to_bytes(a, w // 8), to_bytes(b, w // 8))])
    if isint(b) and b & (b - 1) == 0:   # set one bit
        k = b.bit_length() - 1
        lo = sub(lowbits(a, k + 1, w), lowbits(a, k, w), w)      # 0 or 2^k
        return add(a, sub(b, lo, w), w)
    if w > 32: raise Unsupported('bitwise or of two variables')
    if w == 8 and isinstance(b, Lin) and ENG[0] is not None and not ENG[0].noask and (sa in ITE0 or sb in ITE0):
        for (s, o) in ((sa, b), (sb, a)):       # (c ? x : 0) | o with o == 0 whenever c
            if s in ITE0 and ENG[0].must(bor(bnot(ITE0[s][0]), cmp_eq(o, 0, 8))): return bite(ITE0[s][0], ITE0[s][1], o, 8)
    return mask_val([bor(x, y) for x, y in zip(bit_bools(a, w), bit_bools(b, w))], w)
def tzeros(v, w):
    if isint(v): return w if v == 0 else (v & -v).bit_length() - 1
    s = v.single()
    if s is not None and s in MASK:
        k = 0
        while k < w and MASK[s][k] is False: k += 1
        return k
    g = v.c
    k = w if g == 0 else (g & -g).bit_length() - 1
    for q in v.t.values(): k = min(k, (q & -q).bit_length() - 1)
    return k
def bxor_bits(a, b, w):
    if isinstance(a, int): a, b = b, a
    if isinstance(a, int): return a ^ b
    m = (1 << w) - 1
    s = a.single()
    if isinstance(b, int):
        if b == 0: return a
        if s is not None and s in BYTES_OF: return from_bytes([bxor_bits(x, (b >> (8 * k)) & 255, 8) for k, x in enumerate(to_bytes(a, w // 8))])
        if b == m:
            if s is not None and s in BOOLB: return sext(bnot(BOOLB[s]), 1, w)
            if s is not None and s in MASK: return mask_val([bnot(x) for x in MASK[s]], w)
            return sub(m, a, w)     # ~a = -1 - a
        if s is not None and (s in MASK or s in FLAG): return mask_val([bnot(x) if (b >> k) & 1 else x for k, x in enumerate(bits_of(a, w))], w)
    sb = b.single() if isinstance(b, Lin) else None
    if w % 8 == 0 and w > 8 and s is not None and s in BYTES_OF and sb is not None and sb in BYTES_OF:
        return from_bytes([bxor_bits(x, y, 8) for x, y in zip(to_bytes(a, w // 8), to_bytes(b, w // 8))])
    if s is not None and sb is not None and bits_of(a, w) is not None and bits_of(b, w) is not None:
        return mask_val([z3.Xor(ZB(x), ZB(y)) for x, y in zip(bits_of(a, w), bits_of(b, w))], w)
    if same(a, b): return 0
    if w == 8:
        key = ('xor8',) + tuple(sorted([repr(a.key()), repr(b if isinstance(b, int) else b.key())]))
        if key not in _MEMO:
            r = fresh('xor', 8); z = ZB(cmp_eq(a, b, 8)); DEFS.append((r.z == 0) == z); DEP[str(r.z)] = [a.z, b.z if isinstance(b, Lin) else z]; XOR8[r.single()] = z; memo(key, r)
        return _MEMO[key]
    if w % 8 == 0 and w <= 64: return from_bytes([bxor_bits(x, y, 8) for x, y in zip(to_bytes(a, w // 8), to_bytes(b, w // 8))])
    raise Unsupported('xor')
def byte_zero(b):
    if isinstance(b, int): return b == 0
    s = b.single()
    return XOR8[s] if s is not None and s in XOR8 else cmp_eq(b, 0, 8)
def lshr(a, k, w):
    if isinstance(a, int) and isinstance(k, int): return a >> k if k < w else 0
    if isinstance(k, int):
        if k == 0: return a
        if k >= w: return 0
        s = a.single()
        if s is not None:
            if s in MASK: return mask_val(MASK[s][k:], w)
            if s in BOOLB: return mask_val([BOOLB[s]] * (w - k), w)
            if k == 3 and s in TZB: return TZB[s]
            if k % 8 == 0 and s in BYTES_OF: return from_bytes(BYTES_OF[s][k // 8:] + [0] * (k // 8))
            if ('zx', s) in ORIGIN:
                x, w1 = ORIGIN[('zx', s)]
                return zext(lshr(x, k, w1), w1, w) if k < w1 else 0
        return divpow(a, k, w)
    # variable shift: case distinction over the amount
    if isint(k): pass
    r = 0
    for q in range(w - 1, -1, -1): r = bite(cmp_eq(k, q, w), lshr(a, q, w), r, w)
    return r
def shl(a, k, w):
    if isinstance(k, int):
        if k >= w: return 0
        if isinstance(a, Lin) and a.single() is not None:
            s = a.single()
            if s in MASK or s in FLAG: return mask_val([False] * k + bits_of(a, w)[:w - k], w)
            if k % 8 == 0 and s in BYTES_OF: return from_bytes([0] * (k // 8) + BYTES_OF[s][:w // 8 - k // 8])
        return scale(a, 1 << k, w)
    r = 0
    for q in range(w - 1, -1, -1): r = bite(cmp_eq(k, q, w), shl(a, q, w), r, w)
    return r
def udiv_const(a, d, w):
    if isinstance(a, int): return a // d, a % d
    if d & (d - 1) == 0:
        k = d.bit_length() - 1
        return lshr(a, k, w), (lowbits(a, k, w) if k else 0)
    u = UL(a, w)
    if all(q % d == 0 for q in u.t.values()) and u.c % d == 0: return mk(w, {x: q // d for x, q in u.t.items()}, u.c // d), 0
    key = ('ud', u.key(), d)
    if key not in _MEMO:
        q, r = fresh('q', w, 0, ((1 << w) - 1) // d), fresh('r', w, 0, d - 1)
        DEFS.append(u.z == q.z * d + r.z); DEP[str(q.z)] = DEP[str(r.z)] = [u.z]
        memo(key, (q, r))
    return _MEMO[key]
def cmp_eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, int): a, b = b, a
    d = sub(a, b, w)
    if isinstance(d, int): return d == 0
    s = a.single()
    if isinstance(b, int) and s is not None:
        if s in FLAG: return FLAG[s] if b == 1 else (bnot(FLAG[s]) if b == 0 else False)
        if s in BOOLB: return BOOLB[s] if b == (1 << w) - 1 else (bnot(BOOLB[s]) if b == 0 else False)
        if s in MASK: return band(*[x if (b >> k) & 1 else bnot(x) for k, x in enumerate(MASK[s])])
        if s in XOR8 and b == 0: return XOR8[s]
    sb = None if isinstance(b, int) else b.single()
    if s is not None and sb is not None and (s in MASK or sb in MASK) and not (w == 8 and s in BT and sb in BT):
        x, y = bits_of(a, w), bits_of(b, w)
        if x is not None and y is not None: return band(*[ZB(p) == ZB(q) if not (isinstance(p, bool) and isinstance(q, bool)) else p == q for p, q in zip(x, y)])
    if w % 8 == 0 and w > 8 and s is not None and s in BYTES_OF:
        if isinstance(b, int) or (sb is not None and sb in BYTES_OF):
            return band(*[cmp_eq(x, y, 8) for x, y in zip(to_bytes(a, w // 8), to_bytes(b, w // 8))])
    if w == 8 and s in BT and isinstance(b, Lin) and b.single() in BT: return BT[s] == BT[b.single()]
    m = 1 << w
    if within(d, 1 - m, m - 1): return d.z == 0
    return U(a) == U(b)
def cmp(p, a, b, w):
    if a is UNDEF or b is UNDEF: raise Unsupported('compare undef')
    if w == 1 or isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        f = lambda x: bool(x) if isinstance(x, int) else x
        a, b = f(a), f(b)
        if p in ('eq', 'ne'):
            if isinstance(b, bool): r = a if b else bnot(a)
            elif isinstance(a, bool): r = b if a else bnot(b)
            else: r = a == b
            return r if p == 'eq' else bnot(r)
        raise Unsupported('i1 icmp ' + p)
    if p == 'eq': return cmp_eq(a, b, w)
    if p == 'ne': return bnot(cmp_eq(a, b, w))
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's': a, b = sym(a, w), sym(b, w)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
    if same(a, b): return p[1:] in ('le', 'ge')
    if p[0] == 'u' and isinstance(b, int):
        if p == 'ult' and b == 0: return False
        if p == 'uge' and b == 0: return True
        if p == 'ugt' and b == 0: return bnot(cmp_eq(a, 0, w))
        if p == 'ult' and b == 1: return cmp_eq(a, 0, w)
    s = a.single() if isinstance(a, Lin) else None
    if p in ('sgt', 'slt', 'sle', 'sge') and w == 8 and isinstance(b, int) and s is not None and s in BOOLB:
        va, vb = {'sgt': (-1 > sym(b, 8), 0 > sym(b, 8)), 'slt': (-1 < sym(b, 8), 0 < sym(b, 8)), 'sle': (-1 <= sym(b, 8), 0 <= sym(b, 8)), 'sge': (-1 >= sym(b, 8), 0 >= sym(b, 8))}[p]
        return BOOLB[s] if (va and not vb) else bnot(BOOLB[s]) if (vb and not va) else va
    f = Sg if p[0] == 's' else (lambda v, w: U(v))
    # difference form keeps shared terms out of the comparison
    d = sub(a, b, w)
    h = 1 << (w - 1)
    za, zb = f(a, w), f(b, w)
    ea = za is (a.z if isinstance(a, Lin) else za); eb = zb is (b.z if isinstance(b, Lin) else zb)
    if isinstance(d, Lin) and ea and eb:
        ca = sym(a, w) if isint(a) and p[0] == 's' else (a if isint(a) else None); cb = sym(b, w) if isint(b) and p[0] == 's' else (b if isint(b) else None)
        # exact integer difference of the two forms
        ia = ({}, ca) if isint(a) else (a.t, a.c); ib = ({}, cb) if isint(b) else (b.t, b.c)
        t = dict(ia[0])
        for x, k in ib[0].items():
            t[x] = t.get(x, 0) - k
            if t[x] == 0: del t[x]
        D = Lin(128, t, ia[1] - ib[1])
        lo, hi = D.itv()
        op = p[1:]
        if op == 'lt': return True if hi < 0 else False if lo >= 0 else D.z < 0
        if op == 'le': return True if hi <= 0 else False if lo > 0 else D.z <= 0
        if op == 'gt': return True if lo > 0 else False if hi <= 0 else D.z > 0
        return True if lo >= 0 else False if hi < 0 else D.z >= 0
    return {'lt': za < zb, 'le': za <= zb, 'gt': za > zb, 'ge': za >= zb}[p[1:]]
def cttz(v, w):
    if isinstance(v, int): return w if v == 0 else (v & -v).bit_length() - 1
    bs = bits_of(v, w) if v.single() is not None else None
    key = ('cttz', v.key())
    if key in _MEMO: return _MEMO[key]
    if bs is not None:
        hi = max([k for k, b in enumerate(bs) if b is not False], default=-1)
        r = fresh('tz', w, 0, w if hi < 0 or w <= 32 else w); SPLIT.append(r.z)
        cons = []
        for k, b in enumerate(bs):
            if b is False: cons.append(r.z != k); continue
            if b is not True: cons.append(z3.Implies(r.z == k, b))
            cons.append(z3.Implies(r.z > k, ZB(bnot(b))))
            if b is True: break
        DEFS.append(z3.And(*cons)); DEP[str(r.z)] = [ZB(b) for b in bs if not isinstance(b, bool)]
    elif v.single() is not None and v.single() in BYTES_OF:
        by = BYTES_OF[v.single()]; n = len(by)
        k, b3 = fresh('tzb', w, 0, n), fresh('tzr', w, 0, 7); SPLIT.append(k.z)
        cons = [z3.Implies(k.z == n, b3.z == 0)]
        for j, b in enumerate(by):
            zb = ZB(byte_zero(b))
            cons.append(z3.Implies(k.z == j, z3.Not(zb))); cons.append(z3.Implies(k.z > j, zb))
        DEFS.append(z3.And(*cons)); DEP[str(k.z)] = DEP[str(b3.z)] = ('tz', by)
        r = atom(k.z * 8 + b3.z, w, 0, w)
        TZB[r.single()] = k
    else: raise Unsupported('cttz of unstructured value')
    return memo(key, r)

# ---- layered memory of writable regions ------------------------------------------------------------------------------------
class Layer:
    """kind: b (explicit bytes) | copy (bytes of a read-only region) | fill (periodic pattern) | hav (unknown bytes)"""
    __slots__ = ('kind', 'off', 'n', 'bytes', 'src', 'soff', 'fn')
    def __init__(self, kind, off, n, bytes=None, src=None, soff=None, fn=None):
        self.kind, self.off, self.n, self.bytes, self.src, self.soff, self.fn = kind, off, n, bytes, src, soff, fn
    def __repr__(self): return '%s@%r+%r' % (self.kind, self.off, self.n)

def period(bs):
    n = len(bs)
    for p in range(1, n // 2 + 1):
        if p in (1, 2, 3, 4, 6, 8, 16) and all(same(bs[k], bs[k - p]) for k in range(p, n)): return p
    return n
def make_store(off, bs):
    n = len(bs)
    if n >= 8 and all(isinstance(b, Lin) and b.single() in READ for b in bs):
        r0, o0 = READ[bs[0].single()]
        if all(READ[b.single()][0] is r0 and isinstance(sub(READ[b.single()][1], o0, 64), int) and sub(READ[b.single()][1], o0, 64) == k for k, b in enumerate(bs)):
            return Layer('copy', off, n, src=r0, soff=o0)
    if n >= 8:
        p = period(bs)
        if p < n: return Layer('fill', off, n, bytes=list(bs[:p]), fn=None)
    return Layer('b', off, n, bytes=list(bs))

class State:
    __slots__ = ('regs', 'slots', 'out', 'visits', 'pc', 'ghost', 'cond')
    def __init__(self): self.regs = {}; self.slots = {}; self.out = {}; self.visits = {}; self.pc = (); self.ghost = {}; self.cond = ()
    def clone(self):
        s = State(); s.regs = dict(self.regs); s.slots = dict(self.slots); s.out = dict(self.out); s.visits = dict(self.visits); s.pc = self.pc; s.ghost = dict(self.ghost); s.cond = self.cond
        return s

class Failure(Exception):
    pass
class Split(Exception):
    """a call whose contract has several outcomes: [(condition, fn(state) -> result)]"""
    def __init__(self, alts): self.alts = alts

def _consts(x, cache={}):
    """uninterpreted constants of an expression"""
    i = x.get_id()
    if i in cache and cache[i][0].eq(x): return cache[i][1]
    seen = set(); out = []; work = [x]
    while work:
        y = work.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.num_args() == 0:
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(y)
        else: work += y.children()
    if len(cache) > 20000: cache.clear()
    cache[i] = (x, out)
    return out
def ATOM_BY_NAME(nm):
    c = z3.Int(nm); i = c.get_id()
    return (i,) if i in ATOM else ()
class Engine:
    def __init__(self, mod, fields, fname, contract, timeout_ms=20000, log=None, effort=1):
        self.effort = effort
        self.mod, self.fields, self.contract = mod, fields, contract
        self.f = mod.func(fname); self.fname = fname
        self.solver = z3.Solver(); self.limits(self.solver, 800);  self.timeout_ms = timeout_ms
        self.scopes = []; self.ndef = 0; self.noask = False
        ENG[0] = self
        self.stats = {'queries': 0, 'obligations': 0, 'time': 0.0, 'paths': 0, 'segments': 0, 'unknown': 0}
        self.fails = []; self.obkinds = {}
        self.quiet = 0            # >0: probing, obligations are not checked
        self.regions = {}; self.log = log
        self.t_end = None
        self.taint = False
        self.ctx = None; self.written = set(); self.depends = set()
        self.alloca_layout()
    def limits(self, s, ms):
        """a resource limit, so that the answer does not depend on the load of the machine (about 3000 units per ms); the clock is only a backstop"""
        s.set('rlimit', int(ms * 3000 * self.effort)); s.set('timeout', int(ms * 10 * self.effort))
    # -- solver ---------------------------------------------------------------------------------------------------------------
    def push(self):
        self.flush(); self.solver.push(); self.scopes.append((len(DEFS), len(_JOURNAL), len(SPLIT), len(UFD), len(UFL)))
    def pop(self):
        self.solver.pop(); nd, nj, ns, nu, nl = self.scopes.pop(); del SPLIT[ns:]; del UFD[nu:]; del UFL[nl:]
        self.ndef = nd; del DEFS[nd:]
        for k in _JOURNAL[nj:]: _MEMO.pop(k, None)
        del _JOURNAL[nj:]
    def flush(self):
        while self.ndef < len(DEFS):
            d = DEFS[self.ndef]; self.ndef += 1
            self.solver.add(d)
    def assume(self, *bs):
        for b in bs:
            if b is True: continue
            self.solver.add(ZB(b))
    def _check(self, *extra):
        self.flush()
        if self.t_end and time.time() > self.t_end: raise TimeoutError('function budget exceeded')
        t = time.time(); r = self.solver.check(*extra); self.stats['time'] += time.time() - t; self.stats['queries'] += 1
        if r == z3.unknown: self.stats['unknown'] += 1
        return r
    def feasible(self, b=True):
        if b is False: return False
        if b is True: return self._check() != z3.unsat
        self.push(); self.assume(b); r = self._check(); self.pop()
        return r != z3.unsat
    def must(self, b):
        if b is True: return True
        if b is False: return self._check() == z3.unsat
        self.push(); self.assume(bnot(b)); r = self._check(); self.pop()
        if r == z3.unknown: self.stats['munk'] = self.stats.get('munk', 0) + 1
        return r == z3.unsat
    def prove(self, b):
        """'ok' | 'cex' | 'unknown' ; on cex self.model is set"""
        self.model = None
        if b is True: return 'ok'
        self.push(); self.assume(bnot(b))
        sp = [x for x in SPLIT if x.get_id() in ATOM]
        r = self._check()
        if r != z3.unsat and UFD:
            self.flush(); self.solver.add(*UFD); self.stats['cong'] = self.stats.get('cong', 0) + 1
            r = self._check()
            if r == z3.unknown and sp: r = self._split(sp)
            if r != z3.unsat:
                self.flush(); self.solver.add(*UFL); r = self._check(); self.model = None
        if r == z3.unknown and sp: r = self._split(sp)
        if r == z3.unknown: r = self._fresh(self.timeout_ms)
        if r == z3.sat and self.model is None: self.model = self.solver.model()
        self.pop()
        return {'unsat': 'ok', 'sat': 'cex', 'unknown': 'unknown'}[str(r)]
    def _fresh(self, ms):
        """the same query in a fresh, non-incremental solver"""
        self.flush()
        if self.t_end and time.time() > self.t_end: raise TimeoutError('function budget exceeded')
        s = z3.Solver(); self.limits(s, ms); s.add(self.solver.assertions())
        t = time.time(); r = s.check(); self.stats['time'] += time.time() - t; self.stats['queries'] += 1; self.stats['fresh'] = self.stats.get('fresh', 0) + 1
        if r == z3.sat: self.model = s.model()
        return r
    def _split(self, sp):
        """case distinction over the bit positions found on this path"""
        x = sp[-1]; lo, hi = RNG[x.get_id()]; res = z3.unsat
        for k in range(lo, hi + 1):
            self.push(); self.assume(x == k); r = self._check()
            if r == z3.unknown: r = self._fresh(3000)
            if r == z3.unknown and len(sp) > 1: r = self._split(sp[:-1])
            if r == z3.sat and self.model is None: self.model = self.solver.model()
            self.pop()
            if r != z3.unsat: return r
        return res
    # -- what a value is computed from: used for "nothing else than the input decides" (C15) --------------------------------------
    def sources(self, vals):
        """leaves (memory reads, undefined values, loop variables) that the values are computed from, through the definitions of fresh atoms"""
        done = {}; leaves = []; work = []
        def put(v):
            if v is None or v is UNDEF or isinstance(v, (int, bool)): return
            if isinstance(v, list):
                for x in v: put(x)
            elif isinstance(v, Lin):
                for a in v.t: work.append(ATOM[a]); extra(a)
            elif isinstance(v, Ptr): put(v.o)
            elif z3.is_expr(v): work.append(v)
        def extra(a):
            for T in (MASK, FLAG, BOOLB):
                if a in T: put(T[a] if isinstance(T[a], list) else T[a])
        for v in vals: put(v)
        while work:
            x = work.pop()
            for c in _consts(x):
                nm = c.decl().name()
                if nm in done: continue
                done[nm] = 1
                base = nm[2:] if nm.startswith('B_') else nm
                ids = ATOM_BY_NAME(base)
                if ids and ids[0] in READ: leaves.append(('read',) + READ[ids[0]]); continue
                if base.startswith(('undef', 'rdh')) or base in UNK: leaves.append(('undef', base)); continue
                if base.split('!')[0] in ('sym', 'hvec', 'pad'): leaves.append((base.split('!')[0], base)); continue
                d = DEP.get(base, ())
                if isinstance(d, tuple) and d: leaves.append(d); continue
                work += d
                for t in ids: extra(t)
        return leaves
    def unanswered(self, name, st=None, where=''):
        """an obligation the verifier cannot decide"""
        self.stats['obligations'] += 1; self.obkinds[name] = self.obkinds.get(name, 0) + 1
        self.fails.append({'obligation': name, 'where': where, 'result': 'unknown', 'model': '', 'path': list(st.pc[-12:]) if st is not None else [], 'segment': getattr(self, 'segname', '')})
        if self.log: self.log('FAIL %s %s %s' % (self.fname, name, where))
    def oblige(self, name, b, st=None, where=''):
        """a proof obligation; a failed one is recorded under its name"""
        if self.quiet: return True
        self.stats['obligations'] += 1
        self.obkinds[name] = self.obkinds.get(name, 0) + 1
        r = self.prove(b)
        if r == 'ok': return True
        self.fails.append({'obligation': name, 'where': where, 'result': r, 'model': self.model_text(), 'path': list(st.pc[-12:]) if st is not None else [],
                           'segment': getattr(self, 'segname', '')})
        if self.log: self.log('FAIL %s %s %s' % (self.fname, name, where))
        self.contract.on_fail(self, name)
        return False
    def model_text(self):
        if self.model is None: return ''
        out = []
        for d in self.model.decls():
            if d.arity() == 0 and len(out) < 60:
                v = self.model[d]
                out.append('%s=%s' % (d.name(), v))
        return ' '.join(sorted(out))[:1500]
    # -- layout of local variables -------------------------------------------------------------------------------------------
    def leaves(self, t, off=0, name=''):
        t0 = t; t = self.mod.resolve(t)
        if t[0] in ('int', 'ptr', 'vec', 'float'): return [(off, t, name)]
        if t[0] == 'arr':
            es = self.mod.size(t[2]); r = []
            for k in range(t[1]): r += self.leaves(t[2], off + k * es, '%s[%d]' % (name, k))
            return r
        if t[0] == 'struct':
            r = []; fl = self.fields.get(t0[1], []) if t0[0] == 'named' else []
            byoff = {o: n for n, o, s in fl}
            for k in range(len(t[1])):
                o, x = self.mod.field(t, k)
                r += self.leaves(x, off + o, (name + '.' if name else '') + byoff.get(o, str(k)))
            return r
        raise Unsupported('layout %r' % (t,))
    def alloca_layout(self):
        self.layout = {}       # region name -> {off: (type, leaf name)}
        self.bigs = {}
        for b in self.f.order:
            for i in self.f.blocks[b]:
                if i.op == 'alloca':
                    n = i.res[1:]
                    if self.mod.size(i.ty) > 512 or n in self.contract.big_locals() or self.mod.resolve(i.ty)[0] in ('arr', 'struct') and self.mod.size(i.ty) >= self.contract.array_region:
                        r = Region(n, 'out', self.mod.size(i.ty)); r.rlim = r.wlim = self.mod.size(i.ty); r.align = 16
                        r.undef = True; self.bigs[n] = r
                        self.regions[n] = r; continue
                    ls = self.leaves(i.ty)
                    self.layout[n] = {o: (t, nm) for o, t, nm in ls}
                    r = Region(n, 'slot', self.mod.size(i.ty)); r.align = 64
                    self.regions[n] = r
    def slot_names(self):
        """all leaf variables: (region, off) -> source name"""
        out = {}
        for n, ls in self.layout.items():
            for o, (t, nm) in ls.items(): out[(n, o)] = (nm or n, t)
        return out
    # -- memory ---------------------------------------------------------------------------------------------------------------
    def leaf_size(self, t): return self.mod.size(t)
    def val_bytes(self, v, t):
        t = self.mod.resolve(t)
        if v is UNDEF: return [UNDEF] * self.mod.size(t)
        if t[0] == 'int':
            if t[1] == 1: v = zext(v, 1, 8); return [v]
            n = (t[1] + 7) // 8
            if t[1] % 8: v = zext(v, t[1], n * 8)
            return to_bytes(v, n)
        if t[0] == 'ptr':
            if isinstance(v, Ptr): return [('pb', v, k) for k in range(8)]
            return to_bytes(v, 8)
        if t[0] == 'float': return to_bytes(v, t[1] // 8)      # floating point lanes are only moved: opaque words
        if t[0] in ('vec', 'arr'):
            if t[0] == 'vec' and t[2] == ('int', 1): raise Unsupported('i1 vector bytes')
            r = []
            for x in v: r += self.val_bytes(x, t[2])
            return r
        raise Unsupported('bytes of %r' % (t,))
    def bytes_val(self, bs, t):
        t = self.mod.resolve(t)
        if t[0] == 'int':
            n = (t[1] + 7) // 8
            v = from_bytes(bs[:n])
            if v is UNDEF: return UNDEF
            return v if t[1] % 8 == 0 else trunc(v, t[1])
        if t[0] == 'ptr':
            if isinstance(bs[0], tuple): return bs[0][1]
            v = from_bytes(bs)
            return NULL if v == 0 and isinstance(v, int) else v
        if t[0] == 'float': return from_bytes(bs)
        if t[0] in ('vec', 'arr'):
            n = self.mod.size(t[2])
            return [self.bytes_val(bs[k * n:(k + 1) * n], t[2]) for k in range(t[1])]
        raise Unsupported('value of %r' % (t,))
    def slot_load(self, st, reg, off, t):
        lay = self.layout[reg.name]
        if not isinstance(off, int):
            return self.slot_symload(st, reg, off, t)
        t = self.mod.resolve(t)
        if off in lay and lay[off][0] == t: return st.slots.get((reg.name, off), UNDEF)
        return self.bytes_val(self.slot_bytes(st, reg, off, self.mod.size(t)), t)
    def slot_bytes(self, st, reg, off, n):
        lay = self.layout[reg.name]; out = {}
        for o, (t, _) in lay.items():
            s = self.mod.size(t)
            if o < off + n and off < o + s:
                v = st.slots.get((reg.name, o), UNDEF)
                bs = self.val_bytes(v, t)
                for k in range(s):
                    if off <= o + k < off + n: out[o + k] = bs[k]
        return [out.get(off + k, UNDEF) for k in range(n)]
    def slot_store(self, st, reg, off, t, v):
        lay = self.layout[reg.name]
        if not isinstance(off, int): return self.slot_symstore(st, reg, off, t, v)
        t = self.mod.resolve(t)
        if off in lay and lay[off][0] == t: st.slots[(reg.name, off)] = v; self.written.add((reg.name, off)); return
        self.slot_putbytes(st, reg, off, self.val_bytes(v, t))
    def slot_putbytes(self, st, reg, off, bs):
        n = len(bs); lay = self.layout[reg.name]
        for o, (t, _) in lay.items():
            s = self.mod.size(t)
            if o < off + n and off < o + s:
                cur = self.val_bytes(st.slots.get((reg.name, o), UNDEF), t) if (off > o or off + n < o + s) else [UNDEF] * s
                for k in range(s):
                    if off <= o + k < off + n: cur[k] = bs[o + k - off]
                st.slots[(reg.name, o)] = self.bytes_val(cur, t); self.written.add((reg.name, o))
    def slot_symload(self, st, reg, off, t):
        lay = self.layout[reg.name]; n = self.mod.size(t); t = self.mod.resolve(t)
        offs = [o for o, (lt, _) in sorted(lay.items()) if lt == t]
        if not offs or t[0] not in ('int',):
            o = next((o for o in offs if self.must(cmp_eq(off, o, 64))), None)
            if o is None: raise Unsupported('symbolic index into %s' % reg.name)
            v = st.slots.get((reg.name, o), UNDEF); return v
        self.oblige('index-in-bounds', bor(*[cmp_eq(off, o, 64) for o in offs]), st, reg.name)
        r = None
        for o in reversed(offs):
            v = st.slots.get((reg.name, o), UNDEF)
            if v is UNDEF: v = fresh('undef', t[1])
            r = v if r is None else bite(cmp_eq(off, o, 64), v, r, t[1])
        return r
    def slot_symstore(self, st, reg, off, t, v):
        lay = self.layout[reg.name]; t = self.mod.resolve(t)
        offs = [o for o, (lt, _) in sorted(lay.items()) if lt == t]
        if not offs or t[0] not in ('int',):
            o = next((o for o in offs if self.must(cmp_eq(off, o, 64))), None)
            if o is None: raise Unsupported('symbolic index store into %s' % reg.name)
            st.slots[(reg.name, o)] = v; self.written.add((reg.name, o)); return
        self.oblige('index-in-bounds', bor(*[cmp_eq(off, o, 64) for o in offs]), st, reg.name)
        for o in offs:
            old = st.slots.get((reg.name, o), UNDEF)
            if old is UNDEF: old = fresh('undef', t[1])
            st.slots[(reg.name, o)] = bite(cmp_eq(off, o, 64), v, old, t[1]); self.written.add((reg.name, o))
    def ro_byte(self, reg, off):
        key = ('rd', reg.name, off if isinstance(off, int) else off.key())
        if key not in _MEMO:
            a = opaque('rd_' + reg.name)
            if reg.bitwise:
                bs = [z3.Bool('bit!%d!%d' % (a.single(), k)) for k in range(8)]; MASK[a.single()] = bs; DEFS.append(a.z == z3.Sum([z3.If(b, z3.IntVal(1 << k), z3.IntVal(0)) for k, b in enumerate(bs)]))
            READ[a.single()] = (reg, off); UFD.append(BT[a.single()] == reg.fn(U(off))); memo(key, a)
            for q in reg.facts: self.fact(q, off, a)
        return _MEMO[key]
    def fact(self, q, off, a):
        c = q(off, a)
        if c is not None and c is not True: DEFS.append(ZB(c))
    def add_fact(self, reg, q):
        """a universally quantified fact about the content of a read-only region: q(offset, byte) -> condition, instantiated at every byte read"""
        reg.facts = reg.facts + [q]
        for k, a in list(_MEMO.items()):
            if k[0] == 'rd' and k[1] == reg.name: self.fact(q, READ[a.single()][1], a)
    def in_range(self, off, n, lim, lo=0):
        """off .. off+n within [lo, lim) without wrap-around"""
        c = [cmp('ule', n, lim, 64), cmp('ule', off, sub(lim, n, 64), 64)]
        if not (isinstance(lo, int) and lo == 0): c.append(cmp('uge', off, lo, 64))
        return band(*c)
    def read_byte(self, st, reg, off):
        """byte of a region in the current state (no obligation)"""
        if reg.kind == 'in': return self.ro_byte(reg, off)
        return self._read_layers(st, reg, list(st.out.get(reg.name, ())), off, 0)
    def layer_value(self, L, d, off):
        if L.kind == 'copy': return self.ro_byte(L.src, add(L.soff, d, 64))
        if L.kind == 'snap': return L.fn(d)
        if L.kind == 'hav':
            a = opaque('rdh'); UFD.append(BT[a.single()] == L.fn(U(off))); return a
        if L.kind == 'b':
            if isinstance(d, int): return L.bytes[d]
            r = L.bytes[-1]
            for k in range(len(L.bytes) - 2, -1, -1): r = bite(cmp_eq(d, k, 64), L.bytes[k], r, 8)
            return r
        if L.kind == 'fill':
            p = len(L.bytes)
            if p == 1: return L.bytes[0]
            if isinstance(d, int): return L.bytes[d % p]
            if p & (p - 1) == 0:
                m = band_bits(d, p - 1, 64); r = L.bytes[-1]
                for k in range(p - 2, -1, -1): r = bite(cmp_eq(m, k, 64), L.bytes[k], r, 8)
                return r
            ins = cmp('ult', d, L.n, 64)
            if ins is not True and not self.must(bor(bnot(ins), z3.And(d.z >= 0, d.z < (1 << 62)))): raise Unsupported('phase of an offset that may wrap')
            if self._check() == z3.sat:       # an offset with only one possible value
                v = self.solver.model().eval(d.z, model_completion=True)
                if z3.is_int_value(v) and 0 <= v.as_long() < 64 and self.must(d.z == v): return L.bytes[v.as_long() % p]
            m = self.mod_phase(d, p); r = L.bytes[-1]
            for k in range(p - 2, -1, -1): r = bite(cmp_eq(m, k, 8), L.bytes[k], r, 8)
            return r
        raise Unsupported('layer')
    def mod_phase(self, d, p):
        """d mod p of an offset as an integer: terms whose coefficient is a multiple of p drop out; the rest is one phase variable per
        linear form.  The caller has shown that the integer form of d is its value."""
        sg = lambda k: k
        base = {x: sg(k) % p for x, k in d.t.items() if sg(k) % p}
        c = sg(d.c) % p
        for x, k in d.t.items():
            if abs(sg(k)) > 4096: raise Unsupported('phase of a wrapped offset')
        if not base: return c
        key = ('mod', p, tuple(sorted(base.items())))
        if key not in _MEMO:
            m = fresh('mod%d' % p, 8, 0, p - 1); memo(key, m)
        m = _MEMO[key]
        if c == 0: return m
        r = (p - 1 + c) % p
        for k in range(p - 2, -1, -1): r = bite(cmp_eq(m, k, 8), (k + c) % p, r, 8)
        return r
    def _read_layers(self, st, reg, layers, off, depth):
        k = len(layers) - 1
        while k >= 0:
            L = layers[k]; d = sub(off, L.off, 64)
            if isinstance(d, int) and isinstance(L.n, int):
                if d < L.n: return self.layer_value(L, d, off)
                k -= 1; continue
            inside = cmp('ult', d, L.n, 64)
            if inside is False or self.must(bnot(inside)): k -= 1; continue
            if inside is True or self.must(inside): return self.layer_value(L, d, off)
            v = self.layer_value(L, d, off)
            self.push(); self.assume(bnot(inside))
            nd, nu, nl = len(DEFS), len(UFD), len(UFL)
            rest = self._read_layers(st, reg, layers[:k], off, depth + 1)
            dd, uu, ll = DEFS[nd:], UFD[nu:], UFL[nl:]
            self.pop()
            out_ = ZB(bnot(inside))      # definitions made under the assumption stay available, guarded by it
            DEFS.extend(z3.Implies(out_, d) for d in dd); UFD.extend(z3.Implies(out_, d) for d in uu); UFL.extend(ll)
            return bite(inside, v, rest, 8)
        return self.ro_byte(reg, off) if reg.kind != 'glob' else self.glob_byte(reg, off)
    def glob_byte(self, reg, off):
        raise Unsupported('global read')
    def load(self, st, p, t, align, where=''):
        if isinstance(p, (Lin, int)) : p = self.int2ptr(p)
        reg = p.r
        if reg is None: 
            self.oblige('null-deref', False, st, where); raise Failure('null')
        n = self.mod.size(t)
        if reg.kind == 'slot':
            if isinstance(p.o, int) and not (0 <= p.o and p.o + n <= reg.size):
                self.oblige('local-in-bounds', False, st, where); raise Failure('oob local')
            return self.slot_load(st, reg, p.o, t)
        if reg.kind == 'glob': return self.contract.load_global(self, st, reg, p.o, t)
        self.oblige('load-in-bounds:%s' % reg.name, self.in_range(p.o, n, reg.rlim, reg.rlo), st, where)
        if align >= 16: self.oblige('aligned-access', self.aligned(p, align), st, where)
        if reg.nullable and not self.quiet: self.oblige('non-null:%s' % reg.name, bnot(reg.null), st, where)
        bs = [self.read_byte(st, reg, add(p.o, k, 64)) for k in range(n)]
        return self.bytes_val(bs, t)
    def aligned(self, p, al):
        a = add(p.r.base, p.o, 64)
        return cmp_eq(band_bits(a, al - 1, 64), 0, 64)
    def store(self, st, p, t, v, align, where=''):
        if isinstance(p, (Lin, int)): p = self.int2ptr(p)
        reg = p.r
        if reg is None:
            self.oblige('null-deref', False, st, where); raise Failure('null')
        n = self.mod.size(t)
        if reg.kind == 'slot':
            if isinstance(p.o, int) and not (0 <= p.o and p.o + n <= reg.size):
                self.oblige('local-in-bounds', False, st, where); raise Failure('oob local')
            return self.slot_store(st, reg, p.o, t, v)
        if reg.kind != 'out':
            self.oblige('store-to-readonly:%s' % reg.name, False, st, where); raise Failure('store to ' + reg.name)
        self.oblige('store-in-bounds:%s' % reg.name, self.in_range(p.o, n, reg.wlim, reg.wlo), st, where)
        if align >= 16: self.oblige('aligned-access', self.aligned(p, align), st, where)
        if reg.nullable and not self.quiet: self.oblige('non-null:%s' % reg.name, bnot(reg.null), st, where)
        self.contract.on_store(self, st, reg, p.o, n, where)
        bs = self.val_bytes(v, t)
        bs = [fresh('undef', 8) if b is UNDEF else b for b in bs]
        st.out[reg.name] = st.out.get(reg.name, ()) + (make_store(p.o, bs),)
    def int2ptr(self, v):
        if isinstance(v, int): return Ptr(None, v)
        for r in self.regions.values():
            b = r.base.single()
            if v.t.get(b) == 1:
                return Ptr(r, sub(v, r.base, 64))
        raise Unsupported('integer without provenance used as pointer')
    def ptr2int(self, p):
        if not isinstance(p, Ptr): return p
        if p.r is None: return p.o
        return add(p.r.base, p.o, 64)
    def mem_copy(self, st, dst, src, n, where=''):
        if isinstance(dst, (Lin, int)): dst = self.int2ptr(dst)
        if isinstance(src, (Lin, int)): src = self.int2ptr(src)
        if isinstance(n, int) and n == 0: return
        if src.r is not None and dst.r is not None and isinstance(n, int) and (src.r.kind == 'slot' or dst.r.kind == 'slot' or n <= 64):
            bs = self.get_bytes(st, src, n, where); self.put_bytes(st, dst, bs, where); return
        if src.r is None or dst.r is None: self.oblige('null-deref', cmp_eq(n, 0, 64), st, where); return
        if src.r.kind == 'slot' or dst.r.kind == 'slot': raise Unsupported('symbolic length copy of locals')
        self.oblige('load-in-bounds:%s' % src.r.name, self.in_range(src.o, n, src.r.rlim, src.r.rlo), st, where)
        self.oblige('store-in-bounds:%s' % dst.r.name, self.in_range(dst.o, n, dst.r.wlim, dst.r.wlo), st, where)
        self.contract.on_store(self, st, dst.r, dst.o, n, where)
        if src.r.kind != 'in':
            ls = list(st.out.get(src.r.name, ())); so = src.o; sr = src.r
            st.out[dst.r.name] = st.out.get(dst.r.name, ()) + (Layer('snap', dst.o, n, fn=lambda d: self._read_layers(st, sr, list(ls), add(so, d, 64), 0)),); return
        st.out[dst.r.name] = st.out.get(dst.r.name, ()) + (Layer('copy', dst.o, n, src=src.r, soff=src.o),)
    def get_bytes(self, st, p, n, where=''):
        if p.r.kind == 'slot': return self.slot_bytes(st, p.r, p.o, n)
        if p.r.kind == 'glob': return self.contract.global_bytes(self, st, p.r, p.o, n)
        self.oblige('load-in-bounds:%s' % p.r.name, self.in_range(p.o, n, p.r.rlim, p.r.rlo), st, where)
        return [self.read_byte(st, p.r, add(p.o, k, 64)) for k in range(n)]
    def put_bytes(self, st, p, bs, where=''):
        if p.r.kind == 'slot': return self.slot_putbytes(st, p.r, p.o, bs)
        self.oblige('store-in-bounds:%s' % p.r.name, self.in_range(p.o, len(bs), p.r.wlim, p.r.wlo), st, where)
        self.contract.on_store(self, st, p.r, p.o, len(bs), where)
        st.out[p.r.name] = st.out.get(p.r.name, ()) + (make_store(p.o, [fresh('undef', 8) if b is UNDEF else b for b in bs]),)
    def mem_set(self, st, dst, b, n, where=''):
        if dst.r.kind == 'slot':
            if not isinstance(n, int): raise Unsupported('memset length')
            return self.slot_putbytes(st, dst.r, dst.o, [b] * n)
        self.oblige('store-in-bounds:%s' % dst.r.name, self.in_range(dst.o, n, dst.r.wlim, dst.r.wlo), st, where)
        self.contract.on_store(self, st, dst.r, dst.o, n, where)
        st.out[dst.r.name] = st.out.get(dst.r.name, ()) + (Layer('fill', dst.o, n, bytes=[b], fn=None),)
    # -- instruction semantics ------------------------------------------------------------------------------------------------
    def ev(self, st, v, t):
        k = v[0]
        if k == 'loc': return st.regs[v[1]]
        if k == 'const':
            t = self.mod.resolve(t)
            if t == ('int', 1): return bool(v[1])
            return v[1] & ((1 << t[1]) - 1)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'vecc': return [self.ev(st, x, xt) for xt, x in v[1]]
        if k == 'cstr':
            import re as _re
            raise Unsupported('string constant')
        if k == 'glob': return Ptr(self.glob(v[1]), 0)
        if k == 'cgep': return self.gep(st, v[1], v[2])
        if k == 'ccast' and v[1] == 'ptrtoint': return self.ptr2int(self.ev(st, v[3], v[2]))
        if k == 'ccast' and v[1] == 'inttoptr': return self.int2ptr(self.ev(st, v[3], v[2]))
        raise Unsupported('operand %r' % (v,))
    def glob(self, n):
        if n not in self.regions:
            r = Region(n[1:], 'glob'); self.regions[n] = r
        return self.regions[n]
    def undef(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('vec', 'arr'): return [self.undef(t[2]) for _ in range(t[1])]
        return UNDEF
    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('vec', 'arr'): return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 'struct': return [self.zero(x) for x in t[1]]
        if t[0] == 'ptr': return NULL
        if t == ('int', 1): return False
        return 0
    def gep(self, st, t, ops):
        base = self.ev(st, ops[0][1], ops[0][0])
        if isinstance(base, (Lin, int)) and not isinstance(base, bool): base = self.int2ptr(base)
        if base is UNDEF: raise Unsupported('gep of undef pointer')
        off = base.o
        idx = ops[1:]
        cur = t
        for n, (it, iv) in enumerate(idx):
            v = self.ev(st, iv, it)
            if not isinstance(v, int): v = sext(v, it[1], 64) if it[1] < 64 else v
            else: v = sext(v, it[1], 64)
            if n == 0: off = add(off, scale(v, self.mod.size(cur), 64), 64)
            else:
                c = self.mod.resolve(cur)
                if c[0] == 'struct':
                    o, cur = self.mod.field(cur, v); off = add(off, o, 64)
                else:
                    cur = c[2]; off = add(off, scale(v, self.mod.size(cur), 64), 64)
        return Ptr(base.r, off)
    def binop(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if op == 'and': return band(a, b)
            if op == 'or': return bor(a, b)
            if op == 'xor': return bnot(a) if b is True else (a if b is False else (bnot(b) if a is True else (b if a is False else z3.Xor(a, b))))
            raise Unsupported('i1 ' + op)
        if op == 'add': return add(a, b, w)
        if op == 'sub': return sub(a, b, w)
        if op == 'mul':
            if isinstance(b, int): return scale(a, b, w)
            if isinstance(a, int): return scale(b, a, w)
            return self.contract.product(self, a, b, w)
        if op == 'and': return band_bits(a, b, w)
        if op == 'or': return bor_bits(a, b, w)
        if op == 'xor': return bxor_bits(a, b, w)
        if op == 'shl': return shl(a, b, w)
        if op == 'lshr': return lshr(a, b, w)
        if op == 'ashr':
            if isinstance(a, int) and isinstance(b, int): return (sext(a, w, 2 * w) >> b) & ((1 << w) - 1)
            s = a.single() if isinstance(a, Lin) else None
            if s is not None and s in BOOLB: return a
            if isinstance(b, int) and a.itv()[0] >= 0 and a.itv()[1] < 1 << (w - 1): return lshr(a, b, w)
            if isinstance(b, int) and within(a, 0, (1 << (w - 1)) - 1): return lshr(a, b, w)
            raise Unsupported('ashr')
        if op in ('udiv', 'urem'):
            if isinstance(b, int) and b:
                q, r = udiv_const(a, b, w); return q if op == 'udiv' else r
            self.oblige('division-by-zero', bnot(cmp_eq(b, 0, w)))
            v = self.contract.quotient(self, op, a, b, w)
            if v is not None: return v
            x, y = U(a), U(b); return atom(x / y if op == 'udiv' else x % y, w)
        if op in ('sdiv', 'srem'):
            if isinstance(a, int) and isinstance(b, int):
                h = 1 << (w - 1); x, y = (a ^ h) - h, (b ^ h) - h
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) & ((1 << w) - 1)
            if isinstance(b, int) and sym(b, w) > 0 and within(a, 0, (1 << (w - 1)) - 1):
                q, r = udiv_const(a, b, w); return q if op == 'sdiv' else r
            raise Unsupported('signed division')
        raise Unsupported(op)
    def cast(self, op, v, t1, t2):
        r1, r2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if op == 'bitcast':
            if r1 == r2: return v
            if r1[0] == 'vec' and r1[2] == ('int', 1):       # <n x i1> -> iN
                return mask_val([self.boolv(x) for x in v], r2[1])
            if r2[0] == 'vec' and r2[2] == ('int', 1):
                bs = bits_of(v, r1[1]) if not isinstance(v, int) else [bool((v >> k) & 1) for k in range(r1[1])]
                if bs is None: bs = bit_bools(v, r1[1])
                return list(bs)
            return self.bytes_val(self.val_bytes(v, t1), t2)
        if op == 'ptrtoint': 
            v = self.ptr2int(v); return v if r2[1] == 64 else trunc(v, r2[1])
        if op == 'inttoptr': return self.int2ptr(v)
        if r1[0] == 'vec':
            return [self.cast(op, x, r1[2], r2[2]) for x in v]
        if op == 'zext': return zext(v, r1[1], r2[1])
        if op == 'sext': return sext(v, r1[1], r2[1])
        if op == 'trunc':
            if r2[1] == 1:
                if v is UNDEF: return UNDEF
                if isinstance(v, int): return bool(v & 1)
                return trunc(v, 1)
            return trunc(v, r2[1])
        raise Unsupported('cast ' + op)
    def boolv(self, x):
        if isinstance(x, int) and not isinstance(x, bool): return bool(x)
        return x
    def icmp(self, st, p, t, a, b):
        t = self.mod.resolve(t)
        if t[0] == 'vec': return [self.icmp(st, p, t[2], x, y) for x, y in zip(a, b)]
        if t[0] == 'ptr':
            if isinstance(a, (Lin, int)): a = self.int2ptr(a)
            if isinstance(b, (Lin, int)): b = self.int2ptr(b)
            if a.r is None and b.r is None: return cmp(p, a.o, b.o, 64)
            if a.r is None: a, b, p = b, a, {'eq': 'eq', 'ne': 'ne'}.get(p) or self._uns('pointer order with null')
            if b.r is None:
                if p in ('eq', 'ne'):
                    isnull = a.r.null if a.r.nullable and isinstance(a.o, int) and a.o == 0 else False
                    return isnull if p == 'eq' else bnot(isnull)
                raise Unsupported('pointer order with null')
            if a.r is not b.r: 
                if p == 'eq': return False
                if p == 'ne': return True
                raise Unsupported('ordering pointers into different objects')
            # address order: base + offset, no object within 2^62 bytes of the ends of the address space -> order of the signed offsets
            return cmp(p if p in ('eq', 'ne') else 's' + p[1:], a.o, b.o, 64)
        if a is UNDEF: a = fresh('undef', t[1])
        if b is UNDEF: b = fresh('undef', t[1])
        return cmp(p, a, b, t[1])
    def _uns(self, m): raise Unsupported(m)
    def exec_ins(self, st, i):
        op = i.op; R = st.regs
        if op == 'load':
            t = self.mod.resolve(i.ty)
            R[i.res] = self.load(st, self.ev(st, i.a[0], ('ptr',)), t, i.align, i.text)
        elif op == 'store':
            self.store(st, self.ev(st, i.a[1], ('ptr',)), i.ty, self.ev(st, i.a[0], i.ty), i.align, i.text)
        elif op == 'getelementptr': R[i.res] = self.gep(st, i.a[0], i.a[1])
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.ev(st, i.a[0], i.ty), self.ev(st, i.a[1], i.ty); t = self.mod.resolve(i.ty)
            if t[0] == 'vec': R[i.res] = [self.binop(op, x, y, t[2][1]) for x, y in zip(a, b)]
            else: R[i.res] = self.binop(op, a, b, t[1])
        elif op == 'icmp': R[i.res] = self.icmp(st, i.a[0], i.ty, self.ev(st, i.a[1], i.ty), self.ev(st, i.a[2], i.ty))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            R[i.res] = self.cast(op, self.ev(st, i.a[1], i.a[0]), i.a[0], i.ty)
        elif op == 'select':
            ct, c, a, b = i.a; cv = self.ev(st, c, ct); x, y = self.ev(st, a, i.ty), self.ev(st, b, i.ty); t = self.mod.resolve(i.ty)
            if ct[0] == 'vec': R[i.res] = [self.sel(cc, p, q, t[2]) for cc, p, q in zip(cv, x, y)]
            else: R[i.res] = self.sel(cv, x, y, t)
        elif op == 'insertelement':
            v = list(self.ev(st, i.a[0], i.ty)); ix = self.ev(st, i.a[2], ('int', 64))
            if not isinstance(ix, int): raise Unsupported('insertelement index')
            v[ix] = self.ev(st, i.a[1], self.mod.resolve(i.ty)[2]); R[i.res] = v
        elif op == 'extractelement':
            v = self.ev(st, i.a[1], i.a[0]); ix = self.ev(st, i.a[2], ('int', 64))
            if not isinstance(ix, int): raise Unsupported('extractelement index')
            R[i.res] = v[ix]
        elif op == 'shufflevector':
            t, a, b, mt, m = i.a; x = self.ev(st, a, t) + self.ev(st, b, t); mv = self.ev(st, m, mt)
            R[i.res] = [UNDEF if k is UNDEF else x[k] for k in mv]
        elif op == 'call': self.call(st, i)
        elif op == 'freeze': R[i.res] = self.ev(st, i.a[0], i.ty)
        elif op == 'alloca':
            n = i.res[1:]; R[i.res] = Ptr(self.regions[n], 0)
        elif op == 'fence': pass
        else: raise Unsupported('instruction ' + i.text)
    def sel(self, c, a, b, t):
        if c is True: return a
        if c is False: return b
        if same(a, b): return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if t[0] == 'vec': return [self.sel(c, x, y, t[2]) for x, y in zip(a, b)]
        if t == ('int', 1): return z3.If(c, ZB(a), ZB(b))
        if t[0] == 'int': return bite(c, a, b, t[1])
        if t[0] == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r: return Ptr(a.r, bite(c, a.o, b.o, 64))
        raise Unsupported('select of %r' % (t,))
    def call(self, st, i):
        name, args = i.a; n = name[1:] if name.startswith('@') else name
        R = st.regs
        if n.startswith(('llvm.lifetime', 'llvm.prefetch', 'llvm.dbg', 'llvm.assume', 'llvm.x86.sse2.mfence', 'llvm.x86.sse.sfence')): return
        vals = [self.ev(st, v, t) if v is not None else None for t, v in args]
        w = i.ty[1] if i.ty[0] == 'int' else None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, c, k = vals[:3]
            if n.startswith('llvm.memcpy') and isinstance(d, Ptr) and isinstance(c, Ptr) and d.r is c.r and d.r is not None and d.r.kind == 'out': self.oblige('memcpy-overlap', bor(cmp('ule', add(d.o, k, 64), c.o, 64), cmp('ule', add(c.o, k, 64), d.o, 64)), st, i.text)
            return self.mem_copy(st, vals[0], vals[1], vals[2], i.text)
        if n.startswith('llvm.memset'): return self.mem_set(st, vals[0], vals[1], vals[2], i.text)
        if n.startswith('llvm.cttz'): R[i.res] = cttz(vals[0], w); return
        if n.startswith('llvm.ctlz'):
            v = vals[0]
            if isinstance(v, int): R[i.res] = w - v.bit_length(); return
            bs = bits_of(v, w) if v.single() is not None else None
            if bs is None: bs = bit_bools(v, w)
            r = cttz(mask_val(list(reversed(bs)), w), w); R[i.res] = r; return
        if n.startswith('llvm.ctpop'):
            v = vals[0]; bs = bits_of(v, w) if isinstance(v, int) or v.single() is not None else None
            if bs is None: bs = bit_bools(v, w)
            r = 0
            for b in bs: r = add(r, zext(b, 1, w), w)
            R[i.res] = r; return
        if n in ('llvm.x86.sse2.pmovmskb.128', 'llvm.x86.avx2.pmovmskb'):
            R[i.res] = mask_val([self.sign(x) for x in vals[0]], 32); return
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.usub.sat', 'llvm.uadd.sat')):
            k = n.split('.')[1]
            def f(a, b, w):
                if k == 'umin': return bite(cmp('ult', a, b, w), a, b, w)
                if k == 'umax': return bite(cmp('ugt', a, b, w), a, b, w)
                if k == 'smin': return bite(cmp('slt', a, b, w), a, b, w)
                if k == 'smax': return bite(cmp('sgt', a, b, w), a, b, w)
                if n.startswith('llvm.usub.sat'): return bite(cmp('ult', a, b, w), 0, sub(a, b, w), w)
                return bite(cmp('ult', add(a, b, w), a, w), (1 << w) - 1, add(a, b, w), w)
            if i.ty[0] == 'vec': R[i.res] = [f(a, b, i.ty[2][1]) for a, b in zip(vals[0], vals[1])]
            else: R[i.res] = f(vals[0], vals[1], w)
            return
        if n.startswith('llvm.x86.ssse3.pshuf.b') or n.startswith('llvm.x86.avx2.pshuf.b') or n.startswith('llvm.x86.avx512.pshuf.b'):
            a, m = vals; out = []
            for k in range(len(a)):
                mk_ = m[k]; lane = k // 16 * 16
                if isinstance(mk_, int): out.append(0 if mk_ & 0x80 else a[lane + (mk_ & 15)])
                else:
                    low = band_bits(mk_, 15, 8); r = a[lane + 15]
                    for q in range(14, -1, -1): r = bite(cmp_eq(low, q, 8), a[lane + q], r, 8)
                    out.append(bite(cmp('uge', mk_, 0x80, 8), 0, r, 8))
            R[i.res] = out; return
        r = self.contract.call(self, st, n, args, vals, i)
        if i.res: R[i.res] = r
    def sign(self, x):
        if isinstance(x, int): return bool(x >> 7)
        s = x.single()
        if s is not None and s in BOOLB: return BOOLB[s]
        return cmp('uge', x, 128, 8)
    # -- exploration ----------------------------------------------------------------------------------------------------------
    def run_block(self, st, b, at=0):
        for n, i in enumerate(self.f.blocks[b][:-1]):
            if i.op == 'phi' or n < at: continue
            try: self.exec_ins(st, i)
            except Split as s: s.at, s.ins = n + 1, i; raise
        return self.f.blocks[b][-1]
    def enter(self, st, b, prev):
        """phis of block b on the edge prev -> b"""
        ups = {}
        for i in self.f.blocks[b]:
            if i.op != 'phi': break
            for v, p in i.a:
                if p == prev: ups[i.res] = self.ev(st, v, i.ty)
        st.regs.update(ups)
    def explore(self, st, b, prev, start=False, at=0):
        """run from block b; calls contract.arrive at cut points and contract.ret at returns"""
        while True:
            if prev is not None: self.enter(st, b, prev)
            if self.ctx is not None:
                cx = self.ctx
                if b == cx['H'] and not start:
                    return self.guarded(cx['back'], st)
                if b not in cx['body']:
                    if cx['probe']: return
                    self.ctx = cx['outer']
                    try: return self.explore(st, b, None)
                    finally: self.ctx = cx
            if b in self.f.loops and not start:
                if not self.concrete_header(st, b):
                    return self.at_header(st, b, prev)
                st.visits[b] = st.visits.get(b, 0) + 1
                if st.visits[b] > 600: raise Unsupported('unrolling limit at ' + b)
            start = False
            if not at and self.contract.at_block(self, st, b) == 'stop': return
            depth = len(self.scopes)
            try: t = self.run_block(st, b, at)
            except Failure:
                while len(self.scopes) > depth: self.pop()
                return
            except Split as s:
                for k, (c, fn) in enumerate(s.alts):
                    s2 = st.clone(); s2.pc += ('outcome%d' % k,); s2.cond += (c,)
                    self.push(); self.assume(c)
                    v = fn(s2)
                    if self.feasible():
                        if s.ins.res: s2.regs[s.ins.res] = v
                        self.explore(s2, b, None, start=True, at=s.at)
                    self.pop()
                return
            at = 0
            if t.op == 'br' and len(t.a) == 1: prev, b = b, t.a[0]; continue
            if t.op == 'ret':
                self.stats['paths'] += 1
                v = self.ev(st, t.a[0], t.ty) if t.a else None
                return self.guarded(self.contract.ret, self, st, v)
            if t.op == 'unreachable':
                self.oblige('unreachable', False, st, b); return
            if t.op == 'br':
                c = self.ev(st, t.a[0], ('int', 1))
                if c is UNDEF: c = z3.Bool('undef!%d' % next(_ctr))
                c = self.boolv(c)
                if isinstance(c, bool): prev, b = b, (t.a[1] if c else t.a[2]); continue
                alts = [(c, t.a[1]), (bnot(c), t.a[2])]
            elif t.op == 'switch':
                v = self.ev(st, t.a[0], t.ty); w = t.ty[1]
                if isinstance(v, int):
                    nb = t.a[1]
                    for cv, l in t.a[2]:
                        if (cv & ((1 << w) - 1)) == v: nb = l
                    prev, b = b, nb; continue
                alts = [(cmp_eq(v, cv & ((1 << w) - 1), w), l) for cv, l in t.a[2]]
                alts.append((band(*[bnot(c) for c, _ in alts]), t.a[1]))
            else: raise Unsupported('terminator ' + t.text)
            live = []
            for k, (c, l) in enumerate(alts):
                if c is False: continue
                if self.feasible(c): live.append((c, l))
                elif k == 0 and len(alts) == 2: live.append((alts[1][0], alts[1][1])); break
            if self.taint and not self.quiet and len(live) > 1: self.contract.on_branch(self, st, [c for c, l in live], b)
            if len(live) == 1:
                self.assume(live[0][0]); st.cond += (live[0][0],); st.pc += (live[0][1],); prev, b = b, live[0][1]; continue
            for c, l in live:
                s2 = st.clone(); s2.pc += (l,); s2.cond += (c,)
                self.push(); self.assume(c)
                self.explore(s2, l, b)
                self.pop()
            return
    def guarded(self, fn, *a):
        """a check that ends its path with a recorded failure"""
        depth = len(self.scopes)
        try: return fn(*a)
        except Failure:
            while len(self.scopes) > depth: self.pop()
            return 'failed'
    def concrete_header(self, st, b):
        t = self.f.blocks[b][-1]
        if t.op != 'br' or len(t.a) == 1: return False
        if self.contract.force_cut(self, b): return False
        s2 = st.clone(); self.quiet += 1
        try:
            self.run_block(s2, b)
            c = self.ev(s2, t.a[0], ('int', 1))
        except (Failure, Unsupported, Split):
            return False
        finally: self.quiet -= 1
        if isinstance(c, bool): return True
        return self.contract.unrollable(self, b) and (self.must(c) or self.must(bnot(c)))
    def at_header(self, st, b, prev):
        mode = self.contract.header_mode(self, st, b)
        if mode == 'cut':
            self.stats['paths'] += 1
            return self.contract.arrive(self, st, b)
        if mode == 'inv': return self.contract.loop(self, st, b)
        return self.summarize(st, b)

    # -- in-context summaries of copy / fill loops ------------------------------------------------------------------------------
    def havoc_like(self, v, name, t):
        t = self.mod.resolve(t)
        if isinstance(v, Ptr):
            if v.r is None: raise Unsupported('null pointer variable in loop: ' + name)
            return Ptr(v.r, fresh(name, 64))
        if v is UNDEF: return UNDEF
        if t[0] == 'int': return z3.Bool('%s!%d' % (name, next(_ctr))) if t[1] == 1 else fresh(name, t[1])
        if t[0] == 'vec': return self.bytes_val([opaque('hvec') for _ in range(self.mod.size(t))], t)
        raise Unsupported('havoc of %s' % name)
    def loop_iter(self, st, H, probe, back):
        self.ctx = {'H': H, 'body': self.f.loops[H], 'probe': probe, 'back': back, 'outer': self.ctx}
        outer = self.ctx['outer']
        if probe: self.quiet += 1
        try:
            self.push(); self.explore(st, H, None, start=True); self.pop()
        finally:
            self.ctx = outer
            if probe: self.quiet -= 1
    def summarize(self, st0, H):
        """loop H in context: every modified variable is either v0 + d*n in iteration n or a per-iteration temporary; memory written is a
        copy or a periodic fill growing by d bytes per iteration.  Both facts are obligations (loop-closure), proved for arbitrary n."""
        names = self.slot_names()
        saved = self.written; self.written = set()
        w = set()
        for rnd in range(4):
            self.written = set()
            pr = st0.clone(); pr.cond = ()
            for k in w: pr.slots[k] = self.havoc_like(st0.slots.get(k, UNDEF), names[k][0], names[k][1])
            start = dict(pr.slots); backs = []
            self.loop_iter(pr, H, True, lambda s: backs.append(s))
            if self.written <= w: break
            w = w | self.written
        else: raise Unsupported('loop modifies unknown variables: ' + H)
        saved |= self.written; self.written = saved
        if not backs:      # no iteration completes from any state of the modified variables: plain code
            def again(s_): raise Unsupported('loop without completed iteration: ' + H)
            return self.loop_iter(st0, H, False, again)
        iv = {}
        for k in w:
            a = start.get(k, UNDEF); ds = set()
            for bst in backs:
                b = bst.slots.get(k, UNDEF)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r: d = sub(b.o, a.o, 64)
                elif isinstance(a, Lin) and isinstance(b, Lin) and a.w == b.w: d = sub(b, a, a.w)
                else: d = None
                ds.add(d if isinstance(d, int) else None)
            if len(ds) == 1 and None not in ds: iv[k] = ds.pop()
        n = fresh('n', 64, 0, 1 << 33)
        def at(nv, temps):
            s = st0.clone(); s.cond = ()
            for k in w:
                v0 = st0.slots.get(k, UNDEF)
                if k in iv:
                    d = iv[k]
                    if isinstance(v0, Ptr): s.slots[k] = Ptr(v0.r, add(v0.o, scale(nv, d, 64), 64))
                    else:
                        ww = names[k][1][1]
                        s.slots[k] = add(v0, scale(nv if ww == 64 else trunc(nv, ww), d, ww), ww)
                else: s.slots[k] = temps[k]
            return s
        temps = {k: self.havoc_like(st0.slots.get(k, UNDEF), names[k][0], names[k][1]) for k in w if k not in iv}
        UNK.update(str(c) for v in temps.values() if not isinstance(v, Undef) for x in (v if isinstance(v, list) else [v.o] if isinstance(v, Ptr) else [v]) if not isinstance(x, (int, Undef)) for c in _consts(x if z3.is_expr(x) else x.z))
        nd = len(DEFS); backs = []
        self.loop_iter(at(n, temps), H, True, lambda s: backs.append(s))
        if len(backs) != 1: raise Unsupported('loop with %d iteration paths: %s' % (len(backs), H))
        bst = backs[0]
        if len(DEFS) != nd: guard = True
        else:
            tz = set(x for v in temps.values() if not isinstance(v, Undef) for x in ([v] if isinstance(v, Lin) else v if isinstance(v, list) else [v.o] if isinstance(v, Ptr) else []) if isinstance(x, Lin) for x in x.t)
            guard = band(*[c for c in bst.cond if not self._mentions(c, tz)])
        new = {}
        for r, ls in bst.out.items():
            old = st0.out.get(r, ())
            if len(ls) > len(old): new[r] = ls[len(old):]
        na = n.single()
        summ = {}
        for r, ls in new.items():
            if len(ls) > 1:
                bs = []
                for L in ls:
                    if not isinstance(L.n, int) or sub(L.off, ls[0].off, 64) != len(bs): raise Unsupported('loop stores not contiguous: ' + H)
                    bs += [self.layer_value(L, k, None) for k in range(L.n)]
                L = make_store(ls[0].off, bs)
            else: L = ls[0]
            if not isinstance(L.n, int): raise Unsupported('loop store of symbolic size')
            D = L.off.t.get(na, 0) if isinstance(L.off, Lin) else 0
            if D == 0 or D > L.n: raise Unsupported('loop store stride %d width %r' % (D, L.n))
            off0 = sub(L.off, scale(n, D, 64), 64)
            fnv = z3.Function('sum!%d' % next(_ctr), z3.IntSort(), z3.IntSort())
            fnh = z3.Function('hav!%d' % next(_ctr), z3.IntSort(), BSORT)
            dep = lambda bs: any(isinstance(b, Lin) and self._mentions(b.z, {na}) for b in bs)
            if L.kind == 'copy' and not (isinstance(L.soff, Lin) and na in L.soff.t):       # the same bytes of the source in every iteration
                L = Layer('b', L.off, L.n, bytes=[self.layer_value(L, k, None) for k in range(L.n)])
            if L.kind == 'copy':
                if not isinstance(L.soff, Lin) or L.soff.t.get(na, 0) != D: raise Unsupported('copy source stride')
                s0 = sub(L.soff, scale(n, D, 64), 64)
                mkl = lambda nv, D=D, off0=off0, s0=s0, L=L: Layer('copy', off0, scale(nv, D, 64), src=L.src, soff=s0)
            elif L.kind == 'fill' and D % len(L.bytes) == 0 and not dep(L.bytes):
                mkl = lambda nv, D=D, off0=off0, L=L, fnv=fnv: Layer('fill', off0, scale(nv, D, 64), bytes=L.bytes, fn=fnv)
            elif L.kind == 'b' and D == L.n and not dep(L.bytes):
                mkl = lambda nv, D=D, off0=off0, L=L, fnv=fnv: Layer('fill', off0, scale(nv, D, 64), bytes=L.bytes, fn=fnv)
            else: raise Unsupported('loop store of kind %s (stride %d, width %d, period %s)' % (L.kind, D, L.n, L.bytes and len(L.bytes)))
            summ[r] = (mkl, off0, D, L.n, fnh)
        def with_layers(s, nv):
            for r, (mkl, off0, D, W, fnh) in summ.items():
                ls = ()
                if W > D: ls += (Layer('hav', add(off0, scale(nv, D, 64), 64), W - D, fn=fnh),)
                s.out[r] = st0.out.get(r, ()) + ls + (mkl(nv),)
            return s
        st = with_layers(at(n, temps), n)
        st.pc = st0.pc + ('loop:' + H,); st.cond = st0.cond
        self.push()
        prev = True if guard is True else z3.Or(n.z == 0, z3.substitute(ZB(guard), (ATOM[na], ATOM[na] - 1)))
        self.assume(n.z <= (1 << 33), prev)
        # a counter that runs down does not pass zero, where that is inductive
        down = []
        for k in iv:
            d = sym(iv[k], names[k][1][1]) if names[k][1][0] == 'int' else 0; v0 = st0.slots.get(k, UNDEF)
            if d < 0 and isinstance(v0, Lin) and within(v0, 0, (1 << 62)): down.append(lambda z, v0=v0, d=d: v0.z + d * z >= 0)
        if down:
            self.push(); self.assume(*[f(n.z) for f in down]); ok = [True]
            def probe(s): ok[0] = ok[0] and self.must(band(*[f(n.z + 1) for f in down]))
            self.loop_iter(with_layers(at(n, temps), n), H, True, probe); self.pop()
            if ok[0]: self.assume(*[f(n.z) for f in down])
        def back(s):
            self.oblige('loop-bound', n.z < (1 << 33), s, H)
            n1 = add(n, 1, 64)
            for k in iv:
                want = at(n1, temps).slots[k]
                self.oblige('loop-closure', same(want, s.slots[k]) or self.eqv(want, s.slots[k], names[k][1]), s, H)
            for r, (mkl, off0, D, W, fnh) in summ.items():
                x = fresh('x', 64, 0, 1 << 40); reg = self.regions[r] if r in self.regions else [q for q in self.regions.values() if q.name == r][0]
                nx = with_layers(at(n1, temps), n1)
                self.push()
                tail0 = add(off0, scale(n1, D, 64), 64)
                if W > D: self.assume(bnot(cmp('ult', sub(x, tail0, 64), W - D, 64)))
                a, b = self.read_byte(s, reg, x), self.read_byte(nx, reg, x)
                self.oblige('loop-closure', cmp_eq(a, b, 8), s, H)
                self.pop()
            for r in s.out:
                if r not in summ and s.out[r] is not st.out.get(r): raise Unsupported('unsummarised loop store')
        self.loop_iter(st, H, False, back)
        self.pop()
    def eqv(self, a, b, t):
        if isinstance(a, Ptr): return a.r is b.r and cmp_eq(a.o, b.o, 64)
        return cmp_eq(a, b, t[1])
    def _mentions(self, e, ids):
        if not ids or isinstance(e, bool): return False
        seen = set(); st = [e]
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if i in ids: return True
            st.extend(x.children())
        return False
