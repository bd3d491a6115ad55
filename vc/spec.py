"""Token grammars of the stream formats: the abstract decoder every encoder and decoder is verified against.

A grammar is a function  tok(c, s) -> dict  reading bytes of the stream at the token's position:
  c.u8(k) / c.u16(k) / c.u32(k): value at token offset k as a 64 bit number, c.byte(k): raw byte, c.choose(cond): case distinction
  s: the decoder's symbol memory (list of symbols, each a list of bytes)
result: h = header length, L = literal bytes following the header, C = run length in bytes, sym = bytes of the run symbol,
        st = new symbol memory, end = False | True (the stream ends after this token's literals and run)
"""
from symex import *

def bounds_rle(n):
    """contract of rle_compress_bounds (verified separately against its body)"""
    if isinstance(n, int): return 0 if n > (1 << 30) else n + 193
    return bite(cmp('ugt', n, 1 << 30, 64), 0, add(n, 193, 64), 64)

class Codec:
    H = 8; size_at = 0; csize_at = 4; max_in = 1 << 30; partial = single = False; fin = None; skip = 0
    bounds = staticmethod(bounds_rle)
    def __init__(self, **k): self.__dict__.update(k)

def rlex_extreme(S, unbound, packed):
    """16/24/32/48/64/128 bit 'extreme' codecs"""
    seven = packed and unbound        # PREFER_7_BIT_OR_4_BYTE_COPY
    mn = 3 if packed else S + 4          # RLEX_EXTREME_MULTI_MIN_RANGE_SHORT
    def tok(c, st):
        p = 0
        if not packed:
            sym = [c.byte(k) for k in range(S)]; p = S
            cnt = c.u8(p); p += 1
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
        else:
            b = c.byte(0); p = 1
            same_ = cmp('uge', b, 0x80, 8)
            cnt = zext(band_bits(b, 0x7f, 8), 8, 64)
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
            if c.choose(same_): sym = st[0]
            else:
                sym = [c.byte(p + k) for k in range(S)]; p += S
        if seven:
            off = c.u8(p)
            if c.choose(cmp_eq(band_bits(off, 1, 64), 1, 64)):
                off = lshr(c.u32(p), 1, 64); p += 4
                if c.choose(cmp_eq(off, 0, 64)): return dict(h=p, L=0, C=0, sym=sym, st=[sym], end=True)
            else:
                p += 1; off = lshr(off, 1, 64)
                if S == 16 and c.choose(band(cmp_eq(off, 0, 64), cmp_eq(cnt, 0, 64))):       # end marker of the 128 bit variant: one zero byte and a zero word
                    c.require(cmp_eq(c.u32(p), 0, 64))
                    return dict(h=p + 4, L=0, C=0, sym=sym, st=[sym], end=True)
                c.require(bnot(cmp_eq(off, 0, 64)))
        else:
            off = c.u8(p); p += 1
            if c.choose(cmp_eq(off, 0, 64)):
                off = c.u32(p); p += 4
                if c.choose(cmp_eq(off, 0, 64)): return dict(h=p, L=0, C=0, sym=sym, st=[sym], end=True)
        return fin(c, p, off, cnt, sym, st)
    def fin(c, p, off, cnt, sym, st):
        if c.partial: return dict(h=p, off=off, cnt=cnt, sym=sym, st=[sym], end=None)
        c.require(cmp('uge', off, 1, 64))
        L = sub(off, 1, 64)
        if c.choose(cmp_eq(cnt, 0, 64)): return dict(h=p, L=L, C=0, sym=sym, st=[sym], end=True)
        C = add(cnt, mn - 1, 64) if unbound else scale(add(cnt, mn // S - 1, 64), S, 64)
        return dict(h=p, L=L, C=C, sym=sym, st=[sym], end=False)
    return Codec(S=S, tok=tok, fin=fin, init=[[0] * S] if packed else [], unbound=unbound, H=8, carries=packed, min_run=2 * S)

def rle8_extreme(packed, single):
    """8 bit 'extreme' codecs; the stream header has a mode byte, the single symbol format the symbol behind it"""
    seven = packed and not single
    mn = (2 if packed else 4) if single else (3 if packed else 6)
    def tok(c, st):
        p = 0
        if single:
            sym = st[0]; cnt = c.u8(0); p = 1
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
        elif not packed:
            sym = [c.byte(0)]; cnt = c.u8(1); p = 2
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
        else:
            b = c.byte(0); p = 1; same_ = cmp('uge', b, 0x80, 8)
            cnt = zext(band_bits(b, 0x7f, 8), 8, 64)
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
            if c.choose(same_): sym = st[0]
            else: sym = [c.byte(p)]; p += 1
        if seven:
            off = c.u8(p)
            if c.choose(cmp_eq(band_bits(off, 1, 64), 1, 64)):
                off = lshr(c.u32(p), 1, 64); p += 4
                if c.choose(cmp_eq(off, 0, 64)): return dict(h=p, L=0, C=0, sym=sym, st=[sym], end=True)
            else:
                p += 1; off = lshr(off, 1, 64); c.require(bnot(cmp_eq(off, 0, 64)))
        else:
            off = c.u8(p); p += 1
            if c.choose(cmp_eq(off, 0, 64)):
                off = c.u32(p); p += 4
                if c.choose(cmp_eq(off, 0, 64)): return dict(h=p, L=0, C=0, sym=sym, st=[sym], end=True)
        return fin(c, p, off, cnt, sym, st)
    def fin(c, p, off, cnt, sym, st):
        if c.partial: return dict(h=p, off=off, cnt=cnt, sym=sym, st=[sym], end=None)
        c.require(cmp('uge', off, 1, 64))
        L = sub(off, 1, 64)
        if c.choose(cmp_eq(cnt, 0, 64)): return dict(h=p, L=L, C=0, sym=sym, st=[sym], end=True)
        return dict(h=p, L=L, C=add(cnt, mn - 1, 64), sym=sym, st=[sym], end=False)
    return Codec(S=1, tok=tok, fin=fin, init=[[0]] if packed and not single else [], unbound=True, H=10 if single else 9, mode=1 if single else 0, carries=packed and not single, single=single, min_run=2)

LUT = (0x00, 0x7F, 0xFF, 0x01, 0x7E, 0x80, 0xFE)
def mtf(st, idx, sym=None):
    """move-to-front symbol table; idx == len(st): a new symbol pushes the last one out"""
    n = len(st)
    if idx == n: return [sym] + st[:n - 1]
    return [st[idx]] + st[:idx] + st[idx + 1:]
def symlut(S, unbound, SC):
    """3 / 7 symbol lookup codecs (rleX_Xsl.h): 16 bit packed header, move-to-front symbol table"""
    RB, IB = {3: (7, 14), 7: (6, 13)}[SC]
    def tok(c, st):
        v = c.u16(0); p = 2
        off = band_bits(v, (1 << RB) - 1, 64); cnt = band_bits(lshr(v, RB, 64), 127, 64); ix = lshr(v, IB, 64)
        idx = next((k for k in range(SC) if c.choose(cmp_eq(ix, k, 64))), SC)
        new = None
        if idx == SC: new = [c.byte(p + k) for k in range(S)]; p += S
        st = mtf(st, idx, new); sym = st[0]
        if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
        elif c.choose(cmp_eq(cnt, 1, 64)): cnt = c.u16(p); p += 2
        if c.choose(cmp_eq(off, 0, 64)): off = c.u32(p); p += 4
        elif c.choose(cmp_eq(off, 1, 64)):
            off = c.u16(p); p += 2
            if c.choose(cmp_eq(off, 0, 64)): return dict(h=p, L=0, C=0, sym=sym, st=st, end=True)
        return fin(c, p, off, cnt, sym, st)
    def fin(c, p, off, cnt, sym, st):
        c.require(cmp('uge', off, 2, 64))
        if c.partial: return dict(h=p, off=off, cnt=cnt, sym=sym, st=st, end=None)
        L = sub(off, 2, 64)
        if c.choose(cmp_eq(cnt, 0, 64)): return dict(h=p, L=L, C=0, sym=sym, st=st, end=True)
        c.require(cmp('uge', cnt, 2, 64))
        C = add(cnt, 1, 64) if unbound or S == 1 else scale(sub(cnt, 2 - 3 // S, 64), S, 64)
        return dict(h=p, L=L, C=C, sym=sym, st=st, end=False)
    return Codec(S=S, tok=tok, fin=fin, init=[[b] * S for b in LUT[:SC]], unbound=unbound, H=8, carries=True, min_run=2 * S)

def short(S, unbound, SC, single=False):
    """short header lookup codecs (rleX_Xsl_short.h): one byte packed header, three byte header with escapes; SC remembered symbols"""
    LB, CB, RP, RB = {7: (3, 2, 3, 9), 3: (2, 3, 3, 10), 1: (1, 3, 4, 11), 0: (0, 4, 4, 11)}[SC]
    inv = (1 << CB) - 1; mn = 2 if SC or single else S + 2
    def tok(c, st):
        v1 = c.u8(0); p = 1; low = band_bits(v1, (1 << RP) - 1, 64)
        idx = 0
        if SC:
            ix = lshr(v1, CB + RP, 64); idx = next((k for k in range(SC) if c.choose(cmp_eq(ix, k, 64))), SC)
        c3 = band_bits(lshr(v1, RP, 64), inv, 64)
        if c.choose(cmp_eq(c3, inv, 64)):
            v2, v3 = c.u8(1), c.u8(2); p = 3
            cnt = add(lshr(v2, RB - 8, 64), shl(low, 16 - RB, 64), 64); off = add(v3, shl(band_bits(v2, (1 << (RB - 8)) - 1, 64), 8, 64), 64)
            if c.choose(cmp_eq(cnt, 0, 64)): cnt = c.u32(p); p += 4
            elif c.choose(cmp_eq(cnt, 1, 64)): cnt = c.u16(p); p += 2
            if c.choose(cmp_eq(off, 0, 64)): off = c.u32(p); p += 4
            elif c.choose(cmp_eq(off, 1, 64)):
                off = c.u16(p); p += 2
                if c.choose(cmp_eq(off, 0, 64)): return dict(h=p + (1 if SC == 0 and not single else 0), L=0, C=0, sym=st[0] if st else [0] * S, st=st, end=True)
        else: cnt, off = add(c3, 2, 64), add(low, 2, 64)
        if single: sym = st[0]
        elif SC == 0: sym = [c.byte(p + k) for k in range(S)]; p += S
        else:
            new = None
            if idx == SC: new = [c.byte(p + k) for k in range(S)]; p += S
            st = mtf(st, idx, new); sym = st[0]
        return fin(c, p, off, cnt, sym, st)
    def fin(c, p, off, cnt, sym, st):
        c.require(cmp('uge', off, 2, 64))
        if c.partial: return dict(h=p, off=off, cnt=cnt, sym=sym, st=st, end=None)
        L = sub(off, 2, 64)
        if c.choose(cmp_eq(cnt, 0, 64)): return dict(h=p, L=L, C=0, sym=sym, st=st, end=True)
        c.require(cmp('uge', cnt, 2, 64))
        C = add(cnt, mn - 2, 64) if unbound or S == 1 else scale(add(cnt, mn // S - 2, 64), S, 64)
        return dict(h=p, L=L, C=C, sym=sym, st=st, end=False)
    return Codec(S=S, tok=tok, fin=fin, init=[[b] * S for b in LUT[:SC]], unbound=unbound or S == 1, H=9 if single else 8, carries=SC > 0, single=single, min_run=2 * S, skip=1 if single else 0)
