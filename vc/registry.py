"""Which contract each function of the repository carries."""
import re, spec, contracts, hoare, sh

SIMD = r'(base|sse|sse2|ssse3|sse41|avx|avx2|avx512f)'
def is_contract(name, line):
    """functions that keep a contract of their own; everything else is inlined into its callers by the extraction"""
    return sig(line) is not None and (lookup(name) is not None or bool(re.match(OPEN, name)))
OPEN = r'rle8_(packed_)?single_compress|rle8_mmtf\d+_(de)?compress'         # no contract in reach (yet): not inlined into their callers
def sig(line):
    m = re.search(r'@[-\w$.]+\((.*?)\)(?: #| local| unnamed|\s*\{|\s+"vc)', line)
    if not m: return None
    ps = [p for p in m.group(1).split(',') if p.strip()]
    ty = tuple(p.strip().split()[0] for p in ps)
    ret = 'void' if re.search(r'\bvoid @', line) else 'i32' if re.search(r'\bi32 @', line) else None
    if ret == 'i32' and ty in (('ptr', 'i32', 'ptr', 'i32'), ('i32',), ()): return 'api'
    if re.search(r'zeroext i8 @', line) and ty == ('ptr', 'i64'): return 'choice'
    if re.search(r'zeroext i1 @', line) and ty == ('ptr', 'ptr', 'i64', 'ptr'): return 'emit'
    if re.search(r'low_entropy|rle8m|@(bit)?mmtf|@rle8_sh_', line.split('(')[0]): return 'le'
    if ret == 'void' and ty in (('ptr', 'ptr'), ('ptr', 'ptr', 'i8')): return 'dec'
    return None

def lookup(fn):
    """(kind, contract factory) of a function, or None"""
    m = re.match(r'rle(16|24|32|48|64|128)_(sym|byte)(_packed)?_(compress|decompress)(?:_%s)?$' % SIMD, fn)
    if m:
        S = int(m.group(1)) // 8; cd = spec.rlex_extreme(S, m.group(2) == 'byte', bool(m.group(3)))
        stem = fn[:-len(m.group(5)) - 1] if m.group(5) else fn
        if m.group(4) == 'decompress': return ('dec', lambda: contracts.Decoder(cd)) if m.group(5) else ('apid', lambda: contracts.ApiDecompress(cd, r'%s_%s$' % (stem, SIMD)))
        if m.group(5) or S == 16: return ('enc', lambda: contracts.Encoder(cd, in_slack=2 * S))
        return ('apic', lambda: contracts.ApiCompress(cd, r'%s_%s$' % (stem, SIMD)))
    m = re.match(r'rle8(_packed)?_(multi|single)_compress$', fn)
    if m:
        cd = spec.rle8_extreme(bool(m.group(1)), m.group(2) == 'single')
        return ('enc', lambda: contracts.Encoder8(cd, in_slack=64)) if not cd.single else None
    m = re.match(r'rle8(_packed)?_decompress_(multi|single)_%s$' % SIMD, fn)
    if m:
        cd = spec.rle8_extreme(bool(m.group(1)), m.group(2) == 'single')
        return ('dec', lambda: contracts.Decoder8Single(cd) if cd.single else contracts.Decoder(cd))
    m = re.match(r'rle8(_packed)?_decompress$', fn)
    if m:
        cd = spec.rle8_extreme(bool(m.group(1)), False)
        return ('apid', lambda: contracts.ApiDecompress8(cd, r'%s_(multi|single)_%s$' % (fn, SIMD)))
    m = re.match(r'_?rle(8|16|24|32|48|64)_(3|7)symlut_(?:(sym|byte)_)?(compress|decompress|process_symbol)(?:_%s)?$' % SIMD, fn)
    if m:
        mem = ['lastSymbols[%d]' % k for k in range(int(m.group(2)))]
        S = int(m.group(1)) // 8; SC = int(m.group(2)); cd = spec.symlut(S, m.group(3) == 'byte', SC); simd = m.group(5)
        stem = fn[:-len(simd) - 1] if simd else fn
        if m.group(4) == 'decompress': return ('dec', lambda: contracts.DecoderLut(cd)) if simd else ('apid', lambda: contracts.ApiDecompress(cd, r'%s_%s$' % (stem, SIMD)))
        if m.group(4) == 'process_symbol': return ('enc', lambda: contracts.Emit(cd, in_slack=0, mem=mem))
        if simd or S == 1: return ('enc', lambda: contracts.Encoder(cd, in_slack=2 * S if S > 1 else 0, mem=mem))
        return ('apic', lambda: contracts.ApiCompress(cd, r'%s_%s$' % (stem, SIMD)))
    m = re.match(r'_?rle(8|16|24|32|48|64)_(?:(1|3|7)symlut_|(multi|single)_)?(?:(sym|byte)_)?short_(compress_greedy|compress|decompress|process_symbol)(?:_%s)?$' % SIMD, fn)
    if m:
        SC = int(m.group(2) or 0); mem = ['lastSymbol'] if SC == 1 else ['lastSymbols[%d]' % k for k in range(SC)]
        S = int(m.group(1)) // 8; cd = spec.short(S, m.group(4) == 'byte', SC, m.group(3) == 'single'); simd = m.group(6); what = m.group(5)
        stem = fn[:-len(simd) - 1] if simd else fn
        dec = contracts.DecoderStreamSymbol if cd.single else contracts.DecoderLut if SC else contracts.Decoder
        if what == 'decompress': return ('dec', lambda: dec(cd)) if simd else ('apid', lambda: contracts.ApiDecompress(cd, r'%s_%s$' % (stem, SIMD)))
        if what == 'process_symbol': return ('enc', lambda: contracts.Emit(cd, in_slack=0, mem=mem))
        if simd or S == 1 or what == 'compress_greedy': return ('enc', lambda: (contracts.EncoderStreamSymbol if cd.single else contracts.Encoder)(cd, in_slack=2 * S if S > 1 else 0, mem=mem))
        return ('apic', lambda: contracts.ApiCompress(cd, r'%s_%s$' % (stem, SIMD)))
    m = re.match(r'rle8_low_entropy_(short_)?compress_with_info$', fn)
    if m: return ('enc', lambda: hoare.LECompressWithInfo(hoare.LE(31 if m.group(1) else 254)))
    m = re.match(r'rle8_low_entropy_(short_)?decompress_(single|multi)_(sse|avx2?)$', fn)
    if m: return ('dec', lambda: hoare.LEPiece(hoare.LE(31 if m.group(1) else 254), m.group(2) == 'single'))
    m = re.match(r'(rle8_low_entropy_(short_)?decompress)_with_info$', fn)
    if m: return ('dec', lambda: hoare.LEDecompressWithInfo(hoare.LE(31 if m.group(2) else 254), m.group(1)))
    m = re.match(r'rle8_low_entropy_(short_)?get_compress_info', fn)
    if m: return ('enc', lambda: hoare.LEGetInfo(hoare.LE(31 if m.group(1) else 254)))
    if fn == 'rle8_low_entropy_write_compress_info': return ('enc', hoare.LEWriteInfo)
    if fn == 'rle8_low_entropy_read_decompress_info': return ('dec', hoare.LEReadInfo)
    m = re.match(r'rle8_low_entropy_(short_)?compress(_only_max_frequency)?$', fn)
    if m: return ('apic', lambda: hoare.LEApiCompress(hoare.LE(31 if m.group(1) else 254)))
    m = re.match(r'rle8_low_entropy_(short_)?decompress$', fn)
    if m: return ('apid', lambda: hoare.LEApiDecompress(hoare.LE(31 if m.group(1) else 254)))
    if re.match(r'rle8_low_entropy_(short_)?decompressed_size$', fn): return ('apid', hoare.LESizeQuery)
    if re.match(r'rle8_low_entropy_(short_)?compress_bounds$', fn): return ('bounds', lambda: contracts.Bounds(lambda n: contracts.bite(contracts.cmp('ule', n, (1 << 32) - 298, 64), contracts.add(n, 297, 64), 0, 64)))
    m = re.match(r'mmtf(128|256)_(encode|decode)_(un)?aligned(?:_%s)?$' % SIMD, fn)
    if m: return ('enc' if m.group(2) == 'encode' else 'dec', lambda: hoare.Mtf(int(m.group(1)) // 8, m.group(2) == 'encode', 0 if m.group(3) else int(m.group(1)) // 8))
    m = re.match(r'mmtf(128|256)_(encode|decode)$', fn)
    if m: return ('apic' if m.group(2) == 'encode' else 'apid', lambda: hoare.MtfApi(fn))
    m = re.match(r'bitmmtf(8|16)_(encode|decode)$', fn)
    if m: return ('enc' if m.group(2) == 'encode' else 'dec', lambda: hoare.BitMtf(int(m.group(1)) // 8, m.group(2) == 'encode'))
    if re.match(r'(bit)?mmtf_bounds$', fn): return ('bounds', lambda: contracts.Bounds(lambda n: n))
    if fn == 'rle8_sh_write_bits': return ('enc', sh.ShWrite)
    if fn == 'rle8_sh_consume_bits': return ('dec', sh.ShConsume)
    if fn == 'rle8_sh_copy': return ('enc', sh.ShCopy)
    if fn == 'rle8_sh_compress': return ('apic', sh.ShCompress)
    if fn == 'rle8_sh_decompress': return ('apid', sh.ShDecompress)
    if fn == 'rle8_sh_bounds': return ('bounds', lambda: contracts.Bounds(sh.bounds))
    if fn == 'rle8_sh_encoded_copy': return ('enc', sh.ShEncCopy)
    if fn == 'rle8m_compress': return ('apic', lambda: hoare.SecCompress(hoare.LE(254)))
    if fn == 'rle8m_decompress': return ('apid', lambda: hoare.SecDecompress(hoare.LE(254)))
    if fn == 'rle8m_compress_bounds': return ('bounds', hoare.SecBounds)
    if fn == 'rle_compress_bounds': return ('bounds', lambda: contracts.Bounds(spec.bounds_rle))
    if fn == 'rle_decompress_additional_size': return ('bounds', lambda: contracts.Bounds(128))
    return None

def counts(fn):
    """a function of the repository that belongs under contract"""
    return bool(re.search(r'compress|encode|decode|bounds', fn))
def cost(fn):
    m = re.search(r'rle(\d+)', fn)
    return (1000 if 'greedy' in fn and '7symlut' in fn else 0) + (int(m.group(1)) if m else 8) * (3 if 'decompress' not in fn else 1)
