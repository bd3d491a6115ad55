import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ['public compress/decompress functions declared in src/rle.h'],hook_needed=None)))
RT='Whatever non-empty input up to 1 GiB is given, compressing it with a %s codec into a buffer of the advertised size succeeds, and decompressing the resulting stream with the matching decompressor reproduces the input byte for byte and reports its length. This holds for every instruction-set level the encoder or the decoder may select, in any combination.'
W='The tests push a fixed set of generated buffers through the codecs; the guarantee quantifies over all inputs (every alignment of runs against vector width, every run length around the count encodings, every literal length around the one-byte limits) and all dispatch levels, of which a suite samples a handful.'
Q='all inputs of 1 byte to 1 GiB, all SIMD dispatch levels for encoder and decoder independently, all buffer alignments'
p('C01','16, 32 and 64 bit run length codecs are lossless',RT%'16, 32 or 64 bit (symbol or byte aligned, plain or packed)',['inputs','configurations'],Q,W,['src/rleX_extreme_cpu.c','src/rleX_extreme_cpu.h','src/rleX_extreme_cpu_encode.h','src/rleX_extreme_cpu_decode.h','src/rleX_extreme_common.h'],[('run detection and token emission','src/rleX_extreme_cpu_encode.h'),('token decoding, literal copy and run fill','src/rleX_extreme_cpu_decode.h'),('copy / fill primitives','src/rleX_extreme_common.h')])
p('C02','24 and 48 bit run length codecs are lossless',RT%'24 or 48 bit (symbol or byte aligned, plain or packed)',['inputs','configurations'],Q,W,['src/rle24_extreme_cpu.h','src/rle24_extreme_cpu_encode.h','src/rle24_extreme_cpu_decode.h','src/rle48_extreme_cpu.h','src/rle48_extreme_cpu_encode.h','src/rle48_extreme_cpu_decode.h'],[('run detection with symbols that do not divide the vector width','src/rle24_extreme_cpu_encode.h, src/rle48_extreme_cpu_encode.h'),('three-vector periodic fill','src/rle24_extreme_cpu_decode.h, src/rle48_extreme_cpu_decode.h')])
p('C03','128 bit run length codecs are lossless',RT%'128 bit (symbol or byte aligned, plain or packed)',['inputs','configurations'],Q,W,['src/rle128_extreme_cpu.c','src/rle128_extreme_cpu.h','src/rleX_extreme_common.h'],[('encoder and decoders','src/rle128_extreme_cpu.h')])
p('C04','8 bit run length codecs are lossless',RT%'8 bit extreme (multi symbol, single symbol, plain, packed, low entropy aware)',['inputs','configurations'],Q,W,['src/rle8_extreme_cpu.c','src/rle8_extreme_cpu.h','src/rleX_extreme_common.h'],[('encoders, single-symbol choice, decoders','src/rle8_extreme_cpu.h'),('copy / fill primitives','src/rleX_extreme_common.h')])
p('C05','3 and 7 symbol lookup codecs are lossless',RT%'symbol-lookup (3 or 7 remembered symbols, 8 to 64 bit, symbol or byte aligned)',['inputs','configurations'],Q+'; all reachable states of the remembered-symbol table',W,['src/rleX_Xsl.c','src/rleX_Xsl.h','src/rleX_Xsl_multibyte_encoder.h','src/rleX_extreme_common.h'],[('symbol table update in encoder and decoder','src/rleX_Xsl.h, src/rleX_Xsl_multibyte_encoder.h'),('16 bit token header and its escapes','src/rleX_Xsl.h')])
p('C06','Short-header lookup codecs, greedy included, are lossless',RT%'short-header (0, 1, 3 or 7 remembered symbols, 8 to 64 bit, symbol or byte aligned, single symbol and greedy variants)',['inputs','configurations'],Q+'; all reachable states of the remembered-symbol table',W,['src/rleX_Xsl_short.c','src/rleX_Xsl_short.h','src/rleX_Xsl_short_multibyte_encoder.h'],[('7 bit token header and its escapes','src/rleX_Xsl_short.h'),('greedy symbol selection','src/rleX_Xsl_short_multibyte_encoder.h')])
p('C07','Low entropy codecs are lossless',RT%'low entropy (normal, ultra, short, single symbol)',['inputs','configurations'],'all inputs of 1 byte to 1 GiB, including all 256 symbols being worth run length encoding and none, all SIMD dispatch levels',W,['src/rle8_low_entropy_cpu.c','src/rle8_low_entropy_short_cpu.c'],[('symbol statistics, info header, encoder and decoder','src/rle8_low_entropy_cpu.c, src/rle8_low_entropy_short_cpu.c')])
p('C08','The multi-section low entropy codec is lossless',"For every input up to 1 GiB and every number of sections, compressing with the multi-section low entropy codec either refuses (reports zero) or produces a stream that its decompressor expands back to exactly the input. Every section's start offset in the stream header is the one the decompressor uses.",['inputs','configurations'],'all inputs, all section counts','The tests use a few section counts on fixed data; runs and literals crossing section boundaries at every offset, inputs shorter than the number of sections and unbalanced sections are never enumerated.',['src/rle8_low_entropy_cpu.c'],[('section table and per-section encode/decode','src/rle8_low_entropy_cpu.c (rle8m_*)')])
p('C09','Move-to-front transforms are invertible and stay in their buffers',"For every input length and content, undoing a move-to-front transform (128 and 256 bit lanes, byte and bit-plane variants) restores the input byte for byte. Both directions read only the input, write exactly the given number of output bytes, and give the same result on every instruction-set level and on this platform's plain and vector code alike.",['inputs','configurations'],'all inputs including lengths that are not a multiple of the lane count','The tests run whole codecs on fixed sizes; lane remainders, symbol orders and table states are not enumerated.',['src/mmtf.c','src/bit_mmtf.c'],[('table search and rotation per lane, tail handling','src/mmtf.c, src/bit_mmtf.c')])
p('C10','The move-to-front run length codec is lossless','For every non-empty input, compressing with the move-to-front run length codec into a buffer of the advertised size and decompressing gives back exactly the input and its length.',['inputs','configurations'],'all inputs, all dispatch levels',W,['src/rle8_mmtf.c'],[('fused transform + run length encoder and decoder','src/rle8_mmtf.c')])
p('C11','The run length + entropy coded codec is lossless','For every non-empty input, compressing with the run length codec that entropy codes its parts into a buffer of the advertised size and decompressing gives back exactly the input and its length.',['inputs','configurations'],'all inputs, all symbol histograms (including those whose code lengths hit the maximum)',W,['src/rle_sh.c','src/bitpack.h'],[('separate streams for counts, ranges, symbols and literals; bit packing','src/rle_sh.c')])
p('C12','Compressors never write outside the output the caller provided','For every input, a compressor given an output buffer of at least the size its bounds function reports writes only inside that buffer and returns a size not larger than it.',['inputs','configurations'],'all inputs including incompressible ones and the worst-case expansion of every format, all dispatch levels','Expansion is worst for specific adversarial inputs (runs exactly at the break-even length, alternating symbols); the tests only round-trip ordinary data into oversized buffers and never look behind the end.',['src/rle8_extreme_cpu.h','src/rleX_extreme_cpu_encode.h','src/rleX_Xsl.h','src/rleX_Xsl_short.h','src/rle8_low_entropy_cpu.c','src/rle_sh.c','src/rle8_mmtf.c'],[('bounds functions and the profitability conditions that keep a token no longer than what it replaces','src/rleX_extreme_common.h, encoders')])
p('C13','Decompressors stay inside the stream and the padded output','Decompressing any stream produced by the matching compressor reads only the stream (plus the fixed over-read margin of 64 bytes) and writes only the declared output size plus the advertised 128 bytes of slack. Bytes of the output outside that range are never touched.',['inputs','configurations'],'all valid streams (all inputs), all dispatch levels, all buffer alignments','Guard checks behind the margins for every token length, alignment and tail are not something the tests do; they compare contents only.',['src/rleX_extreme_common.h','src/rleX_extreme_cpu_decode.h','src/rle8_extreme_cpu.h','src/rleX_Xsl.h','src/rleX_Xsl_short.h','src/rle8_low_entropy_cpu.c','src/rle_sh.c'],[('wide copy and fill loops with bounded overshoot','src/rleX_extreme_common.h')])
p('C14','Unusable arguments are rejected without side effects','A compressor called with a missing buffer, an empty input or an output smaller than its bounds function reports for that input size, and a decompressor called with a missing buffer, an empty stream, a stream shorter than the compressed size it declares (where the format stores one), or an output smaller than the size the stream declares, returns zero and writes nothing. Inputs above the supported maximum size count as unusable.',['inputs','configurations'],'all argument combinations including sizes near the 32 bit limits','The tests never call the functions with unusable arguments.',['src/rle.h','src/rleX_extreme_cpu.h','src/rle8_extreme_cpu.h','src/rleX_Xsl.h','src/rleX_Xsl_short.h','src/rle8_low_entropy_cpu.c','src/rle8_mmtf.c','src/rle_sh.c'],[('argument checks at function entry','all public entry points')])
p('C15','A stream depends only on the input bytes',"Compressing the same input bytes always yields the same stream: the result does not depend on what lies before or after the input in memory, on uninitialised memory or on the output buffer's previous content. Compressors may look at most a few symbols (never more than 64 bytes) past the end of the input and never act on what they see there.",['inputs','histories'],'all inputs and all contents of the memory around them','Tests compress each buffer once in one memory surrounding; a decision taken on bytes behind the input still round-trips most of the time.',['src/rleX_extreme_cpu_encode.h','src/rle24_extreme_cpu_encode.h','src/rle48_extreme_cpu_encode.h','src/rle128_extreme_cpu.h','src/rleX_Xsl_multibyte_encoder.h','src/rleX_Xsl_short_multibyte_encoder.h'],[('end-of-input conditions in the scan loops','encoders')])
p('C16','Stream headers declare the true sizes','Every stream a compressor returns starts with the uncompressed size, which equals the input size, and, in the formats that store it, the compressed size, which equals the returned size. The size query functions report the same values.',['inputs','configurations'],'all inputs and codecs','The decompressors use the fields only for buffer checks, so a wrong field passes round-trip tests whenever the buffers are large enough.',['src/rle.h','src/rleX_extreme_cpu_encode.h','src/rle8_extreme_cpu.h','src/rleX_Xsl.h','src/rleX_Xsl_short.h','src/rle8_low_entropy_cpu.c','src/rle8_mmtf.c','src/rle_sh.c'],[('header written at entry, compressed size back-patched at exit','encoders')])
p('C17','The OpenCL decoder agrees with the CPU decoder','For every multi-section stream the OpenCL decoder produces the same output as the CPU decoder.',['inputs','configurations'],'all streams, all devices','No OpenCL device is available to the tests; the code is compiled out.',['src/rle8_ocl.c','src/rle8_ocl_kernel.h'],[('device kernel','src/rle8_ocl_kernel.h')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
