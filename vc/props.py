"""Property id -> functions under contract, obligations that decide it, native counterpart."""
import re
FAM = {   # family: (source file, function pattern, codec name pattern of the native harness)
    'extreme': ('rleX_extreme_cpu.c', r'rle(16|32|64)_(sym|byte)(_packed)?_'),
    'odd': (None, r'rle(24|48)_(sym|byte)(_packed)?_(?!short)'),
    'wide': ('rle128_extreme_cpu.c', r'rle128_'),
    'byte': ('rle8_extreme_cpu.c', r'rle8_|rle_'),
    'symlut': ('rleX_Xsl.c', r'_?rle'),
    'short': ('rleX_Xsl_short.c', r'_?rle'),
    'lowentropy': (None, r'rle8_low_entropy'),
    'sections': ('rle8_low_entropy_cpu.c', r'rle8m_'),
    'transform': (None, r'(bit)?mmtf'),
    'mmtf': ('rle8_mmtf.c', r'rle8_mmtf'),
    'huff': ('rle_sh.c', r'rle8_sh'),
}
SRC = {'odd': ['rle24_extreme_cpu.c', 'rle48_extreme_cpu.c'], 'lowentropy': ['rle8_low_entropy_cpu.c', 'rle8_low_entropy_short_cpu.c'], 'transform': ['mmtf.c', 'bit_mmtf.c']}
def sources(f): return SRC.get(f) or [FAM[f][0]]

REJECT = r'^(reject|returns-zero|rejects|rejecting|api:reject)'
ENC_MEM = r'^(store-in-bounds|store-to-readonly|result-within-bounds|inv:stream-size|inv:input-position|inv:run-length|inv:run-multiple|local-in-bounds|index-in-bounds|null-deref|non-null|token-inside|loop-closure|loop-bound|bounds:|api:call|token:single|token:run-length|token:maximal|flags:|info:saves-space|info:size|count:|call:arguments|call:section-size|returns-stream-size|inv:positions|covers-input|sections:|division-by-zero|size:|call:|block:|symbols:|token:(inside|position|operands|block)|header:|bits:|memcpy-overlap|covers-block)'
DEC_MEM = r'^(store-in-bounds|load-in-bounds|aligned-access|store-to-readonly|stream-position|output-position|position-variables|entry-positions|local-in-bounds|index-in-bounds|null-deref|non-null|loop-closure|loop-bound|frame|token-not-end|returns-only|api:call|call:|returns-positions|info:|read:|count:|search:|whole-stream|sections:|division-by-zero|header:|bits:|token:(pattern|block))'
ENC_READ = r'^(depends:|load-in-bounds|aligned-access|inv:input-position|inv:run-length|literals|run-is-input|well-formed-token|api:call|token:(inside|literals|symbol|run)|symbols:|block:|header:|bits:|call:block)'
HEADER = r'^(inv:declared-size|compressed-size-field|result-within-bounds|frame:earlier-stream|api:|size-query|layout$|returns-stream-size|returns-declared-size)'
SIZE = r'^(token:maximal|flags:saves-space|info:saves-space|count:(open|closed|other|all|run-symbols)|size:|call:(space|worth))'      # obligations only the size of a stream depends on
def notrej(n): return not re.match('depends:', n) and not re.match(REJECT, n) and not re.match(SIZE, n)

ALL = list(FAM)
P = {}
def prop(pid, fams, kinds, pick, decides=lambda kind, ob: notrej(ob), secs=45): P[pid] = dict(fams=fams, kinds=kinds, pick=pick, decides=decides, secs=secs)
RT = 'roundtrip,hang'
any_ = lambda kind: True
prop('C01', ['extreme'], RT, any_)
prop('C02', ['odd'], RT, any_)
prop('C03', ['wide'], RT, any_)
prop('C04', ['byte'], RT, any_)
prop('C05', ['symlut'], RT, any_)
prop('C06', ['short'], RT, any_)
prop('C07', ['lowentropy'], RT, any_)
prop('C08', ['sections'], RT, any_)
prop('C09', ['transform'], RT + ',enc-write,dec-write', any_)
prop('C10', ['mmtf'], RT, any_)
prop('C11', ['huff'], RT, any_)
prop('C12', ALL, 'enc-write', lambda k: k in ('enc', 'bounds', 'apic'), lambda k, ob: bool(re.match(ENC_MEM, ob)))
prop('C13', ALL, 'dec-write,dec-read', lambda k: k in ('dec', 'apid'), lambda k, ob: bool(re.match(DEC_MEM, ob)))
prop('C14', ALL, 'reject', lambda k: k in ('enc', 'apic', 'apid'), lambda k, ob: bool(re.match(REJECT, ob)))
prop('C15', ALL, 'depends,enc-read', lambda k: k in ('enc', 'apic'), lambda k, ob: bool(re.match(ENC_READ, ob)))
prop('C16', ALL, 'header', lambda k: k in ('enc', 'apic', 'apid'), lambda k, ob: bool(re.match(HEADER, ob)))
