"""Mechanical extraction: /repo/src/X.c --clang--> LLVM IR, keeping every local variable as a named memory slot.

What the extraction does, on every run, from the current working tree:
  1. clang-18 -O0 -fno-discard-value-names with the code-relevant flags of the project's own build.
  2. compiler intrinsics (the always_inline functions of <immintrin.h>) are cleaned by sroa/instcombine/early-cse and inlined;
     the project's functions are untouched by those passes (optnone) - they keep their source-level shape.
  3. helpers, i.e. defined functions that carry no contract of their own, are inlined into their callers.
Debug info is used only to recover the field names of structs.
"""
import os, re, subprocess, tempfile, hashlib
SRC = os.environ.get('VC_SRC', '/repo/src')
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-m64', '-mxsave', '-ffast-math', '-DSSE2',
          '-D_CRT_SECURE_NO_WARNINGS', '-w', '-S', '-emit-llvm']

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stderr[-2000:]))
    return p.stdout

def struct_fields(text):
    """struct typedef name -> [(field name, byte offset, byte size)] from the debug info"""
    md = {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?(!DI\w+\(.*\)|!\{.*\})$', text, re.M):
        md[m.group(1)] = m.group(2)
    out = {}
    def fld(s, k):
        m = re.search(r'\b%s: ("([^"]*)"|![0-9]+|[\w]+)' % k, s)
        return None if not m else (m.group(2) if m.group(2) is not None else m.group(1))
    def composite(n):
        s = md.get(n, '')
        if 'DW_TAG_structure_type' not in s: return None
        el = fld(s, 'elements')
        if not el: return None
        r = []
        for e in re.findall(r'!(\d+)', md.get(el[1:], '')):
            es = md.get(e, '')
            if 'DW_TAG_member' in es:
                r.append((fld(es, 'name') or '', int(fld(es, 'offset') or 0) // 8, int(fld(es, 'size') or 0) // 8))
        return r
    for n, s in md.items():
        if s.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
            b = fld(s, 'baseType')
            if b:
                c = composite(b[1:])
                if c: out['%struct.' + fld(s, 'name')] = c
        elif 'DW_TAG_structure_type' in s and fld(s, 'name'):
            c = composite(n)
            if c: out['%struct.' + fld(s, 'name')] = c
    return out

def extract(src, is_contract, extra=()):
    """returns (ir text, struct field map). is_contract(name, header line) -> keep the function separate."""
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    with tempfile.TemporaryDirectory(prefix='vcx') as d:
        raw = os.path.join(d, 'raw.ll')
        sh(['clang-18'] + CFLAGS + list(extra) + [path, '-I', SRC, '-o', raw])
        text = open(raw).read()
        fields = struct_fields(text)
        attr = {}
        for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}$', text, re.M): attr[m.group(1)] = m.group(2)
        lines = text.split('\n')
        for k, l in enumerate(lines):
            if l.startswith('define '):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l); name = m.group(1)
                g = re.search(r' #(\d+) ', l)
                if g and 'alwaysinline' in attr.get(g.group(1), ''): continue
                tag = '"vccontract"' if is_contract(name, l) else '"vchelper"'
                lines[k] = l.replace(' #%s ' % g.group(1), ' %s noinline optnone #%s ' % (tag, g.group(1)), 1)
        a = os.path.join(d, 'a.ll'); b = os.path.join(d, 'b.ll'); c = os.path.join(d, 'c.ll')
        open(a, 'w').write('\n'.join(lines))
        sh(['opt-18', '-S', '-strip-debug', '-passes=function(sroa,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg),always-inline', a, '-o', b])
        t2 = open(b).read()
        def fix(m):
            s = m.group(2)
            if '"vchelper"' in s:
                s = re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', s); s = ' alwaysinline ' + s
            # target features must not keep a helper from being inlined into a caller with fewer features
            s = re.sub(r'"target-features"="[^"]*"|"target-cpu"="[^"]*"|"tune-cpu"="[^"]*"|"min-legal-vector-width"="[^"]*"', '', s)
            return 'attributes #%s = {%s}' % (m.group(1), s)
        t2 = re.sub(r'^attributes #(\d+) = \{(.*)\}$', fix, t2, flags=re.M)
        open(b, 'w').write(t2)
        sh(['opt-18', '-S', '-passes=always-inline,globaldce', b, '-o', c])
        return open(c).read(), fields
