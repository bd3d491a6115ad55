"""Parser for the textual LLVM IR (clang/opt 18, opaque pointers) of the functions under contract."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+) | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+) | (?P<meta>![-a-zA-Z$._0-9]*) |
  (?P<cstr>c"(?:[^"\\]|\\.)*") | (?P<str>"(?:[^"\\]|\\.)*") | (?P<attr>\#\d+) | (?P<num>-?\d+(?:\.\d+e[+-]?\d+)?) | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*) |
  (?P<dots>\.\.\.) | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('tok: ' + s[i:i+60] + ' in ' + s[:200])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

# types: ('int', n) ('ptr',) ('void',) ('vec', n, t) ('arr', n, t) ('struct', [t], packed) ('named', name) ('float', bits)
class TS:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')
    def nxt(self):
        r = self.peek(); self.i += 1; return r
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'):
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %s got %r at %r' % (v, self.peek(), self.t[max(0, self.i-8):self.i+6]))
    def skipwords(self, ws):
        while self.peek()[0] == 'word' and self.peek()[1] in ws:
            self.i += 1

    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v == 'ptr': return ('ptr',)
            if v == 'void': return ('void',)
            if v == 'label': return ('label',)
            if v == 'metadata': return ('metadata',)
            if v in ('float', 'double'): return ('float', 32 if v == 'float' else 64)
            m = re.fullmatch(r'i(\d+)', v)
            if m: return ('int', int(m.group(1)))
        if k == 'p' and v == '<':
            if self.peek() == ('p', '{'):
                t = self.type(); self.exp('>'); return ('struct', t[1], True)
            n = int(self.nxt()[1]); self.exp('x'); t = self.type(); self.exp('>')
            return ('vec', n, t)
        if k == 'p' and v == '[':
            n = int(self.nxt()[1]); self.exp('x'); t = self.type(); self.exp(']')
            return ('arr', n, t)
        if k == 'p' and v == '{':
            ts = []
            if not self.acc('}'):
                while True:
                    ts.append(self.type())
                    if self.acc('}'): break
                    self.exp(',')
            return ('struct', ts, False)
        if k == 'loc':
            return ('named', v)
        raise SyntaxError('type: %r %r in %r' % (k, v, self.t[max(0, self.i-5):self.i+5]))

    def value(self, ty):
        """operand of type ty: ('loc', name) ('const', int) ('undef',) ('zero',) ('vecc', [vals]) ('glob', name) ('null',) ('cexpr', ...)"""
        k, v = self.nxt()
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', v)
        if k == 'num': return ('const', int(v)) if '.' not in v else ('fconst', v)
        if k == 'cstr': return ('cstr', v)
        if k == 'word':
            if v == 'true': return ('const', 1)
            if v == 'false': return ('const', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('undef',)
            if v == 'getelementptr':
                self.skipwords({'inbounds', 'nuw', 'nusw'})
                self.exp('('); t = self.type(); ops = []
                while self.acc(','):
                    pt = self.type(); ops.append((pt, self.value(pt)))
                self.exp(')')
                return ('cgep', t, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                self.skipwords({'nuw', 'nsw'})
                self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t, a, b)
            if v == 'splat':
                self.exp('('); t = self.type(); x = self.value(t); self.exp(')')
                return ('vecc', [(t, x)] * ty[1])
        if k == 'p' and v in '<[{':
            close = {'<': '>', '[': ']', '{': '}'}[v]
            vals = []
            if not self.acc(close):
                while True:
                    t = self.type(); vals.append((t, self.value(t)))
                    if self.acc(close): break
                    self.exp(',')
            return ('vecc', vals)
        raise SyntaxError('value: %r %r in %r' % (k, v, self.t[max(0, self.i-8):self.i+5]))

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'flags', 'align')
    def __init__(self, op, res=None, ty=None, a=None, text='', flags=(), align=1):
        self.op, self.res, self.ty, self.a, self.text, self.flags, self.align = op, res, ty, a, text, flags, align
    def __repr__(self): return self.text

class Func:
    def __init__(self, name, ret, params, text):
        self.name, self.ret, self.params, self.text = name, ret, params, text
        self.blocks = {}; self.order = []
    def analyze(self):
        self.succ = {b: [] for b in self.order}; self.pred = {b: [] for b in self.order}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br': ss = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': ss = [t.a[1]] + [x[1] for x in t.a[2]]
            else: ss = []
            for s in ss:
                if s not in self.succ[b]: self.succ[b].append(s)
                if b not in self.pred[s]: self.pred[s].append(b)
        # dominators
        entry = self.order[0]
        seen, post = set(), []
        st = [(entry, iter(self.succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; self.rpo = rpo; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.dom = dom
        self.loops = {}  # header -> set of blocks
        for b in rpo:
            for s in self.succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b): raise SyntaxError('irreducible loop at ' + s + ' in ' + self.name)
                    body = self.loops.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w.extend(p for p in self.pred[x] if p in num)
        self.defs = {}
        for b in self.order:
            for k, i in enumerate(self.blocks[b]):
                if i.res: self.defs[i.res] = (b, k, i)
        return self

ATTRW = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'zeroext', 'signext', 'noalias', 'immarg', 'returned', 'inreg', 'readnone', 'nofree', 'noreturn', 'dead_on_unwind', 'writable', 'range', 'nofpclass'}
FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}

def skip_attrs(ts):
    while True:
        k, v = ts.peek()
        if k == 'word' and v in ATTRW:
            ts.i += 1
            if ts.peek() == ('p', '(') :
                d = 0
                while True:
                    x = ts.nxt()
                    if x == ('p', '('): d += 1
                    if x == ('p', ')'):
                        d -= 1
                        if d == 0: break
        elif k == 'word' and v == 'align':
            ts.i += 1
            if ts.acc('('): ts.nxt(); ts.exp(')')
            else: ts.nxt()
        elif k == 'word' and re.match(r'(dereferenceable|dereferenceable_or_null|byval|sret|elementtype)$', v):
            ts.i += 1; d = 0
            while True:
                x = ts.nxt()
                if x == ('p', '('): d += 1
                if x == ('p', ')'):
                    d -= 1
                    if d == 0: break
        else: return

def parse_ins(line, mod):
    ts = TS(tokenize(line), mod)
    res = None
    if ts.peek()[0] == 'loc' and ts.peek(1) == ('p', '='):
        res = ts.nxt()[1]; ts.exp('=')
    op = ts.nxt()[1]; flags = []
    while op in ('tail', 'musttail', 'notail'): op = ts.nxt()[1]
    I = lambda ty, a, al=1: Ins(op, res, ty, a, line, flags, al)
    if op in BIN:
        while ts.peek()[0] == 'word' and ts.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'): flags.append(ts.nxt()[1])
        t = ts.type(); a = ts.value(t); ts.exp(','); b = ts.value(t); return I(t, [a, b])
    if op in CAST:
        while ts.peek()[0] == 'word' and ts.peek()[1] in ('nneg', 'nuw', 'nsw'): flags.append(ts.nxt()[1])
        t = ts.type(); a = ts.value(t); ts.exp('to'); t2 = ts.type(); return I(t2, [t, a])
    if op == 'icmp':
        while ts.peek()[1] == 'samesign': ts.nxt()
        p = ts.nxt()[1]; t = ts.type(); a = ts.value(t); ts.exp(','); b = ts.value(t); return I(t, [p, a, b])
    if op == 'select':
        ts.skipwords(FM)
        ct = ts.type(); c = ts.value(ct); ts.exp(','); t = ts.type(); a = ts.value(t); ts.exp(','); ts.type(); b = ts.value(t)
        return I(t, [ct, c, a, b])
    if op == 'phi':
        ts.skipwords(FM)
        t = ts.type(); inc = []
        while True:
            ts.exp('['); v = ts.value(t); ts.exp(','); b = ts.nxt()[1]; ts.exp(']'); inc.append((v, b[1:]))
            if not ts.acc(','): break
        return I(t, inc)
    if op == 'load':
        while ts.peek()[1] in ('volatile', 'atomic'): flags.append(ts.nxt()[1])
        t = ts.type(); ts.exp(','); pt = ts.type(); p = ts.value(pt); al = 1
        if ts.acc(','):
            if ts.acc('align'): al = int(ts.nxt()[1])
        return I(t, [p], al)
    if op == 'store':
        while ts.peek()[1] in ('volatile', 'atomic'): flags.append(ts.nxt()[1])
        t = ts.type(); v = ts.value(t); ts.exp(','); pt = ts.type(); p = ts.value(pt); al = 1
        if ts.acc(','):
            if ts.acc('align'): al = int(ts.nxt()[1])
        return I(t, [v, p], al)
    if op == 'getelementptr':
        ts.skipwords({'inbounds', 'nuw', 'nusw'})
        t = ts.type(); ops = []
        while ts.acc(','):
            pt = ts.type(); ops.append((pt, ts.value(pt)))
        return I(('ptr',), [t, ops])
    if op == 'br':
        if ts.acc('label'): return I(None, [ts.nxt()[1][1:]])
        t = ts.type(); c = ts.value(t); ts.exp(','); ts.exp('label'); a = ts.nxt()[1][1:]; ts.exp(','); ts.exp('label'); b = ts.nxt()[1][1:]
        return I(None, [c, a, b])
    if op == 'switch':
        t = ts.type(); v = ts.value(t); ts.exp(','); ts.exp('label'); d = ts.nxt()[1][1:]; ts.exp('['); cs = []
        while not ts.acc(']'):
            ct = ts.type(); cv = ts.value(ct); ts.exp(','); ts.exp('label'); cs.append((cv[1], ts.nxt()[1][1:]))
        return I(t, [v, d, cs])
    if op == 'ret':
        t = ts.type(); return I(t, [] if t == ('void',) else [ts.value(t)])
    if op == 'unreachable': return I(None, [])
    if op == 'insertelement':
        t = ts.type(); v = ts.value(t); ts.exp(','); et = ts.type(); e = ts.value(et); ts.exp(','); it = ts.type(); ix = ts.value(it)
        return I(t, [v, e, ix])
    if op == 'extractelement':
        t = ts.type(); v = ts.value(t); ts.exp(','); it = ts.type(); ix = ts.value(it); return I(t[2], [t, v, ix])
    if op == 'shufflevector':
        t = ts.type(); a = ts.value(t); ts.exp(','); ts.type(); b = ts.value(t); ts.exp(','); mt = ts.type(); m = ts.value(mt)
        return I(('vec', mt[1], t[2]), [t, a, b, mt, m])
    if op == 'freeze':
        t = ts.type(); return I(t, [ts.value(t)])
    if op == 'alloca':
        t = ts.type(); return I(t, [])
    if op == 'extractvalue':
        t = ts.type(); v = ts.value(t); ix = []
        while ts.acc(','): ix.append(int(ts.nxt()[1]))
        return I(None, [t, v, ix])
    if op == 'insertvalue':
        t = ts.type(); v = ts.value(t); ts.exp(','); et = ts.type(); e = ts.value(et); ix = []
        while ts.acc(','): ix.append(int(ts.nxt()[1]))
        return I(t, [v, e, ix])
    if op == 'call':
        ts.skipwords(FM); skip_attrs(ts)
        while ts.peek()[1] in ('fastcc', 'ccc'): ts.nxt()
        skip_attrs(ts)
        t = ts.type()
        if ts.peek() == ('p', '('):
            d = 0
            while True:
                x = ts.nxt()
                if x == ('p', '('): d += 1
                if x == ('p', ')'):
                    d -= 1
                    if d == 0: break
        k, callee = ts.nxt()
        if k == 'word' and callee == 'asm': return I(t, ['asm', []])
        ts.exp('('); args = []
        if not ts.acc(')'):
            while True:
                at = ts.type()
                if at == ('metadata',):
                    d = 0
                    while not (d == 0 and ts.peek()[1] in (',', ')')):
                        x = ts.nxt()
                        if x[1] == '(': d += 1
                        if x[1] == ')': d -= 1
                    args.append((at, None))
                else:
                    skip_attrs(ts); args.append((at, ts.value(at)))
                if ts.acc(')'): break
                ts.exp(',')
        return I(t, [callee, args])
    return I(None, None)

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.attrs = {}; self._texts = {}; self.decls = set()
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self._texts[m.group(1)] = lines[i:j]
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l); self.decls.add(m.group(1))
            elif re.match(r'^%\S+ = type ', l):
                n, t = l.split(' = type ', 1)
                if t.strip() != 'opaque': self.types[n] = TS(tokenize(t), self).type()
            elif l.startswith('@'):
                m = re.match(r'^(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
            i += 1
    def has(self, n): return n in self._texts
    def func(self, n):
        if n in self.funcs: return self.funcs[n]
        ls = self._texts[n]
        h = ls[0]
        h2 = h[h.index('@'):]
        ts = TS(tokenize(h2[:h2.rindex('{')]), self); ts.nxt(); ts.exp('('); params = []
        if not ts.acc(')'):
            while True:
                t = ts.type(); skip_attrs(ts); params.append((t, ts.nxt()[1]))
                if ts.acc(')'): break
                ts.exp(',')
        pre = h[:h.index('@')].split()
        rt = None
        for k in range(len(pre)):
            try: rt = TS(tokenize(' '.join(pre[k:])), self).type(); break
            except SyntaxError: pass
        f = Func(n, rt, params, ls)
        cur = None; acc = None
        for l in ls[1:]:
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m: cur = m.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            l = l.strip()
            if acc is not None:
                acc += ' ' + l
                if l.startswith(']'): l = acc; acc = None
                else: continue
            elif l.startswith('switch') and not l.endswith(']'):
                acc = l; continue
            if cur is None: cur = 'entry0'; f.blocks[cur] = []; f.order.append(cur)
            f.blocks[cur].append(parse_ins(l, self))
        f.analyze()
        self.funcs[n] = f
        return f
    def resolve(self, t):
        return self.types[t[1]] if t[0] == 'named' else t
    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'int': return {1: 1}.get(t[1], (t[1] + 7) // 8)
        if t[0] == 'ptr': return 8
        if t[0] == 'float': return t[1] // 8
        if t[0] in ('vec', 'arr'): return t[1] * self.size(t[2])
        if t[0] == 'struct':
            o = 0; al = 1
            for x in t[1]:
                a = 1 if t[2] else self.alignof(x); al = max(al, a)
                o = (o + a - 1) // a * a + self.size(x)
            return (o + al - 1) // al * al
        raise ValueError(t)
    def alignof(self, t):
        t = self.resolve(t)
        if t[0] == 'arr': return self.alignof(t[2])
        if t[0] == 'struct': return 1 if t[2] else max([self.alignof(x) for x in t[1]] + [1])
        return self.size(t)
    def field(self, t, k):
        t = self.resolve(t); o = 0
        for n, x in enumerate(t[1]):
            a = 1 if t[2] else self.alignof(x)
            o = (o + a - 1) // a * a
            if n == k: return o, x
            o += self.size(x)
