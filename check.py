#!/usr/bin/env python3-vt
"""check.py PROPERTY : decides one property on /repo's current tree.  exit 0 held, exit 1 + VIOLATION line broken."""
import sys, os, re, json, time, subprocess, tempfile, shutil, collections, hashlib, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'vc'))
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
import llir, symex, registry, extract, props
import z3

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('VC_BUDGET', '780' if TIER == 'quick' else '3000'))     # whole check
FBUDGET = float(os.environ.get('VC_FBUDGET', '300' if TIER == 'quick' else '900'))    # one function
JOBS = int(os.environ.get('VC_JOBS', '8'))
MODS = {}

def load(src):
    txt, fields = extract.extract(src, registry.is_contract)
    return src, txt, fields

def verify(job):
    src, fn, t_end = job[:3]
    mod, fields = MODS[src]; symex.reset_tables()
    kind, mk = registry.lookup(fn)[:2]
    t = time.time(); r = dict(fn=fn, src=src, kind=kind)
    for effort in (1, 8):
        e = None; r.pop('why', None)
        try:
            symex.reset_tables()
            c = mk(); e = symex.Engine(mod, fields, fn, c, effort=effort); e.taint = job[3]; e.t_end = min(t_end, time.time() + FBUDGET)
            if time.time() > t_end: raise TimeoutError('check budget')
            c.verify(e)
            r['status'] = 'proved' if not e.fails else 'failed'
            if e.stats['obligations'] == 0: r['status'] = 'unsupported'; r['why'] = 'vacuous: no obligation generated'
        except symex.Unsupported as x: r['status'] = 'unsupported'; r['why'] = str(x)[:200]
        except TimeoutError as x: r['status'] = 'timeout'; r['why'] = 'time budget'
        except RecursionError: r['status'] = 'unsupported'; r['why'] = 'recursion'
        except Exception as x: r['status'] = 'unsupported'; r['why'] = 'internal: ' + traceback.format_exc()[-400:]
        # a solver query that decided how a value is represented had no answer: a refutation may be an artefact of the coarser representation
        weak = e is not None and e.stats.get('munk') and any(f['result'] == 'cex' for f in e.fails)
        if not weak: break
    if weak:
        for f in e.fails: f['result'] = 'unknown'
    if e is not None:
        r['obligations'] = e.stats['obligations']; r['kinds'] = dict(e.obkinds); r['solver'] = e.stats.get('solver', e.stats.get('time', 0)); r['queries'] = e.stats.get('queries', 0); r['paths'] = e.stats.get('paths', 0)
        r['depends'] = sorted(e.depends)
        r['fails'] = [dict(f, model=f['model'][:1200]) for f in e.fails[:40]]
    r['wall'] = round(time.time() - t, 2)
    return r

class Native:
    """the native counterpart: library + harness, built from the current tree"""
    def __init__(self, work): self.dir = os.path.join(work, 'native'); self.exe = None; self.exes = []; self.err = None
    def build(self, gcc=False):
        for d, cc in ((self.dir, 'clang-18 -O2'), (self.dir + '_gcc', 'gcc -O1')):       # gcc: clang defines values that the sources leave undefined
            if d != self.dir and not gcc: break
            p = subprocess.run([os.path.join(HERE, 'native', 'build.sh'), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VC_CC=cc))
            if p.returncode: self.err = p.stdout[-1500:]; return False
            self.exes.append(os.path.join(d, 'search'))
        self.exe = self.exes[0]; return True
    def search(self, fams, kinds, secs, only=None, outdir='.', hints=()):
        """JOBS parallel searches with different seeds; returns (replay path | None, stats)"""
        ps = []
        for k in range(JOBS):
            out = os.path.join(outdir, 'case%d' % k)
            cmd = [self.exes[k % len(self.exes)], ','.join(fams), kinds, str(SEED * 1000 + k), str(secs), out] + ([only] if only else [])
            ps.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, VC_HINTS=','.join(map(str, hints))))))
        found = None; cases = bytes_ = dist = 0; lines = []
        for out, p in ps:
            try: o, _ = p.communicate(timeout=secs * 3 + 200)
            except subprocess.TimeoutExpired: p.kill(); o, _ = p.communicate()
            for l in (o or '').splitlines():
                lines.append(l)
                m = re.match(r'CASES (\d+) bytes (\d+) distinct (\d+)', l)
                if m: cases += int(m.group(1)); bytes_ += int(m.group(2)); dist += int(m.group(3))
                if l.startswith('FOUND') and found is None: found = (out, l)
        return found, dict(cases=cases, bytes=bytes_, distinct=dist, lines=lines[:3])

def codec_pattern(fails):
    """native codecs that can reach the functions whose obligations failed"""
    names = set()
    for r in fails:
        m = re.match(r'_*((?:rle|mmtf|bitmmtf)[a-z0-9_]*?)_(?:compress|decompress|encode|decode|process_symbol)', r['fn'])
        if m: names.add(m.group(1))
    return names

def hints(bad):
    """lengths worth trying: integers (and their differences) in the models of the refuted obligations, constants of those functions"""
    a = collections.Counter(); b = collections.Counter()
    for r in bad:
        for f in r['rel'][:12]:
            v = sorted({int(x) for x in re.findall(r'=(\d+)\b', f['model']) if 1 < int(x) < 1 << 26})[:40]
            for x in v: a[x] += 1
            for x in v:
                for y in v:
                    if 8 < x - y: a[x - y] += 1
        for c in re.findall(r'(?:icmp|add|sub|select|and|store)[^\n]*?[ ,](\d{2,8})\b', '\n'.join(MODS[r['src']][0]._texts.get(r['fn'], ()))):
            if 8 < int(c) < 20000000: b[int(c)] += 1
    cand = [x for x, _ in b.most_common(150)] + [x for x, _ in a.most_common(150) if x < 20000000]
    return list(dict.fromkeys(cand))

def main():
    pid = sys.argv[1]; pr = props.P[pid]
    ev_path = os.path.join(HERE, 'evidence', pid + '.json'); os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try: rc = run(pid, pr, work, ev_path)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) (.*)', l)
            if m and m.group(1) == pid: out.append(m.group(2).strip())
    return out

def run(pid, pr, work, ev_path):
    nat = Native(work)
    srcs = sorted({s for f in pr['fams'] for s in props.sources(f)} | ({'rleX_extreme_cpu.c'} if pid in ('C12',) else set()))
    errors = {}
    with ThreadPoolExecutor(JOBS) as ex:
        nb = ex.submit(nat.build, 'depends' in pr['kinds'])
        fs = {s: ex.submit(load, s) for s in srcs}
        for s, f in fs.items():
            try: _, txt, fields = f.result(); MODS[s] = (llir.Module(txt), fields)
            except Exception as x: errors[s] = str(x)[-600:]
        nb.result()
    jobs = []; uncovered = []
    t_end = T0 + BUDGET - 150
    for f in pr['fams']:
        for s in props.sources(f):
            if s not in MODS: continue
            for fn in MODS[s][0]._texts:
                l = registry.lookup(fn)
                if not re.match(props.FAM[f][1], fn): continue
                if l is None:
                    if registry.counts(fn): uncovered.append(fn)
                    continue
                if not pr['pick'](l[0]): continue
                jobs.append((s, fn, t_end, pid == 'C15'))
    jobs.sort(key=lambda j: -registry.cost(j[1]))
    res = []
    if jobs:
        with ProcessPoolExecutor(JOBS) as ex:
            for r in ex.map(verify, jobs, chunksize=1): res.append(r)
    bad = []; open_ = []; irrelevant = []
    for r in res:
        rel = [f for f in r.get('fails', []) if pr['decides'](r['kind'], f['obligation'])]
        r['rel'] = rel
        if r['status'] == 'failed' and not rel: irrelevant.append(r['fn']); r['status'] = 'proved-for-this-property'; continue
        if rel and any(f['result'] == 'cex' for f in rel): bad.append(r)
        elif r['status'] not in ('proved',): r['why'] = r.get('why') or 'solver gave no answer: ' + ', '.join(sorted({f['obligation'] for f in rel})); open_.append(r)
    st = {r['fn']: r for r in res}; moved = True
    while moved:                                   # a caller proved against a callee's contract counts only if that contract is proved as well
        moved = False
        for r in res:
            if not r['status'].startswith('proved') or pid == 'C14': continue
            d = [n for n in r.get('depends', ()) if n in st and not st[n]['status'].startswith('proved') or n not in st and registry.lookup(n) is None]
            if d: r['status'] = 'open'; r['why'] = 'contract of the callee %s is not proved' % d[0]; open_.append(r); moved = True
    proved = [r for r in res if r['status'].startswith('proved')]
    rdir = os.path.join(HERE, 'replays'); viol = None; stats = {}
    lim = set(u for u in uncovered) | {r['fn'] for r in open_}
    if nat.exe:
        left = max(20, T0 + BUDGET - time.time() - 60)
        if bad:
            only = '|'.join('^%s_' % re.escape(n) if not n.startswith('rle8m') else 'rle8m' for n in sorted(codec_pattern(bad)))
            hs = hints(bad)
            found, stats = nat.search(pr['fams'], pr['kinds'], min(90, left / 3), only or None, work, hs)
            if not found:
                found, st2 = nat.search(pr['fams'], pr['kinds'], min(60, left / 3), None, work, hs); stats['cases'] += st2['cases']
        else:
            sus = [r for r in open_ if r['rel']]                     # obligations without an answer: look there first
            hs = hints(sus) if sus else ()
            only = '|'.join('^%s_' % re.escape(n) if not n.startswith('rle8m') else 'rle8m' for n in sorted(codec_pattern(sus)))
            found = None
            if sus and only:
                found, stats = nat.search(pr['fams'], pr['kinds'], min(60, left / 4), only, work, hs)
            secs = pr['secs'] if TIER == 'quick' else 600
            if not lim and not errors: secs = min(secs, 15)          # everything proved: a short run only cross-checks the trusted base
            if not found: found, stats = nat.search(pr['fams'], pr['kinds'], min(secs, left / 2), None, work)
        if found:
            os.makedirs(rdir, exist_ok=True); dst = os.path.join(rdir, '%s.case' % pid); shutil.copy(found[0], dst); viol = (dst, found[1], True)
    if bad and viol is None:
        os.makedirs(rdir, exist_ok=True); dst = os.path.join(rdir, '%s.obligations.txt' % pid)
        with open(dst, 'w') as f:
            for r in bad:
                for o in r['rel'][:8]: f.write('function %s (%s): obligation %s refuted by z3\n  cut point: %s  at: %s\n  path: %s\n  model: %s\n' % (r['fn'], r['src'], o['obligation'], o['segment'], o['where'], ' '.join(o['path']), o['model']))
        viol = (dst, '', False)
    elif bad:
        with open(viol[0] + '.obligations.txt', 'w') as f:
            for r in bad:
                for o in r['rel'][:8]: f.write('function %s (%s): obligation %s refuted by z3\n  cut point: %s  at: %s\n  path: %s\n' % (r['fn'], r['src'], o['obligation'], o['segment'], o['where'], ' '.join(o['path'])))
    kinds = collections.Counter()
    nob = sum(v for r in res for k, v in r.get('kinds', {}).items() if pr['decides'](r['kind'], k)); nall = sum(r.get('obligations', 0) for r in res)
    disch = nob - sum(len([f for f in r.get('fails', []) if pr['decides'](r['kind'], f['obligation'])]) for r in res)
    for r in res:
        for k, v in r.get('kinds', {}).items():
            if pr['decides'](r['kind'], k): kinds[k] += v
    level = 'proof' if len(proved) and len(proved) >= len(lim) else 'exploration'
    cov = dict(obligations=nob, discharged=disch, checker_cmd='python3-vt /verif/check.py %s' % pid,
               trusted_base=['clang 18 front end and opt-18 inliner (extraction of the verified IR from /repo/src)', 'z3 %s' % z3.get_version_string(), 'vc/symex.py (IR semantics, VC generation)', 'vc/spec.py token grammars as the statement of the format'],
               functions_under_contract=len(res), functions_proved=len(proved), all_obligations_of_these_functions=nall, obligation_kinds=dict(kinds), backend='z3 (linear integer arithmetic with uninterpreted bytes)',
               solver_queries=sum(r.get('queries', 0) for r in res), function_wall_s=round(sum(r['wall'] for r in res), 1),
               proved=sorted(r['fn'] for r in proved), bounded_only=sorted([u + ': no contract in reach' for u in uncovered] + ['%s: %s' % (r['fn'], r.get('why', '')) for r in open_]),
               failed_only_on_other_properties=irrelevant,
               native=dict(stats, what='native round trips at the API with guard pages; bounded: it decides nothing for the proved functions and is the labelled stand-in for the functions listed under bounded_only', codec_families=pr['fams']),
               evaluations=stats.get('cases', 0), distinct_nontrivial=stats.get('distinct', 0), rule='structured inputs: literals and runs with lengths around the format thresholds, symbols from a small set, all SIMD levels; every case is compressed and decompressed; counted as non-trivial when a symbol of the codec width repeats directly, as distinct by a 64 bit hash of codec and input', samples=stats.get('lines', []) + [r['fn'] for r in res[:3]])
    if errors: cov['extraction_errors'] = errors
    if nat.err: cov['native_error'] = nat.err
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=ASSUME + (['the functions listed under bounded_only are checked only on the sampled inputs'] if lim else []), wall_s=round(time.time() - T0, 1), violations=1 if viol else 0)
    json.dump(ev, open(ev_path, 'w'), indent=1)
    print('%s: %d functions under contract, %d proved, %d obligations of this property (%d discharged), %d bounded only, %d refuted, native cases %d, %.0f s' % (pid, len(res), len(proved), nob, disch, len(lim), len(bad), stats.get('cases', 0), time.time() - T0))
    for r in open_[:12]: print('  bounded: %s (%s)' % (r['fn'], r.get('why', '')[:160]))
    for k in known_findings(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        for r in bad[:6]: print('  refuted: %s: %s' % (r['fn'], ', '.join(sorted({o['obligation'] for o in r['rel']}))))
        if viol[1]: print('  ' + viol[1])
        print('VIOLATION property=%s replay=%s%s' % (pid, viol[0], '' if viol[2] else ' no-failing-input-found'))
        return 1
    if nat.exe is None and not res:
        print('  the library does not build: ' + (nat.err or '')[:400])
    return 0
ASSUME = ['input and output buffers do not overlap and lie in one allocation each (API precondition)',
          'the compiler that builds the shipped library translates the C source as clang 18 does (the proof covers the IR of clang -O0)',
          'CPU feature globals hold arbitrary values; the instructions of a selected SIMD level are available']
if __name__ == '__main__': main()
