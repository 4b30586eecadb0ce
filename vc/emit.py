"""Verus back end: turns path logs into proof functions, runs verus, maps errors to obligations."""
import os, re, subprocess, time, concurrent.futures, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
THEORY = os.path.join(os.path.dirname(HERE), 'theory')
MODS = ['core', 'rel', 'iter', 'splice', 'walk', 'bfs', 'rc', 'build', 'ops', 'cmp', 'print', 'tuple', 'tbuild']

def theory_text(mods=None, proofs=True):
    out = []
    for m in mods or MODS:
        s = open(os.path.join(THEORY, m + '.rs')).read()
        if not proofs: s = strip_proofs(s)
        out.append(s)
    return '\n'.join(out)
def strip_proofs(s):
    """proof fn bodies are checked once (theory check); here only their statements are used"""
    out = []; i = 0
    for m in re.finditer(r'^(pub )?(broadcast )?proof fn \w+', s, re.M):
        if m.start() < i: continue
        out.append(s[i:m.start()])
        # body: first '{' at line start or preceded by newline+... : find the body brace
        j = body_start(s, m.end())
        e = close_brace(s, j)
        sig = s[m.start():j]
        out.append('#[verifier::external_body] ' + sig + ('{ arbitrary() }' if re.search(r'\)\s*->\s*\(', sig) else '{ }'))
        i = e + 1
    out.append(s[i:])
    return ''.join(out)
def body_start(s, i):
    # theory convention: the body's opening brace is the first character of a line
    m = re.compile(r'^\{', re.M).search(s, i)
    return m.start()
def close_brace(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{': d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0: return j
    raise Exception('unbalanced theory')

class Unit:
    """one function's paths"""
    def __init__(self, key, logs, mods=None): self.key, self.logs, self.mods = key, logs, mods

HF = re.compile(r'\b(g\d+)\.(\w+)\b')
def emit_path(name, log, lines, omap, extra='', vacuity=False):
    vs = [(x[1], x[2]) for x in log if x[0] == 'var']
    lines.append('proof fn %s(%s)%s' % (name, ', '.join('%s: %s' % v for v in vs), extra)); lines.append('{')
    for x in log:
        if x[0] == 'hide': lines.append('  hide(%s);' % x[1])
    n = 0; hl = {}
    # heap snapshots are named; their fields are used directly, so that quantifier triggers match
    def sub(t): return HF.sub(lambda m: hl[m.group(1)][m.group(2)] if m.group(1) in hl else m.group(0), t)
    for x in log:
        if x[0] == 'assume':
            if x[1] == 'true': continue
            lines.append('  if !(%s) { return; }' % sub(x[1]))
        elif x[0] == 'ob' and vacuity: pass
        elif x[0] == 'ob':
            lines.append('  assert(%s);' % sub(x[2])); omap[len(lines)] = ('ob', x[1], x[3]); n += 1
        elif x[0] == 'let': lines.append('  let %s = %s;' % (x[1], sub(x[2])))
        elif x[0] == 'hlet':
            d = {}
            for f, t in x[2]:
                t = sub(t)
                if not re.match(r'^\w+(\.\w+)?$', t):
                    lines.append('  let %s_%s = %s;' % (x[1], f, t)); t = '%s_%s' % (x[1], f)
                d[f] = t
            lines.append('  let %s = H{%s};' % (x[1], ', '.join('%s: %s' % q for q in d.items())))
            lines.append('  assert(%s);' % ' && '.join('%s.%s == %s' % (x[1], f, t) for f, t in d.items()))
            hl[x[1]] = d
        elif x[0] == 'lemma':
            lines.append('  ' + sub(' '.join(x[1].split('\n')).rstrip(';')) + ';'); omap[len(lines)] = ('lemma', 'lemma precondition: ' + x[1][:70], '')
    if vacuity: lines.append('  assert(1int == 2int);')
    lines.append('}')
    return n

class Result: pass

def run_verus(path, rlimit=30, threads=1, timeout=600, extra=(), errors=40):
    t = time.time()
    if timeout < 2: return 'TIMEOUT', -1, 0.0
    cmd = ['verus', path, '--multiple-errors', str(errors), '--triggers-mode', 'silent', '--rlimit', str(rlimit), '--num-threads', str(threads), '--crate-type', 'lib'] + list(extra)
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout)
        out = r.stderr + '\n\n' + r.stdout; rc = r.returncode
    except subprocess.TimeoutExpired as e:
        out = 'TIMEOUT'; rc = -1
    return out, rc, time.time() - t

def check_units(units, outdir, jobs=8, rlimit=30, mods=None, timeout=600, per_file=14, vacuity=False, deadline=None, errors=40):
    """verifies all paths; returns dict key -> result(list of failures, n obligations, n paths, secs), raw outputs"""
    os.makedirs(outdir, exist_ok=True)
    files = []
    buckets = []
    for ms in sorted({u.mods or mods or () for u in units}):       # the part of the theory the contracts need
        paths = []
        for u in units:
            if (u.mods or mods or ()) == ms:
                for i, log in enumerate(u.logs): paths.append((u.key, i, log))
        pf = max(1, min(per_file * (3 if ms else 1), (len(paths) + jobs - 1) // jobs))
        # distribute round robin by size
        paths.sort(key=lambda p: -len(p[2]))
        nf = max(1, (len(paths) + pf - 1) // pf)
        bs = [(ms, []) for _ in range(nf)]
        for k, p in enumerate(paths): bs[k % nf][1].append(p)
        buckets += bs
    ths = {ms: theory_text(ms or None, proofs=False).split('\n') for ms, _ in buckets}
    for k, (ms, b) in enumerate(buckets):
        lines = ['use vstd::prelude::*;', 'verus!{'] + list(ths[ms]); omap = {}; fmap = []; nob = {}
        for key, i, log in b:
            start = len(lines) + 1
            nm = 'p_%s_%d' % (re.sub(r'\W+', '_', key.replace('&', 'ref_')).strip('_'), i)
            n = emit_path(nm, log, lines, omap, vacuity=vacuity)
            fmap.append((start, len(lines), key, i)); nob[(key, i)] = n
        lines.append('proof fn canary() { assert(1int == 2int); }'); canary = len(lines)     # a failure that must be reported
        lines.append('}')
        p = os.path.join(outdir, 'vc%d.rs' % k)
        open(p, 'w').write('\n'.join(lines) + '\n')
        files.append((p, omap, fmap, canary))
    res = {u.key: {'paths': len(u.logs), 'obligations': sum(sum(1 for x in l if x[0] == 'ob') for l in u.logs), 'fail': [], 'status': 'ok', 'out': ''} for u in units}
    def one(f):
        p = f[0]
        return f, run_verus(p, rlimit, 1, min(timeout, deadline - time.time()) if deadline else timeout, errors=errors)
    total = 0.0; verified = 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for (p, omap, fmap, canary), (out, rc, secs) in ex.map(one, files):
            total += secs
            m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
            if m: verified += int(m.group(1))
            def owner(line):
                for s, e, key, i in fmap:
                    if s <= line <= e: return key, i
                return None
            if m is None:
                # verus itself failed (syntax/type error in a VC, crash or timeout)
                for key in {k for _, _, k, _ in fmap}:
                    res[key]['status'] = 'error'; res[key]['out'] += out[-3000:]
                continue
            alive = False; owners = set()
            for blk in re.split(r'\n\n(?=\S)', out.strip()):
                if not blk.startswith('error') : continue
                if blk.startswith('error: aborting'): continue
                lm = re.search(r'--> [^\n]*?:(\d+):\d+', blk)
                if not lm: continue
                line = int(lm.group(1)); o = owner(line)
                if line == canary: alive = True; continue
                # failures inside the theory text (lemma preconditions) list the call site as well
                if o is None:
                    for l2 in re.findall(r':(\d+):\d+', blk):
                        if owner(int(l2)): line = int(l2); o = owner(line); break
                nums = [int(x) for x in re.findall(r'^\s*(\d+) \|', blk, re.M)]
                if o is None:
                    for l2 in nums:
                        if owner(l2): line = l2; o = owner(l2); break
                if o is None:       # not an obligation of any path: the generated file itself is broken
                    for key in {k for _, _, k, _ in fmap}: res[key]['status'] = 'error'; res[key]['out'] += blk[:1500]
                    continue
                if 'precondition not satisfied' in blk:
                    for l2 in nums:
                        if l2 in omap and omap[l2][0] == 'lemma' and owner(l2): line = l2
                owners.add(o)
                kind, label, where = omap.get(line, ('?', blk.split('\n')[0], ''))
                if 'Resource limit' in blk or 'rlimit' in blk.split('\n')[0]: kind, label = 'rlimit', 'solver resource limit'
                res[o[0]]['fail'].append({'path': o[1], 'label': label, 'kind': kind, 'where': where, 'line': open(p).read().split('\n')[line-1][:300], 'verus': blk[:1500]})
                res[o[0]]['status'] = 'fail'
            if not alive or len(owners) < int(m.group(2)) - 1:      # nothing the verifier rejects is lost
                for key in {k for _, _, k, _ in fmap}: res[key]['status'] = 'error'; res[key]['out'] += out[-1500:]
    return res, {'files': len(files), 'seconds': total, 'verified': verified}

def check_theory(outdir, mods=None, rlimit=60):
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, 'theory.rs')
    open(p, 'w').write('use vstd::prelude::*;\nverus!{\n' + theory_text(mods) + '\n}\n')
    out, rc, secs = run_verus(p, rlimit, 8)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
    return {'ok': rc == 0 and bool(m), 'verified': int(m.group(1)) if m else 0, 'seconds': secs, 'out': out if rc else ''}
