"""check <property>: decides one property on /repo's current tree.

1. extracts MIR from /repo, generates the obligations of every function under contract that the
   property depends on, and lets Verus discharge them;
2. searches for a concrete failing input with the bounded replay engine (real crate vs. reference
   model); this complements the proof and is never counted as proof.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, hashlib, struct
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mir, exec as ex, emit
from models import M
import specs

WORK = os.path.join(VERIF, 'work')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
TARGET = os.path.join(WORK, 'target')
REPLAY_BIN = os.path.join(TARGET, 'release', 'replay')

def build_replay():
    env = dict(os.environ, RUSTFLAGS="-Awarnings --cap-lints allow", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', '+stable', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'replay'), env=env, capture_output=True, text=True)
    if r.returncode: return r.stderr[-3000:]
    return None

# ---------------------------------------------------------------- replay
class Replay:
    def __init__(self, prop, secs, shards, wd):
        self.prop, self.secs, self.n, self.wd = prop, secs, shards, wd
        self.evals = self.distinct = 0; self.found = None; self.err = None
    def run(self):
        ps = []
        for i in range(self.n):
            pf = os.path.join(self.wd, 'prog%d' % i)
            ps.append((subprocess.Popen([REPLAY_BIN, 'run', self.prop, str(SEED), str(self.secs), pf, str(i), str(self.n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), pf))
        dead = time.time() + self.secs * 2 + 60
        for p, pf in ps:
            try: out, _ = p.communicate(timeout=max(1, dead - time.time()))
            except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate(); out += '\nTIMEOUT'
            if p.returncode == 0:
                m = re.findall(r'OK evals=(\d+) distinct=(\d+)', out)
                if m: self.evals += int(m[-1][0]); self.distinct += int(m[-1][1])
                else: self.err = 'no result from the replay engine'
                continue
            m = re.search(r'^FAIL (\S+) (\S*) (.*)$', out, re.M)
            if m: sc, w, why = m.group(1), [int(x) for x in m.group(2).split(',') if x], m.group(3)
            else:
                b = open(pf, 'rb').read()
                if len(b) < 8: self.err = 'replay engine failed: ' + out[-300:]; continue
                si, n = struct.unpack('<II', b[:8]); w = list(struct.unpack('<%dI' % n, b[8:8+4*n])); sc = si
                why = 'the process died (%s) %s' % (p.returncode, out.strip()[-200:])
            if self.found is None or len(w) < len(self.found[1]): self.found = (sc, w, why)
        if self.found and isinstance(self.found[0], int):
            sc = self.names()[self.found[0]]; self.found = (sc,) + self.found[1:]
        return self
    def names(self):
        return subprocess.run([REPLAY_BIN, 'names', self.prop], capture_output=True, text=True, timeout=20).stdout.split()
    def one(self, sc, w, verbose=False):
        a = [REPLAY_BIN, 'one', self.prop, sc, ','.join(map(str, w))] + (['-v'] if verbose else [])
        try: r = subprocess.run(a, capture_output=True, text=True, timeout=70, errors='replace')
        except subprocess.TimeoutExpired: return 'did not terminate', ''
        if r.returncode == 0: return None, r.stdout
        m = re.search(r'^FAILS (.*)$', r.stdout, re.M)
        return (m.group(1) if m else 'the process died (%d) %s' % (r.returncode, r.stdout.strip().split('\n')[-1][:200] if not verbose else '')), r.stdout
    def shrink(self, budget=25):
        sc, w, why = self.found; t0 = time.time()
        why2, _ = self.one(sc, w)
        if why2 is None: return False       # not reproducible on its own
        self.found = (sc, w, why2)
        chunk = max(1, len(w) // 2)
        while chunk >= 1 and time.time() - t0 < budget:
            i = 0; hit = False
            while i < len(w) and time.time() - t0 < budget:
                c = w[:i] + w[i+chunk:]
                r, _ = self.one(sc, c)
                if r: w, why2, hit = c, r, True
                else: i += chunk
            if not hit or chunk > 1: chunk //= 2
        for i in range(len(w)):
            for v in (0, w[i] % 2, w[i] % 24, w[i] % 720720):
                if v >= w[i] or time.time() - t0 > budget + 10: continue
                c = w[:i] + [v] + w[i+1:]
                r, _ = self.one(sc, c)
                if r: w, why2 = c, r; break
        self.found = (sc, w, why2)
        return True

# ---------------------------------------------------------------- proofs
TAG = re.compile(r'\bC\d\d\b')
def relevant(label, prop):
    t = TAG.findall(label)
    return not t or prop in t
class Proof:
    """generation and discharge of the obligations for one property"""
    def __init__(self, prop, wd, jobs, rep=None, limit=None):
        self.prop, self.wd, self.jobs, self.rep, self.limit = prop, wd, jobs, rep, limit
        self.fail = []; self.other = []; self.unsup = []; self.units = {}; self.notes = []
        self.ob = self.dis = self.paths = 0; self.secs = 0.0; self.genw = 0.0; self.verusw = 0.0
        self.vacuous = None; self.theory = None; self.trusted = set(); self.inlined = set(); self.used = set(); self.samples = []; self.new = []
    def run(self):
        t0 = time.time()
        keys = [k for k, s in specs.S.items() if self.prop in s.props]
        self.keys = keys
        try: crate = mir.extract(os.path.join(self.wd, 'trees.mir'))
        except Exception as e:
            self.unsup = [(k, 'extraction failed: ' + str(e)[-300:]) for k in keys]; return self
        # vacuous guard: every contract names a function of the tree
        units = []
        mods = set()
        for k in keys:
            m = ex.Machine(crate, specs.S, M)
            try: logs = m.verify(specs.S[k])
            except ex.Unsupported as e: self.unsup.append((k, str(e)[:300])); continue
            except RecursionError: self.unsup.append((k, 'recursion')); continue
            except Exception as e:
                self.unsup.append((k, '%s: %s' % (type(e).__name__, str(e)[:200]))); continue
            if not logs: self.unsup.append((k, 'no path')); continue
            units.append(emit.Unit(k, logs, specs.S[k].mods))
            self.trusted |= m.used_models; self.inlined |= m.inlined; self.used |= m.used
        import outside
        self.new = [x for x in outside.new(crate, specs.S) if x not in self.inlined]
        for x in self.new: self.notes.append('%s has no contract: it is new in this tree and decided only where functions under contract call it' % x)
        self.genw = time.time() - t0
        t1 = time.time()
        th = emit.check_theory(os.path.join(self.wd, 'theory')); self.theory = th
        res, st = emit.check_units(units, os.path.join(self.wd, 'vc'), jobs=self.jobs, deadline=self.limit)
        # a second attempt with more resources before anything is reported
        again = [u for u in units if res[u.key]['status'] != 'ok']
        if again and not (self.rep and self.rep.found):      # a concrete failing input decides already
            sub = [emit.Unit(u.key, u.logs, u.mods) for u in again]
            r2, s2 = emit.check_units(sub, os.path.join(self.wd, 'vc2'), jobs=self.jobs, rlimit=120, per_file=1, deadline=self.limit, errors=4)
            st['seconds'] += s2['seconds']
            for u in again:
                a, b = res[u.key], r2[u.key]
                # without an answer of the second attempt, what the first one refuted stands
                keep = [x for x in a['fail'] if x['kind'] != 'rlimit']
                res[u.key] = dict(a, fail=keep, status='fail') if b['status'] == 'error' and 'TIMEOUT' in b['out'] and keep else b
        if TIER == 'thorough':
            import vacuity
            self.vacuous, s3 = vacuity.run(units, os.path.join(self.wd, 'vac'), self.jobs)
            st['seconds'] += s3['seconds']
            for k in self.vacuous: self.notes.append('the contract of %s is vacuous on this tree: none of its paths can be completed' % k)
        self.verusw = time.time() - t1; self.secs = st['seconds'] + th['seconds']
        for u in units:
            r = res[u.key]; lab = [x for l in u.logs for x in l if x[0] == 'ob' and relevant(x[1], self.prop)]
            self.paths += r['paths']
            d = {'function': u.key, 'paths': r['paths'], 'obligations': len(lab), 'status': r['status']}
            if r['status'] == 'error':
                self.unsup.append((u.key, 'the verifier gave no answer within the time limit' if 'TIMEOUT' in r['out'] else 'the verifier rejected the generated text: ' + r['out'][-300:])); continue
            f = [x for x in r['fail'] if relevant(x['label'], self.prop)]
            o = [x for x in r['fail'] if not relevant(x['label'], self.prop)]
            rl = [x for x in f if x['kind'] == 'rlimit']
            self.ob += len(lab); self.dis += len(lab) - min(len(lab), len(f))
            for x in f: self.fail.append((u.key, x))
            for x in o: self.other.append((u.key, x))
            self.units[u.key] = d
        if not th['ok']: self.notes.append('theory: ' + th['out'][-500:])
        if units: self.samples = sorted({x[1] for x in units[0].logs[0] if x[0] == 'ob'})[:4]
        return self

def main():
    prop = sys.argv[1]
    global TIER
    if '--thorough' in sys.argv: TIER = 'thorough'
    t0 = time.time()
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    ck = next((c for c in man['checks'] if c['property'] == prop), None)
    level = ck['level'] if ck else 'proof'
    os.makedirs(WORK, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='run_%s_' % prop, dir=WORK)
    try: return body(prop, wd, t0, level)
    finally: shutil.rmtree(wd, ignore_errors=True)

def body(prop, wd, t0, level):
    quick = TIER != 'thorough'
    secs = 25 if quick else 240
    berr = build_replay()
    rep = Replay(prop, secs, 3 if quick else 4, wd); prf = Proof(prop, wd, 5 if quick else 4, rep, t0 + 600 if quick else None)
    th = None
    if berr is None:
        th = threading.Thread(target=rep.run); th.start()
    sys.setrecursionlimit(20000)
    prf.run()
    if th: th.join()
    found = None
    if rep.found:
        if rep.shrink(): found = rep.found
        else: prf.notes.append('a failing run could not be reproduced on its own: %r' % (rep.found,))
    viol = bool(found) or bool(prf.fail)
    # ------------------------------------------------------------ report
    print('property %s: %d functions under contract, %d paths, %d obligations, %d discharged (Verus/Z3 %.1f s); theory %s' % (
        prop, len(prf.units), prf.paths, prf.ob, prf.dis, prf.secs, '%d lemmas verified' % prf.theory['verified'] if prf.theory and prf.theory['ok'] else 'NOT verified'))
    print('bounded replay: %d histories, %d distinct' % (rep.evals, rep.distinct) if berr is None else 'bounded replay: not built: ' + berr[-400:])
    for k, why in prf.unsup: print('NOTE: %s is not decided by proof on this tree (bounded replay only): %s' % (k, why))
    for k, x in prf.other: print('NOTE: obligation of another property fails: %s: %s' % (k, x['label']))
    for n in prf.notes: print('NOTE: ' + n)
    rc = 0
    if prf.theory is not None and not prf.theory['ok']:
        print('ERROR: the theory does not verify'); rc = 2
    if viol:
        rd = os.path.join(WORK, 'replays'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s is violated on the current tree of %s\n' % (prop, mir.REPO))
            if found:
                sc, w, why = found
                why2, out = rep.one(sc, w, True)
                f.write('\nconcrete failing input (scenario %s): %s\n%s\n' % (sc, why, out))
                f.write('\nreplay: (cd /verif/replay && CARGO_TARGET_DIR=%s cargo build --release --offline) && %s one %s %s %s -v\n' % (TARGET, REPLAY_BIN, prop, sc, ','.join(map(str, w))))
                print('concrete failing input (scenario %s): %s' % (sc, why)); print(out.rstrip()[-3000:])
            for k, x in prf.fail:
                f.write('\nfailed obligation in %s (path %d): %s\n  at %s\n  %s\n%s\n' % (k, x['path'], x['label'], x['where'], x['line'], x['verus']))
                print('failed obligation in %s: %s' % (k, x['label']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        rc = 1
    elif berr is not None: rc = rc or 2
    elif rep.err: print('ERROR: ' + rep.err); rc = rc or 2
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) (.*)', l)
        if m and m.group(1) == prop: print('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)))
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': SEED, 'level': level, 'wall_s': round(time.time() - t0, 2), 'violations': int(viol),
          'coverage': {'obligations': prf.ob, 'discharged': prf.dis, 'checker_cmd': 'verus <generated file> --triggers-mode silent --rlimit 30 (Verus 0.2026.09.13, Z3 back end), one proof function per path of each function under contract',
                       'trusted_base': ['models of standard-library functions used by the code (vc/models.py): ' + ', '.join(sorted(prf.trusted)),
                                        'MIR semantics of vc/exec.py (symbolic executor), rustc as MIR producer', 'Verus and Z3'],
                       'functions_under_contract': list(prf.units.values()), 'contracts_used_at_calls': sorted(prf.used), 'executed_inline': sorted(prf.inlined),
                       'paths': prf.paths, 'theory_lemmas_verified': prf.theory['verified'] if prf.theory else 0, 'solver_seconds': round(prf.secs, 2),
                       'vacuity_guard': 'not run in the quick tier' if prf.vacuous is None else 'every function under contract has a path that can be completed' if not prf.vacuous else prf.vacuous,
                       'functions_without_contract_new_in_this_tree': prf.new,
                       'not_decided_by_proof_on_this_tree': [{'function': k, 'why': w} for k, w in prf.unsup],
                       'bounded_replay': {'label': 'bounded, not counted as proved', 'histories': rep.evals, 'distinct': rep.distinct, 'seconds': secs, 'bound': 'trees of up to about 60 nodes (mostly up to 12) built at once, histories of at most 60 operations, choice sequences drawn exhaustively by length up to the time limit and then pseudo-randomly'},
                       'evaluations': rep.evals, 'distinct_nontrivial': rep.distinct, 'rule': 'a history is a sequence of choices driving API calls; distinct by the choices consumed', 'samples': prf.samples + (['replay scenarios: ' + ', '.join(rep.names())])},
          'assumptions': ASSUME}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    return rc
ASSUME = ['termination: loops and direct recursion of functions under contract have decreasing measures; loops inside modelled standard-library functions and mutual recursion across contracts (the pinned tree has none) are taken to end; live nodes are finitely many',
          'additions on usize do not overflow (more than 2^64 nodes); subtractions and array indices are checked',
          'RefCell borrow flags and unwinding paths are not modelled',
          'allocation returns fresh memory and does not fail',
          'type parameters are treated as opaque payload values with an identity; their Clone/Eq/Ord/Hash/Display are assumed well behaved']
if __name__ == '__main__': sys.exit(main())
