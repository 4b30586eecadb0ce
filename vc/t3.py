# one path per file: t3.py KEY [rlimit]
import sys, time
from mir import *; from exec import *; import emit
from models import M
import specs, concurrent.futures as cf
c = extract('/tmp/w/mir.txt'); m = Machine(c, specs.S, M)
k = sys.argv[1]; logs = m.verify(specs.S[k])
rl = int(sys.argv[2]) if len(sys.argv) > 2 else 10
sel = [int(x) for x in sys.argv[3].split(',')] if len(sys.argv) > 3 else range(len(logs))
def one(i):
    t = time.time()
    r, st = emit.check_units([emit.Unit(k, [logs[i]], specs.S[k].mods)], '/tmp/w/vp%d' % i, jobs=1, rlimit=rl, timeout=100)
    return i, r[k], time.time() - t
with cf.ThreadPoolExecutor(7) as ex:
    for i, r, s in ex.map(one, sel):
        print(i, r['status'], '%.1f' % s, len(logs[i]), r['out'][:1500])
        for f in r['fail'][:4]: print('     ', f['kind'], '|', f['label'], '|', f['where'], '|', f['line'][:200])
