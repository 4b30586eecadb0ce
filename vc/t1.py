import sys, time
from mir import *; from exec import *; import emit
from models import M
import specs
def main(keys, show=True):
    t=time.time()
    c = extract('/tmp/w/mir.txt')
    m = Machine(c, specs.S, M)
    us=[]
    for k in keys:
        try: logs = m.verify(specs.S[k])
        except Unsupported as e:
            print('UNSUPPORTED', k, e); continue
        us.append(emit.Unit(k, logs, specs.S[k].mods))
    t1=time.time()
    res, st = emit.check_units(us, '/tmp/w/vc')
    for k, r in res.items():
        print(k, r['status'], r['paths'], 'paths', r['obligations'], 'obs', r['out'][:3000])
        for f in r['fail'][:6]: print('   path', f['path'], f['kind'], '|', f['label'], '|', f['where'], '\n        ', f['line'][:250])
    print('exec %.1f verus %.1f' % (t1-t, time.time()-t1), st)
if __name__ == '__main__':
    ks = sys.argv[1:]
    if not ks: ks = list(specs.S)
    if len(ks) == 1 and ks[0][:1] == 'C' and ks[0][1:].isdigit(): ks = [k for k in specs.S if ks[0] in specs.S[k].props]
    main(ks)
