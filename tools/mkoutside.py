"""regenerates vc/outside.txt from /repo's tree: functions executed inline and functions left out"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
import mir, exec as ex, specs, tempfile
from models import M
sys.setrecursionlimit(20000)
with tempfile.TemporaryDirectory() as d: c = mir.extract(os.path.join(d, 'm'))
inl = set()
for k in specs.S:
    m = ex.Machine(c, specs.S, M); m.verify(specs.S[k]); inl |= m.inlined
out = ['# inlined: executed at the call sites; outside: not reached by a contract']
for k in sorted(c.by_key):
    if k in specs.S or '{closure' in k or 'promoted[' in k or k.startswith('derive('): continue
    out.append(('inlined ' if k in inl else 'outside ') + k)
open(os.path.join(os.path.dirname(mir.__file__), 'outside.txt'), 'w').write('\n'.join(out) + '\n')
