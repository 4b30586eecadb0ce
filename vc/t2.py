import sys
from mir import *; from exec import *; import emit, vacuity
from models import M
import specs
c = extract('/tmp/w/mir.txt'); m = Machine(c, specs.S, M); us = []
ks = sys.argv[1:] or list(specs.S)
for k in ks:
    try: us.append(emit.Unit(k, m.verify(specs.S[k]), specs.S[k].mods))
    except Unsupported as e: print('UNSUPPORTED', k, e)
print(vacuity.run(us, '/tmp/w/vac', 8))
