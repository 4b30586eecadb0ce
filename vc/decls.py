"""struct / enum declarations of the crate, read from the source on every run."""
import os, re, glob
from mir import REPO, split_top, parse_type, match_close, match_close_brace

def strip_comments(s):
    s = re.sub(r'//[^\n]*', '', s)
    return re.sub(r'/\*.*?\*/', '', s, flags=re.S)

class Decls:
    def __init__(self):
        self.structs = {}   # name -> (params, [(field, type)])
        self.enums = {}     # name -> (params, [(variant, [(field,type)])])
        for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.rs'))):
            mod = os.path.basename(p)[:-3]
            s = strip_comments(open(p).read())
            for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*', s):
                kind, name = m.group(1), m.group(2)
                j = m.end(); params = []
                if j < len(s) and s[j] == '<':
                    e = match_close(s, j)
                    params = [x.split(':')[0].strip() for x in split_top(s[j+1:e]) if not x.startswith("'")]
                    j = e + 1
                rest = s[j:]
                w = re.match(r'\s*where[^{;(]*', rest)
                if w: j += w.end()
                while j < len(s) and s[j].isspace(): j += 1
                key = name
                if name == 'Visit': key = mod + '::Visit'
                if kind == 'struct':
                    if s[j] == '{':
                        body = s[j+1:match_close_brace(s, j)]
                        fs = []
                        for f in split_top(re.sub(r'#\[[^\]]*\]', '', body)):
                            f = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', f.strip())
                            if ':' not in f: continue
                            a, b = f.split(':', 1); fs.append((a.strip(), b.strip()))
                    elif s[j] == '(':
                        body = s[j+1:match_close(s, j)]
                        fs = [(str(i), re.sub(r'^pub(\s*\([^)]*\))?\s+', '', f.strip())) for i, f in enumerate(split_top(body))]
                    else: fs = []
                    self.structs[key] = (params, [(a, self._pt(b)) for a, b in fs])
                else:
                    if s[j] != '{': continue
                    body = s[j+1:match_close_brace(s, j)]
                    vs = []
                    for v in split_top(re.sub(r'#\[[^\]]*\]', '', body)):
                        m2 = re.match(r'(\w+)\s*(.*)$', v.strip(), re.S)
                        if not m2: continue
                        t = m2.group(2).strip(); fs = []
                        if t.startswith('{'):
                            for f in split_top(t[1:match_close_brace(t, 0)]):
                                a, b = f.split(':', 1); fs.append((a.strip(), b.strip()))
                        elif t.startswith('('):
                            fs = [(str(i), f.strip()) for i, f in enumerate(split_top(t[1:match_close(t, 0)]))]
                        vs.append((m2.group(1), [(a, self._pt(b)) for a, b in fs]))
                    self.enums[key] = (params, vs)
    @staticmethod
    def _pt(s):
        try: return parse_type(re.sub(r"'\w+\s*,?\s*", '', s) if False else s)
        except Exception: return ('param', s)

STD_ENUMS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'],
             'Ordering': ['Less', 'Equal', 'Greater']}

def subst(t, m):
    k = t[0]
    if k == 'adt':
        if len(t) == 2 and t[1] in m: return m[t[1]]
        return ('adt', t[1]) + tuple(subst(x, m) for x in t[2:])
    if k == 'ref': return ('ref', t[1], subst(t[2], m))
    if k == 'ptr': return ('ptr', subst(t[1], m))
    if k in ('tuple',): return ('tuple',) + tuple(subst(x, m) for x in t[1:])
    if k in ('slice', 'arr'): return (k, subst(t[1], m))
    return t
if __name__ == '__main__':
    d = Decls()
    for k, v in d.structs.items(): print(k, v)
    for k, v in d.enums.items(): print(k, v)
