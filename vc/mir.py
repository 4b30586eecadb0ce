"""Extraction and parsing of rustc MIR text (mechanical; nothing is rewritten by hand).

extract(): runs rustc on /repo/src/lib.rs with --emit=mir -Zmir-opt-level=0 and parses every
function.  What the extraction drops: storage markers, unwind (cleanup) blocks, debug-only
statements, retag markers and fake reads.
"""
import os, re, subprocess, sys, functools

REPO = os.environ.get('VERIF_REPO', '/repo')

class MirError(Exception):
    pass

class Fn:
    __slots__ = ('name', 'key', 'params', 'ret', 'locals', 'debug', 'debugs', 'blocks', 'text', 'closure_ty', 'const')
    def __repr__(self): return '<Fn %s>' % self.key

# ---------------------------------------------------------------- splitting helpers
OPEN = {'(': ')', '[': ']', '{': '}'}
def split_top(s, sep=','):
    """split at top level separators; <> counted as brackets except in -> and comparison-free MIR text"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            cur.append(c)
            if c == '\\': cur.append(s[i+1]); i += 1
            elif c == '"': instr = False
            i += 1; continue
        if c == '"': instr = True; cur.append(c); i += 1; continue
        if c in '([{<': depth += 1
        elif c in ')]}': depth -= 1
        elif c == '>' and not (i > 0 and s[i-1] in '-='): depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip()); cur = []
        else: cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t or out: out.append(t)
    if out and out[-1] == '': out.pop()
    return out

def match_close(s, i):
    """index of the bracket closing s[i]"""
    depth, n, instr = 0, len(s), False
    while i < n:
        c = s[i]
        if instr:
            if c == '\\': i += 1
            elif c == '"': instr = False
        elif c == '"': instr = True
        elif c in '([{<': depth += 1
        elif c in ')]}' or (c == '>' and s[i-1] not in '-='):
            depth -= 1
            if depth == 0: return i
        i += 1
    raise MirError('unbalanced: ' + s[:80])

# ---------------------------------------------------------------- types
# A type is a tuple: ('ref', mut, T) ('ptr', T) ('tuple', ...) ('adt', name, args...) ('slice', T)
# ('arr', T) ('closure', span) ('never',) ('param', name) ('fndef', ...) ; lifetimes are dropped.
AMBIG = {'Visit': ('bfs', 'walk', 'tuple')}

@functools.lru_cache(maxsize=None)
def parse_type(s):
    s = s.strip()
    if s == '()': return ('tuple',)
    if s == '!': return ('never',)
    if s.startswith('&'):
        t = s[1:].strip()
        t = re.sub(r"^'\w+\s+", '', t)
        m = False
        if t.startswith('mut '): m, t = True, t[4:]
        return ('ref', m, parse_type(t))
    if s.startswith('*const '): return ('ptr', parse_type(s[7:]))
    if s.startswith('*mut '): return ('ptr', parse_type(s[5:]))
    if s.startswith('('):
        return ('tuple',) + tuple(parse_type(x) for x in split_top(s[1:match_close(s, 0)]))
    if s.startswith('['):
        inner = s[1:match_close(s, 0)]
        p = split_top(inner, ';')
        if len(p) == 2: return ('arr', parse_type(p[0]))
        return ('slice', parse_type(inner))
    if s.startswith('{'): return ('closure', s)
    if s.startswith('<'):
        return ('assoc', s)
    if s.startswith('impl ') or s.startswith('dyn '): return ('param', s)
    if s.startswith('fn(') or s.startswith('unsafe fn') or s.startswith('for<'): return ('fnptr', s)
    i = s.find('<')
    if i < 0: path, args = s, ()
    else:
        path = s[:i]
        args = tuple(parse_type(x) for x in split_top(s[i+1:match_close(s, i)]) if not x.startswith("'"))
        path = path.rstrip(':')
    segs = path.split('::')
    name = segs[-1].strip()
    if name in AMBIG and len(segs) > 1: name = '::'.join(segs[-2:])
    return ('adt', name) + args

def ty_str(t):
    k = t[0]
    if k == 'adt': return t[1] + ('<' + ','.join(ty_str(x) for x in t[2:]) + '>' if len(t) > 2 else '')
    if k == 'ref': return '&' + ('mut ' if t[1] else '') + ty_str(t[2])
    if k == 'ptr': return '*' + ty_str(t[1])
    if k == 'tuple': return '(' + ','.join(ty_str(x) for x in t[1:]) + ')'
    return str(t)

# ---------------------------------------------------------------- places, operands, rvalues
# place: (local, projs)   proj: ('deref',) ('field', n, ty) ('as', variant) ('idx', local) ('cidx', n)
class P:
    def __init__(self, s): self.s = s; self.i = 0

@functools.lru_cache(maxsize=None)
def parse_place(s):
    s = s.strip()
    m = re.fullmatch(r'_(\d+)', s)
    if m: return (int(m.group(1)), ())
    # trailing index
    if s.endswith(']'):
        # find the matching [
        d = 0
        for i in range(len(s)-1, -1, -1):
            if s[i] == ']': d += 1
            elif s[i] == '[':
                d -= 1
                if d == 0: break
        base = parse_place(s[:i]); ix = s[i+1:-1]
        m = re.fullmatch(r'_(\d+)', ix)
        if m: return (base[0], base[1] + (('idx', int(m.group(1))),))
        m = re.fullmatch(r'(\d+) of (\d+)', ix)
        if m: return (base[0], base[1] + (('cidx', int(m.group(1))),))
        raise MirError('place index ' + s)
    if s.startswith('(') and match_close_paren(s) == len(s) - 1:
        t = s[1:-1].strip()
        if t.startswith('*'):
            b = parse_place(t[1:])
            return (b[0], b[1] + (('deref',),))
        # (place.N: Ty) or (place as Variant)
        # find end of inner place
        if t.startswith('('):
            j = match_close_paren(t) + 1
        else:
            j = re.match(r'_\d+', t).end()
        while j < len(t) and t[j] == '[': j = t.index(']', j) + 1
        inner, rest = t[:j], t[j:]
        b = parse_place(inner)
        m = re.match(r'\.(\d+): (.*)$', rest, re.S)
        if m: return (b[0], b[1] + (('field', int(m.group(1)), parse_type(m.group(2))),))
        m = re.match(r' as (?:variant#(\d+)|(\w+))$', rest)
        if m: return (b[0], b[1] + (('as', m.group(2) or int(m.group(1))),))
    raise MirError('place ' + s)

def match_close_paren(s):
    d = 0
    for i, c in enumerate(s):
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return i
    raise MirError('paren ' + s)

def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '): s = s[9:]
    if s.startswith('copy '): return ('copy', parse_place(s[5:]))
    if s.startswith('move '): return ('move', parse_place(s[5:]))
    if s.startswith('deref_copy '): return ('copy', parse_place(s[11:]))
    if s.startswith('const '): return ('const', s[6:].strip())
    raise MirError('operand ' + s)

BINOPS = {'Add','Sub','Mul','Div','Rem','BitAnd','BitOr','BitXor','Shl','Shr','Eq','Ne','Lt','Le','Gt','Ge',
          'AddWithOverflow','SubWithOverflow','MulWithOverflow','Offset','Cmp','AddUnchecked','SubUnchecked'}
UNOPS = {'Not','Neg','PtrMetadata'}

def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '): s = s[9:]
    for pre in ('copy ', 'move ', 'const ', 'deref_copy '):
        if s.startswith(pre):
            # cast?
            m = re.match(r'^(.*) as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s, re.S)
            if m and not s.endswith(': ' + m.group(2)):
                try:
                    op = parse_operand(m.group(1))
                    return ('cast', op, parse_type(m.group(2)), m.group(3))
                except (MirError, AttributeError): pass
            return ('use', parse_operand(s))
    if s.startswith('&'):
        t = s[1:]
        for pre in ('raw const ', 'raw mut ', 'mut ', 'fake shallow ', 'fake ', 'two_phase mut '):
            if t.startswith(pre):
                t = t[len(pre):]; return ('ref', parse_place(t), 'mut' in pre)
        return ('ref', parse_place(t), False)
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and m.group(1) == 'discriminant':
        return ('discr', parse_place(s[13:-1]))
    if m and m.group(1) in ('Len',):
        return ('len', parse_place(s[4:-1]))
    if m and m.group(1) in ('CopyForDeref',):
        return ('use', ('copy', parse_place(s[len('CopyForDeref('):-1])))
    if m and m.group(1) in BINOPS and s.endswith(')'):
        a, b = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in UNOPS and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2: raise MirError('repeat ' + s)
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        j = match_close(s, 0)
        ty = s[:j+1]; rest = s[j+1:].strip()
        ops = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                ops.append(parse_operand(f.split(':', 1)[1]))
        elif rest.startswith('('):
            ops = [parse_operand(x) for x in split_top(rest[1:-1])]
        return ('closure', ty, ops)
    # aggregate ADT
    # struct: Path { a: op, .. }  variant: Path(op,..) or Path
    depth = 0
    for i, c in enumerate(s):
        if c in '<': depth += 1
        elif c == '>' and s[i-1] != '-': depth -= 1
        elif depth == 0 and c in '({': break
    else:
        return ('adt', strip_generics(s), None, [], s)
    head = s[:i].strip()
    if s[i] == '{':
        body = s[i+1:match_close_brace(s, i)]
        names, ops = [], []
        for f in split_top(body):
            a, b = f.split(':', 1)
            names.append(a.strip()); ops.append(parse_operand(b))
        return ('adt', strip_generics(head), names, ops, head)
    ops = [parse_operand(x) for x in split_top(s[i+1:-1])]
    return ('adt', strip_generics(head), None, ops, head)

def match_close_brace(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{': d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0: return j
    raise MirError('brace ' + s)

def strip_generics(s):
    """remove ::<...> and <...> argument lists (not leading <X as Y>)"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '<' and i > 0 and out:
            if s[i:].startswith('<impl '):      # path segment  a::<impl X>::f
                j = match_close(s, i)
                out.append(s[i:j+1]); i = j + 1; continue
            j = match_close(s, i)
            if ''.join(out).endswith('::'): del out[-2:]
            i = j + 1; continue
        if c == '<' and (i == 0 or not out):
            j = match_close(s, i); out.append(s[i:j+1]); i = j + 1; continue
        out.append(c); i += 1
    return ''.join(out)

# ---------------------------------------------------------------- statements / terminators
def parse_targets(s):
    """'[return: bb1, unwind: bb2]' or 'bb5' """
    s = s.strip()
    if s.startswith('['):
        d = {}
        for f in split_top(s[1:-1]):
            if ':' in f:
                k, v = f.split(':', 1); d[k.strip()] = v.strip()
        return d
    return {'return': s}

def parse_line(l):
    """returns ('stmt', ...) or ('term', ...) or None"""
    if l.endswith(';'): l = l[:-1]
    if re.match(r'^(StorageLive|StorageDead|FakeRead|AscribeUserType|PlaceMention|Retag|nop|ConstEvalCounter|Coverage|BackwardIncompatibleDropHint)\b', l): return None
    if l == 'return': return ('return',)
    if l == 'resume' or l.startswith('terminate') : return ('resume',)
    if l == 'unreachable': return ('unreachable',)
    m = re.match(r'^goto -> (bb\d+)$', l)
    if m: return ('goto', m.group(1))
    m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', l, re.S)
    if m:
        t = []
        for f in split_top(m.group(2)):
            k, v = f.split(':'); t.append((None if k.strip() == 'otherwise' else int(re.sub(r'_[iu].*', '', k.strip())), v.strip()))
        return ('switch', parse_operand(m.group(1)), t)
    m = re.match(r'^drop\((.*?)\) -> (.*)$', l, re.S)
    if m: return ('drop', parse_place(m.group(1)), parse_targets(m.group(2)).get('return'))
    m = re.match(r'^assert\((.*)\) -> (\[.*\])$', l, re.S)
    if m:
        parts = split_top(m.group(1)); c = parts[0]; neg = False
        if c.startswith('!'): neg, c = True, c[1:]
        msg = parts[1] if len(parts) > 1 else ''
        d = {}
        for f in split_top(m.group(2)[1:-1]):
            if ':' in f: k, v = f.split(':', 1); d[k.strip()] = v.strip()
        return ('assert', parse_operand(c), neg, msg, d['success'])
    m = re.match(r'^falseEdge -> \[real: (bb\d+),.*$', l)
    if m: return ('goto', m.group(1))
    m = re.match(r'^falseUnwind -> \[real: (bb\d+),.*$', l)
    if m: return ('goto', m.group(1))
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', l)
    if m: raise MirError('set discriminant ' + l)
    # call or assignment
    i = find_assign(l)
    if i is None:
        raise MirError('stmt ' + l)
    dst, rhs = l[:i].strip(), l[i+3:].strip()
    # call?  has ' -> [return' or '-> unwind' or ' -> bbN' suffix at top-level
    m = re.search(r'\) -> (\[return: .*\]|unwind .*|bb\d+)$', rhs, re.S)
    if m:
        call = rhs[:m.start()+1]
        tg = m.group(1)
        ret = parse_targets(tg).get('return') if tg.startswith('[') else (tg if tg.startswith('bb') else None)
        # split callee(args)
        instr, mask, q = False, bytearray(len(call)), 0
        while q < len(call):
            if instr:
                mask[q] = 1
                if call[q] == '\\': q += 1; mask[q] = 1
                elif call[q] == '"': instr = False
            elif call[q] == '"': instr = True; mask[q] = 1
            q += 1
        d, j = 0, len(call) - 1
        while j >= 0:
            if mask[j]: pass
            elif call[j] == ')': d += 1
            elif call[j] == '(':
                d -= 1
                if d == 0: break
            j -= 1
        callee, args = call[:j], call[j+1:-1]
        return ('call', parse_place(dst), callee.strip(), [parse_operand(a) for a in split_top(args)], ret)
    return ('assign', parse_place(dst), parse_rvalue(rhs))

def find_assign(l):
    d = 0
    for i, c in enumerate(l):
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif d == 0 and l.startswith(' = ', i): return i
    return None

def is_term(x): return x[0] in ('return','resume','unreachable','goto','switch','drop','assert','call')

# ---------------------------------------------------------------- functions
def logical_lines(text):
    """joins lines that continue (multi-line statements are not produced by rustc, kept simple)"""
    return [l.strip() for l in text.split('\n')]

def parse_fn(text):
    f = Fn(); f.text = text; f.blocks = None; f.const = None
    head = text[:text.index('\n')]
    if head.startswith('fn '):
        h = head[3:head.rindex('{')].strip()
        # params: last top-level paren group before ' -> '
        # find first '(' such that preceding is the name: names may contain '<impl at ...>' and '{closure#0}'
        depth = 0
        for i, c in enumerate(h):
            if c in '<{': depth += 1
            elif c == '}' or (c == '>' and h[i-1] != '-'): depth -= 1
            elif c == '(' and depth == 0: break
        f.name = h[:i]
        j = match_close(h, i)
        f.params = []
        for p in split_top(h[i+1:j]):
            a, b = p.split(':', 1)
            f.params.append((int(a.strip()[1:]), parse_type(b.strip())))
        f.ret = parse_type(h[j+1:].strip()[2:].strip()) if '->' in h[j:] else ('tuple',)
    else:
        # const X: T = {
        m = re.match(r'^(?:const|static) (.*): (.*?) = \{$', head)
        f.name = m.group(1); f.params = []; f.ret = parse_type(m.group(2)); f.const = True
    return f

def parse_body(f):
    if f.blocks is not None: return f
    f.locals = {i: t for i, t in f.params}
    f.locals[0] = f.ret
    f.debug = {}; f.debugs = []; f.blocks = {}
    cur = None
    for l in logical_lines(f.text[f.text.index('\n')+1:]):
        m = re.match(r'^let (?:mut )?_(\d+): (.*);$', l)
        if m: f.locals[int(m.group(1))] = parse_type(m.group(2)); continue
        m = re.match(r'^debug (\S+) => (.*);$', l)
        if m: f.debug.setdefault(m.group(1), m.group(2)); f.debugs.append((m.group(1), m.group(2))); continue
        m = re.match(r'^(bb\d+)( \(cleanup\))?: \{$', l)
        if m:
            cur = None if m.group(2) else m.group(1)
            if cur: f.blocks[cur] = []
            continue
        if l in ('', '}') or l.startswith('scope ') or l.startswith('//'): continue
        if cur is None: continue
        try: x = parse_line(l)
        except MirError as e:
            x = ('bad', l, str(e))
        if x is not None: f.blocks[cur].append(x)
    return f

# ---------------------------------------------------------------- naming
@functools.lru_cache(maxsize=None)
def src_lines(path):
    try: return open(os.path.join(REPO, path)).read().split('\n')
    except OSError: return []

def impl_header(span):
    """span 'src/node.rs:110:1: 110:16' -> header text of the impl"""
    m = re.match(r'^(\S+?):(\d+):(\d+): (\d+):(\d+)$', span)
    if not m: return None
    p, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
    ls = src_lines(p)
    if l1 > len(ls): return None
    if l1 == l2: return ls[l1-1][c1-1:c2-1]
    t = [ls[l1-1][c1-1:]] + ls[l1:l2-1] + [ls[l2-1][:c2-1]]
    return ' '.join(x.strip() for x in t)

def last_seg(s):
    s = strip_generics(s.strip())
    return s.split('::')[-1]

def norm_key(name, f):
    """a stable key for a function: Type::method, <Type as Trait>::method, or free function name"""
    m = re.search(r'<impl at (\S+?:\d+:\d+: \d+:\d+)>', name)
    if not m:
        return name.split('::')[-1] if '{closure' not in name else name
    rest = name[m.end():].lstrip(':')
    mod = name[:m.start()].rstrip(':').split('::')[-1]
    head = impl_header(m.group(1)) or ''
    head = head.strip()
    if head.startswith('unsafe '): head = head[7:]
    if head.startswith('impl'):
        h = head[4:].strip()
        if h.startswith('<'):
            h = h[match_close(h, 0)+1:].strip()
        h = h.split(' where ')[0].rstrip('{ ').strip()
        # split on ' for ' top level
        k = None; d = 0
        for i in range(len(h)):
            if h[i] in '<(': d += 1
            elif h[i] in '>)': d -= 1
            elif d == 0 and h.startswith(' for ', i): k = i; break
        if k is None:
            return last_seg(h) + '::' + rest
        tr, ty = h[:k].strip(), h[k+5:].strip()
        if '$' in tr or '$' in ty:
            return ('macro', mod, tr, ty, rest)
        return trait_key(ty, tr) + '::' + rest
    # derive: head is the trait name e.g. 'Debug'
    return 'derive(%s):%s::%s' % (mod, head, rest)

def norm_ty(s):
    """Type text for keys: generics and lifetimes dropped"""
    s = s.strip()
    pre = ''
    while s.startswith('&'):
        s = re.sub(r"^&\s*('\w+\s+)?", '', s)
        if s.startswith('mut '): pre += '&mut '; s = s[4:]
        else: pre += '&'
    if s.startswith('Pin<') or '::Pin<' in s[:20]:
        i = s.index('<'); return pre + 'Pin<' + norm_ty(s[i+1:match_close(s, i)]) + '>'
    if s.startswith('('): return pre + s
    return pre + last_seg(s)

def trait_key(ty, tr):
    t = tr.strip()
    i = t.find('<')
    arg = ''
    base = t if i < 0 else t[:i]
    base = base.split('::')[-1]
    if i >= 0 and base not in ('FnMut', 'Fn', 'FnOnce', 'TupleTree', 'TupleForest'):
        args = [norm_ty(x) for x in split_top(t[i+1:match_close(t, i)]) if not x.startswith("'")]
        if args: arg = '<' + ','.join(args) + '>'
    return '<%s as %s%s>' % (norm_ty(ty), base, arg)

class Crate:
    def __init__(self, path):
        self.path = path
        self.fns = {}       # name -> Fn
        self.by_key = {}    # key -> [Fn]
        self.closures = {}  # closure type text -> Fn
        text = open(path).read()
        for m in re.finditer(r'^(?:fn|const|static) .*\{\n(?:.*\n)*?\}$', text, re.M):
            t = m.group(0)
            if t.startswith('const') and ' = {' not in t.split('\n', 1)[0]: continue
            try: f = parse_fn(t)
            except (MirError, AttributeError, ValueError, UnboundLocalError): continue
            f.key = norm_key(f.name, f)
            if isinstance(f.key, tuple):
                _, mod, tr, ty, rest = f.key
                f.key = macro_key(f, mod, tr, ty, rest)
            self.fns[f.name] = f
            self.by_key.setdefault(f.key, []).append(f)
            if '{closure#' in f.name and f.params and f.name.rstrip().endswith('}'):
                ty = f.params[0][1]
                while ty[0] in ('ref',): ty = ty[2]
                if ty[0] == 'closure':      # impls made by one macro share their source position
                    self.closures[ty[1] + '#' + f.name[:f.name.rindex('::')]] = f
                    o = self.closures.get(ty[1], f)
                    if o is not None and o.text.split('\n')[1:] != f.text.split('\n')[1:]: f = None
                    self.closures[ty[1]] = f if o is not None else None
        self.number_tuples()
    def number_tuples(self):
        """the n-th impl of a tuple trait is that of arity n (source order, checked against the type of self)"""
        for k in [k for k in self.by_key if k.startswith('tuple!')]:
            tr, meth = k[6:].split('::', 1)
            l = self.by_key.pop(k)
            if 'promoted' in meth: l = sorted(l, key=lambda f: f.name)
            for n, f in enumerate(l):
                if f.params and 'closure' not in meth and f.params[0][1][0] == 'tuple' and len(f.params[0][1]) - 1 != n + (1 if tr == 'TupleTree' else 0): continue
                f.key = '%s#%d::%s' % (tr, n, meth)
                self.by_key[f.key] = [f]
    def get(self, key):
        l = self.by_key.get(key)
        if not l: return None
        if len(l) > 1: raise MirError('ambiguous function ' + key)
        return parse_body(l[0])
    def closure(self, ty):
        f = self.closures.get(ty)
        return parse_body(f) if f else None

def macro_key(f, mod, tr, ty, rest):
    """impl produced by a macro: self type from the first parameter (or the return type), trait from header"""
    def base(t):
        while t[0] == 'ref': t = t[2]
        return t
    if mod == 'tuple':      # one impl per arity: numbered later (Crate.number_tuples)
        return 'tuple!' + last_seg(tr.split('<')[0]) + '::' + rest
    if '$tree' in ty or '$forest' in ty or '$tree' in tr or '$forest' in tr:
        s = ty.replace('$tree', 'Tree').replace('$forest', 'Forest')
        t = tr.replace('$tree', 'Tree').replace('$forest', 'Forest').replace('<Self>', '<%s>' % s)
        return trait_key(s, t) + '::' + rest
    t = base(f.params[0][1]) if f.params else base(f.ret)
    return '<%s as %s>::%s' % (t[1], last_seg(tr), rest)

def extract(out, extra=()):
    """runs rustc; returns Crate.  Raises MirError on failure."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(os.environ, RUSTC_BOOTSTRAP='1')
    cmd = ['rustc', '+stable', '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'trees', 'src/lib.rs',
           '--emit=mir', '-Zmir-opt-level=0', '-Cdebug-assertions=off', '-Coverflow-checks=on', '-Awarnings', '-o', out] + list(extra)
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=300)
    if r.returncode != 0: raise MirError('rustc failed:\n' + r.stderr[-3000:])
    src_lines.cache_clear()
    return Crate(out)

if __name__ == '__main__':
    c = extract('/tmp/w/trees.mir')
    bad = 0
    keys = {}
    for n, f in c.fns.items():
        parse_body(f)
        for b, st in f.blocks.items():
            for x in st:
                if x[0] == 'bad':
                    bad += 1
                    if bad < 10: print(n, x)
    for k, l in c.by_key.items():
        if len(l) > 1: print('AMBIG', k, [f.name for f in l])
    print(len(c.fns), 'fns', bad, 'bad', len(c.closures), 'closures')
    for k in sorted(c.by_key, key=str):
        if '#' not in k and 'derive' not in k: print('  ', k)
