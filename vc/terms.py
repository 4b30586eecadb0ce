"""Symbolic terms (rendered as Verus spec expressions) with constructor folding."""

class T:
    __slots__ = ('sort', 'op', 'args', '_k', '_h', '_r')
    def __init__(self, sort, op, *args):
        self.sort, self.op, self.args = sort, op, args
        self._k = (sort, op) + args
        self._h = hash(self._k); self._r = None
    def __eq__(self, o): return self is o or (isinstance(o, T) and self._h == o._h and self._k == o._k)
    def __ne__(self, o): return not self == o
    def __hash__(self): return self._h
    def __repr__(self): return render(self)
    __str__ = __repr__

class Agg:
    """struct / tuple / enum value with known constructor. name: adt name, 'tuple', 'closure:..'"""
    __slots__ = ('name', 'variant', 'fields')
    def __init__(self, name, variant, fields): self.name, self.variant, self.fields = name, variant, tuple(fields)
    def __repr__(self): return '%s%s%r' % (self.name, '::' + self.variant if self.variant else '', self.fields)
    def __eq__(self, o): return isinstance(o, Agg) and (self.name, self.variant, self.fields) == (o.name, o.variant, o.fields)
    def __hash__(self): return hash((self.name, self.variant, self.fields))
    def with_field(self, i, v):
        f = list(self.fields); f[i] = v
        return Agg(self.name, self.variant, f)

class SymEnum:
    """enum value whose constructor is not known: tag is an int term (variant index), payload per variant"""
    __slots__ = ('name', 'tag', 'variants')
    def __init__(self, name, tag, variants): self.name, self.tag, self.variants = name, tag, variants
    def __repr__(self): return 'Sym%s(%r,%r)' % (self.name, self.tag, self.variants)

class Ref:
    __slots__ = ('loc', 'extra')
    def __init__(self, loc, extra=None): self.loc = loc; self.extra = extra
    def __repr__(self): return '&%r' % (self.loc,)
    def __eq__(self, o): return isinstance(o, Ref) and self.loc == o.loc
    def __hash__(self): return hash(('ref', self.loc))

UNIT = Agg('tuple', None, ())
TRUE, FALSE = T('bool', 'bool', True), T('bool', 'bool', False)

def var(sort, name): return T(sort, 'var', name)
def raw(sort, text): return T(sort, 'var', text)
def num(n): return T('int', 'int', n)
def boolc(b): return TRUE if b else FALSE
NONE = T('O', 'none')
def some(x): return T('O', 'some', x)

def is_some(o):
    if o.op == 'none': return FALSE
    if o.op == 'some': return TRUE
    return T('bool', 'is_some', o)
def unwrap(o):
    if o.op == 'some': return o.args[0]
    return T('P', 'unwrap', o)

def sel(m, p, sort):
    while m.op == 'store':
        if m.args[1] == p: return m.args[2]
        if isnum(m.args[1]) and isnum(p): m = m.args[0]; continue
        break
    return T(sort, 'sel', m, p)
def store(m, p, v):
    if m.op == 'store' and m.args[1] == p: m = m.args[0]
    return T(m.sort, 'store', m, p, v)

def isnum(t): return isinstance(t, T) and t.op == 'int'
def add(a, b):
    if isnum(a) and isnum(b): return num(a.args[0] + b.args[0])
    if isnum(b) and b.args[0] == 0: return a
    if isnum(a) and a.args[0] == 0: return b
    if isnum(b) and a.op == 'add' and isnum(a.args[1]): return add(a.args[0], num(a.args[1].args[0] + b.args[0]))
    return T('int', 'add', a, b)
def sub(a, b):
    if isnum(a) and isnum(b): return num(a.args[0] - b.args[0])
    if isnum(b) and b.args[0] == 0: return a
    if isnum(b) and a.op == 'add' and a.args[1] == b: return a.args[0]
    return T('int', 'sub', a, b)
def mul(a, b):
    if isnum(a) and isnum(b): return num(a.args[0] * b.args[0])
    return T('int', 'mul', a, b)
def div(a, b): return T('int', 'div', a, b)
def rem(a, b): return T('int', 'rem', a, b)
def eq(a, b):
    if a == b: return TRUE
    if isnum(a) and isnum(b): return boolc(a.args[0] == b.args[0])
    if {a.op, b.op} == {'none', 'some'}: return FALSE
    if a.op == 'some' and b.op == 'some': return eq(a.args[0], b.args[0])
    if a.sort == 'O' and b.op == 'none': return not_(is_some(a))
    if a.sort == 'O' and a.op == 'none': return not_(is_some(b))
    if a.sort == 'bool' and b.op == 'bool': return a if b.args[0] else not_(a)
    return T('bool', 'eq', a, b)
def lt(a, b):
    if isnum(a) and isnum(b): return boolc(a.args[0] < b.args[0])
    return T('bool', 'lt', a, b)
def le(a, b):
    if isnum(a) and isnum(b): return boolc(a.args[0] <= b.args[0])
    return T('bool', 'le', a, b)
def not_(a):
    if a.op == 'bool': return boolc(not a.args[0])
    if a.op == 'not': return a.args[0]
    return T('bool', 'not', a)
def and_(a, b):
    if a.op == 'bool': return b if a.args[0] else FALSE
    if b.op == 'bool': return a if b.args[0] else FALSE
    return T('bool', 'and', a, b)
def or_(a, b):
    if a.op == 'bool': return TRUE if a.args[0] else b
    if b.op == 'bool': return TRUE if b.args[0] else a
    return T('bool', 'or', a, b)
def ite(c, a, b):
    if c.op == 'bool': return a if c.args[0] else b
    return T(a.sort, 'ite', c, a, b)

def dctor(variant, *fields): return T('D', 'dctor', variant, *fields)
DFIELDS = {'None': (), 'ScatteredNone': ('owner',), 'Scattered': ('data', 'owner'), 'PiledNone': ('owner',), 'Piled': ('data', 'owner')}
DVARIANTS = ['None', 'ScatteredNone', 'Scattered', 'PiledNone', 'Piled']
def dis(d, variant):
    if d.op == 'dctor': return boolc(d.args[0] == variant)
    return T('bool', 'dis', d, variant)
def dfield(d, variant, fname):
    if d.op == 'dctor' and d.args[0] == variant: return d.args[1 + DFIELDS[variant].index(fname)]
    sort = 'V' if fname == 'data' else ('P' if variant.startswith('Sc') else 'PV')
    return T(sort, 'dfield', d, variant, fname)

def app(sort, fn, *args): return T(sort, 'app', fn, *args)
def fld(sort, t, name): return T(sort, 'fld', t, name)

def render(t):
    if t._r is None:
        t._r = _render(t)
        if len(t._r) > 400000: raise MemoryError('term of %d characters' % len(t._r))     # reported as not decided by proof
    return t._r
def _render(t):
    o, a = t.op, t.args
    R = render
    if o == 'var': return a[0]
    if o == 'int': return '%d' % a[0] if a[0] >= 0 else '(%d)' % a[0]
    if o == 'bool': return 'true' if a[0] else 'false'
    if o == 'none': return 'None::<int>'
    if o == 'some': return 'Some(%s)' % R(a[0])
    if o == 'is_some': return '(%s is Some)' % R(a[0])
    if o == 'unwrap': return '%s->Some_0' % R(a[0])
    if o == 'sel': return '%s[%s]' % (R(a[0]), R(a[1]))
    if o == 'store': return '%s.insert(%s, %s)' % (R(a[0]), R(a[1]), R(a[2]))
    B = {'add': '+', 'sub': '-', 'mul': '*', 'eq': '==', 'lt': '<', 'le': '<=', 'and': '&&', 'or': '||', 'div': '/', 'rem': '%'}
    if o in B: return '(%s %s %s)' % (R(a[0]), B[o], R(a[1]))
    if o == 'not': return '!%s' % paren(R(a[0]))
    if o == 'ite': return '(if %s { %s } else { %s })' % (R(a[0]), R(a[1]), R(a[2]))
    if o == 'dctor':
        if not DFIELDS[a[0]]: return 'D::%s' % a[0]
        return 'D::%s{%s}' % (a[0], ', '.join('%s: %s' % (n, R(x)) for n, x in zip(DFIELDS[a[0]], a[1:])))
    if o == 'dis': return '(%s is %s)' % (R(a[0]), a[1])
    if o == 'dfield': return '%s->%s_%s' % (R(a[0]), a[1], a[2])
    if o == 'app': return '%s(%s)' % (a[0], ', '.join(R(x) if isinstance(x, T) else str(x) for x in a[1:]))
    if o == 'fld': return '%s.%s' % (R(a[0]), a[1])
    if o == 'struct': return '%s{%s}' % (a[0], ', '.join('%s: %s' % (n, R(x)) for n, x in zip(a[1], a[2:])))
    if o == 'seqidx': return '%s[%s]' % (R(a[0]), R(a[1]))
    raise Exception('render ' + o)
def paren(s):
    return s if s.startswith('(') or s.isidentifier() else '(' + s + ')'

VERUS_SORT = {'int': 'int', 'bool': 'bool', 'P': 'int', 'PV': 'int', 'V': 'int', 'O': 'Option<int>', 'D': 'D', 'Nd': 'Nd', 'PB': 'int', 'Q': 'int', 'SET': 'Set<int>', 'R': 'Rose'}
def vsort(s):
    if s.startswith('S:'): return 'Seq<%s>' % vsort(s[2:])
    if s.startswith('M:'): return 'Map<int, %s>' % vsort(s[2:])
    return VERUS_SORT.get(s, s)
