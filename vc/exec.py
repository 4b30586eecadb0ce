"""Symbolic execution of MIR into verification conditions.

Every path of a function becomes one Verus proof function: assumptions (precondition, branch
conditions, callee postconditions, loop invariants) are `if !(..) { return; }` guards, obligations
are labelled `assert`s.  Callees with a contract are used by contract, others are executed inline.
"""
import sys, copy, os, re, time
from mir import *
from terms import *
from decls import Decls, STD_ENUMS, subst

LEMMA = '#lemma'
class Unsupported(Exception): pass
class NeedHavoc(Exception):
    def __init__(self, key, what): self.key, self.what = key, what
class PathEnd(Exception): pass

NODE_FIELDS = {'prev': 'O', 'next': 'O', 'head': 'O', 'tail': 'O', 'up': 'O', 'deg': 'int', 'desc': 'int', 'data': 'D'}
HEAP = dict(NODE_FIELDS)
HEAP.update({'alive': 'bool', 'cnt': 'int', 'vref': 'int', 'valive': 'bool', 'kids': 'S:P', 'wk': 'int', 'pd': 'int', 'vlive': 'SET'})
HEAP_ORDER = ['prev', 'next', 'head', 'tail', 'up', 'deg', 'desc', 'data', 'alive', 'cnt', 'wk', 'vref', 'valive', 'pd', 'vlive', 'kids']
GHOST = ('kids', 'vlive')
PTR_ADTS = {'NonNull', 'Rc', 'Box', 'Pin', 'Ref', 'RefMut', 'Weak'}
NODE_ADTS = {'Node', 'RefCell', 'Shared'}

# type parameters of the crate's generic functions: an iterator is the sequence of items to come, an item is an
# opaque identity; calls of their trait methods go to the models 'generic:Trait::method'
GENERIC = {'Iter': 'S:P', 'Treelike': 'S:P', 'Item': 'P', 'I': 'S:P', 'F': 'P', 'H': 'S:P', 'Tuple': 'R'}
GENERIC.update({'T%d' % i: 'R' for i in range(40)})
def unify(pt, at, inst):
    """binds the type parameters of pt so that it matches the caller's static type at"""
    if pt[0] == 'adt' and len(pt) == 2 and pt[1] in GENERIC:
        if at[0] != 'param' and at != pt: inst.setdefault(pt[1], at)
        return
    if pt[0] == at[0] == 'ref': unify(pt[2], at[2], inst)
    elif pt[0] == at[0] == 'adt' and pt[1] == at[1]:
        for x, y in zip(pt[2:], at[2:]): unify(x, y, inst)
    elif pt[0] == at[0] == 'tuple':
        for x, y in zip(pt[1:], at[1:]): unify(x, y, inst)

class Frame:
    __slots__ = ('fn', 'bb', 'pc', 'fid', 'dst', 'ret', 'loops', 'inst', 'tail')
    def clone(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__: setattr(f, s, getattr(self, s))
        f.loops = dict(self.loops)
        return f

class State:
    __slots__ = ('frames', 'store', 'heap', 'facts', 'log', 'objty', 'nid', 'trace', 'loopctx', 'pending', 'ghost')
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.store = dict(self.store); s.heap = dict(self.heap); s.facts = dict(self.facts)
        s.log = list(self.log); s.objty = dict(self.objty); s.nid = self.nid; s.trace = list(self.trace)
        s.loopctx = list(self.loopctx); s.pending = self.pending; s.ghost = dict(self.ghost)
        return s

class LoopSpec:
    """inv(E) -> [(label, expr)] evaluated over the state at the loop head; E gives typed access to locals"""
    def __init__(self, inv, dec=None, lemmas=None, ghost=None, body=None):
        self.inv, self.dec, self.lemmas, self.ghost, self.body = inv, dec, lemmas, ghost, body

class Spec:
    def __init__(self, key, pre=None, post=None, mod=(), ret=None, ghost=None, entry=None, exit=None, loops=(), args=None,
                 props=(), objs=True, title='', call=None, ghosts=None, callhint=None, cases=None, inline=False, trusted=None, posthint=None, hints=None, after=None, ghostat=None, mods=None, subloops=None, variant=None):
        self.__dict__.update(locals()); del self.__dict__['self']

class Step:
    def __init__(self, r): self.r = r
class Ctx:
    def __init__(self, m, dst, ret, callee, argtys, tail, st):
        self.m, self.dst, self.ret, self.callee, self.argtys, self.tail = m, dst, ret, callee, argtys, tail
        self.dty = m.dst(st, st.frames[-1], dst)[1] if dst is not None else ('param', '?')
    def done(self, st, v): return self.m.complete(st, v, self.dst, self.ret, self.tail)

NARROW = ('u8', 'u16', 'u32', 'i8', 'i16', 'i32', 'i64', 'isize')
class Machine:
    def __init__(self, crate, specs, models):
        self.crate, self.specs, self.models = crate, specs, models
        self.decls = Decls()
        self.used, self.used_models, self.inlined = set(), set(), set()
        self.maxpaths = 600
        self.maxsteps = 60000

    # ------------------------------------------------------------ types
    def is_node_ptr_target(self, t):
        while t[0] == 'adt' and t[1] in ('RefCell', 'Shared', 'UnsafeCell') and len(t) > 2: t = t[2]
        return t[0] == 'adt' and t[1] == 'Node'
    def ptr_sort(self, t):
        """'P' for pointer-like types to nodes, 'PV' to NodeVec, else None"""
        if t[0] == 'ref': u = t[2]
        elif t[0] == 'ptr': u = t[1]
        elif t[0] == 'adt' and t[1] in PTR_ADTS and len(t) > 2: u = t[2]
        else: return None
        if t[0] == 'adt' and t[1] == 'Pin': return self.ptr_sort(u)
        if self.is_node_ptr_target(u): return 'P'
        if u[0] == 'adt' and u[1] == 'NodeVec': return 'PV'
        return None
    def term_sort(self, t):
        """sort if values of the type are represented as a single term"""
        s = self.ptr_sort(t)
        if s: return s
        if t[0] == 'param' and t[1].startswith('impl FnMut(Visit<'): return 'S:TEv'     # the visits presented so far
        if t[0] == 'assoc':       # <I as IntoIterator>::IntoIter
            g = re.match(r'^<(\w+) as [\w:]+>::IntoIter$', t[1])
            return GENERIC.get(g.group(1)) if g else None
        if t[0] == 'adt':
            n = t[1]
            if n in ('usize', 'isize', 'u8', 'i8', 'u16', 'u32', 'i32', 'u64', 'i64', 'char', 'u128', 'i128'): return 'int'
            if n == 'bool': return 'bool'
            if n == 'Data': return 'D'
            if n == 'Option' and len(t) > 2 and self.ptr_sort(t[2]) == 'P': return 'O'
            if n == 'Ordering': return 'int'
            if n == '@visits': return 'S:TEv'      # the visits to come
            if n == 'Formatter': return 'S:P'      # the text written so far
            if n in self.decls.enums and all(not f for _, f in self.decls.enums[n][1]): return 'int'
            if n == 'Vec' and len(t) > 2 and t[2][0] == 'adt' and t[2][1] == 'Nodes': return 'S:Nd'
            if n == 'Vec' and len(t) > 2 and t[2][0] == 'adt' and t[2][1] == 'usize': return 'S:int'
            if n == 'Nodes': return 'Nd'
            if n in ('T', 'U') and len(t) == 2: return 'V'
            if n in GENERIC and len(t) == 2: return GENERIC[n]
            if n == 'VecDeque' and len(t) > 2 and t[2] == ('adt', 'Iter'): return 'S:S:P'
            if n == 'Cell' and len(t) > 2: return self.term_sort(t[2])
        return None
    STRUCT_SORTS = {'Nd': ('Nodes', [('node', 'O'), ('sentinel', 'O')])}

    def norm(self, v, t):
        """normalise value v of static type t"""
        if v is None: return v
        if isinstance(v, Ref) and not v.loc[1] and v.loc[0][0] in ('N', 'NV'): v = v.loc[0][1]
        if isinstance(v, Agg):
            if t[0] == 'adt' and t[1] == 'Option' and len(t) > 2 and self.ptr_sort(t[2]) == 'P' and v.name == 'Option':
                if v.variant == 'None': return NONE
                x = self.norm(v.fields[0], t[2])
                if isinstance(x, T): return some(x)
                return v
            if v.name == 'Data': return dctor(v.variant, *[self.norm(f, ('param', '?')) for f in v.fields])
            if v.variant is not None and not v.fields:
                vs = self.variants(v.name)
                if v.name in ('Ordering',): return num({'Less': -1, 'Equal': 0, 'Greater': 1}[v.variant])
                if v.name in self.decls.enums and all(not f for _, f in self.decls.enums[v.name][1]): return num(vs.index(v.variant))
        if isinstance(v, SymEnum) and t[0] == 'adt' and t[1] == 'Option' and len(t) > 2 and self.ptr_sort(t[2]) == 'P':
            p = v.variants['Some'][0]
            if isinstance(p, T): return ite(eq(v.tag, num(1)), some(p), NONE)
        return v
    def variants(self, name):
        if name in STD_ENUMS: return STD_ENUMS[name]
        if name in self.decls.enums: return [x for x, _ in self.decls.enums[name][1]]
        raise Unsupported('enum ' + name)

    def new(self, st, sort, base='x'):
        st.nid += 1
        n = '%s_%d' % (base, st.nid)
        st.log.append(('var', n, vsort(sort)))
        return var(sort, n)
    def fresh(self, st, t, base='x', tmap=None):
        s = self.term_sort(t)
        if s:
            v = self.new(st, s, base)
            if t[0] == 'adt' and t[1] == 'usize': self.assume(st, le(num(0), v))
            if s == 'int' and t[0] == 'adt' and t[1] in self.decls.enums:
                n = len(self.decls.enums[t[1]][1])
                self.assume(st, and_(le(num(0), v), lt(v, num(n))))
            if t[0] == 'adt' and t[1] == 'Ordering': self.assume(st, and_(le(num(-1), v), le(v, num(1))))
            return v
        k = t[0]
        if k == 'tuple': return Agg('tuple', None, [self.fresh(st, x, base) for x in t[1:]])
        if k == 'adt':
            n = t[1]
            if n == 'PhantomData': return UNIT
            if n == 'Range': return Agg('Range', None, [self.fresh(st, t[2], base + '_lo'), self.fresh(st, t[2], base + '_hi')])
            if n in ('Option', 'Result'):
                tag = self.new(st, 'int', base + '_tag')
                self.assume(st, and_(le(num(0), tag), le(tag, num(1))))
                if n == 'Option': vs = {'None': (), 'Some': (self.fresh(st, t[2], base),)}
                else: vs = {'Ok': (self.fresh(st, t[2], base),), 'Err': (self.fresh(st, t[3] if len(t) > 3 else ('tuple',), base),)}
                return SymEnum(n, tag, vs)
            if n in self.decls.structs:
                ps, fs = self.decls.structs[n]
                m = dict(zip(ps, t[2:]))
                return Agg(n, None, [self.fresh(st, subst(ft, m), base + '_' + fn) for fn, ft in fs])
            if n in self.decls.enums:
                ps, vs = self.decls.enums[n]
                m = dict(zip(ps, t[2:]))
                tag = self.new(st, 'int', base + '_tag')
                self.assume(st, and_(le(num(0), tag), lt(tag, num(len(vs)))))
                return SymEnum(n, tag, {vn: tuple(self.fresh(st, subst(ft, m), base) for _, ft in vf) for vn, vf in vs})
            h = self.models.get('fresh:' + n)
            if h: return h(self, st, t, base)
        if k == 'ref':
            return Ref((self.newobj(st, self.fresh(st, t[2], base), t[2]), ()))
        if k == 'closure': raise Unsupported('fresh closure')
        h = self.models.get('fresh:' + str(k))
        if h: return h(self, st, t, base)
        raise Unsupported('fresh value of type ' + ty_str(t))
    def newobj(self, st, v, t):
        st.nid += 1
        r = ('X', st.nid)
        st.store[r] = v; st.objty[r] = t
        return r

    # ------------------------------------------------------------ log
    def assume(self, st, c, note=''):
        if isinstance(c, T):
            if c.op == 'bool' and c.args[0]: return
            c = render(c)
        st.log.append(('assume', c, note))
    def oblige(self, st, label, c, kind='ob'):
        if isinstance(c, T):
            if c.op == 'bool' and c.args[0]: return
            c = render(c)
        st.log.append(('ob', label, c, self.where(st)))
    def where(self, st):
        return st.frames[-1].fn.key if st.frames else self.cur_key
    def lemma(self, st, text): st.log.append(('lemma', text))
    def heap_name(self, st):
        """name of a let-bound H with the current heap contents"""
        h = st.heap
        cands = {}
        for f in HEAP_ORDER:
            t = h[f]
            if t.op == 'var' and t.args[0].endswith('.' + f): cands.setdefault(t.args[0][:-len(f)-1], 0)
            else: cands = None; break
        if cands is not None and len(cands) == 1: return list(cands)[0]
        key = tuple(h[f] for f in HEAP_ORDER)
        k = st.ghost.get('hcache')
        if k and k[0] == key: return k[1]
        st.nid += 1
        n = 'g%d' % st.nid
        st.log.append(('hlet', n, [(f, render(h[f])) for f in HEAP_ORDER]))
        st.ghost['hcache'] = (key, n)
        return n

    # ------------------------------------------------------------ places
    # loc = (root, projs); root: ('L',fid,i) ('X',n) ('N',term,adt) ('NV',term)
    def resolve(self, st, fr, place):
        n, projs = place
        root = ('L', fr.fid, n); t = fr.fn.locals[n]; path = ()
        variant = None
        for pr in projs:
            if pr[0] == 'deref':
                v = self.read(st, (root, path))
                t2 = t[2] if t[0] == 'ref' else t[1] if t[0] == 'ptr' else t[2] if len(t) > 2 and t[0] == 'adt' else ('param', '?')
                root, path = self.deref(st, v, t2)
                t = t2
            elif pr[0] == 'field' and t[0] == 'adt' and t[1].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'Box'):
                t = pr[2]; variant = None      # wrappers without a representation of their own
                continue
            elif pr[0] == 'field':
                path = path + (self.fieldproj(st, root, path, t, variant, pr[1]),)
                if root[0] in ('N', 'NV'): root, path = self.simp_heap(root, path)
                t = pr[2]; variant = None
                continue
            elif pr[0] == 'as':
                path = path + (('as', pr[1]),); variant = pr[1]
                continue
            elif pr[0] == 'idx':
                iv = self.read(st, (('L', fr.fid, pr[1]), ()))
                path = path + (('i', iv),)
                t = t[1] if t[0] in ('slice', 'arr') else ('param', '?')
            elif pr[0] == 'cidx':
                path = path + (('i', num(pr[1])),)
                t = t[1] if t[0] in ('slice', 'arr') else ('param', '?')
            variant = None
        return (root, path), t
    def fieldproj(self, st, root, path, t, variant, n):
        if root[0] in ('N', 'NV') and variant is None and t[0] == 'adt' and t[1] in self.decls.structs:
            return ('n', t[1], self.decls.structs[t[1]][1][n][0])
        return ('f', n)
    def simp_heap(self, root, path):
        """canonical heap paths: ('h', field) for scalar fields of a node / vec"""
        if root[0] == 'N':
            out = []
            for p in path:
                if p[0] == 'n' and p[1] == 'Shared':
                    if p[2] == 'data': continue
                    out.append(('h', 'cnt'))
                elif p[0] == 'n' and p[1] == 'Node':
                    out.append(('size',) if p[2] == 'size' else ('h', p[2]))
                elif p[0] == 'n' and p[1] == 'Size':
                    out.pop()
                    out.append(('h', {'degree': 'deg', 'descendants': 'desc'}[p[2]]))
                else: out.append(p)
            return root, tuple(out)
        out = []
        for p in path:
            if p[0] == 'n' and p[1] == 'NodeVec':
                out.append({'ref_cnt': ('h', 'vref'), 'buf': ('buf',)}.get(p[2], p))
            else: out.append(p)
        return root, tuple(out)
    def deref(self, st, v, t):
        if isinstance(v, Ref): return v.loc
        if isinstance(v, T) and v.sort == 'P': return (('N', v), ())
        if isinstance(v, T) and v.sort == 'PV': return (('NV', v), ())
        if isinstance(v, Agg) and v.name == 'str': return (self.newobj(st, v, ('adt', 'str')), ())
        raise Unsupported('deref of %r (%s)' % (v, ty_str(t)))
    def access(self, st, root):
        """memory safety obligation for touching a heap cell"""
        if root[0] == 'N':
            a = sel(st.heap['alive'], root[1], 'bool')
            key = ('al', st.heap['alive'], root[1])
            if key not in st.facts:
                st.facts[key] = True
                self.oblige(st, 'access to live node', a)
        elif root[0] == 'NV':
            a = sel(st.heap['valive'], root[1], 'bool')
            key = ('al', st.heap['valive'], root[1])
            if key not in st.facts:
                st.facts[key] = True
                self.oblige(st, 'access to live node buffer', a)

    def read(self, st, loc):
        root, path = loc
        if root[0] == 'N':
            if not path:
                self.access(st, root)
                h = st.heap
                return Agg('Node', None, [self.read(st, (root, (('size',) if f == 'size' else ('h', f),))) for f, _ in self.decls.structs['Node'][1]])
            p0 = path[0]
            if not (p0[0] == 'h' and p0[1] in ('cnt',)): self.access(st, root)
            if p0[0] == 'size':
                v = Agg('Size', None, [sel(st.heap[{'degree': 'deg', 'descendants': 'desc'}[f]], root[1], 'int') for f, _ in self.decls.structs['Size'][1]])
            elif p0[0] == 'h':
                v = sel(st.heap[p0[1]], root[1], HEAP[p0[1]])
            else: raise Unsupported('heap path %r' % (path,))
            return self.proj(st, v, path[1:])
        if root[0] == 'NV':
            p0 = path[0] if path else None
            self.access(st, root)
            if p0 and p0[0] == 'h': return self.proj(st, sel(st.heap[p0[1]], root[1], HEAP[p0[1]]), path[1:])
            raise Unsupported('read of NodeVec path %r' % (path,))
        if root not in st.store or st.store[root] is None:
            raise Unsupported('read of uninitialised %r %r in %s' % (root, path, self.where(st)))
        return self.proj(st, st.store[root], path)
    def proj(self, st, v, path):
        for i, p in enumerate(path):
            if v is None: raise Unsupported('projection of uninit')
            if p[0] == 'f':
                if isinstance(v, Agg):
                    if p[1] >= len(v.fields): raise Unsupported('field %r of %r' % (p, v))
                    v = v.fields[p[1]]
                elif isinstance(v, T) and v.sort in self.STRUCT_SORTS:
                    fn, fs = self.STRUCT_SORTS[v.sort][1][p[1]]
                    v = fld(fs, v, fn) if v.op != 'struct' else v.args[2 + p[1]]
                elif isinstance(v, T) and v.sort in ('P', 'PV'):   # NonNull(ptr) wrappers, Rc internals
                    pass
                elif isinstance(v, T) and v.op == 'var' and ('.%d' % p[1]) : raise Unsupported('field of %r' % v)
                else: raise Unsupported('field %r of %r' % (p, v))
            elif p[0] == 'n':   # named field reached through a P value
                raise Unsupported('named field on value')
            elif p[0] == 'as':
                vr = p[1]
                if isinstance(v, Agg):
                    if v.variant != vr: v = ('badvariant',)
                    continue
                if isinstance(v, SymEnum):
                    v = Agg(v.name, vr, v.variants[vr]); continue
                if isinstance(v, T) and v.sort == 'O':
                    v = Agg('Option', vr, [unwrap(v)] if vr == 'Some' else []); continue
                if isinstance(v, T) and v.sort == 'D':
                    v = Agg('Data', vr, [dfield(v, vr, f) for f in DFIELDS[vr]]); continue
                raise Unsupported('downcast %r of %r' % (p, v))
            elif p[0] == 'i':
                if isinstance(v, T) and v.sort.startswith('S:'):
                    v = T(v.sort[2:], 'seqidx', v, p[1])
                elif isinstance(v, Agg) and isnum(p[1]): v = v.fields[p[1].args[0]]
                else: raise Unsupported('index of %r' % (v,))
            else: raise Unsupported('projection %r' % (p,))
            if v == ('badvariant',): raise PathEnd()
        return v
    def inject(self, st, v, path, x):
        """value v with the part at path replaced by x"""
        if not path: return x
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Agg): return v.with_field(p[1], self.inject(st, v.fields[p[1]], path[1:], x))
            if isinstance(v, T) and v.sort in self.STRUCT_SORTS:
                nm, fs = self.STRUCT_SORTS[v.sort]
                cur = [self.proj(st, v, (('f', i),)) for i in range(len(fs))]
                cur[p[1]] = self.inject(st, cur[p[1]], path[1:], x)
                return T(v.sort, 'struct', v.sort, tuple(f for f, _ in fs), *cur)
        if p[0] == 'as':
            if isinstance(v, T) and v.sort == 'O':
                return some(self.inject(st, Agg('Option', 'Some', [unwrap(v)]), path[1:], x).fields[0])
            if isinstance(v, T) and v.sort == 'D':
                a = self.inject(st, Agg('Data', p[1], [dfield(v, p[1], f) for f in DFIELDS[p[1]]]), path[1:], x)
                return dctor(p[1], *a.fields)
            if isinstance(v, Agg): return self.inject(st, v, path[1:], x)
            if isinstance(v, SymEnum):
                a = self.inject(st, Agg(v.name, p[1], v.variants[p[1]]), path[1:], x)
                d = dict(v.variants); d[p[1]] = a.fields
                return SymEnum(v.name, v.tag, d)
        if p[0] == 'i' and isinstance(v, T):
            cur = self.proj(st, v, (p,))
            return app(v.sort, 'Seq::update', v, p[1], self.inject(st, cur, path[1:], x))
        raise Unsupported('write path %r into %r' % (path, v))
    def note_write(self, st, what):
        for lk, pre_nid, (_, fids), hv in st.loopctx:
            if what in hv: continue
            if what[0] == 'heap': raise NeedHavoc(lk, what)
            if what[0] == 'X' and what[1] > pre_nid: continue
            if what[0] == 'L' and what[1] not in fids: continue
            raise NeedHavoc(lk, what)
    def write_heap(self, st, field, p, v):
        self.note_write(st, ('heap', field))
        st.heap[field] = store(st.heap[field], p, v)
    def set_heap(self, st, field, t):
        self.note_write(st, ('heap', field))
        st.heap[field] = t
    def write(self, st, loc, v, t=None):
        root, path = loc
        if root[0] == 'N':
            if path != (('h', 'cnt'),): self.access(st, root)
            p = root[1]
            if not path:
                if isinstance(v, Agg) and v.name == 'Node':
                    for (f, _), x in zip(self.decls.structs['Node'][1], v.fields):
                        self.write(st, (root, (('size',) if f == 'size' else ('h', f),)), x)
                    return
                raise Unsupported('write whole %r' % (v,))
            p0 = path[0]
            if p0[0] == 'size':
                if len(path) == 1:
                    if not isinstance(v, Agg): raise Unsupported('size value %r' % (v,))
                    for (f, _), x in zip(self.decls.structs['Size'][1], v.fields):
                        self.write_heap(st, {'degree': 'deg', 'descendants': 'desc'}[f], p, x)
                    return
                f = self.decls.structs['Size'][1][path[1][1]][0]
                self.write_heap(st, {'degree': 'deg', 'descendants': 'desc'}[f], p, v); return
            if p0[0] == 'h':
                f = p0[1]
                if len(path) > 1: v = self.inject(st, sel(st.heap[f], p, HEAP[f]), path[1:], v)
                v = self.norm(v, {'O': ('adt', 'Option', ('ptr', ('adt', 'Node'))), 'D': ('adt', 'Data')}.get(HEAP[f], ('param', '?')))
                if not isinstance(v, T): raise Unsupported('heap value %r' % (v,))
                self.write_heap(st, f, p, v); return
            raise Unsupported('heap write %r' % (path,))
        if root[0] == 'NV':
            self.access(st, root)
            if path and path[0][0] == 'h' and len(path) == 1:
                self.write_heap(st, path[0][1], root[1], v); return
            raise Unsupported('write of NodeVec path %r' % (path,))
        self.note_write(st, root)
        if path:
            if root not in st.store or st.store[root] is None:
                raise Unsupported('partial init of %r' % (root,))
            v = self.inject(st, st.store[root], path, v)
        st.store[root] = v

    # ------------------------------------------------------------ operands, rvalues
    def const(self, st, fr, c):
        c = c.strip()
        if c == '()': return UNIT
        if c in ('true', 'false'): return boolc(c == 'true')
        m = re.match(r'^(-?\d+)_([iu]\w+)$', c)
        if m: return num(int(m.group(1)))
        if c.startswith('"'): return Agg('str', None, [c])
        h = self.models.get('const')
        if h:
            v = h(self, st, fr, c)
            if v is not None: return v
        if 'PhantomData' in c: return UNIT
        return Agg('const', None, [c])
    def operand(self, st, fr, op):
        if op[0] == 'const': return self.const(st, fr, op[1])
        loc, t = self.resolve(st, fr, op[1])
        return self.norm(self.read(st, loc), t)
    def op_type(self, st, fr, op):
        if op[0] == 'const': return ('param', 'const')
        n, projs = op[1]
        t = fr.fn.locals[n]
        for pr in projs:
            if pr[0] == 'deref': t = t[2] if t[0] == 'ref' else t[1] if t[0] == 'ptr' else (t[2] if len(t) > 2 else ('param', '?'))
            elif pr[0] == 'field': t = pr[2]
            elif pr[0] in ('idx', 'cidx'): t = t[1] if t[0] in ('slice', 'arr') else ('param', '?')
        return t
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k == 'ref':
            loc, t = self.resolve(st, fr, rv[1])
            if not loc[1] and loc[0][0] in ('N', 'NV'): return loc[0][1]
            return Ref(loc)
        if k == 'discr':
            loc, t = self.resolve(st, fr, rv[1])
            return self.discr(st, self.read(st, loc))
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            if 'Overflow' in rv[1] and isinstance(dty, tuple) and dty[0] == 'tuple' and self.intname(dty[1]) in NARROW:
                raise Unsupported('arithmetic on ' + self.intname(dty[1]))     # overflow of narrow types is reachable
            return self.binop(st, rv[1], a, b)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not' and isinstance(a, T) and a.sort == 'bool': return not_(a)
            raise Unsupported('unop ' + rv[1])
        if k == 'tuple': return Agg('tuple', None, [self.operand(st, fr, o) for o in rv[1]])
        if k == 'array': return Agg('array', None, [self.operand(st, fr, o) for o in rv[1]])
        if k == 'closure': return Agg('closure:' + (rv[1] if rv[1] + '#' + fr.fn.name not in self.crate.closures else rv[1] + '#' + fr.fn.name), None, [self.operand(st, fr, o) for o in rv[2]])
        if k == 'adt':
            path = rv[1].split('::')
            vals = [self.operand(st, fr, o) for o in rv[3]]
            name = path[-1]
            isvar = len(path) > 1 and path[-2] in self.decls.enums and name in [q for q, _ in self.decls.enums[path[-2]][1]]
            if not isvar and (name in self.decls.structs or (name in AMBIG)):
                if len(path) > 1 and name in AMBIG: name = '::'.join(path[-2:])
                return self.mkstruct(st, name, rv[2], vals)
            if len(path) >= 2:
                en = path[-2]
                if en in AMBIG: en = '::'.join(path[-3:-1]) if len(path) >= 3 else self.ambig_enum(fr, en)
                if en in STD_ENUMS or en in self.decls.enums:
                    if rv[2] is not None and en in self.decls.enums:
                        fs = dict(self.decls.enums[en][1])[path[-1]]
                        mp = dict(zip(rv[2], vals)); vals = [mp[f] for f, _ in fs]
                    return self.norm(Agg(en, path[-1], vals), dty)
            if name == 'PhantomData': return UNIT
            return Agg(name, None, vals)
        if k == 'cast':
            v = self.operand(st, fr, rv[1])
            kind = rv[3]
            if kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('BoxDerefTransmute') or kind.startswith('PointerCoercion'):
                return self.norm(v, rv[2])
            if kind.startswith('PointerExposeProvenance'):
                if isinstance(v, T) and v.sort in ('P', 'PV', 'PB'): return app('int', 'addr_' + v.sort.lower(), v)
            if kind == 'IntToInt' and isinstance(v, T):
                # a narrowing cast drops the high bits; signed casts are not modelled
                if v.sort == 'bool': return ite(v, num(1), num(0))
                w = {'u8': 8, 'u16': 16, 'u32': 32}.get(self.intname(rv[2]))
                if w: return rem(v, num(2 ** w))
                if self.intname(rv[2]) in ('usize', 'u64', 'u128') and self.unsigned(st, fr, rv[1]): return v
            raise Unsupported('cast ' + kind + ' of %r' % (v,))
        if k == 'len':
            raise Unsupported('Len')
        raise Unsupported('rvalue ' + k)
    def intname(self, ty):
        return ty[1] if isinstance(ty, tuple) and len(ty) > 1 and isinstance(ty[1], str) else str(ty)
    def unsigned(self, st, fr, op):
        if op[0] == 'const': return True
        return self.intname(self.op_type(st, fr, op)) in ('usize', 'u64', 'u32', 'u16', 'u8')
    def ambig_enum(self, fr, en):
        for m in AMBIG[en]:
            if ('::' + m + '::') in ('::' + fr.fn.name): return m + '::' + en
        raise Unsupported('ambiguous ' + en)
    def mkstruct(self, st, name, names, vals):
        if names is not None:
            fs = self.decls.structs[name][1]
            mp = dict(zip(names, vals))
            vals = [mp.get(f) for f, _ in fs]
            vals = [self.norm(v, t) for v, (_, t) in zip(vals, fs)]
        if name == 'Nodes':
            fs = self.STRUCT_SORTS['Nd'][1]
            return T('Nd', 'struct', 'Nd', tuple(f for f, _ in fs), *vals)
        return Agg(name, None, vals)
    def discr(self, st, v):
        if isinstance(v, Agg):
            vs = self.variants(v.name)
            if v.name == 'Ordering': return num({'Less': -1, 'Equal': 0, 'Greater': 1}[v.variant])
            return num(vs.index(v.variant))
        if isinstance(v, SymEnum): return v.tag
        if isinstance(v, T):
            if v.sort == 'O':
                if v.op == 'none': return num(0)
                if v.op == 'some': return num(1)
                return T('int', 'discrO', v)
            if v.sort == 'D':
                if v.op == 'dctor': return num(DVARIANTS.index(v.args[0]))
                return T('int', 'discrD', v)
            if v.sort == 'int': return v
        raise Unsupported('discriminant of %r' % (v,))
    def binop(self, st, op, a, b):
        if op in ('Eq', 'Ne'):
            if isinstance(a, Agg) and isinstance(b, Agg): raise Unsupported('struct equality')
            r = eq(a, b); return r if op == 'Eq' else not_(r)
        if op == 'Lt': return lt(a, b)
        if op == 'Le': return le(a, b)
        if op == 'Gt': return lt(b, a)
        if op == 'Ge': return le(b, a)
        if op == 'BitAnd' and a.sort == 'bool': return and_(a, b)
        if op == 'BitOr' and a.sort == 'bool': return or_(a, b)
        if op == 'Add': return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op == 'Div': return div(a, b)
        if op == 'Rem': return rem(a, b)
        if op == 'AddWithOverflow': return Agg('tuple', None, [add(a, b), T('bool', 'ovf_add')])
        if op == 'SubWithOverflow': return Agg('tuple', None, [sub(a, b), lt(a, b)])
        if op == 'MulWithOverflow': return Agg('tuple', None, [mul(a, b), T('bool', 'ovf_add')])
        raise Unsupported('binop ' + op)

    # ------------------------------------------------------------ driver
    def start(self, fn, args, st, spec):
        fr = self.push_frame(st, fn, args, None, None)
        return fr
    def push_frame(self, st, fn, args, dst, ret, tail=None):
        if len(st.frames) > 24: raise Unsupported('call depth')
        f = Frame(); f.fn = fn; f.bb = 'bb0'; f.pc = 0
        st.nid += 1; f.fid = st.nid; f.dst = dst; f.ret = ret; f.loops = {}; f.inst = None; f.tail = tail
        st.frames.append(f)
        if len(args) != len(fn.params): raise Unsupported('arity of ' + fn.key)
        for (i, t), a in zip(fn.params, args):
            st.store[('L', f.fid, i)] = self.norm(a, t)
        return f

    def explore(self, st0, on_end):
        """runs all paths from st0; on_end(state, retval) at the end of each"""
        work = [st0]; n = 0; steps = 0; t0 = time.process_time()
        while work:
            st = work.pop()
            while True:
                steps += 1
                if steps > self.maxsteps: raise Unsupported('too many steps')
                if not steps % 64 and time.process_time() - t0 > 150: raise Unsupported('too much time')
                try:
                    nxt = self.step(st)
                except PathEnd:
                    break
                if nxt is None: continue
                if nxt == 'end':
                    n += 1
                    if n > self.maxpaths: raise Unsupported('too many paths')
                    on_end(st); break
                if nxt == 'cut':
                    n += 1
                    self.on_cut(st); break
                # forks
                work.extend(nxt); break

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn.blocks.get(fr.bb)
        if blk is None: raise Unsupported('missing block %s' % fr.bb)
        if fr.pc == 0:
            while st.loopctx and st.loopctx[-1][2][0] == [f.fid for f in st.frames] and fr.bb not in loop_body(fr.fn, st.loopctx[-1][0][1]): st.loopctx.pop()    # the loop is left
            r = self.loop_head(st, fr)
            if r: return r
        x = blk[fr.pc]
        k = x[0]
        if k == 'bad': raise Unsupported('statement: ' + x[1])
        if k == 'assign':
            dloc, dty = self.dst(st, fr, x[1])
            v = self.rvalue(st, fr, x[2], dty)
            self.write(st, dloc, self.norm(v, dty)); fr.pc += 1; return None
        if k == 'goto': return self.jump(st, fr, x[1])
        if k == 'switch':
            v = self.operand(st, fr, x[1])
            return self.switch(st, fr, v, x[2])
        if k == 'assert':
            v = self.operand(st, fr, x[1])
            if not (isinstance(v, T) and v.op == 'ovf_add'):
                c = not_(v) if x[2] else v
                for t in counts_in(c): self.assume(st, '0 <= ' + render(t), 'unsigned')      # the fields are usize
                self.oblige(st, 'no arithmetic underflow / bounds: ' + x[3][:60], c)
                self.assume(st, c)
            return self.jump(st, fr, x[4])
        if k == 'drop':
            loc, t = self.resolve(st, fr, x[1])
            fr.bb, fr.pc = x[2], 0
            root = loc[0]
            if root[0] in ('L', 'X') and st.store.get(root) is None: return None
            v = self.read(st, loc) if root[0] not in ('N', 'NV') or loc[1] else None
            if root[0] == 'N' and not loc[1]: raise Unsupported('drop of node in place')
            return self.drop_value(st, v, t, loc)
        if k == 'call': return self.call(st, fr, x)
        if k == 'return': return self.do_return(st, fr)
        if k == 'unreachable':
            self.oblige(st, 'unreachable code is not reached', FALSE); raise PathEnd()
        raise Unsupported('terminator ' + k)

    def dst(self, st, fr, place):
        n, projs = place
        if not projs: return (('L', fr.fid, n), ()), fr.fn.locals[n]
        loc, t = self.resolve(st, fr, place)
        return loc, t
    def jump(self, st, fr, bb):
        fr.bb, fr.pc = bb, 0
        return None
    def switch(self, st, fr, v, targets):
        if isinstance(v, T) and v.sort == 'bool':
            if v.op == 'bool': c = 1 if v.args[0] else 0
            else: c = st.facts.get(v)
            if v.op == 'not' and c is None:
                c2 = st.facts.get(v.args[0]); c = None if c2 is None else 1 - c2
            if c is not None: return self.jump(st, fr, self.pick(targets, c))
            out = []
            for val in (1, 0):
                bb = self.pick(targets, val)
                if bb not in fr.fn.blocks or self.is_unreachable(fr.fn, bb) and False: pass
                s2 = st.clone(); f2 = s2.frames[-1]
                s2.facts[v] = val
                if v.op == 'not': s2.facts[v.args[0]] = 1 - val
                self.learn(s2, v, val)
                self.assume(s2, v if val else not_(v), 'branch')
                s2.trace.append((fr.fn.key, fr.bb, bb))
                f2.bb, f2.pc = bb, 0
                out.append(s2)
            return out
        if isinstance(v, T) and v.sort == 'int':
            if v.op == 'int': return self.jump(st, fr, self.pick(targets, v.args[0] if v.args[0] >= 0 else v.args[0] & 0xff))
            c = st.facts.get(v)
            if c is not None: return self.jump(st, fr, self.pick(targets, c if c >= 0 else c & 0xff))
            poss = self.possible(v, targets)
            out = []
            seen_else = None
            for val, bb in poss:
                s2 = st.clone(); f2 = s2.frames[-1]
                if val is None:
                    for q, _ in targets:
                        if q is not None: self.assume(s2, not_(self.is_tag(v, q)), 'branch')
                else:
                    s2.facts[v] = val
                    self.learn_tag(s2, v, val)
                    self.assume(s2, self.is_tag(v, val), 'branch')
                s2.trace.append((fr.fn.key, fr.bb, bb))
                f2.bb, f2.pc = bb, 0
                out.append(s2)
            return out
        raise Unsupported('switch on %r' % (v,))
    def possible(self, v, targets):
        listed = [(val, bb) for val, bb in targets if val is not None]
        other = [bb for val, bb in targets if val is None]
        n = None
        if v.op == 'discrO': n = 2
        elif v.op == 'discrD': n = 5
        if n is not None and other:
            have = {val for val, _ in listed}
            listed += [(i, other[0]) for i in range(n) if i not in have]
            return listed
        # signed small ints (Ordering) appear as 255
        listed = [((val - 256 if val == 255 else val), bb) for val, bb in listed]
        return listed + [(None, bb) for bb in other]
    def is_tag(self, v, val):
        if v.op == 'discrO': return is_some(v.args[0]) if val == 1 else not_(is_some(v.args[0]))
        if v.op == 'discrD': return dis(v.args[0], DVARIANTS[val])
        return eq(v, num(val))
    def learn_tag(self, st, v, val):
        if v.op == 'discrO': st.facts[is_some(v.args[0])] = val
        if v.op == 'discrD':
            for i, n in enumerate(DVARIANTS): st.facts[dis(v.args[0], n)] = 1 if i == val else 0
    def learn(self, st, v, val):
        if v.op == 'is_some': st.facts[T('int', 'discrO', v.args[0])] = val
        if v.op == 'eq' and val and isnum(v.args[1]): st.facts[v.args[0]] = v.args[1].args[0]
        if v.op == 'dis' and val: st.facts[T('int', 'discrD', v.args[0])] = DVARIANTS.index(v.args[1])
    def pick(self, targets, c):
        for val, bb in targets:
            if val == c: return bb
        for val, bb in targets:
            if val is None: return bb
        raise PathEnd()
    def is_unreachable(self, fn, bb):
        b = fn.blocks.get(bb); return bool(b) and b[0][0] == 'unreachable'

    def do_return(self, st, fr):
        v = self.norm(st.store.get(('L', fr.fid, 0), UNIT), fr.fn.ret)
        if v is None: v = UNIT
        if len(st.frames) == 1 and fr.tail is None:
            st.pending = v
            return 'end'
        st.frames.pop()
        if fr.tail: return fr.tail(self, st, v)
        caller = st.frames[-1]
        if fr.dst is not None:
            self.write_ret(st, caller, fr.dst, v)
        if fr.ret is None: raise PathEnd()
        caller.bb, caller.pc = fr.ret, 0
        return None
    def write_ret(self, st, fr, dstplace, v):
        if v is None: v = UNIT
        loc, t = self.dst(st, fr, dstplace)
        self.write(st, loc, self.norm(v, t))

    # ------------------------------------------------------------ calls
    def callee_keys(self, callee):
        c = callee.strip()
        if c.startswith('move ') or c.startswith('copy '): raise Unsupported('indirect call')
        if c.startswith('<'):
            j = match_close(c, 0)
            inner = c[1:j]; meth = strip_generics(c[j+1:]).lstrip(':')
            d = 0; k = None
            for i in range(len(inner)):
                if inner[i] in '<([{': d += 1
                elif inner[i] in ')]}' or (inner[i] == '>' and inner[i-1] not in '-='): d -= 1
                elif d == 0 and inner.startswith(' as ', i): k = i; break
            if k is None: return [norm_ty(inner) + '::' + meth]
            ty, tr = inner[:k], inner[k+4:]
            key = trait_key(ty, tr) + '::' + meth
            keys = [key]
            # blanket reference impls:  <&mut I as Iterator>::next
            t = tr.strip(); base = t.split('<')[0].split('::')[-1]
            if base == 'Into' and meth == 'into':       # std: X into Y is Y from X
                keys.append(trait_key(t[t.index('<')+1:match_close(t, t.index('<'))], 'From<%s>' % ty) + '::from')
            if base in ('Sub', 'Div', 'Add') and '<' not in t: keys.append(trait_key(ty, base + '<' + ty + '>') + '::' + meth)    # the right operand is of the same type
            keys.append('<_ as %s>::%s' % (strip_generics(tr.strip()).split('::')[-1].split('<')[0], meth))
            return keys
        m = re.search(r'<impl ([^>]*(?:<.*>)?[^>]*)>::(\w+)', c)
        if m:
            t = m.group(1)
            if t.startswith('['): return ['slice::' + m.group(2)]
            return [last_seg(t) + '::' + m.group(2)]
        s = strip_generics(c)
        segs = s.split('::')
        return ['::'.join(segs[-2:]), segs[-1]] if len(segs) >= 2 else [segs[-1]]
    def call(self, st, fr, x):
        _, dst, callee, ops, ret = x
        args = [self.operand(st, fr, o) for o in ops]
        argtys = [self.op_type(st, fr, o) for o in ops]
        if fr.inst: argtys = [subst(t, fr.inst) for t in argtys]
        g = re.match(r'^<(&mut )?(\w+) as ([\w:]+?)(?:<.*>)?>::(\w+)', callee)
        if g and g.group(2) in GENERIC:
            it = (fr.inst or {}).get(g.group(2))
            tr = g.group(3).split('::')[-1]
            keys = ['generic:%s::%s' % (tr, g.group(4))] if it is None else [trait_key((g.group(1) or '') + ty_text(it), tr) + '::' + g.group(4)]
        elif re.match(r'^<(&mut )?impl FnMut\(Visit<', callee): keys = ['@visit']
        else:
            g = re.match(r'^<(?:&mut )?<(\w+) as [\w:]+>::IntoIter as ([\w:]+)>::(\w+)', callee)
            if g and g.group(1) in GENERIC: keys = ['generic:%s::%s' % (g.group(2).split('::')[-1], g.group(3))]
            else: keys = self.callee_keys(callee)
        return self.dispatch(st, keys, args, dst, ret, callee, argtys)
    def dispatch(self, st, keys, args, dst, ret, callee, argtys, tail=None):
        c = Ctx(self, dst, ret, callee, argtys, tail, st)
        for key in keys:
            sp = self.specs.get(key)
            if sp is not None and not sp.inline:
                self.used.add(key)
                return self.call_contract(st, sp, args, c)
            h = self.models.get(key)
            if h is not None:
                self.used_models.add(key)
                return self.finish_call(st, h(self, st, args, c), c)
            f = self.crate.get(key)
            if f is not None:
                if sum(1 for q in st.frames if q.fn is f) >= 3: raise Unsupported('recursion without contract: ' + key)
                self.inlined.add(key)
                nf = self.push_frame(st, f, args, dst, ret, tail)
                inst = {}
                for (_, pt), at in zip(f.params, argtys): unify(pt, at, inst)
                nf.inst = inst or None
                return None
        raise Unsupported('call of ' + ' | '.join(keys))
    def finish_call(self, st, r, c):
        """r: value | Step(result of a step)"""
        if isinstance(r, Step): return r.r
        return c.done(st, r)
    def complete(self, st, v, dst, ret, tail):
        if tail: return tail(self, st, v)
        fr = st.frames[-1]
        if dst is not None: self.write_ret(st, fr, dst, v)
        if ret is None: raise PathEnd()
        fr.bb, fr.pc = ret, 0
        return None
    def forks(self, items):
        """items: list of (state, fn(state) -> step result); merges the results into one"""
        out = []
        for s, f in items:
            try: r = f(s)
            except PathEnd: continue
            if r is None: out.append(s)
            elif isinstance(r, list): out.extend(r)
            else: raise Unsupported('end of path inside a fork')
        return out
    def invoke(self, st, keys_or_fn, args, tail, argtys=None):
        """call from inside a model; tail(machine, state, value) -> step result continues"""
        if isinstance(keys_or_fn, Fn):
            self.push_frame(st, keys_or_fn, args, None, None, tail)
            return None
        return self.dispatch(st, keys_or_fn, args, None, None, keys_or_fn[0], argtys or [('param', '?')] * len(args), tail)
    def call_closure(self, st, clo, args, tail):
        if isinstance(clo, Ref): clo_v = self.read(st, clo.loc)
        else: clo_v = clo
        if not (isinstance(clo_v, Agg) and clo_v.name.startswith('closure:')):
            if isinstance(clo_v, Agg) and clo_v.name == 'const':
                return self.invoke(st, self.callee_keys(clo_v.fields[0]), args, tail)
            raise Unsupported('call of closure value %r' % (clo_v,))
        f = self.crate.closure(clo_v.name[8:])
        if f is None: raise Unsupported('closure body ' + clo_v.name)
        p0 = f.params[0][1]
        if p0[0] == 'ref':
            env = clo if isinstance(clo, Ref) else Ref((self.newobj(st, clo_v, ('closure', clo_v.name[8:])), ()))
        else: env = clo_v
        return self.invoke(st, f, [env] + list(args), tail)

    # ------------------------------------------------------------ drop
    def needs_drop(self, t):
        k = t[0]
        if k in ('ref', 'ptr', 'never', 'closure', 'fndef', 'fnptr', 'slice'): return False
        if k == 'tuple': return any(self.needs_drop(x) for x in t[1:])
        if k == 'arr': return self.needs_drop(t[1])
        if k == 'adt':
            n = t[1]
            if n in ('T', 'U', 'A', 'B') and len(t) == 2: return True
            if n in ('Data', 'Rc', 'Weak', 'Box'): return True
            if n in ('NonNull', 'PhantomData', 'Pin', 'Ref', 'RefMut', 'Cell', 'Range', 'Nodes', 'ManuallyDrop'): return False
            if n in ('usize', 'bool', 'isize', 'str', 'String', 'Arguments'): return False
            if self.crate.get('<%s as Drop>::drop' % n): return True
            if n in ('Option', 'Result'): return any(self.needs_drop(x) for x in t[2:])
            if n in ('Vec', 'VecDeque'): return any(self.needs_drop(x) for x in t[2:])
            if n in self.decls.structs:
                ps, fs = self.decls.structs[n]; mp = dict(zip(ps, t[2:]))
                return any(self.needs_drop(subst(ft, mp)) for _, ft in fs)
            if n in self.decls.enums:
                ps, vs = self.decls.enums[n]; mp = dict(zip(ps, t[2:]))
                return any(self.needs_drop(subst(ft, mp)) for _, vf in vs for _, ft in vf)
            return False
        return False
    def drop_value(self, st, v, t, loc, k=None, unfold=False):
        """drops value v of type t stored at loc, then continues with k(state) -> step result"""
        k = k or (lambda s: None)
        if v is None or not self.needs_drop(t): return k(st)
        n = t[1] if t[0] == 'adt' else None
        if t[0] == 'tuple':
            return self.drop_seq(st, [(f, ft, None) for f, ft in zip(v.fields, t[1:])], k)
        if n in ('Option', 'Result'):
            return self.cases(st, v, t, lambda s, vn, fs: self.drop_seq(s, [(f, t[2] if vn in ('Some', 'Ok') else t[3], None) for f in fs], k))
        if n in ('T', 'U', 'A', 'B') and len(t) == 2:
            if not (isinstance(v, T) and v.sort == 'V'): raise Unsupported('payload drop of %r' % (v,))
            self.set_heap(st, 'pd', store(st.heap['pd'], v, add(sel(st.heap['pd'], v, 'int'), num(1))))
            return k(st)
        if n == 'Data':
            def f(s, vn, fs):
                if vn in ('Scattered', 'Piled'): return self.drop_value(s, fs[0], ('adt', 'T'), None, k)
                return k(s)
            return self.cases(st, v, t, f)
        h = self.models.get('drop:' + n)
        if h: return h(self, st, v, t, k)
        dk = '<%s as Drop>::drop' % n
        if 'glue:' + n in self.specs and not unfold:
            if loc is None: loc = (self.newobj(st, v, t), ())
            return self.invoke(st, ['glue:' + n], [Ref(loc)], lambda m, s, _: k(s), [('ref', True, t)])
        if self.crate.get(dk) or dk in self.specs:
            if loc is None: loc = (self.newobj(st, v, t), ())
            def after(m, s, _):
                v2 = m.read(s, loc)
                return m.drop_fields(s, v2, t, loc, k)
            return self.invoke(st, [dk], [Ref(loc)], after, [('ref', True, t)])
        return self.drop_fields(st, v, t, loc, k)
    def drop_fields(self, st, v, t, loc, k):
        n = t[1]
        if n in self.decls.structs and isinstance(v, Agg):
            ps, fs = self.decls.structs[n]; mp = dict(zip(ps, t[2:]))
            return self.drop_seq(st, [(x, subst(ft, mp), (loc[0], loc[1] + (('f', i),)) if loc else None) for i, (x, (_, ft)) in enumerate(zip(v.fields, fs))], k)
        if n in self.decls.enums:
            ps, vs = self.decls.enums[n]; mp = dict(zip(ps, t[2:])); vd = dict(vs)
            return self.cases(st, v, t, lambda s, vn, fs: self.drop_seq(s, [(x, subst(ft, mp), None) for x, (_, ft) in zip(fs, vd[vn])], k))
        if isinstance(v, T): return k(st)
        raise Unsupported('drop of %r' % (v,))
    def drop_seq(self, st, items, k):
        if not items: return k(st)
        v, t, loc = items[0]
        return self.drop_value(st, v, t, loc, lambda s: self.drop_seq(s, items[1:], k))
    def cases(self, st, v, t, f):
        """case split over an enum value; f(state, variant name, fields) -> step result"""
        v = self.norm(v, t)
        if isinstance(v, Agg): return f(st, v.variant, v.fields)
        if isinstance(v, T) and v.op == 'none': return f(st, 'None', ())
        if isinstance(v, T) and v.op == 'some': return f(st, 'Some', (v.args[0],))
        if isinstance(v, T) and v.op == 'dctor': return f(st, v.args[0], v.args[1:])
        if isinstance(v, SymEnum): tag, names = v.tag, self.variants(v.name)
        elif isinstance(v, T) and v.sort == 'O': tag, names = self.discr(st, v), ['None', 'Some']
        elif isinstance(v, T) and v.sort == 'D': tag, names = self.discr(st, v), DVARIANTS
        else: raise Unsupported('case split on %r' % (v,))
        def fields(s, nm):
            return self.proj(s, v, (('as', nm),)).fields
        c = tag.args[0] if tag.op == 'int' else st.facts.get(tag)
        if c is not None: return f(st, names[c], fields(st, names[c]))
        items = []
        for i, nm in enumerate(names):
            s2 = st.clone()
            s2.facts[tag] = i; self.learn_tag(s2, tag, i)
            self.assume(s2, self.is_tag(tag, i), 'case')
            items.append((s2, lambda s, nm=nm: f(s, nm, fields(s, nm))))
        return self.forks(items)

    # ------------------------------------------------------------ contracts
    def call_contract(self, st, sp, args, c):
        argtys = c.argtys
        f = self.crate.get(sp.key)
        ptys = [t for _, t in f.params] if f else argtys
        rty = f.ret if f else ('tuple',)
        if sp.call:      # custom application
            return self.finish_call(st, sp.call(self, st, sp, args, c), c)
        E = Env(self, st, args, ptys)
        E.role = 'call'
        E.h = self.heap_name(st)
        ga = self.cur.ghostat.get(sp.key) if self.cur.ghostat else None
        if ga:
            for gf, gx in (ga(E, self.curE) or {}).items(): self.set_heap(st, gf, raw('M:' + HEAP[gf], gx))
            E.h = self.heap_name(st)
        if sp.callhint:
            for l in sp.callhint(E): self.lemma(st, l)
        hk = self.cur.hints.get(sp.key) if self.cur.hints else None
        if hk:
            for l in hk(E, self.curE):
                if isinstance(l, tuple): self.oblige(st, l[0], l[1])
                else: self.lemma(st, l)
        if sp.pre:
            for lab, e in sp.pre(E): self.oblige(st, 'precondition of %s: %s' % (sp.key, lab), e)
            for lab, e in sp.pre(E): self.assume(st, e)
        if sp.variant and self.cur.variant and sp.variant[0] == self.cur.variant[0]:      # a recursive call: the measure of the callee is below that of the caller at its entry
            C = self.curE; v0 = self.cur.variant[1](C)
            self.oblige(st, 'recursion terminates (measure decreases)', '0 <= {0} && {0} < {1}'.format(sp.variant[1](E), v0))
        E.old = [self.snap(st, a) for a in args]
        if sp.mod:
            st.nid += 1
            hn = 'hc%d' % st.nid
            st.log.append(('var', hn, 'H'))
            for fld_ in sp.mod:
                self.set_heap(st, fld_, raw('M:' + HEAP[fld_], '%s.%s' % (hn, fld_)))
            E.h2 = self.heap_name(st)
        else: E.h2 = E.h
        # &mut arguments to non-heap objects
        if sp.objs:
            for a, t in zip(args, ptys):
                if isinstance(a, Ref) and t[0] == 'ref' and t[1]:
                    self.write(st, a.loc, self.fresh(st, t[2], 'm'))
        E.ret = sp.ret(E) if sp.ret else self.fresh(st, rty, 'r')
        E.ret = self.norm(E.ret, rty)
        if sp.post:
            for lab, e in sp.post(E):
                if lab != LEMMA: self.assume(st, e, 'post ' + sp.key)
        hk = self.cur.after.get(sp.key) if self.cur.after else None
        if hk:
            for l in hk(E, self.curE): self.lemma(st, l)
        if sp.posthint:
            for l in sp.posthint(E): self.lemma(st, l)
        return c.done(st, E.ret)
    def snap(self, st, a):
        if isinstance(a, Ref) and a.loc[0][0] in ('L', 'X'):
            try: return self.read(st, a.loc)
            except Unsupported: return None
        return a

    def init_state(self):
        st = State()
        st.frames = []; st.store = {}; st.facts = {}; st.log = []; st.objty = {}; st.nid = 0; st.trace = []
        st.loopctx = []; st.pending = None; st.ghost = {}
        st.log.append(('var', 'h0', 'H'))
        st.heap = {f: raw('M:' + s, 'h0.' + f) for f, s in HEAP.items()}
        return st

    def verify(self, sp):
        """list of finished logs (one per path) for the body of sp.key against sp"""
        fn = self.crate.get(sp.key)
        if sp.key.startswith('glue:'):      # drop of a value, fields included
            import specs_rc
            fn = specs_rc.glue_fn(sp.key[5:])
        if fn is None: raise Unsupported('function not found: ' + sp.key)
        self.havoc = {}
        for _ in range(400):
            try: return self.verify_once(sp, fn)
            except NeedHavoc as e:
                self.havoc.setdefault(e.key, set()).add(e.what)
            except (AttributeError, KeyError, IndexError, TypeError, ValueError, MirError) as e:
                if os.environ.get('VC_DEBUG'): raise
                raise Unsupported('%s: %s' % (type(e).__name__, e))
        raise Unsupported('havoc set does not stabilise')
    def verify_once(self, sp, fn):
        self.cur, self.cur_key = sp, sp.key
        self.logs = []
        cases = sp.cases or [None]
        for case in cases:
            st = self.init_state()
            args = []
            for i, t in fn.params:
                if sp.args and i - 1 in sp.args: args.append(sp.args[i-1](self, st, t))
                else: args.append(self.fresh(st, t, fn_argname(fn, i)))
            E = Env(self, st, args, [t for _, t in fn.params]); E.role = 'verify'; E.h = 'h0'; E.case = case
            E.old = [self.snap(st, a) for a in args]
            if sp.ghosts: sp.ghosts(E)
            if case: self.assume(st, case(E))
            if sp.pre:
                for lab, e in sp.pre(E): self.assume(st, e, 'pre: ' + lab)
            st.log.append(('reach', 'precondition of ' + sp.key))
            if sp.entry:
                for l in sp.entry(E): self.lemma(st, l)
            base = E; self.curE = E
            self.start(fn, args, st, sp)
            def on_end(s, base=base):
                E2 = Env(self, s, base.a, base.ptys); E2.role = 'verify'; E2.h = 'h0'; E2.old = base.old; E2.ret = s.pending; E2.g = base.g
                s.frames = []
                if sp.ghost:
                    E2.h2 = self.heap_name(s)
                    for gf, gx in (sp.ghost(E2) or {}).items(): s.heap[gf] = raw('M:' + HEAP[gf], gx)
                E2.h2 = self.heap_name(s)
                if sp.exit:
                    for l in sp.exit(E2): 
                        if isinstance(l, tuple): self.oblige(s, l[0], l[1])
                        else: self.lemma(s, l)
                if sp.post:
                    for lab, e in sp.post(E2):
                        if lab == LEMMA: self.lemma(s, e)
                        else: self.oblige(s, lab, e)
                # frame: fields outside sp.mod unchanged
                for f in HEAP_ORDER:
                    if f not in sp.mod and s.heap[f] != raw('M:' + HEAP[f], 'h0.' + f):
                        self.oblige(s, 'frame: %s unchanged' % f, frame_expr(f, render(s.heap[f])))
                self.logs.append(s.log)
            self.explore(st, on_end)
        return self.logs
    def on_cut(self, st):
        self.logs.append(st.log)

    # ------------------------------------------------------------ loops
    def loop_head(self, st, fr):
        heads = loop_info(fr.fn)
        if fr.bb not in heads: return None
        key = (tuple(f.fn.name for f in st.frames), fr.bb)
        if fr.bb in fr.loops:
            ctx = fr.loops[fr.bb]
            if ctx == 'unroll' or isinstance(ctx, int):
                fr.loops[fr.bb] = ctx + 1
                if ctx + 1 > 40: raise Unsupported('loop unrolling in ' + fr.fn.key)
                return None
            ls, E0 = ctx
            fl = E0.flag
            if fl is not None:      # a loop governed by a flag: an iteration that sets it leaves through the loop condition
                w, c0 = fl
                v = st.store[w]
                if v.op != 'bool' and st.facts.get(v) is not None: v = TRUE if st.facts[v] else FALSE
                if v.op != 'bool':
                    out = []
                    for b in (TRUE, FALSE):
                        s2 = st.clone(); s2.store[w] = b; self.assume(s2, v if b is TRUE else not_(v), 'flag'); self.learn(s2, v, 1 if b is TRUE else 0); out.append(s2)
                    return out
                if v != c0: return None
            E = self.loop_env(st, fr, E0)
            if ls.ghost: ls.ghost(E, 'step')
            if ls.lemmas:
                for l in ls.lemmas(E): self.lemma(st, l)
            for lab, e in ls.inv(E): self.oblige(st, 'loop invariant preserved: ' + lab, e)
            if ls.dec:
                self.oblige(st, 'loop terminates (measure decreases)', '0 <= %s && %s < %s' % (E0.dec0, ls.dec(E), E0.dec0))
            return 'cut'
        ls = self.find_loop(st, fr)
        if ls is None:
            fr.loops[fr.bb] = 0
            return None
        # leaving and re-entering an outer loop resets inner loops: handled because loops dict is per frame
        E = self.loop_env(st, fr, None)
        if ls.ghost: ls.ghost(E, 'init')
        for lab, e in ls.inv(E): self.oblige(st, 'loop invariant on entry: ' + lab, e)
        # havoc
        hv = self.havoc.setdefault(key, set())
        pre_nid = st.nid
        fids = [f.fid for f in st.frames], {f.fid for f in st.frames}
        live = live_in(fr.fn, fr.bb)
        flag = loop_flag(fr.fn, fr.bb)
        if flag is not None:
            w = ('L', fr.fid, flag); v = st.store.get(w)
            flag = (w, v) if isinstance(v, T) and v.op == 'bool' else None
        hf = [w[1] for w in hv if w[0] == 'heap']
        if hf:
            st.nid += 1
            hn = 'hl%d' % st.nid
            st.log.append(('var', hn, 'H'))
            for f in hf: st.heap[f] = raw('M:' + HEAP[f], '%s.%s' % (hn, f))
        for w in sorted(hv, key=str):
            if w[0] == 'L':
                if w[1] == fr.fid and w[2] not in live: st.store[w] = None; continue
                fn2 = next((q for q in st.frames if q.fid == w[1]), None)
                if fn2 is None: continue
                if st.store.get(w) is None: continue
                if flag and w == flag[0]: continue       # the loop goes on only while the flag has its initial value
                st.store[w] = self.fresh(st, fn2.fn.locals[w[2]], 'l')
            elif w[0] == 'X':
                if w in st.store: st.store[w] = self.fresh(st, st.objty[w], 'o')
        E2 = self.loop_env(st, fr, E); E2.flag = flag
        if ls.ghost: ls.ghost(E2, 'havoc')
        for lab, e in ls.inv(E2): self.assume(st, e, 'loop inv')
        if ls.dec:
            st.nid += 1
            d = 'dec%d' % st.nid
            st.log.append(('let', d, ls.dec(E2))); E2.dec0 = d
        if ls.body:
            for l in ls.body(E2): self.lemma(st, l)
        fr.loops[fr.bb] = (ls, E2)
        st.loopctx.append((key, pre_nid, fids, hv))
        return None
    def loop_env(self, st, fr, E0):
        E = Env(self, st, [], [])
        E.fr = fr; E.role = 'loop'; E.h = 'h0'; E.h2 = self.heap_name(st)
        E.prev = E0
        E.g = dict(E0.g) if E0 else {}
        # entry values of the outermost function
        E.top = st.frames[0]
        return E
    def find_loop(self, st, fr):
        heads = sorted(loop_info(fr.fn), key=lambda b: int(b[2:]))
        i = heads.index(fr.bb)
        if self.cur.subloops and fr.fn.key in self.cur.subloops: return self.cur.subloops[fr.fn.key][i]
        for q in reversed(st.frames):
            sp = self.cur if q is st.frames[0] else self.specs.get(q.fn.key)
            if sp and sp.loops:
                if q is fr:
                    return sp.loops[i] if i < len(sp.loops) else None
                return sp.loops[0] if len(sp.loops) == 1 else None
        return None

def ty_text(t):
    if t[0] == 'ref': return '&' + ('mut ' if t[1] else '') + ty_text(t[2])
    if t[0] == 'adt': return t[1] + ('<' + ', '.join(ty_text(x) for x in t[2:]) + '>' if len(t) > 2 else '')
    if t[0] == 'ptr': return '*mut ' + ty_text(t[1])
    raise Unsupported('type %r' % (t,))
def fn_argname(fn, i):
    for n, p in fn.debug.items():
        if p == '_%d' % i and n.isidentifier(): return {'self': 'this', 'tree': 'tree_', 'proof': 'p_'}.get(n, n)
    return 'a%d' % i
def counts_in(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or id(t) in seen: return []
    seen.add(id(t))
    if t.op == 'sel' and t.sort == 'int': return [t]
    return [y for a in t.args for y in counts_in(a, seen)]
def frame_expr(f, e): return '(forall|q: int| #[trigger] (%s)[q] == h0.%s[q])' % (e, f)

class Env:
    """access to the state for contract writers; expressions are returned as Verus text"""
    def __init__(self, m, st, args, ptys):
        self.m, self.st, self.a, self.ptys = m, st, args, ptys
        self.h = self.h2 = None; self.ret = None; self.old = None; self.g = {}; self.role = None; self.fr = None
        self.case = None
    def val(self, i):
        return self.a[i]
    def p(self, i):
        """node pointer denoted by argument i: &Node, Tree, Forest, &Tree, ..."""
        return self.ptr_of(self.old[i] if self.old and self.old[i] is not None else self.a[i])
    def ptr_of(self, v):
        if isinstance(v, Ref): v = self.m.read(self.st, v.loc)
        while isinstance(v, Agg) and v.name in ('Tree', 'Forest', 'IntoIter', 'TreeWalk', 'ForestWalk'):
            v = v.fields[0]
        if isinstance(v, T): return render(v)
        if isinstance(v, (Agg, SymEnum)) and v.name == 'RcNode':
            import specs_rc
            return specs_rc.rc_ptr(v)
        raise Unsupported('pointer of %r' % (v,))
    def p2(self, i):
        """same, value after the call (for &mut Tree etc.)"""
        return self.ptr_of(self.a[i])
    def t(self, v): return render(v)
    def fresh(self, sort, base): return self.m.new(self.st, sort, base)
    # typed lookup of locals at a loop head
    def locals_of(self, pred):
        fr = self.fr
        live = live_in(fr.fn, fr.bb)
        out = []
        for i, t in sorted(fr.fn.locals.items()):
            if i in live and pred(t):
                v = self.st.store.get(('L', fr.fid, i))
                if v is not None: out.append((i, v))
        return out
    def local(self, name, pred=None):
        """value of the source variable `name`, else the single live local whose type satisfies pred"""
        fr = self.fr
        live = live_in(fr.fn, fr.bb)
        for n, d in getattr(fr.fn, "debugs", None) or list(fr.fn.debug.items()):
            if n != name: continue
            g = re.match(r'^[(*]*_(\d+)\b', d)
            if g and int(g.group(1)) not in live: continue      # another variable of that name, out of use here
            try:
                loc, t = self.m.resolve(self.st, fr, parse_place(d))
                v = self.m.norm(self.m.read(self.st, loc), t)
                if pred is None or pred(t): return v
            except (Unsupported, MirError): pass
        if pred:
            c = self.locals_of(pred)
            c = [x for x in c if x[0] not in [i for i, _ in fr.fn.params]] or c
            if len(c) == 1: return c[0][1]
        raise Unsupported('no local %s for the loop invariant of %s' % (name, fr.fn.key))
    def top_arg(self, i): return self.m.curE.old[i]

# ---------------------------------------------------------------- CFG helpers
def succs(b):
    x = b[-1]
    k = x[0]
    if k == 'goto': return [x[1]]
    if k == 'switch': return [t for _, t in x[2]]
    if k == 'drop': return [x[2]] if x[2] else []
    if k == 'assert': return [x[4]]
    if k == 'call': return [x[4]] if x[4] else []
    return []
_li = {}
def loop_info(fn):
    if fn.name in _li: return _li[fn.name]
    heads = set(); color = {}
    stack = [('bb0', iter(succs(fn.blocks['bb0'])))]
    color['bb0'] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in fn.blocks: continue
            if color.get(s) == 1: heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succs(fn.blocks[s])))); break
        else:
            color[b] = 2; stack.pop()
    _li[fn.name] = heads
    return heads
_lb = {}
def loop_body(fn, head):
    if (fn.name, head) in _lb: return _lb[(fn.name, head)]
    pred = {}
    for b, xs in fn.blocks.items():
        for s in (succs(xs) if xs else []): pred.setdefault(s, []).append(b)
    fwd = set(); w = [head]
    while w:
        b = w.pop()
        if b in fwd or not fn.blocks.get(b): continue
        fwd.add(b); w += succs(fn.blocks[b])
    body = {head}; w = [b for b in pred.get(head, []) if b in fwd]
    while w:
        b = w.pop()
        if b in body: continue
        body.add(b); w += [p for p in pred.get(b, []) if p in fwd]
    _lb[(fn.name, head)] = body
    return body
def loop_flag(fn, head):
    """the local whose value alone decides at the loop head whether the loop is left, if it is a boolean variable"""
    b = head; body = loop_body(fn, head); defs = {}
    for _ in range(8):
        for x in fn.blocks[b]:
            if x[0] == 'assign' and not x[1][1]: defs[x[1][0]] = x[2]
        x = fn.blocks[b][-1]
        if x[0] != 'goto': break
        b = x[1]
    if x[0] != 'switch' or all(t in body for _, t in x[2]): return None
    o = x[1]
    while True:
        if o[0] == 'const' or o[1][1]: return None
        n = o[1][0]; r = defs.get(n)
        if r is None: return n if fn.locals[n] in (('adt', 'bool'), ('prim', 'bool')) else None
        if r[0] == 'use': o = r[1]
        elif r[0] == 'un' and r[1] == 'Not': o = r[2]
        else: return None
def uses_defs(x):
    """(used locals, fully defined local or None)"""
    u = set(); d = None
    def op(o):
        if o[0] in ('copy', 'move'): pl(o[1])
    def pl(p):
        u.add(p[0])
        for q in p[1]:
            if q[0] == 'idx': u.add(q[1])
    def rv(r):
        if r[0] == 'use': op(r[1])
        elif r[0] in ('ref',): pl(r[1])
        elif r[0] in ('discr', 'len'): pl(r[1])
        elif r[0] == 'bin': op(r[2]); op(r[3])
        elif r[0] == 'un': op(r[2])
        elif r[0] in ('tuple', 'array'): [op(o) for o in r[1]]
        elif r[0] == 'closure': [op(o) for o in r[2]]
        elif r[0] == 'adt': [op(o) for o in r[3]]
        elif r[0] == 'cast': op(r[1])
    k = x[0]
    if k == 'assign':
        rv(x[2])
        if x[1][1]: pl(x[1])
        else: d = x[1][0]
    elif k == 'switch': op(x[1])
    elif k == 'assert': op(x[1])
    elif k == 'drop': pl(x[1])
    elif k == 'call':
        for o in x[3]: op(o)
        if x[1][1]: pl(x[1])
        else: d = x[1][0]
    elif k == 'return': u.add(0)
    return u, d
_live = {}
def live_in(fn, bb):
    if fn.name not in _live:
        L = {b: set() for b in fn.blocks}
        # locals whose address is taken stay live
        taken = set()
        for b, xs in fn.blocks.items():
            for x in xs:
                if x[0] == 'assign' and x[2][0] == 'ref' and not any(q[0] == 'deref' for q in x[2][1][1]): taken.add(x[2][1][0])
        ch = True
        while ch:
            ch = False
            for b, xs in fn.blocks.items():
                if not xs: continue
                s = set()
                for t in succs(xs): s |= L.get(t, set())
                for x in reversed(xs):
                    u, d = uses_defs(x)
                    if d is not None: s.discard(d)
                    s |= u
                if s != L[b]: L[b] = s; ch = True
        _live[fn.name] = L
    return _live[fn.name][bb]
