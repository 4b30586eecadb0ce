"""Models of the std functions the crate calls (part of the trusted base)."""
from exec import *

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def val(m, st, a):
    """value behind a reference argument"""
    return m.read(st, a.loc) if isinstance(a, Ref) else a

# ---------------------------------------------------------------- pointers
@model('NonNull::new_unchecked', 'Pin::new_unchecked', 'Pin::get_unchecked_mut', 'Rc::into_raw', 'mem::transmute', 'transmute', 'intrinsics::transmute',
       'NonNull::as_ptr', 'RefCell::get_mut_', 'Pin::get_mut', 'NonNull::from')
def _ident(m, st, a, c): return a[0]
@model('NonNull::as_ref', 'NonNull::as_mut', '<Pin as Deref>::deref', '<Pin as DerefMut>::deref_mut', '<Pin<&mut Node> as Deref>::deref', '<Pin<&mut Node> as DerefMut>::deref_mut', 'Pin::as_ref', 'Pin::as_mut',
       '<Rc as Deref>::deref', '<Ref as Deref>::deref', '<RefMut as Deref>::deref', '<RefMut as DerefMut>::deref_mut', '<Box as Deref>::deref')
def _derefptr(m, st, a, c):
    v = a[0]
    if isinstance(v, Ref): v = m.read(st, v.loc)
    return v
@model('<Option as Clone>::clone')
def _optclone(m, st, a, c):
    v = val(m, st, a[0]); t = opt_ty(c, 0)
    if isinstance(v, T): return v
    if not (isinstance(a[0], Ref) and t[0] == 'adt' and len(t) > 2 and t[2][0] == 'adt'): raise Unsupported('clone of %r' % (v,))
    loc = a[0].loc; inner = Ref((loc[0], loc[1] + (('as', 'Some'), ('f', 0))))
    return Step(m.cases(st, v, t, lambda s, vn, fs: c.done(s, mknone()) if vn == 'None' else
        m.invoke(s, ['<%s as Clone>::clone' % t[2][1]], [inner], lambda mm, s2, r: c.done(s2, mkopt(r)), [('ref', False, t[2])])))
@model('<NonNull as Clone>::clone', '<&Node as Clone>::clone', 'Clone::clone', '<usize as Clone>::clone')
def _copy(m, st, a, c):
    v = val(m, st, a[0])
    if not isinstance(v, T): raise Unsupported('clone of %r' % (v,))
    return v
@model('NonNull::dangling')
def _dangling(m, st, a, c):
    s = m.ptr_sort(c.dty) or 'P'
    return m.new(st, s, 'dangling')
@model('<Option as PartialEq>::eq', '<NonNull as PartialEq>::eq', '<&NonNull as PartialEq>::eq', '<usize as PartialEq>::eq')
def _eq(m, st, a, c):
    x, y = val(m, st, a[0]), val(m, st, a[1])
    if not (isinstance(x, T) and isinstance(y, T)): raise Unsupported('== on %r' % (x,))
    return eq(x, y)
@model('<Option as PartialEq>::ne', '<NonNull as PartialEq>::ne')
def _ne(m, st, a, c): return not_(_eq(m, st, a, c))
@model('ptr::eq')
def _ptreq(m, st, a, c):
    if isinstance(a[0], T) and isinstance(a[1], T): return eq(a[0], a[1])
    raise Unsupported('ptr::eq')

# ---------------------------------------------------------------- Option / Result
def on_opt(m, st, v, t, none, some_):
    """none(state) / some_(state, payload) -> step result"""
    return m.cases(st, v, t, lambda s, vn, fs: none(s) if vn in ('None', 'Err') else some_(s, fs[0]))
def opt_ty(c, a0):
    t = c.argtys[0]
    while t[0] == 'ref': t = t[2]
    return t
@model('Option::is_none')
def _isnone(m, st, a, c):
    v = val(m, st, a[0])
    if isinstance(v, T): return not_(is_some(v))
    return eq(m.discr(st, v), num(0))
@model('Option::is_some')
def _issome(m, st, a, c): return not_(_isnone(m, st, a, c))
@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _unwrap(m, st, a, c):
    v = a[0]
    if isinstance(v, T) and v.sort == 'O':
        m.oblige(st, 'unwrap() of Some', is_some(v)); m.assume(st, is_some(v)); st.facts[is_some(v)] = 1; m.learn(st, is_some(v), 1)
        if v.op == 'none': raise PathEnd()
        return unwrap(v)
    if isinstance(v, Agg) and v.name == 'Option':
        if v.variant == 'Some': return v.fields[0]
        m.oblige(st, 'unwrap() of Some', FALSE); raise PathEnd()
    if isinstance(v, SymEnum):
        m.oblige(st, 'unwrap() of Some', eq(v.tag, num(1))); m.assume(st, eq(v.tag, num(1)))
        return v.variants['Some'][0]
    raise Unsupported('unwrap of %r' % (v,))
@model('Result::unwrap')
def _runwrap(m, st, a, c):
    v = a[0]
    if isinstance(v, Agg) and v.variant == 'Ok': return v.fields[0]
    raise Unsupported('Result::unwrap')
def mkopt(x): return Agg('Option', 'Some', [x])
def mknone(): return Agg('Option', 'None', [])
@model('Option::map')
def _omap(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, mknone()),
                       lambda s, x: m.call_closure(s, a[1], [x], lambda mm, s2, r: c.done(s2, mkopt(r)))))
@model('Option::and_then')
def _oandthen(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, mknone()),
                       lambda s, x: m.call_closure(s, a[1], [x], lambda mm, s2, r: c.done(s2, r))))
@model('Option::map_or')
def _omapor(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, a[1]),
                       lambda s, x: m.call_closure(s, a[2], [x], lambda mm, s2, r: c.done(s2, r))))
@model('Option::unwrap_or')
def _ounwrapor(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, a[1]), lambda s, x: c.done(s, x)))
@model('Option::or')
def _oor(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, a[1]), lambda s, x: c.done(s, mkopt(x))))
@model('Option::or_else')
def _oorelse(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: m.call_closure(s, a[1], [], lambda mm, s2, r: c.done(s2, r)), lambda s, x: c.done(s, mkopt(x))))
@model('Option::and')
def _oand(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, mknone()), lambda s, x: c.done(s, a[1])))
@model('Option::unwrap_or_else')
def _ounwraporelse(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: m.call_closure(s, a[1], [], lambda mm, s2, r: c.done(s2, r)), lambda s, x: c.done(s, x)))
@model('Option::map_or_else')
def _omaporelse(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: m.call_closure(s, a[1], [], lambda mm, s2, r: c.done(s2, r)),
                       lambda s, x: m.call_closure(s, a[2], [x], lambda mm, s2, r: c.done(s2, r))))
@model('Option::is_some_and')
def _oissomeand(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, FALSE),
                       lambda s, x: m.call_closure(s, a[1], [x], lambda mm, s2, r: c.done(s2, r))))
@model('Option::is_none_or')
def _oisnoneor(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, TRUE),
                       lambda s, x: m.call_closure(s, a[1], [x], lambda mm, s2, r: c.done(s2, r))))
@model('<Option as Default>::default')
def _odefault(m, st, a, c): return mknone()
@model('<Option as Try>::branch')
def _otrybranch(m, st, a, c):
    return Step(on_opt(m, st, a[0], opt_ty(c, 0), lambda s: c.done(s, Agg('ControlFlow', 'Break', [mknone()])),
                       lambda s, x: c.done(s, Agg('ControlFlow', 'Continue', [x]))))
@model('<Option as FromResidual<Option>>::from_residual', '<Option as FromResidual>::from_residual')
def _oresidual(m, st, a, c): return mknone()
@model('Option::take')
def _otake(m, st, a, c):
    v = m.read(st, a[0].loc)
    m.write(st, a[0].loc, m.norm(mknone(), opt_ty(c, 0)))
    return v
@model('Option::replace')
def _oreplace(m, st, a, c):
    v = m.read(st, a[0].loc)
    m.write(st, a[0].loc, m.norm(mkopt(a[1]), opt_ty(c, 0)))
    return v
@model('Option::insert')
def _oinsert(m, st, a, c): raise Unsupported('Option::insert')
@model('Option::as_ref', 'Option::as_mut')
def _oasref(m, st, a, c):
    t = opt_ty(c, 0)
    loc = a[0].loc if isinstance(a[0], Ref) else None
    if loc is None: raise Unsupported('as_ref')
    v = m.norm(m.read(st, loc), t)
    if isinstance(v, T) and v.sort == 'O':      # Option<NonNull<..>>: reference to the pointer
        return Step(m.cases(st, v, t, lambda s, vn, fs: c.done(s, mknone() if vn == 'None' else mkopt(Ref((loc[0], loc[1] + (('as', 'Some'), ('f', 0))))))))
    return Step(m.cases(st, v, t, lambda s, vn, fs: c.done(s, mknone() if vn == 'None' else mkopt(Ref((loc[0], loc[1] + (('as', 'Some'), ('f', 0))))))))
@model('Option::copied', 'Option::cloned')
def _ocopied(m, st, a, c):
    v = a[0]
    return Step(on_opt(m, st, v, opt_ty(c, 0), lambda s: c.done(s, mknone()), lambda s, x: c.done(s, mkopt(val(m, s, x)))))

# ---------------------------------------------------------------- mem
@model('ManuallyDrop::new', 'ManuallyDrop::into_inner')
def _manually(m, st, a, c): return a[0]
@model('<ManuallyDrop as Deref>::deref', '<ManuallyDrop as DerefMut>::deref_mut')
def _manderef(m, st, a, c): return a[0]
@model('mem::forget', 'forget')
def _forget(m, st, a, c): return UNIT
@model('mem::drop', 'drop')
def _drop(m, st, a, c): return Step(m.drop_value(st, a[0], c.argtys[0], None, lambda s: c.done(s, UNIT)))
@model('mem::replace', 'replace')
def _replace(m, st, a, c):
    t = c.argtys[0][2] if c.argtys[0][0] == 'ref' else ('param', '?')
    loc = a[0].loc if isinstance(a[0], Ref) else m.deref(st, a[0], t)
    v = m.norm(m.read(st, loc), t)
    m.write(st, loc, m.norm(a[1], t))
    return v
@model('mem::take', 'take')
def _take(m, st, a, c):
    t = opt_ty(c, 0)
    if t[0] == 'adt' and t[1] == 'Option': return _otake(m, st, a, c)
    if t[0] == 'usize' or t == ('prim', 'usize') or t[-1] == 'usize':
        v = m.read(st, a[0].loc); m.write(st, a[0].loc, num(0)); return v
    raise Unsupported('mem::take')
@model('mem::swap', 'swap')
def _swap(m, st, a, c):
    x, y = m.read(st, a[0].loc), m.read(st, a[1].loc)
    m.write(st, a[0].loc, y); m.write(st, a[1].loc, x)
    return UNIT
@model('mem::size_of', 'size_of')
def _sizeof(m, st, a, c): return app('int', 'sizeof_shared')

# ---------------------------------------------------------------- Rc / RefCell / Cell of nodes
@model('Rc::new')
def _rcnew(m, st, a, c):
    v = a[0]
    if isinstance(v, Agg) and v.name == 'RefCell': v = v.fields[0]
    if not (isinstance(v, Agg) and v.name == 'Node'): raise Unsupported('Rc::new of %r' % (v,))
    p = m.new(st, 'P', 'new')
    m.assume(st, not_(sel(st.heap['alive'], p, 'bool')), 'fresh allocation')
    m.assume(st, 'inmem(%s)' % render(p)); m.assume(st, 'nonelem(%s)' % render(p))
    m.set_heap(st, 'alive', store(st.heap['alive'], p, TRUE))
    m.set_heap(st, 'cnt', store(st.heap['cnt'], p, num(1)))
    m.set_heap(st, 'wk', store(st.heap['wk'], p, num(0)))
    m.write(st, (('N', p), ()), v)
    st.ghost.setdefault('newnodes', []); st.ghost['newnodes'] = st.ghost['newnodes'] + [p]
    return p
@model('RefCell::new')
def _refcellnew(m, st, a, c): return Agg('RefCell', None, [a[0]])
@model('Rc::from_raw', 'Box::from_raw', 'Box::into_raw', 'Rc::as_ptr')
def _fromraw(m, st, a, c): return a[0] if not isinstance(a[0], Ref) else val(m, st, a[0])
@model('Rc::get_mut')
def _rcgetmut(m, st, a, c):
    p = val(m, st, a[0])
    uniq = eq(sel(st.heap['cnt'], p, 'int'), num(1))
    if uniq == TRUE: return mkopt(p)
    raise Unsupported('Rc::get_mut of a shared node')
@model('RefCell::get_mut', 'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::as_ptr', 'RefCell::borrow_', 'UnsafeCell::get')
def _borrow(m, st, a, c): return val(m, st, a[0])
@model('RefCell::try_borrow_unguarded', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
def _tryborrow(m, st, a, c): return Agg('Result', 'Ok', [val(m, st, a[0])])
@model('<Rc as Clone>::clone', 'Rc::clone')
def _rcclone(m, st, a, c):
    p = val(m, st, a[0])
    m.oblige(st, 'Rc::clone of a live node', sel(st.heap['alive'], p, 'bool'))
    m.set_heap(st, 'cnt', store(st.heap['cnt'], p, add(sel(st.heap['cnt'], p, 'int'), num(1))))
    return p
@model('Rc::strong_count')
def _strong(m, st, a, c):
    p = val(m, st, a[0])
    m.access(st, ('N', p))
    return sel(st.heap['cnt'], p, 'int')
@model('Rc::ptr_eq')
def _rcptreq(m, st, a, c): return eq(val(m, st, a[0]), val(m, st, a[1]))
@model('Rc::downgrade')
def _downgrade(m, st, a, c):
    p = val(m, st, a[0])
    m.oblige(st, 'Rc::downgrade of a live node', sel(st.heap['alive'], p, 'bool'))
    m.set_heap(st, 'wk', store(st.heap['wk'], p, add(sel(st.heap['wk'], p, 'int'), num(1))))
    return p
@model('Weak::upgrade')
def _upgrade(m, st, a, c):
    p = val(m, st, a[0])
    al = sel(st.heap['alive'], p, 'bool')
    s1, s2 = st, st.clone()
    m.assume(s1, al); s1.facts[al] = 1
    m.set_heap(s1, 'cnt', store(s1.heap['cnt'], p, add(sel(s1.heap['cnt'], p, 'int'), num(1))))
    m.assume(s2, not_(al)); s2.facts[al] = 0
    return Step(m.forks([(s1, lambda s: c.done(s, mkopt(p))), (s2, lambda s: c.done(s, mknone()))]))
@model('<Weak as Clone>::clone')
def _weakclone(m, st, a, c):
    p = val(m, st, a[0])
    m.set_heap(st, 'wk', store(st.heap['wk'], p, add(sel(st.heap['wk'], p, 'int'), num(1))))
    return p
@model('drop:Weak')
def _dropweak(m, st, v, t, k):
    m.set_heap(st, 'wk', store(st.heap['wk'], v, sub(sel(st.heap['wk'], v, 'int'), num(1))))
    return k(st)
@model('drop:Rc')
def _droprc(m, st, v, t, k):
    """drop of Rc<RefCell<Node>>: count decremented; at zero the node's data is dropped and the node freed"""
    m.oblige(st, 'Rc dropped while the node is alive', sel(st.heap['alive'], v, 'bool'))
    m.assume(st, sel(st.heap['alive'], v, 'bool'))
    n = sel(st.heap['cnt'], v, 'int')
    m.oblige(st, 'reference count is positive', lt(num(0), n))
    m.set_heap(st, 'cnt', store(st.heap['cnt'], v, sub(n, num(1))))
    last = eq(n, num(1))
    def freed(s):
        d = sel(s.heap['data'], v, 'D')
        def fin(s2):
            m.set_heap(s2, 'alive', store(s2.heap['alive'], v, FALSE))
            return k(s2)
        return m.drop_value(s, d, ('adt', 'Data', ('adt', 'T')), None, fin)
    if last == TRUE: return freed(st)
    if last == FALSE: return k(st)
    s2 = st.clone()
    m.assume(st, last); st.facts[last] = 1
    m.assume(s2, not_(last)); s2.facts[last] = 0
    return m.forks([(st, freed), (s2, k)])
@model('drop_in_place', 'ptr::drop_in_place')
def _dropinplace(m, st, a, c):
    p = val(m, st, a[0])
    if not (isinstance(p, T) and p.sort == 'P'): raise Unsupported('drop_in_place')
    m.access(st, ('N', p))
    d = sel(st.heap['data'], p, 'D')
    def fin(s):
        m.set_heap(s, 'alive', store(s.heap['alive'], p, FALSE))
        return c.done(s, UNIT)
    return Step(m.drop_value(st, d, ('adt', 'Data', ('adt', 'T')), None, fin))
@model('Cell::get')
def _cellget(m, st, a, c): return val(m, st, a[0])
@model('Cell::set')
def _cellset(m, st, a, c):
    m.write(st, a[0].loc, a[1]); return UNIT
@model('Cell::new')
def _cellnew(m, st, a, c): return a[0]
@model('Ref::map', 'RefMut::map')
def _refmap(m, st, a, c):
    return Step(m.call_closure(st, a[1], [a[0]], lambda mm, s, r: c.done(s, r)))
@model('usize::checked_sub')
def _checkedsub(m, st, a, c):
    x, y = a
    cond = le(y, x)
    if cond == TRUE: return mkopt(sub(x, y))
    s2 = st.clone()
    m.assume(st, cond); m.assume(s2, not_(cond))
    return Step(m.forks([(st, lambda s: c.done(s, mkopt(sub(x, y)))), (s2, lambda s: c.done(s, mknone()))]))
@model('usize::saturating_sub')
def _satsub(m, st, a, c): return ite(le(a[1], a[0]), sub(a[0], a[1]), num(0))

# ---------------------------------------------------------------- panics
@model('panicking::panic', 'rt::begin_panic', 'panicking::panic_fmt', 'option::unwrap_failed', 'panicking::unreachable_display', 'panicking::assert_failed')
def _panic(m, st, a, c):
    m.oblige(st, 'no panic: %s' % (a[0].fields[0] if a and isinstance(a[0], Agg) and a[0].fields else ''), FALSE)
    raise PathEnd()

# ---------------------------------------------------------------- node buffers
def vecterm(m, st, a):
    """term of the NodeVec whose buf is referenced, or None"""
    if isinstance(a, Ref) and a.loc[0][0] == 'NV' and a.loc[1] == (('buf',),): return a.loc[0][1]
    return None
@model('<Vec as Deref>::deref', '<Vec as DerefMut>::deref_mut')
def _vecderef(m, st, a, c): return a[0]
@model('Vec::as_ptr', 'Vec::as_mut_ptr', 'slice::as_ptr')
def _vecasptr(m, st, a, c):
    v = vecterm(m, st, a[0])
    if v is None: raise Unsupported('Vec::as_ptr')
    m.access(st, ('NV', v))
    return T('PB', 'app', 'base', v)
@model('slice::get_unchecked', 'slice::get_unchecked_mut', '<Vec as Index<usize>>::index', '<Vec as IndexMut<usize>>::index_mut')
def _getunchecked(m, st, a, c):
    v = vecterm(m, st, a[0])
    i = a[1]
    if v is not None:
        m.access(st, ('NV', v))
        m.oblige(st, 'node index within the buffer', and_(le(num(0), i), lt(i, app('int', 'nslots', v))))
        m.assume(st, and_(le(num(0), i), lt(i, app('int', 'nslots', v))))
        return app('P', 'elem', v, i)
    s = m.read(st, a[0].loc)
    if isinstance(s, T) and s.sort.startswith('S:'):
        m.oblige(st, 'index within the vector', and_(le(num(0), i), lt(i, seqlen(s))))
        m.assume(st, and_(le(num(0), i), lt(i, seqlen(s))))
        return Ref((a[0].loc[0], a[0].loc[1] + (('i', i),)))
    raise Unsupported('index of %r' % (s,))
def seqlen(s):
    return raw('int', '(%s.len() as int)' % render(s))
def seqterm(m, st, a):
    s = m.read(st, a.loc)
    if not (isinstance(s, T) and s.sort.startswith('S:')): raise Unsupported('vector %r' % (s,))
    return s
@model('drop:Box')
def _dropbox(m, st, v, t, k):
    """drop of Box<NodeVec>: runs NodeVec::drop, then frees the buffer"""
    if not (isinstance(v, T) and v.sort == 'PV'): raise Unsupported('Box drop')
    m.oblige(st, 'node buffer freed while allocated', sel(st.heap['valive'], v, 'bool'))
    m.oblige(st, 'node buffer freed only when its last reference is gone', eq(sel(st.heap['vref'], v, 'int'), num(0)))
    def after(mm, s, _):
        # elements dropped only if NodeVec::drop left the length untouched
        if s.ghost.get('setlen0') != v:
            mm.oblige(s, 'nodes of a released buffer are not dropped a second time', FALSE)
        mm.set_heap(s, 'valive', store(s.heap['valive'], v, FALSE))
        return k(s)
    return m.invoke(st, ['<NodeVec as Drop>::drop'], [v], after, [('ref', True, ('adt', 'NodeVec', ('adt', 'T')))])
@model('Vec::set_len')
def _setlen(m, st, a, c):
    v = vecterm(m, st, a[0])
    if v is None: raise Unsupported('set_len')
    if a[1] == num(0): st.ghost['setlen0'] = v
    else: raise Unsupported('set_len to non-zero')
    return UNIT

# ---------------------------------------------------------------- plain vectors (usize / Nodes)
@model('Vec::new', 'Vec::with_capacity', '<Vec as Default>::default')
def _vecnew(m, st, a, c):
    s = m.term_sort(c.dty)
    if not (s and s.startswith('S:')): raise Unsupported('Vec::new of %s' % ty_str(c.dty))
    return raw(s, 'Seq::<%s>::empty()' % vsort(s[2:]))
@model('<_ as Fn>::call', '<_ as FnMut>::call_mut', '<_ as FnOnce>::call_once')
def _fncall(m, st, a, c):
    v = a[0]
    while isinstance(v, Ref) and isinstance(m.read(st, v.loc), Ref): v = m.read(st, v.loc)
    return Step(m.call_closure(st, v, list(a[1].fields), lambda mm, s, r: c.done(s, r)))
@model('Box::new_uninit')
def _boxuninit(m, st, a, c):
    t = c.dty[2]
    if t[0] == 'adt' and t[1] == 'MaybeUninit': t = t[2]
    return Ref((m.newobj(st, None, t), ()))
@model('boxed::box_assume_init_into_vec_unsafe')
def _boxvec(m, st, a, c):
    v = m.read(st, a[0].loc); s = m.term_sort(c.dty)
    if not (isinstance(v, Agg) and v.name == 'array' and s and s.startswith('S:')): raise Unsupported('vector of %r' % (v,))
    return raw(s, 'Seq::<%s>::empty()' % vsort(s[2:]) + ''.join('.push(%s)' % render(x) for x in v.fields))
@model('Vec::push')
def _vecpush(m, st, a, c):
    s = seqterm(m, st, a[0])
    x = a[1]
    m.write(st, a[0].loc, raw(s.sort, '%s.push(%s)' % (render(s), render(x))))
    return UNIT
@model('Vec::pop')
def _vecpop(m, st, a, c):
    s = seqterm(m, st, a[0]); n = seqlen(s)
    s2 = st.clone()
    cond = lt(num(0), n)
    m.assume(st, cond); m.assume(s2, not_(cond))
    def some_(x):
        x = x
        last = T(s.sort[2:], 'seqidx', s, sub(n, num(1)))
        m.write(x, a[0].loc, raw(s.sort, '%s.drop_last()' % render(s)))
        return c.done(x, mkopt(last))
    return Step(m.forks([(st, some_), (s2, lambda x: c.done(x, mknone()))]))
@model('Vec::len', 'slice::len')
def _veclen(m, st, a, c): 
    v = vecterm(m, st, a[0])
    if v is not None: return app('int', 'nslots', v)
    return seqlen(seqterm(m, st, a[0]))
@model('Vec::is_empty', 'slice::is_empty')
def _vecempty(m, st, a, c): return eq(_veclen(m, st, a, c), num(0))
@model('Vec::clear')
def _vecclear(m, st, a, c):
    s = seqterm(m, st, a[0])
    m.write(st, a[0].loc, raw(s.sort, 'Seq::<%s>::empty()' % vsort(s.sort[2:])))
    return UNIT
@model('Vec::truncate')
def _vectrunc(m, st, a, c):
    s = seqterm(m, st, a[0])
    m.write(st, a[0].loc, raw(s.sort, 'trunc(%s, %s)' % (render(s), render(a[1]))))
    return UNIT
def optref(m, st, a, c, cond, idx):
    s2 = st.clone()
    m.assume(st, cond); m.assume(s2, not_(cond))
    return Step(m.forks([(st, lambda x: c.done(x, mkopt(Ref((a.loc[0], a.loc[1] + (('i', idx),)))))), (s2, lambda x: c.done(x, mknone()))]))
@model('slice::last', 'slice::last_mut')
def _last(m, st, a, c):
    n = seqlen(seqterm(m, st, a[0]))
    return optref(m, st, a[0], c, lt(num(0), n), sub(n, num(1)))
@model('slice::first', 'slice::first_mut')
def _first(m, st, a, c):
    n = seqlen(seqterm(m, st, a[0]))
    return optref(m, st, a[0], c, lt(num(0), n), num(0))
@model('slice::get', 'slice::get_mut')
def _get(m, st, a, c):
    n = seqlen(seqterm(m, st, a[0]))
    return optref(m, st, a[0], c, and_(le(num(0), a[1]), lt(a[1], n)), a[1])

# ---------------------------------------------------------------- iterators, defaults
@model('<&mut IntoIter as IntoIterator>::into_iter', '<Iter as IntoIterator>::into_iter', '<IterMut as IntoIterator>::into_iter', '<IterRc as IntoIterator>::into_iter', '<IntoIter as IntoIterator>::into_iter', '<Range as IntoIterator>::into_iter', '<IntoIter as Iterator>::by_ref', '<Splitted as IntoIterator>::into_iter', '<_ as IntoIterator>::into_iter')
def _intoiter(m, st, a, c): return a[0]
@model('<&mut IntoIter as Iterator>::next')
def _byrefnext(m, st, a, c):
    inner = m.read(st, a[0].loc)
    return Step(m.invoke(st, ['<IntoIter as Iterator>::next'], [inner], lambda mm, s, r: c.done(s, r), [('ref', True, ('adt', 'IntoIter'))]))
ITERS = ('Iter', 'IterMut', 'IterRc', 'IntoIter')
@model('<Iter as Iterator>::map', '<IterMut as Iterator>::map', '<IterRc as Iterator>::map', '<IntoIter as Iterator>::map', '<Map as Iterator>::map')
def _itermap(m, st, a, c): return Agg('Map', None, [a[0], a[1]])
def unmap(v, t):
    """(base iterator, its type, closures) of nested map adapters"""
    fs = []
    while isinstance(v, Agg) and v.name == 'Map':
        fs.insert(0, v.fields[1]); v = v.fields[0]; t = t[2]
    return v, t, fs
def loop_fn(m, it, nclo):
    """the defining loop of for_each: while let Some(x) = it.next() { f(..(x)) }"""
    key = '<%s as Iterator>::next' % it[1]
    f = m.crate.get(key)
    if f is None: raise Unsupported('iterator ' + ty_str(it))
    fn = Fn(); fn.text = ''; fn.const = None; fn.debug = {}
    fn.name = fn.key = 'std::for_each<%s,%d>' % (ty_str(it), nclo)
    clos = [2 + i for i in range(nclo)]
    n = 2 + nclo; r, o, d, x = n, n + 1, n + 2, n + 3
    fn.params = [(1, it)] + [(i, ('closure', '?')) for i in clos]
    fn.ret = ('tuple',)
    item = f.ret[2]
    fn.locals = {0: fn.ret, r: ('ref', True, it), o: f.ret, d: ('adt', 'isize'), x: item}
    fn.locals.update(dict(fn.params))
    for i in range(nclo): fn.locals[x + 1 + 2 * i] = ('param', '?'); fn.locals[x + 2 + 2 * i] = ('ref', True, ('closure', '?'))
    P = lambda i: (i, ())
    b = {'bb0': [('goto', 'bb1')],
         'bb1': [('assign', P(r), ('ref', P(1), True)), ('call', P(o), '<crate::%s as Iterator>::next' % it[1].split('::')[-1], [('move', P(r))], 'bb2')],
         'bb2': [('assign', P(d), ('discr', P(o))), ('switch', ('move', P(d)), [(0, 'bb9'), (None, 'bb3')])],
         'bb9': [('assign', P(0), ('use', ('const', '()'))), ('return',)]}
    cur = 'bb3'; b[cur] = [('assign', P(x), ('use', ('move', (o, (('as', 'Some'), ('field', 0, item))))))]
    arg = x
    for i, cl in enumerate(clos):
        nxt = 'bb%d' % (10 + i) if i + 1 < nclo else 'bb1'
        b[cur] = b.get(cur, []) + [('assign', P(x + 2 + 2 * i), ('ref', P(cl), True)), ('call', P(x + 1 + 2 * i), '@callclo', [('move', P(x + 2 + 2 * i)), ('move', P(arg))], nxt)]
        arg = x + 1 + 2 * i; cur = nxt
    fn.blocks = b
    return fn
@model('@glue')
def _glue(m, st, a, c):
    t = c.argtys[0][2]
    return Step(m.drop_value(st, m.read(st, a[0].loc), t, a[0].loc, lambda s: c.done(s, UNIT), unfold=True))
@model('@callclo')
def _callclo(m, st, a, c): return Step(m.call_closure(st, a[0], [a[1]], lambda mm, s, r: c.done(s, r)))
@model('<Map as Iterator>::for_each', '<Iter as Iterator>::for_each', '<IterMut as Iterator>::for_each', '<IterRc as Iterator>::for_each', '<IntoIter as Iterator>::for_each')
def _foreach(m, st, a, c):
    v, t, fs = unmap(a[0], c.argtys[0])
    fs = fs + [a[1]]
    return Step(m.invoke(st, loop_fn(m, t, len(fs)), [v] + fs, lambda mm, s, r: c.done(s, UNIT)))
@model('<Size as Default>::default')
def _sizedef(m, st, a, c): return Agg('Size', None, [num(0), num(0)])
@model('<usize as Default>::default')
def _usizedef(m, st, a, c): return num(0)
@model('<Range as Iterator>::next')
def _rangenext(m, st, a, c):
    r = m.read(st, a[0].loc)
    lo, hi = r.fields
    s2 = st.clone()
    cond = lt(lo, hi)
    m.assume(st, cond); m.assume(s2, not_(cond))
    def some_(x):
        m.write(x, a[0].loc, Agg('Range', None, [add(lo, num(1)), hi]))
        return c.done(x, mkopt(lo))
    return Step(m.forks([(st, some_), (s2, lambda x: c.done(x, mknone()))]))
# ---------------------------------------------------------------- VecDeque: a sequence (of sequences), or a known list of values
@model('VecDeque::new', 'VecDeque::with_capacity', '<VecDeque as Default>::default')
def _vdnew(m, st, a, c):
    s = m.term_sort(c.dty)
    if s and not (st.frames and st.frames[-1].inst): return raw(s, 'Seq::<%s>::empty()' % vsort(s[2:]))
    return Agg('VecDeque', None, [])
@model('VecDeque::push_back')
def _vdpush(m, st, a, c):
    v = m.read(st, a[0].loc)
    if isinstance(v, Agg) and v.name == 'VecDeque': m.write(st, a[0].loc, Agg('VecDeque', None, list(v.fields) + [a[1]])); return UNIT
    return _vecpush(m, st, a, c)
@model('VecDeque::push_front')
def _vdpushf(m, st, a, c):
    v = m.read(st, a[0].loc)
    if isinstance(v, Agg) and v.name == 'VecDeque': m.write(st, a[0].loc, Agg('VecDeque', None, [a[1]] + list(v.fields))); return UNIT
    s = seqterm(m, st, a[0])
    m.write(st, a[0].loc, raw(s.sort, '(seq![%s] + %s)' % (render(a[1]), render(s))))
    return UNIT
@model('VecDeque::pop_back')
def _vdpopb(m, st, a, c): return _vecpop(m, st, a, c)
@model('VecDeque::pop_front')
def _vdpop(m, st, a, c):
    s = seqterm(m, st, a[0]); n = seqlen(s)
    s2 = st.clone()
    cond = lt(num(0), n)
    m.assume(st, cond); m.assume(s2, not_(cond))
    def some_(x):
        m.write(x, a[0].loc, raw(s.sort, '%s.drop_first()' % render(s)))
        return c.done(x, mkopt(T(s.sort[2:], 'seqidx', s, num(0))))
    return Step(m.forks([(st, some_), (s2, lambda x: c.done(x, mknone()))]))
@model('VecDeque::front', 'VecDeque::front_mut')
def _vdfront(m, st, a, c): return _first(m, st, a, c)
@model('VecDeque::back', 'VecDeque::back_mut')
def _vdback(m, st, a, c): return _last(m, st, a, c)
@model('VecDeque::len')
def _vdlen(m, st, a, c): return seqlen(seqterm(m, st, a[0]))
@model('VecDeque::is_empty')
def _vdempty(m, st, a, c): return eq(seqlen(seqterm(m, st, a[0])), num(0))
# ---------------------------------------------------------------- allocation of a node buffer
@model('<Range as Iterator>::map')
def _rangemap(m, st, a, c): return Agg('Map', None, [a[0], a[1]])
@model('<Map as Iterator>::collect')
def _collect(m, st, a, c):
    """(lo..hi).map(f).collect() where f yields the same initial value for every index: a vector of hi - lo copies"""
    v = a[0]
    if not (isinstance(v, Agg) and v.name == 'Map' and isinstance(v.fields[0], Agg) and v.fields[0].name == 'Range'): raise Unsupported('collect of %r' % (v,))
    lo, hi = v.fields[0].fields
    i = m.new(st, 'int', 'ix'); m.assume(st, and_(le(lo, i), lt(i, hi)))
    before = dict(st.heap)
    def after(mm, s, r):
        if any(s.heap[f] is not before[f] for f in before): raise Unsupported('collect: closure with effects')
        if ('%s' % i.args[0]) in repr(r): raise Unsupported('collect: elements differ')
        return c.done(s, Agg('fill', None, [ite(le(lo, hi), sub(hi, lo), num(0)), r]))
    return Step(m.call_closure(st, v.fields[1], [i], after))
@model('Box::new')
def _boxnew(m, st, a, c):
    """Box::new(NodeVec{..}): a fresh buffer, its nodes initialised as the elements of the vector"""
    d = a[0]
    if not (isinstance(d, Agg) and d.name == 'NodeVec'): raise Unsupported('Box::new of %r' % (d,))
    f = {n: x for (n, _), x in zip(m.decls.structs['NodeVec'][1], d.fields)}
    buf = f['buf']
    if not (isinstance(buf, Agg) and buf.name == 'fill'): raise Unsupported('Box::new of %r' % (buf,))
    n, e = buf.fields
    if not (isinstance(e, Agg) and e.name == 'Shared'): raise Unsupported('vector element %r' % (e,))
    sh = {x: y for (x, _), y in zip(m.decls.structs['Shared'][1], e.fields)}
    nd = sh['data'].fields[0] if isinstance(sh['data'], Agg) and sh['data'].name == 'RefCell' else sh['data']
    if not (isinstance(nd, Agg) and nd.name == 'Node'): raise Unsupported('vector element %r' % (nd,))
    val_ = {'alive': TRUE, 'cnt': sh['count'], 'kids': raw('S:P', 'Seq::<int>::empty()')}
    for (x, t), y in zip(m.decls.structs['Node'][1], nd.fields):
        if x == 'size':
            for (q, _), z in zip(m.decls.structs['Size'][1], y.fields): val_[{'degree': 'deg', 'descendants': 'desc'}[q]] = z
        else: val_[x] = m.norm(y, t)
    v = m.new(st, 'PV', 'buf')
    m.assume(st, not_(sel(st.heap['valive'], v, 'bool')), 'fresh allocation')
    m.assume(st, '%s >= 0 && nslots(%s) == %s' % (render(v), render(v), render(n)))
    m.assume(st, '(forall|p: int| #[trigger] slot({0}, p) ==> !{1}[p] && !nonelem(p) && p >= 0)'.format(render(v), render(st.heap['alive'])))
    m.set_heap(st, 'valive', store(st.heap['valive'], v, TRUE))
    m.set_heap(st, 'vref', store(st.heap['vref'], v, f['ref_cnt']))
    st.nid += 1; hn = 'hb%d' % st.nid
    st.log.append(('var', hn, 'H'))
    for x, y in val_.items():
        m.assume(st, '(forall|p: int| #[trigger] {h}.{f}[p] == (if slot({v}, p) {{ {y} }} else {{ {o}[p] }}))'.format(h=hn, f=x, v=render(v), y=render(y), o=render(st.heap[x])))
        m.set_heap(st, x, raw('M:' + HEAP[x], '%s.%s' % (hn, x)))
    return v
@model('<&mut Shared as Deref>::deref', '<&Shared as Deref>::deref')
def _derefref(m, st, a, c): return val(m, st, a[0])
def visit_of(m, st, it):
    """the visit presented by item `it` of a breadth-first iterator"""
    size = Agg('Size', None, [app('int', {'degree': 'vdeg', 'descendants': 'vdesc'}[f], it) for f, _ in m.decls.structs['Size'][1]])
    return Agg('bfs::Visit', None, [{'data': app('V', 'vpay', it), 'size': size}[f] for f, _ in m.decls.structs['bfs::Visit'][1]])
@model('<T as Clone>::clone')
def _payclone(m, st, a, c):
    """a clone is a new value object, equal to the original"""
    v, _ = derefall(m, st, a[0])
    if not (isinstance(v, T) and v.sort == 'V'): raise Unsupported('clone of %r' % (v,))
    w = m.new(st, 'V', 'clone')
    m.assume(st, 'val(%s) == val(%s)' % (render(w), render(v)))
    st.ghost['clones'] = st.ghost.get('clones', ()) + (render(w),)
    return w
@model('<Splitted as Iterator>::map')
def _splitmap(m, st, a, c):
    """the traversal, each visit passed through the closure: the closure is checked on an arbitrary visit, the result is
    the sequence of items it yields (the nodes are borrowed while the iterator lives, so the heap of now is the heap of then)"""
    from specs_iter import view
    q = a[0].fields[0]
    h = m.heap_name(st)
    if isinstance(q, Agg) and q.name == 'VecDeque' and len(q.fields) == 1: f = view(Env(m, st, [], []), h, q.fields[0])
    elif isinstance(q, T): f = 'flat(%s)' % render(q)
    else: raise Unsupported('queue %r' % (q,))
    m.lemma(st, 'lemma_bout_real(%s, %s, if sumd(%s.desc, %s) >= 0 { sumd(%s.desc, %s) as nat } else { 0 })' % (h, f, h, f, h, f))
    nodes = 'visited(%s, %s)' % (h, f)
    m.oblige(st, 'C06: every visited node is live and has a payload', 'allnodes(%s, %s)' % (h, nodes))
    s2 = st.clone()
    x = m.new(s2, 'P', 'node')
    m.assume(s2, '%s.alive[%s] && real(%s.data[%s])' % (h, render(x), h, render(x)))
    pl = raw('V', 'pay(%s.data[%s])' % (h, render(x)))
    size = {'degree': raw('int', '(%s.kids[%s].len() as int)' % (h, render(x))), 'descendants': raw('int', '%s.desc[%s]' % (h, render(x)))}
    sz = Agg('Size', None, [size[n] for n, _ in m.decls.structs['Size'][1]])
    ref = Ref((m.newobj(s2, pl, ('adt', 'T')), ()))
    vis = Agg('bfs::Visit', None, [{'data': ref, 'size': sz}[n] for n, _ in m.decls.structs['bfs::Visit'][1]])
    before = dict(s2.heap)
    def body(mm, s, r):
        if any(s.heap[k] is not before[k] for k in before): raise Unsupported('map: closure with effects')
        d = {n: v for (n, _), v in zip(m.decls.structs['bfs::Visit'][1], r.fields)}
        z = {n: v for (n, _), v in zip(m.decls.structs['Size'][1], d['size'].fields)}
        w = d['data']
        if not (isinstance(w, T) and w.sort == 'V'): raise Unsupported('map: item %r' % (w,))
        m.oblige(s, 'C07: the item carries the number of children', '%s == %s' % (render(z['degree']), render(size['degree'])))
        m.oblige(s, 'C07: the item carries the number of descendants', '%s == %s' % (render(z['descendants']), render(size['descendants'])))
        m.oblige(s, 'C07: the item carries an equal payload', 'val(%s) == val(%s)' % (render(w), render(pl)))
        m.oblige(s, 'C05: the payload is a copy of its own', 'true' if render(w) in s.ghost.get('clones', ()) else 'false')
        m.logs.append(s.log)
        raise PathEnd()
    def go(s):
        it = m.new(s, 'S:P', 'items')
        m.assume(s, 'presents(%s, %s, %s)' % (h, nodes, render(it)))
        m.assume(s, 'ownitems(%s, %s)' % (h, render(it)), 'the copies are new objects')
        s.ghost['mapped'] = f, render(it)
        return c.done(s, it)
    return Step(m.forks([(s2, lambda s: m.call_closure(s, a[1], [vis], body)), (st, go)]))
# ---------------------------------------------------------------- trait methods of type parameters (assumed trait contracts)
def derefall(m, st, v):
    loc = None
    while isinstance(v, Ref): loc = v.loc; v = m.read(st, v.loc)
    return v, loc
@model('generic:IntoIterator::into_iter')
def _ginto(m, st, a, c): return a[0]
@model('generic:Iterator::next')
def _gnext(m, st, a, c):
    v, loc = derefall(m, st, a[0])
    if not (isinstance(v, T) and v.sort == 'S:P'): raise Unsupported('next of %r' % (v,))
    n = seqlen(v); cond = lt(num(0), n)
    s2 = st.clone()
    m.assume(st, cond); m.assume(s2, not_(cond))
    def some_(x):
        it = T('P', 'seqidx', v, num(0))
        m.write(x, loc, raw('S:P', '%s.drop_first()' % render(v)))
        if c.dty[0] == 'adt' and len(c.dty) > 2 and c.dty[2][1] == 'bfs::Visit': it = visit_of(m, x, it)
        elif c.dty[0] == 'adt' and len(c.dty) > 2 and c.dty[2][:2] == ('adt', 'Tree'):
            t = m.fresh(x, c.dty[2], 'item'); p = t
            while isinstance(p, Agg): p = p.fields[0]
            m.assume(x, eq(p, it)); it = t
        return c.done(x, mkopt(it))
    return Step(m.forks([(st, some_), (s2, lambda x: c.done(x, mknone()))]))
@model('generic:ExactSizeIterator::len')
def _glen(m, st, a, c):
    v, _ = derefall(m, st, a[0])
    if not (isinstance(v, T) and v.sort == 'S:P'): raise Unsupported('len of %r' % (v,))
    return seqlen(v)
@model('generic:Split::split')
def _gsplit(m, st, a, c):
    p = a[0]
    if not (isinstance(p, T) and p.sort == 'P'): raise Unsupported('split of %r' % (p,))
    h = m.heap_name(st)
    return Agg('tuple', None, [raw('V', 'pay(%s.data[%s])' % (h, render(p))), raw('S:P', '%s.kids[%s]' % (h, render(p))), raw('int', '%s.desc[%s]' % (h, render(p)))])
@model('generic:FnMut::call_mut', 'generic:FnOnce::call_once', 'generic:Fn::call')
def _gcall(m, st, a, c):
    """a closure of the user: its result is an unknown function of the history; the calls are recorded"""
    w = m.new(st, 'V', 'ret')
    st.ghost['calls'] = st.ghost.get('calls', ()) + ((a[1], w),)
    return w
@model('generic:Iterator::map')
def _gmap(m, st, a, c):
    """items passed through a closure: the closure is checked on an arbitrary item"""
    src = a[0]
    if not (isinstance(src, T) and src.sort == 'S:P'): raise Unsupported('map of %r' % (src,))
    s2 = st.clone(); s2.ghost['calls'] = ()
    it = m.new(s2, 'P', 'item')
    before = dict(s2.heap)
    def body(mm, s, r):
        if any(s.heap[k] is not before[k] for k in before): raise Unsupported('map: closure with effects')
        d = {n: v for (n, _), v in zip(m.decls.structs['bfs::Visit'][1], r.fields)}
        z = {n: v for (n, _), v in zip(m.decls.structs['Size'][1], d['size'].fields)}
        calls = s.ghost['calls']
        m.oblige(s, 'C07: the item keeps its number of children', '%s == vdeg(%s)' % (render(z['degree']), render(it)))
        m.oblige(s, 'C07: the item keeps its number of descendants', '%s == vdesc(%s)' % (render(z['descendants']), render(it)))
        m.oblige(s, 'C07: the closure is called once per item', 'true' if len(calls) == 1 else 'false')
        if len(calls) == 1:
            x, w = calls[0]
            if isinstance(x, Agg) and x.name == 'tuple': x = x.fields[0]
            m.oblige(s, 'C07: the closure is given the payload of the item', '%s == vpay(%s)' % (render(x), render(it)))
            m.oblige(s, 'C07: the item gets the result of the closure', '%s == %s' % (render(d['data']), render(w)))
        m.logs.append(s.log)
        raise PathEnd()
    def go(s):
        r = m.new(s, 'S:P', 'items')
        m.assume(s, 'mapped(%s, %s)' % (render(src), render(r)))
        return c.done(s, r)
    return Step(m.forks([(s2, lambda s: m.call_closure(s, a[1], [visit_of(m, s, it)], body)), (st, go)]))
# ---------------------------------------------------------------- payload traits (functions of the payload values) and std's iterator comparisons
def payval(m, st, v):
    v, _ = derefall(m, st, v)
    if isinstance(v, Agg) and v.name == 'Ref' and len(v.fields) == 1: v = v.fields[0]
    if not (isinstance(v, T) and v.sort == 'V'): raise Unsupported('payload %r' % (v,))
    return 'val(%s)' % render(v)
@model('<T as PartialEq>::eq', '<&T as PartialEq>::eq')
def _payeq(m, st, a, c): return raw('bool', 'peq(%s, %s)' % (payval(m, st, a[0]), payval(m, st, a[1])))
@model('<T as PartialEq>::ne', '<&T as PartialEq>::ne')
def _payne(m, st, a, c): return raw('bool', '!peq(%s, %s)' % (payval(m, st, a[0]), payval(m, st, a[1])))
def order(m, st, e, c, opt):
    """the order code e: -1, 0, 1 (2: not comparable, for partial orders)"""
    st2 = st.clone() if opt else None
    r = m.new(st, 'int', 'ord')
    m.assume(st, '%s == %s' % (render(r), e)); m.assume(st, '-1 <= %s <= 1' % render(r))
    if not opt: return r
    m.assume(st2, '(%s) == 2' % e)
    return Step(m.forks([(st, lambda x: c.done(x, mkopt(r))), (st2, lambda x: c.done(x, mknone()))]))
@model('<T as PartialOrd>::partial_cmp', '<&T as PartialOrd>::partial_cmp')
def _paypcmp(m, st, a, c): return order(m, st, 'ppc(%s, %s)' % (payval(m, st, a[0]), payval(m, st, a[1])), c, True)
@model('<T as Ord>::cmp', '<&T as Ord>::cmp')
def _paycmp(m, st, a, c): return order(m, st, 'pcm(%s, %s)' % (payval(m, st, a[0]), payval(m, st, a[1])), c, False)
@model('<T as Hash>::hash', '<&T as Hash>::hash')
def _payhash(m, st, a, c):
    x = payval(m, st, a[0]); v, loc = derefall(m, st, a[1])
    if not (isinstance(v, T) and v.sort == 'S:P'): raise Unsupported('hasher %r' % (v,))
    m.write(st, loc, raw('S:P', '%s.push(%s)' % (render(v), x)))
    return UNIT
def itseqs(m, st, a):
    """the node sequences two iterators yield; std's comparison consumes them, comparing the nodes by their own impl"""
    from specs_iter import view
    h = m.heap_name(st); E = Env(m, st, [], [])
    out = [view(E, h, val(m, st, x)) for x in a]
    for o in out: m.oblige(st, 'C15: the nodes compared are live and have payloads', 'allnodes(%s, %s)' % (h, o))
    return (h,) + tuple(out)
@model('<Iter as Iterator>::eq')
def _iteq(m, st, a, c): return raw('bool', 'teqs(%s, %s, %s)' % itseqs(m, st, a))
@model('<Iter as Iterator>::ne')
def _itne(m, st, a, c): return raw('bool', '!teqs(%s, %s, %s)' % itseqs(m, st, a))
@model('<Iter as Iterator>::partial_cmp')
def _itpcmp(m, st, a, c): return order(m, st, 'scmp(false, %s, %s, %s)' % itseqs(m, st, a), c, True)
@model('<Iter as Iterator>::cmp')
def _itcmp(m, st, a, c): return order(m, st, 'scmp(true, %s, %s, %s)' % itseqs(m, st, a), c, False)
def rcseqs(m, st, a):
    """the node sequences two handle iterators yield.  std's comparison drives next() to the end of one of them, drops each
    handle yielded and in the end both iterators, so that exactly the references they hold go away"""
    from specs_rc import itv, optp, hok, rc_ptr
    h = m.heap_name(st); E = Env(m, st, [], [])
    out = []; held = []
    for x in a:
        cv, n = itv(E, x); c, r = optp(E, cv)
        if r is None: out.append('rest(%s.next, None, %s)' % (h, n)); continue
        p = rc_ptr(r)
        m.oblige(st, 'C13: the next handle denotes a live node', '(%s) ==> %s' % (c, hok(h, r)))
        out.append('rest(%s.next, oi(%s, %s), %s)' % (h, c, p, n)); held.append((c, p))
    for o in out: m.oblige(st, 'C15: the nodes compared are live and have payloads', 'allnodes(%s, %s)' % (h, o))
    for c, p in held:
        h1 = m.heap_name(st)
        m.oblige(st, 'C13: the node of the handle is referenced otherwise, too', '(%s) ==> %s.alive[%s] && %s.cnt[%s] >= 2' % (c, h1, p, h1, p))
        st.nid += 1; hn = 'hr%d' % st.nid; st.log.append(('var', hn, 'H'))
        for f in ('cnt', 'vref'): m.set_heap(st, f, raw('M:' + HEAP[f], '%s.%s' % (hn, f)))
        h2 = m.heap_name(st)
        m.assume(st, 'if %s { recount(%s, %s, %s, -1) } else { recount(%s, %s, 0, 0) }' % (c, h1, h2, p, h1, h2), 'the iterator is consumed')
        m.lemma(st, 'if %s { lemma_recount(%s, %s, %s, -1); } else { lemma_rcok_same2(%s, %s, 0); }' % (c, h1, h2, p, h1, h2))
    return (h,) + tuple(out)
@model('<IterRc as Iterator>::eq')
def _rceq(m, st, a, c): return raw('bool', 'teqs(%s, %s, %s)' % rcseqs(m, st, a))
@model('<IterRc as Iterator>::ne')
def _rcne(m, st, a, c): return raw('bool', '!teqs(%s, %s, %s)' % rcseqs(m, st, a))
@model('<IterRc as Iterator>::partial_cmp')
def _rcpcmp(m, st, a, c): return order(m, st, 'scmp(false, %s, %s, %s)' % rcseqs(m, st, a), c, True)
@model('<IterRc as Iterator>::cmp')
def _rccmp(m, st, a, c): return order(m, st, 'scmp(true, %s, %s, %s)' % rcseqs(m, st, a), c, False)
@model('<Iter as IntoIterator>::into_iter', '<IterMut as IntoIterator>::into_iter', '<IterRc as IntoIterator>::into_iter')
def _itinto(m, st, a, c): return a[0]
@model('<&&Node as PartialEq>::eq')
def _x(m, st, a, c): raise Unsupported('node equality')

# ---------------------------------------------------------------- formatting: a formatter is the text written so far
@model('fresh:Error')
def _fmterr(m, st, t, base): return UNIT
OKR = lambda: Agg('Result', 'Ok', [UNIT])
ERRR = lambda: Agg('Result', 'Err', [UNIT])
def fmt_template(lit):
    """pieces of the compiler's format template: str for text, None for the next argument with default options"""
    b = eval(lit, {'__builtins__': {}})
    out = []; i = 0
    while i < len(b):
        k = b[i]
        if k == 0:
            if i != len(b) - 1: raise Unsupported('format template %s' % lit)
            return out
        if k < 0x80: out.append(b[i+1:i+1+k].decode()); i += 1 + k
        elif k == 0xc0: out.append(None); i += 1
        else: raise Unsupported('format template %s' % lit)
    raise Unsupported('format template %s' % lit)
@model('Argument::new_display')
def _fmtdisp(m, st, a, c): return Agg('fmtarg', ('Display', c.argtys[0]), [a[0]])
@model('Arguments::from_str')
def _fmtstr(m, st, a, c):
    v = val(m, st, a[0])
    if not (isinstance(v, Agg) and v.name == 'str'): raise Unsupported('format string %r' % (v,))
    return Agg('fmtargs', None, [eval(v.fields[0], {'__builtins__': {}})])
@model('Arguments::new')
def _fmtnew(m, st, a, c):
    t, xs = val(m, st, a[0]), val(m, st, a[1])
    if not (isinstance(t, Agg) and t.name == 'bytes' and isinstance(xs, Agg) and xs.name == 'array'): raise Unsupported('format arguments %r %r' % (t, xs))
    xs = list(xs.fields); out = []
    for p in fmt_template(t.fields[0]): out.append(p if p is not None else xs.pop(0))
    if xs: raise Unsupported('format arguments left over')
    return Agg('fmtargs', None, out)
def write_text(m, st, loc, text):
    """writing either succeeds or fails; a failure is recorded in the text"""
    old = m.read(st, loc)
    if not (isinstance(old, T) and old.sort == 'S:P'): raise Unsupported('formatter %r' % (old,))
    new = m.new(st, 'S:P', 'out'); r = m.fresh(st, ('adt', 'Result', ('tuple',), ('adt', 'Error')), 'res')
    m.assume(st, '%s == 0 ==> %s == %s + %s' % (render(r.tag), render(new), render(old), text))
    m.assume(st, '%s == 1 ==> failed(%s)' % (render(r.tag), render(new)))
    m.write(st, loc, new)
    return r
def chars(s): return 'seq![%s]' % ', '.join('%dint' % ord(x) for x in s) if s else 'Seq::<int>::empty()'
def write_pieces(m, st, f, ps, k):
    _, loc = derefall(m, st, f)
    RT = ('adt', 'Result', ('tuple',), ('adt', 'Error'))
    def go(s, i):
        if i == len(ps): return k(s, OKR())
        def done(s2, r):
            if i == len(ps) - 1: return k(s2, r)
            return m.cases(s2, r, RT, lambda s3, vn, fs: go(s3, i + 1) if vn == 'Ok' else k(s3, ERRR()))
        p = ps[i]
        if isinstance(p, str): return done(s, write_text(m, s, loc, chars(p)))
        t = p.variant[1]; v = p.fields[0]
        while t[0] == 'ref': t = t[2]
        if t in (('adt', 'T'), ('param', 'T')): return done(s, write_text(m, s, loc, 'disp(%s)' % payval(m, s, v)))
        if t[0] != 'adt': raise Unsupported('display of %r' % (t,))
        x = v
        while isinstance(x, Ref) and isinstance(m.read(s, x.loc), Ref): x = m.read(s, x.loc)
        if isinstance(x, Ref):
            y = m.read(s, x.loc)
            if isinstance(y, T) and y.sort == 'P' and t[1] == 'Node': x = y
        return m.invoke(s, ['<%s as Display>::fmt' % t[1]], [x, f], lambda mm, s2, r: done(s2, r), [('ref', False, t), ('ref', True, ('adt', 'Formatter'))])
    return go(st, 0)
@model('Formatter::write_fmt', '<Formatter as Write>::write_fmt', '<_ as Write>::write_fmt')
def _writefmt(m, st, a, c): return Step(write_pieces(m, st, a[0], a[1].fields, lambda s, r: c.done(s, r)))
@model('Formatter::write_str', '<Formatter as Write>::write_str', '<_ as Write>::write_str')
def _writestr(m, st, a, c):
    v = val(m, st, a[1])
    if not (isinstance(v, Agg) and v.name == 'str'): raise Unsupported('string %r' % (v,))
    return Step(write_pieces(m, st, a[0], [eval(v.fields[0], {'__builtins__': {}})], lambda s, r: c.done(s, r)))
@model('<T as Display>::fmt', '<&T as Display>::fmt')
def _paydisp(m, st, a, c):
    x = payval(m, st, a[0]); _, loc = derefall(m, st, a[1])
    return write_text(m, st, loc, 'disp(%s)' % x)
@model('<&Node as Display>::fmt', '<&&Node as Display>::fmt')
def _nodedisp(m, st, a, c): return Step(write_pieces(m, st, a[1], [Agg('fmtarg', ('Display', ('adt', 'Node')), [a[0]])], lambda s, r: c.done(s, r)))
@model('<Result as Try>::branch')
def _trybranch(m, st, a, c):
    t = ('adt', 'Result', ('tuple',), ('adt', 'Error'))
    return Step(m.cases(st, a[0], t, lambda s, vn, fs: c.done(s, Agg('ControlFlow', 'Continue', [fs[0]]) if vn == 'Ok' else Agg('ControlFlow', 'Break', [Agg('Result', 'Err', list(fs))]))))
@model('<Result as FromResidual<Result>>::from_residual', '<Result as FromResidual>::from_residual', '<_ as FromResidual>::from_residual')
def _residual(m, st, a, c): return a[0]

# ---------------------------------------------------------------- tuple notation
def self_name(c):
    g = re.match(r'^<(\w+) as ', c.callee)
    if not g: raise Unsupported('self type of ' + c.callee)
    return g.group(1)
def witness(m, st, name):
    """an arbitrary value of the type parameter (sizes are the same for all its values)"""
    k = 'wit:' + name
    if k not in st.ghost: st.ghost[k] = m.new(st, 'R', 'wit')
    return render(st.ghost[k])
def usz(m, st, e):
    r = m.new(st, 'int', 'sz'); m.assume(st, '%s == %s && %s >= 0' % (render(r), e, render(r)))
    return r
@model('generic:TupleTree::descendants', 'generic:TupleForest::descendants')
def _tdesc(m, st, a, c): return usz(m, st, 'rz_dn(%s, %s)' % (witness(m, st, self_name(c)), render(a[0])))
@model('generic:TupleTree::height')
def _thgt(m, st, a, c): return usz(m, st, 'rz_hgt(%s)' % witness(m, st, self_name(c)))
@model('generic:TupleForest::height')
def _fhgt(m, st, a, c): return usz(m, st, 'rz_hgts(%s.kids)' % witness(m, st, self_name(c)))
def size_of(m, st, w):
    d = {'degree': '(%s.kids.len() as int)' % w, 'descendants': 'rz_tots(%s.kids)' % w}
    return Agg('Size', None, [usz(m, st, d[n]) for n, _ in m.decls.structs['Size'][1]])
def evlog(m, st, v):
    v, loc = derefall(m, st, v)
    if not (isinstance(v, T) and v.sort == 'S:TEv'): raise Unsupported('visitor %r' % (v,))
    return v, loc
def emit_ev(m, st, f, e, what):
    v, loc = evlog(m, st, f)
    w = m.new(st, 'S:TEv', 'log'); m.assume(st, '%s == %s + %s' % (render(w), render(v), e))
    m.write(st, loc, w)
    st.ghost['visits'] = st.ghost.get('visits', ()) + ((what, render(v), render(w)),)
    return UNIT
@model('@visit')
def _visit(m, st, a, c):
    xs = a[1].fields; vis = xs[0]
    if not (isinstance(vis, Agg) and vis.name == 'tuple::Visit'): raise Unsupported('visit %r' % (vis,))
    d = render(vis.fields[0]) if vis.fields else '0'
    z = {n: '0' for n, _ in m.decls.structs['Size'][1]}
    if len(xs) > 1: z = {n: render(x) for (n, _), x in zip(m.decls.structs['Size'][1], xs[1].fields)}
    return emit_ev(m, st, a[0], 'seq![TEv{k: %d, d: %s, deg: %s, desc: %s}]' % ({'Leaf': 0, 'Branch': 1, 'Frame': 2}[vis.variant], d, z['degree'], z['descendants']), None)
def visit_fn():
    """a traversal handing its visits to a known closure: for every visit of the list, in order, f(visit, size)"""
    fn = Fn(); fn.text = ''; fn.const = None; fn.debug = {}; fn.name = fn.key = 'std::visits'
    U = ('param', '?')
    fn.params = [(1, ('ref', True, ('closure', '?'))), (2, ('adt', '@visits'))]; fn.ret = ('tuple',)
    fn.locals = {0: fn.ret, 3: ('adt', 'Option', U), 4: ('adt', 'isize'), 5: U, 6: ('ref', True, ('adt', '@visits')), 7: ('tuple',), 8: ('ref', True, ('closure', '?'))}
    fn.locals.update(dict(fn.params))
    P = lambda i, *q: (i, tuple(q))
    fn.blocks = {'bb0': [('goto', 'bb1')],
      'bb1': [('assign', P(6), ('ref', P(2), True)), ('call', P(3), '@nextvisit', [('move', P(6))], 'bb2')],
      'bb2': [('assign', P(4), ('discr', P(3))), ('switch', ('move', P(4)), [(0, 'bb9'), (None, 'bb3')])],
      'bb3': [('assign', P(5), ('use', ('move', P(3, ('as', 'Some'), ('field', 0, U))))), ('call', P(7), '@callvisit', [('copy', P(1)), ('move', P(5))], 'bb1')],
      'bb9': [('assign', P(0), ('use', ('const', '()'))), ('return',)]}
    return fn
@model('@nextvisit')
def _nextvisit(m, st, a, c):
    s = m.read(st, a[0].loc); r = render(s); e = '%s[0]' % r
    out = []
    for k, vn in enumerate(('Leaf', 'Branch', 'Frame')):
        x = st.clone() 
        m.assume(x, '%s.len() > 0' % r); m.assume(x, '%s.k == %d' % (e, k))
        d = raw('V', '%s.d' % e)
        vis = Agg('tuple::Visit', vn, [d] if k < 2 else [])
        z = {'degree': raw('int', '%s.deg' % e), 'descendants': raw('int', '%s.desc' % e)}
        sz = Agg('Size', None, [z[n] for n, _ in m.decls.structs['Size'][1]])
        def go(x, vis=vis, sz=sz, k=k):
            x.ghost['visit'] = k
            m.write(x, a[0].loc, raw('S:TEv', '%s.drop_first()' % r))
            return c.done(x, mkopt(Agg('tuple', None, [vis, sz])))
        out.append((x, go))
    z = st.clone(); m.assume(z, '%s.len() == 0' % r)
    out.append((z, lambda x: c.done(x, mknone())))
    return Step(m.forks(out))
@model('@callvisit')
def _callvisit(m, st, a, c): return Step(m.call_closure(st, a[0], list(a[1].fields), lambda mm, s, r: c.done(s, UNIT)))
def visit_closure(m, st, a, c, evs):
    """the contract of the traversal (C11) applied to a known closure"""
    v, loc = derefall(m, st, a[1])
    return Step(m.invoke(st, visit_fn(), [Ref(loc), raw('S:TEv', evs)], lambda mm, s, r: c.done(s, UNIT)))
def isclosure(m, st, f):
    v, _ = derefall(m, st, f)
    return isinstance(v, Agg) and v.name.startswith('closure:')
def walk_model(pre, hint, forest=False):
    def f(m, st, a, c):
        if not (isinstance(a[0], T) and a[0].sort == 'R'): raise Unsupported('tuple %r' % (a[0],))
        evs = 'rz_walk%s(%s, %s, %s%s)' % ('s' if forest else '', pre, hint, render(a[0]), '.kids' if forest else '')
        if isclosure(m, st, a[1]): return visit_closure(m, st, a, c, evs)
        if forest: raise Unsupported('visitor of a forest')
        return emit_ev(m, st, a[1], evs, render(a[0]))
    return f
for _n, _p in (('pre', 'true'), ('post', 'false')):
    M['generic:TupleTree::%sorder' % _n] = walk_model(_p, 'false')
    M['generic:TupleTree::%sorder_with_size_hint' % _n] = walk_model(_p, 'true')
    M['generic:TupleForest::%sorder' % _n] = walk_model(_p, 'false', True)
    M['generic:TupleForest::%sorder_with_size_hint' % _n] = walk_model(_p, 'true', True)
# ---------------------------------------------------------------- arrays and slices of known length
@model('slice::iter')
def _sliceiter(m, st, a, c):
    v, loc = derefall(m, st, a[0])
    if not (isinstance(v, Agg) and v.name == 'array'): raise Unsupported('iter of %r' % (v,))
    return Agg('SliceIter', None, [Ref((loc[0], loc[1] + (('f', i),))) for i in range(len(v.fields))])
def fold_max(m, st, a, c, cmp):
    """std's max_by: the accumulated element is kept when compared Greater, else replaced"""
    if not (isinstance(a[0], Agg) and a[0].name == 'SliceIter'): raise Unsupported('max of %r' % (a[0],))
    refs = list(a[0].fields)
    if not refs: return c.done(st, mknone())
    st.ghost['maxes'] = ()
    def go(s, acc, i):
        if i == len(refs): return c.done(s, mkopt(acc))
        ra, rb = (Ref((m.newobj(s, x, ('ref', False, ('adt', 'usize'))), ())) for x in (acc, refs[i]))
        def got(s2, o):
            if not (isinstance(o, T) and o.sort == 'int'): raise Unsupported('order %r' % (o,))
            r = m.new(s2, 'int', 'mx')
            m.assume(s2, '%s == (if %s == 1 { %s } else { %s })' % (render(r), render(o), render(m.read(s2, acc.loc)), render(m.read(s2, refs[i].loc))))
            return go(s2, Ref((m.newobj(s2, r, ('adt', 'usize')), ())), i + 1)
        return cmp(s, ra, rb, got)
    return go(st, refs[0], 1)
@model('<Iter as Iterator>::max_by')
def _maxby(m, st, a, c): return Step(fold_max(m, st, a, c, lambda s, x, y, k: m.call_closure(s, a[1], [x, y], lambda mm, s2, o: k(s2, o))))
@model('<Iter as Iterator>::copied', '<Iter as Iterator>::cloned')
def _copied(m, st, a, c):
    if not (isinstance(a[0], Agg) and a[0].name == 'SliceIter'): raise Unsupported('copied of %r' % (a[0],))
    return Agg('ValIter', None, [m.read(st, r.loc) for r in a[0].fields])
@model('<Iter as Iterator>::fold', '<Copied as Iterator>::fold', '<Cloned as Iterator>::fold')
def _slicefold(m, st, a, c):
    if not (isinstance(a[0], Agg) and a[0].name in ('SliceIter', 'ValIter')): raise Unsupported('fold of %r' % (a[0],))
    xs = list(a[0].fields)
    def go(s, acc, i): return c.done(s, acc) if i == len(xs) else m.call_closure(s, a[2], [acc, xs[i]], lambda mm, s2, r: go(s2, r, i + 1))
    return Step(go(st, a[1], 0))
@model('<Iter as Iterator>::sum', '<Copied as Iterator>::sum', '<Cloned as Iterator>::sum')
def _slicesum(m, st, a, c):
    if not (isinstance(a[0], Agg) and a[0].name in ('SliceIter', 'ValIter')): raise Unsupported('sum of %r' % (a[0],))
    r = num(0)
    for x in a[0].fields: r = add(r, derefall(m, st, x)[0])
    return r
@model('<Copied as Iterator>::max', '<Cloned as Iterator>::max')
def _valmax(m, st, a, c):
    if not (isinstance(a[0], Agg) and a[0].name == 'ValIter'): raise Unsupported('max of %r' % (a[0],))
    xs = list(a[0].fields)
    if not xs: return mknone()
    r = xs[0]
    for x in xs[1:]:
        n = m.new(st, 'int', 'mx'); m.assume(st, '%s == (if %s <= %s { %s } else { %s })' % (render(n), render(r), render(x), render(x), render(r))); r = n
    return mkopt(r)
@model('<Iter as Iterator>::max')
def _max(m, st, a, c): return Step(fold_max(m, st, a, c, lambda s, x, y, k: k(s, usize_cmp(m, s, x, y))))
def usize_cmp(m, st, x, y):
    x, y = derefall(m, st, x)[0], derefall(m, st, y)[0]
    if not (isinstance(x, T) and isinstance(y, T) and x.sort == y.sort == 'int'): raise Unsupported('order of %r' % (x,))
    return ite(lt(x, y), num(-1), ite(eq(x, y), num(0), num(1)))
@model('<usize as Ord>::cmp', '<&usize as Ord>::cmp', '<&&usize as Ord>::cmp')
def _usizecmp(m, st, a, c): return usize_cmp(m, st, a[0], a[1])
@model('Ord::min', '<usize as Ord>::min', 'cmp::min')
def _usizemin(m, st, a, c):
    if not all(isinstance(x, T) and x.sort == 'int' for x in a): raise Unsupported('min')
    n = m.new(st, 'int', 'mn'); x, y = map(render, a)
    m.assume(st, '%s == (if %s <= %s { %s } else { %s })' % (render(n), x, y, x, y))
    return n
def usize_ref(*ks): return ['<%s as %s>::%s' % (x, t, f) for x, y in (('&usize', 'usize'), ('usize', '&usize'), ('&usize', '&usize')) for t, f in [(ks[0] + '<' + y + '>', ks[1])]]
@model(*(usize_ref('Add', 'add') + ['<&usize as Add>::add']))
def _usizeadd(m, st, a, c): return add(derefall(m, st, a[0])[0], derefall(m, st, a[1])[0])
@model(*(usize_ref('Sub', 'sub') + ['<&usize as Sub>::sub']))
def _usizesub(m, st, a, c):
    x, y = derefall(m, st, a[0])[0], derefall(m, st, a[1])[0]
    m.oblige(st, 'subtraction does not underflow', le(y, x)); m.assume(st, le(y, x))
    return sub(x, y)
# ---------------------------------------------------------------- Ordering (-1, 0, 1)
def on_equal(m, st, v, c, k):
    if not (isinstance(v, T) and v.sort == 'int'): raise Unsupported('order %r' % (v,))
    s2 = st.clone()
    m.assume(st, not_(eq(v, num(0)))); m.assume(s2, eq(v, num(0)))
    return Step(m.forks([(st, lambda x: c.done(x, v)), (s2, k)]))
@model('Ordering::then')
def _then(m, st, a, c): return on_equal(m, st, m.norm(a[0], c.argtys[0]), c, lambda x: c.done(x, a[1]))
@model('Ordering::then_with')
def _thenwith(m, st, a, c): return on_equal(m, st, m.norm(a[0], c.argtys[0]), c, lambda x: m.call_closure(x, a[1], [], lambda mm, s2, r: c.done(s2, r)))
@model('Ordering::reverse')
def _ordrev(m, st, a, c): return sub(num(0), m.norm(a[0], c.argtys[0]))
def ordtest(n, f):
    @model('Ordering::' + n)
    def g(m, st, a, c): return f(m.norm(a[0], c.argtys[0]))
ordtest('is_eq', lambda v: eq(v, num(0))); ordtest('is_ne', lambda v: not_(eq(v, num(0))))
ordtest('is_lt', lambda v: lt(v, num(0))); ordtest('is_gt', lambda v: lt(num(0), v))
ordtest('is_le', lambda v: le(v, num(0))); ordtest('is_ge', lambda v: le(num(0), v))
@model('Ord::max', '<usize as Ord>::max', 'cmp::max')
def _usizemax(m, st, a, c):
    if not all(isinstance(x, T) and x.sort == 'int' for x in a): raise Unsupported('max')
    n = m.new(st, 'int', 'mx'); x, y = map(render, a)
    m.assume(st, '%s == (if %s <= %s { %s } else { %s })' % (render(n), x, y, y, x))
    return n

def const(m, st, fr, c):
    g = re.match(r'^<(.*) as (?:[\w:]*::)?(TupleTree|TupleForest)<.*>>::(SIZE|\w+::promoted\[\d+\])$', c, re.S)
    if g:
        ty, tr, what = g.groups()
        if ty in GENERIC and what == 'SIZE': return size_of(m, st, witness(m, st, ty))
        if ty.startswith('('):
            n = len(split_top(ty[1:-1])) - (1 if tr == 'TupleTree' else 0)
            if what == 'SIZE' and 'self' in st.ghost and m.cur.key.startswith('%s#%d::' % (tr, n)): return size_of(m, st, st.ghost['self'])
            if what != 'SIZE':
                f = m.crate.get('%s#%d::%s' % (tr, n, what))
                if f: return promoted(m, st, f)
        raise Unsupported('constant ' + c)
    if c.startswith('b"'): return Ref((m.newobj(st, Agg('bytes', None, [c]), ('param', 'bytes')), ()))
    if c.endswith('usize::MAX') or c in ('std::usize::MAX', 'core::usize::MAX'): return raw('int', 'usize_max()')
    return None
def promoted(m, st, f):
    """evaluates the straight-line body of a promoted constant"""
    st.nid += 1
    fr = Frame(); fr.fn = parse_body(f); fr.fid = st.nid; fr.inst = None
    b = fr.fn.blocks['bb0']
    if len(fr.fn.blocks) != 1 or b[-1][0] != 'return': raise Unsupported('promoted constant ' + f.key)
    for x in b[:-1]:
        if x[0] != 'assign': raise Unsupported('promoted constant ' + f.key)
        loc, t = m.dst(st, fr, x[1])
        m.write(st, loc, m.norm(m.rvalue(st, fr, x[2], t), t))
    return st.store[('L', fr.fid, 0)]
M['const'] = const
