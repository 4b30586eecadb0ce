"""Contracts: child iterators (C04) and the read accessors of nodes (C01, C03)."""
from exec import *
import specs_rel
from specs_core import spec, fa, EDIT, opt, ret_opt, S
from specs_rel import REL, ALLM, own_of

def fields_of(m, v, names):
    """named scalar fields anywhere inside a (nested) struct value"""
    out = {}
    def go(v):
        if isinstance(v, Agg) and v.variant is None and v.name in m.decls.structs:
            for (f, _), x in zip(m.decls.structs[v.name][1], v.fields):
                if f in names and not isinstance(x, Agg): out[f] = x
                else: go(x)
    go(v)
    if set(out) != set(names): raise Unsupported('fields %r of %r' % (names, v))
    return [out[n] for n in names]
def iterv(E, v):
    """(curr, len) of an iterator value"""
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    c, l = fields_of(E.m, v, ['curr', 'len'])
    return render(c), render(l)
def view(E, h, v): return 'rest(%s.next, %s, %s)' % ((h,) + iterv(E, v))
def live_items(E, h, v): return '(forall|i: int| 0 <= i < %s.len() ==> %s.alive[#[trigger] %s[i]])' % ((view(E, h, v), h, view(E, h, v)))

# ---------------------------------------------------------------- creating
def iter_spec(key, node=lambda E: E.p(0), keep=False):
    spec(key, pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, node(E)))],
         post=lambda E: [(LEMMA, 'lemma_rest_kids(%s, %s)' % (E.h, node(E))),
                         ('C04: the iterator yields exactly the children, in order', '%s == %s.kids[%s]' % (view(E, E.h, E.ret), E.h, node(E))),
                         ('C04: the announced length is the number of children', '%s == %s.kids[%s].len()' % (iterv(E, E.ret)[1], E.h, node(E)))]
                        + ([('C04: the handle still refers to the same node', '%s == %s' % (E.p2(0), E.p(0)))] if keep else []),
         entry=lambda E: ['lemma_node(h0, %s)' % node(E)], props=('C04',))
for k in ('Node::iter', 'Node::iter_mut', 'Forest::iter', 'Forest::iter_mut', 'Tree::iter_mut'): iter_spec(k, keep=k in ('Forest::iter_mut', 'Tree::iter_mut'))
def once_spec(key):
    spec(key, pre=lambda E: [('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))],
         post=lambda E: [('C04: the iterator yields exactly the node itself', '%s == seq![%s]' % (view(E, E.h, E.ret), E.p(0))),
                         ('C04: the announced length is one', '%s == 1' % iterv(E, E.ret)[1])],
         entry=lambda E: ['reveal_with_fuel(rest, 3)', 'assert(rest(h0.next, h0.next[%s], 0) =~= Seq::<int>::empty())' % E.p(0), 'assert(seq![{0}] + Seq::<int>::empty() =~= seq![{0}])'.format(E.p(0))], props=('C04', 'C06'))
once_spec('<&Node as IntoIterator>::into_iter')
once_spec('<Pin<&mut Node> as IntoIterator>::into_iter')
# ---------------------------------------------------------------- stepping
def next_spec(key):
    def old(E): return E.old[0]
    def pre(E): return [('the nodes still to come are live', live_items(E, E.h, E.a[0] if not E.old else old(E)))]
    def post(E):
        v, v2 = view(E, E.h, old(E)), view(E, E.h, E.a[0])
        return ret_opt(E, 'C04: the next child', '%s.len() > 0' % v, '%s[0]' % v) + [
            ('C04: the remaining children', '%s == (if %s.len() > 0 { %s.drop_first() } else { %s })' % (v2, v, v, v)),
            ('C04: the announced length follows', '%s == %s - bi(%s > 0, 1)' % (iterv(E, E.a[0])[1], iterv(E, old(E))[1], iterv(E, old(E))[1]))]
    spec(key, pre=pre, post=post, entry=lambda E: ['lemma_rest_len(h0.next, %s, %s)' % iterv(E, E.old[0])], props=('C04',))
for k in ('Iter', 'IterMut'): next_spec('<%s as Iterator>::next' % k)
def hint_spec(key):
    def pair(E):
        r = E.ret
        if not (isinstance(r, Agg) and len(r.fields) == 2): raise Unsupported('size hint %r' % (r,))
        c, p = optint(E, r.fields[1])
        return render(r.fields[0]), c, p
    def post(E):
        l = iterv(E, E.old[0])[1]; a, c, p = pair(E)
        return [('C04: lower bound is the number of children to come', '%s == %s' % (a, l)), ('C04: an upper bound is given', c), ('C04: upper bound is the number of children to come', '%s == %s' % (p, l))]
    spec(key, post=post, props=('C04',))
def optint(E, v):
    if isinstance(v, Agg) and v.name == 'Option': return ('true', render(v.fields[0])) if v.variant == 'Some' else ('false', '0int')
    if isinstance(v, SymEnum): return ('%s == 1' % render(v.tag), render(v.variants['Some'][0]))
    raise Unsupported('optional number %r' % (v,))
for k in ('Iter', 'IterMut'): hint_spec('<%s as Iterator>::size_hint' % k)
# ---------------------------------------------------------------- copies of iterators
def clone_spec(k, fs):
    def post(E):
        v, r = E.old[0], E.ret
        if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
        return [('C04: the copy has the same %s' % f, '%s == %s' % (render(a), render(b))) for f, a, b in zip(fs, fields_of(E.m, r, fs), fields_of(E.m, v, fs))] + \
               [('C04: the original stays', '%s == %s' % (render(a), render(b))) for a, b in zip(fields_of(E.m, E.m.read(E.st, E.a[0].loc) if isinstance(E.a[0], Ref) else E.a[0], fs), fields_of(E.m, v, fs))]
    spec(k, post=post, props=('C04',))
clone_spec('<UncountedRawIter as Clone>::clone', ['curr'])
clone_spec('<CountedRawIter as Clone>::clone', ['curr', 'len'])
