"""Contracts: breadth-first traversal (C06) and rebuilding (C07)."""
from exec import *
from specs_core import spec, fa, EDIT, opt, ret_opt, S
from specs_iter import view, iterv, fields_of
from specs_rel import NEWM
from specs_own import payref, wfl
def sval(E, v):
    """named fields of a struct value"""
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if not (isinstance(v, Agg) and v.name in E.m.decls.structs): raise Unsupported('struct value %r' % (v,))
    return {f: x for (f, _), x in zip(E.m.decls.structs[v.name][1], v.fields)}
def sizev(E, v):
    d = sval(E, v); return render(d['degree']), render(d['descendants'])
def queue(E, v):
    q = sval(E, v)['iters']
    if isinstance(q, Agg) and q.name == 'VecDeque': raise Unsupported('queue %r' % (q,))
    return render(q)
def optvisit(E, v):
    """(is there a visit, data, degree, descendants)"""
    if isinstance(v, Agg) and v.variant == 'None': return 'false', None, None, None
    if isinstance(v, Agg): c, x = 'true', v.fields[0]
    elif isinstance(v, SymEnum): c, x = '%s == 1' % render(v.tag), v.variants['Some'][0]
    else: raise Unsupported('visit %r' % (v,))
    d = sval(E, x); a, b = sizev(E, d['size'])
    return c, render(d['data']), a, b
def next_post(E):
    f, f2 = 'flat(%s)' % queue(E, E.old[0]), 'flat(%s)' % queue(E, E.a[0]); x = f + '[0]'
    c, d, dg, ds = optvisit(E, E.ret)
    L = [('C06: there is a visit if and only if a node is queued', '(%s) == (%s.len() > 0)' % (c, f)),
         ('C06: the children of the visited node are queued last', '%s == (if %s.len() > 0 { %s.drop_first() + %s.kids[%s] } else { %s })' % (f2, f, f, E.h, x, f))]
    if d is not None:
        L += [('C06: the payload of the first queued node is visited', '%s.len() > 0 ==> %s == pay(%s.data[%s])' % (f, d, E.h, x)),
              ('C06: the visit carries the number of children', '%s.len() > 0 ==> %s == %s.kids[%s].len()' % (f, dg, E.h, x)),
              ('C06: the visit carries the number of descendants', '%s.len() > 0 ==> %s == %s.desc[%s]' % (f, ds, E.h, x))]
    return L
def next_inv(E):
    C = E.m.curE
    return [('C06: only exhausted iterators leave the queue', 'flat(%s) == flat(%s)' % (queue(E, C.a[0]), queue(C, C.old[0])))]
def next_exit(E):
    q = queue(E, E.a[0])
    return ['lemma_flat_one(%s)' % q, 'lemma_flat_all()']
spec('<Splitted as Iterator>::next', post=next_post, loops=[LoopSpec(next_inv, body=lambda E: ['lemma_flat_one(%s)' % queue(E, E.m.curE.a[0])], dec=lambda E: '%s.len()' % queue(E, E.m.curE.a[0]))],
     exit=next_exit, props=('C06', 'C07'))
# ---------------------------------------------------------------- what a node contributes: payload, iterator over its children, descendants
def parts(E):
    r = E.ret
    if not (isinstance(r, Agg) and len(r.fields) == 3): raise Unsupported('split result %r' % (r,))
    return r.fields
def split_post(E):
    d, it, n = parts(E)
    if not (isinstance(d, Ref) and d.loc[0][0] == 'N' and d.loc[1] and d.loc[1][0] == ('h', 'data')): raise Unsupported('payload reference %r' % (d,))
    return [('C06: the payload is that of the very node', '%s == %s' % (render(d.loc[0][1]), E.p(0))), ('C06: the payload value', '%s == pay(%s.data[%s])' % (render(E.m.read(E.st, d.loc)), E.h, E.p(0))),
            ('C06: the iterator yields the children in order', '%s == %s.kids[%s]' % (view(E, E.h, it), E.h, E.p(0))), ('C06: its length is the number of children', '%s == %s.kids[%s].len()' % (iterv(E, it)[1], E.h, E.p(0))),
            ('C06: the number of descendants', '%s == %s.desc[%s]' % (render(n), E.h, E.p(0)))]
for k in ('<&Node as Split>::split', '<Pin<&mut Node> as Split>::split'):
    spec(k, pre=lambda E: wfl(E) + [('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))], post=split_post, props=('C06',))
def tsplit_post(E):
    h, h2, p = E.h, E.h2, E.p(0); d, it, n = parts(E); f = E.ptr_of(it)
    return [('C06: the payload is handed out', '%s == pay(%s.data[%s])' % (render(d), h, p)), ('C06: the iterator owns the children, in order', '%s.alive[%s] && fake(%s.data[%s]) && %s.kids[%s] == %s.kids[%s]' % (h2, f, h2, f, h2, f, h, p)),
            ('C06: the number of descendants', '%s == %s.desc[%s]' % (render(n), h, p)),
            ('C06: child sequences of all other nodes stay', '(forall|q: int| {h}.alive[q] ==> #[trigger] {h2}.kids[q] == {h}.kids[q])'.format(h=h, h2=h2)),
            ('C06: payloads of all other nodes stay', '(forall|q: int| {h}.alive[q] && q != {p} ==> #[trigger] {h2}.data[q] == {h}.data[q])'.format(h=h, h2=h2, p=p)),
            ('C05: no payload is dropped', '(forall|x: int| #[trigger] %s.pd[x] == %s.pd[x])' % (h2, h)),
            ('C05: accounting holds afterwards', 'rel(%s)' % h2), ('C01: all links and sizes consistent afterwards', 'wf(%s)' % h2)]
spec('<Tree as Split>::split', pre=lambda E: wfl(E) + [('accounting holds', 'rel(%s)' % E.h), ('the root has a payload', 'real(%s.data[%s])' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))], post=tsplit_post,
     after={'Tree::abandon': lambda E, O: ['assert forall|q: int| q != {n} implies #[trigger] {h2}.kids[q] == {h}.kids[q] by {{ assert(same_node({h}, {h2}, q)); }}'.format(n=E.p2(0), h=E.h, h2=E.h2)], 'Tree::into_data': lambda E, O: ['lemma_taken_out(%s, %s, %s)' % (E.h, E.h2, E.p(0))]},
     mod=tuple(dict.fromkeys(NEWM + ('alive', 'data', 'cnt', 'wk', 'vref', 'valive', 'pd', 'vlive', 'kids'))), props=('C06', 'C05'))
# ---------------------------------------------------------------- starting a traversal
def start(E, items, dg, ds):
    b = sval(E, E.ret); q = sval(E, b['iter'])['iters']
    if not (isinstance(q, Agg) and q.name == 'VecDeque'): raise Unsupported('queue %r' % (q,))
    L = [('C06: one iterator is queued', 'true' if len(q.fields) == 1 else 'false')]
    a, c = sizev(E, b['size'])
    if len(q.fields) == 1:
        it = q.fields[0]
        v = '%s.kids[%s]' % (E.h2, E.ptr_of(it)) if isinstance(it, Agg) and it.name == 'IntoIter' else view(E, E.h, it)
        L += [('C06: the traversal starts with the topmost nodes', '%s == %s' % (v, items))]
    return L + [('C06: the announced number of topmost nodes', '%s == %s' % (a, dg)), ('C06: the announced number of descendants', '%s == %s' % (c, ds))]
tree_start = lambda E: start(E, 'seq![%s]' % E.p(0), '1', '%s.desc[%s]' % (E.h, E.p(0)))
forest_start = lambda E: [(LEMMA, 'lemma_node(%s, %s)' % (E.h, E.p(0)))] + start(E, '%s.kids[%s]' % (E.h, E.p(0)), '%s.kids[%s].len()' % (E.h, E.p(0)), '%s.desc[%s]' % (E.h, E.p(0)))
for k in ('Node::bfs', 'Node::bfs_mut', 'Tree::bfs_mut'): spec(k, pre=wfl, post=tree_start, inline=True, props=('C06',))
for k in ('Node::bfs_children', 'Node::bfs_children_mut', 'Forest::bfs', 'Forest::bfs_mut', 'Tree::bfs_children_mut', 'Forest::into_bfs'): spec(k, pre=wfl, post=forest_start, inline=True, props=('C06',))
spec('Tree::into_bfs', pre=lambda E: wfl(E) + [('accounting holds', 'rel(%s)' % E.h), ('the root has a payload', 'real(%s.data[%s])' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))], post=tree_start, mod=NEWM, props=('C06',))
# ---------------------------------------------------------------- the iterator inside
def inner(k, name):
    def post(E):
        v = E.old[0]
        if not isinstance(v, SymEnum): raise Unsupported('traversal %r' % (v,))
        i = E.m.variants('Bfs').index(name); d = sval(E, v.variants[name][0]); it = d['iter']
        r = E.ret
        return [('C06: the iterator inside is handed out if it is of this kind', '(%s) == (%s == %d)' % ('true' if r.variant == 'Some' else 'false', render(v.tag), i))] \
            + ([('C06: it is the very iterator', '%s == %s' % (render(r.fields[0]), render(it)))] if r.variant == 'Some' else [])
    spec(k, post=post, props=('C06',))
inner('Bfs::tree_iter', 'Tree'); inner('Bfs::forest_iter', 'Forest')
# ---------------------------------------------------------------- sizes
def size_op(k, op, assign):
    def post(E):
        a, b, r = sval(E, E.old[0]), sval(E, E.old[1]), sval(E, E.a[0] if assign else E.ret)
        return [('C06: the %s is computed' % f, '%s == %s %s %s' % (render(r[f]), render(a[f]), op, render(b[f]))) for f in ('degree', 'descendants')]
    def pre(E):
        a, b = sval(E, E.a[0]), sval(E, E.a[1])
        return [('the sizes are not negative', ' && '.join('0 <= %s' % render(x[f]) for x in (a, b) for f in ('degree', 'descendants')))] + ([('no more is taken away than there is', ' && '.join('%s >= %s' % (render(a[f]), render(b[f])) for f in ('degree', 'descendants')))] if op == '-' else [])
    spec(k, pre=pre, post=post, props=('C06', 'C07'))
for k, op, asg in (('<Size as Add>::add', '+', False), ('<Size as AddAssign>::add_assign', '+', True), ('<Size as Sub>::sub', '-', False), ('<Size as SubAssign>::sub_assign', '-', True)): size_op(k, op, asg)
