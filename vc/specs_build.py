"""Contracts: node buffers, rebuilding from breadth-first iterators, deep clones (C07)."""
from exec import *
from specs_core import spec, fa, EDIT, opt, ret_opt, S
from specs_own import wfl
from specs_bfs import sval, sizev
FILL = EDIT + ('data',)
BUILD = FILL + ('alive', 'cnt', 'vref', 'valive', 'vlive')
vec = lambda E, i=0: E.t(E.ptr_vec(i))
def pv(E, v):
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if not (isinstance(v, T) and v.sort == 'PV'): raise Unsupported('node buffer %r' % (v,))
    return render(v)
# ---------------------------------------------------------------- allocation
def new_post(E):
    v, n = pv(E, E.ret), E.t(E.a[0])
    return [(LEMMA, 'lemma_slots_card(%s)' % v), ('C07: a buffer of the given number of nodes, nothing else is touched', 'nslots(%s) == %s && outside(%s, %s, %s)' % (v, n, E.h, E.h2, v)),
            ('C07: its nodes are empty', '(forall|p: int| slot(%s, p) ==> #[trigger] blank(%s, p))' % (v, E.h2))]
spec('NodeVec::new_raw_non_null', post=new_post, mod=BUILD, props=('C07', 'C10'),
     ghost=lambda E: {'vlive': '{h}.vlive.insert({v}, slots({v}))'.format(h=E.h2, v=pv(E, E.ret))})
# ---------------------------------------------------------------- hooking in a child
def slot_(E, v, i): return 'elem(%s, %s)' % (v, E.t(E.old[i] if E.old else E.a[i]))
def app_pre(E):
    v = pv(E, E.a[0]); p, x = slot_(E, v, 1), slot_(E, v, 2); i, j = E.t(E.a[1]), E.t(E.a[2])
    return [('the buffer is allocated', '%s.valive[%s]' % (E.h, v)), ('both nodes are in the buffer', '0 <= %s < nslots(%s) && 0 <= %s < nslots(%s) && %s.alive[%s] && %s.alive[%s]' % (i, v, j, v, E.h, p, E.h, x)), ('they are different nodes', '%s != %s' % (p, x)),
            ('the child is still empty', '%s.data[%s] is None' % (E.h, x)),
            ('the last child is live', '({h}.tail[{p}] is Some ==> {h}.alive[{h}.tail[{p}]->Some_0] && {h}.tail[{p}]->Some_0 != {x})'.format(h=E.h, p=p, x=x))]
def app_post(E):
    v = pv(E, E.old[0]); p, x = slot_(E, v, 1), slot_(E, v, 2); d, s = sizev(E, E.old[4])
    return [('C07: the node becomes the last child, with the given payload and sizes', 'appended(%s, %s, %s, %s, D::Piled{data: %s, owner: %s}, %s, %s)' % (E.h, E.h2, p, x, E.t(E.old[3]), v, d, s))]
spec('NodeVec::append_child', pre=app_pre, post=app_post, mod=FILL, props=('C07', 'C10'),
     ghost=lambda E: (lambda p, x: {'kids': '{h}.kids.insert({p}, h0.kids[{p}].push({x}))'.format(h=E.h2, p=p, x=x)})(slot_(E, pv(E, E.old[0]), 1), slot_(E, pv(E, E.old[0]), 2)))
# ---------------------------------------------------------------- rebuilding
def items(E, v):
    """the sequence of items presented by the iterator field of a BfsTree / BfsForest"""
    it = sval(E, v)['iter']
    if isinstance(it, Ref): it = E.m.read(E.st, it.loc)
    if not (isinstance(it, T) and it.sort == 'S:P'): raise Unsupported('iterator %r' % (it,))
    return render(it)
def bdesc(forest):
    def f(E, src, v):
        if not forest: return 'titems(%s, %s)' % (items(E, src), v)
        d, s = sizev(E, sval(E, src)['size'])
        return 'fitems(%s, %s, %s, %s)' % (d, s, items(E, src), v)
    return f
def build_spec(key, forest):
    B = bdesc(forest)
    def pre(E):
        return [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h), ('the iterator describes one tree in breadth-first order', 'cons(%s)' % B(E, E.a[0], '0')),
                ('the payloads are not held by other nodes', 'ownitems(%s, %s)' % (E.h, items(E, E.a[0])))]
    def post(E):
        r = E.ptr_of(E.ret); v = 'own(%s.data[%s])' % (E.h2, r); b = B(E, E.old[0], v)
        return [('C07: a buffer of its own holds the new nodes, nothing else changes', 'outside(%s, %s, %s)' % (E.h, E.h2, v)),
                ('C07: the root comes first', '%s == elem(%s, 0) && %s.up[%s] is None && %s.alive[%s]' % (r, v, E.h2, r, E.h2, r)),
                ('C07: payloads, shape, child order and sizes are those described', 'blt(%s, %s, %s, %s.dg.len() as int) && reals(%s) && cons(%s)' % (E.h2, v, b, b, b, b)),
                (LEMMA, 'lemma_built_wf(%s, %s, %s, %s)' % (E.h, E.h2, v, b)), (LEMMA, 'lemma_built_rel(%s, %s, %s, %s)' % (E.h, E.h2, v, b)),
                ('C01: all links and sizes consistent', 'wf(%s)' % E.h2), ('C05: accounting holds afterwards', 'rel(%s)' % E.h2)]
    def lv(E): return pv(E, E.local('node_vec'))
    def ints(E):
        fr = E.fr; ids = E.m.__dict__.setdefault('build_locals', {}).get(fr.fn.key)
        if ids is None:
            try: return [E.t(E.local(n)) for n in ('parent', 'child', 'remains')]
            except Unsupported: pass
            # other names: told apart by their values before the loop
            c = [(i, E.t(v)) for i, v in E.locals_of(lambda t: t == ('adt', 'usize'))]
            ids = [[i for i, v in c if v == '0'], [i for i, v in c if v == '1'], [i for i, v in c if v not in ('0', '1')]]
            if [len(x) for x in ids] != [1, 1, 1]: raise Unsupported('no counters for the loop invariant of ' + fr.fn.key)
            ids = [x[0] for x in ids]; E.m.build_locals[fr.fn.key] = ids
        return [E.t(E.m.norm(E.st.store[('L', fr.fid, i)], ('adt', 'usize'))) for i in ids]
    def heap_inv(E, c):
        C = E.m.curE; v = lv(E); b = B(C, C.old[0], v)
        return [('C07: the new nodes are linked as described, up to the last one read', 'blt(%s, %s, %s, %s)' % (E.h2, v, b, c)),
                ('C07: nothing else changes', 'outside(h0, %s, %s) && %s.valive[%s]' % (E.h2, v, E.h2, v))]
    def outer(E):
        C = E.m.curE; v = lv(E); b = B(C, C.old[0], v); p, c, r = ints(E); s = items(C, C.old[0])
        it = E.t(E.local('iter', lambda t: t == ('adt', 'Iter')))
        k = '(%s - %d)' % (c, 1 if forest else 0)
        return [('C07: child counts the nodes read', '1 <= {c} <= {b}.dg.len() && {it} =~= {s}.subrange({k}, {s}.len() as int)'.format(c=c, b=b, it=it, s=s, k=k)),
                ('C07: the next node goes to parent, which lacks remains children', '0 <= {p} < {c} && 0 <= {r} <= {b}.dg[{p}] && off({b}.dg, {p}) + {b}.dg[{p}] - {r} == {c} && ({r} == 0 ==> {p} == {c} - 1)'.format(p=p, c=c, r=r, b=b))] + heap_inv(E, c)
    def inner(E):
        C = E.m.curE; v = lv(E); b = B(C, C.old[0], v); p, c, r = ints(E)
        s = items(C, C.old[0]); it = E.t(E.local('iter', lambda t: t == ('adt', 'Iter')))
        return [('C07: child counts the nodes read', '{it} =~= {s}.subrange({c} + 1 - {k}, {s}.len() as int)'.format(c=c, it=it, s=s, k=1 if forest else 0)),
                ('C07: the next node goes to parent, which lacks remains children', '0 <= {p} < {c} && {c} < {b}.dg.len() && 0 <= {r} <= {b}.dg[{p}] && off({b}.dg, {p}) + {b}.dg[{p}] - {r} == {c} + 1'.format(p=p, c=c, r=r, b=b))] + heap_inv(E, '%s + 1' % c)
    def fill_body(E):
        C = E.m.curE; v = lv(E); b = B(C, C.old[0], v); p, c, r = ints(E); s = items(C, C.old[0])
        it = E.t(E.local('iter', lambda t: t == ('adt', 'Iter')))
        k = '(%s - %d)' % (c, 1 if forest else 0)
        E.st.ghost['filling'] = E.h2, v, b
        return ['lemma_elems(%s)' % v, 'lemma_blt_deg(%s, %s, %s, %s)' % (E.h2, v, b, c), 'assert({it}.len() == {s}.len() - {k})'.format(it=it, s=s, k=k),
                'if {it}.len() > 0 {{ lemma_take({h}, {v}, {b}, {p}, {c}, {r}); lemma_blt_pre({h}, {v}, {b}, {p}, {c}); assert({it}.drop_first() =~= {s}.subrange({k} + 1, {s}.len() as int)); assert({it}[0] == {s}[{k}]); }}'.format(it=it, s=s, k=k, c=c, b=b, r=r, h=E.h2, v=v, p=p),
                'if {it}.len() == 0 {{ assert(filled({h}, {v}, {b}, {c}, 0)); assert({b}.dg.len() == {c}); }}'.format(it=it, h=E.h2, v=v, b=b, c=c)]
    def inner_body(E):
        C = E.m.curE; v = lv(E); b = B(C, C.old[0], v); p, c, r = ints(E)
        return ['lemma_blt_deg(%s, %s, %s, %s + 1)' % (E.h2, v, b, c)]
    def after_append(E, O):
        v = pv(E, E.old[0]); b = B(O, O.old[0], v)
        return ['lemma_fill_step(h0, %s, %s, %s, %s, %s, %s)' % (E.h, E.h2, v, b, E.t(E.old[1]), E.t(E.old[2]))]
    def after_new(E, O):
        v = pv(E, E.ret); E.st.ghost['newbuf'] = E.h2
        return ['lemma_elems(%s)' % v, 'lemma_%sitems(h0, %s%s, %s)' % ('f' if forest else 't', (', '.join(sizev(O, sval(O, O.old[0])['size'])) + ', ') if forest else '', items(O, O.old[0]), v), 'assert(slot(%s, elem(%s, 0)))' % (v, v),
                'assert(blank(%s, elem(%s, 0)))' % (E.h2, v), 'lemma_off_pos(%s, 0)' % B(O, O.old[0], v), 'assert(cons1(%s, 0))' % B(O, O.old[0], v)]
    def root_ghost(E, what):
        if what == 'init' and 'newbuf' in E.st.ghost:
            C = E.m.curE; v = lv(E); b = B(C, C.old[0], v); g = E.h2
            E.m.lemma(E.st, 'lemma_fill_root(h0, %s, %s, %s, %s)' % (E.st.ghost['newbuf'], g, v, b))
    def fill_end(E): n, v, b = E.st.ghost['filling']; return ['lemma_fill_end(h0, %s, %s, %s, %s)' % (n, E.h2, v, b)]
    spec(key, pre=pre, post=post, exit=fill_end, mod=BUILD, props=('C07', 'C01', 'C03', 'C05'),
         loops=[LoopSpec(outer, ghost=root_ghost, body=fill_body, dec=lambda E: '%s.len()' % E.t(E.local('iter', lambda t: t == ('adt', 'Iter')))),
                LoopSpec(inner, body=inner_body, dec=lambda E: '%s - %s' % (ints(E)[1], ints(E)[0]))],
         after={'NodeVec::append_child': after_append, 'NodeVec::new_raw_non_null': after_new})
build_spec('<Tree as From<BfsTree>>::from', False)
build_spec('<Forest as From<BfsForest>>::from', True)

# ---------------------------------------------------------------- deep clones
def clone_spec(key, forest, P=None, extra=lambda E: [], via=None):
    P = P or (lambda E: E.p(0))
    src = 'forest' if forest else 'tree'
    def post(E):
        p, r = P(E), E.ptr_of(E.ret); v = 'own(%s.data[%s])' % (E.h2, r)
        L = [('C07: a buffer of its own holds the copies, nothing else changes', 'outside(%s, %s, %s)' % (E.h, E.h2, v)),
             ('C07: the root comes first', '%s == elem(%s, 0) && %s.up[%s] is None && %s.alive[%s]' % (r, v, E.h2, r, E.h2, r)),
             ('C01: all links and sizes consistent', 'wf(%s)' % E.h2), ('C05: accounting holds afterwards', 'rel(%s)' % E.h2)]
        if not via: L += [(LEMMA, 'lemma_%s_clone(%s, %s, %s, %s, %s)' % (src, E.h, E.h2, p, E.st.ghost['mapped'][1] if 'mapped' in E.st.ghost else 'arbitrary()', v))]
        L += [('C07: the same shape, child order and sizes', 'iso(%s, %s, %s, %s)' % (E.h, E.h2, p, v)),
              ('C07: equal payloads', 'eqpay(%s, %s, %s, %s, %d)' % (E.h, E.h2, p, v, 1 if forest else 0))]
        if forest: L += [('C07: a forest has no root payload', 'fake(%s.data[%s])' % (E.h2, r))]
        return L
    spec(key, pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, P(E)))]
         + ([] if forest else [('the node has a payload', 'real(%s.data[%s])' % (E.h, P(E)))]) + extra(E), post=post, mod=BUILD, props=('C07',),
         entry=None if via else lambda E: ['lemma_node(h0, %s)' % P(E), 'lemma_kids_all(h0, %s)' % P(E), 'lemma_visited(h0, %s)' % P(E), 'lemma_rest_kids(h0, %s)' % P(E)],
         hints=None if via else {'<%s as From<Bfs%s>>::from' % (src.capitalize(), src.capitalize()): lambda E, O: ['lemma_%s_items(%s, %s, %s)' % (src, E.h, P(O), items(E, E.a[0]))]})
clone_spec('Node::deep_clone', False)
clone_spec('Node::deep_clone_forest', True)
clone_spec('<Tree as Clone>::clone', False, via=True)
clone_spec('<Forest as Clone>::clone', True, via=True)
import specs_rc
clone_spec('RcNode::deep_clone', False, P=lambda E: specs_rc.P(E), via=True)
def rc_clone():
    sp = S['RcNode::deep_clone']; post0 = sp.post
    sp.pre = specs_rc.BASE
    sp.entry = specs_rc.ROOT
    sp.props = ('C07', 'C13', 'C14')
    sp.post = lambda E: post0(E) + [(LEMMA, 'lemma_iso_rc(%s, %s, %s, own(%s.data[%s]))' % (E.h, E.h2, specs_rc.P(E), E.h2, E.ptr_of(E.ret))), ('C13: handles are accounted for afterwards', 'rcok(%s)' % E.h2)]
rc_clone()
# ---------------------------------------------------------------- mapping the payloads
def map_post(E):
    a, b = sizev(E, sval(E, E.old[0])['size']), sizev(E, sval(E, E.ret)['size'])
    s, t = items(E, E.old[0]), items(E, E.ret)
    return [('C07: the items keep their sizes and order', 'mapped(%s, %s)' % (s, t)), ('C07: the announced sizes stay', '%s == %s && %s == %s' % (b[0], a[0], b[1], a[1])),
            (LEMMA, 'lemma_mapped(%s, %s)' % (s, t)), ('C07: what describes a tree still describes one', 'cons(titems({0}, 0)) ==> cons(titems({1}, 0))'.format(s, t))]
for k in ('BfsTree::map', 'BfsForest::map'): spec(k, post=map_post, props=('C07',))
