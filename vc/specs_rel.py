"""Contracts: creation and release of nodes, trees and forests (C05)."""
from exec import *
import specs_core
from specs_core import spec, fa, EDIT, opt, ret_opt
REL = ('alive', 'data', 'cnt', 'vref', 'valive', 'pd', 'vlive')
ALLM = EDIT + REL
def own_of(E, h, p): return 'own(%s.data[%s])' % (h, p)
def kill_posts(h, h2, p):
    d = dict(h=h, h2=h2, p=p, d='%s.data[%s]' % (h, p))
    f = lambda s: s.format(**d)
    return [('C05: exactly the node is released', f('(forall|q: int| #[trigger] {h2}.alive[q] == ({h}.alive[q] && q != {p}))')),
            ('C05: payloads of other nodes untouched', f('(forall|q: int| q != {p} ==> #[trigger] {h2}.data[q] == {h}.data[q])')),
            ('C05: reference counts of other nodes untouched', f('(forall|q: int| q != {p} ==> #[trigger] {h2}.cnt[q] == {h}.cnt[q])')),
            ('C05: the payload is dropped exactly once, no other', f('(forall|x: int| #[trigger] {h2}.pd[x] == {h}.pd[x] + bi(real({d}) && x == pay({d}), 1))')),
            ('C05: the reference to the node buffer is given back', f('(forall|w: int| #[trigger] {h2}.vref[w] == {h}.vref[w] - bi(piled({d}) && w == own({d}), 1))')),
            ('C05: the node buffer is freed exactly with its last node', f('(forall|w: int| #[trigger] {h2}.valive[w] == ({h}.valive[w] && !(piled({d}) && w == own({d}) && {h}.vref[w] == 1)))')),
            ('C05: live nodes of the buffer', f('(forall|w: int| #[trigger] {h2}.vlive[w] == (if piled({d}) && w == own({d}) {{ {h}.vlive[w].remove({p}) }} else {{ {h}.vlive[w] }}))'))]
def drop_node_ghost(E):
    p = E.p(0); d = 'h0.data[%s]' % p
    return {'vlive': 'if piled({d}) {{ {h}.vlive.insert(own({d}), {h}.vlive[own({d})].remove({p})) }} else {{ {h}.vlive }}'.format(d=d, h=E.h2, p=p),
            'alive': 'if piled({d}) {{ {h}.alive.insert({p}, false) }} else {{ {h}.alive }}'.format(d=d, h=E.h2, p=p)}
spec('drop_node', pre=lambda E: [('accounting holds', 'rel(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0))), ('no handle to the node', 'owned(%s, %s)' % (E.h, E.p(0)))],
     entry=lambda E: ['lemma_pok(h0, %s)' % E.p(0)], ghost=drop_node_ghost, mod=REL,
     post=lambda E: kill_posts(E.h, E.h2, E.p(0)), props=('C05',))
def born_posts(E, n, d):
    return [('C01: the new node is a root without children', 'born(%s, %s, %s, %s)' % (E.h, E.h2, n, d))]
def newnode_post(E, d):
    n = E.ptr_of(E.ret)
    return born_posts(E, n, d) + [(LEMMA, 'lemma_born_wf(%s, %s, %s, %s)' % (E.h, E.h2, n, d)), (LEMMA, 'lemma_born_rel(%s, %s, %s, %s)' % (E.h, E.h2, n, d)),
            ('C01: all links and sizes consistent afterwards', 'wf(%s)' % E.h2), ('C05: accounting holds afterwards', 'rel(%s)' % E.h2)]
def new_pre(d): return lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h)] + ([('the payload is not held by another node', 'unheld(%s, %s)' % (E.h, d(E)))] if d(E) else [])
kids_ghost = lambda E: {'kids': '%s.kids.insert(%s, Seq::<int>::empty())' % (E.h2, E.ptr_of(E.ret))}
NEWM = EDIT + ('alive', 'data', 'cnt', 'wk')
spec('make_node', pre=lambda E: [('scattered payload', '(%s is Scattered || %s is ScatteredNone)' % (E.t(E.a[0]), E.t(E.a[0])))] + new_pre(lambda E: E.t(E.a[0]))(E),
     post=lambda E: newnode_post(E, E.t(E.a[0])), ghost=kids_ghost, mod=NEWM, props=('C01', 'C03', 'C05'))
scat = lambda E: 'D::Scattered{data: %s, owner: 0}' % E.t(E.a[0])
spec('Tree::new', pre=new_pre(scat), post=lambda E: newnode_post(E, scat(E)), mod=NEWM, props=('C01', 'C03', 'C05'))
for k in ('Forest::new', '<Forest as Default>::default'): spec(k, pre=new_pre(lambda E: None), post=lambda E: newnode_post(E, 'D::ScatteredNone{owner: 0}'), mod=NEWM, props=('C01', 'C03', 'C05'))
def abandon_post(E):
    r, n, f = E.p(0), E.p2(0), E.ptr_of(E.ret)
    h, h2 = E.h, E.h2
    return [('C02: the children stay with the returned forest', '%s == %s' % (f, r)),
            ('C02: the tree keeps its payload in a fresh root', '%s.data[%s] == (D::Scattered{data: pay(%s.data[%s]), owner: %s})' % (h2, n, h, r, n)),
            ('C02: the fresh root has no children', '!%s.alive[%s] && %s.alive[%s] && %s.kids[%s].len() == 0 && %s.up[%s] is None' % (h, n, h2, n, h2, n, h2, n)),
            ('C02: the forest root has no payload', 'fake(%s.data[%s]) && own(%s.data[%s]) == own(%s.data[%s]) && piled(%s.data[%s]) == piled(%s.data[%s])' % (h2, r, h2, r, h, r, h2, r, h, r)),
            ('C02: nothing else changes', '(forall|q: int| q != %s ==> same_node(%s, %s, q))' % (n, h, h2)),
            ('C05: nothing is released', '(forall|q: int| #[trigger] %s.alive[q] == (%s.alive[q] || q == %s))' % (h2, h, n)),
            ('C02: payloads of other nodes stay', '(forall|q: int| q != %s && q != %s ==> #[trigger] %s.data[q] == %s.data[q])' % (n, r, h2, h)),
            ('C05: the fresh root is not shared, handles to other nodes stay', '%s.cnt[%s] == 1 && (forall|q: int| q != %s ==> #[trigger] %s.cnt[q] == %s.cnt[q])' % (h2, n, n, h2, h)),
            ('C01: all links and sizes consistent afterwards', 'wf(%s)' % h2), ('C05: accounting holds afterwards', 'rel(%s)' % h2)]
spec('Tree::abandon', pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h), ('the root is live', '%s.alive[%s]' % (E.h, E.p(0))), ('the root has a payload', 'real(%s.data[%s])' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))],
     post=abandon_post, mod=NEWM, props=('C01', 'C02', 'C05'),
     entry=lambda E: ['lemma_node(h0, %s)' % E.p(0), 'lemma_pok(h0, %s)' % E.p(0)],
     hints={'make_node': lambda E, O: ['lemma_taken(%s, %s, %s)' % (O.h, E.h, O.p(0))]})
# ---------------------------------------------------------------- drop of trees and forests
def drop_pre(E):
    h, r = E.h, E.p(0)
    return [('the structure is well-formed', 'wf(%s)' % h), ('accounting holds', 'rel(%s)' % h), ('the root is live', '%s.alive[%s]' % (h, r)), ('it is a root', '%s.up[%s] is None' % (h, r)),
            ('no handles to its nodes', 'owned_sub(%s, %s)' % (h, r))]
def drop_post(E):
    return [('C05: every node of the tree is released and its payload dropped exactly once, nothing else changes', 'dropped(%s, %s, %s)' % (E.h, E.h2, E.p(0)))]
def drop_inv(E):
    r = E.m.curE.p(0)
    return [('C05: released so far: only nodes below the root, each once', 'dropping(h0, %s, %s)' % (E.h2, r))]
def drop_spec(key, post=None, exit=None, variant=None):
    def pop_after(E, O):
        E.st.ghost['prepop'] = E.h
        return ['if %s.kids[%s].len() > 0 { lemma_drop_step_pre(h0, %s, %s, %s); lemma_drop_less(h0, %s, %s); }' % (E.h, E.p(0), E.h, E.h2, O.p(0), E.h, O.p(0))]
    def drop_after(E, O):
        return ['lemma_drop_step(h0, %s, %s, %s, %s)' % (E.st.ghost['prepop'], E.h, E.h2, O.p(0))] if 'prepop' in E.st.ghost else []
    spec(key, pre=drop_pre, post=post or drop_post, exit=exit, variant=variant, mod=ALLM, loops=[LoopSpec(drop_inv, dec=lambda E: '%s.kids[%s].len()' % (E.h2, E.m.curE.p(0)))], props=('C05',),
         entry=lambda E: ['lemma_drop_init(h0, %s)' % E.p(0)],
         after={'Node::pop_front': pop_after, '<Tree as Drop>::drop': drop_after,
                'drop_node': lambda E, O: ['lemma_drop_root(h0, %s, %s, %s)' % (E.h, E.h2, O.p(0))]},
         hints={'drop_node': lambda E, O: ['lemma_dropping_same(h0, %s, %s, %s)' % (E.st.ghost['prepop'], E.h, O.p(0)), 'lemma_pok(%s, %s)' % (E.h, O.p(0)), 'lemma_anc_refl(h0.up, %s)' % O.p(0), 'assert(sub(h0, {0}, {0}))'.format(O.p(0))]})
drop_spec('<Tree as Drop>::drop', variant=('drop', lambda E: '%s.desc[%s]' % (E.h, E.p(0))))
drop_spec('<Forest as Drop>::drop')
