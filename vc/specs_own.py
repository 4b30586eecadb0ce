"""Contracts: owning iterator (IntoIter), conversions of trees and forests, payload access (C02, C04, C05)."""
import re
from exec import *
from specs_core import spec, fa, EDIT, opt, ret_opt, S, removal, nonempty, pop_ret
from specs_rel import REL, ALLM, NEWM, kill_posts, drop_spec, drop_inv
from specs_iter import optint
wfl = lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))]
# ---------------------------------------------------------------- IntoIter
removal('<IntoIter as Iterator>::next', lambda E, h: E.p(0), lambda E, h: '0int', nonempty, props=('C04', 'C02'), wrap=True, ret=lambda E, s, i: [(re.sub('C02', 'C04', a), b) for a, b in pop_ret(E, s, i)])
spec('<IntoIter as Iterator>::size_hint', pre=wfl, entry=lambda E: ['lemma_node(h0, %s)' % E.p(0)], props=('C04',),
     post=lambda E: (lambda k, cp: [('C04: lower bound is the number of trees to come', '%s == %s' % (render(E.ret.fields[0]), k)), ('C04: an upper bound is given', cp[0]), ('C04: upper bound is the number of trees to come', '%s == %s' % (cp[1], k))])('%s.kids[%s].len()' % (E.h, E.p(0)), optint(E, E.ret.fields[1])))
def into_drop_post(E):
    return [('C05: every remaining tree is released, its payloads dropped exactly once, nothing else changes', 'dropping(%s, %s, %s)' % (E.h, E.h2, E.p(0))),
            ('C05: no tree remains', '%s.kids[%s].len() == 0' % (E.h2, E.p(0)))]
drop_spec('<IntoIter as Drop>::drop', post=into_drop_post, exit=lambda E: ['lemma_dropping_same(h0, %s, %s, %s)' % (E.st.ghost['prepop'], E.h2, E.p(0))] if 'prepop' in E.st.ghost else [])
def intoiter_tree_post(E):
    h, h2, t, f = E.h, E.h2, E.p(0), E.ptr_of(E.ret)
    return [('C02: a fresh forest holds exactly the tree', '!{0}.alive[{3}] && {1}.alive[{3}] && fake({1}.data[{3}]) && {1}.up[{3}] is None && {1}.kids[{3}] == seq![{2}] && {1}.up[{2}] == Some({3})'.format(h, h2, t, f)),
            ('C05: nothing is released', '(forall|q: int| #[trigger] %s.alive[q] == (%s.alive[q] || q == %s))' % (h2, h, f)),
            ('C02: payloads stay', '(forall|q: int| q != %s ==> #[trigger] %s.data[q] == %s.data[q])' % (f, h2, h)),
            ('C02: child sequences of all other nodes stay', '(forall|q: int| q != %s ==> #[trigger] %s.kids[q] == %s.kids[q])' % (f, h2, h)),
            ('C01: all links and sizes consistent afterwards', 'wf(%s)' % h2), ('C05: accounting holds afterwards', 'rel(%s)' % h2)]
spec('<Tree as IntoIterator>::into_iter', pre=lambda E: wfl(E) + [('accounting holds', 'rel(%s)' % E.h), ('the root has a payload', 'real(%s.data[%s])' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))],
     post=intoiter_tree_post, mod=NEWM, props=('C02', 'C04', 'C05'),
     hints={'Node::push_back': lambda E, O: ['lemma_lone(%s, %s)' % (E.h, E.p(0)), 'lemma_anc_unfold(%s.up, %s)' % (E.h, E.p(0))]},
     after={'Node::push_back': lambda E, O: ['lemma_rel_same2(%s, %s)' % (E.h, E.h2)]},
     exit=lambda E: ['assert({0}.kids[{1}] =~= seq![{2}])'.format(E.h2, E.ptr_of(E.ret), E.p(0))])
same = lambda E: [('C02: the same children', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))]
spec('<Forest as IntoIterator>::into_iter', post=same, props=('C04', 'C05'))
spec('Tree::from_node', pre=lambda E: [('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))], inline=True, mod=('up',), props=('C01', 'C10'),
     post=lambda E: [('C01: the tree is rooted at the node', '%s == %s' % (E.ptr_of(E.ret), E.p(0))), ('C01: the root has no parent, other nodes keep theirs', fa(E.h2 + '.up[q]', 'if q == %s { None } else { %s.up[q] }' % (E.p(0), E.h)))])
for k in ('Tree::root', 'Tree::root_mut', 'Tree::root_mut_', 'Forest::root_', 'Forest::root_mut_'):
    spec(k, inline=True, props=('C01',), post=lambda E: [('C01: the root node', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))])
# ---------------------------------------------------------------- payload access
def payref(E):
    """(node, value) of a returned payload reference"""
    r = E.ret
    if not (isinstance(r, Ref) and r.loc[0][0] == 'N' and r.loc[1][0] == ('h', 'data')): raise Unsupported('payload reference %r' % (r,))
    return render(r.loc[0][1]), render(E.m.read(E.st, r.loc))
def data_post(E):
    n, v = payref(E)
    return [('C02: refers to the payload of this very node', '%s == %s' % (n, E.p(0))), ('C02: the payload', '%s == pay(%s.data[%s])' % (v, E.h, E.p(0)))]
for k in ('Node::data', 'Node::data_mut'):
    spec(k, pre=lambda E: [('the node is live', '%s.alive[%s]' % (E.h, E.p(0))), ('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))], post=data_post, inline=True, props=('C02', 'C05'))
def nopd(E):
    return [x for x in kill_posts(E.h, E.h2, E.p(0)) if 'payload is dropped' not in x[0]] + [
        ('C05: no payload is dropped, it is handed out', '(forall|x: int| #[trigger] %s.pd[x] == %s.pd[x]) && %s == pay(%s.data[%s])' % (E.h2, E.h, render(E.ret), E.h, E.p(0)))]
def ghost_kill(E):
    p = E.p(0); d = 'h0.data[%s]' % p
    return {'vlive': 'if piled({d}) {{ {h}.vlive.insert(own({d}), {h}.vlive[own({d})].remove({p})) }} else {{ {h}.vlive }}'.format(d=d, h=E.h2, p=p),
            'alive': 'if piled({d}) {{ {h}.alive.insert({p}, false) }} else {{ {h}.alive }}'.format(d=d, h=E.h2, p=p)}
spec('Tree::into_data', pre=lambda E: [('accounting holds', 'rel(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0))), ('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0))), ('no handle to the node', 'owned(%s, %s)' % (E.h, E.p(0)))],
     entry=lambda E: ['lemma_pok(h0, %s)' % E.p(0)], ghost=ghost_kill, mod=REL, post=nopd, props=('C05', 'C07'))
spec('Forest::clear', pre=lambda E: [('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))], inline=True, mod=('head', 'tail', 'deg', 'desc'), props=('C02',),
     post=lambda E: [('C02: no first child', fa(E.h2 + '.head[q]', 'if q == %s { None } else { %s.head[q] }' % (E.p(0), E.h))), ('C02: no last child', fa(E.h2 + '.tail[q]', 'if q == %s { None } else { %s.tail[q] }' % (E.p(0), E.h))),
                     ('C03: degree zero', fa(E.h2 + '.deg[q]', 'if q == %s { 0 } else { %s.deg[q] }' % (E.p(0), E.h))), ('C03: no descendants', fa(E.h2 + '.desc[q]', 'if q == %s { 0 } else { %s.desc[q] }' % (E.p(0), E.h)))])
