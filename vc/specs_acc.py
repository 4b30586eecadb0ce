"""Contracts: accessors of nodes, trees and forests."""
from exec import *
from specs_core import spec, fa, EDIT, opt, ret_opt, S
from specs_iter import optint, fields_of
wfl = lambda p=lambda E: E.p(0): (lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, p(E)))])
lem = lambda E: ['lemma_node(h0, %s)' % E.p(0)]
K = lambda E: '%s.kids[%s]' % (E.h, E.p(0))
for o in ('Node', 'Forest'):
    spec(o + '::has_no_child', pre=wfl(), entry=lem, props=('C01', 'C03'), inline=True,
         post=lambda E: [('C03: tells whether there are children', '%s == (%s.len() == 0)' % (E.t(E.ret), K(E)))])
    spec(o + '::degree', pre=wfl(), entry=lem, props=('C03',), inline=True, post=lambda E: [('C03: the number of children', '%s == %s.len()' % (E.t(E.ret), K(E)))])
    spec(o + '::node_count', pre=wfl(), entry=lem, props=('C03',), inline=True,
         post=lambda E: [('C03: the number of nodes below, and the node itself unless it is the virtual root of a forest', '{r} == sumd({h}.desc, {k}) + bi(!fake({h}.data[{p}]), 1)'.format(r=E.t(E.ret), h=E.h, k=K(E), p=E.p(0)))])
    for f, i in (('front', '0int'), ('back', None)):
        for mu in ('', '_mut'):
            if o == 'Node' or True:
                spec(o + '::' + f + mu, pre=wfl(), entry=lem, props=('C01',), inline=True,
                     post=lambda E, i=i: ret_opt(E, 'C01: the %s child' % ('first' if i else 'last'), '%s.len() > 0' % K(E), '%s[%s]' % (K(E), i or K(E) + '.len() - 1')))
for f, i in (('front', '0int'), ('back', None)):
    spec('Tree::' + f + '_mut', pre=wfl(), entry=lem, props=('C01',), inline=True,
         post=lambda E, i=i: ret_opt(E, 'C01: the %s child' % ('first' if i else 'last'), '%s.len() > 0' % K(E), '%s[%s]' % (K(E), i or K(E) + '.len() - 1')))
isP = lambda t: t[0] == 'adt' and t[1] == 'NonNull'
def par_inv(E):
    s = E.t(E.top_arg(0))
    try: return [('C01: the cursor is the node or the virtual root above it', '({n} == {s} || (h0.up[{s}] == Some({n}) && fake(h0.data[{n}])))'.format(n=E.ptr_of(E.local('node', lambda t: isP(t) or t[0] == 'ref')), s=s))]
    except Unsupported: pass
    return [('C01: the cursor is the parent link, or that of the virtual root', '({u} == h0.up[{s}] || (h0.up[{s}] is Some && fake(h0.data[h0.up[{s}]->Some_0]) && {u} is None))'.format(u=E.t(E.local('up', lambda t: t[0] == 'adt' and t[1] == 'Option')), s=s))]
def par_dec(E):
    try: return 'bi(%s == %s, 1)' % (E.ptr_of(E.local('node', lambda t: isP(t) or t[0] == 'ref')), E.t(E.top_arg(0)))
    except Unsupported: return 'bi(%s is Some, 1)' % E.t(E.local('up', lambda t: t[0] == 'adt' and t[1] == 'Option'))
spec('Node::parent', pre=wfl(), props=('C01',),
     entry=lambda E: ['lemma_node(h0, {0})'.format(E.p(0)), 'if h0.up[{0}] is Some {{ lemma_node(h0, h0.up[{0}]->Some_0); lemma_fake_up(h0, h0.up[{0}]->Some_0); }}'.format(E.p(0))],
     post=lambda E: ret_opt(E, 'C01: the parent, unless it is the virtual root of a forest', '{h}.up[{p}] is Some && !fake({h}.data[{h}.up[{p}]->Some_0])'.format(h=E.h, p=E.p(0)), '%s.up[%s]->Some_0' % (E.h, E.p(0))),
     loops=[LoopSpec(par_inv, dec=par_dec)])
spec('Node::is_forest', pre=lambda E: [('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))], inline=True, props=('C03',),
     post=lambda E: [('C03: tells virtual roots from nodes with payload', '%s == fake(%s.data[%s])' % (E.t(E.ret), E.h, E.p(0)))])
