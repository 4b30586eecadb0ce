"""Contracts: append / prepend (range insertion of a whole forest)."""
from exec import *
from specs_core import spec, fa, EDIT, S, isO
from specs_rel import REL, ALLM
from specs_iter import iterv
isIt = lambda t: t[0] == 'adt' and t[1] in ('Iter', 'IterMut')
def su_at(E):
    """(the number of children dealt with, what the cursor says about it)"""
    f = E.m.curE.p(0); n = 'h0.kids[%s].len()' % f
    try: c, l = iterv(E, E.local('iter', isIt))
    except Unsupported:
        i = E.g['i']; k = 'h0.kids[%s]' % f      # a plain cursor over the sibling links
        return i, '0 <= {i} <= {n} && {c} == (if {i} < {n} {{ Some({k}[{i}]) }} else {{ None }})'.format(i=i, n=n, k=k, c=E.t(E.local('cursor', isO))), None
    i = '(%s - %s)' % (n, l)
    return i, '0 <= {l} <= {n} && rest(h0.next, {c}, {l}) =~= h0.kids[{f}].subrange({i}, {n} as int)'.format(l=l, n=n, c=c, i=i, f=f), 'lemma_rest_len(h0.next, %s, %s)' % (c, l)
def su_ghost(E, what):
    if what == 'init': E.g['i'] = '0int'
    elif what == 'havoc': E.g['i'] = render(E.m.new(E.st, 'int', 'i'))
    else: E.g['i'] = '(%s + 1)' % E.g['i']
def su_inv(E):
    C = E.m.curE; f, s = C.p(0), C.p(1); i, at, _ = su_at(E)
    return [('C01: the children still to come', at), ('C01: parent links of the children visited so far', 'setup_upto(h0, %s, %s, %s, %s)' % (E.h2, s, f, i))]
def su_body(E):
    C = E.m.curE; f = C.p(0); i, _, l = su_at(E)
    return ['lemma_setup(h0, %s, %s)' % (f, i)] + (['lemma_sub_alive(h0, %s, %s)' % (f, i), l] if l else []) + ['assert(forall|j: int| 0 <= j < h0.kids[{f}].len() ==> #[trigger] wf_kid(h0, {f}, j))'.format(f=f)] + ([] if l else ['if {i} < h0.kids[{f}].len() {{ assert(wf_kid(h0, {f}, {i})); }}'.format(i=i, f=f)])
def _items(E): return []
spec('Forest::set_up', pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the forest is live', '%s.alive[%s]' % (E.h, E.p(0)))],
     entry=lambda E: ['lemma_setup(h0, %s, 0)' % E.p(0), 'lemma_node(h0, %s)' % E.p(0), 'assert(h0.kids[{0}].subrange(0, 0) =~= Seq::<int>::empty())'.format(E.p(0))],
     post=lambda E: [('C01: the children of the forest, and no other node, get the new parent', fa(E.h2 + '.up[q]', 'if {h}.kids[{f}].contains(q) {{ Some({s}) }} else {{ {h}.up[q] }}'.format(h=E.h, f=E.p(0), s=E.p(1)))), ('the forest is the same', '%s == %s' % (E.p2(0), E.p(0)))],
     mod=('up',), props=('C01', 'C02'), loops=[LoopSpec(su_inv, ghost=su_ghost, body=su_body, dec=lambda E: '(h0.kids[%s].len() - %s)' % (E.m.curE.p(0), su_at(E)[0]))])
def splice(key, back, wrap=False):
    b = 'true' if back else 'false'
    def pre(E):
        h, s, f = E.h, E.p(0), E.p(1)
        return [('the structure is well-formed', 'wf(%s)' % h), ('accounting holds', 'rel(%s)' % h), ('the node is live', '%s.alive[%s]' % (h, s)), ('the forest is live', '%s.alive[%s]' % (h, f)),
                ('the forest is a virtual root', 'fake(%s.data[%s]) && %s.up[%s] is None && owned(%s, %s)' % (h, f, h, f, h, f)), ('the forest does not contain the node', '!anc(%s.up, %s, %s)' % (h, s, f))]
    def post(E):
        h, h2, s, f = E.h, E.h2, E.p(0), E.p(1)
        L = [('C02: the child sequence is the concatenation, C01: links, C03: sizes, C05: only the emptied forest is released', 'spliced(%s, %s, %s, %s, %s)' % (h, h2, s, f, b)),
             ('C01: all links and sizes consistent afterwards', 'wf(%s)' % h2), ('C05: accounting holds afterwards', 'rel(%s)' % h2)]
        if E.role == 'verify' and not wrap and 'spg' in E.st.ghost: L.insert(0, (LEMMA, 'lemma_spliced(%s, %s, %s, %s, %s, %s)' % (h, E.st.ghost['spg'], h2, s, f, b)))
        return L
    def ga(E, O):
        s, f = O.p(0), O.p(1)
        return {'kids': '%s.kids.insert(%s, spl_all(h0, %s, %s, %s)).insert(%s, Seq::<int>::empty())' % (E.h, s, s, f, b, f)}
    def hint(E, O):
        s, f = O.p(0), O.p(1); g = E.h
        E.st.ghost['spg'] = g
        L = ['if h0.kids[%s].len() == 0 { lemma_spl_none(h0, %s, %s, %s); }' % (f, s, f, b)]
        for fld in ('up', 'next', 'prev', 'head', 'tail', 'deg', 'desc', 'kids'):
            a = {'up': 's, f', 'deg': 's, f', 'desc': 's, f'}.get(fld, 's, f, back')
            a = ', '.join({'s': s, 'f': f, 'back': b}[x] for x in a.split(', '))
            L.append(('C0%d: %s links after splicing' % (3 if fld in ('deg', 'desc') else 2 if fld == 'kids' else 1, fld), fa('%s.%s[q]' % (g, fld), 'spl_%s(h0, %s, q)' % (fld, a))))
        return L + ['lemma_spl_wf(h0, %s, %s, %s, %s)' % (g, s, f, b), 'lemma_rel_same(h0, %s)' % g, 'lemma_lone(%s, %s)' % (g, f)]
    spec(key, pre=pre, post=post, mod=ALLM, props=('C01', 'C02', 'C03', 'C05'), inline=wrap,
         entry=None if wrap else lambda E: ['lemma_spl_facts(h0, %s, %s)' % (E.p(0), E.p(1)), 'lemma_node(h0, %s)' % E.p(0), 'lemma_node(h0, %s)' % E.p(1)],
         ghostat=None if wrap else {'<Forest as Drop>::drop': ga},
         hints=None if wrap else {'<Forest as Drop>::drop': hint, 'Node::inc_sizes': lambda E, O: ['lemma_spl_chain(h0, %s, %s, %s)' % (E.h, O.p(0), O.p(1))]})
splice('Node::append', True)
splice('Node::prepend', False)
for o in ('Tree', 'Forest'):
    splice(o + '::append', True, True)
    splice(o + '::prepend', False, True)
