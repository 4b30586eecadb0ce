"""Contracts: equality, order, hash (C15)."""
from exec import *
from specs_core import spec, S
from specs_iter import view, live_items
def pre2(kind):
    def f(E):
        L = [('the structure is well-formed', 'wf(%s)' % E.h)]
        for i, n in ((0, 'left'), (1, 'right')):
            p = E.p(i)
            L.append(('the %s operand is live' % n, '%s.alive[%s]' % (E.h, p)))
            if kind != 'Forest': L.append(('the %s operand has a payload' % n, 'real(%s.data[%s])' % (E.h, p)))
        return L
    return f
def ops(E, kind): return (E.h, '%s.kids[%s]' % (E.h, E.p(0)), '%s.kids[%s]' % (E.h, E.p(1))) if kind == 'Forest' else (E.h, E.p(0), E.p(1))
def code(E):
    """the order code of an Option<Ordering>"""
    v = E.ret
    if isinstance(v, Agg) and v.name == 'Option': return '2int' if v.variant == 'None' else render(v.fields[0])
    if isinstance(v, SymEnum): return '(if %s == 1 { %s } else { 2 })' % (render(v.tag), render(v.variants['Some'][0]))
    raise Unsupported('order %r' % (v,))
def entry2(kind, m):
    def f(E):
        L = ['lemma_kids_real(h0, %s)' % E.p(i) for i in (0, 1)]
        if kind != 'Forest': L.append('lemma_teq(h0, %s, %s)' % (E.p(0), E.p(1)) if m is None else 'lemma_tcmp(%s, h0, %s, %s)' % (m, E.p(0), E.p(1)))
        return L
    return f
for kind in ('Node', 'Tree', 'Forest'):
    F = kind == 'Forest'; TE = 'teqs' if F else 'teq'; TC = 'scmp' if F else 'tcmp'
    # the tree contracts are those of the node, with the root; forests compare their top-level nodes
    def post_eq(E, kind=kind, TE=TE): return [('C15: equal exactly when payloads and shape are', '%s == %s(%s, %s, %s)' % ((render(E.ret), TE) + ops(E, kind)))]
    def post_ne(E, kind=kind, TE=TE): return [('C15: unequal exactly when not equal', '%s == !%s(%s, %s, %s)' % ((render(E.ret), TE) + ops(E, kind)))]
    def post_pc(E, kind=kind, TC=TC): return [('C15: payloads first, then the children lexicographically', '%s == %s(false, %s, %s, %s)' % ((code(E), TC) + ops(E, kind))), ('C15: an order is given', '-1 <= %s <= 2' % code(E))]
    def post_c(E, kind=kind, TC=TC): return [('C15: payloads first, then the children lexicographically', '%s == %s(true, %s, %s, %s)' % ((render(E.ret), TC) + ops(E, kind))), ('C15: an order is given', '-1 <= %s <= 1' % render(E.ret))]
    for meth, tr, post, m in (('eq', 'PartialEq', post_eq, None), ('ne', 'PartialEq', post_ne, None), ('partial_cmp', 'PartialOrd', post_pc, 'false'), ('cmp', 'Ord', post_c, 'true')):
        spec('<%s as %s>::%s' % (kind, tr, meth), pre=pre2(kind), post=post, entry=entry2(kind, m), props=('C15',))
# ---------------------------------------------------------------- hash
def fed(E, v):
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if not (isinstance(v, T) and v.sort == 'S:P'): raise Unsupported('hasher %r' % (v,))
    return render(v)
def isiter(t): return t[0] == 'adt' and t[1].split('::')[-1] == 'Iter'
def seen(E):
    """(children still to come, number visited)"""
    C = E.m.curE
    v = view(E, E.h2, E.local('iter', isiter))
    return v, '(%s.kids[%s].len() - %s.len())' % (E.h2, C.p(0), v)
def hash_spec(kind):
    def feeds(E, s):
        C = E.m.curE
        return '%s + %stpres(h0, %s)' % (fed(C, C.old[1]), '' if kind == 'Forest' else 'seq![pvl(h0, %s)] + ' % C.p(0), s)
    def inv(E):
        C = E.m.curE; v, n = seen(E); k = 'h0.kids[%s]' % C.p(0)
        return [('C15: the children still to come', '{v}.len() <= {k}.len() && {v} =~= {k}.subrange({n}, {k}.len() as int)'.format(v=v, k=k, n=n)),
                ('C15: the payloads so far were fed in depth-first order', '%s =~= %s' % (fed(E, C.a[1]), feeds(E, '%s.subrange(0, %s)' % (k, n))))]
    def ghost(E, what):
        if what != 'step': E.st.ghost['hseen'] = seen(E)
        if what == 'init': E.st.log.append(('lemma', 'lemma_tpres_ends(h0, h0.kids[%s])' % E.m.curE.p(0)))
    def pre(E): return [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))] + ([] if kind == 'Forest' else [('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))])
    def post(E):
        t = 'tpres(%s, %s.kids[%s])' % (E.h, E.h, E.p(0)) if kind == 'Forest' else 'tpre(%s, %s)' % (E.h, E.p(0))
        return [('C15: every payload is fed to the hasher, in depth-first order, and nothing else', '%s =~= %s + %s' % (fed(E, E.a[1]), fed(E, E.old[1]), t))]
    kw = {} if kind == 'Tree' else dict(loops=[LoopSpec(inv, ghost=ghost, dec=lambda E: '%s.len()' % seen(E)[0])])
    spec('<%s as Hash>::hash' % kind, variant=('hash', lambda E: '%s.desc[%s]' % (E.h, E.p(0))) if kind == 'Node' else None, hints={'<Node as Hash>::hash': lambda E, O: ['if {i} < h0.kids[{p}].len() {{ lemma_kid(h0, {p}, {i}); }}'.format(p=O.p(0), i=E.st.ghost['hseen'][1])] if 'hseen' in E.st.ghost else []}, pre=pre, post=post, props=('C15',), entry=lambda E: ['lemma_kids_real(h0, %s)' % E.p(0), 'lemma_tpres_ends(h0, h0.kids[%s])' % E.p(0)] + ([] if kind == 'Forest' else ['lemma_tpre(h0, %s)' % E.p(0)]),
         after={'<Node as Hash>::hash': lambda E, O: ['lemma_tpres_step(h0, h0.kids[%s], %s)' % (O.p(0), E.st.ghost['hseen'][1])] if 'hseen' in E.st.ghost else []}, **kw)
for kind in ('Node', 'Tree', 'Forest'): hash_spec(kind)
# ---------------------------------------------------------------- handles
from specs_rc import P as rcP, H as rcH, BASE, itv, optp, hok, rc_ptr, RC
from specs_rel import ALLM
def rpre(E):
    L = [('handles are accounted for', 'rcok(%s)' % E.h)]
    for i in (0, 1): L += [('the handle denotes a live node', hok(E.h, rcH(E, i))), ('there is room in the reference counts', 'walkroom(%s, %s)' % (E.h, rcP(E, i)))]
    return L
def rent(m):
    return lambda E: [x for i in (0, 1) for x in ('lemma_pok(h0, %s)' % rcP(E, i), 'lemma_node(h0, %s)' % rcP(E, i), 'lemma_kids_real(h0, %s)' % rcP(E, i), 'lemma_rest_kids(h0, %s)' % rcP(E, i), 'lemma_small(h0, %s)' % rcP(E, i),
                       'lemma_kid_room(h0, %s)' % rcP(E, i))] + ['lemma_teq(h0, %s, %s)' % (rcP(E, 0), rcP(E, 1)) if m is None else 'lemma_tcmp(%s, h0, %s, %s)' % (m, rcP(E, 0), rcP(E, 1))]
def rkeep(E): return [('C13: no reference is gained or lost', 'recount(%s, %s, %s, 0)' % (E.h, E.h2, rcP(E))), ('C13: handles are accounted for afterwards', 'rcok(%s)' % E.h2)]
def rframe(m):
    def f(E, O):
        ks = ', '.join('h0.kids[%s]' % rcP(O, i) for i in (0, 1))
        return ['assert(samep(h0, %s))' % E.h2, 'lemma_teq_frame(h0, %s, %s)' % (E.h2, ks) if m is None else 'lemma_scmp_frame(%s, h0, %s, %s)' % (m, E.h2, ks),
                'assert(allnodes({h}, h0.kids[{p}]))'.format(h=E.h2, p=rcP(O, 0)), 'assert(allnodes({h}, h0.kids[{p}]))'.format(h=E.h2, p=rcP(O, 1))]
    return f
for meth, tr, m in (('eq', 'PartialEq', None), ('ne', 'PartialEq', None), ('partial_cmp', 'PartialOrd', 'false'), ('cmp', 'Ord', 'true')):
    def rpost(E, meth=meth, m=m):
        t = '%s(%s%s, %s, %s)' % ('teq' if m is None else 'tcmp', '' if m is None else m + ', ', E.h, rcP(E, 0), rcP(E, 1))
        r = code(E) if meth == 'partial_cmp' else render(E.ret)
        return [('C15: %s' % ('equal exactly when payloads and shape are' if m is None else 'payloads first, then the children lexicographically'), '%s == %s%s' % (r, '!' if meth == 'ne' else '', t))] + rkeep(E)
    spec('<RcNode as %s>::%s' % (tr, meth), pre=rpre, post=rpost, mod=RC, entry=rent(m), after={'RcNode::iter_rc': rframe(m)}, props=('C15',))
def israc(t): return t[0] == 'adt' and t[1].split('::')[-1] == 'IterRc'
def rseen(E):
    C = E.m.curE
    cv, n = itv(E, E.local('iter', israc)); c, r = optp(E, cv)
    return c, r, n, '(h0.kids[%s].len() - %s)' % (rcP(C), n)
def rinv(E):
    C = E.m.curE; c, r, n, i = rseen(E); p = rcP(C); k = 'h0.kids[%s]' % p
    L = [('C14: the children still to come', '0 <= %s <= %s.len() && (%s) == (%s > 0)' % (n, k, c, n)),
         ('C13: the iterator holds the one reference', 'walking(h0, %s, %s, %s)' % (E.h2, p, i)),
         ('C15: the payloads so far were fed in depth-first order', '%s =~= %s + seq![pvl(h0, %s)] + tpres(h0, %s.subrange(0, %s))' % (fed(E, C.a[1]), fed(C, C.old[1]), p, k, i))]
    if r is not None: L.append(('C14: the next child', '(%s) ==> %s && %s == %s[%s]' % (c, hok(E.h2, r), rc_ptr(r), k, i)))
    return L
def rghost(E, what):
    C = E.m.curE; p = rcP(C)
    if what != 'step':
        E.st.ghost['rseen'] = rseen(E)
        E.st.ghost['rcall'] = None
    if what == 'init': E.st.log.append(('lemma', 'lemma_tpres_ends(h0, h0.kids[%s])' % p)); E.st.log.append(('lemma', 'lemma_walking_init(h0, %s, %s)' % (E.h2, p)))
def rh_next(E, O):
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O)
    return ['if %s > 0 { lemma_walking(h0, %s, %s, %s); }' % (n, E.h, p, i)]
def ra_next(E, O):
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O)
    return ['if %s > 0 { lemma_walked(h0, %s, %s, %s, %s); } else { lemma_walked_end(h0, %s, %s); }' % (n, E.h, E.h2, p, i, E.h, E.h2)]
def ra_hash(E, O):
    if 'rseen' not in E.st.ghost: return []
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O)
    return ['lemma_tpres_step(h0, h0.kids[%s], %s)' % (p, i), 'lemma_tpre_frame(h0, %s, %s)' % (E.h, rcP(E)), 'lemma_walked2(h0, %s, %s, %s, %s)' % (E.h, E.h2, p, i)]
def ra_drop(E, O):
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O)
    return ['if %s > 0 { lemma_walked3(h0, %s, %s, %s, %s); }' % (n, E.h, E.h2, p, i)]
def rh_rec(E, O):
    if 'rseen' not in E.st.ghost: return []
    i = E.st.ghost['rseen'][3]; p = rcP(O)
    return ['if {i} < h0.kids[{p}].len() {{ lemma_kid(h0, {p}, {i}); }}'.format(p=p, i=i), 'assert(same_node(h0, %s, %s))' % (E.h, rcP(E))]
spec('<RcNode as Hash>::hash', variant=('rhash', lambda E: '%s.desc[%s]' % (E.h, rcP(E))), pre=lambda E: rpre_one(E), mod=ALLM, props=('C15',), objs=True,
     entry=lambda E: ['lemma_pok(h0, %s)' % rcP(E), 'lemma_node(h0, %s)' % rcP(E), 'lemma_kids_real(h0, %s)' % rcP(E), 'lemma_small(h0, %s)' % rcP(E), 'lemma_kid_room(h0, %s)' % rcP(E), 'lemma_tpre(h0, %s)' % rcP(E), 'lemma_tpres_ends(h0, h0.kids[%s])' % rcP(E)],
     post=lambda E: [('C15: every payload is fed to the hasher, in depth-first order, and nothing else', '%s =~= %s + tpre(%s, %s)' % (fed(E, E.a[1]), fed(E, E.old[1]), E.h, rcP(E))),
                     ('C13: the nodes stay as they are', 'same_nodes(%s, %s)' % (E.h, E.h2))] + rkeep(E),
     loops=[LoopSpec(rinv, ghost=rghost, dec=lambda E: rseen(E)[2])], hints={'<IterRc as Iterator>::next': rh_next, '<RcNode as Hash>::hash': rh_rec}, after={'<IterRc as Iterator>::next': ra_next, '<RcNode as Hash>::hash': ra_hash, 'glue:RcNode': ra_drop})
def rpre_one(E): return BASE(E) + [('there is room in the reference counts', 'walkroom(%s, %s)' % (E.h, rcP(E)))]
