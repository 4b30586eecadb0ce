"""Contracts: depth-first walks (C08, C09)."""
from exec import *
from specs_core import spec, fa, EDIT, opt, ret_opt, S
from specs_iter import fields_of
CANON = {'Direction': ['Up', 'Down', 'Right'], 'VisitType': ['None', 'Begin', 'End', 'Leaf'], 'walk::Visit': [None, 'Begin', 'End', 'Leaf']}
def canon(m, en, v):
    """text of the canonical number of a discriminant (independent of the declaration order)"""
    names, can = m.variants(en), CANON[en]
    if set(names) != {x for x in can if x}: raise Unsupported('variants of ' + en)
    if [x for x in can if x] == names and can[0] is not None: return render(v)
    if isnum(v): return str(can.index(names[v.args[0]])) + 'int'
    t = str(can.index(names[-1])) + 'int'
    for i, n in reversed(list(enumerate(names[:-1]))): t = 'if %s == %d { %dint } else { %s }' % (render(v), i, can.index(n), t)
    return '(%s)' % t
def walkv(E, v):
    """(path, direction, visit type, origin) as text"""
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    p, d, t, o = fields_of(E.m, v, ['path', 'direction', 'visit_type', 'origin'])
    return render(p), canon(E.m, 'Direction', d), canon(E.m, 'VisitType', t), render(o)
old = lambda E: walkv(E, E.old[0] if E.old else E.a[0])
new = lambda E: walkv(E, E.a[0])
def evt(E, v):
    """(is there a visit, the visit) of an Option<Visit>"""
    m = E.m
    def visit(x):
        if isinstance(x, Agg): return 'Ev { k: %d, n: %s }' % (CANON['walk::Visit'].index(x.variant), E.ptr_of(x.fields[0]))
        if isinstance(x, SymEnum):
            ns = m.variants(x.name); t = E.ptr_of(x.variants[ns[-1]][0])
            for i, n in reversed(list(enumerate(ns[:-1]))): t = 'if %s == %d { %s } else { %s }' % (render(x.tag), i, E.ptr_of(x.variants[n][0]), t)
            return 'Ev { k: %s, n: %s }' % (canon(m, 'walk::Visit', x.tag), t)
        raise Unsupported('visit %r' % (x,))
    if isinstance(v, Agg): return ('true', visit(v.fields[0])) if v.variant == 'Some' else ('false', None)
    if isinstance(v, SymEnum): return '%s == 1' % render(v.tag), visit(v.variants['Some'][0])
    raise Unsupported('optional visit %r' % (v,))
def optev(E, v):
    c, x = evt(E, v)
    return 'None::<Ev>' if x is None else '(if %s { Some(%s) } else { None::<Ev> })' % (c, x)
def inv(E, w, lab='the walk is in a consistent state'): return [(lab, 'winv(%s, %s, %s, %s, %s)' % ((E.h,) + w))]
def pre(E): return [('the structure is well-formed', 'wf(%s)' % E.h)] + inv(E, old(E))
def entry(E): w = old(E); return ['lemma_w_last(h0, %s, %s)' % (w[0], w[3])]
def exitl(E): w, v = old(E), new(E); return ['lemma_w_move(h0, %s, %s, %s)' % (w[0], v[0], w[3]), 'lemma_w_last(h0, %s, %s)' % (v[0], w[3])]
def posx(w): return 'pos(%s, %s)' % (w[0], w[2])
def keep(E, w, v, tag): return [(tag + ': the origin stays', '%s == %s' % (v[3], w[3]))] + inv(E, v, tag + ': the walk stays consistent')
WALKS = ('Walk', 'TreeWalk', 'ForestWalk')
def sameobj(E):
    """the walked tree itself is not replaced"""
    o = E.old[0]; n = E.a[0]
    if isinstance(n, Ref): n = E.m.read(E.st, n.loc)
    if isinstance(o, Agg) and o.name in ('TreeWalk', 'ForestWalk'): return [('C09: the walked tree stays', '%s == %s' % (E.ptr_of(n), E.ptr_of(o)))]
    return []
# ---------------------------------------------------------------- get
def getter(k):
    spec(k, pre=pre, entry=entry, post=lambda E: [('C08: the current visit', '%s == %s' % (optev(E, E.ret), posx(old(E))))], props=('C08', 'C09'))
# ---------------------------------------------------------------- forward, next
def fwd_post(E, ret=False):
    w, v = old(E), new(E)
    L = [('C08: the next visit of the depth-first order', '%s == wsucc(%s, %s, %s, %s)' % (posx(v), E.h, w[0], w[2], w[3]))]
    if ret: L.append(('C08: the visit is returned', '%s == %s' % (optev(E, E.ret), posx(v))))
    return L + keep(E, w, v, 'C08') + sameobj(E)
def fwd_inv(E):
    C = E.m.curE; w, v = walkv(C, C.old[0]), walkv(E, C.a[0])
    return [('C08: the origin stays', '%s == %s' % (v[3], w[3])),
            ('C08: the walk turns from a leaf to its sibling and from the last sibling to the parent', '(({P} == {W} && {d} == {D} && {t} == {V}) || ({W}.len() > 0 && ({W}.last().node is Some) && {P} == {W} && {d} == 2 && {t} == {V} && {V} == 3) || ({W}.len() > 0 && ({W}.last().node is Some) && h0.next[{W}.last().node->Some_0] is None && {V} != 1 && {d} == 0 && {P}.len() == {W}.len() && {P}.drop_last() == {W}.drop_last() && {P}.last().node is None))'.format(P=v[0], W=w[0], d=v[1], D=w[1], t=v[2], V=w[2]))]
def fwd_dec(E):
    C = E.m.curE; d = walkv(E, C.a[0])[1]
    return '(if %s == 1 { 2int } else if %s == 2 { 1int } else { 0int })' % (d, d)
def forwarder(k, ret): spec(k, pre=pre, entry=entry, exit=exitl if k == 'Walk::forward' else None, post=lambda E: fwd_post(E, ret), loops=[LoopSpec(fwd_inv, dec=fwd_dec)] if k == 'Walk::forward' else [], props=('C08',))
# ---------------------------------------------------------------- to_parent, get_parent, to_sib, to_child, revisit
def par_post(E):
    w, v = old(E), new(E)
    return [('C09: the end of the parent is visited, nothing if there is none within the walk', '{p} == (if {w}.len() >= 2 {{ Some(Ev {{ k: 2, n: {w}[{w}.len() - 2].node->Some_0 }}) }} else {{ None::<Ev> }})'.format(p=posx(v), w=w[0])),
            ('C09: the walk continues at the parent', '%s == (if %s.len() > 0 { %s.drop_last() } else { %s })' % (v[0], w[0], w[0], w[0])),
            ('C09: the visit is returned', '%s == %s' % (optev(E, E.ret), posx(v)))] + keep(E, w, v, 'C09') + sameobj(E)
def getpar_post(E):
    w = old(E)
    return ret_opt(E, 'C09: the parent within the walk', '%s.len() >= 2' % w[0], '%s[%s.len() - 2].node->Some_0' % (w[0], w[0])) 
def sib_pre(E):
    w = old(E); a = E.old[1] if E.old else E.a[1]
    return [('the structure is well-formed', 'wf(%s)' % E.h), ('the stack is consistent', 'wpath(%s, %s, %s)' % (E.h, w[0], w[3])), ('the count is not negative', '0 <= %s' % render(a)),
            ('the walk is in a consistent state', 'if {w}.len() == 0 {{ {d} == 1 && {t} == 0 }} else if {w}.last().node is None {{ {d} == 0 && {t} == 0 }} else {{ {d} != 0 && 0 <= {d} <= 2 }}'.format(w=w[0], d=w[1], t=w[2]))]
def sib_target(E, w, n): return 'nth(%s.next, %s.last().node->Some_0, (%s) as nat)' % (E.h, w[0], n)
def sib_post(E):
    w, v = old(E), new(E); n = render(E.old[1])
    return [('C09: the sibling the given number of places further on becomes the current node', '{v} == (if {w}.len() > 0 && {w}.last().node is Some {{ {w}.drop_last().push(Nd {{ node: {t}, sentinel: None }}) }} else {{ {w} }})'.format(v=v[0], w=w[0], t=sib_target(E, w, n))),
            ('C09: it is visited, nothing if there is none', '{p} == (if {w}.len() > 0 && {w}.last().node is Some && {t} is Some {{ Some(first({h}, {t}->Some_0)) }} else {{ None::<Ev> }})'.format(p=posx(v), w=w[0], t=sib_target(E, w, n), h=E.h)),
            ('C09: the visit is returned', '%s == %s' % (optev(E, E.ret), posx(v)))] + keep(E, w, v, 'C09') + sameobj(E)
isRange = lambda t: t[0] == 'adt' and t[1] == 'Range'
isInt = lambda t: t == ('adt', 'usize')
def sib_count(E):
    """steps made so far and what else is known of the counter: a range, or an integer counting up or down"""
    n = render(E.m.curE.old[1])
    try:
        r = E.local('iter', isRange)
        return render(r.fields[0]), '%s == %s' % (render(r.fields[1]), n)
    except Unsupported: pass
    v = render(E.local('i', isInt))
    if 'dir' not in E.g: E.g['dir'] = 'up' if v == '0' else 'down'
    return v if E.g['dir'] == 'up' else '(%s - %s)' % (n, v), 'true'
def sib_inv(E):
    C = E.m.curE; w, v = walkv(C, C.old[0]), walkv(E, C.a[0]); n = render(C.old[1])
    i, x = sib_count(E)
    return [('C09: the rest of the walk stays', '%s == %s && %s == %s && %s == %s' % (v[1], w[1], v[2], w[2], v[3], w[3])), ('the counter is in range', '0 <= %s <= %s && %s' % (i, n, x)),
            ('C09: the node that many places further on', '{w}.len() > 0 && {w}.last().node is Some && {t} is Some && {v} == {w}.drop_last().push(Nd {{ node: {t}, sentinel: None }})'.format(w=w[0], v=v[0], t='nth(h0.next, %s.last().node->Some_0, (%s) as nat)' % (w[0], i)))]
def sib_body(E):
    C = E.m.curE; w = walkv(C, C.old[0]); n = render(C.old[1]); i = sib_count(E)[0]
    return ['lemma_nth_up(h0, %s.last().node->Some_0, (%s) as nat)' % (w[0], i), 'if %s < %s && nth(h0.next, %s.last().node->Some_0, (%s + 1) as nat) is None { lemma_nth_none(h0.next, %s.last().node->Some_0, (%s + 1) as nat, (%s) as nat); }' % (i, n, w[0], i, w[0], i, n)]
def sib_entry(E):
    w = old(E); x = w[0] + '.last().node->Some_0'
    return entry(E) + ['assert(nth(h0.next, %s, 0) == Some(%s))' % (x, x), 'if {w}.len() > 0 {{ assert({w}.drop_last().push({w}.last()) =~= {w}); }}'.format(w=w[0])]
def sib_exit(E):
    w, v = old(E), new(E); n = render(E.old[1]); x = w[0] + '.last().node->Some_0'
    return ['if %s.len() > 0 && %s.last().node is Some && nth(h0.next, %s, (%s) as nat) is Some { lemma_nth_up(h0, %s, (%s) as nat); }' % (w[0], w[0], x, n, x, n)] + exitl(E)
def child_pre(E): a = E.old[1] if E.old else E.a[1]; return pre(E) + [('the count is not negative', '0 <= %s' % render(a))]
def child_post(E):
    w, v = old(E), new(E); n = render(E.old[1]); x = w[0] + '.last().node->Some_0'; k = '%s.kids[%s]' % (E.h, x)
    c = '{w}.len() > 0 && {w}.last().node is Some && {k}.len() > 0'.format(w=w[0], k=k); t = 'oi({n} < {k}.len(), {k}[{n}])'.format(n=n, k=k)
    return [('C09: the n-th child becomes the current node; the walk stays at a node without children', '{v} == (if {c} {{ {w}.push(Nd {{ node: {t}, sentinel: None }}) }} else {{ {w} }})'.format(v=v[0], w=w[0], c=c, t=t)),
            ('C09: the n-th child is visited; a node without children stays visited', '{p} == (if {c} {{ if {n} < {k}.len() {{ Some(first({h}, {k}[{n}])) }} else {{ None::<Ev> }} }} else {{ {p0} }})'.format(p=posx(v), p0=posx(w), c=c, n=n, k=k, h=E.h)),
            ('C09: the visit of the child is returned, nothing if there is none', '{r} == (if {c} && {n} < {k}.len() {{ Some(first({h}, {k}[{n}])) }} else {{ None::<Ev> }})'.format(r=optev(E, E.ret), c=c, n=n, k=k, h=E.h))] + keep(E, w, v, 'C09') + sameobj(E)
def child_exit(E):
    w, v = old(E), new(E); n = render(E.old[1]); x = w[0] + '.last().node->Some_0'; k = 'h0.kids[%s]' % x
    return ['if {w}.len() > 0 && {w}.last().node is Some && {k}.len() > 0 {{ lemma_nth_sib(h0, {x}, 0, ({n}) as nat); if {n} < {k}.len() {{ lemma_kid(h0, {x}, {n}); }} }}'.format(w=w[0], k=k, x=x, n=n), 'assert(%s =~= %s) ' % (v[0], v[0])] + exitl(E)
def rev_post(E):
    w, v = old(E), new(E)
    return [('C09: the current node is visited anew; an exhausted walk starts again at its origin; beyond the last sibling nothing changes',
             '{p} == (if {w}.len() > 0 {{ match {w}.last().node {{ Some(n) => Some(first({h}, n)), None => None::<Ev> }} }} else {{ match {o} {{ Some(n) => Some(first({h}, n)), None => None::<Ev> }} }})'.format(p=posx(v), w=w[0], h=E.h, o=w[3])),
            ('C09: the current node stays', '{v} == (if {w}.len() == 0 && {o} is Some {{ seq![Nd {{ node: {o}, sentinel: None }}] }} else {{ {w} }})'.format(v=v[0], w=w[0], o=w[3]))] + keep(E, w, v, 'C09') + sameobj(E)
def rev_exit(E):
    w, v = old(E), new(E)
    return ['if {w}.len() == 0 && {o} is Some {{ assert({v} =~= seq![Nd {{ node: {o}, sentinel: None }}]); lemma_w_one(h0, {v}, {o}->Some_0); }} else {{ lemma_w_move(h0, {w}, {v}, {o}); }}'.format(w=w[0], v=v[0], o=w[3]), 'lemma_w_last(h0, %s, %s)' % (v[0], w[3])]
def moved(E, O):
    w, v = old(O), walkv(E, E.a[0])
    return ['lemma_w_move(h0, %s, %s, %s)' % (w[0], v[0], w[3]), 'lemma_w_last(h0, %s, %s)' % (v[0], w[3])]
def sib_moved(E, O):
    w = old(O); n = render(O.old[1]); x = w[0] + '.last().node->Some_0'
    return ['if %s.len() > 0 && %s.last().node is Some && nth(h0.next, %s, (%s) as nat) is Some { lemma_nth_up(h0, %s, (%s) as nat); }' % (w[0], w[0], x, n, x, n)] + moved(E, O)
for o in WALKS:
    getter(o + '::get'); forwarder(o + '::forward', False); forwarder(o + '::next', True)
    spec(o + '::to_parent', pre=pre, entry=entry, exit=exitl if o == 'Walk' else None, hints={'Walk::get': moved} if o == 'Walk' else None, post=par_post, props=('C09',))
    spec(o + '::get_parent', pre=pre, entry=entry, post=getpar_post, props=('C09',))
    if o == 'Walk': spec('Walk::to_sib', pre=sib_pre, entry=sib_entry, exit=sib_exit, post=sib_post, hints={'Walk::get': sib_moved}, loops=[LoopSpec(sib_inv, body=sib_body, dec=lambda E: '(%s - %s)' % (render(E.m.curE.old[1]), sib_count(E)[0]))], props=('C09',))
    else: spec(o + '::to_sib', pre=child_pre, entry=entry, post=sib_post, props=('C09',))
    spec(o + '::to_child', pre=child_pre, entry=entry, exit=child_exit if o == 'Walk' else None, hints={'Walk::to_sib': moved} if o == 'Walk' else None, post=child_post, props=('C09',))
    spec(o + '::revisit', pre=pre, entry=entry, exit=rev_exit if o == 'Walk' else None, post=rev_post, props=('C09',))
# ---------------------------------------------------------------- starting a walk
def start_post(E, v, o, tag='C08'):
    return [(tag + ': the walk starts with the first node', '%s == (match %s { Some(n) => Some(first(%s, n)), None => None::<Ev> })' % (posx(v), o, E.h)),
            (tag + ': the topmost nodes are the given ones', '%s == %s' % (v[3], o)), (tag + ': only the first node is on the stack', '%s.len() == bi(%s is Some, 1)' % (v[0], o))] + inv(E, v, tag + ': the walk starts consistent')
spec('<TreeWalk as From<Tree>>::from', pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the root is live', '%s.alive[%s]' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))],
     entry=lambda E: ['lemma_node(h0, %s)' % E.p(0)],
     exit=lambda E: ['lemma_w_one(h0, %s, %s)' % (walkv(E, E.ret)[0], E.p(0)), 'assert(%s.len() == 1)' % walkv(E, E.ret)[0]],
     post=lambda E: start_post(E, walkv(E, E.ret), 'Some(%s)' % E.p(0)) + [('C08: the walk holds the tree', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))], props=('C08', 'C09'))
spec('<ForestWalk as From<Forest>>::from', pre=lambda E: [('the structure is well-formed', 'wf(%s)' % E.h), ('the forest is live', '%s.alive[%s]' % (E.h, E.p(0))), ('it is a root', '%s.up[%s] is None' % (E.h, E.p(0)))],
     entry=lambda E: ['lemma_node(h0, %s)' % E.p(0), 'if h0.kids[{0}].len() > 0 {{ lemma_kid(h0, {0}, 0); }}'.format(E.p(0))],
     exit=lambda E: ['if h0.kids[{p}].len() > 0 {{ lemma_w_one(h0, {w}, h0.kids[{p}][0]); }}'.format(p=E.p(0), w=walkv(E, E.ret)[0])],
     post=lambda E: start_post(E, walkv(E, E.ret), '%s.head[%s]' % (E.h, E.p(0))) + [('C08: the walk holds the forest', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))], props=('C08', 'C09'))
for a, b in (('Tree', 'TreeWalk'), ('Forest', 'ForestWalk')):
    spec('<%s as From<%s>>::from' % (a, b), post=lambda E: [('C08: the walked tree is handed back', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))], props=('C08',))

# ---------------------------------------------------------------- the node of a visit
def visit_post(E):
    v = E.old[0] if E.old else E.a[0]
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    return [('C08: the node under visit', '%s == (%s).n' % (E.ptr_of(E.ret), evt(E, Agg('Option', 'Some', (v,)))[1]))]
spec('Visit::node', post=visit_post, props=('C08',))
