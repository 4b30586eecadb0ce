"""Contracts: reference-counted handles (C13, C14)."""
from exec import *
from specs_core import spec, fa, EDIT, S, opt, nonempty, ins_posts, rem_posts
from specs_rel import REL, ALLM
from specs_iter import optint
RC = ('cnt', 'vref')
def rcv(E, v):
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if isinstance(v, (Agg, SymEnum)) and v.name in ('RcNode', 'WeakNode'): return v
    raise Unsupported('handle %r' % (v,))
def branches(v):
    """{variant: pieces of the handle}"""
    if isinstance(v, Agg): return {v.variant: v.fields[0].fields}
    return {k: f[0].fields for k, f in v.variants.items()}
def rc_ptr(v):
    b = branches(v)
    s = render(b['Scattered'][0]) if 'Scattered' in b else None
    p = 'elem(%s, %s)' % (render(b['Piled'][0]), render(b['Piled'][1])) if 'Piled' in b else None
    return s if p is None else p if s is None else '(if %s == 0 { %s } else { %s })' % (render(v.tag), s, p)
def hok(h, v, weak=False):
    """the handle denotes a live node"""
    b = branches(v)
    s = ('hs(%s, %s)' % (h, render(b['Scattered'][0])) if not weak else 'true') if 'Scattered' in b else None
    p = ('wp' if weak else 'hp') + '(%s, %s, %s)' % (h, render(b['Piled'][0]), render(b['Piled'][1])) if 'Piled' in b else None
    return s if p is None else p if s is None else '(if %s == 0 { %s } else { %s })' % (render(v.tag), s, p)
H = lambda E, i=0: rcv(E, E.old[i] if E.old and E.old[i] is not None else E.a[i])
P = lambda E, i=0: rc_ptr(H(E, i))
BASE = lambda E: [('handles are accounted for', 'rcok(%s)' % E.h), ('the handle denotes a live node', hok(E.h, H(E)))]
ROOM = lambda E, p: [('no overflow of the reference counts', '{h}.cnt[{p}] < usize_max() && (piled({h}.data[{p}]) ==> {h}.vref[own({h}.data[{p}])] < usize_max())'.format(h=E.h, p=p))]
CNT = lambda E, p: [('the node is referenced', '%s.cnt[%s] >= 1' % (E.h, p))]
ent = lambda E: ['lemma_pok(h0, %s)' % P(E), 'lemma_node(h0, %s)' % P(E)]
ROOT = lambda E: ['if piled(h0.data[{0}]) {{ lemma_slot(h0, {0}); }}'.format(P(E))]
def counted(E, p, e, ret=None):
    L = [('C13: exactly this node (and its buffer) has %s reference' % ('one more' if e > 0 else 'one less'), 'recount(%s, %s, %s, %d)' % (E.h, E.h2, p, e)),
         (LEMMA, 'lemma_recount(%s, %s, %s, %d)' % (E.h, E.h2, p, e)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % E.h2)]
    if ret is not None: L += [('C13: the result is a handle to this node', '%s && %s == %s' % (hok(E.h2, ret), rc_ptr(ret), p))]
    return L
# ---------------------------------------------------------------- creation, clone, weak handles
nodep = lambda E: [('handles are accounted for', 'rcok(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0))), ('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))]
nent = lambda E: ['lemma_pok(h0, %s)' % E.p(0), 'if piled(h0.data[{0}]) {{ lemma_slot(h0, {0}); }}'.format(E.p(0))]
spec('Node::rc', pre=lambda E: nodep(E) + CNT(E, E.p(0)) + ROOM(E, E.p(0)), entry=nent, mod=RC, props=('C13', 'C14'), post=lambda E: counted(E, E.p(0), 1, rcv(E, E.ret)))
spec('Node::into_rc', pre=nodep, entry=nent, props=('C13', 'C14'), post=lambda E: [('C13: a handle to this node, which takes over its reference', '%s && %s == %s' % (hok(E.h, rcv(E, E.ret)), rc_ptr(rcv(E, E.ret)), E.p(0)))])
spec('<RcNode as From<Tree>>::from', pre=nodep, inline=True, props=('C13',), post=S['Node::into_rc'].post)
spec('<RcNode as Clone>::clone', pre=lambda E: BASE(E) + CNT(E, P(E)) + ROOM(E, P(E)), entry=ROOT, mod=RC, props=('C13', 'C14'), post=lambda E: counted(E, P(E), 1, rcv(E, E.ret)))
def weakened(E):
    r = rcv(E, E.ret); p = P(E); h, h2 = E.h, E.h2
    return [('C13: a weak handle to this node', rc_ptr(r) + ' == ' + p), ('C13: the weak handle denotes it', hok(h2, r, True)),
            ('C13: the node itself gets no reference', fa('%s.cnt[q]' % h2, '%s.cnt[q]' % h)),
            ('C13: its buffer, if any, is kept', '(forall|w: int| #[trigger] {h2}.vref[w] == {h}.vref[w] + bi({h}.data[{p}] is Piled && w == own({h}.data[{p}]), 1))'.format(h=h, h2=h2, p=p)),
            ('C13: else its allocation is kept', fa('%s.wk[q]' % h2, '{h}.wk[q] + bi({h}.data[{p}] is Scattered && q == {p}, 1)'.format(h=h, p=p))),
            (LEMMA, 'lemma_weak(%s, %s)' % (h, h2)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)]
spec('RcNode::downgrade', pre=lambda E: BASE(E) + CNT(E, P(E)) + ROOM(E, P(E)), mod=('vref', 'wk'), props=('C13',), entry=ROOT, post=weakened)
WBASE = lambda E: [('handles are accounted for', 'rcok(%s)' % E.h), ('the weak handle denotes a node or its place', hok(E.h, H(E), True))]
def upgraded(E):
    c, r = some_rc(E); p = P(E); h, h2 = E.h, E.h2
    L = [('C13: a handle is given exactly if the node is live', '(%s) == %s.alive[%s]' % (c, h, p)),
         ('C13: exactly the node (and its buffer) has one more reference', 'if {h}.alive[{p}] {{ recount({h}, {h2}, {p}, 1) }} else {{ recount({h}, {h2}, {p}, 0) }}'.format(h=h, h2=h2, p=p)),
         (LEMMA, 'if {h}.alive[{p}] {{ lemma_recount({h}, {h2}, {p}, 1); }} else {{ lemma_rcok_same2({h}, {h2}, {p}); }}'.format(h=h, h2=h2, p=p)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)]
    if r is not None: L += [('C13: the result is a handle to this node', '(%s) ==> %s && %s == %s' % (c, hok(h2, r), rc_ptr(r), p))]
    return L
def some_rc(E, v=None):
    v = E.ret if v is None else v
    if isinstance(v, Agg) and v.name == 'Option': return ('true', rcv(E, v.fields[0])) if v.variant == 'Some' else ('false', None)
    if isinstance(v, SymEnum): return ('%s == 1' % render(v.tag), rcv(E, v.variants['Some'][0]))
    raise Unsupported('optional handle %r' % (v,))
wk_scat = lambda E: [('its allocation is a separate one', '{h}.alive[{p}] ==> {h}.data[{p}] is Scattered && {h}.cnt[{p}] >= 1'.format(h=E.h, p=render(branches(H(E))['Scattered'][0])))] if 'Scattered' in branches(H(E)) else []
def wk_scat(E):
    v = H(E); b = branches(v)
    if 'Scattered' not in b: return []
    t = '({h}.alive[{p}] ==> {h}.data[{p}] is Scattered && {h}.cnt[{p}] >= 1)'.format(h=E.h, p=render(b['Scattered'][0]))
    return [('a separately stored node is referenced as long as it is live', t if isinstance(v, Agg) else '%s == 0 ==> %s' % (render(v.tag), t))]
wroom = lambda E: [('no overflow of the reference counts', '{h}.alive[{p}] ==> {h}.cnt[{p}] < usize_max() && (piled({h}.data[{p}]) ==> {h}.vref[own({h}.data[{p}])] < usize_max()) && {h}.cnt[{p}] >= 0'.format(h=E.h, p=P(E)))]
spec('WeakNode::upgrade', pre=lambda E: WBASE(E) + wk_scat(E) + wroom(E), mod=RC, props=('C13',), entry=lambda E: ['if h0.alive[{0}] {{ lemma_pok(h0, {0}); if piled(h0.data[{0}]) {{ lemma_slot(h0, {0}); }} }}'.format(P(E))], post=upgraded)
# ---------------------------------------------------------------- queries
def q(key, lab, f, **kw): spec(key, pre=BASE, entry=ent, inline=True, props=('C14',), post=lambda E: [(lab, '%s == %s' % (E.t(E.ret), f(E)))], **kw)
q('RcNode::is_root', 'C14: tells roots', lambda E: '({h}.up[{p}] is None || fake({h}.data[{h}.up[{p}]->Some_0]))'.format(h=E.h, p=P(E)))
q('RcNode::has_no_child', 'C14: tells whether there are children', lambda E: '(%s.kids[%s].len() == 0)' % (E.h, P(E)))
q('RcNode::degree', 'C14: the number of children', lambda E: '%s.kids[%s].len()' % (E.h, P(E)))
q('RcNode::node_count', 'C14: the number of nodes of the tree', lambda E: '%s.desc[%s] + 1' % (E.h, P(E)))
for k in ('RcNode::node_borrow', 'RcNode::node_borrow_mut', 'RcNode::node', 'RcNode::node_mut'):
    q(k, 'C14: the node of the handle', P)
from specs_own import payref
def datapost(E):
    n, v = payref(E)
    return [('C14: the payload of this very node', '%s == %s && %s == pay(%s.data[%s])' % (n, P(E), v, E.h, P(E)))]
for k in ('RcNode::data', 'RcNode::data_mut'): spec(k, pre=BASE, entry=ent, inline=True, props=('C14',), post=datapost)
# ---------------------------------------------------------------- navigation
def nav(key, lab, cond, tgt, entry=None, pre=None):
    def post(E):
        c, r = some_rc(E); p = P(E); t = tgt(E, E.h, p)
        L = [('C14: %s (handle or none)' % lab, '(%s) == (%s)' % (c, cond(E, E.h, p))),
             ('C13: exactly the node of the new handle has one more reference', 'if {c} {{ recount({h}, {h2}, {t}, 1) }} else {{ recount({h}, {h2}, {p}, 0) }}'.format(c=cond(E, E.h, p), h=E.h, h2=E.h2, t=t, p=p)),
             (LEMMA, 'if !({c}) {{ lemma_rcok_same2({h}, {h2}, {p}); }} else {{ lemma_recount({h}, {h2}, {t}, 1); }}'.format(c=cond(E, E.h, p), h=E.h, h2=E.h2, t=t, p=p)),
             ('C13: handles are accounted for afterwards', 'rcok(%s)' % E.h2)]
        if r is not None: L += [('C14: %s (which)' % lab, '(%s) ==> %s && %s == %s' % (c, hok(E.h2, r), rc_ptr(r), t))]
        return L
    def pr(E):
        p = P(E); c, t = cond(E, E.h, p), tgt(E, E.h, p)
        return BASE(E) + [('no overflow of the reference counts', '({c}) ==> {h}.cnt[{t}] < usize_max() && (piled({h}.data[{t}]) ==> {h}.vref[own({h}.data[{t}])] < usize_max())'.format(c=c, t=t, h=E.h))] + (pre(E) if pre else [])
    spec(key, pre=pr, entry=lambda E: ent(E) + (entry(E) if entry else []), post=post, mod=RC, props=('C14', 'C13'))
kidlem = lambda E: ['if h0.kids[{0}].len() > 0 {{ lemma_kid2(h0, {0}, 0); lemma_kid2(h0, {0}, h0.kids[{0}].len() - 1); }}'.format(P(E))]
nav('RcNode::front', 'the first child', lambda E, h, p: '%s.kids[%s].len() > 0' % (h, p), lambda E, h, p: '%s.kids[%s][0]' % (h, p), entry=kidlem)
nav('RcNode::back', 'the last child', lambda E, h, p: '%s.kids[%s].len() > 0' % (h, p), lambda E, h, p: '{0}.kids[{1}][{0}.kids[{1}].len() - 1]'.format(h, p), entry=kidlem)
nav('RcNode::parent', 'the parent', lambda E, h, p: '{0}.up[{1}] is Some && !fake({0}.data[{0}.up[{1}]->Some_0])'.format(h, p), lambda E, h, p: '%s.up[%s]->Some_0' % (h, p),
    pre=lambda E: [('the parent is referenced', '{h}.up[{p}] is Some ==> {h}.cnt[{h}.up[{p}]->Some_0] >= 1'.format(h=E.h, p=P(E)))],
    entry=lambda E: ['if h0.up[{0}] is Some {{ lemma_node(h0, h0.up[{0}]->Some_0); lemma_pok(h0, h0.up[{0}]->Some_0); }}'.format(P(E))])
nav('RcNode::next_sib', 'the next sibling', lambda E, h, p: '%s.next[%s] is Some' % (h, p), lambda E, h, p: '%s.next[%s]->Some_0' % (h, p),
    entry=lambda E: ['lemma_next_sib(h0, %s)' % P(E)])
# ---------------------------------------------------------------- edits through a handle
def rc_after(E, r): return [(LEMMA, 'lemma_rc_edit(%s, %s, %s)' % (E.h, E.h2, r)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % E.h2)]
def rins(key, parent, index, sib=False):
    def pre(E):
        h, s, r = E.h, parent(E, E.h), E.p(1)
        return BASE(E) + ([('the node has a parent', '%s.up[%s] is Some' % (h, P(E)))] if sib else []) + [('the inserted tree is live', '%s.alive[%s]' % (h, r)), ('the inserted tree is a root', '%s.up[%s] is None' % (h, r)),
            ('the inserted tree has a payload', 'real(%s.data[%s])' % (h, r)), ('the inserted tree owns its root', '%s.cnt[%s] >= 1' % (h, r)), ('the inserted tree does not contain the node', '!anc(%s.up, %s, %s)' % (h, s, r))]
    spec(key, pre=pre, mod=EDIT, props=('C14',), entry=lambda E: ent(E) + (['lemma_node(h0, %s)' % parent(E, 'h0')] if sib else []),
         post=lambda E: [(a.replace('C01', 'C14').replace('C02', 'C14').replace('C03', 'C14'), b) for a, b in ins_posts(E.h, E.h2, parent(E, E.h), E.p(1), index(E, E.h))] + [('C14: all links and sizes consistent afterwards', 'wf(%s)' % E.h2)] + rc_after(E, E.p(1)))
slf = lambda E, h: P(E)
par = lambda E, h: '%s.up[%s]->Some_0' % (h, P(E))
rins('RcNode::push_back', slf, lambda E, h: '(%s.kids[%s].len() as int)' % (h, P(E)))
rins('RcNode::push_front', slf, lambda E, h: '0int')
rins('RcNode::insert_prev_sib', par, lambda E, h: 'posn(%s, %s)' % (h, P(E)), True)
rins('RcNode::insert_next_sib', par, lambda E, h: '(posn(%s, %s) + 1)' % (h, P(E)), True)
def rpop(key, index):
    def post(E):
        h, h2, p, i = E.h, E.h2, P(E), index(E, E.h)
        c, r = some_rc(E); ne = '%s.kids[%s].len() > 0' % (h, p)
        L = [('C14: links, sizes and child sequence as after the list removal', 'if {ne} {{ rem_link({h}, {h2}, {p}, {i}) && rem_size({h}, {h2}, {p}, {h}.kids[{p}][{i}]) && rem_kids({h}, {h2}, {p}, {i}) }} else {{ forall|q: int| same_node({h}, {h2}, q) }}'.format(**locals())),
             ('C14: all links and sizes consistent afterwards', 'wf(%s)' % h2), (LEMMA, 'lemma_rc_edit0(%s, %s)' % (h, h2)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2),
             ('C14: the removed tree is returned (or not)', '(%s) == (%s)' % (c, ne))]
        if r is not None: L += [('C14: the removed tree is returned (which)', '(%s) ==> %s && %s == %s.kids[%s][%s]' % (c, hok(h2, r), rc_ptr(r), h, p, i))]
        return L
    spec(key, pre=BASE, mod=EDIT, props=('C14',), post=post, entry=lambda E: ent(E) + kidlem(E), after={'Node::' + key.split('::')[1]: lambda E, O: ['lemma_rc_edit0(%s, %s)' % (E.h, E.h2)]})
rpop('RcNode::pop_front', lambda E, h: '0int')
rpop('RcNode::pop_back', lambda E, h: '(%s.kids[%s].len() - 1)' % (h, P(E)))
# ---------------------------------------------------------------- release of a handle
def glue_fn(n):
    fn = Fn(); fn.text = ''; fn.const = None; fn.debug = {}; fn.name = fn.key = 'glue:' + n
    t = ('ref', True, ('adt', n, ('adt', 'T')))
    fn.params = [(1, t)]; fn.ret = ('tuple',); fn.locals = {0: fn.ret, 1: t}
    fn.blocks = {'bb0': [('call', (0, ()), '@glue', [('move', (1, ()))], 'bb1')], 'bb1': [('return',)]}
    return fn
def glue_inv(E):
    C = E.m.curE; p = P(C)
    return [('C13: released so far: nodes below that nothing else refers to, each once', 'rdropping(h0, %s, %s)' % (E.h2, p)),
            ('C13: only this handle referred to the node', 'h0.cnt[{p}] == 1 && {g}.cnt[{p}] == bi(!piled(h0.data[{p}]), 1)'.format(g=E.h2, p=p))]
def glue_loop_ghost(E, what):
    if what == 'init': E.g['g0'] = E.h2; E.st.log.append(('lemma', 'lemma_rdropping_init(h0, %s, %s)' % (E.h2, P(E.m.curE))))
def pop_after(E, O):
    E.st.ghost['prepop'] = E.h; E.st.ghost['postpop'] = E.h2
    p = P(O)
    return ['if {g}.kids[{p}].len() > 0 {{ lemma_rd_step_pre(h0, {g}, {g1}, {p}); lemma_rd_less(h0, {g}, {p}); }} else {{ assert(same_node({g}, {g1}, {p})); lemma_rdropping_same(h0, {g}, {g1}, {p}); }}'.format(g=E.h, g1=E.h2, p=p)]
def pop_hint(E, O):
    return ['lemma_pok(%s, %s)' % (E.h, P(O))]
def nested_after(E, O):
    return ['lemma_rdrop_any(%s, %s, %s)' % (E.h, E.h2, P(E)), 'lemma_rd_step(h0, %s, %s, %s, %s)' % (E.st.ghost['prepop'], E.h, E.h2, P(O))] if 'prepop' in E.st.ghost else []
def glue_ghost(E):
    p = P(E); d = 'h0.data[%s]' % p
    return {'vlive': 'if h0.cnt[{p}] == 1 && piled({d}) {{ {h}.vlive.insert(own({d}), {h}.vlive[own({d})].remove({p})) }} else {{ {h}.vlive }}'.format(p=p, d=d, h=E.h2)}
def glue_post(E):
    p = P(E); L = []
    if E.role == 'verify':
        g = E.st.ghost.get('postpop')
        L.append((LEMMA, 'lemma_rd_done(h0, %s, %s, %s)' % (g, E.h2, p) if g else 'lemma_recount(h0, %s, %s, -1)' % (E.h2, p)))
    return L + [('C13: another handle remains: only the count changes; otherwise the node and the nodes below that nothing else refers to are released, each payload dropped exactly once, children still referred to become roots', 'rdrop(%s, %s, %s)' % (E.h, E.h2, p))]
spec('glue:RcNode', variant=('rdrop', lambda E: '%s.desc[%s]' % (E.h, P(E))), pre=lambda E: BASE(E) + CNT(E, P(E)) + [('the link from the parent is counted besides this handle', '{h}.up[{p}] is Some ==> {h}.cnt[{p}] >= 2'.format(h=E.h, p=P(E)))],
     post=glue_post, mod=ALLM, ghost=glue_ghost, props=('C13',), objs=False, entry=lambda E: ['lemma_pok(h0, %s)' % P(E)] + ROOT(E) + ['if piled(h0.data[{0}]) {{ lemma_vref_cnt(h0, {0}); }}'.format(P(E))],
     loops=[LoopSpec(glue_inv, ghost=glue_loop_ghost, dec=lambda E: '%s.kids[%s].len()' % (E.h2, P(E.m.curE)))], hints={'RcNode::pop_front': pop_hint}, after={'RcNode::pop_front': pop_after, 'glue:RcNode': nested_after})
spec('RcNode::detach', pre=lambda E: BASE(E) + [('the node has a parent', '%s.up[%s] is Some' % (E.h, P(E))), ('the link from the parent is counted besides this handle', '%s.cnt[%s] >= 2' % (E.h, P(E)))],
     mod=ALLM, props=('C14', 'C13'), entry=lambda E: ent(E) + ['lemma_posn(h0, %s)' % P(E)],
     after={'Node::detach': lambda E, O: (E.st.ghost.__setitem__('det', E.h2), ['lemma_rc_edit0(%s, %s)' % (E.h, E.h2)])[1]},
     post=lambda E: (lambda h, h2, p: [('C14: the node leaves the child sequence of its parent, links and sizes as after the list removal', 'rem_link({h}, {h2}, {u}, {i}) && rem_size({h}, {h2}, {u}, {p}) && rem_kids({h}, {h2}, {u}, {i})'.format(h=h, h2=h2, p=p, u='%s.up[%s]->Some_0' % (h, p), i='posn(%s, %s)' % (h, p))),
        ('C13: the reference from the parent is given back, nothing is released', 'recount(%s, %s, %s, -1) && (forall|q: int| #[trigger] %s.alive[q] == %s.alive[q])' % (h, h2, p, h2, h)),
        ('C14: payloads stay', fa(h2 + '.data[q]', h + '.data[q]')),
        ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)])(E.h, E.h2, P(E)),
     exit=lambda E: ['lemma_rem_same(h0, {0}, {1}, h0.up[{2}]->Some_0, posn(h0, {2}), {2})'.format(E.st.ghost['det'], E.h2, P(E))] if 'det' in E.st.ghost else [])

# ---------------------------------------------------------------- whole forests
def rsplice(key, back):
    b = 'true' if back else 'false'
    def pre(E):
        h, s, f = E.h, P(E), E.p(1)
        return BASE(E) + [('the forest is live', '%s.alive[%s]' % (h, f)), ('the forest is a virtual root of its own', 'fake({0}.data[{1}]) && {0}.up[{1}] is None && {0}.cnt[{1}] == 1'.format(h, f)), ('the forest does not contain the node', '!anc(%s.up, %s, %s)' % (h, s, f))]
    def post(E):
        h, h2, s, f = E.h, E.h2, P(E), E.p(1)
        return [('C14: the child sequence is the concatenation, links and sizes accordingly, only the emptied forest is released', 'spliced(%s, %s, %s, %s, %s)' % (h, h2, s, f, b)),
                ('C14: all links and sizes consistent afterwards', 'wf(%s)' % h2), (LEMMA, 'lemma_rc_spliced(%s, %s, %s, %s, %s)' % (h, h2, s, f, b)), ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)]
    spec(key, pre=pre, post=post, mod=ALLM, props=('C14',), entry=ent)
rsplice('RcNode::append', True)
rsplice('RcNode::prepend', False)
# ---------------------------------------------------------------- iteration
def itv(E, v):
    """(curr, len) of an IterRc value"""
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if not (isinstance(v, Agg) and v.name == 'IterRc'): raise Unsupported('iterator %r' % (v,))
    fs = [f for f, _ in E.m.decls.structs['IterRc'][1]]
    return v.fields[fs.index('curr')], render(v.fields[fs.index('len')])
def optp(E, v):
    """(is there a handle, handle)"""
    return some_rc(E, v)
def opt_post(E, v, h, cond, tgt, lab):
    c, r = optp(E, v)
    return [(lab + ' (handle or none)', '(%s) == (%s)' % (c, cond))] + ([(lab + ' (which)', '(%s) ==> %s && %s == %s' % (c, hok(h, r), rc_ptr(r), tgt))] if r is not None else [])
def recounted(E, cond, tgt, p='0'):
    h, h2 = E.h, E.h2
    return [('C13: exactly the node of the new handle has one more reference', 'if {c} {{ recount({h}, {h2}, {t}, 1) }} else {{ recount({h}, {h2}, {t}, 0) }}'.format(c=cond, h=h, h2=h2, t=tgt)),
            (LEMMA, 'if !({c}) {{ lemma_rcok_same2({h}, {h2}, {t}); }} else {{ lemma_recount({h}, {h2}, {t}, 1); }}'.format(c=cond, h=h, h2=h2, t=tgt)),
            ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)]
def room(E, cond, t): return [('no overflow of the reference counts', '({c}) ==> {h}.cnt[{t}] < usize_max() && (piled({h}.data[{t}]) ==> {h}.vref[own({h}.data[{t}])] < usize_max())'.format(c=cond, t=t, h=E.h))]
spec('RcNode::iter_rc', pre=lambda E: BASE(E) + room(E, '%s.kids[%s].len() > 0' % (E.h, P(E)), '%s.kids[%s][0]' % (E.h, P(E))), mod=RC, props=('C14', 'C13'), entry=lambda E: ent(E) + kidlem(E),
     post=lambda E: (lambda cv, n, k: opt_post(E, cv, E.h2, '%s.len() > 0' % k, '%s[0]' % k, 'C14: iteration starts at the first child') +
        [('C14: the announced length is the number of children', '%s == %s.len()' % (n, k))] + recounted(E, '%s.len() > 0' % k, '%s[0]' % k))(*itv(E, E.ret), '%s.kids[%s]' % (E.h, P(E))))
def itok(E, h, v, n):
    c, r = optp(E, v)
    return [('the next handle denotes a live node', '(%s) ==> %s' % (c, hok(h, r)))] if r is not None else []
def it_next(E):
    cv, n = itv(E, E.old[0] if E.old else E.a[0]); c, r = optp(E, cv)
    p = rc_ptr(r) if r is not None else '0int'
    return cv, n, c, r, p
def inext_pre(E):
    cv, n, c, r, p = it_next(E)
    return [('handles are accounted for', 'rcok(%s)' % E.h)] + itok(E, E.h, cv, n) + room(E, '%s > 0 && (%s) && %s.next[%s] is Some' % (n, c, E.h, p), '%s.next[%s]->Some_0' % (E.h, p))
def inext_post(E):
    cv, n, c, r, p = it_next(E); cv2, n2 = itv(E, E.a[0])
    more = '(%s > 0 && (%s) && %s.next[%s] is Some)' % (n, c, E.h, p); t = '%s.next[%s]->Some_0' % (E.h, p)
    L = opt_post(E, E.ret, E.h2, '%s > 0 && (%s)' % (n, c), p, 'C14: the child to come is given') + [('C14: the announced length follows', '%s == (if {0} > 0 {{ {0} - 1 }} else {{ {0} }})'.format(n) % n2)]
    c2, r2 = optp(E, cv2)
    keep = '%s == 0' % n
    L += [('C14: then its next sibling, if any (handle or none)', '%s > 0 ==> (%s) == %s' % (n, c2, more)), ('C14: at the end nothing changes (handle or none)', '%s ==> (%s) == (%s)' % (keep, c2, c))]
    if r2 is not None: L += [('C14: then its next sibling, if any (which)', '%s ==> %s && %s == %s' % (more, hok(E.h2, r2), rc_ptr(r2), t)), ('C14: at the end nothing changes (which)', '%s && (%s) ==> %s && %s == %s' % (keep, c2, hok(E.h2, r2), rc_ptr(r2), p))]
    return L + recounted(E, more, t)
spec('<IterRc as Iterator>::next', pre=inext_pre, post=inext_post, mod=RC, props=('C14', 'C13'),
     entry=lambda E: (lambda c, p: ['if %s { lemma_node(h0, %s); lemma_pok(h0, %s); lemma_next_sib(h0, %s); }' % (c, p, p, p)])(*it_next(E)[2::2]))
spec('<IterRc as Iterator>::size_hint', props=('C14',), post=lambda E: (lambda l, cp: [('C14: lower bound is the announced length', '%s == %s' % (render(E.ret.fields[0]), l)), ('C14: an upper bound is given', cp[0]), ('C14: upper bound is the announced length', '%s == %s' % (cp[1], l))])(itv(E, E.old[0])[1], optint(E, E.ret.fields[1])))
def iclone_post(E):
    cv, n, c, r, p = it_next(E); cv2, n2 = itv(E, E.ret)
    return opt_post(E, cv2, E.h2, c, p, 'C14: the copy goes on at the same child') + [('C14: the copy has as many children to come', '%s == %s' % (n2, n))] + recounted(E, c, p)
spec('<IterRc as Clone>::clone', pre=lambda E: (lambda cv, n, c, r, p: [('handles are accounted for', 'rcok(%s)' % E.h)] + itok(E, E.h, cv, n) + [('the node is referenced', '(%s) ==> %s.cnt[%s] >= 1' % (c, E.h, p))] + room(E, c, p))(*it_next(E)),
     post=iclone_post, mod=RC, props=('C14', 'C13'), entry=lambda E: (lambda c, p: ['if %s { lemma_pok(h0, %s); if piled(h0.data[%s]) { lemma_slot(h0, %s); } }' % (c, p, p, p)])(*it_next(E)[2::2]))
# ---------------------------------------------------------------- back to a tree
spec('RcNode::into_tree', pre=lambda E: BASE(E) + [('the node is a root', '%s.up[%s] is None' % (E.h, P(E)))], mod=('up',), props=('C14', 'C13'), entry=ent,
     post=lambda E: [('C14: the tree is rooted at the node of the handle', '%s == %s' % (E.ptr_of(E.ret), P(E))), ('C14: no link changes', fa(E.h2 + '.up[q]', E.h + '.up[q]'))])
# ---------------------------------------------------------------- release of a weak handle
def wdrop(E):
    v = H(E); b = branches(v); h, h2 = E.h, E.h2; L = []
    ip = None if 'Piled' not in b else 'true' if isinstance(v, Agg) else '%s == 1' % render(v.tag)
    sc = None if 'Scattered' not in b else 'true' if isinstance(v, Agg) else '%s == 0' % render(v.tag)
    w = render(b['Piled'][0]) if ip else '0int'; s = render(b['Scattered'][0]) if sc else '0int'
    ip, sc = ip or 'false', sc or 'false'
    return [('C13: its buffer has one reference less and goes away exactly with the last one', 'if {ip} {{ weakdrop({h}, {h2}, {w}) }} else {{ (forall|x: int| #[trigger] {h2}.vref[x] == {h}.vref[x]) && (forall|x: int| #[trigger] {h2}.valive[x] == {h}.valive[x]) }}'.format(**locals())),
            ('C13: a separate allocation has one weak reference less', fa(h2 + '.wk[q]', '{h}.wk[q] - bi({sc} && q == {s}, 1)'.format(**locals()))),
            (LEMMA, 'if {ip} {{ lemma_weakdrop({h}, {h2}, {w}); }} else {{ lemma_weak({h}, {h2}); }}'.format(**locals())),
            ('C13: handles are accounted for afterwards', 'rcok(%s)' % h2)]
def wdrop_pre(E):
    v = H(E); b = branches(v)
    if 'Piled' not in b: return WBASE(E)
    t = '{h}.vref[{w}] >= wsum({h}, {w}) + 1'.format(h=E.h, w=render(b['Piled'][0]))
    return WBASE(E) + [('the weak handle is counted', t if isinstance(v, Agg) else '%s == 1 ==> %s' % (render(v.tag), t))]
def went(E):
    b = branches(H(E))
    return ['if h0.valive[{0}] {{ assert(vok(h0, {0})); lemma_wsum_card(h0, {0}); }}'.format(render(b['Piled'][0]))] if 'Piled' in b else []
spec('glue:WeakNode', pre=wdrop_pre, post=wdrop, mod=('vref', 'valive', 'wk'), props=('C13',), objs=False, entry=went)
# ---------------------------------------------------------------- extend
def seqloc(E):
    r = E.local('__iter', lambda t: E.m.term_sort(t) == 'S:P')      # the one that is not a parameter
    if not isinstance(r, T): raise Unsupported('iterator %r' % (r,))
    return render(r)
def ext_n(E):
    s = render(E.m.curE.a[1]); r = seqloc(E)
    return s, r, '(%s.len() - %s.len())' % (s, r)
def ext_inv(E):
    s, r, n = ext_n(E); C = E.m.curE
    return [('C14: the trees still to come', '{r}.len() <= {s}.len() && {r} =~= {s}.subrange({n}, {s}.len() as int)'.format(s=s, r=r, n=n)),
            ('C14: the trees so far were pushed back in order', 'extended(h0, %s, %s, %s, %s)' % (E.h2, P(C), s, n))]
def ext_ghost(E, what):
    C = E.m.curE
    if what != 'step': E.st.ghost['extn'] = ext_n(E)
    if what == 'init': E.st.log.append(('lemma', 'assert({0}.subrange(0, {0}.len() as int) =~= {0})'.format(render(C.a[1])))); E.st.log.append(('lemma', 'lemma_extend_init(h0, %s, %s)' % (P(C), render(C.a[1]))))
def ext_args(O, E): return P(O), E.st.ghost['extn'][0], E.st.ghost['extn'][2]
spec('<RcNode as Extend<Tree>>::extend', pre=lambda E: BASE(E) + [('the trees handed in are distinct roots of their own', 'intrees(%s, %s, %s)' % (E.h, P(E), render(E.a[1])))], mod=EDIT, props=('C14', 'C13'), entry=ent, objs=False,
     loops=[LoopSpec(ext_inv, ghost=ext_ghost, dec=lambda E: '%s.len()' % seqloc(E))],
     hints={k: lambda E, O: ['lemma_extend_pre(h0, %s, %s, %s, %s)' % ((E.h,) + ext_args(O, E)), 'assert({0} == {1}[{2}])'.format(E.p(1), *ext_args(O, E)[1:])] for k in ('Node::push_back', 'RcNode::push_back')},
     after={k: lambda E, O: ['lemma_extend_step(h0, %s, %s, %s, %s, %s)' % ((E.h, E.h2) + ext_args(O, E))] for k in ('Node::push_back', 'RcNode::push_back')},
     post=lambda E: [('C14: the trees are the last children now, in order; all other child sequences stay', 'extended(%s, %s, %s, %s, %s.len() as int)' % (E.h, E.h2, P(E), render(E.a[1]), render(E.a[1])))])
