"""Contracts: the operator notation (C12)."""
from exec import *
from specs_core import spec, S, EDIT
from specs_rel import REL, ALLM, NEWM, newnode_post, new_pre, scat
from specs_build import BUILD
OPM = tuple(dict.fromkeys(ALLM + NEWM + BUILD))
spec('tr', pre=new_pre(scat), post=lambda E: newnode_post(E, scat(E)), mod=NEWM, props=('C12',), inline=True)
spec('fr', pre=new_pre(lambda E: None), post=lambda E: newnode_post(E, 'D::ScatteredNone{owner: 0}'), mod=NEWM, props=('C12',), inline=True)
def op_spec(key, a, b, div):
    """a, b: operand kinds 'T' tree, 'F' forest, with '&' by reference; b None: unary; b '()' nothing. div: result is the left tree with children added, else a forest"""
    ops = [(0, a)] + ([(1, b)] if b and b != '()' else [])
    def pre(E):
        L = [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h)]
        for i, k in ops:
            p = E.p(i); n = 'left' if i == 0 else 'right'
            L.append(('the %s operand is live' % n, '%s.alive[%s]' % (E.h, p)))
            if 'T' in k: L.append(('the %s tree has a payload' % n, 'real(%s.data[%s])' % (E.h, p)))
            else: L.append(('the %s forest is a virtual root' % n, 'fake(%s.data[%s])' % (E.h, p)))
            L.append(('the %s operand is a root' % n, '%s.up[%s] is None' % (E.h, p)))
            if k == 'F': L.append(('the %s forest is unshared' % n, 'owned(%s, %s)' % (E.h, p)))
        if len(ops) == 2 and not ('&' in a and '&' in b): L.append(('the operands are different', '%s != %s' % (E.p(0), E.p(1))))
        return L
    def objs(E, O): return [O.p(i) for i, k in ops] + list(E.st.ghost.get('opobj', ()))
    def known(E, O, *new):
        E.st.ghost['opobj'] = tuple(E.st.ghost.get('opobj', ())) + new
        return ['lemma_anc_unfold(%s.up, %s)' % (E.h2, x) for x in objs(E, O)]
    def clones(E): return E.st.ghost.get('opcl', ())
    def buf(E, i):
        p = E.p(i)
        m = [v for (q, v, fr) in clones(E) if q == p]
        if not m: raise Unsupported('no clone of operand %d on this path' % i)
        if a == b and len(m) == 2: return m[i]
        return m[-1]
    def trees(E, i, k):
        p = E.p(i)
        if k == 'T': return 'seq![%s]' % p
        if k == 'F': return '%s.kids[%s]' % (E.h, p)
        if k == '&T': return 'seq![elem(%s, 0)]' % buf(E, i)
        return 'ckids(%s, %s, %s)' % (E.h, p, buf(E, i))
    def post(E):
        r = E.ptr_of(E.ret); h, h2 = E.h, E.h2; p0 = E.p(0)
        L = []
        if div:
            root = p0 if a == 'T' else 'elem(%s, 0)' % buf(E, 0)
            base = '%s.kids[%s]' % (h, p0) if a == 'T' else 'ckids(%s, %s, %s)' % (h, p0, buf(E, 0))
            L.append(('C12: the result is the left tree%s' % ('' if a == 'T' else ', copied'), '%s == %s' % (r, root)))
            kids = base + ''.join(' + ' + trees(E, i, k) for i, k in ops[1:])
        else:
            if a == 'F': L.append(('C12: the result is the left forest', '%s == %s' % (r, p0)))
            else: L.append(('C12: the result is a forest', 'fake(%s.data[%s])' % (h2, r)))
            kids = ' + '.join(trees(E, i, k) for i, k in ops)
        L.append(('C12: its children are those of the left operand, then those of the right', '%s.kids[%s] =~= %s' % (h2, r, kids)))
        L.append(('C12: the result is a root', '%s.alive[%s] && %s.up[%s] is None' % (h2, r, h2, r)))
        for i, k in ops:
            if '&' not in k: continue
            v = buf(E, i); src = 'T' in k and not (div and i == 0)
            L.append(('C12: the copies have the shape, child order and payloads of the %s operand' % ('left' if i == 0 else 'right'), 'copied(%s, %s, %s, %s, %d)' % (h, h2, E.p(i), v, 0 if src else 1)))
            if div and i == 0: L.append(('C12: the root payload is equal', 'copyp(%s, %s, %s, %s, 0)' % (h, h2, p0, v)))
        ex = [E.p(i) for i, k in ops if (k == 'F') or (div and i == 0 and k == 'T')]
        c = ''.join(' && q != %s' % x for x in ex)
        L.append(('C12: all other nodes keep children and payload (borrowed operands are left as they are)', '(forall|q: int| %s.alive[q]%s ==> #[trigger] samen(%s, %s, q))' % (h, c, h, h2)))
        if div and a == 'T': L.append(('C12: the left tree keeps its payload', '%s.data[%s] == %s.data[%s]' % (h2, p0, h, p0)))
        L.append(('C12: no payload is dropped', '(forall|x: int| #[trigger] %s.pd[x] == %s.pd[x])' % (h2, h)))
        L += [('C01: all links and sizes consistent afterwards', 'wf(%s)' % h2), ('C05: accounting holds afterwards', 'rel(%s)' % h2)]
        return L
    def after_clone(E, O, forest):
        p, r = E.p(0), E.ptr_of(E.ret); v = 'own(%s.data[%s])' % (E.h2, r)
        fr = 1 if forest else 0
        L = ['lemma_copied_out(h0, %s, %s, %s, %s, %d, %s)' % (E.h, E.h2, q, w, f, v) for q, w, f in clones(E)]
        E.st.ghost['opcl'] = tuple(clones(E)) + ((p, v, fr),)
        return L + ['assert(%s.alive[%s])' % (E.h, x) for x in objs(E, O)] + ['assert(keeps(h0, %s))' % E.h, 'lemma_op_clone(h0, %s, %s, %s, %s, %d)' % (E.h, E.h2, p, v, fr), 'lemma_anc_unfold(%s.up, %s)' % (E.h2, r)] + known(E, O, r)
    def change(push, back=True):
        def f(E, O):
            s, x = E.p(0), E.p(0) if push else E.p(1)
            L = ['lemma_anc_unfold(%s.up, %s)' % (E.h, s)] + (['lemma_rel_same2(%s, %s)' % (E.h, E.h2)] if push else ['lemma_spliced_op(h0, %s, %s, %s, %s, %s)' % (E.h, E.h2, s, x, 'true' if back else 'false')])
            if push: L.append('assert forall|q: int| q != %s implies #[trigger] samen(%s, %s, q) by { }' % (s, E.h, E.h2))
            new = []
            for q, w, fr in clones(E):
                L.append('lemma_elems(%s)' % w)
                fr2 = 1 if s in roots(E, w) else fr
                L.append('lemma_copied_frame(h0, %s, %s, %s, %s, %d, %d, %s, %s)' % (E.h, E.h2, q, w, fr, fr2, s, x))
                new.append((q, w, fr2))
            E.st.ghost['opcl'] = tuple(new)
            return L + known(E, O)
        return f
    def roots(E, w): return E.st.ghost.get('oproot:' + w, ())
    def wrap_clone(forest):
        def f(E, O):
            L = after_clone(E, O, forest)
            v = clones(E)[-1][1]
            E.st.ghost['oproot:' + v] = (E.ptr_of(E.ret),)
            return L
        return f
    def after_new(E, O):
        L = ['lemma_born_keeps(h0, %s, %s, %s, D::ScatteredNone{owner: 0})' % (E.h, E.h2, E.ptr_of(E.ret))] + known(E, O, E.ptr_of(E.ret))
        for q, w, fr in clones(E): L.append('lemma_copied_frame(h0, %s, %s, %s, %s, %d, %d, %s, %s)' % (E.h, E.h2, q, w, fr, fr, E.ptr_of(E.ret), E.ptr_of(E.ret)))
        return L
    spec(key, pre=pre, post=post, mod=OPM, props=('C12',), inline=True,
         entry=lambda E: ['assert(keeps(h0, h0))'] + ['lemma_anc_unfold(h0.up, %s)' % E.p(i) for i, k in ops] + ['lemma_node(h0, %s)' % E.p(i) for i, k in ops],
         after={'<Tree as Clone>::clone': wrap_clone(False), 'Node::deep_clone': wrap_clone(False), '<Forest as Clone>::clone': wrap_clone(True), 'Node::deep_clone_forest': wrap_clone(True),
                'Forest::new': after_new, 'Node::push_back': change(True), 'Node::push_front': change(True), 'Node::append': change(False), 'Node::prepend': change(False, False)})
def ty(k): return ('&' if '&' in k else '') + {'T': 'Tree', 'F': 'Forest'}[k[-1]]
for a in ('T', '&T'):
    op_spec('<%s as Neg>::neg' % ty(a), a, None, False)
    op_spec('<%s as Div<()>>::div' % ty(a), a, '()', True)
    for b in ('T', '&T'):
        op_spec('<%s as Sub<%s>>::sub' % (ty(a), ty(b)), a, b, False)
        op_spec('<%s as Div<%s>>::div' % (ty(a), ty(b)), a, b, True)
    for b in ('F', '&F'): op_spec('<%s as Div<%s>>::div' % (ty(a), ty(b)), a, b, True)
for a in ('F', '&F'):
    for b in ('T', '&T', 'F', '&F'): op_spec('<%s as Sub<%s>>::sub' % (ty(a), ty(b)), a, b, False)
