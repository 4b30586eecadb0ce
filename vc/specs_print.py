"""Contracts: the printed form (C16)."""
from exec import *
from specs_core import spec, S
from specs_iter import view
from specs_cmp import fed, isiter, seen
def ok(E):
    v = E.ret
    if isinstance(v, Agg) and v.name == 'Result': return 'true' if v.variant == 'Ok' else 'false'
    if isinstance(v, SymEnum): return '(%s == 0)' % render(v.tag)
    raise Unsupported('result %r' % (v,))
def posts(E, text):
    return [('C16: the text written is the canonical notation, complete and nothing else', '%s ==> %s =~= %s + %s' % (ok(E), fed(E, E.a[1]), fed(E, E.old[1]), text)),
            ('C16: an error is reported only if the formatter failed', '!%s ==> failed(%s)' % (ok(E), fed(E, E.a[1])))]
def print_spec(kind):
    F = kind == 'Forest'
    def inv(E):
        C = E.m.curE; v, n = seen(E); k = 'h0.kids[%s]' % C.p(0)
        return [('C16: the children still to come', '{v}.len() <= {k}.len() && {v} =~= {k}.subrange({n}, {k}.len() as int)'.format(v=v, k=k, n=n)),
                ('C16: payload and children so far are printed in order', '%s =~= %s + %sseq![40int, 32int] + list(h0, %s.subrange(0, %s))' % (fed(E, C.a[1]), fed(C, C.old[1]), '' if F else 'disp(pvl(h0, %s)) + ' % C.p(0), k, n))]
    def ghost(E, what):
        if what != 'step': E.st.ghost['pseen'] = seen(E)
    def pre(E): return [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))] + ([] if F else [('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))])
    def post(E): return posts(E, 'formf(%s, %s.kids[%s])' % (E.h, E.h, E.p(0)) if F else 'form(%s, %s)' % (E.h, E.p(0)))
    kw = {} if kind == 'Tree' else dict(loops=[LoopSpec(inv, ghost=ghost, dec=lambda E: '%s.len()' % seen(E)[0])])
    spec('<%s as Display>::fmt' % kind, variant=('show', lambda E: '%s.desc[%s]' % (E.h, E.p(0))) if kind == 'Node' else None, hints={'<Node as Display>::fmt': lambda E, O: ['if {i} < h0.kids[{p}].len() {{ lemma_kid(h0, {p}, {i}); }}'.format(p=O.p(0), i=E.st.ghost['pseen'][1])] if 'pseen' in E.st.ghost else []}, pre=pre, post=post, props=('C16',), entry=lambda E: ['lemma_node(h0, %s)' % E.p(0), 'lemma_kids_real(h0, %s)' % E.p(0), 'lemma_list_ends(h0, h0.kids[%s])' % E.p(0)] + ([] if F else ['lemma_form(h0, %s)' % E.p(0)]),
         after={'<Node as Display>::fmt': lambda E, O: ['lemma_list_step(h0, h0.kids[%s], %s)' % (O.p(0), E.st.ghost['pseen'][1])] if 'pseen' in E.st.ghost else []}, **kw)
for kind in ('Node', 'Tree', 'Forest'): print_spec(kind)
# ---------------------------------------------------------------- through a handle
from specs_rc import P as rcP, BASE
from specs_rel import ALLM
from specs_cmp import rpre_one, rseen, rkeep, rh_next, rh_rec, ra_next, isiter, israc
def rinv(E):
    C = E.m.curE; c, r, n, i = rseen(E); p = rcP(C); k = 'h0.kids[%s]' % p
    L = [('C14: the children still to come', '0 <= %s <= %s.len() && (%s) == (%s > 0)' % (n, k, c, n)),
         ('C13: the iterator holds the one reference', 'walking(h0, %s, %s, %s)' % (E.h2, p, i)),
         ('C16: payload and children so far are printed in order', '%s =~= %s + disp(pvl(h0, %s)) + seq![40int, 32int] + list(h0, %s.subrange(0, %s))' % (fed(E, C.a[1]), fed(C, C.old[1]), p, k, i))]
    from specs_rc import hok, rc_ptr
    if r is not None: L.append(('C14: the next child', '(%s) ==> %s && %s == %s[%s]' % (c, hok(E.h2, r), rc_ptr(r), k, i)))
    return L
def rghost(E, what):
    C = E.m.curE; p = rcP(C)
    if what != 'step': E.st.ghost['rseen'] = rseen(E); E.st.ghost['rdrops'] = 0
    if what == 'init': E.st.log.append(('lemma', 'lemma_walking_init(h0, %s, %s)' % (E.h2, p)))
def ra_fmt(E, O):
    if 'rseen' not in E.st.ghost: return []
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O)
    return ['lemma_list_step(h0, h0.kids[%s], %s)' % (p, i), 'lemma_form_frame(h0, %s, %s)' % (E.h, rcP(E)), 'lemma_walked2(h0, %s, %s, %s, %s)' % (E.h, E.h2, p, i)]
def ra_drop(E, O):
    """the child is released; when the formatter failed, so is the iterator"""
    if 'rseen' not in E.st.ghost: return []
    c, r, n, i = E.st.ghost['rseen']; p = rcP(O); d = E.st.ghost['rdrops']; E.st.ghost['rdrops'] = d + 1
    if d == 0: return ['if {n} > 0 {{ lemma_walked3(h0, {h}, {h2}, {p}, {i}); if {i} + 1 < h0.kids[{p}].len() {{ lemma_walking(h0, {h2}, {p}, {i} + 1); }} }}'.format(n=n, h=E.h, h2=E.h2, p=p, i=i)]
    if d == 1: return ['lemma_walk_stopped(h0, %s, %s, %s, %s + 1)' % (E.h, E.h2, p, i)]
    return []
spec('<RcNode as Display>::fmt', variant=('rshow', lambda E: '%s.desc[%s]' % (E.h, rcP(E))), pre=rpre_one, mod=ALLM, props=('C16',), objs=True,
     entry=lambda E: ['lemma_pok(h0, %s)' % rcP(E), 'lemma_node(h0, %s)' % rcP(E), 'lemma_kids_real(h0, %s)' % rcP(E), 'lemma_small(h0, %s)' % rcP(E), 'lemma_kid_room(h0, %s)' % rcP(E), 'lemma_form(h0, %s)' % rcP(E), 'lemma_list_ends(h0, h0.kids[%s])' % rcP(E)],
     post=lambda E: posts(E, 'form(%s, %s)' % (E.h, rcP(E))) + [('C13: the nodes stay as they are', 'same_nodes(%s, %s)' % (E.h, E.h2))] + rkeep(E),
     loops=[LoopSpec(rinv, ghost=rghost, dec=lambda E: rseen(E)[2])], hints={'<IterRc as Iterator>::next': rh_next, '<RcNode as Display>::fmt': rh_rec}, after={'<IterRc as Iterator>::next': ra_next, '<RcNode as Display>::fmt': ra_fmt, 'glue:RcNode': ra_drop})
