"""Contracts: building trees and forests from tuple notation (C10)."""
from exec import *
from specs_core import spec, S
from specs_build import pv, FILL, BUILD
from models import derefall
import re
def tuple_(E, i):
    v = E.a[i] if not E.old else E.old[i]
    if not (isinstance(v, T) and v.sort == 'R'): raise Unsupported('tuple %r' % (v,))
    return render(v)
HIDE = 'arun asafe rz_walk rz_walks rz_ev tfin crose crose1 fin srcok lstarts lsok cinv rep tupled apart'.split()
def construct(key, tree):
    tr, fk = ('true', 'false') if tree else ('false', 'true')
    def ghosts(E):
        E.st.ghost['wit:Tuple'] = E.a[1]
        for f in HIDE: E.st.log.append(('hide', f))
    def V(E): return pv(E, E.old[0] if E.old else E.a[0])
    def pre(E):
        v, w = V(E), tuple_(E, 1)
        return [('the buffer is allocated and empty', '%s.valive[%s] && (forall|p: int| slot(%s, p) ==> #[trigger] blank(%s, p))' % (E.h, v, v, E.h)), ('there is one slot per node', 'nslots(%s) == rz_tot(%s)' % (v, w))]
    def post(E):
        v, w = V(E), tuple_(E, 1)
        return [('C10: the buffer holds the tree denoted: payloads, shape, child order and sizes', 'tupled(%s, %s, %s, %s)' % (E.h2, v, w, tr)), ('C10: nothing else changes', 'apart(%s, %s, %s)' % (E.h, E.h2, v))]
    w = lambda E: tuple_(E.m.curE, 1)
    v = lambda E: V(E.m.curE)
    evs = lambda E: 'tevs(%s, %s)' % (w(E), tr)
    def run(E, k): return 'arun(tstart(%s, %s), %s.subrange(0, %s))' % (w(E), tr, evs(E), k)
    # ---- next free slot of every level
    def offsets(E):
        o = E.local('offsets', lambda t: t[0] == 'adt' and t[1] == 'Vec')
        it = E.local('iter', lambda t: t[0] == 'adt' and t[1] == 'Range')
        lo, hi = render(it.fields[0]), render(it.fields[1])
        return [('C10: the levels passed start where they should', 'if rz_hgt({w}) > 1 {{ {o} =~= Seq::new({lo} as nat, |e: int| lst({w}, e)) }} else {{ {o} =~= Seq::<int>::empty().push(0) && {lo} >= {hi} }}'.format(o=render(o), lo=lo, hi=hi, w=w(E))), ('C10: level by level', '(2 <= {lo} <= {hi} || rz_hgt({w}) <= 1) && {hi} == rz_hgt({w})'.format(lo=lo, hi=hi, w=w(E)))]
    def off_init(E, what):
        if what == 'init': E.m.lemma(E.st, 'lemma_lstarts(%s)' % w(E)); E.m.lemma(E.st, 'assert(lst({0}, 0) == 0); assert(lv({0}, 0) == 1); assert(lst({0}, 1) == lst({0}, 0) + lv({0}, 0))'.format(w(E)))
    def off_body(E):
        lo = render(E.local('iter', lambda t: t[0] == 'adt' and t[1] == 'Range').fields[0])
        return ['if rz_hgt({w}) > 1 {{ lemma_lv_dn({w}, {lo} - 2); assert(lst({w}, {lo}) == lst({w}, {lo} - 1) + lv({w}, {lo} - 1)); lemma_rz_nat({w}, {lo} - 2); }}'.format(w=w(E), lo=lo)]
    def off_dec(E):
        it = E.local('iter', lambda t: t[0] == 'adt' and t[1] == 'Range')
        return '%s - %s' % (render(it.fields[1]), render(it.fields[0]))
    # ---- the visits
    def state(E):
        """what the visiting closure captures, by name"""
        c = derefall(E.m, E.st, E.st.store[('L', E.fr.fid, 1)])[0]
        f = E.m.crate.closure(c.name[8:]); d = []
        for n in (['is_root'] if tree else []) + ['offsets', 'parent', 'depth']:
            g = re.match(r'.*\(\*_1\)\.(\d+):', f.debug.get(n, ''))
            if not g: raise Unsupported('no captured variable %s' % n)
            d.append(derefall(E.m, E.st, c.fields[int(g.group(1))])[0])
        return d
    def rem(E): return render(E.m.norm(E.st.store[('L', E.fr.fid, 2)], ('adt', '@visits')))
    def inv(E):
        r = rem(E); k = '(%s.len() - %s.len())' % (evs(E), r); s = run(E, k)
        d = state(E); o, p, dp = [render(x) for x in d[-3:]]
        L = [('C10: the visits to come are those not made', '0 <= {k} && {r} =~= {e}.subrange({k}, {e}.len() as int)'.format(k=k, r=r, e=evs(E))),
             ('C10: current depth, parent and free slots are those after the visits made', '{o} =~= {s}.off && {p} == {s}.parent && {d} == {s}.depth'.format(o=o, p=p, d=dp, s=s))]
        if tree: L.append(('C10: the root comes first', '%s == %s.root' % (render(d[0]), s)))
        return L + [('C10: the nodes hold what was visited', 'rep(%s, %s, %s.c, %s)' % (E.h2, v(E), s, fk)), ('frame: no payload is dropped', '(forall|q: int| #[trigger] %s.pd[q] == h0.pd[q])' % E.h2), ('C10: nothing else changes', 'apart(h0, %s, %s)' % (E.h2, v(E)))]
    def ghost(E, what):
        L = []; h = E.h2; vv, ww = v(E), w(E)
        if what == 'init':
            L = ['lemma_lstarts(%s)' % ww, 'lemma_%s_run(%s)' % ('tree' if tree else 'forest', ww), 'lemma_run_zero(tstart(%s, %s), %s)' % (ww, tr, evs(E)), 'lemma_blanks(rz_tot(%s))' % ww, 'lemma_rep_blank(h0, %s, blanks(rz_tot(%s)), false)' % (vv, ww)]
            if not tree: L.append('lemma_rep_root(h0, %s, %s, blanks(rz_tot(%s)), slroot(%s), false, true)' % (h, vv, ww, ww))
        elif what == 'havoc':
            E.st.ghost['at'] = h
        else:
            g = E.st.ghost.get('grown')
            if g: L = ['lemma_apart_trans(h0, %s, %s, %s)' % (E.st.ghost['at'], h, vv)]
            elif tree: L = ['if sk.root {{ lemma_rep_root({at}, {h}, {v}, sk.c, slnew(ek, -1, sk.n), false, false); lemma_apart_trans(h0, {at}, {h}, {v}); }}'.format(at=E.st.ghost['at'], h=h, v=vv)]
        for l in L: E.m.lemma(E.st, l)
    def body(E):
        r = rem(E); k = '(%s.len() - %s.len())' % (evs(E), r)
        E.st.log.append(('let', 'sk', run(E, k))); E.st.log.append(('let', 'ek', '%s[%s]' % (evs(E), k)))
        e = evs(E); s0 = 'tstart(%s, %s)' % (w(E), tr)
        return ['lemma_tcons(%s, %s, %s)' % (w(E), tr, k), 'lemma_elems(%s)' % v(E), 'lemma_rep_at(%s, %s, sk.c, 0, %s)' % (E.h2, v(E), fk),
                'if {k} < {e}.len() {{ lemma_run_step({s0}, {e}, {k}); assert({r}[0] == ek); assert({r}.drop_first() =~= {e}.subrange({k} + 1, {e}.len() as int)); }} else {{ assert({e}.subrange(0, {k}) =~= {e}); }}'.format(k=k, e=e, s0=s0, r=r)]
    def before_append(E, O):
        vv = V(O)
        return ['lemma_rep_tail(%s, %s, sk.c, sk.parent, %s)' % (E.h, vv, fk), 'lemma_rep_at({h}, {v}, sk.c, sk.parent, {fk}); lemma_rep_at({h}, {v}, sk.c, sk.off[sk.depth], {fk})'.format(h=E.h, v=vv, fk=fk),
                'assert(elem({v}, sk.parent) != elem({v}, sk.off[sk.depth]))'.format(v=vv)]
    def after_append(E, O):
        E.st.ghost['grown'] = True
        return ['lemma_rep_put(%s, %s, %s, sk.c, sk.parent, sk.off[sk.depth], ek, sk.n, %s)' % (E.h, E.h2, V(O), fk)]
    def end(E):
        C = E.m.curE
        return ['lemma_tupled(%s, %s, %s, %s, arun(tstart(%s, %s), %s))' % (E.h2, v(E), w(E), tr, w(E), tr, evs(E))]
    def entry(E): return ['lemma_lstarts(%s)' % tuple_(E, 1), 'lemma_elems(%s)' % V(E), 'assert(slot({v}, elem({v}, 0))); assert(blank({h}, elem({v}, 0)))'.format(v=V(E), h=E.h)]
    spec(key, ghosts=ghosts, pre=pre, post=post, entry=entry, exit=end, mod=FILL, props=('C10', 'C01', 'C03'),
         loops=[LoopSpec(offsets, ghost=off_init, body=off_body, dec=off_dec)], subloops={'std::visits': [LoopSpec(inv, ghost=ghost, body=body, dec=lambda E: '%s.len()' % rem(E))]},
         hints={'NodeVec::append_child': before_append}, after={'NodeVec::append_child': after_append})
construct('NodeVec::construct_tree', True)
construct('NodeVec::construct_forest', False)
def from_tuple(key, tree):
    tr, fk = ('true', 'false') if tree else ('false', 'true')
    def ghosts(E): E.st.ghost['wit:Tuple'] = E.a[0]
    def pre(E): return [('the structure is well-formed', 'wf(%s)' % E.h), ('accounting holds', 'rel(%s)' % E.h), ('the payloads are objects of their own', 'ownevs(%s, tevs(%s, %s))' % (E.h, tuple_(E, 0), tr))]
    def post(E):
        r = E.ptr_of(E.ret); x = 'own(%s.data[%s])' % (E.h2, r); w = tuple_(E, 0)
        return [('C10: a buffer of its own holds the new nodes, nothing else changes', 'outside(%s, %s, %s)' % (E.h, E.h2, x)),
                ('C10: the root comes first', '%s == elem(%s, 0) && %s.up[%s] is None && %s.alive[%s]' % (r, x, E.h2, r, E.h2, r)),
                ('C10: payloads, shape, child order and sizes are those of the notation', 'isrose(%s, %s, %s, %s)' % (E.h2, r, w, fk)),
                ('C01: all links and sizes consistent', 'wf(%s)' % E.h2), ('C05: accounting holds afterwards', 'rel(%s)' % E.h2)]
    def after_new(E, O):
        E.st.ghost['newbuf'] = pv(E, E.ret), E.h2
        return ['lemma_elems(%s)' % pv(E, E.ret)]
    def after_con(E, O):
        x, g = E.st.ghost['newbuf']; E.st.ghost['built'] = E.h2
        return ['lemma_apart_outside(h0, %s, %s, %s)' % (g, E.h2, x), 'lemma_tupled_wf(h0, %s, %s, %s, %s)' % (E.h2, x, tuple_(O, 0), tr)]
    def end(E):
        x, g = E.st.ghost['newbuf']; b = E.st.ghost['built']; w = tuple_(E, 0); h = E.h2
        L = ['lemma_tupled_wf(h0, %s, %s, %s, %s)' % (b, x, w, tr)]
        if h != b: L += ['assert forall|p: int| #[trigger] same_cell(%s, %s, p) by { }' % (b, h), 'lemma_tupled_same(%s, %s, %s, %s, %s)' % (b, h, x, w, tr), 'lemma_apart_outside(h0, %s, %s, %s)' % (b, h, x), 'lemma_tupled_wf(h0, %s, %s, %s, %s)' % (h, x, w, tr)]
        return L + ['lemma_tupled_rel(h0, %s, %s, %s, %s)' % (h, x, w, tr)]
    spec(key, ghosts=ghosts, pre=pre, post=post, exit=end, mod=BUILD, props=('C10', 'C01', 'C03', 'C05'), after={'NodeVec::new_raw_non_null': after_new, 'NodeVec::construct_' + ('tree' if tree else 'forest'): after_con})
from_tuple('Tree::from_tuple', True)
from_tuple('Forest::from_tuple', False)
