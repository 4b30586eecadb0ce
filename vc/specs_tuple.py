"""Contracts: tuple notation (C11)."""
from exec import *
from specs_core import spec, S
from specs_cmp import fed
ARITIES = range(33)
MODS = ('core', 'tuple')
def log_(E, v):
    if isinstance(v, Ref): v = E.m.read(E.st, v.loc)
    if not (isinstance(v, T) and v.sort == 'S:TEv'): raise Unsupported('visitor %r' % (v,))
    return render(v)
def kids(ws): return 'Seq::<Rose>::empty()' + ''.join('.push(%s)' % w for w in ws)
def size(E, v):
    if not (isinstance(v, Agg) and v.name == 'Size'): raise Unsupported('size %r' % (v,))
    d = {n: render(x) for (n, _), x in zip(E.m.decls.structs['Size'][1], v.fields)}
    return d['degree'], d['descendants']
def rose(E, data, ws):
    """names the value denoted and its list of children, prefix by prefix"""
    st = E.st; E.g['ws'] = ws
    st.log.append(('let', 'k0', 'Seq::<Rose>::empty()')); st.log.append(('lemma', 'lemma_rz_empty()'))
    for i, w in enumerate(ws): st.log.append(('let', 'k%d' % (i + 1), 'k%d.push(%s)' % (i, w)))
    st.log.append(('let', 'me', 'Rose{data: %s, kids: k%d}' % (data, len(ws))))
    for i, w in enumerate(ws): st.log.append(('lemma', 'lemma_rz_push(k%d, %s)' % (i, w)))
    st.ghost['self'] = 'me'
def static(tr, n):
    lo = 1 if tr == 'TupleTree' else 0
    def ghosts(E):
        from models import witness
        rose(E, render(E.fresh('V', 'root')), [witness(E.m, E.st, 'T%d' % (i + lo)) for i in range(n)])
    return ghosts
def ofself(tr, n):
    lo = 1 if tr == 'TupleTree' else 0
    def ghosts(E):
        f = E.a[0].fields
        for i in range(n): E.st.ghost['wit:T%d' % (i + lo)] = f[i + lo]
        rose(E, render(f[0]) if lo else '0', [render(f[i + lo]) for i in range(n)])
    return ghosts
def leaf(E):
    rose(E, render(E.a[0]) if E.a and isinstance(E.a[0], T) and E.a[0].sort == 'V' else render(E.fresh('V', 'root')), [])
def family(prefix, ghosts_s, ghosts_v, forest):
    P = ('C11', 'C10')
    def size_post(E):
        d, s = size(E, E.ret)
        return [('C11: the degree is the number of children', '%s == me.kids.len()' % d), ('C11: the descendants are counted', '%s == rz_tots(me.kids)' % s)]
    spec(prefix + 'SIZE', ghosts=ghosts_s, post=size_post, props=P, mods=MODS)
    spec(prefix + 'descendants', ghosts=ghosts_s, post=lambda E: [('C11: the descendants of the level are counted', '%s == rz_dn(me, %s)' % (render(E.ret), render(E.a[0])))], props=P, mods=MODS,
         entry=lambda E: ['lemma_rz_dns(k%d, %s, %s - 1)' % (i, w, render(E.a[0])) for i, w in enumerate(E.g['ws'])])
    spec(prefix + 'height', ghosts=ghosts_s, post=lambda E: [('C11: the levels are counted', '%s == %s' % (render(E.ret), 'rz_hgts(me.kids)' if forest else 'rz_hgt(me)'))], props=P, mods=MODS, entry=lambda E: ['lemma_rz_nats(me.kids, 0)'])
    for nm, pre in (('preorder', 'true'), ('postorder', 'false')):
        for hint in ('false', 'true'):
            def post(E, pre=pre, hint=hint):
                want = 'rz_walks(%s, %s, me.kids)' % (pre, hint) if forest else 'rz_walk(%s, %s, me)' % (pre, hint)
                return [('C11: the visits presented are those of the traversal, in order', '%s =~= %s + %s' % (log_(E, E.a[1]), log_(E, E.old[1]), want))]
            def exit(E, pre=pre, hint=hint):
                """one step per component visited"""
                L = []; k = 0; base = None
                for w, a, b in E.st.ghost.get('visits', ()):
                    if w is None: continue
                    if base is None: base = a
                    L.append('let q%d = %s' % (k, 'Seq::<Rose>::empty()' if k == 0 else 'q%d.push(%s)' % (k - 1, last)))
                    L.append('lemma_rz_walk(%s, %s, q%d, %s, %s, %s, %s)' % (pre, hint, k, w, base, a, b)); k += 1; last = w
                if base: L.insert(0, 'assert(%s =~= %s + rz_walks(%s, %s, Seq::<Rose>::empty()))' % (base, base, pre, hint))
                return L
            spec(prefix + nm + ('_with_size_hint' if hint == 'true' else ''), ghosts=ghosts_v, post=post, exit=exit, props=P, mods=MODS)
family('<T as TupleTree>::', leaf, leaf, False)
for _n in ARITIES:
    for _t in ('TupleTree', 'TupleForest'): family('%s#%d::' % (_t, _n), static(_t, _n), ofself(_t, _n), _t == 'TupleForest')
