"""Contracts: node.rs, tree.rs, forest.rs, size.rs, heap.rs (links, sizes, edits, release)."""
import re
from exec import *
S = {}
def spec(key, **kw):
    S[key] = Spec(key, **kw)
    return S[key]
def fa(lhs, rhs): return '(forall|q: int| #[trigger] %s == (%s))' % (lhs, rhs)
EDIT = ('prev', 'next', 'head', 'tail', 'up', 'deg', 'desc', 'kids')
isO = lambda t: (t[0] == 'adt' and t[1] == 'Option')
isPtr = lambda t: t[0] == 'ref' or (t[0] == 'adt' and t[1] == 'NonNull')

# ---------------------------------------------------------------- inc_sizes / dec_sizes
def sizes_spec(key, sign):
    def pre(E):
        h, s, d, c = E.h, E.p(0), E.t(E.old[1] if E.old else E.a[1]), E.t(E.old[2] if E.old else E.a[2])
        r = [('the node and its ancestors are live and distinct', 'chain_ok(%s, %s)' % (h, s))]
        if sign == '-':
            r.append(('degree does not underflow', '%s.deg[%s] >= %s' % (h, s, d)))
            r.append(('descendant count does not underflow', '(forall|a: int| #[trigger] anc(%s.up, %s, a) ==> %s.desc[a] >= %s)' % (h, s, h, c)))
        return r
    def post(E):
        h, h2, s, d, c = E.h, E.h2, E.p(0), E.t(E.old[1]), E.t(E.old[2])
        return [('C03: degree of the node changes by the given amount, no other degree', fa(h2 + '.deg[q]', '%s.deg[q] %s bi(q == %s, %s)' % (h, sign, s, d))),
                ('C03: descendant count of the node and of every ancestor changes by the given amount, no other', fa(h2 + '.desc[q]', '%s.desc[q] %s bi(anc(%s.up, %s, q), %s)' % (h, sign, h, s, c)))]
    # the cursor stands for the k-th ancestor: an optional link, or a node that has been dealt with already
    def cursor(E):
        try: return E.t(E.local('node', isO)), E.g['k']
        except Unsupported: pass
        return 'Some(%s)' % E.ptr_of(E.local('node', isPtr)), E.g['k'] if E.g.get('off') else '(%s - 1) as nat' % E.g['k']
    def ghost(E, what):
        if what == 'init':
            E.g['k'] = '1'
            if cursor(E)[0] == 'Some(%s)' % E.t(E.top_arg(0)) and (cursor(E)[1] == '1' or render(E.st.heap['desc']) == 'h0.desc'): E.g['k'] = '0'    # itself is still to come
            E.g['off'] = E.g['k'] == '0'
        elif what == 'havoc': E.g['k'] = 'k_%d' % E.st.nid; E.st.nid += 1; E.st.log.append(('var', E.g['k'], 'nat'))
        else: E.g['k'] = '((%s + 1) as nat)' % E.g['k']
    def inv(E):
        s, d, c = E.t(E.top_arg(0)), E.t(E.top_arg(1)), E.t(E.top_arg(2))
        k1 = E.g['k']; n, kn = cursor(E)
        return [('C03: the cursor climbs the ancestor chain', '%s == nth(h0.up, %s, (%s) as nat)%s' % (n, s, kn, '' if kn == k1 else ' && %s > 0' % k1)),
                ('C03: degree updated once', fa(E.h2 + '.deg[q]', 'h0.deg[q] %s bi(q == %s, %s)' % (sign, s, d))),
                ('C03: descendant counts updated up to the cursor', fa(E.h2 + '.desc[q]', 'h0.desc[q] %s bi(anc_lt(h0.up, %s, q, (%s) as nat), %s)' % (sign, s, k1, c)))]
    def body(E):
        s = E.t(E.top_arg(0)); k1 = '((%s) as nat)' % E.g['k']
        return ['lemma_chain_end(h0, %s, %s)' % (s, k1), 'if %s > 0 { lemma_chain_end(h0, %s, (%s - 1) as nat); }' % (k1, s, k1)] + ['if nth(h0.up, %s, %s) is Some { lemma_anc_lt_step(h0, %s, %s); assert(anc(h0.up, %s, nth(h0.up, %s, %s)->Some_0)); if nth(h0.up, %s, (%s + 1) as nat) is None { lemma_anc_lt_all(h0.up, %s, (%s + 1) as nat); lemma_anc_lt_last(h0, %s, %s); } } else { lemma_anc_lt_all(h0.up, %s, %s); }' % (s, k1, s, k1, s, s, k1, s, k1, s, k1, s, k1, s, k1)]
    spec(key, pre=pre, post=post, mod=('deg', 'desc'), props=('C01', 'C02', 'C03'),
         entry=lambda E: ['lemma_anc_lt_zero(h0.up, %s)' % E.p(0), 'lemma_anc_refl(h0.up, %s)' % E.p(0), 'assert(nth(h0.up, %s, 1) == h0.up[%s]) by { assert(nth(h0.up, %s, 0) == Some(%s)); }' % ((E.p(0),) * 4)],
         loops=[LoopSpec(inv, ghost=ghost, body=body, dec=lambda E: '(memory() + 1 - (%s))' % E.g['k'])],
         title='adds to the degree of a node and the descendant counts of its ancestors' if sign == '+' else 'subtracts')
sizes_spec('Node::inc_sizes', '+')
sizes_spec('Node::dec_sizes', '-')

# ---------------------------------------------------------------- insertion / removal of one tree
def ins_posts(h, h2, s, r, i):
    k = '%s.kids[%s]' % (h, s)
    d = dict(h=h, h2=h2, s=s, r=r, i=i, k=k)
    L = [('C01: parent link of the inserted root', '{h2}.up[q]', 'if q == {r} {{ Some({s}) }} else {{ {h}.up[q] }}'),
         ('C01: first-child link', '{h2}.head[q]', 'if q == {s} && {i} == 0 {{ Some({r}) }} else {{ {h}.head[q] }}'),
         ('C01: last-child link', '{h2}.tail[q]', 'if q == {s} && {i} == {k}.len() {{ Some({r}) }} else {{ {h}.tail[q] }}'),
         ('C01: next links', '{h2}.next[q]', 'if q == {r} {{ oi({i} < {k}.len(), {k}[{i}]) }} else if {i} > 0 && q == {k}[{i} - 1] {{ Some({r}) }} else {{ {h}.next[q] }}'),
         ('C01: prev links', '{h2}.prev[q]', 'if q == {r} {{ oi({i} > 0, {k}[{i} - 1]) }} else if {i} < {k}.len() && q == {k}[{i}] {{ Some({r}) }} else {{ {h}.prev[q] }}'),
         ('C03: degrees', '{h2}.deg[q]', '{h}.deg[q] + bi(q == {s}, 1)'),
         ('C03: descendant counts of all ancestors', '{h2}.desc[q]', '{h}.desc[q] + bi(anc({h}.up, {s}, q), {h}.desc[{r}] + 1)'),
         ('C02: child sequence is the list insertion', '{h2}.kids[q]', 'if q == {s} {{ {k}.insert({i}, {r}) }} else {{ {h}.kids[q] }}')]
    return [(a, fa(b.format(**d), c.format(**d))) for a, b, c in L]
def rem_posts(h, h2, s, i):
    k = '%s.kids[%s]' % (h, s); n = k + '.len()'; r = '%s[%s]' % (k, i)
    d = dict(h=h, h2=h2, s=s, r=r, i=i, k=k, n=n)
    L = [('C01: parent link of the removed root', '{h2}.up[q]', 'if q == {r} {{ None }} else {{ {h}.up[q] }}'),
         ('C01: first-child link', '{h2}.head[q]', 'if q == {s} && {i} == 0 {{ oi({n} > 1, {k}[1]) }} else {{ {h}.head[q] }}'),
         ('C01: last-child link', '{h2}.tail[q]', 'if q == {s} && {i} == {n} - 1 {{ oi({n} > 1, {k}[{n} - 2]) }} else {{ {h}.tail[q] }}'),
         ('C01: next links', '{h2}.next[q]', 'if q == {r} {{ None }} else if {i} > 0 && q == {k}[{i} - 1] {{ oi({i} + 1 < {n}, {k}[{i} + 1]) }} else {{ {h}.next[q] }}'),
         ('C01: prev links', '{h2}.prev[q]', 'if q == {r} {{ None }} else if {i} + 1 < {n} && q == {k}[{i} + 1] {{ oi({i} > 0, {k}[{i} - 1]) }} else {{ {h}.prev[q] }}'),
         ('C03: degrees', '{h2}.deg[q]', '{h}.deg[q] - bi(q == {s}, 1)'),
         ('C03: descendant counts of all ancestors', '{h2}.desc[q]', '{h}.desc[q] - bi(anc({h}.up, {s}, q), {h}.desc[{r}] + 1)'),
         ('C02: child sequence is the list removal', '{h2}.kids[q]', 'if q == {s} {{ {k}.remove({i}) }} else {{ {h}.kids[q] }}')]
    return [(a, fa(b.format(**d), c.format(**d))) for a, b, c in L]
def ins_pre(h, s, r):
    return [('the structure is well-formed', 'wf(%s)' % h), ('the node is live', '%s.alive[%s]' % (h, s)),
            ('the inserted tree is live', '%s.alive[%s]' % (h, r)), ('the inserted tree is a root', '%s.up[%s] is None' % (h, r)),
            ('the inserted tree has a payload', 'real(%s.data[%s])' % (h, r)), ('the inserted tree does not contain the node', '!anc(%s.up, %s, %s)' % (h, s, r))]
def insertion(key, parent, index, entry=None, props=('C01', 'C02', 'C03'), extra=None, hintparent=None, wrap=False):
    """parent(E,h) index(E,h): text"""
    def pre(E): return (extra(E) if extra else []) + ins_pre(E.h, parent(E, E.h), E.p(1))
    def post(E):
        s, i, r = parent(E, E.h), index(E, E.h), E.p(1)
        return ins_posts(E.h, E.h2, s, r, i) + ([] if wrap else [(LEMMA, 'lemma_ins(%s, %s, %s, %s, %s)' % (E.h, E.h2, s, r, i))]) + [('C01: all links and sizes consistent afterwards', 'wf(%s)' % E.h2)]
    def ghost(E):
        s, i, r = parent(E, E.h), index(E, E.h), E.p(1)
        return {'kids': '%s.kids.insert(%s, %s.kids[%s].insert(%s, %s))' % (E.h2, s, E.h2, s, i, r)}
    def ent(E):
        s = parent(E, E.h)
        return ['lemma_node(h0, %s)' % s, 'lemma_node(h0, %s)' % E.p(1), 'lemma_anc_refl(h0.up, %s)' % s] + (entry(E) if entry else [])
    spec(key, pre=pre, post=post, mod=EDIT, ghost=None if wrap else ghost, entry=None if wrap else ent, props=props, inline=wrap,
         hints={'Node::inc_sizes': lambda E, O: ['lemma_chain_frame(%s, %s, %s, %s)' % (O.h, E.h, parent(O, O.h), O.p(1))]})

def opt(E, v):
    """(is-some text, payload pointer text or None) of an optional tree / node value"""
    v = E.m.norm(v, ('param', '?'))
    if isinstance(v, Agg) and v.name == 'Option':
        return ('true', E.ptr_of(v.fields[0])) if v.variant == 'Some' else ('false', None)
    if isinstance(v, SymEnum): return ('%s == 1' % render(v.tag), E.ptr_of(v.variants['Some'][0]))
    if isinstance(v, T) and v.sort == 'O': return (render(is_some(v)), render(unwrap(v)))
    raise Unsupported('optional value %r' % (v,))
def ret_opt(E, lab, cond, ptr):
    """the optional result is Some(ptr) exactly if cond"""
    c, p = opt(E, E.ret)
    r = [(lab + ' (returned or not)', '(%s) == (%s)' % (c, cond))]
    if p is not None: r.append((lab + ' (which)', '(%s) ==> %s == %s' % (c, p, ptr)))
    return r
def removal(key, parent, index, cond=None, pre=None, entry=None, props=('C01', 'C02', 'C03'), ret=None, wrap=False):
    """cond(E): text deciding whether something is removed (None: always)"""
    def prec(E): return (pre(E) if pre else []) + [('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))]
    def post(E):
        s, i = parent(E, E.h), index(E, E.h)
        L = rem_posts(E.h, E.h2, s, i)
        lem = 'lemma_rem(%s, %s, %s, %s)' % (E.h, E.h2, s, i)
        c = cond(E) if cond else None
        if c:
            L = [(a, re.sub(r'^\(forall\|q: int\| #\[trigger\] (\S+)\[q\] == \((.*)\)\)$', lambda m: '(forall|q: int| #[trigger] %s[q] == (if %s { %s } else { %s.%s[q] }))' % (m.group(1), c, m.group(2), E.h, m.group(1).split('.')[-1]), b)) for a, b in L]
            lem = 'if %s { %s; } else { lemma_wf_same(%s, %s); }' % (c, lem, E.h, E.h2)
        return L + ([] if wrap else [(LEMMA, lem)]) + [('C01: all links and sizes consistent afterwards', 'wf(%s)' % E.h2)] + ret(E, s, i)
    def ghost(E):
        s, i = parent(E, E.h), index(E, E.h)
        g = '%s.kids.insert(%s, %s.kids[%s].remove(%s))' % (E.h2, s, E.h2, s, i)
        return {'kids': 'if %s { %s } else { %s.kids }' % (cond(E), g, E.h2) if cond else g}
    def ent(E):
        s = parent(E, E.h)
        return (entry(E) if entry else []) + ['lemma_node(h0, %s)' % s, 'lemma_anc_refl(h0.up, %s)' % s, 'if h0.kids[{0}].len() > 0 {{ lemma_kid2(h0, {0}, 0); lemma_kid2(h0, {0}, h0.kids[{0}].len() - 1); }}'.format(s)]
    spec(key, pre=prec, post=post, mod=EDIT, ghost=None if wrap else ghost, entry=None if wrap else ent, props=props, inline=wrap,
         hints={'Node::dec_sizes': lambda E, O: ['lemma_chain_frame(%s, %s, %s, %s.kids[%s][%s])' % (O.h, E.h, parent(O, O.h), O.h, parent(O, O.h), index(O, O.h))]})
nonempty = lambda E: '%s.kids[%s].len() > 0' % (E.h, E.p(0))
def pop_ret(E, s, i): return ret_opt(E, 'C02: the removed tree is returned', nonempty(E), '%s.kids[%s][%s]' % (E.h, s, i))
removal('Node::pop_front', lambda E, h: E.p(0), lambda E, h: '0int', nonempty, ret=pop_ret)
removal('Node::pop_back', lambda E, h: E.p(0), lambda E, h: '(%s.kids[%s].len() - 1)' % (h, E.p(0)), nonempty, ret=pop_ret)
removal('Node::detach', lambda E, h: '%s.up[%s]->Some_0' % (h, E.p(0)), lambda E, h: 'posn(%s, %s)' % (h, E.p(0)),
        pre=lambda E: [('the node has a parent', '%s.up[%s] is Some' % (E.h, E.p(0))), ('the node has a payload', 'real(%s.data[%s])' % (E.h, E.p(0)))],
        entry=lambda E: ['lemma_posn(h0, %s)' % E.p(0), 'lemma_kid2(h0, h0.up[%s]->Some_0, posn(h0, %s))' % (E.p(0), E.p(0))],
        ret=lambda E, s, i: [('C02: the detached tree is returned', '%s == %s' % (E.ptr_of(E.ret), E.p(0)))])
insertion('Node::push_back', lambda E, h: E.p(0), lambda E, h: '(%s.kids[%s].len() as int)' % (h, E.p(0)))
insertion('Node::push_front', lambda E, h: E.p(0), lambda E, h: '0int')
sib_pre = lambda E: [('the node has a parent', '%s.up[%s] is Some' % (E.h, E.p(0))), ('the structure is well-formed', 'wf(%s)' % E.h), ('the node is live', '%s.alive[%s]' % (E.h, E.p(0)))]
insertion('Node::insert_prev_sib', lambda E, h: '%s.up[%s]->Some_0' % (h, E.p(0)), lambda E, h: 'posn(%s, %s)' % (h, E.p(0)), extra=sib_pre, entry=lambda E: ['lemma_posn(h0, %s)' % E.p(0)])
insertion('Node::insert_next_sib', lambda E, h: '%s.up[%s]->Some_0' % (h, E.p(0)), lambda E, h: '(posn(%s, %s) + 1)' % (h, E.p(0)), extra=sib_pre, entry=lambda E: ['lemma_posn(h0, %s)' % E.p(0)])

# the same operations called through the owning types
for o in ('Tree', 'Forest'):
    insertion(o + '::push_back', lambda E, h: E.p(0), lambda E, h: '(%s.kids[%s].len() as int)' % (h, E.p(0)), wrap=True)
    insertion(o + '::push_front', lambda E, h: E.p(0), lambda E, h: '0int', wrap=True)
    removal(o + '::pop_front', lambda E, h: E.p(0), lambda E, h: '0int', nonempty, ret=pop_ret, wrap=True)
    removal(o + '::pop_back', lambda E, h: E.p(0), lambda E, h: '(%s.kids[%s].len() - 1)' % (h, E.p(0)), nonempty, ret=pop_ret, wrap=True)
