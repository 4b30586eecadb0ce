"""writes replay/src/tuples_gen.rs: the tuple shapes exercised"""
import random
random.seed(7)
def trees(n):
    return [('t', k) for k in forests(n - 1)]
def forests(n):
    if n == 0: return [()]
    return [(t,) + f for i in range(1, n + 1) for t in trees(i) for f in forests(n - i)]
def size(t): return 1 + sum(size(c) for c in t[1])
def rand(n, deep):
    nodes = [[]]
    for i in range(1, n):
        p = random.choice(nodes[-2:]) if random.random() < deep else random.choice(nodes)
        x = []; p.append(x); nodes.append(x)
    def c(x): return ('t', tuple(c(y) for y in x))
    return c(nodes[0])
T = []; F = []
for n in range(1, 6): T += trees(n)
for n in range(0, 5): F += forests(n)
for n in (6, 7, 8, 10, 12, 14, 16, 20):
    for d in (0.2, 0.6, 0.9): T.append(rand(n, d)); F.append(rand(n, d)[1])
leaf = ('t', ()); two = ('t', (leaf, leaf)); one = ('t', (('t', (leaf,)),))
for a in range(1, 33):
    k = [leaf] * a; T.append(('t', tuple(k))) if a <= 32 else None; F.append(tuple(k))
    k[random.randrange(a)] = two; k[a // 2] = one; F.append(tuple(k)); 
    if a <= 32: k[-1] = two; T.append(('t', tuple(k)))
def uniq(l):
    s = []; 
    for x in l:
        if x not in s: s.append(x)
    return s
T = uniq(T); F = uniq([f for f in F if len(f) <= 32]); T = [t for t in T if len(t[1]) <= 32]
def expr(t, ctr, paren):
    v = ctr[0]; ctr[0] += 1
    if not t[1]: return 'P::new(%d)' % v if not paren else '(P::new(%d),)' % v
    return '(P::new(%d), %s,)' % (v, ', '.join(expr(c, ctr, paren and random.random() < .3) for c in t[1]))
def mod(t, ctr):
    v = ctr[0]; ctr[0] += 1
    return 'M { v: %d, k: vec![%s] }' % (v, ', '.join(mod(c, ctr) for c in t[1]))
L = ['//! generated by tools/mktuples.py', 'use crate::model::M; use crate::track::P; use crate::tuples::{forest, tree}; use crate::{Ch, R};']
arms = []
i = 0
for t in T:
    for paren in ((False, True) if size(t) <= 6 else (False,)):
        e = expr(t, [0], paren)
        if not t[1] and not paren: continue
        L.append('fn s%d(ch: &mut Ch, p: &str) -> R { tree(ch, p, &%s, || %s) }' % (i, mod(t, [0]), e)); arms.append('s%d' % i); i += 1
for f in F:
    c = [0]; e = '(%s)' % ''.join(expr(t, c, False) + ', ' for t in f) if f else '()'
    c = [0]; m = 'vec![%s]' % ', '.join(mod(t, c) for t in f)
    L.append('fn s%d(ch: &mut Ch, p: &str) -> R { let k: Vec<M> = %s; forest(ch, p, &k, || %s) }' % (i, m, e)); arms.append('s%d' % i); i += 1
L.append('const ALL: &[fn(&mut Ch, &str) -> R] = &[%s];' % ', '.join(arms))
L.append('pub fn dispatch(ch: &mut Ch, p: &str) -> R { let i = ch.n(ALL.len()); ALL[i](ch, p) }')
open('/verif/replay/src/tuples_gen.rs', 'w').write('\n'.join(L) + '\n')
print(i, 'shapes')
