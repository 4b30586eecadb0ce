// Heap model and well-formedness.  P (node pointers), PV (node buffers) and V (payload objects)
// are integers.  See DESIGN.md.
pub enum D { None, ScatteredNone{owner: int}, Scattered{data: int, owner: int}, PiledNone{owner: int}, Piled{data: int, owner: int} }
pub struct Nd { pub node: Option<int>, pub sentinel: Option<int> }
pub struct H {
    pub prev: Map<int, Option<int>>, pub next: Map<int, Option<int>>, pub head: Map<int, Option<int>>, pub tail: Map<int, Option<int>>,
    pub up: Map<int, Option<int>>, pub deg: Map<int, int>, pub desc: Map<int, int>, pub data: Map<int, D>, pub alive: Map<int, bool>,
    pub cnt: Map<int, int>, pub wk: Map<int, int>, pub vref: Map<int, int>, pub valive: Map<int, bool>,
    pub pd: Map<int, int>, pub vlive: Map<int, Set<int>>, pub kids: Map<int, Seq<int>>,
}
pub open spec fn real(d: D) -> bool { d is Scattered || d is Piled }
pub open spec fn fake(d: D) -> bool { d is ScatteredNone || d is PiledNone }
pub open spec fn piled(d: D) -> bool { d is PiledNone || d is Piled }
pub open spec fn pay(d: D) -> int { match d { D::Scattered{data, ..} => data, D::Piled{data, ..} => data, _ => -1 } }
pub open spec fn own(d: D) -> int { match d { D::Scattered{owner, ..} => owner, D::ScatteredNone{owner} => owner, D::Piled{owner, ..} => owner, D::PiledNone{owner} => owner, _ => -1 } }
pub open spec fn oi(b: bool, x: int) -> Option<int> { if b { Some(x) } else { None } }
pub open spec fn bi(b: bool, x: int) -> int { if b { x } else { 0 } }

// ------------------------------------------------ sizes
pub open spec fn sumd(desc: Map<int, int>, s: Seq<int>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sumd(desc, s.drop_last()) + desc[s.last()] + 1 }
}
// ------------------------------------------------ ancestors
pub open spec fn nth(up: Map<int, Option<int>>, n: int, j: nat) -> Option<int> decreases j {
    if j == 0 { Some(n) } else { match nth(up, n, (j - 1) as nat) { None => None, Some(q) => up[q] } }
}
/// a is n or an ancestor of n
pub open spec fn anc(up: Map<int, Option<int>>, n: int, a: int) -> bool { exists|j: nat| #[trigger] nth(up, n, j) == Some(a) }
/// allocated nodes are finitely many: each has a number below a fixed bound
pub uninterp spec fn memory() -> nat;
pub open spec fn inmem(p: int) -> bool { 0 <= p < memory() }
pub open spec fn chain_ok(h: H, n: int) -> bool {
    (forall|j: nat| (#[trigger] nth(h.up, n, j)) is Some ==> h.alive[nth(h.up, n, j)->Some_0] && inmem(nth(h.up, n, j)->Some_0))
    && (forall|i: nat, j: nat| i < j && (#[trigger] nth(h.up, n, i)) is Some && (#[trigger] nth(h.up, n, j)) is Some ==> nth(h.up, n, i) != nth(h.up, n, j))
}
// ------------------------------------------------ well-formedness
pub open spec fn wf_kid(h: H, p: int, i: int) -> bool {
    let k = h.kids[p]; let c = k[i];
    h.alive[c] && h.up[c] == Some(p) && real(h.data[c])
    && h.prev[c] == oi(i > 0, k[i - 1]) && h.next[c] == oi(i + 1 < k.len(), k[i + 1])
}
pub open spec fn wf_up(h: H, p: int) -> bool {
    match h.up[p] { None => h.prev[p] is None && h.next[p] is None, Some(q) => h.alive[q] && h.kids[q].contains(p) }
}
pub open spec fn wf_node(h: H, p: int) -> bool {
    let k = h.kids[p];
    &&& h.deg[p] == k.len()
    &&& h.desc[p] == sumd(h.desc, k) && h.desc[p] >= 0
    &&& h.head[p] == oi(k.len() > 0, k[0])
    &&& h.tail[p] == oi(k.len() > 0, k[k.len() - 1])
    &&& k.no_duplicates()
    &&& wf_up(h, p)
    &&& inmem(p)
}
pub open spec fn wf(h: H) -> bool {
    (forall|p: int| h.alive[p] ==> #[trigger] wf_node(h, p))
    && (forall|p: int, i: int| h.alive[p] && 0 <= i < h.kids[p].len() ==> #[trigger] wf_kid(h, p, i))
}
// ------------------------------------------------ lemmas
pub proof fn lemma_sumd_ext(d1: Map<int, int>, d2: Map<int, int>, s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> d1[#[trigger] s[i]] == d2[s[i]]
    ensures sumd(d1, s) == sumd(d2, s)
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies d1[#[trigger] s.drop_last()[i]] == d2[s.drop_last()[i]] by { assert(s.drop_last()[i] == s[i]); } lemma_sumd_ext(d1, d2, s.drop_last()); assert(s.last() == s[s.len() - 1]); } }
pub open spec fn nneg(d: Map<int, int>, s: Seq<int>) -> bool { forall|j: int| 0 <= j < s.len() ==> d[#[trigger] s[j]] >= 0 }
pub proof fn lemma_sumd_len(d: Map<int, int>, s: Seq<int>)
    requires nneg(d, s)
    ensures sumd(d, s) >= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let l = s[s.len() - 1];
        assert(nneg(d, t)) by { assert forall|j: int| 0 <= j < t.len() implies d[#[trigger] t[j]] >= 0 by { assert(t[j] == s[j]); assert(d[s[j]] >= 0); } }
        lemma_sumd_len(d, t);
        assert(d[l] >= 0);
        assert(s.last() == l);
        assert(sumd(d, s) == sumd(d, t) + d[l] + 1);
    }
}
pub proof fn lemma_sumd_ge1(d: Map<int, int>, s: Seq<int>, i: int)
    requires 0 <= i < s.len(), nneg(d, s)
    ensures sumd(d, s) >= d[s[i]] + 1
    decreases s.len()
{
    let t = s.drop_last(); let l = s[s.len() - 1];
    assert(nneg(d, t)) by { assert forall|j: int| 0 <= j < t.len() implies d[#[trigger] t[j]] >= 0 by { assert(t[j] == s[j]); assert(d[s[j]] >= 0); } }
    assert(d[l] >= 0);
    assert(s.last() == l);
    assert(sumd(d, s) == sumd(d, t) + d[l] + 1);
    lemma_sumd_len(d, t);
    if i < s.len() - 1 { lemma_sumd_ge1(d, t, i); assert(t[i] == s[i]); } else { assert(s[i] == l); }
}
pub proof fn lemma_sumd_ge(d: Map<int, int>, s: Seq<int>, i: int)
    requires 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() ==> d[#[trigger] s[j]] >= 0
    ensures sumd(d, s) >= d[s[i]] + 1, sumd(d, s) >= s.len()
{ assert(nneg(d, s)); lemma_sumd_len(d, s); lemma_sumd_ge1(d, s, i); }
pub proof fn lemma_sumd_cat(d: Map<int, int>, a: Seq<int>, b: Seq<int>)
    ensures sumd(d, a + b) == sumd(d, a) + sumd(d, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sumd_cat(d, a, b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_sumd_one(d: Map<int, int>, x: int) ensures sumd(d, seq![x]) == d[x] + 1
{ assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(sumd(d, seq![x].drop_last()) == 0); }
pub proof fn lemma_sumd_insert(d: Map<int, int>, s: Seq<int>, i: int, x: int)
    requires 0 <= i <= s.len()
    ensures sumd(d, s.insert(i, x)) == sumd(d, s) + d[x] + 1
{
    let a = s.subrange(0, i); let b = s.subrange(i, s.len() as int);
    assert(s.insert(i, x) =~= (a + seq![x]) + b); assert(s =~= a + b);
    lemma_sumd_cat(d, a + seq![x], b); lemma_sumd_cat(d, a, seq![x]); lemma_sumd_cat(d, a, b); lemma_sumd_one(d, x);
}
pub proof fn lemma_sumd_remove(d: Map<int, int>, s: Seq<int>, i: int)
    requires 0 <= i < s.len()
    ensures sumd(d, s) == sumd(d, s.remove(i)) + d[s[i]] + 1
{ assert(s =~= s.remove(i).insert(i, s[i])); lemma_sumd_insert(d, s.remove(i), i, s[i]); }
/// one element's value changed by e
pub proof fn lemma_sumd_bump(d1: Map<int, int>, d2: Map<int, int>, s: Seq<int>, i: int, e: int)
    requires 0 <= i < s.len(), s.no_duplicates(), d2[s[i]] == d1[s[i]] + e, forall|j: int| 0 <= j < s.len() && j != i ==> d2[#[trigger] s[j]] == d1[s[j]]
    ensures sumd(d2, s) == sumd(d1, s) + e
{
    let t = s.remove(i);
    lemma_sumd_remove(d1, s, i); lemma_sumd_remove(d2, s, i);
    assert forall|j: int| 0 <= j < t.len() implies d1[#[trigger] t[j]] == d2[t[j]] by { if j < i { assert(t[j] == s[j]); } else { assert(t[j] == s[j + 1]); } }
    lemma_sumd_ext(d1, d2, t);
}
// --- ancestor lemmas
pub proof fn lemma_nth_add(up: Map<int, Option<int>>, n: int, m: int, i: nat, j: nat)
    requires nth(up, n, i) == Some(m)
    ensures nth(up, n, i + j) == nth(up, m, j)
    decreases j
{ if j > 0 { lemma_nth_add(up, n, m, i, (j - 1) as nat); } }
pub proof fn lemma_anc_refl(up: Map<int, Option<int>>, n: int) ensures anc(up, n, n)
{ assert(nth(up, n, 0) == Some(n)); }
pub proof fn lemma_anc_trans(up: Map<int, Option<int>>, n: int, m: int, a: int)
    requires anc(up, n, m), anc(up, m, a) ensures anc(up, n, a)
{
    let i = choose|j: nat| #[trigger] nth(up, n, j) == Some(m); let j = choose|j: nat| #[trigger] nth(up, m, j) == Some(a);
    lemma_nth_add(up, n, m, i, j); assert(nth(up, n, i + j) == Some(a));
}
/// unfolding: ancestors of n are n and the ancestors of its parent
pub proof fn lemma_anc_unfold(up: Map<int, Option<int>>, n: int)
    ensures forall|a: int| #[trigger] anc(up, n, a) <==> (a == n || (up[n] is Some && anc(up, up[n]->Some_0, a)))
{
    assert forall|a: int| #[trigger] anc(up, n, a) implies (a == n || (up[n] is Some && anc(up, up[n]->Some_0, a))) by {
        let i = choose|j: nat| #[trigger] nth(up, n, j) == Some(a);
        if i > 0 {
            lemma_nth_prefix(up, n, i, 1);
            let q = nth(up, n, 1)->Some_0;
            assert(nth(up, n, 0) == Some(n));
            lemma_nth_add(up, n, q, 1, (i - 1) as nat);
            assert(nth(up, q, (i - 1) as nat) == Some(a));
        }
    }
    assert forall|a: int| (a == n || (up[n] is Some && anc(up, up[n]->Some_0, a))) implies #[trigger] anc(up, n, a) by {
        if a == n { assert(nth(up, n, 0) == Some(n)); }
        else {
            let q = up[n]->Some_0;
            let i = choose|j: nat| #[trigger] nth(up, q, j) == Some(a);
            assert(nth(up, n, 0) == Some(n));
            assert(nth(up, n, 1) == Some(q));
            lemma_nth_add(up, n, q, 1, i);
            assert(nth(up, n, 1 + i) == Some(a));
        }
    }
}
pub proof fn lemma_nth_prefix(up: Map<int, Option<int>>, n: int, i: nat, k: nat)
    requires nth(up, n, i) is Some, k <= i ensures nth(up, n, k) is Some
    decreases i
{ if k < i { lemma_nth_prefix(up, n, (i - 1) as nat, k); } }
/// chains do not see changes outside of them
pub proof fn lemma_nth_frame(u1: Map<int, Option<int>>, u2: Map<int, Option<int>>, n: int, j: nat)
    requires forall|a: int| #[trigger] anc(u1, n, a) ==> u2[a] == u1[a]
    ensures nth(u1, n, j) == nth(u2, n, j)
    decreases j
{ if j > 0 { lemma_nth_frame(u1, u2, n, (j - 1) as nat); if nth(u1, n, (j - 1) as nat) is Some { assert(anc(u1, n, nth(u1, n, (j - 1) as nat)->Some_0)); } } }
pub proof fn lemma_anc_frame(u1: Map<int, Option<int>>, u2: Map<int, Option<int>>, n: int)
    requires forall|a: int| #[trigger] anc(u1, n, a) ==> u2[a] == u1[a]
    ensures forall|j: nat| #[trigger] nth(u1, n, j) == nth(u2, n, j), forall|a: int| #[trigger] anc(u1, n, a) == anc(u2, n, a)
{
    assert forall|j: nat| #[trigger] nth(u1, n, j) == nth(u2, n, j) by { lemma_nth_frame(u1, u2, n, j); }
    assert forall|a: int| #[trigger] anc(u1, n, a) == anc(u2, n, a) by {
        if anc(u1, n, a) { let j = choose|j: nat| #[trigger] nth(u1, n, j) == Some(a); assert(nth(u2, n, j) == Some(a)); }
        if anc(u2, n, a) { let j = choose|j: nat| #[trigger] nth(u2, n, j) == Some(a); assert(nth(u1, n, j) == Some(a)); }
    }
}
/// in a well-formed heap, an alive node's parent has strictly more descendants
pub proof fn lemma_up_desc(h: H, p: int)
    requires wf(h), h.alive[p], h.up[p] is Some
    ensures h.alive[h.up[p]->Some_0], h.desc[h.up[p]->Some_0] >= h.desc[p] + 1, h.desc[p] >= 0
{
    let q = h.up[p]->Some_0;
    assert(wf_node(h, p)); assert(wf_node(h, q));
    let i = choose|i: int| 0 <= i < h.kids[q].len() && h.kids[q][i] == p;
    assert forall|j: int| 0 <= j < h.kids[q].len() implies h.desc[#[trigger] h.kids[q][j]] >= 0 by { assert(wf_kid(h, q, j)); assert(wf_node(h, h.kids[q][j])); }
    lemma_sumd_ge(h.desc, h.kids[q], i);
}
pub proof fn lemma_nth_alive(h: H, n: int, j: nat)
    requires wf(h), h.alive[n], nth(h.up, n, j) is Some
    ensures h.alive[nth(h.up, n, j)->Some_0], h.desc[nth(h.up, n, j)->Some_0] >= h.desc[n] + j
    decreases j
{
    if j > 0 {
        lemma_nth_prefix(h.up, n, j, (j - 1) as nat);
        lemma_nth_alive(h, n, (j - 1) as nat);
        lemma_up_desc(h, nth(h.up, n, (j - 1) as nat)->Some_0);
    }
}
pub proof fn lemma_chain_ok(h: H, n: int)
    requires wf(h), h.alive[n]
    ensures chain_ok(h, n),
        forall|a: int| #[trigger] anc(h.up, n, a) ==> h.alive[a] && h.desc[a] >= h.desc[n] && (a != n ==> h.desc[a] > h.desc[n])
{
    assert forall|j: nat| (#[trigger] nth(h.up, n, j)) is Some implies h.alive[nth(h.up, n, j)->Some_0] && inmem(nth(h.up, n, j)->Some_0) by { lemma_nth_alive(h, n, j); assert(wf_node(h, nth(h.up, n, j)->Some_0)); }
    assert forall|i: nat, j: nat| i < j && (#[trigger] nth(h.up, n, i)) is Some && (#[trigger] nth(h.up, n, j)) is Some implies nth(h.up, n, i) != nth(h.up, n, j) by {
        let m = nth(h.up, n, i)->Some_0;
        lemma_nth_alive(h, n, i);
        lemma_nth_add(h.up, n, m, i, (j - i) as nat);
        lemma_nth_alive(h, m, (j - i) as nat);
    }
    assert forall|a: int| #[trigger] anc(h.up, n, a) implies h.alive[a] && h.desc[a] >= h.desc[n] && (a != n ==> h.desc[a] > h.desc[n]) by {
        let j = choose|j: nat| #[trigger] nth(h.up, n, j) == Some(a);
        lemma_nth_alive(h, n, j);
    }
}
/// chains end: there are only finitely many nodes
pub open spec fn upset(up: Map<int, Option<int>>, n: int, j: nat) -> Set<int> decreases j { if j == 0 { Set::empty() } else { upset(up, n, (j - 1) as nat).insert(nth(up, n, (j - 1) as nat)->Some_0) } }
pub proof fn lemma_upset(h: H, n: int, j: nat)
    requires chain_ok(h, n), j > 0 ==> nth(h.up, n, (j - 1) as nat) is Some
    ensures upset(h.up, n, j).finite(), upset(h.up, n, j).len() == j, forall|a: int| #[trigger] upset(h.up, n, j).contains(a) ==> inmem(a) && exists|i: nat| i < j && #[trigger] nth(h.up, n, i) == Some(a)
    decreases j
{
    if j > 0 {
        let k = (j - 1) as nat; let x = nth(h.up, n, k)->Some_0;
        if k > 0 { lemma_nth_prefix(h.up, n, k, (k - 1) as nat); }
        lemma_upset(h, n, k);
        if upset(h.up, n, k).contains(x) { let i = choose|i: nat| i < k && #[trigger] nth(h.up, n, i) == Some(x); assert(nth(h.up, n, i) != nth(h.up, n, k)); }
        assert forall|a: int| #[trigger] upset(h.up, n, j).contains(a) implies inmem(a) && exists|i: nat| i < j && #[trigger] nth(h.up, n, i) == Some(a) by {
            if a == x { assert(nth(h.up, n, k) == Some(a)); } else { assert(upset(h.up, n, k).contains(a)); let i = choose|i: nat| i < k && #[trigger] nth(h.up, n, i) == Some(a); assert(i < j); }
        }
    }
}
pub open spec fn memset(m: nat) -> Set<int> decreases m { if m == 0 { Set::empty() } else { memset((m - 1) as nat).insert(m - 1) } }
pub proof fn lemma_memset(m: nat)
    ensures memset(m).finite(), memset(m).len() == m, forall|a: int| #[trigger] memset(m).contains(a) <==> 0 <= a < m
    decreases m
{ if m > 0 { lemma_memset((m - 1) as nat); } }
pub proof fn lemma_chain_end(h: H, n: int, j: nat)
    requires chain_ok(h, n)
    ensures nth(h.up, n, j) is Some ==> j < memory()
{
    if nth(h.up, n, j) is Some {
        assert(nth(h.up, n, ((j + 1) - 1) as nat) is Some);
        lemma_upset(h, n, j + 1); lemma_memset(memory());
        assert(upset(h.up, n, j + 1).subset_of(memset(memory())));
        vstd::set_lib::lemma_len_subset(upset(h.up, n, j + 1), memset(memory()));
    }
}
/// what a call of inc_sizes/dec_sizes at s needs, after up changed only at r (not an ancestor of s)
pub proof fn lemma_chain_frame(h: H, g: H, s: int, r: int)
    requires wf(h), h.alive[s], !anc(h.up, s, r), g.alive == h.alive, forall|q: int| q != r ==> #[trigger] g.up[q] == h.up[q]
    ensures chain_ok(g, s), forall|a: int| #[trigger] anc(g.up, s, a) == anc(h.up, s, a),
        forall|a: int| #[trigger] anc(h.up, s, a) ==> h.alive[a] && h.desc[a] >= h.desc[s]
{
    lemma_chain_ok(h, s);
    assert forall|a: int| #[trigger] anc(h.up, s, a) implies g.up[a] == h.up[a] by { }
    lemma_anc_frame(h.up, g.up, s);
    assert forall|i: nat, j: nat| i < j && (#[trigger] nth(g.up, s, i)) is Some && (#[trigger] nth(g.up, s, j)) is Some implies nth(g.up, s, i) != nth(g.up, s, j) by {
        assert(nth(h.up, s, i) == nth(g.up, s, i)); assert(nth(h.up, s, j) == nth(g.up, s, j));
    }
    assert forall|j: nat| (#[trigger] nth(g.up, s, j)) is Some implies g.alive[nth(g.up, s, j)->Some_0] && inmem(nth(g.up, s, j)->Some_0) by { assert(nth(h.up, s, j) == nth(g.up, s, j)); }
}
pub proof fn lemma_chain_same(h: H, g: H, s: int)
    requires wf(h), h.alive[s], g.alive == h.alive, forall|q: int| #[trigger] g.up[q] == h.up[q]
    ensures chain_ok(g, s), forall|a: int| #[trigger] anc(g.up, s, a) == anc(h.up, s, a),
        forall|a: int| #[trigger] anc(h.up, s, a) ==> h.alive[a] && h.desc[a] >= h.desc[s]
{
    lemma_chain_ok(h, s);
    lemma_anc_frame(h.up, g.up, s);
    assert forall|i: nat, j: nat| i < j && (#[trigger] nth(g.up, s, i)) is Some && (#[trigger] nth(g.up, s, j)) is Some implies nth(g.up, s, i) != nth(g.up, s, j) by {
        assert(nth(h.up, s, i) == nth(g.up, s, i)); assert(nth(h.up, s, j) == nth(g.up, s, j));
    }
    assert forall|j: nat| (#[trigger] nth(g.up, s, j)) is Some implies g.alive[nth(g.up, s, j)->Some_0] && inmem(nth(g.up, s, j)->Some_0) by { assert(nth(h.up, s, j) == nth(g.up, s, j)); }
}
/// facts about child i of s
pub proof fn lemma_kid(h: H, s: int, i: int)
    requires wf(h), h.alive[s], 0 <= i < h.kids[s].len()
    ensures wf_node(h, s), wf_kid(h, s, i), wf_node(h, h.kids[s][i]), h.desc[s] >= h.desc[h.kids[s][i]] + 1, h.desc[h.kids[s][i]] >= 0
{ assert(wf_node(h, s)); assert(wf_kid(h, s, i)); lemma_up_desc(h, h.kids[s][i]); assert(wf_node(h, h.kids[s][i])); }
pub proof fn lemma_node(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures wf_node(h, p), h.desc[p] >= 0, h.desc[p] >= h.kids[p].len(), h.kids[p].len() > 0 ==> wf_kid(h, p, 0) && wf_kid(h, p, h.kids[p].len() - 1)
{
    assert(wf_node(h, p));
    if h.kids[p].len() > 0 {
        assert(wf_kid(h, p, 0)); assert(wf_kid(h, p, h.kids[p].len() - 1));
        assert forall|j: int| 0 <= j < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][j]] >= 0 by { assert(wf_kid(h, p, j)); assert(wf_node(h, h.kids[p][j])); }
        lemma_sumd_ge(h.desc, h.kids[p], 0);
    }
}
/// child i of s: facts, neighbours, and that it is no ancestor of s
pub proof fn lemma_kid2(h: H, s: int, i: int)
    requires wf(h), h.alive[s], 0 <= i < h.kids[s].len()
    ensures wf_kid(h, s, i), wf_node(h, h.kids[s][i]), h.desc[s] >= h.desc[h.kids[s][i]] + 1, h.desc[h.kids[s][i]] >= 0, !anc(h.up, s, h.kids[s][i]),
        i > 0 ==> wf_kid(h, s, i - 1), i + 1 < h.kids[s].len() ==> wf_kid(h, s, i + 1),
        forall|a: int| #[trigger] anc(h.up, s, a) ==> h.alive[a] && h.desc[a] >= h.desc[s]
{
    lemma_kid(h, s, i); lemma_chain_ok(h, s);
    if i > 0 { assert(wf_kid(h, s, i - 1)); } if i + 1 < h.kids[s].len() { assert(wf_kid(h, s, i + 1)); }
}
pub proof fn lemma_wf_same(h: H, g: H)
    requires wf(h), g.alive == h.alive, g.prev == h.prev, g.next == h.next, g.head == h.head, g.tail == h.tail, g.up == h.up,
        g.deg == h.deg, g.desc == h.desc, g.data == h.data, g.kids == h.kids
    ensures wf(g)
{
    assert forall|p: int| g.alive[p] implies #[trigger] wf_node(g, p) by { assert(wf_node(h, p)); }
    assert forall|p: int, i: int| g.alive[p] && 0 <= i < g.kids[p].len() implies #[trigger] wf_kid(g, p, i) by { assert(wf_kid(h, p, i)); }
}
/// position of r among its siblings
pub open spec fn posn(h: H, r: int) -> int { choose|i: int| 0 <= i < h.kids[h.up[r]->Some_0].len() && h.kids[h.up[r]->Some_0][i] == r }
pub proof fn lemma_posn(h: H, r: int)
    requires wf(h), h.alive[r], h.up[r] is Some
    ensures ({ let u = h.up[r]->Some_0; let i = posn(h, r); let k = h.kids[u];
        &&& h.alive[u] && wf_node(h, u) && wf_node(h, r) && 0 <= i < k.len() && k[i] == r && wf_kid(h, u, i) && (i > 0 ==> wf_kid(h, u, i - 1)) && (i + 1 < k.len() ==> wf_kid(h, u, i + 1))
        &&& h.desc[u] >= h.desc[r] + 1 && h.desc[r] >= 0 })
{ lemma_up_desc(h, r); assert(wf_node(h, r)); let u = h.up[r]->Some_0; assert(wf_node(h, u)); assert(h.kids[u].contains(r)); let i = posn(h, r); assert(wf_kid(h, u, i)); if i > 0 { assert(wf_kid(h, u, i - 1)); } if i + 1 < h.kids[u].len() { assert(wf_kid(h, u, i + 1)); } }
/// among the first m elements of the chain of n
pub open spec fn anc_lt(up: Map<int, Option<int>>, n: int, a: int, m: nat) -> bool { exists|j: nat| j < m && #[trigger] nth(up, n, j) == Some(a) }
pub proof fn lemma_anc_lt_zero(up: Map<int, Option<int>>, n: int)
    ensures forall|a: int| #[trigger] anc_lt(up, n, a, 1) <==> a == n
{
    assert(nth(up, n, 0) == Some(n));
    assert forall|a: int| #[trigger] anc_lt(up, n, a, 1) <==> a == n by { if a == n { assert(nth(up, n, 0) == Some(a)); } }
}
pub proof fn lemma_anc_lt_step(h: H, n: int, m: nat)
    requires chain_ok(h, n), nth(h.up, n, m) is Some
    ensures forall|a: int| #[trigger] anc_lt(h.up, n, a, m + 1) <==> (anc_lt(h.up, n, a, m) || nth(h.up, n, m) == Some(a)),
        !anc_lt(h.up, n, nth(h.up, n, m)->Some_0, m), h.alive[nth(h.up, n, m)->Some_0],
        nth(h.up, n, m + 1) == h.up[nth(h.up, n, m)->Some_0]
{
    assert forall|a: int| #[trigger] anc_lt(h.up, n, a, m + 1) <==> (anc_lt(h.up, n, a, m) || nth(h.up, n, m) == Some(a)) by {
        if anc_lt(h.up, n, a, m) { let j = choose|j: nat| j < m && #[trigger] nth(h.up, n, j) == Some(a); assert(j < m + 1); }
    }
}
pub proof fn lemma_anc_lt_last(h: H, n: int, m: nat)
    requires chain_ok(h, n), nth(h.up, n, m) is Some, nth(h.up, n, m + 1) is None
    ensures forall|a: int| #[trigger] anc_lt(h.up, n, a, m) ==> anc(h.up, n, a) && nth(h.up, n, m) != Some(a),
        forall|a: int| #[trigger] anc(h.up, n, a) ==> anc_lt(h.up, n, a, m) || nth(h.up, n, m) == Some(a), anc(h.up, n, nth(h.up, n, m)->Some_0)
{
    lemma_anc_lt_step(h, n, m); lemma_anc_lt_all(h.up, n, m + 1);
    assert forall|a: int| #[trigger] anc_lt(h.up, n, a, m) implies anc(h.up, n, a) && nth(h.up, n, m) != Some(a) by { assert(anc_lt(h.up, n, a, m + 1)); }
    assert forall|a: int| #[trigger] anc(h.up, n, a) implies anc_lt(h.up, n, a, m) || nth(h.up, n, m) == Some(a) by { assert(anc_lt(h.up, n, a, m + 1)); }
}
pub proof fn lemma_anc_lt_all(up: Map<int, Option<int>>, n: int, m: nat)
    requires nth(up, n, m) is None
    ensures forall|a: int| #[trigger] anc_lt(up, n, a, m) <==> anc(up, n, a)
{
    assert forall|a: int| #[trigger] anc_lt(up, n, a, m) <==> anc(up, n, a) by {
        if anc(up, n, a) { let j = choose|j: nat| #[trigger] nth(up, n, j) == Some(a); if j >= m { lemma_nth_prefix(up, n, j, m); } }
    }
}
// ------------------------------------------------ node buffers
pub uninterp spec fn elem(v: int, i: int) -> int;
pub uninterp spec fn nonelem(p: int) -> bool;
/// number of nodes of a buffer, fixed when it is made
pub uninterp spec fn nslots(v: int) -> int;
pub open spec fn slot(v: int, p: int) -> bool { exists|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p }
/// where the nodes of a buffer lie in memory
pub uninterp spec fn base(v: int) -> int;
pub uninterp spec fn addr_p(p: int) -> int;
pub uninterp spec fn addr_pb(b: int) -> int;
pub uninterp spec fn sizeof_shared() -> int;
pub open spec fn usize_max() -> int { usize::MAX as int }
/// layout of a Vec<Shared<RefCell<Node>>>: node i starts within its i-th element
pub axiom fn axiom_layout(v: int)
    ensures forall|i: int| 0 <= i < nslots(v) ==> (addr_p(#[trigger] elem(v, i)) - addr_pb(base(v))) / sizeof_shared() == i && addr_p(elem(v, i)) >= addr_pb(base(v)) && inmem(elem(v, i)), sizeof_shared() > 0;
// ------------------------------------------------ insertion of root r as child number i of s
pub open spec fn ins_link(h: H, h2: H, s: int, r: int, i: int) -> bool {
    let k = h.kids[s];
    &&& forall|q: int| #[trigger] h2.up[q] == (if q == r { Some(s) } else { h.up[q] })
    &&& forall|q: int| #[trigger] h2.head[q] == (if q == s && i == 0 { Some(r) } else { h.head[q] })
    &&& forall|q: int| #[trigger] h2.tail[q] == (if q == s && i == k.len() { Some(r) } else { h.tail[q] })
    &&& forall|q: int| #[trigger] h2.next[q] == (if q == r { oi(i < k.len(), k[i]) } else if i > 0 && q == k[i - 1] { Some(r) } else { h.next[q] })
    &&& forall|q: int| #[trigger] h2.prev[q] == (if q == r { oi(i > 0, k[i - 1]) } else if i < k.len() && q == k[i] { Some(r) } else { h.prev[q] })
}
pub open spec fn ins_size(h: H, h2: H, s: int, r: int) -> bool {
    &&& forall|q: int| #[trigger] h2.deg[q] == h.deg[q] + bi(q == s, 1)
    &&& forall|q: int| #[trigger] h2.desc[q] == h.desc[q] + bi(anc(h.up, s, q), h.desc[r] + 1)
}
pub open spec fn ins_kids(h: H, h2: H, s: int, r: int, i: int) -> bool {
    forall|q: int| #[trigger] h2.kids[q] == (if q == s { h.kids[s].insert(i, r) } else { h.kids[q] })
}
pub proof fn lemma_ins(h: H, h2: H, s: int, r: int, i: int)
    requires wf(h), h.alive[s], h.alive[r], h.up[r] is None, real(h.data[r]), !anc(h.up, s, r), 0 <= i <= h.kids[s].len(),
        ins_link(h, h2, s, r, i), ins_size(h, h2, s, r), ins_kids(h, h2, s, r, i), h2.alive == h.alive, h2.data == h.data
    ensures wf(h2)
{
    let k = h.kids[s];
    lemma_chain_ok(h, s);
    lemma_anc_refl(h.up, s);
    assert(wf_node(h, s));
    assert(!k.contains(r)) by { if k.contains(r) { let j = choose|j: int| 0 <= j < k.len() && k[j] == r; assert(wf_kid(h, s, j)); } }
    assert forall|p: int, j: int| h2.alive[p] && 0 <= j < h2.kids[p].len() implies #[trigger] wf_kid(h2, p, j) by {
        if p == s {
            if j < i { assert(wf_kid(h, s, j)); assert(h2.kids[s][j] == k[j]); if j + 1 < i { assert(k[j] != k[i - 1]); } if i < k.len() { assert(k[j] != k[i]); } }
            else if j == i { }
            else { assert(wf_kid(h, s, j - 1)); assert(h2.kids[s][j] == k[j - 1]); if j > i + 1 { assert(k[j - 1] != k[i]); } if i > 0 { assert(k[j - 1] != k[i - 1]); } }
        } else {
            assert(wf_kid(h, p, j));
            let c = h.kids[p][j];
            assert(c != r);
            assert(!k.contains(c)) by { if k.contains(c) { let m = choose|m: int| 0 <= m < k.len() && k[m] == c; assert(wf_kid(h, s, m)); } }
            if i > 0 { assert(k.contains(k[i - 1])); } if i < k.len() { assert(k.contains(k[i])); }
        }
    }
    assert forall|p: int| h2.alive[p] implies #[trigger] wf_node(h2, p) by {
        assert(wf_node(h, p));
        let k2 = h2.kids[p];
        // no duplicates, up
        if p == s {
            assert forall|a: int, b: int| 0 <= a < k2.len() && 0 <= b < k2.len() && a != b implies k2[a] != k2[b] by {
                assert(k2[a] == (if a < i { k[a] } else if a == i { r } else { k[a - 1] }));
                assert(k2[b] == (if b < i { k[b] } else if b == i { r } else { k[b - 1] }));
                assert(forall|m: int| 0 <= m < k.len() ==> k.contains(#[trigger] k[m]));
            }
        }
        assert(wf_up(h2, p)) by {
            if p == r { assert(h2.kids[s][i] == r); }
            else { match h.up[p] { None => {
                        assert(h2.up[p] is None);
                        if i > 0 { assert(wf_kid(h, s, i - 1)); } if i < k.len() { assert(wf_kid(h, s, i)); } },
                    Some(q) => { if q == s {
                        let m = choose|m: int| 0 <= m < k.len() && k[m] == p;
                        if m < i { assert(h2.kids[s][m] == p); } else { assert(h2.kids[s][m + 1] == p); } } } } }
        }
        // sizes
        if anc(h.up, s, p) && p != s {
            let m = lemma_anc_child(h, s, p);
            lemma_desc_add(h, h2.desc, s, p, m, h.desc[r] + 1);
        } else {
            assert forall|j: int| 0 <= j < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][j]] == h2.desc[h.kids[p][j]] by {
                assert(wf_kid(h, p, j));
                let c = h.kids[p][j];
                if anc(h.up, s, c) { lemma_anc_up(h.up, s, c, p); if p == s { assert(false) by { assert(wf_node(h, c)); lemma_up_desc(h, c); } } }
            }
            lemma_sumd_ext(h.desc, h2.desc, h.kids[p]);
            if p == s { assert(!anc(h.up, s, r)); assert(h2.desc[r] == h.desc[r]); lemma_sumd_insert(h2.desc, k, i, r); assert(wf_node(h, r)); }
        }
        assert(h.desc[r] >= 0) by { assert(wf_node(h, r)); }
    }
}
/// an ancestor a != s of s has exactly one child that is an ancestor-or-self of s
pub proof fn lemma_anc_child(h: H, s: int, a: int) -> (m: int)
    requires wf(h), h.alive[s], anc(h.up, s, a), a != s
    ensures 0 <= m < h.kids[a].len(), anc(h.up, s, h.kids[a][m]), forall|j: int| 0 <= j < h.kids[a].len() && j != m ==> !anc(h.up, s, #[trigger] h.kids[a][j])
{
    lemma_chain_ok(h, s);
    let j = choose|j: nat| #[trigger] nth(h.up, s, j) == Some(a);
    lemma_nth_prefix(h.up, s, j, (j - 1) as nat);
    let c = nth(h.up, s, (j - 1) as nat)->Some_0;
    assert(anc(h.up, s, c));
    assert(wf_node(h, c));
    assert(h.up[c] == Some(a));
    let m = choose|m: int| 0 <= m < h.kids[a].len() && h.kids[a][m] == c;
    assert forall|x: int| 0 <= x < h.kids[a].len() && x != m implies !anc(h.up, s, #[trigger] h.kids[a][x]) by {
        if anc(h.up, s, h.kids[a][x]) {
            let d = h.kids[a][x];
            assert(wf_kid(h, a, x));
            let y = choose|y: nat| #[trigger] nth(h.up, s, y) == Some(d);
            assert(nth(h.up, s, y + 1) == Some(a));
            assert(y + 1 == j);
            assert(c == d);
            assert(wf_node(h, a));
        }
    }
    m
}
pub proof fn lemma_anc_up(up: Map<int, Option<int>>, s: int, c: int, p: int)
    requires anc(up, s, c), up[c] == Some(p) ensures anc(up, s, p)
{ let y = choose|y: nat| #[trigger] nth(up, s, y) == Some(c); assert(nth(up, s, y + 1) == Some(p)); }
pub proof fn lemma_desc_add(h: H, d2: Map<int, int>, s: int, a: int, m: int, e: int)
    requires wf(h), h.alive[s], h.alive[a], 0 <= m < h.kids[a].len(), anc(h.up, s, h.kids[a][m]),
        forall|j: int| 0 <= j < h.kids[a].len() && j != m ==> !anc(h.up, s, #[trigger] h.kids[a][j]),
        forall|q: int| #[trigger] d2[q] == h.desc[q] + bi(anc(h.up, s, q), e)
    ensures sumd(d2, h.kids[a]) == h.desc[a] + e
{ assert(wf_node(h, a)); lemma_sumd_bump(h.desc, d2, h.kids[a], m, e); }

// ------------------------------------------------ removal of child number i of s
pub open spec fn rem_link(h: H, h2: H, s: int, i: int) -> bool {
    let k = h.kids[s]; let n = k.len(); let r = k[i];
    &&& forall|q: int| #[trigger] h2.up[q] == (if q == r { None } else { h.up[q] })
    &&& forall|q: int| #[trigger] h2.head[q] == (if q == s && i == 0 { oi(n > 1, k[1]) } else { h.head[q] })
    &&& forall|q: int| #[trigger] h2.tail[q] == (if q == s && i == n - 1 { oi(n > 1, k[n - 2]) } else { h.tail[q] })
    &&& forall|q: int| #[trigger] h2.next[q] == (if q == r { None } else if i > 0 && q == k[i - 1] { oi(i + 1 < n, k[i + 1]) } else { h.next[q] })
    &&& forall|q: int| #[trigger] h2.prev[q] == (if q == r { None } else if i + 1 < n && q == k[i + 1] { oi(i > 0, k[i - 1]) } else { h.prev[q] })
}
pub open spec fn rem_size(h: H, h2: H, s: int, r: int) -> bool {
    &&& forall|q: int| #[trigger] h2.deg[q] == h.deg[q] - bi(q == s, 1)
    &&& forall|q: int| #[trigger] h2.desc[q] == h.desc[q] - bi(anc(h.up, s, q), h.desc[r] + 1)
}
pub open spec fn rem_kids(h: H, h2: H, s: int, i: int) -> bool {
    forall|q: int| #[trigger] h2.kids[q] == (if q == s { h.kids[s].remove(i) } else { h.kids[q] })
}
pub proof fn lemma_rem_kid(h: H, h2: H, s: int, i: int)
    requires wf(h), h.alive[s], 0 <= i < h.kids[s].len(), rem_link(h, h2, s, i), rem_kids(h, h2, s, i), h2.alive == h.alive, h2.data == h.data
    ensures forall|p: int, j: int| h2.alive[p] && 0 <= j < h2.kids[p].len() ==> #[trigger] wf_kid(h2, p, j)
{
    let k = h.kids[s]; let r = k[i];
    assert(wf_node(h, s)); assert(wf_kid(h, s, i));
    assert forall|p: int, j: int| h2.alive[p] && 0 <= j < h2.kids[p].len() implies #[trigger] wf_kid(h2, p, j) by {
        if p == s {
            if j < i { assert(wf_kid(h, s, j)); assert(h2.kids[s][j] == k[j]); assert(k[j] != k[i]); if j + 1 < i { assert(k[j] != k[i - 1]); assert(h2.kids[s][j + 1] == k[j + 1]); } if i + 1 < k.len() { assert(k[j] != k[i + 1]); if j + 1 == i { assert(h2.kids[s][j + 1] == k[i + 1]); } } if j > 0 { assert(h2.kids[s][j - 1] == k[j - 1]); } }
            else { assert(wf_kid(h, s, j + 1)); assert(h2.kids[s][j] == k[j + 1]); assert(k[j + 1] != k[i]); if i > 0 { assert(k[j + 1] != k[i - 1]); } if j > i { assert(k[j + 1] != k[i + 1]); assert(h2.kids[s][j - 1] == k[j]); } else if i > 0 { assert(h2.kids[s][j - 1] == k[i - 1]); } if j + 2 < k.len() { assert(h2.kids[s][j + 1] == k[j + 2]); } }
        } else {
            assert(wf_kid(h, p, j));
            let c = h.kids[p][j];
            assert(!k.contains(c)) by { if k.contains(c) { let m = choose|m: int| 0 <= m < k.len() && k[m] == c; assert(wf_kid(h, s, m)); } }
            assert(k.contains(k[i]));
            if i > 0 { assert(k.contains(k[i - 1])); } if i + 1 < k.len() { assert(k.contains(k[i + 1])); }
        }
    }
}
pub proof fn lemma_rem(h: H, h2: H, s: int, i: int)
    requires wf(h), h.alive[s], 0 <= i < h.kids[s].len(), rem_link(h, h2, s, i), rem_size(h, h2, s, h.kids[s][i]), rem_kids(h, h2, s, i), h2.alive == h.alive, h2.data == h.data
    ensures wf(h2), !anc(h.up, s, h.kids[s][i])
{
    let k = h.kids[s]; let r = k[i]; let e = h.desc[r] + 1;
    lemma_rem_kid(h, h2, s, i);
    lemma_chain_ok(h, s);
    lemma_anc_refl(h.up, s);
    assert(wf_node(h, s)); assert(wf_kid(h, s, i)); assert(wf_node(h, r));
    lemma_up_desc(h, r);
    assert(!anc(h.up, s, r));
    assert forall|p: int| h2.alive[p] implies #[trigger] wf_node(h2, p) by {
        assert(wf_node(h, p));
        let k2 = h2.kids[p];
        if p == s {
            assert forall|a: int, b: int| 0 <= a < k2.len() && 0 <= b < k2.len() && a != b implies k2[a] != k2[b] by {
                assert(k2[a] == (if a < i { k[a] } else { k[a + 1] }));
                assert(k2[b] == (if b < i { k[b] } else { k[b + 1] }));
            }
        }
        assert(wf_up(h2, p)) by {
            match h.up[p] { None => {
                    if i > 0 { assert(wf_kid(h, s, i - 1)); } if i + 1 < k.len() { assert(wf_kid(h, s, i + 1)); } },
                Some(q) => { if q == s && p != r {
                    let m = choose|m: int| 0 <= m < k.len() && k[m] == p;
                    if m < i { assert(h2.kids[s][m] == p); } else { assert(h2.kids[s][m - 1] == p); } } } }
        }
        assert(h.desc[r] >= 0);
        if anc(h.up, s, p) && p != s {
            let m = lemma_anc_child(h, s, p);
            assert forall|q: int| #[trigger] h2.desc[q] == h.desc[q] + bi(anc(h.up, s, q), -e) by { }
            lemma_desc_add(h, h2.desc, s, p, m, -e);
            assert(h.kids[p].len() > 0);
        } else {
            assert forall|j: int| 0 <= j < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][j]] == h2.desc[h.kids[p][j]] by {
                assert(wf_kid(h, p, j));
                let c = h.kids[p][j];
                if anc(h.up, s, c) { lemma_anc_up(h.up, s, c, p); if p == s { assert(false) by { assert(wf_node(h, c)); lemma_up_desc(h, c); } } }
            }
            lemma_sumd_ext(h.desc, h2.desc, h.kids[p]);
            if p == s { lemma_sumd_remove(h2.desc, k, i); }
        }
    }
}
