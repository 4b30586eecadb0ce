// ------------------------------------------------ all children of f become children of s (append / prepend)
pub open spec fn spl_a(h: H, s: int, f: int, back: bool) -> Seq<int> { if back { h.kids[s] } else { h.kids[f] } }
pub open spec fn spl_b(h: H, s: int, f: int, back: bool) -> Seq<int> { if back { h.kids[f] } else { h.kids[s] } }
pub open spec fn spl_all(h: H, s: int, f: int, back: bool) -> Seq<int> { spl_a(h, s, f, back) + spl_b(h, s, f, back) }
pub open spec fn spl_next(h: H, s: int, f: int, back: bool, q: int) -> Option<int> {
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back);
    if a.len() > 0 && b.len() > 0 && q == a[a.len() - 1] { Some(b[0]) } else { h.next[q] }
}
pub open spec fn spl_prev(h: H, s: int, f: int, back: bool, q: int) -> Option<int> {
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back);
    if a.len() > 0 && b.len() > 0 && q == b[0] { Some(a[a.len() - 1]) } else { h.prev[q] }
}
pub open spec fn spl_up(h: H, s: int, f: int, q: int) -> Option<int> { if h.kids[f].contains(q) { Some(s) } else { h.up[q] } }
pub open spec fn spl_head(h: H, s: int, f: int, back: bool, q: int) -> Option<int> { let k = spl_all(h, s, f, back); if q == s { oi(k.len() > 0, k[0]) } else if q == f { None } else { h.head[q] } }
pub open spec fn spl_tail(h: H, s: int, f: int, back: bool, q: int) -> Option<int> { let k = spl_all(h, s, f, back); if q == s { oi(k.len() > 0, k[k.len() - 1]) } else if q == f { None } else { h.tail[q] } }
pub open spec fn spl_deg(h: H, s: int, f: int, q: int) -> int { if q == f { 0 } else { h.deg[q] + bi(q == s, h.kids[f].len() as int) } }
pub open spec fn spl_desc(h: H, s: int, f: int, q: int) -> int { if q == f { 0 } else { h.desc[q] + bi(anc(h.up, s, q), sumd(h.desc, h.kids[f])) } }
pub open spec fn spl_kids(h: H, s: int, f: int, back: bool, q: int) -> Seq<int> { if q == s { spl_all(h, s, f, back) } else if q == f { Seq::empty() } else { h.kids[q] } }
pub open spec fn spl_links(h: H, h2: H, s: int, f: int, back: bool) -> bool {
    &&& forall|q: int| #[trigger] h2.up[q] == spl_up(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.next[q] == spl_next(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.prev[q] == spl_prev(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.head[q] == spl_head(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.tail[q] == spl_tail(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.deg[q] == spl_deg(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.desc[q] == spl_desc(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.kids[q] == spl_kids(h, s, f, back, q)
}
pub open spec fn spl_pre(h: H, s: int, f: int) -> bool { wf(h) && h.alive[s] && h.alive[f] && h.up[f] is None && !anc(h.up, s, f) }
pub proof fn lemma_spl_facts(h: H, s: int, f: int)
    requires spl_pre(h, s, f)
    ensures s != f, forall|i: int| 0 <= i < h.kids[f].len() ==> !anc(h.up, s, #[trigger] h.kids[f][i]),
        forall|i: int| 0 <= i < h.kids[f].len() ==> !h.kids[s].contains(#[trigger] h.kids[f][i]) && wf_kid(h, f, i) && h.kids[f].contains(h.kids[f][i]) && h.kids[f][i] != s && h.kids[f][i] != f,
        forall|i: int| 0 <= i < h.kids[s].len() ==> !h.kids[f].contains(#[trigger] h.kids[s][i]) && wf_kid(h, s, i) && h.kids[s].contains(h.kids[s][i]) && h.kids[s][i] != s && h.kids[s][i] != f,
        wf_node(h, s), wf_node(h, f), h.kids[s].len() > 0 ==> h.head[s] is Some && h.tail[s] is Some, h.desc[s] >= 0, h.desc[f] >= 0,
        forall|a: int| #[trigger] anc(h.up, s, a) ==> h.alive[a] && h.desc[a] >= h.desc[s] && a != f && !h.kids[f].contains(a),
        h.up[s] != Some(f)
{
    lemma_anc_refl(h.up, s); lemma_node(h, s); lemma_node(h, f); lemma_chain_ok(h, s);
    if h.up[s] == Some(f) { lemma_anc_up(h.up, s, s, f); }
    assert forall|i: int| 0 <= i < h.kids[f].len() implies !anc(h.up, s, #[trigger] h.kids[f][i]) by {
        assert(wf_kid(h, f, i)); if anc(h.up, s, h.kids[f][i]) { lemma_anc_up(h.up, s, h.kids[f][i], f); }
    }
    assert forall|i: int| 0 <= i < h.kids[f].len() implies !h.kids[s].contains(#[trigger] h.kids[f][i]) && wf_kid(h, f, i) && h.kids[f].contains(h.kids[f][i]) && h.kids[f][i] != s && h.kids[f][i] != f by {
        assert(wf_kid(h, f, i)); lemma_up_desc(h, h.kids[f][i]);
        if h.kids[s].contains(h.kids[f][i]) { let j = choose|j: int| 0 <= j < h.kids[s].len() && h.kids[s][j] == h.kids[f][i]; assert(wf_kid(h, s, j)); }
    }
    assert forall|i: int| 0 <= i < h.kids[s].len() implies !h.kids[f].contains(#[trigger] h.kids[s][i]) && wf_kid(h, s, i) && h.kids[s].contains(h.kids[s][i]) && h.kids[s][i] != s && h.kids[s][i] != f by {
        assert(wf_kid(h, s, i)); lemma_up_desc(h, h.kids[s][i]);
        if h.kids[f].contains(h.kids[s][i]) { let j = choose|j: int| 0 <= j < h.kids[f].len() && h.kids[f][j] == h.kids[s][i]; assert(wf_kid(h, f, j)); }
    }
    assert forall|a: int| #[trigger] anc(h.up, s, a) implies h.alive[a] && h.desc[a] >= h.desc[s] && a != f && !h.kids[f].contains(a) by {
        if h.kids[f].contains(a) { let j = choose|j: int| 0 <= j < h.kids[f].len() && h.kids[f][j] == a; assert(!anc(h.up, s, h.kids[f][j])); }
    }
}
/// the chain of s is untouched once the parent links of f's children have been redirected
pub proof fn lemma_spl_chain(h: H, g: H, s: int, f: int)
    requires spl_pre(h, s, f), g.alive == h.alive, forall|q: int| !h.kids[f].contains(q) ==> #[trigger] g.up[q] == h.up[q]
    ensures chain_ok(g, s), forall|a: int| #[trigger] anc(g.up, s, a) == anc(h.up, s, a)
{
    lemma_spl_facts(h, s, f);
    lemma_chain_ok(h, s);
    assert forall|a: int| #[trigger] anc(h.up, s, a) implies g.up[a] == h.up[a] by { }
    lemma_anc_frame(h.up, g.up, s);
    assert forall|i: nat, j: nat| i < j && (#[trigger] nth(g.up, s, i)) is Some && (#[trigger] nth(g.up, s, j)) is Some implies nth(g.up, s, i) != nth(g.up, s, j) by {
        assert(nth(h.up, s, i) == nth(g.up, s, i)); assert(nth(h.up, s, j) == nth(g.up, s, j));
    }
    assert forall|j: nat| (#[trigger] nth(g.up, s, j)) is Some implies g.alive[nth(g.up, s, j)->Some_0] && inmem(nth(g.up, s, j)->Some_0) by { assert(nth(h.up, s, j) == nth(g.up, s, j)); }
}
pub open spec fn spl_req(h: H, h2: H, s: int, f: int, back: bool) -> bool { spl_pre(h, s, f) && spl_links(h, h2, s, f, back) && h2.alive == h.alive && h2.data == h.data }
pub proof fn lemma_spl_idx(a: Seq<int>, b: Seq<int>)
    ensures forall|i: int| 0 <= i < (a + b).len() ==> (#[trigger] (a + b)[i]) == (if i < a.len() { a[i] } else { b[i - a.len()] })
{ }
/// a child of f and a child of s are different nodes
pub proof fn lemma_spl_ne(h: H, s: int, f: int, i: int, j: int)
    requires spl_pre(h, s, f), 0 <= i < h.kids[f].len(), 0 <= j < h.kids[s].len()
    ensures h.kids[f][i] != h.kids[s][j]
{ lemma_anc_refl(h.up, s); assert(wf_kid(h, f, i)); assert(wf_kid(h, s, j)); }
pub proof fn lemma_spl_kid_s(h: H, h2: H, s: int, f: int, back: bool, j: int)
    requires spl_req(h, h2, s, f, back), 0 <= j < h2.kids[s].len()
    ensures wf_kid(h2, s, j)
{
    lemma_anc_refl(h.up, s);
    assert(s != f);
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back); let k = spl_all(h, s, f, back); let n = a.len() as int;
    assert(h2.kids[s] == k);
    let pa = if back { s } else { f }; let pb = if back { f } else { s };
    assert(wf_node(h, s)); assert(wf_node(h, f));
    let c = k[j];
    if j < n {
        assert(c == a[j]);
        assert(wf_kid(h, pa, j));
        if b.len() > 0 { if back { lemma_spl_ne(h, s, f, 0, j); } else { lemma_spl_ne(h, s, f, j, 0); } assert(c != b[0]); }
        if back { assert(!h.kids[f].contains(c)) by { if h.kids[f].contains(c) { let m = choose|m: int| 0 <= m < h.kids[f].len() && h.kids[f][m] == c; lemma_spl_ne(h, s, f, m, j); } } } else { assert(h.kids[f].contains(c)); }
        assert(h2.up[c] == Some(s));
        assert(h2.prev[c] == h.prev[c]);
        if j + 1 < n { assert(c != a[n - 1]); assert(k[j + 1] == a[j + 1]); assert(h2.next[c] == h.next[c]); } else if b.len() > 0 { assert(k[j + 1] == b[0]); assert(h2.next[c] == Some(b[0])); }
        if j > 0 { assert(k[j - 1] == a[j - 1]); }
    } else {
        let m = j - n;
        assert(c == b[m]);
        assert(wf_kid(h, pb, m));
        if n > 0 { if back { lemma_spl_ne(h, s, f, m, n - 1); } else { lemma_spl_ne(h, s, f, n - 1, m); } assert(c != a[n - 1]); }
        if !back { assert(!h.kids[f].contains(c)) by { if h.kids[f].contains(c) { let x = choose|x: int| 0 <= x < h.kids[f].len() && h.kids[f][x] == c; lemma_spl_ne(h, s, f, x, m); } } } else { assert(h.kids[f].contains(c)); }
        assert(h2.up[c] == Some(s));
        assert(h2.next[c] == h.next[c]);
        if m > 0 { assert(c != b[0]); assert(k[j - 1] == b[m - 1]); assert(h2.prev[c] == h.prev[c]); } else if n > 0 { assert(k[j - 1] == a[n - 1]); assert(h2.prev[c] == Some(a[n - 1])); }
        if m + 1 < b.len() { assert(k[j + 1] == b[m + 1]); }
    }
}
pub proof fn lemma_spl_kid(h: H, h2: H, s: int, f: int, back: bool, p: int, j: int)
    requires spl_req(h, h2, s, f, back), p != s, h.alive[p], 0 <= j < h2.kids[p].len()
    ensures wf_kid(h2, p, j)
{
    lemma_spl_facts(h, s, f);
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back);
    if p != f {
        assert(wf_kid(h, p, j));
        let c = h.kids[p][j];
        assert(!h.kids[s].contains(c)) by { if h.kids[s].contains(c) { let m = choose|m: int| 0 <= m < h.kids[s].len() && h.kids[s][m] == c; assert(wf_kid(h, s, m)); } }
        assert(!h.kids[f].contains(c)) by { if h.kids[f].contains(c) { let m = choose|m: int| 0 <= m < h.kids[f].len() && h.kids[f][m] == c; assert(wf_kid(h, f, m)); } }
        if a.len() > 0 && b.len() > 0 { assert(a.contains(a[a.len() - 1])); assert(b.contains(b[0])); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_spl_up(h: H, h2: H, s: int, f: int, back: bool, p: int)
    requires spl_req(h, h2, s, f, back), h.alive[p]
    ensures wf_up(h2, p)
{
    lemma_spl_facts(h, s, f);
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back); let k = spl_all(h, s, f, back);
    assert(wf_node(h, p));
    assert(h2.kids[s] == k);
    match h.up[p] {
        None => {
            if h.kids[f].contains(p) { let m = choose|m: int| 0 <= m < h.kids[f].len() && h.kids[f][m] == p; assert(wf_kid(h, f, m)); }
            if a.len() > 0 && b.len() > 0 {
                if back { assert(wf_kid(h, s, a.len() - 1)); assert(wf_kid(h, f, 0)); } else { assert(wf_kid(h, f, a.len() - 1)); assert(wf_kid(h, s, 0)); }
                assert(p != a[a.len() - 1] && p != b[0]);
            }
        },
        Some(q) => {
            if q == f { let m = choose|m: int| 0 <= m < h.kids[f].len() && h.kids[f][m] == p; assert(wf_kid(h, f, m)); if back { assert(k[m + a.len()] == p); } else { assert(k[m] == p); } }
            else {
                assert(!h.kids[f].contains(p)) by { if h.kids[f].contains(p) { let m = choose|m: int| 0 <= m < h.kids[f].len() && h.kids[f][m] == p; assert(wf_kid(h, f, m)); } }
                if q == s { let m = choose|m: int| 0 <= m < h.kids[s].len() && h.kids[s][m] == p; if back { assert(k[m] == p); } else { assert(k[m + a.len()] == p); } }
            }
        }
    }
}
pub proof fn lemma_spl_nodup(h: H, h2: H, s: int, f: int, back: bool)
    requires spl_req(h, h2, s, f, back)
    ensures h2.kids[s].no_duplicates()
{
    lemma_spl_facts(h, s, f);
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back); let k = spl_all(h, s, f, back);
    assert forall|x: int, y: int| 0 <= x < k.len() && 0 <= y < k.len() && x != y implies k[x] != k[y] by {
        assert(k[x] == (if x < a.len() { a[x] } else { b[x - a.len()] }));
        assert(k[y] == (if y < a.len() { a[y] } else { b[y - a.len()] }));
    }
}
pub proof fn lemma_spl_size(h: H, h2: H, s: int, f: int, back: bool, p: int)
    requires spl_req(h, h2, s, f, back), h.alive[p]
    ensures h2.desc[p] == sumd(h2.desc, h2.kids[p]), h2.desc[p] >= 0
{
    lemma_spl_facts(h, s, f);
    lemma_anc_refl(h.up, s);
    assert(wf_node(h, p));
    let a = spl_a(h, s, f, back); let b = spl_b(h, s, f, back); let e = sumd(h.desc, h.kids[f]);
    if p == f { assert(sumd(h2.desc, h2.kids[f]) == 0); }
    else if anc(h.up, s, p) && p != s {
        let m = lemma_anc_child(h, s, p);
        assert forall|j: int| 0 <= j < h.kids[p].len() && j != m implies h2.desc[#[trigger] h.kids[p][j]] == h.desc[h.kids[p][j]] by {
            assert(wf_kid(h, p, j)); assert(h.kids[p][j] != f); }
        assert(wf_kid(h, p, m)); assert(h.kids[p][m] != f);
        lemma_sumd_bump(h.desc, h2.desc, h.kids[p], m, e);
    } else {
        assert forall|j: int| 0 <= j < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][j]] == h2.desc[h.kids[p][j]] by {
            assert(wf_kid(h, p, j));
            let c = h.kids[p][j];
            assert(c != f);
            if anc(h.up, s, c) { lemma_anc_up(h.up, s, c, p); if p == s { lemma_up_desc(h, c); } }
        }
        lemma_sumd_ext(h.desc, h2.desc, h.kids[p]);
        if p == s {
            assert forall|j: int| 0 <= j < h.kids[f].len() implies h.desc[#[trigger] h.kids[f][j]] == h2.desc[h.kids[f][j]] by { assert(!anc(h.up, s, h.kids[f][j])); assert(h.kids[f][j] != f); }
            lemma_sumd_ext(h.desc, h2.desc, h.kids[f]); lemma_sumd_cat(h2.desc, a, b);
        }
    }
}
pub proof fn lemma_spl_wf(h: H, h2: H, s: int, f: int, back: bool)
    requires spl_req(h, h2, s, f, back)
    ensures wf(h2)
{
    lemma_spl_facts(h, s, f);
    let k = spl_all(h, s, f, back);
    assert forall|p: int, j: int| h2.alive[p] && 0 <= j < h2.kids[p].len() implies #[trigger] wf_kid(h2, p, j) by { if p == s { lemma_spl_kid_s(h, h2, s, f, back, j); } else { lemma_spl_kid(h, h2, s, f, back, p, j); } }
    lemma_spl_nodup(h, h2, s, f, back);
    assert forall|p: int| h2.alive[p] implies #[trigger] wf_node(h2, p) by {
        assert(wf_node(h, p));
        lemma_spl_up(h, h2, s, f, back, p); lemma_spl_size(h, h2, s, f, back, p);
        if p == s { assert(h2.kids[p] == k); } else if p == f { assert(h2.kids[p].len() == 0); } else { assert(h2.kids[p] == h.kids[p]); }
    }
}
pub proof fn lemma_rel_same(h: H, g: H)
    requires rel(h), g.alive == h.alive, g.data == h.data, g.cnt == h.cnt, g.vref == h.vref, g.valive == h.valive, g.vlive == h.vlive
    ensures rel(g)
{
    assert forall|p: int| #[trigger] pok(g, p) by { assert(pok(h, p)); } assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); }
    assert forall|x: int, y: int| g.alive[x] && g.alive[y] && #[trigger] real(g.data[x]) && #[trigger] real(g.data[y]) && pay(g.data[x]) == pay(g.data[y]) implies x == y by { assert(real(h.data[x]) && real(h.data[y])); }
}
/// a root without children: its tree is just itself
pub proof fn lemma_lone(g: H, f: int)
    requires wf(g), g.alive[f], g.kids[f].len() == 0
    ensures forall|q: int| #[trigger] sub(g, f, q) ==> q == f, sub(g, f, f)
{
    lemma_anc_refl(g.up, f);
    assert forall|q: int| #[trigger] sub(g, f, q) implies q == f by {
        if q != f {
            let j = choose|j: nat| #[trigger] nth(g.up, q, j) == Some(f);
            assert(nth(g.up, q, 0) == Some(q)); assert(j > 0);
            lemma_nth_prefix(g.up, q, j, (j - 1) as nat);
            lemma_nth_alive(g, q, (j - 1) as nat);
            let c = nth(g.up, q, (j - 1) as nat)->Some_0;
            assert(wf_node(g, c)); assert(g.kids[f].contains(c));
        }
    }
}
/// the outcome of append / prepend, the emptied forest f released
pub open spec fn spliced(h: H, h2: H, s: int, f: int, back: bool) -> bool {
    &&& forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && q != f)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.up[q] == spl_up(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.next[q] == spl_next(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.prev[q] == spl_prev(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.head[q] == spl_head(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.tail[q] == spl_tail(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.deg[q] == spl_deg(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.desc[q] == spl_desc(h, s, f, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.kids[q] == spl_kids(h, s, f, back, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.data[q] == h.data[q] && h2.cnt[q] == h.cnt[q]
    &&& forall|x: int| #[trigger] h2.pd[x] == h.pd[x]
    &&& shrink(h, h2)
}
pub proof fn lemma_spliced(h: H, g: H, h2: H, s: int, f: int, back: bool)
    requires spl_pre(h, s, f), rel(h), fake(h.data[f]), spl_links(h, g, s, f, back), wf(g), g.alive == h.alive, g.data == h.data, g.cnt == h.cnt, g.pd == h.pd, g.vref == h.vref, g.valive == h.valive, g.vlive == h.vlive, dropped(g, h2, f)
    ensures spliced(h, h2, s, f, back), wf(h2), rel(h2)
{
    lemma_spl_facts(h, s, f);
    lemma_lone(g, f);
    assert forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && q != f) by { lemma_anc_refl(g.up, f); if g.alive[q] && !h2.alive[q] { assert(anc(g.up, q, f)); assert(sub(g, f, q)); } if g.alive[f] && anc(g.up, f, f) { assert(!h2.alive[f]); } }
    assert forall|q: int| #[trigger] h2.alive[q] implies same_node(g, h2, q) && h2.data[q] == h.data[q] && h2.cnt[q] == h.cnt[q] by { assert(g.alive[q]); if anc(g.up, q, f) { assert(sub(g, f, q)); } }
    assert forall|x: int| #[trigger] h2.pd[x] == h.pd[x] by { if gone(g, h2, x) { let q = choose|q: int| #[trigger] g.alive[q] && !h2.alive[q] && real(g.data[q]) && pay(g.data[q]) == x; assert(q == f); } }
}
/// nothing to splice: only the empty forest is released
pub proof fn lemma_spl_none(h: H, s: int, f: int, back: bool)
    requires spl_pre(h, s, f), h.kids[f].len() == 0
    ensures spl_links(h, h, s, f, back)
{
    lemma_spl_facts(h, s, f);
    assert(spl_all(h, s, f, back) =~= h.kids[s]);
    assert(sumd(h.desc, h.kids[f]) == 0);
    assert(h.kids[f] =~= Seq::<int>::empty());
}
/// children number 0..i of f redirected to s
pub open spec fn setup_upto(h: H, h2: H, s: int, f: int, i: int) -> bool { forall|q: int| #[trigger] h2.up[q] == (if h.kids[f].subrange(0, i).contains(q) { Some(s) } else { h.up[q] }) }
pub proof fn lemma_setup(h: H, f: int, i: int)
    requires wf(h), h.alive[f], 0 <= i <= h.kids[f].len()
    ensures i < h.kids[f].len() ==> h.alive[h.kids[f][i]] && (forall|q: int| #[trigger] h.kids[f].subrange(0, i + 1).contains(q) <==> (h.kids[f].subrange(0, i).contains(q) || q == h.kids[f][i])),
        h.kids[f].subrange(0, h.kids[f].len() as int) =~= h.kids[f],
        rest(h.next, oi(i < h.kids[f].len(), h.kids[f][i]), h.kids[f].len() - i) == h.kids[f].subrange(i, h.kids[f].len() as int)
{
    lemma_rest_sub(h, f, i);
    if i < h.kids[f].len() {
        assert(wf_kid(h, f, i));
        let x = h.kids[f].subrange(0, i + 1); let y = h.kids[f].subrange(0, i);
        assert(x =~= y.push(h.kids[f][i]));
        assert forall|q: int| #[trigger] x.contains(q) <==> (y.contains(q) || q == h.kids[f][i]) by {
            if y.contains(q) { let j = choose|j: int| 0 <= j < y.len() && y[j] == q; assert(x[j] == q); }
            if q == h.kids[f][i] { assert(x[i] == q); }
            if x.contains(q) { let j = choose|j: int| 0 <= j < x.len() && x[j] == q; if j < i { assert(y[j] == q); } }
        }
    }
}

pub proof fn lemma_sub_alive(h: H, f: int, i: int)
    requires wf(h), h.alive[f], 0 <= i <= h.kids[f].len()
    ensures forall|j: int| 0 <= j < h.kids[f].subrange(i, h.kids[f].len() as int).len() ==> h.alive[#[trigger] h.kids[f].subrange(i, h.kids[f].len() as int)[j]]
{
    assert forall|j: int| 0 <= j < h.kids[f].subrange(i, h.kids[f].len() as int).len() implies h.alive[#[trigger] h.kids[f].subrange(i, h.kids[f].len() as int)[j]] by { assert(wf_kid(h, f, i + j)); }
}
/// accounting is a matter of storage, payloads and counts only
pub proof fn lemma_rel_same2(h: H, g: H)
    ensures rel(h) && g.alive == h.alive && g.data == h.data && g.vref == h.vref && g.valive == h.valive && g.vlive == h.vlive ==> rel(g)
{
    if rel(h) && g.alive == h.alive && g.data == h.data && g.vref == h.vref && g.valive == h.valive && g.vlive == h.vlive {
        assert forall|p: int| #[trigger] pok(g, p) by { assert(pok(h, p)); } assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); }
        assert forall|x: int, y: int| g.alive[x] && g.alive[y] && x != y && #[trigger] real(g.data[x]) && #[trigger] real(g.data[y]) implies pay(g.data[x]) != pay(g.data[y]) by { assert(real(h.data[x]) && real(h.data[y])); }
    }
}
