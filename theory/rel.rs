// ------------------------------------------------ ownership and release
/// q belongs to the tree or forest rooted at r
pub open spec fn sub(h: H, r: int, q: int) -> bool { h.alive[q] && anc(h.up, q, r) }
/// accounting of a node buffer: vlive is the set of its live nodes, every one of them holds a reference
pub open spec fn vok(h: H, v: int) -> bool {
    (h.valive[v] ==> h.vlive[v].finite() && h.vref[v] >= h.vlive[v].len()
        && (forall|p: int| #[trigger] h.vlive[v].contains(p) ==> h.alive[p] && piled(h.data[p]) && own(h.data[p]) == v && slot(v, p)))
    && (!h.valive[v] ==> h.vlive[v] =~= Set::<int>::empty())
}
/// where a live node is stored
pub open spec fn pok(h: H, p: int) -> bool {
    h.alive[p] ==> !(h.data[p] is None) && (piled(h.data[p]) ==> h.valive[own(h.data[p])] && h.vlive[own(h.data[p])].contains(p))
        && (!piled(h.data[p]) ==> own(h.data[p]) == p && nonelem(p))
}
/// distinct live nodes hold distinct payload objects
pub open spec fn upay(h: H) -> bool {
    forall|p: int, q: int| h.alive[p] && h.alive[q] && p != q && #[trigger] real(h.data[p]) && #[trigger] real(h.data[q]) ==> pay(h.data[p]) != pay(h.data[q])
}
pub open spec fn rel(h: H) -> bool { (forall|p: int| #[trigger] pok(h, p)) && (forall|v: int| #[trigger] vok(h, v)) && upay(h) }
/// the node is owned by its tree alone (no reference-counted handle to it)
pub open spec fn owned(h: H, p: int) -> bool { !piled(h.data[p]) ==> h.cnt[p] == 1 }
pub open spec fn owned_sub(h: H, r: int) -> bool { forall|q: int| #[trigger] sub(h, r, q) ==> owned(h, q) }
/// the payload object x is held by a node of the tree rooted at r
pub open spec fn held(h: H, r: int, x: int) -> bool { exists|q: int| #[trigger] sub(h, r, q) && real(h.data[q]) && pay(h.data[q]) == x }
pub open spec fn heldby(h: H, p: int, x: int) -> bool { real(h.data[p]) && pay(h.data[p]) == x }
pub open spec fn unheld(h: H, d: D) -> bool { real(d) ==> forall|q: int| h.alive[q] && #[trigger] real(h.data[q]) ==> pay(h.data[q]) != pay(d) }
// ------------------------------------------------ release of a single node
pub open spec fn kill(h: H, h2: H, p: int) -> bool {
    let d = h.data[p]; let v = own(d);
    &&& forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && q != p)
    &&& forall|q: int| q != p ==> #[trigger] h2.data[q] == h.data[q]
    &&& forall|q: int| q != p ==> #[trigger] h2.cnt[q] == h.cnt[q]
    &&& forall|x: int| #[trigger] h2.pd[x] == h.pd[x] + bi(real(d) && x == pay(d), 1)
    &&& forall|w: int| #[trigger] h2.vref[w] == h.vref[w] - bi(piled(d) && w == v, 1)
    &&& forall|w: int| #[trigger] h2.valive[w] == (h.valive[w] && !(piled(d) && w == v && h.vref[w] == 1))
    &&& forall|w: int| #[trigger] h2.vlive[w] == (if piled(d) && w == v { h.vlive[w].remove(p) } else { h.vlive[w] })
}
pub proof fn lemma_pok(h: H, p: int)
    requires rel(h), h.alive[p]
    ensures pok(h, p), vok(h, own(h.data[p])), piled(h.data[p]) ==> h.vref[own(h.data[p])] >= 1
{
    assert(pok(h, p)); assert(vok(h, own(h.data[p])));
    if piled(h.data[p]) { let s = h.vlive[own(h.data[p])]; assert(s.contains(p)); assert(s.len() > 0) by { if s.len() == 0 { s.lemma_len0_is_empty(); } } }
}
pub proof fn lemma_kill_rel(h: H, h2: H, p: int)
    requires rel(h), h.alive[p], kill(h, h2, p)
    ensures rel(h2)
{

    lemma_pok(h, p);
    let d = h.data[p]; let v = own(d);
    if piled(d) { assert(h.vlive[v].contains(p)); assert(h.vlive[v].remove(p).len() == h.vlive[v].len() - 1); assert(h.vlive[v].remove(p).finite()); }
    assert forall|q: int| #[trigger] pok(h2, q) by {
        assert(pok(h, q));
        if h2.alive[q] {
            if piled(h.data[q]) && piled(d) && own(h.data[q]) == v {
                assert(h.vlive[v].remove(p).contains(q));
                if h.vref[v] == 1 { assert(h.vlive[v].remove(p).len() == 0); h.vlive[v].remove(p).lemma_len0_is_empty(); assert(false); }
            }
        }
    }
    assert forall|w: int| #[trigger] vok(h2, w) by {
        assert(vok(h, w));
        if h2.valive[w] {
            assert forall|q: int| #[trigger] h2.vlive[w].contains(q) implies h2.alive[q] && piled(h2.data[q]) && own(h2.data[q]) == w by {
                assert(h.vlive[w].contains(q));
                if q == p { assert(piled(d) && w == v); assert(!h2.vlive[w].contains(p)); }
            }
        }
    }
}
/// links stay consistent when a root without children goes away
pub proof fn lemma_kill_wf(h: H, h2: H, p: int)
    requires wf(h), h.alive[p], h.up[p] is None, h.kids[p].len() == 0,
        forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && q != p), forall|q: int| q != p ==> #[trigger] h2.data[q] == h.data[q],
        h2.prev == h.prev, h2.next == h.next, h2.head == h.head, h2.tail == h.tail, h2.up == h.up, h2.deg == h.deg, h2.desc == h.desc, h2.kids == h.kids
    ensures wf(h2)
{
    assert forall|q: int| h2.alive[q] implies #[trigger] wf_node(h2, q) by { assert(wf_node(h, q)); if h.up[q] == Some(p) { assert(h.kids[p].contains(q)); } }
    assert forall|q: int, i: int| h2.alive[q] && 0 <= i < h2.kids[q].len() implies #[trigger] wf_kid(h2, q, i) by { assert(wf_kid(h, q, i)); }
}
// ------------------------------------------------ release of a whole tree
pub open spec fn same_node(h: H, h2: H, q: int) -> bool {
    h2.prev[q] == h.prev[q] && h2.next[q] == h.next[q] && h2.head[q] == h.head[q] && h2.tail[q] == h.tail[q] && h2.up[q] == h.up[q]
    && h2.deg[q] == h.deg[q] && h2.desc[q] == h.desc[q] && h2.kids[q] == h.kids[q]
}
/// everything that stays as it is while (part of) the tree at r is released
pub open spec fn partial(h: H, h2: H, r: int) -> bool {
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h.alive[q]
    &&& forall|q: int| h.alive[q] && !#[trigger] h2.alive[q] ==> anc(h.up, q, r)
    &&& forall|q: int| #[trigger] h2.alive[q] && !anc(h.up, q, r) ==> same_node(h, h2, q)
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.data[q] == h.data[q] && h2.cnt[q] == h.cnt[q]
    &&& forall|x: int| #[trigger] h2.pd[x] == h.pd[x] + bi(gone(h, h2, x), 1)
    &&& forall|v: int| h.vref[v] - #[trigger] h2.vref[v] == h.vlive[v].len() - h2.vlive[v].len()
    &&& forall|v: int| #[trigger] h2.valive[v] ==> h.valive[v] && (h2.vref[v] > 0 || h2.vref[v] == h.vref[v])
    &&& forall|v: int| h.valive[v] && !#[trigger] h2.valive[v] ==> h2.vref[v] == 0
    &&& forall|v: int| !h.valive[v] ==> #[trigger] h2.vref[v] == h.vref[v]
}
pub open spec fn gone(h: H, h2: H, x: int) -> bool { exists|q: int| #[trigger] h.alive[q] && !h2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x }
/// as many references to a buffer are given back as nodes of it released
pub open spec fn shrink(h: H, h2: H) -> bool {
    &&& forall|v: int| h.vref[v] - #[trigger] h2.vref[v] == h.vlive[v].len() - h2.vlive[v].len()
    &&& forall|v: int| #[trigger] h2.valive[v] ==> h.valive[v] && (h2.vref[v] > 0 || h2.vref[v] == h.vref[v])
    &&& forall|v: int| h.valive[v] && !#[trigger] h2.valive[v] ==> h2.vref[v] == 0
    &&& forall|v: int| !h.valive[v] ==> #[trigger] h2.vref[v] == h.vref[v]
}
/// loop invariant of dropping a tree: part of the tree below r is gone
pub open spec fn dropping(h: H, h2: H, r: int) -> bool {
    wf(h2) && rel(h2) && h2.alive[r] && h2.up[r] is None && partial(h, h2, r)
    && (forall|q: int| #[trigger] h2.alive[q] ==> h2.up[q] == h.up[q])
    && (forall|q: int| #[trigger] h2.alive[q] && q != r ==> h2.desc[q] == h.desc[q])
}
pub open spec fn dropped(h: H, h2: H, r: int) -> bool {
    wf(h2) && rel(h2) && partial(h, h2, r) && forall|q: int| h.alive[q] && anc(h.up, q, r) ==> !#[trigger] h2.alive[q]
}
/// the chain of an alive node is the same in both heaps
pub proof fn lemma_chain_keep(h: H, g: H, q: int)
    requires wf(g), g.alive[q], forall|q: int| #[trigger] g.alive[q] ==> g.up[q] == h.up[q]
    ensures forall|a: int| #[trigger] anc(g.up, q, a) == anc(h.up, q, a)
{
    lemma_chain_ok(g, q);
    assert forall|a: int| #[trigger] anc(g.up, q, a) implies h.up[a] == g.up[a] by { assert(g.alive[a]); }
    lemma_anc_frame(g.up, h.up, q);
}
pub proof fn lemma_drop_init(h: H, r: int)
    requires wf(h), rel(h), h.alive[r], h.up[r] is None
    ensures dropping(h, h, r)
{ }
pub proof fn lemma_dropping_same(h: H, g: H, g2: H, r: int)
    requires dropping(h, g, r), wf(g2), g2.alive == g.alive, g2.data == g.data, g2.cnt == g.cnt, g2.vref == g.vref, g2.valive == g.valive, g2.vlive == g.vlive, g2.pd == g.pd,
        forall|q: int| #[trigger] g2.prev[q] == g.prev[q], forall|q: int| #[trigger] g2.next[q] == g.next[q], forall|q: int| #[trigger] g2.head[q] == g.head[q],
        forall|q: int| #[trigger] g2.tail[q] == g.tail[q], forall|q: int| #[trigger] g2.up[q] == g.up[q], forall|q: int| #[trigger] g2.deg[q] == g.deg[q],
        forall|q: int| #[trigger] g2.desc[q] == g.desc[q], forall|q: int| #[trigger] g2.kids[q] == g.kids[q],
    ensures dropping(h, g2, r)
{
    assert forall|p: int| #[trigger] pok(g2, p) by { assert(pok(g, p)); } assert forall|v: int| #[trigger] vok(g2, v) by { assert(vok(g, v)); }
    assert forall|q: int| #[trigger] g2.alive[q] && !anc(h.up, q, r) implies same_node(h, g2, q) by { assert(g.alive[q]); assert(same_node(h, g, q)); }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        if gone(h, g, x) { let q = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(h.alive[q] && !g2.alive[q]); }
        if gone(h, g2, x) { let q = choose|q: int| #[trigger] h.alive[q] && !g2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(h.alive[q] && !g.alive[q]); }
    }
}
/// a root has no ancestor but itself
pub proof fn lemma_anc_root(up: Map<int, Option<int>>, r: int, q: int)
    requires up[r] is None
    ensures anc(up, r, q) <==> q == r
{ lemma_anc_unfold(up, r); lemma_anc_refl(up, r); }
/// the child to be released next has fewer nodes below it than the root had at first
pub proof fn lemma_drop_less(h: H, g: H, r: int)
    requires wf(h), h.alive[r], dropping(h, g, r), g.kids[r].len() > 0
    ensures 0 <= g.desc[g.kids[r][0]] < h.desc[r], g.kids[r][0] != r, !anc(g.up, r, g.kids[r][0])
{
    let c = g.kids[r][0];
    assert(wf_kid(g, r, 0)); assert(g.alive[c]); assert(h.alive[c]); assert(h.up[c] == Some(r)); assert(c != r);
    lemma_anc_root(g.up, r, c); lemma_up_desc(h, c);
}
/// one more child c = kids[r][0] removed (heap g1) and dropped (heap g2)
pub proof fn lemma_drop_step_pre(h: H, g: H, g1: H, r: int)
    requires wf(h), owned_sub(h, r), dropping(h, g, r), g.kids[r].len() > 0, wf(g1), rem_link(g, g1, r, 0), rem_size(g, g1, r, g.kids[r][0]), rem_kids(g, g1, r, 0),
        g1.alive == g.alive, g1.data == g.data, g1.cnt == g.cnt, g1.vref == g.vref, g1.valive == g.valive, g1.vlive == g.vlive
    ensures rel(g1), g1.alive[g.kids[r][0]], g1.up[g.kids[r][0]] is None, owned_sub(g1, g.kids[r][0]),
        forall|q: int| #[trigger] sub(g1, g.kids[r][0], q) ==> anc(h.up, q, r) && q != r
{
    let c = g.kids[r][0];
    lemma_kid2(g, r, 0);
    assert(rel(g1)) by { assert forall|p: int| #[trigger] pok(g1, p) by { assert(pok(g, p)); } assert forall|v: int| #[trigger] vok(g1, v) by { assert(vok(g, v)); } }
    assert forall|q: int| #[trigger] sub(g1, c, q) implies owned(g1, q) && anc(h.up, q, r) && q != r by {
        lemma_sub_rem(g, g1, r, 0, q);
        lemma_chain_keep(h, g, q);
        lemma_anc_trans(g.up, q, c, r);
        assert(sub(h, r, q));
        if q == r { assert(anc(g.up, r, c)); }
    }
}
/// after removal of child i: the nodes below it are the same as before
pub proof fn lemma_sub_rem(g: H, g1: H, r: int, i: int, q: int)
    requires wf(g), g.alive[r], 0 <= i < g.kids[r].len(), wf(g1), rem_link(g, g1, r, i), g1.alive == g.alive, g1.alive[q], anc(g1.up, q, g.kids[r][i])
    ensures anc(g.up, q, g.kids[r][i]), anc(g.up, g.kids[r][i], r), anc(g.up, q, r)
{
    let c = g.kids[r][i];
    assert(wf_kid(g, r, i));
    let j = choose|j: nat| #[trigger] nth(g1.up, q, j) == Some(c);
    lemma_nth_until(g, g1, q, c, j);
    assert(nth(g.up, q, j) == Some(c));
    lemma_anc_refl(g.up, r); lemma_anc_unfold(g.up, c);
    lemma_anc_trans(g.up, q, c, r);
}
pub proof fn lemma_nth_until(g: H, g1: H, q: int, c: int, j: nat)
    requires nth(g1.up, q, j) is Some, forall|x: int| x != c ==> #[trigger] g1.up[x] == g.up[x], g1.up[c] is None
    ensures nth(g.up, q, j) == nth(g1.up, q, j)
    decreases j
{ if j > 0 { lemma_nth_prefix(g1.up, q, j, (j - 1) as nat); lemma_nth_until(g, g1, q, c, (j - 1) as nat); } }
pub proof fn lemma_drop_step(h: H, g: H, g1: H, g2: H, r: int)
    requires wf(h), rel(h), h.alive[r], dropping(h, g, r), g.kids[r].len() > 0, wf(g1), rel(g1), rem_link(g, g1, r, 0), rem_size(g, g1, r, g.kids[r][0]), rem_kids(g, g1, r, 0),
        g1.alive == g.alive, g1.data == g.data, g1.cnt == g.cnt, g1.vref == g.vref, g1.valive == g.valive, g1.vlive == g.vlive, g1.pd == g.pd,
        dropped(g1, g2, g.kids[r][0]),
        forall|q: int| #[trigger] sub(g1, g.kids[r][0], q) ==> anc(h.up, q, r) && q != r
    ensures dropping(h, g2, r)
{
    let c = g.kids[r][0];
    lemma_kid2(g, r, 0);
    lemma_anc_unfold(g1.up, r);
    assert(g1.up[r] is None);
    assert(!anc(g1.up, r, c));
    assert(g2.alive[r]) by { if !g2.alive[r] { assert(g1.alive[r]); } }
    assert(same_node(g1, g2, r));
    assert forall|q: int| h.alive[q] && !#[trigger] g2.alive[q] implies anc(h.up, q, r) by {
        if g.alive[q] { assert(anc(g1.up, q, c)); assert(sub(g1, c, q)); }
    }
    assert forall|q: int| #[trigger] g2.alive[q] implies g2.up[q] == h.up[q] by {
        assert(g1.alive[q]); assert(g.alive[q]);
        if anc(g1.up, q, c) { assert(!g2.alive[q]); }
        assert(same_node(g1, g2, q));
        if q == c { lemma_anc_refl(g1.up, c); }
        assert(g1.up[q] == g.up[q]);
    }
    assert forall|q: int| #[trigger] g2.alive[q] && q != r implies g2.desc[q] == h.desc[q] by {
        assert(g1.alive[q]); assert(g.alive[q]);
        if anc(g1.up, q, c) { assert(!g2.alive[q]); }
        assert(same_node(g1, g2, q));
        lemma_anc_root(g.up, r, q);
        assert(g1.desc[q] == g.desc[q]);
    }
    assert forall|q: int| #[trigger] g2.alive[q] && !anc(h.up, q, r) implies same_node(h, g2, q) by {
        assert(g1.alive[q]); assert(g.alive[q]);
        assert(same_node(h, g, q));
        if anc(g1.up, q, c) { assert(!g2.alive[q]); }
        assert(same_node(g1, g2, q));
        lemma_chain_keep(h, g, q);
        // q is not r, not a child of r, not an ancestor of r
        lemma_anc_refl(h.up, q);
        assert(q != r);
        lemma_chain_ok(g, r);
        assert(!anc(g.up, r, q)) by { lemma_anc_unfold(g.up, r); }
        if g.kids[r].len() > 1 { assert(wf_kid(g, r, 1)); let c1 = g.kids[r][1]; lemma_anc_unfold(g.up, c1); lemma_anc_refl(g.up, r); assert(anc(g.up, c1, r)); assert(q != c1) by { if q == c1 { assert(anc(g.up, q, r)); } } }
        assert(q != c) by { if q == c { lemma_anc_unfold(g.up, c); lemma_anc_refl(g.up, r); assert(wf_kid(g, r, 0)); assert(anc(g.up, q, r)); } }
        assert(same_node(g, g1, q));
    }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g2.pd[x] == g1.pd[x] + bi(gone(g1, g2, x), 1));
        assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        if gone(g1, g2, x) {
            let q = choose|q: int| #[trigger] g1.alive[q] && !g2.alive[q] && real(g1.data[q]) && pay(g1.data[q]) == x;
            assert(h.alive[q]); assert(gone(h, g2, x));
            if gone(h, g, x) { let q2 = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(real(h.data[q])); assert(real(h.data[q2])); assert(q == q2); }
        } else if gone(h, g, x) {
            let q = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
            assert(!g2.alive[q]) by { if g2.alive[q] { assert(g1.alive[q]); } }
            assert(gone(h, g2, x));
        } else if gone(h, g2, x) {
            let q = choose|q: int| #[trigger] h.alive[q] && !g2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
            if g.alive[q] { assert(g1.alive[q]); assert(gone(g1, g2, x)); } else { assert(gone(h, g, x)); }
        }
    }
}
/// all children gone: only the root is left of the tree
pub proof fn lemma_drop_done(h: H, g: H, r: int)
    requires wf(h), dropping(h, g, r), g.kids[r].len() == 0
    ensures forall|q: int| #[trigger] g.alive[q] && anc(h.up, q, r) ==> q == r
{
    assert forall|q: int| #[trigger] g.alive[q] && anc(h.up, q, r) implies q == r by {
        lemma_chain_keep(h, g, q);
        if q != r {
            assert(anc(g.up, q, r)); lemma_anc_refl(g.up, q);
            let j = choose|j: nat| #[trigger] nth(g.up, q, j) == Some(r);
            assert(nth(g.up, q, 0) == Some(q)); assert(j > 0);
            lemma_nth_prefix(g.up, q, j, (j - 1) as nat);
            lemma_nth_alive(g, q, (j - 1) as nat);
            let c = nth(g.up, q, (j - 1) as nat)->Some_0;
            assert(wf_node(g, c)); assert(g.kids[r].contains(c));
        }
    }
}
/// the root itself released
pub proof fn lemma_drop_root(h: H, g: H, g2: H, r: int)
    requires wf(h), rel(h), h.alive[r], dropping(h, g, r), g.kids[r].len() == 0, kill(g, g2, r), g2.prev == g.prev, g2.next == g.next, g2.head == g.head, g2.tail == g.tail, g2.up == g.up, g2.deg == g.deg, g2.desc == g.desc, g2.kids == g.kids
    ensures dropped(h, g2, r)
{

    lemma_kill_rel(g, g2, r); lemma_kill_wf(g, g2, r); lemma_drop_done(h, g, r); lemma_pok(g, r);
    lemma_anc_refl(h.up, r);
    let d = g.data[r];
    if piled(d) { assert(g.vlive[own(d)].contains(r)); assert(g.vlive[own(d)].remove(r).len() == g.vlive[own(d)].len() - 1); }
    assert forall|q: int| h.alive[q] && !#[trigger] g2.alive[q] implies anc(h.up, q, r) by { if q != r { assert(!g.alive[q]); } }
    assert forall|q: int| #[trigger] g2.alive[q] && !anc(h.up, q, r) implies same_node(h, g2, q) by { assert(g.alive[q]); assert(same_node(h, g, q)); }
    assert forall|q: int| h.alive[q] && anc(h.up, q, r) implies !#[trigger] g2.alive[q] by { if g2.alive[q] { assert(g.alive[q]); } }
    assert forall|q: int| #[trigger] g2.alive[q] implies g2.data[q] == h.data[q] && g2.cnt[q] == h.cnt[q] by { assert(g.alive[q]); }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        if heldby(g, r, x) {
            assert(h.alive[r] && !g2.alive[r]); assert(gone(h, g2, x));
            if gone(h, g, x) { let q2 = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(real(h.data[r])); assert(real(h.data[q2])); assert(q2 == r); }
        } else if gone(h, g, x) {
            let q = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
            assert(h.alive[q] && !g2.alive[q]);
        } else if gone(h, g2, x) {
            let q = choose|q: int| #[trigger] h.alive[q] && !g2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
            if g.alive[q] { assert(q == r); } else { assert(gone(h, g, x)); }
        }
    }
}

// ------------------------------------------------ a new node
pub open spec fn born(h: H, h2: H, n: int, d: D) -> bool {
    &&& inmem(n)
    &&& forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] || q == n)
    &&& forall|q: int| q != n ==> #[trigger] h2.data[q] == h.data[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.up[q] == h.up[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.prev[q] == h.prev[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.next[q] == h.next[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.head[q] == h.head[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.tail[q] == h.tail[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.deg[q] == h.deg[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.desc[q] == h.desc[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.kids[q] == h.kids[q]
    &&& forall|q: int| q != n ==> #[trigger] h2.cnt[q] == h.cnt[q]
    &&& !h.alive[n] && h2.up[n] is None && h2.prev[n] is None && h2.next[n] is None && h2.head[n] is None && h2.tail[n] is None
    &&& h2.deg[n] == 0 && h2.desc[n] == 0 && h2.kids[n] == Seq::<int>::empty() && h2.cnt[n] == 1
    &&& nonelem(n)
    &&& h2.data[n] == (match d { D::Scattered{data, ..} => D::Scattered{data: data, owner: n}, _ => D::ScatteredNone{owner: n} })
}
pub proof fn lemma_born_wf(h: H, h2: H, n: int, d: D)
    requires wf(h), born(h, h2, n, d)
    ensures wf(h2)
{
    assert forall|q: int| h2.alive[q] implies #[trigger] wf_node(h2, q) by {
        if q == n { assert(sumd(h2.desc, h2.kids[n]) == 0); }
        else { assert(wf_node(h, q)); assert forall|i: int| 0 <= i < h.kids[q].len() implies h.desc[#[trigger] h.kids[q][i]] == h2.desc[h.kids[q][i]] by { assert(wf_kid(h, q, i)); } lemma_sumd_ext(h.desc, h2.desc, h.kids[q]); }
    }
    assert forall|q: int, i: int| h2.alive[q] && 0 <= i < h2.kids[q].len() implies #[trigger] wf_kid(h2, q, i) by { assert(q != n); assert(wf_kid(h, q, i)); }
}
pub proof fn lemma_born_rel(h: H, h2: H, n: int, d: D)
    requires rel(h), born(h, h2, n, d), unheld(h, d), h2.vref == h.vref, h2.valive == h.valive, h2.vlive == h.vlive
    ensures rel(h2)
{
    assert forall|p: int| #[trigger] pok(h2, p) by { assert(pok(h, p)); }
    assert forall|v: int| #[trigger] vok(h2, v) by { assert(vok(h, v)); }
}

/// heap after the payload of root r has been taken out
pub proof fn lemma_taken(h: H, g: H, r: int)
    requires wf(h), rel(h), h.alive[r], h.up[r] is None, real(h.data[r]), forall|q: int| q != r ==> #[trigger] g.data[q] == h.data[q],
        fake(g.data[r]), own(g.data[r]) == own(h.data[r]), piled(g.data[r]) == piled(h.data[r]),
        g.alive == h.alive, g.prev == h.prev, g.next == h.next, g.head == h.head, g.tail == h.tail, g.up == h.up, g.deg == h.deg, g.desc == h.desc, g.kids == h.kids,
        g.vref == h.vref, g.valive == h.valive, g.vlive == h.vlive
    ensures wf(g), rel(g), unheld(g, D::Scattered{data: pay(h.data[r]), owner: 0})
{
    assert forall|p: int| g.alive[p] implies #[trigger] wf_node(g, p) by { assert(wf_node(h, p)); }
    assert forall|p: int, i: int| g.alive[p] && 0 <= i < g.kids[p].len() implies #[trigger] wf_kid(g, p, i) by { assert(wf_kid(h, p, i)); }
    assert forall|p: int| #[trigger] pok(g, p) by { assert(pok(h, p)); }
    assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); }
    assert forall|q: int| g.alive[q] && #[trigger] real(g.data[q]) implies pay(g.data[q]) != pay(h.data[r]) by { assert(real(h.data[q])); }
}
/// a root without children goes away, its payload is handed out
pub proof fn lemma_taken_out(h: H, h2: H, p: int)
    requires wf(h), rel(h), h.alive[p], h.up[p] is None, h.kids[p].len() == 0,
        forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && q != p), forall|q: int| q != p ==> #[trigger] h2.data[q] == h.data[q], forall|q: int| q != p ==> #[trigger] h2.cnt[q] == h.cnt[q],
        forall|w: int| #[trigger] h2.vref[w] == h.vref[w] - bi(piled(h.data[p]) && w == own(h.data[p]), 1),
        forall|w: int| #[trigger] h2.valive[w] == (h.valive[w] && !(piled(h.data[p]) && w == own(h.data[p]) && h.vref[w] == 1)),
        forall|w: int| #[trigger] h2.vlive[w] == (if piled(h.data[p]) && w == own(h.data[p]) { h.vlive[w].remove(p) } else { h.vlive[w] }),
        h2.prev == h.prev, h2.next == h.next, h2.head == h.head, h2.tail == h.tail, h2.up == h.up, h2.deg == h.deg, h2.desc == h.desc, h2.kids == h.kids
    ensures wf(h2), rel(h2)
{
    lemma_kill_wf(h, h2, p);
    let h3 = H { pd: if real(h.data[p]) { h.pd.insert(pay(h.data[p]), h.pd[pay(h.data[p])] + 1) } else { h.pd }, ..h2 };
    assert(kill(h, h3, p));
    lemma_kill_rel(h, h3, p);
    assert forall|q: int| #[trigger] pok(h2, q) by { assert(pok(h3, q)); }
    assert forall|w: int| #[trigger] vok(h2, w) by { assert(vok(h3, w)); }
    assert forall|a: int, b: int| h2.alive[a] && h2.alive[b] && a != b && real(h2.data[a]) && real(h2.data[b]) implies pay(h2.data[a]) != pay(h2.data[b]) by { assert(real(h3.data[a]) && real(h3.data[b])); }
}
