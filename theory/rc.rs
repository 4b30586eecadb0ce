// ------------------------------------------------ reference-counted handles (C13, C14)
pub open spec fn wt(c: int) -> int { if c > 1 { c } else { 1 } }
/// references that the live nodes among the first n slots of a buffer account for
pub open spec fn wsumn(cnt: Map<int, int>, live: Set<int>, v: int, n: nat) -> int decreases n {
    if n == 0 { 0 } else { wsumn(cnt, live, v, (n - 1) as nat) + (if live.contains(elem(v, n - 1)) { wt(cnt[elem(v, n - 1)]) } else { 0 }) }
}
pub open spec fn nsl(v: int) -> nat { if nslots(v) >= 0 { nslots(v) as nat } else { 0 } }
pub open spec fn wsum(h: H, v: int) -> int { wsumn(h.cnt, h.vlive[v], v, nsl(v)) }
/// a buffer has a reference for every handle to (and every link or owner of) its live nodes
pub open spec fn rcv(h: H) -> bool { forall|v: int| #[trigger] h.valive[v] ==> h.vref[v] >= wsum(h, v) }
/// the link from the parent counts as a reference
pub open spec fn links(h: H) -> bool { forall|q: int| #[trigger] h.alive[q] && h.up[q] is Some ==> h.cnt[q] >= 1 }
pub open spec fn rcok(h: H) -> bool { wf(h) && rel(h) && rcv(h) && links(h) }

pub proof fn lemma_elem_inj(v: int, i: int, j: int)
    requires 0 <= i < nslots(v), 0 <= j < nslots(v), elem(v, i) == elem(v, j)
    ensures i == j
{ axiom_layout(v); assert((addr_p(elem(v, i)) - addr_pb(base(v))) / sizeof_shared() == i); assert((addr_p(elem(v, j)) - addr_pb(base(v))) / sizeof_shared() == j); }
pub proof fn lemma_wsumn_same(c1: Map<int, int>, c2: Map<int, int>, live: Set<int>, v: int, n: nat)
    requires forall|q: int| #[trigger] live.contains(q) ==> wt(c1[q]) == wt(c2[q])
    ensures wsumn(c1, live, v, n) == wsumn(c2, live, v, n)
    decreases n
{ if n > 0 { lemma_wsumn_same(c1, c2, live, v, (n - 1) as nat); } }
/// one live slot changes its weight by e
pub proof fn lemma_wsumn_bump(c1: Map<int, int>, c2: Map<int, int>, live: Set<int>, v: int, n: nat, i: int, e: int)
    requires 0 <= i < nslots(v), n <= nslots(v), live.contains(elem(v, i)), wt(c2[elem(v, i)]) == wt(c1[elem(v, i)]) + e, forall|q: int| q != elem(v, i) ==> #[trigger] c2[q] == c1[q]
    ensures wsumn(c2, live, v, n) == wsumn(c1, live, v, n) + (if i < n { e } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_wsumn_bump(c1, c2, live, v, (n - 1) as nat, i, e);
        if i != n - 1 { if elem(v, n - 1) == elem(v, i) { lemma_elem_inj(v, i, n - 1); } }
    }
}
/// one live slot goes away
pub proof fn lemma_wsumn_kill(c1: Map<int, int>, c2: Map<int, int>, live: Set<int>, v: int, n: nat, i: int)
    requires 0 <= i < nslots(v), n <= nslots(v), live.contains(elem(v, i)), forall|q: int| q != elem(v, i) ==> #[trigger] c2[q] == c1[q]
    ensures wsumn(c2, live.remove(elem(v, i)), v, n) == wsumn(c1, live, v, n) - (if i < n { wt(c1[elem(v, i)]) } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_wsumn_kill(c1, c2, live, v, (n - 1) as nat, i);
        if i != n - 1 { if elem(v, n - 1) == elem(v, i) { lemma_elem_inj(v, i, n - 1); } }
    }
}
pub open spec fn slotn(v: int, p: int, n: nat) -> bool { exists|i: int| 0 <= i < n && #[trigger] elem(v, i) == p }
/// at least one reference per live node
pub proof fn lemma_wsumn_card(cnt: Map<int, int>, s: Set<int>, live: Set<int>, v: int, n: nat)
    requires s.finite(), forall|p: int| #[trigger] s.contains(p) ==> live.contains(p) && slotn(v, p, n)
    ensures s.len() <= wsumn(cnt, live, v, n)
    decreases n
{
    if n == 0 { assert forall|p: int| !s.contains(p) by { if s.contains(p) { assert(slotn(v, p, 0)); } } assert(s =~= Set::<int>::empty()); }
    else {
        let m = (n - 1) as nat; let e = elem(v, n - 1); let t = s.remove(e);
        assert forall|p: int| #[trigger] t.contains(p) implies live.contains(p) && slotn(v, p, m) by {
            assert(s.contains(p)); assert(slotn(v, p, n));
            let i = choose|i: int| 0 <= i < n && #[trigger] elem(v, i) == p;
            assert(i != n - 1); assert(0 <= i < m && elem(v, i) == p);
        }
        lemma_wsumn_card(cnt, t, live, v, m);
        if s.contains(e) { assert(t.len() == s.len() - 1); } else { assert(t =~= s); }
    }
}
pub proof fn lemma_wsum_card(h: H, v: int)
    requires vok(h, v), h.valive[v]
    ensures h.vlive[v].len() <= wsum(h, v)
{
    let s = h.vlive[v];
    assert forall|p: int| #[trigger] s.contains(p) implies s.contains(p) && slotn(v, p, nsl(v)) by {
        assert(h.vlive[v].contains(p)); assert(slot(v, p)); let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(0 <= i < nsl(v) && elem(v, i) == p);
    }
    lemma_wsumn_card(h.cnt, s, s, v, nsl(v));
}
/// a live node of a buffer: its slot number, and the buffer still has a reference
pub open spec fn idx(v: int, p: int) -> int { choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p }
pub proof fn lemma_slot(h: H, p: int)
    requires rel(h), h.alive[p], piled(h.data[p])
    ensures ({ let v = own(h.data[p]); h.valive[v] && h.vlive[v].contains(p) && slot(v, p) && 0 <= idx(v, p) < nslots(v) && elem(v, idx(v, p)) == p && h.vref[v] >= 1
        && (addr_p(p) - addr_pb(base(v))) / sizeof_shared() == idx(v, p) && addr_p(p) >= addr_pb(base(v)) && sizeof_shared() > 0 })
{ let v = own(h.data[p]); lemma_pok(h, p); axiom_layout(v); assert(vok(h, v)); assert(h.vlive[v].contains(p)); assert(slot(v, p)); assert(elem(v, idx(v, p)) == p); }
/// what a handle denotes: a live node, either on its own or in its buffer
pub open spec fn hs(h: H, p: int) -> bool { h.alive[p] && h.data[p] is Scattered }
pub open spec fn hp(h: H, v: int, i: int) -> bool { 0 <= i < nslots(v) && h.valive[v] && h.alive[elem(v, i)] && h.data[elem(v, i)] is Piled && own(h.data[elem(v, i)]) == v }
/// what a weak handle denotes; a slot of a buffer has a count exactly as long as its node is alive
pub open spec fn wp(h: H, v: int, i: int) -> bool { 0 <= i < nslots(v) && h.valive[v] && (h.alive[elem(v, i)] ==> h.data[elem(v, i)] is Piled && own(h.data[elem(v, i)]) == v) && (h.alive[elem(v, i)] <==> h.cnt[elem(v, i)] != 0) }
/// no link from the parent to the node survives it
pub open spec fn rdrop(h: H, h2: H, p: int) -> bool {
    rcok(h2) && (h.cnt[p] > 1 ==> recount(h, h2, p, -1) && same_nodes(h, h2)) && (h.cnt[p] == 1 ==> rdropped(h, h2, p))
}
pub open spec fn same_nodes(h: H, h2: H) -> bool {
    &&& forall|q: int| #[trigger] h2.alive[q] == h.alive[q]
    &&& forall|q: int| #[trigger] h2.data[q] == h.data[q]
    &&& forall|q: int| same_node(h, h2, q)
    &&& forall|x: int| #[trigger] h2.pd[x] == h.pd[x]
    &&& forall|x: int| #[trigger] h2.valive[x] == h.valive[x]
    &&& forall|x: int| #[trigger] h2.vlive[x] == h.vlive[x]
}

// ------------------------------------------------ one handle more or less
/// the reference count of a live node (and of its buffer) changes by e
pub open spec fn recount(h: H, h2: H, p: int, e: int) -> bool {
    &&& forall|q: int| #[trigger] h2.cnt[q] == h.cnt[q] + bi(q == p, e)
    &&& forall|w: int| #[trigger] h2.vref[w] == h.vref[w] + bi(piled(h.data[p]) && w == own(h.data[p]), e)
}
pub open spec fn same_but_counts(h: H, h2: H) -> bool {
    h2.prev == h.prev && h2.next == h.next && h2.head == h.head && h2.tail == h.tail && h2.up == h.up && h2.deg == h.deg && h2.desc == h.desc
    && h2.data == h.data && h2.alive == h.alive && h2.valive == h.valive && h2.pd == h.pd && h2.vlive == h.vlive && h2.kids == h.kids
}
pub proof fn lemma_recount(h: H, h2: H, p: int, e: int)
    requires rcok(h), h.alive[p], h.cnt[p] >= 1, h.cnt[p] + e >= 1, recount(h, h2, p, e), same_but_counts(h, h2)
    ensures rcok(h2)
{
    lemma_wf_same(h, h2);
    lemma_pok(h, p);
    assert forall|w: int| #[trigger] h2.valive[w] implies h2.vref[w] >= wsum(h2, w) by {
        assert(h.valive[w]); assert(h.vref[w] >= wsum(h, w));
        if h.vlive[w].contains(p) {
            assert(vok(h, w)); lemma_slot(h, p);
            lemma_wsumn_bump(h.cnt, h2.cnt, h.vlive[w], w, nsl(w), idx(w, p), e);
        } else { lemma_wsumn_same(h.cnt, h2.cnt, h.vlive[w], w, nsl(w)); }
    }
    assert forall|q: int| #[trigger] pok(h2, q) by { assert(pok(h, q)); }
    assert forall|w: int| #[trigger] vok(h2, w) by {
        assert(vok(h, w));
        if h2.valive[w] { assert(h.valive[w]); lemma_wsum_card(h, w); if h.vref[w] != h2.vref[w] {
            lemma_slot(h, p); lemma_wsumn_bump(h.cnt, h2.cnt, h.vlive[w], w, nsl(w), idx(w, p), e);
            let h3 = H { vref: h.vref, ..h2 }; assert(vok(h3, w)); lemma_wsum_card(h3, w); assert(wsum(h3, w) == wsum(h2, w)); } }
    }
    assert(rel(h2));
}

// ------------------------------------------------ the last handle of a node
/// every node from q up to (but excluding) p is referred to only by its parent
pub open spec fn rdn(h: H, p: int, q: int, j: nat) -> bool decreases j { q == p || (j > 0 && h.cnt[q] == 1 && h.up[q] is Some && rdn(h, p, h.up[q]->Some_0, (j - 1) as nat)) }
pub open spec fn rd(h: H, p: int, q: int) -> bool { exists|j: nat| #[trigger] rdn(h, p, q, j) }
pub proof fn lemma_rd(h: H, p: int, q: int)
    ensures rd(h, p, q) <==> (q == p || (h.cnt[q] == 1 && h.up[q] is Some && rd(h, p, h.up[q]->Some_0)))
{
    if rd(h, p, q) && q != p { let j = choose|j: nat| #[trigger] rdn(h, p, q, j); assert(rdn(h, p, h.up[q]->Some_0, (j - 1) as nat)); }
    if q == p { assert(rdn(h, p, q, 0)); }
    else if h.cnt[q] == 1 && h.up[q] is Some && rd(h, p, h.up[q]->Some_0) { let j = choose|j: nat| #[trigger] rdn(h, p, h.up[q]->Some_0, j); assert(rdn(h, p, q, j + 1)); }
}
/// released when the handle to p goes away
pub open spec fn rdead(h: H, p: int, q: int) -> bool { h.cnt[p] == 1 && h.alive[q] && rd(h, p, q) }
/// survives its parent
pub open spec fn orphan(h: H, p: int, q: int) -> bool { h.alive[q] && !rdead(h, p, q) && h.up[q] is Some && rdead(h, p, h.up[q]->Some_0) }
pub open spec fn acct(h: H, h2: H) -> bool {
    &&& forall|x: int| #[trigger] h2.pd[x] == h.pd[x] + bi(gone(h, h2, x), 1)
    &&& forall|v: int| h.vref[v] - #[trigger] h2.vref[v] == wsum(h, v) - wsum(h2, v)
    &&& forall|v: int| #[trigger] h2.valive[v] ==> h.valive[v] && (h2.vref[v] > 0 || h2.vref[v] == h.vref[v])
    &&& forall|v: int| h.valive[v] && !#[trigger] h2.valive[v] ==> h2.vref[v] == 0
    &&& forall|v: int| !h.valive[v] ==> #[trigger] h2.vref[v] == h.vref[v]
}
pub open spec fn rdropped(h: H, h2: H, p: int) -> bool {
    &&& rcok(h2)
    &&& forall|q: int| #[trigger] h2.alive[q] == (h.alive[q] && !rdead(h, p, q))
    &&& forall|q: int| #[trigger] h2.alive[q] ==> h2.data[q] == h.data[q] && h2.kids[q] == h.kids[q] && h2.head[q] == h.head[q] && h2.tail[q] == h.tail[q] && h2.deg[q] == h.deg[q] && h2.desc[q] == h.desc[q]
    &&& forall|q: int| #[trigger] h2.alive[q] && !orphan(h, p, q) ==> h2.up[q] == h.up[q] && h2.prev[q] == h.prev[q] && h2.next[q] == h.next[q]
    &&& forall|q: int| #[trigger] h2.alive[q] && orphan(h, p, q) ==> h2.up[q] is None
    &&& forall|q: int| #[trigger] h2.cnt[q] == (if rdead(h, p, q) { 0 } else if orphan(h, p, q) || q == p { h.cnt[q] - 1 } else { h.cnt[q] })
    &&& acct(h, h2)
}
/// while the children of p are released; h is the heap before, p itself has no reference left
pub open spec fn rdropping(h: H, g: H, p: int) -> bool {
    &&& rcok(g) && g.alive[p] && g.up[p] is None && h.alive[p] && h.up[p] is None && !h.kids[p].contains(p)
    &&& forall|q: int| #[trigger] g.alive[q] ==> h.alive[q] && g.data[q] == h.data[q]
    &&& forall|q: int| h.alive[q] && !#[trigger] g.alive[q] ==> rd(h, p, q) && q != p && g.cnt[q] == 0
    &&& forall|q: int| !h.alive[q] ==> #[trigger] g.cnt[q] == h.cnt[q]
    &&& forall|q: int| #[trigger] g.alive[q] ==> rd(g, p, q) == rd(h, p, q)
    &&& forall|q: int| #[trigger] g.alive[q] && q != p ==> g.kids[q] == h.kids[q] && g.head[q] == h.head[q] && g.tail[q] == h.tail[q] && g.deg[q] == h.deg[q] && g.desc[q] == h.desc[q]
    &&& forall|q: int| #[trigger] g.alive[q] ==> kept(h, g, p, q) || freed(h, g, p, q)
    &&& acct(h, g)
}
pub open spec fn kept(h: H, g: H, p: int, q: int) -> bool { g.up[q] == h.up[q] && (q != p ==> g.cnt[q] == h.cnt[q]) && (h.up[q] != Some(p) ==> g.prev[q] == h.prev[q] && g.next[q] == h.next[q]) }
pub open spec fn freed(h: H, g: H, p: int, q: int) -> bool { q != p && h.up[q] is Some && h.alive[h.up[q]->Some_0] && rd(h, p, h.up[q]->Some_0) && !rd(h, p, q) && g.up[q] is None && g.cnt[q] == h.cnt[q] - 1 }

pub proof fn lemma_rdropping_init(h: H, g: H, p: int)
    requires rcok(h), h.alive[p], h.up[p] is None, h.cnt[p] == 1, same_but_counts(h, g), g.vref == h.vref, forall|q: int| q != p ==> #[trigger] g.cnt[q] == h.cnt[q], g.cnt[p] <= 1
    ensures rdropping(h, g, p)
{
    lemma_wf_same(h, g);
    assert forall|v: int| #[trigger] wsum(g, v) == wsum(h, v) by { lemma_wsumn_same(h.cnt, g.cnt, h.vlive[v], v, nsl(v)); }
    assert forall|v: int| #[trigger] g.valive[v] implies g.vref[v] >= wsum(g, v) by { assert(h.valive[v]); assert(wsum(g, v) == wsum(h, v)); }
    assert forall|q: int| #[trigger] pok(g, q) by { assert(pok(h, q)); }
    assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); }
    assert(!h.kids[p].contains(p)) by { if h.kids[p].contains(p) { let i = choose|i: int| 0 <= i < h.kids[p].len() && h.kids[p][i] == p; assert(wf_kid(h, p, i)); } }
    assert forall|q: int| #[trigger] g.alive[q] implies rd(g, p, q) == rd(h, p, q) by {
        if rd(g, p, q) { let j = choose|j: nat| #[trigger] rdn(g, p, q, j); lemma_rdn_same(g, h, p, q, j); }
        if rd(h, p, q) { let j = choose|j: nat| #[trigger] rdn(h, p, q, j); lemma_rdn_same(h, g, p, q, j); }
    }
    assert forall|q: int| #[trigger] g.alive[q] implies kept(h, g, p, q) by { }
    assert forall|x: int| #[trigger] g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1) by { assert(!gone(h, g, x)); }
    assert forall|v: int| h.vref[v] - #[trigger] g.vref[v] == wsum(h, v) - wsum(g, v) by { assert(wsum(g, v) == wsum(h, v)); }
}
pub proof fn lemma_rdn_same(g: H, h: H, p: int, q: int, j: nat)
    requires rdn(g, p, q, j), g.up == h.up, forall|x: int| x != p ==> #[trigger] g.cnt[x] == h.cnt[x]
    ensures rdn(h, p, q, j), rd(h, p, q)
    decreases j
{ if q != p { lemma_rdn_same(g, h, p, g.up[q]->Some_0, (j - 1) as nat); } assert(rdn(h, p, q, j)); }
/// taking out the first child
/// the child to be released next has fewer nodes below it than the node had at first
pub proof fn lemma_rd_less(h: H, g: H, p: int)
    requires wf(h), rdropping(h, g, p), g.kids[p].len() > 0
    ensures 0 <= g.desc[g.kids[p][0]] < h.desc[p], g.kids[p][0] != p, !anc(g.up, p, g.kids[p][0])
{
    let c = g.kids[p][0];
    assert(wf_kid(g, p, 0)); assert(g.alive[c]); assert(h.alive[c]); assert(c != p);
    assert(kept(h, g, p, c) || freed(h, g, p, c));
    assert(h.up[c] == Some(p));
    lemma_anc_root(g.up, p, c); lemma_up_desc(h, c);
}
pub proof fn lemma_rd_step_pre(h: H, g: H, g1: H, p: int)
    requires rdropping(h, g, p), g.kids[p].len() > 0, wf(g1), rem_link(g, g1, p, 0), rem_size(g, g1, p, g.kids[p][0]), rem_kids(g, g1, p, 0),
        g1.alive == g.alive, g1.data == g.data, g1.cnt == g.cnt, g1.vref == g.vref, g1.valive == g.valive, g1.vlive == g.vlive
    ensures rcok(g1), g1.alive[g.kids[p][0]], g1.up[g.kids[p][0]] is None, g1.cnt[g.kids[p][0]] >= 1, real(g1.data[g.kids[p][0]]), g.kids[p][0] != p, g1.alive[p], g1.data[p] == g.data[p]
{
    let c = g.kids[p][0];
    lemma_kid2(g, p, 0);
    lemma_anc_refl(g.up, p);
    assert forall|q: int| #[trigger] pok(g1, q) by { assert(pok(g, q)); }
    assert forall|v: int| #[trigger] vok(g1, v) by { assert(vok(g, v)); }
    assert forall|v: int| #[trigger] g1.valive[v] implies g1.vref[v] >= wsum(g1, v) by { assert(g.valive[v]); }
}
/// a child was taken out (g1) and its handle dropped (g2)
pub proof fn lemma_rd_child(g: H, g1: H, c: int, p: int, q: int, j: nat)
    requires rdn(g1, c, q, j), forall|x: int| x != c ==> #[trigger] g1.up[x] == g.up[x], g1.cnt == g.cnt, g.cnt[c] == 1, g.up[c] == Some(p)
    ensures rd(g, p, q)
    decreases j
{
    lemma_rd(g, p, q); lemma_rd(g, p, p);
    if q != c { lemma_rd_child(g, g1, c, p, g1.up[q]->Some_0, (j - 1) as nat); }
}
pub proof fn lemma_rd_back(g: H, g1: H, g2: H, p: int, c: int, q: int, j: nat)
    requires rdn(g2, p, q, j), g2.alive[q], rcok(g2), rdropped(g1, g2, c), g1.up[c] is None, forall|x: int| x != c ==> #[trigger] g1.up[x] == g.up[x], g1.cnt == g.cnt
    ensures rd(g, p, q)
    decreases j
{
    lemma_rd(g, p, q);
    if q != p {
        let u = g2.up[q]->Some_0;
        assert(wf_node(g2, q));
        assert(!orphan(g1, c, q));
        assert(g2.up[q] == g1.up[q]);
        assert(q != c);
        assert(g2.cnt[q] == g1.cnt[q]);
        lemma_rd_back(g, g1, g2, p, c, u, (j - 1) as nat);
    }
}
pub proof fn lemma_rd_forth(g: H, g1: H, g2: H, p: int, c: int, q: int, j: nat)
    requires rdn(g, p, q, j), g2.alive[q], rcok(g2), rdropped(g1, g2, c), g1.up[c] is None, forall|x: int| x != c ==> #[trigger] g1.up[x] == g.up[x], g1.cnt == g.cnt
    ensures rd(g2, p, q)
    decreases j
{
    lemma_rd(g2, p, q);
    if q != p {
        let u = g.up[q]->Some_0;
        assert(g1.alive[q]);
        lemma_rd(g1, c, q); lemma_rd(g1, c, u);
        assert(q != c);
        assert(!orphan(g1, c, q)) by { if orphan(g1, c, q) { assert(rdead(g1, c, u)); assert(rd(g1, c, q)); assert(rdead(g1, c, q)); } }
        assert(g2.up[q] == g1.up[q]);
        assert(wf_node(g2, q));
        assert(g2.cnt[q] == g1.cnt[q]);
        lemma_rd_forth(g, g1, g2, p, c, u, (j - 1) as nat);
    }
}
pub open spec fn rdstep(h: H, g: H, g1: H, g2: H, p: int) -> bool {
    &&& rdropping(h, g, p) && g.kids[p].len() > 0 && wf(g1) && rem_link(g, g1, p, 0) && rem_size(g, g1, p, g.kids[p][0]) && rem_kids(g, g1, p, 0)
    &&& g1.alive == g.alive && g1.data == g.data && g1.cnt == g.cnt && g1.vref == g.vref && g1.valive == g.valive && g1.vlive == g.vlive && g1.pd == g.pd
    &&& rcok(g1) && rdropped(g1, g2, g.kids[p][0])
}
pub proof fn lemma_rdstep_alive(h: H, g: H, g1: H, g2: H, p: int)
    requires rdstep(h, g, g1, g2, p)
    ensures g2.alive[p], g2.up[p] is None, g2.cnt[p] == g.cnt[p],
        forall|q: int| #[trigger] g2.alive[q] ==> g1.alive[q] && g.alive[q] && h.alive[q] && g2.data[q] == h.data[q],
        forall|q: int| #[trigger] g2.alive[q] ==> rd(g2, p, q) == rd(h, p, q),
        forall|q: int| rdead(g1, g.kids[p][0], q) ==> #[trigger] g1.alive[q] && rd(h, p, q) && q != p,
        forall|q: int| h.alive[q] && !#[trigger] g2.alive[q] ==> rd(h, p, q) && q != p && g2.cnt[q] == 0,
        forall|q: int| !h.alive[q] ==> #[trigger] g2.cnt[q] == h.cnt[q],
{
    let c = g.kids[p][0];
    lemma_kid2(g, p, 0);
    lemma_rd(g1, c, p);
    assert(g1.up[p] is None); assert(c != p);
    assert(!rdead(g1, c, p)); assert(!orphan(g1, c, p));
    assert(g1.alive[p]); assert(g2.alive[p]); assert(g2.up[p] == g1.up[p]);
    assert forall|q: int| #[trigger] g2.alive[q] implies rd(g2, p, q) == rd(h, p, q) by {
        assert(g1.alive[q]); assert(g.alive[q]);
        if rd(g2, p, q) { let j = choose|j: nat| #[trigger] rdn(g2, p, q, j); lemma_rd_back(g, g1, g2, p, c, q, j); }
        if rd(g, p, q) { let j = choose|j: nat| #[trigger] rdn(g, p, q, j); lemma_rd_forth(g, g1, g2, p, c, q, j); }
    }
    assert forall|q: int| rdead(g1, c, q) implies #[trigger] g1.alive[q] && rd(h, p, q) && q != p by {
        let j = choose|j: nat| #[trigger] rdn(g1, c, q, j);
        lemma_rd_child(g, g1, c, p, q, j);
        assert(g.alive[q]);
    }
    assert forall|q: int| h.alive[q] && !#[trigger] g2.alive[q] implies rd(h, p, q) && q != p && g2.cnt[q] == 0 by {
        if g.alive[q] { assert(g1.alive[q]); assert(rdead(g1, c, q)); }
        else { assert(!g1.alive[q]); assert(g2.cnt[q] == g1.cnt[q]); }
    }
    assert forall|q: int| !h.alive[q] implies #[trigger] g2.cnt[q] == h.cnt[q] by { assert(!g.alive[q]); assert(!g1.alive[q]); assert(g2.cnt[q] == g1.cnt[q]); assert(g.cnt[q] == h.cnt[q]); }
}
pub proof fn lemma_rdstep_kept(h: H, g: H, g1: H, g2: H, p: int, q: int)
    requires rdstep(h, g, g1, g2, p), g2.alive[q]
    ensures kept(h, g2, p, q) || freed(h, g2, p, q),
        q != p ==> g2.kids[q] == h.kids[q] && g2.head[q] == h.head[q] && g2.tail[q] == h.tail[q] && g2.deg[q] == h.deg[q] && g2.desc[q] == h.desc[q]
{
    let c = g.kids[p][0];
    lemma_rdstep_alive(h, g, g1, g2, p);
    lemma_kid2(g, p, 0);
    assert(g1.alive[q]); assert(g.alive[q]);
    assert(wf_node(g, q)); assert(wf_node(g, p)); assert(wf_node(h, q) || true);
    lemma_rd(h, p, p); lemma_rd(g2, p, q); lemma_rd(g, p, q); lemma_rd(h, p, q);
    if q != p {
        lemma_anc_unfold(g.up, p);
        assert(!anc(g.up, p, q)) by { if anc(g.up, p, q) { assert(g.up[p] is None); } }
        assert(g1.deg[q] == g.deg[q]); assert(g1.desc[q] == g.desc[q]); assert(g1.kids[q] == g.kids[q]);
        assert(g1.head[q] == g.head[q]); assert(g1.tail[q] == g.tail[q]);
    }
    if orphan(g1, c, q) {
        let u = g1.up[q]->Some_0;
        assert(q != c); assert(rdead(g1, c, u));
        assert(g1.alive[u]); assert(rd(h, p, u));
        assert(kept(h, g, p, q) || freed(h, g, p, q));
        assert(g.up[q] == Some(u));
        assert(h.up[q] == Some(u)); assert(q != p);
        assert(g.alive[u]); assert(h.alive[u]);
        assert(g2.up[q] is None); assert(!rd(g2, p, q)); assert(!rd(h, p, q));
        assert(g2.cnt[q] == g1.cnt[q] - 1);
        assert(freed(h, g2, p, q));
    } else if q == c {
        assert(g2.cnt[c] == g1.cnt[c] - 1);
        assert(!rdead(g1, c, c)); lemma_rd(g1, c, c); assert(g1.cnt[c] != 1);
        assert(g2.up[c] is None);
        assert(kept(h, g, p, q) || freed(h, g, p, q));
        assert(h.up[c] == Some(p));
        assert(!rd(h, p, c));
        assert(freed(h, g2, p, q));
    } else {
        assert(g2.up[q] == g1.up[q] && g2.cnt[q] == g1.cnt[q] && g2.prev[q] == g1.prev[q] && g2.next[q] == g1.next[q]);
        assert(g1.up[q] == g.up[q]);
        if freed(h, g, p, q) { assert(freed(h, g2, p, q)); }
        else {
            assert(kept(h, g, p, q));
            if h.up[q] != Some(p) {
                if g.kids[p].len() > 1 { assert(wf_kid(g, p, 1)); }
                assert(g1.prev[q] == g.prev[q]); assert(g1.next[q] == g.next[q]);
            }
            assert(kept(h, g2, p, q));
        }
    }
}
pub proof fn lemma_acct_pd(h: H, g: H, g1: H, g2: H, x: int)
    requires rel(h), forall|q: int| #[trigger] g.alive[q] ==> h.alive[q] && g.data[q] == h.data[q], g1.alive == g.alive, g1.data == g.data, g1.pd == g.pd,
        forall|q: int| #[trigger] g2.alive[q] ==> g1.alive[q],
        g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1), g2.pd[x] == g1.pd[x] + bi(gone(g1, g2, x), 1)
    ensures g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1)
{
    if gone(g1, g2, x) {
        let q = choose|q: int| #[trigger] g1.alive[q] && !g2.alive[q] && real(g1.data[q]) && pay(g1.data[q]) == x;
        assert(g.alive[q]); assert(h.alive[q]); assert(gone(h, g2, x));
        if gone(h, g, x) { let q2 = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(real(h.data[q])); assert(real(h.data[q2])); assert(q == q2); }
    } else if gone(h, g, x) {
        let q = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
        assert(!g2.alive[q]) by { if g2.alive[q] { assert(g1.alive[q]); } }
        assert(gone(h, g2, x));
    } else if gone(h, g2, x) {
        let q = choose|q: int| #[trigger] h.alive[q] && !g2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x;
        if g.alive[q] { assert(g1.alive[q]); assert(gone(g1, g2, x)); } else { assert(gone(h, g, x)); }
    }
}
pub proof fn lemma_rd_step(h: H, g: H, g1: H, g2: H, p: int)
    requires rel(h), rdstep(h, g, g1, g2, p)
    ensures rdropping(h, g2, p), g2.cnt[p] == g.cnt[p]
{
    lemma_rdstep_alive(h, g, g1, g2, p);
    assert forall|q: int| #[trigger] g2.alive[q] implies kept(h, g2, p, q) || freed(h, g2, p, q) by { lemma_rdstep_kept(h, g, g1, g2, p, q); }
    assert forall|q: int| #[trigger] g2.alive[q] && q != p implies g2.kids[q] == h.kids[q] && g2.head[q] == h.head[q] && g2.tail[q] == h.tail[q] && g2.deg[q] == h.deg[q] && g2.desc[q] == h.desc[q] by { lemma_rdstep_kept(h, g, g1, g2, p, q); }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g2.pd[x] == g1.pd[x] + bi(gone(g1, g2, x), 1)); assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        lemma_acct_pd(h, g, g1, g2, x);
    }
    assert forall|v: int| h.vref[v] - #[trigger] g2.vref[v] == wsum(h, v) - wsum(g2, v) by {
        assert(g1.vref[v] - g2.vref[v] == wsum(g1, v) - wsum(g2, v));
        assert(h.vref[v] - g.vref[v] == wsum(h, v) - wsum(g, v));
        assert(wsum(g1, v) == wsum(g, v));
    }
    assert forall|v: int| #[trigger] g2.valive[v] implies h.valive[v] && (g2.vref[v] > 0 || g2.vref[v] == h.vref[v]) by { assert(g1.valive[v]); assert(g.valive[v]); }
    assert forall|v: int| h.valive[v] && !#[trigger] g2.valive[v] implies g2.vref[v] == 0 by { if g.valive[v] { assert(g1.valive[v]); } else { assert(!g1.valive[v]); assert(g2.vref[v] == g1.vref[v]); } }
    assert forall|v: int| !h.valive[v] implies #[trigger] g2.vref[v] == h.vref[v] by { assert(!g.valive[v]); assert(!g1.valive[v]); assert(g2.vref[v] == g1.vref[v]); assert(g.vref[v] == h.vref[v]); }
}
/// all children gone: nothing that has to go is left except p
pub proof fn lemma_rd_empty(h: H, g: H, p: int, q: int, j: nat)
    requires rdropping(h, g, p), g.kids[p].len() == 0, g.alive[q], rdn(g, p, q, j)
    ensures q == p
    decreases j
{
    if q != p {
        assert(wf_node(g, q));
        lemma_rd_empty(h, g, p, g.up[q]->Some_0, (j - 1) as nat);
        assert(g.kids[p].contains(q));
    }
}
/// release of p itself: its payload dropped, its reference to the buffer given back
pub open spec fn rkill(g: H, g2: H, p: int) -> bool {
    &&& kill(g, g2, p)
    &&& g2.prev == g.prev && g2.next == g.next && g2.head == g.head && g2.tail == g.tail && g2.up == g.up && g2.deg == g.deg && g2.desc == g.desc && g2.kids == g.kids
    &&& g2.cnt[p] == 0
}
pub proof fn lemma_rd_done(h: H, g: H, g2: H, p: int)
    requires rcok(h), h.cnt[p] == 1, rdropping(h, g, p), g.kids[p].len() == 0, rkill(g, g2, p), g.cnt[p] <= 1
    ensures rdropped(h, g2, p)
{
    lemma_kill_rel(g, g2, p); lemma_kill_wf(g, g2, p); lemma_pok(g, p); lemma_rd(h, p, p);
    let d = g.data[p];
    assert forall|q: int| #[trigger] g2.alive[q] implies !rd(h, p, q) by {
        assert(g.alive[q]); assert(rd(g, p, q) == rd(h, p, q));
        if rd(g, p, q) { let j = choose|j: nat| #[trigger] rdn(g, p, q, j); lemma_rd_empty(h, g, p, q, j); }
    }
    assert forall|q: int| #[trigger] g2.alive[q] == (h.alive[q] && !rdead(h, p, q)) by {
        if h.alive[q] && !rdead(h, p, q) { assert(!rd(h, p, q)); assert(q != p); if !g.alive[q] { assert(rd(h, p, q)); } }
        if g2.alive[q] { assert(g.alive[q]); }
    }
    assert forall|q: int| #[trigger] g2.alive[q] && !orphan(h, p, q) implies g2.up[q] == h.up[q] && g2.prev[q] == h.prev[q] && g2.next[q] == h.next[q] by {
        assert(g.alive[q]); assert(q != p);
        assert(kept(h, g, p, q) || freed(h, g, p, q));
        if freed(h, g, p, q) { assert(rdead(h, p, h.up[q]->Some_0)); assert(orphan(h, p, q)); }
        else if h.up[q] == Some(p) { assert(rdead(h, p, p)); assert(orphan(h, p, q)); }
    }
    assert forall|q: int| #[trigger] g2.alive[q] && orphan(h, p, q) implies g2.up[q] is None by { lemma_rd_orphan(h, g, g2, p, q); }
    assert forall|q: int| #[trigger] g2.cnt[q] == (if rdead(h, p, q) { 0 } else if orphan(h, p, q) || q == p { h.cnt[q] - 1 } else { h.cnt[q] }) by {
        if q == p { assert(rdead(h, p, p)); }
        else {
            assert(g2.cnt[q] == g.cnt[q]);
            if rdead(h, p, q) { assert(!g2.alive[q]); assert(!g.alive[q]); }
            else if h.alive[q] {
                assert(g2.alive[q]); assert(g.alive[q]);
                assert(kept(h, g, p, q) || freed(h, g, p, q));
                if orphan(h, p, q) { lemma_rd_orphan(h, g, g2, p, q); assert(h.up[q] is Some); }
                else if freed(h, g, p, q) { assert(rdead(h, p, h.up[q]->Some_0)); }
            }
            else { assert(!orphan(h, p, q)); }
        }
    }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        assert(bi(gone(g, g2, x), 1) == bi(real(d) && x == pay(d), 1)) by {
            if real(d) && x == pay(d) { assert(g.alive[p] && !g2.alive[p]); }
            if gone(g, g2, x) { let q = choose|q: int| #[trigger] g.alive[q] && !g2.alive[q] && real(g.data[q]) && pay(g.data[q]) == x; assert(q == p); }
        }
        lemma_acct_pd(h, g, g, g2, x);
    }
    assert forall|v: int| #[trigger] wsum(g2, v) == wsum(g, v) - bi(piled(d) && v == own(d), 1) by {
        if piled(d) && v == own(d) { lemma_slot(g, p); lemma_wsumn_kill(g.cnt, g2.cnt, g.vlive[v], v, nsl(v), idx(v, p)); }
        else {
            assert(vok(g, v));
            if g.vlive[v].contains(p) { if g.valive[v] { assert(false); } lemma_dead_buffer(h, g, p, v); }
            lemma_wsumn_same(g.cnt, g2.cnt, g.vlive[v], v, nsl(v));
        }
    }
    assert forall|v: int| h.vref[v] - #[trigger] g2.vref[v] == wsum(h, v) - wsum(g2, v) by { assert(h.vref[v] - g.vref[v] == wsum(h, v) - wsum(g, v)); assert(wsum(g2, v) == wsum(g, v) - bi(piled(d) && v == own(d), 1)); }
    assert forall|v: int| #[trigger] g2.valive[v] implies h.valive[v] && (g2.vref[v] > 0 || g2.vref[v] == h.vref[v]) by { assert(g.valive[v]); if piled(d) && v == own(d) { assert(vok(g, v)); } }
    assert forall|v: int| h.valive[v] && !#[trigger] g2.valive[v] implies g2.vref[v] == 0 by { }
    assert forall|v: int| !h.valive[v] implies #[trigger] g2.vref[v] == h.vref[v] by { assert(!g.valive[v]); }
    assert forall|v: int| #[trigger] g2.valive[v] implies g2.vref[v] >= wsum(g2, v) by { assert(g.valive[v]); assert(wsum(g2, v) == wsum(g, v) - bi(piled(d) && v == own(d), 1)); }
    assert forall|q: int| #[trigger] g2.alive[q] && g2.up[q] is Some implies g2.cnt[q] >= 1 by { assert(g.alive[q]); assert(q != p); }
    assert(rcok(g2));
    assert forall|q: int| #[trigger] g2.alive[q] implies g2.data[q] == h.data[q] && g2.kids[q] == h.kids[q] && g2.head[q] == h.head[q] && g2.tail[q] == h.tail[q] && g2.deg[q] == h.deg[q] && g2.desc[q] == h.desc[q] by { assert(g.alive[q]); assert(q != p); }
}
pub proof fn lemma_dead_buffer(h: H, g: H, p: int, v: int)
    requires rel(g), g.alive[p], g.vlive[v].contains(p), !g.valive[v] || !piled(g.data[p]) || own(g.data[p]) != v
    ensures !g.valive[v]
{ assert(vok(g, v)); }
/// a node whose parent is released ends up without parent
pub proof fn lemma_rd_orphan(h: H, g: H, g2: H, p: int, q: int)
    requires rcok(h), h.cnt[p] == 1, rdropping(h, g, p), g.kids[p].len() == 0, kill(g, g2, p), g2.up == g.up, g2.alive[q], orphan(h, p, q)
    ensures g2.up[q] is None, freed(h, g, p, q)
{
    let u = h.up[q]->Some_0;
    assert(g.alive[q]); assert(q != p);
    assert(kept(h, g, p, q) || freed(h, g, p, q));
    if !freed(h, g, p, q) {
        assert(g.up[q] == Some(u)); assert(wf_node(g, q)); assert(g.alive[u]);
        assert(rd(g, p, u) == rd(h, p, u));
        let j = choose|j: nat| #[trigger] rdn(g, p, u, j);
        lemma_rd_empty(h, g, p, u, j);
        assert(g.kids[p].contains(q));
    }
}
/// nothing happened
pub open spec fn same_links(g: H, g2: H) -> bool {
    &&& g2.alive == g.alive && g2.data == g.data && g2.cnt == g.cnt && g2.vref == g.vref && g2.valive == g.valive && g2.vlive == g.vlive && g2.pd == g.pd
    &&& forall|q: int| same_node(g, g2, q)
}
pub proof fn lemma_rcok_same(g: H, g2: H)
    requires rcok(g), wf(g2), same_links(g, g2)
    ensures rcok(g2)
{
    assert forall|p: int| #[trigger] pok(g2, p) by { assert(pok(g, p)); } assert forall|v: int| #[trigger] vok(g2, v) by { assert(vok(g, v)); }
    assert forall|v: int| #[trigger] g2.valive[v] implies g2.vref[v] >= wsum(g2, v) by { assert(g.valive[v]); }
    assert forall|q: int| #[trigger] g2.alive[q] && g2.up[q] is Some implies g2.cnt[q] >= 1 by { assert(same_node(g, g2, q)); assert(g.alive[q]); }
}
pub proof fn lemma_rdn_links(g: H, g2: H, p: int, q: int, j: nat)
    requires rdn(g, p, q, j), same_links(g, g2)
    ensures rd(g2, p, q)
    decreases j
{ lemma_rd(g2, p, q); assert(same_node(g, g2, q)); if q != p { lemma_rdn_links(g, g2, p, g.up[q]->Some_0, (j - 1) as nat); } }
pub proof fn lemma_rdropping_same(h: H, g: H, g2: H, p: int)
    requires rdropping(h, g, p), wf(g2), same_links(g, g2)
    ensures rdropping(h, g2, p)
{
    lemma_rcok_same(g, g2);
    assert forall|q: int| same_node(g2, g, q) by { assert(same_node(g, g2, q)); }
    assert(same_node(g, g2, p));
    assert forall|q: int| #[trigger] g2.alive[q] implies rd(g2, p, q) == rd(h, p, q) by {
        assert(g.alive[q]);
        if rd(g2, p, q) { let j = choose|j: nat| #[trigger] rdn(g2, p, q, j); lemma_rdn_links(g2, g, p, q, j); }
        if rd(g, p, q) { let j = choose|j: nat| #[trigger] rdn(g, p, q, j); lemma_rdn_links(g, g2, p, q, j); }
    }
    assert forall|q: int| #[trigger] g2.alive[q] implies kept(h, g2, p, q) || freed(h, g2, p, q) by { assert(g.alive[q]); assert(same_node(g, g2, q)); assert(kept(h, g, p, q) || freed(h, g, p, q)); }
    assert forall|q: int| #[trigger] g2.alive[q] && q != p implies g2.kids[q] == h.kids[q] && g2.head[q] == h.head[q] && g2.tail[q] == h.tail[q] && g2.deg[q] == h.deg[q] && g2.desc[q] == h.desc[q] by { assert(g.alive[q]); assert(same_node(g, g2, q)); }
    assert forall|x: int| #[trigger] g2.pd[x] == h.pd[x] + bi(gone(h, g2, x), 1) by {
        assert(g.pd[x] == h.pd[x] + bi(gone(h, g, x), 1));
        if gone(h, g, x) { let q = choose|q: int| #[trigger] h.alive[q] && !g.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(h.alive[q] && !g2.alive[q]); }
        if gone(h, g2, x) { let q = choose|q: int| #[trigger] h.alive[q] && !g2.alive[q] && real(h.data[q]) && pay(h.data[q]) == x; assert(h.alive[q] && !g.alive[q]); }
    }
    assert forall|v: int| h.vref[v] - #[trigger] g2.vref[v] == wsum(h, v) - wsum(g2, v) by { assert(h.vref[v] - g.vref[v] == wsum(h, v) - wsum(g, v)); assert(wsum(g2, v) == wsum(g, v)); }
}
/// edits of links and sizes leave the references alone
pub proof fn lemma_rc_edit(h: H, g: H, r: int)
    requires rcok(h), wf(g), g.alive == h.alive, g.data == h.data, g.cnt == h.cnt, g.vref == h.vref, g.valive == h.valive, g.vlive == h.vlive,
        forall|q: int| #[trigger] g.up[q] == h.up[q] || g.up[q] is None || q == r, h.cnt[r] >= 1
    ensures rcok(g)
{
    lemma_rel_same2(h, g);
    assert forall|v: int| #[trigger] g.valive[v] implies g.vref[v] >= wsum(g, v) by { assert(h.valive[v]); }
    assert forall|q: int| #[trigger] g.alive[q] && g.up[q] is Some implies g.cnt[q] >= 1 by { assert(h.alive[q]); assert(g.up[q] == h.up[q] || g.up[q] is None || q == r); }
}
pub proof fn lemma_rc_edit0(h: H, g: H)
    requires rcok(h), wf(g), g.alive == h.alive, g.data == h.data, g.cnt == h.cnt, g.vref == h.vref, g.valive == h.valive, g.vlive == h.vlive,
        forall|q: int| #[trigger] g.up[q] == h.up[q] || g.up[q] is None
    ensures rcok(g)
{
    lemma_rel_same2(h, g);
    assert forall|v: int| #[trigger] g.valive[v] implies g.vref[v] >= wsum(g, v) by { assert(h.valive[v]); }
    assert forall|q: int| #[trigger] g.alive[q] && g.up[q] is Some implies g.cnt[q] >= 1 by { assert(h.alive[q]); assert(g.up[q] == h.up[q] || g.up[q] is None); }
}
/// counts as before
pub proof fn lemma_rcok_same2(h: H, g: H, p: int)
    requires rcok(h), same_but_counts(h, g), recount(h, g, p, 0)
    ensures rcok(g)
{
    lemma_wf_same(h, g);
    assert forall|v: int| #[trigger] wsum(g, v) == wsum(h, v) by { lemma_wsumn_same(h.cnt, g.cnt, h.vlive[v], v, nsl(v)); }
    assert forall|v: int| #[trigger] g.valive[v] implies g.vref[v] >= wsum(g, v) by { assert(h.valive[v]); assert(wsum(g, v) == wsum(h, v)); }
    assert forall|q: int| #[trigger] pok(g, q) by { assert(pok(h, q)); }
    assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); }
}
/// a weak handle more
pub proof fn lemma_weak(h: H, g: H)
    requires rcok(h), g.prev == h.prev, g.next == h.next, g.head == h.head, g.tail == h.tail, g.up == h.up, g.deg == h.deg, g.desc == h.desc, g.data == h.data, g.alive == h.alive, g.valive == h.valive, g.pd == h.pd, g.vlive == h.vlive, g.kids == h.kids,
        forall|q: int| #[trigger] g.cnt[q] == h.cnt[q], forall|v: int| #[trigger] g.vref[v] >= h.vref[v]
    ensures rcok(g)
{
    lemma_wf_same(h, g);
    assert forall|v: int| #[trigger] wsum(g, v) == wsum(h, v) by { lemma_wsumn_same(h.cnt, g.cnt, h.vlive[v], v, nsl(v)); }
    assert forall|v: int| #[trigger] g.valive[v] implies g.vref[v] >= wsum(g, v) by { assert(h.valive[v]); assert(wsum(g, v) == wsum(h, v)); assert(g.vref[v] >= h.vref[v]); }
    assert forall|q: int| #[trigger] pok(g, q) by { assert(pok(h, q)); }
    assert forall|v: int| #[trigger] vok(g, v) by { assert(vok(h, v)); assert(g.vref[v] >= h.vref[v]); }
}
/// the next sibling of a node that has one is a live, counted node
pub proof fn lemma_next_sib(h: H, p: int)
    requires rcok(h), h.alive[p]
    ensures h.next[p] is Some ==> h.alive[h.next[p]->Some_0] && real(h.data[h.next[p]->Some_0]) && h.cnt[h.next[p]->Some_0] >= 1
{
    if h.next[p] is Some {
        assert(wf_node(h, p)); lemma_posn(h, p);
        let u = h.up[p]->Some_0; let i = posn(h, p); let k = h.kids[u];
        assert(wf_kid(h, u, i));
        if i + 1 < k.len() { lemma_kid2(h, u, i + 1); }
    }
}
/// the references of a buffer are at least those of any of its nodes
pub proof fn lemma_wsumn_ge(cnt: Map<int, int>, live: Set<int>, v: int, n: nat, i: int)
    requires 0 <= i < n, live.contains(elem(v, i))
    ensures wsumn(cnt, live, v, n) >= wt(cnt[elem(v, i)]), wsumn(cnt, live, v, n) >= 0
    decreases n
{ lemma_wsumn_pos(cnt, live, v, (n - 1) as nat); if i < n - 1 { lemma_wsumn_ge(cnt, live, v, (n - 1) as nat, i); } }
pub proof fn lemma_wsumn_pos(cnt: Map<int, int>, live: Set<int>, v: int, n: nat)
    ensures wsumn(cnt, live, v, n) >= 0
    decreases n
{ if n > 0 { lemma_wsumn_pos(cnt, live, v, (n - 1) as nat); } }
pub proof fn lemma_vref_cnt(h: H, p: int)
    requires rcok(h), h.alive[p], piled(h.data[p])
    ensures h.vref[own(h.data[p])] >= h.cnt[p]
{ let v = own(h.data[p]); lemma_slot(h, p); lemma_wsumn_ge(h.cnt, h.vlive[v], v, nsl(v), idx(v, p)); assert(h.vref[v] >= wsum(h, v)); }
/// dropping a handle to a root: nothing else referred to it, or nothing is released
pub proof fn lemma_rdrop_any(h: H, h2: H, p: int)
    requires rcok(h), rdrop(h, h2, p), h.alive[p], h.cnt[p] >= 1, h.up[p] is None
    ensures rdropped(h, h2, p)
{
    if h.cnt[p] > 1 {
        assert forall|q: int| !rdead(h, p, q) by { }
        assert forall|q: int| !orphan(h, p, q) by { }
        assert forall|q: int| #[trigger] h2.alive[q] implies h2.data[q] == h.data[q] && h2.kids[q] == h.kids[q] && h2.head[q] == h.head[q] && h2.tail[q] == h.tail[q] && h2.deg[q] == h.deg[q] && h2.desc[q] == h.desc[q] by { assert(same_node(h, h2, q)); }
        assert forall|q: int| #[trigger] h2.alive[q] && !orphan(h, p, q) implies h2.up[q] == h.up[q] && h2.prev[q] == h.prev[q] && h2.next[q] == h.next[q] by { assert(same_node(h, h2, q)); }
        assert forall|x: int| #[trigger] h2.pd[x] == h.pd[x] + bi(gone(h, h2, x), 1) by { assert(!gone(h, h2, x)); }
        assert forall|v: int| h.vref[v] - #[trigger] h2.vref[v] == wsum(h, v) - wsum(h2, v) by {
            assert(h.vlive[v] =~= h2.vlive[v]);
            if piled(h.data[p]) && v == own(h.data[p]) { lemma_slot(h, p); lemma_wsumn_bump(h.cnt, h2.cnt, h.vlive[v], v, nsl(v), idx(v, p), -1); }
            else { assert(vok(h, v)); assert(!h.vlive[v].contains(p)); lemma_wsumn_same(h.cnt, h2.cnt, h.vlive[v], v, nsl(v)); }
        }
        assert forall|v: int| #[trigger] h2.valive[v] implies h.valive[v] && (h2.vref[v] > 0 || h2.vref[v] == h.vref[v]) by { if piled(h.data[p]) && v == own(h.data[p]) { lemma_vref_cnt(h, p); } }
        assert forall|v: int| h.valive[v] && !#[trigger] h2.valive[v] implies h2.vref[v] == 0 by { }
        assert forall|v: int| !h.valive[v] implies #[trigger] h2.vref[v] == h.vref[v] by { lemma_pok(h, p); }
    }
}
pub proof fn lemma_rem_same(h: H, g: H, g2: H, s: int, i: int, r: int)
    requires rem_link(h, g, s, i), rem_size(h, g, s, r), rem_kids(h, g, s, i), same_nodes(g, g2)
    ensures rem_link(h, g2, s, i), rem_size(h, g2, s, r), rem_kids(h, g2, s, i)
{
    assert forall|q: int| #[trigger] g2.up[q] == g.up[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.head[q] == g.head[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.tail[q] == g.tail[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.next[q] == g.next[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.prev[q] == g.prev[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.deg[q] == g.deg[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.desc[q] == g.desc[q] by { assert(same_node(g, g2, q)); }
    assert forall|q: int| #[trigger] g2.kids[q] == g.kids[q] by { assert(same_node(g, g2, q)); }
}
/// nodes with a single reference go away
pub proof fn lemma_wsumn_diff(cnt: Map<int, int>, c2: Map<int, int>, live: Set<int>, l2: Set<int>, v: int, n: nat)
    requires n == 0 || n <= nslots(v), live.finite(), l2.finite(), forall|q: int| #[trigger] l2.contains(q) ==> live.contains(q) && wt(c2[q]) == wt(cnt[q]),
        forall|q: int| #[trigger] live.contains(q) ==> slotn(v, q, n), forall|q: int| #[trigger] live.contains(q) && !l2.contains(q) ==> wt(cnt[q]) == 1
    ensures wsumn(cnt, live, v, n) - wsumn(c2, l2, v, n) == live.len() - l2.len()
    decreases n
{
    if n == 0 {
        assert forall|p: int| !live.contains(p) by { if live.contains(p) { assert(slotn(v, p, 0)); } } assert(live =~= Set::<int>::empty());
        assert forall|p: int| !l2.contains(p) by { if l2.contains(p) { assert(live.contains(p)); } } assert(l2 =~= Set::<int>::empty());
    } else {
        let m = (n - 1) as nat; let e = elem(v, n - 1); let t = live.remove(e); let t2 = l2.remove(e);
        assert forall|p: int| #[trigger] t.contains(p) implies slotn(v, p, m) by {
            assert(live.contains(p)); assert(slotn(v, p, n));
            let i = choose|i: int| 0 <= i < n && #[trigger] elem(v, i) == p;
            assert(i != n - 1); assert(0 <= i < m && elem(v, i) == p);
        }
        assert forall|q: int| #[trigger] t2.contains(q) implies t.contains(q) && wt(c2[q]) == wt(cnt[q]) by { assert(l2.contains(q)); }
        assert forall|q: int| #[trigger] t.contains(q) && !t2.contains(q) implies wt(cnt[q]) == 1 by { assert(live.contains(q) && !l2.contains(q)); }
        lemma_wsumn_diff(cnt, c2, t, t2, v, m);
        assert forall|i: int| 0 <= i < m implies live.contains(#[trigger] elem(v, i)) == t.contains(elem(v, i)) && l2.contains(elem(v, i)) == t2.contains(elem(v, i)) by { if elem(v, i) == e { lemma_elem_inj(v, i, n - 1); } }
        lemma_wsumn_eq(cnt, live, t, v, m); lemma_wsumn_eq(c2, l2, t2, v, m);
        if live.contains(e) { assert(t.len() == live.len() - 1); } else { assert(t =~= live); assert(!l2.contains(e)); }
        if l2.contains(e) { assert(live.contains(e)); assert(t2.len() == l2.len() - 1); } else { assert(t2 =~= l2); }
    }
}
pub proof fn lemma_wsumn_eq(cnt: Map<int, int>, live: Set<int>, t: Set<int>, v: int, n: nat)
    requires forall|i: int| 0 <= i < n ==> live.contains(#[trigger] elem(v, i)) == t.contains(elem(v, i))
    ensures wsumn(cnt, live, v, n) == wsumn(cnt, t, v, n)
    decreases n
{ if n > 0 { assert(live.contains(elem(v, n - 1)) == t.contains(elem(v, n - 1))); lemma_wsumn_eq(cnt, live, t, v, (n - 1) as nat); } }
pub proof fn lemma_rcv_shrink(h: H, h2: H)
    requires rel(h), rcv(h), rel(h2), forall|q: int| #[trigger] h2.alive[q] ==> h.alive[q] && h2.data[q] == h.data[q] && h2.cnt[q] == h.cnt[q],
        forall|q: int| h.alive[q] && !#[trigger] h2.alive[q] ==> wt(h.cnt[q]) == 1, shrink(h, h2)
    ensures rcv(h2)
{
    assert forall|v: int| #[trigger] h2.valive[v] implies h2.vref[v] >= wsum(h2, v) by {
        assert(h.valive[v]); assert(vok(h, v)); assert(vok(h2, v)); assert(h.vref[v] >= wsum(h, v));
        assert forall|q: int| #[trigger] h2.vlive[v].contains(q) implies h.vlive[v].contains(q) && wt(h2.cnt[q]) == wt(h.cnt[q]) by { assert(h2.alive[q]); assert(pok(h, q)); }
        assert forall|q: int| #[trigger] h.vlive[v].contains(q) implies slotn(v, q, nsl(v)) by { assert(slot(v, q)); let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == q; assert(0 <= i < nsl(v) && elem(v, i) == q); }
        assert forall|q: int| #[trigger] h.vlive[v].contains(q) && !h2.vlive[v].contains(q) implies wt(h.cnt[q]) == 1 by { assert(h.alive[q]); if h2.alive[q] { assert(pok(h2, q)); } }
        lemma_wsumn_diff(h.cnt, h2.cnt, h.vlive[v], h2.vlive[v], v, nsl(v));
    }
}
/// an owned tree without handles was released
pub proof fn lemma_rc_dropped(h: H, h2: H, r: int)
    requires rcok(h), dropped(h, h2, r), forall|q: int| #[trigger] anc(h.up, q, r) && h.alive[q] ==> h.cnt[q] <= 1
    ensures rcok(h2)
{
    assert forall|q: int| h.alive[q] && !#[trigger] h2.alive[q] implies wt(h.cnt[q]) == 1 by { assert(anc(h.up, q, r)); }
    lemma_rcv_shrink(h, h2);
    assert forall|q: int| #[trigger] h2.alive[q] && h2.up[q] is Some implies h2.cnt[q] >= 1 by { assert(h.alive[q]); assert(!anc(h.up, q, r)); assert(same_node(h, h2, q)); }
}
/// a forest was spliced into a node
pub proof fn lemma_rc_spliced(h: H, h2: H, s: int, f: int, back: bool)
    requires rcok(h), spliced(h, h2, s, f, back), wf(h2), rel(h2), h.alive[f], h.cnt[f] == 1
    ensures rcok(h2)
{
    lemma_rcv_shrink(h, h2);
    assert forall|q: int| #[trigger] h2.alive[q] && h2.up[q] is Some implies h2.cnt[q] >= 1 by {
        assert(h.alive[q]); assert(h2.up[q] == spl_up(h, s, f, q));
        if h.kids[f].contains(q) { let i = choose|i: int| 0 <= i < h.kids[f].len() && h.kids[f][i] == q; assert(wf_kid(h, f, i)); }
    }
}
/// a weak handle less: the buffer goes away with its last reference
pub open spec fn weakdrop(h: H, g: H, v: int) -> bool {
    &&& forall|w: int| #[trigger] g.vref[w] == h.vref[w] - bi(w == v, 1)
    &&& forall|w: int| #[trigger] g.valive[w] == (h.valive[w] && !(w == v && h.vref[v] == 1))
}
pub proof fn lemma_weakdrop(h: H, g: H, v: int)
    requires rcok(h), h.valive[v], h.vref[v] >= wsum(h, v) + 1, weakdrop(h, g, v),
        g.prev == h.prev, g.next == h.next, g.head == h.head, g.tail == h.tail, g.up == h.up, g.deg == h.deg, g.desc == h.desc, g.data == h.data, g.alive == h.alive, g.pd == h.pd, g.vlive == h.vlive, g.kids == h.kids, g.cnt == h.cnt
    ensures rcok(g)
{
    lemma_wf_same(h, g);
    assert(vok(h, v));
    lemma_wsum_card(h, v);
    if h.vref[v] == 1 { assert(h.vlive[v].len() == 0); assert(h.vlive[v] =~= Set::<int>::empty()); }
    assert forall|w: int| #[trigger] wsum(g, w) == wsum(h, w) by { }
    assert forall|w: int| #[trigger] g.valive[w] implies g.vref[w] >= wsum(g, w) by { assert(h.valive[w]); assert(wsum(g, w) == wsum(h, w)); }
    assert forall|w: int| #[trigger] vok(g, w) by { assert(vok(h, w)); if w == v && h.vref[v] != 1 { assert(h.vref[v] - 1 >= h.vlive[v].len()); } }
    assert forall|q: int| #[trigger] pok(g, q) by { assert(pok(h, q)); if h.alive[q] && piled(h.data[q]) && own(h.data[q]) == v { assert(h.vlive[v].contains(q)); } }
}
// ------------------------------------------------ extend
/// trees handed in: distinct live roots that are owned and do not contain p
pub open spec fn intrees(h: H, p: int, s: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> intree(h, p, #[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
}
pub open spec fn intree(h: H, p: int, c: int) -> bool { h.alive[c] && h.up[c] is None && real(h.data[c]) && h.cnt[c] >= 1 && !anc(h.up, p, c) }
/// the first k of the trees were pushed
pub open spec fn extended(h: H, g: H, p: int, s: Seq<int>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& rcok(g)
    &&& forall|q: int| #[trigger] g.kids[q] == (if q == p { h.kids[p] + s.subrange(0, k) } else { h.kids[q] })
    &&& forall|q: int| #[trigger] g.up[q] == (if s.subrange(0, k).contains(q) { Some(p) } else { h.up[q] })
}
pub proof fn lemma_extend_init(h: H, p: int, s: Seq<int>)
    requires rcok(h)
    ensures extended(h, h, p, s, 0)
{ assert(h.kids[p] + s.subrange(0, 0) =~= h.kids[p]); }
pub proof fn lemma_extend_pre(h: H, g: H, p: int, s: Seq<int>, k: int)
    requires rcok(h), h.alive[p], intrees(h, p, s), extended(h, g, p, s, k), k < s.len(), g.alive == h.alive, g.data == h.data, g.cnt == h.cnt
    ensures intree(g, p, s[k])
{
    assert(intree(h, p, s[k]));
    if s.subrange(0, k).contains(s[k]) { let i = choose|i: int| 0 <= i < k && s.subrange(0, k)[i] == s[k]; assert(s[i] == s[k]); }
    assert forall|a: int| #[trigger] anc(h.up, p, a) implies g.up[a] == h.up[a] by {
        if s.subrange(0, k).contains(a) { let i = choose|i: int| 0 <= i < k && s.subrange(0, k)[i] == a; assert(s[i] == a); assert(intree(h, p, s[i])); }
    }
    lemma_anc_frame(h.up, g.up, p);
}
pub proof fn lemma_extend_step(h: H, g: H, g2: H, p: int, s: Seq<int>, k: int)
    requires extended(h, g, p, s, k), k < s.len(), wf(g2), intree(g, p, s[k]),
        g2.alive == g.alive, g2.data == g.data, g2.cnt == g.cnt, g2.vref == g.vref, g2.valive == g.valive, g2.vlive == g.vlive,
        forall|q: int| #[trigger] g2.up[q] == (if q == s[k] { Some(p) } else { g.up[q] }),
        forall|q: int| #[trigger] g2.kids[q] == (if q == p { g.kids[p].insert(g.kids[p].len() as int, s[k]) } else { g.kids[q] })
    ensures extended(h, g2, p, s, k + 1)
{
    lemma_rc_edit(g, g2, s[k]);
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
    assert(g2.kids[p] =~= h.kids[p] + s.subrange(0, k + 1));
    assert forall|q: int| #[trigger] s.subrange(0, k + 1).contains(q) == (s.subrange(0, k).contains(q) || q == s[k]) by {
        let a = s.subrange(0, k); let b = s.subrange(0, k + 1);
        if a.contains(q) { let i = choose|i: int| 0 <= i < a.len() && a[i] == q; assert(b[i] == q); }
        if b.contains(q) { let i = choose|i: int| 0 <= i < b.len() && b[i] == q; if i < k { assert(a[i] == q); } }
        if q == s[k] { assert(b[k] == q); }
    }
}
