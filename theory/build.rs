// ------------------------------------------------ filling a node buffer (C07, C10)
/// all nodes of buffer v
pub open spec fn slset(v: int, n: nat) -> Set<int> decreases n { if n == 0 { Set::empty() } else { slset(v, (n - 1) as nat).insert(elem(v, n - 1)) } }
pub open spec fn slots(v: int) -> Set<int> { slset(v, nsl(v)) }
pub proof fn lemma_slset(v: int, n: nat)
    ensures forall|p: int| #[trigger] slset(v, n).contains(p) <==> slotn(v, p, n), slset(v, n).finite(), slset(v, n).len() <= n
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; lemma_slset(v, m);
        assert forall|p: int| #[trigger] slset(v, n).contains(p) <==> slotn(v, p, n) by {
            if slset(v, n).contains(p) { if p == elem(v, n - 1) { assert(0 <= n - 1 < n && elem(v, n - 1) == p); } else { assert(slotn(v, p, m)); let i = choose|i: int| 0 <= i < m && #[trigger] elem(v, i) == p; assert(0 <= i < n && elem(v, i) == p); } }
            if slotn(v, p, n) { let i = choose|i: int| 0 <= i < n && #[trigger] elem(v, i) == p; if i < m { assert(0 <= i < m && elem(v, i) == p); assert(slotn(v, p, m)); } }
        }
    }
}
/// a node as NodeVec::new_raw_non_null leaves it
pub open spec fn blank(h: H, p: int) -> bool {
    h.alive[p] && h.prev[p] is None && h.next[p] is None && h.head[p] is None && h.tail[p] is None && h.up[p] is None && h.deg[p] == 0 && h.desc[p] == 0
    && h.data[p] is None && h.cnt[p] == 1 && h.kids[p] == Seq::<int>::empty()
}
pub open spec fn same_cell(h: H, g: H, p: int) -> bool {
    g.prev[p] == h.prev[p] && g.next[p] == h.next[p] && g.head[p] == h.head[p] && g.tail[p] == h.tail[p] && g.up[p] == h.up[p] && g.deg[p] == h.deg[p] && g.desc[p] == h.desc[p]
    && g.kids[p] == h.kids[p] && g.data[p] == h.data[p] && g.alive[p] == h.alive[p] && g.cnt[p] == h.cnt[p]
}
/// what is to be built: number of children, number of descendants and data of every slot
pub struct B { pub dg: Seq<int>, pub ds: Seq<int>, pub da: Seq<D> }
/// slot of the first child of slot i: children are numbered in breadth-first order
pub open spec fn off(dg: Seq<int>, i: int) -> int decreases i { if i <= 0 { 1 } else { off(dg, i - 1) + dg[i - 1] } }
pub open spec fn sumc(ds: Seq<int>, a: int, k: int) -> int decreases k { if k <= 0 { 0 } else { sumc(ds, a, k - 1) + ds[a + k - 1] + 1 } }
/// b describes a single tree, in breadth-first order
pub open spec fn cons1(b: B, i: int) -> bool { b.dg[i] >= 0 && b.ds[i] >= 0 && off(b.dg, i) > i && b.ds[i] == sumc(b.ds, off(b.dg, i), b.dg[i]) }
pub open spec fn cons(b: B) -> bool {
    let n = b.dg.len(); n > 0 && b.ds.len() == n && b.da.len() == n && off(b.dg, n as int) == n && n == b.ds[0] + 1 && (forall|i: int| 0 <= i < n ==> #[trigger] cons1(b, i))
}
pub proof fn lemma_off_mono(b: B, i: int, j: int)
    requires cons(b), 0 <= i <= j <= b.dg.len()
    ensures off(b.dg, i) <= off(b.dg, j), i < j ==> off(b.dg, i) + b.dg[i] <= off(b.dg, j), 1 <= off(b.dg, i) <= b.dg.len(), i < b.dg.len() ==> off(b.dg, i) + b.dg[i] <= b.dg.len()
    decreases j
{
    lemma_off_pos(b, i);
    lemma_off_end(b, i);
    if i < b.dg.len() { lemma_off_end(b, i + 1); assert(off(b.dg, i + 1) == off(b.dg, i) + b.dg[i]); }
    if i < j { assert(cons1(b, j - 1)); lemma_off_mono(b, i, j - 1); assert(off(b.dg, j) == off(b.dg, j - 1) + b.dg[j - 1]); }
}
pub proof fn lemma_off_pos(b: B, i: int)
    requires cons(b), 0 <= i <= b.dg.len()
    ensures 1 <= off(b.dg, i)
    decreases i
{ if i > 0 { lemma_off_pos(b, i - 1); assert(cons1(b, i - 1)); } }
pub proof fn lemma_off_end(b: B, i: int)
    requires cons(b), 0 <= i <= b.dg.len()
    ensures off(b.dg, i) <= b.dg.len()
    decreases b.dg.len() - i
{ if i < b.dg.len() { lemma_off_end(b, i + 1); assert(cons1(b, i)); assert(off(b.dg, i + 1) == off(b.dg, i) + b.dg[i]); } }
/// number of children slot i has got once c slots are filled
pub open spec fn kcnt(dg: Seq<int>, i: int, c: int) -> int { let x = c - off(dg, i); if x <= 0 { 0 } else if x >= dg[i] { dg[i] } else { x } }
pub open spec fn kseq(v: int, dg: Seq<int>, i: int, c: int) -> Seq<int> { Seq::new(kcnt(dg, i, c) as nat, |j: int| elem(v, off(dg, i) + j)) }
pub open spec fn filled(h: H, v: int, b: B, c: int, i: int) -> bool {
    let p = elem(v, i); let k = h.kids[p];
    &&& h.alive[p] && h.cnt[p] == 1
    &&& k == kseq(v, b.dg, i, c)
    &&& h.head[p] == oi(k.len() > 0, k[0])
    &&& h.tail[p] == oi(k.len() > 0, k[k.len() - 1])
    &&& i < c ==> h.deg[p] == b.dg[i] && h.desc[p] == b.ds[i] && h.data[p] == b.da[i] && wf_up(h, p)
    &&& i >= c ==> h.data[p] is None && h.up[p] is None && h.prev[p] is None && h.next[p] is None
}
/// the first c slots of v are filled, and linked as b says
pub open spec fn blt(h: H, v: int, b: B, c: int) -> bool {
    &&& nslots(v) == b.dg.len()
    &&& 1 <= c <= b.dg.len()
    &&& h.up[elem(v, 0)] is None
    &&& forall|i: int| 0 <= i < b.dg.len() ==> #[trigger] filled(h, v, b, c, i)
    &&& forall|i: int, j: int| 0 <= i < b.dg.len() && 0 <= j < kcnt(b.dg, i, c) ==> #[trigger] wf_kid(h, elem(v, i), j)
}
/// all payloads carry a payload, except possibly that of the root
pub open spec fn reals(b: B) -> bool { (real(b.da[0]) || fake(b.da[0])) && forall|i: int| 1 <= i < b.da.len() ==> real(#[trigger] b.da[i]) }
/// g is h with node x hooked in as the last child of p
pub open spec fn appended(h: H, g: H, p: int, x: int, d: D, dg: int, ds: int) -> bool {
    let t = h.tail[p];
    &&& forall|q: int| #[trigger] g.up[q] == (if q == x { Some(p) } else { h.up[q] })
    &&& forall|q: int| #[trigger] g.deg[q] == (if q == x { dg } else { h.deg[q] })
    &&& forall|q: int| #[trigger] g.desc[q] == (if q == x { ds } else { h.desc[q] })
    &&& forall|q: int| #[trigger] g.data[q] == (if q == x { d } else { h.data[q] })
    &&& forall|q: int| #[trigger] g.next[q] == (if t == Some(q) { Some(x) } else { h.next[q] })
    &&& forall|q: int| #[trigger] g.prev[q] == (if q == x && t is Some { t } else { h.prev[q] })
    &&& forall|q: int| #[trigger] g.head[q] == (if q == p && t is None { Some(x) } else { h.head[q] })
    &&& forall|q: int| #[trigger] g.tail[q] == (if q == p { Some(x) } else { h.tail[q] })
    &&& forall|q: int| #[trigger] g.kids[q] == (if q == p { h.kids[p].push(x) } else { h.kids[q] })
}
pub proof fn lemma_elems(v: int)
    ensures forall|i: int, j: int| 0 <= i < nslots(v) && 0 <= j < nslots(v) && #[trigger] elem(v, i) == #[trigger] elem(v, j) ==> i == j
{ assert forall|i: int, j: int| 0 <= i < nslots(v) && 0 <= j < nslots(v) && #[trigger] elem(v, i) == #[trigger] elem(v, j) implies i == j by { lemma_elem_inj(v, i, j); } }
/// only slot a gets a child when slot c is filled
pub proof fn lemma_kcnt(b: B, a: int, c: int, i: int)
    requires cons(b), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a], 0 <= i < b.dg.len()
    ensures i != a ==> kcnt(b.dg, i, c + 1) == kcnt(b.dg, i, c), i == a ==> kcnt(b.dg, i, c) == c - off(b.dg, a) && kcnt(b.dg, i, c + 1) == c + 1 - off(b.dg, a)
{
    assert(cons1(b, i));
    if i < a { lemma_off_mono(b, i, a); } else if i > a { lemma_off_mono(b, a, i); }
}
pub proof fn lemma_blt_kid(h: H, g: H, v: int, b: B, a: int, c: int, i: int, j: int)
    requires cons(b), reals(b), blt(h, v, b, c), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a],
        appended(h, g, elem(v, a), elem(v, c), b.da[c], b.dg[c], b.ds[c]), g.alive == h.alive, g.cnt == h.cnt, 0 <= i < b.dg.len(), 0 <= j < kcnt(b.dg, i, c + 1)
    ensures wf_kid(g, elem(v, i), j)
{
    lemma_elems(v); lemma_kcnt(b, a, c, i); lemma_off_mono(b, i, i);
    let p = elem(v, i); let x = elem(v, c); let pa = elem(v, a);
    assert(filled(h, v, b, c, i)); assert(filled(h, v, b, c, a)); assert(filled(h, v, b, c, c));
    lemma_kcnt(b, a, c, a); lemma_off_mono(b, a, a);
    let k = h.kids[p]; let o = off(b.dg, i);
    assert(k.len() == kcnt(b.dg, i, c));
    if i == a && j == k.len() {
        assert(g.kids[p] == k.push(x));
        assert(real(b.da[c]));
        if k.len() > 0 { assert(k[k.len() - 1] == elem(v, c - 1)); }
    } else {
        assert(wf_kid(h, p, j));
        assert(k[j] == elem(v, o + j));
        assert(o + j < c);
        assert(g.kids[p][j] == k[j]);
        if i == a {
            assert(g.kids[p] == k.push(x));
            assert(k[k.len() - 1] == elem(v, o + k.len() - 1));
            if j + 1 < k.len() { assert(k[j + 1] == elem(v, o + j + 1)); }
        } else {
            // the last child of pa lies elsewhere
            assert(g.kids[p] == k);
            if h.kids[pa].len() > 0 {
                assert(h.kids[pa][h.kids[pa].len() - 1] == elem(v, c - 1));
                if o + j == c - 1 {
                    if i < a { lemma_off_mono(b, i, a); } else { lemma_off_mono(b, a, i); }
                }
            }
        }
    }
}
pub proof fn lemma_blt_slot(h: H, g: H, v: int, b: B, a: int, c: int, i: int)
    requires cons(b), reals(b), blt(h, v, b, c), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a],
        appended(h, g, elem(v, a), elem(v, c), b.da[c], b.dg[c], b.ds[c]), g.alive == h.alive, g.cnt == h.cnt, 0 <= i < b.dg.len()
    ensures filled(g, v, b, c + 1, i)
{
    lemma_elems(v); lemma_kcnt(b, a, c, i); lemma_off_mono(b, i, i);
    let p = elem(v, i); let x = elem(v, c); let pa = elem(v, a);
    assert(filled(h, v, b, c, i)); assert(filled(h, v, b, c, a)); assert(filled(h, v, b, c, c));
    lemma_kcnt(b, a, c, a); lemma_off_mono(b, a, a);
    let k = h.kids[p];
    if i == a { assert(g.kids[p] =~= kseq(v, b.dg, i, c + 1)); } else { assert(kseq(v, b.dg, i, c + 1) =~= kseq(v, b.dg, i, c)); }
    if i < c {
        assert(wf_up(h, p));
        if h.kids[pa].len() > 0 { assert(h.kids[pa][h.kids[pa].len() - 1] == elem(v, c - 1)); }
        if h.up[p] is Some {
            let q = h.up[p]->Some_0;
            if q == pa { let z = choose|z: int| 0 <= z < h.kids[pa].len() && h.kids[pa][z] == p; assert(h.kids[pa].push(x)[z] == p); assert(g.kids[pa].contains(p)); }
        } else if i == c - 1 && h.kids[pa].len() > 0 {
            // the last child of pa has a parent
            assert(wf_kid(h, pa, h.kids[pa].len() - 1));
        }
    } else if i == c {
        assert(g.kids[pa][h.kids[pa].len() as int] == x); assert(g.kids[pa].contains(x)); assert(wf_up(g, p));
    }
}
pub proof fn lemma_blt_step(h: H, g: H, v: int, b: B, a: int, c: int)
    requires cons(b), reals(b), blt(h, v, b, c), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a],
        appended(h, g, elem(v, a), elem(v, c), b.da[c], b.dg[c], b.ds[c]), g.alive == h.alive, g.cnt == h.cnt
    ensures blt(g, v, b, c + 1)
{
    lemma_elems(v);
    assert forall|i: int| 0 <= i < b.dg.len() implies #[trigger] filled(g, v, b, c + 1, i) by { lemma_blt_slot(h, g, v, b, a, c, i); }
    assert forall|i: int, j: int| 0 <= i < b.dg.len() && 0 <= j < kcnt(b.dg, i, c + 1) implies #[trigger] wf_kid(g, elem(v, i), j) by { lemma_blt_kid(h, g, v, b, a, c, i, j); }
}
/// the root alone is filled in a fresh buffer
pub proof fn lemma_blt_root(h: H, g: H, v: int, b: B)
    requires cons(b), nslots(v) == b.dg.len(), forall|p: int| slot(v, p) ==> #[trigger] blank(h, p), g.alive == h.alive, g.cnt == h.cnt, g.prev == h.prev, g.next == h.next, g.head == h.head, g.tail == h.tail, g.kids == h.kids,
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.up[q] == h.up[q], g.up[elem(v, 0)] is None, g.deg[elem(v, 0)] == b.dg[0], g.desc[elem(v, 0)] == b.ds[0], g.data[elem(v, 0)] == b.da[0],
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.data[q] == h.data[q]
    ensures blt(g, v, b, 1)
{
    lemma_elems(v);
    assert forall|i: int| 0 <= i < b.dg.len() implies kcnt(b.dg, i, 1) == 0 && kseq(v, b.dg, i, 1) =~= Seq::<int>::empty() by { lemma_off_pos(b, i); assert(cons1(b, i)); }
    assert forall|i: int| 0 <= i < b.dg.len() implies #[trigger] filled(g, v, b, 1, i) by {
        assert(slot(v, elem(v, i))); assert(blank(h, elem(v, i)));
        assert(kseq(v, b.dg, i, 1) =~= Seq::<int>::empty()); assert(kcnt(b.dg, i, 1) == 0);
    }
}
pub proof fn lemma_sumd_slots(h: H, v: int, b: B, a: int, k: int)
    requires 0 <= a, 0 <= k, a + k <= b.dg.len(), forall|i: int| 0 <= i < b.dg.len() ==> h.desc[#[trigger] elem(v, i)] == b.ds[i]
    ensures sumd(h.desc, Seq::new(k as nat, |j: int| elem(v, a + j))) == sumc(b.ds, a, k)
    decreases k
{
    let s = Seq::new(k as nat, |j: int| elem(v, a + j));
    if k > 0 { lemma_sumd_slots(h, v, b, a, k - 1); assert(s.drop_last() =~= Seq::new((k - 1) as nat, |j: int| elem(v, a + j))); assert(s.last() == elem(v, a + k - 1)); }
}
pub proof fn lemma_slots_card(v: int)
    requires nslots(v) >= 0
    ensures slots(v).finite(), slots(v).len() <= nslots(v), forall|p: int| #[trigger] slots(v).contains(p) <==> slot(v, p)
{
    lemma_slset(v, nsl(v));
    assert forall|p: int| #[trigger] slots(v).contains(p) <==> slot(v, p) by {
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(0 <= i < nsl(v) && elem(v, i) == p); assert(slotn(v, p, nsl(v))); }
        if slotn(v, p, nsl(v)) { let i = choose|i: int| 0 <= i < nsl(v) && #[trigger] elem(v, i) == p; assert(0 <= i < nslots(v) && elem(v, i) == p); }
    }
}
/// the rest of the heap is as before; the slots of v are new
pub open spec fn outside(h: H, g: H, v: int) -> bool {
    &&& !h.valive[v] && (forall|w: int| #[trigger] g.valive[w] == (h.valive[w] || w == v)) && (forall|w: int| w != v ==> #[trigger] g.vref[w] == h.vref[w]) && (forall|w: int| w != v ==> #[trigger] g.vlive[w] == h.vlive[w])
    &&& g.vref[v] == nslots(v) && g.vlive[v] == slots(v)
    &&& forall|p: int| !slot(v, p) ==> #[trigger] same_cell(h, g, p)
    &&& forall|p: int| #[trigger] slot(v, p) ==> !h.alive[p] && !nonelem(p)
}
pub proof fn lemma_filled_wf_node(h: H, g: H, v: int, b: B, i: int)
    requires cons(b), reals(b), blt(g, v, b, b.dg.len() as int), 0 <= i < b.dg.len()
    ensures wf_node(g, elem(v, i)), g.kids[elem(v, i)] == Seq::new(b.dg[i] as nat, |j: int| elem(v, off(b.dg, i) + j))
{
    axiom_layout(v);
    let n = b.dg.len() as int; let p = elem(v, i);
    lemma_elems(v); lemma_off_mono(b, i, i);
    assert(filled(g, v, b, n, i)); assert(cons1(b, i));
    let k = Seq::new(b.dg[i] as nat, |j: int| elem(v, off(b.dg, i) + j));
    assert(g.kids[p] == kseq(v, b.dg, i, n)); assert(kcnt(b.dg, i, n) == b.dg[i]);
    assert(kseq(v, b.dg, i, n) =~= k);
    assert forall|j: int| 0 <= j < n implies g.desc[#[trigger] elem(v, j)] == b.ds[j] by { assert(filled(g, v, b, n, j)); }
    lemma_sumd_slots(g, v, b, off(b.dg, i), b.dg[i]);
    assert(k.no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < k.len() && 0 <= y < k.len() && x != y implies k[x] != k[y] by { assert(k[x] == elem(v, off(b.dg, i) + x)); assert(k[y] == elem(v, off(b.dg, i) + y)); } }
}
pub proof fn lemma_outside_kids(h: H, g: H, v: int, p: int)
    requires wf(h), outside(h, g, v), h.alive[p]
    ensures !slot(v, p), same_cell(h, g, p), forall|i: int| 0 <= i < h.kids[p].len() ==> !slot(v, #[trigger] h.kids[p][i]) && same_cell(h, g, h.kids[p][i]), h.up[p] is Some ==> same_cell(h, g, h.up[p]->Some_0)
{
    if slot(v, p) { }
    assert(wf_node(h, p));
    assert forall|i: int| 0 <= i < h.kids[p].len() implies !slot(v, #[trigger] h.kids[p][i]) && same_cell(h, g, h.kids[p][i]) by { assert(wf_kid(h, p, i)); }
    if h.up[p] is Some { let q = h.up[p]->Some_0; assert(wf_up(h, p)); assert(!slot(v, q)); assert(same_cell(h, g, q)); }
}
pub proof fn lemma_built_wf(h: H, g: H, v: int, b: B)
    requires wf(h), cons(b), reals(b), blt(g, v, b, b.dg.len() as int), outside(h, g, v)
    ensures wf(g)
{
    let n = b.dg.len() as int;
    assert forall|p: int| g.alive[p] implies #[trigger] wf_node(g, p) by {
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; lemma_filled_wf_node(h, g, v, b, i); }
        else {
            assert(same_cell(h, g, p)); assert(wf_node(h, p)); lemma_outside_kids(h, g, v, p);
            assert forall|i: int| 0 <= i < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][i]] == g.desc[h.kids[p][i]] by { assert(same_cell(h, g, h.kids[p][i])); }
            lemma_sumd_ext(h.desc, g.desc, h.kids[p]);
        }
    }
    assert forall|p: int, j: int| g.alive[p] && 0 <= j < g.kids[p].len() implies #[trigger] wf_kid(g, p, j) by {
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; lemma_filled_wf_node(h, g, v, b, i); assert(filled(g, v, b, n, i)); assert(g.kids[p].len() == kcnt(b.dg, i, n)); }
        else { assert(same_cell(h, g, p)); lemma_outside_kids(h, g, v, p); assert(wf_kid(h, p, j)); assert(same_cell(h, g, h.kids[p][j])); }
    }
}
/// the payloads of b are objects of their own
pub open spec fn ownpay(h: H, b: B, v: int) -> bool {
    (forall|i: int| 0 <= i < b.da.len() ==> piled(#[trigger] b.da[i]) && own(b.da[i]) == v && unheld(h, b.da[i]))
    && (forall|i: int, j: int| 0 <= i < b.da.len() && 0 <= j < b.da.len() && i != j && real(#[trigger] b.da[i]) && real(#[trigger] b.da[j]) ==> pay(b.da[i]) != pay(b.da[j]))
}
pub proof fn lemma_built_upay(h: H, g: H, v: int, b: B)
    requires rel(h), cons(b), reals(b), blt(g, v, b, b.dg.len() as int), outside(h, g, v), ownpay(h, b, v)
    ensures upay(g)
{
    let n = b.dg.len() as int;
    assert forall|p: int, q: int| g.alive[p] && g.alive[q] && p != q && #[trigger] real(g.data[p]) && #[trigger] real(g.data[q]) implies pay(g.data[p]) != pay(g.data[q]) by {
        if slot(v, p) {
            let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(filled(g, v, b, n, i));
            if slot(v, q) { let j = choose|j: int| 0 <= j < nslots(v) && #[trigger] elem(v, j) == q; assert(filled(g, v, b, n, j)); assert(real(b.da[i]) && real(b.da[j])); }
            else { assert(same_cell(h, g, q)); assert(unheld(h, b.da[i])); assert(real(h.data[q])); }
        } else {
            assert(same_cell(h, g, p));
            if slot(v, q) { let j = choose|j: int| 0 <= j < nslots(v) && #[trigger] elem(v, j) == q; assert(filled(g, v, b, n, j)); assert(unheld(h, b.da[j])); assert(real(h.data[p])); }
            else { assert(same_cell(h, g, q)); assert(real(h.data[p]) && real(h.data[q])); }
        }
    }
}
pub proof fn lemma_built_rel(h: H, g: H, v: int, b: B)
    requires rel(h), cons(b), reals(b), blt(g, v, b, b.dg.len() as int), outside(h, g, v), ownpay(h, b, v)
    ensures rel(g)
{
    let n = b.dg.len() as int;
    lemma_built_upay(h, g, v, b);
    lemma_slots_card(v);
    assert forall|p: int| #[trigger] pok(g, p) by {
        assert(pok(h, p));
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(filled(g, v, b, n, i)); assert(b.da[i] == g.data[p]); assert(slots(v).contains(p)); }
        else { assert(same_cell(h, g, p)); if h.alive[p] && piled(h.data[p]) { assert(own(h.data[p]) != v); } }
    }
    assert forall|w: int| #[trigger] vok(g, w) by {
        assert(vok(h, w));
        if w == v {
            assert forall|p: int| #[trigger] g.vlive[v].contains(p) implies g.alive[p] && piled(g.data[p]) && own(g.data[p]) == v && slot(v, p) by {
                assert(slot(v, p)); let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(filled(g, v, b, n, i)); assert(b.da[i] == g.data[p]);
            }
        } else if h.valive[w] {
            assert(g.vlive[w] == h.vlive[w]); assert(g.vref[w] == h.vref[w]);
            assert forall|p: int| #[trigger] g.vlive[w].contains(p) implies g.alive[p] && piled(g.data[p]) && own(g.data[p]) == w && slot(w, p) by {
                assert(h.vlive[w].contains(p)); assert(!slot(v, p)); assert(same_cell(h, g, p));
            }
        }
    }
}
// ------------------------------------------------ breadth-first order describes the tree (C07)
/// number of nodes of the tree at p
pub open spec fn nn(h: H, p: int) -> nat { if h.desc[p] >= 0 { (h.desc[p] + 1) as nat } else { 0 } }
/// its nodes in breadth-first order
pub open spec fn order(h: H, p: int) -> Seq<int> { bout(h, seq![p], nn(h, p)) }
/// the description of the tree at p
pub open spec fn descr(h: H, p: int, da: Seq<D>) -> B { B { dg: Seq::new(nn(h, p), |i: int| h.kids[order(h, p)[i]].len() as int), ds: Seq::new(nn(h, p), |i: int| h.desc[order(h, p)[i]]), da: da } }
pub open spec fn upto(h: H, p: int, i: nat) -> Seq<int> { bout(h, seq![p], i) + brun(h, seq![p], i) }
/// the i-th visit: the node at the front of the queue
pub proof fn lemma_visit_at(h: H, p: int, i: nat)
    requires wf(h), h.alive[p], i <= nn(h, p)
    ensures sumd(h.desc, brun(h, seq![p], i)) == nn(h, p) - i, allive(h, brun(h, seq![p], i)), i < nn(h, p) ==> brun(h, seq![p], i).len() > 0, i == nn(h, p) ==> brun(h, seq![p], i).len() == 0,
        bout(h, seq![p], i).len() == i, h.desc[p] >= 0
    decreases i
{
    let f = seq![p];
    assert(wf_node(h, p));
    lemma_sumd_one(h.desc, p);
    if i == 0 { assert(bout(h, f, 0) =~= Seq::<int>::empty()); }
    else {
        let j = (i - 1) as nat;
        lemma_visit_at(h, p, j);
        let q = brun(h, f, j);
        lemma_brun_add(h, f, j, 1);
        lemma_bstep(h, q);
        assert(brun(h, q, 1) == brun(h, q.drop_first() + h.kids[q[0]], 0));
        assert(bout(h, q, 1) == seq![q[0]] + bout(h, q.drop_first() + h.kids[q[0]], 0));
    }
    let q = brun(h, f, i);
    lemma_sumd_zero(h, q);
    if i < nn(h, p) { if q.len() == 0 { assert(sumd(h.desc, q) == 0); } }
}
pub proof fn lemma_upto_step(h: H, p: int, i: nat)
    requires wf(h), h.alive[p], i < nn(h, p)
    ensures brun(h, seq![p], i).len() > 0, order(h, p)[i as int] == brun(h, seq![p], i)[0], upto(h, p, i + 1) == upto(h, p, i) + h.kids[order(h, p)[i as int]], order(h, p).len() == nn(h, p), h.alive[order(h, p)[i as int]],
        bout(h, seq![p], i) =~= order(h, p).subrange(0, i as int)
{
    let f = seq![p]; let n = nn(h, p); let q = brun(h, f, i);
    lemma_visit_at(h, p, i); lemma_visit_at(h, p, n);
    let m = (n - i) as nat;
    lemma_brun_add(h, f, i, m);
    assert(i + m == n);
    assert(bout(h, q, m)[0] == q[0]);
    assert(order(h, p) == bout(h, f, i) + bout(h, q, m));
    lemma_brun_add(h, f, i, 1);
    let t = q.drop_first(); let k = h.kids[q[0]];
    assert(brun(h, q, 1) == brun(h, t + k, 0));
    assert(bout(h, q, 1) == seq![q[0]] + bout(h, t + k, 0));
    assert(bout(h, t + k, 0) =~= Seq::<int>::empty());
    assert(bout(h, q, 1) =~= seq![q[0]]);
    assert(brun(h, f, i + 1) == t + k);
    assert(bout(h, f, i + 1) == bout(h, f, i) + seq![q[0]]);
    assert(seq![q[0]] + t =~= q);
    assert(upto(h, p, i + 1) =~= (bout(h, f, i) + (seq![q[0]] + t)) + k);
    assert(h.alive[q[0]]);
}
pub open spec fn prefix(a: Seq<int>, b: Seq<int>) -> bool { a.len() <= b.len() && forall|x: int| 0 <= x < a.len() ==> #[trigger] a[x] == b[x] }
pub proof fn lemma_upto_prefix(h: H, p: int, i: nat)
    requires wf(h), h.alive[p], i <= nn(h, p)
    ensures prefix(upto(h, p, i), order(h, p))
    decreases nn(h, p) - i
{
    lemma_visit_at(h, p, i);
    if i < nn(h, p) {
        lemma_upto_prefix(h, p, i + 1); lemma_upto_step(h, p, i);
        let a = upto(h, p, i); let c = upto(h, p, i + 1);
        assert forall|x: int| 0 <= x < a.len() implies #[trigger] a[x] == order(h, p)[x] by { assert(c[x] == a[x]); }
    } else { assert(upto(h, p, i) =~= order(h, p)); }
}
pub proof fn lemma_upto_off(h: H, p: int, i: nat, da: Seq<D>)
    requires wf(h), h.alive[p], i <= nn(h, p)
    ensures upto(h, p, i).len() == off(descr(h, p, da).dg, i as int)
    decreases i
{
    let f = seq![p];
    if i == 0 { assert(bout(h, f, 0) =~= Seq::<int>::empty()); assert(brun(h, f, 0) =~= f); }
    else { let j = (i - 1) as nat; lemma_upto_off(h, p, j, da); lemma_upto_step(h, p, j); }
}
/// the children of the i-th node are found side by side from off(i)
pub proof fn lemma_order_kids(h: H, p: int, i: int, da: Seq<D>)
    requires wf(h), h.alive[p], 0 <= i < nn(h, p)
    ensures ({ let o = order(h, p); let a = off(descr(h, p, da).dg, i); let k = h.kids[o[i]];
        o.len() == nn(h, p) && h.alive[o[i]] && i < a && 0 <= a && a + k.len() <= o.len() && k =~= o.subrange(a, a + k.len()) })
{
    let o = order(h, p); let j = i as nat;
    lemma_visit_at(h, p, j); lemma_upto_step(h, p, j); lemma_upto_off(h, p, j, da); lemma_upto_prefix(h, p, j + 1); lemma_visit_at(h, p, j + 1);
    let a = upto(h, p, j); let c = upto(h, p, j + 1); let k = h.kids[o[i]];
    assert forall|x: int| 0 <= x < k.len() implies #[trigger] k[x] == o[a.len() + x] by { assert(c[a.len() + x] == k[x]); }
}
pub proof fn lemma_sumc_kids(h: H, p: int, a: int, k: int, da: Seq<D>)
    requires 0 <= a, 0 <= k, a + k <= nn(h, p), order(h, p).len() == nn(h, p)
    ensures sumc(descr(h, p, da).ds, a, k) == sumd(h.desc, order(h, p).subrange(a, a + k))
    decreases k
{
    let o = order(h, p); let s = o.subrange(a, a + k);
    if k > 0 { lemma_sumc_kids(h, p, a, k - 1, da); assert(s.drop_last() =~= o.subrange(a, a + k - 1)); assert(s.last() == o[a + k - 1]); }
}
/// C07: the breadth-first order of any tree describes a single tree
pub proof fn lemma_descr_cons(h: H, p: int, da: Seq<D>)
    requires wf(h), h.alive[p], da.len() == nn(h, p)
    ensures cons(descr(h, p, da)), order(h, p).len() == nn(h, p), order(h, p)[0] == p, nn(h, p) == h.desc[p] + 1
{
    let b = descr(h, p, da); let n = nn(h, p);
    lemma_visit_at(h, p, 0); lemma_visit_at(h, p, n); lemma_upto_off(h, p, n, da);
    lemma_upto_step(h, p, 0); assert(brun(h, seq![p], 0) =~= seq![p]);
    assert forall|i: int| 0 <= i < n implies #[trigger] cons1(b, i) by {
        lemma_order_kids(h, p, i, da);
        let o = order(h, p); let a = off(b.dg, i); let k = h.kids[o[i]];
        lemma_sumc_kids(h, p, a, k.len() as int, da);
        assert(wf_node(h, o[i]));
    }
}
/// C07: visiting the tree that was built from b in breadth-first order yields the slots one after the other, that is, what b lists
pub proof fn lemma_built_order(g: H, v: int, b: B, i: nat)
    requires cons(b), reals(b), blt(g, v, b, b.dg.len() as int), wf(g), i <= b.dg.len()
    ensures bout(g, seq![elem(v, 0)], i) == Seq::new(i, |j: int| elem(v, j)), brun(g, seq![elem(v, 0)], i) == Seq::new((off(b.dg, i as int) - i) as nat, |j: int| elem(v, i + j))
    decreases i
{
    let n = b.dg.len() as int; let f = seq![elem(v, 0)];
    lemma_off_mono(b, i as int, i as int);
    if i == 0 { assert(bout(g, f, 0) =~= Seq::new(0, |j: int| elem(v, j))); assert(f =~= Seq::new(1, |j: int| elem(v, 0 + j))); }
    else {
        let k = (i - 1) as nat; let x = elem(v, k as int);
        lemma_built_order(g, v, b, k); lemma_filled_wf_node(g, g, v, b, k as int);
        assert(cons1(b, k as int));
        let q = brun(g, f, k);
        lemma_brun_add(g, f, k, 1);
        assert(q[0] == x);
        let t = q.drop_first() + g.kids[x];
        assert(brun(g, q, 1) == brun(g, t, 0)); assert(bout(g, q, 1) == seq![x] + bout(g, t, 0));
        assert(bout(g, q, 1) =~= seq![x]);
        assert(t =~= Seq::new((off(b.dg, i as int) - i) as nat, |j: int| elem(v, i + j)));
        assert(bout(g, f, k) + seq![x] =~= Seq::new(i, |j: int| elem(v, j)));
        if i < n { assert(cons1(b, i as int)); }
    }
}
// ------------------------------------------------ breadth-first iterators as sources
/// payload, number of children and of descendants presented by an item of a breadth-first iterator
pub uninterp spec fn vpay(it: int) -> int;
pub uninterp spec fn vdeg(it: int) -> int;
pub uninterp spec fn vdesc(it: int) -> int;
/// what the items s of a tree's iterator describe, built in buffer v
pub open spec fn titems(s: Seq<int>, v: int) -> B {
    B { dg: Seq::new(s.len(), |i: int| vdeg(s[i])), ds: Seq::new(s.len(), |i: int| vdesc(s[i])), da: Seq::new(s.len(), |i: int| D::Piled { data: vpay(s[i]), owner: v }) }
}
/// the same for a forest: its root comes first, it is not among the items
pub open spec fn fitems(dg: int, ds: int, s: Seq<int>, v: int) -> B {
    B { dg: Seq::new(s.len() + 1, |i: int| if i == 0 { dg } else { vdeg(s[i - 1]) }), ds: Seq::new(s.len() + 1, |i: int| if i == 0 { ds } else { vdesc(s[i - 1]) }),
        da: Seq::new(s.len() + 1, |i: int| if i == 0 { D::PiledNone { owner: v } } else { D::Piled { data: vpay(s[i - 1]), owner: v } }) }
}
/// the payloads of the items are objects of their own
pub open spec fn ownitems(h: H, s: Seq<int>) -> bool {
    (forall|i: int, q: int| 0 <= i < s.len() && h.alive[q] && #[trigger] real(h.data[q]) ==> pay(h.data[q]) != vpay(#[trigger] s[i]))
    && (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> vpay(#[trigger] s[i]) != vpay(#[trigger] s[j]))
}
pub proof fn lemma_cons_own(a: B, b: B)
    requires cons(a), a.dg == b.dg, a.ds == b.ds, a.da.len() == b.da.len()
    ensures cons(b)
{ assert forall|i: int| 0 <= i < b.dg.len() implies #[trigger] cons1(b, i) by { assert(cons1(a, i)); } }
pub proof fn lemma_titems(h: H, s: Seq<int>, v: int)
    requires cons(titems(s, 0)), ownitems(h, s)
    ensures cons(titems(s, v)), reals(titems(s, v)), ownpay(h, titems(s, v), v), titems(s, v).dg.len() == s.len()
{ lemma_cons_own(titems(s, 0), titems(s, v)); }
pub proof fn lemma_fitems(h: H, dg: int, ds: int, s: Seq<int>, v: int)
    requires cons(fitems(dg, ds, s, 0)), ownitems(h, s)
    ensures cons(fitems(dg, ds, s, v)), reals(fitems(dg, ds, s, v)), ownpay(h, fitems(dg, ds, s, v), v), fitems(dg, ds, s, v).dg.len() == s.len() + 1
{ lemma_cons_own(fitems(dg, ds, s, 0), fitems(dg, ds, s, v)); }
/// what appending the c-th node to slot a needs
pub proof fn lemma_blt_pre(h: H, v: int, b: B, a: int, c: int)
    requires cons(b), blt(h, v, b, c), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a]
    ensures h.alive[elem(v, a)], h.alive[elem(v, c)], elem(v, a) != elem(v, c), h.data[elem(v, c)] is None, h.tail[elem(v, a)] is Some ==> h.alive[h.tail[elem(v, a)]->Some_0] && h.tail[elem(v, a)]->Some_0 != elem(v, c)
{
    lemma_elems(v); lemma_kcnt(b, a, c, a);
    assert(filled(h, v, b, c, a)); assert(filled(h, v, b, c, c));
    let k = h.kids[elem(v, a)];
    if k.len() > 0 { assert(k[k.len() - 1] == elem(v, c - 1)); assert(filled(h, v, b, c, c - 1)); }
}
/// the degree stored in a filled slot; the next slot takes over where the children of this one end
pub proof fn lemma_blt_deg(h: H, v: int, b: B, c: int)
    requires cons(b), blt(h, v, b, c)
    ensures forall|i: int| 0 <= i < c ==> h.alive[#[trigger] elem(v, i)] && h.deg[elem(v, i)] == b.dg[i] && b.dg[i] >= 0, forall|i: int| 0 <= i < c ==> #[trigger] off(b.dg, i + 1) == off(b.dg, i) + b.dg[i] && (i + 1 < b.dg.len() ==> off(b.dg, i + 1) > i + 1)
{
    assert forall|i: int| 0 <= i < c implies h.alive[#[trigger] elem(v, i)] && h.deg[elem(v, i)] == b.dg[i] && b.dg[i] >= 0 by { assert(filled(h, v, b, c, i)); assert(cons1(b, i)); }
    assert forall|i: int| 0 <= i < c implies #[trigger] off(b.dg, i + 1) == off(b.dg, i) + b.dg[i] && (i + 1 < b.dg.len() ==> off(b.dg, i + 1) > i + 1) by { if i + 1 < b.dg.len() { assert(cons1(b, i + 1)); } }
}
// ------------------------------------------------ loop steps
pub proof fn lemma_fill_root(h: H, n: H, g: H, v: int, b: B)
    requires cons(b), nslots(v) == b.dg.len(), forall|p: int| slot(v, p) ==> #[trigger] blank(n, p), g.alive == n.alive, g.cnt == n.cnt, g.prev == n.prev, g.next == n.next, g.head == n.head, g.tail == n.tail, g.kids == n.kids,
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.up[q] == n.up[q], g.up[elem(v, 0)] is None, g.deg[elem(v, 0)] == b.dg[0], g.desc[elem(v, 0)] == b.ds[0], g.data[elem(v, 0)] == b.da[0],
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.data[q] == n.data[q], forall|q: int| q != elem(v, 0) ==> #[trigger] g.deg[q] == n.deg[q], forall|q: int| q != elem(v, 0) ==> #[trigger] g.desc[q] == n.desc[q],
        outside(h, n, v), g.valive == n.valive, g.vref == n.vref, g.vlive == n.vlive
    ensures blt(g, v, b, 1), outside(h, g, v)
{
    lemma_blt_root(n, g, v, b);
    assert(slot(v, elem(v, 0)));
    assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g, p) by { assert(same_cell(h, n, p)); }
}
pub proof fn lemma_fill_step(h: H, n: H, g: H, v: int, b: B, a: int, c: int)
    requires cons(b), reals(b), blt(n, v, b, c), 0 <= a < c < b.dg.len(), off(b.dg, a) <= c < off(b.dg, a) + b.dg[a],
        appended(n, g, elem(v, a), elem(v, c), b.da[c], b.dg[c], b.ds[c]), g.alive == n.alive, g.cnt == n.cnt,
        outside(h, n, v), g.valive == n.valive, g.vref == n.vref, g.vlive == n.vlive
    ensures blt(g, v, b, c + 1), outside(h, g, v)
{
    lemma_blt_step(n, g, v, b, a, c);
    assert(slot(v, elem(v, a)) && slot(v, elem(v, c)));
    lemma_kcnt(b, a, c, a); lemma_off_pos(b, a);
    assert(filled(n, v, b, c, a));
    let k = n.kids[elem(v, a)];
    if k.len() > 0 { assert(k[k.len() - 1] == elem(v, c - 1)); assert(slot(v, elem(v, c - 1))); }
    assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g, p) by { assert(same_cell(h, n, p)); }
}
/// a node is read: there is room for it
pub proof fn lemma_take(h: H, v: int, b: B, p: int, c: int, r: int)
    requires cons(b), blt(h, v, b, c), 0 <= p < c < b.dg.len(), 0 <= r <= b.dg[p], off(b.dg, p) + b.dg[p] - r == c, r == 0 ==> p == c - 1
    ensures r > 0, off(b.dg, p) <= c < off(b.dg, p) + b.dg[p]
{ lemma_blt_deg(h, v, b, c); if r == 0 { assert(off(b.dg, p + 1) == off(b.dg, p) + b.dg[p]); assert(cons1(b, c)); } }
pub proof fn lemma_fill_end(h: H, n: H, g: H, v: int, b: B)
    requires cons(b), blt(n, v, b, b.dg.len() as int), outside(h, n, v), forall|q: int| #[trigger] g.up[q] == n.up[q], g.alive == n.alive, g.cnt == n.cnt, g.prev == n.prev, g.next == n.next, g.head == n.head, g.tail == n.tail, g.kids == n.kids,
        g.deg == n.deg, g.desc == n.desc, g.data == n.data, g.valive == n.valive, g.vref == n.vref, g.vlive == n.vlive
    ensures blt(g, v, b, b.dg.len() as int), outside(h, g, v), g.data[elem(v, 0)] == b.da[0], g.alive[elem(v, 0)]
{
    let c = b.dg.len() as int;
    assert forall|i: int| 0 <= i < c implies #[trigger] filled(g, v, b, c, i) by { assert(filled(n, v, b, c, i)); }
    assert forall|i: int, j: int| 0 <= i < c && 0 <= j < kcnt(b.dg, i, c) implies #[trigger] wf_kid(g, elem(v, i), j) by { assert(wf_kid(n, elem(v, i), j)); }
    assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g, p) by { assert(same_cell(h, n, p)); }
    assert(filled(g, v, b, c, 0));
}
// ------------------------------------------------ deep clones
/// the value of a payload; a clone has the same value
pub uninterp spec fn val(x: int) -> int;
/// slot i of v mirrors the i-th node of the tree at p in breadth-first order
pub open spec fn image(h: H, g: H, p: int, v: int, i: int) -> bool {
    let o = order(h, p); let x = o[i]; let y = elem(v, i); let a = off(descr(h, p, Seq::empty()).dg, i); let k = h.kids[x];
    &&& 0 <= a && a + k.len() <= o.len() && k == o.subrange(a, a + k.len())
    &&& g.kids[y] == Seq::new(k.len(), |j: int| elem(v, a + j))
    &&& g.deg[y] == k.len() && g.desc[y] == h.desc[x] && g.alive[y] && g.cnt[y] == 1
}
/// the tree at elem(v, 0) has the shape, child order and sizes of the tree at p
pub open spec fn iso(h: H, g: H, p: int, v: int) -> bool { nslots(v) == order(h, p).len() && order(h, p).len() == nn(h, p) && order(h, p)[0] == p && forall|i: int| 0 <= i < nslots(v) ==> #[trigger] image(h, g, p, v, i) }
/// equal payloads, from the from-th node on
pub open spec fn eqpay(h: H, g: H, p: int, v: int, from: int) -> bool { forall|i: int| from <= i < nslots(v) ==> real(g.data[#[trigger] elem(v, i)]) && val(pay(g.data[elem(v, i)])) == val(pay(h.data[order(h, p)[i]])) }
/// s presents the nodes f, in this order: sizes and equal payloads
pub open spec fn presents(h: H, f: Seq<int>, s: Seq<int>) -> bool {
    s.len() == f.len() && forall|i: int| 0 <= i < s.len() ==> vdeg(#[trigger] s[i]) == h.kids[f[i]].len() && vdesc(s[i]) == h.desc[f[i]] && val(vpay(s[i])) == val(pay(h.data[f[i]]))
}
pub proof fn lemma_descr_indep(h: H, p: int, a: Seq<D>, b: Seq<D>)
    ensures descr(h, p, a).dg == descr(h, p, b).dg, descr(h, p, a).ds == descr(h, p, b).ds
{ assert(descr(h, p, a).dg =~= descr(h, p, b).dg); assert(descr(h, p, a).ds =~= descr(h, p, b).ds); }
pub proof fn lemma_tree_items(h: H, p: int, s: Seq<int>)
    requires wf(h), h.alive[p], presents(h, order(h, p), s)
    ensures cons(titems(s, 0))
{
    let b = titems(s, 0);
    lemma_visit_at(h, p, nn(h, p));
    assert(b.dg =~= descr(h, p, b.da).dg); assert(b.ds =~= descr(h, p, b.da).ds);
    lemma_descr_cons(h, p, b.da);
}
pub proof fn lemma_tree_clone(h: H, g: H, p: int, s: Seq<int>, v: int)
    requires wf(h), h.alive[p], presents(h, order(h, p), s), blt(g, v, titems(s, v), s.len() as int), reals(titems(s, v)), cons(titems(s, v)), wf(g)
    ensures iso(h, g, p, v), eqpay(h, g, p, v, 0)
{
    let b = titems(s, v); let o = order(h, p); let n = nn(h, p) as int;
    lemma_visit_at(h, p, nn(h, p));
    assert(b.dg =~= descr(h, p, b.da).dg);
    lemma_descr_cons(h, p, b.da); lemma_descr_indep(h, p, b.da, Seq::empty());
    assert forall|i: int| 0 <= i < nslots(v) implies #[trigger] image(h, g, p, v, i) by {
        lemma_order_kids(h, p, i, b.da); lemma_filled_wf_node(g, g, v, b, i); assert(filled(g, v, b, n, i)); assert(h.kids[o[i]].len() == b.dg[i]);
        assert(g.kids[elem(v, i)] =~= Seq::new(h.kids[o[i]].len(), |j: int| elem(v, off(descr(h, p, Seq::empty()).dg, i) + j)));
    }
    assert forall|i: int| 0 <= i < nslots(v) implies real(g.data[#[trigger] elem(v, i)]) && val(pay(g.data[elem(v, i)])) == val(pay(h.data[o[i]])) by { assert(filled(g, v, b, n, i)); assert(b.da[i] == D::Piled { data: vpay(s[i]), owner: v }); }
}
/// the nodes below p, in breadth-first order
pub open spec fn below(h: H, p: int) -> Seq<int> { bout(h, h.kids[p], (nn(h, p) - 1) as nat) }
pub proof fn lemma_below(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures order(h, p) == seq![p] + below(h, p), order(h, p).len() == nn(h, p), below(h, p).len() == nn(h, p) - 1, nn(h, p) == h.desc[p] + 1
{
    lemma_visit_at(h, p, nn(h, p)); assert(wf_node(h, p));
    assert(seq![p].drop_first() + h.kids[p] =~= h.kids[p]);
    assert(seq![p][0] == p);
}
pub proof fn lemma_forest_items(h: H, p: int, s: Seq<int>)
    requires wf(h), h.alive[p], presents(h, below(h, p), s)
    ensures cons(fitems(h.kids[p].len() as int, h.desc[p], s, 0))
{
    let b = fitems(h.kids[p].len() as int, h.desc[p], s, 0);
    lemma_below(h, p); lemma_descr_cons(h, p, b.da);
    let o = order(h, p);
    assert forall|i: int| 0 < i < o.len() implies #[trigger] o[i] == below(h, p)[i - 1] by { }
    assert(b.dg =~= descr(h, p, b.da).dg); assert(b.ds =~= descr(h, p, b.da).ds);
}
pub proof fn lemma_forest_clone(h: H, g: H, p: int, s: Seq<int>, v: int)
    requires wf(h), h.alive[p], presents(h, below(h, p), s), blt(g, v, fitems(h.kids[p].len() as int, h.desc[p], s, v), (s.len() + 1) as int), reals(fitems(h.kids[p].len() as int, h.desc[p], s, v)), cons(fitems(h.kids[p].len() as int, h.desc[p], s, v)), wf(g)
    ensures iso(h, g, p, v), eqpay(h, g, p, v, 1), fake(g.data[elem(v, 0)])
{
    let b = fitems(h.kids[p].len() as int, h.desc[p], s, v); let o = order(h, p); let n = nn(h, p) as int;
    lemma_below(h, p); lemma_descr_cons(h, p, b.da); lemma_descr_indep(h, p, b.da, Seq::empty());
    assert forall|i: int| 0 < i < o.len() implies #[trigger] o[i] == below(h, p)[i - 1] by { }
    assert(b.dg =~= descr(h, p, b.da).dg);
    assert forall|i: int| 0 <= i < nslots(v) implies #[trigger] image(h, g, p, v, i) by {
        lemma_order_kids(h, p, i, b.da); lemma_filled_wf_node(g, g, v, b, i); assert(filled(g, v, b, n, i)); assert(h.kids[o[i]].len() == b.dg[i]);
        assert(g.kids[elem(v, i)] =~= Seq::new(h.kids[o[i]].len(), |j: int| elem(v, off(descr(h, p, Seq::empty()).dg, i) + j)));
    }
    assert forall|i: int| 1 <= i < nslots(v) implies real(g.data[#[trigger] elem(v, i)]) && val(pay(g.data[elem(v, i)])) == val(pay(h.data[o[i]])) by { assert(filled(g, v, b, n, i)); assert(b.da[i] == D::Piled { data: vpay(s[i - 1]), owner: v }); }
    assert(filled(g, v, b, n, 0));
}
/// every node of f is live and has a payload
pub open spec fn allnodes(h: H, f: Seq<int>) -> bool { forall|i: int| 0 <= i < f.len() ==> h.alive[#[trigger] f[i]] && real(h.data[f[i]]) }
pub proof fn lemma_bout_real(h: H, f: Seq<int>, n: nat)
    requires wf(h), allnodes(h, f)
    ensures allnodes(h, bout(h, f, n))
    decreases n
{
    if n > 0 && f.len() > 0 {
        let x = f[0]; let t = f.drop_first(); let k = h.kids[x];
        assert forall|i: int| 0 <= i < (t + k).len() implies h.alive[#[trigger] (t + k)[i]] && real(h.data[(t + k)[i]]) by {
            if i < t.len() { assert(t[i] == f[i + 1]); } else { assert(wf_kid(h, x, i - t.len())); }
        }
        lemma_bout_real(h, t + k, (n - 1) as nat);
    }
}
pub proof fn lemma_kids_all(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures allnodes(h, h.kids[p])
{ assert forall|i: int| 0 <= i < h.kids[p].len() implies h.alive[#[trigger] h.kids[p][i]] && real(h.data[h.kids[p][i]]) by { assert(wf_kid(h, p, i)); } }
/// the traversal from f visits all nodes
pub open spec fn visited(h: H, f: Seq<int>) -> Seq<int> { bout(h, f, if sumd(h.desc, f) >= 0 { sumd(h.desc, f) as nat } else { 0 }) }
pub proof fn lemma_visited(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures visited(h, seq![p]) == order(h, p), visited(h, h.kids[p]) == below(h, p)
{ lemma_sumd_one(h.desc, p); lemma_below(h, p); assert(wf_node(h, p)); lemma_visit_at(h, p, 0); }
pub proof fn lemma_wsumn_ones(cnt: Map<int, int>, live: Set<int>, v: int, n: nat)
    requires n <= nslots(v), forall|i: int| 0 <= i < nslots(v) ==> cnt[#[trigger] elem(v, i)] == 1
    ensures wsumn(cnt, live, v, n) <= n
    decreases n
{ if n > 0 { lemma_wsumn_ones(cnt, live, v, (n - 1) as nat); } }
/// a new buffer without handles keeps the handles accounted for
pub proof fn lemma_built_rc(h: H, g: H, v: int)
    requires rcok(h), outside(h, g, v), wf(g), rel(g), nslots(v) >= 0, forall|i: int| 0 <= i < nslots(v) ==> g.cnt[#[trigger] elem(v, i)] == 1
    ensures rcok(g)
{
    assert forall|w: int| #[trigger] g.valive[w] implies g.vref[w] >= wsum(g, w) by {
        if w == v { lemma_wsumn_ones(g.cnt, g.vlive[v], v, nsl(v)); }
        else {
            assert(h.valive[w]); assert(vok(h, w));
            assert forall|q: int| #[trigger] g.vlive[w].contains(q) implies wt(g.cnt[q]) == wt(h.cnt[q]) by { assert(h.vlive[w].contains(q)); assert(!slot(v, q)); assert(same_cell(h, g, q)); }
            lemma_wsumn_same(g.cnt, h.cnt, g.vlive[w], w, nsl(w));
            assert(g.vlive[w] == h.vlive[w]);
        }
    }
    assert forall|q: int| #[trigger] g.alive[q] && g.up[q] is Some implies g.cnt[q] >= 1 by {
        if slot(v, q) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == q; assert(g.cnt[elem(v, i)] == 1); } else { assert(same_cell(h, g, q)); }
    }
}
/// the same, for a deep clone
pub proof fn lemma_iso_rc(h: H, g: H, p: int, v: int)
    requires rcok(h), outside(h, g, v), wf(g), rel(g), iso(h, g, p, v)
    ensures rcok(g)
{
    assert forall|i: int| 0 <= i < nslots(v) implies g.cnt[#[trigger] elem(v, i)] == 1 by { assert(image(h, g, p, v, i)); }
    lemma_built_rc(h, g, v);
}
// ------------------------------------------------ mapping the payloads
/// the result of the user's closure for the i-th item
pub uninterp spec fn fres(s: Seq<int>, i: int) -> int;
/// t presents the items of s, the payloads passed through the closure
pub open spec fn mapped(s: Seq<int>, t: Seq<int>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> vdeg(#[trigger] t[i]) == vdeg(s[i]) && vdesc(t[i]) == vdesc(s[i]) && vpay(t[i]) == fres(s, i) }
/// mapping keeps the shape
pub proof fn lemma_mapped(s: Seq<int>, t: Seq<int>)
    requires mapped(s, t)
    ensures cons(titems(s, 0)) ==> cons(titems(t, 0)), forall|dg: int, ds: int| cons(#[trigger] fitems(dg, ds, s, 0)) ==> cons(fitems(dg, ds, t, 0))
{
    assert(titems(s, 0).dg =~= titems(t, 0).dg); assert(titems(s, 0).ds =~= titems(t, 0).ds);
    if cons(titems(s, 0)) { lemma_cons_own(titems(s, 0), titems(t, 0)); }
    assert forall|dg: int, ds: int| cons(#[trigger] fitems(dg, ds, s, 0)) implies cons(fitems(dg, ds, t, 0)) by {
        assert(fitems(dg, ds, s, 0).dg =~= fitems(dg, ds, t, 0).dg); assert(fitems(dg, ds, s, 0).ds =~= fitems(dg, ds, t, 0).ds);
        lemma_cons_own(fitems(dg, ds, s, 0), fitems(dg, ds, t, 0));
    }
}
