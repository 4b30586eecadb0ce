// Operator notation (C12): clones used as operands
/// child sequence of the copy of the i-th node, before anything is hooked in
pub open spec fn ikids(h: H, p: int, v: int, i: int) -> Seq<int> { Seq::new(h.kids[order(h, p)[i]].len(), |j: int| elem(v, off(descr(h, p, Seq::empty()).dg, i) + j)) }
/// an equal payload
pub open spec fn copyp(h: H, g: H, p: int, v: int, i: int) -> bool { g.alive[elem(v, i)] && real(g.data[elem(v, i)]) && val(pay(g.data[elem(v, i)])) == val(pay(h.data[order(h, p)[i]])) }
/// slot i of v is a copy of the i-th node of the tree at p in breadth-first order
pub open spec fn copy1(h: H, g: H, p: int, v: int, i: int) -> bool { copyp(h, g, p, v, i) && g.kids[elem(v, i)] == ikids(h, p, v, i) }
/// the slots of v from number from on are copies
pub open spec fn copied(h: H, g: H, p: int, v: int, from: int) -> bool { nslots(v) == order(h, p).len() && forall|i: int| from <= i < nslots(v) ==> #[trigger] copy1(h, g, p, v, i) }
/// the children of the copy of p
pub open spec fn ckids(h: H, p: int, v: int) -> Seq<int> { Seq::new(h.kids[p].len(), |j: int| elem(v, 1 + j)) }
pub open spec fn keeps(h: H, g: H) -> bool { forall|q: int| #[trigger] h.alive[q] ==> g.alive[q] && g.kids[q] == h.kids[q] && g.data[q] == h.data[q] && g.desc[q] == h.desc[q] }
pub open spec fn samen(g: H, g2: H, q: int) -> bool { g.alive[q] ==> g2.alive[q] && g2.kids[q] == g.kids[q] && g2.data[q] == g.data[q] }
pub open spec fn allalive(h: H, f: Seq<int>) -> bool { forall|i: int| 0 <= i < f.len() ==> h.alive[#[trigger] f[i]] }
pub proof fn lemma_bout_keep(h: H, g: H, f: Seq<int>, n: nat)
    requires wf(h), keeps(h, g), allalive(h, f)
    ensures bout(g, f, n) == bout(h, f, n), allalive(h, bout(h, f, n))
    decreases n
{
    if n > 0 && f.len() > 0 {
        let x = f[0]; let t = f.drop_first(); let k = h.kids[x];
        assert(h.alive[x]); assert(g.kids[x] == k);
        assert forall|i: int| 0 <= i < (t + k).len() implies h.alive[#[trigger] (t + k)[i]] by {
            if i < t.len() { assert(t[i] == f[i + 1]); } else { assert(wf_kid(h, x, i - t.len())); }
        }
        lemma_bout_keep(h, g, t + k, (n - 1) as nat);
    }
}
pub proof fn lemma_order_keep(h: H, g: H, p: int)
    requires wf(h), keeps(h, g), h.alive[p]
    ensures order(g, p) == order(h, p), nn(g, p) == nn(h, p), descr(g, p, Seq::empty()).dg == descr(h, p, Seq::empty()).dg, allalive(h, order(h, p))
{
    assert(g.desc[p] == h.desc[p]);
    lemma_bout_keep(h, g, seq![p], nn(h, p));
    lemma_visit_at(h, p, nn(h, p));
    assert(descr(g, p, Seq::empty()).dg =~= descr(h, p, Seq::empty()).dg) by {
        assert forall|i: int| 0 <= i < nn(h, p) implies #[trigger] g.kids[order(h, p)[i]] == h.kids[order(h, p)[i]] by { assert(h.alive[order(h, p)[i]]); }
    }
}
pub proof fn lemma_op_clone(h: H, g: H, g2: H, p: int, v: int, from: int)
    requires wf(h), h.alive[p], keeps(h, g), outside(g, g2, v), iso(g, g2, p, v), eqpay(g, g2, p, v, from), wf(g2), from == 0 || from == 1
    ensures copied(h, g2, p, v, from), keeps(h, g2), forall|q: int| #[trigger] slot(v, q) ==> !g.alive[q] && !nonelem(q), forall|q: int| #[trigger] g.alive[q] ==> !slot(v, q) && same_cell(g, g2, q),
        g2.kids[elem(v, 0)] == ckids(h, p, v), g2.cnt[elem(v, 0)] == 1, g2.alive[elem(v, 0)], slot(v, elem(v, 0)), g2.pd == g.pd ==> true,
        forall|i: int| 0 <= i < nslots(v) ==> g2.alive[#[trigger] elem(v, i)]
{
    lemma_order_keep(h, g, p);
    lemma_elems(v);
    let o = order(h, p); let dg = descr(h, p, Seq::empty()).dg;
    assert(wf_node(h, p)); assert(h.desc[p] >= 0);
    assert(nslots(v) >= 1);
    assert forall|i: int| 0 <= i < nslots(v) implies g2.kids[elem(v, i)] == ikids(h, p, v, i) && #[trigger] g2.alive[elem(v, i)] by {
        assert(image(g, g2, p, v, i)); assert(h.alive[o[i]]); assert(g.kids[o[i]] == h.kids[o[i]]);
        assert(g2.kids[elem(v, i)] =~= ikids(h, p, v, i));
    }
    assert forall|i: int| from <= i < nslots(v) implies #[trigger] copy1(h, g2, p, v, i) by {
        assert(real(g2.data[elem(v, i)])); assert(h.alive[o[i]]); assert(g.data[o[i]] == h.data[o[i]]); assert(g2.alive[elem(v, i)]); assert(g2.kids[elem(v, i)] == ikids(h, p, v, i));
    }
    assert(image(g, g2, p, v, 0)); assert(g2.alive[elem(v, 0)]);
    assert(off(dg, 0) == 1); assert(ikids(h, p, v, 0) =~= ckids(h, p, v));
    assert forall|q: int| #[trigger] g.alive[q] implies !slot(v, q) && same_cell(g, g2, q) by { if slot(v, q) { } }
    assert forall|q: int| #[trigger] h.alive[q] implies g2.alive[q] && g2.kids[q] == h.kids[q] && g2.data[q] == h.data[q] && g2.desc[q] == h.desc[q] by { assert(g.alive[q]); assert(same_cell(g, g2, q)); }
    assert(slot(v, elem(v, 0)));
    assert forall|i: int| 0 <= i < nslots(v) implies g2.alive[#[trigger] elem(v, i)] by { assert(image(g, g2, p, v, i)); }
}
/// only s and f change
pub proof fn lemma_copied_frame(h: H, g: H, g2: H, p: int, v: int, a: int, from: int, s: int, f: int)
    requires copied(h, g, p, v, a), 0 <= a <= from, forall|q: int| q != s && q != f ==> #[trigger] samen(g, g2, q), !slot(v, s) || (s == elem(v, 0) && from >= 1), !slot(v, f) || (f == elem(v, 0) && from >= 1)
    ensures copied(h, g2, p, v, from)
{
    lemma_elems(v);
    assert forall|i: int| from <= i < nslots(v) implies #[trigger] copy1(h, g2, p, v, i) by { assert(copy1(h, g, p, v, i)); assert(slot(v, elem(v, i))); assert(elem(v, i) != s && elem(v, i) != f); assert(samen(g, g2, elem(v, i))); }
}
pub proof fn lemma_copied_out(h: H, g: H, g2: H, p: int, v: int, from: int, w: int)
    requires copied(h, g, p, v, from), outside(g, g2, w)
    ensures copied(h, g2, p, v, from)
{
    assert forall|i: int| from <= i < nslots(v) implies #[trigger] copy1(h, g2, p, v, i) by { assert(copy1(h, g, p, v, i)); assert(g.alive[elem(v, i)]); if slot(w, elem(v, i)) { } assert(same_cell(g, g2, elem(v, i))); }
}
pub proof fn lemma_born_keeps(h: H, g: H, g2: H, n: int, d: D)
    requires keeps(h, g), born(g, g2, n, d)
    ensures keeps(h, g2), forall|q: int| q != n ==> #[trigger] samen(g, g2, q)
{
    assert forall|q: int| #[trigger] h.alive[q] implies g2.alive[q] && g2.kids[q] == h.kids[q] && g2.data[q] == h.data[q] && g2.desc[q] == h.desc[q] by { assert(g.alive[q]); assert(q != n); }
}
/// what splicing does to children and payloads
pub proof fn lemma_spliced_op(h0: H, h: H, h2: H, s: int, f: int, back: bool)
    requires spl_pre(h, s, f), spliced(h, h2, s, f, back), keeps(h0, h)
    ensures s != f, h2.alive[s], h2.data[s] == h.data[s], h2.kids[s] == spl_all(h, s, f, back), h2.up[s] == h.up[s], forall|q: int| q != s && q != f ==> #[trigger] samen(h, h2, q),
        forall|q: int| h0.alive[q] && q != s && q != f ==> #[trigger] samen(h0, h2, q)
{
    lemma_spl_facts(h, s, f); lemma_anc_refl(h.up, s);
    assert(h2.alive[s] == (h.alive[s] && s != f));
    assert(h2.alive[s]);
    assert forall|q: int| q != s && q != f implies #[trigger] samen(h, h2, q) by { if h.alive[q] { assert(h2.alive[q]); } }
    assert forall|q: int| h0.alive[q] && q != s && q != f implies #[trigger] samen(h0, h2, q) by { assert(h.alive[q]); assert(samen(h, h2, q)); }
}
