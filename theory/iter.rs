// ------------------------------------------------ child iterators (C04)
/// what an iterator standing at `curr` with `len` items to come yields
pub open spec fn rest(next: Map<int, Option<int>>, curr: Option<int>, len: int) -> Seq<int> decreases len {
    if len <= 0 { Seq::empty() } else { match curr { None => Seq::empty(), Some(c) => seq![c] + rest(next, next[c], len - 1) } }
}
pub proof fn lemma_rest_sub(h: H, s: int, i: int)
    requires wf(h), h.alive[s], 0 <= i <= h.kids[s].len()
    ensures rest(h.next, oi(i < h.kids[s].len(), h.kids[s][i]), h.kids[s].len() - i) =~= h.kids[s].subrange(i, h.kids[s].len() as int)
    decreases h.kids[s].len() - i
{
    let k = h.kids[s]; let n = k.len() as int;
    if i < n {
        assert(wf_kid(h, s, i));
        lemma_rest_sub(h, s, i + 1);
        assert(h.next[k[i]] == oi(i + 1 < n, k[i + 1]));
        assert(seq![k[i]] + k.subrange(i + 1, n) =~= k.subrange(i, n));
    }
}
/// a fresh iterator over the children of s yields exactly the children
pub proof fn lemma_rest_kids(h: H, s: int)
    requires wf(h), h.alive[s]
    ensures rest(h.next, h.head[s], h.kids[s].len() as int) == h.kids[s], rest(h.next, h.head[s], h.deg[s]) == h.kids[s], h.head[s] == oi(h.kids[s].len() > 0, h.kids[s][0]), h.deg[s] == h.kids[s].len(),
{
    lemma_node(h, s);
    lemma_rest_sub(h, s, 0);
    assert(h.kids[s].subrange(0, h.kids[s].len() as int) =~= h.kids[s]);
}
pub proof fn lemma_rest_len(next: Map<int, Option<int>>, curr: Option<int>, len: int)
    ensures rest(next, curr, len).len() <= if len <= 0 { 0 } else { len },
        rest(next, curr, len).len() > 0 ==> (curr is Some && len > 0 && rest(next, curr, len)[0] == curr->Some_0 && rest(next, next[curr->Some_0], len - 1) == rest(next, curr, len).drop_first()),
        (curr is Some && len > 0) ==> rest(next, curr, len).len() == rest(next, next[curr->Some_0], len - 1).len() + 1,
        len <= 0 || curr is None ==> rest(next, curr, len).len() == 0,
    decreases len
{
    if len > 0 && curr is Some {
        let c = curr->Some_0;
        lemma_rest_len(next, next[c], len - 1);
        assert((seq![c] + rest(next, next[c], len - 1)).drop_first() =~= rest(next, next[c], len - 1));
    }
}
/// the remaining items are unaffected by changes of the links of other nodes
pub proof fn lemma_rest_frame(n1: Map<int, Option<int>>, n2: Map<int, Option<int>>, curr: Option<int>, len: int)
    requires forall|i: int| 0 <= i < rest(n1, curr, len).len() ==> n2[#[trigger] rest(n1, curr, len)[i]] == n1[rest(n1, curr, len)[i]]
    ensures rest(n2, curr, len) == rest(n1, curr, len)
    decreases len
{
    if len > 0 && curr is Some {
        let c = curr->Some_0; let r = rest(n1, curr, len); let t = rest(n1, n1[c], len - 1);
        assert(r =~= seq![c] + t);
        assert(r[0] == c); assert(n2[c] == n1[c]);
        assert forall|i: int| 0 <= i < t.len() implies n2[#[trigger] t[i]] == n1[t[i]] by { assert(r[i + 1] == t[i]); }
        lemma_rest_frame(n1, n2, n1[c], len - 1);
    }
}
/// C04 stability: an iterator that has already passed child j of s (its remaining items are the
/// children after j) yields the same items after anything that leaves the `next` links of those
/// later children alone; inserting before/after child j, detaching it, or changing its subtree do
/// (see the link postconditions of insert_prev_sib, insert_next_sib, detach, push_*, pop_*).
pub open spec fn later(h: H, s: int, j: int) -> Seq<int> { h.kids[s].subrange(j + 1, h.kids[s].len() as int) }
pub proof fn lemma_iter_stable(h: H, h2: H, s: int, j: int)
    requires wf(h), h.alive[s], 0 <= j < h.kids[s].len(),
        forall|q: int| h.kids[s].contains(q) && (exists|i: int| j < i < h.kids[s].len() && h.kids[s][i] == q) ==> #[trigger] h2.next[q] == h.next[q]
    ensures rest(h2.next, h.next[h.kids[s][j]], h.kids[s].len() - j - 1) == later(h, s, j)
{
    let k = h.kids[s]; let n = k.len() as int;
    assert(wf_kid(h, s, j));
    lemma_rest_sub(h, s, j + 1);
    let r = rest(h.next, h.next[k[j]], n - j - 1);
    assert(r =~= k.subrange(j + 1, n));
    assert forall|i: int| 0 <= i < r.len() implies h2.next[#[trigger] r[i]] == h.next[r[i]] by { assert(r[i] == k[j + 1 + i]); assert(k.contains(k[j + 1 + i])); }
    lemma_rest_frame(h.next, h2.next, h.next[k[j]], n - j - 1);
}
/// instance: detaching the child just yielded
pub proof fn lemma_iter_stable_detach(h: H, h2: H, s: int, j: int)
    requires wf(h), h.alive[s], 0 <= j < h.kids[s].len(),
        forall|q: int| #[trigger] h2.next[q] == (if q == h.kids[s][j] { None } else if j > 0 && q == h.kids[s][j - 1] { oi(j + 1 < h.kids[s].len(), h.kids[s][j + 1]) } else { h.next[q] })
    ensures rest(h2.next, h.next[h.kids[s][j]], h.kids[s].len() - j - 1) == later(h, s, j)
{
    lemma_node(h, s);
    let k = h.kids[s];
    assert forall|q: int| k.contains(q) && (exists|i: int| j < i < k.len() && k[i] == q) implies #[trigger] h2.next[q] == h.next[q] by { let i = choose|i: int| j < i < k.len() && k[i] == q; assert(k[i] != k[j]); if j > 0 { assert(k[i] != k[j - 1]); } }
    lemma_iter_stable(h, h2, s, j);
}
/// instance: inserting a root r before (at = j) or after (at = j + 1) the child just yielded
pub proof fn lemma_iter_stable_insert(h: H, h2: H, s: int, j: int, r: int, at: int)
    requires wf(h), h.alive[s], 0 <= j < h.kids[s].len(), at == j || at == j + 1, h.alive[r], h.up[r] is None,
        forall|q: int| #[trigger] h2.next[q] == (if q == r { oi(at < h.kids[s].len(), h.kids[s][at]) } else if at > 0 && q == h.kids[s][at - 1] { Some(r) } else { h.next[q] })
    ensures rest(h2.next, h.next[h.kids[s][j]], h.kids[s].len() - j - 1) == later(h, s, j)
{
    lemma_node(h, s);
    let k = h.kids[s];
    assert forall|q: int| k.contains(q) && (exists|i: int| j < i < k.len() && k[i] == q) implies #[trigger] h2.next[q] == h.next[q] by { let i = choose|i: int| j < i < k.len() && k[i] == q; assert(wf_kid(h, s, i)); if at > 0 { assert(k[i] != k[at - 1]); } }
    lemma_iter_stable(h, h2, s, j);
}
/// instance: any edit below the child just yielded (links change only at nodes that are no children of s)
pub proof fn lemma_iter_stable_below(h: H, h2: H, s: int, j: int)
    requires wf(h), h.alive[s], 0 <= j < h.kids[s].len(), forall|q: int| h.kids[s].contains(q) ==> #[trigger] h2.next[q] == h.next[q]
    ensures rest(h2.next, h.next[h.kids[s][j]], h.kids[s].len() - j - 1) == later(h, s, j)
{ lemma_iter_stable(h, h2, s, j); }
/// virtual roots are roots
pub proof fn lemma_fake_up(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures fake(h.data[p]) ==> h.up[p] is None
{
    assert(wf_node(h, p));
    if h.up[p] is Some { let q = h.up[p]->Some_0; assert(wf_node(h, q)); let i = choose|i: int| 0 <= i < h.kids[q].len() && h.kids[q][i] == p; assert(wf_kid(h, q, i)); }
}
