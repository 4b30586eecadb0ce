// The printed form (C16): text is a sequence of characters; -1 stands for a failure of the formatter
/// the text the payload type's own Display gives, taken as a function of the payload
pub uninterp spec fn disp(x: int) -> Seq<int>;
pub open spec fn formn(h: H, p: int, n: nat) -> Seq<int> decreases n, 0int {
    if n == 0 { Seq::empty() } else if h.kids[p].len() == 0 { disp(pvl(h, p)) } else { disp(pvl(h, p)) + seq![40, 32] + listn(h, h.kids[p], (n - 1) as nat) + seq![41] }
}
pub open spec fn listn(h: H, s: Seq<int>, n: nat) -> Seq<int> decreases n, s.len() + 1 { if s.len() == 0 { Seq::empty() } else { listn(h, s.drop_last(), n) + formn(h, s.last(), n) + seq![32] } }
/// the payload; if there are children, then these in parentheses, each followed by a space
pub open spec fn form(h: H, p: int) -> Seq<int> { formn(h, p, nn(h, p)) }
pub open spec fn list(h: H, s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { list(h, s.drop_last()) + form(h, s.last()) + seq![32] } }
/// a forest: its trees in parentheses
pub open spec fn formf(h: H, s: Seq<int>) -> Seq<int> { if s.len() == 0 { seq![40, 41] } else { seq![40, 32] + list(h, s) + seq![41] } }
pub open spec fn failed(s: Seq<int>) -> bool { s.len() > 0 && s.last() == -1 }
pub proof fn lemma_form_fuel(h: H, p: int, n: nat)
    requires wf(h), h.alive[p], n >= nn(h, p)
    ensures formn(h, p, n) == form(h, p)
    decreases n, 0int
{
    lemma_small(h, p);
    if n > nn(h, p) { lemma_list_fuel(h, h.kids[p], (n - 1) as nat); lemma_list_fuel(h, h.kids[p], (nn(h, p) - 1) as nat); }
}
pub proof fn lemma_list_fuel(h: H, s: Seq<int>, n: nat)
    requires wf(h), small(h, s, n)
    ensures listn(h, s, n) == list(h, s)
    decreases n, s.len() + 1
{
    if s.len() > 0 {
        assert(h.alive[s[s.len() - 1]]); lemma_form_fuel(h, s.last(), n);
        assert(small(h, s.drop_last(), n)) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies h.alive[#[trigger] s.drop_last()[i]] && nn(h, s.drop_last()[i]) <= n && nn(h, s.drop_last()[i]) >= 1 by { assert(s.drop_last()[i] == s[i]); } }
        lemma_list_fuel(h, s.drop_last(), n);
    }
}
pub proof fn lemma_form(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures form(h, p) == (if h.kids[p].len() == 0 { disp(pvl(h, p)) } else { disp(pvl(h, p)) + seq![40, 32] + list(h, h.kids[p]) + seq![41] })
{ lemma_small(h, p); lemma_list_fuel(h, h.kids[p], (nn(h, p) - 1) as nat); }
pub proof fn lemma_list_step(h: H, s: Seq<int>, i: int)
    requires 0 <= i < s.len()
    ensures list(h, s.subrange(0, i + 1)) == list(h, s.subrange(0, i)) + form(h, s[i]) + seq![32]
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
pub proof fn lemma_list_ends(h: H, s: Seq<int>)
    ensures list(h, s.subrange(0, 0)) == Seq::<int>::empty(), s.subrange(0, s.len() as int) == s
{ assert(s.subrange(0, s.len() as int) =~= s); }
pub proof fn lemma_formn_frame(h: H, g: H, p: int, n: nat)
    requires samep(h, g)
    ensures formn(g, p, n) == formn(h, p, n)
    decreases n, 0int
{ assert(g.kids[p] == h.kids[p]); if n > 0 { lemma_listn_frame(h, g, h.kids[p], (n - 1) as nat); } }
pub proof fn lemma_listn_frame(h: H, g: H, s: Seq<int>, n: nat)
    requires samep(h, g)
    ensures listn(g, s, n) == listn(h, s, n)
    decreases n, s.len() + 1
{ if s.len() > 0 { lemma_listn_frame(h, g, s.drop_last(), n); lemma_formn_frame(h, g, s.last(), n); } }
pub proof fn lemma_form_frame(h: H, g: H, p: int)
    requires samep(h, g)
    ensures form(g, p) == form(h, p)
{ assert(g.kids[p] == h.kids[p]); lemma_formn_frame(h, g, p, nn(h, p)); }
/// the iteration is given up: the iterator's reference goes
pub proof fn lemma_walk_stopped(h: H, g: H, k: H, p: int, i: int)
    requires walking(h, g, p, i), 0 <= i < h.kids[p].len(), g.cnt[h.kids[p][i]] >= 2, rdrop(g, k, h.kids[p][i])
    ensures same_nodes(h, k), recount(h, k, p, 0), rcok(k)
{
    let c = h.kids[p][i];
    lemma_same_nodes_trans(h, g, k);
    assert(g.data[c] == h.data[c]);
}
