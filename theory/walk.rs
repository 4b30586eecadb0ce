// ------------------------------------------------ depth first walks (C08, C09)
// Kinds of visits, as in the source: 1 Begin, 2 End, 3 Leaf; directions: 0 Up, 1 Down, 2 Right.
pub struct Ev { pub k: int, pub n: int }
/// the visit with which a node is entered
pub open spec fn first(h: H, n: int) -> Ev { if h.kids[n].len() == 0 { Ev { k: 3, n: n } } else { Ev { k: 1, n: n } } }
/// the Euler tour of the trees rooted at the nodes of s, one after the other
pub open spec fn tour(h: H, s: Seq<int>) -> Seq<Ev> decreases sumd(h.desc, s) {
    if s.len() == 0 { Seq::empty() } else {
        let n = s[0]; let r = s.drop_first(); let k = h.kids[n];
        if 0 <= sumd(h.desc, k) < sumd(h.desc, s) && 0 <= sumd(h.desc, r) < sumd(h.desc, s) {
            if k.len() == 0 { seq![Ev { k: 3, n: n }] + tour(h, r) }
            else { (seq![Ev { k: 1, n: n }] + tour(h, k) + seq![Ev { k: 2, n: n }]) + tour(h, r) }
        } else { Seq::empty() }
    }
}
/// the visit that follows e in a walk whose topmost nodes are org and its siblings
pub open spec fn succ(h: H, org: int, e: Ev) -> Option<Ev> {
    if e.k == 1 { Some(first(h, h.kids[e.n][0])) }
    else { match h.next[e.n] {
        Some(m) => Some(first(h, m)),
        None => if h.up[e.n] == h.up[org] { None } else { Some(Ev { k: 2, n: h.up[e.n]->Some_0 }) },
    } }
}
/// s is a run of siblings ending with the last one
pub open spec fn sibs(h: H, s: Seq<int>, u: Option<int>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> sib(h, s, u, i)
}
pub open spec fn sib(h: H, s: Seq<int>, u: Option<int>, i: int) -> bool {
    h.alive[#[trigger] s[i]] && h.up[s[i]] == u && h.next[s[i]] == (if i + 1 < s.len() { Some(s[i + 1]) } else { None })
}
/// the topmost nodes of a walk: a root without siblings, or the children of the root of a forest
pub open spec fn okorg(h: H, org: int) -> bool { h.alive[org] && match h.up[org] { None => h.next[org] is None, Some(f) => h.up[f] is None } }
pub proof fn lemma_sibs_kids(h: H, n: int)
    requires wf(h), h.alive[n]
    ensures sibs(h, h.kids[n], Some(n)), nneg(h.desc, h.kids[n]), h.desc[n] == sumd(h.desc, h.kids[n]), h.desc[n] >= 0
{
    assert(wf_node(h, n));
    let s = h.kids[n];
    assert forall|i: int| 0 <= i < s.len() implies sib(h, s, Some(n), i) && h.desc[s[i]] >= 0 by { assert(wf_kid(h, n, i)); assert(wf_node(h, s[i])); }
    assert forall|i: int| 0 <= i < s.len() implies h.desc[#[trigger] s[i]] >= 0 by { assert(sib(h, s, Some(n), i)); assert(wf_node(h, s[i])); }
}
pub proof fn lemma_sumd_first(d: Map<int, int>, s: Seq<int>)
    requires s.len() > 0
    ensures sumd(d, s) == d[s[0]] + 1 + sumd(d, s.drop_first())
{ assert(s =~= seq![s[0]] + s.drop_first()); lemma_sumd_cat(d, seq![s[0]], s.drop_first()); lemma_sumd_one(d, s[0]); }
/// consecutive visits of t follow each other
pub open spec fn linked(h: H, org: int, t: Seq<Ev>) -> bool { forall|i: int| 0 <= i < t.len() - 1 ==> succ(h, org, #[trigger] t[i]) == Some(t[i + 1]) }
pub open spec fn last_visit(h: H, n: int) -> Ev { if h.kids[n].len() == 0 { Ev { k: 3, n: n } } else { Ev { k: 2, n: n } } }
pub proof fn lemma_linked_cat(h: H, org: int, a: Seq<Ev>, b: Seq<Ev>)
    requires linked(h, org, a), linked(h, org, b), a.len() > 0 && b.len() > 0 ==> succ(h, org, a.last()) == Some(b[0])
    ensures linked(h, org, a + b)
{
    let t = a + b;
    assert forall|i: int| 0 <= i < t.len() - 1 implies succ(h, org, #[trigger] t[i]) == Some(t[i + 1]) by {
        if i < a.len() - 1 { assert(t[i] == a[i]); assert(t[i + 1] == a[i + 1]); } else if i == a.len() - 1 { assert(t[i] == a.last()); assert(t[i + 1] == b[0]); }
        else { assert(t[i] == b[i - a.len()]); assert(t[i + 1] == b[i - a.len() + 1]); }
    }
}
/// a tour of one tree followed by the rest of the tour
pub proof fn lemma_tour_join(h: H, org: int, a: Seq<Ev>, tr: Seq<Ev>, fin: Option<Ev>)
    requires linked(h, org, a), linked(h, org, tr), a.len() > 0, tr.len() > 0 ==> succ(h, org, a.last()) == Some(tr[0]) && succ(h, org, tr.last()) == fin, tr.len() == 0 ==> succ(h, org, a.last()) == fin
    ensures linked(h, org, a + tr), (a + tr).len() > 0, (a + tr)[0] == a[0], (a + tr).last() == (if tr.len() > 0 { tr.last() } else { a.last() }), succ(h, org, (a + tr).last()) == fin
{
    lemma_linked_cat(h, org, a, tr);
    if tr.len() > 0 { assert((a + tr).last() == tr.last()); } else { assert(a + tr =~= a); }
}
/// a node with children: begin, the tours of the children, end
pub proof fn lemma_tour_block(h: H, org: int, n: int, tk: Seq<Ev>)
    requires linked(h, org, tk), tk.len() > 0, succ(h, org, Ev { k: 1, n: n }) == Some(tk[0]), succ(h, org, tk.last()) == Some(Ev { k: 2, n: n })
    ensures ({ let a = seq![Ev { k: 1, n: n }] + tk + seq![Ev { k: 2, n: n }]; linked(h, org, a) && a.len() > 0 && a[0] == (Ev { k: 1, n: n }) && a.last() == (Ev { k: 2, n: n }) })
{
    let b = seq![Ev { k: 1, n: n }]; let e = seq![Ev { k: 2, n: n }];
    assert(b.last() == Ev { k: 1, n: n }); assert(e.last() == Ev { k: 2, n: n });
    lemma_linked_cat(h, org, b, tk);
    assert((b + tk).last() == tk.last());
    lemma_linked_cat(h, org, b + tk, e);
    let a = b + tk + e;
    assert(a[0] == b[0]);
}
pub proof fn lemma_sibs_rest(h: H, s: Seq<int>, u: Option<int>)
    requires wf(h), sibs(h, s, u), s.len() > 0
    ensures sibs(h, s.drop_first(), u), nneg(h.desc, s.drop_first()), h.alive[s[0]], h.up[s[0]] == u, h.next[s[0]] == (if s.len() > 1 { Some(s[1]) } else { None }),
        s.len() > 1 ==> s.drop_first()[0] == s[1] && s.last() == s.drop_first().last(), s.len() == 1 ==> s.last() == s[0]
{
    let r = s.drop_first();
    assert(sib(h, s, u, 0));
    assert forall|i: int| 0 <= i < r.len() implies sib(h, r, u, i) by { assert(r[i] == s[i + 1]); assert(sib(h, s, u, i + 1)); if i + 1 < r.len() { assert(r[i + 1] == s[i + 2]); } }
    assert(nneg(h.desc, r)) by { assert forall|j: int| 0 <= j < r.len() implies h.desc[#[trigger] r[j]] >= 0 by { assert(sib(h, r, u, j)); assert(wf_node(h, r[j])); } }
}
pub open spec fn tour_ok(h: H, s: Seq<int>, u: Option<int>, org: int) -> bool {
    linked(h, org, tour(h, s)) && (s.len() == 0 ==> tour(h, s).len() == 0)
    && (s.len() > 0 ==> tour(h, s).len() > 0 && tour(h, s)[0] == first(h, s[0]) && tour(h, s).last() == last_visit(h, s.last())
        && succ(h, org, tour(h, s).last()) == (if u == h.up[org] { None } else { Some(Ev { k: 2, n: u->Some_0 }) }))
}
pub proof fn lemma_tour_step(h: H, s: Seq<int>, u: Option<int>, org: int)
    requires s.len() > 0, 0 <= sumd(h.desc, h.kids[s[0]]) < sumd(h.desc, s), 0 <= sumd(h.desc, s.drop_first()) < sumd(h.desc, s), tour_ok(h, s.drop_first(), u, org), h.kids[s[0]].len() > 0 ==> tour_ok(h, h.kids[s[0]], Some(s[0]), org) && h.up[org] != Some(s[0]),
        h.up[s[0]] == u, h.next[s[0]] == (if s.len() > 1 { Some(s[1]) } else { None }), s.len() > 1 ==> s.drop_first()[0] == s[1] && s.last() == s.drop_first().last(), s.len() == 1 ==> s.last() == s[0]
    ensures tour_ok(h, s, u, org)
{
    let n = s[0]; let r = s.drop_first(); let k = h.kids[n]; let tr = tour(h, r);
    let fin = if u == h.up[org] { None } else { Some(Ev { k: 2, n: u->Some_0 }) };
    if k.len() == 0 {
        let a = seq![Ev { k: 3, n: n }];
        assert(a.last() == Ev { k: 3, n: n });
        lemma_tour_join(h, org, a, tr, fin);
        assert(tour(h, s) == a + tr);
    } else {
        let tk = tour(h, k);
        lemma_tour_block(h, org, n, tk);
        let a = seq![Ev { k: 1, n: n }] + tk + seq![Ev { k: 2, n: n }];
        lemma_tour_join(h, org, a, tr, fin);
        assert(tour(h, s) == a + tr);
    }
}
/// The Euler tour is exactly what iterating succ from the first visit yields.
pub proof fn lemma_tour(h: H, s: Seq<int>, u: Option<int>, org: int)
    requires wf(h), okorg(h, org), sibs(h, s, u), u == h.up[org] || (u is Some && h.alive[u->Some_0])
    ensures tour_ok(h, s, u, org)
    decreases sumd(h.desc, s)
{
    if s.len() > 0 {
        let n = s[0]; let r = s.drop_first(); let k = h.kids[n];
        lemma_sibs_rest(h, s, u); lemma_sibs_kids(h, n); lemma_sumd_first(h.desc, s); lemma_sumd_len(h.desc, r); lemma_sumd_len(h.desc, k);
        lemma_tour(h, r, u, org);
        if k.len() > 0 {
            if h.up[org] == Some(n) { assert(false); }
            lemma_tour(h, k, Some(n), org);
        }
        lemma_tour_step(h, s, u, org);
    } else { assert(tour(h, s) =~= Seq::<Ev>::empty()); }
}
/// walking a whole tree: exactly the Euler tour of the tree, then nothing
pub proof fn lemma_tour_tree(h: H, r: int)
    requires wf(h), h.alive[r], h.up[r] is None
    ensures linked(h, r, tour(h, seq![r])), tour(h, seq![r]).len() > 0, tour(h, seq![r])[0] == first(h, r), succ(h, r, tour(h, seq![r]).last()) is None
{
    assert(wf_node(h, r));
    let s = seq![r];
    assert forall|i: int| 0 <= i < s.len() implies sib(h, s, None, i) by { assert(s[i] == r); }
    lemma_tour(h, s, None, r);
}
/// walking a forest: the tours of its trees one after the other, then nothing
pub proof fn lemma_tour_forest(h: H, f: int)
    requires wf(h), h.alive[f], h.up[f] is None, h.kids[f].len() > 0
    ensures linked(h, h.kids[f][0], tour(h, h.kids[f])), tour(h, h.kids[f]).len() > 0, tour(h, h.kids[f])[0] == first(h, h.kids[f][0]), succ(h, h.kids[f][0], tour(h, h.kids[f]).last()) is None
{ lemma_sibs_kids(h, f); assert(sib(h, h.kids[f], Some(f), 0)); lemma_tour(h, h.kids[f], Some(f), h.kids[f][0]); }

// ------------------------------------------------ the walker's stack
pub open spec fn wfr(h: H, w: Seq<Nd>, org: int, i: int) -> bool {
    &&& w[i].sentinel is None
    &&& i + 1 < w.len() ==> w[i].node is Some
    &&& match w[i].node { None => true, Some(x) => h.alive[x] && (i + 1 < w.len() ==> h.kids[x].len() > 0) && h.up[x] == (if i == 0 { h.up[org] } else { w[i - 1].node }) }
}
pub open spec fn wpath(h: H, w: Seq<Nd>, org: Option<int>) -> bool {
    (w.len() > 0 ==> org is Some) && (org is Some ==> okorg(h, org->Some_0)) && forall|i: int| 0 <= i < w.len() ==> #[trigger] wfr(h, w, org->Some_0, i)
}
/// direction and visit fit the stack; exact: also between two visits of a node
pub open spec fn wtop(h: H, w: Seq<Nd>, dir: int, vt: int) -> bool {
    if w.len() == 0 { dir == 1 && vt == 0 }
    else { match w.last().node {
        None => dir == 0 && vt == 0,
        Some(n) => (vt == 1 && h.kids[n].len() > 0 && dir == 1) || (vt == 2 && h.kids[n].len() > 0 && dir == 2) || (vt == 3 && h.kids[n].len() == 0 && (dir == 1 || dir == 2)),
    } }
}
pub open spec fn winv(h: H, w: Seq<Nd>, dir: int, vt: int, org: Option<int>) -> bool { wpath(h, w, org) && wtop(h, w, dir, vt) }
/// what get() reports
pub open spec fn pos(w: Seq<Nd>, vt: int) -> Option<Ev> { if w.len() == 0 || vt == 0 || w.last().node is None { None } else { Some(Ev { k: vt, n: w.last().node->Some_0 }) } }
/// the visit that follows in the state (w, vt): the successor of the current visit; after a jump beyond the last sibling the end of the parent; none at the end
pub open spec fn wsucc(h: H, w: Seq<Nd>, vt: int, org: Option<int>) -> Option<Ev> {
    match pos(w, vt) {
        Some(e) => succ(h, org->Some_0, e),
        None => if w.len() >= 2 { Some(Ev { k: 2, n: w[w.len() - 2].node->Some_0 }) } else { None },
    }
}
pub proof fn lemma_w_last(h: H, w: Seq<Nd>, org: Option<int>)
    requires wf(h), wpath(h, w, org)
    ensures org is Some ==> h.alive[org->Some_0] && wf_node(h, org->Some_0) && okorg(h, org->Some_0),
        w.len() > 0 ==> org is Some && wfr(h, w, org->Some_0, w.len() - 1) && w.last() == w[w.len() - 1] && w[w.len() - 1].sentinel is None
            && match w.last().node { None => true, Some(n) => wf_node(h, n) && h.alive[n] && h.desc[n] >= 0
                && (h.kids[n].len() > 0 ==> wf_kid(h, n, 0) && wf_node(h, h.kids[n][0]))
                && (h.next[n] is Some ==> h.alive[h.next[n]->Some_0] && h.up[h.next[n]->Some_0] == h.up[n] && wf_node(h, h.next[n]->Some_0)) 
                && (w.len() == 1 <==> h.up[n] == h.up[org->Some_0]) && (w.len() >= 2 ==> h.up[n] is Some && h.up[n] == w[w.len() - 2].node) },
        w.len() > 1 ==> wfr(h, w, org->Some_0, w.len() - 2) && w[w.len() - 2].node is Some && h.alive[w[w.len() - 2].node->Some_0] && h.kids[w[w.len() - 2].node->Some_0].len() > 0 && wf_node(h, w[w.len() - 2].node->Some_0),
{
    if org is Some { assert(wf_node(h, org->Some_0)); }
    let o = org->Some_0;
    if w.len() > 0 {
        let l = w.len() - 1;
        assert(wfr(h, w, o, l));
        if w.len() > 1 { assert(wfr(h, w, o, l - 1)); assert(wf_node(h, w[l - 1].node->Some_0)); }
        if w.last().node is Some {
            let n = w.last().node->Some_0;
            assert(wf_node(h, n));
            if h.kids[n].len() > 0 { assert(wf_kid(h, n, 0)); assert(wf_node(h, h.kids[n][0])); }
            if h.next[n] is Some && h.up[n] is Some {
                let p = h.up[n]->Some_0; assert(wf_node(h, p)); let i = choose|i: int| 0 <= i < h.kids[p].len() && h.kids[p][i] == n; assert(wf_kid(h, p, i)); assert(wf_kid(h, p, i + 1)); assert(wf_node(h, h.next[n]->Some_0));
            }
            if w.len() >= 2 && h.up[n] == h.up[o] { assert(h.up[h.up[n]->Some_0] is None); let x = w[l - 1].node->Some_0; assert(h.up[n] == Some(x)); assert(h.up[x] == (if l - 1 == 0 { h.up[o] } else { w[l - 2].node })); if l - 1 > 0 { assert(wfr(h, w, o, l - 2)); } assert(false); }
        }
    }
}
/// stacks reached from w by one move: unchanged, popped, another sibling on top, a child pushed
pub open spec fn wmove(h: H, w: Seq<Nd>, v: Seq<Nd>) -> bool {
    ||| v =~= w
    ||| w.len() > 0 && v =~= w.drop_last()
    ||| w.len() > 0 && v.len() == w.len() && (forall|i: int| 0 <= i < w.len() - 1 ==> v[i] == #[trigger] w[i]) && v.last().sentinel is None
        && w.last().node is Some && (v.last().node is Some ==> h.alive[v.last().node->Some_0] && h.up[v.last().node->Some_0] == h.up[w.last().node->Some_0])
    ||| w.len() > 0 && v.len() == w.len() + 1 && (forall|i: int| 0 <= i < w.len() ==> v[i] == #[trigger] w[i]) && v.last().sentinel is None
        && w.last().node is Some && h.kids[w.last().node->Some_0].len() > 0 && (v.last().node is Some ==> h.alive[v.last().node->Some_0] && h.up[v.last().node->Some_0] == w.last().node)
}
pub proof fn lemma_w_move(h: H, w: Seq<Nd>, v: Seq<Nd>, org: Option<int>)
    requires wf(h), wpath(h, w, org), wmove(h, w, v)
    ensures wpath(h, v, org)
{
    let o = org->Some_0;
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] wfr(h, v, o, i) by {
        if i < w.len() { assert(wfr(h, w, o, i)); }
        if 0 < i <= w.len() { assert(wfr(h, w, o, i - 1)); assert(w[i - 1] == v[i - 1]); }
        if i < w.len() - 1 { assert(w[i] == v[i]); }
    }
    if w.len() > 0 { assert(w[w.len() - 1] == w.last()); }
}
/// a stack with a single entry
pub proof fn lemma_w_one(h: H, w: Seq<Nd>, o: int)
    requires wf(h), okorg(h, o), w.len() == 1, w[0] == (Nd { node: Some(o), sentinel: None })
    ensures wpath(h, w, Some(o))
{ assert forall|i: int| 0 <= i < w.len() implies #[trigger] wfr(h, w, o, i) by { } }
/// the n-th following sibling in terms of the child sequence
pub proof fn lemma_nth_sib(h: H, p: int, i: int, n: nat)
    requires wf(h), h.alive[p], 0 <= i < h.kids[p].len()
    ensures nth(h.next, h.kids[p][i], n) == oi(i + n < h.kids[p].len(), h.kids[p][i + n])
    decreases n
{ if n > 0 { lemma_nth_sib(h, p, i, (n - 1) as nat); if i + n - 1 < h.kids[p].len() { assert(wf_kid(h, p, i + n - 1)); } } }
/// ... stays within the siblings
pub proof fn lemma_nth_up(h: H, x: int, n: nat)
    requires wf(h), h.alive[x], nth(h.next, x, n) is Some
    ensures h.alive[nth(h.next, x, n)->Some_0], h.up[nth(h.next, x, n)->Some_0] == h.up[x]
    decreases n
{
    if n > 0 {
        lemma_nth_up(h, x, (n - 1) as nat);
        let y = nth(h.next, x, (n - 1) as nat)->Some_0;
        assert(wf_node(h, y));
        if h.up[y] is Some { let p = h.up[y]->Some_0; assert(wf_node(h, p)); let i = choose|i: int| 0 <= i < h.kids[p].len() && h.kids[p][i] == y; assert(wf_kid(h, p, i)); assert(wf_kid(h, p, i + 1)); }
    }
}
pub proof fn lemma_nth_none(m: Map<int, Option<int>>, x: int, i: nat, j: nat)
    requires i <= j, nth(m, x, i) is None
    ensures nth(m, x, j) is None
    decreases j
{ if i < j { lemma_nth_none(m, x, i, (j - 1) as nat); } }
