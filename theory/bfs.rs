// ------------------------------------------------ breadth-first traversal (C06, C07)
/// everything queued, front first
pub open spec fn flat(q: Seq<Seq<int>>) -> Seq<int> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { q[0] + flat(q.drop_first()) }
}
pub proof fn lemma_flat_push(q: Seq<Seq<int>>, s: Seq<int>)
    ensures flat(q.push(s)) == flat(q) + s
    decreases q.len()
{
    let t = q.push(s);
    if q.len() == 0 {
        assert(t.drop_first() =~= Seq::<Seq<int>>::empty());
        assert(flat(t.drop_first()) =~= Seq::<int>::empty());
        assert(flat(t) =~= s); assert(flat(q) + s =~= s);
    }
    else {
        assert(t.drop_first() =~= q.drop_first().push(s));
        lemma_flat_push(q.drop_first(), s);
        assert(t[0] == q[0]);
        assert(q[0] + (flat(q.drop_first()) + s) =~= (q[0] + flat(q.drop_first())) + s);
    }
}
pub proof fn lemma_flat_one(q: Seq<Seq<int>>)
    ensures q.len() == 0 ==> flat(q) =~= Seq::<int>::empty(), q.len() > 0 ==> flat(q) == q[0] + flat(q.drop_first()),
        q.len() > 0 && q[0].len() == 0 ==> flat(q) == flat(q.drop_first()),
        q.len() > 0 && q[0].len() > 0 ==> flat(q).len() > 0 && flat(q)[0] == q[0][0] && flat(q.update(0, q[0].drop_first())) == flat(q).drop_first(),
        q.len() == 1 ==> flat(q) == q[0],
{
    if q.len() > 0 {
        if q[0].len() == 0 { assert(q[0] + flat(q.drop_first()) =~= flat(q.drop_first())); }
        else {
            let u = q.update(0, q[0].drop_first());
            assert(u.drop_first() =~= q.drop_first());
            assert(u[0] == q[0].drop_first());
            assert(flat(u) == u[0] + flat(u.drop_first()));
            assert(flat(u) =~= flat(q).drop_first());
        }
        if q.len() == 1 { assert(q.drop_first() =~= Seq::<Seq<int>>::empty()); assert(flat(q.drop_first()) =~= Seq::<int>::empty()); assert(flat(q) =~= q[0]); }
    }
}
/// the queue after n visits
pub open spec fn brun(h: H, f: Seq<int>, n: nat) -> Seq<int> decreases n {
    if n == 0 { f } else if f.len() == 0 { f } else { brun(h, f.drop_first() + h.kids[f[0]], (n - 1) as nat) }
}
/// the first n visited nodes
pub open spec fn bout(h: H, f: Seq<int>, n: nat) -> Seq<int> decreases n {
    if n == 0 || f.len() == 0 { Seq::empty() } else { seq![f[0]] + bout(h, f.drop_first() + h.kids[f[0]], (n - 1) as nat) }
}
/// the children of all nodes of f, in order
pub open spec fn kcat(h: H, f: Seq<int>) -> Seq<int> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { h.kids[f[0]] + kcat(h, f.drop_first()) }
}
/// the nodes k levels below f
pub open spec fn level(h: H, f: Seq<int>, k: nat) -> Seq<int> decreases k { if k == 0 { f } else { kcat(h, level(h, f, (k - 1) as nat)) } }
/// the nodes less than k levels below f, level by level
pub open spec fn levels(h: H, f: Seq<int>, k: nat) -> Seq<int> decreases k { if k == 0 { Seq::empty() } else { levels(h, f, (k - 1) as nat) + level(h, f, (k - 1) as nat) } }
/// a queued level is visited in order, leaving its children behind
pub proof fn lemma_brun_level(h: H, f: Seq<int>, g: Seq<int>)
    ensures brun(h, f + g, f.len()) == g + kcat(h, f), bout(h, f + g, f.len()) == f
    decreases f.len()
{
    if f.len() == 0 { assert(f + g =~= g); assert(g + kcat(h, f) =~= g); assert(bout(h, f + g, 0) =~= f); }
    else {
        let x = f[0]; let t = f.drop_first(); let k = h.kids[x];
        assert((f + g)[0] == x);
        assert((f + g).drop_first() + k =~= t + (g + k));
        lemma_brun_level(h, t, g + k);
        assert((g + k) + kcat(h, t) =~= g + (k + kcat(h, t)));
        assert(seq![x] + t =~= f);
    }
}
pub proof fn lemma_brun_add(h: H, f: Seq<int>, a: nat, b: nat)
    ensures brun(h, f, a + b) == brun(h, brun(h, f, a), b), bout(h, f, a + b) == bout(h, f, a) + bout(h, brun(h, f, a), b)
    decreases a
{
    if a == 0 { assert(bout(h, f, 0) =~= Seq::<int>::empty()); assert(Seq::<int>::empty() + bout(h, f, b) =~= bout(h, f, b)); }
    else if f.len() == 0 {
        assert(brun(h, f, a) == f); assert(bout(h, f, a) =~= Seq::<int>::empty()); assert(bout(h, f, a + b) =~= Seq::<int>::empty()); assert(bout(h, f, b) =~= Seq::<int>::empty());
        assert(brun(h, f, b) == f); assert(brun(h, f, a + b) == f);
        assert(bout(h, f, a) + bout(h, f, b) =~= Seq::<int>::empty());
    } else {
        let f2 = f.drop_first() + h.kids[f[0]];
        lemma_brun_add(h, f2, (a - 1) as nat, b);
        assert((a + b - 1) as nat == ((a - 1) as nat + b));
        assert(seq![f[0]] + (bout(h, f2, (a - 1) as nat) + bout(h, brun(h, f2, (a - 1) as nat), b)) =~= (seq![f[0]] + bout(h, f2, (a - 1) as nat)) + bout(h, brun(h, f2, (a - 1) as nat), b));
    }
}
/// C06: the visits of Splitted::next (which pops the front of the queue and appends the children of
/// the visited node) from a queue holding f are exactly the nodes below f level by level: after all
/// levels before k are visited, the queue holds level k.
pub proof fn lemma_bfs_levels(h: H, f: Seq<int>, k: nat)
    ensures bout(h, f, levels(h, f, k).len()) == levels(h, f, k), brun(h, f, levels(h, f, k).len()) == level(h, f, k)
    decreases k
{
    if k == 0 { assert(bout(h, f, 0) =~= Seq::<int>::empty()); }
    else {
        let j = (k - 1) as nat; let l = levels(h, f, j); let v = level(h, f, j);
        lemma_bfs_levels(h, f, j);
        lemma_brun_add(h, f, l.len(), v.len());
        assert(v + Seq::<int>::empty() =~= v);
        lemma_brun_level(h, v, Seq::<int>::empty());
        assert(Seq::<int>::empty() + kcat(h, v) =~= kcat(h, v));
        assert(levels(h, f, k).len() == l.len() + v.len());
    }
}
pub open spec fn allive(h: H, f: Seq<int>) -> bool { forall|i: int| 0 <= i < f.len() ==> h.alive[#[trigger] f[i]] }
/// visiting one node uses up one of the nodes to be visited
pub proof fn lemma_bstep(h: H, f: Seq<int>)
    requires wf(h), allive(h, f), f.len() > 0
    ensures sumd(h.desc, f.drop_first() + h.kids[f[0]]) == sumd(h.desc, f) - 1, allive(h, f.drop_first() + h.kids[f[0]])
{
    let x = f[0]; let t = f.drop_first(); let k = h.kids[x];
    assert(wf_node(h, x));
    lemma_sumd_cat(h.desc, t, k);
    assert(f =~= seq![x] + t);
    lemma_sumd_cat(h.desc, seq![x], t); lemma_sumd_one(h.desc, x);
    assert forall|i: int| 0 <= i < (t + k).len() implies h.alive[#[trigger] (t + k)[i]] by {
        if i < t.len() { assert(t[i] == f[i + 1]); } else { assert(wf_kid(h, x, i - t.len())); }
    }
}
pub proof fn lemma_sumd_zero(h: H, f: Seq<int>)
    requires wf(h), allive(h, f)
    ensures sumd(h.desc, f) >= f.len()
{
    assert forall|j: int| 0 <= j < f.len() implies h.desc[#[trigger] f[j]] >= 0 by { assert(wf_node(h, f[j])); }
    lemma_sumd_len(h.desc, f);
}
/// C06: exactly as many nodes are visited as the sizes announce, then nothing is left
pub proof fn lemma_bfs_total(h: H, f: Seq<int>)
    requires wf(h), allive(h, f)
    ensures brun(h, f, sumd(h.desc, f) as nat).len() == 0, bout(h, f, sumd(h.desc, f) as nat).len() == sumd(h.desc, f)
    decreases sumd(h.desc, f)
{
    lemma_sumd_zero(h, f);
    if f.len() > 0 {
        lemma_bstep(h, f); lemma_sumd_zero(h, f.drop_first() + h.kids[f[0]]);
        lemma_bfs_total(h, f.drop_first() + h.kids[f[0]]);
    }
}
/// C06: the children of a node of level k are in level k + 1, in order and side by side
pub proof fn lemma_kcat_in(h: H, f: Seq<int>, i: int, j: int)
    requires 0 <= i < f.len(), 0 <= j < h.kids[f[i]].len()
    ensures kcat(h, f).contains(h.kids[f[i]][j])
    decreases f.len()
{
    let k = h.kids[f[0]]; let t = f.drop_first();
    if i == 0 { assert((k + kcat(h, t))[j] == k[j]); assert(kcat(h, f)[j] == k[j]); }
    else {
        assert(t[i - 1] == f[i]);
        lemma_kcat_in(h, t, i - 1, j);
        let z = choose|z: int| 0 <= z < kcat(h, t).len() && kcat(h, t)[z] == h.kids[f[i]][j];
        assert(kcat(h, f)[k.len() + z] == h.kids[f[i]][j]);
    }
}
pub proof fn lemma_flat_all()
    ensures forall|q: Seq<Seq<int>>, s: Seq<int>| #[trigger] flat(q.push(s)) == flat(q) + s
{ assert forall|q: Seq<Seq<int>>, s: Seq<int>| #[trigger] flat(q.push(s)) == flat(q) + s by { lemma_flat_push(q, s); } }
