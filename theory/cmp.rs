// Equality, order, hash (C15)
/// the payload type's own ==, partial_cmp, cmp (-1, 0, 1; 2: not comparable), taken as functions of the payloads
pub uninterp spec fn peq(x: int, y: int) -> bool;
pub uninterp spec fn ppc(x: int, y: int) -> int;
pub uninterp spec fn pcm(x: int, y: int) -> int;
pub open spec fn pc(m: bool, x: int, y: int) -> int { if m { pcm(x, y) } else { ppc(x, y) } }
/// the payload value of a node
pub open spec fn pvl(h: H, p: int) -> int { val(pay(h.data[p])) }
/// same payloads, same number of children, and these equal in turn (n: bound on the depth)
pub open spec fn teqn(h: H, a: int, b: int, n: nat) -> bool decreases n {
    n > 0 && peq(pvl(h, a), pvl(h, b)) && h.kids[a].len() == h.kids[b].len() && forall|i: int| 0 <= i < h.kids[a].len() ==> teqn(h, #[trigger] h.kids[a][i], h.kids[b][i], (n - 1) as nat)
}
pub open spec fn teq(h: H, a: int, b: int) -> bool { teqn(h, a, b, nn(h, a)) }
pub open spec fn teqs(h: H, s: Seq<int>, t: Seq<int>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> teq(h, #[trigger] s[i], t[i]) }
pub proof fn lemma_kid_nn(h: H, p: int, i: int)
    requires wf(h), h.alive[p], 0 <= i < h.kids[p].len()
    ensures nn(h, h.kids[p][i]) < nn(h, p), h.alive[h.kids[p][i]], real(h.data[h.kids[p][i]]), h.desc[h.kids[p][i]] < h.desc[p], h.desc[h.kids[p][i]] >= 0
{
    assert(wf_kid(h, p, i)); assert(wf_node(h, p));
    assert forall|j: int| 0 <= j < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][j]] >= 0 by { assert(wf_kid(h, p, j)); assert(wf_node(h, h.kids[p][j])); }
    lemma_sumd_ge(h.desc, h.kids[p], i);
}
pub proof fn lemma_teq_fuel(h: H, a: int, b: int, n: nat)
    requires wf(h), h.alive[a], n >= nn(h, a)
    ensures teqn(h, a, b, n) == teq(h, a, b)
    decreases n
{
    let k = h.kids[a]; let m = nn(h, a);
    assert(wf_node(h, a));
    if k.len() == h.kids[b].len() {
        assert forall|i: int| 0 <= i < k.len() implies teqn(h, #[trigger] k[i], h.kids[b][i], (n - 1) as nat) == teqn(h, k[i], h.kids[b][i], (m - 1) as nat) by {
            lemma_kid_nn(h, a, i); lemma_teq_fuel(h, k[i], h.kids[b][i], (n - 1) as nat); if m - 1 < n { lemma_teq_fuel(h, k[i], h.kids[b][i], (m - 1) as nat); }
        }
    }
}
/// equality of nodes unfolds to payloads and child sequences
pub proof fn lemma_teq(h: H, a: int, b: int)
    requires wf(h), h.alive[a]
    ensures teq(h, a, b) == (peq(pvl(h, a), pvl(h, b)) && teqs(h, h.kids[a], h.kids[b]))
{
    let k = h.kids[a]; let m = nn(h, a);
    assert(wf_node(h, a));
    if k.len() == h.kids[b].len() {
        assert forall|i: int| 0 <= i < k.len() implies teqn(h, #[trigger] k[i], h.kids[b][i], (m - 1) as nat) == teq(h, k[i], h.kids[b][i]) by { lemma_kid_nn(h, a, i); lemma_teq_fuel(h, k[i], h.kids[b][i], (m - 1) as nat); }
    }
}
/// payloads first, then the child sequences lexicographically
pub open spec fn tcmpn(m: bool, h: H, a: int, b: int, n: nat) -> int decreases n, 0int {
    if n == 0 { 0 } else { let c = pc(m, pvl(h, a), pvl(h, b)); if c != 0 { c } else { scmpn(m, h, h.kids[a], h.kids[b], (n - 1) as nat) } }
}
pub open spec fn scmpn(m: bool, h: H, s: Seq<int>, t: Seq<int>, n: nat) -> int decreases n, s.len() + 1 {
    if s.len() == 0 { if t.len() == 0 { 0 } else { -1 } }
    else if t.len() == 0 { 1 }
    else { let c = tcmpn(m, h, s[0], t[0], n); if c != 0 { c } else { scmpn(m, h, s.drop_first(), t.drop_first(), n) } }
}
pub open spec fn tcmp(m: bool, h: H, a: int, b: int) -> int { tcmpn(m, h, a, b, nn(h, a)) }
pub open spec fn scmp(m: bool, h: H, s: Seq<int>, t: Seq<int>) -> int decreases s.len() {
    if s.len() == 0 { if t.len() == 0 { 0 } else { -1 } }
    else if t.len() == 0 { 1 }
    else { let c = tcmp(m, h, s[0], t[0]); if c != 0 { c } else { scmp(m, h, s.drop_first(), t.drop_first()) } }
}
pub open spec fn small(h: H, s: Seq<int>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> h.alive[#[trigger] s[i]] && nn(h, s[i]) <= n && nn(h, s[i]) >= 1 }
pub proof fn lemma_small(h: H, a: int)
    requires wf(h), h.alive[a]
    ensures nn(h, a) >= 1, small(h, h.kids[a], (nn(h, a) - 1) as nat)
{
    assert(wf_node(h, a)); lemma_node(h, a);
    assert forall|i: int| 0 <= i < h.kids[a].len() implies h.alive[#[trigger] h.kids[a][i]] && nn(h, h.kids[a][i]) <= nn(h, a) - 1 && nn(h, h.kids[a][i]) >= 1 by { lemma_kid_nn(h, a, i); }
}
pub proof fn lemma_tcmp_fuel(m: bool, h: H, a: int, b: int, n: nat)
    requires wf(h), h.alive[a], n >= nn(h, a)
    ensures tcmpn(m, h, a, b, n) == tcmp(m, h, a, b)
    decreases n, 0int
{
    lemma_small(h, a);
    let k = h.kids[a]; let q = nn(h, a);
    if n > q { lemma_tcmp_fuel(m, h, a, b, q); lemma_scmp_fuel(m, h, k, h.kids[b], (n - 1) as nat); lemma_scmp_fuel(m, h, k, h.kids[b], (q - 1) as nat); }
}
pub proof fn lemma_scmp_fuel(m: bool, h: H, s: Seq<int>, t: Seq<int>, n: nat)
    requires wf(h), small(h, s, n)
    ensures scmpn(m, h, s, t, n) == scmp(m, h, s, t)
    decreases n, s.len() + 1
{
    if s.len() > 0 && t.len() > 0 {
        assert(h.alive[s[0]]); lemma_tcmp_fuel(m, h, s[0], t[0], n);
        assert(small(h, s.drop_first(), n)) by { assert forall|i: int| 0 <= i < s.drop_first().len() implies h.alive[#[trigger] s.drop_first()[i]] && nn(h, s.drop_first()[i]) <= n && nn(h, s.drop_first()[i]) >= 1 by { assert(s.drop_first()[i] == s[i + 1]); } }
        lemma_scmp_fuel(m, h, s.drop_first(), t.drop_first(), n);
    }
}
/// the order of nodes unfolds to payloads and child sequences
pub proof fn lemma_tcmp(m: bool, h: H, a: int, b: int)
    requires wf(h), h.alive[a]
    ensures tcmp(m, h, a, b) == (if pc(m, pvl(h, a), pvl(h, b)) != 0 { pc(m, pvl(h, a), pvl(h, b)) } else { scmp(m, h, h.kids[a], h.kids[b]) })
{ lemma_small(h, a); lemma_scmp_fuel(m, h, h.kids[a], h.kids[b], (nn(h, a) - 1) as nat); }
/// the payloads in depth-first order
pub open spec fn tpren(h: H, a: int, n: nat) -> Seq<int> decreases n, 0int { if n == 0 { Seq::empty() } else { seq![pvl(h, a)] + tpresn(h, h.kids[a], (n - 1) as nat) } }
pub open spec fn tpresn(h: H, s: Seq<int>, n: nat) -> Seq<int> decreases n, s.len() + 1 { if s.len() == 0 { Seq::empty() } else { tpresn(h, s.drop_last(), n) + tpren(h, s.last(), n) } }
pub open spec fn tpre(h: H, a: int) -> Seq<int> { tpren(h, a, nn(h, a)) }
pub open spec fn tpres(h: H, s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { tpres(h, s.drop_last()) + tpre(h, s.last()) } }
pub proof fn lemma_tpre_fuel(h: H, a: int, n: nat)
    requires wf(h), h.alive[a], n >= nn(h, a)
    ensures tpren(h, a, n) == tpre(h, a)
    decreases n, 0int
{
    lemma_small(h, a);
    if n > nn(h, a) { lemma_tpres_fuel(h, h.kids[a], (n - 1) as nat); lemma_tpres_fuel(h, h.kids[a], (nn(h, a) - 1) as nat); }
}
pub proof fn lemma_tpres_fuel(h: H, s: Seq<int>, n: nat)
    requires wf(h), small(h, s, n)
    ensures tpresn(h, s, n) == tpres(h, s)
    decreases n, s.len() + 1
{
    if s.len() > 0 {
        assert(h.alive[s[s.len() - 1]]); lemma_tpre_fuel(h, s.last(), n);
        assert(small(h, s.drop_last(), n)) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies h.alive[#[trigger] s.drop_last()[i]] && nn(h, s.drop_last()[i]) <= n && nn(h, s.drop_last()[i]) >= 1 by { assert(s.drop_last()[i] == s[i]); } }
        lemma_tpres_fuel(h, s.drop_last(), n);
    }
}
pub proof fn lemma_tpre(h: H, a: int)
    requires wf(h), h.alive[a]
    ensures tpre(h, a) == seq![pvl(h, a)] + tpres(h, h.kids[a])
{ lemma_small(h, a); lemma_tpres_fuel(h, h.kids[a], (nn(h, a) - 1) as nat); }
pub proof fn lemma_tpres_step(h: H, s: Seq<int>, i: int)
    requires 0 <= i < s.len()
    ensures tpres(h, s.subrange(0, i + 1)) == tpres(h, s.subrange(0, i)) + tpre(h, s[i])
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
pub proof fn lemma_tpres_ends(h: H, s: Seq<int>)
    ensures tpres(h, s.subrange(0, 0)) == Seq::<int>::empty(), s.subrange(0, s.len() as int) == s
{ assert(s.subrange(0, s.len() as int) =~= s); }
// ---- laws: what holds for the payloads holds for nodes
/// reflexive, symmetric, transitive payload equality gives the same for nodes
pub proof fn lemma_teq_refl(h: H, a: int)
    requires wf(h), h.alive[a], forall|x: int| #[trigger] peq(x, x)
    ensures teq(h, a, a)
    decreases nn(h, a)
{
    lemma_teq(h, a, a);
    assert forall|i: int| 0 <= i < h.kids[a].len() implies teq(h, #[trigger] h.kids[a][i], h.kids[a][i]) by { lemma_kid_nn(h, a, i); lemma_teq_refl(h, h.kids[a][i]); }
}
pub proof fn lemma_teq_sym(h: H, a: int, b: int)
    requires wf(h), h.alive[a], h.alive[b], teq(h, a, b), forall|x: int, y: int| #[trigger] peq(x, y) ==> peq(y, x)
    ensures teq(h, b, a)
    decreases nn(h, a)
{
    lemma_teq(h, a, b); lemma_teq(h, b, a);
    assert(peq(pvl(h, a), pvl(h, b)));
    assert forall|i: int| 0 <= i < h.kids[b].len() implies teq(h, #[trigger] h.kids[b][i], h.kids[a][i]) by { lemma_kid_nn(h, a, i); lemma_kid_nn(h, b, i); assert(teq(h, h.kids[a][i], h.kids[b][i])); lemma_teq_sym(h, h.kids[a][i], h.kids[b][i]); }
}
pub proof fn lemma_teq_trans(h: H, a: int, b: int, c: int)
    requires wf(h), h.alive[a], h.alive[b], h.alive[c], teq(h, a, b), teq(h, b, c), forall|x: int, y: int, z: int| #[trigger] peq(x, y) && #[trigger] peq(y, z) ==> peq(x, z)
    ensures teq(h, a, c)
    decreases nn(h, a)
{
    lemma_teq(h, a, b); lemma_teq(h, b, c); lemma_teq(h, a, c);
    assert(peq(pvl(h, a), pvl(h, b)) && peq(pvl(h, b), pvl(h, c)));
    assert forall|i: int| 0 <= i < h.kids[a].len() implies teq(h, #[trigger] h.kids[a][i], h.kids[c][i]) by {
        lemma_kid_nn(h, a, i); lemma_kid_nn(h, b, i); lemma_kid_nn(h, c, i); assert(teq(h, h.kids[a][i], h.kids[b][i])); assert(teq(h, h.kids[b][i], h.kids[c][i]));
        lemma_teq_trans(h, h.kids[a][i], h.kids[b][i], h.kids[c][i]);
    }
}
/// comparing equal means being equal, if that is so for the payloads
pub proof fn lemma_tcmp_teq(m: bool, h: H, a: int, b: int)
    requires wf(h), h.alive[a], h.alive[b], forall|x: int, y: int| (#[trigger] pc(m, x, y) == 0) == peq(x, y)
    ensures (tcmp(m, h, a, b) == 0) == teq(h, a, b)
    decreases nn(h, a), 0int
{
    lemma_teq(h, a, b); lemma_tcmp(m, h, a, b); lemma_small(h, a); lemma_small(h, b);
    assert((pc(m, pvl(h, a), pvl(h, b)) == 0) == peq(pvl(h, a), pvl(h, b)));
    lemma_scmp_teqs(m, h, h.kids[a], h.kids[b], (nn(h, a) - 1) as nat, (nn(h, b) - 1) as nat);
}
pub proof fn lemma_scmp_teqs(m: bool, h: H, s: Seq<int>, t: Seq<int>, n: nat, k: nat)
    requires wf(h), small(h, s, n), small(h, t, k), forall|x: int, y: int| (#[trigger] pc(m, x, y) == 0) == peq(x, y)
    ensures (scmp(m, h, s, t) == 0) == teqs(h, s, t)
    decreases n, s.len() + 1
{
    if s.len() > 0 && t.len() > 0 {
        let s1 = s.drop_first(); let t1 = t.drop_first();
        assert(h.alive[s[0]] && nn(h, s[0]) <= n); assert(h.alive[t[0]]);
        lemma_tcmp_teq(m, h, s[0], t[0]);
        assert forall|i: int| 0 <= i < s1.len() implies h.alive[#[trigger] s1[i]] && nn(h, s1[i]) <= n && nn(h, s1[i]) >= 1 by { assert(s1[i] == s[i + 1]); }
        assert forall|i: int| 0 <= i < t1.len() implies h.alive[#[trigger] t1[i]] && nn(h, t1[i]) <= k && nn(h, t1[i]) >= 1 by { assert(t1[i] == t[i + 1]); }
        lemma_scmp_teqs(m, h, s1, t1, n, k);
        if teqs(h, s, t) { assert forall|i: int| 0 <= i < s1.len() implies teq(h, #[trigger] s1[i], t1[i]) by { assert(s1[i] == s[i + 1]); assert(teq(h, s[i + 1], t[i + 1])); } assert(teq(h, s[0], t[0])); }
        if teq(h, s[0], t[0]) && teqs(h, s1, t1) { assert forall|i: int| 0 <= i < s.len() implies teq(h, #[trigger] s[i], t[i]) by { if i > 0 { assert(s1[i - 1] == s[i]); assert(teq(h, s1[i - 1], t1[i - 1])); } } }
    }
}
/// swapping the operands reverses the order, if that is so for the payloads
pub open spec fn rev(c: int) -> int { if c == 2 { 2 } else { -c } }
pub proof fn lemma_tcmp_rev(m: bool, h: H, a: int, b: int)
    requires wf(h), h.alive[a], h.alive[b], forall|x: int, y: int| #[trigger] pc(m, x, y) == rev(pc(m, y, x))
    ensures tcmp(m, h, a, b) == rev(tcmp(m, h, b, a))
    decreases nn(h, a), 0int
{
    lemma_tcmp(m, h, a, b); lemma_tcmp(m, h, b, a); lemma_small(h, a); lemma_small(h, b);
    assert(pc(m, pvl(h, a), pvl(h, b)) == rev(pc(m, pvl(h, b), pvl(h, a))));
    lemma_scmp_rev(m, h, h.kids[a], h.kids[b], (nn(h, a) - 1) as nat, (nn(h, b) - 1) as nat);
}
pub proof fn lemma_scmp_rev(m: bool, h: H, s: Seq<int>, t: Seq<int>, n: nat, k: nat)
    requires wf(h), small(h, s, n), small(h, t, k), forall|x: int, y: int| #[trigger] pc(m, x, y) == rev(pc(m, y, x))
    ensures scmp(m, h, s, t) == rev(scmp(m, h, t, s))
    decreases n, s.len() + 1
{
    if s.len() > 0 && t.len() > 0 {
        let s1 = s.drop_first(); let t1 = t.drop_first();
        assert(h.alive[s[0]] && nn(h, s[0]) <= n); assert(h.alive[t[0]]);
        lemma_tcmp_rev(m, h, s[0], t[0]);
        assert forall|i: int| 0 <= i < s1.len() implies h.alive[#[trigger] s1[i]] && nn(h, s1[i]) <= n && nn(h, s1[i]) >= 1 by { assert(s1[i] == s[i + 1]); }
        assert forall|i: int| 0 <= i < t1.len() implies h.alive[#[trigger] t1[i]] && nn(h, t1[i]) <= k && nn(h, t1[i]) >= 1 by { assert(t1[i] == t[i + 1]); }
        lemma_scmp_rev(m, h, s1, t1, n, k);
    }
}
/// partial_cmp and cmp agree, if they do for the payloads
pub proof fn lemma_tcmp_agree(h: H, a: int, b: int)
    requires wf(h), h.alive[a], h.alive[b], forall|x: int, y: int| #[trigger] ppc(x, y) == pcm(x, y)
    ensures tcmp(false, h, a, b) == tcmp(true, h, a, b)
    decreases nn(h, a), 0int
{
    lemma_tcmp(false, h, a, b); lemma_tcmp(true, h, a, b); lemma_small(h, a);
    assert(ppc(pvl(h, a), pvl(h, b)) == pcm(pvl(h, a), pvl(h, b)));
    lemma_small(h, b); lemma_scmp_agree(h, h.kids[a], h.kids[b], (nn(h, a) - 1) as nat, (nn(h, b) - 1) as nat);
}
pub proof fn lemma_scmp_agree(h: H, s: Seq<int>, t: Seq<int>, n: nat, k: nat)
    requires wf(h), small(h, s, n), small(h, t, k), forall|x: int, y: int| #[trigger] ppc(x, y) == pcm(x, y)
    ensures scmp(false, h, s, t) == scmp(true, h, s, t)
    decreases n, s.len() + 1
{
    if s.len() > 0 && t.len() > 0 {
        let s1 = s.drop_first(); let t1 = t.drop_first();
        assert(h.alive[s[0]] && nn(h, s[0]) <= n); assert(h.alive[t[0]]);
        lemma_tcmp_agree(h, s[0], t[0]);
        assert forall|i: int| 0 <= i < s1.len() implies h.alive[#[trigger] s1[i]] && nn(h, s1[i]) <= n && nn(h, s1[i]) >= 1 by { assert(s1[i] == s[i + 1]); }
        assert forall|i: int| 0 <= i < t1.len() implies h.alive[#[trigger] t1[i]] && nn(h, t1[i]) <= k && nn(h, t1[i]) >= 1 by { assert(t1[i] == t[i + 1]); }
        lemma_scmp_agree(h, s1, t1, n, k);
    }
}
/// equal nodes feed equal payloads to the hasher, in the same order
pub open spec fn pweq(s: Seq<int>, t: Seq<int>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> peq(#[trigger] s[i], t[i]) }
pub proof fn lemma_pweq_add(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>)
    requires pweq(a, b), pweq(c, d)
    ensures pweq(a + c, b + d)
{ assert forall|i: int| 0 <= i < (a + c).len() implies peq(#[trigger] (a + c)[i], (b + d)[i]) by { if i < a.len() { assert(peq(a[i], b[i])); } else { assert(peq(c[i - a.len()], d[i - a.len()])); } } }
pub proof fn lemma_teq_hash(h: H, a: int, b: int)
    requires wf(h), h.alive[a], h.alive[b], teq(h, a, b)
    ensures pweq(tpre(h, a), tpre(h, b))
    decreases nn(h, a), 0int
{
    lemma_teq(h, a, b); lemma_tpre(h, a); lemma_tpre(h, b); lemma_small(h, a); lemma_small(h, b);
    lemma_teqs_hash(h, h.kids[a], h.kids[b], (nn(h, a) - 1) as nat, (nn(h, b) - 1) as nat);
    lemma_pweq_add(seq![pvl(h, a)], seq![pvl(h, b)], tpres(h, h.kids[a]), tpres(h, h.kids[b]));
}
pub proof fn lemma_teqs_hash(h: H, s: Seq<int>, t: Seq<int>, n: nat, k: nat)
    requires wf(h), small(h, s, n), small(h, t, k), teqs(h, s, t)
    ensures pweq(tpres(h, s), tpres(h, t))
    decreases n, s.len() + 1
{
    if s.len() > 0 {
        let s1 = s.drop_last(); let t1 = t.drop_last(); let z = s.len() - 1;
        assert(h.alive[s[z]] && nn(h, s[z]) <= n); assert(h.alive[t[z]]); assert(teq(h, s[z], t[z]));
        lemma_teq_hash(h, s[z], t[z]);
        assert forall|i: int| 0 <= i < s1.len() implies h.alive[#[trigger] s1[i]] && nn(h, s1[i]) <= n && nn(h, s1[i]) >= 1 by { assert(s1[i] == s[i]); }
        assert forall|i: int| 0 <= i < t1.len() implies h.alive[#[trigger] t1[i]] && nn(h, t1[i]) <= k && nn(h, t1[i]) >= 1 by { assert(t1[i] == t[i]); }
        assert forall|i: int| 0 <= i < s1.len() implies teq(h, #[trigger] s1[i], t1[i]) by { assert(s1[i] == s[i]); assert(teq(h, s[i], t[i])); }
        lemma_teqs_hash(h, s1, t1, n, k);
        lemma_pweq_add(tpres(h, s1), tpres(h, t1), tpre(h, s[z]), tpre(h, t[z]));
    }
}
/// the children of a live node are live nodes with payloads, smaller than it
pub proof fn lemma_kids_real(h: H, p: int)
    requires wf(h), h.alive[p]
    ensures allnodes(h, h.kids[p]), small(h, h.kids[p], (nn(h, p) - 1) as nat)
{
    lemma_small(h, p);
    assert forall|i: int| 0 <= i < h.kids[p].len() implies h.alive[#[trigger] h.kids[p][i]] && real(h.data[h.kids[p][i]]) by { lemma_kid_nn(h, p, i); }
}
// ---- heaps with the same trees
pub open spec fn samep(h: H, g: H) -> bool { forall|q: int| #[trigger] g.kids[q] == h.kids[q] && g.data[q] == h.data[q] && g.desc[q] == h.desc[q] }
pub proof fn lemma_teqn_frame(h: H, g: H, a: int, b: int, n: nat)
    requires samep(h, g)
    ensures teqn(g, a, b, n) == teqn(h, a, b, n)
    decreases n
{
    assert(g.kids[a] == h.kids[a]); assert(g.kids[b] == h.kids[b]);
    if n > 0 && h.kids[a].len() == h.kids[b].len() {
        assert forall|i: int| 0 <= i < h.kids[a].len() implies teqn(g, #[trigger] h.kids[a][i], h.kids[b][i], (n - 1) as nat) == teqn(h, h.kids[a][i], h.kids[b][i], (n - 1) as nat) by { lemma_teqn_frame(h, g, h.kids[a][i], h.kids[b][i], (n - 1) as nat); }
        if teqn(h, a, b, n) { assert forall|i: int| 0 <= i < g.kids[a].len() implies teqn(g, #[trigger] g.kids[a][i], g.kids[b][i], (n - 1) as nat) by { assert(teqn(h, h.kids[a][i], h.kids[b][i], (n - 1) as nat)); } }
        if teqn(g, a, b, n) { assert forall|i: int| 0 <= i < h.kids[a].len() implies teqn(h, #[trigger] h.kids[a][i], h.kids[b][i], (n - 1) as nat) by { assert(teqn(g, g.kids[a][i], g.kids[b][i], (n - 1) as nat)); } }
    }
}
pub proof fn lemma_tcmpn_frame(m: bool, h: H, g: H, a: int, b: int, n: nat)
    requires samep(h, g)
    ensures tcmpn(m, g, a, b, n) == tcmpn(m, h, a, b, n)
    decreases n, 0int
{ assert(g.kids[a] == h.kids[a]); assert(g.kids[b] == h.kids[b]); if n > 0 { lemma_scmpn_frame(m, h, g, h.kids[a], h.kids[b], (n - 1) as nat); } }
pub proof fn lemma_scmpn_frame(m: bool, h: H, g: H, s: Seq<int>, t: Seq<int>, n: nat)
    requires samep(h, g)
    ensures scmpn(m, g, s, t, n) == scmpn(m, h, s, t, n)
    decreases n, s.len() + 1
{ if s.len() > 0 && t.len() > 0 { lemma_tcmpn_frame(m, h, g, s[0], t[0], n); lemma_scmpn_frame(m, h, g, s.drop_first(), t.drop_first(), n); } }
pub proof fn lemma_tpren_frame(h: H, g: H, a: int, n: nat)
    requires samep(h, g)
    ensures tpren(g, a, n) == tpren(h, a, n)
    decreases n, 0int
{ assert(g.kids[a] == h.kids[a]); if n > 0 { lemma_tpresn_frame(h, g, h.kids[a], (n - 1) as nat); } }
pub proof fn lemma_tpresn_frame(h: H, g: H, s: Seq<int>, n: nat)
    requires samep(h, g)
    ensures tpresn(g, s, n) == tpresn(h, s, n)
    decreases n, s.len() + 1
{ if s.len() > 0 { lemma_tpresn_frame(h, g, s.drop_last(), n); lemma_tpren_frame(h, g, s.last(), n); } }
pub proof fn lemma_teq_frame(h: H, g: H, s: Seq<int>, t: Seq<int>)
    requires samep(h, g)
    ensures teqs(g, s, t) == teqs(h, s, t)
{
    assert forall|a: int, b: int| #[trigger] teq(g, a, b) == teq(h, a, b) by { assert(g.kids[a] == h.kids[a]); lemma_teqn_frame(h, g, a, b, nn(h, a)); }
    if teqs(h, s, t) { assert(teqs(g, s, t)); }
    if teqs(g, s, t) { assert forall|i: int| 0 <= i < s.len() implies teq(h, #[trigger] s[i], t[i]) by { assert(teq(g, s[i], t[i])); } }
}
pub proof fn lemma_scmp_frame(m: bool, h: H, g: H, s: Seq<int>, t: Seq<int>)
    requires samep(h, g)
    ensures scmp(m, g, s, t) == scmp(m, h, s, t)
    decreases s.len()
{ if s.len() > 0 && t.len() > 0 { assert(g.kids[s[0]] == h.kids[s[0]]); lemma_tcmpn_frame(m, h, g, s[0], t[0], nn(h, s[0])); lemma_scmp_frame(m, h, g, s.drop_first(), t.drop_first()); } }
pub proof fn lemma_tpre_frame(h: H, g: H, a: int)
    requires samep(h, g)
    ensures tpre(g, a) == tpre(h, a)
{ assert(g.kids[a] == h.kids[a]); lemma_tpren_frame(h, g, a, nn(h, a)); }
/// enough room in the reference counts to walk the tree at p with handles
pub open spec fn walkroom(h: H, p: int) -> bool {
    (forall|q: int| #[trigger] h.alive[q] ==> h.cnt[q] + 4 * nn(h, p) < usize_max()) && (forall|w: int| #[trigger] h.valive[w] ==> h.vref[w] + 4 * nn(h, p) < usize_max())
}
/// one handle of the loop goes away again
pub proof fn lemma_same_nodes_trans(h: H, g: H, k: H)
    requires same_nodes(h, g), same_nodes(g, k)
    ensures same_nodes(h, k), samep(h, k)
{
    assert forall|q: int| same_node(h, k, q) by { assert(same_node(h, g, q)); assert(same_node(g, k, q)); }
    assert forall|q: int| #[trigger] k.kids[q] == h.kids[q] && k.data[q] == h.data[q] && k.desc[q] == h.desc[q] by { assert(same_node(h, k, q)); }
    assert forall|q: int| #[trigger] k.alive[q] == h.alive[q] by { assert(g.alive[q] == h.alive[q]); }
    assert forall|q: int| #[trigger] k.data[q] == h.data[q] by { assert(g.data[q] == h.data[q]); }
    assert forall|q: int| #[trigger] k.pd[q] == h.pd[q] by { assert(g.pd[q] == h.pd[q]); }
    assert forall|q: int| #[trigger] k.valive[q] == h.valive[q] by { assert(g.valive[q] == h.valive[q]); }
    assert forall|q: int| #[trigger] k.vlive[q] == h.vlive[q] by { assert(g.vlive[q] == h.vlive[q]); }
}
/// the iteration with handles stands at child i of p: that child has one reference more
pub open spec fn walking(h: H, g: H, p: int, i: int) -> bool {
    &&& same_nodes(h, g) && samep(h, g) && rcok(g)
    &&& if 0 <= i < h.kids[p].len() { recount(h, g, h.kids[p][i], 1) } else { recount(h, g, p, 0) }
}
pub proof fn lemma_walking_init(h: H, g: H, p: int)
    requires rcok(g), same_but_counts(h, g), if h.kids[p].len() > 0 { recount(h, g, h.kids[p][0], 1) } else { recount(h, g, p, 0) }
    ensures walking(h, g, p, 0)
{ assert forall|q: int| same_node(h, g, q) by { } }
/// what is known of child i before the next step
pub proof fn lemma_walking(h: H, g: H, p: int, i: int)
    requires walking(h, g, p, i), rcok(h), h.alive[p], 0 <= i < h.kids[p].len(), walkroom(h, p)
    ensures ({ let c = h.kids[p][i]; g.alive[c] && real(g.data[c]) && g.cnt[c] >= 2 && g.up[c] == Some(p) && g.next[c] == oi(i + 1 < h.kids[p].len(), h.kids[p][i + 1])
        && (i + 1 < h.kids[p].len() ==> g.alive[h.kids[p][i + 1]] && g.cnt[h.kids[p][i + 1]] >= 1 && g.cnt[h.kids[p][i + 1]] < usize_max() && (piled(g.data[h.kids[p][i + 1]]) ==> g.vref[own(g.data[h.kids[p][i + 1]])] < usize_max())) })
{
    let c = h.kids[p][i];
    assert(wf_kid(h, p, i)); lemma_kid_nn(h, p, i); assert(same_node(h, g, c)); assert(h.cnt[c] >= 1); lemma_small(h, p);
    if i + 1 < h.kids[p].len() {
        let d = h.kids[p][i + 1];
        assert(wf_kid(h, p, i + 1)); lemma_kid_nn(h, p, i + 1); assert(h.cnt[d] >= 1); assert(h.alive[d]); assert(g.alive[d]); assert(g.data[d] == h.data[d]);
        lemma_pok(h, d); lemma_pok(g, d); assert(same_node(h, g, d));
        if piled(h.data[d]) { lemma_slot(h, d); lemma_slot(g, d); assert(h.valive[own(h.data[d])]); }
    }
}
/// room to take a handle of the first child, and of child i + 1
pub proof fn lemma_kid_room(h: H, p: int)
    requires rcok(h), h.alive[p], walkroom(h, p)
    ensures h.kids[p].len() > 0 ==> ({ let c = h.kids[p][0]; h.alive[c] && real(h.data[c]) && h.cnt[c] >= 1 && h.cnt[c] + 4 < usize_max() && (piled(h.data[c]) ==> h.vref[own(h.data[c])] + 4 < usize_max()) })
{
    if h.kids[p].len() > 0 {
        let c = h.kids[p][0];
        assert(wf_kid(h, p, 0)); lemma_kid_nn(h, p, 0); assert(h.cnt[c] >= 1); lemma_small(h, p); lemma_pok(h, c);
        if piled(h.data[c]) { lemma_slot(h, c); assert(h.valive[own(h.data[c])]); }
    }
}
/// a step of the iteration: child i is handed out, the iterator holds child i + 1
pub open spec fn walked(h: H, g: H, p: int, i: int) -> bool {
    let k = h.kids[p]; let c = k[i];
    &&& same_nodes(h, g) && samep(h, g) && rcok(g)
    &&& g.alive[c] && real(g.data[c]) && g.cnt[c] >= 2 && g.up[c] == Some(p) && walkroom(g, c) && pvl(g, c) == pvl(h, c)
    &&& forall|q: int| #[trigger] g.cnt[q] == h.cnt[q] + bi(q == c, 1) + bi(i + 1 < k.len() && q == k[i + 1], 1)
    &&& forall|w: int| #[trigger] g.vref[w] == h.vref[w] + bi(piled(h.data[c]) && w == own(h.data[c]), 1) + bi(i + 1 < k.len() && piled(h.data[k[i + 1]]) && w == own(h.data[k[i + 1]]), 1)
}
pub proof fn lemma_walked(h: H, g: H, k: H, p: int, i: int)
    requires walking(h, g, p, i), rcok(h), h.alive[p], 0 <= i < h.kids[p].len(), walkroom(h, p), rcok(k), same_but_counts(g, k),
        if i + 1 < h.kids[p].len() { recount(g, k, h.kids[p][i + 1], 1) } else { recount(g, k, h.kids[p][i], 0) || forall|x: int| recount(g, k, x, 0) }
    ensures walked(h, k, p, i)
{
    let c = h.kids[p][i];
    lemma_walking(h, g, p, i); lemma_kid_nn(h, p, i);
    assert(same_nodes(g, k)) by { assert forall|q: int| same_node(g, k, q) by { } }
    lemma_same_nodes_trans(h, g, k);
    assert(same_node(h, k, c)); assert(k.desc[c] == h.desc[c]);
    if i + 1 >= h.kids[p].len() { assert(recount(g, k, c, 0)); }
    else { let d = h.kids[p][i + 1]; assert(g.data[d] == h.data[d]); }
    assert forall|q: int| #[trigger] k.alive[q] implies k.cnt[q] + 4 * nn(k, c) < usize_max() by { assert(h.alive[q]); }
    assert forall|w: int| #[trigger] k.valive[w] implies k.vref[w] + 4 * nn(k, c) < usize_max() by { assert(h.valive[w]); }
}
pub proof fn lemma_walked2(h: H, g: H, k: H, p: int, i: int)
    requires walked(h, g, p, i), same_nodes(g, k), rcok(k), recount(g, k, h.kids[p][i], 0)
    ensures stepping(h, k, p, i), k.cnt[h.kids[p][i]] >= 2, k.alive[h.kids[p][i]], k.up[h.kids[p][i]] == Some(p), real(k.data[h.kids[p][i]])
{ lemma_same_nodes_trans(h, g, k); assert(same_node(g, k, h.kids[p][i])); }
/// child i and (if any) child i + 1 have one reference more each
pub open spec fn stepping(h: H, g: H, p: int, i: int) -> bool {
    let k = h.kids[p]; let c = k[i];
    &&& same_nodes(h, g) && samep(h, g) && rcok(g)
    &&& forall|q: int| #[trigger] g.cnt[q] == h.cnt[q] + bi(q == c, 1) + bi(i + 1 < k.len() && q == k[i + 1], 1)
    &&& forall|w: int| #[trigger] g.vref[w] == h.vref[w] + bi(piled(h.data[c]) && w == own(h.data[c]), 1) + bi(i + 1 < k.len() && piled(h.data[k[i + 1]]) && w == own(h.data[k[i + 1]]), 1)
}
pub proof fn lemma_walked3(h: H, g: H, k: H, p: int, i: int)
    requires stepping(h, g, p, i), g.cnt[h.kids[p][i]] >= 2, rdrop(g, k, h.kids[p][i]), 0 <= i < h.kids[p].len()
    ensures walking(h, k, p, i + 1)
{
    let c = h.kids[p][i];
    lemma_same_nodes_trans(h, g, k);
    assert(g.data[c] == h.data[c]);
}
pub proof fn lemma_walked_end(h: H, g: H, k: H)
    requires same_nodes(h, g), same_but_counts(g, k)
    ensures same_nodes(h, k)
{ assert(same_nodes(g, k)) by { assert forall|q: int| same_node(g, k, q) by { } } lemma_same_nodes_trans(h, g, k); }
