// tuple notation: the value a tuple denotes, its sizes and its traversals
pub struct Rose { pub data: int, pub kids: Seq<Rose> }
pub struct TEv { pub k: int, pub d: int, pub deg: int, pub desc: int }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// number of nodes
pub open spec fn rz_tot(r: Rose) -> int decreases r { 1 + rz_tots(r.kids) }
pub open spec fn rz_tots(s: Seq<Rose>) -> int decreases s { if s.len() == 0 { 0 } else { rz_tots(s.drop_last()) + rz_tot(s.last()) } }
/// number of levels
pub open spec fn rz_hgt(r: Rose) -> int decreases r { 1 + rz_hgts(r.kids) }
pub open spec fn rz_hgts(s: Seq<Rose>) -> int decreases s { if s.len() == 0 { 0 } else { imax(rz_hgts(s.drop_last()), rz_hgt(s.last())) } }
/// number of descendants with l nodes between them and the root
pub open spec fn rz_dn(r: Rose, l: int) -> int decreases r { if l <= 0 { r.kids.len() as int } else { rz_dns(r.kids, l - 1) } }
pub open spec fn rz_dns(s: Seq<Rose>, l: int) -> int decreases s { if s.len() == 0 { 0 } else { rz_dns(s.drop_last(), l) + rz_dn(s.last(), l) } }
/// the visits, in pre-order (pre) or post-order, with (hint) or without sizes
pub open spec fn rz_ev(hint: bool, k: int, d: int, s: Seq<Rose>) -> Seq<TEv> { seq![TEv{k, d, deg: if hint { s.len() as int } else { 0 }, desc: if hint { rz_tots(s) } else { 0 }}] }
pub open spec fn rz_walk(pre: bool, hint: bool, r: Rose) -> Seq<TEv> decreases r {
  if r.kids.len() == 0 { rz_ev(hint, 0, r.data, r.kids) }
  else if pre { rz_ev(hint, 1, r.data, r.kids) + rz_walks(pre, hint, r.kids) + rz_ev(hint, 2, 0, r.kids) }
  else { rz_ev(hint, 2, 0, r.kids) + rz_walks(pre, hint, r.kids) + rz_ev(hint, 1, r.data, r.kids) }
}
pub open spec fn rz_walks(pre: bool, hint: bool, s: Seq<Rose>) -> Seq<TEv> decreases s { if s.len() == 0 { Seq::<TEv>::empty() } else { rz_walks(pre, hint, s.drop_last()) + rz_walk(pre, hint, s.last()) } }
pub proof fn lemma_rz_empty()
  ensures rz_tots(Seq::<Rose>::empty()) == 0, rz_hgts(Seq::<Rose>::empty()) == 0, forall|l: int| #[trigger] rz_dns(Seq::<Rose>::empty(), l) == 0
{
}
pub proof fn lemma_rz_push(s: Seq<Rose>, x: Rose)
  ensures rz_tots(s.push(x)) == rz_tots(s) + rz_tot(x), rz_hgts(s.push(x)) == imax(rz_hgts(s), rz_hgt(x)), forall|l: int| #[trigger] rz_dns(s.push(x), l) == rz_dns(s, l) + rz_dn(x, l)
{
  assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_rz_dns(s: Seq<Rose>, x: Rose, l: int)
  ensures rz_dns(s.push(x), l) == rz_dns(s, l) + rz_dn(x, l)
{
  assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_rz_walk(pre: bool, hint: bool, s: Seq<Rose>, x: Rose, base: Seq<TEv>, a: Seq<TEv>, b: Seq<TEv>)
  ensures a == base + rz_walks(pre, hint, s) && b == a + rz_walk(pre, hint, x) ==> b == base + rz_walks(pre, hint, s.push(x))
{
  assert(s.push(x).drop_last() =~= s);
  if a == base + rz_walks(pre, hint, s) && b == a + rz_walk(pre, hint, x) { assert(b =~= base + rz_walks(pre, hint, s.push(x))); }
}
pub proof fn lemma_rz_nat(r: Rose, l: int)
  ensures rz_tot(r) >= 1, rz_hgt(r) >= 1, rz_dn(r, l) >= 0
  decreases r
{
  lemma_rz_nats(r.kids, l - 1);
}
pub proof fn lemma_rz_nats(s: Seq<Rose>, l: int)
  ensures rz_tots(s) >= 0, rz_hgts(s) >= 0, rz_dns(s, l) >= 0
  decreases s
{
  if s.len() > 0 { lemma_rz_nats(s.drop_last(), l); lemma_rz_nat(s.last(), l); }
}
