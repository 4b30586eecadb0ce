// ------------------------------------------------ building from tuple notation (C10)
/// a slot of the buffer: filled or not, payload, sizes, parent, number of the visit that filled it, children
pub struct Sl { pub f: bool, pub d: int, pub dg: int, pub ds: int, pub up: int, pub src: int, pub kids: Seq<int> }
/// the state of the builder: slots, next free slot of every level, current depth and parent
pub struct TS { pub c: Seq<Sl>, pub off: Seq<int>, pub depth: int, pub parent: int, pub root: bool, pub n: int, pub tree: bool }
pub open spec fn sl0() -> Sl { Sl{f: false, d: 0, dg: 0, ds: 0, up: -1, src: -1, kids: Seq::<int>::empty()} }
pub open spec fn slnew(e: TEv, p: int, n: int) -> Sl { Sl{f: true, d: e.d, dg: e.deg, ds: e.desc, up: p, src: n, kids: Seq::<int>::empty()} }
pub open spec fn slpush(a: Sl, x: int) -> Sl { Sl{f: a.f, d: a.d, dg: a.dg, ds: a.ds, up: a.up, src: a.src, kids: a.kids.push(x)} }
pub open spec fn tput(c: Seq<Sl>, p: int, x: int, e: TEv, n: int) -> Seq<Sl> { c.update(x, slnew(e, p, n)).update(p, slpush(c[p], x)) }
pub open spec fn astep(s: TS, e: TEv) -> TS {
    if s.root { TS{c: s.c.update(0, slnew(e, -1, s.n)), off: s.off, depth: s.depth, parent: s.parent, root: false, n: s.n + 1, tree: s.tree} }
    else if e.k == 1 { TS{c: tput(s.c, s.parent, s.off[s.depth], e, s.n), off: s.off, depth: s.depth + 1, parent: s.off[s.depth], root: false, n: s.n + 1, tree: s.tree} }
    else if e.k == 0 { TS{c: tput(s.c, s.parent, s.off[s.depth], e, s.n), off: s.off.update(s.depth, s.off[s.depth] + 1), depth: s.depth, parent: s.parent, root: false, n: s.n + 1, tree: s.tree} }
    else { let d = s.depth - 1; let o = s.off.update(d, s.off[d] + 1); TS{c: s.c, off: o, depth: d, parent: if d > 0 { o[d - 1] } else { s.parent }, root: false, n: s.n + 1, tree: s.tree} }
}
pub open spec fn arun(s: TS, v: Seq<TEv>) -> TS decreases v.len() { if v.len() == 0 { s } else { astep(arun(s, v.drop_last()), v.last()) } }
/// what a visit relies on
pub open spec fn safe(s: TS, e: TEv) -> bool {
    0 <= e.k <= 2 && s.c.len() > 0 &&
    if s.root { e.k != 2 && !s.c[0].f && s.c[0].kids == Seq::<int>::empty() }
    else if e.k == 2 { 1 <= s.depth <= s.off.len() && (s.depth >= 2 || s.tree) }
    else { 1 <= s.depth < s.off.len() && 0 < s.off[s.depth] < s.c.len() && !s.c[s.off[s.depth]].f && 0 <= s.parent < s.c.len() && s.c[s.parent].f && s.c[0].f }
}
pub open spec fn asafe(s: TS, v: Seq<TEv>) -> bool { forall|k: int| 0 <= k < v.len() ==> safe(arun(s, v.subrange(0, k)), #[trigger] v[k]) }
#[verifier::spinoff_prover]
pub proof fn lemma_arun_cat(s: TS, a: Seq<TEv>, b: Seq<TEv>)
    ensures arun(s, a + b) == arun(arun(s, a), b), asafe(s, a) && asafe(arun(s, a), b) ==> asafe(s, a + b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_arun_cat(s, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
    if asafe(s, a) && asafe(arun(s, a), b) {
        assert forall|k: int| 0 <= k < (a + b).len() implies safe(arun(s, (a + b).subrange(0, k)), #[trigger] (a + b)[k]) by {
            if k < a.len() { assert((a + b).subrange(0, k) =~= a.subrange(0, k)); assert((a + b)[k] == a[k]); }
            else {
                let j = k - a.len();
                assert((a + b)[k] == b[j]); assert((a + b).subrange(0, k) =~= a + b.subrange(0, j));
                assert(safe(arun(arun(s, a), b.subrange(0, j)), b[j]));
                if j < b.len() { lemma_arun_cat1(s, a, b.subrange(0, j)); }
            }
        }
    }
}
pub proof fn lemma_arun_cat1(s: TS, a: Seq<TEv>, b: Seq<TEv>)
    ensures arun(s, a + b) == arun(arun(s, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_arun_cat1(s, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_arun_one(s: TS, e: TEv)
    ensures arun(s, seq![e]) == astep(s, e), safe(s, e) ==> asafe(s, seq![e])
{
    assert(seq![e].drop_last() =~= Seq::<TEv>::empty()); assert(arun(s, Seq::<TEv>::empty()) == s); assert(seq![e].last() == e);
    assert(arun(s, seq![e]) == astep(arun(s, seq![e].drop_last()), seq![e].last()));
    if safe(s, e) { assert forall|k: int| 0 <= k < seq![e].len() implies safe(arun(s, seq![e].subrange(0, k)), #[trigger] seq![e][k]) by { assert(seq![e].subrange(0, 0) =~= Seq::<TEv>::empty()); } }
}
/// the k-th visit
pub proof fn lemma_run_step(s: TS, v: Seq<TEv>, k: int)
    requires asafe(s, v), 0 <= k < v.len()
    ensures arun(s, v.subrange(0, k + 1)) == astep(arun(s, v.subrange(0, k)), v[k]), safe(arun(s, v.subrange(0, k)), v[k])
{
    assert(v.subrange(0, k + 1).drop_last() =~= v.subrange(0, k)); assert(v.subrange(0, k + 1).last() == v[k]);
}
// ------------------------------------------------ consistency of the slots
pub open spec fn cin(c: Seq<Sl>, i: int, j: int) -> bool { let k = c[i].kids[j]; 0 < k < c.len() && c[k].f && c[k].up == i }
pub open spec fn cslot(c: Seq<Sl>, i: int) -> bool {
    (!c[i].f ==> c[i].kids.len() == 0) && c[i].kids.no_duplicates() && (c[i].f && i > 0 ==> 0 <= c[i].up < c.len() && c[c[i].up].f && c[c[i].up].kids.contains(i)) && (i == 0 && c[i].f ==> c[i].up == -1)
}
pub open spec fn cinv(c: Seq<Sl>) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> #[trigger] cslot(c, i)) && (forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c[i].kids.len() ==> #[trigger] cin(c, i, j))
}
pub proof fn lemma_cinv_put(c: Seq<Sl>, p: int, x: int, e: TEv, n: int)
    requires cinv(c), 0 <= p < c.len(), 0 < x < c.len(), c[p].f, !c[x].f, c[0].f
    ensures cinv(tput(c, p, x, e, n)), tput(c, p, x, e, n).len() == c.len(), tput(c, p, x, e, n)[p] == slpush(c[p], x), tput(c, p, x, e, n)[x] == slnew(e, p, n), forall|i: int| 0 <= i < c.len() && i != p && i != x ==> tput(c, p, x, e, n)[i] == c[i],
        forall|j: int| 0 <= j < c[p].kids.len() ==> #[trigger] c[p].kids[j] != x
{
    let g = tput(c, p, x, e, n);
    assert(cslot(c, x)); assert(cslot(c, p));
    assert forall|j: int| 0 <= j < c[p].kids.len() implies #[trigger] c[p].kids[j] != x by { assert(cin(c, p, j)); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g[i].kids.len() implies #[trigger] cin(g, i, j) by {
        if i == p { if j < c[p].kids.len() { assert(cin(c, p, j)); assert(g[p].kids[j] == c[p].kids[j]); } }
        else if i != x { assert(cin(c, i, j)); }
    }
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] cslot(g, i) by {
        assert(cslot(c, i));
        if i == x { assert(g[p].kids[c[p].kids.len() as int] == x); }
        else if c[i].f && i > 0 { let u = c[i].up; if u == p { let z = choose|z: int| 0 <= z < c[p].kids.len() && c[p].kids[z] == i; assert(g[p].kids[z] == i); } }
    }
}
pub proof fn lemma_cinv_root(c: Seq<Sl>, e: TEv, n: int)
    requires c.len() > 0, forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == sl0()
    ensures cinv(c), cinv(c.update(0, slnew(e, -1, n))), c.update(0, slnew(e, -1, n)).len() == c.len()
{
    let g = c.update(0, slnew(e, -1, n));
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] cslot(c, i) && cslot(g, i) by { assert(c[i] == sl0()); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] cslot(g, i) by { assert(c[i] == sl0()); }
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c[i].kids.len() implies #[trigger] cin(c, i, j) by { assert(c[i] == sl0()); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g[i].kids.len() implies #[trigger] cin(g, i, j) by { assert(c[i] == sl0()); }
}
pub proof fn lemma_cinv_step(s: TS, e: TEv)
    requires cinv(s.c), safe(s, e), s.root ==> (forall|i: int| 0 <= i < s.c.len() ==> #[trigger] s.c[i] == sl0())
    ensures cinv(astep(s, e).c), astep(s, e).c.len() == s.c.len(), !astep(s, e).root
{
    if s.root { lemma_cinv_root(s.c, e, s.n); } else if e.k != 2 { lemma_cinv_put(s.c, s.parent, s.off[s.depth], e, s.n); }
}
// ------------------------------------------------ where the payloads come from
pub open spec fn srcok(s: TS, v: Seq<TEv>, fk: bool) -> bool {
    (forall|i: int| 0 <= i < s.c.len() && (#[trigger] s.c[i]).f && !(fk && i == 0) ==> 0 <= s.c[i].src < s.n && s.n <= v.len() && v[s.c[i].src].k != 2 && v[s.c[i].src].d == s.c[i].d)
    && (forall|i: int, j: int| 0 <= i < j < s.c.len() && (#[trigger] s.c[i]).f && (#[trigger] s.c[j]).f ==> s.c[i].src != s.c[j].src)
    && (fk ==> s.c.len() > 0 && s.c[0].f && s.c[0].src == -1)
}
pub proof fn lemma_src_step(s: TS, e: TEv, v: Seq<TEv>, fk: bool)
    requires srcok(s, v, fk), safe(s, e), 0 <= s.n < v.len(), v[s.n] == e, fk ==> !s.root, s.root ==> (forall|i: int| 0 <= i < s.c.len() ==> #[trigger] s.c[i] == sl0())
    ensures srcok(astep(s, e), v, fk), astep(s, e).n == s.n + 1
{
    let t = astep(s, e); let x = if s.root { 0 } else { s.off[s.depth] }; let p = if s.root { 0 } else { s.parent };
    if e.k != 2 {
        assert forall|i: int| 0 <= i < t.c.len() && (#[trigger] t.c[i]).f && !(fk && i == 0) implies 0 <= t.c[i].src < t.n && t.n <= v.len() && v[t.c[i].src].k != 2 && v[t.c[i].src].d == t.c[i].d by {
            if i != x { assert(s.c[i].f); }
        }
        assert forall|i: int, j: int| 0 <= i < j < t.c.len() && (#[trigger] t.c[i]).f && (#[trigger] t.c[j]).f implies t.c[i].src != t.c[j].src by {
            if i != x { assert(s.c[i].f); } if j != x { assert(s.c[j].f); }
        }
    } else {
        assert(t.c == s.c);
        assert forall|i: int| 0 <= i < t.c.len() && (#[trigger] t.c[i]).f && !(fk && i == 0) implies 0 <= t.c[i].src < t.n && t.n <= v.len() && v[t.c[i].src].k != 2 && v[t.c[i].src].d == t.c[i].d by { assert(s.c[i].f); }
    }
}
// ------------------------------------------------ levels
/// nodes of the e-th level
pub open spec fn lv(r: Rose, e: int) -> int decreases r { if e <= 0 { if e == 0 { 1 } else { 0 } } else { lvs(r.kids, e - 1) } }
pub open spec fn lvs(q: Seq<Rose>, e: int) -> int decreases q { if q.len() == 0 { 0 } else { lvs(q.drop_last(), e) + lv(q.last(), e) } }
/// start of the e-th level
pub open spec fn lst(r: Rose, e: int) -> int decreases e { if e <= 0 { 0 } else { lst(r, e - 1) + lv(r, e - 1) } }
pub open spec fn lstarts(r: Rose) -> Seq<int> { Seq::new((rz_hgt(r) + 1) as nat, |e: int| lst(r, e)) }
pub open spec fn suml(q: Seq<Rose>, n: int) -> int decreases n { if n <= 0 { 0 } else { suml(q, n - 1) + lvs(q, n - 1) } }
pub proof fn lemma_lv_nat(r: Rose, e: int)
    ensures lv(r, e) >= 0
    decreases r
{ lemma_lvs_nat(r.kids, e - 1); }
pub proof fn lemma_lvs_nat(q: Seq<Rose>, e: int)
    ensures lvs(q, e) >= 0
    decreases q
{ if q.len() > 0 { lemma_lvs_nat(q.drop_last(), e); lemma_lv_nat(q.last(), e); } }
pub proof fn lemma_lvs_zero(q: Seq<Rose>)
    ensures lvs(q, 0) == q.len()
    decreases q.len()
{ if q.len() > 0 { lemma_lvs_zero(q.drop_last()); assert(lv(q.last(), 0) == 1); assert(lvs(q, 0) == lvs(q.drop_last(), 0) + lv(q.last(), 0)); } }
/// the counts the code asks for
pub proof fn lemma_lv_dn(r: Rose, l: int)
    requires l >= 0
    ensures rz_dn(r, l) == lv(r, l + 1)
    decreases r
{ if l == 0 { lemma_lvs_zero(r.kids); } else { lemma_lvs_dns(r.kids, l - 1); } }
pub proof fn lemma_lvs_dns(q: Seq<Rose>, l: int)
    requires l >= 0
    ensures rz_dns(q, l) == lvs(q, l + 1)
    decreases q
{ if q.len() > 0 { lemma_lvs_dns(q.drop_last(), l); lemma_lv_dn(q.last(), l); } }
pub proof fn lemma_suml_push(q: Seq<Rose>, n: int)
    requires q.len() > 0, n >= 0
    ensures suml(q, n) == suml(q.drop_last(), n) + lst(q.last(), n)
    decreases n
{ if n > 0 { lemma_suml_push(q, n - 1); } }
pub proof fn lemma_lst_suml(r: Rose, n: int)
    requires n >= 1
    ensures lst(r, n) == 1 + suml(r.kids, n - 1)
    decreases n
{ if n > 1 { lemma_lst_suml(r, n - 1); } else { assert(lst(r, 0) == 0); assert(lst(r, 1) == lst(r, 0) + lv(r, 0)); } }
/// all levels together hold all nodes
pub proof fn lemma_lst_tot(r: Rose, n: int)
    requires n >= rz_hgt(r)
    ensures lst(r, n) == rz_tot(r), n >= 1
    decreases r
{ lemma_rz_nat(r, 0); lemma_rz_nats(r.kids, 0); lemma_lst_suml(r, n); lemma_suml_tots(r.kids, n - 1); }
pub proof fn lemma_suml_tots(q: Seq<Rose>, n: int)
    requires n >= rz_hgts(q), n >= 0
    ensures suml(q, n) == rz_tots(q)
    decreases q
{
    if q.len() > 0 { lemma_suml_push(q, n); lemma_suml_tots(q.drop_last(), n); lemma_lst_tot(q.last(), n); }
    else { lemma_suml_none(q, n); }
}
pub proof fn lemma_suml_none(q: Seq<Rose>, n: int)
    requires q.len() == 0
    ensures suml(q, n) == 0
    decreases n
{ if n > 0 { lemma_suml_none(q, n - 1); } }
pub proof fn lemma_lst_mono(r: Rose, a: int, b: int)
    requires a <= b
    ensures lst(r, a) <= lst(r, b)
    decreases b - a
{ if a < b { lemma_lst_mono(r, a, b - 1); lemma_lv_nat(r, b - 1); } }
// ------------------------------------------------ invariant of the builder
pub open spec fn inl(ls: Seq<int>, e: int, i: int) -> bool { 0 <= e && e + 1 < ls.len() && ls[e] <= i < ls[e + 1] }
pub open spec fn lsok(ls: Seq<int>, n: int) -> bool { ls.len() >= 2 && ls[0] == 0 && ls[1] == 1 && ls[ls.len() - 1] == n && (forall|a: int, b: int| 0 <= a <= b < ls.len() ==> #[trigger] ls[a] <= #[trigger] ls[b]) }
pub proof fn lemma_inl_one(ls: Seq<int>, n: int, a: int, b: int, i: int)
    requires lsok(ls, n), inl(ls, a, i), inl(ls, b, i)
    ensures a == b, 0 <= i < n
{
    if a < b { assert(ls[a + 1] <= ls[b]); } else if b < a { assert(ls[b + 1] <= ls[a]); }
    assert(ls[0] <= ls[a]); assert(ls[a + 1] <= ls[ls.len() - 1]);
}
pub proof fn lemma_inl_some(ls: Seq<int>, n: int, i: int, m: int)
    requires lsok(ls, n), 0 <= m < ls.len(), 0 <= i < ls[m]
    ensures exists|e: int| #[trigger] inl(ls, e, i)
    decreases m
{ if m > 0 { if i < ls[m - 1] { lemma_inl_some(ls, n, i, m - 1); } else { assert(inl(ls, m - 1, i)); } } }
pub open spec fn csum(c: Seq<Sl>, k: Seq<int>) -> int decreases k.len() { if k.len() == 0 { 0 } else { csum(c, k.drop_last()) + c[k.last()].ds + 1 } }
pub open spec fn fin(c: Seq<Sl>, i: int) -> bool { c[i].kids.len() == c[i].dg && c[i].ds == csum(c, c[i].kids) && c[i].ds >= 0 }
pub open spec fn kdone(s: TS, ls: Seq<int>, e: int, i: int) -> bool { forall|j: int| 0 <= j < s.c[i].kids.len() ==> inl(ls, e + 1, #[trigger] s.c[i].kids[j]) && s.c[i].kids[j] < s.off[e + 1] }
pub open spec fn tlev(s: TS, ls: Seq<int>, e: int) -> bool { ls[e] <= s.off[e] <= ls[e + 1] && (e < s.depth ==> inl(ls, e, s.off[e])) }
pub open spec fn tslot(s: TS, ls: Seq<int>, e: int, i: int) -> bool {
    (s.c[i].f <==> (i < s.off[e] || (e < s.depth && i == s.off[e]))) && (i < s.off[e] ==> fin(s.c, i) && kdone(s, ls, e, i))
}
pub open spec fn tinv(s: TS, ls: Seq<int>) -> bool {
    &&& lsok(ls, s.c.len() as int) && cinv(s.c) && !s.root && s.off.len() + 1 == ls.len() && 1 <= s.depth <= s.off.len() && s.parent == s.off[s.depth - 1] && s.c[0].f
    &&& forall|e: int| 0 <= e < s.off.len() ==> #[trigger] tlev(s, ls, e)
    &&& forall|e: int, i: int| #[trigger] inl(ls, e, i) ==> tslot(s, ls, e, i)
}
pub proof fn lemma_csum_ext(a: Seq<Sl>, b: Seq<Sl>, k: Seq<int>)
    requires forall|j: int| 0 <= j < k.len() ==> a[#[trigger] k[j]].ds == b[k[j]].ds
    ensures csum(a, k) == csum(b, k)
    decreases k.len()
{ if k.len() > 0 { assert forall|j: int| 0 <= j < k.drop_last().len() implies a[#[trigger] k.drop_last()[j]].ds == b[k.drop_last()[j]].ds by { assert(k.drop_last()[j] == k[j]); } lemma_csum_ext(a, b, k.drop_last()); assert(k.last() == k[k.len() - 1]); } }
/// filling the next slot of the current level
pub proof fn lemma_tput(s: TS, ls: Seq<int>, e: TEv)
    requires tinv(s, ls), s.depth < s.off.len(), s.off[s.depth] < ls[s.depth + 1], 0 <= e.k <= 1, e.k == 0 ==> e.deg == 0 && e.desc == 0
    ensures safe(s, e), tinv(astep(s, e), ls), astep(s, e).c == tput(s.c, s.parent, s.off[s.depth], e, s.n), astep(s, e).off.len() == s.off.len()
{
    let d = s.depth; let x = s.off[d]; let p = s.parent; let t = astep(s, e); let n = s.c.len() as int;
    assert(tlev(s, ls, d)); assert(tlev(s, ls, d - 1));
    assert(inl(ls, d, x)); assert(inl(ls, d - 1, p)); assert(tslot(s, ls, d, x)); assert(tslot(s, ls, d - 1, p));
    lemma_inl_one(ls, n, d, d, x); lemma_inl_one(ls, n, d - 1, d - 1, p);
    assert(ls[1] <= ls[d]);
    lemma_cinv_put(s.c, p, x, e, s.n);
    assert(t.c == tput(s.c, p, x, e, s.n));
    assert forall|a: int| 0 <= a < t.off.len() implies #[trigger] tlev(t, ls, a) by { assert(tlev(s, ls, a)); }
    assert forall|a: int, i: int| #[trigger] inl(ls, a, i) implies tslot(t, ls, a, i) by {
        assert(tslot(s, ls, a, i)); lemma_inl_one(ls, n, a, a, i);
        assert(tlev(s, ls, a));
        if i == x { lemma_inl_one(ls, n, a, d, i); }
        if i == p { lemma_inl_one(ls, n, a, d - 1, i); }
        if i < t.off[a] {
            assert(i != p);
            if i == x { assert(t.c[x] == slnew(e, p, s.n)); assert(t.c[x].kids.len() == 0); assert(csum(t.c, t.c[x].kids) == 0); }
            else {
                assert(i < s.off[a]); assert(t.c[i] == s.c[i]);
                let k = s.c[i].kids;
                assert forall|j: int| 0 <= j < k.len() implies s.c[#[trigger] k[j]].ds == t.c[k[j]].ds && inl(ls, a + 1, k[j]) && k[j] < t.off[a + 1] by { assert(cin(s.c, i, j)); assert(inl(ls, a + 1, s.c[i].kids[j]) && s.c[i].kids[j] < s.off[a + 1]); }
                lemma_csum_ext(s.c, t.c, k);
            }
        }
    }
}
/// closing the current node
pub proof fn lemma_tframe(s: TS, ls: Seq<int>, e: TEv)
    requires tinv(s, ls), s.depth >= 2, e.k == 2, fin(s.c, s.parent), s.depth < s.off.len() ==> kdone(s, ls, s.depth - 1, s.parent), s.depth == s.off.len() ==> s.c[s.parent].kids.len() == 0
    ensures safe(s, e), tinv(astep(s, e), ls), astep(s, e).c == s.c, astep(s, e).off.len() == s.off.len()
{
    let d = s.depth - 1; let y = s.parent; let t = astep(s, e); let n = s.c.len() as int;
    assert(tlev(s, ls, d)); assert(inl(ls, d, y));
    assert forall|a: int| 0 <= a < t.off.len() implies #[trigger] tlev(t, ls, a) by { assert(tlev(s, ls, a)); }
    assert forall|a: int, i: int| #[trigger] inl(ls, a, i) implies tslot(t, ls, a, i) by {
        assert(tslot(s, ls, a, i));
        if i == y { lemma_inl_one(ls, n, a, d, i); }
        if i < t.off[a] {
            if i == y { }
            else { assert(i < s.off[a]); }
            assert forall|j: int| 0 <= j < t.c[i].kids.len() implies inl(ls, a + 1, #[trigger] t.c[i].kids[j]) && t.c[i].kids[j] < t.off[a + 1] by { assert(inl(ls, a + 1, s.c[i].kids[j]) && s.c[i].kids[j] < s.off[a + 1]); }
        }
    }
}
/// slot i holds the tree r
pub open spec fn crose(c: Seq<Sl>, i: int, r: Rose) -> bool decreases r {
    0 <= i < c.len() && c[i].f && c[i].d == r.data && crose1(c, i, r.kids)
}
pub open spec fn crose1(c: Seq<Sl>, i: int, q: Seq<Rose>) -> bool decreases q {
    c[i].dg == q.len() && c[i].ds == rz_tots(q) && c[i].kids.len() == q.len() && forall|j: int| 0 <= j < q.len() ==> crose(c, c[i].kids[j], #[trigger] q[j])
}
/// later visits leave finished slots alone
pub open spec fn others(s: TS, t: TS) -> bool { forall|i: int| 0 <= i < s.c.len() && i != s.parent && (#[trigger] s.c[i]).f ==> t.c[i] == s.c[i] }
pub proof fn lemma_crose_keep(s: TS, t: TS, ls: Seq<int>, e: int, i: int, r: Rose)
    requires tinv(s, ls), others(s, t), t.c.len() == s.c.len(), inl(ls, e, i), i < s.off[e], crose(s.c, i, r)
    ensures crose(t.c, i, r)
    decreases r
{
    let n = s.c.len() as int;
    assert(tslot(s, ls, e, i));
    assert(tlev(s, ls, s.depth - 1));
    if i == s.parent { lemma_inl_one(ls, n, e, s.depth - 1, i); }
    assert(t.c[i] == s.c[i]);
    assert forall|j: int| 0 <= j < r.kids.len() implies crose(t.c, t.c[i].kids[j], #[trigger] r.kids[j]) by {
        assert(inl(ls, e + 1, s.c[i].kids[j]));
        assert(crose(s.c, s.c[i].kids[j], r.kids[j]));
        lemma_crose_keep(s, t, ls, e + 1, s.c[i].kids[j], r.kids[j]);
    }
    assert(crose1(t.c, i, r.kids));
}
/// what visiting the trees q below the current parent does
pub open spec fn tres(s: TS, t: TS, ls: Seq<int>, q: Seq<Rose>) -> bool {
    let d = s.depth; let p = s.parent;
    &&& tinv(t, ls) && t.depth == d && t.parent == p && t.tree == s.tree && t.off.len() == s.off.len() && t.c.len() == s.c.len()
    &&& forall|e: int| 0 <= e < s.off.len() ==> #[trigger] t.off[e] == s.off[e] + (if e >= d { lvs(q, e - d) } else { 0 })
    &&& others(s, t)
    &&& t.c[p].f == s.c[p].f && t.c[p].d == s.c[p].d && t.c[p].dg == s.c[p].dg && t.c[p].ds == s.c[p].ds && t.c[p].src == s.c[p].src
    &&& t.c[p].kids.len() == s.c[p].kids.len() + q.len()
    &&& forall|j: int| 0 <= j < s.c[p].kids.len() ==> #[trigger] t.c[p].kids[j] == s.c[p].kids[j]
    &&& forall|j: int| 0 <= j < q.len() ==> #[trigger] kidat(s, t, q, j)
}
pub open spec fn kidat(s: TS, t: TS, q: Seq<Rose>, j: int) -> bool { t.c[s.parent].kids[s.c[s.parent].kids.len() + j] == s.off[s.depth] + j && crose(t.c, s.off[s.depth] + j, q[j]) }
pub open spec fn tfits(s: TS, ls: Seq<int>, q: Seq<Rose>) -> bool {
    s.depth + rz_hgts(q) <= s.off.len() && forall|e: int| s.depth <= e < s.off.len() ==> #[trigger] s.off[e] + lvs(q, e - s.depth) <= ls[e + 1]
}
pub open spec fn tfit(s: TS, ls: Seq<int>, r: Rose) -> bool {
    s.depth + rz_hgt(r) <= s.off.len() && forall|e: int| s.depth <= e < s.off.len() ==> #[trigger] s.off[e] + lv(r, e - s.depth) <= ls[e + 1]
}
/// a node without children
pub proof fn lemma_one_leaf(s: TS, t: TS, ls: Seq<int>, r: Rose, e: TEv)
    requires tinv(s, ls), tfit(s, ls, r), r.kids.len() == 0, e == (TEv{k: 0, d: r.data, deg: 0, desc: 0}), t == astep(s, e)
    ensures safe(s, e), tres(s, t, ls, seq![r])
{
    let d = s.depth; let q = r.kids; let x = s.off[d]; let p = s.parent; let L = s.off.len() as int; let one = seq![r];
    lemma_rz_nats(q, 0); lemma_fit_slot(s, ls, r); lemma_lvs_one(r);
    lemma_tput(s, ls, e); lemma_cinv_put(s.c, p, x, e, s.n);
    assert(t.c[x] == slnew(e, p, s.n));
    assert(rz_tots(q) == 0); assert(crose1(t.c, x, q)); assert(crose(t.c, x, r));
    assert forall|a: int| 0 <= a < L implies #[trigger] t.off[a] == s.off[a] + (if a >= d { lvs(one, a - d) } else { 0 }) by {
        if a > d { assert(lv(r, a - d) == lvs(q, a - d - 1)); assert(lvs(q, a - d - 1) == 0); }
    }
    assert(others(s, t));
    assert forall|j: int| 0 <= j < one.len() implies #[trigger] kidat(s, t, one, j) by { assert(one[j] == r); }
}
pub proof fn lemma_lvs_one(r: Rose)
    ensures forall|e: int| lvs(seq![r], e) == #[trigger] lv(r, e), lv(r, 0) == 1
{
    let one = seq![r];
    assert forall|e: int| lvs(one, e) == #[trigger] lv(r, e) by { assert(one.drop_last() =~= Seq::<Rose>::empty()); assert(lvs(one.drop_last(), e) == 0); assert(one.last() == r); }
}
pub proof fn lemma_fit_slot(s: TS, ls: Seq<int>, r: Rose)
    requires tinv(s, ls), tfit(s, ls, r)
    ensures s.depth < s.off.len(), s.off[s.depth] < ls[s.depth + 1], 0 < s.off[s.depth] < s.c.len(), !s.c[s.off[s.depth]].f, 0 <= s.parent < s.c.len(), s.c[s.parent].f, s.off[s.depth] != s.parent, inl(ls, s.depth, s.off[s.depth]), inl(ls, s.depth - 1, s.parent)
{
    let d = s.depth; let n = s.c.len() as int; let x = s.off[d]; let p = s.parent;
    lemma_rz_nat(r, 0); lemma_lv_nat(r, 0);
    assert(s.off[d] + lv(r, d - d) <= ls[d + 1]); assert(lv(r, 0) == 1);
    assert(tlev(s, ls, d)); assert(tlev(s, ls, d - 1)); assert(ls[1] <= ls[d]);
    assert(inl(ls, d, x)); assert(inl(ls, d - 1, p)); assert(tslot(s, ls, d, x)); assert(tslot(s, ls, d - 1, p));
    lemma_inl_one(ls, n, d, d, x); lemma_inl_one(ls, n, d - 1, d - 1, p);
}
/// entering a node with children
pub proof fn lemma_one_branch(s: TS, s1: TS, ls: Seq<int>, r: Rose, e: TEv)
    requires tinv(s, ls), tfit(s, ls, r), r.kids.len() > 0, e == (TEv{k: 1, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}), s1 == astep(s, e)
    ensures safe(s, e), tinv(s1, ls), tfits(s1, ls, r.kids), s1.c == tput(s.c, s.parent, s.off[s.depth], e, s.n), s1.parent == s.off[s.depth], s1.depth == s.depth + 1, s1.off == s.off, s1.tree == s.tree, s1.depth < s.off.len()
{
    let d = s.depth; let q = r.kids;
    lemma_fit_slot(s, ls, r); lemma_tput(s, ls, e);
    assert(rz_hgt(r) == 1 + rz_hgts(q));
    lemma_rz_nat(q.last(), 0); lemma_rz_nats(q.drop_last(), 0);
    assert(rz_hgts(q) == imax(rz_hgts(q.drop_last()), rz_hgt(q.last())));
    assert forall|a: int| s1.depth <= a < s1.off.len() implies #[trigger] s1.off[a] + lvs(q, a - s1.depth) <= ls[a + 1] by { assert(s.off[a] + lv(r, a - d) <= ls[a + 1]); assert(lv(r, a - d) == lvs(q, a - d - 1)); }
}
/// leaving it
pub proof fn lemma_one_frame(s: TS, s1: TS, s2: TS, t: TS, ls: Seq<int>, r: Rose, e1: TEv, e2: TEv)
    requires tinv(s, ls), tfit(s, ls, r), r.kids.len() > 0, e1 == (TEv{k: 1, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}), s1 == astep(s, e1), tres(s1, s2, ls, r.kids), e2.k == 2, t == astep(s2, e2)
    ensures safe(s2, e2), tres(s, t, ls, seq![r])
{
    let d = s.depth; let q = r.kids; let x = s.off[d]; let p = s.parent; let L = s.off.len() as int; let one = seq![r]; let n = s.c.len() as int;
    lemma_fit_slot(s, ls, r); lemma_lvs_one(r); lemma_one_branch(s, s1, ls, r, e1);
    lemma_cinv_put(s.c, p, x, e1, s.n);
    assert(s1.c[x] == slnew(e1, p, s.n)); assert(s1.c[p] == slpush(s.c[p], x));
    let k = s2.c[x].kids;
    assert(s1.c[x].kids.len() == 0);
    assert forall|j: int| 0 <= j < q.len() implies k[j] == s1.off[d + 1] + j && crose(s2.c, k[j], #[trigger] q[j]) by { assert(kidat(s1, s2, q, j)); }
    lemma_csum_rose(s2.c, k, q); lemma_rz_nats(q, 0);
    lemma_lvs_zero(q);
    assert(s2.off[d + 1] == s1.off[d + 1] + (if d + 1 >= d + 1 { lvs(q, d + 1 - (d + 1)) } else { 0 }));
    assert(tlev(s1, ls, d + 1)); assert(tlev(s2, ls, d + 1));
    assert(kdone(s2, ls, d, x)) by { assert forall|j: int| 0 <= j < s2.c[x].kids.len() implies inl(ls, d + 1, #[trigger] s2.c[x].kids[j]) && s2.c[x].kids[j] < s2.off[d + 1] by { let y = q[j]; assert(k[j] == s1.off[d + 1] + j); } }
    lemma_tframe(s2, ls, e2);
    assert(t.c == s2.c);
    assert(s2.off[d] == s1.off[d] && s1.off[d] == x);
    assert(s2.off[d - 1] == s1.off[d - 1] && s1.off[d - 1] == p);
    assert forall|a: int| 0 <= a < L implies #[trigger] t.off[a] == s.off[a] + (if a >= d { lvs(one, a - d) } else { 0 }) by {
        assert(s2.off[a] == s1.off[a] + (if a >= d + 1 { lvs(q, a - (d + 1)) } else { 0 }));
        if a > d { assert(lv(r, a - d) == lvs(q, a - d - 1)); }
    }
    assert(crose1(t.c, x, q)); assert(crose(t.c, x, r));
    assert forall|i: int| 0 <= i < s.c.len() && i != p && (#[trigger] s.c[i]).f implies t.c[i] == s.c[i] by { assert(i != x); assert(s1.c[i] == s.c[i]); assert(s2.c[i] == s1.c[i]); }
    assert(others(s, t));
    assert(s1.c[p].f); assert(s2.c[p] == s1.c[p]);
    assert forall|j: int| 0 <= j < one.len() implies #[trigger] kidat(s, t, one, j) by { assert(one[j] == r); }
    assert(t.parent == p) by { assert(t.off[d - 1] == s.off[d - 1] + 0); }
}
pub proof fn lemma_walk_parts(r: Rose)
    ensures r.kids.len() == 0 ==> rz_walk(true, true, r) == seq![TEv{k: 0, d: r.data, deg: 0, desc: 0}],
        r.kids.len() > 0 ==> rz_walk(true, true, r) == (seq![TEv{k: 1, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}] + rz_walks(true, true, r.kids)) + seq![TEv{k: 2, d: 0, deg: r.kids.len() as int, desc: rz_tots(r.kids)}]
{ }
pub proof fn lemma_run_walk(s: TS, ls: Seq<int>, r: Rose)
    requires tinv(s, ls), tfit(s, ls, r)
    ensures asafe(s, rz_walk(true, true, r)), tres(s, arun(s, rz_walk(true, true, r)), ls, seq![r])
    decreases r, 0nat
{
    hide(tinv); hide(tres); hide(tfit); hide(safe); hide(astep); hide(arun); hide(asafe); hide(tfits);
    lemma_walk_parts(r);
    if r.kids.len() == 0 {
        let e = TEv{k: 0, d: r.data, deg: 0, desc: 0};
        lemma_arun_one(s, e); lemma_one_leaf(s, astep(s, e), ls, r, e);
    } else {
        let e1 = TEv{k: 1, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}; let e2 = TEv{k: 2, d: 0, deg: r.kids.len() as int, desc: rz_tots(r.kids)}; let w = rz_walks(true, true, r.kids);
        let s1 = astep(s, e1);
        lemma_arun_one(s, e1); lemma_one_branch(s, s1, ls, r, e1);
        lemma_run_walks(s1, ls, r.kids);
        let s2 = arun(s1, w); let t = astep(s2, e2);
        lemma_arun_cat(s, seq![e1], w);
        lemma_one_frame(s, s1, s2, t, ls, r, e1, e2);
        lemma_arun_one(s2, e2); lemma_arun_cat(s, seq![e1] + w, seq![e2]);
    }
}
pub proof fn lemma_csum_rose(c: Seq<Sl>, k: Seq<int>, q: Seq<Rose>)
    requires k.len() == q.len(), forall|j: int| 0 <= j < q.len() ==> crose(c, k[j], #[trigger] q[j])
    ensures csum(c, k) == rz_tots(q)
    decreases q.len()
{
    if q.len() > 0 {
        let k1 = k.drop_last(); let q1 = q.drop_last();
        assert forall|j: int| 0 <= j < q1.len() implies crose(c, k1[j], #[trigger] q1[j]) by { assert(q1[j] == q[j]); assert(k1[j] == k[j]); }
        lemma_csum_rose(c, k1, q1);
        assert(crose(c, k[q.len() - 1], q[q.len() - 1])); assert(crose1(c, k.last(), q.last().kids)); assert(rz_tots(q) == rz_tots(q1) + rz_tot(q.last())); assert(rz_tot(q.last()) == 1 + rz_tots(q.last().kids)); assert(q.last() == q[q.len() - 1]); assert(k.last() == k[k.len() - 1]);
    }
}
pub proof fn lemma_run_walks(s: TS, ls: Seq<int>, q: Seq<Rose>)
    requires tinv(s, ls), tfits(s, ls, q)
    ensures asafe(s, rz_walks(true, true, q)), tres(s, arun(s, rz_walks(true, true, q)), ls, q)
    decreases q, 1nat
{
    hide(tinv); hide(tres); hide(tfit); hide(safe); hide(astep); hide(asafe); hide(tfits);
    let w = rz_walks(true, true, q);
    if q.len() == 0 { assert(w =~= Seq::<TEv>::empty()); assert(arun(s, w) == s); lemma_none(s, ls, q); }
    else {
        let a = q.drop_last(); let r = q.last(); let wa = rz_walks(true, true, a); let wr = rz_walk(true, true, r);
        assert(w == wa + wr);
        assert(a.push(r) =~= q); lemma_fits1(s, ls, a, r);
        lemma_run_walks(s, ls, a);
        let t = arun(s, wa);
        lemma_fits2(s, t, ls, a, r);
        lemma_run_walk(t, ls, r);
        lemma_arun_cat(s, wa, wr);
        lemma_two(s, t, arun(t, wr), ls, a, r);
    }
}
pub proof fn lemma_none(s: TS, ls: Seq<int>, q: Seq<Rose>)
    requires tinv(s, ls), q.len() == 0
    ensures tres(s, s, ls, q), asafe(s, Seq::<TEv>::empty())
{
    assert forall|e: int| 0 <= e < s.off.len() implies #[trigger] s.off[e] == s.off[e] + (if e >= s.depth { lvs(q, e - s.depth) } else { 0 }) by { assert(lvs(q, e - s.depth) == 0); }
}
pub proof fn lemma_fits1(s: TS, ls: Seq<int>, a: Seq<Rose>, r: Rose)
    requires tinv(s, ls), tfits(s, ls, a.push(r))
    ensures tfits(s, ls, a), s.depth < s.off.len()
{
    let d = s.depth; let q = a.push(r);
    assert(q.drop_last() =~= a); assert(q.last() == r);
    lemma_rz_nat(r, 0); lemma_rz_nats(a, 0); assert(rz_hgts(q) == imax(rz_hgts(a), rz_hgt(r)));
    assert forall|e: int| s.depth <= e < s.off.len() implies #[trigger] s.off[e] + lvs(a, e - d) <= ls[e + 1] by { assert(s.off[e] + lvs(q, e - d) <= ls[e + 1]); lemma_lv_nat(r, e - d); }
}
pub proof fn lemma_fits2(s: TS, t: TS, ls: Seq<int>, a: Seq<Rose>, r: Rose)
    requires tinv(s, ls), tfits(s, ls, a.push(r)), tres(s, t, ls, a)
    ensures tfit(t, ls, r), tinv(t, ls)
{
    let d = s.depth; let q = a.push(r);
    assert(q.drop_last() =~= a); assert(q.last() == r);
    assert(rz_hgts(q) == imax(rz_hgts(a), rz_hgt(r)));
    assert forall|e: int| t.depth <= e < t.off.len() implies #[trigger] t.off[e] + lv(r, e - t.depth) <= ls[e + 1] by { assert(s.off[e] + lvs(q, e - d) <= ls[e + 1]); }
}
pub proof fn lemma_two(s: TS, t: TS, u: TS, ls: Seq<int>, a: Seq<Rose>, r: Rose)
    requires tinv(s, ls), s.depth < s.off.len(), tres(s, t, ls, a), tres(t, u, ls, seq![r])
    ensures tres(s, u, ls, a.push(r))
{
    let d = s.depth; let p = s.parent; let q = a.push(r); let one = seq![r]; let L = s.off.len() as int; let n = s.c.len() as int;
    assert forall|e: int| lvs(one, e) == lv(r, e) && lvs(q, e) == lvs(a, e) + lv(r, e) by { assert(one.drop_last() =~= Seq::<Rose>::empty()); assert(lvs(one.drop_last(), e) == 0); assert(one.last() == r); assert(q.drop_last() =~= a); assert(q.last() == r); }
    lemma_lvs_zero(a);
    assert(t.off[d] == s.off[d] + a.len());
    assert forall|e: int| 0 <= e < L implies #[trigger] u.off[e] == s.off[e] + (if e >= d { lvs(q, e - d) } else { 0 }) by { assert(t.off[e] == s.off[e] + (if e >= d { lvs(a, e - d) } else { 0 })); assert(lvs(q, e - d) == lvs(a, e - d) + lv(r, e - d)); }
    assert forall|i: int| 0 <= i < s.c.len() && i != p && (#[trigger] s.c[i]).f implies u.c[i] == s.c[i] by { assert(t.c[i] == s.c[i]); assert(t.c[i].f); }
    assert(t.parent == p); assert(others(s, u)); assert(one.len() == 1);
    assert forall|j: int| 0 <= j < s.c[p].kids.len() implies #[trigger] u.c[p].kids[j] == s.c[p].kids[j] by { assert(t.c[p].kids[j] == s.c[p].kids[j]); }
    assert(tlev(s, ls, d)); assert(tlev(t, ls, d));
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] kidat(s, u, q, j) by {
        if j < a.len() {
            assert(q[j] == a[j]);
            assert(kidat(s, t, a, j));
            assert(inl(ls, d, s.off[d] + j));
            lemma_crose_keep(t, u, ls, d, s.off[d] + j, a[j]);
        } else { assert(one[0] == r); assert(kidat(t, u, one, 0)); assert(q[j] == r); }
    }
    assert(q.len() == a.len() + 1); assert(tinv(u, ls)); assert(u.c.len() == s.c.len()); assert(u.parent == p); assert(u.c[p].kids.len() == s.c[p].kids.len() + q.len()); assert(u.c[p].dg == s.c[p].dg); assert(u.tree == s.tree);
}
// ------------------------------------------------ the whole buffer
pub open spec fn toff(r: Rose) -> Seq<int> { Seq::new(rz_hgt(r) as nat, |e: int| lst(r, e)) }
pub open spec fn blanks(n: int) -> Seq<Sl> { Seq::new(n as nat, |i: int| sl0()) }
pub open spec fn slroot(r: Rose) -> Sl { Sl{f: true, d: r.data, dg: r.kids.len() as int, ds: rz_tots(r.kids), up: -1, src: -1, kids: Seq::<int>::empty()} }
pub open spec fn tstart(r: Rose, tree: bool) -> TS {
    TS{c: if tree { blanks(rz_tot(r)) } else { blanks(rz_tot(r)).update(0, slroot(r)) }, off: toff(r), depth: 1, parent: 0, root: tree, n: 0, tree: tree}
}
pub open spec fn tevs(r: Rose, tree: bool) -> Seq<TEv> { if tree { rz_walk(true, true, r) } else { rz_walks(true, true, r.kids) } }
/// the slots describe r
pub open spec fn tfin(c: Seq<Sl>, r: Rose) -> bool { cinv(c) && c.len() == rz_tot(r) && crose(c, 0, r) && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).f && fin(c, i) }
pub proof fn lemma_lstarts(r: Rose)
    ensures lsok(lstarts(r), rz_tot(r)), lstarts(r).len() == rz_hgt(r) + 1, toff(r).len() == rz_hgt(r), rz_hgt(r) >= 1, rz_tot(r) >= 1, forall|e: int| 0 <= e < rz_hgt(r) ==> #[trigger] toff(r)[e] == lst(r, e), forall|e: int| 0 <= e <= rz_hgt(r) ==> #[trigger] lstarts(r)[e] == lst(r, e)
{
    lemma_rz_nat(r, 0); lemma_lst_tot(r, rz_hgt(r));
    let ls = lstarts(r);
    assert(lst(r, 0) == 0); assert(lst(r, 1) == lst(r, 0) + lv(r, 0)); assert(lv(r, 0) == 1);
    assert forall|a: int, b: int| 0 <= a <= b < ls.len() implies #[trigger] ls[a] <= #[trigger] ls[b] by { lemma_lst_mono(r, a, b); }
}
pub open spec fn rooted(s: TS, r: Rose) -> bool {
    s.c.len() == rz_tot(r) && s.off == toff(r) && s.depth == 1 && s.parent == 0 && !s.root && (forall|i: int| 1 <= i < s.c.len() ==> #[trigger] s.c[i] == sl0())
    && s.c[0].f && s.c[0].d == r.data && s.c[0].dg == r.kids.len() && s.c[0].ds == rz_tots(r.kids) && s.c[0].up == -1 && s.c[0].kids.len() == 0
}
pub proof fn lemma_rooted(s: TS, r: Rose)
    requires rooted(s, r)
    ensures tinv(s, lstarts(r)), tfits(s, lstarts(r), r.kids)
{
    let ls = lstarts(r); let n = s.c.len() as int;
    lemma_lstarts(r); lemma_rz_nats(r.kids, 0);
    assert forall|i: int| 0 <= i < s.c.len() implies #[trigger] cslot(s.c, i) by { if i > 0 { assert(s.c[i] == sl0()); } }
    assert forall|i: int, j: int| 0 <= i < s.c.len() && 0 <= j < s.c[i].kids.len() implies #[trigger] cin(s.c, i, j) by { if i > 0 { assert(s.c[i] == sl0()); } }
    assert(inl(ls, 0, 0)) by { assert(ls[0] == 0 && ls[1] == 1); }
    assert forall|e: int| 0 <= e < s.off.len() implies #[trigger] tlev(s, ls, e) by { assert(s.off[e] == lst(r, e)); assert(ls[e] == lst(r, e)); assert(ls[e] <= ls[e + 1]); }
    assert forall|e: int, i: int| #[trigger] inl(ls, e, i) implies tslot(s, ls, e, i) by {
        lemma_inl_one(ls, n, e, e, i); assert(tlev(s, ls, e)); assert(s.off[e] == lst(r, e)); assert(ls[e] == lst(r, e));
        if e == 0 { assert(i == 0); } else { assert(ls[1] <= ls[e]); assert(s.c[i] == sl0()); }
    }
    assert(s.off[0] == lst(r, 0));
    assert(rz_hgt(r) == 1 + rz_hgts(r.kids));
    assert forall|e: int| s.depth <= e < s.off.len() implies #[trigger] s.off[e] + lvs(r.kids, e - s.depth) <= ls[e + 1] by { assert(s.off[e] == lst(r, e)); assert(ls[e + 1] == lst(r, e + 1)); assert(lst(r, e + 1) == lst(r, e) + lv(r, e)); }
}
/// once all is visited
pub proof fn lemma_rooted_end(s: TS, t: TS, r: Rose)
    requires rooted(s, r), tinv(s, lstarts(r)), tres(s, t, lstarts(r), r.kids)
    ensures tfin(t.c, r)
{
    let ls = lstarts(r); let q = r.kids; let n = s.c.len() as int; let k = t.c[0].kids;
    lemma_lstarts(r);
    assert forall|j: int| 0 <= j < q.len() implies crose(t.c, k[j], #[trigger] q[j]) by { assert(kidat(s, t, q, j)); }
    assert(crose1(t.c, 0, q)); assert(crose(t.c, 0, r));
    lemma_csum_rose(t.c, k, q); lemma_rz_nats(q, 0);
    assert forall|i: int| 0 <= i < t.c.len() implies (#[trigger] t.c[i]).f && fin(t.c, i) by {
        if i > 0 {
            lemma_inl_some(ls, n, i, ls.len() - 1);
            let e = choose|e: int| #[trigger] inl(ls, e, i);
            assert(tslot(t, ls, e, i));
            if e == 0 { assert(ls[1] == 1); }
            assert(t.off[e] == s.off[e] + (if e >= s.depth { lvs(q, e - s.depth) } else { 0 }));
            assert(s.off[e] == lst(r, e)); assert(ls[e + 1] == lst(r, e + 1)); assert(lst(r, e + 1) == lst(r, e) + lv(r, e));
        }
    }
}
pub proof fn lemma_tree_root(r: Rose, e: TEv)
    requires 0 <= e.k <= 1, e.d == r.data, e.deg == r.kids.len(), e.desc == rz_tots(r.kids)
    ensures rooted(astep(tstart(r, true), e), r), safe(tstart(r, true), e)
{
    lemma_lstarts(r);
    let s = tstart(r, true);
    assert forall|i: int| 0 <= i < s.c.len() implies #[trigger] s.c[i] == sl0() by { }
}
/// all visits of a tree, or of a forest, are in order, and fill the buffer with what they describe
pub proof fn lemma_tree_run(r: Rose)
    ensures asafe(tstart(r, true), tevs(r, true)), tfin(arun(tstart(r, true), tevs(r, true)).c, r)
{
    let s = tstart(r, true); let q = r.kids; let ls = lstarts(r);
    lemma_walk_parts(r);
    if q.len() == 0 {
        let e = TEv{k: 0, d: r.data, deg: 0, desc: 0};
        assert(rz_tots(q) == 0);
        lemma_tree_root(r, e); lemma_arun_one(s, e);
        let s1 = astep(s, e);
        lemma_rooted(s1, r); lemma_none(s1, ls, q); lemma_rooted_end(s1, s1, r);
    } else {
        let e1 = TEv{k: 1, d: r.data, deg: q.len() as int, desc: rz_tots(q)}; let e2 = TEv{k: 2, d: 0, deg: q.len() as int, desc: rz_tots(q)}; let w = rz_walks(true, true, q);
        lemma_tree_root(r, e1); lemma_arun_one(s, e1);
        let s1 = astep(s, e1);
        lemma_rooted(s1, r); lemma_run_walks(s1, ls, q);
        let s2 = arun(s1, w);
        lemma_rooted_end(s1, s2, r);
        lemma_arun_cat(s, seq![e1], w);
        lemma_arun_one(s2, e2); lemma_arun_cat(s, seq![e1] + w, seq![e2]);
        assert(s2.tree == s1.tree && s1.tree);
        assert(safe(s2, e2));
        assert(astep(s2, e2).c == s2.c);
    }
}
pub proof fn lemma_forest_run(r: Rose)
    ensures asafe(tstart(r, false), tevs(r, false)), tfin(arun(tstart(r, false), tevs(r, false)).c, r)
{
    let s = tstart(r, false);
    lemma_lstarts(r);
    assert(rooted(s, r));
    lemma_rooted(s, r); lemma_run_walks(s, lstarts(r), r.kids);
    lemma_rooted_end(s, arun(s, tevs(r, false)), r);
}
/// the builder's slots stay consistent, whatever was visited so far
pub open spec fn tcons(s: TS, v: Seq<TEv>, fk: bool, n: int) -> bool {
    cinv(s.c) && s.c.len() == n && srcok(s, v, fk) && (s.root ==> forall|i: int| 0 <= i < s.c.len() ==> #[trigger] s.c[i] == sl0()) && (fk ==> !s.root)
}
pub proof fn lemma_tcons(r: Rose, tree: bool, k: int)
    requires asafe(tstart(r, tree), tevs(r, tree)), 0 <= k <= tevs(r, tree).len()
    ensures tcons(arun(tstart(r, tree), tevs(r, tree).subrange(0, k)), tevs(r, tree), !tree, rz_tot(r)), arun(tstart(r, tree), tevs(r, tree).subrange(0, k)).n == k, arun(tstart(r, tree), tevs(r, tree).subrange(0, k)).tree == tree
    decreases k
{
    let s = tstart(r, tree); let v = tevs(r, tree);
    if k == 0 {
        lemma_lstarts(r);
        assert(v.subrange(0, 0) =~= Seq::<TEv>::empty()); assert(arun(s, v.subrange(0, 0)) == s);
        let c = blanks(rz_tot(r));
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == sl0() by { }
        lemma_cinv_root(c, TEv{k: 0, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}, -1);
        if !tree { assert forall|i: int, j: int| 0 <= i < j < s.c.len() && (#[trigger] s.c[i]).f && (#[trigger] s.c[j]).f implies s.c[i].src != s.c[j].src by { assert(s.c[j] == sl0()); } }
        assert(slnew(TEv{k: 0, d: r.data, deg: r.kids.len() as int, desc: rz_tots(r.kids)}, -1, -1) == slroot(r));
    } else {
        lemma_tcons(r, tree, k - 1); lemma_run_step(s, v, k - 1);
        let a = arun(s, v.subrange(0, k - 1));
        lemma_cinv_step(a, v[k - 1]); lemma_src_step(a, v[k - 1], v, !tree);
    }
}
// ------------------------------------------------ the heap is what the slots say
pub open spec fn tdata(v: int, c: Seq<Sl>, i: int, fk: bool) -> D { if i == 0 && fk { D::PiledNone{owner: v} } else { D::Piled{data: c[i].d, owner: v} } }
pub open spec fn tkids(v: int, c: Seq<Sl>, i: int) -> Seq<int> { Seq::new(c[i].kids.len(), |j: int| elem(v, c[i].kids[j])) }
pub open spec fn repi(h: H, v: int, c: Seq<Sl>, i: int, fk: bool) -> bool {
    let p = elem(v, i); let k = h.kids[p];
    &&& h.alive[p] && h.cnt[p] == 1 && k == tkids(v, c, i)
    &&& h.head[p] == oi(k.len() > 0, k[0])
    &&& h.tail[p] == oi(k.len() > 0, k[k.len() - 1])
    &&& c[i].f ==> h.deg[p] == c[i].dg && h.desc[p] == c[i].ds && h.data[p] == tdata(v, c, i, fk) && wf_up(h, p) && (i == 0 ==> h.up[p] is None)
    &&& !c[i].f ==> h.data[p] is None && h.up[p] is None && h.prev[p] is None && h.next[p] is None
}
pub open spec fn rep(h: H, v: int, c: Seq<Sl>, fk: bool) -> bool {
    &&& nslots(v) == c.len()
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] repi(h, v, c, i, fk)
    &&& forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c[i].kids.len() ==> #[trigger] wf_kid(h, elem(v, i), j)
}
pub open spec fn apart(h: H, g: H, v: int) -> bool { forall|p: int| !slot(v, p) ==> #[trigger] same_cell(h, g, p) }
pub proof fn lemma_rep_tail(h: H, v: int, c: Seq<Sl>, p: int, fk: bool)
    requires cinv(c), rep(h, v, c, fk), 0 <= p < c.len()
    ensures h.tail[elem(v, p)] is Some ==> c[p].kids.len() > 0 && h.tail[elem(v, p)] == Some(elem(v, c[p].kids[c[p].kids.len() - 1])) && slot(v, h.tail[elem(v, p)]->Some_0) && h.alive[h.tail[elem(v, p)]->Some_0] && cin(c, p, c[p].kids.len() - 1) && wf_kid(h, elem(v, p), c[p].kids.len() - 1)
{
    assert(repi(h, v, c, p, fk));
    if c[p].kids.len() > 0 { assert(cin(c, p, c[p].kids.len() - 1)); assert(wf_kid(h, elem(v, p), c[p].kids.len() - 1)); let z = c[p].kids[c[p].kids.len() - 1]; assert(0 <= z < nslots(v) && elem(v, z) == elem(v, z)); }
}
pub proof fn lemma_rep_put(h: H, g: H, v: int, c: Seq<Sl>, p: int, x: int, e: TEv, n: int, fk: bool)
    requires cinv(c), rep(h, v, c, fk), 0 <= p < c.len(), 0 < x < c.len(), c[p].f, !c[x].f, c[0].f,
        appended(h, g, elem(v, p), elem(v, x), D::Piled{data: e.d, owner: v}, e.deg, e.desc), g.alive == h.alive, g.cnt == h.cnt
    ensures rep(g, v, tput(c, p, x, e, n), fk), apart(h, g, v)
{
    let c2 = tput(c, p, x, e, n); let pp = elem(v, p); let xx = elem(v, x);
    lemma_elems(v); lemma_cinv_put(c, p, x, e, n); lemma_rep_tail(h, v, c, p, fk);
    assert(repi(h, v, c, p, fk)); assert(repi(h, v, c, x, fk)); assert(cslot(c, x)); assert(cslot(c, p));
    assert(slot(v, pp)); assert(slot(v, xx));
    let kl = c[p].kids.len() as int;
    assert forall|i: int| 0 <= i < c2.len() implies #[trigger] repi(g, v, c2, i, fk) by {
        assert(repi(h, v, c, i, fk)); assert(cslot(c, i));
        let q = elem(v, i);
        if i == p { assert(g.kids[q] =~= tkids(v, c2, i)); }
        else if i == x { assert(tkids(v, c, i) =~= Seq::<int>::empty()); assert(tkids(v, c2, i) =~= Seq::<int>::empty()); assert(g.kids[pp][kl] == xx); assert(g.kids[pp].contains(xx)); }
        else { assert(tkids(v, c2, i) =~= tkids(v, c, i)); }
        if c[i].f && h.up[q] is Some {
            let u = h.up[q]->Some_0;
            if u == pp { let z = choose|z: int| 0 <= z < h.kids[pp].len() && h.kids[pp][z] == q; assert(g.kids[pp][z] == q); }
        }
        if !c[i].f && i != x && kl > 0 { assert(c[c[p].kids[kl - 1]].f); }
        if c[i].f && h.up[q] is None && kl > 0 { assert(h.up[elem(v, c[p].kids[kl - 1])] == Some(pp)); }
    }
    assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2[i].kids.len() implies #[trigger] wf_kid(g, elem(v, i), j) by { lemma_rep_put_kid(h, g, v, c, p, x, e, n, fk, i, j); }
}
pub proof fn lemma_rep_put_kid(h: H, g: H, v: int, c: Seq<Sl>, p: int, x: int, e: TEv, n: int, fk: bool, i: int, j: int)
    requires cinv(c), rep(h, v, c, fk), 0 <= p < c.len(), 0 < x < c.len(), c[p].f, !c[x].f, c[0].f, 0 <= i < c.len(), 0 <= j < tput(c, p, x, e, n)[i].kids.len(),
        appended(h, g, elem(v, p), elem(v, x), D::Piled{data: e.d, owner: v}, e.deg, e.desc), g.alive == h.alive, g.cnt == h.cnt
    ensures wf_kid(g, elem(v, i), j)
{
    let c2 = tput(c, p, x, e, n); let pp = elem(v, p); let xx = elem(v, x); let q = elem(v, i); let kl = c[p].kids.len() as int;
    lemma_elems(v); lemma_cinv_put(c, p, x, e, n); lemma_rep_tail(h, v, c, p, fk);
    assert(repi(h, v, c, p, fk)); assert(repi(h, v, c, x, fk)); assert(repi(h, v, c, i, fk)); assert(cslot(c, x)); assert(cslot(c, i)); assert(cslot(c, p));
    let k = h.kids[q];
    if i == x { }
    else if i == p && j == kl { assert(g.kids[pp] == h.kids[pp].push(xx)); }
    else {
        assert(wf_kid(h, q, j)); assert(cin(c, i, j));
        let z = c[i].kids[j];
        assert(k[j] == elem(v, z)); assert(z != x);
        assert(g.kids[q][j] == k[j]);
        if i == p {
            assert(g.kids[pp] == h.kids[pp].push(xx));
            if j < kl - 1 { assert(c[p].kids[j] != c[p].kids[kl - 1]); assert(cin(c, p, kl - 1)); }
        } else if kl > 0 { assert(cin(c, p, kl - 1)); assert(z != c[p].kids[kl - 1]); }
        if j > 0 { assert(cin(c, i, j - 1)); }
        if j + 1 < k.len() { assert(cin(c, i, j + 1)); }
    }
}
/// the first slot of an empty buffer is filled
pub proof fn lemma_rep_root(h: H, g: H, v: int, c: Seq<Sl>, s: Sl, gk: bool, fk: bool)
    requires rep(h, v, c, gk), c.len() > 0, forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == sl0(), s.f, s.kids.len() == 0, g.alive == h.alive, g.cnt == h.cnt, 
        forall|q: int| #[trigger] g.prev[q] == h.prev[q], forall|q: int| #[trigger] g.next[q] == h.next[q], forall|q: int| #[trigger] g.head[q] == h.head[q], forall|q: int| #[trigger] g.tail[q] == h.tail[q], forall|q: int| #[trigger] g.kids[q] == h.kids[q],
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.up[q] == h.up[q], g.up[elem(v, 0)] is None, g.deg[elem(v, 0)] == s.dg, g.desc[elem(v, 0)] == s.ds, g.data[elem(v, 0)] == (if fk { D::PiledNone{owner: v} } else { D::Piled{data: s.d, owner: v} }),
        forall|q: int| q != elem(v, 0) ==> #[trigger] g.data[q] == h.data[q], forall|q: int| q != elem(v, 0) ==> #[trigger] g.deg[q] == h.deg[q], forall|q: int| q != elem(v, 0) ==> #[trigger] g.desc[q] == h.desc[q]
    ensures rep(g, v, c.update(0, s), fk), apart(h, g, v)
{
    lemma_elems(v);
    let c2 = c.update(0, s);
    assert forall|i: int| 0 <= i < c2.len() implies #[trigger] repi(g, v, c2, i, fk) by { assert(repi(h, v, c, i, gk)); assert(c[i] == sl0()); assert(tkids(v, c2, i) =~= Seq::<int>::empty()); assert(tkids(v, c, i) =~= Seq::<int>::empty()); assert(g.kids[elem(v, i)] == h.kids[elem(v, i)]); }
    assert forall|i: int, j: int| 0 <= i < c2.len() && 0 <= j < c2[i].kids.len() implies #[trigger] wf_kid(g, elem(v, i), j) by { assert(c[i] == sl0()); }
    assert(slot(v, elem(v, 0)));
    assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g, p) by { assert(p != elem(v, 0)); }
}
pub proof fn lemma_rep_blank(h: H, v: int, c: Seq<Sl>, fk: bool)
    requires nslots(v) == c.len(), forall|p: int| slot(v, p) ==> #[trigger] blank(h, p), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == sl0()
    ensures rep(h, v, c, fk), apart(h, h, v)
{
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] repi(h, v, c, i, fk) by { assert(slot(v, elem(v, i))); assert(blank(h, elem(v, i))); assert(c[i] == sl0()); assert(tkids(v, c, i) =~= Seq::<int>::empty()); }
}
pub proof fn lemma_rep_at(h: H, v: int, c: Seq<Sl>, i: int, fk: bool)
    requires rep(h, v, c, fk), 0 <= i < c.len()
    ensures repi(h, v, c, i, fk), slot(v, elem(v, i)), 0 <= i < nslots(v)
{ assert(repi(h, v, c, i, fk)); }
pub proof fn lemma_blanks(n: int)
    ensures forall|i: int| 0 <= i < blanks(n).len() ==> #[trigger] blanks(n)[i] == sl0(), n >= 0 ==> blanks(n).len() == n
{ }
pub proof fn lemma_apart_trans(h: H, g: H, g2: H, v: int)
    requires apart(h, g, v), apart(g, g2, v)
    ensures apart(h, g2, v)
{ assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g2, p) by { assert(same_cell(g, g2, p)); assert(same_cell(h, g, p)); } }
pub proof fn lemma_run_zero(s: TS, v: Seq<TEv>)
    ensures arun(s, v.subrange(0, 0)) == s
{ assert(v.subrange(0, 0) =~= Seq::<TEv>::empty()); }
// ------------------------------------------------ the finished tree
/// node p of h carries the tree r: payloads, number, order and sizes of the children at every level
pub open spec fn isrose(h: H, p: int, r: Rose, fk: bool) -> bool decreases r {
    h.alive[p] && (if fk { fake(h.data[p]) } else { real(h.data[p]) && pay(h.data[p]) == r.data }) && isrose1(h, p, r.kids)
}
pub open spec fn isrose1(h: H, p: int, q: Seq<Rose>) -> bool decreases q {
    h.deg[p] == q.len() && h.desc[p] == rz_tots(q) && h.kids[p].len() == q.len() && forall|j: int| 0 <= j < q.len() ==> isrose(h, h.kids[p][j], #[trigger] q[j], false)
}
/// buffer v holds the tree r, each payload once
pub open spec fn tupled(h: H, v: int, r: Rose, tree: bool) -> bool { exists|s: TS| #[trigger] tupd(h, v, r, tree, s) }
pub open spec fn tupd(h: H, v: int, r: Rose, tree: bool, s: TS) -> bool { rep(h, v, s.c, !tree) && tfin(s.c, r) && srcok(s, tevs(r, tree), !tree) }
pub proof fn lemma_tupled(h: H, v: int, r: Rose, tree: bool, s: TS)
    requires rep(h, v, s.c, !tree), tfin(s.c, r), srcok(s, tevs(r, tree), !tree)
    ensures tupled(h, v, r, tree)
{ assert(tupd(h, v, r, tree, s)); }
pub proof fn lemma_isrose(h: H, v: int, c: Seq<Sl>, i: int, r: Rose, fk: bool)
    requires cinv(c), rep(h, v, c, fk), crose(c, i, r), fk ==> i >= 0
    ensures isrose(h, elem(v, i), r, fk && i == 0)
    decreases r
{
    assert(repi(h, v, c, i, fk));
    let p = elem(v, i);
    assert(crose1(c, i, r.kids));
    assert forall|j: int| 0 <= j < r.kids.len() implies isrose(h, h.kids[p][j], #[trigger] r.kids[j], false) by { assert(cin(c, i, j)); assert(crose(c, c[i].kids[j], r.kids[j])); lemma_isrose(h, v, c, c[i].kids[j], r.kids[j], fk); }
    assert(isrose1(h, p, r.kids));
}
pub proof fn lemma_csum_heap(h: H, v: int, c: Seq<Sl>, k: Seq<int>, m: Seq<int>, fk: bool)
    requires rep(h, v, c, fk), k.len() == m.len(), forall|j: int| 0 <= j < k.len() ==> 0 <= #[trigger] k[j] < c.len() && c[k[j]].f && m[j] == elem(v, k[j])
    ensures sumd(h.desc, m) == csum(c, k)
    decreases k.len()
{
    if k.len() > 0 {
        let k1 = k.drop_last(); let m1 = m.drop_last();
        assert forall|j: int| 0 <= j < k1.len() implies 0 <= #[trigger] k1[j] < c.len() && c[k1[j]].f && m1[j] == elem(v, k1[j]) by { assert(k1[j] == k[j]); assert(m1[j] == m[j]); }
        lemma_csum_heap(h, v, c, k1, m1, fk);
        let z = k[k.len() - 1]; assert(k.last() == z); assert(m.last() == m[k.len() - 1]); assert(repi(h, v, c, z, fk));
    }
}
pub proof fn lemma_tupd_node(h: H, v: int, r: Rose, tree: bool, s: TS, i: int)
    requires tupd(h, v, r, tree, s), 0 <= i < s.c.len()
    ensures wf_node(h, elem(v, i)), slot(v, elem(v, i)), piled(h.data[elem(v, i)]), own(h.data[elem(v, i)]) == v, h.cnt[elem(v, i)] == 1, h.alive[elem(v, i)]
{
    axiom_layout(v);
    let c = s.c; let p = elem(v, i); let fk = !tree; let k = c[i].kids;
    lemma_elems(v);
    assert(repi(h, v, c, i, fk)); assert(cslot(c, i)); assert(c[i].f && fin(c, i)); assert(slot(v, p));
    assert forall|j: int| 0 <= j < k.len() implies 0 <= #[trigger] k[j] < c.len() && c[k[j]].f && h.kids[p][j] == elem(v, k[j]) by { assert(cin(c, i, j)); }
    lemma_csum_heap(h, v, c, k, h.kids[p], fk);
    assert forall|a: int, b: int| 0 <= a < h.kids[p].len() && 0 <= b < h.kids[p].len() && a != b implies h.kids[p][a] != h.kids[p][b] by { assert(k[a] != k[b]); assert(0 <= k[a] < c.len() && 0 <= k[b] < c.len()); }
}
/// C10: the finished structure is well-formed, accounted for, and carries the notation
pub proof fn lemma_tupled_wf(h: H, g: H, v: int, r: Rose, tree: bool)
    requires wf(h), tupled(g, v, r, tree), outside(h, g, v)
    ensures wf(g), isrose(g, elem(v, 0), r, !tree), slot(v, elem(v, 0)), g.alive[elem(v, 0)], g.up[elem(v, 0)] is None, own(g.data[elem(v, 0)]) == v, piled(g.data[elem(v, 0)]), fake(g.data[elem(v, 0)]) == !tree
{
    let s = choose|s: TS| #[trigger] tupd(g, v, r, tree, s); let c = s.c;
    lemma_rz_nat(r, 0);
    lemma_tupd_node(g, v, r, tree, s, 0); lemma_isrose(g, v, c, 0, r, !tree); assert(repi(g, v, c, 0, !tree)); assert(c[0].f);
    assert forall|p: int| g.alive[p] implies #[trigger] wf_node(g, p) by {
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; lemma_tupd_node(g, v, r, tree, s, i); }
        else {
            assert(same_cell(h, g, p)); assert(wf_node(h, p)); lemma_outside_kids(h, g, v, p);
            assert forall|i: int| 0 <= i < h.kids[p].len() implies h.desc[#[trigger] h.kids[p][i]] == g.desc[h.kids[p][i]] by { assert(same_cell(h, g, h.kids[p][i])); }
            lemma_sumd_ext(h.desc, g.desc, h.kids[p]);
        }
    }
    assert forall|p: int, j: int| g.alive[p] && 0 <= j < g.kids[p].len() implies #[trigger] wf_kid(g, p, j) by {
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; assert(repi(g, v, c, i, !tree)); assert(wf_kid(g, elem(v, i), j)); }
        else { assert(same_cell(h, g, p)); lemma_outside_kids(h, g, v, p); assert(wf_kid(h, p, j)); assert(same_cell(h, g, h.kids[p][j])); }
    }
}
/// the payloads of the notation are objects of their own
pub open spec fn ownevs(h: H, v: Seq<TEv>) -> bool {
    (forall|i: int, q: int| 0 <= i < v.len() && (#[trigger] v[i]).k != 2 && h.alive[q] && #[trigger] real(h.data[q]) ==> pay(h.data[q]) != v[i].d)
    && (forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).k != 2 && (#[trigger] v[j]).k != 2 ==> v[i].d != v[j].d)
}
pub proof fn lemma_tupd_src(g: H, v: int, r: Rose, tree: bool, s: TS, p: int)
    requires tupd(g, v, r, tree, s), slot(v, p), real(g.data[p])
    ensures exists|i: int| 0 <= i < s.c.len() && #[trigger] elem(v, i) == p && s.c[i].f && !(!tree && i == 0) && pay(g.data[p]) == s.c[i].d
{
    let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p;
    assert(repi(g, v, s.c, i, !tree)); assert(s.c[i].f);
}
pub proof fn lemma_tupled_rel(h: H, g: H, v: int, r: Rose, tree: bool)
    requires rel(h), tupled(g, v, r, tree), outside(h, g, v), ownevs(h, tevs(r, tree))
    ensures rel(g)
{
    let s = choose|s: TS| #[trigger] tupd(g, v, r, tree, s); let c = s.c; let w = tevs(r, tree);
    lemma_slots_card(v); lemma_rz_nat(r, 0);
    assert forall|p: int, q: int| g.alive[p] && g.alive[q] && p != q && #[trigger] real(g.data[p]) && #[trigger] real(g.data[q]) implies pay(g.data[p]) != pay(g.data[q]) by { lemma_tupled_pay(h, g, v, r, tree, s, p, q); }
    assert forall|p: int| #[trigger] pok(g, p) by {
        assert(pok(h, p));
        if slot(v, p) { let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; lemma_tupd_node(g, v, r, tree, s, i); assert(slots(v).contains(p)); }
        else { assert(same_cell(h, g, p)); if h.alive[p] && piled(h.data[p]) { assert(own(h.data[p]) != v); } }
    }
    assert forall|x: int| #[trigger] vok(g, x) by {
        assert(vok(h, x));
        if x == v {
            assert forall|p: int| #[trigger] g.vlive[v].contains(p) implies g.alive[p] && piled(g.data[p]) && own(g.data[p]) == v && slot(v, p) by {
                assert(slot(v, p)); let i = choose|i: int| 0 <= i < nslots(v) && #[trigger] elem(v, i) == p; lemma_tupd_node(g, v, r, tree, s, i);
            }
        } else if h.valive[x] {
            assert(g.vlive[x] == h.vlive[x]); assert(g.vref[x] == h.vref[x]);
            assert forall|p: int| #[trigger] g.vlive[x].contains(p) implies g.alive[p] && piled(g.data[p]) && own(g.data[p]) == x && slot(x, p) by {
                assert(h.vlive[x].contains(p)); assert(!slot(v, p)); assert(same_cell(h, g, p));
            }
        }
    }
}
pub proof fn lemma_tupled_pay(h: H, g: H, v: int, r: Rose, tree: bool, s: TS, p: int, q: int)
    requires rel(h), tupd(g, v, r, tree, s), outside(h, g, v), ownevs(h, tevs(r, tree)), g.alive[p], g.alive[q], p != q, real(g.data[p]), real(g.data[q])
    ensures pay(g.data[p]) != pay(g.data[q])
{
    let c = s.c; let w = tevs(r, tree);
    if slot(v, p) {
        lemma_tupd_src(g, v, r, tree, s, p);
        let i = choose|i: int| 0 <= i < s.c.len() && #[trigger] elem(v, i) == p && s.c[i].f && !(!tree && i == 0) && pay(g.data[p]) == s.c[i].d;
        let a = c[i].src; assert(w[a].k != 2 && w[a].d == c[i].d);
        if slot(v, q) {
            lemma_tupd_src(g, v, r, tree, s, q);
            let j = choose|j: int| 0 <= j < s.c.len() && #[trigger] elem(v, j) == q && s.c[j].f && !(!tree && j == 0) && pay(g.data[q]) == s.c[j].d;
            let b = c[j].src; assert(w[b].k != 2 && w[b].d == c[j].d);
            if i < j { assert(a != b); } else { assert(c[j].src != c[i].src); }
            if a < b { assert(w[a].d != w[b].d); } else { assert(w[b].d != w[a].d); }
        } else { assert(same_cell(h, g, q)); assert(real(h.data[q])); }
    } else {
        assert(same_cell(h, g, p));
        if slot(v, q) {
            lemma_tupd_src(g, v, r, tree, s, q);
            let j = choose|j: int| 0 <= j < s.c.len() && #[trigger] elem(v, j) == q && s.c[j].f && !(!tree && j == 0) && pay(g.data[q]) == s.c[j].d;
            let b = c[j].src; assert(w[b].k != 2 && w[b].d == c[j].d); assert(real(h.data[p]));
        } else { assert(same_cell(h, g, q)); assert(real(h.data[p]) && real(h.data[q])); }
    }
}
pub proof fn lemma_apart_outside(h: H, g: H, g2: H, v: int)
    requires outside(h, g, v), apart(g, g2, v), g2.valive == g.valive, g2.vref == g.vref, g2.vlive == g.vlive
    ensures outside(h, g2, v)
{ assert forall|p: int| !slot(v, p) implies #[trigger] same_cell(h, g2, p) by { assert(same_cell(g, g2, p)); assert(same_cell(h, g, p)); } }
pub proof fn lemma_tupled_same(h: H, g: H, v: int, r: Rose, tree: bool)
    requires tupled(h, v, r, tree), forall|p: int| #[trigger] same_cell(h, g, p)
    ensures tupled(g, v, r, tree), apart(h, g, v)
{
    let s = choose|s: TS| #[trigger] tupd(h, v, r, tree, s); let c = s.c; let fk = !tree;
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] repi(g, v, c, i, fk) by {
        assert(repi(h, v, c, i, fk)); assert(same_cell(h, g, elem(v, i)));
        if h.up[elem(v, i)] is Some { assert(same_cell(h, g, h.up[elem(v, i)]->Some_0)); }
    }
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c[i].kids.len() implies #[trigger] wf_kid(g, elem(v, i), j) by {
        assert(wf_kid(h, elem(v, i), j)); assert(repi(h, v, c, i, fk)); assert(same_cell(h, g, elem(v, i))); assert(same_cell(h, g, h.kids[elem(v, i)][j]));
    }
    assert(tupd(g, v, r, tree, s));
}
