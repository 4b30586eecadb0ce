//! Reference model: ordered trees of integers; builders and comparisons.
use crate::track::P;
use crate::{Ch, R};
use trees::{Forest, Node, Tree};
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub v: i32, pub k: Vec<M> }
impl M {
    pub fn leaf(v: i32) -> M { M { v, k: vec![] } }
    pub fn count(&self) -> usize { 1 + self.k.iter().map(|x| x.count()).sum::<usize>() }
    pub fn at(&mut self, p: &[usize]) -> &mut M { let mut m = self; for i in p { m = &mut m.k[*i] } m }
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut out = vec![vec![]]; let mut i = 0;
        while i < out.len() { let p: Vec<usize> = out[i].clone(); let n = { let mut m = self; for j in &p { m = &m.k[*j] } m.k.len() }; for j in 0..n { let mut q = p.clone(); q.push(j); out.push(q) } i += 1 }
        out
    }
    pub fn show(&self) -> String { if self.k.is_empty() { format!("{}", self.v) } else { format!("{}( {} )", self.v, self.k.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")) } }
    pub fn pre(&self, f: &mut impl FnMut(&M, usize), d: usize) { f(self, d); for c in &self.k { c.pre(f, d + 1) } }
}
pub fn showf(k: &[M]) -> String { if k.is_empty() { "()".into() } else { format!("( {} )", k.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")) } }
pub fn countf(k: &[M]) -> usize { k.iter().map(|x| x.count()).sum() }
/// random model tree: parent of node i is some earlier node
pub fn gen(ch: &mut Ch, max: usize, next: &mut i32) -> M {
    if HUGE.load(Relaxed) != 0 && (HUGE_FIRST.swap(false, Relaxed) || ch.n(6) == 0) { return huge(ch, next) }
    let r = ch.n(max + 1);
    if r == max { return big(ch, max, next) }
    let n = 1 + r;
    let mut m = M::leaf(*next); *next += 1;
    for _ in 1..n {
        let ps = m.paths();
        let p = ps[ch.n(ps.len())].clone();
        m.at(&p).k.push(M::leaf(*next)); *next += 1;
    }
    m
}
/// sizes past the range of narrow counters: wide or shallow trees of HUGE nodes and some more
pub static HUGE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static HUGE_FIRST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
use std::sync::atomic::Ordering::Relaxed;
fn huge(ch: &mut Ch, next: &mut i32) -> M {
    let n = HUGE.load(Relaxed) + ch.n(3) - 1;
    let shape = ch.n(5);
    let mut leaf = || { let m = M::leaf(*next); *next += 1; m };
    let mut m = leaf();
    match shape {
        0 => for _ in 0..n { m.k.push(leaf()) },
        1 => { for _ in 0..n / 256 { let mut c = leaf(); for _ in 0..256 { c.k.push(leaf()) } m.k.push(c) } for _ in 0..n % 256 { m.k.push(leaf()) } }
        2 => { let mut c = leaf(); for _ in 0..n { c.k.push(leaf()) } m.k.push(leaf()); m.k.push(c); m.k.push(leaf()) }
        3 => { // a chain with a wide end
            let mut c = leaf(); for _ in 0..n { c.k.push(leaf()) }
            for _ in 0..if n > 1000 { 5 } else { 260 } { let mut u = leaf(); u.k.push(c); if u.v % 3 == 0 { u.k.push(leaf()) } c = u }
            m.k.push(c)
        }
        _ => { for i in 0..n / 3 { let mut c = leaf(); c.k.push(leaf()); if i % 2 == 0 { c.k.insert(0, leaf()) } m.k.push(c) } let mut c = leaf(); for _ in 0..n / 2 { c.k.push(leaf()) } m.k.push(c) }
    }
    m
}
/// a larger tree of a regular or pseudo-random shape, from few choices
fn big(ch: &mut Ch, max: usize, next: &mut i32) -> M {
    let shape = ch.n(5); let n = [4, 5, 6, 7, 8, 9, 17, 33][if max < 5 { ch.n(5) } else { ch.n(8) }];
    let mut s = ch.n(1 << 16) as u64 + 1;
    let mut m = M::leaf(*next); *next += 1;
    let mut up = vec![vec![]];
    for i in 1..n {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let p: Vec<usize> = match shape { 0 => vec![], 1 => up[i - 1].clone(), 2 => up[(i - 1) / 2].clone(), 3 => up[(i - 1) / 2 * 2].clone(), _ => up[(s >> 33) as usize % i].clone() };
        let k = &mut m.at(&p).k; let mut q = p.clone(); q.push(k.len());
        k.push(M::leaf(*next)); *next += 1; up.push(q);
    }
    m
}
pub fn genf(ch: &mut Ch, max: usize, next: &mut i32) -> Vec<M> {
    let mut m = gen(ch, max + 1, next);
    std::mem::take(&mut m.k)
}
pub fn scat(m: &M) -> Tree<P> { let mut t = Tree::new(P::new(m.v)); for c in &m.k { t.push_back(scat(c)) } t }
pub fn scatf(k: &[M]) -> Forest<P> { let mut f = Forest::new(); for c in k { f.push_back(scat(c)) } f }
/// builds the tree in one of several storage forms
pub fn build(ch: &mut Ch, m: &M) -> Tree<P> {
    match ch.n(7) {
        0 | 1 => scat(m),
        5 => tup(m).unwrap_or_else(|| scat(m)),
        2 => Tree::from(scat(m).into_bfs()),
        3 => scat(m).deep_clone(),
        4 => { // piled root, scattered children
            let mut t: Tree<P> = Tree::from(scat(&M::leaf(m.v)).into_bfs());
            for c in &m.k { t.push_back(build_shallow(c, 0)) }
            t
        }
        _ => { // scattered root, children distributed from one piled forest
            let mut f: Forest<P> = Forest::from(scatf(&m.k).into_bfs());
            let mut t = Tree::new(P::new(m.v));
            while let Some(c) = f.pop_front() { t.push_back(c) }
            t
        }
    }
}
/// tuple-built, for some small shapes
fn tup(m: &M) -> Option<Tree<P>> {
    let p = |m: &M| P::new(m.v);
    let sh: String = { fn s(m: &M, o: &mut String) { o.push('('); for c in &m.k { s(c, o) } o.push(')') } let mut o = String::new(); s(m, &mut o); o };
    let k = &m.k;
    Some(match &sh[..] {
        "()" => Tree::from_tuple((p(m),)),
        "(())" => Tree::from_tuple((p(m), p(&k[0]))),
        "(()())" => Tree::from_tuple((p(m), p(&k[0]), p(&k[1]))),
        "((()))" => Tree::from_tuple((p(m), (p(&k[0]), p(&k[0].k[0])))),
        "(()()())" => Tree::from_tuple((p(m), p(&k[0]), p(&k[1]), p(&k[2]))),
        "(()(()))" => Tree::from_tuple((p(m), p(&k[0]), (p(&k[1]), p(&k[1].k[0])))),
        "((())())" => Tree::from_tuple((p(m), (p(&k[0]), p(&k[0].k[0])), p(&k[1]))),
        "((()()))" => Tree::from_tuple((p(m), (p(&k[0]), p(&k[0].k[0]), p(&k[0].k[1])))),
        "(((())))" => Tree::from_tuple((p(m), (p(&k[0]), (p(&k[0].k[0]), p(&k[0].k[0].k[0]))))),
        "((())(()))" => Tree::from_tuple((p(m), (p(&k[0]), p(&k[0].k[0])), (p(&k[1]), p(&k[1].k[0])))),
        "((()())(()()))" => Tree::from_tuple((p(m), (p(&k[0]), p(&k[0].k[0]), p(&k[0].k[1])), (p(&k[1]), p(&k[1].k[0]), p(&k[1].k[1])))),
        _ => return None,
    })
}
fn tupf(k: &[M]) -> Option<Forest<P>> {
    let p = |m: &M| P::new(m.v); let n = |m: &M| m.k.len(); let leafy = |m: &M| m.k.iter().all(|c| c.k.is_empty());
    if !k.iter().all(leafy) { return None }
    Some(match &k.iter().map(n).collect::<Vec<_>>()[..] {
        [0] => Forest::from_tuple(((p(&k[0]),),)),
        [0, 0] => Forest::from_tuple((p(&k[0]), p(&k[1]))),
        [0, 1] => Forest::from_tuple((p(&k[0]), (p(&k[1]), p(&k[1].k[0])))),
        [1, 0] => Forest::from_tuple(((p(&k[0]), p(&k[0].k[0])), p(&k[1]))),
        [0, 0, 0] => Forest::from_tuple((p(&k[0]), p(&k[1]), p(&k[2]))),
        [2, 0] => Forest::from_tuple(((p(&k[0]), p(&k[0].k[0]), p(&k[0].k[1])), p(&k[1]))),
        _ => return None,
    })
}
fn build_shallow(m: &M, mode: usize) -> Tree<P> { if mode == 0 { Tree::from(scat(m).into_bfs()) } else { scat(m) } }
pub fn buildf(ch: &mut Ch, k: &[M]) -> Forest<P> {
    match ch.n(5) {
        0 | 1 => scatf(k),
        3 => tupf(k).unwrap_or_else(|| scatf(k)),
        2 => Forest::from(scatf(k).into_bfs()),
        _ => { let mut t = Tree::from(scat(&M { v: -1, k: k.to_vec() }).into_bfs()); let f = t.abandon(); f }
    }
}
pub const LINKS: u32 = 1; pub const LIST: u32 = 2; pub const SIZES: u32 = 4;
pub fn flags(prop: &str) -> u32 { match prop { "C01" => LINKS, "C02" => LIST, "C03" => SIZES, _ => LINKS | LIST | SIZES } }
pub fn eqp<T>(a: Option<&T>, b: Option<&T>) -> bool { a.map(|x| x as *const T) == b.map(|x| x as *const T) }
pub fn check(n: &Node<P>, m: &M, up: Option<&Node<P>>, fl: u32) -> R {
    if n.data().v() != m.v && fl & LIST != 0 { return Err(format!("node {} found where {} is expected", n.data().v(), m.v)) }
    if fl & LINKS != 0 && !eqp(n.parent(), up) { return Err(format!("parent of node {} is wrong", m.v)) }
    if fl & SIZES != 0 {
        if n.degree() != m.k.len() { return Err(format!("degree of node {} is {}, it has {} children", m.v, n.degree(), m.k.len())) }
        if n.node_count() != m.count() { return Err(format!("node_count of node {} is {}, its subtree has {} nodes", m.v, n.node_count(), m.count())) }
    }
    if fl & LINKS != 0 && n.degree() != n.iter().count() { return Err(format!("children of node {} end after {}, degree is {}", m.v, n.iter().count(), n.degree())) }
    kids(n.iter(), n.iter(), n.front(), n.back(), n.has_no_child(), &m.k, Some(n), m.v, fl)
}
pub fn checkf(f: &Forest<P>, k: &[M], fl: u32) -> R {
    if fl & SIZES != 0 {
        if f.degree() != k.len() { return Err(format!("degree of the forest is {}, it has {} trees", f.degree(), k.len())) }
        if f.node_count() != countf(k) { return Err(format!("node_count of the forest is {}, it has {} nodes", f.node_count(), countf(k))) }
    }
    kids(f.iter(), f.iter(), f.front(), f.back(), f.has_no_child(), k, None, -1, fl)
}
fn kids(it: trees::Iter<P>, it2: trees::Iter<P>, fr: Option<&Node<P>>, ba: Option<&Node<P>>, none: bool, k: &[M], up: Option<&Node<P>>, v: i32, fl: u32) -> R {
    if fl & (LINKS | LIST) != 0 {
        if none != k.is_empty() { return Err(format!("has_no_child of {} is {}, it has {} children", v, none, k.len())) }
        let ch: Vec<&Node<P>> = it2.take(k.len() + 8).collect();
        if ch.len() != k.len() { return Err(format!("{} children of {} visited, {} expected", ch.len(), v, k.len())) }
        if !eqp(fr, ch.first().cloned()) || !eqp(ba, ch.last().cloned()) { return Err(format!("front/back of {} is not its first/last child", v)) }
    }
    let mut i = 0;
    for c in it {
        if i >= k.len() { break }
        check(c, &k[i], up, fl)?; i += 1;
    }
    Ok(())
}
/// takes the tree apart from the back (or front), comparing order: the backward links are observable this way
pub fn teardown(t: Tree<P>, m: &M, back: bool, fl: u32) -> R { teardown_own(t, m.clone(), back, fl) }
fn teardown_own(mut t: Tree<P>, m: M, back: bool, fl: u32) -> R {
    let v = m.v; let mut cnt = countf(&m.k); let mut k: std::collections::VecDeque<M> = m.k.into();
    loop {
        if fl & SIZES != 0 && (t.degree() != k.len() || t.node_count() != 1 + cnt) { return Err(format!("sizes of {} wrong while popping", v)) }
        let (c, e) = if back { (t.pop_back(), k.pop_back()) } else { (t.pop_front(), k.pop_front()) };
        match (c, e) {
            (None, None) => return Ok(()),
            (Some(c), Some(e)) => {
                cnt -= e.count();
                if fl & LIST != 0 && c.data().v() != e.v { return Err(format!("{} popped, {} expected", c.data().v(), e.v)) }
                if fl & LINKS != 0 && c.parent().is_some() { return Err(format!("popped tree {} has a parent", e.v)) }
                if fl & LINKS != 0 && t.parent().is_some() { return Err(format!("tree {} has a parent", v)) }
                check(&c, &e, None, fl)?;
                teardown_own(c, e, !back, fl)?;
            }
            (a, b) => return Err(format!("popping the children of {}: got {}, expected {}", v, a.is_some(), b.is_some())),
        }
    }
}
pub fn teardownf(mut f: Forest<P>, k: &[M], back: bool, fl: u32) -> R {
    let mut cnt = countf(k); let mut k: std::collections::VecDeque<M> = k.to_vec().into();
    loop {
        if fl & SIZES != 0 && (f.degree() != k.len() || f.node_count() != cnt) { return Err("sizes of forest wrong while popping".into()) }
        let (c, e) = if back { (f.pop_back(), k.pop_back()) } else { (f.pop_front(), k.pop_front()) };
        match (c, e) {
            (None, None) => return Ok(()),
            (Some(c), Some(e)) => { cnt -= e.count(); check(&c, &e, None, fl)?; teardown_own(c, e, !back, fl)?; }
            (a, b) => return Err(format!("popping the trees of a forest: got {}, expected {}", a.is_some(), b.is_some())),
        }
    }
}
