//! Depth-first cursors against an explicit Euler-tour position (C08, C09).
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Tree, TreeWalk};
fn show(v: &Option<Visit<P>>) -> Option<(char, i32)> { v.as_ref().map(|v| if v.node().data().v() != (match v { Visit::Begin(n) | Visit::End(n) | Visit::Leaf(n) => n.data().v() }) { ('?', v.node().data().v()) } else { match v { Visit::Begin(n) => ('B', n.data().v()), Visit::End(n) => ('E', n.data().v()), Visit::Leaf(n) => ('L', n.data().v()) } }) }
fn euler(k: &[M], out: &mut Vec<(char, i32)>) { for m in k { if m.k.is_empty() { out.push(('L', m.v)) } else { out.push(('B', m.v)); euler(&m.k, out); out.push(('E', m.v)) } } }
enum W { T(TreeWalk<P>), F(ForestWalk<P>) }
macro_rules! w { ($s:expr, $x:ident => $e:expr) => { match $s { W::T($x) => $e, W::F($x) => $e } } }
fn start(ch: &mut Ch) -> (W, Vec<M>, bool) {
    let mut next = 0;
    if ch.n(2) == 0 { let m = gen(ch, 9, &mut next); let t = build(ch, &m); ch.say(|| format!("TreeWalk on {}", m.show())); (W::T(TreeWalk::from(t)), vec![m], true) }
    else { let k = genf(ch, 8, &mut next); let f = buildf(ch, &k); ch.say(|| format!("ForestWalk on {}", showf(&k))); (W::F(ForestWalk::from(f)), k, false) }
}
fn back(w: W, k: &[M]) -> R {
    let fl = LINKS | LIST | SIZES;
    match w { W::T(w) => { let t: Tree<P> = w.into(); check(&t, &k[0], None, fl) } W::F(w) => { let f: Forest<P> = w.into(); checkf(&f, k, fl) } }
}
/// the complete tour, its end and its restart, by forward()+get() and by next()
pub fn tour(ch: &mut Ch, _p: &str) -> R {
    let (mut s, k, _) = start(ch);
    let mut e = vec![]; euler(&k, &mut e);
    let rounds = 1 + ch.n(3);
    for r in 0..rounds {
        let by_next = ch.n(2) == 0;
        for i in 0..=e.len() {
            let g = if i > 0 && by_next { w!(&mut s, x => show(&x.next())) } else { if i > 0 { w!(&mut s, x => x.forward()) } w!(&s, x => show(&x.get())) };
            if g != e.get(i).cloned() { return Err(format!("round {}: visit {} is {:?}, expected {:?}", r, i, g, e.get(i))) }
            if w!(&s, x => show(&x.get())) != g { return Err("get() differs from the visit returned".into()) }
        }
        for _ in 0..ch.n(3) { if w!(&mut s, x => x.next().is_some()) { return Err("visit after completion".into()) } }
        w!(&mut s, x => x.revisit());
        if k.is_empty() && w!(&s, x => x.get().is_some()) { return Err("visit in an empty forest".into()) }
    }
    if !e.is_empty() { let g = w!(&s, x => show(&x.get())); if g != Some(e[0]) { return Err(format!("restart visits {:?}, expected {:?}", g, e[0])) } }
    back(s, &k)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum D { Up, Down, Right }
/// specification of the cursor: position as a path of child indices plus what is reported
struct S<'a> { k: &'a [M], tree: bool, pos: Vec<usize>, beyond: bool, vis: Option<char>, dir: D, fin: bool }
impl<'a> S<'a> {
    fn list(&self, p: &[usize]) -> &'a [M] { let mut k = self.k; for i in p { k = &k[*i].k } k }
    fn node(&self) -> Option<&'a M> { if self.fin || self.beyond { None } else { let (l, p) = self.pos.split_last()?; self.list(p).get(*l) } }
    fn enter(&mut self) { self.vis = self.node().map(|m| if m.k.is_empty() { 'L' } else { 'B' }) }
    fn get(&self) -> Option<(char, i32)> { match (self.vis, self.node()) { (Some(c), Some(m)) => Some((c, m.v)), _ => None } }
    /// end position within the current sibling list
    fn climb(&mut self) { self.pos.pop(); if self.pos.is_empty() { self.fin = true; self.beyond = false; self.vis = None; self.dir = D::Down } else { self.beyond = false; self.vis = Some('E'); self.dir = D::Right } }
    fn forward(&mut self) {
        if self.fin { return }
        if self.beyond || self.dir == D::Up { self.climb(); return }
        let leaf = self.node().map(|m| m.k.is_empty()).unwrap_or(true);
        if self.dir == D::Down && !leaf { self.pos.push(0); self.enter(); self.dir = D::Down; return }
        // next sibling or up
        let n = self.list(&self.pos[..self.pos.len() - 1]).len();
        let l = self.pos.len() - 1;
        if self.pos[l] + 1 < n && !(self.tree && l == 0) { self.pos[l] += 1; self.enter(); self.dir = D::Down } else { self.climb() }
    }
    fn to_parent(&mut self) { if self.fin || self.pos.len() <= 1 { self.pos.clear(); self.fin = true; self.beyond = false; self.vis = None; self.dir = D::Down } else { self.pos.pop(); self.beyond = false; self.vis = Some('E'); self.dir = D::Right } }
    /// returns whether the move is answered with a visit
    fn to_sib(&mut self, n: usize) -> Option<(char, i32)> {
        if self.fin || self.beyond || self.node().is_none() { return None }
        let l = self.pos.len() - 1; let len = if self.tree && l == 0 { 1 } else { self.list(&self.pos[..l]).len() };
        if self.pos[l] + n >= len { self.beyond = true; self.vis = None; return None }
        self.pos[l] += n; self.enter(); self.dir = D::Down; self.get()
    }
    fn to_child(&mut self, n: usize) -> Option<(char, i32)> {
        if self.fin || self.beyond || self.node().is_none() { return None }
        if self.node().unwrap().k.is_empty() { self.dir = D::Right; return None }
        self.pos.push(0); self.enter(); self.dir = D::Down; self.to_sib(n)
    }
    fn revisit(&mut self) {
        if self.k.is_empty() { return }
        if self.fin { self.fin = false; self.pos = vec![0]; self.beyond = false }
        if self.beyond { return }
        self.enter(); self.dir = D::Down
    }
    fn parent(&self) -> Option<i32> { if self.fin || self.pos.len() < 2 { None } else { let mut k = self.k; let mut v = None; for i in &self.pos[..self.pos.len() - 1] { v = Some(k[*i].v); k = &k[*i].k } v } }
}
pub fn run(ch: &mut Ch, _p: &str) -> R {
    let (mut s, k, tree) = start(ch);
    let mut m = S { k: &k, tree, pos: vec![0], beyond: false, vis: None, dir: D::Down, fin: false };
    if k.is_empty() { m.fin = true } else { m.enter() }
    if w!(&s, x => show(&x.get())) != m.get() { return Err("first visit differs".into()) }
    let mut steps = 0; let mut answered_missed = false;
    while !ch.done() && steps < 60 {
        steps += 1;
        let o = ch.n(9);
        let a = ch.n(4);
        let desc = match o { 0 | 1 => "forward()".to_string(), 2 => "next()".into(), 3 => "to_parent()".into(), 4 => format!("to_child({})", a), 5 => format!("to_sib({})", a), 6 => "get_parent()".into(), 7 => "revisit()".into(), _ => "get()".into() };
        ch.say(|| format!("{}    [expect position {:?} beyond={} {:?}]", desc, m.pos, m.beyond, m.get()));
        let (g, e) = match o {
            0 | 1 => { w!(&mut s, x => x.forward()); m.forward(); (w!(&s, x => show(&x.get())), m.get()) }
            2 => { let g = w!(&mut s, x => show(&x.next())); m.forward(); (g, m.get()) }
            3 => { let g = w!(&mut s, x => show(&x.to_parent())); m.to_parent(); (g, m.get()) }
            4 => { let g = w!(&mut s, x => show(&x.to_child(a))); let e = m.to_child(a); answered_missed = true; (g, e) }
            5 => { let g = w!(&mut s, x => show(&x.to_sib(a))); let e = m.to_sib(a); (g, e) }
            6 => { let g = w!(&s, x => x.get_parent().map(|n| ('P', n.data().v()))); (g, m.parent().map(|v| ('P', v))) }
            7 => { w!(&mut s, x => x.revisit()); m.revisit(); (w!(&s, x => show(&x.get())), m.get()) }
            _ => (w!(&s, x => show(&x.get())), m.get()),
        };
        if g != e { return Err(format!("{} gives {:?}, expected {:?}", desc, g, e)) }
        let (g, e) = (w!(&s, x => show(&x.get())), m.get());
        if g != e { return Err(format!("after {} the cursor is at {:?}, expected {:?}", desc, g, e)) }
    }
    let _ = answered_missed;
    // whatever happened, the walk can be finished
    let mut e = vec![]; euler(&k, &mut e);
    for _ in 0..e.len() + 2 { w!(&mut s, x => x.forward()); m.forward(); let g = w!(&s, x => show(&x.get())); if g != m.get() { return Err(format!("finishing the walk visits {:?}, expected {:?}", g, m.get())) } }
    if w!(&s, x => x.get().is_some()) { return Err("the walk does not end".into()) }
    back(s, &k)
}
