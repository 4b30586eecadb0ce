//! Tuple notation: every shape in tuples_gen.rs, built and traversed in all ways (C10, C11).
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use trees::tuple::Visit;
use trees::{Forest, Size, Tree, TupleForest, TupleTree};
pub fn run(ch: &mut Ch, p: &str) -> R { crate::tuples_gen::dispatch(ch, p) }
type Ev = Vec<(char, i32, Option<(usize, usize)>)>;
fn ev(v: Visit<P>, s: Option<Size>, out: &mut Ev) { let s = s.map(|s| (s.degree, s.descendants)); match v { Visit::Branch(p) => out.push(('B', p.v(), s)), Visit::Leaf(p) => out.push(('L', p.v(), s)), Visit::Frame => out.push(('F', -1, s)) } }
fn pre(m: &M, out: &mut Ev) { let s = Some((m.k.len(), m.count() - 1)); if m.k.is_empty() { out.push(('L', m.v, s)) } else { out.push(('B', m.v, s)); for c in &m.k { pre(c, out) } out.push(('F', -1, s)) } }
fn post(m: &M, out: &mut Ev) { let s = Some((m.k.len(), m.count() - 1)); if m.k.is_empty() { out.push(('L', m.v, s)) } else { out.push(('F', -1, s)); for c in &m.k { post(c, out) } out.push(('B', m.v, s)) } }
fn nosize(e: &Ev) -> Ev { e.iter().map(|x| (x.0, x.1, None)).collect() }
fn height(m: &M) -> usize { 1 + m.k.iter().map(height).max().unwrap_or(0) }
fn below(m: &M, lev: usize) -> usize { if lev == 0 { m.k.len() } else { m.k.iter().map(|c| below(c, lev - 1)).sum() } }
fn cmp(what: &str, g: Ev, w: Ev) -> R { if g == w { Ok(()) } else { Err(format!("{} reports {:?}, expected {:?}", what, g, w)) } }
pub fn tree<S, X: TupleTree<P, S>>(ch: &mut Ch, prop: &str, m: &M, mk: impl Fn() -> X) -> R {
    ch.say(|| format!("tuple of tree {}", m.show()));
    if prop != "C11" {
        let t: Tree<P> = Tree::from_tuple(mk()); check(&t, m, None, 7)?;
        let back = ch.n(2) == 0; teardown(t, m, back, 7)?;
        let mut t: Tree<P> = Tree::from_tuple(mk()); let f = t.abandon(); checkf(&f, &m.k, 7)?;
    }
    if prop != "C10" {
        let mut e = vec![]; pre(m, &mut e);
        let mut g = vec![]; mk().preorder(&mut |v| ev(v, None, &mut g)); cmp("preorder", g, nosize(&e))?;
        let mut g = vec![]; mk().preorder_with_size_hint(&mut |v, s| ev(v, Some(s), &mut g)); cmp("preorder_with_size_hint", g, e)?;
        let mut e = vec![]; post(m, &mut e);
        let mut g = vec![]; mk().postorder(&mut |v| ev(v, None, &mut g)); cmp("postorder", g, nosize(&e))?;
        let mut g = vec![]; mk().postorder_with_size_hint(&mut |v, s| ev(v, Some(s), &mut g)); cmp("postorder_with_size_hint", g, e)?;
        let s = X::SIZE; if s.degree != m.k.len() || s.descendants != m.count() - 1 { return Err(format!("SIZE is {:?}", s)) }
        if X::height() != height(m) { return Err(format!("height is {}, expected {}", X::height(), height(m))) }
        for l in 0..height(m) + 1 { if X::descendants(l) != below(m, l) { return Err(format!("descendants({}) is {}, expected {}", l, X::descendants(l), below(m, l))) } }
    }
    Ok(())
}
pub fn forest<S, X: TupleForest<P, S>>(ch: &mut Ch, prop: &str, k: &[M], mk: impl Fn() -> X) -> R {
    ch.say(|| format!("tuple of forest {}", showf(k)));
    if prop != "C11" {
        let f: Forest<P> = Forest::from_tuple(mk()); checkf(&f, k, 7)?;
        let back = ch.n(2) == 0; teardownf(f, k, back, 7)?;
    }
    if prop != "C10" {
        let mut e = vec![]; for m in k { pre(m, &mut e) }
        let mut g = vec![]; mk().preorder(&mut |v| ev(v, None, &mut g)); cmp("preorder", g, nosize(&e))?;
        let mut g = vec![]; mk().preorder_with_size_hint(&mut |v, s| ev(v, Some(s), &mut g)); cmp("preorder_with_size_hint", g, e)?;
        let mut e = vec![]; for m in k { post(m, &mut e) }
        let mut g = vec![]; mk().postorder(&mut |v| ev(v, None, &mut g)); cmp("postorder", g, nosize(&e))?;
        let mut g = vec![]; mk().postorder_with_size_hint(&mut |v, s| ev(v, Some(s), &mut g)); cmp("postorder_with_size_hint", g, e)?;
        let s = X::SIZE; if s.degree != k.len() || s.descendants != countf(k) { return Err(format!("SIZE is {:?}", s)) }
        let h = k.iter().map(height).max().unwrap_or(0);
        if X::height() != h { return Err(format!("height is {}, expected {}", X::height(), h)) }
        let d = M { v: 0, k: k.to_vec() };
        for l in 0..h + 1 { if X::descendants(l) != below(&d, l) { return Err(format!("descendants({}) is {}, expected {}", l, X::descendants(l), below(&d, l))) } }
    }
    Ok(())
}
