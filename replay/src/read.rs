//! Child iterators, breadth-first iteration, rebuilding, comparison, printing, release.
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use trees::bfs::{BfsForest, BfsTree};
use trees::{Forest, Node, Size, Tree};
fn path(ch: &mut Ch, m: &M) -> Vec<usize> { let ps = m.paths(); let i = ch.n(ps.len()); ps[i].clone() }
fn at<'a>(t: &'a Tree<P>, p: &[usize]) -> &'a Node<P> { let mut n = t.root(); for i in p { n = n.iter().nth(*i).expect("child reported by the model not found") } n }
/// builds trees and forests in every storage form and checks them
pub fn build(ch: &mut Ch, prop: &str) -> R {
    let fl = flags(prop); let mut next = 0;
    let m = gen(ch, 9, &mut next); let t = crate::model::build(ch, &m);
    ch.say(|| format!("tree {}", m.show()));
    check(&t, &m, None, fl)?;
    let k = genf(ch, 8, &mut next); let f = buildf(ch, &k);
    ch.say(|| format!("forest {}", showf(&k)));
    checkf(&f, &k, fl)?;
    let back = ch.n(2) == 0;
    teardown(t, &m, back, fl)?; teardownf(f, &k, back, fl)
}
/// C05: partial consumption and splitting of everything that owns nodes
pub fn release(ch: &mut Ch, _prop: &str) -> R {
    let mut next = 0;
    let m = gen(ch, 9, &mut next); let mut t = crate::model::build(ch, &m);
    let mode = ch.n(11);
    ch.say(|| format!("tree {} released in mode {}", m.show(), mode));
    match mode {
        0 => drop(t),
        1 => { let mut it = if ch.n(2) == 0 { t.into_iter() } else { t.abandon().into_iter() }; let n = ch.n(m.k.len() + 1); for _ in 0..n { drop(it.next()) } }
        2 => { let b = t.into_bfs(); let n = ch.n(m.count() + 2); let mut v = vec![]; for (i, x) in b.iter.enumerate() { if i >= n { break } v.push(x.data) } }
        3 => { let f = t.abandon(); if ch.n(2) == 0 { drop(t); drop(f) } else { drop(f); drop(t) } }
        4 => { let f = t.abandon(); let b = f.into_bfs(); let n = ch.n(m.count() + 1); for (i, x) in b.iter.enumerate() { if i >= n { break } drop(x.data) } }
        5 => { let u: Tree<P> = Tree::from(t.into_bfs()); drop(u) }
        6 => { let u = t.deep_clone(); if ch.n(2) == 0 { drop(t); drop(u) } else { drop(u); drop(t) } }
        7 => { let f = t.deep_clone_forest(); drop(t); let mut it = f.into_iter(); let _a = it.next(); let _b = it.next(); }
        8 => { let mut u = Tree::new(P::new(900)); u.push_back(t); let mut a = u.abandon(); let b = a.pop_front(); drop(a); drop(u); drop(b) }
        9 => { // distribute a piled forest over several owners, dropped in a chosen order
            let mut f: Forest<P> = Forest::from(t.abandon().into_bfs());
            let mut owners: Vec<Tree<P>> = vec![]; let mut loose: Vec<Tree<P>> = vec![];
            while let Some(c) = f.pop_back() { if ch.n(2) == 0 { let mut o = Tree::new(P::new(901)); o.push_front(c); owners.push(o) } else { loose.push(c) } }
            if ch.n(2) == 0 { drop(f); }
            while !owners.is_empty() { let i = ch.n(owners.len()); drop(owners.swap_remove(i)); if !loose.is_empty() { let j = ch.n(loose.len()); drop(loose.swap_remove(j)) } }
            drop(t);
        }
        _ => { // a walk holds the tree
            let w = trees::TreeWalk::from(t); if ch.n(2) == 0 { drop(w) } else { let t: Tree<P> = w.into(); drop(t) }
        }
    }
    Ok(())
}
fn vals(k: &[M]) -> Vec<i32> { k.iter().map(|m| m.v).collect() }
/// the provided methods of an iterator agree with its sequence of items
pub fn adapt<I: Iterator>(ch: &mut Ch, exact: bool, mut mk: impl FnMut() -> I, val: impl Fn(I::Item) -> i32, want: &[i32]) -> R {
    let n = want.len(); let bad = |w: &str, g: String| Err(format!("{} gives {}, expected from {:?}", w, g, want));
    let pos = [0, 1, n.saturating_sub(1), n, n + 1, n + 3, ch.n(n + 1), ch.n(n + 1)];
    let a = pos[ch.n(8)]; let b = pos[ch.n(8)];
    let hint = |it: &I, rest: usize| -> R { if exact && it.size_hint() != (rest, Some(rest)) { Err(format!("size_hint {:?}, {} items to come", it.size_hint(), rest)) } else { Ok(()) } };
    match ch.n(10) {
        0 => { // nth, twice, then the rest
            let mut it = mk(); let mut at = 0;
            for k in [a, b] { let g = it.nth(k).map(&val); at = (at + k).min(n); if g != want.get(at).cloned() { return bad("nth", format!("{:?}", g)) } at = (at + 1).min(n); hint(&it, n - at)?; }
            let r: Vec<i32> = it.by_ref().map(&val).collect(); if r != want[at..] { return bad("the rest after nth", format!("{:?}", r)) }
            if it.next().is_some() { return bad("the end", "an item".into()) } hint(&it, 0)
        }
        1 => { let mut it = mk(); for _ in 0..a { it.next(); } let g = it.last().map(&val); if g != want[a.min(n)..].last().cloned() { return bad("last", format!("{:?}", g)) } Ok(()) }
        2 => { let mut it = mk(); for _ in 0..a { it.next(); } let g = it.count(); if g != n - a.min(n) { return bad("count", g.to_string()) } Ok(()) }
        3 => { let g = mk().fold(vec![], |mut v, x| { v.push(val(x)); v }); if g != want { return bad("fold", format!("{:?}", g)) } Ok(()) }
        4 => { let mut g = vec![]; mk().for_each(|x| g.push(val(x))); if g != want { return bad("for_each", format!("{:?}", g)) } Ok(()) }
        5 => { let g: Vec<i32> = mk().skip(a).step_by(1 + b).map(&val).collect(); let e: Vec<i32> = want.iter().cloned().skip(a).step_by(1 + b).collect(); if g != e { return bad("skip and step_by", format!("{:?}", g)) } Ok(()) }
        6 => { let mut it = mk(); let g: Vec<i32> = it.by_ref().take(a).map(&val).collect(); let m = a.min(n); if g != want[..m] { return bad("take", format!("{:?}", g)) } hint(&it, n - m)?; let g: Vec<i32> = it.map(&val).collect(); if g != want[m..] { return bad("the rest after take", format!("{:?}", g)) } Ok(()) }
        7 => { let t = want.get(a).cloned(); let mut it = mk(); let g = it.position(|x| Some(val(x)) == t); if g != t.map(|_| a) { return bad("position", format!("{:?}", g)) } let r: Vec<i32> = it.map(&val).collect(); let k = if t.is_some() { a + 1 } else { n }; if r != want[k..] { return bad("the rest after position", format!("{:?}", r)) } Ok(()) }
        8 => { let t = want.get(a).cloned(); let mut it = mk(); let g = it.find_map(|x| { let v = val(x); if Some(v) == t { Some(v) } else { None } }); if g != t { return bad("find_map", format!("{:?}", g)) } let k = if t.is_some() { a + 1 } else { n }; hint(&it, n - k)?; let r = it.map(&val).last(); if r != want[k..].last().cloned() { return bad("last after find_map", format!("{:?}", r)) } Ok(()) }
        _ => { let mut it = mk(); for i in 0..n + 3 { let g = it.next().map(&val); if g != want.get(i).cloned() { return bad("next", format!("{:?}", g)) } hint(&it, n.saturating_sub(i + 1))?; } Ok(()) }
    }
}
pub fn iter(ch: &mut Ch, _p: &str) -> R {
    let mut next = 0;
    let m = gen(ch, 9, &mut next); let mut t = crate::model::build(ch, &m);
    let p = path(ch, &m);
    let mm = { let mut x = &m; for i in &p { x = &x.k[*i] } x.clone() };
    let mode = ch.n(18);
    ch.say(|| format!("tree {}; children of node {:?}, mode {}", m.show(), p, mode));
    macro_rules! run { ($it:expr, $v:expr, $want:expr) => {{
        let want: Vec<i32> = $want; let mut it = $it;
        for i in 0..want.len() + 3 {
            let rest = want.len().saturating_sub(i);
            if it.size_hint() != (rest, Some(rest)) || it.len() != rest { return Err(format!("size_hint {:?} before item {}, {} children to come", it.size_hint(), i, rest)) }
            let g = it.next().map($v);
            if g != want.get(i).cloned() { return Err(format!("item {} is {:?}, expected {:?}", i, g, want.get(i))) }
        }
    }} }
    match mode {
        0 => run!(at(&t, &p).iter(), |c: &Node<P>| c.data().v(), vals(&mm.k)),
        1 => { let mut n = crate::edit::node_at(&mut t, &p); run!(n.iter_mut(), |c: std::pin::Pin<&mut Node<P>>| c.data().v(), vals(&mm.k)) }
        2 => run!(t.into_iter(), |c: Tree<P>| c.data().v(), vec![m.v]),
        3 => { let f = t.abandon(); run!(f.iter(), |c: &Node<P>| c.data().v(), vals(&m.k)); run!(f.into_iter(), |c: Tree<P>| c.data().v(), vals(&m.k)) }
        4 => { let mut f = t.abandon(); run!(f.iter_mut(), |c: std::pin::Pin<&mut Node<P>>| c.data().v(), vals(&m.k)) }
        5 => { // clone of a partly consumed iterator continues on its own
            let n = at(&t, &p); let mut it = n.iter(); let k = ch.n(mm.k.len() + 1); for _ in 0..k { it.next(); }
            run!(it, |c: &Node<P>| c.data().v(), vals(&mm.k[k..]))
        }
        6 => { // adapters use the announced length
            let n = at(&t, &p); let v: Vec<i32> = n.iter().map(|c| c.data().v()).collect(); if v != vals(&mm.k) { return Err("collect differs".into()) }
            let l = n.iter().last().map(|c| c.data().v()); if l != vals(&mm.k).last().cloned() { return Err("last differs".into()) }
            for i in (0..mm.k.len() + 1).step_by(1 + mm.k.len() / 50) { if n.iter().nth(i).map(|c| c.data().v()) != mm.k.get(i).map(|m| m.v) { return Err(format!("nth({}) differs", i)) } }
            run!((&*n).into_iter(), |c: &Node<P>| c.data().v(), vals(std::slice::from_ref(&mm)));
        }
        7 | 8 | 9 => { // edits at children already yielded
            let what: Vec<usize> = (0..mm.k.len()).map(|_| ch.n(6)).collect();
            ch.say(|| format!("per child {:?} (1 detach, 2 detach+drop, 3 push below, 4 pop below, 5 insert before)", what));
            let mut keep = vec![]; let mut seen = vec![]; let mut lens = vec![];
            let mut run2 = |it: &mut trees::IterMut<P>| {
                let mut i = 0;
                loop { lens.push(it.size_hint().0); let mut c = match it.next() { Some(c) => c, None => break }; seen.push(c.data().v());
                    match what.get(i) { Some(1) => keep.push(c.detach()), Some(2) => drop(c.detach()), Some(3) => c.push_front(Tree::new(P::new(700))), Some(4) => { if let Some(t) = c.pop_back() { keep.push(t) } } Some(5) => c.insert_prev_sib(Tree::new(P::new(701))), None => break, _ => () }
                    i += 1; }
            };
            if mode == 9 && p.is_empty() { let mut f = t.abandon(); run2(&mut f.iter_mut()); drop(f); }
            else if mode == 8 { let mut n = crate::edit::node_at(&mut t, &p); run2(&mut n.iter_mut()) }
            else { let mut n = crate::edit::node_at(&mut t, &p); let mut it = n.iter_mut(); run2(&mut it) }
            if seen != vals(&mm.k) { return Err(format!("editing while iterating: visited {:?}, expected {:?}", seen, vals(&mm.k))) }
            for (i, l) in lens.iter().enumerate() { if i <= mm.k.len() && *l != mm.k.len() - i { return Err(format!("remaining length {} before item {}, expected {}", l, i, mm.k.len() - i)) } }
        }
        12 => { let n = at(&t, &p); let w = vals(&mm.k); adapt(ch, true, || n.iter(), |c: &Node<P>| c.data().v(), &w)? }
        13 => { let mut n = crate::edit::node_at(&mut t, &p); let w = vals(&mm.k); let q: *mut Node<P> = unsafe { n.as_mut().get_unchecked_mut() }; adapt(ch, true, || unsafe { (*q).iter_mut() }, |c: std::pin::Pin<&mut Node<P>>| c.data().v(), &w)? }
        14 => { let w = vals(&m.k); let mut f = Some(buildf(ch, &m.k)); adapt(ch, true, || f.take().unwrap().into_iter(), |c: Tree<P>| c.data().v(), &w)? }
        15 => { let w = vals(&m.k); let h = trees::RcNode::from(t); adapt(ch, true, || h.iter_rc(), |c: trees::RcNode<P>| { let v = c.data().v(); v }, &w)? }
        16 => { let mut f = buildf(ch, &m.k); let w = vals(&m.k); adapt(ch, true, || f.iter(), |c: &Node<P>| c.data().v(), &w)?; let q: *mut Forest<P> = &mut f; adapt(ch, true, || unsafe { (*q).iter_mut() }, |c: std::pin::Pin<&mut Node<P>>| c.data().v(), &w)? }
        17 => { let mut t = Some(t); adapt(ch, true, || t.take().unwrap().into_iter(), |c: Tree<P>| c.data().v(), &[m.v])? }
        _ => { // consuming iterator: yielded trees are whole and independent
            let mut it = t.abandon().into_iter(); let mut i = 0;
            while let Some(mut c) = it.next() {
                if i >= m.k.len() { return Err("too many trees".into()) }
                check(&c, &m.k[i], None, LINKS | LIST | SIZES)?;
                if ch.n(2) == 0 { c.push_back(Tree::new(P::new(702))) }
                i += 1;
                if it.len() != m.k.len() - i { return Err(format!("remaining length {} after {} items", it.len(), i)) }
            }
            if i != m.k.len() { return Err("too few trees".into()) }
            if it.next().is_some() { return Err("item after the end".into()) }
        }
    }
    Ok(())
}
/// expected breadth-first visits: (value, degree, descendants)
fn level(k: &[M]) -> Vec<(i32, usize, usize)> {
    let mut q: std::collections::VecDeque<&M> = k.iter().collect(); let mut out = vec![];
    while let Some(m) = q.pop_front() { out.push((m.v, m.k.len(), m.count() - 1)); for c in &m.k { q.push_back(c) } }
    out
}
fn cmpv(got: Vec<(i32, usize, usize)>, k: &[M], ann: Option<Size>, desc: usize) -> R {
    let want = level(k);
    if got != want { return Err(format!("visited {:?}, expected {:?}", got, want)) }
    if let Some(s) = ann { if s.degree != k.len() || s.descendants != desc { return Err(format!("announced size {:?}, expected degree {} descendants {}", s, k.len(), desc)) } }
    Ok(())
}
pub fn bfs(ch: &mut Ch, _p: &str) -> R {
    let mut next = 0;
    let m = gen(ch, 12, &mut next); let mut t = crate::model::build(ch, &m);
    let p = path(ch, &m);
    let mm = { let mut x = &m; for i in &p { x = &x.k[*i] } x.clone() };
    let mode = ch.n(20);
    ch.say(|| format!("tree {}; node {:?}, breadth-first mode {}", m.show(), p, mode));
    let me = std::slice::from_ref(&mm);
    let take = |s: Size| s;
    macro_rules! col { ($b:expr) => {{ let b = $b; let s = take(b.size); (b.iter.take(1 << 18).map(|v| (v.data.v(), v.size.degree, v.size.descendants)).collect::<Vec<_>>(), Some(s)) }} }
    match mode {
        0 => { let (g, s) = col!(at(&t, &p).bfs()); cmpv(g, me, s, mm.count() - 1) }
        1 => { let (g, s) = col!(at(&t, &p).bfs_children()); cmpv(g, &mm.k, s, mm.count() - 1) }
        2 => { let mut n = crate::edit::node_at(&mut t, &p); let (g, s) = col!(n.bfs_mut()); cmpv(g, me, s, mm.count() - 1) }
        3 => { let mut n = crate::edit::node_at(&mut t, &p); let (g, s) = col!(n.bfs_children_mut()); cmpv(g, &mm.k, s, mm.count() - 1) }
        4 => { let (g, s) = col!(t.into_bfs()); let me = std::slice::from_ref(&m); cmpv(g, me, s, m.count() - 1) }
        5 => { let f = t.abandon(); let (g, s) = col!(f.bfs()); cmpv(g, &m.k, s, m.count() - 1) }
        6 => { let mut f = t.abandon(); let (g, s) = col!(f.bfs_mut()); cmpv(g, &m.k, s, m.count() - 1) }
        7 => { let f = t.abandon(); let (g, s) = col!(f.into_bfs()); cmpv(g, &m.k, s, m.count() - 1) }
        8 => { let (g, s) = col!(t.bfs_mut()); cmpv(g, std::slice::from_ref(&m), s, m.count() - 1) }
        9 => { let (g, s) = col!(t.bfs_children_mut()); cmpv(g, &m.k, s, m.count() - 1) }
        10 => { let b = at(&t, &p).bfs().map(|d: &P| d.v() + 1000); let s = b.size; let g = b.iter.map(|v| (v.data - 1000, v.size.degree, v.size.descendants)).collect(); cmpv(g, me, Some(s), mm.count() - 1) }
        11 => { let b = at(&t, &p).bfs_children().map(|d: &P| d.v() + 1000); let s = b.size; let g = b.iter.map(|v| (v.data - 1000, v.size.degree, v.size.descendants)).collect(); cmpv(g, &mm.k, Some(s), mm.count() - 1) }
        12 => { let n = at(&t, &p); let (it, s) = n.bfs().wrap().iter_and_size(); let g = it.map(|v| (v.data.v(), v.size.degree, v.size.descendants)).collect(); cmpv(g, me, Some(s), mm.count() - 1)?;
                let g = n.bfs_children().wrap().iter().map(|v| (v.data.v(), v.size.degree, v.size.descendants)).collect(); cmpv(g, &mm.k, None, 0)?;
                if n.bfs().wrap().forest_iter().is_some() || n.bfs().wrap().tree_iter().is_none() || n.bfs_children().wrap().tree_iter().is_some() || n.bfs_children().wrap().forest_iter().is_none() { return Err("tree_iter/forest_iter confuse trees and forests".into()) }
                let g = n.bfs_children().wrap().forest_iter().unwrap().map(|v| (v.data.v(), v.size.degree, v.size.descendants)).collect(); cmpv(g, &mm.k, None, 0)?;
                let g = n.bfs().wrap().tree_iter().unwrap().map(|v| (v.data.v(), v.size.degree, v.size.descendants)).collect(); cmpv(g, me, None, 0) }
        14 => { let mut f = buildf(ch, &m.k); if ch.n(2) == 0 { let (g, s) = col!(f.bfs()); cmpv(g, &m.k, s, m.count() - 1)?; } let (g, s) = col!(f.bfs_mut()); cmpv(g, &m.k, s, m.count() - 1)?; let (g, s) = col!(f.into_bfs()); cmpv(g, &m.k, s, m.count() - 1) }
        15 => { let f = buildf(ch, &m.k); let b = f.into_bfs().map(|d: P| d.v() + 1000); let s = b.size; let g = b.iter.map(|v| (v.data - 1000, v.size.degree, v.size.descendants)).collect(); cmpv(g, &m.k, Some(s), m.count() - 1)?;
                let f: Forest<P> = Forest::default(); let (g, s) = col!(f.into_bfs()); cmpv(g, &[], s, 0) }
        16 => { let b = t.into_bfs().map(|d: P| d.v() + 1000); let s = b.size; let g = b.iter.map(|v| (v.data - 1000, v.size.degree, v.size.descendants)).collect(); cmpv(g, std::slice::from_ref(&m), Some(s), m.count() - 1)?;
                let z = |a: usize, b: usize| Size { degree: a, descendants: b }; let (a, b) = (z(ch.n(1 << 18), ch.n(1 << 18)), z(ch.n(1 << 18), ch.n(1 << 18))); let mut c = a; c += b;
                if c != z(a.degree + b.degree, a.descendants + b.descendants) || a + b != c || c - b != a { return Err("size arithmetic".into()) } c -= a; if c != b { return Err("size arithmetic".into()) } Ok(()) }
        17 => { let n = at(&t, &p); let w: Vec<i32> = level(me).iter().map(|x| x.0).collect(); adapt(ch, false, || n.bfs().iter, |v: trees::bfs::Visit<&P>| v.data.v(), &w) }
        18 => { let w: Vec<i32> = level(std::slice::from_ref(&m)).iter().map(|x| x.0).collect(); let mut t = Some(t); adapt(ch, false, || t.take().unwrap().into_bfs().iter, |v: trees::bfs::Visit<P>| v.data.v(), &w) }
        19 => { let w: Vec<i32> = level(&m.k).iter().map(|x| x.0).collect(); let q: *mut Tree<P> = &mut t; adapt(ch, false, || unsafe { (*q).bfs_children_mut().iter }, |v: trees::bfs::Visit<&mut P>| v.data.v(), &w) }
        _ => { // partly consumed, then the rest; nothing after the end
            let n = at(&t, &p); let mut it = n.bfs().iter; let mut g = vec![]; while let Some(v) = it.next() { g.push((v.data.v(), v.size.degree, v.size.descendants)); if g.len() > 1 << 18 { break } }
            for _ in 0..3 { if it.next().is_some() { return Err("item after the end".into()) } }
            cmpv(g, me, None, 0)
        }
    }
}
pub fn rebuild(ch: &mut Ch, _p: &str) -> R {
    let fl = LINKS | LIST | SIZES; let mut next = 0;
    let m = gen(ch, 12, &mut next); let mut t = crate::model::build(ch, &m);
    let p = path(ch, &m);
    let mm = { let mut x = &m; for i in &p { x = &x.k[*i] } x.clone() };
    let mode = ch.n(18);
    ch.say(|| format!("tree {}; node {:?}, rebuilding mode {}", m.show(), p, mode));
    let indep = |ch: &mut Ch, mut a: Tree<P>, ma: &M, b: &mut Tree<P>, mb: &M| -> R {
        check(&a, ma, None, fl)?; check(b, mb, None, fl)?;
        let mut ma = ma.clone(); let mut mb = mb.clone();
        a.root_mut().data_mut().set(500); ma.v = 500; check(b, &mb, None, fl)?;
        b.push_front(Tree::new(P::new(501))); mb.k.insert(0, M::leaf(501)); check(&a, &ma, None, fl)?;
        a.pop_back(); ma.k.pop(); check(b, &mb, None, fl)?; check(&a, &ma, None, fl)?;
        if ch.n(2) == 0 { drop(a); check(b, &mb, None, fl) } else { let x = std::mem::replace(b, Tree::new(P::new(0))); drop(x); check(&a, &ma, None, fl) }
    };
    match mode {
        0 => { let u = t.clone(); indep(ch, u, &m, &mut t, &m) }
        1 => { let u = at(&t, &p).deep_clone(); indep(ch, u, &mm, &mut t, &m) }
        2 => { let u = Tree::from(at(&t, &p).bfs().map(|d: &P| d.clone())); indep(ch, u, &mm, &mut t, &m) }
        3 => { let u: Tree<P> = Tree::from(t.into_bfs()); check(&u, &m, None, fl)?; teardown(u, &m, true, fl) }
        4 => { let f = at(&t, &p).deep_clone_forest(); checkf(&f, &mm.k, fl)?; check(&t, &m, None, fl)?; drop(t); teardownf(f, &mm.k, true, fl) }
        5 => { let f: Forest<P> = Forest::from(at(&t, &p).bfs_children().map(|d: &P| d.clone())); checkf(&f, &mm.k, fl)?; check(&t, &m, None, fl)?; let g = f.clone(); drop(f); checkf(&g, &mm.k, fl)?; drop(t); teardownf(g, &mm.k, false, fl) }
        6 => { let f = t.abandon(); let g: Forest<P> = Forest::from(f.into_bfs()); checkf(&g, &m.k, fl)?; teardownf(g, &m.k, true, fl) }
        7 => { let f = t.abandon(); let g = f.clone(); checkf(&g, &m.k, fl)?; checkf(&f, &m.k, fl)?; drop(f); teardownf(g, &m.k, false, fl) }
        8 => { let u = t.into_bfs().map(|mut d: P| { let v = d.v(); d.set(v + 100); d }); let u: Tree<P> = Tree::from(u); let mut w = m.clone(); bump(&mut w); check(&u, &w, None, fl) }
        9 => { let u: Tree<i32> = Tree::from(t.bfs().map(|d: &P| d.v() + 100)); let mut w = m.clone(); bump(&mut w); chk_i(&u, &w)?; check(&t, &m, None, fl) }
        10 => { let u = Tree::from(t.bfs_mut().map(|d: &mut P| { let v = d.v(); d.set(v + 100); v })); chk_i(&u, &m)?; let mut w = m.clone(); bump(&mut w); check(&t, &w, None, fl) }
        12 => { let f = t.abandon(); let g: Forest<P> = Forest::from(f.into_bfs().map(|mut d: P| { let v = d.v(); d.set(v + 100); d })); let mut w = m.clone(); bump(&mut w); checkf(&g, &w.k, fl)?; teardownf(g, &w.k, false, fl) }
        13 => { let mut f = buildf(ch, &m.k); let g: Forest<P> = Forest::from(f.bfs_mut().map(|d: &mut P| { let v = d.v(); d.set(v + 100); P::new(v) })); checkf(&g, &m.k, fl)?; let mut w = m.clone(); bump(&mut w); checkf(&f, &w.k, fl)?; let h: Forest<P> = Forest::from(f.bfs().map(|d: &P| d.clone())); drop(f); checkf(&h, &w.k, fl)?; checkf(&g, &m.k, fl)?; drop(h); teardownf(g, &m.k, true, fl) }
        14 => { let u = { let mut n = crate::edit::node_at(&mut t, &p); let u: Tree<P> = Tree::from(n.bfs_mut().map(|d: &mut P| d.clone())); let f: Forest<P> = Forest::from(n.bfs_children_mut().map(|d: &mut P| d.clone())); checkf(&f, &mm.k, fl)?; u }; indep(ch, u, &mm, &mut t, &m) }
        15 => { let u: Tree<P> = Tree::from(t.bfs_mut().map(|d: &mut P| d.clone())); let f: Forest<P> = Forest::from(t.bfs_children_mut().map(|d: &mut P| d.clone())); checkf(&f, &m.k, fl)?; indep(ch, u, &m, &mut t, &m)?; teardownf(f, &m.k, false, fl) }
        16 => { let u = t.deep_clone(); let h = trees::RcNode::from(t); let mut v = h.deep_clone(); let mut c = h.front(); let mut w = Some(&m); while let (Some(x), Some(y)) = (c.clone(), w.and_then(|m| m.k.first())) { let z = x.deep_clone(); check(&z, y, None, fl)?; c = x.front(); w = Some(y) } if c.is_some() { return Err("more nodes than expected".into()) } h.data_mut().set(777); h.push_back(Tree::new(P::new(778))); drop(h); indep(ch, u, &m, &mut v, &m) }
        17 => { let f: Forest<P> = Forest::from(at(&t, &p).bfs_children().map(|d: &P| d.clone())); let mut u = Tree::new(P::new(900)); u.append(f); let mut w = M { v: 900, k: mm.k.clone() }; let mut x = Tree::from(u.into_bfs()); check(&x, &w, None, fl)?; if let Some(c) = x.pop_front() { let e = w.k.remove(0); check(&c, &e, None, fl)?; drop(c) } indep(ch, x, &w, &mut t, &m) }
        _ => { // rebuild of a rebuild, with edits in between
            let mut u: Tree<P> = Tree::from(t.into_bfs()); let mut w = m.clone();
            if let Some(mut c) = u.pop_back() { let mut cm = w.k.pop().unwrap(); c.push_back(Tree::new(P::new(600))); cm.k.push(M::leaf(600)); u.push_front(c); w.k.insert(0, cm) }
            let u: Tree<P> = Tree::from(u.into_bfs()); check(&u, &w, None, fl)?; teardown(u, &w, false, fl)
        }
    }
}
fn bump(m: &mut M) { m.v += 100; for c in &mut m.k { bump(c) } }
fn chk_i(n: &Node<i32>, m: &M) -> R {
    if *n.data() != m.v || n.degree() != m.k.len() || n.node_count() != m.count() { return Err(format!("node {} of the mapped tree differs", m.v)) }
    for (c, e) in n.iter().zip(&m.k) { chk_i(c, e)? }
    Ok(())
}
#[allow(unused)]
fn unused(_: BfsTree<()>, _: BfsForest<()>) {}
// ---------------------------------------------------------------- C15
/// models with repeated payloads
fn gen_small(ch: &mut Ch, max: usize, vals: usize) -> M {
    let mut n = 0; let mut m = gen(ch, max, &mut n);
    fn relabel(ch: &mut Ch, m: &mut M, vals: usize) { m.v = ch.n(vals) as i32; for c in &mut m.k { relabel(ch, c, vals) } }
    relabel(ch, &mut m, vals); m
}
pub fn mcmp(a: &M, b: &M) -> std::cmp::Ordering { a.v.cmp(&b.v).then_with(|| mcmpf(&a.k, &b.k)) }
pub fn mcmpf(a: &[M], b: &[M]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) { let o = mcmp(x, y); if o != std::cmp::Ordering::Equal { return o } }
    a.len().cmp(&b.len())
}
/// records the payload writes of a hash computation
pub struct Rec(pub Vec<i32>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} fn write_i32(&mut self, v: i32) { self.0.push(v) } }
pub fn dh<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub fn rec<T: Hash>(t: &T) -> Vec<i32> { let mut h = Rec(Vec::new()); t.hash(&mut h); h.0 }
pub fn prev(k: &[M]) -> Vec<i32> { let mut v = vec![]; for m in k { m.pre(&mut |m, _| v.push(m.v), 0) } v }
pub fn laws<T: PartialEq + PartialOrd + Ord + Hash>(a: &T, b: &T, want: std::cmp::Ordering) -> R {
    use std::cmp::Ordering::*;
    if a.cmp(b) != want || a.partial_cmp(b) != Some(want) { return Err(format!("cmp is {:?}/{:?}, expected {:?}", a.cmp(b), a.partial_cmp(b), want)) }
    if b.cmp(a) != want.reverse() { return Err("cmp is not antisymmetric".into()) }
    if (a == b) != (want == Equal) || (a != b) != (want != Equal) || (b == a) != (want == Equal) { return Err(format!("== is {}, != is {}, expected {:?}", a == b, a != b, want)) }
    if (a < b) != (want == Less) || (a > b) != (want == Greater) || (a <= b) != (want != Greater) || (a >= b) != (want != Less) { return Err("comparison operators disagree".into()) }
    if want == Equal && dh(a) != dh(b) { return Err("equal values hash differently".into()) }
    Ok(())
}
pub fn order(ch: &mut Ch, _p: &str) -> R {
    let a = gen_small(ch, 5, 2);
    let b = match ch.n(4) { 0 => a.clone(), 1 => { let mut b = a.clone(); let ps = b.paths(); let i = ch.n(ps.len()); match ch.n(3) { 0 => b.at(&ps[i]).v ^= 1, 1 => b.at(&ps[i]).k.push(M::leaf(0)), _ => { b.at(&ps[i]).k.pop(); } } b } _ => gen_small(ch, 5, 2) };
    let (x, y) = (crate::model::build(ch, &a), crate::model::build(ch, &b));
    ch.say(|| format!("compare {} with {}", a.show(), b.show()));
    laws(&x, &y, mcmp(&a, &b))?; laws(x.root(), y.root(), mcmp(&a, &b))?;
    if rec(&x) != prev(std::slice::from_ref(&a)) || rec(x.root()) != prev(std::slice::from_ref(&a)) { return Err(format!("hash covers {:?}, expected {:?}", rec(&x), prev(std::slice::from_ref(&a)))) }
    { let (p, q) = (path(ch, &a), path(ch, &b)); let (mut ma, mut mb) = (&a, &b); for i in &p { ma = &ma.k[*i] } for i in &q { mb = &mb.k[*i] }
      laws(at(&x, &p), at(&y, &q), mcmp(ma, mb))?; if rec(at(&x, &p)) != prev(std::slice::from_ref(ma)) { return Err("hash of a node differs from the payloads below".into()) } }
    let (f, g) = (buildf(ch, &a.k), buildf(ch, &b.k));
    laws(&f, &g, mcmpf(&a.k, &b.k))?;
    if rec(&f) != prev(&a.k) { return Err(format!("hash of the forest covers {:?}, expected {:?}", rec(&f), prev(&a.k))) }
    // partial orders without all comparisons
    let fl = |m: &M| -> Tree<f32> { fn b(m: &M) -> Tree<f32> { let mut t = Tree::new(if m.v == 1 { f32::NAN } else { 0.0 }); for c in &m.k { t.push_back(b(c)) } t } b(m) };
    let (u, v) = (fl(&a), fl(&b));
    fn pmf(a: &[M], b: &[M]) -> Option<std::cmp::Ordering> { pm(&M { v: 0, k: a.to_vec() }, &M { v: 0, k: b.to_vec() }) }
    fn pm(a: &M, b: &M) -> Option<std::cmp::Ordering> { if a.v == 1 || b.v == 1 { return None } for (x, y) in a.k.iter().zip(&b.k) { match pm(x, y) { Some(std::cmp::Ordering::Equal) => (), o => return o } } Some(a.k.len().cmp(&b.k.len())) }
    if u.partial_cmp(&v) != pm(&a, &b) { return Err("partial_cmp of incomparable payloads".into()) }
    if (u == u) != (pm(&a, &a) == Some(std::cmp::Ordering::Equal)) || (u != u) == (u == u) || u.partial_cmp(&u) != pm(&a, &a) { return Err("comparison of a tree with itself, with payloads that do not equal themselves".into()) }
    if (u.root() == u.root()) != (u == u) { return Err("comparison of a node with itself, with payloads that do not equal themselves".into()) }
    { let (mut u, e) = (u.clone(), pm(&a, &a)); let (n, k) = (a.v == 1, pmf(&a.k, &a.k)); let f = u.abandon(); let _ = n;
      if (f == f) != (k == Some(std::cmp::Ordering::Equal)) || f.partial_cmp(&f) != k { return Err("comparison of a forest with itself, with payloads that do not equal themselves".into()) }
      u.append(f); let h = trees::RcNode::from(u); let g = h.clone();
      if (h == g) != (e == Some(std::cmp::Ordering::Equal)) || (h != g) == (h == g) || h.partial_cmp(&g) != e { return Err("comparison of two handles to one node, with payloads that do not equal themselves".into()) } }
    if (u == v) != (pm(&a, &b) == Some(std::cmp::Ordering::Equal)) || (u != v) == (u == v) { return Err("equality of incomparable payloads".into()) }
    Ok(())
}
// ---------------------------------------------------------------- C16
pub fn disp(m: &M) -> String { if m.k.is_empty() { format!("{}", m.v) } else { format!("{}( {})", m.v, m.k.iter().map(|c| format!("{} ", disp(c))).collect::<String>()) } }
pub fn dispf(k: &[M]) -> String { if k.is_empty() { "()".into() } else { format!("( {})", k.iter().map(|c| format!("{} ", disp(c))).collect::<String>()) } }
pub fn print(ch: &mut Ch, _p: &str) -> R {
    let mut next = 0;
    let m = gen(ch, 9, &mut next); let mut t = crate::model::build(ch, &m); let p = path(ch, &m);
    let mm = { let mut x = &m; for i in &p { x = &x.k[*i] } x.clone() };
    ch.say(|| format!("print {} and its node {:?}", m.show(), p));
    let eq = |a: String, b: String| -> R { if a == b { Ok(()) } else { Err(format!("printed `{}`, expected `{}`", a, b)) } };
    eq(t.to_string(), disp(&m))?; eq(at(&t, &p).to_string(), disp(&mm))?;
    let f = t.abandon(); eq(f.to_string(), dispf(&m.k))?; eq(t.to_string(), format!("{}", m.v))?;
    let g = buildf(ch, &m.k); eq(g.to_string(), dispf(&m.k))?;
    Ok(())
}
