//! Edit histories over a pool of trees and forests (C01, C02, C03, C05).
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use std::pin::Pin;
use trees::{Forest, Node, Tree};
pub struct Pool { pub t: Vec<(Tree<P>, M)>, pub f: Vec<(Forest<P>, Vec<M>)> }
pub fn node_at<'a>(t: &'a mut Tree<P>, p: &[usize]) -> Pin<&'a mut Node<P>> { let mut n = t.root_mut(); for i in p { n = step(n, *i) } n }
fn step<'a>(n: Pin<&'a mut Node<P>>, i: usize) -> Pin<&'a mut Node<P>> { let r = unsafe { n.get_unchecked_mut() }; r.iter_mut().nth(i).expect("child reported by the model not found") }
pub fn node_atf<'a>(f: &'a mut Forest<P>, p: &[usize]) -> Pin<&'a mut Node<P>> { let mut n = f.iter_mut().nth(p[0]).expect("tree reported by the model not found"); for i in &p[1..] { n = step(n, *i) } n }
/// a random node: (in forest?, slot, path)
fn pick(ch: &mut Ch, pl: &Pool, root_ok: bool) -> Option<(bool, usize, Vec<usize>)> {
    let mut all = vec![];
    for (i, (_, m)) in pl.t.iter().enumerate() { for p in m.paths() { if root_ok || !p.is_empty() { all.push((false, i, p)) } } }
    for (i, (_, k)) in pl.f.iter().enumerate() { for (j, m) in k.iter().enumerate() { for p in m.paths() { let mut q = vec![j]; q.extend(p); all.push((true, i, q)) } } }
    if all.is_empty() { None } else { let i = ch.n(all.len()); Some(all.swap_remove(i)) }
}
pub fn run(ch: &mut Ch, prop: &str) -> R {
    let fl = flags(prop);
    let mut next = 0;
    let mut pl = Pool { t: vec![], f: vec![] };
    let mut steps = 0;
    while !(ch.done() || steps > 40) {
        steps += 1;
        op(ch, &mut pl, &mut next, fl)?;
        for (t, m) in &pl.t { check(t.root(), m, None, fl)? }
        for (f, k) in &pl.f { checkf(f, k, fl)? }
    }
    let back = ch.n(2) == 0;
    let keep = ch.n(3) == 0;
    if !keep {
        ch.say(|| format!("take everything apart from the {}", if back { "back" } else { "front" }));
        for (t, m) in pl.t { teardown(t, &m, back, fl)? }
        for (f, k) in pl.f { teardownf(f, &k, back, fl)? }
    } else { ch.say(|| "drop everything".into()); }
    Ok(())
}
fn par<'a>(pl: &'a mut Pool, at: &(bool, usize, Vec<usize>)) -> (&'a mut Vec<M>, usize) {
    let (last, up) = at.2.split_last().unwrap();
    let k = if at.0 { if up.is_empty() { &mut pl.f[at.1].1 } else { let (a, b) = up.split_first().unwrap(); &mut pl.f[at.1].1[*a].at(b).k } } else { &mut pl.t[at.1].1.at(up).k };
    (k, *last)
}
macro_rules! real { ($pl:expr, $at:expr) => { if $at.0 { node_atf(&mut $pl.f[$at.1].0, &$at.2) } else { node_at(&mut $pl.t[$at.1].0, &$at.2) } } }
fn modl<'a>(pl: &'a mut Pool, at: &(bool, usize, Vec<usize>)) -> &'a mut M { if at.0 { pl.f[at.1].1[at.2[0]].at(&at.2[1..]) } else { pl.t[at.1].1.at(&at.2) } }
fn nm(at: &(bool, usize, Vec<usize>)) -> String { format!("node {:?} of {} {}", at.2, if at.0 { "forest" } else { "tree" }, at.1) }
fn got_tree(pl: &mut Pool, got: Option<Tree<P>>, want: Option<M>, fl: u32) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(t), Some(m)) => { check(t.root(), &m, None, fl)?; pl.t.push((t, m)); Ok(()) }
        (a, b) => Err(format!("a tree was {}returned, expected {}", if a.is_some() { "" } else { "not " }, b.map(|m| m.show()).unwrap_or("None".into()))),
    }
}
fn op(ch: &mut Ch, pl: &mut Pool, next: &mut i32, fl: u32) -> R {
    let full = pl.t.len() + pl.f.len() >= 5;
    let o = ch.n(24);
    match o {
        0 | 1 if !full => { let m = gen(ch, 5, next); let t = build(ch, &m); ch.say(|| format!("tree {} = {}", pl.t.len(), m.show())); pl.t.push((t, m)) }
        2 if !full => { let k = genf(ch, 4, next); let f = buildf(ch, &k); ch.say(|| format!("forest {} = {}", pl.f.len(), showf(&k))); pl.f.push((f, k)) }
        3 | 4 | 5 | 6 => { // insert a tree somewhere
            if pl.t.is_empty() { return Ok(()) }
            let i = ch.n(pl.t.len()); let (t, m) = pl.t.swap_remove(i);
            let sib = o >= 5;
            // also the forest itself as target
            if !sib && !pl.f.is_empty() && ch.n(3) == 0 {
                let j = ch.n(pl.f.len());
                ch.say(|| format!("forest {}.push_{}(tree {} = {})", j, if o == 3 { "front" } else { "back" }, i, m.show()));
                if o == 3 { pl.f[j].0.push_front(t); pl.f[j].1.insert(0, m) } else { pl.f[j].0.push_back(t); pl.f[j].1.push(m) }
                return Ok(());
            }
            match pick(ch, pl, !sib) {
                None => pl.t.push((t, m)),
                Some(at) => {
                    ch.say(|| format!("take tree {} = {}; {}.{}", i, m.show(), nm(&at), ["push_front", "push_back", "insert_prev_sib", "insert_next_sib"][o - 3]));
                    let wrap = at.2.is_empty() && ch.n(2) == 0;
                    match o {
                        3 => { if wrap { pl.t[at.1].0.push_front(t) } else { real!(pl, at).push_front(t) } modl(pl, &at).k.insert(0, m) }
                        4 => { if wrap { pl.t[at.1].0.push_back(t) } else { real!(pl, at).push_back(t) } modl(pl, &at).k.push(m) }
                        5 => { real!(pl, at).insert_prev_sib(t); let (k, i) = par(pl, &at); k.insert(i, m) }
                        _ => { real!(pl, at).insert_next_sib(t); let (k, i) = par(pl, &at); k.insert(i + 1, m) }
                    }
                }
            }
        }
        7 | 8 => { // pop
            if !pl.f.is_empty() && ch.n(3) == 0 {
                let j = ch.n(pl.f.len());
                ch.say(|| format!("forest {}.pop_{}()", j, if o == 7 { "front" } else { "back" }));
                let (g, w) = if o == 7 { (pl.f[j].0.pop_front(), if pl.f[j].1.is_empty() { None } else { Some(pl.f[j].1.remove(0)) }) } else { (pl.f[j].0.pop_back(), pl.f[j].1.pop()) };
                return got_tree(pl, g, w, fl);
            }
            if let Some(at) = pick(ch, pl, true) {
                ch.say(|| format!("{}.pop_{}()", nm(&at), if o == 7 { "front" } else { "back" }));
                let wrap = at.2.is_empty() && ch.n(2) == 0;
                let g = if wrap { if o == 7 { pl.t[at.1].0.pop_front() } else { pl.t[at.1].0.pop_back() } } else if o == 7 { real!(pl, at).pop_front() } else { real!(pl, at).pop_back() };
                let k = &mut modl(pl, &at).k;
                let w = if o == 7 { if k.is_empty() { None } else { Some(k.remove(0)) } } else { k.pop() };
                return got_tree(pl, g, w, fl);
            }
        }
        9 | 10 => { // prepend / append a forest
            if pl.f.is_empty() { return Ok(()) }
            let i = ch.n(pl.f.len()); let (f, mut m) = pl.f.swap_remove(i);
            if !pl.f.is_empty() && ch.n(3) == 0 {
                let j = ch.n(pl.f.len());
                ch.say(|| format!("take forest {} = {}; forest {}.{}", i, showf(&m), j, if o == 9 { "prepend" } else { "append" }));
                if o == 9 { pl.f[j].0.prepend(f); m.append(&mut pl.f[j].1); pl.f[j].1 = m } else { pl.f[j].0.append(f); pl.f[j].1.append(&mut m) }
                return Ok(());
            }
            match pick(ch, pl, true) {
                None => pl.f.push((f, m)),
                Some(at) => {
                    ch.say(|| format!("take forest {} = {}; {}.{}", i, showf(&m), nm(&at), if o == 9 { "prepend" } else { "append" }));
                    let wrap = at.2.is_empty() && ch.n(2) == 0;
                    if wrap { if o == 9 { pl.t[at.1].0.prepend(f) } else { pl.t[at.1].0.append(f) } } else if o == 9 { real!(pl, at).prepend(f) } else { real!(pl, at).append(f) }
                    let k = &mut modl(pl, &at).k;
                    if o == 9 { m.append(k); *k = m } else { k.append(&mut m) }
                }
            }
        }
        11 | 12 => if let Some(at) = pick(ch, pl, false) {
            ch.say(|| format!("{}.detach()", nm(&at)));
            let t = real!(pl, at).detach();
            let (k, i) = par(pl, &at); let m = k.remove(i);
            return got_tree(pl, Some(t), Some(m), fl);
        },
        13 => if !pl.t.is_empty() && !full {
            let i = ch.n(pl.t.len());
            ch.say(|| format!("forest {} = tree {}.abandon()", pl.f.len(), i));
            let f = pl.t[i].0.abandon(); let k = std::mem::take(&mut pl.t[i].1.k);
            checkf(&f, &k, fl)?; pl.f.push((f, k));
        },
        14 => if !pl.t.is_empty() { let i = ch.n(pl.t.len()); ch.say(|| format!("drop tree {}", i)); pl.t.swap_remove(i); },
        15 => if !pl.f.is_empty() { let i = ch.n(pl.f.len()); ch.say(|| format!("drop forest {}", i)); pl.f.swap_remove(i); },
        16 => if let Some(at) = pick(ch, pl, true) {
            // detach / drop children while iterating over the siblings
            let n = modl(pl, &at).k.len();
            let mask: Vec<usize> = (0..n).map(|_| ch.n(4)).collect();
            ch.say(|| format!("for each child of {} while iterating: {:?} (0 keep, 1 detach+drop, 2 detach, 3 edit below)", nm(&at), mask));
            let mut got = vec![]; let mut seen = vec![];
            { let mut i = 0; let mut nd = real!(pl, at);
              for mut c in nd.iter_mut() {
                seen.push(c.data().v());
                match mask.get(i) { Some(1) => { drop(c.detach()) } Some(2) => got.push(c.detach()), Some(3) => { let v = *next; *next += 1; c.push_back(Tree::new(P::new(v))); } None => break, _ => () }
                i += 1;
            } }
            let m = modl(pl, &at);
            let want: Vec<i32> = m.k.iter().map(|x| x.v).collect();
            if fl & LIST != 0 && seen != want { return Err(format!("iterating while detaching visited {:?}, expected {:?}", seen, want)) }
            let mut kept = vec![]; let mut out = vec![];
            let mut v = *next - mask.iter().filter(|x| **x == 3).count() as i32;
            for (i, mut c) in std::mem::take(&mut m.k).into_iter().enumerate() { match mask[i] { 1 => (), 2 => out.push(c), 3 => { c.k.push(M::leaf(v)); v += 1; kept.push(c) } _ => kept.push(c) } }
            m.k = kept;
            if got.len() != out.len() { return Err("wrong number of trees detached".into()) }
            for (t, m) in got.into_iter().zip(out) { check(t.root(), &m, None, fl)?; if pl.t.len() < 5 { pl.t.push((t, m)) } }
        },
        17 => if !pl.f.is_empty() { // consume a forest or a tree partly
            let i = ch.n(pl.f.len()); let (f, m) = pl.f.swap_remove(i);
            let n = ch.n(m.len() + 2);
            ch.say(|| format!("forest {} .into_iter(): take {}", i, n));
            let mut it = f.into_iter();
            for (j, e) in m.iter().enumerate().take(n) { match it.next() { Some(t) => { check(t.root(), e, None, fl)?; if j % 2 == 0 && pl.t.len() < 5 { pl.t.push((t, e.clone())) } } None => return Err("into_iter ended early".into()) } }
            if n > m.len() && it.next().is_some() { return Err("into_iter yields too many".into()) }
        },
        18 => if !pl.t.is_empty() {
            let i = ch.n(pl.t.len()); let (t, m) = pl.t.swap_remove(i);
            let n = ch.n(3);
            ch.say(|| format!("tree {} .into_iter(): take {}", i, n));
            let mut it = t.into_iter();
            for e in std::iter::once(&m).take(n) { match it.next() { Some(t) => check(t.root(), e, None, fl)?, None => return Err("into_iter ended early".into()) } }
            if n > 1 && it.next().is_some() { return Err("into_iter yields too many".into()) }
        },
        19 => if !pl.t.is_empty() && !full {
            let i = ch.n(pl.t.len()); ch.say(|| format!("tree {} = tree {}.clone()", pl.t.len(), i));
            let t = pl.t[i].0.clone(); let m = pl.t[i].1.clone(); pl.t.push((t, m));
        },
        20 => if !pl.f.is_empty() && !full {
            let i = ch.n(pl.f.len()); ch.say(|| format!("forest {} = forest {}.clone()", pl.f.len(), i));
            let t = pl.f[i].0.clone(); let m = pl.f[i].1.clone(); pl.f.push((t, m));
        },
        21 => if let Some(at) = pick(ch, pl, true) {
            let v = *next; *next += 1;
            ch.say(|| format!("{}.data = {}", nm(&at), v));
            if ch.n(2) == 0 { real!(pl, at).data_mut().set(v) } else { *real!(pl, at).data_mut() = P::new(v) }
            modl(pl, &at).v = v;
        },
        22 => { // the first or last child, mutably, and a new payload through it
            let back = ch.n(2) == 0; let set = ch.n(2) == 0; let v = *next;
            macro_rules! end { ($x:expr, $k:expr) => {{
                let c = if back { $x.back_mut() } else { $x.front_mut() };
                let g = c.map(|mut c| { let g = c.data().v(); if set { c.data_mut().set(v); } g });
                let w = (if back { $k.last_mut() } else { $k.first_mut() }).map(|m| { let w = m.v; if set { m.v = v; } w });
                (g, w)
            }} }
            let (g, w) = if !pl.f.is_empty() && ch.n(3) == 0 { let i = ch.n(pl.f.len()); ch.say(|| format!("forest {}.{}_mut(), set {} {}", i, if back { "back" } else { "front" }, set, v)); let (f, k) = &mut pl.f[i]; end!(f, k) }
                else if let Some(at) = pick(ch, pl, true) {
                    ch.say(|| format!("{}.{}_mut(), set {} {}", nm(&at), if back { "back" } else { "front" }, set, v));
                    if at.2.is_empty() && ch.n(2) == 0 { let (t, m) = &mut pl.t[at.1];
                        if ch.n(3) == 0 { let mut it = t.iter_mut(); let c = if back { it.last() } else { it.next() }; (c.map(|c| c.data().v()), (if back { m.k.last() } else { m.k.first() }).map(|m| m.v)) } else { end!(t, m.k) } }
                    else { let k: *mut Vec<M> = &mut modl(pl, &at).k; let k = unsafe { &mut *k }; let mut nd = real!(pl, at); end!(nd, k) }
                } else { return Ok(()) };
            if set { *next += 1 }
            if g != w { return Err(format!("{}_mut is {:?}, expected {:?}", if back { "back" } else { "front" }, g, w)) }
        },
        23 => if !pl.t.is_empty() && !full {
            let i = ch.n(pl.t.len()); let (t, m) = pl.t.swap_remove(i);
            ch.say(|| format!("tree {} rebuilt from its breadth-first order", i));
            pl.t.push((Tree::from(t.into_bfs()), m));
        },
        _ => (),
    }
    Ok(())
}
