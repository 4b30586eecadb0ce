//! Histories of shared and weak handles against an explicit ownership graph (C13, C14).
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use trees::{Forest, RcNode, Tree, WeakNode};
#[derive(Clone)]
struct N { v: i32, up: Option<usize>, k: Vec<usize>, h: usize, alive: bool }
struct G { n: Vec<N>, h: Vec<(RcNode<P>, usize)>, w: Vec<(WeakNode<P>, usize)>, next: i32, fl: u32 }
impl G {
    fn add(&mut self, m: &M, up: Option<usize>) -> usize {
        let i = self.n.len(); self.n.push(N { v: m.v, up, k: vec![], h: 0, alive: true });
        for c in &m.k { let j = self.add(c, Some(i)); self.n[i].k.push(j) }
        i
    }
    fn model(&self, i: usize) -> M { M { v: self.n[i].v, k: self.n[i].k.iter().map(|j| self.model(*j)).collect() } }
    /// node i lost an owner: dies if it has neither handle nor parent
    fn settle(&mut self, i: usize) {
        if self.n[i].h > 0 || self.n[i].up.is_some() || !self.n[i].alive { return }
        self.n[i].alive = false;
        for c in std::mem::take(&mut self.n[i].k) { self.n[c].up = None; self.settle(c) }
    }
    fn cut(&mut self, i: usize) { if let Some(p) = self.n[i].up.take() { self.n[p].k.retain(|x| *x != i) } }
    fn is_below(&self, i: usize, anc: usize) -> bool { let mut c = Some(i); while let Some(x) = c { if x == anc { return true } c = self.n[x].up } false }
}
fn hold(g: &mut G, h: RcNode<P>, i: usize) { g.n[i].h += 1; g.h.push((h, i)) }
fn release(g: &mut G, slot: usize) { let (h, i) = g.h.swap_remove(slot); g.n[i].h -= 1; drop(h); g.settle(i) }
fn name(g: &G, s: usize) -> String { format!("handle {} (node {})", s, g.n[g.h[s].1].v) }
fn verify(g: &G, h: &RcNode<P>, i: usize) -> R {
    let n = &g.n[i];
    if h.data().v() != n.v { return Err(format!("handle to node {} reads payload {}", n.v, h.data().v())) }
    if h.degree() != n.k.len() || h.has_no_child() != n.k.is_empty() { return Err(format!("handle to node {}: degree {}, expected {}", n.v, h.degree(), n.k.len())) }
    let c = g.model(i).count();
    if h.node_count() != c { return Err(format!("handle to node {}: node_count {}, expected {}", n.v, h.node_count(), c)) }
    if h.is_root() != n.up.is_none() { return Err(format!("handle to node {}: is_root is {}", n.v, h.is_root())) }
    if g.fl != 0 { let r = unsafe { h.node() }; let up = r.parent().map(|p| p as *const trees::Node<P>); if up.is_some() != n.up.is_some() { return Err(format!("node {}: parent is {}", n.v, up.is_some())) } check(&r, &g.model(i), up.map(|p| unsafe { &*p }), g.fl)? }
    Ok(())
}
pub fn run(ch: &mut Ch, prop: &str) -> R {
    let mut g = G { n: vec![], h: vec![], w: vec![], next: 0, fl: match prop { "C13" | "C15" | "C16" => 0, p => flags(p) } };
    let mut steps = 0;
    while !(ch.done() || steps > 50) {
        steps += 1;
        op(ch, &mut g)?;
        for (h, i) in &g.h { verify(&g, h, *i)? }
        for (w, i) in &g.w { let up = w.upgrade(); if up.is_some() != g.n[*i].alive { return Err(format!("weak handle to node {} {} although the node is {}", g.n[*i].v, if up.is_some() { "upgrades" } else { "does not upgrade" }, if g.n[*i].alive { "alive" } else { "gone" })) } if let Some(h) = up { verify(&g, &h, *i)?; } }
        let want = g.n.iter().filter(|n| n.alive).count();
        let live = crate::track::pay_live();
        if live != want && prop != "C16" && prop != "C15" { return Err(format!("{} payloads are alive, {} nodes are reachable", live, want)) }
        if prop == "C15" || prop == "C16" { pairs(&g, prop)? }
    }
    // final release in a chosen order
    while !g.h.is_empty() || !g.w.is_empty() {
        if !g.w.is_empty() && (g.h.is_empty() || ch.n(3) == 0) { let i = ch.n(g.w.len()); g.w.swap_remove(i); }
        else { let s = ch.n(g.h.len()); release(&mut g, s); for (h, i) in &g.h { verify(&g, h, *i)? } let want = g.n.iter().filter(|n| n.alive).count(); if crate::track::pay_live() != want && prop != "C16" && prop != "C15" { return Err(format!("{} payloads are alive, {} nodes are reachable", crate::track::pay_live(), want)) } }
    }
    Ok(())
}
fn pairs(g: &G, prop: &str) -> R {
    for (h, i) in g.h.iter().take(3) {
        if prop == "C16" { let e = crate::read::disp(&g.model(*i)); if h.to_string() != e { return Err(format!("printed `{}`, expected `{}`", h, e)) } continue }
        if crate::read::rec(h) != crate::read::prev(&[g.model(*i)]) { return Err("hash of a handle does not cover its payloads in order".into()) }
        for (x, j) in g.h.iter().take(3) { crate::read::laws(h, x, crate::read::mcmp(&g.model(*i), &g.model(*j)))? }
    }
    Ok(())
}
fn newtree(ch: &mut Ch, g: &mut G, max: usize) -> (Tree<P>, usize) { let mut nx = g.next; let m = gen(ch, max, &mut nx); g.next = nx; let t = build(ch, &m); let i = g.add(&m, None); (t, i) }
fn newforest(ch: &mut Ch, g: &mut G, max: usize) -> (Forest<P>, Vec<usize>) { let mut nx = g.next; let k = genf(ch, max, &mut nx); g.next = nx; let f = buildf(ch, &k); let v = k.iter().map(|m| g.add(m, None)).collect(); (f, v) }
fn expect(g: &mut G, got: Option<RcNode<P>>, want: Option<usize>, what: &str) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(h), Some(i)) => { verify(g, &h, i).map_err(|e| format!("{}: {}", what, e))?; if g.h.len() < 8 { hold(g, h, i) } else { g.n[i].h += 1; g.n[i].h -= 1; drop(h); g.settle(i) } Ok(()) }
        (a, b) => Err(format!("{} returned {}, expected {}", what, if a.is_some() { "a node" } else { "None" }, if b.is_some() { "a node" } else { "None" })),
    }
}
fn op(ch: &mut Ch, g: &mut G) -> R {
    if g.h.is_empty() || (g.h.len() < 3 && ch.n(4) == 0) {
        let (t, i) = newtree(ch, g, 5); let h = RcNode::from(t);
        ch.say(|| format!("handle {} = from tree {}", g.h.len(), g.model(i).show()));
        hold(g, h, i); return Ok(());
    }
    let s = ch.n(g.h.len()); let i = g.h[s].1;
    let hg = HUGE.load(std::sync::atomic::Ordering::Relaxed);
    if hg != 0 && ch.n(6) == 0 { // very many handles to one node at the same time
        let n = hg + ch.n(3) - 1; ch.say(|| format!("{} further handles and weak handles to {}, released again", n, name(g, s)));
        let h = g.h[s].0.clone();
        let v: Vec<_> = (0..n).map(|_| h.clone()).collect(); let w: Vec<_> = (0..n).map(|_| h.downgrade()).collect();
        verify(g, &h, i)?; for x in w.iter().step_by(1 + n / 7) { if x.upgrade().is_none() { return Err("a weak handle to a living node does not upgrade".into()) } }
        if ch.n(2) == 0 { drop(v); drop(w) } else { drop(w); drop(v) }
        return verify(g, &h, i)
    }
    let o = ch.n(26); let full = g.h.len() >= 8;
    match o {
        0 if !full => { ch.say(|| format!("clone {}", name(g, s))); let h = g.h[s].0.clone(); hold(g, h, i) }
        1 | 2 => { ch.say(|| format!("drop {}", name(g, s))); release(g, s) }
        3 => if g.w.len() < 6 { ch.say(|| format!("downgrade {}", name(g, s))); let w = g.h[s].0.downgrade(); g.w.push((w, i)) },
        4 => if !g.w.is_empty() { let j = ch.n(g.w.len()); ch.say(|| format!("drop weak {} (node {})", j, g.n[g.w[j].1].v)); g.w.swap_remove(j); },
        5 => if !g.w.is_empty() && !full { let j = ch.n(g.w.len()); let k = g.w[j].1; ch.say(|| format!("upgrade weak {} (node {})", j, g.n[k].v)); let h = g.w[j].0.upgrade(); let want = if g.n[k].alive { Some(k) } else { None }; return expect(g, h, want, "upgrade") },
        6 => { ch.say(|| format!("{}.front()", name(g, s))); let h = g.h[s].0.front(); let w = g.n[i].k.first().cloned(); return expect(g, h, w, "front") }
        7 => { ch.say(|| format!("{}.back()", name(g, s))); let h = g.h[s].0.back(); let w = g.n[i].k.last().cloned(); return expect(g, h, w, "back") }
        8 | 9 => { ch.say(|| format!("{}.parent()", name(g, s))); let h = g.h[s].0.parent(); let w = g.n[i].up; return expect(g, h, w, "parent") }
        10 | 11 => { // iterate, holding some of the children
            let mask: Vec<usize> = (0..g.n[i].k.len()).map(|_| ch.n(4)).collect();
            ch.say(|| format!("{}.iter_rc(): {:?} (0 look, 1 hold, 2 detach after yield, 3 stop)", name(g, s), mask));
            let kids = g.n[i].k.clone();
            let mut it = g.h[s].0.iter_rc(); let mut c = 0;
            loop {
                if it.size_hint() != (kids.len() - c, Some(kids.len() - c)) { return Err(format!("iter_rc: size_hint {:?}, {} children to come", it.size_hint(), kids.len() - c)) }
                let it2 = if c == 1 { Some(it.clone()) } else { None };
                if let Some(x) = it2 { let r: Vec<i32> = x.map(|h| { let v = h.data().v(); v }).collect(); let e: Vec<i32> = kids[c..].iter().map(|k| g.n[*k].v).collect(); if r != e { return Err(format!("clone of iter_rc yields {:?}, expected {:?}", r, e)) } }
                match it.next() {
                    None => { if c != kids.len() { return Err(format!("iter_rc ended after {} children", c)) } break }
                    Some(h) => {
                        if c >= kids.len() { return Err("iter_rc yields too many".into()) }
                        let k = kids[c]; verify(g, &h, k).map_err(|e| format!("iter_rc: {}", e))?;
                        match mask[c] { 1 if g.h.len() < 8 => hold(g, h, k), 2 => { h.detach(); g.cut(k); drop(h); g.settle(k) } 3 => { drop(h); break } _ => drop(h) }
                        c += 1;
                    }
                }
            }
        }
        12 | 13 => { let (t, j) = newtree(ch, g, 3); ch.say(|| format!("{}.push_{}({})", name(g, s), if o == 12 { "front" } else { "back" }, g.model(j).show())); g.n[j].up = Some(i); if o == 12 { g.h[s].0.push_front(t); g.n[i].k.insert(0, j) } else { g.h[s].0.push_back(t); g.n[i].k.push(j) } }
        14 | 15 => { ch.say(|| format!("{}.pop_{}()", name(g, s), if o == 14 { "front" } else { "back" })); let h = if o == 14 { g.h[s].0.pop_front() } else { g.h[s].0.pop_back() }; let w = if o == 14 { g.n[i].k.first().cloned() } else { g.n[i].k.last().cloned() }; if let Some(j) = w { g.cut(j) } return expect(g, h, w, "pop") }
        16 | 17 => { let (f, v) = newforest(ch, g, 3); ch.say(|| format!("{}.{}({:?})", name(g, s), if o == 16 { "prepend" } else { "append" }, v.iter().map(|j| g.model(*j).show()).collect::<Vec<_>>())); for j in &v { g.n[*j].up = Some(i) } if o == 16 { g.h[s].0.prepend(f); let mut k = v; k.append(&mut g.n[i].k); g.n[i].k = k } else { g.h[s].0.append(f); g.n[i].k.extend(v) } }
        18 | 19 => if let Some(p) = g.n[i].up {
            let (t, j) = newtree(ch, g, 3); ch.say(|| format!("{}.insert_{}_sib({})", name(g, s), if o == 18 { "prev" } else { "next" }, g.model(j).show()));
            if o == 18 { g.h[s].0.insert_prev_sib(t) } else { g.h[s].0.insert_next_sib(t) }
            g.n[j].up = Some(p); let q = g.n[p].k.iter().position(|x| *x == i).unwrap(); g.n[p].k.insert(q + (o - 18), j);
        },
        20 | 21 => if g.n[i].up.is_some() { ch.say(|| format!("{}.detach()", name(g, s))); g.h[s].0.detach(); g.cut(i) },
        22 => { // a tree of its own taken back from a sole root handle
            let solo = g.n[i].up.is_none() && !(0..g.n.len()).any(|x| g.n[x].alive && g.is_below(x, i) && (g.n[x].h > (x == i) as usize || g.w.iter().any(|w| w.1 == x)));
            if solo {
                ch.say(|| format!("{}.into_tree() and back", name(g, s)));
                let (h, _) = g.h.swap_remove(s); let t = unsafe { h.into_tree() };
                check(t.root(), &g.model(i), None, LINKS | LIST | SIZES)?;
                if ch.n(2) == 0 { g.h.push((RcNode::from(t), i)) } else { let m = g.model(i); teardown(t, &m, true, LINKS | LIST | SIZES)?; g.n[i].h = 0; g.settle(i) }
            }
        }
        23 => { ch.say(|| format!("{}.deep_clone()", name(g, s))); let t = g.h[s].0.deep_clone(); check(t.root(), &g.model(i), None, LINKS | LIST | SIZES)?; }
        24 => { let v = g.next; g.next += 1; ch.say(|| format!("{}.data = {}", name(g, s), v)); g.h[s].0.data_mut().set(v); g.n[i].v = v }
        _ => { let mut ts = vec![]; let n = ch.n(3); for _ in 0..n { let (t, j) = newtree(ch, g, 2); g.n[j].up = Some(i); g.n[i].k.push(j); ts.push(t) } ch.say(|| format!("{}.extend({} trees)", name(g, s), n)); g.h[s].0.extend(ts) }
    }
    Ok(())
}
