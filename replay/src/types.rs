//! The same histories over payloads of other sizes and alignments (C05, C07, C10, C13, C14).
use crate::model::*;
use crate::{Ch, R};
use trees::walk::Visit;
use trees::{Forest, Node, RcNode, Tree, TreeWalk};
#[derive(Clone)]
#[repr(align(64))]
struct A64(i32);
fn chk<T>(n: &Node<T>, m: &M, up: Option<&Node<T>>, un: fn(&T) -> i32) -> R {
    if un(n.data()) != m.v { return Err(format!("payload {} found where {} is expected", un(n.data()), m.v)) }
    if !eqp(n.parent(), up) { return Err(format!("parent of node {} is wrong", m.v)) }
    if n.degree() != m.k.len() || n.node_count() != m.count() { return Err(format!("sizes of node {}: {} {}, expected {} {}", m.v, n.degree(), n.node_count(), m.k.len(), m.count())) }
    let mut i = 0;
    for c in n.iter() { if i >= m.k.len() { return Err("too many children".into()) } chk(c, &m.k[i], Some(n), un)?; i += 1; }
    if i != m.k.len() { return Err("too few children".into()) }
    Ok(())
}
fn euler(m: &M, o: &mut Vec<(u8, i32)>) { if m.k.is_empty() { o.push((1, m.v)) } else { o.push((0, m.v)); for c in &m.k { euler(c, o) } o.push((2, m.v)) } }
fn go<T: Clone>(ch: &mut Ch, mk: fn(i32) -> T, un: fn(&T) -> i32, konst: bool) -> R {
    let mut nx = 0; let mut next = || { if !konst { nx += 1 } nx };
    let mut m = M::leaf(next()); let mut t = Tree::new(mk(m.v));
    let mut steps = 0;
    while !(ch.done() || steps > 20) {
        steps += 1;
        let ps = m.paths(); let p = ps[ch.n(ps.len())].clone();
        let o = ch.n(10); ch.say(|| format!("step {} at {:?} of {}", o, p, m.show()));
        macro_rules! node { () => {{ let mut n: *mut Node<T> = unsafe { t.root_mut().get_unchecked_mut() }; for i in &p { n = unsafe { (*n).iter_mut().nth(*i).unwrap().get_unchecked_mut() } } unsafe { &mut *n } }} }
        match o {
            0 | 1 => { let v = next(); let x = m.at(&p); if o == 0 { x.k.push(M::leaf(v)); node!().push_back(Tree::new(mk(v))) } else { x.k.insert(0, M::leaf(v)); node!().push_front(Tree::new(mk(v))) } }
            2 => { let x = m.at(&p); let e = if ch.n(2) == 0 { let g = node!().pop_back(); (g, x.k.pop()) } else { let g = node!().pop_front(); (g, if x.k.is_empty() { None } else { Some(x.k.remove(0)) }) };
                   match e { (None, None) => (), (Some(g), Some(e)) => chk(g.root(), &e, None, un)?, _ => return Err("popping".into()) } }
            3 => t = Tree::from(t.into_bfs()),
            4 => t = t.deep_clone(),
            5 => { // shared handles, also weak ones, then the tree back
                let h = RcNode::from(t); let w = h.downgrade(); let mut c = h.clone(); let mut x = &m; for i in &p { x = &x.k[*i]; c = c.iter_rc().nth(*i).unwrap(); }
                if un(&c.data()) != x.v || c.node_count() != x.count() { return Err(format!("handle at {:?} reads {}, {}", p, un(&c.data()), c.node_count())) }
                let wc = c.downgrade(); let d = c.clone(); drop(c);
                if wc.upgrade().is_none() || w.upgrade().is_none() { return Err("a weak handle to a living node does not upgrade".into()) }
                if let Some(u) = d.parent() { let i = *p.last().unwrap(); let mut y = &m; for j in &p[..p.len() - 1] { y = &y.k[*j] } if un(&u.data()) != y.v || u.degree() != y.k.len() || i >= y.k.len() { return Err("parent of a handle".into()) } }
                if ch.n(3) == 0 && !p.is_empty() { d.detach(); let (l, up) = p.split_last().unwrap(); let e = m.at(up).k.remove(*l); if un(&d.data()) != e.v || !d.is_root() { return Err("detached handle".into()) } drop(d); if wc.upgrade().is_some() { return Err("weak handle upgrades although the node is gone".into()) } } else { drop(d) }
                t = unsafe { h.into_tree() };
                drop(w); drop(wc);
            }
            6 => { let (a, b, c, d) = (next(), next(), next(), next());
                if ch.n(2) == 0 { let f = Forest::<T>::from_tuple(((mk(a), mk(b)), (mk(c), (mk(d),)))); let x = m.at(&p); x.k.push(M { v: a, k: vec![M::leaf(b)] }); x.k.push(M { v: c, k: vec![M::leaf(d)] }); node!().append(f) }
                else { let f = Tree::<T>::from_tuple((mk(a), (mk(b), mk(c)), mk(d))); let x = m.at(&p); x.k.insert(0, M { v: a, k: vec![M { v: b, k: vec![M::leaf(c)] }, M::leaf(d)] }); node!().push_front(f) } }
            7 => { let mut w = TreeWalk::from(t); let mut e = vec![]; euler(&m, &mut e);
                for i in 0..=e.len() { let g = match w.get() { Some(Visit::Begin(n)) => Some((0, un(n.data()))), Some(Visit::Leaf(n)) => Some((1, un(n.data()))), Some(Visit::End(n)) => Some((2, un(n.data()))), None => None };
                    if g != e.get(i).cloned() { return Err(format!("visit {} is {:?}, expected {:?}", i, g, e.get(i))) } w.forward() }
                t = w.into() }
            8 => { let f = t.abandon(); let g: Forest<T> = if ch.n(2) == 0 { Forest::from(f.into_bfs()) } else { f.clone() }; if ch.n(2) == 0 { t.prepend(g) } else { t.append(g) } }
            _ => if let Some((l, up)) = p.split_last() { let e = m.at(up).k.remove(*l); let d = node!().detach(); chk(d.root(), &e, None, un)?; if ch.n(2) == 0 { t.push_back(d); m.k.push(e) } }
        }
        chk(t.root(), &m, None, un)?;
        if m.count() > 40 { let f = t.abandon(); drop(f); m.k.clear(); chk(t.root(), &m, None, un)?; }
    }
    Ok(())
}
pub fn run(ch: &mut Ch, _p: &str) -> R {
    match ch.n(7) {
        0 => go::<()>(ch, |_| (), |_| 0, true),
        1 => go::<[u8; 3]>(ch, |v| { let v = v as u32; [v as u8, (v >> 8) as u8, 7] }, |a| if a[2] == 7 { a[0] as i32 + 256 * a[1] as i32 } else { -9 }, false),
        2 => go::<u128>(ch, |v| v as u128, |v| *v as i32, false),
        3 => go::<A64>(ch, |v| A64(v), |v| if v as *const A64 as usize % 64 == 0 { v.0 } else { -9 }, false),
        4 => go::<String>(ch, |v| format!("{} and some text on the heap", v), |s| s.split(' ').next().unwrap().parse().unwrap(), false),
        5 => go::<Box<i32>>(ch, |v| Box::new(v), |v| **v, false),
        _ => go::<[u64; 40]>(ch, |v| [v as u64; 40], |v| if v.iter().all(|x| *x == v[0]) { v[0] as i32 } else { -9 }, false),
    }
}
