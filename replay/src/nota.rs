//! Expressions of tr, fr, -, / (C12).
use crate::model::*;
use crate::track::P;
use crate::{Ch, R};
use trees::{fr, tr, Forest, Tree};
enum X { T(Tree<P>, M), F(Forest<P>, Vec<M>) }
fn leaf(ch: &mut Ch, next: &mut i32) -> X {
    match ch.n(5) { 0 => X::F(fr(), vec![]), 1 => { let k = genf(ch, 3, next); X::F(buildf(ch, &k), k) } 2 => { let m = gen(ch, 3, next); X::T(build(ch, &m), m) } _ => { let v = *next; *next += 1; X::T(tr(P::new(v)), M::leaf(v)) } }
}
fn show(x: &X) -> String { match x { X::T(_, m) => m.show(), X::F(_, k) => showf(k) } }
fn chk(x: &X) -> R { let fl = LINKS | LIST | SIZES; match x { X::T(t, m) => check(t, m, None, fl), X::F(f, k) => checkf(f, k, fl) } }
fn neg(ch: &mut Ch, a: X) -> Result<X, String> {
    match a {
        X::T(t, m) => if ch.n(2) == 0 { let f = -t; Ok(X::F(f, vec![m])) } else { let f = -&t; check(&t, &m, None, 7)?; mutate(&mut Some(t)); Ok(X::F(f, vec![m])) },
        x => Ok(x),
    }
}
/// a / ()
fn unit(ch: &mut Ch, a: X) -> Result<X, String> {
    match a {
        X::T(t, m) => if ch.n(2) == 0 { Ok(X::T(t / (), m)) } else { let u = &t / (); check(&t, &m, None, 7)?; mutate(&mut Some(t)); Ok(X::T(u, m)) },
        x => Ok(x),
    }
}
fn mutate(t: &mut Option<Tree<P>>) { if let Some(mut t) = t.take() { t.root_mut().data_mut().set(-7); t.push_back(Tree::new(P::new(-8))); } }
macro_rules! refs { ($ch:expr, $a:ident, $b:ident, $ca:expr, $cb:expr, $op:tt) => {
    match $ch.n(4) {
        0 => $a $op $b,
        1 => { let r = $a $op &$b; $cb(&$b)?; drop($b); r }
        2 => { let r = &$a $op $b; $ca(&$a)?; drop($a); r }
        _ => { let r = &$a $op &$b; $ca(&$a)?; $cb(&$b)?; if $ch.n(2) == 0 { drop($a); drop($b) } else { drop($b); drop($a) } r }
    }
} }
fn sub(ch: &mut Ch, a: X, b: X) -> Result<X, String> {
    let fl = LINKS | LIST | SIZES;
    Ok(match (a, b) {
        (X::T(a, m), X::T(b, n)) => X::F(refs!(ch, a, b, |t: &Tree<P>| check(t, &m, None, fl), |t: &Tree<P>| check(t, &n, None, fl), -), vec![m, n]),
        (X::T(a, m), b) => { let a = neg(ch, X::T(a, m))?; return sub(ch, a, b) }
        (X::F(a, m), X::T(b, n)) => { let f = refs!(ch, a, b, |t: &Forest<P>| checkf(t, &m, fl), |t: &Tree<P>| check(t, &n, None, fl), -); let mut k = m; k.push(n); X::F(f, k) }
        (X::F(a, m), X::F(b, n)) => { let f = refs!(ch, a, b, |t: &Forest<P>| checkf(t, &m, fl), |t: &Forest<P>| checkf(t, &n, fl), -); let mut k = m; k.extend(n); X::F(f, k) }
    })
}
fn div(ch: &mut Ch, a: X, b: X) -> Result<X, String> {
    let fl = LINKS | LIST | SIZES;
    Ok(match (a, b) {
        (X::T(a, m), X::T(b, n)) => { let t = refs!(ch, a, b, |t: &Tree<P>| check(t, &m, None, fl), |t: &Tree<P>| check(t, &n, None, fl), /); let mut m = m; m.k.push(n); X::T(t, m) }
        (X::T(a, m), X::F(b, n)) => { let t = refs!(ch, a, b, |t: &Tree<P>| check(t, &m, None, fl), |t: &Forest<P>| checkf(t, &n, fl), /); let mut m = m; m.k.extend(n); X::T(t, m) }
        (a, b) => return sub(ch, a, b),
    })
}
pub fn run(ch: &mut Ch, _p: &str) -> R {
    let mut next = 0; let mut st: Vec<X> = vec![];
    let mut steps = 0;
    while !ch.done() && steps < 14 {
        steps += 1;
        match ch.n(6) {
            5 => if let Some(x) = st.pop() { ch.say(|| format!("{} / ()", show(&x))); let y = unit(ch, x)?; chk(&y)?; st.push(y) },
            0 => { let x = leaf(ch, &mut next); ch.say(|| format!("push {}", show(&x))); st.push(x) }
            1 => if let Some(x) = st.pop() { ch.say(|| format!("- {}", show(&x))); let y = neg(ch, x)?; chk(&y)?; st.push(y) },
            o => {
                while st.len() < 2 { let x = leaf(ch, &mut next); ch.say(|| format!("push {}", show(&x))); st.push(x) }
                let b = st.pop().unwrap(); let a = st.pop().unwrap();
                ch.say(|| format!("{} {} {}", show(&a), if o == 2 { "-" } else { "/" }, show(&b)));
                let y = if o == 2 { sub(ch, a, b)? } else { div(ch, a, b)? };
                chk(&y)?; 
                let big = match &y { X::T(_, m) => m.count(), X::F(_, k) => countf(k) } > 60;
                if !big { st.push(y) }
            }
        }
    }
    let back = ch.n(2) == 0;
    for x in st { match x { X::T(t, m) => teardown(t, &m, back, 7)?, X::F(f, k) => teardownf(f, &k, back, 7)? } }
    Ok(())
}
