//! Bounded differential replay: drives the real crate with generated histories and compares it
//! with a reference model.  Used to look for a concrete failing input; never counted as proof.
mod track; mod model; mod edit; mod read; mod walk; mod rcs; mod tuples; mod tuples_gen; mod nota; mod types;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
#[global_allocator]
static A: track::Tracker = track::Tracker;

/// a source of choices: a recorded prefix, then random values (recorded)
pub struct Ch { pub w: Vec<u32>, i: usize, rng: Option<u64>, pub log: String, pub logging: bool }
pub type R = Result<(), String>;
impl Ch {
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { return 0 }
        if self.i < self.w.len() { let v = self.w[self.i]; self.i += 1; return (v as usize) % n }
        match self.rng.as_mut() {
            Some(s) => {
                *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17;
                let v = (s.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as usize % n;
                if self.w.len() < self.w.capacity() { self.w.push(v as u32); self.i += 1; }
                v
            }
            None => 0,
        }
    }
    pub fn done(&self) -> bool { self.rng.is_none() && self.i >= self.w.len() }
    pub fn say(&mut self, s: impl Fn() -> String) { if self.logging { let s = s(); if s.len() > 2000 { println!("  {} ... ({} bytes)", s.chars().take(400).collect::<String>(), s.len()) } else { println!("  {}", s) } } }
}
pub fn track_off<T>(f: impl FnOnce() -> T) -> T { f() }

type Scen = fn(&mut Ch, &str) -> R;
fn scens(p: &str) -> Vec<(&'static str, Scen)> {
    match p {
        "C01" | "C02" | "C03" => vec![("edit", edit::run), ("rcs", rcs::run), ("build", read::build)],
        "C05" => vec![("edit", edit::run), ("release", read::release), ("rcs", rcs::run), ("tuples", tuples::run), ("notation", nota::run), ("types", types::run)],
        "C04" => vec![("iter", read::iter)],
        "C06" => vec![("bfs", read::bfs)],
        "C07" => vec![("rebuild", read::rebuild), ("types", types::run)],
        "C08" => vec![("walk", walk::tour), ("tour-after-moves", walk::run)],
        "C09" => vec![("walk", walk::run)],
        "C10" => vec![("tuples", tuples::run), ("types", types::run)],
        "C11" => vec![("tuples", tuples::run)],
        "C12" => vec![("notation", nota::run)],
        "C13" | "C14" => vec![("rcs", rcs::run), ("types", types::run)],
        "C15" => vec![("order", read::order), ("rcs", rcs::run)],
        "C16" => vec![("print", read::print), ("rcs", rcs::run)],
        _ => vec![],
    }
}
/// a scenario, or one with very many nodes (the first tree has that many)
fn variants(p: &str) -> Vec<(String, Scen, usize)> {
    let ss = scens(p); let mut v = vec![];
    for h in [0, 256, 65536] { for (n, f) in &ss { if h == 0 || *n != "tuples" && *n != "types" { v.push((if h == 0 { n.to_string() } else { format!("{}+{}", n, h) }, *f, h)) } } }
    v
}
fn one(f: Scen, prop: &str, ch: &mut Ch, huge: usize) -> R {
    model::HUGE.store(huge, std::sync::atomic::Ordering::Relaxed);
    model::HUGE_FIRST.store(huge != 0, std::sync::atomic::Ordering::Relaxed);
    track::LIMIT.store(if huge > 0 { 1 << 21 } else { 1 << 14 }, std::sync::atomic::Ordering::Relaxed);
    track::MAXB.store(if huge > 0 { 1 << 31 } else { 1 << 28 }, std::sync::atomic::Ordering::Relaxed);
    ch.log.clear();
    ch.log.reserve(1 << 16);
    track::pay_reset();
    track::begin();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ch, prop)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("panic".into());
            Err(format!("panicked: {}", m))
        }
    };
    let live = track::live();
    let fin = track::finish();
    if let Err(e) = &r { if e == "skip" { return Ok(()) } }
    r?;
    if let Some(e) = track::pay_err() { return Err(e) }
    fin?;
    if prop == "C05" || prop == "C13" || prop == "C10" || prop == "C12" {
        let n = track::pay_live();
        if n != 0 { return Err(format!("{} payload(s) never dropped although everything was dropped", n)) }
        if live != 0 { return Err(format!("{} allocation(s) never released although everything was dropped", live)) }
    }
    Ok(())
}
extern "C" { fn alarm(s: u32) -> u32; fn signal(n: i32, f: usize) -> usize; fn _exit(c: i32) -> !; }
extern "C" fn slow(_: i32) { unsafe { _exit(0) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = a[2].clone();
    let ss = scens(&prop);
    let vs = variants(&prop);
    if a[1] == "names" { println!("{}", vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(" ")); return }
    if a[1] == "one" {
        // replay one PROP SCEN w,w,w
        let w: Vec<u32> = a[4].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let (_, f, huge) = vs.iter().find(|s| s.0 == a[3]).expect("scenario").clone();
        let logging = a.get(5).map(|s| s == "-v").unwrap_or(false);
        unsafe { alarm(if huge > 1000 { 60 } else { 20 }) };
        let mut ch = Ch { w, i: 0, rng: None, log: String::new(), logging };
        if logging { println!("history:"); LIVE_LOG.store(true, std::sync::atomic::Ordering::Relaxed); }
        let r = one(f, &prop, &mut ch, huge);
        match r { Ok(()) => { println!("HOLDS"); } Err(e) => { println!("FAILS {}", e); std::process::exit(1) } }
        return;
    }
    // replay run PROP SEED SECS PROGRESS SHARD NSHARD
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let prog = std::fs::File::create(&a[5]).unwrap();
    let shard: u64 = a[6].parse().unwrap();
    let nshard: u64 = a[7].parse().unwrap();
    let t0 = std::time::Instant::now();
    let mut evals = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut ex_done = true;
    let mut ex_total = 0u64;
    let fail = |sc: &str, w: &[u32], e: &str| -> ! {
        println!("FAIL {} {} {}", sc, w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), e.replace('\n', " ").chars().take(600).collect::<String>());
        std::process::exit(1)
    };
    let save = |sc: usize, w: &[u32]| {
        let mut b = Vec::with_capacity(8 + 4 * w.len());
        b.extend_from_slice(&(sc as u32).to_le_bytes()); b.extend_from_slice(&(w.len() as u32).to_le_bytes());
        for x in w { b.extend_from_slice(&x.to_le_bytes()); }
        let _ = prog.write_all_at(&b, 0);
    };
    // exhaustive part: all short choice sequences (odometer over the choices actually taken)
    for (si, (name, f)) in ss.iter().enumerate() {
        let lim = if nshard > 1 || shard == 0 { secs * 0.35 / ss.len() as f64 * (si + 1) as f64 } else { 0.0 };
        let mut stack: Vec<(u32, u32)> = Vec::new();
        let _ = &mut stack;
        let mut w: Vec<u32> = (0..shard_depth(nshard)).map(|_| 0).collect();
        let _ = &mut w;
        // enumerate by counting in mixed radix discovered from the run
        let mut cur: Vec<u32> = Vec::new();
        let mut k = 0u64;
        loop {
            if t0.elapsed().as_secs_f64() > lim { ex_done = false; break }
            if k % nshard == shard {
                save(si, &cur);
                unsafe { alarm(10) };
                let mut ch = Ch { w: cur.clone(), i: 0, rng: None, log: String::new(), logging: false };
                if let Err(e) = one(*f, &prop, &mut ch, 0) { fail(name, &cur, &e) }
                evals += 1; ex_total += 1;
                seen.insert(hash(si, &cur));
            }
            k += 1;
            // next sequence in length-lexicographic order with radix 6
            let mut j = cur.len();
            loop {
                if j == 0 { cur = vec![0; cur.len() + 1]; break }
                j -= 1;
                if cur[j] + 1 < RADIX { cur[j] += 1; for x in cur[j + 1..].iter_mut() { *x = 0 } break }
            }
        }
    }
    let draw = |idx: u64, si: usize, len: usize| {
        let mut rng = (seed.wrapping_mul(0x9E3779B97F4A7C15)) ^ (idx.wrapping_add(1)).wrapping_mul(0xD1B54A32D192ED03);
        if rng == 0 { rng = 1 }
        for _ in 0..3 { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; }
        // draw the words first, so that a crash can be replayed
        let mut w = Vec::with_capacity(len);
        for _ in 0..len { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; w.push((rng.wrapping_mul(0x2545F4914F6CDD1D) >> 40) as u32); }
        save(si, &w);
        w
    };
    let mut idx = shard;
    let mut done = vec![0u64; ss.len()];
    while t0.elapsed().as_secs_f64() < secs * 0.8 && !ss.is_empty() {
        let si = (idx / nshard) as usize % ss.len();
        let w = draw(idx, si, 8 + (idx / nshard / ss.len() as u64 % 24) as usize * 6);
        unsafe { alarm(10) };
        let mut ch = Ch { w, i: 0, rng: None, log: String::new(), logging: false };
        let r = one(ss[si].1, &prop, &mut ch, 0);
        if let Err(e) = r { let w = ch.w.clone(); fail(ss[si].0, &w, &e) }
        evals += 1; done[si] += 1;
        if seen.len() < 4_000_000 { seen.insert(hash(si, &ch.w[..ch.i.min(ch.w.len())])); }
        idx += nshard;
    }
    // trees past the range of narrow counters, in the time that is left; slowness alone is no failure
    use std::io::Write;
    let mut big = 0; // results are reported before: running out of resources below is inconclusive
    for tier in [256, 65536] {
        let hs: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].2 == tier).collect();
        let end = secs * if tier == 256 { 0.9 } else { 1.0 };
        while t0.elapsed().as_secs_f64() < end && !hs.is_empty() {
            let si = hs[(idx / nshard) as usize % hs.len()];
            let w = draw(idx, si, 8 + (idx / nshard / hs.len() as u64 % 5) as usize * 6);
            if big == 0 { println!("OK evals={} distinct={} short={} random={}", evals, seen.len(), ex_total, done.iter().sum::<u64>()); let _ = std::io::stdout().flush(); big = 1; }
            if tier > 1000 { unsafe { signal(14, slow as extern "C" fn(i32) as usize); } }
            unsafe { alarm(if tier > 1000 { 1 + (secs * 1.2) as u32 } else { 10 }) };
            let mut ch = Ch { w, i: 0, rng: None, log: String::new(), logging: false };
            if let Err(e) = one(vs[si].1, &prop, &mut ch, tier) { let w = ch.w.clone(); fail(&vs[si].0, &w, &e) }
            evals += 1; idx += nshard;
            if seen.len() < 4_000_000 { seen.insert(hash(si, &ch.w[..ch.i.min(ch.w.len())])); }
        }
    }
    let _ = ex_done;
    println!("OK evals={} distinct={} short={} random={}", evals, seen.len(), ex_total, done.iter().sum::<u64>());
}
const RADIX: u32 = 12;
pub static LIVE_LOG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn shard_depth(_n: u64) -> usize { 0 }
fn hash(s: usize, w: &[u32]) -> u64 { let mut h = 0xcbf29ce484222325u64 ^ s as u64; for x in w { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; } h }
