//! Allocation and payload tracking: every release of storage or of a payload is checked.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicUsize, Ordering::Relaxed};

pub struct Tracker;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
pub static MAXB: AtomicI64 = AtomicI64::new(1 << 28);
static BYTES: AtomicI64 = AtomicI64::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static QUAR: AtomicPtr<Hdr> = AtomicPtr::new(std::ptr::null_mut());
const LIVE_M: u64 = 0x11fe_a110_c8ed_0001;
const FREE_M: u64 = 0xdead_f7ee_dead_0002;
#[repr(C)]
struct Hdr { magic: u64, size: usize, align: usize, tracked: usize, next: *mut Hdr, pad: u64 }
const RED: usize = 16;
fn off(align: usize) -> usize { let h = std::mem::size_of::<Hdr>(); if align > 16 { (h + align - 1) / align * align } else { h } }
fn lay(size: usize, align: usize) -> Layout { Layout::from_size_align(off(align) + size + RED, align.max(16)).unwrap() }
pub const E_FREE: usize = 1;
pub const E_RED: usize = 2;
pub const E_UAF: usize = 4;
pub const E_LAYOUT: usize = 8;
unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let p = System.alloc(lay(l.size(), l.align()));
        if p.is_null() { return p }
        let q = p.add(o);
        let h = (q as *mut Hdr).sub(1);
        let on = ON.load(Relaxed);
        h.write(Hdr { magic: LIVE_M, size: l.size(), align: l.align(), tracked: on as usize, next: std::ptr::null_mut(), pad: 0 });
        q.write_bytes(0xCD, l.size());
        q.add(l.size()).write_bytes(0xAB, RED);
        if on {
            LIVE.fetch_add(1, Relaxed);
            if BYTES.fetch_add(l.size() as i64, Relaxed) > MAXB.load(Relaxed) { spent(b"STORAGE-EXPLOSION\n") }
        }
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = (q as *mut Hdr).sub(1);
        if (*h).magic != LIVE_M {
            ERR.fetch_or(E_FREE, Relaxed);
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() { ERR.fetch_or(E_LAYOUT, Relaxed); }
        for i in 0..RED { if *q.add((*h).size + i) != 0xAB { ERR.fetch_or(E_RED, Relaxed); } }
        if (*h).tracked == 1 {
            LIVE.fetch_add(-1, Relaxed);
            BYTES.fetch_add(-((*h).size as i64), Relaxed);
            (*h).magic = FREE_M;
            q.write_bytes(0xDD, (*h).size);
            (*h).next = QUAR.load(Relaxed);
            QUAR.store(h, Relaxed);
        } else {
            (*h).magic = FREE_M;
            System.dealloc(q.sub(off(l.align())), lay((*h).size, (*h).align));
        }
    }
}
extern "C" { fn write(fd: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
/// resources used up: a failure in small scenarios, inconclusive in those with very many nodes
fn spent(s: &[u8]) -> ! { if LIMIT.load(Relaxed) > 1 << 14 { unsafe { _exit(0) } } die(s) }
pub fn die(s: &[u8]) -> ! { unsafe { write(1, s.as_ptr(), s.len()); _exit(77) } }
pub fn begin() { ERR.store(0, Relaxed); LIVE.store(0, Relaxed); BYTES.store(0, Relaxed); ON.store(true, Relaxed); }
pub fn live() -> i64 { LIVE.load(Relaxed) }
/// stops tracking, checks the quarantine; returns an error description if storage was mishandled
pub fn finish() -> Result<(), String> {
    ON.store(false, Relaxed);
    unsafe {
        let mut h = QUAR.swap(std::ptr::null_mut(), Relaxed);
        while !h.is_null() {
            let n = (*h).next;
            let q = h.add(1) as *mut u8;
            for i in 0..(*h).size { if *q.add(i) != 0xDD { ERR.fetch_or(E_UAF, Relaxed); break } }
            System.dealloc(q.sub(off((*h).align)), lay((*h).size, (*h).align));
            h = n;
        }
    }
    let e = ERR.load(Relaxed);
    if e & E_FREE != 0 { return Err("storage released that is not (or no longer) allocated".into()) }
    if e & E_LAYOUT != 0 { return Err("storage released with a wrong layout".into()) }
    if e & E_RED != 0 { return Err("write past the end of an allocation".into()) }
    if e & E_UAF != 0 { return Err("write to released storage".into()) }
    Ok(())
}

// ------------------------------------------------------------------ payloads
use std::cell::RefCell;
thread_local! { static REG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) }; static PERR: RefCell<Option<String>> = const { RefCell::new(None) }; }
pub static LIMIT: AtomicUsize = AtomicUsize::new(1 << 14);
const MAGIC: u32 = 0x5AFE_DA7A;
pub struct P { magic: u32, id: u32, v: i32 }
fn perr(s: &str) { PERR.with(|e| { let mut e = e.borrow_mut(); if e.is_none() { *e = Some(s.to_string()) } }) }
pub fn pay_reset() {
    let on = ON.swap(false, Relaxed);
    REG.with(|r| { let mut r = r.borrow_mut(); r.clear(); r.reserve(1 << 14) });
    PERR.with(|e| *e.borrow_mut() = None);
    ON.store(on, Relaxed);
}
pub fn pay_err() -> Option<String> { PERR.with(|e| e.borrow().clone()) }
pub fn pay_live() -> usize { REG.with(|r| r.borrow().iter().filter(|x| **x == 1).count()) }
impl P {
    pub fn new(v: i32) -> P {
        let id = REG.with(|r| { let mut r = r.borrow_mut(); if r.len() == r.capacity() { let on = ON.swap(false, Relaxed); r.reserve(1 << 14); ON.store(on, Relaxed); } if r.len() >= LIMIT.load(Relaxed) { spent(b"TOO-MANY-PAYLOADS\n") } r.push(1); r.len() as u32 - 1 });
        P { magic: MAGIC, id, v }
    }
    pub fn id(&self) -> u32 { self.check("read"); self.id }
    pub fn v(&self) -> i32 { self.check("read"); self.v }
    pub fn set(&mut self, v: i32) { self.check("write"); self.v = v }
    fn check(&self, what: &str) {
        if self.magic != MAGIC { die(b"PAYLOAD-GARBAGE: access to memory that holds no payload\n") }
        let st = REG.with(|r| r.borrow().get(self.id as usize).cloned().unwrap_or(9));
        if st != 1 { perr(&format!("{} of a payload that was already dropped", what)) }
    }
}
impl Drop for P {
    fn drop(&mut self) {
        if self.magic != MAGIC { die(b"PAYLOAD-GARBAGE: drop of memory that holds no payload\n") }
        REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.get_mut(self.id as usize) { Some(x) if *x == 1 => *x = 2, _ => perr("payload dropped more than once") }
        })
    }
}
impl Clone for P { fn clone(&self) -> P { P::new(self.v()) } }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.v() == o.v() } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> { self.v().partial_cmp(&o.v()) } }
impl Ord for P { fn cmp(&self, o: &P) -> std::cmp::Ordering { self.v().cmp(&o.v()) } }
impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_i32(self.v()) } }
impl std::fmt::Display for P { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.v()) } }
impl std::fmt::Debug for P { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.v()) } }
