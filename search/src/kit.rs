//! Shared machinery: random numbers, drop-tracked tokens, failure collection,
//! the operation language, running, shrinking and replay files.

use std::{
    cell::RefCell,
    collections::HashSet,
    panic::{catch_unwind, AssertUnwindSafe},
};

use triple_arena::{
    utils::{PtrGen, PtrInx},
    Ptr,
};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

/// The integer inside a generation (`()` counts as 0), read from its bytes so
/// that it does not depend on the functions under test
pub fn raw<I: Copy>(i: I) -> u128 {
    let n = std::mem::size_of::<I>();
    let mut b = [0u8; 16];
    assert!(n <= 16);
    unsafe { std::ptr::copy_nonoverlapping(&i as *const I as *const u8, b.as_mut_ptr(), n) };
    u128::from_le_bytes(b)
}

/// Inverse of [raw], `v` must fit and must not be zero
pub fn mk<I: Copy>(v: u128) -> I {
    let n = std::mem::size_of::<I>();
    let v = if n < 16 { v & ((1u128 << (8 * n)) - 1) } else { v };
    let v = if v == 0 { 1 } else { v };
    let b = v.to_le_bytes();
    let mut out = std::mem::MaybeUninit::<I>::uninit();
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), out.as_mut_ptr() as *mut u8, n);
        out.assume_init()
    }
}

pub fn max_of<I>() -> u128 {
    let n = std::mem::size_of::<I>();
    if n == 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}

/// (index, generation) of a pointer as plain integers
pub fn key<P: Ptr>(p: P) -> (usize, u128) {
    (raw(p.inx()) as usize, raw(p.generation()))
}

pub fn forge<P: Ptr>(i: usize, g: u128) -> P {
    let inx = mk::<P::Inx>(i as u128);
    if std::mem::size_of::<P::Gen>() == 0 {
        P::_from_raw(inx, <P::Gen as PtrGen>::two())
    } else {
        P::_from_raw(inx, mk::<P::Gen>(g))
    }
}

pub fn counted<P: Ptr>() -> bool {
    std::mem::size_of::<P::Gen>() != 0
}

pub fn gmax<P: Ptr>() -> u128 {
    max_of::<P::Gen>()
}

/// Largest usable index
pub fn imax<P: Ptr>() -> usize {
    let _ = <P::Inx as PtrInx>::max();
    std::cmp::min(max_of::<P::Inx>(), usize::MAX as u128) as usize
}

// ---- drop tracking

#[derive(Default)]
struct Reg {
    live: HashSet<u32>,
    next: u32,
    errs: u32,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

pub fn reg_reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}

/// (tokens still alive, drops of something that was not alive)
pub fn reg_state() -> (usize, u32) {
    REG.with(|r| {
        let r = r.borrow();
        (r.live.len(), r.errs)
    })
}

/// A value whose every instance must be dropped exactly once
#[derive(Debug)]
pub struct Tok {
    pub v: u64,
    serial: u32,
}

impl Tok {
    pub fn new(v: u64) -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let serial = r.next;
            r.live.insert(serial);
            Tok { v, serial }
        })
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.v)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let serial = self.serial;
        let _ = REG.try_with(|r| {
            if let Ok(mut r) = r.try_borrow_mut() {
                if !r.live.remove(&serial) {
                    r.errs += 1;
                }
            }
        });
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.v == o.v
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}

#[cfg(feature = "serde")]
impl serde::Serialize for Tok {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.v.serialize(s)
    }
}
#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Tok {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        Ok(Tok::new(u64::deserialize(d)?))
    }
}

// ---- failures

#[derive(Clone, Debug)]
pub struct Failure {
    pub labels: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Cx {
    pub fails: Vec<Failure>,
    pub stop: bool,
    pub trace: Option<Vec<String>>,
    pub checks: u64,
    /// labels added to every failure (used for the E properties: an arena that
    /// came out of deserialization must behave)
    pub extra: &'static str,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Cx {
    pub fn ck(&mut self, ok: bool, labels: &str, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !ok {
            self.fail(labels, msg());
        }
    }

    pub fn fail(&mut self, labels: &str, msg: String) {
        if self.fails.len() < 40 {
            if let Some(t) = self.trace.as_mut() {
                t.push(format!("    !! [{labels}] {msg}"));
            }
            let labels = if self.extra.is_empty() {
                labels.to_owned()
            } else {
                format!("{labels} {}", self.extra)
            };
            self.fails.push(Failure { labels, msg });
        }
        self.stop = true;
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }

    /// Runs an operation of the code under test. `expect` says whether the
    /// documentation calls for a panic here. `None` is returned if it panicked.
    pub fn call<R>(
        &mut self,
        what: &str,
        labels: &str,
        expect: Expect,
        f: impl FnOnce() -> R,
    ) -> Option<R> {
        self.checks += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => {
                if let Expect::Panic(l) = expect {
                    self.fail(l, format!("{what} did not panic where it must"));
                    std::mem::forget(r);
                    return None
                }
                Some(r)
            }
            Err(_) => {
                self.stop = true;
                if matches!(expect, Expect::No) {
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    self.fail(labels, format!("{what} panicked: {m}"));
                }
                None
            }
        }
    }
}

#[derive(Clone, Copy)]
pub enum Expect {
    No,
    Panic(&'static str),
    /// either is fine
    May,
}

// ---- operations

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub code: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub trait Machine {
    fn new(flags: u32) -> Self;
    fn step(&mut self, op: &Op, cx: &mut Cx);
    fn finish(self, cx: &mut Cx);
}

pub struct Outcome {
    pub fails: Vec<Failure>,
    pub trace: Vec<String>,
    pub checks: u64,
}

pub fn run_ops<M: Machine>(flags: u32, ops: &[Op], trace: bool) -> Outcome {
    reg_reset();
    let mut cx = Cx {
        trace: if trace { Some(vec![]) } else { None },
        ..Cx::default()
    };
    let mut panicked = false;
    {
        let cxr = &mut cx;
        let r = catch_unwind(AssertUnwindSafe(move || {
            let mut m = M::new(flags);
            for op in ops {
                m.step(op, cxr);
                if cxr.stop {
                    break
                }
            }
            if cxr.stop {
                // after a panic or a failure the state is not meaningful any more
                std::mem::forget(m);
            } else {
                m.finish(cxr);
            }
        }));
        if r.is_err() {
            panicked = true;
        }
    }
    if panicked && cx.fails.is_empty() {
        // a panic in an observation (not wrapped by `call`)
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        cx.fail("*", format!("an observation panicked: {m}"));
    }
    Outcome {
        fails: cx.fails,
        trace: cx.trace.unwrap_or_default(),
        checks: cx.checks,
    }
}

pub fn has_label(f: &Failure, prop: &str) -> bool {
    f.labels
        .split_whitespace()
        .any(|l| l == prop || l == "*" || prop == "*")
}

pub fn gen_ops(rng: &mut Rng) -> Vec<Op> {
    let n = match rng.below(10) {
        0 | 1 => 6,
        2..=4 => 24,
        5..=7 => 90,
        8 => 300,
        _ => 700,
    };
    (0..n)
        .map(|_| Op {
            code: rng.next() as u32,
            a: rng.next() as u32,
            b: rng.next() as u32,
            c: rng.next() as u32,
        })
        .collect()
}

pub type RunFn = fn(u32, &[Op], bool) -> Outcome;

/// Greedy removal of operations while the failure for `prop` remains
pub fn shrink(run: RunFn, flags: u32, ops: &[Op], prop: &str) -> Vec<Op> {
    let fails = |ops: &[Op]| run(flags, ops, false).fails.iter().any(|f| has_label(f, prop));
    let mut cur = ops.to_vec();
    let start = std::time::Instant::now();
    let mut chunk = cur.len() / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < cur.len() {
            if start.elapsed().as_secs() > 15 {
                return cur
            }
            let mut t = cur.clone();
            let end = (i + chunk).min(t.len());
            t.drain(i..end);
            if fails(&t) {
                cur = t;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    cur
}
