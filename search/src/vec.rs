//! Executable contracts of the backing vector (V01)

use std::{
    num::NonZeroUsize,
    panic::{catch_unwind, AssertUnwindSafe},
};

use triple_arena::utils::NonZeroInxVec;

use crate::{kit::*, galloc};

pub trait El: Clone {
    const TOK: bool = false;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
    fn norm(v: u64) -> u64 {
        v
    }
}

impl El for Tok {
    const TOK: bool = true;

    fn mk(v: u64) -> Self {
        Tok::new(v)
    }

    fn val(&self) -> u64 {
        self.v
    }

    fn set(&mut self, v: u64) {
        self.v = v
    }
}

impl El for u8 {
    fn mk(v: u64) -> Self {
        v as u8
    }

    fn val(&self) -> u64 {
        *self as u64
    }

    fn set(&mut self, v: u64) {
        *self = v as u8
    }

    fn norm(v: u64) -> u64 {
        v & 0xff
    }
}

impl El for [u8; 3] {
    fn mk(v: u64) -> Self {
        [v as u8, (v >> 8) as u8, 7]
    }

    fn val(&self) -> u64 {
        self[0] as u64 + ((self[1] as u64) << 8) + ((self[2] != 7) as u64) * 70_000
    }

    fn set(&mut self, v: u64) {
        *self = Self::mk(v)
    }

    fn norm(v: u64) -> u64 {
        v & 0xffff
    }
}

impl El for Box<u64> {
    fn mk(v: u64) -> Self {
        Box::new(v)
    }

    fn val(&self) -> u64 {
        **self
    }

    fn set(&mut self, v: u64) {
        **self = v
    }
}

#[derive(Clone)]
#[repr(align(64))]
pub struct Aligned(u64);

impl El for Aligned {
    fn mk(v: u64) -> Self {
        Aligned(v)
    }

    fn val(&self) -> u64 {
        if (self as *const Self as usize) % 64 != 0 {
            return u64::MAX
        }
        self.0
    }

    fn set(&mut self, v: u64) {
        self.0 = v
    }
}

#[derive(Clone)]
pub struct Big([u64; 40]);

impl El for Big {
    fn mk(v: u64) -> Self {
        Big([v; 40])
    }

    fn val(&self) -> u64 {
        if self.0.iter().any(|x| *x != self.0[0]) {
            return u64::MAX
        }
        self.0[0]
    }

    fn set(&mut self, v: u64) {
        self.0 = [v; 40]
    }
}

pub struct VecM<T: El> {
    v: NonZeroInxVec<T>,
    m: Vec<u64>,
    next: u64,
    bias: u32,
}

/// runs with allocation tracking on
fn tr<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    galloc::resume();
    let r = catch_unwind(AssertUnwindSafe(f));
    galloc::pause();
    r.map_err(|_| ())
}

impl<T: El> VecM<T> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn inx(&self, r: u32) -> usize {
        match r % 8 {
            0 => self.m.len() + 1,
            1 => self.v.capacity() + 1,
            2 => usize::MAX,
            3 => self.m.len().max(1),
            4 => 1,
            _ => 1 + (r as usize / 8) % (self.m.len() + 1),
        }
    }

    fn check(&mut self, cx: &mut Cx, what: &str) {
        let n = self.m.len();
        cx.ck(
            self.v.len() == n && self.v.is_empty() == (n == 0) && self.v.capacity() >= n,
            "V01",
            || {
                format!(
                    "after {what}: length {} capacity {}, expected length {n}",
                    self.v.len(),
                    self.v.capacity()
                )
            },
        );
        if cx.stop {
            return
        }
        for (x, e) in self.m.iter().enumerate() {
            let i = NonZeroUsize::new(x + 1).unwrap();
            let g = self.v.get(i).map(|t| t.val());
            cx.ck(g == Some(*e), "V01", || format!("after {what}: element {i} is {g:?}, expected {e}"));
        }
        let w: Vec<usize> = self.v.nziter().into_iter().take(n + 1).map(|i| i.get()).collect();
        cx.ck(w.iter().copied().eq(1..=n), "V01", || format!("after {what}: indexes {w:?}"));
        if T::TOK {
            let (live, errs) = reg_state();
            cx.ck(errs == 0 && live == n, "V01", || {
                format!("after {what}: {live} elements alive, {n} expected, {errs} dropped twice")
            });
        }
        galloc::check(cx);
    }
}

impl<T: El> Machine for VecM<T> {
    fn new(flags: u32) -> Self {
        galloc::begin();
        galloc::pause();
        VecM {
            v: if flags & 1 == 0 {
                NonZeroInxVec::new()
            } else {
                NonZeroInxVec::default()
            },
            m: vec![],
            next: 0,
            bias: flags,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let c = op.code % 100;
        let push = if self.bias & 2 == 0 { 45 } else { 65 };
        let what;
        let v = &mut self.v;
        let m = &mut self.m;
        if c < push {
            self.next += 1;
            let x = self.next;
            what = format!("push({x})");
            cx.log(|| what.clone());
            let cap = v.capacity();
            if tr(|| v.push(T::mk(x))).is_err() {
                cx.fail("V01", format!("{what} panicked"));
                return
            }
            cx.ck(m.len() == cap || v.capacity() == cap, "V01", || "needless growth".to_owned());
            m.push(T::norm(x));
        } else if c < 72 {
            what = "pop".to_owned();
            cx.log(|| what.clone());
            match tr(|| v.pop()) {
                Err(()) => {
                    cx.fail("V01", "pop panicked".to_owned());
                    return
                }
                Ok(r) => {
                    let g = r.as_ref().map(|t| t.val());
                    let e = m.pop();
                    cx.ck(g == e, "V01", || format!("pop is {g:?}, expected {e:?}"));
                    drop(r);
                }
            }
        } else {
            match (op.code / 100) % 12 {
                0..=2 => {
                    let i = self.inx(op.a);
                    let x = self.fresh();
                    what = format!("get_mut({i})");
                    cx.log(|| what.clone());
                    let v = &mut self.v;
                    let m = &mut self.m;
                    let nz = NonZeroUsize::new(i).unwrap();
                    let g0 = v.get(nz).map(|t| t.val());
                    let g = v.get_mut(nz).map(|t| {
                        let r = t.val();
                        t.set(x);
                        r
                    });
                    let e = m.get(i - 1).copied();
                    cx.ck(g == e && g0 == e, "V01", || {
                        format!("get({i}) is {g0:?}, get_mut {g:?}, expected {e:?}")
                    });
                    if let Some(e) = m.get_mut(i - 1) {
                        *e = T::norm(x);
                    }
                }
                3..=5 => {
                    let i = self.inx(op.a);
                    let j = if op.c % 5 == 0 { i } else { self.inx(op.b) };
                    let (x, y) = (self.fresh(), self.fresh());
                    what = format!("get2_mut({i}, {j})");
                    cx.log(|| what.clone());
                    let v = &mut self.v;
                    let m = &mut self.m;
                    let (a, b) = (NonZeroUsize::new(i).unwrap(), NonZeroUsize::new(j).unwrap());
                    let g = v.get2_mut(a, b).map(|(s, t)| {
                        let r = (s.val(), t.val());
                        s.set(x);
                        t.set(y);
                        r
                    });
                    let e = if i == j {
                        None
                    } else {
                        m.get(i - 1).copied().zip(m.get(j - 1).copied())
                    };
                    cx.ck(g == e, "V01", || format!("get2_mut({i}, {j}) is {g:?}, expected {e:?}"));
                    if e.is_some() {
                        m[i - 1] = T::norm(x);
                        m[j - 1] = T::norm(y);
                    }
                }
                6 | 7 => {
                    let k = match op.a % 12 {
                        0 => usize::MAX,
                        1 => usize::MAX - (op.b as usize % 4),
                        2 => usize::MAX / 2 + 1 + (op.b as usize % 4),
                        _ => op.b as usize % 40,
                    };
                    what = format!("reserve({k})");
                    cx.log(|| what.clone());
                    let cap = v.capacity();
                    match tr(|| v.reserve(k)) {
                        Err(()) => cx.ck(k > 1000 && v.capacity() == cap, "V01", || {
                            format!("{what} panicked")
                        }),
                        Ok(()) => {
                            let ok = k < 1000 && v.capacity() >= m.len() + k && v.capacity() >= cap;
                            cx.ck(ok, "V01", || format!("{what} left capacity {}", v.capacity()));
                        }
                    }
                }
                8 => {
                    what = "shrink_to_fit".to_owned();
                    cx.log(|| what.clone());
                    let r = tr(|| v.shrink_to_fit());
                    cx.ck(r.is_ok() && v.capacity() == m.len(), "V01", || {
                        format!("shrink_to_fit left capacity {} for {}", v.capacity(), m.len())
                    });
                }
                9 => {
                    if op.a % 3 != 0 {
                        return
                    }
                    what = "clear".to_owned();
                    cx.log(|| what.clone());
                    let cap = v.capacity();
                    let r = tr(|| v.clear());
                    cx.ck(r.is_ok() && v.capacity() == cap, "V01", || "clear".to_owned());
                    m.clear();
                }
                10 => {
                    if op.a % 3 != 0 {
                        return
                    }
                    what = "clear_and_shrink".to_owned();
                    cx.log(|| what.clone());
                    let r = tr(|| v.clear_and_shrink());
                    cx.ck(r.is_ok() && v.capacity() == 0, "V01", || "clear_and_shrink".to_owned());
                    m.clear();
                }
                _ => {
                    what = "clone".to_owned();
                    cx.log(|| what.clone());
                    match tr(|| v.clone()) {
                        Err(()) => {
                            cx.fail("V01", "clone panicked".to_owned());
                            return
                        }
                        Ok(c) => {
                            // keep the copy, the original must be unaffected by
                            // changes to it until it is dropped
                            let old = std::mem::replace(v, c);
                            let ok = old.len() == m.len()
                                && m.iter().enumerate().all(|(x, e)| {
                                    old.get(NonZeroUsize::new(x + 1).unwrap()).map(|t| t.val())
                                        == Some(*e)
                                });
                            cx.ck(ok, "V01", || "cloning changed the original".to_owned());
                            let _ = tr(move || drop(old));
                        }
                    }
                }
            }
        }
        if !cx.stop {
            self.check(cx, &what);
        }
    }

    fn finish(mut self, cx: &mut Cx) {
        self.check(cx, "the last operation");
        if cx.stop {
            std::mem::forget(self);
            return
        }
        galloc::resume();
        drop(self.v);
        galloc::pause();
        drop(self.m);
        let live = galloc::end();
        if T::TOK {
            let (live, errs) = reg_state();
            cx.ck(live == 0 && errs == 0, "V01", || {
                format!("{live} elements never dropped, {errs} dropped twice")
            });
        } else {
            cx.ck(live == 0, "V01", || format!("{live} allocations not released"));
        }
        galloc::check(cx);
    }
}
