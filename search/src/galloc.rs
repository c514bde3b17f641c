//! A checking allocator: layouts must match on deallocation, blocks are
//! bracketed by canaries, fresh memory is filled with junk, and freed blocks
//! stay in a quarantine (per thread) whose fill pattern is verified.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

use crate::kit::Cx;

pub struct Galloc;

const MAGIC: u64 = 0x5AFE_B10C_0DD5_EED5;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: usize = 16;
const QN: usize = 32;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    pad: usize,
}

thread_local! {
    static ERRS: Cell<u32> = const { Cell::new(0) };
    static WHAT: Cell<&'static str> = const { Cell::new("") };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static QUAR: Cell<[usize; QN]> = const { Cell::new([0; QN]) };
    static QPOS: Cell<usize> = const { Cell::new(0) };
}

fn err(w: &'static str) {
    let _ = ERRS.try_with(|e| e.set(e.get() + 1));
    let _ = WHAT.try_with(|e| e.set(w));
}

fn offset(align: usize) -> usize {
    std::mem::size_of::<Head>().max(align)
}

fn full(l: Layout) -> Option<(Layout, usize)> {
    let off = offset(l.align());
    let size = off.checked_add(l.size())?.checked_add(TAIL)?;
    Layout::from_size_align(size, l.align().max(16)).ok().map(|f| (f, off))
}

unsafe fn release(user: *mut u8) {
    unsafe {
        let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        let (size, align) = ((*h).size, (*h).align);
        (*h).magic = 0;
        if let Some((f, off)) = full(Layout::from_size_align_unchecked(size, align)) {
            System.dealloc(user.sub(off), f);
        }
    }
}

unsafe fn check_poison(user: *mut u8) {
    unsafe {
        let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        if (*h).magic != FREED {
            err("header of a freed block overwritten");
            return
        }
        for i in 0..(*h).size {
            if *user.add(i) != 0xDD {
                err("write to freed memory");
                break
            }
        }
    }
}

unsafe impl GlobalAlloc for Galloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let Some((f, off)) = full(l) else { return std::ptr::null_mut() };
            let p = System.alloc(f);
            if p.is_null() {
                return p
            }
            let user = p.add(off);
            let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
            h.write(Head {
                magic: MAGIC,
                size: l.size(),
                align: l.align(),
                pad: 0,
            });
            if TRACK.try_with(|t| t.get()).unwrap_or(false) {
                (*h).pad = 1;
                std::ptr::write_bytes(user, 0xA5, l.size());
                let _ = LIVE.try_with(|c| c.set(c.get() + 1));
            }
            std::ptr::write_bytes(user.add(l.size()), 0xC7, TAIL);
            user
        }
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        unsafe {
            let h = user.sub(std::mem::size_of::<Head>()) as *mut Head;
            if (*h).magic != MAGIC {
                err(if (*h).magic == FREED {
                    "double free"
                } else {
                    "free of something that is not an allocation"
                });
                return
            }
            if (*h).size != l.size() || (*h).align != l.align() {
                err("free with a different layout");
            }
            let size = (*h).size;
            for i in 0..TAIL {
                if *user.add(size + i) != 0xC7 {
                    err("write past the end of an allocation");
                    break
                }
            }
            if (*h).pad == 1 {
                let _ = LIVE.try_with(|c| c.set(c.get() - 1));
                if size <= 4096 && TRACK.try_with(|t| t.get()).unwrap_or(false) {
                    (*h).magic = FREED;
                    std::ptr::write_bytes(user, 0xDD, size);
                    let pos = QPOS.with(|q| q.get());
                    let mut arr = QUAR.with(|q| q.get());
                    let old = arr[pos];
                    arr[pos] = user as usize;
                    QUAR.with(|q| q.set(arr));
                    QPOS.with(|q| q.set((pos + 1) % QN));
                    if old != 0 {
                        check_poison(old as *mut u8);
                        release(old as *mut u8);
                    }
                    return
                }
            }
            release(user);
        }
    }
}

/// Starts tracking on this thread
pub fn begin() {
    ERRS.with(|e| e.set(0));
    LIVE.with(|e| e.set(0));
    TRACK.with(|t| t.set(true));
}

/// Stops tracking, empties the quarantine; returns live tracked blocks
pub fn end() -> isize {
    TRACK.with(|t| t.set(false));
    let arr = QUAR.with(|q| q.replace([0; QN]));
    QPOS.with(|q| q.set(0));
    for p in arr {
        if p != 0 {
            unsafe {
                check_poison(p as *mut u8);
                release(p as *mut u8);
            }
        }
    }
    LIVE.with(|e| e.get())
}

/// Stops recording further blocks without looking at the quarantine
pub fn pause() -> bool {
    TRACK.with(|t| t.replace(false))
}

pub fn resume() {
    TRACK.with(|t| t.set(true));
}

pub fn errors() -> (u32, &'static str) {
    (ERRS.with(|e| e.replace(0)), WHAT.with(|w| w.get()))
}

pub fn check(cx: &mut Cx) {
    let (n, w) = errors();
    cx.ck(n == 0, "V01", || format!("allocator: {w} ({n} errors)"));
}
