//! Executable contracts of the index and generation types (P01)

use std::{
    num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize},
    panic::{catch_unwind, AssertUnwindSafe},
};

use triple_arena::{
    utils::{PtrGen, PtrInx, PtrNoGen},
    Ptr,
};

use crate::{kit::*, types::*};

pub struct PtrM;

fn val(r: &Op) -> u128 {
    let x = ((r.b as u128) << 96) | ((r.c as u128) << 64) | ((r.a as u128) << 32) | r.code as u128;
    let sh = r.c % 128;
    match r.b % 8 {
        0 => 1 + (r.a % 4) as u128,
        1 => (1u128 << sh).wrapping_add((r.a % 5) as u128).wrapping_sub(2),
        2 => u128::MAX - (r.a % 4) as u128,
        3 => u64::MAX as u128 - (r.a % 4) as u128,
        _ => x >> sh,
    }
}

fn inx<I: PtrInx>(v: u128, cx: &mut Cx, name: &str) {
    let max = max_of::<I>().min(usize::MAX as u128);
    let m = <I as PtrInx>::max().get() as u128;
    cx.ck(m == max, "P01", || format!("{name}: maximum {m}, expected {max}"));
    let v = v.clamp(1, max);
    let nz = NonZeroUsize::new(v as usize).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let i = I::new(nz);
        (raw(i), I::get(i).get() as u128, i)
    }));
    match r {
        Err(_) => cx.fail("P01", format!("{name}: converting {v} panicked")),
        Ok((a, b, i)) => {
            cx.ck(a == v && b == v, "P01", || format!("{name}: {v} becomes {a} and then {b}"));
            let w = if v == max { v - 1 } else { v + 1 };
            if w != 0 {
                let j = I::new(NonZeroUsize::new(w as usize).unwrap());
                cx.ck(i != j && (i < j) == (v < w), "P01", || format!("{name}: {v} and {w} collide"));
            }
        }
    }
}

fn gen<G: PtrGen>(v: u128, cx: &mut Cx, name: &str) {
    let max = max_of::<G>();
    cx.ck(raw(G::one()) == 1 && raw(G::two()) == 2 && G::one() < G::two(), "P01", || {
        format!("{name}: first generations {:?} {:?}", G::one(), G::two())
    });
    let v = v.clamp(1, max);
    let r = catch_unwind(AssertUnwindSafe(|| raw(G::increment(mk::<G>(v)))));
    match r {
        Err(_) => cx.ck(v == max, "P01 A04", || format!("{name}: incrementing {v} panicked")),
        Ok(r) => cx.ck(v != max && r == v + 1, "P01 A04", || format!("{name}: {v} increments to {r}")),
    }
}

fn ptr<P: Ptr>(v: u128, op: &Op, cx: &mut Cx, name: &str) {
    let i = v.clamp(1, max_of::<P::Inx>().min(usize::MAX as u128));
    let g = ((v >> 7) ^ op.a as u128).clamp(1, max_of::<P::Gen>().max(1));
    let p: P = forge(i as usize, g);
    cx.ck(raw(p.inx()) == i && (!counted::<P>() || raw(p.generation()) == g), "P01", || {
        format!("{name}: pointer from {i} {g} is {p:?}")
    });
    let j = if i == 1 { 2 } else { i - 1 };
    let q: P = forge(j as usize, g);
    cx.ck(p == p.clone() && p != q && (p < q) == (i < j), "P01", || format!("{name}: {p:?} {q:?}"));
    if counted::<P>() {
        let h = if g == 1 { 2 } else { g - 1 };
        let q: P = forge(i as usize, h);
        cx.ck(p != q, "P01", || format!("{name}: {p:?} equals {q:?}"));
    }
    let x = P::invalid();
    cx.ck(!counted::<P>() || raw(x.generation()) == 1, "P01", || format!("{name}: invalid {x:?}"));
    cx.ck(raw(x.inx()) == max_of::<P::Inx>().min(usize::MAX as u128), "P01", || {
        format!("{name}: invalid {x:?}")
    });
}

fn nogen<P: Ptr>(v: u128, op: &Op, cx: &mut Cx, name: &str) {
    ptr::<P>(v, op, cx, name);
    ptr::<PtrNoGen<P>>(v, op, cx, name);
}

impl Machine for PtrM {
    fn new(_: u32) -> Self {
        PtrM
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let v = val(op);
        cx.log(|| format!("value {v:#x}"));
        inx::<NonZeroU8>(v, cx, "u8 index");
        inx::<NonZeroU16>(v, cx, "u16 index");
        inx::<NonZeroU32>(v, cx, "u32 index");
        inx::<NonZeroU64>(v, cx, "u64 index");
        inx::<NonZeroU128>(v, cx, "u128 index");
        inx::<NonZeroUsize>(v, cx, "usize index");
        gen::<NonZeroU8>(v, cx, "u8 generation");
        gen::<NonZeroU16>(v, cx, "u16 generation");
        gen::<NonZeroU32>(v, cx, "u32 generation");
        gen::<NonZeroU64>(v, cx, "u64 generation");
        gen::<NonZeroU128>(v, cx, "u128 generation");
        nogen::<PDef>(v, op, cx, "default");
        nogen::<P88>(v, op, cx, "u8/u8");
        nogen::<PNo>(v, op, cx, "no generation");
        nogen::<P8No>(v, op, cx, "u8/none");
        nogen::<P1616>(v, op, cx, "u16/u16");
        nogen::<PG8>(v, op, cx, "usize/u8");
        nogen::<PWide>(v, op, cx, "u128/u128");
        if op.code % 64 == 0 {
            for v in 1..=255 {
                inx::<NonZeroU8>(v, cx, "u8 index");
                gen::<NonZeroU8>(v, cx, "u8 generation");
            }
            for v in 1..=65535 {
                inx::<NonZeroU16>(v, cx, "u16 index");
                gen::<NonZeroU16>(v, cx, "u16 generation");
            }
        }
    }

    fn finish(self, _: &mut Cx) {}
}
