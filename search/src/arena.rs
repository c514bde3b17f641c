//! Executable contracts of the plain arena

use std::collections::{BTreeMap, BTreeSet};

use triple_arena::{utils::PtrGen, Advancer, Arena, Ptr, Recast, Recaster};

use crate::kit::*;

#[derive(Clone, Default)]
pub struct Model {
    /// index -> (generation, value)
    pub live: BTreeMap<usize, (u128, u64)>,
    pub gen: u128,
}

impl Model {
    pub fn fresh<P: Ptr>() -> Model {
        Model {
            live: BTreeMap::new(),
            gen: if counted::<P>() { 2 } else { 0 },
        }
    }

    pub fn valid<P: Ptr>(&self, p: P) -> bool {
        let (i, g) = key(p);
        self.live.get(&i).is_some_and(|e| e.0 == g)
    }

    pub fn val<P: Ptr>(&self, p: P) -> Option<u64> {
        let (i, g) = key(p);
        self.live.get(&i).filter(|e| e.0 == g).map(|e| e.1)
    }

    pub fn bump<P: Ptr>(&mut self) {
        if counted::<P>() {
            self.gen += 1;
        }
    }

    pub fn overflow<P: Ptr>(&self) -> Expect {
        if counted::<P>() && self.gen >= gmax::<P>() {
            Expect::Panic("A04")
        } else {
            Expect::No
        }
    }
}

pub struct Side<P: Ptr> {
    pub a: Arena<P, Tok>,
    pub m: Model,
    pub pool: Vec<P>,
}

impl<P: Ptr> Side<P> {
    fn new() -> Self {
        Side {
            a: Arena::new(),
            m: Model::fresh::<P>(),
            pool: vec![P::invalid()],
        }
    }

    fn remember(&mut self, p: P) {
        remember(&mut self.pool, p);
    }
}

pub fn remember<P: Ptr>(pool: &mut Vec<P>, p: P) {
    if pool.len() < 160 {
        pool.push(p)
    } else {
        let i = key(p).0.wrapping_mul(31).wrapping_add((key(p).1 as usize).wrapping_mul(7)) % 159 + 1;
        pool[i] = p;
    }
}

pub fn pick<P: Ptr>(live: &[(usize, u128)], pool: &[P], r: u32) -> P {
    let k = (r >> 4) as usize;
    match r & 15 {
        0..=9 if !live.is_empty() => {
            let e = live[k % live.len()];
            forge(e.0, e.1)
        }
        10..=13 => pool[k % pool.len()],
        14 => {
            // near miss of a live one
            if live.is_empty() {
                P::invalid()
            } else {
                let e = live[k % live.len()];
                forge(e.0, if r & 0x8000_0000 != 0 { e.1 + 1 } else { e.1 - 1.min(e.1) })
            }
        }
        _ => forge(k % 9 + 1, 1 + (r >> 28) as u128 % 4),
    }
}

/// A pointer of the same slot but another generation, now and then
pub fn cousin<P: Ptr>(p: P, r: u32) -> P {
    let (i, g) = key(p);
    forge(i, if r & 1 == 0 { g + 1 } else { g.max(2) - 1 })
}

pub struct ArenaM<P: Ptr> {
    s: Side<P>,
    t: Side<P>,
    next: u64,
    bias: u32,
}

impl<P: Ptr> ArenaM<P> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn pick(&self, r: u32) -> P {
        let live: Vec<(usize, u128)> = self.s.m.live.iter().map(|(i, e)| (*i, e.0)).collect();
        pick(&live, &self.s.pool, r)
    }

    fn check(&mut self, cx: &mut Cx, what: &str) {
        let s = &mut self.s;
        let m = &s.m;
        let what = what.to_owned();
        cx.ck(s.a.len() == m.live.len(), "A02 A05", || {
            format!("after {what}: len() is {}, {} elements expected", s.a.len(), m.live.len())
        });
        cx.ck(s.a.is_empty() == m.live.is_empty(), "A02", || format!("after {what}: is_empty()"));
        cx.ck(raw(s.a.generation()) == m.gen, "A04", || {
            format!("after {what}: generation() is {}, expected {}", raw(s.a.generation()), m.gen)
        });
        cx.ck(s.a.capacity() >= s.a.len(), "A03", || format!("after {what}: capacity < len"));
        for (i, e) in &m.live {
            let p: P = forge(*i, e.0);
            cx.ck(s.a.contains(p), "A01 A02", || format!("after {what}: {p:?} no longer contained"));
            let g = s.a.get(p).map(|t| t.v);
            cx.ck(g == Some(e.1), "A01 A02", || {
                format!("after {what}: get({p:?}) is {g:?}, expected {}", e.1)
            });
        }
        for p in s.pool.iter().copied() {
            let e = m.val(p);
            if e.is_none() {
                cx.ck(!s.a.contains(p), "A01", || format!("after {what}: stale {p:?} contained"));
                cx.ck(s.a.get(p).is_none(), "A01", || format!("after {what}: stale {p:?} resolves"));
                cx.ck(s.a.get_mut(p).is_none(), "A01", || {
                    format!("after {what}: stale {p:?} resolves mutably")
                });
            }
        }
        // every index, ignoring generations
        let upto = s.a.capacity().min(12) + 2;
        for i in 1..=upto {
            if i > imax::<P>() {
                break
            }
            let g = s.a.get_no_gen(mk::<P::Inx>(i as u128)).map(|(g, t)| (raw(g), t.v));
            let e = m.live.get(&i).copied();
            cx.ck(g == e, "A01 A02", || format!("after {what}: slot {i} holds {g:?}, expected {e:?}"));
        }
    }

    fn iters(&mut self, cx: &mut Cx, sel: u32) {
        let s = &mut self.s;
        let exp: BTreeSet<(usize, u128, u64)> =
            s.m.live.iter().map(|(i, e)| (*i, e.0, e.1)).collect();
        let lim = s.a.capacity() * 2 + 10;
        let mut got: Vec<(usize, u128, u64)> = vec![];
        let ty = match sel % 8 {
            0 => {
                let mut adv = s.a.advancer();
                while let Some(p) = adv.advance(&s.a) {
                    let v = s.a.get(p).map_or(u64::MAX, |t| t.v);
                    got.push((key(p).0, key(p).1, v));
                    if got.len() > lim {
                        break
                    }
                }
                "advancer"
            }
            1 => {
                for p in s.a.ptrs().take(lim) {
                    let v = s.a.get(p).map_or(u64::MAX, |t| t.v);
                    got.push((key(p).0, key(p).1, v));
                }
                "ptrs"
            }
            2 => {
                for (p, t) in s.a.iter().take(lim) {
                    got.push((key(p).0, key(p).1, t.v));
                }
                "iter"
            }
            3 => {
                for (p, t) in s.a.iter_mut().take(lim) {
                    got.push((key(p).0, key(p).1, t.v));
                }
                "iter_mut"
            }
            4 => {
                for (p, t) in (&s.a).into_iter().take(lim) {
                    got.push((key(p).0, key(p).1, t.v));
                }
                "into_iter of &"
            }
            5 => {
                // mutable iteration hands out distinct elements, all at once
                let refs: Vec<(P, &mut Tok)> = (&mut s.a).into_iter().take(lim).collect();
                let addrs: BTreeSet<usize> =
                    refs.iter().map(|r| &*r.1 as *const Tok as usize).collect();
                cx.ck(addrs.len() == refs.len(), "A08", || {
                    "mutable iteration yields the same element twice".to_owned()
                });
                for (p, t) in refs {
                    got.push((key(p).0, key(p).1, t.v));
                }
                "into_iter of &mut"
            }
            k => {
                let mut vals: Vec<u64> = if k == 6 {
                    s.a.vals().take(lim).map(|t| t.v).collect()
                } else {
                    let v: Vec<&mut Tok> = s.a.vals_mut().take(lim).collect();
                    let addrs: BTreeSet<usize> =
                        v.iter().map(|r| &**r as *const Tok as usize).collect();
                    cx.ck(addrs.len() == v.len(), "A08", || {
                        "vals_mut yields the same element twice".to_owned()
                    });
                    v.iter().map(|t| t.v).collect()
                };
                vals.sort();
                let mut e: Vec<u64> = exp.iter().map(|e| e.2).collect();
                e.sort();
                cx.ck(vals == e, "A08", || format!("vals yields {vals:?}, expected {e:?}"));
                return
            }
        };
        let set: BTreeSet<_> = got.iter().copied().collect();
        cx.ck(set.len() == got.len() && set == exp, "A08", || {
            format!("{ty} yields {got:?}, expected exactly {exp:?}")
        });
    }

    fn insert_expect(&self) -> Expect {
        if self.s.m.live.len() >= imax::<P>() {
            Expect::Panic("A03")
        } else {
            Expect::No
        }
    }

    fn inserted(&mut self, cx: &mut Cx, what: &str, p: P, v: u64, cap0: usize) {
        let (i, g) = key(p);
        let full = self.s.m.live.len() == cap0;
        let cap = self.s.a.capacity();
        cx.ck(g == self.s.m.gen, "A01 A04", || {
            format!("{what} returned {p:?}, generation {} expected", self.s.m.gen)
        });
        cx.ck(!self.s.m.live.contains_key(&i), "A03 A02", || {
            format!("{what} returned {p:?} whose slot is in use")
        });
        cx.ck(i >= 1 && i <= cap, "A03", || format!("{what} returned {p:?} outside of capacity"));
        if full {
            cx.ck(cap > cap0, "A03", || format!("{what} on a full arena left capacity {cap}"));
        } else {
            cx.ck(cap == cap0, "A03", || {
                format!("{what} changed capacity {cap0} -> {cap} with free slots")
            });
        }
        self.s.m.live.insert(i, (g, v));
        self.s.remember(p);
    }

    fn simple(&mut self, op: &Op, cx: &mut Cx, code: u32) {
        let cap0 = self.s.a.capacity();
        match code {
            0 => {
                let v = self.fresh();
                cx.log(|| format!("insert({v})"));
                let ex = self.insert_expect();
                let s = &mut self.s;
                let r = cx.call("insert", "A01 A02 A03", ex, || s.a.insert(Tok::new(v)));
                if let Some(p) = r {
                    cx.log(|| format!("  -> {p:?}"));
                    self.inserted(cx, "insert", p, v, cap0);
                }
            }
            1 => {
                let v = self.fresh();
                cx.log(|| format!("insert_with({v})"));
                let ex = self.insert_expect();
                let s = &mut self.s;
                let mut given = None;
                let r = cx.call("insert_with", "A01 A02 A03", ex, || {
                    s.a.insert_with(|p| {
                        given = Some(p);
                        Tok::new(v)
                    })
                });
                if let Some(p) = r {
                    cx.log(|| format!("  -> {p:?}"));
                    cx.ck(given == Some(p), "A01 A02", || {
                        format!("insert_with told its closure {given:?} but returned {p:?}")
                    });
                    self.inserted(cx, "insert_with", p, v, cap0);
                }
            }
            2 | 3 => {
                let v = self.fresh();
                let full = self.s.m.live.len() == cap0;
                cx.log(|| format!("try_insert{}({v})", if code == 3 { "_with" } else { "" }));
                let s = &mut self.s;
                let r = if code == 2 {
                    cx.call("try_insert", "A01 A02 A03", Expect::No, || {
                        s.a.try_insert(Tok::new(v)).map_err(|t| t.v)
                    })
                } else {
                    cx.call("try_insert_with", "A01 A02 A03", Expect::No, || {
                        let mut given = None;
                        match s.a.try_insert_with(|p| {
                            given = Some(p);
                            Tok::new(v)
                        }) {
                            Ok(p) => {
                                if given != Some(p) {
                                    panic!("closure was given {given:?}, {p:?} returned")
                                }
                                Ok(p)
                            }
                            Err(f) => {
                                drop(f);
                                if given.is_some() {
                                    panic!("closure called by a failing insertion")
                                }
                                Err(v)
                            }
                        }
                    })
                };
                match r {
                    Some(Ok(p)) => {
                        cx.log(|| format!("  -> {p:?}"));
                        cx.ck(!full, "A03", || {
                            format!("try_insert succeeded on a full arena of capacity {cap0}")
                        });
                        if !full {
                            self.inserted(cx, "try_insert", p, v, cap0);
                        }
                    }
                    Some(Err(w)) => {
                        cx.ck(full, "A03", || {
                            format!(
                                "try_insert failed with {} of {cap0} slots in use",
                                self.s.m.live.len()
                            )
                        });
                        cx.ck(w == v, "A02", || "try_insert gave back another value".to_owned());
                    }
                    None => (),
                }
            }
            4 => {
                let p = self.pick(op.a);
                cx.log(|| format!("remove({p:?})"));
                let e = self.s.m.val(p);
                let ex = if e.is_some() { self.s.m.overflow::<P>() } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("remove", "A01 A02", ex, || s.a.remove(p)) {
                    let r = r.map(|t| t.v);
                    cx.ck(r == e, "A01 A02", || format!("remove({p:?}) is {r:?}, expected {e:?}"));
                    if e.is_some() {
                        s.m.live.remove(&key(p).0);
                        s.m.bump::<P>();
                    }
                    cx.ck(s.a.capacity() == cap0, "A03", || "remove changed capacity".to_owned());
                }
            }
            5 => {
                let p = self.pick(op.a);
                cx.log(|| format!("invalidate({p:?})"));
                let e = self.s.m.val(p);
                let ex = if e.is_some() { self.s.m.overflow::<P>() } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("invalidate", "A01 A02", ex, || s.a.invalidate(p)) {
                    cx.ck(r.is_some() == e.is_some(), "A01 A02", || {
                        format!("invalidate({p:?}) is {r:?}")
                    });
                    if let (Some(q), Some(v)) = (r, e) {
                        s.m.bump::<P>();
                        let g = s.m.gen;
                        cx.ck(key(q) == (key(p).0, g), "A01 A04", || {
                            format!("invalidate({p:?}) returned {q:?}")
                        });
                        s.m.live.insert(key(p).0, (g, v));
                        s.remember(q);
                    }
                }
            }
            6 => {
                let p = self.pick(op.a);
                let v = self.fresh();
                cx.log(|| format!("replace_and_keep_gen({p:?}, {v})"));
                let e = self.s.m.val(p);
                let s = &mut self.s;
                if let Some(r) = cx.call("replace_and_keep_gen", "A01 A02", Expect::No, || {
                    s.a.replace_and_keep_gen(p, Tok::new(v))
                }) {
                    let r = r.map(|t| t.v).map_err(|t| t.v);
                    let want = e.ok_or(v);
                    cx.ck(r == want, "A01 A02", || {
                        format!("replace_and_keep_gen({p:?}) is {r:?}, expected {want:?}")
                    });
                    if e.is_some() {
                        s.m.live.get_mut(&key(p).0).unwrap().1 = v;
                    }
                }
            }
            7 => {
                let p = self.pick(op.a);
                let v = self.fresh();
                cx.log(|| format!("replace_and_update_gen({p:?}, {v})"));
                let e = self.s.m.val(p);
                let ex = if e.is_some() { self.s.m.overflow::<P>() } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("replace_and_update_gen", "A01 A02", ex, || {
                    s.a.replace_and_update_gen(p, Tok::new(v))
                }) {
                    let r = r.map(|t| (t.0.v, t.1)).map_err(|t| t.v);
                    if let Some(old) = e {
                        s.m.bump::<P>();
                        let q: P = forge(key(p).0, s.m.gen);
                        cx.ck(r == Ok((old, q)), "A01 A02 A04", || {
                            format!("replace_and_update_gen({p:?}) is {r:?}, expected {q:?}")
                        });
                        s.m.live.insert(key(p).0, (s.m.gen, v));
                        s.remember(q);
                    } else {
                        cx.ck(r == Err(v), "A01 A02", || {
                            format!("replace_and_update_gen({p:?}) is {r:?}, expected an error")
                        });
                    }
                }
            }
            8 => {
                let p = self.pick(op.a);
                let q = match op.c % 10 {
                    0 | 5 => p,
                    1 => cousin(p, op.b),
                    _ => self.pick(op.b),
                };
                cx.log(|| format!("swap({p:?}, {q:?})"));
                let (e, f) = (self.s.m.val(p), self.s.m.val(q));
                let s = &mut self.s;
                if let Some(r) = cx.call("swap", "A01 A02", Expect::No, || s.a.swap(p, q)) {
                    cx.ck(r.is_some() == (e.is_some() && f.is_some()), "A01 A02", || {
                        format!("swap({p:?}, {q:?}) is {r:?}")
                    });
                    if let (Some(e), Some(f)) = (e, f) {
                        s.m.live.get_mut(&key(p).0).unwrap().1 = f;
                        s.m.live.get_mut(&key(q).0).unwrap().1 = e;
                    }
                }
            }
            9 => {
                let p = self.pick(op.a);
                let q = match op.c % 10 {
                    0 | 5 => p,
                    1 => cousin(p, op.b),
                    _ => self.pick(op.b),
                };
                cx.log(|| format!("get2_mut({p:?}, {q:?})"));
                let (e, f) = (self.s.m.val(p), self.s.m.val(q));
                let (v, w) = (self.fresh(), self.fresh());
                let s = &mut self.s;
                if let Some(r) = cx.call("get2_mut", "A01 A02", Expect::No, || {
                    s.a.get2_mut(p, q).map(|(x, y)| {
                        let r = (x.v, y.v);
                        x.v = v;
                        y.v = w;
                        r
                    })
                }) {
                    let want = if key(p).0 == key(q).0 {
                        None
                    } else {
                        e.zip(f)
                    };
                    cx.ck(r == want, "A01 A02", || {
                        format!("get2_mut({p:?}, {q:?}) is {r:?}, expected {want:?}")
                    });
                    if want.is_some() {
                        s.m.live.get_mut(&key(p).0).unwrap().1 = v;
                        s.m.live.get_mut(&key(q).0).unwrap().1 = w;
                    }
                }
            }
            10 => {
                let p = self.pick(op.a);
                let e = self.s.m.val(p);
                let v = self.fresh();
                cx.log(|| format!("*get_mut({p:?}) = {v}"));
                let s = &mut self.s;
                let by_index = op.b % 3 == 0;
                let ex = if by_index && e.is_none() { Expect::Panic("A01") } else { Expect::No };
                if let Some(r) = cx.call("get_mut", "A01 A02", ex, || {
                    if by_index {
                        let r = s.a[p].v;
                        s.a[p].v = v;
                        Some(r)
                    } else {
                        s.a.get_mut(p).map(|t| {
                            let r = t.v;
                            t.v = v;
                            r
                        })
                    }
                }) {
                    cx.ck(r == e, "A01 A02", || format!("get_mut({p:?}) is {r:?}, expected {e:?}"));
                    if e.is_some() {
                        s.m.live.get_mut(&key(p).0).unwrap().1 = v;
                    }
                } else if by_index && e.is_none() && cx.fails.is_empty() {
                    // an expected panic that leaves the arena untouched
                    cx.stop = false;
                }
            }
            _ => unreachable!(),
        }
    }

    fn set_gen_lenient(&mut self, cx: &mut Cx, what: &str, changed: bool) {
        // an operation that invalidated nothing may or may not count
        let g = raw(self.s.a.generation());
        if changed || !counted::<P>() {
            self.s.m.bump::<P>();
        } else {
            let g0 = self.s.m.gen;
            cx.ck(g == g0 || g == g0 + 1, "A04", || {
                format!("{what} moved the generation from {g0} to {g}")
            });
            self.s.m.gen = g;
        }
    }

    fn bulk_expect(&self, changes: bool) -> Expect {
        match self.s.m.overflow::<P>() {
            Expect::Panic(l) => {
                if changes {
                    Expect::Panic(l)
                } else {
                    Expect::May
                }
            }
            e => e,
        }
    }
}

/// used to exercise recasting
#[derive(Clone, Debug, PartialEq)]
struct Holder<P: Ptr> {
    p: P,
}

impl<P: Ptr> Recast<P> for Holder<P> {
    fn recast<R: Recaster<Item = P>>(&mut self, r: &R) -> Result<(), P> {
        self.p.recast(r)
    }
}

impl<P: Ptr> Machine for ArenaM<P> {
    fn new(flags: u32) -> Self {
        ArenaM {
            s: Side::new(),
            t: Side::new(),
            next: 0,
            bias: flags,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        // the bias chooses between growing, steady and shrinking mixtures
        let c = op.code % 100;
        let ins = match self.bias % 4 {
            0 => 20,
            1 => 35,
            2 => 12,
            _ => 45,
        };
        let what: String;
        if c < ins {
            let k = [0, 0, 1, 2, 3][(op.code / 100 % 5) as usize];
            self.simple(op, cx, k);
            what = "insertion".to_owned();
        } else if c < 80 {
            let k = match (op.code / 100) % 12 {
                0..=3 => 4,
                4 => 5,
                5 => 6,
                6 => 7,
                7 => 8,
                8 => 9,
                9 | 10 => 10,
                _ => 4,
            };
            self.simple(op, cx, k);
            what = ["", "", "", "", "remove", "invalidate", "replace", "replace", "swap", "get2_mut", "get_mut"]
                [k as usize]
                .to_owned();
        } else {
            what = self.bulk(op, cx);
        }
        if cx.stop {
            return
        }
        self.check(cx, &what);
        if !cx.stop && op.c % 3 == 0 {
            self.iters(cx, op.c / 3);
        }
    }

    fn finish(mut self, cx: &mut Cx) {
        // slots: exactly the free ones can be filled, then growth
        let cap = self.s.a.capacity();
        let n = self.s.m.live.len();
        let mut got = 0;
        let mut seen: BTreeSet<usize> = self.s.m.live.keys().copied().collect();
        while got <= cap {
            match self.s.a.try_insert(Tok::new(7)) {
                Ok(p) => {
                    cx.ck(seen.insert(key(p).0), "A03", || {
                        format!("slot of {p:?} handed out twice")
                    });
                    got += 1;
                }
                Err(_) => break,
            }
            if cx.stop {
                return
            }
        }
        cx.ck(got == cap - n, "A03", || {
            format!("capacity {cap} with {n} elements accepted {got} more")
        });
        if cx.stop {
            std::mem::forget(self);
            return
        }
        drop(self);
        let (live, errs) = reg_state();
        cx.ck(errs == 0, "V01 A05", || format!("{errs} values dropped twice"));
        cx.ck(live == 0, "V01 A05", || format!("{live} values never dropped"));
        crate::galloc::check(cx);
    }
}

impl<P: Ptr> ArenaM<P> {
    fn bulk(&mut self, op: &Op, cx: &mut Cx) -> String {
        let cap0 = self.s.a.capacity();
        let k = (op.code / 100) % 24;
        match k {
            0 | 1 => {
                let sel = op.a;
                let mult = op.b | 1;
                cx.log(|| format!("remove_by(mask {sel:#x})"));
                let want: BTreeSet<usize> = self
                    .s
                    .m
                    .live
                    .iter()
                    .filter(|(i, _)| (((**i as u32).wrapping_mul(mult) >> 3) & 31) & sel & 7 != 0)
                    .map(|(i, _)| *i)
                    .collect();
                let ex = self.bulk_expect(!want.is_empty());
                let mut offered = vec![];
                let s = &mut self.s;
                let w = &want;
                if cx
                    .call("remove_by", "A05", ex, || {
                        s.a.remove_by(|p, t| {
                            offered.push((key(p).0, key(p).1, t.v));
                            w.contains(&key(p).0)
                        })
                    })
                    .is_some()
                {
                    let e: Vec<_> = s.m.live.iter().map(|(i, e)| (*i, e.0, e.1)).collect();
                    offered.sort();
                    cx.ck(offered == e, "A05", || {
                        format!("remove_by offered {offered:?}, expected {e:?}")
                    });
                    for i in &want {
                        s.m.live.remove(i);
                    }
                    cx.ck(s.a.capacity() == cap0, "A03 A05", || {
                        "remove_by changed the capacity".to_owned()
                    });
                    self.set_gen_lenient(cx, "remove_by", !want.is_empty());
                }
                "remove_by".to_owned()
            }
            2 => {
                cx.log(|| "clear".to_owned());
                let ch = !self.s.m.live.is_empty();
                let ex = self.bulk_expect(ch);
                let s = &mut self.s;
                if cx.call("clear", "A05 A03", ex, || s.a.clear()).is_some() {
                    s.m.live.clear();
                    cx.ck(s.a.capacity() == cap0, "A05 A03", || "clear changed capacity".to_owned());
                    self.set_gen_lenient(cx, "clear", ch);
                }
                "clear".to_owned()
            }
            3 => {
                cx.log(|| "clear_and_shrink".to_owned());
                let ch = !self.s.m.live.is_empty();
                let ex = self.bulk_expect(ch);
                let s = &mut self.s;
                if cx.call("clear_and_shrink", "A05 A03", ex, || s.a.clear_and_shrink()).is_some() {
                    s.m.live.clear();
                    cx.ck(s.a.capacity() == 0, "A05 A03", || {
                        "clear_and_shrink left capacity".to_owned()
                    });
                    self.set_gen_lenient(cx, "clear_and_shrink", ch);
                }
                "clear_and_shrink".to_owned()
            }
            4 | 5 => {
                let n = self.s.m.live.len();
                let stop = if op.a % 2 == 0 { n + 2 } else { (op.a >> 1) as usize % (n + 1) };
                cx.log(|| format!("drain, taking {stop} of {n}"));
                let ch = n != 0;
                let ex = match self.s.m.overflow::<P>() {
                    Expect::Panic(_) if !ch => Expect::May,
                    // an abandoned drain clears the rest, which may need another one
                    Expect::No if counted::<P>() && self.s.m.gen + 1 >= gmax::<P>() => Expect::May,
                    e => e,
                };
                let s = &mut self.s;
                let mut got = vec![];
                if cx
                    .call("drain", "A05", ex, || {
                        let mut d = s.a.drain();
                        for _ in 0..stop {
                            match d.next() {
                                Some((p, t)) => got.push((key(p).0, key(p).1, t.v)),
                                None => break,
                            }
                        }
                    })
                    .is_some()
                {
                    let all: BTreeSet<_> = s.m.live.iter().map(|(i, e)| (*i, e.0, e.1)).collect();
                    let set: BTreeSet<_> = got.iter().copied().collect();
                    cx.ck(set.len() == got.len() && set.is_subset(&all), "A05", || {
                        format!("drain yielded {got:?} from {all:?}")
                    });
                    cx.ck(got.len() == stop.min(n), "A05", || {
                        format!("drain yielded {} of {n} elements", got.len())
                    });
                    s.m.live.clear();
                    let g = raw(s.a.generation());
                    if counted::<P>() {
                        let g0 = s.m.gen;
                        let hi = if stop < n { 2 } else { 1 };
                        cx.ck(g >= g0 + ch as u128 && g <= g0 + hi, "A04", || {
                            format!("drain moved the generation from {g0} to {g}")
                        });
                        s.m.gen = g;
                    }
                    cx.ck(s.a.capacity() == cap0, "A05 A03", || "drain changed capacity".to_owned());
                }
                "drain".to_owned()
            }
            6 => {
                let n = self.s.m.live.len();
                let stop = if op.a % 2 == 0 { n + 2 } else { (op.a >> 1) as usize % (n + 1) };
                cx.log(|| format!("into_iter, taking {stop} of {n}"));
                let a = std::mem::take(&mut self.s.a);
                let mut got = vec![];
                let cd = op.b % 2 == 0;
                if cx
                    .call("into_iter", "A05 A04", Expect::No, || {
                        let mut d = if cd { a.into_iter() } else { a.capacity_drain() };
                        for _ in 0..stop {
                            match d.next() {
                                Some((p, t)) => got.push((key(p).0, key(p).1, t.v)),
                                None => break,
                            }
                        }
                    })
                    .is_some()
                {
                    let s = &mut self.s;
                    let all: BTreeSet<_> = s.m.live.iter().map(|(i, e)| (*i, e.0, e.1)).collect();
                    let set: BTreeSet<_> = got.iter().copied().collect();
                    cx.ck(set.len() == got.len() && set.is_subset(&all), "A05", || {
                        format!("into_iter yielded {got:?} from {all:?}")
                    });
                    cx.ck(got.len() == stop.min(n), "A05", || {
                        format!("into_iter yielded {} of {n} elements", got.len())
                    });
                    s.m = Model::fresh::<P>();
                    s.pool = vec![P::invalid()];
                }
                "into_iter".to_owned()
            }
            7..=9 => {
                let mode = op.a % 3;
                cx.log(|| format!("compress_and_shrink (mode {mode})"));
                let ex = self.bulk_expect(!self.s.m.live.is_empty());
                let s = &mut self.s;
                let mut map: Vec<((usize, u128), u64, (usize, u128), P)> = vec![];
                let mut rec: Option<Arena<P, P>> = None;
                if cx
                    .call("compress_and_shrink", "A06", ex, || match mode {
                        0 => s.a.compress_and_shrink(),
                        1 => s.a.compress_and_shrink_with(|p, t, q| {
                            map.push((key(p), t.v, key(q), q));
                            t.v += 1_000_000;
                        }),
                        _ => rec = Some(s.a.compress_and_shrink_recaster()),
                    })
                    .is_none()
                {
                    return "compress".to_owned()
                }
                let old = s.m.live.clone();
                let oldpool: Vec<P> = s.pool.clone();
                let n = old.len();
                let ch = n != 0;
                self.set_gen_lenient(cx, "compress_and_shrink", ch);
                let s = &mut self.s;
                cx.ck(s.a.capacity() == n && s.a.len() == n, "A06 A03", || {
                    format!("compressed to capacity {} len {}, expected {n}", s.a.capacity(), s.a.len())
                });
                // the new contents must be a permutation at slots 1..=n
                let mut new: BTreeMap<usize, (u128, u64)> = BTreeMap::new();
                for (p, t) in s.a.iter() {
                    new.insert(key(p).0, (key(p).1, t.v));
                }
                let g = s.m.gen;
                cx.ck(
                    new.keys().copied().eq(1..=n) && new.values().all(|e| e.0 == g),
                    "A06",
                    || format!("compressed pointers are {new:?}, generation {g}"),
                );
                let shift = if mode == 1 { 1_000_000 } else { 0 };
                let mut vo: Vec<u64> = old.values().map(|e| e.1 + shift).collect();
                let mut vn: Vec<u64> = new.values().map(|e| e.1).collect();
                vo.sort();
                vn.sort();
                cx.ck(vo == vn, "A06", || format!("compressed values {vn:?}, expected {vo:?}"));
                if mode == 1 {
                    let olds: BTreeMap<usize, (u128, u64)> =
                        map.iter().map(|e| (e.0 .0, (e.0 .1, e.1))).collect();
                    cx.ck(olds == old && map.len() == n, "A06", || {
                        format!("compression reported old entries {olds:?}, expected {old:?}")
                    });
                    let news: BTreeMap<usize, (u128, u64)> =
                        map.iter().map(|e| (e.2 .0, (e.2 .1, e.1 + shift))).collect();
                    cx.ck(news == new, "A06", || {
                        format!("compression reported new entries {news:?}, actual {new:?}")
                    });
                }
                if let Some(rec) = rec {
                    for (i, e) in &old {
                        let p: P = forge(*i, e.0);
                        let mut h = Holder { p };
                        let r = h.recast(&rec);
                        let ok = r.is_ok()
                            && new.get(&key(h.p).0).is_some_and(|x| *x == (key(h.p).1, e.1));
                        cx.ck(ok, "A06", || {
                            format!("recasting {p:?} (value {}) gave {h:?}, {r:?}", e.1)
                        });
                    }
                    for p in oldpool {
                        let (i, g) = key(p);
                        if old.get(&i).map(|e| e.0) != Some(g) {
                            let mut h = Holder { p };
                            let r = h.recast(&rec);
                            cx.ck(r == Err(p) && h.p == p, "A06", || {
                                format!("recasting stale {p:?} gave {h:?}, {r:?}")
                            });
                        }
                    }
                    // recasting a whole arena of holders
                    let mut hs: Arena<P, Holder<P>> = Arena::new();
                    for (i, e) in old.iter().take(imax::<P>().min(50)) {
                        hs.insert(Holder { p: forge(*i, e.0) });
                    }
                    let before: Vec<P> = hs.vals().map(|h| h.p).collect();
                    let r = hs.recast(&rec);
                    let after: Vec<P> = hs.vals().map(|h| h.p).collect();
                    let mut ok = r.is_ok() && before.len() == after.len();
                    for (b, a) in before.iter().zip(after.iter()) {
                        let v = old.get(&key(*b).0).map(|e| e.1);
                        ok &= new.get(&key(*a).0).map(|e| e.1) == v;
                    }
                    cx.ck(ok, "A06", || format!("recasting {before:?} gave {after:?}"));
                }
                s.m.live = new;
                let live: Vec<P> = s.m.live.iter().map(|(i, e)| forge(*i, e.0)).collect();
                for p in live {
                    s.remember(p);
                }
                "compress_and_shrink".to_owned()
            }
            10 | 11 => {
                let n = match op.a % 8 {
                    0 => 0,
                    1..=5 => (op.b % 9) as usize,
                    6 => (op.b % 300) as usize,
                    _ => {
                        // too much for small indexes
                        if imax::<P>() < 1 << 17 {
                            imax::<P>() - self.s.a.len().min(op.b as usize % 3)
                        } else if op.b % 2 == 0 {
                            usize::MAX - (op.b >> 8) as usize % 3
                        } else {
                            1000
                        }
                    }
                };
                cx.log(|| format!("reserve({n})"));
                let len = self.s.a.len();
                let max = imax::<P>();
                let must_fail = len.checked_add(n).is_none_or(|t| t > max || t > usize::MAX / 64);
                let may_fail = cap0.checked_add(n).is_none_or(|t| t > max);
                let ex = if must_fail {
                    Expect::Panic("A03")
                } else if may_fail {
                    Expect::May
                } else {
                    Expect::No
                };
                let s = &mut self.s;
                if cx.call("reserve", "A03", ex, || s.a.reserve(n)).is_some() {
                    let cap = s.a.capacity();
                    cx.ck(cap >= len + n && cap >= cap0, "A03", || {
                        format!("reserve({n}) with len {len} and capacity {cap0} gave {cap}")
                    });
                } else if cx.fails.is_empty() {
                    // a refused reservation changes nothing
                    cx.stop = false;
                    let cap = s.a.capacity();
                    cx.ck(cap == cap0, "A03 A02", || {
                        format!("a refused reserve({n}) changed capacity {cap0} -> {cap}")
                    });
                }
                "reserve".to_owned()
            }
            12 => {
                cx.log(|| "clone, compare, swap sides".to_owned());
                let s = &mut self.s;
                let t = &mut self.t;
                if let Some(c) = cx.call("clone", "A07", Expect::No, || s.a.clone()) {
                    cx.ck(c == s.a, "A07", || "a clone differs from its source".to_owned());
                    cx.ck(c.capacity() >= c.len(), "A07", || "capacity of a clone".to_owned());
                    t.a = c;
                    t.m = s.m.clone();
                    t.pool = s.pool.clone();
                    if op.a % 2 == 0 {
                        std::mem::swap(&mut self.s, &mut self.t);
                    }
                    self.both(cx, "clone");
                }
                "clone".to_owned()
            }
            13..=15 => {
                let with = k == 15;
                cx.log(|| format!("clone_from{} into the other side", if with { "_with" } else { "" }));
                let s = &mut self.s;
                let t = &mut self.t;
                let tcap = t.a.capacity();
                let mut offered = vec![];
                let add = if with { 10_000_000 } else { 0 };
                if cx
                    .call("clone_from", "A07", Expect::No, || {
                        if with {
                            t.a.clone_from_with(&s.a, |p, u| {
                                offered.push((key(p).0, key(p).1, u.v));
                                Tok::new(u.v + add)
                            })
                        } else {
                            t.a.clone_from(&s.a)
                        }
                    })
                    .is_none()
                {
                    return "clone_from".to_owned()
                }
                if with {
                    let e: Vec<_> = s.m.live.iter().map(|(i, e)| (*i, e.0, e.1)).collect();
                    offered.sort();
                    cx.ck(offered == e, "A07", || {
                        format!("clone_from_with offered {offered:?}, expected {e:?}")
                    });
                } else {
                    cx.ck(t.a == s.a, "A07", || "clone_from made a different arena".to_owned());
                }
                cx.ck(t.a.capacity() >= tcap, "A07 A03", || {
                    format!("clone_from reduced capacity {tcap} to {}", t.a.capacity())
                });
                // pointers of both histories are interesting afterwards
                let mut pool = s.pool.clone();
                for p in t.pool.iter().take(60) {
                    remember(&mut pool, *p);
                }
                t.pool = pool;
                t.m = s.m.clone();
                for e in t.m.live.values_mut() {
                    e.1 += add;
                }
                std::mem::swap(&mut self.s, &mut self.t);
                self.both(cx, "clone_from");
                "clone_from".to_owned()
            }
            16 => {
                let e = self.s.m.live == self.t.m.live;
                let r = self.s.a == self.t.a;
                let r1 = self.t.a == self.s.a;
                cx.log(|| format!("== is {r}"));
                cx.ck(r == e && r1 == e, "A07", || {
                    format!(
                        "== is {r} (reversed {r1}) for {:?} and {:?}",
                        self.s.m.live, self.t.m.live
                    )
                });
                // a near copy
                if !self.s.m.live.is_empty() {
                    let mut c = self.s.a.clone();
                    let p = self.pick(op.a << 4);
                    if self.s.m.valid(p) {
                        match op.b % 3 {
                            0 => {
                                c.get_mut(p).unwrap().v += 1;
                            }
                            1 => {
                                if counted::<P>() && self.s.m.gen < gmax::<P>() {
                                    let _ = c.invalidate(p);
                                } else {
                                    c.get_mut(p).unwrap().v += 1;
                                }
                            }
                            _ => {
                                if counted::<P>() && self.s.m.gen >= gmax::<P>() {
                                    c.get_mut(p).unwrap().v += 1;
                                } else {
                                    drop(c.remove(p));
                                }
                            }
                        }
                        cx.ck(c != self.s.a && self.s.a != c, "A07", || {
                            format!("arenas differing at {p:?} compare equal")
                        });
                    }
                }
                "comparison".to_owned()
            }
            17 => {
                cx.log(|| "swap sides".to_owned());
                std::mem::swap(&mut self.s, &mut self.t);
                "swap of sides".to_owned()
            }
            18 => {
                cx.log(|| "fill all free slots".to_owned());
                let mut guard = 0;
                while self.s.m.live.len() < cap0 && !cx.stop && guard < 600 {
                    self.simple(op, cx, 2);
                    guard += 1;
                }
                if !cx.stop && self.s.m.live.len() == cap0 {
                    self.simple(op, cx, 2);
                }
                "filling".to_owned()
            }
            19..=21 => {
                self.mutated_advance(op, cx);
                "mutated advance".to_owned()
            }
            22 => {
                // from an iterator
                let n = (op.a % 7) as usize;
                let vs: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                cx.log(|| format!("from_iter({vs:?})"));
                let vs2 = vs.clone();
                if let Some(a) = cx.call("from_iter", "A02", Expect::No, move || {
                    vs2.into_iter().map(Tok::new).collect::<Arena<P, Tok>>()
                }) {
                    let mut live = BTreeMap::new();
                    for (p, t) in a.iter() {
                        live.insert(key(p).0, (key(p).1, t.v));
                    }
                    let mut got: Vec<u64> = live.values().map(|e| e.1).collect();
                    got.sort();
                    cx.ck(got == vs, "A02 A08", || format!("from_iter made {got:?}"));
                    let mut m = Model::fresh::<P>();
                    m.live = live;
                    self.s = Side {
                        a,
                        m,
                        pool: vec![P::invalid()],
                    };
                }
                "from_iter".to_owned()
            }
            _ => {
                crate::ser::arena_roundtrip::<P>(&mut self.s.a, &mut self.s.m, &mut self.s.pool, op, cx);
                "serialization".to_owned()
            }
        }
    }

    /// both sides must be intact (independence of clones)
    fn both(&mut self, cx: &mut Cx, what: &str) {
        let n = cx.fails.len();
        self.check(cx, what);
        std::mem::swap(&mut self.s, &mut self.t);
        self.check(cx, what);
        std::mem::swap(&mut self.s, &mut self.t);
        for f in &mut cx.fails[n..] {
            f.labels.push_str(" A07");
        }
    }

    fn mutated_advance(&mut self, op: &Op, cx: &mut Cx) {
        cx.log(|| "begin advancer with interleaved mutation".to_owned());
        let mut rng = Rng(((op.a as u64) << 32) | op.b as u64);
        let mut cont: BTreeSet<(usize, u128)> =
            self.s.m.live.iter().map(|(i, e)| (*i, e.0)).collect();
        let mut seen: BTreeSet<(usize, u128)> = BTreeSet::new();
        let mut adv = self.s.a.advancer();
        let mut inserts = 0;
        let mut steps = 0usize;
        let bound = imax::<P>().min(4096) + 700;
        loop {
            let s = &self.s;
            let p = match cx.call("advance", "A08", Expect::No, || adv.advance(&s.a)) {
                Some(Some(p)) => p,
                Some(None) => break,
                None => return,
            };
            steps += 1;
            cx.log(|| format!("  advance -> {p:?}"));
            cx.ck(self.s.m.valid(p), "A08", || format!("advancer returned invalid {p:?}"));
            // without generations a reused slot gives the same pointer again, but the cursor
            // is still not allowed to return one index twice
            cx.ck(seen.insert(key(p)), "A08", || format!("advancer returned {p:?} twice"));
            cx.ck(steps < bound, "A08", || "the advancer does not end".to_owned());
            if cx.stop {
                return
            }
            for _ in 0..rng.below(3) {
                let o = Op {
                    code: 0,
                    a: rng.next() as u32,
                    b: rng.next() as u32,
                    c: rng.next() as u32,
                };
                let k = match rng.below(8) {
                    0 | 1 if inserts < 40 => {
                        inserts += 1;
                        0
                    }
                    2..=4 => 4,
                    5 => 5,
                    6 => 8,
                    _ => 6,
                };
                let r = rng.below(40);
                if r == 0 {
                    // a capacity change
                    if self.s.a.len() + 5 < imax::<P>() && self.s.a.capacity() + 5 < imax::<P>() {
                        self.s.a.reserve(3);
                    }
                } else if r == 1 && (!counted::<P>() || self.s.m.gen < gmax::<P>()) {
                    cx.log(|| "    clear_and_shrink".to_owned());
                    self.s.a.clear_and_shrink();
                    self.s.m.live.clear();
                    self.s.m.bump::<P>();
                } else {
                    self.simple(&o, cx, k);
                }
                if cx.stop {
                    return
                }
                let m = &self.s.m;
                cont.retain(|(i, g)| m.live.get(i).is_some_and(|e| e.0 == *g));
                if !counted::<P>() && k == 4 {
                    // a removed index that was refilled is a new element
                }
            }
        }
        if counted::<P>() {
            cx.ck(cont.is_subset(&seen), "A08", || {
                format!("advancer never returned {:?}", cont.difference(&seen).collect::<Vec<_>>())
            });
        }
        let _ = <P::Gen as PtrGen>::one();
    }
}
