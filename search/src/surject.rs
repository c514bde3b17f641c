//! Executable contracts of the surject arena

use std::collections::{BTreeMap, BTreeSet};

use triple_arena::{
    utils::ChainNoGenArena, Advancer, Arena, ArenaTrait, ChainArena, Ptr, SurjectArena,
};

use crate::{
    arena::{cousin, pick, remember},
    kit::*,
};

#[derive(Clone, Debug, PartialEq)]
pub struct K {
    pub gen: u128,
    pub k: u64,
    pub grp: u32,
}

#[derive(Clone, Debug)]
pub struct SModel {
    pub keys: BTreeMap<usize, K>,
    /// group -> (value, members)
    pub grp: BTreeMap<u32, (u64, BTreeSet<usize>)>,
    pub gen: u128,
    next_grp: u32,
}

impl SModel {
    pub fn fresh<P: Ptr>() -> Self {
        SModel {
            keys: BTreeMap::new(),
            grp: BTreeMap::new(),
            gen: if counted::<P>() { 2 } else { 0 },
            next_grp: 0,
        }
    }

    pub fn get<P: Ptr>(&self, p: P) -> Option<&K> {
        let (i, g) = key(p);
        self.keys.get(&i).filter(|k| k.gen == g)
    }

    pub fn add(&mut self, i: usize, gen: u128, k: u64, v: u64) {
        self.next_grp += 1;
        let grp = self.next_grp;
        self.keys.insert(i, K { gen, k, grp });
        self.grp.insert(grp, (v, BTreeSet::from([i])));
    }

    fn bump<P: Ptr>(&mut self) {
        if counted::<P>() {
            self.gen += 1
        }
    }

    fn overflow<P: Ptr>(&self, changes: bool) -> Expect {
        if counted::<P>() && self.gen >= gmax::<P>() {
            if changes {
                Expect::Panic("A04")
            } else {
                Expect::May
            }
        } else {
            Expect::No
        }
    }

    /// contents without the arbitrary group numbers
    fn canon(&self) -> BTreeMap<usize, (u128, u64, u64, BTreeSet<usize>)> {
        self.keys
            .iter()
            .map(|(i, k)| {
                let g = &self.grp[&k.grp];
                (*i, (k.gen, k.k, g.0, g.1.clone()))
            })
            .collect()
    }
}

type SA<P> = SurjectArena<P, Tok, Tok>;

struct SSide<P: Ptr> {
    a: SA<P>,
    m: SModel,
    pool: Vec<P>,
}

impl<P: Ptr> SSide<P> {
    fn new() -> Self {
        SSide {
            a: SurjectArena::new(),
            m: SModel::fresh::<P>(),
            pool: vec![P::invalid()],
        }
    }
}

pub struct SurjectM<P: Ptr> {
    s: SSide<P>,
    t: SSide<P>,
    next: u64,
    bias: u32,
}

impl<P: Ptr> SurjectM<P> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn pick(&self, r: u32) -> P {
        let live: Vec<(usize, u128)> = self.s.m.keys.iter().map(|(i, e)| (*i, e.gen)).collect();
        pick(&live, &self.s.pool, r)
    }

    fn check(&mut self, cx: &mut Cx, what: &str) {
        let s = &mut self.s;
        let m = &s.m;
        cx.ck(
            s.a.len_keys() == m.keys.len()
                && s.a.len_vals() == m.grp.len()
                && s.a.is_empty() == m.keys.is_empty(),
            "S02",
            || {
                format!(
                    "after {what}: {} keys and {} values, expected {} and {}",
                    s.a.len_keys(),
                    s.a.len_vals(),
                    m.keys.len(),
                    m.grp.len()
                )
            },
        );
        cx.ck(raw(s.a.generation()) == m.gen, "A04", || {
            format!("after {what}: generation {}, expected {}", raw(s.a.generation()), m.gen)
        });
        cx.ck(
            s.a.capacity_keys() >= m.keys.len() && s.a.capacity_vals() >= m.grp.len(),
            "A03 S02",
            || "capacity below length".to_owned(),
        );
        for (i, k) in &m.keys {
            let p: P = forge(*i, k.gen);
            let g = &m.grp[&k.grp];
            let r = s.a.get(p).map(|(k, v)| (k.v, v.v));
            cx.ck(r == Some((k.k, g.0)), "S01 S02", || {
                format!("after {what}: {p:?} is {r:?}, expected {:?}", (k.k, g.0))
            });
            let ok = s.a.contains(p)
                && s.a.get_key(p).map(|t| t.v) == Some(k.k)
                && s.a.get_val(p).map(|t| t.v) == Some(g.0);
            cx.ck(ok, "S01 S02 A01", || format!("after {what}: {p:?} not contained"));
            let n = s.a.len_key_set(p).map(|n| n.get());
            cx.ck(n == Some(g.1.len()), "S01", || {
                format!("after {what}: group of {p:?} has size {n:?}, expected {}", g.1.len())
            });
        }
        for p in s.pool.iter().copied() {
            if m.get(p).is_none() {
                let ok = !s.a.contains(p)
                    && s.a.get(p).is_none()
                    && s.a.get_key(p).is_none()
                    && s.a.get_val(p).is_none()
                    && s.a.len_key_set(p).is_none()
                    && s.a.get_val_mut(p).is_none()
                    && s.a.get_key_mut(p).is_none()
                    && s.a.get_mut(p).is_none();
                cx.ck(ok, "S01 A01", || format!("after {what}: stale {p:?} resolves"));
            }
        }
    }

    fn queries(&mut self, op: &Op, cx: &mut Cx) {
        let p = self.pick(op.a);
        let lim = self.s.m.keys.len() * 2 + 5;
        let s = &mut self.s;
        let m = &s.m;
        let exp: BTreeSet<(usize, u128)> = match m.get(p) {
            None => BTreeSet::new(),
            Some(k) => m.grp[&k.grp].1.iter().map(|i| (*i, m.keys[i].gen)).collect(),
        };
        if let Some(w) = cx.call("advancer_surject", "S01", Expect::No, || {
            let mut r = vec![];
            let mut adv = s.a.advancer_surject(p);
            while let Some(q) = adv.advance(&s.a) {
                r.push(key(q));
                if r.len() > lim {
                    break
                }
            }
            r
        }) {
            let g: BTreeSet<_> = w.iter().copied().collect();
            cx.ck(g.len() == w.len() && g == exp, "S01", || {
                format!("group walk from {p:?} is {w:?}, expected {exp:?}")
            });
        }
        if let Some(w) = cx.call("iter_surject", "S01", Expect::No, || {
            s.a.iter_surject(p).take(lim).map(|(q, k, v)| (key(q), k.v, v.v)).collect::<Vec<_>>()
        }) {
            let g: BTreeSet<_> = w.iter().map(|e| e.0).collect();
            let ok = w.iter().all(|e| {
                m.keys.get(&e.0 .0).is_some_and(|k| k.k == e.1 && m.grp[&k.grp].0 == e.2)
            });
            cx.ck(g.len() == w.len() && g == exp && ok, "S01", || {
                format!("iter_surject from {p:?} is {w:?}, expected {exp:?}")
            });
        }
        let q = self.pick(op.b);
        let s = &mut self.s;
        let m = &s.m;
        let e = m.get(p).zip(m.get(q)).map(|(a, b)| a.grp == b.grp);
        if let Some(r) = cx.call("in_same_set", "S01", Expect::No, || s.a.in_same_set(p, q)) {
            cx.ck(r == e, "S01", || format!("in_same_set({p:?}, {q:?}) is {r:?}, expected {e:?}"));
        }
        let lim2 = lim + 5;
        let exp: BTreeSet<(usize, u128, u64, u64)> =
            m.keys.iter().map(|(i, k)| (*i, k.gen, k.k, m.grp[&k.grp].0)).collect();
        match op.c % 7 {
            0 => {
                let w: Vec<_> = s
                    .a
                    .iter()
                    .take(lim2)
                    .map(|(p, k, v)| (key(p).0, key(p).1, k.v, v.v))
                    .collect();
                let g: BTreeSet<_> = w.iter().copied().collect();
                cx.ck(g.len() == w.len() && g == exp, "S01 A08", || format!("iter is {w:?}"));
            }
            1 => {
                let w: Vec<_> = s.a.ptrs().take(lim2).map(key).collect();
                let g: BTreeSet<_> = w.iter().copied().collect();
                let x: BTreeSet<_> = exp.iter().map(|e| (e.0, e.1)).collect();
                cx.ck(g.len() == w.len() && g == x, "S01 A08", || format!("ptrs is {w:?}"));
            }
            2 | 3 => {
                let mut w: Vec<u64> = if op.c % 7 == 2 {
                    s.a.keys().take(lim2).map(|t| t.v).collect()
                } else {
                    s.a.keys_mut().take(lim2).map(|t| t.v).collect()
                };
                let mut x: Vec<u64> = exp.iter().map(|e| e.2).collect();
                w.sort();
                x.sort();
                cx.ck(w == x, "S01 A08", || format!("keys is {w:?}, expected {x:?}"));
            }
            4 | 5 => {
                let mut w: Vec<u64> = if op.c % 7 == 4 {
                    s.a.vals().take(lim2).map(|t| t.v).collect()
                } else {
                    s.a.vals_mut().take(lim2).map(|t| t.v).collect()
                };
                let mut x: Vec<u64> = m.grp.values().map(|e| e.0).collect();
                w.sort();
                x.sort();
                cx.ck(w == x, "S02 A08", || format!("vals is {w:?}, expected {x:?}"));
            }
            _ => {
                let mut w = vec![];
                let mut adv = s.a.advancer();
                while let Some(p) = adv.advance(&s.a) {
                    w.push(key(p));
                    if w.len() > lim2 {
                        break
                    }
                }
                let g: BTreeSet<_> = w.iter().copied().collect();
                let x: BTreeSet<_> = exp.iter().map(|e| (e.0, e.1)).collect();
                cx.ck(g.len() == w.len() && g == x, "S01 A08", || format!("advancer is {w:?}"));
            }
        }
        // the ring structure must close over exactly the group
        if let Some(k) = m.get(p) {
            let set = &m.grp[&k.grp].1;
            let mut seen = BTreeSet::new();
            let mut i = key(p).0;
            loop {
                if !seen.insert(i) {
                    break
                }
                match s.a.get_link_no_gen(mk::<P::Inx>(i as u128)) {
                    Some((g, l)) => {
                        let ok = m.keys.get(&i).is_some_and(|k| k.gen == raw(g) && k.k == l.t.v);
                        cx.ck(ok, "S01", || format!("ring entry {i}"));
                        match l.next() {
                            Some(n) => i = raw(n) as usize,
                            None => {
                                cx.fail("S01", format!("ring of {p:?} is open"));
                                break
                            }
                        }
                    }
                    None => {
                        cx.fail("S01", format!("ring of {p:?} has a missing key {i}"));
                        break
                    }
                }
            }
            cx.ck(&seen == set || cx.stop, "S01", || format!("ring of {p:?} is {seen:?}, group {set:?}"));
        } else {
            let i = key(p).0;
            if !m.keys.contains_key(&i) && i <= imax::<P>() && i != 0 {
                let r = s.a.get_link_no_gen(mk::<P::Inx>(i as u128)).is_some();
                cx.ck(!r, "S01", || format!("slot {i} resolves"));
            }
        }
    }

    fn inserted(&mut self, cx: &mut Cx, p: P) -> bool {
        let (i, g) = key(p);
        cx.log(|| format!("  -> {p:?}"));
        let ok = g == self.s.m.gen && !self.s.m.keys.contains_key(&i);
        cx.ck(ok, "S01 S02 A01 A02", || format!("insertion returned {p:?}"));
        remember(&mut self.s.pool, p);
        ok
    }

    fn ins_expect(&self) -> Expect {
        if self.s.m.keys.len() >= imax::<P>() {
            Expect::Panic("A03")
        } else {
            Expect::No
        }
    }

    fn single(&mut self, op: &Op, cx: &mut Cx, kind: u32) {
        let p = self.pick(op.a);
        let q = match op.c % 11 {
            0 => p,
            1 => cousin(p, op.b),
            _ => self.pick(op.b),
        };
        let (i, j) = (key(p).0, key(q).0);
        let kp = self.s.m.get(p).cloned();
        let kq = self.s.m.get(q).cloned();
        match kind {
            0 => {
                let (k, v) = (self.fresh(), self.fresh());
                let with = op.c & 0x10 != 0;
                cx.log(|| format!("insert{}({k}, {v})", if with { "_with" } else { "" }));
                let ex = self.ins_expect();
                let s = &mut self.s;
                let mut given = None;
                if let Some(r) = cx.call("insert", "S01 S02", ex, || {
                    if with {
                        s.a.insert_with(|p| {
                            given = Some(p);
                            (Tok::new(k), Tok::new(v))
                        })
                    } else {
                        s.a.insert(Tok::new(k), Tok::new(v))
                    }
                }) {
                    if with {
                        cx.ck(given == Some(r), "S01 S02", || format!("closure got {given:?}"));
                    }
                    if self.inserted(cx, r) {
                        let g = self.s.m.gen;
                        self.s.m.add(key(r).0, g, k, v);
                    }
                }
            }
            1 => {
                let k = self.fresh();
                let with = op.c & 0x10 != 0;
                cx.log(|| format!("insert_key{}({p:?}, {k})", if with { "_with" } else { "" }));
                let ex = if kp.is_some() { self.ins_expect() } else { Expect::No };
                let s = &mut self.s;
                let mut given = None;
                if let Some(r) = cx.call("insert_key", "S01 S02", ex, || {
                    if with {
                        s.a.insert_key_with(p, |p| {
                            given = Some(p);
                            Tok::new(k)
                        })
                        .ok_or(k)
                    } else {
                        s.a.insert_key(p, Tok::new(k)).map_err(|t| t.v)
                    }
                }) {
                    match r {
                        Ok(r) => {
                            if with {
                                cx.ck(given == Some(r), "S01 S02", || format!("closure got {given:?}"));
                            }
                            cx.ck(kp.is_some(), "S01", || {
                                format!("insert_key accepted stale {p:?}")
                            });
                            if let Some(kp) = kp {
                                if self.inserted(cx, r) {
                                    let m = &mut self.s.m;
                                    m.keys.insert(
                                        key(r).0,
                                        K {
                                            gen: m.gen,
                                            k,
                                            grp: kp.grp,
                                        },
                                    );
                                    m.grp.get_mut(&kp.grp).unwrap().1.insert(key(r).0);
                                }
                            }
                        }
                        Err(w) => cx.ck(kp.is_none() && w == k && given.is_none(), "S01 S02", || {
                            format!("insert_key({p:?}) failed")
                        }),
                    }
                }
            }
            2 => {
                cx.log(|| format!("union({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("union", "S01", Expect::No, || {
                    s.a.union(p, q).map(|(v, r)| (v.v, r))
                }) {
                    let e = match (&kp, &kq) {
                        (Some(a), Some(b)) if a.grp != b.grp => {
                            let (la, lb) = (s.m.grp[&a.grp].1.len(), s.m.grp[&b.grp].1.len());
                            if la < lb {
                                Some((a.grp, b.grp, q))
                            } else {
                                Some((b.grp, a.grp, p))
                            }
                        }
                        _ => None,
                    };
                    let want = e.map(|(lose, _, r)| (s.m.grp[&lose].0, r));
                    cx.ck(r == want, "S01", || {
                        format!("union({p:?}, {q:?}) is {r:?}, expected {want:?}")
                    });
                    if let Some((lose, keep, _)) = e {
                        let (_, set) = s.m.grp.remove(&lose).unwrap();
                        for i in &set {
                            s.m.keys.get_mut(i).unwrap().grp = keep;
                        }
                        s.m.grp.get_mut(&keep).unwrap().1.extend(set);
                    }
                }
            }
            3 => {
                cx.log(|| format!("remove_key({p:?})"));
                let ex = if kp.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("remove_key", "S02", ex, || {
                    s.a.remove_key(p).map(|(k, v)| (k.v, v.map(|v| v.v)))
                }) {
                    let e = kp.as_ref().map(|k| {
                        let g = &s.m.grp[&k.grp];
                        (k.k, if g.1.len() == 1 { Some(g.0) } else { None })
                    });
                    cx.ck(r == e, "S02", || {
                        format!("remove_key({p:?}) is {r:?}, expected {e:?}")
                    });
                    if let Some(k) = kp {
                        s.m.keys.remove(&i);
                        let g = s.m.grp.get_mut(&k.grp).unwrap();
                        g.1.remove(&i);
                        if g.1.is_empty() {
                            s.m.grp.remove(&k.grp);
                        }
                        s.m.bump::<P>();
                    }
                }
            }
            4 => {
                cx.log(|| format!("remove({p:?})"));
                let ex = if kp.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("remove", "S02", ex, || s.a.remove(p).map(|v| v.v)) {
                    let e = kp.as_ref().map(|k| s.m.grp[&k.grp].0);
                    cx.ck(r == e, "S02", || format!("remove({p:?}) is {r:?}, expected {e:?}"));
                    if let Some(k) = kp {
                        let g = s.m.grp.remove(&k.grp).unwrap();
                        for i in g.1 {
                            s.m.keys.remove(&i);
                        }
                        s.m.bump::<P>();
                    }
                }
            }
            5 => {
                cx.log(|| format!("invalidate({p:?})"));
                let ex = if kp.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("invalidate", "S01", ex, || s.a.invalidate(p)) {
                    cx.ck(r.is_some() == kp.is_some(), "S01 A01", || format!("invalidate is {r:?}"));
                    if let (Some(r), Some(_)) = (r, kp) {
                        s.m.bump::<P>();
                        cx.ck(key(r) == (i, s.m.gen), "S01 A01 A04", || format!("invalidate -> {r:?}"));
                        s.m.keys.get_mut(&i).unwrap().gen = s.m.gen;
                        remember(&mut s.pool, r);
                    }
                }
            }
            6 => {
                cx.log(|| format!("swap_keys({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("swap_keys", "S01", Expect::No, || s.a.swap_keys(p, q)) {
                    let e = kp.is_some() && kq.is_some();
                    cx.ck(r.is_some() == e, "S01", || format!("swap_keys({p:?}, {q:?}) is {r:?}"));
                    if e {
                        s.m.keys.get_mut(&i).unwrap().k = kq.unwrap().k;
                        s.m.keys.get_mut(&j).unwrap().k = kp.unwrap().k;
                    }
                }
            }
            7 => {
                cx.log(|| format!("swap_vals({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("swap_vals", "S01", Expect::No, || s.a.swap_vals(p, q)) {
                    let e = kp.is_some() && kq.is_some();
                    cx.ck(r.is_some() == e, "S01", || format!("swap_vals({p:?}, {q:?}) is {r:?}"));
                    if e {
                        let (a, b) = (kp.unwrap().grp, kq.unwrap().grp);
                        let (x, y) = (s.m.grp[&a].0, s.m.grp[&b].0);
                        s.m.grp.get_mut(&a).unwrap().0 = y;
                        s.m.grp.get_mut(&b).unwrap().0 = x;
                    }
                }
            }
            8 => {
                let (v, w) = (self.fresh(), self.fresh());
                let how = op.c / 11 % 3;
                cx.log(|| format!("get2 kind {how} ({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("get2", "S01", Expect::No, || match how {
                    0 => s.a.get2_key_mut(p, q).map(|(a, b)| {
                        let r = (a.v, b.v);
                        a.v = v;
                        b.v = w;
                        r
                    }),
                    1 => s.a.get2_val_mut(p, q).map(|(a, b)| {
                        let r = (a.v, b.v);
                        a.v = v;
                        b.v = w;
                        r
                    }),
                    _ => s.a.get2_mut(p, q).map(|((_, a), (_, b))| {
                        let r = (a.v, b.v);
                        a.v = v;
                        b.v = w;
                        r
                    }),
                }) {
                    let both = kp.zip(kq);
                    let e = match how {
                        0 => both.filter(|_| i != j).map(|(a, b)| (a.k, b.k)),
                        _ => both
                            .as_ref()
                            .filter(|(a, b)| a.grp != b.grp)
                            .map(|(a, b)| (s.m.grp[&a.grp].0, s.m.grp[&b.grp].0)),
                    };
                    cx.ck(r == e, "S01", || format!("get2({p:?}, {q:?}) is {r:?}, expected {e:?}"));
                    if e.is_some() {
                        if how == 0 {
                            s.m.keys.get_mut(&i).unwrap().k = v;
                            s.m.keys.get_mut(&j).unwrap().k = w;
                        } else {
                            let (ga, gb) = (s.m.keys[&i].grp, s.m.keys[&j].grp);
                            s.m.grp.get_mut(&ga).unwrap().0 = v;
                            s.m.grp.get_mut(&gb).unwrap().0 = w;
                        }
                    }
                }
            }
            _ => {
                let (v, w) = (self.fresh(), self.fresh());
                cx.log(|| format!("*get_mut({p:?})"));
                let s = &mut self.s;
                let how = op.c / 11 % 3;
                if let Some(r) = cx.call("get_mut", "S01", Expect::No, || match how {
                    0 => s.a.get_mut(p).map(|(k, x)| {
                        let r = (k.v, x.v);
                        k.v = v;
                        x.v = w;
                        r
                    }),
                    1 => {
                        let k = s.a.get_key_mut(p).map(|k| {
                            let r = k.v;
                            k.v = v;
                            r
                        });
                        let x = s.a.get_val_mut(p).map(|k| {
                            let r = k.v;
                            k.v = w;
                            r
                        });
                        k.zip(x)
                    }
                    _ => s.a.get(p).map(|(k, v)| (k.v, v.v)),
                }) {
                    let e = kp.as_ref().map(|k| (k.k, s.m.grp[&k.grp].0));
                    cx.ck(r == e, "S01", || format!("get_mut({p:?}) is {r:?}, expected {e:?}"));
                    if how != 2 {
                        if let Some(k) = kp {
                            s.m.keys.get_mut(&i).unwrap().k = v;
                            s.m.grp.get_mut(&k.grp).unwrap().0 = w;
                        }
                    }
                }
            }
        }
    }

    fn lenient(&mut self, cx: &mut Cx, what: &str, lo: u128) {
        if !counted::<P>() {
            return
        }
        let g = raw(self.s.a.generation());
        let g0 = self.s.m.gen;
        cx.ck(g >= g0 + lo && g <= g0 + 1, "A04", || {
            format!("{what} moved the generation from {g0} to {g}")
        });
        self.s.m.gen = g;
    }

    fn both(&mut self, cx: &mut Cx, what: &str, op: &Op) {
        let n = cx.fails.len();
        self.check(cx, what);
        if !cx.stop {
            self.queries(op, cx);
        }
        std::mem::swap(&mut self.s, &mut self.t);
        if !cx.stop {
            self.check(cx, what);
        }
        if !cx.stop {
            self.queries(op, cx);
        }
        for f in &mut cx.fails[n..] {
            f.labels.push_str(" S03");
        }
    }

    fn bulk(&mut self, op: &Op, cx: &mut Cx) {
        let n = self.s.m.keys.len();
        let some = (n != 0) as u128;
        let (ck, cv) = (self.s.a.capacity_keys(), self.s.a.capacity_vals());
        match (op.code / 100) % 14 {
            0 => {
                let shrink = op.a % 2 == 0;
                cx.log(|| format!("clear (shrink {shrink})"));
                let ex = self.s.m.overflow::<P>(n != 0);
                let s = &mut self.s;
                if cx
                    .call("clear", "S02 A05", ex, || {
                        if shrink {
                            s.a.clear_and_shrink()
                        } else {
                            s.a.clear()
                        }
                    })
                    .is_some()
                {
                    s.m.keys.clear();
                    s.m.grp.clear();
                    let want = if shrink { (0, 0) } else { (ck, cv) };
                    cx.ck((s.a.capacity_keys(), s.a.capacity_vals()) == want, "S02 A05", || {
                        "capacity after clear".to_owned()
                    });
                    self.lenient(cx, "clear", some);
                }
            }
            1..=4 => self.compress(op, cx),
            5 | 6 => {
                cx.log(|| "clone".to_owned());
                let s = &mut self.s;
                let t = &mut self.t;
                let from = op.a % 3 != 0;
                if cx
                    .call("clone", "S03", Expect::No, || {
                        if from {
                            t.a.clone_from(&s.a)
                        } else {
                            t.a = s.a.clone()
                        }
                    })
                    .is_some()
                {
                    cx.ck(t.a == s.a && s.a == t.a, "S03", || "a clone differs".to_owned());
                    t.m = s.m.clone();
                    t.pool = s.pool.clone();
                    self.both(cx, "clone", op);
                }
            }
            7 => {
                cx.log(|| "clone_from_with".to_owned());
                let s = &mut self.s;
                let t = &mut self.t;
                let mut keys = BTreeMap::new();
                let mut vals = vec![];
                let mut cnt = 0;
                if cx
                    .call("clone_from_with", "S03", Expect::No, || {
                        t.a.clone_from_with(
                            &s.a,
                            |p, k| {
                                cnt += 1;
                                keys.insert(key(p), k.v);
                                Tok::new(k.v + 10_000_000)
                            },
                            |c, v| {
                                vals.push((c.get(), v.v));
                                Tok::new(v.v + 20_000_000)
                            },
                        )
                    })
                    .is_some()
                {
                    let ek: BTreeMap<_, _> =
                        s.m.keys.iter().map(|(i, k)| ((*i, k.gen), k.k)).collect();
                    let mut ev: Vec<_> = s.m.grp.values().map(|g| (g.1.len(), g.0)).collect();
                    vals.sort();
                    ev.sort();
                    cx.ck(keys == ek && cnt == n && vals == ev, "S03", || {
                        format!("clone_from_with offered {keys:?} {vals:?}, expected {ek:?} {ev:?}")
                    });
                    t.m = s.m.clone();
                    for k in t.m.keys.values_mut() {
                        k.k += 10_000_000;
                    }
                    for g in t.m.grp.values_mut() {
                        g.0 += 20_000_000;
                    }
                    t.pool = s.pool.clone();
                    self.both(cx, "clone_from_with", op);
                }
            }
            8 => {
                let r = self.s.a == self.t.a;
                let e = self.s.m.canon() == self.t.m.canon();
                cx.log(|| format!("== is {r}"));
                cx.ck(!r || e, "S03", || "different surject arenas compare equal".to_owned());
                let p = self.pick(op.a << 4);
                if n != 0 && self.s.m.get(p).is_some() {
                    let mut c = self.s.a.clone();
                    let q = self.pick(op.b << 4);
                    let can = !counted::<P>() || self.s.m.gen < gmax::<P>();
                    let ok = match op.c % 6 {
                        0 => c.get_key_mut(p).map(|t| t.v += 1).is_some(),
                        1 => c.get_val_mut(p).map(|t| t.v += 1).is_some(),
                        2 if can => c.remove_key(p).is_some(),
                        3 if can => c.remove(p).is_some(),
                        4 if can && counted::<P>() => c.invalidate(p).is_some(),
                        _ => c.union(p, q).is_some(),
                    };
                    if ok {
                        cx.ck(c != self.s.a && self.s.a != c, "S03", || {
                            format!("surject arenas differing at {p:?} compare equal (kind {})", op.c % 6)
                        });
                    }
                }
            }
            9 => {
                cx.log(|| "swap sides".to_owned());
                std::mem::swap(&mut self.s, &mut self.t)
            }
            10 => {
                let k = (op.a % 9) as usize;
                if ck + k > imax::<P>() || cv + k > imax::<P>() {
                    return
                }
                cx.log(|| format!("reserve({k})"));
                let s = &mut self.s;
                if cx
                    .call("reserve", "A03", Expect::No, || {
                        s.a.reserve_keys(k);
                        s.a.reserve_vals(k);
                    })
                    .is_some()
                {
                    let ok = s.a.capacity_keys() >= n + k
                        && s.a.capacity_vals() >= s.m.grp.len() + k
                        && s.a.capacity_keys() >= ck
                        && s.a.capacity_vals() >= cv;
                    cx.ck(ok, "A03", || "reserve did too little".to_owned());
                }
            }
            11 => {
                cx.log(|| "clone keys to other arenas".to_owned());
                let s = &mut self.s;
                let mut o: Arena<P, u64> = Arena::new();
                let mut c: ChainArena<P, u64> = ChainArena::new();
                let mut d: ChainNoGenArena<P, u64> = ChainNoGenArena::new();
                for i in 0..op.b % 5 {
                    o.insert(i as u64);
                    c.insert_new(i as u64);
                    d.insert_new(i as u64);
                }
                if cx
                    .call("clone_keys_to", "S03", Expect::No, || {
                        s.a.clone_keys_to_arena(&mut o, |_, k| k.v);
                        s.a.clone_keys_to_chain_arena(&mut c, |_, k| k.v);
                        s.a.clone_keys_to_chain_no_gen_arena(&mut d, |_, k| k.v);
                    })
                    .is_some()
                {
                    let e: BTreeMap<_, _> =
                        s.m.keys.iter().map(|(i, k)| ((*i, k.gen), k.k)).collect();
                    let g: BTreeMap<_, _> = o.iter().map(|(p, v)| (key(p), *v)).collect();
                    let h: BTreeMap<_, _> = c.iter().map(|(p, l)| (key(p), l.t)).collect();
                    let k: BTreeMap<_, _> = d.iter().map(|(p, l)| (key(p), l.t)).collect();
                    cx.ck(g == e && h == e && k == e, "S03", || {
                        format!("cloned keys {g:?} {h:?} {k:?}, expected {e:?}")
                    });
                    for (i, kk) in &s.m.keys {
                        let set = &s.m.grp[&kk.grp].1;
                        let w: BTreeSet<usize> =
                            c.iter_chain(forge(*i, kk.gen)).map(|(p, _)| key(p).0).collect();
                        let x: BTreeSet<usize> = d
                            .iter_chain(mk::<P::Inx>(*i as u128))
                            .map(|(p, _)| key(p).0)
                            .collect();
                        cx.ck(&w == set && &x == set, "S03", || {
                            format!("cloned key chain of {i} is {w:?} {x:?}, group {set:?}")
                        });
                    }
                }
            }
            _ => {
                if !crate::ser::HAS {
                    return
                }
                let fmt = op.a;
                cx.log(|| format!("serialization round trip (format {})", fmt % 2));
                let s = &mut self.s;
                let Some(b) = cx.call("serialize", "E01", Expect::No, || crate::ser::to_bytes(&s.a, fmt))
                else {
                    return
                };
                let Ok(b) = b else {
                    cx.fail("E01", format!("serialization failed {b:?}"));
                    return
                };
                let Some(d) = cx.call("deserialize", "E01", Expect::No, || {
                    crate::ser::from_bytes::<SA<P>>(&b, fmt)
                }) else {
                    return
                };
                match d {
                    Err(e) => cx.fail("E01", format!("deserialization failed: {e}")),
                    Ok(a) => {
                        let g = if counted::<P>() { 2 } else { 0 };
                        let mut m = s.m.clone();
                        m.gen = g;
                        for k in m.keys.values_mut() {
                            k.gen = g;
                        }
                        let mut pool = vec![P::invalid()];
                        for i in m.keys.keys() {
                            remember(&mut pool, forge(*i, g));
                        }
                        self.s = SSide { a, m, pool };
                        let n = cx.fails.len();
                        self.check(cx, "round trip");
                        if !cx.stop {
                            self.queries(op, cx);
                        }
                        for f in &mut cx.fails[n..] {
                            f.labels = "E01".to_owned();
                        }
                        cx.extra = "E01";
                    }
                }
            }
        }
    }

    fn compress(&mut self, op: &Op, cx: &mut Cx) {
        let mode = op.a % 3;
        cx.log(|| format!("compress_and_shrink (mode {mode})"));
        let n = self.s.m.keys.len();
        let nv = self.s.m.grp.len();
        let ex = self.s.m.overflow::<P>(n != 0);
        let s = &mut self.s;
        let mut map = vec![];
        let mut rec: Option<Arena<P, P>> = None;
        if cx
            .call("compress_and_shrink", "S03 A06", ex, || match mode {
                0 => s.a.compress_and_shrink(),
                1 => s.a.compress_and_shrink_with(|p, k, v, q| {
                    map.push((key(p), k.v, v.v, key(q)));
                    k.v += 1_000_000;
                }),
                _ => rec = Some(s.a.compress_and_shrink_recaster()),
            })
            .is_none()
        {
            return
        }
        self.lenient(cx, "compress_and_shrink", (n != 0) as u128);
        let s = &mut self.s;
        let g = s.m.gen;
        let shift = if mode == 1 { 1_000_000 } else { 0 };
        cx.ck(
            s.a.capacity_keys() == n && s.a.len_keys() == n && s.a.capacity_vals() == nv && s.a.len_vals() == nv,
            "S03",
            || {
                format!(
                    "compressed to {}/{} keys and {}/{} values, expected {n} and {nv}",
                    s.a.len_keys(),
                    s.a.capacity_keys(),
                    s.a.len_vals(),
                    s.a.capacity_vals()
                )
            },
        );
        let mut ren: BTreeMap<usize, usize> = BTreeMap::new();
        if mode == 1 {
            let ok = map.len() == n
                && map.iter().all(|(p, k, v, q)| {
                    s.m.keys.get(&p.0).is_some_and(|x| {
                        x.gen == p.1 && x.k == *k && s.m.grp[&x.grp].0 == *v
                    }) && q.1 == g
                });
            cx.ck(ok, "S03", || format!("compression reported {map:?}"));
            for e in &map {
                ren.insert(e.0 .0, e.3 .0);
            }
        } else if let Some(rec) = &rec {
            for (i, k) in &s.m.keys {
                let mut p: P = forge(*i, k.gen);
                let r = p.recast(rec);
                cx.ck(r.is_ok() && key(p).1 == g, "S03 A06", || format!("recasting {i} gave {p:?}"));
                ren.insert(*i, key(p).0);
            }
        } else {
            let by: BTreeMap<u64, usize> =
                s.a.iter().map(|(p, k, _)| (k.v, key(p).0)).collect();
            for (i, k) in &s.m.keys {
                if let Some(x) = by.get(&k.k) {
                    ren.insert(*i, *x);
                }
            }
        }
        if cx.stop {
            return
        }
        let img: BTreeSet<usize> = ren.values().copied().collect();
        if ren.len() != n || !img.iter().copied().eq(1..=n) {
            cx.fail("S03 A06", format!("renumbering {ren:?} is not dense and one to one"));
            return
        }
        let old = std::mem::take(&mut s.m.keys);
        for (i, k) in old {
            s.m.keys.insert(
                ren[&i],
                K {
                    gen: g,
                    k: k.k + shift,
                    grp: k.grp,
                },
            );
        }
        for grp in s.m.grp.values_mut() {
            grp.1 = grp.1.iter().map(|i| ren[i]).collect();
            let (lo, hi) = (*grp.1.first().unwrap(), *grp.1.last().unwrap());
            cx.ck(hi - lo + 1 == grp.1.len(), "S03", || format!("scattered group {:?}", grp.1));
        }
        for i in 1..=n {
            remember(&mut s.pool, forge(i, g));
        }
        let f = cx.fails.len();
        self.check(cx, "compress_and_shrink");
        if !cx.stop {
            self.queries(op, cx);
        }
        for f in &mut cx.fails[f..] {
            f.labels.push_str(" S03");
        }
    }
}

impl<P: Ptr> Machine for SurjectM<P> {
    fn new(flags: u32) -> Self {
        SurjectM {
            s: SSide::new(),
            t: SSide::new(),
            next: 0,
            bias: flags,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let c = op.code % 100;
        let ins = match self.bias % 4 {
            0 => 30,
            1 => 40,
            2 => 20,
            _ => 50,
        };
        if c < ins {
            let k = (op.code / 100) % 2;
            self.single(op, cx, k);
        } else if c < 92 {
            let k = match (op.code / 100) % 16 {
                0..=4 => 2,
                5..=7 => 3,
                8 => 4,
                9 => 5,
                10 | 11 => 6,
                12 | 13 => 7,
                14 => 8,
                _ => 9,
            };
            self.single(op, cx, k);
        } else {
            self.bulk(op, cx);
        }
        if cx.stop {
            return
        }
        self.check(cx, "this operation");
        if !cx.stop {
            self.queries(op, cx);
        }
    }

    fn finish(mut self, cx: &mut Cx) {
        // the set-like view through the common trait
        let mut u: SurjectArena<P, u64, ()> = SurjectArena::new();
        let p = ArenaTrait::insert(&mut u, 5);
        let ok = ArenaTrait::len(&u) == 1
            && ArenaTrait::get(&u, p) == Some(&5)
            && ArenaTrait::capacity(&u) >= 1
            && ArenaTrait::remove(&mut u, p) == Some(5)
            && ArenaTrait::is_empty(&u);
        cx.ck(ok, "S02", || "trait view".to_owned());
        // later insertions must not disturb the values
        for k in 0..3 {
            if self.s.m.keys.len() < imax::<P>() && !cx.stop {
                self.single(
                    &Op {
                        code: 0,
                        a: k,
                        b: 0,
                        c: 0,
                    },
                    cx,
                    0,
                );
                if !cx.stop {
                    self.check(cx, "final insertions");
                }
            }
        }
        if cx.stop {
            std::mem::forget(self);
            return
        }
        drop(self);
        drop(u);
        let (live, errs) = reg_state();
        cx.ck(errs == 0, "V01 S02", || format!("{errs} values dropped twice"));
        cx.ck(live == 0, "V01 S02", || format!("{live} values never dropped"));
        crate::galloc::check(cx);
    }
}
