//! Executable contracts of the ordered arena

use std::{
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
};

use triple_arena::{Advancer, Arena, ArenaTrait, ChainArena, OrdArena, Ptr};

use crate::{
    arena::{cousin, pick, remember},
    kit::*,
};

/// The tree invariants, checked on a dump of the nodes
pub fn structure<P: Ptr, K: Ord + Clone + Debug, V: Clone + Debug>(
    a: &OrdArena<P, K, V>,
) -> Result<(), String> {
    let d = a.debug_arena();
    let n = a.len();
    let mut nodes: BTreeMap<usize, (u8, Option<usize>, Option<usize>, Option<usize>)> =
        BTreeMap::new();
    for (p, (rank, _, _, l, b, r)) in d.iter() {
        let f = |x: &Option<P>| x.map(|p| key(p).0);
        nodes.insert(key(p).0, (*rank, f(l), f(b), f(r)));
    }
    if nodes.len() != n {
        return Err(format!("{} nodes, length {n}", nodes.len()))
    }
    if n == 0 {
        return Ok(())
    }
    let roots: Vec<usize> = nodes.iter().filter(|(_, x)| x.2.is_none()).map(|(i, _)| *i).collect();
    if roots.len() != 1 {
        return Err(format!("roots {roots:?}"))
    }
    for (i, x) in &nodes {
        let mut rk = [0u8; 2];
        for (c, s) in [(x.1, 0), (x.3, 1)] {
            if let Some(c) = c {
                match nodes.get(&c) {
                    Some(y) if y.2 == Some(*i) => rk[s] = y.0,
                    _ => return Err(format!("child {c} of {i} does not point back")),
                }
            }
        }
        if x.1.is_some() && x.1 == x.3 {
            return Err(format!("both children of {i} are the same"))
        }
        for r in rk {
            let d = x.0 as i32 - r as i32;
            if !(1..=2).contains(&d) {
                return Err(format!("rank difference {d} at {i}"))
            }
        }
        if x.1.is_none() && x.3.is_none() && x.0 != 1 {
            return Err(format!("leaf {i} has rank {}", x.0))
        }
    }
    // in order traversal, with depth
    let mut order = vec![];
    let mut depth = 0;
    let mut stack = vec![];
    let mut cur = Some(roots[0]);
    while cur.is_some() || !stack.is_empty() {
        while let Some(i) = cur {
            stack.push(i);
            depth = depth.max(stack.len());
            if stack.len() > n {
                return Err("cycle".to_owned())
            }
            cur = nodes[&i].1;
        }
        let i = stack.pop().unwrap();
        order.push(i);
        if order.len() > n {
            return Err("cycle".to_owned())
        }
        cur = nodes[&i].3;
    }
    let walk: Vec<usize> = a.ptrs().take(n + 1).map(|p| key(p).0).collect();
    if walk != order {
        return Err(format!("tree order {order:?}, iteration {walk:?}"))
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct E {
    i: usize,
    gen: u128,
    k: u64,
    v: u64,
}

type OA<P> = OrdArena<P, Tok, Tok>;

struct OSide<P: Ptr> {
    a: OA<P>,
    m: Vec<E>,
    gen: u128,
    pool: Vec<P>,
}

impl<P: Ptr> OSide<P> {
    fn new() -> Self {
        OSide {
            a: OrdArena::new(),
            m: vec![],
            gen: if counted::<P>() { 2 } else { 0 },
            pool: vec![P::invalid()],
        }
    }

    fn at(&self, p: P) -> Option<usize> {
        let (i, g) = key(p);
        self.m.iter().position(|e| e.i == i && e.gen == g)
    }

    fn bump(&mut self) {
        if counted::<P>() {
            self.gen += 1;
        }
    }

    fn overflow(&self, changes: bool) -> Expect {
        if counted::<P>() && self.gen >= gmax::<P>() {
            if changes {
                Expect::Panic("A04")
            } else {
                Expect::May
            }
        } else {
            Expect::No
        }
    }
}

pub struct OrdM<P: Ptr> {
    s: OSide<P>,
    t: OSide<P>,
    next: u64,
    bias: u32,
    steps: u32,
}

impl<P: Ptr> OrdM<P> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn key_of(&self, r: u32) -> u64 {
        match self.bias / 16 % 5 {
            0 => (r % 16) as u64 * 2,
            1 => (r % 60) as u64 * 2,
            2 => (r % 400) as u64 * 2,
            // ascending, descending
            3 => (self.next * 2) & 0xffff,
            _ => 0x10000 - ((self.next * 2) & 0xffff),
        }
    }

    fn pick(&self, r: u32) -> P {
        let live: Vec<(usize, u128)> = self.s.m.iter().map(|e| (e.i, e.gen)).collect();
        pick(&live, &self.s.pool, r)
    }

    fn check(&mut self, cx: &mut Cx, what: &str, full: bool) {
        let s = &mut self.s;
        let n = s.m.len();
        cx.ck(s.a.len() == n && s.a.is_empty() == (n == 0), "O04 O01", || {
            format!("after {what}: length {}, expected {n}", s.a.len())
        });
        cx.ck(raw(s.a.generation()) == s.gen, "A04", || {
            format!("after {what}: generation {}, expected {}", raw(s.a.generation()), s.gen)
        });
        cx.ck(s.a.capacity() >= n, "A03", || "capacity below length".to_owned());
        let got: Vec<(usize, u128)> = s.a.ptrs().take(n + 2).map(key).collect();
        cx.ck(got.iter().copied().eq(s.m.iter().map(|e| (e.i, e.gen))), "O01 O04", || {
            format!("after {what}: iteration {got:?}, expected {:?}", s.m)
        });
        let f = s.a.first().map(key);
        let l = s.a.last().map(key);
        cx.ck(f == s.m.first().map(|e| (e.i, e.gen)), "O01", || format!("after {what}: first {f:?}"));
        cx.ck(l == s.m.last().map(|e| (e.i, e.gen)), "O01", || format!("after {what}: last {l:?}"));
        if full || n < 40 {
            for (x, e) in s.m.iter().enumerate() {
                let p: P = forge(e.i, e.gen);
                let r = s.a.get(p).map(|(k, v)| (k.v, v.v));
                cx.ck(
                    r == Some((e.k, e.v))
                        && s.a.contains(p)
                        && s.a.get_key(p).map(|k| k.v) == Some(e.k)
                        && s.a.get_val(p).map(|k| k.v) == Some(e.v),
                    "O04 A01",
                    || format!("after {what}: {p:?} is {r:?}, expected {e:?}"),
                );
                let prev = x.checked_sub(1).map(|x| (s.m[x].i, s.m[x].gen));
                let next = s.m.get(x + 1).map(|e| (e.i, e.gen));
                match s.a.get_link(p) {
                    None => cx.fail("O01 O04", format!("after {what}: no link at {p:?}")),
                    Some(l) => {
                        let g = (l.prev().map(key), l.next().map(key), l.t.0.v, l.t.1.v);
                        cx.ck(g == (prev, next, e.k, e.v), "O01", || {
                            format!("after {what}: link at {p:?} is {g:?}, expected {prev:?} {next:?}")
                        });
                    }
                }
                match s.a.get_link_no_gen(p.inx()) {
                    None => cx.fail("O01 O04", format!("after {what}: no raw link at {p:?}")),
                    Some((g, l)) => {
                        let r = (
                            raw(g),
                            l.prev().map(|p| raw(p) as usize),
                            l.next().map(|p| raw(p) as usize),
                            l.t.0.v,
                            l.t.1.v,
                        );
                        let e = (e.gen, prev.map(|p| p.0), next.map(|p| p.0), e.k, e.v);
                        cx.ck(r == e, "O01", || format!("after {what}: raw link at {p:?} is {r:?}"));
                    }
                }
            }
            let r = structure(&s.a);
            if let Err(e) = r {
                let l = if e.starts_with("rank") || e.starts_with("leaf") { "O03" } else { "O01 O02 O03" };
                cx.fail(l, format!("after {what}: {e}"));
            }
        }
        for p in s.pool.iter().copied() {
            if s.at(p).is_none() {
                let ok = !s.a.contains(p)
                    && s.a.get(p).is_none()
                    && s.a.get_key(p).is_none()
                    && s.a.get_val(p).is_none()
                    && s.a.get_link(p).is_none()
                    && s.a.get_val_mut(p).is_none()
                    && s.a.get_mut(p).is_none();
                cx.ck(ok, "O04 A01", || format!("after {what}: stale {p:?} resolves"));
            }
        }
    }

    fn similar(s: &OSide<P>, k: u64, r: Option<(P, Ordering)>) -> bool {
        match r {
            None => s.m.is_empty(),
            Some((p, o)) => match s.at(p) {
                None => false,
                Some(x) => {
                    let e = &s.m[x];
                    let present = s.m.iter().any(|e| e.k == k);
                    (o == Ordering::Equal) == present
                        && k.cmp(&e.k) == o
                        && match o {
                            Ordering::Less => x == 0 || s.m[x - 1].k < k,
                            Ordering::Equal => true,
                            Ordering::Greater => s.m.get(x + 1).is_none_or(|e| k < e.k),
                        }
                }
            },
        }
    }

    fn queries(&mut self, op: &Op, cx: &mut Cx) {
        let p = self.pick(op.a);
        let k = if op.b % 3 != 0 && !self.s.m.is_empty() {
            self.s.m[op.b as usize / 3 % self.s.m.len()].k + (op.c & 1) as u64
        } else {
            self.key_of(op.b) + (op.c & 1) as u64
        };
        let num = (op.c / 2 % 9) as usize;
        let s = &self.s;
        let n = s.m.len();
        let present = s.m.iter().any(|e| e.k == k);
        let t = Tok::new(k);
        let ok = |r: Option<P>| match r {
            None => !present,
            Some(p) => s.at(p).is_some_and(|x| s.m[x].k == k),
        };
        if let Some(r) = cx.call("find_key", "O02", Expect::No, || s.a.find_key(&t)) {
            cx.ck(ok(r), "O02", || format!("find_key({k}) is {r:?}"));
        }
        if let Some(r) =
            cx.call("find_key_linear", "O02", Expect::No, || s.a.find_key_linear(p, num, &t))
        {
            cx.ck(ok(r), "O02", || format!("find_key_linear({p:?}, {num}, {k}) is {r:?}"));
        }
        if let Some(r) = cx.call("find_similar_key", "O02", Expect::No, || s.a.find_similar_key(&t))
        {
            cx.ck(Self::similar(s, k, r), "O02", || {
                format!("find_similar_key({k}) is {r:?} in {:?}", s.m)
            });
        }
        if let Some(r) = cx.call("find_similar_key_linear", "O02", Expect::No, || {
            s.a.find_similar_key_linear(p, num, &t)
        }) {
            cx.ck(Self::similar(s, k, r), "O02", || {
                format!("find_similar_key_linear({p:?}, {num}, {k}) is {r:?} in {:?}", s.m)
            });
        }
        // at most about 2 log2 comparisons
        let lim = 2 * (usize::BITS - (n + 1).leading_zeros()) as usize + 2;
        let mut cnt = 0;
        if let Some(r) = cx.call("find_with", "O02", Expect::No, || {
            s.a.find_with(|p, x, v| {
                cnt += 1;
                debug_seen(s, p, x, v);
                k.cmp(&x.v)
            })
        }) {
            cx.ck(ok(r), "O02", || format!("find_with({k}) is {r:?}"));
            cx.ck(cnt <= lim, "O03", || format!("{cnt} comparisons with {n} entries"));
        }
        let mut cnt = 0;
        if let Some(r) = cx.call("find_similar_with", "O02", Expect::No, || {
            s.a.find_similar_with(|p, x, v| {
                cnt += 1;
                debug_seen(s, p, x, v);
                k.cmp(&x.v)
            })
        }) {
            cx.ck(Self::similar(s, k, r), "O02", || format!("find_similar_with({k}) is {r:?}"));
            cx.ck(cnt <= lim, "O03", || format!("{cnt} comparisons with {n} entries"));
        }
        // the suffix
        let e: Vec<usize> = match s.at(p) {
            None => vec![],
            Some(x) => s.m[x..].iter().map(|e| e.i).collect(),
        };
        if let Some(w) = cx.call("advancer_starting_from", "O01", Expect::No, || {
            let mut adv = s.a.advancer_starting_from(p);
            let mut w = vec![];
            while let Some(p) = adv.advance(&s.a) {
                w.push(key(p).0);
                if w.len() > n {
                    break
                }
            }
            w
        }) {
            cx.ck(w == e, "O01", || format!("from {p:?}: {w:?}, expected {e:?}"));
        }
        let s = &mut self.s;
        match op.c / 32 % 6 {
            0 => {
                let w: Vec<_> =
                    s.a.iter().take(n + 1).map(|(p, k, v)| (key(p).0, k.v, v.v)).collect();
                cx.ck(w.iter().copied().eq(s.m.iter().map(|e| (e.i, e.k, e.v))), "O01 A08", || {
                    format!("iter is {w:?}")
                });
            }
            1 => {
                let w: Vec<_> = s.a.keys().take(n + 1).map(|k| k.v).collect();
                cx.ck(w.iter().copied().eq(s.m.iter().map(|e| e.k)), "O01 A08", || {
                    format!("keys is {w:?}")
                });
            }
            2 => {
                let w: Vec<_> = s.a.vals().take(n + 1).map(|k| k.v).collect();
                cx.ck(w.iter().copied().eq(s.m.iter().map(|e| e.v)), "O01 A08", || {
                    format!("vals is {w:?}")
                });
            }
            3 => {
                let w: Vec<_> = s.a.vals_mut().take(n + 1).map(|k| k.v).collect();
                cx.ck(w.iter().copied().eq(s.m.iter().map(|e| e.v)), "O01 A08", || {
                    format!("vals_mut is {w:?}")
                });
            }
            _ => {}
        }
    }

    fn placed(&mut self, cx: &mut Cx, p: P, k: u64, v: u64, pos: Option<usize>) {
        let (i, gen) = key(p);
        cx.log(|| format!("  -> {p:?}"));
        let ok = gen == self.s.gen && !self.s.m.iter().any(|e| e.i == i);
        cx.ck(ok, "O04 A01", || format!("insertion returned {p:?}"));
        remember(&mut self.s.pool, p);
        let e = E { i, gen, k, v };
        let x = match pos {
            Some(x) => x,
            None => {
                // anywhere among equal keys
                let lo = self.s.m.partition_point(|e| e.k < k);
                let hi = self.s.m.partition_point(|e| e.k <= k);
                let w: Option<usize> =
                    self.s.a.ptrs().take(self.s.m.len() + 1).position(|q| q == p);
                match w {
                    Some(x) if lo <= x && x <= hi => x,
                    _ => {
                        cx.fail("O01", format!("{k} was placed at {w:?}, expected {lo}..={hi}"));
                        lo
                    }
                }
            }
        };
        self.s.m.insert(x, e);
    }

    fn single(&mut self, op: &Op, cx: &mut Cx, kind: u32) {
        let p = self.pick(op.a);
        let at = self.s.at(p);
        let full = self.s.m.len() >= imax::<P>();
        match kind {
            0 => {
                let v = self.fresh();
                let k = self.key_of(op.b);
                let num = (op.c / 8 % 6) as usize;
                let how = op.c % 8;
                let lo = self.s.m.partition_point(|e| e.k < k);
                let present = self.s.m.get(lo).is_some_and(|e| e.k == k);
                let nonher = matches!(how, 4 | 5);
                let ex = if full && !(present && !nonher) && how != 6 {
                    Expect::Panic("A03")
                } else {
                    Expect::No
                };
                cx.log(|| format!("insertion kind {how} of {k}: {v} (near {p:?}, {num})"));
                let s = &mut self.s;
                match how {
                    4 | 5 => {
                        if let Some(r) = cx.call("insert_nonhereditary", "O01 O02 O04", ex, || {
                            if how == 4 {
                                s.a.insert_nonhereditary(Tok::new(k), Tok::new(v))
                            } else {
                                s.a.insert_nonhereditary_linear(p, num, Tok::new(k), Tok::new(v))
                            }
                        }) {
                            self.placed(cx, r, k, v, None);
                        }
                    }
                    6 => {
                        let empty = s.m.is_empty();
                        if let Some(r) = cx.call("insert_empty", "O02 O04", Expect::No, || {
                            s.a.insert_empty(Tok::new(k), Tok::new(v))
                        }) {
                            cx.ck(r.is_some() == empty, "O04", || format!("insert_empty is {r:?}"));
                            if let (Some(r), true) = (r, empty) {
                                self.placed(cx, r, k, v, Some(0));
                            }
                        }
                    }
                    _ => {
                        if let Some((r, old)) = cx.call("insert", "O01 O02 O04", ex, || {
                            let (p, r) = match how {
                                7 | 3 => s.a.insert_linear(p, num, Tok::new(k), Tok::new(v)),
                                _ => s.a.insert(Tok::new(k), Tok::new(v)),
                            };
                            (p, r.map(|(k, v)| (k.v, v.v)))
                        }) {
                            if present {
                                let x = s.at(r);
                                let ok = x.is_some_and(|x| {
                                    s.m[x].k == k && old == Some((k, s.m[x].v))
                                });
                                cx.ck(ok, "O02 O04", || {
                                    format!("inserting present {k} gave {r:?} and {old:?}")
                                });
                                if let (Some(x), true) = (x, ok) {
                                    s.m[x].v = v;
                                }
                            } else {
                                cx.ck(old.is_none(), "O02", || format!("insert gave back {old:?}"));
                                if !cx.stop {
                                    self.placed(cx, r, k, v, None);
                                }
                            }
                        }
                    }
                }
            }
            1 => {
                // manual insertion, kept in order
                let Some(x) = at else { return };
                let v = self.fresh();
                let dir = match op.c % 3 {
                    0 => Ordering::Less,
                    1 => Ordering::Equal,
                    _ => Ordering::Greater,
                };
                let k = self.s.m[x].k;
                cx.log(|| format!("insert_inx_manual_unwrap({p:?}, {dir:?}, {k}, {v})"));
                let ex = if full && dir != Ordering::Equal {
                    Expect::Panic("A03")
                } else {
                    Expect::No
                };
                let s = &mut self.s;
                if let Some((r, old)) = cx.call("insert_inx_manual_unwrap", "O01 O04", ex, || {
                    let (p, r) =
                        s.a.insert_inx_manual_unwrap(p.inx(), dir, Tok::new(k), Tok::new(v));
                    (p, r.map(|(k, v)| (k.v, v.v)))
                }) {
                    if dir == Ordering::Equal {
                        cx.ck(r == p && old == Some((k, s.m[x].v)), "O04 O02", || {
                            format!("replacement gave {r:?} and {old:?}")
                        });
                        s.m[x].v = v;
                    } else {
                        cx.ck(old.is_none(), "O04", || format!("insertion gave {old:?}"));
                        let x = if dir == Ordering::Less { x } else { x + 1 };
                        self.placed(cx, r, k, v, Some(x));
                    }
                }
            }
            2 => {
                cx.log(|| format!("remove({p:?})"));
                let ex = if at.is_some() { self.s.overflow(true) } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("remove", "O04 O01", ex, || {
                    s.a.remove(p).map(|(k, v)| (k.v, v.v))
                }) {
                    let e = at.map(|x| (s.m[x].k, s.m[x].v));
                    cx.ck(r == e, "O04", || format!("remove({p:?}) is {r:?}, expected {e:?}"));
                    if let Some(x) = at {
                        s.m.remove(x);
                        s.bump();
                    }
                }
            }
            3 => {
                let upd = op.c % 3;
                let v = self.fresh();
                cx.log(|| format!("replace/invalidate kind {upd} ({p:?}, {v})"));
                let ex = if at.is_some() && upd != 0 { self.s.overflow(true) } else { Expect::No };
                let s = &mut self.s;
                // Ok((old value, new pointer))
                if let Some(r) = cx.call("replace", "O04", ex, || match upd {
                    0 => s.a.replace_val_and_keep_gen(p, Tok::new(v)).map(|t| (t.v, p)).map_err(|t| t.v),
                    1 => s
                        .a
                        .replace_val_and_update_gen(p, Tok::new(v))
                        .map(|(t, q)| (t.v, q))
                        .map_err(|t| t.v),
                    _ => s.a.invalidate(p).map(|q| (0, q)).ok_or(v),
                }) {
                    match (r, at) {
                        (Ok((old, q)), Some(x)) => {
                            if upd != 2 {
                                cx.ck(old == s.m[x].v, "O04", || format!("replaced {old}"));
                                s.m[x].v = v;
                            }
                            if upd != 0 {
                                s.bump();
                                s.m[x].gen = s.gen;
                            }
                            cx.ck(key(q) == (s.m[x].i, s.m[x].gen), "O04 A01", || {
                                format!("replacement pointer {q:?}")
                            });
                            remember(&mut s.pool, q);
                        }
                        (Err(w), None) => {
                            cx.ck(w == v, "O04", || "lost argument".to_owned());
                        }
                        (r, _) => cx.fail("O04 A01", format!("replace({p:?}) is {r:?}")),
                    }
                }
            }
            4 => {
                let q = match op.c % 7 {
            0 => p,
            1 => cousin(p, op.b),
            _ => self.pick(op.b),
        };
                let aq = self.s.at(q);
                cx.log(|| format!("swap_vals({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("swap_vals", "O04", Expect::No, || s.a.swap_vals(p, q)) {
                    cx.ck(r.is_some() == (at.is_some() && aq.is_some()), "O04 A01", || {
                        format!("swap_vals({p:?}, {q:?}) is {r:?}")
                    });
                    if let (Some(x), Some(y)) = (at, aq) {
                        let (a, b) = (s.m[x].v, s.m[y].v);
                        s.m[x].v = b;
                        s.m[y].v = a;
                    }
                }
            }
            5 => {
                let q = match op.c % 7 {
            0 => p,
            1 => cousin(p, op.b),
            _ => self.pick(op.b),
        };
                let aq = self.s.at(q);
                let (v, w) = (self.fresh(), self.fresh());
                cx.log(|| format!("get2_val_mut({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("get2_val_mut", "O04", Expect::No, || {
                    s.a.get2_val_mut(p, q).map(|(a, b)| {
                        let r = (a.v, b.v);
                        a.v = v;
                        b.v = w;
                        r
                    })
                }) {
                    let e = match (at, aq) {
                        (Some(x), Some(y)) if x != y => Some((s.m[x].v, s.m[y].v)),
                        _ => None,
                    };
                    cx.ck(r == e, "O04", || format!("get2_val_mut({p:?}, {q:?}) is {r:?}"));
                    if let (Some(_), Some(x), Some(y)) = (e, at, aq) {
                        s.m[x].v = v;
                        s.m[y].v = w;
                    }
                }
            }
            _ => {
                let v = self.fresh();
                cx.log(|| format!("*get_mut({p:?}) = {v}"));
                let s = &mut self.s;
                let how = op.c % 3;
                if let Some(r) = cx.call("get_mut", "O04", Expect::No, || match how {
                    0 => s.a.get_val_mut(p).map(|t| std::mem::replace(&mut t.v, v)),
                    1 => s.a.get_mut(p).map(|t| std::mem::replace(&mut t.1.v, v)),
                    _ => {
                        if at.is_some() {
                            Some(std::mem::replace(&mut s.a[p].v, v))
                        } else {
                            None
                        }
                    }
                }) {
                    let e = at.map(|x| s.m[x].v);
                    cx.ck(r == e, "O04", || format!("get_mut({p:?}) is {r:?}, expected {e:?}"));
                    if let Some(x) = at {
                        s.m[x].v = v;
                    }
                }
            }
        }
    }

    fn lenient(&mut self, cx: &mut Cx, what: &str, lo: u128) {
        if !counted::<P>() {
            return
        }
        let g = raw(self.s.a.generation());
        let g0 = self.s.gen;
        cx.ck(g >= g0 + lo && g <= g0 + 1, "A04", || {
            format!("{what} moved the generation from {g0} to {g}")
        });
        self.s.gen = g;
    }

    fn relabelled(&mut self, cx: &mut Cx, what: &str, op: &Op, label: &str) {
        let n = cx.fails.len();
        self.check(cx, what, true);
        if !cx.stop {
            self.queries(op, cx);
        }
        for f in &mut cx.fails[n..] {
            f.labels.push(' ');
            f.labels.push_str(label);
        }
    }

    fn bulk(&mut self, op: &Op, cx: &mut Cx) {
        let n = self.s.m.len();
        let some = (n != 0) as u128;
        let cap = self.s.a.capacity();
        match (op.code / 100) % 16 {
            0 => {
                let shrink = op.a % 2 == 0;
                cx.log(|| format!("clear (shrink {shrink})"));
                let ex = self.s.overflow(n != 0);
                let s = &mut self.s;
                if cx
                    .call("clear", "O04 A05", ex, || {
                        if shrink {
                            s.a.clear_and_shrink()
                        } else {
                            s.a.clear()
                        }
                    })
                    .is_some()
                {
                    s.m.clear();
                    let want = if shrink { 0 } else { cap };
                    cx.ck(s.a.capacity() == want, "A03 A05", || "capacity after clear".to_owned());
                    self.lenient(cx, "clear", some);
                }
            }
            1 => {
                let stop = if op.a % 3 == 0 { op.b as usize % (n + 1) } else { n + 1 };
                if counted::<P>() && self.s.gen + n as u128 + 1 > gmax::<P>() {
                    return
                }
                cx.log(|| format!("drain (stopping after {stop})"));
                let s = &mut self.s;
                if let Some(w) = cx.call("drain", "A05 O04", Expect::No, || {
                    s.a.drain().take(stop).map(|(p, k, v)| (key(p), k.v, v.v)).collect::<Vec<_>>()
                }) {
                    let ok = w.len() == stop.min(n)
                        && w.iter()
                            .zip(&s.m)
                            .all(|(g, e)| *g == ((e.i, e.gen), e.k, e.v));
                    cx.ck(ok, "A05 O04 O01", || format!("drained {w:?} of {:?}", s.m));
                    s.m.clear();
                    cx.ck(s.a.is_empty(), "A05", || "drain left entries".to_owned());
                    s.gen = raw(s.a.generation());
                }
            }
            2 => {
                cx.log(|| "consume a copy".to_owned());
                let s = &mut self.s;
                if let Some((w, c)) = cx.call("into_iter", "A05 A04 O01", Expect::No, || {
                    let c = s.a.clone();
                    let lim = if op.a % 3 == 0 { op.b as usize % (n + 1) } else { n + 1 };
                    (
                        c.into_iter().take(lim).map(|(p, k, v)| (key(p), k.v, v.v)).collect::<Vec<_>>(),
                        lim,
                    )
                }) {
                    let ok = w.len() == c.min(n)
                        && w.iter()
                            .zip(&s.m)
                            .all(|(g, e)| *g == ((e.i, e.gen), e.k, e.v));
                    cx.ck(ok, "A05 O01", || format!("consumed {w:?} of {:?}", s.m));
                }
            }
            3..=5 => {
                let mode = op.a % 3;
                cx.log(|| format!("compress_and_shrink (mode {mode})"));
                let ex = self.s.overflow(n != 0);
                let s = &mut self.s;
                let mut map = vec![];
                let mut rec: Option<Arena<P, P>> = None;
                if cx
                    .call("compress_and_shrink", "O05 A06", ex, || match mode {
                        0 => s.a.compress_and_shrink(),
                        1 => s.a.compress_and_shrink_with(|p, k, v, q| {
                            map.push((key(p), k.v, v.v, key(q)));
                            v.v += 1_000_000;
                        }),
                        _ => rec = Some(s.a.compress_and_shrink_recaster()),
                    })
                    .is_none()
                {
                    return
                }
                self.lenient(cx, "compress_and_shrink", some);
                let s = &mut self.s;
                let g = s.gen;
                cx.ck(s.a.capacity() == n, "O05 A06", || format!("capacity {}", s.a.capacity()));
                if mode == 1 {
                    let by: BTreeMap<_, _> = map.iter().map(|e| (e.0, (e.1, e.2, e.3))).collect();
                    let ok = map.len() == n
                        && by.len() == n
                        && s.m.iter().enumerate().all(|(x, e)| {
                            by.get(&(e.i, e.gen)) == Some(&(e.k, e.v, (x + 1, g)))
                        });
                    cx.ck(ok, "O05", || format!("compression reported {map:?} for {:?}", s.m));
                }
                if let Some(rec) = &rec {
                    for (x, e) in s.m.iter().enumerate() {
                        let mut p: P = forge(e.i, e.gen);
                        let r = p.recast(rec);
                        cx.ck(r.is_ok() && key(p) == (x + 1, g), "O05 A06", || {
                            format!("recasting {e:?} gave {p:?}")
                        });
                    }
                    cx.ck(rec.len() == n, "O05 A06", || "recaster length".to_owned());
                }
                for (x, e) in s.m.iter_mut().enumerate() {
                    e.i = x + 1;
                    e.gen = g;
                    if mode == 1 {
                        e.v += 1_000_000;
                    }
                    remember(&mut s.pool, forge(x + 1, g));
                }
                self.relabelled(cx, "compress_and_shrink", op, "O05");
            }
            6 | 7 => {
                let how = op.a % 3;
                cx.log(|| format!("clone kind {how}"));
                let s = &mut self.s;
                let t = &mut self.t;
                let mut offered = vec![];
                if cx
                    .call("clone", "O05", Expect::No, || match how {
                        0 => t.a = s.a.clone(),
                        1 => t.a.clone_from(&s.a),
                        _ => t.a.clone_from_with(&s.a, |p, v| {
                            offered.push((key(p), v.v));
                            Tok::new(v.v + 10_000_000)
                        }),
                    })
                    .is_some()
                {
                    if how != 2 {
                        cx.ck(t.a == s.a && s.a.cmp(&t.a) == Ordering::Equal, "O05", || {
                            "a clone differs".to_owned()
                        });
                    } else {
                        let a: BTreeSet<_> = offered.iter().copied().collect();
                        let e: BTreeSet<_> = s.m.iter().map(|e| ((e.i, e.gen), e.v)).collect();
                        cx.ck(a == e && offered.len() == n, "O05", || format!("offered {offered:?}"));
                    }
                    t.m = s.m.clone();
                    t.gen = s.gen;
                    t.pool = s.pool.clone();
                    if how == 2 {
                        for e in &mut t.m {
                            e.v += 10_000_000;
                        }
                    }
                    self.relabelled(cx, "clone", op, "O05");
                    std::mem::swap(&mut self.s, &mut self.t);
                    if !cx.stop {
                        self.relabelled(cx, "clone", op, "O05");
                    }
                }
            }
            8 | 9 => {
                // comparison with the other side, and with a slightly changed copy
                let seq = |m: &Vec<E>| m.iter().map(|e| (e.k, e.v)).collect::<Vec<_>>();
                let s = &self.s;
                let t = &self.t;
                let want = seq(&s.m).cmp(&seq(&t.m));
                let got = (s.a.cmp(&t.a), s.a.partial_cmp(&t.a), s.a == t.a);
                cx.log(|| format!("comparison is {got:?}"));
                cx.ck(
                    got == (want, Some(want), want == Ordering::Equal),
                    "O05",
                    || format!("comparison {got:?}, expected {want:?}: {:?} {:?}", s.m, t.m),
                );
                let mut c = s.a.clone();
                let mut m = s.m.clone();
                let can = !counted::<P>() || s.gen < gmax::<P>();
                let r = op.b as usize % n.max(1);
                match op.a % 5 {
                    0 if n != 0 => {
                        let d = op.c % 2 == 0;
                        let x = &mut c[forge::<P>(m[r].i, m[r].gen)];
                        if d || x.v == 0 {
                            x.v += 1;
                            m[r].v += 1;
                        } else {
                            x.v -= 1;
                            m[r].v -= 1;
                        }
                    }
                    1 if n != 0 && can => {
                        let _ = c.remove(forge::<P>(m[r].i, m[r].gen));
                        m.remove(r);
                    }
                    2 if n != 0 && can => {
                        let k = m.len() - 1;
                        let _ = c.remove(forge::<P>(m[k].i, m[k].gen));
                        m.remove(k);
                    }
                    3 if n < imax::<P>() => {
                        let k = self.key_of(op.b);
                        let p = c.insert_nonhereditary(Tok::new(k), Tok::new(1));
                        let x = c.ptrs().take(n + 1).position(|q| q == p).unwrap_or(0);
                        m.insert(
                            x,
                            E {
                                i: 0,
                                gen: 0,
                                k,
                                v: 1,
                            },
                        );
                    }
                    _ => {}
                }
                let s = &self.s;
                let want = seq(&s.m).cmp(&seq(&m));
                let got = (s.a.cmp(&c), s.a.partial_cmp(&c), s.a == c);
                cx.ck(
                    got == (want, Some(want), want == Ordering::Equal),
                    "O05",
                    || format!("comparison {got:?}, expected {want:?}: {:?} {m:?}", s.m),
                );
                let got = (c.cmp(&s.a), c.partial_cmp(&s.a), c == s.a);
                let want = want.reverse();
                cx.ck(
                    got == (want, Some(want), want == Ordering::Equal),
                    "O05",
                    || format!("comparison {got:?}, expected {want:?}: {m:?} {:?}", s.m),
                );
            }
            10 => {
                cx.log(|| "swap sides".to_owned());
                std::mem::swap(&mut self.s, &mut self.t);
            }
            11 => {
                let k = (op.a % 9) as usize;
                if cap + k > imax::<P>() {
                    return
                }
                cx.log(|| format!("reserve({k})"));
                let s = &mut self.s;
                if cx.call("reserve", "A03", Expect::No, || s.a.reserve(k)).is_some() {
                    cx.ck(s.a.capacity() >= n + k && s.a.capacity() >= cap, "A03", || {
                        "reserve did too little".to_owned()
                    });
                }
            }
            12 => {
                cx.log(|| "copy to other arenas".to_owned());
                let s = &self.s;
                let mut o: Arena<P, (u64, u64)> = Arena::new();
                let mut c: ChainArena<P, (u64, u64)> = ChainArena::new();
                for i in 0..op.b % 5 {
                    o.insert((i as u64, 0));
                    c.insert_new((i as u64, 0));
                }
                if cx
                    .call("clone_to", "O05", Expect::No, || {
                        s.a.clone_to_arena(&mut o, |_, k, v| (k.v, v.v));
                        s.a.clone_to_chain_arena(&mut c, |_, k, v| (k.v, v.v));
                    })
                    .is_some()
                {
                    let e: BTreeMap<_, _> =
                        s.m.iter().map(|e| ((e.i, e.gen), (e.k, e.v))).collect();
                    let g: BTreeMap<_, _> = o.iter().map(|(p, v)| (key(p), *v)).collect();
                    let h: BTreeMap<_, _> = c.iter().map(|(p, l)| (key(p), l.t)).collect();
                    cx.ck(g == e && h == e, "O05", || format!("copied {g:?} {h:?} of {e:?}"));
                    if let (Some(e), true) = (s.m.first(), g == h) {
                        let w: Vec<_> = c.iter_chain(forge(e.i, e.gen)).map(|(p, _)| key(p).0).collect();
                        cx.ck(w.iter().copied().eq(s.m.iter().map(|e| e.i)), "O05", || {
                            format!("copied chain {w:?}")
                        });
                    }
                }
            }
            13 => {
                cx.log(|| "collect from pairs".to_owned());
                let m = op.a as usize % 12;
                let mut rng = Rng(op.b as u64);
                let src: Vec<(u64, u64)> =
                    (0..m).map(|i| (rng.below(8), 100 + i as u64)).collect();
                if let Some(a) = cx.call("from_iter", "O02", Expect::No, || {
                    src.iter()
                        .map(|(k, v)| (Tok::new(*k), Tok::new(*v)))
                        .collect::<OA<P>>()
                }) {
                    let e: BTreeMap<u64, u64> = src.iter().copied().collect();
                    let g: Vec<(u64, u64)> =
                        a.iter().take(m + 1).map(|(_, k, v)| (k.v, v.v)).collect();
                    cx.ck(g.iter().copied().eq(e.iter().map(|(k, v)| (*k, *v))), "O02 O01", || {
                        format!("collected {g:?} from {src:?}")
                    });
                }
            }
            _ => {
                if !crate::ser::HAS {
                    return
                }
                let fmt = op.a;
                cx.log(|| format!("serialization round trip (format {})", fmt % 2));
                let s = &mut self.s;
                let dense = s.m.iter().enumerate().all(|(x, e)| e.i == x + 1);
                if !dense {
                    if let Some(r) =
                        cx.call("serialize", "E01", Expect::No, || crate::ser::to_bytes(&s.a, fmt))
                    {
                        // not in the documented compressed state: it must be
                        // refused, or what is stored must still come back right
                        if let Ok(b) = r {
                            let d = crate::ser::from_bytes::<OA<P>>(&b, fmt);
                            let ok = d.is_ok_and(|d| {
                                d.iter().map(|(p, k, v)| (key(p).0, k.v, v.v)).eq(s
                                    .m
                                    .iter()
                                    .map(|e| (e.i, e.k, e.v)))
                            });
                            cx.ck(ok, "E01", || {
                                "an uncompressed ordered arena was stored wrongly".to_owned()
                            });
                        }
                    }
                    if counted::<P>() && s.gen >= gmax::<P>() {
                        return
                    }
                    s.a.compress_and_shrink();
                    for (x, e) in s.m.iter_mut().enumerate() {
                        e.i = x + 1;
                    }
                }
                let Some(b) = cx.call("serialize", "E01", Expect::No, || {
                    s.a.compress_and_shrink();
                    crate::ser::to_bytes(&s.a, fmt)
                }) else {
                    return
                };
                let Ok(b) = b else {
                    cx.fail("E01", format!("serialization failed {b:?}"));
                    return
                };
                let Some(d) = cx.call("deserialize", "E01", Expect::No, || {
                    crate::ser::from_bytes::<OA<P>>(&b, fmt)
                }) else {
                    return
                };
                match d {
                    Err(e) => cx.fail("E01", format!("deserialization failed: {e}")),
                    Ok(a) => {
                        let g = if counted::<P>() { 2 } else { 0 };
                        let mut m = s.m.clone();
                        let mut pool = vec![P::invalid()];
                        for (x, e) in m.iter_mut().enumerate() {
                            e.i = x + 1;
                            e.gen = g;
                            remember(&mut pool, forge(x + 1, g));
                        }
                        self.s = OSide { a, m, gen: g, pool };
                        self.relabelled(cx, "round trip", op, "E01");
                        cx.extra = "E01";
                    }
                }
            }
        }
    }
}

/// the entries offered to a comparison function must be real ones
fn debug_seen<P: Ptr>(s: &OSide<P>, p: P, k: &Tok, v: &Tok) {
    let ok = s.at(p).is_some_and(|x| s.m[x].k == k.v && s.m[x].v == v.v);
    assert!(ok, "the comparison function was given {p:?} with {} {}", k.v, v.v);
}

impl<P: Ptr> Machine for OrdM<P> {
    fn new(flags: u32) -> Self {
        OrdM {
            s: OSide::new(),
            t: OSide::new(),
            next: 0,
            bias: flags,
            steps: 0,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let c = op.code % 100;
        // growing or shrinking phases
        let phase = self.steps / 64 % 2;
        let ins = match (self.bias % 4, phase) {
            (0, _) => 40,
            (1, 0) => 70,
            (1, _) => 20,
            (2, _) => 60,
            _ => 50,
        };
        self.steps += 1;
        if c < ins {
            let k = ((op.code / 100) % 5 == 4) as u32;
            self.single(op, cx, k);
        } else if c < 94 {
            let k = match (op.code / 100) % 10 {
                0..=5 => 2,
                6 => 3,
                7 => 4,
                8 => 5,
                _ => 6,
            };
            self.single(op, cx, k);
        } else {
            self.bulk(op, cx);
        }
        if cx.stop {
            return
        }
        let full = op.c % 4 == 0;
        self.check(cx, "this operation", full);
        if !cx.stop {
            self.queries(op, cx);
        }
    }

    fn finish(mut self, cx: &mut Cx) {
        let mut u: OrdArena<P, u64, ()> = OrdArena::new();
        let (p, _) = u.insert(5, ());
        let ok = ArenaTrait::len(&u) == 1
            && ArenaTrait::contains(&u, p)
            && ArenaTrait::capacity(&u) >= 1
            && ArenaTrait::remove(&mut u, p).is_some()
            && ArenaTrait::is_empty(&u);
        cx.ck(ok, "O04", || "trait view".to_owned());
        self.check(cx, "the last operation", true);
        if cx.stop {
            std::mem::forget(self);
            return
        }
        drop(self);
        drop(u);
        let (live, errs) = reg_state();
        cx.ck(errs == 0, "V01 O04", || format!("{errs} values dropped twice"));
        cx.ck(live == 0, "V01 O04", || format!("{live} values never dropped"));
        crate::galloc::check(cx);
    }
}
