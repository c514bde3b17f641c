//! Executable contracts of both chain arenas

use std::collections::{BTreeMap, BTreeSet};

use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen},
    Advancer, Arena, ArenaTrait, ChainArena, Link, Ptr,
};

use crate::{
    arena::{cousin, pick, remember},
    kit::*,
};

/// a neighbour: index, and generation where it is stored
pub type Nb = Option<(usize, Option<u128>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub gen: u128,
    pub v: u64,
    pub prev: Option<usize>,
    pub next: Option<usize>,
}

pub trait CA<P: Ptr>: Sized + Clone + PartialEq {
    const GEN: bool;
    fn new() -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn generation(&self) -> P::Gen;
    fn reserve(&mut self, n: usize);
    fn insert(&mut self, pn: (Option<P>, Option<P>), t: Tok) -> Result<P, Tok>;
    fn insert_with(
        &mut self,
        pn: (Option<P>, Option<P>),
        f: impl FnOnce(P) -> Tok,
    ) -> Option<P>;
    fn insert_new(&mut self, t: Tok) -> P;
    fn insert_new_with(&mut self, f: impl FnOnce(P) -> Tok) -> P;
    fn insert_new_cyclic(&mut self, t: Tok) -> P;
    fn insert_new_cyclic_with(&mut self, f: impl FnOnce(P) -> Tok) -> P;
    fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn contains(&self, p: P) -> bool;
    fn are_neighbors(&self, p: P, q: P) -> bool;
    fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool>;
    fn get_link(&self, p: P) -> Option<(Nb, Nb, u64)>;
    fn get_link_mut(&mut self, p: P, v: u64) -> Option<(Nb, Nb, u64)>;
    fn get2_link_mut(&mut self, p: P, q: P, v: u64, w: u64)
        -> Option<((Nb, Nb, u64), (Nb, Nb, u64))>;
    fn get(&self, p: P) -> Option<u64>;
    fn get_mut(&mut self, p: P) -> Option<&mut Tok>;
    fn get2_mut(&mut self, p: P, q: P) -> Option<(&mut Tok, &mut Tok)>;
    fn index(&mut self, p: P, v: u64) -> (u64, Nb, Nb);
    fn get_no_gen(&mut self, i: usize) -> Option<(u128, Nb, Nb, u64)>;
    fn remove(&mut self, p: P) -> Option<(Nb, Nb, u64)>;
    fn remove_chain(&mut self, p: P) -> Option<usize>;
    fn invalidate(&mut self, p: P) -> Option<P>;
    fn replace_and_keep_gen(&mut self, p: P, t: Tok) -> Result<Tok, Tok>;
    fn replace_and_update_gen(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok>;
    fn swap(&mut self, p: P, q: P) -> Option<()>;
    fn connect(&mut self, p: P, q: P) -> Option<()>;
    fn break_prev(&mut self, p: P) -> Option<()>;
    fn break_next(&mut self, p: P) -> Option<()>;
    fn exchange_next(&mut self, p: P, q: P) -> Option<()>;
    fn clear(&mut self);
    fn clear_and_shrink(&mut self);
    fn compress(&mut self);
    fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P));
    fn recaster(&mut self) -> Arena<P, P>;
    fn clone_from_with(&mut self, o: &Self, f: impl FnMut(P, (Nb, Nb, u64)) -> Tok);
    fn clone_to_arena(&self, o: &mut Arena<P, Tok>, f: impl FnMut(P, (Nb, Nb, u64)) -> Tok);
    fn clone_to_chain(&self, o: &mut ChainArena<P, Tok>) -> bool;
    /// builds an arena of links and converts it; `links` are at consecutive slots
    fn from_links(links: &[(Option<(usize, u128)>, Option<(usize, u128)>, u64)])
        -> Result<Self, ()>;
    fn advancer_list(&self, lim: usize) -> Vec<P>;
    fn advancer_chain(&self, p: P, lim: usize) -> Vec<(P, Option<u64>)>;
    fn iter_chain(&self, p: P, lim: usize) -> Vec<(P, Nb, Nb, u64)>;
    fn list(&mut self, how: u32, lim: usize) -> Vec<(Option<P>, Nb, Nb, u64)>;
    fn drain(&mut self, n: usize) -> Vec<(P, Nb, Nb, u64)>;
    fn capacity_drain(self, n: usize) -> Vec<(P, Nb, Nb, u64)>;
    fn from_vals(v: Vec<u64>) -> Self;
    fn ser(&self, fmt: u32) -> Result<Vec<u8>, String>;
    fn de(b: &[u8], fmt: u32) -> Result<Self, String>;
    fn own_check(&self) -> Result<(), &'static str>;
}

macro_rules! chain_adapter {
    ($ty:ident, $link:ident, $gen:expr, $conv:expr, $nb:expr, $mkl:expr, $walk:expr, $inx:expr, $toch:expr) => {
        impl<P: Ptr> CA<P> for $ty<P, Tok> {
            const GEN: bool = $gen;

            fn new() -> Self {
                $ty::new()
            }
            fn len(&self) -> usize {
                $ty::len(self)
            }
            fn is_empty(&self) -> bool {
                $ty::is_empty(self)
            }
            fn capacity(&self) -> usize {
                $ty::capacity(self)
            }
            fn generation(&self) -> P::Gen {
                $ty::generation(self)
            }
            fn reserve(&mut self, n: usize) {
                $ty::reserve(self, n)
            }
            fn insert(&mut self, pn: (Option<P>, Option<P>), t: Tok) -> Result<P, Tok> {
                $ty::insert(self, (pn.0.map($conv), pn.1.map($conv)), t)
            }
            fn insert_with(
                &mut self,
                pn: (Option<P>, Option<P>),
                f: impl FnOnce(P) -> Tok,
            ) -> Option<P> {
                $ty::insert_with(self, (pn.0.map($conv), pn.1.map($conv)), f)
            }
            fn insert_new(&mut self, t: Tok) -> P {
                $ty::insert_new(self, t)
            }
            fn insert_new_with(&mut self, f: impl FnOnce(P) -> Tok) -> P {
                $ty::insert_new_with(self, f)
            }
            fn insert_new_cyclic(&mut self, t: Tok) -> P {
                $ty::insert_new_cyclic(self, t)
            }
            fn insert_new_cyclic_with(&mut self, f: impl FnOnce(P) -> Tok) -> P {
                $ty::insert_new_cyclic_with(self, f)
            }
            fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok> {
                $ty::insert_start(self, p, t)
            }
            fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok> {
                $ty::insert_end(self, p, t)
            }
            fn contains(&self, p: P) -> bool {
                $ty::contains(self, p)
            }
            fn are_neighbors(&self, p: P, q: P) -> bool {
                $ty::are_neighbors(self, p, q)
            }
            fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool> {
                $inx(self, p, q)
            }
            fn get_link(&self, p: P) -> Option<(Nb, Nb, u64)> {
                $ty::get_link(self, p).map(|l| (l.prev().map($nb), l.next().map($nb), l.t.v))
            }
            fn get_link_mut(&mut self, p: P, v: u64) -> Option<(Nb, Nb, u64)> {
                $ty::get_link_mut(self, p).map(|l| {
                    let r = (l.prev().map($nb), l.next().map($nb), l.t.v);
                    l.t.v = v;
                    r
                })
            }
            fn get2_link_mut(
                &mut self,
                p: P,
                q: P,
                v: u64,
                w: u64,
            ) -> Option<((Nb, Nb, u64), (Nb, Nb, u64))> {
                $ty::get2_link_mut(self, p, q).map(|(l, m)| {
                    let r = (
                        (l.prev().map($nb), l.next().map($nb), l.t.v),
                        (m.prev().map($nb), m.next().map($nb), m.t.v),
                    );
                    l.t.v = v;
                    m.t.v = w;
                    r
                })
            }
            fn get(&self, p: P) -> Option<u64> {
                $ty::get(self, p).map(|t| t.v)
            }
            fn get_mut(&mut self, p: P) -> Option<&mut Tok> {
                $ty::get_mut(self, p)
            }
            fn get2_mut(&mut self, p: P, q: P) -> Option<(&mut Tok, &mut Tok)> {
                $ty::get2_mut(self, p, q)
            }
            fn index(&mut self, p: P, v: u64) -> (u64, Nb, Nb) {
                let l = $ty::get_link(self, p).map(|l| (l.prev().map($nb), l.next().map($nb)));
                let t: &mut Tok = &mut self[p];
                let r = t.v;
                t.v = v;
                let s: &Tok = &self[p];
                assert_eq!(s.v, v);
                let (a, b) = l.unwrap();
                (r, a, b)
            }
            fn get_no_gen(&mut self, i: usize) -> Option<(u128, Nb, Nb, u64)> {
                let r = $ty::get_no_gen(self, mk::<P::Inx>(i as u128))
                    .map(|(g, l)| (raw(g), l.prev().map($nb), l.next().map($nb), l.t.v));
                let s = $ty::get_no_gen_mut(self, mk::<P::Inx>(i as u128))
                    .map(|(g, l)| (raw(g), l.prev().map($nb), l.next().map($nb), l.t.v));
                if r != s {
                    panic!("get_no_gen is {r:?}, get_no_gen_mut is {s:?}")
                }
                r
            }
            fn remove(&mut self, p: P) -> Option<(Nb, Nb, u64)> {
                $ty::remove(self, p).map(|l| (l.prev().map($nb), l.next().map($nb), l.t.v))
            }
            fn remove_chain(&mut self, p: P) -> Option<usize> {
                $ty::remove_chain(self, p)
            }
            fn invalidate(&mut self, p: P) -> Option<P> {
                $ty::invalidate(self, p)
            }
            fn replace_and_keep_gen(&mut self, p: P, t: Tok) -> Result<Tok, Tok> {
                $ty::replace_and_keep_gen(self, p, t)
            }
            fn replace_and_update_gen(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok> {
                $ty::replace_and_update_gen(self, p, t)
            }
            fn swap(&mut self, p: P, q: P) -> Option<()> {
                $ty::swap(self, p, q)
            }
            fn connect(&mut self, p: P, q: P) -> Option<()> {
                $ty::connect(self, p, q)
            }
            fn break_prev(&mut self, p: P) -> Option<()> {
                $ty::break_prev(self, p)
            }
            fn break_next(&mut self, p: P) -> Option<()> {
                $ty::break_next(self, p)
            }
            fn exchange_next(&mut self, p: P, q: P) -> Option<()> {
                $ty::exchange_next(self, p, q)
            }
            fn clear(&mut self) {
                $ty::clear(self)
            }
            fn clear_and_shrink(&mut self) {
                $ty::clear_and_shrink(self)
            }
            fn compress(&mut self) {
                $ty::compress_and_shrink(self)
            }
            fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P)) {
                $ty::compress_and_shrink_with(self, f)
            }
            fn recaster(&mut self) -> Arena<P, P> {
                $ty::compress_and_shrink_recaster(self)
            }
            fn clone_from_with(&mut self, o: &Self, mut f: impl FnMut(P, (Nb, Nb, u64)) -> Tok) {
                $ty::clone_from_with(self, o, |p, l| {
                    f(p, (l.prev().map($nb), l.next().map($nb), l.t.v))
                })
            }
            fn clone_to_arena(
                &self,
                o: &mut Arena<P, Tok>,
                mut f: impl FnMut(P, (Nb, Nb, u64)) -> Tok,
            ) {
                $ty::clone_to_arena(self, o, |p, l| {
                    f(p, (l.prev().map($nb), l.next().map($nb), l.t.v))
                })
            }
            fn clone_to_chain(&self, o: &mut ChainArena<P, Tok>) -> bool {
                $toch(self, o)
            }
            fn from_links(
                links: &[(Option<(usize, u128)>, Option<(usize, u128)>, u64)],
            ) -> Result<Self, ()> {
                let mut a = Arena::new();
                for (p, n, v) in links {
                    a.insert($link::new((p.map($mkl), n.map($mkl)), Tok::new(*v)));
                }
                $ty::from_arena(a).map_err(|_| ())
            }
            fn advancer_list(&self, lim: usize) -> Vec<P> {
                let mut r = vec![];
                let mut adv = $ty::advancer(self);
                while let Some(p) = adv.advance(self) {
                    r.push(p);
                    if r.len() > lim {
                        break
                    }
                }
                r
            }
            fn advancer_chain(&self, p: P, lim: usize) -> Vec<(P, Option<u64>)> {
                let mut r = vec![];
                let mut adv = $ty::advancer_chain(self, $walk(p));
                while let Some(p) = adv.advance(self) {
                    r.push((p, $ty::get(self, p).map(|t| t.v)));
                    if r.len() > lim {
                        break
                    }
                }
                r
            }
            fn iter_chain(&self, p: P, lim: usize) -> Vec<(P, Nb, Nb, u64)> {
                $ty::iter_chain(self, $walk(p))
                    .take(lim)
                    .map(|(p, l)| (p, l.prev().map($nb), l.next().map($nb), l.t.v))
                    .collect()
            }
            fn list(&mut self, how: u32, lim: usize) -> Vec<(Option<P>, Nb, Nb, u64)> {
                match how % 6 {
                    0 => $ty::iter(self)
                        .take(lim)
                        .map(|(p, l)| (Some(p), l.prev().map($nb), l.next().map($nb), l.t.v))
                        .collect(),
                    1 => $ty::iter_mut(self)
                        .take(lim)
                        .map(|(p, l)| (Some(p), l.prev().map($nb), l.next().map($nb), l.t.v))
                        .collect(),
                    2 => $ty::vals(self)
                        .take(lim)
                        .map(|l| (None, l.prev().map($nb), l.next().map($nb), l.t.v))
                        .collect(),
                    3 => $ty::vals_mut(self)
                        .take(lim)
                        .map(|l| (None, l.prev().map($nb), l.next().map($nb), l.t.v))
                        .collect(),
                    4 => (&*self)
                        .into_iter()
                        .take(lim)
                        .map(|(p, l)| (Some(p), l.prev().map($nb), l.next().map($nb), l.t.v))
                        .collect(),
                    _ => {
                        let ps: Vec<P> = $ty::ptrs(self).take(lim).collect();
                        ps.into_iter()
                            .map(|p| match $ty::get_link(self, p) {
                                Some(l) => {
                                    (Some(p), l.prev().map($nb), l.next().map($nb), l.t.v)
                                }
                                None => (Some(p), None, None, u64::MAX),
                            })
                            .collect()
                    }
                }
            }
            fn drain(&mut self, n: usize) -> Vec<(P, Nb, Nb, u64)> {
                $ty::drain(self)
                    .take(n)
                    .map(|(p, l)| (p, l.prev().map($nb), l.next().map($nb), l.t.v))
                    .collect()
            }
            fn capacity_drain(self, n: usize) -> Vec<(P, Nb, Nb, u64)> {
                $ty::capacity_drain(self)
                    .take(n)
                    .map(|(p, l)| (p, l.prev().map($nb), l.next().map($nb), l.t.v))
                    .collect()
            }
            fn from_vals(v: Vec<u64>) -> Self {
                v.into_iter().map(Tok::new).collect()
            }
            fn ser(&self, fmt: u32) -> Result<Vec<u8>, String> {
                crate::ser::to_bytes(self, fmt)
            }
            fn de(b: &[u8], fmt: u32) -> Result<Self, String> {
                crate::ser::from_bytes(b, fmt)
            }
            fn own_check(&self) -> Result<(), &'static str> {
                $ty::_check_invariants(self)?;
                if <Self as ArenaTrait>::len(self) != $ty::len(self)
                    || <Self as ArenaTrait>::capacity(self) != $ty::capacity(self)
                {
                    return Err("trait methods disagree")
                }
                Ok(())
            }
        }
    };
}

chain_adapter!(
    ChainArena,
    Link,
    true,
    |p| p,
    |p: P| {
        let (i, g) = key(p);
        (i, Some(g))
    },
    |(i, g): (usize, u128)| forge::<P>(i, g),
    |p| p,
    |_: &ChainArena<P, Tok>, _: P, _: P| None,
    |s: &ChainArena<P, Tok>, o: &mut ChainArena<P, Tok>| {
        o.clone_from(s);
        false
    }
);
chain_adapter!(
    ChainNoGenArena,
    LinkNoGen,
    false,
    |p: P| p.inx(),
    |i: P::Inx| (raw(i) as usize, None),
    |(i, _): (usize, u128)| mk::<P::Inx>(i as u128),
    |p: P| p.inx(),
    |s: &ChainNoGenArena<P, Tok>, p: P, q: P| Some(s.are_neighbors_inx(p.inx(), q.inx())),
    |s: &ChainNoGenArena<P, Tok>, o: &mut ChainArena<P, Tok>| {
        s.clone_to_chain_arena(o, |_, t| t.clone());
        true
    }
);

#[derive(Clone)]
pub struct CModel {
    pub live: BTreeMap<usize, L>,
    pub gen: u128,
}

impl CModel {
    pub fn fresh<P: Ptr>() -> Self {
        CModel {
            live: BTreeMap::new(),
            gen: if counted::<P>() { 2 } else { 0 },
        }
    }

    pub fn get<P: Ptr>(&self, p: P) -> Option<&L> {
        let (i, g) = key(p);
        self.live.get(&i).filter(|l| l.gen == g)
    }

    fn nb(&self, i: Option<usize>, gen: bool) -> Nb {
        i.map(|i| (i, if gen { Some(self.live[&i].gen) } else { None }))
    }

    fn exp(&self, i: usize, gen: bool) -> (Nb, Nb, u64) {
        let l = &self.live[&i];
        (self.nb(l.prev, gen), self.nb(l.next, gen), l.v)
    }

    fn bump<P: Ptr>(&mut self) {
        if counted::<P>() {
            self.gen += 1
        }
    }

    fn overflow<P: Ptr>(&self, changes: bool) -> Expect {
        if counted::<P>() && self.gen >= gmax::<P>() {
            if changes {
                Expect::Panic("A04")
            } else {
                Expect::May
            }
        } else {
            Expect::No
        }
    }

    fn cut(&mut self, i: usize) {
        let l = self.live[&i].clone();
        if l.prev != Some(i) {
            if let Some(p) = l.prev {
                self.live.get_mut(&p).unwrap().next = l.next;
            }
            if let Some(n) = l.next {
                self.live.get_mut(&n).unwrap().prev = l.prev;
            }
        }
        self.live.remove(&i);
    }

    /// forward from `i`, then backward
    pub fn walk(&self, i: usize) -> Vec<usize> {
        let mut r = vec![i];
        let mut n = self.live[&i].next;
        while let Some(k) = n {
            if k == i {
                return r
            }
            r.push(k);
            n = self.live[&k].next;
        }
        let mut n = self.live[&i].prev;
        while let Some(k) = n {
            r.push(k);
            n = self.live[&k].prev;
        }
        r
    }
}

struct CSide<P: Ptr, A> {
    a: A,
    m: CModel,
    pool: Vec<P>,
}

pub struct ChainM<P: Ptr, A: CA<P>> {
    s: CSide<P, A>,
    t: CSide<P, A>,
    next: u64,
    bias: u32,
}

impl<P: Ptr, A: CA<P>> ChainM<P, A> {
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn pick(&self, r: u32) -> P {
        let live: Vec<(usize, u128)> = self.s.m.live.iter().map(|(i, e)| (*i, e.gen)).collect();
        pick(&live, &self.s.pool, r)
    }

    fn check(&mut self, cx: &mut Cx, what: &str) {
        let s = &mut self.s;
        let m = &s.m;
        cx.ck(s.a.len() == m.live.len() && s.a.is_empty() == m.live.is_empty(), "A02 C02", || {
            format!("after {what}: len() is {}, {} expected", s.a.len(), m.live.len())
        });
        cx.ck(raw(s.a.generation()) == m.gen, "A04", || {
            format!("after {what}: generation() is {}, expected {}", raw(s.a.generation()), m.gen)
        });
        for i in m.live.keys() {
            let p: P = forge(*i, m.live[i].gen);
            let g = s.a.get_link(p);
            let e = m.exp(*i, A::GEN);
            if g.as_ref() != Some(&e) {
                // asymmetric or dangling results break C01 as well
                cx.fail("C02", format!("after {what}: link {p:?} is {g:?}, expected {e:?}"));
            }
            let v = s.a.get(p);
            cx.ck(s.a.contains(p) && v == Some(e.2), "C02 A01 A02", || {
                format!("after {what}: {p:?} holds {v:?}, expected {}", e.2)
            });
        }
        // symmetry as such, read from the arena itself
        let cap = s.a.capacity().min(600);
        let all: BTreeMap<usize, (u128, Nb, Nb, u64)> = (1..=cap.min(imax::<P>()))
            .filter_map(|i| s.a.get_no_gen(i).map(|l| (i, l)))
            .collect();
        for (i, l) in &all {
            if let Some((n, g)) = l.2 {
                let ok = all.get(&n).is_some_and(|k| {
                    g.is_none_or(|g| g == k.0)
                        && k.1.is_some_and(|(b, bg)| b == *i && bg.is_none_or(|bg| bg == l.0))
                });
                cx.ck(ok, "C01", || {
                    format!("after {what}: link {i} names {:?} as successor, which is {:?}", l.2, all.get(&n))
                });
            }
            if let Some((n, g)) = l.1 {
                let ok = all.get(&n).is_some_and(|k| {
                    g.is_none_or(|g| g == k.0)
                        && k.2.is_some_and(|(b, bg)| b == *i && bg.is_none_or(|bg| bg == l.0))
                });
                cx.ck(ok, "C01", || {
                    format!("after {what}: link {i} names {:?} as predecessor, which is {:?}", l.1, all.get(&n))
                });
            }
        }
        cx.ck(all.len() == m.live.len() || cap == 600, "C02 A02", || {
            format!("after {what}: {} slots in use, {} expected", all.len(), m.live.len())
        });
        for p in s.pool.iter().copied() {
            if m.get(p).is_none() {
                cx.ck(
                    !s.a.contains(p) && s.a.get_link(p).is_none() && s.a.get(p).is_none(),
                    "A01 C01",
                    || format!("after {what}: stale {p:?} resolves"),
                );
            }
        }
    }

    fn queries(&mut self, op: &Op, cx: &mut Cx) {
        let lim = self.s.m.live.len() * 2 + 5;
        let p = self.pick(op.a);
        // walks; index based arenas ignore the generation
        let (i, g) = key(p);
        let ok = self.s.m.live.get(&i).is_some_and(|l| l.gen == g || !A::GEN);
        let exp: Vec<(usize, u128, u64)> = if ok {
            self.s
                .m
                .walk(i)
                .into_iter()
                .map(|k| (k, self.s.m.live[&k].gen, self.s.m.live[&k].v))
                .collect()
        } else {
            vec![]
        };
        let s = &mut self.s;
        if let Some(w) = cx.call("advancer_chain", "C03", Expect::No, || s.a.advancer_chain(p, lim)) {
            let w: Vec<_> = w.iter().map(|(p, v)| (key(*p).0, key(*p).1, v.unwrap_or(u64::MAX))).collect();
            cx.ck(w == exp, "C03", || format!("walk from {p:?} is {w:?}, expected {exp:?}"));
        }
        if let Some(w) = cx.call("iter_chain", "C03", Expect::No, || s.a.iter_chain(p, lim)) {
            let full: Vec<_> = w.iter().map(|e| (key(e.0).0, e.1, e.2)).collect();
            let ok = full.iter().all(|e| {
                self.s.m.live.contains_key(&e.0) && {
                    let x = self.s.m.exp(e.0, A::GEN);
                    (x.0, x.1) == (e.1, e.2)
                }
            });
            let w: Vec<_> = w.iter().map(|e| (key(e.0).0, key(e.0).1, e.3)).collect();
            cx.ck(w == exp && ok, "C03", || format!("iter_chain from {p:?} is {w:?}, expected {exp:?}"));
        }
        let q = if op.c % 2 == 0 && ok {
            let k = self.s.m.live[&i].next.or(self.s.m.live[&i].prev).unwrap_or(i);
            let g = self.s.m.live[&k].gen;
            if op.c % 4 == 0 && counted::<P>() {
                forge(k, (g - 1).max(1))
            } else {
                forge(k, g)
            }
        } else {
            self.pick(op.b)
        };
        let e = self.s.m.get(p).is_some_and(|l| l.next == Some(key(q).0)) && self.s.m.get(q).is_some();
        let s = &mut self.s;
        if let Some(r) = cx.call("are_neighbors", "C03", Expect::No, || s.a.are_neighbors(p, q)) {
            cx.ck(r == e, "C03 C01", || format!("are_neighbors({p:?}, {q:?}) is {r}"));
        }
        let e = s.m.live.get(&key(p).0).is_some_and(|l| l.next == Some(key(q).0));
        if let Some(Some(r)) =
            cx.call("are_neighbors_inx", "C03", Expect::No, || s.a.are_neighbors_inx(p, q))
        {
            cx.ck(r == e, "C03 C01", || format!("are_neighbors_inx({p:?}, {q:?}) is {r}"));
        }
        let exp: BTreeSet<_> = self
            .s
            .m
            .live
            .iter()
            .map(|(i, l)| {
                let e = self.s.m.exp(*i, A::GEN);
                (*i, l.gen, e.0, e.1, e.2)
            })
            .collect();
        let s = &mut self.s;
        let how = op.b % 6;
        if let Some(l) = cx.call("iteration", "A08", Expect::No, || s.a.list(how, lim)) {
            if how == 2 || how == 3 {
                let mut g: Vec<_> = l.iter().map(|e| (e.1, e.2, e.3)).collect();
                let mut x: Vec<_> = exp.iter().map(|e| (e.2, e.3, e.4)).collect();
                g.sort();
                x.sort();
                cx.ck(g == x, "A08", || format!("links iterated {g:?}, expected {x:?}"));
            } else {
                let g: BTreeSet<_> = l
                    .iter()
                    .map(|e| {
                        let k = key(e.0.unwrap());
                        (k.0, k.1, e.1, e.2, e.3)
                    })
                    .collect();
                cx.ck(g.len() == l.len() && g == exp, "A08", || {
                    format!("links iterated (kind {how}) {l:?}, expected {exp:?}")
                });
            }
        }
        if let Some(l) = cx.call("advancer", "A08", Expect::No, || s.a.advancer_list(lim)) {
            let g: BTreeSet<_> = l.iter().map(|p| key(*p)).collect();
            let x: BTreeSet<_> = exp.iter().map(|e| (e.0, e.1)).collect();
            cx.ck(g.len() == l.len() && g == x, "A08", || format!("advancer visited {l:?}"));
        }
    }

    fn ins_expect(&self) -> Expect {
        if self.s.m.live.len() >= imax::<P>() {
            Expect::Panic("A03")
        } else {
            Expect::No
        }
    }

    fn inserted(&mut self, cx: &mut Cx, p: P, v: u64, prev: Option<usize>, next: Option<usize>) {
        let (i, g) = key(p);
        cx.log(|| format!("  -> {p:?}"));
        let ok = g == self.s.m.gen && !self.s.m.live.contains_key(&i);
        cx.ck(ok, "A01 A02 A03 C02", || format!("insertion returned {p:?}"));
        if !ok {
            return
        }
        self.s.m.live.insert(
            i,
            L {
                gen: g,
                v,
                prev,
                next,
            },
        );
        if let Some(k) = prev {
            self.s.m.live.get_mut(&k).unwrap().next = Some(i);
        }
        if let Some(k) = next {
            self.s.m.live.get_mut(&k).unwrap().prev = Some(i);
        }
        remember(&mut self.s.pool, p);
    }

    /// does a neighbour argument resolve
    fn nbarg(&self, p: P) -> Option<usize> {
        let (i, g) = key(p);
        self.s
            .m
            .live
            .get(&i)
            .filter(|l| l.gen == g || !A::GEN)
            .map(|_| i)
    }

    fn insert(&mut self, op: &Op, cx: &mut Cx) {
        let v = self.fresh();
        let k = (op.code / 100) % 12;
        match k {
            0..=5 => {
                let p = self.pick(op.a);
                let q = if op.c % 3 != 0 {
                    // mostly a true neighbour, sometimes one with an outdated generation
                    match self.nbarg(p).and_then(|i| self.s.m.live[&i].next) {
                        Some(n) => {
                            let g = self.s.m.live[&n].gen;
                            if op.c % 7 == 0 {
                                forge(n, (g.max(1) - 1).max(1))
                            } else {
                                forge(n, g)
                            }
                        }
                        None => self.pick(op.b),
                    }
                } else {
                    self.pick(op.b)
                };
                let pn = match k {
                    0 => (None, None),
                    1 => (Some(p), None),
                    2 => (None, Some(p)),
                    _ => (Some(p), Some(q)),
                };
                let with = op.c & 0x100 != 0;
                cx.log(|| format!("insert{}({pn:?}, {v})", if with { "_with" } else { "" }));
                let res: Option<(Option<usize>, Option<usize>)> = match pn {
                    (None, None) => Some((None, None)),
                    (Some(p), None) => self.nbarg(p).map(|i| (Some(i), self.s.m.live[&i].next)),
                    (None, Some(p)) => self.nbarg(p).map(|i| (self.s.m.live[&i].prev, Some(i))),
                    (Some(p), Some(q)) => match (self.nbarg(p), self.nbarg(q)) {
                        (Some(i), Some(j)) if self.s.m.live[&i].next == Some(j) => {
                            Some((Some(i), Some(j)))
                        }
                        _ => None,
                    },
                };
                let ex = if res.is_some() { self.ins_expect() } else { Expect::No };
                let s = &mut self.s;
                let mut given = None;
                let r = cx.call("insert", "C01 C02", ex, || {
                    if with {
                        s.a.insert_with(pn, |p| {
                            given = Some(p);
                            Tok::new(v)
                        })
                        .ok_or(v)
                    } else {
                        s.a.insert(pn, Tok::new(v)).map_err(|t| t.v)
                    }
                });
                match (r, res) {
                    (Some(Ok(p)), Some((a, b))) => {
                        if with {
                            cx.ck(given == Some(p), "C02", || format!("closure got {given:?}"));
                        }
                        self.inserted(cx, p, v, a, b)
                    }
                    (Some(Ok(p)), None) => {
                        cx.fail("C01 C02", format!("insert({pn:?}) must fail, returned {p:?}"))
                    }
                    (Some(Err(w)), None) => {
                        cx.ck(w == v && given.is_none(), "C02", || "failing insert".to_owned())
                    }
                    (Some(Err(_)), Some(_)) => {
                        cx.fail("C02", format!("insert({pn:?}) failed, must succeed"))
                    }
                    (None, _) => (),
                }
            }
            6 | 7 => {
                let with = op.c & 1 != 0;
                cx.log(|| format!("insert_new({v})"));
                let ex = self.ins_expect();
                let s = &mut self.s;
                if let Some(p) = cx.call("insert_new", "C02", ex, || {
                    if with {
                        let mut g = None;
                        let p = s.a.insert_new_with(|p| {
                            g = Some(p);
                            Tok::new(v)
                        });
                        assert_eq!(g, Some(p));
                        p
                    } else {
                        s.a.insert_new(Tok::new(v))
                    }
                }) {
                    self.inserted(cx, p, v, None, None);
                }
            }
            8 => {
                let with = op.c & 1 != 0;
                cx.log(|| format!("insert_new_cyclic({v})"));
                let ex = self.ins_expect();
                let s = &mut self.s;
                if let Some(p) = cx.call("insert_new_cyclic", "C02", ex, || {
                    if with {
                        let mut g = None;
                        let p = s.a.insert_new_cyclic_with(|p| {
                            g = Some(p);
                            Tok::new(v)
                        });
                        assert_eq!(g, Some(p));
                        p
                    } else {
                        s.a.insert_new_cyclic(Tok::new(v))
                    }
                }) {
                    self.inserted(cx, p, v, None, None);
                    let i = key(p).0;
                    if let Some(l) = self.s.m.live.get_mut(&i) {
                        l.prev = Some(i);
                        l.next = Some(i);
                    }
                }
            }
            _ => {
                let start = k == 9 || (k == 10 && op.c & 1 == 0);
                let mut p = self.pick(op.a);
                if op.c % 3 != 0 {
                    // prefer a true end
                    let ends: Vec<P> = self
                        .s
                        .m
                        .live
                        .iter()
                        .filter(|(_, l)| if start { l.prev.is_none() } else { l.next.is_none() })
                        .map(|(i, l)| forge(*i, l.gen))
                        .collect();
                    if !ends.is_empty() {
                        p = ends[op.b as usize % ends.len()];
                    }
                }
                cx.log(|| format!("insert_{}({p:?}, {v})", if start { "start" } else { "end" }));
                let ok = self
                    .s
                    .m
                    .get(p)
                    .is_some_and(|l| if start { l.prev.is_none() } else { l.next.is_none() });
                let ex = if ok { self.ins_expect() } else { Expect::No };
                let s = &mut self.s;
                let r = cx.call("insert_start/end", "C01 C02", ex, || {
                    if start {
                        s.a.insert_start(p, Tok::new(v)).map_err(|t| t.v)
                    } else {
                        s.a.insert_end(p, Tok::new(v)).map_err(|t| t.v)
                    }
                });
                match r {
                    Some(Ok(q)) => {
                        cx.ck(ok, "C02 C01", || format!("insert at {p:?} must fail"));
                        if ok {
                            let i = Some(key(p).0);
                            if start {
                                self.inserted(cx, q, v, None, i)
                            } else {
                                self.inserted(cx, q, v, i, None)
                            }
                        }
                    }
                    Some(Err(w)) => {
                        cx.ck(!ok && w == v, "C02", || format!("insert at {p:?} failed"));
                    }
                    None => (),
                }
            }
        }
    }

    fn edit(&mut self, op: &Op, cx: &mut Cx) {
        let p = self.pick(op.a);
        let q = match op.c % 9 {
            0 => p,
            1 => cousin(p, op.b),
            _ => self.pick(op.b),
        };
        let (i, j) = (key(p).0, key(q).0);
        let e = self.s.m.get(p).map(|_| self.s.m.exp(i, A::GEN));
        let lp = self.s.m.get(p).cloned();
        let lq = self.s.m.get(q).cloned();
        match (op.code / 100) % 22 {
            0..=3 => {
                cx.log(|| format!("remove({p:?})"));
                let ex = if e.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let s = &mut self.s;
                if let Some(r) = cx.call("remove", "C02 C01", ex, || s.a.remove(p)) {
                    cx.ck(r == e, "C02 A02", || format!("remove({p:?}) is {r:?}, expected {e:?}"));
                    if e.is_some() {
                        s.m.cut(i);
                        s.m.bump::<P>();
                    }
                }
            }
            4 => {
                cx.log(|| format!("remove_chain({p:?})"));
                let ex = if e.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let w = e.as_ref().map(|_| self.s.m.walk(i));
                let s = &mut self.s;
                if let Some(r) = cx.call("remove_chain", "C03 C01", ex, || s.a.remove_chain(p)) {
                    let n = w.as_ref().map(|w| w.len());
                    cx.ck(r == n, "C03", || format!("remove_chain({p:?}) is {r:?}, expected {n:?}"));
                    if let Some(w) = w {
                        for k in w {
                            s.m.live.remove(&k);
                        }
                        s.m.bump::<P>();
                        // count the damage under the right property
                        let n = s.a.len();
                        cx.ck(n == s.m.live.len(), "C03", || {
                            format!("remove_chain left {n} links, expected {}", s.m.live.len())
                        });
                    }
                }
            }
            5 | 6 => {
                let rep = (op.code / 100) % 22 == 6;
                cx.log(|| format!("{}({p:?})", if rep { "replace_and_update_gen" } else { "invalidate" }));
                let v = self.fresh();
                let ex = if e.is_some() { self.s.m.overflow::<P>(true) } else { Expect::No };
                let s = &mut self.s;
                let r = cx.call("invalidate", "C01 C02", ex, || {
                    if rep {
                        match s.a.replace_and_update_gen(p, Tok::new(v)) {
                            Ok((t, q)) => Some((q, Some(t.v))),
                            Err(t) => {
                                assert_eq!(t.v, v);
                                None
                            }
                        }
                    } else {
                        s.a.invalidate(p).map(|q| (q, None))
                    }
                });
                if let Some(r) = r {
                    cx.ck(r.is_some() == e.is_some(), "C02 A01 A02", || format!("invalidate is {r:?}"));
                    if let (Some((q, old)), Some(e)) = (r, e) {
                        s.m.bump::<P>();
                        cx.ck(key(q) == (i, s.m.gen), "A01 A04 C02", || {
                            format!("invalidate({p:?}) is {q:?}")
                        });
                        let l = s.m.live.get_mut(&i).unwrap();
                        l.gen = s.m.gen;
                        if rep {
                            cx.ck(old == Some(e.2), "C02 A02", || format!("replaced {old:?}"));
                            l.v = v;
                        }
                        remember(&mut s.pool, q);
                    }
                }
            }
            7 => {
                let v = self.fresh();
                cx.log(|| format!("replace_and_keep_gen({p:?}, {v})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("replace_and_keep_gen", "C02", Expect::No, || {
                    s.a.replace_and_keep_gen(p, Tok::new(v)).map(|t| t.v).map_err(|t| t.v)
                }) {
                    cx.ck(r == e.map(|e| e.2).ok_or(v), "C02 A02", || format!("replace is {r:?}"));
                    if e.is_some() {
                        s.m.live.get_mut(&i).unwrap().v = v;
                    }
                }
            }
            8 | 9 => {
                cx.log(|| format!("swap({p:?}, {q:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("swap", "C02", Expect::No, || s.a.swap(p, q)) {
                    let ok = lp.is_some() && lq.is_some();
                    cx.ck(r.is_some() == ok, "C02 A02", || format!("swap({p:?}, {q:?}) is {r:?}"));
                    if ok {
                        s.m.live.get_mut(&i).unwrap().v = lq.unwrap().v;
                        s.m.live.get_mut(&j).unwrap().v = lp.unwrap().v;
                    }
                }
            }
            10..=12 => {
                let (mut p, mut q) = (p, q);
                if op.c % 4 != 0 {
                    let a: Vec<P> = self
                        .s
                        .m
                        .live
                        .iter()
                        .filter(|l| l.1.next.is_none())
                        .map(|(i, l)| forge(*i, l.gen))
                        .collect();
                    let b: Vec<P> = self
                        .s
                        .m
                        .live
                        .iter()
                        .filter(|l| l.1.prev.is_none())
                        .map(|(i, l)| forge(*i, l.gen))
                        .collect();
                    if !a.is_empty() && !b.is_empty() {
                        p = a[op.a as usize % a.len()];
                        q = b[op.b as usize % b.len()];
                        if op.c % 11 == 0 && counted::<P>() {
                            q = forge(key(q).0, (key(q).1 - 1).max(1));
                        }
                    }
                }
                let (i, j) = (key(p).0, key(q).0);
                cx.log(|| format!("connect({p:?}, {q:?})"));
                let ok = self.s.m.get(p).is_some_and(|l| l.next.is_none())
                    && self.s.m.get(q).is_some_and(|l| l.prev.is_none());
                let s = &mut self.s;
                if let Some(r) = cx.call("connect", "C01 C02", Expect::No, || s.a.connect(p, q)) {
                    cx.ck(r.is_some() == ok, "C02", || format!("connect({p:?}, {q:?}) is {r:?}"));
                    if ok {
                        s.m.live.get_mut(&i).unwrap().next = Some(j);
                        s.m.live.get_mut(&j).unwrap().prev = Some(i);
                    }
                }
            }
            13 => {
                cx.log(|| format!("break_prev({p:?})"));
                let ok = lp.as_ref().and_then(|l| l.prev);
                let s = &mut self.s;
                if let Some(r) = cx.call("break_prev", "C01 C02", Expect::No, || s.a.break_prev(p)) {
                    cx.ck(r.is_some() == ok.is_some(), "C02", || format!("break_prev is {r:?}"));
                    if let Some(k) = ok {
                        s.m.live.get_mut(&i).unwrap().prev = None;
                        s.m.live.get_mut(&k).unwrap().next = None;
                    }
                }
            }
            14 => {
                cx.log(|| format!("break_next({p:?})"));
                let ok = lp.as_ref().and_then(|l| l.next);
                let s = &mut self.s;
                if let Some(r) = cx.call("break_next", "C01 C02", Expect::No, || s.a.break_next(p)) {
                    cx.ck(r.is_some() == ok.is_some(), "C02", || format!("break_next is {r:?}"));
                    if let Some(k) = ok {
                        s.m.live.get_mut(&i).unwrap().next = None;
                        s.m.live.get_mut(&k).unwrap().prev = None;
                    }
                }
            }
            15..=17 => {
                cx.log(|| format!("exchange_next({p:?}, {q:?})"));
                let d = match (&lp, &lq) {
                    (Some(a), Some(b)) => a.next.zip(b.next),
                    _ => None,
                };
                let s = &mut self.s;
                if let Some(r) =
                    cx.call("exchange_next", "C01 C02", Expect::No, || s.a.exchange_next(p, q))
                {
                    cx.ck(r.is_some() == d.is_some(), "C02", || {
                        format!("exchange_next({p:?}, {q:?}) is {r:?}")
                    });
                    if let Some((d0, d1)) = d {
                        s.m.live.get_mut(&i).unwrap().next = Some(d1);
                        s.m.live.get_mut(&j).unwrap().next = Some(d0);
                        s.m.live.get_mut(&d1).unwrap().prev = Some(i);
                        s.m.live.get_mut(&d0).unwrap().prev = Some(j);
                    }
                }
            }
            18 => {
                let (v, w) = (self.fresh(), self.fresh());
                cx.log(|| format!("get2_mut({p:?}, {q:?})"));
                let x = self.s.m.get(q).map(|_| self.s.m.exp(j, A::GEN));
                let e2 = if i == j { None } else { e.zip(x) };
                let s = &mut self.s;
                let link = op.c & 0x40 != 0;
                if let Some(r) = cx.call("get2_mut", "C02", Expect::No, || {
                    if link {
                        s.a.get2_link_mut(p, q, v, w)
                    } else {
                        s.a.get2_mut(p, q).map(|(a, b)| {
                            let (o, n) = (a.v, b.v);
                            a.v = v;
                            b.v = w;
                            let (x, y) = e2.unwrap_or(((None, None, 0), (None, None, 0)));
                            ((x.0, x.1, o), (y.0, y.1, n))
                        })
                    }
                }) {
                    cx.ck(r == e2, "C02 A02", || format!("get2 ({p:?}, {q:?}) is {r:?}"));
                    if e2.is_some() {
                        s.m.live.get_mut(&i).unwrap().v = v;
                        s.m.live.get_mut(&j).unwrap().v = w;
                    }
                }
            }
            19 => {
                let v = self.fresh();
                cx.log(|| format!("get_link_mut({p:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("get_link_mut", "C02", Expect::No, || s.a.get_link_mut(p, v))
                {
                    cx.ck(r == e, "C02 A02", || format!("get_link_mut({p:?}) is {r:?}"));
                    if e.is_some() {
                        s.m.live.get_mut(&i).unwrap().v = v;
                    }
                }
            }
            20 => {
                let v = self.fresh();
                cx.log(|| format!("get_mut({p:?})"));
                let s = &mut self.s;
                if let Some(r) = cx.call("get_mut", "C02", Expect::No, || {
                    s.a.get_mut(p).map(|t| {
                        let r = t.v;
                        t.v = v;
                        r
                    })
                }) {
                    cx.ck(r == e.map(|e| e.2), "C02 A02", || format!("get_mut({p:?}) is {r:?}"));
                    if e.is_some() {
                        s.m.live.get_mut(&i).unwrap().v = v;
                    }
                }
            }
            _ => {
                if e.is_some() {
                    let v = self.fresh();
                    cx.log(|| format!("index {p:?}"));
                    let s = &mut self.s;
                    if let Some(r) = cx.call("index", "C02", Expect::No, || s.a.index(p, v)) {
                        cx.ck(Some((r.1, r.2, r.0)) == e, "C02 A02", || format!("index gave {r:?}"));
                        s.m.live.get_mut(&i).unwrap().v = v;
                    }
                }
            }
        }
    }

    fn lenient(&mut self, cx: &mut Cx, what: &str, lo: u128, hi: u128) {
        if !counted::<P>() {
            return
        }
        let g = raw(self.s.a.generation());
        let g0 = self.s.m.gen;
        cx.ck(g >= g0 + lo && g <= g0 + hi, "A04", || {
            format!("{what} moved the generation from {g0} to {g}")
        });
        self.s.m.gen = g;
    }

    fn bulk(&mut self, op: &Op, cx: &mut Cx) {
        let n = self.s.m.live.len();
        let some = (n != 0) as u128;
        let cap0 = self.s.a.capacity();
        match (op.code / 100) % 16 {
            0 => {
                cx.log(|| "clear".to_owned());
                let ex = self.s.m.overflow::<P>(n != 0);
                let s = &mut self.s;
                let shrink = op.a % 2 == 0;
                if cx
                    .call("clear", "C01 A05", ex, || {
                        if shrink {
                            s.a.clear_and_shrink()
                        } else {
                            s.a.clear()
                        }
                    })
                    .is_some()
                {
                    s.m.live.clear();
                    let want = if shrink { 0 } else { cap0 };
                    cx.ck(s.a.capacity() == want, "A03 A05", || "capacity after clear".to_owned());
                    self.lenient(cx, "clear", some, 1);
                }
            }
            1 => {
                let stop = if op.a % 2 == 0 { n + 2 } else { (op.a >> 1) as usize % (n + 1) };
                cx.log(|| format!("drain {stop} of {n}"));
                if counted::<P>() && self.s.m.gen + 2 >= gmax::<P>() {
                    return
                }
                let s = &mut self.s;
                if let Some(g) = cx.call("drain", "A05", Expect::No, || s.a.drain(stop)) {
                    let ok = g.len() == stop.min(n)
                        && g.iter().all(|e| s.m.get(e.0).is_some_and(|l| l.v == e.3));
                    cx.ck(ok, "A05", || format!("drain gave {g:?}"));
                    s.m.live.clear();
                    self.lenient(cx, "drain", some, 2);
                }
            }
            2 => {
                let stop = if op.a % 2 == 0 { n + 2 } else { (op.a >> 1) as usize % (n + 1) };
                cx.log(|| format!("capacity_drain {stop} of {n}"));
                let a = std::mem::replace(&mut self.s.a, A::new());
                let s = &mut self.s;
                if let Some(g) = cx.call("capacity_drain", "A05 A04", Expect::No, || a.capacity_drain(stop)) {
                    let ok = g.len() == stop.min(n)
                        && g.iter().all(|e| s.m.get(e.0).is_some_and(|l| l.v == e.3));
                    cx.ck(ok, "A05", || format!("capacity_drain gave {g:?}"));
                    s.m = CModel::fresh::<P>();
                    s.pool = vec![P::invalid()];
                }
            }
            3..=6 => self.compress(op, cx),
            7 | 8 => {
                cx.log(|| "clone".to_owned());
                let s = &mut self.s;
                let t = &mut self.t;
                let from = op.a % 2 == 0;
                if cx
                    .call("clone", "C04", Expect::No, || {
                        if from {
                            t.a.clone_from(&s.a)
                        } else {
                            t.a = s.a.clone()
                        }
                    })
                    .is_some()
                {
                    cx.ck(t.a == s.a && s.a == t.a, "C04", || "a clone differs".to_owned());
                    t.m = s.m.clone();
                    t.pool = s.pool.clone();
                    self.both(cx, "clone");
                }
            }
            9 => {
                cx.log(|| "clone_from_with".to_owned());
                let s = &mut self.s;
                let t = &mut self.t;
                let mut offered = BTreeMap::new();
                let mut count = 0;
                if cx
                    .call("clone_from_with", "C04", Expect::No, || {
                        t.a.clone_from_with(&s.a, |p, l| {
                            count += 1;
                            offered.insert(key(p), l);
                            Tok::new(l.2 + 10_000_000)
                        })
                    })
                    .is_some()
                {
                    let e: BTreeMap<_, _> = s
                        .m
                        .live
                        .iter()
                        .map(|(i, l)| ((*i, l.gen), s.m.exp(*i, A::GEN)))
                        .collect();
                    cx.ck(count == n && offered == e, "C04", || {
                        format!("clone_from_with offered {offered:?}, expected {e:?}")
                    });
                    t.m = s.m.clone();
                    for l in t.m.live.values_mut() {
                        l.v += 10_000_000;
                    }
                    t.pool = s.pool.clone();
                    self.both(cx, "clone_from_with");
                }
            }
            10 => {
                cx.log(|| "clone to a plain arena and a chain arena".to_owned());
                let s = &mut self.s;
                if op.a % 2 == 0 {
                    let mut o: Arena<P, Tok> = Arena::new();
                    for k in 0..op.b % 6 {
                        o.insert(Tok::new(k as u64));
                    }
                    if cx
                        .call("clone_to_arena", "C04", Expect::No, || {
                            s.a.clone_to_arena(&mut o, |_, l| Tok::new(l.2))
                        })
                        .is_some()
                    {
                        let g: BTreeMap<_, _> = o.iter().map(|(p, t)| (key(p), t.v)).collect();
                        let e: BTreeMap<_, _> =
                            s.m.live.iter().map(|(i, l)| ((*i, l.gen), l.v)).collect();
                        cx.ck(g == e && o.len() == n, "C04", || {
                            format!("clone_to_arena made {g:?}, expected {e:?}")
                        });
                    }
                } else {
                    let mut o: ChainArena<P, Tok> = ChainArena::new();
                    for k in 0..op.b % 6 {
                        o.insert_new(Tok::new(k as u64));
                    }
                    if cx
                        .call("clone_to_chain_arena", "C04", Expect::No, || s.a.clone_to_chain(&mut o))
                        .is_some()
                    {
                        let g: BTreeMap<_, _> = o
                            .iter()
                            .map(|(p, l)| (key(p), (l.prev().map(key), l.next().map(key), l.t.v)))
                            .collect();
                        let e: BTreeMap<_, _> = s
                            .m
                            .live
                            .iter()
                            .map(|(i, l)| {
                                let k = |x: Option<usize>| x.map(|x| (x, s.m.live[&x].gen));
                                ((*i, l.gen), (k(l.prev), k(l.next), l.v))
                            })
                            .collect();
                        cx.ck(g == e, "C04", || {
                            format!("clone_to_chain_arena made {g:?}, expected {e:?}")
                        });
                    }
                }
            }
            11 => {
                let e = self.s.m.live == self.t.m.live;
                let r = self.s.a == self.t.a;
                cx.ck(r == e, "C04", || format!("== is {r}, expected {e}"));
                if n != 0 {
                    let p = self.pick(op.a << 4);
                    let mut c = self.s.a.clone();
                    let changed = match op.b % 4 {
                        0 => c.get_mut(p).map(|t| t.v += 1).is_some(),
                        1 => c.break_next(p).is_some(),
                        2 => c.break_prev(p).is_some(),
                        _ => {
                            let q = self.pick(op.c << 4);
                            let d = self.s.m.get(p).and_then(|l| l.next);
                            let f = self.s.m.get(q).and_then(|l| l.next);
                            c.exchange_next(p, q).is_some() && d != f
                        }
                    };
                    if changed {
                        cx.ck(c != self.s.a && self.s.a != c, "C04", || {
                            format!("arenas differing at {p:?} compare equal")
                        });
                    }
                }
            }
            12 => {
                cx.log(|| "swap sides".to_owned());
                std::mem::swap(&mut self.s, &mut self.t)
            }
            13 => self.from_links(op, cx),
            14 => {
                let k = (op.a % 9) as usize;
                if cap0 + k > imax::<P>() {
                    return
                }
                cx.log(|| format!("reserve({k})"));
                let s = &mut self.s;
                if cx.call("reserve", "A03", Expect::No, || s.a.reserve(k)).is_some() {
                    cx.ck(s.a.capacity() >= n + k && s.a.capacity() >= cap0, "A03", || {
                        "reserve did too little".to_owned()
                    });
                }
            }
            _ => {
                let fmt = op.a;
                cx.log(|| format!("serialization round trip (format {})", fmt % 2));
                let s = &mut self.s;
                if !crate::ser::HAS {
                    return
                }
                let Some(b) = cx.call("serialize", "E01", Expect::No, || s.a.ser(fmt)) else {
                    return
                };
                let Ok(b) = b else {
                    cx.fail("E01", format!("serialization failed: {b:?}"));
                    return
                };
                let Some(d) = cx.call("deserialize", "E01", Expect::No, || A::de(&b, fmt)) else {
                    return
                };
                match d {
                    Err(e) => cx.fail("E01", format!("deserialization failed: {e}")),
                    Ok(a) => {
                        let mut m = s.m.clone();
                        let g = if counted::<P>() { 2 } else { 0 };
                        m.gen = g;
                        for l in m.live.values_mut() {
                            l.gen = g;
                        }
                        let mut pool = vec![P::invalid()];
                        for i in m.live.keys() {
                            remember(&mut pool, forge(*i, g));
                        }
                        self.s = CSide { a, m, pool };
                        let n = cx.fails.len();
                        self.check(cx, "round trip");
                        for f in &mut cx.fails[n..] {
                            f.labels = "E01".to_owned();
                        }
                        cx.extra = "E01";
                    }
                }
            }
        }
    }

    fn both(&mut self, cx: &mut Cx, what: &str) {
        let n = cx.fails.len();
        self.check(cx, what);
        std::mem::swap(&mut self.s, &mut self.t);
        self.check(cx, what);
        for f in &mut cx.fails[n..] {
            f.labels.push_str(" C04");
        }
    }

    fn from_links(&mut self, op: &Op, cx: &mut Cx) {
        // symmetric by construction, then possibly damaged
        let mut rng = Rng(((op.a as u64) << 32) | op.b as u64);
        let n = 1 + rng.below(6) as usize;
        let mut nx = vec![None; n + 1];
        let mut pv = vec![None; n + 1];
        for i in 1..=n {
            let j = 1 + rng.below(n as u64) as usize;
            if pv[j].is_none() {
                nx[i] = Some(j);
                pv[j] = Some(i);
            }
        }
        let g = if counted::<P>() { 2u128 } else { 0 };
        let mut links: Vec<(Option<(usize, u128)>, Option<(usize, u128)>, u64)> = (1..=n)
            .map(|i| (pv[i].map(|k| (k, g)), nx[i].map(|k| (k, g)), 500_000 + i as u64))
            .collect();
        let damaged = rng.below(3) == 0;
        if damaged {
            let i = rng.below(n as u64) as usize;
            let j = 1 + rng.below(n as u64 + 2) as usize;
            let other = if rng.below(3) == 0 && counted::<P>() { g + rng.below(3) as u128 - 1 } else { g };
            let nw = if rng.below(4) == 0 { None } else { Some((j, other)) };
            if rng.below(2) == 0 {
                links[i].0 = nw;
            } else {
                links[i].1 = nw;
            }
        }
        let ok = (0..n).all(|i| {
            let fine = |x: Option<(usize, u128)>, fwd: bool| match x {
                None => true,
                Some((k, kg)) => {
                    k <= n && (kg == g || !A::GEN) && {
                        let back = if fwd { links[k - 1].0 } else { links[k - 1].1 };
                        back.is_some_and(|b| b.0 == i + 1 && (b.1 == g || !A::GEN))
                    }
                }
            };
            fine(links[i].0, false) && fine(links[i].1, true)
        });
        cx.log(|| format!("from_arena of {links:?}"));
        let Some(r) = cx.call("from_arena", "C04", Expect::No, || A::from_links(&links)) else {
            return
        };
        cx.ck(r.is_ok() == ok, "C04 C01", || {
            format!("from_arena of {links:?} {}", if ok { "refused" } else { "accepted" })
        });
        if let (Ok(a), true) = (r, ok) {
            let mut m = CModel::fresh::<P>();
            for i in 1..=n {
                m.live.insert(
                    i,
                    L {
                        gen: g,
                        v: 500_000 + i as u64,
                        prev: pv[i],
                        next: nx[i],
                    },
                );
                // the damage may have been harmless
                m.live.get_mut(&i).unwrap().prev = links[i - 1].0.map(|x| x.0);
                m.live.get_mut(&i).unwrap().next = links[i - 1].1.map(|x| x.0);
            }
            let mut pool = vec![P::invalid()];
            for i in 1..=n {
                pool.push(forge(i, g));
            }
            self.s = CSide { a, m, pool };
        }
    }

    fn compress(&mut self, op: &Op, cx: &mut Cx) {
        let mode = op.a % 3;
        cx.log(|| format!("compress_and_shrink (mode {mode})"));
        let n = self.s.m.live.len();
        let ex = self.s.m.overflow::<P>(n != 0);
        let s = &mut self.s;
        let mut map: Vec<((usize, u128), u64, (usize, u128))> = vec![];
        let mut rec: Option<Arena<P, P>> = None;
        if cx
            .call("compress_and_shrink", "C04 C01 A06", ex, || match mode {
                0 => s.a.compress(),
                1 => s.a.compress_with(|p, t, q| {
                    map.push((key(p), t.v, key(q)));
                    t.v += 1_000_000;
                }),
                _ => rec = Some(s.a.recaster()),
            })
            .is_none()
        {
            return
        }
        self.lenient(cx, "compress_and_shrink", (n != 0) as u128, 1);
        let s = &mut self.s;
        let g = s.m.gen;
        let shift = if mode == 1 { 1_000_000 } else { 0 };
        cx.ck(s.a.capacity() == n && s.a.len() == n, "C04 A06", || {
            format!("compressed to capacity {} len {}, expected {n}", s.a.capacity(), s.a.len())
        });
        // values are unique, so they identify the renumbering; but a mapped clone may repeat them
        let mut ren: BTreeMap<usize, usize> = BTreeMap::new();
        if mode == 1 {
            let ok = map.len() == n
                && map.iter().all(|(p, v, q)| {
                    s.m.live.get(&p.0).is_some_and(|l| l.gen == p.1 && l.v == *v) && q.1 == g
                });
            cx.ck(ok, "C04 A06", || format!("compression reported {map:?}"));
            for (p, _, q) in &map {
                ren.insert(p.0, q.0);
            }
        } else if let Some(rec) = &rec {
            for (i, l) in &s.m.live {
                let mut p: P = forge(*i, l.gen);
                let r = p.recast(rec);
                cx.ck(r.is_ok() && key(p).1 == g, "C04 A06", || {
                    format!("recasting link {i} gave {p:?} {r:?}")
                });
                ren.insert(*i, key(p).0);
            }
            for p in s.pool.clone() {
                if s.m.get(p).is_none() {
                    let mut q = p;
                    let r = q.recast(rec);
                    cx.ck(r.is_err() && q == p, "A06 C04", || format!("recasting stale {p:?}"));
                }
            }
        } else {
            let mut byval: BTreeMap<u64, usize> = BTreeMap::new();
            for i in 1..=n {
                if let Some(l) = s.a.get_no_gen(i) {
                    byval.insert(l.3, i);
                }
            }
            for (i, l) in &s.m.live {
                if let Some(k) = byval.get(&l.v) {
                    ren.insert(*i, *k);
                }
            }
        }
        let img: BTreeSet<usize> = ren.values().copied().collect();
        if cx.stop {
            return
        }
        if ren.len() != n || img.len() != n || !img.iter().copied().eq(1..=n) {
            cx.fail("C04 A06", format!("renumbering {ren:?} is not dense and one to one"));
            return
        }
        let old = std::mem::replace(&mut s.m.live, BTreeMap::new());
        for (i, l) in &old {
            s.m.live.insert(
                ren[i],
                L {
                    gen: g,
                    v: l.v + shift,
                    prev: l.prev.map(|k| ren[&k]),
                    next: l.next.map(|k| ren[&k]),
                },
            );
        }
        // whole chains are contiguous
        let mut seen = BTreeSet::new();
        for i in 1..=n {
            if seen.contains(&i) {
                continue
            }
            let w: BTreeSet<usize> = s.m.walk(i).into_iter().collect();
            let (lo, hi) = (*w.first().unwrap(), *w.last().unwrap());
            cx.ck(hi - lo + 1 == w.len(), "C04", || {
                format!("the chain of link {i} is scattered: {w:?}")
            });
            seen.extend(w);
        }
        for i in 1..=n {
            remember(&mut s.pool, forge(i, g));
        }
        let f = cx.fails.len();
        self.check(cx, "compress_and_shrink");
        for f in &mut cx.fails[f..] {
            f.labels.push_str(" C04");
        }
    }
}

impl<P: Ptr, A: CA<P>> Machine for ChainM<P, A> {
    fn new(flags: u32) -> Self {
        let side = || CSide {
            a: A::new(),
            m: CModel::fresh::<P>(),
            pool: vec![P::invalid()],
        };
        ChainM {
            s: side(),
            t: side(),
            next: 0,
            bias: flags,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let c = op.code % 100;
        let ins = match self.bias % 4 {
            0 => 40,
            1 => 30,
            2 => 25,
            _ => 50,
        };
        if c < ins {
            self.insert(op, cx);
        } else if c < 90 {
            self.edit(op, cx);
        } else {
            self.bulk(op, cx);
        }
        if cx.stop {
            return
        }
        self.check(cx, "this operation");
        if !cx.stop {
            self.queries(op, cx);
        }
    }

    fn finish(self, cx: &mut Cx) {
        let r = self.s.a.own_check();
        cx.ck(r.is_ok(), "C01 E02", || format!("the arena's own check says {r:?}"));
        if self.t.m.live.len() % 2 == 0 {
            let v: Vec<u64> = (0..5).collect();
            let a = A::from_vals(v);
            cx.ck(a.len() == 5, "C02", || "from_iter".to_owned());
        }
        drop(self);
        let (live, errs) = reg_state();
        cx.ck(errs == 0, "V01 A05", || format!("{errs} values dropped twice"));
        cx.ck(live == 0, "V01 A05", || format!("{live} values never dropped"));
        crate::galloc::check(cx);
    }
}
