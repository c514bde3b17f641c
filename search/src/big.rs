//! Scenarios at sizes and element types the step-by-step machines do not
//! reach: thousands of elements, sparse remains, partially ordered values,
//! and equality of differently grouped arenas

use std::{
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
};

use triple_arena::{utils::ChainNoGenArena, Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena};

use crate::{kit::*, ord::structure, ser};

pub struct BigM<P: Ptr, const KIND: u32> {
    flags: u32,
    done: bool,
    _p: std::marker::PhantomData<P>,
}

fn size(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(8) {
        0..=2 => 60 + rng.below(200),
        3..=5 => 200 + rng.below(1200),
        6 => 1 << (6 + rng.below(7)),
        _ => 3000 + rng.below(7000),
    } as usize;
    // also just around powers of two
    let n = match rng.below(4) {
        0 => n.next_power_of_two() + rng.below(3) as usize - 1,
        _ => n,
    };
    n.min(max)
}

type Map<V> = BTreeMap<(usize, u128), V>;

fn arena<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
    let lim = imax::<P>();
    let n = size(rng, lim);
    cx.log(|| format!("arena of {n} elements"));
    let mut a: Arena<P, Tok> = Arena::new();
    let mut m: Map<u64> = BTreeMap::new();
    for i in 0..n as u64 {
        let p = a.insert(Tok::new(i));
        let old = m.insert(key(p), i);
        cx.ck(old.is_none(), "A01 A02 A03", || format!("{p:?} was handed out twice"));
    }
    cx.ck(a.len() == n && a.capacity() >= n && a.capacity() <= (2 * n).max(8), "A03", || {
        format!("length {} capacity {} after {n} insertions", a.len(), a.capacity())
    });
    let cap = a.capacity();
    let can = |a: &Arena<P, Tok>| !counted::<P>() || raw(a.generation()) + 600 < gmax::<P>();
    // keep a few
    let keep = match rng.below(3) {
        0 => 1,
        1 => n as u64 / 2,
        _ => n as u64 / 50 + 1,
    };
    let salt = rng.next();
    let pred = |v: u64| (v ^ salt).wrapping_mul(0x9E37_79B9_7F4A_7C15) % n as u64 >= keep;
    let last = rng.below(2) == 0;
    let sel = |v: u64| if last { v + keep < n as u64 } else { pred(v) };
    let mut stale = vec![];
    if rng.below(2) == 0 {
        let mut seen = BTreeMap::new();
        a.remove_by(|p, t| {
            *seen.entry(key(p)).or_insert(0) += 1;
            sel(t.v)
        });
        cx.ck(seen.len() == n && seen.values().all(|c| *c == 1), "A05", || {
            "remove_by did not offer each element once".to_owned()
        });
        stale = m.iter().filter(|e| sel(*e.1)).map(|e| *e.0).collect();
    } else {
        for (k, v) in &m {
            if sel(*v) && can(&a) {
                let r = a.remove(forge(k.0, k.1));
                cx.ck(r.is_some_and(|t| t.v == *v), "A02 A01", || format!("removal of {k:?}"));
                stale.push(*k);
            }
        }
    }
    for k in &stale {
        m.remove(k);
    }
    let state = |a: &Arena<P, Tok>, m: &Map<u64>, cx: &mut Cx, what: &str, l: &str| {
        let got: Map<u64> = a.iter().map(|(p, t)| (key(p), t.v)).collect();
        cx.ck(got == *m && a.len() == m.len(), l, || {
            format!("after {what}: {} elements, length {}, expected {}", got.len(), a.len(), m.len())
        });
        for (k, v) in m.iter() {
            let p: P = forge(k.0, k.1);
            cx.ck(a.get(p).is_some_and(|t| t.v == *v) && a.contains(p), l, || {
                format!("after {what}: {p:?} does not resolve to {v}")
            });
        }
        if counted::<P>() {
            for k in &stale {
                cx.ck(a.get(forge::<P>(k.0, k.1)).is_none(), l, || format!("stale {k:?} resolves"));
            }
        }
    };
    state(&a, &m, cx, "removal", "A01 A02 A05");
    cx.ck(a.capacity() == cap, "A03", || "capacity changed".to_owned());
    // advancing over it while touching it
    let mut adv = a.advancer();
    let mut seen = BTreeSet::new();
    while let Some(p) = adv.advance(&a) {
        if !cx.stop && !seen.insert(key(p)) {
            cx.fail("A08", format!("advancer returned {p:?} twice"));
            return
        }
    }
    cx.ck(seen.iter().eq(m.keys()), "A08", || "advancer missed elements".to_owned());
    let mut distinct = BTreeSet::new();
    for (p, t) in a.iter_mut() {
        distinct.insert((key(p), t as *mut Tok as usize));
    }
    cx.ck(distinct.len() == m.len(), "A08", || "iter_mut is not distinct".to_owned());
    if ser::HAS && std::mem::size_of::<P::Inx>() <= 8 {
        for f in 0..2 {
            let b = ser::to_bytes(&a, f);
            let d = b.and_then(|b| ser::from_bytes::<Arena<P, Tok>>(&b, f));
            match d {
                Err(e) => cx.fail("E01", format!("round trip of {} elements up to index {}: {e}", m.len(), cap)),
                Ok(mut d) => {
                    let got: Vec<(usize, u64)> = d.iter().map(|(p, t)| (key(p).0, t.v)).collect();
                    let e: Vec<(usize, u64)> = m.iter().map(|(k, v)| (k.0, *v)).collect();
                    cx.ck(got == e, "E01", || "round trip changed elements".to_owned());
                    fill(&mut d, cx, "E01 E02");
                }
            }
        }
    }
    let mut c = a.clone();
    state(&c, &m, cx, "clone", "A07");
    cx.ck(c == a, "A07", || "a clone differs".to_owned());
    fill(&mut c, cx, "A03 A07");
    if !m.is_empty() && can(&a) {
        let mut map = BTreeMap::new();
        a.compress_and_shrink_with(|p, t, q| {
            map.insert(key(p), (key(q), t.v));
        });
        let ok = map.len() == m.len()
            && m.iter().all(|(k, v)| map.get(k).is_some_and(|e| e.1 == *v))
            && a.capacity() == m.len()
            && a.ptrs().map(|p| key(p).0).eq(1..=m.len())
            && map.values().all(|(q, v)| a.get(forge::<P>(q.0, q.1)).is_some_and(|t| t.v == *v));
        cx.ck(ok, "A06", || "compression is not a dense faithful renumbering".to_owned());
        let k = rng.below(m.len() as u64 + 1) as usize;
        let got = a.drain().take(k).count();
        cx.ck(got == k && a.is_empty() && a.capacity() == m.len(), "A05", || {
            format!("drain left {} after {got} of {k}", a.len())
        });
        fill(&mut a, cx, "A05 A03");
    }
}

fn fill<P: Ptr>(a: &mut Arena<P, Tok>, cx: &mut Cx, l: &str) {
    let free = a.capacity() - a.len().min(a.capacity());
    let cap = a.capacity();
    let mut used: BTreeSet<usize> = a.ptrs().map(|p| key(p).0).collect();
    let n = used.len();
    let mut got = 0;
    while let Ok(p) = a.try_insert(Tok::new(0)) {
        got += 1;
        if !used.insert(key(p).0) || got > free {
            break
        }
    }
    cx.ck(got == free && used.len() == n + got && a.capacity() == cap, l, || {
        format!("{got} slots usable, {free} reported free")
    });
}

/// neighbours of every link, as indexes
type Links = BTreeMap<usize, (Option<usize>, Option<usize>, u64)>;

macro_rules! chains {
    ($name:ident, $arena:ident, $ix:expr, $arg:expr) => {
        fn $name<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
            let ix = $ix;
            let arg = $arg;
            let n = size(rng, imax::<P>().min(4000));
            let cyclic = rng.below(2) == 0;
            let can = !counted::<P>() || gmax::<P>() > 5000;
            cx.log(|| format!("chains in all {n} links, cyclic {cyclic}"));
            let mut a: $arena<P, Tok> = $arena::new();
            let mut m: Links = BTreeMap::new();
            let mut ps: Vec<Vec<P>> = vec![];
            // long first chain, then others
            let k = 1 + rng.below(3) as usize;
            let mut v = 0;
            for c in 0..k {
                let len = if c + 1 == k { n - n / k * (k - 1) } else { n / k };
                let mut chain: Vec<P> = vec![];
                for _ in 0..len {
                    v += 1;
                    let p = match chain.last() {
                        None => a.insert_new(Tok::new(v)),
                        Some(p) => match a.insert((Some(arg(*p)), None), Tok::new(v)) {
                            Ok(p) => p,
                            Err(_) => {
                                cx.fail("C02", format!("insert after the end {p:?} failed"));
                                return
                            }
                        },
                    };
                    chain.push(p);
                }
                if cyclic && len != 0 {
                    let r = a.connect(chain[len - 1], chain[0]);
                    cx.ck(r.is_some(), "C02", || "closing a chain failed".to_owned());
                }
                let id: Vec<usize> = chain.iter().map(|p| key(*p).0).collect();
                for (x, i) in id.iter().enumerate() {
                    let pv = if x > 0 { Some(id[x - 1]) } else if cyclic { Some(id[len - 1]) } else { None };
                    let nx = if x + 1 < len { Some(id[x + 1]) } else if cyclic { Some(id[0]) } else { None };
                    m.insert(*i, (pv, nx, a.get(chain[x]).map(|t| t.v).unwrap_or(0)));
                }
                ps.push(chain);
            }
            let links = |a: &$arena<P, Tok>| -> Links {
                a.ptrs()
                    .map(|p| {
                        let l = a.get_link(p).unwrap();
                        (key(p).0, (l.prev().map(ix), l.next().map(ix), l.t.v))
                    })
                    .collect()
            };
            let got = links(&a);
            cx.ck(got == m, "C01 C02", || "links after building differ".to_owned());
            // walks
            for chain in &ps {
                if chain.is_empty() {
                    continue
                }
                let s = rng.below(chain.len() as u64) as usize;
                let mut e: Vec<usize> = chain[s..].iter().map(|p| key(*p).0).collect();
                if cyclic {
                    e.extend(chain[..s].iter().map(|p| key(*p).0));
                } else {
                    e.extend(chain[..s].iter().rev().map(|p| key(*p).0));
                }
                let mut w = vec![];
                let mut adv = a.advancer_chain(arg(chain[s]));
                while let Some(p) = adv.advance(&a) {
                    w.push(key(p).0);
                    if w.len() > n + 2 {
                        break
                    }
                }
                cx.ck(w == e, "C03", || format!("walk of {} links gave {}", e.len(), w.len()));
                let y = rng.below(chain.len() as u64) as usize;
                let e = if s + 1 < chain.len() { y == s + 1 } else { cyclic && y == 0 };
                let r = a.are_neighbors(chain[s], chain[y]);
                cx.ck(r == e, "C03", || "neighbour query".to_owned());
            }
            // copies
            let mut c: $arena<P, Tok> = $arena::new();
            c.clone_from(&a);
            cx.ck(links(&c) == m && c == a, "C04", || "a clone differs".to_owned());
            if ser::HAS && std::mem::size_of::<P::Inx>() <= 8 {
                let d = ser::to_bytes(&a, 1).and_then(|b| ser::from_bytes::<$arena<P, Tok>>(&b, 1));
                match d {
                    Err(e) => cx.fail("E01", format!("round trip: {e}")),
                    Ok(d) => cx.ck(links(&d) == m, "E01", || "round trip changed links".to_owned()),
                }
            }
            let mut map = BTreeMap::new();
            c.compress_and_shrink_with(|p, _, q| {
                map.insert(key(p).0, key(q).0);
            });
            let f = |i: usize| map.get(&i).copied().unwrap_or(0);
            let e: Links = m.iter().map(|(i, l)| (f(*i), (l.0.map(f), l.1.map(f), l.2))).collect();
            cx.ck(links(&c) == e && e.len() == m.len() && c.capacity() == n, "C04", || {
                "compression changed the topology".to_owned()
            });
            let contiguous = ps.iter().filter(|c| !c.is_empty()).all(|c| {
                let id: Vec<usize> = c.iter().map(|p| f(key(*p).0)).collect();
                // a cyclic one may start anywhere
                let low = *id.iter().min().unwrap();
                let at = id.iter().position(|i| *i == low).unwrap();
                (0..id.len()).all(|x| id[(at + x) % id.len()] == low + x)
            });
            cx.ck(contiguous, "C04", || "compression scattered a chain".to_owned());
            // edits in the middle of it
            if can {
                for _ in 0..20 {
                    let x = rng.below(k as u64) as usize;
                    if ps[x].len() < 3 {
                        continue
                    }
                    let y = rng.below(ps[x].len() as u64) as usize;
                    let p = ps[x].remove(y);
                    let i = key(p).0;
                    let l = m.remove(&i).unwrap();
                    let r = a.remove(p).map(|r| (r.prev().map(ix), r.next().map(ix), r.t.v));
                    cx.ck(r == Some(l), "C02", || format!("removal of {p:?} gave {r:?}"));
                    if let Some(q) = l.0 {
                        if let Some(q) = m.get_mut(&q) {
                            q.1 = l.1;
                        }
                    }
                    if let Some(q) = l.1 {
                        if let Some(q) = m.get_mut(&q) {
                            q.0 = l.0;
                        }
                    }
                }
                cx.ck(links(&a) == m, "C01 C02", || "links after removals differ".to_owned());
                let x = rng.below(k as u64) as usize;
                if !ps[x].is_empty() {
                    let y = rng.below(ps[x].len() as u64) as usize;
                    let g = raw(a.generation());
                    let r = a.remove_chain(ps[x][y]);
                    for p in &ps[x] {
                        m.remove(&key(*p).0);
                    }
                    let ok = r.is_some_and(|r| r == ps[x].len());
                    cx.ck(ok && links(&a) == m, "C03", || "remove_chain".to_owned());
                    let e = if counted::<P>() { g + 1 } else { 0 };
                    cx.ck(raw(a.generation()) == e, "A04", || {
                        "remove_chain did not spend one generation".to_owned()
                    });
                }
            }
        }
    };
}

chains!(chain, ChainArena, |p: P| key(p).0, |p: P| p);
chains!(chain_no_gen, ChainNoGenArena, |p: P::Inx| raw(p) as usize, |p: P| p.inx());

fn surject<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
    let n = size(rng, imax::<P>().min(4000));
    cx.log(|| format!("surject arena of {n} keys"));
    let mut a: SurjectArena<P, Tok, Tok> = SurjectArena::new();
    let mut grp: Map<usize> = BTreeMap::new();
    let mut ps: Vec<Vec<P>> = vec![];
    let mut vals: Vec<u64> = vec![];
    let lone = n / 4;
    for i in 0..n as u64 {
        // many singles, and some that grow
        if ps.is_empty() || i < lone as u64 || rng.below(40) == 0 {
            let p = a.insert(Tok::new(i), Tok::new(10_000 + i));
            ps.push(vec![p]);
            vals.push(10_000 + i);
        } else {
            let g = if rng.below(2) == 0 { 0 } else { rng.below(ps.len() as u64) as usize };
            let at = rng.below(ps[g].len() as u64) as usize;
            match a.insert_key(ps[g][at], Tok::new(i)) {
                Ok(p) => ps[g].push(p),
                Err(_) => {
                    cx.fail("S01", "insert_key with a valid pointer failed".to_owned());
                    return
                }
            }
        }
    }
    for _ in 0..rng.below(60) {
        let (g, h) = (rng.below(ps.len() as u64) as usize, rng.below(ps.len() as u64) as usize);
        if ps[g].is_empty() || ps[h].is_empty() {
            continue
        }
        let r = a.union(ps[g][0], ps[h][0]);
        if g == h {
            cx.ck(r.is_none(), "S01", || "union within a group".to_owned());
        } else {
            let (keep, lose) = if ps[g].len() < ps[h].len() { (h, g) } else { (g, h) };
            cx.ck(
                r.as_ref().is_some_and(|r| r.0.v == vals[lose] && ps[keep].contains(&r.1)),
                "S01",
                || format!("union of {} and {} keys", ps[g].len(), ps[h].len()),
            );
            let t = std::mem::take(&mut ps[lose]);
            ps[keep].extend(t);
        }
    }
    let agree = |a: &SurjectArena<P, Tok, Tok>, ps: &Vec<Vec<P>>, cx: &mut Cx, what: &str, l: &str| {
        let ng = ps.iter().filter(|g| !g.is_empty()).count();
        let nk: usize = ps.iter().map(|g| g.len()).sum();
        cx.ck(a.len_keys() == nk && a.len_vals() == ng, l, || {
            format!("after {what}: {} keys {} values, expected {nk} {ng}", a.len_keys(), a.len_vals())
        });
        for (g, set) in ps.iter().enumerate() {
            for p in set.iter().take(3) {
                let mut w = vec![];
                let mut adv = a.advancer_surject(*p);
                while let Some(q) = adv.advance(a) {
                    w.push(key(q));
                    if w.len() > nk + 1 {
                        break
                    }
                }
                w.sort();
                let mut e: Vec<_> = set.iter().map(|p| key(*p)).collect();
                e.sort();
                cx.ck(
                    w == e
                        && a.len_key_set(*p).map(|n| n.get()) == Some(set.len())
                        && a.get_val(*p).is_some_and(|v| v.v == vals[g]),
                    l,
                    || format!("after {what}: group of {} keys walks {}", e.len(), w.len()),
                );
            }
        }
    };
    agree(&a, &ps, cx, "building", "S01");
    for (g, set) in ps.iter().enumerate() {
        for p in set {
            grp.insert(key(*p), g);
        }
    }
    let mut adv = a.advancer();
    let mut all = vec![];
    while let Some(p) = adv.advance(&a) {
        all.push(key(p));
        if all.len() > n + 1 {
            break
        }
    }
    all.sort();
    cx.ck(all.iter().eq(grp.keys()), "A08 S01", || "advancer".to_owned());
    let mut c = a.clone();
    agree(&c, &ps, cx, "clone", "S03");
    cx.ck(c == a, "S03", || "a clone differs".to_owned());
    if ser::HAS && std::mem::size_of::<P::Inx>() <= 8 {
        let d = ser::to_bytes(&a, 0).and_then(|b| ser::from_bytes::<SurjectArena<P, Tok, Tok>>(&b, 0));
        match d {
            Err(e) => cx.fail("E01", format!("round trip: {e}")),
            Ok(d) => {
                let two = if counted::<P>() { 2 } else { 0 };
                let q: Vec<Vec<P>> =
                    ps.iter().map(|g| g.iter().map(|p| forge(key(*p).0, two)).collect()).collect();
                agree(&d, &q, cx, "round trip", "E01");
            }
        }
    }
    let mut map = BTreeMap::new();
    c.compress_and_shrink_with(|p, _, _, q| {
        map.insert(key(p), q);
    });
    if map.len() != n {
        cx.fail("S03 A06", "compression did not report each key".to_owned());
        return
    }
    let q: Vec<Vec<P>> = ps.iter().map(|g| g.iter().map(|p| map[&key(*p)]).collect()).collect();
    agree(&c, &q, cx, "compression", "S03");
    if !counted::<P>() || gmax::<P>() > 9000 {
        for _ in 0..40 {
            let g = rng.below(ps.len() as u64) as usize;
            if ps[g].is_empty() {
                continue
            }
            let y = rng.below(ps[g].len() as u64) as usize;
            let p = ps[g][y];
            if rng.below(4) == 0 {
                let r = a.remove(p);
                cx.ck(r.is_some_and(|v| v.v == vals[g]), "S02", || "remove".to_owned());
                ps[g].clear();
            } else {
                ps[g].remove(y);
                let r = a.remove_key(p);
                let e = ps[g].is_empty();
                cx.ck(r.is_some_and(|r| r.1.map(|v| v.v) == e.then_some(vals[g])), "S02", || {
                    "remove_key".to_owned()
                });
            }
        }
        agree(&a, &ps, cx, "removal", "S02 S01");
    }
}

/// Equality of arenas over the same pointers and keys with few different
/// values and arbitrary grouping
fn surject_eq<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
    let n = 1 + rng.below(5) as usize;
    let build = |rng: &mut Rng| {
        // every key alone, then united
        let mut a: SurjectArena<P, Tok, Tok> = SurjectArena::new();
        let mut ps = vec![];
        let mut rel: Vec<(u64, u64, usize)> = vec![];
        for i in 0..n {
            let (k, v) = (rng.below(1 + i as u64 / 3), rng.below(8) / 7);
            ps.push(a.insert(Tok::new(k), Tok::new(v)));
            rel.push((k, v, i));
        }
        for _ in 0..rng.below(n as u64 + 1) {
            let (i, j) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
            let (gi, gj) = (rel[i].2, rel[j].2);
            let _ = a.union(ps[i], ps[j]);
            if gi != gj {
                let v = a.get_val(ps[i]).map(|t| t.v).unwrap_or(9);
                for r in rel.iter_mut() {
                    if r.2 == gi || r.2 == gj {
                        r.2 = gi.min(gj);
                        r.1 = v;
                    }
                }
            }
        }
        (a, ps, rel)
    };
    let (a, pa, ra) = build(rng);
    let (b, pb, rb) = build(rng);
    let same = pa.iter().map(|p| key(*p)).eq(pb.iter().map(|p| key(*p))) && ra == rb;
    cx.log(|| format!("comparing {ra:?} with {rb:?} (key, value, group)"));
    let r = (a == b, b == a);
    cx.ck(same || r == (false, false), "S03", || {
        format!("{ra:?} and {rb:?} (key, value, group) compare equal")
    });
    cx.ck(a == a.clone() && b == b.clone(), "S03", || "a clone differs".to_owned());
}

/// Comparison with values that are not totally ordered
fn ord_cmp<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
    let n = rng.below(5) as usize;
    let mk = |rng: &mut Rng, n: usize| {
        let mut a: OrdArena<P, u8, f64> = OrdArena::new();
        for i in 0..n {
            let v = [f64::NAN, 1.0, 1.0, 1.0, 2.0][rng.below(5) as usize];
            let _ = a.insert(i as u8 + (rng.below(9) == 0) as u8, v);
        }
        a
    };
    let a = mk(rng, n);
    let k = rng.below(3) as usize;
    let b = mk(rng, if k == 0 { n + 1 } else { n });
    let seq = |a: &OrdArena<P, u8, f64>| a.iter().map(|e| (*e.1, *e.2)).collect::<Vec<_>>();
    let (x, y) = (seq(&a), seq(&b));
    cx.log(|| format!("comparing {x:?} with {y:?}"));
    let got = (a.partial_cmp(&b), a == b);
    let want = (x.partial_cmp(&y), x == y);
    cx.ck(got == want, "O05", || {
        format!("comparing {x:?} with {y:?} is {got:?}, expected {want:?}")
    });
    // plain and chain arenas with elements that differ from themselves
    let mut c: Arena<P, f64> = Arena::new();
    let mut d: ChainArena<P, f64> = ChainArena::new();
    for e in &x {
        c.insert(e.1);
        d.insert_new(e.1);
    }
    let want = !x.iter().any(|e| e.1.is_nan());
    cx.ck((c == c.clone()) == want, "A07", || format!("equality of a copy of {x:?}"));
    cx.ck((d == d.clone()) == want, "C04", || format!("equality of a copy of {x:?}"));
}

fn ord<P: Ptr>(rng: &mut Rng, cx: &mut Cx) {
    let n = size(rng, imax::<P>());
    let how = rng.below(5);
    cx.log(|| format!("ordered arena of {n} entries, order {how}"));
    let mut a: OrdArena<P, u64, Tok> = OrdArena::new();
    let mut m: BTreeMap<u64, ((usize, u128), u64)> = BTreeMap::new();
    let put = |a: &mut OrdArena<P, u64, Tok>, m: &mut BTreeMap<u64, ((usize, u128), u64)>, k: u64, v: u64, cx: &mut Cx| {
        let (p, r) = a.insert(k, Tok::new(v));
        match (m.get_mut(&k), r) {
            (None, None) => {
                m.insert(k, (key(p), v));
            }
            (Some(e), Some((k2, w))) => {
                cx.ck(key(p) == e.0 && k2 == k && w.v == e.1, "O02", || {
                    format!("insertion of the present key {k}")
                });
                e.1 = v;
            }
            _ => cx.fail("O02", format!("insertion of {k} misjudged its presence")),
        }
    };
    let check = |a: &OrdArena<P, u64, Tok>, m: &BTreeMap<u64, ((usize, u128), u64)>, cx: &mut Cx, what: &str, l: &str| {
        if let Err(e) = structure(a) {
            let e = &e[..e.len().min(120)];
            cx.fail(&format!("{l} O03"), format!("after {what} with {} entries: {e}", m.len()));
        }
        let ok = a.iter().take(m.len() + 1).map(|(p, k, v)| (*k, (key(p), v.v))).eq(m.iter().map(|(k, e)| (*k, *e)));
        cx.ck(ok, &format!("{l} O01 O04"), || format!("after {what}: wrong entries or order"));
        let ends = (a.first().map(key), a.last().map(key));
        let e = (m.values().next().map(|e| e.0), m.values().next_back().map(|e| e.0));
        cx.ck(ends == e && a.len() == m.len(), &format!("{l} O01"), || format!("after {what}: ends"));
        let lim = 2 * (usize::BITS - (m.len() + 1).leading_zeros()) as usize + 2;
        for (k, e) in m.iter().step_by(1 + m.len() / 300) {
            let r = a.find_key(k).map(key);
            cx.ck(r == Some(e.0), &format!("{l} O02"), || format!("find_key({k}) is {r:?}"));
            let mut cnt = 0;
            let r = a.find_similar_with(|_, x, _| {
                cnt += 1;
                (k + 1).cmp(x)
            });
            cx.ck(cnt <= lim, "O03", || format!("{cnt} comparisons with {} entries", m.len()));
            let ok = r.is_some_and(|(p, o)| match a.get_key(p) {
                Some(x) => (k + 1).cmp(x) == o && o != Ordering::Equal,
                None => false,
            });
            cx.ck(ok, &format!("{l} O02"), || format!("find_similar_with({k} + 1) is {r:?}"));
        }
    };
    for i in 0..n as u64 {
        let k = match how {
            0 => i,
            1 => 1_000_000 - i,
            2 => (i.wrapping_mul(0x9E37_79B9) & 0xfffff) >> 4,
            // outside in
            3 => if i % 2 == 0 { i } else { 1_000_000 - i },
            _ => rng.below(n as u64 * 4),
        } * 2;
        put(&mut a, &mut m, k, i, cx);
    }
    if cx.stop {
        return
    }
    check(&a, &m, cx, "insertions", "");
    let room = if counted::<P>() { gmax::<P>().saturating_sub(10) as usize } else { usize::MAX };
    let kill = (rng.below(n as u64 + 1) as usize).min(room);
    let style = rng.below(4);
    for x in 0..kill {
        let k = match style {
            0 => m.keys().next().copied(),
            1 => m.keys().next_back().copied(),
            // the root region
            2 => m.keys().nth(m.len() / 2).copied(),
            _ => {
                let r = rng.below(2_000_000);
                m.range(r..).next().or(m.iter().next()).map(|e| *e.0)
            }
        };
        let Some(k) = k else { break };
        let (p, v) = m.remove(&k).unwrap();
        let r = a.remove(forge(p.0, p.1));
        cx.ck(r.as_ref().is_some_and(|r| r.0 == k && r.1.v == v), "O04", || {
            format!("removal of {k} gave {:?}", r.as_ref().map(|r| r.0))
        });
        if x % 512 == 511 || (x < 40 && n < 300) {
            check(&a, &m, cx, "removals", "");
        }
        if cx.stop {
            return
        }
    }
    check(&a, &m, cx, "removals", "");
    if m.is_empty() {
        return
    }
    let mut c = a.clone();
    check(&c, &m, cx, "clone", "O05");
    cx.ck(c == a && c.cmp(&a) == Ordering::Equal, "O05", || "a clone differs".to_owned());
    let mut map = BTreeMap::new();
    c.compress_and_shrink_with(|p, _, _, q| {
        map.insert(key(p), key(q));
    });
    let mut e = m.clone();
    for x in e.values_mut() {
        match map.get(&x.0) {
            Some(q) => x.0 = *q,
            None => {
                cx.fail("O05 A06", "compression did not report each entry".to_owned());
                return
            }
        }
    }
    cx.ck(e.values().map(|x| x.0 .0).eq(1..=m.len()), "O05", || {
        "compressed entries are not numbered in key order".to_owned()
    });
    check(&c, &e, cx, "compression", "O05");
    if ser::HAS && std::mem::size_of::<P::Inx>() <= 8 {
        let d = ser::to_bytes(&c, 0).and_then(|b| ser::from_bytes::<OrdArena<P, u64, Tok>>(&b, 0));
        match d {
            Err(e) => cx.fail("E01", format!("round trip: {e}")),
            Ok(d) => {
                let two = if counted::<P>() { 2 } else { 0 };
                for x in e.values_mut() {
                    x.0 .1 = two;
                }
                check(&d, &e, cx, "round trip", "E01");
            }
        }
    }
}

impl<P: Ptr, const KIND: u32> Machine for BigM<P, KIND> {
    fn new(flags: u32) -> Self {
        BigM {
            flags,
            done: false,
            _p: std::marker::PhantomData,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.done {
            return
        }
        let _ = self.flags;
        let mut rng = Rng((op.a as u64) << 32 | op.b as u64);
        self.done = KIND < 5;
        match KIND {
            0 => arena::<P>(&mut rng, cx),
            1 => chain::<P>(&mut rng, cx),
            2 => chain_no_gen::<P>(&mut rng, cx),
            3 => surject::<P>(&mut rng, cx),
            4 => ord::<P>(&mut rng, cx),
            5 => surject_eq::<P>(&mut rng, cx),
            _ => ord_cmp::<P>(&mut rng, cx),
        }
    }

    fn finish(self, cx: &mut Cx) {
        let (live, errs) = reg_state();
        cx.ck(live == 0 && errs == 0, "V01", || {
            format!("{live} elements never dropped, {errs} dropped twice")
        });
    }
}
