//! Serialization: round trips (E01) and malformed input (E02)

use std::collections::{BTreeMap, BTreeSet};

use serde::{de::DeserializeOwned, Serialize};
use triple_arena::{
    utils::ChainNoGenArena, Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena,
};

use crate::{
    arena::{remember, Model},
    kit::*,
};

pub const HAS: bool = true;

pub fn to_bytes<T: Serialize>(t: &T, fmt: u32) -> Result<Vec<u8>, String> {
    if fmt % 2 == 0 {
        postcard::to_allocvec(t).map_err(|e| format!("{e:?}"))
    } else {
        ron::to_string(t).map(|s| s.into_bytes()).map_err(|e| format!("{e:?}"))
    }
}

pub fn from_bytes<T: DeserializeOwned>(b: &[u8], fmt: u32) -> Result<T, String> {
    if fmt % 2 == 0 {
        postcard::from_bytes(b).map_err(|e| format!("{e:?}"))
    } else {
        ron::from_str(std::str::from_utf8(b).map_err(|e| format!("{e:?}"))?)
            .map_err(|e| format!("{e:?}"))
    }
}

pub fn arena_roundtrip<P: Ptr>(
    a: &mut Arena<P, Tok>,
    m: &mut Model,
    pool: &mut Vec<P>,
    op: &Op,
    cx: &mut Cx,
) {
    // the text format does not do 128 bit integers
    let fmt = if std::mem::size_of::<P::Inx>() > 8 { 0 } else { op.a };
    cx.log(|| format!("serialization round trip (format {})", fmt % 2));
    let Some(b) = cx.call("serialize", "E01", Expect::No, || to_bytes(a, fmt)) else { return };
    let Ok(b) = b else {
        cx.fail("E01", format!("serialization failed {b:?}"));
        return
    };
    let Some(d) = cx.call("deserialize", "E01", Expect::No, || {
        from_bytes::<Arena<P, Tok>>(&b, fmt)
    }) else {
        return
    };
    match d {
        Err(e) => cx.fail("E01", format!("deserialization failed: {e}")),
        Ok(d) => {
            let g = if counted::<P>() { 2 } else { 0 };
            let got: BTreeMap<usize, (u128, u64)> =
                d.iter().map(|(p, t)| (key(p).0, (key(p).1, t.v))).collect();
            let e: BTreeMap<usize, (u128, u64)> =
                m.live.iter().map(|(i, e)| (*i, (g, e.1))).collect();
            cx.ck(got == e && d.len() == e.len() && raw(d.generation()) == g, "E01", || {
                format!("round trip made {got:?}, expected {e:?}")
            });
            *a = d;
            m.live = e;
            m.gen = g;
            *pool = vec![P::invalid()];
            for i in m.live.keys() {
                remember(pool, forge(*i, g));
            }
            cx.extra = "E01";
        }
    }
}

/// E02: text in the serialized format, damaged in structural ways
pub struct SerM<P: Ptr> {
    _p: std::marker::PhantomData<P>,
}

fn opt(x: Option<usize>) -> String {
    match x {
        None => "None".to_owned(),
        Some(i) => format!("Some({i})"),
    }
}

impl<P: Ptr> SerM<P> {
    fn small(rng: &mut Rng, n: usize) -> usize {
        // zero is not a valid index, and larger than all is dangling
        match rng.below(12) {
            0 => 0,
            1 => n + 1 + rng.below(3) as usize,
            _ => 1 + rng.below(n.max(1) as u64) as usize,
        }
    }

    fn arena(rng: &mut Rng, cx: &mut Cx) {
        let n = rng.below(7) as usize;
        let ent: Vec<(usize, u64)> =
            (0..n).map(|i| (Self::small(rng, n + 2), 10 + i as u64)).collect();
        let text = format!(
            "{{{}}}",
            ent.iter().map(|(i, v)| format!("{i}:{v}")).collect::<Vec<_>>().join(",")
        );
        let set: BTreeSet<usize> = ent.iter().map(|e| e.0).collect();
        let ok = set.len() == n && !set.contains(&0);
        cx.log(|| format!("Arena from {text}"));
        let Some(r) = cx.call("deserialize", "E02", Expect::No, || {
            from_bytes::<Arena<P, Tok>>(text.as_bytes(), 1)
        }) else {
            return
        };
        cx.ck(r.is_ok() == ok, "E02", || {
            format!("Arena input {text} {}", if ok { "refused" } else { "accepted" })
        });
        if let Ok(mut a) = r {
            let got: BTreeMap<usize, u64> = a.iter().map(|(p, t)| (key(p).0, t.v)).collect();
            let e: BTreeMap<usize, u64> = ent.iter().copied().collect();
            cx.ck(got == e && a.len() == e.len(), "E02 E01", || format!("input {text} gave {got:?}"));
            Self::fill(&mut a, cx, &text);
        }
    }

    fn fill(a: &mut Arena<P, Tok>, cx: &mut Cx, text: &str) {
        let free = a.capacity() - a.len().min(a.capacity());
        let mut used: BTreeSet<usize> = a.ptrs().map(|p| key(p).0).collect();
        let n = used.len();
        let mut got = 0;
        while let Ok(p) = a.try_insert(Tok::new(0)) {
            got += 1;
            if !used.insert(key(p).0) || got > free {
                break
            }
        }
        cx.ck(got == free && used.len() == n + got, "E02 E01", || {
            format!("arena from {text}: {got} slots free, {free} reported")
        });
    }

    fn chain(rng: &mut Rng, cx: &mut Cx, gen: bool) {
        let n = 1 + rng.below(6) as usize;
        let mut nx = vec![None; n + 1];
        let mut pv = vec![None; n + 1];
        for i in 1..=n {
            let j = 1 + rng.below(n as u64) as usize;
            if pv[j].is_none() && rng.below(5) != 0 {
                nx[i] = Some(j);
                pv[j] = Some(i);
            }
        }
        let skip = if rng.below(6) == 0 { 1 + rng.below(n as u64) as usize } else { 0 };
        let mut ent: Vec<(usize, Option<usize>, Option<usize>)> =
            (1..=n).filter(|i| *i != skip).map(|i| (i, pv[i], nx[i])).collect();
        if rng.below(2) == 0 && !ent.is_empty() {
            let k = rng.below(ent.len() as u64) as usize;
            match rng.below(4) {
                0 => ent[k].0 = Self::small(rng, n),
                1 => ent[k].1 = Some(Self::small(rng, n)),
                2 => ent[k].2 = Some(Self::small(rng, n)),
                _ => {
                    if rng.below(2) == 0 {
                        ent[k].1 = None
                    } else {
                        ent[k].2 = None
                    }
                }
            }
        }
        let text = format!(
            "{{{}}}",
            ent.iter()
                .map(|(i, p, q)| format!("{i}:({},{},{})", opt(*p), opt(*q), 100 + i))
                .collect::<Vec<_>>()
                .join(",")
        );
        let by: BTreeMap<usize, (Option<usize>, Option<usize>)> =
            ent.iter().map(|e| (e.0, (e.1, e.2))).collect();
        let ok = by.len() == ent.len()
            && !by.contains_key(&0)
            && by.iter().all(|(i, (p, q))| {
                p.is_none_or(|p| by.get(&p).is_some_and(|e| e.1 == Some(*i)))
                    && q.is_none_or(|q| by.get(&q).is_some_and(|e| e.0 == Some(*i)))
            });
        cx.log(|| format!("chain arena (generations {gen}) from {text}"));
        if gen {
            let Some(r) = cx.call("deserialize", "E02", Expect::No, || {
                from_bytes::<ChainArena<P, Tok>>(text.as_bytes(), 1)
            }) else {
                return
            };
            cx.ck(r.is_ok() == ok, "E02", || {
                format!("ChainArena input {text} {}", if ok { "refused" } else { "accepted" })
            });
            if let (Ok(a), true) = (r, ok) {
                let got: BTreeMap<usize, (Option<usize>, Option<usize>)> = a
                    .iter()
                    .map(|(p, l)| {
                        (key(p).0, (l.prev().map(|p| key(p).0), l.next().map(|p| key(p).0)))
                    })
                    .collect();
                let gens = a.iter().all(|(_, l)| {
                    l.prev().is_none_or(|p| a.contains(p)) && l.next().is_none_or(|p| a.contains(p))
                });
                cx.ck(got == by && gens, "E02 E01", || format!("input {text} gave {got:?}"));
            }
        } else {
            let Some(r) = cx.call("deserialize", "E02", Expect::No, || {
                from_bytes::<ChainNoGenArena<P, Tok>>(text.as_bytes(), 1)
            }) else {
                return
            };
            cx.ck(r.is_ok() == ok, "E02", || {
                format!("ChainNoGenArena input {text} {}", if ok { "refused" } else { "accepted" })
            });
            if let (Ok(a), true) = (r, ok) {
                let got: BTreeMap<usize, (Option<usize>, Option<usize>)> = a
                    .iter()
                    .map(|(p, l)| {
                        (
                            key(p).0,
                            (l.prev().map(|p| raw(p) as usize), l.next().map(|p| raw(p) as usize)),
                        )
                    })
                    .collect();
                cx.ck(got == by, "E02 E01", || format!("input {text} gave {got:?}"));
            }
        }
    }

    fn surject(rng: &mut Rng, cx: &mut Cx) {
        // groups as rings
        let n = rng.below(8) as usize;
        let ng = if n == 0 { 0 } else { 1 + rng.below(n as u64) as usize };
        let mut groups: Vec<Vec<usize>> = vec![vec![]; ng];
        for i in 1..=n {
            let g = if i <= ng { i - 1 } else { rng.below(ng as u64) as usize };
            groups[g].push(i);
        }
        // (index, prev, next, key, value index)
        let mut keys: Vec<(usize, Option<usize>, Option<usize>, u64, usize)> = vec![];
        let mut vals: Vec<(usize, u64, usize)> = vec![];
        for (gi, g) in groups.iter().enumerate() {
            for (x, i) in g.iter().enumerate() {
                let nx = g[(x + 1) % g.len()];
                let pv = g[(x + g.len() - 1) % g.len()];
                keys.push((*i, Some(pv), Some(nx), 100 + *i as u64, gi + 1));
            }
            vals.push((gi + 1, 500 + gi as u64, g.len()));
        }
        for _ in 0..rng.below(3) {
            if keys.is_empty() {
                break
            }
            let k = rng.below(keys.len() as u64) as usize;
            let v = if vals.is_empty() { 0 } else { rng.below(vals.len() as u64) as usize };
            match rng.below(11) {
                0 => keys[k].0 = Self::small(rng, n),
                1 => keys[k].1 = Some(Self::small(rng, n)),
                2 => keys[k].2 = Some(Self::small(rng, n)),
                3 => {
                    // open the ring consistently
                    if let Some(nx) = keys[k].2 {
                        keys[k].2 = None;
                        let i = keys[k].0;
                        for e in &mut keys {
                            if e.0 == nx && e.1 == Some(i) {
                                e.1 = None;
                            }
                        }
                    }
                }
                4 => keys[k].4 = Self::small(rng, ng),
                5 if !vals.is_empty() => vals[v].2 = Self::small(rng, n),
                6 if !vals.is_empty() => vals[v].0 = Self::small(rng, ng),
                7 => vals.push((ng + 1 + rng.below(2) as usize, 999, 1 + rng.below(2) as usize)),
                8 if !vals.is_empty() => {
                    vals.remove(v);
                }
                9 => {
                    keys.remove(k);
                }
                _ => {
                    // exchange successors of two keys, keeping symmetry
                    let l = rng.below(keys.len() as u64) as usize;
                    let (a, b) = (keys[k].2, keys[l].2);
                    let (ia, ib) = (keys[k].0, keys[l].0);
                    keys[k].2 = b;
                    keys[l].2 = a;
                    for e in &mut keys {
                        if Some(e.0) == a {
                            e.1 = Some(ib);
                        } else if Some(e.0) == b {
                            e.1 = Some(ia);
                        }
                    }
                }
            }
        }
        let text = format!(
            "({{{}}},{{{}}})",
            keys.iter()
                .map(|(i, p, q, k, v)| format!("{i}:({},{},({k},{v}))", opt(*p), opt(*q)))
                .collect::<Vec<_>>()
                .join(","),
            vals.iter().map(|(i, v, c)| format!("{i}:({v},{c})")).collect::<Vec<_>>().join(",")
        );
        let by: BTreeMap<usize, _> = keys.iter().map(|e| (e.0, *e)).collect();
        let vby: BTreeMap<usize, _> = vals.iter().map(|e| (e.0, *e)).collect();
        let mut ok = by.len() == keys.len()
            && vby.len() == vals.len()
            && !by.contains_key(&0)
            && !vby.contains_key(&0)
            && vals.iter().all(|v| v.2 != 0);
        let mut parts: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        if ok {
            ok = keys.iter().all(|e| {
                e.1.is_some_and(|p| by.get(&p).is_some_and(|x| x.2 == Some(e.0)))
                    && e.2.is_some_and(|p| by.get(&p).is_some_and(|x| x.1 == Some(e.0)))
                    && vby.contains_key(&e.4)
            });
        }
        if ok {
            // every ring has one value, every value one ring, counts agree
            let mut seen = BTreeSet::new();
            for i in by.keys() {
                if seen.contains(i) {
                    continue
                }
                let mut ring = BTreeSet::new();
                let mut j = *i;
                while ring.insert(j) {
                    j = by[&j].2.unwrap();
                }
                let v = by[i].4;
                if ring.iter().any(|j| by[j].4 != v) || parts.contains_key(&v) || vby[&v].2 != ring.len()
                {
                    ok = false;
                }
                seen.extend(ring.iter().copied());
                parts.insert(v, ring);
            }
            if parts.len() != vals.len() {
                ok = false;
            }
        }
        cx.log(|| format!("surject arena from {text}"));
        let Some(r) = cx.call("deserialize", "E02", Expect::No, || {
            from_bytes::<SurjectArena<P, Tok, Tok>>(text.as_bytes(), 1)
        }) else {
            return
        };
        cx.ck(r.is_ok() == ok, "E02", || {
            format!("SurjectArena input {text} {}", if ok { "refused" } else { "accepted" })
        });
        if let (Ok(mut a), true) = (r, ok) {
            let g = if counted::<P>() { 2 } else { 0 };
            for (i, e) in &by {
                let p: P = forge(*i, g);
                let got = a.get(p).map(|(k, v)| (k.v, v.v));
                let n = a.len_key_set(p).map(|n| n.get());
                cx.ck(
                    got == Some((e.3, vby[&e.4].1)) && n == Some(parts[&e.4].len()),
                    "E02 E01",
                    || format!("input {text} gave {got:?} {n:?} at {i}"),
                );
            }
            if !cx.stop && rng.below(2) == 0 {
                let ps: Vec<P> = by.keys().map(|i| forge(*i, g)).collect();
                let ok = cx.call("use after deserialization", "E02 E01", Expect::No, || {
                    for w in ps.windows(2) {
                        let _ = a.union(w[0], w[1]);
                    }
                    for p in &ps {
                        let _ = a.remove_key(*p);
                    }
                    (a.len_keys(), a.len_vals())
                });
                if let Some(n) = ok {
                    cx.ck(n == (0, 0), "E02 E01", || format!("left {n:?} from {text}"));
                }
            }
        }
    }

    fn ord(rng: &mut Rng, cx: &mut Cx) {
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => 250 + rng.below(12) as usize,
            _ => rng.below(20) as usize,
        };
        let text = format!(
            "{{{}}}",
            (0..n).map(|i| format!("{}:{}", 2 * i + 1, i)).collect::<Vec<_>>().join(",")
        );
        let ok = n <= imax::<P>();
        cx.log(|| format!("ordered arena with {n} entries"));
        let Some(r) = cx.call("deserialize", "E02 E01", Expect::No, || {
            from_bytes::<OrdArena<P, u64, u64>>(text.as_bytes(), 1)
        }) else {
            return
        };
        cx.ck(r.is_ok() == ok, "E02", || format!("ordered arena of {n} entries, {ok} expected"));
        if let Ok(mut a) = r {
            if !ok {
                return
            }
            let got: Vec<(usize, u64, u64)> =
                a.iter().take(n + 2).map(|(p, k, v)| (key(p).0, *k, *v)).collect();
            let e: Vec<(usize, u64, u64)> =
                (0..n).map(|i| (i + 1, 2 * i as u64 + 1, i as u64)).collect();
            cx.ck(got == e, "E02 E01", || format!("ordered arena of {n} entries is {got:?}"));
            let f = crate::ord::structure(&a);
            cx.ck(f.is_ok(), "E02 E01 O03", || format!("{n} entries deserialized: {f:?}"));
            if n < imax::<P>() && !cx.stop {
                let _ = cx.call("insert after deserialization", "E02 E01", Expect::No, || {
                    let k = rng.below(2 * n as u64 + 2) & !1;
                    let (p, r) = a.insert(k, 7);
                    assert!(r.is_none());
                    assert_eq!(a.find_key(&k), Some(p));
                });
            }
            let mut adv = a.advancer();
            let mut c = 0;
            while adv.advance(&a).is_some() {
                c += 1;
                if c > n + 2 {
                    break
                }
            }
        }
    }

    fn noise(rng: &mut Rng, cx: &mut Cx) {
        // arbitrary bytes for the binary format, small enough not to ask for huge indexes
        let n = rng.below(24) as usize;
        let b: Vec<u8> = (0..n)
            .map(|_| match rng.below(4) {
                0 => rng.below(4) as u8,
                1 => rng.below(12) as u8,
                _ => rng.below(128) as u8,
            })
            .collect();
        cx.log(|| format!("bytes {b:?}"));
        let k = rng.below(5);
        let _ = cx.call("deserialize bytes", "E02", Expect::No, || match k {
            0 => {
                if let Ok(a) = from_bytes::<Arena<P, Tok>>(&b, 0) {
                    Arena::_check_invariants(&a).unwrap();
                }
            }
            1 => {
                if let Ok(a) = from_bytes::<ChainArena<P, Tok>>(&b, 0) {
                    ChainArena::_check_invariants(&a).unwrap();
                }
            }
            2 => {
                if let Ok(a) = from_bytes::<ChainNoGenArena<P, Tok>>(&b, 0) {
                    ChainNoGenArena::_check_invariants(&a).unwrap();
                }
            }
            3 => {
                if let Ok(a) = from_bytes::<SurjectArena<P, Tok, Tok>>(&b, 0) {
                    SurjectArena::_check_invariants(&a).unwrap();
                }
            }
            _ => {
                if let Ok(a) = from_bytes::<OrdArena<P, u64, u64>>(&b, 0) {
                    crate::ord::structure(&a).unwrap();
                }
            }
        });
    }
}

impl<P: Ptr> Machine for SerM<P> {
    fn new(_: u32) -> Self {
        SerM {
            _p: std::marker::PhantomData,
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        let mut rng = Rng(((op.a as u64) << 32) | op.b as u64);
        match op.code % 9 {
            0 | 1 => Self::arena(&mut rng, cx),
            2 | 3 => Self::chain(&mut rng, cx, op.c % 2 == 0),
            4 | 5 => Self::surject(&mut rng, cx),
            6 => {
                if op.c % 4 == 0 {
                    Self::ord(&mut rng, cx)
                }
            }
            _ => Self::noise(&mut rng, cx),
        }
    }

    fn finish(self, _: &mut Cx) {}
}
