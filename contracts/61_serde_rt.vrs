@@module serde_rt traits/serde.rs
@@text
use crate::serde_spec::*;
use crate::ord_build::{packed, counting};
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas, serde_defs, serde_ptr_defs};
@@text props=E01
/// What was stored for `t` is read without an error, and `r` relates `t` to what is read
pub open spec fn reads<T>(r: spec_fn(T, T) -> bool) -> bool {
    &&& forall|t: T, f: Form| #[trigger] writes(t, f) ==> fine::<T>(f)
    &&& forall|t: T, f: Form, u: T| #[trigger] writes(t, f) && #[trigger] took(f, u) ==> r(t, u)
}

pub open spec fn eqs<T>() -> spec_fn(T, T) -> bool {
    |t: T, u: T| t == u
}

/// the same elements at the same indexes, with the first generation
pub open spec fn back<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>, r: spec_fn(T, T) -> bool) -> bool {
    &&& cnt(m) == cnt(n)
    &&& forall|j: int| #![trigger ent(m, j)] #![trigger ent(n, j)] match (ent(m, j), ent(n, j)) {
        (Some((_, t)), Some((g, u))) => g.gval() == 2 && r(t, u),
        (None, None) => true,
        _ => false,
    }
}

/// Arenas round trip
pub proof fn lemma_arena_back<P: Ptr, T>(a: Arena<P, T>, f: Form, r: spec_fn(T, T) -> bool)
    requires writes(a, f), reads::<P::Inx>(eqs()), reads::<T>(r),
    ensures fine::<Arena<P, T>>(f), forall|b: Arena<P, T>| #[trigger] took(f, b) ==> b.wf() && b.gen() == 2 && back(a.m@, b.m@, r),
{
    let s = f->Map_0;
    let e = choose|e: Seq<(P::Inx, T)>| #[trigger] arena_put(s, e, a);
    let m = a.m@;
    assert(m.take(m.len() as int) =~= m);
    assert forall|k: int| 0 <= k < s.len() implies fine::<P::Inx>((#[trigger] s[k]).0) && fine::<T>(s[k].1) by {
        assert(writes(e[k].0, s[k].0) && writes(e[k].1, s[k].1));
    }
    assert forall|d: Seq<(P::Inx, T)>| d.len() <= s.len() && #[trigger] pairs_of(s.take(d.len() as int), d) implies distinct(d) by {
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).0 == e[k].0 by {
            assert(s.take(d.len() as int)[k] == s[k]);
            assert(eqs::<P::Inx>()(e[k].0, d[k].0));
        }
        assert forall|j: int, k: int| #![trigger d[j], d[k]] 0 <= j < k < d.len() implies nidx(d[j].0) != nidx(d[k].0) by {
            assert(nidx(e[j].0) != nidx(e[k].0));
        }
    }
    assert forall|b: Arena<P, T>| #[trigger] took(f, b) implies b.wf() && b.gen() == 2 && back(m, b.m@, r) by {
        let d = choose|d: Seq<(P::Inx, T)>| #[trigger] arena_of(s, d, b);
        let n = b.m@;
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] d[k]).0 == e[k].0 && r(e[k].1, d[k].1) by {
            assert(writes(e[k].0, s[k].0) && writes(e[k].1, s[k].1));
            assert(took(s[k].0, d[k].0) && took(s[k].1, d[k].1));
            assert(eqs::<P::Inx>()(e[k].0, d[k].0));
        }
        assert forall|j: int| #![trigger ent(m, j)] #![trigger ent(n, j)] (match (ent(m, j), ent(n, j)) {
            (Some((_, t)), Some((g, u))) => g.gval() == 2 && r(t, u),
            (None, None) => true,
            _ => false,
        }) by {
            if ent(m, j) is Some {
                let k = choose|k: int| 0 <= k < e.len() && nidx((#[trigger] e[k]).0) == j;
                assert(d[k].0 == e[k].0);
            }
            if ent(n, j) is Some {
                let k = choose|k: int| 0 <= k < d.len() && nidx((#[trigger] d[k]).0) == j;
                assert(d[k].0 == e[k].0);
                assert(nidx(e[k].0) == j);
            }
        }
    }
}

// Assumed of `Option`: nothing is read as nothing, something as something
pub open spec fn opts<T>(r: spec_fn(T, T) -> bool) -> spec_fn(Option<T>, Option<T>) -> bool {
    |a: Option<T>, b: Option<T>| match (a, b) {
        (Some(x), Some(y)) => r(x, y),
        (None, None) => true,
        _ => false,
    }
}
pub axiom fn ax_option_ptr<P: Ptr>(r: spec_fn(P, P) -> bool)
    requires reads::<P>(r),
    ensures reads::<Option<P>>(opts(r));
pub axiom fn ax_option_inx<I: PtrInx>(r: spec_fn(I, I) -> bool)
    requires reads::<I>(r),
    ensures reads::<Option<I>>(opts(r));

/// Pointers round trip, except for the generation
pub proof fn lemma_ptr_back<P: Ptr>()
    requires reads::<P::Inx>(eqs()),
    ensures reads::<Option<P>>(ptrs()), reads::<Option<P::Inx>>(eqs()), reads::<PtrNoGen<P>>(eqs()),
{
    let r = |p: P, q: P| p.sinx() == q.sinx() && q.sgen().gval() == 2;
    assert forall|t: P, f: Form, u: P| #[trigger] writes(t, f) && #[trigger] took(f, u) implies r(t, u) by {
        assert(eqs::<P::Inx>()(t.sinx(), u.sinx()));
    }
    ax_option_ptr::<P>(r);
    assert forall|t: Option<P>, f: Form, u: Option<P>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies ptrs::<P>()(t, u) by {
        assert(opts(r)(t, u));
    }
    ax_option_inx::<P::Inx>(eqs());
    assert forall|t: Option<P::Inx>, f: Form, u: Option<P::Inx>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies eqs::<Option<P::Inx>>()(t, u) by {
        assert(opts(eqs::<P::Inx>())(t, u));
        if t is Some && u is Some { assert(eqs::<P::Inx>()(t.unwrap(), u.unwrap())); }
    }
    assert forall|t: PtrNoGen<P>, f: Form, u: PtrNoGen<P>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies eqs::<PtrNoGen<P>>()(t, u) by {
        assert(eqs::<P::Inx>()(t.sinx(), u.sinx()));
    }
}

/// the same element, of the first generation
pub open spec fn ptrs<P: Ptr>() -> spec_fn(Option<P>, Option<P>) -> bool {
    |a: Option<P>, b: Option<P>| match (a, b) {
        (Some(p), Some(q)) => p.sinx() == q.sinx() && q.sgen().gval() == 2,
        (None, None) => true,
        _ => false,
    }
}

pub open spec fn links<P: Ptr, T>(r: spec_fn(T, T) -> bool) -> spec_fn(Link<P, T>, Link<P, T>) -> bool {
    |l: Link<P, T>, k: Link<P, T>| ptrs::<P>()(l.prev_next.0, k.prev_next.0) && ptrs::<P>()(l.prev_next.1, k.prev_next.1) && r(l.t, k.t)
}

pub proof fn lemma_link_back<P: Ptr, T>(r: spec_fn(T, T) -> bool)
    requires reads::<Option<P>>(ptrs()), reads::<T>(r),
    ensures reads::<Link<P, T>>(links(r)),
{
    assert forall|t: Link<P, T>, f: Form, u: Link<P, T>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies links(r)(t, u) by {
        assert(took::<(Option<P>, Option<P>, T)>(f, (u.prev_next.0, u.prev_next.1, u.t)));
    }
    assert forall|t: Link<P, T>, f: Form| #[trigger] writes(t, f) implies fine::<Link<P, T>>(f) by {
        assert(fine::<(Option<P>, Option<P>, T)>(f));
    }
}

/// Chain arenas round trip
pub proof fn lemma_chain_back<P: Ptr, T>(c: ChainArena<P, T>, f: Form, r: spec_fn(T, T) -> bool)
    requires c.wf(), writes(c, f), reads::<P::Inx>(eqs()), reads::<T>(r),
    ensures fine::<ChainArena<P, T>>(f), forall|d: ChainArena<P, T>| #[trigger] took(f, d) ==> d.wf() && d.a.gen() == 2 && back(c.a.m@, d.a.m@, links(r)),
{
    lemma_ptr_back::<P>();
    lemma_link_back::<P, T>(r);
    lemma_arena_back(c.a, f, links(r));
    let m = c.a.m@;
    assert forall|b: Arena<P, Link<P, T>>| #[trigger] took(f, b) implies sym(b.m@) by {
        let n = b.m@;
        assert forall|i: int| (match #[trigger] ent(n, i) { Some((g, l)) => sym_at(n, i, g, l), None => true }) by {
            if ent(n, i) is Some {
                let (g, l) = ent(n, i).unwrap();
                let (g0, l0) = ent(m, i).unwrap();
                assert(links(r)(l0, l));
                assert(sym_at(m, i, g0, l0));
                if l.prev_next.1 is Some { lemma_other(m, n, r, i, l0.prev_next.1.unwrap(), l.prev_next.1.unwrap()); }
                if l.prev_next.0 is Some { lemma_other(m, n, r, i, l0.prev_next.0.unwrap(), l.prev_next.0.unwrap()); }
            }
        }
    }
}

proof fn lemma_other<P: Ptr, T>(m: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, r: spec_fn(T, T) -> bool, i: int, q0: P, q: P)
    requires back(m, n, links(r)), q.sinx() == q0.sinx(), q.sgen().gval() == 2, entx(m, idx(q0)) is Some, ent(m, i) is Some,
    ensures entx(n, idx(q)) matches Some((h, k)) && h == q.sgen()
        && (entx(m, idx(q0)).unwrap().1.prev_next.0 == Some(mkp::<P>(i, ent(m, i).unwrap().0)) ==> k.prev_next.0 == Some(mkp::<P>(i, ent(n, i).unwrap().0)))
        && (entx(m, idx(q0)).unwrap().1.prev_next.1 == Some(mkp::<P>(i, ent(m, i).unwrap().0)) ==> k.prev_next.1 == Some(mkp::<P>(i, ent(n, i).unwrap().0))),
{
    assert(ent(m, idx(q0)) is Some);
    let (h0, k0) = ent(m, idx(q0)).unwrap();
    let (h, k) = ent(n, idx(q)).unwrap();
    assert(links(r)(k0, k));
    let g = ent(n, i).unwrap().0;
    assert(h.gval() == q.sgen().gval() && g.gval() == 2);
    assert(k.prev_next.0 matches Some(p) ==> p.sgen().gval() == g.gval());
    assert(k.prev_next.1 matches Some(p) ==> p.sgen().gval() == g.gval());
}

pub open spec fn nlinks<P: Ptr, T>(r: spec_fn(T, T) -> bool) -> spec_fn(LinkNoGen<P, T>, LinkNoGen<P, T>) -> bool {
    |l: LinkNoGen<P, T>, k: LinkNoGen<P, T>| l.prev_next == k.prev_next && r(l.t, k.t)
}

pub proof fn lemma_nlink_back<P: Ptr, T>(r: spec_fn(T, T) -> bool)
    requires reads::<Option<P::Inx>>(eqs()), reads::<T>(r),
    ensures reads::<LinkNoGen<P, T>>(nlinks(r)),
{
    assert forall|t: LinkNoGen<P, T>, f: Form, u: LinkNoGen<P, T>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies nlinks(r)(t, u) by {
        assert(took::<(Option<P::Inx>, Option<P::Inx>, T)>(f, (u.prev_next.0, u.prev_next.1, u.t)));
        assert(eqs::<Option<P::Inx>>()(t.prev_next.0, u.prev_next.0));
        assert(eqs::<Option<P::Inx>>()(t.prev_next.1, u.prev_next.1));
    }
    assert forall|t: LinkNoGen<P, T>, f: Form| #[trigger] writes(t, f) implies fine::<LinkNoGen<P, T>>(f) by {
        assert(fine::<(Option<P::Inx>, Option<P::Inx>, T)>(f));
    }
}

/// Chain arenas without generations round trip
pub proof fn lemma_nchain_back<P: Ptr, T>(c: ChainNoGenArena<P, T>, f: Form, r: spec_fn(T, T) -> bool)
    requires c.wf(), writes(c, f), reads::<P::Inx>(eqs()), reads::<T>(r),
    ensures fine::<ChainNoGenArena<P, T>>(f), forall|d: ChainNoGenArena<P, T>| #[trigger] took(f, d) ==> d.wf() && d.a.gen() == 2 && back(c.a.m@, d.a.m@, nlinks(r)),
{
    lemma_ptr_back::<P>();
    lemma_nlink_back::<P, T>(r);
    lemma_arena_back(c.a, f, nlinks(r));
    let m = c.a.m@;
    assert forall|b: Arena<P, LinkNoGen<P, T>>| #[trigger] took(f, b) implies nsym(b.m@) by {
        let n = b.m@;
        assert forall|i: int| (match #[trigger] ent(n, i) { Some((g, l)) => nsym_at(n, i, g, l), None => true }) by {
            if ent(n, i) is Some {
                let (g, l) = ent(n, i).unwrap();
                let (g0, l0) = ent(m, i).unwrap();
                assert(nlinks(r)(l0, l));
                assert(nsym_at(m, i, g0, l0));
                if l.prev_next.1 is Some { lemma_nother(m, n, r, nidx(l.prev_next.1.unwrap())); }
                if l.prev_next.0 is Some { lemma_nother(m, n, r, nidx(l.prev_next.0.unwrap())); }
            }
        }
    }
}

proof fn lemma_nother<P: Ptr, T>(m: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, r: spec_fn(T, T) -> bool, i: int)
    requires back(m, n, nlinks(r)), entx(m, i) is Some,
    ensures entx(n, i) matches Some((h, k)) && k.prev_next == entx(m, i).unwrap().1.prev_next,
{
    assert(ent(m, i) is Some);
    assert(nlinks(r)(ent(m, i).unwrap().1, ent(n, i).unwrap().1));
}

pub open spec fn keysame<P: Ptr, K>(r: spec_fn(K, K) -> bool) -> spec_fn(Key<P, K>, Key<P, K>) -> bool {
    |a: Key<P, K>, b: Key<P, K>| r(a.k, b.k) && a.p_val == b.p_val
}

pub open spec fn valsame<V>(r: spec_fn(V, V) -> bool) -> spec_fn(Val<V>, Val<V>) -> bool {
    |a: Val<V>, b: Val<V>| r(a.v, b.v) && a.key_count == b.key_count
}

pub proof fn lemma_key_back<P: Ptr, K>(r: spec_fn(K, K) -> bool)
    requires reads::<K>(r), reads::<PtrNoGen<P>>(eqs()),
    ensures reads::<Key<P, K>>(keysame(r)),
{
    assert forall|t: Key<P, K>, f: Form, u: Key<P, K>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies keysame(r)(t, u) by {
        assert(took::<(K, PtrNoGen<P>)>(f, (u.k, u.p_val)));
        assert(eqs::<PtrNoGen<P>>()(t.p_val, u.p_val));
    }
    assert forall|t: Key<P, K>, f: Form| #[trigger] writes(t, f) implies fine::<Key<P, K>>(f) by {
        assert(fine::<(K, PtrNoGen<P>)>(f));
    }
}

pub proof fn lemma_val_back<V>(r: spec_fn(V, V) -> bool)
    requires reads::<V>(r), reads::<NonZeroUsize>(eqs()),
    ensures reads::<Val<V>>(valsame(r)),
{
    assert forall|t: Val<V>, f: Form, u: Val<V>| #[trigger] writes(t, f) && #[trigger] took(f, u) implies valsame(r)(t, u) by {
        assert(took::<(V, NonZeroUsize)>(f, (u.v, u.key_count)));
        assert(eqs::<NonZeroUsize>()(t.key_count, u.key_count));
    }
    assert forall|t: Val<V>, f: Form| #[trigger] writes(t, f) implies fine::<Val<V>>(f) by {
        assert(fine::<(V, NonZeroUsize)>(f));
    }
}

/// Surject arenas round trip
pub proof fn lemma_surject_back<P: Ptr, K, V>(x: SurjectArena<P, K, V>, f: Form, r: spec_fn(K, K) -> bool, q: spec_fn(V, V) -> bool)
    requires x.wf(), writes(x, f), reads::<P::Inx>(eqs()), reads::<NonZeroUsize>(eqs()), reads::<K>(r), reads::<V>(q),
    ensures fine::<SurjectArena<P, K, V>>(f), forall|y: SurjectArena<P, K, V>| #[trigger] took(f, y) ==> y.wf() && y.keys.a.gen() == 2
        && back(x.keys.a.m@, y.keys.a.m@, nlinks(keysame(r))) && back(x.vals.m@, y.vals.m@, valsame(q)),
{
    let s = f->Row_0;
    lemma_ptr_back::<P>();
    lemma_key_back::<P, K>(r);
    lemma_val_back::<V>(q);
    lemma_nchain_back(x.keys, s[0], keysame(r));
    lemma_arena_back(x.vals, s[1], valsame(q));
    assert(fine::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f));
    assert forall|y: SurjectArena<P, K, V>| #[trigger] took::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f, (y.keys, y.vals)) implies surj(y.keys.a.m@, y.vals.m@) by {
        assert(took(s[0], y.keys) && took(s[1], y.vals));
        lemma_surj_back(x.keys.a.m@, y.keys.a.m@, x.vals.m@, y.vals.m@, r, q);
    }
    assert forall|y: SurjectArena<P, K, V>| #[trigger] took(f, y) implies y.wf() && y.keys.a.gen() == 2
        && back(x.keys.a.m@, y.keys.a.m@, nlinks(keysame(r))) && back(x.vals.m@, y.vals.m@, valsame(q)) by {
        assert(took::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f, (y.keys, y.vals)));
    }
}

proof fn lemma_surj_back<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, n: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, z: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, r: spec_fn(K, K) -> bool, q: spec_fn(V, V) -> bool)
    requires surj(m, w), back(m, n, nlinks(keysame(r))), back(w, z, valsame(q)),
    ensures surj(n, z),
{
    assert forall|i: int| #[trigger] kv(n, i) == kv(m, i) by { assert(ent(m, i) is Some <==> ent(n, i) is Some); if ent(m, i) is Some { assert(nlinks::<P, Key<P, K>>(keysame(r))(ent(m, i).unwrap().1, ent(n, i).unwrap().1)); } }
    assert forall|p: P::Inx| #[trigger] knx(n, p) == knx(m, p) by { let i = p.ival(); assert(ent(m, i) is Some <==> ent(n, i) is Some); if ent(m, i) is Some { assert(nlinks::<P, Key<P, K>>(keysame(r))(ent(m, i).unwrap().1, ent(n, i).unwrap().1)); } }
    assert forall|v: int| #![trigger ent(z, v)] (match ent(z, v) { Some((_, x)) => set_ok(n, v, x.key_count@ as int), None => true }) by {
        if ent(z, v) is Some {
            let c = ent(w, v).unwrap().1.key_count;
            assert(valsame(q)(ent(w, v).unwrap().1, ent(z, v).unwrap().1));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s) && s.len() == c@;
            assert(set_of(n, v, s));
        }
    }
    assert forall|i: int| #![trigger kv(n, i)] #![trigger ent(n, i)] (match kv(n, i) { Some(v) => ent(z, v) is Some, None => true }) by {
        assert(kv(n, i) == kv(m, i));
        if kv(m, i) is Some { assert(ent(w, kv(m, i).unwrap()) is Some); }
    }
}

/// the same pairs at the same indexes, in the same order
pub open spec fn pairs_back<P: Ptr, K, V>(o: OrdArena<P, K, V>, d: OrdArena<P, K, V>, r: spec_fn(K, K) -> bool, q: spec_fn(V, V) -> bool) -> bool {
    &&& o.order() == d.order() && o.a.a.len == d.a.a.len
    &&& forall|k: int| #![trigger o.order()[k]] 0 <= k < o.order().len() ==> r(o.key(o.order()[k]), d.key(o.order()[k])) && q(o.value(o.order()[k]), d.value(o.order()[k]))
}

/// Ordered arenas round trip; only compressed ones are stored at all
pub proof fn lemma_ord_back<P: Ptr, K, V>(o: OrdArena<P, K, V>, f: Form, r: spec_fn(K, K) -> bool, q: spec_fn(V, V) -> bool)
    requires o.wf(), writes(o, f), reads::<K>(r), reads::<V>(q),
    ensures fine::<OrdArena<P, K, V>>(f), forall|d: OrdArena<P, K, V>| #[trigger] took(f, d) ==> d.wf() && d.a.a.gen() == 2 && pairs_back(o, d, r, q),
{
    lemma_wit(o);
    let s = f->Map_0;
    let e = choose|e: Seq<(K, V)>| #[trigger] ord_put(s, e, o);
    assert forall|k: int| 0 <= k < s.len() implies fine::<K>((#[trigger] s[k]).0) && fine::<V>(s[k].1) by {
        assert(writes(e[k].0, s[k].0) && writes(e[k].1, s[k].1));
    }
    assert forall|d: OrdArena<P, K, V>| #[trigger] took(f, d) implies d.wf() && d.a.a.gen() == 2 && pairs_back(o, d, r, q) by {
        let c = choose|c: Seq<(K, V)>| #[trigger] ord_of(s, c, d);
        assert forall|k: int| #![trigger o.order()[k]] 0 <= k < o.order().len() implies r(o.key(o.order()[k]), d.key(o.order()[k])) && q(o.value(o.order()[k]), d.value(o.order()[k])) by {
            assert(o.order()[k] == <P::Inx as PtrInx>::simk(k + 1));
            assert(writes(e[k].0, s[k].0) && writes(e[k].1, s[k].1));
            assert(took(s[k].0, c[k].0) && took(s[k].1, c[k].1));
        }
    }
}
