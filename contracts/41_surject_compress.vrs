@@module surject_compress surject/surject_arena.rs
@@text
use crate::chain_no_gen_arena::*;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@text props=S01,S03
pub type ValEnt<P, V> = InternalEntry<PtrNoGen<P>, Val<V>>;

#[verifier::prophetic]
pub open spec fn called4<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(f: F, p: P, k0: K, k1: K, v0: V, v1: V, q: P) -> bool {
    exists|x: &mut K, y: &mut V| *x == k0 && *final(x) == k1 && *y == v0 && *final(y) == v1 && #[trigger] f.ensures((p, x, y, q), ())
}

/// `f` does not change keys
#[verifier::prophetic]
pub open spec fn keeps_keys<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(f: F) -> bool {
    forall|p: P, x: &mut K, y: &mut V, q: P| #[trigger] f.ensures((p, x, y, q), ()) ==> *final(x) == *x
}

/// `f` does not change values
#[verifier::prophetic]
pub open spec fn keeps_vals<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(f: F) -> bool {
    forall|p: P, x: &mut K, y: &mut V, q: P| #[trigger] f.ensures((p, x, y, q), ()) ==> *final(y) == *y
}

/// `u` is the first free slot
pub open spec fn first_free<P: Ptr, V>(w: Seq<ValEnt<P, V>>, u: Option<NonZeroUsize>) -> bool {
    match u {
        Some(u) => 1 <= u@ <= w.len() && ent(w, u@ as int) is None && forall|j: int| #![trigger ent(w, j)] 1 <= j < u@ ==> ent(w, j) is Some,
        None => forall|j: int| #![trigger ent(w, j)] 1 <= j <= w.len() ==> ent(w, j) is Some,
    }
}

/// the values after the one at `i` moved to the first free slot, if it is
/// before `i`
pub open spec fn settled<P: Ptr, V>(w: Seq<ValEnt<P, V>>, u: Option<NonZeroUsize>, i: int, fresh: bool) -> Seq<ValEnt<P, V>> {
    if fresh && u is Some && i > u.unwrap()@ {
        w.update(u.unwrap()@ - 1, w[i - 1]).update(i - 1, w[u.unwrap()@ - 1])
    } else {
        w
    }
}

/// where that value is afterwards
pub open spec fn settled_at<I: PtrInx>(u: Option<NonZeroUsize>, n: Option<I>, i: int, fresh: bool) -> int {
    if fresh {
        if u is Some && i > u.unwrap()@ { u.unwrap()@ as int } else { i }
    } else if n is Some {
        n.unwrap().ival()
    } else {
        i
    }
}

/// the effect of visiting a key with the value at `i`
pub open spec fn visited<P: Ptr, V>(w: Seq<ValEnt<P, V>>, w2: Seq<ValEnt<P, V>>, u: Option<NonZeroUsize>, u2: Option<NonZeroUsize>, i: int, fresh: bool, t: int) -> bool {
    let w1 = settled(w, u, i, fresh);
    &&& w2 == w1.update(t - 1, w2[t - 1])
    &&& first_free(w2, u2)
    &&& if fresh && u is Some && i > u.unwrap()@ { u2 is Some ==> u2.unwrap()@ > u.unwrap()@ } else { u2 == u }
    &&& match (ent(w1, t), ent(w2, t)) { (Some((_, x)), Some((_, y))) => x.key_count == y.key_count, _ => false }
}

@@fn SurjectArena::compress_and_shrink_with lift=0 name=visit_key props=S01,S03
    requires old(vals).m.wf(), old(vals).cap() <= <P::Inx as PtrInx>::maxi(), first_free(old(vals).m@, *old(first_unallocated)),
        forall|p: P, x: &mut K, y: &mut V, q: P| map.requires((p, x, y, q)),
        ent(old(vals).m@, if *old(p_val_last) == Some(old(key).p_val) { settled_at(*old(first_unallocated), *old(new_p_val), nidx(old(key).p_val._internal_inx), false) } else { nidx(old(key).p_val._internal_inx) }) is Some,
    ensures final(vals).m.wf(), final(vals).cap() == old(vals).cap(), final(vals).len == old(vals).len, final(vals).generation == old(vals).generation,
        *final(p_val_last) == Some(old(key).p_val),
        ({
            let i = nidx(old(key).p_val._internal_inx);
            let fresh = *old(p_val_last) != Some(old(key).p_val);
            let t = settled_at(*old(first_unallocated), *old(new_p_val), i, fresh);
            &&& nidx(final(key).p_val._internal_inx) == t
            &&& match *final(new_p_val) { Some(n) => n.ival() == t, None => i == t }
            &&& visited(old(vals).m@, final(vals).m@, *old(first_unallocated), *final(first_unallocated), i, fresh, t)
            &&& called4(*map, p, old(key).k, final(key).k, ent(settled(old(vals).m@, *old(first_unallocated), i, fresh), t).unwrap().1.v, ent(final(vals).m@, t).unwrap().1.v, q)
        }),
@captures
vals: &mut Arena<PtrNoGen<P>, Val<V>> = self.vals
first_unallocated: &mut Option<NonZeroUsize> = first_unallocated
p_val_last: &mut Option<PtrNoGen<P>> = p_val_last
new_p_val: &mut Option<P::Inx> = new_p_val
map: &F = map
@params
P
&mut Key<P, K>
P
@loop 0
    invariant
        vals.m.wf(), vals.cap() <= <P::Inx as PtrInx>::maxi(), i_unallocated@ < j <= vals.m@.len() + 1,
        forall|k: int| #![trigger ent(vals.m@, k)] 1 <= k < j ==> ent(vals.m@, k) is Some,
    ensures first_free(vals.m@, *first_unallocated), *first_unallocated is Some ==> first_unallocated.unwrap()@ > i_unallocated@,
    decreases vals.m@.len() + 1 - j,
@@text props=S01,S03
/// where the value that was at `v` is
pub open spec fn loc(vf: Map<int, int>, v: int) -> int {
    if vf.dom().contains(v) { vf[v] } else { v }
}

/// The values `o` were moved to where `vf` says, or not yet. Those moved are
/// before the first free slot.
pub open spec fn vmoving<P: Ptr, V>(keep: bool, o: Seq<ValEnt<P, V>>, w: Seq<ValEnt<P, V>>, vf: Map<int, int>, vb: Map<int, int>, u: Option<NonZeroUsize>) -> bool {
    &&& w.len() == o.len() && cnt(w) == cnt(o) && first_free(w, u)
    &&& forall|v: int| #![trigger ent(o, v)] #![trigger vf.dom().contains(v)] match ent(o, v) {
        Some((_, x)) => vb[loc(vf, v)] == v && match ent(w, loc(vf, v)) { Some((_, y)) => y.key_count == x.key_count && (keep ==> y.v == x.v), None => false },
        None => !vf.dom().contains(v),
    }
    &&& forall|j: int| #![trigger ent(w, j)] ent(w, j) is Some ==> ent(o, vb[j]) is Some && loc(vf, vb[j]) == j
    &&& forall|v: int| #[trigger] vf.dom().contains(v) ==> match u { Some(u) => vf[v] < u@, None => true }
}

/// the values of the keys that were moved, and no others, were moved
pub open spec fn vkeys<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> kv(m, i) is Some && vf.dom().contains(kv(m, i).unwrap()) && nidx(u[i].p_val._internal_inx) == vf[kv(m, i).unwrap()]
    &&& forall|v: int| #[trigger] vf.dom().contains(v) ==> exists|i: int| #[trigger] f.dom().contains(i) && kv(m, i) == Some(v)
}

/// the value visited last
pub open spec fn vlast<P: Ptr>(vf: Map<int, int>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>) -> bool {
    match l {
        Some(p) => vf.dom().contains(nidx(p._internal_inx)) && vf[nidx(p._internal_inx)] == match n { Some(n) => n.ival(), None => nidx(p._internal_inx) },
        None => true,
    }
}

pub open spec fn vb_after(vb: Map<int, int>, u: Option<NonZeroUsize>, v: int, fresh: bool) -> Map<int, int> {
    if fresh && u is Some && v > u.unwrap()@ { vb.insert(u.unwrap()@ as int, v) } else { vb }
}

pub proof fn lemma_visited<P: Ptr, V>(keep: bool, o: Seq<ValEnt<P, V>>, w: Seq<ValEnt<P, V>>, w2: Seq<ValEnt<P, V>>, vf: Map<int, int>, vb: Map<int, int>, u: Option<NonZeroUsize>, u2: Option<NonZeroUsize>, n: Option<P::Inx>, v: int, fresh: bool)
    requires vmoving(keep, o, w, vf, vb, u), ent(o, v) is Some, fresh <==> !vf.dom().contains(v), !fresh ==> vf[v] == settled_at(u, n, v, false),
        visited(w, w2, u, u2, v, fresh, settled_at(u, n, v, fresh)),
        ({
            let t = settled_at(u, n, v, fresh);
            keep ==> ent(w2, t).unwrap().1.v == ent(settled(w, u, v, fresh), t).unwrap().1.v
        }),
    ensures vmoving(keep, o, w2, vf.insert(v, settled_at(u, n, v, fresh)), vb_after(vb, u, v, fresh), u2),
{
    let t = settled_at(u, n, v, fresh);
    let w1 = settled(w, u, v, fresh);
    let vf2 = vf.insert(v, t);
    let vb2 = vb_after(vb, u, v, fresh);
    assert(ent(w, loc(vf, v)) is Some);
    if fresh && u is Some && v > u.unwrap()@ {
        let x = u.unwrap()@ as int;
        lemma_cnt_update(w, x - 1, w[v - 1]);
        lemma_cnt_update(w.update(x - 1, w[v - 1]), v - 1, w[x - 1]);
        assert(cnt(w1) == cnt(w));
    }
    lemma_cnt_update(w1, t - 1, w2[t - 1]);
    assert forall|a: int| #![trigger ent(o, a)] #![trigger vf2.dom().contains(a)] match ent(o, a) {
        Some((_, x)) => vb2[loc(vf2, a)] == a && match ent(w2, loc(vf2, a)) { Some((_, y)) => y.key_count == x.key_count && (keep ==> y.v == x.v), None => false },
        None => !vf2.dom().contains(a),
    } by {
        if ent(o, a) is Some {
            assert(vb[loc(vf, a)] == a);
            assert(ent(w, loc(vf, a)) is Some);
            assert(vb[loc(vf, v)] == v);
            if a != v {
                assert(loc(vf, a) == loc(vf2, a));
            }
        } else {
            assert(!vf.dom().contains(a));
        }
    }
    assert forall|j: int| #![trigger ent(w2, j)] ent(w2, j) is Some implies ent(o, vb2[j]) is Some && loc(vf2, vb2[j]) == j by {
        if j != t {
            assert(ent(w, j) is Some);
        }
    }
    assert forall|a: int| #[trigger] vf2.dom().contains(a) implies match u2 { Some(u) => vf2[a] < u@, None => true } by {
        if a != v { assert(vf.dom().contains(a)); }
    }
}

/// with a key of a group all keys of it were moved
pub proof fn lemma_group_moved<P: Ptr, K, V>(c: SurjectArena<P, K, V>, f: Map<int, P>, i: int, j: int)
    requires c.wf(), nclosed_under(c.keys, f), f.dom().contains(i), kv(c.keys.a.m@, i) is Some, kv(c.keys.a.m@, i) == kv(c.keys.a.m@, j),
    ensures f.dom().contains(j),
{
    let m = c.keys.a.m@;
    let v = kv(m, i).unwrap();
    assert(ent(c.vals.m@, v) is Some);
    let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s);
    assert(non(s, i));
    let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
    let t = lemma_rotate(m, v, s, s[k]);
    assert(non(t, j));
    let a = choose|a: int| 0 <= a < t.len() && nidx(#[trigger] t[a]) == j;
    lemma_walk_moved(c, f, v, t, a);
}

proof fn lemma_walk_moved<P: Ptr, K, V>(c: SurjectArena<P, K, V>, f: Map<int, P>, v: int, s: Seq<P::Inx>, k: int)
    requires c.wf(), nclosed_under(c.keys, f), set_of(c.keys.a.m@, v, s), f.dom().contains(nidx(s[0])), 0 <= k < s.len(),
    ensures f.dom().contains(nidx(s[k])),
    decreases k,
{
    if k > 0 {
        lemma_walk_moved(c, f, v, s, k - 1);
        let p = pos(s, k - 1);
        assert(kv(c.keys.a.m@, p.ival()) == Some(v));
        assert(c.keys.live(p));
        assert(knx(c.keys.a.m@, p) == Some(cyc(s, k - 1)));
        assert(c.keys.nx(p) == Some(s[k]));
    }
}

/// the group of a key that was not moved is new
pub proof fn lemma_group_new<P: Ptr, K, V>(c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, i: int)
    requires c.wf(), nclosed_under(c.keys, f), vkeys(c.keys.a.m@, f, u, vf), !f.dom().contains(i), kv(c.keys.a.m@, i) is Some,
    ensures !vf.dom().contains(kv(c.keys.a.m@, i).unwrap()), ent(c.vals.m@, kv(c.keys.a.m@, i).unwrap()) is Some,
{
    let v = kv(c.keys.a.m@, i).unwrap();
    if vf.dom().contains(v) {
        let j = choose|j: int| #[trigger] f.dom().contains(j) && kv(c.keys.a.m@, j) == Some(v);
        lemma_group_moved(c, f, j, i);
    }
}

pub proof fn lemma_vkeys<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, i: int, q: P, k: Key<P, K>, t: int)
    requires vkeys(m, f, u, vf), kv(m, i) is Some, nidx(k.p_val._internal_inx) == t, !f.dom().contains(i), vf.dom().contains(kv(m, i).unwrap()) ==> vf[kv(m, i).unwrap()] == t,
    ensures vkeys(m, f.insert(i, q), u.insert(i, k), vf.insert(kv(m, i).unwrap(), t)),
{
    let v = kv(m, i).unwrap();
    let f2 = f.insert(i, q);
    let vf2 = vf.insert(v, t);
    assert forall|a: int| #[trigger] vf2.dom().contains(a) implies exists|j: int| #[trigger] f2.dom().contains(j) && kv(m, j) == Some(a) by {
        if a == v {
            assert(f2.dom().contains(i));
        } else {
            assert(vf.dom().contains(a));
            let j = choose|j: int| #[trigger] f.dom().contains(j) && kv(m, j) == Some(a);
            assert(f2.dom().contains(j));
        }
    }
}

/// the neighbors of a key are in its group
pub proof fn lemma_group_next<P: Ptr, K, V>(c: SurjectArena<P, K, V>, p: P::Inx)
    requires c.wf(), c.keys.live(p),
    ensures c.keys.nx(p) matches Some(q) && kv(c.keys.a.m@, nidx(q)) == kv(c.keys.a.m@, nidx(p)),
        c.keys.pv(p) matches Some(q) && kv(c.keys.a.m@, nidx(q)) == kv(c.keys.a.m@, nidx(p)),
{
    let m = c.keys.a.m@;
    let v = kv(m, nidx(p)).unwrap();
    assert(ent(c.vals.m@, v) is Some);
    let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s);
    let t = lemma_rotate_last(m, v, s, p);
    let n = t.len() - 1;
    assert(pos(t, n) == p);
    assert(knx(m, p) == Some(cyc(t, n)));
    assert(pos(t, 0) == t[0]);
    if n > 0 {
        assert(cyc(t, n - 1) == p);
        assert(knx(m, pos(t, n - 1)) == Some(p));
        lemma_nnb(c.keys, pos(t, n - 1));
    } else {
        lemma_nnb(c.keys, p);
    }
}

/// the state of the compression with the keys `f` of `c` being moved
pub open spec fn vstate<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>) -> bool {
    vmoving(keep, c.vals.m@, w, vf, vb, x) && vkeys(c.keys.a.m@, f, u, vf) && vlast(vf, l, n)
}

/// the pointer to the value of the key at `i`
pub open spec fn kp<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, i: int) -> PtrNoGen<P> {
    ent(m, i).unwrap().1.t.p_val
}

pub open spec fn here_map(n: int) -> Map<int, int> {
    Map::new(vstd::set_lib::set_int_range(1, n + 1), |i: int| i)
}

pub proof fn lemma_visit_start<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, x: Option<NonZeroUsize>)
    requires first_free(c.vals.m@, x),
    ensures vstate(keep, c, Map::empty(), Map::empty(), Map::empty(), here_map(c.vals.m@.len() as int), c.vals.m@, x, None, None),
{
}

/// the first key of a group to be visited
pub proof fn lemma_visit_first<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>, i: int)
    requires c.wf(), vstate(keep, c, f, u, vf, vb, w, x, l, n), nclosed_under(c.keys, f), !f.dom().contains(i), ent(c.keys.a.m@, i) is Some,
    ensures first_free(w, x), l != Some(kp(c.keys.a.m@, i)), ent(w, nidx(kp(c.keys.a.m@, i)._internal_inx)) is Some,
        !vf.dom().contains(nidx(kp(c.keys.a.m@, i)._internal_inx)),
{
    lemma_group_new(c, f, u, vf, i);
    let v = kv(c.keys.a.m@, i).unwrap();
    assert(ent(w, loc(vf, v)) is Some);
}

/// the other keys of the group
pub proof fn lemma_visit_next<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: PtrNoGen<P>, n: Option<P::Inx>, i: int)
    requires c.wf(), vstate(keep, c, f, u, vf, vb, w, x, Some(l), n), kv(c.keys.a.m@, i) == Some(nidx(l._internal_inx)),
    ensures first_free(w, x), l == kp(c.keys.a.m@, i), ent(w, settled_at(x, n, nidx(l._internal_inx), false)) is Some,
        vf.dom().contains(nidx(l._internal_inx)), vf[nidx(l._internal_inx)] == settled_at(x, n, nidx(l._internal_inx), false),
{
    let v = kv(c.keys.a.m@, i).unwrap();
    assert(ent(c.vals.m@, v) is Some);
    assert(ent(w, loc(vf, v)) is Some);
}

pub proof fn lemma_visit<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>,
    i: int, q: P, k: Key<P, K>, w2: Seq<ValEnt<P, V>>, x2: Option<NonZeroUsize>, n2: Option<P::Inx>, fresh: bool)
    requires c.wf(), vstate(keep, c, f, u, vf, vb, w, x, l, n), ent(c.keys.a.m@, i) is Some, !f.dom().contains(i),
        ({
            let v = nidx(kp(c.keys.a.m@, i)._internal_inx);
            let t = settled_at(x, n, v, fresh);
            &&& fresh <==> !vf.dom().contains(v)
            &&& !fresh ==> vf[v] == t
            &&& visited(w, w2, x, x2, v, fresh, t)
            &&& nidx(k.p_val._internal_inx) == t
            &&& match n2 { Some(n) => n.ival() == t, None => v == t }
            &&& keep ==> ent(w2, t).unwrap().1.v == ent(settled(w, x, v, fresh), t).unwrap().1.v
        }),
    ensures ({
        let v = nidx(kp(c.keys.a.m@, i)._internal_inx);
        vstate(keep, c, f.insert(i, q), u.insert(i, k), vf.insert(v, settled_at(x, n, v, fresh)), vb_after(vb, x, v, fresh), w2, x2, Some(kp(c.keys.a.m@, i)), n2)
    }),
{
    let v = nidx(kp(c.keys.a.m@, i)._internal_inx);
    assert(kv(c.keys.a.m@, i) == Some(v));
    assert(ent(c.vals.m@, v) is Some);
    lemma_visited(keep, c.vals.m@, w, w2, vf, vb, x, x2, n, v, fresh);
    lemma_vkeys(c.keys.a.m@, f, u, vf, i, q, k, settled_at(x, n, v, fresh));
}

/// every moved key was reported to `map` together with its value
#[verifier::prophetic]
pub open spec fn vreported<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>) -> bool {
    forall|i: int| #[trigger] f.dom().contains(i) ==> vreport(map, c, i, u[i].k, f[i])
}

#[verifier::prophetic]
pub open spec fn vreport<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, c: SurjectArena<P, K, V>, i: int, k: K, q: P) -> bool {
    match ent(c.keys.a.m@, i) {
        Some((h, l)) => exists|v0: V, v1: V| #[trigger] called4(map, mkp::<P>(i, h), l.t.k, k, v0, v1, q) && (keeps_vals(map) ==> c.value(nidx(l.t.p_val._internal_inx)) == Some(v0)),
        None => false,
    }
}

pub proof fn lemma_vreport_start<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, c: SurjectArena<P, K, V>)
    ensures vreported(map, c, Map::empty(), Map::empty()),
{ }

pub proof fn lemma_vreport<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>,
    p: P, q: P, k: Key<P, K>, v1: V, fresh: bool)
    requires c.wf(), vreported(map, c, f, u), vstate(keeps_vals(map), c, f, u, vf, vb, w, x, l, n), c.has(p),
        ({
            let v = nidx(kp(c.keys.a.m@, idx(p))._internal_inx);
            let t = settled_at(x, n, v, fresh);
            &&& fresh <==> !vf.dom().contains(v)
            &&& !fresh ==> vf[v] == t
            &&& called4(map, p, c.key(p), k.k, ent(settled(w, x, v, fresh), t).unwrap().1.v, v1, q)
        }),
    ensures vreported(map, c, f.insert(idx(p), q), u.insert(idx(p), k)),
{
    let v = nidx(kp(c.keys.a.m@, idx(p))._internal_inx);
    let t = settled_at(x, n, v, fresh);
    let i = idx(p);
    assert(mkp::<P>(i, p.sgen()) == p);
    assert(kv(c.keys.a.m@, i) == Some(v));
    assert(ent(c.vals.m@, v) is Some);
    assert(ent(w, loc(vf, v)) is Some);
    assert(called4(map, mkp::<P>(i, p.sgen()), c.key(p), k.k, ent(settled(w, x, v, fresh), t).unwrap().1.v, v1, q));
    assert(ent(settled(w, x, v, fresh), t) == ent(w, loc(vf, v)));
    let f2 = f.insert(i, q);
    let u2 = u.insert(i, k);
    assert(vreport(map, c, i, k.k, q));
    assert forall|j: int| #[trigger] f2.dom().contains(j) implies vreport(map, c, j, u2[j].k, f2[j]) by {
        if j != i { assert(f.dom().contains(j)); }
    }
}

/// how many slots remain
pub open spec fn vfull<P: Ptr, V>(w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>) -> int {
    if x is Some { x.unwrap()@ - 1 } else { w.len() as int }
}

/// all keys were moved, so the values fill the first slots
pub proof fn lemma_dense<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, n: Option<P::Inx>)
    requires c.wf(), vstate(keep, c, f, u, vf, vb, w, x, l, n),
        forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(c.keys.a.m@, i)] f.dom().contains(i) <==> ent(c.keys.a.m@, i) is Some,
    ensures
        forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some ==> vf.dom().contains(v),
        0 <= vfull(w, x) <= w.len(), forall|j: int| #![trigger ent(w, j)] ent(w, j) is Some <==> 1 <= j <= vfull(w, x),
        cnt(w.take(vfull(w, x))) == vfull(w, x), vfull(w, x) == c.vals.len,
{
    assert forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some implies vf.dom().contains(v) by {
        let s = choose|s: Seq<P::Inx>| #[trigger] set_of(c.keys.a.m@, v, s);
        let i = pos(s, 0).ival();
        assert(kv(c.keys.a.m@, i) == Some(v));
        assert(f.dom().contains(i));
    }
    let k = vfull(w, x);
    assert forall|j: int| #![trigger ent(w, j)] ent(w, j) is Some <==> 1 <= j <= k by {
        if ent(w, j) is Some {
            assert(vf.dom().contains(vb[j]));
        }
    }
    let h = w.take(k);
    assert forall|j: int| 0 <= j < h.len() implies (#[trigger] h[j]) is Allocated by { assert(ent(w, j + 1) is Some); }
    lemma_cnt_full(h);
    assert forall|j: int| h.len() <= j < w.len() implies (#[trigger] w[j]) is Free by { assert(ent(w, j + 1) is None); }
    lemma_cnt_extend(h, w);
}

/// `n` is a renumbering of `o`: its keys by `f`, its values by `vf`
pub open spec fn grenumbered<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, b: Map<int, int>, vf: Map<int, int>, vb: Map<int, int>) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o.keys.a.m@, i)] f.dom().contains(i) <==> ent(o.keys.a.m@, i) is Some
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> grenumbered_at(o, n, f, b, vf, i)
    &&& forall|j: int| #![trigger ent(n.keys.a.m@, j)] ent(n.keys.a.m@, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
    &&& forall|v: int| #![trigger ent(o.vals.m@, v)] ent(o.vals.m@, v) is Some ==> ent(n.vals.m@, vf[v]) is Some && vb[vf[v]] == v && n.count(vf[v]) == o.count(v)
    &&& forall|v: int| #![trigger ent(n.vals.m@, v)] ent(n.vals.m@, v) is Some ==> ent(o.vals.m@, vb[v]) is Some && vf[vb[v]] == v
}

pub open spec fn grenumbered_at<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, b: Map<int, int>, vf: Map<int, int>, i: int) -> bool {
    &&& f[i].sgen() == n.keys.a.generation && n.has(f[i]) && b[idx(f[i])] == i
    &&& n.vi(f[i]) == vf[nidx(kp(o.keys.a.m@, i)._internal_inx)]
    &&& n.keys.a.val(f[i]).prev_next.1 == ntr(f, ent(o.keys.a.m@, i).unwrap().1.prev_next.1)
}

/// the key at `i` after the compression
proof fn lemma_key_renumbered<P: Ptr, K, V>(c: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, b: Map<int, int>, u: Map<int, Key<P, K>>, vf: Map<int, int>, i: int)
    requires vkeys(c.keys.a.m@, f, u, vf), urenumbered(u, c.keys.a.m@, n.keys.a.m@, f, b, n.keys.a.generation), f.dom().contains(i),
    ensures grenumbered_at(c, n, f, b, vf, i), n.key(f[i]) == u[i].k, kv(c.keys.a.m@, i) is Some, kv(n.keys.a.m@, idx(f[i])) == Some(vf[kv(c.keys.a.m@, i).unwrap()]),
{
    assert(umoved(u, c.keys.a.m@, n.keys.a.m@, f, n.keys.a.generation, i, false, false));
}

/// the values after the compression
proof fn lemma_vals_renumbered<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>)
    requires vmoving(keep, c.vals.m@, w, vf, vb, x), n.vals.m@ == w.take(vfull(w, x)), 0 <= vfull(w, x) <= w.len(),
        forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some ==> vf.dom().contains(v),
        forall|j: int| #![trigger ent(w, j)] ent(w, j) is Some <==> 1 <= j <= vfull(w, x),
    ensures
        forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some ==> ent(n.vals.m@, vf[v]) is Some && vb[vf[v]] == v && n.count(vf[v]) == c.count(v) && (keep ==> n.value(vf[v]) == c.value(v)),
        forall|v: int| #![trigger ent(n.vals.m@, v)] ent(n.vals.m@, v) is Some ==> ent(c.vals.m@, vb[v]) is Some && vf[vb[v]] == v && vf.dom().contains(vb[v]),
{
    let nw = n.vals.m@;
    assert forall|j: int| #![trigger ent(nw, j)] ent(nw, j) == ent(w, j) by {
        assert(ent(w, j) is Some <==> 1 <= j <= vfull(w, x));
    }
    assert forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some implies ent(nw, vf[v]) is Some && vb[vf[v]] == v && n.count(vf[v]) == c.count(v) && (keep ==> n.value(vf[v]) == c.value(v)) by {
        assert(loc(vf, v) == vf[v]);
        assert(ent(nw, vf[v]) == ent(w, vf[v]));
    }
    assert forall|v: int| #![trigger ent(nw, v)] ent(nw, v) is Some implies ent(c.vals.m@, vb[v]) is Some && vf[vb[v]] == v && vf.dom().contains(vb[v]) by {
        assert(ent(w, v) is Some);
        assert(vf.dom().contains(vb[v]));
    }
}

pub proof fn lemma_grenumbered<P: Ptr, K, V>(keep: bool, c: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, b: Map<int, int>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, w: Seq<ValEnt<P, V>>, x: Option<NonZeroUsize>, l: Option<PtrNoGen<P>>, m: Option<P::Inx>)
    requires c.wf(), vstate(keep, c, f, u, vf, vb, w, x, l, m), urenumbered(u, c.keys.a.m@, n.keys.a.m@, f, b, n.keys.a.generation),
        n.vals.m@ == w.take(vfull(w, x)),
    ensures grenumbered(c, n, f, b, vf, vb), surj(n.keys.a.m@, n.vals.m@),
        forall|i: int| #[trigger] f.dom().contains(i) ==> n.key(f[i]) == u[i].k,
        keep ==> forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some ==> n.value(vf[v]) == c.value(v),
{
    hide(vmoving); hide(vkeys); hide(umoving);
    lemma_dense(keep, c, f, u, vf, vb, w, x, l, m);
    lemma_vals_renumbered(keep, c, n, vf, vb, w, x);
    let om = c.keys.a.m@;
    let nm = n.keys.a.m@;
    let nw = n.vals.m@;
    assert forall|i: int| #[trigger] f.dom().contains(i) implies grenumbered_at(c, n, f, b, vf, i) && n.key(f[i]) == u[i].k && kv(om, i) is Some && kv(nm, idx(f[i])) == Some(vf[kv(om, i).unwrap()])
        && ent(c.vals.m@, kv(om, i).unwrap()) is Some by {
        lemma_key_renumbered(c, n, f, b, u, vf, i);
    }
    assert forall|j: int| #![trigger ent(nm, j)] ent(nm, j) is Some implies f.dom().contains(b[j]) && idx(f[b[j]]) == j by { reveal(umoving); }
    assert forall|i: int| #![trigger kv(nm, i)] #![trigger ent(nm, i)] match kv(nm, i) { Some(v) => ent(nw, v) is Some, None => true } by {
        if ent(nm, i) is Some {
            assert(f.dom().contains(b[i]));
            assert(ent(c.vals.m@, kv(om, b[i]).unwrap()) is Some);
        }
    }
    assert forall|y: int| #![trigger ent(nw, y)] match ent(nw, y) { Some((_, z)) => set_ok(nm, y, z.key_count@ as int), None => true } by {
        if ent(nw, y) is Some {
            let v = vb[y];
            assert(ent(c.vals.m@, v) is Some);
            assert(set_ok(om, v, c.count(v)));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(om, v, s) && s.len() == c.count(v);
            lemma_set_renumbered(c, n, f, b, u, vf, vb, v, s);
            assert(n.count(y) == c.count(v));
        }
    }
}

proof fn lemma_set_renumbered<P: Ptr, K, V>(c: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, b: Map<int, int>, u: Map<int, Key<P, K>>, vf: Map<int, int>, vb: Map<int, int>, v: int, s: Seq<P::Inx>)
    requires set_of(c.keys.a.m@, v, s), urenumbered(u, c.keys.a.m@, n.keys.a.m@, f, b, n.keys.a.generation), vb[vf[v]] == v,
        forall|i: int| #[trigger] f.dom().contains(i) ==> kv(c.keys.a.m@, i) is Some && vb[vf[kv(c.keys.a.m@, i).unwrap()]] == kv(c.keys.a.m@, i).unwrap() && kv(n.keys.a.m@, idx(f[i])) == Some(vf[kv(c.keys.a.m@, i).unwrap()]),
    ensures set_ok(n.keys.a.m@, vf[v], s.len() as int),
{
    let om = c.keys.a.m@;
    let nm = n.keys.a.m@;
    let g = n.keys.a.generation;
    let y = vf[v];
    let t = Seq::new(s.len(), |k: int| f[nidx(s[k])].sinx());
    assert forall|k: int| 0 <= k < t.len() implies kv(nm, (#[trigger] pos(t, k)).ival()) == Some(y) && knx(nm, pos(t, k)) == Some(cyc(t, k)) && b[pos(t, k).ival()] == pos(s, k).ival() by {
        let i = pos(s, k).ival();
        assert(kv(om, i) == Some(v));
        assert(f.dom().contains(i));
        assert(knx(om, pos(s, k)) == Some(cyc(s, k)));
        assert(umoved(u, om, nm, f, g, i, false, false));
    }
    assert forall|i: int| #![trigger kv(nm, i)] kv(nm, i) == Some(y) implies non(t, i) by {
        assert(ent(nm, i) is Some);
        let a = b[i];
        assert(f.dom().contains(a));
        assert(kv(om, a) == Some(v));
        assert(non(s, a));
        let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == a;
        assert(nidx(t[k]) == i);
    }
    assert(set_of(nm, y, t));
}

/// keys and values are the same
pub open spec fn gkept<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, vf: Map<int, int>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> n.key(f[i]) == ent(o.keys.a.m@, i).unwrap().1.t.k
    &&& forall|v: int| #![trigger ent(o.vals.m@, v)] ent(o.vals.m@, v) is Some ==> n.value(vf[v]) == o.value(v)
}

/// every key was reported to `map`, and only `map` changed keys and values
#[verifier::prophetic]
pub open spec fn greported<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, vf: Map<int, int>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> vreport(map, o, i, n.key(f[i]), f[i])
    &&& keeps_vals(map) ==> forall|v: int| #![trigger ent(o.vals.m@, v)] ent(o.vals.m@, v) is Some ==> n.value(vf[v]) == o.value(v)
    &&& keeps_keys(map) && keeps_vals(map) ==> gkept(o, n, f, vf)
}

pub proof fn lemma_greported<P: Ptr, K, V, F: Fn(P, &mut K, &mut V, P)>(map: F, c: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, f: Map<int, P>, u: Map<int, Key<P, K>>, vf: Map<int, int>)
    requires vreported(map, c, f, u), forall|i: int| #[trigger] f.dom().contains(i) ==> n.key(f[i]) == u[i].k,
        keeps_vals(map) ==> forall|v: int| #![trigger ent(c.vals.m@, v)] ent(c.vals.m@, v) is Some ==> n.value(vf[v]) == c.value(v),
    ensures greported(map, c, n, f, vf),
{
    assert forall|i: int| #[trigger] f.dom().contains(i) && keeps_keys(map) implies n.key(f[i]) == ent(c.keys.a.m@, i).unwrap().1.t.k by {
        assert(vreport(map, c, i, u[i].k, f[i]));
    }
    assert forall|i: int| #[trigger] f.dom().contains(i) implies vreport(map, c, i, n.key(f[i]), f[i]) by {
        assert(vreport(map, c, i, u[i].k, f[i]));
    }
}
@@fn SurjectArena::compress_and_shrink_with beta props=S01,S03,A04
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), forall|p: P, x: &mut K, y: &mut V, q: P| map.requires((p, x, y, q)),
    ensures final(self).wf(), final(self).keys.a.len == old(self).keys.a.len, final(self).keys.a.cap() == old(self).keys.a.len,
        final(self).vals.len == old(self).vals.len, final(self).vals.cap() == old(self).vals.len,
        final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>, vf: Map<int, int>, vb: Map<int, int>| #[trigger] grenumbered(*old(self), *final(self), f, b, vf, vb) && greported(map, *old(self), *final(self), f, vf),
@lifted
visit_key
@captures
vals: &mut Arena<PtrNoGen<P>, Val<V>> = self.vals
first_unallocated: &mut Option<NonZeroUsize> = first_unallocated
p_val_last: &mut Option<PtrNoGen<P>> = p_val_last
new_p_val: &mut Option<P::Inx> = new_p_val
map: &F = map
@start
    hide(umoving); hide(nremaining); hide(nclosed_under); hide(ndom_is); hide(nis_run); hide(nis_chain); hide(nsym);
    hide(surj); hide(vmoving); hide(vkeys); hide(vlast); hide(vreported); hide(visited); hide(grenumbered); hide(gkept);
    let ghost c = *old(self);
    let ghost o = c.keys;
    let ghost om = o.a.m@;
    let ghost map0 = map;
    let ghost mut f: Map<int, P> = Map::empty();
    let ghost mut b: Map<int, int> = Map::empty();
    let ghost mut u: Map<int, Key<P, K>> = Map::empty();
    let ghost mut vf: Map<int, int> = Map::empty();
    let ghost mut vb: Map<int, int> = here_map(self.vals.m@.len() as int);
@loop 0
    invariant_except_break first_unallocated is None, forall|j: int| #![trigger ent(self.vals.m@, j)] 1 <= j < $it.current@ ==> ent(self.vals.m@, j) is Some,
    invariant self.wf(), *self == c, $it.wf(), $it.current@ + $it.left() == self.vals.m@.len() + 1,
    ensures first_free(self.vals.m@, first_unallocated),
    decreases $it.left(),
@after 0
    proof { lemma_visit_start(keeps_vals(map), c, first_unallocated); lemma_vreport_start(map, c); }
@before 1
    proof { lemma_nmove_start(u, o, self.keys.a, new__b1, generation__b1); }
@loop 1
    invariant
        c.wf(), o == c.keys, om == o.a.m@, map == map0, forall|p: P, x: &mut K, y: &mut V, q: P| map.requires((p, x, y, q)),
        self.keys.a.wf(), new__b1.wf(), new__b1.cap() == o.a.len, self.keys.a.cap() == o.a.cap(), new__b1.generation == generation__b1,
        new__b1.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new__b1.len + self.keys.a.len == o.a.len,
        none_in(self.keys.a.m@, 1, adv__b1.inx@ as int),
        nremaining(om, self.keys.a.m@, f), umoving(u, om, new__b1.m@, f, b, generation__b1, None, None), nclosed_under(o, f),
        self.vals.m.wf(), self.vals.cap() == c.vals.cap(), self.vals.len == c.vals.len, self.vals.generation == c.vals.generation,
        vstate(keeps_vals(map), c, f, u, vf, vb, self.vals.m@, first_unallocated, p_val_last, new_p_val), vreported(map, c, f, u),
    ensures none_in(self.keys.a.m@, adv__b1.inx@ as int, self.keys.a.cap() + 1),
    decreases self.keys.a.len,
@closure 0
    -> (l: LinkNoGen<P, Key<P, K>>) ensures l.prev_next == (Some($0.sinx()), Some($0.sinx())), l.t == link__b1.t
@body 1
    let ghost d = f;
    let ghost n0 = new__b1;
    let ghost l0 = self.keys.a.len;
    let ghost adv0 = adv__b1.inx@ as int;
    let ghost b0 = b;
    let ghost (w0, x0, z0, y0) = (self.vals.m@, first_unallocated, p_val_last, new_p_val);
@pre remove_internal 0
    let ghost pi = p_init__b1;
    let ghost a0 = self.keys.a;
    let ghost v = nidx(kp(om, idx(pi))._internal_inx);
    proof {
        lemma_nmove_init(o, self.keys.a, f, adv0, pi);
        lemma_nnb(o, pi.sinx());
        lemma_visit_first(keeps_vals(map), c, f, u, vf, vb, w0, x0, z0, y0, idx(pi));
    }
@at get_inx_mut_unwrap 0
    proof {
        let k = new__b1.val(q__b1).t;
        f = d.insert(idx(pi), q__b1);
        b = b0.insert(idx(q__b1), idx(pi));
        lemma_nmove_step(u, o, a0, self.keys.a, n0, new__b1, d, b0, generation__b1, None, None, None, None, pi, q__b1, new__b1.val(q__b1));
        lemma_visit(keeps_vals(map), c, d, u, vf, vb, w0, x0, z0, y0, idx(pi), q__b1, k, self.vals.m@, first_unallocated, new_p_val, true);
        lemma_vreport(map, c, d, u, vf, vb, w0, x0, z0, y0, pi, q__b1, k, ent(self.vals.m@, settled_at(x0, y0, v, true)).unwrap().1.v, true);
        u = u.insert(idx(pi), k);
        vf = vf.insert(v, settled_at(x0, y0, v, true));
        vb = vb_after(vb, x0, v, true);
        lemma_nsingle(o, d, pi.sinx(), q__b1);
        lemma_nclosed_chain(o, f, d, seq![pi.sinx()]);
    }
@at get_inx_mut_unwrap 1
    let ghost mut path = seq![pi.sinx()];
    proof {
        let q = q_init__b1;
        let k = new__b1.val(q).t;
        f = d.insert(idx(pi), q);
        b = b0.insert(idx(q), idx(pi));
        lemma_nmove_step(u, o, a0, self.keys.a, n0, new__b1, d, b0, generation__b1, None, None, Some(pi.sinx()), Some(pi.sinx()), pi, q, new__b1.val(q));
        lemma_visit(keeps_vals(map), c, d, u, vf, vb, w0, x0, z0, y0, idx(pi), q, k, self.vals.m@, first_unallocated, new_p_val, true);
        lemma_vreport(map, c, d, u, vf, vb, w0, x0, z0, y0, pi, q, k, ent(self.vals.m@, settled_at(x0, y0, v, true)).unwrap().1.v, true);
        u = u.insert(idx(pi), k);
        vf = vf.insert(v, settled_at(x0, y0, v, true));
        vb = vb_after(vb, x0, v, true);
        lemma_nsingle(o, d, pi.sinx(), q);
    }
@loop 2
    invariant
        c.wf(), o == c.keys, om == o.a.m@, map == map0, forall|p: P, x: &mut K, y: &mut V, q: P| map.requires((p, x, y, q)),
        self.keys.a.wf(), new__b1.wf(), new__b1.cap() == o.a.len, self.keys.a.cap() == o.a.cap(), new__b1.generation == generation__b1,
        new__b1.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new__b1.len + self.keys.a.len == o.a.len,
        none_in(self.keys.a.m@, 1, adv__b1.inx@ as int),
        nremaining(om, self.keys.a.m@, f), umoving(u, om, new__b1.m@, f, b, generation__b1, Some(pi.sinx()), Some(path.last())),
        self.keys.a.len < l0, nclosed_under(o, d), ndom_is(f, d, path), nis_run(o, path), path.len() > 0, path[0] == pi.sinx(),
        q_init__b1 == f[idx(pi)], q_prev__b1 == f[nidx(path.last())],
        p_init_prev__b1 == o.pv(pi.sinx()), p_next__b1 == o.nx(path.last()), o.nx(path.last()) != Some(pi.sinx()),
        self.vals.m.wf(), self.vals.cap() == c.vals.cap(), self.vals.len == c.vals.len, self.vals.generation == c.vals.generation,
        vstate(keeps_vals(map), c, f, u, vf, vb, self.vals.m@, first_unallocated, p_val_last, new_p_val), vreported(map, c, f, u),
        p_val_last == Some(kp(om, idx(pi))), kv(om, nidx(path.last())) == Some(v),
    ensures false,
    decreases self.keys.a.len,
@body 2
    proof { lemma_nrun_has(o, path); lemma_group_next(c, path.last()); }
@pre get_no_gen 0
    let ghost n1 = new__b1;
    let ghost a1 = self.keys.a;
    let ghost f1 = f;
    let ghost b1 = b;
    let ghost (w1, x1, y1) = (self.vals.m@, first_unallocated, new_p_val);
    let ghost vi = o.nx(path.last()).unwrap();
    proof {
        lemma_nnb(o, pi.sinx());
        lemma_noutside_next(o, self.keys.a, f, d, path, vi);
        lemma_nnb(o, vi);
        lemma_nmoved_at(u, om, new__b1.m@, f, b, generation__b1, Some(pi.sinx()), Some(path.last()), idx(pi));
        lemma_nmoved_at(u, om, new__b1.m@, f, b, generation__b1, Some(pi.sinx()), Some(path.last()), nidx(path.last()));
        lemma_visit_next(keeps_vals(map), c, f, u, vf, vb, w1, x1, kp(om, idx(pi)), y1, nidx(vi));
    }
@at get_inx_mut_unwrap 2
    proof {
        let p = p__b1;
        let q = q__b1;
        let k = new__b1.val(q).t;
        lemma_visit(keeps_vals(map), c, f1, u, vf, vb, w1, x1, Some(kp(om, idx(pi))), y1, idx(p), q, k, self.vals.m@, first_unallocated, new_p_val, false);
        lemma_vreport(map, c, f1, u, vf, vb, w1, x1, Some(kp(om, idx(pi))), y1, p, q, k, ent(self.vals.m@, settled_at(x1, y1, v, false)).unwrap().1.v, false);
    }
@at get_inx_mut_unwrap 4
    proof {
        let p = p__b1;
        let q = q__b1;
        let k = new__b1.val(q).t;
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.keys.a, n1, new__b1, f1, b1, generation__b1, Some(pi.sinx()), Some(path.last()), None, None, p, q, new__b1.val(q));
        u = u.insert(idx(p), k);
        vf = vf.insert(v, settled_at(x1, y1, v, false));
        vb = vb_after(vb, x1, v, false);
        let np = path.push(p.sinx());
        assert(np[0] == pi.sinx() && np.last() == p.sinx());
        lemma_nchain_ends(o, np);
        lemma_nclosed_chain(o, f, d, np);
    }
@at get_inx_mut_unwrap 5
    proof {
        let p = p__b1;
        let q = q__b1;
        let k = new__b1.val(q).t;
        lemma_visit(keeps_vals(map), c, f1, u, vf, vb, w1, x1, Some(kp(om, idx(pi))), y1, idx(p), q, k, self.vals.m@, first_unallocated, new_p_val, false);
        lemma_vreport(map, c, f1, u, vf, vb, w1, x1, Some(kp(om, idx(pi))), y1, p, q, k, ent(self.vals.m@, settled_at(x1, y1, v, false)).unwrap().1.v, false);
    }
@at get_inx_mut_unwrap 6
    proof {
        let p = p__b1;
        let q = q__b1;
        let k = new__b1.val(q).t;
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.keys.a, n1, new__b1, f1, b1, generation__b1, Some(pi.sinx()), Some(path.last()), Some(pi.sinx()), Some(p.sinx()), p, q, new__b1.val(q));
        u = u.insert(idx(p), k);
        vf = vf.insert(v, settled_at(x1, y1, v, false));
        vb = vb_after(vb, x1, v, false);
        path = path.push(p.sinx());
        assert(path[0] == pi.sinx() && path.last() == p.sinx());
        if o.nx(p.sinx()) == Some(pi.sinx()) { assert(o.pv(pi.sinx()) == Some(p.sinx())); }
    }
@loop 3
    invariant false,
    decreases 0int,
@after 1
    proof {
        lemma_nall_moved(u, o, self.keys.a, new__b1.m@, f, b, generation__b1, adv__b1.inx@ as int);
        lemma_nsym_renumbered(u, o, new__b1.m@, f, b, generation__b1);
        lemma_dense(keeps_vals(map), c, f, u, vf, vb, self.vals.m@, first_unallocated, p_val_last, new_p_val);
    }
@before 4
    let ghost w9 = self.vals.m@;
    let ghost full = vfull(w9, first_unallocated);
    let ghost keys9 = self.keys;
    proof { assert(w9.take(w9.len() as int) =~= w9); }
@loop 4
    invariant self.vals.m.wf(), full <= self.vals.m@.len() <= w9.len(), self.vals.m@ == w9.take(self.vals.m@.len() as int),
        self.keys == keys9, self.vals.len == c.vals.len, self.vals.generation == c.vals.generation,
        0 <= full, forall|j: int| #![trigger ent(w9, j)] ent(w9, j) is Some <==> 1 <= j <= full,
    ensures self.vals.m@.len() == full,
    decreases self.vals.m@.len(),
@body 4
    proof {
        let n = self.vals.m@.len() as int;
        assert(ent(w9, n) is Some <==> 1 <= n <= full);
        if n > 0 { assert(self.vals.m@[n - 1] == w9[n - 1]); assert(w9.take(n).drop_last() =~= w9.take(n - 1)); }
    }
@end
    proof {
        lemma_grenumbered(keeps_vals(map), c, *self, f, b, u, vf, vb, w9, first_unallocated, p_val_last, new_p_val);
        lemma_greported(map, c, *self, f, u, vf);
    }
@@fn SurjectArena::compress_and_shrink props=S01,S03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keys.a.len == old(self).keys.a.len, final(self).keys.a.cap() == old(self).keys.a.len,
        final(self).vals.len == old(self).vals.len, final(self).vals.cap() == old(self).vals.len,
        final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>, vf: Map<int, int>, vb: Map<int, int>| #[trigger] grenumbered(*old(self), *final(self), f, b, vf, vb) && gkept(*old(self), *final(self), f, vf),
@closure 0
    ensures *final($1) == *old($1), *final($2) == *old($2)
