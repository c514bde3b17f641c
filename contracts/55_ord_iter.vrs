@@module ord_iterators ord/ord_iterators.rs ord/ord_arena.rs
@@text
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};
@@type PtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Ptrs
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Keys
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Vals
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Iter
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Drain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type CapacityDrain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@text props=O01
/// the place in the order from which a walk goes on
pub open spec fn from<P: Ptr, K, V>(o: OrdArena<P, K, V>, k: int) -> Option<P::Inx> {
    if k < o.order().len() { Some(o.order()[k]) } else { None }
}

/// the walk at place `k` gave `r` and went on
pub open spec fn walked<P: Ptr, K, V>(o: OrdArena<P, K, V>, k: int, r: Option<P>, next: Option<P::Inx>) -> bool {
    match r {
        Some(p) => k < o.order().len() && o.has(p) && p.sinx() == o.order()[k] && next == from(o, k + 1),
        None => k == o.order().len() && next is None,
    }
}

/// all the walks that stand at `a` give `r` and go on to `b`
pub open spec fn walks<P: Ptr, K, V>(o: OrdArena<P, K, V>, a: Option<P::Inx>, r: Option<P>, b: Option<P::Inx>) -> bool {
    forall|k: int| 0 <= k <= o.order().len() && a == #[trigger] from(o, k) ==> walked(o, k, r, b)
}
@@fn PtrAdvancer as Advancer::advance props=O01,A08
    requires collection.wf(),
    ensures walks(*collection, old(self).ptr, r, final(self).ptr),
        // whatever happened to the arena in between, only valid pointers
        r is Some ==> collection.has(r.unwrap()) && old(self).ptr == Some(r.unwrap().sinx()),
        r is None ==> old(self).ptr is None || !collection.a.live(old(self).ptr.unwrap()),
@start
    proof {
        lemma_wit(*collection);
        assert forall|k: int| 0 <= k < collection.order().len() && #[trigger] from(*collection, k) is Some implies collection.a.live(collection.order()[k]) && ck_ok(collection.a, collection.order(), k) by { lemma_pos(*collection, k); }
    }
@@fn OrdArena::advancer props=O01,A08
    requires self.wf(),
    ensures r.ptr == from(*self, 0),
@@fn OrdArena::advancer_starting_from props=O01,A08
    requires self.wf(),
    ensures self.has(p_start) ==> r.ptr == from(*self, self.pos(p_start.sinx())), !self.has(p_start) ==> r.ptr is None,
@start
    proof { if self.has(p_start) { lemma_live(*self, p_start.sinx()); } }
@@fn Ptrs as Iterator::next props=O01,A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena, walks(*old(self).arena, old(self).adv.ptr, r, final(self).adv.ptr),
@@fn Keys as Iterator::next props=O01,A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        forall|k: int| 0 <= k <= old(self).arena.order().len() && old(self).adv.ptr == #[trigger] from(*old(self).arena, k) ==> match r {
            Some(t) => k < old(self).arena.order().len() && *t == old(self).arena.key(old(self).arena.order()[k]) && final(self).adv.ptr == from(*old(self).arena, k + 1),
            None => k == old(self).arena.order().len() && final(self).adv.ptr is None,
        },
@@fn Vals as Iterator::next props=O01,A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        forall|k: int| 0 <= k <= old(self).arena.order().len() && old(self).adv.ptr == #[trigger] from(*old(self).arena, k) ==> match r {
            Some(t) => k < old(self).arena.order().len() && *t == old(self).arena.value(old(self).arena.order()[k]) && final(self).adv.ptr == from(*old(self).arena, k + 1),
            None => k == old(self).arena.order().len() && final(self).adv.ptr is None,
        },
@@fn Iter as Iterator::next props=O01,A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        walks(*old(self).arena, old(self).adv.ptr, match r { Some((p, _, _)) => Some(p), None => None }, final(self).adv.ptr),
        r is Some ==> old(self).arena.has(r.unwrap().0) && *r.unwrap().1 == old(self).arena.key(r.unwrap().0.sinx()) && *r.unwrap().2 == old(self).arena.value(r.unwrap().0.sinx()),
@@fn OrdArena::ptrs props=O01,A08
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(*self, 0),
@@fn OrdArena::keys props=O01,A08
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(*self, 0),
@@fn OrdArena::vals props=O01,A08
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(*self, 0),
@@fn OrdArena::iter props=O01,A08
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(*self, 0),
@@text props=O01,A02,A04
/// a draining walk removed what it gave
pub open spec fn drained<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, r: Option<(P, K, V)>) -> bool {
    match r {
        Some((p, k, v)) => o.has(p) && k == o.key(p.sinx()) && v == o.value(p.sinx()) && n.order() == o.order().remove(o.pos(p.sinx()))
            && !n.a.live(p.sinx()) && n.same_but(o, p.sinx()) && n.a.a.len == o.a.a.len - 1,
        None => n.order() == o.order() && n.same(o) && n.a.a.len == o.a.a.len && n.a.a.generation == o.a.a.generation,
    }
}

/// a walk at place `k` stays there while what it gives is removed
pub open spec fn drains<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, a: Option<P::Inx>, r: Option<(P, K, V)>, b: Option<P::Inx>) -> bool {
    forall|k: int| 0 <= k <= o.order().len() && a == #[trigger] from(o, k) ==> match r {
        Some((p, _, _)) => k < o.order().len() && p.sinx() == o.order()[k] && n.order() == o.order().remove(k) && b == from(n, k),
        None => k == o.order().len() && b is None,
    }
}
@@fn Drain as Iterator::next props=O01,O04,A02,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), drained(*old(self).arena, *final(self).arena, r), final(self).arena.a.a.cap() == old(self).arena.a.a.cap(),
        drains(*old(self).arena, *final(self).arena, old(self).adv.ptr, r, final(self).adv.ptr),
        r is None ==> old(self).adv.ptr is None || !old(self).arena.a.live(old(self).adv.ptr.unwrap()),
        r is Some ==> final(self).arena.a.a.gen() == old(self).arena.a.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@end
    proof {
        assert forall|k: int| 0 <= k < old(self).arena.order().len() && #[trigger] from(*old(self).arena, k) is Some implies old(self).arena.pos(old(self).arena.order()[k]) == k by { lemma_pos(*old(self).arena, k); }
    }
@@fn Drain as Drop::drop props=O04,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), final(self).arena.a.a.len == 0, final(self).arena.order() == Seq::<P::Inx>::empty(), final(self).arena.a.a.cap() == old(self).arena.a.a.cap(),
@start
    proof { lemma_wit(*self.arena); }
@@fn OrdArena::drain props=O01,O04,A04,A05
    requires old(self).wf(),
    ensures *r.arena == *old(self), r.adv.ptr == from(*old(self), 0), *final(self) == *final(r.arena),
@@fn CapacityDrain as Iterator::next props=O01,O04,A02,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), drained(old(self).arena, final(self).arena, r), final(self).arena.a.a.gen() == old(self).arena.a.a.gen(),
        drains(old(self).arena, final(self).arena, old(self).adv.ptr, r, final(self).adv.ptr),
@end
    proof {
        assert forall|k: int| 0 <= k < old(self).arena.order().len() && #[trigger] from(old(self).arena, k) is Some implies old(self).arena.pos(old(self).arena.order()[k]) == k by { lemma_pos(old(self).arena, k); }
    }
@@fn OrdArena::capacity_drain props=O01,A05
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(self, 0),
@@fn OrdArena as IntoIterator::into_iter props=O01,A05
    requires self.wf(),
    ensures r.arena == self, r.adv.ptr == from(self, 0),
@@text props=O05
pub open spec fn eq_at<P: Ptr, K: PartialEq, V: PartialEq>(a: OrdArena<P, K, V>, b: OrdArena<P, K, V>, k: int) -> bool {
    a.key(a.order()[k]).eq_spec(&b.key(b.order()[k])) && a.value(a.order()[k]).eq_spec(&b.value(b.order()[k]))
}
@@fn OrdArena as PartialEq::eq props=O05,A07
    requires self.wf(), other.wf(), K::obeys_eq_spec(), V::obeys_eq_spec(),
    ensures r == (self.order().len() == other.order().len() && forall|k: int| 0 <= k < self.order().len() ==> #[trigger] eq_at(*self, *other, k)),
@start
    let ghost mut k = 0int;
@loop 0
    invariant_except_break adv0.ptr == from(*self, k),
    invariant self.wf(), other.wf(), K::obeys_eq_spec(), V::obeys_eq_spec(), 0 <= k <= self.order().len(), k <= other.order().len(),
        forall|j: int| 0 <= j < k ==> #[trigger] eq_at(*self, *other, j),
        adv1.ptr == from(*other, k),
    ensures k == self.order().len(),
    decreases self.order().len() - k,
@body 0
    proof { if k < other.order().len() { let _ = eq_at(*self, *other, k); } }
@tail 0
    proof { k = k + 1; }
@@text props=O05
/// the order of two entries, the key deciding before the value
pub open spec fn pair_cmp<P: Ptr, K: PartialOrd, V: PartialOrd>(a: OrdArena<P, K, V>, b: OrdArena<P, K, V>, k: int) -> Option<Ordering> {
    let c = a.key(a.order()[k]).partial_cmp_spec(&b.key(b.order()[k]));
    if c == Some(Ordering::Equal) { a.value(a.order()[k]).partial_cmp_spec(&b.value(b.order()[k])) } else { c }
}

/// the lexicographic order from place `k` on
pub open spec fn lex<P: Ptr, K: PartialOrd, V: PartialOrd>(a: OrdArena<P, K, V>, b: OrdArena<P, K, V>, k: int) -> Option<Ordering>
    decreases a.order().len() - k
{
    if k >= a.order().len() {
        if k >= b.order().len() { Some(Ordering::Equal) } else { Some(Ordering::Less) }
    } else if k >= b.order().len() {
        Some(Ordering::Greater)
    } else if pair_cmp(a, b, k) == Some(Ordering::Equal) {
        lex(a, b, k + 1)
    } else {
        pair_cmp(a, b, k)
    }
}

pub open spec fn pair_cmpt<P: Ptr, K: Ord, V: Ord>(a: OrdArena<P, K, V>, b: OrdArena<P, K, V>, k: int) -> Ordering {
    let c = a.key(a.order()[k]).cmp_spec(&b.key(b.order()[k]));
    if c == Ordering::Equal { a.value(a.order()[k]).cmp_spec(&b.value(b.order()[k])) } else { c }
}

pub open spec fn lext<P: Ptr, K: Ord, V: Ord>(a: OrdArena<P, K, V>, b: OrdArena<P, K, V>, k: int) -> Ordering
    decreases a.order().len() - k
{
    if k >= a.order().len() {
        if k >= b.order().len() { Ordering::Equal } else { Ordering::Less }
    } else if k >= b.order().len() {
        Ordering::Greater
    } else if pair_cmpt(a, b, k) == Ordering::Equal {
        lext(a, b, k + 1)
    } else {
        pair_cmpt(a, b, k)
    }
}
@@fn OrdArena as PartialOrd::partial_cmp props=O05,A07
    requires self.wf(), other.wf(), K::obeys_partial_cmp_spec(), V::obeys_partial_cmp_spec(),
    ensures r == lex(*self, *other, 0),
@start
    let ghost mut k = 0int;
@loop 0
    invariant_except_break adv0.ptr == from(*self, k),
    invariant self.wf(), other.wf(), K::obeys_partial_cmp_spec(), V::obeys_partial_cmp_spec(), 0 <= k <= self.order().len(), k <= other.order().len(),
        lex(*self, *other, 0) == lex(*self, *other, k),
        adv1.ptr == from(*other, k),
    ensures k == self.order().len(),
    decreases self.order().len() - k,
@tail 0
    proof { k = k + 1; }
@@fn OrdArena as Ord::cmp props=O05,A07
    requires self.wf(), other.wf(), K::obeys_cmp_spec(), V::obeys_cmp_spec(),
    ensures r == lext(*self, *other, 0),
@start
    let ghost mut k = 0int;
@loop 0
    invariant_except_break adv0.ptr == from(*self, k),
    invariant self.wf(), other.wf(), K::obeys_cmp_spec(), V::obeys_cmp_spec(), 0 <= k <= self.order().len(), k <= other.order().len(),
        lext(*self, *other, 0) == lext(*self, *other, k),
        adv1.ptr == from(*other, k),
    ensures k == self.order().len(),
    decreases self.order().len() - k,
@tail 0
    proof { k = k + 1; }
