@@module arena_iterators arena/arena_iterators.rs arena/base_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type PtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type Ptrs
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type Vals
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type Iter
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type Drain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type CapacityDrain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=A06
/// no live entry with raw index in `lo..hi`
pub open spec fn none_in<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, lo: int, hi: int) -> bool {
    forall|i: int| #![trigger ent(m, i)] lo <= i < hi ==> ent(m, i) is None
}

/// The result `r` is the first live entry from raw index `i0` on, and the next
/// position `i1` is directly after it
pub open spec fn advanced<P: Ptr, T>(a: Arena<P, T>, i0: int, i1: int, r: Option<P>) -> bool {
    match r {
        Some(p) => a.has(p) && i0 <= p.sinx().ival() && i1 == p.sinx().ival() + 1 && none_in(a.m@, i0, p.sinx().ival()),
        None => none_in(a.m@, i0, a.cap() + 1) && i1 >= i0,
    }
}
@@fn PtrAdvancer as Advancer::advance props=A08
    requires collection.m.wf(), collection.cap() <= <P::Inx as PtrInx>::maxi(),
    ensures advanced(*collection, old(self).inx@ as int, final(self).inx@ as int, r),
@loop 0
    invariant collection.m.wf(), collection.cap() <= <P::Inx as PtrInx>::maxi(),
        old(self).inx@ <= self.inx@, none_in(collection.m@, old(self).inx@ as int, self.inx@ as int),
        self.inx@ <= isize::MAX + 1 || self.inx@ == old(self).inx@,
    decreases collection.m@.len() + 1 - self.inx@,
@@fn Arena::advancer props=A08
    ensures r.inx@ == 1,
@@fn Ptrs as Iterator::next props=A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, r),
@@fn Vals as Iterator::next props=A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        r is None ==> advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, None),
        r is Some ==> exists|p: P| #[trigger] old(self).arena.has(p) && *r.unwrap() == old(self).arena.val(p)
            && advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, Some(p)),
@@fn Iter as Iterator::next props=A08
    requires old(self).arena.wf(),
    ensures final(self).arena == old(self).arena,
        advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int,
            match r { Some((p, _)) => Some(p), None => None }),
        r is Some ==> *r.unwrap().1 == old(self).arena.val(r.unwrap().0),
@@fn Arena::ptrs props=A08
    ensures r.arena == self, r.adv.inx@ == 1,
@@fn Arena::vals props=A08
    ensures r.arena == self, r.adv.inx@ == 1,
@@fn Arena::iter props=A08
    ensures r.arena == self, r.adv.inx@ == 1,
@@fn Drain as Iterator::next props=A02,A03,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), final(self).arena.cap() == old(self).arena.cap(), final(self).arena.gen() == old(self).arena.gen(),
        match r {
            Some((p, t)) => advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, Some(p))
                && t == old(self).arena.val(p) && final(self).arena.at(p.sinx().ival()) is None
                && final(self).arena.same_except(*old(self).arena, p.sinx().ival())
                && final(self).arena.len == old(self).arena.len - 1,
            None => advanced(*old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, None)
                && final(self).arena.same(*old(self).arena),
        },
@@fn Drain as Drop::drop props=A03,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), final(self).arena.len == 0, final(self).arena.cap() == old(self).arena.cap(),
        old(self).arena.len == 0 ==> final(self).arena.gen() == old(self).arena.gen(),
@@fn Arena::drain props=A03,A04,A05
    requires old(self).wf(),
    ensures r.arena.wf(), r.adv.inx@ == 1, r.arena.m@ == old(self).m@, r.arena.len == old(self).len,
        *final(self) == *final(r.arena),
        r.arena.gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn CapacityDrain as Iterator::next props=A02,A03,A04,A05
    requires old(self).arena.wf(),
    ensures final(self).arena.wf(), final(self).arena.gen() == old(self).arena.gen(),
        match r {
            Some((p, t)) => advanced(old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, Some(p))
                && t == old(self).arena.val(p) && final(self).arena.at(p.sinx().ival()) is None
                && final(self).arena.same_except(old(self).arena, p.sinx().ival())
                && final(self).arena.len == old(self).arena.len - 1,
            None => advanced(old(self).arena, old(self).adv.inx@ as int, final(self).adv.inx@ as int, None)
                && final(self).arena.same(old(self).arena),
        },
@@fn Arena::capacity_drain props=A05
    ensures r.arena == self, r.adv.inx@ == 1,
@@fn Arena as IntoIterator::into_iter props=A05
    ensures r.arena == self, r.adv.inx@ == 1,
@@fn Arena as Recaster::recast_item props=A06
    requires self.m.wf(),
    ensures match r {
            Ok(_) => self.has(*old(item)) && *final(item) == self.val(*old(item)),
            Err(q) => !self.has(*old(item)) && q == *old(item) && *final(item) == *old(item),
        },
@@text
use vstd::std_specs::cmp::*;
/// same pointers, equal elements
pub open spec fn ents_eq<P: Ptr, T: PartialEq>(a: Seq<InternalEntry<P, T>>, b: Seq<InternalEntry<P, T>>, i: int) -> bool {
    match (ent(a, i), ent(b, i)) {
        (None, None) => true,
        (Some((g, t)), Some((h, u))) => g == h && t.eq_spec(&u),
        _ => false,
    }
}
@@fn Arena as PartialEq::eq props=A07
    requires self.wf(), other.wf(), T::obeys_eq_spec(),
    ensures r == forall|i: int| #![trigger ent(self.m@, i)] #![trigger ent(other.m@, i)] ents_eq(self.m@, other.m@, i),
@loop 0
    invariant_except_break adv0.inx@ == adv1.inx@,
    invariant self.wf(), other.wf(), T::obeys_eq_spec(),
        forall|i: int| #![trigger ent(self.m@, i)] #![trigger ent(other.m@, i)] i < adv1.inx@ ==> ents_eq(self.m@, other.m@, i),
    ensures forall|i: int| #![trigger ent(self.m@, i)] i >= adv1.inx@ ==> ent(self.m@, i) is None,
    decreases self.m@.len() + 1 - adv0.inx@,
@@end
