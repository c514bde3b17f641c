@@module -
@@text
// Contracts of the pointer traits: every implementation in the crate and of
// the pointer macro is proved to satisfy them in 05_ptr.vrs.
#![feature(sized_hierarchy)]
use vstd::prelude::*;
use core::num::NonZeroUsize;
use core::mem;
use core::marker::PhantomData;
verus! {

global size_of usize == 8;

/// the target of `panic!`, which does not return
#[verifier::external_body]
pub fn vp_panic<T>() -> (r: T)
    ensures false,
{ panic!() }

pub mod tr {
use super::*;
use vstd::std_specs::cmp::*;

pub trait PtrGen: Sized + Copy + PartialEq {
    /// numeric value, constant for the zero sized generation
    spec fn gval(self) -> int;
    /// inverse of `gval`
    spec fn sgmk(i: int) -> Self;
    /// if this is an actual counter
    spec fn counted() -> bool;
    proof fn law_gen(a: Self)
        ensures Self::sgmk(a.gval()) == a, a.gval() >= 1, !Self::counted() ==> a.gval() == 2;
    proof fn law_gen_eq(a: Self, b: Self)
        ensures a.eq_spec(&b) <==> a == b, Self::obeys_eq_spec();
    fn one() -> (r: Self) ensures Self::counted() ==> r.gval() == 1;
    fn two() -> (r: Self) ensures r.gval() == 2;
    // the panic on overflow is divergence
    fn increment(this: Self) -> (r: Self)
        ensures r.gval() == this.gval() + (if Self::counted() { 1int } else { 0int });
}

pub trait PtrInx: Sized + Copy + PartialEq {
    spec fn ival(self) -> int;
    spec fn maxi() -> int;
    spec fn simk(i: int) -> Self;
    proof fn law_inx(a: Self)
        ensures 1 <= a.ival() <= Self::maxi(), Self::simk(a.ival()) == a;
    proof fn law_maxi()
        ensures 1 <= Self::maxi() <= usize::MAX;
    proof fn law_simk(i: int)
        requires 1 <= i <= Self::maxi(),
        ensures Self::simk(i).ival() == i;
    proof fn law_inx_eq(a: Self, b: Self)
        ensures a.eq_spec(&b) <==> a == b, Self::obeys_eq_spec();
    fn new(inx: NonZeroUsize) -> (r: Self)
        requires inx@ <= Self::maxi() || inx@ == usize::MAX,
        ensures r == Self::simk(if inx@ <= Self::maxi() { inx@ as int } else { Self::maxi() }),
            r.ival() == if inx@ <= Self::maxi() { inx@ as int } else { Self::maxi() };
    fn get(this: Self) -> (r: NonZeroUsize) ensures r@ == this.ival();
    fn max() -> (r: NonZeroUsize) ensures r@ == Self::maxi();
}

pub trait Ptr: Sized + Copy + PartialEq {
    type Inx: PtrInx;
    type Gen: PtrGen;
    spec fn sinx(self) -> Self::Inx;
    spec fn sgen(self) -> Self::Gen;
    spec fn smk(i: Self::Inx, g: Self::Gen) -> Self;
    proof fn law_smk(i: Self::Inx, g: Self::Gen)
        ensures Self::smk(i, g).sinx() == i, Self::smk(i, g).sgen() == g;
    proof fn law_ptr(p: Self)
        ensures Self::smk(p.sinx(), p.sgen()) == p;
    proof fn law_ptr_eq(a: Self, b: Self)
        ensures a.eq_spec(&b) <==> a == b, Self::obeys_eq_spec();
    fn invalid() -> (r: Self)
        ensures r.sinx().ival() == <Self::Inx as PtrInx>::maxi(),
            <Self::Gen as PtrGen>::counted() ==> r.sgen().gval() == 1;
    fn inx(self) -> (r: Self::Inx) ensures r == self.sinx();
    fn generation(self) -> (r: Self::Gen) ensures r == self.sgen();
    fn _from_raw(i: Self::Inx, g: Self::Gen) -> (r: Self)
        ensures r == Self::smk(i, g), r.sinx() == i, r.sgen() == g;
}
}
pub use tr::*;

pub mod ax {
use super::*;
use vstd::std_specs::cmp::*;
pub broadcast proof fn ax_gen_eq<G: PtrGen>(a: G, b: G)
    ensures #[trigger] a.eq_spec(&b) <==> a == b
{ G::law_gen_eq(a, b); }
pub broadcast proof fn ax_gen_obeys<G: PtrGen>()
    ensures #[trigger] G::obeys_eq_spec()
{ let a: G = arbitrary(); G::law_gen_eq(a, a); }
pub broadcast proof fn ax_inx_eq<G: PtrInx>(a: G, b: G)
    ensures #[trigger] a.eq_spec(&b) <==> a == b
{ G::law_inx_eq(a, b); }
pub broadcast proof fn ax_inx_obeys<G: PtrInx>()
    ensures #[trigger] G::obeys_eq_spec()
{ let a: G = arbitrary(); G::law_inx_eq(a, a); }
pub broadcast proof fn ax_ptr_eq<G: Ptr>(a: G, b: G)
    ensures #[trigger] a.eq_spec(&b) <==> a == b
{ G::law_ptr_eq(a, b); }
pub broadcast proof fn ax_ptr_obeys<G: Ptr>()
    ensures #[trigger] G::obeys_eq_spec()
{ let a: G = arbitrary(); G::law_ptr_eq(a, a); }
pub broadcast proof fn ax_sgmk<G: PtrGen>(a: G)
    ensures #![trigger a.gval()] G::sgmk(a.gval()) == a
{ G::law_gen(a); }
pub broadcast proof fn ax_gval_pos<G: PtrGen>(a: G)
    ensures #[trigger] a.gval() >= 1, !G::counted() ==> a.gval() == 2
{ G::law_gen(a); }
pub broadcast proof fn ax_ival_range<G: PtrInx>(a: G)
    ensures 1 <= #[trigger] a.ival() <= G::maxi()
{ G::law_inx(a); }
pub broadcast proof fn ax_maxi<G: PtrInx>()
    ensures 1 <= #[trigger] G::maxi() <= usize::MAX
{ G::law_maxi(); }
pub broadcast proof fn ax_simk<G: PtrInx>(i: int)
    requires 1 <= i <= G::maxi(),
    ensures (#[trigger] G::simk(i)).ival() == i
{ G::law_simk(i); }
pub broadcast proof fn ax_simk_ival<G: PtrInx>(a: G)
    ensures #![trigger a.ival()] G::simk(a.ival()) == a
{ G::law_inx(a); }
pub broadcast proof fn ax_smk<P: Ptr>(i: P::Inx, g: P::Gen)
    ensures (#[trigger] P::smk(i, g)).sinx() == i, P::smk(i, g).sgen() == g
{ P::law_smk(i, g); }
pub broadcast proof fn ax_ptr_ext<P: Ptr>(p: P)
    ensures #![trigger p.sinx()] #![trigger p.sgen()] P::smk(p.sinx(), p.sgen()) == p
{ P::law_ptr(p); }
}
pub broadcast group ptr_axioms {
    ax::ax_gen_eq, ax::ax_gen_obeys, ax::ax_inx_eq, ax::ax_inx_obeys, ax::ax_ptr_eq,
    ax::ax_ptr_obeys, ax::ax_sgmk, ax::ax_gval_pos, ax::ax_ival_range,
    ax::ax_maxi, ax::ax_simk, ax::ax_simk_ival, ax::ax_smk, ax::ax_ptr_ext,
}
broadcast use ptr_axioms;

pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

@@module ptr traits/ptr.rs
@@fn ptrinx_unchecked props=A03,V01
    requires 1 <= x <= P::maxi(),
    ensures r.ival() == x,
@@end
