@@module std_facts
@@text
use vstd::std_specs::cmp::*;
use vstd::std_specs::nonzero::ZeroablePrimitiveSpec;
// facts about the standard library that the verifier's library lacks
pub broadcast axiom fn ax_u128_zero(x: u128)
    ensures #[trigger] x.is_zero() <==> x == 0;
pub broadcast axiom fn ax_unit_eq(a: (), b: ())
    ensures #[trigger] a.eq_spec(&b);
pub broadcast axiom fn ax_unit_obeys()
    ensures #[trigger] <() as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_ord_eq(a: core::cmp::Ordering, b: core::cmp::Ordering)
    ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_ord_obeys()
    ensures #[trigger] <core::cmp::Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast group std_facts { ax_u128_zero, ax_unit_eq, ax_unit_obeys }
pub broadcast axiom fn ax_inx_cloned<I: crate::PtrInx>(a: I, b: I)
    ensures #[trigger] cloned(a, b) ==> a == b;
pub broadcast group ord_facts { ax_ord_eq, ax_ord_obeys }
@@module ptr_impls !core
@@text
use core::num::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::nonzero::nonzero_from_primitive;
broadcast use std_facts::std_facts;
@@foreach NZ U : NonZeroU8 u8 ; NonZeroU16 u16 ; NonZeroU32 u32 ; NonZeroU64 u64 ; NonZeroU128 u128
@@impl {NZ} as PtrGen props=P01
    open spec fn gval(self) -> int { self@ as int }
    open spec fn sgmk(i: int) -> Self { nonzero_from_primitive(i as {U}) }
    open spec fn counted() -> bool { true }
    proof fn law_gen(a: Self) { }
    proof fn law_gen_eq(a: Self, b: Self) { if a@ == b@ { Self::law_gen(a); Self::law_gen(b); } }
@in one start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@in two start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@in increment start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@in increment pre vp_panic 0
    // the panic happens at the largest generation only
    assert(this@ == {U}::MAX);
@@endfor
@@impl () as PtrGen props=P01
    open spec fn gval(self) -> int { 2 }
    open spec fn sgmk(i: int) -> Self { () }
    open spec fn counted() -> bool { false }
    proof fn law_gen(a: Self) { }
    proof fn law_gen_eq(a: Self, b: Self) { }
@in one start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@in two start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@in increment start
    // (the verifier orders its work by references, this names the definitions)
    let ghost _o = (Self::counted(), Self::sgmk(1).gval());
@@foreach NZ U M : NonZeroU8 u8 0xffu8 ; NonZeroU16 u16 0xffffu16 ; NonZeroU32 u32 0xffff_ffffu32 ; NonZeroU64 u64 0xffff_ffff_ffff_ffffu64 ; NonZeroUsize usize 0xffff_ffff_ffff_ffffusize
@@impl {NZ} as PtrInx props=P01
    open spec fn ival(self) -> int { self@ as int }
    open spec fn maxi() -> int { {U}::MAX as int }
    open spec fn simk(i: int) -> Self { nonzero_from_primitive(i as {U}) }
    proof fn law_inx(a: Self) { }
    proof fn law_maxi() { }
    proof fn law_simk(i: int) { }
    proof fn law_inx_eq(a: Self, b: Self) { if a@ == b@ { Self::law_inx(a); Self::law_inx(b); } }
@in get start
    let ghost _o = (Self::maxi(), Self::simk(1).ival());
@in max start
    let ghost _o = (Self::maxi(), Self::simk(1).ival());
@in new start
    let ghost _o = (Self::maxi(), Self::simk(1).ival());
    assert(forall|x: usize| #![trigger x as {U}] x <= {U}::MAX ==> (x as {U}) == x);
    assert(0xffff_ffff_ffff_ffffu64 as {U} == {M}) by (bit_vector);
    assert(usize::MAX as {U} == {U}::MAX);
@@endfor
// the 128 bit index: the conversions agree up to the machine word, which is
// its stated maximum; larger values can only be made by hand
@@fn NonZeroU128 as PtrInx::new free name=u128_new props=P01
    ensures r@ == inx@,
@@fn NonZeroU128 as PtrInx::get free name=u128_get props=P01
    requires this@ <= usize::MAX,
    ensures r@ == this@,
@@fn NonZeroU128 as PtrInx::max free name=u128_max props=P01
    ensures r@ == usize::MAX,
@start
    assert(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 as u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector);
    assert(u128::MAX as usize == usize::MAX);
@@end
pub use ptr_no_gen::*;
@@module ptr_no_gen !core
@@text
use vstd::std_specs::cmp::*;
broadcast use {ptr_axioms, std_facts::std_facts};
@@type PtrNoGen
@@text
impl<P: Ptr> Copy for PtrNoGen<P> {}
impl<P: Ptr> Clone for PtrNoGen<P> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<P: Ptr> PartialEqSpecImpl for PtrNoGen<P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
@@impl PtrNoGen as PartialEq props=P01
@@impl PtrNoGen as Ptr props=P01 only=invalid,inx,generation,_from_raw
    open spec fn sinx(self) -> Self::Inx { self._internal_inx }
    open spec fn sgen(self) -> Self::Gen { self._internal_gen }
    open spec fn smk(i: Self::Inx, g: Self::Gen) -> Self { PtrNoGen { _internal_inx: i, _internal_gen: g } }
    proof fn law_smk(i: Self::Inx, g: Self::Gen) { }
    proof fn law_ptr(p: Self) { }
    proof fn law_ptr_eq(a: Self, b: Self) { }
@in invalid start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in inx start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in generation start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in _from_raw start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@@module ptr_structs !structs
@@text
use core::num::*;
use vstd::std_specs::cmp::*;
broadcast use {ptr_axioms, std_facts::std_facts};
@@foreach S : PtrDefault ; PtrInxOnly ; PtrGenOnly ; PtrNone ; PtrMultiA ; PtrMultiB ; PtrIUsG8 ; PtrIUsG16 ; PtrIUsG32 ; PtrIUsG64 ; PtrIUsG128 ; PtrIUsG0 ; PtrI8G8 ; PtrI8G16 ; PtrI8G32 ; PtrI8G64 ; PtrI8G128 ; PtrI8G0 ; PtrI16G8 ; PtrI16G16 ; PtrI16G32 ; PtrI16G64 ; PtrI16G128 ; PtrI16G0 ; PtrI32G8 ; PtrI32G16 ; PtrI32G32 ; PtrI32G64 ; PtrI32G128 ; PtrI32G0 ; PtrI64G8 ; PtrI64G16 ; PtrI64G32 ; PtrI64G64 ; PtrI64G128 ; PtrI64G0
@@type {S}
@@text
impl Copy for {S} {}
impl Clone for {S} { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl PartialEqSpecImpl for {S} {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
@@impl {S} as PartialEq props=P01
@@impl {S} as Ptr props=P01 only=invalid,inx,generation,_from_raw
    open spec fn sinx(self) -> Self::Inx { self._internal_inx }
    open spec fn sgen(self) -> Self::Gen { self._internal_gen }
    open spec fn smk(i: Self::Inx, g: Self::Gen) -> Self { {S} { _internal_inx: i, _internal_gen: g } }
    proof fn law_smk(i: Self::Inx, g: Self::Gen) { }
    proof fn law_ptr(p: Self) { }
    proof fn law_ptr_eq(a: Self, b: Self) { }
@in invalid start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in inx start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in generation start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@in _from_raw start
    let ghost _o = Self::smk(arbitrary(), arbitrary());
    let ghost _q = (_o.sinx(), _o.sgen(), <Self::Gen as PtrGen>::counted(), <Self::Inx as PtrInx>::maxi());
@@fn {S} as Default::default name=vp_default props=P01
    ensures r.sinx().ival() == <<{S} as Ptr>::Inx as PtrInx>::maxi(),
        <<{S} as Ptr>::Gen as PtrGen>::counted() ==> r.sgen().gval() == 1,
@@endfor
