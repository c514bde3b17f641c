@@module serde_inx
@@text
use crate::serde_spec::*;
use core::num::*;
// Assumed of the index types: they are stored and read as the framework says
impl Serialize for NonZeroU8 {
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<'de> Deserialize<'de> for NonZeroU8 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl Serialize for NonZeroU16 {
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<'de> Deserialize<'de> for NonZeroU16 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl Serialize for NonZeroU32 {
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<'de> Deserialize<'de> for NonZeroU32 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl Serialize for NonZeroU64 {
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<'de> Deserialize<'de> for NonZeroU64 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl Serialize for NonZeroUsize {
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
impl<'de> Deserialize<'de> for NonZeroUsize {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}

/// the same for the index type of any pointer
pub trait AnyInx<'de>: PtrInx {
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
        ensures r matches Ok(x) ==> writes(*self, stored(x)), serializer.sound() ==> r is Ok;
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
        ensures r matches Ok(x) ==> took(deserializer.form(), x), deserializer.sound() && fine::<Self>(deserializer.form()) ==> r is Ok;
}
impl<'de, I: PtrInx> AnyInx<'de> for I {
    #[verifier::external_body]
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> { unimplemented!() }
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
@@module serde_ptr !structs_s
@@text
use crate::serde_spec::*;
use crate::ptr_structs::*;
use core::num::*;
broadcast use {ptr_axioms, serde_ptr_defs};
@@foreach S : PtrDefault ; PtrInxOnly ; PtrGenOnly ; PtrNone ; PtrMultiA ; PtrMultiB ; PtrIUsG8 ; PtrIUsG16 ; PtrIUsG32 ; PtrIUsG64 ; PtrIUsG128 ; PtrIUsG0 ; PtrI8G8 ; PtrI8G16 ; PtrI8G32 ; PtrI8G64 ; PtrI8G128 ; PtrI8G0 ; PtrI16G8 ; PtrI16G16 ; PtrI16G32 ; PtrI16G64 ; PtrI16G128 ; PtrI16G0 ; PtrI32G8 ; PtrI32G16 ; PtrI32G32 ; PtrI32G64 ; PtrI32G128 ; PtrI32G0 ; PtrI64G8 ; PtrI64G16 ; PtrI64G32 ; PtrI64G64 ; PtrI64G128 ; PtrI64G0
@@impl {S} as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl {S} as Deserialize props=E01,E02
@@endfor
@@module serde_png !core_s
@@text
use crate::serde_spec::{writes, took, fine, stored, serde_ptr_defs, Serializer, Deserializer};
use crate::serde_inx::AnyInx;
use crate::serde_inx::AnyInx as Deserialize;
broadcast use {ptr_axioms, serde_ptr_defs};
@@fn PtrNoGen as Serialize::serialize name=vp_serialize props=E01
    ensures r matches Ok(x) ==> writes(*self, stored(x)), serializer.sound() ==> r is Ok,
@@fn PtrNoGen as Deserialize::deserialize name=vp_deserialize props=E01,E02
    ensures r matches Ok(x) ==> took(deserializer.form(), x), deserializer.sound() && fine::<Self>(deserializer.form()) ==> r is Ok,
