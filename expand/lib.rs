//! Uses of the pointer macro of the crate, only ever expanded: the driver
//! hands the expansion to the extractor.
use triple_arena::ptr_struct;

// the shorthand arms
ptr_struct!(PtrDefault);
ptr_struct!(PtrInxOnly[core::num::NonZeroU16]);
ptr_struct!(PtrGenOnly(core::num::NonZeroU16));
ptr_struct!(PtrNone());

// several structs in one invocation
ptr_struct!(PtrMultiA[core::num::NonZeroU16](core::num::NonZeroU32); PtrMultiB[core::num::NonZeroU64](core::num::NonZeroU8) doc="with attribute");

// every index type with every generation type
ptr_struct!(PtrIUsG8[core::num::NonZeroUsize](core::num::NonZeroU8));
ptr_struct!(PtrIUsG16[core::num::NonZeroUsize](core::num::NonZeroU16));
ptr_struct!(PtrIUsG32[core::num::NonZeroUsize](core::num::NonZeroU32));
ptr_struct!(PtrIUsG64[core::num::NonZeroUsize](core::num::NonZeroU64));
ptr_struct!(PtrIUsG128[core::num::NonZeroUsize](core::num::NonZeroU128));
ptr_struct!(PtrIUsG0[core::num::NonZeroUsize]());
ptr_struct!(PtrI8G8[core::num::NonZeroU8](core::num::NonZeroU8));
ptr_struct!(PtrI8G16[core::num::NonZeroU8](core::num::NonZeroU16));
ptr_struct!(PtrI8G32[core::num::NonZeroU8](core::num::NonZeroU32));
ptr_struct!(PtrI8G64[core::num::NonZeroU8](core::num::NonZeroU64));
ptr_struct!(PtrI8G128[core::num::NonZeroU8](core::num::NonZeroU128));
ptr_struct!(PtrI8G0[core::num::NonZeroU8]());
ptr_struct!(PtrI16G8[core::num::NonZeroU16](core::num::NonZeroU8));
ptr_struct!(PtrI16G16[core::num::NonZeroU16](core::num::NonZeroU16));
ptr_struct!(PtrI16G32[core::num::NonZeroU16](core::num::NonZeroU32));
ptr_struct!(PtrI16G64[core::num::NonZeroU16](core::num::NonZeroU64));
ptr_struct!(PtrI16G128[core::num::NonZeroU16](core::num::NonZeroU128));
ptr_struct!(PtrI16G0[core::num::NonZeroU16]());
ptr_struct!(PtrI32G8[core::num::NonZeroU32](core::num::NonZeroU8));
ptr_struct!(PtrI32G16[core::num::NonZeroU32](core::num::NonZeroU16));
ptr_struct!(PtrI32G32[core::num::NonZeroU32](core::num::NonZeroU32));
ptr_struct!(PtrI32G64[core::num::NonZeroU32](core::num::NonZeroU64));
ptr_struct!(PtrI32G128[core::num::NonZeroU32](core::num::NonZeroU128));
ptr_struct!(PtrI32G0[core::num::NonZeroU32]());
ptr_struct!(PtrI64G8[core::num::NonZeroU64](core::num::NonZeroU8));
ptr_struct!(PtrI64G16[core::num::NonZeroU64](core::num::NonZeroU16));
ptr_struct!(PtrI64G32[core::num::NonZeroU64](core::num::NonZeroU32));
ptr_struct!(PtrI64G64[core::num::NonZeroU64](core::num::NonZeroU64));
ptr_struct!(PtrI64G128[core::num::NonZeroU64](core::num::NonZeroU128));
ptr_struct!(PtrI64G0[core::num::NonZeroU64]());
