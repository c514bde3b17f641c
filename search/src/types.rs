//! The pointer types that are exercised
use std::num::{NonZeroU128, NonZeroU16, NonZeroU8};

use triple_arena::ptr_struct;

ptr_struct!(PDef);
ptr_struct!(P88[NonZeroU8](NonZeroU8));
ptr_struct!(PNo());
ptr_struct!(P8No[NonZeroU8]());
ptr_struct!(P1616[NonZeroU16](NonZeroU16));
ptr_struct!(PG8(NonZeroU8));
ptr_struct!(PWide[NonZeroU128](NonZeroU128));
