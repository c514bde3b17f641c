//! Stand-in without the serialization feature of the crate
use triple_arena::{Arena, Ptr};

use crate::{arena::Model, kit::*};

pub const HAS: bool = false;

pub fn to_bytes<T>(_: &T, _: u32) -> Result<Vec<u8>, String> {
    unreachable!()
}

pub fn from_bytes<T>(_: &[u8], _: u32) -> Result<T, String> {
    unreachable!()
}

pub fn arena_roundtrip<P: Ptr>(
    _: &mut Arena<P, Tok>,
    _: &mut Model,
    _: &mut Vec<P>,
    _: &Op,
    _: &mut Cx,
) {
}
