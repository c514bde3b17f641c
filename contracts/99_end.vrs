@@module -
@@text
pub use nonzero_inx_vec::*;
pub use ptr::*;
pub use arena_spec::*;
pub use base_arena::*;
pub use arena_iterators::*;
pub use chain_spec::*;
pub use chain_arena::*;
pub use chain_ng_spec::*;
pub use surject_spec::*;
pub use ptr_no_gen::*;
pub use ord_tree::*;
pub use ord_spec::*;
pub use ord_insert::*;
pub use ord_remove::*;

pub use ord_ops::*; pub use ord_find::*;
fn main() {}
} // verus!
