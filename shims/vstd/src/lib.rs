//! `std` as seen by the staged sources: everything is re-exported from the real
//! standard library, except the hash containers, which are replaced by a model that
//! implements the documented contract of HashMap/HashSet (finite map / finite set,
//! unspecified iteration order) with a vector of entries.
pub use ::std::*;
pub mod arr;
#[path = "hashmap.rs"]
mod hashmap;
#[path = "hashset.rs"]
mod hashset;
pub mod collections {
    pub use crate::hashmap::HashMap;
    pub use crate::hashset::HashSet;
    pub use ::std::collections::{btree_map, btree_set, BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque, TryReserveError};
    pub mod hash_map {
        pub use crate::hashmap::*;
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
    }
    pub mod hash_set {
        pub use crate::hashset::*;
    }
}
pub mod sync {
    pub use ::std::sync::*;
    mod model;
    mod arc;
    pub use arc::{Arc, Inner as ArcInner};
    pub use model::{Mutex, MutexGuard};
}
/// `Vec::new()` and `Vec::with_capacity(n)` of the staged sources: a vector may have more
/// capacity than asked for; a concrete capacity keeps the heap of the model simple. The model
/// is never more permissive than the standard library: growth beyond it still works.
#[cfg(not(feature = "vec256"))]
pub const VEC_CAP: usize = 8;
#[cfg(feature = "vec256")]
pub const VEC_CAP: usize = 256;
pub fn vec_new<T>() -> Vec<T> { Vec::with_capacity(VEC_CAP) }
pub fn vec_with_capacity<T>(_n: usize) -> Vec<T> { Vec::with_capacity(VEC_CAP) }
mod show;
pub use show::{vp_string, Show};
mod now;
pub use now::{now, Now, Wait, EXPECT_WAIT};
