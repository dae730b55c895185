//@ module traits::collection_magnitude
pub mod traits_collection_magnitude {
use vstd::prelude::*;
use crate::prelude::*;
use vstd::std_specs::convert::*;

/// Trait declaration of the crate with its laws added as ghost members.
pub trait CollectionMagnitude: Copy + TryFrom<usize> + Into<usize> {
    const MAX_CAPACITY: usize;
    const ZERO: Self;
    spec fn un(self) -> int;
    proof fn laws()
        ensures
            <Self as IntoSpec<usize>>::obeys_into_spec(),
            forall|x: Self| 0 <= #[trigger] x.un() && x.un() == <Self as IntoSpec<usize>>::into_spec(x) && x.un() <= Self::MAX_CAPACITY,
            Self::ZERO.un() == 0,
            <Self as TryFromSpec<usize>>::obeys_try_from_spec(),
            forall|n: usize| n <= Self::MAX_CAPACITY ==> (#[trigger] <Self as TryFromSpec<usize>>::try_from_spec(n)) is Ok
                && <Self as TryFromSpec<usize>>::try_from_spec(n)->Ok_0.un() == n;
}
//@ type SmallCollection
//@ type MediumCollection
//@ type LargeCollection
//@ proof CollectionMagnitude-for-SmallCollection C01,C15
impl CollectionMagnitude for SmallCollection {
//@ consts SmallCollection@CollectionMagnitude
    open spec fn un(self) -> int { self as int }
    proof fn laws() { }
}
//@ endproof
//@ proof CollectionMagnitude-for-MediumCollection C01,C15
impl CollectionMagnitude for MediumCollection {
//@ consts MediumCollection@CollectionMagnitude
    open spec fn un(self) -> int { self as int }
    proof fn laws() { }
}
//@ endproof
//@ proof CollectionMagnitude-for-LargeCollection C01,C15
impl CollectionMagnitude for LargeCollection {
//@ consts LargeCollection@CollectionMagnitude
    open spec fn un(self) -> int { self as int }
    proof fn laws() { 
        axiom_usize_identity_conversions();
    }
}
//@ endproof
}
