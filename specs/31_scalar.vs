//@ module traits::scalar
pub mod traits_scalar {
use vstd::prelude::*;
use crate::prelude::*;
use crate::query::*;
use vstd::std_specs::cmp::*;
use core::num::*;
//@ include scalar_u.vsi T=u8; KEY=u8; VAL=*self
//@ include scalar_u.vsi T=u16; KEY=u16; VAL=*self
//@ include scalar_u.vsi T=u32; KEY=u32; VAL=*self
//@ include scalar_u.vsi T=u64; KEY=u64; VAL=*self
//@ include scalar_u.vsi T=usize; KEY=usize; VAL=*self
//@ include scalar_i.vsi T=i8; KEY=i8; VAL=*self; B=i8; U=u8; W=i16; H=0x80
//@ include scalar_i.vsi T=i16; KEY=i16; VAL=*self; B=i16; U=u16; W=i32; H=0x8000
//@ include scalar_i.vsi T=i32; KEY=i32; VAL=*self; B=i32; U=u32; W=i64; H=0x8000_0000
//@ include scalar_i.vsi T=i64; KEY=i64; VAL=*self; B=i64; U=u64; W=i128; H=0x8000_0000_0000_0000
//@ include scalar_i.vsi T=isize; KEY=isize; VAL=*self; B=isize; U=usize; W=i128; H=0x8000_0000_0000_0000
// `Ord for NonZero<T>` compares the contained values; Verus has no model of those impls, so the index functions are stated over the value
//@ include scalar_nzu.vsi T=NonZeroU8; KEY=NonZeroU8; VAL=self@
//@ include scalar_nzu.vsi T=NonZeroU16; KEY=NonZeroU16; VAL=self@
//@ include scalar_nzu.vsi T=NonZeroU32; KEY=NonZeroU32; VAL=self@
//@ include scalar_nzu.vsi T=NonZeroU64; KEY=NonZeroU64; VAL=self@
//@ include scalar_nzu.vsi T=NonZeroUsize; KEY=NonZeroUsize; VAL=self@
//@ include scalar_nzi.vsi T=NonZeroI8; KEY=NonZeroI8; VAL=self@; B=i8; U=u8; W=i16; H=0x80
//@ include scalar_nzi.vsi T=NonZeroI16; KEY=NonZeroI16; VAL=self@; B=i16; U=u16; W=i32; H=0x8000
//@ include scalar_nzi.vsi T=NonZeroI32; KEY=NonZeroI32; VAL=self@; B=i32; U=u32; W=i64; H=0x8000_0000
//@ include scalar_nzi.vsi T=NonZeroI64; KEY=NonZeroI64; VAL=self@; B=i64; U=u64; W=i128; H=0x8000_0000_0000_0000
//@ include scalar_nzi.vsi T=NonZeroIsize; KEY=NonZeroIsize; VAL=self@; B=isize; U=usize; W=i128; H=0x8000_0000_0000_0000
}
