//@ module analyzers::slice_key_analyzer
pub mod analyzers_slice_key_analyzer {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use core::cmp::{max, min};
use core::hash::*;
use core::ops::Range;
use crate::prelude::*;
use crate::hashing::*;
use crate::hashbrown::HashMap as HashbrownMap;
use crate::hashbrown::HashSet as HashbrownSet;
//@ type SliceKeyAnalysisResult
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::max::<T>] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b };
/// every key has at least n elements
pub open spec fn all_reach<T>(keys: Seq<&[T]>, n: int) -> bool { forall|i: int| 0 <= i < keys.len() ==> n <= (#[trigger] keys[i])@.len() }
/// a subslice range is only chosen when every key has it
pub open spec fn fits<T>(keys: Seq<&[T]>, r: SliceKeyAnalysisResult) -> bool {
    match r {
        SliceKeyAnalysisResult::LeftHandSubslice(g) => g.start < g.end && all_reach(keys, g.end as int),
        SliceKeyAnalysisResult::RightHandSubslice(g) => g.start < g.end && all_reach(keys, g.end as int),
        _ => true,
    }
}
//@ fn is_sufficiently_unique
//@ props C05,C06,C15
//@ rewrite bh.hash_one =>> bh.v_hash_slice
    requires subslice_index + subslice_len <= usize::MAX, all_reach(keys@, subslice_index + subslice_len),
//@ loop 0
            invariant it0.seq() == keys@.as_ref(), subslice_index + subslice_len <= usize::MAX, all_reach(keys@, subslice_index + subslice_len),
//@ ghost loop_begin 0
            proof { assert(*s == keys@[it0.index() as int]); }
//@ endfn
//@ fn analyze_lengths
//@ props C05,C15
    ensures res is General || res is Length,
//@ endfn
//@ fn analyze_subslices
//@ props C05,C06,C15
    ensures fits(keys@, res), !(res is Length),
//@ loop 0
            invariant it0.seq() == keys@.as_ref(),
                forall|k: int| 0 <= k < it0.index() ==> min_len <= (#[trigger] keys@[k])@.len() && prefix_len <= keys@[k]@.len() && suffix_len <= keys@[k]@.len(),
                keys@.len() > 0 || min_len == usize::MAX,
                it0.index() == 0 ==> min_len == usize::MAX && max_len == 0,
//@ loop 1
            invariant keys@.len() > 0, prefix_len <= p0, p0 <= s@.len(), p0 <= keys@[0]@.len(),
//@ ghost before_loop 1
            let ghost p0 = prefix_len;
//@ ghost before_loop 2
            let ghost s0 = suffix_len;
//@ loop 2
            invariant keys@.len() > 0, suffix_len <= s0, s0 <= s@.len(), s0 <= keys@[0]@.len(),
//@ ghost loop_begin 0
            proof { assert(*s == keys@[it0.index() as int]); }
//@ loop 3
            invariant max_subslice_len <= min_len, max_subslice_len <= 16, 1 <= subslice_len <= max_subslice_len + 1, all_reach(keys@, min_len as int),
            decreases max_subslice_len + 1 - subslice_len,
//@ loop 4
            invariant 1 <= subslice_len <= min_len, all_reach(keys@, min_len as int),
            decreases min_len - subslice_index,
//@ loop 5
            invariant 1 <= subslice_len <= min_len, all_reach(keys@, min_len as int),
            decreases min_len - subslice_index,
//@ endfn
//@ fn analyze_slice_keys
//@ props C05,C06,C15
//@ rewrite keys.collect() =>> crate::prelude::v_collect(keys)
//@ rewrite result == SliceKeyAnalysisResult::General =>> matches!(result, SliceKeyAnalysisResult::General)
    ensures fits(crate::prelude::collected(keys), res),
//@ endfn
}
