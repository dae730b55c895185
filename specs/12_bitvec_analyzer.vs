//@ module utils::bitvec
pub mod utils_bitvec {
use vstd::prelude::*;
use crate::prelude::*;
//@ type BitVec
impl BitVec {
    pub open spec fn wf(&self) -> bool { self.len <= 64 * self.bits@.len() }
    pub open spec fn clear(&self) -> bool { forall|i: int| 0 <= i < self.bits@.len() ==> self.bits@[i] == 0 }
}
//@ fn BitVec::with_capacity
//@ props C17,C15
//@ rewrite (0..(capacity as u64).div_ceil(64)).collect() =>> crate::prelude::v_collect_u64_range(0..(capacity as u64).div_ceil(64))
    ensures res.wf(), res.len == capacity,
//@ endfn
//@ fn BitVec::clear_all
//@ props C17,C15
//@ rewrite self.bits.fill(0) =>> crate::prelude::v_fill(&mut self.bits, 0)
    requires old(self).wf(),
    ensures final(self).wf(), final(self).len == old(self).len, final(self).clear(),
//@ endfn
//@ fn BitVec::set
//@ props C17,C15
    requires old(self).wf(), index < old(self).len,
    ensures final(self).wf(), final(self).len == old(self).len,
//@ endfn
//@ fn BitVec::get
//@ props C17,C15
    requires self.wf(), index < self.len,
    ensures self.clear() ==> !res,
//@ ghost start
        proof {
            let b = (index % 64) as u64;
            assert((0u64 & (1u64 << b)) == 0) by (bit_vector);
            assert((0u64 & (1u64 << (index % 64))) == 0) by (bit_vector);
        }
//@ endfn
}
//@ module analyzers::hash_code_analyzer
pub mod analyzers_hash_code {
use vstd::prelude::*;
use crate::prelude::*;
use crate::utils_bitvec::*;
use vstd::std_specs::iter::IteratorSpec;
//@ type HashCodeAnalysisResult
/// the number of slots chosen for n hash codes is a power of two and at most the least power of two >= 10n
pub open spec fn slots_ok(n: int, s: int) -> bool {
    is_p2(s) && forall|p: int| is_p2(p) && 10 * n <= p ==> s <= p
}
//@ fn analyze_hash_codes
//@ props C01,C15,C17
//@ rewrite hash_codes.collect() =>> crate::prelude::v_collect_vec_u64(hash_codes)
//@ rewrite (code % (num_slots as u64)) =>> (*code % (num_slots as u64))
    requires hash_codes.obeys_prophetic_iter_laws(),
    ensures hash_codes.remaining().len() > 0 ==> slots_ok(hash_codes.remaining().len() as int, res.num_hash_slots as int),
//@ ghost start
    proof { lemma_pow2_gap(); }
    let ghost n = hash_codes.remaining().len() as int;
//@ loop 0
        invariant
            n == hash_codes@.len(), n <= 0x1000_0000_0000_0000,
            use_table.wf(), use_table.len == max_size,
            is_p2(num_slots as int), is_p2(max_size as int), max_size <= 0x4000_0000_0000_0000, num_slots <= 0x8000_0000_0000_0000,
            forall|p: int| is_p2(p) && 10 * n <= p ==> max_size <= p,
            best_num_slots == 0 ==> best_num_collisions == n,
            best_num_slots != 0 ==> best_num_slots <= max_size && is_p2(best_num_slots as int),
            best_num_collisions <= n,
            n > 0 && best_num_slots == 0 ==> num_slots <= max_size,
            acceptable_collisions <= n,
        decreases 0x8000_0000_0000_0001 - num_slots,
//@ loop 1
            invariant
                n == hash_codes@.len(),
                use_table.wf(), use_table.len == max_size, is_p2(num_slots as int), 0 < num_slots <= max_size,
                it1.seq() == hash_codes@.as_ref(),
                it1.index() == 0 ==> use_table.clear() && num_collisions == 0,
                it1.index() > 0 ==> num_collisions < it1.index(),
                best_num_collisions <= n,
                best_num_slots == 0 ==> best_num_collisions == n,
//@ endfn
}
