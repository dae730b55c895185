//@ module hash_tables::hash_table_slot
pub mod hash_tables_slot {
use vstd::prelude::*;
use crate::prelude::*;
use crate::traits_collection_magnitude::*;
//@ type HashTableSlot
//@ fn HashTableSlot::new
//@ props C01,C06
    ensures res.min_index == min_index, res.max_index == max_index,
//@ endfn
//@ fn HashTableSlot::is_empty
//@ props C12
    ensures res == (self.max_index.un() == 0),
//@ ghost start
        proof { CM::laws(); }
//@ endfn
}
pub mod hash_tables_common {
use vstd::prelude::*;
use crate::prelude::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_slot::*;

/// Shape of a bucketed table: a power-of-two number of slots, each naming a run of the entries.
pub open spec fn table_wf<T, CM: CollectionMagnitude>(slots: Seq<HashTableSlot<CM>>, entries: Seq<T>, mask: u64) -> bool {
    &&& is_p2(slots.len() as int)
    &&& mask == slots.len() - 1
    &&& forall|s: int| 0 <= s < slots.len() ==> 0 <= (#[trigger] slots[s]).min_index.un() <= slots[s].max_index.un() <= entries.len()
}
/// no slot holds more than one entry
pub open spec fn solitary<CM: CollectionMagnitude>(slots: Seq<HashTableSlot<CM>>) -> bool {
    forall|s: int| 0 <= s < slots.len() ==> (#[trigger] slots[s]).max_index.un() - slots[s].min_index.un() <= 1
}
/// an empty slot is written as (0, 0)
pub open spec fn tidy<CM: CollectionMagnitude>(slots: Seq<HashTableSlot<CM>>) -> bool {
    forall|s: int| 0 <= s < slots.len() ==> (#[trigger] slots[s]).min_index.un() == slots[s].max_index.un() ==> slots[s].max_index.un() == 0
}
/// i lies in the run of the slot that hash code h selects
pub open spec fn in_run<CM: CollectionMagnitude>(slots: Seq<HashTableSlot<CM>>, mask: u64, h: u64, i: int) -> bool {
    let s = slots[(h & mask) as int];
    s.min_index.un() <= i < s.max_index.un()
}
/// every entry lies in the run of its own hash code
pub open spec fn table_hashed<T, CM: CollectionMagnitude>(slots: Seq<HashTableSlot<CM>>, entries: Seq<T>, mask: u64, h: spec_fn(T) -> u64) -> bool {
    forall|i: int| 0 <= i < entries.len() ==> in_run(slots, mask, #[trigger] h(entries[i]), i)
}
/// (trigger helper) the closure may be called on entry e
pub open spec fn can<T, F: Fn(&T) -> bool>(f: F, e: T) -> bool { f.requires((&e,)) }
/// (trigger helper) the closure answered b on entry e
pub open spec fn said<T, F: Fn(&T) -> bool>(f: F, e: T, b: bool) -> bool { f.ensures((&e,), b) }
}
//@ module hash_tables::hash_table
pub mod hash_tables_hash_table {
use vstd::prelude::*;
use crate::prelude::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_slot::*;
use crate::hash_tables_common::*;
use crate::perm::*;
use core::cmp::Ordering;
use crate::utils_dedup::*;
use crate::analyzers_hash_code::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::convert::*;
//@ type HashTable
//@ type PrepItem
impl<T, CM: CollectionMagnitude> HashTable<T, CM> {
    pub open spec fn wf(&self) -> bool { table_wf(self.slots@, self.entries@, self.mask) }
    pub open spec fn hashed(&self, h: spec_fn(T) -> u64) -> bool { table_hashed(self.slots@, self.entries@, self.mask, h) }
    pub open spec fn run(&self, h: u64) -> spec_fn(int) -> bool { |i: int| in_run(self.slots@, self.mask, h, i) }
}
//@ include hash_table_find.vsi TY=HashTable

/// the slot recorded for e is its hash code modulo n
pub open spec fn slotted<T, F: Fn(&T) -> u64>(hash: F, e: T, slot: usize, n: int) -> bool {
    exists|hc: u64| #[trigger] hash.ensures((&e,), hc) && slot == hc as int % n
}
pub open spec fn prep_ok<T, F: Fn(&T) -> u64>(hash: F, p: Seq<PrepItem<T>>, n: int) -> bool {
    forall|k: int| 0 <= k < p.len() ==> slotted(hash, #[trigger] p[k].entry, p[k].hash_slot_index, n)
}
pub open spec fn prepped<T>(src: Seq<T>, p: Seq<PrepItem<T>>) -> bool {
    forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k].entry == src[src.len() - 1 - k]
}
pub open spec fn prep_sorted<T>(p: Seq<PrepItem<T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).hash_slot_index <= (#[trigger] p[j]).hash_slot_index
}
pub open spec fn entries_of<T>(p: Seq<PrepItem<T>>) -> Seq<T> { p.map_values(|x: PrepItem<T>| x.entry) }
pub open spec fn slot_order<T>() -> spec_fn(PrepItem<T>, PrepItem<T>) -> Ordering {
    |a: PrepItem<T>, b: PrepItem<T>| if a.hash_slot_index < b.hash_slot_index { Ordering::Less } else if a.hash_slot_index == b.hash_slot_index { Ordering::Equal } else { Ordering::Greater }
}
/// reversed prefix: fe holds the entries of p from its end down to position m
pub open spec fn unwound<T>(p: Seq<PrepItem<T>>, fe: Seq<T>, m: int) -> bool {
    0 <= m <= p.len() && fe.len() == p.len() - m && forall|k: int| 0 <= k < fe.len() ==> #[trigger] fe[k] == p[p.len() - 1 - k].entry
}
/// the slots of all unwound positions contain their final index
pub open spec fn runs_ok<T, CM: CollectionMagnitude>(p: Seq<PrepItem<T>>, slots: Seq<HashTableSlot<CM>>, m: int) -> bool {
    &&& forall|s: int| 0 <= s < slots.len() ==> 0 <= (#[trigger] slots[s]).min_index.un() <= slots[s].max_index.un() <= p.len() - m
    &&& forall|k: int| 0 <= k < p.len() - m ==> slots[(#[trigger] p[p.len() - 1 - k]).hash_slot_index as int].min_index.un() <= k < slots[p[p.len() - 1 - k].hash_slot_index as int].max_index.un()
}
//@ proof hash-table-new-lemmas C01,C15
pub proof fn lemma_slot_order_lawful<T>()
    ensures lawful_cmp(slot_order::<T>()),
{ }
pub proof fn lemma_prep_perm<T, F: Fn(&T) -> u64>(hash: F, a: Seq<PrepItem<T>>, b: Seq<PrepItem<T>>, n: int)
    requires permuted(a, b), prep_ok(hash, a, n),
    ensures prep_ok(hash, b, n),
{
    lemma_permuted_members(a, b);
    assert forall|k: int| 0 <= k < b.len() implies slotted(hash, #[trigger] b[k].entry, b[k].hash_slot_index, n) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[k];
        assert(slotted(hash, a[i].entry, a[i].hash_slot_index, n));
    }
}
pub open spec fn separated<T>(p: Seq<PrepItem<T>>, m: int) -> bool {
    forall|i: int, j: int| 0 <= i < m <= j < p.len() ==> (#[trigger] p[i]).hash_slot_index < (#[trigger] p[j]).hash_slot_index
}
pub open spec fn same_slot<T>(p: Seq<PrepItem<T>>, a: int, b: int, s: usize) -> bool {
    forall|k: int| a <= k < b ==> (#[trigger] p[k]).hash_slot_index == s
}
pub proof fn lemma_runs_step<T, CM: CollectionMagnitude>(p: Seq<PrepItem<T>>, a: Seq<HashTableSlot<CM>>, b: Seq<HashTableSlot<CM>>, s: usize, m0: int, m1: int)
    requires
        0 <= m1 < m0 <= p.len(), prep_sorted(p), runs_ok(p, a, m0), separated(p, m0), same_slot(p, m1, m0, s), s < a.len(),
        m1 > 0 ==> p[m1 - 1].hash_slot_index != s, forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).hash_slot_index < a.len(),
        b.len() == a.len(), forall|i: int| 0 <= i < a.len() && i != s ==> #[trigger] b[i] == a[i],
        b[s as int].min_index.un() == p.len() - m0, b[s as int].max_index.un() == p.len() - m1,
    ensures runs_ok(p, b, m1), separated(p, m1),
{
    let n = p.len() as int;
    assert(p[m0 - 1].hash_slot_index == s);
    assert forall|k: int| 0 <= k < n - m1 implies b[(#[trigger] p[n - 1 - k]).hash_slot_index as int].min_index.un() <= k < b[p[n - 1 - k].hash_slot_index as int].max_index.un() by {
        let j = n - 1 - k;
        if j >= m0 {
            assert(p[m0 - 1].hash_slot_index < p[j].hash_slot_index);
            assert(p[n - 1 - k].hash_slot_index != s);
            assert(a[p[n - 1 - k].hash_slot_index as int].max_index.un() > k);
        }
    }
    assert forall|i: int, j: int| 0 <= i < m1 <= j < p.len() implies (#[trigger] p[i]).hash_slot_index < (#[trigger] p[j]).hash_slot_index by {
        assert(p[m1 - 1].hash_slot_index <= p[m1].hash_slot_index);
        assert(p[m1].hash_slot_index == s);
        if i < m1 - 1 { assert(p[i].hash_slot_index <= p[m1 - 1].hash_slot_index); }
        if j > m1 { assert(p[m1].hash_slot_index <= p[j].hash_slot_index); }
    }
}
pub proof fn lemma_slots_bound<T, F: Fn(&T) -> u64>(hash: F, p: Seq<PrepItem<T>>, n: int)
    requires prep_ok(hash, p, n), n > 0,
    ensures forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).hash_slot_index < n,
{
    assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).hash_slot_index < n by {
        assert(slotted(hash, p[k].entry, p[k].hash_slot_index, n));
    }
}
pub proof fn lemma_new_done<T, CM: CollectionMagnitude, F: Fn(&T) -> u64>(hash: F, src: Seq<T>, p0: Seq<PrepItem<T>>, p: Seq<PrepItem<T>>, fe: Seq<T>, slots: Seq<HashTableSlot<CM>>, mask: u64)
    requires
        src.len() == p0.len(), prepped(src, p0),
        permuted(p0, p), prep_ok(hash, p, slots.len() as int), unwound(p, fe, 0), runs_ok(p, slots, 0), is_p2(slots.len() as int), mask == slots.len() - 1,
    ensures
        permuted(src, fe), table_wf(slots, fe, mask),
        forall|h: spec_fn(T) -> u64| #[trigger] hash_is(hash, h) ==> table_hashed(slots, fe, mask, h),
{
    lemma_permuted_reverse(src, entries_of(p0));
    lemma_permuted_map(p0, p, |x: PrepItem<T>| x.entry);
    lemma_permuted_reverse(entries_of(p), fe);
    lemma_permuted_trans(src, entries_of(p0), entries_of(p));
    lemma_permuted_trans(src, entries_of(p), fe);
    assert forall|h: spec_fn(T) -> u64| #[trigger] hash_is(hash, h) implies table_hashed(slots, fe, mask, h) by {
        assert forall|i: int| 0 <= i < fe.len() implies in_run(slots, mask, #[trigger] h(fe[i]), i) by {
            let j = p.len() - 1 - i;
            assert(slotted(hash, p[j].entry, p[j].hash_slot_index, slots.len() as int));
            lemma_mask_is_mod(h(fe[i]), mask, slots.len() as int);
        }
    }
}
//@ endproof
/// no more slots than the least power of two not below ten times the number of entries
pub open spec fn thrifty<T, CM: CollectionMagnitude>(t: HashTable<T, CM>) -> bool {
    if t.entries@.len() == 0 { t.slots@.len() <= 1 } else { slots_ok(t.entries@.len() as int, t.slots@.len() as int) }
}
//@ fn HashTable@Default::default
//@ props C01,C06,C15,C17
//@ mode free
//@ rename hash_table_default
//@ ghost start
        proof { CM::laws(); lemma_pow2_values(); }
//@ spec
    ensures res.wf(), res.entries@.len() == 0, res.slots@.len() == 1, tidy(res.slots@),
//@ endfn
//@ fn HashTable::has_collisions
//@ props C12
    requires self.wf(),
    ensures res == !solitary(self.slots@),
//@ closure 0
|slot: &HashTableSlot<CM>| -> (b: bool) requires slot.min_index.un() <= slot.max_index.un() ensures b == (slot.max_index.un() - slot.min_index.un() > 1)
//@ ghost start
        proof {
            CM::laws();
            assert forall|i: int| #![trigger self.slots@.as_ref()[i]] #![trigger self.slots@[i]] 0 <= i < self.slots@.len() implies *self.slots@.as_ref()[i] == self.slots@[i] by {}
        }
//@ endfn
//@ fn HashTable::new
//@ attr #[verifier::allow_complex_invariants]
//@ props C01,C02,C06,C12,C15,C17
//@ rewrite Self::default() =>> hash_table_default::<T, CM>()
//@ rewrite entries.iter().map(&hash) =>> crate::prelude::v_iter_map(entries.iter(), |__x| hash(__x))
    requires forall|a: &T| #[trigger] hash.requires((a,)),
    ensures
        res is Err <==> entries.inner@.len() > CM::MAX_CAPACITY,
        res is Ok ==> tidy(res->Ok_0.slots@),
        res is Ok ==> res->Ok_0.wf() && permuted(entries.inner@, res->Ok_0.entries@),
        res is Ok ==> thrifty(res->Ok_0), // [C17]
        res is Ok ==> forall|h: spec_fn(T) -> u64| #![trigger hash_is(hash, h)] #![trigger want(h)] hash_is(hash, h) ==> res->Ok_0.hashed(h),
//@ closure 0
|__x: &T| -> (__r: u64) requires hash.requires((__x,)) ensures hash.ensures((__x,), __r)
//@ closure 1
|x: &PrepItem<T>, y: &PrepItem<T>| -> (o: Ordering) ensures o == slot_order()(*x, *y)
//@ closure 2
|| -> (o: HashTableSlot<CM>) ensures o.min_index == CM::ZERO, o.max_index == CM::ZERO
//@ ghost start
        let ghost src = entries.inner@;
        proof {
            CM::laws();
            assert forall|a: Seq<T>, b: Seq<T>| #[trigger] permuted(a, b) implies a.len() == b.len() by { lemma_permuted_members(a, b); }
            if src.len() == 0 {
                lemma_permuted_refl(src);
                assert forall|e: Seq<T>| #[trigger] e.len() == 0 implies e == src by { assert(e =~= src); }
            }
        }
//@ ghost before_loop 0
        let ghost ns = num_hash_slots as int;
        proof { lemma_pow2_gap(); }
//@ loop 0
            invariant
                entries@ == src.take(entries@.len() as int), entries@.len() <= src.len(), entries@.len() + prep_items@.len() == src.len(),
                forall|a: &T| #[trigger] hash.requires((a,)), ns == num_hash_slots, ns > 0,
                prepped(src, prep_items@),
                prep_ok(hash, prep_items@, ns),
            decreases entries@.len(),
//@ ghost after_loop 0
        let ghost p0 = prep_items@;
//@ ghost before_loop 1
        let ghost p = prep_items@;
        proof {
            lemma_slot_order_lawful::<T>();
            lemma_prep_perm(hash, p0, p, ns);
            lemma_permuted_members(p0, p);
            lemma_slots_bound(hash, p, ns);
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).hash_slot_index <= (#[trigger] p[j]).hash_slot_index by {
                assert(slot_order::<T>()(p[i], p[j]) != Ordering::Greater);
            }
        }
//@ loop 1
            invariant
                p.len() == src.len(), p.len() <= CM::MAX_CAPACITY, prep_sorted(p), slots@.len() == ns,
                forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).hash_slot_index < ns,
                prep_items@ == p.take(prep_items@.len() as int), prep_items@.len() <= p.len(),
                entry_index == p.len() - prep_items@.len(),
                unwound(p, final_entries@, prep_items@.len() as int),
                runs_ok(p, slots@, prep_items@.len() as int),
                separated(p, prep_items@.len() as int),
                tidy(slots@),
            decreases prep_items@.len(),
//@ ghost loop_begin 1
            let ghost m0: int = prep_items@.len() + 1int;
            let ghost slots0 = slots@;
            assert(item == p[m0 - 1]);
//@ loop 2
                invariant
                    prep_items@ == p.take(prep_items@.len() as int), prep_items@.len() < m0 <= p.len(),
                    item == p[prep_items@.len() as int], item.hash_slot_index == hash_slot_index,
                    num_entries_in_hash_slot == m0 - 1 - prep_items@.len(),
                    unwound(p, final_entries@, prep_items@.len() + 1int),
                    same_slot(p, prep_items@.len() as int, m0, hash_slot_index),
                ensures
                    prep_items@ == p.take(prep_items@.len() as int), prep_items@.len() < m0,
                    num_entries_in_hash_slot == m0 - prep_items@.len(),
                    unwound(p, final_entries@, prep_items@.len() as int),
                    same_slot(p, prep_items@.len() as int, m0, hash_slot_index),
                    prep_items@.len() > 0 ==> p[prep_items@.len() - 1].hash_slot_index != hash_slot_index,
                decreases prep_items@.len(),
//@ ghost loop_end 1
            proof { lemma_runs_step(p, slots0, slots@, hash_slot_index, m0, prep_items@.len() as int); }
//@ ghost end
        proof { lemma_new_done(hash, src, p0, p, final_entries@, slots@, (slots@.len() - 1) as u64); }
//@ endfn
}
//@ module hash_tables::inline_hash_table
pub mod hash_tables_inline_hash_table {
use vstd::prelude::*;
use crate::prelude::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_slot::*;
use crate::hash_tables_common::*;
//@ type InlineHashTable
impl<T, const SZ: usize, const NHS: usize, CM: CollectionMagnitude> InlineHashTable<T, SZ, NHS, CM> {
    pub open spec fn wf(&self) -> bool { table_wf(self.slots@, self.entries@, self.mask) }
    pub open spec fn hashed(&self, h: spec_fn(T) -> u64) -> bool { table_hashed(self.slots@, self.entries@, self.mask, h) }
    pub open spec fn run(&self, h: u64) -> spec_fn(int) -> bool { |i: int| in_run(self.slots@, self.mask, h, i) }
}
//@ include hash_table_find.vsi TY=InlineHashTable
//@ fn InlineHashTable::new_raw
//@ props C12,C06
    requires NHS > 0,
    ensures res.entries@ == processed_entries@, res.slots@ == slots@, res.mask == NHS - 1,
//@ endfn
}
//@ module hash_tables::inline_hash_table_no_collisions
pub mod hash_tables_inline_hash_table_no_collisions {
use vstd::prelude::*;
use crate::hash_tables_slot::*;
use crate::prelude::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
//@ type InlineHashTableNoCollisions
impl<T, const SZ: usize, const NHS: usize, CM: CollectionMagnitude> InlineHashTableNoCollisions<T, SZ, NHS, CM> {
    pub open spec fn wf(&self) -> bool {
        is_p2(self.slots@.len() as int) && self.mask == self.slots@.len() - 1 && forall|s: int| 0 <= s < self.slots@.len() ==> 0 <= (#[trigger] self.slots@[s]).un() <= self.entries@.len()
    }
    pub open spec fn run(&self, h: u64) -> spec_fn(int) -> bool { |i: int| self.slots@[(h & self.mask) as int].un() - 1 == i }
    pub open spec fn hashed(&self, h: spec_fn(T) -> u64) -> bool { forall|i: int| 0 <= i < self.entries@.len() ==> self.run(#[trigger] h(self.entries@[i]))(i) }
}
/// what the code generator writes for slot s of a table without collisions: 0 for an empty slot, else one more than its entry
pub open spec fn narrowed<CM2: CollectionMagnitude>(s: HashTableSlot<CM2>) -> int { if s.max_index.un() == 0 { 0 } else { s.min_index.un() + 1 } }
/// slots is what the generator writes for the table (slots0, entries)
pub open spec fn narrows<CM2: CollectionMagnitude, CM: CollectionMagnitude>(slots0: Seq<HashTableSlot<CM2>>, slots: Seq<CM>) -> bool {
    slots.len() == slots0.len() && forall|s: int| 0 <= s < slots.len() ==> (#[trigger] slots[s]).un() == narrowed(slots0[s])
}
//@ proof table-without-collisions-narrows C12
/// a table without collisions, written out with one number per slot, still finds every entry
pub proof fn theorem_narrowed<T, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, CM2: CollectionMagnitude>(t: InlineHashTableNoCollisions<T, SZ, NHS, CM>, slots0: Seq<HashTableSlot<CM2>>, h: spec_fn(T) -> u64)
    requires table_wf(slots0, t.entries@, t.mask), table_hashed(slots0, t.entries@, t.mask, h), solitary(slots0), narrows(slots0, t.slots@),
        tidy(slots0),
    ensures t.wf(), t.hashed(h),
{
    assert forall|s: int| 0 <= s < t.slots@.len() implies 0 <= (#[trigger] t.slots@[s]).un() <= t.entries@.len() by { let x = slots0[s]; assert(x.min_index.un() <= x.max_index.un()); }
    assert forall|i: int| 0 <= i < t.entries@.len() implies t.run(#[trigger] h(t.entries@[i]))(i) by {
        let hc = h(t.entries@[i]);
        assert(in_run(slots0, t.mask, hc, i));
        lemma_mask_is_mod(hc, t.mask, slots0.len() as int);
        let x = slots0[(hc & t.mask) as int];
        assert(x.min_index.un() <= i < x.max_index.un());
        assert(t.slots@[(hc & t.mask) as int].un() == narrowed(x));
    }
}
//@ endproof
//@ fn InlineHashTableNoCollisions::new_raw
//@ props C12,C06
    requires NHS > 0,
    ensures res.entries@ == processed_entries@, res.slots@ == slots@, res.mask == NHS - 1,
//@ endfn
//@ fn InlineHashTableNoCollisions::find
//@ props C05,C06,C12,C16
    requires self.wf(), forall|i: int| 0 <= i < self.entries@.len() ==> can(eq, #[trigger] self.entries@[i]),
    ensures
        match res {
            Some(t) => exists|i: int| 0 <= i < self.entries@.len() && self.run(hash_code)(i)
                && *t == #[trigger] self.entries@[i] && said(eq, self.entries@[i], true),
            None => forall|i: int| 0 <= i < self.entries@.len() && self.run(hash_code)(i) ==> said(eq, #[trigger] self.entries@[i], false),
        },
//@ ghost start
        proof { lemma_mask_is_mod(hash_code, self.mask, self.slots@.len() as int); CM::laws(); }
//@ endfn
//@ fn InlineHashTableNoCollisions::find_mut
//@ props C07,C06,C16
    requires old(self).wf(), forall|i: int| 0 <= i < old(self).entries@.len() ==> can(eq, #[trigger] old(self).entries@[i]),
    ensures
        final(self).slots == old(self).slots, final(self).mask == old(self).mask,
        match res {
            Some(t) => exists|i: int| 0 <= i < old(self).entries@.len() && old(self).run(hash_code)(i)
                && *t == #[trigger] old(self).entries@[i] && said(eq, old(self).entries@[i], true)
                && final(self).entries@ == old(self).entries@.update(i, *final(t)),
            None => final(self).entries@ == old(self).entries@
                && forall|i: int| 0 <= i < old(self).entries@.len() && old(self).run(hash_code)(i) ==> said(eq, #[trigger] old(self).entries@[i], false),
        },
//@ ghost start
        proof { lemma_mask_is_mod(hash_code, self.mask, self.slots@.len() as int); CM::laws(); }
//@ endfn
//@ fn InlineHashTableNoCollisions::len
//@ props C02,C08,C16
    ensures res == self.entries@.len(),
//@ endfn
}
