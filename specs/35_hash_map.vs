//@ module maps::hash_map
pub mod maps_hash_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::hash_tables_hash_table::*;
use vstd::std_specs::cmp::*;
use crate::hashers_bridge::*;
//@ type HashMap
//@ include hash_map.vsi TY=HashMap; A=<K, V, CM, H>; GQ=<K, V, CM: CollectionMagnitude, Q: ?Sized + Equivalent<K>, H: Hasher<K> + Hasher<Q>>
//@ include common_iter.vsi TY=HashMap; E=self.entries.entries; OE=old(self).entries.entries; FE=final(self).entries.entries
//@ include map_traits.vsi TY=HashMap; A=<K, V, CM, H>; GL=<K, V, CM: CollectionMagnitude, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, CM: CollectionMagnitude, H: Hasher<Q>>; E=self.entries.entries@; SE=self_.entries.entries@; SOE=old(self_).entries.entries@; SFE=final(self_).entries.entries@; P=C01,C05; QOK=self.entries.wf() && self.hasher.hok() && one_run(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); AT=found(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=HashMap; A=<K, V, CM, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, CM: CollectionMagnitude, H: Hasher<Q>>; NQ=K, V, Q, CM, H; UATTR=//@ attr #[verifier::external_body]; HIT=m.entries.run(m.hasher.hashv(key))(i) && key.eqv(&m.entries.entries@[i].0)
//@ fn HashMap@Default::default
//@ mode free
//@ rename hash_map_default
//@ rewrite HashTable::default() =>> hash_table_default::<(K, V), CM>()
//@ props C01,C15,C17
    ensures res.entries.wf(), res.entries.entries@.len() == 0,
        crate::hash_tables_hash_table::thrifty(res.entries), // [C17]
//@ endfn
//@ fn HashMap::from_dedupped
//@ props C01,C02,C05,C06,C15,C17
    requires hasher.hok(),
    ensures res is Err <==> entries.inner@.len() > CM::MAX_CAPACITY,
        res is Ok ==> res->Ok_0.entries.wf() && permuted(entries.inner@, res->Ok_0.entries.entries@) && res->Ok_0.hasher == hasher
            && res->Ok_0.entries.hashed(key_hash::<K, V, H>(hasher)),
        res is Ok ==> crate::hash_tables_hash_table::thrifty(res->Ok_0.entries), // [C17]
//@ closure 0
|entry: &(K, V)| -> (b: u64) ensures b == hasher.hashv(&entry.0)
//@ ghost start
        assert(want(key_hash::<K, V, H>(hasher)));
//@ endfn
//@ fn HashMap::with_hasher
//@ props C01,C02,C05,C06,C15,C17
    requires hasher.hok(),
    ensures
        res is Err ==> entries@.len() > CM::MAX_CAPACITY,
        res is Ok ==> res->Ok_0.entries.wf() && res->Ok_0.hasher == hasher && res->Ok_0.entries.hashed(key_hash::<K, V, H>(hasher))
            && res->Ok_0.entries.entries@.len() <= CM::MAX_CAPACITY,
        res is Ok && lawful_key::<K, V, H>(hasher) ==> deduped(entries@, res->Ok_0.entries.entries@, same_key::<K, V>()),
        res is Ok ==> crate::hash_tables_hash_table::thrifty(res->Ok_0.entries), // [C17]
//@ closure 0
|x: &(K, V)| -> (b: u64) ensures b == hasher.hashv(&x.0)
//@ closure 1
|x: &(K, V), y: &(K, V)| -> (b: bool) ensures K::obeys_eq_spec() ==> b == PartialEqSpec::eq_spec(&x.0, &y.0)
//@ ghost start
        let ghost src = entries@;
        proof {
            assert(want2(same_key::<K, V>(), key_hash::<K, V, H>(hasher)));
            assert forall|mid: Seq<(K, V)>, dst: Seq<(K, V)>| #[trigger] deduped(src, mid, same_key::<K, V>()) && #[trigger] permuted(mid, dst) implies deduped(src, dst, same_key::<K, V>()) by {
                lemma_deduped_permuted(src, mid, dst, same_key::<K, V>());
            }
            assert forall|a: Seq<(K, V)>, b: Seq<(K, V)>| #[trigger] permuted(a, b) implies a.len() == b.len() by { lemma_permuted_members(a, b); }
        }
//@ endfn
}
//@ module inline_maps::inline_hash_map
pub mod inline_maps_inline_hash_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::hash_tables_inline_hash_table::*;
use crate::hashers_bridge::*;
//@ type InlineHashMap
//@ include hash_map.vsi TY=InlineHashMap; A=<K, V, SZ, NHS, CM, H>; GQ=<K, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, Q: ?Sized + Equivalent<K>, H: Hasher<K> + Hasher<Q>>
//@ include common_iter.vsi TY=InlineHashMap; E=self.entries.entries; OE=old(self).entries.entries; FE=final(self).entries.entries
//@ include map_traits.vsi TY=InlineHashMap; A=<K, V, SZ, NHS, CM, H>; GL=<K, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; E=self.entries.entries@; SE=self_.entries.entries@; SOE=old(self_).entries.entries@; SFE=final(self_).entries.entries@; P=C12,C05; QOK=self.entries.wf() && self.hasher.hok() && one_run(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); AT=found(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=InlineHashMap; A=<K, V, SZ, NHS, CM, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; NQ=K, V, Q, SZ, NHS, CM, H; UATTR=//@ attr #[verifier::external_body]; HIT=m.entries.run(m.hasher.hashv(key))(i) && key.eqv(&m.entries.entries@[i].0)
//@ fn InlineHashMap::new_raw
//@ props C12
    ensures res.entries == table, res.hasher == hasher,
//@ endfn
}
//@ module inline_maps::inline_hash_map_no_collisions
pub mod inline_maps_inline_hash_map_no_collisions {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::hash_tables_inline_hash_table_no_collisions::*;
use crate::hashers_bridge::*;
//@ type InlineHashMapNoCollisions
//@ include hash_map.vsi TY=InlineHashMapNoCollisions; A=<K, V, SZ, NHS, CM, H>; GQ=<K, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, Q: ?Sized + Equivalent<K>, H: Hasher<K> + Hasher<Q>>
//@ include common_iter.vsi TY=InlineHashMapNoCollisions; E=self.entries.entries; OE=old(self).entries.entries; FE=final(self).entries.entries
//@ include map_traits.vsi TY=InlineHashMapNoCollisions; A=<K, V, SZ, NHS, CM, H>; GL=<K, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; E=self.entries.entries@; SE=self_.entries.entries@; SOE=old(self_).entries.entries@; SFE=final(self_).entries.entries@; P=C12,C05; QOK=self.entries.wf() && self.hasher.hok() && one_run(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); AT=found(self.entries.entries@, self.entries.run(self.hasher.hashv(key)), by_eqv::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=InlineHashMapNoCollisions; A=<K, V, SZ, NHS, CM, H>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; NQ=K, V, Q, SZ, NHS, CM, H; UATTR=//@ attr #[verifier::external_body]; HIT=m.entries.run(m.hasher.hashv(key))(i) && key.eqv(&m.entries.entries@[i].0)
//@ fn InlineHashMapNoCollisions::new_raw
//@ props C12
    ensures res.entries == table, res.hasher == hasher,
//@ endfn
}
