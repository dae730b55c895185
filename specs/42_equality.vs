/// What the equality checks decide: the same keys with equal values (maps), the same elements (sets).
pub mod equality {
use vstd::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::set_traits::{holds, lemma_pigeon};
use crate::iter_specs::firsts;
use vstd::std_specs::cmp::*;
/// m is a map holding exactly the entries b, keys compared by `same`
pub open spec fn models<K, V, M: MapQuery<K, V>>(m: M, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool) -> bool {
    &&& distinct(firsts(b), same)
    &&& m.lenv() == b.len()
    &&& forall|k: K| (#[trigger] m.at_key(&k)) is Some == holds(firsts(b), same, k)
    &&& forall|k: K, j: int| 0 <= j < b.len() && same((#[trigger] b[j]).0, k) ==> #[trigger] m.at_key(&k) == Some(b[j].1)
}
pub open spec fn maps_to<K, V: PartialEq>(b: Seq<(K, V)>, same: spec_fn(K, K) -> bool, x: (K, V)) -> bool {
    exists|j: int| 0 <= j < b.len() && same((#[trigger] b[j]).0, x.0) && PartialEqSpec::eq_spec(&x.1, &b[j].1)
}
/// every entry of a is in b
pub open spec fn included<K, V: PartialEq>(a: Seq<(K, V)>, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool) -> bool {
    forall|i: int| 0 <= i < a.len() ==> maps_to(b, same, #[trigger] a[i])
}
pub open spec fn same_keys<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool) -> bool {
    forall|k: K| holds(firsts(a), same, k) == #[trigger] holds(firsts(b), same, k)
}
//@ proof map-equality-decides C11
/// one side's entries all in an injection of the same size: nothing is left over on the other
pub proof fn lemma_onto<T>(a: Seq<T>, b: Seq<T>, same: spec_fn(T, T) -> bool, j: int)
    requires equivalence(same), distinct(a, same), distinct(b, same), a.len() == b.len(), 0 <= j < b.len(),
        forall|i: int| 0 <= i < a.len() ==> holds(b, same, #[trigger] a[i]),
    ensures holds(a, same, b[j]),
{
    if !holds(a, same, b[j]) {
        let c = b.remove(j);
        assert forall|i: int| 0 <= i < a.len() implies holds(c, same, #[trigger] a[i]) by {
            let l = choose|l: int| 0 <= l < b.len() && same(#[trigger] b[l], a[i]);
            if l == j { assert(same(a[i], b[j])); assert(false); }
            let l2 = if l < j { l } else { l - 1 };
            assert(c[l2] == b[l]);
        }
        lemma_pigeon(a, c, same);
    }
}
pub proof fn theorem_map_equality<K, V: PartialEq, M: MapQuery<K, V>>(a: Seq<(K, V)>, m: M, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool)
    requires equivalence(same), distinct(firsts(a), same), models(m, b, same),
    ensures covers(a, m) == (included(a, b, same) && same_keys(a, b, same)),
{
    let fa = firsts(a);
    let fb = firsts(b);
    assert forall|i: int| 0 <= i < a.len() implies agrees(m, #[trigger] a[i]) == maps_to(b, same, a[i]) by {
        if agrees(m, a[i]) {
            assert(holds(fb, same, a[i].0));
            let j = choose|j: int| 0 <= j < fb.len() && same(#[trigger] fb[j], a[i].0);
            assert(b[j].0 == fb[j]);
        }
    }
    if covers(a, m) {
        assert forall|i: int| 0 <= i < fa.len() implies holds(fb, same, #[trigger] fa[i]) by {
            assert(agrees(m, a[i]));
        }
        assert forall|k: K| holds(fa, same, k) == #[trigger] holds(fb, same, k) by {
            if holds(fb, same, k) {
                let j = choose|j: int| 0 <= j < fb.len() && same(#[trigger] fb[j], k);
                lemma_onto(fa, fb, same, j);
                let i = choose|i: int| 0 <= i < fa.len() && same(#[trigger] fa[i], fb[j]);
                assert(same(fa[i], k));
            }
            if holds(fa, same, k) {
                let i = choose|i: int| 0 <= i < fa.len() && same(#[trigger] fa[i], k);
                let j = choose|j: int| 0 <= j < fb.len() && same(#[trigger] fb[j], fa[i]);
                assert(same(fb[j], k));
            }
        }
    }
    if included(a, b, same) && same_keys(a, b, same) {
        assert forall|i: int| 0 <= i < fa.len() implies holds(fb, same, #[trigger] fa[i]) by { assert(same(fa[i], fa[i])); assert(holds(fa, same, fa[i])); }
        assert forall|i: int| 0 <= i < fb.len() implies holds(fa, same, #[trigger] fb[i]) by { assert(same(fb[i], fb[i])); assert(holds(fb, same, fb[i])); }
        lemma_pigeon(fa, fb, same);
        lemma_pigeon(fb, fa, same);
    }
}
//@ endproof
//@ proof equality-symmetric C11
/// the answer does not depend on which side is asked
pub proof fn theorem_map_equality_symmetric<K, V: PartialEq, M1: MapQuery<K, V>, M2: MapQuery<K, V>>(m1: M1, a: Seq<(K, V)>, m2: M2, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool)
    requires equivalence(same), models(m1, a, same), models(m2, b, same), forall|x: V, y: V| PartialEqSpec::eq_spec(&x, &y) == PartialEqSpec::eq_spec(&y, &x),
    ensures covers(a, m2) == covers(b, m1),
{
    theorem_map_equality(a, m2, b, same);
    theorem_map_equality(b, m1, a, same);
    if included(a, b, same) && same_keys(a, b, same) { lemma_included_back(a, b, same); }
    if included(b, a, same) && same_keys(b, a, same) { lemma_included_back(b, a, same); }
    if same_keys(a, b, same) { assert forall|k: K| holds(firsts(b), same, k) == #[trigger] holds(firsts(a), same, k) by { assert(holds(firsts(a), same, k) == holds(firsts(b), same, k)); } }
    if same_keys(b, a, same) { assert forall|k: K| holds(firsts(a), same, k) == #[trigger] holds(firsts(b), same, k) by { assert(holds(firsts(b), same, k) == holds(firsts(a), same, k)); } }
}
pub proof fn lemma_included_back<K, V: PartialEq>(a: Seq<(K, V)>, b: Seq<(K, V)>, same: spec_fn(K, K) -> bool)
    requires equivalence(same), distinct(firsts(a), same), distinct(firsts(b), same), included(a, b, same), same_keys(a, b, same), forall|x: V, y: V| PartialEqSpec::eq_spec(&x, &y) == PartialEqSpec::eq_spec(&y, &x),
    ensures included(b, a, same),
{
    let fa = firsts(a);
    let fb = firsts(b);
    assert forall|j: int| 0 <= j < b.len() implies maps_to(a, same, #[trigger] b[j]) by {
        assert(same(fb[j], fb[j]));
        assert(holds(fb, same, fb[j]));
        assert(holds(fa, same, fb[j]));
        let i = choose|i: int| 0 <= i < fa.len() && same(#[trigger] fa[i], fb[j]);
        assert(maps_to(b, same, a[i]));
        let l = choose|l: int| 0 <= l < b.len() && same((#[trigger] b[l]).0, a[i].0) && PartialEqSpec::eq_spec(&a[i].1, &b[l].1);
        assert(same(fb[l], fa[i]));
        assert(same(fb[l], fb[j]));
        assert(l == j);
        assert(same(a[i].0, b[j].0));
    }
}
//@ endproof
}
/// The maps are models: each concrete map answers as the entries it holds say.
pub mod map_models {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::query::*;
use crate::perm::*;
use crate::equality::*;
use crate::set_traits::holds;
use crate::iter_specs::firsts;
use crate::traits_collection_magnitude::*;
use crate::eytz_query::*;
use vstd::std_specs::cmp::*;
pub open spec fn key_eq<K: Eq>() -> spec_fn(K, K) -> bool { |a: K, b: K| PartialEqSpec::eq_spec(&a, &b) }
pub open spec fn key_same_idx<K: Scalar>() -> spec_fn(K, K) -> bool { |a: K, b: K| a.idx() == b.idx() }
pub open spec fn key_same_ord<K: Ord>() -> spec_fn(K, K) -> bool { |a: K, b: K| a.cmp_spec(&b) == Ordering::Equal }
//@ proof maps-are-models C11,C16
/// a run containing every hit, and hits unique: found is what those entries say
pub proof fn lemma_found<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool)
    requires forall|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0) ==> run(i),
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && hit((#[trigger] e[i]).0) && hit((#[trigger] e[j]).0) ==> i == j,
    ensures (found(e, run, hit) is Some) == any_hit(e, hit), forall|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0) ==> found(e, run, hit) == Some(e[i].1), one_run(e, run, hit),
{ }
pub proof fn lemma_models<K, V, M: MapQuery<K, V>>(m: M, e: Seq<(K, V)>, same: spec_fn(K, K) -> bool)
    requires equivalence(same), distinct(firsts(e), same), m.lenv() == e.len(),
        forall|k: K, i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0) ==> #[trigger] m.at_key(&k) == Some(e[i].1),
        forall|k: K| (#[trigger] m.at_key(&k)) is Some ==> exists|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0),
    ensures models(m, e, same),
{
    let f = firsts(e);
    assert forall|k: K| (#[trigger] m.at_key(&k)) is Some == holds(f, same, k) by {
        if m.at_key(&k) is Some { let i = choose|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0); assert(same(f[i], k)); }
        if holds(f, same, k) { let i = choose|i: int| 0 <= i < f.len() && same(#[trigger] f[i], k); assert(same(k, e[i].0)); }
    }
    assert forall|k: K, j: int| 0 <= j < e.len() && same((#[trigger] e[j]).0, k) implies #[trigger] m.at_key(&k) == Some(e[j].1) by { assert(same(k, e[j].0)); }
}
pub proof fn lemma_hits_unique<K, V>(e: Seq<(K, V)>, same: spec_fn(K, K) -> bool, k: K)
    requires equivalence(same), distinct(firsts(e), same),
    ensures forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && same(k, (#[trigger] e[i]).0) && same(k, (#[trigger] e[j]).0) ==> i == j,
{
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && same(k, (#[trigger] e[i]).0) && same(k, (#[trigger] e[j]).0) implies i == j by {
        let f = firsts(e);
        assert(same(f[i], k)); assert(same(f[i], f[j]));
    }
}
pub proof fn theorem_maps_scan_map<K: Eq, V>(m: crate::maps_scan_map::ScanMap<K, V>)
    requires K::obeys_eq_spec(), equivalence(key_eq::<K>()), distinct(firsts(m.entries@), key_eq::<K>()),
    ensures models::<K, V, crate::maps_scan_map::ScanMap<K, V>>(m, m.entries@, key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_eqv::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0)) by {
        lemma_hits_unique(e, key_eq::<K>(), k);
        assert forall|i: int| 0 <= i < e.len() implies by_eqv::<K, K>(&k)((#[trigger] e[i]).0) == key_eq::<K>()(k, e[i].0) by {}
        lemma_found(e, everywhere(), by_eqv::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_eqv::<K, K>(&k))); }
    lemma_models::<K, V, crate::maps_scan_map::ScanMap<K, V>>(m, e, key_eq::<K>());
}
pub proof fn theorem_inline_maps_inline_scan_map<K: Eq, V, const SZ: usize>(m: crate::inline_maps_inline_scan_map::InlineScanMap<K, V, SZ>)
    requires K::obeys_eq_spec(), equivalence(key_eq::<K>()), distinct(firsts(m.entries@), key_eq::<K>()),
    ensures models::<K, V, crate::inline_maps_inline_scan_map::InlineScanMap<K, V, SZ>>(m, m.entries@, key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_eqv::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0)) by {
        lemma_hits_unique(e, key_eq::<K>(), k);
        assert forall|i: int| 0 <= i < e.len() implies by_eqv::<K, K>(&k)((#[trigger] e[i]).0) == key_eq::<K>()(k, e[i].0) by {}
        lemma_found(e, everywhere(), by_eqv::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_eqv::<K, K>(&k))); }
    lemma_models::<K, V, crate::inline_maps_inline_scan_map::InlineScanMap<K, V, SZ>>(m, e, key_eq::<K>());
}
pub proof fn theorem_maps_dense_scalar_lookup_map<K: Scalar, V>(m: crate::maps_dense_scalar_lookup_map::DenseScalarLookupMap<K, V>)
    requires crate::maps_dense_scalar_lookup_map::placed(m),
    ensures models::<K, V, crate::maps_dense_scalar_lookup_map::DenseScalarLookupMap<K, V>>(m, m.entries@, key_same_idx::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    assert forall|i: int| 0 <= i < e.len() implies m.pos((#[trigger] e[i]).0.idx()) == i by {}
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] key_same_idx::<K>()(f[i], f[j]) by { assert(m.pos(e[i].0.idx()) == i); assert(m.pos(e[j].0.idx()) == j); }
    assert forall|k: K| (#[trigger] MapQuery::<K, V>::at_key(&m, &k)) is Some implies exists|i: int| 0 <= i < e.len() && key_same_idx::<K>()(k, (#[trigger] e[i]).0) by {
        let p = m.pos(k.idx()); assert(e[p].0.idx() == k.idx());
    }
    lemma_models::<K, V, crate::maps_dense_scalar_lookup_map::DenseScalarLookupMap<K, V>>(m, e, key_same_idx::<K>());
}
pub proof fn theorem_inline_maps_inline_dense_scalar_lookup_map<K: Scalar, V, const SZ: usize>(m: crate::inline_maps_inline_dense_scalar_lookup_map::InlineDenseScalarLookupMap<K, V, SZ>)
    requires crate::inline_maps_inline_dense_scalar_lookup_map::placed(m),
    ensures models::<K, V, crate::inline_maps_inline_dense_scalar_lookup_map::InlineDenseScalarLookupMap<K, V, SZ>>(m, m.entries@, key_same_idx::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    assert forall|i: int| 0 <= i < e.len() implies m.pos((#[trigger] e[i]).0.idx()) == i by {}
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] key_same_idx::<K>()(f[i], f[j]) by { assert(m.pos(e[i].0.idx()) == i); assert(m.pos(e[j].0.idx()) == j); }
    assert forall|k: K| (#[trigger] MapQuery::<K, V>::at_key(&m, &k)) is Some implies exists|i: int| 0 <= i < e.len() && key_same_idx::<K>()(k, (#[trigger] e[i]).0) by {
        let p = m.pos(k.idx()); assert(e[p].0.idx() == k.idx());
    }
    lemma_models::<K, V, crate::inline_maps_inline_dense_scalar_lookup_map::InlineDenseScalarLookupMap<K, V, SZ>>(m, e, key_same_idx::<K>());
}
pub proof fn theorem_maps_sparse_scalar_lookup_map<K: Scalar, V>(m: crate::maps_sparse_scalar_lookup_map::SparseScalarLookupMap<K, V>)
    requires crate::maps_sparse_scalar_lookup_map::placed(m),
    ensures models::<K, V, crate::maps_sparse_scalar_lookup_map::SparseScalarLookupMap<K, V>>(m, m.entries@, key_same_idx::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    assert forall|i: int| 0 <= i < e.len() implies m.pos((#[trigger] e[i]).0.idx()) == i by {}
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] key_same_idx::<K>()(f[i], f[j]) by { assert(m.pos(e[i].0.idx()) == i); assert(m.pos(e[j].0.idx()) == j); }
    assert forall|k: K| (#[trigger] MapQuery::<K, V>::at_key(&m, &k)) is Some implies exists|i: int| 0 <= i < e.len() && key_same_idx::<K>()(k, (#[trigger] e[i]).0) by {
        let p = m.pos(k.idx()); assert(e[p].0.idx() == k.idx());
    }
    lemma_models::<K, V, crate::maps_sparse_scalar_lookup_map::SparseScalarLookupMap<K, V>>(m, e, key_same_idx::<K>());
}
pub proof fn theorem_inline_maps_inline_sparse_scalar_lookup_map<K: Scalar, V, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>(m: crate::inline_maps_inline_sparse_scalar_lookup_map::InlineSparseScalarLookupMap<K, V, SZ, LTSZ, CM>)
    requires crate::inline_maps_inline_sparse_scalar_lookup_map::placed(m),
    ensures models::<K, V, crate::inline_maps_inline_sparse_scalar_lookup_map::InlineSparseScalarLookupMap<K, V, SZ, LTSZ, CM>>(m, m.entries@, key_same_idx::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    assert forall|i: int| 0 <= i < e.len() implies m.pos((#[trigger] e[i]).0.idx()) == i by {}
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] key_same_idx::<K>()(f[i], f[j]) by { assert(m.pos(e[i].0.idx()) == i); assert(m.pos(e[j].0.idx()) == j); }
    assert forall|k: K| (#[trigger] MapQuery::<K, V>::at_key(&m, &k)) is Some implies exists|i: int| 0 <= i < e.len() && key_same_idx::<K>()(k, (#[trigger] e[i]).0) by {
        let p = m.pos(k.idx()); assert(e[p].0.idx() == k.idx());
    }
    lemma_models::<K, V, crate::inline_maps_inline_sparse_scalar_lookup_map::InlineSparseScalarLookupMap<K, V, SZ, LTSZ, CM>>(m, e, key_same_idx::<K>());
}
pub proof fn theorem_maps_hash_map<K: Eq, V, CM: CollectionMagnitude, H: Hasher<K>>(m: crate::maps_hash_map::HashMap<K, V, CM, H>)
    requires lawful_key::<K, V, H>(m.hasher), equivalence(key_eq::<K>()), distinct(firsts(m.entries.entries@), key_eq::<K>()), m.hasher.hok(), m.entries.wf(), m.entries.hashed(key_hash::<K, V, H>(m.hasher)),
    ensures models::<K, V, crate::maps_hash_map::HashMap<K, V, CM, H>>(m, m.entries.entries@, key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries.entries@;
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0)) by {
        lemma_hits_unique(e, key_eq::<K>(), k);
        let run = m.entries.run(m.hasher.hashv(&k));
        assert forall|i: int| 0 <= i < e.len() && by_eqv::<K, K>(&k)((#[trigger] e[i]).0) implies run(i) by {
            assert(same_key::<K, V>()((k, e[i].1), e[i]));
            assert(key_hash::<K, V, H>(m.hasher)(e[i]) == m.hasher.hashv(&k));
        }
        assert forall|i: int| 0 <= i < e.len() implies by_eqv::<K, K>(&k)((#[trigger] e[i]).0) == key_eq::<K>()(k, e[i].0) by {}
        lemma_found(e, run, by_eqv::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k))); }
    lemma_models::<K, V, crate::maps_hash_map::HashMap<K, V, CM, H>>(m, e, key_eq::<K>());
}
pub proof fn theorem_inline_maps_inline_hash_map<K: Eq, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<K>>(m: crate::inline_maps_inline_hash_map::InlineHashMap<K, V, SZ, NHS, CM, H>)
    requires lawful_key::<K, V, H>(m.hasher), equivalence(key_eq::<K>()), distinct(firsts(m.entries.entries@), key_eq::<K>()), m.hasher.hok(), m.entries.wf(), m.entries.hashed(key_hash::<K, V, H>(m.hasher)),
    ensures models::<K, V, crate::inline_maps_inline_hash_map::InlineHashMap<K, V, SZ, NHS, CM, H>>(m, m.entries.entries@, key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries.entries@;
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0)) by {
        lemma_hits_unique(e, key_eq::<K>(), k);
        let run = m.entries.run(m.hasher.hashv(&k));
        assert forall|i: int| 0 <= i < e.len() && by_eqv::<K, K>(&k)((#[trigger] e[i]).0) implies run(i) by {
            assert(same_key::<K, V>()((k, e[i].1), e[i]));
            assert(key_hash::<K, V, H>(m.hasher)(e[i]) == m.hasher.hashv(&k));
        }
        assert forall|i: int| 0 <= i < e.len() implies by_eqv::<K, K>(&k)((#[trigger] e[i]).0) == key_eq::<K>()(k, e[i].0) by {}
        lemma_found(e, run, by_eqv::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k))); }
    lemma_models::<K, V, crate::inline_maps_inline_hash_map::InlineHashMap<K, V, SZ, NHS, CM, H>>(m, e, key_eq::<K>());
}
pub proof fn theorem_inline_maps_inline_hash_map_no_collisions<K: Eq, V, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<K>>(m: crate::inline_maps_inline_hash_map_no_collisions::InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>)
    requires lawful_key::<K, V, H>(m.hasher), equivalence(key_eq::<K>()), distinct(firsts(m.entries.entries@), key_eq::<K>()), m.hasher.hok(), m.entries.wf(), m.entries.hashed(key_hash::<K, V, H>(m.hasher)),
    ensures models::<K, V, crate::inline_maps_inline_hash_map_no_collisions::InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>>(m, m.entries.entries@, key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries.entries@;
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && key_eq::<K>()(k, (#[trigger] e[i]).0)) by {
        lemma_hits_unique(e, key_eq::<K>(), k);
        let run = m.entries.run(m.hasher.hashv(&k));
        assert forall|i: int| 0 <= i < e.len() && by_eqv::<K, K>(&k)((#[trigger] e[i]).0) implies run(i) by {
            assert(same_key::<K, V>()((k, e[i].1), e[i]));
            assert(key_hash::<K, V, H>(m.hasher)(e[i]) == m.hasher.hashv(&k));
        }
        assert forall|i: int| 0 <= i < e.len() implies by_eqv::<K, K>(&k)((#[trigger] e[i]).0) == key_eq::<K>()(k, e[i].0) by {}
        lemma_found(e, run, by_eqv::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, m.entries.run(m.hasher.hashv(&k)), by_eqv::<K, K>(&k))); }
    lemma_models::<K, V, crate::inline_maps_inline_hash_map_no_collisions::InlineHashMapNoCollisions<K, V, SZ, NHS, CM, H>>(m, e, key_eq::<K>());
}
pub proof fn theorem_maps_eytzinger_search_map<K: Ord, V>(m: crate::maps_eytzinger_search_map::EytzingerSearchMap<K, V>, s: Seq<(K, V)>)
    requires lawful_ord::<K, V>(), equivalence(key_same_ord::<K>()), strictly_sorted_by(s, key_cmp::<K, V>()), m.entries@ == crate::utils_eytzinger::laid_out(s), s.len() < 0x4000_0000_0000_0000,
        forall|k: K| #[trigger] lawful_comparison::<K, K>(&k),
    ensures models::<K, V, crate::maps_eytzinger_search_map::EytzingerSearchMap<K, V>>(m, m.entries@, key_same_ord::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    let same = key_same_ord::<K>();
    lemma_rearranged(s);
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_cmp::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0)) by {
        assert(lawful_comparison::<K, K>(&k));
        theorem_findable::<K, V, K>(s, &k);
        assert forall|i: int| 0 <= i < e.len() implies by_cmp::<K, K>(&k)((#[trigger] e[i]).0) == same(k, e[i].0) by {}
        lemma_found(e, everywhere(), by_cmp::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_cmp::<K, K>(&k))); }
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] same(f[i], f[j]) by {
        let k = f[i];
        assert(lawful_comparison::<K, K>(&k));
        theorem_findable::<K, V, K>(s, &k);
        assert(same(k, f[i]));
        assert(by_cmp::<K, K>(&k)(e[i].0));
        if same(f[i], f[j]) { assert(by_cmp::<K, K>(&k)(e[j].0)); }
    }
    lemma_models::<K, V, crate::maps_eytzinger_search_map::EytzingerSearchMap<K, V>>(m, e, same);
}
pub proof fn theorem_inline_maps_inline_eytzinger_search_map<K: Ord, V, const SZ: usize>(m: crate::inline_maps_inline_eytzinger_search_map::InlineEytzingerSearchMap<K, V, SZ>, s: Seq<(K, V)>)
    requires lawful_ord::<K, V>(), equivalence(key_same_ord::<K>()), strictly_sorted_by(s, key_cmp::<K, V>()), m.entries@ == crate::utils_eytzinger::laid_out(s), s.len() < 0x4000_0000_0000_0000,
        forall|k: K| #[trigger] lawful_comparison::<K, K>(&k),
    ensures models::<K, V, crate::inline_maps_inline_eytzinger_search_map::InlineEytzingerSearchMap<K, V, SZ>>(m, m.entries@, key_same_ord::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let e = m.entries@;
    let f = firsts(e);
    let same = key_same_ord::<K>();
    lemma_rearranged(s);
    assert forall|k: K| true implies #[trigger] MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_cmp::<K, K>(&k)) && MapQuery::<K, V>::qok(&m, &k) && (forall|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0) ==> MapQuery::<K, V>::at_key(&m, &k) == Some(e[i].1))
        && (MapQuery::<K, V>::at_key(&m, &k) is Some ==> exists|i: int| 0 <= i < e.len() && same(k, (#[trigger] e[i]).0)) by {
        assert(lawful_comparison::<K, K>(&k));
        theorem_findable::<K, V, K>(s, &k);
        assert forall|i: int| 0 <= i < e.len() implies by_cmp::<K, K>(&k)((#[trigger] e[i]).0) == same(k, e[i].0) by {}
        lemma_found(e, everywhere(), by_cmp::<K, K>(&k));
    }
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::at_key(&m, &k) == found(e, everywhere(), by_cmp::<K, K>(&k))); }
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] same(f[i], f[j]) by {
        let k = f[i];
        assert(lawful_comparison::<K, K>(&k));
        theorem_findable::<K, V, K>(s, &k);
        assert(same(k, f[i]));
        assert(by_cmp::<K, K>(&k)(e[i].0));
        if same(f[i], f[j]) { assert(by_cmp::<K, K>(&k)(e[j].0)); }
    }
    lemma_models::<K, V, crate::inline_maps_inline_eytzinger_search_map::InlineEytzingerSearchMap<K, V, SZ>>(m, e, same);
}
//@ endproof
}
