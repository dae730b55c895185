/// Strings as keys: their bytes, their order, and that `Box<str>` keys behave as the `str` they hold.
pub mod strings {
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
use core::hash::*;
use crate::hashing::*;
use crate::perm::*;
use crate::query::*;
pub open spec fn bytes<A>(a: &A) -> Seq<u8> { str_of(a).spec_bytes() }
/// what `BuildHasher::hash_one` makes of a str: a function of its bytes; `Box<str>` hashes as its str (assumed: std)
pub uninterp spec fn hash_str<BH>(bh: BH, s: Seq<u8>) -> u64;
#[verifier::external_body]
pub proof fn axiom_hash_str<BH>()
    ensures forall|bh: BH, s: &str| #[trigger] hash_val::<BH, str>(bh, s) == hash_str(bh, s.spec_bytes()),
        forall|bh: BH, b: &Box<str>| #[trigger] hash_val::<BH, Box<str>>(bh, b) == hash_str(bh, bytes(b)),
{ }
/// `AsRef for &T` is `AsRef for T` (assumed: std)
pub broadcast axiom fn axiom_as_ref<Q>(q: &Q)
    ensures #[trigger] str_of::<&Q>(&q) == str_of::<Q>(q);
/// `equivalent`'s blanket implementation for a str and a boxed str (assumed: `str` equality is equality of bytes)
impl Equivalent<Box<str>> for str {
    open spec fn eqv(&self, k: &Box<str>) -> bool { self.spec_bytes() == bytes(k) }
    #[verifier::external_body]
    fn equivalent(&self, key: &Box<str>) -> (r: bool) { *self == **key }
}
/// `s.to_string().into_boxed_str()` (trusted)
#[verifier::external_body]
pub fn v_boxed(s: &str) -> (r: Box<str>) ensures bytes(&r) == s.spec_bytes() { s.to_string().into_boxed_str() }
/// `str::cmp` (trusted: lexicographic in the bytes)
#[verifier::external_body]
pub fn v_str_cmp(a: &str, b: &str) -> (o: Ordering) ensures o == lex(a.spec_bytes(), b.spec_bytes()) { a.cmp(b) }
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
pub open spec fn key_lex<V>() -> spec_fn((Box<str>, V), (Box<str>, V)) -> Ordering { |a: (Box<str>, V), b: (Box<str>, V)| lex(bytes(&a.0), bytes(&b.0)) }
/// entries under the same string
pub open spec fn same_str<V>() -> spec_fn((Box<str>, V), (Box<str>, V)) -> bool { |a: (Box<str>, V), b: (Box<str>, V)| bytes(&a.0) == bytes(&b.0) }
/// the entries as the map stores them: same strings, same values
pub open spec fn boxed<A: AsRef<str>, V>(a: Seq<(A, V)>, b: Seq<(Box<str>, V)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> bytes(&(#[trigger] b[i]).0) == bytes(&a[i].0) && b[i].1 == a[i].1
}
/// e holds the entries a under their strings, a later entry replacing an earlier one under the same string
pub open spec fn built<A: AsRef<str>, V>(a: Seq<(A, V)>, e: Seq<(Box<str>, V)>) -> bool { exists|src: Seq<(Box<str>, V)>| boxed(a, src) && #[trigger] deduped(src, e, eq_by(key_lex::<V>())) }
//@ proof string-order-lawful C02,C05
pub proof fn lemma_lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures (lex(a, b) == Ordering::Equal) == (a == b), lex(a, b) == rev_ord(lex(b, a)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_eq(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) != Ordering::Greater, lex(b, c) != Ordering::Greater,
    ensures lex(a, c) != Ordering::Greater,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
pub proof fn lemma_key_lex<V>()
    ensures lawful_cmp(key_lex::<V>()), eq_by(key_lex::<V>()) == same_str::<V>(), equivalence(same_str::<V>()),
{
    let c = key_lex::<V>();
    assert forall|a: (Box<str>, V)| #[trigger] c(a, a) == Ordering::Equal by { lemma_lex_eq(bytes(&a.0), bytes(&a.0)); }
    assert forall|a: (Box<str>, V), b: (Box<str>, V)| #[trigger] c(a, b) == rev_ord(c(b, a)) by { lemma_lex_eq(bytes(&a.0), bytes(&b.0)); }
    assert forall|a: (Box<str>, V), b: (Box<str>, V), d: (Box<str>, V)| #![trigger c(a, b), c(b, d)] c(a, b) != Ordering::Greater && c(b, d) != Ordering::Greater implies c(a, d) != Ordering::Greater by { lemma_lex_trans(bytes(&a.0), bytes(&b.0), bytes(&d.0)); }
    assert forall|a: (Box<str>, V), b: (Box<str>, V)| #[trigger] eq_by(c)(a, b) == same_str::<V>()(a, b) by { lemma_lex_eq(bytes(&a.0), bytes(&b.0)); }
    assert(eq_by(c) =~= same_str::<V>());
}
//@ endproof
}
//@ module fz_maps::fz_string_map
pub mod fz_maps_fz_string_map {
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
use core::hash::*;
use core::marker::PhantomData;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::strings::*;
use crate::hashing::*;
use crate::hashers_bridge::*;
use crate::hashers_left_range_hasher::LeftRangeHasher;
use crate::hashers_right_range_hasher::RightRangeHasher;
use crate::utils_dedup::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::analyzers_slice_key_analyzer::*;
use crate::maps_hash_map::HashMap;
broadcast use axiom_as_ref;
//@ type MapTypes
//@ type FzStringMap
impl<V, BH> FzStringMap<Box<str>, V, BH> {
    /// the entries, in iteration order
    pub open spec fn es(&self) -> Seq<(Box<str>, V)> { match self.map_impl { MapTypes::LeftRange(m) => m.entries.entries@, MapTypes::RightRange(m) => m.entries.entries@, MapTypes::Hash(m) => m.entries.entries@ } }
    pub open spec fn ok_str(&self, s: &str) -> bool where BH: BuildHasher { match self.map_impl { MapTypes::LeftRange(m) => MapQuery::<str, V>::qok(&m, s), MapTypes::RightRange(m) => MapQuery::<str, V>::qok(&m, s), MapTypes::Hash(m) => MapQuery::<str, V>::qok(&m, s) } }
    pub open spec fn at_str(&self, s: &str) -> Option<V> where BH: BuildHasher { match self.map_impl { MapTypes::LeftRange(m) => MapQuery::<str, V>::at_key(&m, s), MapTypes::RightRange(m) => MapQuery::<str, V>::at_key(&m, s), MapTypes::Hash(m) => MapQuery::<str, V>::at_key(&m, s) } }
    pub open spec fn hits_str(&self, s: &str, i: int) -> bool where BH: BuildHasher {
        s.spec_bytes() == bytes(&self.es()[i].0) && match self.map_impl {
            MapTypes::LeftRange(m) => m.entries.run(Hasher::<str>::hashv(&m.hasher, s))(i),
            MapTypes::RightRange(m) => m.entries.run(Hasher::<str>::hashv(&m.hasher, s))(i),
            MapTypes::Hash(m) => m.entries.run(Hasher::<str>::hashv(&m.hasher, s))(i),
        }
    }
}
//@ fn FzStringMap::get
//@ props C01,C05,C16
//@ rewrite key.as_ref() =>> key.v_as_ref()
    requires self.ok_str(str_of(&key)),
    ensures (res is Some) == (self.at_str(str_of(&key)) is Some), res is Some ==> *res->Some_0 == self.at_str(str_of(&key))->Some_0,
//@ endfn
//@ fn FzStringMap::get_mut
//@ props C07,C05,C16
//@ rewrite key.as_ref() =>> key.v_as_ref()
    requires old(self).ok_str(str_of(&key)),
    ensures (res is Some) == (old(self).at_str(str_of(&key)) is Some), res is Some ==> *res->Some_0 == old(self).at_str(str_of(&key))->Some_0,
        touches(old(self).es(), final(self).es(), |i: int| old(self).hits_str(str_of(&key), i), res),
//@ endfn
//@ fn FzStringMap::get_key_value
//@ props C01,C05,C16
//@ rewrite key.as_ref() =>> key.v_as_ref()
    requires self.ok_str(str_of(&key)),
    ensures (res is Some) == (self.at_str(str_of(&key)) is Some), res is Some ==> *res->Some_0.1 == self.at_str(str_of(&key))->Some_0,
        picks(self.es(), |i: int| self.hits_str(str_of(&key), i), res),
//@ endfn
//@ fn FzStringMap::contains_key
//@ props C01,C05,C16
//@ rewrite key.as_ref() =>> key.v_as_ref()
    requires self.ok_str(str_of(&key)),
    ensures res == (self.at_str(str_of(&key)) is Some),
//@ endfn
//@ include fz_rest.vsi TY=FzStringMap; A=<Box<str>, V, BH>; GL=<V, BH>; GQ=<V, Q: AsRef<str>, BH: BuildHasher>; P=C05; QOK=self.ok_str(str_of(key)); AT=self.at_str(str_of(key)); KT=Box<str>
/// the strings of the keys
pub open spec fn strs<Q: AsRef<str>>(keys: Seq<Q>) -> Seq<&'static str> { Seq::new(keys.len(), |i: int| str_of(&keys[i])) }
/// `array::from_fn(|i| keys[i].as_ref())` (trusted: std)
#[verifier::external_body]
pub fn v_all_strs<Q: AsRef<str>, const N: usize>(keys: &[Q; N]) -> (r: [&str; N]) ensures r@ == strs(keys@) { core::array::from_fn(|i| keys[i].as_ref()) }
pub open spec fn apart_strs<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>, keys: Seq<&str>) -> bool { match m.map_impl { MapTypes::LeftRange(x) => crate::maps_hash_map::apart(x, keys), MapTypes::RightRange(x) => crate::maps_hash_map::apart(x, keys), MapTypes::Hash(x) => crate::maps_hash_map::apart(x, keys) } }
/// (law) two strings that find one entry are equal
pub open spec fn eq_law_str<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>) -> bool { match m.map_impl { MapTypes::LeftRange(x) => crate::maps_hash_map::eq_law::<Box<str>, V, str, LargeCollection, LeftRangeHasher<BH>>(x), MapTypes::RightRange(x) => crate::maps_hash_map::eq_law::<Box<str>, V, str, LargeCollection, RightRangeHasher<BH>>(x), MapTypes::Hash(x) => crate::maps_hash_map::eq_law::<Box<str>, V, str, LargeCollection, BridgeHasher<BH>>(x) } }
pub open spec fn answers_str<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>, keys: Seq<&str>, res: Seq<Option<&mut V>>) -> bool {
    res.len() == keys.len() && forall|i: int| 0 <= i < keys.len() ==> (#[trigger] res[i] is Some) == (m.at_str(keys[i]) is Some) && (res[i] is Some ==> *res[i]->Some_0 == m.at_str(keys[i])->Some_0)
}
//@ fn FzStringMap::get_disjoint_unchecked_mut
//@ props C14
//@ rewrite array::from_fn(|i| keys[i].as_ref()) =>> v_all_strs(&keys)
    requires apart_strs(*old(self), strs(keys@)), forall|i: int| 0 <= i < N ==> old(self).ok_str(#[trigger] strs(keys@)[i]),
    ensures answers_str(*old(self), strs(keys@), res@),
//@ endfn
//@ fn FzStringMap::get_disjoint_mut
//@ props C14
//@ rewrite array::from_fn(|i| keys[i].as_ref()) =>> v_all_strs(&keys)
    requires eq_law_str(*old(self)), forall|i: int| 0 <= i < N ==> old(self).ok_str(#[trigger] strs(keys@)[i]),
    ensures !repeats(strs(keys@)), answers_str(*old(self), strs(keys@), res@),
//@ endfn
//@ fn FzStringMap@MapExtras::get_disjoint_unchecked_mut
//@ mode free
//@ rename trait_get_disjoint_unchecked_mut
//@ props C14,C16
    requires apart_strs(*old(self_), strs(keys@)), forall|i: int| 0 <= i < N ==> old(self_).ok_str(#[trigger] strs(keys@)[i]),
    ensures answers_str(*old(self_), strs(keys@), res@),
//@ endfn
//@ fn FzStringMap@MapExtras::get_disjoint_mut
//@ mode free
//@ rename trait_get_disjoint_mut
//@ props C14,C16
    requires eq_law_str(*old(self_)), forall|i: int| 0 <= i < N ==> old(self_).ok_str(#[trigger] strs(keys@)[i]),
    ensures !repeats(strs(keys@)), answers_str(*old(self_), strs(keys@), res@),
//@ endfn
pub open spec fn good<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>, bh: BH) -> bool {
    match m.map_impl {
        MapTypes::LeftRange(m) => m.entries.wf() && m.hasher.bh == bh && m.entries.hashed(key_hash::<Box<str>, V, LeftRangeHasher<BH>>(m.hasher)) && m.hasher.range.start <= m.hasher.range.end,
        MapTypes::RightRange(m) => m.entries.wf() && m.hasher.bh == bh && m.entries.hashed(key_hash::<Box<str>, V, RightRangeHasher<BH>>(m.hasher)) && m.hasher.range.start <= m.hasher.range.end,
        MapTypes::Hash(m) => m.entries.wf() && m.hasher.bh == bh && m.entries.hashed(key_hash::<Box<str>, V, BridgeHasher<BH>>(m.hasher)),
    }
}
pub open spec fn thrifty<V, BH>(m: FzStringMap<Box<str>, V, BH>) -> bool {
    match m.map_impl {
        MapTypes::LeftRange(m) => crate::hash_tables_hash_table::thrifty(m.entries),
        MapTypes::RightRange(m) => crate::hash_tables_hash_table::thrifty(m.entries),
        MapTypes::Hash(m) => crate::hash_tables_hash_table::thrifty(m.entries),
    }
}
//@ fn FzStringMap::with_hasher
//@ props C01,C02,C05,C06,C15,C17
//@ rewrite entries.into_iter().map(|(k, v)| (k.as_ref().to_string().into_boxed_str(), v)).collect() =>> crate::prelude::v_vec_map(entries, |(k, v)| (v_boxed(k.v_as_ref()), v))
//@ rewrite x.0.as_ref().cmp(y.0.as_ref()) =>> v_str_cmp(x.0.v_as_ref(), y.0.v_as_ref())
//@ rewrite entries.iter().map(|x| x.0.as_ref().as_bytes()) =>> crate::prelude::v_iter_map(entries.iter(), |x| x.0.v_as_ref().as_bytes())
    ensures good(res, bh), match res.map_impl { MapTypes::LeftRange(m) => built(entries@, m.entries.entries@), MapTypes::RightRange(m) => built(entries@, m.entries.entries@), MapTypes::Hash(m) => built(entries@, m.entries.entries@) },
        thrifty(res), // [C17]
//@ closure 0
|kv: (_, V)| -> (r: (Box<str>, V)) ensures bytes(&r.0) == bytes(&kv.0), r.1 == kv.1
//@ closure 1
|x: &(Box<str>, V), y: &(Box<str>, V)| -> (o: Ordering) ensures o == key_lex::<V>()(*x, *y)
//@ ghost start
        let ghost src0 = entries@;
        proof {
            assert(CollectionMagnitude::un(usize::MAX) == usize::MAX); assert(entries@.len() == entries.len());
            <LargeCollection as CollectionMagnitude>::laws();
            lemma_key_lex::<V>();
        }
//@ ghost end
        proof {
            let mid = choose|mid: Seq<(Box<str>, V)>| boxed(src0, mid) && #[trigger] deduped(mid, entries.inner@, eq_by(key_lex::<V>()));
            assert forall|e: Seq<(Box<str>, V)>| #[trigger] permuted(entries.inner@, e) implies built(src0, e) by {
                lemma_deduped_permuted(mid, entries.inner@, e, eq_by(key_lex::<V>()));
            }
        }
//@ endfn
/// the entries, in iteration order (as `es`, as a function)
pub open spec fn es_of<V, BH>(m: FzStringMap<Box<str>, V, BH>) -> Seq<(Box<str>, V)> { match m.map_impl { MapTypes::LeftRange(m) => m.entries.entries@, MapTypes::RightRange(m) => m.entries.entries@, MapTypes::Hash(m) => m.entries.entries@ } }
/// the hash builder the map was given
pub open spec fn bh_of<V, BH>(m: FzStringMap<Box<str>, V, BH>) -> BH { match m.map_impl { MapTypes::LeftRange(m) => m.hasher.bh, MapTypes::RightRange(m) => m.hasher.bh, MapTypes::Hash(m) => m.hasher.bh } }
//@ fn FzStringMap::new
//@ mode free
//@ rename new_default
//@ props C02,C15,C17
    ensures good(res, bh_of(res)), match res.map_impl { MapTypes::LeftRange(m) => built(entries@, m.entries.entries@), MapTypes::RightRange(m) => built(entries@, m.entries.entries@), MapTypes::Hash(m) => built(entries@, m.entries.entries@) },
        thrifty(res), // [C17]
//@ endfn
//@ fn FzStringMap@Default::default
//@ mode free
//@ rename map_default
//@ rewrite HashMap::default() =>> crate::maps_hash_map::hash_map_default()
//@ props C01,C15,C17
    ensures res.es().len() == 0, res.map_impl is Hash, res.map_impl->Hash_0.entries.wf(),
        thrifty(res), // [C17]
//@ endfn
//@ fn FzStringMap@From::from
//@ mode free
//@ rename from_array
//@ props C02,C15,C16,C17
//@ rewrite Vec::from(entries) =>> crate::prelude::VStore::v_into_vec(entries)
    ensures good(res, bh_of(res)), match res.map_impl { MapTypes::LeftRange(m) => built(entries@, m.entries.entries@), MapTypes::RightRange(m) => built(entries@, m.entries.entries@), MapTypes::Hash(m) => built(entries@, m.entries.entries@) },
        thrifty(res), // [C17]
//@ endfn
//@ fn FzStringMap@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C15,C16,C17
//@ rewrite iter.into_iter().collect() =>> crate::prelude::v_collect(iter)
    ensures good(res, bh_of(res)), match res.map_impl { MapTypes::LeftRange(m) => built(crate::prelude::collected(iter), m.entries.entries@), MapTypes::RightRange(m) => built(crate::prelude::collected(iter), m.entries.entries@), MapTypes::Hash(m) => built(crate::prelude::collected(iter), m.entries.entries@) },
        thrifty(res), // [C17]
//@ endfn
//@ proof string-map-built C02,C05
/// what the constructors say, in terms of the entries iterated
pub proof fn theorem_built<A: AsRef<str>, V, BH>(a: Seq<(A, V)>, m: FzStringMap<Box<str>, V, BH>)
    requires match m.map_impl { MapTypes::LeftRange(m) => built(a, m.entries.entries@), MapTypes::RightRange(m) => built(a, m.entries.entries@), MapTypes::Hash(m) => built(a, m.entries.entries@) },
    ensures built(a, m.es()), distinct(m.es(), same_str::<V>()),
{
    assert(built(a, m.es()));
    lemma_key_lex::<V>();
    let src = choose|src: Seq<(Box<str>, V)>| boxed(a, src) && #[trigger] deduped(src, m.es(), eq_by(key_lex::<V>()));
    lemma_deduped_distinct(src, m.es(), same_str::<V>());
}
//@ endproof
}
