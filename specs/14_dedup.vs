/// Contracts assumed for the hashbrown types that the crate uses internally (trusted: dependency).
pub mod hashbrown {
use vstd::prelude::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
}
/// the hash set obtained by cloning these elements and inserting the clones in turn
pub uninterp spec fn cloned_set<T>(items: Seq<&T>) -> HashSet<T>;
/// hashbrown::HashMap: a finite map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None } { unimplemented!() }
}

/// hashbrown::HashTable: a set of (hash code, value) pairs
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashTable<T> { _p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct OccupiedEntry<'a, T> { pub t: &'a mut HashTable<T>, pub h: Ghost<u64>, pub v: Ghost<T> }
#[verifier::reject_recursive_types(T)]
pub struct AbsentEntry<'a, T> { pub t: &'a mut HashTable<T> }
impl<T> HashTable<T> {
    pub uninterp spec fn view(&self) -> Set<(u64, T)>;
    pub uninterp spec fn count(&self) -> int;
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<(u64, T)>::empty(), r.count() == 0, r.cap() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn find_entry<F: Fn(&T) -> bool>(&mut self, hash: u64, eq: F) -> (r: Result<OccupiedEntry<'_, T>, AbsentEntry<'_, T>>)
        requires forall|h: u64, v: T| #[trigger] old(self)@.contains((h, v)) ==> eq.requires((&v,)),
        ensures match r {
            Ok(e) => *e.t == *old(self) && *final(e.t) == *final(self) && old(self)@.contains((e.h@, e.v@)) && eq.ensures((&e.v@,), true),
            Err(_) => *final(self) == *old(self) && forall|v: T| #[trigger] old(self)@.contains((hash, v)) ==> eq.ensures((&v,), false),
        }
    { unimplemented!() }
    /// never rehashes while it holds fewer values than its capacity
    #[verifier::external_body]
    pub fn insert_unique<F: Fn(&T) -> u64>(&mut self, hash: u64, v: T, hasher: F)
        requires old(self).count() < old(self).cap(), !old(self)@.contains((hash, v)),
        ensures final(self)@ == old(self)@.insert((hash, v)), final(self).count() == old(self).count() + 1, final(self).cap() == old(self).cap(),
    { unimplemented!() }
}
impl<'a, T> OccupiedEntry<'a, T> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T) ensures *r == self.v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: T)
        ensures r == self.v@, final(self.t)@ == old(self.t)@.remove((self.h@, self.v@)), final(self.t).count() == old(self.t).count() - 1, final(self.t).cap() == old(self.t).cap()
    { unimplemented!() }
}
}
//@ module utils::dedup
pub mod utils_dedup {
use vstd::prelude::*;
use crate::prelude::*;
use crate::perm::*;
use core::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use crate::hashbrown::HashSet as HashbrownSet;
use crate::hashbrown::HashTable as HashbrownTable;
//@ type DeduppedVec
//@ type SortedAndDeduppedVec
pub open spec fn eq_is<T, F: Fn(&T, &T) -> bool>(f: F, same: spec_fn(T, T) -> bool) -> bool {
    forall|a: &T, b: &T, r: bool| #[trigger] f.ensures((a, b), r) ==> r == same(*a, *b)
}
pub open spec fn answered<T, F: Fn(&T, &T) -> bool>(f: F, a: T, b: T, r: bool) -> bool { f.ensures((&a, &b), r) }
/// d is the set of positions i for which f found a later equal element
pub open spec fn dupes_eq<T, F: Fn(&T, &T) -> bool>(f: F, s: Seq<T>, d: Set<usize>, upto: int) -> bool {
    &&& forall|i: usize| #[trigger] d.contains(i) ==> i < upto && exists|j: int| i < j < s.len() && answered(f, s[i as int], #[trigger] s[j], true)
    &&& forall|i: usize, j: int| i < upto && !#[trigger] d.contains(i) && i < j < s.len() ==> answered(f, s[i as int], #[trigger] s[j], false)
}
/// dst keeps exactly the positions of s outside d, in order
pub open spec fn kept_by<T>(s: Seq<T>, dst: Seq<T>, d: Set<usize>, idx: Seq<int>, upto: int) -> bool {
    &&& idx.len() == dst.len()
    &&& forall|k: int| 0 <= k < dst.len() ==> 0 <= #[trigger] idx[k] < upto && !d.contains(idx[k] as usize) && dst[k] == s[idx[k]]
    &&& forall|k: int, l: int| 0 <= k < l < dst.len() ==> #[trigger] idx[k] < #[trigger] idx[l]
    &&& forall|i: int| 0 <= i < upto && !d.contains(i as usize) ==> #[trigger] idx.contains(i)
}
//@ fn DeduppedVec::using_eq
//@ props C02,C12
    requires forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
    ensures
        res.inner@.len() <= entries@.len(),
        forall|same: spec_fn(T, T) -> bool| #![trigger eq_is(cmp, same)] #![trigger want(same)] eq_is(cmp, same) ==> deduped(entries@, res.inner@, same),
//@ ghost start
        let ghost src = entries@;
        let ghost mut idx: Seq<int> = Seq::new(src.len(), |i: int| i);
        let ghost mut d0: Set<usize> = Set::empty();
        proof { assert forall|i: int| 0 <= i < src.len() implies #[trigger] idx.contains(i) by { assert(idx[i] == i); } }
//@ loop 0
                invariant
                    entries@ == src,
                    forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
                    dupes_eq(cmp, src, dupes@, i as int),
//@ loop 1
                    invariant
                        entries@ == src, i < src.len(), !dupes@.contains(i),
                        forall|k: int| i < k < j ==> answered(cmp, src[i as int], #[trigger] src[k], false),
                        dupes_eq(cmp, src, dupes@, i as int),
                        forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
                    ensures entries@ == src, dupes_eq(cmp, src, dupes@, i + 1),
//@ ghost after_loop 0
            proof { d0 = dupes@; }
//@ ghost before_loop 2
            proof { idx = Seq::empty(); }
//@ loop 2
                        invariant
                            it2.seq() == src, index == it2.index(),
                            dupes@ == d0,
                            kept_by(src, __kept@, d0, idx, it2.index() as int), __kept@.len() <= index,
//@ ghost loop_begin 2
                        proof {
                            let i0 = index as int;
                            assert(!d0.contains(index) ==> idx.push(i0).last() == i0);
                            assert forall|i: int| idx.contains(i) implies #[trigger] idx.push(i0).contains(i) by {
                                let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i;
                                assert(idx.push(i0)[k] == i);
                            }
                            assert(idx.push(i0).contains(i0)) by { assert(idx.push(i0)[idx.len() as int] == i0); }
                            if !d0.contains(index) { idx = idx.push(i0); }
                        }
//@ ghost after_loop 2
                    assert(kept_by(src, __kept@, d0, idx, src.len() as int));
//@ ghost end
        proof {
            assert(src.len() < 2 ==> d0 =~= Set::<usize>::empty());
            assert(kept_by(src, entries@, d0, idx, src.len() as int));
            assert forall|same: spec_fn(T, T) -> bool| #[trigger] eq_is(cmp, same) implies deduped(src, entries@, same) by {
                assert(dedup_by(src, entries@, same, idx));
            }
        }
//@ endfn
pub open spec fn ord_answered<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T, r: Ordering) -> bool { f.ensures((&a, &b), r) }
/// d is the set of positions i < upto whose successor compares Equal
pub open spec fn dupes_adj<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>, d: Set<usize>, upto: int) -> bool {
    &&& forall|i: usize| #[trigger] d.contains(i) ==> i < upto && ord_answered(f, s[i as int], s[i + 1], Ordering::Equal)
    &&& forall|i: usize| i < upto && !#[trigger] d.contains(i) ==> exists|o: Ordering| o != Ordering::Equal && #[trigger] f.ensures((&s[i as int], &s[i + 1]), o)
}
//@ proof sort-dedup-lemma C02,C03,C04
pub proof fn lemma_sort_dedup<T, F: Fn(&T, &T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering, src: Seq<T>, s: Seq<T>, d: Set<usize>, idx: Seq<int>, dst: Seq<T>)
    requires
        cmp_is(f, c), lawful_cmp(c), stably_sorted(src, s, c), src.len() == s.len(), s.len() <= usize::MAX,
        dupes_adj(f, s, d, s.len() - 1) || (d =~= Set::empty() && s.len() < 2),
        kept_by(s, dst, d, idx, s.len() as int),
    ensures strictly_sorted_by(dst, c), deduped(src, dst, eq_by(c)),
{
    let same = |a: T, b: T| c(a, b) == Ordering::Equal;
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] permuted_by(src, s, p, q) && stable_perm(s, p, c);
    assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] d.contains(i as usize)) == (c(s[i], s[i + 1]) == Ordering::Equal) by {
        if d.contains(i as usize) { assert(ord_answered(f, s[i], s[i + 1], Ordering::Equal)); }
        else {
            let o = choose|o: Ordering| o != Ordering::Equal && #[trigger] f.ensures((&s[i as usize as int], &s[i as usize as int + 1]), o);
            assert(f.ensures((&s[i], &s[i + 1]), o));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() && !d.contains(i as usize) implies #[trigger] c(s[i], s[j]) == Ordering::Less by {
        assert(c(s[i], s[i + 1]) != Ordering::Greater);
        assert(c(s[i], s[i + 1]) == Ordering::Less);
        if j > i + 1 {
            assert(c(s[i + 1], s[j]) != Ordering::Greater);
            assert(c(s[i], s[j]) != Ordering::Greater);
            if c(s[i], s[j]) == Ordering::Equal {
                assert(c(s[j], s[i]) == Ordering::Equal);
                assert(c(s[i + 1], s[i]) != Ordering::Greater);
                assert(c(s[i], s[i + 1]) == rev_ord(c(s[i + 1], s[i])));
            }
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < dst.len() implies #[trigger] c(dst[k], dst[l]) == Ordering::Less by {
        assert(idx[k] < idx[l]);
        assert(c(s[idx[k]], s[idx[l]]) == Ordering::Less);
    }
    let idx2 = compose(p, idx);
    assert forall|k: int| 0 <= k < dst.len() implies 0 <= #[trigger] idx2[k] < src.len() && dst[k] == src[idx2[k]] && is_last(src, same, idx2[k]) by {
        let i = idx[k];
        assert(s[i] == src[p[i]]);
        assert forall|j: int| p[i] < j < src.len() implies !same(src[p[i]], #[trigger] src[j]) by {
            let m = q[j];
            assert(s[m] == src[p[m]]);
            if m < i {
                if same(src[p[i]], src[j]) {
                    assert(c(s[i], s[m]) == Ordering::Equal);
                    assert(c(s[m], s[i]) == rev_ord(c(s[i], s[m])));
                    assert(p[m] < p[i]);
                }
            } else if m > i { assert(c(s[i], s[m]) == Ordering::Less); }
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < dst.len() implies #[trigger] idx2[k] != #[trigger] idx2[l] by {
        assert(idx[k] < idx[l]);
        assert(q[p[idx[k]]] == idx[k] && q[p[idx[l]]] == idx[l]);
    }
    assert forall|j: int| 0 <= j < src.len() && #[trigger] is_last(src, same, j) implies idx2.contains(j) by {
        let i = q[j];
        assert(s[i] == src[p[i]]);
        if d.contains(i as usize) {
            assert(i < s.len() - 1);
            assert(c(s[i], s[i + 1]) == Ordering::Equal);
            assert(p[i] < p[i + 1]);
            assert(s[i + 1] == src[p[i + 1]]);
            assert(!same(src[j], src[p[i + 1]]));
        }
        assert(idx.contains(i));
        let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i;
        assert(idx2[k] == j);
    }
    assert(dedup_by(src, dst, same, idx2));
}
//@ endproof
//@ fn SortedAndDeduppedVec::new
//@ props C02,C03,C04
    requires forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
    ensures
        res.inner@.len() <= entries@.len(),
        forall|c: spec_fn(T, T) -> Ordering| #![trigger cmp_is(cmp, c)] #![trigger lawful_cmp(c)] cmp_is(cmp, c) && lawful_cmp(c) ==> strictly_sorted_by(res.inner@, c)
            && deduped(entries@, res.inner@, eq_by(c)),
//@ closure 0
|x: &T, y: &T| -> (o: Ordering) requires cmp.requires((x, y)) ensures cmp.ensures((x, y), o)
//@ ghost start
        proof { axiom_ordering_eq(); }
        let ghost src0 = entries@;
        let ghost mut src = entries@;
        let ghost mut idx: Seq<int> = Seq::new(src.len(), |i: int| i);
        let ghost mut d0: Set<usize> = Set::empty();
        proof { assert forall|i: int| 0 <= i < src.len() implies #[trigger] idx.contains(i) by { assert(idx[i] == i); } }
//@ ghost before_loop 0
            proof { src = entries@; }
//@ loop 0
                invariant
                    entries@ == src, src.len() >= 2,
                    forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
                    dupes_adj(cmp, src, dupes@, i as int),
//@ ghost after_loop 0
            proof { d0 = dupes@; }
//@ ghost before_loop 1
            proof { idx = Seq::empty(); }
//@ loop 1
                        invariant
                            it1.seq() == src, index == it1.index(),
                            dupes@ == d0,
                            kept_by(src, __kept@, d0, idx, it1.index() as int), __kept@.len() <= index,
//@ ghost loop_begin 1
                        proof {
                            let i0 = index as int;
                            assert(!d0.contains(index) ==> idx.push(i0).last() == i0);
                            assert forall|i: int| idx.contains(i) implies #[trigger] idx.push(i0).contains(i) by {
                                let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i;
                                assert(idx.push(i0)[k] == i);
                            }
                            assert(idx.push(i0).contains(i0)) by { assert(idx.push(i0)[idx.len() as int] == i0); }
                            if !d0.contains(index) { idx = idx.push(i0); }
                        }
//@ ghost after_loop 1
                    assert(kept_by(src, __kept@, d0, idx, src.len() as int));
//@ ghost end
        proof {
            if src0.len() < 2 { src = entries@; }
            assert(kept_by(src, entries@, d0, idx, src.len() as int));
            assert forall|c: spec_fn(T, T) -> Ordering| #![trigger cmp_is(cmp, c)] #![trigger lawful_cmp(c)] cmp_is(cmp, c) && lawful_cmp(c) implies
                strictly_sorted_by(entries@, c) && deduped(src0, entries@, eq_by(c)) by {
                lemma_sort_dedup(cmp, c, src0, src, d0, idx, entries@);
            }
        }
//@ endfn
//@ fn DeduppedVec::using_cmp
//@ props C02,C03
    requires forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
    ensures
        res.inner@.len() <= entries@.len(),
        forall|c: spec_fn(T, T) -> Ordering| #![trigger cmp_is(cmp, c)] #![trigger lawful_cmp(c)] cmp_is(cmp, c) && lawful_cmp(c) ==> strictly_sorted_by(res.inner@, c)
            && deduped(entries@, res.inner@, eq_by(c)),
//@ endfn
/// eq and hasher compute `same` and `h`, and equal elements have equal hash codes
pub open spec fn good<T, F: Fn(&T, &T) -> bool, H: Fn(&T) -> u64>(eq: F, hasher: H, same: spec_fn(T, T) -> bool, h: spec_fn(T) -> u64) -> bool {
    &&& eq_is(eq, same) && equivalence(same) && hash_is(hasher, h)
    &&& forall|a: T, b: T| #[trigger] same(a, b) ==> h(a) == h(b)
}
pub open spec fn hash_is<T, H: Fn(&T) -> u64>(hasher: H, h: spec_fn(T) -> u64) -> bool {
    forall|a: &T, r: u64| #[trigger] hasher.ensures((a,), r) ==> r == h(*a)
}
pub open spec fn hashed_as<T, H: Fn(&T) -> u64>(hasher: H, e: T, r: u64) -> bool { hasher.ensures((&e,), r) }
pub open spec fn kept_are_last<T>(src: Seq<T>, m: int, k: Set<(u64, usize)>, hs: Seq<u64>, same: spec_fn(T, T) -> bool) -> bool {
    forall|i: usize| i < m ==> (#[trigger] k.contains((hs[i as int], i)) <==> is_last(src.take(m), same, i as int))
}
pub proof fn lemma_dedup_step<T>(src: Seq<T>, m: int, k: Set<(u64, usize)>, hs: Seq<u64>, hash: u64, k2: Set<(u64, usize)>, same: spec_fn(T, T) -> bool, found: Option<usize>)
    requires
        0 <= m < src.len(), hs.len() == m, src.len() <= usize::MAX, equivalence(same), kept_are_last(src, m, k, hs, same),
        forall|hh: u64, i: usize| #[trigger] k.contains((hh, i)) ==> i < m && hh == hs[i as int],
        match found {
            Some(o) => k.contains((hs[o as int], o)) && o < m && same(src[m], src[o as int]) && k2 == k.remove((hs[o as int], o)).insert((hash, m as usize)),
            None => k2 == k.insert((hash, m as usize)) && forall|i: usize| i < m && #[trigger] k.contains((hs[i as int], i)) ==> !same(src[i as int], src[m]),
        },
    ensures kept_are_last(src, m + 1, k2, hs.push(hash), same),
{
    let a = src.take(m);
    let b = src.take(m + 1);
    let hs2 = hs.push(hash);
    assert forall|i: usize| i < m + 1 implies (#[trigger] k2.contains((hs2[i as int], i)) <==> is_last(b, same, i as int)) by {
        if i == m {
        } else {
            assert(hs2[i as int] == hs[i as int]);
            assert(k.contains((hs[i as int], i)) <==> is_last(a, same, i as int));
            assert(a[i as int] == b[i as int]);
            if is_last(b, same, i as int) {
                assert(!same(b[i as int], b[m]));
                assert forall|j: int| i < j < a.len() implies !same(a[i as int], #[trigger] a[j]) by { assert(b[j] == a[j]); }
                if found == Some(i) { assert(same(src[m], src[i as int])); assert(same(src[i as int], src[m])); }
            }
            if k2.contains((hs2[i as int], i)) {
                assert(is_last(a, same, i as int));
                if same(src[i as int], src[m]) {
                    match found {
                        Some(o) => {
                            assert(same(src[i as int], src[o as int]));
                            assert(is_last(a, same, o as int));
                            assert(i != o);
                            if i < o { assert(!same(a[i as int], a[o as int])); } else {
                                assert(same(src[o as int], src[i as int]));
                                assert(!same(a[o as int], a[i as int]));
                            }
                        }
                        None => { }
                    }
                }
                assert forall|j: int| i < j < b.len() implies !same(b[i as int], #[trigger] b[j]) by { if j < m { assert(b[j] == a[j]); } }
            }
        }
    }
}
//@ fn DeduppedVec::using_hash
//@ props C01,C02,C05
//@ rewrite dupes.contains(&index) =>> crate::prelude::v_slice_contains(&dupes, &index)
    requires forall|a: &T, b: &T| #[trigger] eq.requires((a, b)), forall|a: &T| #[trigger] hasher.requires((a,)),
    ensures
        res.inner@.len() <= entries@.len(),
        forall|same: spec_fn(T, T) -> bool, h: spec_fn(T) -> u64| #![trigger good(eq, hasher, same, h)] #![trigger want2(same, h)] good(eq, hasher, same, h) ==> deduped(entries@, res.inner@, same),
//@ closure 0
|other: &usize| -> (r: bool) requires *other < entries@.len() ensures eq.ensures((value, &entries@[*other as int]), r)
//@ closure 1
|x: &usize| -> (r: u64) requires *x < entries@.len() ensures hasher.ensures((&entries@[*x as int],), r)
//@ ghost start
        let ghost src = entries@;
        let ghost mut idx: Seq<int> = Seq::new(src.len(), |i: int| i);
        let ghost mut d0: Set<usize> = Set::empty();
        let ghost mut hs: Seq<u64> = Seq::empty();
        let ghost mut fk: Set<(u64, usize)> = Set::empty();
        proof { assert forall|i: int| 0 <= i < src.len() implies #[trigger] idx.contains(i) by { assert(idx[i] == i); } }
//@ loop 0
                invariant
                    it0.seq() == src.as_ref(), entries@ == src,
                    __enum0 == it0.index(), hs.len() == __enum0, __enum0 <= src.len(),
                    keep.count() <= __enum0, keep.cap() >= src.len(),
                    forall|a: &T, b: &T| #[trigger] eq.requires((a, b)), forall|a: &T| #[trigger] hasher.requires((a,)),
                    forall|i: int| 0 <= i < hs.len() ==> hashed_as(hasher, src[i], #[trigger] hs[i]),
                    forall|hh: u64, i: usize| #[trigger] keep@.contains((hh, i)) ==> i < __enum0 && hh == hs[i as int],
                    forall|i: usize| i < __enum0 ==> (#[trigger] keep@.contains((hs[i as int], i)) <==> !dupes@.contains(i)),
                    forall|i: usize| #[trigger] dupes@.contains(i) ==> i < __enum0,
                    forall|same: spec_fn(T, T) -> bool, h: spec_fn(T) -> u64| #[trigger] good(eq, hasher, same, h) ==> kept_are_last(src, __enum0 as int, keep@, hs, same),
//@ ghost loop_begin 0
                let ghost k0 = keep@;
                let ghost hs0 = hs;
                let ghost du0 = dupes@;
//@ ghost loop_end 0
                proof {
                    let m = __enum0 - 1;
                    hs = hs0.push(hash);
                    let found: Option<usize> = if dupes@ == du0 { None } else { Some(dupes@.last()) };
                    if dupes@ != du0 {
                        assert(dupes@[du0.len() as int] == dupes@.last());
                        assert forall|i: usize| du0.contains(i) implies #[trigger] dupes@.contains(i) by {
                            let k = choose|k: int| 0 <= k < du0.len() && du0[k] == i;
                            assert(dupes@[k] == i);
                        }
                        assert forall|i: usize| #[trigger] dupes@.contains(i) implies du0.contains(i) || i == dupes@.last() by {
                            let k = choose|k: int| 0 <= k < dupes@.len() && dupes@[k] == i;
                            if k < du0.len() { assert(du0[k] == i); }
                        }
                    }
                    assert forall|same: spec_fn(T, T) -> bool, h: spec_fn(T) -> u64| #[trigger] good(eq, hasher, same, h) implies kept_are_last(src, m + 1, keep@, hs, same) by {
                        assert(kept_are_last(src, m, k0, hs0, same));
                        assert(*value == src[m]);
                        assert(hash == h(src[m]));
                        if found is None {
                            assert forall|i: usize| i < m && #[trigger] k0.contains((hs0[i as int], i)) implies !same(src[i as int], src[m]) by {
                                assert(hashed_as(hasher, src[i as int], hs0[i as int]));
                                if same(src[i as int], src[m]) {
                                    assert(hs0[i as int] == hash);
                                    assert(same(src[m], src[i as int]));
                                    assert(k0.contains((hash, i)));
                                }
                            }
                        }
                        lemma_dedup_step(src, m, k0, hs0, hash, keep@, same, found);
                    }
                }
//@ ghost after_loop 0
            proof { d0 = dupes@.to_set(); fk = keep@; }
//@ ghost before_loop 1
            proof { idx = Seq::empty(); }
//@ loop 1
                        invariant
                            it1.seq() == src, index == it1.index(),
                            forall|i: usize| #[trigger] d0.contains(i) == dupes@.contains(i),
                            kept_by(src, __kept@, d0, idx, it1.index() as int), __kept@.len() <= index,
//@ ghost loop_begin 1
                        proof {
                            let i0 = index as int;
                            assert(d0.contains(index) == dupes@.contains(index));
                            assert(!d0.contains(index) ==> idx.push(i0).last() == i0);
                            assert forall|i: int| idx.contains(i) implies #[trigger] idx.push(i0).contains(i) by {
                                let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i;
                                assert(idx.push(i0)[k] == i);
                            }
                            assert(idx.push(i0).contains(i0)) by { assert(idx.push(i0)[idx.len() as int] == i0); }
                            if !d0.contains(index) { idx = idx.push(i0); }
                        }
//@ ghost after_loop 1
                    assert(kept_by(src, __kept@, d0, idx, src.len() as int));
//@ ghost end
        proof {
            assert(kept_by(src, entries@, d0, idx, src.len() as int));
            assert(src.take(src.len() as int) =~= src);
            assert forall|same: spec_fn(T, T) -> bool, h: spec_fn(T) -> u64| #[trigger] good(eq, hasher, same, h) implies deduped(src, entries@, same) by {
                assert forall|i: int| 0 <= i < src.len() implies (#[trigger] is_last(src, same, i) == !d0.contains(i as usize)) by {
                    if src.len() >= 2 {
                        assert(kept_are_last(src, src.len() as int, fk, hs, same));
                        assert(fk.contains((hs[i as usize as int], i as usize)) == !d0.contains(i as usize));
                    }
                }
                assert(dedup_by(src, entries@, same, idx));
            }
        }
//@ endfn
//@ fn DeduppedVec::into_boxed_slice
//@ props C02,C06
//@ rewrite self.inner.into() =>> self.inner.into_boxed_slice()
    ensures res@ == self.inner@,
//@ endfn
//@ fn DeduppedVec::into_vec
//@ props C02
    ensures res@ == self.inner@,
//@ endfn
//@ fn DeduppedVec::into_array
//@ props C02,C12
//@ rewrite self.inner.try_into().unwrap_or_else(|_| { ::core::panicking::panic_fmt(format_args!("Cannot convert to array of size {0}: length mismatch", N)); }) =>> crate::prelude::v_vec_into_array::<T, N>(self.inner)
    ensures self.inner@.len() == N, res@ == self.inner@,
//@ endfn
//@ fn DeduppedVec::is_empty
//@ props C02,C15
    ensures res == (self.inner@.len() == 0),
//@ endfn
//@ fn DeduppedVec::len
//@ props C02,C15
    ensures res == self.inner@.len(),
//@ endfn
//@ fn DeduppedVec::iter
//@ props C02,C15
//@ rewrite impl Iterator<Item = &T> =>> core::slice::Iter<'_, T>
    ensures res.remaining() == self.inner@.as_ref(), res.obeys_prophetic_iter_laws(), res.decrease() is Some,
//@ endfn
//@ fn SortedAndDeduppedVec::into_boxed_slice
//@ props C02,C06
//@ rewrite self.inner.into() =>> self.inner.into_boxed_slice()
    ensures res@ == self.inner@,
//@ endfn
//@ fn SortedAndDeduppedVec::into_vec
//@ props C02
    ensures res@ == self.inner@,
//@ endfn
//@ fn SortedAndDeduppedVec::is_empty
//@ props C02,C15
    ensures res == (self.inner@.len() == 0),
//@ endfn
//@ fn SortedAndDeduppedVec::len
//@ props C02,C15
    ensures res == self.inner@.len(),
//@ endfn
//@ fn SortedAndDeduppedVec::iter
//@ props C02,C15
//@ rewrite impl Iterator<Item = &T> =>> core::slice::Iter<'_, T>
    ensures res.remaining() == self.inner@.as_ref(), res.obeys_prophetic_iter_laws(), res.decrease() is Some,
//@ endfn
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for SortedAndDeduppedVec<T> {
    open spec fn index_req(&self, index: &usize) -> bool { *index < self.inner@.len() }
}
impl<T> core::ops::Index<usize> for SortedAndDeduppedVec<T> {
    type Output = T;
//@ fn SortedAndDeduppedVec@Index::index
//@ props C04,C15
//@ mode bare
    ensures *res == self.inner@[index as int],
//@ endfn
}
//@ fn DeduppedVec@From::from
//@ props C02
//@ mode free
//@ rename dedupped_from_sorted
    ensures res.inner == sorted_and_dedupped.inner,
//@ endfn
pub open spec fn dup_at<T: Eq>(v: Seq<T>, i: int, j: int) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&v[j], &v[i]) }
//@ fn has_duplicates
//@ props C14
    ensures T::obeys_eq_spec() ==> res == exists|i: int, j: int| 0 <= j < i < values@.len() && #[trigger] dup_at(values@, i, j),
//@ loop 0
        invariant T::obeys_eq_spec() ==> forall|a: int, b: int| 0 <= b < a < i ==> !#[trigger] dup_at(values@, a, b),
//@ loop 1
            invariant T::obeys_eq_spec() ==> (forall|a: int, b: int| 0 <= b < a < i ==> !#[trigger] dup_at(values@, a, b)),
                T::obeys_eq_spec() ==> (forall|b: int| 0 <= b < j ==> !#[trigger] dup_at(values@, i as int, b)), i < values@.len(),
//@ ghost loop_begin 1
            assert(dup_at(values@, i as int, j as int) == vstd::std_specs::cmp::PartialEqSpec::eq_spec(&values@[j as int], &values@[i as int]));
//@ endfn
}
//@ module utils::hints
pub mod utils_hints {
use vstd::prelude::*;
//@ fn cold
//@ props C14
//@ endfn
}
/// (the crate's module path)
pub mod utils { pub use crate::utils_dedup::has_duplicates; pub use crate::utils_hints::cold; }
