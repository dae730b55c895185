/// Permutations, sorting, and the "last duplicate wins" relation.
pub mod perm {
use vstd::prelude::*;
use core::cmp::Ordering;

pub open spec fn perm_pair(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
pub open spec fn permuted_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    a.len() == b.len() && perm_pair(p, q, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
}
/// b is a rearrangement of a
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>) -> bool {
    exists|p: Seq<int>, q: Seq<int>| permuted_by(a, b, p, q)
}
pub open spec fn rev(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| n - 1 - i) }
pub open spec fn compose(p: Seq<int>, r: Seq<int>) -> Seq<int> { Seq::new(r.len(), |i: int| p[r[i]]) }

//@ proof perm-lemmas C01,C02,C03,C08,C16
pub proof fn lemma_permuted_refl<T>(a: Seq<T>)
    ensures permuted(a, a),
{
    let p = Seq::new(a.len(), |i: int| i);
    assert(permuted_by(a, a, p, p));
}
pub proof fn lemma_permuted_reverse<T>(a: Seq<T>, b: Seq<T>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[a.len() - 1 - i],
    ensures permuted(a, b),
{
    let p = rev(a.len() as int);
    assert(permuted_by(a, b, p, p));
}
pub proof fn lemma_permuted_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires permuted(a, b), permuted(b, c),
    ensures permuted(a, c),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted_by(a, b, p, q);
    let (r, s) = choose|r: Seq<int>, s: Seq<int>| permuted_by(b, c, r, s);
    assert(permuted_by(a, c, compose(p, r), compose(s, q)));
}
pub proof fn lemma_permuted_sym<T>(a: Seq<T>, b: Seq<T>)
    requires permuted(a, b),
    ensures permuted(b, a),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted_by(a, b, p, q);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[q[i]] by { assert(b[q[i]] == a[p[q[i]]]); }
    assert(permuted_by(b, a, q, p));
}
/// image under a position-wise function
pub proof fn lemma_permuted_map<T, U>(a: Seq<T>, b: Seq<T>, f: spec_fn(T) -> U)
    requires permuted(a, b),
    ensures permuted(a.map_values(f), b.map_values(f)),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted_by(a, b, p, q);
    assert(permuted_by(a.map_values(f), b.map_values(f), p, q));
}
/// swapping two positions
pub proof fn lemma_permuted_swap<T>(a: Seq<T>, i: int, j: int)
    requires 0 <= i < a.len(), 0 <= j < a.len(),
    ensures permuted(a, a.update(i, a[j]).update(j, a[i])),
{
    let p = Seq::new(a.len(), |k: int| if k == i { j } else if k == j { i } else { k });
    assert(permuted_by(a, a.update(i, a[j]).update(j, a[i]), p, p));
}
/// elements correspond in both directions
pub proof fn lemma_permuted_members<T>(a: Seq<T>, b: Seq<T>)
    requires permuted(a, b),
    ensures a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
        forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted_by(a, b, p, q);
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by {
        assert(b[q[i]] == a[p[q[i]]]);
    }
    assert forall|j: int| 0 <= j < b.len() implies a.contains(#[trigger] b[j]) by {
        assert(b[j] == a[p[j]]);
    }
}
//@ endproof

// ---------- comparators and sorting ----------
pub open spec fn rev_ord(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
/// c is a total preorder
pub open spec fn lawful_cmp<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T| #[trigger] c(a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] c(a, b) == rev_ord(c(b, a))
    &&& forall|a: T, b: T, d: T| #![trigger c(a, b), c(b, d)] c(a, b) != Ordering::Greater && c(b, d) != Ordering::Greater ==> c(a, d) != Ordering::Greater
}
pub proof fn lemma_len0<T>() ensures forall|s: Seq<T>| #[trigger] s.len() == 0 ==> s == Seq::<T>::empty() { assert forall|s: Seq<T>| #[trigger] s.len() == 0 implies s == Seq::<T>::empty() by { assert(s =~= Seq::<T>::empty()); } }
/// the kept elements come from the source
pub proof fn lemma_deduped_from<T>(src: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool)
    requires deduped(src, dst, same),
    ensures forall|k: int| 0 <= k < dst.len() ==> src.contains(#[trigger] dst[k]),
{
    let idx = choose|idx: Seq<int>| dedup_by(src, dst, same, idx);
    assert forall|k: int| 0 <= k < dst.len() implies src.contains(#[trigger] dst[k]) by { assert(dst[k] == src[idx[k]]); }
}
/// (triggers) ask for an instance of a quantified contract
pub open spec fn want<A>(a: A) -> bool { true }
pub open spec fn want2<A, B>(a: A, b: B) -> bool { true }
pub open spec fn eq_by<T>(c: spec_fn(T, T) -> Ordering) -> spec_fn(T, T) -> bool { |a: T, b: T| c(a, b) == Ordering::Equal }
pub open spec fn cmp_is<T, F: Fn(&T, &T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == c(*a, *b)
}
pub open spec fn sorted_by<T>(a: Seq<T>, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] c(a[i], a[j]) != Ordering::Greater
}
/// strictly ascending
pub open spec fn strictly_sorted_by<T>(a: Seq<T>, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] c(a[i], a[j]) == Ordering::Less
}
pub trait VSort<T> {
    spec fn vs_items(&self) -> Seq<T>;
    /// `<[T]>::sort_unstable_by` (trusted): a rearrangement, sorted when the comparator is a total preorder
    fn v_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        ensures permuted(old(self).vs_items(), final(self).vs_items()),
            forall|c: spec_fn(T, T) -> Ordering| #![trigger lawful_cmp(c)] cmp_is(f, c) && lawful_cmp(c) ==> sorted_by(final(self).vs_items(), c);
    /// `<[T]>::sort_by` (trusted): a stable rearrangement, sorted when the comparator is a total preorder
    fn v_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        ensures permuted(old(self).vs_items(), final(self).vs_items()),
            forall|c: spec_fn(T, T) -> Ordering| #![trigger lawful_cmp(c)] cmp_is(f, c) && lawful_cmp(c) ==> stably_sorted(old(self).vs_items(), final(self).vs_items(), c);
}
pub open spec fn stable_perm<T>(b: Seq<T>, p: Seq<int>, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < b.len() && c(b[i], b[j]) == Ordering::Equal ==> #[trigger] p[i] < #[trigger] p[j]
}
pub open spec fn stably_sorted<T>(a: Seq<T>, b: Seq<T>, c: spec_fn(T, T) -> Ordering) -> bool {
    sorted_by(b, c) && exists|p: Seq<int>, q: Seq<int>| #[trigger] permuted_by(a, b, p, q) && stable_perm(b, p, c)
}
impl<T> VSort<T> for Vec<T> {
    open spec fn vs_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { self.sort_unstable_by(|a, b| f(a, b)) }
    #[verifier::external_body]
    fn v_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { self.sort_by(|a, b| f(a, b)) }
}

// ---------- duplicates: the last one wins ----------
/// no later element is the same as element i
pub open spec fn is_last<T>(src: Seq<T>, same: spec_fn(T, T) -> bool, i: int) -> bool {
    forall|j: int| i < j < src.len() ==> !same(src[i], #[trigger] src[j])
}
pub open spec fn dedup_by<T>(src: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool, idx: Seq<int>) -> bool {
    &&& idx.len() == dst.len()
    &&& forall|k: int| 0 <= k < dst.len() ==> 0 <= #[trigger] idx[k] < src.len() && dst[k] == src[idx[k]] && is_last(src, same, idx[k])
    &&& forall|k: int, l: int| 0 <= k < l < dst.len() ==> #[trigger] idx[k] != #[trigger] idx[l]
    &&& forall|i: int| 0 <= i < src.len() && #[trigger] is_last(src, same, i) ==> idx.contains(i)
}
/// dst holds exactly the last element of every class of `same` in src, each once
pub open spec fn deduped<T>(src: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool) -> bool {
    exists|idx: Seq<int>| dedup_by(src, dst, same, idx)
}
pub open spec fn equivalence<T>(same: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: T| #[trigger] same(a, a)
    &&& forall|a: T, b: T| #[trigger] same(a, b) ==> same(b, a)
    &&& forall|a: T, b: T, c: T| #![trigger same(a, b), same(b, c)] same(a, b) && same(b, c) ==> same(a, c)
}
/// no two elements are the same
pub open spec fn distinct<T>(s: Seq<T>, same: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !#[trigger] same(s[i], s[j])
}
//@ proof dedup-lemmas C02,C08,C09,C11,C16
pub proof fn lemma_deduped_distinct<T>(src: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool)
    requires deduped(src, dst, same), equivalence(same),
    ensures distinct(dst, same),
{
    let idx = choose|idx: Seq<int>| dedup_by(src, dst, same, idx);
    assert forall|i: int, j: int| 0 <= i < dst.len() && 0 <= j < dst.len() && i != j implies !#[trigger] same(dst[i], dst[j]) by {
        let a = idx[i];
        let b = idx[j];
        if i < j { assert(a != b); } else { assert(b != a); }
        if a < b { assert(is_last(src, same, a)); assert(!same(src[a], src[b])); }
        else { assert(is_last(src, same, b)); assert(!same(src[b], src[a])); }
    }
}
/// every input element is represented by the last element of its class
pub proof fn lemma_last_exists<T>(src: Seq<T>, same: spec_fn(T, T) -> bool, i: int) -> (j: int)
    requires 0 <= i < src.len(), equivalence(same),
    ensures i <= j < src.len(), same(src[i], src[j]), is_last(src, same, j),
    decreases src.len() - i,
{
    if is_last(src, same, i) { i } else {
        let k = choose|k: int| i < k < src.len() && same(src[i], #[trigger] src[k]);
        let j = lemma_last_exists(src, same, k);
        assert(same(src[i], src[k]) && same(src[k], src[j]));
        j
    }
}
pub proof fn lemma_deduped_covers<T>(src: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool, i: int) -> (r: (int, int))
    requires deduped(src, dst, same), equivalence(same), 0 <= i < src.len(),
    ensures i <= r.0 < src.len(), same(src[i], src[r.0]), is_last(src, same, r.0), 0 <= r.1 < dst.len(), dst[r.1] == src[r.0],
{
    let idx = choose|idx: Seq<int>| dedup_by(src, dst, same, idx);
    let j = lemma_last_exists(src, same, i);
    let k = choose|k: int| 0 <= k < idx.len() && idx[k] == j;
    (j, k)
}
pub proof fn lemma_deduped_permuted<T>(src: Seq<T>, mid: Seq<T>, dst: Seq<T>, same: spec_fn(T, T) -> bool)
    requires deduped(src, mid, same), permuted(mid, dst),
    ensures deduped(src, dst, same),
{
    let idx = choose|idx: Seq<int>| dedup_by(src, mid, same, idx);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| permuted_by(mid, dst, p, q);
    let idx2 = compose(idx, p);
    assert forall|k: int| 0 <= k < dst.len() implies 0 <= #[trigger] idx2[k] < src.len() && dst[k] == src[idx2[k]] && is_last(src, same, idx2[k]) by {
        assert(dst[k] == mid[p[k]]);
        assert(0 <= idx[p[k]]);
    }
    assert forall|k: int, l: int| 0 <= k < l < dst.len() implies #[trigger] idx2[k] != #[trigger] idx2[l] by {
        assert(q[p[k]] == k && q[p[l]] == l);
        if p[k] < p[l] { assert(idx[p[k]] != idx[p[l]]); } else { assert(idx[p[l]] != idx[p[k]]); }
    }
    assert forall|i: int| 0 <= i < src.len() && #[trigger] is_last(src, same, i) implies idx2.contains(i) by {
        let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i;
        assert(idx2[q[k]] == idx[p[q[k]]]);
        assert(0 <= q[k] < dst.len());
    }
    assert(dedup_by(src, dst, same, idx2));
}
//@ endproof
} // mod perm
