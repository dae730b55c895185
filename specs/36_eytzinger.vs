//@ module utils::eytzinger
pub mod utils_eytzinger {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::perm::*;
use crate::hashbrown;
//@ proof eytzinger-layout-arithmetic C03
/// floor of the binary logarithm
pub open spec fn lg(p: nat) -> nat decreases p { if p <= 1 { 0 } else { 1 + lg(p / 2) } }
/// depth of node i of the implicit tree (children 2i+1 and 2i+2), and its place in that level
pub open spec fn dep(i: int) -> nat { lg((i + 1) as nat) }
pub open spec fn col(i: int) -> int { i + 1 - pow2(dep(i)) }
/// the levels of the tree of n nodes are 0..=lev(n), the last one possibly partial
pub open spec fn lev(n: int) -> nat { lg((n + 1) as nat) }
/// width of the interval of in-order positions below node i in the full tree whose last level is h
pub open spec fn wid(i: int, h: nat) -> int { pow2((h + 1 - dep(i)) as nat) as int }
pub open spec fn lo(i: int, h: nat) -> int { wid(i, h) * col(i) }
pub open spec fn hi(i: int, h: nat) -> int { wid(i, h) * (col(i) + 1) }
/// in-order position (from 1) in the full tree
pub open spec fn pos(i: int, h: nat) -> int { pow2((h - dep(i)) as nat) * (2 * col(i) + 1) }
/// in-order position (from 0) among the n nodes there are: the absent leaves before it do not count
pub open spec fn squeeze(y: int, n: int) -> int {
    let m = n + 1 - pow2(lev(n));
    y - 1 - (if y / 2 > m { y / 2 - m } else { 0 })
}
pub open spec fn rank(i: int, n: int) -> int { squeeze(pos(i, lev(n)), n) }

pub proof fn lemma_lg(p: nat)
    requires p >= 1,
    ensures pow2(lg(p)) <= p < 2 * pow2(lg(p)), 2 * pow2(lg(p)) == pow2(lg(p) + 1), lg(p) < p,
    decreases p,
{
    lemma_pow2_unfold(lg(p) + 1);
    if p > 1 { lemma_lg(p / 2); lemma_pow2_unfold(lg(p)); } else { lemma2_to64(); }
}
pub proof fn lemma_pow2_mono(a: nat, b: nat)
    ensures a <= b ==> pow2(a) <= pow2(b), pow2(a) < pow2(b) ==> a < b, pow2(a) > 0,
{
    lemma_pow2_pos(a);
    if a < b { lemma_pow2_strictly_increases(a, b); } else if b < a { lemma_pow2_strictly_increases(b, a); }
}
pub proof fn lemma_lg_mono(p: nat, q: nat)
    requires 1 <= p <= q,
    ensures lg(p) <= lg(q),
{
    lemma_lg(p); lemma_lg(q);
    lemma_pow2_mono(lg(p), lg(q) + 1);
}
pub proof fn lemma_lg_unique(p: nat, d: nat)
    requires pow2(d) <= p < 2 * pow2(d),
    ensures p >= 1, lg(p) == d,
{
    lemma_pow2_pos(d);
    lemma_lg(p);
    lemma_pow2_unfold(d + 1);
    lemma_pow2_mono(d, lg(p) + 1);
    lemma_pow2_mono(lg(p), d + 1);
}
/// a node and its two children share its interval
pub proof fn lemma_children(i: int, h: nat)
    requires i >= 0, dep(i) <= h,
    ensures dep(2 * i + 1) == dep(i) + 1, dep(2 * i + 2) == dep(i) + 1,
        lo(2 * i + 1, h) == lo(i, h), hi(2 * i + 1, h) == pos(i, h), lo(2 * i + 2, h) == pos(i, h), hi(2 * i + 2, h) == hi(i, h),
        lo(i, h) < pos(i, h) < hi(i, h), 0 <= col(i) < pow2(dep(i)),
{
    let d = dep(i);
    let p = (i + 1) as nat;
    lemma_lg(p);
    lemma_pow2_unfold(d + 1);
    lemma_lg_unique((2 * p) as nat, d + 1);
    lemma_lg_unique((2 * p + 1) as nat, d + 1);
    assert(2 * i + 1 + 1 == 2 * p && 2 * i + 2 + 1 == 2 * p + 1);
    assert(col(2 * i + 1) == 2 * col(i) && col(2 * i + 2) == 2 * col(i) + 1);
    let w = pow2((h - d) as nat) as int;
    lemma_pow2_pos((h - d) as nat);
    lemma_pow2_unfold((h + 1 - d) as nat);
    assert(wid(i, h) == 2 * w);
    assert(wid(2 * i + 1, h) == w && wid(2 * i + 2, h) == w) by { assert(h + 1 - (d + 1) == h - d); }
    let c = col(i);
    assert((2 * w) * c == w * (2 * c)) by (nonlinear_arith);
    assert((2 * w) * (c + 1) == w * (2 * c + 2)) by (nonlinear_arith);
    assert(w * (2 * c) + w == w * (2 * c + 1) && w * (2 * c + 1) + w == w * (2 * c + 2)) by (nonlinear_arith);
}
/// a node of a shallower level lies outside the interval of i; one of the same level inside it is i
pub proof fn lemma_outside(j: int, i: int, h: nat)
    requires 0 <= j, 0 <= i, dep(j) <= dep(i) <= h + 1, dep(j) <= h, lo(i, h) < pos(j, h) < hi(i, h),
    ensures j == i,
{
    let d = dep(i); let e = dep(j);
    lemma_lg((i + 1) as nat); lemma_lg((j + 1) as nat);
    let w = wid(i, h); let c = col(i);
    lemma_pow2_pos((h + 1 - d) as nat);
    if e < d {
        let f = pow2((d - 1 - e) as nat) as int;
        lemma_pow2_adds((h + 1 - d) as nat, (d - 1 - e) as nat);
        assert(h + 1 - d + (d - 1 - e) == h - e);
        let k = f * (2 * col(j) + 1);
        assert(pos(j, h) == w * k) by (nonlinear_arith) requires pos(j, h) == (w * f) * (2 * col(j) + 1), k == f * (2 * col(j) + 1);
        assert(w * c < w * k && w * k < w * (c + 1));
        assert(c < k && k < c + 1) by (nonlinear_arith) requires w * c < w * k, w * k < w * (c + 1), w > 0;
    } else {
        let v = pow2((h - d) as nat) as int;
        lemma_pow2_pos((h - d) as nat);
        lemma_pow2_unfold((h + 1 - d) as nat);
        let k = col(j);
        assert(c == k) by (nonlinear_arith) requires (2 * v) * c < v * (2 * k + 1), v * (2 * k + 1) < (2 * v) * (c + 1), v > 0;
    }
}
/// facts about the n-node tree
pub proof fn lemma_tree(i: int, n: int)
    requires 0 <= i < n,
    ensures dep(i) <= lev(n), pow2(lev(n)) <= n + 1 < 2 * pow2(lev(n)),
        1 <= pos(i, lev(n)) <= 2 * pow2(lev(n)) - 1,
        dep(i) == lev(n) ==> pos(i, lev(n)) == 2 * col(i) + 1 && col(i) < n + 1 - pow2(lev(n)),
        dep(i) < lev(n) ==> pos(i, lev(n)) % 2 == 0,
        0 <= rank(i, n) < n,
{
    let h = lev(n);
    lemma_lg_mono((i + 1) as nat, (n + 1) as nat);
    lemma_lg((n + 1) as nat); lemma_lg((i + 1) as nat);
    let d = dep(i); let c = col(i);
    let w = pow2((h - d) as nat) as int;
    lemma_pow2_pos((h - d) as nat);
    lemma_pow2_adds((h - d) as nat, d);
    let pd = pow2(d) as int;
    assert(w * pd == pow2(h));
    assert(1 <= w * (2 * c + 1) && w * (2 * c + 1) <= 2 * (w * pd) - w) by (nonlinear_arith) requires w >= 1, 0 <= c < pd;
    if d == h { lemma2_to64(); assert(w == 1); assert(1 * (2 * c + 1) == 2 * c + 1); assert(pos(i, h) == w * (2 * c + 1)); } else {
        lemma_pow2_unfold((h - d) as nat);
        let v = pow2((h - d - 1) as nat) as int;
        lemma_pow2_pos((h - d - 1) as nat);
        assert(w == 2 * v);
        assert((2 * v) * (2 * c + 1) == 2 * (v * (2 * c + 1))) by (nonlinear_arith);
        assert(pos(i, h) == 2 * (v * (2 * c + 1)));
    }
}
/// in-order: positions and ranks of present nodes are ordered alike
pub proof fn lemma_rank_mono(i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n, pos(i, lev(n)) < pos(j, lev(n)),
    ensures rank(i, n) < rank(j, n),
{
    lemma_tree(i, n); lemma_tree(j, n);
}
pub proof fn lemma_rank_inj(i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n, rank(i, n) == rank(j, n),
    ensures i == j,
{
    let h = lev(n);
    lemma_tree(i, n); lemma_tree(j, n);
    lemma_children(i, h); lemma_children(j, h);
    if pos(i, h) < pos(j, h) { lemma_rank_mono(i, j, n); } else if pos(j, h) < pos(i, h) { lemma_rank_mono(j, i, n); } else {
        if dep(j) <= dep(i) { lemma_outside(j, i, h); } else { lemma_outside(i, j, h); }
    }
}
/// outside the tree there is nothing to find
pub proof fn lemma_leaf(i: int, j: int, n: int)
    requires 0 <= j < n <= i, dep(i) <= lev(n) + 1, lo(i, lev(n)) < pos(j, lev(n)) < hi(i, lev(n)),
    ensures false,
{
    lemma_tree(j, n);
    lemma_lg_mono((j + 1) as nat, (i + 1) as nat);
    lemma_outside(j, i, lev(n));
}
pub proof fn lemma_npot(x: int, d: nat)
    requires pow2(d) < x <= pow2(d + 1), d + 1 < 64,
    ensures forall|r: int| #[trigger] npot(r, x) ==> r == pow2(d + 1),
{
    assert(is_p2(pow2(d + 1) as int));
    assert forall|r: int| #[trigger] npot(r, x) implies r == pow2(d + 1) by {
        let k = choose|k: nat| k < 64 && r == #[trigger] pow2(k);
        lemma_pow2_mono(d, k);
        lemma_pow2_mono(d + 1, k);
    }
}
pub proof fn lemma_small(d: nat)
    requires pow2(d) < 0x8000_0000_0000_0000,
    ensures d < 63,
{ lemma2_to64(); lemma2_to64_rest(); lemma_pow2_mono(d, 63); if d >= 63 { lemma_pow2_mono(63, d); } }
/// the values the index computation goes through
pub proof fn lemma_index_steps(i: usize, n: usize)
    requires i < n < 0x4000_0000_0000_0000,
    ensures ({
        let d = dep(i as int); let h = lev(n as int);
        &&& d <= h <= 62
        &&& forall|r: int| #[trigger] npot(r, i + 2) ==> r == pow2(d + 1)
        &&& forall|r: int| #[trigger] npot(r, n + 2) ==> r == pow2(h + 1)
        &&& pow2(h + 1) == 2 * pow2(h) && pow2(d) <= i + 1
        &&& 1usize << (d as usize) == pow2(d)
        &&& forall|l: usize| l == pow2(h) ==> #[trigger] (l >> (d as usize)) == pow2((h - d) as nat)
        &&& forall|y: usize| #[trigger] (y >> 1usize) == y / 2
    }),
{
    let d = dep(i as int); let h = lev(n as int);
    lemma_tree(i as int, n as int);
    lemma_lg((i + 1) as nat); lemma_lg((n + 1) as nat);
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_mono(63, h);
    assert(pow2(h) <= n + 1 < 0x4000_0000_0000_0001);
    assert(h <= 62);
    lemma_npot(i + 2, d); lemma_npot(n + 2, h);
    lemma_pow2_mono(d, 62);
    lemma_pow2_pos(d);
    vstd::bits::lemma_usize_shl_is_mul(1usize, d as usize);
    assert forall|l: usize| l == pow2(h) implies #[trigger] (l >> (d as usize)) == pow2((h - d) as nat) by {
        vstd::bits::lemma_usize_shr_is_div(l, d as usize);
        lemma_pow2_adds(d, (h - d) as nat);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(pow2((h - d) as nat) as int, pow2(d) as int);
    }
    assert forall|y: usize| #[trigger] (y >> 1usize) == y / 2 by { assert(y >> 1usize == y / 2) by (bit_vector); }
}
//@ endproof
/// the elements of a, laid out
pub open spec fn laid_out<T>(a: Seq<T>) -> Seq<T> { Seq::new(a.len(), |j: int| a[rank(j, a.len() as int)]) }
pub open spec fn taken(o: int, k: int, n: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] rank(j, n) == o }
/// after k rounds: the first k positions are final; `map` links each displaced element's origin and place
pub open spec fn placing<T>(a: Seq<T>, s: Seq<T>, m: Map<usize, usize>, k: int) -> bool {
    let n = a.len() as int;
    &&& s.len() == n && 0 <= k <= n
    &&& forall|j: int| 0 <= j < k ==> s[j] == a[#[trigger] rank(j, n)]
    &&& forall|l: int| k <= l < n ==> #[trigger] at_place(a, s, m, k, l)
    &&& forall|o: int| 0 <= o < k && !#[trigger] taken(o, k, n) ==> m.contains_key(o as usize) && k <= m[o as usize] < n && m.contains_key(m[o as usize]) && m[m[o as usize]] == o
}
pub open spec fn at_place<T>(a: Seq<T>, s: Seq<T>, m: Map<usize, usize>, k: int, l: int) -> bool {
    let n = a.len() as int;
    let lu = l as usize;
    if m.contains_key(lu) {
        let o = m[lu];
        o < k && s[l] == a[o as int] && !taken(o as int, k, n) && m.contains_key(o) && m[o] == lu && taken(l, k, n)
    } else { s[l] == a[l] && !taken(l, k, n) }
}
/// one round, on the mathematical state: t the wanted origin, p its place, o the origin of what sat at k
pub open spec fn round<T>(s: Seq<T>, m: Map<usize, usize>, k: usize, t: usize) -> (Seq<T>, Map<usize, usize>) {
    let p = if t < k { m[t] } else { t };
    let m1 = if t < k { m.remove(t) } else { m };
    let o = if m1.contains_key(k) { m1[k] } else { k };
    let m2 = m1.remove(k);
    (s.update(k as int, s[p as int]).update(p as int, s[k as int]), if p != o { m2.insert(p, o).insert(o, p) } else { m2 })
}
//@ proof eytzinger-layout-round C03
pub proof fn lemma_taken_step(k: int, n: int)
    requires 0 <= k < n,
    ensures forall|o: int| #[trigger] taken(o, k + 1, n) == (taken(o, k, n) || o == rank(k, n)), !taken(rank(k, n), k, n), 0 <= rank(k, n) < n,
{
    lemma_tree(k, n);
    assert forall|o: int| #[trigger] taken(o, k + 1, n) == (taken(o, k, n) || o == rank(k, n)) by {
        if taken(o, k + 1, n) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] rank(j, n) == o; assert(rank(j, n) == o); }
        if taken(o, k, n) { let j = choose|j: int| 0 <= j < k && #[trigger] rank(j, n) == o; assert(rank(j, n) == o); }
    }
    if taken(rank(k, n), k, n) { let j = choose|j: int| 0 <= j < k && #[trigger] rank(j, n) == rank(k, n); lemma_rank_inj(j, k, n); }
}
pub proof fn lemma_round<T>(a: Seq<T>, s: Seq<T>, m: Map<usize, usize>, k: usize, t: usize)
    requires placing(a, s, m, k as int), k < a.len() <= usize::MAX, t == rank(k as int, a.len() as int),
    ensures t < k ==> m.contains_key(t), k <= (if t < k { m[t] } else { t }) < a.len(),
        placing(a, round(s, m, k, t).0, round(s, m, k, t).1, k + 1),
{
    let n = a.len() as int;
    lemma_taken_step(k as int, n);
    let p = if t < k { m[t] } else { t };
    assert(at_place(a, s, m, k as int, k as int));
    assert(!taken(t as int, k as int, n));
    assert(k <= p < n);
    assert(at_place(a, s, m, k as int, p as int));
    let s2 = round(s, m, k, t).0;
    let m2 = round(s, m, k, t).1;
    let m1 = if t < k { m.remove(t) } else { m };
    let o = if m1.contains_key(k) { m1[k] } else { k };
    assert(s[p as int] == a[t as int]);
    assert(s[k as int] == a[o as int]);
    assert forall|j: int| 0 <= j < k + 1 implies s2[j] == a[#[trigger] rank(j, n)] by { }
    assert forall|l: int| k + 1 <= l < n implies #[trigger] at_place(a, s2, m2, k + 1, l) by {
        assert(at_place(a, s, m, k as int, l));
    }
    assert forall|q: int| 0 <= q < k + 1 && !#[trigger] taken(q, k + 1, n) implies m2.contains_key(q as usize) && k + 1 <= m2[q as usize] < n && m2.contains_key(m2[q as usize]) && m2[m2[q as usize]] == q by {
        assert(!taken(q, k as int, n));
        if q < k { let l = m[q as usize]; assert(at_place(a, s, m, k as int, l as int)); }
    }
}
pub proof fn lemma_laid_out<T>(a: Seq<T>, s: Seq<T>, m: Map<usize, usize>)
    requires placing(a, s, m, a.len() as int),
    ensures s == laid_out(a),
{ assert(s =~= laid_out(a)); }
pub proof fn lemma_start<T>(a: Seq<T>, m: Map<usize, usize>)
    requires m == Map::<usize, usize>::empty(),
    ensures placing(a, a, m, 0),
{ }
//@ endproof
//@ fn eytzinger_layout::get_eytzinger_index
//@ props C03
    requires original_index < slice_len, slice_len < 0x4000_0000_0000_0000,
    ensures res == rank(original_index as int, slice_len as int),
//@ ghost start
        proof {
            lemma_tree(original_index as int, slice_len as int);
            lemma_index_steps(original_index, slice_len);
        }
//@ endfn
//@ fn eytzinger_layout
//@ props C03,C12
    requires old(sorted_entries)@.len() < 0x4000_0000_0000_0000,
    ensures final(sorted_entries)@ == laid_out(old(sorted_entries)@),
//@ ghost start
        let ghost a0 = sorted_entries@;
//@ ghost before_loop 0
        proof { lemma_start(a0, map@); }
//@ loop 0
        invariant a0.len() == sorted_entries@.len(), a0.len() < 0x4000_0000_0000_0000, placing(a0, sorted_entries@, map@, it0.index() as int), it0.seq().len() == a0.len(), forall|k: int| 0 <= k < it0.seq().len() ==> #[trigger] it0.seq()[k] == k,
//@ ghost loop_begin 0
            let ghost s0 = sorted_entries@;
            let ghost m0 = map@;
            proof { lemma_tree(i__ as int, a0.len() as int); lemma_round(a0, s0, m0, i__, rank(i__ as int, a0.len() as int) as usize); }
//@ ghost loop_end 0
            proof {
                assert(sorted_entries@ =~= round(s0, m0, i__, rank(i__ as int, a0.len() as int) as usize).0);
                assert(map@ =~= round(s0, m0, i__, rank(i__ as int, a0.len() as int) as usize).1);
            }
//@ ghost after_loop 0
        proof { lemma_laid_out(a0, sorted_entries@, map@); }
//@ endfn
/// a comparison closure computes c
pub open spec fn orders<'a, T: 'a, F: Fn(&'a T) -> Ordering>(f: F, c: spec_fn(T) -> Ordering) -> bool {
    forall|x: &'a T, r: Ordering| #[trigger] f.ensures((x,), r) ==> r == c(*x)
}
pub open spec fn ord_int(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
/// in rank order the elements go from before to after what is sought
pub open spec fn ordered<T>(d: Seq<T>, c: spec_fn(T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && #[trigger] rank(i, d.len() as int) < #[trigger] rank(j, d.len() as int) ==> ord_int(c(d[i])) <= ord_int(c(d[j]))
}
/// what is sought is below node i, if anywhere
pub open spec fn narrowed<T>(d: Seq<T>, c: spec_fn(T) -> Ordering, i: int) -> bool {
    let h = lev(d.len() as int);
    forall|j: int| 0 <= j < d.len() && c(#[trigger] d[j]) == Ordering::Equal ==> lo(i, h) < pos(j, h) < hi(i, h)
}
//@ proof eytzinger-search-step C03
pub proof fn lemma_root<T>(d: Seq<T>, c: spec_fn(T) -> Ordering)
    ensures narrowed(d, c, 0), dep(0) == 0,
{
    let h = lev(d.len() as int);
    lemma2_to64();
    lemma_pow2_unfold((h + 1) as nat);
    assert(col(0) == 0);
    assert(lo(0, h) == 0) by { assert(wid(0, h) * 0 == 0); }
    assert(hi(0, h) == 2 * pow2(h)) by { assert(wid(0, h) * (0 + 1) == wid(0, h)); }
    assert forall|j: int| 0 <= j < d.len() && c(#[trigger] d[j]) == Ordering::Equal implies lo(0, h) < pos(j, h) < hi(0, h) by { lemma_tree(j, d.len() as int); }
}
pub proof fn lemma_step<T>(d: Seq<T>, c: spec_fn(T) -> Ordering, i: int)
    requires 0 <= i < d.len(), ordered(d, c), narrowed(d, c, i), c(d[i]) != Ordering::Equal,
    ensures c(d[i]) == Ordering::Less ==> narrowed(d, c, 2 * i + 2), c(d[i]) == Ordering::Greater ==> narrowed(d, c, 2 * i + 1),
{
    let n = d.len() as int;
    let h = lev(n);
    lemma_tree(i, n);
    lemma_children(i, h);
    assert forall|j: int| 0 <= j < n && c(#[trigger] d[j]) == Ordering::Equal implies
        (c(d[i]) == Ordering::Less ==> pos(i, h) < pos(j, h)) && (c(d[i]) == Ordering::Greater ==> pos(j, h) < pos(i, h)) by {
        lemma_tree(j, n);
        if pos(j, h) < pos(i, h) { lemma_rank_mono(j, i, n); }
        if pos(i, h) < pos(j, h) { lemma_rank_mono(i, j, n); }
        if pos(i, h) == pos(j, h) { lemma_children(j, h); if dep(j) <= dep(i) { lemma_outside(j, i, h); } else { lemma_outside(i, j, h); } }
    }
}
pub proof fn lemma_absent<T>(d: Seq<T>, c: spec_fn(T) -> Ordering, i: int)
    requires d.len() <= i, narrowed(d, c, i), dep(i) <= lev(d.len() as int) + 1,
    ensures forall|j: int| 0 <= j < d.len() ==> c(#[trigger] d[j]) != Ordering::Equal,
{
    assert forall|j: int| 0 <= j < d.len() implies c(#[trigger] d[j]) != Ordering::Equal by {
        if c(d[j]) == Ordering::Equal { lemma_leaf(i, j, d.len() as int); }
    }
}
//@ endproof
//@ fn eytzinger_search_by
//@ props C03,C06
//@ rewrite order as usize =>> crate::prelude::v_ordering_as_usize(order)
    requires data@.len() < 0x4000_0000_0000_0000, forall|x: &T| #[trigger] f.requires((x,)),
    ensures res is Some ==> res->Some_0 < data@.len(),
        forall|c: spec_fn(T) -> Ordering| #![trigger orders(f, c)] #![trigger ordered(data@, c)] orders(f, c) && ordered(data@, c) ==> match res {
            Some(i) => c(data@[i as int]) == Ordering::Equal,
            None => forall|j: int| 0 <= j < data@.len() ==> c(#[trigger] data@[j]) != Ordering::Equal,
        },
//@ ghost before_loop 0
        proof {
            axiom_ordering_eq();
            assert forall|c: spec_fn(T) -> Ordering| #[trigger] orders(f, c) && ordered(data@, c) implies narrowed(data@, c, 0) by { lemma_root(data@, c); }
            lemma_root(data@, |x: T| Ordering::Less);
        }
//@ loop 0
        invariant data@.len() < 0x4000_0000_0000_0000, forall|x: &T| #[trigger] f.requires((x,)), dep(i as int) <= lev(data@.len() as int) + 1,
            forall|c: spec_fn(T) -> Ordering| #[trigger] orders(f, c) && ordered(data@, c) ==> narrowed(data@, c, i as int),
            <Ordering as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
            forall|a: Ordering, b: Ordering| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b),
        decreases 0x8000_0000_0000_0000 - i,
//@ ghost loop_begin 0
            proof {
                if i < data@.len() { lemma_tree(i as int, data@.len() as int); lemma_children(i as int, lev(data@.len() as int)); }
                assert forall|c: spec_fn(T) -> Ordering| #[trigger] orders(f, c) && ordered(data@, c) implies split(data@, c, i as int) by {
                    if i < data@.len() { if c(data@[i as int]) != Ordering::Equal { lemma_step(data@, c, i as int); } } else { lemma_absent(data@, c, i as int); }
                }
                assert((usize::MAX >> 1) & 1 == 1 && (1usize >> 1) & 1 == 0 && (0usize >> 1) & 1 == 0) by (bit_vector);
            }
//@ endfn
pub open spec fn split<T>(d: Seq<T>, c: spec_fn(T) -> Ordering, i: int) -> bool {
    if i < d.len() {
        (c(d[i]) == Ordering::Less ==> narrowed(d, c, 2 * i + 2)) && (c(d[i]) == Ordering::Greater ==> narrowed(d, c, 2 * i + 1))
    } else { forall|j: int| 0 <= j < d.len() ==> c(#[trigger] d[j]) != Ordering::Equal }
}
}
