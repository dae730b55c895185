//! Key types, hashers and input generators.
use crate::cx::Rng;
use frozen_collections::{Hasher, Scalar};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher as StdHasher};
use std::num::*;

/// Deterministic and lawful, but adversarial, 64-bit mixing.
pub fn mix(mode: u8, x: u64) -> u64 {
    match mode {
        0 => 0,
        1 => u64::MAX,
        2 => x,
        3 => x << 32,
        4 => x & 1,
        5 => x % 3,
        6 => Rng(x).next(),
        7 => x.wrapping_mul(256),
        8 => !x,
        9 => x.rotate_left(63),
        10 => Rng(x).next() & 0xff,
        11 => Rng(x).next() << 8,
        12 => 0x8000_0000_0000_0000 | (x % 7),
        13 => Rng(x).next() | 0xff,
        _ => Rng(x / 4).next(),
    }
}
pub const MODES: u8 = 15;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct H(pub u8);
macro_rules! h_int { ($($t:ty),*) => { $(impl Hasher<$t> for H { fn hash_one(&self, v: &$t) -> u64 { mix(self.0, *v as u64) } })* } }
h_int!(u8, u16, u32, u64, i64, i32);
impl Hasher<Dk> for H {
    fn hash_one(&self, v: &Dk) -> u64 {
        mix(self.0, u64::from(v.id))
    }
}

#[derive(Clone, Debug, Default)]
pub struct Bh<const M: u8>;
#[derive(Clone, Debug, Default)]
pub struct BhS<const M: u8>(u64);
impl<const M: u8> BuildHasher for Bh<M> {
    type Hasher = BhS<M>;
    fn build_hasher(&self) -> BhS<M> {
        BhS(0xcbf2_9ce4_8422_2325)
    }
}
impl<const M: u8> StdHasher for BhS<M> {
    fn finish(&self) -> u64 {
        mix(M, self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
        }
    }
}

/// A key whose equality (and order and hash) ignores `tag`.
#[derive(Clone, Debug)]
pub struct Dk {
    pub id: u32,
    pub tag: u32,
}
impl PartialEq for Dk {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Dk {}
impl PartialOrd for Dk {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Dk {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl Hash for Dk {
    fn hash<X: StdHasher>(&self, s: &mut X) {
        self.id.hash(s);
    }
}

/// A borrowed form of `String` keys, ordered and hashed like the string.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ref<'a>(pub &'a str);
impl Hash for Ref<'_> {
    fn hash<X: StdHasher>(&self, s: &mut X) {
        self.0.hash(s);
    }
}
impl equivalent::Equivalent<String> for Ref<'_> {
    fn equivalent(&self, k: &String) -> bool {
        self.0 == k
    }
}
impl equivalent::Comparable<String> for Ref<'_> {
    fn compare(&self, k: &String) -> std::cmp::Ordering {
        self.0.cmp(k.as_str())
    }
}

/// Integer-like keys of every scalar type, reachable from i128.
pub trait Sc: Scalar + Debug + Hash + 'static {
    const NAME: &'static str;
    const LO: i128;
    const HI: i128;
    fn mk(x: i128) -> Option<Self>;
    fn val(self) -> i128;
}
macro_rules! sc_int { ($($t:ident),*) => { $(impl Sc for $t {
    const NAME: &'static str = stringify!($t);
    const LO: i128 = <$t>::MIN as i128;
    const HI: i128 = <$t>::MAX as i128;
    fn mk(x: i128) -> Option<Self> { <$t>::try_from(x).ok() }
    fn val(self) -> i128 { self as i128 }
})* } }
macro_rules! sc_nz { ($($t:ident: $b:ident),*) => { $(impl Sc for $t {
    const NAME: &'static str = stringify!($t);
    const LO: i128 = <$t>::MIN.get() as i128;
    const HI: i128 = <$t>::MAX.get() as i128;
    fn mk(x: i128) -> Option<Self> { <$t>::new(<$b>::try_from(x).ok()?) }
    fn val(self) -> i128 { self.get() as i128 }
})* } }
sc_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
sc_nz!(NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroUsize: usize, NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroIsize: isize);

#[macro_export]
macro_rules! each_scalar {
    ($f:ident ( $($a:expr),* )) => {
        $f::<u8>($($a),*); $f::<u16>($($a),*); $f::<u32>($($a),*); $f::<u64>($($a),*); $f::<usize>($($a),*);
        $f::<i8>($($a),*); $f::<i16>($($a),*); $f::<i32>($($a),*); $f::<i64>($($a),*); $f::<isize>($($a),*);
        $f::<std::num::NonZeroU8>($($a),*); $f::<std::num::NonZeroU16>($($a),*); $f::<std::num::NonZeroU32>($($a),*);
        $f::<std::num::NonZeroU64>($($a),*); $f::<std::num::NonZeroUsize>($($a),*); $f::<std::num::NonZeroI8>($($a),*);
        $f::<std::num::NonZeroI16>($($a),*); $f::<std::num::NonZeroI32>($($a),*); $f::<std::num::NonZeroI64>($($a),*);
        $f::<std::num::NonZeroIsize>($($a),*);
    };
}

#[allow(dead_code)]
#[derive(frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum One {
    A,
}
#[derive(frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum En {
    Z, Y, X, W, V, U, T, S, R, Q, P, O, N, M, L, K, J, I, Hh, G, F, E, D, C, B, A, A1, A2, A3, A4, A5, A6, A7,
}
#[derive(frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(i8)]
pub enum Er {
    A, B, C, D,
}
include!(concat!(env!("OUT_DIR"), "/big.rs"));
impl En {
    pub const ALL: [Self; 33] = {
        use En::*;
        [Z, Y, X, W, V, U, T, S, R, Q, P, O, N, M, L, K, J, I, Hh, G, F, E, D, C, B, A, A1, A2, A3, A4, A5, A6, A7]
    };
}
impl Sc for En {
    const NAME: &'static str = "En";
    const LO: i128 = 0;
    const HI: i128 = 32;
    fn mk(x: i128) -> Option<Self> {
        Self::ALL.get(usize::try_from(x).ok()?).copied()
    }
    fn val(self) -> i128 {
        Self::ALL.iter().position(|e| *e == self).unwrap() as i128
    }
}

/// Abstract keys with duplicates.
pub fn gen_keys(r: &mut Rng, n: u64) -> Vec<u64> {
    let style = r.below(8);
    let base = *r.pick(&[0, 1, 100, u64::MAX - 5000, 1 << 32, 0x8000_0000_0000_0000 - 50]);
    (0..n)
        .map(|i| match style {
            0 => i,
            1 => r.next(),
            2 => r.below(n / 2 + 1),
            3 => base.wrapping_add(i * 3),
            4 => base.wrapping_add(r.below(2 * n + 1)),
            5 => i << 20,
            6 => r.below(4),
            _ => base.wrapping_sub(i * i),
        })
        .collect()
}

/// Pairs each key with the index of its occurrence, so values tell occurrences apart.
pub fn tagged<K: Clone>(ks: &[K]) -> Vec<(K, u32)> {
    ks.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect()
}

pub fn near(ks: &[u64], r: &mut Rng) -> Vec<u64> {
    let mut p = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63];
    for k in ks.iter().take(400) {
        p.push(k.wrapping_add(1));
        p.push(k.wrapping_sub(1));
        p.push(k.wrapping_add(1 << r.below(64)));
        p.push(k.rotate_left(32));
    }
    for _ in 0..16 {
        p.push(r.next());
    }
    p
}

pub fn gen_scalars<T: Sc>(r: &mut Rng, n: u64) -> Vec<T> {
    let span = T::HI - T::LO;
    let style = r.below(12);
    let anchor = match r.below(5) {
        0 => T::LO,
        1 => T::HI - i128::from(n),
        2 => -i128::from(n / 2),
        3 => T::LO + (i128::from(r.next()) % (span + 1)),
        _ => 0,
    };
    let mut v: Vec<i128> = Vec::new();
    for i in 0..n {
        let i = i128::from(i);
        v.push(match style {
            0 | 1 => anchor + i,
            2 => anchor + i * 2,
            3 => anchor + i * i128::from(r.range(1, 12)),
            4 => T::LO + (i128::from(r.next()) % (span + 1)),
            5 => anchor + i * 10,
            6 => anchor + i128::from(r.below(130)),
            7 => if i % 2 == 0 { T::LO + i } else { T::HI - i },
            8 => anchor + i + if i * 2 > i128::from(n) { 1 } else { 0 },
            9 => anchor + i * 9,
            10 => anchor + if i + 1 == i128::from(n) { i128::from(r.range(120, 136)) } else { i },
            _ => anchor + if i + 1 == i128::from(n) { i128::from(10 * n).saturating_sub(3) + i128::from(r.below(6)) } else { i },
        });
    }
    if r.below(3) == 0 && !v.is_empty() {
        let k = *r.pick(&v);
        v.push(k);
    }
    if r.below(2) == 0 {
        r.shuffle(&mut v);
    }
    v.into_iter().filter_map(|x| T::mk(x.clamp(T::LO, T::HI))).collect()
}

pub fn near_scalars<T: Sc>(ks: &[T], r: &mut Rng) -> Vec<T> {
    let mut p: Vec<i128> = vec![T::LO, T::HI, T::LO + 1, T::HI - 1, 0, 1, -1, 127, 128, 255, 256];
    for k in ks.iter().take(300) {
        let v = k.val();
        p.extend([v + 1, v - 1, v + 2, v - 2, v + 64, v + 256, v - 256, v + (1 << 32), v - (1 << 32)]);
    }
    for _ in 0..16 {
        p.push(T::LO + i128::from(r.next()) % (T::HI - T::LO + 1));
    }
    p.into_iter().filter_map(T::mk).collect()
}

const ALPH: &[&str] = &["a", "b", "c", "d", "z", "0", "é", "日", "\u{1F600}", " ", "\n", "\"", "A"];
pub fn word(r: &mut Rng, n: u64, ascii: bool) -> String {
    (0..n).map(|_| if ascii { *r.pick(&ALPH[..6]) } else { *r.pick(ALPH) }).collect()
}

/// String key lists of many shapes, so that every hashing strategy is selected by some.
pub fn gen_strings(r: &mut Rng, n: u64) -> Vec<String> {
    let style = r.below(12);
    let pre = { let l = r.below(6); word(r, l, true) };
    let suf = { let l = r.below(6); word(r, l, true) };
    let mut v: Vec<String> = (0..n)
        .map(|i| match style {
            0 => format!("{pre}{i}"),
            1 => format!("{pre}{i:04}{suf}"),
            2 => format!("{}{pre}", word(r, 3, true)),
            3 => { let l = r.below(8); word(r, l, false) }
            4 => "x".repeat(i as usize),
            5 => format!("{i:03}{}", "y".repeat(r.below(5) as usize)),
            6 => format!("{}{i:03}", "y".repeat(r.below(5) as usize)),
            7 => format!("{}{}{}", word(r, 2, true), i % 3, word(r, 2, true)),
            8 => { let l = r.below(3); word(r, l, true) }
            9 => format!("{pre}é{i}日"),
            10 => format!("{}{}", word(r, 20, true), i),
            _ => { let l = r.range(1, 12); word(r, l, true) }
        })
        .collect();
    if r.below(4) == 0 {
        v.push(String::new());
    }
    if r.below(3) == 0 && !v.is_empty() {
        let k = r.pick(&v).clone();
        v.push(k);
    }
    r.shuffle(&mut v);
    v
}

/// Queries that differ from the keys in every single position, in length, and in between.
pub fn near_strings(ks: &[String], r: &mut Rng) -> Vec<String> {
    let mut p = vec![String::new(), "a".into(), "é".into(), "日本".into(), "\u{10FFFF}".into(), "x".repeat(300)];
    for k in ks.iter().take(60) {
        let ch: Vec<char> = k.chars().collect();
        for i in 0..ch.len().min(24) {
            let mut c = ch.clone();
            c[i] = if c[i] == 'q' { 'r' } else { 'q' };
            p.push(c.iter().collect());
            p.push(ch[..i].iter().collect());
            p.push(ch[i..].iter().collect());
            let mut c = ch.clone();
            c.remove(i);
            p.push(c.iter().collect());
        }
        p.push(format!("{k}x"));
        p.push(format!("x{k}"));
        p.push(format!("{k}{k}"));
        p.push(format!("{k}é"));
        p.push(k.to_uppercase());
    }
    for _ in 0..20 {
        let l = r.below(15);
        p.push(word(r, l, false));
    }
    p
}
