//! Runs the real code generator on many entry lists and writes what it emits into the harness.
use frozen_collections_core::emit::{CollectionEmitter, CollectionEntry};
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() { let j = self.below(i as u64 + 1) as usize; s.swap(i, j); }
    }
}

struct Out { text: String, n: usize }

fn emit_all<K: Clone + 'static>(
    o: &mut Out, kind: &str, ty: &str, ks: &[K], lit: &dyn Fn(&K) -> String, probes: &[String], full: bool,
    emit: &dyn Fn(CollectionEmitter, Vec<CollectionEntry<K>>) -> Result<proc_macro2::TokenStream, String>,
) {
    for set in [false, true] {
        let id = o.n;
        o.n += 1;
        let form = id % 3;
        let kt: syn::Type = syn::parse_str(ty).unwrap();
        let mut e = CollectionEmitter::new(&kt);
        if !set { e = e.value_type(&syn::parse_str("u32").unwrap()); }
        e = e.const_keys(true).const_values(true);
        match form {
            1 => e = e.static_instance(true).symbol_name("SYM").alias_name("Ty"),
            2 => e = e.symbol_name("sym"),
            _ => {}
        }
        let entries: Vec<CollectionEntry<K>> = ks.iter().enumerate().map(|(i, k)| {
            let ke: syn::Expr = syn::parse_str(&lit(k)).unwrap();
            if set { CollectionEntry::set_entry(k.clone(), ke) } else { CollectionEntry::map_entry(k.clone(), ke, syn::parse_str(&format!("{i}")).unwrap()) }
        }).collect();
        let r = catch_unwind(AssertUnwindSafe(|| emit(e, entries)));
        let name = format!("{kind}<{ty}>{} of {} keys #{id}", if set { " set" } else { "" }, ks.len());
        let src: Vec<String> = ks.iter().enumerate().map(|(i, k)| if set { lit(k) } else { format!("({}, {i})", lit(k)) }).collect();
        let item = if set { ty.to_string() } else { format!("({ty}, u32)") };
        let code = match r {
            Ok(Ok(t)) => match form {
                1 => format!("{t} let m = SYM.clone();"),
                2 => format!("{t} let m = sym;"),
                _ => format!("let m = {t};"),
            },
            Ok(Err(m)) => { writeln!(o.text, "pub fn e{id}<V: crate::em::Visit>(v: &mut V) {{ v.broken({name:?}, {m:?}); }}").unwrap(); continue; }
            Err(_) => { writeln!(o.text, "pub fn e{id}<V: crate::em::Visit>(v: &mut V) {{ v.broken({name:?}, \"the generator panicked\"); }}").unwrap(); continue; }
        };
        let f = match (set, full) { (false, true) => "full", (false, false) => "map", (true, true) => "full_set", (true, false) => "set" };
        writeln!(o.text, "pub fn e{id}<V: crate::em::Visit>(v: &mut V) {{ let src: &[{item}] = &[{}]; let probes: &[{ty}] = &[{}]; if v.skip() {{ return; }} {code} v.{f}({name:?}, m, src, probes); }}", src.join(", "), probes.join(", ")).unwrap();
    }
}

fn macro_case(o: &mut Out, kind: &str, ty: &str, ks: &[String], probes: &[String]) {
    for set in [false, true] {
        let id = o.n;
        o.n += 1;
        let name = format!("fz_{kind}_{}! <{ty}> of {} keys #{id}", if set { "set" } else { "map" }, ks.len());
        let body: Vec<String> = ks.iter().enumerate().map(|(i, k)| if set { k.clone() } else { format!("{k}: {i}u32") }).collect();
        let src: Vec<String> = ks.iter().enumerate().map(|(i, k)| if set { k.clone() } else { format!("({k}, {i})") }).collect();
        let item = if set { ty.to_string() } else { format!("({ty}, u32)") };
        let m = if set { "set" } else { "map" };
        let gen_ = if set { ty.to_string() } else { format!("{ty}, u32") };
        let code = match id % 4 {
            0 | 1 if !ks.is_empty() => format!("let m = frozen_collections::fz_{kind}_{m}!({{ {} }});", body.join(", ")),
            2 if id / 4 % 2 == 1 => format!("mod inner {{ #[allow(unused_imports)] use super::*; frozen_collections::fz_{kind}_{m}!(pub static SYM: Ty<{gen_}>, {{ {} }}); }} let m: inner::Ty = inner::SYM.clone();", body.join(", ")),
            3 if id / 4 % 2 == 1 => format!("frozen_collections::fz_{kind}_{m}!(let mut sym: Ty<{gen_}>, {{ {} }}); sym = sym.clone(); let m = sym;", body.join(", ")),
            2 => format!("frozen_collections::fz_{kind}_{m}!(static SYM: Ty<{gen_}>, {{ {} }}); let m = SYM.clone();", body.join(", ")),
            _ => format!("frozen_collections::fz_{kind}_{m}!(let sym: Ty<{gen_}>, {{ {} }}); let m = sym;", body.join(", ")),
        };
        let f = if set { "set" } else { "map" };
        writeln!(o.text, "pub fn e{id}<V: crate::em::Visit>(v: &mut V) {{ let src: &[{item}] = &[{}]; let probes: &[{ty}] = &[{}]; if v.skip() {{ return; }} {code} v.{f}({name:?}, m, src, probes); }}", src.join(", "), probes.join(", ")).unwrap();
    }
}

fn scalar_lists(r: &mut Rng, lo: i128, hi: i128) -> Vec<Vec<i128>> {
    let mut v: Vec<Vec<i128>> = vec![
        vec![], vec![lo], vec![hi], vec![lo, hi], vec![lo, lo + 1, lo + 2, lo + 3], vec![hi - 2, hi - 1, hi],
        vec![1, 2, 3, 5], vec![1, 3, 5, 7, 9, 11, 13, 100], vec![5, 4, 3, 2, 1, 5, 3],
        (0..20).map(|i| i * 3).collect(), (0..12).map(|i| i * 10 % 120).collect(),
    ];
    if hi > 70000 {
        v.push((0..9).map(|i| i * 1_000_003 % 70_001 + 3).collect());
        v.push((0..40).map(|i| i * 9).collect());
        v.push((0..30).map(|i| i * 11).collect());
        v.push((0..40).map(|i| lo + i * 997).collect());
        let mut x: Vec<i128> = (0..60).map(|_| lo + i128::from(r.next()) % (hi - lo + 1)).collect();
        x.push(lo);
        x.push(hi);
        v.push(x);
        v.push((0..300).map(|i| i * 7 % 1999 * 1001).collect());
        v.push((0..256).map(|i| i * 2).collect());
    } else {
        v.push((lo..=hi).step_by(if hi - lo > 300 { 4099 } else { 1 }).collect());
        v.push((0..13).map(|i| i * 7).chain([100]).collect());
    }
    for x in &mut v { r.shuffle(x); }
    v
}

macro_rules! scalars {
    ($o:expr, $r:expr, $seed:expr, $($t:ident),*) => { $( {
        for (i, l) in scalar_lists($r, <$t>::MIN as i128, <$t>::MAX as i128).into_iter().enumerate() {
            let ks: Vec<$t> = l.iter().filter_map(|x| <$t>::try_from(*x).ok()).collect();
            let mut p: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 2];
            for k in ks.iter().take(80) { p.extend([k.wrapping_add(1), k.wrapping_sub(1), k.wrapping_add(64)]); }
            let lit = |k: &$t| format!("{k}{}", stringify!($t));
            let probes: Vec<String> = p.iter().map(lit).collect();
            let full = (i + $seed) % 6 == 0 && ks.len() < 64;
            emit_all($o, "emit_scalar", stringify!($t), &ks, &lit, &probes, full, &|e, v| e.emit_scalar_collection(v));
            if i % 3 == 0 {
                emit_all($o, "emit_ordered", stringify!($t), &ks, &lit, &probes, full, &|e, v| e.emit_ordered_collection(v));
            }
            if i % 3 == 1 {
                emit_all($o, "emit_hash", stringify!($t), &ks, &lit, &probes, full, &|e, v| e.emit_hash_collection(v));
            }
            if i % 4 == 2 {
                let mut seen = std::collections::HashSet::new();
                let neg = ks.iter().any(|k| *k < 0 as $t);
                let ls: Vec<String> = ks.iter().filter(|k| !neg || seen.insert(**k)).map(lit).collect();
                let kind = ["scalar", "hash", "ordered"][i % 3];
                macro_case($o, kind, stringify!($t), &ls, &probes);
            }
        }
    } )* }
}

fn string_lists(r: &mut Rng) -> Vec<Vec<String>> {
    let w = |v: &[&str]| v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let mut v = vec![
        w(&[]), w(&["a"]), w(&["", "b"]), w(&["x", "y", "x"]), w(&["Red", "Green", "Blue", "Black"]),
        w(&["", "a", "aa", "aaa", "aaaa"]), w(&["a", "bb", "ccc", "dddd", "eeeee", "ffffff"]),
        w(&["aéx", "béy", "céz", "dé日", "é", "日"]), w(&["Ax", "Bx", "Cx", "Dx", "Ex", "Ax"]),
        w(&["xA", "xB", "xC", "xD", "xxE"]), w(&["q\"uote", "new\nline", "tab\t", "nul\0", "back\\slash"]),
    ];
    v.push((0..20).map(|i| format!("key{i:02}")).collect());
    v.push((0..20).map(|i| format!("{i:02}key")).collect());
    v.push((0..20).map(|i| format!("pre{i:02}post")).collect());
    v.push((0..40).map(|i| format!("{}{}", "z".repeat(i % 7), i)).collect());
    v.push((0..40).map(|i| format!("{}{}", i, "z".repeat(i % 7))).collect());
    v.push((0..30).map(|_| format!("{:x}", r.next())).collect());
    v.push((0..25).map(|i| "m".repeat(i)).collect());
    v.push((0..300).map(|i| format!("k{}", i * 7919 % 100_003)).collect());
    v.push((0..16).map(|i| format!("same{}len", (b'a' + i as u8) as char)).chain(["short".to_string()]).collect());
    v.push((0..8).map(|i| format!("{}common-tail", i)).chain((0..8).map(|i| format!("{}x-common-tail", i))).collect());
    for x in &mut v { r.shuffle(x); }
    v
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=CONST_RANDOM_SEED");
    println!("cargo:rerun-if-env-changed=FC_LIST_SEED");
    println!("cargo:rerun-if-env-changed=FC_PROP");
    // FC_PROP selects the one property whose explorer is compiled in (the rest is never instantiated).
    let prop = std::env::var("FC_PROP").unwrap_or_else(|_| "all".into());
    for i in 1..=18 {
        println!("cargo:rustc-check-cfg=cfg(only_C{i:02})");
    }
    println!("cargo:rustc-check-cfg=cfg(only_all)");
    println!("cargo:rustc-cfg=only_{prop}");
    let emits = ["all", "C06", "C07", "C08", "C11", "C12", "C14", "C16", "C17", "C18"].contains(&prop.as_str());
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = std::env::var("FC_LIST_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut o = Out { text: String::new(), n: 0 };
    let mut r = Rng(seed);
    let s = seed as usize;
    if emits && std::env::var("CARGO_FEATURE_EMITTED").is_ok() {
        scalars!(&mut o, &mut r, s, u8, i8, u16, i32, u64, i64);
        for (i, ks) in string_lists(&mut r).into_iter().enumerate() {
            let lit = |k: &String| format!("{k:?}");
            let mut p: Vec<String> = vec![String::new(), "zzz".into(), "é".into(), "日本語".into()];
            for k in ks.iter().take(40) {
                let c: Vec<char> = k.chars().collect();
                for j in 0..c.len().min(8) {
                    let mut d = c.clone();
                    d[j] = '~';
                    p.push(d.iter().collect());
                    p.push(c[..j].iter().collect());
                    p.push(c[j..].iter().collect());
                }
                p.push(format!("{k}x"));
                p.push(format!("x{k}"));
            }
            let probes: Vec<String> = p.iter().map(lit).collect();
            let full = (i + s) % 5 == 0 && ks.len() < 64;
            emit_all(&mut o, "emit_string", "&'static str", &ks, &lit, &probes, full, &|e, v| e.emit_string_collection(v));
            if i % 3 == 0 {
                emit_all(&mut o, "emit_ordered", "&'static str", &ks, &lit, &probes, full, &|e, v| e.emit_ordered_collection(v));
            }
            if i % 3 == 1 {
                emit_all(&mut o, "emit_hash", "&'static str", &ks, &lit, &probes, full, &|e, v| e.emit_hash_collection(v));
            }
            if i % 2 == 0 && !ks.is_empty() {
                let ls: Vec<String> = ks.iter().map(lit).collect();
                macro_case(&mut o, ["string", "hash", "ordered"][i / 2 % 3], "&'static str", &ls, &probes);
            }
        }
    }
    // macros over literals of every integer type, in every form and notation
    if prop == "all" || prop == "C12" {
        for (ti, (ty, hi)) in [("u8", 255u64), ("i8", 127), ("u16", 65_535), ("i16", 32_767), ("u32", u32::MAX.into()), ("i32", i32::MAX as u64), ("u64", u64::MAX), ("i64", i64::MAX as u64), ("usize", u64::MAX), ("isize", i64::MAX as u64)].into_iter().enumerate() {
            let lists: [Vec<u64>; 3] = [vec![3, 1, 2, 4, 3, 5], vec![100, 3, 7, hi.min(110), 3, 60], vec![hi, 0, 1, hi - 1, 17, hi, 90, 90]];
            for (li, l) in lists.iter().enumerate() {
                let lit = |(i, k): (usize, &u64)| match (i + ti + li) % 4 {
                    0 => format!("{k:#x}_{ty}"),
                    1 if *k > 9 => { let s = k.to_string(); format!("{}_{}{ty}", &s[..1], &s[1..]) }
                    2 if i > 0 => format!("{k}"),
                    _ => format!("{k}{ty}"),
                };
                let ls: Vec<String> = l.iter().enumerate().map(lit).collect();
                let mut p: Vec<String> = l.iter().flat_map(|k| [k ^ 1, k.wrapping_sub(1) & hi, k / 2]).map(|k| format!("{k}{ty}")).collect();
                p.sort();
                p.dedup();
                macro_case(&mut o, ["scalar", "hash", "ordered"][(ti + li) % 3], ty, &ls, &p);
            }
        }
    }
    write!(o.text, "pub fn all<V: crate::em::Visit>(v: &mut V) {{").unwrap();
    for i in 0..o.n { write!(o.text, " e{i}(v);").unwrap(); }
    writeln!(o.text, " }}").unwrap();
    let vs: Vec<String> = (0..1027).map(|i| format!("V{}", i * 7919 % 1027)).collect();
    let big = format!("#[allow(dead_code)]\n#[derive(frozen_collections::Scalar, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Big {{ {0} }}\nimpl Big {{ pub const ALL: [Self; {1}] = [{2}]; }}", vs.join(", "), vs.len(), vs.iter().map(|v| format!("Self::{v}")).collect::<Vec<_>>().join(", "));
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("big.rs"), big).unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("emitted.rs"), o.text).unwrap();
}
