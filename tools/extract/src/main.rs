//! Extracts functions from the macro-expanded crate, applies the documented mechanical rewrites,
//! weaves in the contracts of specs/*.vs and prints one Verus crate.
mod print;
mod rewrite;
mod source;
mod spec;

use std::collections::BTreeSet;

fn main() {
    let mut expanded = String::new();
    let mut specs = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--expanded" => expanded = v(),
            "--specs" => specs = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--stub" => {
                for s in v().split('|').filter(|s| !s.is_empty()) {
                    _ = stubs.insert(s.to_string());
                }
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let text = std::fs::read_to_string(&expanded).expect("expanded source");
    let src = source::Source::parse(&text);
    let files = spec::load_dir(&specs);
    let mut em = spec::Emitter::new(&src, stubs);
    for (name, body) in &files {
        em.file(name, body);
    }
    std::fs::write(&out, &em.out).expect("write out");
    std::fs::write(&map, serde_json::to_string_pretty(&em.map_json()).unwrap()).expect("write map");
}
