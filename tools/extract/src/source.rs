use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::BTreeMap;

/// One function found in the expanded crate.
#[derive(Clone)]
pub struct Func {
    /// normalised tokens of the source text (for fingerprints)
    pub fingerprint: String,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    /// impl generics / self type / trait, when the function sits in an impl
    pub imp: Option<Impl>,
    pub in_trait: bool,
}

#[derive(Clone)]
pub struct Impl {
    pub generics: syn::Generics,
    pub self_ty: syn::Type,
    pub trait_: Option<syn::Path>,
    pub consts: Vec<syn::ImplItemConst>,
    pub types: Vec<syn::ImplItemType>,
}

pub struct Source {
    pub funcs: BTreeMap<String, Vec<Func>>,
    pub types: BTreeMap<String, syn::Item>,
    pub impls: BTreeMap<String, Impl>,
}

pub fn norm(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn self_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => {
            let inner = self_name(&r.elem);
            if r.mutability.is_some() { format!("&mut {inner}") } else { format!("&{inner}") }
        }
        other => norm(other),
    }
}

pub struct StripAttrs;
impl syn::visit_mut::VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

impl Source {
    pub fn parse(text: &str) -> Self {
        let mut file: syn::File = syn::parse_file(text).expect("expanded crate parses");
        syn::visit_mut::VisitMut::visit_file_mut(&mut StripAttrs, &mut file);
        let mut s = Source { funcs: BTreeMap::new(), types: BTreeMap::new(), impls: BTreeMap::new() };
        s.items("", &file.items);
        s
    }

    fn add(&mut self, key: String, f: Func) {
        // nested functions
        if let Some(b) = &f.block {
            for st in &b.stmts {
                if let syn::Stmt::Item(syn::Item::Fn(n)) = st {
                    let k = format!("{key}::{}", n.sig.ident);
                    self.add(
                        k,
                        Func {
                            fingerprint: norm(n),
                            sig: n.sig.clone(),
                            block: Some((*n.block).clone()),
                            imp: None,
                            in_trait: false,
                        },
                    );
                }
            }
        }
        self.funcs.entry(key).or_default().push(f);
    }

    fn items(&mut self, prefix: &str, items: &[syn::Item]) {
        let join = |n: &str| if prefix.is_empty() { n.to_string() } else { format!("{prefix}::{n}") };
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        self.items(&join(&m.ident.to_string()), its);
                    }
                }
                syn::Item::Fn(f) => self.add(
                    join(&f.sig.ident.to_string()),
                    Func {
                        fingerprint: norm(f),
                        sig: f.sig.clone(),
                        block: Some((*f.block).clone()),
                        imp: None,
                        in_trait: false,
                    },
                ),
                syn::Item::Struct(x) => _ = self.types.insert(join(&x.ident.to_string()), it.clone()),
                syn::Item::Enum(x) => _ = self.types.insert(join(&x.ident.to_string()), it.clone()),
                syn::Item::Type(x) => _ = self.types.insert(join(&x.ident.to_string()), it.clone()),
                syn::Item::Const(x) => _ = self.types.insert(join(&x.ident.to_string()), it.clone()),
                syn::Item::Trait(t) => {
                    _ = self.types.insert(join(&t.ident.to_string()), it.clone());
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            self.add(
                                join(&format!("trait {}::{}", t.ident, f.sig.ident)),
                                Func {
                                    fingerprint: norm(f),
                                    sig: f.sig.clone(),
                                    block: f.default.clone(),
                                    imp: None,
                                    in_trait: true,
                                },
                            );
                        }
                    }
                }
                syn::Item::Impl(i) => {
                    let sn = self_name(&i.self_ty);
                    let (short, long) = match &i.trait_ {
                        None => (sn.clone(), None),
                        Some((_, p, _)) => {
                            let last = p.segments.last().unwrap();
                            let mut l = last.clone();
                            if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments {
                                a.colon2_token = None;
                            }
                            (format!("{sn}@{}", last.ident), Some(format!("{sn}@{}", norm(&l))))
                        }
                    };
                    let imp = Impl {
                        generics: i.generics.clone(),
                        self_ty: (*i.self_ty).clone(),
                        trait_: i.trait_.as_ref().map(|x| x.1.clone()),
                        consts: i.items.iter().filter_map(|x| if let syn::ImplItem::Const(c) = x { Some(c.clone()) } else { None }).collect(),
                        types: i.items.iter().filter_map(|x| if let syn::ImplItem::Type(c) = x { Some(c.clone()) } else { None }).collect(),
                    };
                    // a foreign type is also known by the crate it comes from: `std.HashMap@MapQuery`
                    let dotted = match (&*i.self_ty, &i.trait_) {
                        (syn::Type::Path(p), Some(_)) if p.path.segments.len() > 1 => {
                            let root = p.path.segments[0].ident.to_string();
                            let root = if root == "alloc" || root == "core" { "std".to_string() } else { root };
                            Some(format!("{root}.{short}"))
                        }
                        _ => None,
                    };
                    for k in [Some(short.clone()), long.clone(), dotted.clone()].into_iter().flatten() {
                        _ = self.impls.insert(join(&k), imp.clone());
                    }
                    for ii in &i.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let mut keys = vec![short.clone()];
                            if let Some(l) = &long {
                                if *l != short {
                                    keys.push(l.clone());
                                }
                            }
                            keys.extend(dotted.clone());
                            for k in keys {
                                self.add(
                                    join(&format!("{k}::{}", f.sig.ident)),
                                    Func {
                                        fingerprint: norm(f),
                                        sig: f.sig.clone(),
                                        block: Some(f.block.clone()),
                                        imp: Some(imp.clone()),
                                        in_trait: false,
                                    },
                                );
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

#[allow(dead_code)]
pub fn toks(t: impl ToTokens) -> TokenStream {
    t.to_token_stream()
}
