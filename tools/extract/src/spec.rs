//! Spec file format and emission. See specs/README.md.
use crate::print::Printer;
use crate::rewrite::{Rewriter, Weaver};
use crate::source::{norm, Func, Impl, Source};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse_quote;
use syn::visit_mut::VisitMut;

pub fn load_dir(dir: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for e in std::fs::read_dir(dir).expect("specs dir") {
        let p = e.unwrap().path();
        if p.extension().is_some_and(|x| x == "vs") {
            let text = std::fs::read_to_string(&p).unwrap();
            let text = expand_includes(dir, &text, 0);
            v.push((p.file_name().unwrap().to_string_lossy().to_string(), text));
        }
    }
    v.sort();
    v
}

/// `//@ include file.vsi key=value; key2=value2`  (textual, `$key$` is replaced)
fn expand_includes(dir: &str, text: &str, depth: usize) -> String {
    assert!(depth < 8, "include depth");
    let mut out = String::new();
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@ include ") {
            let (f, kv) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
            let mut t = std::fs::read_to_string(format!("{dir}/{f}")).unwrap_or_else(|_| panic!("include {f}"));
            for p in kv.split(';').filter(|p| !p.trim().is_empty()) {
                let (k, v) = p.split_once('=').expect("k=v");
                t = t.replace(&format!("${}$", k.trim()), v.trim());
            }
            out.push_str(&expand_includes(dir, &t, depth + 1));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

pub struct Emitter<'a> {
    src: &'a Source,
    stubs: BTreeSet<String>,
    pub out: String,
    module: String,
    funcs: Vec<Value>,
    missing: Vec<Value>,
}

#[derive(Default)]
struct FnSpec {
    name: String,
    props: Vec<String>,
    ret: String,
    spec: String,
    mode: String,
    rename: String,
    selfty: String,
    attrs: String,
    sections: BTreeMap<String, String>,
    rewrites: Vec<(String, String)>,
    keep_maps: bool,
    /// an override of a trait default: absent, the default applies
    optional: bool,
    iter_maps: bool,
}

fn replace_tokens(ts: TokenStream, from: &[String], to: &TokenStream, n: &mut usize) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let strs: Vec<String> = v.iter().map(norm).collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + from.len() <= v.len() && strs[i..i + from.len()] == *from {
            out.extend(to.clone());
            *n += 1;
            i += from.len();
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), replace_tokens(g.stream(), from, to, n));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

struct SelfTo(syn::Type);
impl VisitMut for SelfTo {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.is_ident("Self") {
                *t = self.0.clone();
                return;
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Struct(p) = e {
            if p.path.is_ident("Self") {
                if let syn::Type::Path(t) = &self.0 {
                    let mut path = t.path.clone();
                    for s in path.segments.iter_mut() {
                        s.arguments = syn::PathArguments::None;
                    }
                    p.path = path;
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() > 1 && p.path.segments[0].ident == "Self" {
                let t = &self.0;
                let rest: Vec<_> = p.path.segments.iter().skip(1).cloned().collect();
                *e = parse_quote!(<#t>::#(#rest)::*);
            }
        }
    }
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if *i == "self" {
            *i = syn::Ident::new("self_", i.span());
        }
    }
}

struct Renamed;
impl VisitMut for Renamed {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if *i == "self" {
            *i = syn::Ident::new("self_", i.span());
        }
    }
}

impl<'a> Emitter<'a> {
    pub fn new(src: &'a Source, stubs: BTreeSet<String>) -> Self {
        Self { src, stubs, out: String::new(), module: String::new(), funcs: vec![], missing: vec![] }
    }
    pub fn map_json(&self) -> Value {
        // every function with a body in the expanded crate: a contract is the exception to be listed, not the rule
        let all: Vec<Value> = self.src.funcs.iter().flat_map(|(k, v)| v.iter().filter(|f| f.block.is_some()).map(move |f| json!([k, f.fingerprint]))).collect();
        json!({ "functions": self.funcs, "missing": self.missing, "all": all })
    }
    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }
    fn key(&self, n: &str) -> String {
        if self.module.is_empty() { n.to_string() } else { format!("{}::{n}", self.module) }
    }

    pub fn file(&mut self, name: &str, body: &str) {
        self.module = String::new();
        let mut cur: Option<FnSpec> = None;
        let mut section = String::new();
        let mut proof: Option<(String, usize, Vec<String>)> = None;
        for l in body.lines() {
            if let Some(d) = l.trim().strip_prefix("//@") {
                let d = d.trim();
                let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                match cmd {
                    "module" => self.module = rest.to_string(),
                    "type" => self.emit_type(rest),
                    "implhead" => self.emit_implhead(rest),
                    "consts" => self.emit_consts(rest),
                    "proof" => {
                        // named hand-written proof/lemma block: //@ proof name props...
                        let mut it = rest.split_whitespace();
                        let n = it.next().unwrap().to_string();
                        let ps = it.flat_map(|x| x.split(',')).map(str::to_string).collect();
                        proof = Some((n, self.line(), ps));
                    }
                    "endproof" => {
                        let (n, s, ps) = proof.take().expect("endproof");
                        let e = self.line();
                        self.funcs.push(json!({"id": format!("lemma {n}"), "kind": "lemma", "props": ps, "start": s, "end": e, "stub": false, "file": name}));
                    }
                    "fn" => {
                        assert!(cur.is_none(), "{name}: nested fn {rest}");
                        cur = Some(FnSpec { name: rest.to_string(), ret: "res".into(), ..Default::default() });
                        section = "spec".into();
                    }
                    "endfn" => {
                        let f = cur.take().unwrap_or_else(|| panic!("{name}: endfn without fn"));
                        self.emit_fn(name, f);
                    }
                    _ => {
                        let f = cur.as_mut().unwrap_or_else(|| panic!("{name}: directive {d} outside fn"));
                        match cmd {
                            "props" => f.props = rest.split([',', ' ']).filter(|s| !s.is_empty()).map(str::to_string).collect(),
                            "ret" => f.ret = rest.to_string(),
                            "mode" => f.mode = rest.to_string(),
                            "rename" => f.rename = rest.to_string(),
                            "selfty" => f.selfty = rest.to_string(),
                            "attr" => {
                                f.attrs.push_str(rest);
                                f.attrs.push('\n');
                            }
                            "keep_maps" => f.keep_maps = true,
                            "optional" => f.optional = true,
                            "iter_maps" => f.iter_maps = true,
                            "rewrite" => {
                                let (a, b) = rest.split_once("=>>").expect("rewrite a =>> b");
                                f.rewrites.push((a.trim().to_string(), b.trim().to_string()));
                            }
                            "loop" | "ghost" | "closure" | "panics" | "spec" => {
                                section = d.to_string();
                                if cmd != "spec" {
                                    _ = f.sections.entry(section.clone()).or_default();
                                }
                            }
                            _ => panic!("{name}: unknown directive {d}"),
                        }
                    }
                }
                continue;
            }
            match cur.as_mut() {
                None => {
                    self.out.push_str(l);
                    self.out.push('\n');
                }
                Some(f) => {
                    if section == "spec" {
                        f.spec.push_str(l);
                        f.spec.push('\n');
                    } else {
                        let s = f.sections.get_mut(&section).unwrap();
                        s.push_str(l);
                        s.push('\n');
                    }
                }
            }
        }
        assert!(cur.is_none(), "{name}: unterminated fn");
    }

    fn emit_type(&mut self, n: &str) {
        // `Name eq`: an enum whose derived equality is structural
        let (n, eq) = match n.strip_suffix(" eq") {
            Some(b) => (b, true),
            None => (n, false),
        };
        let k = self.key(n);
        if eq {
            let f = self.key(&format!("{n}@PartialEq::eq"));
            let derived = self.src.funcs.get(&f).is_some_and(|c| c.len() == 1 && {
                let b = &c[0].block;
                quote::quote!(#b).to_string().contains("intrinsics :: discriminant_value")
            });
            if derived {
                let t = n.rsplit("::").next().unwrap();
                self.out.push_str(&format!(
                    "impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}\nimpl PartialEq for {t} {{\n    #[verifier::external_body]\n    fn eq(&self, o: &Self) -> bool {{ unimplemented!() }}\n}}\n"
                ));
            } else {
                self.missing.push(json!({"derived": f}));
            }
        }
        let Some(item) = self.src.types.get(&k) else {
            self.missing.push(json!({"type": k}));
            return;
        };
        let mut item = item.clone();
        let mut rej: Vec<String> = vec![];
        match &mut item {
            syn::Item::Struct(s) => {
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                rej = s.generics.type_params().map(|t| t.ident.to_string()).collect();
            }
            syn::Item::Enum(s) => {
                s.vis = parse_quote!(pub);
                rej = s.generics.type_params().map(|t| t.ident.to_string()).collect();
            }
            syn::Item::Type(s) => s.vis = parse_quote!(pub),
            syn::Item::Const(s) => s.vis = parse_quote!(pub),
            _ => {}
        }
        let _ = rej;
        let empty = BTreeMap::new();
        let mut p = Printer::new(0, &empty);
        p.stream(item.to_token_stream());
        self.out.push_str(&p.out);
        self.out.push('\n');
    }

    fn emit_implhead(&mut self, n: &str) {
        let k = self.key(n);
        let Some(i) = self.src.impls.get(&k) else {
            self.missing.push(json!({"impl": k}));
            return;
        };
        let head = impl_head(i, true);
        let empty = BTreeMap::new();
        let mut p = Printer::new(0, &empty);
        p.stream(head);
        self.out.push_str(&p.out);
        self.out.push_str(" {\n");
    }

    fn emit_consts(&mut self, n: &str) {
        let k = self.key(n);
        let Some(i) = self.src.impls.get(&k) else {
            self.missing.push(json!({"impl": k}));
            return;
        };
        let empty = BTreeMap::new();
        let mut p = Printer::new(1, &empty);
        for c in &i.consts {
            p.stream(c.to_token_stream());
        }
        for c in &i.types {
            p.stream(c.to_token_stream());
        }
        self.out.push_str(&p.out);
        self.out.push('\n');
    }

    fn emit_fn(&mut self, file: &str, mut fs: FnSpec) {
        let k = self.key(&fs.name);
        let id = k.clone();
        let Some(cands) = self.src.funcs.get(&k) else {
            if !fs.optional {
                self.missing.push(json!({"fn": k, "props": fs.props}));
            }
            return;
        };
        if cands.len() != 1 {
            self.missing.push(json!({"fn": k, "props": fs.props, "ambiguous": cands.len()}));
            return;
        }
        let func: Func = cands[0].clone();
        let stub = self.stubs.contains(&id);
        let free = fs.mode == "free";
        let bare = fs.mode == "bare" || func.imp.is_none();

        let mut sig = func.sig.clone();
        let mut block = func.block.clone().unwrap_or_else(|| parse_quote!({}));
        sig.constness = None;
        let unsafety = sig.unsafety.take().is_some();
        let _ = unsafety;

        // per-function token rewrites, applied to the source tokens first
        let mut missed = vec![];
        for (a, b) in &fs.rewrites {
            let at: TokenStream = a.parse().expect("rewrite lhs");
            let bt: TokenStream = b.parse().unwrap_or_else(|e| panic!("{id}: rewrite rhs {b}: {e}"));
            let from: Vec<String> = at.into_iter().map(norm).collect();
            let mut n = 0;
            let nb = replace_tokens(block.to_token_stream(), &from, &bt, &mut n);
            let nsig = replace_tokens(sig.to_token_stream(), &from, &bt, &mut n);
            if n == 0 {
                missed.push(a.clone());
            } else {
                match syn::parse2(nb) {
                    Ok(b) => block = b,
                    Err(e) => panic!("{id}: rewrite {a}: {e}"),
                }
                sig = syn::parse2(nsig).unwrap_or_else(|e| panic!("{id}: rewrite sig {a}: {e}"));
            }
        }

        let panics = fs.sections.remove("panics").unwrap_or_default();
        let mut rw = Rewriter { panics: panics.clone(), keep_maps: fs.keep_maps, iter_maps: fs.iter_maps, ..Default::default() };
        rw.visit_block_mut(&mut block);
        if !panics.is_empty() {
            let t = if panics.trim() == "any" { String::new() } else { format!("proof {{ assert({}); }}", panics.trim()) };
            _ = fs.sections.insert("panics".into(), t);
        }
        // nested fns are emitted through their own specs
        let had_items = block.stmts.iter().any(|s| matches!(s, syn::Stmt::Item(syn::Item::Fn(_))));
        block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Fn(_) | syn::Item::Use(_))));
        let _ = had_items;

        let keys: BTreeSet<String> = fs.sections.keys().cloned().collect();
        let has = |k: &str| keys.contains(k);
        let names = |k: &str| fs.sections.get(k).map(|t| header_names(t)).unwrap_or_default();
        let mut wv = Weaver { loops: 0, closures: 0, has: &has, names: &names };
        wv.visit_block_mut(&mut block);
        let (nloops, nclosures) = (wv.loops, wv.closures);
        // `mut self` is not accepted: the body works on a mutable local instead
        if !free {
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    Renamed.visit_block_mut(&mut block);
                    block.stmts.insert(0, parse_quote!(let mut self_ = self;));
                }
            }
        }
        if keys.contains("ghost start") {
            block.stmts.insert(0, parse_quote!(__v_ghost!("ghost start");));
        }
        if keys.contains("ghost end") {
            let at = match block.stmts.last() {
                Some(syn::Stmt::Expr(_, None)) => block.stmts.len() - 1,
                _ => block.stmts.len(),
            };
            block.stmts.insert(at, parse_quote!(__v_ghost!("ghost end");));
        }

        if keys.contains("ghost tail") {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last().cloned() {
                block.stmts.pop();
                match &sig.output {
                    syn::ReturnType::Type(_, t) => block.stmts.push(parse_quote!(let __tail: #t = #e;)),
                    _ => block.stmts.push(parse_quote!(let __tail = #e;)),
                }
                block.stmts.push(parse_quote!(__v_ghost!("ghost tail");));
                block.stmts.push(syn::Stmt::Expr(parse_quote!(__tail), None));
            }
        }

        if !fs.rename.is_empty() {
            sig.ident = syn::Ident::new(&fs.rename, sig.ident.span());
        }
        let mut header_impl: Option<TokenStream> = None;
        if let Some(imp) = &func.imp {
            if free {
                let mut g_extra: Option<syn::TypeParam> = None;
                // move everything to the function
                let mut g = imp.generics.clone();
                let own = sig.generics.clone();
                // lifetimes first
                for p in own.params {
                    if matches!(p, syn::GenericParam::Lifetime(_)) { g.params.insert(0, p) } else { g.params.push(p) }
                }
                if let Some(w) = own.where_clause {
                    g.make_where_clause().predicates.extend(w.predicates);
                }
                sig.generics = g;
                let mut ty = imp.self_ty.clone();
                if !fs.selfty.is_empty() {
                    // the receiver is generalised: any type satisfying the bound, not just the impl's
                    let p: syn::TypeParam = syn::parse_str(&fs.selfty).unwrap_or_else(|e| panic!("{id}: selfty: {e}"));
                    let n = p.ident.clone();
                    ty = parse_quote!(&#n);
                    g_extra = Some(p);
                }
                if let Some(p) = g_extra.take() {
                    sig.generics.params.push(syn::GenericParam::Type(p));
                }
                if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first().cloned() {
                    let arg: syn::FnArg = if r.reference.is_some() {
                        let mut lt = r.reference.as_ref().and_then(|x| x.1.clone());
                        // an elided output lifetime means self's
                        if lt.is_none() && sig.inputs.len() > 1 {
                            let l: syn::Lifetime = parse_quote!('__s);
                            let mut en = Elided(l.clone(), false);
                            en.visit_return_type_mut(&mut sig.output);
                            if en.1 {
                                sig.generics.params.insert(0, parse_quote!('__s));
                                lt = Some(l);
                            }
                        }
                        if r.mutability.is_some() { parse_quote!(self_: & #lt mut #ty) } else { parse_quote!(self_: & #lt #ty) }
                    } else if r.mutability.is_some() {
                        parse_quote!(mut self_: #ty)
                    } else {
                        parse_quote!(self_: #ty)
                    };
                    sig.inputs[0] = arg;
                }
                let mut st = SelfTo(ty);
                st.visit_signature_mut(&mut sig);
                st.visit_block_mut(&mut block);
            } else if !bare {
                header_impl = Some(impl_head(imp, false));
            }
        }
        // simple parameter patterns only
        let mut prologue: Vec<syn::Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = a {
                if !matches!(&*t.pat, syn::Pat::Ident(_)) {
                    let p = t.pat.clone();
                    let n = quote::format_ident!("__arg{}", prologue.len());
                    *t.pat = parse_quote!(#n);
                    prologue.push(parse_quote!(let #p = #n;));
                }
            }
        }
        prologue.extend(block.stmts);
        block.stmts = prologue;

        let start = self.line();
        let mut text = String::new();
        if let Some(h) = &header_impl {
            let empty = BTreeMap::new();
            let mut p = Printer::new(0, &empty);
            p.stream(h.clone());
            text.push_str(&p.out);
            text.push_str(" {\n");
        }
        if stub {
            text.push_str("#[verifier::external_body]\n");
        }
        if nloops > 0 {
            text.push_str("#[verifier::loop_isolation(false)]\n");
        }
        text.push_str(&fs.attrs);
        {
            let name = &sig.ident;
            let g = &sig.generics;
            let inputs = &sig.inputs;
            let wc = &g.where_clause;
            let vis: TokenStream = if fs.mode == "bare" { quote!() } else { quote!(pub) };
            let mut head = quote!(#vis fn #name #g ( #inputs ));
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let r = quote::format_ident!("{}", fs.ret);
                head.extend(quote!(-> (#r : #t)));
            }
            head.extend(quote!(#wc));
            let empty = BTreeMap::new();
            let mut p = Printer::new(1, &empty);
            p.stream(head);
            text.push_str(p.out.trim_end().trim_end_matches(','));
            text.push('\n');
        }
        text.push_str(&fs.spec);
        let mut p = Printer::new(1, &fs.sections);
        if stub {
            p.stream(quote!({ unimplemented!() }));
        } else if func.block.is_some() {
            p.stream(block.to_token_stream());
        }
        let used: BTreeSet<String> = p.used.iter().cloned().collect();
        let unused: Vec<String> = keys.iter().filter(|k| !used.contains(*k) && *k != "panics").cloned().collect();
        text.push_str(&p.out);
        if func.block.is_none() {
            text.push(';');
        }
        text.push('\n');
        if header_impl.is_some() {
            text.push_str("}\n");
        }
        self.out.push_str(&text);
        let end = self.line();
        self.funcs.push(json!({
            "id": id, "kind": "fn", "props": fs.props, "start": start, "end": end, "stub": stub, "file": file,
            "loops": nloops, "closures": nclosures, "unused_sections": unused, "missed_rewrites": missed,
            "applied": rw.applied, "fingerprint": func.fingerprint, "in_trait": func.in_trait,
        }));
    }
}

fn impl_head(i: &Impl, with_trait: bool) -> TokenStream {
    let g = &i.generics;
    let (ig, _, wc) = g.split_for_impl();
    let t = &i.self_ty;
    let ig = ig.to_token_stream();
    match (&i.trait_, with_trait) {
        (Some(tr), true) => quote!(impl #ig #tr for #t #wc),
        _ => quote!(impl #ig #t #wc),
    }
}

/// gives elided lifetimes in an output type the name of self's
struct Elided(syn::Lifetime, bool);
impl VisitMut for Elided {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(self.0.clone());
            self.1 = true;
        }
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        if l.ident == "_" {
            *l = self.0.clone();
            self.1 = true;
        }
    }
}

/// `|a: T, b: U| ...` -> [a, b]
fn header_names(t: &str) -> Vec<String> {
    let t = t.trim_start();
    let Some(t) = t.strip_prefix('|') else { return vec![] };
    let Some((t, _)) = t.split_once('|') else { return vec![] };
    let (mut depth, mut out, mut cur) = (0, vec![], String::new());
    for c in t.chars() {
        match c {
            '(' | '<' | '[' => depth += 1,
            ')' | '>' | ']' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out.iter().map(|p| p.split(':').next().unwrap_or("").trim().to_string()).collect()
}
