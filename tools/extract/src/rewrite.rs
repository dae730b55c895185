//! The mechanical rewrites (documented in DESIGN.md, "What the extraction changes").
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

#[derive(Default)]
pub struct Rewriter {
    pub in_unsafe: usize,
    pub applied: std::collections::BTreeMap<&'static str, usize>,
    pub panics: String,
    pub keep_maps: bool,
    pub iter_maps: bool,
    pub counter: usize,
}

fn contains_escape(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn is_iter_call(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(
                n.as_str(),
                "iter" | "iter_mut" | "into_iter" | "keys" | "values" | "values_mut" | "map" | "filter" | "enumerate" | "chars" | "windows" | "rev"
            )
        }
        _ => false,
    }
}

fn one_closure(args: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, i: usize) -> Option<syn::ExprClosure> {
    match args.get(i) {
        Some(Expr::Closure(c)) if !contains_escape(&c.body) => Some(c.clone()),
        _ => None,
    }
}

/// R in `R.cloned()`
fn cloned_source(e: &Expr) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "cloned" && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    }
}

fn strip_ty(p: &syn::Pat) -> syn::Pat {
    match p {
        syn::Pat::Type(t) => (*t.pat).clone(),
        o => o.clone(),
    }
}

impl Rewriter {
    fn hit(&mut self, r: &'static str) {
        *self.applied.entry(r).or_default() += 1;
    }
}

fn one_closure0(args: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, i: usize) -> Option<syn::ExprClosure> {
    match args.get(i) {
        Some(Expr::Closure(c)) if c.inputs.is_empty() && !contains_escape(&c.body) => Some(c.clone()),
        _ => None,
    }
}

/// `quote!`'s repetition `#( #x, )*` expands to a block around a `while true` loop; gives x.
fn repetition(b: &syn::Block) -> Option<syn::Ident> {
    let mut var = None;
    let mut n = 0;
    for s in &b.stmts {
        match s {
            Stmt::Local(l) => {
                if let (syn::Pat::Tuple(t), Some(i)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*i.expr {
                        if m.method == "quote_into_iter" {
                            if let (Expr::Path(x), syn::Pat::Ident(y)) = (&*m.receiver, &t.elems[0]) {
                                if x.path.is_ident(&y.ident) {
                                    n += 1;
                                    var = Some(y.ident.clone());
                                }
                            }
                        }
                    }
                }
            }
            Stmt::Expr(Expr::While(w), _) if n == 1 => {
                let v = var.clone()?;
                let t = quote!(#w).to_string();
                let want = |p: proc_macro2::TokenStream| {
                    let w: Expr = parse_quote!(while true {
                        let #v = match #v.next() { Some(_x) => #p::quote::__private::RepInterp(_x), None => break, };
                        #p::quote::ToTokens::to_tokens(&#v, &mut _s);
                        #p::quote::__private::push_comma(&mut _s);
                    });
                    quote!(#w).to_string()
                };
                // `#( #x ),*`
                let want2 = |p: proc_macro2::TokenStream| {
                    let w: Expr = parse_quote!(while true {
                        let #v = match #v.next() { Some(_x) => #p::quote::__private::RepInterp(_x), None => break, };
                        if !_first { #p::quote::__private::push_comma(&mut _s); }
                        _first = false;
                        #p::quote::ToTokens::to_tokens(&#v, &mut _s);
                    });
                    quote!(#w).to_string()
                };
                return if [want(quote!()), want(quote!(crate)), want2(quote!()), want2(quote!(crate))].contains(&t) { Some(v) } else { None };
            }
            _ => {}
        }
    }
    None
}

/// `format!("{a}{b}")`: gives a and b.
fn two_shown(e: &Expr) -> Option<(Expr, Expr)> {
    struct F(Vec<proc_macro2::TokenStream>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.path.segments.last().is_some_and(|s| s.ident == "format_args") {
                self.0.push(m.tokens.clone());
            }
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_expr(&mut f, e);
    if f.0.len() != 1 {
        return None;
    }
    let args = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, f.0.pop().unwrap()).ok()?;
    if args.len() != 3 {
        return None;
    }
    match &args[0] {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value() == "{0}{1}" => Some((args[1].clone(), args[2].clone())),
        _ => None,
    }
}

/// `format_ident!("{}", x)` expands to a match on `IdentFragmentAdapter(&x)`; gives x.
fn ident_fragment(m: &syn::ExprMatch) -> Option<Expr> {
    if let Expr::Call(c) = &*m.expr {
        let f = &c.func;
        if quote!(#f).to_string().ends_with("IdentFragmentAdapter") && c.args.len() == 1 && m.arms.len() == 1 {
            let b = &m.arms[0].body;
            if quote!(#b).to_string().contains("format_args ! (\"{0}\" , arg)") {
                if let Expr::Reference(r) = &c.args[0] {
                    return Some((*r.expr).clone());
                }
            }
        }
    }
    None
}

impl VisitMut for Rewriter {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}

    // the token-stream crates are stood in for by modules of the verification crate
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && ["quote", "proc_macro2", "syn"].iter().any(|x| p.segments[0].ident == x) {
            self.hit("token-crates");
            let q = syn::Path { leading_colon: None, segments: p.segments.clone() };
            *p = parse_quote!(crate::#q);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // recognised before its parts are rewritten
        if let Expr::Match(m) = e {
            if let Some(x) = ident_fragment(m) {
                self.hit("format-ident");
                *e = parse_quote!(crate::quote::v_format_ident(&#x));
            }
        }
        // count unsafe nesting
        if let Expr::Unsafe(u) = e {
            self.in_unsafe += 1;
            visit_mut::visit_block_mut(self, &mut u.block);
            self.in_unsafe -= 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            // R3: raw pointers and unchecked indexing become contract-carrying calls
            Expr::Reference(r) if self.in_unsafe > 0 => match &*r.expr {
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                    let x = &u.expr;
                    self.hit("raw-deref");
                    if r.mutability.is_some() { Some(parse_quote!(#x.v_as_mut())) } else { Some(parse_quote!(#x.v_as_ref())) }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let n = m.args.len();
                let recv = &m.receiver;
                match (name.as_str(), n) {
                    ("get_unchecked", 1) | ("get_unchecked_mut", 1) | ("as_ptr", 0) | ("as_mut_ptr", 0) => {
                        let is_range = matches!(m.args.first(), Some(Expr::Range(_)));
                        let nn = match (name.as_str(), is_range) {
                            ("get_unchecked", true) => "v_get_unchecked_range".to_string(),
                            ("get_unchecked_mut", true) => "v_get_unchecked_range_mut".to_string(),
                            _ => format!("v_{name}"),
                        };
                        m.method = quote::format_ident!("{}", nn);
                        self.hit("unchecked-index");
                        None
                    }
                    ("sort_by", 1) | ("sort_unstable_by", 1) | ("resize_with", 2) => {
                        m.method = quote::format_ident!("v_{}", name);
                        self.hit("sort");
                        None
                    }
                    // R7: cloning what an iterator yields into a set
                    ("collect", 0) => cloned_source(recv).map(|r| {
                        self.hit("cloned-collect");
                        parse_quote!(v_cloned_set(#r))
                    }),
                    // R4: bool::then, Option::map / map_or / is_some_and with a literal closure are inlined
                    ("then", 1) => one_closure(&m.args, 0).map(|c| {
                        self.hit("inline-then");
                        let b = &c.body;
                        parse_quote!(if #recv { Some(#b) } else { None })
                    }),
                    ("map", 1) if self.iter_maps && matches!(&**recv, Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty()) => {
                        one_closure(&m.args, 0).map(|c| {
                            self.hit("collect-iter-map");
                            parse_quote!(crate::prelude::v_iter_map_vec(#recv, #c))
                        })
                    }
                    ("map", 1) if !is_iter_call(recv) && !self.keep_maps => one_closure(&m.args, 0).map(|c| {
                        self.hit("inline-option-map");
                        let b = &c.body;
                        let p = strip_ty(&c.inputs[0]);
                        parse_quote!(match #recv { Some(#p) => Some(#b), None => None })
                    }),
                    ("map_or_else", 2) if matches!(&m.args[1], Expr::Path(_)) => one_closure0(&m.args, 0).map(|c| {
                        self.hit("inline-map-or-else");
                        let (b, f) = (&c.body, &m.args[1]);
                        parse_quote!(match #recv { Some(__x) => #f(__x), None => #b })
                    }),
                    ("map_or", 2) => {
                        let d = m.args[0].clone();
                        one_closure(&m.args, 1).map(|c| {
                            self.hit("inline-option-map_or");
                            let b = &c.body;
                            let p = strip_ty(&c.inputs[0]);
                            parse_quote!(match #recv { Some(#p) => #b, None => #d })
                        })
                    }
                    ("is_some_and", 1) => one_closure(&m.args, 0).map(|c| {
                        self.hit("inline-option-is_some_and");
                        let b = &c.body;
                        let p = strip_ty(&c.inputs[0]);
                        parse_quote!(match #recv { Some(#p) => #b, None => false })
                    }),
                    // R4b: Iterator::fold with a literal closure is its loop
                    ("fold", 2) => {
                        let d = m.args[0].clone();
                        one_closure(&m.args, 1).filter(|c| c.inputs.len() == 2).map(|c| {
                            self.hit("unfold-fold");
                            let b = &c.body;
                            let a = strip_ty(&c.inputs[0]);
                            let p = strip_ty(&c.inputs[1]);
                            parse_quote!({ let mut __acc = #d; for __e in #recv { let #a = __acc; let #p = __e; __acc = #b; } __acc })
                        })
                    }
                    // R6: panicking accessors
                    ("expect", 1) if !self.panics.is_empty() => {
                        self.hit("panic-site");
                        Some(parse_quote!(match #recv { Some(__v) => __v, None => { __v_ghost!("panics"); crate::prelude::v_diverge() } }))
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.iter().any(|s| s == "panicking") {
                        self.hit("panic-site");
                        if self.panics.is_empty() {
                            Some(parse_quote!(crate::prelude::v_unreachable()))
                        } else {
                            Some(parse_quote!({ __v_ghost!("panics"); crate::prelude::v_diverge() }))
                        }
                    } else if segs.len() >= 2 && segs[segs.len() - 2] == "__export" && segs[segs.len() - 1] == "must_use" {
                        // `format!`: two values written one after the other, or else some text
                        self.hit("format-text");
                        match two_shown(&c.args[0]) {
                            Some((a, b)) => Some(parse_quote!(crate::quote::v_shown2(&#a, &#b))),
                            None => Some(parse_quote!(crate::prelude::v_some_text())),
                        }
                    } else if segs.last().is_some_and(|x| x == "box_assume_init_into_vec_unsafe") {
                        match c.args.first() {
                            Some(Expr::Call(ic)) if ic.args.len() == 2 => {
                                self.hit("vec-macro");
                                let a = &ic.args[1];
                                Some(parse_quote!(crate::prelude::v_vec_of(#a)))
                            }
                            _ => None,
                        }
                    } else if segs.len() >= 2 && segs[segs.len() - 1] == "from_iter" && segs[segs.len() - 2] == "Output" && c.args.len() == 1 {
                        cloned_source(&c.args[0]).map(|r| {
                            self.hit("cloned-collect");
                            parse_quote!(v_cloned_set(#r))
                        })
                    } else if segs.len() >= 2 && segs[segs.len() - 1] == "from_elem" && segs[segs.len() - 2] == "vec" {
                        self.hit("vec-macro");
                        let a = &c.args;
                        Some(parse_quote!(crate::prelude::v_from_elem(#a)))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            // R5: `for p in &E` / `&mut E`
            Expr::Block(b) if repetition(&b.block).is_some() => {
                let v = repetition(&b.block).unwrap();
                self.hit("quote-repetition");
                Some(parse_quote!({ crate::quote::push_each(&mut _s, &#v); }))
            }
            Expr::ForLoop(f) => {
                if let Expr::Reference(r) = &*f.expr {
                    let x = &r.expr;
                    let plain_self = matches!(&**x, Expr::Path(p) if p.path.is_ident("self"));
                    if !plain_self {
                        self.hit("for-ref");
                        let ne: Expr = if r.mutability.is_some() { parse_quote!(#x.iter_mut()) } else { parse_quote!(#x.iter()) };
                        *f.expr = ne;
                    }
                }
                // `for p in self` on a reference is the loop over its `IntoIterator` (extracted as a function of its own)
                if matches!(&*f.expr, Expr::Path(p) if p.path.is_ident("self")) {
                    self.hit("for-self");
                    *f.expr = parse_quote!(ref_into_iter(self_));
                }
                // `for mut x in E {..}` is `for x__ in E { let mut x = x__; .. }`
                if let syn::Pat::Ident(pi) = &*f.pat {
                    if pi.mutability.is_some() && pi.by_ref.is_none() && pi.subpat.is_none() {
                        self.hit("for-mut");
                        let x = pi.ident.clone();
                        let x0 = quote::format_ident!("{}__", x);
                        *f.pat = parse_quote!(#x0);
                        f.body.stmts.insert(0, parse_quote!(let mut #x = #x0;));
                    }
                }
                // enumerate
                let mut res = None;
                if let Expr::MethodCall(m) = &*f.expr {
                    if m.method == "enumerate" {
                        if let syn::Pat::Tuple(t) = &*f.pat {
                            if t.elems.len() == 2 && !has_continue(&f.body) {
                                self.hit("for-enumerate");
                                let ctr = quote::format_ident!("__enum{}", self.counter);
                                self.counter += 1;
                                let (pi, pe) = (&t.elems[0], &t.elems[1]);
                                let recv = &m.receiver;
                                let body = &f.body.stmts;
                                res = Some(parse_quote!({
                                    let mut #ctr: usize = 0;
                                    for #pe in #recv { let #pi = #ctr; #(#body)* ; #ctr += 1; }
                                }));
                            }
                        }
                    }
                }
                res
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    // R10: Vec::retain with a closure that counts positions is unfolded into its definition
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        let mut new: Option<Stmt> = None;
        // `_ = e;` is `let _ = e;`
        if let Stmt::Expr(Expr::Assign(a), _) = s {
            if matches!(&*a.left, Expr::Infer(_)) {
                self.hit("discard");
                let r = &a.right;
                new = Some(parse_quote!(let _ = #r;));
            }
        }
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
            if m.method == "retain" && m.args.len() == 1 {
                if let Some(c) = one_closure(&m.args, 0) {
                    self.hit("unfold-retain");
                    let recv = &m.receiver;
                    let b = &c.body;
                    let p = strip_ty(&c.inputs[0]);
                    let bind: proc_macro2::TokenStream =
                        if matches!(p, syn::Pat::Wild(_)) { quote!() } else { quote!(let #p = &__e;) };
                    new = Some(parse_quote!({
                        let mut __kept = Vec::new();
                        for __e in #recv.into_iter() {
                            #bind
                            let __keep: bool = #b;
                            if __keep { __kept.push(__e); }
                        }
                        #recv = __kept;
                    }));
                }
            }
        }
        if let Some(n) = new {
            *s = n;
        }
    }
}

fn has_continue(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Numbers loops and closures and inserts weaving markers.
pub struct Weaver<'a> {
    pub loops: usize,
    pub closures: usize,
    pub has: &'a dyn Fn(&str) -> bool,
    /// parameter names in a woven closure header
    pub names: &'a dyn Fn(&str) -> Vec<String>,
}

impl VisitMut for Weaver<'_> {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                let body = match e {
                    Expr::While(w) => &mut w.body,
                    Expr::Loop(l) => &mut l.body,
                    Expr::ForLoop(f) => {
                        let it = format!("it{k}");
                        let x = &f.expr;
                        *f.expr = parse_quote!(__v_for!(#it, #x));
                        &mut f.body
                    }
                    _ => unreachable!(),
                };
                let lk = format!("loop {k}");
                let gb = format!("ghost loop_begin {k}");
                let ge = format!("ghost loop_end {k}");
                let stmts = std::mem::take(&mut body.stmts);
                let mut ns: Vec<Stmt> = vec![parse_quote!(__v_loop!(#lk);)];
                if (self.has)(&gb) {
                    ns.push(parse_quote!(__v_ghost!(#gb);));
                }
                ns.extend(stmts);
                if (self.has)(&ge) {
                    // a loop body's tail expression is of type (); make it a statement
                    if let Some(Stmt::Expr(x, semi @ None)) = ns.last_mut() {
                        if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                            *semi = Some(Default::default());
                        }
                    }
                    ns.push(parse_quote!(__v_ghost!(#ge);));
                }
                body.stmts = ns;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                visit_mut::visit_expr_mut(self, &mut c.body);
                let ck = format!("closure {k}");
                if (self.has)(&ck) {
                    let b: &Expr = &c.body;
                    let inner = match b {
                        Expr::Block(b) if b.label.is_none() => {
                            let s = &b.block.stmts;
                            quote!(#(#s)*)
                        }
                        o => o.to_token_stream(),
                    };
                    // the header names the parameters; the code's own patterns are bound to them
                    let names = (self.names)(&ck);
                    let mut binds = quote!();
                    if names.len() == c.inputs.len() {
                        for (n, p) in names.iter().zip(&c.inputs) {
                            let p = strip_ty(p);
                            if p.to_token_stream().to_string() != *n && !matches!(p, syn::Pat::Wild(_)) {
                                let n = quote::format_ident!("{n}");
                                binds.extend(quote!(let #p = #n;));
                            }
                        }
                    }
                    *e = parse_quote!(__v_closure!(#ck, #binds #inner));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let before = self.loops;
            let is_loop = |e: &Expr| matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
            let loop_stmt = match &s {
                Stmt::Expr(e, _) => is_loop(e),
                Stmt::Local(l) => l.init.as_ref().is_some_and(|i| is_loop(&i.expr)),
                _ => false,
            };
            self.visit_stmt_mut(&mut s);
            if loop_stmt {
                let kb = format!("ghost before_loop {before}");
                let ka = format!("ghost after_loop {before}");
                if (self.has)(&kb) {
                    out.push(parse_quote!(__v_ghost!(#kb);));
                }
                out.push(s);
                if (self.has)(&ka) {
                    out.push(parse_quote!(__v_ghost!(#ka);));
                }
            } else {
                let name = match &s {
                    Stmt::Local(l) => match &l.pat {
                        syn::Pat::Ident(i) => Some(i.ident.to_string()),
                        syn::Pat::Type(t) => match &*t.pat {
                            syn::Pat::Ident(i) => Some(i.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                out.push(s);
                if let Some(n) = name {
                    let kl = format!("ghost after_let {n}");
                    if (self.has)(&kl) {
                        out.push(parse_quote!(__v_ghost!(#kl);));
                    }
                }
            }
        }
        b.stmts = out;
    }
}
