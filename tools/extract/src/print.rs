//! Token printer with line breaks; recognises the weaving markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Printer<'a> {
    pub out: String,
    pub indent: usize,
    pub raw: &'a BTreeMap<String, String>,
    pub used: Vec<String>,
    bol: bool,
    glue: bool,
}

fn marker(v: &[TokenTree], i: usize) -> Option<(String, TokenStream)> {
    // __v_xxx ! ( args )
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
        let n = id.to_string();
        if n.starts_with("__v_") && p.as_char() == '!' {
            return Some((n, g.stream()));
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(indent: usize, raw: &'a BTreeMap<String, String>) -> Self {
        Self { out: String::new(), indent, raw, used: vec![], bol: true, glue: false }
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.glue = false;
    }
    fn put(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn rawtext(&mut self, key: &str) {
        if let Some(t) = self.raw.get(key) {
            self.used.push(key.to_string());
            let t = t.trim_end();
            if !t.is_empty() {
                self.nl();
                for l in t.lines() {
                    self.out.push_str(l);
                    self.out.push('\n');
                }
                self.bol = true;
            }
        }
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some((name, args)) = marker(&v, i) {
                let a: Vec<TokenTree> = args.into_iter().collect();
                let key = a.first().map(|t| t.to_string()).unwrap_or_default();
                match name.as_str() {
                    "__v_ghost" => {
                        self.rawtext(key.trim_matches('"'));
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                    "__v_for" => {
                        self.put(&format!("{}:", key.trim_matches('"')));
                        self.stream(a[2..].iter().cloned().collect());
                        i += 3;
                        continue;
                    }
                    "__v_closure" => {
                        // (key, body) : header from the spec, body in braces
                        let k = key.trim_matches('"').to_string();
                        self.rawtext(&k);
                        self.put("{");
                        self.indent += 1;
                        self.nl();
                        self.stream(a[2..].iter().cloned().collect());
                        self.indent -= 1;
                        self.nl();
                        self.put("}");
                        i += 3;
                        continue;
                    }
                    _ => {}
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut rest = 0;
                            if let Some((n, args)) = marker(&inner, 0) {
                                if n == "__v_loop" {
                                    let key = args.to_string();
                                    self.rawtext(key.trim_matches('"'));
                                    rest = 3;
                                    if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                        if p.as_char() == ';' {
                                            rest = 4;
                                        }
                                    }
                                }
                            }
                            self.put("{");
                            if inner.len() > rest {
                                self.indent += 1;
                                self.nl();
                                self.stream(inner[rest..].iter().cloned().collect());
                                self.indent -= 1;
                                self.nl();
                            }
                            self.put("}");
                            // newline after a block unless something continues the expression
                            let cont = match v.get(i + 1) {
                                None => true,
                                Some(TokenTree::Punct(p)) => matches!(p.as_char(), '.' | ',' | ';' | '?' | ')' | '&' | '=' | '|' | '+' | '-' | '*' | '/'),
                                Some(TokenTree::Ident(id)) => matches!(id.to_string().as_str(), "else" | "as"),
                                Some(TokenTree::Group(_)) => true,
                                _ => false,
                            };
                            if !cont {
                                self.nl();
                            }
                        }
                        Delimiter::None => self.stream(g.stream()),
                        d => {
                            let (o, c) = if d == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                            self.glue = true && i > 0 && !self.bol && matches!(v[i - 1], TokenTree::Ident(_));
                            self.put(o);
                            self.glue = true;
                            self.stream(g.stream());
                            self.glue = true;
                            self.put(c);
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    if p.as_char() == ';' || p.as_char() == ',' || p.as_char() == '.' || p.as_char() == '?' {
                        self.glue = true;
                    }
                    self.put(&p.as_char().to_string());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' || p.as_char() == '.' {
                        self.glue = true;
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                other => self.put(&other.to_string()),
            }
            i += 1;
        }
    }
}
