/// The token-stream crates as the code generator sees them (trusted: dependencies). A stream is the sequence of its names, numbers, groups and
/// interpolated pieces of code; separators and punctuation are not modelled.
pub mod proc_macro2 {
use vstd::prelude::*;
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub ghost enum Tok { Name(Seq<char>), Num(int), Open(Delimiter), Close, Code(int) }
pub open spec fn one(t: Tok) -> Seq<Tok> { seq![t] }
pub struct TokenStream { pub g: Ghost<Seq<Tok>> }
impl View for TokenStream { type V = Seq<Tok>; open spec fn view(&self) -> Seq<Tok> { self.g@ } }
impl TokenStream {
    pub fn new() -> (r: Self) ensures r@ == Seq::<Tok>::empty() { TokenStream { g: Ghost(Seq::empty()) } }
    pub fn extend(&mut self, o: TokenStream) ensures final(self)@ == old(self)@ + o@ { self.g = Ghost(self.g@ + o.g@); }
}
impl Clone for TokenStream {
    fn clone(&self) -> (r: Self) ensures r == *self { TokenStream { g: Ghost(self.g@) } }
}
pub struct Span { }
impl Span { pub fn call_site() -> Span { Span { } } }
pub struct Literal { pub g: Ghost<int> }
impl Literal {
    pub fn usize_unsuffixed(n: usize) -> (r: Self) ensures r.g@ == n { Literal { g: Ghost(n as int) } }
}
}
pub mod quote {
use vstd::prelude::*;
use crate::proc_macro2::*;
/// what a value contributes when interpolated
pub trait ToTokens {
    spec fn toks(&self) -> Seq<Tok>;
    fn to_tokens(&self, tokens: &mut TokenStream)
        ensures final(tokens)@ == old(tokens)@ + self.toks();
    fn to_token_stream(&self) -> (r: TokenStream)
        ensures r@ == self.toks();
}
macro_rules! code { ($($t:ident),*) => { $( verus! {
    /// a piece of code
    pub struct $t { pub g: Ghost<Seq<Tok>> }
    impl ToTokens for $t {
        open spec fn toks(&self) -> Seq<Tok> { self.g@ }
        fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + self.g@); }
        fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(self.g@) } }
    }
    impl Clone for $t { fn clone(&self) -> (r: Self) ensures r == *self { $t { g: Ghost(self.g@) } } }
} )* } }
code!(Type, Code, Ident, LitStr, LitInt);
/// expressions as far as the macros look into them
pub enum Lit { Str(LitStr), Int(LitInt), Other(Code) }
pub struct ExprLit { pub lit: Lit }
pub struct ExprGroup { pub expr: Box<Expr> }
pub enum Expr { Lit(ExprLit), Group(ExprGroup), Other(Code) }
pub open spec fn lit_toks(l: Lit) -> Seq<Tok> { match l { Lit::Str(s) => s.g@, Lit::Int(i) => i.g@, Lit::Other(c) => c.g@ } }
pub open spec fn expr_toks(e: Expr) -> Seq<Tok> decreases e { match e { Expr::Lit(l) => lit_toks(l.lit), Expr::Group(g) => seq![Tok::Open(Delimiter::None)] + expr_toks(*g.expr).push(Tok::Close), Expr::Other(c) => c.g@ } }
impl ToTokens for Expr {
    open spec fn toks(&self) -> Seq<Tok> { expr_toks(*self) }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + expr_toks(*self)); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(expr_toks(*self)) } }
}
impl Clone for Expr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// what literals mean (trusted: syn, rustc): the number or text a literal denotes, the suffix it is written with
pub uninterp spec fn lit_number(t: Seq<Tok>) -> int;
pub uninterp spec fn lit_text(t: Seq<Tok>) -> Seq<char>;
pub uninterp spec fn lit_suffix(t: Seq<Tok>) -> Seq<char>;
/// the number a scalar is
pub uninterp spec fn number<K>(k: K) -> int;
impl LitInt {
    #[verifier::external_body]
    pub fn suffix(&self) -> (r: &str) ensures r@ == lit_suffix(self.g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn base10_parse<K>(&self) -> (r: crate::syn::Result<K>) ensures r is Ok ==> number(r->Ok_0) == lit_number(self.g@) { unimplemented!() }
}
impl LitStr {
    #[verifier::external_body]
    pub fn value(&self) -> (r: String) ensures r@ == lit_text(self.g@) { unimplemented!() }
}
impl crate::syn::Parse2 for LitInt { open spec fn reads(args: Seq<Tok>, r: Self) -> bool { lit_number(r.g@) == lit_number(args) && lit_suffix(r.g@) == lit_suffix(args) } }
impl crate::syn::Parse2 for LitStr { open spec fn reads(args: Seq<Tok>, r: Self) -> bool { lit_text(r.g@) == lit_text(args) } }
/// two values written one after the other
pub uninterp spec fn shown2<A, B>(a: A, b: B) -> Seq<char>;
#[verifier::external_body]
pub fn v_shown2<A, B>(a: &A, b: &B) -> (r: String) ensures r@ == shown2(*a, *b) { unimplemented!() }
/// the tokens of a text
pub uninterp spec fn lexed(s: Seq<char>) -> Seq<Tok>;
/// a number literal followed by a suffix is the same number, with that suffix if it had none (trusted: proc_macro2, syn)
#[verifier::external_body]
pub broadcast axiom fn axiom_suffixed(l: LitInt, s: &str)
    ensures lit_number(#[trigger] lexed(shown2(l, s))) == lit_number(l.g@), lit_suffix(l.g@).len() == 0 ==> lit_suffix(lexed(shown2(l, s))) == s@;

/// what an identifier says
pub open spec fn spelled(i: Ident) -> Seq<char> { i.g@[0]->Name_0 }
impl Ident {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == spelled(*self) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Visibility { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Visibility {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
pub enum Visibility { Inherited, Public(Ghost<Seq<Tok>>) }
impl ToTokens for Visibility {
    open spec fn toks(&self) -> Seq<Tok> { match self { Visibility::Inherited => Seq::empty(), Visibility::Public(g) => g@ } }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + self.toks()); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(self.toks()) } }
}
impl ToTokens for TokenStream {
    open spec fn toks(&self) -> Seq<Tok> { self@ }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + self.g@); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(self.g@) } }
}
impl ToTokens for Literal {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Num(self.g@)] }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + seq![Tok::Num(self.g@)]); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(one(Tok::Num(self.g@))) } }
}
impl ToTokens for usize {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Num(*self as int)] }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + seq![Tok::Num(*self as int)]); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(one(Tok::Num(*self as int))) } }
}
impl ToTokens for u64 {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Num(*self as int)] }
    fn to_tokens(&self, tokens: &mut TokenStream) { tokens.g = Ghost(tokens.g@ + seq![Tok::Num(*self as int)]); }
    fn to_token_stream(&self) -> (r: TokenStream) { TokenStream { g: Ghost(one(Tok::Num(*self as int))) } }
}
impl<T: ToTokens> ToTokens for &T {
    open spec fn toks(&self) -> Seq<Tok> { (**self).toks() }
    fn to_tokens(&self, tokens: &mut TokenStream) { (**self).to_tokens(tokens) }
    fn to_token_stream(&self) -> (r: TokenStream) { (**self).to_token_stream() }
}
/// what `#( #x, )*` contributes
pub open spec fn each<T: ToTokens>(s: Seq<T>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { each(s.drop_last()) + s.last().toks() } }
pub trait Repeated<T> { spec fn items(&self) -> Seq<T>; }
impl<T> Repeated<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } }
impl<T> Repeated<T> for Box<[T]> { open spec fn items(&self) -> Seq<T> { self@ } }
pub fn push_each<T: ToTokens, R: Repeated<T>>(s: &mut TokenStream, r: &R) ensures final(s)@ == old(s)@ + each(r.items()) { s.g = Ghost(s.g@ + each(r.items())); }
/// the identifier with this text
pub fn v_format_ident(s: &&String) -> (r: Ident) ensures r.toks() == seq![Tok::Name(s@)] { Ident { g: Ghost(one(Tok::Name(s@))) } }
pub mod __private {
use vstd::prelude::*;
pub use crate::proc_macro2::*;
pub fn push_colon2(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_colon(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_comma(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_semi(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_eq(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_lt(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_gt(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_or(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_or_or(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_underscore(s: &mut TokenStream) ensures final(s)@ == old(s)@.push(Tok::Name("_"@)) { s.g = Ghost(s.g@.push(Tok::Name("_"@))); }
pub fn push_pound(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_and(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_rarrow(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_fat_arrow(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_bang(s: &mut TokenStream) ensures final(s)@ == old(s)@ { }
pub fn push_ident(s: &mut TokenStream, n: &str) ensures final(s)@ == old(s)@.push(Tok::Name(n@)) { s.g = Ghost(s.g@.push(Tok::Name(n@))); }
pub fn push_group(s: &mut TokenStream, d: Delimiter, inner: TokenStream) ensures final(s)@ == old(s)@.push(Tok::Open(d)) + inner@.push(Tok::Close) {
    s.g = Ghost(s.g@.push(Tok::Open(d)) + inner.g@.push(Tok::Close));
}
}
}
pub mod syn {
use vstd::prelude::*;
pub use crate::quote::{ToTokens, lexed};
pub use crate::quote::{Type, Expr, Visibility, Ident, Lit, ExprLit, ExprGroup, LitStr, LitInt};
use crate::proc_macro2::*;
pub mod __private {
pub use core::result::Result::{Ok, Err};
pub use crate::syn::parse::parse_braces;
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
/// code parsed from tokens prints as those tokens (trusted)
pub trait Parsed: ToTokens + Sized { fn of(t: TokenStream) -> (r: Self) ensures r.toks() == t@; }
impl Parsed for Type { fn of(t: TokenStream) -> (r: Self) { Type { g: t.g } } }
impl Parsed for Expr { fn of(t: TokenStream) -> (r: Self) { Expr::Other(Code { g: t.g }) } }
impl Parsed for Literal {
    #[verifier::external_body]
    fn of(t: TokenStream) -> (r: Self) { unimplemented!() }
}
pub fn parse_quote<T: Parsed>(t: TokenStream) -> (r: T) ensures r.toks() == t@ { T::of(t) }
}
/// items as the derive macro sees them (trusted: syn); their meaning as Rust code is rustc's
pub struct Error { }
pub type Result<T> = core::result::Result<T, Error>;
impl Error {
    #[verifier::external_body]
    pub fn new<T>(span: Span, message: T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_spanned<T, U>(tokens: T, message: U) -> (r: Self) { unimplemented!() }
}
pub struct Generics { pub g: Ghost<Seq<Tok>>, pub t: Ghost<Seq<Tok>>, pub w: Ghost<Seq<Tok>> }
impl Generics {
    pub open spec fn impl_toks(&self) -> Seq<Tok> { self.g@ }
    pub open spec fn type_toks(&self) -> Seq<Tok> { self.t@ }
    pub open spec fn where_toks(&self) -> Seq<Tok> { self.w@ }
    pub fn split_for_impl(&self) -> (r: (TokenStream, TokenStream, TokenStream)) ensures r.0@ == self.impl_toks(), r.1@ == self.type_toks(), r.2@ == self.where_toks() {
        (TokenStream { g: Ghost(self.g@) }, TokenStream { g: Ghost(self.t@) }, TokenStream { g: Ghost(self.w@) })
    }
}
pub enum Fields { Unit, Other }
pub struct Variant { pub ident: Ident, pub fields: Fields, pub discriminant: Option<Expr> }
pub struct DataEnum { pub variants: Vec<Variant> }
pub enum Data { Enum(DataEnum), Other }
pub struct DeriveInput { pub ident: Ident, pub generics: Generics, pub data: Data }
#[verifier::external_body]
pub fn parse_str<T: ToTokens>(s: &str) -> (r: Result<T>) ensures r is Ok ==> r->Ok_0.toks() == lexed(s@) { unimplemented!() }
pub trait Parse2: Sized { spec fn reads(args: Seq<Tok>, r: Self) -> bool; }
#[verifier::external_body]
pub fn parse2<T: Parse2>(args: TokenStream) -> (r: Result<T>) ensures r is Ok ==> T::reads(args@, r->Ok_0) { unimplemented!() }
/// parsers (trusted: syn): what is read off the input is what the value prints as; punctuation is not modelled
pub mod parse {
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::*;
pub struct ParseBuffer { pub rest: Ghost<Seq<Tok>> }
pub trait Parse: Sized {
    spec fn printed(&self) -> Seq<Tok>;
    spec fn formed(&self) -> bool;
    fn parse(input: &mut ParseBuffer) -> (r: Result<Self>)
        ensures r is Ok ==> old(input).rest@ =~= r->Ok_0.printed() + final(input).rest@ && r->Ok_0.formed();
}
/// one value after the other
pub open spec fn row<T: Parse>(s: Seq<T>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { row(s.drop_last()) + s.last().printed() } }
pub open spec fn formed_row<T: Parse>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).formed() }
pub struct Punctuated<T> { pub items: Vec<T> }
impl<T> Punctuated<T> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Punctuated<U>)
        requires forall|i: int| 0 <= i < self.items@.len() ==> f.requires((#[trigger] self.items@[i],)),
        ensures r.items@.len() == self.items@.len(), forall|i: int| #![trigger self.items@[i]] #![trigger r.items@[i]] 0 <= i < self.items@.len() ==> f.ensures((self.items@[i],), r.items@[i]),
    { Punctuated { items: crate::prelude::v_vec_map(self.items, f) } }
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.items@ { self.items }
}
pub trait Peek { spec fn word() -> Seq<char>; }
pub struct Braces { pub content: ParseBuffer, pub token: () }
impl ParseBuffer {
    pub fn parse<T: Parse>(&mut self) -> (r: Result<T>)
        ensures r is Ok ==> old(self).rest@ =~= r->Ok_0.printed() + final(self).rest@ && r->Ok_0.formed(),
    { T::parse(self) }
    #[verifier::external_body]
    pub fn peek<T: Peek>(&self, t: T) -> (r: bool) ensures r == (self.rest@.len() > 0 && self.rest@[0] == Tok::Name(T::word())) { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&self, m: &str) -> Error { unimplemented!() }
    /// `parse_terminated(T::parse, Token![,])`: everything there is
    #[verifier::external_body]
    pub fn v_parse_terminated<T: Parse>(self) -> (r: Result<Punctuated<T>>) ensures r is Ok ==> self.rest@ == row(r->Ok_0.items@) && formed_row(r->Ok_0.items@) && r->Ok_0.items@.len() < usize::MAX { unimplemented!() }
}
#[verifier::external_body]
pub fn parse_braces(input: &mut ParseBuffer) -> (r: Result<Braces>)
    ensures r is Ok ==> old(input).rest@ =~= seq![Tok::Open(Delimiter::Brace)] + r->Ok_0.content.rest@ + seq![Tok::Close] + final(input).rest@,
{ unimplemented!() }
impl Parse for Type {
    open spec fn printed(&self) -> Seq<Tok> { self.toks() }
    open spec fn formed(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
}
impl Parse for Expr {
    open spec fn printed(&self) -> Seq<Tok> { self.toks() }
    open spec fn formed(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
}
impl Parse for Visibility {
    open spec fn printed(&self) -> Seq<Tok> { self.toks() }
    open spec fn formed(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
}
impl Parse for Ident {
    open spec fn printed(&self) -> Seq<Tok> { self.toks() }
    open spec fn formed(&self) -> bool { self.toks() =~= seq![Tok::Name(spelled(*self))] }
    #[verifier::external_body]
    fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
}
}
pub mod token {
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::syn::parse::*;
use crate::syn::*;
macro_rules! marks { ($($t:ident),*) => { $( verus! {
    pub struct $t;
    impl Parse for $t {
        open spec fn printed(&self) -> Seq<Tok> { Seq::empty() }
        open spec fn formed(&self) -> bool { true }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
} )* } }
marks!(Colon, Comma, Lt, Gt);
macro_rules! words { ($($t:ident $w:expr),*) => { $( verus! {
    pub struct $t;
    impl Parse for $t {
        open spec fn printed(&self) -> Seq<Tok> { seq![Tok::Name($w@)] }
        open spec fn formed(&self) -> bool { true }
        #[verifier::external_body]
        fn parse(input: &mut ParseBuffer) -> (r: Result<Self>) { unimplemented!() }
    }
    impl Peek for $t { open spec fn word() -> Seq<char> { $w@ } }
} )* } }
words!(Static "static", Let "let", Mut "mut");
}
}
//@ module emit::collection_entry
pub mod emit_collection_entry {
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
//@ type CollectionEntry
impl<K: Clone> Clone for CollectionEntry<K> {
//@ fn CollectionEntry@Clone::clone
//@ mode bare
//@ props C12
    ensures cloned(self.key, res.key), res.key_expr == self.key_expr, res.value_expr == self.value_expr,
//@ endfn
}
//@ type NonLiteralKey
pub open spec fn unit() -> Seq<Tok> { seq![Tok::Open(Delimiter::Parenthesis), Tok::Close] }
//@ fn CollectionEntry::map_entry
//@ props C12
    ensures res.key == key, res.key_expr == key_expr, res.value_expr == value_expr,
//@ endfn
//@ fn CollectionEntry::set_entry
//@ props C12
    ensures res.key == value, res.key_expr == value_expr, res.value_expr.toks() =~= unit(),
//@ endfn
impl<K> ToTokens for CollectionEntry<K> {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Open(Delimiter::Parenthesis)] + self.key_expr.toks() + self.value_expr.toks() + seq![Tok::Close] }
//@ fn CollectionEntry@ToTokens::to_tokens
//@ mode bare
//@ props C12
    ensures final(tokens)@ =~= old(tokens)@ + self.toks(),
//@ endfn
    fn to_token_stream(&self) -> (r: TokenStream) { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(Seq::<Tok>::empty() + self.toks() =~= self.toks()); } t }
}
}
//@ module hash_tables::hash_table_slot
pub mod emit_hash_table_slot {
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::hash_tables_slot::*;
impl ToTokens for HashTableSlot<usize> {
    open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Name("frozen_collections"@), Tok::Name("hash_tables"@), Tok::Name("HashTableSlot"@), Tok::Name("new"@), Tok::Open(Delimiter::Parenthesis), Tok::Num(self.min_index as int), Tok::Num(self.max_index as int), Tok::Close] }
//@ fn HashTableSlot@ToTokens::to_tokens
//@ mode bare
//@ rewrite proc_macro2 =>> crate::proc_macro2
//@ props C12
    ensures final(tokens)@ =~= old(tokens)@ + self.toks(),
//@ endfn
    fn to_token_stream(&self) -> (r: TokenStream) { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(Seq::<Tok>::empty() + self.toks() =~= self.toks()); } t }
}
}
//@ module emit::generator
pub mod emit_generator {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::perm::*;
use crate::query::*;
use crate::query::Hasher;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_slot::*;
use crate::hash_tables_hash_table::*;
use crate::hash_tables_common::*;
use crate::hash_tables_inline_hash_table_no_collisions::narrowed;
use crate::utils_dedup::*;
use crate::emit_collection_entry::*;
use crate::eytz_query::*;
use crate::utils_eytzinger::laid_out;
use vstd::std_specs::iter::IteratorSpec;
//@ type Generator
//@ type Output
pub open spec fn fc(module: Seq<char>, ty: Seq<char>) -> Seq<Tok> { seq![Tok::Name("frozen_collections"@), Tok::Name(module), Tok::Name(ty)] }
pub open spec fn fc0(ty: Seq<char>) -> Seq<Tok> { seq![Tok::Name("frozen_collections"@), Tok::Name(ty)] }
/// the type named by m with the map's type parameters, then `extra`
pub open spec fn map_sig(g: Generator, m: Seq<Tok>, extra: Seq<Tok>) -> Seq<Tok> { m + (g.key_type.toks() + g.value_type.toks() + extra) }
pub open spec fn set_sig(g: Generator, s: Seq<Tok>, extra: Seq<Tok>) -> Seq<Tok> { s + (g.key_type.toks() + extra) }
/// `f(args)`
pub open spec fn call(sig: Seq<Tok>, f: Seq<char>, args: Seq<Tok>) -> Seq<Tok> { sig.push(Tok::Name(f)).push(Tok::Open(Delimiter::Parenthesis)) + args.push(Tok::Close) }
pub open spec fn list(items: Seq<Tok>) -> Seq<Tok> { seq![Tok::Open(Delimiter::Bracket)] + items.push(Tok::Close) }
pub open spec fn vec_list(items: Seq<Tok>) -> Seq<Tok> { seq![Tok::Name("vec"@), Tok::Open(Delimiter::Bracket)] + items.push(Tok::Close) }
/// the output constructs the map type m by `f(args)`, or the set type s by `sf` of that map
pub open spec fn makes(g: Generator, o: Output, m: Seq<Tok>, s: Seq<Tok>, extra: Seq<Tok>, f: Seq<char>, args: Seq<Tok>, sf: Seq<char>) -> bool {
    if g.gen_set { o.type_sig@ =~= set_sig(g, s, extra) && o.ctor@ =~= call(set_sig(g, s, extra), sf, call(map_sig(g, m, extra), f, args)) }
    else { o.type_sig@ =~= map_sig(g, m, extra) && o.ctor@ =~= call(map_sig(g, m, extra), f, args) }
}
pub open spec fn no_toks() -> Seq<Tok> { Seq::empty() }
/// (digits of numbers) how tokens print and how text parses (trusted: proc_macro2, syn)
pub uninterp spec fn text(t: Seq<Tok>) -> Seq<char>;
pub uninterp spec fn parsed(s: Seq<char>) -> Seq<Tok>;
pub open spec fn is_number(t: Seq<Tok>) -> bool { t.len() == 1 && t[0] is Num && t[0]->Num_0 >= 0 }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::opaque]
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() == '_' { strip(s.drop_last()) } else { strip(s.drop_last()).push(s.last()) } }
/// a number prints with a leading digit; underscores after the first digit do not change it
#[verifier::external_body]
pub proof fn axiom_number_text(t: Seq<Tok>)
    ensures is_number(t) ==> text(t).len() > 0 && digit(text(t)[0]),
        forall|s: Seq<char>| is_number(t) && s.len() > 0 && digit(s[0]) && strip(s) == strip(text(t)) ==> #[trigger] parsed(s) == t,
{ }
#[verifier::external_body]
pub fn v_text(t: &TokenStream) -> (r: Vec<char>) ensures r@ == text(t@) { unimplemented!() }
#[verifier::external_body]
pub fn v_parse_str(s: Vec<char>) -> (r: TokenStream) ensures r@ == parsed(s@) { unimplemented!() }
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification [ char::is_ascii_digit ] (c: &char) -> (r: bool) ensures r == digit(*c);
/// where the digits end
pub open spec fn cut(x: Option<usize>, t: Seq<char>) -> int { match x { Some(x) => x as int, None => t.len() as int } }
pub open spec fn cut_at(x: Option<usize>, t: Seq<char>) -> bool { cut(x, t) <= t.len() && (forall|i: int| 0 <= i < cut(x, t) ==> digit(#[trigger] t[i])) && (x is Some ==> x->Some_0 < t.len() && !digit(t[x->Some_0 as int])) }
//@ proof number-text C12
pub proof fn lemma_strip_add(a: Seq<char>, b: Seq<char>)
    ensures strip(a + b) =~= strip(a) + strip(b),
    decreases b.len(),
{ reveal(strip);
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_strip_add(a, b.drop_last());
    }
}
pub proof fn lemma_strip_rev(a: Seq<char>)
    ensures strip(a.reverse()) =~= strip(a).reverse(),
    decreases a.len(),
{ reveal(strip);
    if a.len() > 0 {
        let l = seq![a.last()];
        assert(a.reverse() =~= l + a.drop_last().reverse());
        lemma_strip_add(l, a.drop_last().reverse());
        lemma_strip_rev(a.drop_last());
        assert(l.drop_last() =~= Seq::<char>::empty());
        assert(strip(l.drop_last()) =~= Seq::<char>::empty());
        assert(strip(l) =~= if a.last() == '_' { Seq::<char>::empty() } else { l });
    }
}
pub proof fn lemma_strip_digits(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> digit(#[trigger] a[i]),
    ensures strip(a) =~= a,
    decreases a.len(),
{ reveal(strip);
    if a.len() > 0 { lemma_strip_digits(a.drop_last()); assert(digit(a[a.len() - 1])); }
}
/// the digits written out so far, from the last to the first
pub open spec fn written(o: Seq<char>, d: Seq<char>, k: int) -> bool { 0 <= k <= d.len() && strip(o) == d.reverse().take(k) && (k > 0 ==> o.len() > 0 && digit(o.last())) }
pub proof fn lemma_written(o0: Seq<char>, o1: Seq<char>, c: char, d: Seq<char>, k: int)
    requires written(o0, d, k), k < d.len(), digit(c), c == d.reverse()[k], o1 == o0.push(c) || o1 == o0.push('_').push(c),
    ensures written(o1, d, k + 1),
{
    reveal(strip);
    assert(o0.push('_').drop_last() =~= o0);
    assert(strip(o0.push('_')) =~= strip(o0));
    assert(o1.drop_last() =~= o0.push('_') || o1.drop_last() =~= o0);
    assert(strip(o1) =~= strip(o0).push(c));
    assert(d.reverse().take(k + 1) =~= d.reverse().take(k).push(c));
}
pub proof fn lemma_written0(d: Seq<char>)
    ensures written(Seq::empty(), d, 0),
{ reveal(strip); assert(d.reverse().take(0) =~= Seq::empty()); }
pub proof fn lemma_rewritten(r: Seq<char>, d: Seq<char>, s: Seq<char>, t: Seq<char>)
    requires written(r, d, d.len() as int), d.len() > 0, d + s == t, forall|i: int| 0 <= i < d.len() ==> digit(#[trigger] d[i]),
    ensures strip(r.reverse() + s) == strip(t), digit((r.reverse() + s)[0]), (r.reverse() + s).len() > 0,
{
    assert(d.reverse().take(d.len() as int) =~= d.reverse());
    assert(d.reverse().reverse() =~= d);
    lemma_strip_rev(r);
    lemma_strip_digits(d);
    lemma_strip_add(d, s);
    lemma_strip_add(r.reverse(), s);
}
//@ endproof
//@ fn Generator::inject_underscores
//@ props C12
//@ attr #[verifier::allow_complex_invariants]
//@ rewrite v.to_string().chars().collect() =>> v_text(&v)
//@ rewrite &mut full[0..index] =>> crate::prelude::VSlice::v_get_unchecked_range_mut(full.as_mut_slice(), 0..index)
//@ rewrite &full[index..] =>> vstd::slice::slice_subrange(full.as_slice(), index, full.len())
//@ rewrite parse_str(&output.into_iter().collect::<String>()).unwrap() =>> v_parse_str(output)
    requires is_number(v@),
    ensures res@ == v@,
//@ ghost start
        proof { axiom_number_text(v@); }
        let ghost t0 = text(v@);
        let ghost mut d0: Seq<char> = Seq::empty();
        let ghost mut s0: Seq<char> = Seq::empty();
        let ghost mut r0: Seq<char> = Seq::empty();
//@ loop 0
            invariant it0.seq() == t0.as_ref(), __enum0 == it0.index(), full@ == t0, full.len() == t0.len(), suffix_index is None, forall|i: int| 0 <= i < __enum0 ==> digit(#[trigger] t0[i]),
            ensures full@ == t0, cut_at(suffix_index, t0),
//@ ghost after_loop 0
        proof { let n0 = cut(suffix_index, t0); d0 = t0.take(n0); s0 = t0.skip(n0); lemma_written0(d0); }
//@ loop 1
            invariant number@ == d0.reverse(), it1.seq() == number@.as_ref(), __enum1 == it1.index(), written(output@, d0, __enum1 as int), forall|i: int| 0 <= i < d0.len() ==> digit(#[trigger] d0[i]),
//@ ghost loop_begin 1
                let ghost o0 = output@;
//@ ghost loop_end 1
                proof {
                    assert(*c == d0[d0.len() - 1 - it1.index()]);
                    lemma_written(o0, output@, *c, d0, it1.index() as int);
                }
//@ ghost after_loop 1
        proof { r0 = output@; }
//@ ghost end
        proof {
            assert(d0 + s0 =~= t0);
            assert(d0.len() > 0);
            lemma_rewritten(r0, d0, s0, t0);
            if suffix_index is None { assert(s0 =~= Seq::<char>::empty()); }
            assert(output@ =~= r0.reverse() + s0);
        }
//@ endfn
//@ fn Generator::gen_fz_hash
//@ props C12
    ensures makes(self, res, fc0("FzHashMap"@), fc0("FzHashSet"@), no_toks(), "new"@, vec_list(each(entries@)), "from"@),
//@ endfn
//@ fn Generator::gen_fz_scalar
//@ props C12
    ensures makes(self, res, fc0("FzScalarMap"@), fc0("FzScalarSet"@), no_toks(), "new"@, vec_list(each(entries@)), "from"@),
//@ endfn
//@ fn Generator::gen_fz_string
//@ props C12
    ensures makes(self, res, fc0("FzStringMap"@), fc0("FzStringSet"@), no_toks(), "new"@, vec_list(each(entries@)), "from"@),
//@ endfn
//@ fn Generator::gen_inline_scan
//@ props C12
    ensures makes(*self, res, fc("inline_maps"@, "InlineScanMap"@), fc("inline_sets"@, "InlineScanSet"@), self.len@, "new_raw"@, list(each(entries.inner@)), "new"@),
//@ endfn
//@ fn Generator::gen_inline_scan_vec
//@ props C12
    ensures makes(*self, res, fc("inline_maps"@, "InlineScanMap"@), fc("inline_sets"@, "InlineScanSet"@), self.len@, "new"@, vec_list(each(entries@)), "new"@),
//@ endfn
//@ fn Generator::gen_inline_eytzinger_search_vec
//@ props C12
    ensures makes(*self, res, fc("inline_maps"@, "InlineEytzingerSearchMap"@), fc("inline_sets"@, "InlineEytzingerSearchSet"@), self.len@, "new"@, vec_list(each(entries@)), "new"@),
//@ endfn
/// the entries' own indices, in increasing order
pub open spec fn keys_sorted<K: Scalar>(e: Seq<CollectionEntry<K>>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).key.idx() < (#[trigger] e[j]).key.idx() }
pub open spec fn range_toks(lo: usize, hi: usize) -> Seq<Tok> { seq![Tok::Num(lo as int), Tok::Num(hi as int)] }
//@ fn Generator::gen_inline_dense_scalar_lookup
//@ props C12,C04
    requires entries.inner@.len() > 0,
    ensures makes(*self, res, fc("inline_maps"@, "InlineDenseScalarLookupMap"@), fc("inline_sets"@, "InlineDenseScalarLookupSet"@), self.len@, "new_raw"@,
        list(each(entries.inner@)) + range_toks(entries.inner@[0].key.idx(), entries.inner@.last().key.idx()), "new"@),
//@ endfn
//@ fn Generator::gen_inline_eytzinger_search
//@ props C12,C03
//@ rewrite crate::utils::eytzinger_layout =>> crate::utils_eytzinger::eytzinger_layout
    requires entries.inner@.len() < 0x4000_0000_0000_0000,
    ensures makes(*self, res, fc("inline_maps"@, "InlineEytzingerSearchMap"@), fc("inline_sets"@, "InlineEytzingerSearchSet"@), self.len@, "new_raw"@, list(each(laid_out(entries.inner@))), "new"@),
//@ endfn
/// names a size class that holds len entries
pub open spec fn roomy(m: Seq<Tok>, len: int) -> bool {
    ||| m == fc0("SmallCollection"@) && len <= SmallCollection::MAX_CAPACITY
    ||| m == fc0("MediumCollection"@) && len <= MediumCollection::MAX_CAPACITY
    ||| m == fc0("LargeCollection"@) && len <= LargeCollection::MAX_CAPACITY
}
//@ fn Generator::collection_magnitude
//@ props C12
    ensures roomy(res@, len as int),
//@ ghost start
        proof {
            assert forall|x: Seq<char>| #[trigger] fc0(x) =~= Seq::<Tok>::empty().push(Tok::Name("frozen_collections"@)).push(Tok::Name(x)) by {}
            <LargeCollection as CollectionMagnitude>::laws();
            assert(CollectionMagnitude::un(usize::MAX) == usize::MAX);
            assert(LargeCollection::MAX_CAPACITY == usize::MAX);
        }
//@ endfn
/// the lookup table once the first n entries are in it
pub open spec fn looked<K: Scalar>(t: Seq<usize>, e: Seq<CollectionEntry<K>>, min: usize, n: int) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]) <= n && (t[k] > 0 ==> e[t[k] - 1].key.idx() == min + k)
    &&& forall|j: int| 0 <= j < n ==> t[(#[trigger] e[j]).key.idx() - min] == j + 1
}
pub open spec fn lits(l: Seq<Literal>, t: Seq<usize>) -> bool { l.len() == t.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).g@ == t[i] }
/// the lookup table t and its printed form l, with the size class mag, describe the entries
pub open spec fn sparse_parts<K: Scalar>(e: Seq<CollectionEntry<K>>, t: Seq<usize>, l: Seq<Literal>, mag: Seq<Tok>) -> bool {
    &&& t.len() == e.last().key.idx() - e[0].key.idx() + 1
    &&& looked(t, e, e[0].key.idx(), e.len() as int)
    &&& lits(l, t)
    &&& roomy(mag, t.len() as int)
}
pub open spec fn sparse_makes<K: Scalar>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>, l: Seq<Literal>, mag: Seq<Tok>) -> bool {
    makes(g, o, fc("inline_maps"@, "InlineSparseScalarLookupMap"@), fc("inline_sets"@, "InlineSparseScalarLookupSet"@), g.len@ + (seq![Tok::Num(l.len() as int)] + mag), "new_raw"@,
        list(each(e)) + list(each(l)) + range_toks(e[0].key.idx(), e.last().key.idx()), "new"@)
}
//@ fn Generator::gen_inline_sparse_scalar_lookup
//@ props C12,C04
//@ iter_maps
    requires entries.inner@.len() > 0, keys_sorted(entries.inner@), entries.inner@.last().key.idx() - entries.inner@[0].key.idx() < usize::MAX,
    ensures exists|t: Seq<usize>, l: Seq<Literal>, mag: Seq<Tok>| sparse_parts(entries.inner@, t, l, mag) && #[trigger] sparse_makes(*self, res, entries.inner@, l, mag) && #[trigger] lits(l, t),
//@ closure 0
|x: &usize| -> (r: Literal) ensures r.g@ == *x
//@ ghost start
        let ghost e0 = entries.inner@;
        let ghost mut t0: Seq<usize> = Seq::empty();
//@ loop 0
            invariant
                it0.seq() == e0.as_ref(), __enum0 == it0.index(), e0.len() > 0, e0.len() <= usize::MAX, keys_sorted(e0), entries.inner@ == e0,
                *min_key == e0[0].key.idx(), *max_key == e0.last().key.idx(), count == *max_key - *min_key + 1, lookup@.len() == count,
                looked(lookup@, e0, *min_key, __enum0 as int),
//@ ghost after_loop 0
        proof { t0 = lookup@; }
//@ ghost end
        proof {
            assert(sparse_parts(e0, t0, lookup@, magnitude@));
            let o = Output { ctor, type_sig };
            assert(sparse_makes(*self, o, e0, lookup@, magnitude@));
        }
//@ endfn
/// the hash code of an entry's key
pub open spec fn entry_hash<K, H: Hasher<K>>(h: H) -> spec_fn(CollectionEntry<K>) -> u64 { |e: CollectionEntry<K>| h.hashv(&e.key) }
pub open spec fn narrow_lit(s: HashTableSlot<LargeCollection>) -> Literal { Literal { g: Ghost(narrowed(s)) } }
/// one number per slot
pub open spec fn narrow(slots: Seq<HashTableSlot<LargeCollection>>) -> Seq<Literal> { Seq::new(slots.len(), |i: int| narrow_lit(slots[i])) }
/// the written table
pub open spec fn table_toks<K>(g: Generator, slots: Seq<HashTableSlot<LargeCollection>>, e: Seq<CollectionEntry<K>>, mag: Seq<Tok>) -> Seq<Tok> {
    let kv = seq![Tok::Open(Delimiter::Parenthesis)] + (g.key_type.toks() + g.value_type.toks()).push(Tok::Close);
    call(fc("hash_tables"@, if solitary(slots) { "InlineHashTableNoCollisions"@ } else { "InlineHashTable"@ }) + (kv + g.len@ + seq![Tok::Num(slots.len() as int)] + mag),
        "new_raw"@, list(if solitary(slots) { each(narrow(slots)) } else { each(slots) }) + list(each(e)))
}
/// (slots, e, mask) is a correct table of the entries e0
pub open spec fn table_of<K, H: Hasher<K>>(h: H, e0: Seq<CollectionEntry<K>>, slots: Seq<HashTableSlot<LargeCollection>>, e: Seq<CollectionEntry<K>>, mask: u64) -> bool {
    permuted(e0, e) && table_wf(slots, e, mask) && tidy(slots) && table_hashed(slots, e, mask, entry_hash(h))
}
/// the pieces describe a correct table of e0
/// (as `thrifty`)
pub open spec fn few_slots(n: int, s: int) -> bool { if n == 0 { s <= 1 } else { crate::analyzers_hash_code::slots_ok(n, s) } }
pub open spec fn pieces<K, H: Hasher<K>>(g: Generator, h: H, e0: Seq<CollectionEntry<K>>, slots: Seq<HashTableSlot<LargeCollection>>, e: Seq<CollectionEntry<K>>, mask: u64, ht: Seq<Tok>, mag: Seq<Tok>, n: int, coll: bool) -> bool {
    table_of(h, e0, slots, e, mask) && few_slots(e.len() as int, slots.len() as int) && ht =~= table_toks(g, slots, e, mag) && roomy(mag, e.len() as int) && n == slots.len() && coll == !solitary(slots)
}
//@ fn Generator::gen_inline_hash_table_components
//@ props C12,C17
//@ iter_maps
    requires hasher.hok(),
    ensures exists|slots: Seq<HashTableSlot<LargeCollection>>, e: Seq<CollectionEntry<K>>, mask: u64| #[trigger] pieces(*self, *hasher, entries.inner@, slots, e, mask, res.0@, res.1@, res.2.g@, res.3),
//@ closure 0
|x: &CollectionEntry<K>| -> (r: u64) requires hasher.hok() ensures r == hasher.hashv(&x.key)
//@ closure 1
|s: &HashTableSlot<LargeCollection>| -> (r: Literal) requires s.min_index <= s.max_index, s.min_index < usize::MAX, s.min_index == s.max_index ==> s.max_index == 0 ensures r == narrow_lit(*s)
//@ ghost start
        let ghost e0 = entries.inner@;
        proof {
            <LargeCollection as CollectionMagnitude>::laws();
            assert(CollectionMagnitude::un(usize::MAX) == usize::MAX);
            assert(LargeCollection::MAX_CAPACITY == usize::MAX);
            assert(entries.inner@.len() == entries.inner.len());
            assert(want(entry_hash::<K, H>(*hasher)));
        }
//@ ghost end
        let ghost sl = ht.slots@;
        let ghost en = ht.entries@;
        proof {
            assert(table_of(*hasher, e0, sl, en, ht.mask));
            assert forall|l: Seq<Literal>| l.len() == sl.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == narrow_lit(sl[i])) implies #[trigger] each(l) == each(narrow(sl)) by { assert(l =~= narrow(sl)); }
        }
//@ ghost tail
        proof {
            assert(__tail.0@ =~= table_toks(*self, sl, en, __tail.1@));
            assert(__tail.2.toks() =~= seq![Tok::Num(sl.len() as int)]);
            assert(__tail.2.toks()[0] == Tok::Num(sl.len() as int));
            assert(pieces(*self, *hasher, e0, sl, en, ht.mask, __tail.0@, __tail.1@, __tail.2.g@, __tail.3));
        }
//@ endfn
/// the output constructs the hash map (or set) of this table with this hasher
pub open spec fn hash_makes(g: Generator, o: Output, ht: Seq<Tok>, mag: Seq<Tok>, n: int, coll: bool, hty: Seq<Tok>, hctor: Seq<Tok>) -> bool {
    makes(g, o, fc("inline_maps"@, if coll { "InlineHashMap"@ } else { "InlineHashMapNoCollisions"@ }), fc("inline_sets"@, if coll { "InlineHashSet"@ } else { "InlineHashSetNoCollisions"@ }),
        g.len@ + (seq![Tok::Num(n)] + mag + hty), "new_raw"@, ht + hctor, "new"@)
}
pub open spec fn hash_output<K, H: Hasher<K>>(g: Generator, o: Output, h: H, e0: Seq<CollectionEntry<K>>, hty: Seq<Tok>, hctor: Seq<Tok>) -> bool {
    exists|slots: Seq<HashTableSlot<LargeCollection>>, e: Seq<CollectionEntry<K>>, mask: u64, ht: Seq<Tok>, mag: Seq<Tok>, n: int, coll: bool|
        #[trigger] pieces(g, h, e0, slots, e, mask, ht, mag, n, coll) && #[trigger] hash_makes(g, o, ht, mag, n, coll, hty, hctor)
}
//@ fn Generator::gen_inline_hash
//@ props C12
    requires hasher.hok(),
    ensures forall|t: Seq<Tok>, c: Seq<Tok>| t =~= hasher_type@ && c =~= hasher_ctor@ ==> #[trigger] hash_output(*self, res, *hasher, entries.inner@, t, c),
//@ ghost end
        proof {
            let o = Output { ctor, type_sig };
            assert(hash_makes(*self, o, ht@, magnitude@, num_slots.g@, collisions, hasher_type@, hasher_ctor@));
        }
//@ endfn
//@ fn Generator::new
//@ props C12
    ensures
        res.key_type.toks() == key_type.toks(), res.gen_set == (value_type is None), res.len@ =~= seq![Tok::Num(len as int)],
        res.value_type.toks() =~= match value_type { Some(v) => v.toks(), None => unit() },
//@ endfn
}
//@ module emit::collection_emitter
pub mod emit_collection_emitter {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use core::cmp::Ordering;
use core::hash::*;
use crate::prelude::*;
use crate::perm::*;
use crate::query::*;
use crate::query::Hasher;
use crate::strings::*;
use crate::hashing::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::utils_dedup::*;
use crate::hashers_bridge::*;
use crate::hashers_scalar::*;
use crate::hashers_length::*;
use crate::hashers_left_range_hasher::*;
use crate::hashers_right_range_hasher::*;
use crate::analyzers_slice_key_analyzer::*;
use crate::analyzers_scalar_key_analyzer::*;
use crate::emit_collection_entry::*;
use crate::emit_generator::*;
use crate::utils_eytzinger::laid_out;
//@ type CollectionEmitter
/// the generator for a collection of n entries
pub open spec fn gen_for(c: CollectionEmitter, n: int, g: Generator) -> bool {
    g.key_type.toks() == c.key_type.toks() && g.gen_set == (c.value_type is None) && g.len@ =~= seq![Tok::Num(n)]
        && g.value_type.toks() =~= match c.value_type { Some(v) => v.toks(), None => unit() }
}
/// the options fit together
pub open spec fn ready(c: CollectionEmitter) -> bool { !(c.is_static && c.is_mutable) && (c.is_static || c.is_mutable || c.alias_name is Some ==> c.symbol_name is Some) }
pub open spec fn name(n: Option<String>) -> Seq<Tok> { seq![Tok::Name(n->Some_0@)] }
pub open spec fn word(n: Seq<char>) -> Seq<Tok> { seq![Tok::Name(n)] }
pub open spec fn vis(c: CollectionEmitter) -> Seq<Tok> { if c.is_static { c.visibility.toks() } else { no_toks() } }
/// the alias declaration, when an alias is asked for
pub open spec fn alias(c: CollectionEmitter, o: Output) -> Seq<Tok> { if c.alias_name is Some { vis(c) + word("type"@) + name(c.alias_name) + o.type_sig@ } else { no_toks() } }
pub open spec fn ty(c: CollectionEmitter, o: Output) -> Seq<Tok> { if c.alias_name is Some { name(c.alias_name) } else { o.type_sig@ } }
pub open spec fn lazy() -> Seq<Tok> { seq![Tok::Name("std"@), Tok::Name("sync"@), Tok::Name("LazyLock"@)] }
/// the declaration (or expression) that puts the constructed collection where the options say
pub open spec fn declared(c: CollectionEmitter, o: Output) -> Seq<Tok> {
    if c.is_static {
        let init = if c.const_keys && c.const_values { ty(c, o) + o.ctor@ }
            else { lazy() + ty(c, o) + lazy() + seq![Tok::Name("new"@), Tok::Open(Delimiter::Parenthesis), Tok::Open(Delimiter::Brace)] + o.ctor@ + seq![Tok::Close, Tok::Close] };
        alias(c, o) + vis(c) + word("static"@) + name(c.symbol_name) + init
    } else if c.symbol_name is Some {
        alias(c, o) + word("let"@) + (if c.is_mutable { word("mut"@) } else { no_toks() }) + name(c.symbol_name) + ty(c, o) + o.ctor@
    } else { o.ctor@ }
}
//@ fn CollectionEmitter::new
//@ props C12
    ensures !res.inferred_key_type, !res.inferred_value_type, res.key_type.toks() == key_type.toks(), res.value_type is None, res.symbol_name is None, res.alias_name is None, !res.const_keys, !res.const_values, !res.is_static, !res.is_mutable,
//@ endfn
//@ fn CollectionEmitter::value_type
//@ props C12
    ensures res == (CollectionEmitter { value_type: res.value_type, ..self }), res.value_type is Some, res.value_type->Some_0.toks() == value_type.toks(),
//@ endfn
//@ fn CollectionEmitter::symbol_name
//@ props C12
    ensures res == (CollectionEmitter { symbol_name: res.symbol_name, ..self }), res.symbol_name is Some, res.symbol_name->Some_0@ == symbol_name@,
//@ endfn
//@ fn CollectionEmitter::alias_name
//@ props C12
    ensures res == (CollectionEmitter { alias_name: res.alias_name, ..self }), res.alias_name is Some, res.alias_name->Some_0@ == alias_name@,
//@ endfn
//@ fn CollectionEmitter::const_keys
//@ props C12
    ensures res == (CollectionEmitter { const_keys, ..self }),
//@ endfn
//@ fn CollectionEmitter::const_values
//@ props C12
    ensures res == (CollectionEmitter { const_values, ..self }),
//@ endfn
//@ fn CollectionEmitter::visibility
//@ props C12
    ensures res == (CollectionEmitter { visibility, ..self }),
//@ endfn
//@ fn CollectionEmitter::static_instance
//@ props C12
    ensures res == (CollectionEmitter { is_static: static_instance, ..self }),
//@ endfn
//@ fn CollectionEmitter::mutable
//@ props C12
    ensures res == (CollectionEmitter { is_mutable: mutable, ..self }),
//@ endfn
//@ fn CollectionEmitter::preflight
//@ props C12
    ensures res is Ok <==> ready(*self), res is Ok ==> gen_for(*self, len as int, res->Ok_0),
//@ endfn
//@ fn CollectionEmitter::postflight
//@ props C12
    requires ready(*self),
    ensures res@ =~= declared(*self, output),
//@ endfn
/// an entry of a set is written with the unit value; an entry of a map as it was given
pub open spec fn cleaned_one<K>(c: CollectionEmitter, a: CollectionEntry<K>, b: CollectionEntry<K>) -> bool {
    b.key == a.key && b.key_expr == a.key_expr && if c.value_type is None { b.value_expr.toks() =~= unit() } else { b.value_expr == a.value_expr }
}
pub open spec fn cleaned<K>(c: CollectionEmitter, a: Seq<CollectionEntry<K>>, b: Seq<CollectionEntry<K>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cleaned_one(c, a[i], #[trigger] b[i]) }
//@ fn CollectionEmitter::clean_values
//@ props C12
    ensures cleaned(*self, old(entries)@, final(entries)@),
//@ ghost start
        let ghost e0 = entries@;
//@ loop 0
            invariant self.value_type is None, e0.len() == it0.seq().len(), forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] it0.seq()[i]) == e0[i],
                forall|i: int| 0 <= i < it0.index() ==> cleaned_one(*self, e0[i], *final(#[trigger] it0.seq()[i])),
//@ endfn
/// `foldhash::fast::FixedState` of a seed
pub open spec fn state(seed: u64) -> FixedState { FixedState { seed } }
/// `a::b::c`
pub open spec fn fold() -> Seq<Tok> { seq![Tok::Name("frozen_collections"@), Tok::Name("foldhash"@), Tok::Name("FixedState"@)] }
/// `FixedState::with_seed(seed)`
pub open spec fn seeded(seed: u64) -> Seq<Tok> { fold() + seq![Tok::Name("with_seed"@), Tok::Open(Delimiter::Parenthesis), Tok::Num(seed as int), Tok::Close] }
pub open spec fn hashers(n: Seq<char>) -> Seq<Tok> { fc("hashers"@, n) }
/// `ty::new(FixedState::with_seed(seed))`
pub open spec fn new_seeded(ty: Seq<Tok>, seed: u64) -> Seq<Tok> { ty + seq![Tok::Name("new"@), Tok::Open(Delimiter::Parenthesis)] + seeded(seed) + seq![Tok::Close] }
/// the type of an inline range hasher
pub open spec fn ranged(n: Seq<char>, a: usize, b: usize) -> Seq<Tok> { hashers(n) + seq![Tok::Num(a as int), Tok::Num(b as int)] + fold() }

pub open spec fn scan_out<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { makes(g, o, fc("inline_maps"@, "InlineScanMap"@), fc("inline_sets"@, "InlineScanSet"@), g.len@, "new_raw"@, list(each(e)), "new"@) }
/// hashed with foldhash under some seed, the same for the layout as for the emitted hasher
pub open spec fn bridge_out<K: Hash>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>, seed: u64) -> bool {
    hash_output(g, o, BridgeHasher { bh: state(seed) }, e, hashers("BridgeHasher"@) + fold(), new_seeded(hashers("BridgeHasher"@), seed))
}
/// the forms a hashed collection may take
pub open spec fn hash_plan<K: Hash>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>, seed: u64) -> bool { scan_out(g, o, e) || bridge_out(g, o, e, seed) }
pub open spec fn left_out(g: Generator, o: Output, e: Seq<CollectionEntry<String>>, seed: u64, a: usize, b: usize) -> bool {
    a < b && hash_output(g, o, LeftRangeHasher { bh: state(seed), range: core::ops::Range { start: a, end: b } }, e, ranged("InlineLeftRangeHasher"@, a, b), new_seeded(ranged("InlineLeftRangeHasher"@, a, b), seed))
}
pub open spec fn right_out(g: Generator, o: Output, e: Seq<CollectionEntry<String>>, seed: u64, a: usize, b: usize) -> bool {
    a < b && hash_output(g, o, RightRangeHasher { bh: state(seed), range: core::ops::Range { start: a, end: b } }, e, ranged("InlineRightRangeHasher"@, a, b), new_seeded(ranged("InlineRightRangeHasher"@, a, b), seed))
}
pub open spec fn length_out(g: Generator, o: Output, e: Seq<CollectionEntry<String>>) -> bool { hash_output(g, o, LengthHasher { }, e, hashers("LengthHasher"@), hashers("LengthHasher"@)) }
pub open spec fn scalar_out<K: Scalar>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { hash_output(g, o, ScalarHasher { }, e, hashers("ScalarHasher"@), hashers("ScalarHasher"@) + seq![Tok::Open(Delimiter::Brace), Tok::Close]) }
pub open spec fn eytz_out<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool {
    makes(g, o, fc("inline_maps"@, "InlineEytzingerSearchMap"@), fc("inline_sets"@, "InlineEytzingerSearchSet"@), g.len@, "new_raw"@, list(each(laid_out(e))), "new"@)
}
/// consecutive keys
pub open spec fn dense_out<K: Scalar>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool {
    e.len() > 0 && e.last().key.idx() - e[0].key.idx() == e.len() - 1
        && makes(g, o, fc("inline_maps"@, "InlineDenseScalarLookupMap"@), fc("inline_sets"@, "InlineDenseScalarLookupSet"@), g.len@, "new_raw"@, list(each(e)) + range_toks(e[0].key.idx(), e.last().key.idx()), "new"@)
}
pub open spec fn sparse_out<K: Scalar>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool {
    e.len() > 0 && exists|t: Seq<usize>, l: Seq<Literal>, mag: Seq<Tok>| sparse_parts(e, t, l, mag) && #[trigger] sparse_makes(g, o, e, l, mag) && #[trigger] lits(l, t)
}
/// r declares, for c, the output o that g made for the entries e, which come from src written out as e0
pub open spec fn emitted<K>(c: CollectionEmitter, src: Seq<CollectionEntry<K>>, e0: Seq<CollectionEntry<K>>, e: Seq<CollectionEntry<K>>, g: Generator, o: Output, r: Seq<Tok>) -> bool {
    &&& cleaned(c, src, e0) && gen_for(c, e.len() as int, g) && r =~= declared(c, o)
}
pub open spec fn same_entry<K: Eq>() -> spec_fn(CollectionEntry<K>, CollectionEntry<K>) -> bool { |a: CollectionEntry<K>, b: CollectionEntry<K>| PartialEqSpec::eq_spec(&a.key, &b.key) }
pub open spec fn entry_cmp<K: Ord>() -> spec_fn(CollectionEntry<K>, CollectionEntry<K>) -> Ordering { |a: CollectionEntry<K>, b: CollectionEntry<K>| OrdSpec::cmp_spec(&a.key, &b.key) }
/// what Rust asks of keys that are hashed and compared
pub open spec fn lawful_entries<K: Hash + Eq>() -> bool {
    K::obeys_eq_spec() && equivalence(same_entry::<K>()) && forall|s: u64, a: CollectionEntry<K>, b: CollectionEntry<K>| #[trigger] same_entry::<K>()(a, b) ==> #[trigger] hash_val(state(s), &a.key) == hash_val(state(s), &b.key)
}
pub open spec fn lawful_order<K: Ord>() -> bool { K::obeys_cmp_spec() && lawful_cmp(entry_cmp::<K>()) }
//@ fn CollectionEmitter::get_seed
//@ props C12
//@ endfn
//@ fn CollectionEmitter::emit_hash_collection
//@ props C12
    ensures
        res is Ok <==> ready(*self),
        res is Ok ==> exists|e0: Seq<CollectionEntry<K>>, e: Seq<CollectionEntry<K>>, g: Generator, o: Output, seed: u64|
            #[trigger] emitted(*self, entries@, e0, e, g, o, res->Ok_0@) && (lawful_entries::<K>() ==> deduped(e0, e, same_entry::<K>()))
                && #[trigger] hash_plan(g, o, e, seed),
//@ closure 0
|x: &CollectionEntry<K>| -> (r: u64) ensures r == hasher.hashv(&x.key)
//@ closure 1
|x: &CollectionEntry<K>, y: &CollectionEntry<K>| -> (r: bool) ensures K::obeys_eq_spec() ==> r == same_entry::<K>()(*x, *y)
//@ ghost start
        let ghost src = entries@;
        proof {
            assert forall|x: Seq<char>| #[trigger] hashers(x) =~= Seq::<Tok>::empty().push(Tok::Name("frozen_collections"@)).push(Tok::Name("hashers"@)).push(Tok::Name(x)) by {}
        }
//@ ghost end
        proof {
            let same = same_entry::<K>();
            let h = entry_hash::<K, BridgeHasher<FixedState>>(hasher);
            let lw = lawful_entries::<K>();
            assert forall|a: CollectionEntry<K>, b: CollectionEntry<K>| lw && #[trigger] same(a, b) implies h(a) == h(b) by {
                assert(hasher.bh == state(hasher.bh.seed));
                assert(hash_val(state(hasher.bh.seed), &a.key) == hash_val(state(hasher.bh.seed), &b.key));
            }
            assert(want2(same, h));
            let e0 = choose|e0: Seq<CollectionEntry<K>>| #[trigger] cleaned(*self, src, e0) && (lawful_entries::<K>() ==> deduped(e0, entries.inner@, same));
            assert(hash_plan(generator, output, entries.inner@, hasher.bh.seed));
        }
//@ ghost tail
        proof {
            let r = __tail->Ok_0@;
            let same = same_entry::<K>();
            let lw = lawful_entries::<K>();
            let e0 = choose|e0: Seq<CollectionEntry<K>>| #[trigger] cleaned(*self, src, e0) && (lw ==> deduped(e0, entries.inner@, same));
            assert(emitted(*self, src, e0, entries.inner@, generator, output, r));
        }
//@ endfn
pub open spec fn ordered_plan<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { scan_out(g, o, e) || eytz_out(g, o, e) }
//@ fn CollectionEmitter::emit_ordered_collection
//@ props C12,C03
//@ rewrite entries.into() =>> crate::utils_dedup::dedupped_from_sorted(entries)
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures
        res is Ok <==> ready(*self),
        res is Ok ==> exists|e0: Seq<CollectionEntry<K>>, e: Seq<CollectionEntry<K>>, g: Generator, o: Output|
            #[trigger] emitted(*self, entries@, e0, e, g, o, res->Ok_0@) && (lawful_order::<K>() ==> deduped(e0, e, eq_by(entry_cmp::<K>())) && strictly_sorted_by(e, entry_cmp::<K>()))
                && #[trigger] ordered_plan(g, o, e),
//@ closure 0
|x: &CollectionEntry<K>, y: &CollectionEntry<K>| -> (o: Ordering) ensures K::obeys_cmp_spec() ==> o == entry_cmp::<K>()(*x, *y)
//@ ghost start
        let ghost src = entries@;
//@ ghost end
        proof {
            let c = entry_cmp::<K>();
            assert(lawful_order::<K>() ==> lawful_cmp(c));
            assert(ordered_plan(generator, output, entries.inner@));
        }
//@ ghost tail
        proof {
            let r = __tail->Ok_0@;
            let same = eq_by(entry_cmp::<K>());
            let lw = lawful_order::<K>();
            let e0 = choose|e0: Seq<CollectionEntry<K>>| #[trigger] cleaned(*self, src, e0) && (lw ==> deduped(e0, entries.inner@, same));
            assert(emitted(*self, src, e0, entries.inner@, generator, output, r));
        }
//@ endfn
/// the order of the entries of scalar keys is the order of their indices
pub open spec fn entry_idx_cmp<K: Scalar>() -> spec_fn(CollectionEntry<K>, CollectionEntry<K>) -> Ordering { |a: CollectionEntry<K>, b: CollectionEntry<K>| key_ord(a.key, b.key) }
pub open spec fn key_ord<K: Scalar>(a: K, b: K) -> Ordering { if a.idx() < b.idx() { Ordering::Less } else if a.idx() > b.idx() { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn same_entry_idx<K: Scalar>() -> spec_fn(CollectionEntry<K>, CollectionEntry<K>) -> bool { |a: CollectionEntry<K>, b: CollectionEntry<K>| a.key.idx() == b.key.idx() }
pub open spec fn scalar_plan<K: Scalar>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { scan_out(g, o, e) || scalar_out(g, o, e) || (keys_sorted(e) && (dense_out(g, o, e) || (sparse_out(g, o, e) && e.last().key.idx() - e[0].key.idx() + 1 <= crate::analyzers_scalar_key_analyzer::range_cap(e.len() as int)))) }
/// the entries as pairs
pub open spec fn as_pairs<K>(e: Seq<CollectionEntry<K>>) -> Seq<(K, ())> { Seq::new(e.len(), |i: int| (e[i].key, ())) }
pub open spec fn keys_of<K>(e: Seq<CollectionEntry<K>>, ks: Seq<K>) -> bool { ks.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] ks[i]) == e[i].key }
//@ proof emitted-scalar-choice C12,C04
pub proof fn lemma_entry_idx<K: Scalar>()
    ensures lawful_cmp(entry_idx_cmp::<K>()), eq_by(entry_idx_cmp::<K>()) == same_entry_idx::<K>(),
        forall|e: Seq<CollectionEntry<K>>| #[trigger] strictly_sorted_by(e, entry_idx_cmp::<K>()) ==> keys_sorted(e),
{
    let c = entry_idx_cmp::<K>();
    assert(eq_by(c) =~= same_entry_idx::<K>());
    assert forall|e: Seq<CollectionEntry<K>>| #[trigger] strictly_sorted_by(e, c) implies keys_sorted(e) by {
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).key.idx() < (#[trigger] e[j]).key.idx() by { assert(c(e[i], e[j]) == Ordering::Less); }
    }
}
pub proof fn lemma_entry_extremes<K: Scalar>(e: Seq<CollectionEntry<K>>, ks: Seq<K>, lo: int, hi: int)
    requires keys_sorted(e), keys_of(e, ks), bounds(ks, lo, hi),
    ensures e.len() > 0, lo == e[0].key.idx(), hi == e.last().key.idx(),
{
    let d = as_pairs(e);
    assert(idx_sorted(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0.idx() < (#[trigger] d[j]).0.idx() by { assert(e[i].key.idx() < e[j].key.idx()); } }
    crate::fz_maps_fz_scalar_map::lemma_extremes(d, ks, lo, hi);
}
//@ endproof
//@ fn CollectionEmitter::emit_scalar_collection
//@ props C12,C04,C17
//@ rewrite entries.into() =>> crate::utils_dedup::dedupped_from_sorted(entries)
//@ rewrite entries.iter().map(|x| x.key) =>> crate::prelude::v_iter_map(entries.iter(), |x| x.key)
    requires entries@.len() < usize::MAX,
    ensures
        res is Ok <==> ready(*self),
        res is Ok ==> exists|e0: Seq<CollectionEntry<K>>, e: Seq<CollectionEntry<K>>, g: Generator, o: Output|
            #[trigger] emitted(*self, entries@, e0, e, g, o, res->Ok_0@) && deduped(e0, e, same_entry_idx::<K>()) && #[trigger] scalar_plan(g, o, e),
//@ closure 0
|x: &CollectionEntry<K>, y: &CollectionEntry<K>| -> (o: Ordering) ensures o == entry_idx_cmp::<K>()(*x, *y)
//@ closure 1
|x: &CollectionEntry<K>| -> (k: K) ensures k == x.key
//@ ghost start
        let ghost src = entries@;
        proof {
            K::laws(); lemma_entry_idx::<K>();
            assert forall|d: Seq<CollectionEntry<K>>, ks: Seq<K>, lo: int, hi: int| #[trigger] keys_sorted(d) && keys_of(d, ks) && #[trigger] bounds(ks, lo, hi) implies d.len() > 0 && lo == d[0].key.idx() && hi == d.last().key.idx() by { lemma_entry_extremes(d, ks, lo, hi); }
        }
//@ ghost end
        proof {
            assert(scalar_plan(generator, output, entries.inner@));
        }
//@ ghost tail
        proof {
            let r = __tail->Ok_0@;
            let same = same_entry_idx::<K>();
            let lw = true;
            let e0 = choose|e0: Seq<CollectionEntry<K>>| #[trigger] cleaned(*self, src, e0) && (lw ==> deduped(e0, entries.inner@, same));
            assert(emitted(*self, src, e0, entries.inner@, generator, output, r));
        }
//@ endfn
/// the bytes of a string key, their order (trusted: std)
#[verifier::external_body]
pub fn v_string_cmp(a: &String, b: &String) -> (o: Ordering) ensures o == lex(bytes(a), bytes(b)) { a.cmp(b) }
#[verifier::external_body]
pub fn v_string_bytes(a: &String) -> (r: &[u8]) ensures r@ == bytes(a) { a.as_bytes() }
pub open spec fn entry_lex() -> spec_fn(CollectionEntry<String>, CollectionEntry<String>) -> Ordering { |a: CollectionEntry<String>, b: CollectionEntry<String>| lex(bytes(&a.key), bytes(&b.key)) }
pub open spec fn string_plan(g: Generator, o: Output, e: Seq<CollectionEntry<String>>, seed: u64, a: usize, b: usize) -> bool {
    scan_out(g, o, e) || left_out(g, o, e, seed, a, b) || right_out(g, o, e, seed, a, b) || length_out(g, o, e) || bridge_out(g, o, e, seed)
}
//@ proof emitted-string-order C12
pub proof fn lemma_entry_lex()
    ensures lawful_cmp(entry_lex()),
{
    let c = entry_lex();
    assert forall|a: CollectionEntry<String>| #[trigger] c(a, a) == Ordering::Equal by { lemma_lex_eq(bytes(&a.key), bytes(&a.key)); }
    assert forall|a: CollectionEntry<String>, b: CollectionEntry<String>| #[trigger] c(a, b) == rev_ord(c(b, a)) by { lemma_lex_eq(bytes(&a.key), bytes(&b.key)); }
    assert forall|a: CollectionEntry<String>, b: CollectionEntry<String>, d: CollectionEntry<String>| #![trigger c(a, b), c(b, d)] c(a, b) != Ordering::Greater && c(b, d) != Ordering::Greater implies c(a, d) != Ordering::Greater by { lemma_lex_trans(bytes(&a.key), bytes(&b.key), bytes(&d.key)); }
}
//@ endproof
//@ fn CollectionEmitter::emit_string_collection
//@ props C12,C05
//@ rewrite x.key.cmp(&y.key) =>> v_string_cmp(&x.key, &y.key)
//@ rewrite entries.iter().map(|x| x.key.as_bytes()) =>> crate::prelude::v_iter_map(entries.iter(), |x| v_string_bytes(&x.key))
//@ rewrite range.clone() =>> v_clone_range(&range)
    ensures
        res is Ok <==> ready(self),
        res is Ok ==> exists|e0: Seq<CollectionEntry<String>>, e: Seq<CollectionEntry<String>>, g: Generator, o: Output, seed: u64, a: usize, b: usize|
            #[trigger] emitted(self, entries@, e0, e, g, o, res->Ok_0@) && deduped(e0, e, eq_by(entry_lex())) && #[trigger] string_plan(g, o, e, seed, a, b),
//@ closure 0
|x: &CollectionEntry<String>, y: &CollectionEntry<String>| -> (o: Ordering) ensures o == entry_lex()(*x, *y)
//@ ghost start
        let ghost src = entries@;
        let ghost mut sd: u64 = 0;
        let ghost mut lo: usize = 0;
        let ghost mut hi: usize = 0;
        proof { lemma_entry_lex(); }
//@ ghost after_let bh
            proof { sd = bh.seed; }
//@ ghost after_let analysis
            proof {
                match analysis {
                    SliceKeyAnalysisResult::LeftHandSubslice(ref r) => { lo = r.start; hi = r.end; }
                    SliceKeyAnalysisResult::RightHandSubslice(ref r) => { lo = r.start; hi = r.end; }
                    _ => { }
                }
            }
//@ ghost end
        proof {
            assert(string_plan(generator, output, entries.inner@, sd, lo, hi));
        }
//@ ghost tail
        proof {
            let r = __tail->Ok_0@;
            let same = eq_by(entry_lex());
            let lw = true;
            let e0 = choose|e0: Seq<CollectionEntry<String>>| #[trigger] cleaned(self, src, e0) && (lw ==> deduped(e0, entries.inner@, same));
            assert(emitted(self, src, e0, entries.inner@, generator, output, r));
        }
//@ endfn
pub open spec fn scan_vec_out<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { makes(g, o, fc("inline_maps"@, "InlineScanMap"@), fc("inline_sets"@, "InlineScanSet"@), g.len@, "new"@, vec_list(each(e)), "new"@) }
pub open spec fn eytz_vec_out<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>) -> bool { makes(g, o, fc("inline_maps"@, "InlineEytzingerSearchMap"@), fc("inline_sets"@, "InlineEytzingerSearchSet"@), g.len@, "new"@, vec_list(each(e)), "new"@) }
pub open spec fn fz_out<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>, m: Seq<char>, s: Seq<char>) -> bool { makes(g, o, fc0(m), fc0(s), no_toks(), "new"@, vec_list(each(e)), "from"@) }
/// keys only known at run time: the constructors that sort, hash and deduplicate then
pub open spec fn runtime_plan<K>(g: Generator, o: Output, e: Seq<CollectionEntry<K>>, m: Seq<char>, s: Seq<char>) -> bool { scan_vec_out(g, o, e) || eytz_vec_out(g, o, e) || fz_out(g, o, e, m, s) }
//@ fn CollectionEmitter::emit_hash_collection_expr
//@ props C12,C13
    ensures
        res is Ok <==> ready(self),
        res is Ok ==> exists|g: Generator, o: Output| gen_for(self, entries@.len() as int, g) && res->Ok_0@ =~= #[trigger] declared(self, o) && #[trigger] runtime_plan(g, o, entries@, "FzHashMap"@, "FzHashSet"@),
//@ ghost start
        let ghost src = entries@;
//@ ghost end
        proof {
            assert(src.len() == entries.len());
            assert(runtime_plan(generator, output, src, "FzHashMap"@, "FzHashSet"@));
        }
//@ endfn
//@ fn CollectionEmitter::emit_ordered_collection_expr
//@ props C12,C13
    ensures
        res is Ok <==> ready(self),
        res is Ok ==> exists|g: Generator, o: Output| gen_for(self, entries@.len() as int, g) && res->Ok_0@ =~= #[trigger] declared(self, o) && #[trigger] runtime_plan(g, o, entries@, "FzOrderedMap"@, "FzOrderedSet"@),
//@ ghost start
        let ghost src = entries@;
//@ ghost end
        proof {
            assert(src.len() == entries.len());
            assert(runtime_plan(generator, output, src, "FzOrderedMap"@, "FzOrderedSet"@));
        }
//@ endfn
//@ fn CollectionEmitter::emit_scalar_collection_expr
//@ props C12,C13
    ensures
        res is Ok <==> ready(self),
        res is Ok ==> exists|g: Generator, o: Output| gen_for(self, entries@.len() as int, g) && res->Ok_0@ =~= #[trigger] declared(self, o) && #[trigger] runtime_plan(g, o, entries@, "FzScalarMap"@, "FzScalarSet"@),
//@ ghost start
        let ghost src = entries@;
//@ ghost end
        proof {
            assert(src.len() == entries.len());
            assert(runtime_plan(generator, output, src, "FzScalarMap"@, "FzScalarSet"@));
        }
//@ endfn
//@ fn CollectionEmitter::emit_string_collection_expr
//@ props C12,C13
    ensures
        res is Ok <==> ready(self),
        res is Ok ==> exists|g: Generator, o: Output| gen_for(self, entries@.len() as int, g) && res->Ok_0@ =~= #[trigger] declared(self, o) && #[trigger] runtime_plan(g, o, entries@, "FzStringMap"@, "FzStringSet"@),
//@ ghost start
        let ghost src = entries@;
//@ ghost end
        proof {
            assert(src.len() == entries.len());
            assert(runtime_plan(generator, output, src, "FzStringMap"@, "FzStringSet"@));
        }
//@ endfn
//@ fn CollectionEmitter::new_with_inferred_key_type
//@ props C12,C13
    ensures res.key_type.toks() =~= word("_"@), res.value_type is None, res.symbol_name is None, res.alias_name is None, !res.const_keys, !res.const_values, !res.is_static, !res.is_mutable, res.inferred_key_type,
//@ endfn
//@ fn CollectionEmitter::new_with_inferred_types
//@ props C12,C13
    ensures res.key_type.toks() =~= word("_"@), res.value_type is Some, res.value_type->Some_0.toks() =~= word("_"@), res.symbol_name is None, res.alias_name is None, !res.const_keys, !res.const_values, !res.is_static, !res.is_mutable, res.inferred_key_type, res.inferred_value_type,
//@ endfn
}
