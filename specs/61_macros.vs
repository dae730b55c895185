//@ module macros::derive_scalar_macro
pub mod macros_derive_scalar_macro {
use vstd::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::*;
use crate::syn;
/// what the parsed item declares (trusted: syn)
pub uninterp spec fn item(args: Seq<Tok>) -> DeriveInput;
impl crate::syn::Parse2 for DeriveInput { open spec fn reads(args: Seq<Tok>, r: Self) -> bool { r == item(args) } }
/// `name::variant => i` for every variant, in order of declaration
pub open spec fn arm(name: Ident, v: Variant, i: int) -> Seq<Tok> { name.toks() + v.ident.toks() + seq![Tok::Num(i)] }
pub open spec fn arms(name: Ident, vs: Seq<Variant>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { arms(name, vs, n - 1) + arm(name, vs[n - 1], n - 1) } }
pub open spec fn in_braces(t: Seq<Tok>) -> Seq<Tok> { seq![Tok::Open(Delimiter::Brace)] + t.push(Tok::Close) }
/// `impl Scalar for name { fn index(&self) -> usize { match self { arms } } }`
pub open spec fn derived(d: DeriveInput, vs: Seq<Variant>) -> Seq<Tok> {
    seq![Tok::Open(Delimiter::Bracket), Tok::Name("automatically_derived"@), Tok::Close, Tok::Name("impl"@)] + d.generics.impl_toks()
        + seq![Tok::Name("frozen_collections"@), Tok::Name("Scalar"@), Tok::Name("for"@)] + d.ident.toks() + d.generics.type_toks() + d.generics.where_toks()
        + in_braces(seq![Tok::Name("fn"@), Tok::Name("index"@), Tok::Open(Delimiter::Parenthesis), Tok::Name("self"@), Tok::Close, Tok::Name("usize"@)]
            + in_braces(seq![Tok::Name("match"@), Tok::Name("self"@)] + in_braces(arms(d.ident, vs, vs.len() as int))))
}
//@ fn derive_scalar_macro
//@ props C13
//@ rewrite v.fields != Fields::Unit =>> !matches!(v.fields, Fields::Unit)
    ensures
        res is Ok ==> item(args@).data is Enum && res->Ok_0@ =~= derived(item(args@), item(args@).data->Enum_0.variants@),
        res is Ok ==> forall|i: int| 0 <= i < item(args@).data->Enum_0.variants@.len() ==> (#[trigger] item(args@).data->Enum_0.variants@[i]).discriminant is None,
//@ loop 0
            invariant it0.seq() == variants.variants@.as_ref(), forall|i: int| 0 <= i < it0.index() ==> (#[trigger] variants.variants@[i]).discriminant is None,
//@ ghost loop_begin 0
            proof { assert(*it0.seq()[it0.index() as int] == variants.variants@[it0.index() as int]); }
//@ loop 1
            invariant it1.seq() == variants.variants@.as_ref(), *name == input.ident, matches@.len() == it1.index(), each(matches@) =~= arms(input.ident, variants.variants@, it1.index() as int),
//@ ghost loop_begin 1
            let ghost m0 = matches@;
            let ghost k = it1.index() as int;
            proof { assert(*it1.seq()[k] == variants.variants@[k]); }
//@ ghost loop_end 1
            proof {
                assert(matches@.drop_last() =~= m0);
                assert(each(matches@) == each(m0) + matches@.last()@);
                assert(matches@.last()@ =~= arm(input.ident, variants.variants@[k], k));
                assert(each(matches@) =~= arms(input.ident, variants.variants@, k + 1));
            }
//@ endfn
}
//@ module macros::parsing::entry
pub mod macros_entry {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
//@ type Entry
/// `key: value`
impl Parse for Entry {
    open spec fn printed(&self) -> Seq<Tok> { self.key.toks() + self.value->Some_0.toks() }
    open spec fn formed(&self) -> bool { self.value is Some }
//@ fn Entry@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::payload
pub mod macros_payload {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_entry::*;
use crate::macros_long_form_set::SetEntry;
//@ type Payload
pub open spec fn braced(t: Seq<Tok>) -> Seq<Tok> { seq![Tok::Open(Delimiter::Brace)] + t + seq![Tok::Close] }
/// the keys, one after the other
pub open spec fn keys(s: Seq<Entry>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { keys(s.drop_last()) + s.last().key.toks() } }
/// `{ key: value, .. }`
pub open spec fn of_map(p: Payload) -> Seq<Tok> { braced(row(p.entries@)) }
pub open spec fn valued(p: Payload) -> bool { formed_row(p.entries@) && p.entries@.len() < usize::MAX }
/// `{ key, .. }`
pub open spec fn of_set(p: Payload) -> Seq<Tok> { braced(keys(p.entries@)) }
pub open spec fn unvalued(p: Payload) -> bool { p.entries@.len() < usize::MAX && forall|i: int| 0 <= i < p.entries@.len() ==> (#[trigger] p.entries@[i]).value is None }
pub open spec fn keyed(s: Seq<SetEntry>, e: Seq<Entry>) -> bool { s.len() == e.len() && forall|i: int| #![trigger s[i]] #![trigger e[i]] 0 <= i < s.len() ==> e[i].key == s[i].value }
//@ proof macro-set-keys C12
pub proof fn lemma_keys(s: Seq<SetEntry>, e: Seq<Entry>)
    requires keyed(s, e),
    ensures row(s) == keys(e),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1] && e.last() == e[e.len() - 1]);
        lemma_keys(s.drop_last(), e.drop_last());
    }
}
pub proof fn lemma_all_keys()
    ensures forall|s: Seq<SetEntry>, e: Seq<Entry>| #![trigger row(s), keys(e)] keyed(s, e) ==> row(s) == keys(e),
{
    assert forall|s: Seq<SetEntry>, e: Seq<Entry>| #![trigger row(s), keys(e)] keyed(s, e) implies row(s) == keys(e) by { lemma_keys(s, e); }
}
//@ endproof
//@ fn parse_map_payload
//@ props C12
//@ rewrite input : syn :: parse :: ParseStream =>> input : & mut ParseBuffer
//@ rewrite :: syn :: __private :: parse_braces(& input) =>> parse_braces(input)
//@ rewrite content.parse_terminated(Entry :: parse , :: syn :: token :: Comma) =>> content.v_parse_terminated::<Entry>()
    ensures res is Ok ==> old(input).rest@ =~= of_map(res->Ok_0) + final(input).rest@ && valued(res->Ok_0),
//@ endfn
//@ fn parse_set_payload
//@ props C12
//@ rewrite input : syn :: parse :: ParseStream =>> input : & mut ParseBuffer
//@ rewrite :: syn :: __private :: parse_braces(& input) =>> parse_braces(input)
//@ rewrite content.parse_terminated(SetEntry :: parse , :: syn :: token :: Comma) =>> content.v_parse_terminated::<SetEntry>()
    ensures res is Ok ==> old(input).rest@ =~= of_set(res->Ok_0) + final(input).rest@ && unvalued(res->Ok_0),
//@ closure 0
|x: SetEntry| -> (e: Entry) ensures e.key == x.value, e.value is None
//@ ghost start
        proof { lemma_all_keys(); }
//@ endfn
}
//@ module macros::parsing::long_form_set
pub mod macros_long_form_set {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
//@ type LongFormSet
pub open spec fn named(m: LongFormSet) -> bool { m.var_name.toks() =~= seq![Tok::Name(spelled(m.var_name))] && m.type_name.toks() =~= seq![Tok::Name(spelled(m.type_name))] && unvalued(m.payload) }
//@ type SetEntry
impl Parse for SetEntry {
    open spec fn printed(&self) -> Seq<Tok> { self.value.toks() }
    open spec fn formed(&self) -> bool { true }
//@ fn SetEntry@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
/// `name: Alias<Value>, { value, .. }`
impl Parse for LongFormSet {
    open spec fn printed(&self) -> Seq<Tok> { self.var_name.toks() + self.type_name.toks() + self.value_type.toks() + of_set(self.payload) }
    open spec fn formed(&self) -> bool { named(*self) && !self.is_mutable }
//@ fn LongFormSet@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::long_form_map
pub mod macros_long_form_map {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
//@ type LongFormMap
pub open spec fn named(m: LongFormMap) -> bool { m.var_name.toks() =~= seq![Tok::Name(spelled(m.var_name))] && m.type_name.toks() =~= seq![Tok::Name(spelled(m.type_name))] && valued(m.payload) }
/// `name: Alias<Key, Value>, { key: value, .. }`
impl Parse for LongFormMap {
    open spec fn printed(&self) -> Seq<Tok> { self.var_name.toks() + self.type_name.toks() + self.key_type.toks() + self.value_type.toks() + of_map(self.payload) }
    open spec fn formed(&self) -> bool { named(*self) && !self.is_mutable }
//@ fn LongFormMap@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::short_form_set
pub mod macros_short_form_set {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
//@ type ShortFormSet
impl Parse for ShortFormSet {
    open spec fn printed(&self) -> Seq<Tok> { of_set(self.payload) }
    open spec fn formed(&self) -> bool { unvalued(self.payload) }
//@ fn ShortFormSet@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::short_form_map
pub mod macros_short_form_map {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
//@ type ShortFormMap
impl Parse for ShortFormMap {
    open spec fn printed(&self) -> Seq<Tok> { of_map(self.payload) }
    open spec fn formed(&self) -> bool { valued(self.payload) }
//@ fn ShortFormMap@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::set
pub mod macros_set {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
use crate::macros_long_form_set::*;
use crate::macros_short_form_set::*;
//@ type Set
impl crate::syn::Parse2 for Set { open spec fn reads(args: Seq<Tok>, r: Self) -> bool { args =~= r.printed() && r.formed() } }
/// how the declaration starts
pub open spec fn start(s: LongFormSet) -> Seq<Tok> { s.visibility.toks() + if s.is_static { seq![Tok::Name("static"@)] } else if s.is_mutable { seq![Tok::Name("let"@), Tok::Name("mut"@)] } else { seq![Tok::Name("let"@)] } }
impl Parse for Set {
    open spec fn printed(&self) -> Seq<Tok> { match self { Set::Long(s) => start(*s) + s.printed(), Set::Short(s) => s.printed() } }
    open spec fn formed(&self) -> bool { match self { Set::Long(s) => named(*s) && !(s.is_static && s.is_mutable) && (s.visibility is Inherited || s.is_static), Set::Short(s) => s.formed() } }
//@ fn Set@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : syn :: parse :: ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::parsing::map
pub mod macros_map {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::parse::*;
use crate::syn::*;
use crate::syn;
use crate::macros_payload::*;
use crate::macros_long_form_map::*;
use crate::macros_short_form_map::*;
//@ type Map
impl crate::syn::Parse2 for Map { open spec fn reads(args: Seq<Tok>, r: Self) -> bool { args =~= r.printed() && r.formed() } }
/// how the declaration starts
pub open spec fn start(m: LongFormMap) -> Seq<Tok> { m.visibility.toks() + if m.is_static { seq![Tok::Name("static"@)] } else if m.is_mutable { seq![Tok::Name("let"@), Tok::Name("mut"@)] } else { seq![Tok::Name("let"@)] } }
impl Parse for Map {
    open spec fn printed(&self) -> Seq<Tok> { match self { Map::Long(m) => start(*m) + m.printed(), Map::Short(m) => m.printed() } }
    open spec fn formed(&self) -> bool { match self { Map::Long(m) => named(*m) && !(m.is_static && m.is_mutable) && (m.visibility is Inherited || m.is_static), Map::Short(m) => m.formed() } }
//@ fn Map@Parse::parse
//@ mode bare
//@ props C12
//@ rewrite input : syn :: parse :: ParseStream =>> input : & mut ParseBuffer
//@ endfn
}
}
//@ module macros::processor
pub mod macros_processor {
use vstd::prelude::*;
use core::cmp::Ordering;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::perm::*;
use crate::query::*;
use crate::strings::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::*;
use crate::syn;
use crate::macros_entry::*;
use crate::macros_payload::*;
use crate::emit_collection_entry::*;
use crate::emit_generator::*;
use crate::emit_collection_emitter::*;
//@ type MacroKind eq
//@ type ScalarType eq
//@ type DiscoveredKeyKind eq
//@ type EffectiveKeyKind
/// the suffix a type is written with
pub open spec fn suffix_of(t: ScalarType) -> Seq<char> {
    match t {
        ScalarType::I8 => "i8"@, ScalarType::I16 => "i16"@, ScalarType::I32 => "i32"@, ScalarType::I64 => "i64"@, ScalarType::ISize => "isize"@,
        ScalarType::U8 => "u8"@, ScalarType::U16 => "u16"@, ScalarType::U32 => "u32"@, ScalarType::U64 => "u64"@, ScalarType::USize => "usize"@,
        ScalarType::Undecided => ""@,
    }
}
/// what a literal is
pub open spec fn kind_of(l: Lit, k: DiscoveredKeyKind) -> bool {
    match k { DiscoveredKeyKind::LiteralString => l is Str, DiscoveredKeyKind::LiteralScalar(t) => l is Int && lit_suffix(l->Int_0.g@) == suffix_of(t), DiscoveredKeyKind::Expression => false }
}
/// the literal a key is, if it is one
pub open spec fn literal(e: Expr) -> Option<Lit> {
    match e { Expr::Lit(l) => Some(l.lit), Expr::Group(g) => match *g.expr { Expr::Lit(l) => Some(l.lit), _ => None }, _ => None }
}
pub open spec fn key_is(e: Expr, k: DiscoveredKeyKind) -> bool { match literal(e) { Some(l) => kind_of(l, k), None => k is Expression } }
//@ fn eval_literal_expr
//@ props C12
    ensures res is Ok ==> kind_of(expr.lit, res->Ok_0),
//@ endfn
/// every key is an integer literal, without a suffix or with t's; some key has t's suffix unless t is undecided
pub open spec fn all_ints(e: Seq<Entry>, t: ScalarType) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> int_key(#[trigger] e[i], t)
    &&& t != ScalarType::Undecided ==> exists|i: int| 0 <= i < e.len() && #[trigger] typed_key(e[i], t)
}
pub open spec fn typed_key(x: Entry, t: ScalarType) -> bool { key_is(x.key, DiscoveredKeyKind::LiteralScalar(t)) }
pub open spec fn int_key(x: Entry, t: ScalarType) -> bool { typed_key(x, t) || typed_key(x, ScalarType::Undecided) }
pub open spec fn text_key(x: Entry) -> bool { key_is(x.key, DiscoveredKeyKind::LiteralString) }
pub open spec fn expr_key(x: Entry) -> bool { literal(x.key) is None }
/// the way the entries are handled fits the macro and the keys
pub open spec fn assessed(e: Seq<Entry>, m: MacroKind, k: EffectiveKeyKind) -> bool {
    match k {
        EffectiveKeyKind::AllLiteralScalars(t) => m != MacroKind::String && all_ints(e, t),
        EffectiveKeyKind::AllLiteralStrings => m != MacroKind::Scalar && forall|i: int| 0 <= i < e.len() ==> text_key(#[trigger] e[i]),
        EffectiveKeyKind::LiteralAndExpressionScalars => m != MacroKind::String && forall|i: int| 0 <= i < e.len() ==> !text_key(#[trigger] e[i]),
        EffectiveKeyKind::LiteralAndExpressionStrings => m != MacroKind::Scalar,
        EffectiveKeyKind::Hashed => m == MacroKind::Hashed && forall|i: int| 0 <= i < e.len() ==> expr_key(#[trigger] e[i]),
        EffectiveKeyKind::Ordered => m == MacroKind::Ordered && forall|i: int| 0 <= i < e.len() ==> expr_key(#[trigger] e[i]),
    }
}
/// what has been counted over the entries seen
pub open spec fn counted(e: Seq<Entry>, scalars: int, strings: int, t: ScalarType, m: MacroKind) -> bool {
    &&& 0 <= scalars <= e.len() && 0 <= strings <= e.len()
    &&& scalars == e.len() ==> forall|i: int| 0 <= i < e.len() ==> int_key(#[trigger] e[i], t)
    &&& strings == e.len() ==> forall|i: int| 0 <= i < e.len() ==> text_key(#[trigger] e[i])
    &&& strings == 0 ==> forall|i: int| 0 <= i < e.len() ==> !text_key(#[trigger] e[i])
    &&& scalars == 0 && strings == 0 ==> forall|i: int| 0 <= i < e.len() ==> expr_key(#[trigger] e[i])
    &&& scalars > 0 ==> m != MacroKind::String
    &&& strings > 0 ==> m != MacroKind::Scalar
    &&& t != ScalarType::Undecided ==> exists|i: int| 0 <= i < e.len() && #[trigger] typed_key(e[i], t)
}
//@ fn assess_keys
//@ props C12
    requires entries@.len() > 0,
    ensures res is Ok ==> assessed(entries@, macro_kind, res->Ok_0),
//@ loop 0
    invariant
        it0.seq().len() == entries@.len(),
        forall|i: int| 0 <= i < entries@.len() ==> *(#[trigger] it0.seq()[i]) == entries@[i],
        num_scalars <= it0.index(), num_strings <= it0.index(),
        counted(entries@.take(it0.index()), num_scalars as int, num_strings as int, scalar_type, macro_kind),
//@ ghost loop_begin 0
        let ghost before = entries@.take(it0.index());
        let ghost x = entries@[it0.index()];
        proof { assert(entries@.len() == entries.len()); }
        let ghost (sc, st, ty) = (num_scalars as int, num_strings as int, scalar_type);
        proof { assert(*entry == x); assert(entries@.take(it0.index() + 1) =~= before.push(x)); }
//@ ghost loop_end 0
        proof {
            let after = before.push(x);
            assert(after.last() == x);
            assert forall|i: int| 0 <= i < before.len() implies after[i] == #[trigger] before[i] by { }
            if scalar_type != ScalarType::Undecided {
                if ty != ScalarType::Undecided {
                    let i = choose|i: int| 0 <= i < before.len() && #[trigger] typed_key(before[i], ty);
                    assert(typed_key(after[i], scalar_type));
                } else { assert(typed_key(after[before.len() as int], scalar_type)); }
            }
            assert(counted(after, num_scalars as int, num_strings as int, scalar_type, macro_kind));
        }
//@ ghost end
        proof { assert(entries@.take(entries@.len() as int) =~= entries@); }
//@ endfn
/// the value an entry comes with
pub open spec fn value_of(x: Entry) -> Seq<Tok> { match x.value { Some(v) => v.toks(), None => unit() } }
/// the entry as it was written
pub open spec fn plain<K>(x: Entry, c: CollectionEntry<K>) -> bool { c.key_expr == x.key && c.value_expr.toks() =~= value_of(x) }
/// an entry with a number for a key: the key that is analysed and the key that is written out are that number
pub open spec fn number_entry<K>(x: Entry, c: CollectionEntry<K>, suffix: Seq<char>) -> bool {
    &&& c.value_expr.toks() =~= value_of(x) && number(c.key) == lit_number(x.key.toks()) && lit_number(c.key_expr.toks()) == number(c.key)
    &&& if suffix.len() == 0 { c.key_expr == x.key } else { lit_suffix(x.key.toks()).len() == 0 ==> lit_suffix(c.key_expr.toks()) == suffix }
}
/// an entry with a text for a key
pub open spec fn text_entry(x: Entry, c: CollectionEntry<String>) -> bool { plain(x, c) && c.key@ == lit_text(x.key.toks()) }
pub open spec fn plains<K>(xs: Seq<Entry>, src: Seq<CollectionEntry<K>>) -> bool { src.len() == xs.len() && forall|i: int| 0 <= i < src.len() ==> plain(xs[i], #[trigger] src[i]) }
pub open spec fn numbers<K>(xs: Seq<Entry>, src: Seq<CollectionEntry<K>>, suffix: Seq<char>) -> bool { src.len() == xs.len() && forall|i: int| 0 <= i < src.len() ==> number_entry(xs[i], #[trigger] src[i], suffix) }
pub open spec fn texts(xs: Seq<Entry>, src: Seq<CollectionEntry<String>>) -> bool { src.len() == xs.len() && forall|i: int| 0 <= i < src.len() ==> text_entry(xs[i], #[trigger] src[i]) }
pub open spec fn consts(c: CollectionEmitter, k: bool) -> CollectionEmitter { CollectionEmitter { const_keys: k, const_values: k, ..c } }
/// what the macros make of number keys, text keys, and keys only known at run time
pub open spec fn scalar_result<K: Scalar + Ord>(c: CollectionEmitter, xs: Seq<Entry>, suffix: Seq<char>, r: Seq<Tok>) -> bool {
    exists|src: Seq<CollectionEntry<K>>, e0: Seq<CollectionEntry<K>>, e: Seq<CollectionEntry<K>>, g: Generator, o: Output|
        #[trigger] emitted(consts(c, true), src, e0, e, g, o, r) && numbers(xs, src, suffix) && deduped(e0, e, same_entry_idx::<K>()) && #[trigger] scalar_plan(g, o, e)
}
pub open spec fn string_result(c: CollectionEmitter, xs: Seq<Entry>, r: Seq<Tok>) -> bool {
    exists|src: Seq<CollectionEntry<String>>, e0: Seq<CollectionEntry<String>>, e: Seq<CollectionEntry<String>>, g: Generator, o: Output, seed: u64, a: usize, b: usize|
        #[trigger] emitted(consts(c, true), src, e0, e, g, o, r) && texts(xs, src) && deduped(e0, e, eq_by(entry_lex())) && #[trigger] string_plan(g, o, e, seed, a, b)
}
pub open spec fn runtime_result(c: CollectionEmitter, xs: Seq<Entry>, m: Seq<char>, s: Seq<char>, r: Seq<Tok>) -> bool {
    exists|src: Seq<CollectionEntry<NonLiteralKey>>, g: Generator, o: Output|
        #[trigger] plains(xs, src) && gen_for(consts(c, false), xs.len() as int, g) && r =~= #[trigger] declared(consts(c, false), o) && #[trigger] runtime_plan(g, o, src, m, s)
}
//@ fn handle_literal_scalar_keys
//@ props C12,C04
//@ rewrite K : Scalar + Ord + FromStr , K :: Err : Display =>> K : Scalar + Ord
    requires entries@.len() < usize::MAX,
    ensures res is Ok ==> scalar_result::<K>(emitter, entries@, suffix@, res->Ok_0@),
//@ ghost start
        broadcast use axiom_suffixed;
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> number_entry(xs[i], #[trigger] coll_entries@[i], suffix@),
//@ endfn
//@ fn handle_literal_string_keys
//@ props C12,C05
    ensures res is Ok ==> string_result(emitter, entries@, res->Ok_0@),
//@ ghost start
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> text_entry(xs[i], #[trigger] coll_entries@[i]),
//@ endfn
//@ fn handle_non_literal_scalar_keys
//@ props C12
    ensures res is Ok ==> runtime_result(emitter, entries@, "FzScalarMap"@, "FzScalarSet"@, res->Ok_0@),
//@ ghost start
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> plain(xs[i], #[trigger] coll_entries@[i]),
//@ ghost end
        proof { assert(plains(xs, coll_entries@)); }
//@ endfn
//@ fn handle_non_literal_string_keys
//@ props C12
    ensures res is Ok ==> runtime_result(emitter, entries@, "FzStringMap"@, "FzStringSet"@, res->Ok_0@),
//@ ghost start
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> plain(xs[i], #[trigger] coll_entries@[i]),
//@ ghost end
        proof { assert(plains(xs, coll_entries@)); }
//@ endfn
//@ fn handle_hashed_keys
//@ props C12
    ensures res is Ok ==> runtime_result(emitter, entries@, "FzHashMap"@, "FzHashSet"@, res->Ok_0@),
//@ ghost start
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> plain(xs[i], #[trigger] coll_entries@[i]),
//@ ghost end
        proof { assert(plains(xs, coll_entries@)); }
//@ endfn
//@ fn handle_ordered_keys
//@ props C12
    ensures res is Ok ==> runtime_result(emitter, entries@, "FzOrderedMap"@, "FzOrderedSet"@, res->Ok_0@),
//@ ghost start
        let ghost xs = entries@;
//@ loop 0
    invariant
        it0.seq() == xs,
        coll_entries@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> plain(xs[i], #[trigger] coll_entries@[i]),
//@ ghost end
        proof { assert(plains(xs, coll_entries@)); }
//@ endfn
/// an empty collection of the declared type
pub open spec fn empty_result(c: CollectionEmitter, r: Seq<Tok>) -> bool {
    exists|e0: Seq<CollectionEntry<i32>>, e: Seq<CollectionEntry<i32>>, g: Generator, o: Output, seed: u64|
        #[trigger] emitted(consts(c, true), Seq::empty(), e0, e, g, o, r) && e.len() == 0 && #[trigger] hash_plan(g, o, e, seed)
}
/// the code made for entries of kind k: numbers are analysed as the type their literals have (i32 when none says)
pub open spec fn handled(c: CollectionEmitter, xs: Seq<Entry>, k: EffectiveKeyKind, r: Seq<Tok>) -> bool {
    match k {
        EffectiveKeyKind::AllLiteralScalars(ScalarType::I8) => scalar_result::<i8>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::I16) => scalar_result::<i16>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::I32) => scalar_result::<i32>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::I64) => scalar_result::<i64>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::ISize) => scalar_result::<isize>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::U8) => scalar_result::<u8>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::U16) => scalar_result::<u16>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::U32) => scalar_result::<u32>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::U64) => scalar_result::<u64>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::USize) => scalar_result::<usize>(c, xs, ""@, r),
        EffectiveKeyKind::AllLiteralScalars(ScalarType::Undecided) => scalar_result::<i32>(c, xs, "i32"@, r),
        EffectiveKeyKind::LiteralAndExpressionScalars => runtime_result(c, xs, "FzScalarMap"@, "FzScalarSet"@, r),
        EffectiveKeyKind::AllLiteralStrings => string_result(c, xs, r),
        EffectiveKeyKind::LiteralAndExpressionStrings => runtime_result(c, xs, "FzStringMap"@, "FzStringSet"@, r),
        EffectiveKeyKind::Hashed => runtime_result(c, xs, "FzHashMap"@, "FzHashSet"@, r),
        EffectiveKeyKind::Ordered => runtime_result(c, xs, "FzOrderedMap"@, "FzOrderedSet"@, r),
    }
}
/// what a macro of kind m makes of the entries
pub open spec fn processed(c: CollectionEmitter, xs: Seq<Entry>, m: MacroKind, r: Seq<Tok>) -> bool {
    if xs.len() == 0 { !c.inferred_key_type && empty_result(c, r) } else { exists|k: EffectiveKeyKind| #[trigger] assessed(xs, m, k) && handled(c, xs, k, r) }
}
//@ proof macro-empty C12
pub proof fn lemma_nothing(c: CollectionEmitter)
    ensures
        lawful_entries::<i32>(),
        forall|e0: Seq<CollectionEntry<i32>>, e: Seq<CollectionEntry<i32>>| cleaned(consts(c, true), Seq::empty(), e0) && #[trigger] deduped(e0, e, same_entry::<i32>()) ==> e.len() == 0,
{
    assert forall|e0: Seq<CollectionEntry<i32>>, e: Seq<CollectionEntry<i32>>| cleaned(consts(c, true), Seq::empty(), e0) && #[trigger] deduped(e0, e, same_entry::<i32>()) implies e.len() == 0 by {
        assert(e0.len() == 0);
        let idx = choose|idx: Seq<int>| dedup_by(e0, e, same_entry::<i32>(), idx);
        if e.len() > 0 { assert(0 <= idx[0] < e0.len()); }
    }
}
//@ endproof
//@ fn process
//@ props C12
    requires payload.entries@.len() < usize::MAX,
    ensures res is Ok ==> processed(emitter, payload.entries@, macro_kind, res->Ok_0@),
//@ ghost start
        proof { lemma_nothing(emitter); }
//@ endfn
}
//@ module macros::macro_api
pub mod macros_macro_api {
use vstd::prelude::*;
use crate::prelude::*;
use crate::proc_macro2::*;
use crate::quote::*;
use crate::syn::*;
use crate::syn;
use crate::syn::parse::Parse;
use crate::emit_collection_emitter::*;
use crate::macros_map::Map;
use crate::macros_set::Set;
use crate::macros_long_form_map::*;
use crate::macros_long_form_set::*;
use crate::macros_processor::*;
/// the short forms: an expression, its types inferred
pub open spec fn inferred(c: CollectionEmitter) -> bool { c.inferred_key_type && c.key_type.toks() =~= word("_"@) && c.symbol_name is None && c.alias_name is None && !c.is_static && !c.is_mutable }
/// the long forms: a declaration as it was written
pub open spec fn declares(c: CollectionEmitter, v: Visibility, st: bool, mt: bool, var: Ident, alias: Ident, k: Type) -> bool {
    &&& c.visibility == v && c.is_static == st && c.is_mutable == mt && !c.inferred_key_type && c.key_type.toks() == k.toks()
    &&& c.symbol_name is Some && c.symbol_name->Some_0@ == spelled(var) && c.alias_name is Some && c.alias_name->Some_0@ == spelled(alias)
}
pub open spec fn map_options(m: Map, c: CollectionEmitter) -> bool {
    c.value_type is Some && match m {
        Map::Short(s) => inferred(c) && c.value_type->Some_0.toks() =~= word("_"@),
        Map::Long(m) => declares(c, m.visibility, m.is_static, m.is_mutable, m.var_name, m.type_name, m.key_type) && c.value_type->Some_0.toks() == m.value_type.toks(),
    }
}
pub open spec fn set_options(s: Set, c: CollectionEmitter) -> bool {
    c.value_type is None && match s {
        Set::Short(s) => inferred(c),
        Set::Long(m) => declares(c, m.visibility, m.is_static, m.is_mutable, m.var_name, m.type_name, m.value_type),
    }
}
pub open spec fn map_made(args: Seq<Tok>, kind: MacroKind, r: Seq<Tok>) -> bool {
    exists|m: Map, c: CollectionEmitter| args =~= m.printed() && m.formed() && #[trigger] map_options(m, c) && processed(c, match m { Map::Short(s) => s.payload.entries@, Map::Long(m) => m.payload.entries@ }, kind, r)
}
pub open spec fn set_made(args: Seq<Tok>, kind: MacroKind, r: Seq<Tok>) -> bool {
    exists|s: Set, c: CollectionEmitter| args =~= s.printed() && s.formed() && #[trigger] set_options(s, c) && processed(c, match s { Set::Short(s) => s.payload.entries@, Set::Long(m) => m.payload.entries@ }, kind, r)
}
//@ fn fz_map_macro
//@ props C12
    ensures res is Ok ==> map_made(args@, macro_kind, res->Ok_0@),
//@ ghost after_let input
        let ghost parsed = input;
//@ ghost after_let emitter
                proof { assert(map_options(parsed, emitter)); }
//@ endfn
//@ fn fz_hash_map_macro
//@ props C12
    ensures res is Ok ==> map_made(args@, MacroKind::Hashed, res->Ok_0@),
//@ endfn
//@ fn fz_ordered_map_macro
//@ props C12
    ensures res is Ok ==> map_made(args@, MacroKind::Ordered, res->Ok_0@),
//@ endfn
//@ fn fz_string_map_macro
//@ props C12
    ensures res is Ok ==> map_made(args@, MacroKind::String, res->Ok_0@),
//@ endfn
//@ fn fz_scalar_map_macro
//@ props C12
    ensures res is Ok ==> map_made(args@, MacroKind::Scalar, res->Ok_0@),
//@ endfn
//@ fn fz_set_macro
//@ props C12
    ensures res is Ok ==> set_made(args@, macro_kind, res->Ok_0@),
//@ ghost after_let input
        let ghost parsed = input;
//@ ghost after_let emitter
                proof { assert(set_options(parsed, emitter)); }
//@ endfn
//@ fn fz_hash_set_macro
//@ props C12
    ensures res is Ok ==> set_made(args@, MacroKind::Hashed, res->Ok_0@),
//@ endfn
//@ fn fz_ordered_set_macro
//@ props C12
    ensures res is Ok ==> set_made(args@, MacroKind::Ordered, res->Ok_0@),
//@ endfn
//@ fn fz_string_set_macro
//@ props C12
    ensures res is Ok ==> set_made(args@, MacroKind::String, res->Ok_0@),
//@ endfn
//@ fn fz_scalar_set_macro
//@ props C12
    ensures res is Ok ==> set_made(args@, MacroKind::Scalar, res->Ok_0@),
//@ endfn
}
