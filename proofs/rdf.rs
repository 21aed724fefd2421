#![allow(warnings)]
use vstd::prelude::*;
use std::hash::Hash;
use std::ops::Deref;
pub mod value { pub use super::ObjLiteral as Literal; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
/// an iterator over shared references: what it still has to give
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct Items<'a, T> { x: core::marker::PhantomData<&'a T> }
impl<'a, T> Items<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures r is Some == (old(self).rest().len() > 0),
            r matches Some(x) ==> *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
}
/// an insertion ordered hash set; values are built from smaller ones
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { x: core::marker::PhantomData<T> }
impl<T> IndexSet<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<'_, T>) ensures r.rest() == self.items() { unimplemented!() }
}
pub axiom fn set_smaller<T>(s: IndexSet<T>) ensures decreases_to!(s => s.items());
pub axiom fn vec_smaller<T>(s: Vec<T>) ensures decreases_to!(s => s@);
/// an insertion ordered hash map
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: core::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct MapItems<'a, K, V> { x: core::marker::PhantomData<(&'a K, &'a V)> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: MapItems<'_, K, V>) ensures r.rest() == self.entries() { unimplemented!() }
}
pub axiom fn map_smaller<K, V>(s: IndexMap<K, V>) ensures decreases_to!(s => s.entries());
impl<'a, K, V> MapItems<'a, K, V> {
    pub uninterp spec fn rest(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures r is Some == (old(self).rest().len() > 0),
            r matches Some(x) ==> (*x.0, *x.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
}
/// a hash map, seen as what iterating over it gives
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: MapItems<'_, K, V>) ensures r.rest() == self.entries() { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Items<'_, V>) ensures r.rest() == self.entries().map_values(|e: (K, V)| e.1) { unimplemented!() }
}
/// the stack type of smallvec
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct SmallVec<T> { x: core::marker::PhantomData<T> }
impl<T> View for SmallVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> SmallVec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>) ensures old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> r is None && *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, t: SmallVec<T>) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(t) => old(self)@.len() > 0 && *t == old(self)@.last() && final(self)@ == old(self)@.drop_last().push(*final(t)),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        } { unimplemented!() }
}
/// a clone is the same value
#[verifier::external_body]
pub fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn vx_cloned<T: Clone>(t: Option<&T>) -> (r: Option<T>) ensures r is Some == t is Some, r is Some ==> r->0 == *t->0 { unimplemented!() }
/// format! by pieces
pub trait Show { spec fn shown(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_show<T: Show>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub fn vx_show_as<T: Show>(x: &T, how: &str) -> (r: String) ensures r@ == shown_as(*x, how@) { unimplemented!() }
pub uninterp spec fn shown_as<T: Show>(x: T, how: Seq<char>) -> Seq<char>;
impl<'a, T: Show> Show for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// the rdf_types crate
pub mod rdf_types {
    pub struct Triple<S, P, O>(pub S, pub P, pub O);
    pub struct Quad<S, P, O, G>(pub S, pub P, pub O, pub Option<G>);
    pub enum Object<I, L> { Id(I), Literal(L) }
    pub enum LiteralType<I> { Any(I), LangString(super::LangTagBuf) }
    pub struct Literal<I> { pub value: String, pub type_: LiteralType<I> }
}
pub use rdf_types::Literal;
impl<I> Literal<I> {
    pub fn new(value: String, type_: rdf_types::LiteralType<I>) -> (r: Self) ensures r.value == value, r.type_ == type_ { Literal { value, type_ } }
}
#[derive(Clone)]
pub enum ValidId<I, B> { Iri(I), Blank(B) }
impl<I, B> ValidId<I, B> {
    pub fn is_blank(&self) -> (r: bool) ensures r == (*self is Blank) { match self { ValidId::Blank(_) => true, _ => false } }
    pub fn into_term<L>(self) -> (r: rdf_types::Object<Self, L>) ensures r == rdf_types::Object::<Self, L>::Id(self) { rdf_types::Object::Id(self) }
}
/// the name of an IRI, and of a literal, in the vocabulary; interning is a function
pub uninterp spec fn iri_name<T>(text: Seq<char>) -> T;
pub uninterp spec fn iri_text<T>(t: T) -> Seq<char>;
pub uninterp spec fn lit_name<T, L>(text: Seq<char>, ty: rdf_types::LiteralType<T>) -> L;
pub trait IriVocabulary {
    type Iri;
    fn iri<'i>(&'i self, t: &'i Self::Iri) -> (r: Option<&'i str>) ensures r is Some, r->0@ == iri_text(*t);
}
pub trait BlankIdVocabulary { type BlankId; }
pub trait LiteralVocabulary: IriVocabulary { type Literal; }
pub trait Vocabulary: IriVocabulary + BlankIdVocabulary + LiteralVocabulary {}
pub trait IriVocabularyMut: IriVocabulary {
    fn insert(&mut self, iri: &str) -> (r: Self::Iri) ensures r == iri_name::<Self::Iri>(iri@);
}
pub trait LiteralVocabularyMut: LiteralVocabulary {
    fn insert_owned_literal(&mut self, l: Literal<Self::Iri>) -> (r: Self::Literal) ensures r == lit_name::<Self::Iri, Self::Literal>(l.value@, l.type_);
}
/// the identifiers a generator gives, one after the other
pub trait Generator<V: Vocabulary> {
    spec fn stream(&self) -> spec_fn(int) -> ValidId<V::Iri, V::BlankId>;
    spec fn pos(&self) -> int;
    fn next(&mut self, vocabulary: &mut V) -> (r: ValidId<V::Iri, V::BlankId>)
        ensures r == (old(self).stream())(old(self).pos()), final(self).stream() == old(self).stream(), final(self).pos() == old(self).pos() + 1;
}
/// json_syntax
#[verifier::external_body] pub struct JsString { x: String }
pub uninterp spec fn js(s: JsString) -> Seq<char>;
impl Deref for JsString {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == js(*self) { unimplemented!() }
}
impl JsString {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == js(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct JsValue { x: u8 }
#[verifier::external_body] pub struct JsPrinted { x: u8 }
pub uninterp spec fn compact_text(v: JsValue) -> Seq<char>;
pub uninterp spec fn printed(v: JsPrinted) -> Seq<char>;
impl JsValue {
    #[verifier::external_body] pub fn compact_print(&self) -> (r: JsPrinted) ensures printed(r) == compact_text(*self) { unimplemented!() }
}
impl JsPrinted {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == printed(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct NumberBuf { x: u8 }
pub uninterp spec fn number_text(n: NumberBuf) -> Seq<char>;
pub uninterp spec fn number_is_i64(n: NumberBuf) -> bool;
pub uninterp spec fn number_float(n: NumberBuf) -> Float;
impl NumberBuf {
    #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == number_is_i64(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_f64_lossy(&self) -> (r: Float) ensures r == number_float(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == number_text(*self) { unimplemented!() }
}
/// floating point numbers
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Float { x: f64 }
pub uninterp spec fn fract(f: Float) -> Float;
pub uninterp spec fn magnitude(f: Float) -> Float;
pub uninterp spec fn float_is(f: Float, x: f64) -> bool;
pub uninterp spec fn float_cmp(f: Float, x: f64) -> Option<core::cmp::Ordering>;
impl Float {
    #[verifier::external_body] pub fn fract(self) -> (r: Float) ensures r == fract(self) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Float) ensures r == magnitude(self) { unimplemented!() }
}
impl Show for Float { uninterp spec fn shown(&self) -> Seq<char>; }
impl vstd::std_specs::cmp::PartialEqSpecImpl<f64> for Float {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &f64) -> bool { float_is(*self, *o) }
}
impl PartialEq<f64> for Float { #[verifier::external_body] fn eq(&self, o: &f64) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<f64> for Float {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &f64) -> Option<core::cmp::Ordering> { float_cmp(*self, *o) }
}
impl PartialOrd<f64> for Float { #[verifier::external_body] fn partial_cmp(&self, o: &f64) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub mod pretty_dtoa { use vstd::prelude::*; verus!{
    #[verifier::external_body] pub struct FmtFloatConfig { x: u8 }
    pub uninterp spec fn canonical(f: super::Float) -> Seq<char>;
    #[verifier::external_body] pub fn dtoa(f: super::Float, c: super::XsdFloat) -> (r: String) ensures r@ == canonical(f) { unimplemented!() }
} }
/// the configuration for the canonical lexical form of xsd:double (not looked into)
pub struct XsdFloat;
pub const XSD_CANONICAL_FLOAT: XsdFloat = XsdFloat;
/// language tags
#[verifier::external_body] pub struct LenientLangTagBuf { x: String }
#[verifier::external_body] pub struct LangTagBuf { x: String }
#[verifier::external_body] pub struct LangTag { x: str }
impl Show for LangTagBuf { uninterp spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn well_formed(t: LenientLangTagBuf) -> Option<LangTagBuf>;
pub uninterp spec fn owned_tag(t: &LangTag) -> LangTagBuf;
impl LenientLangTagBuf {
    #[verifier::external_body] pub fn as_well_formed(&self) -> (r: Option<&LangTag>)
        ensures r is Some == well_formed(*self) is Some, r is Some ==> Some(owned_tag(r->0)) == well_formed(*self) { unimplemented!() }
}
impl LangTag {
    #[verifier::external_body] pub fn to_owned(&self) -> (r: LangTagBuf) ensures r == owned_tag(self) { unimplemented!() }
}
#[derive(Clone, Copy)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
/// the text of a direction
pub open spec fn dir_text(d: Direction) -> Seq<char> { match d { Direction::Ltr => "ltr"@, Direction::Rtl => "rtl"@ } }
impl Show for Direction { open spec fn shown(&self) -> Seq<char> { dir_text(*self) } }
impl Direction {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() }
}
//@ extract struct LangString from crates/core/src/lang_string.rs
//@ subst json_ld_syntax::String => JsString
//@ end
impl LangString {
//@ extract fn impl LangString > parts from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures
        r.0@ == js(self.data), r.1 is Some == self.language is Some, r.1 is Some ==> *r.1->0 == self.language->0,
        r.2 is Some == self.direction is Some, r.2 is Some ==> *r.2->0 == self.direction->0,
//@ end
}
//@ extract enum Literal from crates/core/src/object/value.rs
//@ subst enum Literal => enum ObjLiteral
//@ subst json_ld_syntax::String => JsString
//@ subst json_syntax::String => JsString
//@ end
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst enum Value<T = IriBuf> => enum ObjValue<T>
//@ subst Literal(Literal => Literal(ObjLiteral
//@ subst json_syntax::Value => JsValue
//@ end
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end

// ---- objects in expanded form ---------------------------------------------------------------------
//@ extract struct DeterministicHasherBuilder from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub type IndexedNode<T, B> = Indexed<Node<T, B>>;
pub type Graph<T, B> = IndexSet<IndexedObject<T, B>>;
pub type Included<T, B> = IndexSet<IndexedNode<T, B>>;
pub type PropertyObjects<T, B> = Multiset<IndexedObject<T, B>>;
pub type ReversePropertyNodes<T, B> = Multiset<IndexedNode<T, B>>;
//@ extract struct Properties from crates/core/src/object/node/properties.rs
//@ end
//@ extract struct ReverseProperties from crates/core/src/object/node/reverse_properties.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct List from crates/core/src/object/list.rs
//@ end
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ subst (Value<T>) => (ObjValue<T>)
//@ end
//@ extract struct ExpandedDocument from crates/core/src/document/expanded.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract type FlattenedDocument from crates/core/src/document/flattened.rs
//@ end
//@ extract struct NodeMap from crates/core/src/flattening/node_map.rs
//@ end
//@ extract struct NodeMapGraph from crates/core/src/flattening/node_map.rs
//@ end
pub type NodeMapGraphNodes<'a, T, B> = Items<'a, IndexedNode<T, B>>;
//@ extract struct QuadRef from crates/core/src/quad.rs
//@ end
//@ extract enum PropertyRef from crates/core/src/quad.rs
//@ end
//@ extract enum ObjectRef from crates/core/src/quad.rs
//@ end

// ---- the LD quads of a document (contract discharged in quads.rs) ----------------------------------
pub type Q<'a, T, B> = QuadRef<'a, T, B>;
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(B)]
pub struct Quads<'a, T, B> { x: core::marker::PhantomData<&'a (T, B)> }
impl<'a, T, B> Quads<'a, T, B> {
    pub uninterp spec fn rest(&self) -> Seq<Q<'a, T, B>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<QuadRef<'a, T, B>>)
        ensures r is Some == (old(self).rest().len() > 0),
            r matches Some(q) ==> q == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            r is None ==> final(self).rest() == old(self).rest() { unimplemented!() }
}
// ---- RDF triples and quads ------------------------------------------------------------------------
//@ extract const RDF_TYPE from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_FIRST from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_REST from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_VALUE from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_DIRECTION from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_JSON from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const RDF_NIL from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const XSD_BOOLEAN from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const XSD_INTEGER from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const XSD_DOUBLE from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract const XSD_STRING from crates/core/src/rdf/mod.rs
//@ subst &Iri => &'static str
//@ subst iri!( => (
//@ end
//@ extract type Value from crates/core/src/rdf/mod.rs
//@ end
//@ extract type Triple from crates/core/src/rdf/mod.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum RdfDirection from crates/core/src/rdf/mod.rs
//@ end
//@ extract struct CompoundLiteralTriples from crates/core/src/rdf/mod.rs
//@ end
//@ extract struct CompoundLiteral from crates/core/src/rdf/mod.rs
//@ end
//@ extract struct CompoundValue from crates/core/src/rdf/mod.rs
//@ end
//@ extract enum CompoundValueTriples from crates/core/src/rdf/mod.rs
//@ end
//@ extract enum ListItemTriples from crates/core/src/rdf/mod.rs
//@ end
//@ extract struct NestedListTriples from crates/core/src/rdf/mod.rs
//@ subst std::slice::Iter<'a, => Items<'a,
//@ end
//@ extract struct ListNode from crates/core/src/rdf/mod.rs
//@ end
//@ extract struct ListTriples from crates/core/src/rdf/mod.rs
//@ subst [ListItemTriples<'a, T, B, L>; 2] => ListItemTriples<'a, T, B, L>
//@ end

#[verifier::external_body]
pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: Items<'a, T>) ensures r.rest() == s@ { unimplemented!() }
pub open spec fn id_iri<T, B>(text: Seq<char>) -> ValidId<T, B> { ValidId::Iri(iri_name::<T>(text)) }
/// a literal of some type
pub open spec fn typed<T, B, L>(text: Seq<char>, ty: Seq<char>) -> Value<T, B, L> { rdf_types::Object::Literal(lit_name::<T, L>(text, rdf_types::LiteralType::Any(iri_name::<T>(ty)))) }
/// a language tagged string, or a plain one
pub open spec fn tagged<T, B, L>(text: Seq<char>, tag: Option<LangTagBuf>) -> Value<T, B, L> {
    match tag {
        Some(t) => rdf_types::Object::Literal(lit_name::<T, L>(text, rdf_types::LiteralType::LangString(t))),
        None => typed(text, "http://www.w3.org/2001/XMLSchema#string"@),
    }
}
pub open spec fn i18n_text(l: Option<LangTagBuf>, d: Direction) -> Seq<char> {
    "https://www.w3.org/ns/i18n#"@ + (match l { Some(t) => t.shown() + "_"@, None => Seq::empty() }) + dir_text(d)
}
/// the language tag of a string: none if it has none, nothing at all if it is ill-formed
pub open spec fn tag_of(s: LangString) -> Option<Option<LangTagBuf>> {
    match s.language { None => Some(None), Some(l) => match well_formed(l) { Some(t) => Some(Some(t)), None => None } }
}
/// a string with a direction stated by a compound literal takes a fresh identifier
pub open spec fn is_compound<T>(v: ObjValue<T>, dir: Option<RdfDirection>) -> bool {
    v matches ObjValue::LangString(s) && tag_of(s) is Some && s.direction is Some && dir == Some(RdfDirection::CompoundLiteral)
}
pub open spec fn integral(f: Float) -> bool { float_is(fract(f), 0.0f64) && float_cmp(magnitude(f), 1e21f64) == Some(core::cmp::Ordering::Less) }
/// the lexical form of a literal and the type it has when none is given
pub open spec fn lexical(l: ObjLiteral, double: bool) -> (Seq<char>, Seq<char>) {
    match l {
        ObjLiteral::Null => ("null"@, "http://www.w3.org/2001/XMLSchema#string"@),
        ObjLiteral::Boolean(b) => (if b { "true"@ } else { "false"@ }, "http://www.w3.org/2001/XMLSchema#boolean"@),
        ObjLiteral::String(s) => (js(s), "http://www.w3.org/2001/XMLSchema#string"@),
        ObjLiteral::Number(n) =>
            if number_is_i64(n) && !double { (number_text(n), "http://www.w3.org/2001/XMLSchema#integer"@) }
            else if integral(number_float(n)) && !double { (shown_as(number_float(n), ".0"@), "http://www.w3.org/2001/XMLSchema#integer"@) }
            else { (pretty_dtoa::canonical(number_float(n)), "http://www.w3.org/2001/XMLSchema#double"@) },
    }
}
/// the RDF value of a value object (`id`: the identifier of the compound literal)
pub open spec fn of_value<T, B, L>(v: ObjValue<T>, dir: Option<RdfDirection>, id: ValidId<T, B>) -> Option<Value<T, B, L>> {
    match v {
        ObjValue::Json(j) => Some(typed(compact_text(j), "http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON"@)),
        ObjValue::LangString(s) => match tag_of(s) {
            None => None,
            Some(tag) => match (s.direction, dir) {
                (Some(d), Some(RdfDirection::I18nDatatype)) => Some(typed(js(s.data), i18n_text(tag, d))),
                (Some(d), Some(RdfDirection::CompoundLiteral)) => Some(rdf_types::Object::Id(id)),
                _ => Some(tagged(js(s.data), tag)),
            },
        },
        ObjValue::Literal(l, None) => Some(typed(lexical(l, false).0, lexical(l, false).1)),
        ObjValue::Literal(l, Some(t)) => Some(rdf_types::Object::Literal(lit_name::<T, L>(lexical(l, iri_text(t) == "http://www.w3.org/2001/XMLSchema#double"@).0, rdf_types::LiteralType::Any(t)))),
    }
}
pub type T3<T, B, L> = (ValidId<T, B>, ValidId<T, B>, Value<T, B, L>);
/// the two triples of a compound literal
pub open spec fn compound<T, B, L>(s: LangString, id: ValidId<T, B>) -> Seq<T3<T, B, L>> {
    seq![
        (id, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#value"@), tagged(js(s.data), tag_of(s)->0)),
        (id, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction"@), typed(dir_text(s.direction->0), "http://www.w3.org/2001/XMLSchema#string"@)),
    ]
}
pub open spec fn of_id<T, B, L>(i: Id<T, B>) -> Option<Value<T, B, L>> { match i { Id::Valid(i) => Some(rdf_types::Object::Id(i)), Id::Invalid(_) => None } }
pub open spec fn of_opt<T, B, L>(i: Option<Id<T, B>>) -> Option<Value<T, B, L>> { match i { Some(i) => of_id(i), None => None } }
/// the RDF value of an object
pub open spec fn value_of<T, B, L>(o: Object<T, B>, dir: Option<RdfDirection>, id: ValidId<T, B>) -> Option<Value<T, B, L>> {
    match o {
        Object::Value(v) => of_value(v, dir, id),
        Object::Node(n) => of_opt(n.id),
        Object::List(l) => if l.entry@.len() == 0 { Some(rdf_types::Object::Id(id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"@))) } else { Some(rdf_types::Object::Id(id)) },
    }
}
/// how many identifiers the value itself takes
pub open spec fn uses<T, B>(o: Object<T, B>, dir: Option<RdfDirection>) -> int {
    match o { Object::Value(v) => if is_compound(v, dir) { 1 } else { 0 }, Object::Node(_) => 0, Object::List(l) => if l.entry@.len() == 0 { 0 } else { 1 } }
}
/// the triples that describe a value: those of the compound literal, or of the list
pub open spec fn extra<T, B, L>(o: Object<T, B>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, id: ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int)
    decreases o, 1int via extra_dec::<T, B, L>
{
    match o {
        Object::Value(v) => if is_compound(v, dir) { (compound(v->LangString_0, id), n) } else { (Seq::empty(), n) },
        Object::Node(_) => (Seq::empty(), n),
        Object::List(l) => if l.entry@.len() == 0 { (Seq::empty(), n) } else { list(l.entry@, dir, st, Some(id), None, n) },
    }
}
#[via_fn]
proof fn extra_dec<T, B, L>(o: Object<T, B>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, id: ValidId<T, B>, n: int) { if let Object::List(l) = o { vec_smaller(l.entry) } }
/// the triples of a list whose first cell is `head`, if it is known, and comes after the cell `prev`
pub open spec fn list<T, B, L>(s: Seq<IndexedObject<T, B>>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, head: Option<ValidId<T, B>>, prev: Option<ValidId<T, B>>, n: int) -> (Seq<T3<T, B, L>>, int)
    decreases s, 0int
{
    if s.len() == 0 {
        (link(prev, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"@)), n)
    } else {
        let id = cell(head, st, n);
        let n1 = after_cell(head, n);
        let n2 = n1 + uses(s[0].value, dir);
        let inner = extra::<T, B, L>(s[0].value, dir, st, st(n1), n2);
        let tail = list::<T, B, L>(s.drop_first(), dir, st, None, Some(id), inner.1);
        (link(prev, id) + first(id, value_of(s[0].value, dir, st(n1))) + inner.0 + tail.0, tail.1)
    }
}
pub open spec fn cell<T, B>(head: Option<ValidId<T, B>>, st: spec_fn(int) -> ValidId<T, B>, n: int) -> ValidId<T, B> { match head { Some(h) => h, None => st(n) } }
pub open spec fn after_cell<T, B>(head: Option<ValidId<T, B>>, n: int) -> int { match head { Some(_) => n, None => n + 1 } }
pub open spec fn link<T, B, L>(prev: Option<ValidId<T, B>>, id: ValidId<T, B>) -> Seq<T3<T, B, L>> {
    match prev { Some(p) => seq![(p, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"@), rdf_types::Object::Id(id))], None => Seq::empty() }
}
pub open spec fn first<T, B, L>(id: ValidId<T, B>, v: Option<Value<T, B, L>>) -> Seq<T3<T, B, L>> {
    match v { Some(v) => seq![(id, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#first"@), v)], None => Seq::empty() }
}
pub open spec fn t3<T, B, L>(t: Triple<T, B, L>) -> T3<T, B, L> { (t.0, t.1, t.2) }
/// what is left of a compound literal
pub open spec fn lit_left<T, B, L>(c: CompoundLiteralTriples<T, B, L>) -> Seq<T3<T, B, L>> {
    (match c.value { Some(v) => seq![(c.id, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#value"@), v)], None => Seq::empty() })
    + (match c.direction { Some(v) => seq![(c.id, id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction"@), v)], None => Seq::empty() })
}
/// what is left of one level of a list
pub open spec fn item_left<'a, T, B, L>(i: ListItemTriples<'a, T, B, L>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int) {
    match i {
        ListItemTriples::NestedList(l) => list(l.iter.rest(), dir, st, l.head_ref, l.previous, n),
        ListItemTriples::CompoundLiteral(c) => (lit_left(*c), n),
    }
}
pub open spec fn stack_left<'a, T, B, L>(s: Seq<ListItemTriples<'a, T, B, L>>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int)
    decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), n) } else {
        let a = item_left(s.last(), dir, st, n);
        let b = stack_left(s.drop_last(), dir, st, a.1);
        (a.0 + b.0, b.1)
    }
}
pub open spec fn list_left<'a, T, B, L>(l: ListTriples<'a, T, B, L>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int) {
    let b = stack_left(l.stack@, dir, st, n);
    ((match l.pending { Some(t) => seq![t3(t)], None => Seq::empty() }) + b.0, b.1)
}
pub open spec fn triples_left<'a, T, B, L>(c: CompoundValueTriples<'a, T, B, L>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int) {
    match c { CompoundValueTriples::Literal(l) => (lit_left(*l), n), CompoundValueTriples::List(l) => list_left(l, dir, st, n) }
}
broadcast proof fn lemma_stack<'a, T, B, L>(s: Seq<ListItemTriples<'a, T, B, L>>, x: ListItemTriples<'a, T, B, L>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int)
    ensures #[trigger] stack_left(s.push(x), dir, st, n) == ({ let a = item_left(x, dir, st, n); let b = stack_left(s, dir, st, a.1); (a.0 + b.0, b.1) })
{ assert(s.push(x).drop_last() =~= s); }

impl<T: Clone, B: Clone> Id<T, B> {
//@ extract fn impl Id > rdf_value from crates/core/src/rdf/mod.rs
//@ subst id.clone() => vx_clone(id)
//@ ret r
//@ spec
    ensures r == of_id::<T, B, L>(*self),
//@ end
}
impl<T: Clone, B: Clone> Node<T, B> {
//@ extract fn impl Node > rdf_value from crates/core/src/rdf/mod.rs
//@ desugar option.and_then
//@ ret r
//@ spec
    ensures r == of_opt::<T, B, L>(self.id),
//@ end
}
//@ extract fn i18n from crates/core/src/rdf/mod.rs
//@ desugar-format
//@ subst IriBuf::new(iri).unwrap() => iri
//@ subst IriBuf => String
//@ ret r
//@ spec
    ensures r@ =~= i18n_text(language, direction),
//@ end
impl<T: Clone> ObjValue<T> {
//@ extract fn impl Value > rdf_value_with from crates/core/src/rdf/mod.rs
//@ subst .as_iri() => .as_str()
//@ subst Clone::clone(&id) => vx_clone(&id)
//@ subst id.clone() => vx_clone(id)
//@ desugar-format
//@ desugar option.map
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        final(generator).pos() == old(generator).pos() + (if is_compound(*self, rdf_direction) { 1int } else { 0 }),
        ({
            let id = (old(generator).stream())(old(generator).pos());
            match of_value::<T, V::BlankId, V::Literal>(*self, rdf_direction, id) {
                None => r is None,
                Some(v) => r is Some && r->0.value == v && r->0.triples is Some == is_compound(*self, rdf_direction)
                    && (r->0.triples matches Some(c) ==> lit_left(c) == compound::<T, V::BlankId, V::Literal>(self->LangString_0, id)),
            }
        }),
//@ end
}
impl<T> Indexed<T> {
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
}
impl<T, B> List<T, B> {
//@ extract fn impl List > is_empty from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r == (self.entry@.len() == 0),
//@ end
//@ extract fn impl List > as_slice from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r@ == self.entry@,
//@ end
}
impl<'a, T, B, L> CompoundValueTriples<'a, T, B, L> {
//@ extract fn impl CompoundValueTriples > literal from crates/core/src/rdf/mod.rs
//@ ret r
//@ spec
    ensures r == CompoundValueTriples::<'a, T, B, L>::Literal(Box::new(l)),
//@ end
}
impl<'a, T, B> NestedListTriples<'a, T, B> {
//@ extract fn impl NestedListTriples > new from crates/core/src/rdf/mod.rs
//@ subst list.iter() => vx_iter(list)
//@ ret r
//@ spec
    ensures r.head_ref == Some(head_ref), r.previous is None, r.iter.rest() == list@,
//@ end
//@ extract fn impl NestedListTriples > previous from crates/core/src/rdf/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.previous is Some, r is Some ==> *r->0 == self.previous->0,
//@ end
//@ extract fn impl NestedListTriples > next from crates/core/src/rdf/mod.rs
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        old(self).iter.rest().len() == 0 ==> r is None && *final(self) == *old(self) && final(generator).pos() == old(generator).pos(),
        old(self).iter.rest().len() > 0 ==> r is Some
            && *r->0.id == cell(old(self).head_ref, old(generator).stream(), old(generator).pos())
            && *r->0.object == old(self).iter.rest()[0]
            && final(self).previous == Some(*r->0.id) && final(self).head_ref is None && final(self).iter.rest() == old(self).iter.rest().drop_first()
            && final(generator).pos() == after_cell(old(self).head_ref, old(generator).pos()),
//@ end
}
impl<'a, T, B, L> ListTriples<'a, T, B, L> {
//@ extract fn impl ListTriples > new from crates/core/src/rdf/mod.rs
//@ ret r
//@ spec
    ensures r.pending is None, r.stack@.len() == 1,
        forall|dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int| #[trigger] item_left(r.stack@[0], dir, st, n) == self::list::<T, B, L>(list@, dir, st, Some(head_ref), None, n),
        forall|dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int| #[trigger] list_left(r, dir, st, n) == self::list::<T, B, L>(list@, dir, st, Some(head_ref), None, n),
//@ after "stack.push"
    proof {
        assert(stack@.drop_last() =~= Seq::empty());
        assert forall|dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n: int| #[trigger] stack_left(stack@, dir, st, n) == self::list::<T, B, L>(list@, dir, st, Some(head_ref), None, n) by {
            lemma_end(self::list::<T, B, L>(list@, dir, st, Some(head_ref), None, n).0);
            assert(stack_left(stack@.drop_last(), dir, st, self::list::<T, B, L>(list@, dir, st, Some(head_ref), None, n).1).0 == Seq::<T3<T, B, L>>::empty());
        }
        assert forall|s: Seq<T3<T, B, L>>| #[trigger] (Seq::<T3<T, B, L>>::empty() + s) == s by { nothing(s); }
    }
//@ end
}
broadcast proof fn nothing<A>(b: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + b) == b { assert(Seq::<A>::empty() + b =~= b); }
proof fn lemma_end<A>(s: Seq<A>) ensures s + Seq::<A>::empty() == s { assert(s + Seq::<A>::empty() =~= s); }
impl<T: Clone, B: Clone> Object<T, B> {
//@ extract fn impl Object > rdf_value_with from crates/core/src/rdf/mod.rs
//@ subst Clone::clone(&id) => vx_clone(&id)
//@ subst .map(CompoundValueTriples::literal) => .map(|l| CompoundValueTriples::literal(l))
//@ desugar option.map
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        final(generator).pos() == old(generator).pos() + uses(*self, rdf_direction),
        ({
            let st = old(generator).stream();
            let id = st(old(generator).pos());
            match value_of::<T, B, V::Literal>(*self, rdf_direction, id) {
                None => r is None,
                Some(v) => r is Some && r->0.value == v && described(*self, r->0.triples, rdf_direction, st, id, final(generator).pos()),
            }
        }),
//@ end
}
/// the triples given along with a value
pub open spec fn described<'a, T, B, L>(o: Object<T, B>, c: Option<CompoundValueTriples<'a, T, B, L>>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, id: ValidId<T, B>, n: int) -> bool {
    match c {
        None => extra::<T, B, L>(o, dir, st, id, n) == (Seq::<T3<T, B, L>>::empty(), n),
        Some(CompoundValueTriples::Literal(l)) => extra::<T, B, L>(o, dir, st, id, n) == (lit_left(*l), n),
        Some(CompoundValueTriples::List(l)) => l.pending is None && l.stack@.len() == 1 && extra::<T, B, L>(o, dir, st, id, n) == item_left(l.stack@[0], dir, st, n) && extra::<T, B, L>(o, dir, st, id, n) == list_left(l, dir, st, n),
    }
}
impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
//@ extract fn impl CompoundLiteralTriples > next from crates/core/src/rdf/mod.rs
//@ subst self.id.clone() => vx_clone(&self.id)
//@ ret r
//@ spec
    ensures match r {
        Some(t) => t.1 is Iri && lit_left(*old(self)) =~= seq![t3(t)] + lit_left(*final(self)),
        None => lit_left(*old(self)) =~= Seq::<T3<T, B, L>>::empty() && *final(self) == *old(self),
    },
//@ end
}
/// the predicates of the triples that describe values are IRIs
pub open spec fn pending_plain<'a, T, B, L>(l: ListTriples<'a, T, B, L>) -> bool { l.pending matches Some(t) ==> t.1 is Iri }
pub open spec fn plain<'a, T, B, L>(c: CompoundValueTriples<'a, T, B, L>) -> bool { c matches CompoundValueTriples::List(l) ==> pending_plain(l) }
/// `r` is the next of the triples that were left
pub open spec fn step<T, B, L>(before: (Seq<T3<T, B, L>>, int), r: Option<Triple<T, B, L>>, after: (Seq<T3<T, B, L>>, int), n: int) -> bool {
    match r {
        Some(t) => before.0 == seq![t3(t)] + after.0 && before.1 == after.1,
        None => before == (Seq::<T3<T, B, L>>::empty(), n),
    }
}
broadcast proof fn assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// one item of a list: the cell is linked and filled, and what describes the item comes before the rest of the list
proof fn lemma_nested<'a, T, B, L>(s0: Seq<ListItemTriples<'a, T, B, L>>, l1: NestedListTriples<'a, T, B>, c: Option<CompoundValueTriples<'a, T, B, L>>, s: Seq<ListItemTriples<'a, T, B, L>>,
    dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, n1: int, n2: int)
    requires
        s0.len() > 0, s0.last() is NestedList,
        ({
            let l0 = s0.last()->NestedList_0;
            let o = l0.iter.rest()[0].value;
            let id = cell(l0.head_ref, st, n1);
            let m = after_cell(l0.head_ref, n1);
            let base = s0.drop_last().push(ListItemTriples::NestedList(l1));
            l0.iter.rest().len() > 0 && l1.iter.rest() == l0.iter.rest().drop_first() && l1.head_ref is None && l1.previous == Some(id)
            && n2 == m + uses(o, dir) && described(o, c, dir, st, st(m), n2)
            && s =~= (match c { None => base, Some(CompoundValueTriples::Literal(l)) => base.push(ListItemTriples::CompoundLiteral(l)), Some(CompoundValueTriples::List(l)) => base + l.stack@ })
        }),
    ensures
        ({
            let l0 = s0.last()->NestedList_0;
            let id = cell(l0.head_ref, st, n1);
            stack_left(s0, dir, st, n1).1 == stack_left(s, dir, st, n2).1
            && stack_left(s0, dir, st, n1).0 == link::<T, B, L>(l0.previous, id) + (first(id, value_of::<T, B, L>(l0.iter.rest()[0].value, dir, st(after_cell(l0.head_ref, n1)))) + stack_left(s, dir, st, n2).0)
        }),
{
    let l0 = s0.last()->NestedList_0;
    let o = l0.iter.rest()[0].value;
    let id = cell(l0.head_ref, st, n1);
    let m = after_cell(l0.head_ref, n1);
    let top = ListItemTriples::<'a, T, B, L>::NestedList(l1);
    let base = s0.drop_last().push(top);
    let inner = extra::<T, B, L>(o, dir, st, st(m), n2);
    lemma_stack(s0.drop_last(), top, dir, st, inner.1);
    match c {
        None => { assert(s == base); assert(stack_left(s, dir, st, n2).0 =~= inner.0 + stack_left(base, dir, st, inner.1).0); }
        Some(CompoundValueTriples::Literal(l)) => { lemma_stack(base, ListItemTriples::CompoundLiteral(l), dir, st, n2); assert(s == base.push(ListItemTriples::CompoundLiteral(l))); }
        Some(CompoundValueTriples::List(l)) => { lemma_stack(base, l.stack@[0], dir, st, n2); assert(s =~= base.push(l.stack@[0])); }
    }
    assert(stack_left(s, dir, st, n2).0 == inner.0 + stack_left(base, dir, st, inner.1).0);
    let tail = list::<T, B, L>(l1.iter.rest(), dir, st, None, Some(id), inner.1);
    assert(item_left(top, dir, st, inner.1) == tail);
    let a = link::<T, B, L>(l0.previous, id);
    let b = first(id, value_of::<T, B, L>(o, dir, st(m)));
    assert(item_left(s0.last(), dir, st, n1).0 == a + b + inner.0 + tail.0);
    let rest = stack_left(s0.drop_last(), dir, st, tail.1).0;
    assert(a + b + inner.0 + tail.0 + rest =~= a + (b + (inner.0 + (tail.0 + rest))));
}
impl<'a, T, B, L> ListTriples<'a, T, B, L> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl ListTriples > next from crates/core/src/rdf/mod.rs
//@ subst list.previous().cloned() => vx_cloned(list.previous())
//@ subst node.id.clone() => vx_clone(node.id)
//@ subst id.clone() => vx_clone(&id)
//@ subst self.stack.extend(list.stack) => self.stack.vx_extend(list.stack)
//@ desugar-break
//@ call rdf_value_with => $0.inner().rdf_value_with($1, $2, $3)
//@ start
    let ghost st = generator.stream();
    let ghost n0 = generator.pos();
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        step(list_left(*old(self), rdf_direction, old(generator).stream(), old(generator).pos()), r, list_left(*final(self), rdf_direction, old(generator).stream(), final(generator).pos()), final(generator).pos()),
        pending_plain(*old(self)) ==> pending_plain(*final(self)) && (r matches Some(t) ==> t.1 is Iri),
//@ loop 0
    invariant
        generator.stream() == st, st == old(generator).stream(),
        list_left(*self, rdf_direction, st, generator.pos()) == list_left(*old(self), rdf_direction, st, n0),
        pending_plain(*old(self)) ==> pending_plain(*self),
//@ loop 0 body-start
    let ghost s0 = self.stack@;
    let ghost n1 = generator.pos();
    let ghost mut c: Option<CompoundValueTriples<'a, T, B, L>> = None;
    proof {
        nothing(stack_left(s0, rdf_direction, st, n1).0);
        if s0.len() > 0 {
            let below = s0.drop_last();
            let rest = stack_left(below, rdf_direction, st, n1).0;
            nothing(rest);
            assert forall|x: ListItemTriples<'a, T, B, L>| #[trigger] below.push(x).drop_last() == below by { assert(below.push(x).drop_last() =~= below); }
            assert forall|x: ListItemTriples<'a, T, B, L>| #[trigger] stack_left(below.push(x), rdf_direction, st, n1) == ({ let a = item_left(x, rdf_direction, st, n1); let b = stack_left(below, rdf_direction, st, a.1); (a.0 + b.0, b.1) }) by { lemma_stack(below, x, rdf_direction, st, n1); }
            assert forall|t: T3<T, B, L>, a: Seq<T3<T, B, L>>| #[trigger] ((seq![t] + a) + rest) == seq![t] + (a + rest) by { assoc(seq![t], a, rest); }
        }
    }
//@ before "if let Some(compound_triples)"
    proof { c = compound_value.triples; }
//@ after "if let Some(compound_value)"
    proof {
        let l1 = s0.drop_last().push(ListItemTriples::<'a, T, B, L>::NestedList(*list));
        lemma_nested(s0, *list, c, self.stack@, rdf_direction, st, n1, generator.pos());
    }
//@ end
}
impl<'a, T, B, L> CompoundValueTriples<'a, T, B, L> {
//@ extract fn impl CompoundValueTriples > next from crates/core/src/rdf/mod.rs
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        step(triples_left(*old(self), rdf_direction, old(generator).stream(), old(generator).pos()), r, triples_left(*final(self), rdf_direction, old(generator).stream(), final(generator).pos()), final(generator).pos()),
        plain(*old(self)) ==> plain(*final(self)) && (r matches Some(t) ==> t.1 is Iri),
//@ end
}
impl<'a, T: Clone, B: Clone> ObjectRef<'a, T, B> {
//@ extract fn impl ObjectRef > rdf_value_with from crates/core/src/rdf/mod.rs
//@ desugar option.map
//@ ret r
//@ spec
    ensures
        final(generator).stream() == old(generator).stream(),
        final(generator).pos() == old(generator).pos() + uses_ref(*self, rdf_direction),
        ({
            let st = old(generator).stream();
            let id = st(old(generator).pos());
            match value_ref::<T, B, V::Literal>(*self, rdf_direction, id) {
                None => r is None,
                Some(v) => r is Some && r->0.value == v && described_ref(*self, r->0.triples, rdf_direction, st, id, final(generator).pos()),
            }
        }),
//@ end
}
pub open spec fn value_ref<'a, T, B, L>(o: ObjectRef<'a, T, B>, dir: Option<RdfDirection>, id: ValidId<T, B>) -> Option<Value<T, B, L>> {
    match o { ObjectRef::Object(o) => value_of(*o, dir, id), ObjectRef::Node(n) => of_opt(n.id), ObjectRef::Ref(i) => of_id(*i) }
}
pub open spec fn uses_ref<'a, T, B>(o: ObjectRef<'a, T, B>, dir: Option<RdfDirection>) -> int { match o { ObjectRef::Object(o) => uses(*o, dir), _ => 0 } }
pub open spec fn extra_ref<'a, T, B, L>(o: ObjectRef<'a, T, B>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, id: ValidId<T, B>, n: int) -> (Seq<T3<T, B, L>>, int) {
    match o { ObjectRef::Object(o) => extra(*o, dir, st, id, n), _ => (Seq::empty(), n) }
}
pub open spec fn described_ref<'a, T, B, L>(o: ObjectRef<'a, T, B>, c: Option<CompoundValueTriples<'a, T, B, L>>, dir: Option<RdfDirection>, st: spec_fn(int) -> ValidId<T, B>, id: ValidId<T, B>, n: int) -> bool {
    match c {
        None => extra_ref::<T, B, L>(o, dir, st, id, n) == (Seq::<T3<T, B, L>>::empty(), n),
        Some(c) => plain(c) && extra_ref::<T, B, L>(o, dir, st, id, n) == triples_left(c, dir, st, n),
    }
}

// ---- the RDF quads of a document ------------------------------------------------------------------
/// std::borrow::Cow
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
pub open spec fn cow<'a, T>(c: Cow<'a, T>) -> T { match c { Cow::Borrowed(t) => *t, Cow::Owned(t) => t } }
impl<'a, T> Cow<'a, T> {
    #[verifier::external_body] pub fn vx_ref(&self) -> (r: &T) ensures *r == cow(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: T) ensures r == cow(self) { unimplemented!() }
}
impl<T, B> Id<T, B> {
//@ extract fn impl TryFrom<&'a Id<T, B>> for &'a ValidId<T, B> > try_from from crates/core/src/id.rs
//@ rename valid_id
//@ subst fn valid_id( => fn valid_id<'a>(
//@ subst Result<Self, Self::Error> => Result<&'a ValidId<T, B>, &'a String>
//@ ret res
//@ spec
    ensures match res { Ok(v) => *r == Id::<T, B>::Valid(*v), Err(_) => *r is Invalid },
//@ end
}
//@ extract type Quad from crates/core/src/rdf/quad.rs
//@ end
//@ extract type QuadRef from crates/core/src/rdf/quad.rs
//@ subst type QuadRef< => type RdfQuadRef<
//@ end
//@ extract struct Compound from crates/core/src/rdf/quad.rs
//@ subst super::CompoundValueTriples => CompoundValueTriples
//@ end
//@ extract type VocabularyCompoundLiteral from crates/core/src/rdf/quad.rs
//@ end
//@ extract struct Quads from crates/core/src/rdf/quad.rs
//@ subst struct Quads< => struct RdfQuadsOf<
//@ subst crate::quad::Quads => Quads
//@ end
//@ extract struct ClonedQuads from crates/core/src/rdf/quad.rs
//@ subst inner: Quads< => inner: RdfQuadsOf<
//@ end
pub type R4<T, B, L> = (ValidId<T, B>, ValidId<T, B>, Value<T, B, L>, Option<ValidId<T, B>>);
pub open spec fn deref<A>(o: Option<&A>) -> Option<A> { match o { Some(a) => Some(*a), None => None } }
pub open spec fn r4<'a, T, B, L>(q: RdfQuadRef<'a, T, B, L>) -> R4<T, B, L> { (cow(q.0), cow(q.1), q.2, deref(q.3)) }
/// triples in a graph
pub open spec fn within<T, B, L>(ts: Seq<T3<T, B, L>>, g: Option<ValidId<T, B>>) -> Seq<R4<T, B, L>> { ts.map_values(|t: T3<T, B, L>| (t.0, t.1, t.2, g)) }
broadcast proof fn lemma_within<T, B, L>(t: T3<T, B, L>, a: Seq<T3<T, B, L>>, g: Option<ValidId<T, B>>)
    ensures #[trigger] within(seq![t] + a, g) == seq![(t.0, t.1, t.2, g)] + within(a, g)
{ assert(within(seq![t] + a, g) =~= seq![(t.0, t.1, t.2, g)] + within(a, g)); }
proof fn within_nothing<T, B, L>(g: Option<ValidId<T, B>>, b: Seq<R4<T, B, L>>)
    ensures within(Seq::<T3<T, B, L>>::empty(), g) + b == b
{ assert(within(Seq::<T3<T, B, L>>::empty(), g) + b =~= b); }
/// graph, subject and predicate of the RDF quad for an LD quad: all of them must be valid, the predicate an IRI unless generalized RDF is asked for
pub open spec fn names<'a, T, B>(q: Q<'a, T, B>, generalized: bool) -> Option<(ValidId<T, B>, ValidId<T, B>, Option<ValidId<T, B>>)> {
    match (q.0, *q.1, q.2) {
        (Some(Id::Invalid(_)), _, _) => None,
        (_, Id::Invalid(_), _) => None,
        (_, _, PropertyRef::Ref(Id::Invalid(_))) => None,
        (g, Id::Valid(s), p) => {
            let p = match p { PropertyRef::Type => id_iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"@), PropertyRef::Ref(i) => i->Valid_0 };
            if p is Blank && !generalized { None } else { Some((s, p, match g { Some(i) => Some(i->Valid_0), None => None })) }
        }
    }
}
/// the RDF quads for a sequence of LD quads
pub open spec fn conv<'a, T, B, L>(s: Seq<Q<'a, T, B>>, dir: Option<RdfDirection>, generalized: bool, st: spec_fn(int) -> ValidId<T, B>, n: int) -> Seq<R4<T, B, L>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match (names(s[0], generalized), value_ref::<T, B, L>(s[0].3, dir, st(n))) {
            (Some(x), Some(v)) => {
                let e = extra_ref::<T, B, L>(s[0].3, dir, st, st(n), n + uses_ref(s[0].3, dir));
                seq![(x.0, x.1, v, x.2)] + (within(e.0, x.2) + conv(s.drop_first(), dir, generalized, st, e.1))
            }
            _ => conv(s.drop_first(), dir, generalized, st, n),
        }
    }
}
/// what is left of the iterator
pub open spec fn left<'a, N: Vocabulary, G: Generator<N>>(q: RdfQuadsOf<'a, N, G>) -> Seq<R4<N::Iri, N::BlankId, N::Literal>> {
    let n = q.generator.pos();
    let st = q.generator.stream();
    match q.compound_value {
        Some(c) => {
            let e = triples_left(c.triples, q.rdf_direction, st, n);
            within(e.0, deref(c.graph)) + conv(q.quads.rest(), q.rdf_direction, q.produce_generalized_rdf, st, e.1)
        }
        None => conv(q.quads.rest(), q.rdf_direction, q.produce_generalized_rdf, st, n),
    }
}
pub open spec fn ready<'a, N: Vocabulary, G: Generator<N>>(q: RdfQuadsOf<'a, N, G>) -> bool { q.compound_value matches Some(c) ==> plain(c.triples) }
impl<'a, N: Vocabulary + IriVocabularyMut, G: Generator<N>> RdfQuadsOf<'a, N, G>
where
	N::Iri: Clone,
	N::BlankId: Clone,
	N::Literal: Clone,
	N: LiteralVocabularyMut,
{
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl Iterator for Quads > next from crates/core/src/rdf/quad.rs
//@ subst Option<Self::Item> => Option<RdfQuadRef<'a, N::Iri, N::BlankId, N::Literal>>
//@ subst Some(Triple( => Some(rdf_types::Triple(
//@ subst crate::quad:: => self::
//@ subst super::RDF_TYPE => RDF_TYPE
//@ subst (*rdf_property).is_blank() => rdf_property.vx_ref().is_blank()
//@ call try_into => Id::valid_id($0)
//@ desugar option.map
//@ desugar-break
//@ ret r
//@ spec
    requires ready(*old(self)),
    ensures
        ready(*final(self)),
        match r { Some(q) => left(*old(self)) == seq![r4(q)] + left(*final(self)), None => left(*old(self)).len() == 0 },
//@ loop 0
    invariant
        ready(*self),
        left(*self) == left(*old(self)),
//@ before "let rdf_graph"
    let ghost q = r0[0];
    let ghost n = self.generator.pos();
    let ghost rest = conv::<N::Iri, N::BlankId, N::Literal>(self.quads.rest(), self.rdf_direction, self.produce_generalized_rdf, self.generator.stream(), n);
    proof {
        assert(q == QuadRef(graph, subject, property, object));
        assert(self.compound_value is None);
        assert(left(*self) == rest);
        assert(left(*old(self)) == conv::<N::Iri, N::BlankId, N::Literal>(r0, self.rdf_direction, self.produce_generalized_rdf, self.generator.stream(), n));
        assert(names(q, self.produce_generalized_rdf) is None ==> left(*old(self)) == rest);
        assert(value_ref::<N::Iri, N::BlankId, N::Literal>(object, self.rdf_direction, (self.generator.stream())(n)) is None ==> left(*old(self)) == rest && uses_ref(object, self.rdf_direction) == 0);
    }
//@ loop 0 body-start
    let ghost r0 = self.quads.rest();
    proof {
        assert forall|t: T3<N::Iri, N::BlankId, N::Literal>, a: Seq<T3<N::Iri, N::BlankId, N::Literal>>, g: Option<ValidId<N::Iri, N::BlankId>>, b: Seq<R4<N::Iri, N::BlankId, N::Literal>>|
            #[trigger] (within(seq![t] + a, g) + b) == seq![(t.0, t.1, t.2, g)] + (within(a, g) + b) by { lemma_within(t, a, g); assoc(seq![(t.0, t.1, t.2, g)], within(a, g), b); }
        assert forall|g: Option<ValidId<N::Iri, N::BlankId>>, b: Seq<R4<N::Iri, N::BlankId, N::Literal>>| #[trigger] (within(Seq::<T3<N::Iri, N::BlankId, N::Literal>>::empty(), g) + b) == b by { within_nothing(g, b); }
    }
//@ end
}
pub open spec fn q4<T, B, L>(q: Quad<T, B, L>) -> R4<T, B, L> { (q.0, q.1, q.2, q.3) }
impl<'a, N: Vocabulary + IriVocabularyMut, G: Generator<N>> ClonedQuads<'a, N, G>
where
	N::Iri: Clone,
	N::BlankId: Clone,
	N::Literal: Clone,
	N: LiteralVocabularyMut,
{
//@ extract fn impl Iterator for ClonedQuads > next from crates/core/src/rdf/quad.rs
//@ subst Option<Self::Item> => Option<Quad<N::Iri, N::BlankId, N::Literal>>
//@ call cloned => vx_cloned($0)
//@ desugar option.map
//@ ret r
//@ spec
    requires ready(old(self).inner),
    ensures
        ready(final(self).inner),
        match r { Some(q) => left(old(self).inner) == seq![q4(q)] + left(final(self).inner), None => left(old(self).inner).len() == 0 },
//@ end
}
impl<'a, N: Vocabulary, G: Generator<N>> RdfQuadsOf<'a, N, G> {
//@ extract fn impl Quads > cloned from crates/core/src/rdf/quad.rs
//@ ret r
//@ spec
    ensures r.inner == self,
//@ end
}
/// documents with LD quads (contract discharged in quads.rs)
pub trait LdQuads<T, B> {
    spec fn said<'a>(&self) -> Seq<Q<'a, T, B>>;
    fn quads(&self) -> (r: Quads<'_, T, B>) ensures r.rest() == self.said();
}
impl<T, B> LdQuads<T, B> for ExpandedDocument<T, B> {
    uninterp spec fn said<'a>(&self) -> Seq<Q<'a, T, B>>;
    #[verifier::external_body]
    fn quads(&self) -> (r: Quads<'_, T, B>) { unimplemented!() }
}
impl<T, B> LdQuads<T, B> for FlattenedDocument<T, B> {
    uninterp spec fn said<'a>(&self) -> Seq<Q<'a, T, B>>;
    #[verifier::external_body]
    fn quads(&self) -> (r: Quads<'_, T, B>) { unimplemented!() }
}
impl<T: Eq + Hash, B: Eq + Hash> LdQuads<T, B> for NodeMap<T, B> {
    uninterp spec fn said<'a>(&self) -> Seq<Q<'a, T, B>>;
    #[verifier::external_body]
    fn quads(&self) -> (r: Quads<'_, T, B>) { unimplemented!() }
}
/// the iterator gives the RDF quads for the LD quads of the document
pub open spec fn gives<'a, V: Vocabulary, G: Generator<V>>(r: RdfQuadsOf<'a, V, G>, said: Seq<Q<'a, V::Iri, V::BlankId>>, dir: Option<RdfDirection>, generalized: bool, g: G) -> bool {
    ready(r) && left(r) == conv::<V::Iri, V::BlankId, V::Literal>(said, dir, generalized, g.stream(), g.pos())
}
pub trait RdfQuads<T, B>: LdQuads<T, B> {
	fn rdf_quads_full<'a, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(
		&'a self,
		vocabulary: &'a mut V,
		generator: &'a mut G,
		rdf_direction: Option<RdfDirection>,
		produce_generalized_rdf: bool,
	) -> (r: RdfQuadsOf<'a, V, G>)
        ensures gives(r, self.said(), rdf_direction, produce_generalized_rdf, *old(generator));
//@ extract fn trait RdfQuads > rdf_quads_with from crates/core/src/rdf/quad.rs
//@ subst Quads<'a, V, G> => RdfQuadsOf<'a, V, G>
//@ ret r
//@ spec
    ensures gives(r, self.said(), rdf_direction, false, *old(generator)),
//@ end
}
impl<T, B> RdfQuads<T, B> for ExpandedDocument<T, B> {
//@ extract fn impl RdfQuads<T, B> for ExpandedDocument > rdf_quads_full from crates/core/src/rdf/quad.rs
//@ subst Quads<'a, V, G> => RdfQuadsOf<'a, V, G>
//@ subst ~ Quads { => RdfQuadsOf {
//@ end
}
impl<T, B> RdfQuads<T, B> for FlattenedDocument<T, B> {
//@ extract fn impl RdfQuads<T, B> for FlattenedDocument > rdf_quads_full from crates/core/src/rdf/quad.rs
//@ subst Quads<'a, V, G> => RdfQuadsOf<'a, V, G>
//@ subst ~ Quads { => RdfQuadsOf {
//@ end
}
impl<T: Eq + Hash, B: Eq + Hash> RdfQuads<T, B> for NodeMap<T, B> {
//@ extract fn impl RdfQuads<T, B> for NodeMap > rdf_quads_full from crates/core/src/rdf/quad.rs
//@ subst Quads<'a, V, G> => RdfQuadsOf<'a, V, G>
//@ subst ~ Quads { => RdfQuadsOf {
//@ end
}
} // verus!
fn main() {}
