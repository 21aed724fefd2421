#![allow(warnings)]
#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
use std::ops::Deref;
pub mod json_syntax { pub use super::{JsValue as Value, JsString as String, JsNumber as Number}; }
pub mod json_ld_syntax { pub use super::{JsString as String}; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
//@ include inc_js.rs
impl JsValue {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures r is Some == (*self is String), r is Some ==> r->0@ == js(self->String_0)
    { unimplemented!() }
}
/// cloning gives an equal value
impl Clone for JsValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for JsString {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for JsNumber {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// stands for the copy of a number's bytes into an owned number
#[verifier::external_body]
fn vx_number(n: &JsNumber) -> (r: JsNumber) ensures r == *n { unimplemented!() }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsString {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { js_str(s@) }
}
impl<'a> From<&'a str> for JsString {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: Self) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
pub uninterp spec fn kw(k: Keyword) -> Seq<char>;
impl Keyword {
    #[verifier::external_body]
    pub fn into_str(self) -> (r: &'static str) ensures r@ == kw(self) { unimplemented!() }
}
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
//@ extract struct InvalidDirection from crates/syntax/src/direction.rs
//@ end
pub open spec fn direction_named(s: Seq<char>) -> Option<Direction> { if s == "ltr"@ { Some(Direction::Ltr) } else if s == "rtl"@ { Some(Direction::Rtl) } else { None } }
impl Direction {
    #[verifier::external_body]
    pub fn try_from<'a>(s: &'a str) -> (r: Result<Direction, InvalidDirection<&'a str>>)
        ensures match r { Ok(d) => direction_named(s@) == Some(d), Err(_) => direction_named(s@) is None }
    { unimplemented!() }
}
#[derive(Clone, Copy)]
//@ extract enum Action from crates/context-processing/src/algorithm/iri.rs
//@ end
#[derive(Debug)]
//@ extract struct RejectVocab from crates/context-processing/src/algorithm/iri.rs
//@ end
/// a key or value to be expanded
pub struct ExpandableRef<'a>(pub &'a str);
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for ExpandableRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { ExpandableRef(s) }
}
impl<'a> From<&'a str> for ExpandableRef<'a> {
    fn from(s: &'a str) -> (r: Self) { ExpandableRef(s) }
}
#[verifier::external_body]
//@ extract struct LenientLangTagBuf from crates/syntax/src/lang.rs
//@ end
#[verifier::external_body]
//@ extract struct LenientLangTag from crates/syntax/src/lang.rs
//@ end
pub struct InvalidLangTag<T>(pub T);
pub uninterp spec fn buf_text(t: LenientLangTagBuf) -> Seq<char>;
pub uninterp spec fn tag_text(t: &LenientLangTag) -> Seq<char>;
impl Clone for LenientLangTagBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures buf_text(r) == buf_text(*self) { unimplemented!() }
}
impl LenientLangTagBuf {
    #[verifier::external_body]
    pub fn new(s: String) -> (r: (Self, Option<InvalidLangTag<String>>)) ensures buf_text(r.0) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == buf_text(*self) { unimplemented!() }
}
impl LenientLangTag {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: LenientLangTagBuf) ensures buf_text(r) == tag_text(self) { unimplemented!() }
}
//@ extract struct LangString from crates/core/src/lang_string.rs
//@ subst json_ld_syntax::String => JsString
//@ end
impl LangString {
    /// proved in lang.rs
    #[verifier::external_body]
    pub fn new(data: JsString, language: Option<LenientLangTagBuf>, direction: Option<Direction>) -> (r: Result<Self, JsString>)
        ensures
            r is Ok == (language is Some || direction is Some),
            r matches Ok(s) ==> s.data == data && s.language == language && s.direction == direction,
            r matches Err(d) ==> d == data,
    { unimplemented!() }
}
/// rdf_types vocabularies; an index is interned: it is the same for the same text
pub trait VocabularyMut { type Iri; type BlankId; }
pub trait Loader {}
pub enum Warning { MalformedLanguageTag(String, InvalidLangTag<String>), Other }
pub trait WarningHandler<N> { fn handle(&mut self, vocabulary: &N, warning: Warning); }
//@ extract struct Environment from crates/core/src/lib.rs
//@ end
/// rdf_types::Id
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
//@ extract enum Term from crates/core/src/term.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// derived
impl<T: PartialEq, B: PartialEq> PartialEqSpecImpl for Term<T, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl<T: PartialEq, B: PartialEq> PartialEq for Term<T, B> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}
//@ extract enum Type from crates/core/src/ty.rs
//@ subst <I = IriBuf> => <I>
//@ end
impl<I: Clone> Clone for Type<I> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<I> Type<I> {
//@ extract fn impl Type > into_iri from crates/core/src/ty.rs
//@ ret r
//@ spec
    ensures self matches Type::Iri(i) ==> r == Ok::<I, Type<I>>(i), !(self is Iri) ==> r == Err::<I, Type<I>>(self),
//@ end
}
impl<T> Nullable<T> {
//@ extract fn impl Nullable > option from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures r == match self { Nullable::Null => None, Nullable::Some(t) => Some(t) },
//@ end
}
impl<'a> Nullable<&'a LenientLangTagBuf> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Nullable<LenientLangTagBuf>)
        ensures r is Some == self is Some, r is Some ==> buf_text(r->Some_0) == buf_text(*self->Some_0)
    { unimplemented!() }
}
// active contexts; their accessors are proved in defs.rs
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Context<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct TermDefinitionRef<'c, T, B> { x: core::marker::PhantomData<(&'c T, B)> }
impl<'c, T, B> Clone for TermDefinitionRef<'c, T, B> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'c, T, B> Copy for TermDefinitionRef<'c, T, B> {}
pub uninterp spec fn def<'c, T, B>(c: Context<T, B>, s: Seq<char>) -> Option<TermDefinitionRef<'c, T, B>>;
pub uninterp spec fn dtyp<T, B>(d: TermDefinitionRef<T, B>) -> Option<Type<T>>;
pub uninterp spec fn dlang<T, B>(d: TermDefinitionRef<T, B>) -> Option<Option<Seq<char>>>;
pub uninterp spec fn ddir<T, B>(d: TermDefinitionRef<T, B>) -> Option<Nullable<Direction>>;
pub uninterp spec fn dlist<T, B>(d: TermDefinitionRef<T, B>) -> bool;
pub uninterp spec fn clang<T, B>(c: Context<T, B>) -> Option<Seq<char>>;
pub uninterp spec fn cdir<T, B>(c: Context<T, B>) -> Option<Direction>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ContainerKind { Graph, Id, Index, Language, List, Set, Type }
pub struct Container { pub list: bool }
impl Container {
    #[verifier::external_body]
    pub fn contains(&self, k: ContainerKind) -> (r: bool) ensures k == ContainerKind::List ==> r == self.list { unimplemented!() }
}
impl<'c, T, B> TermDefinitionRef<'c, T, B> {
    #[verifier::external_body]
    pub fn typ(&self) -> (r: Option<&Type<T>>) ensures r is Some == dtyp(*self) is Some, r is Some ==> *r->0 == dtyp(*self)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn container(&self) -> (r: Container) ensures r.list == dlist(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn language(&self) -> (r: Option<Nullable<&LenientLangTagBuf>>)
        ensures r is Some == dlang(*self) is Some, r matches Some(Nullable::Some(t)) ==> dlang(*self)->0 == Some(buf_text(*t)), r matches Some(Nullable::Null) ==> dlang(*self)->0 is None { unimplemented!() }
    #[verifier::external_body]
    pub fn direction(&self) -> (r: Option<Nullable<Direction>>) ensures r == ddir(*self) { unimplemented!() }
}
impl<T, B> Context<T, B> {
    #[verifier::external_body]
    pub fn get<'c>(&'c self, s: &str) -> (r: Option<TermDefinitionRef<'c, T, B>>) ensures r == def(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_language(&self) -> (r: Option<&LenientLangTag>) ensures r is Some == clang(*self) is Some, r is Some ==> tag_text(r->0) == clang(*self)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn default_base_direction(&self) -> (r: Option<Direction>) ensures r == cdir(*self) { unimplemented!() }
}
/// IRI expansion, proved in iris.rs; `None` for the vocabulary action means vocabulary relative expansion is off
pub uninterp spec fn xiri<T, B>(c: Context<T, B>, s: Seq<char>, document_relative: bool, vocab: Option<Action>) -> Result<Option<Term<T, B>>, ()>;
/// proved in iris.rs (lemma always_something)
pub broadcast axiom fn xiri_some<T, B>(c: Context<T, B>, s: Seq<char>, document_relative: bool)
    ensures #[trigger] xiri(c, s, document_relative, None) matches Ok(Some(_));
#[verifier::external_body]
pub fn expand_iri<N: VocabularyMut, L, W: WarningHandler<N>>(env: &mut Environment<N, L, W>, active_context: &Context<N::Iri, N::BlankId>, value: Nullable<ExpandableRef>, document_relative: bool, vocab: Option<Action>)
    -> (r: Result<Option<Term<N::Iri, N::BlankId>>, RejectVocab>)
    requires value is Some,
    ensures r matches Ok(t) ==> xiri(*active_context, value->Some_0.0@, document_relative, vocab) == Ok::<Option<Term<N::Iri, N::BlankId>>, ()>(t),
        r is Err ==> xiri(*active_context, value->Some_0.0@, document_relative, vocab) is Err,
{ unimplemented!() }

// ---- objects in expanded form ----------------------------------------------------------------------
/// an insertion ordered set of expanded objects, as far as it is used
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Graph<T, B> { x: core::marker::PhantomData<(T, B)> }
pub uninterp spec fn members<T, B>(g: Graph<T, B>) -> Set<IndexedObject<T, B>>;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Included<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Properties<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct ReverseProperties<T, B> { x: core::marker::PhantomData<(T, B)> }
pub uninterp spec fn no_properties<T, B>(p: Properties<T, B>) -> bool;
impl<T, B> Properties<T, B> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures no_properties(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == no_properties(*self) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// no entry other than possibly @id
pub open spec fn bare<T, B>(n: Node<T, B>) -> bool { n.types is None && n.graph is None && n.included is None && no_properties(n.properties) && n.reverse_properties is None }
pub open spec fn only_graph<T, B>(n: Node<T, B>) -> bool { n.graph is Some && n.id is None && n.types is None && n.included is None && no_properties(n.properties) && n.reverse_properties is None }
impl<T, B> Node<T, B> {
//@ extract fn impl Node > new from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r.id is None, bare(r),
//@ end
//@ extract fn impl Node > is_unnamed_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == only_graph(*self),
//@ end
//@ extract fn impl Node > into_unnamed_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == if only_graph(self) { Ok::<Graph<T, B>, Node<T, B>>(self.graph->0) } else { Err::<Graph<T, B>, Node<T, B>>(self) },
//@ end
}
//@ extract enum Literal from crates/core/src/object/value.rs
//@ subst NumberBuf => JsNumber
//@ subst json_syntax::String => JsString
//@ end
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst <T = IriBuf> => <T>
//@ subst json_syntax::Value => JsValue
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct List from crates/core/src/object/list.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub mod object { pub use super::List; }
impl<T, B> List<T, B> {
//@ extract fn impl List > new from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r.entry == objects,
//@ end
}
impl<T, B> Object<T, B> {
//@ extract fn impl Object > node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r matches Object::Node(b) && *b == n,
//@ end
//@ extract fn impl Object > is_list from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == (*self is List),
//@ end
}
impl<T> Indexed<T> {
//@ extract fn impl Indexed > new from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index == index,
//@ end
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
//@ extract fn impl Indexed > index from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r is Some == self.index is Some, r is Some ==> r->0@ == self.index->0@,
//@ end
//@ extract fn impl Indexed > into_parts from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r == (self.value, self.index),
//@ end
}
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for Indexed<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: T) -> Self { Indexed { index: None, value: t } }
}
impl<T> From<T> for Indexed<T> {
//@ extract fn impl From<T> for Indexed > from from crates/core/src/indexed.rs
//@ ret r
//@ subst Self::none(value) => Indexed { index: None, value }
//@ end
}

// ---- value expansion ----------------------------------------------------------------------------------
//@ extract enum ActiveProperty from crates/expansion/src/element.rs
//@ end
impl<'a> Clone for ActiveProperty<'a> {
//@ extract fn impl Clone for ActiveProperty > clone from crates/expansion/src/element.rs
//@ ret r
//@ spec
    ensures r == *self,
//@ end
}
impl<'a> Copy for ActiveProperty<'a> {}
pub open spec fn prop_def<'c, T, B>(p: ActiveProperty, c: Context<T, B>) -> Option<TermDefinitionRef<'c, T, B>> {
    match p { ActiveProperty::Some(s) => def(c, s@), ActiveProperty::None => None }
}
impl<'a> ActiveProperty<'a> {
//@ extract fn impl ActiveProperty > is_some from crates/expansion/src/element.rs
//@ ret r
//@ spec
    ensures r == (*self is Some),
//@ end
//@ extract fn impl ActiveProperty > is_none from crates/expansion/src/element.rs
//@ ret r
//@ spec
    ensures r == (*self is None),
//@ end
//@ extract fn impl ActiveProperty > get_from from crates/expansion/src/element.rs
//@ ret r
//@ subst json_ld_core::context::TermDefinitionRef => TermDefinitionRef
//@ spec
    ensures r == prop_def(*self, *context),
//@ end
}
//@ extract enum GivenLiteralValue from crates/expansion/src/literal.rs
//@ subst &'a Number => &'a JsNumber
//@ end
//@ extract enum LiteralValue from crates/expansion/src/literal.rs
//@ end
//@ extract enum LiteralExpansionError from crates/expansion/src/literal.rs
//@ end
impl vstd::std_specs::convert::FromSpecImpl<RejectVocab> for LiteralExpansionError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: RejectVocab) -> Self { LiteralExpansionError::ForbiddenVocab }
}
impl From<RejectVocab> for LiteralExpansionError {
//@ extract fn impl From<RejectVocab> for LiteralExpansionError > from from crates/expansion/src/literal.rs
//@ ret r
//@ end
}
/// the JSON value to be expanded
pub open spec fn given(v: GivenLiteralValue) -> Literal {
    match v { GivenLiteralValue::Boolean(b) => Literal::Boolean(b), GivenLiteralValue::Number(n) => Literal::Number(*n), GivenLiteralValue::String(s) => Literal::String(js_str(s@)) }
}
pub open spec fn raw(v: LiteralValue) -> Literal { match v { LiteralValue::Given(g) => given(g), LiteralValue::Inferred(s) => Literal::String(s) } }
pub open spec fn raw_text(v: LiteralValue) -> Option<Seq<char>> {
    match v { LiteralValue::Given(GivenLiteralValue::String(s)) => Some(s@), LiteralValue::Inferred(s) => Some(js(s)), _ => None }
}
pub open spec fn scalar(v: JsValue) -> bool { v is Boolean || v is Number || v is String }
pub open spec fn json(l: Literal) -> JsValue { match l { Literal::Null => JsValue::Null, Literal::Boolean(b) => JsValue::Boolean(b), Literal::Number(n) => JsValue::Number(n), Literal::String(s) => JsValue::String(s) } }
impl<'a> GivenLiteralValue<'a> {
//@ extract fn impl GivenLiteralValue > new from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    requires scalar(*value),
    ensures match (*value, r) {
        (JsValue::Boolean(b), GivenLiteralValue::Boolean(c)) => b == c,
        (JsValue::Number(b), GivenLiteralValue::Number(c)) => b == *c,
        (JsValue::String(b), GivenLiteralValue::String(c)) => js(b) == c@,
        _ => false,
    },
//@ end
//@ extract fn impl GivenLiteralValue > is_string from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    ensures r == (*self is String),
//@ end
//@ extract fn impl GivenLiteralValue > as_str from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    ensures r == match *self { GivenLiteralValue::String(s) => Some(s), _ => None },
//@ end
}
impl<'a> LiteralValue<'a> {
//@ extract fn impl LiteralValue > is_string from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    ensures r == raw_text(*self) is Some,
//@ end
//@ extract fn impl LiteralValue > as_str from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    ensures r is Some == raw_text(*self) is Some, r is Some ==> r->0@ == raw_text(*self)->0,
//@ end
}
pub open spec fn id_of<T, B>(t: Term<T, B>, r: Option<Id<T, B>>) -> bool {
    match t { Term::Null => r is None, Term::Id(i) => r == Some(i), Term::Keyword(k) => r matches Some(Id::Invalid(s)) && s@ == kw(k) }
}
//@ extract fn node_id_of_term from crates/expansion/src/node.rs
//@ ret r
//@ spec
    ensures id_of(term, r),
//@ end
/// a node object with an identifier and nothing else
pub open spec fn reference<T, B>(o: IndexedObject<T, B>, t: Option<Term<T, B>>) -> bool {
    o.index is None && (o.value matches Object::Node(n) && bare(*n) && match t { Some(t) => id_of(t, n.id), None => n.id is None })
}
/// the language of a string: that of the property, null included, else that of the context
pub open spec fn lang_of<T, B>(c: Context<T, B>, p: ActiveProperty) -> Option<Seq<char>> {
    match prop_def(p, c) { Some(d) => match dlang(d) { Some(l) => l, None => clang(c) }, None => clang(c) }
}
pub open spec fn dir_of<T, B>(c: Context<T, B>, p: ActiveProperty) -> Option<Direction> {
    match prop_def(p, c) { Some(d) => match ddir(d) { Some(Nullable::Some(x)) => Some(x), Some(Nullable::Null) => None, None => cdir(c) }, None => cdir(c) }
}
pub open spec fn lang_text(l: Option<LenientLangTagBuf>) -> Option<Seq<char>> { match l { Some(t) => Some(buf_text(t)), None => None } }
pub open spec fn string_object<T, B>(o: IndexedObject<T, B>, s: JsString, lang: Option<Seq<char>>, d: Option<Direction>) -> bool {
    if lang is None && d is None { o.value matches Object::Value(Value::Literal(Literal::String(x), None)) && x == s }
    else { o.value matches Object::Value(Value::LangString(l)) && l.data == s && lang_text(l.language) == lang && l.direction == d }
}
/// Value Expansion (JSON-LD 1.1 API, section 5.3.2)
pub open spec fn value_expanded<T, B>(c: Context<T, B>, p: ActiveProperty, policy: Action, v: LiteralValue, r: Result<IndexedObject<T, B>, LiteralExpansionError>) -> bool {
    let typ = match prop_def(p, c) { Some(d) => dtyp(d), None => None };
    let text = raw_text(v);
    if typ == Some(Type::<T>::Id) && text is Some { r is Ok && reference(r->Ok_0, xiri(c, text->0, true, None)->Ok_0) }
    else if typ == Some(Type::<T>::Vocab) && text is Some {
        match xiri(c, text->0, true, Some(policy)) { Ok(t) => r is Ok && reference(r->Ok_0, t), Err(_) => r is Err }
    } else {
        r is Ok && r->Ok_0.index is None && match typ {
            Some(Type::Iri(t)) => r->Ok_0.value == Object::<T, B>::Value(Value::Literal(raw(v), Some(t))),
            Some(Type::Json) => r->Ok_0.value == Object::<T, B>::Value(Value::Json(json(raw(v)))),
            _ => if text is Some { string_object(r->Ok_0, raw(v)->String_0, lang_of(c, p), dir_of(c, p)) }
                else { r->Ok_0.value == Object::<T, B>::Value(Value::Literal(raw(v), None)) },
        }
    }
}
//@ extract fn expand_literal from crates/expansion/src/literal.rs
//@ ret r
//@ subst LiteralExpansionResult<N::Iri, N::BlankId> => Result<IndexedObject<N::Iri, N::BlankId>, LiteralExpansionError>
//@ subst json_syntax::NumberBuf::new_unchecked(n.as_bytes().into()) => vx_number(n)
//@ desugar option.map
//@ start
    broadcast use {xiri_some, js_str_text};
//@ spec
    ensures value_expanded(*active_context, active_property, vocab_policy, value, r),
//@ end

// ---- value objects --------------------------------------------------------------------------------------
//@ extract enum InvalidValue from crates/expansion/src/value.rs
//@ end
impl vstd::std_specs::convert::FromSpecImpl<RejectVocab> for InvalidValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: RejectVocab) -> Self { InvalidValue::ForbiddenVocab }
}
impl From<RejectVocab> for InvalidValue {
//@ extract fn impl From<RejectVocab> for InvalidValue > from from crates/expansion/src/value.rs
//@ ret r
//@ end
}
//@ extract struct ExpandedEntry from crates/expansion/src/element.rs
//@ subst pub &'a Value => pub &'a JsValue
//@ end
/// a vector of entries, as far as it is used: iterating yields them in order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Entries<'a, T, B> { x: core::marker::PhantomData<(&'a T, B)> }
pub uninterp spec fn ents<'a, T, B>(e: Entries<'a, T, B>) -> Seq<ExpandedEntry<'a, T, B>>;
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct EntriesIter<'a, T, B> { pub rest: Ghost<Seq<ExpandedEntry<'a, T, B>>> }
impl<'a, T, B> Entries<'a, T, B> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: EntriesIter<'a, T, B>) ensures r.rest@ == ents(self) { unimplemented!() }
}
impl<'a, T, B> EntriesIter<'a, T, B> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<ExpandedEntry<'a, T, B>>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}
/// what is known after some entries of a value object
pub struct St<T> { pub typed: bool, pub json: bool, pub ty: Option<T>, pub index: Option<Seq<char>>, pub lang: Option<Seq<char>>, pub dir: Option<Direction> }
/// one entry of a value object: the error it is, or what it adds
pub open spec fn step<T, B>(c: Context<T, B>, policy: Action, st: St<T>, e: ExpandedEntry<T, B>) -> Result<St<T>, InvalidValue> {
    let text = match *e.2 { JsValue::String(s) => Some(js(s)), _ => None };
    match e.1 {
        Term::Keyword(Keyword::Value) => Ok(st),
        Term::Keyword(Keyword::Language) => match text { None => Err(InvalidValue::LanguageTaggedString), Some(l) => Ok(if l == "@none"@ { st } else { St { lang: Some(l), ..st } }) },
        Term::Keyword(Keyword::Direction) => match text { None => Err(InvalidValue::BaseDirection), Some(l) => match direction_named(l) { None => Err(InvalidValue::BaseDirection), Some(d) => Ok(St { dir: Some(d), ..st }) } },
        Term::Keyword(Keyword::Index) => match text { None => Err(InvalidValue::IndexValue), Some(l) => Ok(St { index: Some(l), ..st }) },
        Term::Keyword(Keyword::Type) => if st.typed { Err(InvalidValue::TypedValue) } else { match text {
            None => Err(InvalidValue::TypedValue),
            Some(t) => match xiri(c, t, true, Some(policy)) {
                Err(_) => Err(InvalidValue::ForbiddenVocab),
                Ok(Some(Term::Keyword(Keyword::Json))) => Ok(St { typed: true, json: true, ..st }),
                Ok(Some(Term::Id(Id::Valid(ValidId::Iri(t))))) => Ok(St { typed: true, json: false, ty: Some(t), ..st }),
                _ => Err(InvalidValue::TypedValue),
            },
        } },
        _ => Err(InvalidValue::ValueObject),
    }
}
pub open spec fn scan<T, B>(c: Context<T, B>, policy: Action, st: St<T>, e: Seq<ExpandedEntry<T, B>>) -> Result<St<T>, InvalidValue>
    decreases e.len()
{
    if e.len() == 0 { Ok(st) } else { match scan(c, policy, st, e.drop_last()) { Err(x) => Err(x), Ok(st) => step(c, policy, st, e.last()) } }
}
proof fn scan_err<T, B>(c: Context<T, B>, policy: Action, st: St<T>, e: Seq<ExpandedEntry<T, B>>, i: int)
    requires 0 <= i <= e.len(), scan(c, policy, st, e.take(i)) is Err,
    ensures scan(c, policy, st, e) == scan(c, policy, st, e.take(i)),
    decreases e.len() - i
{
    if i < e.len() {
        assert(e.take(i + 1).drop_last() =~= e.take(i));
        scan_err(c, policy, st, e, i + 1);
    } else { assert(e.take(i) =~= e); }
}
proof fn scan_next<T, B>(c: Context<T, B>, policy: Action, st: St<T>, e: Seq<ExpandedEntry<T, B>>, i: int)
    requires 0 <= i < e.len(), scan(c, policy, st, e.take(i)) is Ok,
    ensures scan(c, policy, st, e.take(i + 1)) == step(c, policy, scan(c, policy, st, e.take(i))->Ok_0, e[i]),
{
    assert(e.take(i + 1).drop_last() =~= e.take(i));
}
/// an accepted value object has only entries of value objects, of the right types, and at most one @type
proof fn accepted<T, B>(c: Context<T, B>, policy: Action, st: St<T>, e: Seq<ExpandedEntry<T, B>>)
    requires scan(c, policy, st, e) is Ok,
    ensures
        st.typed ==> scan(c, policy, st, e)->Ok_0.typed,
        forall|i: int| 0 <= i < e.len() ==> ((#[trigger] e[i]).1 matches Term::Keyword(k) && (k == Keyword::Value || k == Keyword::Language || k == Keyword::Direction || k == Keyword::Index || k == Keyword::Type) && (k != Keyword::Value ==> *e[i].2 is String)),
        forall|i: int, j: int| 0 <= i < j < e.len() ==> !((#[trigger] e[i]).1 == Term::<T, B>::Keyword(Keyword::Type) && (#[trigger] e[j]).1 == Term::<T, B>::Keyword(Keyword::Type)),
        forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 == Term::<T, B>::Keyword(Keyword::Type) ==> scan(c, policy, st, e)->Ok_0.typed,
    decreases e.len()
{
    if e.len() > 0 {
        accepted(c, policy, st, e.drop_last());
        assert forall|i: int| 0 <= i < e.len() - 1 implies e.drop_last()[i] == #[trigger] e[i] by {}
        let n = e.len() - 1;
        assert(e[n] == e.last());
        assert forall|i: int| 0 <= i < e.len() implies ((#[trigger] e[i]).1 matches Term::Keyword(k) && (k == Keyword::Value || k == Keyword::Language || k == Keyword::Direction || k == Keyword::Index || k == Keyword::Type) && (k != Keyword::Value ==> *e[i].2 is String)) by { if i < n { let x = e.drop_last()[i]; } }
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies !((#[trigger] e[i]).1 == Term::<T, B>::Keyword(Keyword::Type) && (#[trigger] e[j]).1 == Term::<T, B>::Keyword(Keyword::Type)) by { let x = e.drop_last()[i]; if j < n { let y = e.drop_last()[j]; } }
        assert forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 == Term::<T, B>::Keyword(Keyword::Type) implies scan(c, policy, st, e)->Ok_0.typed by { if i < n { let x = e.drop_last()[i]; } }
    }
}
pub open spec fn otext(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn scalar_or_null(v: JsValue) -> Option<Literal> {
    match v { JsValue::Null => Some(Literal::Null), JsValue::Boolean(b) => Some(Literal::Boolean(b)), JsValue::Number(n) => Some(Literal::Number(n)), JsValue::String(s) => Some(Literal::String(s)), _ => None }
}
/// the object denoted by the entries of a value object (steps 13.4 and 15 of the expansion algorithm)
pub open spec fn value_object<T, B>(st: St<T>, v: JsValue, r: Result<Option<IndexedObject<T, B>>, InvalidValue>) -> bool {
    let tagged = st.lang is Some || st.dir is Some;
    if st.json {
        if tagged { r == Err::<Option<IndexedObject<T, B>>, _>(InvalidValue::ValueObject) }
        else { r matches Ok(Some(o)) && o.value == Object::<T, B>::Value(Value::Json(v)) && otext(o.index) == st.index }
    } else { match scalar_or_null(v) {
        None => r == Err::<Option<IndexedObject<T, B>>, _>(InvalidValue::ValueObjectValue),
        Some(Literal::Null) => r == Ok::<Option<IndexedObject<T, B>>, InvalidValue>(None),
        Some(l) => if tagged {
            if st.ty is Some { r == Err::<Option<IndexedObject<T, B>>, _>(InvalidValue::ValueObject) }
            else if !(l is String) { r == Err::<Option<IndexedObject<T, B>>, _>(InvalidValue::LanguageTaggedValue) }
            else { r matches Ok(Some(o)) && string_object(o, l->String_0, st.lang, st.dir) && otext(o.index) == st.index }
        } else { r matches Ok(Some(o)) && o.value == Object::<T, B>::Value(Value::Literal(l, st.ty)) && otext(o.index) == st.index },
    } }
}
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a);
pub open spec fn start<T, B>(input_type: Option<Term<T, B>>) -> St<T> {
    St { typed: false, json: input_type == Some(Term::<T, B>::Keyword(Keyword::Json)), ty: None, index: None, lang: None, dir: None }
}
//@ extract fn expand_value from crates/expansion/src/value.rs
//@ ret r
//@ subst ValueExpansionResult<N::Iri, N::BlankId> => Result<Option<IndexedObject<N::Iri, N::BlankId>>, InvalidValue>
//@ subst Vec<ExpandedEntry<N::Iri, N::BlankId>> => Entries<N::Iri, N::BlankId>
//@ desugar option.map
//@ start
    let ghost all = ents(expanded_entries);
    let ghost st0 = start(input_type);
    let ghost mut i: int = 0;
    broadcast use js_str_text;
//@ desugar-for 0 it
    invariant 0 <= i <= all.len(), it.rest@ =~= all.skip(i), st0 == start(input_type), all == ents(expanded_entries),
        scan(*type_scoped_context, vocab_policy, st0, all.take(i)) == Ok::<St<N::Iri>, InvalidValue>(St { typed: has_type, json: is_json, ty, index: otext(index), lang: otext(language), dir: direction }),
    ensures i == all.len(),
    decreases all.len() - i,
//@ loop 0 body-start
    proof {
        scan_next(*type_scoped_context, vocab_policy, st0, all, i);
        if scan(*type_scoped_context, vocab_policy, st0, all.take(i + 1)) is Err { scan_err(*type_scoped_context, vocab_policy, st0, all, i + 1); }
        i = i + 1;
        assert(all.take(all.len() as int) =~= all);
    }
//@ before "if is_json"
    proof { assert(all.take(i) =~= all); }
//@ spec
    ensures match scan(*type_scoped_context, vocab_policy, start(input_type), ents(expanded_entries)) {
        Ok(st) => value_object(st, *value_entry, r),
        Err(InvalidValue::ForbiddenVocab) => r is Err,
        Err(e) => r == Err::<Option<IndexedObject<N::Iri, N::BlankId>>, _>(e),
    },
//@ end

// ---- results of the expansion of an element ---------------------------------------------------------------
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum Expanded from crates/expansion/src/expanded.rs
//@ end
/// the expanded objects, in order
pub open spec fn items<T, B>(e: Expanded<T, B>) -> Seq<IndexedObject<T, B>> {
    match e { Expanded::Null => Seq::empty(), Expanded::Object(o) => seq![o], Expanded::Array(a) => a@ }
}
/// stands for the iterator of a vector
#[verifier::reject_recursive_types(X)]
pub struct Items<X> { pub rest: Ghost<Seq<X>> }
impl<X> Items<X> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_items<X>(v: Vec<X>) -> (r: Items<X>) ensures r.rest@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_refs<'a, X>(v: &'a Vec<X>) -> (r: Items<&'a X>) ensures r.rest@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.rest@[i]) == v@[i] { unimplemented!() }
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum IntoIter from crates/expansion/src/expanded.rs
//@ subst std::vec::IntoIter => Items
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum Iter from crates/expansion/src/expanded.rs
//@ subst std::slice::Iter<'a, IndexedObject<T, B>> => Items<&'a IndexedObject<T, B>>
//@ end
pub open spec fn owned<T, B>(i: IntoIter<T, B>) -> Seq<IndexedObject<T, B>> {
    match i { IntoIter::Null => Seq::empty(), IntoIter::Object(o) => match o { Some(o) => seq![o], None => Seq::empty() }, IntoIter::Array(a) => a.rest@ }
}
pub open spec fn borrowed<'a, T, B>(i: Iter<'a, T, B>) -> Seq<&'a IndexedObject<T, B>> {
    match i { Iter::Null => Seq::empty(), Iter::Object(o) => match o { Some(o) => seq![o], None => Seq::empty() }, Iter::Array(a) => a.rest@ }
}
impl<T, B> IntoIter<T, B> {
//@ extract fn impl Iterator for IntoIter > next from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures owned(*old(self)).len() == 0 ==> r is None && owned(*final(self)) =~= owned(*old(self)),
        owned(*old(self)).len() > 0 ==> r == Some(owned(*old(self))[0]) && owned(*final(self)) =~= owned(*old(self)).skip(1),
//@ end
}
impl<'a, T, B> Iter<'a, T, B> {
//@ extract fn impl Iterator for Iter > next from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures borrowed(*old(self)).len() == 0 ==> r is None && borrowed(*final(self)) =~= borrowed(*old(self)),
        borrowed(*old(self)).len() > 0 ==> r == Some(borrowed(*old(self))[0]) && borrowed(*final(self)) =~= borrowed(*old(self)).skip(1),
//@ end
}
impl<T, B> Indexed<Object<T, B>> {
    #[verifier::external_body]
    pub fn is_list(&self) -> (r: bool) ensures r == (self.value is List) { unimplemented!() }
//@ extract fn impl Indexed > into_unnamed_graph from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures match self.value {
        Object::Node(n) if only_graph(*n) => r == Ok::<Graph<T, B>, IndexedObject<T, B>>(n.graph->0),
        _ => r matches Err(o) && o == self,
    },
//@ end
}
impl<T, B> Expanded<T, B> {
//@ extract fn impl Expanded > len from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures r == items(*self).len(),
//@ end
//@ extract fn impl Expanded > is_empty from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures r == (items(*self).len() == 0),
//@ end
//@ extract fn impl Expanded > is_null from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures r == (*self is Null),
//@ end
//@ extract fn impl Expanded > is_list from crates/expansion/src/expanded.rs
//@ ret r
//@ spec
    ensures r == (*self matches Expanded::Object(o) && o.value is List),
//@ end
//@ extract fn impl Expanded > iter from crates/expansion/src/expanded.rs
//@ ret r
//@ subst ary.iter() => vx_refs(ary)
//@ spec
    ensures borrowed(r).len() == items(*self).len(), forall|i: int| 0 <= i < items(*self).len() ==> *(#[trigger] borrowed(r)[i]) == items(*self)[i],
//@ end
//@ extract fn impl IntoIterator for Expanded > into_iter from crates/expansion/src/expanded.rs
//@ ret r
//@ subst ary.into_iter() => vx_items(ary)
//@ spec
    ensures owned(r) =~= items(self),
//@ end
}

// ---- arrays and documents -----------------------------------------------------------------------------------
pub struct Error { x: u8 }
#[derive(Clone, Copy)]
pub struct Options { pub x: u8 }
pub uninterp spec fn array_items(a: JsArray) -> Seq<JsValue>;
impl JsArray {
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Items<&'a JsValue>) ensures r.rest@.len() == array_items(*self).len(), forall|i: int| 0 <= i < r.rest@.len() ==> *(#[trigger] r.rest@[i]) == array_items(*self)[i] { unimplemented!() }
}
/// stands for Vec::extend with the items of an expanded element, whose iterator is above
#[verifier::external_body]
fn vx_extend<T, B>(v: &mut Vec<IndexedObject<T, B>>, e: Expanded<T, B>) ensures final(v)@ == old(v)@ + items(e) { unimplemented!() }
/// the expansion of one element, as specified to this point
pub uninterp spec fn element<'a, T, B>(c: Context<T, B>, p: ActiveProperty<'a>, e: JsValue, base: Option<T>, o: Options, from_map: bool) -> Result<Expanded<T, B>, Error>;
pub open spec fn oref<X>(o: Option<&X>) -> Option<X> { match o { Some(x) => Some(*x), None => None } }
#[verifier::external_body]
async fn expand_element<'a, N: VocabularyMut, L: Loader, W: WarningHandler<N>>(env: Environment<'a, N, L, W>, active_context: &'a Context<N::Iri, N::BlankId>, active_property: ActiveProperty<'a>, element: &'a JsValue, base_url: Option<&'a N::Iri>, options: Options, from_map: bool)
    -> (r: Result<Expanded<N::Iri, N::BlankId>, Error>)
    ensures r == self::element(*active_context, active_property, *element, oref(base_url), options, from_map),
{ unimplemented!() }
/// the objects of an expanded item: an array in a list container is a list of its own
pub open spec fn contribution<T, B>(is_list: bool, e: Expanded<T, B>) -> Seq<IndexedObject<T, B>> {
    match e { Expanded::Array(v) if is_list => seq![Indexed { index: None, value: Object::List(List { entry: v }) }], e => items(e) }
}
/// the items expanded one by one, in order; the first error is the error
pub open spec fn gather<'a, T, B>(c: Context<T, B>, p: ActiveProperty<'a>, base: Option<T>, o: Options, from_map: bool, is_list: bool, all: Seq<JsValue>) -> Result<Seq<IndexedObject<T, B>>, Error>
    decreases all.len()
{
    if all.len() == 0 { Ok(Seq::empty()) } else {
        match gather(c, p, base, o, from_map, is_list, all.drop_last()) {
            Err(e) => Err(e),
            Ok(before) => match element(c, p, all.last(), base, o, from_map) { Err(e) => Err(e), Ok(x) => Ok(before + contribution(is_list, x)) },
        }
    }
}
proof fn gather_err<'a, T, B>(c: Context<T, B>, p: ActiveProperty<'a>, base: Option<T>, o: Options, from_map: bool, is_list: bool, all: Seq<JsValue>, i: int)
    requires 0 <= i <= all.len(), gather(c, p, base, o, from_map, is_list, all.take(i)) is Err,
    ensures gather(c, p, base, o, from_map, is_list, all) == gather(c, p, base, o, from_map, is_list, all.take(i)),
    decreases all.len() - i
{
    if i < all.len() { assert(all.take(i + 1).drop_last() =~= all.take(i)); gather_err(c, p, base, o, from_map, is_list, all, i + 1); } else { assert(all.take(i) =~= all); }
}
/// stands for `Box::pin`: awaiting a boxed future is awaiting the future
pub struct Box_;
impl Box_ { fn pin<X>(x: X) -> (r: X) ensures r == x { x } }
//@ extract fn expand_array from crates/expansion/src/array.rs
//@ ret r
//@ subst Box::pin => Box_::pin
//@ subst &Array => &JsArray
//@ subst result.extend(e) => vx_extend(&mut result, e)
//@ start
    let ghost all = array_items(*element);
    let ghost mut i: int = 0;
    let ghost list = active_property_definition is Some && dlist(active_property_definition->0);
//@ desugar-for 0 it
    invariant 0 <= i <= all.len(), it.rest@.len() == all.len() - i, forall|k: int| 0 <= k < it.rest@.len() ==> *(#[trigger] it.rest@[k]) == all[i + k],
        list == (active_property_definition is Some && dlist(active_property_definition->0)), all == array_items(*element), list == is_list,
        gather(*active_context, active_property, oref(base_url), options, from_map, list, all.take(i)) matches Ok(s) && s =~= result@,
    ensures i == all.len(),
    decreases all.len() - i,
//@ loop 0 body-start
    proof {
        assert(all.take(i + 1).drop_last() =~= all.take(i));
        if gather(*active_context, active_property, oref(base_url), options, from_map, list, all.take(i + 1)) is Err { gather_err(*active_context, active_property, oref(base_url), options, from_map, list, all, i + 1); }
        assert(*item == all[i]);
        i = i + 1;
    }
//@ before "Ok(Expanded::Array(result))"
    proof { assert(all.take(i) =~= all); }
//@ spec
    ensures match gather(*active_context, active_property, oref(base_url), options, from_map, active_property_definition is Some && dlist(active_property_definition->0), array_items(*element)) {
        Ok(all) => r matches Ok(Expanded::Array(v)) && v@ == all,
        Err(e) => r == Err::<Expanded<N::Iri, N::BlankId>, _>(e),
    },
//@ end
/// an expanded document is the set of its objects
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct ExpandedDocument<T, B> { x: core::marker::PhantomData<(T, B)> }
pub uninterp spec fn objects<T, B>(d: ExpandedDocument<T, B>) -> Set<IndexedObject<T, B>>;
impl<T, B> ExpandedDocument<T, B> {
    #[verifier::external_body]
    pub fn from(g: Graph<T, B>) -> (r: Self) ensures objects(r) == members(g) { unimplemented!() }
}
/// stands for `.into_iter().filter(f).collect()`: the items for which `f` answers true
#[verifier::external_body]
fn vx_filter<T, B, F: Fn(&IndexedObject<T, B>) -> bool>(e: Expanded<T, B>, f: F) -> (r: ExpandedDocument<T, B>)
    requires forall|o: &IndexedObject<T, B>| f.requires((o,)),
    ensures forall|o: IndexedObject<T, B>| (#[trigger] objects(r).contains(o) ==> items(e).contains(o) && f.ensures((&o,), true)) && (items(e).contains(o) && !f.ensures((&o,), false) ==> objects(r).contains(o)),
{ unimplemented!() }
#[verifier::external_body]
fn vx_filter_one<T, B, F: Fn(&IndexedObject<T, B>) -> bool>(e: Option<IndexedObject<T, B>>, f: F) -> (r: ExpandedDocument<T, B>)
    requires forall|o: &IndexedObject<T, B>| f.requires((o,)),
    ensures forall|o: IndexedObject<T, B>| (#[trigger] objects(r).contains(o) ==> e == Some(o) && f.ensures((&o,), true)) && (e == Some(o) && !f.ensures((&o,), false) ==> objects(r).contains(o)),
{ unimplemented!() }
/// the objects of an expanded document: an index-free lone map with only @graph stands for its graph, free floating values are dropped
pub open spec fn in_document<T, B>(e: Expanded<T, B>, x: IndexedObject<T, B>) -> bool {
    match e {
        Expanded::Object(o) if o.index is None && (o.value matches Object::Node(n) && only_graph(*n)) => members((*o.value->Node_0).graph->0).contains(x),
        _ => items(e).contains(x) && !(x.value is Value),
    }
}
//@ extract fn filter_top_level_item from crates/expansion/src/document.rs
//@ ret r
//@ spec
    ensures r == !(item.value is Value),
//@ end
//@ extract fn expand from crates/expansion/src/document.rs
//@ ret r
//@ subst document: &'a Value => document: &'a JsValue
//@ subst Some(obj).into_iter().filter(filter_top_level_item).collect() => vx_filter_one(Some(obj), filter_top_level_item)
//@ subst expanded.into_iter().filter(filter_top_level_item).collect() => vx_filter(expanded, filter_top_level_item)
//@ before "match expanded"
    proof { if expanded is Object { assert(items(expanded)[0] == expanded->Object_0); } }
//@ spec
    ensures match element(active_context, ActiveProperty::None, *document, oref(base_url), options, false) {
        Ok(e) => r is Ok && (forall|x: IndexedObject<N::Iri, N::BlankId>| #[trigger] objects(r->Ok_0).contains(x) == in_document(e, x)),
        Err(e) => r == Err::<ExpandedDocument<N::Iri, N::BlankId>, _>(e),
    },
//@ end
}
fn main() {}
