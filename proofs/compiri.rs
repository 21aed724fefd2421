#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
pub mod object { pub use super::{Any, Ref}; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum ProcessingMode from crates/core/src/mode.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Container from crates/core/src/container.rs
//@ end
#[derive(Clone, Copy)]
//@ extract struct Options from crates/compaction/src/lib.rs
//@ end
//@ extract struct IriConfusedWithPrefix from crates/compaction/src/iri.rs
//@ end
#[verifier::external_body] pub struct Iri { x: u8 }
#[verifier::external_body] pub struct IriBuf { x: u8 }
#[verifier::external_body] pub struct IriRefBuf { x: u8 }
#[verifier::external_body] pub struct Scheme { x: u8 }
#[verifier::external_body] pub struct Authority { x: u8 }
#[verifier::external_body] pub struct LenientLangTag { x: u8 }
#[verifier::external_body] pub struct LangString { x: u8 }
#[verifier::external_body] pub struct Literal { x: u8 }
#[verifier::external_body] pub struct JsValue { x: u8 }
#[verifier::external_body] pub struct Key { x: u8 }
#[verifier::external_body] pub struct JsKey { x: u8 }
pub uninterp spec fn kw(k: Keyword) -> Seq<char>;
/// proved in keyword.rs: at sign followed by ASCII letters
pub uninterp spec fn kw_like(s: Seq<char>) -> bool;
#[verifier::external_body]
fn is_keyword_like(s: &str) -> (r: bool) ensures r == kw_like(s@) { unimplemented!() }
pub uninterp spec fn iri_text(i: Iri) -> Seq<char>;
pub uninterp spec fn buf_text(i: IriBuf) -> Seq<char>;
pub uninterp spec fn ref_text(i: IriRefBuf) -> Seq<char>;
pub uninterp spec fn scheme_text(i: Scheme) -> Seq<char>;
/// RFC 3986: scheme and authority of an IRI, reference resolution, and some relative form of an IRI
pub uninterp spec fn scheme(i: Seq<char>) -> Seq<char>;
pub uninterp spec fn has_authority(i: Seq<char>) -> bool;
pub uninterp spec fn resolved(base: Seq<char>, r: Seq<char>) -> Seq<char>;
pub uninterp spec fn relative(i: Seq<char>, base: Seq<char>) -> Seq<char>;
impl Iri {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == iri_text(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &Scheme) ensures scheme_text(*r) == scheme(iri_text(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn authority(&self) -> (r: Option<&Authority>) ensures r is Some == has_authority(iri_text(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn relative_to(&self, base: &Iri) -> (r: IriRefBuf) ensures ref_text(r) == relative(iri_text(*self), iri_text(*base)) { unimplemented!() }
}
impl Scheme {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == scheme_text(*self) { unimplemented!() }
}
impl IriBuf {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == buf_text(*self) { unimplemented!() }
}
impl IriRefBuf {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == ref_text(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self, base: &Iri) -> (r: IriBuf) ensures buf_text(r) == resolved(iri_text(*base), ref_text(*self)) { unimplemented!() }
}
/// rdf_types vocabularies
pub trait Vocabulary {
    type Iri;
    type BlankId;
    spec fn text(&self, i: Self::Iri) -> Seq<char>;
    spec fn label(&self, i: Self::BlankId) -> Seq<char>;
    fn iri(&self, id: &Self::Iri) -> (r: Option<&Iri>) ensures r is Some, iri_text(*r->0) == self.text(*id);
}
/// rdf_types::Id
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
//@ extract enum Term from crates/core/src/term.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract enum Type from crates/core/src/ty.rs
//@ subst Type<I = IriBuf> => Type<I>
//@ end
/// derived; indexes are equal when they are the same, cloning an index gives the same index
impl<T: Clone, B: Clone> Clone for Id<T, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T: PartialEq, B: PartialEq> PartialEqSpecImpl for Term<T, B> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq, B: PartialEq> PartialEq for Term<T, B> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> PartialEqSpecImpl for Type<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq> PartialEq for Type<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> PartialEqSpecImpl for TypeSelection<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq> PartialEq for TypeSelection<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq, B: PartialEq> PartialEqSpecImpl<Id<T, B>> for Term<T, B> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Id<T, B>) -> bool { *self == Term::Id(*o) } }
impl<T: PartialEq, B: PartialEq> PartialEq<Id<T, B>> for Term<T, B> { #[verifier::external_body] fn eq(&self, o: &Id<T, B>) -> bool { unimplemented!() } }
pub struct Str<'a>(pub &'a str);
impl<'a> Str<'a> {
    pub fn as_str(&self) -> (r: &'a str) ensures r == self.0 { self.0 }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.0@ { self.0.to_string() }
}
/// `x.with(vocabulary)` (contextual crate)
impl<I, B> Term<I, B> {
    #[verifier::external_body]
    pub fn with<'a, N: Vocabulary<Iri = I, BlankId = B>>(&'a self, v: &'a N) -> (r: Str<'a>) ensures r.0@ == term_text(*v, *self) { unimplemented!() }
//@ extract fn impl Term > is_null from crates/core/src/term.rs
//@ ret r
//@ spec
    ensures r == (*self is Null),
//@ end
//@ extract fn impl Term > as_iri from crates/core/src/term.rs
//@ ret r
//@ spec
    ensures r is Some == (*self matches Term::Id(Id::Valid(ValidId::Iri(_)))), r is Some ==> *self == Term::<I, B>::Id(Id::Valid(ValidId::Iri(*r->0))),
//@ end
}
impl<I, B> Id<I, B> {
//@ extract fn impl Id > as_iri from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r is Some == (*self matches Id::Valid(ValidId::Iri(_))), r is Some ==> *self == Id::<I, B>::Valid(ValidId::Iri(*r->0)),
//@ end
//@ extract fn impl Id > into_term from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r == Term::<I, B>::Id(self),
//@ end
}
pub open spec fn id_text<N: Vocabulary>(v: N, i: Id<N::Iri, N::BlankId>) -> Seq<char> {
    match i { Id::Valid(ValidId::Iri(i)) => v.text(i), Id::Valid(ValidId::Blank(b)) => v.label(b), Id::Invalid(s) => s@ }
}
pub open spec fn term_text<N: Vocabulary>(v: N, t: Term<N::Iri, N::BlankId>) -> Seq<char> {
    match t { Term::Null => ""@, Term::Id(i) => id_text(v, i), Term::Keyword(k) => kw(k) }
}
/// a language tag, its case left out: what its equality looks at (langtag)
pub uninterp spec fn tag(t: LenientLangTag) -> Seq<char>;
pub open spec fn otag(l: Option<&LenientLangTag>) -> Option<Seq<char>> { match l { Some(l) => Some(tag(*l)), None => None } }
pub type LD = Nullable<(Option<Seq<char>>, Option<Direction>)>;
pub open spec fn ld(n: Nullable<(Option<&LenientLangTag>, Option<Direction>)>) -> LD {
    match n { Nullable::Null => Nullable::Null, Nullable::Some((l, d)) => Nullable::Some((otag(l), d)) }
}
pub open spec fn old_(n: Option<Nullable<(Option<&LenientLangTag>, Option<Direction>)>>) -> Option<LD> { match n { Some(n) => Some(ld(n)), None => None } }
pub open spec fn NONE() -> LD { Nullable::Some((None, None)) }
/// stands for `a == b` (derived)
#[verifier::external_body]
fn vx_same_lang(a: &Option<Nullable<(Option<&LenientLangTag>, Option<Direction>)>>, b: &Option<Nullable<(Option<&LenientLangTag>, Option<Direction>)>>) -> (r: bool)
    ensures r == (old_(*a) == old_(*b)) { unimplemented!() }
pub uninterp spec fn slang(s: LangString) -> Option<Seq<char>>;
pub uninterp spec fn sdir(s: LangString) -> Option<Direction>;
impl LangString {
    #[verifier::external_body]
    pub fn language(&self) -> (r: Option<&LenientLangTag>) ensures otag(r) == slang(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn direction(&self) -> (r: Option<Direction>) ensures r == sdir(*self) { unimplemented!() }
}
/// the invariant proved in values.rs
pub axiom fn tagged(s: LangString) ensures slang(s) is Some || sdir(s) is Some;

// ---- expanded objects --------------------------------------------------------------------------------
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst json_syntax::Value => JsValue
//@ subst <T = IriBuf> => <T>
//@ end
//@ extract enum TypeRef from crates/core/src/object/value.rs
//@ end
impl<'a, T> TypeRef<'a, T> {
//@ extract fn impl TypeRef > as_syntax_type from crates/core/src/object/value.rs
//@ ret r
//@ subst crate::Type => Type
//@ spec
    ensures r == (match *self { TypeRef::Json => Type::Json, TypeRef::Id(t) => Type::Iri(t) }),
//@ end
}
impl<I: Clone> Type<&I> {
//@ extract fn impl Type<&I> > cloned from crates/core/src/ty.rs
//@ ret r
//@ subst t.clone() => vx_clone(t)
//@ spec
    ensures r == (match self { Type::Id => Type::Id, Type::Json => Type::Json, Type::None => Type::None, Type::Vocab => Type::Vocab, Type::Iri(t) => Type::Iri(*t) }),
//@ end
}
/// cloning an index gives the same index
#[verifier::external_body]
fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
impl<T> Value<T> {
//@ extract fn impl Value > typ from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures match r { None => *self is LangString || (*self is Literal && self->Literal_1 is None), Some(TypeRef::Json) => *self is Json, Some(TypeRef::Id(t)) => *self is Literal && self->Literal_1 == Some(*t) },
//@ end
//@ extract fn impl Value > language from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures otag(r) == vlang(*self),
//@ end
//@ extract fn impl Value > direction from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == vdir(*self),
//@ end
}
pub open spec fn vlang<T>(v: Value<T>) -> Option<Seq<char>> { match v { Value::LangString(s) => slang(s), _ => None } }
pub open spec fn vdir<T>(v: Value<T>) -> Option<Direction> { match v { Value::LangString(s) => sdir(s), _ => None } }
/// what matters of a node here
pub struct Node<T, B> { pub id: Option<Id<T, B>>, pub rest: NodeRest<T, B> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(B)]
pub struct NodeRest<T, B> { x: core::marker::PhantomData<(T, B)> }
/// a graph object: entries @id, @index and @graph only
pub uninterp spec fn graphy<T, B>(n: NodeRest<T, B>) -> bool;
impl<T, B> Node<T, B> {
    #[verifier::external_body]
    pub fn is_graph(&self) -> (r: bool) ensures r == graphy(self.rest) { unimplemented!() }
}
pub struct List<T, B> { pub entry: Vec<Indexed<Object<T, B>>> }
pub enum Object<T, B> { Value(Value<T>), Node(Box<Node<T, B>>), List(List<T, B>) }
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
//@ extract enum Ref from crates/core/src/object/mod.rs
//@ end
pub struct ListIter<'a, T, B> { pub list: &'a List<T, B>, pub at: Ghost<int> }
impl<T, B> List<T, B> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.entry@.len() == 0) { self.entry.is_empty() }
    /// the items, one after the other
    #[verifier::external_body]
    pub fn into_iter(&self) -> (r: ListIter<'_, T, B>) ensures *r.list == *self, r.at@ == 0 { unimplemented!() }
}
impl<'a, T, B> ListIter<'a, T, B> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Indexed<Object<T, B>>>)
        requires 0 <= old(self).at@ <= old(self).list.entry@.len(),
        ensures final(self).list == old(self).list, match r {
            Some(o) => old(self).at@ < old(self).list.entry@.len() && *o == old(self).list.entry@[old(self).at@] && final(self).at@ == old(self).at@ + 1,
            None => old(self).at@ == old(self).list.entry@.len() && final(self).at@ == old(self).at@,
        } { unimplemented!() }
}
pub enum What<T, B> { Value(Value<T>), Node(Node<T, B>), List(List<T, B>) }
pub open spec fn what<T, B>(r: Ref<'_, T, B>) -> What<T, B> { match r { Ref::Value(v) => What::Value(*v), Ref::Node(n) => What::Node(*n), Ref::List(l) => What::List(*l) } }
pub open spec fn wid<T, B>(w: What<T, B>) -> Option<Id<T, B>> { match w { What::Node(n) => n.id, _ => None } }
pub open spec fn wgraph<T, B>(w: What<T, B>) -> bool { match w { What::Node(n) => graphy(n.rest), _ => false } }
pub open spec fn und_o<T>(n: Option<&T>) -> Option<T> { match n { None => None, Some(t) => Some(*t) } }
/// an object, seen through any of the types that hold one
pub trait Any<T, B> {
    spec fn it(&self) -> What<T, B>;
    fn as_ref(&self) -> (r: Ref<'_, T, B>) ensures what(r) == self.it();
//@ extract fn trait Any > id from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == wid(self.it()),
//@ end
//@ extract fn trait Any > is_graph from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r == wgraph(self.it()),
//@ end
}
impl<T, B> Any<T, B> for Object<T, B> {
    open spec fn it(&self) -> What<T, B> { match *self { Object::Value(v) => What::Value(v), Object::Node(n) => What::Node(*n), Object::List(l) => What::List(l) } }
//@ extract fn impl Any<T, B> for Object > as_ref from crates/core/src/object/mod.rs
//@ ret r
//@ end
}
impl<T> Indexed<T> {
//@ extract fn impl Indexed > inner from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
//@ extract fn impl Indexed > index from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r is Some == self.index is Some, r is Some ==> r->0@ == self.index->0@,
//@ end
    /// through Deref
    pub fn id<I, B>(&self) -> (r: Option<&Id<I, B>>) where T: Any<I, B> ensures und_o(r) == wid(self.value.it()) { self.value.id() }
    pub fn is_graph<I, B>(&self) -> (r: bool) where T: Any<I, B> ensures r == wgraph(self.value.it()) { self.value.is_graph() }
}

// ---- active contexts (accessors proved in defs.rs) ----------------------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Context<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct TermDefinitionRef<'a, T, B> { x: core::marker::PhantomData<&'a (T, B)> }
impl<'a, T, B> Clone for TermDefinitionRef<'a, T, B> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, T, B> Copy for TermDefinitionRef<'a, T, B> {}
/// IRI mapping and prefix flag
pub struct D<T, B> { pub value: Option<Term<T, B>>, pub prefix: bool }
pub uninterp spec fn says<T, B>(d: TermDefinitionRef<'_, T, B>) -> D<T, B>;
pub uninterp spec fn def<T, B>(c: Context<T, B>, s: Seq<char>) -> Option<D<T, B>>;
pub open spec fn dvalue<T, B>(c: Context<T, B>, s: Seq<char>) -> Option<Term<T, B>> { match def(c, s) { Some(d) => d.value, None => None } }
pub uninterp spec fn cvocab<T, B>(c: Context<T, B>) -> Option<Term<T, B>>;
pub uninterp spec fn cbase<T, B>(c: Context<T, B>) -> Option<T>;
pub uninterp spec fn clang<T, B>(c: Context<T, B>) -> Option<Seq<char>>;
pub uninterp spec fn cdir<T, B>(c: Context<T, B>) -> Option<Direction>;
impl<'a, T, B> TermDefinitionRef<'a, T, B> {
    #[verifier::external_body]
    pub fn value(&self) -> (r: Option<&'a Term<T, B>>) ensures und_o(r) == says(*self).value { unimplemented!() }
    #[verifier::external_body]
    pub fn prefix(&self) -> (r: bool) ensures r == says(*self).prefix { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct BindingRef<'a, T, B> { x: core::marker::PhantomData<&'a (T, B)> }
#[verifier::external_body] pub struct BindingTerm<'a> { x: &'a u8 }
pub uninterp spec fn btext<T, B>(b: BindingRef<'_, T, B>) -> Seq<char>;
pub uninterp spec fn bterm(b: BindingTerm<'_>) -> Seq<char>;
pub uninterp spec fn bsays<T, B>(b: BindingRef<'_, T, B>) -> D<T, B>;
impl<'a, T, B> BindingRef<'a, T, B> {
    #[verifier::external_body]
    pub fn term(&self) -> (r: BindingTerm<'a>) ensures bterm(r) == btext(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn definition(&self) -> (r: TermDefinitionRef<'a, T, B>) ensures says(r) == bsays(*self) { unimplemented!() }
}
impl<'a> BindingTerm<'a> {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == bterm(*self) { unimplemented!() }
}
/// each binding of the context once
pub open spec fn lists<T, B>(bs: Seq<BindingRef<'_, T, B>>, c: Context<T, B>) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() ==> def(c, btext(#[trigger] bs[i])) == Some(bsays(bs[i]))
    &&& forall|s: Seq<char>| #[trigger] def(c, s) is Some ==> exists|i: int| 0 <= i < bs.len() && btext(#[trigger] bs[i]) == s
}
impl<T, B> Context<T, B> {
    #[verifier::external_body]
    pub fn get(&self, s: &str) -> (r: Option<TermDefinitionRef<'_, T, B>>) ensures r is Some == def(*self, s@) is Some, r is Some ==> says(r->0) == def(*self, s@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vocabulary(&self) -> (r: Option<&Term<T, B>>) ensures und_o(r) == cvocab(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn base_iri(&self) -> (r: Option<&T>) ensures und_o(r) == cbase(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_language(&self) -> (r: Option<&LenientLangTag>) ensures otag(r) == clang(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_base_direction(&self) -> (r: Option<Direction>) ensures r == cdir(*self) { unimplemented!() }
    /// iterating over it visits each binding once (proved in defs.rs)
    #[verifier::external_body]
    pub fn definitions(&self) -> (r: Vec<BindingRef<'_, T, B>>) ensures lists(r@, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse(&self) -> (r: &InverseContext<T, B>) ensures inverse_of(*r) == *self { unimplemented!() }
}
// ---- the inverse context (proved in inverse.rs) --------------------------------------------------------
#[verifier::reject_recursive_types(T)]
//@ extract enum TypeSelection from crates/core/src/context/inverse.rs
//@ subst <T = IriBuf> => <T>
//@ end
#[derive(Clone, Copy)]
//@ extract enum LangSelection from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(T)]
//@ extract enum Selection from crates/core/src/context/inverse.rs
//@ end
#[verifier::reject_recursive_types(I)]
//@ extract enum TypeLangValue from crates/compaction/src/lib.rs
//@ end
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct InverseContext<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct InverseDefinition<T> { x: core::marker::PhantomData<T> }
pub uninterp spec fn inverse_of<T, B>(i: InverseContext<T, B>) -> Context<T, B>;
pub enum Sel<T> { Reverse, AnyType, Type(Type<T>), AnyLang, Lang(LD), Property }
pub open spec fn tsel<T>(s: TypeSelection<T>) -> Sel<T> { match s { TypeSelection::Reverse => Sel::Reverse, TypeSelection::Any => Sel::AnyType, TypeSelection::Type(t) => Sel::Type(t) } }
pub open spec fn lsel<T>(s: LangSelection) -> Sel<T> { match s { LangSelection::Any => Sel::AnyLang, LangSelection::Lang(l) => Sel::Lang(ld(l)) } }
pub open spec fn wanted<T>(s: Selection<T>) -> Seq<Sel<T>> {
    match s { Selection::Any => seq![Sel::Property], Selection::Type(v) => v@.map_values(|t| tsel(t)), Selection::Lang(v) => v@.map_values(|t| lsel(t)) }
}
/// some term is mapped to `var`
pub uninterp spec fn inverted<T, B>(c: Context<T, B>, var: Term<T, B>) -> bool;
/// the shortest, and then least, term mapped to `var` with this container that stands for what is wanted
pub uninterp spec fn best<T, B>(c: Context<T, B>, var: Term<T, B>, container: Container, s: Sel<T>) -> Option<Key>;
pub uninterp spec fn entries<T, B>(d: InverseDefinition<T>) -> (Context<T, B>, Term<T, B>);
pub open spec fn preferred<T, B>(c: Context<T, B>, var: Term<T, B>, container: Container, ps: Seq<Sel<T>>) -> Option<Key> decreases ps.len() {
    if ps.len() == 0 { None } else { match best(c, var, container, ps[0]) { Some(k) => Some(k), None => preferred(c, var, container, ps.skip(1)) } }
}
pub open spec fn selected<T, B>(c: Context<T, B>, var: Term<T, B>, cs: Seq<Container>, ps: Seq<Sel<T>>) -> Option<Key> decreases cs.len() {
    if cs.len() == 0 { None } else { match preferred(c, var, cs[0], ps) { Some(k) => Some(k), None => selected(c, var, cs.skip(1), ps) } }
}
impl<T, B> InverseContext<T, B> {
    #[verifier::external_body]
    pub fn get(&self, var: &Term<T, B>) -> (r: Option<&InverseDefinition<T>>)
        ensures r is Some == inverted(inverse_of(*self), *var), r is Some ==> entries::<T, B>(*r->0) == (inverse_of(*self), *var) { unimplemented!() }
}
impl<T> InverseDefinition<T> {
    #[verifier::external_body]
    pub fn select<B>(&self, containers: &[Container], selection: &Selection<T>) -> (r: Option<&Key>)
        ensures und_o(r) == selected(entries::<T, B>(*self).0, entries::<T, B>(*self).1, containers@, wanted(*selection)) { unimplemented!() }
}
pub uninterp spec fn key_text(k: Key) -> Seq<char>;
impl Key {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == key_text(*self) { unimplemented!() }
}

// ---- strings -------------------------------------------------------------------------------------------
pub uninterp spec fn bytes(s: Seq<char>) -> nat;
/// the order of texts
#[verifier::opaque]
pub open spec fn less(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else { a[0] < b[0] || (a[0] == b[0] && less(a.skip(1), b.skip(1))) }
}
proof fn less_total(a: Seq<char>, b: Seq<char>) ensures less(a, b) || less(b, a) || a == b, !(less(a, b) && less(b, a)) decreases a.len() {
    reveal_with_fuel(less, 2);
    if a.len() > 0 && b.len() > 0 {
        less_total(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn less_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures less(a, b) && less(b, c) ==> less(a, c) decreases a.len() {
    reveal_with_fuel(less, 2);
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { less_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
/// shorter, or as long and less
pub open spec fn shorter(a: Seq<char>, b: Seq<char>) -> bool { bytes(a) < bytes(b) || (bytes(a) == bytes(b) && less(a, b)) }
#[verifier::external_body]
fn vx_len(s: &String) -> (r: usize) ensures r == bytes(s@) { s.len() }
#[verifier::external_body]
fn vx_less(a: &String, b: &String) -> (r: bool) ensures r == less(a@, b@) { a < b }
#[verifier::external_body]
fn vx_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some == starts(s@, p@), r is Some ==> r->0@ == s@.skip(p@.len() as int) { s.strip_prefix(p) }
#[verifier::external_body]
fn vx_prepend(a: &str, b: &String) -> (r: String) ensures r@ == a@ + b@ { a.to_string() + b }
fn vx_bindings<T, B>(c: &Context<T, B>) -> (r: Vec<BindingRef<'_, T, B>>) ensures lists(r@, *c) { c.definitions() }
/// `a == b` (derived)
#[verifier::external_body]
fn vx_same<A: PartialEq>(a: &A, b: &A) -> (r: bool) ensures r == (*a == *b) { a == b }
#[verifier::external_body]
fn vx_same_id<T: PartialEq, B: PartialEq>(a: &Term<T, B>, b: &Id<T, B>) -> (r: bool) ensures r == (*a == Term::<T, B>::Id(*b)) { unimplemented!() }
#[verifier::external_body]
fn vx_same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub uninterp spec fn js_key(k: JsKey) -> Seq<char>;
#[verifier::external_body]
fn vx_key(s: String) -> (r: JsKey) ensures js_key(r) == s@ { unimplemented!() }

// ---- IRI compaction (JSON-LD 1.1 API, section 6.2) --------------------------------------------------------
pub struct Val<T, B> { pub indexed: bool, pub what: What<T, B> }
pub open spec fn val<T, B, O: Any<T, B>>(v: Option<&Indexed<O>>) -> Option<Val<T, B>> { match v { Some(v) => Some(Val { indexed: v.index is Some, what: v.value.it() }), None => None } }
pub open spec fn item_lang<T, B>(o: Object<T, B>) -> LD {
    match o { Object::Value(Value::LangString(s)) => Nullable::Some((slang(s), sdir(s))), Object::Value(Value::Literal(_, None)) => Nullable::Null, _ => NONE() }
}
pub open spec fn item_type_of<T, B>(o: Object<T, B>) -> Option<Type<T>> {
    match o { Object::Value(Value::Literal(_, Some(t))) => Some(Type::Iri(t)), Object::Value(Value::Json(_)) => Some(Type::Json), Object::Value(_) => None, _ => Some(Type::Id) }
}
/// the language of the items if they agree; only value objects can disagree
pub open spec fn lang_until<T, B>(s: Seq<Indexed<Object<T, B>>>, n: int) -> LD {
    if exists|i: int| 0 <= i < n && (#[trigger] s[i]).value is Value && item_lang(s[i].value) != item_lang(s[0].value) { NONE() } else { item_lang(s[0].value) }
}
/// the type of the items if they agree
pub open spec fn type_until<T, B>(s: Seq<Indexed<Object<T, B>>>, n: int) -> Option<Type<T>> {
    if exists|i: int| 0 <= i < n && item_type_of((#[trigger] s[i]).value) != item_type_of(s[0].value) { None } else { item_type_of(s[0].value) }
}
/// what a term has to be fit for
#[verifier::reject_recursive_types(T)] pub enum TL<T> { Nothing, Any, Type(TypeSelection<T>), Lang(LD) }
pub open spec fn type_lang<T, B>(c: Context<T, B>, v: Option<Val<T, B>>, reverse: bool) -> TL<T> {
    if reverse { TL::Type(TypeSelection::Reverse) } else {
        match v {
            Some(Val { indexed, what: What::Value(v) }) =>
                if (vlang(v) is Some || vdir(v) is Some) && !indexed { TL::Lang(Nullable::Some((vlang(v), vdir(v)))) }
                else { match v { Value::Literal(_, Some(t)) => TL::Type(TypeSelection::Type(Type::Iri(t))), Value::Json(_) => TL::Type(TypeSelection::Type(Type::Json)), _ => TL::Nothing } },
            Some(Val { indexed, what: What::List(l) }) =>
                if l.entry@.len() == 0 { TL::Lang(Nullable::Some((clang(c), cdir(c)))) }
                else { match type_until(l.entry@, l.entry@.len() as int) { Some(t) => TL::Type(TypeSelection::Type(t)), None => TL::Lang(lang_until(l.entry@, l.entry@.len() as int)) } },
            // nodes, graphs, and no value at all
            _ => TL::Type(TypeSelection::Type(Type::Id)),
        }
    }
}
pub open spec fn tl<T>(t: Option<TypeLangValue<'_, T>>) -> TL<T> {
    match t { None => TL::Nothing, Some(TypeLangValue::Type(t)) => TL::Type(t), Some(TypeLangValue::Lang(LangSelection::Lang(l))) => TL::Lang(ld(l)), Some(TypeLangValue::Lang(LangSelection::Any)) => TL::Any }
}
pub open spec fn opt<A>(b: bool, s: Seq<A>) -> Seq<A> { if b { s } else { Seq::empty() } }
pub open spec fn container_order<T, B>(v: Option<Val<T, B>>, reverse: bool, v10: bool) -> Seq<Container> {
    let indexed = v is Some && v->0.indexed;
    let index = seq![Container::Index, Container::IndexSet];
    let language = seq![Container::Language, Container::LanguageSet];
    first_containers(v, reverse)
    + seq![Container::None]
    + opt(!v10 && !indexed, index)
    + opt(!v10 && !reverse && plain(v), language)
}
pub open spec fn lead<T, B>(v: Option<Val<T, B>>) -> Seq<Container> { opt(v is Some && v->0.indexed && !wgraph(v->0.what), seq![Container::Index, Container::IndexSet]) }
pub open spec fn first_containers<T, B>(v: Option<Val<T, B>>, reverse: bool) -> Seq<Container> {
    let indexed = v is Some && v->0.indexed;
    let index = seq![Container::Index, Container::IndexSet];
    let language = seq![Container::Language, Container::LanguageSet];
    let graph_index = seq![Container::GraphIndex, Container::GraphIndexSet];
    let graph_id = seq![Container::GraphId, Container::GraphIdSet];
    lead(v) + (if reverse { seq![Container::Set] } else {
        match v {
            Some(Val { what: What::List(_), .. }) => opt(!indexed, seq![Container::List]),
            Some(Val { what: What::Node(n), .. }) if graphy(n.rest) =>
                opt(indexed, graph_index) + opt(n.id is Some, graph_id) + seq![Container::Graph, Container::GraphSet, Container::Set] + opt(!indexed, graph_index) + opt(n.id is None, graph_id) + index,
            Some(Val { what: What::Value(x), .. }) => opt((vlang(x) is Some || vdir(x) is Some) && !indexed, language) + seq![Container::Set],
            _ => seq![Container::Id, Container::IdSet, Container::Type, Container::SetType, Container::Set],
        }
    })
}
/// a value object with a value only
pub open spec fn plain<T, B>(v: Option<Val<T, B>>) -> bool {
    match v { Some(Val { indexed, what: What::Value(Value::Literal(_, None)) }) => !indexed, _ => false }
}
pub open spec fn empty_list<T, B>(v: Option<Val<T, B>>) -> bool { match v { Some(Val { what: What::List(l), .. }) => l.entry@.len() == 0, _ => false } }
pub open spec fn val_id<T, B>(v: Option<Val<T, B>>) -> Option<Id<T, B>> { match v { Some(v) => wid(v.what), None => None } }
pub open spec fn wishes<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, x: Option<Val<N::Iri, N::BlankId>>, reverse: bool, v10: bool) -> Result<Seq<Sel<N::Iri>>, ()> decreases some(x), 1int {
    if empty_list(x) { Ok(seq![Sel::Property]) } else {
        match type_lang(c, x, reverse) {
            TL::Any => Ok(Seq::empty()),
            TL::Nothing => Ok(seq![Sel::Lang(Nullable::Null), Sel::Lang(NONE()), Sel::AnyLang]),
            TL::Lang(l) => Ok(seq![Sel::Lang(l), Sel::Lang(NONE()), Sel::AnyLang]
                + match l { Nullable::Some((Some(_), Some(d))) => seq![Sel::Lang(Nullable::Some((None, Some(d))))], _ => Seq::empty() }),
            TL::Type(t) => {
                let rev = opt(t is Reverse, seq![Sel::Reverse]);
                if val_id(x) is Some && (t is Reverse || t == TypeSelection::<N::Iri>::Type(Type::Id)) {
                    // a node with an identifier that is a term is better served by a @vocab term
                    match known_as_term(v, c, val_id(x)->0, v10) {
                        Err(_) => Err(()),
                        Ok(b) => Ok(rev + (if b { seq![Sel::Type(Type::Vocab), Sel::Type(Type::Id)] } else { seq![Sel::Type(Type::Id), Sel::Type(Type::Vocab)] }) + seq![Sel::Type(Type::None), Sel::AnyType]),
                    }
                } else { Ok(rev + seq![tsel(t), Sel::Type(Type::None), Sel::AnyType]) }
            }
        }
    }
}
pub open spec fn known_as_term<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, id: Id<N::Iri, N::BlankId>, v10: bool) -> Result<bool, ()> decreases 1int, 0int {
    match compacted(v, c, Term::Id(id), None, true, false, v10) { Ok(Some(s)) => Ok(dvalue(c, s) == Some(Term::<N::Iri, N::BlankId>::Id(id))), _ => Err(()) }
}

pub open spec fn some<A>(x: Option<A>) -> int { if x is Some { 1 } else { 0 } }
/// the compact IRI made of the term `t`, if it may stand for `var`
pub open spec fn candidate<T, B>(c: Context<T, B>, var: Term<T, B>, text: Seq<char>, alone: bool, t: Seq<char>, m: Seq<char>) -> Option<Seq<char>> {
    let s = t.push(':') + text.skip(m.len() as int);
    if starts(text, m) && text.len() > m.len() && (def(c, s) is None || (dvalue(c, s) == Some(var) && alone)) { Some(s) } else { None }
}
pub open spec fn made<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, alone: bool, t: Seq<char>, d: D<N::Iri, N::BlankId>) -> Option<Seq<char>> {
    if d.prefix && d.value is Some { candidate(c, var, term_text(v, var), alone, t, term_text(v, d.value->0)) } else { None }
}
pub open spec fn compact_of<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, alone: bool, t: Seq<char>) -> Option<Seq<char>> {
    match def(c, t) { Some(d) => made(v, c, var, alone, t, d), None => None }
}
/// the shortest of them, and then the least
pub open spec fn compactest<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, alone: bool, s: Seq<char>) -> bool {
    &&& exists|t: Seq<char>| #[trigger] compact_of(v, c, var, alone, t) == Some(s)
    &&& forall|t: Seq<char>| (#[trigger] compact_of(v, c, var, alone, t)) matches Some(o) ==> o == s || shorter(s, o)
}
pub open spec fn iri_of<T, B>(t: Term<T, B>) -> Option<T> { match t { Term::Id(Id::Valid(ValidId::Iri(i))) => Some(i), _ => None } }
/// the IRI could be read as a compact IRI
pub open spec fn confused<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>) -> bool {
    match iri_of(var) { Some(i) => match def(c, scheme(v.text(i))) { Some(d) => d.prefix && !has_authority(v.text(i)), None => false }, None => false }
}
pub open spec fn disambiguated(s: Seq<char>) -> Seq<char> { if kw_like(s) { "./"@ + s } else { s } }
pub open spec fn vocab_suffix<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>) -> Option<Seq<char>> {
    match cvocab(c) {
        Some(m) => {
            let m = term_text(v, m);
            let s = term_text(v, var);
            if starts(s, m) && s.len() > m.len() && def(c, s.skip(m.len() as int)) is None { Some(s.skip(m.len() as int)) } else { None }
        }
        None => None,
    }
}
/// no term stands for it
pub open spec fn shortened<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, alone: bool, vocab: bool) -> Result<Seq<char>, ()> {
    if vocab && vocab_suffix(v, c, var) is Some { Ok(vocab_suffix(v, c, var)->0) }
    else if exists|s: Seq<char>| #[trigger] compactest(v, c, var, alone, s) { Ok(choose|s: Seq<char>| #[trigger] compactest(v, c, var, alone, s)) }
    else if confused(v, c, var) { Err(()) }
    else { match (vocab, cbase(c), iri_of(var)) {
        (false, Some(b), Some(i)) if resolved(v.text(b), relative(v.text(i), v.text(b))) == v.text(i) => Ok(disambiguated(relative(v.text(i), v.text(b)))),
        _ => Ok(term_text(v, var)),
    } }
}
pub open spec fn wrap(r: Result<Seq<char>, ()>) -> Result<Option<Seq<char>>, ()> { match r { Ok(s) => Ok(Some(s)), Err(_) => Err(()) } }
pub open spec fn compacted<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, x: Option<Val<N::Iri, N::BlankId>>, vocab: bool, reverse: bool, v10: bool) -> Result<Option<Seq<char>>, ()>
    decreases some(x), 2int
{
    if var is Null { Ok(None) }
    else if vocab && inverted(c, var) {
        match wishes(v, c, x, reverse, v10) {
            Err(_) => Err(()),
            Ok(ws) => match selected(c, var, container_order(x, reverse, v10), ws) { Some(k) => Ok(Some(key_text(k))), None => wrap(shortened(v, c, var, x is None, vocab)) },
        }
    } else { wrap(shortened(v, c, var, x is None, vocab)) }
}
pub open spec fn said(r: Result<Option<String>, IriConfusedWithPrefix>) -> Result<Option<Seq<char>>, ()> {
    match r { Ok(Some(s)) => Ok(Some(s@)), Ok(None) => Ok(None), Err(_) => Err(()) }
}
proof fn only_one<N: Vocabulary>(v: N, c: Context<N::Iri, N::BlankId>, var: Term<N::Iri, N::BlankId>, alone: bool, a: Seq<char>, b: Seq<char>)
    ensures compactest(v, c, var, alone, a) && compactest(v, c, var, alone, b) ==> a == b
{
    less_total(a, b);
}
proof fn lang_step<T, B>(s: Seq<Indexed<Object<T, B>>>, n: int)
    requires 0 <= n < s.len(),
    ensures
        n == 0 ==> lang_until(s, 1) == item_lang(s[0].value) && type_until(s, 1) == item_type_of(s[0].value),
        n > 0 ==> lang_until(s, n + 1) == (if s[n].value is Value && item_lang(s[n].value) != lang_until(s, n) { NONE() } else { lang_until(s, n) }),
        n > 0 ==> type_until(s, n + 1) == (if item_type_of(s[n].value) != type_until(s, n) { None } else { type_until(s, n) }),
        lang_until(s, n + 1) == NONE() && type_until(s, n + 1) is None ==> lang_until(s, s.len() as int) == NONE() && type_until(s, s.len() as int) is None,
{
    assert(s[n] == s[n]);
}
//@ extract fn disambiguate_keyword from crates/compaction/src/iri.rs
//@ ret r
//@ subst "./".to_string() + &s => vx_prepend("./", &s)
//@ spec
    ensures r@ == disambiguated(s@),
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn compact_iri from crates/compaction/src/iri.rs
//@ ret r
//@ spec
    ensures said(r) == compacted(*vocabulary, *active_context, *var, None, vocab, reverse, options.processing_mode is JsonLd1_0),
        r is Ok ==> (r->Ok_0 is Some == !(*var is Null)),
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn compact_iri_with from crates/compaction/src/iri.rs
//@ ret r
//@ spec
    ensures said(r) == compacted(*vocabulary, *active_context, *var, val(Some(value)), vocab, reverse, options.processing_mode is JsonLd1_0),
        r is Ok ==> (r->Ok_0 is Some == !(*var is Null)),
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn compact_key from crates/compaction/src/iri.rs
//@ ret r
//@ subst json_syntax::object::Key => JsKey
//@ subst vx_v.into() => vx_key(vx_v)
//@ desugar option.map
//@ spec
    ensures (match r { Ok(Some(k)) => Ok::<Option<Seq<char>>, ()>(Some(js_key(k))), Ok(None) => Ok(None), Err(_) => Err(()) }) == compacted(*vocabulary, *active_context, *var, None, vocab, reverse, options.processing_mode is JsonLd1_0),
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn compact_iri_full from crates/compaction/src/iri.rs
//@ ret r
//@ subst *common_type.as_ref().unwrap() != item_type => !vx_same(common_type.as_ref().unwrap(), &item_type)
//@ subst common_lang_dir != item_lang_dir => !vx_same_lang(&common_lang_dir, &item_lang_dir)
//@ subst ~ common_lang_dir == Some(Nullable::Some((None, None))) => vx_same_lang(&common_lang_dir, &Some(Nullable::Some((None, None))))
//@ subst ~ common_type == Some(None) => matches!(common_type, Some(None))
//@ subst entry.select( => entry.select::<N::BlankId>(
//@ subst active_context.definitions() => bindings
//@ before "for binding in"
    let bindings = vx_bindings(active_context);
    let ghost bs = bindings@;
//@ subst ty.clone() => vx_clone(ty)
//@ subst iri_mapping == id => vx_same_id(iri_mapping, id)
//@ subst !suffix.is_empty() => !vx_empty(suffix)
//@ subst compact_iri.is_empty() => vx_empty(compact_iri.as_str())
//@ subst candidate.len() => vx_len(&candidate)
//@ subst compact_iri.len() => vx_len(&compact_iri)
//@ subst candidate < compact_iri => vx_less(&candidate, &compact_iri)
//@ subst relative.resolved(base_iri).as_str() == iri.as_str() => vx_same_text(relative.resolved(base_iri).as_str(), iri.as_str())
//@ subst relative.as_str().into() => relative.as_str().to_string()
//@ subst compact_iri.as_str().into() => compact_iri.as_str().to_string()
//@ subst suffix.into() => suffix.to_string()
//@ call strip_prefix => vx_strip_prefix($0, $1)
//@ desugar option.map option.is_some_and option.and_then
//@ desugar-for 0 it
        invariant
            0 <= it.at@ <= it.list.entry@.len(), *it.list == *list, list.entry@.len() > 0,
            it.at@ == 0 ==> common_lang_dir is None && common_type is None,
            it.at@ > 0 ==> old_(common_lang_dir) == Some(lang_until(list.entry@, it.at@)) && common_type == Some(type_until(list.entry@, it.at@)),
        ensures
            old_(common_lang_dir) == Some(lang_until(list.entry@, list.entry@.len() as int)), common_type == Some(type_until(list.entry@, list.entry@.len() as int)),
        decreases it.list.entry@.len() - it.at@,
//@ before "if reverse {"
    assert(containers@ =~= lead(val(value)));
    loop
        invariant_except_break containers@ == lead(val(value)), type_lang_value is None, !is_simple_value,
        invariant has_index == (value is Some && value->0.index is Some),
        ensures containers@ == first_containers(val(value), reverse), tl(type_lang_value) == type_lang(*active_context, val(value), reverse), is_simple_value == (!reverse && plain(val(value))),
    {
//@ before "containers.push(Container::None)"
        assert(containers@ =~= first_containers(val(value), reverse));
        break; }
//@ before "if (v.direction().is_some()"
    proof { if v is LangString { tagged(v->LangString_0); } }
//@ before "if common_lang_dir.is_none()"
    assert(*item == list.entry@[n]);
    assert(old_(item_lang_dir) == Some(item_lang(item.value)));
    assert(item_type == item_type_of(item.value));
    assert(is_value == (item.value is Value));
//@ before "if !compact_iri.is_empty()"
    proof {
        let (v, c, a) = (*vocabulary, *active_context, value is None);
        assert forall|t: Seq<char>| (#[trigger] compact_of(v, c, *var, a, t)) is Some implies compact_iri@.len() > 0 by {
            let i = choose|i: int| 0 <= i < bs.len() && btext(#[trigger] bs[i]) == t; assert(def(c, btext(bs[i])) == Some(bsays(bs[i])));
        }
        if compact_iri@.len() > 0 {
            let i = choose|i: int| 0 <= i < bs.len() && made(v, c, *var, a, btext(#[trigger] bs[i]), bsays(bs[i])) == Some(compact_iri@);
            assert(def(c, btext(bs[i])) == Some(bsays(bs[i])));
            assert(compact_of(v, c, *var, a, btext(bs[i])) == Some(compact_iri@));
            assert forall|t: Seq<char>| (#[trigger] compact_of(v, c, *var, a, t)) is Some implies compact_of(v, c, *var, a, t)->0 == compact_iri@ || shorter(compact_iri@, compact_of(v, c, *var, a, t)->0) by {
                let i = choose|i: int| 0 <= i < bs.len() && btext(#[trigger] bs[i]) == t; assert(def(c, btext(bs[i])) == Some(bsays(bs[i])));
            }
            assert(compactest(v, c, *var, a, compact_iri@));
            only_one(v, c, *var, a, compact_iri@, choose|s: Seq<char>| #[trigger] compactest(v, c, *var, a, s));
        } else {
            assert forall|s: Seq<char>| !#[trigger] compactest(v, c, *var, a, s) by {}
        }
    }
//@ before "let mut is_empty_list"
    assert(containers@ =~= container_order(val(value), reverse, options.processing_mode is JsonLd1_0));
//@ before "if let Some(term) = entry.select"
    assert(match wishes(*vocabulary, *active_context, val(value), reverse, options.processing_mode is JsonLd1_0) { Ok(ws) => wanted(selection) =~= ws, Err(_) => false });
//@ before "let mut compact_iri = String::new()"
    loop
        invariant !(*var is Null), compacted(*vocabulary, *active_context, *var, val(value), vocab, reverse, options.processing_mode is JsonLd1_0) == wrap(shortened(*vocabulary, *active_context, *var, value is None, vocab)),
            !(vocab && vocab_suffix(*vocabulary, *active_context, *var) is Some),
        ensures compacted(*vocabulary, *active_context, *var, val(value), vocab, reverse, options.processing_mode is JsonLd1_0) == Ok::<Option<Seq<char>>, ()>(Some(term_text(*vocabulary, *var))),
    {
//@ before "Ok(Some(var.with(vocabulary).to_string()))"
        break; }
//@ before "let mut item_type = None"
    let ghost n = it.at@ - 1;
    proof { lang_step(list.entry@, n); }
//@ loop 1 iter ds
//@ loop 1 body-start
    let ghost before = compact_iri@;
    let ghost i0 = ds.index@;
    assert(binding == bs[i0]);
//@ loop 1 body-end
    proof {
        assert forall|o: Seq<char>| #[trigger] shorter(before, o) && shorter(compact_iri@, before) implies shorter(compact_iri@, o) by { less_trans(compact_iri@, before, o); }
        if let Some(s) = made(*vocabulary, *active_context, *var, value is None, btext(bs[i0]), bsays(bs[i0])) { less_total(s, before); }
    }
//@ loop 1
        invariant
            ds.seq() == bs, lists(bs, *active_context),
            compact_iri@.len() == 0 ==> forall|i: int| 0 <= i < ds.index@ ==> made(*vocabulary, *active_context, *var, value is None, btext(#[trigger] bs[i]), bsays(bs[i])) is None,
            compact_iri@.len() > 0 ==> (exists|i: int| 0 <= i < ds.index@ && made(*vocabulary, *active_context, *var, value is None, btext(#[trigger] bs[i]), bsays(bs[i])) == Some(compact_iri@)),
            compact_iri@.len() > 0 ==> forall|i: int| 0 <= i < ds.index@ ==> (made(*vocabulary, *active_context, *var, value is None, btext(#[trigger] bs[i]), bsays(bs[i])) matches Some(o) ==> o == compact_iri@ || shorter(compact_iri@, o)),
//@ spec
    ensures said(r) == compacted(*vocabulary, *active_context, *var, val(value), vocab, reverse, options.processing_mode is JsonLd1_0),
        r is Ok ==> (r->Ok_0 is Some == !(*var is Null)),
//@ end
}
fn main() {}
