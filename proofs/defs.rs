#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::borrow::Borrow;
use std::hash::Hash;
use vstd::std_specs::cmp::*;
pub mod json_ld_syntax { pub mod context { pub use super::super::{SynContext as Context}; } }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, Eq)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum TypeContainer from crates/syntax/src/context/definition/type_.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Container from crates/core/src/container.rs
//@ end
#[verifier::external_body] pub struct LenientLangTagBuf { x: u8 }
#[verifier::external_body] pub struct LenientLangTag { x: u8 }
#[verifier::external_body] pub struct SynContext { x: u8 }
#[verifier::external_body] pub struct Index { x: u8 }
#[verifier::external_body] pub struct Nest { x: u8 }
#[verifier::external_body] pub struct Key { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Term<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Type<T> { x: core::marker::PhantomData<T> }
pub open spec fn eqv<T: PartialEq>(a: T, b: T) -> bool { PartialEqSpec::eq_spec(&a, &b) }
/// the equality of each component, as implemented by its crate (language tags: ignoring case)
axiom fn box_eq()
    ensures <Box<SynContext> as PartialEqSpec>::obeys_eq_spec(), forall|a: Box<SynContext>, b: Box<SynContext>| #[trigger] <Box<SynContext> as PartialEqSpec>::eq_spec(&a, &b) == eqv(*a, *b);
/// derived
impl PartialEqSpecImpl for Direction { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Direction { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
macro_rules! equality { ($($t:ty, $p:tt);*) => { verus!{ $(
    impl PartialEqSpecImpl for $t { open spec fn obeys_eq_spec() -> bool { true } uninterp spec fn eq_spec(&self, o: &Self) -> bool; }
    impl PartialEq for $t { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
)* } } }
equality!{ LenientLangTagBuf, (); SynContext, (); Index, (); Nest, () }
impl<T: PartialEq, B: PartialEq> PartialEqSpecImpl for Term<T, B> { open spec fn obeys_eq_spec() -> bool { true } uninterp spec fn eq_spec(&self, o: &Self) -> bool; }
impl<T: PartialEq, B: PartialEq> PartialEq for Term<T, B> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> PartialEqSpecImpl for Type<T> { open spec fn obeys_eq_spec() -> bool { true } uninterp spec fn eq_spec(&self, o: &Self) -> bool; }
impl<T: PartialEq> PartialEq for Type<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> PartialEqSpecImpl for Nullable<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { match (self, o) { (Nullable::Null, Nullable::Null) => true, (Nullable::Some(a), Nullable::Some(b)) => eqv(*a, *b), _ => false } }
}
impl<T: PartialEq> PartialEq for Nullable<T> {
    fn eq(&self, o: &Self) -> bool { match (self, o) { (Nullable::Null, Nullable::Null) => true, (Nullable::Some(a), Nullable::Some(b)) => a == b, _ => false } }
}
//@ extract struct TypeTermDefinition from crates/core/src/context/definition.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct NormalTermDefinition from crates/core/src/context/definition.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum TermDefinitionRef from crates/core/src/context/definition.rs
//@ subst T = IriBuf, B = BlankIdBuf => T, B
//@ end
impl<'a, T, B> Clone for TermDefinitionRef<'a, T, B> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T, B> Copy for TermDefinitionRef<'a, T, B> {}
//@ extract struct ModuloProtected from crates/core/src/context/definition.rs
//@ end


// ---- equality of term definitions, the protected flag left out (JSON-LD 1.1 API, 4.2.2 step 27) ---------
pub open spec fn same<T: PartialEq, B: PartialEq>(a: NormalTermDefinition<T, B>, b: NormalTermDefinition<T, B>) -> bool {
    a.prefix == b.prefix && a.reverse_property == b.reverse_property && eqv(a.language, b.language) && eqv(a.direction, b.direction)
    && eqv(a.nest, b.nest) && eqv(a.index, b.index) && a.container == b.container && eqv(a.base_url, b.base_url)
    && eqv(a.value, b.value) && eqv(a.typ, b.typ) && eqv(a.context, b.context)
}
impl<'b, T: PartialEq, B: PartialEq> PartialEqSpecImpl<ModuloProtected<&'b NormalTermDefinition<T, B>>> for ModuloProtected<&NormalTermDefinition<T, B>> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() && B::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &ModuloProtected<&'b NormalTermDefinition<T, B>>) -> bool { same(*self.0, *o.0) }
}
impl<'b, T: PartialEq, B: PartialEq> PartialEq<ModuloProtected<&'b NormalTermDefinition<T, B>>> for ModuloProtected<&NormalTermDefinition<T, B>> {
//@ extract fn impl PartialEq<ModuloProtected<&'b NormalTermDefinition<T, B>>> for ModuloProtected > eq from crates/core/src/context/definition.rs
//@ ret r
//@ start
    proof { box_eq(); }
//@ end
}
impl<'b> PartialEqSpecImpl<ModuloProtected<&'b TypeTermDefinition>> for ModuloProtected<&TypeTermDefinition> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ModuloProtected<&'b TypeTermDefinition>) -> bool { self.0.container == o.0.container }
}
impl<'b> PartialEq<ModuloProtected<&'b TypeTermDefinition>> for ModuloProtected<&TypeTermDefinition> {
//@ extract fn impl PartialEq<ModuloProtected<&'b TypeTermDefinition>> for ModuloProtected > eq from crates/core/src/context/definition.rs
//@ ret r
//@ end
}

// ---- references to term definitions ---------------------------------------------------------------------
impl From<TypeContainer> for Container {
//@ extract fn impl From<TypeContainer> for Container > from from crates/core/src/container.rs
//@ ret r
//@ end
}
impl vstd::std_specs::convert::FromSpecImpl<TypeContainer> for Container {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: TypeContainer) -> Self { match c { TypeContainer::Set => Container::Set } }
}
impl<T> Nullable<T> {
//@ extract fn impl Nullable > as_ref from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures und(r) == *self,
//@ end
}
pub open spec fn und<T>(n: Nullable<&T>) -> Nullable<T> { match n { Nullable::Null => Nullable::Null, Nullable::Some(t) => Nullable::Some(*t) } }
pub open spec fn und_o<T>(n: Option<&T>) -> Option<T> { match n { None => None, Some(t) => Some(*t) } }
pub open spec fn und_on<T>(n: Option<Nullable<&T>>) -> Option<Nullable<T>> { match n { None => None, Some(t) => Some(und(t)) } }
pub open spec fn unbox<T>(n: Option<Box<T>>) -> Option<T> { match n { None => None, Some(t) => Some(*t) } }
/// what a definition says, whichever kind it is; the @type definition only has a container and the protected flag
pub open spec fn says<T, B>(d: TermDefinitionRef<T, B>) -> NormalTermDefinition<T, B> {
    match d {
        TermDefinitionRef::Normal(n) => *n,
        TermDefinitionRef::Type(t) => NormalTermDefinition { value: None, prefix: false, protected: t.protected, reverse_property: false, base_url: None, context: None,
            container: match t.container { TypeContainer::Set => Container::Set }, direction: None, index: None, language: None, nest: None, typ: None },
    }
}
/// Option::as_deref on a boxed context
impl<'a, T, B> TermDefinitionRef<'a, T, B> {
//@ extract fn impl TermDefinitionRef > value from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == says(*self).value,
//@ end
//@ extract fn impl TermDefinitionRef > prefix from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == says(*self).prefix,
//@ end
//@ extract fn impl TermDefinitionRef > protected from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == says(*self).protected,
//@ end
//@ extract fn impl TermDefinitionRef > reverse_property from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == says(*self).reverse_property,
//@ end
//@ extract fn impl TermDefinitionRef > base_url from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == says(*self).base_url,
//@ end
//@ extract fn impl TermDefinitionRef > context from crates/core/src/context/definition.rs
//@ ret r
//@ start
    proof { box_target(); }
//@ spec
    ensures und_o(r) == unbox(says(*self).context),
//@ end
//@ extract fn impl TermDefinitionRef > container from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == says(*self).container,
//@ end
//@ extract fn impl TermDefinitionRef > direction from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == says(*self).direction,
//@ end
//@ extract fn impl TermDefinitionRef > index from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == says(*self).index,
//@ end
//@ extract fn impl TermDefinitionRef > language from crates/core/src/context/definition.rs
//@ ret r
//@ desugar option.map
//@ spec
    ensures und_on(r) == says(*self).language,
//@ end
//@ extract fn impl TermDefinitionRef > nest from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == says(*self).nest,
//@ end
//@ extract fn impl TermDefinitionRef > typ from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == says(*self).typ,
//@ end
}
pub assume_specification<T: std::ops::Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&T::Target>)
    ensures r is Some == o is Some, o is Some ==> r->0 == target(&o->0);
pub uninterp spec fn target<T: std::ops::Deref>(t: &T) -> &T::Target;
axiom fn box_target() ensures forall|b: Box<SynContext>| *#[trigger] target(&b) == *b;

impl<'a, 'b, T: PartialEq, B: PartialEq> PartialEqSpecImpl<ModuloProtected<TermDefinitionRef<'b, T, B>>> for ModuloProtected<TermDefinitionRef<'a, T, B>> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() && B::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &ModuloProtected<TermDefinitionRef<'b, T, B>>) -> bool { same(says(self.0), says(o.0)) }
}
impl<'a, 'b, T: PartialEq, B: PartialEq> PartialEq<ModuloProtected<TermDefinitionRef<'b, T, B>>> for ModuloProtected<TermDefinitionRef<'a, T, B>> {
//@ extract fn impl PartialEq<ModuloProtected<TermDefinitionRef<'b, T, B>>> for ModuloProtected > eq from crates/core/src/context/definition.rs
//@ ret r
//@ start
    proof { box_eq(); }
//@ end
}

// ---- the definitions of a context, and what protects them ------------------------------------------------
/// std::collections::HashMap, seen as a map; a borrowed key stands for the key it is equal to
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub uninterp spec fn key_for<Q: ?Sized>(q: &Q) -> Key;
pub uninterp spec fn is_type_keyword<Q: ?Sized>(q: &Q) -> bool;
axiom fn key_for_key() ensures forall|k: &Key| key_for::<Key>(k) == *k;
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<V> HashMap<Key, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Key, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some == self@.dom().contains(key_for(k)), r is Some ==> *r->0 == self@[key_for(k)] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(key_for(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(key_for(k)), r == (if old(self)@.dom().contains(key_for(k)) { Some(old(self)@[key_for(k)]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.dom().finite(), r < usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Key, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: HmIter<'_, V>) ensures r@ == self@, self@.dom().finite() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)]
pub struct HmIter<'a, V> { x: core::marker::PhantomData<&'a V> }
/// the entries not visited yet
impl<'a, V> View for HmIter<'a, V> { type V = Map<Key, V>; uninterp spec fn view(&self) -> Map<Key, V>; }
impl<'a, V> HmIter<'a, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a Key, &'a V)>)
        ensures
            r is None ==> old(self)@ == Map::<Key, V>::empty() && final(self)@ == old(self)@,
            r matches Some((k, v)) ==> old(self)@.dom().contains(*k) && old(self)@[*k] == *v && final(self)@ == old(self)@.remove(*k),
    { unimplemented!() }
}
pub struct KeywordType;
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures *final(o) == Some(v), r == *old(o);
pub assume_specification<T> [std::mem::replace] (o: &mut T, v: T) -> (r: T) ensures *final(o) == v, r == *old(o);
/// stands for `KeywordType.borrow() == term`
#[verifier::external_body]
fn vx_is_type<Q: ?Sized>(term: &Q) -> (r: bool) ensures r == is_type_keyword(term) { unimplemented!() }
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum TermDefinition from crates/core/src/context/definition.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum Binding from crates/core/src/context/definition.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum BindingRef from crates/core/src/context/definition.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Definitions from crates/core/src/context/definition.rs
//@ end
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Iter from crates/core/src/context/definition.rs
//@ subst std::collections::hash_map::Iter<'a, Key, NormalTermDefinition<T, B>> => HmIter<'a, NormalTermDefinition<T, B>>
//@ end
/// the definition of a borrowed term
pub open spec fn defined<T, B, Q: ?Sized>(d: Definitions<T, B>, q: &Q) -> bool { if is_type_keyword(q) { d.type_ is Some } else { d.normal@.dom().contains(key_for(q)) } }
pub open spec fn refers<T, B, Q: ?Sized>(d: Definitions<T, B>, q: &Q, r: Option<TermDefinitionRef<T, B>>) -> bool {
    r is Some == defined(d, q)
    && (r is Some ==> (if is_type_keyword(q) { r->0 is Type && *(r->0->Type_0) == d.type_->0 } else { r->0 is Normal && *(r->0->Normal_0) == d.normal@[key_for(q)] }))
}
pub open spec fn protects<T, B>(d: Definitions<T, B>) -> bool {
    (d.type_ is Some && d.type_->0.protected) || exists|k: Key| d.normal@.dom().contains(k) && (#[trigger] d.normal@[k]).protected
}
/// nothing but `k` changes
pub open spec fn insert_opt<V>(m: Map<Key, V>, k: Key, v: Option<V>) -> Map<Key, V> { match v { Some(v) => m.insert(k, v), None => m.remove(k) } }
pub open spec fn at<V>(m: Map<Key, V>, k: Key) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
impl<T, B> Definitions<T, B> {
//@ extract fn impl Definitions > get from crates/core/src/context/definition.rs
//@ ret r
//@ subst KeywordType.borrow() == term => vx_is_type(term)
//@ desugar option.map
//@ spec
    ensures refers(*self, term, r),
//@ end
//@ extract fn impl Definitions > get_normal from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r is Some == self.normal@.dom().contains(key_for(term)), r is Some ==> *r->0 == self.normal@[key_for(term)],
//@ end
//@ extract fn impl Definitions > get_type from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r) == self.type_,
//@ end
//@ extract fn impl Definitions > contains_term from crates/core/src/context/definition.rs
//@ ret r
//@ subst KeywordType.borrow() == term => vx_is_type(term)
//@ spec
    ensures r == defined(*self, term),
//@ end
//@ extract fn impl Definitions > len from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == self.normal@.len() + (if self.type_ is Some { 1int } else { 0 }),
//@ end
//@ extract fn impl Definitions > is_empty from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures r == (self.type_ is None && self.normal@ == Map::<Key, NormalTermDefinition<T, B>>::empty()),
//@ end
//@ extract fn impl Definitions > insert_normal from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures final(self).normal@ == old(self).normal@.insert(term, definition), final(self).type_ == old(self).type_, r == at(old(self).normal@, term),
//@ end
//@ extract fn impl Definitions > insert_type from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures final(self).normal@ == old(self).normal@, final(self).type_ == Some(definition), r == old(self).type_,
//@ end
//@ extract fn impl Definitions > insert from crates/core/src/context/definition.rs
//@ ret r
//@ desugar option.map
//@ spec
    ensures match binding {
        Binding::Normal(k, d) => final(self).normal@ == old(self).normal@.insert(k, d) && final(self).type_ == old(self).type_,
        Binding::Type(d) => final(self).normal@ == old(self).normal@ && final(self).type_ == Some(d) },
//@ end
//@ extract fn impl Definitions > set_normal from crates/core/src/context/definition.rs
//@ ret r
//@ start
    proof { key_for_key(); }
//@ spec
    ensures final(self).normal@ == insert_opt(old(self).normal@, term, definition), final(self).type_ == old(self).type_, r == at(old(self).normal@, term),
//@ end
//@ extract fn impl Definitions > set_type from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures final(self).normal@ == old(self).normal@, final(self).type_ == definition, r == old(self).type_,
//@ end
//@ extract fn impl Definitions > iter from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures und_o(r.type_) == self.type_, r.normal@ == self.normal@, self.normal@.dom().finite(),
//@ end
//@ extract fn impl IntoIterator for &'a Definitions > into_iter from crates/core/src/context/definition.rs
//@ ret r
//@ subst into_iter(self) => into_iter(&self)
//@ subst Self::IntoIter => Iter<'_, T, B>
//@ spec
    ensures und_o(r.type_) == self.type_, r.normal@ == self.normal@, self.normal@.dom().finite(),
//@ end
}
impl<'a, T, B> BindingRef<'a, T, B> {
//@ extract fn impl BindingRef > definition from crates/core/src/context/definition.rs
//@ ret r
//@ spec
    ensures match *self { BindingRef::Normal(_, d) => r is Normal && *(r->Normal_0) == *d, BindingRef::Type(d) => r is Type && *(r->Type_0) == *d },
//@ end
}
impl<'a, T, B> Iter<'a, T, B> {
//@ extract fn impl Iterator for Iter > next from crates/core/src/context/definition.rs
//@ ret r
//@ subst Self::Item => BindingRef<'a, T, B>
//@ desugar option.map option.or_else
//@ spec
    ensures
        // the @type definition first, then each normal definition once
        old(self).type_ is Some ==> (r matches Some(BindingRef::Type(d)) && *d == *(old(self).type_->0)) && final(self).type_ is None && final(self).normal@ == old(self).normal@,
        old(self).type_ is None ==> final(self).type_ is None && match r {
            None => old(self).normal@ == Map::<Key, NormalTermDefinition<T, B>>::empty() && final(self).normal@ == old(self).normal@,
            Some(BindingRef::Normal(k, d)) => old(self).normal@.dom().contains(*k) && old(self).normal@[*k] == *d && final(self).normal@ == old(self).normal@.remove(*k),
            _ => false },
//@ end
}
/// once_cell
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct OnceCell<T> { x: core::marker::PhantomData<T> }
pub uninterp spec fn cell<T>(c: OnceCell<T>) -> Option<T>;
impl<T> OnceCell<T> {
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<T>) ensures cell(*final(self)) is None, r == cell(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures cell(r) is None { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct InverseContext<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Context from crates/core/src/context/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
/// everything but the cached inverse context
pub open spec fn facts<T, B>(c: Context<T, B>) -> (Option<T>, Option<T>, Option<Term<T, B>>, Option<LenientLangTagBuf>, Option<Direction>, Option<Box<Context<T, B>>>, Definitions<T, B>) {
    (c.original_base_url, c.base_iri, c.vocabulary, c.default_language, c.default_base_direction, c.previous_context, c.definitions)
}
/// the inverse of a context depends on these only (InverseContext::from, which ignores the @type definition)
pub open spec fn inverted<T, B>(c: Context<T, B>) -> (Map<Key, NormalTermDefinition<T, B>>, Option<LenientLangTagBuf>, Option<Direction>) {
    (c.definitions.normal@, c.default_language, c.default_base_direction)
}
pub open spec fn cache_ok<T, B>(before: Context<T, B>, after: Context<T, B>) -> bool {
    cell(after.inverse) is None || (cell(after.inverse) == cell(before.inverse) && inverted(after) == inverted(before))
}
impl<T, B> Context<T, B> {
//@ extract fn impl Context > new from crates/core/src/context/mod.rs
//@ ret r
//@ subst Definitions::default() => Definitions { normal: HashMap::new(), type_: None }
//@ spec
    ensures cell(r.inverse) is None, r.definitions.normal@ == Map::<Key, NormalTermDefinition<T, B>>::empty(), r.definitions.type_ is None, r.base_iri == base_iri, r.vocabulary is None, r.default_language is None, r.default_base_direction is None, r.previous_context is None, r.original_base_url is Some == base_iri is Some,
//@ end
//@ extract fn impl Context > get from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures refers(self.definitions, term, r),
//@ end
//@ extract fn impl Context > get_normal from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.definitions.normal@.dom().contains(key_for(term)), r is Some ==> *r->0 == self.definitions.normal@[key_for(term)],
//@ end
//@ extract fn impl Context > get_type from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == self.definitions.type_,
//@ end
//@ extract fn impl Context > contains_term from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures r == defined(self.definitions, term),
//@ end
//@ extract fn impl Context > original_base_url from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == self.original_base_url,
//@ end
//@ extract fn impl Context > base_iri from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == self.base_iri,
//@ end
//@ extract fn impl Context > vocabulary from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == self.vocabulary,
//@ end
//@ extract fn impl Context > default_base_direction from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures r == self.default_base_direction,
//@ end
//@ extract fn impl Context > previous_context from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures und_o(r) == unbox(self.previous_context),
//@ end
//@ extract fn impl Context > definitions from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures *r == self.definitions,
//@ end
//@ extract fn impl Context > has_protected_items from crates/core/src/context/mod.rs
//@ ret r
//@ desugar-for 0 it
    invariant
        self.definitions.normal@.dom().finite(), it.normal@.dom().finite(),
        it.type_ is Some ==> und_o(it.type_) == self.definitions.type_,
        it.type_ is None && self.definitions.type_ is Some ==> !self.definitions.type_->0.protected,
        forall|k: Key| #[trigger] it.normal@.dom().contains(k) ==> self.definitions.normal@.dom().contains(k) && it.normal@[k] == self.definitions.normal@[k],
        forall|k: Key| #[trigger] self.definitions.normal@.dom().contains(k) && !it.normal@.dom().contains(k) ==> !self.definitions.normal@[k].protected,
    ensures
        it.type_ is None, it.normal@ == Map::<Key, NormalTermDefinition<T, B>>::empty(),
    decreases it.normal@.dom().len() + (if it.type_ is Some { 1nat } else { 0 }),
//@ spec
    ensures r == protects(self.definitions),
//@ end
//@ extract fn impl Context > set_base_iri from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures facts(*final(self)) == facts(Context { base_iri: iri, ..*old(self) }), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_vocabulary from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures facts(*final(self)) == facts(Context { vocabulary: vocab, ..*old(self) }), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_default_language from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures facts(*final(self)) == facts(Context { default_language: lang, ..*old(self) }), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_default_base_direction from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures facts(*final(self)) == facts(Context { default_base_direction: dir, ..*old(self) }), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_previous_context from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures facts(*final(self)) == facts(Context { previous_context: Some(Box::new(previous)), ..*old(self) }), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_normal from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures final(self).definitions.normal@ == insert_opt(old(self).definitions.normal@, key, definition), facts(*final(self)) == facts(Context { definitions: final(self).definitions, ..*old(self) }), final(self).definitions.type_ == old(self).definitions.type_, r == at(old(self).definitions.normal@, key), cache_ok(*old(self), *final(self)),
//@ end
//@ extract fn impl Context > set_type from crates/core/src/context/mod.rs
//@ ret r
//@ spec
    ensures final(self).definitions.type_ == type_, facts(*final(self)) == facts(Context { definitions: final(self).definitions, ..*old(self) }), final(self).definitions.normal@ == old(self).definitions.normal@, r == old(self).definitions.type_, cache_ok(*old(self), *final(self)),
//@ end
}
}
fn main() {}
