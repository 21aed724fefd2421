#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::hash::Hash;
pub mod object { pub mod value { pub use super::super::Literal; } }
pub mod json_ld_core { pub mod object { pub use super::super::Literal; } }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum ProcessingMode from crates/core/src/mode.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Nullable from crates/syntax/src/nullable.rs
//@ end
impl<T> Nullable<T> {
//@ extract fn impl Nullable > as_ref from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures match r { Nullable::Null => *self is Null, Nullable::Some(x) => *self == Nullable::Some(*x) },
//@ end
//@ extract fn impl Nullable > map from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    requires self matches Nullable::Some(x) ==> f.requires((x,)),
    ensures match r { Nullable::Null => self is Null, Nullable::Some(y) => self is Some && f.ensures((self->Some_0,), y) },
//@ end
//@ extract fn impl Nullable > option from crates/syntax/src/nullable.rs
//@ ret r
//@ spec
    ensures r == (match self { Nullable::Null => None, Nullable::Some(x) => Some(x) }),
//@ end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Container from crates/core/src/container.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum ContainerKind from crates/syntax/src/container.rs
//@ end
/// proved in container.rs
pub uninterp spec fn includes(c: Container, k: ContainerKind) -> bool;
impl Container {
    #[verifier::external_body]
    pub fn contains(&self, k: ContainerKind) -> (r: bool) ensures r == includes(*self, k) { unimplemented!() }
}
/// the empty container mapping
pub axiom fn no_container(k: ContainerKind) ensures !includes(Container::None, k);
#[derive(Clone, Copy)]
//@ extract struct Options from crates/compaction/src/lib.rs
//@ end
//@ extract struct IriConfusedWithPrefix from crates/compaction/src/iri.rs
//@ end
#[verifier::external_body] pub struct ContextError { x: u8 }
//@ extract enum Error from crates/compaction/src/lib.rs
//@ subst json_ld_context_processing::Error => ContextError
//@ end
impl vstd::std_specs::convert::FromSpecImpl<ContextError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ContextError) -> Self { Error::ContextProcessing(e) } }
impl From<ContextError> for Error {
//@ extract fn impl From<json_ld_context_processing::Error> for Error > from from crates/compaction/src/lib.rs
//@ ret r
//@ subst json_ld_context_processing::Error => ContextError
//@ end
}
impl vstd::std_specs::convert::FromSpecImpl<IriConfusedWithPrefix> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IriConfusedWithPrefix) -> Self { Error::IriConfusedWithPrefix } }
impl From<IriConfusedWithPrefix> for Error {
//@ extract fn impl From<IriConfusedWithPrefix> for Error > from from crates/compaction/src/lib.rs
//@ ret r
//@ end
}
#[verifier::external_body] pub struct LenientLangTag { x: u8 }
#[verifier::external_body] pub struct LenientLangTagBuf { x: u8 }
#[verifier::external_body] pub struct LangString { x: u8 }
/// json_syntax::NumberBuf
#[verifier::external_body] pub struct NumberBuf { x: u8 }
#[verifier::external_body] pub struct JsString { x: u8 }
#[verifier::external_body] pub struct JsKey { x: u8 }
#[verifier::external_body] pub struct JsObject { x: u8 }
/// json_syntax::Value
pub enum JsValue { Null, Boolean(bool), Number(NumberBuf), String(JsString), Array(Vec<JsValue>), Object(JsObject) }
pub struct Entry { pub key: JsKey, pub value: JsValue }
#[verifier::external_body] pub struct Duplicate { x: u8 }
pub uninterp spec fn js(s: JsString) -> Seq<char>;
pub uninterp spec fn js_str(s: Seq<char>) -> JsString;
pub uninterp spec fn key_text(k: JsKey) -> Seq<char>;
pub uninterp spec fn js_key(s: Seq<char>) -> JsKey;
pub broadcast axiom fn js_key_text(s: Seq<char>) ensures key_text(#[trigger] js_key(s)) == s;
pub broadcast axiom fn js_str_text(s: Seq<char>) ensures js(#[trigger] js_str(s)) == s;
/// a JSON value up to the order of entries; the flag tells that no key occurs twice
pub enum JV { Null, Bool(bool), Num(NumberBuf), Str(Seq<char>), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>, bool) }
pub uninterp spec fn fields(o: JsObject) -> Map<Seq<char>, JV>;
pub uninterp spec fn unique(o: JsObject) -> bool;
pub open spec fn jv(v: JsValue) -> JV decreases v {
    match v {
        JsValue::Null => JV::Null, JsValue::Boolean(b) => JV::Bool(b), JsValue::Number(n) => JV::Num(n), JsValue::String(s) => JV::Str(js(s)),
        JsValue::Array(a) => JV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { jv(a@[i]) } else { JV::Null })), JsValue::Object(o) => JV::Obj(fields(o), unique(o)),
    }
}
pub open spec fn jvs(a: Seq<JsValue>) -> Seq<JV> { Seq::new(a.len(), |i: int| jv(a[i])) }
proof fn jv_array(a: Vec<JsValue>) ensures jv(JsValue::Array(a)) == JV::Arr(jvs(a@)) {
    assert(jv(JsValue::Array(a)) matches JV::Arr(s) && s =~= jvs(a@));
}
broadcast proof fn jv_arrays(v: JsValue) requires v is Array ensures (#[trigger] jv(v)) == JV::Arr(jvs(v->Array_0@)) { jv_array(v->Array_0); }
broadcast proof fn jvs_push(a: Seq<JsValue>, x: JsValue) ensures #[trigger] jvs(a.push(x)) == jvs(a).push(jv(x)) { assert(jvs(a.push(x)) =~= jvs(a).push(jv(x))); }
broadcast proof fn jvs_empty() ensures #[trigger] jvs(Seq::<JsValue>::empty()) == Seq::<JV>::empty() { assert(jvs(Seq::<JsValue>::empty()) =~= Seq::<JV>::empty()); }
/// stands for `vec![v]`
fn vx_one(v: JsValue) -> (r: Vec<JsValue>) ensures r@ == seq![v], jv(JsValue::Array(r)) == JV::Arr(seq![jv(v)]) {
    let mut r = Vec::new();
    r.push(v);
    proof { jv_array(r); assert(r@ =~= seq![v]); assert(jvs(r@) =~= seq![jv(v)]); }
    r
}
pub uninterp spec fn dup_key(o: JsObject) -> bool;
impl JsObject {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures fields(r) == Map::<Seq<char>, JV>::empty(), unique(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (fields(*self) =~= Map::<Seq<char>, JV>::empty()) { unimplemented!() }
    /// replaces every entry with that key, or appends one
    #[verifier::external_body]
    pub fn insert(&mut self, key: JsKey, value: JsValue) -> (r: Option<JsValue>)
        ensures fields(*final(self)) == fields(*old(self)).insert(key_text(key), jv(value)), unique(*final(self)) == unique(*old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_unique(&self, key: &str) -> (r: Result<Option<&JsValue>, Duplicate>)
        ensures unique(*self) ==> r is Ok, r is Ok ==> (r->Ok_0 is Some == fields(*self).contains_key(key@) && (r->Ok_0 matches Some(v) ==> jv(*v) == fields(*self)[key@])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_unique_mut(&mut self, key: &str) -> (r: Result<Option<&mut JsValue>, Duplicate>)
        ensures
            unique(*old(self)) ==> r is Ok,
            match r {
                Ok(Some(v)) => fields(*old(self)).contains_key(key@) && jv(*v) == fields(*old(self))[key@] && fields(*final(self)) == fields(*old(self)).insert(key@, jv(*final(v))) && unique(*final(self)) == unique(*old(self)),
                Ok(None) => !fields(*old(self)).contains_key(key@) && *final(self) == *old(self),
                Err(_) => *final(self) == *old(self),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_unique(&mut self, key: &str) -> (r: Result<Option<Entry>, Duplicate>)
        ensures
            unique(*old(self)) ==> r is Ok,
            match r {
                Ok(Some(e)) => fields(*old(self)).contains_key(key@) && key_text(e.key) == key@ && jv(e.value) == fields(*old(self))[key@] && fields(*final(self)) == fields(*old(self)).remove(key@) && unique(*final(self)) == unique(*old(self)),
                Ok(None) => !fields(*old(self)).contains_key(key@) && *final(self) == *old(self),
                Err(_) => *final(self) == *old(self),
            },
    { unimplemented!() }
}
impl JsValue {
    pub fn is_array(&self) -> (r: bool) ensures r == (jv(*self) is Arr) { matches!(self, JsValue::Array(_)) }
    pub fn is_null(&self) -> (r: bool) ensures r == (jv(*self) is Null) { matches!(self, JsValue::Null) }
    #[verifier::external_body]
    pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<JsValue>>)
        ensures match r { Some(a) => *old(self) == JsValue::Array(*a) && *final(self) == JsValue::Array(*final(a)), None => !(*old(self) is Array) && *final(self) == *old(self) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut JsObject>)
        ensures match r { Some(a) => *old(self) == JsValue::Object(*a) && *final(self) == JsValue::Object(*final(a)), None => !(*old(self) is Object) && *final(self) == *old(self) },
    { unimplemented!() }
}
impl Clone for JsValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NumberBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl JsString { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == js(*self) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: &'a str) -> Self { js_key(s@) } }
impl<'a> From<&'a str> for JsKey { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<String> for JsKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: String) -> Self { js_key(s@) } }
impl From<String> for JsKey { #[verifier::external_body] fn from(s: String) -> (r: Self) { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsString { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: &'a str) -> Self { js_str(s@) } }
impl<'a> From<&'a str> for JsString { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<String> for JsString { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: String) -> Self { js_str(s@) } }
impl From<String> for JsString { #[verifier::external_body] fn from(s: String) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<String> for JsValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: String) -> Self { JsValue::String(js_str(s@)) } }
impl From<String> for JsValue { #[verifier::external_body] fn from(s: String) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<JsObject> for JsValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(s: JsObject) -> Self { JsValue::Object(s) } }
impl From<JsObject> for JsValue { fn from(s: JsObject) -> (r: Self) { JsValue::Object(s) } }
pub trait VocabularyMut { type Iri; type BlankId; }
pub trait Loader {}
/// rdf_types::Id
pub enum ValidId<I, B> { Iri(I), Blank(B) }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
//@ extract enum Term from crates/core/src/term.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract enum Type from crates/core/src/ty.rs
//@ subst Type<I = IriBuf> => Type<I>
//@ end
//@ extract enum Literal from crates/core/src/object/value.rs
//@ subst json_syntax::String => JsString
//@ end
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst json_syntax::Value => JsValue
//@ subst <T = IriBuf> => <T>
//@ end
/// derived; indexes are equal when they are the same, cloning an index gives the same index
impl<T: Clone, B: Clone> Clone for Id<T, B> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
impl<T: PartialEq> PartialEqSpecImpl for Type<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq, B: PartialEq> PartialEqSpecImpl for Term<T, B> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq, B: PartialEq> PartialEq for Term<T, B> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> PartialEq for Type<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external_body]
fn vx_same_type<T: PartialEq>(a: Option<T>, b: &Option<Type<T>>) -> (r: bool) ensures r == (*b == (match a { Some(t) => Some(Type::Iri(t)), None => None })) { unimplemented!() }
impl<I: Clone> Clone for Type<I> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<I, B> Id<I, B> {
    /// extracted in unordered.rs
    pub fn iri(i: I) -> (r: Self) ensures r == Id::<I, B>::Valid(ValidId::Iri(i)) { Id::Valid(ValidId::Iri(i)) }
//@ extract fn impl Id > into_term from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r == Term::<I, B>::Id(self),
//@ end
}
/// a language tag, its case left out: what its equality looks at (langtag)
pub uninterp spec fn tag(t: LenientLangTag) -> Seq<char>;
pub uninterp spec fn tag_text(t: LenientLangTag) -> Seq<char>;
pub uninterp spec fn btag(t: LenientLangTagBuf) -> Seq<char>;
pub open spec fn otag(l: Option<&LenientLangTag>) -> Option<Seq<char>> { match l { Some(l) => Some(tag(*l)), None => None } }
impl LenientLangTag { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == tag_text(*self) { unimplemented!() } }
impl LenientLangTagBuf { #[verifier::external_body] pub fn as_lenient_lang_tag_ref(&self) -> (r: &LenientLangTag) ensures tag(*r) == btag(*self) { unimplemented!() } }
#[verifier::external_body]
fn vx_same_tag(a: &Option<&LenientLangTag>, b: &Option<&LenientLangTag>) -> (r: bool) ensures r == (otag(*a) == otag(*b)) { unimplemented!() }
pub uninterp spec fn stext(s: LangString) -> Seq<char>;
pub uninterp spec fn slang(s: LangString) -> Option<LenientLangTag>;
pub uninterp spec fn sdir(s: LangString) -> Option<Direction>;
pub open spec fn und<T>(n: Option<&T>) -> Option<T> { match n { None => None, Some(t) => Some(*t) } }
impl LangString {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == stext(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn language(&self) -> (r: Option<&LenientLangTag>) ensures und(r) == slang(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn direction(&self) -> (r: Option<Direction>) ensures r == sdir(*self) { unimplemented!() }
}
pub uninterp spec fn dir_text(d: Direction) -> Seq<char>;
impl Direction { #[verifier::external_body] pub fn as_str(&self) -> (r: &'static str) ensures r@ == dir_text(*self) { unimplemented!() } }

// ---- active contexts (accessors proved in defs.rs; processing: properties P06 to P09) ---------------
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Context<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct TermDefinitionRef<'a, T, B> { x: core::marker::PhantomData<&'a (T, B)> }
impl<'a, T, B> Clone for TermDefinitionRef<'a, T, B> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, T, B> Copy for TermDefinitionRef<'a, T, B> {}
//@ extract enum Nest from crates/syntax/src/context/term_definition/nest.rs
//@ end
impl Nest {
//@ extract fn impl Nest > as_str from crates/syntax/src/context/term_definition/nest.rs
//@ ret r
//@ spec
    ensures r@ == nest_text(nesting(*self)),
//@ end
}
/// where the entries of a property go
pub enum Nesting { Nest, Term(Seq<char>) }
pub open spec fn nesting(n: Nest) -> Nesting { match n { Nest::Nest => Nesting::Nest, Nest::Term(s) => Nesting::Term(s@) } }
pub open spec fn nest_text(n: Nesting) -> Seq<char> { match n { Nesting::Nest => "@nest"@, Nesting::Term(s) => s } }
#[verifier::external_body] pub struct Local { x: u8 }
#[verifier::external_body] pub struct IndexKey { x: u8 }
#[verifier::external_body] pub struct ProcessingOptions { x: u8 }
pub struct D<T, B> { pub nest: Option<Nesting>, pub value: Option<Term<T, B>>, pub context: Option<Local>, pub base: Option<T>, pub language: Option<Nullable<Seq<char>>>, pub direction: Option<Nullable<Direction>>, pub typ: Option<Type<T>>, pub container: Container, pub index: bool }
pub uninterp spec fn says<T, B>(d: TermDefinitionRef<'_, T, B>) -> D<T, B>;
pub uninterp spec fn def<T, B>(c: Context<T, B>, s: Seq<char>) -> Option<D<T, B>>;
pub uninterp spec fn clang<T, B>(c: Context<T, B>) -> Option<Seq<char>>;
pub uninterp spec fn cdir<T, B>(c: Context<T, B>) -> Option<Direction>;
/// the context that processing a local context gives
pub uninterp spec fn entered<T, B>(c: Context<T, B>, local: Local, base: Option<T>, o: ProcessingOptions) -> Result<Context<T, B>, ()>;
pub uninterp spec fn overriding(o: Options) -> ProcessingOptions;
pub open spec fn nbtag(n: Option<&Nullable<LenientLangTagBuf>>) -> Option<Nullable<Seq<char>>> { match n { None => None, Some(Nullable::Null) => Some(Nullable::Null), Some(Nullable::Some(l)) => Some(Nullable::Some(btag(*l))) } }
impl<'a, T, B> TermDefinitionRef<'a, T, B> {
    #[verifier::external_body]
    pub fn value(&self) -> (r: Option<&'a Term<T, B>>) ensures und(r) == says(*self).value { unimplemented!() }
    #[verifier::external_body]
    pub fn context(&self) -> (r: Option<&'a Local>) ensures und(r) == says(*self).context { unimplemented!() }
    #[verifier::external_body]
    pub fn base_url(&self) -> (r: Option<&'a T>) ensures und(r) == says(*self).base { unimplemented!() }
    #[verifier::external_body]
    pub fn language(&self) -> (r: Option<&'a Nullable<LenientLangTagBuf>>) ensures nbtag(r) == says(*self).language { unimplemented!() }
    #[verifier::external_body]
    pub fn direction(&self) -> (r: Option<Nullable<Direction>>) ensures r == says(*self).direction { unimplemented!() }
    #[verifier::external_body]
    pub fn nest(&self) -> (r: Option<&'a Nest>) ensures (match r { Some(n) => Some(nesting(*n)), None => None }) == says(*self).nest { unimplemented!() }
    #[verifier::external_body]
    pub fn typ(&self) -> (r: Option<&'a Type<T>>) ensures und(r) == says(*self).typ { unimplemented!() }
    #[verifier::external_body]
    pub fn container(&self) -> (r: Container) ensures r == says(*self).container { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self) -> (r: Option<&'a IndexKey>) ensures r is Some == says(*self).index { unimplemented!() }
}
impl<T, B> Context<T, B> {
    #[verifier::external_body]
    pub fn get(&self, s: &str) -> (r: Option<TermDefinitionRef<'_, T, B>>) ensures r is Some == def(*self, s@) is Some, r is Some ==> says(r->0) == def(*self, s@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn default_language(&self) -> (r: Option<&LenientLangTag>) ensures otag(r) == clang(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_base_direction(&self) -> (r: Option<Direction>) ensures r == cdir(*self) { unimplemented!() }
}
/// mown
pub enum Mown<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Mown<'a, T> {
    pub open spec fn it(self) -> T { match self { Mown::Borrowed(t) => *t, Mown::Owned(t) => t } }
    pub fn as_ref(&self) -> (r: &T) ensures *r == self.it() { match self { Mown::Borrowed(t) => *t, Mown::Owned(t) => t } }
}
/// through Deref
impl<'a, T, B> Mown<'a, Context<T, B>> {
    pub fn get(&self, s: &str) -> (r: Option<TermDefinitionRef<'_, T, B>>) ensures r is Some == def(self.it(), s@) is Some, r is Some ==> says(r->0) == def(self.it(), s@)->0 { self.as_ref().get(s) }
    pub fn default_language(&self) -> (r: Option<&LenientLangTag>) ensures otag(r) == clang(self.it()) { self.as_ref().default_language() }
    pub fn default_base_direction(&self) -> (r: Option<Direction>) ensures r == cdir(self.it()) { self.as_ref().default_base_direction() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Processed<T, B> { pub context: Context<T, B> }
impl<T, B> Processed<T, B> { pub fn into_processed(self) -> (r: Context<T, B>) ensures r == self.context { self.context } }
impl Local {
    #[verifier::external_body]
    pub async fn process_with<N: VocabularyMut, L>(&self, vocabulary: &mut N, active: &Context<N::Iri, N::BlankId>, loader: &L, base: Option<N::Iri>, options: ProcessingOptions) -> (r: Result<Processed<N::Iri, N::BlankId>, ContextError>)
        ensures match r { Ok(p) => entered(*active, *self, base, options) == Ok::<Context<N::Iri, N::BlankId>, ()>(p.context), Err(_) => entered(*active, *self, base, options) is Err },
    { unimplemented!() }
}
/// stands for ProcessingOptions::from(options).with_override()
#[verifier::external_body]
fn vx_overriding(o: Options) -> (r: ProcessingOptions) ensures r == overriding(o) { unimplemented!() }
#[verifier::external_body]
fn vx_cloned<T: Clone>(t: Option<&T>) -> (r: Option<T>) ensures r == und(t) { unimplemented!() }

// ---- IRI compaction (contracts proved in compiri.rs; the texts of identifiers are those of the vocabulary) ----
pub uninterp spec fn compacted<T, B>(c: Context<T, B>, t: Term<T, B>, vocab: bool, reverse: bool, o: Options) -> Result<Option<Seq<char>>, ()>;
pub open spec fn said<K>(r: Result<Option<Seq<char>>, K>) -> Result<Option<Seq<char>>, ()> { match r { Ok(x) => Ok(x), Err(_) => Err(()) } }
pub axiom fn only_null_is_null<T, B>(c: Context<T, B>, t: Term<T, B>, vocab: bool, reverse: bool, o: Options) ensures compacted(c, t, vocab, reverse, o) matches Ok(x) ==> x is Some == !(t is Null);
#[verifier::external_body]
fn compact_iri<N: VocabularyMut>(vocabulary: &N, active_context: &Context<N::Iri, N::BlankId>, var: &Term<N::Iri, N::BlankId>, vocab: bool, reverse: bool, options: Options) -> (r: Result<Option<String>, IriConfusedWithPrefix>)
    ensures match r { Ok(Some(s)) => compacted(*active_context, *var, vocab, reverse, options) == Ok::<_, ()>(Some(s@)), Ok(None) => compacted(*active_context, *var, vocab, reverse, options) == Ok::<Option<Seq<char>>, ()>(None), Err(_) => compacted(*active_context, *var, vocab, reverse, options) is Err },
        r is Ok ==> r->Ok_0 is Some == !(*var is Null),
{ unimplemented!() }
#[verifier::external_body]
fn compact_key<N: VocabularyMut>(vocabulary: &N, active_context: &Context<N::Iri, N::BlankId>, var: &Term<N::Iri, N::BlankId>, vocab: bool, reverse: bool, options: Options) -> (r: Result<Option<JsKey>, IriConfusedWithPrefix>)
    ensures match r { Ok(Some(s)) => compacted(*active_context, *var, vocab, reverse, options) == Ok::<_, ()>(Some(key_text(s))), Ok(None) => compacted(*active_context, *var, vocab, reverse, options) == Ok::<Option<Seq<char>>, ()>(None), Err(_) => compacted(*active_context, *var, vocab, reverse, options) is Err },
        r is Ok ==> r->Ok_0 is Some == !(*var is Null),
{ unimplemented!() }

// ---- Add Value (JSON-LD 1.1 API, section 9) --------------------------------------------------------------
/// the values an array stands for: nested arrays are added item by item
pub open spec fn flat(v: JV) -> Seq<JV> decreases v, 0int { match v { JV::Arr(s) => flats(s), v => seq![v] } }
pub open spec fn flats(s: Seq<JV>) -> Seq<JV> decreases s, 1int { if s.len() == 0 { Seq::empty() } else { flats(s.drop_last()) + flat(s.last()) } }
pub open spec fn joined(old_: Option<JV>, f: Seq<JV>, as_array: bool) -> Option<JV> {
    match old_ {
        None => if as_array { Some(JV::Arr(f)) } else if f.len() == 0 { None } else if f.len() == 1 { Some(f[0]) } else { Some(JV::Arr(f)) },
        Some(JV::Arr(a)) => Some(JV::Arr(a + f)),
        Some(x) => if f.len() == 0 && !as_array { Some(x) } else { Some(JV::Arr(seq![x] + f)) },
    }
}
pub open spec fn entry(m: Map<Seq<char>, JV>, k: Seq<char>) -> Option<JV> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn with_values(m: Map<Seq<char>, JV>, k: Seq<char>, f: Seq<JV>, as_array: bool) -> Map<Seq<char>, JV> {
    match joined(entry(m, k), f, as_array) { Some(v) => m.insert(k, v), None => m }
}
pub open spec fn with_value(m: Map<Seq<char>, JV>, k: Seq<char>, v: JV, as_array: bool) -> Map<Seq<char>, JV> { with_values(m, k, flat(v), as_array) }
proof fn flat_items(v: JV) ensures forall|i: int| 0 <= i < flat(v).len() ==> !(#[trigger] flat(v)[i] is Arr) decreases v, 0int { if v is Arr { flats_items(v->Arr_0); } }
proof fn flats_items(s: Seq<JV>) ensures forall|i: int| 0 <= i < flats(s).len() ==> !(#[trigger] flats(s)[i] is Arr) decreases s, 1int { if s.len() > 0 { flats_items(s.drop_last()); flat_items(s.last()); } }
proof fn one_by_one(m: Map<Seq<char>, JV>, k: Seq<char>, f: Seq<JV>, g: Seq<JV>)
    requires forall|i: int| 0 <= i < f.len() ==> !(#[trigger] f[i] is Arr),
    ensures with_values(with_values(m, k, f, false), k, g, false) == with_values(m, k, f + g, false),
{
    assert(f + Seq::<JV>::empty() =~= f);
    assert(Seq::<JV>::empty() + g =~= g);
    let o = entry(m, k);
    if let Some(JV::Arr(a)) = o { assert((a + f) + g =~= a + (f + g)); }
    if let Some(x) = o { assert((seq![x] + f) + g =~= seq![x] + (f + g)); }
    if f.len() == 1 { assert(seq![f[0]] + g =~= f + g); }
    assert(entry(with_values(m, k, f, false), k) == joined(o, f, false));
    assert(joined(joined(o, f, false), g, false) == joined(o, f + g, false));
    assert(with_values(with_values(m, k, f, false), k, g, false) =~= with_values(m, k, f + g, false));
}
proof fn made_array(m: Map<Seq<char>, JV>, k: Seq<char>, f: Seq<JV>, as_array: bool)
    ensures with_values(with_values(m, k, Seq::empty(), as_array), k, f, false) == with_values(m, k, f, as_array),
{
    assert(Seq::<JV>::empty() + f =~= f);
    let o = entry(m, k);
    if let Some(JV::Arr(a)) = o { assert((a + Seq::<JV>::empty()) + f =~= a + f); }
    if let Some(x) = o { assert((seq![x] + Seq::<JV>::empty()) + f =~= seq![x] + f); }
    assert(entry(with_values(m, k, Seq::empty(), as_array), k) == joined(o, Seq::empty(), as_array));
    assert(with_values(with_values(m, k, Seq::empty(), as_array), k, f, false) =~= with_values(m, k, f, as_array));
}
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn add_value from crates/compaction/src/lib.rs
//@ subst json_syntax::Object => JsObject
//@ subst json_syntax::Value => JsValue
//@ desugar option.map
//@ start
    broadcast use js_key_text, js_str_text, jv_arrays, jvs_push, jvs_empty;
    let ghost m0 = fields(*map);
    let ghost v0 = jv(value);
    proof { if value is Array { jv_array(value->Array_0); } }
//@ subst vec![value] => vx_one(value)
//@ before "match value"
    proof {
        let one = JV::Arr(Seq::<JV>::empty());
        assert(flats(Seq::<JV>::empty()) =~= Seq::empty());
        if value is Array { assert(fields(*map) =~= with_values(m0, key@, Seq::empty(), as_array)); }
    }
    let ghost m1 = fields(*map);
    assert(m1 == with_values(m0, key@, Seq::empty(), as_array) || !(v0 is Arr));
//@ before "return;"
    proof {
        assert(flat(v0) =~= seq![v0]);
        assert forall|a: Seq<JV>| #[trigger] a.push(v0) == a + seq![v0] by { assert(a.push(v0) =~= a + seq![v0]); }
        assert(Seq::<JV>::empty() + seq![v0] =~= seq![v0]);
        assert(fields(*map) =~= with_values(m0, key@, seq![v0], as_array));
    }
//@ before "if let Some(array) = map"
    assert(flat(v0) =~= seq![v0]);
//@ before "for value in values"
    let ghost vs = values@;
    assert(vs.take(0) =~= Seq::empty());
    assert(jvs(vs.take(0)) =~= Seq::empty());
    proof { made_array(m0, key@, flats(jvs(vs)), as_array); made_array(m0, key@, Seq::empty(), as_array); assert(flat(v0) == flats(jvs(vs))); assert(vs.take(vs.len() as int) =~= vs);
        one_by_one(m1, key@, Seq::empty(), Seq::empty()); }
    assert(entry(m1, key@) matches Some(JV::Arr(a)) ==> a + Seq::<JV>::empty() =~= a);
    assert(with_values(m1, key@, Seq::empty(), false) =~= m1);
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == vs, unique(*map), fields(*map) == with_values(m1, key@, flats(jvs(vs.take(it.index@))), false),
//@ loop 0 body-start
    let ghost i0 = it.index@;
    proof { flats_items(jvs(vs.take(i0))); one_by_one(m1, key@, flats(jvs(vs.take(i0))), flat(jv(value)));
        assert(jvs(vs.take(i0 + 1)).drop_last() =~= jvs(vs.take(i0))); assert(jvs(vs.take(i0 + 1)).last() == jv(value)); }
//@ spec
    requires unique(*old(map)),
    ensures unique(*final(map)), fields(*final(map)) == with_value(fields(*old(map)), key@, jv(value), as_array),
//@ end

// ---- values (JSON-LD 1.1 API, section 6.3) ------------------------------------------------------------------
pub open spec fn lit(l: Literal) -> JV { match l { Literal::Null => JV::Null, Literal::Boolean(b) => JV::Bool(b), Literal::Number(n) => JV::Num(n), Literal::String(s) => JV::Str(js(s)) } }
/// what the @value entry holds
pub open spec fn at_value<I>(v: Value<I>) -> JV { match v { Value::Literal(l, _) => lit(l), Value::LangString(s) => JV::Str(stext(s)), Value::Json(j) => jv(j) } }
pub open spec fn maybe(s: Option<Seq<char>>) -> JV { match s { Some(s) => JV::Str(s), None => JV::Null } }
pub type Fields = Map<Seq<char>, JV>;
pub open spec fn name<T, B>(c: Context<T, B>, k: Keyword, o: Options) -> Result<Option<Seq<char>>, ()> { compacted(c, Term::Keyword(k), true, false, o) }
pub open spec fn put(m: Result<Fields, ()>, k: Result<Option<Seq<char>>, ()>, v: JV) -> Result<Fields, ()> { match (m, k) { (Ok(m), Ok(Some(k))) => Ok(m.insert(k, v)), _ => Err(()) } }
pub open spec fn put_name(m: Result<Fields, ()>, k: Result<Option<Seq<char>>, ()>, v: Result<Option<Seq<char>>, ()>) -> Result<Fields, ()> { match v { Ok(v) => put(m, k, maybe(v)), _ => Err(()) } }
/// the context the property's definition holds, if any, replaces the active context
pub open spec fn scoped<T, B>(c: Context<T, B>, prop: Option<Seq<char>>, o: Options) -> Result<Context<T, B>, ()> {
    match prop { Some(p) => match def(c, p) { Some(d) => match d.context { Some(l) => entered(c, l, d.base, overriding(o)), None => Ok(c) }, None => Ok(c) }, None => Ok(c) }
}
pub open spec fn prop_def<T, B>(c: Context<T, B>, prop: Option<Seq<char>>) -> Option<D<T, B>> { match prop { Some(p) => def(c, p), None => None } }
pub open spec fn the_language<T, B>(c: Context<T, B>, prop: Option<Seq<char>>) -> Option<Seq<char>> {
    match prop_def(c, prop) { Some(D { language: Some(Nullable::Some(l)), .. }) => Some(l), Some(D { language: Some(Nullable::Null), .. }) => None, _ => clang(c) }
}
pub open spec fn the_direction<T, B>(c: Context<T, B>, prop: Option<Seq<char>>) -> Option<Direction> {
    match prop_def(c, prop) { Some(D { direction: Some(Nullable::Some(d)), .. }) => Some(d), Some(D { direction: Some(Nullable::Null), .. }) => None, _ => cdir(c) }
}
pub open spec fn the_type<T, B>(c: Context<T, B>, prop: Option<Seq<char>>) -> Option<Type<T>> { match prop_def(c, prop) { Some(d) => d.typ, None => None } }
pub open spec fn holds<T, B>(c: Context<T, B>, prop: Option<Seq<char>>, k: ContainerKind) -> bool { match prop_def(c, prop) { Some(d) => includes(d.container, k), None => false } }
pub open spec fn slangt(s: LangString) -> Option<Seq<char>> { match slang(s) { Some(l) => Some(tag(l)), None => None } }
/// the property says everything but the value itself
pub open spec fn bare<T, B>(c: Context<T, B>, v: Value<T>, prop: Option<Seq<char>>) -> bool {
    match v {
        Value::Literal(l, Some(t)) => the_type(c, prop) == Some(Type::Iri(t)),
        Value::Literal(l, None) => the_type(c, prop) is None && (l is String ==> the_language(c, prop) is None && the_direction(c, prop) is None),
        Value::LangString(s) => the_type(c, prop) is None && the_language(c, prop) == slangt(s) && the_direction(c, prop) == sdir(s),
        Value::Json(_) => the_type(c, prop) == Some(Type::<T>::Json),
    }
}
pub open spec fn value_object<T, B>(c: Context<T, B>, v: Value<T>, o: Options) -> Result<Fields, ()> {
    let m = put(Ok(Map::empty()), name(c, Keyword::Value, o), at_value(v));
    match v {
        Value::Literal(_, None) => m,
        Value::Literal(_, Some(t)) => put_name(m, name(c, Keyword::Type, o), compacted(c, Term::Id(Id::Valid(ValidId::Iri(t))), true, false, o)),
        Value::Json(_) => put_name(m, name(c, Keyword::Type, o), name(c, Keyword::Json, o)),
        Value::LangString(s) => {
            let m = match slang(s) { Some(l) => put(m, name(c, Keyword::Language, o), JV::Str(tag_text(l))), None => m };
            match sdir(s) { Some(d) => put(m, name(c, Keyword::Direction, o), JV::Str(dir_text(d))), None => m }
        }
    }
}
pub open spec fn compacted_value<T, B>(c0: Context<T, B>, v: Value<T>, index: Option<Seq<char>>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()> {
    match scoped(c0, prop, o) {
        Err(_) => Err(()),
        Ok(c) => {
            let keep = index is Some && !holds(c, prop, ContainerKind::Index);
            if bare(c, v, prop) && !keep { Ok(at_value(v)) } else {
                let m = value_object(c, v, o);
                match (if keep { put(m, name(c, Keyword::Index, o), JV::Str(index->0)) } else { m }) { Ok(m) => Ok(JV::Obj(m, true)), Err(_) => Err(()) }
            }
        }
    }
}
pub open spec fn text(s: Option<&str>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn result(r: Result<JsValue, Error>) -> Result<JV, ()> { match r { Ok(v) => Ok(jv(v)), Err(_) => Err(()) } }
//@ extract fn value_value from crates/compaction/src/lib.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ start
    broadcast use js_str_text;
//@ spec
    ensures jv(r) == at_value(*value),
//@ end
//@ extract fn optional_string from crates/compaction/src/node.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst ~ s.map(Into::into) .unwrap_or_else(|| JsValue::Null) => match s { Some(s) => s.into(), None => JsValue::Null }
//@ start
    broadcast use js_str_text;
//@ spec
    ensures jv(r) == maybe(match s { Some(s) => Some(s@), None => None }),
//@ end
//@ extract fn compact_indexed_value_with from crates/compaction/src/value.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ subst ty.clone().map(Type::Iri) == type_mapping => vx_same_type(vx_clone(ty), &type_mapping)
//@ subst ty.clone() => vx_clone(ty)
//@ subst language == ls_language => vx_same_tag(&language, &ls_language)
//@ subst ProcessingOptions::from(options).with_override() => vx_overriding(options)
//@ call cloned => vx_cloned($0)
//@ closure 0 (r: &LenientLangTag)
    ensures tag(*r) == btag(*l)
//@ start
    broadcast use js_str_text, js_key_text;
    let ghost c0 = *active_context;
//@ before "let active_property_definition ="
    assert(scoped(c0, text(active_property), options) == Ok::<Context<N::Iri, N::BlankId>, ()>(active_context.it()));
    let ghost c = active_context.it();
    proof { no_container(ContainerKind::Index); }
//@ before "match value"
    assert(otag(language) == the_language(c, text(active_property)));
    assert(direction == the_direction(c, text(active_property)));
    assert(type_mapping == the_type(c, text(active_property)));
    assert(remove_index == !(index is Some && !holds(c, text(active_property), ContainerKind::Index)));
//@ before "if !remove_index"
    assert(!bare(c, *value, text(active_property)) || !remove_index);
    assert(value_object(c, *value, options) == Ok::<Fields, ()>(fields(result)));
//@ spec
    ensures result(r) == compacted_value(*active_context, *value, text(index), text(active_property), options),
//@ end

// ---- types ----------------------------------------------------------------------------------------------------
pub open spec fn iri_name<T, B>(c: Context<T, B>, i: Id<T, B>, o: Options) -> Result<Option<Seq<char>>, ()> { compacted(c, Term::Id(i), true, false, o) }
/// the names of the first n types
pub open spec fn type_names<T, B>(c: Context<T, B>, ts: Seq<Id<T, B>>, o: Options) -> Result<Seq<JV>, ()> decreases ts.len() {
    if ts.len() == 0 { Ok(Seq::empty()) } else { match (type_names(c, ts.drop_last(), o), iri_name(c, ts.last(), o)) { (Ok(s), Ok(n)) => Ok(s.push(maybe(n))), _ => Err(()) } }
}
pub open spec fn types_value<T, B>(c: Context<T, B>, ts: Seq<Id<T, B>>, o: Options) -> Result<JV, ()> {
    if ts.len() == 1 { match iri_name(c, ts[0], o) { Ok(n) => Ok(maybe(n)), Err(_) => Err(()) } } else { match type_names(c, ts, o) { Ok(s) => Ok(JV::Arr(s)), Err(_) => Err(()) } }
}
proof fn names_err<T, B>(c: Context<T, B>, ts: Seq<Id<T, B>>, o: Options, i: int)
    requires 0 <= i <= ts.len(), type_names(c, ts.take(i), o) is Err,
    ensures type_names(c, ts, o) is Err,
    decreases ts.len() - i
{
    if i < ts.len() { assert(ts.take(i + 1).drop_last() =~= ts.take(i)); names_err(c, ts, o, i + 1); } else { assert(ts.take(i) =~= ts); }
}
/// the entry for the types: named by the active context, its values by the type-scoped context
pub open spec fn with_types<T, B>(m: Fields, c: Context<T, B>, tc: Context<T, B>, ts: Option<Seq<Id<T, B>>>, o: Options) -> Result<Fields, ()> {
    match ts {
        Some(ts) if ts.len() > 0 => match (types_value(tc, ts, o), name(c, Keyword::Type, o)) {
            (Ok(v), Ok(Some(k))) => Ok(with_value(m, k, v, (o.processing_mode is JsonLd1_1 && holds(c, Some(k), ContainerKind::Set)) || !o.compact_arrays)),
            _ => Err(()),
        },
        _ => Ok(m),
    }
}
pub open spec fn ids<T, B>(s: Option<&[Id<T, B>]>) -> Option<Seq<Id<T, B>>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn outcome(r: Result<(), Error>, o: JsObject) -> Result<Fields, ()> { match r { Ok(_) => Ok(fields(o)), Err(_) => Err(()) } }
#[verifier::loop_isolation(false)]
//@ extract fn compact_types from crates/compaction/src/node.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ subst compacted_value.into_iter().collect() => compacted_value
//@ subst for ty in types.iter() => for ty in types
//@ start
    broadcast use js_str_text, js_key_text, jv_arrays, jvs_push, jvs_empty;
    proof { no_container(ContainerKind::Set); }
    let ghost all = match types { Some(t) => t@, None => Seq::empty() };
//@ before "for ty in types"
    assert(all.take(0) =~= Seq::empty());
//@ loop 0 iter it
//@ loop 0
    invariant it.seq().len() == all.len(), forall|i: int| 0 <= i < all.len() ==> *#[trigger] it.seq()[i] == all[i],
        type_names(*type_scoped_context, all.take(it.index@), options) == Ok::<Seq<JV>, ()>(jvs(compacted_value@)),
//@ loop 0 body-start
    broadcast use js_str_text, jvs_push;
    let ghost i0 = it.index@;
    proof { assert(all.take(i0 + 1).drop_last() =~= all.take(i0)); assert(all.take(i0 + 1).last() == *ty);
        if type_names(*type_scoped_context, all.take(i0 + 1), options) is Err { names_err(*type_scoped_context, all, options, i0 + 1); } }
//@ before "let alias ="
    assert(all.take(all.len() as int) =~= all);
//@ spec
    requires unique(*old(result)),
    ensures outcome(r, *final(result)) == with_types(fields(*old(result)), *active_context, *type_scoped_context, ids(types), options), unique(*final(result)),
//@ end

// ---- lists and graphs under an index ---------------------------------------------------------------------------
pub open spec fn inner(m: Fields, k: Seq<char>) -> Fields { match entry(m, k) { Some(JV::Obj(f, _)) => f, _ => Map::empty() } }
/// the entry is a map, or can become one
pub open spec fn mappable(m: Fields, k: Seq<char>) -> bool { match entry(m, k) { Some(JV::Obj(_, u)) => u, None => true, _ => false } }
pub open spec fn indexed_by_property<T, B>(c: Context<T, B>, prop: Seq<char>) -> bool { match def(c, prop) { Some(d) => d.index, None => false } }
pub open spec fn with_indexed<T, B>(m: Fields, f: Fields, u: bool, index: Option<Seq<char>>, container: Container, as_array: bool, prop: Seq<char>, c: Context<T, B>, o: Options) -> Result<Fields, ()> {
    let map = includes(container, ContainerKind::Index);
    let by_property = indexed_by_property(c, prop);
    // the index is kept where it is not the key of the index map
    let f = if index is Some && (!map || by_property) { put(Ok(f), name(c, Keyword::Index, o), JV::Str(index->0)) } else { Ok(f) };
    match f {
        Err(_) => Err(()),
        Ok(f) => if map {
            match (if index is Some && !by_property { Ok::<Option<Seq<char>>, ()>(index) } else { name(c, Keyword::None, o) }) {
                Ok(Some(k)) => Ok(m.insert(prop, JV::Obj(with_value(inner(m, prop), k, JV::Obj(f, u), as_array), true))),
                _ => Err(()),
            }
        } else { Ok(with_value(m, prop, JV::Obj(f, u), as_array)) },
    }
}
//@ extract fn add_indexed_object from crates/compaction/src/property.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ start
    broadcast use js_str_text, js_key_text;
    let ghost m0 = fields(*nest_result);
//@ spec
    requires unique(*old(nest_result)), includes(container, ContainerKind::Index) ==> mappable(fields(*old(nest_result)), item_active_property@),
    ensures
        r is Err ==> with_indexed(fields(*old(nest_result)), fields(object), unique(object), text(index), container, as_array, item_active_property@, *active_context, options) is Err,
        r is Ok ==> (with_indexed(fields(*old(nest_result)), fields(object), unique(object), text(index), container, as_array, item_active_property@, *active_context, options) matches Ok(f) && f =~= fields(*final(nest_result))),
        unique(*final(nest_result)),
//@ end

// ---- items, lists, graphs ----------------------------------------------------------------------------------------
/// stands for `Box::pin`: awaiting a boxed future is awaiting the future
pub struct Box_;
impl Box_ { fn pin<X>(x: X) -> (r: X) ensures r == x { x } }
//@ extract type CompactFragmentResult from crates/compaction/src/lib.rs
//@ subst json_syntax::Value => JsValue
//@ end
/// anything that compacts: what compacting it gives (the algorithm, called on parts)
pub trait CompactFragment<I, B> { spec fn compacts(&self, c: Context<I, B>, tc: Context<I, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()>; }
#[verifier::external_body]
async fn vx_fragment<'a, N: VocabularyMut, L: Loader, T: CompactFragment<N::Iri, N::BlankId>>(t: &'a T, vocabulary: &mut N, c: &Context<N::Iri, N::BlankId>, tc: &Context<N::Iri, N::BlankId>, prop: Option<&str>, loader: &L, options: Options) -> (r: CompactFragmentResult)
    ensures result(r) == t.compacts(*c, *tc, text(prop), options)
{ unimplemented!() }
/// what the items compact to, in order; nothing for those that compact to null
pub open spec fn in_order<I, B, T: CompactFragment<I, B>>(ts: Seq<&T>, c: Context<I, B>, tc: Context<I, B>, prop: Option<Seq<char>>, o: Options) -> Result<Seq<JV>, ()> decreases ts.len() {
    if ts.len() == 0 { Ok(Seq::empty()) } else {
        match (in_order(ts.drop_last(), c, tc, prop, o), ts.last().compacts(c, tc, prop, o)) { (Ok(s), Ok(v)) => Ok(if v is Null { s } else { s.push(v) }), _ => Err(()) }
    }
}
proof fn items_err<I, B, T: CompactFragment<I, B>>(ts: Seq<&T>, c: Context<I, B>, tc: Context<I, B>, prop: Option<Seq<char>>, o: Options, i: int)
    requires 0 <= i <= ts.len(), in_order(ts.take(i), c, tc, prop, o) is Err,
    ensures in_order(ts, c, tc, prop, o) is Err,
    decreases ts.len() - i
{
    if i < ts.len() { assert(ts.take(i + 1).drop_last() =~= ts.take(i)); items_err(ts, c, tc, prop, o, i + 1); } else { assert(ts.take(i) =~= ts); }
}
pub open spec fn always_array<I, B>(c: Context<I, B>, prop: Option<Seq<char>>, o: Options) -> bool {
    !o.compact_arrays || prop == Some("@graph"@) || prop == Some("@set"@) || holds(c, prop, ContainerKind::List) || holds(c, prop, ContainerKind::Set)
}
/// an array is dropped around a single item, where the property allows it
pub open spec fn collected<I, B, T: CompactFragment<I, B>>(ts: Seq<&T>, c: Context<I, B>, tc: Context<I, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()> {
    match in_order(ts, c, tc, prop, o) { Err(_) => Err(()), Ok(s) => if s.len() == 1 && !always_array(c, prop, o) { Ok(s[0]) } else { Ok(JV::Arr(s)) } }
}
/// stands for `a == Some(b)` (derived)
#[verifier::external_body]
fn vx_is(a: Option<&str>, b: &str) -> (r: bool) ensures r == (text(a) == Some(b@)) { a == Some(b) }
/// stands for `v.into_iter().next().unwrap()`
#[verifier::external_body]
fn vx_first(v: Vec<JsValue>) -> (r: JsValue) requires v@.len() > 0, ensures r == v@[0] { v.into_iter().next().unwrap() }
//@ extract fn compact_collection_with from crates/compaction/src/lib.rs
//@ ret r
//@ subst <'a, N, L, O, T> => <'a, N, L, T>
//@ subst items: O => items: Vec<&'a T>
//@ subst O: 'a + Iterator<Item = &'a T>, => T: 'a,
//@ subst json_syntax::Value => JsValue
//@ subst Box::pin => Box_::pin
//@ subst result.into_iter().collect() => result
//@ subst result.into_iter().next().unwrap() => vx_first(result)
//@ subst active_property == Some("@graph") => vx_is(active_property, "@graph")
//@ subst active_property == Some("@set") => vx_is(active_property, "@set")
//@ call compact_fragment_full => vx_fragment($0, $1, $2, $3, $4, $5, $6)
//@ start
    broadcast use jv_arrays, jvs_push, jvs_empty;
    let ghost all = items@;
    assert(all.take(0) =~= Seq::empty());
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == all, all == items@,
        in_order(all.take(it.index@), *active_context, *type_scoped_context, text(active_property), options) == Ok::<Seq<JV>, ()>(jvs(result@)),
//@ loop 0 body-start
    broadcast use jvs_push;
    let ghost i0 = it.index@;
    proof { assert(all.take(i0 + 1).drop_last() =~= all.take(i0)); assert(all.take(i0 + 1).last() == item);
        if in_order(all.take(i0 + 1), *active_context, *type_scoped_context, text(active_property), options) is Err { items_err(all, *active_context, *type_scoped_context, text(active_property), options, i0 + 1); } }
//@ before "let mut list_or_set"
    assert(all.take(all.len() as int) =~= all);
//@ spec
    ensures result(r) == collected(items@, *active_context, *type_scoped_context, text(active_property), options),
//@ end

#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(B)]
pub struct Object<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(B)]
pub struct Graph<T, B> { x: core::marker::PhantomData<(T, B)> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(B)]
pub struct NodeRest<T, B> { x: core::marker::PhantomData<(T, B)> }
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub struct List<T, B> { pub entry: Vec<Indexed<Object<T, B>>> }
pub struct Node<T, B> { pub id: Option<Id<T, B>>, pub graph: Option<Graph<T, B>>, pub rest: NodeRest<T, B> }
pub uninterp spec fn object_compacts<T, B>(x: Object<T, B>, index: Option<Seq<char>>, c: Context<T, B>, tc: Context<T, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()>;
pub uninterp spec fn graph_compacts<T, B>(x: Graph<T, B>, c: Context<T, B>, tc: Context<T, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()>;
impl<T, B> CompactFragment<T, B> for Indexed<Object<T, B>> { open spec fn compacts(&self, c: Context<T, B>, tc: Context<T, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()> { object_compacts(self.value, match self.index { Some(i) => Some(i@), None => None }, c, tc, prop, o) } }
impl<T, B> CompactFragment<T, B> for Graph<T, B> { open spec fn compacts(&self, c: Context<T, B>, tc: Context<T, B>, prop: Option<Seq<char>>, o: Options) -> Result<JV, ()> { graph_compacts(*self, c, tc, prop, o) } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T, B> List<T, B> {
    /// an iterator is taken for the items it goes through
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<&Indexed<Object<T, B>>>) ensures r@ == refs(self.entry@) { unimplemented!() }
}
/// entries @id, @index and @graph only
pub uninterp spec fn graphy<T, B>(n: Node<T, B>) -> bool;
impl<T, B> Node<T, B> {
    #[verifier::external_body]
    pub fn is_graph(&self) -> (r: bool) ensures r == graphy(*self) { unimplemented!() }
//@ extract fn impl Node > is_simple_graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r == (self.id is None && graphy(*self)),
//@ end
//@ extract fn impl Node > graph from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures r is Some == self.graph is Some, r is Some ==> *r->0 == self.graph->0,
//@ end
}
impl<T, B> vstd::std_specs::convert::FromSpecImpl<Id<T, B>> for Term<T, B> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(i: Id<T, B>) -> Self { Term::Id(i) } }
impl<T, B> From<Id<T, B>> for Term<T, B> {
//@ extract fn impl From<Id<T, B>> for Term > from from crates/core/src/term.rs
//@ ret r
//@ end
}
pub open spec fn as_arr(v: JV) -> JV { if v is Arr { v } else { JV::Arr(seq![v]) } }
pub open spec fn with_list<T, B>(m: Fields, l: List<T, B>, index: Option<Seq<char>>, container: Container, as_array: bool, prop: Seq<char>, c: Context<T, B>, o: Options) -> Result<Fields, ()> {
    match collected(refs(l.entry@), c, c, Some(prop), o) {
        Err(_) => Err(()),
        Ok(v) => if includes(container, ContainerKind::List) { Ok(m.insert(prop, as_arr(v))) } else {
            match put(Ok(Map::empty()), name(c, Keyword::List, o), as_arr(v)) { Ok(f) => with_indexed(m, f, true, index, container, as_array, prop, c, o), Err(_) => Err(()) }
        },
    }
}
pub open spec fn agrees(r: Result<(), Error>, o: JsObject, want: Result<Fields, ()>) -> bool { &&& r is Err ==> want is Err &&& r is Ok ==> (want matches Ok(f) && f =~= fields(o)) }
//@ extract fn compact_property_list from crates/compaction/src/property.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ subst Box::pin => Box_::pin
//@ subst vec![compacted_item] => vx_one(compacted_item)
//@ start
    broadcast use js_key_text, js_str_text;
//@ spec
    requires unique(*old(nest_result)), includes(container, ContainerKind::Index) ==> mappable(fields(*old(nest_result)), item_active_property@),
    ensures agrees(r, *final(nest_result), with_list(fields(*old(nest_result)), *list, text(expanded_index), container, as_array, item_active_property@, *active_context, options)), unique(*final(nest_result)),
//@ end
pub open spec fn with_graph<T, B>(m: Fields, n: Node<T, B>, index: Option<Seq<char>>, container: Container, as_array: bool, prop: Seq<char>, c: Context<T, B>, o: Options) -> Result<Fields, ()> {
    let simple = n.id is None && graphy(n);
    match n.graph->0.compacts(c, c, Some(prop), o) {
        Err(_) => Err(()),
        Ok(v) =>
            if includes(container, ContainerKind::Graph) && includes(container, ContainerKind::Id) {
                match (match n.id { Some(i) => compacted(c, Term::Id(i), false, false, o), None => name(c, Keyword::None, o) }) {
                    Ok(Some(k)) => Ok(m.insert(prop, JV::Obj(with_value(inner(m, prop), k, v, as_array), true))), _ => Err(()),
                }
            } else if includes(container, ContainerKind::Graph) && includes(container, ContainerKind::Index) && simple {
                Ok(m.insert(prop, JV::Obj(with_value(inner(m, prop), match index { Some(i) => i, None => "@none"@ }, v, as_array), true)))
            } else if includes(container, ContainerKind::Graph) && simple {
                // several nodes cannot stand side by side: they would be several graphs
                match v {
                    JV::Arr(s) if s.len() > 1 => match put(Ok(Map::empty()), name(c, Keyword::Included, o), v) { Ok(f) => Ok(with_value(m, prop, JV::Obj(f, true), as_array)), Err(_) => Err(()) },
                    _ => Ok(with_value(m, prop, v, as_array)),
                }
            } else {
                let f = put(Ok(Map::empty()), name(c, Keyword::Graph, o), v);
                match (match n.id { Some(i) => put_name(f, name(c, Keyword::Id, o), compacted(c, Term::Id(i), false, false, o)), None => f }) {
                    Ok(f) => with_indexed(m, f, true, index, container, as_array, prop, c, o), Err(_) => Err(()),
                }
            },
    }
}
//@ extract fn compact_property_graph from crates/compaction/src/property.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ subst json_ld_syntax::Object => JsObject
//@ subst Box::pin => Box_::pin
//@ call compact_fragment_full => vx_fragment($0, $1, $2, $3, $4, $5, $6)
//@ start
    broadcast use js_key_text, js_str_text, jv_arrays;
//@ spec
    requires node.graph is Some, unique(*old(nest_result)),
        includes(container, ContainerKind::Index) || (includes(container, ContainerKind::Graph) && includes(container, ContainerKind::Id)) ==> mappable(fields(*old(nest_result)), item_active_property@),
    ensures agrees(r, *final(nest_result), with_graph(fields(*old(nest_result)), *node, text(expanded_index), container, as_array, item_active_property@, *active_context, options)), unique(*final(nest_result)),
//@ end
/// the name of the nest a property goes into
pub open spec fn nest_name<T, B>(c: Context<T, B>, prop: Seq<char>) -> Result<Option<Seq<char>>, ()> {
    match def(c, prop) {
        Some(D { nest: Some(n), .. }) => if n is Nest || (def(c, n->Term_0) matches Some(d) && d.value == Some(Term::<T, B>::Keyword(Keyword::Nest))) { Ok(Some(nest_text(n))) } else { Err(()) },
        _ => Ok(None),
    }
}
pub open spec fn container_of<T, B>(c: Context<T, B>, prop: Seq<char>) -> Container { match def(c, prop) { Some(d) => d.container, None => Container::None } }
//@ extract fn select_nest_result from crates/compaction/src/property.rs
//@ ret r
//@ subst json_syntax::Object => JsObject
//@ subst *nest_term != Nest::Nest => !matches!(*nest_term, Nest::Nest)
//@ before "match active_context.get(nest_term.as_str())"
    assert(!(nesting(*nest_term) is Nest));
    assert(def(*active_context, item_active_property@)->0.nest == Some(nesting(*nest_term)));
    let ghost nm = nesting(*nest_term)->Term_0;
    assert(nesting(*nest_term) == Nesting::Term(nm));
    assert(def(*active_context, nm) is None || def(*active_context, nm)->0.value != Some(Term::<I, B>::Keyword(Keyword::Nest)) ==> nest_name(*active_context, item_active_property@) is Err);
//@ start
    broadcast use js_key_text, js_str_text;
//@ spec
    requires unique(*old(result)), nest_name(*active_context, item_active_property@) matches Ok(Some(k)) ==> mappable(fields(*old(result)), k),
    ensures match r {
        Err(_) => nest_name(*active_context, item_active_property@) is Err,
        Ok((n, container, as_array)) => {
            &&& container == container_of(*active_context, item_active_property@)
            &&& as_array == (includes(container, ContainerKind::Set) || item_active_property@ == "@graph"@ || item_active_property@ == "@list"@ || !compact_arrays)
            &&& unique(*n)
            &&& match nest_name(*active_context, item_active_property@) {
                Ok(None) => *n == *old(result) && *final(result) == *final(n),
                Ok(Some(k)) => fields(*n) == inner(fields(*old(result)), k) && fields(*final(result)) == fields(*old(result)).insert(k, JV::Obj(fields(*final(n)), unique(*final(n)))) && unique(*final(result)),
                Err(_) => false,
            }
        },
    },
//@ end
}
fn main() {}
