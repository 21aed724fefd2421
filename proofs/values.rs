#![allow(warnings)]
#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use std::ops::Deref;
verus! {
//@ vacuity-decls
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
//@ extract struct InvalidDirection from crates/syntax/src/direction.rs
//@ end
#[verifier::external_body]
//@ extract struct LenientLangTagBuf from crates/syntax/src/lang.rs
//@ end
#[verifier::external_body]
//@ extract struct LenientLangTag from crates/syntax/src/lang.rs
//@ end
//@ extract struct LangString from crates/core/src/lang_string.rs
//@ subst json_ld_syntax::String => JsString
//@ end
//@ extract struct InvalidLangString from crates/core/src/lang_string.rs
//@ end
#[derive(Clone, Copy)]
//@ extract struct LangStr from crates/core/src/lang_string.rs
//@ end

//@ include inc_js.rs
//@ extract enum InvalidExpandedJson from crates/core/src/object/mod.rs
//@ subst json_syntax::Kind => Kind
//@ subst json_syntax::object::Key => JsKey
//@ end
impl InvalidExpandedJson {
    #[verifier::external_body]
    pub fn duplicate_key(d: Duplicate) -> (r: Self) ensures r is DuplicateKey { unimplemented!() }
}
pub struct InvalidLangTag<T>(pub T);
pub uninterp spec fn buf_text(t: LenientLangTagBuf) -> Seq<char>;
pub uninterp spec fn tag_text(t: &LenientLangTag) -> Seq<char>;
impl LenientLangTag {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == tag_text(self) { unimplemented!() }
}
impl LenientLangTagBuf {
    #[verifier::external_body]
    pub fn new(s: String) -> (r: (Self, Option<InvalidLangTag<String>>)) ensures buf_text(r.0) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_lenient_lang_tag_ref(&self) -> (r: &LenientLangTag) ensures tag_text(r) == buf_text(*self) { unimplemented!() }
}
impl Deref for LenientLangTagBuf {
    type Target = LenientLangTag;
    #[verifier::external_body]
    fn deref(&self) -> (r: &LenientLangTag) ensures tag_text(r) == buf_text(*self) { unimplemented!() }
}
pub assume_specification<T: Deref> [Option::<T>::as_deref] (o: &Option<T>) -> (r: Option<&T::Target>)
    ensures r is Some == o is Some, o is Some ==> call_ensures(T::deref, (&o->0,), r->0);

pub open spec fn dir(d: Direction) -> Seq<char> { match d { Direction::Ltr => "ltr"@, Direction::Rtl => "rtl"@ } }
/// proved in keyword.rs for the same function; here its contract is used
impl Direction {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'static str) ensures r@ == dir(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from<'a>(s: &'a str) -> (r: Result<Direction, InvalidDirection<&'a str>>)
        ensures match r { Ok(d) => s@ == dir(d), Err(_) => forall|d: Direction| #[trigger] dir(d) != s@ }
    { unimplemented!() }
}

// ---- the invariant: a language, a direction, or both ------------------------------------------
pub open spec fn ok(s: LangString) -> bool { s.language is Some || s.direction is Some }
pub open spec fn ok_ref(s: LangStr) -> bool { s.language is Some || s.direction is Some }

impl LangString {
//@ extract fn impl LangString > new from crates/core/src/lang_string.rs
//@ ret r
//@ subst json_ld_syntax::String => JsString
//@ subst json_ld_syntax::String => JsString
//@ spec
    ensures
        r is Ok == (language is Some || direction is Some),
        r matches Ok(s) ==> ok(s) && s.data == data && s.language == language && s.direction == direction,
        r matches Err(d) ==> d == data,
//@ end
//@ extract fn impl LangString > into_parts from crates/core/src/lang_string.rs
//@ ret r
//@ subst json_ld_syntax::String => JsString
//@ spec
    requires ok(self),
    ensures r.0 == self.data, r.1 == self.language, r.2 == self.direction, r.1 is Some || r.2 is Some,
//@ end
//@ extract fn impl LangString > parts from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok(*self),
    ensures
        r.0@ == js(self.data), r.1 is Some == self.language is Some, r.1 is Some ==> *r.1->0 == self.language->0,
        r.2 is Some == self.direction is Some, r.2 is Some ==> *r.2->0 == self.direction->0, r.1 is Some || r.2 is Some,
//@ end
//@ extract fn impl LangString > as_str from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures r@ == js(self.data),
//@ end
//@ extract fn impl LangString > language from crates/core/src/lang_string.rs
//@ ret r
//@ closure 0 (t: &LenientLangTag)
    ensures tag_text(t) == buf_text(*tag)
//@ spec
    ensures r is Some == self.language is Some, r is Some ==> tag_text(r->0) == buf_text(self.language->0),
//@ end
//@ extract fn impl LangString > set_language from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok(*old(self)),
    ensures
        ok(*final(self)),
        r is Ok == (old(self).direction is Some || language is Some),
        r is Ok ==> final(self).language == language && final(self).data == old(self).data && final(self).direction == old(self).direction,
        r is Err ==> *final(self) == *old(self),
//@ end
//@ extract fn impl LangString > direction from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures r == self.direction,
//@ end
//@ extract fn impl LangString > set_direction from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok(*old(self)),
    ensures
        ok(*final(self)),
        r is Ok == (old(self).language is Some || direction is Some),
        r is Ok ==> final(self).direction == direction && final(self).data == old(self).data && final(self).language == old(self).language,
        r is Err ==> *final(self) == *old(self),
//@ end
//@ extract fn impl LangString > set from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok(*old(self)),
    ensures
        ok(*final(self)),
        r is Ok == (language is Some || direction is Some),
        r is Ok ==> final(self).direction == direction && final(self).language == language && final(self).data == old(self).data,
        r is Err ==> *final(self) == *old(self),
//@ end
//@ extract fn impl LangString > as_lang_str from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok(*self),
    ensures
        ok_ref(r), r.data@ == js(self.data), r.direction == self.direction, r.language is Some == self.language is Some,
        r.language is Some ==> tag_text(r.language->0) == buf_text(self.language->0),
//@ end
//@ extract fn impl LangString > try_from_json from crates/core/src/lang_string.rs
//@ ret r
//@ subst json_syntax::Object => JsObject
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Kind => Kind
//@ subst Direction::try_from => Direction::try_from
//@ spec
    requires language is Some || direction is Some,
    ensures
        r matches Ok(s) ==> ok(s) && value == JsValue::String(s.data) && objs(object).len() == 0
            && (language is Some == s.language is Some) && (direction is Some == s.direction is Some)
            && (s.language matches Some(t) ==> language->0 is String && js(language->0->String_0) == buf_text(t))
            && (s.direction matches Some(d) ==> direction->0 is String && js(direction->0->String_0) == dir(d)),
        r is Ok == (value is String && (language is Some ==> language->0 is String)
            && (direction is Some ==> direction->0 is String && exists|d: Direction| #[trigger] dir(d) == js(direction->0->String_0)) && objs(object).len() == 0),
//@ end
}
impl<'a> LangStr<'a> {
//@ extract fn impl LangStr > new from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures
        r is Ok == (language is Some || direction is Some),
        r matches Ok(s) ==> ok_ref(s) && s.data == data && s.language == language && s.direction == direction,
//@ end
//@ extract fn impl LangStr > into_parts from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    requires ok_ref(self),
    ensures r.0 == self.data, r.1 == self.language, r.2 == self.direction, r.1 is Some || r.2 is Some,
//@ end
//@ extract fn impl LangStr > as_str from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures r == self.data,
//@ end
//@ extract fn impl LangStr > language from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures r == self.language,
//@ end
//@ extract fn impl LangStr > direction from crates/core/src/lang_string.rs
//@ ret r
//@ spec
    ensures r == self.direction,
//@ end
}

// ---- value objects ---------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Iri { x: str }
pub struct InvalidIri<T>(pub T);
pub uninterp spec fn iri_text(i: &Iri) -> Seq<char>;
pub uninterp spec fn is_iri(s: Seq<char>) -> bool;
impl Iri {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<&Iri, InvalidIri<&str>>) ensures r is Ok == is_iri(s@), r matches Ok(i) ==> iri_text(i) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == iri_text(self) { unimplemented!() }
}
/// rdf_types vocabularies: an index denotes the IRI it was inserted with
pub trait IriVocabulary {
    type Iri;
    spec fn text(&self, i: Self::Iri) -> Seq<char>;
    fn iri(&self, id: &Self::Iri) -> (r: Option<&Iri>)
        ensures r is Some, iri_text(r->0) == self.text(*id);
}
pub trait IriVocabularyMut: IriVocabulary {
    fn insert(&mut self, iri: &Iri) -> (r: Self::Iri)
        ensures final(self).text(r) == iri_text(iri);
}
//@ extract enum Literal from crates/core/src/object/value.rs
//@ subst NumberBuf => JsNumber
//@ subst json_syntax::String => JsString
//@ end
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst json_syntax::Value => JsValue
//@ subst <T = IriBuf> => <T>
//@ end
#[verifier::external_body]
pub struct Number { x: u8 }
pub uninterp spec fn num(n: JsNumber) -> &'static Number;
impl Deref for JsNumber {
    type Target = Number;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Number) ensures r == num(*self) { unimplemented!() }
}
impl<'a, T> Clone for TypeRef<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T> Copy for TypeRef<'a, T> {}
//@ extract enum TypeRef from crates/core/src/object/value.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum ValueEntryRef from crates/core/src/object/value.rs
//@ subst json_syntax::Value => JsValue
//@ end
impl<'a, T> Clone for EntryRef<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T> Copy for EntryRef<'a, T> {}
//@ extract enum EntryRef from crates/core/src/object/value.rs
//@ end
impl<'a, T> Clone for EntryValueRef<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T> Copy for EntryValueRef<'a, T> {}
//@ extract enum EntryValueRef from crates/core/src/object/value.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum EntryKey from crates/core/src/object/value.rs
//@ end
//@ extract struct Entries from crates/core/src/object/value.rs
//@ end

/// the JSON value of a literal
pub open spec fn lit(l: Literal) -> JsValue {
    match l { Literal::Null => JsValue::Null, Literal::Boolean(b) => JsValue::Boolean(b), Literal::Number(n) => JsValue::Number(n), Literal::String(s) => JsValue::String(s) }
}
pub open spec fn okv<T>(v: Value<T>) -> bool { v matches Value::LangString(s) ==> ok(s) }
pub open spec fn str_entry(e: (Seq<char>, JsValue), k: Seq<char>, t: Seq<char>) -> bool { e.0 == k && e.1 is String && js(e.1->String_0) == t }
/// `o` holds exactly the entries, other than @value, that value object `v` is written with
pub open spec fn written<V: IriVocabulary<Iri = T>, T>(voc: V, v: Value<T>, o: JObj) -> bool {
    match v {
        Value::Json(_) => o.len() == 1 && str_entry(o[0], "@type"@, "@json"@),
        Value::Literal(_, Some(t)) => o.len() == 1 && str_entry(o[0], "@type"@, voc.text(t)),
        Value::Literal(_, None) => o.len() == 0,
        Value::LangString(s) =>
            o.len() == (if s.language is Some { 1int } else { 0 }) + (if s.direction is Some { 1int } else { 0 })
            && (s.language matches Some(t) ==> exists|i: int| 0 <= i < o.len() && str_entry(#[trigger] o[i], "@language"@, buf_text(t)))
            && (s.direction matches Some(d) ==> exists|i: int| 0 <= i < o.len() && str_entry(#[trigger] o[i], "@direction"@, dir(d))),
    }
}
pub open spec fn val<T>(v: Value<T>) -> JsValue {
    match v { Value::Json(j) => j, Value::Literal(l, _) => lit(l), Value::LangString(s) => JsValue::String(s.data) }
}
/// what `remove_unique` leaves
pub open spec fn is_removed(o: JObj, p: JObj, k: Seq<char>, v: Option<JsValue>) -> bool {
    match v {
        None => !has_key(o, k) && p == o,
        Some(x) => exists|i: int| #[trigger] only(o, k, i) && o[i].1 == x && p == o.remove(i),
    }
}
proof fn removed(o: JObj, p: JObj, k: Seq<char>, v: Option<JsValue>)
    requires is_removed(o, p, k, v),
    ensures
        p.len() == o.len() - (if v is Some { 1int } else { 0 }),
        v is Some ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == (k, v->0),
        v is Some && o.len() == 1 ==> o[0] == (k, v->0),
        forall|i: int| 0 <= i < p.len() ==> o.contains(#[trigger] p[i]),
{
    if v is Some {
        let i = choose|i: int| #[trigger] only(o, k, i) && o[i].1 == v->0 && p == o.remove(i);
        assert(o[i] == (k, v->0));
        assert forall|a: int| 0 <= a < p.len() implies o.contains(#[trigger] p[a]) by { assert(p[a] == o[if a < i { a } else { a + 1 }]); }
    } else {
        assert forall|a: int| 0 <= a < p.len() implies o.contains(#[trigger] p[a]) by { assert(o[a] == p[a]); }
    }
}
impl Literal {
//@ extract fn impl Literal > as_str from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == *self is String, r is Some ==> r->0@ == js(self->String_0),
//@ end
//@ extract fn impl Literal > as_bool from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == *self is Boolean, r is Some ==> r->0 == self->Boolean_0,
//@ end
//@ extract fn impl Literal > as_number from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == *self is Number, r is Some ==> r->0 == num(self->Number_0),
//@ end
//@ extract fn impl Literal > into_json from crates/core/src/object/value.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ spec
    ensures r == lit(self),
//@ end
}
impl vstd::std_specs::convert::TryFromSpecImpl<JsValue> for Literal {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: JsValue) -> Result<Self, InvalidExpandedJson> { arbitrary() }
}
impl TryFrom<JsValue> for Literal {
    type Error = InvalidExpandedJson;
//@ extract fn impl TryFrom<json_syntax::Value> for Literal > try_from from crates/core/src/object/value.rs
//@ ret r
//@ subst json_syntax::Value => JsValue
//@ spec
    ensures r matches Ok(l) ==> lit(l) == value, r is Ok == !(value is Array || value is Object),
//@ end
}
impl<T> Value<T> {
//@ extract fn impl Value > null from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == Value::<T>::Literal(Literal::Null, None),
//@ end
//@ extract fn impl Value > as_str from crates/core/src/object/value.rs
//@ ret r
//@ spec
    requires okv(*self),
    ensures r is Some == (val(*self) is String && !(*self is Json)), r is Some ==> r->0@ == js(val(*self)->String_0),
//@ end
//@ extract fn impl Value > as_literal from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == *self is Literal, r is Some ==> *(r->0).0 == self->Literal_0 && (r->0).1 is Some == self->Literal_1 is Some && ((r->0).1 is Some ==> *(r->0).1->0 == self->Literal_1->0),
//@ end
//@ extract fn impl Value > literal_type from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == (*self is Literal && self->Literal_1 is Some), r is Some ==> *r->0 == self->Literal_1->0,
//@ end
//@ extract fn impl Value > set_literal_type from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures
        *old(self) is Literal ==> r == old(self)->Literal_1 && *final(self) == Value::Literal(old(self)->Literal_0, ty),
        !(*old(self) is Literal) ==> r is None && *final(self) == *old(self),
//@ end
//@ extract fn impl Value > as_bool from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == (*self is Literal && self->Literal_0 is Boolean), r is Some ==> r->0 == self->Literal_0->Boolean_0,
//@ end
//@ extract fn impl Value > as_number from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == (*self is Literal && self->Literal_0 is Number), r is Some ==> r->0 == num(self->Literal_0->Number_0),
//@ end
//@ extract fn impl Value > typ from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures match r { None => *self is LangString || (*self is Literal && self->Literal_1 is None), Some(TypeRef::Json) => *self is Json, Some(TypeRef::Id(t)) => *self is Literal && self->Literal_1 == Some(*t) },
//@ end
//@ extract fn impl Value > language from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r is Some == (*self is LangString && self->LangString_0.language is Some), r is Some ==> tag_text(r->0) == buf_text(self->LangString_0.language->0),
//@ end
//@ extract fn impl Value > direction from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == (if *self is LangString { self->LangString_0.direction } else { None }),
//@ end
//@ extract fn impl Value > entries from crates/core/src/object/value.rs
//@ ret r
//@ desugar option.map
//@ spec
    requires okv(*self),
    ensures
        r.value is Some,
        match r.value->0 { ValueEntryRef::Literal(l) => *self is Literal && *l == self->Literal_0, ValueEntryRef::LangString(s) => *self is LangString && s@ == js(self->LangString_0.data), ValueEntryRef::Json(j) => *self is Json && *j == self->Json_0 },
        match r.type_ { None => *self is LangString || (*self is Literal && self->Literal_1 is None), Some(TypeRef::Json) => *self is Json, Some(TypeRef::Id(t)) => *self is Literal && self->Literal_1 == Some(*t) },
        r.language is Some == (*self is LangString && self->LangString_0.language is Some), r.language is Some ==> tag_text(r.language->0) == buf_text(self->LangString_0.language->0),
        r.direction == (if *self is LangString { self->LangString_0.direction } else { None }),
//@ end
//@ extract fn impl Value > try_from_json_object_in from crates/core/src/object/value.rs
//@ ret r
//@ desugar option.map result.map_err
//@ subst json_syntax::object::Entry::into_value(vx_v) => vx_v.value
//@ subst json_syntax::object::Entry => JsEntry
//@ subst json_syntax::Object => JsObject
//@ subst json_syntax::Value => JsValue
//@ subst value_entry.value.try_into()? => Literal::try_from(value_entry.value)?
//@ start
    let ghost o0 = objs(object);
//@ before "let direction ="
    let ghost o2 = objs(object);
//@ before "if language.is_some()"
    proof { removed(o0, o2, "@language"@, language); removed(o2, objs(object), "@direction"@, direction); }
//@ spec
    ensures
        r matches Ok(v) ==> okv(v) && val(v) == value_entry.value && written(*final(vocabulary), v, objs(object)),
//@ end
}
impl<T> Value<T> {
//@ extract fn impl IntoJsonWithContext for Value > into_json_with from crates/core/src/object/value.rs
//@ ret r
//@ rename into_json_with<N: IriVocabulary<Iri = T>>
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ start
    broadcast use {js_key_text, js_str_text};
    let ghost v0 = self;
    proof { reveal_strlit("@type"); reveal_strlit("@language"); reveal_strlit("@direction"); reveal_strlit("@value"); reveal_strlit("@json"); }
//@ before "if let Some(direction)"
    proof { assert(forall|i: int| 0 <= i < objs(obj).len() ==> (#[trigger] objs(obj)[i]).0 == "@language"@); assert("@language"@.len() == 9 && "@direction"@.len() == 10); assert("@language"@ != "@direction"@); }
    let ghost ol = objs(obj);
//@ after "if let Some(direction)"
    proof {
        let o = objs(obj);
        if v0->LangString_0.direction is Some { assert(o == ol.push(o.last())); assert(str_entry(o.last(), "@direction"@, dir(v0->LangString_0.direction->0))); assert(str_entry(o[o.len() - 1], "@direction"@, dir(v0->LangString_0.direction->0))); }
        if v0->LangString_0.language is Some { assert(str_entry(o[0], "@language"@, buf_text(v0->LangString_0.language->0))); }
    }
//@ before "obj.into()"
    proof { assert(objs(obj).drop_last() =~= o0); }
//@ after "let value ="
    let ghost o0 = objs(obj);
    proof {
        if v0 is LangString { assert(o0.len() > 0); }
        assert(written(*vocabulary, v0, o0));
        assert(!has_key(o0, "@value"@)) by { assert forall|i: int| 0 <= i < o0.len() implies o0[i].0 != "@value"@ by { assert(o0[i].0.len() == 5 || o0[i].0.len() == 9 || o0[i].0.len() == 10); if o0[i].0.len() == 5 { assert(o0[i].0[1] == 't'); } } }
    }
//@ spec
    requires okv(self),
    ensures
        r matches JsValue::Object(o) && objs(o).len() > 0 && objs(o).last().0 == "@value"@ && objs(o).last().1 == val_text(self, objs(o).last().1) && written(*vocabulary, self, objs(o).drop_last()),
//@ end
}
/// the written form of the value (a language string is written by copying its text)
pub open spec fn val_text<T>(v: Value<T>, w: JsValue) -> JsValue {
    match v { Value::LangString(s) => if w is String && js(w->String_0) == js(s.data) { w } else { JsValue::Null }, _ => val(v) }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
pub open spec fn key_keyword(k: EntryKey) -> Keyword { match k { EntryKey::Value => Keyword::Value, EntryKey::Type => Keyword::Type, EntryKey::Language => Keyword::Language, EntryKey::Direction => Keyword::Direction } }
pub open spec fn key_str(k: EntryKey) -> Seq<char> { match k { EntryKey::Value => "@value"@, EntryKey::Type => "@type"@, EntryKey::Language => "@language"@, EntryKey::Direction => "@direction"@ } }
pub open spec fn ref_key<'a, T>(e: EntryRef<'a, T>) -> EntryKey { match e { EntryRef::Value(_) => EntryKey::Value, EntryRef::Type(_) => EntryKey::Type, EntryRef::Language(_) => EntryKey::Language, EntryRef::Direction(_) => EntryKey::Direction } }
pub open spec fn ref_val<'a, T>(e: EntryRef<'a, T>) -> EntryValueRef<'a, T> { match e { EntryRef::Value(v) => EntryValueRef::Value(v), EntryRef::Type(v) => EntryValueRef::Type(v), EntryRef::Language(v) => EntryValueRef::Language(v), EntryRef::Direction(v) => EntryValueRef::Direction(v) } }
/// the entries an iterator still has to give, first to last
pub open spec fn rest<'a, T>(e: Entries<'a, T>) -> Seq<EntryRef<'a, T>> {
    (match e.value { Some(v) => seq![EntryRef::Value(v)], None => seq![] })
    + (match e.type_ { Some(v) => seq![EntryRef::Type(v)], None => seq![] })
    + (match e.language { Some(v) => seq![EntryRef::Language(v)], None => seq![] })
    + (match e.direction { Some(v) => seq![EntryRef::Direction(v)], None => seq![] })
}
impl EntryKey {
//@ extract fn impl EntryKey > into_keyword from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == key_keyword(self),
//@ end
//@ extract fn impl EntryKey > as_keyword from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == key_keyword(*self),
//@ end
//@ extract fn impl EntryKey > into_str from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r@ == key_str(*self),
//@ end
//@ extract fn impl EntryKey > as_str from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r@ == key_str(*self),
//@ end
}
impl<'a, T> EntryRef<'a, T> {
//@ extract fn impl EntryRef > into_key from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == ref_key(self),
//@ end
//@ extract fn impl EntryRef > key from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == ref_key(*self),
//@ end
//@ extract fn impl EntryRef > into_value from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == ref_val(self),
//@ end
//@ extract fn impl EntryRef > value from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r == ref_val(*self),
//@ end
}
impl<'a, T> Entries<'a, T> {
//@ extract fn impl Iterator for Entries > size_hint from crates/core/src/object/value.rs
//@ ret r
//@ spec
    ensures r.0 == rest(*self).len(), r.1 == Some(r.0),
//@ end
//@ extract fn impl Iterator for Entries > next from crates/core/src/object/value.rs
//@ ret r
//@ desugar option.map option.or_else
//@ subst Option<Self::Item> => Option<EntryRef<'a, T>>
//@ tail Option<EntryRef<'a, T>>
    proof { if rest(*old(self)).len() > 0 { assert(rest(*self) =~= rest(*old(self)).drop_first()); } }
//@ spec
    ensures rest(*old(self)).len() == 0 ==> r is None && rest(*final(self)).len() == 0,
        rest(*old(self)).len() > 0 ==> r == Some(rest(*old(self))[0]) && rest(*final(self)) == rest(*old(self)).drop_first(),
//@ end
//@ extract fn impl DoubleEndedIterator for Entries > next_back from crates/core/src/object/value.rs
//@ ret r
//@ desugar option.map option.or_else
//@ subst Option<Self::Item> => Option<EntryRef<'a, T>>
//@ tail Option<EntryRef<'a, T>>
    proof { if rest(*old(self)).len() > 0 { assert(rest(*self) =~= rest(*old(self)).drop_last()); } }
//@ spec
    ensures rest(*old(self)).len() == 0 ==> r is None && rest(*final(self)).len() == 0,
        rest(*old(self)).len() > 0 ==> r == Some(rest(*old(self)).last()) && rest(*final(self)) == rest(*old(self)).drop_last(),
//@ end
}
}
impl std::fmt::Debug for JsString { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
fn main() {}
