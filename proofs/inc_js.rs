// ---- dependencies (assumed) -----------------------------------------------------------------
/// json_syntax::String
#[verifier::external_body]
pub struct JsString { x: String }
pub uninterp spec fn js(s: JsString) -> Seq<char>;
impl AsRef<str> for JsString {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) ensures r@ == js(*self) { unimplemented!() }
}
impl Deref for JsString {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == js(*self) { unimplemented!() }
}
impl JsString {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == js(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == js(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct JsNumber { x: u8 }
#[verifier::external_body] pub struct JsArray { x: u8 }
/// json_syntax::Object, seen as the sequence of its entries
#[verifier::external_body] pub struct JsObject { x: u8 }
pub struct JsEntry { pub key: JsKey, pub value: JsValue }
#[verifier::external_body] pub struct JsKey { x: String }
#[verifier::external_body] pub struct Duplicate { x: u8 }
#[verifier::external_body] pub struct Replaced { x: u8 }
pub uninterp spec fn key_text(k: JsKey) -> Seq<char>;
pub uninterp spec fn js_key(s: Seq<char>) -> JsKey;
pub uninterp spec fn js_str(s: Seq<char>) -> JsString;
    pub broadcast axiom fn js_key_text(s: Seq<char>) ensures key_text(#[trigger] js_key(s)) == s;
    pub broadcast axiom fn js_str_text(s: Seq<char>) ensures js(#[trigger] js_str(s)) == s;
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsKey {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { js_key(s@) }
}
impl<'a> From<&'a str> for JsKey {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: Self) { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for JsValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { JsValue::String(js_str(s@)) }
}
impl<'a> From<&'a str> for JsValue {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<JsObject> for JsValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: JsObject) -> Self { JsValue::Object(o) }
}
impl From<JsObject> for JsValue {
    fn from(o: JsObject) -> (r: Self) { JsValue::Object(o) }
}
#[verifier::external_body] pub struct JsIntoIter { x: u8 }
pub uninterp spec fn objs(o: JsObject) -> Seq<(Seq<char>, JsValue)>;
pub uninterp spec fn iter(o: JsIntoIter) -> Seq<(Seq<char>, JsValue)>;
impl JsObject {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: JsIntoIter) ensures iter(r) == objs(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures objs(r) == Seq::<(Seq<char>, JsValue)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (objs(*self).len() == 0) { unimplemented!() }
    /// replaces the first entry with that key, or appends one
    #[verifier::external_body]
    pub fn insert(&mut self, key: JsKey, value: JsValue) -> (r: Option<Replaced>)
        ensures !has_key(objs(*old(self)), key_text(key)) ==> objs(*final(self)) == objs(*old(self)).push((key_text(key), value)) && r is None,
    { unimplemented!() }
    /// removes the only entry with that key
    #[verifier::external_body]
    pub fn remove_unique(&mut self, key: &str) -> (r: Result<Option<JsEntry>, Duplicate>)
        ensures
            match r {
                Ok(None) => !has_key(objs(*old(self)), key@) && objs(*final(self)) == objs(*old(self)),
                Ok(Some(e)) => exists|i: int| #[trigger] only(objs(*old(self)), key@, i) && objs(*old(self))[i].1 == e.value && objs(*final(self)) == objs(*old(self)).remove(i),
                Err(_) => dup(objs(*old(self)), key@),
            },
    { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == (*self is Object) { unimplemented!() }
}
impl JsIntoIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<JsEntry>)
        ensures r is Some == (iter(*old(self)).len() > 0)
    { unimplemented!() }
}
pub type JObj = Seq<(Seq<char>, JsValue)>;
pub open spec fn has_key(o: JObj, k: Seq<char>) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i].0 == k }
pub open spec fn only(o: JObj, k: Seq<char>, i: int) -> bool { 0 <= i < o.len() && o[i].0 == k && forall|j: int| 0 <= j < o.len() && j != i ==> #[trigger] o[j].0 != k }
pub open spec fn dup(o: JObj, k: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i < j < o.len() && #[trigger] o[i].0 == k && #[trigger] o[j].0 == k }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Kind { Null, Boolean, Number, String, Array, Object }
/// json_syntax::Value
pub enum JsValue { Null, Boolean(bool), Number(JsNumber), String(JsString), Array(JsArray), Object(JsObject) }
impl JsValue {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: Kind)
        ensures r == kind(*self)
    { unimplemented!() }
}
pub open spec fn kind(v: JsValue) -> Kind {
    match v { JsValue::Null => Kind::Null, JsValue::Boolean(_) => Kind::Boolean, JsValue::Number(_) => Kind::Number, JsValue::String(_) => Kind::String, JsValue::Array(_) => Kind::Array, JsValue::Object(_) => Kind::Object }
}
