#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::ops::Deref;
verus! {
//@ vacuity-decls
//@ include inc_js.rs
//@ extract enum InvalidExpandedJson from crates/core/src/object/mod.rs
//@ subst json_syntax::Kind => Kind
//@ subst json_syntax::object::Key => JsKey
//@ end
impl InvalidExpandedJson {
    #[verifier::external_body]
    pub fn duplicate_key(d: Duplicate) -> (r: Self) ensures r is DuplicateKey { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for JsKey {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Self { js_key(s@) }
}
impl From<String> for JsKey {
    #[verifier::external_body]
    fn from(s: String) -> (r: Self) { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut JsObject>)
        ensures r is Some == (*old(self) is Object), r is None ==> *final(self) == *old(self),
            r is Some ==> *r->0 == old(self)->Object_0 && *final(self) == JsValue::Object(*final(r->0)),
    { unimplemented!() }
}
/// iterating a JSON array yields its items in order
pub uninterp spec fn arr(a: JsArray) -> Seq<JsValue>;
pub struct JsArrayIter { pub rest: Ghost<Seq<JsValue>> }
impl JsArray {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: JsArrayIter) ensures r.rest@ == arr(self) { unimplemented!() }
}
impl JsArrayIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<JsValue>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}

// ---- specification --------------------------------------------------------------------------------
/// An expanded form has a JSON text, `jv`, up to the vocabulary; reading accepts what `reads` says
pub trait Form: Sized {
    /// what writing gives
    spec fn jv(self) -> JsValue;
    fn into_with<N>(self, v: &N) -> (r: With<Self>) ensures r.0 == self;
    fn with<N>(&self, v: &N) -> (r: With<&Self>) ensures *r.0 == *self;
    fn into_json_with<N>(self, v: &N) -> (r: JsValue) ensures r == self.jv();
}
pub struct With<X>(pub X);
impl<X: Form> With<X> {
    #[verifier::external_body]
    pub fn into_json(self) -> (r: JsValue) ensures r == self.0.jv() { unimplemented!() }
}
pub trait VocabularyMut: Sized {}
pub trait TryFromJson: Sized {
    spec fn reads(self, v: JsValue) -> bool;
    fn try_from_json_in<V: VocabularyMut>(vocabulary: &mut V, value: JsValue) -> (r: Result<Self, InvalidExpandedJson>)
        ensures r matches Ok(x) ==> x.reads(value);
}
pub trait TryFromJsonObject: Sized {
    spec fn reads_object(self, o: JObj) -> bool;
    fn try_from_json_object_in<V: VocabularyMut>(vocabulary: &mut V, object: JsObject) -> (r: Result<Self, InvalidExpandedJson>)
        ensures r matches Ok(x) ==> x.reads_object(objs(object));
}
/// the entries with another key
pub open spec fn but(o: JObj, k: Seq<char>) -> JObj { o.filter(|e: (Seq<char>, JsValue)| e.0 != k) }
/// the entry `k` of `o`, at most one, was read as `x`
pub open spec fn entry_reads<X: TryFromJson>(o: JObj, k: Seq<char>, x: Option<X>) -> bool {
    match x { None => !has_key(o, k), Some(x) => exists|i: int| #[trigger] only(o, k, i) && x.reads(o[i].1) }
}
proof fn filter_none(o: JObj, k: Seq<char>)
    requires !has_key(o, k),
    ensures but(o, k) == o,
    decreases o.len(),
{
    reveal(Seq::filter);
    if o.len() > 0 {
        assert forall|i: int| 0 <= i < o.len() - 1 implies #[trigger] o.drop_last()[i].0 != k by { assert(o[i].0 != k); }
        filter_none(o.drop_last(), k);
        assert(o.last().0 != k) by { assert(o[o.len() - 1].0 != k); }
        assert(but(o, k) =~= o);
    }
}
proof fn filter_one(o: JObj, k: Seq<char>, i: int)
    requires only(o, k, i),
    ensures but(o, k) == o.remove(i),
    decreases o.len(),
{
    reveal(Seq::filter);
    let d = o.drop_last();
    if i == o.len() - 1 {
        assert forall|j: int| 0 <= j < d.len() implies #[trigger] d[j].0 != k by { assert(o[j].0 != k); }
        filter_none(d, k);
        assert(o.remove(i) =~= d);
    } else {
        assert forall|j: int| 0 <= j < d.len() && j != i implies #[trigger] d[j].0 != k by { assert(o[j].0 != k); }
        assert(d[i].0 == k);
        filter_one(d, k, i);
        assert(o.last().0 != k) by { assert(o[o.len() - 1].0 != k); }
        assert(o.remove(i) =~= d.remove(i).push(o.last()));
    }
}
/// what remove_unique leaves behind is `but`
proof fn removed(o: JObj, k: Seq<char>, e: Option<JsEntry>, p: JObj)
    requires
        match e {
            None => !has_key(o, k) && p == o,
            Some(e) => exists|i: int| #[trigger] only(o, k, i) && o[i].1 == e.value && p == o.remove(i),
        },
    ensures p == but(o, k),
{
    if e is None { filter_none(o, k); } else {
        let i = choose|i: int| #[trigger] only(o, k, i) && o[i].1 == e->0.value && p == o.remove(i);
        filter_one(o, k, i);
    }
}
/// a key survives the removal of another one
proof fn key_but(o: JObj, k: Seq<char>, l: Seq<char>)
    requires k != l,
    ensures has_key(but(o, l), k) == has_key(o, k),
    decreases o.len(),
{
    reveal(Seq::filter);
    if o.len() > 0 {
        let d = o.drop_last();
        key_but(d, k, l);
        if has_key(o, k) {
            let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i].0 == k;
            if i < d.len() {
                assert(d[i].0 == k);
                let j = choose|j: int| 0 <= j < but(d, l).len() && #[trigger] but(d, l)[j].0 == k;
                assert(but(o, l)[j].0 == k);
            } else { assert(but(o, l).last().0 == k); assert(but(o, l)[but(o, l).len() - 1].0 == k); }
        }
        if has_key(but(o, l), k) {
            let j = choose|j: int| 0 <= j < but(o, l).len() && #[trigger] but(o, l)[j].0 == k;
            if j < but(d, l).len() { assert(but(d, l)[j].0 == k); let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i].0 == k; assert(o[i].0 == k); }
            else { assert(o.last().0 == k); assert(o[o.len() - 1].0 == k); }
        }
    } else { assert(but(o, l).len() == 0); }
}
proof fn only_but(o: JObj, k: Seq<char>, l: Seq<char>, x: JsValue)
    requires k != l, exists|i: int| #[trigger] only(but(o, l), k, i) && but(o, l)[i].1 == x,
    ensures exists|i: int| #[trigger] only(o, k, i) && o[i].1 == x,
    decreases o.len(),
{
    reveal(Seq::filter);
    let p = but(o, l);
    let i = choose|i: int| #[trigger] only(p, k, i) && p[i].1 == x;
    let d = o.drop_last();
    if o.last().0 == l {
        assert(p == but(d, l));
        only_but(d, k, l, x);
        let j = choose|j: int| #[trigger] only(d, k, j) && d[j].1 == x;
        assert(only(o, k, j)) by { assert(o[j].0 == k); assert forall|m: int| 0 <= m < o.len() && m != j implies #[trigger] o[m].0 != k by { if m < d.len() { assert(d[m].0 != k); } } }
    } else if i == p.len() - 1 {
        assert(p.last() == o.last());
        key_but(d, k, l);
        assert(p.drop_last() =~= but(d, l));
        assert(!has_key(but(d, l), k)) by { assert forall|m: int| 0 <= m < but(d, l).len() implies #[trigger] but(d, l)[m].0 != k by { assert(p[m].0 != k); } }
        assert(only(o, k, o.len() - 1)) by { assert(o[o.len() - 1].0 == k); assert forall|m: int| 0 <= m < o.len() && m != o.len() - 1 implies #[trigger] o[m].0 != k by { assert(d[m].0 != k); } }
    } else {
        assert(p.drop_last() =~= but(d, l));
        assert(only(but(d, l), k, i)) by { assert(but(d, l)[i].0 == k); assert forall|m: int| 0 <= m < but(d, l).len() && m != i implies #[trigger] but(d, l)[m].0 != k by { assert(p[m].0 != k); } }
        only_but(d, k, l, x);
        let j = choose|j: int| #[trigger] only(d, k, j) && d[j].1 == x;
        assert(p[p.len() - 1].0 != k);
        assert(only(o, k, j)) by { assert(o[j].0 == k); assert forall|m: int| 0 <= m < o.len() && m != j implies #[trigger] o[m].0 != k by { if m < d.len() { assert(d[m].0 != k); } } }
    }
}
/// an entry read behind the removal of another one is an entry of the whole
proof fn reads_but<X: TryFromJson>(o: JObj, k: Seq<char>, l: Seq<char>, x: Option<X>)
    requires k != l, entry_reads(but(o, l), k, x),
    ensures entry_reads(o, k, x),
{
    if x is None { key_but(o, k, l); } else {
        let p = but(o, l);
        let i = choose|i: int| #[trigger] only(p, k, i) && x->0.reads(p[i].1);
        only_but(o, k, l, p[i].1);
    }
}
pub open spec fn oe<X: Form>(k: Seq<char>, x: Option<X>) -> JObj {
    match x { Some(x) => seq![(k, x.jv())], None => Seq::empty() }
}
proof fn keys_differ()
    ensures "@id"@ != "@type"@, "@id"@ != "@graph"@, "@id"@ != "@included"@, "@id"@ != "@reverse"@, "@type"@ != "@graph"@, "@type"@ != "@included"@,
        "@type"@ != "@reverse"@, "@graph"@ != "@included"@, "@graph"@ != "@reverse"@, "@included"@ != "@reverse"@,
{
    reveal_strlit("@id"); reveal_strlit("@type"); reveal_strlit("@graph"); reveal_strlit("@included"); reveal_strlit("@reverse");
    assert("@id"@.len() == 3 && "@type"@.len() == 5 && "@graph"@.len() == 6 && "@included"@.len() == 9 && "@reverse"@.len() == 8);
}

// ---- components -------------------------------------------------------------------------------------
macro_rules! component { ($($t:ident, $d:tt);*) => { verus!{ $(
    #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
    pub struct $t<T, B> { x: core::marker::PhantomData<(T, B)> }
    impl<T, B> Form for $t<T, B> {
        uninterp spec fn jv(self) -> JsValue;
        #[verifier::external_body] fn into_with<N>(self, v: &N) -> (r: With<Self>) { unimplemented!() }
        #[verifier::external_body] fn with<N>(&self, v: &N) -> (r: With<&Self>) { unimplemented!() }
        #[verifier::external_body] fn into_json_with<N>(self, v: &N) -> (r: JsValue) { unimplemented!() }
    }
    impl<T, B> TryFromJson for $t<T, B> {
        uninterp spec fn reads(self, v: JsValue) -> bool;
        #[verifier::external_body] fn try_from_json_in<V: VocabularyMut>(vocabulary: &mut V, value: JsValue) -> (r: Result<Self, InvalidExpandedJson>) { unimplemented!() }
    }
)* } } }
component!{ Id, (); Graph, (); Included, (); ReverseProperties, (); PropertyObjects, (); IndexedObject, () }
pub uninterp spec fn id_text<T, B>(i: Id<T, B>) -> Seq<char>;
impl<'a, T, B> With<&'a Id<T, B>> {
    #[verifier::external_body]
    pub fn to_string(self) -> (r: String) ensures r@ == id_text(*self.0) { unimplemented!() }
}
impl<X: Form> Form for Vec<X> {
    uninterp spec fn jv(self) -> JsValue;
    #[verifier::external_body] fn into_with<N>(self, v: &N) -> (r: With<Self>) { unimplemented!() }
    #[verifier::external_body] fn with<N>(&self, v: &N) -> (r: With<&Self>) { unimplemented!() }
    #[verifier::external_body] fn into_json_with<N>(self, v: &N) -> (r: JsValue) { unimplemented!() }
}
/// crates/core/src/object/mod.rs: the items of an array are read one by one, in order
impl<X: TryFromJson> TryFromJson for Vec<X> {
    open spec fn reads(self, v: JsValue) -> bool { v matches JsValue::Array(a) && arr(a).len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).reads(arr(a)[i]) }
//@ extract fn impl TryFromJson for Vec > try_from_json_in from crates/core/src/object/mod.rs
//@ ret r
//@ rename try_from_json_in<VV: VocabularyMut>
//@ subst &mut impl VocabularyMut<Iri = T, BlankId = B> => &mut VV
//@ subst json_syntax::Value => JsValue
//@ subst V::try_from_json_in => X::try_from_json_in
//@ subst let mut result = Vec::new() => let mut result: Vec<X> = Vec::new()
//@ desugar-for 0 it
    invariant
        value == JsValue::Array(items), result@.len() <= arr(items).len(), it.rest@ =~= arr(items).skip(result@.len() as int),
        forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i]).reads(arr(items)[i]),
    ensures result@.len() == arr(items).len(),
    decreases it.rest@.len(),
//@ end
}
/// crates/core/src/object/node/properties.rs: what is left of a node object are its properties
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Properties<T, B> { x: core::marker::PhantomData<(T, B)> }
pub uninterp spec fn props<T, B>(p: Properties<T, B>) -> Seq<(Id<T, B>, PropertyObjects<T, B>)>;
pub open spec fn prop_entries<T, B>(p: Seq<(Id<T, B>, PropertyObjects<T, B>)>) -> JObj { p.map_values(|e: (Id<T, B>, PropertyObjects<T, B>)| (id_text(e.0), e.1.jv())) }
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct PropsIter<T, B> { pub rest: Ghost<Seq<(Id<T, B>, PropertyObjects<T, B>)>> }
impl<T, B> Properties<T, B> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: PropsIter<T, B>) ensures r.rest@ == props(self) { unimplemented!() }
}
impl<T, B> PropsIter<T, B> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Id<T, B>, PropertyObjects<T, B>)>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}
impl<T, B> TryFromJsonObject for Properties<T, B> {
    uninterp spec fn reads_object(self, o: JObj) -> bool;
    #[verifier::external_body] fn try_from_json_object_in<V: VocabularyMut>(vocabulary: &mut V, object: JsObject) -> (r: Result<Self, InvalidExpandedJson>) { unimplemented!() }
}

// ---- node objects -----------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
pub open spec fn node_keys(o: JObj) -> JObj { but(but(but(but(but(o, "@id"@), "@type"@), "@graph"@), "@included"@), "@reverse"@) }
impl<T, B> TryFromJsonObject for Node<T, B> {
    open spec fn reads_object(self, o: JObj) -> bool {
        &&& entry_reads(o, "@id"@, self.id) && entry_reads(o, "@type"@, self.types) && entry_reads(o, "@graph"@, self.graph)
        &&& entry_reads(o, "@included"@, self.included) && entry_reads(o, "@reverse"@, self.reverse_properties)
        &&& self.properties.reads_object(node_keys(o))
    }
//@ extract fn impl TryFromJsonObject for Node > try_from_json_object_in from crates/core/src/object/node/mod.rs
//@ ret r
//@ rename try_from_json_object_in<VV: VocabularyMut>
//@ subst &mut impl VocabularyMut<Iri = T, BlankId = B> => &mut VV
//@ subst json_syntax::Object => JsObject
//@ subst IndexSet::try_from_json_in(vocabulary, entry.value)? => TryFromJson::try_from_json_in(vocabulary, entry.value)?
//@ desugar result.map_err
//@ start
    let ghost o0 = objs(object);
//@ after "let id ="
    let ghost o1 = objs(object);
    proof { got(o0, "@id"@, id, o1); }
//@ after "let types ="
    let ghost o2 = objs(object);
    proof { got(o1, "@type"@, types, o2); }
//@ after "let graph ="
    let ghost o3 = objs(object);
    proof { got(o2, "@graph"@, graph, o3); }
//@ after "let included ="
    let ghost o4 = objs(object);
    proof { got(o3, "@included"@, included, o4); }
//@ after "let reverse_properties ="
    let ghost o5 = objs(object);
    proof { got(o4, "@reverse"@, reverse_properties, o5); whole(o0, id, types, graph, included, reverse_properties); }
//@ end
}
proof fn whole<T, B>(o0: JObj, id: Option<Id<T, B>>, types: Option<Vec<Id<T, B>>>, graph: Option<Graph<T, B>>, included: Option<Included<T, B>>, rev: Option<ReverseProperties<T, B>>)
    requires ({
        let o1 = but(o0, "@id"@);
        let o2 = but(o1, "@type"@);
        let o3 = but(o2, "@graph"@);
        let o4 = but(o3, "@included"@);
        entry_reads(o0, "@id"@, id) && entry_reads(o1, "@type"@, types) && entry_reads(o2, "@graph"@, graph) && entry_reads(o3, "@included"@, included) && entry_reads(o4, "@reverse"@, rev)
    }),
    ensures entry_reads(o0, "@type"@, types), entry_reads(o0, "@graph"@, graph), entry_reads(o0, "@included"@, included), entry_reads(o0, "@reverse"@, rev),
{
    keys_differ();
    let o1 = but(o0, "@id"@);
    let o2 = but(o1, "@type"@);
    let o3 = but(o2, "@graph"@);
    reads_but(o0, "@type"@, "@id"@, types);
    reads_but(o1, "@graph"@, "@type"@, graph); reads_but(o0, "@graph"@, "@id"@, graph);
    reads_but(o2, "@included"@, "@graph"@, included); reads_but(o1, "@included"@, "@type"@, included); reads_but(o0, "@included"@, "@id"@, included);
    reads_but(o3, "@reverse"@, "@included"@, rev); reads_but(o2, "@reverse"@, "@graph"@, rev); reads_but(o1, "@reverse"@, "@type"@, rev); reads_but(o0, "@reverse"@, "@id"@, rev);
}
/// an entry was read and removed
proof fn got<X: TryFromJson>(o: JObj, k: Seq<char>, x: Option<X>, p: JObj)
    requires match x { None => !has_key(o, k) && p == o, Some(x) => exists|i: int| #[trigger] only(o, k, i) && x.reads(o[i].1) && p == o.remove(i) },
    ensures entry_reads(o, k, x), p == but(o, k),
{
    if x is None { filter_none(o, k); } else { let i = choose|i: int| #[trigger] only(o, k, i) && x->0.reads(o[i].1) && p == o.remove(i); filter_one(o, k, i); }
}

/// the entries a node object is written as
pub open spec fn node_form<T, B>(n: Node<T, B>) -> JObj {
    oe("@id"@, n.id) + oe("@type"@, if n.types is Some && n.types->0@.len() > 0 { n.types } else { None }) + oe("@graph"@, n.graph) + oe("@included"@, n.included)
        + oe("@reverse"@, n.reverse_properties) + prop_entries(props(n.properties))
}
/// no property is written under a node keyword or under the key of another property
pub open spec fn separate<T, B>(p: Seq<(Id<T, B>, PropertyObjects<T, B>)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> id_text(#[trigger] p[i].0) != id_text(#[trigger] p[j].0)
    &&& forall|i: int| 0 <= i < p.len() ==> !node_key(id_text(#[trigger] p[i].0))
}
pub open spec fn node_key(k: Seq<char>) -> bool { k == "@id"@ || k == "@type"@ || k == "@graph"@ || k == "@included"@ || k == "@reverse"@ }
pub open spec fn heads(o: JObj) -> bool { forall|i: int| 0 <= i < o.len() ==> node_key(#[trigger] o[i].0) }
proof fn key_push(o: JObj, k: Seq<char>, l: Seq<char>, v: JsValue)
    ensures has_key(o.push((l, v)), k) == (has_key(o, k) || k == l),
{
    let p = o.push((l, v));
    if has_key(o, k) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i].0 == k; assert(p[i].0 == k); }
    if k == l { assert(p[o.len() as int].0 == k); }
    if has_key(p, k) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i].0 == k; if i < o.len() { assert(o[i].0 == k); } }
}
/// what writing an optional entry does
pub open spec fn wrote<X: Form>(o: JObj, k: Seq<char>, x: Option<X>, p: JObj) -> bool { p == o + oe(k, x) }
proof fn wrote_keys<X: Form>(o: JObj, l: Seq<char>, x: Option<X>, k: Seq<char>)
    ensures has_key(o + oe(l, x), k) == (has_key(o, k) || (x is Some && k == l)), heads(o) && node_key(l) ==> heads(o + oe(l, x)),
{
    if x is Some { assert(o + oe(l, x) =~= o.push((l, x->0.jv()))); key_push(o, k, l, x->0.jv()); } else { assert(o + oe(l, x) =~= o); }
}
impl<T, B> Node<T, B> {
//@ extract fn impl IntoJsonWithContext for Node > into_json_with from crates/core/src/object/node/mod.rs
//@ ret r
//@ rename into_json_with<N>
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ spec
    requires separate(props(self.properties)),
    ensures r matches JsValue::Object(o) && objs(o) == node_form(self),
//@ start
    broadcast use js_key_text;
    let ghost n = self;
    let ghost ps = props(self.properties);
    let ghost ty = if n.types is Some && n.types->0@.len() > 0 { n.types } else { None };
    proof { keys_differ(); }
//@ before "if let Some(id)"
    let ghost e0 = Seq::<(Seq<char>, JsValue)>::empty();
    let ghost e1 = e0 + oe("@id"@, n.id);
    let ghost e2 = e1 + oe("@type"@, ty);
    let ghost e3 = e2 + oe("@graph"@, n.graph);
    let ghost e4 = e3 + oe("@included"@, n.included);
    let ghost e5 = e4 + oe("@reverse"@, n.reverse_properties);
    proof {
        wrote_keys(e0, "@id"@, n.id, "@type"@); wrote_keys(e0, "@id"@, n.id, "@graph"@); wrote_keys(e0, "@id"@, n.id, "@included"@); wrote_keys(e0, "@id"@, n.id, "@reverse"@);
        wrote_keys(e1, "@type"@, ty, "@graph"@); wrote_keys(e1, "@type"@, ty, "@included"@); wrote_keys(e1, "@type"@, ty, "@reverse"@);
        wrote_keys(e2, "@graph"@, n.graph, "@included"@); wrote_keys(e2, "@graph"@, n.graph, "@reverse"@);
        wrote_keys(e3, "@included"@, n.included, "@reverse"@); wrote_keys(e4, "@reverse"@, n.reverse_properties, "@id"@);
    }
//@ after "if let Some(id)"
    proof { assert(objs(obj) =~= e1); }
//@ after "if let Some(types)"
    proof { assert(objs(obj) =~= e2); }
//@ after "if let Some(graph)"
    proof { assert(objs(obj) =~= e3); }
//@ after "if let Some(included)"
    proof { assert(objs(obj) =~= e4); }
//@ after "if let Some(reverse_properties)"
    proof { assert(objs(obj) =~= e5); assert(ps.skip(0) =~= ps); }
    let ghost mut k = 0int;
//@ desugar-for 0 it
    invariant
        0 <= k <= ps.len(), it.rest@ == ps.skip(k), objs(obj) == e5 + prop_entries(ps.take(k)), separate(ps), heads(e5),
    ensures k == ps.len(),
    decreases it.rest@.len(),
//@ loop 0 body-start
    proof {
        broadcast use js_key_text;
        assert(prop == ps[k].0 && objects == ps[k].1);
        let o = objs(obj);
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i].0 != id_text(prop) by {
            if i < e5.len() { assert(o[i] == e5[i]); } else { assert(o[i].0 == id_text(ps[i - e5.len()].0)); }
        }
    }
//@ loop 0 body-end
    proof {
        assert(prop_entries(ps.take(k + 1)) =~= prop_entries(ps.take(k)).push((id_text(ps[k].0), ps[k].1.jv())));
        assert(objs(obj) =~= e5 + prop_entries(ps.take(k + 1)));
        assert(ps.skip(k).skip(1) =~= ps.skip(k + 1));
        k = k + 1;
    }
//@ before "obj.into()"
    proof { assert(ps.take(ps.len() as int) =~= ps); assert(e0 + oe("@id"@, n.id) =~= oe("@id"@, n.id)); }
//@ end
}

// ---- list objects, indexed objects, objects ------------------------------------------------------------
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct List from crates/core/src/object/list.rs
//@ end
pub open spec fn list_reads<T, B>(l: List<T, B>, v: JsValue, rest: JObj) -> bool { l.entry.reads(v) && rest.len() == 0 }
impl JsIntoIter {}
impl<T, B> List<T, B> {
//@ extract fn impl List > new from crates/core/src/object/list.rs
//@ ret r
//@ spec
    ensures r.entry == objects,
//@ end
//@ extract fn impl List > try_from_json_object_in from crates/core/src/object/list.rs
//@ ret r
//@ rename try_from_json_object_in<VV: VocabularyMut>
//@ subst &mut impl VocabularyMut<Iri = T, BlankId = B> => &mut VV
//@ subst json_syntax::Object => JsObject
//@ subst json_syntax::object::Entry => JsEntry
//@ spec
    ensures r matches Ok(l) ==> list_reads(l, list_entry.value, objs(object)),
//@ end
//@ extract fn impl IntoJsonWithContext for List > into_json_with from crates/core/src/object/list.rs
//@ ret r
//@ rename into_json_with<N>
//@ subst json_syntax::Value => JsValue
//@ subst json_syntax::Object => JsObject
//@ start
    broadcast use js_key_text;
//@ spec
    ensures r matches JsValue::Object(o) && objs(o) =~= seq![("@list"@, self.entry.jv())],
//@ end
}
pub struct Indexed<T> { pub index: Option<String>, pub value: T }
pub trait FormObject: Sized {
    spec fn oj(self) -> JsValue;
    fn into_json_with<N>(self, v: &N) -> (r: JsValue) ensures r == self.oj();
}
pub trait IntoJson: Sized { fn into_json(self) -> JsValue; }
pub uninterp spec fn js_string(s: Seq<char>) -> JsValue;
pub broadcast axiom fn js_string_is(s: Seq<char>) ensures #[trigger] js_string(s) == JsValue::String(js_str(s)) && js(js_str(s)) == s;
pub trait StringJson: Sized { fn into_json(self) -> JsValue; }
impl StringJson for String {
    #[verifier::external_body]
    fn into_json(self) -> (r: JsValue) ensures r == js_string(self@) { unimplemented!() }
}
impl<T> Indexed<T> {
//@ extract fn impl Indexed > new from crates/core/src/indexed.rs
//@ ret r
//@ spec
    ensures r.value == value, r.index == index,
//@ end
}
/// the @index entry, at most one and a string, and the rest
impl<O: TryFromJsonObject> TryFromJsonObject for Indexed<O> {
    open spec fn reads_object(self, o: JObj) -> bool {
        &&& match self.index { None => !has_key(o, "@index"@), Some(s) => exists|i: int| #[trigger] only(o, "@index"@, i) && (o[i].1 matches JsValue::String(t) && js(t) == s@) }
        &&& self.value.reads_object(but(o, "@index"@))
    }
//@ extract fn impl TryFromJsonObject for Indexed > try_from_json_object_in from crates/core/src/indexed.rs
//@ ret r
//@ rename try_from_json_object_in<VV: VocabularyMut>
//@ subst &mut impl VocabularyMut<Iri = T, BlankId = B> => &mut VV
//@ subst json_syntax::Object => JsObject
//@ subst json_syntax::Value => JsValue
//@ desugar result.map_err
//@ start
    let ghost o0 = objs(object);
//@ after "let index ="
    proof {
        if index is None { filter_none(o0, "@index"@); }
        else { let i = choose|i: int| #[trigger] only(o0, "@index"@, i) && objs(object) == o0.remove(i); filter_one(o0, "@index"@, i); }
    }
//@ end
}
impl<O: FormObject> Indexed<O> {
//@ extract fn impl IntoJsonWithContext for Indexed > into_json_with from crates/core/src/indexed.rs
//@ ret r
//@ rename into_json_with<N>
//@ subst json_syntax::Value => JsValue
//@ spec
    requires self.value.oj() matches JsValue::Object(o) && !has_key(objs(o), "@index"@),
    ensures r matches JsValue::Object(o) && objs(o) == objs(self.value.oj()->Object_0) + (match self.index { Some(s) => seq![("@index"@, js_string(s@))], None => Seq::empty() }),
//@ start
    broadcast use js_key_text;
    let ghost me = self;
//@ tail JsValue
    proof { assert(objs(vx_r->Object_0) =~= objs(me.value.oj()->Object_0) + (match me.index { Some(s) => seq![("@index"@, js_string(s@))], None => Seq::empty() })); }
//@ end
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Value<T> { x: core::marker::PhantomData<T> }
/// proved of Value in values.rs
pub uninterp spec fn value_reads<T>(x: Value<T>, v: JsValue, rest: JObj) -> bool;
impl<T> Value<T> {
    #[verifier::external_body]
    pub fn try_from_json_object_in<V: VocabularyMut>(vocabulary: &mut V, object: JsObject, e: JsEntry) -> (r: Result<Self, InvalidExpandedJson>)
        ensures r matches Ok(x) ==> value_reads(x, e.value, objs(object)),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
impl<T, B> Object<T, B> {
//@ extract fn impl Object > node from crates/core/src/object/mod.rs
//@ ret r
//@ spec
    ensures r matches Object::Node(m) && *m == n,
//@ end
}
/// an object is a value object when it has an @value entry, else a list object when it has an @list entry, else a node object
impl<T, B> TryFromJsonObject for Object<T, B> {
    open spec fn reads_object(self, o: JObj) -> bool {
        &&& !has_key(o, "@context"@)
        &&& match self {
            Object::Value(v) => exists|i: int| #[trigger] only(o, "@value"@, i) && value_reads(v, o[i].1, but(o, "@value"@)),
            Object::List(l) => !has_key(o, "@value"@) && exists|i: int| #[trigger] only(o, "@list"@, i) && list_reads(l, o[i].1, but(o, "@list"@)),
            Object::Node(n) => !has_key(o, "@value"@) && !has_key(o, "@list"@) && n.reads_object(o),
        }
    }
//@ extract fn impl TryFromJsonObject for Object > try_from_json_object_in from crates/core/src/object/mod.rs
//@ ret r
//@ rename try_from_json_object_in<VV: VocabularyMut>
//@ subst &mut impl VocabularyMut<Iri = T, BlankId = B> => &mut VV
//@ subst json_syntax::Object => JsObject
//@ desugar result.map_err
//@ start
    proof { entry_removed(objs(object)); }
//@ end
}
proof fn entry_removed(o: JObj)
    ensures forall|k: Seq<char>, i: int| #[trigger] only(o, k, i) ==> o.remove(i) == but(o, k),
{ assert forall|k: Seq<char>, i: int| #[trigger] only(o, k, i) implies o.remove(i) == but(o, k) by { filter_one(o, k, i); } }
fn main() {}
}
