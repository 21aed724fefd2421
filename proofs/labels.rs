#![allow(warnings)]
use vstd::prelude::*;
use std::hash::Hash;
pub mod hashbrown { pub use super::HashMap; }
verus! {
//@ vacuity-decls
// ---- dependencies (assumed) ---------------------------------------------------------------------
/// a hash map, seen as the map it is; two keys are the same when `==` says so, taken to be equality
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(e) => e.key == k && old(self).m().contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Vacant(e) => e.key == k && !old(self).m().contains_key(k) && *e.map == *old(self) && *final(e.map) == *final(self),
        } { unimplemented!() }
    // not used by the code as it stands; there so that a rewrite by other means is still decided
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self.m().contains_key(*k) { Some(&self.m()[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k, v), r == (if old(self).m().contains_key(k) { Some(old(self).m()[k]) } else { None }) { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) ensures *r == old(self.map).m()[self.key], final(self.map).m() == old(self.map).m().insert(self.key, *final(r)) { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, final(self.map).m() == old(self.map).m().insert(self.key, *final(r)) { unimplemented!() }
}
/// rdf_types: what a generator answers is a function of its state and that of the vocabulary
pub trait Vocabulary: Sized { type Iri; type BlankId; }
pub trait Generator<V: Vocabulary>: Sized {
    spec fn nxt(g: Self, v: V) -> (ValidId<V::Iri, V::BlankId>, Self, V);
    fn next(&mut self, vocabulary: &mut V) -> (r: ValidId<V::Iri, V::BlankId>)
        ensures (r, *final(self), *final(vocabulary)) == Self::nxt(*old(self), *old(vocabulary));
}
pub enum ValidId<I, B> { Iri(I), Blank(B) }
pub type Subject<I, B> = ValidId<I, B>;
impl<I: Clone, B: Clone> Clone for ValidId<I, B> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// cloning an identifier gives the same identifier
#[verifier::external_body]
pub fn vx_cloned<T: Clone>(t: Option<&T>) -> (r: Option<T>) ensures r == (match t { Some(t) => Some(*t), None => None }) { unimplemented!() }
pub trait VxEmpty: Sized { spec fn is_new(self) -> bool; }
/// stands for std::mem::take
#[verifier::external_body]
pub fn vx_take<T: VxEmpty>(t: &mut T) -> (r: T) ensures r == *old(t), (*final(t)).is_new() { unimplemented!() }
//@ extract enum Id from crates/core/src/id.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ end
impl<T, B> vstd::std_specs::convert::FromSpecImpl<ValidId<T, B>> for Id<T, B> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ValidId<T, B>) -> Self { Id::Valid(v) }
}
impl<T, B> From<ValidId<T, B>> for Id<T, B> {
//@ extract fn impl From<ValidId<T, B>> for Id > from from crates/core/src/id.rs
//@ end
}
impl<I, B> Id<I, B> {
//@ extract fn impl Id > as_blank from crates/core/src/id.rs
//@ ret r
//@ spec
    ensures r == (match *self { Id::Valid(ValidId::Blank(ref b)) => Some(b), _ => None }),
//@ end
}
/// json_syntax, ryu_js
pub mod json_syntax { pub use super::{JsValue as Value, JsString as String}; }
pub mod ryu_js { pub use super::Buffer; }
#[verifier::external_body] pub struct JsValue { x: u8 }
#[verifier::external_body] pub struct JsString { x: u8 }
#[verifier::external_body] pub struct NumberBuf { x: u8 }
#[verifier::external_body] pub struct Number { x: u8 }
#[verifier::external_body] pub struct LangString { x: u8 }
#[verifier::external_body] pub struct Buffer { x: u8 }
/// the canonical form of a number, and of a JSON value
pub uninterp spec fn number_of(n: NumberBuf) -> Number;
pub uninterp spec fn owned(n: Number) -> NumberBuf;
pub uninterp spec fn cnumber(n: Number) -> Number;
pub uninterp spec fn cjson(v: JsValue) -> JsValue;
impl NumberBuf {
    #[verifier::external_body]
    pub fn canonical_with<'b>(&self, buffer: &'b mut Buffer) -> (r: &'b Number) ensures *r == cnumber(number_of(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_number(n: &Number) -> (r: Self) ensures r == owned(*n) { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    pub fn canonicalize_with(&mut self, buffer: &mut Buffer) ensures *final(self) == cjson(*old(self)) { unimplemented!() }
}
impl Buffer {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
}
//@ extract enum Literal from crates/core/src/object/value.rs
//@ end
//@ extract enum Value from crates/core/src/object/value.rs
//@ subst <T = IriBuf> => <T>
//@ end
pub open spec fn clit(l: Literal) -> Literal { match l { Literal::Number(n) => Literal::Number(owned(cnumber(number_of(n)))), l => l } }
pub open spec fn cvalue<T>(v: Value<T>) -> Value<T> { match v { Value::Json(j) => Value::Json(cjson(j)), Value::Literal(l, t) => Value::Literal(clit(l), t), v => v } }
impl Literal {
//@ extract fn impl Literal > canonicalize_with from crates/core/src/object/value.rs
//@ spec
    ensures *final(self) == clit(*old(self)),
//@ end
}
impl<T> Value<T> {
//@ extract fn impl Value > canonicalize_with from crates/core/src/object/value.rs
//@ spec
    ensures *final(self) == cvalue(*old(self)),
//@ end
}
/// insertion ordered set and map: a sequence of members
pub struct IndexSet<T> { pub v: Vec<T> }
pub struct IndexMap<K, V> { pub v: Vec<(K, V)> }
pub struct Taken<T> { pub v: Vec<T>, pub at: Ghost<int> }
impl<T> Taken<T> {
    pub open spec fn rest(&self) -> Seq<T> { self.v@.skip(self.at@) }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).v == old(self).v, 0 <= old(self).at@ < old(self).v@.len() ==> final(self).at@ == old(self).at@ + 1 && r == Some(old(self).v@[old(self).at@]),
            old(self).at@ == old(self).v@.len() ==> r is None && final(self).at@ == old(self).at@ { unimplemented!() }
}
// ---- objects in expanded form ---------------------------------------------------------------------
//@ extract struct DeterministicHasherBuilder from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Multiset from crates/core/src/object/node/multiset.rs
//@ end
//@ extract struct Indexed from crates/core/src/indexed.rs
//@ end
pub type IndexedObject<T, B> = Indexed<Object<T, B>>;
pub type IndexedNode<T, B> = Indexed<Node<T, B>>;
pub type Graph<T, B> = IndexSet<IndexedObject<T, B>>;
pub type Included<T, B> = IndexSet<IndexedNode<T, B>>;
pub type PropertyObjects<T, B> = Multiset<IndexedObject<T, B>>;
pub type ReversePropertyNodes<T, B> = Multiset<IndexedNode<T, B>>;
//@ extract struct Properties from crates/core/src/object/node/properties.rs
//@ end
//@ extract struct ReverseProperties from crates/core/src/object/node/reverse_properties.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct Node from crates/core/src/object/node/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct List from crates/core/src/object/list.rs
//@ end
//@ extract enum Object from crates/core/src/object/mod.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end
//@ extract struct ExpandedDocument from crates/core/src/document/expanded.rs
//@ subst <T = IriBuf, B = BlankIdBuf> => <T, B>
//@ end

// ---- what an object says -----------------------------------------------------------------------------
pub enum VO<T, B> { Value(Value<T>), List(Seq<VI<T, B>>), Node(VN<T, B>) }
pub struct VI<T, B> { pub index: Option<String>, pub value: VO<T, B> }
pub struct VN<T, B> { pub id: Option<Id<T, B>>, pub types: Option<Seq<Id<T, B>>>, pub graph: Option<Seq<VI<T, B>>>, pub included: Option<Seq<VI<T, B>>>,
    pub props: Seq<(Id<T, B>, Seq<VI<T, B>>)>, pub rev: Option<Seq<(Id<T, B>, Seq<VI<T, B>>)>> }
pub type VS<T, B> = Seq<VI<T, B>>;
pub type VP<T, B> = Seq<(Id<T, B>, Seq<VI<T, B>>)>;
pub open spec fn vo<T, B>(o: Object<T, B>) -> VO<T, B>
    decreases o,
{
    match o { Object::Value(v) => VO::Value(v), Object::List(l) => VO::List(Seq::new(l.entry@.len(), |i: int| if 0 <= i < l.entry@.len() { vi(l.entry@[i]) } else { arbitrary() })), Object::Node(n) => VO::Node(vn(*n)) }
}
pub open spec fn vi<T, B>(i: IndexedObject<T, B>) -> VI<T, B> decreases i { VI { index: i.index, value: vo(i.value) } }
pub open spec fn vm<T, B>(i: IndexedNode<T, B>) -> VI<T, B> decreases i { VI { index: i.index, value: VO::Node(vn(i.value)) } }
pub open spec fn vn<T, B>(n: Node<T, B>) -> VN<T, B>
    decreases n,
{
    VN {
        id: n.id,
        types: match n.types { Some(t) => Some(t@), None => None },
        graph: match n.graph { Some(g) => Some(Seq::new(g.v@.len(), |i: int| if 0 <= i < g.v@.len() { vi(g.v@[i]) } else { arbitrary() })), None => None },
        included: match n.included { Some(g) => Some(Seq::new(g.v@.len(), |i: int| if 0 <= i < g.v@.len() { vm(g.v@[i]) } else { arbitrary() })), None => None },
        props: Seq::new(n.properties.0.v@.len(), |i: int| if 0 <= i < n.properties.0.v@.len() { (n.properties.0.v@[i].0, Seq::new(n.properties.0.v@[i].1.data@.len(), |j: int| if 0 <= j < n.properties.0.v@[i].1.data@.len() { vi(n.properties.0.v@[i].1.data@[j]) } else { arbitrary() })) } else { arbitrary() }),
        rev: match n.reverse_properties { Some(r) => Some(Seq::new(r.0.v@.len(), |i: int| if 0 <= i < r.0.v@.len() { (r.0.v@[i].0, Seq::new(r.0.v@[i].1.data@.len(), |j: int| if 0 <= j < r.0.v@[i].1.data@.len() { vm(r.0.v@[i].1.data@[j]) } else { arbitrary() })) } else { arbitrary() })), None => None },
    }
}
pub open spec fn vis<T, B>(s: Seq<IndexedObject<T, B>>) -> VS<T, B> { Seq::new(s.len(), |i: int| vi(s[i])) }
pub open spec fn vms<T, B>(s: Seq<IndexedNode<T, B>>) -> VS<T, B> { Seq::new(s.len(), |i: int| vm(s[i])) }
pub open spec fn vps<T, B>(s: Seq<(Id<T, B>, PropertyObjects<T, B>)>) -> VP<T, B> { Seq::new(s.len(), |i: int| (s[i].0, vis(s[i].1.data@))) }
pub open spec fn vrs<T, B>(s: Seq<(Id<T, B>, ReversePropertyNodes<T, B>)>) -> VP<T, B> { Seq::new(s.len(), |i: int| (s[i].0, vms(s[i].1.data@))) }
broadcast proof fn vo_list<T, B>(o: Object<T, B>) requires o is List ensures (#[trigger] vo(o)) == VO::<T, B>::List(vis(o->List_0.entry@)) {
    assert(vo(o) matches VO::List(s) && s =~= vis(o->List_0.entry@));
}
broadcast proof fn vn_is<T, B>(n: Node<T, B>)
    ensures (#[trigger] vn(n)) == (VN { id: n.id, types: match n.types { Some(t) => Some(t@), None => None },
        graph: match n.graph { Some(g) => Some(vis(g.v@)), None => None }, included: match n.included { Some(g) => Some(vms(g.v@)), None => None },
        props: vps(n.properties.0.v@), rev: match n.reverse_properties { Some(r) => Some(vrs(r.0.v@)), None => None } }),
{
    if n.graph is Some { assert(vn(n).graph->0 =~= vis(n.graph->0.v@)); }
    if n.included is Some { assert(vn(n).included->0 =~= vms(n.included->0.v@)); }
    assert forall|i: int| 0 <= i < n.properties.0.v@.len() implies vn(n).props[i] == (#[trigger] vps(n.properties.0.v@)[i]) by { assert(vn(n).props[i].1 =~= vis(n.properties.0.v@[i].1.data@)); }
    assert(vn(n).props =~= vps(n.properties.0.v@));
    if n.reverse_properties is Some {
        let r = n.reverse_properties->0;
        assert forall|i: int| 0 <= i < r.0.v@.len() implies vn(n).rev->0[i] == (#[trigger] vrs(r.0.v@)[i]) by { assert(vn(n).rev->0[i].1 =~= vms(r.0.v@[i].1.data@)); }
        assert(vn(n).rev->0 =~= vrs(r.0.v@));
    }
}
/// the equality of objects (see unordered.rs) is a function of what they say
pub uninterp spec fn same<T, B>(a: VI<T, B>, b: VI<T, B>) -> bool;
/// a set keeps the first of equal members
pub open spec fn with<T, B>(s: VS<T, B>, t: VI<T, B>) -> VS<T, B> { if exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], t) { s } else { s.push(t) } }
/// the objects are added to those of the property
pub open spec fn keys_of<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn kat<K>(s: Seq<K>, k: K, i: int) -> bool { 0 <= i < s.len() && s[i] == k }
pub open spec fn bound<K>(s: Seq<K>, k: K) -> bool { exists|i: int| kat(s, k, i) }
/// where the entry of the key is
pub open spec fn slot<K>(s: Seq<K>, k: K) -> int { choose|i: int| kat(s, k, i) }
pub open spec fn put<T, B>(p: VP<T, B>, k: Id<T, B>, xs: VS<T, B>) -> VP<T, B> {
    let ks = keys_of(p);
    if bound(ks, k) { p.update(slot(ks, k), (k, p[slot(ks, k)].1 + xs)) } else { p.push((k, xs)) }
}


// ---- relabelling, and identification ------------------------------------------------------------------
/// the labels given so far, the generator and the vocabulary; `re` tells relabelling from identification
pub struct St<T, B, V, G> { pub re: bool, pub m: Map<B, ValidId<T, B>>, pub g: G, pub v: V }
pub open spec fn fresh<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>) -> (St<T, B, V, G>, ValidId<T, B>) { let (r, g, v) = G::nxt(s.g, s.v); (St { re: s.re, m: s.m, g, v }, r) }
/// the label of a blank node: the one given before, or a fresh one that is remembered
pub open spec fn label<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, b: B) -> (St<T, B, V, G>, ValidId<T, B>) {
    if s.m.contains_key(b) { (s, s.m[b]) } else { let (t, r) = fresh(s); (St { re: t.re, m: t.m.insert(b, r), g: t.g, v: t.v }, r) }
}
pub open spec fn rid<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, id: Id<T, B>) -> (St<T, B, V, G>, Id<T, B>) {
    match id { Id::Valid(ValidId::Blank(b)) if s.re => { let (t, r) = label(s, b); (t, Id::Valid(r)) }, _ => (s, id) }
}
pub open spec fn rids<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, xs: Seq<Id<T, B>>, k: nat) -> (St<T, B, V, G>, Seq<Id<T, B>>)
    decreases k,
{ if k == 0 { (s, Seq::empty()) } else { let (t, ys) = rids(s, xs, (k - 1) as nat); let (u, y) = rid(t, xs[k - 1]); (u, ys.push(y)) } }
/// a node without identifier gets a fresh one
pub open spec fn rnid<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, id: Option<Id<T, B>>) -> (St<T, B, V, G>, Option<Id<T, B>>) {
    match id { None => { let (t, r) = fresh(s); (t, Some(Id::Valid(r))) }, Some(id) => { let (t, r) = rid(s, id); (t, Some(r)) } }
}
pub open spec fn rvo<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, o: VO<T, B>) -> (St<T, B, V, G>, VO<T, B>)
    decreases o, 1int, 0nat,
{
    match o {
        VO::Value(v) => (s, o),
        VO::List(l) => { let (t, ys) = rseq(s, l, l.len(), false); (t, VO::List(ys)) },
        VO::Node(n) => { let (t, m) = rvn(s, n); (t, VO::Node(m)) },
    }
}
/// the members of a sequence in order; those of a set are put in a new set
pub open spec fn rseq<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, xs: VS<T, B>, k: nat, set: bool) -> (St<T, B, V, G>, VS<T, B>)
    decreases xs, 0int, k,
{
    if k == 0 || k > xs.len() { (s, Seq::empty()) } else {
        let (t, ys) = rseq(s, xs, (k - 1) as nat, set);
        let x = xs[k - 1];
        let (u, y) = rvo(t, x.value);
        let z = VI { index: x.index, value: y };
        (u, if set { with(ys, z) } else { ys.push(z) })
    }
}
/// properties are renamed too, and their objects put together when renamed to the same
pub open spec fn rprops<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, ps: VP<T, B>, k: nat) -> (St<T, B, V, G>, VP<T, B>)
    decreases ps, 0int, k,
{
    if k == 0 || k > ps.len() { (s, Seq::empty()) } else {
        let (t, qs) = rprops(s, ps, (k - 1) as nat);
        let (u, p) = rid(t, ps[k - 1].0);
        let (w, ys) = rseq(u, ps[k - 1].1, ps[k - 1].1.len(), false);
        (w, if s.re { put(qs, p, ys) } else { qs.push((p, ys)) })
    }
}
pub open spec fn rvn<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, n: VN<T, B>) -> (St<T, B, V, G>, VN<T, B>)
    decreases n, 1int, 0nat,
{
    let (s1, id) = rnid(s, n.id);
    let (s2, types) = match n.types { Some(t) if s.re => { let (s2, t) = rids(s1, t, t.len()); (s2, Some(t)) }, t => (s1, t) };
    let (s3, graph) = match n.graph { Some(g) => { let (s3, g) = rseq(s2, g, g.len(), true); (s3, Some(g)) }, None => (s2, None) };
    let (s4, included) = match n.included { Some(g) => { let (s4, g) = rseq(s3, g, g.len(), true); (s4, Some(g)) }, None => (s3, None) };
    let (s5, props) = rprops(s4, n.props, n.props.len());
    let (s6, rev) = match n.rev { Some(r) => { let (s6, r) = rprops(s5, r, r.len()); (s6, Some(r)) }, None => (s5, None) };
    (s6, VN { id, types, graph, included, props, rev })
}
/// canonical literals, nothing else changes
pub open spec fn cvo<T, B>(o: VO<T, B>) -> VO<T, B>
    decreases o, 1int, 0nat,
{ match o { VO::Value(v) => VO::Value(cvalue(v)), VO::List(l) => VO::List(cseq(l, l.len(), false)), VO::Node(n) => VO::Node(cvn(n)) } }
pub open spec fn cseq<T, B>(xs: VS<T, B>, k: nat, set: bool) -> VS<T, B>
    decreases xs, 0int, k,
{
    if k == 0 || k > xs.len() { Seq::empty() } else {
        let ys = cseq(xs, (k - 1) as nat, set);
        let z = VI { index: xs[k - 1].index, value: cvo(xs[k - 1].value) };
        if set { with(ys, z) } else { ys.push(z) }
    }
}
pub open spec fn cprops<T, B>(ps: VP<T, B>, k: nat) -> VP<T, B>
    decreases ps, 0int, k,
{ if k == 0 || k > ps.len() { Seq::empty() } else { cprops(ps, (k - 1) as nat).push((ps[k - 1].0, cseq(ps[k - 1].1, ps[k - 1].1.len(), false))) } }
pub open spec fn cvn<T, B>(n: VN<T, B>) -> VN<T, B>
    decreases n, 1int, 0nat,
{
    VN { id: n.id, types: n.types, graph: match n.graph { Some(g) => Some(cseq(g, g.len(), true)), None => None }, included: match n.included { Some(g) => Some(cseq(g, g.len(), true)), None => None },
        props: cprops(n.props, n.props.len()), rev: match n.rev { Some(r) => Some(cprops(r, r.len())), None => None } }
}
/// both, object by object
pub open spec fn rcseq<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, xs: VS<T, B>, k: nat) -> (St<T, B, V, G>, VS<T, B>)
    decreases k,
{
    if k == 0 || k > xs.len() { (s, Seq::empty()) } else {
        let (t, ys) = rcseq(s, xs, (k - 1) as nat);
        let (u, y) = rvo(t, xs[k - 1].value);
        (u, with(ys, VI { index: xs[k - 1].index, value: cvo(y) }))
    }
}
pub open spec fn rst<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(m: HashMap<B, ValidId<T, B>>, g: G, v: V) -> St<T, B, V, G> { St { re: true, m: m.m(), g, v } }
pub open spec fn ist<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(g: G, v: V) -> St<T, B, V, G> { St { re: false, m: Map::empty(), g, v } }
/// stands for what the unfinished members of a sequence are
pub open spec fn tail_from<A>(a: Seq<A>, b: Seq<A>, k: int) -> bool { a.len() == b.len() && forall|i: int| k <= i < a.len() ==> a[i] == #[trigger] b[i] }
broadcast proof fn vms_push<T, B>(a: Seq<IndexedNode<T, B>>, x: IndexedNode<T, B>) ensures #[trigger] vms(a.push(x)) == vms(a).push(vm(x)) { assert(vms(a.push(x)) =~= vms(a).push(vm(x))); }
broadcast proof fn put_again<K, V>(m: Map<K, V>, k: K) requires m.contains_key(k) ensures #[trigger] m.insert(k, m[k]) == m { assert(m.insert(k, m[k]) =~= m); }
broadcast proof fn vis_push<T, B>(a: Seq<IndexedObject<T, B>>, x: IndexedObject<T, B>) ensures #[trigger] vis(a.push(x)) == vis(a).push(vi(x)) { assert(vis(a.push(x)) =~= vis(a).push(vi(x))); }

// ---- collections: what the assumed parts do ------------------------------------------------------------
impl<T> VxEmpty for IndexSet<T> { open spec fn is_new(self) -> bool { self.v@.len() == 0 } }
impl<T, B> VxEmpty for Properties<T, B> { open spec fn is_new(self) -> bool { self.0.v@.len() == 0 } }
impl<T, B> VxEmpty for ReverseProperties<T, B> { open spec fn is_new(self) -> bool { self.0.v@.len() == 0 } }
impl<T> IndexSet<T> {
    pub fn new() -> (r: Self) ensures r.v@ == Seq::<T>::empty() { IndexSet { v: Vec::new() } }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Taken<T>) ensures r.v == self.v, r.at@ == 0 { unimplemented!() }
}
impl<T, B> IndexSet<IndexedObject<T, B>> {
    #[verifier::external_body]
    pub fn insert(&mut self, t: IndexedObject<T, B>) -> (r: bool) ensures vis(final(self).v@) == with(vis(old(self).v@), vi(t)) { unimplemented!() }
}
impl<T, B> IndexSet<IndexedNode<T, B>> {
    #[verifier::external_body]
    pub fn insert(&mut self, t: IndexedNode<T, B>) -> (r: bool) ensures vms(final(self).v@) == with(vms(old(self).v@), vm(t)) { unimplemented!() }
}
impl<T> Multiset<T, DeterministicHasherBuilder> {
    fn vx_len(&self) -> (r: usize) ensures r == self.data@.len() { self.data.len() }
    fn vx_at(&mut self, k: usize) -> (r: &mut T)
        requires k < old(self).data@.len(),
        ensures *r == old(self).data@[k as int], final(self).data@ == old(self).data@.update(k as int, *final(r)),
    { &mut self.data[k] }
}
impl<T, B> List<T, B> {
    fn vx_len(&self) -> (r: usize) ensures r == self.entry@.len() { self.entry.len() }
    fn vx_at(&mut self, k: usize) -> (r: &mut IndexedObject<T, B>)
        requires k < old(self).entry@.len(),
        ensures *r == old(self).entry@[k as int], final(self).entry@ == old(self).entry@.update(k as int, *final(r)),
    { &mut self.entry[k] }
}
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body]
    fn vx_at(&mut self, k: usize) -> (r: (&K, &mut V))
        requires k < old(self).v@.len(),
        ensures *r.0 == old(self).v@[k as int].0, *r.1 == old(self).v@[k as int].1, final(self).v@ == old(self).v@.update(k as int, (*r.0, *final(r.1))),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => { let i = slot(keys_of(old(self).v@), *k); bound(keys_of(old(self).v@), *k) && *v == old(self).v@[i].1 && final(self).v@ == old(self).v@.update(i, (*k, *final(v))) },
            None => !bound(keys_of(old(self).v@), *k) && *final(self) == *old(self),
        },
    { unimplemented!() }
    /// of a key that is not there
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures !bound(keys_of(old(self).v@), k) ==> final(self).v@ == old(self).v@.push((k, v)),
    { unimplemented!() }
}
impl<T> Multiset<T, DeterministicHasherBuilder> {
    /// `Extend::extend`, `FromIterator::from_iter`
    #[verifier::external_body]
    fn extend(&mut self, o: Self) ensures final(self).data@ == old(self).data@ + o.data@ { unimplemented!() }
    fn into_iter(self) -> (r: Self) ensures r == self { self }
    fn collect(self) -> (r: Self) ensures r == self { self }
}

impl<T, B> Properties<T, B> {
    fn vx_len(&self) -> (r: usize) ensures r == self.0.v@.len() { self.0.v.len() }
    fn vx_at(&mut self, k: usize) -> (r: (&Id<T, B>, &mut PropertyObjects<T, B>))
        requires k < old(self).0.v@.len(),
        ensures *r.0 == old(self).0.v@[k as int].0, *r.1 == old(self).0.v@[k as int].1, final(self).0.v@ == old(self).0.v@.update(k as int, (*r.0, *final(r.1))),
    { self.0.vx_at(k) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Taken<(Id<T, B>, PropertyObjects<T, B>)>) ensures r.v == self.0.v, r.at@ == 0 { unimplemented!() }
//@ extract fn impl Properties<T, B> > insert_all from crates/core/src/object/node/properties.rs
//@ subst <Objects: IntoIterator<Item = IndexedObject<T, B>>> => <'vx>
//@ subst values: Objects => values: PropertyObjects<T, B>
//@ spec
    ensures vps(final(self).0.v@) == put(vps(old(self).0.v@), prop, vis(values.data@)),
//@ start
    let ghost (o, k, xs) = (self.0.v@, prop, values.data@);
    proof {
        assert(keys_of(vps(o)) =~= keys_of(o));
        if bound(keys_of(o), k) { assert(kat(keys_of(o), k, slot(keys_of(o), k))); }
    }
//@ after "if let Some(node_values)"
    proof {
        if bound(keys_of(o), k) { let i = slot(keys_of(o), k); assert(vis(self.0.v@[i].1.data@) =~= vis(o[i].1.data@) + vis(xs)); }
        assert(vps(self.0.v@) =~= put(vps(o), k, vis(xs)));
    }
//@ end
}
impl<T, B> ReverseProperties<T, B> {
    fn vx_len(&self) -> (r: usize) ensures r == self.0.v@.len() { self.0.v.len() }
    fn vx_at(&mut self, k: usize) -> (r: (&Id<T, B>, &mut ReversePropertyNodes<T, B>))
        requires k < old(self).0.v@.len(),
        ensures *r.0 == old(self).0.v@[k as int].0, *r.1 == old(self).0.v@[k as int].1, final(self).0.v@ == old(self).0.v@.update(k as int, (*r.0, *final(r.1))),
    { self.0.vx_at(k) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Taken<(Id<T, B>, ReversePropertyNodes<T, B>)>) ensures r.v == self.0.v, r.at@ == 0 { unimplemented!() }
//@ extract fn impl ReverseProperties<T, B> > insert_all from crates/core/src/object/node/reverse_properties.rs
//@ subst <Objects: IntoIterator<Item = IndexedNode<T, B>>> => <'vx>
//@ subst values: Objects => values: ReversePropertyNodes<T, B>
//@ spec
    ensures vrs(final(self).0.v@) == put(vrs(old(self).0.v@), prop, vms(values.data@)),
//@ start
    let ghost (o, k, xs) = (self.0.v@, prop, values.data@);
    proof {
        assert(keys_of(vrs(o)) =~= keys_of(o));
        if bound(keys_of(o), k) { assert(kat(keys_of(o), k, slot(keys_of(o), k))); }
    }
//@ after "if let Some(node_values)"
    proof {
        if bound(keys_of(o), k) { let i = slot(keys_of(o), k); assert(vms(self.0.v@[i].1.data@) =~= vms(o[i].1.data@) + vms(xs)); }
        assert(vrs(self.0.v@) =~= put(vrs(o), k, vms(xs)));
    }
//@ end
}

impl<T, B> Node<T, B> {
//@ extract fn impl Node > types_mut from crates/core/src/object/node/mod.rs
//@ subst Some(entry) => entry, %> Some(entry) => entry.as_mut_slice(),
//@ subst &mut [] %> vx_none()
//@ ret r
//@ spec
    ensures r@ == (match old(self).types { Some(t) => t@, None => Seq::empty() }), *final(self) == (Node { types: final(self).types, ..*old(self) }),
        final(self).types is Some == old(self).types is Some, old(self).types is Some ==> final(self).types->0@ == final(r)@,
//@ end

//@ extract fn impl Node > graph_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).graph == Some(*g) && *final(self) == (Node { graph: Some(*final(g)), ..*old(self) }),
        None => old(self).graph is None && *final(self) == *old(self),
    },
//@ end

//@ extract fn impl Node > included_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).included == Some(*g) && *final(self) == (Node { included: Some(*final(g)), ..*old(self) }),
        None => old(self).included is None && *final(self) == *old(self),
    },
//@ end

//@ extract fn impl Node > reverse_properties_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures match r {
        Some(g) => old(self).reverse_properties == Some(*g) && *final(self) == (Node { reverse_properties: Some(*final(g)), ..*old(self) }),
        None => old(self).reverse_properties is None && *final(self) == *old(self),
    },
//@ end

//@ extract fn impl Node > properties_mut from crates/core/src/object/node/mod.rs
//@ ret r
//@ spec
    ensures *r == old(self).properties, *final(self) == (Node { properties: *final(r), ..*old(self) }),
//@ end
}
#[verifier::external_body]
fn vx_none<'a, T>() -> (r: &'a mut [T]) ensures r@ == Seq::<T>::empty() { unimplemented!() }
pub trait VxIds<T, B> {
    spec fn ids(&self) -> Seq<Id<T, B>>;
    fn vx_len(&self) -> (r: usize) ensures r == self.ids().len();
    fn vx_at(&mut self, k: usize) -> (r: &mut Id<T, B>)
        requires k < old(self).ids().len(),
        ensures *r == old(self).ids()[k as int], final(self).ids() == old(self).ids().update(k as int, *final(r));
}
impl<T, B> VxIds<T, B> for [Id<T, B>] {
    open spec fn ids(&self) -> Seq<Id<T, B>> { self@ }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_at(&mut self, k: usize) -> (r: &mut Id<T, B>) { &mut self[k] }
}

impl<T: Clone + Eq + Hash, B: Clone + Eq + Hash> Indexed<Object<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn relabel_with<V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(&mut self, vocabulary: &mut V, generator: &mut G, relabeling: &mut HashMap<B, ValidId<T, B>>)
        ensures final(self).index == old(self).index, (rst(*final(relabeling), *final(generator), *final(vocabulary)), vi(*final(self)).value) == rvo(rst(*old(relabeling), *old(generator), *old(vocabulary)), vi(*old(self)).value),
    { self.value.relabel_with(vocabulary, generator, relabeling) }
}
impl<T: Clone + Eq + Hash, B: Clone + Eq + Hash> Indexed<Node<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn relabel_with<V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(&mut self, vocabulary: &mut V, generator: &mut G, relabeling: &mut HashMap<B, ValidId<T, B>>)
        ensures final(self).index == old(self).index, (rst(*final(relabeling), *final(generator), *final(vocabulary)), vm(*final(self)).value) == rvo(rst(*old(relabeling), *old(generator), *old(vocabulary)), vm(*old(self)).value),
    { self.value.relabel_with(vocabulary, generator, relabeling) }
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Object<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn identify_all_with<V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(&mut self, vocabulary: &mut V, generator: &mut G)
        ensures final(self).index == old(self).index, (ist(*final(generator), *final(vocabulary)), vi(*final(self)).value) == rvo(ist(*old(generator), *old(vocabulary)), vi(*old(self)).value),
    { self.value.identify_all_with(vocabulary, generator) }
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Node<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn identify_all_with<V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(&mut self, vocabulary: &mut V, generator: &mut G)
        ensures final(self).index == old(self).index, (ist(*final(generator), *final(vocabulary)), vm(*final(self)).value) == rvo(ist(*old(generator), *old(vocabulary)), vm(*old(self)).value),
    { self.value.identify_all_with(vocabulary, generator) }
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Object<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn canonicalize_with(&mut self, buffer: &mut Buffer)
        ensures final(self).index == old(self).index, vi(*final(self)).value == cvo(vi(*old(self)).value),
    { self.value.canonicalize_with(buffer) }
}
impl<T: Eq + Hash, B: Eq + Hash> Indexed<Node<T, B>> {
    /// through `DerefMut`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn canonicalize_with(&mut self, buffer: &mut Buffer)
        ensures final(self).index == old(self).index, vm(*final(self)).value == cvo(vm(*old(self)).value),
    { self.value.canonicalize_with(buffer) }
}

//@ extract fn relabel_property from crates/core/src/object/node/mod.rs
//@ subst hashbrown::HashMap<B, Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ call cloned => vx_cloned($0)
//@ desugar entry.or_insert_with
//@ spec
    ensures (rst(*final(relabeling), *final(generator), *final(vocabulary)), *final(property)) == rid(rst(*old(relabeling), *old(generator), *old(vocabulary)), *old(property)),
//@ start
    broadcast use put_again;
//@ end

impl<T, B> Node<T, B> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Relabel<T, B> for Node > relabel_with from crates/core/src/object/node/mod.rs
//@ subst hashbrown::HashMap<B, Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ call cloned => vx_cloned($0)
//@ desugar entry.or_insert_with
//@ subst std::mem::take( => vx_take(
//@ spec
    ensures (rst(*final(relabeling), *final(generator), *final(vocabulary)), vn(*final(self))) == rvn(rst(*old(relabeling), *old(generator), *old(vocabulary)), vn(*old(self))),
//@ start
    broadcast use vn_is, vis_push, vms_push, put_again;
    let ghost n0 = *self;
    let ghost s0 = rst(*relabeling, *generator, *vocabulary);
//@ after "self.id ="
    let ghost s1 = rst(*relabeling, *generator, *vocabulary);
    let ghost n1 = *self;
    let ghost ts = match n1.types { Some(t) => t@, None => Seq::empty() };
    assert((s1, n1.id) == rnid(s0, n0.id));
//@ desugar-for-mut 0 vx_t
    invariant *self == (Node { types: self.types, ..n1 }), self.types is Some == n1.types is Some, n1.types is None ==> ts.len() == 0 && vx_t == 0,
        0 <= vx_t <= ts.len(), self.types is Some ==> tail_from(self.types->0@, ts, vx_t as int),
        rids(s1, ts, vx_t as nat).0 == rst(*relabeling, *generator, *vocabulary), self.types is Some ==> rids(s1, ts, vx_t as nat).1 =~= self.types->0@.take(vx_t as int),
    decreases ts.len() - vx_t,
//@ before "if let Some(graph)"
    let ghost s2 = rst(*relabeling, *generator, *vocabulary);
    let ghost n2 = *self;
    let ghost gs = match n1.graph { Some(t) => t.v@, None => Seq::empty() };
    proof { if n2.types is Some { assert(n2.types->0@.take(ts.len() as int) =~= n2.types->0@); } }
//@ desugar-collect 0 Graph::<T,B>::new() insert
    invariant vx_ci.v@ == gs, 0 <= vx_ci.at@ <= gs.len(), rseq(s2, vis(gs), vx_ci.at@ as nat, true) == (rst(*relabeling, *generator, *vocabulary), vis(vx_c.v@)),
    ensures vx_ci.at@ == gs.len(), rseq(s2, vis(gs), gs.len(), true) == (rst(*relabeling, *generator, *vocabulary), vis(vx_c.v@)),
    decreases gs.len() - vx_ci.at@,

//@ before "if let Some(included)"
    let ghost s3 = rst(*relabeling, *generator, *vocabulary);
    let ghost n3 = *self;
    let ghost ms = match n1.included { Some(t) => t.v@, None => Seq::empty() };
//@ desugar-collect 1 Included::<T,B>::new() insert
    invariant vx_ci.v@ == ms, 0 <= vx_ci.at@ <= ms.len(), rseq(s3, vms(ms), vx_ci.at@ as nat, true) == (rst(*relabeling, *generator, *vocabulary), vms(vx_c.v@)),
    ensures vx_ci.at@ == ms.len(), rseq(s3, vms(ms), ms.len(), true) == (rst(*relabeling, *generator, *vocabulary), vms(vx_c.v@)),
    decreases ms.len() - vx_ci.at@,

//@ after "if let Some(included)"
    let ghost s4 = rst(*relabeling, *generator, *vocabulary);
    let ghost n4 = *self;
    let ghost ps = n1.properties.0.v@;
//@ desugar-for 1 it
    invariant it.v@ == ps, 0 <= it.at@ <= ps.len(), *self == (Node { properties: self.properties, ..n4 }), rprops(s4, vps(ps), it.at@ as nat) == (rst(*relabeling, *generator, *vocabulary), vps(self.properties.0.v@)),
    ensures it.at@ == ps.len(),
    decreases ps.len() - it.at@,
//@ before "relabel_property" #0
    let ghost os = objects.data@;
//@ after "relabel_property" #0
    let ghost s41 = rst(*relabeling, *generator, *vocabulary);
//@ desugar-for-mut 2 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(objects.data@, os, vx_i as int), rseq(s41, vis(os), vx_i as nat, false) == (rst(*relabeling, *generator, *vocabulary), vis(objects.data@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 2 body-end
    proof { assert(objects.data@.take(vx_i + 1) =~= objects.data@.take(vx_i as int).push(objects.data@[vx_i as int])); }

//@ before "self.properties.insert_all"
    proof { assert(objects.data@.take(os.len() as int) =~= objects.data@); }
//@ before "if let Some(reverse_properties)"
    let ghost s5 = rst(*relabeling, *generator, *vocabulary);
    let ghost n5 = *self;
    let ghost rs = match n1.reverse_properties { Some(t) => t.0.v@, None => Seq::empty() };
//@ desugar-for 3 it
    invariant it.v@ == rs, 0 <= it.at@ <= rs.len(), rprops(s5, vrs(rs), it.at@ as nat) == (rst(*relabeling, *generator, *vocabulary), vrs(reverse_properties.0.v@)),
    ensures it.at@ == rs.len(),
    decreases rs.len() - it.at@,
//@ before "relabel_property" #1
    let ghost os = nodes.data@;
//@ after "relabel_property" #1
    let ghost s51 = rst(*relabeling, *generator, *vocabulary);
//@ desugar-for-mut 4 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(nodes.data@, os, vx_i as int), rseq(s51, vms(os), vx_i as nat, false) == (rst(*relabeling, *generator, *vocabulary), vms(nodes.data@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 4 body-end
    proof { assert(nodes.data@.take(vx_i + 1) =~= nodes.data@.take(vx_i as int).push(nodes.data@[vx_i as int])); }

//@ before "reverse_properties.insert_all"
    proof { assert(nodes.data@.take(os.len() as int) =~= nodes.data@); }
//@ end
}

impl<T, B> List<T, B> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Relabel<T, B> for List > relabel_with from crates/core/src/object/list.rs
//@ subst hashbrown::HashMap<B, Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ call cloned => vx_cloned($0)
//@ desugar entry.or_insert_with
//@ spec
    ensures (rst(*final(relabeling), *final(generator), *final(vocabulary)), vis(final(self).entry@)) == rseq(rst(*old(relabeling), *old(generator), *old(vocabulary)), vis(old(self).entry@), old(self).entry@.len(), false),
//@ start
    broadcast use vis_push;
    let ghost os = self.entry@;
    let ghost s0 = rst(*relabeling, *generator, *vocabulary);
//@ desugar-for-mut 0 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(self.entry@, os, vx_i as int), rseq(s0, vis(os), vx_i as nat, false) == (rst(*relabeling, *generator, *vocabulary), vis(self.entry@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 0 body-end
    proof { assert(self.entry@.take(vx_i + 1) =~= self.entry@.take(vx_i as int).push(self.entry@[vx_i as int])); }

//@ after "for object"
    proof { assert(self.entry@.take(os.len() as int) =~= self.entry@); }
//@ end
}
impl<T, B> Object<T, B> {
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn impl Relabel<T, B> for Object > relabel_with from crates/core/src/object/mod.rs
//@ subst hashbrown::HashMap<B, Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ call cloned => vx_cloned($0)
//@ desugar entry.or_insert_with
//@ spec
    ensures (rst(*final(relabeling), *final(generator), *final(vocabulary)), vo(*final(self))) == rvo(rst(*old(relabeling), *old(generator), *old(vocabulary)), vo(*old(self))),
//@ start
    broadcast use vo_list, vis_push;
//@ end
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Object > identify_all_with from crates/core/src/object/mod.rs
//@ spec
    ensures (ist(*final(generator), *final(vocabulary)), vo(*final(self))) == rvo(ist(*old(generator), *old(vocabulary)), vo(*old(self))),
//@ start
    broadcast use vo_list, vis_push;
    let ghost os = if *self is List { (*self)->List_0.entry@ } else { Seq::empty() };
    let ghost s0 = ist(*generator, *vocabulary);
//@ desugar-for-mut 0 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(l.entry@, os, vx_i as int), rseq(s0, vis(os), vx_i as nat, false) == (ist(*generator, *vocabulary), vis(l.entry@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 0 body-end
    proof { assert(l.entry@.take(vx_i + 1) =~= l.entry@.take(vx_i as int).push(l.entry@[vx_i as int])); }

//@ after "for object"
    proof { assert(l.entry@.take(os.len() as int) =~= l.entry@); }
//@ end
}
impl<T, B> Node<T, B> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Node > identify_all_with from crates/core/src/object/node/mod.rs
//@ subst std::mem::take( => vx_take(
//@ subst reverse_properties.iter_mut() => reverse_properties
//@ spec
    ensures (ist(*final(generator), *final(vocabulary)), vn(*final(self))) == rvn(ist(*old(generator), *old(vocabulary)), vn(*old(self))),
//@ start
    broadcast use vn_is, vis_push, vms_push;
    let ghost n0 = *self;
    let ghost s0: St<T, B, V, G> = ist(*generator, *vocabulary);
//@ before "if let Some(graph)"
    let ghost s2 = ist(*generator, *vocabulary);
    let ghost n2 = *self;
    let ghost gs = match n0.graph { Some(t) => t.v@, None => Seq::empty() };
    assert((s2, n2.id) == rnid(s0, n0.id));
//@ desugar-collect 0 Graph::<T,B>::new() insert
    invariant vx_ci.v@ == gs, 0 <= vx_ci.at@ <= gs.len(), rseq(s2, vis(gs), vx_ci.at@ as nat, true) == (ist(*generator, *vocabulary), vis(vx_c.v@)),
    ensures vx_ci.at@ == gs.len(), rseq(s2, vis(gs), gs.len(), true) == (ist(*generator, *vocabulary), vis(vx_c.v@)),
    decreases gs.len() - vx_ci.at@,

//@ before "if let Some(included)"
    let ghost s3 = ist(*generator, *vocabulary);
    let ghost n3 = *self;
    let ghost ms = match n0.included { Some(t) => t.v@, None => Seq::empty() };
//@ desugar-collect 1 Included::<T,B>::new() insert
    invariant vx_ci.v@ == ms, 0 <= vx_ci.at@ <= ms.len(), rseq(s3, vms(ms), vx_ci.at@ as nat, true) == (ist(*generator, *vocabulary), vms(vx_c.v@)),
    ensures vx_ci.at@ == ms.len(), rseq(s3, vms(ms), ms.len(), true) == (ist(*generator, *vocabulary), vms(vx_c.v@)),
    decreases ms.len() - vx_ci.at@,

//@ after "if let Some(included)"
    let ghost s4 = ist(*generator, *vocabulary);
    let ghost n4 = *self;
    let ghost ps = n0.properties.0.v@;
//@ desugar-for-mut 0 vx_p
    invariant 0 <= vx_p <= ps.len(), *self == (Node { properties: self.properties, ..n4 }), tail_from(self.properties.0.v@, ps, vx_p as int),
        rprops(s4, vps(ps), vx_p as nat) == (ist(*generator, *vocabulary), vps(self.properties.0.v@.take(vx_p as int))),
    decreases ps.len() - vx_p,
body:
    let ghost s41 = ist(*generator, *vocabulary);
    let ghost before = self.properties.0.v@;
    let ghost os = before[vx_p as int].1.data@;
//@ desugar-for-mut 1 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(objects.data@, os, vx_i as int), rseq(s41, vis(os), vx_i as nat, false) == (ist(*generator, *vocabulary), vis(objects.data@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 1 body-end
    proof { assert(objects.data@.take(vx_i + 1) =~= objects.data@.take(vx_i as int).push(objects.data@[vx_i as int])); }

//@ loop 0 body-end
    proof {
        let now = self.properties.0.v@;
        assert(now[vx_p as int].1.data@.take(os.len() as int) =~= now[vx_p as int].1.data@);
        assert(vps(now.take(vx_p + 1)) =~= vps(before.take(vx_p as int)).push((now[vx_p as int].0, vis(now[vx_p as int].1.data@))));
    }
//@ after "for (_, objects)"
    let ghost s5 = ist(*generator, *vocabulary);
    let ghost n5 = *self;
    let ghost rs = match n0.reverse_properties { Some(t) => t.0.v@, None => Seq::empty() };
    proof { assert(self.properties.0.v@.take(ps.len() as int) =~= self.properties.0.v@); }
//@ desugar-for-mut 2 vx_p
    invariant 0 <= vx_p <= rs.len(), tail_from(reverse_properties.0.v@, rs, vx_p as int),
        rprops(s5, vrs(rs), vx_p as nat) == (ist(*generator, *vocabulary), vrs(reverse_properties.0.v@.take(vx_p as int))),
    decreases rs.len() - vx_p,
body:
    let ghost s51 = ist(*generator, *vocabulary);
    let ghost before = reverse_properties.0.v@;
    let ghost os = before[vx_p as int].1.data@;
//@ desugar-for-mut 3 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(nodes.data@, os, vx_i as int), rseq(s51, vms(os), vx_i as nat, false) == (ist(*generator, *vocabulary), vms(nodes.data@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 3 body-end
    proof { assert(nodes.data@.take(vx_i + 1) =~= nodes.data@.take(vx_i as int).push(nodes.data@[vx_i as int])); }

//@ loop 2 body-end
    proof {
        let now = reverse_properties.0.v@;
        assert(now[vx_p as int].1.data@.take(os.len() as int) =~= now[vx_p as int].1.data@);
        assert(vrs(now.take(vx_p + 1)) =~= vrs(before.take(vx_p as int)).push((now[vx_p as int].0, vms(now[vx_p as int].1.data@))));
    }
//@ after "for (_, nodes)"
    proof { assert(reverse_properties.0.v@.take(rs.len() as int) =~= reverse_properties.0.v@); }
//@ end
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Node > canonicalize_with from crates/core/src/object/node/mod.rs
//@ subst std::mem::take( => vx_take(
//@ subst reverse_properties.iter_mut() => reverse_properties
//@ spec
    ensures vn(*final(self)) == cvn(vn(*old(self))),
//@ start
    broadcast use vn_is, vis_push, vms_push;
    let ghost n0 = *self;
//@ before "if let Some(graph)"
    let ghost n2 = *self;
    let ghost gs = match n0.graph { Some(t) => t.v@, None => Seq::empty() };
//@ desugar-collect 0 Graph::<T,B>::new() insert
    invariant vx_ci.v@ == gs, 0 <= vx_ci.at@ <= gs.len(), cseq(vis(gs), vx_ci.at@ as nat, true) == vis(vx_c.v@),
    ensures vx_ci.at@ == gs.len(), cseq(vis(gs), gs.len(), true) == vis(vx_c.v@),
    decreases gs.len() - vx_ci.at@,

//@ before "if let Some(included)"
    let ghost n3 = *self;
    let ghost ms = match n0.included { Some(t) => t.v@, None => Seq::empty() };
//@ desugar-collect 1 Included::<T,B>::new() insert
    invariant vx_ci.v@ == ms, 0 <= vx_ci.at@ <= ms.len(), cseq(vms(ms), vx_ci.at@ as nat, true) == vms(vx_c.v@),
    ensures vx_ci.at@ == ms.len(), cseq(vms(ms), ms.len(), true) == vms(vx_c.v@),
    decreases ms.len() - vx_ci.at@,

//@ after "if let Some(included)"
    let ghost n4 = *self;
    let ghost ps = n0.properties.0.v@;
//@ desugar-for-mut 0 vx_p
    invariant 0 <= vx_p <= ps.len(), *self == (Node { properties: self.properties, ..n4 }), tail_from(self.properties.0.v@, ps, vx_p as int),
        cprops(vps(ps), vx_p as nat) == vps(self.properties.0.v@.take(vx_p as int)),
    decreases ps.len() - vx_p,
body:
    let ghost before = self.properties.0.v@;
    let ghost os = before[vx_p as int].1.data@;
//@ desugar-for-mut 1 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(objects.data@, os, vx_i as int), cseq(vis(os), vx_i as nat, false) == vis(objects.data@.take(vx_i as int)),
    decreases os.len() - vx_i,
//@ loop 1 body-end
    proof { assert(objects.data@.take(vx_i + 1) =~= objects.data@.take(vx_i as int).push(objects.data@[vx_i as int])); }

//@ loop 0 body-end
    proof {
        let now = self.properties.0.v@;
        assert(now[vx_p as int].1.data@.take(os.len() as int) =~= now[vx_p as int].1.data@);
        assert(vps(now.take(vx_p + 1)) =~= vps(before.take(vx_p as int)).push((now[vx_p as int].0, vis(now[vx_p as int].1.data@))));
    }
//@ after "for (_, objects)"
    let ghost n5 = *self;
    let ghost rs = match n0.reverse_properties { Some(t) => t.0.v@, None => Seq::empty() };
    proof { assert(self.properties.0.v@.take(ps.len() as int) =~= self.properties.0.v@); }
//@ desugar-for-mut 2 vx_p
    invariant 0 <= vx_p <= rs.len(), tail_from(reverse_properties.0.v@, rs, vx_p as int),
        cprops(vrs(rs), vx_p as nat) == vrs(reverse_properties.0.v@.take(vx_p as int)),
    decreases rs.len() - vx_p,
body:
    let ghost before = reverse_properties.0.v@;
    let ghost os = before[vx_p as int].1.data@;
//@ desugar-for-mut 3 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(nodes.data@, os, vx_i as int), cseq(vms(os), vx_i as nat, false) == vms(nodes.data@.take(vx_i as int)),
    decreases os.len() - vx_i,
//@ loop 3 body-end
    proof { assert(nodes.data@.take(vx_i + 1) =~= nodes.data@.take(vx_i as int).push(nodes.data@[vx_i as int])); }

//@ loop 2 body-end
    proof {
        let now = reverse_properties.0.v@;
        assert(now[vx_p as int].1.data@.take(os.len() as int) =~= now[vx_p as int].1.data@);
        assert(vrs(now.take(vx_p + 1)) =~= vrs(before.take(vx_p as int)).push((now[vx_p as int].0, vms(now[vx_p as int].1.data@))));
    }
//@ after "for (_, nodes)"
    proof { assert(reverse_properties.0.v@.take(rs.len() as int) =~= reverse_properties.0.v@); }
//@ end
}

impl<T, B> List<T, B> {
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl List > canonicalize_with from crates/core/src/object/list.rs
//@ spec
    ensures vis(final(self).entry@) == cseq(vis(old(self).entry@), old(self).entry@.len(), false),
//@ start
    broadcast use vis_push;
    let ghost os = self.entry@;
//@ desugar-for-mut 0 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(self.entry@, os, vx_i as int), cseq(vis(os), vx_i as nat, false) == vis(self.entry@.take(vx_i as int)),
    decreases os.len() - vx_i,
//@ loop 0 body-end
    proof { assert(self.entry@.take(vx_i + 1) =~= self.entry@.take(vx_i as int).push(self.entry@[vx_i as int])); }

//@ after "for object"
    proof { assert(self.entry@.take(os.len() as int) =~= self.entry@); }
//@ end
}
impl<T, B> Object<T, B> {
#[verifier::exec_allows_no_decreases_clause]
//@ extract fn impl Object > canonicalize_with from crates/core/src/object/mod.rs
//@ spec
    ensures vo(*final(self)) == cvo(vo(*old(self))),
//@ start
    broadcast use vo_list;
//@ end
}

impl<T: Eq + Hash, B: Eq + Hash> ExpandedDocument<T, B> {

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl ExpandedDocument > relabel_with from crates/core/src/document/expanded.rs
//@ subst std::mem::take( => vx_take(
//@ spec
    ensures ends(rseq(St { re: true, m: Map::<B, ValidId<T, B>>::empty(), g: *old(generator), v: *old(vocabulary) }, vis(old(self).0.v@), old(self).0.v@.len(), true), vis(final(self).0.v@), *final(generator), *final(vocabulary)),
//@ start
    let ghost xs = self.0.v@;
//@ after "let objects"
    let ghost s0 = St { re: true, m: Map::<B, ValidId<T, B>>::empty(), g: *generator, v: *vocabulary };
//@ desugar-for 0 it
    invariant it.v@ == xs, 0 <= it.at@ <= xs.len(), rseq(s0, vis(xs), it.at@ as nat, true) == (rst(relabeling, *generator, *vocabulary), vis(self.0.v@)),
    ensures it.at@ == xs.len(),
    decreases xs.len() - it.at@,
//@ end

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl ExpandedDocument > relabel_and_canonicalize_with from crates/core/src/document/expanded.rs
//@ subst std::mem::take( => vx_take(
//@ spec
    ensures ends(rcseq(St { re: true, m: Map::<B, ValidId<T, B>>::empty(), g: *old(generator), v: *old(vocabulary) }, vis(old(self).0.v@), old(self).0.v@.len()), vis(final(self).0.v@), *final(generator), *final(vocabulary)),
//@ start
    let ghost xs = self.0.v@;
//@ after "let objects"
    let ghost s0 = St { re: true, m: Map::<B, ValidId<T, B>>::empty(), g: *generator, v: *vocabulary };
//@ desugar-for 0 it
    invariant it.v@ == xs, 0 <= it.at@ <= xs.len(), rcseq(s0, vis(xs), it.at@ as nat) == (rst(relabeling, *generator, *vocabulary), vis(self.0.v@)),
    ensures it.at@ == xs.len(),
    decreases xs.len() - it.at@,
//@ end

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl ExpandedDocument > identify_all_with from crates/core/src/document/expanded.rs
//@ subst std::mem::take( => vx_take(
//@ spec
    ensures (ist(*final(generator), *final(vocabulary)), vis(final(self).0.v@)) == rseq(ist(*old(generator), *old(vocabulary)), vis(old(self).0.v@), old(self).0.v@.len(), true),
//@ start
    let ghost xs = self.0.v@;
//@ after "let objects"
    let ghost s0 = ist(*generator, *vocabulary);
//@ desugar-for 0 it
    invariant it.v@ == xs, 0 <= it.at@ <= xs.len(), rseq(s0, vis(xs), it.at@ as nat, true) == (ist(*generator, *vocabulary), vis(self.0.v@)),
    ensures it.at@ == xs.len(),
    decreases xs.len() - it.at@,
//@ end

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl ExpandedDocument > canonicalize_with from crates/core/src/document/expanded.rs
//@ subst std::mem::take( => vx_take(
//@ spec
    ensures vis(final(self).0.v@) == cseq(vis(old(self).0.v@), old(self).0.v@.len(), true),
//@ start
    let ghost xs = self.0.v@;
//@ after "let objects"

//@ desugar-for 0 it
    invariant it.v@ == xs, 0 <= it.at@ <= xs.len(), cseq(vis(xs), it.at@ as nat, true) == vis(self.0.v@),
    ensures it.at@ == xs.len(),
    decreases xs.len() - it.at@,
//@ end

}
pub open spec fn ends<T, B, V, G>(r: (St<T, B, V, G>, VS<T, B>), xs: VS<T, B>, g: G, v: V) -> bool { r.1 == xs && r.0.g == g && r.0.v == v }
pub type FlattenedDocument<T, B> = Vec<IndexedNode<T, B>>;
pub trait VxNodes<T, B> {
    spec fn nodes(&self) -> Seq<IndexedNode<T, B>>;
    fn vx_len(&self) -> (r: usize) ensures r == self.nodes().len();
    fn vx_at(&mut self, k: usize) -> (r: &mut IndexedNode<T, B>)
        requires k < old(self).nodes().len(),
        ensures *r == old(self).nodes()[k as int], final(self).nodes() == old(self).nodes().update(k as int, *final(r));
}
impl<T, B> VxNodes<T, B> for Vec<IndexedNode<T, B>> {
    open spec fn nodes(&self) -> Seq<IndexedNode<T, B>> { self@ }
    fn vx_len(&self) -> (r: usize) { self.len() }
    fn vx_at(&mut self, k: usize) -> (r: &mut IndexedNode<T, B>) { &mut self[k] }
}
pub trait OfNodes<T, B>: Sized {
    spec fn says(self) -> VS<T, B>;
    fn identify_all_with<V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(&mut self, vocabulary: &mut V, generator: &mut G) where T: Eq + Hash, B: Eq + Hash
        ensures (ist(*final(generator), *final(vocabulary)), final(self).says()) == rseq(ist(*old(generator), *old(vocabulary)), old(self).says(), old(self).says().len(), false);
    fn relabel_with<N: Vocabulary<Iri = T, BlankId = B>, G: Generator<N>>(&mut self, vocabulary: &mut N, generator: &mut G, relabeling: &mut HashMap<B, ValidId<T, B>>) where T: Clone + Eq + Hash, B: Clone + Eq + Hash
        ensures (rst(*final(relabeling), *final(generator), *final(vocabulary)), final(self).says()) == rseq(rst(*old(relabeling), *old(generator), *old(vocabulary)), old(self).says(), old(self).says().len(), false);
}
impl<T, B> OfNodes<T, B> for FlattenedDocument<T, B> {
    open spec fn says(self) -> VS<T, B> { vms(self@) }

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl IdentifyAll<T, B> for FlattenedDocument > identify_all_with from crates/core/src/document/flattened.rs
//@ subst hashbrown::HashMap<B, rdf_types::Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ start
    broadcast use vms_push;
    let ghost os = self@;
    let ghost s0 = ist(*generator, *vocabulary);
//@ desugar-for-mut 0 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(self@, os, vx_i as int), rseq(s0, vms(os), vx_i as nat, false) == (ist(*generator, *vocabulary), vms(self@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 0 body-end
    proof { assert(self@.take(vx_i + 1) =~= self@.take(vx_i as int).push(self@[vx_i as int])); }

//@ after "for node"
    proof { assert(self@.take(os.len() as int) =~= self@); }
//@ end

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ extract fn impl Relabel<T, B> for FlattenedDocument > relabel_with from crates/core/src/document/flattened.rs
//@ subst hashbrown::HashMap<B, rdf_types::Subject<T, B>> => HashMap<B, ValidId<T, B>>
//@ start
    broadcast use vms_push;
    let ghost os = self@;
    let ghost s0 = rst(*relabeling, *generator, *vocabulary);
//@ desugar-for-mut 0 vx_i
    invariant 0 <= vx_i <= os.len(), tail_from(self@, os, vx_i as int), rseq(s0, vms(os), vx_i as nat, false) == (rst(*relabeling, *generator, *vocabulary), vms(self@.take(vx_i as int))),
    decreases os.len() - vx_i,
//@ loop 0 body-end
    proof { assert(self@.take(vx_i + 1) =~= self@.take(vx_i as int).push(self@[vx_i as int])); }

//@ after "for node"
    proof { assert(self@.take(os.len() as int) =~= self@); }
//@ end

}
// ---- a blank node has one label, wherever it occurs -----------------------------------------------------
pub open spec fn kept<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, t: St<T, B, V, G>) -> bool { t.re == s.re && forall|b: B| s.m.contains_key(b) ==> #[trigger] t.m.contains_key(b) && t.m[b] == s.m[b] }
proof fn kept_on<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, t: St<T, B, V, G>, u: St<T, B, V, G>)
    requires kept(s, t), kept(t, u),
    ensures kept(s, u),
{ assert forall|b: B| s.m.contains_key(b) implies u.m.contains_key(b) by { assert(t.m.contains_key(b)); assert(u.m.contains_key(b)); } assert forall|b: B| s.m.contains_key(b) implies u.m[b] == s.m[b] by { assert(t.m.contains_key(b)); assert(t.m[b] == s.m[b]); assert(u.m.contains_key(b)); assert(u.m[b] == t.m[b]); } }
proof fn rids_keep<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, xs: Seq<Id<T, B>>, k: nat)
    ensures kept(s, rids(s, xs, k).0),
    decreases k,
{ if k > 0 { rids_keep(s, xs, (k - 1) as nat); } }
proof fn rvo_keeps<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, o: VO<T, B>)
    ensures kept(s, rvo(s, o).0),
    decreases o, 1int, 0nat,
{ match o { VO::List(l) => rseq_keeps(s, l, l.len(), false), VO::Node(n) => rvn_keeps(s, n), _ => {} } }
proof fn rseq_keeps<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, xs: VS<T, B>, k: nat, set: bool)
    ensures kept(s, rseq(s, xs, k, set).0),
    decreases xs, 0int, k,
{ if 0 < k <= xs.len() { rseq_keeps(s, xs, (k - 1) as nat, set); rvo_keeps(rseq(s, xs, (k - 1) as nat, set).0, xs[k - 1].value); } }
proof fn rprops_keep<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, ps: VP<T, B>, k: nat)
    ensures kept(s, rprops(s, ps, k).0),
    decreases ps, 0int, k,
{
    if 0 < k <= ps.len() {
        rprops_keep(s, ps, (k - 1) as nat);
        let t = rprops(s, ps, (k - 1) as nat).0;
        rseq_keeps(rid(t, ps[k - 1].0).0, ps[k - 1].1, ps[k - 1].1.len(), false);
    }
}
/// labels once given are never changed: every later occurrence of the blank node gets the same
proof fn rvn_keeps<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, n: VN<T, B>)
    ensures kept(s, rvn(s, n).0),
    decreases n, 1int, 0nat,
{
    let (s1, id) = rnid(s, n.id);
    let s2 = match n.types { Some(t) if s.re => { rids_keep(s1, t, t.len()); rids(s1, t, t.len()).0 }, t => s1 };
    let s3 = match n.graph { Some(g) => { rseq_keeps(s2, g, g.len(), true); rseq(s2, g, g.len(), true).0 }, None => s2 };
    let s4 = match n.included { Some(g) => { rseq_keeps(s3, g, g.len(), true); rseq(s3, g, g.len(), true).0 }, None => s3 };
    rprops_keep(s4, n.props, n.props.len());
    let s5 = rprops(s4, n.props, n.props.len()).0;
    let s6 = match n.rev { Some(r) => { rprops_keep(s5, r, r.len()); rprops(s5, r, r.len()).0 }, None => s5 };
    assert(kept(s, s1)); assert(kept(s1, s2)); assert(kept(s2, s3)); assert(kept(s3, s4)); assert(kept(s4, s5)); assert(kept(s5, s6));
    assert(rvn(s, n).0 == s6);
    kept_on(s, s1, s2); kept_on(s, s2, s3); kept_on(s, s3, s4); kept_on(s, s4, s5); kept_on(s, s5, s6);
}
/// the identifier a blank node gets is its label, from then on
proof fn one_label<T, B, V: Vocabulary<Iri = T, BlankId = B>, G: Generator<V>>(s: St<T, B, V, G>, b: B, t: St<T, B, V, G>)
    requires s.re, kept(label(s, b).0, t),
    ensures rid(s, Id::Valid(ValidId::Blank(b))).1 == Id::<T, B>::Valid(t.m[b]), rid(t, Id::Valid(ValidId::Blank(b))) == (t, Id::<T, B>::Valid(t.m[b])),
{ assert(label(s, b).0.m.contains_key(b)); assert(t.m.contains_key(b)); }


fn main() {}
}