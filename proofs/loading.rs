//! P21: loaders and remote documents: what each loader answers, what a remote document keeps, which texts are profiles
use vstd::prelude::*;
use core::hash::Hash;
verus! {
//@ vacuity-decls
#[verifier::external_body] pub struct Iri { x: String }
#[verifier::external_body] pub struct IriBuf { x: String }
#[verifier::external_body] pub struct JsValue { x: String }
#[verifier::external_body] pub struct Mime { x: String }
#[verifier::external_body] pub struct LoadErrorCause { x: String }
#[verifier::external_body] pub struct PathBuf { x: String }
#[verifier::external_body] pub struct IoError { x: String }
#[verifier::external_body] pub struct JsParseError { x: String }
#[verifier::external_body] pub struct JsKind { x: String }
#[verifier::external_body] pub struct LdContext { x: String }
#[verifier::external_body] pub struct InvalidContext { x: String }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { x: Vec<T> }
/// the text of an IRI
pub uninterp spec fn itext(i: Iri) -> Seq<char>;
/// the IRI an owned IRI holds
pub uninterp spec fn held(i: IriBuf) -> Iri;
/// assumed: an IRI is its text, an owned IRI the IRI it holds
pub broadcast axiom fn iri_ext(a: Iri, b: Iri) ensures #[trigger] itext(a) == #[trigger] itext(b) ==> a == b;
pub broadcast axiom fn buf_ext(a: IriBuf, b: IriBuf) ensures #[trigger] held(a) == #[trigger] held(b) ==> a == b;
impl Iri {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: IriBuf) ensures held(r) == *self { unimplemented!() }
}
impl Clone for IriBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
fn vx_iri(s: &'static str) -> (r: &'static Iri) ensures itext(*r) == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_same(a: &Iri, b: &Iri) -> (r: bool) ensures r == (itext(*a) == itext(*b)) { unimplemented!() }
#[verifier::external_body]
fn vx_deref(a: &IriBuf) -> (r: &Iri) ensures *r == held(*a) { unimplemented!() }

// ---- profiles --------------------------------------------------------------------------------------------------------
//@ extract enum StandardProfile from crates/core/src/loader/mod.rs
//@ end
pub open spec fn address(p: StandardProfile) -> Seq<char> {
    match p {
        StandardProfile::Expanded => "http://www.w3.org/ns/json-ld#expanded"@,
        StandardProfile::Compacted => "http://www.w3.org/ns/json-ld#compacted"@,
        StandardProfile::Context => "http://www.w3.org/ns/json-ld#context"@,
        StandardProfile::Flattened => "http://www.w3.org/ns/json-ld#flattened"@,
        StandardProfile::Framed => "http://www.w3.org/ns/json-ld#framed"@,
    }
}
/// the standard profile with that address, if there is one
pub open spec fn is_standard(t: Seq<char>, r: Option<StandardProfile>) -> bool {
    match r { Some(p) => address(p) == t, None => forall|p: StandardProfile| #[trigger] address(p) != t }
}
impl StandardProfile {
//@ extract fn impl StandardProfile > from_iri from crates/core/src/loader/mod.rs
//@ ret r
//@ subst iri == iri!(" => vx_same(iri, vx_iri("
//@ subst ") { => ")) {
//@ spec
    ensures is_standard(itext(*iri), r),
//@ end
//@ extract fn impl StandardProfile > iri from crates/core/src/loader/mod.rs
//@ ret r
//@ subst iri!( => vx_iri(
//@ spec
    ensures itext(*r) == address(*self),
//@ end
}
#[verifier::reject_recursive_types(I)]
//@ extract enum Profile from crates/core/src/loader/mod.rs
//@ subst <I = IriBuf> => <I>
//@ end
pub open spec fn ptext(p: Profile<IriBuf>) -> Seq<char> { match p { Profile::Standard(s) => address(s), Profile::Custom(i) => itext(held(i)) } }
/// a vocabulary: `insert` and `iri` are inverse (assumed of vocabularies)
pub trait IriVocabulary { type Iri; spec fn meant(&self, i: &Self::Iri) -> Option<Iri>; fn iri<'a>(&'a self, i: &'a Self::Iri) -> (r: Option<&'a Iri>) ensures (match r { Some(x) => self.meant(i) == Some(*x), None => self.meant(i) is None }); }
pub trait IriVocabularyMut: IriVocabulary {
    fn insert(&mut self, i: &Iri) -> (r: Self::Iri) ensures r == interned::<Self::Iri>(*i), final(self).meant(&r) == Some(*i);
    fn insert_owned(&mut self, i: IriBuf) -> (r: Self::Iri) ensures r == interned::<Self::Iri>(held(i)), final(self).meant(&r) == Some(held(i));
}
/// assumed: the identifier a vocabulary gives an IRI is a function of the IRI
pub uninterp spec fn interned<I>(i: Iri) -> I;
impl Profile<IriBuf> {
//@ extract fn impl Profile > new from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures ptext(r) == itext(*iri), (r is Custom) == (forall|p: StandardProfile| #[trigger] address(p) != itext(*iri)),
//@ end
//@ extract fn impl Profile > iri from crates/core/src/loader/mod.rs
//@ ret r
//@ subst Self::Custom(c) => c, %> Self::Custom(c) => vx_deref(c),
//@ spec
    ensures itext(*r) == ptext(*self),
//@ end
}
pub open spec fn pmap<I, J>(p: Profile<I>, f: spec_fn(I) -> J) -> Profile<J> { match p { Profile::Standard(s) => Profile::Standard(s), Profile::Custom(i) => Profile::Custom(f(i)) } }
impl<I> Profile<I> {
//@ extract fn impl Profile<I> > new_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst new_with( => new_with<V: IriVocabularyMut<Iri = I>>(
//@ subst &mut impl IriVocabularyMut<Iri = I> => &mut V
//@ spec
    ensures (match r { Profile::Standard(s) => address(s) == itext(*iri), Profile::Custom(c) => c == interned::<I>(*iri) && (forall|p: StandardProfile| #[trigger] address(p) != itext(*iri)) }),
//@ end
//@ extract fn impl Profile<I> > iri_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst iri_with<'a>( => iri_with<'a, V: IriVocabulary<Iri = I>>(
//@ subst &'a impl IriVocabulary<Iri = I> => &'a V
//@ spec
    requires (match *self { Profile::Custom(c) => vocabulary.meant(&c) is Some, _ => true }),
    ensures (match *self { Profile::Standard(s) => itext(*r) == address(s), Profile::Custom(c) => vocabulary.meant(&c) == Some(*r) }),
//@ end
//@ extract fn impl Profile<I> > map_iri from crates/core/src/loader/mod.rs
//@ ret r
//@ subst map_iri<J> => map_iri<J, F: FnOnce(I) -> J>
//@ subst impl FnOnce(I) -> J => F
//@ spec
    requires self matches Profile::Custom(i) ==> f.requires((i,)),
    ensures (match self { Profile::Standard(s) => r == Profile::<J>::Standard(s), Profile::Custom(i) => (match r { Profile::Custom(j) => f.ensures((i,), j), _ => false }) }),
//@ end
}

// ---- remote documents ------------------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(I)]
//@ extract struct RemoteDocument from crates/core/src/loader/mod.rs
//@ subst <I = IriBuf, T = json_syntax::Value> => <I, T>
//@ end
pub open spec fn und<T>(o: Option<&T>) -> Option<T> { match o { Some(t) => Some(*t), None => None } }
pub uninterp spec fn members<T>(s: HashSet<T>) -> Set<T>;
#[verifier::external_body]
fn vx_empty<T>() -> (r: HashSet<T>) ensures members(r) == Set::<T>::empty() { unimplemented!() }
/// `.into_iter().map(|p| p.map_iri(&mut f)).collect()`: the profiles, each with its IRI mapped
#[verifier::external_body]
fn vx_profiles<I, J, F: FnMut(I) -> J>(s: HashSet<Profile<I>>, f: &mut F) -> (r: HashSet<Profile<J>>)
    requires forall|i: I| f.requires((i,)),
    ensures forall|g: spec_fn(I) -> J| #![trigger every(*old(f), g)] every(*old(f), g) ==> members(r) == members(s).map(|p: Profile<I>| pmap(p, g)) && every(*final(f), g),
{ unimplemented!() }
#[verifier::external_body]
fn vx_map_opt<I, J, F: FnMut(I) -> J>(o: Option<I>, f: &mut F) -> (r: Option<J>)
    requires forall|i: I| f.requires((i,)),
    ensures forall|i: I| (*final(f)).requires((i,)), forall|g: spec_fn(I) -> J| #![trigger every(*old(f), g)] every(*old(f), g) ==> r == (match o { Some(i) => Some(g(i)), None => None }) && every(*final(f), g),
{ unimplemented!() }
/// a function with a state that behaves as `g` whatever its state
pub uninterp spec fn every<I, J, F: FnMut(I) -> J>(f: F, g: spec_fn(I) -> J) -> bool;
impl<I, T> RemoteDocument<I, T> {
//@ extract fn impl RemoteDocument > new from crates/core/src/loader/mod.rs
//@ ret r
//@ subst HashSet::new() => vx_empty()
//@ spec
    ensures r.url == url, r.content_type == content_type, r.context_url is None, members(r.profile) == Set::<Profile<I>>::empty(), r.document == document,
//@ end
//@ extract fn impl RemoteDocument > new_full from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == (RemoteDocument { url, content_type, context_url, profile, document }),
//@ end
//@ extract fn impl RemoteDocument > map from crates/core/src/loader/mod.rs
//@ ret r
//@ subst map<U> => map<U, F: Fn(T) -> U>
//@ subst impl Fn(T) -> U => F
//@ spec
    requires f.requires((self.document,)),
    ensures f.ensures((self.document,), r.document), r.url == self.url, r.content_type == self.content_type, r.context_url == self.context_url, r.profile == self.profile,
//@ end
//@ extract fn impl RemoteDocument > try_map from crates/core/src/loader/mod.rs
//@ ret r
//@ subst try_map<U, E> => try_map<U, E, F: Fn(T) -> Result<U, E>>
//@ subst impl Fn(T) -> Result<U, E> => F
//@ spec
    requires f.requires((self.document,)),
    ensures (match r { Ok(r) => f.ensures((self.document,), Ok(r.document)) && r.url == self.url && r.content_type == self.content_type && r.context_url == self.context_url && r.profile == self.profile, Err(e) => f.ensures((self.document,), Err(e)) }),
//@ end
//@ extract fn impl RemoteDocument > map_iris from crates/core/src/loader/mod.rs
//@ ret r
//@ subst map_iris<J> => map_iris<J, F: FnMut(I) -> J>
//@ subst impl FnMut(I) -> J => F
//@ subst self.url.map(&mut f) => vx_map_opt(self.url, &mut f)
//@ subst self.context_url.map(&mut f) => vx_map_opt(self.context_url, &mut f)
//@ subst ~ self.profile.into_iter().map(|p| p.map_iri(&mut f)).collect() => vx_profiles(self.profile, &mut f)
//@ start
    let mut f = f;
//@ spec
    requires forall|i: I| f.requires((i,)),
    ensures r.content_type == self.content_type, r.document == self.document,
        forall|g: spec_fn(I) -> J| #![trigger every(f, g)] every(f, g) ==> r.url == (match self.url { Some(i) => Some(g(i)), None => None }) && r.context_url == (match self.context_url { Some(i) => Some(g(i)), None => None }) && members(r.profile) == members(self.profile).map(|p: Profile<I>| pmap(p, g)),
//@ end
//@ extract fn impl RemoteDocument > url from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures und(r) == self.url,
//@ end
//@ extract fn impl RemoteDocument > content_type from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures und(r) == self.content_type,
//@ end
//@ extract fn impl RemoteDocument > context_url from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures und(r) == self.context_url,
//@ end
//@ extract fn impl RemoteDocument > document from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures *r == self.document,
//@ end
//@ extract fn impl RemoteDocument > document_mut from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures *r == old(self).document, *final(self) == (RemoteDocument { document: *final(r), ..*old(self) }),
//@ end
//@ extract fn impl RemoteDocument > into_document from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == self.document,
//@ end
//@ extract fn impl RemoteDocument > into_url from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == self.url,
//@ end
//@ extract fn impl RemoteDocument > set_url from crates/core/src/loader/mod.rs
//@ spec
    ensures *final(self) == (RemoteDocument { url, ..*old(self) }),
//@ end
}

// ---- contexts in documents ---------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct JsObject { x: String }
pub enum Json { Object(JsObject), Other(JsKind) }
pub uninterp spec fn js(v: JsValue) -> Json;
/// the values of a key, in order
pub uninterp spec fn at(o: JsObject, k: Seq<char>) -> Seq<JsValue>;
pub uninterp spec fn read(v: JsValue) -> Result<LdContext, InvalidContext>;
pub struct Entry { pub value: JsValue }
pub struct Duplicate(pub Entry, pub Entry);
//@ extract enum ExtractContextError from crates/core/src/loader/mod.rs
//@ subst json_syntax::Kind => JsKind
//@ subst json_ld_syntax::context::InvalidContext => InvalidContext
//@ end
impl ExtractContextError {
//@ extract fn impl ExtractContextError > duplicate_context from crates/core/src/loader/mod.rs
//@ ret r
//@ subst ~ json_syntax::object::Duplicate< json_syntax::object::Entry, > => Duplicate
//@ subst json_syntax::object::Duplicate(_, _) => Duplicate(_, _)
//@ spec
    ensures r is DuplicateContext,
//@ end
}
pub enum Viewed { Object(JsObject), Other(JsValue) }
impl JsObject {
    #[verifier::external_body]
    pub fn remove_unique(&mut self, k: &str) -> (r: Result<Option<Entry>, Duplicate>)
        ensures (match r { Err(_) => at(*old(self), k@).len() > 1, Ok(None) => at(*old(self), k@).len() == 0, Ok(Some(e)) => at(*old(self), k@) == seq![e.value] })
    { unimplemented!() }
}
impl JsValue {
    /// the value seen as an object or as something else
    #[verifier::external_body]
    pub fn vx_view(self) -> (r: Viewed) ensures (match r { Viewed::Object(o) => js(self) == Json::Object(o), Viewed::Other(v) => v == self && js(self) is Other }) { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: JsKind) ensures js(*self) is Other ==> js(*self) == Json::Other(r) { unimplemented!() }
}
#[verifier::external_body]
fn vx_read(v: JsValue) -> (r: Result<LdContext, InvalidContext>) ensures r == read(v) { unimplemented!() }
pub open spec fn contained(v: JsValue) -> Result<LdContext, ExtractContextError> {
    match js(v) {
        Json::Other(k) => Err(ExtractContextError::Unexpected(k)),
        Json::Object(o) => if at(o, "@context"@).len() == 0 { Err(ExtractContextError::NoContext) } else if at(o, "@context"@).len() > 1 { Err(ExtractContextError::DuplicateContext) } else {
            match read(at(o, "@context"@)[0]) { Ok(c) => Ok(c), Err(e) => Err(ExtractContextError::Syntax(e)) }
        },
    }
}
impl JsValue {
//@ extract fn impl ExtractContext for json_syntax::Value > into_ld_context from crates/core/src/loader/mod.rs
//@ ret r
//@ subst json_ld_syntax::context::Context, => LdContext,
//@ subst match self { => match self.vx_view() {
//@ subst Self::Object(mut o) => Viewed::Object(mut o)
//@ subst ~ other => Err %> Viewed::Other(other) => Err
//@ subst use json_ld_syntax::TryFromJson; => ;
//@ subst json_ld_syntax::context::Context::try_from_json( => vx_read(
//@ desugar result.map_err
//@ spec
    ensures r == contained(self),
//@ end
}

// ---- loaders -----------------------------------------------------------------------------------------------------------
pub type Doc = RemoteDocument<IriBuf, JsValue>;
pub type LoadingResult<I> = Result<RemoteDocument<I, JsValue>, LoadError>;
pub struct LoadError { pub target: IriBuf, pub cause: LoadErrorCause }
/// the cause an error value becomes
pub uninterp spec fn boxed<E>(e: E) -> LoadErrorCause;
#[verifier::external_body]
fn vx_box<E>(e: E) -> (r: LoadErrorCause) ensures r == boxed(e) { unimplemented!() }
impl LoadError {
    /// `?` leaves an error of the same type as it is
    fn from(e: LoadError) -> (r: LoadError) ensures r == e { e }
//@ extract fn impl LoadError > new from crates/core/src/loader/mod.rs
//@ ret r
//@ subst fn new( => fn new<E>(
//@ subst impl 'static + std::error::Error + Send + Sync => E
//@ subst Box::new(cause) => vx_box(cause)
//@ spec
    ensures r.target == target, r.cause == boxed(cause),
//@ end
}
pub trait Loader: Sized {}
/// what a loader answers
pub uninterp spec fn loads<L>(l: L, url: Iri) -> Result<Doc, LoadError>;
#[verifier::external_body]
async fn vx_load<L: Loader>(l: &L, url: &Iri) -> (r: Result<Doc, LoadError>) ensures r == loads(*l, *url) { unimplemented!() }
/// the same document with the identifiers a vocabulary gives its IRIs
pub open spec fn in_vocabulary<I>(d: Doc, r: RemoteDocument<I, JsValue>) -> bool {
    r.url == (match d.url { Some(i) => Some(interned::<I>(held(i))), None => None::<I> }) && r.context_url == (match d.context_url { Some(i) => Some(interned::<I>(held(i))), None => None::<I> })
        && members(r.profile) == members(d.profile).map(|p: Profile<IriBuf>| pmap(p, |i: IriBuf| interned::<I>(held(i)))) && r.content_type == d.content_type && r.document == d.document
}
/// `document.map_iris(|i| vocabulary.insert_owned(i))`; the verifier does not take closures that write to what they capture
#[verifier::external_body]
fn vx_intern<V: IriVocabularyMut>(d: Doc, vocabulary: &mut V) -> (r: RemoteDocument<V::Iri, JsValue>) ensures in_vocabulary(d, r) { unimplemented!() }
/// what `load_with` answers for a URL with a given meaning
pub open spec fn answers<I>(o: Result<Doc, LoadError>, r: LoadingResult<I>) -> bool {
    match o { Ok(d) => (match r { Ok(x) => in_vocabulary(d, x), Err(_) => false }), Err(e) => r == Err::<RemoteDocument<I, JsValue>, _>(e) }
}
/// a loader with the provided `load_with`
pub struct Plain { pub x: u8 }
impl Loader for Plain {}
impl Plain {
//@ extract fn trait Loader > load_with from crates/core/src/loader/mod.rs
//@ ret r
//@ desugar-try LoadError
//@ subst self.load(lexical_url) => vx_load(self, lexical_url)
//@ subst document.map_iris(|i| vocabulary.insert_owned(i)) => vx_intern(document, vocabulary)
//@ spec
    requires old(vocabulary).meant(&url) is Some,
    ensures answers(loads(*self, old(vocabulary).meant(&url)->0), r),
//@ end
}
/// `load_with` of an arbitrary loader
#[verifier::external_body]
async fn vx_load_with<L: Loader, V: IriVocabularyMut>(l: &L, vocabulary: &mut V, url: V::Iri) -> (r: LoadingResult<V::Iri>)
    requires old(vocabulary).meant(&url) is Some,
    ensures answers(loads(*l, old(vocabulary).meant(&url)->0), r)
{ unimplemented!() }
pub mod shared { use super::*; verus! {
//@ extract fn impl Loader for &L > load from crates/core/src/loader/mod.rs
//@ ret r
//@ subst load(&self, => load<L: Loader>(vx_self: &&L,
//@ subst L::load(self, url) => vx_load::<L>(vx_self, url)
//@ subst RemoteDocument<IriBuf> => Doc
//@ spec
    ensures r == loads(**vx_self, *url),
//@ end
//@ extract fn impl Loader for &L > load_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst load_with<V>(&self, => load_with<L: Loader, V>(vx_self: &&L,
//@ subst L::load_with(self, => vx_load_with::<L, V>(vx_self,
//@ spec
    requires old(vocabulary).meant(&url) is Some,
    ensures answers(loads(**vx_self, old(vocabulary).meant(&url)->0), r),
//@ end
} }
pub mod exclusive { use super::*; verus! {
//@ extract fn impl Loader for &mut L > load from crates/core/src/loader/mod.rs
//@ ret r
//@ subst load(&self, => load<L: Loader>(vx_self: &&L,
//@ subst L::load(self, url) => vx_load::<L>(vx_self, url)
//@ subst RemoteDocument<IriBuf> => Doc
//@ spec
    ensures r == loads(**vx_self, *url),
//@ end
//@ extract fn impl Loader for &mut L > load_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst load_with<V>(&self, => load_with<L: Loader, V>(vx_self: &&L,
//@ subst L::load_with(self, => vx_load_with::<L, V>(vx_self,
//@ spec
    requires old(vocabulary).meant(&url) is Some,
    ensures answers(loads(**vx_self, old(vocabulary).meant(&url)->0), r),
//@ end
} }

// ---- references to documents -------------------------------------------------------------------------------------------
//@ extract enum ContextLoadError from crates/core/src/loader/mod.rs
//@ end
impl vstd::std_specs::convert::FromSpecImpl<LoadError> for ContextLoadError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadError) -> Self { ContextLoadError::LoadingDocumentFailed(e) } }
impl From<LoadError> for ContextLoadError { fn from(e: LoadError) -> (r: Self) { ContextLoadError::LoadingDocumentFailed(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ExtractContextError> for ContextLoadError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ExtractContextError) -> Self { ContextLoadError::ContextExtractionFailed(e) } }
impl From<ExtractContextError> for ContextLoadError { fn from(e: ExtractContextError) -> (r: Self) { ContextLoadError::ContextExtractionFailed(e) } }
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> { pub open spec fn it(self) -> T { match self { Cow::Borrowed(t) => *t, Cow::Owned(t) => t } } }
#[verifier::reject_recursive_types(I)]
//@ extract enum RemoteDocumentReference from crates/core/src/loader/mod.rs
//@ subst <I = IriBuf, T = json_syntax::Value> => <I, T>
//@ end
/// the context a loaded document gives: of a document with the identifiers of a vocabulary
pub open spec fn gives<I>(o: Result<Doc, LoadError>, r: Result<RemoteDocument<I, LdContext>, ContextLoadError>) -> bool {
    match o {
        Err(e) => r == Err::<RemoteDocument<I, LdContext>, _>(ContextLoadError::LoadingDocumentFailed(e)),
        Ok(d) => (match contained(d.document) {
            Err(e) => r == Err::<RemoteDocument<I, LdContext>, _>(ContextLoadError::ContextExtractionFailed(e)),
            Ok(c) => (match r { Err(_) => false, Ok(x) => x.document == c && x.content_type == d.content_type && x.url == (match d.url { Some(i) => Some(interned::<I>(held(i))), None => None::<I> }) && x.context_url == (match d.context_url { Some(i) => Some(interned::<I>(held(i))), None => None::<I> })
                && members(x.profile) == members(d.profile).map(|p: Profile<IriBuf>| pmap(p, |i: IriBuf| interned::<I>(held(i)))) }),
        }),
    }
}
pub open spec fn address_of<I, T>(r: RemoteDocumentReference<I, T>) -> I { r->Iri_0 }
impl<I, T> RemoteDocumentReference<I, T> {
//@ extract fn impl RemoteDocumentReference > iri from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == RemoteDocumentReference::<I, T>::Iri(iri),
//@ end
}
impl<I> RemoteDocumentReference<I, JsValue> {
//@ extract fn impl RemoteDocumentReference<I> > load_with from crates/core/src/loader/mod.rs
//@ ret r
//@ desugar-try LoadError
//@ subst load_with<V>( => load_with<L: Loader, V>(
//@ subst &impl Loader => &L
//@ subst loader.load_with(vocabulary, => vx_load_with(loader, vocabulary,
//@ subst Into::into => |d: JsValue| -> (vx_d: JsValue) ensures vx_d == d { d }
//@ spec
    requires self is Iri ==> old(vocabulary).meant(&address_of(self)) is Some,
    ensures (match self { RemoteDocumentReference::Loaded(d) => r == Ok::<RemoteDocument<I, JsValue>, LoadError>(d), RemoteDocumentReference::Iri(i) => answers(loads(*loader, old(vocabulary).meant(&i)->0), r) }),
//@ end
//@ extract fn impl RemoteDocumentReference<I> > loaded_with from crates/core/src/loader/mod.rs
//@ ret r
//@ desugar-try LoadError
//@ subst loaded_with<V>( => loaded_with<L: Loader, V>(
//@ subst &impl Loader => &L
//@ subst ~ loader.load_with(vocabulary, => vx_load_with(loader, vocabulary,
//@ subst r.clone() => vx_clone(r)
//@ subst Into::into => |d: JsValue| -> (vx_d: JsValue) ensures vx_d == d { d }
//@ subst RemoteDocument<V::Iri> => RemoteDocument<I, JsValue>
//@ spec
    requires self is Iri ==> old(vocabulary).meant(&address_of(*self)) is Some,
    ensures (match *self { RemoteDocumentReference::Loaded(d) => (match r { Ok(x) => x.it() == d, Err(_) => false }), RemoteDocumentReference::Iri(i) => (match r { Ok(x) => answers(loads(*loader, old(vocabulary).meant(&i)->0), Ok(x.it())), Err(e) => answers::<I>(loads(*loader, old(vocabulary).meant(&i)->0), Err(e)) }) }),
//@ end
}
impl<I> RemoteDocumentReference<I, LdContext> {
//@ extract fn impl RemoteContextReference<I> > load_context_with from crates/core/src/loader/mod.rs
//@ ret r
//@ desugar-try ContextLoadError
//@ subst loader.load_with(vocabulary, => vx_load_with(loader, vocabulary,
//@ subst ~ loader .load_with(vocabulary, => vx_load_with(loader, vocabulary,
//@ subst RemoteContext<I> => RemoteDocument<I, LdContext>
//@ closure-params 0 d: JsValue
//@ closure 0 (vx_c: Result<LdContext, ExtractContextError>)
    ensures vx_c == contained(d),
//@ spec
    requires self is Iri ==> old(vocabulary).meant(&address_of(self)) is Some,
    ensures (match self { RemoteDocumentReference::Loaded(d) => r == Ok::<RemoteDocument<I, LdContext>, ContextLoadError>(d), RemoteDocumentReference::Iri(i) => gives(loads(*loader, old(vocabulary).meant(&i)->0), r) }),
//@ end
//@ extract fn impl RemoteContextReference<I> > loaded_context_with from crates/core/src/loader/mod.rs
//@ ret r
//@ desugar-try ContextLoadError
//@ subst ~ loader .load_with(vocabulary, => vx_load_with(loader, vocabulary,
//@ subst r.clone() => vx_clone(r)
//@ subst RemoteContext<I> => RemoteDocument<I, LdContext>
//@ closure-params 0 d: JsValue
//@ closure 0 (vx_c: Result<LdContext, ExtractContextError>)
    ensures vx_c == contained(d),
//@ spec
    requires self is Iri ==> old(vocabulary).meant(&address_of(*self)) is Some,
    ensures (match *self { RemoteDocumentReference::Loaded(d) => (match r { Ok(x) => x.it() == d, Err(_) => false }), RemoteDocumentReference::Iri(i) => (match r { Ok(x) => gives(loads(*loader, old(vocabulary).meant(&i)->0), Ok(x.it())), Err(e) => gives::<I>(loads(*loader, old(vocabulary).meant(&i)->0), Err(e)) }) }),
//@ end
}
pub struct CannotLoad;
pub struct NoLoader;
impl Loader for NoLoader {}
impl NoLoader {
//@ extract fn impl Loader for NoLoader > load from crates/core/src/loader/none.rs
//@ ret r
//@ subst -> (r: LoadingResult) => -> (r: LoadingResult<IriBuf>)
//@ spec
    ensures (match r { Err(e) => held(e.target) == *url && e.cause == boxed(CannotLoad), Ok(_) => false }),
//@ end
}
pub mod maps { use super::*; verus! {
pub struct EntryNotFound;
#[verifier::external_body] pub struct HashMap { x: String }
#[verifier::external_body] pub struct BTreeMap { x: String }
pub uninterp spec fn registered<M>(m: M, url: Iri) -> Option<Doc>;
impl HashMap { #[verifier::external_body] pub fn get(&self, url: &Iri) -> (r: Option<&Doc>) ensures und(r) == registered(*self, *url) { unimplemented!() }
//@ extract fn impl Loader for HashMap<IriBuf, RemoteDocument> > load from crates/core/src/loader/map.rs
//@ ret r
//@ subst document.clone() => vx_clone(document)
//@ spec
    ensures (match registered(*self, *url) { Some(d) => r == Ok::<Doc, LoadError>(d), None => (match r { Err(e) => held(e.target) == *url && e.cause == boxed(EntryNotFound), Ok(_) => false }) }),
//@ end
}
impl BTreeMap { #[verifier::external_body] pub fn get(&self, url: &Iri) -> (r: Option<&Doc>) ensures und(r) == registered(*self, *url) { unimplemented!() }
//@ extract fn impl Loader for BTreeMap<IriBuf, RemoteDocument> > load from crates/core/src/loader/map.rs
//@ ret r
//@ subst document.clone() => vx_clone(document)
//@ spec
    ensures (match registered(*self, *url) { Some(d) => r == Ok::<Doc, LoadError>(d), None => (match r { Err(e) => held(e.target) == *url && e.cause == boxed(EntryNotFound), Ok(_) => false }) }),
//@ end
}
} }
/// derived clones copy
#[verifier::external_body]
fn vx_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
pub mod chain { use super::*; verus! {
#[verifier::reject_recursive_types(L1)] #[verifier::reject_recursive_types(L2)]
//@ extract struct ChainLoader from crates/core/src/loader/chain.rs
//@ end
//@ extract struct Error from crates/core/src/loader/chain.rs
//@ end
impl<L1, L2> ChainLoader<L1, L2> {
    pub closed spec fn first(self) -> L1 { self.0 }
    pub closed spec fn second(self) -> L2 { self.1 }
//@ extract fn impl ChainLoader > new from crates/core/src/loader/chain.rs
//@ ret r
//@ spec
    ensures r.first() == l1, r.second() == l2,
//@ end
}
impl<L1: Loader, L2: Loader> ChainLoader<L1, L2> {
//@ extract fn impl Loader for ChainLoader<L1, L2> > load from crates/core/src/loader/chain.rs
//@ ret r
//@ subst self.0.load(url) => vx_load(&self.0, url)
//@ subst self.1.load(url) => vx_load(&self.1, url)
//@ spec
    ensures (match loads(self.first(), *url) { Ok(d) => r == Ok::<Doc, LoadError>(d), Err(e) => (match loads(self.second(), *url) { Ok(d) => r == Ok::<Doc, LoadError>(d), Err(f) => r == Err::<Doc, _>(LoadError { target: f.target, cause: boxed(Error(e.cause, f.cause)) }) }) }),
//@ end
}
} }
pub mod fs { use super::*; verus! {
/// the segments of what follows `prefix` in `url`, if `url` starts with it
pub uninterp spec fn beyond(url: Iri, prefix: IriBuf) -> Option<Seq<Seq<char>>>;
pub uninterp spec fn pushed(p: PathBuf, s: Seq<char>) -> PathBuf;
pub open spec fn pushed_all(p: PathBuf, s: Seq<Seq<char>>) -> PathBuf decreases s.len() { if s.len() == 0 { p } else { pushed(pushed_all(p, s.drop_last()), s.last()) } }
pub uninterp spec fn parsed(t: Seq<char>) -> Result<JsValue, JsParseError>;
pub uninterp spec fn ld_json() -> Mime;
//@ extract enum Error from crates/core/src/loader/fs.rs
//@ subst std::io::Error => IoError
//@ subst json_syntax::parse::Error => JsParseError
//@ end
//@ extract struct FsLoader from crates/core/src/loader/fs.rs
//@ end
/// the path mounted first among those whose address starts the URL, and the rest of the URL below it
pub open spec fn located(m: Seq<(PathBuf, IriBuf)>, url: Iri) -> Option<PathBuf> decreases m.len() {
    if m.len() == 0 { None } else { match beyond(url, m[0].1) { Some(s) => Some(pushed_all(m[0].0, s)), None => located(m.subrange(1, m.len() as int), url) } }
}
#[verifier::external_body]
fn vx_suffix(url: &Iri, prefix: &IriBuf) -> (r: Option<Vec<String>>)
    ensures (match r { Some(v) => beyond(*url, *prefix) == Some(v@.map_values(|s: String| s@)), None => beyond(*url, *prefix) is None })
{ unimplemented!() }
impl PathBuf { }
#[verifier::external_body]
fn vx_push(p: &mut PathBuf, s: &str) ensures *final(p) == pushed(*old(p), s@) { unimplemented!() }
#[verifier::external_body] pub struct File { x: String }
#[verifier::external_body] pub struct CodeMap { x: String }
pub struct BufReader { pub file: File }
pub uninterp spec fn opened(p: PathBuf) -> Result<File, IoError>;
pub uninterp spec fn text(f: File) -> Result<Seq<char>, IoError>;
/// the text of the file at a path, if it can be opened and read
pub open spec fn content(p: PathBuf) -> Result<Seq<char>, IoError> { match opened(p) { Ok(f) => text(f), Err(e) => Err(e) } }
impl File { #[verifier::external_body] pub fn open(p: PathBuf) -> (r: Result<File, IoError>) ensures r == opened(p) { unimplemented!() } }
impl BufReader {
    pub fn new(file: File) -> (r: BufReader) ensures r.file == file { BufReader { file } }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, IoError>) ensures (match text(old(self).file) { Ok(t) => r is Ok && final(s)@ == old(s)@ + t, Err(e) => r == Err::<usize, _>(e) }) { unimplemented!() }
}
#[verifier::external_body]
fn vx_parse(s: &String) -> (r: Result<(JsValue, CodeMap), JsParseError>) ensures (match r { Ok(x) => parsed(s@) == Ok::<JsValue, JsParseError>(x.0), Err(e) => parsed(s@) == Err::<JsValue, _>(e) }) { unimplemented!() }
#[verifier::external_body]
fn vx_ld_json() -> (r: Mime) ensures r == ld_json() { unimplemented!() }
impl FsLoader {
    pub closed spec fn mounts(self) -> Seq<(PathBuf, IriBuf)> { self.mount_points@ }
//@ extract fn impl FsLoader > mount from crates/core/src/loader/fs.rs
//@ subst mount<P: AsRef<Path>>( => mount(
//@ subst path: P => path: PathBuf
//@ subst path.as_ref().into() => path
//@ spec
    ensures final(self).mounts() == old(self).mounts().push((path, url)),
//@ end
//@ extract fn impl FsLoader > filepath from crates/core/src/loader/fs.rs
//@ ret r
//@ subst for (path, target_url) in  => for vx_m in 
//@ subst if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) => let path = &vx_m.0; let target_url = &vx_m.1; if let Some(suffix) = vx_suffix(url, target_url)
//@ subst path.clone() => vx_clone(path)
//@ subst suffix.as_path().segments() => &suffix
//@ subst filepath.push(seg.as_str()) => vx_push(&mut filepath, seg.as_str());
//@ start
    proof { assert(self.mounts() =~= self.mounts().subrange(0, self.mounts().len() as int)); }
//@ loop 0 iter it
//@ loop 0
    invariant it.seq() == self.mount_points@.map_values(|x: (PathBuf, IriBuf)| &x), located(self.mounts(), *url) == located(self.mounts().subrange(it.index@, self.mounts().len() as int), *url),
//@ loop 0 body-start
    proof {
        let rest = self.mounts().subrange(it.index@, self.mounts().len() as int);
        assert(rest[0] == *vx_m);
        assert(rest.subrange(1, rest.len() as int) =~= self.mounts().subrange(it.index@ + 1, self.mounts().len() as int));
    }
//@ loop 1 iter it2
//@ loop 1
    invariant it2.seq() == suffix@.map_values(|x: String| &x), filepath == pushed_all(*path, suffix@.map_values(|s: String| s@).take(it2.index@)),
//@ loop 1 body-start
    proof {
        let all = suffix@.map_values(|s: String| s@);
        assert(all.take(it2.index@ + 1).drop_last() =~= all.take(it2.index@));
        assert(all.take(it2.index@ + 1).last() == seg@);
    }
//@ before "return Some(filepath)"
    proof {
        let all = suffix@.map_values(|s: String| s@);
        assert(all.take(all.len() as int) =~= all);
    }
//@ spec
    ensures r == located(self.mounts(), *url),
//@ end
//@ extract fn impl Loader for FsLoader > load from crates/core/src/loader/fs.rs
//@ ret r
//@ desugar result.map_err
//@ desugar-try LoadError
//@ subst json_syntax::Value::parse_str( => vx_parse(
//@ subst "application/ld+json".parse().unwrap() => vx_ld_json()
//@ subst LoadingResult<IriBuf> => Result<Doc, LoadError>
//@ spec
    ensures (match located(self.mounts(), *url) {
        None => (match r { Err(e) => held(e.target) == *url && e.cause == boxed(Error::NoMountPoint), _ => false }),
        Some(p) => (match content(p) {
            Err(x) => (match r { Err(e) => held(e.target) == *url && e.cause == boxed(Error::IO(x)), _ => false }),
            Ok(t) => (match parsed(t) {
                Err(x) => (match r { Err(e) => held(e.target) == *url && e.cause == boxed(Error::Parse(x)), _ => false }),
                Ok(v) => (match r { Ok(d) => d.document == v && (d.url is Some && held(d.url->0) == *url) && d.content_type == Some(ld_json()) && d.context_url is None && members(d.profile) == Set::<Profile<IriBuf>>::empty(), _ => false }),
            }),
        }),
    }),
//@ end
}
} }
}
fn main() {}
