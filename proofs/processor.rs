//! P28: the processor: what expanding, compacting, flattening, comparing and serialising a remote document are made of, against the functional composition
#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use core::hash::Hash;
verus! {
//@ vacuity-decls
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::marker::Destruct>[core::option::Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub trait VocabularyMut { type Iri; type BlankId; }
pub trait Loader {}
pub trait Generator<N> {}
pub trait WarningHandler<N> {}
/// the handler that does nothing with warnings
pub struct Ignore;
impl<N> WarningHandler<N> for Ignore {}
impl<N, W: WarningHandler<N>> WarningHandler<N> for &mut W {}
#[verifier::external_body] pub struct BlankIdBuf { x: String }
impl Clone for BlankIdBuf { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl PartialEq for BlankIdBuf { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for BlankIdBuf {}
impl Hash for BlankIdBuf { #[verifier::external_body] fn hash<H: core::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
#[verifier::external_body] pub struct JsValue { x: String }
#[verifier::external_body] pub struct Mime { x: String }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { x: Vec<T> }
#[verifier::external_body] pub struct LdContext { x: String }
#[verifier::external_body] pub struct LoadError { x: String }
#[verifier::external_body] pub struct ExtractContextError { x: String }
//@ extract enum ContextLoadError from crates/core/src/loader/mod.rs
//@ end
pub mod expansion { use super::*; verus! { #[verifier::external_body] pub struct Error { x: String } } }
pub mod compaction { use super::*; verus! { #[verifier::external_body] pub struct Error { x: String } } }
pub mod context_processing { use super::*; verus! { #[verifier::external_body] pub struct Error { x: String } } }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] pub struct ConflictingIndexes<I, B> { x: Vec<(I, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] pub struct Context<I, B> { x: Vec<(I, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] pub struct ExpandedDocument<I, B> { x: Vec<(I, B)> }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] pub struct FlattenedDocument<I, B> { x: Vec<(I, B)> }
//@ extract enum Action from crates/context-processing/src/algorithm/iri.rs
//@ end
//@ extract enum ProcessingMode from crates/core/src/mode.rs
//@ end
#[derive(Clone, Copy)]
pub enum RdfDirection { I18nDatatype, CompoundLiteral }
#[derive(Clone, Copy)]
//@ extract struct Policy from crates/expansion/src/options.rs
//@ end
//@ extract struct Options from crates/context-processing/src/lib.rs
//@ subst pub struct Options => pub struct POptions
//@ end
//@ extract struct Options from crates/expansion/src/options.rs
//@ subst pub struct Options => pub struct EOptions
//@ end
//@ extract struct Options from crates/compaction/src/lib.rs
//@ subst pub struct Options => pub struct COptions
//@ end
impl Clone for Action { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Action {}
impl Clone for ProcessingMode { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ProcessingMode {}
impl ProcessingMode {
    /// derived: the variant marked so
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == ProcessingMode::JsonLd1_1 { unimplemented!() }
}
pub open spec fn standard_policy() -> Policy { Policy { invalid: Action::Keep, vocab: Action::Keep, allow_undefined: true } }
impl Policy {
//@ extract fn impl Default for Policy > default from crates/expansion/src/options.rs
//@ ret r
//@ spec
    ensures r == standard_policy(),
//@ end
}
pub open spec fn processing(mode: ProcessingMode) -> POptions { POptions { processing_mode: mode, override_protected: false, propagate: true, vocab: Action::Keep } }
impl POptions {
//@ extract fn impl Default for Options > default from crates/context-processing/src/lib.rs
//@ ret r
//@ subst -> (r: Options) => -> (r: POptions)
//@ subst Options { => POptions {
//@ spec
    ensures r == processing(ProcessingMode::JsonLd1_1),
//@ end
}
#[verifier::reject_recursive_types(I)]
pub enum RemoteDocumentReference<I, T> { Iri(I), Loaded(RemoteDocument<I, T>) }
pub type RemoteContextReference<I> = RemoteDocumentReference<I, LdContext>;
pub type RemoteContext<I> = RemoteDocument<I, LdContext>;
#[verifier::reject_recursive_types(I)]
//@ extract struct RemoteDocument from crates/core/src/loader/mod.rs
//@ subst <I = IriBuf, T = json_syntax::Value> => <I, T>
//@ subst HashSet<Profile<I>> => HashSet<I>
//@ end
#[verifier::reject_recursive_types(I)]
//@ extract struct Options from src/processor/mod.rs
//@ subst expansion::Policy => Policy
//@ subst Options<I = IriBuf> => Options<I>
//@ end
//@ extract enum ExpandError from src/processor/mod.rs
//@ end
//@ extract enum CompactError from src/processor/mod.rs
//@ end
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]
//@ extract enum FlattenError from src/processor/mod.rs
//@ end
//@ extract enum ToRdfError from src/processor/mod.rs
//@ end
//@ extract type ExpandResult from src/processor/mod.rs
//@ end
//@ extract type CompactResult from src/processor/mod.rs
//@ subst json_syntax::Value => JsValue
//@ end
//@ extract type FlattenResult from src/processor/mod.rs
//@ subst json_syntax::Value => JsValue
//@ end
//@ extract type IntoDocumentResult from src/processor/mod.rs
//@ end
//@ extract type CompareResult from src/processor/mod.rs
//@ end
//@ extract type LoadingResult from crates/core/src/loader/mod.rs
//@ subst <I = IriBuf> => <I>
//@ subst RemoteDocument<I> => RemoteDocument<I, JsValue>
//@ end
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]
//@ extract struct Document from crates/core/src/document/mod.rs
//@ subst <I = IriBuf, B = BlankIdBuf> => <I, B>
//@ subst RemoteDocument<I> => RemoteDocument<I, JsValue>
//@ end
impl<I, B> Document<I, B> {
    pub closed spec fn of(remote: RemoteDocument<I, JsValue>, expanded: ExpandedDocument<I, B>) -> Self { Document { remote, expanded } }
//@ extract fn impl Document > new from crates/core/src/document/mod.rs
//@ ret r
//@ subst RemoteDocument<I> => RemoteDocument<I, JsValue>
//@ spec
    ensures r == Self::of(remote, expanded),
//@ end
}

// ---- what the processor is made of (each decided under its own property) ----------------------------------------
/// what loading gives (a loader gives the same document for an address each time; texts of identifiers are ambient)
pub uninterp spec fn fetched<I>(iri: I) -> Result<RemoteDocument<I, JsValue>, LoadError>;
pub uninterp spec fn as_context<I>(d: RemoteDocument<I, JsValue>) -> Result<RemoteContext<I>, ExtractContextError>;
pub uninterp spec fn fresh<I, B>(base: Option<I>) -> Context<I, B>;
pub uninterp spec fn original_base<I, B>(c: Context<I, B>) -> Option<I>;
pub uninterp spec fn base<I, B>(c: Context<I, B>) -> Option<I>;
pub uninterp spec fn with_base<I, B>(c: Context<I, B>, b: Option<I>) -> Context<I, B>;
pub uninterp spec fn entered<I, B>(local: LdContext, c: Context<I, B>, b: Option<I>, o: POptions) -> Result<Context<I, B>, context_processing::Error>;
pub uninterp spec fn expands<I, B>(d: JsValue, c: Context<I, B>, b: Option<I>, o: EOptions) -> Result<ExpandedDocument<I, B>, expansion::Error>;
pub uninterp spec fn compacts<I, B, T>(d: T, local: LdContext, c: Context<I, B>, o: COptions) -> Result<JsValue, compaction::Error>;
pub uninterp spec fn flattens<I, B>(d: ExpandedDocument<I, B>, ordered: bool) -> Result<FlattenedDocument<I, B>, ConflictingIndexes<I, B>>;
pub uninterp spec fn as_json<I, B>(d: FlattenedDocument<I, B>) -> JsValue;
pub uninterp spec fn same_json(a: JsValue, b: JsValue) -> bool;
pub uninterp spec fn same_document<I, B>(a: ExpandedDocument<I, B>, b: ExpandedDocument<I, B>) -> bool;
pub open spec fn und<T>(o: Option<&T>) -> Option<T> { match o { Some(t) => Some(*t), None => None } }
pub open spec fn context_loaded<I>(r: RemoteContextReference<I>) -> Result<RemoteContext<I>, ContextLoadError> {
    match r { RemoteDocumentReference::Loaded(d) => Ok(d), RemoteDocumentReference::Iri(i) => match fetched(i) { Ok(d) => match as_context(d) { Ok(c) => Ok(c), Err(e) => Err(ContextLoadError::ContextExtractionFailed(e)) }, Err(e) => Err(ContextLoadError::LoadingDocumentFailed(e)) } }
}
pub open spec fn document_loaded<I>(r: RemoteDocumentReference<I, JsValue>) -> Result<RemoteDocument<I, JsValue>, LoadError> {
    match r { RemoteDocumentReference::Loaded(d) => Ok(d), RemoteDocumentReference::Iri(i) => fetched(i) }
}
pub trait LoadWith: Loader + Sized {}
#[verifier::external_body]
async fn vx_load_with<N: VocabularyMut, L>(l: &L, v: &mut N, i: N::Iri) -> (r: Result<RemoteDocument<N::Iri, JsValue>, LoadError>) ensures r == fetched(i) { unimplemented!() }
/// `.map(Into::into)` of a JSON value into a JSON value
impl<I> RemoteDocument<I, JsValue> {
#[verifier::external_body]
fn vx_as_is(self) -> (r: RemoteDocument<I, JsValue>) ensures r == self { self }
/// `try_map(|d| d.into_ld_context())`
#[verifier::external_body]
fn vx_context(self) -> (r: Result<RemoteContext<I>, ExtractContextError>) ensures r == as_context(self) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<LoadError> for ContextLoadError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadError) -> Self { ContextLoadError::LoadingDocumentFailed(e) } }
impl From<LoadError> for ContextLoadError { fn from(e: LoadError) -> (r: Self) { ContextLoadError::LoadingDocumentFailed(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ExtractContextError> for ContextLoadError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ExtractContextError) -> Self { ContextLoadError::ContextExtractionFailed(e) } }
impl From<ExtractContextError> for ContextLoadError { fn from(e: ExtractContextError) -> (r: Self) { ContextLoadError::ContextExtractionFailed(e) } }
impl vstd::std_specs::convert::FromSpecImpl<LoadError> for ExpandError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadError) -> Self { ExpandError::Loading(e) } }
impl From<LoadError> for ExpandError { fn from(e: LoadError) -> (r: Self) { ExpandError::Loading(e) } }
impl vstd::std_specs::convert::FromSpecImpl<LoadError> for CompactError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadError) -> Self { CompactError::Loading(e) } }
impl From<LoadError> for CompactError { fn from(e: LoadError) -> (r: Self) { CompactError::Loading(e) } }
impl<I, B> vstd::std_specs::convert::FromSpecImpl<LoadError> for FlattenError<I, B> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: LoadError) -> Self { FlattenError::Loading(e) } }
impl<I, B> From<LoadError> for FlattenError<I, B> { fn from(e: LoadError) -> (r: Self) { FlattenError::Loading(e) } }
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> {
    pub open spec fn it(self) -> T { match self { Cow::Borrowed(t) => *t, Cow::Owned(t) => t } }
    pub fn as_ref(&self) -> (r: &T) ensures *r == self.it() { match self { Cow::Borrowed(t) => t, Cow::Owned(t) => t } }
}
impl<I, B> Context<I, B> {
    #[verifier::external_body]
    pub fn new(b: Option<I>) -> (r: Self) ensures r == fresh::<I, B>(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn original_base_url(&self) -> (r: Option<&I>) ensures und(r) == original_base(*self) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
pub struct Processed<'l, T, B> { pub unprocessed: &'l LdContext, pub processed: Context<T, B> }
impl<'l, T, B> Processed<'l, T, B> {
//@ extract fn impl Processed > into_processed from crates/context-processing/src/processed.rs
//@ ret r
//@ spec
    ensures r == self.processed,
//@ end
//@ extract fn impl Processed > as_ref from crates/context-processing/src/processed.rs
//@ ret r
//@ spec
    ensures *r.unprocessed == *self.unprocessed, *r.processed == self.processed,
//@ end
    /// through Deref / DerefMut to the context
    #[verifier::external_body]
    pub fn base_iri(&self) -> (r: Option<&T>) ensures und(r) == base(self.processed) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_base_iri(&mut self, b: Option<T>) ensures final(self).processed == with_base(old(self).processed, b), final(self).unprocessed == old(self).unprocessed { unimplemented!() }
}
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(B)]
//@ extract struct ProcessedRef from crates/context-processing/src/processed.rs
//@ subst json_ld_syntax::context::Context => LdContext
//@ end
impl LdContext {
    #[verifier::external_body]
    pub async fn process_full<N: VocabularyMut, L: Loader, W: WarningHandler<N>>(&self, vocabulary: &mut N, active: &Context<N::Iri, N::BlankId>, loader: &L, base_url: Option<N::Iri>, options: POptions, warnings: W) -> (r: Result<Processed<'_, N::Iri, N::BlankId>, context_processing::Error>)
        ensures (match r { Ok(p) => *p.unprocessed == *self && entered(*self, *active, base_url, options) == Ok::<Context<N::Iri, N::BlankId>, context_processing::Error>(p.processed), Err(e) => entered(*self, *active, base_url, options) == Err::<Context<N::Iri, N::BlankId>, _>(e) })
    { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    pub async fn expand_full<N: VocabularyMut, L: Loader, W: WarningHandler<N>>(&self, vocabulary: &mut N, active: Context<N::Iri, N::BlankId>, base_url: Option<&N::Iri>, loader: &L, options: EOptions, warnings: W) -> (r: Result<ExpandedDocument<N::Iri, N::BlankId>, expansion::Error>)
        ensures r == expands(*self, active, und(base_url), options)
    { unimplemented!() }
}
pub trait Compact<I, B>: Sized {}
impl<I, B> Compact<I, B> for ExpandedDocument<I, B> {}
impl<I, B> Compact<I, B> for FlattenedDocument<I, B> {}
#[verifier::external_body]
async fn vx_compact<N: VocabularyMut, L: Loader, T: Compact<N::Iri, N::BlankId>>(t: &T, vocabulary: &mut N, c: ProcessedRef<'_, '_, N::Iri, N::BlankId>, loader: &L, options: COptions) -> (r: Result<JsValue, compaction::Error>)
    ensures r == compacts(*t, *c.unprocessed, *c.processed, options)
{ unimplemented!() }
#[verifier::external_body]
fn vx_flatten<N: VocabularyMut, G>(d: ExpandedDocument<N::Iri, N::BlankId>, vocabulary: &mut N, g: &mut G, ordered: bool) -> (r: Result<FlattenedDocument<N::Iri, N::BlankId>, ConflictingIndexes<N::Iri, N::BlankId>>) ensures r == flattens(d, ordered) { unimplemented!() }
#[verifier::external_body]
fn vx_json<I, B>(d: FlattenedDocument<I, B>) -> (r: JsValue) ensures r == as_json(d) { unimplemented!() }
#[verifier::external_body]
fn vx_same_json(a: &JsValue, b: &JsValue) -> (r: bool) ensures r == same_json(*a, *b) { unimplemented!() }
impl<I, B> PartialEqSpecImpl for ExpandedDocument<I, B> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { same_document(*self, *o) } }
impl<I, B> PartialEq for ExpandedDocument<I, B> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
/// a clone is the same thing (derived clones of identifiers and options)
#[verifier::external_body]
fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
#[verifier::external_body]
fn vx_cloned<T: Clone>(t: Option<&T>) -> (r: Option<T>) ensures r == und(t) { t.cloned() }
impl<I> Clone for Options<I> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- options -----------------------------------------------------------------------------------------------------
pub open spec fn standard<I>() -> Options<I> {
    Options { base: None, compact_arrays: true, compact_to_relative: true, ordered: false, processing_mode: ProcessingMode::JsonLd1_1, rdf_direction: None, produce_generalized_rdf: false, expansion_policy: standard_policy(), expand_context: None }
}
pub open spec fn eoptions<I>(o: Options<I>) -> EOptions { EOptions { processing_mode: o.processing_mode, ordered: o.ordered, policy: o.expansion_policy } }
pub open spec fn coptions<I>(o: Options<I>) -> COptions { COptions { processing_mode: o.processing_mode, compact_to_relative: o.compact_to_relative, compact_arrays: o.compact_arrays, ordered: o.ordered } }
impl<I> Options<I> {
//@ extract fn impl Options > unordered from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == (Options { ordered: false, ..self }),
//@ end
//@ extract fn impl Options > with_expand_context from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == (Options { expand_context: Some(context), ..self }),
//@ end
//@ extract fn impl Options > context_processing_options from src/processor/mod.rs
//@ ret r
//@ subst context_processing::Options => POptions
//@ subst Default::default() => POptions::default()
//@ spec
    ensures r == processing(self.processing_mode),
//@ end
//@ extract fn impl Options > expansion_options from src/processor/mod.rs
//@ ret r
//@ subst expansion::Options => EOptions
//@ spec
    ensures r == eoptions(*self),
//@ end
//@ extract fn impl Options > compaction_options from src/processor/mod.rs
//@ ret r
//@ subst compaction::Options => COptions
//@ spec
    ensures r == coptions(*self),
//@ end
//@ extract fn impl Default for Options > default from src/processor/mod.rs
//@ ret r
//@ subst expansion::Policy::default() => Policy::default()
//@ spec
    ensures r == standard::<I>(),
//@ end
}

// ---- loading -------------------------------------------------------------------------------------------------------
impl<I> RemoteDocumentReference<I, JsValue> {
//@ extract fn impl RemoteDocumentReference<I> > load_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst loader: &impl Loader => loader: &L
//@ subst load_with<V> => load_with<V, L: Loader>
//@ subst V: IriVocabularyMut<Iri = I> => V: VocabularyMut<Iri = I>
//@ subst ~ loader.load_with(vocabulary, r) => vx_load_with(loader, vocabulary, r)
//@ subst .map(Into::into) => .vx_as_is()
//@ spec
    ensures r == document_loaded(self),
//@ end
//@ extract fn impl RemoteDocumentReference<I> > loaded_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst loader: &impl Loader => loader: &L
//@ subst loaded_with<V> => loaded_with<V, L: Loader>
//@ subst V: IriVocabularyMut<Iri = I> => V: VocabularyMut<Iri = I>
//@ subst Cow<'_, RemoteDocument<V::Iri>> => Cow<'_, RemoteDocument<I, JsValue>>
//@ subst ~ loader.load_with(vocabulary, r.clone()) => vx_load_with(loader, vocabulary, vx_clone(r))
//@ subst .map(Into::into) => .vx_as_is()
//@ spec
    ensures (match r { Ok(d) => document_loaded(*self) == Ok::<_, LoadError>(d.it()), Err(e) => document_loaded(*self) == Err::<RemoteDocument<I, JsValue>, _>(e) }),
//@ end
}
impl<I> RemoteDocumentReference<I, LdContext> {
//@ extract fn impl RemoteContextReference > load_context_with from crates/core/src/loader/mod.rs
//@ ret r
//@ subst V: IriVocabularyMut<Iri = I> => V: VocabularyMut<Iri = I>
//@ subst ~ loader.load_with(vocabulary, r) => vx_load_with(loader, vocabulary, r)
//@ subst .try_map(|d| d.into_ld_context()) => .vx_context()
//@ desugar-try ContextLoadError
//@ spec
    ensures r == context_loaded(self),
//@ end
}

// ---- the algorithms ------------------------------------------------------------------------------------------------
/// the context a document is expanded in: empty with its base, then the context of the options, then the one served with the document
pub open spec fn start_context<I, B>(d: RemoteDocument<I, JsValue>, o: Options<I>) -> Context<I, B> { fresh(if o.base is Some { o.base } else { d.url }) }
pub open spec fn options_context<I, B>(d: RemoteDocument<I, JsValue>, o: Options<I>) -> Result<Context<I, B>, ExpandError> {
    let c = start_context::<I, B>(d, o);
    match o.expand_context { None => Ok(c), Some(r) => match context_loaded(r) {
        Err(e) => Err(ExpandError::ContextLoading(e)),
        Ok(x) => match entered(x.document, c, original_base(c), processing(o.processing_mode)) { Ok(c) => Ok(c), Err(e) => Err(ExpandError::ContextProcessing(e)) },
    } }
}
pub open spec fn served_context<I, B>(d: RemoteDocument<I, JsValue>, o: Options<I>) -> Result<Context<I, B>, ExpandError> {
    match options_context::<I, B>(d, o) { Err(e) => Err(e), Ok(c) => match d.context_url { None => Ok(c), Some(u) => match context_loaded(RemoteDocumentReference::Iri(u)) {
        Err(e) => Err(ExpandError::ContextLoading(e)),
        Ok(x) => match entered(x.document, c, Some(u), processing(o.processing_mode)) { Ok(c) => Ok(c), Err(e) => Err(ExpandError::ContextProcessing(e)) },
    } } }
}
pub open spec fn expanded<I, B>(d: RemoteDocument<I, JsValue>, o: Options<I>) -> Result<ExpandedDocument<I, B>, ExpandError> {
    match served_context::<I, B>(d, o) { Err(e) => Err(e), Ok(c) => match expands(d.document, c, if d.url is Some { d.url } else { o.base }, eoptions(o)) { Ok(x) => Ok(x), Err(e) => Err(ExpandError::Expansion(e)) } }
}
/// base IRI for compaction: the one of the options; else the one the context gives; else, if wanted, the document's
pub open spec fn compaction_context<I, B>(c: Context<I, B>, url: Option<I>, o: Options<I>) -> Context<I, B> {
    if o.base is Some { with_base(c, o.base) } else if o.compact_to_relative && base(c) is None { with_base(c, url) } else { c }
}
pub open spec fn recompacted<I, B, T>(d: T, url: Option<I>, r: RemoteContextReference<I>, o: Options<I>) -> Result<JsValue, CompactError> {
    match context_loaded(r) {
        Err(e) => Err(CompactError::ContextLoading(e)),
        Ok(x) => match entered(x.document, fresh::<I, B>(None), if url is Some { url } else { o.base }, processing(o.processing_mode)) {
            Err(e) => Err(CompactError::ContextProcessing(e)),
            Ok(c) => match compacts(d, x.document, compaction_context(c, url, o), coptions(o)) { Ok(j) => Ok(j), Err(e) => Err(CompactError::Compaction(e)) },
        },
    }
}
pub open spec fn unordered<I>(o: Options<I>) -> Options<I> { Options { ordered: false, ..o } }
pub open spec fn compacted<I, B>(d: RemoteDocument<I, JsValue>, r: RemoteContextReference<I>, o: Options<I>) -> CompactResult {
    match expanded::<I, B>(d, unordered(o)) { Err(e) => Err(CompactError::Expand(e)), Ok(x) => recompacted::<I, B, ExpandedDocument<I, B>>(x, d.url, r, o) }
}
pub open spec fn flattened<I, B>(d: RemoteDocument<I, JsValue>, r: Option<RemoteContextReference<I>>, o: Options<I>) -> FlattenResult<I, B> {
    match expanded::<I, B>(d, unordered(o)) { Err(e) => Err(FlattenError::Expand(e)), Ok(x) => match flattens(x, o.ordered) {
        Err(e) => Err(FlattenError::ConflictingIndexes(e)),
        Ok(f) => match r { None => Ok(as_json(f)), Some(r) => match recompacted::<I, B, FlattenedDocument<I, B>>(f, d.url, r, o) { Ok(j) => Ok(j), Err(e) => Err(FlattenError::Compact(e)) } },
    } }
}
/// documents whose JSON differs are different; others are the same when they expand to the same
pub open spec fn compared<I, B>(a: RemoteDocument<I, JsValue>, b: RemoteDocument<I, JsValue>, o: Options<I>) -> CompareResult {
    if !same_json(a.document, b.document) { Ok(false) } else {
        match expanded::<I, B>(a, o) { Err(e) => Err(e), Ok(x) => match expanded::<I, B>(b, o) { Err(e) => Err(e), Ok(y) => Ok(same_document(x, y)) } }
    }
}
pub open spec fn documented<I, B>(d: RemoteDocument<I, JsValue>, o: Options<I>) -> IntoDocumentResult<I, B> {
    match expanded::<I, B>(d, o) { Err(e) => Err(e), Ok(x) => Ok(Document::of(d, x)) }
}
//@ extract fn compact_expanded_full from src/processor/mod.rs
//@ ret r
//@ subst <'a, T, N, L> => <'a, T, N, L, W: WarningHandler<N>>
//@ subst warnings: impl context_processing::WarningHandler<N> => warnings: W
//@ subst json_syntax::Value => JsValue
//@ desugar result.map_err
//@ call cloned => vx_cloned($0)
//@ subst base.clone() => vx_clone(base)
//@ subst ~ expanded_input.compact_full(vocabulary, => vx_compact(expanded_input, vocabulary,
//@ spec
    ensures r == recompacted::<N::Iri, N::BlankId, T>(*expanded_input, und(url), context, options),
//@ end
impl<I, T> RemoteDocument<I, T> {
//@ extract fn impl RemoteDocument > into_document from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == self.document,
//@ end
}
impl<I> RemoteDocument<I, JsValue> {
//@ extract fn impl RemoteDocument > url from crates/core/src/loader/mod.rs
//@ ret r
//@ subst -> (r: &T) => -> (r: &JsValue)
//@ spec
    ensures und(r) == self.url,
//@ end
//@ extract fn impl RemoteDocument > context_url from crates/core/src/loader/mod.rs
//@ ret r
//@ subst -> (r: &T) => -> (r: &JsValue)
//@ spec
    ensures und(r) == self.context_url,
//@ end
//@ extract fn impl RemoteDocument > document from crates/core/src/loader/mod.rs
//@ ret r
//@ subst -> (r: &T) => -> (r: &JsValue)
//@ spec
    ensures *r == self.document,
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocument<I> > expand_full from src/processor/remote_document.rs
//@ ret r
//@ subst expand_full<'a, N> => expand_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst expand_full<N> => expand_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ start
    let mut options = options;
    let mut warnings = warnings;
//@ desugar option.or_else
//@ call cloned => vx_cloned($0)
//@ subst options.base.clone() => vx_clone(&options.base)
//@ subst context_url.clone() => vx_clone(context_url)
//@ subst RemoteDocumentReference::Iri(vx_clone(context_url)) => RemoteContextReference::Iri(vx_clone(context_url))
//@ spec
    ensures r == expanded::<I, N::BlankId>(*self, options),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocument<I> > compare_full from src/processor/remote_document.rs
//@ ret r
//@ subst compare_full<'a, N> => compare_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst compare_full<N> => compare_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ start
    let mut warnings = warnings;
//@ subst json_ld_syntax::Compare::compare( => vx_same_json(
//@ spec
    ensures r == compared::<I, N::BlankId>(*self, *other, options),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocument<I> > into_document_full from src/processor/remote_document.rs
//@ ret r
//@ subst into_document_full<'a, N> => into_document_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst into_document_full<N> => into_document_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ spec
    ensures r == documented::<I, N::BlankId>(self, options),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocument<I> > compact_full from src/processor/remote_document.rs
//@ ret r
//@ subst compact_full<'a, N> => compact_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst compact_full<N> => compact_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ start
    let mut warnings = warnings;
//@ spec
    ensures r == compacted::<I, N::BlankId>(*self, context, options),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocument<I> > flatten_full from src/processor/remote_document.rs
//@ ret r
//@ subst flatten_full<'a, N> => flatten_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>, G: Generator<N>>
//@ subst flatten_full<N> => flatten_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>, G: Generator<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ start
    let mut warnings = warnings;
//@ subst Flatten::flatten_with( => vx_flatten(
//@ subst ~ json_ld_syntax::IntoJson::into_json(flattened_output.into_with(vocabulary),) => vx_json(flattened_output)
//@ spec
    ensures r == flattened::<I, N::BlankId>(*self, context, options),
//@ end
}
impl<I> RemoteDocumentReference<I, JsValue> {
//@ extract fn impl JsonLdProcessor<I> for RemoteDocumentReference<I, json_syntax::Value> > expand_full from src/processor/remote_document.rs
//@ ret r
//@ subst expand_full<'a, N> => expand_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst expand_full<N> => expand_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ desugar-try ExpandError
//@ spec
    ensures r == (match document_loaded(*self) { Err(e) => Err(ExpandError::Loading(e)), Ok(d) => expanded::<I, N::BlankId>(d, options) }),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocumentReference<I, json_syntax::Value> > compare_full from src/processor/remote_document.rs
//@ ret r
//@ subst compare_full<'a, N> => compare_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst compare_full<N> => compare_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ desugar-try ExpandError
//@ spec
    ensures r == (match document_loaded(*self) { Err(e) => Err(ExpandError::Loading(e)), Ok(a) => match document_loaded(*other) { Err(e) => Err(ExpandError::Loading(e)), Ok(b) => compared::<I, N::BlankId>(a, b, options) } }),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocumentReference<I, json_syntax::Value> > into_document_full from src/processor/remote_document.rs
//@ ret r
//@ subst into_document_full<'a, N> => into_document_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst into_document_full<N> => into_document_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ desugar-try ExpandError
//@ spec
    ensures r == (match document_loaded(self) { Err(e) => Err(ExpandError::Loading(e)), Ok(d) => documented::<I, N::BlankId>(d, options) }),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocumentReference<I, json_syntax::Value> > compact_full from src/processor/remote_document.rs
//@ ret r
//@ subst compact_full<'a, N> => compact_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst compact_full<N> => compact_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ desugar-try CompactError
//@ spec
    ensures r == (match document_loaded(*self) { Err(e) => Err(CompactError::Loading(e)), Ok(d) => compacted::<I, N::BlankId>(d, context, options) }),
//@ end
//@ extract fn impl JsonLdProcessor<I> for RemoteDocumentReference<I, json_syntax::Value> > flatten_full from src/processor/remote_document.rs
//@ ret r
//@ subst flatten_full<'a, N> => flatten_full<'a, N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>, G: Generator<N>>
//@ subst flatten_full<N> => flatten_full<N: VocabularyMut<Iri = I>, L: Loader, W: WarningHandler<N>, G: Generator<N>>
//@ subst impl 'a + context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst JsonLdProcessor::expand_full( => RemoteDocument::expand_full(
//@ subst JsonLdProcessor::compact_full( => RemoteDocument::compact_full(
//@ subst JsonLdProcessor::flatten_full( => RemoteDocument::flatten_full(
//@ subst JsonLdProcessor::compare_full( => RemoteDocument::compare_full(
//@ subst JsonLdProcessor::into_document_full( => RemoteDocument::into_document_full(
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ desugar-try FlattenError
//@ spec
    ensures r == (match document_loaded(*self) { Err(e) => Err(FlattenError::Loading(e)), Ok(d) => flattened::<I, N::BlankId>(d, context, options) }),
//@ end
}

// ---- shorter forms: the same with the standard options, no vocabulary, warnings ignored --------------------------
/// the vocabulary of identifiers that are their own texts
pub struct NoVocabulary<I> { x: core::marker::PhantomData<I> }
impl<I> VocabularyMut for NoVocabulary<I> { type Iri = I; type BlankId = BlankIdBuf; }
#[verifier::external_body]
fn vx_no_vocabulary<'v, I>() -> &'v mut NoVocabulary<I> { unimplemented!() }
impl<I> NoVocabulary<I> { #[verifier::external_body] pub fn one() -> Self { unimplemented!() } }
// ---- RDF -----------------------------------------------------------------------------------------------------------
/// blank nodes renamed apart and literals canonicalised
pub uninterp spec fn relabelled<I, B>(before: ExpandedDocument<I, B>, after: ExpandedDocument<I, B>) -> bool;
#[verifier::external_body]
fn vx_relabel<V: VocabularyMut, G: Generator<V>>(d: &mut ExpandedDocument<V::Iri, V::BlankId>, v: &mut V, g: &mut G) ensures relabelled(*old(d), *final(d)) { unimplemented!() }
#[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(G)]
//@ extract struct ToRdf from src/processor/mod.rs
//@ subst V: Vocabulary, G => V: VocabularyMut, G: Generator<V>
//@ end
#[verifier::external_body] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(G)]
pub struct Quads<'a, V: VocabularyMut, G> { x: &'a (Vec<V>, Vec<G>) }
/// the document whose quads these are, and the options they are made with (the quads themselves: P15)
pub uninterp spec fn quads_of<'a, V: VocabularyMut, G>(q: Quads<'a, V, G>) -> (ExpandedDocument<V::Iri, V::BlankId>, Option<RdfDirection>, bool);
#[verifier::external_body]
fn vx_quads<'a, V: VocabularyMut, G: Generator<V>>(d: &'a ExpandedDocument<V::Iri, V::BlankId>, v: &'a mut V, g: &'a mut G, dir: Option<RdfDirection>, general: bool) -> (r: Quads<'a, V, G>) ensures quads_of(r) == (*d, dir, general) { unimplemented!() }
impl<V: VocabularyMut, G: Generator<V>> ToRdf<V, G> {
//@ extract fn impl ToRdf > new from src/processor/mod.rs
//@ ret r
//@ start
    let mut vocabulary = vocabulary; let mut generator = generator; let mut doc = doc;
//@ subst ~ doc.relabel_and_canonicalize_with(&mut vocabulary, &mut generator) => vx_relabel(&mut doc, &mut vocabulary, &mut generator)
//@ spec
    ensures relabelled(doc, r.doc), r.rdf_direction == rdf_direction, r.produce_generalized_rdf == produce_generalized_rdf,
//@ end
//@ extract fn impl ToRdf > quads from src/processor/mod.rs
//@ ret r
//@ subst json_ld_core::rdf::Quads => Quads
//@ subst ~ self.doc.rdf_quads_full(&mut self.vocabulary, &mut self.generator, => vx_quads(&self.doc, &mut self.vocabulary, &mut self.generator,
//@ spec
    ensures quads_of(r) == (old(self).doc, old(self).rdf_direction, old(self).produce_generalized_rdf),
//@ end
}
//@ extract type ToRdfResult from src/processor/mod.rs
//@ end
spec fn serialised<V: VocabularyMut, G: Generator<V>>(d: RemoteDocument<V::Iri, JsValue>, o: Options<V::Iri>, r: Result<ToRdf<V, G>, ToRdfError>) -> bool {
    match r {
        Err(e) => expanded::<V::Iri, V::BlankId>(d, unordered(o)) is Err && e == ToRdfError::Expand(expanded::<V::Iri, V::BlankId>(d, unordered(o))->Err_0),
        Ok(t) => expanded::<V::Iri, V::BlankId>(d, unordered(o)) is Ok && relabelled(expanded::<V::Iri, V::BlankId>(d, unordered(o))->Ok_0, t.doc) && t.rdf_direction == o.rdf_direction && t.produce_generalized_rdf == o.produce_generalized_rdf,
    }
}
impl<Iri> RemoteDocument<Iri, JsValue> {
//@ extract fn trait JsonLdProcessor > compare_with_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compare_with_using<'a, N>( => compare_with_using<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == compared::<Iri, N::BlankId>(*self, *other, options),
//@ end
//@ extract fn trait JsonLdProcessor > compare_with from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compare_with<'a, N>( => compare_with<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == compared::<Iri, N::BlankId>(*self, *other, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > compare_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compare_using<'a>( => compare_using<'a, L: Loader>(
//@ spec
    ensures r == compared::<Iri, BlankIdBuf>(*self, *other, options),
//@ end
//@ extract fn trait JsonLdProcessor > compare from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compare<'a>( => compare<'a, L: Loader>(
//@ spec
    ensures r == compared::<Iri, BlankIdBuf>(*self, *other, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > expand_with_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst expand_with_using<'a, N>( => expand_with_using<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == expanded::<Iri, N::BlankId>(*self, options),
//@ end
//@ extract fn trait JsonLdProcessor > expand_with from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst expand_with<'a, N>( => expand_with<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == expanded::<Iri, N::BlankId>(*self, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > expand_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst expand_using<'a>( => expand_using<'a, L: Loader>(
//@ spec
    ensures r == expanded::<Iri, BlankIdBuf>(*self, options),
//@ end
//@ extract fn trait JsonLdProcessor > expand from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst expand<'a>( => expand<'a, L: Loader>(
//@ spec
    ensures r == expanded::<Iri, BlankIdBuf>(*self, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > into_document_with_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst into_document_with_using<'a, N>( => into_document_with_using<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == documented::<Iri, N::BlankId>(self, options),
//@ end
//@ extract fn trait JsonLdProcessor > into_document_with from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst into_document_with<'a, N>( => into_document_with<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == documented::<Iri, N::BlankId>(self, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > into_document from src/processor/mod.rs
//@ ret r
//@ rename into_document_short
//@ subst into_document_short<'a>( => into_document_short<'a, L: Loader>(
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst into_document<'a>( => into_document<'a, L: Loader>(
//@ spec
    ensures r == documented::<Iri, BlankIdBuf>(self, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > compact_with_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compact_with_using<'a, N>( => compact_with_using<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == compacted::<Iri, N::BlankId>(*self, context, options),
//@ end
//@ extract fn trait JsonLdProcessor > compact_with from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compact_with<'a, N>( => compact_with<'a, N: VocabularyMut<Iri = Iri>, L: Loader>(
//@ spec
    ensures r == compacted::<Iri, N::BlankId>(*self, context, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > compact_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compact_using<'a>( => compact_using<'a, L: Loader>(
//@ spec
    ensures r == compacted::<Iri, BlankIdBuf>(*self, context, options),
//@ end
//@ extract fn trait JsonLdProcessor > compact from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst compact<'a>( => compact<'a, L: Loader>(
//@ spec
    ensures r == compacted::<Iri, BlankIdBuf>(*self, context, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > flatten_with_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst flatten_with_using<'a, N>( => flatten_with_using<'a, N: VocabularyMut<Iri = Iri>, L: Loader, G: Generator<N>>(
//@ spec
    ensures r == flattened::<Iri, N::BlankId>(*self, None, options),
//@ end
//@ extract fn trait JsonLdProcessor > flatten_with from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst flatten_with<'a, N>( => flatten_with<'a, N: VocabularyMut<Iri = Iri>, L: Loader, G: Generator<N>>(
//@ spec
    ensures r == flattened::<Iri, N::BlankId>(*self, None, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > flatten_using from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst flatten_using<'a>( => flatten_using<'a, L: Loader, G: Generator<NoVocabulary<Iri>>>(
//@ spec
    ensures r == flattened::<Iri, BlankIdBuf>(*self, None, options),
//@ end
//@ extract fn trait JsonLdProcessor > flatten from src/processor/mod.rs
//@ ret r
//@ subst &'a impl Loader => &'a L
//@ subst &impl Loader => &L
//@ subst &'a mut impl Generator<N> => &'a mut G
//@ subst &'a mut impl Generator => &'a mut G
//@ subst rdf_types::vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst vocabulary::no_vocabulary_mut() => vx_no_vocabulary::<Iri>()
//@ subst options, ()) => options, Ignore)
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst flatten<'a>( => flatten<'a, L: Loader, G: Generator<NoVocabulary<Iri>>>(
//@ spec
    ensures r == flattened::<Iri, BlankIdBuf>(*self, None, standard()),
//@ end
//@ extract fn trait JsonLdProcessor > to_rdf_full from src/processor/mod.rs
//@ ret r
//@ subst &impl Loader => &L
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst ~ options, ()) => options, Ignore)
//@ subst Options::default(), ()) => Options::default(), Ignore)
//@ subst self.to_rdf_with_using((), => self.to_rdf_with_using(NoVocabulary::<Iri>::one(),
//@ subst to_rdf_full<N, G>( => to_rdf_full<N: VocabularyMut<Iri = Iri>, G: Generator<N>, L: Loader, W: WarningHandler<N>>(
//@ subst to_rdf_full<G>( => to_rdf_full<G: Generator<NoVocabulary<Iri>>, L: Loader>(
//@ subst ~ G: Generator, => G: Sized,
//@ subst ToRdfResult<(), G> => ToRdfResult<NoVocabulary<Iri>, G>
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ start
    let mut vocabulary = vocabulary;
//@ subst self .expand_full => self.expand_full
//@ spec
    ensures serialised::<N, G>(*self, options, r),
//@ end
//@ extract fn trait JsonLdProcessor > to_rdf_with_using from src/processor/mod.rs
//@ ret r
//@ subst &impl Loader => &L
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst ~ options, ()) => options, Ignore)
//@ subst Options::default(), ()) => Options::default(), Ignore)
//@ subst self.to_rdf_with_using((), => self.to_rdf_with_using(NoVocabulary::<Iri>::one(),
//@ subst to_rdf_with_using<N, G>( => to_rdf_with_using<N: VocabularyMut<Iri = Iri>, G: Generator<N>, L: Loader>(
//@ subst to_rdf_with_using<G>( => to_rdf_with_using<G: Generator<NoVocabulary<Iri>>, L: Loader>(
//@ subst ~ G: Generator, => G: Sized,
//@ subst ToRdfResult<(), G> => ToRdfResult<NoVocabulary<Iri>, G>
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ spec
    ensures serialised::<N, G>(*self, options, r),
//@ end
//@ extract fn trait JsonLdProcessor > to_rdf_with from src/processor/mod.rs
//@ ret r
//@ subst &impl Loader => &L
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst ~ options, ()) => options, Ignore)
//@ subst Options::default(), ()) => Options::default(), Ignore)
//@ subst self.to_rdf_with_using((), => self.to_rdf_with_using(NoVocabulary::<Iri>::one(),
//@ subst to_rdf_with<N, G>( => to_rdf_with<N: VocabularyMut<Iri = Iri>, G: Generator<N>, L: Loader>(
//@ subst to_rdf_with<G>( => to_rdf_with<G: Generator<NoVocabulary<Iri>>, L: Loader>(
//@ subst ~ G: Generator, => G: Sized,
//@ subst ToRdfResult<(), G> => ToRdfResult<NoVocabulary<Iri>, G>
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ spec
    ensures serialised::<N, G>(*self, standard::<Iri>(), r),
//@ end
//@ extract fn trait JsonLdProcessor > to_rdf_using from src/processor/mod.rs
//@ ret r
//@ subst &impl Loader => &L
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst ~ options, ()) => options, Ignore)
//@ subst Options::default(), ()) => Options::default(), Ignore)
//@ subst self.to_rdf_with_using((), => self.to_rdf_with_using(NoVocabulary::<Iri>::one(),
//@ subst to_rdf_using<N, G>( => to_rdf_using<N: VocabularyMut<Iri = Iri>, G: Generator<N>, L: Loader>(
//@ subst to_rdf_using<G>( => to_rdf_using<G: Generator<NoVocabulary<Iri>>, L: Loader>(
//@ subst ~ G: Generator, => G: Sized,
//@ subst ToRdfResult<(), G> => ToRdfResult<NoVocabulary<Iri>, G>
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ spec
    ensures serialised::<NoVocabulary<Iri>, G>(*self, options, r),
//@ end
//@ extract fn trait JsonLdProcessor > to_rdf from src/processor/mod.rs
//@ ret r
//@ subst &impl Loader => &L
//@ subst (): VocabularyMut<Iri = Iri> => Iri: Sized
//@ subst ~ options, ()) => options, Ignore)
//@ subst Options::default(), ()) => Options::default(), Ignore)
//@ subst self.to_rdf_with_using((), => self.to_rdf_with_using(NoVocabulary::<Iri>::one(),
//@ subst to_rdf<N, G>( => to_rdf<N: VocabularyMut<Iri = Iri>, G: Generator<N>, L: Loader>(
//@ subst to_rdf<G>( => to_rdf<G: Generator<NoVocabulary<Iri>>, L: Loader>(
//@ subst ~ G: Generator, => G: Sized,
//@ subst ToRdfResult<(), G> => ToRdfResult<NoVocabulary<Iri>, G>
//@ subst impl context_processing::WarningHandler<N> + expansion::WarningHandler<N> => W
//@ desugar result.map_err
//@ spec
    ensures serialised::<NoVocabulary<Iri>, G>(*self, standard::<Iri>(), r),
//@ end
}
}
fn main() {}
