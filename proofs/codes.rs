//! P29: error codes: the code of each failure, and the texts of the codes, as JSON-LD 1.1 names them
use vstd::prelude::*;
verus! {
//@ vacuity-decls
#[verifier::external_body] pub struct LoadError { x: String }
#[verifier::external_body] pub struct ExtractContextError { x: String }
#[verifier::external_body] pub struct JsKind { x: String }
#[verifier::external_body] pub struct JsKey { x: String }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)] pub struct ConflictingIndexes<I, B> { x: Vec<(I, B)> }
//@ extract enum ContextLoadError from crates/core/src/loader/mod.rs
//@ end
//@ extract enum ErrorCode from crates/syntax/src/error.rs
//@ end
/// assumed: string slices are equal when their characters are (`==` and patterns compare the characters)
broadcast axiom fn str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub open spec fn text(c: ErrorCode) -> Seq<char> {
    match c {
        ErrorCode::CollidingKeywords => "colliding keywords"@,
        ErrorCode::ConflictingIndexes => "conflicting indexes"@,
        ErrorCode::ContextOverflow => "context overflow"@,
        ErrorCode::CyclicIriMapping => "cyclic IRI mapping"@,
        ErrorCode::InvalidIdValue => "invalid @id value"@,
        ErrorCode::InvalidImportValue => "invalid @import value"@,
        ErrorCode::InvalidIncludedValue => "invalid @included value"@,
        ErrorCode::InvalidIndexValue => "invalid @index value"@,
        ErrorCode::InvalidNestValue => "invalid @nest value"@,
        ErrorCode::InvalidPrefixValue => "invalid @prefix value"@,
        ErrorCode::InvalidPropagateValue => "invalid @propagate value"@,
        ErrorCode::InvalidProtectedValue => "invalid @protected value"@,
        ErrorCode::InvalidReverseValue => "invalid @reverse value"@,
        ErrorCode::InvalidVersionValue => "invalid @version value"@,
        ErrorCode::InvalidBaseDirection => "invalid base direction"@,
        ErrorCode::InvalidBaseIri => "invalid base IRI"@,
        ErrorCode::InvalidContainerMapping => "invalid container mapping"@,
        ErrorCode::InvalidContextEntry => "invalid context entry"@,
        ErrorCode::InvalidContextNullification => "invalid context nullification"@,
        ErrorCode::InvalidDefaultLanguage => "invalid default language"@,
        ErrorCode::InvalidIriMapping => "invalid IRI mapping"@,
        ErrorCode::InvalidJsonLiteral => "invalid JSON literal"@,
        ErrorCode::InvalidKeywordAlias => "invalid keyword alias"@,
        ErrorCode::InvalidLanguageMapValue => "invalid language map value"@,
        ErrorCode::InvalidLanguageMapping => "invalid language mapping"@,
        ErrorCode::InvalidLanguageTaggedString => "invalid language-tagged string"@,
        ErrorCode::InvalidLanguageTaggedValue => "invalid language-tagged value"@,
        ErrorCode::InvalidLocalContext => "invalid local context"@,
        ErrorCode::InvalidRemoteContext => "invalid remote context"@,
        ErrorCode::InvalidReverseProperty => "invalid reverse property"@,
        ErrorCode::InvalidReversePropertyMap => "invalid reverse property map"@,
        ErrorCode::InvalidReversePropertyValue => "invalid reverse property value"@,
        ErrorCode::InvalidScopedContext => "invalid scoped context"@,
        ErrorCode::InvalidScriptElement => "invalid script element"@,
        ErrorCode::InvalidSetOrListObject => "invalid set or list object"@,
        ErrorCode::InvalidTermDefinition => "invalid term definition"@,
        ErrorCode::InvalidTypeMapping => "invalid type mapping"@,
        ErrorCode::InvalidTypeValue => "invalid type value"@,
        ErrorCode::InvalidTypedValue => "invalid typed value"@,
        ErrorCode::InvalidValueObject => "invalid value object"@,
        ErrorCode::InvalidValueObjectValue => "invalid value object value"@,
        ErrorCode::InvalidVocabMapping => "invalid vocab mapping"@,
        ErrorCode::IriConfusedWithPrefix => "IRI confused with prefix"@,
        ErrorCode::KeyExpansionFailed => "key expansion failed"@,
        ErrorCode::KeywordRedefinition => "keyword redefinition"@,
        ErrorCode::LoadingDocumentFailed => "loading document failed"@,
        ErrorCode::LoadingRemoteContextFailed => "loading remote context failed"@,
        ErrorCode::MultipleContextLinkHeaders => "multiple context link headers"@,
        ErrorCode::ProcessingModeConflict => "processing mode conflict"@,
        ErrorCode::ProtectedTermRedefinition => "protected term redefinition"@,
        ErrorCode::DuplicateKey => "duplicate key"@,
    }
}
impl ErrorCode {
//@ extract fn impl ErrorCode > as_str from crates/syntax/src/error.rs
//@ ret r
//@ spec
    ensures r@ == text(*self),
//@ end
//@ extract fn impl TryFrom<&'a str> for ErrorCode > try_from from crates/syntax/src/error.rs
//@ ret r
//@ subst fn try_from(name: => fn try_from<'a>(name:
//@ start
    broadcast use str_ext;
//@ spec
    ensures (match r { Ok(c) => text(c) == name@, Err(_) => forall|c: ErrorCode| #[trigger] text(c) != name@ }),
//@ end
}
pub mod context_syntax { use super::*; verus! {
//@ extract enum InvalidContext from crates/syntax/src/context/try_from_json.rs
//@ subst json_syntax::Kind => JsKind
//@ end
pub open spec fn ccode(e: InvalidContext) -> ErrorCode {
    match e {
        InvalidContext::InvalidIriRef(_) => ErrorCode::InvalidIriMapping,
        InvalidContext::Unexpected(_, _) => ErrorCode::InvalidContextEntry,
        InvalidContext::InvalidDirection => ErrorCode::InvalidBaseDirection,
        InvalidContext::DuplicateKey => ErrorCode::DuplicateKey,
        InvalidContext::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
        InvalidContext::InvalidNestValue(_) => ErrorCode::InvalidNestValue,
    }
}
impl InvalidContext {
pub
//@ extract fn impl InvalidContext > code from crates/syntax/src/context/try_from_json.rs
//@ ret r
//@ spec
    ensures r == ccode(*self),
//@ end
}
} }
pub mod context_processing { use super::*; verus! {
//@ extract enum Error from crates/context-processing/src/lib.rs
//@ end
pub open spec fn pcode(e: Error) -> ErrorCode {
    match e {
        Error::InvalidContextNullification => ErrorCode::InvalidContextNullification,
        Error::LoadingDocumentFailed => ErrorCode::LoadingDocumentFailed,
        Error::ProcessingModeConflict => ErrorCode::ProcessingModeConflict,
        Error::InvalidContextEntry => ErrorCode::InvalidContextEntry,
        Error::InvalidImportValue => ErrorCode::InvalidImportValue,
        Error::InvalidRemoteContext => ErrorCode::InvalidRemoteContext,
        Error::InvalidBaseIri => ErrorCode::InvalidBaseIri,
        Error::InvalidVocabMapping => ErrorCode::InvalidVocabMapping,
        Error::CyclicIriMapping => ErrorCode::CyclicIriMapping,
        Error::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
        Error::KeywordRedefinition => ErrorCode::KeywordRedefinition,
        Error::InvalidProtectedValue => ErrorCode::InvalidProtectedValue,
        Error::InvalidTypeMapping => ErrorCode::InvalidTypeMapping,
        Error::InvalidReverseProperty => ErrorCode::InvalidReverseProperty,
        Error::InvalidIriMapping => ErrorCode::InvalidIriMapping,
        Error::InvalidKeywordAlias => ErrorCode::InvalidKeywordAlias,
        Error::InvalidContainerMapping => ErrorCode::InvalidContainerMapping,
        Error::InvalidScopedContext => ErrorCode::InvalidScopedContext,
        Error::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
        // the document of a remote context cannot be had, or is not a context
        Error::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
        Error::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
        Error::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
    }
}
impl Error {
pub
//@ extract fn impl Error > code from crates/context-processing/src/lib.rs
//@ ret r
//@ spec
    ensures r == pcode(*self),
//@ end
}
} }
pub mod expansion { use super::*; verus! {
//@ extract enum InvalidValue from crates/expansion/src/value.rs
//@ end
//@ extract enum LiteralExpansionError from crates/expansion/src/literal.rs
//@ end
//@ extract enum Error from crates/expansion/src/error.rs
//@ subst json_ld_syntax::context::InvalidContext => context_syntax::InvalidContext
//@ subst json_ld_context_processing::Error => context_processing::Error
//@ subst crate::LiteralExpansionError => LiteralExpansionError
//@ subst crate::InvalidValue => InvalidValue
//@ subst json_syntax::object::Key => JsKey
//@ end
pub open spec fn vcode(e: InvalidValue) -> ErrorCode {
    match e {
        InvalidValue::LanguageTaggedString => ErrorCode::InvalidLanguageTaggedString,
        InvalidValue::BaseDirection => ErrorCode::InvalidBaseDirection,
        InvalidValue::IndexValue => ErrorCode::InvalidIndexValue,
        InvalidValue::TypedValue => ErrorCode::InvalidTypedValue,
        InvalidValue::ValueObject => ErrorCode::InvalidValueObject,
        InvalidValue::ValueObjectValue => ErrorCode::InvalidValueObjectValue,
        InvalidValue::LanguageTaggedValue => ErrorCode::InvalidLanguageTaggedValue,
        InvalidValue::ForbiddenVocab => ErrorCode::InvalidTypeValue,
    }
}
pub open spec fn xcode(e: Error) -> ErrorCode {
    match e {
        Error::ContextSyntax(e) => context_syntax::ccode(e),
        Error::ContextProcessing(e) => context_processing::pcode(e),
        Error::InvalidIndexValue => ErrorCode::InvalidIndexValue,
        Error::InvalidSetOrListObject => ErrorCode::InvalidSetOrListObject,
        Error::InvalidReversePropertyMap => ErrorCode::InvalidReversePropertyMap,
        Error::InvalidTypeValue => ErrorCode::InvalidTypeValue,
        Error::KeyExpansionFailed(_) => ErrorCode::KeyExpansionFailed,
        Error::InvalidReversePropertyValue => ErrorCode::InvalidReversePropertyValue,
        Error::InvalidLanguageMapValue => ErrorCode::InvalidLanguageMapValue,
        Error::CollidingKeywords => ErrorCode::CollidingKeywords,
        Error::InvalidIdValue => ErrorCode::InvalidIdValue,
        Error::InvalidIncludedValue => ErrorCode::InvalidIncludedValue,
        Error::InvalidReverseValue => ErrorCode::InvalidReverseValue,
        Error::InvalidNestValue => ErrorCode::InvalidNestValue,
        Error::DuplicateKey(_) => ErrorCode::DuplicateKey,
        Error::Literal(_) => ErrorCode::InvalidTypeValue,
        Error::Value(e) => vcode(e),
        Error::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
    }
}
impl InvalidValue {
pub
//@ extract fn impl InvalidValue > code from crates/expansion/src/value.rs
//@ ret r
//@ spec
    ensures r == vcode(*self),
//@ end
}
impl LiteralExpansionError {
pub
//@ extract fn impl LiteralExpansionError > code from crates/expansion/src/literal.rs
//@ ret r
//@ spec
    ensures r == ErrorCode::InvalidTypeValue,
//@ end
}
impl Error {
pub
//@ extract fn impl Error > code from crates/expansion/src/error.rs
//@ ret r
//@ spec
    ensures r == xcode(*self),
//@ end
}
} }
pub mod compaction { use super::*; verus! {
//@ extract enum Error from crates/compaction/src/lib.rs
//@ subst json_ld_context_processing::Error => context_processing::Error
//@ end
pub open spec fn kcode(e: Error) -> ErrorCode {
    match e {
        Error::IriConfusedWithPrefix => ErrorCode::IriConfusedWithPrefix,
        Error::InvalidNestValue => ErrorCode::InvalidNestValue,
        Error::ContextProcessing(e) => context_processing::pcode(e),
    }
}
impl Error {
pub
//@ extract fn impl Error > code from crates/compaction/src/lib.rs
//@ ret r
//@ spec
    ensures r == kcode(*self),
//@ end
}
} }
//@ extract enum ExpandError from src/processor/mod.rs
//@ end
//@ extract enum CompactError from src/processor/mod.rs
//@ end
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(B)]
//@ extract enum FlattenError from src/processor/mod.rs
//@ end
//@ extract enum ToRdfError from src/processor/mod.rs
//@ end
pub open spec fn lcode(e: ContextLoadError) -> ErrorCode {
    match e { ContextLoadError::LoadingDocumentFailed(_) => ErrorCode::LoadingRemoteContextFailed, ContextLoadError::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext }
}
impl ContextLoadError {
pub
//@ extract fn impl ContextLoadError > code from crates/core/src/loader/mod.rs
//@ ret r
//@ spec
    ensures r == lcode(*self),
//@ end
}
pub open spec fn ecode(e: ExpandError) -> ErrorCode {
    match e { ExpandError::Expansion(e) => expansion::xcode(e), ExpandError::ContextProcessing(e) => context_processing::pcode(e), ExpandError::Loading(_) => ErrorCode::LoadingDocumentFailed, ExpandError::ContextLoading(e) => lcode(e) }
}
pub open spec fn ocode(e: CompactError) -> ErrorCode {
    match e { CompactError::Expand(e) => ecode(e), CompactError::Compaction(e) => compaction::kcode(e), CompactError::ContextProcessing(e) => context_processing::pcode(e), CompactError::Loading(_) => ErrorCode::LoadingDocumentFailed, CompactError::ContextLoading(e) => lcode(e) }
}
pub open spec fn fcode<I, B>(e: FlattenError<I, B>) -> ErrorCode {
    match e { FlattenError::Expand(e) => ecode(e), FlattenError::Compact(e) => ocode(e), FlattenError::ConflictingIndexes(_) => ErrorCode::ConflictingIndexes, FlattenError::Loading(_) => ErrorCode::LoadingDocumentFailed, FlattenError::ContextLoading(e) => lcode(e) }
}
impl ExpandError {
pub
//@ extract fn impl ExpandError > code from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == ecode(*self),
//@ end
}
impl CompactError {
pub
//@ extract fn impl CompactError > code from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == ocode(*self),
//@ end
}
impl<I, B> FlattenError<I, B> {
pub
//@ extract fn impl FlattenError > code from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == fcode(*self),
//@ end
}
impl ToRdfError {
pub
//@ extract fn impl ToRdfError > code from src/processor/mod.rs
//@ ret r
//@ spec
    ensures r == (match *self { ToRdfError::Expand(e) => ecode(e) }),
//@ end
}
}
fn main() {}
