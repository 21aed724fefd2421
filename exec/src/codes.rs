//! Error codes: the texts of the codes, and the code of each failure.
use crate::run::Run;
use crate::util;
use json_ld::syntax::ErrorCode as C;
use json_ld::{compaction, context_processing as cp, expansion as ex, syntax, ContextLoadError as CL, ExtractContextError, JsonLdProcessor, LoadError};
use json_ld::{CompactError, ExpandError, FlattenError, ToRdfError};

const CODES: &[(C, &str)] = &[
    (C::CollidingKeywords, "colliding keywords"),
    (C::ConflictingIndexes, "conflicting indexes"),
    (C::ContextOverflow, "context overflow"),
    (C::CyclicIriMapping, "cyclic IRI mapping"),
    (C::InvalidIdValue, "invalid @id value"),
    (C::InvalidImportValue, "invalid @import value"),
    (C::InvalidIncludedValue, "invalid @included value"),
    (C::InvalidIndexValue, "invalid @index value"),
    (C::InvalidNestValue, "invalid @nest value"),
    (C::InvalidPrefixValue, "invalid @prefix value"),
    (C::InvalidPropagateValue, "invalid @propagate value"),
    (C::InvalidProtectedValue, "invalid @protected value"),
    (C::InvalidReverseValue, "invalid @reverse value"),
    (C::InvalidVersionValue, "invalid @version value"),
    (C::InvalidBaseDirection, "invalid base direction"),
    (C::InvalidBaseIri, "invalid base IRI"),
    (C::InvalidContainerMapping, "invalid container mapping"),
    (C::InvalidContextEntry, "invalid context entry"),
    (C::InvalidContextNullification, "invalid context nullification"),
    (C::InvalidDefaultLanguage, "invalid default language"),
    (C::InvalidIriMapping, "invalid IRI mapping"),
    (C::InvalidJsonLiteral, "invalid JSON literal"),
    (C::InvalidKeywordAlias, "invalid keyword alias"),
    (C::InvalidLanguageMapValue, "invalid language map value"),
    (C::InvalidLanguageMapping, "invalid language mapping"),
    (C::InvalidLanguageTaggedString, "invalid language-tagged string"),
    (C::InvalidLanguageTaggedValue, "invalid language-tagged value"),
    (C::InvalidLocalContext, "invalid local context"),
    (C::InvalidRemoteContext, "invalid remote context"),
    (C::InvalidReverseProperty, "invalid reverse property"),
    (C::InvalidReversePropertyMap, "invalid reverse property map"),
    (C::InvalidReversePropertyValue, "invalid reverse property value"),
    (C::InvalidScopedContext, "invalid scoped context"),
    (C::InvalidScriptElement, "invalid script element"),
    (C::InvalidSetOrListObject, "invalid set or list object"),
    (C::InvalidTermDefinition, "invalid term definition"),
    (C::InvalidTypeMapping, "invalid type mapping"),
    (C::InvalidTypeValue, "invalid type value"),
    (C::InvalidTypedValue, "invalid typed value"),
    (C::InvalidValueObject, "invalid value object"),
    (C::InvalidValueObjectValue, "invalid value object value"),
    (C::InvalidVocabMapping, "invalid vocab mapping"),
    (C::IriConfusedWithPrefix, "IRI confused with prefix"),
    (C::KeyExpansionFailed, "key expansion failed"),
    (C::KeywordRedefinition, "keyword redefinition"),
    (C::LoadingDocumentFailed, "loading document failed"),
    (C::LoadingRemoteContextFailed, "loading remote context failed"),
    (C::MultipleContextLinkHeaders, "multiple context link headers"),
    (C::ProcessingModeConflict, "processing mode conflict"),
    (C::ProtectedTermRedefinition, "protected term redefinition"),
    (C::DuplicateKey, "duplicate key"),
];
fn load() -> LoadError { LoadError::new(util::iri("http://a/b"), std::io::Error::new(std::io::ErrorKind::Other, "no")) }
fn processing() -> Vec<(cp::Error, &'static str)> {
    use cp::Error::*;
    vec![
        (InvalidContextNullification, "invalid context nullification"), (LoadingDocumentFailed, "loading document failed"), (ProcessingModeConflict, "processing mode conflict"), (InvalidContextEntry, "invalid context entry"),
        (InvalidImportValue, "invalid @import value"), (InvalidRemoteContext, "invalid remote context"), (InvalidBaseIri, "invalid base IRI"), (InvalidVocabMapping, "invalid vocab mapping"), (CyclicIriMapping, "cyclic IRI mapping"),
        (InvalidTermDefinition, "invalid term definition"), (KeywordRedefinition, "keyword redefinition"), (InvalidProtectedValue, "invalid @protected value"), (InvalidTypeMapping, "invalid type mapping"), (InvalidReverseProperty, "invalid reverse property"),
        (InvalidIriMapping, "invalid IRI mapping"), (InvalidKeywordAlias, "invalid keyword alias"), (InvalidContainerMapping, "invalid container mapping"), (InvalidScopedContext, "invalid scoped context"), (ProtectedTermRedefinition, "protected term redefinition"),
        (ContextLoadingFailed(load()), "loading remote context failed"), (ContextExtractionFailed(ExtractContextError::NoContext), "invalid remote context"), (ForbiddenVocab, "invalid vocab mapping"),
    ]
}
fn syntactic() -> Vec<(syntax::context::InvalidContext, &'static str)> {
    use syntax::context::InvalidContext::*;
    vec![(InvalidIriRef("x y".into()), "invalid IRI mapping"), (Unexpected(json_syntax::Kind::Number, &[json_syntax::Kind::String]), "invalid context entry"), (InvalidDirection, "invalid base direction"), (DuplicateKey, "duplicate key"), (InvalidTermDefinition, "invalid term definition"), (InvalidNestValue("@id".into()), "invalid @nest value")]
}
fn expansion() -> Vec<(ex::Error, &'static str)> {
    use ex::Error::*;
    let mut v = vec![
        (InvalidIndexValue, "invalid @index value"), (InvalidSetOrListObject, "invalid set or list object"), (InvalidReversePropertyMap, "invalid reverse property map"), (InvalidTypeValue, "invalid type value"), (KeyExpansionFailed("k".into()), "key expansion failed"),
        (InvalidReversePropertyValue, "invalid reverse property value"), (InvalidLanguageMapValue, "invalid language map value"), (CollidingKeywords, "colliding keywords"), (InvalidIdValue, "invalid @id value"), (InvalidIncludedValue, "invalid @included value"),
        (InvalidReverseValue, "invalid @reverse value"), (InvalidNestValue, "invalid @nest value"), (DuplicateKey("k".into()), "duplicate key"), (ForbiddenVocab, "invalid vocab mapping"),
    ];
    for (e, c) in processing() { v.push((ContextProcessing(e), c)) }
    for (e, c) in syntactic() { v.push((ContextSyntax(e), c)) }
    v
}
fn expand() -> Vec<(ExpandError, &'static str)> {
    let mut v = vec![(ExpandError::Loading(load()), "loading document failed"), (ExpandError::ContextLoading(CL::LoadingDocumentFailed(load())), "loading remote context failed"), (ExpandError::ContextLoading(CL::ContextExtractionFailed(ExtractContextError::NoContext)), "invalid remote context")];
    for (e, c) in expansion() { v.push((ExpandError::Expansion(e), c)) }
    for (e, c) in processing() { v.push((ExpandError::ContextProcessing(e), c)) }
    v
}
fn compact() -> Vec<(CompactError, &'static str)> {
    use compaction::Error as K;
    let mut v = vec![(CompactError::Loading(load()), "loading document failed"), (CompactError::ContextLoading(CL::LoadingDocumentFailed(load())), "loading remote context failed"), (CompactError::ContextLoading(CL::ContextExtractionFailed(ExtractContextError::NoContext)), "invalid remote context"),
        (CompactError::Compaction(K::IriConfusedWithPrefix), "IRI confused with prefix"), (CompactError::Compaction(K::InvalidNestValue), "invalid @nest value")];
    for (e, c) in expand() { v.push((CompactError::Expand(e), c)) }
    for (e, c) in processing() { v.push((CompactError::ContextProcessing(e), c)) }
    for (e, c) in processing() { v.push((CompactError::Compaction(K::ContextProcessing(e)), c)) }
    v
}
fn flatten() -> Vec<(FlattenError<iref::IriBuf, rdf_types::BlankIdBuf>, &'static str)> {
    let mut v = vec![(FlattenError::Loading(load()), "loading document failed"), (FlattenError::ContextLoading(CL::LoadingDocumentFailed(load())), "loading remote context failed"), (FlattenError::ContextLoading(CL::ContextExtractionFailed(ExtractContextError::NoContext)), "invalid remote context")];
    for (e, c) in expand() { v.push((FlattenError::Expand(e), c)) }
    for (e, c) in compact() { v.push((FlattenError::Compact(e), c)) }
    v
}
/// documents that fail, each for one reason
const BAD: &[(&str, &str)] = &[
    (r#"{"@id": 5}"#, "invalid @id value"),
    (r#"{"@context": {"id": "@id"}, "@id": "http://a/1", "id": "http://a/2"}"#, "colliding keywords"),
    (r#"{"@context": "http://ctx/none"}"#, "loading remote context failed"),
    (r#"{"@context": "http://ctx/empty"}"#, "invalid remote context"),
    (r#"{"@context": "http://ctx/list"}"#, "invalid remote context"),
    (r#"{"@context": {"@import": "http://ctx/empty"}}"#, "invalid remote context"),
    (r#"{"@context": {"@import": "http://ctx/none"}}"#, "loading remote context failed"),
    (r#"{"@context": {"@import": "http://ctx/imports"}}"#, "invalid context entry"),
    (r#"{"@context": {"a": {"@id": "b:x"}, "b": {"@id": "a:x"}}}"#, "cyclic IRI mapping"),
    (r#"{"@context": {"a": {"@id": "@context"}}}"#, "invalid keyword alias"),
    (r#"{"@context": {"a": {"@id": "http://a/a", "@type": "@set"}}}"#, "invalid type mapping"),
    (r#"{"@context": {"a": {"@id": "http://a/a", "@type": "_:b"}}}"#, "invalid type mapping"),
    (r#"{"@context": {"a": {"@reverse": "http://a/a", "@container": "@list"}}}"#, "invalid reverse property"),
    (r#"{"@context": {"a": {"@reverse": "http://a/a", "@nest": "@nest"}}}"#, "invalid reverse property"),
    (r#"{"@context": {"a": {"@id": "http://a/a", "@container": ["@list", "@set"]}}}"#, "invalid container mapping"),
    (r#"{"@context": {"a": {"@type": "@id"}}}"#, "invalid IRI mapping"),
    (r#"{"@context": {"@id": "http://a/a"}}"#, "keyword redefinition"),
    (r#"{"@context": {"a": {"@id": "http://a/a", "@context": {"b": {"@type": "@id"}}}}}"#, "invalid scoped context"),
    (r#"{"@context": [{"a": {"@id": "http://a/a", "@protected": true}}, {"a": "http://a/b"}]}"#, "protected term redefinition"),
    (r#"{"@context": [{"a": {"@id": "http://a/a", "@protected": true}}, null]}"#, "invalid context nullification"),
    (r#"{"@context": {"a/b": {"@id": "http://a/a"}}}"#, "invalid IRI mapping"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@list": [1], "@id": "http://a/1"}}"#, "invalid set or list object"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": 1, "@language": "en"}}"#, "invalid language-tagged value"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": "x", "@language": 1}}"#, "invalid language-tagged string"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": "x", "@direction": "up"}}"#, "invalid base direction"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": "x", "@type": "_:t"}}"#, "invalid typed value"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": "x", "@type": "T", "@language": "en"}}"#, "invalid value object"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@value": {}}}"#, "invalid value object value"),
    (r#"{"@context": {"@vocab": "http://a/"}, "p": {"@id": "http://a/1", "@index": 1}}"#, "invalid @index value"),
    (r#"{"@type": 1}"#, "invalid type value"),
    (r#"{"@reverse": 1}"#, "invalid @reverse value"),
    (r#"{"@reverse": {"@id": "http://a/1"}}"#, "invalid reverse property map"),
    (r#"{"@reverse": {"http://a/p": "x"}}"#, "invalid reverse property value"),
    (r#"{"@included": "x"}"#, "invalid @included value"),
    (r#"{"@nest": "x"}"#, "invalid @nest value"),
    (r#"{"@context": {"lm": {"@id": "http://a/lm", "@container": "@language"}}, "lm": {"en": 1}}"#, "invalid language map value"),
];
pub fn run(r: &mut Run) {
    for (c, t) in CODES {
        r.eq("a code has the standard's name, both ways", t, (t.to_string(), t.to_string(), Some(*c)), || (c.as_str().to_string(), c.to_string(), C::try_from(*t).ok()));
    }
    for (_, t) in CODES { for s in [t.to_uppercase(), format!("{t} "), t.replace(' ', ""), t[1..].to_string(), format!("{t}s")] {
        if CODES.iter().any(|(_, t)| *t == s) { continue }
        r.holds("no other text names a code", &s, || C::try_from(s.as_str()).is_err());
    } }
    let name = |c: C| CODES.iter().find(|x| x.0 == c).unwrap().1;
    macro_rules! table { ($($f:ident)*) => { $(for (k, (e, c)) in $f().into_iter().enumerate() { r.eq("each failure has its code", &format!("{} {k} {e:?}", stringify!($f)), c, || name(e.code())) })* } }
    table!(processing syntactic expansion expand compact flatten);
    for (e, c) in expand() { r.eq("each failure has its code", &format!("RDF {e:?}"), c, || name(ToRdfError::Expand(e).code())) }
    let docs = util::docs(&[("http://ctx/empty", "{}"), ("http://ctx/list", "[]"), ("http://ctx/imports", r#"{"@context": {"@import": "http://ctx/empty"}}"#), ("http://doc/bad", r#"{"@id": 5}"#)]);
    for (d, c) in BAD {
        let doc = || json_ld::RemoteDocument::new(None, None, util::j(d));
        r.eq("a faulty document is refused with its code", d, Err(*c), || util::block(doc().expand(&docs)).map(|_| ()).map_err(|e| name(e.code())));
        r.eq("a faulty document is refused with its code", d, Err(*c), || util::block(doc().flatten(&mut rdf_types::generator::Blank::new(), &docs)).map(|_| ()).map_err(|e| name(e.code())));
        r.eq("a faulty document is refused with its code", d, Err(*c), || util::block(doc().to_rdf(rdf_types::generator::Blank::new(), &docs)).map(|_| ()).map_err(|e| name(e.code())));
        let empty = || json_ld::RemoteDocumentReference::Loaded(json_ld::RemoteDocument::new(None, None, util::context("{}").unwrap()));
        r.eq("a faulty document is refused with its code", d, Err(*c), || util::block(doc().compact(empty(), &docs)).map(|_| ()).map_err(|e| name(e.code())));
    }
    for d in [r#"[{"@id":"http://a/i","@index":"x"},{"@id":"http://a/i","@index":"y"}]"#, r#"{"@id":"_:b","@index":"x","http://a/p":{"@list":[{"@id":"_:b","@index":"y"}]}}"#] {
        let doc = json_ld::RemoteDocument::new(None, None, util::j(d));
        r.eq("a faulty document is refused with its code", d, Err("conflicting indexes"), || util::block(doc.flatten(&mut rdf_types::generator::Blank::new(), &docs)).map(|_| ()).map_err(|e| name(e.code())));
    }
    for (u, c) in [("http://doc/bad", "invalid @id value"), ("http://doc/none", "loading document failed")] {
        let doc = json_ld::RemoteDocumentReference::iri(util::iri(u));
        r.eq("a faulty document is refused with its code", u, Err(c), || util::block(doc.expand(&docs)).map(|_| ()).map_err(|e| name(e.code())));
    }
    for (u, c) in [("http://ctx/empty", "invalid remote context"), ("http://ctx/none", "loading remote context failed")] {
        let doc = json_ld::RemoteDocument::new(None, None, util::j("{}"));
        let given = || json_ld::RemoteDocumentReference::Iri(util::iri(u));
        r.eq("a faulty document is refused with its code", &format!("{{}} compacted with {u}"), Err(c), || util::block(doc.compact(given(), &docs)).map(|_| ()).map_err(|e| name(e.code())));
        r.eq("a faulty document is refused with its code", &format!("{{}} expanded with {u}"), Err(c), || util::block(doc.expand_using(&docs, json_ld::Options::default().with_expand_context(given()))).map(|_| ()).map_err(|e| name(e.code())));
    }
}
