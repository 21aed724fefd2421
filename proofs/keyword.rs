#![allow(warnings)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::FromSpec;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@ vacuity-decls

// ---- types extracted from the repository -------------------------------------------------
//@ extract struct NotAKeyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Keyword from crates/syntax/src/keyword.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum ContainerKind from crates/syntax/src/container.rs
//@ end
//@ extract struct InvalidDirection from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ extract enum Direction from crates/syntax/src/direction.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum Version from crates/syntax/src/context/definition/version.rs
//@ end
//@ extract struct UnknownVersion from crates/syntax/src/context/definition/version.rs
//@ end
#[derive(Clone, Copy)]
//@ extract enum TypeContainer from crates/syntax/src/context/definition/type_.rs
//@ end
pub struct InvalidTypeContainer(pub String);
#[derive(Clone, Copy)]
//@ extract enum TypeKeyword from crates/syntax/src/context/term_definition/type_.rs
//@ end
//@ extract struct NotATypeKeyword from crates/syntax/src/context/term_definition/type_.rs
//@ end
//@ extract enum InvalidTypeKeyword from crates/syntax/src/context/term_definition/type_.rs
//@ end
//@ extract enum Type from crates/syntax/src/context/term_definition/type_.rs
//@ end
//@ extract enum Id from crates/syntax/src/context/term_definition/id.rs
//@ end
//@ extract enum IdRef from crates/syntax/src/context/term_definition/id.rs
//@ end
//@ extract enum Nest from crates/syntax/src/context/term_definition/nest.rs
//@ end
//@ extract struct InvalidNest from crates/syntax/src/context/term_definition/nest.rs
//@ end
//@ extract struct Key from crates/syntax/src/context/definition/key.rs
//@ end
//@ extract struct KeyRef from crates/syntax/src/context/definition/key.rs
//@ end
//@ extract enum KeyOrKeyword from crates/syntax/src/context/definition/key.rs
//@ end
//@ extract enum KeyOrKeywordRef from crates/syntax/src/context/definition/key.rs
//@ end
//@ extract enum ExpandableRef from crates/syntax/src/expandable.rs
//@ end

// ---- specification ------------------------------------------------------------------------
/// the text of each keyword (JSON-LD 1.1, section 1.7)
pub open spec fn kw(k: Keyword) -> Seq<char> {
    match k {
        Keyword::Base => "@base"@,
        Keyword::Container => "@container"@,
        Keyword::Context => "@context"@,
        Keyword::Direction => "@direction"@,
        Keyword::Graph => "@graph"@,
        Keyword::Id => "@id"@,
        Keyword::Import => "@import"@,
        Keyword::Included => "@included"@,
        Keyword::Index => "@index"@,
        Keyword::Json => "@json"@,
        Keyword::Language => "@language"@,
        Keyword::List => "@list"@,
        Keyword::Nest => "@nest"@,
        Keyword::None => "@none"@,
        Keyword::Prefix => "@prefix"@,
        Keyword::Propagate => "@propagate"@,
        Keyword::Protected => "@protected"@,
        Keyword::Reverse => "@reverse"@,
        Keyword::Set => "@set"@,
        Keyword::Type => "@type"@,
        Keyword::Value => "@value"@,
        Keyword::Version => "@version"@,
        Keyword::Vocab => "@vocab"@,
    }
}
pub open spec fn is_kw(s: Seq<char>) -> bool { exists|k: Keyword| #[trigger] kw(k) == s }

/// (length, second, third, fifth character): tells all keywords apart
pub open spec fn code(s: Seq<char>) -> (nat, char, char, char) { (s.len(), s[1], s[2], if s.len() > 4 { s[4] } else { s[1] }) }
pub open spec fn kcode(k: Keyword) -> (nat, char, char, char) {
    match k {
        Keyword::Base => (5, 'b', 'a', 'e'),
        Keyword::Container => (10, 'c', 'o', 't'),
        Keyword::Context => (8, 'c', 'o', 't'),
        Keyword::Direction => (10, 'd', 'i', 'e'),
        Keyword::Graph => (6, 'g', 'r', 'p'),
        Keyword::Id => (3, 'i', 'd', 'i'),
        Keyword::Import => (7, 'i', 'm', 'o'),
        Keyword::Included => (9, 'i', 'n', 'l'),
        Keyword::Index => (6, 'i', 'n', 'e'),
        Keyword::Json => (5, 'j', 's', 'n'),
        Keyword::Language => (9, 'l', 'a', 'g'),
        Keyword::List => (5, 'l', 'i', 't'),
        Keyword::Nest => (5, 'n', 'e', 't'),
        Keyword::None => (5, 'n', 'o', 'e'),
        Keyword::Prefix => (7, 'p', 'r', 'f'),
        Keyword::Propagate => (10, 'p', 'r', 'p'),
        Keyword::Protected => (10, 'p', 'r', 't'),
        Keyword::Reverse => (8, 'r', 'e', 'e'),
        Keyword::Set => (4, 's', 'e', 's'),
        Keyword::Type => (5, 't', 'y', 'e'),
        Keyword::Value => (6, 'v', 'a', 'u'),
        Keyword::Version => (8, 'v', 'e', 's'),
        Keyword::Vocab => (6, 'v', 'o', 'a'),
    }
}
proof fn kw_code(k: Keyword)
    ensures code(kw(k)) == kcode(k), kw(k)[0] == '@', kw(k).len() > 2,
{
    match k {
        Keyword::Base => { reveal_strlit("@base"); let s = "@base"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 'b' && s[2] == 'a' && s[4] == 'e'); }
        Keyword::Container => { reveal_strlit("@container"); let s = "@container"@; assert(s.len() == 10 && s[0] == '@' && s[1] == 'c' && s[2] == 'o' && s[4] == 't'); }
        Keyword::Context => { reveal_strlit("@context"); let s = "@context"@; assert(s.len() == 8 && s[0] == '@' && s[1] == 'c' && s[2] == 'o' && s[4] == 't'); }
        Keyword::Direction => { reveal_strlit("@direction"); let s = "@direction"@; assert(s.len() == 10 && s[0] == '@' && s[1] == 'd' && s[2] == 'i' && s[4] == 'e'); }
        Keyword::Graph => { reveal_strlit("@graph"); let s = "@graph"@; assert(s.len() == 6 && s[0] == '@' && s[1] == 'g' && s[2] == 'r' && s[4] == 'p'); }
        Keyword::Id => { reveal_strlit("@id"); let s = "@id"@; assert(s.len() == 3 && s[0] == '@' && s[1] == 'i' && s[2] == 'd'); }
        Keyword::Import => { reveal_strlit("@import"); let s = "@import"@; assert(s.len() == 7 && s[0] == '@' && s[1] == 'i' && s[2] == 'm' && s[4] == 'o'); }
        Keyword::Included => { reveal_strlit("@included"); let s = "@included"@; assert(s.len() == 9 && s[0] == '@' && s[1] == 'i' && s[2] == 'n' && s[4] == 'l'); }
        Keyword::Index => { reveal_strlit("@index"); let s = "@index"@; assert(s.len() == 6 && s[0] == '@' && s[1] == 'i' && s[2] == 'n' && s[4] == 'e'); }
        Keyword::Json => { reveal_strlit("@json"); let s = "@json"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 'j' && s[2] == 's' && s[4] == 'n'); }
        Keyword::Language => { reveal_strlit("@language"); let s = "@language"@; assert(s.len() == 9 && s[0] == '@' && s[1] == 'l' && s[2] == 'a' && s[4] == 'g'); }
        Keyword::List => { reveal_strlit("@list"); let s = "@list"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 'l' && s[2] == 'i' && s[4] == 't'); }
        Keyword::Nest => { reveal_strlit("@nest"); let s = "@nest"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 'n' && s[2] == 'e' && s[4] == 't'); }
        Keyword::None => { reveal_strlit("@none"); let s = "@none"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 'n' && s[2] == 'o' && s[4] == 'e'); }
        Keyword::Prefix => { reveal_strlit("@prefix"); let s = "@prefix"@; assert(s.len() == 7 && s[0] == '@' && s[1] == 'p' && s[2] == 'r' && s[4] == 'f'); }
        Keyword::Propagate => { reveal_strlit("@propagate"); let s = "@propagate"@; assert(s.len() == 10 && s[0] == '@' && s[1] == 'p' && s[2] == 'r' && s[4] == 'p'); }
        Keyword::Protected => { reveal_strlit("@protected"); let s = "@protected"@; assert(s.len() == 10 && s[0] == '@' && s[1] == 'p' && s[2] == 'r' && s[4] == 't'); }
        Keyword::Reverse => { reveal_strlit("@reverse"); let s = "@reverse"@; assert(s.len() == 8 && s[0] == '@' && s[1] == 'r' && s[2] == 'e' && s[4] == 'e'); }
        Keyword::Set => { reveal_strlit("@set"); let s = "@set"@; assert(s.len() == 4 && s[0] == '@' && s[1] == 's' && s[2] == 'e'); }
        Keyword::Type => { reveal_strlit("@type"); let s = "@type"@; assert(s.len() == 5 && s[0] == '@' && s[1] == 't' && s[2] == 'y' && s[4] == 'e'); }
        Keyword::Value => { reveal_strlit("@value"); let s = "@value"@; assert(s.len() == 6 && s[0] == '@' && s[1] == 'v' && s[2] == 'a' && s[4] == 'u'); }
        Keyword::Version => { reveal_strlit("@version"); let s = "@version"@; assert(s.len() == 8 && s[0] == '@' && s[1] == 'v' && s[2] == 'e' && s[4] == 's'); }
        Keyword::Vocab => { reveal_strlit("@vocab"); let s = "@vocab"@; assert(s.len() == 6 && s[0] == '@' && s[1] == 'v' && s[2] == 'o' && s[4] == 'a'); }
    }
}
proof fn kw_injective(a: Keyword, b: Keyword)
    requires kw(a) == kw(b),
    ensures a == b,
{
    kw_code(a);
    kw_code(b);
}

/// `Keyword::try_from(s)`: the keyword whose text is `s`, if there is one
pub open spec fn parse_kw(s: &str) -> Result<Keyword, NotAKeyword<&str>> {
    if is_kw(s@) { Ok(choose|k: Keyword| kw(k) == s@) } else { Err(NotAKeyword(s)) }
}
proof fn parse_kw_ok(s: &str, k: Keyword)
    requires kw(k) == s@,
    ensures parse_kw(s) == Ok::<Keyword, NotAKeyword<&str>>(k),
{
    kw_injective(k, choose|j: Keyword| kw(j) == s@);
}
proof fn kw_all()
    ensures forall|a: Keyword, b: Keyword| kw(a) == kw(b) ==> a == b, forall|k: Keyword| (#[trigger] kw(k))[0] == '@' && kw(k).len() > 2,
{
    assert forall|a: Keyword, b: Keyword| kw(a) == kw(b) implies a == b by { kw_injective(a, b); }
    assert forall|k: Keyword| (#[trigger] kw(k))[0] == '@' && kw(k).len() > 2 by { kw_code(k); }
}
pub open spec fn ck(c: ContainerKind) -> Keyword {
    match c {
        ContainerKind::Graph => Keyword::Graph, ContainerKind::Id => Keyword::Id, ContainerKind::Index => Keyword::Index,
        ContainerKind::Language => Keyword::Language, ContainerKind::List => Keyword::List, ContainerKind::Set => Keyword::Set,
        ContainerKind::Type => Keyword::Type,
    }
}
pub open spec fn tk(t: TypeKeyword) -> Keyword {
    match t { TypeKeyword::Id => Keyword::Id, TypeKeyword::Json => Keyword::Json, TypeKeyword::None => Keyword::None, TypeKeyword::Vocab => Keyword::Vocab }
}
pub open spec fn dir(d: Direction) -> Seq<char> { match d { Direction::Ltr => "ltr"@, Direction::Rtl => "rtl"@ } }
/// "@" 1*ALPHA
pub open spec fn alpha(c: char) -> bool { (0x41 <= c as u32 && c as u32 <= 0x5a) || (0x61 <= c as u32 && c as u32 <= 0x7a) }
pub open spec fn kw_like(s: Seq<char>) -> bool {
    s.len() > 1 && s[0] == '@' && forall|i: int| 1 <= i < s.len() ==> alpha(#[trigger] s[i])
}
pub open spec fn id_text(i: Id) -> Seq<char> { match i { Id::Keyword(k) => kw(k), Id::Term(t) => t@ } }
pub open spec fn idr_text(i: IdRef) -> Seq<char> { match i { IdRef::Keyword(k) => kw(k), IdRef::Term(t) => t@ } }
pub open spec fn ty_text(i: Type) -> Seq<char> { match i { Type::Keyword(k) => kw(tk(k)), Type::Term(t) => t@ } }
pub open spec fn nest_text(i: Nest) -> Seq<char> { match i { Nest::Nest => "@nest"@, Nest::Term(t) => t@ } }
pub open spec fn kk_text(i: KeyOrKeyword) -> Seq<char> { match i { KeyOrKeyword::Keyword(k) => kw(k), KeyOrKeyword::Key(t) => t.0@ } }
pub open spec fn kkr_text(i: KeyOrKeywordRef) -> Seq<char> { match i { KeyOrKeywordRef::Keyword(k) => kw(k), KeyOrKeywordRef::Key(t) => t.0@ } }
pub open spec fn ex_text(i: ExpandableRef) -> Seq<char> { match i { ExpandableRef::Keyword(k) => kw(k), ExpandableRef::String(t) => t@ } }
/// never a keyword hidden in a plain string
pub open spec fn id_ok(i: Id) -> bool { i matches Id::Term(t) ==> !is_kw(t@) }
pub open spec fn idr_ok(i: IdRef) -> bool { i matches IdRef::Term(t) ==> !is_kw(t@) }
pub open spec fn ty_ok(i: Type) -> bool { i matches Type::Term(t) ==> forall|k: TypeKeyword| kw(#[trigger] tk(k)) != t@ }
pub open spec fn nest_ok(i: Nest) -> bool { i matches Nest::Term(t) ==> !is_kw(t@) }
pub open spec fn kkr_ok(i: KeyOrKeywordRef) -> bool { i matches KeyOrKeywordRef::Key(t) ==> !is_kw(t.0@) }
pub open spec fn ex_ok(i: ExpandableRef) -> bool { i matches ExpandableRef::String(t) ==> !is_kw(t@) }

// ---- assumed contracts ---------------------------------------------------------------------
/// a string slice is determined by its characters
broadcast axiom fn str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// string equality is equality of the characters
axiom fn string_eq()
    ensures
        <String as PartialEqSpec<String>>::obeys_eq_spec(),
        forall|a: String, b: String| #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@),
        <String as PartialEqSpec<str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        <String as PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
/// the `?` operator converts errors with `From::from`
broadcast axiom fn question_mark<S: From<T>, T>(v: T, r: S)
    ensures S::obeys_from_spec() && #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) ==> r == S::from_spec(v);
pub assume_specification<'a> [<String as core::convert::AsRef<str>>::as_ref] (s: &'a String) -> (r: &'a str)
    ensures r@ == s@;

pub open spec fn enumerated(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
/// stands for `s.chars().enumerate()`
#[verifier::external_body]
fn vx_chars_enumerate(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@ == enumerated(s@), s@.len() <= usize::MAX,
{ s.chars().enumerate().collect() }
proof fn utf8_len(s: Seq<char>)
    ensures
        s.len() == 0 <==> encode_utf8(s).len() == 0,
        s.len() >= 2 ==> encode_utf8(s).len() >= 2,
        s.len() == 1 && encode_utf8(s).len() > 1 ==> s[0] != '@',
        s.len() == 1 && s[0] == '@' ==> encode_utf8(s).len() == 1,
{
    broadcast use vstd::utf8::group_utf8_lib;
    reveal_with_fuel(encode_utf8, 3);
}

// ---- functions under contract --------------------------------------------------------------
impl Keyword {
//@ extract fn impl Keyword > into_str from crates/syntax/src/keyword.rs
//@ ret r
//@ spec
    ensures r@ == kw(self),
//@ end
}
impl<'a> TryFromSpecImpl<&'a str> for Keyword {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(s: &'a str) -> Result<Keyword, NotAKeyword<&'a str>> { parse_kw(s) }
}
impl<'a> TryFrom<&'a str> for Keyword {
    type Error = NotAKeyword<&'a str>;
//@ extract fn impl TryFrom<&'a str> for Keyword > try_from from crates/syntax/src/keyword.rs
//@ ret r
//@ start
    broadcast use str_ext;
    proof { kw_all(); }
//@ tail Result<Keyword, NotAKeyword<&'a str>>
    proof { if let Ok(k) = vx_r { parse_kw_ok(s, k); } }
//@ spec
    ensures match r { Ok(k) => s@ == kw(k), Err(e) => !is_kw(s@) && e.0 == s }, r == parse_kw(s),
//@ end
}
//@ extract fn is_keyword from crates/syntax/src/keyword.rs
//@ ret r
//@ spec
    ensures r == is_kw(str@),
//@ end
//@ extract fn is_alpha from crates/syntax/src/keyword.rs
//@ ret r
//@ spec
    ensures r == alpha(c),
//@ end
impl FromSpecImpl<ContainerKind> for Keyword {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: ContainerKind) -> Keyword { ck(c) }
}
impl From<ContainerKind> for Keyword {
//@ extract fn impl From<ContainerKind> for Keyword > from from crates/syntax/src/container.rs
//@ ret r
//@ spec
    ensures r == ck(c),
//@ end
}
impl ContainerKind {
//@ extract fn impl ContainerKind > into_keyword from crates/syntax/src/container.rs
//@ ret r
//@ spec
    ensures r == ck(self),
//@ end
//@ extract fn impl ContainerKind > keyword from crates/syntax/src/container.rs
//@ ret r
//@ spec
    ensures r == ck(*self),
//@ end
//@ extract fn impl ContainerKind > as_str from crates/syntax/src/container.rs
//@ ret r
//@ spec
    ensures r@ == kw(ck(*self)),
//@ end
}
impl<'a> TryFromSpecImpl<&'a str> for ContainerKind {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(s: &'a str) -> Result<ContainerKind, &'a str> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for ContainerKind {
    type Error = &'a str;
//@ extract fn impl TryFrom<&'a str> for ContainerKind > try_from from crates/syntax/src/container.rs
//@ ret r
//@ start
    broadcast use str_ext;
    proof { kw_all(); }
//@ spec
    ensures match r { Ok(k) => str@ == kw(ck(k)), Err(e) => e == str && forall|k: ContainerKind| kw(#[trigger] ck(k)) != str@ },
//@ end
}
impl TryFromSpecImpl<Keyword> for ContainerKind {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(s: Keyword) -> Result<ContainerKind, Keyword> { arbitrary() }
}
impl TryFrom<Keyword> for ContainerKind {
    type Error = Keyword;
//@ extract fn impl TryFrom<Keyword> for ContainerKind > try_from from crates/syntax/src/container.rs
//@ ret r
//@ spec
    ensures match r { Ok(c) => k == ck(c), Err(e) => e == k && forall|c: ContainerKind| #[trigger] ck(c) != k },
//@ end
}
impl Direction {
//@ extract fn impl Direction > as_str from crates/syntax/src/direction.rs
//@ ret r
//@ spec
    ensures r@ == dir(*self),
//@ end
//@ extract fn impl Direction > into_str from crates/syntax/src/direction.rs
//@ ret r
//@ spec
    ensures r@ == dir(self),
//@ end
}
impl<'a> TryFromSpecImpl<&'a str> for Direction {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(s: &'a str) -> Result<Direction, InvalidDirection<&'a str>> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for Direction {
    type Error = InvalidDirection<&'a str>;
//@ extract fn impl TryFrom<&'a str> for Direction > try_from from crates/syntax/src/direction.rs
//@ ret r
//@ start
    broadcast use str_ext;
    proof { reveal_strlit("ltr"); reveal_strlit("rtl"); }
//@ spec
    ensures match r { Ok(d) => name@ == dir(d), Err(e) => e.0 == name && forall|d: Direction| #[trigger] dir(d) != name@ },
//@ end
}
impl Version {
//@ extract fn impl Version > into_str from crates/syntax/src/context/definition/version.rs
//@ ret r
//@ spec
    ensures r@ == "1.1"@,
//@ end
//@ extract fn impl FromStr for Version > from_str from crates/syntax/src/context/definition/version.rs
//@ ret r
//@ subst Self::Err => UnknownVersion
//@ spec
    ensures r is Ok == (s@ == "1.1"@), r matches Err(e) ==> e.0@ == s@,
//@ end
//@ extract fn impl PartialEq for Version > eq from crates/syntax/src/context/definition/version.rs
//@ ret r
//@ spec
    ensures r == (*self == *_other),
//@ end
}
impl TypeContainer {
//@ extract fn impl TypeContainer > as_str from crates/syntax/src/context/definition/type_.rs
//@ ret r
//@ spec
    ensures r@ == "@set"@,
//@ end
//@ extract fn impl TypeContainer > into_str from crates/syntax/src/context/definition/type_.rs
//@ ret r
//@ spec
    ensures r@ == "@set"@,
//@ end
//@ extract fn impl FromStr for TypeContainer > from_str from crates/syntax/src/context/definition/type_.rs
//@ ret r
//@ subst Self::Err => InvalidTypeContainer
//@ start
    broadcast use str_ext;
//@ spec
    ensures r is Ok == (s@ == "@set"@), r matches Err(e) ==> e.0@ == s@,
//@ end
//@ extract fn impl PartialEq for TypeContainer > eq from crates/syntax/src/context/definition/type_.rs
//@ ret r
//@ spec
    ensures r == (*self == *_other),
//@ end
}
impl FromSpecImpl<TypeKeyword> for Keyword {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: TypeKeyword) -> Keyword { tk(c) }
}
impl From<TypeKeyword> for Keyword {
//@ extract fn impl From<TypeKeyword> for Keyword > from from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r == tk(k),
//@ end
}
impl TypeKeyword {
//@ extract fn impl TypeKeyword > keyword from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r == tk(*self),
//@ end
//@ extract fn impl TypeKeyword > into_keyword from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r == tk(self),
//@ end
//@ extract fn impl TypeKeyword > as_str from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r@ == kw(tk(*self)),
//@ end
//@ extract fn impl TypeKeyword > into_str from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r@ == kw(tk(self)),
//@ end
}
impl PartialEqSpecImpl for TypeKeyword {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TypeKeyword) -> bool { *self == *o }
}
impl PartialEq for TypeKeyword {
//@ extract fn impl PartialEq for TypeKeyword > eq from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r == (*self == *other),
//@ end
}
impl TryFromSpecImpl<Keyword> for TypeKeyword {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(k: Keyword) -> Result<TypeKeyword, NotATypeKeyword> { if exists|t: TypeKeyword| #[trigger] tk(t) == k { Ok(choose|t: TypeKeyword| tk(t) == k) } else { Err(NotATypeKeyword(k)) } }
}
impl TryFrom<Keyword> for TypeKeyword {
    type Error = NotATypeKeyword;
//@ extract fn impl TryFrom<Keyword> for TypeKeyword > try_from from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ start
    proof { assert(forall|a: TypeKeyword, b: TypeKeyword| tk(a) == tk(b) ==> a == b); assert(tk(TypeKeyword::Id) == Keyword::Id && tk(TypeKeyword::Json) == Keyword::Json && tk(TypeKeyword::None) == Keyword::None && tk(TypeKeyword::Vocab) == Keyword::Vocab); }
//@ spec
    ensures match r { Ok(c) => k == tk(c), Err(e) => e.0 == k && forall|c: TypeKeyword| #[trigger] tk(c) != k },
//@ end
}
impl<T> FromSpecImpl<NotATypeKeyword> for InvalidTypeKeyword<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: NotATypeKeyword) -> InvalidTypeKeyword<T> { InvalidTypeKeyword::NotATypeKeyword(k.0) }
}
impl<T> From<NotATypeKeyword> for InvalidTypeKeyword<T> {
//@ extract fn impl From<NotATypeKeyword> for InvalidTypeKeyword<T> > from from crates/syntax/src/context/term_definition/type_.rs
//@ end
}
impl<T> FromSpecImpl<NotAKeyword<T>> for InvalidTypeKeyword<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: NotAKeyword<T>) -> InvalidTypeKeyword<T> { InvalidTypeKeyword::NotAKeyword(k.0) }
}
impl<T> From<NotAKeyword<T>> for InvalidTypeKeyword<T> {
//@ extract fn impl From<crate::NotAKeyword<T>> for InvalidTypeKeyword<T> > from from crates/syntax/src/context/term_definition/type_.rs
//@ subst crate::NotAKeyword => NotAKeyword
//@ end
}
impl<'a> TryFromSpecImpl<&'a str> for TypeKeyword {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(s: &'a str) -> Result<TypeKeyword, InvalidTypeKeyword<&'a str>> { arbitrary() }
}
impl<'a> TryFrom<&'a str> for TypeKeyword {
    type Error = InvalidTypeKeyword<&'a str>;
//@ extract fn impl TryFrom<&'a str> for TypeKeyword > try_from from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures
        match r {
            Ok(t) => kw(tk(t)) == s@,
            Err(InvalidTypeKeyword::NotAKeyword(t)) => t == s && !is_kw(s@),
            Err(InvalidTypeKeyword::NotATypeKeyword(k)) => kw(k) == s@ && forall|t: TypeKeyword| #[trigger] tk(t) != k,
        },
//@ start
    broadcast use question_mark;
    proof { kw_all(); }
//@ end
}
//@ extract fn is_keyword_like from crates/syntax/src/keyword.rs
//@ ret r
//@ subst s.chars().enumerate() => vx_chars_enumerate(s)
//@ subst s.len() => s.as_bytes().len()
//@ start
    broadcast use vstd::string::group_string_axioms;
    proof { utf8_len(s@); }
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq() == enumerated(s@),
        s@.len() > 0,
        s@.len() <= usize::MAX,
        s@.len() == 1 ==> s@[0] != '@',
        it.index@ > 0 ==> s@[0] == '@',
        forall|j: int| 1 <= j < it.index@ ==> alpha(#[trigger] s@[j]),
//@ loop 0 body-start
    proof { assert((i, c) == enumerated(s@)[it.index@]); assert(i == it.index@ && c == s@[it.index@]); assert(it.index@ < s@.len()); }
//@ spec
    ensures r == kw_like(s@),
//@ end
impl Id {
//@ extract fn impl Id > as_keyword from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures r == (match *self { Id::Keyword(k) => Some(k), _ => None }), id_ok(*self) ==> (r is Some == is_kw(id_text(*self))),
//@ end
//@ extract fn impl Id > as_str from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures r@ == id_text(*self),
//@ end
//@ extract fn impl Id > is_keyword from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures r == self is Keyword, id_ok(*self) ==> r == is_kw(id_text(*self)),
//@ end
//@ extract fn impl Id > is_keyword_like from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ subst crate::is_keyword_like => is_keyword_like
//@ spec
    ensures r == kw_like(id_text(*self)),
//@ end
//@ extract fn impl Id > as_id_ref from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures idr_text(r) == id_text(*self), id_ok(*self) ==> idr_ok(r),
//@ end
//@ extract fn impl From<String> for Id > from from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ rename from_string
//@ spec
    ensures id_text(r) == s@, id_ok(r),
//@ end
//@ extract fn impl PartialEq for Id > eq from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ start
    proof { string_eq(); kw_all(); }
//@ spec
    ensures id_ok(*self) && id_ok(*other) ==> r == (id_text(*self) == id_text(*other)),
//@ end
}
impl<'a> IdRef<'a> {
//@ extract fn impl IdRef > as_str from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures r@ == idr_text(*self),
//@ end
//@ extract fn impl IdRef > is_keyword from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ spec
    ensures r == self is Keyword, idr_ok(*self) ==> r == is_kw(idr_text(*self)),
//@ end
//@ extract fn impl IdRef > is_keyword_like from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ subst crate::is_keyword_like => is_keyword_like
//@ spec
    ensures r == kw_like(idr_text(*self)),
//@ end
//@ extract fn impl From<&'a str> for IdRef > from from crates/syntax/src/context/term_definition/id.rs
//@ ret r
//@ rename from_str
//@ spec
    ensures idr_text(r) == s@, idr_ok(r),
//@ end
}
impl Type {
//@ extract fn impl Type > as_keyword from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r == (match *self { Type::Keyword(k) => Some(k), _ => None }),
//@ end
//@ extract fn impl Type > as_str from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ spec
    ensures r@ == ty_text(*self),
//@ end
//@ extract fn impl From<String> for Type > from from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ rename from_string
//@ start
    proof { kw_all(); }
//@ spec
    ensures ty_text(r) == s@, ty_ok(r),
//@ end
//@ extract fn impl PartialEq for Type > eq from crates/syntax/src/context/term_definition/type_.rs
//@ ret r
//@ start
    proof { string_eq(); kw_all(); }
//@ spec
    ensures ty_ok(*self) && ty_ok(*other) ==> r == (ty_text(*self) == ty_text(*other)),
//@ end
}
impl Nest {
//@ extract fn impl Nest > as_str from crates/syntax/src/context/term_definition/nest.rs
//@ ret r
//@ spec
    ensures r@ == nest_text(*self),
//@ end
//@ extract fn impl TryFrom<String> for Nest > try_from from crates/syntax/src/context/term_definition/nest.rs
//@ ret r
//@ rename try_from_string
//@ start
    proof { string_eq(); assert(kw(Keyword::Nest) == "@nest"@); }
//@ spec
    ensures
        match r { Ok(n) => nest_text(n) == s@ && nest_ok(n), Err(e) => e.0@ == s@ },
        r is Ok == (s@ == "@nest"@ || !is_kw(s@)),
//@ end
//@ extract fn impl PartialEq for Nest > eq from crates/syntax/src/context/term_definition/nest.rs
//@ ret r
//@ start
    proof { string_eq(); assert(kw(Keyword::Nest) == "@nest"@); }
//@ spec
    ensures nest_ok(*self) && nest_ok(*other) ==> r == (nest_text(*self) == nest_text(*other)),
//@ end
}
impl Key {
//@ extract fn impl Key > as_str from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@ end
//@ extract fn impl Key > is_empty from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r == (self.0@.len() == 0),
//@ end
//@ extract fn impl Key > is_keyword_like from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ subst crate::is_keyword_like => is_keyword_like
//@ spec
    ensures r == kw_like(self.0@),
//@ end
}
impl<'a> KeyRef<'a> {
//@ extract fn impl KeyRef > as_str from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r@ == self.0@,
//@ end
//@ extract fn impl KeyRef > is_empty from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r == (self.0@.len() == 0),
//@ end
//@ extract fn impl KeyRef > to_owned from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r.0@ == self.0@,
//@ end
//@ extract fn impl KeyRef > is_keyword_like from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ subst crate::is_keyword_like => is_keyword_like
//@ spec
    ensures r == kw_like(self.0@),
//@ end
}
impl KeyOrKeyword {
//@ extract fn impl KeyOrKeyword > is_empty from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ start
    proof { kw_all(); }
//@ spec
    ensures r == (kk_text(*self).len() == 0),
//@ end
//@ extract fn impl KeyOrKeyword > into_keyword from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r == (match self { KeyOrKeyword::Keyword(k) => Some(k), _ => None }),
//@ end
//@ extract fn impl KeyOrKeyword > into_key from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r == (match self { KeyOrKeyword::Key(k) => Some(k), _ => None }),
//@ end
//@ extract fn impl KeyOrKeyword > as_keyword from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r == (match *self { KeyOrKeyword::Keyword(k) => Some(k), _ => None }),
//@ end
//@ extract fn impl KeyOrKeyword > as_str from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r@ == kk_text(*self),
//@ end
}
impl<'a> KeyOrKeywordRef<'a> {
//@ extract fn impl KeyOrKeywordRef > to_owned from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures kk_text(r) == kkr_text(self), r is Keyword == self is Keyword,
//@ end
//@ extract fn impl KeyOrKeywordRef > as_str from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ spec
    ensures r@ == kkr_text(*self),
//@ end
//@ extract fn impl From<&'a str> for KeyOrKeywordRef > from from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ rename from_str
//@ subst s.into() => KeyRef::from_str(s)
//@ spec
    ensures kkr_text(r) == s@, kkr_ok(r),
//@ end
}
impl<'a> KeyRef<'a> {
//@ extract fn impl From<&'a str> for KeyRef > from from crates/syntax/src/context/definition/key.rs
//@ ret r
//@ rename from_str
//@ spec
    ensures r.0@ == s@,
//@ end
}
impl<'a> ExpandableRef<'a> {
//@ extract fn impl From<&'a KeyOrKeyword> for ExpandableRef > from from crates/syntax/src/expandable.rs
//@ ret r
//@ rename from_key_or_keyword
//@ spec
    ensures ex_text(r) == kk_text(*k), r is Keyword == *k is Keyword,
//@ end
//@ extract fn impl From<&'a str> for ExpandableRef > from from crates/syntax/src/expandable.rs
//@ ret r
//@ rename from_str
//@ spec
    ensures ex_text(r) == s@, ex_ok(r),
//@ end
}
}
fn main() {}
