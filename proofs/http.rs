//! P20: the HTTP loader: how headers are read, which answer is followed, what document comes out
use vstd::prelude::*;
verus! {
//@ vacuity-decls
pub type Bytes = Seq<u8>;
#[verifier::external_body] pub struct Iri { x: String }
#[verifier::external_body] pub struct IriBuf { x: String }
#[verifier::external_body] pub struct IriRef { x: String }
#[verifier::external_body] pub struct IriRefBuf { x: String }
#[verifier::external_body] pub struct Mime { x: String }
#[verifier::external_body] pub struct JsValue { x: String }
#[verifier::external_body] pub struct CodeMap { x: String }
#[verifier::external_body] pub struct HeaderValue { x: String }
/// the bytes of a text
pub uninterp spec fn enc(t: Seq<char>) -> Bytes;

// ---- bytes and parameters ---------------------------------------------------------------------------------------------
/// the bytes left to an iterator over bytes
#[verifier::external_body] pub struct Left { x: u8 }
impl Left { pub uninterp spec fn rest(self) -> Bytes; }
pub open spec fn head(s: Bytes) -> Option<u8> { if s.len() == 0 { None } else { Some(s[0]) } }
pub open spec fn tail(s: Bytes) -> Bytes { if s.len() == 0 { s } else { s.subrange(1, s.len() as int) } }
#[verifier::external_body]
fn vx_next(b: &mut Left) -> (r: Option<u8>) ensures r == head(old(b).rest()), final(b).rest() == tail(old(b).rest()) { unimplemented!() }
#[verifier::external_body]
fn vx_peek(b: &Left) -> (r: Option<u8>) ensures r == head(b.rest()) { unimplemented!() }
#[verifier::external_body]
fn vx_skip(b: &mut Left) ensures final(b).rest() == tail(old(b).rest()) { unimplemented!() }
#[verifier::external_body]
fn vx_bytes(v: &HeaderValue) -> (r: Left) ensures r.rest() == raw(*v) { unimplemented!() }
/// the bytes of a header value
pub uninterp spec fn raw(v: HeaderValue) -> Bytes;
pub type PM = Map<Bytes, Bytes>;
#[verifier::external_body] pub struct Params { x: u8 }
impl Params {
    pub uninterp spec fn m(self) -> PM;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Bytes, Bytes>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) ensures final(self).m() == old(self).m().insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Option<&Vec<u8>>) ensures (match r { Some(v) => self.m().dom().contains(k@) && self.m()[k@] == v@, None => !self.m().dom().contains(k@) }) { unimplemented!() }
}
#[verifier::external_body]
fn vx_take(v: &mut Vec<u8>) -> (r: Vec<u8>) ensures r@ == old(v)@, final(v)@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_lit(s: &'static str) -> (r: &'static [u8]) ensures r@ == enc(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_slice(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }
/// `a == Some(b"…")`
#[verifier::external_body]
fn vx_is(a: Option<&[u8]>, s: &'static str) -> (r: bool) ensures r == (a is Some && a->0@ == enc(s@)) { unimplemented!() }
pub open spec fn shown(o: Option<&[u8]>) -> Option<Bytes> { match o { Some(b) => Some(b@), None => None } }
pub open spec fn param(m: PM, k: Seq<char>) -> Option<Bytes> { if m.dom().contains(enc(k)) { Some(m[enc(k)]) } else { None } }

// ---- links: the grammar of a link, read from the front -------------------------------------------------------------------
pub ghost struct L { pub href: Bytes, pub params: PM }
pub open spec fn ws(b: u8) -> bool { b == 32 || b == 9 }
/// link: blanks and commas, then `<`, the reference, `>`, the parameters; what is left after it
pub open spec fn link(s: Bytes) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 60 { href(tail(s), Seq::empty()) } else if ws(s[0]) || s[0] == 44 { link(tail(s)) } else { None }
}
pub open spec fn href(s: Bytes, h: Bytes) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 62 { params(tail(s), L { href: h, params: Map::empty() }) } else { href(tail(s), h.push(s[0])) }
}
/// parameters: `; name=value` until a comma or the end
pub open spec fn params(s: Bytes, l: L) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 || s[0] == 44 { Some((l, tail(s))) } else if s[0] == 59 { start(tail(s), l) } else if ws(s[0]) { params(tail(s), l) } else { None }
}
pub open spec fn start(s: Bytes, l: L) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 { None } else if ws(s[0]) { start(tail(s), l) } else { name(tail(s), l, seq![s[0]]) }
}
pub open spec fn name(s: Bytes, l: L, k: Bytes) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 61 { value(tail(s), l, k) } else { name(tail(s), l, k.push(s[0])) }
}
pub open spec fn value(s: Bytes, l: L, k: Bytes) -> Option<(L, Bytes)> decreases s.len(), 2int {
    if s.len() > 0 && s[0] == 34 { quoted(tail(s), l, k, Seq::empty()) } else { token(s, l, k, Seq::empty()) }
}
pub open spec fn quoted(s: Bytes, l: L, k: Bytes, v: Bytes) -> Option<(L, Bytes)> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 34 { params(tail(s), L { params: l.params.insert(k, v), ..l }) } else { quoted(tail(s), l, k, v.push(s[0])) }
}
pub open spec fn token(s: Bytes, l: L, k: Bytes, v: Bytes) -> Option<(L, Bytes)> decreases s.len(), 1int {
    if s.len() == 0 || s[0] == 59 || s[0] == 44 || ws(s[0]) { params(s, L { params: l.params.insert(k, v), ..l }) } else { token(tail(s), l, k, v.push(s[0])) }
}
/// the reference written in bytes, if they are one
pub uninterp spec fn reference(b: Bytes) -> Option<IriRefBuf>;
#[verifier::external_body]
fn vx_reference(b: Vec<u8>) -> (r: Result<IriRefBuf, u8>) ensures (match r { Ok(x) => reference(b@) == Some(x), Err(_) => reference(b@) is None }) { unimplemented!() }
//@ extract struct Link from crates/core/src/loader/reqwest/link.rs
//@ subst HashMap<Vec<u8>, Vec<u8>> => Params
//@ end
/// what a link answers: its reference and its parameters
pub ghost struct LinkV { pub href: IriRefBuf, pub params: PM }
pub open spec fn next_link(s: Bytes) -> Option<(LinkV, Bytes)> {
    match link(s) { Some((l, rest)) => (match reference(l.href) { Some(h) => Some((LinkV { href: h, params: l.params }, rest)), None => None }), None => None }
}
impl Link {
    pub closed spec fn v(self) -> LinkV { LinkV { href: self.href, params: self.params.m() } }
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl Link > parse from crates/core/src/loader/reqwest/link.rs
//@ ret r
//@ desugar-break Option<Self>
//@ subst &mut std::slice::Iter<u8> => &mut Left
//@ subst bytes.next().copied() => vx_next(bytes)
//@ subst bytes.as_slice().first().copied() => vx_peek(bytes)
//@ subst bytes.next(); => vx_skip(bytes);
//@ subst std::mem::take( => vx_take(
//@ subst HashMap::new() => Params::new()
//@ subst Vec::new() => Vec::<u8>::new()
//@ subst IriRefBuf::from_vec( => vx_reference(
//@ loop 0
    invariant_except_break match state {
            State::BeginHref => href@ == Seq::<u8>::empty() && current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && params.m() == Map::<Bytes, Bytes>::empty() && link(all) == link(bytes.rest()),
            State::Href => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && params.m() == Map::<Bytes, Bytes>::empty() && link(all) == crate::href(bytes.rest(), href@),
            State::NextParam => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && link(all) == crate::params(bytes.rest(), L { href: href@, params: params.m() }),
            State::BeginKey => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && link(all) == start(bytes.rest(), L { href: href@, params: params.m() }),
            State::Key => current_value@ == Seq::<u8>::empty() && link(all) == name(bytes.rest(), L { href: href@, params: params.m() }, current_key@),
            State::BeginValue => current_value@ == Seq::<u8>::empty() && link(all) == value(bytes.rest(), L { href: href@, params: params.m() }, current_key@),
            State::QuotedValue => link(all) == quoted(bytes.rest(), L { href: href@, params: params.m() }, current_key@, current_value@),
            State::Value => link(all) == token(bytes.rest(), L { href: href@, params: params.m() }, current_key@, current_value@),
        },
    invariant all == old(bytes).rest(), fin == *final(bytes),
    ensures (match vx_r { Some(l) => next_link(all) == Some((l.v(), bytes.rest())), None => next_link(all) is None }),
    decreases bytes.rest().len(), (match state { State::BeginValue => 2int, State::Value => 1int, _ => 0int }),
//@ start
    let ghost all = bytes.rest();
    let ghost fin = *final(bytes);
//@ spec
    ensures (match r { Some(l) => next_link(old(bytes).rest()) == Some((l.v(), final(bytes).rest())), None => next_link(old(bytes).rest()) is None }),
//@ end
//@ extract fn impl Link > rel from crates/core/src/loader/reqwest/link.rs
//@ ret r
//@ subst b"rel".as_slice() => vx_lit("rel")
//@ subst Vec::as_slice => |v: &Vec<u8>| -> (s: &[u8]) ensures s@ == v@ { vx_slice(v) }
//@ spec
    ensures shown(r) == param(self.v().params, "rel"@),
//@ end
//@ extract fn impl Link > type_ from crates/core/src/loader/reqwest/link.rs
//@ ret r
//@ subst b"type".as_slice() => vx_lit("type")
//@ subst Vec::as_slice => |v: &Vec<u8>| -> (s: &[u8]) ensures s@ == v@ { vx_slice(v) }
//@ spec
    ensures shown(r) == param(self.v().params, "type"@),
//@ end
}

// ---- media types -----------------------------------------------------------------------------------------------------
pub ghost struct CT { pub mime: Bytes, pub params: PM }
/// media type: everything up to `;` or the end
pub open spec fn ct(s: Bytes, m: Bytes) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { Some(CT { mime: m, params: Map::empty() }) } else if s[0] == 59 { ct_start(tail(s), CT { mime: m, params: Map::empty() }) } else { ct(tail(s), m.push(s[0])) }
}
pub open spec fn ct_next(s: Bytes, c: CT) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { Some(c) } else if s[0] == 59 { ct_start(tail(s), c) } else { None }
}
pub open spec fn ct_start(s: Bytes, c: CT) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 32 { ct_start(tail(s), c) } else { ct_name(tail(s), c, seq![s[0]]) }
}
pub open spec fn ct_name(s: Bytes, c: CT, k: Bytes) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 61 { ct_value(tail(s), c, k) } else { ct_name(tail(s), c, k.push(s[0])) }
}
pub open spec fn ct_value(s: Bytes, c: CT, k: Bytes) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 34 { ct_quoted(tail(s), c, k, Seq::empty()) } else { ct_token(tail(s), c, k, seq![s[0]]) }
}
pub open spec fn ct_quoted(s: Bytes, c: CT, k: Bytes, v: Bytes) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { None } else if s[0] == 34 { ct_next(tail(s), CT { params: c.params.insert(k, v), ..c }) } else { ct_quoted(tail(s), c, k, v.push(s[0])) }
}
pub open spec fn ct_token(s: Bytes, c: CT, k: Bytes, v: Bytes) -> Option<CT> decreases s.len(), 0int {
    if s.len() == 0 { Some(CT { params: c.params.insert(k, v), ..c }) } else if s[0] == 59 { ct_start(tail(s), CT { params: c.params.insert(k, v), ..c }) } else { ct_token(tail(s), c, k, v.push(s[0])) }
}
/// the media type written in bytes, if they are one
pub uninterp spec fn mime(b: Bytes) -> Option<Mime>;
#[verifier::external_body]
fn vx_mime(b: &Vec<u8>) -> (r: Result<Mime, u8>) ensures (match r { Ok(x) => mime(b@) == Some(x), Err(_) => mime(b@) is None }) { unimplemented!() }
/// a media type is the one written (without parameters)
pub uninterp spec fn named(m: Mime, t: Seq<char>) -> bool;
/// a media type has the structured suffix +json
pub uninterp spec fn plus_json(m: Mime) -> bool;
#[verifier::external_body]
fn vx_mime_is(m: &Mime, t: &'static str) -> (r: bool) ensures r == named(*m, t@) { unimplemented!() }
#[verifier::external_body]
fn vx_plus_json(m: &Mime) -> (r: bool) ensures r == plus_json(*m) { unimplemented!() }
pub ghost struct TypeV { pub media: Mime, pub params: PM }
/// what a Content-Type header says
pub open spec fn content_type(s: Bytes) -> Option<TypeV> {
    match ct(s, Seq::empty()) { Some(c) => (match mime(c.mime) { Some(m) => Some(TypeV { media: m, params: c.params }), None => None }), None => None }
}
/// JSON: application/json or a media type with the suffix +json
pub open spec fn is_json(m: Mime) -> bool { named(m, "application/json"@) || plus_json(m) }
//@ extract struct ContentType from crates/core/src/loader/reqwest/content_type.rs
//@ subst HashMap<Vec<u8>, Vec<u8>> => Params
//@ end
impl ContentType {
    pub closed spec fn v(self) -> TypeV { TypeV { media: self.media_type, params: self.params.m() } }
//@ extract fn impl ContentType > new from crates/core/src/loader/reqwest/content_type.rs
//@ ret r
//@ subst value.as_bytes().iter() => vx_bytes(value)
//@ subst bytes.next().copied() => vx_next(&mut bytes)
//@ subst std::mem::take( => vx_take(
//@ subst HashMap::new() => Params::new()
//@ subst Vec::new() => Vec::<u8>::new()
//@ subst Mime::from_str(std::str::from_utf8(&mime).ok()?) => vx_mime(&mime)
//@ loop 0
    invariant_except_break match state {
            State::Mime => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && params.m() == Map::<Bytes, Bytes>::empty() && ct(all, Seq::empty()) == ct(bytes.rest(), mime@),
            State::NextParam => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && ct(all, Seq::empty()) == ct_next(bytes.rest(), CT { mime: mime@, params: params.m() }),
            State::BeginKey => current_key@ == Seq::<u8>::empty() && current_value@ == Seq::<u8>::empty() && ct(all, Seq::empty()) == ct_start(bytes.rest(), CT { mime: mime@, params: params.m() }),
            State::Key => current_value@ == Seq::<u8>::empty() && ct(all, Seq::empty()) == ct_name(bytes.rest(), CT { mime: mime@, params: params.m() }, current_key@),
            State::BeginValue => current_value@ == Seq::<u8>::empty() && ct(all, Seq::empty()) == ct_value(bytes.rest(), CT { mime: mime@, params: params.m() }, current_key@),
            State::QuotedValue => ct(all, Seq::empty()) == ct_quoted(bytes.rest(), CT { mime: mime@, params: params.m() }, current_key@, current_value@),
            State::Value => ct(all, Seq::empty()) == ct_token(bytes.rest(), CT { mime: mime@, params: params.m() }, current_key@, current_value@),
        },
    invariant all == raw(*value),
    ensures ct(all, Seq::empty()) == Some(CT { mime: mime@, params: params.m() }),
    decreases bytes.rest().len(),
//@ start
    let ghost all = raw(*value);
//@ spec
    ensures (match r { Some(c) => content_type(raw(*value)) == Some(c.v()), None => content_type(raw(*value)) is None }),
//@ end
//@ extract fn impl ContentType > is_json_ld from crates/core/src/loader/reqwest/content_type.rs
//@ ret r
//@ subst self.media_type == "application/json" => vx_mime_is(&self.media_type, "application/json")
//@ subst self.media_type.suffix() == Some(mime::JSON) => vx_plus_json(&self.media_type)
//@ spec
    ensures r == is_json(self.v().media),
//@ end
//@ extract fn impl ContentType > media_type from crates/core/src/loader/reqwest/content_type.rs
//@ ret r
//@ spec
    ensures *r == self.v().media,
//@ end
//@ extract fn impl ContentType > into_media_type from crates/core/src/loader/reqwest/content_type.rs
//@ ret r
//@ spec
    ensures r == self.v().media,
//@ end
//@ extract fn impl ContentType > profile from crates/core/src/loader/reqwest/content_type.rs
//@ ret r
//@ subst b"profile".as_slice() => vx_lit("profile")
//@ subst Vec::as_slice => |v: &Vec<u8>| -> (s: &[u8]) ensures s@ == v@ { vx_slice(v) }
//@ spec
    ensures shown(r) == param(self.v().params, "profile"@),
//@ end
}

// ---- all the links of an answer --------------------------------------------------------------------------------------
/// the links of a header value, up to the first ill-formed one
pub open spec fn all_links(s: Bytes) -> Seq<LinkV> decreases s.len() {
    match next_link(s) { Some((l, rest)) => if rest.len() < s.len() { seq![l] + all_links(rest) } else { seq![l] }, None => Seq::empty() }
}
pub open spec fn links(h: Seq<HeaderValue>) -> Seq<LinkV> decreases h.len() { if h.len() == 0 { Seq::empty() } else { all_links(raw(h[0])) + links(h.drop_first()) } }
/// the first JSON media type
pub open spec fn json_type(h: Seq<HeaderValue>) -> Option<TypeV> decreases h.len() {
    if h.len() == 0 { None } else { match content_type(raw(h[0])) { Some(t) => if is_json(t.media) { Some(t) } else { json_type(h.drop_first()) }, None => json_type(h.drop_first()) } }
}
/// reading a link takes at least one byte
proof fn shorter(s: Bytes) ensures (match link(s) { Some((_, rest)) => rest.len() < s.len(), None => true }) decreases s.len(), 9int {
    if s.len() > 0 { if s[0] == 60 { shorter_href(tail(s), Seq::empty()) } else if ws(s[0]) || s[0] == 44 { shorter(tail(s)) } }
}
proof fn shorter_href(s: Bytes, h: Bytes) ensures (match href(s, h) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 8int {
    if s.len() > 0 { if s[0] == 62 { shorter_params(tail(s), L { href: h, params: Map::empty() }) } else { shorter_href(tail(s), h.push(s[0])) } }
}
proof fn shorter_params(s: Bytes, l: L) ensures (match params(s, l) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 0int {
    if !(s.len() == 0 || s[0] == 44) { if s[0] == 59 { shorter_start(tail(s), l) } else if ws(s[0]) { shorter_params(tail(s), l) } }
}
proof fn shorter_start(s: Bytes, l: L) ensures (match start(s, l) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 0int {
    if s.len() > 0 { if ws(s[0]) { shorter_start(tail(s), l) } else { shorter_name(tail(s), l, seq![s[0]]) } }
}
proof fn shorter_name(s: Bytes, l: L, k: Bytes) ensures (match name(s, l, k) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 0int {
    if s.len() > 0 { if s[0] == 61 { let v = tail(s); assert(name(s, l, k) == value(v, l, k)); reveal_with_fuel(value, 3); if v.len() > 0 && v[0] == 34 { shorter_quoted(tail(v), l, k, Seq::empty()) } else { shorter_token(v, l, k, Seq::empty()) } } else { shorter_name(tail(s), l, k.push(s[0])) } }
}
proof fn shorter_quoted(s: Bytes, l: L, k: Bytes, v: Bytes) ensures (match quoted(s, l, k, v) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 0int {
    if s.len() > 0 { if s[0] == 34 { shorter_params(tail(s), L { params: l.params.insert(k, v), ..l }) } else { shorter_quoted(tail(s), l, k, v.push(s[0])) } }
}
proof fn shorter_token(s: Bytes, l: L, k: Bytes, v: Bytes) ensures (match token(s, l, k, v) { Some((_, rest)) => rest.len() <= s.len(), None => true }) decreases s.len(), 1int {
    if s.len() == 0 || s[0] == 59 || s[0] == 44 || ws(s[0]) { shorter_params(s, L { params: l.params.insert(k, v), ..l }) } else { shorter_token(tail(s), l, k, v.push(s[0])) }
}
/// so the links of a header value are its first link and the links of what is left
proof fn links_of(s: Bytes) ensures (match next_link(s) { Some((l, rest)) => all_links(s) == seq![l] + all_links(rest), None => all_links(s).len() == 0 }) { shorter(s); }

// ---- the loader --------------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct Client { x: String }
#[verifier::external_body] pub struct SendError { x: String }
#[verifier::external_body] pub struct BodyError { x: String }
#[verifier::external_body] pub struct JsError { x: String }
#[verifier::external_body] pub struct Response { x: String }
#[verifier::external_body] pub struct WebUrl { x: String }
#[verifier::external_body] pub struct Body { x: String }
#[verifier::external_body] pub struct Chars { x: String }
#[verifier::external_body] pub struct Cause { x: String }
#[verifier::external_body] pub struct Profile { x: String }
pub enum StatusCode { OK, Other(u16) }
impl Clone for IriBuf {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn held(i: Iri) -> IriBuf;
pub uninterp spec fn text(i: IriBuf) -> Seq<char>;
impl Iri {
    #[verifier::external_body] pub fn to_owned(&self) -> (r: IriBuf) ensures r == held(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == text(held(*self)) { unimplemented!() }
    /// the identifier written, if it is one
    #[verifier::external_body] pub fn new(s: &str) -> (r: Result<&Iri, u8>) ensures (match r { Ok(i) => iri_of(s@) == Some(*i), Err(_) => iri_of(s@) is None }) { unimplemented!() }
}
impl IriBuf { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == text(*self) { unimplemented!() } }
pub uninterp spec fn iri_of(s: Seq<char>) -> Option<Iri>;
pub uninterp spec fn profile_of(i: Iri) -> Profile;
pub uninterp spec fn profile_iri(p: Profile) -> Iri;
impl Profile {
    #[verifier::external_body] pub fn new(i: &Iri) -> (r: Self) ensures r == profile_of(*i) { unimplemented!() }
    #[verifier::external_body] pub fn iri(&self) -> (r: &Iri) ensures *r == profile_iri(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct Profiles { x: u8 }
impl Profiles {
    pub uninterp spec fn s(self) -> Set<Profile>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.s() == Set::<Profile>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: Profile) -> (r: bool) ensures final(self).s() == old(self).s().insert(p) { unimplemented!() }
}
pub uninterp spec fn resolves(r: IriRef, base: IriBuf) -> IriBuf;
pub uninterp spec fn seen(r: IriRefBuf) -> IriRef;
impl IriRef { #[verifier::external_body] pub fn resolved(&self, base: &IriBuf) -> (r: IriBuf) ensures r == resolves(*self, *base) { unimplemented!() } }
impl IriRefBuf { #[verifier::external_body] pub fn as_iri_ref(&self) -> (r: &IriRef) ensures *r == seen(*self) { unimplemented!() } }
impl Link {
//@ extract fn impl Link > href from crates/core/src/loader/reqwest/link.rs
//@ ret r
//@ spec
    ensures *r == seen(self.v().href),
//@ end
}
pub uninterp spec fn boxed<E>(e: E) -> Cause;
#[verifier::external_body]
fn vx_box<E>(e: E) -> (r: Cause) ensures r == boxed(e) { unimplemented!() }
//@ extract struct LoadError from crates/core/src/loader/mod.rs
//@ subst LoadErrorCause => Cause
//@ end
impl LoadError {
    /// `?` leaves an error of the same type as it is
    fn from(e: LoadError) -> (r: LoadError) ensures r == e { e }
//@ extract fn impl LoadError > new from crates/core/src/loader/mod.rs
//@ ret r
//@ subst fn new( => fn new<E>(
//@ subst impl 'static + std::error::Error + Send + Sync => E
//@ subst Box::new(cause) => vx_box(cause)
//@ spec
    ensures r.target == target, r.cause == boxed(cause),
//@ end
}
//@ extract enum Error from crates/core/src/loader/reqwest/mod.rs
//@ subst reqwest_middleware::Error => SendError
//@ subst json_syntax::parse::Error<std::io::Error> => JsError
//@ end
//@ extract struct RemoteDocument from crates/core/src/loader/mod.rs
//@ subst RemoteDocument<I = IriBuf, T = json_syntax::Value> => RemoteDocument<I, T>
//@ subst HashSet<Profile<I>> => Profiles
//@ end
impl<I, T> RemoteDocument<I, T> {
//@ extract fn impl RemoteDocument > new_full from crates/core/src/loader/mod.rs
//@ ret r
//@ subst HashSet<Profile<I>> => Profiles
//@ spec
    ensures r == (RemoteDocument { url, content_type, context_url, profile, document }),
//@ end
}
pub type LoadingResult<I> = Result<RemoteDocument<I, JsValue>, LoadError>;
//@ extract struct Options from crates/core/src/loader/reqwest/mod.rs
//@ subst ClientWithMiddleware => Client
//@ end
//@ extract struct ReqwestLoader from crates/core/src/loader/reqwest/mod.rs
//@ end
/// what is answered to a question: the network, a function of the question as long as the load lasts
pub uninterp spec fn answer(c: Client, url: Seq<char>, accept: Seq<char>) -> Result<Response, SendError>;
pub uninterp spec fn status(r: Response) -> StatusCode;
pub uninterp spec fn types(r: Response) -> Seq<HeaderValue>;
pub uninterp spec fn link_headers(r: Response) -> Seq<HeaderValue>;
pub uninterp spec fn address(r: Response) -> WebUrl;
pub uninterp spec fn body(r: Response) -> Result<Body, BodyError>;
pub uninterp spec fn wrapped(e: BodyError) -> SendError;
pub uninterp spec fn json(b: Body) -> Result<JsValue, JsError>;
pub uninterp spec fn parsed(u: Seq<char>) -> Option<WebUrl>;
pub uninterp spec fn with_fragment_of(u: WebUrl, v: WebUrl) -> WebUrl;
pub uninterp spec fn iri_of_url(u: WebUrl) -> Option<IriBuf>;
#[verifier::external_body]
async fn vx_send(c: &Client, url: &str, accept: &String) -> (r: Result<Response, SendError>) ensures r == answer(*c, url@, accept@) { unimplemented!() }
#[verifier::external_body]
fn vx_wrap(e: BodyError) -> (r: SendError) ensures r == wrapped(e) { unimplemented!() }
pub uninterp spec fn chars(b: Body) -> Chars;
pub uninterp spec fn of_chars(c: Chars) -> Body;
#[verifier::external_body]
fn vx_decoder(b: &Body) -> (r: Chars) ensures of_chars(r) == *b { unimplemented!() }
#[verifier::external_body]
fn vx_json(c: Chars) -> (r: Result<(JsValue, CodeMap), JsError>) ensures (match r { Ok(p) => json(of_chars(c)) == Ok::<JsValue, JsError>(p.0), Err(e) => json(of_chars(c)) == Err::<JsValue, JsError>(e) }) { unimplemented!() }
impl Response {
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r == status(*self) { unimplemented!() }
    #[verifier::external_body] pub fn url(&self) -> (r: &WebUrl) ensures *r == address(*self) { unimplemented!() }
    #[verifier::external_body] pub async fn bytes(self) -> (r: Result<Body, BodyError>) ensures r == body(self) { unimplemented!() }
}
impl WebUrl {
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<WebUrl, u8>) ensures (match r { Ok(u) => parsed(s@) == Some(u), Err(_) => parsed(s@) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_set_fragment_of(&mut self, o: &WebUrl) ensures *final(self) == with_fragment_of(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] pub fn vx_differs(&self, o: &WebUrl) -> (r: bool) ensures r == (*self != *o) { unimplemented!() }
}
#[verifier::external_body]
fn vx_iri(u: &WebUrl) -> (r: Result<IriBuf, u8>) ensures (match r { Ok(i) => iri_of_url(*u) == Some(i), Err(_) => iri_of_url(*u) is None }) { unimplemented!() }
/// the first JSON media type among the Content-Type headers (`filter_map(ContentType::new)` and `find(ContentType::is_json_ld)`)
#[verifier::external_body]
fn vx_json_type(r: &Response) -> (o: Option<ContentType>) ensures (match o { Some(c) => json_type(types(*r)) == Some(c.v()), None => json_type(types(*r)) is None }) { unimplemented!() }
/// the links of the Link headers (`flat_map(Link::all)`, `Link::all` repeats `parse` until it fails)
#[verifier::external_body]
fn vx_links(r: &Response) -> (o: Links) ensures o.rest@ == links(link_headers(*r)) { unimplemented!() }
pub struct Links { pub rest: Ghost<Seq<LinkV>> }
impl Links {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Link>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r is Some && r->0.v() == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}
/// the pieces between the blanks
pub open spec fn words(b: Bytes) -> Seq<Bytes> { pieces(b, Seq::empty()) }
pub open spec fn pieces(b: Bytes, piece: Bytes) -> Seq<Bytes> decreases b.len() {
    if b.len() == 0 { seq![piece] } else if b[0] == 32 { seq![piece] + pieces(tail(b), Seq::empty()) } else { pieces(tail(b), piece.push(b[0])) }
}
pub struct Words<'a> { pub rest: Ghost<Seq<Bytes>>, pub p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
fn vx_words<'a>(p: Option<&'a [u8]>) -> (r: Words<'a>) ensures r.rest@ == (match p { Some(b) => words(b@), None => Seq::empty() }) { unimplemented!() }
impl<'a> Words<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r is Some && r->0@ == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1),
    { unimplemented!() }
}
pub uninterp spec fn utf8(b: Bytes) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_utf8(b: &[u8]) -> (r: Result<&str, u8>) ensures (match r { Ok(t) => utf8(b@) == Some(t@), Err(_) => utf8(b@) is None }) { unimplemented!() }
pub open spec fn worded(w: Bytes) -> Option<Profile> { match utf8(w) { Some(t) => (match iri_of(t) { Some(i) => Some(profile_of(i)), None => None }), None => None } }
/// the profiles named
pub open spec fn profiles(w: Seq<Bytes>, acc: Set<Profile>) -> Set<Profile> decreases w.len() {
    if w.len() == 0 { acc } else { profiles(w.skip(1), match worded(w[0]) { Some(p) => acc.insert(p), None => acc }) }
}
/// the context links of an answer: none, one, or several
pub open spec fn is_context(l: LinkV) -> bool { param(l.params, "rel"@) == Some(enc("http://www.w3.org/ns/json-ld#context"@)) }
pub open spec fn context(l: Seq<LinkV>, found: Option<IriBuf>, at: IriBuf) -> Result<Option<IriBuf>, ()> decreases l.len() {
    if l.len() == 0 { Ok(found) } else if !is_context(l[0]) { context(l.skip(1), found, at) } else if found is Some { Err(()) } else { context(l.skip(1), Some(resolves(seen(l[0].href), at)), at) }
}
pub open spec fn is_alternate(l: LinkV) -> bool { param(l.params, "rel"@) == Some(enc("alternate"@)) && param(l.params, "type"@) == Some(enc("application/ld+json"@)) }
pub open spec fn alternate(l: Seq<LinkV>) -> Option<LinkV> decreases l.len() { if l.len() == 0 { None } else if is_alternate(l[0]) { Some(l[0]) } else { alternate(l.skip(1)) } }
/// where an answer comes from: the address of the answer if the client was redirected, else the address asked for
pub open spec fn landed(url: IriBuf, w: WebUrl) -> IriBuf {
    match parsed(text(url)) { Some(p) => if with_fragment_of(p, w) != w { (match iri_of_url(w) { Some(i) => i, None => url }) } else { url }, None => url }
}
/// what a load gives
pub ghost enum Out { Fails(IriBuf, Cause), Gives(IriBuf, Mime, Option<IriBuf>, Set<Profile>, JsValue) }
pub open spec fn is(o: LoadingResult<IriBuf>, w: Out) -> bool {
    match w {
        Out::Fails(at, c) => o == Err::<RemoteDocument<IriBuf, JsValue>, _>(LoadError { target: at, cause: c }),
        Out::Gives(at, m, c, p, d) => (o matches Ok(x) && x.url == Some(at) && x.content_type == Some(m) && x.context_url == c && x.profile.s() == p && x.document == d),
    }
}
pub open spec fn context_of(r: Response, t: TypeV, at: IriBuf) -> Result<Option<IriBuf>, ()> { if named(t.media, "application/ld+json"@) { Ok(None) } else { context(links(link_headers(r)), None, at) } }
pub open spec fn named_words(t: TypeV) -> Seq<Bytes> { match param(t.params, "profile"@) { Some(b) => words(b), None => Seq::empty() } }
/// an answer of a JSON media type gives this
pub open spec fn document(r: Response, t: TypeV, at: IriBuf) -> Out {
    match context_of(r, t, at) {
        Err(_) => Out::Fails(at, boxed(Error::MultipleContextLinkHeaders)),
        Ok(c) => (match body(r) {
            Err(e) => Out::Fails(at, boxed(Error::Reqwest(wrapped(e)))),
            Ok(b) => (match json(b) { Err(e) => Out::Fails(at, boxed(Error::Parse(e))), Ok(d) => Out::Gives(at, t.media, c, profiles(named_words(t), Set::empty()), d) }),
        }),
    }
}
/// loading a URL after `n` links were followed
pub open spec fn loads(l: ReqwestLoader, url: IriBuf, n: nat) -> Out decreases l.most() + 1 - n {
    if n > l.most() { Out::Fails(url, boxed(Error::TooManyRedirections)) } else {
        match answer(l.client(), text(url), l.accepts()) {
            Err(e) => Out::Fails(url, boxed(e)),
            Ok(r) => {
                let at = landed(url, address(r));
                match status(r) {
                    StatusCode::OK => (match json_type(types(r)) {
                        Some(t) => document(r, t, at),
                        None => (match alternate(links(link_headers(r))) { Some(a) => loads(l, resolves(seen(a.href), at), n + 1), None => Out::Fails(at, boxed(Error::InvalidContentType)) }),
                    }),
                    c => Out::Fails(at, boxed(Error::QueryFailed(c))),
                }
            }
        }
    }
}
impl ReqwestLoader {
    pub closed spec fn most(self) -> nat { self.options.max_redirections as nat }
    pub closed spec fn client(self) -> Client { self.options.client }
    pub closed spec fn accepts(self) -> Seq<char> { self.accept_header@ }
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ extract fn impl Loader for ReqwestLoader > load from crates/core/src/loader/reqwest/mod.rs
//@ ret r
//@ desugar-break LoadingResult<IriBuf>
//@ desugar result.map_err
//@ desugar-try LoadError
//@ subst log::debug!("downloading: {}", url); => {}
//@ subst log::debug!("no valid media type found"); => {}
//@ subst log::debug!("link found"); => {}
//@ subst ~ let request = self.options.client.get(url.as_str()).header(ACCEPT, &self.accept_header); => {}
//@ subst ~ request.send() => vx_send(&self.options.client, url.as_str(), &self.accept_header)
//@ subst ::reqwest::Url::parse( => WebUrl::parse(
//@ subst requested_url.set_fragment(response.url().fragment()) => requested_url.vx_set_fragment_of(response.url())
//@ subst requested_url != *response.url() => requested_url.vx_differs(response.url())
//@ subst IriBuf::new(response.url().to_string()) => vx_iri(response.url())
//@ subst ~ let mut content_types = response.headers().get_all(CONTENT_TYPE).into_iter().filter_map(ContentType::new); => {}
//@ subst content_types.find(ContentType::is_json_ld) => vx_json_type(&response)
//@ subst *content_type.media_type() != "application/ld+json" => !vx_mime_is(content_type.media_type(), "application/ld+json")
//@ subst ~ response.headers().get_all(LINK).into_iter().flat_map(Link::all) => vx_links(&response)
//@ subst link.rel() == Some(b" => vx_is(link.rel(), "
//@ subst link.type_() == Some(b" => vx_is(link.type_(), "
//@ subst HashSet::new() => Profiles::new()
//@ subst ~ content_type.profile().into_iter().flat_map(|p| p.split(|b| *b == b' ')) => vx_words(content_type.profile())
//@ subst std::str::from_utf8(p) => vx_utf8(p)
//@ subst e.into() => vx_wrap(e)
//@ subst utf8_decode::Decoder::new(bytes.iter().copied()) => vx_decoder(&bytes)
//@ subst json_syntax::Value::parse_utf8(decoder) => vx_json(decoder)
//@ loop 0
    invariant_except_break loads(*self, url, redirection_number as nat) == out,
    invariant redirection_number <= self.most() + 1, self.most() < usize::MAX,
    ensures is(vx_r, out),
    decreases self.most() + 1 - redirection_number,
//@ loop 0 body-start
    let ghost n0 = redirection_number;
//@ desugar-for 0 vx_l
    invariant context(vx_l.rest@, context_url, url) == context(links(link_headers(response)), None, url),
    ensures context(links(link_headers(response)), None, url) == Ok::<_, ()>(context_url),
    decreases vx_l.rest@.len(),
//@ desugar-for 1 vx_w
    invariant profiles(vx_w.rest@, profile.s()) == profiles(named_words(content_type.v()), Set::empty()),
    ensures profile.s() == profiles(named_words(content_type.v()), Set::empty()),
    decreases vx_w.rest@.len(),
//@ desugar-for 2 vx_a
    invariant redirection_number == n0, n0 <= self.most(),
        (match alternate(vx_a.rest@) { Some(a) => loads(*self, resolves(seen(a.href), url), (n0 + 1) as nat), None => Out::Fails(url, boxed(Error::InvalidContentType)) }) == out,
    ensures out == Out::Fails(url, boxed(Error::InvalidContentType)),
    decreases vx_a.rest@.len(),
//@ start
    let ghost out = loads(*self, held(*url), 0);
//@ spec
    requires self.most() < usize::MAX,
    ensures is(r, loads(*self, held(*url), 0)),
//@ end
}

// ---- what is asked for ---------------------------------------------------------------------------------------------------
/// the profiles, separated by blanks
pub open spec fn listed(p: Seq<Profile>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { listed(p.drop_last()) + (if p.len() > 1 { " "@ } else { Seq::empty() }) + text(held(profile_iri(p.last()))) }
}
pub open spec fn accept(p: Seq<Profile>) -> Seq<char> {
    "application/ld+json"@ + (if p.len() == 0 { Seq::empty() } else { "; profile=\""@ + listed(p) + "\""@ }) + ", application/json"@
}
#[verifier::external_body]
fn vx_cat(a: &str, b: &String, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
#[verifier::external_body]
fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
pub struct Enumerated<'a> { pub all: Ghost<Seq<Profile>>, pub n: Ghost<nat>, pub p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
fn vx_enumerate<'a>(v: &'a Vec<Profile>) -> (r: Enumerated<'a>) ensures r.all@ == v@, r.n@ == 0 { unimplemented!() }
impl<'a> Enumerated<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a Profile)>)
        ensures final(self).all == old(self).all, old(self).n@ >= old(self).all@.len() ==> r is None && final(self).n@ == old(self).n@,
            old(self).n@ < old(self).all@.len() ==> (r matches Some(x) && x.0 == old(self).n@ && *x.1 == old(self).all@[old(self).n@ as int]) && final(self).n@ == old(self).n@ + 1,
    { unimplemented!() }
}
impl ReqwestLoader {
//@ extract fn impl ReqwestLoader > new_using from crates/core/src/loader/reqwest/mod.rs
//@ ret r
//@ subst String::new() => vx_empty()
//@ subst options.request_profile.iter().enumerate() => vx_enumerate(&options.request_profile)
//@ call push_str => vx_push_str(&mut $0, $1)
//@ call push => vx_push(&mut $0, $1)
//@ subst format!("application/ld+json{json_ld_params}, application/json") => vx_cat("application/ld+json", &json_ld_params, ", application/json")
//@ desugar-for 0 vx_e
    invariant vx_e.all@ == options.request_profile@, vx_e.all@.take(vx_e.all@.len() as int) =~= vx_e.all@, vx_e.n@ <= vx_e.all@.len(), json_ld_params@ =~= "; profile=\""@ + listed(vx_e.all@.take(vx_e.n@ as int)),
    ensures json_ld_params@ =~= "; profile=\""@ + listed(options.request_profile@),
    decreases vx_e.all@.len() - vx_e.n@,
//@ loop 0 body-start
    proof { reveal_strlit(" "); reveal_strlit("\""); assert(" "@ =~= seq![' ']); assert(vx_e.all@.take(vx_e.n@ as int).drop_last() =~= vx_e.all@.take(vx_e.n@ - 1)); assert(vx_e.all@.take(vx_e.n@ as int).last() == *p); assert(i == vx_e.n@ - 1);}
//@ start
    proof { reveal_strlit(" "); reveal_strlit("\""); assert(options.request_profile@.take(0) =~= Seq::<Profile>::empty()); }
//@ spec
    ensures r.accepts() =~= accept(options.request_profile@), r.client() == options.client, r.most() == options.max_redirections,
//@ end
}
}
fn main() {}
