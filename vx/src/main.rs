//! vx: mechanical extraction of functions and types from /repo into Verus files.
//!
//! A template is a Verus source file containing `//@ extract ... //@ end` blocks.  Each block names one
//! item of the repository; the item's text is copied verbatim, minus attributes, doc comments and
//! visibility, and the contract clauses given in the block are spliced into it.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

struct Section {
	head: String,
	body: String,
}

fn br(s: Span) -> Range<usize> {
	s.byte_range()
}

fn squash(s: &str) -> String {
	s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn strip_generics(s: &str) -> String {
	let mut out = String::new();
	let mut d = 0i32;
	let cs: Vec<char> = s.chars().collect();
	for (i, &c) in cs.iter().enumerate() {
		match c {
			'<' => d += 1,
			'>' if i > 0 && cs[i - 1] == '-' => {
				if d == 0 {
					out.push(c)
				}
			}
			'>' => d -= 1,
			_ if d == 0 => out.push(c),
			_ => {}
		}
	}
	out
}

fn last_seg(s: &str) -> String {
	match s.rfind("::") {
		Some(i) => {
			let head = &s[..i];
			let amp: String = if head.starts_with('&') { "&".into() } else { String::new() };
			format!("{}{}", amp, &s[i + 2..])
		}
		None => s.to_string(),
	}
}

fn impl_matches(i: &syn::ItemImpl, needle: &str) -> bool {
	let needle = needle.trim().strip_prefix("impl").unwrap_or(needle).trim();
	let (tr, ty) = match needle.find(" for ") {
		Some(k) => (Some(&needle[..k]), &needle[k + 5..]),
		None => (None, needle),
	};
	let self_s = squash(&i.self_ty.to_token_stream().to_string());
	let ty = squash(ty);
	let ok_ty = if ty.contains('<') {
		self_s == ty
	} else {
		last_seg(&strip_generics(&self_s)) == ty || strip_generics(&self_s) == ty
	};
	if !ok_ty {
		return false;
	}
	match (tr, &i.trait_) {
		(None, None) => true,
		(Some(t), Some((_, p, _))) => {
			let p = squash(&p.to_token_stream().to_string());
			let t = squash(t);
			if t.contains('<') {
				last_seg_generic(&p) == t || p == t
			} else {
				last_seg(&strip_generics(&p)) == t
			}
		}
		_ => false,
	}
}

fn last_seg_generic(p: &str) -> String {
	let cut = p.find('<').unwrap_or(p.len());
	match p[..cut].rfind("::") {
		Some(i) => p[i + 2..].to_string(),
		None => p.to_string(),
	}
}

enum Found {
	Fn { attrs: Vec<syn::Attribute>, sig: syn::Signature, block: syn::Block },
	Other { range: Range<usize>, line: usize },
}

fn find_in_items(items: &[syn::Item], path: &[String], kind: &str) -> Option<Found> {
	if path.len() > 1 {
		let head = path[0].trim();
		for it in items {
			match it {
				syn::Item::Impl(i) if head.starts_with("impl") => {
					if impl_matches(i, head) {
						for ii in &i.items {
							if let syn::ImplItem::Fn(f) = ii {
								if kind == "fn" && f.sig.ident == path[1] {
									return Some(Found::Fn {
										attrs: f.attrs.clone(),
										sig: f.sig.clone(),
										block: f.block.clone(),
									});
								}
							}
							if let syn::ImplItem::Const(c) = ii {
								if kind == "const" && c.ident == path[1] {
									return Some(Found::Other {
										range: br(c.const_token.span()).start..br(c.span()).end,
										line: c.span().start().line,
									});
								}
							}
						}
					}
				}
				syn::Item::Trait(t) if head.strip_prefix("trait ").map(|n| t.ident == n.trim()).unwrap_or(false) => {
					for ti in &t.items {
						if let syn::TraitItem::Fn(f) = ti {
							if kind == "fn" && f.sig.ident == path[1] {
								return f.default.clone().map(|b| Found::Fn {
									attrs: f.attrs.clone(),
									sig: f.sig.clone(),
									block: b,
								});
							}
						}
					}
				}
				syn::Item::Mod(m) if head.strip_prefix("mod ").map(|n| m.ident == n.trim()).unwrap_or(false) => {
					if let Some((_, its)) = &m.content {
						if let Some(f) = find_in_items(its, &path[1..], kind) {
							return Some(f);
						}
					}
				}
				_ => {}
			}
		}
		return None;
	}
	let name = path[0].trim();
	for it in items {
		match it {
			syn::Item::Fn(f) if kind == "fn" && f.sig.ident == name => {
				return Some(Found::Fn {
					attrs: f.attrs.clone(),
					sig: f.sig.clone(),
					block: (*f.block).clone(),
				})
			}
			syn::Item::Struct(s) if kind == "struct" && s.ident == name => {
				return Some(Found::Other {
					range: br(s.struct_token.span()).start..br(s.span()).end,
					line: s.struct_token.span().start().line,
				})
			}
			syn::Item::Enum(s) if kind == "enum" && s.ident == name => {
				return Some(Found::Other {
					range: br(s.enum_token.span()).start..br(s.span()).end,
					line: s.enum_token.span().start().line,
				})
			}
			syn::Item::Const(s) if kind == "const" && s.ident == name => {
				return Some(Found::Other {
					range: br(s.const_token.span()).start..br(s.span()).end,
					line: s.const_token.span().start().line,
				})
			}
			syn::Item::Type(s) if kind == "type" && s.ident == name => {
				return Some(Found::Other {
					range: br(s.type_token.span()).start..br(s.span()).end,
					line: s.type_token.span().start().line,
				})
			}
			_ => {}
		}
	}
	None
}

struct LoopInfo {
	open: usize,       // byte offset of `{`
	body_start: usize, // after `{`
	body_end: usize,   // at `}`
	iter: Option<usize>,
}
/// a call `recv.method(arg)` of a combinator that can be replaced by its definition
struct CallInfo {
	method: String,
	recv: Range<usize>,
	whole: Range<usize>,
	pat: String,
	/// closure body, or the path applied to the argument
	body: Result<Range<usize>, String>,
	jumps: bool,
}
struct ForInfo {
	whole: Range<usize>,
	label: Option<String>,
	pat: Range<usize>,
	expr: Range<usize>,
	open: usize,
	body_start: usize,
	body_end: usize,
}
/// `return` or `?` in a closure body refer to the closure, so such a body cannot be inlined
#[derive(Default)]
struct Jumps(bool);
impl<'ast> Visit<'ast> for Jumps {
	fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
		self.0 = true
	}
	fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
		self.0 = true
	}
	fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
/// `break` with a value, out of the loop visited
#[derive(Default)]
struct Breaks(Vec<(Range<usize>, Range<usize>)>);
impl<'ast> Visit<'ast> for Breaks {
	fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
		if let (None, Some(e)) = (&b.label, &b.expr) {
			self.0.push((br(b.break_token.span()), br(e.span())));
		}
	}
	fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
	fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
	fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
	fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
/// `?` of the function itself, not of closures in it
#[derive(Default)]
struct Tries(Vec<(Range<usize>, Range<usize>)>);
impl<'ast> Visit<'ast> for Tries {
	fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
		self.0.push((br(t.expr.span()), br(t.question_token.span())));
		syn::visit::visit_expr_try(self, t)
	}
	fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
	fn visit_item(&mut self, _: &'ast syn::Item) {}
}
struct ClosureInfo {
	after_inputs: usize,
	body: Range<usize>,
	is_block: bool,
	has_output: bool,
	head: usize,
}

#[derive(Default)]
struct Collect {
	loops: Vec<LoopInfo>,
	closures: Vec<ClosureInfo>,
	stmts: Vec<Range<usize>>,
	attrs: Vec<Range<usize>>,
	fields: Vec<usize>,
	calls: Vec<CallInfo>,
	fors: Vec<ForInfo>,
	mcalls: Vec<(String, Range<usize>, Vec<Range<usize>>, Range<usize>)>,
	fmts: Vec<(Range<usize>, Option<String>)>,
	text: String,
}
/// `format!("a{x}b{}", y)` as concatenation of its pieces
fn format_pieces(tokens: proc_macro2::TokenStream) -> Option<String> {
	use syn::parse::Parser;
	let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(tokens).ok()?;
	let mut args = args.iter();
	let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.next() else { return None };
	let f = f.value();
	let mut pieces: Vec<String> = Vec::new();
	let mut cs = f.chars().peekable();
	let mut lit = String::new();
	while let Some(c) = cs.next() {
		match c {
			'{' if cs.peek() == Some(&'{') => {
				cs.next();
				lit.push('{')
			}
			'}' if cs.peek() == Some(&'}') => {
				cs.next();
				lit.push('}')
			}
			'}' => return None,
			'{' => {
				let mut h = String::new();
				loop {
					match cs.next()? {
						'}' => break,
						c => h.push(c),
					}
				}
				let (name, how) = h.split_once(':').unwrap_or((&h, ""));
				let e = if name.is_empty() { args.next()?.to_token_stream().to_string() } else { name.parse::<usize>().is_err().then(|| name.to_string())? };
				if !lit.is_empty() {
					pieces.push(format!("vx_lit({lit:?})"));
					lit.clear();
				}
				pieces.push(if how.is_empty() { format!("vx_show(&{e})") } else { format!("vx_show_as(&{e}, {how:?})") });
			}
			c => lit.push(c),
		}
	}
	if args.next().is_some() {
		return None;
	}
	if !lit.is_empty() || pieces.is_empty() {
		pieces.push(format!("vx_lit({lit:?})"));
	}
	pieces.into_iter().reduce(|a, b| format!("vx_cat({a}, {b})"))
}
impl<'ast> Visit<'ast> for Collect {
	fn visit_macro(&mut self, n: &'ast syn::Macro) {
		if n.path.is_ident("format") {
			self.fmts.push((br(n.span()), format_pieces(n.tokens.clone())));
		}
	}
	fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
		self.mcalls.push((n.method.to_string(), br(n.receiver.span()), n.args.iter().map(|a| br(a.span())).collect(), br(n.span())));
		if n.args.len() <= 1 {
			let whole = br(n.span());
			let recv = br(n.receiver.span());
			let method = n.method.to_string();
			match n.args.first() {
				Some(syn::Expr::Closure(c)) => {
					let mut j = Jumps::default();
					j.visit_expr(&c.body);
					let pat = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => self.text[br(t.pat.span())].to_string(), p => self.text[br(p.span())].to_string() }).collect::<Vec<_>>().join(", ");
					self.calls.push(CallInfo { method, recv, whole, pat, body: Ok(br(c.body.span())), jumps: j.0 });
				}
				Some(syn::Expr::Path(p)) => {
					let t = self.text[br(p.span())].to_string();
					self.calls.push(CallInfo { method, recv, whole, pat: "vx_v".into(), body: Err(t), jumps: false });
				}
				_ => {}
			}
		}
		syn::visit::visit_expr_method_call(self, n)
	}
	fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
		self.fors.push(ForInfo {
			whole: br(n.span()),
			label: n.label.as_ref().map(|l| l.name.to_string()),
			pat: br(n.pat.span()),
			expr: br(n.expr.span()),
			open: br(n.body.brace_token.span.open()).start,
			body_start: br(n.body.brace_token.span.open()).end,
			body_end: br(n.body.brace_token.span.close()).start,
		});
		self.loops.push(LoopInfo {
			open: br(n.body.brace_token.span.open()).start,
			body_start: br(n.body.brace_token.span.open()).end,
			body_end: br(n.body.brace_token.span.close()).start,
			iter: Some(br(n.expr.span()).start),
		});
		syn::visit::visit_expr_for_loop(self, n)
	}
	fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
		self.loops.push(LoopInfo {
			open: br(n.body.brace_token.span.open()).start,
			body_start: br(n.body.brace_token.span.open()).end,
			body_end: br(n.body.brace_token.span.close()).start,
			iter: None,
		});
		syn::visit::visit_expr_while(self, n)
	}
	fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
		self.loops.push(LoopInfo {
			open: br(n.body.brace_token.span.open()).start,
			body_start: br(n.body.brace_token.span.open()).end,
			body_end: br(n.body.brace_token.span.close()).start,
			iter: None,
		});
		syn::visit::visit_expr_loop(self, n)
	}
	fn visit_expr_closure(&mut self, n: &'ast syn::ExprClosure) {
		self.closures.push(ClosureInfo {
			after_inputs: br(n.or2_token.span()).end,
			body: br(n.body.span()),
			is_block: matches!(&*n.body, syn::Expr::Block(_)),
			has_output: !matches!(n.output, syn::ReturnType::Default),
			head: br(n.or1_token.span()).start,
		});
		syn::visit::visit_expr_closure(self, n)
	}
	fn visit_stmt(&mut self, n: &'ast syn::Stmt) {
		self.stmts.push(br(n.span()));
		syn::visit::visit_stmt(self, n)
	}
	fn visit_item_struct(&mut self, n: &'ast syn::ItemStruct) {
		for f in &n.fields {
			let p = match &f.ident {
				Some(i) => br(i.span()).start,
				None => br(f.ty.span()).start,
			};
			self.fields.push(p);
		}
		syn::visit::visit_item_struct(self, n)
	}
	fn visit_attribute(&mut self, n: &'ast syn::Attribute) {
		self.attrs.push(br(n.span()));
	}
	fn visit_visibility(&mut self, n: &'ast syn::Visibility) {
		if !matches!(n, syn::Visibility::Inherited) {
			self.attrs.push(br(n.span()));
		}
	}
}

fn replace_loose(text: &str, a: &str, b: &str) -> (String, usize) {
	let pat: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
	let t: Vec<char> = text.chars().collect();
	let (mut out, mut i, mut n) = (String::new(), 0, 0);
	while i < t.len() {
		let (mut j, mut k) = (i, 0);
		while k < pat.len() && j < t.len() {
			if t[j] == pat[k] {
				j += 1;
				k += 1;
			} else if k > 0 && t[j].is_whitespace() {
				j += 1;
			} else {
				break;
			}
		}
		if k == pat.len() && k > 0 {
			out.push_str(b);
			i = j;
			n += 1;
		} else {
			out.push(t[i]);
			i += 1;
		}
	}
	(out, n)
}
fn quoted(s: &str) -> Option<String> {
	let a = s.find('"')?;
	let b = s.rfind('"')?;
	if b > a {
		Some(s[a + 1..b].to_string())
	} else {
		None
	}
}

struct Ctx {
	repo: String,
	cache: HashMap<String, (String, syn::File)>,
	vacuity: bool,
	items: Vec<J>,
	errors: Vec<String>,
	vac: Vec<(String, String)>,
}

impl Ctx {
	fn file(&mut self, f: &str) -> Result<&(String, syn::File), String> {
		if !self.cache.contains_key(f) {
			let p = format!("{}/{}", self.repo, f);
			let t = std::fs::read_to_string(&p).map_err(|e| format!("cannot read {p}: {e}"))?;
			let s = syn::parse_file(&t).map_err(|e| format!("cannot parse {p}: {e}"))?;
			self.cache.insert(f.to_string(), (t, s));
		}
		Ok(&self.cache[f])
	}

	fn extract(&mut self, head: &str, sections: &[Section], gen_line: usize) -> Result<String, String> {
		// head: `fn impl X > y from path`
		let (what, file) = head.rsplit_once(" from ").ok_or(format!("bad directive: {head}"))?;
		let file = file.trim().to_string();
		let (kind, path_s) = what.trim().split_once(' ').ok_or(format!("bad directive: {head}"))?;
		let path: Vec<String> = path_s.split(" > ").map(|s| s.trim().to_string()).collect();
		let vacuity = self.vacuity;
		let idx = self.items.len();
		let (text, found) = {
			let (t, f) = self.file(&file)?;
			let t = t.clone();
			let found = find_in_items(&f.items, &path, kind);
			(t, found)
		};
		let found = found.ok_or(format!("LOST-ANCHOR {kind} {path_s} in {file}"))?;
		let mut dels: Vec<Range<usize>> = Vec::new();
		let mut ins: Vec<(usize, i32, String)> = Vec::new();
		let mut substs: Vec<(String, String)> = Vec::new();
		let mut notes: Vec<String> = Vec::new();
		let (start, end, line);
		match found {
			Found::Other { range, line: l } => {
				line = l;
				start = range.start;
				end = range.end;
				let mut c = Collect { text: text.clone(), ..Default::default() };
				let (_, f) = self.file(&file)?;
				c.visit_file(f);
				for a in c.attrs {
					if a.start >= start && a.end <= end {
						dels.push(a);
					}
				}
				if kind == "struct" || kind == "enum" || kind == "const" || kind == "type" {
					ins.push((start, 0, "pub ".into()));
				}
				for p in c.fields {
					if p >= start && p < end {
						ins.push((p, 0, "pub ".into()));
					}
				}
				for s in sections {
					if let Some(r) = s.head.strip_prefix("subst ") {
						let (a, b) = r.split_once(" %> ").or_else(|| r.split_once(" => ")).ok_or("bad subst")?;
						substs.push((a.trim().to_string(), b.trim().to_string()));
					}
				}
			}
			Found::Fn { attrs, sig, block } => {
				for a in &attrs {
					let t = a.to_token_stream().to_string();
					if !t.starts_with("# [doc") {
						notes.push(format!("attribute dropped: {}", squash(&t)));
					}
				}
				line = sig.fn_token.span().start().line;
				start = br(sig.span()).start;
				end = br(block.brace_token.span.close()).end;
				let mut c = Collect { text: text.clone(), ..Default::default() };
				c.visit_block(&block);
				{
					let mut c2 = Collect::default();
					c2.visit_signature(&sig);
					dels.extend(c2.attrs);
				}
				dels.extend(c.attrs.iter().cloned());
				let bopen = br(block.brace_token.span.open());
				for (n, a) in sig.inputs.iter().enumerate() {
					if let syn::FnArg::Typed(t) = a {
						if !matches!(&*t.pat, syn::Pat::Ident(_)) {
							let r = br(t.pat.span());
							dels.push(r.clone());
							ins.push((r.start, 0, format!("vx_p{n}")));
							ins.push((bopen.end, -2, format!(" let {} = vx_p{n}; ", &text[r])));
							notes.push(format!("parameter pattern {n} moved into a let"));
						}
					}
				}
				let mut spec = String::new();
				let mut ret: Option<String> = None;
				for s in sections {
					let h = s.head.trim();
					if h == "spec" {
						spec = s.body.clone();
					} else if let Some(r) = h.strip_prefix("ret ") {
						ret = Some(r.trim().to_string());
					} else if let Some(r) = h.strip_prefix("rename ") {
						let id = br(sig.ident.span());
						dels.push(id.clone());
						ins.push((id.start, 0, r.trim().to_string()));
						notes.push(format!("renamed to {}", r.trim()));
					} else if let Some(r) = h.strip_prefix("subst ") {
						let (a, b) = r.split_once(" %> ").or_else(|| r.split_once(" => ")).ok_or("bad subst")?;
						substs.push((a.trim().to_string(), b.trim().to_string()));
					} else if let Some(r) = h.strip_prefix("call ") {
						// `recv.METHOD(args)` becomes the given text, $0 the receiver, $1.. the arguments
						let (m, t) = r.split_once(" => ").ok_or("bad call")?;
						let mut n = 0;
						for k in c.mcalls.iter().filter(|k| k.0 == m.trim()) {
							// only the text between the pieces is replaced, so that calls may nest
							let mut pieces = vec![k.1.clone()];
							pieces.extend(k.2.iter().cloned());
							let mut rest = t.trim();
							let mut at: Option<usize> = None;
							for (i, p) in pieces.iter().enumerate() {
								let Some((lit, r)) = rest.split_once(&format!("${i}")) else { return Err(format!("call {m}: the text must use all of its arguments in order, in {path_s}")) };
								match at {
									None => ins.push((p.start, 20, lit.to_string())),
									Some(e) => {
										dels.push(e..p.start);
										ins.push((e, 50, lit.to_string()));
									}
								}
								at = Some(p.end);
								rest = r;
							}
							dels.push(at.unwrap()..k.3.end);
							ins.push((at.unwrap(), 50, rest.to_string()));
							n += 1;
						}
						notes.push(format!("{n} calls .{}(..) written as {}", m.trim(), t.trim()));
					} else if h == "desugar-break" {
						// `loop { .. break X .. }` as tail of the function: `break X` is `return X`
						let mut b = Breaks::default();
						match block.stmts.last() {
							Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) => b.visit_block(&l.body),
							_ => {}
						}
						for (k, _) in &b.0 {
							dels.push(k.clone());
							ins.push((k.end, 50, "return".into()));
						}
						notes.push(format!("{} break with a value out of the loop that ends the function written as return", b.0.len()));
					} else if let Some(t) = h.strip_prefix("desugar-break ") {
						// the same, with a variable of type T that receives the value
						let mut b = Breaks::default();
						if let Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) = block.stmts.last() {
							b.visit_block(&l.body);
							let r = l.span().byte_range();
							ins.push((r.start, 5, format!("let vx_r: {};\n", t.trim())));
							ins.push((r.end, 90, "\nvx_r".into()));
						}
						for (k, x) in &b.0 {
							dels.push(k.clone());
							ins.push((k.end, 50, "{ vx_r = ".into()));
							ins.push((x.end, 60, "; break }".into()));
						}
						notes.push(format!("{} break with a value out of the loop that ends the function written as an assignment and a break", b.0.len()));
					} else if let Some(t) = h.strip_prefix("desugar-try ") {
						// `e?` written out, for results: the error goes through `From`
						let mut b = Tries::default();
						b.visit_block(&block);
						for (e, q) in &b.0 {
							ins.push((e.start, 15, "(match ".into()));
							dels.push(q.clone());
							ins.push((q.end, 50, format!(" {{ Ok(vx_t) => vx_t, Err(vx_t) => return Err({}::from(vx_t)) }})", t.trim())));
						}
						notes.push(format!("{} uses of ? written as the match they stand for", b.0.len()));
					} else if h == "desugar-format" {
						for (r, t) in &c.fmts {
							let t = t.clone().ok_or(format!("LOST-ANCHOR format! of an unknown form in {path_s} ({file})"))?;
							dels.push(r.clone());
							ins.push((r.end, 50, t));
						}
						notes.push(format!("{} uses of format! written as concatenation of their pieces", c.fmts.len()));
					} else if let Some(r) = h.strip_prefix("desugar ") {
						// replaces calls of a std combinator by the body std gives it
						for w in r.split_whitespace() {
							let (kind, m) = w.split_once('.').ok_or("desugar needs kind.method")?;
							let mut n = 0;
							for k in c.calls.iter().filter(|k| k.method == m) {
								if k.jumps {
									return Err(format!("LOST-ANCHOR closure with ?/return given to {m} in {path_s} ({file})"));
								}
								let p = if k.pat.is_empty() { "_".to_string() } else { k.pat.clone() };
								let (pre, post) = match (kind, m) {
									("option", "map") => (format!("Some({p}) => Some("), "), None => None".to_string()),
									("option", "and_then") => (format!("Some({p}) => ("), "), None => None".to_string()),
									("option", "or_else") => ("Some(vx_s) => Some(vx_s), None => (".to_string(), ")".to_string()),
									("option", "unwrap_or_else") => ("Some(vx_s) => vx_s, None => (".to_string(), ")".to_string()),
									("option", "ok_or_else") => ("Some(vx_s) => Ok(vx_s), None => Err(".to_string(), ")".to_string()),
									("option", "is_some_and") => (format!("Some({p}) => ("), "), None => false".to_string()),
									("option", "is_none_or") => (format!("Some({p}) => ("), "), None => true".to_string()),
									("entry", "or_insert_with") => ("Entry::Occupied(vx_s) => vx_s.into_mut(), Entry::Vacant(vx_s) => vx_s.insert(".to_string(), ")".to_string()),
									("result", "map") => (format!("Ok({p}) => Ok("), "), Err(vx_e) => Err(vx_e)".to_string()),
									("result", "map_err") => (format!("Err({p}) => Err("), "), Ok(vx_s) => Ok(vx_s)".to_string()),
									_ => return Err(format!("unknown desugar {w}")),
								};
								ins.push((k.recv.start, 20, "(match ".into()));
								match &k.body {
									Ok(b) => {
										dels.push(k.recv.end..b.start);
										ins.push((k.recv.end, 50, format!(" {{ {pre}")));
										dels.push(b.end..k.whole.end);
										ins.push((b.end, 50, format!("{post} }})")));
									}
									Err(f) => {
										let call = if f == "Into::into" { "vx_v.into()".to_string() } else if m == "or_else" { format!("{f}()") } else { format!("{f}(vx_v)") };
										dels.push(k.recv.end..k.whole.end);
										ins.push((k.recv.end, 50, format!(" {{ {pre}{call}{post} }})")));
									}
								}
								n += 1;
							}
							notes.push(format!("{n} calls of {kind}.{m} replaced by the body std gives it"));
						}
					} else if let Some(r) = h.strip_prefix("desugar-for ") {
						// `for P in E B` becomes `{ let mut it = (E).into_iter(); loop { match it.next() { Some(P) => B, None => break } } }`
						let mut w = r.split_whitespace();
						let n: usize = w.next().ok_or("loop index")?.parse().map_err(|_| "loop index")?;
						let nm = w.next().ok_or("iter name")?.to_string();
						let l = c.fors.get(n).ok_or(format!("LOST-ANCHOR for loop {n} in {path_s} ({file})"))?;
						let label = l.label.as_ref().map(|l| format!("{l}: ")).unwrap_or_default();
						let pat = text[l.pat.clone()].to_string();
						dels.push(l.whole.start..l.expr.start);
						ins.push((l.whole.start, -20, format!("{{ let mut {nm} = (")));
						dels.push(l.expr.end..l.open);
						ins.push((l.expr.end, 60, format!(").into_iter(); {label}loop\n{}\n", s.body)));
						ins.push((l.body_start, -10, format!(" match {nm}.next() {{ Some({pat}) => {{ ")));
						ins.push((l.body_end, 10, " }, None => break } ".to_string()));
						ins.push((l.whole.end, -10, " }".into()));
						if vacuity {
							let v = format!("vx_vacf_{}_{}", idx, n);
							ins.push((l.body_start, -11, format!(" assert({v}()); ")));
							self.vac.push((v, format!("{path_s} for {n}")));
						}
						notes.push(format!("for loop {n} written out as loop + match on next(), as the language defines it"));
					} else if let Some(r) = h.strip_prefix("desugar-find ") {
						// `V.iter_mut().enumerate().find(|(I, F)| C)` becomes a loop over the indices of V
						let n: usize = r.trim().parse().map_err(|_| "find index")?;
						let k = c.calls.iter().filter(|k| k.method == "find" && squash(&text[k.recv.clone()]).replace(' ', "").ends_with(".iter_mut().enumerate()")).nth(n)
							.ok_or(format!("LOST-ANCHOR find {n} in {path_s} ({file})"))?;
						let recv = squash(&text[k.recv.clone()]).replace(' ', "");
						let v = recv.strip_suffix(".iter_mut().enumerate()").unwrap().to_string();
						let Some((i, f)) = k.pat.strip_prefix('(').and_then(|p| p.strip_suffix(')')).and_then(|p| p.split_once(',')) else {
							return Err(format!("LOST-ANCHOR find {n} has another pattern in {path_s}"));
						};
						let Ok(b) = &k.body else { return Err(format!("LOST-ANCHOR find {n} without closure in {path_s}")) };
						if k.jumps {
							return Err(format!("LOST-ANCHOR closure with ?/return given to find in {path_s} ({file})"));
						}
						// the part of the section behind a line `after:` is proof text for the end of the search
						let (inv, after) = s.body.split_once("\nafter:\n").unwrap_or((&s.body, ""));
						dels.push(k.recv.start..b.start);
						let vac = if vacuity { let nm = format!("vx_vacf_{}_{}", idx, n); self.vac.push((nm.clone(), format!("{path_s} find {n}"))); format!(" assert({nm}()); ") } else { String::new() };
						ins.push((b.start, 20, format!("({{ let mut vx_i: usize = 0; let mut vx_found = false; while vx_i < {v}.len()\n{}\n {{ {vac} let {} = &vx_i; let {} = &&{v}[vx_i]; if ", inv, i.trim(), f.trim())));
						dels.push(b.end..k.whole.end);
						ins.push((b.end, -40, format!(" {{ vx_found = true; break; }} vx_i += 1; }} {after} if vx_found {{ Some((vx_i, &mut {v}[vx_i])) }} else {{ None }} }})")));
						notes.push(format!("{v}.iter_mut().enumerate().find(..) written out as a loop over the indices of {v}"));
					} else if let Some(r) = h.strip_prefix("desugar-slots ") {
						// `for (I, S) in V.iter_mut().enumerate() B` becomes a loop over the indices of V
						let n: usize = r.trim().parse().map_err(|_| "loop index")?;
						let l = c.fors.get(n).ok_or(format!("LOST-ANCHOR for loop {n} in {path_s} ({file})"))?;
						if l.label.is_some() {
							return Err(format!("LOST-ANCHOR labelled for loop {n} in {path_s}"));
						}
						let recv = squash(&text[l.expr.clone()]).replace(' ', "");
						let Some(v) = recv.strip_suffix(".iter_mut().enumerate()").map(str::to_string) else { return Err(format!("LOST-ANCHOR for loop {n} is over something else in {path_s}")) };
						let pat = text[l.pat.clone()].to_string();
						let Some((i, f)) = pat.strip_prefix('(').and_then(|p| p.strip_suffix(')')).and_then(|p| p.split_once(',')) else {
							return Err(format!("LOST-ANCHOR for loop {n} has another pattern in {path_s}"));
						};
						dels.push(l.whole.start..l.open);
						ins.push((l.whole.start, -20, format!("{{ let mut vx_k: usize = 0; while vx_k < {v}.len()\n{}\n", s.body)));
						let vac = if vacuity { let nm = format!("vx_vacf_{}_{}", idx, n); self.vac.push((nm.clone(), format!("{path_s} for {n}"))); format!(" assert({nm}()); ") } else { String::new() };
						ins.push((l.body_start, -10, format!(" {vac} let {} = vx_k; let {} = &mut {v}[vx_k]; vx_k += 1; ", i.trim(), f.trim())));
						ins.push((l.whole.end, -10, " }".into()));
						notes.push(format!("for loop {n} over {v}.iter_mut().enumerate() written out as a loop over the indices of {v}"));
					} else if let Some(r) = h.strip_prefix("desugar-collect ") {
						// `E.map(|P| B).collect()` becomes `{ let mut c = NEW; loop over E { c.ADD(B) } c }`
						let mut w = r.split_whitespace();
						let n: usize = w.next().ok_or("collect index")?.parse().map_err(|_| "collect index")?;
						let new = w.next().ok_or("new expression")?.to_string();
						let add = w.next().ok_or("add method")?.to_string();
						let maps: Vec<_> = c.calls.iter().filter(|k| k.method == "map" && c.mcalls.iter().any(|m| m.0 == "collect" && m.1 == k.whole)).collect();
						let k = maps.get(n).ok_or(format!("LOST-ANCHOR map and collect {n} in {path_s} ({file})"))?;
						let outer = c.mcalls.iter().find(|m| m.0 == "collect" && m.1 == k.whole).unwrap().3.clone();
						let Ok(b) = &k.body else { return Err(format!("LOST-ANCHOR map {n} without closure in {path_s} ({file})")) };
						if k.jumps {
							return Err(format!("LOST-ANCHOR closure with ?/return given to map in {path_s} ({file})"));
						}
						let vac = if vacuity { let nm = format!("vx_vacf_{}_c{}", idx, n); self.vac.push((nm.clone(), format!("{path_s} collect {n}"))); format!(" assert({nm}()); ") } else { String::new() };
						let (spec, add_proof) = s.body.split_once("\nafter:\n").unwrap_or((&s.body, ""));
						ins.push((k.recv.start, -20, format!("{{ let mut vx_c = {new}; let mut vx_ci = ")));
						dels.push(k.recv.end..b.start);
						ins.push((k.recv.end, 60, format!("; loop\n{spec}\n {{ {vac} match vx_ci.next() {{ Some({}) => {{ let vx_o = ", k.pat)));
						dels.push(b.end..outer.end);
						ins.push((b.end, 60, format!("; {add_proof}\n vx_c.{add}(vx_o); }}, None => break }} }} vx_c }}")));
						notes.push(format!("map and collect {n} written out as a loop that adds to a new collection"));
					} else if let Some(r) = h.strip_prefix("desugar-for-mut ") {
						// `for X in E B` over mutable references to the members of E becomes a loop over indices
						let mut w = r.split_whitespace();
						let n: usize = w.next().ok_or("loop index")?.parse().map_err(|_| "loop index")?;
						let v = w.next().ok_or("index variable")?.to_string();
						let l = c.fors.get(n).ok_or(format!("LOST-ANCHOR for loop {n} in {path_s} ({file})"))?;
						if l.label.is_some() {
							return Err(format!("LOST-ANCHOR labelled for loop {n} in {path_s}"));
						}
						let e = text[l.expr.clone()].trim().trim_start_matches("&mut ").trim_end_matches(".iter_mut()").to_string();
						let pat = text[l.pat.clone()].to_string();
						dels.push(l.whole.start..l.open);
						let (spec, first) = s.body.split_once("\nbody:\n").unwrap_or((&s.body, ""));
						ins.push((l.whole.start, -20, format!("{{ let mut {v}: usize = 0; while {v} < ({e}).vx_len()\n{spec}\n")));
						let vac = if vacuity { let nm = format!("vx_vacf_{}_{}", idx, n); self.vac.push((nm.clone(), format!("{path_s} for {n}"))); format!(" assert({nm}()); ") } else { String::new() };
						ins.push((l.body_start, -10, format!(" {vac}\n{first}\n let {pat} = ({e}).vx_at({v}); ")));
						ins.push((l.body_end, 20, format!("; {v} += 1; ")));
						ins.push((l.whole.end, -10, " }".into()));
						notes.push(format!("for loop {n} over the members of {e} written out as a loop over their indices"));
					} else if h == "start" {
						ins.push((bopen.end, 5, format!("\n{}\n", s.body)));
					} else if h == "tail" || h.starts_with("tail ") {
						// bind the tail expression
						match block.stmts.last() {
							Some(syn::Stmt::Expr(e, None)) => {
								let r = br(e.span());
								let ty = h.strip_prefix("tail").unwrap().trim(); ins.push((r.start, 9, if ty.is_empty() { "let vx_r = ".into() } else { format!("let vx_r: {ty} = ") }));
								ins.push((r.end, -9, format!(";\n{}\nvx_r", s.body)));
							}
							_ => return Err(format!("LOST-ANCHOR tail expression in {path_s} ({file})")),
						}
					} else if let Some(r) = h.strip_prefix("loop ") {
						let mut w = r.split_whitespace();
						let n: usize = w.next().ok_or("loop index")?.parse().map_err(|_| "loop index")?;
						let l = c
							.loops
							.get(n)
							.ok_or(format!("LOST-ANCHOR loop {n} in {path_s} ({file})"))?;
						match w.next() {
							None => {
								ins.push((l.open, 0, format!("\n{}\n", s.body)));
								if vacuity {
									let nm = format!("vx_vacl_{}_{}", idx, n);
									ins.push((l.body_start, -1, format!(" assert({nm}()); ")));
									self.vac.push((nm, format!("{path_s} loop {n}")));
								}
							}
							Some("iter") => {
								let nm = w.next().ok_or("iter name")?;
								let at = l.iter.ok_or(format!("LOST-ANCHOR loop {n} is not a for loop in {path_s}"))?;
								ins.push((at, 0, format!("{nm}: ")));
							}
							Some("body-start") => ins.push((l.body_start, 1, format!("\n{}\n", s.body))),
							Some("body-end") => ins.push((l.body_end, 0, format!(";\n{}\n", s.body))),
							Some("attr") => {
								return Err("loop attr unsupported".into());
							}
							Some(x) => return Err(format!("unknown loop section {x}")),
						}
					} else if let Some(r) = h.strip_prefix("closure ") {
						let (n, rest) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
						let n: usize = n.parse().map_err(|_| "closure index")?;
						let cl = c
							.closures
							.get(n)
							.ok_or(format!("LOST-ANCHOR closure {n} in {path_s} ({file})"))?;
						let out = if cl.has_output || rest.trim().is_empty() {
							String::new()
						} else {
							format!(" -> {}", rest.trim())
						};
						let (o, e) = if cl.is_block { ("", "") } else { ("{ ", " }") };
						ins.push((cl.after_inputs, 0, format!("{out}\n{}\n{o}", s.body)));
						if !cl.is_block {
							ins.push((cl.body.end, -5, e.to_string()));
						}
					} else if let Some(r) = h.strip_prefix("closure-params ") {
						// give explicit types to closure parameters (type ascription only)
						let (n, rest) = r.trim().split_once(' ').ok_or("closure-params")?;
						let n: usize = n.parse().map_err(|_| "closure index")?;
						let cl = c
							.closures
							.get(n)
							.ok_or(format!("LOST-ANCHOR closure {n} in {path_s} ({file})"))?;
						dels.push(cl.head..cl.after_inputs);
						ins.push((cl.head, 0, format!("|{}|", rest.trim())));
						notes.push(format!("closure {n}: parameter types written out: |{}|", rest.trim()));
					} else if h.starts_with("before ") || h.starts_with("after ") {
						let q = quoted(h).ok_or("before/after needs a quoted prefix")?;
						let nth: usize = h
							.rsplit_once('#')
							.and_then(|(_, k)| k.trim().parse().ok())
							.unwrap_or(0);
						let qs = squash(&q);
						let m: Vec<_> = c
							.stmts
							.iter()
							.filter(|r| squash(&text[(*r).clone()]).starts_with(&qs))
							.collect();
						let r = m
							.get(nth)
							.ok_or(format!("LOST-ANCHOR statement `{q}` in {path_s} ({file})"))?;
						if h.starts_with("before ") {
							ins.push((r.start, 0, format!("\n{}\n", s.body)));
						} else {
							ins.push((r.end, 1, format!("\n{}\n", s.body)));
						}
					} else {
						return Err(format!("unknown section `{h}`"));
					}
				}
				if let Some(r) = &ret {
					match &sig.output {
						syn::ReturnType::Type(_, t) => {
							let tr = br(t.span());
							ins.push((tr.start, 0, format!("({r}: ")));
							ins.push((tr.end, -3, ")".into()));
						}
						syn::ReturnType::Default => {
							ins.push((br(sig.paren_token.span.close()).end, 0, format!(" -> ({r}: ())")));
						}
					}
				}
				if vacuity {
					let nm = format!("vx_vac_{idx}");
					let has = spec.lines().any(|l| l.trim_start().starts_with("ensures"));
					if has {
						let p = spec.find("ensures").unwrap() + "ensures".len();
						spec.insert_str(p, &format!(" {nm}(), "));
					} else {
						let p = spec
							.find("\n    decreases")
							.or_else(|| if spec.trim_start().starts_with("decreases") { Some(0) } else { None })
							.unwrap_or(spec.len());
						spec.insert_str(p, &format!("\n    ensures {nm}(),\n"));
					}
					self.vac.push((nm, path_s.to_string()));
				}
				if !spec.is_empty() {
					ins.push((bopen.start, 3, format!("\n{}\n", spec)));
				}
			}
		}
		// assemble
		ins.sort_by_key(|(p, o, _)| (*p, *o));
		let mut out = String::new();
		let mut pos = start;
		let mut ii = 0;
		let bytes_in = |a: usize, b: usize| -> String {
			let mut s = String::new();
			let mut p = a;
			let mut ds: Vec<_> = dels.iter().filter(|d| d.start >= a && d.start < b).cloned().collect();
			ds.sort_by_key(|d| d.start);
			for d in ds {
				if d.start >= p {
					s.push_str(&text[p..d.start]);
				}
				p = p.max(d.end);
			}
			if p < b {
				s.push_str(&text[p..b]);
			}
			s
		};
		while ii < ins.len() {
			let (p, _, t) = &ins[ii];
			if *p > pos {
				out.push_str(&bytes_in(pos, *p));
				pos = *p;
			}
			out.push_str(t);
			ii += 1;
		}
		if end > pos {
			out.push_str(&bytes_in(pos, end));
		}
		let mut applied = Vec::new();
		for (a, b) in &substs {
			let n;
			if let Some(a) = a.strip_prefix("~ ") {
				// white space does not matter
				(out, n) = replace_loose(&out, a, b);
			} else {
				n = out.matches(a.as_str()).count();
				if n > 0 {
					out = out.replace(a.as_str(), b);
				}
			}
			applied.push(json!({"from": a, "to": b, "occurrences": n}));
		}
		let glen = out.lines().count();
		self.items.push(json!({
			"kind": kind, "path": path_s, "file": file, "line": line,
			"gen_start": gen_line, "gen_end": gen_line + glen,
			"substitutions": applied, "notes": notes,
		}));
		Ok(out)
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let (tpl, repo, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
	let vacuity = args.get(5).map(|s| s == "--vacuity").unwrap_or(false);
	let src = match std::fs::read_to_string(tpl) {
		Ok(s) => s,
		Err(e) => {
			eprintln!("{tpl}: {e}");
			std::process::exit(2)
		}
	};
	// includes
	let dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
	let mut full = String::new();
	for l in src.lines() {
		if let Some(f) = l.trim_start().strip_prefix("//@ include ") {
			full.push_str(&std::fs::read_to_string(dir.join(f.trim())).expect("include"));
			full.push('\n');
		} else {
			full.push_str(l);
			full.push('\n');
		}
	}
	let mut ctx = Ctx { repo: repo.clone(), cache: HashMap::new(), vacuity, items: vec![], errors: vec![], vac: vec![] };
	let mut out = String::new();
	let lines: Vec<&str> = full.lines().collect();
	let mut i = 0;
	while i < lines.len() {
		let l = lines[i];
		if let Some(h) = l.trim_start().strip_prefix("//@ extract ") {
			let mut sections: Vec<Section> = vec![];
			i += 1;
			while i < lines.len() && lines[i].trim() != "//@ end" {
				if let Some(s) = lines[i].trim_start().strip_prefix("//@ ") {
					sections.push(Section { head: s.trim().to_string(), body: String::new() });
				} else if let Some(s) = sections.last_mut() {
					s.body.push_str(lines[i]);
					s.body.push('\n');
				}
				i += 1;
			}
			let gl = out.lines().count() + 1;
			match ctx.extract(h, &sections, gl) {
				Ok(t) => {
					out.push_str(&t);
					out.push('\n');
				}
				Err(e) => ctx.errors.push(e),
			}
		} else if l.trim() == "//@ vacuity-decls" {
			out.push_str("//VXVAC\n");
		} else {
			out.push_str(l);
			out.push('\n');
		}
		i += 1;
	}
	let decls: String = ctx
		.vac
		.iter()
		.map(|(n, _)| format!("pub uninterp spec fn {n}() -> bool; "))
		.collect();
	out = out.replace("//VXVAC", &decls);
	let trust: Vec<J> = out
		.lines()
		.enumerate()
		.filter(|(_, l)| {
			let t = l.trim_start();
			!t.starts_with("//")
				&& (l.contains("assume_specification")
					|| l.contains("external_body")
					|| l.contains("external_type_specification")
					|| l.contains("external_trait_specification")
					|| l.contains("assume(")
					|| l.contains("admit(")
					|| l.contains("axiom fn"))
		})
		.map(|(n, l)| json!({"line": n + 1, "text": l.trim()}))
		.collect();
	let vac: Vec<J> = ctx.vac.iter().map(|(n, p)| json!({"name": n, "of": p})).collect();
	std::fs::write(out_rs, &out).unwrap();
	std::fs::write(
		out_json,
		serde_json::to_string_pretty(&json!({"items": ctx.items, "errors": ctx.errors, "trust": trust, "vacuity": vac})).unwrap(),
	)
	.unwrap();
	if !ctx.errors.is_empty() {
		for e in &ctx.errors {
			eprintln!("vx: {e}");
		}
		std::process::exit(3);
	}
}
