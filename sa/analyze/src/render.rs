//! The renderer on symbolic trees: what every path writes is compared with the expected text.
use crate::canon::*;
use crate::check::*;
use crate::cs::CS;
use crate::exec::*;
use crate::ir::*;
use crate::models::decoded;
use crate::simple::*;
use crate::val::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

pub const OPTS: [&str; 9] = ["minify_spaces", "lowercase_tagname", "remove_endtag_space", "remove_attr_quote", "remove_comment", "always_close_void", "inner_html", "decode_entity", "encode_content"];
const MIN: u32 = 0;
const LOW: u32 = 1;
const ENDSP: u32 = 2;
const UNQ: u32 = 3;
const NOCOM: u32 = 4;
const CLOSEV: u32 = 5;
const INNER: u32 = 6;
const DEC: u32 = 7;
const ENC: u32 = 8;
const TEXT: u32 = 9;
/// flags of nodes follow
const FLAGS: u32 = 10;

/// a text of the tree: its place among the kept values
pub type Tx = usize;
#[derive(Clone)]
pub struct A {
	pub key: Option<Tx>,
	pub value: Option<Tx>,
	/// place of the quote among the kept values
	pub quote: Option<Tx>,
	pub need: u32,
}
#[derive(Clone)]
pub struct T {
	pub kind: &'static str,
	pub name: Option<Tx>,
	pub attrs: Vec<A>,
	pub void: Option<u32>,
	pub closed: Option<u32>,
	pub fix: Option<u32>,
	pub content: Option<Tx>,
	pub kids: Option<Vec<T>>,
	pub end: Option<Tx>,
	pub oid: Oid,
	pub end_oid: Oid,
}
#[derive(Clone)]
pub enum Name {
	/// any name of some length
	Any(u32),
	/// this word in any case
	Is(&'static str),
	/// a name of two letters
	Other,
}
#[derive(Clone)]
pub enum Text {
	/// this many characters
	Len(u32),
	/// any number of characters
	Free,
	/// blanks
	Blank(u32),
	/// characters around an entity
	Entity,
	/// a word, blanks, a word
	Words,
	Lit(&'static str),
	/// this many letters, then this
	Long(u32, &'static str),
}

/// builds trees in a state
pub struct Mk<'a> {
	pub pg: &'a Prog,
	pub st: State,
	pub texts: Vec<V>,
	pub flags: u32,
	/// where the next node begins, after an unknown start
	pub pos: i64,
	pub base: Sid,
}
pub fn ws() -> CS {
	CS::ascii(|c| c.is_ascii_whitespace())
}
impl<'a> Mk<'a> {
	pub fn new(pg: &'a Prog) -> Mk<'a> {
		let mut st = State::new((FLAGS + 24) as usize);
		st.heap.push(None);
		let base = st.new_seg(Seg { set: CS::all(), min: 0, max: INF, origin: u32::MAX, chars: false });
		Mk { pg, st, texts: vec![], flags: FLAGS, pos: 0, base }
	}
	pub fn next_pos(&mut self) -> V {
		self.pos += 3;
		V::Int(Lin::len(self.base).plus(self.pos))
	}
	pub fn put(&mut self, v: Vec<It>) -> Tx {
		self.texts.push(seq(v));
		self.texts.len() - 1
	}
	pub fn chars(&mut self, set: CS, n: u32) -> Vec<It> {
		(0..n).map(|_| It::S(self.st.new_chars(set.clone(), 1, 1), Map::Id)).collect()
	}
	pub fn name(&mut self, n: &Name) -> Vec<It> {
		let letters = CS::of("<>/=\"'").or(&ws()).not();
		match n {
			Name::Any(0) => vec![It::S(self.st.new_chars(letters, 1, INF), Map::Id)],
			Name::Any(k) => self.chars(letters, *k),
			Name::Other => self.chars(letters, 2),
			Name::Is(w) => w.chars().map(|c| It::S(self.st.new_chars(CS::of(&format!("{}{}", c, c.to_ascii_uppercase())), 1, 1), Map::Id)).collect(),
		}
	}
	pub fn text(&mut self, t: &Text) -> Vec<It> {
		match t {
			Text::Len(n) => self.chars(CS::all(), *n),
			Text::Free => vec![It::S(self.st.new_chars(CS::all(), 0, INF), Map::Id)],
			Text::Blank(n) => self.chars(ws(), *n),
			Text::Entity => {
				let plain = CS::of("&;").not();
				let mut v = self.chars(plain.clone(), 1);
				v.extend(lits("&lt;"));
				v.extend(self.chars(plain, 1));
				v
			}
			Text::Words => {
				let w = ws().or(&CS::of("&")).not();
				let mut v = vec![It::S(self.st.new_chars(w.clone(), 1, 1), Map::Id)];
				v.extend(self.chars(ws(), 2));
				v.push(It::S(self.st.new_chars(w, 1, 1), Map::Id));
				v
			}
			Text::Lit(s) => lits(s),
			Text::Long(n, s) => {
				let mut v = lits(&"a".repeat(*n as usize));
				v.extend(lits(s));
				v
			}
		}
	}
	pub fn flag(&mut self) -> u32 {
		self.flags += 1;
		self.flags - 1
	}
	pub fn leaf(&mut self, kind: &'static str, t: Option<Text>) -> T {
		let content = t.map(|t| {
			let v = self.text(&t);
			self.put(v)
		});
		T { kind, name: None, attrs: vec![], void: None, closed: None, fix: None, content, kids: None, end: None, oid: 0, end_oid: 0 }
	}
	/// an element; `end`: this many blanks in its end tag
	pub fn elem(&mut self, n: Name, end: Option<u32>, kids: Option<Vec<T>>) -> T {
		let v = self.name(&n);
		let end = end.map(|k| {
			// the same letters in some other case
			let mut e: Vec<It> = match &n {
				Name::Is(_) => self.name(&n),
				_ => v.clone(),
			};
			e.extend(self.chars(ws(), k));
			self.put(e)
		});
		let name = self.put(v);
		T { kind: "Tag", name: Some(name), attrs: vec![], void: None, closed: None, fix: end.is_none().then(|| self.flag()), content: None, kids, end, oid: 0, end_oid: 0 }
	}
	pub fn attr(&mut self, key: bool, value: Option<Text>, quote: bool, need: bool) -> A {
		let key = key.then(|| {
			let k = vec![It::S(self.st.new_chars(CS::of("<>/=\"'").or(&ws()).not(), 1, INF), Map::Id)];
			self.put(k)
		});
		let value = value.map(|t| {
			let v = self.text(&t);
			self.put(v)
		});
		let quote = quote.then(|| {
			let q = self.st.new_chars(CS::of("\"'"), 1, 1);
			self.texts.push(V::Char(Ch::Src(q, Map::Id)));
			self.texts.len() - 1
		});
		let need = if need { self.flag() } else { u32::MAX };
		A { key, value, quote, need }
	}
	pub fn record(&self, ty: &str, known: &[(&str, V)]) -> R<V> {
		for t in &self.pg.ir.tys {
			if let TyKind::Adt { path, variants, .. } = &t.kind {
				if path.ends_with(&format!("::{}", ty)) && variants.len() == 1 {
					let mut v = vec![];
					for f in &variants[0].fields {
						v.push(match known.iter().find(|k| k.0 == f.0) {
							Some(k) => k.1.clone(),
							None => self.pg.default_of(f.1).unwrap_or(V::Undef),
						});
					}
					for k in known {
						if !variants[0].fields.iter().any(|f| f.0 == k.0) {
							return stuck(format!("{} has no field {}", ty, k.0));
						}
					}
					return Ok(agg(0, v));
				}
			}
		}
		stuck(format!("no type {}", ty))
	}
	pub fn kind(&self, k: &str) -> R<V> {
		match node_types(self.pg).and_then(|v| v.iter().find(|x| x.1 == k).map(|x| x.0)) {
			Some(i) => Ok(agg(i, vec![])),
			None => stuck(format!("no node type {}", k)),
		}
	}
	fn flag_val(f: Option<u32>) -> V {
		match f {
			Some(f) => V::Opt(f, false),
			None => V::Bool(false),
		}
	}
	pub fn attr_val(&self, a: &A) -> R<V> {
		let data = |t: &Option<Tx>| -> R<V> {
			Ok(match t {
				Some(t) => some(self.record("AttrData", &[("content", self.texts[*t].clone())])?),
				None => none(),
			})
		};
		self.record("Attr", &[("key", data(&a.key)?), ("value", data(&a.value)?), ("quote", opt(a.quote.map(|q| self.texts[q].clone()))), ("need_quote", if a.need == u32::MAX { V::Bool(false) } else { V::Opt(a.need, false) })])
	}
	/// the first place of each attribute name that is known letter by letter
	fn name_map(&self, t: &T) -> V {
		let mut ops: Vec<MapOp> = vec![];
		let mut seen = HashSet::new();
		for (i, a) in t.attrs.iter().enumerate() {
			let Some(k) = a.key else { continue };
			let mut w = String::new();
			for it in self.texts[k].items() {
				match it {
					It::C(c) => w.push(c),
					_ => return V::Map(Arc::new(vec![])),
				}
			}
			if seen.insert(w.clone()) {
				ops.push(MapOp::Insert(seq(lits(&w)), int(i as i64)));
			}
		}
		V::Map(Arc::new(ops))
	}
	pub fn meta_val(&self, t: &T) -> R<V> {
		let attrs = t.attrs.iter().map(|a| Ok(It::V(self.attr_val(a)?))).collect::<R<Vec<It>>>()?;
		self.record("TagMeta", &[("name", self.texts[t.name.unwrap()].clone()), ("attrs", seq(attrs)), ("is_void", Self::flag_val(t.void)), ("self_closed", Self::flag_val(t.closed)), ("auto_fix", Self::flag_val(t.fix)), ("lc_name_map", self.name_map(t)), ("code_in", agg(0, vec![]))])
	}
	/// allocates a tree; every node is linked
	pub fn node(&mut self, t: &mut T, parent: Option<Oid>, root: Oid, index: i64, prev: Option<Oid>) -> R<Oid> {
		let me = self.st.alloc(V::Undef);
		t.oid = me;
		let (begin, ends) = (self.next_pos(), self.next_pos());
		let root = if root == 0 { me } else { root };
		let mut kids = vec![];
		if let Some(ks) = &mut t.kids {
			let mut before = None;
			for (i, k) in ks.iter_mut().enumerate() {
				let o = self.node(k, Some(me), root, i as i64, before)?;
				before = Some(o);
				kids.push(It::V(V::Rc(o)));
			}
		}
		let end = match t.end {
			Some(e) => {
				let (b, f) = (self.next_pos(), self.next_pos());
				let n = self.record("Node", &[("node_type", self.kind("TagEnd")?), ("content", some(self.texts[e].clone())), ("parent", some(V::Weak(me))), ("root", some(V::Weak(root))), ("begin_at", b), ("end_at", f)])?;
				t.end_oid = self.st.alloc(V::Cell(0, Arc::new(n)));
				Some(V::Rc(t.end_oid))
			}
			None => None,
		};
		let meta = match t.name {
			Some(_) => some(V::Cell(0, Arc::new(self.meta_val(t)?))),
			None => none(),
		};
		let n = self.record(
			"Node",
			&[
				("node_type", self.kind(t.kind)?),
				("index", int(index)),
				("begin_at", begin),
				("end_at", ends),
				("content", opt(t.content.map(|c| self.texts[c].clone()))),
				("childs", if t.kids.is_some() { some(seq(kids)) } else { none() }),
				("meta", meta),
				("end_tag", opt(end)),
				("parent", opt(parent.map(V::Weak))),
				("prev", opt(prev.map(V::Weak))),
				("root", some(V::Weak(root))),
				("document", none()),
			],
		)?;
		self.st.heap[me as usize] = Some(Arc::new(V::Cell(0, Arc::new(n))));
		Ok(me)
	}
	pub fn options(&self) -> R<V> {
		let known: Vec<(&str, V)> = OPTS.iter().enumerate().map(|(i, n)| (*n, V::Opt(i as u32, false))).collect();
		self.record("RenderOptions", &known)
	}
}
pub fn node_ref(o: Oid) -> V {
	V::Ref(Arc::new(Ptr { base: Base::H(o), path: vec![Step::Cell] }))
}

/// which part of the expected text an item belongs to
#[derive(Clone, Copy, PartialEq, Debug)]
enum Inner {
	None,
	Html,
	Text,
}
/// the expected text
pub struct Want<'a> {
	pub pg: &'a Prog,
	pub st: &'a State,
}
impl<'a> Want<'a> {
	fn on(&self, o: u32) -> R<bool> {
		self.pg.bool_of(self.st, &V::Opt(o, false))
	}
	pub fn tx(&self, t: Tx) -> Vec<It> {
		kept(self.st)[t].items()
	}
	/// the text is this word in any case
	pub fn is(&self, items: &[It], w: &str) -> R<bool> {
		let w: Vec<char> = w.chars().collect();
		if !could_be(self.st, items, &w, true) {
			return Ok(false);
		}
		let mut rest = items;
		let mut i = 0;
		while let Some((it, r)) = self.st.front(rest)? {
			if i >= w.len() {
				return Ok(false);
			}
			let V::Char(c) = self.st.item_val(&it)? else { return stuck("name") };
			if !self.st.ch_in(&c, &CS::of(&format!("{}{}", w[i], w[i].to_ascii_uppercase())))? {
				return Ok(false);
			}
			i += 1;
			rest = r;
		}
		Ok(i == w.len())
	}
	fn low(&self, v: Vec<It>) -> R<Vec<It>> {
		Ok(if self.on(LOW)? { Prog::map_items(&v, Map::Low)? } else { v })
	}
	pub fn attr(&self, a: &A, unq: bool) -> R<Vec<It>> {
		let mut v = vec![];
		if let Some(k) = a.key {
			v.extend(self.tx(k));
		}
		if let Some(x) = a.value {
			if a.key.is_some() {
				v.push(It::C('='));
			}
			let val = self.tx(x);
			if let Some(q) = a.quote {
				let V::Char(q) = &kept(self.st)[q] else { return stuck("quote") };
				let mut keep = !unq || a.key.is_none() || a.need != u32::MAX && self.on(a.need)? || self.st.is_empty(&val)?;
				if !keep {
					let bad = ws().or(&CS::of("\"'<>=`"));
					for it in &val {
						let V::Char(c) = self.st.item_val(it)? else { return stuck("value") };
						if let It::S(s, _) = it {
							if self.st.seg(*s).exact() != Some(1) {
								return stuck("long value");
							}
						}
						if self.st.ch_in(&c, &bad)? {
							keep = true;
							break;
						}
					}
				}
				if keep {
					v.push(ch_item(q));
					v.extend(val);
					v.push(ch_item(q));
				} else {
					v.extend(val);
				}
			} else {
				v.extend(val);
			}
		}
		Ok(v)
	}
	fn attrs(&self, t: &T) -> R<Vec<It>> {
		let mut v = vec![];
		for a in &t.attrs {
			v.push(It::C(' '));
			v.extend(self.attr(a, self.on(UNQ)?)?);
		}
		Ok(v)
	}
	fn squeeze(&self, items: &[It]) -> R<Vec<It>> {
		let mut v = vec![];
		let mut blank = false;
		for it in items {
			if let It::S(s, _) = it {
				if self.st.seg(*s).exact() != Some(1) {
					return stuck("long text");
				}
			}
			let V::Char(c) = self.st.item_val(it)? else { return stuck("text") };
			let b = self.st.ch_in(&c, &ws())?;
			if !(b && blank) {
				v.push(it.clone());
			}
			blank = b;
		}
		Ok(v)
	}
	/// None: the call is not supported
	pub fn build(&self, t: &T) -> R<Option<Vec<It>>> {
		let (text, html) = (self.on(TEXT)?, self.on(INNER)?);
		if text && html {
			return Ok(None);
		}
		let inner = if text {
			Inner::Text
		} else if html {
			Inner::Html
		} else {
			Inner::None
		};
		let mut out = vec![];
		if inner != Inner::None {
			if t.kind == "AbstractRoot" {
				let Some(kids) = &t.kids else { return Ok(Some(vec![])) };
				let tags: Vec<&T> = kids.iter().filter(|k| k.kind == "Tag").collect();
				if tags.len() != 1 {
					return Ok(None);
				}
				self.tree(tags[0], false, inner, true, &mut out)?;
				return Ok(Some(out));
			}
			let ok = match inner {
				Inner::Html => t.kind == "Tag",
				_ => ["Tag", "Comment", "XMLCDATA"].contains(&t.kind),
			};
			if !ok {
				return Ok(None);
			}
		}
		self.tree(t, false, inner, true, &mut out)?;
		Ok(Some(out))
	}
	fn tree(&self, t: &T, pre: bool, inner: Inner, root: bool, out: &mut Vec<It>) -> R<()> {
		let tags = if root { inner == Inner::None } else { inner != Inner::Text };
		let mut sub = pre;
		let content = t.content.map(|c| self.tx(c));
		match t.kind {
			"Text" => {
				let c = content.unwrap();
				let c = if !pre && self.on(MIN)? { self.squeeze(&c)? } else { c };
				if self.on(DEC)? {
					out.extend(decoded(self.st, &c));
				} else {
					out.extend(c);
				}
			}
			"SpacesBetweenTag" => {
				if pre || !self.on(MIN)? {
					out.extend(content.unwrap());
				}
			}
			"Comment" => {
				if !self.on(NOCOM)? && (root || inner != Inner::Text) {
					let wrap = !(root && inner == Inner::Text);
					if wrap {
						out.extend(lits("<!--"));
					}
					out.extend(content.unwrap_or_default());
					if wrap {
						out.extend(lits("-->"));
					}
				}
			}
			"XMLCDATA" => {
				let wrap = inner != Inner::Text;
				if wrap {
					out.extend(lits("<![CDATA["));
				}
				out.extend(content.unwrap_or_default());
				if wrap {
					out.extend(lits("]]>"));
				}
			}
			"HTMLDOCTYPE" => {
				out.extend(lits("<!"));
				out.extend(self.tx(t.name.unwrap()));
				out.extend(self.attrs(t)?);
				out.push(It::C('>'));
			}
			"Tag" => {
				let name = self.tx(t.name.unwrap());
				sub = pre || self.is(&name, "pre")?;
				if tags {
					out.push(It::C('<'));
					out.extend(self.low(name.clone())?);
					out.extend(self.attrs(t)?);
					let closed = match t.closed {
						Some(f) => self.on(f)?,
						None => false,
					};
					let void = match t.void {
						Some(f) => self.on(f)?,
						None => false,
					};
					if closed || void && self.on(CLOSEV)? {
						out.extend(lits(" /"));
					}
					out.push(It::C('>'));
				}
				if let Some(c) = content {
					if self.on(ENC)? && (self.is(&name, "title")? || self.is(&name, "textarea")?) {
						for it in &c {
							let V::Char(x) = self.st.item_val(it)? else { return stuck("content") };
							let mut done = false;
							for (y, n) in [('<', "&lt;"), ('>', "&gt;"), ('&', "&amp;")] {
								if self.st.ch_in(&x, &CS::one(y))? {
									out.extend(lits(n));
									done = true;
									break;
								}
							}
							if !done {
								out.push(it.clone());
							}
						}
					} else {
						out.extend(c);
					}
				}
			}
			_ => {}
		}
		if let Some(ks) = &t.kids {
			for k in ks {
				self.tree(k, sub, inner, false, out)?;
			}
		}
		if let Some(e) = t.end {
			if tags {
				let mut e = self.tx(e);
				out.extend(lits("</"));
				if self.on(ENDSP)? {
					while let Some((it, rest)) = self.st.back(&e)? {
						let V::Char(c) = self.st.item_val(&it)? else { return stuck("end tag") };
						if !self.st.ch_in(&c, &ws())? {
							break;
						}
						e = rest.to_vec();
					}
				}
				out.extend(self.low(e)?);
				out.push(It::C('>'));
			}
		}
		Ok(())
	}
}
/// opaque texts as far as they are known by now
fn settle(st: &State, v: &[It]) -> Vec<It> {
	let mut out = vec![];
	for it in v {
		match it {
			It::F(f) if f.0 == "decode" => out.extend(decoded(st, &f.1[0].items())),
			It::V(V::RefV(x, _)) => match &**x {
				V::Char(c) => out.push(ch_item(c)),
				_ => out.push(it.clone()),
			},
			It::V(V::Char(c)) => out.push(ch_item(c)),
			It::S(s, _) if st.seg(*s).max == 0 => {}
			_ => out.push(it.clone()),
		}
	}
	out
}
pub enum Same {
	Yes,
	No,
	Unclear(String),
}
pub fn compare(pg: &Prog, st: &State, got: &[It], want: &[It]) -> R<Same> {
	let (g, w) = (settle(st, got), settle(st, want));
	let (mut a, mut b) = (&g[..], &w[..]);
	while let (Some(x), Some(y)) = (a.first(), b.first()) {
		if x != y {
			break;
		}
		a = &a[1..];
		b = &b[1..];
	}
	while let (Some(x), Some(y)) = (a.last(), b.last()) {
		if x != y {
			break;
		}
		a = &a[..a.len() - 1];
		b = &b[..b.len() - 1];
	}
	if a.is_empty() && b.is_empty() {
		return Ok(Same::Yes);
	}
	if a.iter().chain(b).any(|i| matches!(i, It::F(_) | It::Many(_) | It::V(_))) {
		return Ok(Same::Unclear("opaque text".into()));
	}
	Ok(if pg.eq_seq(st, a, b)? { Same::Yes } else { Same::No })
}

/// what a case calls
#[derive(Clone, Copy, PartialEq)]
pub enum Call {
	Build,
	Render,
	RenderText,
}
pub struct Case {
	pub label: String,
	/// options that are tried both ways; the others are off
	pub free: Vec<u32>,
	pub on: Vec<u32>,
	pub call: Call,
	pub props: Vec<&'static str>,
	pub make: Box<dyn Fn(&mut Mk) -> T>,
}
fn opts_text(st: &State) -> String {
	let mut v = vec![];
	for (i, n) in OPTS.iter().chain(["inner_text"].iter()).enumerate() {
		if let Some(b) = st.opts[i] {
			v.push(format!("{}{}", if b { "" } else { "!" }, n));
		}
	}
	v.join(" ")
}
fn t_text(st: &State, t: &T) -> String {
	let tx = |t: &Option<Tx>| t.map_or("".to_string(), |t| show_text(st, &kept(st)[t].items()));
	let mut s = match t.kind {
		"Tag" => format!("<{}", tx(&t.name)),
		k => format!("{}({}", k, tx(&t.name)),
	};
	for a in &t.attrs {
		s += &format!(" [{}]={}[{}]", tx(&a.key), if a.quote.is_some() { "quote" } else { "" }, tx(&a.value));
	}
	for (n, f) in [("void", t.void), ("self_closed", t.closed)] {
		if let Some(f) = f {
			if st.opts[f as usize] == Some(true) {
				s += &format!(" {}", n);
			}
		}
	}
	if let Some(c) = &t.content {
		s += &format!(" content:{}", show_text(st, &kept(st)[*c].items()));
	}
	s += if t.kind == "Tag" { ">" } else { ")" };
	if let Some(k) = &t.kids {
		s += &k.iter().map(|k| t_text(st, k)).collect::<String>();
	}
	if t.end.is_some() {
		s += &format!("</{}>", tx(&t.end));
	}
	s
}
/// the texts and what the heap holds, to be kept
pub fn with_heap(texts: &[V], st: &State) -> Vec<V> {
	let mut v = texts.to_vec();
	for h in &st.heap {
		v.push(match h {
			Some(h) => (**h).clone(),
			None => V::Undef,
		});
	}
	v
}
/// a node that is not as it was; None: all are, as far as is known
pub fn changed(pg: &Prog, st: &State, texts: usize, nodes: usize) -> Option<String> {
	for i in 1..nodes {
		let was = &kept(st)[texts + i];
		let Some(is) = &st.heap[i] else { return Some("a node is gone".into()) };
		if let V::Cell(k, _) = &**is {
			if *k != 0 {
				return Some("a node stays borrowed".into());
			}
		}
		if let Ok(Same::No) = same(pg, st, is, was) {
			return Some("a node is changed".into());
		}
	}
	None
}
/// whether two values are the same, links included
pub fn same(pg: &Prog, st: &State, a: &V, b: &V) -> R<Same> {
	if a == b {
		return Ok(Same::Yes);
	}
	match (a, b) {
		(V::Seq(x), V::Seq(y)) => {
			if x.iter().chain(y.iter()).any(|i| matches!(i, It::V(_))) {
				if x.len() != y.len() {
					return Ok(if x.iter().chain(y.iter()).all(|i| matches!(i, It::V(_))) { Same::No } else { Same::Unclear("lists".into()) });
				}
				let mut all = Same::Yes;
				for (p, q) in x.iter().zip(y.iter()) {
					match (p, q) {
						(It::V(p), It::V(q)) => match same(pg, st, p, q)? {
							Same::Yes => {}
							o => all = o,
						},
						_ => return Ok(Same::Unclear("lists".into())),
					}
					if let Same::No = all {
						break;
					}
				}
				return Ok(all);
			}
			compare(pg, st, x, y)
		}
		(V::Agg(k, x), V::Agg(l, y)) => {
			if k != l || x.len() != y.len() {
				return Ok(Same::No);
			}
			let mut all = Same::Yes;
			for (p, q) in x.iter().zip(y.iter()) {
				match same(pg, st, p, q)? {
					Same::Yes => {}
					Same::No => return Ok(Same::No),
					o => all = o,
				}
			}
			Ok(all)
		}
		(V::Cell(_, x), V::Cell(_, y)) => same(pg, st, x, y),
		(V::Rc(_), V::Rc(_)) | (V::Weak(_), V::Weak(_)) => Ok(Same::No),
		(V::Int(_), V::Int(_)) | (V::Char(_), V::Char(_)) | (V::Bool(_) | V::Opt(..), V::Bool(_) | V::Opt(..)) => Ok(if pg.eq_val(st, a, b)? { Same::Yes } else { Same::No }),
		_ => Ok(Same::Unclear(format!("{} and {}", short(a), short(b)))),
	}
}
/// the properties a wrong text belongs to: by the options in force (those nobody asked for count both ways)
fn blame(c: &Case, st: &State) -> Vec<&'static str> {
	let may = |o: u32| st.opts[o as usize] != Some(false);
	let must = |o: u32| st.opts[o as usize] == Some(true);
	c.props
		.iter()
		.copied()
		.filter(|p| match *p {
			"C10" => (0..FLAGS).all(|o| !must(o)),
			"C11" => (0..INNER).chain([DEC, ENC]).any(must),
			"C12" => may(MIN),
			"C13" => may(UNQ),
			"C14" => may(INNER) || may(TEXT),
			_ => true,
		})
		.collect()
}
fn run_case(pg: &Prog, c: &Case, r: &mut Report, budget: u64) -> (u64, u64) {
	let (mut paths, mut decided) = (0, 0);
	let mut mk = Mk::new(pg);
	let mut t = (c.make)(&mut mk);
	let r0: R<(usize, Vec<V>)> = (|| {
		let o = mk.node(&mut t, None, 0, 0, None)?;
		let options = by_ref(mk.options()?);
		Ok(match c.call {
			Call::Build => {
				let Some(f) = pg.find("rphtml::parser::Node::build") else { return stuck("no Node::build") };
				(f, vec![node_ref(o), options, V::Opt(TEXT, false)])
			}
			_ => {
				let n = if c.call == Call::Render { "render" } else { "render_text" };
				let Some(f) = pg.find(&format!("rphtml::parser::DocHolder::{}", n)) else { return stuck("no DocHolder::render") };
				let doc = mk.record("Doc", &[("root", V::Rc(o))])?;
				let d = mk.st.alloc(V::Cell(0, Arc::new(doc)));
				let h = mk.record("DocHolder", &[("doc", V::Rc(d))])?;
				(f, vec![by_ref(h), options])
			}
		})
	})();
	let (f, args) = match r0 {
		Ok(x) => x,
		Err(Stop::Stuck(m)) => {
			r.note_open(format!("{}: {}", c.label, m));
			return (0, 0);
		}
		Err(_) => return (0, 0),
	};
	let mut st = mk.st;
	{
		let o = Arc::make_mut(&mut st.opts);
		for i in 0..FLAGS {
			if !c.free.contains(&i) {
				o[i as usize] = Some(c.on.contains(&i));
			}
		}
		match c.call {
			Call::Render => o[TEXT as usize] = Some(false),
			Call::RenderText => o[TEXT as usize] = Some(true),
			_ => {}
		}
	}
	let nodes = st.heap.len();
	st.ghost = Box::new(Keep { v: with_heap(&mk.texts, &st), tag: vec![] });
	if start(pg, &mut st, f, args).is_err() {
		r.note_open(format!("{}: other arguments", c.label));
		return (0, 0);
	}
	let mut out = vec![];
	let mut b = budget;
	run_(pg, st, &mut out, &mut b, Way::Paths);
	let mut seen: HashSet<String> = HashSet::new();
	for (e, st) in out {
		paths += 1;
		r.obligations += 1;
		// every refinement the expectation asks for
		let mut work = vec![st];
		let mut n = 0;
		while let Some(st) = work.pop() {
			n += 1;
			if n > 400 {
				r.note_open(format!("{}: too many cases", c.label));
				break;
			}
			let w = Want { pg, st: &st };
			let res: R<Option<(Vec<&'static str>, String, String)>> = (|| {
				let want = w.build(&t)?;
				let Some(want) = want else { return Ok(None) };
				match &e {
					End::Done(v) => {
						let got = v.items();
						match compare(pg, &st, &got, &want)? {
							Same::Yes => {
								decided += 1;
								Ok(None)
							}
							Same::Unclear(m) => stuck(m),
							Same::No => {
								let mut st2 = st.clone();
								if !st2.consistent() {
									return Err(Stop::Infeasible);
								}
								Ok(Some((blame(c, &st), format!("writes {}", show_text(&st, &settle(&st, &got))), format!("expected {}", show_text(&st, &settle(&st, &want))))))
							}
						}
					}
					End::Panic(m) => Ok(Some((vec!["C02"], format!("panic: {}", m), format!("at {}", pg.where_(&st))))),
					End::Stuck(m) => stuck(m.clone()),
					End::Source => Ok(None),
				}
			})();
			match res {
				Ok(None) => {}
				Ok(Some((props, what, more))) => {
					let key = format!("{} {}: {}", props.join(" "), c.label, if matches!(e, End::Panic(_)) { what.clone() } else { "another text".into() });
					if seen.insert(key.clone()) {
						r.findings.push(finding(props, key, format!("rendering {}: {}; {}", t_text(&st, &t), what, more), pg.where_(&st), opts_text(&st)));
					}
				}
				Err(Stop::Split(rs)) => {
					for x in rs {
						let mut s = st.clone();
						if s.refine(&x) {
							work.push(s);
						}
					}
				}
				Err(Stop::Stuck(m)) => r.note_open(format!("{}: {}", c.label, m)),
				Err(_) => {}
			}
			// the tree is as before
			if let End::Done(_) = &e {
				if let Some(m) = changed(pg, &st, mk.texts.len(), nodes) {
					let key = format!("{}: {}", c.label, m);
					if seen.insert(key.clone()) {
						r.findings.push(finding(vec!["C16"], key, format!("rendering {}: {}", t_text(&st, &t), m), pg.where_(&st), opts_text(&st)));
					}
				}
			}
		}
	}
	(paths, decided)
}

fn all() -> Vec<u32> {
	(0..FLAGS).collect()
}
fn case(label: impl Into<String>, props: &[&'static str], free: Vec<u32>, make: impl Fn(&mut Mk) -> T + 'static) -> Case {
	Case { label: label.into(), free, on: vec![], call: Call::Build, props: props.to_vec(), make: Box::new(make) }
}
pub fn cases(thorough: bool, bounds: &[usize]) -> Vec<Case> {
	let mut v = vec![];
	let n = if thorough { 4 } else { 3 };
	let shape: &[&'static str] = &["C10", "C11"];
	for k in 1..=n {
		v.push(case(format!("a text of {} characters", k), &["C10", "C11", "C12"], all(), move |m| m.leaf("Text", Some(Text::Len(k)))));
	}
	v.push(case("a text with an entity", &["C10", "C11", "C12"], all(), |m| m.leaf("Text", Some(Text::Entity))));
	v.push(case("a long text", &["C10", "C11"], vec![DEC, NOCOM, LOW, ENC], |m| m.leaf("Text", Some(Text::Free))));
	v.push(case("blanks", &["C10", "C11", "C12"], all(), |m| m.leaf("SpacesBetweenTag", Some(Text::Blank(2)))));
	v.push(case("a comment", &["C10", "C11", "C14"], all(), |m| m.leaf("Comment", Some(Text::Free))));
	v.push(case("an empty comment", &["C10", "C11", "C14"], all(), |m| m.leaf("Comment", None)));
	v.push(case("a CDATA section", &["C10", "C11", "C14"], all(), |m| m.leaf("XMLCDATA", Some(Text::Free))));
	// elements
	for k in [0u32, 1, 2, 3] {
		v.push(case(format!("an element with a name of {} letters, without an end tag", k), shape, if k == 0 { vec![ENDSP, UNQ, NOCOM, CLOSEV, INNER, DEC, TEXT] } else { all() }, move |m| {
			let mut t = m.elem(Name::Any(k), None, None);
			t.void = Some(m.flag());
			t.closed = Some(m.flag());
			t
		}));
		for e in [0, 1, 2] {
			v.push(case(format!("an element with a name of {} letters and {} blanks in its end tag", k, e), shape, if k == 0 { vec![ENDSP, UNQ, NOCOM, CLOSEV, INNER, DEC, TEXT] } else { vec![MIN, LOW, ENDSP, NOCOM, INNER, TEXT, CLOSEV] }, move |m| m.elem(Name::Any(k), Some(e), None)));
		}
	}
	v.push(case("an element with an empty list of children", shape, all(), |m| m.elem(Name::Other, Some(1), Some(vec![]))));
	v.push(case("a document with an empty list of children", shape, all(), |m| T { kind: "AbstractRoot", kids: Some(vec![]), ..m.leaf("Comment", None) }));
	for w in ["title", "textarea", "script", "style", "pre"] {
		v.push(case(format!("{} with content", w), &["C10", "C11", "C14"], all(), move |m| {
			let mut t = m.elem(Name::Is(w), Some(0), None);
			let c = m.text(&Text::Len(2));
			t.content = Some(m.put(c));
			t
		}));
		v.push(case(format!("{} with long content", w), &["C10", "C11", "C14"], vec![MIN, LOW, ENDSP, UNQ, NOCOM, CLOSEV, INNER, DEC, TEXT], move |m| {
			let mut t = m.elem(Name::Is(w), Some(0), None);
			let c = m.text(&Text::Free);
			t.content = Some(m.put(c));
			t
		}));
	}
	v.push(case("another element with content", &["C10", "C11", "C14"], all(), |m| {
		let mut t = m.elem(Name::Other, Some(0), None);
		let c = m.text(&Text::Len(2));
		t.content = Some(m.put(c));
		t
	}));
	// attributes
	for kind in ["Tag", "HTMLDOCTYPE"] {
		for (key, val, quote) in [(true, None, false), (true, Some(Text::Free), false), (false, Some(Text::Len(1)), true), (true, Some(Text::Len(0)), true), (true, Some(Text::Len(1)), true), (true, Some(Text::Len(2)), true), (true, Some(Text::Len(0)), false)] {
			let l = format!("{} with an attribute ({} name, value {}, {} quotes)", kind, if key { "a" } else { "no" }, match &val { None => "none".into(), Some(Text::Len(n)) => format!("of {} characters", n), _ => "of any length".to_string() }, if quote { "with" } else { "without" });
			v.push(case(l, &["C10", "C11", "C13"], vec![UNQ, MIN, CLOSEV, DEC, NOCOM, ENC], move |m| {
				let mut t = m.elem(Name::Other, None, None);
				t.kind = kind;
				if kind == "Tag" {
					t.closed = Some(m.flag());
				}
				t.attrs.push(m.attr(key, val.clone(), quote, kind == "Tag"));
				t
			}));
		}
		v.push(case(format!("{} with three attributes", kind), &["C10", "C11", "C13"], vec![UNQ], move |m| {
			let mut t = m.elem(Name::Other, None, None);
			t.kind = kind;
			if kind == "Tag" {
				t.closed = Some(m.flag());
			}
			let a = m.attr(true, Some(Text::Len(1)), true, false);
			let b = m.attr(true, None, false, false);
			let c = m.attr(true, Some(Text::Len(1)), true, false);
			t.attrs = vec![a, b, c];
			t
		}));
		v.push(case(format!("{} with two attributes of one name", kind), &["C10", "C11", "C13"], vec![UNQ], move |m| {
			let mut t = m.elem(Name::Other, None, None);
			t.kind = kind;
			for _ in 0..2 {
				let mut a = m.attr(false, Some(Text::Len(1)), true, false);
				a.key = Some(m.put(lits("class")));
				t.attrs.push(a);
			}
			t
		}));
		v.push(case(format!("{} with attributes of any length", kind), &["C10", "C13"], vec![CLOSEV], move |m| {
			let mut t = m.elem(Name::Other, None, None);
			t.kind = kind;
			let a = m.attr(true, Some(Text::Free), true, false);
			let b = m.attr(true, Some(Text::Free), false, false);
			t.attrs = vec![a, b];
			t
		}));
	}
	v.push(case("a doctype without parts", &["C10", "C11"], vec![MIN, LOW, ENDSP, UNQ, NOCOM, CLOSEV, DEC, ENC], |m| {
		let mut t = m.elem(Name::Any(2), None, None);
		t.kind = "HTMLDOCTYPE";
		t
	}));
	for kind in ["Tag", "HTMLDOCTYPE"] {
		v.push(case(format!("{} with an attribute and any options", kind), &["C10", "C11", "C13"], vec![MIN, LOW, ENDSP, UNQ, NOCOM, CLOSEV, DEC, ENC], move |m| {
			let mut t = m.elem(Name::Any(1), None, None);
			t.kind = kind;
			t.attrs.push(m.attr(true, Some(Text::Len(1)), true, false));
			t
		}));
	}
	// as long as a number in the code says
	for n in bounds.iter().copied().filter(|n| *n < 300) {
		v.push(case(format!("an element with {} attributes", n + 1), &["C10", "C11", "C13"], vec![], move |m| {
			let mut t = m.elem(Name::Other, None, None);
			for _ in 0..n + 1 {
				t.attrs.push(m.attr(true, None, false, false));
			}
			t
		}));
	}
	for n in bounds.iter().map(|n| *n as u32) {
		for tail in ["  b \t", "&lt;&amp; <", " "] {
			v.push(case(format!("a text of {} letters and {:?}", n, tail), &["C10", "C11", "C12"], all(), move |m| m.leaf("Text", Some(Text::Long(n, tail)))));
			v.push(case(format!("an attribute of {} letters and {:?}", n, tail), &["C10", "C11", "C13"], vec![MIN, UNQ, LOW, DEC], move |m| {
				let mut t = m.elem(Name::Other, None, None);
				t.attrs.push(m.attr(true, Some(Text::Long(n, tail)), true, false));
				t
			}));
		}
		v.push(case(format!("an attribute of {} letters", n + 1), &["C10", "C11", "C13"], vec![MIN, UNQ, LOW, DEC], move |m| {
			let mut t = m.elem(Name::Other, None, None);
			t.attrs.push(m.attr(true, Some(Text::Long(n, "b")), true, false));
			t
		}));
		v.push(case(format!("{} blanks", n + 1), &["C10", "C11", "C12"], vec![MIN, LOW, DEC, INNER], move |m| {
			let t = m.leaf("SpacesBetweenTag", Some(Text::Blank(n + 1)));
			m.elem(Name::Other, Some(0), Some(vec![t]))
		}));
		v.push(case(format!("raw text of {} letters", n + 3), &["C10", "C11", "C12"], vec![MIN, LOW, DEC, INNER, TEXT], move |m| {
			let mut t = m.elem(Name::Is("script"), Some(0), None);
			let c = m.text(&Text::Long(n, "  b"));
			t.content = Some(m.put(c));
			t
		}));
	}
	for n in bounds.iter().copied().filter(|n| *n < 300) {
		v.push(case(format!("{} levels", n + 2), &["C10", "C11"], vec![], move |m| {
			let mut t = m.leaf("Comment", Some(Text::Len(1)));
			for _ in 0..n + 1 {
				t = m.elem(Name::Other, Some(0), Some(vec![t]));
			}
			t
		}));
	}
	for n in bounds.iter().copied().filter(|n| *n < 520) {
		v.push(case(format!("an element with {} children", n + 1), &["C10", "C11", "C14"], vec![], move |m| {
			let kids = (0..n + 1).map(|_| m.leaf("Comment", Some(Text::Len(1)))).collect();
			m.elem(Name::Other, Some(0), Some(kids))
		}));
		v.push(case(format!("an element in an element with {} children", n + 1), &["C10", "C11", "C14"], vec![], move |m| {
			let kids = (0..n + 1).map(|_| m.leaf("Comment", Some(Text::Len(1)))).collect();
			let i = m.elem(Name::Other, Some(0), Some(kids));
			m.elem(Name::Other, Some(0), Some(vec![i]))
		}));
	}
	// nesting
	type Leaf = fn(&mut Mk) -> T;
	let leaves: [(&str, Leaf); 8] = [
		("text", |m| m.leaf("Text", Some(Text::Words))),
		("entity", |m| m.leaf("Text", Some(Text::Entity))),
		("blanks", |m| m.leaf("SpacesBetweenTag", Some(Text::Blank(2)))),
		("comment", |m| m.leaf("Comment", Some(Text::Free))),
		("cdata", |m| m.leaf("XMLCDATA", Some(Text::Free))),
		("void", |m| {
			let mut t = m.elem(Name::Other, None, None);
			t.void = Some(m.flag());
			t
		}),
		("title", |m| {
			let mut t = m.elem(Name::Is("title"), Some(0), None);
			let c = m.text(&Text::Len(1));
			t.content = Some(m.put(c));
			t
		}),
		("empty", |m| m.elem(Name::Other, Some(0), None)),
	];
	let some_opts = vec![MIN, INNER, TEXT, DEC, NOCOM];
	let nest: &[&'static str] = &["C10", "C11", "C12", "C14"];
	for (a, fa) in leaves {
		for (name, nm) in [("element", Name::Other), ("pre", Name::Is("pre"))] {
			let n2 = nm.clone();
			v.push(case(format!("{} with {}", name, a), nest, all().into_iter().filter(|o| ![UNQ, ENDSP].contains(o)).collect(), move |m| {
				let k = fa(m);
				m.elem(n2.clone(), Some(0), Some(vec![k]))
			}));
		}
		for (b, fb) in leaves {
			v.push(case(format!("element with {} and {}", a, b), nest, some_opts.clone(), move |m| {
				let x = fa(m);
				let y = fb(m);
				m.elem(Name::Other, Some(0), Some(vec![x, y]))
			}));
			// what follows an element
			for (name, nm) in [("element", Name::Other), ("pre", Name::Is("pre"))] {
				let n2 = nm.clone();
				v.push(case(format!("element with {} with {}, then {}", name, a, b), nest, some_opts.clone(), move |m| {
					let x = fa(m);
					let y = fb(m);
					let i = m.elem(n2.clone(), Some(0), Some(vec![x]));
					m.elem(Name::Other, Some(0), Some(vec![i, y]))
				}));
			}
		}
		// deep in a pre
		v.push(case(format!("pre with element with {}, then {}", a, a), nest, some_opts.clone(), move |m| {
			let x = fa(m);
			let y = fa(m);
			let z = fa(m);
			let i = m.elem(Name::Other, Some(0), Some(vec![x]));
			let p = m.elem(Name::Is("pre"), Some(0), Some(vec![i, y]));
			m.elem(Name::Other, Some(0), Some(vec![p, z]))
		}));
		v.push(case(format!("pre in pre with {}", a), nest, some_opts.clone(), move |m| {
			let x = fa(m);
			let y = fa(m);
			let i = m.elem(Name::Is("pre"), Some(0), Some(vec![x]));
			m.elem(Name::Is("pre"), Some(0), Some(vec![i, y]))
		}));
		for call in [Call::Build, Call::Render, Call::RenderText] {
			let cn = match call {
				Call::Build => "build",
				Call::Render => "render",
				Call::RenderText => "render_text",
			};
			v.push(Case {
				call,
				..case(format!("{}: document with {}", cn, a), nest, some_opts.clone(), move |m| {
					let x = fa(m);
					T { kind: "AbstractRoot", kids: Some(vec![x]), ..m.leaf("Comment", None) }
				})
			});
			v.push(Case {
				call,
				..case(format!("{}: document with blanks, element with {}, {}", cn, a, a), nest, some_opts.clone(), move |m| {
					let s = m.leaf("SpacesBetweenTag", Some(Text::Blank(1)));
					let x = fa(m);
					let y = fa(m);
					let e = m.elem(Name::Other, Some(0), Some(vec![x]));
					T { kind: "AbstractRoot", kids: Some(vec![s, e, y]), ..m.leaf("Comment", None) }
				})
			});
		}
	}
	// elements that were not closed
	v.push(case("pre without an end tag, then a text", nest, some_opts.clone(), |m| {
		let x = m.leaf("Text", Some(Text::Words));
		let y = m.leaf("Text", Some(Text::Words));
		let p = m.elem(Name::Is("pre"), None, Some(vec![x]));
		m.elem(Name::Other, Some(0), Some(vec![p, y]))
	}));
	v.push(case("an empty document", nest, all(), |m| T { kind: "AbstractRoot", ..m.leaf("Comment", None) }));
	if thorough {
		for (a, fa) in leaves {
			for (b, fb) in leaves {
				for (c, fc) in leaves {
					v.push(case(format!("pre with {}, then element with {} and {}", a, b, c), nest, some_opts.clone(), move |m| {
						let x = fa(m);
						let y = fb(m);
						let z = fc(m);
						let p = m.elem(Name::Is("pre"), Some(0), Some(vec![x]));
						let e = m.elem(Name::Other, Some(0), Some(vec![y, z]));
						m.elem(Name::Other, Some(0), Some(vec![p, e]))
					}));
				}
			}
		}
	}
	v
}

pub fn render(pg: &Prog, thorough: bool, prop: &str) -> Report {
	let cs: Vec<Case> = cases(thorough, &crate::parse::bounds(pg, 3)).into_iter().filter(|c| prop == "*" || prop == "C02" || prop == "C16" || c.props.contains(&prop)).collect();
	let _ = &pg;
	let n = cs.len();
	let mut r = Report::new();
	let next = std::sync::atomic::AtomicUsize::new(0);
	let ir = pg.ir.clone();
	let results: std::sync::Mutex<Vec<(usize, Report, u64, u64)>> = std::sync::Mutex::new(vec![]);
	let entered: std::sync::Mutex<HashSet<String>> = std::sync::Mutex::new(HashSet::new());
	std::thread::scope(|s| {
		for _ in 0..8 {
			s.spawn(|| {
				let pg = Prog::new(ir.clone());
				loop {
					let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
					if i >= n {
						break;
					}
					// the cases are built again in each thread
					let all = cases(thorough, &crate::parse::bounds(&pg, 3));
					let c = all.into_iter().filter(|c| prop == "*" || prop == "C02" || prop == "C16" || c.props.contains(&prop)).nth(i).unwrap();
					let mut r = Report::new();
					let t0 = std::time::Instant::now();
					let (p, d) = run_case(&pg, &c, &mut r, 60_000);
					if std::env::var("RPSA_TIME").is_ok() {
						eprintln!("{:?} paths {} decided {} {}", t0.elapsed(), p, d, c.label);
					}
					results.lock().unwrap().push((i, r, p, d));
				}
				entered.lock().unwrap().extend(pg.entered());
			});
		}
	});
	let mut res = results.into_inner().unwrap();
	res.sort_by_key(|x| x.0);
	let (mut paths, mut decided) = (0, 0);
	for (_, x, p, d) in res {
		r.add(x);
		paths += p;
		decided += d;
	}
	let mut per: BTreeMap<String, usize> = BTreeMap::new();
	for c in &cs {
		*per.entry(match c.call { Call::Build => "Node::build".into(), Call::Render => "DocHolder::render".into(), Call::RenderText => "DocHolder::render_text".to_string() }).or_default() += 1;
	}
	let mut entered: Vec<String> = entered.into_inner().unwrap().into_iter().collect();
	entered.sort();
	r.coverage.insert("tree_shapes".into(), json!(per));
	r.coverage.insert("renderer_paths".into(), json!(paths));
	r.coverage.insert("outputs_decided".into(), json!(decided));
	r.coverage.insert("functions_entered_by_rendering".into(), json!(entered));
	r.samples.extend(cs.iter().take(4).map(|c| json!({"shape": c.label, "options_tried_both_ways": c.free.iter().map(|o| OPTS.get(*o as usize).copied().unwrap_or("inner_text")).collect::<Vec<_>>()})));
	if decided == 0 {
		r.lost = Some("the renderer could not be followed".into());
	}
	r
}
