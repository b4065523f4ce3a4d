//! The product of the parser with the language: exploration, comparison, folding of judged parts.
use crate::canon::*;
use crate::exec::*;
use crate::ir::*;
use crate::spec::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

/// positions of the named fields
pub struct Lay {
	pub node: HashMap<String, usize>,
	pub meta: HashMap<String, usize>,
	pub attr: HashMap<String, usize>,
	pub doc: HashMap<String, usize>,
	pub node_types: Vec<String>,
	pub errors: Vec<String>,
	pub region: HashMap<String, usize>,
	pub perr: HashMap<String, usize>,
	pub popts: Vec<String>,
	pub ropts: Vec<String>,
}
pub fn adt<'a>(pg: &'a Prog, end: &str) -> Option<&'a Vec<Variant>> {
	pg.ir.tys.iter().find_map(|t| match &t.kind {
		TyKind::Adt { path, local: true, variants, .. } if path.ends_with(end) => Some(variants),
		_ => None,
	})
}
fn fields(pg: &Prog, end: &str) -> HashMap<String, usize> {
	adt(pg, end).map_or(HashMap::new(), |v| v[0].fields.iter().enumerate().map(|(i, f)| (f.0.clone(), i)).collect())
}
fn field_list(pg: &Prog, end: &str) -> Vec<String> {
	adt(pg, end).map_or(vec![], |v| v[0].fields.iter().map(|f| f.0.clone()).collect())
}
pub fn variants(pg: &Prog, end: &str) -> Vec<String> {
	adt(pg, end).map_or(vec![], |v| v.iter().map(|v| v.name.clone()).collect())
}
impl Lay {
	pub fn new(pg: &Prog) -> Lay {
		Lay {
			node: fields(pg, "parser::Node"),
			meta: fields(pg, "parser::TagMeta"),
			attr: fields(pg, "parser::Attr"),
			doc: fields(pg, "parser::Doc"),
			node_types: variants(pg, "parser::NodeType"),
			errors: variants(pg, "error::ErrorKind"),
			region: fields(pg, "position::CodeRegion"),
			perr: fields(pg, "error::ParseError"),
			popts: field_list(pg, "config::ParseOptions"),
			ropts: field_list(pg, "config::RenderOptions"),
		}
	}
}
pub const NODE_TYPES: [&str; 8] = ["AbstractRoot", "HTMLDOCTYPE", "Comment", "Text", "SpacesBetweenTag", "Tag", "TagEnd", "XMLCDATA"];

#[derive(Clone, Debug)]
pub struct Diff {
	pub field: String,
	pub what: String,
	pub ty: u8,
	pub fixed: bool,
	/// no verdict: the state is not understood
	pub unclear: bool,
}
type D = Result<(), Diff>;

pub fn same_items(st: &State, a: &[It], b: &[It]) -> bool {
	let (mut i, mut j) = (0, 0);
	let empty = |x: &It| matches!(x, It::S(s, _) | It::Many(s) if st.seg(*s).max == 0);
	loop {
		while i < a.len() && empty(&a[i]) {
			i += 1;
		}
		while j < b.len() && empty(&b[j]) {
			j += 1;
		}
		if i == a.len() || j == b.len() {
			return i == a.len() && j == b.len();
		}
		let ok = match (&a[i], &b[j]) {
			(It::S(x, m), It::S(y, n)) => {
				if x == y {
					m == n || st.seg(*x).set.and(&crate::cs::CS::letters()).is_empty() || {
						// the two mappings agree on these characters
						*m != Map::Wild && *n != Map::Wild && {
							let s = &st.seg(*x).set;
							m.image(s) == n.image(s) && (0..128u8).map(|c| c as char).filter(|c| s.has(*c)).all(|c| m.ch(c) == n.ch(c))
						}
					}
				} else {
					let (g, h) = (st.seg(*x), st.seg(*y));
					g.exact() == Some(1)
						&& h.exact() == Some(1)
						&& match (g.set.single(), h.set.single()) {
							(Some(c), Some(d)) => m.ch(c).is_some() && m.ch(c) == n.ch(d),
							_ => false,
						}
				}
			}
			(It::C(c), It::C(d)) => c == d,
			(It::S(x, m), It::C(c)) | (It::C(c), It::S(x, m)) => {
				let g = st.seg(*x);
				g.exact() == Some(1) && g.set.single().and_then(|d| m.ch(d)) == Some(*c)
			}
			(x, y) => x == y,
		};
		if !ok {
			return false;
		}
		i += 1;
		j += 1;
	}
}
pub fn show(st: &State, v: &[It]) -> String {
	let mut s = String::new();
	for i in v {
		match i {
			It::C(c) => s.push(*c),
			It::S(x, m) => {
				let g = st.seg(*x);
				if let (Some(1), Some(c), Map::Id) = (g.exact(), g.set.single(), m) {
					s.push(c);
				} else {
					s += &format!("⟨{}{:?}{}⟩", x, g.set, if *m == Map::Id { String::new() } else { format!(" {:?}", m) });
					if g.exact() != Some(1) {
						s += &format!("{{{},{}}}", g.min, if g.max == INF { "".to_string() } else { g.max.to_string() });
					}
				}
			}
			It::Many(_) => s += "⟨…⟩",
			It::F(f) => s += &format!("⟨{}⟩", f.0),
			It::V(v) => s += &short(v),
		}
	}
	s
}

pub struct Cmp<'a> {
	pub st: &'a State,
	pub l: &'a Lay,
	pub root: Oid,
}
fn diff(field: &str, what: String) -> Diff {
	Diff { field: field.into(), what, ty: 0, fixed: false, unclear: false }
}
fn unclear(what: String) -> Diff {
	Diff { field: "?".into(), what, ty: 0, fixed: false, unclear: true }
}
impl<'a> Cmp<'a> {
	pub fn obj(&self, o: Oid) -> Option<&'a Vec<V>> {
		match self.st.heap.get(o as usize)?.as_deref()? {
			V::Cell(_, v) => match &**v {
				V::Agg(_, f) => Some(f),
				_ => None,
			},
			_ => None,
		}
	}
	fn f(&self, n: &'a [V], name: &str) -> Result<&'a V, Diff> {
		self.l.node.get(name).and_then(|i| n.get(*i)).ok_or_else(|| unclear(format!("Node.{}", name)))
	}
	fn int(&self, field: &str, v: &V, want: &Lin) -> D {
		match v {
			V::Int(l) if self.st.norm(l) == self.st.norm(want) => Ok(()),
			V::Int(l) => {
				let d = self.st.norm(&l.sub(want));
				if self.st.range(&d) == (0, 0) {
					return Ok(());
				}
				// unrelated numbers that were forgotten by a join give no verdict
				if d.t.iter().any(|(s, _)| !self.st.seg(*s).chars && self.st.seg(*s).set == crate::cs::CS::empty()) {
					return Err(unclear(format!("{}: forgotten number", field)));
				}
				Err(diff(field, format!("{}: {:?}, expected {:?}", field, self.st.norm(l), self.st.norm(want))))
			}
			o => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	fn items(&self, field: &str, v: &V, want: &[It]) -> D {
		match v {
			V::Seq(s) => {
				if same_items(self.st, s, want) {
					Ok(())
				} else {
					Err(diff(field, format!("{}: \"{}\", expected \"{}\"", field, show(self.st, s), show(self.st, want))))
				}
			}
			o => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	fn opt<'b>(&self, field: &str, v: &'b V) -> Result<Option<&'b V>, Diff> {
		match v {
			V::Agg(0, x) if x.is_empty() => Ok(None),
			V::Agg(1, x) if x.len() == 1 => Ok(Some(&x[0])),
			o => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	fn weak(&self, field: &str, v: &V, want: Option<Oid>) -> D {
		match (self.opt(field, v)?, want) {
			(None, None) => Ok(()),
			(Some(V::Weak(o)), Some(w)) if *o == w => Ok(()),
			(Some(V::Weak(_)), Some(_)) => Err(diff(field, format!("{}: points to another node", field))),
			(None, Some(_)) => Err(diff(field, format!("{}: not set", field))),
			(Some(V::Weak(_)), None) => Err(diff(field, format!("{}: set", field))),
			(Some(o), _) => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	fn flag(&self, field: &str, v: &V, want: bool) -> D {
		match v {
			V::Bool(b) if *b == want => Ok(()),
			V::Bool(b) => Err(diff(field, format!("{}: {}, expected {}", field, b, want))),
			o => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	fn oseq<'b>(&self, field: &str, v: &'b V) -> Result<&'b [It], Diff> {
		match self.opt(field, v)? {
			None => Ok(&[]),
			Some(V::Seq(s)) => Ok(s),
			Some(o) => Err(unclear(format!("{}: {}", field, short(o)))),
		}
	}
	pub fn attr(&self, a: &SAttr, v: &V) -> D {
		let V::Agg(_, f) = v else { return Err(unclear("attribute".into())) };
		let g = |n: &str| self.l.attr.get(n).and_then(|i| f.get(*i)).ok_or_else(|| unclear(format!("Attr.{}", n)));
		for (n, want) in [("key", &a.key), ("value", &a.val)] {
			match (self.opt(n, g(n)?)?, want) {
				(None, None) => {}
				(Some(V::Agg(_, d)), Some(w)) if d.len() == 1 => self.items(&format!("attribute {}", n), &d[0], w)?,
				(None, Some(w)) => return Err(diff(&format!("attribute {}", n), format!("attribute {}: missing, expected \"{}\"", n, show(self.st, w)))),
				(Some(_), None) => return Err(diff(&format!("attribute {}", n), format!("attribute {}: present, expected none", n))),
				(Some(o), _) => return Err(unclear(short(o))),
			}
		}
		match (self.opt("quote", g("quote")?)?, &a.quote) {
			(None, None) => {}
			(Some(V::Char(c)), Some(w)) => {
				if !same_items(self.st, &[ch_item(c)], &[ch_item(w)]) {
					return Err(diff("attribute quote", format!("quote {:?}, expected {:?}", c, w)));
				}
			}
			(x, y) => return Err(diff("attribute quote", format!("quote {:?}, expected {:?}", x, y))),
		}
		self.flag("attribute need_quote", g("need_quote")?, false)
	}
	fn meta_field(&self, m: &'a [V], n: &str) -> Result<&'a V, Diff> {
		self.l.meta.get(n).and_then(|i| m.get(*i)).ok_or_else(|| unclear(format!("TagMeta.{}", n)))
	}
	pub fn meta_of(&self, n: &'a [V]) -> Result<Option<&'a Vec<V>>, Diff> {
		match self.opt("meta", self.f(n, "meta")?)? {
			None => Ok(None),
			Some(V::Cell(_, v)) => match &**v {
				V::Agg(_, f) => Ok(Some(f)),
				o => Err(unclear(short(o))),
			},
			Some(o) => Err(unclear(short(o))),
		}
	}
	/// how many entries of the log agree, (expected, code)
	fn log(&self, want: &[SM], ops: &[MapOp]) -> (usize, usize) {
		let (mut i, mut j) = (0, 0);
		let key = |k: &V| -> Option<Vec<It>> {
			match k {
				V::Seq(s) => Some(s.to_vec()),
				_ => None,
			}
		};
		while i < want.len() && j < ops.len() {
			match (&want[i], &ops[j]) {
				(SM::Folded, MapOp::Folded) => {
					i += 1;
					j += 1
				}
				(SM::Ins(k, n), op) => {
					let same = |x: &V| key(x).map_or(false, |x| same_items(self.st, k, &x));
					let val = |v: &V| matches!(v, V::Int(l) if self.st.norm(l) == self.st.norm(n));
					match op {
						MapOp::OrInsert(x, v) if same(x) && val(v) => {
							i += 1;
							j += 1
						}
						// into an empty map
						MapOp::Insert(x, v) if j == 0 && same(x) && val(v) => {
							i += 1;
							j += 1
						}
						MapOp::Has(x, true) if same(x) => {
							i += 1;
							j += 1
						}
						MapOp::Has(x, false) if same(x) => match ops.get(j + 1) {
							Some(MapOp::Insert(y, v)) | Some(MapOp::OrInsert(y, v)) if same(y) && val(v) => {
								i += 1;
								j += 2
							}
							_ => break,
						},
						_ => break,
					}
				}
				_ => break,
			}
		}
		(i, j)
	}
	pub fn meta(&self, w: &SMeta, m: &'a [V]) -> D {
		self.items("name", self.meta_field(m, "name")?, &w.name)?;
		self.flag("is_void", self.meta_field(m, "is_void")?, w.void)?;
		self.flag("self_closed", self.meta_field(m, "self_closed")?, w.self_closed)?;
		self.flag("auto_fix", self.meta_field(m, "auto_fix")?, w.auto_fix)?;
		let V::Seq(attrs) = self.meta_field(m, "attrs")? else { return Err(unclear("attrs".into())) };
		if attrs.len() != w.attrs.len() {
			return Err(diff("attributes", format!("{} attributes, expected {}", attrs.len(), w.attrs.len())));
		}
		for (a, v) in w.attrs.iter().zip(attrs.iter()) {
			match (a, v) {
				(AI::Many(s), It::Many(t)) if s == t => {}
				(AI::A(a), It::V(v)) => self.attr(a, v)?,
				_ => return Err(diff("attributes", "attributes: other sequence".into())),
			}
		}
		let V::Map(ops) = self.meta_field(m, "lc_name_map")? else { return Err(unclear("lc_name_map".into())) };
		let (i, j) = self.log(&w.map, ops);
		if i != w.map.len() || j != ops.len() {
			return Err(diff("attribute lc_name_map", format!("lc_name_map: updates {:?} after {}, expected {:?}", &ops[j..], j, &w.map[i..])));
		}
		Ok(())
	}
	pub fn end_tag(&self, e: &SEnd, o: Oid, me: Oid) -> D {
		let Some(n) = self.obj(o) else { return Err(unclear("end tag".into())) };
		match self.f(n, "node_type")? {
			V::Agg(k, _) if self.l.node_types.get(*k as usize).map(|s| s.as_str()) == Some("TagEnd") => {}
			o => return Err(diff("end tag", format!("type of the end tag {}", short(o)))),
		}
		match self.opt("content", self.f(n, "content")?)? {
			Some(c) => self.items("end tag content", c, &e.content)?,
			None => return Err(diff("end tag content", "end tag without content".into())),
		}
		self.weak("end tag parent", self.f(n, "parent")?, Some(me))?;
		if let Some(b) = &e.begin {
			self.int("end tag begin_at", self.f(n, "begin_at")?, b)?;
		}
		if let Some(b) = &e.end {
			self.int("end tag end_at", self.f(n, "end_at")?, b)?;
		}
		Ok(())
	}
	/// everything but the children
	pub fn shallow(&self, w: &SNode, o: Oid, parent: Option<Oid>, idx: &Lin) -> D {
		let r = self.shallow_(w, o, parent, idx);
		r.map_err(|mut d| {
			d.ty = w.ty;
			d.fixed = w.fixed;
			d
		})
	}
	fn shallow_(&self, w: &SNode, o: Oid, parent: Option<Oid>, idx: &Lin) -> D {
		let Some(n) = self.obj(o) else { return Err(unclear("node".into())) };
		match self.f(n, "node_type")? {
			V::Agg(k, _) => {
				let got = self.l.node_types.get(*k as usize).map_or("?", |s| s.as_str());
				if got != NODE_TYPES[w.ty as usize] {
					return Err(diff("node_type", format!("node_type: {}, expected {}", got, NODE_TYPES[w.ty as usize])));
				}
			}
			o => return Err(unclear(short(o))),
		}
		let want: &[It] = w.content.as_deref().unwrap_or(&[]);
		let got = self.oseq("content", self.f(n, "content")?)?;
		if !same_items(self.st, got, want) {
			return Err(diff("content", format!("content \"{}\", expected \"{}\"", show(self.st, got), show(self.st, want))));
		}
		match (&w.meta, self.meta_of(n)?) {
			(None, None) => {}
			(Some(w), Some(m)) => self.meta(w, m)?,
			(Some(_), None) => return Err(diff("name", "no tag information".into())),
			(None, Some(_)) => return Err(diff("name", "tag information of something that is no tag".into())),
		}
		match (&w.end_tag, self.opt("end_tag", self.f(n, "end_tag")?)?) {
			(None, None) => {}
			(Some(e), Some(V::Rc(x))) => self.end_tag(e, *x, o)?,
			(Some(_), None) => return Err(diff("end tag", "no end tag".into())),
			(None, Some(_)) => return Err(diff("end tag", "an end tag nobody wrote".into())),
			_ => return Err(unclear("end tag".into())),
		}
		self.weak("parent", self.f(n, "parent")?, parent)?;
		self.weak("root", self.f(n, "root")?, Some(self.root))?;
		if parent.is_some() {
			self.int("index", self.f(n, "index")?, idx)?;
			self.weak("document", self.f(n, "document")?, None)?;
		}
		self.int("begin_at", self.f(n, "begin_at")?, &w.begin)?;
		if let Some(e) = &w.end {
			self.int("end_at", self.f(n, "end_at")?, e)?;
		}
		Ok(())
	}
	pub fn childs_of(&self, o: Oid) -> Result<&'a [It], Diff> {
		let Some(n) = self.obj(o) else { return Err(unclear("node".into())) };
		self.oseq("childs", self.f(n, "childs")?)
	}
	/// a field of a judged node that has been changed since
	pub fn touched(&self, o: Oid) -> Option<String> {
		match self.st.heap.get(o as usize)?.as_deref()? {
			V::Cell(_, v) => match &**v {
				V::Agg(k, f) if *k == HUSK => {
					let V::Agg(_, old) = f.last()? else { return None };
					for (i, (x, y)) in f.iter().zip(old.iter()).enumerate() {
						if x != y {
							return Some(self.l.node.iter().find(|n| *n.1 == i).map_or("?".to_string(), |n| n.0.clone()));
						}
					}
					None
				}
				_ => None,
			},
			_ => None,
		}
	}
	/// the whole subtree
	pub fn deep(&self, w: &SNode, o: Oid, parent: Option<Oid>, idx: &Lin) -> D {
		self.shallow(w, o, parent, idx)?;
		let cs = self.childs_of(o)?;
		let mut at = Lin::k(0);
		let tag = |mut d: Diff| {
			d.ty = w.ty;
			d.fixed = w.fixed;
			d
		};
		for (i, c) in w.childs.iter().enumerate() {
			match (c, cs.get(i)) {
				(CI::Many(s), Some(It::Many(t))) if s == t => at = at.add(&Lin::len(*s)),
				(CI::N(n), Some(It::V(V::Rc(x)))) => {
					self.deep(n, *x, Some(o), &at)?;
					at = at.plus(1);
				}
				(CI::Done, Some(It::V(V::Rc(x)))) => {
					if let Some(f) = self.touched(*x) {
						return Err(tag(diff(&f, format!("{} of a finished node is changed later", f))));
					}
					at = at.plus(1);
				}
				(CI::Done, _) => return Err(tag(diff("childs", "a finished child is gone".into()))),
				(CI::N(n), None) => return Err(tag(diff("childs", format!("a child is missing: {}", NODE_TYPES[n.ty as usize])))),
				(_, x) => return Err(tag(diff("childs", format!("children: {:?}", x.map(|x| format!("{:?}", x)))))),
			}
		}
		if cs.len() > w.childs.len() {
			return Err(tag(diff("childs", "more children than expected".into())));
		}
		Ok(())
	}
}

/// the document value among the locals: (frame, local)
pub fn find_doc(pg: &Prog, st: &State) -> Option<(usize, usize)> {
	for (i, f) in st.frames.iter().enumerate() {
		if f.f == HARNESS || f.nat.is_some() {
			continue;
		}
		for (j, t) in pg.body(f.f).locals.iter().enumerate() {
			if let TyKind::Adt { path, local: true, .. } = &pg.ir.tys[*t].kind {
				if path.ends_with("parser::Doc") {
					if let V::Agg(_, fs) = &f.locals[j] {
						if !fs.is_empty() && fs.iter().any(|v| !v.is_undef()) {
							return Some((i, j));
						}
					}
				}
			}
		}
	}
	None
}
fn rc_of(v: &V) -> Option<Oid> {
	match v {
		V::Rc(o) => Some(*o),
		_ => None,
	}
}

/// the nodes on the path to the innermost open one
fn open_path(l: &Lay, st: &State, root: Oid) -> Vec<Oid> {
	let mut path = vec![root];
	let c = Cmp { st, l, root };
	let s = spec(st);
	for i in 1..s.stack.len() {
		let k = s.stack[i - 1].childs.len();
		match c.childs_of(path[i - 1]) {
			Ok(cs) => match cs.get(k) {
				Some(It::V(V::Rc(o))) => path.push(*o),
				_ => break,
			},
			Err(_) => break,
		}
	}
	path
}
/// how many entries of the identifier map are as expected: (expected, code)
fn ids_match(l: &Lay, st: &State, root: Oid, path: &[Oid], ops: &[MapOp]) -> (usize, usize) {
	let s = spec(st);
	let c = Cmp { st, l, root };
	let mut j = ops.iter().take_while(|o| matches!(o, MapOp::Folded)).count();
	let mut i = 0;
	while i < s.ids.len() && j < ops.len() {
		let (v, at) = &s.ids[i];
		let target = match at {
			IdAt::Stack(k) => path.get(*k).copied(),
			IdAt::LastOf(k) => path.get(*k).and_then(|p| {
				let n = s.stack[*k].childs.len();
				match c.childs_of(*p).ok()?.get(n.checked_sub(1)?)? {
					It::V(V::Rc(o)) => Some(*o),
					_ => None,
				}
			}),
			IdAt::Lost => None,
		};
		let Some(target) = target else { break };
		let same = |x: &V| matches!(x, V::Seq(k) if same_items(st, k, v));
		match &ops[j] {
			MapOp::Insert(k, V::Rc(o)) | MapOp::OrInsert(k, V::Rc(o)) if same(k) && *o == target => {
				i += 1;
				j += 1
			}
			MapOp::Has(k, true) if same(k) => {
				i += 1;
				j += 1
			}
			MapOp::Has(k, false) if same(k) => match ops.get(j + 1) {
				Some(MapOp::Insert(k, V::Rc(o))) | Some(MapOp::OrInsert(k, V::Rc(o))) if same(k) && *o == target => {
					i += 1;
					j += 2
				}
				_ => break,
			},
			_ => break,
		}
	}
	(i, j)
}

/// folds the finished parts that are as expected, in the code's state and in the expectation alike
pub fn fold(pg: &Prog, l: &Lay, st: &mut State, keep: &HashSet<String>, exact: usize) {
	let Some((fi, li)) = find_doc(pg, st) else { return };
	if exact > 0 && small(st, exact) {
		// everything is kept as it is
		if matches!(spec(st).m, M::Wait { .. } | M::Text { .. }) {
			let p = spec(st).pos.clone();
			spec_mut(st).lt = p;
			blur(st, true);
		} else if matches!(spec(st).m, M::Raw(_)) {
			blur(st, false);
		}
		return;
	}
	// between two nodes the parser has no use for places and characters it remembers
	if matches!(spec(st).m, M::Wait { .. } | M::Text { .. }) {
		let pos = st.norm(&spec(st).pos);
		if let V::Agg(k, f) = &st.frames[fi].locals[li] {
			let mut f = f.to_vec();
			for (n, i) in &l.doc {
				let Some(v) = f.get(*i) else { continue };
				let stale = match v {
					V::Int(x) => st.norm(x) != pos,
					V::Char(_) | V::Bool(_) => true,
					_ => false,
				};
				let name = format!("Doc.{}", n);
				if stale && !keep.contains(&name) {
					f[*i] = opq(format!("forgotten {}", name));
				}
			}
			let v = agg(*k, f);
			let fr = Arc::make_mut(&mut st.frames[fi]);
			fr.locals[li] = v;
		}
		let p = spec(st).pos.clone();
		spec_mut(st).lt = p;
		blur(st, true);
	} else if matches!(spec(st).m, M::Raw(_)) {
		blur(st, false);
	}
	let doc = match &st.frames[fi].locals[li] {
		V::Agg(_, f) => f.clone(),
		_ => return,
	};
	let get = |n: &str| l.doc.get(n).and_then(|i| doc.get(*i)).cloned();
	let Some(root) = get("root").as_ref().and_then(rc_of) else { return };
	let path = open_path(l, st, root);
	// identifiers
	if let Some(ids) = get("id_tags").as_ref().and_then(rc_of) {
		let ops = match st.heap[ids as usize].as_deref() {
			Some(V::Cell(b, v)) => match &**v {
				V::Map(m) => Some((*b, m.clone())),
				_ => None,
			},
			_ => None,
		};
		if let Some((b, ops)) = ops {
			let (i, j) = ids_match(l, st, root, &path, &ops);
			if i > 0 {
				let mut new = vec![MapOp::Folded];
				new.extend(ops[j..].iter().cloned());
				st.heap[ids as usize] = Some(Arc::new(V::Cell(b, Arc::new(V::Map(Arc::new(new))))));
				spec_mut(st).ids.drain(..i);
			}
		}
	}
	// attributes of the tag at work
	{
		let k = path.len() - 1;
		let mut new_node: Option<V> = None;
		let mut new_spec: Option<SMeta> = None;
		let mut fresh = 0;
		{
			let c = Cmp { st, l, root };
			let s = spec(st);
			if path.len() == s.stack.len() {
				if let (Some(w), Some(n)) = (&s.stack[k].meta, c.obj(path[k])) {
					if let Ok(Some(m)) = c.meta_of(n) {
						let mut m = m.clone();
						let mut w = w.clone();
						let mut changed = false;
						if let (Some(ai), Some(mi)) = (l.meta.get("attrs"), l.meta.get("lc_name_map")) {
							if let V::Seq(attrs) = &m[*ai] {
								let mut attrs = attrs.to_vec();
								let mut i = 0;
								while i < w.attrs.len() && i < attrs.len() {
									match (&w.attrs[i], &attrs[i]) {
										(AI::Many(_), It::Many(_)) => {}
										(AI::A(a), It::V(v)) if a.done && c.attr(a, v).is_ok() => {
											let id = st.segs.len() as Sid + fresh;
											fresh += 1;
											w.attrs[i] = AI::Many(id);
											attrs[i] = It::Many(id);
											changed = true;
										}
										_ => break,
									}
									i += 1;
								}
								m[*ai] = seq(attrs);
							}
							if let V::Map(ops) = &m[*mi] {
								let (i, j) = c.log(&w.map, ops);
								if i > 1 || i == 1 && !matches!(w.map[0], SM::Folded) {
									let mut o = vec![MapOp::Folded];
									o.extend(ops[j..].iter().cloned());
									let mut x = vec![SM::Folded];
									x.extend(w.map[i..].iter().cloned());
									w.map = x;
									m[*mi] = V::Map(Arc::new(o));
									changed = true;
								}
							}
						}
						if changed {
							let mut n = n.clone();
							let at = l.node["meta"];
							let flag = match &n[at] {
								V::Agg(1, x) => match &x[0] {
									V::Cell(b, _) => *b,
									_ => 0,
								},
								_ => 0,
							};
							n[at] = some(V::Cell(flag, Arc::new(agg(0, m))));
							new_node = Some(agg(0, n));
							new_spec = Some(w);
						}
					}
				}
			}
		}
		if let (Some(n), Some(w)) = (new_node, new_spec) {
			for _ in 0..fresh {
				st.new_seg(Seg { set: crate::cs::CS::all(), min: 1, max: 1, origin: u32::MAX, chars: false });
			}
			let flag = match st.heap[path[k] as usize].as_deref() {
				Some(V::Cell(b, _)) => *b,
				_ => 0,
			};
			st.heap[path[k] as usize] = Some(Arc::new(V::Cell(flag, Arc::new(n))));
			let s = spec_mut(st);
			s.stack[k].meta = Some(w);
		}
	}
	// start tags that are complete: their own bookkeeping is over
	{
		let in_tag = matches!(spec(st).m, M::Name(_) | M::DocName(_) | M::Tag(_) | M::Slash(_) | M::Key(_) | M::Val(..));
		let upto = if in_tag { path.len() - 1 } else { path.len() };
		if let (Some(ci), Some(mi)) = (l.meta.get("code_in"), l.node.get("meta")) {
			for (d, o) in path[..upto].to_vec().into_iter().enumerate() {
				if let Some(V::Cell(b, v)) = st.heap[o as usize].as_deref().cloned() {
					if let V::Agg(k, f) = &*v {
						if let V::Agg(1, x) = &f[*mi] {
							if let V::Cell(b2, m) = &x[0] {
								if let V::Agg(k2, mf) = &**m {
									if !mf[*ci].is_undef() {
										let mut mf = mf.to_vec();
										mf[*ci] = V::Undef;
										// how many attributes it has does not matter any more
										if let (Some(ai), Some(mi), Some(w)) = (l.meta.get("attrs"), l.meta.get("lc_name_map"), spec(st).stack[d].meta.clone()) {
											let folded = match &mf[*ai] {
												V::Seq(a) => a.len() == w.attrs.len() && a.iter().zip(&w.attrs).all(|(x, y)| matches!((x, y), (It::Many(s), AI::Many(t)) if s == t)),
												_ => false,
											} && match &mf[*mi] {
												V::Map(ops) => ops.iter().all(|o| matches!(o, MapOp::Folded)) && w.map.iter().all(|o| matches!(o, SM::Folded)) && ops.is_empty() == w.map.is_empty(),
												_ => false,
											};
											if folded {
												let id = st.new_seg(Seg { set: crate::cs::CS::all(), min: 0, max: INF, origin: u32::MAX, chars: false });
												mf[*ai] = seq(vec![It::Many(id)]);
												mf[*mi] = V::Map(Arc::new(vec![MapOp::Folded]));
												let m = spec_mut(st).stack[d].meta.as_mut().unwrap();
												m.attrs = vec![AI::Many(id)];
												m.map = vec![SM::Folded];
											}
										}
										let mut f = f.to_vec();
										f[*mi] = some(V::Cell(*b2, Arc::new(agg(*k2, mf))));
										st.heap[o as usize] = Some(Arc::new(V::Cell(b, Arc::new(agg(*k, f)))));
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// children
	struct Refs(HashMap<Oid, u32>);
	impl Vis for Refs {
		fn oid(&mut self, o: Oid, _strong: bool) {
			*self.0.entry(o).or_default() += 1;
		}
	}
	let mut all = Refs(HashMap::new());
	st.vis_all(&mut all);
	let alive = st.alive();
	for o in &alive {
		if let Some(v) = &st.heap[*o as usize] {
			v.vis(&mut all, false);
		}
	}
	// the last text may still grow, or turn into spaces
	let live = {
		let s = spec(st);
		s.pending
			|| match &s.m {
				M::Wait { cur } | M::Lt { cur } | M::End { cur, .. } => *cur,
				M::Text { .. } | M::Block(..) => true,
				_ => false,
			}
	};
	let top = path.len() - 1;
	// what a text already holds
	if live && path.len() == spec(st).stack.len() {
		let mut new = None;
		{
			let c = Cmp { st, l, root };
			let w = &spec(st).stack[top].childs;
			if let (Some(CI::N(n)), Ok(cs)) = (w.last(), c.childs_of(path[top])) {
				if let (Some(It::V(V::Rc(o))), Some(want)) = (cs.last(), &n.content) {
					if cs.len() == w.len() && want.len() > 1 && want.iter().any(|i| matches!(i, It::C(_))) {
						if let Some(f) = c.obj(*o) {
							if let Ok(got) = c.oseq("content", &f[l.node["content"]]) {
								if got.len() > 1 && same_items(st, got, want) {
									let mut set = crate::cs::CS::empty();
									for i in want {
										match i {
											It::C(c) => set = set.or(&crate::cs::CS::one(*c)),
											It::S(s, m) => set = set.or(&m.image(&st.seg(*s).set)),
											_ => set = crate::cs::CS::all(),
										}
									}
									new = Some((*o, set));
								}
							}
						}
					}
				}
			}
		}
		if let Some((o, set)) = new {
			let id = st.new_seg(Seg { set, min: 1, max: INF, origin: u32::MAX, chars: true });
			let items = vec![It::S(id, Map::Id)];
			if let Some(V::Cell(b, v)) = st.heap[o as usize].as_deref().cloned() {
				if let V::Agg(k, f) = &*v {
					let mut f = f.to_vec();
					f[l.node["content"]] = some(seq(items.clone()));
					st.heap[o as usize] = Some(Arc::new(V::Cell(b, Arc::new(agg(*k, f)))));
				}
			}
			if let Some(CI::N(n)) = spec_mut(st).stack[top].childs.last_mut() {
				Arc::make_mut(n).content = Some(items);
			}
		}
	}
	for d in 0..path.len() {
		loop {
			let mut pick: Option<(usize, Vec<Oid>, bool)> = None;
			{
				let c = Cmp { st, l, root };
				let s = spec(st);
				let Ok(cs) = c.childs_of(path[d]) else { break };
				let w = &s.stack[d].childs;
				let mut at = Lin::k(0);
				for (i, x) in w.iter().enumerate() {
					let stay = d > 0 && i == 0 && cs.len() == 1;
					match (x, cs.get(i)) {
						(CI::Many(a), Some(It::Many(b))) if a == b => at = at.add(&Lin::len(*a)),
						(CI::Done, Some(It::V(V::Rc(o)))) if c.touched(*o).is_none() => {
							if !stay {
								pick = Some((i, vec![], false));
								break;
							}
							at = at.plus(1);
						}
						(CI::N(n), Some(It::V(V::Rc(o)))) => {
							if live && d == top && i + 1 == w.len() {
								break;
							}
							if c.deep(n, *o, Some(path[d]), &at).is_ok() {
								// who refers to the subtree?
								let mut inner = Refs(HashMap::new());
								let mut objs: HashSet<Oid> = HashSet::new();
								let mut todo = vec![*o];
								struct Kids(Vec<Oid>);
								impl Vis for Kids {
									fn oid(&mut self, o: Oid, strong: bool) {
										if strong {
											self.0.push(o)
										}
									}
								}
								while let Some(o) = todo.pop() {
									if objs.insert(o) {
										if let Some(v) = &st.heap[o as usize] {
											v.vis(&mut inner, false);
											let mut k = Kids(vec![]);
											v.vis(&mut k, false);
											todo.extend(k.0);
										}
									}
								}
								if objs.contains(&root) {
									break;
								}
								let mut husks: Vec<Oid> = objs
									.iter()
									.filter(|x| {
										let out = all.0.get(x).copied().unwrap_or(0) - inner.0.get(x).copied().unwrap_or(0);
										out > (**x == *o) as u32 || **x == *o && stay
									})
									.copied()
									.collect();
								husks.sort();
								pick = Some((i, husks, stay));
							}
							break;
						}
						_ => break,
					}
				}
			}
			let Some((i, husks, stay)) = pick else { break };
			for o in husks {
				husk(l, st, o, keep);
			}
			if stay {
				spec_mut(st).stack[d].childs[i] = CI::Done;
				continue;
			}
			let id = st.new_seg(Seg { set: crate::cs::CS::all(), min: 1, max: 1, origin: u32::MAX, chars: false });
			let ci = l.node["childs"];
			if let Some(V::Cell(b, v)) = st.heap[path[d] as usize].as_deref().cloned() {
				if let V::Agg(k, f) = &*v {
					let mut f = f.to_vec();
					if let V::Agg(1, x) = &f[ci] {
						if let V::Seq(items) = &x[0] {
							let mut items = items.to_vec();
							items[i] = It::Many(id);
							f[ci] = some(seq(items));
						}
					}
					st.heap[path[d] as usize] = Some(Arc::new(V::Cell(b, Arc::new(agg(*k, f)))));
				}
			}
			spec_mut(st).stack[d].childs[i] = CI::Many(id);
		}
	}
	// nodes outside of the tree
	if matches!(spec(st).m, M::Wait { .. } | M::Text { .. }) {
		let mut inside: HashSet<Oid> = HashSet::new();
		let mut todo = vec![root];
		struct Kids(Vec<Oid>);
		impl Vis for Kids {
			fn oid(&mut self, o: Oid, strong: bool) {
				if strong {
					self.0.push(o)
				}
			}
		}
		while let Some(o) = todo.pop() {
			if inside.insert(o) {
				if let Some(v) = &st.heap[o as usize] {
					let mut k = Kids(vec![]);
					v.vis(&mut k, false);
					todo.extend(k.0);
				}
			}
		}
		for o in st.alive() {
			if !inside.contains(&o) {
				if let Some(V::Cell(_, v)) = st.heap[o as usize].as_deref() {
					if matches!(&**v, V::Agg(0, f) if f.len() == l.node.len() && f.len() > 4) {
						husk(l, st, o, keep);
						if let Some(V::Cell(b, v)) = st.heap[o as usize].as_deref().cloned() {
							if let V::Agg(_, f) = &*v {
								st.heap[o as usize] = Some(Arc::new(V::Cell(b, Arc::new(agg(HUSK + 1, f.to_vec())))));
							}
						}
					}
				}
			}
		}
	}
}
/// few parts, none of them folded yet
fn small(st: &State, exact: usize) -> bool {
	parts(st).map_or(false, |k| k <= exact)
}
/// open elements, finished nodes, attributes, and characters beyond the first of each
fn parts(st: &State) -> Option<usize> {
	fn text(st: &State, t: &[It]) -> usize {
		t.iter().map(|i| match i {
			It::S(s, _) => st.seg(*s).exact().map_or(2, |n| n as usize),
			_ => 1,
		}).sum::<usize>().saturating_sub(1)
	}
	fn node(st: &State, n: &SNode, k: &mut usize) -> bool {
		*k += n.childs.len() + n.content.as_ref().map_or(0, |c| text(st, c)) + n.end_tag.as_ref().map_or(0, |e| 3 * (e.content.iter().filter(|i| !matches!(i, It::S(s, _) if st.seg(*s).max == 0)).count().max(1) - 1));
		n.meta.as_ref().map_or(true, |m| {
			*k += m.attrs.len();
			if m.grp == Grp::Normal {
				*k += 2 * text(st, &m.name);
			}
			m.attrs.iter().all(|a| match a {
				AI::A(a) => {
					*k += a.key.as_ref().map_or(0, |t| text(st, t)) + a.val.as_ref().map_or(0, |t| text(st, t));
					true
				}
				_ => false,
			})
		}) && n.childs.iter().all(|c| match c {
			CI::N(n) => node(st, n, k),
			_ => false,
		})
	}
	let s = spec(st);
	let mut k = s.stack.len() - 1 + st.trail_len() as usize / 4;
	k += match &s.m {
		M::Name(t) | M::Key(t) | M::Val(t, _) | M::Raw(t) => text(st, t),
		M::Block(_, t, l) => text(st, t) + l.len(),
		M::End { text: t, .. } => 3 * text(st, t),
		_ => 0,
	};
	s.stack.iter().all(|n| node(st, n, &mut k)).then_some(k)
}
/// marks a node whose content has been judged and forgotten
pub const HUSK: u32 = 77;
fn husk(l: &Lay, st: &mut State, o: Oid, keep: &HashSet<String>) {
	let Some(V::Cell(b, v)) = st.heap[o as usize].as_deref().cloned() else { return };
	let V::Agg(0, f) = &*v else { return };
	let mut f = f.to_vec();
	for (n, i) in &l.node {
		let name = format!("Node.{}", n);
		if !keep.contains(&name) {
			f[*i] = opq(format!("forgotten {}", name));
		}
	}
	let copy = agg(0, f.clone());
	f.push(copy);
	st.heap[o as usize] = Some(Arc::new(V::Cell(b, Arc::new(agg(HUSK, f)))));
}

#[derive(Clone, Debug)]
pub struct Finding {
	pub props: Vec<&'static str>,
	pub key: String,
	pub text: String,
	pub trail: String,
	pub steps: Vec<String>,
	pub at: String,
}

/// what an exploration is restricted to
#[derive(Clone, Copy)]
pub struct Focus {
	pub name: &'static str,
	/// open elements, the root included
	pub depth: usize,
	/// parse options: 'x' either, '0', '1'
	pub opts: &'static str,
	/// groups of tag names; empty: all
	pub grps: &'static [Grp],
	/// situations; empty: all
	pub modes: &'static str,
	/// so many parts are kept as they are; then (or when 0) judged parts are folded
	pub exact: usize,
	/// product states looked at
	pub share: usize,
	/// of exact explorations: all shapes alike, not the small ones first
	pub fair: bool,
	/// multiplies the work per character
	pub deep: u64,
}
pub const FOCI: &[Focus] = &[
	Focus { name: "raw text inside", depth: 3, opts: "000000", grps: &[Grp::Style, Grp::Textarea, Grp::Normal], modes: "wlnrE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "raw text in svg", depth: 3, opts: "000000", grps: &[Grp::Svg, Grp::Title, Grp::Script], modes: "wlnrE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "everything", depth: 2, opts: "xxxxxx", grps: &[], modes: "", exact: 0, share: 20, fair: false, deep: 1 },
	Focus { name: "CDATA sections", depth: 4, opts: "x00000", grps: &[Grp::Svg, Grp::Normal], modes: "wleDnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "raw text", depth: 2, opts: "x00x00", grps: &[Grp::Script, Grp::Title], modes: "wlnrg", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "nesting", depth: 3, opts: "x00x00", grps: &[Grp::Normal], modes: "wlnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "attributes", depth: 2, opts: "0x0000", grps: &[Grp::Normal, Grp::Void], modes: "wlngas", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "attributes at the end of the input", depth: 2, opts: "011100", grps: &[Grp::Normal, Grp::Void], modes: "wlngas", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "texts and comments", depth: 2, opts: "000000", grps: &[Grp::Normal, Grp::Void], modes: "wtlecn", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "doctypes", depth: 2, opts: "0x0000", grps: &[Grp::Normal], modes: "wtled", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "self-closing", depth: 3, opts: "00x000", grps: &[Grp::Normal, Grp::Void, Grp::Math], modes: "wlnsE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "stray '<'", depth: 2, opts: "000001", grps: &[Grp::Normal], modes: "wtlecnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "stray end tags", depth: 3, opts: "000x10", grps: &[Grp::Normal], modes: "wtlnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "all repairs", depth: 3, opts: "001111", grps: &[Grp::Normal], modes: "wtlnEs", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "texts and CDATA sections", depth: 3, opts: "000000", grps: &[Grp::Svg, Grp::Normal], modes: "wtleDnE", exact: 0, share: 12, fair: false, deep: 1 },
	Focus { name: "raw text and comments", depth: 2, opts: "000000", grps: &[Grp::Style], modes: "wlnrec", exact: 0, share: 4, fair: false, deep: 4 },
	Focus { name: "stray end tags in svg", depth: 4, opts: "000010", grps: &[Grp::Svg, Grp::Normal], modes: "wleDnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "many open elements", depth: 7, opts: "000100", grps: &[Grp::Normal], modes: "wlnE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "svg in svg", depth: 4, opts: "001000", grps: &[Grp::Svg, Grp::Math], modes: "wlensE", exact: 0, share: 4, fair: false, deep: 1 },
	Focus { name: "few attributes", depth: 2, opts: "000000", grps: &[Grp::Normal, Grp::Void], modes: "wlngas", exact: 10, share: 32, fair: false, deep: 1 },
	Focus { name: "more attributes", depth: 2, opts: "000000", grps: &[Grp::Normal, Grp::Void], modes: "wlngas", exact: 16, share: 12, fair: true, deep: 1 },
	Focus { name: "more nodes", depth: 3, opts: "000000", grps: &[Grp::Normal, Grp::Void], modes: "wtlnEec", exact: 16, share: 12, fair: true, deep: 1 },
	Focus { name: "few nodes", depth: 3, opts: "000000", grps: &[Grp::Normal], modes: "wtlnE", exact: 10, share: 32, fair: false, deep: 1 },
	Focus { name: "few blocks", depth: 3, opts: "000000", grps: &[Grp::Normal], modes: "wtlcedE", exact: 10, share: 32, fair: false, deep: 1 },
	Focus { name: "few nodes repaired", depth: 3, opts: "0011x1", grps: &[Grp::Normal], modes: "wtlnsE", exact: 10, share: 32, fair: false, deep: 1 },
];
impl Focus {
	pub fn covers(&self, t: &State) -> bool {
		let s = spec(t);
		let doctype = s.stack.last().map_or(false, |n| n.ty == DOCTYPE);
		let m = match &s.m {
			M::Wait { .. } => 'w',
			M::Text { .. } => 't',
			M::Lt { .. } => 'l',
			M::Excl => 'e',
			M::Detect(Det::Comment, ..) | M::Block(Det::Comment, ..) => 'c',
			M::Detect(Det::Cdata, ..) | M::Block(Det::Cdata, ..) => 'D',
			M::Detect(..) | M::Block(..) | M::DocName(_) => 'd',
			M::Tag(_) | M::Key(_) | M::Val(..) | M::Slash(_) if doctype => 'd',
			M::Name(_) => 'n',
			M::Tag(_) => 'g',
			M::Key(_) | M::Val(..) => 'a',
			M::Slash(_) => 's',
			M::End { .. } => 'E',
			M::Raw(_) => 'r',
			M::Dead(..) | M::Fin => return true,
		};
		(self.modes.is_empty() || self.modes.contains(m)) && (self.grps.is_empty() || s.stack.iter().all(|n| n.meta.as_ref().map_or(true, |m| m.grp == Grp::Doctype || self.grps.contains(&m.grp))))
	}
}

pub struct Explore<'a> {
	pub pg: &'a Prog,
	pub l: Lay,
	pub found: BTreeMap<String, Finding>,
	pub stuck: BTreeMap<String, u64>,
	pub cut: u64,
	pub states: u64,
	pub steps: u64,
	pub ends: BTreeMap<String, u64>,
	pub modes: BTreeMap<String, u64>,
	pub focus: Focus,
	/// remembered places that turned out to be needed
	pub keep: HashSet<String>,
	pub samples: Vec<String>,
	again: bool,
	pub fixpoint: bool,
	since: std::time::Instant,
	pub pool: Arc<Vec<std::sync::Mutex<Prog>>>,
}

/// the value of `parse`
pub enum Got {
	Tree(Oid, V),
	Error(String, V),
	Odd(String),
}
pub fn got(l: &Lay, st: &State, v: &V) -> Got {
	match v {
		V::Agg(0, x) if x.len() == 1 => {
			// DocHolder { doc: Rc<RefCell<Doc>> }
			let mut v = x[0].clone();
			loop {
				v = match &v {
					V::Agg(_, f) if f.len() == 1 => f[0].clone(),
					V::Rc(o) => match st.heap[*o as usize].as_deref() {
						Some(V::Cell(_, d)) => match &**d {
							V::Agg(_, f) => {
								let Some(r) = l.doc.get("root").and_then(|i| f.get(*i)).and_then(rc_of) else { return Got::Odd("no root".into()) };
								return Got::Tree(r, agg(*o, f.to_vec()));
							}
							o => return Got::Odd(short(o)),
						},
						_ => return Got::Odd("document".into()),
					},
					o => return Got::Odd(short(o)),
				}
			}
		}
		V::Agg(1, x) if x.len() == 1 => {
			let mut v = x[0].clone();
			loop {
				v = match &v {
					V::Box(b) => (**b).clone(),
					V::Agg(_, f) => {
						let k = l.perr.get("kind").and_then(|i| f.get(*i));
						let r = l.perr.get("region").and_then(|i| f.get(*i));
						match (k, r) {
							(Some(V::Agg(k, _)), Some(V::Agg(_, r))) => {
								let name = l.errors.get(*k as usize).cloned().unwrap_or("?".into());
								let i = l.region.get("index").and_then(|i| r.get(*i)).cloned().unwrap_or(V::Undef);
								return Got::Error(name, i);
							}
							_ => return Got::Odd(short(&v)),
						}
					}
					o => return Got::Odd(short(o)),
				}
			}
		}
		o => Got::Odd(short(o)),
	}
}

pub fn region_stub(pg: &Prog, _st: &mut State, _f: usize, a: &[V]) -> R<Option<Out>> {
	let l = fields(pg, "position::CodeRegion");
	let mut v = vec![opq("line/column"); l.len()];
	let Some(i) = l.get("index") else { return stuck("CodeRegion.index") };
	v[*i] = a[1].clone();
	Ok(Some(Out::Val(agg(0, v))))
}

impl<'a> Explore<'a> {
	pub fn new(pg: &'a Prog, focus: Focus) -> Explore<'a> {
		Explore {
			pg,
			l: Lay::new(pg),
			found: BTreeMap::new(),
			stuck: BTreeMap::new(),
			cut: 0,
			states: 0,
			steps: 0,
			ends: BTreeMap::new(),
			modes: BTreeMap::new(),
			focus,
			// (only a matter of time: what is missing here is found out)
			keep: ["Node.node_type"].iter().map(|s| s.to_string()).collect(),
			samples: vec![],
			again: false,
			fixpoint: false,
			since: std::time::Instant::now(),
			pool: Arc::new(vec![]),
		}
	}
	pub fn start_state(&self) -> R<State> {
		let pg = self.pg;
		let Some(f) = pg.find("rphtml::parser::Doc::parse") else { return stuck("no Doc::parse") };
		let mut st = State::new(6);
		st.heap.push(None);
		let content = V::RefV(Arc::new(seq(vec![It::S(0, Map::Id)])), false);
		let opts: Vec<V> = self
			.l
			.popts
			.iter()
			.map(|n| match POPTS.iter().position(|p| p == n) {
				Some(i) => V::Opt(i as u32, false),
				None => V::Bool(false),
			})
			.collect();
		let set: Vec<Option<bool>> = self.focus.opts.chars().map(|c| match c { '0' => Some(false), '1' => Some(true), _ => None }).collect();
		for (i, o) in Arc::make_mut(&mut st.opts).iter_mut().enumerate() {
			*o = set[i];
		}
		st.ghost = Box::new(initial());
		start(pg, &mut st, f, vec![content, agg(0, opts)])?;
		Ok(st)
	}
	fn report(&mut self, props: Vec<&'static str>, key: String, text: String, st: &State) {
		if st.lossy {
			*self.stuck.entry(format!("numbers forgotten by a join: {}", key)).or_default() += 1;
			return;
		}
		if let Ok(k) = std::env::var("RPSA_SHOW") {
			if key.contains(&k) {
				let sp = spec(st);
				println!("SHOW {}\n  facts {:?}\n names {:?}\n segs {:?}", st.trail_text(), st.facts, sp.stack.iter().map(|n| n.meta.as_ref().map(|m| m.name.clone())).collect::<Vec<_>>(), st.segs);
			}
		}
		let at = self.pg.where_(st);
		let trail = st.trail_text();
		self.found.entry(key.clone()).or_insert(Finding { props, key, text, trail, steps: st.trail_since(0), at });
	}
	/// judged nodes stay as they are
	fn later(&mut self, st: &State) {
		for o in st.alive() {
			let c = Cmp { st, l: &self.l, root: 0 };
			if let Some(f) = c.touched(o) {
				let mut d = diff(&f, format!("{} of a finished node is changed later", f));
				d.ty = TAG;
				let props = tree_props(&d);
				self.report(props, format!("{} of a finished node", f), d.what, st);
			}
		}
	}
	/// something that was forgotten is needed after all
	fn needs(&mut self, m: &str) {
		if let Some(i) = m.find("forgotten ") {
			let n: String = m[i + 10..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.').collect();
			if self.keep.insert(n) {
				self.again = true;
			}
		}
	}
	pub fn judge(&mut self, e: End, st: &State) {
		let s = spec(st);
		let was = s.was.clone();
		if matches!(e, End::Done(_)) && (self.samples.len() < 4 || self.states % 400 == 7 && self.samples.len() < 12) {
			self.samples.push(st.trail_text());
		}
		if let (End::Done(_), Some(c)) = (&e, crate::effects::owning_cycle(st)) {
			self.report(vec!["C17"], format!("cycle of owning references ({})", was), format!("{}: the objects {:?} own each other", was, c), st);
		}
		match e {
			End::Source => {}
			End::Panic(m) => {
				*self.ends.entry("panic".into()).or_default() += 1;
				let f = self.pg.where_fn(st);
				self.report(vec!["C01"], format!("panic in {}: {}", f, m), format!("panic {} ({})", m, was), st);
			}
			End::Stuck(m) => {
				self.needs(&m);
				*self.stuck.entry(format!("{} in {}", m, self.pg.where_fn(st))).or_default() += 1;
			}
			End::Done(v) => match (got(&self.l, st, &v), &s.m) {
				(Got::Odd(m), _) => {
					*self.stuck.entry(format!("result {}", m)).or_default() += 1;
				}
				(Got::Error(k, at), M::Dead(w, p)) => {
					*self.ends.entry(format!("error {}", w)).or_default() += 1;
					if k != *w {
						if k == "UnclosedTag" && was.contains("after an error") {
							// the parser read on to the end of the input: it did accept the construct
							let props = gate_props(&was, w, st);
							self.report(props, format!("reads on instead of {} ({})", w, was), format!("{}: goes on to the end of the input, expected the error {}", was, w), st);
						}
						self.report(vec!["C18"], format!("kind {} for {} ({})", k, w, was), format!("{}: error {}, expected {}", was, k, w), st);
					} else if let Some(p) = p {
						let c = Cmp { st, l: &self.l, root: 0 };
						if let Err(d) = c.int("position", &at, p) {
							if d.unclear {
								self.needs(&d.what);
								*self.stuck.entry(d.what).or_default() += 1;
							} else {
								self.report(vec!["C18"], format!("position of {} ({})", w, was), format!("{}: {}: {}", was, w, d.what), st);
							}
						}
					}
				}
				(Got::Error(k, _), _) => {
					let props = gate_props(&was, &k, st);
					self.report(props, format!("rejects with {} ({})", k, was), format!("{}: rejected with {}, though the input is acceptable", was, k), st);
				}
				(Got::Tree(..), M::Dead(w, _)) => {
					let props = gate_props(&was, w, st);
					self.report(props, format!("accepts instead of {} ({})", w, was), format!("{}: accepted, expected the error {}", was, w), st);
				}
				(Got::Tree(r, doc), M::Fin) => {
					self.later(st);
					*self.ends.entry("tree".into()).or_default() += 1;
					let c = Cmp { st, l: &self.l, root: r };
					let mut d = c.deep(&s.stack[0], r, None, &Lin::k(0));
					if d.is_ok() {
						// the root knows the document
						if let (Some(n), Some(i), V::Agg(doc_oid, f)) = (c.obj(r), self.l.node.get("document"), &doc) {
							match &n[*i] {
								V::Agg(1, x) if x[0] == V::Weak(*doc_oid) => {}
								o => d = Err(diff("document", format!("document of the root: {}", short(o)))),
							}
							if d.is_ok() {
								if let Some(ids) = self.l.doc.get("id_tags").and_then(|i| f.get(*i)).and_then(rc_of) {
									if let Some(V::Cell(_, m)) = st.heap[ids as usize].as_deref() {
										if let V::Map(ops) = &**m {
											let (i, j) = ids_match(&self.l, st, r, &[r], ops);
											if i != s.ids.len() || j != ops.len() {
												d = Err(diff("id_tags", format!("id_tags: {:?}, expected {:?}", ops, s.ids)));
											}
										}
									}
								}
							}
						}
					}
					if let Err(d) = d {
						if d.unclear {
							self.needs(&d.what);
							*self.stuck.entry(format!("unclear {}", d.what)).or_default() += 1;
						} else {
							let props = tree_props(&d);
							let ty = NODE_TYPES[d.ty as usize];
							self.report(props, format!("{} of {}{}", d.field, ty, if d.fixed { " (repaired)" } else { "" }), format!("{}: {}", ty, d.what), st);
						}
					}
				}
				(Got::Tree(..), _) => {
					self.report(vec!["C06", "C03"], "stops before the end of the input".into(), format!("{}: returns before the end of the input", was), st);
				}
			},
		}
	}
	pub fn explore(&mut self, limit: usize) {
		loop {
			self.again = false;
			self.explore_(limit);
			if !self.again {
				return;
			}
			if std::env::var("RPSA_TIME").is_ok() {
				eprintln!("{} again at {} with {:?}", self.focus.name, self.states, self.keep);
			}
			let n = Explore::new(self.pg, self.focus);
			let keep = std::mem::take(&mut self.keep);
			*self = Explore { keep, pool: self.pool.clone(), since: self.since, ..n };
		}
	}
	fn explore_(&mut self, limit: usize) {
		let mut table = Table::default();
		let mut bucket: BTreeMap<String, (u64, std::collections::VecDeque<(usize, usize)>)> = BTreeMap::new();
		let mut first = match self.start_state() {
			Ok(s) => s,
			Err(_) => {
				*self.stuck.entry("no entry point".into()).or_default() += 1;
				return;
			}
		};
		first.note("START");
		let mut budget = 2_000_000;
		let mut out = vec![];
		run(self.pg, first, &mut out, &mut budget);
		let out = out.into_iter().map(|(e, s)| ready(self.pg, &self.l, &self.keep, self.focus.exact, e, s)).collect();
		self.take(out, &mut table);
		loop {
			let mut batch = vec![];
			while batch.len() < if self.pool.is_empty() { 1 } else { 96 } && (self.states as usize) < limit && self.since.elapsed().as_secs() < max_time(limit) {
				for (i, j) in std::mem::take(&mut table.queue) {
					let st = &table.slots[i][j].st;
					let sh = if self.focus.exact == 0 && suspicious(st) {
						format!("! {}", shape(st))
					} else {
						if self.focus.exact == 0 {
							shape(st)
						} else {
							// small documents first
							format!("{:03} {}", parts(st).unwrap_or(999), fine(st))
						}
					};
					let b = bucket.entry(sh).or_default();
					b.1.push_back((i, j));
				}
				// what was looked at least often goes first
				let Some((_, b)) = bucket.iter_mut().filter(|b| !b.1 .1.is_empty()).min_by_key(|b| if self.focus.exact > 0 && !self.focus.fair { (b.0[..3].to_string(), b.1 .0) } else if b.0.starts_with('!') { (String::new(), b.1 .0 / 30) } else { (String::new(), b.1 .0) }) else { break };
				b.0 += 1;
				let at = b.1.pop_front().unwrap();
				let st = table.get(at);
				self.states += 1;
				*self.modes.entry(st.name_of_mode().to_string()).or_default() += 1;
				batch.push(st);
			}
			if batch.is_empty() {
				break;
			}
			let (l, keep, focus) = (&self.l, &self.keep, &self.focus);
			let done = if self.pool.is_empty() {
				batch.into_iter().map(|st| work(self.pg, l, keep, focus, st)).collect()
			} else {
				parallel(&self.pool, batch, |pg, st| work(pg, l, keep, focus, st))
			};
			for (steps, cut, out) in done {
				self.steps += steps;
				self.cut += cut;
				self.take(out, &mut table);
				if self.again {
					return;
				}
			}
		}
		self.cut += table.dropped;
		if self.focus.exact > 0 && std::env::var("RPSA_TIME").is_ok() {
			let mut by: BTreeMap<&str, (u64, usize, usize)> = BTreeMap::new();
			for (k, b) in &bucket {
				let e = by.entry(&k[..3]).or_default();
				e.0 += b.0;
				e.1 += b.1.len();
				e.2 += 1;
			}
			eprintln!("{} by size: {:?}", self.focus.name, by);
		}
		self.fixpoint = table.dropped == 0 && table.queue.is_empty() && bucket.values().all(|b| b.1.is_empty());
		if !self.fixpoint {
			self.show_table(&table);
		}
	}
	fn show_table(&self, table: &Table) {
		if std::env::var("RPSA_TABLE").is_err() {
			return;
		}
		let mut by: BTreeMap<String, (usize, usize, u32)> = BTreeMap::new();
		for s in &table.slots {
			let e = by.entry(s[0].st.name_of_mode().to_string()).or_default();
			e.0 += 1;
			e.1 += s.len();
			e.2 += s.iter().map(|e| e.visits).sum::<u32>();
		}
		println!("slots {} entries {} {:?}", table.slots.len(), table.len(), by);
		let Ok(m) = std::env::var("RPSA_MODE") else { return };
		for s in table.slots.iter().filter(|s| s[0].st.name_of_mode() == m).take(2000) {
			println!("== {} entries", s.len());
			let st = &s[0].st;
			let sp = spec(st);
			let stack: Vec<String> = sp.stack.iter().map(|n| format!("{}:{:?}:{:?}:{}:{}", n.ty, n.meta.as_ref().map(|m| (m.grp, m.name.len(), m.attrs.len())), n.content.as_ref().map(|c| c.len()), n.fixed, n.childs.iter().map(|c| match c { CI::Many(_) => "*".to_string(), CI::Done => "D".into(), CI::N(n) => format!("N{}{}", n.ty, n.fixed) }).collect::<String>())).collect();
			println!("B {:?} sp{:?} pend{} ids{} any{} {:?}", sp.m, sp.special, sp.pending, sp.ids.len(), sp.any_id, stack);
			println!("S {:?}", st.segs.iter().map(|g| format!("{}{}-{}", if g.chars { "" } else { "#" }, g.min, if g.max == INF { -1 } else { g.max as i64 })).collect::<Vec<_>>());
			println!("L {}", show_state(st).replace("Agg(0, [])", "None").replace("Int(Lin", "I(").replace("forgotten ", ""));
			println!("F {:?}", st.facts);
			println!("T {}", st.trail_text());
		}
	}
	fn take(&mut self, out: Vec<(End, State, Option<Vec<u64>>)>, table: &mut Table) {
		for (e, s, k) in out {
			match k {
				Some(k) => {
					self.later(&s);
					table.add(k, s, 12);
				}
				None => self.judge(e, &s),
			}
		}
	}
	/// Joins lose relations: a finding counts when it is found again on a path of its own.
	/// Follows the trail of the finding without any join, with small changes to it
	/// (steps repeated, added, left out).
	pub fn confirm(&mut self, key: &str, limit: usize) -> Option<Finding> {
		let f = self.found.get(key)?.clone();
		let marks: Vec<String> = f.steps.clone();
		let mut first = self.start_state().ok()?;
		first.note("START");
		let mut out = vec![];
		let mut budget = 200_000;
		run_(self.pg, first, &mut out, &mut budget, Way::Paths);
		// (edits, steps repeated, steps left, number) -> state, the step that was inserted last
		let mut heap: BTreeMap<(usize, usize, usize, u64), (State, Option<String>)> = BTreeMap::new();
		let mut seen: HashMap<(u64, usize, Option<String>), (usize, usize)> = HashMap::new();
		let mut n = 0u64;
		let from = 1;
		for (e, s) in out {
			let (e, s, _) = ready(self.pg, &self.l, &self.keep, self.focus.exact, e, s);
			if let End::Source = e {
				heap.insert((0, 0, marks.len() - from, n), (s, None));
				n += 1;
			}
		}
		let mut tried = 0;
		let (found, again) = (std::mem::take(&mut self.found), self.again);
		let counts = (self.ends.clone(), self.stuck.clone(), self.samples.clone());
		let mut hit = None;
		let t0 = std::time::Instant::now();
		while tried < limit && hit.is_none() && t0.elapsed().as_secs() < 30 {
			let mut batch = vec![];
			while batch.len() < 64 {
				// (fewest changes first)
				if !batch.is_empty() && heap.first_key_value().map(|h| h.0 .0) != batch.first().map(|b: &((usize, usize, usize, u64), (State, Option<String>))| b.0 .0) {
					break;
				}
				let Some((k, v)) = heap.pop_first() else { break };
				if std::env::var("RPSA_CONF").is_ok() {
					println!("C {:?} {}", k, v.0.trail_text());
				}
				batch.push((k, v));
			}
			if batch.is_empty() {
				break;
			}
			let marks = &marks;
			let (l, keep, exact) = (&self.l, &self.keep, self.focus.exact);
			let done = parallel(&self.pool, batch, |pg, ((edits, reps, left, _), (st, ins))| {
				let i = marks.len() - left;
				let mut res = vec![];
				let mut next = vec![];
				if !matches!(spec(&st).m, M::Dead(..)) {
					next = step(&st);
				}
				next.extend(finish(&st));
				let base = st.trail_len();
				for t in next {
					let notes = t.trail_since(base);
					let label = notes.join(" ");
					let end = notes.iter().any(|n| n == "EOF");
					let fits = i + notes.len() <= marks.len() && notes[..] == marks[i..i + notes.len()];
					let mut ways = vec![];
					if fits {
						ways.push((edits, reps, left - notes.len(), None));
					}
					if !end || left == 0 && !fits {
						// the last step again
						let again = i > 0 && notes.len() == 1 && notes[0] == marks[i - 1] || ins.as_deref() == Some(label.as_str());
						if again {
							if reps < 14 {
								ways.push((edits, reps + 1, left, ins.clone()));
							}
						} else if edits < 3 {
							// an added step
							ways.push((edits + 1, reps, left, Some(label.clone())));
						}
						// instead of the step of the trail
						if !fits && edits < 2 && left > 0 {
							ways.push((edits + 1, reps, left - 1, None));
						}
					}
					if ways.is_empty() {
						continue;
					}
					let mut out = vec![];
					let mut budget = 4_000;
					run_(pg, t, &mut out, &mut budget, Way::Paths);
					for (e, s) in out {
						let (e, s, k) = ready(pg, l, keep, exact, e, s);
						res.push((ways.clone(), k, e, s));
					}
				}
				res
			});
			for res in done {
				tried += 1;
				for (ways, k, e, s) in res {
					if let End::Source = e {
						self.later(&s);
						if let Some(f) = self.found.remove(key) {
							hit = Some(f);
							break;
						}
						let k = fingerprint(k.unwrap_or_default(), &s);
						for (c, r, left, ins) in ways {
							let best = seen.entry((k, left, ins.clone())).or_insert((usize::MAX, 0));
							if *best <= (c, r) {
								continue;
							}
							*best = (c, r);
							n += 1;
							heap.insert((c, r, left, n), (s.clone(), ins));
						}
						continue;
					}
					self.judge(e, &s);
					if let Some(f) = self.found.remove(key) {
						hit = Some(f);
						break;
					}
				}
			}
			while heap.len() > 100_000 {
				heap.pop_last();
			}
		}
		self.found = found;
		self.again = again;
		self.ends = counts.0;
		self.stuck = counts.1;
		self.samples = counts.2;
		if let Some(h) = &hit {
			self.found.insert(key.to_string(), h.clone());
		}
		hit
	}
	/// The same for findings that need a long run of characters: one step of the trail is repeated
	/// as often as a bound in the code says.
	pub fn confirm_long(&mut self, key: &str, bounds: &[usize]) -> Option<Finding> {
		let marks = self.found.get(key)?.steps.clone();
		let (found, again) = (std::mem::take(&mut self.found), self.again);
		let counts = (self.ends.clone(), self.stuck.clone(), self.samples.clone());
		let hit = self.unrolled(key, &marks, bounds);
		self.found = found;
		self.again = again;
		self.ends = counts.0;
		self.stuck = counts.1;
		self.samples = counts.2;
		if let Some(h) = &hit {
			self.found.insert(key.to_string(), h.clone());
		}
		hit
	}
	fn unrolled(&mut self, key: &str, marks: &[String], bounds: &[usize]) -> Option<Finding> {
		let t0 = std::time::Instant::now();
		for &bound in bounds {
			let mut first = self.start_state().ok()?;
			first.note("START");
			let mut out = vec![];
			let mut budget = 200_000;
			run_(self.pg, first, &mut out, &mut budget, Way::Paths);
			// state, steps of the trail, run done, steps added
			let mut todo: Vec<(State, usize, bool, usize)> = vec![];
			for (e, s) in out {
				let (e, s, _) = ready(self.pg, &self.l, &self.keep, self.focus.exact, e, s);
				if let End::Source = e {
					todo.push((s, 1, false, 0));
				}
			}
			while let Some((st, i, done, more)) = todo.pop() {
				if t0.elapsed().as_secs() > 20 {
					return None;
				}
				let mut next: Vec<(State, usize, usize)> = vec![];
				for (t, notes) in self.moves(&st) {
					if i + notes.len() <= marks.len() && notes[..] == marks[i..i + notes.len()] {
						next.push((t, i + notes.len(), more));
					} else if !done && more < 1 && notes.len() == 1 && notes[0] != "EOF" {
						next.insert(0, (t, i, more + 1));
					} else if done && notes.iter().any(|n| n == "EOF") {
						next.push((t, marks.len(), more));
					}
				}
				for (t, i, more) in next {
					for s in self.on(t, key) {
						match s {
							Err(f) => return Some(f),
							Ok(s) => todo.push((s, i, done, more)),
						}
					}
				}
				if done || i < 2 {
					continue;
				}
				// a run of one step
				let mut labels: Vec<Vec<String>> = self.moves(&st).into_iter().map(|m| m.1).filter(|n| n.len() == 1 && n[0] != "EOF").collect();
				labels.sort_by_key(|l| l[..] != marks[i - 1..i]);
				labels.dedup();
				for label in &labels {
					let mut cur = vec![st.clone()];
					for n in 0..bound + 2 {
						let mut to = vec![];
						for st in &cur {
							for (t, notes) in self.moves(st) {
								if notes == *label {
									for s in self.on(t, key) {
										match s {
											Err(f) => return Some(f),
											Ok(s) => to.push(s),
										}
									}
								}
							}
						}
						// (only what stays in one situation)
						if n > 0 {
							to.retain(|s| s.name_of_mode() == cur[0].name_of_mode() && !matches!(spec(s).m, M::Wait { .. } | M::Dead(..)));
						}
						// (runs of one kind)
						if to.len() > 2 {
							let l = to.pop().unwrap();
							to.truncate(1);
							to.push(l);
						}
						cur = to;
						if cur.is_empty() {
							break;
						}
						if n % 16 == 0 && t0.elapsed().as_secs() > 20 {
							return None;
						}
					}
					todo.extend(cur.into_iter().map(|s| (s, i, true, more)));
				}
			}
		}
		None
	}
	fn moves(&self, st: &State) -> Vec<(State, Vec<String>)> {
		let mut next = vec![];
		if !matches!(spec(st).m, M::Dead(..)) {
			next = step(st);
		}
		next.extend(finish(st));
		let base = st.trail_len();
		next.into_iter().map(|t| { let n = t.trail_since(base); (t, n) }).collect()
	}
	fn on(&mut self, t: State, key: &str) -> Vec<Result<State, Finding>> {
		let mut out = vec![];
		let mut budget = 300_000;
		run_(self.pg, t, &mut out, &mut budget, Way::Paths);
		let mut res = vec![];
		for (e, s) in out {
			let (e, s, _) = ready(self.pg, &self.l, &self.keep, self.focus.exact, e, s);
			if let End::Source = e {
				self.later(&s);
				res.push(Ok(s));
			} else {
				self.judge(e, &s);
			}
			if let Some(f) = self.found.remove(key) {
				return vec![Err(f)];
			}
		}
		res
	}
}

/// numbers in the code that may bound a length
pub fn bounds(pg: &Prog, least: i128) -> Vec<usize> {
	let mut res = std::collections::BTreeSet::new();
	let mut add = |o: &crate::ir::Opnd| {
		if let crate::ir::Opnd::Const(c) = o {
			if let (crate::ir::CV::Int(n), crate::ir::TyKind::Int { signed: false, bits: 64 }) = (&c.v, &pg.ir.tys[c.ty].kind) {
				if (least..=2100).contains(n) {
					res.insert(*n as usize);
				}
			}
		}
	};
	for f in pg.ir.fns.iter().filter(|f| f.local && !f.name.contains("__static_ref") && !f.name.contains("::fmt::")) {
		let Some(b) = &f.body else { continue };
		for b in &b.blocks {
			for (s, _) in &b.stmts {
				if let crate::ir::Stmt::Assign(_, r) = s {
					match r {
						crate::ir::Rv::Use(a) => add(a),
						crate::ir::Rv::Bin(_, crate::ir::Opnd::Const(_), crate::ir::Opnd::Const(_)) => {}
						crate::ir::Rv::Bin(_, a, b) | crate::ir::Rv::Checked(_, a, b) => {
							add(a);
							add(b);
						}
						_ => {}
					}
				}
			}
			if let crate::ir::Term::Call { f: crate::ir::Callee::Fn(g), args, .. } = &b.term {
				let g = &pg.ir.fns[*g].path;
				if !["with_capacity", "reserve", "alloc", "uninit"].iter().any(|w| g.contains(w)) {
					args.iter().for_each(&mut add);
				}
			}
		}
	}
	res.into_iter().collect()
}

/// Some finished node is not as expected (yet). Such a state is only led to the end of the input,
/// where it counts; going on with other constructs gives nothing new.
fn suspicious(st: &State) -> bool {
	let s = spec(st);
	let k = s.stack.len();
	s.stack.iter().enumerate().any(|(i, n)| {
		n.childs.iter().enumerate().any(|(j, c)| match c {
			CI::N(x) => {
				let last = i + 1 == k && j + 1 == n.childs.len();
				if last {
					!matches!(x.ty, TEXT | SPACES) && matches!(s.m, M::Wait { .. } | M::Text { .. } | M::Lt { .. } | M::End { .. } | M::Name(..))
				} else {
					true
				}
			}
			_ => false,
		})
	})
}
/// a canonical state with all its numbers
fn fingerprint(key: Vec<u64>, st: &State) -> u64 {
	use std::hash::{Hash, Hasher};
	let mut h = std::collections::hash_map::DefaultHasher::new();
	key.hash(&mut h);
	for g in st.segs.iter() {
		format!("{:?}{}{}{}", g.set, g.min, g.max, g.chars).hash(&mut h);
	}
	format!("{:?}{:?}{:?}", lins_of(st), st.facts, st.opts).hash(&mut h);
	h.finish()
}
/// where a state is, roughly
fn shape(st: &State) -> String {
	let s = spec(st);
	let m = match &s.m {
		M::Wait { cur } => format!("wait{}", cur),
		M::Text { ws } => format!("text{}", ws),
		M::Lt { .. } => "lt".into(),
		M::Excl => "excl".into(),
		M::Detect(d, k, _) => format!("detect{:?}{}", d, k),
		M::Name(n) => format!("name{}", n.len().min(4)),
		M::DocName(_) => "docname".into(),
		M::Tag(s) => format!("tag{:?}", s),
		M::Slash(s) => format!("slash{:?}", s),
		M::Key(_) => "key".into(),
		M::Val(_, q) => format!("val{}", q.is_some()),
		M::End { .. } => "end".into(),
		M::Raw(_) => "raw".into(),
		M::Block(d, _, l) => format!("block{:?}{}{}", d, l.len(), l.iter().filter(|x| x.1).count()),
		M::Dead(w, _) => w.to_string(),
		M::Fin => "fin".into(),
	};
	let stack: Vec<String> = s.stack.iter().map(|n| format!("{}{:?}{}", n.ty, n.meta.as_ref().map(|m| m.grp), n.childs.len().min(2))).collect();
	format!("{} {}", m, stack.join(" "))
}
/// the same with the parts
fn fine(st: &State) -> String {
	fn node(n: &SNode) -> String {
		format!("{}{:?}({})", n.ty, n.meta.as_ref().map(|m| m.attrs.len()), n.childs.iter().map(|c| if let CI::N(n) = c { node(n) } else { "*".into() }).collect::<String>())
	}
	format!("{} {}", shape(st), spec(st).stack.iter().map(node).collect::<String>())
}
type Ready = (End, State, Option<Vec<u64>>);
fn ready(pg: &Prog, l: &Lay, keep: &HashSet<String>, exact: usize, e: End, mut s: State) -> Ready {
	if let End::Source = e {
		fold(pg, l, &mut s, keep, exact);
		let mut k = canon(pg, &mut s, true);
		if exact > 0 {
			// only the sets of the characters are joined
			for g in s.segs.iter() {
				k.extend([g.min as u64, g.max as u64, g.chars as u64]);
			}
			use std::hash::{Hash, Hasher};
			let mut h = std::collections::hash_map::DefaultHasher::new();
			format!("{:?}{:?}", lins_of(&s), s.opts).hash(&mut h);
			k.push(h.finish());
		}
		return (e, s, Some(k));
	}
	(e, s, None)
}
fn work(pg: &Prog, l: &Lay, keep: &HashSet<String>, focus: &Focus, st: State) -> (u64, u64, Vec<Ready>) {
	let (mut steps, mut cut, mut res) = (0, 0, vec![]);
	// (what was begun is finished)
	let closing = focus.exact == 0 && suspicious(&st) && matches!(spec(&st).m, M::Wait { .. } | M::Text { .. } | M::Lt { .. } | M::End { .. });
	let mut next = vec![];
	if !matches!(spec(&st).m, M::Dead(..)) {
		next = step(&st);
	}
	next.extend(finish(&st));
	let base = st.trail_len();
	for t in next {
		if !focus.covers(&t) {
			continue;
		}
		if closing && !matches!(spec(&t).m, M::Wait { .. } | M::Text { .. } | M::Lt { .. } | M::End { .. } | M::Dead(..) | M::Fin) {
			continue;
		}
		if focus.exact > 0 && t.trail_since(base).iter().any(|n| n == "end-tag:Case") {
			continue;
		}
		if spec(&t).stack.len() > focus.depth || focus.exact > 0 && !small(&t, focus.exact) {
			cut += 1;
			continue;
		}
		steps += 1;
		let mut out = vec![];
		let mut budget = budget_(focus);
		run(pg, t, &mut out, &mut budget);
		res.extend(out.into_iter().map(|(e, s)| ready(pg, l, keep, focus.exact, e, s)));
	}
	(steps, cut, res)
}
/// the explorations, side by side
pub fn explore_all(pg: &Prog, limit: usize, more: usize) -> (Vec<Explore<'_>>, Arc<Vec<std::sync::Mutex<Prog>>>) {
	let pool = Arc::new(pool(pg));
	let only = std::env::var("RPSA_FOCUS").unwrap_or_default();
	let jobs: Vec<Focus> = FOCI.iter().filter(|f| only.is_empty() || f.name == only).map(|f| Focus { depth: if f.exact == 0 { f.depth + more } else { f.depth }, exact: if f.exact > 0 { f.exact + 4 * more } else { 0 }, deep: f.deep + 7 * more as u64, ..*f }).collect();
	let done = parallel(&pool, jobs, |p, f| {
		let mut e = Explore::new(p, f);
		let t0 = std::time::Instant::now();
		e.explore(limit * f.share / 4);
		if std::env::var("RPSA_TIME").is_ok() {
			eprintln!("{} {:?}", f.name, t0.elapsed());
		}
		let Explore { found, stuck, cut, states, steps, ends, modes, keep, samples, fixpoint, .. } = e;
		(f, found, stuck, cut, states, steps, ends, modes, keep, samples, fixpoint)
	});
	let v = done
		.into_iter()
		.map(|(f, found, stuck, cut, states, steps, ends, modes, keep, samples, fixpoint)| Explore { found, stuck, cut, states, steps, ends, modes, keep, samples, fixpoint, pool: pool.clone(), ..Explore::new(pg, f) })
		.collect();
	(v, pool)
}
/// the same program for every thread
pub fn pool(pg: &Prog) -> Vec<std::sync::Mutex<Prog>> {
	let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
	(0..n)
		.map(|_| {
			let p = Prog::new(pg.ir.clone());
			*p.intercept.borrow_mut() = pg.intercept.borrow().clone();
			std::sync::Mutex::new(p)
		})
		.collect()
}
/// results in the order of the work
pub fn parallel<T: Send, U: Send>(pool: &[std::sync::Mutex<Prog>], jobs: Vec<T>, f: impl Fn(&Prog, T) -> U + Sync) -> Vec<U> {
	let n = jobs.len();
	let jobs: Vec<std::sync::Mutex<Option<T>>> = jobs.into_iter().map(|j| std::sync::Mutex::new(Some(j))).collect();
	let res: Vec<std::sync::Mutex<Option<U>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
	let at = std::sync::atomic::AtomicUsize::new(0);
	std::thread::scope(|s| {
		for p in pool.iter().take(n) {
			let (jobs, res, at, f) = (&jobs, &res, &at, &f);
			std::thread::Builder::new()
				.stack_size(256 << 20)
				.spawn_scoped(s, move || {
					let pg = p.lock().unwrap();
					loop {
						let i = at.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
						if i >= jobs.len() {
							break;
						}
						let j = jobs[i].lock().unwrap().take().unwrap();
						let r = f(&pg, j);
						*res[i].lock().unwrap() = Some(r);
					}
				})
				.unwrap();
		}
	});
	res.into_iter().map(|r| r.into_inner().unwrap().unwrap()).collect()
}

/// properties broken by accepting or rejecting against the language
fn gate_props(was: &str, kind: &str, st: &State) -> Vec<&'static str> {
	let mut v = vec!["C06"];
	let m = was.trim_end_matches(", end of input");
	match m {
		"raw text" => v.push("C07"),
		"comment" | "CDATA section" | "after '<!'" | "opening of a comment" | "opening of a doctype" | "opening of a CDATA section" | "after 'doctype'" | "inside a doctype" => v.push("C08"),
		"attribute name" | "attribute value" | "inside a tag" | "after '/' in a tag" => v.push("C09"),
		"end tag" | "after '<'" | "tag name" => v.push("C05"),
		_ => {}
	}
	if kind == "UnclosedTag" || kind == "WrongEndTag" || kind == "WrongCaseSensitive" || kind == "WrongSelfClosing" {
		v.push("C05");
	}
	// the construct that led there
	for n in st.trail_since(0) {
		if n.starts_with("raw-end") {
			v.push("C07");
		} else if n == "[!]" {
			v.push("C08");
		}
	}
	if [FIXUNCLOSED, FIXEND, FIXLT].iter().any(|o| st.opts[*o as usize] == Some(true)) {
		v.push("C21");
	}
	v.sort();
	v.dedup();
	v
}
/// properties broken by a difference of the tree
fn tree_props(d: &Diff) -> Vec<&'static str> {
	let mut v: Vec<&'static str> = match d.field.as_str() {
		"content" => match d.ty {
			COMMENT | CDATA => vec!["C03", "C08"],
			TAG => vec!["C03", "C07"],
			_ => vec!["C03"],
		},
		"node_type" => vec!["C26", "C03"],
		"name" => vec!["C03", "C05"],
		"is_void" | "self_closed" => vec!["C05"],
		"auto_fix" => vec!["C21"],
		"end tag" => vec!["C05", "C03"],
		"end tag content" => vec!["C03", "C05"],
		"end tag parent" | "parent" | "root" | "index" | "document" => vec!["C04"],
		"childs" => vec!["C05", "C03"],
		"attribute key" | "attribute value" | "attribute quote" | "attributes" => vec!["C03", "C09"],
		"attribute need_quote" => vec!["C09"],
		"attribute lc_name_map" => vec!["C24"],
		"id_tags" => vec!["C24"],
		"begin_at" | "end_at" | "end tag begin_at" | "end tag end_at" => vec!["C25"],
		_ => vec!["C03"],
	};
	if d.ty == DOCTYPE && matches!(d.field.as_str(), "attribute key" | "attribute value" | "attribute quote" | "attributes" | "name" | "is_void" | "childs") {
		v.push("C08");
	}
	if d.fixed && !v.contains(&"C21") {
		v.push("C21");
	}
	v
}

/// everything the program holds, for debugging
pub fn show_state(st: &State) -> String {
	let mut s = String::new();
	for f in &st.frames {
		s += &format!("[{} bb{}: ", f.f, f.bb);
		for (i, l) in f.locals.iter().enumerate() {
			if !l.is_undef() {
				s += &format!("_{}={:?}; ", i, l);
			}
		}
		s += "]";
	}
	for (i, h) in st.heap.iter().enumerate() {
		if let Some(h) = h {
			s += &format!(" #{}={:?}", i, h);
		}
	}
	s
}
/// a program that is hard to follow is not followed for ever (seconds)
fn max_time(limit: usize) -> u64 {
	60 + limit as u64 / 40
}
/// blocks interpreted for one character
fn budget_(f: &Focus) -> u64 {
	// (the end of a raw text is looked for backwards)
	let n = if f.name == "raw text" { 3000 } else { 1000 };
	std::env::var("RPSA_B").ok().and_then(|s| s.parse().ok()).unwrap_or(n * f.deep)
}
