//! Cloning, queries and hand-made parts on symbolic trees.
use crate::canon::*;
use crate::check::*;
use crate::cs::CS;
use crate::exec::*;
use crate::render::*;
use crate::simple::*;
use crate::val::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Arc;

type Wrong = (Vec<&'static str>, String);
/// all ends of a call, each judged on every refinement the judge asks for
pub fn judge(pg: &Prog, label: &str, f: usize, st: State, args: Vec<V>, keep: Vec<V>, way: Way, r: &mut Report, mut ok: impl FnMut(&State, &End) -> R<Option<Wrong>>) -> u64 {
	let mut st = st;
	st.ghost = Box::new(Keep { v: keep, tag: vec![] });
	let mut out = vec![];
	if start(pg, &mut st, f, args).is_err() {
		r.note_open(format!("{}: other arguments", label));
		return 0;
	}
	let mut b = 60_000;
	run_(pg, st, &mut out, &mut b, way);
	let mut seen: HashSet<String> = HashSet::new();
	let mut decided = 0;
	for (e, st) in out {
		r.obligations += 1;
		let mut work = vec![st];
		let mut n = 0;
		while let Some(st) = work.pop() {
			n += 1;
			if n > 200 {
				r.note_open(format!("{}: too many cases", label));
				break;
			}
			let res = match &e {
				End::Stuck(m) => stuck(m.clone()),
				End::Source => Ok(None),
				_ => ok(&st, &e),
			};
			match res {
				Ok(None) => decided += 1,
				Ok(Some((props, m))) => {
					if !st.clone().consistent() {
						continue;
					}
					let key = format!("{}: {}", label, m.split(';').next().unwrap_or(""));
					if seen.insert(key.clone()) {
						r.findings.push(finding(props, key, format!("{}: {}", label, m), pg.ir.fns[f].path.clone(), opts_of(&st)));
					}
				}
				Err(Stop::Split(rs)) => {
					for x in rs {
						let mut s = st.clone();
						if s.refine(&x) {
							work.push(s);
						}
					}
				}
				Err(Stop::Stuck(m)) => r.note_open(format!("{}: {}", label, m)),
				Err(_) => {}
			}
		}
	}
	decided
}
fn opts_of(st: &State) -> String {
	st.opts.iter().enumerate().filter_map(|(i, o)| o.map(|o| format!("{}flag {}", if o { "" } else { "!" }, i))).collect::<Vec<_>>().join(" ")
}

/// the fields of a node in the heap
struct Nd<'a> {
	pg: &'a Prog,
	st: &'a State,
	v: &'a [V],
}
impl<'a> Nd<'a> {
	fn of(pg: &'a Prog, st: &'a State, o: Oid) -> R<Nd<'a>> {
		match st.heap[o as usize].as_deref() {
			Some(V::Cell(_, n)) => match &**n {
				V::Agg(0, v) => Ok(Nd { pg, st, v }),
				_ => stuck("node"),
			},
			_ => stuck("no node"),
		}
	}
	fn get(&self, f: &str) -> R<&'a V> {
		match fields(self.pg, "Node").get(f) {
			Some(i) => Ok(&self.v[*i]),
			None => stuck(format!("no field {}", f)),
		}
	}
}
fn list(v: &V) -> R<Option<Vec<Oid>>> {
	Ok(match v {
		V::Agg(0, _) => None,
		V::Agg(1, x) => {
			let mut out = vec![];
			for i in x[0].items() {
				match i {
					It::V(V::Rc(o)) => out.push(o),
					_ => return stuck("list of nodes"),
				}
			}
			Some(out)
		}
		_ => return stuck("list of nodes"),
	})
}
fn link(v: &V) -> R<Option<Oid>> {
	Ok(match v {
		V::Agg(0, _) => None,
		V::Agg(1, x) => match &x[0] {
			V::Rc(o) | V::Weak(o) => Some(*o),
			_ => return stuck("link"),
		},
		_ => return stuck("link"),
	})
}
/// compares a clone with its original; what differs
#[allow(clippy::too_many_arguments)]
fn cloned(pg: &Prog, st: &State, o: Oid, c: Oid, nodes: usize, base: &V, parent: Option<Oid>, prev: Option<Oid>, top: bool, used: &mut HashSet<Oid>) -> R<Option<String>> {
	if (c as usize) < nodes {
		return Ok(Some("the clone shares a node with the original".into()));
	}
	if !used.insert(c) {
		return Ok(Some("the clone holds a node twice".into()));
	}
	let (a, b) = (Nd::of(pg, st, o)?, Nd::of(pg, st, c)?);
	for f in ["node_type", "content", "meta"] {
		match same(pg, st, b.get(f)?, a.get(f)?)? {
			Same::Yes => {}
			Same::No => return Ok(Some(format!("the {} of the clone differs", f))),
			Same::Unclear(m) => return stuck(m),
		}
	}
	for f in ["begin_at", "end_at"] {
		let (V::Int(x), V::Int(y), V::Int(z)) = (b.get(f)?, a.get(f)?, base) else { return stuck("positions") };
		if !st.eq0(&x.add(z).sub(y))? {
			return Ok(Some(format!("{} of the clone is not counted from the cloned node", f)));
		}
	}
	if link(b.get("parent")?)? != parent {
		return Ok(Some("the parent of the clone is another node".into()));
	}
	if link(b.get("prev")?)? != prev {
		return Ok(Some("the previous node of the clone is another one".into()));
	}
	if !top {
		let (x, y) = (b.get("index")?, a.get("index")?);
		if !pg.eq_val(st, x, y)? {
			return Ok(Some("the index of the clone differs".into()));
		}
	}
	match (link(a.get("end_tag")?)?, link(b.get("end_tag")?)?) {
		(None, None) => {}
		(Some(x), Some(y)) => {
			if let Some(m) = cloned(pg, st, x, y, nodes, base, Some(c), None, true, used)? {
				return Ok(Some(format!("end tag: {}", m)));
			}
		}
		_ => return Ok(Some("the end tag of the clone is missing or new".into())),
	}
	match (list(a.get("childs")?)?, list(b.get("childs")?)?) {
		(None, None) => {}
		(Some(x), Some(y)) => {
			if x.len() != y.len() {
				return Ok(Some("the clone has another number of children".into()));
			}
			let mut before = None;
			for (p, q) in x.iter().zip(&y) {
				if let Some(m) = cloned(pg, st, *p, *q, nodes, base, Some(c), before, false, used)? {
					return Ok(Some(format!("child: {}", m)));
				}
				before = Some(*q);
			}
		}
		(Some(x), None) | (None, Some(x)) if x.is_empty() => {}
		_ => return Ok(Some("the children of the clone are missing or new".into())),
	}
	Ok(None)
}
type Shape = (String, usize, Box<dyn Fn(&mut Mk) -> T>);
/// name, how many of its nodes are cloned, how it is made
fn shapes(thorough: bool, bounds: &[usize]) -> Vec<Shape> {
	let mut v: Vec<(&'static str, Box<dyn Fn(&mut Mk) -> T>)> = vec![
		("a text", Box::new(|m| m.leaf("Text", Some(Text::Free)))),
		("blanks", Box::new(|m| m.leaf("SpacesBetweenTag", Some(Text::Blank(2))))),
		("a comment", Box::new(|m| m.leaf("Comment", Some(Text::Free)))),
		("a comment without content", Box::new(|m| m.leaf("Comment", None))),
		("a CDATA section", Box::new(|m| m.leaf("XMLCDATA", Some(Text::Free)))),
		("a doctype", Box::new(|m| {
			let mut t = m.elem(Name::Any(0), None, None);
			t.kind = "HTMLDOCTYPE";
			let a = m.attr(true, None, false, false);
			let b = m.attr(false, Some(Text::Free), true, false);
			t.attrs = vec![a, b];
			t
		})),
		("an element without anything", Box::new(|m| m.elem(Name::Any(0), None, None))),
		("an element with attributes", Box::new(|m| {
			let mut t = m.elem(Name::Any(0), Some(1), None);
			t.void = Some(m.flag());
			t.closed = Some(m.flag());
			let a = m.attr(true, Some(Text::Free), true, true);
			let b = m.attr(true, None, false, true);
			t.attrs = vec![a, b];
			t
		})),
		("an element with content", Box::new(|m| {
			let mut t = m.elem(Name::Is("script"), Some(0), None);
			let c = m.text(&Text::Free);
			t.content = Some(m.put(c));
			t
		})),
		("an element with three children", Box::new(|m| {
			let x = m.leaf("Text", Some(Text::Free));
			let y = m.leaf("Comment", Some(Text::Free));
			let z = m.elem(Name::Any(0), Some(0), None);
			m.elem(Name::Any(0), Some(0), Some(vec![x, y, z]))
		})),
		("three levels", Box::new(|m| {
			let x = m.leaf("Text", Some(Text::Free));
			let y = m.elem(Name::Any(0), Some(0), Some(vec![x]));
			let w = m.leaf("Text", Some(Text::Free));
			let z = m.elem(Name::Any(0), Some(0), Some(vec![y, w]));
			let u = m.elem(Name::Any(0), None, None);
			m.elem(Name::Any(0), Some(0), Some(vec![z, u]))
		})),
		("a document", Box::new(|m| {
			let x = m.leaf("Text", Some(Text::Free));
			let y = m.elem(Name::Any(0), Some(0), Some(vec![x]));
			let c = m.leaf("SpacesBetweenTag", Some(Text::Blank(1)));
			T { kind: "AbstractRoot", kids: Some(vec![c, y]), ..m.leaf("Comment", None) }
		})),
		("an empty document", Box::new(|m| T { kind: "AbstractRoot", ..m.leaf("Comment", None) })),
	];
	if thorough {
		v.push((
			"six levels",
			Box::new(|m| {
				let mut t = m.leaf("Text", Some(Text::Free));
				for _ in 0..6 {
					let c = m.leaf("Comment", Some(Text::Free));
					let d = m.leaf("SpacesBetweenTag", Some(Text::Blank(1)));
					t = m.elem(Name::Any(0), Some(1), Some(vec![c, t, d]));
				}
				t
			}),
		));
	}
	let mut v: Vec<Shape> = v.into_iter().map(|(n, f)| (n.to_string(), usize::MAX, f)).collect();
	// as many as a number in the code says
	for n in bounds.iter().copied().filter(|n| *n < 520) {
		v.push((
			format!("an element with {} children", n + 1),
			1,
			Box::new(move |m| {
				let kids = (0..n + 1).map(|_| m.leaf("Comment", Some(Text::Len(1)))).collect();
				m.elem(Name::Other, Some(0), Some(kids))
			}),
		));
		if n < 300 {
			v.push((
				format!("{} levels", n + 2),
				1,
				Box::new(move |m| {
					let mut t = m.leaf("Text", Some(Text::Len(1)));
					for _ in 0..n + 1 {
						t = m.elem(Name::Other, Some(0), Some(vec![t]));
					}
					t
				}),
			));
			v.push((
				format!("an element with {} attributes", n + 1),
				1,
				Box::new(move |m| {
					let mut t = m.elem(Name::Other, None, None);
					for _ in 0..n + 1 {
						t.attrs.push(m.attr(true, None, false, false));
					}
					t
				}),
			));
		}
	}
	v
}
fn oids(t: &T, out: &mut Vec<Oid>) {
	out.push(t.oid);
	for k in t.kids.iter().flatten() {
		oids(k, out);
	}
}

pub fn clone(pg: &Prog, thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let Some(f) = pg.find("rphtml::parser::Node::clone_node") else {
		r.broken = Some("no Node::clone_node".into());
		return r;
	};
	let mut decided = 0;
	let mut tried = 0;
	for (label, most, make) in shapes(thorough, &crate::parse::bounds(pg, 3)) {
		// every node of the tree is cloned
		let mut k = 0;
		loop {
			let mut mk = Mk::new(pg);
			let mut t = make(&mut mk);
			if let Err(Stop::Stuck(m)) = mk.node(&mut t, None, 0, 0, None) {
				r.note_open(m);
				break;
			}
			let mut all = vec![];
			oids(&t, &mut all);
			if k >= all.len() || k >= most {
				break;
			}
			let o = all[k];
			let texts = mk.texts.len();
			let nodes = mk.st.heap.len();
			let keep = with_heap(&mk.texts, &mk.st);
			tried += 1;
			let label = format!("cloning node {} of {}", k, label);
			decided += judge(pg, &label, f, mk.st, vec![node_ref(o)], keep, Way::Paths, &mut r, |st, e| {
				let c = match e {
					End::Done(V::Rc(c)) => *c,
					End::Done(o) => return stuck(format!("clone: {}", short(o))),
					End::Panic(m) => return Ok(Some((vec!["C15"], format!("panic: {}", m)))),
					_ => return Ok(None),
				};
				if let Some(m) = changed(pg, st, texts, nodes) {
					return Ok(Some((vec!["C15", "C16"], format!("the original: {}", m))));
				}
				if let Some(c) = crate::effects::owning_cycle(st) {
					return Ok(Some((vec!["C17"], format!("a cycle of owning references; objects {:?}", c))));
				}
				let base = Nd::of(pg, st, o)?.get("begin_at")?.clone();
				let w = cloned(pg, st, o, c, nodes, &base, None, None, true, &mut HashSet::new())?;
				Ok(w.map(|w| (vec!["C15"], w)))
			});
			k += 1;
		}
	}
	r.coverage.insert("nodes_cloned".into(), json!(tried));
	r.coverage.insert("clones_decided".into(), json!(decided));
	if decided == 0 {
		r.lost = Some("cloning could not be followed".into());
	}
	r
}

pub fn document(pg: &Prog, thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let Some(f) = pg.find("rphtml::parser::Node::is_document") else {
		r.broken = Some("no Node::is_document".into());
		return r;
	};
	type Leaf = fn(&mut Mk) -> T;
	let leaves: [(&str, Leaf); 8] = [
		("comment", |m| m.leaf("Comment", Some(Text::Free))),
		("blanks", |m| m.leaf("SpacesBetweenTag", Some(Text::Blank(1)))),
		("text", |m| m.leaf("Text", Some(Text::Free))),
		("doctype", |m| {
			let mut t = m.elem(Name::Any(0), None, None);
			t.kind = "HTMLDOCTYPE";
			t
		}),
		("cdata", |m| m.leaf("XMLCDATA", Some(Text::Free))),
		("element", |m| m.elem(Name::Any(0), Some(0), None)),
		("html", |m| m.elem(Name::Is("html"), Some(0), None)),
		("body", |m| m.elem(Name::Is("body"), Some(0), None)),
	];
	let n = 7;
	let most = if thorough { 4 } else { 3 };
	let mut lists: Vec<Vec<usize>> = vec![vec![]];
	let mut from = 0;
	for _ in 0..most {
		let to = lists.len();
		for i in from..to {
			for k in 0..n {
				let mut l = lists[i].clone();
				l.push(k);
				lists.push(l);
			}
		}
		from = to;
	}
	// as many as a number in the code says
	for b in crate::parse::bounds(pg, 3).into_iter().filter(|n| *n < 520) {
		for (fill, last) in [(0, 6), (1, 6), (3, 6), (7, 6), (7, 0), (6, 1)] {
			let mut l = vec![fill; b + 1];
			l.push(last);
			lists.push(l.clone());
			l.reverse();
			lists.push(l);
		}
	}
	let mut decided = 0;
	for l in &lists {
		for kind in ["AbstractRoot", "Tag"] {
			if kind == "Tag" && l.len() > 1 {
				continue;
			}
			let mut mk = Mk::new(pg);
			let kids: Vec<T> = l.iter().map(|k| leaves[*k].1(&mut mk)).collect();
			let mut t = if kind == "Tag" { mk.elem(Name::Is("html"), None, None) } else { T { kind: "AbstractRoot", ..mk.leaf("Comment", None) } };
			t.kids = Some(kids);
			let Ok(o) = mk.node(&mut t, None, 0, 0, None) else {
				r.note_open("nodes have other fields".into());
				continue;
			};
			let texts = mk.texts.len();
			let nodes = mk.st.heap.len();
			let keep = with_heap(&mk.texts, &mk.st);
			let label = format!("{} with {}", if kind == "Tag" { "an element" } else { "a root" }, if l.len() > 6 { format!("{} and {} more, then {}", leaves[l[0]].0, l.len() - 2, leaves[l[l.len() - 1]].0) } else { l.iter().map(|k| leaves[*k].0).collect::<Vec<_>>().join(", ") });
			decided += judge(pg, &label, f, mk.st, vec![node_ref(o)], keep, Way::Paths, &mut r, |st, e| {
				let w = Want { pg, st };
				let (mut doc, mut fine, mut tags) = (false, true, 0);
				if kind == "AbstractRoot" {
					for k in t.kids.as_ref().unwrap() {
						match k.kind {
							"Tag" => {
								tags += 1;
								if w.is(&w.tx(k.name.unwrap()), "html")? {
									doc = true;
								}
							}
							"Comment" | "SpacesBetweenTag" | "HTMLDOCTYPE" => {}
							_ => fine = false,
						}
					}
				}
				let want = (doc, !doc || fine && tags == 1);
				if let Some(m) = changed(pg, st, texts, nodes) {
					return Ok(Some((vec!["C16"], m)));
				}
				match e {
					End::Done(V::Agg(0, x)) if x.len() == 2 => {
						let got = (pg.bool_of(st, &x[0])?, pg.bool_of(st, &x[1])?);
						Ok(if got == want { None } else { Some((vec!["C22"], format!("is_document answers {:?}; expected {:?}", got, want))) })
					}
					End::Done(o) => stuck(format!("is_document: {}", short(o))),
					End::Panic(m) => Ok(Some((vec!["C22"], format!("panic: {}", m)))),
					_ => Ok(None),
				}
			});
		}
	}
	r.coverage.insert("lists_of_children".into(), json!(lists.len()));
	r.coverage.insert("answers_decided".into(), json!(decided));
	if decided == 0 {
		r.lost = Some("is_document could not be followed".into());
	}
	r
}

/// constructors, setters, look-ups and defaults
pub fn parts(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let mut decided = 0;
	let mut found = vec![];
	let wrong = |m: String| Ok(Some((vec!["C27"], m)));
	// defaults: nothing is relaxed, nothing is dropped
	for o in ["ParseOptions", "RenderOptions"] {
		if let Some(f) = pg.find(&format!("<rphtml::config::{} as std::default::Default>::default", o)) {
			found.push(o.to_string());
			let mut names: Vec<(String, usize)> = fields(pg, o).into_iter().collect();
			names.sort();
			let mk = Mk::new(pg);
			decided += judge(pg, &format!("the default {}", o), f, mk.st, vec![], vec![], Way::Paths, &mut r, |st, e| match e {
				End::Done(V::Agg(0, v)) => {
					for (n, i) in &names {
						if pg.bool_of(st, &v[*i])? {
							return wrong(format!("{} is on", n));
						}
					}
					Ok(None)
				}
				End::Done(o) => stuck(short(o)),
				End::Panic(m) => wrong(m.clone()),
				_ => Ok(None),
			});
		}
	}
	// characters that need quotes
	if let Some(f) = pg.find("rphtml::parser::Attr::need_quoted_char") {
		found.push("need_quoted_char".into());
		let mut mk = Mk::new(pg);
		let s = mk.st.new_chars(CS::all(), 1, 1);
		let arg = by_ref(V::Char(Ch::Src(s, Map::Id)));
		let keep = vec![V::Char(Ch::Src(s, Map::Id))];
		decided += judge(pg, "the characters that need quotes", f, mk.st, vec![arg], keep, Way::Paths, &mut r, |st, e| match e {
			End::Done(v) => {
				let V::Char(c) = &kept(st)[0] else { return stuck("character") };
				let want = st.ch_in(c, &ws().or(&CS::of("\"'<>=`")))?;
				if pg.bool_of(st, v)? != want {
					return Ok(Some((vec!["C13", "C27"], format!("need_quoted_char answers {} for {}", !want, show_text(st, &[ch_item(c)])))));
				}
				Ok(None)
			}
			End::Panic(m) => wrong(m.clone()),
			_ => Ok(None),
		});
	}
	// one attribute on its own
	if let Some(f) = pg.find("rphtml::parser::Attr::build") {
		found.push("Attr::build".into());
		for key in [true, false] {
			for (quote, val) in [(false, None), (false, Some(Text::Free)), (true, Some(Text::Len(0))), (true, Some(Text::Len(1))), (true, Some(Text::Len(2)))] {
				let mut mk = Mk::new(pg);
				let a = mk.attr(key, val.clone(), quote, true);
				let unq = mk.flag();
				let Ok(av) = mk.attr_val(&a) else { continue };
				let keep = mk.texts.clone();
				decided += judge(pg, "an attribute", f, mk.st, vec![by_ref(av), V::Opt(unq, false)], keep, Way::Paths, &mut r, |st, e| {
					let w = Want { pg, st };
					match e {
						End::Done(v) => {
							let want = w.attr(&a, pg.bool_of(st, &V::Opt(unq, false))?)?;
							match compare(pg, st, &v.items(), &want)? {
								Same::Yes => Ok(None),
								Same::No => Ok(Some((vec!["C13", "C27"], format!("Attr::build writes {}; expected {}", show_text(st, &v.items()), show_text(st, &want))))),
								Same::Unclear(m) => stuck(m),
							}
						}
						End::Panic(m) => wrong(m.clone()),
						_ => Ok(None),
					}
				});
			}
		}
	}
	// the id of an attribute
	if let Some(f) = pg.find("rphtml::parser::Attr::check_if_id") {
		found.push("check_if_id".into());
		for key in [None, Some(0), Some(1), Some(2), Some(3)] {
			for val in [None, Some(Text::Free)] {
				let mut mk = Mk::new(pg);
				let mut a = mk.attr(false, val.clone(), false, false);
				a.key = key.map(|k| {
					let n = if k == 0 { vec![It::S(mk.st.new_chars(CS::all(), 0, INF), Map::Id)] } else { mk.chars(CS::all(), k) };
					mk.put(n)
				});
				let Ok(av) = mk.attr_val(&a) else { continue };
				let keep = mk.texts.clone();
				decided += judge(pg, "the id of an attribute", f, mk.st, vec![by_ref(av)], keep, Way::Paths, &mut r, |st, e| {
					let w = Want { pg, st };
					let is = match a.key {
						Some(k) => w.is(&w.tx(k), "id")?,
						None => false,
					};
					let want = if is { a.value.map(|v| w.tx(v)) } else { None };
					match (e, want) {
						(End::Done(V::Agg(0, _)), None) => Ok(None),
						(End::Done(V::Agg(1, v)), Some(t)) => match compare(pg, st, &v[0].items(), &t)? {
							Same::Yes => Ok(None),
							Same::No => Ok(Some((vec!["C24", "C27"], "another text is taken as the id".into()))),
							Same::Unclear(m) => stuck(m),
						},
						(End::Done(V::Agg(0, _)), Some(_)) => Ok(Some((vec!["C24", "C27"], "an id is not seen".into()))),
						(End::Done(V::Agg(1, _)), None) => Ok(Some((vec!["C24", "C27"], "another attribute is taken as the id".into()))),
						(End::Panic(m), _) => wrong(m.clone()),
						_ => Ok(None),
					}
				});
			}
		}
	}
	// text nodes made by hand
	if let Some(f) = pg.find("rphtml::parser::Node::create_text_node") {
		found.push("create_text_node".into());
		let kinds = node_types(pg).unwrap_or_default();
		let fs = fields(pg, "Node");
		let mut texts: Vec<(u32, u32)> = (0..4).map(|n| (0, n)).collect();
		texts.extend(crate::parse::bounds(pg, 3).into_iter().map(|b| (b as u32, 1)));
		for (blanks, n) in texts {
			for at in [false, true] {
				let mut mk = Mk::new(pg);
				let mut t = lits(&" ".repeat(blanks as usize));
				t.extend(mk.chars(CS::all(), n));
				let pos = mk.next_pos();
				let arg = if at { some(pos.clone()) } else { none() };
				let keep = vec![seq(t.clone()), pos];
				decided += judge(pg, "a text node made by hand", f, mk.st, vec![seq(t), arg], keep, Way::Paths, &mut r, |st, e| {
					let v = match e {
						End::Done(V::Agg(0, v)) => v,
						End::Done(o) => return stuck(short(o)),
						End::Panic(m) => return wrong(m.clone()),
						_ => return Ok(None),
					};
					let text = kept(st)[0].items();
					let mut blank = true;
					for it in &text {
						let V::Char(c) = st.item_val(it)? else { return stuck("text") };
						if !st.ch_in(&c, &ws())? {
							blank = false;
							break;
						}
					}
					let get = |n: &str| match fs.get(n) {
						Some(i) => Ok(&v[*i]),
						None => stuck("field"),
					};
					let V::Agg(k, _) = get("node_type")? else { return stuck("kind") };
					let name = kinds.iter().find(|x| x.0 == *k).map(|x| x.1.as_str()).unwrap_or("");
					if name != if blank { "SpacesBetweenTag" } else { "Text" } {
						return Ok(Some((vec!["C26", "C27"], format!("the text {} becomes {}", show_text(st, &text), name))));
					}
					if let Same::No = same(pg, st, get("content")?, &some(seq(text)))? {
						return wrong("the content is changed".into());
					}
					for p in ["begin_at", "end_at"] {
						let want = if at { kept(st)[1].clone() } else { int(0) };
						if !pg.eq_val(st, get(p)?, &want)? {
							return wrong(format!("{} is not the given place", p));
						}
					}
					Ok(None)
				});
			}
		}
	}
	// empty nodes
	if let (Some(f), Some(kinds)) = (pg.find("rphtml::parser::Node::new"), node_types(pg)) {
		found.push("Node::new".into());
		let fs = fields(pg, "Node");
		for (k, name) in kinds {
			let mut mk = Mk::new(pg);
			let pos = mk.next_pos();
			decided += judge(pg, &format!("a new node of kind {}", name), f, mk.st, vec![agg(k, vec![]), pos.clone()], vec![pos], Way::Paths, &mut r, |st, e| {
				let v = match e {
					End::Done(V::Agg(0, v)) => v,
					End::Done(o) => return stuck(short(o)),
					End::Panic(m) => return wrong(m.clone()),
					_ => return Ok(None),
				};
				for (n, want) in [("node_type", agg(k, vec![])), ("begin_at", kept(st)[0].clone()), ("end_at", kept(st)[0].clone()), ("parent", none()), ("childs", none()), ("content", none()), ("end_tag", none()), ("meta", none()), ("root", none()), ("document", none())] {
					if let Some(i) = fs.get(n) {
						if let Same::No = same(pg, st, &v[*i], &want)? {
							return wrong(format!("{} is not as asked for", n));
						}
					}
				}
				Ok(None)
			});
		}
	}
	// look-up by id
	if let Some(f) = pg.find("rphtml::parser::DocHolder::get_element_by_id") {
		found.push("get_element_by_id".into());
		for n in 0..3usize {
			let mut mk = Mk::new(pg);
			let mut ops = vec![];
			for _ in 0..n {
				let k = mk.chars(CS::all(), 2);
				mk.texts.push(seq(k.clone()));
				let o = mk.st.alloc(V::Cell(0, Arc::new(V::Undef)));
				ops.push(MapOp::Insert(seq(k), V::Rc(o)));
			}
			let q = mk.chars(CS::all(), 2);
			mk.texts.push(seq(q.clone()));
			let map = V::Map(Arc::new(ops));
			let ids = mk.st.alloc(V::Cell(0, Arc::new(map)));
			let Ok(doc) = mk.record("Doc", &[("id_tags", V::Rc(ids))]) else { continue };
			let d = mk.st.alloc(V::Cell(0, Arc::new(doc)));
			let Ok(h) = mk.record("DocHolder", &[("doc", V::Rc(d))]) else { continue };
			let keep = mk.texts.clone();
			decided += judge(pg, "a look-up by id", f, mk.st, vec![by_ref(h), by_ref(seq(q))], keep, Way::Paths, &mut r, |st, e| {
				let k = kept(st);
				let q = k[n].items();
				let mut want = None;
				for i in (0..n).rev() {
					if pg.eq_seq(st, &k[i].items(), &q)? {
						want = Some(i as Oid + 1);
						break;
					}
				}
				match e {
					End::Done(v) => {
						let got = link(v)?;
						Ok(if got == want { None } else { Some((vec!["C24"], format!("the look-up gives {}; expected {}", if got.is_some() { "a node" } else { "none" }, if want.is_some() { "the other" } else { "none" }))) })
					}
					End::Panic(m) => Ok(Some((vec!["C24"], m.clone()))),
					_ => Ok(None),
				}
			});
		}
	}
	// attributes added and filled in
	for (name, arg) in [("add_attr_key", 0), ("add_attr_value", 1), ("set_attr_key", 2), ("set_attr_value", 3)] {
		let Some(f) = pg.find(&format!("rphtml::parser::TagMeta::{}", name)) else { continue };
		found.push(name.into());
		for (n, filled, quoted) in [(0usize, false, true), (1, false, true), (2, false, true), (0, false, false), (1, true, false), (2, true, true), (1, false, false)] {
			if arg >= 2 && n == 0 || arg != 1 && arg != 3 && !quoted && !filled {
				continue;
			}
			let mut mk = Mk::new(pg);
			let mut t = mk.elem(Name::Any(0), None, None);
			for _ in 0..n {
				let a = mk.attr(true, filled.then_some(Text::Len(1)), filled, filled);
				t.attrs.push(a);
			}
			let Ok(meta) = mk.meta_val(&t) else { continue };
			let text = mk.text(&Text::Free);
			let q = mk.st.new_chars(CS::of("\"'"), 1, 1);
			let o = mk.st.alloc(meta.clone());
			let quote = if quoted { some(V::Char(Ch::Src(q, Map::Id))) } else { none() };
			let me = V::Ref(Arc::new(Ptr { base: Base::H(o), path: vec![] }));
			let args = match arg {
				0 => vec![me],
				1 => vec![me, quote.clone()],
				2 => vec![me, seq(text.clone())],
				_ => vec![me, seq(text.clone()), quote.clone()],
			};
			let keep = vec![meta, seq(text), quote];
			let (fm, fa, fd) = (fields(pg, "TagMeta"), fields(pg, "Attr"), fields(pg, "AttrData"));
			decided += judge(pg, &format!("{} after {} attributes", name, n), f, mk.st, args, keep, Way::Paths, &mut r, |st, e| {
				if let End::Panic(m) = e {
					return wrong(m.clone());
				}
				let (Some(V::Agg(_, is)), V::Agg(_, was)) = (st.heap[o as usize].as_deref(), &kept(st)[0]) else { return stuck("attributes") };
				let Some(ai) = fm.get("attrs") else { return stuck("no attributes") };
				let (is, was) = (is[*ai].items(), was[*ai].items());
				let want = if arg < 2 { n + 1 } else { n };
				if is.len() != want {
					return wrong("another number of attributes".into());
				}
				for (i, x) in is.iter().enumerate() {
					let It::V(V::Agg(_, x)) = x else { return stuck("attribute") };
					let (text, quote) = (kept(st)[1].clone(), kept(st)[2].clone());
					let data = |v: V| some(agg(0, vec![v]));
					if fd.len() != 1 {
						return stuck("attribute data");
					}
					let get = |v: &[V], n: &str| fa.get(n).map(|i| v[*i].clone()).unwrap_or(V::Undef);
					let (mut k, mut v, mut q) = match was.get(i) {
						Some(It::V(V::Agg(_, w))) => (get(w, "key"), get(w, "value"), get(w, "quote")),
						_ => (none(), none(), none()),
					};
					if i + 1 == want {
						match arg {
							0 => k = data(seq(vec![])),
							1 => {
								v = data(seq(vec![]));
								q = quote;
							}
							2 => k = data(text),
							_ => {
								v = data(text);
								q = quote;
							}
						}
					}
					for (n, got, want) in [("key", get(x, "key"), k), ("value", get(x, "value"), v), ("quote", get(x, "quote"), q)] {
						if let Same::No = same(pg, st, &got, &want)? {
							return wrong(format!("the {} of attribute {} is another one", n, i));
						}
					}
				}
				Ok(None)
			});
		}
	}
	// one node or two
	if let Some(f) = pg.find("rphtml::parser::Node::is_same") {
		found.push("is_same".into());
		for which in 0..3 {
			let mut mk = Mk::new(pg);
			let make = |mk: &mut Mk| {
				let mut t = mk.leaf("Text", Some(Text::Lit("x")));
				let p = mk.pos;
				let o = mk.node(&mut t, None, 0, 0, None);
				mk.pos = p;
				o
			};
			let (Ok(x), Ok(y)) = (make(&mut mk), make(&mut mk)) else { continue };
			let z = if which == 0 { y } else { x };
			// nodes may be in use while they are compared
			if which == 2 {
				if let Some(V::Cell(_, v)) = mk.st.heap[x as usize].as_deref().cloned() {
					mk.st.heap[x as usize] = Some(Arc::new(V::Cell(-1, v)));
				}
			}
			decided += judge(pg, "comparing two nodes", f, mk.st, vec![by_ref(V::Rc(x)), by_ref(V::Rc(z))], vec![], Way::Paths, &mut r, |st, e| match e {
				End::Done(v) => {
					let got = pg.bool_of(st, v)?;
					if got != (x == z) {
						return wrong(if got { "two different nodes are the same".into() } else { "a node is not the same as itself".into() });
					}
					Ok(None)
				}
				End::Panic(m) => wrong(m.clone()),
				_ => Ok(None),
			});
		}
	}
	r.coverage.insert("parts_decided".into(), json!(found));
	r.coverage.insert("part_answers_decided".into(), json!(decided));
	if decided == 0 {
		r.lost = Some("no part could be followed".into());
	}
	r
}
