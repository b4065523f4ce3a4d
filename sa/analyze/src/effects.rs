//! Effects over the call graph (what parsing and reading may touch) and ownership on the type graph.
use crate::check::*;
use crate::exec::*;
use crate::ir::*;
use crate::simple::finding;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// functions of the program a body mentions: calls, function values, closures
struct Uses {
	fns: Vec<(usize, u32)>,
	statics: Vec<(usize, u32)>,
	odd: Vec<(String, u32)>,
}
fn uses(p: &Program, b: &Body) -> Uses {
	let mut u = Uses { fns: vec![], statics: vec![], odd: vec![] };
	fn cst(p: &Program, c: &Cst, line: u32, u: &mut Uses) {
		ty(p, c.ty, line, u);
		match &c.v {
			CV::Fn(f) => u.fns.push((*f, line)),
			CV::Static(s) => u.statics.push((*s, line)),
			CV::Agg(_, v) | CV::Slice(v) => v.iter().for_each(|c| cst(p, c, line, u)),
			CV::Ref(c) => cst(p, c, line, u),
			_ => {}
		}
	}
	fn ty(p: &Program, t: TyId, line: u32, u: &mut Uses) {
		match &p.tys[t].kind {
			TyKind::FnDef(f) => u.fns.push((*f, line)),
			TyKind::Closure { body: Some(f), .. } => u.fns.push((*f, line)),
			_ => {}
		}
	}
	fn op(p: &Program, o: &Opnd, line: u32, u: &mut Uses) {
		if let Opnd::Const(c) = o {
			cst(p, c, line, u)
		}
	}
	for bl in &b.blocks {
		for (s, line) in &bl.stmts {
			let Stmt::Assign(_, r) = s else { continue };
			match r {
				Rv::Use(a) | Rv::Un(_, a) | Rv::Repeat(a, _) => op(p, a, *line, &mut u),
				Rv::Cast(k, a, _) => {
					op(p, a, *line, &mut u);
					if k.contains("Expose") {
						u.odd.push(("an address is turned into a number".into(), *line));
					}
				}
				Rv::Bin(_, a, b) | Rv::Checked(_, a, b) => {
					op(p, a, *line, &mut u);
					op(p, b, *line, &mut u);
				}
				Rv::Agg(k, v) => {
					if let AggK::Closure(t) = k {
						ty(p, *t, *line, &mut u);
					}
					v.iter().for_each(|a| op(p, a, *line, &mut u));
				}
				Rv::Other(s) if s.contains("ThreadLocal") => u.odd.push(("a thread-local variable is used".into(), *line)),
				_ => {}
			}
		}
		if let Term::Call { f, args, .. } = &bl.term {
			match f {
				Callee::Fn(f) => u.fns.push((*f, bl.line)),
				Callee::Ind(o) => op(p, o, bl.line, &mut u),
			}
			args.iter().for_each(|a| op(p, a, bl.line, &mut u));
		}
	}
	u
}
/// every local function that can be reached, with the call that led there first
fn reach(p: &Program, roots: &[usize]) -> BTreeMap<usize, Option<(usize, u32)>> {
	let mut seen: BTreeMap<usize, Option<(usize, u32)>> = roots.iter().map(|r| (*r, None)).collect();
	let mut work: VecDeque<usize> = roots.iter().copied().collect();
	while let Some(f) = work.pop_front() {
		let Some(b) = &p.fns[f].body else { continue };
		for (g, line) in uses(p, b).fns {
			if let std::collections::btree_map::Entry::Vacant(e) = seen.entry(g) {
				e.insert(Some((f, line)));
				work.push_back(g);
			}
		}
	}
	seen
}
fn way(p: &Program, seen: &BTreeMap<usize, Option<(usize, u32)>>, f: usize) -> String {
	let mut out = vec![];
	let mut cur = Some(f);
	while let Some(f) = cur {
		out.push(p.fns[f].path.replace("rphtml::", ""));
		cur = seen.get(&f).copied().flatten().map(|x| x.0);
	}
	out.reverse();
	out.join(" -> ")
}
/// what a foreign function does beyond its arguments
fn effect(path: &str) -> Option<&'static str> {
	let p = path.trim_start_matches('<');
	let any = |l: &[&str]| l.iter().any(|x| p.starts_with(x));
	if any(&["std::time::", "std::hash::RandomState", "std::collections::hash_map::RandomState", "std::hash::DefaultHasher::new", "rand::", "getrandom::"]) {
		return Some("depends on the time or on randomness");
	}
	if any(&["std::env::", "std::process::", "std::thread::current", "std::thread::sleep", "std::thread::spawn", "std::thread::available"]) {
		return Some("depends on or changes the environment of the process");
	}
	if any(&["std::fs::", "std::net::", "std::os::", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint"]) {
		return Some("touches files or standard streams");
	}
	if any(&["std::thread::LocalKey", "std::sync::atomic::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::mpsc"]) {
		return Some("uses global mutable state");
	}
	let hash = (p.contains("HashMap<") || p.contains("HashSet<") || p.contains("HashMap::") || p.contains("HashSet::") || p.contains("hash_map::") || p.contains("hash_set::")) && !p.contains("Entry");
	if hash {
		let m = p.rsplit("::").next().unwrap_or("");
		if matches!(m, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_iter" | "into_keys" | "into_values" | "drain" | "retain" | "extract_if") && !p.contains("Option") {
			return Some("depends on the order of a hash table");
		}
	}
	None
}
fn leaks(path: &str) -> bool {
	let p = path.trim_start_matches('<');
	["std::mem::forget", "core::mem::forget", "std::mem::ManuallyDrop", "core::mem::ManuallyDrop", "std::rc::Rc::into_raw", "std::rc::Rc::increment_strong_count", "std::boxed::Box::leak", "std::boxed::Box::into_raw", "std::vec::Vec::leak", "std::string::String::leak", "std::rc::Weak::into_raw", "std::cell::Ref::leak", "std::cell::RefMut::leak"].iter().any(|x| {
		let q: String = strip(p);
		q.starts_with(x)
	})
}
fn strip(p: &str) -> String {
	let mut d = 0;
	let mut s = String::new();
	for c in p.chars() {
		match c {
			'<' => d += 1,
			'>' => d -= 1,
			_ if d == 0 => s.push(c),
			_ => {}
		}
	}
	s.replace("::::", "::")
}
/// interior mutability below a type; `once`: what a once-initialised cell holds
fn mutable_inside(p: &Program, t: TyId, seen: &mut HashSet<TyId>) -> bool {
	if !seen.insert(t) {
		return false;
	}
	match &p.tys[t].kind {
		TyKind::Tuple(v) => v.iter().any(|t| mutable_inside(p, *t, seen)),
		TyKind::Array(t, _) | TyKind::Slice(t) | TyKind::Ref(t, _) => mutable_inside(p, *t, seen),
		TyKind::Adt { path, local, args, variants, .. } => {
			let n = path.rsplit("::").next().unwrap_or("");
			if matches!(n, "Cell" | "RefCell" | "UnsafeCell" | "Mutex" | "RwLock" | "LocalKey") || n.starts_with("Atomic") {
				return true;
			}
			if *local {
				return variants.iter().any(|v| v.fields.iter().any(|(_, t)| mutable_inside(p, *t, seen)));
			}
			args.iter().any(|t| mutable_inside(p, *t, seen))
		}
		_ => false,
	}
}
fn roots(p: &Program, with_file: bool) -> Vec<usize> {
	(0..p.fns.len())
		.filter(|f| {
			let g = &p.fns[*f];
			g.local && g.body.is_some() && !g.path.contains("::fmt") && !g.path.contains("{closure") && (with_file || !g.path.contains("parse_file")) && !g.path.contains("lazy_static::LazyStatic")
		})
		.collect()
}

pub fn effects(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let p = &pg.ir;
	let mut r = Report::new();
	// everything but reading a file: what only that function calls may touch files
	let only_file: HashSet<usize> = {
		let f: Vec<usize> = (0..p.fns.len()).filter(|f| p.fns[*f].local && p.fns[*f].path.contains("parse_file")).collect();
		let api: Vec<usize> = API.iter().filter_map(|n| pg.find(n)).collect();
		let a = reach(p, &api);
		reach(p, &f).into_keys().filter(|g| !a.contains_key(g)).collect()
	};
	let rs: Vec<usize> = roots(p, false).into_iter().filter(|f| !only_file.contains(f)).collect();
	if rs.is_empty() {
		r.broken = Some("no functions".into());
		return r;
	}
	let seen = reach(p, &rs);
	let mut sites = 0;
	let mut foreign: HashSet<&str> = HashSet::new();
	for f in seen.keys() {
		let g = &p.fns[*f];
		if !g.local {
			continue;
		}
		let Some(b) = &g.body else { continue };
		let u = uses(p, b);
		for (h, line) in &u.fns {
			sites += 1;
			r.obligations += 1;
			let c = &p.fns[*h];
			if c.local {
				continue;
			}
			foreign.insert(&c.path);
			if let Some(e) = effect(&c.name).or_else(|| effect(&c.path)) {
				r.findings.push(finding(vec!["C16"], format!("{} {}", g.path, e), format!("{} (line {}) calls {}: it {}", g.path, line, c.name, e), format!("{}:{}", g.file, line), way(p, &seen, *f)));
			}
		}
		for (s, line) in &u.statics {
			r.obligations += 1;
			let t = &p.statics[*s];
			let lazy = p.tys[t.ty].name.contains("lazy_static::lazy::Lazy<");
			let bad = if lazy {
				match &p.tys[t.ty].kind {
					TyKind::Adt { args, .. } => args.iter().any(|a| mutable_inside(p, *a, &mut HashSet::new())),
					_ => false,
				}
			} else {
				mutable_inside(p, t.ty, &mut HashSet::new())
			};
			if bad {
				r.findings.push(finding(vec!["C16"], format!("{} uses global mutable state", g.path), format!("{} (line {}) uses the static {} of type {}, which can change", g.path, line, t.name, p.tys[t.ty].name), format!("{}:{}", g.file, line), way(p, &seen, *f)));
			}
		}
		for (m, line) in &u.odd {
			r.findings.push(finding(vec!["C16"], format!("{}: {}", g.path, m), format!("{} (line {}): {}", g.path, line, m), format!("{}:{}", g.file, line), way(p, &seen, *f)));
		}
		// writes to a static
		for (t, line) in static_writes(p, b) {
			r.findings.push(finding(vec!["C16"], format!("{} writes a static", g.path), format!("{} (line {}) writes the static {}", g.path, line, t), format!("{}:{}", g.file, line), way(p, &seen, *f)));
		}
	}
	r.coverage.insert("effects_functions".into(), json!(seen.keys().filter(|f| p.fns[**f].local).count()));
	r.coverage.insert("effects_call_sites".into(), json!(sites));
	let mut foreign: Vec<&str> = foreign.into_iter().collect();
	foreign.sort();
	r.coverage.insert("effects_foreign_callees".into(), json!(foreign.len()));
	r.samples.push(json!(format!("foreign callees, none with an effect of its own: {}", foreign.iter().take(40).copied().collect::<Vec<_>>().join(", "))));
	r
}
const API: &[&str] = &["rphtml::parser::Doc::parse", "rphtml::parser::DocHolder::render", "rphtml::parser::DocHolder::render_text", "rphtml::parser::DocHolder::get_element_by_id", "rphtml::parser::Node::build", "rphtml::parser::Node::clone_node", "rphtml::parser::Node::is_document"];

/// stores through a pointer to a static
fn static_writes(p: &Program, b: &Body) -> Vec<(String, u32)> {
	let mut of: HashMap<usize, usize> = HashMap::new();
	let mut out = vec![];
	for _ in 0..2 {
		for bl in &b.blocks {
			for (s, line) in &bl.stmts {
				let Stmt::Assign(pl, r) = s else { continue };
				if !pl.proj.is_empty() {
					if let (Some(s), Some(Proj::Deref)) = (of.get(&pl.local), pl.proj.first()) {
						out.push((p.statics[*s].name.clone(), *line));
					}
					continue;
				}
				match r {
					Rv::Use(Opnd::Const(Cst { v: CV::Static(s), .. })) => {
						of.insert(pl.local, *s);
					}
					Rv::Use(Opnd::Copy(q) | Opnd::Move(q)) | Rv::Cast(_, Opnd::Copy(q) | Opnd::Move(q), _) if q.proj.is_empty() => {
						if let Some(s) = of.get(&q.local).copied() {
							of.insert(pl.local, s);
						}
					}
					_ => {}
				}
			}
		}
	}
	out.sort();
	out.dedup();
	out
}

/// the types a value of this type owns, through containers and counted pointers, not through weak ones or references
fn owns(p: &Program, t: TyId, seen: &mut HashSet<TyId>, hit: &mut dyn FnMut(&str)) {
	if !seen.insert(t) {
		return;
	}
	match &p.tys[t].kind {
		TyKind::Tuple(v) => v.iter().for_each(|t| owns(p, *t, seen, hit)),
		TyKind::Array(t, _) | TyKind::Slice(t) => owns(p, *t, seen, hit),
		TyKind::Adt { path, local, args, .. } => {
			if path.ends_with("::Weak") {
				return;
			}
			if *local {
				hit(path.rsplit("::").next().unwrap_or(""));
				return;
			}
			args.iter().for_each(|t| owns(p, *t, seen, hit));
		}
		TyKind::Closure { upvars, .. } => upvars.iter().for_each(|t| owns(p, *t, seen, hit)),
		_ => {}
	}
}

pub fn ownership(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let p = &pg.ir;
	let mut r = Report::new();
	// local type -> field -> local types it owns
	let mut graph: BTreeMap<String, Vec<(String, HashSet<String>)>> = BTreeMap::new();
	for t in &p.local_adts {
		let TyKind::Adt { path, variants, .. } = &p.tys[*t].kind else { continue };
		let n = path.rsplit("::").next().unwrap_or("").to_string();
		for v in variants {
			for (f, ft) in &v.fields {
				let mut to = HashSet::new();
				owns(p, *ft, &mut HashSet::new(), &mut |s| {
					to.insert(s.to_string());
				});
				r.obligations += 1;
				graph.entry(n.clone()).or_default().push((f.clone(), to));
			}
		}
	}
	if !graph.contains_key("Node") {
		r.broken = Some("no type Node".into());
		return r;
	}
	let from = |s: &str| -> HashSet<String> {
		let mut seen = HashSet::new();
		let mut w = vec![s.to_string()];
		while let Some(n) = w.pop() {
			if seen.insert(n.clone()) {
				for (_, to) in graph.get(&n).into_iter().flatten() {
					w.extend(to.iter().cloned());
				}
			}
		}
		seen
	};
	// links of a node that lead up, sideways or to the document own nothing that owns nodes
	for (f, to) in &graph["Node"] {
		let down = matches!(f.as_str(), "childs" | "end_tag");
		for t in to {
			let back = from(t).contains("Node");
			if t == "Doc" || (back && t != "Node") {
				r.findings.push(finding(vec!["C17"], format!("Node.{} owns {}", f, t), format!("the field {} of a node owns a {}, which owns the node: a cycle of owning references", f, t), "Node".into(), format!("Node.{} -> {} -> Node", f, t)));
			} else if t == "Node" && !down {
				if matches!(f.as_str(), "parent" | "prev" | "root" | "document" | "next") {
					r.findings.push(finding(vec!["C17"], format!("Node.{} owns a node", f), format!("the link {} of a node is an owning one: together with the children of the node it leads to, it keeps both alive", f), "Node".into(), format!("Node.{} -> Node.childs -> Node", f)));
				} else {
					r.note_open(format!("the field {} of a node owns nodes", f));
				}
			}
		}
	}
	// nothing gives up freeing
	let seen = reach(p, &roots(p, true));
	for f in seen.keys() {
		let g = &p.fns[*f];
		let Some(b) = g.body.as_ref().filter(|_| g.local) else { continue };
		for (h, line) in uses(p, b).fns {
			r.obligations += 1;
			let c = &p.fns[h];
			if !c.local && leaks(&c.path) {
				r.findings.push(finding(vec!["C17"], format!("{} gives a value up without freeing it", g.path), format!("{} (line {}) calls {}", g.path, line, c.name), format!("{}:{}", g.file, line), way(p, &seen, *f)));
			}
		}
	}
	r.coverage.insert("ownership_graph".into(), json!(graph.iter().flat_map(|(n, fs)| fs.iter().filter(|(_, t)| !t.is_empty()).map(move |(f, t)| format!("{}.{} owns {}", n, f, t.iter().cloned().collect::<Vec<_>>().join(", ")))).collect::<Vec<_>>()));
	r
}

/// owning references inside a value
pub fn strong(v: &crate::val::V, out: &mut Vec<crate::val::Oid>) {
	use crate::val::*;
	match v {
		V::Rc(o) => out.push(*o),
		V::Agg(_, a) | V::Clo(_, a) => a.iter().for_each(|x| strong(x, out)),
		V::Seq(s) => s.iter().for_each(|i| {
			if let It::V(x) = i {
				strong(x, out)
			}
		}),
		V::Cell(_, x) | V::Box(x) => strong(x, out),
		V::Map(m) => m.iter().for_each(|o| {
			if let MapOp::Insert(k, x) | MapOp::OrInsert(k, x) = o {
				strong(k, out);
				strong(x, out);
			}
		}),
		_ => {}
	}
}
/// a cycle of owning references in the abstract heap
pub fn owning_cycle(st: &crate::val::State) -> Option<Vec<crate::val::Oid>> {
	let n = st.heap.len();
	let edges: Vec<Vec<u32>> = st
		.heap
		.iter()
		.map(|o| {
			let mut e = vec![];
			if let Some(v) = o {
				strong(v, &mut e);
			}
			e
		})
		.collect();
	// 0 new, 1 on the way, 2 done
	let mut mark = vec![0u8; n];
	for s in 0..n {
		if mark[s] != 0 {
			continue;
		}
		let mut way: Vec<(usize, usize)> = vec![(s, 0)];
		mark[s] = 1;
		while let Some((o, i)) = way.pop() {
			if i < edges[o].len() {
				way.push((o, i + 1));
				let t = edges[o][i] as usize;
				if t >= n || st.heap[t].is_none() {
					continue;
				}
				match mark[t] {
					0 => {
						mark[t] = 1;
						way.push((t, 0));
					}
					1 => return Some(way.iter().map(|w| w.0 as u32).chain([t as u32]).collect()),
					_ => {}
				}
			} else {
				mark[o] = 2;
			}
		}
	}
	None
}

/// A count or a position that passes through a narrower integer type on its way into a node or an error wraps around.
pub fn widths(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let p = &pg.ir;
	let mut r = Report::new();
	let bits = |t: usize| match &p.tys[t].kind {
		TyKind::Int { bits, .. } => Some(*bits),
		_ => None,
	};
	let ty_of = |b: &Body, o: &Opnd| match o {
		Opnd::Copy(q) | Opnd::Move(q) => pg.place_ty(b, q),
		Opnd::Const(c) => c.ty,
	};
	let prop_of = |adt: usize, variant: usize, field: usize| -> Option<(&'static str, String)> {
		let TyKind::Adt { path, variants, local: true, .. } = &p.tys[adt].kind else { return None };
		let n = path.rsplit("::").next().unwrap_or("");
		let f = &variants.get(variant)?.fields.get(field)?.0;
		Some((
			match (n, f.as_str()) {
				("Node", "index") => "C04",
				("Node", "begin_at" | "end_at") | ("Doc", "position" | "mem_position") => "C25",
				("CodeRegion", _) => "C18",
				_ => return None,
			},
			format!("{}.{}", n, f),
		))
	};
	// function -> locals that hold a narrowed number, and where it was narrowed
	let mut narrow: BTreeMap<usize, BTreeMap<usize, String>> = BTreeMap::new();
	let mut work: Vec<usize> = p.fns.iter().enumerate().filter(|f| f.1.local && f.1.body.is_some()).map(|f| f.0).collect();
	while let Some(f) = work.pop() {
		let g = &p.fns[f];
		let Some(b) = g.body.as_ref().filter(|_| g.local) else { continue };
		let mut t = narrow.get(&f).cloned().unwrap_or_default();
		let from = |t: &BTreeMap<usize, String>, o: &Opnd| match o {
			Opnd::Copy(q) | Opnd::Move(q) if q.proj.iter().all(|x| matches!(x, Proj::Field(_))) => t.get(&q.local).cloned(),
			_ => None,
		};
		loop {
			let n = t.len();
			for bl in &b.blocks {
				for (s, line) in &bl.stmts {
					let Stmt::Assign(to, rv) = s else { continue };
					let src = match rv {
						Rv::Use(o) => from(&t, o),
						Rv::Cast(_, o, ty) => match (bits(ty_of(b, o)), bits(*ty)) {
							(Some(64), Some(w)) if w <= 16 => Some(format!("{}:{} ({})", g.file, line, g.path)),
							(Some(_), Some(_)) => from(&t, o),
							_ => None,
						},
						Rv::Bin(k, x, y) | Rv::Checked(k, x, y) if ["Add", "Sub", "Mul", "AddWithOverflow", "SubWithOverflow"].contains(&k.as_str()) => from(&t, x).or_else(|| from(&t, y)),
						_ => None,
					};
					if let Some(src) = src {
						if to.proj.is_empty() {
							t.entry(to.local).or_insert(src);
						}
					}
				}
			}
			if t.len() == n {
				break;
			}
		}
		for bl in &b.blocks {
			for (s, line) in &bl.stmts {
				let Stmt::Assign(to, rv) = s else { continue };
				let mut into = vec![];
				if let (Rv::Use(o), Some(Proj::Field(k))) = (rv, to.proj.last()) {
					let mut q = to.clone();
					q.proj.pop();
					r.obligations += 1;
					into.push((prop_of(pg.place_ty(b, &q), 0, *k), from(&t, o)));
				}
				if let (Rv::Cast(_, o, ty), Some(Proj::Field(k))) = (rv, to.proj.last()) {
					let mut q = to.clone();
					q.proj.pop();
					r.obligations += 1;
					if bits(ty_of(b, o)).is_some() && bits(*ty).is_some() {
						into.push((prop_of(pg.place_ty(b, &q), 0, *k), from(&t, o)));
					}
				}
				if let Rv::Agg(AggK::Adt(ty, v, _), os) = rv {
					for (k, o) in os.iter().enumerate() {
						r.obligations += 1;
						into.push((prop_of(*ty, *v, k), from(&t, o)));
					}
				}
				for (a, w) in into {
					if let (Some((prop, field)), Some(w)) = (a, w) {
						r.findings.push(finding(vec![prop], format!("{} holds a narrowed number", field), format!("{} is set (line {}) from a number that was cut to at most 16 bits at {}: it wraps around in larger documents", field, line, w), format!("{}:{}", g.file, line), g.path.clone()));
					}
				}
			}
			if let Term::Call { f: Callee::Fn(h), args, .. } = &bl.term {
				if p.fns[*h].local && p.fns[*h].body.is_some() {
					for (i, o) in args.iter().enumerate() {
						if let Some(w) = from(&t, o) {
							let m = narrow.entry(*h).or_default();
							if !m.contains_key(&(i + 1)) {
								m.insert(i + 1, w);
								work.push(*h);
							}
						}
					}
				}
			}
		}
	}
	let mut seen = HashSet::new();
	r.findings.retain(|f| seen.insert(f.key.clone()));
	r
}
