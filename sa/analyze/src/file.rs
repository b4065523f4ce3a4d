//! Parsing a file: where the text comes from that is handed to the parser, on every outcome of the system calls.
use crate::canon::*;
use crate::check::*;
use crate::exec::*;
use crate::ir::*;
use crate::simple::*;
use crate::val::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Arc;

const FORKS: usize = 14;
// labels in the ghost: one per decided question
const YES: u64 = 0;
const FAILED: u64 = 1;
const TESTED: u64 = 2;
const PARSED: u64 = 3;

fn term(op: &str, a: Vec<V>) -> V {
	seq(vec![It::F(Arc::new((op.to_string(), a)))])
}
fn one(v: &V) -> Option<&Arc<(String, Vec<V>)>> {
	match v {
		V::Seq(s) if s.len() == 1 => match &s[0] {
			It::F(f) => Some(f),
			_ => None,
		},
		_ => None,
	}
}
fn bare(pg: &Prog, st: &State, v: &V) -> V {
	let mut v = v.clone();
	for _ in 0..4 {
		match &v {
			V::Ref(_) | V::RefV(..) => match pg.deref(st, &v) {
				Ok(x) => v = x,
				Err(_) => return v,
			},
			V::Box(x) => v = (**x).clone(),
			_ => break,
		}
	}
	v
}
/// derived from the content of a file
fn from_content(v: &V) -> bool {
	match v {
		V::Seq(s) => s.iter().any(|i| match i {
			It::F(f) => f.0 == "content" || f.1.iter().any(from_content),
			It::V(v) => from_content(v),
			_ => false,
		}),
		V::Agg(_, a) => a.iter().any(from_content),
		_ => false,
	}
}
fn is_path(v: &V) -> bool {
	matches!(one(v), Some(f) if matches!(f.0.as_str(), "filename" | "cwd" | "join" | "canonical" | "other path"))
}
/// a yes/no question with both answers
fn ask(st: &mut State, label: u64) -> R<bool> {
	let k = st.ghost::<Keep>().tag.len();
	if k >= FORKS {
		return stuck("too many questions");
	}
	match st.opts.get(k) {
		Some(Some(b)) => {
			let b = *b;
			let l = if b { YES } else { label };
			st.ghost.any_mut().downcast_mut::<Keep>().expect("ghost").tag.push(l);
			Ok(b)
		}
		Some(None) => Err(Stop::Split(vec![Refine::Opt(k as u32, true), Refine::Opt(k as u32, false)])),
		None => stuck("too many questions"),
	}
}
fn note(st: &mut State, label: u64) {
	st.ghost.any_mut().downcast_mut::<Keep>().expect("ghost").tag.push(label | 16);
}
fn outcome(st: &mut State, ok: V) -> R<Option<Out>> {
	Ok(Some(Out::Val(if ask(st, FAILED)? { agg(0, vec![ok]) } else { agg(1, vec![opq("io error")]) })))
}
fn is_ref(pg: &Prog, t: TyId) -> bool {
	matches!(pg.ir.tys[t].kind, TyKind::Ref(..))
}
fn give(pg: &Prog, f: usize, v: V) -> R<Option<Out>> {
	Ok(Some(Out::Val(if is_ref(pg, pg.ir.fns[f].ret) { by_ref(v) } else { v })))
}
/// what designates the file that was asked for: Some(false): surely another one
fn names(v: &V) -> Option<bool> {
	match one(v) {
		Some(f) => match f.0.as_str() {
			"filename" => Some(true),
			"canonical" => names(&f.1[0]),
			"join" => match (one(&f.1[0]).map(|g| g.0.as_str()), names(&f.1[1])) {
				(Some("cwd"), Some(true)) => Some(true),
				(Some("filename"), _) => Some(false),
				_ => None,
			},
			"other path" => Some(false),
			_ => None,
		},
		None => match v {
			V::Seq(s) if s.iter().all(|i| matches!(i, It::C(_))) => Some(false),
			_ => None,
		},
	}
}
fn told(v: &V) -> String {
	match v {
		V::Seq(s) => s
			.iter()
			.map(|i| match i {
				It::F(f) if f.0 == "content" => "the content".to_string(),
				It::F(f) => format!("{}({})", f.0, f.1.iter().map(told).collect::<Vec<_>>().join(", ")),
				It::C(c) => format!("{:?}", c),
				_ => "..".into(),
			})
			.collect::<Vec<_>>()
			.join(" "),
		V::Char(Ch::Lit(c)) => format!("{:?}", c),
		_ => "..".into(),
	}
}
fn content(p: &V) -> V {
	term("content", vec![p.clone()])
}
const SAME: &[&str] = &["chars", "collect", "to_vec", "bytes", "as_bytes", "into_bytes", "from_utf8", "iter", "cloned", "copied", "into_iter", "from_iter", "to_string", "to_owned", "clone", "deref", "as_str", "as_ref", "borrow", "into_string", "into_boxed_str", "into", "from", "into_owned", "as_mut_str", "deref_mut", "into_vec", "from_utf8_unchecked", "from_utf8_unchecked_mut", "by_ref", "as_slice", "leak", "as_mut"];
const OTHER: &[&str] = &["map", "filter", "filter_map", "skip", "take", "skip_while", "take_while", "rev", "flat_map", "lines", "join", "concat", "split_off", "dedup", "swap", "replace", "replacen", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "from_utf8_lossy", "truncate", "pop", "remove", "retain", "drain", "clear", "repeat", "escape_debug", "escape_default", "escape_unicode", "encode_utf16", "index", "get", "line", "push", "push_str", "insert", "insert_str", "extend", "step_by", "chain"];
/// the term is the content itself: Some(false): surely another text
fn unchanged(v: &V) -> Option<bool> {
	match one(v) {
		Some(f) if f.0 == "content" => Some(true),
		Some(f) if SAME.contains(&f.0.as_str()) => f.1.first().and_then(unchanged),
		Some(f) if OTHER.contains(&f.0.as_str()) || f.0.starts_with("trim") || f.0.starts_with("strip_") || f.0.starts_with("split") || f.0.starts_with("rsplit") => Some(false),
		Some(_) => None,
		None => match v {
			V::Seq(s) if s.iter().any(|i| matches!(i, It::F(f) if f.0 == "line")) => Some(false),
			V::Seq(s) if s.iter().any(|i| matches!(i, It::F(_))) && s.iter().any(|i| matches!(i, It::C(_))) => Some(false),
			_ => None,
		},
	}
}
/// stands in for everything outside the crate
fn outside(pg: &Prog, st: &mut State, f: usize, a: &[V]) -> R<Option<Out>> {
	let fun = &pg.ir.fns[f];
	let m = pg.fam[f].1.as_str();
	let p = fun.path.as_str();
	let b: Vec<V> = a.iter().map(|v| bare(pg, st, v)).collect();
	let args = |n: usize| b.get(n).cloned().unwrap_or(V::Undef);
	if p.starts_with("std::env::current_dir") {
		return outcome(st, term("cwd", vec![]));
	}
	let fs = p.starts_with("std::fs::");
	let path = p.contains("std::path::") || p.contains("std::ffi::") || p.contains("OsStr") || fs;
	if path || b.first().is_some_and(is_path) {
		match m {
			"canonicalize" | "absolute" => return outcome(st, term("canonical", vec![args(0)])),
			"join" => return give(pg, f, term("join", vec![args(0), args(1)])),
			"push" => {
				let V::Ref(q) = &a[0] else { return stuck("path") };
				st.write_ptr(q, term("join", vec![args(0), args(1)]))?;
				return Ok(Some(Out::Val(unit())));
			}
			"is_absolute" | "is_relative" | "has_root" | "is_symlink" => return ask(st, TESTED).map(|b| Some(Out::Val(V::Bool(b)))),
			"exists" | "is_file" => return ask(st, FAILED).map(|b| Some(Out::Val(V::Bool(b)))),
			"is_dir" => return ask(st, FAILED).map(|b| Some(Out::Val(V::Bool(!b)))),
			"try_exists" => return outcome(st, V::Bool(true)),
			"metadata" | "symlink_metadata" => return outcome(st, opq("metadata")),
			"read_to_string" if fs && !p.contains("Read") => return outcome(st, content(&args(0))),
			"read" if fs && !p.contains("Read") => return outcome(st, content(&args(0))),
			"open" if p.contains("File") => return outcome(st, term("file", vec![args(0)])),
			"with_extension" | "with_file_name" | "parent" | "file_stem" | "file_name" | "strip_prefix" => return give(pg, f, term("other path", vec![])),
			"new" | "from" | "into" | "as_ref" | "to_path_buf" | "to_owned" | "clone" | "deref" | "as_path" | "as_os_str" | "into_os_string" | "to_os_string" | "borrow" | "into_boxed_path" | "into_path_buf" | "as_mut_os_str" if b.len() == 1 => {
				if matches!(b[0], V::Seq(_)) {
					return give(pg, f, b[0].clone());
				}
			}
			_ => {}
		}
	}
	if p.contains("std::io::BufReader") && matches!(m, "new" | "with_capacity") {
		return Ok(Some(Out::Val(args(b.len() - 1))));
	}
	if p.starts_with("std::io::Error::") || p.contains("io::error::") || p.contains("io::Error") {
		return Ok(Some(Out::Val(opq("error"))));
	}
	if let Some(t) = b.first().and_then(one).filter(|t| t.0 == "file").cloned() {
		match m {
			"read_to_string" | "read_to_end" => {
				if !ask(st, FAILED)? {
					return Ok(Some(Out::Val(agg(1, vec![opq("io error")]))));
				}
				let V::Seq(s) = args(1) else { return stuck("buffer") };
				let V::Ref(q) = &a[1] else { return stuck("buffer") };
				if !s.is_empty() {
					return stuck("a buffer that is not empty");
				}
				st.write_ptr(q, content(&t.1[0]))?;
				let n = st.new_chars(crate::cs::CS::all(), 0, INF);
				return Ok(Some(Out::Val(agg(0, vec![V::Int(Lin::len(n))]))));
			}
			"lines" => return Ok(Some(Out::Val(term("lines", vec![content(&t.1[0])])))),
			"by_ref" | "deref_mut" | "as_mut" => return Ok(Some(Out::Val(a[0].clone()))),
			_ => return stuck(format!("{} of a file", m)),
		}
	}
	if matches!(m, "from" | "into") && pg.ir.tys[fun.ret].name.contains("dyn std::error::Error") && matches!(args(0), V::Seq(_) | V::Opq(_)) {
		return Ok(Some(Out::Val(opq("error"))));
	}
	if !b.iter().any(from_content) {
		return Ok(None);
	}
	if matches!(m, "index" | "index_mut") && matches!(b.get(1), Some(V::Agg(0, x)) if x.is_empty()) {
		return give(pg, f, args(0));
	}
	if matches!(m, "remove" | "pop" | "truncate" | "drain" | "split_off" | "clear" | "retain" | "insert" | "insert_str" | "make_ascii_lowercase" | "make_ascii_uppercase" | "dedup" | "swap") && from_content(&args(0)) {
		if let V::Ref(q) = &a[0] {
			st.write_ptr(q, term(m, b.clone()))?;
			return Ok(Some(Out::Val(if matches!(&pg.ir.tys[fun.ret].kind, TyKind::Tuple(t) if t.is_empty()) { unit() } else { opq("part of the content") })));
		}
	}
	// something is done with the content
	if p.contains("option::Option") || p.contains("result::Result") || p.contains("ops::Try") || p.contains("FromResidual") || p.contains("mem::") {
		return Ok(None);
	}
	if matches!(m, "from_utf8" | "from_utf8_mut") {
		return outcome(st, if is_ref(pg, ok_ty(pg, fun.ret).unwrap_or(0)) { by_ref(args(0)) } else { args(0) });
	}
	if m == "next" && p.contains("Iterator") {
		note(st, TESTED);
		if !ask(st, TESTED)? {
			return Ok(Some(Out::Val(none())));
		}
		let of_lines = one(&args(0)).is_some_and(|t| t.0 == "lines");
		if !of_lines {
			return stuck("a loop over the content");
		}
		let line = term("line", vec![args(0)]);
		let v = if pg.ir.tys[fun.ret].name.contains("Result<") { agg(0, vec![line]) } else { by_ref(line) };
		return Ok(Some(Out::Val(some(v))));
	}
	if matches!(&pg.ir.tys[fun.ret].kind, TyKind::Tuple(t) if t.is_empty()) && matches!(a.first(), Some(V::Ref(_))) {
		if b.first().is_some_and(from_content) && !matches!(m, "push" | "push_str" | "extend" | "reserve" | "shrink_to_fit") {
			let V::Ref(q) = &a[0] else { return stuck("place") };
			st.write_ptr(q, term(m, b.clone()))?;
			return Ok(Some(Out::Val(unit())));
		}
		if matches!(m, "push_str" | "push") {
			let (V::Seq(x), V::Ref(q)) = (&b[0], &a[0]) else { return Ok(None) };
			let mut x = x.to_vec();
			match &b[1] {
				V::Seq(y) => x.extend(y.iter().cloned()),
				V::Char(Ch::Lit(c)) => x.push(It::C(*c)),
				_ => return stuck("push"),
			}
			st.write_ptr(q, seq(x))?;
			return Ok(Some(Out::Val(unit())));
		}
		if matches!(m, "reserve" | "shrink_to_fit") {
			return Ok(Some(Out::Val(unit())));
		}
	}
	match &pg.ir.tys[fun.ret].kind {
		TyKind::Bool => {
			note(st, TESTED);
			ask(st, TESTED).map(|b| Some(Out::Val(V::Bool(b))))
		}
		TyKind::Int { .. } => {
			note(st, TESTED);
			let n = st.new_chars(crate::cs::CS::all(), 0, INF);
			Ok(Some(Out::Val(V::Int(Lin::len(n)))))
		}
		TyKind::Adt { path, args: ta, .. } if path.ends_with("option::Option") => {
			note(st, TESTED);
			if !ask(st, TESTED)? {
				return Ok(Some(Out::Val(none())));
			}
			let t = term(m, b.clone());
			let r = ta.first().is_some_and(|t| is_ref(pg, *t));
			Ok(Some(Out::Val(some(if r { by_ref(t) } else { t }))))
		}
		_ => give(pg, f, if SAME.contains(&m) && b.len() == 1 { args(0) } else { term(m, b.clone()) }),
	}
}
fn ok_ty(pg: &Prog, t: TyId) -> Option<TyId> {
	match &pg.ir.tys[t].kind {
		TyKind::Adt { args, .. } => args.first().copied(),
		_ => None,
	}
}
fn parse_stub(pg: &Prog, st: &mut State, _f: usize, a: &[V]) -> R<Option<Out>> {
	let text = bare(pg, st, &a[0]);
	let o = a[1].clone();
	let k = st.ghost::<Keep>().tag.len();
	let ok = match st.opts.get(k) {
		Some(Some(b)) => *b,
		Some(None) => return Err(Stop::Split(vec![Refine::Opt(k as u32, true), Refine::Opt(k as u32, false)])),
		None => return stuck("too many questions"),
	};
	let g = st.ghost.any_mut().downcast_mut::<Keep>().expect("ghost");
	g.tag.push(PARSED);
	g.v.push(text);
	g.v.push(o);
	Ok(Some(Out::Val(if ok { agg(0, vec![opq("parsed document")]) } else { agg(1, vec![opq("parse error")]) })))
}

pub fn file(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let f = pg.ir.fns.iter().position(|f| f.local && f.body.is_some() && f.path.ends_with("Doc::parse_file"));
	let (Some(f), Some(parse)) = (f, pg.find("rphtml::parser::Doc::parse")) else {
		r.broken = Some("no Doc::parse_file".into());
		return r;
	};
	for g in 0..pg.ir.fns.len() {
		if !pg.ir.fns[g].local {
			pg.intercept.borrow_mut().insert(g, outside);
		}
	}
	pg.intercept.borrow_mut().insert(parse, parse_stub);
	let mut st = State::new(64);
	st.heap.push(None);
	let nopt = match pg.ir.local_adts.iter().find_map(|t| match &pg.ir.tys[*t].kind {
		TyKind::Adt { path, variants, .. } if path.ends_with("ParseOptions") => Some(variants[0].fields.len()),
		_ => None,
	}) {
		Some(n) => n,
		None => {
			r.broken = Some("no ParseOptions".into());
			return r;
		}
	};
	let opts = agg(0, (0..nopt).map(|i| V::Opt(40 + i as u32, false)).collect());
	let name = term("filename", vec![]);
	let args = vec![by_ref(name), opts.clone()];
	st.ghost = Box::new(Keep { v: vec![opts], tag: vec![] });
	let mut out = vec![];
	if start(pg, &mut st, f, args).is_err() {
		r.broken = Some("other arguments".into());
		return r;
	}
	let mut b = 60_000;
	run_(pg, st, &mut out, &mut b, Way::Paths);
	let mut decided = 0;
	let mut seen = HashSet::new();
	for (e, st) in &out {
		r.obligations += 1;
		let at = pg.where_(st);
		match judge_end(e, st) {
			Ok(None) => decided += 1,
			Ok(Some(m)) => {
				if seen.insert(m.clone()) {
					r.findings.push(finding(vec!["C19"], format!("parse_file: {}", m), format!("Doc::parse_file: {}", m), at, trail(st)));
				}
			}
			Err(Stop::Stuck(m)) => r.note_open(format!("parse_file: {} in {}", m, pg.where_fn(st))),
			Err(_) => {}
		}
		r.samples.push(json!(trail(st)));
	}
	r.coverage.insert("paths_of_parse_file".into(), json!(out.len()));
	if decided == 0 && r.findings.is_empty() {
		r.lost = Some("parse_file could not be followed".into());
	}
	r
}
fn trail(st: &State) -> String {
	st.ghost::<Keep>()
		.tag
		.iter()
		.map(|t| match t & 15 {
			YES => "yes/ok",
			FAILED => "a system call fails",
			TESTED => "a test says no",
			PARSED => "the parser is called",
			_ => "?",
		})
		.collect::<Vec<_>>()
		.join(", ")
}
fn judge_end(e: &End, st: &State) -> R<Option<String>> {
	let g = st.ghost::<Keep>();
	let failed = g.tag.iter().any(|t| *t == FAILED);
	let tested = g.tag.iter().any(|t| t & 15 == TESTED && t & 16 != 0);
	let parsed = g.tag.iter().filter(|t| **t == PARSED).count();
	match e {
		End::Stuck(m) => stuck(m.clone()),
		End::Source => Ok(None),
		End::Panic(m) => Ok(Some(format!("panics ({}) when {}", m, if failed { "the file cannot be read" } else { "the file can be read" }))),
		End::Done(v) => {
			for k in 0..parsed {
				let (text, o) = (&g.v[1 + 2 * k], &g.v[2 + 2 * k]);
				match one(text).filter(|t| t.0 == "content").map(|t| names(&t.1[0])) {
					Some(Some(true)) => {}
					Some(Some(false)) => return Ok(Some("reads another file".into())),
					Some(None) => return stuck("which file is read"),
					None => match unchanged(text) {
						Some(true) => {}
						Some(false) => return Ok(Some(format!("the text that is parsed is not the content of the file but {}", told(text)))),
						None if failed && !from_content(text) => return Ok(Some("something is parsed though the file cannot be read".into())),
						None => {
							if tested || from_content(text) {
								return stuck(format!("parses {}", short(text)));
							}
							return Ok(Some("the text that is parsed is not the content of the file".into()));
						}
					},
				}
				let same = match (o, &g.v[0]) {
					(V::Agg(_, x), V::Agg(_, y)) => {
						let val = |v: &V| match v {
							V::Opt(i, n) => st.opts[*i as usize].map_or(v.clone(), |b| V::Bool(b != *n)),
							v => v.clone(),
						};
						Some(x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| val(a) == val(b)))
					}
					_ => None,
				};
				match same {
					Some(true) => {}
					Some(false) => return Ok(Some("the file is parsed with other options".into())),
					None => return stuck("options"),
				}
			}
			match v {
				V::Agg(0, x) if x[0] == opq("parsed document") && parsed > 0 => Ok(if failed && parsed == 0 { Some("a document without a file".into()) } else { None }),
				V::Agg(0, _) => stuck("another document"),
				V::Agg(1, x) if x[0] == opq("parse error") => Ok(None),
				V::Agg(1, _) if failed => Ok(None),
				V::Agg(1, _) if parsed > 0 => stuck("another error"),
				V::Agg(1, _) => Ok(Some("rejects a file that can be read without parsing it".into())),
				_ => stuck("result"),
			}
		}
	}
}
