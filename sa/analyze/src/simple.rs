//! Predicates over single characters and over names, decided on the whole domain at once.
use crate::canon::*;
use crate::check::*;
use crate::cs::CS;
use crate::exec::*;
use crate::ir::*;
use crate::parse::*;
use crate::val::*;
use serde_json::json;
use std::sync::Arc;

pub fn finding(props: Vec<&'static str>, key: String, text: String, at: String, trail: String) -> Finding {
	Finding { props, key, text, trail, steps: vec![], at }
}
/// all ends of a call
pub fn ends(pg: &Prog, f: usize, st: State, args: Vec<V>, budget: u64, way: Way) -> Vec<(End, State)> {
	let mut st = st;
	st.heap.push(None);
	st.ghost = Box::new(Keep { v: args.clone(), tag: vec![] });
	let mut out = vec![];
	if start(pg, &mut st, f, args).is_err() {
		return vec![(End::Stuck("no such signature".into()), st)];
	}
	let mut b = budget;
	run_(pg, st, &mut out, &mut b, way);
	out
}
pub fn kept(st: &State) -> &[V] {
	&st.ghost::<Keep>().v
}
pub fn by_ref(v: V) -> V {
	V::RefV(Arc::new(v), false)
}
/// the items of a text behind references
pub fn text_of(v: &V) -> Option<Vec<It>> {
	match v {
		V::RefV(v, _) => text_of(v),
		V::Seq(s) => Some(s.to_vec()),
		_ => None,
	}
}
/// whether the text may be the word (`fold`: in some case)
pub fn could_be(st: &State, items: &[It], w: &[char], fold: bool) -> bool {
	let n = w.len();
	let mut at = vec![false; n + 1];
	at[0] = true;
	for it in items {
		let mut nx = vec![false; n + 1];
		match it {
			It::C(c) => {
				for i in 0..n {
					if at[i] && (*c == w[i] || fold && c.to_ascii_lowercase() == w[i]) {
						nx[i + 1] = true;
					}
				}
			}
			It::S(s, m) => {
				let g = st.seg(*s);
				let img = m.image(&g.set);
				let ok = |c: char| img.has(c) || fold && img.has(c.to_ascii_uppercase());
				for i in 0..=n {
					if !at[i] {
						continue;
					}
					let mut k = 0;
					loop {
						if k >= g.min as usize {
							nx[i + k] = true;
						}
						if i + k >= n || k as u64 >= g.max as u64 || !ok(w[i + k]) {
							break;
						}
						k += 1;
					}
				}
			}
			_ => return true,
		}
		at = nx;
	}
	at[n]
}
/// the text surely is one of the words
pub fn surely_one(st: &State, items: &[It], words: &[&str], fold: bool) -> bool {
	let mut sets: Vec<Vec<char>> = vec![];
	for it in items {
		match it {
			It::C(c) => sets.push(vec![*c]),
			It::S(s, m) => {
				let g = st.seg(*s);
				let (Some(n), img) = (g.exact(), m.image(&g.set)) else { return false };
				let mut v: Vec<char> = (0u8..128).map(|b| b as char).filter(|c| img.has(*c)).collect();
				if !img.subset(&CS::ascii(|_| true)) || v.len() > 8 {
					return false;
				}
				if fold {
					v = v.iter().map(|c| c.to_ascii_lowercase()).collect();
					v.sort();
					v.dedup();
				}
				for _ in 0..n {
					sets.push(v.clone());
				}
			}
			_ => return false,
		}
		if sets.len() > 16 {
			return false;
		}
	}
	let mut all: Vec<String> = vec![String::new()];
	for s in sets {
		let mut nx = vec![];
		for a in &all {
			for c in &s {
				let c = if fold { c.to_ascii_lowercase() } else { *c };
				nx.push(format!("{}{}", a, c));
			}
		}
		all = nx;
		if all.len() > 256 {
			return false;
		}
	}
	all.iter().all(|a| words.contains(&a.as_str()))
}
pub fn show_text(st: &State, items: &[It]) -> String {
	let mut s = String::new();
	for it in items {
		match it {
			It::C(c) => s.push_str(&c.escape_debug().to_string()),
			It::S(x, m) => {
				let g = st.seg(*x);
				s += &format!("{:?}", m.image(&g.set));
				if g.exact() != Some(1) {
					s += &format!("{{{},{}}}", g.min, if g.max == INF { "".into() } else { g.max.to_string() });
				}
			}
			o => s += &format!("{:?}", o),
		}
	}
	s
}
fn answer(v: &V) -> Option<bool> {
	match v {
		V::Bool(b) => Some(*b),
		_ => None,
	}
}

fn noncharacters() -> CS {
	let mut s = CS::range(0xFDD0, 0xFDEF);
	for p in 0..=16u32 {
		s = s.or(&CS::range(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF));
	}
	s
}
pub const VOIDS: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

pub fn tables(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let ascii = CS::ascii(|_| true);
	let key = CS::ascii(|c| c.is_ascii_alphanumeric() || "_-.:".contains(c)).or(&ascii.not().minus(&noncharacters()));
	let value = CS::of("\t\n\u{c}\r \u{0}\"'<>/=`").not();
	let preds: [(&str, CS); 3] = [("is_non_character", noncharacters()), ("is_char_available_in_key", key), ("is_char_available_in_value", value)];
	let mut found = 0;
	for (name, want) in preds {
		let Some(f) = pg.find(&format!("rphtml::util::{}", name)) else { continue };
		found += 1;
		let mut st = State::new(0);
		let s = st.new_chars(CS::all(), 1, 1);
		let mut paths = 0;
		for (e, st) in ends(pg, f, st, vec![by_ref(V::Char(Ch::Src(s, Map::Id)))], 200_000, Way::Paths) {
			r.obligations += 1;
			paths += 1;
			let set = match &kept(&st)[0] {
				V::RefV(v, _) => match &**v {
					V::Char(Ch::Src(s, _)) => st.seg(*s).set.clone(),
					V::Char(Ch::Lit(c)) => CS::one(*c),
					_ => CS::empty(),
				},
				_ => CS::empty(),
			};
			match e {
				End::Done(v) => match answer(&v) {
					Some(b) => {
						let bad = if b { set.minus(&want) } else { set.and(&want) };
						if !bad.is_empty() {
							r.findings.push(finding(vec!["C20"], format!("{} is {} for {:?}", name, b, bad), format!("{}: answers {} for the characters {:?}", name, b, bad), format!("rphtml::util::{}", name), format!("one character in {:?}", set)));
						}
					}
					None => r.note_open(format!("{}: {}", name, short(&v))),
				},
				End::Panic(m) => r.findings.push(finding(vec!["C20"], format!("{} panics", name), format!("{}: panic {}", name, m), pg.where_(&st), format!("one character in {:?}", set))),
				End::Stuck(m) => r.note_open(format!("{}: {}", name, m)),
				End::Source => {}
			}
		}
		r.samples.push(json!({"predicate": name, "classes_of_characters_with_one_answer": paths}));
	}
	// names
	let ft = node_types(pg);
	if let (Some(f), Some(ft)) = (pg.find("rphtml::parser::allow_insert"), &ft) {
		found += 1;
		for (k, tn) in ft {
			let mut st = State::new(0);
			let n = st.new_chars(CS::all(), 0, INF);
			let args = vec![by_ref(seq(vec![It::S(n, Map::Id)])), agg(*k, vec![])];
			let mut paths = 0;
			for (e, st) in ends(pg, f, st, args, 400_000, Way::Paths) {
				r.obligations += 1;
				paths += 1;
				let Some(name) = text_of(&kept(&st)[0]) else { continue };
				let shown = show_text(&st, &name);
				match e {
					End::Done(v) => {
						let Some(b) = answer(&v) else {
							r.note_open(format!("allow_insert: {}", short(&v)));
							continue;
						};
						let text = tn == "Text" || tn == "SpacesBetweenTag";
						let mut no: Vec<&str> = VOIDS.to_vec();
						if !text {
							no.extend(["title", "textarea"]);
						}
						let special = ["svg", "math"];
						let bad = if tn == "XMLCDATA" {
							if b {
								!surely_one(&st, &name, &special, true)
							} else {
								special.iter().any(|w| could_be(&st, &name, &w.chars().collect::<Vec<_>>(), true))
							}
						} else if b {
							no.iter().any(|w| could_be(&st, &name, &w.chars().collect::<Vec<_>>(), true))
						} else {
							!surely_one(&st, &name, &no, true)
						};
						if bad {
							r.findings.push(finding(vec!["C20"], format!("allow_insert({}, {}) is {}", shown, tn, b), format!("inserting {} into an element named {}: answers {}", tn, shown, b), "rphtml::parser::allow_insert".into(), shown));
						}
					}
					End::Panic(m) => r.findings.push(finding(vec!["C20"], format!("allow_insert({}) panics", tn), m, pg.where_(&st), shown)),
					End::Stuck(m) => r.note_open(format!("allow_insert: {}", m)),
					End::Source => {}
				}
			}
			r.samples.push(json!({"allow_insert": tn, "classes_of_names_with_one_answer": paths}));
		}
	}
	if let Some(f) = pg.find("rphtml::parser::is_content_tag") {
		found += 1;
		let words = ["script", "style", "title", "textarea"];
		for (case, fold) in [(none(), Some(false)), (some(agg(0, vec![])), variant(pg, "NameCase", 0).map(|n| n == "Lower")), (some(agg(1, vec![])), variant(pg, "NameCase", 1).map(|n| n == "Lower"))] {
			let Some(fold) = fold else { continue };
			let mut st = State::new(0);
			let n = st.new_chars(CS::all(), 0, INF);
			let args = vec![by_ref(seq(vec![It::S(n, Map::Id)])), by_ref(case.clone())];
			for (e, st) in ends(pg, f, st, args, 200_000, Way::Paths) {
				r.obligations += 1;
				let Some(name) = text_of(&kept(&st)[0]) else { continue };
				let shown = show_text(&st, &name);
				match e {
					End::Done(v) => {
						let Some(b) = answer(&v) else {
							r.note_open(format!("is_content_tag: {}", short(&v)));
							continue;
						};
						let bad = if b { !surely_one(&st, &name, &words, fold) } else { words.iter().any(|w| could_be(&st, &name, &w.chars().collect::<Vec<_>>(), fold)) };
						if bad {
							r.findings.push(finding(vec!["C20"], format!("is_content_tag({}) is {}", shown, b), format!("is_content_tag of {} with case {}: answers {}", shown, short(&case), b), "rphtml::parser::is_content_tag".into(), shown));
						}
					}
					End::Panic(m) => r.findings.push(finding(vec!["C20"], "is_content_tag panics".into(), m, pg.where_(&st), shown)),
					End::Stuck(m) => r.note_open(format!("is_content_tag: {}", m)),
					End::Source => {}
				}
			}
		}
	}
	r.coverage.insert("functions_decided".into(), json!(found));
	if found == 0 {
		r.broken = Some("none of the predicates found".into());
	}
	r
}
pub fn variant(pg: &Prog, ty: &str, i: usize) -> Option<String> {
	pg.ir.tys.iter().find_map(|t| match &t.kind {
		TyKind::Adt { path, variants, .. } if path.ends_with(&format!("::{}", ty)) => variants.get(i).map(|v| v.name.clone()),
		_ => None,
	})
}
pub fn node_types(pg: &Prog) -> Option<Vec<(u32, String)>> {
	let mut v = vec![];
	let mut i = 0;
	while let Some(n) = variant(pg, "NodeType", i) {
		v.push((i as u32, n));
		i += 1;
	}
	if v.is_empty() {
		None
	} else {
		Some(v)
	}
}
/// places of the fields of a struct
pub fn fields(pg: &Prog, ty: &str) -> std::collections::HashMap<String, usize> {
	let mut m = std::collections::HashMap::new();
	for t in &pg.ir.tys {
		if let TyKind::Adt { path, variants, .. } = &t.kind {
			if path.ends_with(&format!("::{}", ty)) && variants.len() == 1 {
				for (i, f) in variants[0].fields.iter().enumerate() {
					m.insert(f.0.clone(), i);
				}
				return m;
			}
		}
	}
	m
}
/// line and column of an index, for all short texts
pub fn regions(pg: &Prog, thorough: bool, _prop: &str) -> Report {
	let mut r = Report::new();
	let Some(f) = pg.find("rphtml::position::CodeRegion::from_context_index") else {
		r.note_open("no function from an index to a region".into());
		return r;
	};
	let fl = fields(pg, "CodeRegion");
	let (Some(fi), Some(fl_), Some(fc)) = (fl.get("index"), fl.get("line"), fl.get("col")) else {
		r.note_open("regions have other fields".into());
		return r;
	};
	let most = if thorough { 6 } else { 4 };
	let (cr, lf) = (CS::one('\r'), CS::one('\n'));
	for n in 0..=most {
		for k in 0..=n {
			let mut st = State::new(0);
			let items: Vec<It> = (0..n).map(|_| It::S(st.new_chars(CS::all(), 1, 1), Map::Id)).collect();
			let args = vec![by_ref(seq(items)), int(k as i64)];
			for (e, st) in ends(pg, f, st, args, 100_000, Way::Paths) {
				r.obligations += 1;
				let Some(text) = text_of(&kept(&st)[0]) else { continue };
				let shown = show_text(&st, &text);
				let v = match e {
					End::Done(v) => v,
					End::Panic(m) => {
						r.findings.push(finding(vec!["C18", "C01"], "line and column: panic".into(), format!("the region of index {} in {}: panic {}", k, shown, m), pg.where_(&st), shown));
						continue;
					}
					End::Stuck(m) => {
						r.note_open(format!("region: {}", m));
						continue;
					}
					End::Source => continue,
				};
				let V::Agg(_, fs) = &v else { continue };
				let num = |i: usize| match &fs[i] {
					V::Int(l) => l.konst(),
					_ => None,
				};
				let (Some(i), Some(l), Some(c)) = (num(*fi), num(*fl_), num(*fc)) else {
					r.note_open("region: numbers unknown".into());
					continue;
				};
				// every choice of line breaks this path stands for
				let sets: Vec<Vec<u8>> = text
					.iter()
					.map(|it| {
						let set = match it {
							It::C(c) => CS::one(*c),
							It::S(s, _) => st.seg(*s).set.clone(),
							_ => CS::all(),
						};
						let mut v = vec![];
						if !set.and(&cr).is_empty() {
							v.push(b'r');
						}
						if !set.and(&lf).is_empty() {
							v.push(b'n');
						}
						if !set.minus(&cr).minus(&lf).is_empty() {
							v.push(b'x');
						}
						v
					})
					.collect();
				let mut all: Vec<Vec<u8>> = vec![vec![]];
				for s in &sets {
					all = all.into_iter().flat_map(|a| s.iter().map(move |c| { let mut a = a.clone(); a.push(*c); a })).collect();
				}
				for t in all {
					let (mut line, mut col) = (1, 0);
					for (j, c) in t.iter().enumerate().take(k + 1) {
						match c {
							b'r' => {
								line += 1;
								col = 0;
							}
							b'n' => {
								if j == 0 || t[j - 1] != b'r' {
									line += 1;
									col = 0;
								}
							}
							_ => col += 1,
						}
					}
					if (i, l, c) != (k as i64, line, col) {
						let t: String = t.iter().map(|c| match c { b'r' => "CR ", b'n' => "LF ", _ => "x " }).collect();
						r.findings.push(finding(vec!["C18"], "line and column of an index".into(), format!("index {} in the text {}: index {} line {} column {}, expected line {} column {}", k, t, i, l, c, line, col), "rphtml::position::CodeRegion::from_context_index".into(), t));
						break;
					}
				}
			}
		}
	}
	r.findings.truncate(3);
	r.coverage.insert("region_texts_up_to".into(), json!(most));
	r
}

/// what an error prints: literal pieces, or the number of the part printed there
const MESSAGES: &[(&str, &str)] = &[
	("WrongTag", "wrong tag <{0}"),
	("WrongEndTag", "wrong end tag </{0}"),
	("ChildInSpecialTag", "wrong child tag '<{1}' in tag '{0}'"),
	("UnmatchedClosedTag", "unmatched tag '</{0}>'"),
	("UnexpectedCharacter", "unexpected character '{0}'"),
	("UnclosedTag", "the tag '{0}' is not closed"),
	("NoSpaceBetweenAttr", "the tag's attribute should split by spaces,wrong character '{0}'"),
	("WrongHtmlDoctype", "unexpected character '{0}' in html doctype decalaration"),
	("UnrecognizedTag", "unrecognized tag '{0}', do you mean '{1}'"),
	("WrongTagIdentity", "wrong tag name '{0}'"),
	("WrongRootTextNode", "not allowed text '{0}' in root node"),
	("WrongCaseSensitive", "because the config of 'case-sensitive', the tag '{0}' is not matched correctly."),
	("WrongSelfClosing", "wrong self-closing tag '{0}',make sure you set the config allow self-closing."),
	("CommonError", "{0}"),
];
fn same_print(pg: &Prog, st: &State, got: &[It], want: &[It]) -> R<crate::render::Same> {
	use crate::render::{compare, Same};
	let split = |v: &[It]| {
		let mut texts = vec![vec![]];
		let mut nums = vec![];
		for i in v {
			match i {
				It::V(V::Int(l)) => {
					nums.push(l.clone());
					texts.push(vec![]);
				}
				o => texts.last_mut().unwrap().push(o.clone()),
			}
		}
		(texts, nums)
	};
	let ((a, x), (b, y)) = (split(got), split(want));
	if x.len() != y.len() {
		return Ok(Same::No);
	}
	for (p, q) in x.iter().zip(&y) {
		if !st.eq0(&p.sub(q))? {
			return Ok(Same::No);
		}
	}
	for (p, q) in a.iter().zip(&b) {
		match compare(pg, st, p, q)? {
			Same::Yes => {}
			o => return Ok(o),
		}
	}
	Ok(Same::Yes)
}
/// what errors print
pub fn messages(pg: &Prog, _thorough: bool, _prop: &str) -> Report {
	use crate::render::{Mk, Same};
	let mut r = Report::new();
	let mut decided = 0;
	let mut tried = vec![];
	let kinds: Vec<(u32, String, usize)> = pg
		.ir
		.tys
		.iter()
		.find_map(|t| match &t.kind {
			TyKind::Adt { path, variants, .. } if path.ends_with("error::ErrorKind") => {
				Some(variants.iter().enumerate().map(|(i, v)| (i as u32, v.name.clone(), v.fields.len())).collect())
			}
			_ => None,
		})
		.unwrap_or_default();
	let text_field = |name: &str, k: usize| -> bool {
		pg.ir.tys.iter().any(|t| match &t.kind {
			TyKind::Adt { path, variants, .. } if path.ends_with("error::ErrorKind") => {
				variants.iter().any(|v| v.name == name && v.fields.get(k).is_some_and(|f| !matches!(pg.ir.tys[f.1].kind, TyKind::Char)))
			}
			_ => false,
		})
	};
	// the parts of an error of some kind and the text expected for it
	let make = |mk: &mut Mk, i: u32, name: &str, n: usize| -> (V, Vec<It>) {
		let parts: Vec<V> = (0..n)
			.map(|k| if text_field(name, k) { seq(vec![It::S(mk.st.new_chars(CS::all(), 0, INF), Map::Id)]) } else { V::Char(Ch::Src(mk.st.new_chars(CS::all(), 1, 1), Map::Id)) })
			.collect();
		let mut want = vec![];
		let Some(m) = MESSAGES.iter().find(|m| m.0 == name) else { return (V::Undef, want) };
		let mut cs = m.1.chars().peekable();
		while let Some(c) = cs.next() {
			match (c, cs.peek().and_then(|d| d.to_digit(10))) {
				('{', Some(k)) if (k as usize) < n => {
					match &parts[k as usize] {
						V::Char(c) => want.push(ch_item(c)),
						o => want.extend(o.items()),
					}
					cs.next();
					cs.next();
				}
				_ => want.push(It::C(c)),
			}
		}
		(agg(i, parts), want)
	};
	let place = |mk: &mut Mk| -> R<(V, Vec<It>)> {
		let n: Vec<V> = (0..3).map(|_| V::Int(Lin::len(mk.st.new_seg(Seg { set: CS::all(), min: 0, max: INF, origin: u32::MAX, chars: false })))).collect();
		let v = mk.record("CodeRegion", &[("line", n[0].clone()), ("col", n[1].clone()), ("index", n[2].clone())])?;
		let mut want = lits("[line:");
		want.push(It::V(n[0].clone()));
		want.extend(lits(",col:"));
		want.push(It::V(n[1].clone()));
		want.extend(lits(",index:"));
		want.push(It::V(n[2].clone()));
		want.extend(lits("]"));
		Ok((v, want))
	};
	let mut go = |what: String, ty: &str, mk: Mk, v: V, want: Vec<It>, props: Vec<&'static str>, r: &mut Report| {
		let Some(f) = pg.find(&format!("<rphtml::{} as std::fmt::Display>::fmt", ty)) else {
			r.note_open(format!("{} is not printed by a function of its own", ty));
			return;
		};
		let mut st = mk.st;
		let o = st.alloc(seq(vec![]));
		let out = V::Ref(Arc::new(Ptr { base: Base::H(o), path: vec![] }));
		tried.push(what.clone());
		decided += crate::tree::judge(pg, &what, f, st, vec![by_ref(v), out], vec![seq(want)], Way::Paths, r, |st, e| {
			let want = kept(st)[0].items();
			match e {
				End::Done(V::Agg(0, _)) => {
					let Some(V::Seq(got)) = st.heap[o as usize].as_deref() else { return stuck("output") };
					match same_print(pg, st, got, &want)? {
						Same::Yes => Ok(None),
						Same::No => Ok(Some((props.clone(), format!("prints {}; expected {}", show_text(st, got), show_text(st, &want))))),
						Same::Unclear(m) => stuck(m),
					}
				}
				End::Done(V::Agg(1, _)) => Ok(Some((props.clone(), "printing fails".into()))),
				End::Panic(m) => Ok(Some((props.clone(), m.clone()))),
				_ => stuck("formatted by other means"),
			}
		});
	};
	for (i, name, n) in &kinds {
		let mut mk = Mk::new(pg);
		let (v, want) = make(&mut mk, *i, name, *n);
		if let V::Undef = v {
			r.note_open(format!("no message known for {}", name));
			continue;
		}
		go(format!("the message of {}", name), "error::ErrorKind", mk, v, want, vec!["C28"], &mut r);
	}
	let mut mk = Mk::new(pg);
	if let Ok((v, want)) = place(&mut mk) {
		go("the place of an error".into(), "position::CodeRegion", mk, v, want, vec!["C28", "C18"], &mut r);
	}
	for (i, name, n) in &kinds {
		let mut mk = Mk::new(pg);
		let Ok((p, mut want)) = place(&mut mk) else { continue };
		let (k, more) = make(&mut mk, *i, name, *n);
		if let V::Undef = k {
			continue;
		}
		want.extend(more);
		let Ok(v) = mk.record("ParseError", &[("region", p), ("kind", k)]) else { continue };
		go(format!("an error of kind {}", name), "error::ParseError", mk, v, want, vec!["C28"], &mut r);
	}
	r.coverage.insert("messages_decided".into(), json!(decided));
	if decided == 0 {
		r.lost = Some("no message could be followed".into());
	}
	r
}
