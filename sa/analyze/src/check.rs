//! One run of a check: which analyses decide a property, what they found, and the evidence.
use crate::exec::*;
use crate::ir::Program;
use crate::parse::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub struct Report {
	pub findings: Vec<Finding>,
	/// what was analysed, by name
	pub coverage: BTreeMap<String, Value>,
	/// places where the analysis gave up (no verdict)
	pub open: BTreeMap<String, u64>,
	/// obligations: checked, without verdict
	pub obligations: u64,
	pub undecided: u64,
	pub samples: Vec<Value>,
	/// the analysis could not be set up at all
	/// what the analysis starts from is not there
	pub broken: Option<String>,
	/// the code is there and the models do not reach through it
	pub lost: Option<String>,
}
impl Report {
	pub fn new() -> Report {
		Report { findings: vec![], coverage: BTreeMap::new(), open: BTreeMap::new(), obligations: 0, undecided: 0, samples: vec![], broken: None, lost: None }
	}
	pub fn note_open(&mut self, s: String) {
		*self.open.entry(s).or_default() += 1;
		self.undecided += 1;
	}
	pub fn add(&mut self, o: Report) {
		self.findings.extend(o.findings);
		self.coverage.extend(o.coverage);
		for (k, n) in o.open {
			*self.open.entry(k).or_default() += n;
		}
		self.obligations += o.obligations;
		self.undecided += o.undecided;
		self.samples.extend(o.samples);
		if self.lost.is_none() {
			self.lost = o.lost;
		}
		if self.broken.is_none() {
			self.broken = o.broken;
		}
	}
}

pub struct Engine {
	pub name: &'static str,
	pub props: &'static [&'static str],
	pub run: fn(&Prog, bool, &str) -> Report,
}

pub fn parse_engine(pg: &Prog, thorough: bool, prop: &str) -> Report {
	if let Some(f) = pg.find("rphtml::position::CodeRegion::from_context_index") {
		pg.intercept.borrow_mut().insert(f, region_stub);
	}
	let (more, limit, tries) = if thorough { (1, 12000, 20000) } else { (0, 1200, 10000) };
	let (mut es, pool) = explore_all(pg, limit, more);
	let mut r = Report::new();
	let mut unsure = BTreeMap::new();
	let mut seen: HashSet<String> = HashSet::new();
	let mut tried = 0;
	let t0 = Instant::now();
	let bounds = crate::parse::bounds(pg, 12);
	r.coverage.insert("lengths_named_in_the_code".into(), json!(bounds));
	let mut left: Vec<(usize, String)> = vec![];
	let mut foci = vec![];
	let mut ends: BTreeMap<String, u64> = BTreeMap::new();
	for (i, e) in es.iter_mut().enumerate() {
		let keys: Vec<String> = e.found.values().filter(|f| prop == "*" || f.props.contains(&prop)).map(|f| f.key.clone()).collect();
		for k in keys {
			if seen.contains(&k) || tried > 24 || t0.elapsed().as_secs() > 90 {
				continue;
			}
			tried += 1;
			match e.confirm(&k, tries) {
				Some(f) => {
					seen.insert(k);
					r.findings.push(f)
				}
				None => {
					unsure.insert(k.clone(), e.found[&k].trail.clone());
					left.push((i, k));
				}
			}
		}
		r.obligations += e.ends.values().sum::<u64>();
		for (k, n) in &e.ends {
			*ends.entry(k.clone()).or_default() += n;
		}
		for (k, n) in &e.stuck {
			*r.open.entry(k.clone()).or_default() += n;
			r.undecided += n;
		}
		r.samples.extend(e.samples.iter().take(2).map(|s| json!(s)));
		foci.push(json!({"restricted_to": e.focus.name, "open_elements": e.focus.depth, "options": e.focus.opts, "states": e.states, "steps": e.steps, "cut_at_depth": e.cut, "fixpoint": e.fixpoint}));
		r.coverage.entry("product_states".into()).and_modify(|v| *v = json!(v.as_u64().unwrap() + e.states)).or_insert(json!(e.states));
	}
	// what needs a long run of characters
	let t0 = Instant::now();
	for (i, k) in left {
		if bounds.is_empty() || seen.contains(&k) || t0.elapsed().as_secs() > 120 {
			continue;
		}
		if let Some(f) = es[i].confirm_long(&k, &bounds) {
			seen.insert(k);
			r.findings.push(f);
		}
	}
	r.coverage.insert("explorations".into(), json!(foci));
	r.coverage.insert("ends_compared".into(), json!(ends));
	r.coverage.insert("not_confirmed_without_joins".into(), json!(unsure));
	let mut entered: HashSet<String> = HashSet::new();
	let mut blocks = 0;
	for p in pool.iter() {
		let p = p.lock().unwrap();
		entered.extend(p.entered());
		blocks += p.stats.borrow().blocks;
	}
	let mut entered: Vec<String> = entered.into_iter().collect();
	entered.sort();
	r.coverage.insert("blocks_interpreted".into(), json!(blocks));
	r.coverage.insert("functions_entered".into(), json!(entered));
	if es.iter().map(|e| e.states).sum::<u64>() < 50 {
		r.lost = Some("the parser could not be followed".into());
	}
	r
}

pub fn engines() -> Vec<Engine> {
	vec![Engine { name: "parser × language product", props: &["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C17", "C18", "C21", "C24", "C25", "C26"], run: parse_engine }, Engine { name: "predicates over all characters and names", props: &["C20"], run: crate::simple::tables }, Engine { name: "line and column of an index", props: &["C18"], run: crate::simple::regions }, Engine { name: "what errors print", props: &["C28", "C18"], run: crate::simple::messages }, Engine { name: "renderer on symbolic trees", props: &["C02", "C10", "C11", "C12", "C13", "C14", "C16"], run: crate::render::render }, Engine { name: "cloning on symbolic trees", props: &["C15", "C16", "C17"], run: crate::tree::clone }, Engine { name: "documents and fragments on symbolic trees", props: &["C22", "C16"], run: crate::tree::document }, Engine { name: "constructors, setters, look-ups and defaults", props: &["C27", "C13", "C24", "C26"], run: crate::tree::parts }, Engine { name: "effects over the call graph", props: &["C16"], run: crate::effects::effects }, Engine { name: "widths of counts and positions", props: &["C04", "C18", "C25"], run: crate::effects::widths }, Engine { name: "ownership on the type graph", props: &["C17"], run: crate::effects::ownership }, Engine { name: "provenance of the text that parse_file hands to the parser", props: &["C19"], run: crate::file::file }]
}

pub fn check(p: Program, prop: &str, tier: &str, verif: &str) -> i32 {
	let t0 = Instant::now();
	let thorough = tier == "thorough";
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let pg = Prog::new(p);
	let mut rep = Report::new();
	let mut names = vec![];
	for e in engines() {
		if e.props.contains(&prop) {
			pg.intercept.borrow_mut().clear();
			names.push(e.name);
			rep.add((e.run)(&pg, thorough, prop));
		}
	}
	if names.is_empty() {
		eprintln!("no analysis decides {}", prop);
		return 2;
	}
	let known: Vec<(String, String)> = std::fs::read_to_string(format!("{}/known-findings.txt", verif))
		.unwrap_or_default()
		.lines()
		.filter_map(|l| {
			let l = l.strip_prefix("known: property=")?;
			let (p, k) = l.split_once(' ')?;
			Some((p.to_string(), k.trim().to_string()))
		})
		.collect();
	let mut bad = vec![];
	for f in rep.findings.iter().filter(|f| f.props.contains(&prop)) {
		if known.iter().any(|(p, k)| p == prop && *k == f.key) {
			println!("KNOWN-FINDING: property={} {}", prop, f.key);
		} else {
			bad.push(f);
		}
	}
	let mut cov = json!({
		"explanation": format!("abstract interpretation of the compiled MIR; analyses: {}; every obligation is one end state, call site or table entry compared with the rule", names.join(", ")),
		"obligations": rep.obligations,
		"discharged": rep.obligations.saturating_sub(bad.len() as u64),
		"without_verdict": rep.undecided,
		"functions_in_ir": pg.ir.fns.iter().filter(|f| f.local && f.body.is_some()).count(),
		"samples": rep.samples.iter().take(12).collect::<Vec<_>>(),
		"no_verdict_places": rep.open,
		"could_not_be_followed": rep.lost,
	});
	for (k, v) in &rep.coverage {
		cov[k] = v.clone();
	}
	let ev = json!({
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov,
		"assumptions": ["the models of the standard library and of htmlentity in sa/analyze/src/models.rs", "the MIR that rustc nightly produces for the library target is what the other targets compile"],
		"wall_s": t0.elapsed().as_secs_f64(), "violations": bad.len(),
	});
	let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
	std::fs::write(format!("{}/evidence/{}.json", verif, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
	if let Some(l) = rep.lost.take() {
		println!("NO VERDICT property={} {}", prop, l);
		if rep.obligations == 0 {
			rep.broken = Some(l);
		}
	}
	if let Some(b) = rep.broken {
		if bad.is_empty() {
			eprintln!("the analysis has no anchor: {}", b);
			return 2;
		}
	}
	if bad.is_empty() {
		println!("OK property={} obligations={} without verdict={} in {:?}", prop, rep.obligations, rep.undecided, t0.elapsed());
		return 0;
	}
	let _ = std::fs::create_dir_all(format!("{}/build/replay", verif));
	let path = format!("{}/build/replay/{}.txt", verif, prop);
	let mut text = String::new();
	for f in &bad {
		text += &format!("{}\n  {}\n  in the code: {}\n  path (classes of characters and options): {}\n\n", f.key, f.text, f.at, f.trail);
	}
	let _ = std::fs::write(&path, &text);
	print!("{}", text);
	println!("VIOLATION property={} replay={}", prop, path);
	1
}
