#![allow(dead_code)]
#[path = "../../common/ir.rs"]
mod ir;
mod canon;
mod check;
mod cs;
mod dump;
mod effects;
mod exec;
mod file;
mod models;
mod parse;
mod render;
mod simple;
mod spec;
mod tree;
mod val;
use canon::*;
use val::*;
use std::sync::Arc;
fn main() {
	let a: Vec<String> = std::env::args().collect();
	let p: ir::Program = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
	match a[2].as_str() {
		"list" => {
			for f in &p.fns {
				println!("{} {} {} {}", if f.body.is_some() { "B" } else { "L" }, if f.local { "local" } else { "ext" }, f.name, f.path);
			}
		}
		"dump" => {
			for f in &p.fns {
				if f.name.contains(&a[3]) {
					dump::func(&p, f);
				}
			}
		}
		"try" => {
			let pg = exec::Prog::new(p);
			let f = pg.find(&a[3]).unwrap();
			let mut st = State::new(0);
			let n = st.new_chars(cs::CS::all(), 0, INF);
			if a.len() < 6 { st.facts = Arc::new(vec![Fact::Cls(vec![It::S(n, Map::Id)], all_mask())]); }
			let mut args = vec![V::RefV(Arc::new(seq(vec![It::S(n, Map::Id)])), false)];
			if a.len() > 4 {
				args.push(V::RefV(Arc::new(if a.len() > 5 { some(agg(0, vec![])) } else { none() }), false));
			}
			st.ghost = Box::new(Keep { v: args.clone(), tag: vec![] });
			start(&pg, &mut st, f, args).map_err(|_| ()).unwrap();
			let mut out = vec![];
			pg.stats.borrow_mut().trace = std::env::var("TR").map_or(0, |s| s.parse().unwrap());
			let mut b = 1000000;
			run(&pg, st, &mut out, &mut b);
			for (e, s) in out {
				let d = match e {
					End::Done(v) => format!("done {}", short(&v)),
					End::Panic(m) => format!("panic {}", m),
					End::Stuck(m) => format!("stuck {} at {}", m, pg.where_(&s)),
					End::Source => "source".into(),
				};
				println!("{} {:?} {:?}", d, s.facts, s.ghost::<Keep>().v.iter().map(short).collect::<Vec<_>>());
			}
			println!("{} blocks {} joins {} splits", pg.stats.borrow().blocks, pg.stats.borrow().joins, pg.stats.borrow().splits);
		}
		"eq" => {
			let pg = exec::Prog::new(p);
			let f = pg.find("rphtml::parser::is_equal_chars_ignore_case").unwrap();
			let mut st = State::new(0);
			let set = cs::CS::of("\t\n\u{c}\r />").not();
			let n = st.new_chars(set.clone(), 0, INF);
			let m = st.new_chars(set, 1, 1);
			let it = vec![It::S(n, Map::Id), It::S(m, Map::Id)];
			if a.len() > 3 {
				st.facts = Arc::new(vec![Fact::Cls(it.clone(), all_mask())]);
			}
			let l = st.new_chars(cs::CS::letters(), 1, 1);
			let (x, y) = (vec![It::S(n, Map::Id), It::S(l, Map::Id)], vec![It::S(n, Map::Wild), It::S(l, Map::Flip)]);
			let args = vec![V::RefV(Arc::new(seq(x)), false), V::RefV(Arc::new(seq(y)), false)];
			st.ghost = Box::new(Keep { v: args.clone(), tag: vec![] });
			start(&pg, &mut st, f, args).map_err(|_| ()).unwrap();
			let mut out = vec![];
			let mut b = 4000;
			pg.stats.borrow_mut().trace = 40;
			run(&pg, st, &mut out, &mut b);
			println!("{} left {}", out.len(), b);
		}
		"parse" => {
			let pg = exec::Prog::new(p);
			if let Some(f) = pg.find("rphtml::position::CodeRegion::from_context_index") {
				pg.intercept.borrow_mut().insert(f, parse::region_stub);
			}
			let t0 = std::time::Instant::now();
			let (mut es, _pool) = parse::explore_all(&pg, a[4].parse().unwrap(), a[3].parse().unwrap());
			println!("{:?}", t0.elapsed());
			for e in es.iter_mut() {
				println!("== {}: {} states {} steps {} cut fixpoint {} {:?}", e.focus.name, e.states, e.steps, e.cut, e.fixpoint, e.keep);
				println!("ends {:?}", e.ends);
				for (k, n) in &e.stuck {
					println!("STUCK {} {}", n, k);
				}
				let keys: Vec<String> = e.found.keys().cloned().collect();
				for k in &keys {
					let t0 = std::time::Instant::now();
					let b = parse::bounds(&pg, 12);
					println!("CONFIRM {} {} {:?} {:?}", k, e.confirm(k, 4000).or_else(|| e.confirm_long(k, &b)).map_or("no".into(), |f| f.trail), t0.elapsed(), b);
				}
				for f in e.found.values() {
					println!("FOUND {:?} {}\n   {}\n   at {}\n   {}", f.props, f.key, f.text, f.at, f.trail);
				}
			}
		}
		"engine" => {
			let pg = exec::Prog::new(p);
			for e in check::engines() {
				if e.name.contains(&a[3]) {
					let t0 = std::time::Instant::now();
					let r = (e.run)(&pg, false, if a.len() > 4 { e.props[0] } else { "*" });
					println!("{}: {} obligations, {} open in {:?}", e.name, r.obligations, r.undecided, t0.elapsed());
					for (k, n) in &r.open {
						println!("OPEN {} {}", n, k);
					}
					for f in &r.findings {
						println!("FOUND {:?} {}\n   {}\n   at {}\n   {}", f.props, f.key, f.text, f.at, f.trail);
					}
					for s in r.samples.iter().take(10) {
						println!("SAMPLE {}", s);
					}
				}
			}
		}
		"check" => {
			// deep structures, deep recursion
			let (prop, tier, verif) = (a[3].clone(), a[4].clone(), a[5].clone());
			let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || check::check(p, &prop, &tier, &verif)).unwrap().join();
			std::process::exit(r.unwrap_or(2));
		}
		_ => {}
	}
}
