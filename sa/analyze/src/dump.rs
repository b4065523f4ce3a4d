// prints the extracted program, for reading
use crate::ir::*;
pub fn place(p: &Place) -> String {
	let mut s = format!("_{}", p.local);
	for e in &p.proj {
		match e {
			Proj::Deref => s = format!("(*{})", s),
			Proj::Field(i) => s += &format!(".{}", i),
			Proj::Index(l) => s += &format!("[_{}]", l),
			Proj::ConstIndex { offset, from_end } => s += &format!("[{}{}]", if *from_end { "-" } else { "" }, offset),
			Proj::Subslice { from, to, from_end } => s += &format!("[{}..{}{}]", from, if *from_end { "-" } else { "" }, to),
			Proj::Downcast(v) => s += &format!("@{}", v),
		}
	}
	s
}
pub fn cst(p: &Program, c: &Cst) -> String {
	match &c.v {
		CV::Fn(f) => format!("fn {}", p.fns[*f].name),
		CV::Ref(r) => format!("&{}", cst(p, r)),
		CV::Agg(v, x) => format!("{}#{}({})", p.tys[c.ty].name, v, x.iter().map(|c| cst(p, c)).collect::<Vec<_>>().join(",")),
		CV::Slice(x) => format!("&[{}]", x.iter().map(|c| cst(p, c)).collect::<Vec<_>>().join(",")),
		CV::Static(s) => format!("&static {}", p.statics[*s].name),
		o => format!("{:?}", o),
	}
}
pub fn opnd(p: &Program, o: &Opnd) -> String {
	match o {
		Opnd::Copy(q) => place(q),
		Opnd::Move(q) => format!("mv {}", place(q)),
		Opnd::Const(c) => cst(p, c),
	}
}
pub fn rv(p: &Program, r: &Rv) -> String {
	let l = |v: &Vec<Opnd>| v.iter().map(|o| opnd(p, o)).collect::<Vec<_>>().join(", ");
	match r {
		Rv::Use(o) => opnd(p, o),
		Rv::Ref(q, m) => format!("&{}{}", if *m { "mut " } else { "" }, place(q)),
		Rv::Raw(q) => format!("&raw {}", place(q)),
		Rv::Bin(b, x, y) => format!("{} {} {}", opnd(p, x), b, opnd(p, y)),
		Rv::Checked(b, x, y) => format!("{} {}? {}", opnd(p, x), b, opnd(p, y)),
		Rv::Un(u, x) => format!("{} {}", u, opnd(p, x)),
		Rv::Cast(k, o, t) => format!("{} as {} [{}]", opnd(p, o), p.tys[*t].name, k),
		Rv::Agg(k, v) => match k {
			AggK::Array(_) => format!("[{}]", l(v)),
			AggK::Tuple => format!("({})", l(v)),
			AggK::Adt(t, vi, _) => format!("{}#{}{{{}}}", p.tys[*t].name, vi, l(v)),
			AggK::Closure(t) => format!("{}{{{}}}", p.tys[*t].name, l(v)),
			AggK::RawPtr => format!("rawptr({})", l(v)),
		},
		Rv::Discr(q) => format!("discr {}", place(q)),
		Rv::Len(q) => format!("len {}", place(q)),
		Rv::Repeat(o, n) => format!("[{}; {}]", opnd(p, o), n),
		Rv::Other(s) => format!("OTHER {}", s),
	}
}
pub fn func(p: &Program, f: &Func) {
	println!("fn {} [{}] {} {}:{}", f.name, f.path, f.kind, f.file, f.line);
	let Some(b) = &f.body else {
		println!("  <leaf>");
		return;
	};
	println!("  args {} spread {:?}", b.arg_count, b.spread);
	for (i, t) in b.locals.iter().enumerate() {
		println!("  let _{}: {} {}", i, p.tys[*t].name, b.names[i].clone().unwrap_or_default());
	}
	for (i, bl) in b.blocks.iter().enumerate() {
		println!(" bb{}:", i);
		for (s, _) in &bl.stmts {
			match s {
				Stmt::Assign(q, r) => println!("   {} = {}", place(q), rv(p, r)),
				Stmt::SetDiscr(q, v) => println!("   setdiscr {} {}", place(q), v),
				Stmt::Live(_) | Stmt::Dead(_) | Stmt::Nop => {}
			}
		}
		match &bl.term {
			Term::Goto(t) => println!("   goto {}", t),
			Term::Switch(o, _, v, d) => println!("   switch {} {:?} else {}", opnd(p, o), v, d),
			Term::Drop(q, t, n) => println!("   drop {}: {} -> {}", place(q), p.tys[*t].name, n),
			Term::Call { f, args, dest, target } => {
				let fs = match f {
					Callee::Fn(f) => p.fns[*f].name.clone(),
					Callee::Ind(o) => format!("IND {}", opnd(p, o)),
				};
				println!("   {} = {}({}) -> {:?}", place(dest), fs, args.iter().map(|o| opnd(p, o)).collect::<Vec<_>>().join(", "), target)
			}
			Term::Assert { cond, expected, msg, target } => println!("   assert {}=={} {} -> {}", opnd(p, cond), expected, msg, target),
			t => println!("   {:?}", t),
		}
	}
}
