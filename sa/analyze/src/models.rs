//! Meaning of the library functions the crate builds on.
use crate::cs::CS;
use crate::exec::*;
use crate::ir::*;
use crate::val::*;
use std::sync::Arc;

pub const NATIVE: usize = usize::MAX - 1;

fn val(v: V) -> R<Option<Out>> {
	Ok(Some(Out::Val(v)))
}
fn pipe(src: Src) -> V {
	V::Iter(Arc::new(Pipe { src, st: vec![], rev: false }))
}

impl Prog {
	fn seq_of(&self, st: &State, v: &V) -> R<Arc<Vec<It>>> {
		match self.deref(st, v)? {
			V::Seq(s) => Ok(s),
			V::Box(b) => match &*b {
				V::Seq(s) => Ok(s.clone()),
				o => stuck(format!("not a sequence: {}", short(o))),
			},
			o => stuck(format!("not a sequence: {}", short(&o))),
		}
	}
	/// the place a reference leads to
	fn place_of(&self, st: &State, v: &V) -> R<Ptr> {
		let V::Ref(p) = v else { return stuck(format!("no place: {}", short(v))) };
		let mut p = (**p).clone();
		loop {
			match st.read_ptr(&p)? {
				V::Ref(q) => p = (*q).clone(),
				V::Guard(q, _) => p = q.push(Step::Cell),
				_ => return Ok(p),
			}
		}
	}
	fn ty_path(&self, t: TyId) -> &str {
		match &self.ir.tys[t].kind {
			TyKind::Adt { path, .. } => path,
			_ => &self.ir.tys[t].name,
		}
	}
	/// bounds of a range value
	fn range_of(&self, f: usize, v: &V, len: &Lin) -> R<(Lin, Lin)> {
		let V::Agg(_, xs) = v else { return stuck("range") };
		let ints: Vec<Lin> = xs.iter().filter_map(|x| if let V::Int(l) = x { Some(l.clone()) } else { None }).collect();
		let mut kind = "";
		for t in &self.ir.fns[f].targs {
			let p = self.ty_path(*t);
			if p.contains("Range") {
				kind = p;
			}
		}
		if kind.is_empty() {
			kind = &self.ir.fns[f].path;
		}
		if kind.contains("RangeFull") {
			return Ok((Lin::k(0), len.clone()));
		}
		if kind.contains("RangeFrom") && ints.len() == 1 {
			return Ok((ints[0].clone(), len.clone()));
		}
		if kind.contains("RangeToInclusive") && ints.len() == 1 {
			return Ok((Lin::k(0), ints[0].plus(1)));
		}
		if kind.contains("RangeTo") && ints.len() == 1 {
			return Ok((Lin::k(0), ints[0].clone()));
		}
		if kind.contains("RangeInclusive") && ints.len() >= 2 {
			return Ok((ints[0].clone(), ints[1].plus(1)));
		}
		if kind.contains("Range") && ints.len() == 2 {
			return Ok((ints[0].clone(), ints[1].clone()));
		}
		stuck(format!("range {}", kind))
	}
	fn copy_val(v: &V) -> V {
		match v {
			V::Cell(_, x) => V::Cell(0, Arc::new(Self::copy_val(x))),
			V::Agg(k, vs) => V::Agg(*k, Arc::new(vs.iter().map(Self::copy_val).collect())),
			V::Seq(s) => V::Seq(Arc::new(
				s.iter()
					.map(|i| match i {
						It::V(v) => It::V(Self::copy_val(v)),
						o => o.clone(),
					})
					.collect(),
			)),
			V::Box(x) => V::Box(Arc::new(Self::copy_val(x))),
			V::RefV(..) => v.clone(),
			o => o.clone(),
		}
	}

	pub fn eq_val(&self, st: &State, a: &V, b: &V) -> R<bool> {
		let a = self.deref(st, a)?;
		let b = self.deref(st, b)?;
		match (&a, &b) {
			(V::Char(x), V::Char(y)) => st.ch_eq(x, y),
			(V::Int(x), V::Int(y)) => st.eq0(&x.sub(y)),
			(V::Bool(_) | V::Opt(..), V::Bool(_) | V::Opt(..)) => Ok(self.bool_of(st, &a)? == self.bool_of(st, &b)?),
			(V::Agg(k, x), V::Agg(l, y)) => {
				if k != l || x.len() != y.len() {
					return Ok(false);
				}
				for (p, q) in x.iter().zip(y.iter()) {
					if !self.eq_val(st, p, q)? {
						return Ok(false);
					}
				}
				Ok(true)
			}
			(V::Seq(x), V::Seq(y)) => self.eq_seq(st, x, y),
			(V::Box(x), V::Box(y)) => self.eq_val(st, x, y),
			(V::Fn(x), V::Fn(y)) => Ok(x == y),
			(x, y) => stuck(format!("equality of {} and {}", short(x), short(y))),
		}
	}
	pub fn eq_seq(&self, st: &State, x: &[It], y: &[It]) -> R<bool> {
		if x == y {
			return Ok(true);
		}
		if !st.eq0(&st.seq_len(x)?.sub(&st.seq_len(y)?))? {
			return Ok(false);
		}
		// where the pieces are aligned, look for a sure difference first
		{
			let (mut i, mut j) = (0, 0);
			while i < x.len() && j < y.len() {
				let (lx, ly) = (st.norm(&st.it_len(&x[i])?), st.norm(&st.it_len(&y[j])?));
				if lx != ly {
					break;
				}
				if lx.konst() == Some(1) {
					if let (V::Char(p), V::Char(q)) = (st.item_val(&x[i])?, st.item_val(&y[j])?) {
						if let Ok(false) = st.ch_eq(&p, &q) {
							return Ok(false);
						}
					}
				}
				i += 1;
				j += 1;
			}
		}
		let (mut a, mut b) = (x, y);
		let mut n = 0;
		loop {
			// identical pieces
			while !a.is_empty() && !b.is_empty() && a[0] == b[0] {
				a = &a[1..];
				b = &b[1..];
			}
			n += 1;
			if n > 40 {
				return stuck("equality of long texts");
			}
			match (st.front(a)?, st.front(b)?) {
				(None, None) => return Ok(true),
				(Some((p, ra)), Some((q, rb))) => {
					if !self.eq_val(st, &st.item_val(&p)?, &st.item_val(&q)?)? {
						return Ok(false);
					}
					a = ra;
					b = rb;
				}
				_ => return Ok(false),
			}
		}
	}
	fn contains(&self, st: &State, items: &[It], x: &V) -> R<bool> {
		let x = self.deref(st, x)?;
		if let V::Char(c) = &x {
			if items.iter().all(|i| matches!(i, It::C(_))) {
				let mut set = CS::empty();
				for i in items {
					if let It::C(k) = i {
						set = set.or(&CS::one(*k));
					}
				}
				return st.ch_in(c, &set);
			}
		}
		let mut rest = items;
		let mut n = 0;
		while let Some((it, r)) = st.front(rest)? {
			n += 1;
			if n > 64 {
				return stuck("membership in a long sequence");
			}
			if self.eq_val(st, &st.item_val(&it)?, &x)? {
				return Ok(true);
			}
			rest = r;
		}
		Ok(false)
	}
	pub fn map_items(items: &[It], m: Map) -> R<Vec<It>> {
		items
			.iter()
			.map(|i| {
				Ok(match i {
					It::C(c) => It::C(m.ch(*c).unwrap_or(*c)),
					It::S(s, k) => It::S(*s, m.after(*k)),
					It::V(V::RefV(..)) | It::V(_) | It::Many(_) | It::F(_) => return stuck("case of opaque text"),
				})
			})
			.collect()
	}
	pub fn default_of(&self, t: TyId) -> Option<V> {
		Some(match &self.ir.tys[t].kind {
			TyKind::Bool => V::Bool(false),
			TyKind::Char => V::Char(Ch::Lit('\0')),
			TyKind::Int { .. } => int(0),
			TyKind::Tuple(v) if v.is_empty() => unit(),
			TyKind::Adt { path, .. } => match path.as_str() {
				"std::vec::Vec" | "std::string::String" | "alloc::vec::Vec" | "alloc::string::String" => seq(vec![]),
				"std::option::Option" | "core::option::Option" => none(),
				p if p.contains("HashMap") => V::Map(Arc::new(vec![])),
				_ => return None,
			},
			_ => return None,
		})
	}

	pub fn model(&self, st: &mut State, f: usize, fam: Fam, m: &str, a: &[V]) -> R<Option<Out>> {
		let fun = &self.ir.fns[f];
		let path = fun.path.as_str();
		match fam {
			Fam::Fmt => {
				if m == "must_use" || m == "black_box" {
					return val(a[0].clone());
				}
				self.m_fmt(st, f, m, a)
			}
			Fam::Vec | Fam::Slice | Fam::Str => self.m_seq(st, f, m, a),
			Fam::Rc => match m {
				"new" => {
					let o = st.alloc(a[0].clone());
					val(V::Rc(o))
				}
				"clone" => val(self.deref(st, &a[0])?),
				"downgrade" => match self.deref(st, &a[0])? {
					V::Rc(o) => val(V::Weak(o)),
					o => stuck(format!("downgrade {}", short(&o))),
				},
				"ptr_eq" => match (self.deref(st, &a[0])?, self.deref(st, &a[1])?) {
					(V::Rc(x), V::Rc(y)) => val(V::Bool(x == y)),
					_ => stuck("ptr_eq"),
				},
				"try_unwrap" => match &a[0] {
					V::Rc(o) => {
						if st.strong_count(*o) == 0 {
							let v = st.heap[*o as usize].take();
							val(agg(0, vec![v.map_or(V::Undef, |v| (*v).clone())]))
						} else {
							val(agg(1, vec![a[0].clone()]))
						}
					}
					_ => stuck("try_unwrap"),
				},
				_ => stuck(format!("no model for {}", path)),
			},
			Fam::Weak => match m {
				"upgrade" => match self.deref(st, &a[0])? {
					V::Weak(o) => {
						let ok = st.heap[o as usize].is_some() && st.alive().contains(&o);
						val(opt(if ok { Some(V::Rc(o)) } else { None }))
					}
					o => stuck(format!("upgrade {}", short(&o))),
				},
				_ => stuck(format!("no model for {}", path)),
			},
			Fam::RefCell => self.m_cell(st, f, m, a),
			Fam::Map | Fam::Entry => self.m_map(st, f, m, a),
			Fam::Box => match m {
				"new" => val(V::Box(Arc::new(a[0].clone()))),
				"new_uninit" => val(V::Box(Arc::new(V::Undef))),
				"box_assume_init_into_vec_unsafe" => {
					let V::Box(b) = &a[0] else { return stuck("vec!") };
					let mut v: V = (**b).clone();
					loop {
						v = match &v {
							V::Agg(_, fs) => match fs.iter().find(|x| !x.is_undef()) {
								Some(x) => x.clone(),
								None => return stuck("vec!"),
							},
							V::Seq(_) => return val(v),
							o => return stuck(format!("vec! of {}", short(o))),
						}
					}
				}
				_ => stuck(format!("no model for {}", path)),
			},
			Fam::Char => self.m_char(st, m, a),
			Fam::Iter => self.m_iter(st, f, m, a),
			Fam::Trait => self.m_trait(st, f, m, a),
			Fam::Misc => match m {
				_ if path.starts_with("lazy_static::lazy::Lazy::") => {
					let Some(V::Fn(g)) = a.iter().find(|v| matches!(v, V::Fn(_))).cloned() else {
						return stuck("lazy static");
					};
					let v = self.eval_const(g)?;
					val(V::RefV(v, true))
				}
				"eq" | "addr_eq" if path.starts_with("std::ptr::") => match (&a[0], &a[1]) {
					(V::Ref(x), V::Ref(y)) => val(V::Bool(x == y)),
					_ => stuck("pointer comparison"),
				},
				"replace" if path.contains("mem::") => {
					let p = self.place_of(st, &a[0])?;
					let old = st.read_ptr(&p)?;
					st.write_ptr(&p, a[1].clone())?;
					val(old)
				}
				"take" if path.contains("mem::") => {
					let p = self.place_of(st, &a[0])?;
					let old = st.read_ptr(&p)?;
					let Some(d) = fun.targs.first().and_then(|t| self.default_of(*t)) else {
						return stuck("mem::take");
					};
					st.write_ptr(&p, d)?;
					val(old)
				}
				"swap" if path.contains("mem::") => {
					let p = self.place_of(st, &a[0])?;
					let q = self.place_of(st, &a[1])?;
					let x = st.read_ptr(&p)?;
					let y = st.read_ptr(&q)?;
					st.write_ptr(&p, y)?;
					st.write_ptr(&q, x)?;
					val(unit())
				}
				"drop" if path.contains("mem::") => {
					self.release(st, &a[0])?;
					val(unit())
				}
				"precondition_check" | "cold_path" => val(unit()),
				"take" if path.contains("option::Option") => {
					let p = self.place_of(st, &a[0])?;
					let old = st.read_ptr(&p)?;
					st.write_ptr(&p, none())?;
					val(old)
				}
				"replace" if path.contains("option::Option") => {
					let p = self.place_of(st, &a[0])?;
					let old = st.read_ptr(&p)?;
					st.write_ptr(&p, some(a[1].clone()))?;
					val(old)
				}
				"saturating_sub" => match (&a[0], &a[1]) {
					(V::Int(x), V::Int(y)) => {
						let d = x.sub(y);
						if st.ge0(&d)? {
							val(V::Int(st.norm(&d)))
						} else {
							val(int(0))
						}
					}
					_ => stuck("saturating_sub"),
				},
				"checked_sub" => match (&a[0], &a[1]) {
					(V::Int(x), V::Int(y)) => {
						let d = x.sub(y);
						if st.ge0(&d)? {
							val(some(V::Int(st.norm(&d))))
						} else {
							val(none())
						}
					}
					_ => stuck("checked_sub"),
				},
				"wrapping_add" | "saturating_add" => val(self.bin(st, "Add", &a[0], &a[1])?),
				"min" | "max" if a.len() == 2 => self.m_minmax(st, m, a),
				_ if path.starts_with("htmlentity::") => self.m_entity(st, f, m, a),
				_ => {
					if fun.body.is_some() {
						return Ok(None);
					}
					stuck(format!("no model for {}", path))
				}
			},
			_ => Ok(None),
		}
	}
	fn m_minmax(&self, st: &State, m: &str, a: &[V]) -> R<Option<Out>> {
		match (&a[0], &a[1]) {
			(V::Int(x), V::Int(y)) => {
				let ge = st.ge0(&x.sub(y))?;
				val(if ge == (m == "max") { a[0].clone() } else { a[1].clone() })
			}
			_ => stuck("min or max"),
		}
	}

	fn m_entity(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let path = self.ir.fns[f].path.as_str();
		match m {
			"decode_chars_to" => {
				let s = self.seq_of(st, &a[0])?;
				let p = self.place_of(st, &a[1])?;
				let V::Seq(mut out) = st.read_ptr(&p)? else { return stuck("decode target") };
				Arc::make_mut(&mut out).extend(decoded(st, &s));
				st.write_ptr(&p, V::Seq(out))?;
				val(unit())
			}
			"contains" if path.contains("CharacterSet") => {
				let V::Agg(k, _) = self.deref(st, &a[0])? else { return stuck("set of characters") };
				let V::Char(c) = self.deref(st, &a[1])? else { return stuck("member of a set of characters") };
				let wide = CS::range(0x100, 0x10ffff);
				let html = CS::of("<>&");
				let special = CS::of("<>&\"'");
				let set = match k {
					0 => CS::all(),
					1 => wide,
					2 => html,
					3 => special,
					4 => html.or(&wide),
					_ => special.or(&wide),
				};
				val(V::Bool(st.ch_in(&c, &set)?))
			}
			"encode_char" => {
				let V::Char(c) = self.deref(st, &a[0])? else { return stuck("encode_char") };
				let V::Agg(k, _) = self.deref(st, &a[1])? else { return stuck("encode_char") };
				if k == 1 || k == 2 {
					return stuck("numeric entities");
				}
				for (x, n) in [('<', "&lt;"), ('>', "&gt;"), ('&', "&amp;"), ('"', "&quot;"), ('\'', "&apos;")] {
					if st.ch_in(&c, &CS::one(x))? {
						return val(some(agg(9000, vec![seq(lits(n))])));
					}
				}
				stuck("entity of some character")
			}
			"write_chars" => {
				let V::Agg(9000, v) = self.deref(st, &a[0])? else { return stuck("entity") };
				let p = self.place_of(st, &a[1])?;
				let V::Seq(mut out) = st.read_ptr(&p)? else { return stuck("target of an entity") };
				Arc::make_mut(&mut out).extend(v[0].items());
				st.write_ptr(&p, V::Seq(out))?;
				val(unit())
			}
			_ => stuck(format!("no model for {}", path)),
		}
	}

	/// the text of a value that is printed
	fn printed(&self, st: &State, t: TyId, v: &V) -> R<Option<Vec<It>>> {
		let v = self.deref(st, v)?;
		Ok(Some(match &v {
			V::Seq(s) => s.to_vec(),
			V::Char(c) => vec![ch_item(c)],
			V::Int(l) => match l.konst() {
				Some(k) => lits(&k.to_string()),
				None => vec![It::V(v.clone())],
			},
			V::Agg(..) => {
				let mut t = t;
				while let TyKind::Ref(x, _) = &self.ir.tys[t].kind {
					t = *x;
				}
				let Some(g) = self.find(&format!("<{} as std::fmt::Display>::fmt", self.ty_path(t))) else { return Ok(None) };
				let mut s = st.clone();
				s.ghost = Box::new(NoGhost);
				s.frames = vec![Arc::new(Frame { f: HARNESS, bb: 0, locals: vec![V::Undef], nat: None })];
				let o = s.alloc(seq(vec![]));
				let me = V::Ref(Arc::new(Ptr { base: Base::H(o), path: vec![] }));
				self.push_fn(&mut s, g, vec![V::RefV(Arc::new(v.clone()), false), me])?;
				for _ in 0..2000 {
					if let Next::Done = self.step(&mut s)? {
						return Ok(match s.heap[o as usize].as_deref() {
							Some(V::Seq(x)) if matches!(s.top().locals[0], V::Agg(0, _)) => Some(x.to_vec()),
							_ => None,
						});
					}
				}
				return Ok(None);
			}
			_ => return Ok(None),
		}))
	}
	/// the text of format arguments: a template of pieces and places
	fn formatted(&self, st: &State, v: &V) -> R<Option<Vec<It>>> {
		let V::Agg(9101, x) = self.deref(st, v)? else { return Ok(None) };
		let mut bytes = vec![];
		for i in self.seq_of(st, &x[0])?.iter() {
			match i {
				It::V(V::Int(l)) => match l.konst() {
					Some(k) => bytes.push(k as u8),
					None => return Ok(None),
				},
				It::C(c) if x.len() == 1 => bytes.extend(c.to_string().into_bytes()),
				_ => return Ok(None),
			}
		}
		if x.len() == 1 {
			return Ok(Some(lits(&String::from_utf8_lossy(&bytes))));
		}
		let args = self.seq_of(st, &x[1])?;
		let (mut i, mut arg) = (0, 0);
		let mut out = vec![];
		loop {
			let Some(&n) = bytes.get(i) else { return Ok(None) };
			i += 1;
			match n {
				0 => return Ok(Some(out)),
				1..=0x80 => {
					let mut k = n as usize;
					if n == 0x80 {
						let (Some(a), Some(b)) = (bytes.get(i), bytes.get(i + 1)) else { return Ok(None) };
						k = *a as usize | (*b as usize) << 8;
						i += 2;
					}
					let Some(w) = bytes.get(i..i + k) else { return Ok(None) };
					out.extend(lits(&String::from_utf8_lossy(w)));
					i += k;
				}
				0xC0 | 0xC8 => {
					if n == 0xC8 {
						let (Some(a), Some(b)) = (bytes.get(i), bytes.get(i + 1)) else { return Ok(None) };
						arg = *a as usize | (*b as usize) << 8;
						i += 2;
					}
					let Some(It::V(V::Agg(9100, y))) = args.get(arg) else { return Ok(None) };
					let V::Int(t) = &y[0] else { return Ok(None) };
					let Some(t) = t.konst() else { return Ok(None) };
					match self.printed(st, t as TyId, &y[1])? {
						Some(v) => out.extend(v),
						None => return Ok(None),
					}
					arg += 1;
				}
				_ => return Ok(None),
			}
		}
	}
	fn m_fmt(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let fun = &self.ir.fns[f];
		let lost = || val(opq("formatted"));
		let write = |st: &mut State, v: Vec<It>| -> R<Option<Out>> {
			let Ok(p) = self.place_of(st, &a[0]) else { return lost() };
			match st.read_ptr(&p) {
				Ok(V::Seq(mut s)) => {
					Arc::make_mut(&mut s).extend(v);
					st.write_ptr(&p, V::Seq(s))?;
					val(agg(0, vec![unit()]))
				}
				_ => lost(),
			}
		};
		match (m, a.len()) {
			("new_display", 1) if fun.targs.len() == 1 => {
				let v = self.deref(st, &a[0])?;
				val(agg(9100, vec![int(fun.targs[0] as i64), V::RefV(Arc::new(v), false)]))
			}
			("new", 2) if fun.path.contains("Arguments") => {
				let (t, x) = (self.deref(st, &a[0])?, self.deref(st, &a[1])?);
				val(agg(9101, vec![t, x]))
			}
			("from_str" | "new_const" | "from_str_nonconst", 1) if fun.path.contains("Arguments") => val(agg(9101, vec![self.deref(st, &a[0])?])),
			("format", 1) => match self.formatted(st, &a[0])? {
				Some(v) => val(seq(v)),
				None => lost(),
			},
			("write_fmt", 2) => match self.formatted(st, &a[1])? {
				Some(v) => write(st, v),
				None => lost(),
			},
			("write_str" | "pad", 2) => match self.deref(st, &a[1])? {
				V::Seq(v) => write(st, v.to_vec()),
				_ => lost(),
			},
			("write_char", 2) => match self.deref(st, &a[1])? {
				V::Char(c) => write(st, vec![ch_item(&c)]),
				_ => lost(),
			},
			("as_display", 1) => val(a[0].clone()),
			("fmt", 2) if fun.path.contains("::Display") => {
				let v = self.deref(st, &a[0])?;
				if let V::Agg(..) = v {
					return lost();
				}
				match self.printed(st, 0, &v)? {
					Some(t) => match &a[1] {
						V::Ref(_) => {
							let Ok(p) = self.place_of(st, &a[1]) else { return lost() };
							let Ok(V::Seq(mut s)) = st.read_ptr(&p) else { return lost() };
							Arc::make_mut(&mut s).extend(t);
							st.write_ptr(&p, V::Seq(s))?;
							val(agg(0, vec![unit()]))
						}
						_ => lost(),
					},
					None => lost(),
				}
			}
			_ => lost(),
		}
	}

	fn m_char(&self, st: &State, m: &str, a: &[V]) -> R<Option<Out>> {
		let V::Char(c) = self.deref(st, &a[0])? else {
			return stuck(format!("character method {} of {}", m, short(&a[0])));
		};
		let mut ascii = None;
		let set = |f: fn(char) -> bool| CS::ascii(f);
		let s = match m {
			"is_ascii_whitespace" => set(|c| c.is_ascii_whitespace()),
			"is_ascii_alphabetic" => set(|c| c.is_ascii_alphabetic()),
			"is_ascii_alphanumeric" => set(|c| c.is_ascii_alphanumeric()),
			"is_ascii_digit" => set(|c| c.is_ascii_digit()),
			"is_ascii_hexdigit" => set(|c| c.is_ascii_hexdigit()),
			"is_ascii_control" => set(|c| c.is_ascii_control()),
			"is_ascii_punctuation" => set(|c| c.is_ascii_punctuation()),
			"is_ascii_graphic" => set(|c| c.is_ascii_graphic()),
			"is_ascii_lowercase" => set(|c| c.is_ascii_lowercase()),
			"is_ascii_uppercase" => set(|c| c.is_ascii_uppercase()),
			"is_ascii" => set(|_| true),
			"is_whitespace" => pred_set("is_whitespace", |c| c.is_whitespace()),
			"is_alphabetic" => pred_set("is_alphabetic", |c| c.is_alphabetic()),
			"is_alphanumeric" => pred_set("is_alphanumeric", |c| c.is_alphanumeric()),
			"is_numeric" => pred_set("is_numeric", |c| c.is_numeric()),
			"is_control" => pred_set("is_control", |c| c.is_control()),
			"is_lowercase" => pred_set("is_lowercase", |c| c.is_lowercase()),
			"is_uppercase" => pred_set("is_uppercase", |c| c.is_uppercase()),
			"to_lowercase" | "to_uppercase" => {
				let low = m == "to_lowercase";
				let ascii = CS::ascii(|_| true);
				let out = match &c {
					Ch::Lit(c) if low => c.to_lowercase().map(It::C).collect(),
					Ch::Lit(c) => c.to_uppercase().map(It::C).collect(),
					Ch::Src(s, Map::Id) => {
						let set = st.seg(*s).set.clone();
						let same = if low { pred_set("same lower", |c| c.to_lowercase().eq([c])) } else { pred_set("same upper", |c| c.to_uppercase().eq([c])) };
						let wide = same.minus(&ascii);
						let one = CS::one(if low { '\u{c9}' } else { '\u{e9}' });
						if set.subset(&ascii) {
							vec![It::S(*s, if low { Map::Low } else { Map::Up })]
						} else if set.subset(&wide) {
							vec![It::S(*s, Map::Id)]
						} else if let Some(c) = set.single() {
							if low {
								c.to_lowercase().map(It::C).collect()
							} else {
								c.to_uppercase().map(It::C).collect()
							}
						} else if set.and(&ascii).is_empty() && set.and(&wide).is_empty() && set.and(&one).is_empty() {
							return stuck("case of other letters");
						} else {
							let rest = ascii.or(&wide).or(&one).not();
							return Err(Stop::Split([ascii, wide, one, rest].into_iter().map(|x| Refine::Set(*s, x)).collect()));
						}
					}
					_ => return stuck("case of a changed character"),
				};
				return val(pipe(Src::Items(out, false)));
			}
			"to_ascii_lowercase" => {
				ascii = Some(Map::Low);
				CS::empty()
			}
			"to_ascii_uppercase" => {
				ascii = Some(Map::Up);
				CS::empty()
			}
			"eq_ignore_ascii_case" => {
				let V::Char(d) = self.deref(st, &a[1])? else { return stuck("eq_ignore_ascii_case") };
				let lo = |c: &Ch| match c {
					Ch::Lit(c) => Ch::Lit(c.to_ascii_lowercase()),
					Ch::Src(s, m) => Ch::Src(*s, Map::Low.after(*m)),
				};
				// two pieces of the input: decide on the input itself
				if let (Ch::Src(x, mx), Ch::Src(y, my)) = (&c, &d) {
					if x == y {
						return val(V::Bool(true));
					}
					if let (Map::Id | Map::Flip | Map::Low | Map::Up, Map::Id | Map::Flip | Map::Low | Map::Up) = (mx, my) {
						if st.ch_eq(&Ch::Src(*x, Map::Id), &Ch::Src(*y, Map::Id))? {
							return val(V::Bool(true));
						}
						return val(V::Bool(st.ch_eq(&Ch::Src(*x, Map::Id), &Ch::Src(*y, Map::Flip))?));
					}
				}
				return val(V::Bool(st.ch_eq(&lo(&c), &lo(&d))?));
			}
			"len_utf8" => {
				for (lo, hi, n) in [(0u32, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3)] {
					if st.ch_in(&c, &CS::range(lo, hi))? {
						return val(int(n));
					}
				}
				return val(int(4));
			}
			"to_string" => return val(seq(vec![ch_item(&c)])),
			_ => return stuck(format!("no model for char::{}", m)),
		};
		if let Some(mp) = ascii {
			return val(V::Char(match c {
				Ch::Lit(c) => Ch::Lit(mp.ch(c).unwrap()),
				Ch::Src(s, k) => Ch::Src(s, mp.after(k)),
			}));
		}
		val(V::Bool(st.ch_in(&c, &s)?))
	}

	fn m_cell(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		match m {
			"new" => return val(V::Cell(0, Arc::new(a[0].clone()))),
			"into_inner" => {
				return match &a[0] {
					V::Cell(_, v) => val((**v).clone()),
					o => stuck(format!("into_inner of {}", short(o))),
				}
			}
			_ => {}
		}
		match m {
			"borrow" | "borrow_mut" | "try_borrow" => {
				if let V::RefV(v, _) = &a[0] {
					if let (V::Cell(_, x), "borrow") = (&**v, m) {
						return val(V::RefV(x.clone(), false));
					}
				}
				let p = self.cell_place(st, &a[0])?;
				let V::Cell(n, v) = st.read_ptr(&p)? else { return stuck("borrow of no cell") };
				let mt = m == "borrow_mut";
				if mt && n != 0 {
					return Err(Stop::Panic(if n > 0 { "already borrowed" } else { "already mutably borrowed" }.into()));
				}
				if !mt && n < 0 {
					return Err(Stop::Panic("already mutably borrowed".into()));
				}
				st.write_ptr(&p, V::Cell(if mt { -1 } else { n + 1 }, v))?;
				let g = V::Guard(Arc::new(p), mt);
				val(if m == "try_borrow" { agg(0, vec![g]) } else { g })
			}
			"as_ptr" => {
				let p = self.cell_place(st, &a[0])?;
				val(V::Ref(Arc::new(p.push(Step::Cell))))
			}
			"get_mut" => {
				let p = self.cell_place(st, &a[0])?;
				val(V::Ref(Arc::new(p.push(Step::Cell))))
			}
			"replace" => {
				let p = self.cell_place(st, &a[0])?;
				let V::Cell(n, v) = st.read_ptr(&p)? else { return stuck("cell") };
				if n != 0 {
					return Err(Stop::Panic("already borrowed".into()));
				}
				st.write_ptr(&p, V::Cell(0, Arc::new(a[1].clone())))?;
				val((*v).clone())
			}
			_ => stuck(format!("no model for {}", self.ir.fns[f].path)),
		}
	}
	fn cell_place(&self, st: &State, v: &V) -> R<Ptr> {
		let V::Ref(p) = v else { return stuck(format!("cell behind {}", short(v))) };
		let mut p = (**p).clone();
		loop {
			match st.read_ptr(&p)? {
				V::Ref(q) => p = (*q).clone(),
				V::Rc(o) => p = Ptr { base: Base::H(o), path: vec![] },
				_ => return Ok(p),
			}
		}
	}

	fn m_map(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let read = |st: &State, v: &V| -> R<Arc<Vec<MapOp>>> {
			match self.deref(st, v)? {
				V::Map(o) => Ok(o),
				o => stuck(format!("map {}", short(&o))),
			}
		};
		match m {
			"new" | "with_capacity" | "with_hasher" => return val(V::Map(Arc::new(vec![]))),
			"insert" if a.len() == 3 => {
				let p = self.place_of(st, &a[0])?;
				let mut o = read(st, &a[0])?;
				Arc::make_mut(&mut o).push(MapOp::Insert(a[1].clone(), a[2].clone()));
				st.write_ptr(&p, V::Map(o))?;
				return val(opq("old value"));
			}
			// of a vacant entry: the last question was for its key
			"insert" if a.len() == 2 && self.ir.fns[f].path.contains("VacantEntry") => {
				let p = self.place_of(st, &a[0])?;
				let mut o = read(st, &a[0])?;
				let Some(MapOp::Has(k, false)) = o.last().cloned() else { return stuck("map entry") };
				Arc::make_mut(&mut o).push(MapOp::Insert(k, a[1].clone()));
				st.write_ptr(&p, V::Map(o))?;
				return val(opq("entry value"));
			}
			"entry" => {
				let p = self.place_of(st, &a[0])?;
				// the entry: where it is, and its key
				return val(agg(7, vec![V::Ref(Arc::new(p)), a[1].clone()]));
			}
			"or_insert" => {
				let V::Agg(7, e) = &a[0] else { return stuck("map entry") };
				let p = self.place_of(st, &e[0])?;
				let mut o = read(st, &e[0])?;
				Arc::make_mut(&mut o).push(MapOp::OrInsert(e[1].clone(), a[1].clone()));
				st.write_ptr(&p, V::Map(o))?;
				return val(opq("entry value"));
			}
			"contains_key" | "get" => {
				let ops = read(st, &a[0])?;
				let key = self.deref(st, &a[1])?;
				let plain = ops.iter().all(|o| matches!(o, MapOp::Insert(..)));
				let short_keys = |st: &State| ops.len() <= 4 && ops.iter().all(|o| matches!(o, MapOp::Insert(V::Seq(s), V::Rc(_)) if st.seq_len(s).ok().and_then(|l| st.norm(&l).konst()).is_some_and(|n| n <= 4)));
				if plain && m == "get" && short_keys(st) || plain && ops.iter().all(|o| matches!(o, MapOp::Insert(V::Agg(_, f), _) if f.is_empty()) || matches!(o, MapOp::Insert(V::Seq(s), _) if s.iter().all(|i| matches!(i, It::C(_))))) {
					for o in ops.iter().rev() {
						if let MapOp::Insert(k, v) = o {
							if self.eq_val(st, k, &key)? {
								return val(if m == "get" { some(V::RefV(Arc::new(v.clone()), true)) } else { V::Bool(true) });
							}
						}
					}
					return val(if m == "get" { none() } else { V::Bool(false) });
				}
				{
					let val = |v: V| match v {
						V::Bool(b) if m == "get" => val(if b { some(opq("value in a map")) } else { none() }),
						o => val(o),
					};
					// known from an earlier question or insertion?
					for o in ops.iter().rev() {
						match o {
							MapOp::Has(k, b) if *k == key => return val(V::Bool(*b)),
							MapOp::Insert(k, _) | MapOp::OrInsert(k, _) if *k == key => return val(V::Bool(true)),
							MapOp::Has(..) => {}
							_ => break,
						}
					}
					let p = self.place_of(st, &a[0])?;
					let alt = |b: bool| {
						let mut o = (*ops).clone();
						o.push(MapOp::Has(key.clone(), b));
						Refine::Poke(p.clone(), V::Map(Arc::new(o)))
					};
					return Err(Stop::Split(vec![alt(true), alt(false)]));
				}
			}
			"clone" => return val(V::Map(read(st, &a[0])?)),
			_ => {}
		}
		stuck(format!("no model for {}", self.ir.fns[f].path))
	}

	fn m_trait(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let fun = &self.ir.fns[f];
		let path = fun.path.as_str();
		match m {
			"eq" | "ne" => {
				// a local implementation has a body of its own
				let r = self.eq_val(st, &a[0], &a[1])?;
				val(V::Bool(r == (m == "eq")))
			}
			"lt" | "le" | "gt" | "ge" if a.len() == 2 => {
				let x = self.deref(st, &a[0])?;
				let y = self.deref(st, &a[1])?;
				let op = match m {
					"lt" => "Lt",
					"le" => "Le",
					"gt" => "Gt",
					_ => "Ge",
				};
				val(self.bin(st, op, &x, &y)?)
			}
			"min" | "max" if a.len() == 2 => self.m_minmax(st, m, a),
			"clone" | "to_owned" | "clone_into" => {
				let mut v = match &a[0] {
					V::Ref(p) => st.read_ptr(p)?,
					V::RefV(v, _) => (**v).clone(),
					o => o.clone(),
				};
				if let V::Ref(p) = &v {
					if m == "to_owned" {
						v = st.read_ptr(p)?;
					}
				}
				if let (V::RefV(x, _), "to_owned") = (&v, m) {
					v = (**x).clone();
				}
				if path.contains("HashMap") || path.contains("hashbrown") {
					v = self.deref(st, &v)?;
				}
				val(Self::copy_val(&v))
			}
			"default" => match self.default_of(fun.ret) {
				Some(v) => val(v),
				None => Ok(None),
			},
			"deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" => {
				let v = match &a[0] {
					V::Ref(p) => st.read_ptr(p)?,
					V::RefV(v, _) => (**v).clone(),
					o => return stuck(format!("deref of {}", short(o))),
				};
				match &v {
					V::Rc(o) => val(V::Ref(Arc::new(Ptr { base: Base::H(*o), path: vec![] }))),
					V::Guard(p, _) => val(V::Ref(Arc::new(p.push(Step::Cell)))),
					V::Box(x) => match &a[0] {
						V::Ref(p) => val(V::Ref(Arc::new(p.push(Step::Bx)))),
						_ => val(V::RefV(x.clone(), false)),
					},
					V::Ref(_) | V::RefV(..) => val(v),
					V::Seq(_) => val(a[0].clone()),
					_ => {
						if fun.body.is_some() {
							Ok(None)
						} else {
							stuck(format!("deref of {}", short(&v)))
						}
					}
				}
			}
			"index" | "index_mut" => {
				if path.contains("SliceIndex") {
					let r = [a[1].clone(), a[0].clone()];
					return self.m_index(st, f, &r, false);
				}
				self.m_index(st, f, a, false)
			}
			"get" if path.contains("SliceIndex") => {
				let r = [a[1].clone(), a[0].clone()];
				self.m_index(st, f, &r, true)
			}
			"to_string" => {
				let mut v = self.deref(st, &a[0])?;
				while matches!(v, V::RefV(..) | V::Ref(..)) {
					v = self.deref(st, &v)?;
				}
				match &v {
					V::Char(c) => val(seq(vec![ch_item(c)])),
					V::Seq(_) => val(v),
					_ => match fun.targs.first().map(|t| self.printed(st, *t, &v)).transpose()?.flatten() {
						Some(t) => val(seq(t)),
						None => val(opq("text")),
					},
				}
			}
			"from" | "into" | "try_into" | "from_str" => {
				let v = self.deref(st, &a[0])?;
				match &v {
					V::Seq(_) => {
						if matches!(self.ir.tys[fun.ret].kind, TyKind::Adt { .. }) && (self.ty_path(fun.ret).contains("String") || self.ty_path(fun.ret).contains("Vec")) {
							return val(v);
						}
						if fun.body.is_some() {
							return Ok(None);
						}
						stuck("conversion of a text")
					}
					V::Char(c) if self.ty_path(fun.ret).contains("String") => val(seq(vec![ch_item(c)])),
					V::Char(_) if matches!(self.ir.tys[fun.ret].kind, TyKind::Int { .. }) => val(v),
					V::Opq(_) => val(v),
					_ => {
						if fun.body.is_some() {
							return Ok(None);
						}
						stuck(format!("conversion {}", path))
					}
				}
			}
			"to_string_spec" | "spec_to_string" => {
				let v = self.deref(st, &a[0])?;
				match &v {
					V::Char(c) => val(seq(vec![ch_item(c)])),
					V::Seq(_) => val(v),
					_ => val(opq("text")),
				}
			}
			"to_vec" => val(Self::copy_val(&self.deref(st, &a[0])?)),
			"branch" | "from_residual" | "from_output" => Ok(None),
			"drop" => {
				self.release(st, &a[0])?;
				val(unit())
			}
			"as_display" => val(a[0].clone()),
			_ if path.contains("fmt") => val(opq("formatted")),
			_ => {
				if fun.body.is_some() {
					return Ok(None);
				}
				stuck(format!("no model for {}", path))
			}
		}
	}
	fn m_index(&self, st: &mut State, f: usize, a: &[V], get: bool) -> R<Option<Out>> {
		let s = self.seq_of(st, &a[0])?;
		let len = st.seq_len(&s)?;
		match &a[1] {
			V::Int(i) => {
				let inside = st.ge0(i)? && !st.ge0(&i.sub(&len))?;
				if !inside {
					if get {
						return val(none());
					}
					return Err(Stop::Panic("index out of bounds".into()));
				}
				let r = match &a[0] {
					V::Ref(_) => {
						let p = self.place_of(st, &a[0])?;
						match st.read_ptr(&p)? {
							V::Seq(_) => {
								// split the sequence now
								let Some(_) = st.index(&s, i)? else { return stuck("index") };
								V::Ref(Arc::new(p.push(Step::Elem(i.clone()))))
							}
							_ => {
								let Some(k) = st.index(&s, i)? else { return stuck("index") };
								V::RefV(Arc::new(st.item_val(&s[k])?), false)
							}
						}
					}
					_ => {
						let Some(k) = st.index(&s, i)? else { return stuck("index") };
						V::RefV(Arc::new(st.item_val(&s[k])?), false)
					}
				};
				val(if get { some(r) } else { r })
			}
			r => {
				let (x, y) = self.range_of(f, r, &len)?;
				if !st.ge0(&x)? || !st.ge0(&y.sub(&x))? || !st.ge0(&len.sub(&y))? {
					if get {
						return val(none());
					}
					return Err(Stop::Panic("range out of bounds".into()));
				}
				match sub_seq(st, &s, &x, &y)? {
					Some(v) => {
						let r = V::RefV(Arc::new(seq(v)), false);
						val(if get { some(r) } else { r })
					}
					None => stuck("range"),
				}
			}
		}
	}

	fn elem_ref(&self, st: &State, base: &V, i: Lin, it: &It) -> R<V> {
		if let V::Ref(_) = base {
			let p = self.place_of(st, base)?;
			if let V::Seq(_) = st.read_ptr(&p)? {
				return Ok(V::Ref(Arc::new(p.push(Step::Elem(i)))));
			}
		}
		Ok(V::RefV(Arc::new(st.item_val(it)?), false))
	}

	fn m_seq(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let fun = &self.ir.fns[f];
		match m {
			"new" | "with_capacity" => return val(seq(vec![])),
			"from_utf8_lossy" | "from_utf8" => return stuck("bytes"),
			_ => {}
		}
		let s = self.seq_of(st, &a[0])?;
		let is_str = self.fam[f].0 == Fam::Str;
		match m {
			"len" => {
				if is_str {
					// bytes
					for i in s.iter() {
						match i {
							It::C(c) if c.is_ascii() => {}
							It::S(0, _) => return Err(Stop::Source),
							It::S(x, _) if st.seg(*x).set.subset(&CS::range(0, 127)) => {}
							_ => return stuck("length of a text in bytes"),
						}
					}
				}
				val(V::Int(st.seq_len(&s)?))
			}
			"capacity" => val(opq("capacity")),
			"is_empty" => val(V::Bool(st.is_empty(&s)?)),
			"as_slice" | "as_str" | "as_mut_slice" | "as_ref" | "as_mut_str" => val(a[0].clone()),
			"to_vec" | "to_owned" | "into_vec" | "to_string" | "into_string" | "into_boxed_slice" => val(Self::copy_val(&V::Seq(s))),
			"iter" => val(pipe(Src::Items(s.to_vec(), true))),
			"chars" => val(pipe(Src::Items(s.to_vec(), false))),
			"char_indices" => {
				let mut plain = true;
				for i in s.iter() {
					match i {
						It::C(c) if c.is_ascii() => {}
						It::S(x, _) if st.seg(*x).set.subset(&CS::range(0, 127)) => {}
						_ => plain = false,
					}
				}
				if !plain {
					// how many bytes each character takes
					let mut at = 0;
					let mut out = vec![];
					for i in s.iter() {
						match i {
							It::C(_) => {}
							It::S(x, _) if *x != 0 && st.seg(*x).exact() == Some(1) => {}
							_ => return stuck("byte positions"),
						}
						let v = st.item_val(i)?;
						let V::Char(c) = &v else { return stuck("byte positions") };
						let n = if st.ch_in(c, &CS::range(0, 0x7f))? {
							1
						} else if st.ch_in(c, &CS::range(0x80, 0x7ff))? {
							2
						} else if st.ch_in(c, &CS::range(0x800, 0xffff))? {
							3
						} else {
							4
						};
						out.push(It::V(agg(0, vec![int(at), v])));
						at += n;
					}
					return val(pipe(Src::Items(out, false)));
				}
				val(V::Iter(Arc::new(Pipe { src: Src::Items(s.to_vec(), false), st: vec![Stage::Enumerate(Lin::k(0), 1)], rev: false })))
			}
			"iter_mut" => {
				let p = self.place_of(st, &a[0])?;
				let n = st.seq_len(&s)?;
				val(pipe(Src::MutItems(p, Lin::k(0), n)))
			}
			"contains" => {
				if is_str {
					return stuck("search in a text");
				}
				val(V::Bool(self.contains(st, &s, &a[1])?))
			}
			"get" => self.m_index(st, f, a, true),
			"get_mut" => self.m_index(st, f, a, true),
			"first" | "first_mut" => match st.front(&s)? {
				Some((it, _)) => val(some(self.elem_ref(st, &a[0], Lin::k(0), &it)?)),
				None => val(none()),
			},
			"last" | "last_mut" => match st.back(&s)? {
				Some((it, _)) => {
					let n = st.seq_len(&s)?.plus(-1);
					val(some(self.elem_ref(st, &a[0], n, &it)?))
				}
				None => val(none()),
			},
			"split_first" => match st.front(&s)? {
				Some((it, r)) => val(some(agg(0, vec![V::RefV(Arc::new(st.item_val(&it)?), false), V::RefV(Arc::new(seq(r.to_vec())), false)]))),
				None => val(none()),
			},
			"split_last" => match st.back(&s)? {
				Some((it, r)) => val(some(agg(0, vec![V::RefV(Arc::new(st.item_val(&it)?), false), V::RefV(Arc::new(seq(r.to_vec())), false)]))),
				None => val(none()),
			},
			"split_at" => {
				let V::Int(i) = &a[1] else { return stuck("split_at") };
				let n = st.seq_len(&s)?;
				if !st.ge0(&n.sub(i))? {
					return Err(Stop::Panic("mid > len".into()));
				}
				let (Some(x), Some(y)) = (sub_seq(st, &s, &Lin::k(0), i)?, sub_seq(st, &s, i, &n)?) else { return stuck("split_at") };
				val(agg(0, vec![V::RefV(Arc::new(seq(x)), false), V::RefV(Arc::new(seq(y)), false)]))
			}
			"starts_with" | "ends_with" if !is_str => {
				let t = self.seq_of(st, &a[1])?;
				let (n, k) = (st.seq_len(&s)?, st.seq_len(&t)?);
				if !st.ge0(&n.sub(&k))? {
					return val(V::Bool(false));
				}
				let part = if m == "starts_with" { sub_seq(st, &s, &Lin::k(0), &k)? } else { sub_seq(st, &s, &n.sub(&k), &n)? };
				let Some(part) = part else { return stuck("affix") };
				val(V::Bool(self.eq_seq(st, &part, &t)?))
			}
			"starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" => {
				let t: Vec<It> = match &a[1] {
					V::Char(c) => vec![ch_item(c)],
					o => match self.seq_of(st, o) {
						Ok(t) => t.to_vec(),
						Err(Stop::Stuck(_)) => return stuck("pattern"),
						Err(e) => return Err(e),
					},
				};
				let front = m == "starts_with" || m == "strip_prefix";
				let (n, k) = (st.seq_len(&s)?, st.seq_len(&t)?);
				let mut hit = st.ge0(&n.sub(&k))?;
				let mut rest = vec![];
				if hit {
					let cut = if front { k.clone() } else { n.sub(&k) };
					let (Some(x), Some(y)) = (sub_seq(st, &s, &Lin::k(0), &cut)?, sub_seq(st, &s, &cut, &n)?) else { return stuck("affix") };
					let (part, other) = if front { (x, y) } else { (y, x) };
					hit = self.eq_seq(st, &part, &t)?;
					rest = other;
				}
				if m.starts_with("strip") {
					return val(if hit { some(V::RefV(Arc::new(seq(rest)), false)) } else { none() });
				}
				val(V::Bool(hit))
			}
			"trim" | "trim_start" | "trim_end" | "trim_left" | "trim_right" | "trim_matches" | "trim_start_matches" | "trim_end_matches" | "trim_ascii" | "trim_ascii_start" | "trim_ascii_end" => {
				let ascii = m.starts_with("trim_ascii");
				let pat = if m.ends_with("matches") {
					match &a[1] {
						V::Char(Ch::Lit(c)) => Some(*c),
						_ => return stuck("pattern"),
					}
				} else {
					None
				};
				let set = match pat {
					Some(c) => CS::of(&c.to_string()),
					None if ascii => pred_set("is_ascii_whitespace", |c| c.is_ascii_whitespace()),
					None => pred_set("is_whitespace", |c| c.is_whitespace()),
				};
				let side = |x: &str| m == "trim" || m == "trim_matches" || m == "trim_ascii" || m.contains(x);
				let mut cur: Vec<It> = s.to_vec();
				for front in [true, false] {
					if !(if front { side("start") || side("left") } else { side("end") || side("right") }) {
						continue;
					}
					let mut n = 0;
					loop {
						let Some((it, rest)) = (if front { st.front(&cur)? } else { st.back(&cur)? }) else { break };
						let V::Char(c) = st.item_val(&it)? else { return stuck("trim") };
						if !st.ch_in(&c, &set)? {
							break;
						}
						cur = rest.to_vec();
						n += 1;
						if n > 6 {
							return stuck("trim of a long text");
						}
					}
				}
				val(V::RefV(Arc::new(seq(cur)), false))
			}
			"to_ascii_lowercase" => val(seq(Self::map_items(&s, Map::Low)?)),
			"to_ascii_uppercase" => val(seq(Self::map_items(&s, Map::Up)?)),
			"concat" => {
				let mut out = vec![];
				for i in s.iter() {
					let v = st.item_val(i)?;
					out.extend(self.seq_of(st, &v)?.iter().cloned());
				}
				val(seq(out))
			}
			"push" | "push_str" | "pop" | "clear" | "append" | "extend_from_slice" | "truncate" | "split_off" | "insert" | "remove" | "swap_remove"
			| "drain" | "splice" | "reserve" | "shrink_to_fit" | "reverse" | "swap" | "retain" | "dedup" | "resize" | "extend" | "reserve_exact" | "extend_from_within" => {
				let p = self.place_of(st, &a[0])?;
				let V::Seq(mut s) = st.read_ptr(&p)? else { return stuck("sequence") };
				let mut ret = unit();
				match m {
					"push" => Arc::make_mut(&mut s).push(State::val_item(a[1].clone())),
					"push_str" | "extend_from_slice" => {
						let t = self.seq_of(st, &a[1])?;
						let V::Seq(t) = Self::copy_val(&V::Seq(t)) else { unreachable!() };
						Arc::make_mut(&mut s).extend(t.iter().cloned());
					}
					"pop" => match st.back(&s)? {
						Some((it, rest)) => {
							ret = some(st.item_val(&it)?);
							s = Arc::new(rest.to_vec());
						}
						None => ret = none(),
					},
					"clear" => s = Arc::new(vec![]),
					"append" => {
						let q = self.place_of(st, &a[1])?;
						let V::Seq(t) = st.read_ptr(&q)? else { return stuck("append") };
						Arc::make_mut(&mut s).extend(t.iter().cloned());
						st.write_ptr(&q, seq(vec![]))?;
					}
					"truncate" => {
						let V::Int(i) = &a[1] else { return stuck("truncate") };
						let n = st.seq_len(&s)?;
						if !st.ge0(&i.sub(&n))? {
							match sub_seq(st, &s, &Lin::k(0), i)? {
								Some(v) => s = Arc::new(v),
								None => return stuck("truncate"),
							}
						}
					}
					"split_off" => {
						let V::Int(i) = &a[1] else { return stuck("split_off") };
						let n = st.seq_len(&s)?;
						if !st.ge0(&n.sub(i))? {
							return Err(Stop::Panic("split_off: out of bounds".into()));
						}
						let (Some(x), Some(y)) = (sub_seq(st, &s, &Lin::k(0), i)?, sub_seq(st, &s, i, &n)?) else { return stuck("split_off") };
						ret = seq(y);
						s = Arc::new(x);
					}
					"insert" => {
						let V::Int(i) = &a[1] else { return stuck("insert") };
						let n = st.seq_len(&s)?;
						if !st.ge0(&n.sub(i))? {
							return Err(Stop::Panic("insert: out of bounds".into()));
						}
						let Some(k) = st.boundary(&s, i)? else { return stuck("insert") };
						Arc::make_mut(&mut s).insert(k, State::val_item(a[2].clone()));
					}
					"remove" => {
						let V::Int(i) = &a[1] else { return stuck("remove") };
						let Some(k) = st.index(&s, i)? else { return Err(Stop::Panic("remove: out of bounds".into())) };
						ret = st.item_val(&s[k])?;
						Arc::make_mut(&mut s).remove(k);
					}
					"drain" | "splice" => {
						let n = st.seq_len(&s)?;
						let (x, y) = self.range_of(f, &a[1], &n)?;
						if !st.ge0(&y.sub(&x))? || !st.ge0(&n.sub(&y))? {
							return Err(Stop::Panic(format!("{}: out of bounds", m)));
						}
						let (Some(p1), Some(p2), Some(p3)) =
							(sub_seq(st, &s, &Lin::k(0), &x)?, sub_seq(st, &s, &x, &y)?, sub_seq(st, &s, &y, &n)?)
						else {
							return stuck(m);
						};
						let mut out = p1;
						if m == "splice" {
							let mid = match &a[2] {
								V::Seq(v) => v.to_vec(),
								V::Iter(p) => match self.plain_items(st, p)? {
									Some(v) => v,
									None => return stuck("splice"),
								},
								V::Agg(1, v) => vec![State::val_item(v[0].clone())],
								V::Agg(0, v) if v.is_empty() => vec![],
								o => V::Seq(self.seq_of(st, o)?).items(),
							};
							out.extend(mid);
						}
						out.extend(p3);
						s = Arc::new(out);
						ret = pipe(Src::Items(p2, false));
					}
					"reverse" => {
						for i in s.iter() {
							if !matches!(i, It::C(_) | It::V(_)) {
								return stuck("reverse");
							}
						}
						Arc::make_mut(&mut s).reverse();
					}
					"swap" => {
						let (V::Int(i), V::Int(j)) = (&a[1], &a[2]) else { return stuck("swap") };
						let (Some(i), Some(j)) = (st.index(&s, i)?, st.index(&s, j)?) else {
							return Err(Stop::Panic("swap: out of bounds".into()));
						};
						Arc::make_mut(&mut s).swap(i, j);
					}
					"retain" => {
						let it = Pipe { src: Src::Items(s.to_vec(), true), st: vec![], rev: false };
						return self.consume(st, V::Iter(Arc::new(it)), Cons::Retain(a[1].clone(), V::Ref(Arc::new(p))), None);
					}
					"reserve" | "shrink_to_fit" | "reserve_exact" => {}
					_ => return stuck(format!("no model for {}", fun.path)),
				}
				st.write_ptr(&p, V::Seq(s))?;
				val(ret)
			}
			_ => stuck(format!("no model for {}", fun.path)),
		}
	}

	/// all remaining items when no closure is involved
	fn plain_items(&self, st: &State, p: &Pipe) -> R<Option<Vec<It>>> {
		if p.rev {
			return Ok(None);
		}
		match &p.src {
			Src::Chain(x, y) if p.st.iter().all(|s| matches!(s, Stage::Cloned)) => {
				let (Some(mut x), Some(y)) = (self.plain_items(st, x)?, self.plain_items(st, y)?) else { return Ok(None) };
				x.extend(y);
				return Ok(Some(if p.st.is_empty() { x } else { self.unref_items(st, 0, x)? }));
			}
			Src::Once(v) if p.st.is_empty() => return Ok(Some(v.iter().cloned().map(State::val_item).collect())),
			_ => {}
		}
		let Src::Items(v, by_ref) = &p.src else { return Ok(None) };
		let mut by_ref = *by_ref;
		for s in &p.st {
			match s {
				Stage::Cloned => by_ref = false,
				Stage::Map(f) => {
					// only pure functions of characters
					let mut out = vec![];
					for i in v {
						match self.map_char(st, f, i, by_ref)? {
							Some(o) => out.push(o),
							None => return Ok(None),
						}
					}
					if p.st.len() != 1 {
						return Ok(None);
					}
					return Ok(Some(out));
				}
				_ => return Ok(None),
			}
		}
		if by_ref && v.iter().any(|i| matches!(i, It::V(_))) {
			return Ok(Some(v.iter().map(|i| match i {
				It::V(x) => It::V(V::RefV(Arc::new(x.clone()), false)),
				o => o.clone(),
			}).collect()));
		}
		if by_ref {
			return Ok(Some(v.clone()));
		}
		Ok(Some(v.clone()))
	}
	/// the image of one item under a closure without captured variables
	fn map_char(&self, st: &State, f: &V, it: &It, by_ref: bool) -> R<Option<It>> {
		match f {
			V::Fn(_) => {}
			V::Clo(_, u) if u.is_empty() => {}
			_ => return Ok(None),
		}
		let (sid, m) = match it {
			It::S(s, m) => (*s, *m),
			It::C(_) => (u32::MAX, Map::Id),
			_ => return Ok(None),
		};
		if sid == 0 {
			return Ok(None);
		}
		let mut t = st.clone();
		t.ghost = Box::new(NoGhost);
		t.frames = vec![Arc::new(Frame { f: HARNESS, bb: 0, locals: vec![V::Undef], nat: None })];
		let (arg, y) = if let It::C(c) = it {
			(V::Char(Ch::Lit(*c)), u32::MAX)
		} else {
			let set = t.seg(sid).set.clone();
			let y = t.new_seg(Seg::one(set, u32::MAX));
			(V::Char(Ch::Src(y, m)), y)
		};
		let arg = if by_ref { V::RefV(Arc::new(arg), false) } else { arg };
		match self.run_pure(&mut t, f, vec![arg]) {
			Ok(V::Char(Ch::Src(z, k))) if z == y => Ok(Some(It::S(sid, k))),
			Ok(V::Char(Ch::Lit(c))) if y == u32::MAX || st.seg(sid).exact() == Some(1) => Ok(Some(It::C(c))),
			_ => Ok(None),
		}
	}
	pub fn run_pure(&self, t: &mut State, f: &V, args: Vec<V>) -> R<V> {
		match self.call_value(t, f, args)? {
			Out::Val(v) => Ok(v),
			Out::Pushed => {
				for _ in 0..2000 {
					if let Next::Done = self.step(t)? {
						return Ok(t.top().locals[0].clone());
					}
				}
				stuck("long computation")
			}
		}
	}

	fn iter_of(&self, st: &State, f: usize, v: &V) -> R<Arc<Pipe>> {
		Ok(match v {
			V::Iter(p) => p.clone(),
			V::Seq(s) => Arc::new(Pipe { src: Src::Items(s.to_vec(), false), st: vec![], rev: false }),
			V::Ref(_) | V::RefV(..) => {
				let d = self.deref(st, v)?;
				match d {
					V::Seq(s) => {
						if self.ir.fns[f].path.contains("&'a mut") {
							let p = self.place_of(st, v)?;
							let n = st.seq_len(&s)?;
							Arc::new(Pipe { src: Src::MutItems(p, Lin::k(0), n), st: vec![], rev: false })
						} else {
							Arc::new(Pipe { src: Src::Items(s.to_vec(), true), st: vec![], rev: false })
						}
					}
					V::Iter(p) => p,
					V::Agg(k, x) if self.ir.fns[f].path.contains("Option") => {
						Arc::new(Pipe { src: Src::Once(if k == 1 { Some(V::RefV(Arc::new(x[0].clone()), false)) } else { None }), st: vec![], rev: false })
					}
					o => return stuck(format!("iteration over {}", short(&o))),
				}
			}
			V::Agg(k, x) => {
				if x.len() == 2 {
					if let (V::Int(p), V::Int(q)) = (&x[0], &x[1]) {
						return Ok(Arc::new(Pipe { src: Src::Range(p.clone(), q.clone()), st: vec![], rev: false }));
					}
				}
				if x.len() == 3 {
					if let (V::Int(p), V::Int(q), V::Bool(false)) = (&x[0], &x[1], &x[2]) {
						return Ok(Arc::new(Pipe { src: Src::Range(p.clone(), q.plus(1)), st: vec![], rev: false }));
					}
				}
				if x.len() == 1 && *k == 0 {
					if let V::Int(p) = &x[0] {
						return Ok(Arc::new(Pipe { src: Src::From(p.clone()), st: vec![], rev: false }));
					}
				}
				if *k == 1 && x.len() == 1 {
					return Ok(Arc::new(Pipe { src: Src::Once(Some(x[0].clone())), st: vec![], rev: false }));
				}
				if *k == 0 && x.is_empty() {
					return Ok(Arc::new(Pipe { src: Src::Once(None), st: vec![], rev: false }));
				}
				return stuck("iteration over a value");
			}
			o => return stuck(format!("iteration over {}", short(o))),
		})
	}

	fn m_iter(&self, st: &mut State, f: usize, m: &str, a: &[V]) -> R<Option<Out>> {
		let fun = &self.ir.fns[f];
		let stage = |p: Arc<Pipe>, s: Stage| -> R<Option<Out>> {
			let mut p = (*p).clone();
			p.st.push(s);
			val(V::Iter(Arc::new(p)))
		};
		if fun.path.starts_with("std::iter::") && !fun.path.contains("Iterator") {
			match (m, a.len()) {
				("once", 1) => return val(pipe(Src::Once(Some(a[0].clone())))),
				("empty", 0) => return val(pipe(Src::Once(None))),
				("zip", 2) => {
					let x = self.iter_of(st, f, &a[0])?;
					let y = self.iter_of(st, f, &a[1])?;
					return val(pipe(Src::Zip(Box::new((*x).clone()), Box::new((*y).clone()))));
				}
				_ => {}
			}
		}
		if m == "extend" && a.len() == 2 {
			let it = self.iter_of(st, f, &a[1])?;
			let p = self.place_of(st, &a[0])?;
			if let Some(items) = self.plain_items(st, &it)? {
				let items = self.unref_items(st, f, items)?;
				let V::Seq(mut s) = st.read_ptr(&p)? else { return stuck("extend") };
				Arc::make_mut(&mut s).extend(items);
				st.write_ptr(&p, V::Seq(s))?;
				return val(unit());
			}
			return self.consume(st, V::Iter(it), Cons::Extend(V::Ref(Arc::new(p))), None);
		}
		if m == "from_iter" && a.len() == 1 || m == "collect" {
			let ret = self.ty_path(fun.ret).to_string();
			let kind = if ret.ends_with("string::String") {
				1
			} else if ret.ends_with("vec::Vec") {
				0
			} else {
				return stuck(format!("collects into {}", ret));
			};
			let it = self.iter_of(st, f, &a[0])?;
			if let Some(items) = self.plain_items(st, &it)? {
				let by_ref = matches!(&it.src, Src::Items(_, true)) && it.st.is_empty();
				// a vector of references to characters is not a vector of characters
				if !(by_ref && kind == 0 && items.iter().any(|i| matches!(i, It::C(_) | It::S(..)))) {
					return val(seq(items));
				}
			}
			return self.consume(st, V::Iter(it), Cons::Collect(kind), None);
		}
		match m {
			"into_iter" | "iter" | "by_ref" => {
				if m == "by_ref" {
					return val(a[0].clone());
				}
				return val(V::Iter(self.iter_of(st, f, &a[0])?));
			}
			_ => {}
		}
		// by mutable reference
		if let V::Ref(_) = &a[0] {
			let p = self.place_of(st, &a[0])?;
			let mut v = st.read_ptr(&p)?;
			if let V::Agg(..) = &v {
				v = V::Iter(self.iter_of(st, f, &v)?);
				st.write_ptr(&p, v.clone())?;
			}
			let V::Iter(it) = &v else { return stuck(format!("iterator {}", short(&v))) };
			let _ = it;
			let cons = match m {
				"next" => Cons::Next,
				"next_back" => {
					// from the other end
					let V::Iter(it) = &v else { unreachable!() };
					let mut q = (**it).clone();
					q.rev = !q.rev;
					if !q.st.iter().all(|s| matches!(s, Stage::Cloned)) {
						return stuck("next_back");
					}
					let r = self.pull(st, &mut q)?;
					q.rev = !q.rev;
					st.write_ptr(&p, V::Iter(Arc::new(q)))?;
					return val(opt(r));
				}
				"any" => Cons::Any(a[1].clone()),
				"all" => Cons::All(a[1].clone()),
				"find" => Cons::Find(a[1].clone()),
				"find_map" => Cons::FindMap(a[1].clone()),
				"position" => Cons::Position(a[1].clone(), Lin::k(0)),
				"try_for_each" | "try_fold" => {
					let t = self.ty_path(fun.ret).to_string();
					let (go, stop) = if t.ends_with("::Option") {
						(1, 0)
					} else if t.ends_with("::Result") || t.ends_with("::ControlFlow") {
						(0, 1)
					} else {
						return stuck(m);
					};
					if m == "try_fold" {
						Cons::TryFold(a[2].clone(), a[1].clone(), go, stop)
					} else {
						Cons::TryFold(a[1].clone(), V::Undef, go, stop)
					}
				}
				"nth" => match &a[1] {
					V::Int(l) => Cons::Nth(l.clone()),
					_ => return stuck("nth"),
				},
				"rposition" | "rfind" => {
					let mut q = (**it).clone();
					if !q.st.iter().all(|s| matches!(s, Stage::Cloned | Stage::Map(_) | Stage::Filter(_))) || q.rev {
						return stuck(m);
					}
					let c = if m == "rfind" {
						Cons::Find(a[1].clone())
					} else {
						let n = self.iter_len(st, it)?;
						Cons::RPosition(a[1].clone(), st.norm(&n.plus(-1)))
					};
					q.rev = true;
					// what is left of the iterator afterwards is not modelled
					st.write_ptr(&p, V::Undef)?;
					return self.consume(st, V::Iter(Arc::new(q)), c, None);
				}
				"peek" => {
					let mut q = (**it).clone();
					if q.st.last().map_or(true, |s| !matches!(s, Stage::Peek(_))) {
						return stuck("peek");
					}
					if let Some(Stage::Peek(Some(x))) = q.st.last() {
						let r = match x {
							V::Agg(1, y) => some(V::RefV(Arc::new(y[0].clone()), false)),
							_ => none(),
						};
						return val(r);
					}
					if has_closure(&v) && q.st.len() > 1 {
						return stuck("peek");
					}
					let last = q.st.pop();
					let _ = last;
					let r = self.pull_all(st, &mut q)?;
					q.st.push(Stage::Peek(Some(opt(r.clone()))));
					st.write_ptr(&p, V::Iter(Arc::new(q)))?;
					return val(opt(r.map(|x| V::RefV(Arc::new(x), false))));
				}
				"as_str" | "as_slice" => {
					if let Src::Items(x, _) = &it.src {
						if it.st.is_empty() {
							return val(V::RefV(Arc::new(seq(x.clone())), false));
						}
					}
					return stuck(m);
				}
				"len" => return val(V::Int(self.iter_len(st, it)?)),
				"size_hint" => return val(opq("size hint")),
				_ => return stuck(format!("no model for {}", fun.path)),
			};
			if cons == Cons::Next {
				let simple = it.st.iter().all(|s| matches!(s, Stage::Cloned | Stage::Enumerate(..) | Stage::Peek(_)));
				if simple {
					let mut q = (**it).clone();
					let r = self.pull_all(st, &mut q)?;
					st.write_ptr(&p, V::Iter(Arc::new(q)))?;
					return val(opt(r));
				}
			}
			return self.consume(st, v.clone(), cons, Some(p));
		}
		let it = self.iter_of(st, f, &a[0])?;
		match m {
			"map" => stage(it, Stage::Map(a[1].clone())),
			"filter" => stage(it, Stage::Filter(a[1].clone())),
			"filter_map" => stage(it, Stage::FilterMap(a[1].clone())),
			"take_while" => stage(it, Stage::TakeWhile(a[1].clone(), false)),
			"skip_while" => stage(it, Stage::SkipWhile(a[1].clone(), false)),
			"map_while" => stage(it, Stage::MapWhile(a[1].clone())),
			"inspect" => stage(it, Stage::Inspect(a[1].clone())),
			"enumerate" => stage(it, Stage::Enumerate(Lin::k(0), 1)),
			"cloned" | "copied" => stage(it, Stage::Cloned),
			"flat_map" => stage(it, Stage::FlatMap(a[1].clone(), None)),
			"flatten" => stage(it, Stage::FlatMap(V::Undef, None)),
			"peekable" => stage(it, Stage::Peek(None)),
			"fuse" => val(V::Iter(it)),
			"skip" | "take" => {
				let V::Int(l) = &a[1] else { return stuck(m) };
				// on a plain sequence: a part of it
				if let (Src::Items(v, r), true, false) = (&it.src, it.st.is_empty(), it.rev) {
					let n = st.seq_len(v)?;
					let k = if st.ge0(&l.sub(&n))? { n.clone() } else { l.clone() };
					let part = if m == "skip" { sub_seq(st, v, &k, &n)? } else { sub_seq(st, v, &Lin::k(0), &k)? };
					let Some(part) = part else { return stuck(m) };
					return val(V::Iter(Arc::new(Pipe { src: Src::Items(part, *r), st: vec![], rev: false })));
				}
				if m == "skip" {
					stage(it, Stage::Skip(l.clone()))
				} else {
					stage(it, Stage::Take(l.clone()))
				}
			}
			"rev" => {
				let mut p = (*it).clone();
				p.rev = !p.rev;
				for i in 0..p.st.len() {
					match &p.st[i] {
						Stage::Enumerate(l, 1) => {
							let mut q = p.clone();
							q.st.truncate(i);
							let n = self.iter_len(st, &q)?;
							p.st[i] = Stage::Enumerate(st.norm(&l.add(&n).plus(-1)), -1);
						}
						Stage::Cloned | Stage::Map(_) | Stage::Filter(_) | Stage::FilterMap(_) | Stage::Inspect(_) => {}
						_ => return stuck("rev"),
					}
				}
				val(V::Iter(Arc::new(p)))
			}
			"zip" => {
				let o = self.iter_of(st, f, &a[1])?;
				val(pipe(Src::Zip(Box::new((*it).clone()), Box::new((*o).clone()))))
			}
			"chain" => {
				let o = self.iter_of(st, f, &a[1])?;
				val(pipe(Src::Chain(Box::new((*it).clone()), Box::new((*o).clone()))))
			}
			"for_each" => self.consume(st, V::Iter(it), Cons::ForEach(a[1].clone()), None),
			"any" => self.consume(st, V::Iter(it), Cons::Any(a[1].clone()), None),
			"all" => self.consume(st, V::Iter(it), Cons::All(a[1].clone()), None),
			"find" => self.consume(st, V::Iter(it), Cons::Find(a[1].clone()), None),
			"position" => self.consume(st, V::Iter(it), Cons::Position(a[1].clone(), Lin::k(0)), None),
			"fold" => self.consume(st, V::Iter(it), Cons::Fold(a[2].clone(), a[1].clone()), None),
			"count" => match self.iter_len(st, &it) {
				Ok(n) => val(V::Int(n)),
				Err(Stop::Stuck(_)) => self.consume(st, V::Iter(it), Cons::Count(Lin::k(0)), None),
				Err(e) => Err(e),
			},
			"last" => {
				if let (Src::Items(v, r), true, false) = (&it.src, it.st.is_empty(), it.rev) {
					return match st.back(v)? {
						Some((i, _)) => {
							let x = st.item_val(&i)?;
							val(some(if *r { V::RefV(Arc::new(x), false) } else { x }))
						}
						None => val(none()),
					};
				}
				self.consume(st, V::Iter(it), Cons::Last(none()), None)
			}
			"sum" => self.consume(st, V::Iter(it), Cons::Sum(Lin::k(0)), None),
			"eq" | "ne" => {
				let o = self.iter_of(st, f, &a[1])?;
				let (Some(x), Some(y)) = (self.plain_items(st, &it)?, self.plain_items(st, &o)?) else { return stuck("equality of iterators") };
				let (x, y) = (self.unref_items(st, f, x)?, self.unref_items(st, f, y)?);
				let e = self.eq_seq(st, &x, &y)?;
				val(V::Bool(e == (m == "eq")))
			}
			"clone" => val(V::Iter(it)),
			_ => stuck(format!("no model for {}", fun.path)),
		}
	}
	fn unref_items(&self, _st: &State, _f: usize, items: Vec<It>) -> R<Vec<It>> {
		Ok(items
			.into_iter()
			.map(|i| match i {
				It::V(V::RefV(v, _)) => State::val_item((*v).clone()),
				o => o,
			})
			.collect())
	}
	fn iter_len(&self, st: &State, p: &Pipe) -> R<Lin> {
		for s in &p.st {
			match s {
				Stage::Enumerate(..) | Stage::Cloned | Stage::Map(_) => {}
				_ => return stuck("length of an iterator"),
			}
		}
		match &p.src {
			Src::Items(v, _) => st.seq_len(v),
			Src::MutItems(_, a, b) | Src::Range(a, b) => {
				let d = b.sub(a);
				if st.ge0(&d)? {
					Ok(st.norm(&d))
				} else {
					Ok(Lin::k(0))
				}
			}
			Src::Once(v) => Ok(Lin::k(v.is_some() as i64)),
			_ => stuck("length of an iterator"),
		}
	}
	/// the next element of the source
	fn pull(&self, st: &State, p: &mut Pipe) -> R<Option<V>> {
		let rev = p.rev;
		match &mut p.src {
			Src::Items(v, by_ref) => {
				let r = if rev { st.back(v)? } else { st.front(v)? };
				match r {
					Some((it, rest)) => {
						let x = st.item_val(&it)?;
						let rest = rest.to_vec();
						let r = *by_ref && !p.st.first().map_or(false, |s| matches!(s, Stage::Cloned));
						p.src = Src::Items(rest, *by_ref);
						Ok(Some(if r { V::RefV(Arc::new(x), false) } else { x }))
					}
					None => {
						*v = vec![];
						Ok(None)
					}
				}
			}
			Src::MutItems(q, a, b) => {
				if st.ge0(&a.sub(b))? {
					return Ok(None);
				}
				let i = if rev {
					*b = st.norm(&b.plus(-1));
					b.clone()
				} else {
					let i = a.clone();
					*a = st.norm(&a.plus(1));
					i
				};
				Ok(Some(V::Ref(Arc::new(q.push(Step::Elem(i))))))
			}
			Src::Range(a, b) => {
				if st.ge0(&a.sub(b))? {
					return Ok(None);
				}
				if rev {
					*b = st.norm(&b.plus(-1));
					Ok(Some(V::Int(b.clone())))
				} else {
					let i = a.clone();
					*a = st.norm(&a.plus(1));
					Ok(Some(V::Int(i)))
				}
			}
			Src::From(a) => {
				let i = a.clone();
				*a = st.norm(&a.plus(1));
				Ok(Some(V::Int(i)))
			}
			Src::Once(v) => Ok(v.take()),
			Src::Zip(x, y) => {
				if rev {
					return stuck("reversed zip");
				}
				let Some(a) = self.pull_all(st, x)? else { return Ok(None) };
				let Some(b) = self.pull_all(st, y)? else { return Ok(None) };
				Ok(Some(agg(0, vec![a, b])))
			}
			Src::Chain(x, y) => {
				if rev {
					return stuck("reversed chain");
				}
				match self.pull_all(st, x)? {
					Some(v) => Ok(Some(v)),
					None => self.pull_all(st, y),
				}
			}
		}
	}
	/// the next element of a pipe without closures
	fn pull_all(&self, st: &State, p: &mut Pipe) -> R<Option<V>> {
		if let Some(Stage::Peek(x)) = p.st.last_mut() {
			if let Some(v) = x.take() {
				return Ok(match v {
					V::Agg(1, y) => Some(y[0].clone()),
					_ => None,
				});
			}
		}
		let Some(mut v) = self.pull(st, p)? else { return Ok(None) };
		for s in p.st.iter_mut() {
			match s {
				Stage::Cloned => {
					if let V::Ref(_) | V::RefV(..) = v {
						v = self.deref(st, &v)?;
					}
				}
				Stage::Enumerate(l, k) => {
					let i = l.clone();
					*l = st.norm(&l.plus(*k));
					v = agg(0, vec![V::Int(i), v]);
				}
				Stage::Peek(_) => {}
				_ => return stuck("closure in a nested iterator"),
			}
		}
		Ok(Some(v))
	}

	fn consume(&self, st: &mut State, it: V, cons: Cons, back: Option<Ptr>) -> R<Option<Out>> {
		let n = Native { it, cons, acc: vec![], stage: 0, cur: V::Undef, wait: false, back };
		st.frames.push(Arc::new(Frame { f: NATIVE, bb: 0, locals: vec![], nat: Some(n) }));
		Ok(Some(Out::Pushed))
	}
	fn nat_end(&self, st: &mut State, v: V) -> R<Next> {
		let fr = st.frames.pop().unwrap();
		let n = fr.nat.as_ref().unwrap();
		if let Some(p) = &n.back {
			st.write_ptr(p, n.it.clone())?;
		}
		self.deliver(st, v)
	}
	fn nat<'a>(&self, st: &'a mut State) -> &'a mut Native {
		st.top_mut().nat.as_mut().unwrap()
	}
	pub fn nat_step(&self, st: &mut State) -> R<Next> {
		let n = st.top().nat.clone().unwrap();
		let V::Iter(p) = &n.it else { return stuck("native iterator") };
		if n.wait {
			return stuck("native frame waits");
		}
		if n.stage == 0 {
			// whole pieces at once when a judged predicate treats all characters alike
			// the innermost running flat_map first
			for (i, s) in p.st.iter().enumerate().rev() {
				if let Stage::FlatMap(_, Some((items, r))) = s {
					match st.front(items)? {
						Some((it, rest)) => {
							let x = st.item_val(&it)?;
							let x = if *r { V::RefV(Arc::new(x), false) } else { x };
							let rest = rest.to_vec();
							let r = *r;
							let mut q = (**p).clone();
							if let Stage::FlatMap(_, inner) = &mut q.st[i] {
								*inner = Some((rest, r));
							}
							let m = self.nat(st);
							m.it = V::Iter(Arc::new(q));
							m.cur = x;
							m.stage = i as u32 + 1;
							return self.nat_pass(st);
						}
						None => {
							let mut q = (**p).clone();
							if let Stage::FlatMap(_, inner) = &mut q.st[i] {
								*inner = None;
							}
							self.nat(st).it = V::Iter(Arc::new(q));
							return Ok(Next::Go);
						}
					}
				}
			}
			let mut q = (**p).clone();
			match self.pull(st, &mut q)? {
				None => {
					self.nat(st).it = V::Iter(Arc::new(q));
					return self.nat_finish(st);
				}
				Some(v) => {
					let m = self.nat(st);
					m.it = V::Iter(Arc::new(q));
					m.cur = v;
					return self.nat_pass(st);
				}
			}
		}
		self.nat_pass(st)
	}
	fn nat_finish(&self, st: &mut State) -> R<Next> {
		let n = st.top().nat.clone().unwrap();
		let v = match &n.cons {
			Cons::Next | Cons::Nth(_) => none(),
			Cons::Collect(_) => seq(n.acc.clone()),
			Cons::ForEach(_) | Cons::Extend(_) => unit(),
			Cons::Any(_) => V::Bool(false),
			Cons::All(_) => V::Bool(true),
			Cons::Find(_) | Cons::FindMap(_) | Cons::Position(..) => none(),
			Cons::Count(l) => V::Int(l.clone()),
			Cons::Last(v) => v.clone(),
			Cons::Fold(_, acc) => acc.clone(),
			Cons::RPosition(..) => none(),
			Cons::TryFold(_, acc, go, _) => agg(*go, vec![if acc.is_undef() { unit() } else { acc.clone() }]),
			Cons::Sum(l) => V::Int(l.clone()),
			Cons::Retain(_, t) => {
				let p = self.place_of(st, t)?;
				st.write_ptr(&p, seq(n.acc.clone()))?;
				unit()
			}
		};
		self.nat_end(st, v)
	}
	/// passes the current element through the stages
	fn nat_pass(&self, st: &mut State) -> R<Next> {
		loop {
			let n = st.top().nat.clone().unwrap();
			let V::Iter(p) = &n.it else { return stuck("native iterator") };
			let i = n.stage as usize;
			if i >= p.st.len() {
				return self.nat_item(st);
			}
			let set = |st: &mut State, s: Stage| {
				let m = self.nat(st);
				let V::Iter(p) = &mut m.it else { return };
				Arc::make_mut(p).st[i] = s;
			};
			match &p.st[i] {
				Stage::Cloned => {
					let v = if let V::Ref(_) | V::RefV(..) = n.cur { self.deref(st, &n.cur)? } else { n.cur.clone() };
					self.nat(st).cur = v;
				}
				Stage::Peek(_) => return stuck("peekable iterator with closures"),
				Stage::Enumerate(l, k) => {
					let v = agg(0, vec![V::Int(l.clone()), n.cur.clone()]);
					let l2 = st.norm(&l.plus(*k));
					set(st, Stage::Enumerate(l2, *k));
					self.nat(st).cur = v;
				}
				Stage::Skip(l) => {
					if st.ge0(&l.plus(-1))? {
						let l2 = st.norm(&l.plus(-1));
						set(st, Stage::Skip(l2));
						self.nat(st).stage = 0;
						return Ok(Next::Go);
					}
				}
				Stage::Take(l) => {
					if !st.ge0(&l.plus(-1))? {
						return self.nat_finish(st);
					}
					let l2 = st.norm(&l.plus(-1));
					set(st, Stage::Take(l2));
				}
				Stage::StepBy(..) => return stuck("step_by"),
				Stage::FlatMap(V::Undef, _) => {
					let v = n.cur.clone();
					return self.nat_inner(st, v);
				}
				Stage::SkipWhile(_, true) => {}
				Stage::TakeWhile(_, true) => return self.nat_finish(st),
				Stage::Map(c) | Stage::FilterMap(c) | Stage::MapWhile(c) | Stage::FlatMap(c, _) => {
					self.nat(st).wait = true;
					let o = self.call_value(st, c, vec![n.cur.clone()])?;
					return self.ret(st, o);
				}
				Stage::Filter(c) | Stage::TakeWhile(c, _) | Stage::SkipWhile(c, _) | Stage::Inspect(c) => {
					self.nat(st).wait = true;
					let o = self.call_value(st, c, vec![V::RefV(Arc::new(n.cur.clone()), false)])?;
					return self.ret(st, o);
				}
			}
			self.nat(st).stage += 1;
		}
	}
	fn nat_inner(&self, st: &mut State, v: V) -> R<Next> {
		let n = st.top().nat.clone().unwrap();
		let i = n.stage as usize;
		let items = match &v {
			V::Seq(s) => (s.to_vec(), false),
			V::Agg(1, x) if x.len() == 1 => (vec![State::val_item(x[0].clone())], false),
			V::Agg(0, x) if x.is_empty() => (vec![], false),
			V::Iter(p) => match self.plain_items(st, p)? {
				Some(x) => (x, matches!(&p.src, Src::Items(_, true)) && p.st.is_empty()),
				None => return stuck("flat_map"),
			},
			V::Ref(_) | V::RefV(..) => (self.seq_of(st, &v)?.to_vec(), true),
			o => return stuck(format!("flat_map of {}", short(o))),
		};
		// a collector of texts takes the whole text at once
		let V::Iter(p) = &n.it else { return stuck("native") };
		if i + 1 == p.st.len() {
			if let Cons::Collect(k) = n.cons {
				if !items.1 || k == 1 {
					let m = self.nat(st);
					m.acc.extend(items.0);
					m.stage = 0;
					m.cur = V::Undef;
					return Ok(Next::Go);
				}
			}
		}
		let m = self.nat(st);
		let V::Iter(p) = &mut m.it else { return stuck("native") };
		if let Stage::FlatMap(_, inner) = &mut Arc::make_mut(p).st[i] {
			*inner = Some(items);
		}
		m.stage = 0;
		m.cur = V::Undef;
		Ok(Next::Go)
	}
	/// hands an element to the consumer
	fn nat_item(&self, st: &mut State) -> R<Next> {
		let n = st.top().nat.clone().unwrap();
		let done = |st: &mut State| {
			let m = self.nat(st);
			m.stage = 0;
			m.cur = V::Undef;
		};
		match &n.cons {
			Cons::Next => {
				done(st);
				self.nat_end(st, some(n.cur.clone()))
			}
			Cons::Collect(k) => {
				let mut v = n.cur.clone();
				if *k == 1 {
					v = self.deref(st, &v)?;
					if let V::Seq(s) = &v {
						self.nat(st).acc.extend(s.iter().cloned());
						done(st);
						return Ok(Next::Go);
					}
				}
				self.nat(st).acc.push(State::val_item(v));
				done(st);
				Ok(Next::Go)
			}
			Cons::Extend(t) => {
				let p = self.place_of(st, t)?;
				let V::Seq(mut s) = st.read_ptr(&p)? else { return stuck("extend") };
				let v = self.deref(st, &n.cur)?;
				Arc::make_mut(&mut s).push(State::val_item(v));
				st.write_ptr(&p, V::Seq(s))?;
				done(st);
				Ok(Next::Go)
			}
			Cons::Count(l) => {
				let l = st.norm(&l.plus(1));
				self.nat(st).cons = Cons::Count(l);
				done(st);
				Ok(Next::Go)
			}
			Cons::Last(_) => {
				self.nat(st).cons = Cons::Last(some(n.cur.clone()));
				done(st);
				Ok(Next::Go)
			}
			Cons::Nth(l) => {
				if st.eq0(l)? {
					done(st);
					return self.nat_end(st, some(n.cur.clone()));
				}
				let l = st.norm(&l.plus(-1));
				self.nat(st).cons = Cons::Nth(l);
				done(st);
				Ok(Next::Go)
			}
			Cons::ForEach(c) | Cons::Any(c) | Cons::All(c) | Cons::Position(c, _) | Cons::RPosition(c, _) | Cons::FindMap(c) => {
				self.nat(st).wait = true;
				let o = self.call_value(st, c, vec![n.cur.clone()])?;
				self.ret(st, o)
			}
			Cons::Find(c) => {
				self.nat(st).wait = true;
				let o = self.call_value(st, c, vec![V::RefV(Arc::new(n.cur.clone()), false)])?;
				self.ret(st, o)
			}
			Cons::Fold(c, acc) => {
				self.nat(st).wait = true;
				let o = self.call_value(st, c, vec![acc.clone(), n.cur.clone()])?;
				self.ret(st, o)
			}
			Cons::Sum(l) => {
				let V::Int(k) = self.deref(st, &n.cur)? else { return stuck("sum") };
				let l = st.norm(&l.add(&k));
				self.nat(st).cons = Cons::Sum(l);
				done(st);
				Ok(Next::Go)
			}
			Cons::TryFold(c, acc, ..) => {
				self.nat(st).wait = true;
				let args = if acc.is_undef() { vec![n.cur.clone()] } else { vec![acc.clone(), n.cur.clone()] };
				let o = self.call_value(st, c, args)?;
				self.ret(st, o)
			}
			Cons::Retain(c, _) => {
				self.nat(st).wait = true;
				let o = self.call_value(st, c, vec![n.cur.clone()])?;
				self.ret(st, o)
			}
		}
	}
	/// a closure of a stage or of the consumer returned
	pub fn nat_resume(&self, st: &mut State, v: V) -> R<Next> {
		let n = st.top().nat.clone().unwrap();
		let V::Iter(p) = &n.it else { return stuck("native iterator") };
		self.nat(st).wait = false;
		let i = n.stage as usize;
		let again = |st: &mut State| {
			let m = self.nat(st);
			m.stage = 0;
			m.cur = V::Undef;
			Ok(Next::Go)
		};
		if i < p.st.len() {
			match &p.st[i] {
				Stage::Map(_) => self.nat(st).cur = v,
				Stage::FilterMap(_) => match v {
					V::Agg(1, x) => self.nat(st).cur = x[0].clone(),
					_ => return again(st),
				},
				Stage::MapWhile(_) => match v {
					V::Agg(1, x) => self.nat(st).cur = x[0].clone(),
					_ => return self.nat_finish(st),
				},
				Stage::Filter(_) => {
					if !self.bool_of(st, &v)? {
						return again(st);
					}
				}
				Stage::TakeWhile(c, _) => {
					if !self.bool_of(st, &v)? {
						let m = self.nat(st);
						if let V::Iter(p) = &mut m.it {
							Arc::make_mut(p).st[i] = Stage::TakeWhile(c.clone(), true);
						}
						return self.nat_finish(st);
					}
				}
				Stage::SkipWhile(c, _) => {
					if self.bool_of(st, &v)? {
						return again(st);
					}
					let m = self.nat(st);
					if let V::Iter(p) = &mut m.it {
						Arc::make_mut(p).st[i] = Stage::SkipWhile(c.clone(), true);
					}
				}
				Stage::Inspect(_) => {}
				Stage::FlatMap(..) => return self.nat_inner(st, v),
				_ => return stuck("stage"),
			}
			self.nat(st).stage += 1;
			return self.nat_pass(st);
		}
		match &n.cons {
			Cons::ForEach(_) => again(st),
			Cons::Any(_) => {
				if self.bool_of(st, &v)? {
					return self.nat_end(st, V::Bool(true));
				}
				again(st)
			}
			Cons::All(_) => {
				if !self.bool_of(st, &v)? {
					return self.nat_end(st, V::Bool(false));
				}
				again(st)
			}
			Cons::Find(_) => {
				if self.bool_of(st, &v)? {
					return self.nat_end(st, some(n.cur.clone()));
				}
				again(st)
			}
			Cons::FindMap(_) => match &v {
				V::Agg(1, _) => self.nat_end(st, v),
				_ => again(st),
			},
			Cons::Position(c, l) => {
				if self.bool_of(st, &v)? {
					return self.nat_end(st, some(V::Int(l.clone())));
				}
				let l = st.norm(&l.plus(1));
				self.nat(st).cons = Cons::Position(c.clone(), l);
				again(st)
			}
			Cons::RPosition(c, l) => {
				if self.bool_of(st, &v)? {
					return self.nat_end(st, some(V::Int(l.clone())));
				}
				let l = st.norm(&l.plus(-1));
				self.nat(st).cons = Cons::RPosition(c.clone(), l);
				again(st)
			}
			Cons::TryFold(c, acc, go, stop) => match &v {
				V::Agg(k, _) if k == stop => self.nat_end(st, v),
				V::Agg(k, x) if k == go && x.len() == 1 => {
					let acc = if acc.is_undef() { V::Undef } else { x[0].clone() };
					self.nat(st).cons = Cons::TryFold(c.clone(), acc, *go, *stop);
					again(st)
				}
				_ => stuck("result of a fallible closure"),
			},
			Cons::Retain(..) => {
				if self.bool_of(st, &v)? {
					let x = self.deref(st, &n.cur)?;
					self.nat(st).acc.push(State::val_item(x));
				}
				again(st)
			}
			Cons::Fold(c, _) => {
				self.nat(st).cons = Cons::Fold(c.clone(), v);
				again(st)
			}
			_ => stuck("consumer"),
		}
	}
}

/// entities decoded where the text is known well enough, else an opaque text
pub fn decoded(st: &State, s: &[It]) -> Vec<It> {
	let opaque = || vec![It::F(Arc::new(("decode".into(), vec![seq(s.to_vec())])))];
	let amp = CS::one('&');
	let mut out: Vec<It> = vec![];
	let mut i = 0;
	while i < s.len() {
		match &s[i] {
			It::C('&') => {
				let mut w = String::new();
				let mut j = i + 1;
				while let Some(It::C(c)) = s.get(j) {
					if *c == ';' || *c == '&' {
						break;
					}
					w.push(*c);
					j += 1;
				}
				let c = match (s.get(j), w.as_str()) {
					(Some(It::C(';')), "lt") => '<',
					(Some(It::C(';')), "gt") => '>',
					(Some(It::C(';')), "amp") => '&',
					(Some(It::C(';')), "quot") => '"',
					_ => return opaque(),
				};
				out.push(It::C(c));
				i = j + 1;
			}
			It::C(c) => {
				out.push(It::C(*c));
				i += 1;
			}
			It::S(x, m) => {
				if !m.image(&st.seg(*x).set).and(&amp).is_empty() {
					return opaque();
				}
				out.push(s[i].clone());
				i += 1;
			}
			_ => return opaque(),
		}
	}
	out
}

pub fn pred_set(name: &'static str, f: fn(char) -> bool) -> CS {
	static CACHE: std::sync::Mutex<Vec<(&'static str, CS)>> = std::sync::Mutex::new(vec![]);
	let mut c = CACHE.lock().unwrap();
	if let Some(x) = c.iter().find(|x| x.0 == name) {
		return x.1.clone();
	}
	let s = of_pred(f);
	c.push((name, s.clone()));
	s
}
pub fn of_pred(f: fn(char) -> bool) -> CS {
	let mut s = CS::empty();
	let mut lo: Option<u32> = None;
	for c in 0..=0x10ffffu32 + 1 {
		let x = char::from_u32(c).map_or(false, f);
		match (x, lo) {
			(true, None) => lo = Some(c),
			(false, Some(l)) => {
				s = s.or(&CS::range(l, c - 1));
				lo = None;
			}
			_ => {}
		}
	}
	s
}
impl V {
	pub fn items(&self) -> Vec<It> {
		match self {
			V::Seq(s) => s.to_vec(),
			_ => vec![],
		}
	}
}
