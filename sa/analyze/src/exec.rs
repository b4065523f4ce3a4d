//! Abstract interpretation of the lowered program.
use crate::cs::CS;
use crate::ir::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

pub const HARNESS: usize = usize::MAX;

pub struct FnInfo {
	/// live locals at the start of every block
	pub live: Vec<Vec<bool>>,
	/// blocks with several predecessors
	pub join: Vec<bool>,
}

pub struct Prog {
	pub ir: Program,
	pub info: RefCell<HashMap<usize, Arc<FnInfo>>>,
	pub by_path: HashMap<String, usize>,
	pub lazies: RefCell<HashMap<usize, Arc<V>>>,
	pub seen: RefCell<HashMap<usize, usize>>,
	pub fam: Vec<(Fam, String)>,
	pub intercept: RefCell<HashMap<usize, Stub>>,
	pub stats: RefCell<Stats>,
	/// results of calls that depend on plain values only
	pub pure_cache: RefCell<HashMap<String, Option<V>>>,
}
#[derive(Default, Clone)]
pub struct Stats {
	pub trace: u64,
	pub blocks: u64,
	pub joins: u64,
	pub splits: u64,
	pub stuck: HashMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
	None,
	Vec,
	Slice,
	Str,
	Rc,
	Weak,
	RefCell,
	Map,
	Entry,
	Box,
	Char,
	Iter,
	Trait,
	Panic,
	Fmt,
	Misc,
	Closure,
}

/// stands in for a function; None: the function itself
pub type Stub = fn(&Prog, &mut State, usize, &[V]) -> R<Option<Out>>;

pub enum Out {
	Val(V),
	Pushed,
}

pub enum Next {
	Go,
	/// the harness frame received the result
	Done,
}

fn last_seg(path: &str) -> &str {
	let mut depth = 0i32;
	let b = path.as_bytes();
	let mut i = b.len();
	while i > 1 {
		i -= 1;
		match b[i] {
			b'>' if i > 0 && b[i - 1] != b'-' => depth += 1,
			b'<' => depth -= 1,
			b':' if depth == 0 && b[i - 1] == b':' => return &path[i + 1..],
			_ => {}
		}
	}
	path
}

pub fn classify(f: &Func) -> (Fam, String) {
	let p = f.path.as_str();
	let m = last_seg(p).to_string();
	if f.local {
		if p.contains("{closure#") {
			return (Fam::Closure, m);
		}
		return (Fam::None, m);
	}
	if p.contains("{closure#") {
		return (Fam::Closure, m);
	}
	let fam = if p.starts_with("core::panicking::")
		|| p.starts_with("std::rt::begin_panic")
		|| p.starts_with("std::rt::panic")
		|| p.ends_with("expect_failed")
		|| p.ends_with("unwrap_failed")
		|| p.ends_with("unwrap_failed_inner")
		|| p.contains("slice_index_fail")
		|| p.contains("slice_start_index")
		|| p.contains("slice_end_index")
		|| p.contains("slice_index_order")
		|| p.contains("panic_already")
	{
		Fam::Panic
	} else if p.contains("fmt::") || p.contains("::AsDisplay") || p.starts_with("std::hint::") {
		Fam::Fmt
	} else if p.starts_with("std::vec::Vec::") {
		Fam::Vec
	} else if p.contains("::PartialEq") || p.contains("::PartialOrd") || p.contains("::Ord") {
		Fam::Trait
	} else if p.contains("Iterator") || p.starts_with("<std::iter::") || p.starts_with("std::iter::") || p.contains("::Extend<") || p.contains("::FromIterator<")
		|| p.starts_with("std::str::Chars") || p.starts_with("std::slice::Iter") {
		Fam::Iter
	} else if p.starts_with('<') && p.contains(" as ") || p.contains("<impl std::ops::") || p.contains("<impl std::clone::") || p.contains("<impl std::convert::") || p.contains("<impl std::default::") || p.contains("<impl std::borrow::") {
		Fam::Trait
	} else if p.contains("slice::<impl [") || p.contains("array::<impl [") {
		Fam::Slice
	} else if p.starts_with("std::string::String::") || p.contains("::<impl str>::") {
		Fam::Str
	} else if p.starts_with("std::rc::Rc::") {
		Fam::Rc
	} else if p.starts_with("std::rc::Weak::") {
		Fam::Weak
	} else if p.starts_with("std::cell::RefCell::") || p.starts_with("std::cell::Ref") {
		Fam::RefCell
	} else if p.contains("hash_map::") || p.contains("map::Entry") || p.contains("OccupiedEntry") || p.contains("VacantEntry") {
		Fam::Entry
	} else if p.starts_with("std::collections::HashMap::") {
		Fam::Map
	} else if p.starts_with("std::boxed::") {
		Fam::Box
	} else if p.contains("<impl char>::") || p.contains("<impl u8>::") {
		Fam::Char
	} else if p.starts_with("std::ops::Fn") || p.starts_with("core::ops::Fn") {
		Fam::Closure
	} else {
		Fam::Misc
	};
	(fam, m)
}

impl Prog {
	pub fn new(ir: Program) -> Prog {
		let mut by_path = HashMap::new();
		for (i, f) in ir.fns.iter().enumerate() {
			if f.body.is_some() && f.kind.contains("Item") {
				by_path.entry(f.path.clone()).or_insert(i);
			}
		}
		let fam = ir.fns.iter().map(classify).collect();
		Prog {
			ir,
			info: Default::default(),
			by_path,
			lazies: Default::default(),
			seen: Default::default(),
			fam,
			intercept: Default::default(),
			pure_cache: Default::default(),
			stats: Default::default(),
		}
	}
	/// functions the interpretation has entered
	pub fn entered(&self) -> Vec<String> {
		let mut v: Vec<String> = self.seen.borrow().keys().map(|f| self.ir.fns[*f].path.clone()).collect();
		v.sort();
		v
	}
	pub fn find(&self, path: &str) -> Option<usize> {
		self.by_path.get(path).copied()
	}
	pub fn body(&self, f: usize) -> &Body {
		self.ir.fns[f].body.as_ref().unwrap()
	}
	pub fn info(&self, f: usize) -> Arc<FnInfo> {
		if let Some(i) = self.info.borrow().get(&f) {
			return i.clone();
		}
		let i = Arc::new(analyse_fn(self.body(f)));
		self.info.borrow_mut().insert(f, i.clone());
		i
	}
	pub fn is_join(&self, st: &State) -> bool {
		let f = st.top();
		if f.f == HARNESS {
			return false;
		}
		match &f.nat {
			Some(n) => n.stage == 0 && !n.wait && (n.cons != Cons::Next || has_closure(&n.it)),
			None => self.info(f.f).join[f.bb as usize],
		}
	}

	// ---- types
	pub fn place_ty(&self, b: &Body, p: &Place) -> TyId {
		let mut t = b.locals[p.local];
		let mut variant: Option<usize> = None;
		for pr in &p.proj {
			let k = &self.ir.tys[t].kind;
			match pr {
				Proj::Deref => {
					t = match k {
						TyKind::Ref(x, _) | TyKind::Ptr(x) => *x,
						TyKind::Adt { args, .. } if !args.is_empty() => args[0],
						_ => t,
					}
				}
				Proj::Field(i) => {
					t = match k {
						TyKind::Tuple(v) => v.get(*i).copied().unwrap_or(t),
						TyKind::Adt { variants, .. } => variants
							.get(variant.unwrap_or(0))
							.and_then(|v| v.fields.get(*i))
							.map(|x| x.1)
							.unwrap_or(t),
						TyKind::Closure { upvars, .. } => upvars.get(*i).copied().unwrap_or(t),
						_ => t,
					};
					variant = None;
				}
				Proj::Downcast(v) => variant = Some(*v),
				Proj::Index(_) | Proj::ConstIndex { .. } => {
					t = match k {
						TyKind::Slice(x) | TyKind::Array(x, _) => *x,
						_ => t,
					}
				}
				Proj::Subslice { .. } => {}
			}
		}
		t
	}
	pub fn discr_of(&self, t: TyId, variant: u32) -> i64 {
		match &self.ir.tys[t].kind {
			TyKind::Adt { variants, is_enum: true, .. } => {
				variants.get(variant as usize).map_or(variant as i64, |v| v.discr as i64)
			}
			_ => variant as i64,
		}
	}

	// ---- constants
	pub fn cst(&self, c: &Cst) -> R<V> {
		Ok(match &c.v {
			CV::Bool(b) => V::Bool(*b),
			CV::Char(c) => V::Char(Ch::Lit(*c)),
			CV::Int(i) => int(*i as i64),
			CV::Str(s) => V::RefV(Arc::new(seq(lits(s))), true),
			CV::Bytes(_) => opq("bytes"),
			CV::Zst => match &self.ir.tys[c.ty].kind {
				TyKind::FnDef(f) => V::Fn(*f),
				TyKind::Closure { .. } => V::Clo(self.closure_fn(c.ty)?, Arc::new(vec![])),
				TyKind::Array(..) => seq(vec![]),
				_ => unit(),
			},
			CV::Fn(f) => V::Fn(*f),
			CV::Agg(k, v) => {
				let vs: R<Vec<V>> = v.iter().map(|x| self.cst(x)).collect();
				let vs = vs?;
				match &self.ir.tys[c.ty].kind {
					TyKind::Array(..) => seq(vs.into_iter().map(State::val_item).collect()),
					_ => agg(*k as u32, vs),
				}
			}
			CV::Ref(c) => V::RefV(Arc::new(self.cst(c)?), true),
			CV::Slice(v) => {
				let vs: R<Vec<V>> = v.iter().map(|x| self.cst(x)).collect();
				V::RefV(Arc::new(seq(vs?.into_iter().map(State::val_item).collect())), true)
			}
			CV::Static(i) => V::RefV(Arc::new(opq(format!("static {}", self.ir.statics[*i].name))), true),
			CV::Opaque(s) => opq(s.clone()),
		})
	}
	pub fn closure_fn(&self, t: TyId) -> R<usize> {
		if let TyKind::Closure { def, body, .. } = &self.ir.tys[t].kind {
			if let Some(b) = body {
				if self.ir.fns[*b].path == *def && self.ir.fns[*b].kind.contains("Item") {
					return Ok(*b);
				}
			}
			if let Some(f) = self.by_path.get(def) {
				return Ok(*f);
			}
			if let Some(b) = body {
				return Ok(*b);
			}
		}
		stuck("closure without a body")
	}

	// ---- places
	fn loc(&self, st: &State, p: &Place) -> R<Loc> {
		let fi = (st.frames.len() - 1) as u32;
		let mut cur = Loc::P(Ptr { base: Base::L(fi, p.local as u32), path: vec![] });
		for pr in &p.proj {
			cur = match pr {
				Proj::Deref => {
					let v = self.read_loc(st, &cur)?;
					match v {
						V::Ref(p) => Loc::P((*p).clone()),
						V::RefV(v, c) => Loc::T((*v).clone(), c),
						V::Box(_) => match cur {
							Loc::P(p) => Loc::P(p.push(Step::Bx)),
							Loc::T(V::Box(v), c) => Loc::T((*v).clone(), c),
							_ => unreachable!(),
						},
						o => return stuck(format!("deref of {}", short(&o))),
					}
				}
				Proj::Field(i) => match cur {
					Loc::P(p) => {
						// the pointer inside a box
						if p.path.len() < 8 {
							if let Ok(V::Box(_)) = st.read_ptr(&p) {
								return Ok(Loc::T(V::Ref(Arc::new(p.push(Step::Bx))), false));
							}
							if let Ok(V::Clo(_, ups)) = st.read_ptr(&p) {
								match ups.get(*i) {
									Some(u) => Loc::T(u.clone(), false),
									None => return stuck("captured variable"),
								}
							} else {
								Loc::P(p.push(Step::F(*i as u32)))
							}
						} else {
							Loc::P(p.push(Step::F(*i as u32)))
						}
					}
					Loc::T(V::Agg(_, vs), c) => match vs.get(*i) {
						Some(v) => Loc::T(v.clone(), c),
						None => return stuck("field of a temporary"),
					},
					Loc::T(V::Clo(_, vs), c) => match vs.get(*i) {
						Some(v) => Loc::T(v.clone(), c),
						None => return stuck("captured variable"),
					},
					Loc::T(v, _) => return stuck(format!("field of {}", short(&v))),
				},
				Proj::Downcast(_) => cur,
				Proj::Index(l) => {
					let i = match &st.top().locals[*l] {
						V::Int(i) => i.clone(),
						o => return stuck(format!("index {}", short(o))),
					};
					self.elem(st, cur, &i)?
				}
				Proj::ConstIndex { offset, from_end } => {
					let i = if *from_end {
						let V::Seq(v) = self.read_loc(st, &cur)? else { return stuck("index") };
						st.seq_len(&v)?.plus(-(*offset as i64))
					} else {
						Lin::k(*offset as i64)
					};
					self.elem(st, cur, &i)?
				}
				Proj::Subslice { from, to, from_end } => {
					let V::Seq(v) = self.read_loc(st, &cur)? else { return stuck("subslice") };
					let a = Lin::k(*from as i64);
					let b = if *from_end { st.seq_len(&v)?.plus(-(*to as i64)) } else { Lin::k(*to as i64) };
					match sub_seq(st, &v, &a, &b)? {
						Some(v) => Loc::T(seq(v), false),
						None => return stuck("subslice"),
					}
				}
			};
		}
		Ok(cur)
	}
	fn elem(&self, st: &State, cur: Loc, i: &Lin) -> R<Loc> {
		Ok(match cur {
			Loc::P(p) => Loc::P(p.push(Step::Elem(i.clone()))),
			Loc::T(V::Seq(v), c) => {
				let Some(k) = st.index(&v, i)? else { return Err(Stop::Panic("index out of bounds".into())) };
				Loc::T(st.item_val(&v[k])?, c)
			}
			Loc::T(v, _) => return stuck(format!("element of {}", short(&v))),
		})
	}
	fn read_loc(&self, st: &State, l: &Loc) -> R<V> {
		match l {
			Loc::P(p) => st.read_ptr(p),
			Loc::T(v, _) => Ok(v.clone()),
		}
	}
	pub fn read(&self, st: &State, p: &Place) -> R<V> {
		if p.proj.is_empty() {
			return Ok(st.top().locals[p.local].clone());
		}
		let l = self.loc(st, p)?;
		self.read_loc(st, &l)
	}
	pub fn write(&self, st: &mut State, p: &Place, v: V) -> R<()> {
		if p.proj.is_empty() {
			st.top_mut().locals[p.local] = v;
			return Ok(());
		}
		match self.loc(st, p)? {
			Loc::P(p) => st.write_ptr(&p, v),
			Loc::T(..) => stuck("write to a temporary"),
		}
	}
	fn opnd(&self, st: &mut State, o: &Opnd) -> R<V> {
		match o {
			Opnd::Const(c) => self.cst(c),
			Opnd::Copy(p) => {
				let v = self.read(st, p)?;
				Ok(v)
			}
			Opnd::Move(p) => {
				let v = self.read(st, p)?;
				if p.proj.is_empty() {
					st.top_mut().locals[p.local] = V::Undef;
				} else if let Loc::P(q) = self.loc(st, p)? {
					st.write_ptr(&q, V::Undef)?;
				}
				Ok(v)
			}
		}
	}

	pub fn bool_of(&self, st: &State, v: &V) -> R<bool> {
		match v {
			V::Bool(b) => Ok(*b),
			V::Opt(i, n) => match st.opts[*i as usize] {
				Some(b) => Ok(b ^ n),
				None => Err(Stop::Split(vec![Refine::Opt(*i, true), Refine::Opt(*i, false)])),
			},
			o => stuck(format!("not a flag: {}", short(o))),
		}
	}
	fn char_or_int(v: &V) -> Option<i64> {
		match v {
			V::Int(l) => l.konst(),
			V::Char(Ch::Lit(c)) => Some(*c as i64),
			_ => None,
		}
	}
	pub fn bin(&self, st: &State, op: &str, a: &V, b: &V) -> R<V> {
		let cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
		match (a, b) {
			(V::Opq(n), _) | (_, V::Opq(n)) if n.starts_with("forgotten ") => stuck(n.to_string()),
			(V::Opq(_), _) | (_, V::Opq(_)) => Ok(opq(format!("({}) of opaque", op))),
			(V::Int(x), V::Int(y)) => {
				let d = x.sub(y);
				Ok(match op {
					"Eq" => V::Bool(st.eq0(&d)?),
					"Ne" => V::Bool(!st.eq0(&d)?),
					"Ge" => V::Bool(st.ge0(&d)?),
					"Lt" => V::Bool(!st.ge0(&d)?),
					"Gt" => V::Bool(st.ge0(&d.plus(-1))?),
					"Le" => V::Bool(!st.ge0(&d.plus(-1))?),
					"Add" | "AddUnchecked" => V::Int(st.norm(&x.add(y))),
					"Sub" | "SubUnchecked" => V::Int(st.norm(&d)),
					"Mul" | "MulUnchecked" => match (x.konst(), y.konst()) {
						(Some(k), _) => V::Int(Lin::k(0).addk(y, k)),
						(_, Some(k)) => V::Int(Lin::k(0).addk(x, k)),
						_ => return stuck("product"),
					},
					_ => match (x.konst(), y.konst()) {
						(Some(x), Some(y)) => int(match op {
							"Div" if y != 0 => x / y,
							"Rem" if y != 0 => x % y,
							"BitAnd" => x & y,
							"BitOr" => x | y,
							"BitXor" => x ^ y,
							"Shl" | "ShlUnchecked" if y < 62 => x << y,
							"Shr" | "ShrUnchecked" if y < 62 => x >> y,
							_ => return stuck(format!("operator {}", op)),
						}),
						_ => return stuck(format!("operator {}", op)),
					},
				})
			}
			(V::Char(x), V::Char(y)) if cmp => match op {
				"Eq" => Ok(V::Bool(st.ch_eq(x, y)?)),
				"Ne" => Ok(V::Bool(!st.ch_eq(x, y)?)),
				_ => self.char_order(st, op, a, b),
			},
			(V::Char(_), V::Int(_)) | (V::Int(_), V::Char(_)) if cmp => self.char_order(st, op, a, b),
			(V::Char(Ch::Lit(_)), V::Int(_)) | (V::Int(_), V::Char(Ch::Lit(_))) => {
				let (x, y) = (Self::char_or_int(a), Self::char_or_int(b));
				match (x, y) {
					(Some(x), Some(y)) => self.bin(st, op, &int(x), &int(y)),
					_ => stuck("arithmetic on characters"),
				}
			}
			(V::Bool(_) | V::Opt(..), V::Bool(_) | V::Opt(..)) => {
				let x = self.bool_of(st, a)?;
				// the other operand is only looked at when it matters
				match (op, x) {
					("BitAnd", false) => return Ok(V::Bool(false)),
					("BitOr", true) => return Ok(V::Bool(true)),
					("BitAnd", true) | ("BitOr", false) | ("BitXor", false) | ("Eq", true) | ("Ne", false) => return Ok(b.clone()),
					_ => {}
				}
				let y = self.bool_of(st, b)?;
				Ok(V::Bool(match op {
					"BitXor" | "Ne" => x != y,
					"Eq" => x == y,
					"Lt" => !x & y,
					"Le" => x <= y,
					"Gt" => x & !y,
					"Ge" => x >= y,
					_ => return stuck(format!("operator {}", op)),
				}))
			}
			(V::Ref(x), V::Ref(y)) if op == "Eq" || op == "Ne" => Ok(V::Bool((x == y) == (op == "Eq"))),
			_ => stuck(format!("operator {} on {} and {}", op, short(a), short(b))),
		}
	}
	fn char_order(&self, st: &State, op: &str, a: &V, b: &V) -> R<V> {
		let (c, k, flip) = match (a, Self::char_or_int(b)) {
			(V::Char(c), Some(k)) => (c, k, false),
			_ => match (Self::char_or_int(a), b) {
				(Some(k), V::Char(c)) => (c, k, true),
				_ => return stuck("order of characters"),
			},
		};
		let op = if flip {
			match op {
				"Lt" => "Gt",
				"Le" => "Ge",
				"Gt" => "Lt",
				"Ge" => "Le",
				o => o,
			}
		} else {
			op
		};
		let all = CS::all();
		let up = |x: i64| if x < 0 { CS::empty() } else { CS::range(0, x.min(0x10ffff) as u32) };
		let set = match op {
			"Eq" => up(k).minus(&up(k - 1)),
			"Ne" => all.minus(&up(k).minus(&up(k - 1))),
			"Le" => up(k),
			"Lt" => up(k - 1),
			"Gt" => all.minus(&up(k)),
			_ => all.minus(&up(k - 1)),
		};
		Ok(V::Bool(st.ch_in(c, &set)?))
	}

	fn rv(&self, st: &mut State, b: &Body, r: &Rv) -> R<V> {
		match r {
			Rv::Use(o) => self.opnd(st, o),
			Rv::Ref(p, _) | Rv::Raw(p) => {
				// a reborrow of a reference keeps the reference
				match self.loc(st, p)? {
					Loc::P(p) => Ok(V::Ref(Arc::new(p))),
					Loc::T(v, c) => Ok(V::RefV(Arc::new(v), c)),
				}
			}
			Rv::Bin(op, x, y) => {
				let x = self.opnd(st, x)?;
				let y = self.opnd(st, y)?;
				self.bin(st, op, &x, &y)
			}
			Rv::Checked(op, x, y) => {
				let x = self.opnd(st, x)?;
				let y = self.opnd(st, y)?;
				let v = self.bin(st, op, &x, &y)?;
				let over = match (op.as_str(), &v) {
					("Sub", V::Int(d)) => !st.ge0(d)?,
					_ => false,
				};
				Ok(agg(0, vec![v, V::Bool(over)]))
			}
			Rv::Un(op, x) => {
				let x = self.opnd(st, x)?;
				match (op.as_str(), &x) {
					("Not", V::Bool(b)) => Ok(V::Bool(!b)),
					("Not", V::Opt(i, n)) => Ok(V::Opt(*i, !n)),
					("Not", V::Opq(_)) => Ok(x),
					("Neg", V::Int(l)) => Ok(V::Int(Lin::k(0).sub(l))),
					("PtrMetadata", _) => match self.deref(st, &x)? {
						V::Seq(s) => Ok(V::Int(st.seq_len(&s)?)),
						_ => Ok(unit()),
					},
					_ => stuck(format!("operator {} on {}", op, short(&x))),
				}
			}
			Rv::Cast(k, o, t) => {
				let v = self.opnd(st, o)?;
				let to = &self.ir.tys[*t].kind;
				match (&v, to) {
					(V::Opq(n), _) if n.starts_with("forgotten ") => Ok(v.clone()),
					(V::Ref(_) | V::RefV(..) | V::Opq(_), TyKind::Int { .. }) => Ok(opq("address")),
					(V::Int(l), TyKind::Char) => match l.konst().and_then(|c| char::from_u32(c as u32)) {
						Some(c) => Ok(V::Char(Ch::Lit(c))),
						None => stuck("number to character"),
					},
					(V::Char(c), TyKind::Int { bits, .. }) => {
						if *bits == 8 && !st.ch_in(c, &CS::range(0, 255))? {
							return stuck("truncated character");
						}
						Ok(v)
					}
					(V::Agg(n, f), TyKind::Int { .. }) if f.is_empty() => {
						let ot = match o {
							Opnd::Copy(p) | Opnd::Move(p) => self.place_ty(b, p),
							Opnd::Const(c) => c.ty,
						};
						Ok(int(self.discr_of(ot, *n)))
					}
					(V::Bool(x), TyKind::Int { .. }) => Ok(int(*x as i64)),
					(V::Opt(..), TyKind::Int { .. }) => Ok(int(self.bool_of(st, &v)? as i64)),
					_ => {
						let _ = k;
						Ok(v)
					}
				}
			}
			Rv::Agg(k, ops) => {
				let mut vs = vec![];
				for o in ops {
					vs.push(self.opnd(st, o)?);
				}
				Ok(match k {
					AggK::Array(_) => seq(vs.into_iter().map(State::val_item).collect()),
					AggK::Tuple => agg(0, vs),
					AggK::Adt(_, v, Some(f)) => {
						let mut fs = vec![V::Undef; *f];
						fs.push(vs.pop().unwrap_or(V::Undef));
						agg(*v as u32, fs)
					}
					AggK::Adt(_, v, None) => agg(*v as u32, vs),
					AggK::Closure(t) => V::Clo(self.closure_fn(*t)?, Arc::new(vs)),
					AggK::RawPtr => vs.into_iter().next().unwrap_or(V::Undef),
				})
			}
			Rv::Discr(p) => {
				let t = self.place_ty(b, p);
				match self.read(st, p)? {
					// an entry of a map: there or not
					V::Agg(7, e) if self.ir.tys[t].name.contains("Entry<") && e.len() == 2 => {
						let V::Ref(q) = &e[0] else { return stuck("map entry") };
						let V::Map(ops) = st.read_ptr(q)? else { return stuck("map entry") };
						if let Some(MapOp::Has(k, b)) = ops.last() {
							if *k == e[1] {
								return Ok(int(!*b as i64));
							}
						}
						let alt = |b: bool| {
							let mut o = (*ops).clone();
							o.push(MapOp::Has(e[1].clone(), b));
							Refine::Poke((**q).clone(), V::Map(Arc::new(o)))
						};
						Err(Stop::Split(if ops.is_empty() { vec![alt(false)] } else { vec![alt(true), alt(false)] }))
					}
					V::Agg(k, _) => Ok(int(self.discr_of(t, k))),
					o => stuck(format!("variant of {}", short(&o))),
				}
			}
			Rv::Len(p) => match self.read(st, p)? {
				V::Seq(s) => Ok(V::Int(st.seq_len(&s)?)),
				o => stuck(format!("length of {}", short(&o))),
			},
			Rv::Repeat(o, n) => {
				let v = self.opnd(st, o)?;
				Ok(seq((0..*n).map(|_| State::val_item(v.clone())).collect()))
			}
			Rv::Other(s) => stuck(format!("rvalue {}", s)),
		}
	}

	/// follows references to the value behind them
	pub fn deref(&self, st: &State, v: &V) -> R<V> {
		let mut v = v.clone();
		loop {
			v = match &v {
				V::Ref(p) => st.read_ptr(p)?,
				V::RefV(x, _) => (**x).clone(),
				_ => return Ok(v),
			}
		}
	}

	// ---- calls
	pub fn push_fn(&self, st: &mut State, f: usize, args: Vec<V>) -> R<Out> {
		let Some(b) = &self.ir.fns[f].body else {
			return stuck(format!("no model for {}", self.ir.fns[f].path));
		};
		if st.frames.len() > 1000 {
			return stuck("call depth");
		}
		*self.seen.borrow_mut().entry(f).or_default() += 1;
		let mut locals = vec![V::Undef; b.locals.len()];
		if args.len() != b.arg_count {
			return stuck(format!("argument count of {}", self.ir.fns[f].path));
		}
		for (i, a) in args.into_iter().enumerate() {
			locals[i + 1] = a;
		}
		st.frames.push(Arc::new(Frame { f, bb: 0, locals, nat: None }));
		Ok(Out::Pushed)
	}
	pub fn call_value(&self, st: &mut State, f: &V, args: Vec<V>) -> R<Out> {
		match f {
			V::Fn(f) => {
				if self.fam[*f].0 == Fam::Closure && self.ir.fns[*f].body.is_some() && self.body(*f).arg_count == args.len() + 1 {
					let mut a = vec![V::RefV(Arc::new(V::Clo(*f, Arc::new(vec![]))), false)];
					a.extend(args);
					return self.push_fn(st, *f, a);
				}
				self.call(st, *f, args)
			}
			V::Clo(c, _) => {
				let Some(b) = &self.ir.fns[*c].body else { return stuck("closure body") };
				let by_ref = matches!(self.ir.tys[b.locals[1]].kind, TyKind::Ref(..));
				let me = if by_ref { V::RefV(Arc::new(f.clone()), false) } else { f.clone() };
				let mut a = vec![me];
				a.extend(args);
				self.push_fn(st, *c, a)
			}
			V::Ref(_) | V::RefV(..) => {
				let v = self.deref(st, f)?;
				if let V::Clo(c, _) = &v {
					let Some(b) = &self.ir.fns[*c].body else { return stuck("closure body") };
					if matches!(self.ir.tys[b.locals[1]].kind, TyKind::Ref(..)) {
						let mut a = vec![f.clone()];
						a.extend(args);
						return self.push_fn(st, *c, a);
					}
				}
				self.call_value(st, &v, args)
			}
			V::Box(v) => self.call_value(st, &v.clone(), args),
			o => stuck(format!("call of {}", short(o))),
		}
	}
	pub fn call(&self, st: &mut State, f: usize, args: Vec<V>) -> R<Out> {
		let (fam, m) = &self.fam[f];
		if let Some(h) = self.intercept.borrow().get(&f) {
			if let Some(o) = h(self, st, f, &args)? {
				return Ok(o);
			}
		}
		match fam {
			Fam::Panic => return Err(Stop::Panic(self.panic_text(f, &args))),
			Fam::Closure => {
				if let Some(b) = &self.ir.fns[f].body {
					let is_def = self.ir.fns[f].path.contains("{closure#");
					if is_def && args.len() == 2 {
						// the caller passes a tuple
						if let V::Agg(0, t) = &args[1] {
							if b.arg_count == t.len() + 1 {
								return self.call_value(st, &args[0], t.to_vec());
							}
						}
					}
				}
				if args.len() == 2 {
					if let V::Agg(0, t) = &args[1] {
						return self.call_value(st, &args[0], t.to_vec());
					}
				}
			}
			Fam::None => {}
			_ => {
				if let Some(o) = self.model(st, f, *fam, m, &args)? {
					return Ok(o);
				}
			}
		}
		if self.ir.fns[f].local {
			if let Some(b) = self.pure_call(st, f, &args) {
				return Ok(Out::Val(b));
			}
		}
		self.push_fn(st, f, args)
	}
	/// a value without identity; None: it has some
	fn plain(st: &State, v: &V) -> Option<V> {
		Some(match v {
			V::Bool(_) | V::Opt(..) | V::Int(_) | V::Char(_) => v.clone(),
			V::Agg(k, f) => V::Agg(*k, Arc::new(f.iter().map(|x| Self::plain(st, x)).collect::<Option<Vec<V>>>()?)),
			V::Seq(s) => {
				if s.iter().all(|i| matches!(i, It::C(_)) || matches!(i, It::S(x, _) if *x != 0)) {
					v.clone()
				} else {
					return None;
				}
			}
			V::RefV(x, c) => {
				if *c {
					v.clone()
				} else {
					V::RefV(Arc::new(Self::plain(st, x)?), false)
				}
			}
			V::Ref(p) => V::RefV(Arc::new(Self::plain(st, &st.read_ptr(p).ok()?)?), false),
			_ => return None,
		})
	}
	/// made of truth values only
	fn yes_no(&self, t: TyId, d: u32) -> bool {
		d > 0
			&& match &self.ir.tys[t].kind {
				TyKind::Bool => true,
				TyKind::Tuple(v) => v.iter().all(|t| self.yes_no(*t, d - 1)),
				TyKind::Adt { variants, .. } => !variants.is_empty() && variants.iter().all(|v| v.fields.iter().all(|f| self.yes_no(f.1, d - 1))),
				_ => false,
			}
	}
	/// a yes-no question about plain values, when the answer is the same for all of them
	fn pure_call(&self, st: &State, f: usize, args: &[V]) -> Option<V> {
		let fun = &self.ir.fns[f];
		let b = fun.body.as_ref()?;
		if !self.yes_no(b.locals[0], 3) || args.len() != b.arg_count || args.is_empty() {
			return None;
		}
		for i in 0..args.len() {
			if matches!(self.ir.tys[b.locals[i + 1]].kind, TyKind::Ref(_, true)) {
				return None;
			}
		}
		let args = args.iter().map(|a| Self::plain(st, a)).collect::<Option<Vec<V>>>()?;
		// what is known about the values is tried last
		self.pure_run(st, f, &args, false).or_else(|| if st.facts.is_empty() && st.opts.iter().all(|o| o.is_none()) { None } else { self.pure_run(st, f, &args, true) })
	}
	fn pure_run(&self, st: &State, f: usize, args: &[V], facts: bool) -> Option<V> {
		let mut t = State::new(0);
		t.segs = st.segs.clone();
		if facts {
			t.facts = st.facts.clone();
			t.opts = st.opts.clone();
		} else {
			t.opts = Arc::new(vec![None; st.opts.len()]);
		}
		t.heap = vec![None];
		t.ghost = Box::new(Keep { v: args.to_vec(), tag: vec![] });
		crate::canon::renumber(&mut t);
		let mut label: HashMap<u32, u32> = HashMap::new();
		let mut segs = (*t.segs).clone();
		segs[0] = State::new(0).segs[0].clone();
		for g in segs.iter_mut().skip(1) {
			let n = label.len() as u32 + 1;
			g.origin = *label.entry(g.origin).or_insert(n);
		}
		t.segs = Arc::new(segs);
		let args = t.ghost.any().downcast_ref::<Keep>()?.v.clone();
		let k = format!("{} {:?} {:?} {:?} {:?}", f, args, t.segs, t.facts, t.opts);
		if let Some(r) = self.pure_cache.borrow().get(&k) {
			return r.clone();
		}
		t.frames.push(Arc::new(Frame { f: HARNESS, bb: 0, locals: vec![V::Undef], nat: None }));
		let mut r = None;
		if self.push_fn(&mut t, f, args).is_ok() {
			let mut out = vec![];
			let mut budget = 4_000;
			crate::canon::run_(self, t, &mut out, &mut budget, crate::canon::Way::One);
			for (i, (e, _)) in out.iter().enumerate() {
				match e {
					crate::canon::End::Done(v) if i == 0 || r.as_ref() == Some(v) => r = Some(v.clone()),
					_ => {
						r = None;
						break;
					}
				}
			}
		}
		if r.is_none() && std::env::var("RPSA_PURE").is_ok() {
			eprintln!("PURE {} {}", self.ir.fns[f].name, k);
		}
		self.pure_cache.borrow_mut().insert(k, r.clone());
		r
	}
	fn panic_text(&self, f: usize, args: &[V]) -> String {
		let mut s = last_seg(&self.ir.fns[f].path).to_string();
		for a in args {
			if let V::RefV(v, _) = a {
				if let V::Seq(i) = &**v {
					let t: String = i.iter().filter_map(|x| if let It::C(c) = x { Some(*c) } else { None }).collect();
					if !t.is_empty() {
						s += &format!(" \"{}\"", t);
					}
				}
			}
		}
		s
	}

	/// gives the result of a call to the frame below
	pub fn deliver(&self, st: &mut State, v: V) -> R<Next> {
		let fr = st.top();
		if fr.f == HARNESS {
			st.top_mut().locals[0] = v;
			return Ok(Next::Done);
		}
		if fr.nat.is_some() {
			return self.nat_resume(st, v);
		}
		let b = self.body(fr.f);
		let Term::Call { dest, target, .. } = &b.blocks[fr.bb as usize].term else {
			return stuck("return to no call");
		};
		let Some(t) = target else { return Err(Stop::Infeasible) };
		let (dest, t) = (dest.clone(), *t as u32);
		self.write(st, &dest, v)?;
		st.top_mut().bb = t;
		Ok(Next::Go)
	}
	pub fn ret(&self, st: &mut State, o: Out) -> R<Next> {
		match o {
			Out::Val(v) => self.deliver(st, v),
			Out::Pushed => Ok(Next::Go),
		}
	}

	pub fn where_(&self, st: &State) -> String {
		// the innermost function of the crate
		for fr in st.frames.iter().rev() {
			if fr.nat.is_none() && fr.f != HARNESS && self.ir.fns[fr.f].local {
				let n = &self.ir.fns[fr.f];
				let line = n.body.as_ref().map_or(0, |b| b.blocks[fr.bb as usize].line);
				return format!("{} ({}:{})", n.path, n.file, line);
			}
		}
		"?".into()
	}
	pub fn where_fn(&self, st: &State) -> String {
		for fr in st.frames.iter().rev() {
			if fr.nat.is_none() && fr.f != HARNESS && self.ir.fns[fr.f].local {
				return self.ir.fns[fr.f].path.clone();
			}
		}
		"?".into()
	}

	/// executes the top frame's block (or one step of a native frame)
	pub fn step(&self, st: &mut State) -> R<Next> {
		self.stats.borrow_mut().blocks += 1;
		if st.top().nat.is_some() {
			return self.nat_step(st);
		}
		let f = st.top().f;
		let bb = st.top().bb as usize;
		let b = self.body(f);
		let blk = &b.blocks[bb];
		for (s, _) in &blk.stmts {
			match s {
				Stmt::Assign(p, r) => {
					let v = self.rv(st, b, r)?;
					self.write(st, p, v)?;
				}
				Stmt::SetDiscr(p, k) => {
					let v = self.read(st, p)?;
					let v = match v {
						V::Agg(_, fs) => V::Agg(*k as u32, fs),
						_ => agg(*k as u32, vec![]),
					};
					self.write(st, p, v)?;
				}
				Stmt::Live(_) | Stmt::Nop => {}
				Stmt::Dead(l) => st.top_mut().locals[*l] = V::Undef,
			}
		}
		match &blk.term {
			Term::Goto(t) => {
				st.top_mut().bb = *t as u32;
				Ok(Next::Go)
			}
			Term::Switch(o, _, ts, other) => {
				let v = self.opnd(st, o)?;
				let t = self.switch(st, &v, ts, *other)?;
				st.top_mut().bb = t as u32;
				Ok(Next::Go)
			}
			Term::Return => {
				let v = st.top().locals[0].clone();
				st.frames.pop();
				self.deliver(st, v)
			}
			Term::Unreachable => Err(Stop::Infeasible),
			Term::Resume => Err(Stop::Infeasible),
			Term::Drop(p, _, t) => {
				let v = self.read(st, p)?;
				self.release(st, &v)?;
				// what is dropped is gone
				if let Loc::P(q) = self.loc(st, p)? {
					st.write_ptr(&q, V::Undef)?;
				}
				st.top_mut().bb = *t as u32;
				Ok(Next::Go)
			}
			Term::Call { f, args, .. } => {
				let mut a = vec![];
				let callee = match f {
					Callee::Fn(f) => V::Fn(*f),
					Callee::Ind(o) => self.opnd(st, o)?,
				};
				for x in args {
					a.push(self.opnd(st, x)?);
				}
				let o = match (&callee, f) {
					(V::Fn(id), Callee::Fn(_)) => self.call(st, *id, a)?,
					_ => self.call_value(st, &callee, a)?,
				};
				self.ret(st, o)
			}
			Term::Assert { cond, expected, msg, target } => {
				let v = self.opnd(st, cond)?;
				let ok = match v {
					V::Opq(_) => true,
					v => self.bool_of(st, &v)? == *expected,
				};
				if !ok {
					return Err(Stop::Panic(msg.clone()));
				}
				st.top_mut().bb = *target as u32;
				Ok(Next::Go)
			}
			Term::Other(s) => stuck(format!("terminator {}", s)),
		}
	}
	fn switch(&self, st: &State, v: &V, ts: &[(u128, usize)], other: usize) -> R<usize> {
		match v {
			V::Bool(_) | V::Opt(..) => {
				let b = self.bool_of(st, v)? as u128;
				Ok(ts.iter().find(|t| t.0 == b).map_or(other, |t| t.1))
			}
			V::Int(l) => {
				for (k, t) in ts {
					if st.eq0(&l.plus(-(*k as i64)))? {
						return Ok(*t);
					}
				}
				Ok(other)
			}
			V::Char(c) => {
				for (k, t) in ts {
					let Some(k) = char::from_u32(*k as u32) else { continue };
					if st.ch_eq(c, &Ch::Lit(k))? {
						return Ok(*t);
					}
				}
				Ok(other)
			}
			o => stuck(format!("switch on {}", short(o))),
		}
	}
	/// ends the borrows which a dropped value holds
	pub fn release(&self, st: &mut State, v: &V) -> R<()> {
		match v {
			V::Guard(p, m) => self.unborrow(st, p, *m),
			V::Agg(_, vs) => {
				for x in vs.iter() {
					self.release(st, x)?;
				}
				Ok(())
			}
			V::Box(v) => self.release(st, &v.clone()),
			_ => Ok(()),
		}
	}
	pub fn unborrow(&self, st: &mut State, p: &Ptr, m: bool) -> R<()> {
		match st.read_ptr(p)? {
			V::Cell(n, v) => st.write_ptr(p, V::Cell(if m { n + 1 } else { n - 1 }, v)),
			_ => stuck("guard of no cell"),
		}
	}

	/// evaluates a function without input to its value
	pub fn eval_const(&self, f: usize) -> R<Arc<V>> {
		if let Some(v) = self.lazies.borrow().get(&f) {
			return Ok(v.clone());
		}
		let mut st = State::new(0);
		st.frames.push(Arc::new(Frame { f: HARNESS, bb: 0, locals: vec![V::Undef], nat: None }));
		match self.call(&mut st, f, vec![])? {
			Out::Val(v) => st.top_mut().locals[0] = v,
			Out::Pushed => {
				for _ in 0..200000 {
					if let Next::Done = self.step(&mut st)? {
						break;
					}
				}
			}
		}
		let v = Arc::new(st.top().locals[0].clone());
		self.lazies.borrow_mut().insert(f, v.clone());
		Ok(v)
	}
}

pub fn has_closure(it: &V) -> bool {
	match it {
		V::Iter(p) => p.st.iter().any(|s| !matches!(s, Stage::Enumerate(..) | Stage::Cloned | Stage::Map(_))),
		_ => true,
	}
}

/// items between two positions; None when out of range
pub fn sub_seq(st: &State, v: &[It], a: &Lin, b: &Lin) -> R<Option<Vec<It>>> {
	if !st.ge0(&b.sub(a))? {
		return Ok(None);
	}
	let n = st.seq_len(v)?;
	if !st.ge0(&n.sub(b))? {
		return Ok(None);
	}
	let Some(i) = st.boundary(v, a)? else { return Ok(None) };
	let Some(j) = st.boundary(v, b)? else { return Ok(None) };
	Ok(Some(v[i.min(j)..j].to_vec()))
}

#[derive(Debug)]
pub enum Loc {
	P(Ptr),
	T(V, bool),
}

// ---- per function dataflow
fn analyse_fn(b: &Body) -> FnInfo {
	let n = b.blocks.len();
	let nl = b.locals.len();
	let mut preds = vec![0usize; n];
	preds[0] += 1;
	let succ: Vec<Vec<usize>> = b
		.blocks
		.iter()
		.map(|k| match &k.term {
			Term::Goto(t) => vec![*t],
			Term::Switch(_, _, ts, o) => {
				let mut v: Vec<usize> = ts.iter().map(|t| t.1).collect();
				v.push(*o);
				v
			}
			Term::Drop(_, _, t) => vec![*t],
			Term::Call { target, .. } => target.iter().copied().collect(),
			Term::Assert { target, .. } => vec![*target],
			_ => vec![],
		})
		.collect();
	let dead = |i: usize| matches!(b.blocks[i].term, Term::Unreachable | Term::Resume) && b.blocks[i].stmts.is_empty();
	for s in &succ {
		let mut u = s.clone();
		u.sort();
		u.dedup();
		for t in u {
			preds[t] += 1;
		}
	}
	let join = (0..n).map(|i| preds[i] > 1 && !dead(i)).collect();
	let mut live = vec![vec![false; nl]; n];
	fn use_place(p: &Place, l: &mut [bool]) {
		l[p.local] = true;
		for pr in &p.proj {
			if let Proj::Index(i) = pr {
				l[*i] = true;
			}
		}
	}
	fn use_op(o: &Opnd, l: &mut [bool]) {
		match o {
			Opnd::Copy(p) | Opnd::Move(p) => use_place(p, l),
			_ => {}
		}
	}
	fn def_place(p: &Place, l: &mut [bool]) {
		if p.proj.is_empty() {
			l[p.local] = false;
		} else {
			use_place(p, l);
		}
	}
	let mut changed = true;
	while changed {
		changed = false;
		for i in (0..n).rev() {
			let mut l = vec![false; nl];
			for s in &succ[i] {
				for k in 0..nl {
					l[k] |= live[*s][k];
				}
			}
			match &b.blocks[i].term {
				Term::Switch(o, ..) => use_op(o, &mut l),
				Term::Return => l[0] = true,
				Term::Drop(p, ..) => use_place(p, &mut l),
				Term::Call { f, args, dest, .. } => {
					def_place(dest, &mut l);
					if let Callee::Ind(o) = f {
						use_op(o, &mut l);
					}
					for a in args {
						use_op(a, &mut l);
					}
				}
				Term::Assert { cond, .. } => use_op(cond, &mut l),
				_ => {}
			}
			for (s, _) in b.blocks[i].stmts.iter().rev() {
				match s {
					Stmt::Assign(p, r) => {
						def_place(p, &mut l);
						match r {
							Rv::Use(o) | Rv::Un(_, o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) => use_op(o, &mut l),
							Rv::Ref(p, _) | Rv::Raw(p) | Rv::Discr(p) | Rv::Len(p) => use_place(p, &mut l),
							Rv::Bin(_, x, y) | Rv::Checked(_, x, y) => {
								use_op(x, &mut l);
								use_op(y, &mut l)
							}
							Rv::Agg(_, v) => v.iter().for_each(|o| use_op(o, &mut l)),
							Rv::Other(_) => {}
						}
					}
					Stmt::SetDiscr(p, _) => use_place(p, &mut l),
					Stmt::Dead(k) => l[*k] = false,
					_ => {}
				}
			}
			if l != live[i] {
				live[i] = l;
				changed = true;
			}
		}
	}
	FnInfo { live, join }
}
