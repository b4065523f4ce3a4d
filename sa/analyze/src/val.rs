//! The abstract domain: values over symbolic character segments, states, refinements.
use crate::cs::CS;
use std::any::Any;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub type Sid = u32;
pub type Oid = u32;
pub const INF: u32 = u32::MAX;

/// case mapping applied to the ASCII letters of a segment
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Map {
	Id,
	Low,
	Up,
	Flip,
	/// some unknown choice of case, the same at every occurrence
	Wild,
}
use Map::*;
impl Map {
	/// self applied after `m`
	pub fn after(self, m: Map) -> Map {
		match (self, m) {
			(Id, m) => m,
			(Low, _) => Low,
			(Up, _) => Up,
			(Flip, Id) => Flip,
			(Flip, Low) => Up,
			(Flip, Up) => Low,
			(Flip, Flip) => Id,
			(Flip, Wild) => Wild,
			(Wild, _) => Wild,
		}
	}
	pub fn ch(self, c: char) -> Option<char> {
		Some(match self {
			Id => c,
			Low => c.to_ascii_lowercase(),
			Up => c.to_ascii_uppercase(),
			Flip => flip(c),
			Wild => {
				if c.is_ascii_alphabetic() {
					return None;
				}
				c
			}
		})
	}
	/// characters whose image lies in `s`; None for Wild when not case closed
	pub fn pre(self, s: &CS) -> Option<CS> {
		Some(match self {
			Id => s.clone(),
			Flip => s.flip(),
			Low => s.minus(&CS::upper()).or(&s.and(&CS::lower()).flip()),
			Up => s.minus(&CS::lower()).or(&s.and(&CS::upper()).flip()),
			Wild => {
				if s.flip() == *s {
					s.clone()
				} else {
					return None;
				}
			}
		})
	}
	pub fn image(self, s: &CS) -> CS {
		match self {
			Id => s.clone(),
			Flip => s.flip(),
			Low => s.minus(&CS::upper()).or(&s.and(&CS::upper()).flip()),
			Up => s.minus(&CS::lower()).or(&s.and(&CS::lower()).flip()),
			Wild => s.or(&s.flip()),
		}
	}
}
pub fn flip(c: char) -> char {
	if c.is_ascii_lowercase() {
		c.to_ascii_uppercase()
	} else {
		c.to_ascii_lowercase()
	}
}

/// c + sum of k * len(segment)
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Lin {
	pub c: i64,
	pub t: Vec<(Sid, i64)>,
}
impl Lin {
	pub fn k(c: i64) -> Lin {
		Lin { c, t: vec![] }
	}
	pub fn len(s: Sid) -> Lin {
		Lin { c: 0, t: vec![(s, 1)] }
	}
	pub fn addk(&self, o: &Lin, k: i64) -> Lin {
		if k == 0 {
			return self.clone();
		}
		let mut t = self.t.clone();
		for (s, x) in &o.t {
			match t.binary_search_by_key(s, |e| e.0) {
				Ok(i) => {
					t[i].1 += k * x;
					if t[i].1 == 0 {
						t.remove(i);
					}
				}
				Err(i) => t.insert(i, (*s, k * x)),
			}
		}
		Lin { c: self.c + k * o.c, t }
	}
	pub fn add(&self, o: &Lin) -> Lin {
		self.addk(o, 1)
	}
	pub fn sub(&self, o: &Lin) -> Lin {
		self.addk(o, -1)
	}
	pub fn plus(&self, c: i64) -> Lin {
		Lin { c: self.c + c, t: self.t.clone() }
	}
	pub fn konst(&self) -> Option<i64> {
		if self.t.is_empty() {
			Some(self.c)
		} else {
			None
		}
	}
	pub fn coef(&self, s: Sid) -> i64 {
		self.t.iter().find(|x| x.0 == s).map_or(0, |x| x.1)
	}
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ch {
	Lit(char),
	Src(Sid, Map),
}

#[derive(Clone, PartialEq, Debug)]
pub enum It {
	C(char),
	S(Sid, Map),
	V(V),
	/// already judged elements of the same kind
	Many(Sid),
	/// opaque text: a function of the given values
	F(Arc<(String, Vec<V>)>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Step {
	F(u32),
	Elem(Lin),
	Cell,
	Bx,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
	L(u32, u32),
	H(Oid),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
	pub base: Base,
	pub path: Vec<Step>,
}
impl Ptr {
	pub fn push(&self, s: Step) -> Ptr {
		let mut path = self.path.clone();
		path.push(s);
		Ptr { base: self.base, path }
	}
}

#[derive(Clone, PartialEq, Debug)]
pub enum MapOp {
	Insert(V, V),
	OrInsert(V, V),
	Has(V, bool),
	/// judged entries
	Folded,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Src {
	/// remaining items; the flag: yields references
	Items(Vec<It>, bool),
	/// place of a sequence, remaining range: yields mutable references
	MutItems(Ptr, Lin, Lin),
	Range(Lin, Lin),
	/// a range without end
	From(Lin),
	Once(Option<V>),
	Zip(Box<Pipe>, Box<Pipe>),
	Chain(Box<Pipe>, Box<Pipe>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Stage {
	/// next index, step (1, or -1 when reversed)
	Enumerate(Lin, i64),
	Cloned,
	Map(V),
	Filter(V),
	FilterMap(V),
	TakeWhile(V, bool),
	SkipWhile(V, bool),
	MapWhile(V),
	Inspect(V),
	Skip(Lin),
	Take(Lin),
	StepBy(Lin, bool),
	/// closure (or Undef for flatten), items of the current inner sequence
	FlatMap(V, Option<(Vec<It>, bool)>),
	Peek(Option<V>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pipe {
	pub src: Src,
	pub st: Vec<Stage>,
	pub rev: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
	Undef,
	Bool(bool),
	/// an input flag, possibly negated
	Opt(u32, bool),
	Int(Lin),
	Char(Ch),
	Agg(u32, Arc<Vec<V>>),
	Seq(Arc<Vec<It>>),
	Cell(i32, Arc<V>),
	Rc(Oid),
	Weak(Oid),
	Ref(Arc<Ptr>),
	/// reference to an immutable copy; the flag: a program constant
	RefV(Arc<V>, bool),
	Guard(Arc<Ptr>, bool),
	Fn(usize),
	Clo(usize, Arc<Vec<V>>),
	Map(Arc<Vec<MapOp>>),
	Iter(Arc<Pipe>),
	Box(Arc<V>),
	Opq(Arc<str>),
}

pub fn unit() -> V {
	V::Agg(0, Arc::new(vec![]))
}
pub fn some(v: V) -> V {
	V::Agg(1, Arc::new(vec![v]))
}
pub fn none() -> V {
	V::Agg(0, Arc::new(vec![]))
}
pub fn opt(v: Option<V>) -> V {
	match v {
		Some(v) => some(v),
		None => none(),
	}
}
pub fn int(c: i64) -> V {
	V::Int(Lin::k(c))
}
pub fn agg(k: u32, v: Vec<V>) -> V {
	V::Agg(k, Arc::new(v))
}
pub fn seq(v: Vec<It>) -> V {
	V::Seq(Arc::new(v))
}
pub fn lits(s: &str) -> Vec<It> {
	s.chars().map(It::C).collect()
}
pub fn opq(s: impl Into<String>) -> V {
	V::Opq(Arc::from(s.into()))
}
pub fn ch_item(c: &Ch) -> It {
	match c {
		Ch::Lit(c) => It::C(*c),
		Ch::Src(s, m) => It::S(*s, *m),
	}
}

#[derive(Clone, PartialEq, Debug)]
pub struct Seg {
	pub set: CS,
	pub min: u32,
	pub max: u32,
	pub origin: u32,
	/// characters (true), or counted elements / a plain number
	pub chars: bool,
}
impl Seg {
	pub fn one(set: CS, origin: u32) -> Seg {
		Seg { set, min: 1, max: 1, origin, chars: true }
	}
	pub fn exact(&self) -> Option<i64> {
		if self.min == self.max {
			Some(self.min as i64)
		} else {
			None
		}
	}
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fact {
	Lin(Lin, i64, i64),
	/// the two characters differ even when the case is ignored
	Ne(Sid, Sid),
	/// the lowercased text is one of the marked words of the vocabulary
	Cls(Vec<It>, u32),
}

#[derive(Clone, Debug)]
pub enum Refine {
	Opt(u32, bool),
	Set(Sid, CS),
	Len(Sid, u32, u32),
	Front(Sid),
	Back(Sid),
	Wild(Sid, Map),
	Sub(Sid, Vec<It>),
	Lin(Lin, i64, i64),
	Ne(Sid, Sid),
	/// split a segment: the first part has the given length
	Cut(Sid, Lin),
	Poke(Ptr, V),
	Both(Box<Refine>, Box<Refine>),
}

#[derive(Clone, Debug)]
pub enum Stop {
	Split(Vec<Refine>),
	Panic(String),
	Stuck(String),
	Source,
	Infeasible,
}
pub type R<T> = Result<T, Stop>;
pub fn stuck<T>(s: impl Into<String>) -> R<T> {
	Err(Stop::Stuck(s.into()))
}

/// the words that names are compared with; bit i of a class mask stands for word i
pub const VOCAB: [&str; 23] = [
	"img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed", "track",
	"wbr", "script", "style", "title", "textarea", "svg", "math", "pre", "html", "id",
];
pub const OTHER: u32 = 1 << 31;
pub fn word(w: &str) -> u32 {
	1 << VOCAB.iter().position(|x| *x == w).unwrap()
}
pub fn void_mask() -> u32 {
	(1 << 14) - 1
}
pub fn all_mask() -> u32 {
	((1 << VOCAB.len()) - 1) | OTHER
}

pub trait Rw {
	/// replaces a sequence as a whole
	fn whole(&mut self, _v: &[It]) -> Option<Vec<It>> {
		None
	}
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>);
	fn many(&mut self, s: Sid, out: &mut Vec<It>);
	fn ch(&mut self, s: Sid, m: Map) -> Ch;
	fn lin(&mut self, l: &Lin) -> Lin;
	fn oid(&mut self, o: Oid) -> Oid {
		o
	}
}

/// read-only traversal
pub trait Vis {
	fn tok(&mut self, _t: u64) {}
	fn seq(&mut self, _s: &[It]) {}
	fn ch(&mut self, _s: Sid, _m: Map) {}
	fn lin(&mut self, _l: &Lin, _local: bool) {}
	fn oid(&mut self, _o: Oid, _strong: bool) {}
	fn local(&mut self, _f: u32, _l: u32) {}
}

pub fn rw_items(v: &[It], r: &mut dyn Rw) -> Vec<It> {
	if let Some(v) = r.whole(v) {
		return v;
	}
	let mut out = Vec::with_capacity(v.len());
	for it in v {
		match it {
			It::C(c) => out.push(It::C(*c)),
			It::S(s, m) => r.item(*s, *m, &mut out),
			It::V(v) => out.push(It::V(v.rw(r))),
			It::Many(s) => r.many(*s, &mut out),
			It::F(f) => out.push(It::F(Arc::new((f.0.clone(), f.1.iter().map(|v| v.rw(r)).collect())))),
		}
	}
	out
}
pub fn rw_ptr(p: &Ptr, r: &mut dyn Rw) -> Ptr {
	Ptr {
		base: match p.base {
			Base::H(o) => Base::H(r.oid(o)),
			b => b,
		},
		path: p
			.path
			.iter()
			.map(|s| match s {
				Step::Elem(l) => Step::Elem(r.lin(l)),
				s => s.clone(),
			})
			.collect(),
	}
}
fn rw_pipe(p: &Pipe, r: &mut dyn Rw) -> Pipe {
	let src = match &p.src {
		Src::Items(v, b) => Src::Items(rw_items(v, r), *b),
		Src::MutItems(p, a, b) => Src::MutItems(rw_ptr(p, r), r.lin(a), r.lin(b)),
		Src::Range(a, b) => Src::Range(r.lin(a), r.lin(b)),
		Src::From(a) => Src::From(r.lin(a)),
		Src::Once(v) => Src::Once(v.as_ref().map(|v| v.rw(r))),
		Src::Zip(a, b) => Src::Zip(Box::new(rw_pipe(a, r)), Box::new(rw_pipe(b, r))),
		Src::Chain(a, b) => Src::Chain(Box::new(rw_pipe(a, r)), Box::new(rw_pipe(b, r))),
	};
	let st = p
		.st
		.iter()
		.map(|s| match s {
			Stage::Enumerate(l, k) => Stage::Enumerate(r.lin(l), *k),
			Stage::Cloned => Stage::Cloned,
			Stage::Map(v) => Stage::Map(v.rw(r)),
			Stage::Filter(v) => Stage::Filter(v.rw(r)),
			Stage::FilterMap(v) => Stage::FilterMap(v.rw(r)),
			Stage::TakeWhile(v, b) => Stage::TakeWhile(v.rw(r), *b),
			Stage::SkipWhile(v, b) => Stage::SkipWhile(v.rw(r), *b),
			Stage::MapWhile(v) => Stage::MapWhile(v.rw(r)),
			Stage::Inspect(v) => Stage::Inspect(v.rw(r)),
			Stage::Skip(l) => Stage::Skip(r.lin(l)),
			Stage::Take(l) => Stage::Take(r.lin(l)),
			Stage::StepBy(l, b) => Stage::StepBy(r.lin(l), *b),
			Stage::FlatMap(v, i) => Stage::FlatMap(v.rw(r), i.as_ref().map(|(i, b)| (rw_items(i, r), *b))),
			Stage::Peek(v) => Stage::Peek(v.as_ref().map(|v| v.rw(r))),
		})
		.collect();
	Pipe { src, st, rev: p.rev }
}
pub fn rw_vs(v: &[V], r: &mut dyn Rw) -> Vec<V> {
	v.iter().map(|x| x.rw(r)).collect()
}

impl V {
	pub fn rw(&self, r: &mut dyn Rw) -> V {
		match self {
			V::Undef | V::Bool(_) | V::Opt(..) | V::Fn(_) | V::Opq(_) => self.clone(),
			V::Int(l) => V::Int(r.lin(l)),
			V::Char(Ch::Lit(_)) => self.clone(),
			V::Char(Ch::Src(s, m)) => V::Char(r.ch(*s, *m)),
			V::Agg(k, v) => {
				if v.is_empty() {
					self.clone()
				} else {
					V::Agg(*k, Arc::new(rw_vs(v, r)))
				}
			}
			V::Seq(v) => {
				if v.iter().all(|x| matches!(x, It::C(_))) {
					self.clone()
				} else {
					V::Seq(Arc::new(rw_items(v, r)))
				}
			}
			V::Cell(n, v) => V::Cell(*n, Arc::new(v.rw(r))),
			V::Rc(o) => V::Rc(r.oid(*o)),
			V::Weak(o) => V::Weak(r.oid(*o)),
			V::Ref(p) => V::Ref(Arc::new(rw_ptr(p, r))),
			V::RefV(v, c) => {
				if *c {
					self.clone()
				} else {
					V::RefV(Arc::new(v.rw(r)), false)
				}
			}
			V::Guard(p, m) => V::Guard(Arc::new(rw_ptr(p, r)), *m),
			V::Clo(f, v) => V::Clo(*f, Arc::new(rw_vs(v, r))),
			V::Map(ops) => V::Map(Arc::new(
				ops.iter()
					.map(|o| match o {
						MapOp::Insert(a, b) => MapOp::Insert(a.rw(r), b.rw(r)),
						MapOp::OrInsert(a, b) => MapOp::OrInsert(a.rw(r), b.rw(r)),
						MapOp::Has(a, b) => MapOp::Has(a.rw(r), *b),
						MapOp::Folded => MapOp::Folded,
					})
					.collect(),
			)),
			V::Iter(p) => V::Iter(Arc::new(rw_pipe(p, r))),
			V::Box(v) => V::Box(Arc::new(v.rw(r))),
		}
	}

	pub fn vis(&self, w: &mut dyn Vis, local: bool) {
		match self {
			V::Undef => w.tok(1),
			V::Bool(b) => w.tok(2 + *b as u64),
			V::Opt(i, n) => {
				w.tok(4);
				w.tok((*i as u64) << 1 | *n as u64)
			}
			V::Int(l) => {
				w.tok(5);
				w.lin(l, local)
			}
			V::Char(Ch::Lit(c)) => {
				w.tok(6);
				w.tok(*c as u64)
			}
			V::Char(Ch::Src(s, m)) => {
				w.tok(7);
				w.ch(*s, *m)
			}
			V::Agg(k, v) => {
				w.tok(8);
				w.tok(*k as u64);
				w.tok(v.len() as u64);
				for x in v.iter() {
					x.vis(w, local)
				}
			}
			V::Seq(v) => {
				w.tok(9);
				vis_items(v, w, local)
			}
			V::Cell(n, v) => {
				w.tok(10);
				w.tok(*n as u64);
				v.vis(w, local)
			}
			V::Rc(o) => {
				w.tok(11);
				w.oid(*o, true)
			}
			V::Weak(o) => {
				w.tok(12);
				w.oid(*o, false)
			}
			V::Ref(p) => {
				w.tok(13);
				vis_ptr(p, w)
			}
			V::RefV(v, c) => {
				w.tok(14);
				w.tok(*c as u64);
				v.vis(w, false)
			}
			V::Guard(p, m) => {
				w.tok(15);
				w.tok(*m as u64);
				vis_ptr(p, w)
			}
			V::Fn(f) => {
				w.tok(16);
				w.tok(*f as u64)
			}
			V::Clo(f, v) => {
				w.tok(17);
				w.tok(*f as u64);
				for x in v.iter() {
					x.vis(w, local)
				}
			}
			V::Map(ops) => {
				w.tok(18);
				w.tok(ops.len() as u64);
				for o in ops.iter() {
					match o {
						MapOp::Insert(a, b) => {
							w.tok(1);
							a.vis(w, false);
							b.vis(w, false)
						}
						MapOp::OrInsert(a, b) => {
							w.tok(2);
							a.vis(w, false);
							b.vis(w, false)
						}
						MapOp::Has(a, b) => {
							w.tok(3);
							w.tok(*b as u64);
							a.vis(w, false)
						}
						MapOp::Folded => w.tok(4),
					}
				}
			}
			V::Iter(p) => {
				w.tok(19);
				vis_pipe(p, w, local)
			}
			V::Box(v) => {
				w.tok(20);
				v.vis(w, local)
			}
			V::Opq(s) => {
				w.tok(21);
				w.tok(hash_str(s))
			}
		}
	}
	pub fn is_undef(&self) -> bool {
		matches!(self, V::Undef)
	}
}
pub fn hash_str(s: &str) -> u64 {
	use std::hash::{Hash, Hasher};
	let mut h = std::collections::hash_map::DefaultHasher::new();
	s.hash(&mut h);
	h.finish()
}
pub fn vis_items(v: &[It], w: &mut dyn Vis, local: bool) {
	w.tok(v.len() as u64);
	w.seq(v);
	for x in v {
		match x {
			It::C(c) => {
				w.tok(1);
				w.tok(*c as u64)
			}
			It::S(..) => w.tok(2),
			It::V(v) => {
				w.tok(3);
				v.vis(w, local)
			}
			It::Many(_) => w.tok(4),
			It::F(f) => {
				w.tok(5);
				w.tok(hash_str(&f.0));
				for v in &f.1 {
					v.vis(w, local)
				}
			}
		}
	}
}
pub fn vis_ptr(p: &Ptr, w: &mut dyn Vis) {
	match p.base {
		Base::L(a, b) => {
			w.tok(1);
			w.tok((a as u64) << 32 | b as u64);
			w.local(a, b)
		}
		Base::H(o) => {
			w.tok(2);
			w.oid(o, true)
		}
	}
	for s in &p.path {
		match s {
			Step::F(i) => {
				w.tok(3);
				w.tok(*i as u64)
			}
			Step::Elem(l) => {
				w.tok(4);
				w.lin(l, true)
			}
			Step::Cell => w.tok(5),
			Step::Bx => w.tok(6),
		}
	}
	w.tok(7)
}
fn vis_pipe(p: &Pipe, w: &mut dyn Vis, local: bool) {
	w.tok(p.rev as u64);
	match &p.src {
		Src::Items(v, b) => {
			w.tok(1);
			w.tok(*b as u64);
			vis_items(v, w, local)
		}
		Src::MutItems(p, a, b) => {
			w.tok(2);
			vis_ptr(p, w);
			w.lin(a, local);
			w.lin(b, local)
		}
		Src::Range(a, b) => {
			w.tok(3);
			w.lin(a, local);
			w.lin(b, local)
		}
		Src::From(a) => {
			w.tok(4);
			w.lin(a, local)
		}
		Src::Once(v) => {
			w.tok(5);
			if let Some(v) = v {
				v.vis(w, local)
			} else {
				w.tok(0)
			}
		}
		Src::Zip(a, b) => {
			w.tok(6);
			vis_pipe(a, w, local);
			vis_pipe(b, w, local)
		}
		Src::Chain(a, b) => {
			w.tok(7);
			vis_pipe(a, w, local);
			vis_pipe(b, w, local)
		}
	}
	for s in &p.st {
		match s {
			Stage::Enumerate(l, k) => {
				w.tok(1);
				w.tok(*k as u64);
				w.lin(l, local)
			}
			Stage::Cloned => w.tok(2),
			Stage::Map(v) => {
				w.tok(3);
				v.vis(w, local)
			}
			Stage::Filter(v) => {
				w.tok(4);
				v.vis(w, local)
			}
			Stage::FilterMap(v) => {
				w.tok(5);
				v.vis(w, local)
			}
			Stage::TakeWhile(v, b) => {
				w.tok(6);
				w.tok(*b as u64);
				v.vis(w, local)
			}
			Stage::SkipWhile(v, b) => {
				w.tok(7);
				w.tok(*b as u64);
				v.vis(w, local)
			}
			Stage::MapWhile(v) => {
				w.tok(8);
				v.vis(w, local)
			}
			Stage::Inspect(v) => {
				w.tok(9);
				v.vis(w, local)
			}
			Stage::Skip(l) => {
				w.tok(10);
				w.lin(l, local)
			}
			Stage::Take(l) => {
				w.tok(11);
				w.lin(l, local)
			}
			Stage::StepBy(l, b) => {
				w.tok(14);
				w.tok(*b as u64);
				w.lin(l, local)
			}
			Stage::FlatMap(v, i) => {
				w.tok(12);
				v.vis(w, local);
				if let Some((i, b)) = i {
					w.tok(1 + *b as u64);
					vis_items(i, w, local)
				} else {
					w.tok(0)
				}
			}
			Stage::Peek(v) => {
				w.tok(13);
				if let Some(v) = v {
					v.vis(w, local)
				} else {
					w.tok(0)
				}
			}
		}
	}
	w.tok(99);
}

pub trait Ghost: Any + Send + Sync {
	fn boxed(&self) -> Box<dyn Ghost>;
	fn rw(&self, r: &mut dyn Rw) -> Box<dyn Ghost>;
	fn vis(&self, w: &mut dyn Vis);
	fn any(&self) -> &dyn Any;
	fn any_mut(&mut self) -> &mut dyn Any;
}
impl Clone for Box<dyn Ghost> {
	fn clone(&self) -> Self {
		(**self).boxed()
	}
}
#[derive(Clone)]
pub struct NoGhost;
impl Ghost for NoGhost {
	fn boxed(&self) -> Box<dyn Ghost> {
		Box::new(NoGhost)
	}
	fn rw(&self, _: &mut dyn Rw) -> Box<dyn Ghost> {
		Box::new(NoGhost)
	}
	fn vis(&self, _: &mut dyn Vis) {}
	fn any(&self) -> &dyn Any {
		self
	}
	fn any_mut(&mut self) -> &mut dyn Any {
		self
	}
}

/// a ghost that only keeps values (and some labels)
#[derive(Clone)]
pub struct Keep {
	pub v: Vec<V>,
	pub tag: Vec<u64>,
}
impl Ghost for Keep {
	fn boxed(&self) -> Box<dyn Ghost> {
		Box::new(self.clone())
	}
	fn rw(&self, r: &mut dyn Rw) -> Box<dyn Ghost> {
		Box::new(Keep { v: rw_vs(&self.v, r), tag: self.tag.clone() })
	}
	fn vis(&self, w: &mut dyn Vis) {
		for t in &self.tag {
			w.tok(*t);
		}
		for v in &self.v {
			v.vis(w, false);
		}
	}
	fn any(&self) -> &dyn Any {
		self
	}
	fn any_mut(&mut self) -> &mut dyn Any {
		self
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cons {
	Next,
	Collect(u8),
	ForEach(V),
	Any(V),
	All(V),
	Find(V),
	FindMap(V),
	Position(V, Lin),
	Count(Lin),
	Last(V),
	Fold(V, V),
	Extend(V),
	Nth(Lin),
	RPosition(V, Lin),
	Sum(Lin),
	/// closure, value so far (Undef: none), variant that goes on, variant that stops
	TryFold(V, V, u32, u32),
	/// the closure and the place of the sequence
	Retain(V, V),
}
/// a consumer of an iterator at work
#[derive(Clone, Debug, PartialEq)]
pub struct Native {
	pub it: V,
	pub cons: Cons,
	pub acc: Vec<It>,
	/// next stage to pass the current element through
	pub stage: u32,
	pub cur: V,
	/// waits for the result of a closure
	pub wait: bool,
	/// the position where the iterator is written back
	pub back: Option<Ptr>,
}

#[derive(Clone, Debug)]
pub struct Frame {
	pub f: usize,
	pub bb: u32,
	pub locals: Vec<V>,
	pub nat: Option<Native>,
}

pub struct Trail {
	pub what: String,
	pub up: Option<Arc<Trail>>,
}

#[derive(Clone)]
pub struct State {
	pub frames: Vec<Arc<Frame>>,
	pub heap: Vec<Option<Arc<V>>>,
	pub segs: Arc<Vec<Seg>>,
	pub facts: Arc<Vec<Fact>>,
	pub opts: Arc<Vec<Option<bool>>>,
	pub ghost: Box<dyn Ghost>,
	pub trail: Option<Arc<Trail>>,
	/// a join has forgotten numbers
	pub lossy: bool,
}

struct Subst<'a> {
	sid: Sid,
	items: &'a [It],
	len: Lin,
}
impl Rw for Subst<'_> {
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		if s == self.sid {
			for it in self.items {
				out.push(match it {
					It::S(s, m2) => It::S(*s, m.after(*m2)),
					It::C(c) => It::C(m.ch(*c).unwrap_or(*c)),
					o => o.clone(),
				});
			}
		} else {
			out.push(It::S(s, m));
		}
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		if s == self.sid {
			out.extend(self.items.iter().cloned());
		} else {
			out.push(It::Many(s));
		}
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		if s == self.sid {
			match self.items {
				[It::S(s, m2)] => Ch::Src(*s, m.after(*m2)),
				[It::C(c)] => Ch::Lit(m.ch(*c).unwrap_or(*c)),
				_ => Ch::Src(s, m),
			}
		} else {
			Ch::Src(s, m)
		}
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		let k = l.coef(self.sid);
		if k == 0 {
			l.clone()
		} else {
			l.addk(&Lin::len(self.sid), -k).addk(&self.len, k)
		}
	}
}
struct WildRw(Sid, Map);
impl Rw for WildRw {
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		out.push(It::S(s, if s == self.0 && m == Wild { self.1 } else { m }));
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		out.push(It::Many(s))
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		Ch::Src(s, if s == self.0 && m == Wild { self.1 } else { m })
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		l.clone()
	}
}

impl State {
	pub fn new(nopts: usize) -> State {
		State {
			frames: vec![],
			heap: vec![],
			// segment 0 is the input that has not been read yet
			segs: Arc::new(vec![Seg { set: CS::all(), min: 0, max: INF, origin: 0, chars: true }]),
			facts: Arc::new(vec![]),
			opts: Arc::new(vec![None; nopts]),
			ghost: Box::new(NoGhost),
			trail: None,
			lossy: false,
		}
	}
	pub fn note(&mut self, s: impl Into<String>) {
		self.trail = Some(Arc::new(Trail { what: s.into(), up: self.trail.take() }));
	}
	pub fn trail_len(&self) -> usize {
		let (mut n, mut t) = (0, self.trail.as_ref());
		while let Some(x) = t {
			n += 1;
			t = x.up.as_ref();
		}
		n
	}
	/// the steps after the first `n`
	pub fn trail_since(&self, n: usize) -> Vec<String> {
		let mut v = vec![];
		let mut t = self.trail.as_ref();
		while let Some(x) = t {
			v.push(x.what.to_string());
			t = x.up.as_ref();
		}
		v.reverse();
		v.split_off(n.min(v.len()))
	}
	pub fn trail_text(&self) -> String {
		let mut v = vec![];
		let mut t = self.trail.as_ref();
		while let Some(x) = t {
			v.push(x.what.clone());
			t = x.up.as_ref();
		}
		v.reverse();
		v.join(" ")
	}
	pub fn top(&self) -> &Frame {
		self.frames.last().unwrap()
	}
	pub fn top_mut(&mut self) -> &mut Frame {
		Arc::make_mut(self.frames.last_mut().unwrap())
	}
	pub fn alloc(&mut self, v: V) -> Oid {
		self.heap.push(Some(Arc::new(v)));
		(self.heap.len() - 1) as Oid
	}
	pub fn seg(&self, s: Sid) -> &Seg {
		&self.segs[s as usize]
	}
	pub fn new_seg(&mut self, s: Seg) -> Sid {
		let v = Arc::make_mut(&mut self.segs);
		v.push(s);
		let id = (v.len() - 1) as Sid;
		if v[id as usize].origin == u32::MAX {
			v[id as usize].origin = id;
		}
		id
	}
	pub fn new_chars(&mut self, set: CS, min: u32, max: u32) -> Sid {
		self.new_seg(Seg { set, min, max, origin: u32::MAX, chars: true })
	}
	pub fn ghost<T: 'static>(&self) -> &T {
		self.ghost.any().downcast_ref::<T>().unwrap()
	}
	pub fn ghost_mut<T: 'static>(&mut self) -> &mut T {
		self.ghost.any_mut().downcast_mut::<T>().unwrap()
	}
	pub fn rw_all(&mut self, r: &mut dyn Rw) {
		for f in self.frames.iter_mut() {
			let mut nf = Frame { f: f.f, bb: f.bb, locals: rw_vs(&f.locals, r), nat: None };
			if let Some(n) = &f.nat {
				nf.nat = Some(Native {
					it: n.it.rw(r),
					cons: match &n.cons {
						Cons::ForEach(v) => Cons::ForEach(v.rw(r)),
						Cons::Any(v) => Cons::Any(v.rw(r)),
						Cons::All(v) => Cons::All(v.rw(r)),
						Cons::Find(v) => Cons::Find(v.rw(r)),
						Cons::FindMap(v) => Cons::FindMap(v.rw(r)),
						Cons::Position(v, l) => Cons::Position(v.rw(r), r.lin(l)),
						Cons::Count(l) => Cons::Count(r.lin(l)),
						Cons::Last(v) => Cons::Last(v.rw(r)),
						Cons::Fold(a, b) => Cons::Fold(a.rw(r), b.rw(r)),
						Cons::Extend(v) => Cons::Extend(v.rw(r)),
						Cons::Nth(l) => Cons::Nth(r.lin(l)),
						Cons::Retain(a, b) => Cons::Retain(a.rw(r), b.rw(r)),
						Cons::RPosition(v, l) => Cons::RPosition(v.rw(r), r.lin(l)),
						Cons::Sum(l) => Cons::Sum(r.lin(l)),
						Cons::TryFold(a, b, g, s) => Cons::TryFold(a.rw(r), b.rw(r), *g, *s),
						Cons::Next => Cons::Next,
						Cons::Collect(k) => Cons::Collect(*k),
					},
					acc: rw_items(&n.acc, r),
					stage: n.stage,
					cur: n.cur.rw(r),
					wait: n.wait,
					back: n.back.as_ref().map(|p| rw_ptr(p, r)),
				});
			}
			*f = Arc::new(nf);
		}
		for h in self.heap.iter_mut() {
			if let Some(v) = h {
				*h = Some(Arc::new(v.rw(r)));
			}
		}
		self.ghost = self.ghost.rw(r);
		let facts: Vec<Fact> = self
			.facts
			.iter()
			.filter_map(|f| {
				Some(match f {
					Fact::Lin(l, a, b) => Fact::Lin(r.lin(l), *a, *b),
					Fact::Ne(x, y) => {
						let a = r.ch(*x, Id);
						let b = r.ch(*y, Id);
						match (a, b) {
							(Ch::Src(a, _), Ch::Src(b, _)) => Fact::Ne(a, b),
							_ => return None,
						}
					}
					Fact::Cls(i, m) => Fact::Cls(rw_items(i, r), *m),
				})
			})
			.collect();
		self.facts = Arc::new(facts);
	}
	pub fn vis_all(&self, w: &mut dyn Vis) {
		for i in 0..self.frames.len() {
			self.vis_frame(i, w);
		}
	}
	pub fn vis_frame(&self, i: usize, w: &mut dyn Vis) {
		{
			let f = &self.frames[i];
			w.tok(f.f as u64);
			w.tok(f.bb as u64);
			for v in &f.locals {
				v.vis(w, true);
			}
			if let Some(n) = &f.nat {
				w.tok(1000 + n.stage as u64);
				w.tok(n.wait as u64);
				n.it.vis(w, true);
				n.cur.vis(w, true);
				vis_items(&n.acc, w, true);
				if let Some(p) = &n.back {
					vis_ptr(p, w);
				}
				match &n.cons {
					Cons::Next => w.tok(1),
					Cons::Collect(k) => {
						w.tok(2);
						w.tok(*k as u64)
					}
					Cons::ForEach(v) => {
						w.tok(3);
						v.vis(w, true)
					}
					Cons::Any(v) => {
						w.tok(4);
						v.vis(w, true)
					}
					Cons::All(v) => {
						w.tok(5);
						v.vis(w, true)
					}
					Cons::Find(v) => {
						w.tok(6);
						v.vis(w, true)
					}
					Cons::FindMap(v) => {
						w.tok(7);
						v.vis(w, true)
					}
					Cons::Position(v, l) => {
						w.tok(8);
						w.lin(l, true);
						v.vis(w, true)
					}
					Cons::Count(l) => {
						w.tok(9);
						w.lin(l, true)
					}
					Cons::Last(v) => {
						w.tok(10);
						v.vis(w, true)
					}
					Cons::TryFold(a, b, g, _) => {
						w.tok(33);
						w.tok(*g as u64);
						a.vis(w, true);
						b.vis(w, true)
					}
					Cons::Fold(a, b) => {
						w.tok(11);
						a.vis(w, true);
						b.vis(w, true)
					}
					Cons::Extend(v) => {
						w.tok(12);
						v.vis(w, true)
					}
					Cons::Nth(l) => {
						w.tok(13);
						w.lin(l, true)
					}
					Cons::Retain(a, b) => {
						w.tok(14);
						a.vis(w, true);
						b.vis(w, true)
					}
					Cons::RPosition(v, l) => {
						w.tok(31);
						w.lin(l, true);
						v.vis(w, true)
					}
					Cons::Sum(l) => {
						w.tok(32);
						w.lin(l, true)
					}
				}
			}
		}
	}

	pub fn norm(&self, l: &Lin) -> Lin {
		if l.t.iter().all(|(s, _)| self.seg(*s).exact().is_none()) {
			return l.clone();
		}
		let mut out = Lin::k(l.c);
		for (s, k) in &l.t {
			match self.seg(*s).exact() {
				Some(e) => out.c += k * e,
				None => out.t.push((*s, *k)),
			}
		}
		out
	}
	/// range of the values of a linear expression
	pub fn range(&self, l: &Lin) -> (i64, i64) {
		let l = self.norm(l);
		let (mut lo, mut hi) = (l.c, l.c);
		const BIG: i64 = i64::MAX / 4;
		for (s, k) in &l.t {
			let g = self.seg(*s);
			let mx = if g.max == INF { BIG } else { g.max as i64 };
			if *k > 0 {
				lo += k * g.min as i64;
				hi = if mx == BIG { BIG } else { hi.saturating_add(k * mx).min(BIG) };
			} else {
				hi = if hi >= BIG { BIG } else { hi + k * g.min as i64 };
				lo = if mx == BIG { -BIG } else { lo.saturating_add(k * mx).max(-BIG) };
			}
			lo = lo.max(-BIG);
		}
		if l.t.len() > 1 {
			for f in self.facts.iter() {
				if let Fact::Lin(fl, a, b) = f {
					let fl = self.norm(fl);
					// same terms up to sign, any constant
					let d = l.sub(&fl);
					if let Some(k) = d.konst() {
						lo = lo.max(a.saturating_add(k));
						hi = hi.min(b.saturating_add(k));
					}
					let d = l.add(&fl);
					if let Some(k) = d.konst() {
						lo = lo.max(k.saturating_sub(*b));
						hi = hi.min(k.saturating_sub(*a));
					}
				}
			}
		}
		(lo, hi)
	}
	/// decides l >= 0
	pub fn ge0(&self, l: &Lin) -> R<bool> {
		let l = self.norm(l);
		let (lo, hi) = self.range(&l);
		if lo >= 0 {
			return Ok(true);
		}
		if hi < 0 {
			return Ok(false);
		}
		if l.coef(0) != 0 {
			return Err(Stop::Source);
		}
		if l.t.len() == 1 {
			let (s, k) = l.t[0];
			let g = self.seg(s);
			if k > 0 {
				let t = (-l.c + k - 1).div_euclid(k) as u32;
				return Err(Stop::Split(vec![Refine::Len(s, t.max(g.min), g.max), Refine::Len(s, g.min, t - 1)]));
			} else {
				let t = l.c.div_euclid(-k) as u32;
				return Err(Stop::Split(vec![Refine::Len(s, g.min, t.min(g.max)), Refine::Len(s, t + 1, g.max)]));
			}
		}
		if l.t.iter().all(|x| x.1 > 0) || l.t.iter().all(|x| x.1 < 0) {
			let (s, _) = l.t[0];
			let g = self.seg(s);
			return Err(Stop::Split(vec![Refine::Len(s, g.min, g.min), Refine::Len(s, g.min + 1, g.max)]));
		}
		Err(Stop::Split(vec![Refine::Lin(l.clone(), 0, i64::MAX / 4), Refine::Lin(l, -i64::MAX / 4, -1)]))
	}
	pub fn eq0(&self, l: &Lin) -> R<bool> {
		let l = self.norm(l);
		let (lo, hi) = self.range(&l);
		if lo == 0 && hi == 0 {
			return Ok(true);
		}
		if lo > 0 || hi < 0 {
			return Ok(false);
		}
		if l.coef(0) != 0 {
			return Err(Stop::Source);
		}
		if l.t.len() == 1 {
			let (s, k) = l.t[0];
			if (-l.c) % k != 0 {
				return Ok(false);
			}
			let t = (-l.c / k) as u32;
			let g = self.seg(s);
			let mut v = vec![Refine::Len(s, t, t)];
			if t > g.min {
				v.push(Refine::Len(s, g.min, t - 1));
			}
			if t < g.max {
				v.push(Refine::Len(s, t + 1, g.max));
			}
			return Err(Stop::Split(v));
		}
		Err(Stop::Split(vec![
			Refine::Lin(l.clone(), 0, 0),
			Refine::Lin(l.clone(), 1, i64::MAX / 4),
			Refine::Lin(l, -i64::MAX / 4, -1),
		]))
	}

	pub fn it_len(&self, it: &It) -> R<Lin> {
		Ok(match it {
			It::C(_) | It::V(_) => Lin::k(1),
			It::S(s, _) | It::Many(s) => Lin::len(*s),
			It::F(f) => return stuck(format!("length of opaque text {}", f.0)),
		})
	}
	pub fn seq_len(&self, v: &[It]) -> R<Lin> {
		let mut l = Lin::k(0);
		for it in v {
			l = l.add(&self.it_len(it)?);
		}
		Ok(self.norm(&l))
	}
	pub fn is_empty(&self, v: &[It]) -> R<bool> {
		// any item that surely has a length makes it non-empty
		let mut open = None;
		for it in v {
			match it {
				It::C(_) | It::V(_) => return Ok(false),
				It::S(s, _) | It::Many(s) => {
					let g = self.seg(*s);
					if g.min > 0 {
						return Ok(false);
					}
					if g.max > 0 && open.is_none() {
						open = Some(*s);
					}
				}
				It::F(f) => return stuck(format!("emptiness of opaque text {}", f.0)),
			}
		}
		match open {
			None => Ok(true),
			Some(0) => Err(Stop::Source),
			Some(s) => Err(Stop::Split(vec![Refine::Len(s, 0, 0), Refine::Len(s, 1, self.seg(s).max)])),
		}
	}
	/// the first item, of length one; (item, rest)
	pub fn front<'a>(&self, v: &'a [It]) -> R<Option<(It, &'a [It])>> {
		let mut v = v;
		loop {
			let Some(it) = v.first() else { return Ok(None) };
			match it {
				It::C(_) | It::V(_) => return Ok(Some((it.clone(), &v[1..]))),
				It::S(s, _) | It::Many(s) => {
					let g = self.seg(*s);
					if g.max == 0 {
						v = &v[1..];
						continue;
					}
					if g.min == 1 && g.max == 1 && matches!(it, It::S(..)) {
						return Ok(Some((it.clone(), &v[1..])));
					}
					if *s == 0 {
						return Err(Stop::Source);
					}
					if !g.chars {
						return self.open_many(*s);
					}
					let mut sp = vec![Refine::Front(*s)];
					if g.min == 0 {
						sp.push(Refine::Len(*s, 0, 0));
					}
					return Err(Stop::Split(sp));
				}
				It::F(f) => return stuck(format!("reads opaque text {}", f.0)),
			}
		}
	}
	pub fn back<'a>(&self, v: &'a [It]) -> R<Option<(It, &'a [It])>> {
		let mut v = v;
		loop {
			let Some(it) = v.last() else { return Ok(None) };
			let rest = &v[..v.len() - 1];
			match it {
				It::C(_) | It::V(_) => return Ok(Some((it.clone(), rest))),
				It::S(s, _) | It::Many(s) => {
					let g = self.seg(*s);
					if g.max == 0 {
						v = rest;
						continue;
					}
					if g.min == 1 && g.max == 1 && matches!(it, It::S(..)) {
						return Ok(Some((it.clone(), rest)));
					}
					if *s == 0 {
						return Err(Stop::Source);
					}
					if !g.chars {
						return self.open_many(*s);
					}
					let mut sp = vec![Refine::Back(*s)];
					if g.min == 0 {
						sp.push(Refine::Len(*s, 0, 0));
					}
					return Err(Stop::Split(sp));
				}
				It::F(f) => return stuck(format!("reads opaque text {}", f.0)),
			}
		}
	}
	fn open_many<T>(&self, s: Sid) -> R<T> {
		let g = self.seg(s);
		if g.min == 0 {
			return Err(Stop::Split(vec![Refine::Len(s, 0, 0), Refine::Len(s, 1, g.max)]));
		}
		stuck("reads a judged element")
	}
	/// index of the item at which the position `l` begins; the position must be inside or at the end
	pub fn boundary(&self, v: &[It], l: &Lin) -> R<Option<usize>> {
		let mut rem = self.norm(l);
		for (k, it) in v.iter().enumerate() {
			if rem.konst() == Some(0) {
				return Ok(Some(k));
			}
			let len = self.norm(&self.it_len(it)?);
			let d = rem.sub(&len);
			// syntactic fast path
			if self.ge0(&d)? {
				rem = self.norm(&d);
				continue;
			}
			// rem < len
			if self.eq0(&rem)? {
				return Ok(Some(k));
			}
			if !self.ge0(&rem)? {
				return Ok(None);
			}
			let s = match it {
				It::S(s, _) | It::Many(s) => *s,
				_ => return stuck("boundary inside an item"),
			};
			if s == 0 {
				return Err(Stop::Source);
			}
			if !self.seg(s).chars {
				return stuck("position inside judged elements");
			}
			if rem.konst().is_some() {
				return Err(Stop::Split(vec![Refine::Front(s)]));
			}
			if self.norm(&len.sub(&rem)).konst().is_some() {
				return Err(Stop::Split(vec![Refine::Back(s)]));
			}
			return Err(Stop::Split(vec![Refine::Cut(s, rem)]));
		}
		if self.eq0(&rem)? {
			Ok(Some(v.len()))
		} else {
			Ok(None)
		}
	}
	/// index of the item (of length one) at position `l`; None when out of range
	pub fn index(&self, v: &[It], l: &Lin) -> R<Option<usize>> {
		if !self.ge0(l)? {
			return Ok(None);
		}
		if self.ge0(&l.sub(&self.seq_len(v)?))? {
			return Ok(None);
		}
		let Some(k) = self.boundary(v, l)? else { return Ok(None) };
		// the item may be a longer or an empty segment
		let mut j = k;
		while j < v.len() {
			match &v[j] {
				It::S(s, _) | It::Many(s) => {
					let g = self.seg(*s);
					if g.max == 0 {
						j += 1;
						continue;
					}
					if g.min == 1 && g.max == 1 && matches!(v[j], It::S(..)) {
						return Ok(Some(j));
					}
					if *s == 0 {
						return Err(Stop::Source);
					}
					if !g.chars {
						return self.open_many(*s);
					}
					let mut sp = vec![Refine::Front(*s)];
					if g.min == 0 {
						sp.push(Refine::Len(*s, 0, 0));
					}
					return Err(Stop::Split(sp));
				}
				It::F(f) => return stuck(format!("reads opaque text {}", f.0)),
				_ => return Ok(Some(j)),
			}
		}
		Ok(None)
	}
	pub fn item_val(&self, it: &It) -> R<V> {
		Ok(match it {
			It::C(c) => V::Char(Ch::Lit(*c)),
			It::S(s, m) => V::Char(Ch::Src(*s, *m)),
			It::V(v) => v.clone(),
			It::Many(_) => return stuck("reads a judged element"),
			It::F(f) => return stuck(format!("reads opaque text {}", f.0)),
		})
	}
	pub fn val_item(v: V) -> It {
		match v {
			V::Char(c) => ch_item(&c),
			v => It::V(v),
		}
	}

	// ---- characters
	pub fn ch_in(&self, c: &Ch, set: &CS) -> R<bool> {
		match c {
			Ch::Lit(c) => Ok(set.has(*c)),
			Ch::Src(s, m) => {
				let g = self.seg(*s);
				if g.set.subset(&CS::letters().not()) || *m != Wild {
					let pre = if *m == Wild { set.clone() } else { m.pre(set).unwrap() };
					if g.set.subset(&pre) {
						return Ok(true);
					}
					let a = g.set.and(&pre);
					if a.is_empty() {
						return Ok(false);
					}
					return Err(Stop::Split(vec![Refine::Set(*s, a), Refine::Set(*s, g.set.minus(&pre))]));
				}
				match m.pre(set) {
					Some(pre) => {
						if g.set.subset(&pre) {
							return Ok(true);
						}
						let a = g.set.and(&pre);
						if a.is_empty() {
							return Ok(false);
						}
						Err(Stop::Split(vec![Refine::Set(*s, a), Refine::Set(*s, g.set.minus(&pre))]))
					}
					None => {
						let im = m.image(&g.set);
						if im.and(set).is_empty() {
							return Ok(false);
						}
						if im.subset(set) {
							return Ok(true);
						}
						Err(Stop::Split(self.wild_split(*s)))
					}
				}
			}
		}
	}
	fn wild_split(&self, s: Sid) -> Vec<Refine> {
		let g = self.seg(s);
		let l = g.set.and(&CS::letters());
		let n = g.set.minus(&CS::letters());
		let mut v = vec![];
		if !n.is_empty() {
			v.push(Refine::Both(Box::new(Refine::Set(s, n)), Box::new(Refine::Wild(s, Id))));
		}
		if !l.is_empty() {
			v.push(Refine::Both(Box::new(Refine::Set(s, l.clone())), Box::new(Refine::Wild(s, Id))));
			v.push(Refine::Both(Box::new(Refine::Set(s, l)), Box::new(Refine::Wild(s, Flip))));
		}
		v
	}
	pub fn ch_eq(&self, a: &Ch, b: &Ch) -> R<bool> {
		match (a, b) {
			(Ch::Lit(x), Ch::Lit(y)) => Ok(x == y),
			(Ch::Lit(x), o) | (o, Ch::Lit(x)) => self.ch_in(o, &CS::one(*x)),
			(Ch::Src(x, m), Ch::Src(y, n)) => {
				if x == y {
					if m == n {
						return Ok(true);
					}
					if *m == Wild || *n == Wild {
						let g = self.seg(*x);
						if g.set.and(&CS::letters()).is_empty() {
							return Ok(true);
						}
						return Err(Stop::Split(self.wild_split(*x)));
					}
					// where do the two mappings agree?
					let agree = CS::ascii(|c| m.ch(c) == n.ch(c)).or(&CS::range(128, 0x10ffff));
					return self.ch_in(&Ch::Src(*x, Id), &agree);
				}
				let (gx, gy) = (self.seg(*x), self.seg(*y));
				if m.image(&gx.set).and(&n.image(&gy.set)).is_empty() {
					return Ok(false);
				}
				for f in self.facts.iter() {
					if let Fact::Ne(p, q) = f {
						if (p == x && q == y) || (p == y && q == x) {
							return Ok(false);
						}
					}
				}
				if let (Some(p), Some(q)) = (gx.set.single(), gy.set.single()) {
					if let (Some(p), Some(q)) = (m.ch(p), n.ch(q)) {
						return Ok(p == q);
					}
				}
				// finite alternatives of a small set
				for s in [x, y] {
					let g = self.seg(*s);
					if g.set.hi.is_empty() && g.set.lo.count_ones() > 1 && g.set.lo.count_ones() <= 2 {
						let c = char::from_u32(g.set.lo.trailing_zeros()).unwrap();
						return Err(Stop::Split(vec![
							Refine::Set(*s, CS::one(c)),
							Refine::Set(*s, g.set.minus(&CS::one(c))),
						]));
					}
				}
				if let Some(p) = gx.set.single() {
					if let Some(p) = m.ch(p) {
						return self.ch_in(b, &CS::one(p));
					}
				}
				if let Some(q) = gy.set.single() {
					if let Some(q) = n.ch(q) {
						return self.ch_in(a, &CS::one(q));
					}
				}
				if *m == Id && *n == Id {
					// make them the same, flipped, or different
					let both = gx.set.and(&gy.set);
					let fl = gx.set.flip().and(&gy.set).and(&CS::letters());
					let mut v = vec![];
					if !both.is_empty() {
						v.push(Refine::Both(Box::new(Refine::Set(*x, both)), Box::new(Refine::Sub(*y, vec![It::S(*x, Id)]))));
					}
					if !fl.is_empty() {
						v.push(Refine::Both(
							Box::new(Refine::Set(*x, fl.flip())),
							Box::new(Refine::Sub(*y, vec![It::S(*x, Flip)])),
						));
					}
					v.push(Refine::Ne(*x, *y));
					return Err(Stop::Split(v));
				}
				stuck("comparison of two unrelated mapped characters")
			}
		}
	}

	// ---- refinement
	fn sub(&mut self, s: Sid, items: &[It]) {
		let mut len = Lin::k(0);
		for it in items {
			len = len.add(&match it {
				It::S(s, _) | It::Many(s) => Lin::len(*s),
				_ => Lin::k(1),
			});
		}
		self.rw_all(&mut Subst { sid: s, items, len });
	}
	pub fn refine(&mut self, r: &Refine) -> bool {
		let ok = self.refine_(r);
		ok && self.consistent()
	}
	fn refine_(&mut self, r: &Refine) -> bool {
		match r {
			Refine::Opt(i, b) => {
				let o = Arc::make_mut(&mut self.opts);
				match o[*i as usize] {
					Some(x) => x == *b,
					None => {
						o[*i as usize] = Some(*b);
						true
					}
				}
			}
			Refine::Set(s, cs) => {
				let g = &mut Arc::make_mut(&mut self.segs)[*s as usize];
				g.set = g.set.and(cs);
				if g.set.is_empty() {
					if g.min > 0 {
						return false;
					}
					g.max = 0;
					self.sub(*s, &[]);
				}
				true
			}
			Refine::Len(s, a, b) => {
				let g = &mut Arc::make_mut(&mut self.segs)[*s as usize];
				g.min = g.min.max(*a);
				g.max = g.max.min(*b);
				if g.min > g.max {
					return false;
				}
				if g.max == 0 {
					self.sub(*s, &[]);
				}
				true
			}
			Refine::Front(s) | Refine::Back(s) => {
				let g = self.seg(*s).clone();
				if g.max == 0 {
					return false;
				}
				if g.max == 1 && g.chars {
					return self.refine_(&Refine::Len(*s, 1, 1));
				}
				let rest = Seg {
					min: g.min.saturating_sub(1),
					max: if g.max == INF { INF } else { g.max - 1 },
					..g.clone()
				};
				if !g.chars {
					return false;
				}
				let a = self.new_seg(Seg::one(g.set.clone(), g.origin));
				let b = self.new_seg(rest);
				let items = if matches!(r, Refine::Front(_)) {
					[It::S(a, Id), It::S(b, Id)]
				} else {
					[It::S(b, Id), It::S(a, Id)]
				};
				self.sub(*s, &items);
				true
			}
			Refine::Cut(s, l) => {
				let g = self.seg(*s).clone();
				let a = self.new_seg(Seg { min: 0, ..g.clone() });
				let b = self.new_seg(Seg { min: 0, ..g.clone() });
				let it = |x| if g.chars { It::S(x, Id) } else { It::Many(x) };
				self.sub(*s, &[it(a), it(b)]);
				let l2 = Subst { sid: *s, items: &[], len: Lin::len(a).add(&Lin::len(b)) }.lin(l);
				// the length of the first part
				Arc::make_mut(&mut self.facts).push(Fact::Lin(Lin::len(a).sub(&l2), 0, 0));
				true
			}
			Refine::Wild(s, m) => {
				self.rw_all(&mut WildRw(*s, *m));
				true
			}
			Refine::Sub(s, items) => {
				self.sub(*s, items);
				true
			}
			Refine::Lin(l, a, b) => {
				Arc::make_mut(&mut self.facts).push(Fact::Lin(l.clone(), *a, *b));
				let (lo, hi) = self.range(l);
				lo <= hi
			}
			Refine::Ne(x, y) => {
				Arc::make_mut(&mut self.facts).push(Fact::Ne(*x, *y));
				true
			}
			Refine::Poke(p, v) => self.write_ptr(p, v.clone()).is_ok(),
			Refine::Both(a, b) => self.refine_(a) && self.refine_(b),
		}
	}
	/// carries the facts about sums over to their terms
	fn propagate(&mut self) -> bool {
		const BIG: i64 = i64::MAX / 8;
		for _ in 0..4 {
			let mut todo: Vec<(Sid, i64, i64)> = vec![];
			for f in self.facts.iter() {
				let Fact::Lin(l, lo, hi) = f else { continue };
				let l = self.norm(l);
				for (s, k) in &l.t {
					if k.abs() != 1 {
						continue;
					}
					// k*s in [lo - rest, hi - rest]
					let (mut a, mut b) = (l.c, l.c);
					for (u, j) in &l.t {
						if u == s {
							continue;
						}
						let g = self.seg(*u);
						let (p, q) = (j * g.min as i64, if g.max == INF { BIG * j.signum() } else { j * g.max as i64 });
						a = (a + p.min(q)).clamp(-BIG, BIG);
						b = (b + p.max(q)).clamp(-BIG, BIG);
					}
					let (x, y) = ((*lo).max(-BIG) - b, (*hi).min(BIG) - a);
					let (x, y) = if *k == 1 { (x, y) } else { (-y, -x) };
					let g = self.seg(*s);
					let mx = if g.max == INF { BIG } else { g.max as i64 };
					if x > y || y < g.min as i64 || x > mx {
						return false;
					}
					if x > g.min as i64 || y < mx {
						todo.push((*s, x.max(g.min as i64), y.min(mx)));
					}
				}
			}
			if todo.is_empty() {
				break;
			}
			for (s, x, y) in todo {
				let g = &mut Arc::make_mut(&mut self.segs)[s as usize];
				g.min = g.min.max(x.min(INF as i64 - 1) as u32);
				if y < INF as i64 {
					g.max = g.max.min(y as u32);
				}
				if g.min > g.max {
					return false;
				}
				if g.max == 0 {
					self.sub(s, &[]);
				}
			}
		}
		true
	}
	/// drops the classes that are no longer possible
	pub fn consistent(&mut self) -> bool {
		if !self.propagate() {
			return false;
		}
		// the letters of a text that surely is one of some words
		let mut sets: Vec<(Sid, CS)> = vec![];
		for (i, f) in self.facts.iter().enumerate() {
			let Fact::Cls(items, mask) = f else { continue };
			for g in &self.facts[..i] {
				if let Fact::Cls(j, k) = g {
					if j == items && k & mask == 0 {
						return false;
					}
				}
			}
			if mask & OTHER != 0 || *mask == 0 {
				continue;
			}
			let mut lens = vec![];
			for it in items {
				match it {
					It::C(_) => lens.push(1),
					It::S(s, _) => match self.seg(*s).exact() {
						Some(n) => lens.push(n as usize),
						None => break,
					},
					_ => break,
				}
			}
			if lens.len() != items.len() {
				continue;
			}
			let total: usize = lens.iter().sum();
			let mut at = 0;
			for (it, n) in items.iter().zip(&lens) {
				if let It::S(s, _) = it {
					let mut set = CS::empty();
					for (b, w) in VOCAB.iter().enumerate() {
						let w: Vec<char> = w.chars().collect();
						if mask >> b & 1 == 1 && w.len() == total {
							for c in &w[at..at + n] {
								set = set.or(&CS::one(*c)).or(&CS::one(c.to_ascii_uppercase()));
							}
						}
					}
					if !self.seg(*s).set.subset(&set) {
						sets.push((*s, set));
					}
				}
				at += n;
			}
		}
		for (s, c) in sets {
			let g = &mut Arc::make_mut(&mut self.segs)[s as usize];
			g.set = g.set.and(&c);
			if g.set.is_empty() {
				return false;
			}
		}
		let mut change = vec![];
		for (i, f) in self.facts.iter().enumerate() {
			if let Fact::Cls(items, mask) = f {
				let m = self.narrow(items, *mask);
				if m == 0 {
					return false;
				}
				if m != *mask {
					change.push((i, m));
				}
			}
			if let Fact::Lin(l, _, _) = f {
				let (lo, hi) = self.range(l);
				if lo > hi {
					return false;
				}
			}
		}
		if !change.is_empty() {
			let f = Arc::make_mut(&mut self.facts);
			for (i, m) in change {
				if let Fact::Cls(_, x) = &mut f[i] {
					*x = m;
				}
			}
		}
		true
	}
	pub fn narrow(&self, items: &[It], mask: u32) -> u32 {
		let mut m = 0;
		for (i, w) in VOCAB.iter().enumerate() {
			if mask >> i & 1 == 1 {
				let w: Vec<char> = w.chars().collect();
				if self.can_match(items, &w) {
					m |= 1 << i;
				}
			}
		}
		if mask & OTHER != 0 {
			// impossible only when the text surely is a word
			let mut forced = true;
			let mut text = vec![];
			for it in items {
				match it {
					It::C(c) => text.push(c.to_ascii_lowercase()),
					It::S(s, _) => {
						let g = self.seg(*s);
						if g.max == 0 {
							continue;
						}
						let lo = Map::Low.image(&g.set);
						match (g.exact(), lo.single()) {
							(Some(n), Some(c)) => {
								for _ in 0..n {
									text.push(c)
								}
							}
							_ => {
								forced = false;
								break;
							}
						}
					}
					_ => {
						forced = false;
						break;
					}
				}
			}
			let is_word = forced && {
				let t: String = text.iter().collect();
				VOCAB.contains(&t.as_str())
			};
			if !is_word {
				m |= OTHER;
			}
		}
		m
	}
	fn can_match(&self, items: &[It], w: &[char]) -> bool {
		let Some(it) = items.first() else { return w.is_empty() };
		match it {
			It::C(c) => !w.is_empty() && w[0] == c.to_ascii_lowercase() && self.can_match(&items[1..], &w[1..]),
			It::S(s, _) => {
				let g = self.seg(*s);
				let lo = g.set.or(&g.set.flip());
				let mut n = 0;
				loop {
					if n as u32 >= g.min && self.can_match(&items[1..], &w[n..]) {
						return true;
					}
					if n >= w.len() || n as u32 >= g.max || !lo.has(w[n]) {
						return false;
					}
					n += 1;
				}
			}
			_ => true,
		}
	}

	// ---- places
	pub fn root(&self, b: Base) -> R<&V> {
		match b {
			Base::L(f, l) => Ok(&self.frames[f as usize].locals[l as usize]),
			Base::H(o) => match &self.heap[o as usize] {
				Some(v) => Ok(v),
				None => stuck("dangling"),
			},
		}
	}
	pub fn read_ptr(&self, p: &Ptr) -> R<V> {
		let mut cur: &V = self.root(p.base)?;
		let mut tmp: V;
		for (i, s) in p.path.iter().enumerate() {
			match (s, cur) {
				(Step::F(k), V::Agg(_, v)) => {
					cur = match v.get(*k as usize) {
						Some(x) => x,
						None => return stuck("no such field"),
					}
				}
				(Step::Cell, V::Cell(_, v)) => cur = v,
				(Step::Bx, V::Box(v)) => cur = v,
				(Step::Elem(l), V::Seq(items)) => {
					let Some(k) = self.index(items, l)? else { return stuck("element out of range") };
					match &items[k] {
						It::V(v) => cur = v,
						it => {
							if i + 1 != p.path.len() {
								return stuck("path through a character");
							}
							tmp = self.item_val(it)?;
							return Ok(std::mem::replace(&mut tmp, V::Undef));
						}
					}
				}
				(s, v) => return stuck(format!("path {:?} in {}", s, short(v))),
			}
		}
		Ok(cur.clone())
	}
	/// replaces element positions by item indices
	fn fixed(&self, p: &Ptr) -> R<Vec<(Step, usize)>> {
		let mut out = vec![];
		if !p.path.iter().any(|s| matches!(s, Step::Elem(_))) {
			return Ok(p.path.iter().map(|s| (s.clone(), 0)).collect());
		}
		let mut cur: &V = self.root(p.base)?;
		for (i, s) in p.path.iter().enumerate() {
			match (s, cur) {
				(Step::F(k), V::Agg(_, v)) if (*k as usize) < v.len() => {
					cur = &v[*k as usize];
					out.push((s.clone(), 0))
				}
				(Step::Cell, V::Cell(_, v)) => {
					cur = v;
					out.push((s.clone(), 0))
				}
				(Step::Bx, V::Box(v)) => {
					cur = v;
					out.push((s.clone(), 0))
				}
				(Step::Elem(l), V::Seq(items)) => {
					let Some(k) = self.index(items, l)? else { return stuck("element out of range") };
					out.push((s.clone(), k));
					match &items[k] {
						It::V(v) => cur = v,
						_ if i + 1 == p.path.len() => {}
						_ => return stuck("path through a character"),
					}
				}
				(s, v) => return stuck(format!("path {:?} in {}", s, short(v))),
			}
		}
		Ok(out)
	}
	pub fn write_ptr(&mut self, p: &Ptr, v: V) -> R<()> {
		let path = self.fixed(p)?;
		let mut cur: &mut V = match p.base {
			Base::L(f, l) => &mut Arc::make_mut(&mut self.frames[f as usize]).locals[l as usize],
			Base::H(o) => match &mut self.heap[o as usize] {
				Some(v) => Arc::make_mut(v),
				None => return stuck("dangling"),
			},
		};
		for (s, k) in path {
			match s {
				Step::F(i) => {
					if matches!(cur, V::Undef) {
						*cur = agg(0, vec![]);
					}
					match cur {
						V::Agg(_, vs) => {
							let vs = Arc::make_mut(vs);
							while vs.len() <= i as usize {
								vs.push(V::Undef);
							}
							cur = &mut vs[i as usize]
						}
						o => return stuck(format!("field of {}", short(o))),
					}
				}
				Step::Cell => match cur {
					V::Cell(_, x) => cur = Arc::make_mut(x),
					o => return stuck(format!("cell of {}", short(o))),
				},
				Step::Bx => match cur {
					V::Box(x) => cur = Arc::make_mut(x),
					o => return stuck(format!("box of {}", short(o))),
				},
				Step::Elem(_) => match cur {
					V::Seq(x) => {
						let x = Arc::make_mut(x);
						if matches!(x[k], It::V(_)) {
							let It::V(y) = &mut x[k] else { unreachable!() };
							cur = y;
						} else {
							x[k] = State::val_item(v);
							return Ok(());
						}
					}
					o => return stuck(format!("element of {}", short(o))),
				},
			}
		}
		*cur = v;
		Ok(())
	}
	/// a judged node: the folded part of the tree holds it
	pub fn judged(&self, o: Oid) -> bool {
		match self.heap.get(o as usize).and_then(|h| h.as_deref()) {
			Some(V::Cell(_, v)) => matches!(&**v, V::Agg(77, _)),
			_ => false,
		}
	}
	/// objects strongly reachable from the frames
	pub fn alive(&self) -> HashSet<Oid> {
		struct W<'a> {
			st: &'a State,
			seen: HashSet<Oid>,
			todo: Vec<Oid>,
		}
		impl Vis for W<'_> {
			fn oid(&mut self, o: Oid, strong: bool) {
				if (strong || self.st.judged(o)) && self.seen.insert(o) {
					self.todo.push(o);
				}
			}
		}
		let mut w = W { st: self, seen: HashSet::new(), todo: vec![] };
		self.vis_all(&mut w);
		while let Some(o) = w.todo.pop() {
			if let Some(v) = w.st.heap[o as usize].clone() {
				v.vis(&mut w, false);
			}
		}
		w.seen
	}
	pub fn strong_count(&self, o: Oid) -> usize {
		struct W(Oid, usize, Vec<Oid>);
		impl Vis for W {
			fn oid(&mut self, o: Oid, strong: bool) {
				if strong {
					if o == self.0 {
						self.1 += 1;
					}
				}
			}
		}
		let mut w = W(o, 0, vec![]);
		self.vis_all(&mut w);
		for x in self.alive() {
			if let Some(v) = &self.heap[x as usize] {
				v.vis(&mut w, false);
			}
		}
		w.1
	}
}

pub fn short(v: &V) -> String {
	let s = format!("{:?}", v);
	if s.len() > 120 {
		let mut e = 120;
		while !s.is_char_boundary(e) {
			e -= 1;
		}
		format!("{}…", &s[..e])
	} else {
		s
	}
}

pub type SidMap = HashMap<Sid, Sid>;
