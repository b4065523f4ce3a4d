#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

#[path = "../../common/ir.rs"]
mod ir;

use ir::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{
	AggregateKind, CastKind, Mutability, Operand, PointerCoercion, ProjectionElem, Rvalue, StatementKind,
	TerminatorKind, VarDebugInfoContents,
};
use rustc_public::ty::{
	AdtKind, Allocation, ClosureKind, ConstantKind, GenericArgKind, GenericArgs, MirConst, RigidTy,
	Region, RegionKind, Ty, TyKind as RTyKind,
};
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::HashMap;
use std::ops::ControlFlow;

struct Ex {
	p: Program,
	tymap: HashMap<Ty, TyId>,
	fnmap: HashMap<String, FnId>,
	staticmap: HashMap<String, usize>,
	queue: Vec<(FnId, Instance)>,
	local: String,
}

// definitions whose bodies the analyser models itself
fn is_leaf(path: &str, krate: &str, local: &str) -> bool {
	if krate == local {
		return false;
	}
	const BODIES: &[&str] = &[
		"std::option::",
		"core::option::",
		"std::result::",
		"core::result::",
		"std::mem::",
		"core::mem::",
		"std::cmp::",
		"core::cmp::",
		"std::convert::",
		"core::convert::",
		"std::default::",
		"core::default::",
		"std::ops::",
		"core::ops::",
		"std::iter::",
		"core::iter::",
		"std::bool::",
		"core::bool::",
		"std::clone::",
		"core::clone::",
		"std::tuple::",
		"core::tuple::",
		"std::borrow::",
		"core::borrow::",
		"std::intrinsics::",
		"core::intrinsics::",
		"std::num::",
		"core::num::",
	];
	let p = path.trim_start_matches('<');
	!(BODIES.iter().any(|b| p.starts_with(b)) || (path.starts_with('<') && BODIES.iter().any(|b| path.contains(&format!(" as {}", b)))))
}

impl Ex {
	fn ty(&mut self, t: Ty) -> TyId {
		if let Some(&i) = self.tymap.get(&t) {
			return i;
		}
		let id = self.p.tys.len();
		self.tymap.insert(t, id);
		self.p.tys.push(TyInfo { name: format!("{}", t), kind: TyKind::Other("pending".into()) });
		let kind = match t.kind() {
			RTyKind::RigidTy(r) => match r {
				RigidTy::Bool => TyKind::Bool,
				RigidTy::Char => TyKind::Char,
				RigidTy::Int(i) => TyKind::Int { signed: true, bits: 8 * i.num_bytes() as u32 },
				RigidTy::Uint(i) => TyKind::Int { signed: false, bits: 8 * i.num_bytes() as u32 },
				RigidTy::Float(_) => TyKind::Float,
				RigidTy::Str => TyKind::Str,
				RigidTy::Never => TyKind::Never,
				RigidTy::Tuple(v) => TyKind::Tuple(v.iter().map(|t| self.ty(*t)).collect()),
				RigidTy::Ref(_, t, m) => TyKind::Ref(self.ty(t), format!("{:?}", m) == "Mut"),
				RigidTy::RawPtr(t, _) => TyKind::Ptr(self.ty(t)),
				RigidTy::Slice(t) => TyKind::Slice(self.ty(t)),
				RigidTy::Array(t, n) => TyKind::Array(self.ty(t), n.eval_target_usize().unwrap_or(u64::MAX)),
				RigidTy::FnPtr(_) => TyKind::FnPtr,
				RigidTy::FnDef(d, a) => match Instance::resolve(d, &a) {
					Ok(i) => TyKind::FnDef(self.func(i)),
					Err(_) => TyKind::Other(format!("fndef {}", d.name())),
				},
				RigidTy::Closure(d, a) => {
					let body = Instance::resolve_closure(d, &a, ClosureKind::FnOnce)
						.ok()
						.map(|i| self.closure_body(i));
					// the captured variables are the last type argument, a tuple
					let up = match a.0.last() {
						Some(GenericArgKind::Type(t)) => match t.kind() {
							RTyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().map(|t| self.ty(*t)).collect(),
							_ => vec![],
						},
						_ => vec![],
					};
					TyKind::Closure { def: d.name(), body, upvars: up }
				}
				RigidTy::Adt(d, a) => {
					let args: Vec<TyId> = a
						.0
						.iter()
						.filter_map(|g| match g {
							GenericArgKind::Type(t) => Some(self.ty(*t)),
							_ => None,
						})
						.collect();
					let is_enum = matches!(d.kind(), AdtKind::Enum);
					let path = d.name();
					let local = d.krate().name == self.local;
					let expand = local || !path.contains("::fmt::");
					let variants = if expand {
						d.variants()
							.iter()
							.map(|v| Variant {
								name: v.name(),
								discr: if is_enum {
									let x = d.discriminant_for_variant(v.idx()).val;
									x as i128
								} else {
									0
								},
								fields: v
									.fields()
									.iter()
									.map(|f| {
										let ft = f.ty_with_args(&a);
										(f.name.clone(), self.ty(ft))
									})
									.collect(),
							})
							.collect()
					} else {
						vec![]
					};
					TyKind::Adt { path, local, args, is_enum, variants }
				}
				RigidTy::Dynamic(..) => TyKind::Dyn(format!("{}", t)),
				o => TyKind::Other(format!("{:?}", std::mem::discriminant(&o))),
			},
			_ => TyKind::Other(format!("{}", t)),
		};
		self.p.tys[id].kind = kind;
		id
	}

	fn closure_body(&mut self, i: Instance) -> FnId {
		self.func(i)
	}

	fn func(&mut self, i: Instance) -> FnId {
		let name = format!("{}|{:?}", i.mangled_name(), i.kind);
		if let Some(&f) = self.fnmap.get(&name) {
			return f;
		}
		let id = self.p.fns.len();
		self.fnmap.insert(name, id);
		let def = i.def;
		let path = def.name();
		let krate = def.krate().name;
		let span = def.span();
		let li = span.get_lines();
		let file = span.get_filename().to_string();
		self.p.fns.push(Func {
			name: i.name(),
			path: path.clone(),
			local: krate == self.local,
			krate: krate.clone(),
			targs: vec![],
			file,
			line: li.start_line,
			kind: format!("{:?}", i.kind),
			ret: 0,
			body: None,
		});
		let targs: Vec<TyId> = i
			.args()
			.0
			.iter()
			.filter_map(|g| match g {
				GenericArgKind::Type(t) => Some(self.ty(*t)),
				_ => None,
			})
			.collect();
		self.p.fns[id].targs = targs;
		if !matches!(i.kind, InstanceKind::Intrinsic) {
			if let Ok(abi) = i.fn_abi() {
				let t = self.ty(abi.ret.ty);
				self.p.fns[id].ret = t;
			}
		}
		let is_virtual = matches!(i.kind, InstanceKind::Virtual { .. });
		if !is_virtual && i.kind != InstanceKind::Intrinsic && !is_leaf(&path, &krate, &self.local) {
			self.queue.push((id, i));
		}
		id
	}

	fn static_id(&mut self, s: rustc_public::mir::mono::StaticDef) -> usize {
		let n = s.name();
		if let Some(&x) = self.staticmap.get(&n) {
			return x;
		}
		let id = self.p.statics.len();
		self.staticmap.insert(n.clone(), id);
		let ty = self.ty(s.ty());
		self.p.statics.push(StaticInfo { name: n, ty });
		id
	}

	fn cst(&mut self, c: &MirConst) -> Cst {
		let t = c.ty();
		let ty = self.ty(t);
		let v = match c.kind() {
			ConstantKind::ZeroSized => match t.kind() {
				RTyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
					Ok(i) => CV::Fn(self.func(i)),
					Err(e) => CV::Opaque(format!("unresolved {:?}", e)),
				},
				_ => CV::Zst,
			},
			ConstantKind::Allocated(a) => self.alloc(t, a, 0),
			ConstantKind::Ty(tc) => match tc.eval_target_usize() {
				Ok(v) => CV::Int(v as i128),
				Err(_) => CV::Opaque(format!("{:?}", tc)),
			},
			k => CV::Opaque(format!("{:?}", k)),
		};
		Cst { ty, v }
	}

	fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
		let mut v: u128 = 0;
		for k in 0..n {
			let b = (*a.bytes.get(off + k)?)?;
			v |= (b as u128) << (8 * k);
		}
		Some(v)
	}

	fn alloc(&mut self, t: Ty, a: &Allocation, off: usize) -> CV {
		self.alloc_(t, a, off).unwrap_or_else(|| CV::Opaque(format!("{}", t)))
	}

	fn alloc_(&mut self, t: Ty, a: &Allocation, off: usize) -> Option<CV> {
		let r = match t.kind() {
			RTyKind::RigidTy(r) => r,
			_ => return None,
		};
		Some(match r {
			RigidTy::Bool => CV::Bool(Self::uint(a, off, 1)? != 0),
			RigidTy::Char => CV::Char(char::from_u32(Self::uint(a, off, 4)? as u32)?),
			RigidTy::Uint(u) => CV::Int(Self::uint(a, off, u.num_bytes())? as i128),
			RigidTy::Int(u) => {
				let n = u.num_bytes();
				let v = Self::uint(a, off, n)?;
				let sh = 128 - 8 * n as u32;
				CV::Int(((v << sh) as i128) >> sh)
			}
			RigidTy::Tuple(v) => {
				if v.is_empty() {
					return Some(CV::Zst);
				}
				let sh = t.layout().ok()?.shape();
				let offs = match sh.fields {
					FieldsShape::Arbitrary { offsets } => offsets,
					_ => return None,
				};
				let mut out = vec![];
				for (k, ft) in v.iter().enumerate() {
					let v = self.alloc_(*ft, a, off + offs[k].bytes())?;
					out.push(Cst { ty: self.ty(*ft), v });
				}
				CV::Agg(0, out)
			}
			RigidTy::Array(et, n) => {
				let n = n.eval_target_usize().ok()?;
				let sz = et.layout().ok()?.shape().size.bytes();
				let mut out = vec![];
				for k in 0..n as usize {
					let v = self.alloc_(et, a, off + k * sz)?;
					out.push(Cst { ty: self.ty(et), v });
				}
				CV::Agg(0, out)
			}
			RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
				let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)?;
				let inner = Self::uint(a, off, 8)? as usize;
				match GlobalAlloc::from(prov) {
					GlobalAlloc::Static(s) => CV::Static(self.static_id(s)),
					GlobalAlloc::Memory(m) => match pt.kind() {
						RTyKind::RigidTy(RigidTy::Str) => {
							let n = Self::uint(a, off + 8, 8)? as usize;
							let mut bytes = vec![];
							for k in 0..n {
								bytes.push((*m.bytes.get(inner + k)?)?);
							}
							CV::Str(String::from_utf8(bytes).ok()?)
						}
						RTyKind::RigidTy(RigidTy::Slice(et)) => {
							let n = Self::uint(a, off + 8, 8)? as usize;
							let sz = et.layout().ok()?.shape().size.bytes();
							let mut out = vec![];
							for k in 0..n {
								let v = self.alloc_(et, &m, inner + k * sz)?;
								out.push(Cst { ty: self.ty(et), v });
							}
							CV::Slice(out)
						}
						RTyKind::RigidTy(RigidTy::Dynamic(..)) => return None,
						_ => {
							let v = self.alloc(pt, &m, inner);
							CV::Ref(Box::new(Cst { ty: self.ty(pt), v }))
						}
					},
					_ => return None,
				}
			}
			RigidTy::Adt(d, args) => {
				let sh = t.layout().ok()?.shape();
				let vs = d.variants();
				let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
					VariantsShape::Single { index } => {
						let vi = vs.iter().position(|v| v.idx() == *index)?;
						let offs = match &sh.fields {
							FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(),
							_ => vec![0; vs[vi].fields().len()],
						};
						(vi, offs)
					}
					VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
						let toff = match &sh.fields {
							FieldsShape::Arbitrary { offsets } => offsets.first()?.bytes(),
							_ => 0,
						};
						let tsz = tag_size(tag)?;
						match tag_encoding {
							TagEncoding::Direct => {
								let tv = Self::uint(a, off + toff, tsz)?;
								let vi = vs.iter().position(|v| {
									let dv = d.discriminant_for_variant(v.idx()).val;
									(dv & mask(tsz)) == tv
								})?;
								(vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
							}
							TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
								let unt = vs.iter().position(|v| v.idx() == *untagged_variant)?;
								let st = vs.iter().position(|v| v.idx() == *niche_variants.start())?;
								let en = vs.iter().position(|v| v.idx() == *niche_variants.end())?;
								let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
								let vi = if has_prov {
									unt
								} else {
									let tv = Self::uint(a, off + toff, tsz)?;
									let rel = tv.wrapping_sub(*niche_start) & mask(tsz);
									if rel <= (en - st) as u128 {
										st + rel as usize
									} else {
										unt
									}
								};
								(vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
							}
						}
					}
					_ => return None,
				};
				let mut out = vec![];
				for (k, f) in vs[vi].fields().iter().enumerate() {
					let ft = f.ty_with_args(&args);
					let v = self.alloc(ft, a, off + *offs.get(k)?);
					out.push(Cst { ty: self.ty(ft), v });
				}
				CV::Agg(vi, out)
			}
			RigidTy::FnDef(d, g) => CV::Fn(self.func(Instance::resolve(d, &g).ok()?)),
			RigidTy::FnPtr(_) => {
				let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)?;
				match GlobalAlloc::from(prov) {
					GlobalAlloc::Function(i) => CV::Fn(self.func(i)),
					_ => return None,
				}
			}
			_ => return None,
		})
	}

	fn place(&mut self, p: &rustc_public::mir::Place) -> Place {
		Place {
			local: p.local,
			proj: p
				.projection
				.iter()
				.filter_map(|e| {
					Some(match e {
						ProjectionElem::Deref => Proj::Deref,
						ProjectionElem::Field(i, _) => Proj::Field(*i),
						ProjectionElem::Index(l) => Proj::Index(*l),
						ProjectionElem::ConstantIndex { offset, from_end, .. } => {
							Proj::ConstIndex { offset: *offset, from_end: *from_end }
						}
						ProjectionElem::Subslice { from, to, from_end } => {
							Proj::Subslice { from: *from, to: *to, from_end: *from_end }
						}
						ProjectionElem::Downcast(v) => Proj::Downcast(vidx(*v)),
						ProjectionElem::OpaqueCast(_) => return None,
					})
				})
				.collect(),
		}
	}

	fn opnd(&mut self, o: &Operand) -> Opnd {
		match o {
			Operand::Copy(p) => Opnd::Copy(self.place(p)),
			Operand::Move(p) => Opnd::Move(self.place(p)),
			Operand::Constant(c) => Opnd::Const(self.cst(&c.const_)),
			Operand::RuntimeChecks(_) => {
				let ty = self.ty(Ty::bool_ty());
				Opnd::Const(Cst { ty, v: CV::Bool(false) })
			}
		}
	}

	fn rv(&mut self, r: &Rvalue) -> Rv {
		match r {
			Rvalue::Use(o, _) => Rv::Use(self.opnd(o)),
			Rvalue::CopyForDeref(p) => Rv::Use(Opnd::Copy(self.place(p))),
			Rvalue::Ref(_, k, p) => {
				let m = format!("{:?}", k.to_mutable_lossy()) == "Mut";
				Rv::Ref(self.place(p), m)
			}
			Rvalue::Reborrow(_, _, p) => Rv::Use(Opnd::Copy(self.place(p))),
			Rvalue::AddressOf(_, p) => Rv::Raw(self.place(p)),
			Rvalue::BinaryOp(b, x, y) => Rv::Bin(format!("{:?}", b), self.opnd(x), self.opnd(y)),
			Rvalue::CheckedBinaryOp(b, x, y) => Rv::Checked(format!("{:?}", b), self.opnd(x), self.opnd(y)),
			Rvalue::UnaryOp(u, x) => Rv::Un(format!("{:?}", u), self.opnd(x)),
			Rvalue::Discriminant(p) => Rv::Discr(self.place(p)),
			Rvalue::Len(p) => Rv::Len(self.place(p)),
			Rvalue::Repeat(o, n) => Rv::Repeat(self.opnd(o), n.eval_target_usize().unwrap_or(u64::MAX)),
			Rvalue::Cast(k, o, t) => {
				if let CastKind::PointerCoercion(
					PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_),
				) = k
				{
					// resolve the function which the pointer stands for
					if let Operand::Constant(c) = o {
						if let RTyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
							if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
								let f = self.func(i);
								let ty = self.ty(*t);
								return Rv::Use(Opnd::Const(Cst { ty, v: CV::Fn(f) }));
							}
						}
					}
				}
				let o = self.opnd(o);
				Rv::Cast(format!("{:?}", k), o, self.ty(*t))
			}
			Rvalue::Aggregate(k, ops) => {
				let ops2: Vec<Opnd> = ops.iter().map(|o| self.opnd(o)).collect();
				let k = match k {
					AggregateKind::Array(t) => AggK::Array(self.ty(*t)),
					AggregateKind::Tuple => AggK::Tuple,
					AggregateKind::Adt(d, v, a, _, f) => AggK::Adt(self.ty(d.ty_with_args(a)), vidx(*v), *f),
					AggregateKind::Closure(d, a) => AggK::Closure(self.ty(Ty::new_closure(*d, a.clone()))),
					AggregateKind::RawPtr(..) => AggK::RawPtr,
					o => return Rv::Other(format!("{:?}", o)),
				};
				Rv::Agg(k, ops2)
			}
			o => Rv::Other(format!("{:?}", o)),
		}
	}

	fn lower(&mut self, id: FnId, i: Instance) {
		let Some(b) = i.body() else { return };
		let locals: Vec<TyId> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
		let mut names = vec![None; locals.len()];
		for v in &b.var_debug_info {
			if let VarDebugInfoContents::Place(p) = &v.value {
				if p.projection.is_empty() {
					names[p.local] = Some(v.name.clone());
				}
			}
		}
		let mut blocks = vec![];
		for bb in &b.blocks {
			let mut stmts = vec![];
			for s in &bb.statements {
				let line = s.source_info.span.get_lines().start_line as u32;
				let st = match &s.kind {
					StatementKind::Assign(p, r) => {
						let r = self.rv(r);
						Stmt::Assign(self.place(p), r)
					}
					StatementKind::SetDiscriminant { place, variant_index } => {
						Stmt::SetDiscr(self.place(place), vidx(*variant_index))
					}
					StatementKind::StorageLive(l) => Stmt::Live(*l),
					StatementKind::StorageDead(l) => Stmt::Dead(*l),
					_ => continue,
				};
				stmts.push((st, line));
			}
			let line = bb.terminator.source_info.span.get_lines().start_line as u32;
			let term = match &bb.terminator.kind {
				TerminatorKind::Goto { target } => Term::Goto(*target),
				TerminatorKind::SwitchInt { discr, targets } => {
					let t = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
					Term::Switch(self.opnd(discr), t, targets.branches().collect(), targets.otherwise())
				}
				TerminatorKind::Resume | TerminatorKind::Abort => Term::Resume,
				TerminatorKind::Return => Term::Return,
				TerminatorKind::Unreachable => Term::Unreachable,
				TerminatorKind::Drop { place, target, .. } => {
					let t = place.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
					Term::Drop(self.place(place), t, *target)
				}
				TerminatorKind::Call { func, args, destination, target, .. } => {
					let ft = func.ty(b.locals()).ok();
					let mut f = None;
					if let Some(ft) = ft {
						if let RTyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
							if let Ok(i) = Instance::resolve(d, &a) {
								f = Some(Callee::Fn(self.func(i)));
							}
						}
					}
					let f = match f {
						Some(f) => f,
						None => Callee::Ind(self.opnd(func)),
					};
					let args = args.iter().map(|a| self.opnd(a)).collect();
					Term::Call { f, args, dest: self.place(destination), target: *target }
				}
				TerminatorKind::Assert { cond, expected, msg, target, .. } => Term::Assert {
					cond: self.opnd(cond),
					expected: *expected,
					msg: msg.description().unwrap_or("assert").to_string(),
					target: *target,
				},
				TerminatorKind::InlineAsm { .. } => Term::Other("asm".into()),
			};
			blocks.push(Block { stmts, term, line });
		}
		self.p.fns[id].ret = locals[0];
		self.p.fns[id].body =
			Some(Body { arg_count: b.arg_locals().len(), spread: b.spread_arg(), locals, names, blocks });
	}
}

fn mask(n: usize) -> u128 {
	if n >= 16 {
		u128::MAX
	} else {
		(1u128 << (8 * n)) - 1
	}
}

fn tag_size(s: &rustc_public::abi::Scalar) -> Option<usize> {
	use rustc_public::abi::{Primitive, Scalar};
	let p = match s {
		Scalar::Initialized { value, .. } => value,
		Scalar::Union { value } => value,
	};
	Some(match p {
		Primitive::Int { length, .. } => length.bits() / 8,
		Primitive::Pointer(_) => 8,
		_ => return None,
	})
}

fn vidx(v: rustc_public::ty::VariantIdx) -> usize {
	use rustc_public_bridge::IndexedVal;
	v.to_index()
}

fn analysis(out: &str) -> ControlFlow<()> {
	let local = rustc_public::local_crate().name;
	let mut ex = Ex {
		p: Program::default(),
		tymap: HashMap::new(),
		fnmap: HashMap::new(),
		staticmap: HashMap::new(),
		queue: vec![],
		local,
	};
	let mut generic: Vec<CrateItem> = vec![];
	for it in rustc_public::all_local_items() {
		match it.kind() {
			ItemKind::Fn => match Instance::try_from(it) {
				Ok(i) => {
					ex.func(i);
				}
				Err(_) => generic.push(it),
			},
			ItemKind::Static => {
				if let Ok(s) = rustc_public::mir::mono::StaticDef::try_from(it) {
					ex.static_id(s);
				}
			}
			_ => {}
		}
	}
	for d in rustc_public::local_crate().adts() {
		let n = ex.ty(d.ty());
		ex.p.local_adts.push(n);
	}
	// generic functions over a path: instantiate them with &str
	let st = Ty::new_ref(Region { kind: RegionKind::ReErased }, Ty::from_rigid_kind(RigidTy::Str), Mutability::Not);
	{
		for it in &generic {
			if let RTyKind::RigidTy(RigidTy::FnDef(d, a)) = it.ty().kind() {
				let args = GenericArgs(
					a.0.iter()
						.map(|g| match g {
							GenericArgKind::Type(_) => GenericArgKind::Type(st),
							o => o.clone(),
						})
						.collect(),
				);
				if d.name().contains("parse_file") {
					if let Ok(i) = Instance::resolve(d, &args) {
						ex.func(i);
					}
				}
			}
		}
	}
	while let Some((id, i)) = ex.queue.pop() {
		ex.lower(id, i);
	}
	let f = std::fs::File::create(out).expect("create ir file");
	serde_json::to_writer(std::io::BufWriter::new(f), &ex.p).expect("write ir");
	ControlFlow::Continue(())
}

fn main() {
	// called by cargo as `extract rustc args...`
	let args: Vec<String> = std::env::args().skip(1).collect();
	let is_target = args.iter().any(|a| a == "--crate-name")
		&& args
			.iter()
			.position(|a| a == "--crate-name")
			.and_then(|p| args.get(p + 1))
			.map(|n| n == "rphtml")
			.unwrap_or(false)
		&& !args.iter().any(|a| a == "--test")
		&& args.iter().any(|a| a.ends_with("lib.rs"));
	if !is_target {
		let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("run rustc");
		std::process::exit(st.code().unwrap_or(1));
	}
	let out = std::env::var("RPSA_OUT").expect("RPSA_OUT");
	let mut rargs = args.clone();
	rargs.push("-Zmir-opt-level=0".into());
	rargs.push("-Zalways-encode-mir".into());
	let r = rustc_public::run!(&rargs, || analysis(&out));
	match r {
		Ok(_) => {}
		Err(_) => std::process::exit(1),
	}
}
