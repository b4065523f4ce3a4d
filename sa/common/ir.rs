// The resolved, monomorphised program as the extractor hands it to the analyser.
use serde::{Deserialize, Serialize};

pub type TyId = usize;
pub type FnId = usize;

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Program {
	pub tys: Vec<TyInfo>,
	pub fns: Vec<Func>,
	pub statics: Vec<StaticInfo>,
	/// local types: every struct/enum the crate defines
	pub local_adts: Vec<TyId>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct StaticInfo {
	pub name: String,
	pub ty: TyId,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct TyInfo {
	pub name: String,
	pub kind: TyKind,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant {
	pub name: String,
	pub discr: i128,
	pub fields: Vec<(String, TyId)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyKind {
	Bool,
	Char,
	Int { signed: bool, bits: u32 },
	Float,
	Str,
	Never,
	Tuple(Vec<TyId>),
	Ref(TyId, bool),
	Ptr(TyId),
	Slice(TyId),
	Array(TyId, u64),
	Adt { path: String, local: bool, args: Vec<TyId>, is_enum: bool, variants: Vec<Variant> },
	Closure { def: String, body: Option<FnId>, upvars: Vec<TyId> },
	FnDef(FnId),
	FnPtr,
	Dyn(String),
	Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Func {
	/// name with its type arguments
	pub name: String,
	/// path of the definition, without type arguments
	pub path: String,
	pub krate: String,
	pub local: bool,
	pub targs: Vec<TyId>,
	pub file: String,
	pub line: usize,
	pub kind: String,
	pub ret: TyId,
	pub body: Option<Body>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Body {
	pub locals: Vec<TyId>,
	pub names: Vec<Option<String>>,
	pub arg_count: usize,
	pub spread: Option<usize>,
	pub blocks: Vec<Block>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Block {
	pub stmts: Vec<(Stmt, u32)>,
	pub term: Term,
	pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
	Assign(Place, Rv),
	SetDiscr(Place, usize),
	Live(usize),
	Dead(usize),
	Nop,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Place {
	pub local: usize,
	pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Proj {
	Deref,
	Field(usize),
	Index(usize),
	ConstIndex { offset: u64, from_end: bool },
	Subslice { from: u64, to: u64, from_end: bool },
	Downcast(usize),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Opnd {
	Copy(Place),
	Move(Place),
	Const(Cst),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Cst {
	pub ty: TyId,
	pub v: CV,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum CV {
	Bool(bool),
	Char(char),
	Int(i128),
	Str(String),
	Bytes(Vec<u8>),
	Zst,
	Fn(FnId),
	/// tuple, struct, array: element values
	Agg(usize, Vec<Cst>),
	/// reference to a constant
	Ref(Box<Cst>),
	/// reference to a slice
	Slice(Vec<Cst>),
	Static(usize),
	Opaque(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rv {
	Use(Opnd),
	Ref(Place, bool),
	Raw(Place),
	Bin(String, Opnd, Opnd),
	Checked(String, Opnd, Opnd),
	Un(String, Opnd),
	Cast(String, Opnd, TyId),
	Agg(AggK, Vec<Opnd>),
	Discr(Place),
	Len(Place),
	Repeat(Opnd, u64),
	Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AggK {
	Array(TyId),
	Tuple,
	Adt(TyId, usize, Option<usize>),
	Closure(TyId),
	RawPtr,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee {
	Fn(FnId),
	Ind(Opnd),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
	Goto(usize),
	Switch(Opnd, TyId, Vec<(u128, usize)>, usize),
	Return,
	Unreachable,
	Resume,
	Drop(Place, TyId, usize),
	Call { f: Callee, args: Vec<Opnd>, dest: Place, target: Option<usize> },
	Assert { cond: Opnd, expected: bool, msg: String, target: usize },
	Other(String),
}
