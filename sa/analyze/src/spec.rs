//! What parsing has to yield: the language, stepped together with the code over the same symbolic text.
use crate::cs::CS;
use crate::val::*;
use std::any::Any;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Grp {
	Unknown,
	Void,
	Script,
	Style,
	Title,
	Textarea,
	Svg,
	Math,
	Normal,
	Doctype,
}
impl Grp {
	pub fn mask(self) -> u32 {
		match self {
			Grp::Void => void_mask(),
			Grp::Script => word("script"),
			Grp::Style => word("style"),
			Grp::Title => word("title"),
			Grp::Textarea => word("textarea"),
			Grp::Svg => word("svg"),
			Grp::Math => word("math"),
			_ => OTHER | word("pre") | word("html") | word("id"),
		}
	}
	pub fn raw(self) -> bool {
		matches!(self, Grp::Script | Grp::Style | Grp::Title | Grp::Textarea)
	}
}

pub const ROOT: u8 = 0;
pub const DOCTYPE: u8 = 1;
pub const COMMENT: u8 = 2;
pub const TEXT: u8 = 3;
pub const SPACES: u8 = 4;
pub const TAG: u8 = 5;
pub const TAGEND: u8 = 6;
pub const CDATA: u8 = 7;

// the parse options, in the order of the input flags
pub const CASE: u32 = 0;
pub const EQKEY: u32 = 1;
pub const SELFCLOSE: u32 = 2;
pub const FIXUNCLOSED: u32 = 3;
pub const FIXEND: u32 = 4;
pub const FIXLT: u32 = 5;
pub const POPTS: [&str; 6] = [
	"case_sensitive_tagname",
	"allow_attr_key_starts_with_equal_sign",
	"allow_self_closing",
	"auto_fix_unclosed_tag",
	"auto_fix_unexpected_endtag",
	"auto_fix_unescaped_lt",
];

#[derive(Clone, Debug)]
pub struct SAttr {
	pub key: Option<Vec<It>>,
	pub val: Option<Vec<It>>,
	pub quote: Option<Ch>,
	pub id: bool,
	pub done: bool,
}
#[derive(Clone, Debug)]
pub enum AI {
	A(SAttr),
	Many(Sid),
}
#[derive(Clone, Debug)]
pub enum SM {
	Folded,
	Ins(Vec<It>, Lin),
}
#[derive(Clone, Debug)]
pub struct SMeta {
	pub name: Vec<It>,
	pub grp: Grp,
	pub void: bool,
	pub self_closed: bool,
	pub auto_fix: bool,
	pub attrs: Vec<AI>,
	pub map: Vec<SM>,
}
#[derive(Clone, Debug)]
pub struct SEnd {
	pub content: Vec<It>,
	pub begin: Option<Lin>,
	pub end: Option<Lin>,
}
#[derive(Clone, Debug)]
pub enum CI {
	N(Arc<SNode>),
	/// judged, but not yet out of the parser's sight
	Done,
	Many(Sid),
}
#[derive(Clone, Debug)]
pub struct SNode {
	pub ty: u8,
	pub begin: Lin,
	pub end: Option<Lin>,
	pub content: Option<Vec<It>>,
	pub meta: Option<SMeta>,
	pub childs: Vec<CI>,
	pub end_tag: Option<SEnd>,
	/// some option repaired it
	pub fixed: bool,
}
impl SNode {
	pub fn new(ty: u8, begin: Lin) -> SNode {
		SNode { ty, begin, end: None, content: None, meta: None, childs: vec![], end_tag: None, fixed: false }
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sub {
	Wait,
	KeyEnd,
	WaitValue,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Det {
	Comment,
	Doctype,
	Cdata,
}
impl Det {
	pub fn text(self) -> &'static str {
		match self {
			Det::Comment => "--",
			Det::Doctype => "DOCTYPE",
			Det::Cdata => "[CDATA[",
		}
	}
}

#[derive(Clone, Debug)]
pub enum M {
	/// the current node of the parser is a text that may go on
	Wait { cur: bool },
	Text { ws: bool },
	Lt { cur: bool },
	Excl,
	Detect(Det, usize, Vec<It>),
	Name(Vec<It>),
	DocName(Vec<It>),
	Tag(Sub),
	Slash(Sub),
	Key(Vec<It>),
	/// value only, of a doctype: no key
	Val(Vec<It>, Option<Ch>),
	End { text: Vec<It>, cur: bool },
	Raw(Vec<It>),
	/// text before the last two characters, and those
	Block(Det, Vec<It>, Vec<(Ch, bool)>),
	/// an error has to be reported; its place, when it is determined
	Dead(&'static str, Option<Lin>),
	/// the end of the input has been accepted
	Fin,
}

#[derive(Clone, Debug)]
pub enum IdAt {
	Stack(usize),
	LastOf(usize),
	Lost,
}

#[derive(Clone, Debug)]
pub struct Spec {
	pub m: M,
	/// the situation before the last character, for reports
	pub was: String,
	pub pos: Lin,
	pub lt: Lin,
	pub stack: Vec<SNode>,
	pub pending: bool,
	pub special: Option<usize>,
	pub ids: Vec<(Vec<It>, IdAt)>,
	pub any_id: bool,
}

#[derive(Clone)]
pub struct G(pub Arc<Spec>);

fn t_opt(w: &mut dyn Vis, l: &Option<Lin>) {
	match l {
		Some(l) => {
			w.tok(1);
			w.lin(l, false)
		}
		None => w.tok(0),
	}
}
fn t_items(w: &mut dyn Vis, v: &[It]) {
	w.tok(v.len() as u64);
	vis_items(v, w, false)
}
fn t_oitems(w: &mut dyn Vis, v: &Option<Vec<It>>) {
	match v {
		Some(v) => t_items(w, v),
		None => w.tok(99999),
	}
}
fn t_ch(w: &mut dyn Vis, c: &Ch) {
	match c {
		Ch::Lit(c) => w.tok(*c as u64),
		Ch::Src(s, m) => w.ch(*s, *m),
	}
}
impl SNode {
	fn vis(&self, w: &mut dyn Vis) {
		w.tok(self.ty as u64);
		w.tok(self.fixed as u64);
		w.lin(&self.begin, false);
		t_opt(w, &self.end);
		t_oitems(w, &self.content);
		match &self.meta {
			None => w.tok(0),
			Some(m) => {
				w.tok(1);
				t_items(w, &m.name);
				w.tok(m.grp as u64 * 8 + m.void as u64 * 4 + m.self_closed as u64 * 2 + m.auto_fix as u64);
				w.tok(m.attrs.len() as u64);
				let many: Vec<It> = m.attrs.iter().filter_map(|c| if let AI::Many(s) = c { Some(It::Many(*s)) } else { None }).collect();
				w.seq(&many);
				for a in &m.attrs {
					match a {
						AI::Many(_) => w.tok(2),
						AI::A(a) => {
							w.tok(3 + a.id as u64 * 2 + a.done as u64);
							t_oitems(w, &a.key);
							t_oitems(w, &a.val);
							match &a.quote {
								Some(c) => t_ch(w, c),
								None => w.tok(0),
							}
						}
					}
				}
				w.tok(m.map.len() as u64);
				for x in &m.map {
					match x {
						SM::Folded => w.tok(1),
						SM::Ins(k, l) => {
							w.tok(2);
							t_items(w, k);
							w.lin(l, false)
						}
					}
				}
			}
		}
		w.tok(self.childs.len() as u64);
		// neighbours of the same kind have to be seen together
		let many: Vec<It> = self.childs.iter().filter_map(|c| if let CI::Many(s) = c { Some(It::Many(*s)) } else { None }).collect();
		w.seq(&many);
		for c in &self.childs {
			match c {
				CI::Many(_) => w.tok(5),
				CI::Done => w.tok(7),
				CI::N(n) => {
					w.tok(6);
					n.vis(w)
				}
			}
		}
		match &self.end_tag {
			None => w.tok(0),
			Some(e) => {
				w.tok(1);
				t_items(w, &e.content);
				t_opt(w, &e.begin);
				t_opt(w, &e.end)
			}
		}
	}
	fn rw(&self, r: &mut dyn Rw) -> SNode {
		let o = |l: &Option<Lin>, r: &mut dyn Rw| l.as_ref().map(|l| r.lin(l));
		SNode {
			ty: self.ty,
			fixed: self.fixed,
			begin: r.lin(&self.begin),
			end: o(&self.end, r),
			content: self.content.as_ref().map(|c| rw_items(c, r)),
			meta: self.meta.as_ref().map(|m| SMeta {
				name: rw_items(&m.name, r),
				grp: m.grp,
				void: m.void,
				self_closed: m.self_closed,
				auto_fix: m.auto_fix,
				attrs: {
					let mut out = vec![];
					for a in &m.attrs {
						match a {
							AI::Many(s) => {
								let mut v = vec![];
								r.many(*s, &mut v);
								for x in &v {
									if let It::Many(s) = x {
										out.push(AI::Many(*s));
									}
								}
							}
							AI::A(a) => out.push(AI::A(SAttr {
								key: a.key.as_ref().map(|c| rw_items(c, r)),
								val: a.val.as_ref().map(|c| rw_items(c, r)),
								quote: a.quote.as_ref().map(|c| rw_ch(c, r)),
								id: a.id,
								done: a.done,
							})),
						}
					}
					out
				},
				map: m
					.map
					.iter()
					.map(|x| match x {
						SM::Folded => SM::Folded,
						SM::Ins(k, l) => SM::Ins(rw_items(k, r), r.lin(l)),
					})
					.collect(),
			}),
			childs: {
				let mut out = vec![];
				for c in &self.childs {
					match c {
						CI::Many(s) => {
							let mut v = vec![];
							r.many(*s, &mut v);
							for x in &v {
								if let It::Many(s) = x {
									out.push(CI::Many(*s));
								}
							}
						}
						CI::Done => out.push(CI::Done),
						CI::N(n) => out.push(CI::N(Arc::new(n.rw(r)))),
					}
				}
				out
			},
			end_tag: self.end_tag.as_ref().map(|e| SEnd { content: rw_items(&e.content, r), begin: o(&e.begin, r), end: o(&e.end, r) }),
		}
	}
}
fn rw_ch(c: &Ch, r: &mut dyn Rw) -> Ch {
	match c {
		Ch::Lit(_) => c.clone(),
		Ch::Src(s, m) => r.ch(*s, *m),
	}
}

impl Ghost for G {
	fn boxed(&self) -> Box<dyn Ghost> {
		Box::new(self.clone())
	}
	fn any(&self) -> &dyn Any {
		self
	}
	fn any_mut(&mut self) -> &mut dyn Any {
		self
	}
	fn rw(&self, r: &mut dyn Rw) -> Box<dyn Ghost> {
		let s = &self.0;
		let m = match &s.m {
			M::Detect(d, k, t) => M::Detect(*d, *k, rw_items(t, r)),
			M::Name(t) => M::Name(rw_items(t, r)),
			M::DocName(t) => M::DocName(rw_items(t, r)),
			M::Key(t) => M::Key(rw_items(t, r)),
			M::Val(t, q) => M::Val(rw_items(t, r), q.as_ref().map(|c| rw_ch(c, r))),
			M::End { text, cur } => M::End { text: rw_items(text, r), cur: *cur },
			M::Raw(t) => M::Raw(rw_items(t, r)),
			M::Block(d, t, l) => M::Block(*d, rw_items(t, r), l.iter().map(|(c, b)| (rw_ch(c, r), *b)).collect()),
			M::Dead(k, l) => M::Dead(k, l.as_ref().map(|l| r.lin(l))),
			m => m.clone(),
		};
		Box::new(G(Arc::new(Spec {
			m,
			was: s.was.clone(),
			pos: r.lin(&s.pos),
			lt: r.lin(&s.lt),
			stack: s.stack.iter().map(|n| n.rw(r)).collect(),
			pending: s.pending,
			special: s.special,
			ids: s.ids.iter().map(|(v, a)| (rw_items(v, r), a.clone())).collect(),
			any_id: s.any_id,
		})))
	}
	fn vis(&self, w: &mut dyn Vis) {
		let s = &self.0;
		match &s.m {
			M::Wait { cur } => w.tok(*cur as u64),
			M::Text { ws } => w.tok(2 + *ws as u64),
			M::Lt { cur } => w.tok(4 + *cur as u64),
			M::Excl => w.tok(6),
			M::Detect(d, k, t) => {
				w.tok(7);
				w.tok(*d as u64);
				w.tok(*k as u64);
				t_items(w, t)
			}
			M::Name(t) => {
				w.tok(8);
				t_items(w, t)
			}
			M::DocName(t) => {
				w.tok(9);
				t_items(w, t)
			}
			M::Tag(x) => w.tok(10 + *x as u64),
			M::Slash(x) => w.tok(15 + *x as u64),
			M::Key(t) => {
				w.tok(20);
				t_items(w, t)
			}
			M::Val(t, q) => {
				w.tok(21);
				t_items(w, t);
				match q {
					Some(c) => t_ch(w, c),
					None => w.tok(0),
				}
			}
			M::End { text, cur } => {
				w.tok(22 + *cur as u64);
				t_items(w, text)
			}
			M::Raw(t) => {
				w.tok(24);
				t_items(w, t)
			}
			M::Block(d, t, l) => {
				w.tok(25);
				w.tok(*d as u64);
				t_items(w, t);
				w.tok(l.len() as u64);
				for (c, b) in l {
					w.tok(*b as u64);
					t_ch(w, c)
				}
			}
			M::Dead(k, l) => {
				w.tok(26);
				w.tok(hash_str(k));
				t_opt(w, l)
			}
			M::Fin => w.tok(27),
		}
		w.lin(&s.pos, false);
		if self.uses_lt() {
			w.lin(&s.lt, false);
		}
		w.tok(s.stack.len() as u64);
		for n in &s.stack {
			n.vis(w);
		}
		w.tok(s.pending as u64);
		w.tok(s.special.map_or(99, |x| x as u64));
		w.tok(s.any_id as u64);
		w.tok(s.ids.len() as u64);
		for (v, a) in &s.ids {
			t_items(w, v);
			match a {
				IdAt::Stack(i) => w.tok(*i as u64),
				IdAt::LastOf(i) => w.tok(100 + *i as u64),
				IdAt::Lost => w.tok(999),
			}
		}
	}
}
impl G {
	fn uses_lt(&self) -> bool {
		matches!(self.0.m, M::Lt { .. } | M::Excl | M::Detect(..) | M::End { .. })
	}
}

pub fn spec(st: &State) -> &Spec {
	&st.ghost::<G>().0
}
pub fn spec_mut(st: &mut State) -> &mut Spec {
	Arc::make_mut(&mut st.ghost_mut::<G>().0)
}
pub fn initial() -> G {
	let mut root = SNode::new(ROOT, Lin::k(0));
	root.end = None;
	G(Arc::new(Spec {
		m: M::Wait { cur: false },
		was: String::new(),
		pos: Lin::k(0),
		lt: Lin::k(0),
		stack: vec![root],
		pending: false,
		special: None,
		ids: vec![],
		any_id: false,
	}))
}

fn cs(s: &str) -> CS {
	CS::of(s)
}
fn not(s: &str) -> CS {
	CS::of(s).not()
}

/// reads one character of the given set
pub fn read(st: &State, set: CS) -> Option<(State, Ch)> {
	let set = set.and(&st.seg(0).set);
	if set.is_empty() {
		return None;
	}
	let mut t = st.clone();
	t.note(format!("{:?}", set));
	let y = t.new_seg(Seg { set, min: 1, max: 1, origin: u32::MAX, chars: true });
	if !t.refine(&Refine::Sub(0, vec![It::S(y, Map::Id), It::S(0, Map::Id)])) {
		return None;
	}
	let was = format!("{}", t.name_of_mode());
	let s = spec_mut(&mut t);
	s.was = was;
	Some((t, Ch::Src(y, Map::Id)))
}

impl State {
	pub fn name_of_mode(&self) -> &'static str {
		let s = spec(self);
		match &s.m {
			M::Wait { .. } => "between nodes",
			M::Text { .. } => "text",
			M::Lt { .. } => "after '<'",
			M::Excl => "after '<!'",
			M::Detect(Det::Comment, ..) => "opening of a comment",
			M::Detect(Det::Doctype, ..) => "opening of a doctype",
			M::Detect(Det::Cdata, ..) => "opening of a CDATA section",
			M::Name(_) => "tag name",
			M::DocName(_) => "after 'doctype'",
			M::Tag(_) | M::Slash(_) | M::Key(_) | M::Val(..) => {
				if s.stack.last().map_or(false, |n| n.ty == DOCTYPE) {
					"inside a doctype"
				} else {
					match s.m {
						M::Slash(_) => "after '/' in a tag",
						M::Key(_) => "attribute name",
						M::Val(..) => "attribute value",
						_ => "inside a tag",
					}
				}
			}
			M::End { .. } => "end tag",
			M::Raw(_) => "raw text",
			M::Block(Det::Comment, ..) => "comment",
			M::Block(..) => "CDATA section",
			M::Dead(..) => "after an error",
			M::Fin => "end of input",
		}
	}
	/// both values of an option
	pub fn fork_opt(&self, o: u32) -> Vec<(State, bool)> {
		match self.opts[o as usize] {
			Some(b) => vec![(self.clone(), b)],
			None => [false, true]
				.iter()
				.map(|b| {
					let mut t = self.clone();
					t.refine(&Refine::Opt(o, *b));
					t.note(format!("{}{}", if *b { "+" } else { "-" }, POPTS[o as usize]));
					(t, *b)
				})
				.collect(),
		}
	}
}

fn dead(mut t: State, kind: &'static str, at: Option<Lin>) -> State {
	spec_mut(&mut t).m = M::Dead(kind, at);
	t
}
fn push(v: &[It], c: &Ch) -> Vec<It> {
	let mut v = v.to_vec();
	v.push(ch_item(c));
	v
}
impl Spec {
	pub fn top(&mut self) -> &mut SNode {
		self.stack.last_mut().unwrap()
	}
	fn last_child(&mut self) -> Option<&mut SNode> {
		match self.top().childs.last_mut() {
			Some(CI::N(n)) => Some(Arc::make_mut(n)),
			_ => None,
		}
	}
	fn add(&mut self, n: SNode) {
		self.lose_last();
		self.top().childs.push(CI::N(Arc::new(n)));
	}
	fn lose_last(&mut self) {
		let d = self.stack.len() - 1;
		for (_, a) in self.ids.iter_mut() {
			if matches!(a, IdAt::LastOf(i) if *i == d) {
				*a = IdAt::Lost;
			}
		}
	}
	fn spaces(&mut self) {
		if self.pending {
			self.pending = false;
			if let Some(n) = self.last_child() {
				if n.ty == TEXT {
					n.ty = SPACES;
				}
			}
		}
	}
	/// closes the innermost node
	fn pop(&mut self) {
		let n = self.stack.pop().unwrap();
		let d = self.stack.len();
		for (_, a) in self.ids.iter_mut() {
			match a {
				IdAt::Stack(i) if *i == d => *a = IdAt::LastOf(d - 1),
				IdAt::LastOf(i) if *i >= d => *a = IdAt::Lost,
				_ => {}
			}
		}
		if self.special.map_or(false, |x| x >= d) {
			self.special = None;
		}
		self.top().childs.push(CI::N(Arc::new(n)));
	}
	fn meta(&mut self) -> &mut SMeta {
		self.top().meta.as_mut().unwrap()
	}
	fn attr_count(&mut self) -> Lin {
		let mut l = Lin::k(0);
		for a in &self.meta().attrs {
			l = match a {
				AI::A(_) => l.plus(1),
				AI::Many(s) => l.add(&Lin::len(*s)),
			};
		}
		l
	}
	fn new_attr(&mut self, key: Option<Vec<It>>) {
		if let Some(AI::A(a)) = self.meta().attrs.last_mut() {
			a.done = true;
		}
		self.meta().attrs.push(AI::A(SAttr { key, val: None, quote: None, id: false, done: false }));
	}
	fn end_attr(&mut self) {
		if let Some(m) = self.top().meta.as_mut() {
			if let Some(AI::A(a)) = m.attrs.last_mut() {
				a.done = true;
			}
		}
	}
	fn set_key(&mut self, key: Vec<It>, id: bool) {
		let at = self.attr_count().plus(-1);
		let low = low(&key);
		let m = self.meta();
		m.map.push(SM::Ins(low, at));
		if let Some(AI::A(a)) = m.attrs.last_mut() {
			a.key = Some(key);
			a.id = id;
		}
	}
	fn set_val(&mut self, val: Vec<It>, quote: Option<Ch>) {
		let d = self.stack.len() - 1;
		let m = self.meta();
		let mut id = None;
		if let Some(AI::A(a)) = m.attrs.last_mut() {
			if a.id {
				id = Some(val.clone());
			}
			a.val = Some(val);
			a.quote = quote;
			a.done = true;
		}
		if let Some(v) = id {
			self.any_id = true;
			self.ids.push((v, IdAt::Stack(d)));
		}
	}
}
pub fn low(v: &[It]) -> Vec<It> {
	v.iter()
		.map(|i| match i {
			It::C(c) => It::C(c.to_ascii_lowercase()),
			It::S(s, m) => It::S(*s, Map::Low.after(*m)),
			o => o.clone(),
		})
		.collect()
}

/// the alternatives for the class of a name
fn classify(st: &State, name: &[It]) -> Vec<(State, Grp)> {
	let mut out = vec![];
	for (i, w) in VOCAB.iter().enumerate() {
		let g = match *w {
			"script" => Grp::Script,
			"style" => Grp::Style,
			"title" => Grp::Title,
			"textarea" => Grp::Textarea,
			"svg" => Grp::Svg,
			"math" => Grp::Math,
			_ if (1 << i) & void_mask() != 0 => Grp::Void,
			_ => continue,
		};
		if let Some(t) = as_word(st, name, w) {
			out.push((t, g));
		}
	}
	let mut t = st.clone();
	let m = t.narrow(name, Grp::Normal.mask());
	if m != 0 {
		Arc::make_mut(&mut t.facts).push(Fact::Cls(name.to_vec(), m));
		if t.consistent() {
			out.push((t, Grp::Normal));
		}
	}
	out
}
/// the text is the given word, in any case
fn as_word(st: &State, name: &[It], w: &str) -> Option<State> {
	let bit = word(w);
	if st.narrow(name, bit) == 0 {
		return None;
	}
	let mut t = st.clone();
	if let [It::S(n, Map::Id)] = name {
		if t.seg(*n).exact() != Some(1) {
			let set = t.seg(*n).set.clone();
			let mut items = vec![];
			for c in w.chars() {
				let s = CS::one(c).or(&CS::one(c.to_ascii_uppercase())).and(&set);
				if s.is_empty() {
					return None;
				}
				let x = t.new_seg(Seg { set: s, min: 1, max: 1, origin: u32::MAX, chars: true });
				items.push(It::S(x, Map::Id));
			}
			t.note(format!("name={}", w));
			if !t.refine(&Refine::Sub(*n, items.clone())) {
				return None;
			}
			Arc::make_mut(&mut t.facts).push(Fact::Cls(items, bit));
			return Some(t);
		}
	}
	t.note(format!("name={}", w));
	Arc::make_mut(&mut t.facts).push(Fact::Cls(name.to_vec(), bit));
	if !t.consistent() {
		return None;
	}
	Some(t)
}

fn name_of(st: &State) -> Vec<It> {
	match &spec(st).m {
		M::Name(t) | M::DocName(t) => t.clone(),
		_ => vec![],
	}
}
fn set_meta(t: &mut State, name: Vec<It>, g: Grp) {
	let s = spec_mut(t);
	s.top().meta = Some(SMeta {
		name,
		grp: g,
		void: g == Grp::Void,
		self_closed: false,
		auto_fix: false,
		attrs: vec![],
		map: vec![],
	});
}

/// '>' at the end of a start tag or doctype
fn tag_done(mut t: State, slash: bool) -> Vec<State> {
	let pos = spec(&t).pos.clone();
	let s = spec_mut(&mut t);
	s.end_attr();
	let ty = s.top().ty;
	if ty == DOCTYPE {
		if slash {
			s.meta().self_closed = true;
		}
		s.pop();
		s.m = M::Wait { cur: false };
		return vec![t];
	}
	let g = s.meta().grp;
	if slash {
		if g == Grp::Void || s.special.is_some() {
			s.meta().self_closed = true;
			s.pop();
			s.m = M::Wait { cur: false };
			return vec![t];
		}
		return t
			.fork_opt(SELFCLOSE)
			.into_iter()
			.map(|(mut t, b)| {
				if !b {
					return dead(t, "WrongSelfClosing", Some(pos.clone()));
				}
				let s = spec_mut(&mut t);
				s.meta().self_closed = true;
				s.pop();
				s.m = M::Wait { cur: false };
				t
			})
			.collect();
	}
	if g == Grp::Void {
		s.pop();
		s.m = M::Wait { cur: false };
	} else if g.raw() {
		s.m = M::Raw(vec![]);
	} else {
		if matches!(g, Grp::Svg | Grp::Math) && s.special.is_none() {
			s.special = Some(s.stack.len() - 1);
		}
		s.m = M::Wait { cur: false };
	}
	vec![t]
}

/// the character after the wait state of a tag
fn tag_wait(st: &State, sub: Sub, slash: bool) -> Vec<State> {
	let mut out = vec![];
	let doctype = spec(st).stack.last().unwrap().ty == DOCTYPE;
	let pos = spec(st).pos.clone();
	// quotes
	for q in ["\"", "'"] {
		if let Some((mut t, c)) = read(st, cs(q)) {
			let s = spec_mut(&mut t);
			let lit = Ch::Lit(q.chars().next().unwrap());
			if sub == Sub::WaitValue {
				s.m = M::Val(vec![], Some(lit));
			} else if doctype {
				s.new_attr(None);
				s.m = M::Val(vec![], Some(lit));
			} else {
				s.new_attr(Some(vec![]));
				s.m = M::Key(vec![ch_item(&c)]);
			}
			out.push(t);
		}
	}
	if let Some((t, _)) = read(st, cs(">")) {
		out.extend(tag_done(t, slash));
	}
	let mut other = not("\"'>=").minus(&CS::ws());
	if sub != Sub::WaitValue {
		other = other.minus(&cs("/"));
		if let Some((mut t, _)) = read(st, cs("/")) {
			spec_mut(&mut t).m = M::Slash(sub);
			out.push(t);
		}
	}
	if let Some((mut t, c)) = read(st, cs("=")) {
		match sub {
			Sub::KeyEnd => {
				spec_mut(&mut t).m = M::Tag(Sub::WaitValue);
				out.push(t);
			}
			Sub::WaitValue => {
				spec_mut(&mut t).m = M::Val(vec![ch_item(&c)], None);
				out.push(t);
			}
			Sub::Wait => {
				for (mut t, b) in t.fork_opt(EQKEY) {
					if !b {
						out.push(dead(t, "WrongTag", Some(pos.clone())));
						continue;
					}
					let s = spec_mut(&mut t);
					s.new_attr(Some(vec![]));
					s.m = M::Key(vec![ch_item(&c)]);
					out.push(t);
				}
			}
		}
	}
	if let Some((mut t, _)) = read(st, CS::ws()) {
		spec_mut(&mut t).m = if slash { M::Slash(sub) } else { M::Tag(sub) };
		out.push(t);
	}
	if let Some((mut t, c)) = read(st, other) {
		let s = spec_mut(&mut t);
		if sub == Sub::WaitValue {
			s.m = M::Val(vec![ch_item(&c)], None);
		} else {
			s.new_attr(Some(vec![]));
			s.m = M::Key(vec![ch_item(&c)]);
		}
		out.push(t);
	}
	out
}

/// the key is (or is not) `id`
fn key_done(t: State, key: &[It]) -> Vec<State> {
	let mut out = vec![];
	if let Some(mut u) = as_word(&t, key, "id") {
		// (its letters may have been told apart)
		let key = match &spec(&u).m {
			M::Key(k) => k.clone(),
			_ => key.to_vec(),
		};
		spec_mut(&mut u).set_key(key, true);
		out.push(u);
	}
	let mut u = t;
	let m = u.narrow(key, all_mask() & !word("id"));
	if m != 0 {
		Arc::make_mut(&mut u.facts).push(Fact::Cls(key.to_vec(), m));
		if u.consistent() {
			spec_mut(&mut u).set_key(key.to_vec(), false);
			out.push(u);
		}
	}
	out
}

/// splits a segment into the given parts
fn equate(t: &mut State, s: Sid, items: &[It]) -> bool {
	let g = t.seg(s).clone();
	let mut len = Lin::k(0);
	for it in items {
		match it {
			It::S(x, m) => {
				let h = t.seg(*x).clone();
				if !m.image(&h.set).subset(&g.set) {
					let pre = match m.pre(&g.set) {
						Some(p) => p,
						None => g.set.and(&g.set.flip()),
					};
					if !t.refine(&Refine::Set(*x, pre)) {
						return false;
					}
				}
				len = len.add(&Lin::len(*x));
			}
			_ => len = len.plus(1),
		}
	}
	let (lo, hi) = t.range(&len);
	if g.max != INF && lo > g.max as i64 || hi < g.min as i64 {
		return false;
	}
	if g.max != INF && hi > g.max as i64 || lo < g.min as i64 {
		let max = if g.max == INF { i64::MAX / 4 } else { g.max as i64 };
		if !t.refine(&Refine::Lin(len, g.min as i64, max)) {
			return false;
		}
	}
	t.refine(&Refine::Sub(s, items.to_vec()))
}
fn seg(t: &mut State, set: CS, min: u32, max: u32) -> Sid {
	t.new_seg(Seg { set, min, max, origin: u32::MAX, chars: true })
}
fn wild(v: &[It]) -> Vec<It> {
	v.iter()
		.map(|i| match i {
			It::S(s, _) => It::S(*s, Map::Wild),
			o => o.clone(),
		})
		.collect()
}
/// splits a text at some letter: all (before, letter, after)
fn at_letter(st: &State, v: &[It]) -> Vec<(State, Vec<It>, Sid, Vec<It>)> {
	let mut out = vec![];
	for (i, it) in v.iter().enumerate() {
		let It::S(s, Map::Id) = it else { continue };
		let g = st.seg(*s).clone();
		if g.max == 0 {
			continue;
		}
		let mut t = st.clone();
		if g.exact() == Some(1) {
			out.push((t, v[..i].to_vec(), *s, v[i + 1..].to_vec()));
			continue;
		}
		let max = if g.max == INF { INF } else { g.max - 1 };
		let p = t.new_seg(Seg { min: 0, max, ..g.clone() });
		let l = t.new_seg(Seg { min: 1, max: 1, ..g.clone() });
		let r = t.new_seg(Seg { min: 0, max, ..g.clone() });
		let items = [It::S(p, Map::Id), It::S(l, Map::Id), It::S(r, Map::Id)];
		if !equate(&mut t, *s, &items) {
			continue;
		}
		let mut a = v[..i].to_vec();
		a.push(It::S(p, Map::Id));
		let mut b = vec![It::S(r, Map::Id)];
		b.extend(v[i + 1..].to_vec());
		out.push((t, a, l, b));
	}
	out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Rel {
	Same,
	Case,
	Differ,
}
fn cat(parts: &[&[It]]) -> Vec<It> {
	parts.concat()
}
fn s1(s: Sid) -> Vec<It> {
	vec![It::S(s, Map::Id)]
}

/// how the text of an end tag relates to the name of the innermost open element
fn end_rel(st: &State) -> Vec<(State, Rel)> {
	let s = spec(st);
	let M::End { text, .. } = &s.m else { return vec![] };
	let text = text.clone();
	if s.stack.len() == 1 {
		return vec![(st.clone(), Rel::Differ)];
	}
	let name = s.stack.last().unwrap().meta.as_ref().unwrap().name.clone();
	let ws = CS::ws();
	// the parser may have told blanks from the rest
	let blank = |i: &It| matches!(i, It::S(e, _) if st.seg(*e).set.minus(&ws).is_empty());
	let solid = |i: &It| matches!(i, It::S(e, _) if st.seg(*e).set.and(&ws).is_empty());
	let some = |i: &It| matches!(i, It::S(e, _) if st.seg(*e).min > 0);
	let mut end = text.len();
	if end > 1 {
		while end > 0 && blank(&text[end - 1]) {
			end -= 1;
		}
	}
	let tail = end < text.len();
	let e = match &text[..end] {
		[] => return vec![(st.clone(), Rel::Differ)],
		[It::S(e, Map::Id)] if !tail || solid(&text[0]) => *e,
		[a, ..] if blank(a) && some(a) => return vec![(st.clone(), Rel::Differ)],
		[a, m @ .., z] if some(a) && solid(a) && some(z) && solid(z) && m.iter().any(|i| blank(i) && some(i)) => return vec![(st.clone(), Rel::Differ)],
		_ => return vec![],
	};
	let set = st.seg(e).set.clone();
	let gap = |t: &mut State| if tail { vec![] } else { s1(seg(t, CS::ws(), 0, INF)) };
	let nws = set.minus(&ws);
	let mut out = vec![];
	let mut tryit = |t: State, items: Vec<It>, ne: Option<(Sid, Sid)>, r: Rel| {
		let mut t = t;
		if !equate(&mut t, e, &items) {
			return;
		}
		if let Some((a, b)) = ne {
			if !t.refine(&Refine::Ne(a, b)) {
				return;
			}
		}
		t.note(format!("end-tag:{:?}", r));
		out.push((t, r));
	};
	// the name itself
	let mut t = st.clone();
	let w = gap(&mut t);
	tryit(t, cat(&[&name, &w]), None, Rel::Same);
	// longer
	let mut t = st.clone();
	let w = gap(&mut t);
	let b = seg(&mut t, set.clone(), 0, INF);
	let x = seg(&mut t, nws.clone(), 1, 1);
	tryit(t, cat(&[&wild(&name), &s1(b), &s1(x), &w]), None, Rel::Differ);
	for (t0, p, l, r) in at_letter(st, &name) {
		// the case of some letter
		let mut t = t0.clone();
		if t.refine(&Refine::Set(l, CS::letters())) {
			let w = gap(&mut t);
			tryit(t, cat(&[&wild(&p), &[It::S(l, Map::Flip)], &wild(&r), &w]), None, Rel::Case);
		}
		// shorter
		let mut t = t0.clone();
		let w = gap(&mut t);
		tryit(t, cat(&[&wild(&p), &w]), None, Rel::Differ);
		// another character
		let mut t = t0.clone();
		let w = gap(&mut t);
		let y = seg(&mut t, nws.clone(), 1, 1);
		tryit(t, cat(&[&wild(&p), &s1(y), &w]), Some((l, y)), Rel::Differ);
		let mut t = t0.clone();
		let w = gap(&mut t);
		let y = seg(&mut t, set.clone(), 1, 1);
		let b = seg(&mut t, set.clone(), 0, INF);
		let x = seg(&mut t, nws.clone(), 1, 1);
		tryit(t, cat(&[&wild(&p), &s1(y), &s1(b), &s1(x), &w]), Some((l, y)), Rel::Differ);
	}
	out
}

/// whether a raw text ends here: the content and the name in the end tag
fn raw_rel(st: &State) -> Vec<(State, Rel, Vec<It>, Vec<It>)> {
	let s = spec(st);
	let M::Raw(text) = &s.m else { return vec![] };
	let name = s.stack.last().unwrap().meta.as_ref().unwrap().name.clone();
	let e = match &text[..] {
		[] => return vec![(st.clone(), Rel::Differ, vec![], vec![])],
		[It::S(e, Map::Id)] => *e,
		_ => return vec![],
	};
	let set = st.seg(e).set.clone();
	let ws = CS::ws();
	let nws = set.minus(&ws);
	let mut out = vec![];
	let mut tryit = |t: State, items: Vec<It>, ne: Option<(Sid, Sid)>, r: Rel, a: Vec<It>, b: Vec<It>| {
		let mut t = t;
		if !equate(&mut t, e, &items) {
			return;
		}
		if let Some((a, b)) = ne {
			if !t.refine(&Refine::Ne(a, b)) {
				return;
			}
		}
		t.note(format!("raw-end:{:?}", r));
		out.push((t, r, a, b));
	};
	let one = |t: &mut State, c: CS| {
		let x = seg(t, c, 1, 1);
		It::S(x, Map::Id)
	};
	let lt = cs("<");
	let sl = cs("/");
	// found
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	let b = seg(&mut t, set.clone(), 0, INF);
	let (p, q) = (one(&mut t, lt.clone()), one(&mut t, sl.clone()));
	let tag = cat(&[&name, &s1(w)]);
	tryit(t, cat(&[&s1(b), &[p, q], &tag]), None, Rel::Same, s1(b), tag);
	for (t0, pr, l, r) in at_letter(st, &name) {
		let mut t = t0.clone();
		if t.refine(&Refine::Set(l, CS::letters())) {
			let w = seg(&mut t, ws.clone(), 0, INF);
			let b = seg(&mut t, set.clone(), 0, INF);
			let (p, q) = (one(&mut t, lt.clone()), one(&mut t, sl.clone()));
			let tag = cat(&[&wild(&pr), &[It::S(l, Map::Flip)], &wild(&r), &s1(w)]);
			tryit(t, cat(&[&s1(b), &[p, q], &tag]), None, Rel::Case, s1(b), tag);
		}
		// another character; after it the rest of the name
		let mut t = t0.clone();
		let w = seg(&mut t, ws.clone(), 0, INF);
		let b = seg(&mut t, set.clone(), 0, INF);
		let y = seg(&mut t, nws.clone(), 1, 1);
		tryit(t, cat(&[&s1(b), &s1(y), &wild(&r), &s1(w)]), Some((l, y)), Rel::Differ, vec![], vec![]);
		if t0.range(&t0.seq_len(&r).unwrap_or(Lin::k(0))).1 > 0 {
			let mut t = t0.clone();
			let w = seg(&mut t, ws.clone(), 0, INF);
			let b = seg(&mut t, set.clone(), 0, INF);
			let y = seg(&mut t, ws.clone(), 1, 1);
			let rl = t.seq_len(&r).unwrap_or(Lin::k(0));
			if t.refine(&Refine::Lin(rl, 1, i64::MAX / 4)) {
				tryit(t, cat(&[&s1(b), &s1(y), &wild(&r), &s1(w)]), Some((l, y)), Rel::Differ, vec![], vec![]);
			}
		}
		// too short
		let mut t = t0.clone();
		let w = seg(&mut t, ws.clone(), 0, INF);
		tryit(t, cat(&[&wild(&r), &s1(w)]), None, Rel::Differ, vec![], vec![]);
	}
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	tryit(t, cat(&[&wild(&name), &s1(w)]), None, Rel::Differ, vec![], vec![]);
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	let q = one(&mut t, sl.clone());
	tryit(t, cat(&[&[q], &wild(&name), &s1(w)]), None, Rel::Differ, vec![], vec![]);
	// nearly (a part of what is covered above): a character that is no whitespace of the language
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	let b = seg(&mut t, set.clone(), 0, INF);
	let (p, q) = (one(&mut t, lt.clone()), one(&mut t, sl.clone()));
	let y = one(&mut t, nws.minus(&CS::letters()));
	tryit(t, cat(&[&s1(b), &[p, q], &name, &[y], &s1(w)]), None, Rel::Differ, vec![], vec![]);
	// no slash, no '<'
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	let b = seg(&mut t, set.clone(), 0, INF);
	let y = one(&mut t, set.minus(&sl));
	tryit(t, cat(&[&s1(b), &[y], &wild(&name), &s1(w)]), None, Rel::Differ, vec![], vec![]);
	let mut t = st.clone();
	let w = seg(&mut t, ws.clone(), 0, INF);
	let b = seg(&mut t, set.clone(), 0, INF);
	let (y, q) = (one(&mut t, set.minus(&lt)), one(&mut t, sl));
	tryit(t, cat(&[&s1(b), &[y, q], &wild(&name), &s1(w)]), None, Rel::Differ, vec![], vec![]);
	out
}

/// every way to read the next character
pub fn step(st: &State) -> Vec<State> {
	let mut out = step_(st);
	for t in out.iter_mut() {
		let s = spec_mut(t);
		s.pos = s.pos.plus(1);
	}
	out
}
fn step_(st: &State) -> Vec<State> {
	let mut out: Vec<State> = vec![];
	let s = spec(st);
	let pos = s.pos.clone();
	match s.m.clone() {
		M::Wait { cur } => {
			if let Some((mut t, _)) = read(st, cs("<")) {
				let s = spec_mut(&mut t);
				s.lt = pos;
				s.m = M::Lt { cur };
				out.push(t);
				let pos = spec(st).pos.clone();
				for set in [CS::ws(), not("<").minus(&CS::ws())] {
					let ws = set == CS::ws();
					if let Some((mut t, c)) = read(st, set) {
						let s = spec_mut(&mut t);
						if cur {
							let n = s.last_child().unwrap();
							n.content.get_or_insert(vec![]).push(ch_item(&c));
							n.end = None;
							s.m = M::Text { ws: false };
						} else {
							let mut n = SNode::new(TEXT, pos.clone());
							n.content = Some(vec![ch_item(&c)]);
							s.add(n);
							s.m = M::Text { ws };
						}
						out.push(t);
					}
				}
			}
		}
		M::Text { ws } => {
			if let Some((mut t, _)) = read(st, cs("<")) {
				let s = spec_mut(&mut t);
				s.last_child().unwrap().end = Some(pos.clone());
				s.pending = ws;
				s.lt = pos.clone();
				s.m = M::Lt { cur: true };
				out.push(t);
			}
			let sets = if ws { vec![CS::ws(), not("<").minus(&CS::ws())] } else { vec![not("<")] };
			for (i, set) in sets.into_iter().enumerate() {
				if let Some((mut t, c)) = read(st, set) {
					let s = spec_mut(&mut t);
					s.last_child().unwrap().content.as_mut().unwrap().push(ch_item(&c));
					s.m = M::Text { ws: ws && i == 0 };
					out.push(t);
				}
			}
		}
		M::Lt { cur } => {
			let lt = s.lt.clone();
			if let Some((mut t, c)) = read(st, CS::letters()) {
				let s = spec_mut(&mut t);
				s.spaces();
				s.lose_last();
				s.stack.push(SNode::new(TAG, lt.clone()));
				s.m = M::Name(vec![ch_item(&c)]);
				out.push(t);
			}
			if let Some((mut t, _)) = read(st, cs("/")) {
				spec_mut(&mut t).m = M::End { text: vec![], cur };
				out.push(t);
			}
			if let Some((mut t, _)) = read(st, cs("!")) {
				spec_mut(&mut t).m = M::Excl;
				out.push(t);
			}
			for set in [cs("<"), not("</!").minus(&CS::letters())] {
				if let Some((t, c)) = read(st, set.clone()) {
					for (mut t, b) in t.fork_opt(FIXLT) {
						if !b {
							out.push(dead(t, "WrongTag", Some(lt.clone())));
							continue;
						}
						let s = spec_mut(&mut t);
						if !cur {
							let mut n = SNode::new(TEXT, lt.clone());
							n.content = Some(vec![]);
							s.add(n);
						}
						let again = set.has('<');
						let n = s.last_child().unwrap();
						n.fixed = true;
						n.content.as_mut().unwrap().extend(lits("&lt;"));
						if again {
							n.end = Some(pos.clone());
							s.lt = pos.clone();
							s.pending = false;
							s.m = M::Lt { cur: true };
						} else {
							n.end = None;
							n.content.as_mut().unwrap().push(ch_item(&c));
							// (whether the text so far was blank no longer matters)
							s.pending = false;
							s.m = M::Text { ws: false };
						}
						out.push(t);
					}
				}
			}
		}
		M::Excl => {
			let lt = s.lt.clone();
			if let Some((mut t, c)) = read(st, cs("-")) {
				spec_mut(&mut t).m = M::Detect(Det::Comment, 1, vec![ch_item(&c)]);
				out.push(t);
			}
			if let Some((mut t, c)) = read(st, cs("dD")) {
				spec_mut(&mut t).m = M::Detect(Det::Doctype, 1, vec![ch_item(&c)]);
				out.push(t);
			}
			if let Some((mut t, c)) = read(st, cs("[")) {
				// only below an svg or math element
				let s = spec_mut(&mut t);
				match s.special {
					Some(i) if i + 1 < s.stack.len() => {
						// a nested element of the same name is left open
						if s.stack[i].meta.as_ref().unwrap().grp == s.stack.last().unwrap().meta.as_ref().unwrap().grp {
							return out;
						}
						s.m = M::Detect(Det::Cdata, 1, vec![ch_item(&c)]);
					}
					_ => s.m = M::Dead("CommonError", Some(pos.clone())),
				}
				out.push(t);
			}
			if let Some((t, _)) = read(st, not("-dD[")) {
				out.push(dead(t, "WrongTag", Some(lt)));
			}
		}
		M::Detect(d, k, text) => {
			let want = d.text().chars().nth(k).unwrap();
			let set = CS::one(want).or(&CS::one(want.to_ascii_lowercase()));
			let lt = s.lt.clone();
			if let Some((t, _)) = read(st, set.not()) {
				out.push(dead(t, "UnrecognizedTag", Some(lt.clone())));
			}
			if let Some((mut t, c)) = read(st, set) {
				let s = spec_mut(&mut t);
				if k + 1 < d.text().len() {
					s.m = M::Detect(d, k + 1, push(&text, &c));
				} else {
					s.spaces();
					match d {
						Det::Comment | Det::Cdata => {
							let n = SNode::new(if d == Det::Comment { COMMENT } else { CDATA }, lt);
							s.add(n);
							s.m = M::Block(d, vec![], vec![]);
						}
						Det::Doctype => {
							s.lose_last();
							s.stack.push(SNode::new(DOCTYPE, lt));
							s.m = M::DocName(push(&text, &c));
						}
					}
				}
				out.push(t);
			}
		}
		M::DocName(name) => {
			if let Some((mut t, _)) = read(st, CS::ws()) {
				set_meta(&mut t, name, Grp::Doctype);
				spec_mut(&mut t).m = M::Tag(Sub::Wait);
				out.push(t);
			}
			if let Some((t, _)) = read(st, CS::ws().not()) {
				out.push(dead(t, "WrongHtmlDoctype", Some(pos)));
			}
		}
		M::Name(name) => {
			if let Some((mut t, c)) = read(st, not(">/").minus(&CS::ws())) {
				spec_mut(&mut t).m = M::Name(push(&name, &c));
				out.push(t);
			}
			for (u, g) in classify(st, &name) {
				let name = name_of(&u);
				if let Some((mut t, _)) = read(&u, cs(">")) {
					set_meta(&mut t, name.clone(), g);
					out.extend(tag_done(t, false));
				}
				if let Some((mut t, _)) = read(&u, cs("/")) {
					set_meta(&mut t, name.clone(), g);
					spec_mut(&mut t).m = M::Slash(Sub::Wait);
					out.push(t);
				}
				if let Some((mut t, _)) = read(&u, CS::ws()) {
					set_meta(&mut t, name, g);
					spec_mut(&mut t).m = M::Tag(Sub::Wait);
					out.push(t);
				}
			}
		}
		M::Tag(sub) => out = tag_wait(st, sub, false),
		M::Slash(sub) => out = tag_wait(st, sub, true),
		M::Key(key) => {
			if let Some((mut t, c)) = read(st, not("=>/").minus(&CS::ws())) {
				spec_mut(&mut t).m = M::Key(push(&key, &c));
				out.push(t);
			}
			for u in key_done(st.clone(), &key) {
				if let Some((mut t, _)) = read(&u, cs("=")) {
					spec_mut(&mut t).m = M::Tag(Sub::WaitValue);
					out.push(t);
				}
				if let Some((t, _)) = read(&u, cs(">")) {
					out.extend(tag_done(t, false));
				}
				if let Some((mut t, _)) = read(&u, cs("/")) {
					spec_mut(&mut t).m = M::Slash(Sub::Wait);
					out.push(t);
				}
				if let Some((mut t, _)) = read(&u, CS::ws()) {
					spec_mut(&mut t).m = M::Tag(Sub::KeyEnd);
					out.push(t);
				}
			}
		}
		M::Val(val, quote) => match quote {
			None => {
				if let Some((mut t, c)) = read(st, not(">").minus(&CS::ws())) {
					spec_mut(&mut t).m = M::Val(push(&val, &c), None);
					out.push(t);
				}
				for set in [cs(">"), CS::ws()] {
					if let Some((mut t, _)) = read(st, set.clone()) {
						spec_mut(&mut t).set_val(val.clone(), None);
						if set.has('>') {
							out.extend(tag_done(t, false));
						} else {
							spec_mut(&mut t).m = M::Tag(Sub::Wait);
							out.push(t);
						}
					}
				}
			}
			Some(q) => {
				let Ch::Lit(qc) = q else { return out };
				if let Some((mut t, _)) = read(st, CS::one(qc)) {
					let s = spec_mut(&mut t);
					s.set_val(val.clone(), Some(q.clone()));
					s.m = M::Tag(Sub::Wait);
					out.push(t);
				}
				if let Some((mut t, c)) = read(st, CS::one(qc).not()) {
					spec_mut(&mut t).m = M::Val(push(&val, &c), Some(q));
					out.push(t);
				}
			}
		},
		M::End { text, cur } => {
			if let Some((mut t, c)) = read(st, not(">")) {
				spec_mut(&mut t).m = M::End { text: push(&text, &c), cur };
				out.push(t);
			}
			for (u, r) in end_rel(st) {
				let pos = spec(&u).pos.clone();
				let Some((t, _)) = read(&u, cs(">")) else { continue };
				match r {
					Rel::Differ => {
						for (t, b) in t.fork_opt(FIXEND) {
							if !b {
								out.push(dead(t, "WrongEndTag", Some(pos.clone())));
								continue;
							}
							for (mut t, b) in if cur { t.fork_opt(FIXUNCLOSED) } else { vec![(t, false)] } {
								spec_mut(&mut t).m = M::Wait { cur: cur && b };
								out.push(t);
							}
						}
					}
					Rel::Case => {
						for (mut t, b) in t.fork_opt(CASE) {
							if b {
								out.push(dead(t, "WrongCaseSensitive", Some(pos.clone())));
							} else {
								close(&mut t, &pos);
								out.push(t);
							}
						}
					}
					Rel::Same => {
						let mut t = t;
						close(&mut t, &pos);
						out.push(t);
					}
				}
			}
		}
		M::Raw(text) => {
			if let Some((mut t, c)) = read(st, not(">")) {
				spec_mut(&mut t).m = M::Raw(push(&text, &c));
				out.push(t);
			}
			for (u, r, a, b) in raw_rel(st) {
				let Some((t, c)) = read(&u, cs(">")) else { continue };
				let alts = if r == Rel::Case { t.fork_opt(CASE) } else { vec![(t, r == Rel::Differ)] };
				for (mut t, more) in alts {
					let s = spec_mut(&mut t);
					if more {
						let M::Raw(text) = &s.m else { continue };
						s.m = M::Raw(push(text, &c));
					} else {
						let n = s.top();
						n.content = Some(a.clone());
						n.end_tag = Some(SEnd { content: b.clone(), begin: None, end: None });
						s.pop();
						s.m = M::Wait { cur: false };
					}
					out.push(t);
				}
			}
		}
		M::Block(d, text, last) => {
			let mark = if d == Det::Comment { '-' } else { ']' };
			for (i, set) in [CS::one(mark), CS::one('>'), CS::one(mark).or(&CS::one('>')).not()].into_iter().enumerate() {
				let Some((mut t, c)) = read(st, set) else { continue };
				let s = spec_mut(&mut t);
				if i == 1 && last.len() == 2 && last.iter().all(|x| x.1) {
					let n = s.last_child().unwrap();
					n.content = Some(text.clone());
					n.end = Some(pos.plus(1));
					s.m = M::Wait { cur: false };
				} else {
					let mut text = text.clone();
					let mut last = last.clone();
					last.push((c, i == 0));
					if last.len() > 2 {
						let (c, _) = last.remove(0);
						text.push(ch_item(&c));
					}
					s.m = M::Block(d, text, last);
				}
				out.push(t);
			}
		}
		M::Dead(..) | M::Fin => {}
	}
	out
}

/// a matching end tag
fn close(t: &mut State, pos: &Lin) {
	let s = spec_mut(t);
	let M::End { text, .. } = s.m.clone() else { return };
	let lt = s.lt.clone();
	let n = s.top();
	n.end_tag = Some(SEnd { content: text, begin: Some(lt), end: Some(pos.plus(1)) });
	let only = n.childs.len() == 1 && matches!(&n.childs[0], CI::N(c) if c.ty == TEXT);
	if only {
		s.pending = false;
	} else {
		s.spaces();
	}
	s.pop();
	s.m = M::Wait { cur: false };
}

/// the end of the input
pub fn finish(st: &State) -> Vec<State> {
	let mut t = st.clone();
	t.note("EOF");
	if !t.refine(&Refine::Sub(0, vec![])) {
		return vec![];
	}
	{
		let was = t.name_of_mode().to_string();
		spec_mut(&mut t).was = format!("{}, end of input", was);
	}
	if let M::Dead(..) = spec(&t).m {
		return vec![t];
	}
	let mut todo = vec![];
	// the unfinished tag
	let is_tag = spec(&t).stack.last().unwrap().ty == TAG;
	match spec(&t).m.clone() {
		M::Name(name) => {
			for (mut u, g) in classify(&t, &name) {
				let name = name_of(&u);
				set_meta(&mut u, name, g);
				todo.push(u);
			}
		}
		M::Key(key) if is_tag => todo.extend(key_done(t, &key)),
		M::Val(val, q) if is_tag => {
			spec_mut(&mut t).set_val(val, q);
			todo.push(t);
		}
		_ => todo.push(t),
	}
	let mut out = vec![];
	for mut t in todo {
		let s = spec_mut(&mut t);
		let in_tag = s.stack.last().unwrap().ty == TAG && matches!(s.m, M::Name(_) | M::Tag(_) | M::Slash(_) | M::Key(_) | M::Val(..));
		let mode = s.m.clone();
		let mut own = None;
		if in_tag {
			s.end_attr();
			own = Some(s.top().begin.clone());
			if s.meta().grp == Grp::Void {
				s.pop();
			}
		}
		let doctype = s.stack.last().unwrap().ty == DOCTYPE;
		let open = s.stack.len() - doctype as usize;
		let alts = if open > 1 || in_tag { t.fork_opt(FIXUNCLOSED) } else { vec![(t, true)] };
		for (mut t, fix) in alts {
			let s = spec_mut(&mut t);
			if !fix {
				let at = if open > 1 { s.stack[open - 1].begin.clone() } else { own.clone().unwrap() };
				out.push(dead(t, "UnclosedTag", Some(at)));
				continue;
			}
			match &mode {
				M::Text { ws } => {
					let pos = s.pos.clone();
					let n = s.last_child().unwrap();
					n.end = Some(pos);
					if *ws {
						n.ty = SPACES;
					}
				}
				M::Wait { .. } => {}
				_ if in_tag => {}
				M::End { .. } | M::Detect(Det::Comment, ..) | M::Detect(Det::Doctype, ..) | M::Detect(Det::Cdata, ..) | M::Lt { .. } | M::Excl => {
					let at = if let M::End { .. } = mode { Some(s.lt.clone()) } else { None };
					out.push(dead(t, "UnclosedTag", at));
					continue;
				}
				M::Block(..) => {
					let at = s.last_child().unwrap().begin.clone();
					out.push(dead(t, "UnclosedTag", Some(at)));
					continue;
				}
				_ => {
					let at = s.top().begin.clone();
					out.push(dead(t, "UnclosedTag", Some(at)));
					continue;
				}
			}
			let pos = s.pos.clone();
			while s.stack.len() > 1 {
				let n = s.top();
				n.fixed = true;
				let m = n.meta.as_mut().unwrap();
				m.auto_fix = true;
				n.end_tag = Some(SEnd { content: m.name.clone(), begin: Some(pos.clone()), end: None });
				s.pop();
			}
			s.top().end = Some(pos);
			s.m = M::Fin;
			out.push(t);
		}
	}
	out
}
