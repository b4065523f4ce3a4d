//! Canonical forms of states, their join, and the exploration loop.
use crate::exec::*;
use crate::ir::*;
use crate::models::NATIVE;
use crate::val::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::Arc;

/// what is known about the occurrences of the segments
#[derive(Default)]
struct Occ {
	/// for every segment: what follows it, with both mappings; None: something else, or the end
	next: HashMap<Sid, Vec<Option<(Sid, Map, Map)>>>,
	prev: HashMap<Sid, Vec<Option<Sid>>>,
	seqs: Vec<Vec<It>>,
	chars: HashSet<Sid>,
	lins: Vec<(Lin, bool)>,
	oids: Vec<(Oid, bool)>,
}
impl Vis for Occ {
	fn seq(&mut self, s: &[It]) {
		for i in 0..s.len() {
			if let It::S(x, m) = &s[i] {
				let nx = match s.get(i + 1) {
					Some(It::S(y, k)) => Some((*y, *m, *k)),
					_ => None,
				};
				self.next.entry(*x).or_default().push(nx);
				let pv = match i.checked_sub(1).map(|j| &s[j]) {
					Some(It::S(y, _)) => Some(*y),
					_ => None,
				};
				self.prev.entry(*x).or_default().push(pv);
			}
			if let It::Many(x) = &s[i] {
				let nx = match s.get(i + 1) {
					Some(It::Many(y)) => Some((*y, Map::Id, Map::Id)),
					_ => None,
				};
				self.next.entry(*x).or_default().push(nx);
				let pv = match i.checked_sub(1).map(|j| &s[j]) {
					Some(It::Many(y)) => Some(*y),
					_ => None,
				};
				self.prev.entry(*x).or_default().push(pv);
			}
		}
		if s.iter().any(|i| matches!(i, It::S(..) | It::Many(_))) {
			self.seqs.push(s.to_vec());
		}
	}
	fn ch(&mut self, s: Sid, _m: Map) {
		self.chars.insert(s);
	}
	fn lin(&mut self, l: &Lin, local: bool) {
		self.lins.push((l.clone(), local));
	}
	fn oid(&mut self, o: Oid, strong: bool) {
		self.oids.push((o, strong));
	}
}

fn facts_vis(st: &State, w: &mut dyn Vis) {
	for f in st.facts.iter() {
		match f {
			Fact::Cls(i, _) => w.seq(i),
			Fact::Ne(a, b) => {
				w.ch(*a, Map::Id);
				w.ch(*b, Map::Id)
			}
			Fact::Lin(..) => {}
		}
	}
}

/// sets the locals nobody will read to Undef
pub fn clean(pg: &Prog, st: &mut State) {
	struct W(Vec<(u32, u32)>);
	impl Vis for W {
		fn local(&mut self, f: u32, l: u32) {
			self.0.push((f, l))
		}
	}
	let n = st.frames.len();
	let mut need: Vec<Vec<bool>> = vec![];
	for i in 0..n {
		let fr = &st.frames[i];
		if fr.f == HARNESS || fr.nat.is_some() {
			need.push(vec![true; fr.locals.len()]);
			continue;
		}
		let info = pg.info(fr.f);
		let b = pg.body(fr.f);
		let mut l = if i + 1 == n {
			info.live[fr.bb as usize].clone()
		} else {
			match &b.blocks[fr.bb as usize].term {
				Term::Call { dest, target: Some(t), .. } => {
					let mut l = info.live[*t].clone();
					if dest.proj.is_empty() {
						l[dest.local] = false;
					} else {
						l[dest.local] = true;
					}
					l
				}
				_ => vec![false; fr.locals.len()],
			}
		};
		l.resize(fr.locals.len(), false);
		need.push(l);
	}
	let mut todo: Vec<(usize, usize)> = vec![];
	for (i, l) in need.iter().enumerate() {
		for (j, b) in l.iter().enumerate() {
			if *b {
				todo.push((i, j));
			}
		}
	}
	let mut w = W(vec![]);
	for i in 0..n {
		if st.frames[i].nat.is_some() {
			st.vis_frame(i, &mut w);
		}
	}
	for h in st.heap.iter().flatten() {
		h.vis(&mut w, false);
	}
	loop {
		for (f, l) in std::mem::take(&mut w.0) {
			let (f, l) = (f as usize, l as usize);
			if f < n && l < need[f].len() && !need[f][l] {
				need[f][l] = true;
				todo.push((f, l));
			}
		}
		let Some((f, l)) = todo.pop() else { break };
		st.frames[f].locals[l].vis(&mut w, true);
	}
	for i in 0..n {
		let dirty = st.frames[i].locals.iter().enumerate().any(|(j, v)| !need[i][j] && !v.is_undef());
		if dirty {
			let fr = Arc::make_mut(&mut st.frames[i]);
			for (j, v) in fr.locals.iter_mut().enumerate() {
				if !need[i][j] {
					*v = V::Undef;
				}
			}
		}
	}
}

struct Merge {
	/// segment -> (its chain, position); chain -> new segment
	of: HashMap<Sid, (usize, usize)>,
	chains: Vec<(Vec<Sid>, Sid)>,
	exact: HashMap<Sid, i64>,
}
impl Rw for Merge {
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		match self.of.get(&s) {
			None => out.push(It::S(s, m)),
			Some((c, 0)) => out.push(It::S(self.chains[*c].1, m)),
			Some((c, _)) => {
				// continues the piece just written
				if let Some(It::S(x, k)) = out.last_mut() {
					if *x == self.chains[*c].1 && *k != m {
						*k = Map::Wild;
					}
				}
			}
		}
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		match self.of.get(&s) {
			None => out.push(It::Many(s)),
			Some((c, 0)) => out.push(It::Many(self.chains[*c].1)),
			Some(_) => {}
		}
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		Ch::Src(s, m)
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		if l.t.iter().all(|t| !self.of.contains_key(&t.0)) {
			return l.clone();
		}
		let mut out = Lin::k(l.c);
		let mut done: HashMap<usize, i64> = HashMap::new();
		for (s, k) in &l.t {
			match self.of.get(s) {
				None => out = out.addk(&Lin::len(*s), *k),
				Some((c, _)) => {
					if let Some(e) = self.exact.get(s) {
						out.c += k * e;
					} else {
						done.insert(*c, *k);
					}
				}
			}
		}
		for (c, k) in done {
			let (ch, new) = &self.chains[c];
			out = out.addk(&Lin::len(*new), k);
			for s in ch {
				if let Some(e) = self.exact.get(s) {
					out.c -= k * e;
				}
			}
		}
		out
	}
}

/// merges neighbouring segments nobody tells apart; `main`: whatever their origin
pub fn merge(st: &mut State, main: bool) {
	for _ in 0..8 {
		let mut o = Occ::default();
		st.vis_all(&mut o);
		for h in st.heap.iter().flatten() {
			h.vis(&mut o, false);
		}
		st.ghost.vis(&mut o);
		facts_vis(st, &mut o);
		// positions at which some number points
		let mut cuts: HashSet<Lin> = HashSet::new();
		for (l, local) in &o.lins {
			let l = st.norm(l);
			if *local || main || !l.t.is_empty() {
				cuts.insert(l);
			}
		}
		let mut coef: Vec<Lin> = o.lins.iter().map(|(l, _)| st.norm(l)).collect();
		for f in st.facts.iter() {
			if let Fact::Lin(l, _, _) = f {
				coef.push(st.norm(l));
			}
		}
		let mut cut: HashSet<(Sid, Sid)> = HashSet::new();
		for s in &o.seqs {
			// between two characters of the input, numbers point into the input
			if main && !s.iter().any(|i| matches!(i, It::S(0, _))) {
				continue;
			}
			let mut pos = Lin::k(0);
			for i in 0..s.len() {
				if i > 0 {
					let ids = match (&s[i - 1], &s[i]) {
						(It::S(a, _), It::S(b, _)) => Some((*a, *b)),
						(It::Many(a), It::Many(b)) => Some((*a, *b)),
						_ => None,
					};
					if let Some(k) = ids {
						if cuts.contains(&pos) {
							cut.insert(k);
						}
					}
				}
				match st.it_len(&s[i]) {
					Ok(l) => pos = st.norm(&pos.add(&l)),
					Err(_) => break,
				}
			}
		}
		// the letters of a name that may still turn out to be one of the words
		{
			for f in st.facts.iter() {
				if let Fact::Cls(i, m) = f {
					if if main { m.count_ones() == 1 && m & OTHER == 0 } else { m.count_ones() > 1 || m & OTHER != 0 } {
						for w in i.windows(2) {
							if let (It::S(a, _), It::S(b, _)) = (&w[0], &w[1]) {
								cut.insert((*a, *b));
							}
						}
					}
				}
			}
		}
		// candidate pairs
		let mut nxt: HashMap<Sid, Sid> = HashMap::new();
		let mut prv: HashSet<Sid> = HashSet::new();
		let mut ids: Vec<Sid> = o.next.keys().copied().collect();
		ids.sort();
		for a in ids {
			if a == 0 || o.chars.contains(&a) {
				continue;
			}
			let occ = &o.next[&a];
			let Some((b, _, _)) = occ[0] else { continue };
			if b == 0 || b == a || o.chars.contains(&b) || cut.contains(&(a, b)) {
				continue;
			}
			if !occ.iter().all(|x| matches!(x, Some((y, _, _)) if *y == b)) {
				continue;
			}
			if !o.prev[&b].iter().all(|x| *x == Some(a)) {
				continue;
			}
			let (ga, gb) = (st.seg(a), st.seg(b));
			if !main && ga.origin != gb.origin {
				continue;
			}
			let mut ne: HashSet<(Map, Map)> = HashSet::new();
			let mut ok = true;
			for x in occ.iter().flatten() {
				let (p, q) = (x.1, x.2);
				if p != q || p == Map::Wild {
					ne.insert((p, q));
					let w = |m| matches!(m, Map::Id | Map::Flip | Map::Wild);
					ok &= w(p) && w(q);
				}
			}
			if !ok || ne.len() > 1 {
				continue;
			}
			if ga.exact().is_none() && gb.exact().is_none() && coef.iter().any(|l| l.coef(a) != l.coef(b)) {
				continue;
			}
			if prv.contains(&b) {
				continue;
			}
			nxt.insert(a, b);
			prv.insert(b);
		}
		if nxt.is_empty() {
			return;
		}
		// pairs whose maps differ are merged alone
		let mut m = Merge { of: HashMap::new(), chains: vec![], exact: HashMap::new() };
		let mut starts: Vec<Sid> = nxt.keys().copied().filter(|a| !prv.contains(a)).collect();
		starts.sort();
		if starts.is_empty() {
			return;
		}
		for a in starts {
			let mut ch = vec![a];
			let mut x = a;
			let mut mixed = false;
			while let Some(y) = nxt.get(&x) {
				let plain = o.next[&x].iter().flatten().all(|t| t.1 == t.2);
				if !plain {
					if mixed {
						break;
					}
					mixed = true;
				}
				// numbers must treat all parts alike
				let open = ch.iter().find(|s| st.seg(**s).exact().is_none());
				if let Some(s) = open {
					if st.seg(*y).exact().is_none() && coef.iter().any(|l| l.coef(*s) != l.coef(*y)) {
						break;
					}
				}
				ch.push(*y);
				x = *y;
				if mixed {
					break;
				}
			}
			if ch.len() < 2 {
				continue;
			}
			let mut g = st.seg(ch[0]).clone();
			for s in &ch[1..] {
				let h = st.seg(*s);
				g.set = g.set.or(&h.set);
				g.min += h.min;
				g.max = if g.max == INF || h.max == INF { INF } else { g.max + h.max };
			}
			for (i, s) in ch.iter().enumerate() {
				m.of.insert(*s, (m.chains.len(), i));
				if let Some(e) = st.seg(*s).exact() {
					m.exact.insert(*s, e);
				}
			}
			let new = st.new_seg(g);
			m.chains.push((ch, new));
		}
		if m.chains.is_empty() {
			return;
		}
		// mixed maps: a piece with equal maps in one place and different ones elsewhere
		st.rw_all(&mut m);
	}
}

struct Renum {
	s: HashMap<Sid, Sid>,
	o: HashMap<Oid, Oid>,
}
impl Rw for Renum {
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		out.push(It::S(self.s[&s], m))
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		out.push(It::Many(self.s[&s]))
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		Ch::Src(self.s[&s], m)
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		let mut t: Vec<(Sid, i64)> = l.t.iter().map(|(s, k)| (self.s[s], *k)).collect();
		t.sort();
		Lin { c: l.c, t }
	}
	fn oid(&mut self, o: Oid) -> Oid {
		self.o.get(&o).copied().unwrap_or(0)
	}
}

struct Num {
	s: HashMap<Sid, Sid>,
	order: Vec<Sid>,
	o: HashMap<Oid, Oid>,
	oorder: Vec<Oid>,
	held: HashSet<Oid>,
	lins: Vec<Lin>,
}
impl Num {
	fn sid(&mut self, s: Sid) {
		if !self.s.contains_key(&s) {
			self.s.insert(s, self.order.len() as Sid);
			self.order.push(s);
		}
	}
}
impl Vis for Num {
	fn seq(&mut self, s: &[It]) {
		for i in s {
			if let It::S(x, _) | It::Many(x) = i {
				self.sid(*x);
			}
		}
	}
	fn ch(&mut self, s: Sid, _: Map) {
		self.sid(s)
	}
	fn lin(&mut self, l: &Lin, _: bool) {
		if !l.t.is_empty() {
			self.lins.push(l.clone());
		}
	}
	fn oid(&mut self, o: Oid, strong: bool) {
		if (strong || self.held.contains(&o)) && !self.o.contains_key(&o) {
			self.oorder.push(o);
			self.o.insert(o, self.oorder.len() as Oid);
		}
	}
}

/// renumbers objects and segments by their first occurrence; drops what is unreachable
pub fn renumber(st: &mut State) {
	let held = (0..st.heap.len() as Oid).filter(|o| st.judged(*o)).collect();
	let mut n = Num { s: HashMap::new(), order: vec![], o: HashMap::new(), oorder: vec![], lins: vec![], held };
	n.sid(0);
	st.vis_all(&mut n);
	let mut i = 0;
	while i < n.oorder.len() {
		let o = n.oorder[i];
		i += 1;
		if let Some(v) = st.heap[o as usize].clone() {
			v.vis(&mut n, false);
		}
	}
	st.ghost.vis(&mut n);
	let ls = std::mem::take(&mut n.lins);
	for l in ls {
		for (s, _) in &l.t {
			n.sid(*s);
		}
	}
	// facts about what is gone are dropped
	let facts: Vec<Fact> = st
		.facts
		.iter()
		.filter(|f| match f {
			Fact::Lin(l, _, _) => l.t.len() > 1 && l.t.iter().all(|t| n.s.contains_key(&t.0)),
			Fact::Ne(a, b) => n.s.contains_key(a) && n.s.contains_key(b),
			Fact::Cls(i, _) => i.iter().all(|x| match x {
				It::S(s, _) => n.s.contains_key(s),
				_ => true,
			}),
		})
		.cloned()
		.collect();
	st.facts = Arc::new(facts);
	let heap = n.oorder.iter().map(|o| st.heap[*o as usize].clone()).collect::<Vec<_>>();
	st.heap = std::iter::once(None).chain(heap).collect();
	// (the references still carry the old numbers)
	let segs = n.order.iter().map(|s| st.segs[*s as usize].clone()).collect::<Vec<_>>();
	let mut r = Renum { s: n.s, o: n.o };
	st.rw_all(&mut r);
	st.segs = Arc::new(segs);
}

struct Toks<'a> {
	st: &'a State,
	t: Vec<u64>,
}
impl Vis for Toks<'_> {
	fn tok(&mut self, t: u64) {
		self.t.push(t)
	}
	fn seq(&mut self, s: &[It]) {
		for i in s {
			match i {
				It::S(x, m) => {
					self.t.push(40 + *m as u64);
					self.t.push(*x as u64)
				}
				It::Many(x) => {
					self.t.push(50);
					self.t.push(*x as u64)
				}
				_ => {}
			}
		}
	}
	fn ch(&mut self, s: Sid, m: Map) {
		self.t.push(60 + m as u64);
		self.t.push(s as u64)
	}
	fn lin(&mut self, _: &Lin, _: bool) {
		self.t.push(70)
	}
	fn oid(&mut self, o: Oid, strong: bool) {
		self.t.push(80 + strong as u64);
		self.t.push(o as u64)
	}
}
pub fn key(st: &State) -> Vec<u64> {
	let mut t = Toks { st, t: Vec::with_capacity(512) };
	t.st.vis_all(&mut t);
	for h in t.st.heap.iter() {
		match h {
			Some(v) => v.vis(&mut t, false),
			None => t.t.push(0),
		}
	}
	st.ghost.vis(&mut t);
	t.t.push(st.segs.len() as u64);
	t.t.push(st.lossy as u64);
	t.t
}

/// the input with pieces of its own in place of those that only resemble another one
struct Blur {
	old: Vec<It>,
	new: Vec<It>,
	at: Vec<(Lin, Lin)>,
	pairs: Vec<(Sid, Map, Sid)>,
	norm: State,
}
impl Rw for Blur {
	fn whole(&mut self, v: &[It]) -> Option<Vec<It>> {
		if v == &self.old[..] {
			Some(self.new.clone())
		} else {
			None
		}
	}
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		match self.pairs.iter().find(|p| p.0 == s && p.1 == m) {
			Some(p) => out.push(It::S(p.2, Map::Id)),
			None => out.push(It::S(s, m)),
		}
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		out.push(It::Many(s))
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		match self.pairs.iter().find(|p| p.0 == s && p.1 == m) {
			Some(p) => Ch::Src(p.2, Map::Id),
			None => Ch::Src(s, m),
		}
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		let n = self.norm.norm(l);
		if n.t.is_empty() {
			return l.clone();
		}
		match self.at.iter().find(|a| a.0 == n) {
			Some(a) => a.1.clone(),
			None => l.clone(),
		}
	}
}
/// a part of the input that is known to resemble an earlier part, but is of no further use
pub fn blur(st: &mut State, all: bool) {
	let mut o = Occ::default();
	st.vis_all(&mut o);
	for h in st.heap.iter().flatten() {
		h.vis(&mut o, false);
	}
	let mut inputs: Vec<Vec<It>> = o.seqs.iter().filter(|s| s.len() > 1 && s.iter().any(|i| matches!(i, It::S(0, _)))).cloned().collect();
	inputs.sort_by_key(|s| s.len());
	inputs.dedup();
	if inputs.len() != 1 {
		return;
	}
	let old = inputs.pop().unwrap();
	let mut seen: HashSet<Sid> = HashSet::new();
	let mut which = vec![];
	for (k, i) in old.iter().enumerate() {
		if let It::S(s, m) = i {
			let once = *m == Map::Wild && old.iter().filter(|j| *j == i).count() == 1;
			if *s != 0 && (once || all && (*m != Map::Id || !seen.insert(*s))) {
				which.push(k);
			}
		}
	}
	if which.is_empty() {
		return;
	}
	// no other place of the input may coincide
	let before = st.clone();
	let mut new = old.clone();
	let mut pairs = vec![];
	for k in which {
		if let It::S(s, m) = &old[k] {
			let g = st.seg(*s).clone();
			let y = st.new_seg(Seg { set: m.image(&g.set), min: g.min, max: g.max, origin: u32::MAX, chars: true });
			new[k] = It::S(y, Map::Id);
			if *m == Map::Wild && old.iter().filter(|j| **j == old[k]).count() == 1 {
				pairs.push((*s, *m, y));
			}
		}
	}
	let mut at = vec![];
	let (mut p, mut q) = (Lin::k(0), Lin::k(0));
	for (a, b) in old.iter().zip(&new) {
		if let (It::S(x, _), It::S(y, _)) = (a, b) {
			p = before.norm(&p.add(&Lin::len(*x)));
			q = q.add(&Lin::len(*y));
			if p != q && !at.iter().any(|t: &(Lin, Lin)| t.0 == p) {
				at.push((p.clone(), q.clone()));
			}
		} else {
			p = before.norm(&p.plus(1));
			q = q.plus(1);
		}
	}
	let mut r = Blur { old, new, at, pairs, norm: before };
	let facts = st.facts.clone();
	st.facts = Arc::new(vec![]);
	st.rw_all(&mut r);
	st.facts = facts;
}

/// what is known about a piece of the input is of no use when only the input itself contains it
fn drop_facts(st: &mut State) {
	if !st.facts.iter().any(|f| matches!(f, Fact::Cls(..) | Fact::Ne(..))) {
		return;
	}
	let mut o = Occ::default();
	st.vis_all(&mut o);
	for h in st.heap.iter().flatten() {
		h.vis(&mut o, false);
	}
	st.ghost.vis(&mut o);
	let used: HashSet<Sid> = o
		.seqs
		.iter()
		.filter(|s| !s.iter().any(|i| matches!(i, It::S(0, _))))
		.flat_map(|s| s.iter().filter_map(|i| if let It::S(x, _) = i { Some(*x) } else { None }))
		.chain(o.chars.iter().copied())
		.collect();
	let facts: Vec<Fact> = st
		.facts
		.iter()
		.filter(|f| match f {
			Fact::Cls(i, _) => i.iter().all(|x| match x {
				It::S(s, _) => used.contains(s),
				_ => true,
			}),
			Fact::Ne(a, b) => used.contains(a) && used.contains(b),
			_ => true,
		})
		.cloned()
		.collect();
	st.facts = Arc::new(facts);
}

pub fn canon(pg: &Prog, st: &mut State, main: bool) -> Vec<u64> {
	clean(pg, st);
	// objects only the dead locals held
	let alive = st.alive();
	for i in 0..st.heap.len() {
		if st.heap[i].is_some() && !alive.contains(&(i as Oid)) {
			st.heap[i] = None;
		}
	}
	if main {
		drop_facts(st);
	}
	merge(st, main);
	renumber(st);
	key(st)
}

/// collects or replaces the numbers of a state in a fixed order
struct Lins {
	out: Vec<Lin>,
	with: Option<Vec<Lin>>,
	i: usize,
}
impl Rw for Lins {
	fn item(&mut self, s: Sid, m: Map, out: &mut Vec<It>) {
		out.push(It::S(s, m))
	}
	fn many(&mut self, s: Sid, out: &mut Vec<It>) {
		out.push(It::Many(s))
	}
	fn ch(&mut self, s: Sid, m: Map) -> Ch {
		Ch::Src(s, m)
	}
	fn lin(&mut self, l: &Lin) -> Lin {
		let r = match &self.with {
			Some(w) => w[self.i].clone(),
			None => {
				self.out.push(l.clone());
				l.clone()
			}
		};
		self.i += 1;
		r
	}
}
pub fn lins_of(st: &State) -> Vec<Lin> {
	let mut t = st.clone();
	t.facts = Arc::new(vec![]);
	let mut l = Lins { out: vec![], with: None, i: 0 };
	t.rw_all(&mut l);
	l.out
}

/// an expression that yields `x` in `a` and `y` in `b`
fn anti(a: &State, b: &State, x: &Lin, y: &Lin, order: &[Vec<Sid>]) -> Option<Lin> {
	let (x, y) = (a.norm(x), b.norm(y));
	let mut e = Lin::k(0);
	let n = a.segs.len().min(b.segs.len());
	if !x.t.is_empty() && b.norm(&x) == y {
		return Some(x);
	}
	// a place in one of the sequences
	let mut found: [Option<Lin>; 2] = [None, None];
	for seq in order {
		let kind = seq.first().map_or(0, |s| a.segs.get(*s as usize).map_or(0, |g| g.chars as usize));
		if found[kind].is_some() {
			continue;
		}
		let (mut p, mut q, mut r) = (Lin::k(0), Lin::k(0), Lin::k(0));
		let mut hit = p == x && q == y;
		for s in seq.iter().take_while(|s| (**s as usize) < n) {
			if hit {
				break;
			}
			p = a.norm(&p.add(&Lin::len(*s)));
			q = b.norm(&q.add(&Lin::len(*s)));
			r = match (a.seg(*s).exact(), b.seg(*s).exact()) {
				(Some(v), Some(w)) if v == w => r.plus(v),
				_ => r.add(&Lin::len(*s)),
			};
			hit = p == x && q == y;
		}
		if hit {
			found[kind] = Some(r);
		}
	}
	match found {
		[Some(p), Some(q)] if p != q => return None,
		[Some(p), _] | [_, Some(p)] => return Some(p),
		_ => {}
	}
	let mut free: Vec<(Sid, i64, i64)> = vec![];
	let (mut cx, mut cy) = (x.c, y.c);
	for s in 0..n as Sid {
		let (p, q) = (a.seg(s).exact(), b.seg(s).exact());
		let (kx, ky) = (x.coef(s), y.coef(s));
		match (p, q) {
			(None, None) => {
				if kx != ky {
					return None;
				}
				e = e.addk(&Lin::len(s), kx);
			}
			(Some(v), None) => {
				e = e.addk(&Lin::len(s), ky);
				cx -= ky * v;
			}
			(None, Some(v)) => {
				e = e.addk(&Lin::len(s), kx);
				cy -= kx * v;
			}
			(Some(v), Some(w)) => {
				if v != w {
					free.push((s, v, w));
				}
			}
		}
	}
	if x.t.iter().any(|t| t.0 as usize >= n) || y.t.iter().any(|t| t.0 as usize >= n) {
		return None;
	}
	let d = cx - cy;
	if d == 0 {
		e.c = cx;
		return Some(e);
	}
	// sum of the free segments in a run of some sequence
	for seq in order {
		for i in 0..seq.len() {
			let (mut sx, mut sy) = (0, 0);
			let mut r = Lin::k(0);
			for s in &seq[i..] {
				if let Some(f) = free.iter().find(|f| f.0 == *s) {
					sx += f.1;
					sy += f.2;
					r = r.addk(&Lin::len(*s), 1);
					if sx - sy == d {
						let mut e = e.add(&r);
						e.c = cx - sx;
						return Some(e);
					}
				}
			}
		}
	}
	for (s, p, q) in &free {
		if (p - q) != 0 && d % (p - q) == 0 {
			let k = d / (p - q);
			if k.abs() <= 1 {
				let mut e = e.addk(&Lin::len(*s), k);
				e.c = cx - k * p;
				return Some(e);
			}
		}
	}
	None
}

fn seqs_of(st: &State) -> Vec<Vec<Sid>> {
	let mut o = Occ::default();
	st.vis_all(&mut o);
	for h in st.heap.iter().flatten() {
		h.vis(&mut o, false);
	}
	st.ghost.vis(&mut o);
	let mut v: Vec<Vec<Sid>> = o
		.seqs
		.iter()
		.map(|s| s.iter().filter_map(|i| if let It::S(x, _) | It::Many(x) = i { Some(*x) } else { None }).collect())
		.collect();
	v.sort_by_key(|s: &Vec<Sid>| usize::MAX - s.len());
	v.dedup();
	v
}

/// the join of two states with the same skeleton; None when their numbers do not fit
/// (`force`: forget such numbers); the flag: `a` already covers `b`
pub fn join(a: &State, b: &State, visits: u32, force: bool) -> Option<(State, bool)> {
	let (la, lb) = (lins_of(a), lins_of(b));
	if la.len() != lb.len() {
		if std::env::var("RPSA_JOIN").is_ok() {
			println!("LEN {} {}", a.trail_text(), b.trail_text());
		}
		return None;
	}
	let mut fresh: Vec<(Lin, Lin, Lin)> = vec![];
	let mut out = vec![];
	let mut same = true;
	let mut order = None;
	let mut t = a.clone();
	t.lossy |= b.lossy;
	let n = a.segs.len();
	if b.segs.len() != n {
		return None;
	}
	let even = (0..n).all(|i| a.segs[i].exact() == b.segs[i].exact());
	for (x, y) in la.iter().zip(&lb) {
		if x == y && (even || x.t.is_empty() && x.c == 0) {
			out.push(x.clone());
			continue;
		}
		let ord = order.get_or_insert_with(|| seqs_of(a));
		match anti(a, b, x, y, ord) {
			Some(e) => {
				if a.norm(&e) != a.norm(x) {
					// cannot happen
					if std::env::var("RPSA_JOIN").is_ok() {
						println!("CANNOT {:?} {:?} {:?} {} // {}", x, y, e, a.trail_text(), b.trail_text());
					}
					return None;
				}
				if e != *x {
					let ex = x.clone();
					// only a change when the segments stop being exact
					same &= ex == e;
				}
				out.push(e);
			}
			None => {
				if !force {
					if std::env::var("RPSA_JOIN").is_ok() {
						println!("NOJOIN {:?} / {:?} at {} {:?} // {:?} TRAIL {} // {}", x, y, out.len(), a.segs.iter().map(|g| (g.min, g.max)).collect::<Vec<_>>(), b.segs.iter().map(|g| (g.min, g.max)).collect::<Vec<_>>(), a.trail_text(), b.trail_text());
					}
					return None;
				}
				same = false;
				t.lossy = true;
				if let Some(f) = fresh.iter().find(|f| f.0 == *x && f.1 == *y) {
					out.push(f.2.clone());
				} else {
					let s = t.new_seg(Seg { set: crate::cs::CS::all(), min: 0, max: INF, origin: u32::MAX, chars: false });
					let l = Lin::len(s);
					fresh.push((x.clone(), y.clone(), l.clone()));
					out.push(l);
				}
			}
		}
	}
	// segments
	let mut segs = (*t.segs).clone();
	for i in 0..n {
		let (p, q) = (&a.segs[i], &b.segs[i]);
		if p.chars != q.chars {
			return None;
		}
		let g = &mut segs[i];
		if !q.set.subset(&p.set) {
			g.set = p.set.or(&q.set);
			same = false;
		}
		if q.min < p.min {
			g.min = q.min;
			same = false;
		}
		if q.max > p.max {
			g.max = if visits > 2 { INF } else { q.max };
			same = false;
		}
		if p.origin != q.origin {
			// origins are only labels
			g.origin = p.origin.min(q.origin);
		}
	}
	t.segs = Arc::new(segs);
	// options
	let mut o = (*a.opts).clone();
	for (i, x) in o.iter_mut().enumerate() {
		if x.is_some() && *x != b.opts[i] {
			*x = None;
			same = false;
		}
	}
	t.opts = Arc::new(o);
	// facts
	let mut facts = vec![];
	for f in a.facts.iter() {
		match f {
			Fact::Cls(i, m) => {
				let g = b.facts.iter().find_map(|g| match g {
					Fact::Cls(j, k) if i == j => Some(*k),
					_ => None,
				});
				match g {
					Some(k) => {
						if k & !m != 0 {
							same = false;
						}
						facts.push(Fact::Cls(i.clone(), m | k));
					}
					None => {
						// nothing known on the other side: it may be anything
						let k = b.narrow(i, all_mask());
						if k & !m != 0 {
							same = false;
						}
						facts.push(Fact::Cls(i.clone(), m | k));
					}
				}
			}
			Fact::Ne(..) => {
				if b.facts.contains(f) {
					facts.push(f.clone());
				} else {
					same = false;
				}
			}
			Fact::Lin(l, x, y) => {
				let (p, q) = b.range(l);
				if p >= *x && q <= *y {
					facts.push(f.clone());
				} else {
					same = false;
					let (x, y) = (if p < *x { -i64::MAX / 4 } else { *x }, if q > *y { i64::MAX / 4 } else { *y });
					if x > -i64::MAX / 4 || y < i64::MAX / 4 {
						facts.push(Fact::Lin(l.clone(), x, y));
					}
				}
			}
		}
	}
	if same {
		return Some((a.clone(), true));
	}
	t.facts = Arc::new(vec![]);
	let mut r = Lins { out: vec![], with: Some(out), i: 0 };
	t.rw_all(&mut r);
	t.facts = Arc::new(facts);
	Some((t, false))
}

pub struct Entry {
	pub st: State,
	pub visits: u32,
	pub pending: bool,
}
#[derive(Default)]
pub struct Table {
	pub map: HashMap<Vec<u64>, usize>,
	pub slots: Vec<Vec<Entry>>,
	pub queue: VecDeque<(usize, usize)>,
	pub dropped: u64,
}
impl Table {
	/// adds a canonical state; true when it was new
	pub fn add(&mut self, key: Vec<u64>, st: State, cap: usize) -> bool {
		let n = self.slots.len();
		let i = *self.map.entry(key).or_insert(n);
		if i == n {
			self.slots.push(vec![]);
		}
		let v = &mut self.slots[i];
		let full = v.len() >= cap;
		for pass in 0..2 {
			if pass == 1 && !full {
				break;
			}
			for (j, e) in v.iter_mut().enumerate() {
				if let Some((t, same)) = join(&e.st, &st, e.visits, pass == 1) {
					if same {
						return false;
					}
					if std::env::var("RPSA_INV").is_ok() {
						// every number of the one form has a partner of the other
						let bad = |t: &State| {
							let v: Vec<Lin> = lins_of(t).iter().map(|l| t.norm(l)).collect();
							v.iter().any(|l| l.t.is_empty() && l.c > 3 && t.segs.iter().skip(1).take(4).any(|g| g.exact().is_none()))
						};
						if bad(&t) && !bad(&e.st) && !bad(&st) {
							eprintln!("INV {}\n {}\n {:?}\n {:?}\n {:?}\n {:?} {:?} {:?} {:?}", e.st.trail_text(), st.trail_text(), lins_of(&e.st), lins_of(&st), lins_of(&t), e.st.segs.iter().map(|g| (g.min, g.max)).collect::<Vec<_>>(), st.segs.iter().map(|g| (g.min, g.max)).collect::<Vec<_>>(), seqs_of(&e.st), seqs_of(&st));
						}
					}
					e.st = t;
					e.visits += 1;
					if !e.pending {
						e.pending = true;
						self.queue.push_back((i, j));
					}
					return true;
				}
			}
		}
		if v.len() >= 3 * cap {
			// too many forms of the same situation
			self.dropped += 1;
			return false;
		}
		v.push(Entry { st, visits: 0, pending: true });
		self.queue.push_back((i, v.len() - 1));
		true
	}
	pub fn pop(&mut self) -> Option<State> {
		let at = self.queue.pop_front()?;
		Some(self.get(at))
	}
	pub fn get(&mut self, (i, j): (usize, usize)) -> State {
		let e = &mut self.slots[i][j];
		e.pending = false;
		e.st.clone()
	}
	pub fn len(&self) -> usize {
		self.slots.iter().map(|s| s.len()).sum()
	}
}

pub enum End {
	Done(V),
	Panic(String),
	Stuck(String),
	Source,
}

/// runs a state until every path ends; joins where paths meet
pub fn run(pg: &Prog, st: State, out: &mut Vec<(End, State)>, budget: &mut u64) {
	run_(pg, st, out, budget, Way::Joins)
}
#[derive(Clone, Copy, PartialEq)]
pub enum Way {
	/// paths are joined where they meet
	Joins,
	/// the same, and stop as soon as there is more than one answer
	One,
	/// every path on its own
	Paths,
}
pub fn run_(pg: &Prog, st: State, out: &mut Vec<(End, State)>, budget: &mut u64, way: Way) {
	let mut table = Table::default();
	let mut raw: VecDeque<State> = VecDeque::new();
	raw.push_back(st);
	let mut forked = false;
	loop {
		let mut st = match raw.pop_front() {
			Some(s) => s,
			None => match table.pop() {
				Some(s) => s,
				None => {
					if table.dropped > 0 {
						if let Some(e) = table.slots.iter().find_map(|v| v.last()) {
							out.push((End::Stuck("too many forms".into()), e.st.clone()));
						}
					}
					return;
				}
			},
		};
		// where this piece of work starts is no meeting point
		let mut first = true;
		loop {
			if *budget == 0 {
				out.push((End::Stuck("budget".into()), st));
				return;
			}
			*budget -= 1;
			if !first && forked && way != Way::Paths && pg.is_join(&st) {
				pg.stats.borrow_mut().joins += 1;
				if pg.stats.borrow().trace > 0 {
					pg.stats.borrow_mut().trace -= 1;
					eprintln!("AT {} budget {} slots {} entries {} lins {:?} segs {:?}", pg.where_(&st), budget, table.slots.len(), table.len(), lins_of(&st).iter().map(|l| format!("{}{:?}", l.c, l.t)).collect::<Vec<_>>().join(" "), st.segs.iter().map(|g| (g.min, g.max)).collect::<Vec<_>>());
				}
				let k = canon(pg, &mut st, false);
				table.add(k, st, 40);
				break;
			}
			first = false;
			let snap = st.clone();
			match pg.step(&mut st) {
				Ok(Next::Go) => {}
				Ok(Next::Done) => {
					let v = st.top().locals[0].clone();
					if way == Way::One && out.iter().any(|o| !matches!(&o.0, End::Done(w) if *w == v)) {
						out.push((End::Done(v), st));
						return;
					}
					out.push((End::Done(v), st));
					break;
				}
				Err(Stop::Split(rs)) => {
					forked = true;
					pg.stats.borrow_mut().splits += 1;
					for r in rs {
						let mut s = snap.clone();
						if s.refine(&r) {
							raw.push_back(s);
						}
					}
					break;
				}
				Err(Stop::Infeasible) => break,
				Err(Stop::Source) => {
					out.push((End::Source, snap));
					break;
				}
				Err(Stop::Panic(m)) => {
					out.push((End::Panic(m), snap));
					break;
				}
				Err(Stop::Stuck(m)) => {
					*pg.stats.borrow_mut().stuck.entry(format!("{} in {}", m, pg.where_fn(&snap))).or_default() += 1;
					out.push((End::Stuck(m), snap));
					break;
				}
			}
		}
	}
}

pub fn start(pg: &Prog, st: &mut State, f: usize, args: Vec<V>) -> R<()> {
	st.frames.push(Arc::new(Frame { f: HARNESS, bb: 0, locals: vec![V::Undef], nat: None }));
	pg.push_fn(st, f, args)?;
	let _ = NATIVE;
	Ok(())
}
