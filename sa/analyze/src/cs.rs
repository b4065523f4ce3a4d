//! Sets of characters: exact for ASCII, ranges above.
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CS {
	pub lo: u128,
	/// sorted, disjoint, non-adjacent ranges of scalar values >= 128
	pub hi: Arc<Vec<(u32, u32)>>,
}

const HI_ALL: [(u32, u32); 2] = [(128, 0xD7FF), (0xE000, 0x10FFFF)];

thread_local! {
	static EMPTY_HI: Arc<Vec<(u32, u32)>> = Arc::new(vec![]);
	static FULL_HI: Arc<Vec<(u32, u32)>> = Arc::new(HI_ALL.to_vec());
}
fn ehi() -> Arc<Vec<(u32, u32)>> {
	EMPTY_HI.with(|x| x.clone())
}
fn fhi() -> Arc<Vec<(u32, u32)>> {
	FULL_HI.with(|x| x.clone())
}

fn norm(mut v: Vec<(u32, u32)>) -> Arc<Vec<(u32, u32)>> {
	v.sort();
	let mut out: Vec<(u32, u32)> = vec![];
	for (a, b) in v {
		if a > b {
			continue;
		}
		if let Some(l) = out.last_mut() {
			if a <= l.1 || a == l.1 + 1 {
				l.1 = l.1.max(b);
				continue;
			}
		}
		out.push((a, b));
	}
	if out.is_empty() {
		ehi()
	} else if out.len() == 2 && out[..] == HI_ALL {
		fhi()
	} else {
		Arc::new(out)
	}
}

impl CS {
	pub fn empty() -> CS {
		CS { lo: 0, hi: ehi() }
	}
	pub fn all() -> CS {
		CS { lo: u128::MAX, hi: fhi() }
	}
	pub fn ascii(f: impl Fn(char) -> bool) -> CS {
		let mut lo = 0;
		for i in 0..128u8 {
			if f(i as char) {
				lo |= 1u128 << i;
			}
		}
		CS { lo, hi: ehi() }
	}
	pub fn one(c: char) -> CS {
		CS::range(c as u32, c as u32)
	}
	pub fn of(s: &str) -> CS {
		s.chars().fold(CS::empty(), |a, c| a.or(&CS::one(c)))
	}
	pub fn range(a: u32, b: u32) -> CS {
		let mut lo = 0u128;
		let mut i = a;
		while i <= b && i < 128 {
			lo |= 1u128 << i;
			i += 1;
		}
		let mut hi = vec![];
		if b >= 128 {
			for (x, y) in HI_ALL {
				let p = a.max(128).max(x);
				let q = b.min(y);
				if p <= q {
					hi.push((p, q));
				}
			}
		}
		CS { lo, hi: norm(hi) }
	}
	pub fn ws() -> CS {
		CS::of(" \t\n\r\x0c")
	}
	pub fn upper() -> CS {
		CS::range('A' as u32, 'Z' as u32)
	}
	pub fn lower() -> CS {
		CS::range('a' as u32, 'z' as u32)
	}
	pub fn letters() -> CS {
		CS::upper().or(&CS::lower())
	}
	pub fn or(&self, o: &CS) -> CS {
		if self.hi == o.hi {
			return CS { lo: self.lo | o.lo, hi: self.hi.clone() };
		}
		let mut v = self.hi.to_vec();
		v.extend(o.hi.iter());
		CS { lo: self.lo | o.lo, hi: norm(v) }
	}
	pub fn and(&self, o: &CS) -> CS {
		if self.hi == o.hi {
			return CS { lo: self.lo & o.lo, hi: self.hi.clone() };
		}
		let mut v = vec![];
		for (a, b) in self.hi.iter() {
			for (c, d) in o.hi.iter() {
				let p = *a.max(c);
				let q = *b.min(d);
				if p <= q {
					v.push((p, q));
				}
			}
		}
		CS { lo: self.lo & o.lo, hi: norm(v) }
	}
	pub fn not(&self) -> CS {
		let mut v = vec![];
		for (x, y) in HI_ALL {
			let mut p = x;
			for (a, b) in self.hi.iter() {
				if *b < x || *a > y {
					continue;
				}
				if *a > p {
					v.push((p, *a - 1));
				}
				p = *b + 1;
			}
			if p <= y {
				v.push((p, y));
			}
		}
		CS { lo: !self.lo, hi: norm(v) }
	}
	pub fn minus(&self, o: &CS) -> CS {
		self.and(&o.not())
	}
	pub fn is_empty(&self) -> bool {
		self.lo == 0 && self.hi.is_empty()
	}
	pub fn has(&self, c: char) -> bool {
		let c = c as u32;
		if c < 128 {
			self.lo >> c & 1 == 1
		} else {
			self.hi.iter().any(|(a, b)| *a <= c && c <= *b)
		}
	}
	pub fn subset(&self, o: &CS) -> bool {
		self.minus(o).is_empty()
	}
	pub fn single(&self) -> Option<char> {
		if self.hi.is_empty() && self.lo.count_ones() == 1 {
			char::from_u32(self.lo.trailing_zeros())
		} else if self.lo == 0 && self.hi.len() == 1 && self.hi[0].0 == self.hi[0].1 {
			char::from_u32(self.hi[0].0)
		} else {
			None
		}
	}
	/// swap the case of the ASCII letters
	pub fn flip(&self) -> CS {
		let up = self.lo & CS::upper().lo;
		let lw = self.lo & CS::lower().lo;
		CS { lo: (self.lo & !CS::letters().lo) | (up << 32) | (lw >> 32), hi: self.hi.clone() }
	}
}

impl std::fmt::Debug for CS {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		if *self == CS::all() {
			return write!(f, "any");
		}
		let neg = !self.hi.is_empty() && *self.hi == HI_ALL.to_vec();
		let lo = if neg { !self.lo } else { self.lo };
		let mut s = String::new();
		let mut i = 0u32;
		while i < 128 {
			if lo >> i & 1 == 1 {
				let mut j = i;
				while j + 1 < 128 && lo >> (j + 1) & 1 == 1 {
					j += 1;
				}
				let c = |x: u32| char::from_u32(x).unwrap().escape_default().to_string();
				if j > i + 1 {
					s += &format!("{}-{}", c(i), c(j));
				} else {
					for k in i..=j {
						s += &c(k);
					}
				}
				i = j;
			}
			i += 1;
		}
		if neg {
			write!(f, "[^{}]", s)
		} else if self.hi.is_empty() {
			write!(f, "[{}]", s)
		} else {
			write!(f, "[{}+{:x?}]", s, self.hi)
		}
	}
}
