//! C24: offsets and addresses.
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use raw_btree::{Address, Offset};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// What an offset stands for: `None` is before-first.
type V = Option<usize>;

fn mk(v: V) -> Offset {
	match v {
		None => Offset::before(),
		Some(i) => i.into(),
	}
}

fn h<T: Hash>(t: &T) -> u64 {
	let mut s = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut s);
	s.finish()
}

fn shown(v: V) -> String {
	match v {
		None => "-1".into(),
		Some(i) => i.to_string(),
	}
}

fn one(v: V) {
	let o = mk(v);
	ensure!(o.value() == v, "the offset {} has value() = {:?}", shown(v), o.value());
	ensure!(o.is_before() == v.is_none(), "the offset {} has is_before() = {}", shown(v), o.is_before());
	ensure!(o.to_string() == shown(v), "the offset {} displays as {o}", shown(v));
	ensure!(format!("{o:?}") == shown(v), "the offset {} prints as {o:?}", shown(v));
	ensure!(format!("{o:#?}") == shown(v) && format!("{o:#}") == shown(v), "the offset {} prints as {o:#?} or {o:#} in the alternate form", shown(v));
	if let Some(i) = v {
		ensure!(o.unwrap() == i, "unwrap() of the offset {i} gives {}", o.unwrap());
		let p: Offset = i.into();
		ensure!(p == o && h(&p) == h(&o), "two offsets {i} differ");
	} else {
		let r = crate::ctx::expecting(|| mk(v).unwrap());
		ensure!(r.is_err(), "unwrap() of the before-first offset gives {:?}", r.ok());
		ensure!(Offset::before() == o && h(&Offset::before()) == h(&o), "two before-first offsets differ");
	}
	// stepping
	let mut a = o;
	a.incr();
	let up = v.map(|i| i + 1).or(Some(0));
	ensure!(a.value() == up, "incr() of {} gives {a}", shown(v));
	a.decr();
	ensure!(a == o && a.value() == v, "incr() then decr() of {} gives {a}", shown(v));
	if let Some(i) = v {
		let mut b = o;
		b.decr();
		let down = i.checked_sub(1);
		ensure!(b.value() == down && b.is_before() == (i == 0), "decr() of {i} gives {b}");
		b.incr();
		ensure!(b == o, "decr() then incr() of {i} gives {b}");
	}
	count("offsets_checked", 1);
}

fn two(a: V, b: V) {
	let (x, y) = (mk(a), mk(b));
	// Option<usize> orders None first.
	let want = a.cmp(&b);
	note("compare", a.map(|x| x as i64).unwrap_or(-1), b.map(|x| x as i64).unwrap_or(-1));
	ensure!(x.cmp(&y) == want, "{} cmp {} gives {:?}", shown(a), shown(b), x.cmp(&y));
	ensure!(x.partial_cmp(&y) == Some(want), "{} partial_cmp {} gives {:?}", shown(a), shown(b), x.partial_cmp(&y));
	ensure!((x == y) == want.is_eq() && (x != y) == want.is_ne(), "{} == {} gives {}", shown(a), shown(b), x == y);
	ensure!((x < y) == want.is_lt() && (x <= y) == want.is_le() && (x > y) == want.is_gt() && (x >= y) == want.is_ge(), "{} <, <=, >, >= {} disagree with the order", shown(a), shown(b));
	ensure!(x.max(y).value() == a.max(b) && x.min(y).value() == a.min(b), "max or min of {} and {}", shown(a), shown(b));
	if want.is_eq() {
		ensure!(h(&x) == h(&y), "equal offsets {} hash differently", shown(a));
	}
	if let Some(i) = b {
		int(a, i);
	}
	count("pairs_checked", 1);
}

fn int(a: V, i: usize) {
	let x = mk(a);
	let want = a.cmp(&Some(i));
	ensure!(x.partial_cmp(&i) == Some(want), "offset {} compared to integer {i} gives {:?}", shown(a), x.partial_cmp(&i));
	ensure!((x == i) == want.is_eq() && (x != i) == want.is_ne(), "offset {} == integer {i} gives {}", shown(a), x == i);
	ensure!((x < i) == want.is_lt() && (x <= i) == want.is_le() && (x > i) == want.is_gt() && (x >= i) == want.is_ge(), "offset {} <, <=, >, >= integer {i} disagree with the order", shown(a));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Name(i32);
impl std::fmt::Display for Name {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "node{}", self.0)
	}
}

fn addresses(c: &mut Case, vals: &[V]) {
	for n in [-3, 0, 7] {
		for m in [-3, 0, 7, 8] {
			for a in vals {
				for b in vals {
					let (x, y) = (Address::new(Name(n), mk(*a)), Address::new(Name(m), mk(*b)));
					let want = n == m && a == b;
					ensure!((x == y) == want && (x != y) != want, "{x} == {y} gives {}", x == y);
					count("address_pairs_checked", 1);
				}
				let x = Address::new(Name(n), mk(*a));
				ensure!(x.node == Name(n) && x.offset == mk(*a), "Address::new does not keep its parts");
				ensure!(x.to_string() == format!("@node{}:{}", n, shown(*a)), "an address displays as {x}");
				ensure!(format!("{x:?}") == format!("@{:?}:{}", Name(n), shown(*a)), "an address prints as {x:?}");
				ensure!(format!("{x:#}") == x.to_string(), "an address displays as {x:#} in the alternate form");
				let y = x;
				ensure!(x == y, "a copy of an address differs");
			}
		}
	}
	note("addresses", vals.len() as i64, 0);
	c.nontrivial = true;
}

fn grid(n: usize) -> Vec<V> {
	let mut v: Vec<V> = vec![None];
	v.extend((0..n).map(Some));
	for p in [31, 32, 33, 62, 63] {
		for d in 0..3 {
			v.push(Some((1usize << p) - 1 + d));
		}
	}
	// the very largest integers are reserved for before-first
	v.extend((3..6).map(|d| Some(usize::MAX - d)));
	v
}

pub fn run(x: &mut Ctx) {
	let g = grid(x.nm(80, 12));
	for (i, a) in g.iter().enumerate() {
		x.sys("offset-grid", i as u64, |c| {
			one(*a);
			for b in &g {
				two(*a, *b);
			}
			int(*a, usize::MAX - 1);
			int(*a, usize::MAX);
			c.observe(i as u64);
			c.nontrivial = true;
			c.label = format!("offset {} against {} others", shown(*a), g.len());
		});
	}
	x.sys("offset-set", 0, |c| {
		let s: HashSet<Offset> = g.iter().map(|v| mk(*v)).collect();
		let d: HashSet<V> = g.iter().copied().collect();
		ensure!(s.len() == d.len(), "a set of offsets holds {} of {} values", s.len(), d.len());
		let mut o: Vec<Offset> = g.iter().rev().map(|v| mk(*v)).collect();
		o.sort();
		let mut w: Vec<V> = g.clone();
		w.sort();
		ensure!(o.iter().map(|x| x.value()).eq(w.iter().copied()), "sorting offsets does not sort their values");
		note("set", s.len() as i64, 0);
		c.nontrivial = true;
		c.label = "set and sort".into();
	});
	x.sys("offset-walk", 0, |c| {
		let mut o = Offset::before();
		let mut seen = 0usize;
		for i in 0..500usize {
			o.incr();
			ensure!(o.value() == Some(i) && o == i && !o.is_before(), "step {i} from before-first is {o}");
			seen += 1;
		}
		for i in (0..499usize).rev() {
			o.decr();
			ensure!(o == i && o.cmp(&mk(Some(i))) == Ordering::Equal, "stepping down to {i} gives {o}");
		}
		o.decr();
		ensure!(o.is_before() && o.value().is_none(), "stepping down from 0 gives {o}");
		note("walk", seen as i64, 0);
		c.nontrivial = true;
		c.label = "walk".into();
	});
	x.sys("addresses", 0, |c| {
		// the smallest and the largest
		let mut v = g[..g.len().min(16)].to_vec();
		v.extend(&g[g.len().saturating_sub(18)..]);
		addresses(c, &v)
	});
	for i in 0..x.reps(x.nm(400, 3), 20) {
		x.case("offset-random", i, |c| {
			for _ in 0..40 {
				let r = |c: &mut Case| {
					let k = c.rng.below(64);
					let v = (c.rng.next() >> k) as usize;
					if c.rng.pct(10) || v >= usize::MAX - 2 {
						None
					} else {
						Some(v)
					}
				};
				let (a, b) = (r(c), r(c));
				one(a);
				two(a, b);
				two(a, a.map(|x| x.saturating_sub(1)));
				two(b, a);
			}
			c.nontrivial = true;
		});
	}
}
