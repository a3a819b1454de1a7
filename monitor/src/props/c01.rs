//! C01: keyed operations against a sorted reference model.
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::rng::Rng;
use crate::shape::walk;
use crate::store;
use crate::tok::Tok;
use crate::{combo_plain, ensure};
use raw_btree::{RawBTree, Storage};


/// A consistent total order on keys, possibly coarser than equality.
#[derive(Clone, Copy)]
pub struct Order {
	pub sgn: i64,
	pub q: i64,
}
impl Order {
	pub fn class(&self, k: i64) -> i64 {
		self.sgn * k.div_euclid(self.q)
	}
	pub fn pick(rng: &mut Rng) -> Order {
		match rng.below(6) {
			0 => Order { sgn: -1, q: 1 },
			1 => Order { sgn: 1, q: 1 + rng.range(1, 6) },
			2 => Order { sgn: -1, q: 3 },
			_ => Order { sgn: 1, q: 1 },
		}
	}
}

/// Reference: sorted by class; at most one item per class.
#[derive(Default, Clone)]
pub struct Model {
	pub v: Vec<(i64, i64, u64, u64)>, // class, key, uid, payload
}
impl Model {
	pub fn find(&self, class: i64) -> Result<usize, usize> {
		self.v.binary_search_by(|e| e.0.cmp(&class))
	}
}

#[derive(Clone, Copy, Debug)]
pub enum Dist {
	Uniform,
	Ascending,
	Descending,
	Cluster,
	Ends,
}

#[derive(Clone, Debug)]
pub struct Phase {
	pub ops: usize,
	pub ins: usize, // percent of insertions among updates
	pub upd: usize, // percent of updates among operations
	pub dist: Dist,
	/// percentage of removals aiming at a stored key
	pub hit: usize,
}

pub fn phases(rng: &mut Rng, size: usize) -> Vec<Phase> {
	let dists = [Dist::Uniform, Dist::Ascending, Dist::Descending, Dist::Cluster, Dist::Ends, Dist::Uniform];
	let mut v = vec![];
	let n = 1 + rng.below(3);
	for _ in 0..n {
		v.push(Phase { ops: size + rng.below(size + 1), ins: 80 + rng.below(20), upd: 70, dist: *rng.pick(&dists), hit: 50 });
		v.push(Phase { ops: rng.below(size + 1), ins: 50, upd: 80, dist: *rng.pick(&dists), hit: 60 });
		v.push(Phase { ops: size + rng.below(2 * size + 1), ins: rng.below(25), upd: 75, dist: *rng.pick(&dists), hit: 92 });
	}
	v
}

pub struct KeyGen {
	pub range: i64,
	asc: i64,
	desc: i64,
	hot: i64,
}
impl KeyGen {
	pub fn new(range: i64) -> Self {
		KeyGen { range, asc: 0, desc: range, hot: range / 2 }
	}
	pub fn next(&mut self, rng: &mut Rng, d: Dist) -> i64 {
		match d {
			Dist::Uniform => rng.range(0, self.range),
			Dist::Ascending => {
				self.asc = (self.asc + rng.range(1, 3)) % (self.range + 1);
				self.asc
			}
			Dist::Descending => {
				self.desc -= rng.range(1, 3);
				if self.desc < 0 {
					self.desc = self.range
				}
				self.desc
			}
			Dist::Cluster => {
				if rng.pct(3) {
					self.hot = rng.range(0, self.range)
				}
				(self.hot + rng.range(-12, 12)).clamp(0, self.range)
			}
			Dist::Ends => {
				let d = rng.range(0, (self.range / 8).max(1));
				if rng.pct(50) {
					d
				} else {
					self.range - d
				}
			}
		}
	}
}

/// Key used to look up, in one of three forms (heterogeneous lookups).
fn get_by<'a, T: Tok, S: Storage<T>>(t: &'a RawBTree<T, S>, o: Order, k: i64, form: usize) -> Option<&'a T> {
	match form {
		0 => t.get(|a: &T, q: &i64| o.class(a.key()).cmp(&o.class(*q)), &k),
		1 => {
			// unsized key
			let s = format!("{k}");
			t.get(|a: &T, q: &str| o.class(a.key()).cmp(&o.class(q.parse::<i64>().unwrap_or(0))), s.as_str())
		}
		_ => {
			let q: [i64; 1] = [o.class(k)];
			t.get(|a: &T, q: &[i64]| o.class(a.key()).cmp(&q[0]), &q[..])
		}
	}
}

fn check_ref<T: Tok>(what: &str, got: Option<&T>, want: Option<&(i64, i64, u64, u64)>) {
	match (got, want) {
		(None, None) => (),
		(Some(g), Some(w)) => {
			ensure!(g.uid() == w.2 && g.key() == w.1, "{what}: returned item key={} uid={}, expected key={} uid={}", g.key(), g.uid(), w.1, w.2);
			ensure!(g.payload() == w.3, "{what}: a mutation is lost: item key={} has payload {} instead of {}", w.1, g.payload(), w.3);
		}
		(Some(g), None) => crate::viol!("{what}: returned item key={} although no matching item is stored", g.key()),
		(None, Some(w)) => crate::viol!("{what}: returned None although item key={} is stored", w.1),
	}
}

fn check_owned<T: Tok>(what: &str, got: Option<T>, want: Option<(i64, i64, u64, u64)>) {
	check_ref(what, got.as_ref(), want.as_ref());
}

fn sweep<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, m: &Model, o: Order, rng: &mut Rng, probes: usize) {
	ensure!(t.len() == m.v.len(), "len() = {} but {} items were stored", t.len(), m.v.len());
	ensure!(t.is_empty() == m.v.is_empty(), "is_empty() = {} with {} items", t.is_empty(), m.v.len());
	check_ref("first", t.first(), m.v.first());
	check_ref("last", t.last(), m.v.last());
	let n = m.v.len();
	if n == 0 {
		check_ref("get on empty", get_by(t, o, 3, 0), None);
		return;
	}
	let all = probes >= n;
	for j in 0..probes.min(n) {
		let i = if all { j } else { rng.below(n) };
		let e = m.v[i];
		// any member of the class is a match
		let k = if o.q > 1 { e.1.div_euclid(o.q) * o.q + rng.range(0, o.q - 1) } else { e.1 };
		check_ref("get", get_by(t, o, k, 0), Some(&e));
		let k = e.1 + rng.range(-2, 2) * o.q;
		check_ref("get near", get_by(t, o, k, 0), m.find(o.class(k)).ok().map(|i| &m.v[i]));
		count("lookups_checked", 2);
	}
}

pub fn history<T: Tok, S: Storage<T>>(c: &mut Case, size: usize, range: i64, o: Order, check_all_every: usize) {
	let mut rng = Rng::new(c.rng.next());
	let plan = phases(&mut rng, size);
	let mut t: RawBTree<T, S> = if rng.pct(50) { RawBTree::new() } else { RawBTree::default() };
	let mut m = Model::default();
	let mut kg = KeyGen::new(range);
	let (mut maxh, mut peak) = (0, 0);
	let mut step = 0usize;
	for ph in &plan {
		for _ in 0..ph.ops {
			step += 1;
			store::fuel(2_000_000);
			let mut k = kg.next(&mut rng, ph.dist);
			if rng.below(100) < ph.upd {
				if rng.below(100) < ph.ins {
					note("insert", k, 0);
					let x = T::new(k);
					let uid = x.uid();
					let cl = o.class(k);
					let got = t.insert(|a, b| o.class(a.key()).cmp(&o.class(b.key())), x);
					match m.find(cl) {
						Ok(i) => {
							let old = m.v[i];
							m.v[i] = (cl, k, uid, 0);
							count("replacements", 1);
							check_owned("insert", got, Some(old));
						}
						Err(i) => {
							m.v.insert(i, (cl, k, uid, 0));
							check_owned("insert", got, None);
						}
					}
				} else {
					if !m.v.is_empty() && rng.below(100) < ph.hit {
						k = match ph.dist {
							Dist::Ascending => m.v[0].1,
							Dist::Descending => m.v[m.v.len() - 1].1,
							Dist::Cluster => m.v[m.v.len() / 2].1,
							_ => m.v[rng.below(m.v.len())].1,
						};
					}
					note("remove", k, 0);
					let got = if rng.pct(20) {
						let s = k.to_string();
						t.remove(|a: &T, q: &str| o.class(a.key()).cmp(&o.class(q.parse::<i64>().unwrap_or(0))), s.as_str())
					} else {
						t.remove(|a: &T, q: &i64| o.class(a.key()).cmp(&o.class(*q)), &k)
					};
					match m.find(o.class(k)) {
						Ok(i) => {
							let old = m.v.remove(i);
							count("removals", 1);
							check_owned("remove", got, Some(old));
						}
						Err(_) => check_owned("remove", got, None),
					}
				}
			} else {
				if !m.v.is_empty() && rng.pct(50) {
					k = m.v[rng.below(m.v.len())].1
				}
				match rng.below(8) {
					0 | 1 | 2 => {
						note("get", k, 0);
						let form = rng.below(3);
						check_ref("get", get_by(&t, o, k, form), m.find(o.class(k)).ok().map(|i| &m.v[i]));
					}
					3 | 4 => {
						note("get_mut", k, step as i64);
						let got = t.get_mut(|a: &T, q: &i64| o.class(a.key()).cmp(&o.class(*q)), &k);
						let i = m.find(o.class(k)).ok();
						check_ref("get_mut", got.as_deref(), i.map(|i| &m.v[i]));
						if let Some(g) = got {
							g.set_payload(step as u64);
							m.v[i.unwrap()].3 = step as u64;
						}
					}
					5 => {
						note("first_mut", step as i64, 0);
						let got = t.first_mut();
						check_ref("first_mut", got.as_deref(), m.v.first());
						if let Some(g) = got {
							g.set_payload(step as u64);
							m.v.first_mut().unwrap().3 = step as u64;
						}
					}
					6 => {
						note("last_mut", step as i64, 0);
						let got = t.last_mut();
						check_ref("last_mut", got.as_deref(), m.v.last());
						if let Some(g) = got {
							g.set_payload(step as u64);
							m.v.last_mut().unwrap().3 = step as u64;
						}
					}
					_ => {
						note("first/last", 0, 0);
						check_ref("first", t.first(), m.v.first());
						check_ref("last", t.last(), m.v.last());
					}
				}
			}
			ensure!(t.len() == m.v.len(), "len() = {} but {} items are stored", t.len(), m.v.len());
			ensure!(t.is_empty() == m.v.is_empty(), "is_empty() = {} with {} items", t.is_empty(), m.v.len());
			peak = peak.max(m.v.len());
			if step % check_all_every == 0 {
				sweep(&t, &m, o, &mut rng, 64);
			}
		}
		store::fuel(u64::MAX);
		sweep(&t, &m, o, &mut rng, 4000);
		if !c.miri || t.len() < 100 {
			let w = walk(&t);
			maxh = maxh.max(w.height);
			c.shape(w.hash());
		}
	}
	// drain to empty in some order
	let mode = rng.below(4);
	while !m.v.is_empty() {
		let i = match mode {
			0 => 0,
			1 => m.v.len() - 1,
			2 => m.v.len() / 2,
			_ => rng.below(m.v.len()),
		};
		let e = m.v.remove(i);
		note("drain", e.1, 0);
		store::fuel(2_000_000);
		check_owned("remove", t.remove(|a: &T, q: &i64| o.class(a.key()).cmp(&o.class(*q)), &e.1), Some(e));
		if m.v.len() % (1 + size / 8) == 0 {
			sweep(&t, &m, o, &mut rng, 32);
		}
	}
	sweep(&t, &m, o, &mut rng, 1);
	c.nontrivial = peak > 8;
	c.label = format!("{} peak={} height={} steps={} q={} sgn={}", T::NAME, peak, maxh, step, o.q, o.sgn);
	count_max("max_height", maxh as u64);
	count_max("max_items", peak as u64);
}

/// For a tree of a given shape: every single removal and every single
/// insertion position, with every item looked up before and after.
fn single<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, positions: usize) {
	let mut rng = Rng::new(c.rng.next());
	let proto_seed = rng.next();
	let t0: RawBTree<T, S> = crate::gen::build(&mut Rng::new(proto_seed), style, n);
	let w = walk(&t0);
	c.shape(w.hash());
	drop(t0);
	let keys = w.keys();
	let all: Vec<usize> = (0..=2 * keys.len()).collect();
	let mut todo = all;
	if todo.len() > positions {
		rng.shuffle(&mut todo);
		todo.truncate(positions);
	}
	let ord = Order { sgn: 1, q: 1 };
	for p in todo {
		let mut t: RawBTree<T, S> = crate::gen::build(&mut Rng::new(proto_seed), style, n);
		let mut m = Model { v: walk(&t).items.iter().map(|x| (x.0, x.0, x.1, 0)).collect() };
		sweep(&t, &m, ord, &mut rng, if positions > 40 { 16 } else { usize::MAX });
		if p % 2 == 1 {
			let e = m.v.remove(p / 2);
			note("single-remove", e.1, 0);
			check_owned("remove", t.remove(crate::gen::ck::<T>, &e.1), Some(e));
		} else if let Some(k) = crate::gen::key_at(&keys, p / 2) {
			let x = T::new(k);
			m.v.insert(p / 2, (k, k, x.uid(), 0));
			note("single-insert", k, 0);
			check_owned("insert", t.insert(crate::gen::ct::<T>, x), None);
		}
		count("single_updates", 1);
		sweep(&t, &m, ord, &mut rng, usize::MAX);
	}
	c.nontrivial = n > 8;
	c.label = format!("style {style} n {} height {}", keys.len(), w.height);
}

/// Large trees: built in one order, emptied in another.
fn large<T: Tok, S: Storage<T>>(c: &mut Case, n: usize, build: usize, drain: usize) {
	let mut rng = Rng::new(c.rng.next());
	let mut keys: Vec<i64> = (0..n as i64).map(|i| i * 3).collect();
	match build {
		0 => (),
		1 => keys.reverse(),
		_ => rng.shuffle(&mut keys),
	}
	let o = Order { sgn: 1, q: 1 };
	let mut t: RawBTree<T, S> = RawBTree::new();
	let mut v = vec![];
	for k in &keys {
		let x = T::new(*k);
		v.push((*k, *k, x.uid(), 0));
		note("insert", *k, 0);
		store::fuel(2_000_000);
		check_owned("insert", t.insert(crate::gen::ct::<T>, x), None);
	}
	v.sort();
	let mut m = Model { v };
	store::fuel(u64::MAX);
	sweep(&t, &m, o, &mut rng, usize::MAX);
	let w = walk(&t);
	c.shape(w.hash());
	count_max("max_height", w.height as u64);
	count_max("max_items", n as u64);
	let mut order: Vec<usize> = (0..n).collect();
	match drain {
		0 => (),
		1 => order.reverse(),
		2 => order.sort_by_key(|i| (i % 7, *i)),
		_ => rng.shuffle(&mut order),
	}
	for (j, i) in order.iter().enumerate() {
		let e = m.v[*i];
		note("remove", e.1, 0);
		store::fuel(2_000_000);
		check_owned("remove", t.remove(crate::gen::ck::<T>, &e.1), Some(e));
		ensure!(t.len() == n - j - 1, "len() = {} after removing {} of {} items", t.len(), j + 1, n);
		m.v[*i].3 = u64::MAX;
		if j % (n / 4 + 1) == n / 4 {
			store::fuel(u64::MAX);
			let live = Model { v: m.v.iter().filter(|e| e.3 == 0).copied().collect() };
			sweep(&t, &live, o, &mut rng, 5000);
			c.shape(walk(&t).hash());
		}
	}
	ensure!(t.is_empty() && t.root().is_none(), "the emptied tree still has a root");
	c.nontrivial = true;
	c.label = format!("{n} items, build {build}, drain {drain}, height {}", w.height);
}

pub fn run(x: &mut Ctx) {
	// Many small histories.
	for i in 0..x.reps(x.nm(2400, 4), 8) {
		x.case("keyed-tiny", i, |c| {
			let o = Order::pick(&mut c.rng);
			let r = *c.rng.pick(&[6i64, 12, 20, 40]);
			combo_plain!(i, history(c, 25, r * o.q, o, 1))
		});
	}
	for i in 0..x.reps(x.nm(600, 3), 8) {
		x.case("keyed-small", i, |c| {
			let o = Order::pick(&mut c.rng);
			let size = if c.miri { 40 } else { 140 };
			combo_plain!(i, history(c, size, size as i64 * 2 * o.q, o, 29))
		});
	}
	for i in 0..x.reps(x.nm(64, 0), 8) {
		if x.miri {
			break;
		}
		x.case("keyed-medium", i, |c| {
			let o = Order::pick(&mut c.rng);
			let size = *c.rng.pick(&[500usize, 1500, 4000]);
			combo_plain!(i, history(c, size, size as i64 * 2 * o.q, o, 997))
		});
	}
	// Every position of every shape.
	let max = x.nm(if x.thorough { 420 } else { 130 }, 45);
	for style in 0..crate::gen::STYLES {
		let mut n = if x.miri { 5 + style * 3 } else { 0 };
		while n <= max {
			let seed = (style * 100_000 + n) as u64;
			x.sys("keyed-single", seed, |c| {
				let pos = if c.miri { 4 } else if c.thorough { 400 } else { 60 };
				combo_plain!(seed, single(c, style, n, pos))
			});
			n += if x.miri { 40 } else if n < 48 { 1 } else if x.thorough { 2 } else { 5 };
		}
	}
	if !x.miri {
		for i in 0..x.reps(12, 4) {
			x.case("keyed-large", i, |c| {
				let n = if c.thorough { 60_000 } else { 12_000 };
				combo_plain!(i, large(c, n, (i / 4) as usize % 3, i as usize % 4))
			});
		}
	}
	if x.huge() {
		for i in 0..4 {
			x.case("keyed-huge", i, |c| combo_plain!(i, large(c, crate::gen::HUGE, i as usize % 3, 3 - i as usize)));
		}
	}
}
