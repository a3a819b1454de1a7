//! Full-API histories over several trees, watched by one of three monitors:
//! C05 (shape of the tree), C06 (item ledger), C08 (storage contract).
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::gen::{build, ck, ct, key_at, GAP, HUGE, STYLES};
use crate::rng::{mix, Rng};
use crate::shape::{walk, Walk};
use crate::store;
use crate::tok::{self, counted, Tok};
use crate::{combo_plain, ensure};
use raw_btree::{RawBTree, Storage};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq)]
pub enum Mon {
	Shape,
	Ledger,
	Storage,
	None,
}

#[derive(Clone)]
pub struct Cfg {
	pub mon: Mon,
	pub ops: usize,
	pub size: usize,
	/// Every how many operations the whole structure is walked.
	pub every: usize,
	/// Allow operations that leak items on purpose.
	pub forget: bool,
	/// Number of nodes and address operations only make sense on stores that count.
	pub counted: bool,
}

struct Hist<'c, T: Tok, S: Storage<T>> {
	cfg: Cfg,
	rng: Rng,
	trees: Vec<RawBTree<T, S>>,
	held: Vec<T>,
	forgotten: Vec<u64>,
	log: u64,
	seq: Vec<u64>,
	c: &'c mut Case,
	maxh: usize,
	peak: usize,
}

pub fn check_shape<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, what: &str) -> Walk<S::Node> {
	let w = walk(t);
	if let Err(e) = w.structure(t.len()) {
		crate::viol!("after {what}: {e}")
	}
	if let Err(e) = w.sorted(|k| k) {
		crate::viol!("after {what}: {e}")
	}
	let b = Walk::<S::Node>::height_bound(t.len());
	ensure!(w.height <= b, "after {what}: height {} exceeds {b} for {} items", w.height, t.len());
	ensure!(t.is_empty() == (t.len() == 0), "after {what}: is_empty() = {} with {} items", t.is_empty(), t.len());
	w
}

impl<'c, T: Tok, S: Storage<T>> Hist<'c, T, S> {
	fn l(&mut self, x: u64) {
		self.log = mix(self.log ^ x);
		self.seq.push(x);
	}
	fn keep(&mut self, x: Option<T>) {
		match x {
			Some(x) => {
				self.l(x.key() as u64);
				self.held.push(x);
			}
			None => self.l(u64::MAX),
		}
	}

	/// Structure of one tree after an operation.
	fn check_tree(&mut self, i: usize, what: &str) {
		let t = &self.trees[i];
		match self.cfg.mon {
			Mon::Shape => {
				let w = check_shape(t, what);
				self.maxh = self.maxh.max(w.height);
				self.peak = self.peak.max(t.len());
				let h = w.hash();
				count("trees_checked", 1);
				count("nodes_checked", w.nodes.len() as u64);
				self.c.shape(h);
			}
			_ => (),
		}
	}

	fn check_all(&mut self, what: &str) {
		match self.cfg.mon {
			Mon::Ledger => {
				let mut seen: HashSet<u64> = HashSet::new();
				let mut total = 0;
				for (j, t) in self.trees.iter().enumerate() {
					let w = walk(t);
					self.maxh = self.maxh.max(w.height);
					self.peak = self.peak.max(t.len());
					for (k, u) in &w.items {
						ensure!(tok::is_live(*u), "after {what}: item key={k} uid={u} is stored in tree {j} but was already dropped");
						ensure!(seen.insert(*u), "after {what}: item key={k} uid={u} is stored twice");
					}
					total += w.items.len();
					self.c.shape(w.hash());
				}
				for h in &self.held {
					ensure!(tok::is_live(h.uid()), "after {what}: item key={} was returned and is already dropped", h.key());
					ensure!(seen.insert(h.uid()), "after {what}: item key={} was returned and is still stored (or was returned twice)", h.key());
				}
				for u in &self.forgotten {
					ensure!(tok::is_live(*u), "after {what}: a forgotten item was dropped");
					ensure!(seen.insert(*u), "after {what}: a forgotten item is still stored");
				}
				let known = counted::<T>(total + self.held.len() + self.forgotten.len());
				ensure!(tok::live() == known, "after {what}: {} items are alive, but {} are stored, {} returned and {} forgotten", tok::live(), total, self.held.len(), self.forgotten.len());
				count("items_accounted", known as u64);
			}
			Mon::Storage => {
				let mut nodes = 0;
				for t in &self.trees {
					let w = walk(t);
					self.maxh = self.maxh.max(w.height);
					self.peak = self.peak.max(t.len());
					nodes += w.nodes.len();
					self.c.shape(w.hash());
				}
				if self.cfg.counted {
					ensure!(store::active() == nodes as i64, "after {what}: {} nodes are allocated but the trees are made of {nodes} (leak or early release)", store::active());
				}
				count("nodes_accounted", nodes as u64);
			}
			_ => (),
		}
	}

	/// Cheap conservation check after every operation.
	fn balance(&self, what: &str, drops0: u64, may_drop: u64) {
		if self.cfg.mon == Mon::Ledger {
			let d = tok::drops() - drops0;
			let may_drop = counted::<T>(may_drop as usize) as u64;
			ensure!(d == may_drop, "{what}: {d} items were dropped by the operation instead of {may_drop}");
			let stored: usize = self.trees.iter().map(|t| t.len()).sum();
			ensure!(
				tok::live() == counted::<T>(stored + self.held.len() + self.forgotten.len()),
				"after {what}: {} items are alive but len() adds up to {stored}, {} were returned and {} forgotten",
				tok::live(),
				self.held.len(),
				self.forgotten.len()
			);
		}
	}

	fn op(&mut self, n: usize, bias: usize) {
		store::fuel(4_000_000);
		let i = self.rng.below(self.trees.len());
		let range = (self.cfg.size as i64) * 2;
		let key = self.rng.range(0, range) * GAP + if self.rng.pct(25) { self.rng.range(1, GAP - 1) } else { 0 };
		let len = self.trees[i].len();
		let drops0 = tok::drops();
		let mut may_drop = 0;
		let insert_w = if len >= self.cfg.size * 2 { 5 } else { bias };
		let mut roll = self.rng.below(100);
		let what;
		if roll < 55 {
			// keyed updates
			roll = self.rng.below(100);
			if roll < insert_w {
				what = "insert";
				note(what, i as i64, key);
				let r = self.trees[i].insert(ct::<T>, T::new(key));
				self.keep(r);
			} else {
				what = "remove";
				let k = if self.rng.pct(85) && len > 0 {
					let r = self.rng.below(4);
					let t = &self.trees[i];
					match r {
						0 => t.first().map(|x| x.key()).unwrap_or(key),
						1 => t.last().map(|x| x.key()).unwrap_or(key),
						_ => {
							// nearest stored key
							match t.address_of(ck::<T>, &key) {
								Ok(_) => key,
								Err(Some(a)) => unsafe { t.normalize(a).or_else(|| t.previous_item_address(a)).and_then(|a| t.get_at(a)).map(|x| x.key()).unwrap_or(key) },
								Err(None) => key,
							}
						}
					}
				} else {
					key
				};
				note(what, i as i64, k);
				let r = self.trees[i].remove(ck::<T>, &k);
				self.keep(r);
			}
		} else if roll < 80 {
			// addressed updates
			let w = walk(&self.trees[i]);
			roll = self.rng.below(100);
			if roll < insert_w {
				what = "insert_at";
				let keys = w.keys();
				if keys.is_empty() {
					note(what, i as i64, key);
					unsafe { self.trees[i].insert_at(None, T::new(key)) };
				} else {
					let back: Vec<_> = w.positions().into_iter().filter(|p| p.off >= 0).collect();
					let p = &back[self.rng.below(back.len())];
					if let Some(k) = key_at(&keys, p.rank) {
						note(what, i as i64, p.rank as i64);
						if p.leaf && self.rng.pct(40) {
							unsafe { self.trees[i].insert_exactly_at(Some(p.addr), T::new(k), None) };
						} else {
							unsafe { self.trees[i].insert_at(Some(p.addr), T::new(k)) };
						}
						self.l(p.rank as u64);
					}
				}
			} else if roll < 92 {
				what = "remove_at";
				if !w.addrs.is_empty() {
					let r = self.rng.below(w.addrs.len());
					note(what, i as i64, r as i64);
					let a = w.addrs[r];
					match unsafe { self.trees[i].remove_at(a) } {
						Some((x, back)) => {
							self.l(back.is_some() as u64);
							if self.rng.pct(35) {
								// reinsert what was removed
								note("reinsert", x.key(), 0);
								unsafe { self.trees[i].insert_at(back, x) };
							} else {
								self.keep(Some(x));
							}
						}
						None => self.l(7),
					}
				}
			} else {
				what = "replace_at";
				if !w.addrs.is_empty() {
					let r = self.rng.below(w.addrs.len());
					note(what, i as i64, r as i64);
					let old = unsafe { self.trees[i].replace_at(w.addrs[r], T::new(w.items[r].0)) };
					self.keep(Some(old));
				}
			}
		} else if roll < 90 {
			// accesses
			match self.rng.below(7) {
				0 => {
					what = "get_mut";
					note(what, i as i64, key);
					if let Some(x) = self.trees[i].get_mut(ck::<T>, &key) {
						x.set_payload(n as u64)
					}
				}
				1 => {
					what = "iter_mut";
					note(what, i as i64, 0);
					for x in &mut self.trees[i] {
						let p = x.payload();
						x.set_payload(p ^ 1)
					}
				}
				2 => {
					what = "iter";
					note(what, i as i64, 0);
					let mut h = 0;
					for x in self.trees[i].iter().rev() {
						h = mix(h ^ x.key() as u64);
					}
					self.l(h);
				}
				3 => {
					what = "visit_from_leaves";
					note(what, i as i64, 0);
					let mut k = 0;
					self.trees[i].visit_from_leaves(|_| k += 1);
					self.trees[i].visit_from_leaves_mut(|_, node| k += node.item_count());
					self.l(k as u64);
				}
				4 => {
					what = "first_mut/last_mut";
					note(what, i as i64, 0);
					if let Some(x) = self.trees[i].first_mut() {
						x.set_payload(3)
					}
					if let Some(x) = self.trees[i].last_mut() {
						x.set_payload(4)
					}
				}
				5 => {
					what = "address walk";
					note(what, i as i64, 0);
					let t = &self.trees[i];
					let mut a = t.first_item_address();
					let mut k = 0;
					while let Some(x) = a {
						k += 1;
						a = unsafe { t.next_item_address(x) };
					}
					self.l(k);
				}
				_ => {
					what = "get";
					note(what, i as i64, key);
					let g = self.trees[i].get(ck::<T>, &key).map(|x| x.key());
					self.l(g.unwrap_or(-1) as u64);
				}
			}
		} else if self.rng.pct(30) {
			// whole-tree operations
			match self.rng.below(10) {
				8 if self.trees.len() > 1 => {
					what = "clone_from";
					let j = (i + 1) % self.trees.len();
					note(what, i as i64, j as i64);
					may_drop = len as u64;
					let mut t = std::mem::take(&mut self.trees[i]);
					t.clone_from(&self.trees[j]);
					self.trees[i] = t;
				}
				9 if self.trees.len() > 1 => {
					what = "swap";
					let j = (i + 1) % self.trees.len();
					note(what, i as i64, j as i64);
					let a = std::mem::take(&mut self.trees[i]);
					let b = std::mem::replace(&mut self.trees[j], a);
					self.trees[i] = b;
				}
				0 | 1 if self.trees.len() < 3 => {
					what = "clone";
					note(what, i as i64, len as i64);
					let t = self.trees[i].clone();
					self.trees.push(t);
					let j = self.trees.len() - 1;
					self.check_tree(j, "clone (the clone)");
				}
				2 => {
					what = "clear";
					note(what, i as i64, len as i64);
					may_drop = len as u64;
					self.trees[i].clear();
				}
				3 if self.cfg.forget => {
					what = "forget";
					note(what, i as i64, len as i64);
					let u = walk(&self.trees[i]).uids();
					self.forgotten.extend(u);
					self.trees[i].forget();
				}
				4 => {
					what = "drop tree";
					note(what, i as i64, len as i64);
					may_drop = len as u64;
					let t = self.trees.swap_remove(i);
					drop(t);
					if self.trees.is_empty() {
						self.trees.push(RawBTree::new())
					}
				}
				5 | 6 => {
					what = "into_iter";
					let t = self.trees.swap_remove(i);
					let take = if self.rng.pct(30) { len } else { self.rng.below(len + 1) };
					note(what, len as i64, take as i64);
					let mut it = t.into_iter();
					for _ in 0..take {
						let x = if self.rng.pct(50) { it.next() } else { it.next_back() };
						self.keep(x);
					}
					may_drop = (len - take) as u64;
					drop(it);
					if self.trees.is_empty() {
						self.trees.push(RawBTree::new())
					}
				}
				_ => {
					what = "build";
					if self.trees.len() < 3 {
						let n = self.rng.below(self.cfg.size);
						let style = self.rng.below(STYLES);
						note(what, style as i64, n as i64);
						let t = build(&mut self.rng, style, n);
						self.trees.push(t);
						may_drop = tok::drops() - drops0;
					}
				}
			}
		} else {
			what = "release returned items";
			note(what, self.held.len() as i64, 0);
			for x in &self.held {
				x.check();
			}
			may_drop = self.held.len() as u64;
			self.held.clear();
		}
		self.balance(what, drops0, may_drop);
		if n % self.cfg.every == 0 {
			for j in 0..self.trees.len() {
				self.check_tree(j, what);
			}
			self.check_all(what);
		} else if i < self.trees.len() && self.trees[i].len() <= 400 {
			self.check_tree(i, what);
		}
		let lens: u64 = self.trees.iter().map(|t| t.len() as u64).sum();
		self.l(lens);
	}
}

/// Plays one history; returns the sequence of observed results.
pub fn play<T: Tok, S: Storage<T>>(c: &mut Case, rng: Rng, cfg: Cfg) -> (u64, Vec<u64>) {
	let mut h: Hist<T, S> = Hist { cfg: cfg.clone(), rng, trees: vec![], held: vec![], forgotten: vec![], log: 0, seq: vec![], c, maxh: 0, peak: 0 };
	// (huge trees are really huge)
	let n0 = if cfg.size >= HUGE { cfg.size } else { h.rng.below(cfg.size + 1) };
	let style = h.rng.below(STYLES);
	let t = build(&mut h.rng, style, n0);
	h.trees.push(t);
	h.check_tree(0, "building");
	h.check_all("building");
	let mut bias = 60;
	for n in 0..cfg.ops {
		if n % (1 + cfg.ops / 5) == 0 {
			bias = *h.rng.pick(&[15, 35, 50, 70, 90]);
		}
		h.op(n, bias);
	}
	h.check_all("the history");
	let mut out = std::mem::take(&mut h.seq);
	for t in &h.trees {
		let w = walk(t);
		out.extend(w.items.iter().map(|x| x.0 as u64));
		out.push(w.hash());
	}
	let stored: usize = h.trees.iter().map(|t| t.len()).sum();
	let d0 = tok::drops();
	h.trees.clear();
	if cfg.mon == Mon::Ledger {
		ensure!(tok::drops() - d0 == counted::<T>(stored) as u64, "dropping the trees dropped {} items, {stored} were stored", tok::drops() - d0);
		for u in &h.forgotten {
			ensure!(tok::is_live(*u), "a forgotten item was dropped");
		}
		h.held.clear();
		ensure!(tok::live() == counted::<T>(h.forgotten.len()), "{} items are alive at the end, {} were forgotten", tok::live(), h.forgotten.len());
	}
	if cfg.mon == Mon::Storage {
		ensure!(store::active() == 0, "{} nodes are still allocated after all trees were dropped", store::active());
	}
	let (maxh, peak, log) = (h.maxh, h.peak, h.log);
	drop(h);
	c.nontrivial = true;
	c.label = format!("{} ops={} max height {maxh} peak {peak}", T::NAME, cfg.ops);
	count_max("max_height", maxh as u64);
	count_max("max_items", peak as u64);
	(log, out)
}

fn one<T: Tok, S: Storage<T>>(c: &mut Case, cfg: Cfg) {
	let rng = Rng::new(c.rng.next());
	play::<T, S>(c, rng, cfg);
}

fn drive(x: &mut Ctx, name: &str, mon: Mon, forget: bool, per: (u64, u64, u64)) {
	let counted = mon == Mon::Storage;
	for i in 0..x.reps(x.nm(per.0, 4), 8) {
		x.case(&format!("{name}-tiny"), i, |c| {
			let size = *c.rng.pick(&[4usize, 12, 20, 40]);
			let cfg = Cfg { mon, ops: if c.miri { 30 } else { 60 }, size, every: 1, forget, counted };
			combo_plain!(i, one(c, cfg))
		});
	}
	for i in 0..x.reps(x.nm(per.1, 2), 8) {
		x.case(&format!("{name}-small"), i, |c| {
			let size = *c.rng.pick(&[60usize, 100, 160]);
			let cfg = Cfg { mon, ops: if c.miri { 40 } else { 300 }, size: if c.miri { 50 } else { size }, every: if c.miri { 10 } else { 7 }, forget, counted };
			combo_plain!(i, one(c, cfg))
		});
	}
	if !x.miri {
		for i in 0..x.reps(per.2, 6) {
			x.case(&format!("{name}-medium"), i, |c| {
				let size = *c.rng.pick(&[500usize, 1500, 4000]);
				let cfg = Cfg { mon, ops: 500, size, every: 101, forget, counted };
				combo_plain!(i, one(c, cfg))
			});
		}
	}
}

pub fn run_shape(x: &mut Ctx) {
	// (under a leak checker, nothing is forgotten)
	let forget = !crate::ctx::SAN_MODE.load(std::sync::atomic::Ordering::Relaxed);
	drive(x, "shape", Mon::Shape, forget, (2400, 300, 24));
	// Every single insertion and removal position of many shapes.
	let max = x.nm(if x.thorough { 300 } else { 100 }, 40);
	for style in 0..STYLES {
		let mut n = if x.miri { 9 + style * 2 } else { 0 };
		while n <= max {
			x.sys("shape-single", (style * 100_000 + n) as u64, |c| combo_plain!(n, single(c, style, n, if c.miri { 5 } else if c.thorough { 1000 } else { 90 })));
			n += if x.miri { 31 } else if n < 40 { 1 } else { 7 };
		}
	}
	if !x.miri {
		for i in 0..x.reps(9, 4) {
			x.case("shape-large", i, |c| combo_plain!(i, large(c, i, if c.thorough { 50_000 } else { 10_000 })));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("shape-huge", i, |c| combo_plain!(i, large(c, i * 5, HUGE as i64)));
		}
	}
}

fn single<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, positions: usize) {
	let seed = c.rng.next();
	let mut rng = Rng::new(c.rng.next());
	let t0: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
	let w = check_shape(&t0, "building");
	c.shape(w.hash());
	drop(t0);
	let keys = w.keys();
	let mut todo: Vec<usize> = (0..=2 * keys.len()).collect();
	if todo.len() > positions {
		rng.shuffle(&mut todo);
		todo.truncate(positions);
	}
	for p in todo {
		let mut t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
		if p % 2 == 1 {
			note("single-remove", keys[p / 2], 0);
			t.remove(ck::<T>, &keys[p / 2]);
			c.shape(check_shape(&t, "remove").hash());
		} else if let Some(k) = key_at(&keys, p / 2) {
			note("single-insert", k, 0);
			t.insert(ct::<T>, T::new(k));
			c.shape(check_shape(&t, "insert").hash());
		}
		count("single_updates", 1);
	}
	c.nontrivial = n > 8;
	c.label = format!("style {style} n {}", keys.len());
}

fn large<T: Tok, S: Storage<T>>(c: &mut Case, i: u64, n: i64) {
	let every = n / 10;
	let mut keys: Vec<i64> = (0..n).collect();
	let mut t: RawBTree<T, S> = RawBTree::new();
	match i % 3 {
		0 => (),
		1 => keys.reverse(),
		_ => c.rng.shuffle(&mut keys),
	}
	for (j, k) in keys.iter().enumerate() {
		note("insert", *k, 0);
		t.insert(ct::<T>, T::new(*k));
		if j as i64 % every == 0 {
			c.shape(check_shape(&t, "insert").hash());
		}
	}
	let w = check_shape(&t, "building");
	count_max("max_height", w.height as u64);
	count_max("max_items", n as u64);
	match i / 3 % 3 {
		0 => c.rng.shuffle(&mut keys),
		1 => keys.reverse(),
		_ => (),
	}
	for (j, k) in keys.iter().enumerate() {
		note("remove", *k, 0);
		t.remove(ck::<T>, k);
		if j as i64 % every == 0 || n - (j as i64) < 300 {
			c.shape(check_shape(&t, "remove").hash());
		}
	}
	c.nontrivial = true;
	c.label = format!("{n} items, height {}", w.height);
}

pub fn run_ledger(x: &mut Ctx) {
	drive(x, "ledger", Mon::Ledger, !x.miri || x.leaky, (2400, 300, 24));
	if x.huge() {
		for i in 0..3 {
			x.case("ledger-huge", i, |c| combo_plain!(i, one(c, Cfg { mon: Mon::Ledger, ops: 60, size: HUGE, every: 30, forget: true, counted: false })));
		}
	}
}

/// The same history on storages of different kinds.
fn same(c: &mut Case, size: usize, ops: usize) {
	use crate::store::MonStorage as MS;
	use crate::tok::{TokB, TokS};
	use raw_btree::storage::BoxStorage as BS;
	let seed = c.rng.next();
	let cfg = |counted: bool, mon: Mon| Cfg { mon, ops, size, every: 50, forget: false, counted };
	let r = Rng::new(seed);
	let a = play::<TokB, BS>(c, r.clone(), cfg(false, Mon::None));
	let b = play::<TokB, MS<TokB, 0>>(c, r.clone(), cfg(true, Mon::Storage));
	let d = play::<TokB, MS<TokB, 1>>(c, r.clone(), cfg(true, Mon::Storage));
	let e = play::<TokB, MS<TokB, 3>>(c, r.clone(), cfg(true, Mon::Storage));
	let f = play::<TokS, MS<TokS, 6>>(c, r.clone(), cfg(true, Mon::Storage));
	for (name, o) in [("without dropper", &b), ("with dropper", &d), ("recycling", &e), ("recycling and moving nodes, without dropper", &f)] {
		if a.1 != o.1 {
			let i = a.1.iter().zip(&o.1).position(|(x, y)| x != y).unwrap_or(a.1.len().min(o.1.len()));
			crate::viol!("the storage {name} gives other results than BoxStorage: observation {i} is {:?} instead of {:?}", o.1.get(i), a.1.get(i))
		}
	}
	count("differential_histories", 5);
}

pub fn run_storage(x: &mut Ctx) {
	use crate::store::MonStorage as MS;
	use crate::tok::{TokB, TokL, TokS};
	fn dispatch(c: &mut Case, i: u64, cfg: Cfg) {
		match i % 4 {
			0 => one::<TokS, MS<TokS, 1>>(c, cfg),
			1 => one::<TokB, MS<TokB, 3>>(c, cfg),
			2 => one::<TokS, MS<TokS, 6>>(c, cfg),
			_ => one::<TokL, MS<TokL, 0>>(c, cfg),
		}
	}
	let forget = !x.miri || x.leaky;
	for i in 0..x.reps(x.nm(2400, 4), 8) {
		x.case("storage-tiny", i, |c| {
			let size = *c.rng.pick(&[4usize, 12, 20, 40]);
			let ops = if c.miri { 30 } else { 60 };
			dispatch(c, i, Cfg { mon: Mon::Storage, ops, size, every: 1, forget, counted: true })
		});
	}
	for i in 0..x.reps(x.nm(260, 2), 8) {
		x.case("storage-small", i, |c| {
			let (size, ops) = if c.miri { (50, 40) } else { (*c.rng.pick(&[60usize, 100, 160]), 300) };
			dispatch(c, i, Cfg { mon: Mon::Storage, ops, size, every: 5, forget, counted: true })
		});
	}
	for i in 0..x.reps(x.nm(200, 1), 8) {
		x.case("storage-differential", i, |c| {
			let (size, ops) = if c.miri { (30, 20) } else { (*c.rng.pick(&[12usize, 40, 120]), 150) };
			same(c, size, ops)
		});
	}
	if !x.miri {
		for i in 0..x.reps(16, 6) {
			x.case("storage-medium", i, |c| {
				let size = *c.rng.pick(&[500usize, 1500, 4000]);
				dispatch(c, i, Cfg { mon: Mon::Storage, ops: 400, size, every: 57, forget, counted: true })
			});
		}
	}
	if x.huge() {
		for i in 0..3 {
			x.case("storage-huge", i, |c| dispatch(c, i, Cfg { mon: Mon::Storage, ops: 60, size: HUGE, every: 30, forget, counted: true }));
		}
	}
}
