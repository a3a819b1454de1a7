//! C25: cost of the operations, in comparator calls, node accesses, allocations.
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::gen::{build, key_at, STYLES};
use crate::rng::Rng;
use crate::shape::walk;
use crate::store::{self, counters, Counters, MonStorage};
use crate::tok::{Tok, TokS};
use crate::{ensure, viol};
use raw_btree::{RawBTree, Storage};
use std::cell::Cell;

/// Comparator calls per level of the tree: a linear scan of a node is accepted.
const CMP_PER_LEVEL: u64 = 12;
/// Node accesses per level of the tree: of a lookup or an address step (about
/// 3 observed) and of an update (about 9 observed).
const ACC_READ: u64 = 5;
const ACC_UPDATE: u64 = 20;
/// Node accesses per item of a full iteration (about 5 observed).
const ACC_PER_ITEM: u64 = 10;

struct Meter<'a> {
	what: &'a str,
	update: bool,
	h: u64,
	n: usize,
	c0: Counters,
	cmp: Cell<u64>,
}
impl<'a> Meter<'a> {
	fn new(what: &'a str, h: usize, n: usize) -> Self {
		let m = Meter { what, update: what == "insert" || what == "remove", h: h as u64, n, c0: counters(), cmp: Cell::new(0) };
		// a runaway operation is stopped without waiting for its end
		store::fuel(m.max_access() + 200_000);
		note("measure", h as i64, n as i64);
		m
	}
	fn max_cmp(&self) -> u64 {
		CMP_PER_LEVEL * self.h + 8
	}
	fn max_access(&self) -> u64 {
		if self.update {
			ACC_UPDATE * self.h + 40
		} else {
			ACC_READ * self.h + 20
		}
	}
	fn tick(&self) {
		self.cmp.set(self.cmp.get() + 1);
		if self.cmp.get() > self.max_cmp() {
			viol!("{} in a tree of {} items and height {}: more than {} comparator calls", self.what, self.n, self.h, self.max_cmp())
		}
	}
	/// `alloc`: nodes that may be allocated, `release`: released.
	fn end(self, alloc: u64, release: u64) -> (u64, u64) {
		store::fuel(u64::MAX);
		let c = counters();
		let a = c.access() - self.c0.access();
		ensure!(a <= self.max_access(), "{} in a tree of {} items and height {}: {a} node accesses", self.what, self.n, self.h);
		ensure!(c.allocs - self.c0.allocs <= alloc, "{} in a tree of {} items and height {}: {} nodes allocated", self.what, self.n, self.h, c.allocs - self.c0.allocs);
		let r = c.releases + c.dropped - self.c0.releases - self.c0.dropped;
		ensure!(r <= release, "{} in a tree of {} items and height {}: {r} nodes released", self.what, self.n, self.h);
		count("operations_measured", 1);
		count_max("max_comparisons_per_level_x100", 100 * self.cmp.get() / self.h.max(1));
		count_max("max_accesses_per_level_x100", 100 * a / self.h.max(1));
		count_max("max_allocs", c.allocs - self.c0.allocs);
		(a, self.cmp.get())
	}
}

fn measure<S: Storage<TokS>>(c: &mut Case, style: usize, n: usize, probes: usize) {
	let mut t: RawBTree<TokS, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let (h, len) = (w.height, w.items.len());
	let keys = w.keys();
	drop(w);
	let h1 = h as u64 + 1;
	for _ in 0..probes {
		let p = c.rng.below(2 * len + 1);
		let k = if p % 2 == 1 {
			keys[p / 2]
		} else {
			match key_at(&keys, p / 2) {
				Some(k) => k,
				None => continue,
			}
		};
		let m = Meter::new("get", h, len);
		let r = t.get(
			|a: &TokS, q: &i64| {
				m.tick();
				a.key().cmp(q)
			},
			&k,
		);
		let _ = r;
		m.end(0, 0);
		let m = Meter::new("get_mut", h, len);
		let _ = t.get_mut(
			|a: &TokS, q: &i64| {
				m.tick();
				a.key().cmp(q)
			},
			&k,
		);
		m.end(0, 0);
		let m = Meter::new("address_of", h, len);
		let _ = t.address_of(
			|a: &TokS, q: &i64| {
				m.tick();
				a.key().cmp(q)
			},
			&k,
		);
		m.end(0, 0);
		for (what, i) in [("first", 0), ("last", 1), ("first_mut", 2), ("last_mut", 3), ("first_item_address", 4)] {
			let m = Meter::new(what, h, len);
			match i {
				0 => drop(t.first().map(|x| x.key())),
				1 => drop(t.last().map(|x| x.key())),
				2 => drop(t.first_mut().map(|x| x.key())),
				3 => drop(t.last_mut().map(|x| x.key())),
				_ => drop(t.first_item_address()),
			}
			m.end(0, 0);
		}
		// an update and its inverse
		let insert = |t: &mut RawBTree<TokS, S>| {
			let m = Meter::new("insert", h + 1, len);
			let r = t.insert(
				|a, b| {
					m.tick();
					a.key().cmp(&b.key())
				},
				TokS::new(k),
			);
			m.end(h1, 0);
			r
		};
		let remove = |t: &mut RawBTree<TokS, S>| {
			let m = Meter::new("remove", h + 1, len);
			let r = t.remove(
				|a: &TokS, q: &i64| {
					m.tick();
					a.key().cmp(q)
				},
				&k,
			);
			m.end(0, h1);
			r
		};
		if p % 2 == 1 {
			remove(&mut t);
			insert(&mut t);
		} else {
			insert(&mut t);
			remove(&mut t);
		}
		if let Ok(a) = t.address_of(|a: &TokS, q: &i64| a.key().cmp(q), &k) {
			for (what, i) in [("next_item_address", 0), ("previous_item_address", 1), ("next_back_address", 2), ("previous_front_address", 3), ("normalize", 4), ("get_at", 5)] {
				let m = Meter::new(what, h + 1, len);
				unsafe {
					match i {
						0 => drop(t.next_item_address(a)),
						1 => drop(t.previous_item_address(a)),
						2 => drop(t.next_back_address(a)),
						3 => drop(t.previous_front_address(a)),
						4 => drop(t.normalize(a)),
						_ => drop(t.get_at(a).map(|x| x.key())),
					}
				}
				m.end(0, 0);
			}
		}
	}
	// iteration
	let lim = ACC_PER_ITEM * len as u64 + 100;
	for way in 0..5 {
		let c0 = counters();
		store::fuel(lim + 200_000);
		let mut k = 0usize;
		match way {
			0 => k = t.iter().count(),
			1 => t.iter().rev().for_each(|_| k += 1),
			2 => t.iter_mut().for_each(|_| k += 1),
			3 => t.iter_mut().rev().for_each(|_| k += 1),
			_ => {
				let mut it = t.iter();
				while it.next().is_some() {
					k += 1;
					if it.next_back().is_some() {
						k += 1
					}
				}
			}
		}
		let a = counters().access() - c0.access();
		note("iterate", k as i64, a as i64);
		ensure!(a <= lim, "a full iteration (way {way}) over {len} items accessed {a} nodes");
		ensure!(counters().allocs == c0.allocs, "an iteration allocated nodes");
		count("iterations_measured", 1);
		if len > 0 {
			count_max("max_accesses_per_iterated_item_x100", 100 * a / len as u64);
		}
	}
	let c0 = counters();
	store::fuel(lim + 200_000);
	let back = c.rng.pct(50);
	let k = if back { t.into_iter().rev().count() } else { t.into_iter().count() };
	let a = counters().access() - c0.access();
	ensure!(a <= lim, "consuming {k} items accessed {a} nodes");
	store::fuel(u64::MAX);
	c.nontrivial = len > 8;
	c.label = format!("style {style} n {len} height {h}");
	count_max("max_height", h as u64);
	count_max("max_items", len as u64);
}

/// Lookups allocate nothing at all.
#[cfg(not(miri))]
fn no_heap(c: &mut Case, n: usize) {
	use crate::alloc::heap;
	let mut t: RawBTree<u64> = RawBTree::new();
	for _ in 0..n {
		t.insert(|a: &u64, b: &u64| a.cmp(b), c.rng.next() % (3 * n as u64));
	}
	let k = c.rng.next() % (3 * n as u64 + 1);
	note("heap-free", n as i64, k as i64);
	let cmp = |a: &u64, b: &u64| a.cmp(b);
	let mut x = 0u64;
	for (what, i) in [("get", 0), ("get_mut", 1), ("first", 2), ("last", 3), ("first_mut", 4), ("last_mut", 5)] {
		let h = heap();
		match i {
			0 => x ^= t.get(cmp, &k).copied().unwrap_or(0),
			1 => x ^= t.get_mut(cmp, &k).copied().unwrap_or(0),
			2 => x ^= t.first().copied().unwrap_or(0),
			3 => x ^= t.last().copied().unwrap_or(0),
			4 => x ^= t.first_mut().copied().unwrap_or(0),
			_ => x ^= t.last_mut().copied().unwrap_or(0),
		}
		let g = heap();
		ensure!(g == h, "{what}: {} heap allocations in a tree of {} items", g.total - h.total, t.len());
		count("heap_free_reads", 1);
	}
	c.observe(x);
	c.nontrivial = n > 8;
}

pub fn run(x: &mut Ctx) {
	#[cfg(not(miri))]
	for i in 0..x.reps(200, 5) {
		x.case("heap-free", i, |c| {
			let n = 1 + c.rng.below(600);
			no_heap(c, n)
		});
	}
	let sizes: Vec<usize> = if x.miri { vec![20] } else { vec![0, 1, 3, 8, 9, 20, 40, 63, 64, 100, 150, 250, 400, 700, 1000, 2000, 4000, 10_000] };
	let mult = x.reps(1, 4);
	for r in 0..mult {
		for style in 0..STYLES {
			for n in &sizes {
				let n = *n;
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				x.case("cost", i, |c| match i % 3 {
					0 => measure::<MonStorage<TokS, 0>>(c, style, n, 60),
					1 => measure::<MonStorage<TokS, 1>>(c, style, n, 60),
					_ => measure::<MonStorage<TokS, 3>>(c, style, n, 60),
				});
			}
		}
	}
	if !x.miri {
		for i in 0..x.reps(4, 6) {
			let n = if i % 2 == 0 { 100_000 } else { 40_000 };
			x.case("cost-large", i, |c| measure::<MonStorage<TokS, 1>>(c, i as usize * 5 % STYLES, n, 400));
		}
	}
}
