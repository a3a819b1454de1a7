//! C07: the workloads of the other properties, judged by the sanitizer that
//! the process runs under, plus item types of unusual layouts.
use crate::ctx::{count, expecting, note, violate, Case, Ctx, Kind, SAN_MODE};
use crate::ensure;
use crate::rng::Rng;
use crate::store::MonStorage;
use crate::tok::{Injected, TokZ};
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, RawBTree, Storage};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

/// An item that can be made from a key and tells its key, if it has one.
trait Val: Clone + 'static {
	fn make(k: i64) -> Self;
	/// `None` if all the values are the same.
	fn key(&self) -> Option<i64>;
	fn write(&mut self) {}
}

impl Val for () {
	fn make(_: i64) {}
	fn key(&self) -> Option<i64> {
		None
	}
}
impl Val for TokZ {
	fn make(_: i64) -> Self {
		TokZ::new()
	}
	fn key(&self) -> Option<i64> {
		None
	}
}
impl Val for u8 {
	fn make(k: i64) -> u8 {
		k as u8
	}
	fn key(&self) -> Option<i64> {
		Some(*self as i64)
	}
}
impl Val for String {
	fn make(k: i64) -> String {
		format!("{k:05}")
	}
	fn key(&self) -> Option<i64> {
		self.parse().ok()
	}
	fn write(&mut self) {
		let k = self.key().unwrap_or(0);
		*self = format!("{k:05}");
	}
}
impl Val for Box<i64> {
	fn make(k: i64) -> Self {
		Box::new(k)
	}
	fn key(&self) -> Option<i64> {
		Some(**self)
	}
	fn write(&mut self) {
		let k = **self;
		*self = Box::new(k);
	}
}
impl Val for Option<std::num::NonZeroU8> {
	fn make(k: i64) -> Self {
		std::num::NonZeroU8::new(k as u8)
	}
	fn key(&self) -> Option<i64> {
		Some(self.map(|x| x.get() as i64).unwrap_or(0))
	}
}
impl Val for (u8, u32, u16) {
	fn make(k: i64) -> Self {
		(1, k as u32, 2)
	}
	fn key(&self) -> Option<i64> {
		Some(self.1 as i64)
	}
	fn write(&mut self) {
		self.0 = 3;
		self.2 = 4;
	}
}
#[derive(Clone)]
#[repr(align(256))]
struct Aligned(u8);
impl Val for Aligned {
	fn make(k: i64) -> Self {
		Aligned(k as u8)
	}
	fn key(&self) -> Option<i64> {
		sane(self as *const Self as usize % 256 == 0, "an item is misaligned");
		Some(self.0 as i64)
	}
}
#[derive(Clone)]
#[repr(align(64))]
struct AlignedZst;
impl Val for AlignedZst {
	fn make(_: i64) -> Self {
		AlignedZst
	}
	fn key(&self) -> Option<i64> {
		sane(self as *const Self as usize % 64 == 0, "an item is misaligned");
		None
	}
}
impl Val for [u64; 40] {
	fn make(k: i64) -> Self {
		[k as u64; 40]
	}
	fn key(&self) -> Option<i64> {
		sane(self.iter().all(|x| *x == self[0]), "a large item is torn");
		Some(self[0] as i64)
	}
}
impl Val for std::rc::Rc<i64> {
	fn make(k: i64) -> Self {
		std::rc::Rc::new(k)
	}
	fn key(&self) -> Option<i64> {
		Some(**self)
	}
}
/// References to data that outlives the tree.
impl Val for &'static str {
	fn make(k: i64) -> Self {
		["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"][k as usize % 26]
	}
	fn key(&self) -> Option<i64> {
		Some(self.as_bytes()[0] as i64 - b'a' as i64)
	}
}

/// A memory oracle.
fn sane(ok: bool, what: &str) {
	if !ok {
		violate(Kind::Mem, what)
	}
}

fn order<V: Val>(a: &V, b: &V) -> Ordering {
	a.key().cmp(&b.key())
}

fn layout<V: Val, S: Storage<V>>(c: &mut Case, name: &str, ops: usize) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<V, S> = RawBTree::new();
	let mut m: BTreeMap<Option<i64>, ()> = BTreeMap::new();
	let range = 120;
	for _ in 0..ops {
		let k = rng.range(0, range);
		let v = V::make(k);
		let key = v.key();
		note("layout-op", k, t.len() as i64);
		match rng.below(16) {
			0..=6 => {
				let r = t.insert(order::<V>, v);
				ensure!(r.map(|x| x.key()) == m.insert(key, ()).map(|_| key), "{name}: insert gives another result");
			}
			7..=10 => {
				let r = t.remove(order::<V>, &v);
				ensure!(r.map(|x| x.key()) == m.remove(&key).map(|_| key), "{name}: remove gives another result");
			}
			11 => ensure!(t.get(order::<V>, &v).map(|x| x.key()) == m.get(&key).map(|_| key), "{name}: get gives another result"),
			12 => {
				if let Some(x) = t.get_mut(order::<V>, &v) {
					x.write()
				}
			}
			13 => {
				for x in t.iter_mut() {
					x.write()
				}
			}
			14 => {
				let u = t.clone();
				ensure!(u.iter().map(|x| x.key()).eq(m.keys().copied()), "{name}: clone differs");
				if rng.pct(50) {
					t = u
				}
			}
			_ => {
				let mut it = t.into_iter();
				for _ in 0..rng.below(6) {
					if rng.pct(50) {
						it.next();
					} else {
						it.next_back();
					}
				}
				t = RawBTree::new();
				m.clear();
				for x in it {
					m.insert(x.key(), ());
					t.insert(order::<V>, x);
				}
			}
		}
		ensure!(t.len() == m.len(), "{name}: len() = {} instead of {}", t.len(), m.len());
	}
	ensure!(t.iter().map(|x| x.key()).eq(m.keys().copied()) && t.iter().rev().map(|x| x.key()).eq(m.keys().rev().copied()), "{name}: iteration differs");
	// as many indistinguishable items as wanted, by address
	let mut u: RawBTree<V, S> = RawBTree::new();
	let many = if c.miri { 30 } else { 120 };
	let mut addr = None;
	for j in 0..many {
		unsafe {
			let a = u.insert_at(addr, V::make(j));
			addr = if rng.pct(50) {
				a
			} else if rng.pct(50) {
				u.first_item_address()
			} else {
				a.and_then(|a| u.next_back_address(a))
			};
		}
		if addr.is_none() {
			addr = u.first_item_address();
		}
		ensure!(u.len() == j as usize + 1, "{name}: len() = {} after {} insertions", u.len(), j + 1);
	}
	let mut k = many as usize;
	while k > (many / 4) as usize {
		unsafe {
			let mut a = u.first_item_address().unwrap();
			for _ in 0..rng.below(k) {
				a = u.next_item_address(a).unwrap();
			}
			match u.remove_at(a) {
				Some((_, _)) => k -= 1,
				None => crate::viol!("{name}: remove_at() gives nothing"),
			}
		}
	}
	ensure!(u.iter().count() == k && u.len() == k, "{name}: {} items left instead of {k}", u.len());
	if rng.pct(50) {
		u.clear();
	}
	drop(u);
	drop(t);
	count("layouts_exercised", 1);
	c.nontrivial = true;
	c.observe(rng.next());
	c.label = format!("{name}, {ops} operations");
}

/// Every public function of the tree, in a random order, with next to no
/// oracle of its own: the executions are what the sanitizer is to judge.
fn blend<V: Val, S: Storage<V>>(c: &mut Case, name: &str, ops: usize, size: usize) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<V, S> = RawBTree::new();
	let mut sum = 0u64;
	let range = (3 * size as i64).max(4);
	let mut grow = true;
	let mut touch = |v: &V| sum = sum.wrapping_add(v.key().unwrap_or(1) as u64);
	// an address: of an item, or next to one
	fn pick<V: Val, S: Storage<V>>(t: &RawBTree<V, S>, rng: &mut Rng, item: bool) -> Option<Address<S::Node>> {
		let mut a = t.first_item_address()?;
		for _ in 0..rng.below(t.len()) {
			a = match unsafe { t.next_item_address(a) } {
				Some(a) => a,
				None => break,
			}
		}
		if !item {
			for _ in 0..rng.below(3) {
				let b = unsafe { if rng.pct(50) { t.next_back_address(a) } else { t.previous_front_address(a) } };
				match b {
					Some(b) => a = b,
					None => break,
				}
			}
		}
		Some(a)
	}
	for _ in 0..ops {
		if t.len() >= size {
			grow = false
		} else if t.len() <= 1 {
			grow = true
		}
		let op = rng.below(40);
		note("blend", op as i64, t.len() as i64);
		let k = rng.range(0, range);
		unsafe {
			match op {
				0..=9 => {
					let n = if grow { 1 + rng.below(6) } else { 1 };
					for _ in 0..n {
						let v = V::make(rng.range(0, range));
						if let Some(old) = t.insert(order::<V>, v) {
							touch(&old)
						}
					}
				}
				10..=15 => {
					let n = if grow { 1 } else { 1 + rng.below(6) };
					for _ in 0..n {
						let v = V::make(rng.range(0, range));
						if let Some(old) = t.remove(order::<V>, &v) {
							touch(&old)
						}
					}
				}
				16 => {
					if let Some(v) = t.get(order::<V>, &V::make(k)) {
						touch(v)
					}
					if let Some(v) = t.get_mut(order::<V>, &V::make(k)) {
						v.write()
					}
				}
				17 => {
					if let Some(v) = t.first_mut() {
						v.write()
					}
					if let Some(v) = t.last_mut() {
						v.write()
					}
					if let (Some(a), Some(b)) = (t.first(), t.last()) {
						touch(a);
						touch(b)
					}
				}
				18 | 19 => {
					// insert at any back address
					let mut a = pick(&t, &mut rng, false);
					if a.is_some_and(|a| a.offset.is_before()) {
						a = a.and_then(|a| t.next_back_address(a))
					}
					if a.is_some() || t.is_empty() {
						if let Some(a) = t.insert_at(a, V::make(k)) {
							if let Some(v) = t.get_mut_at(a) {
								v.write()
							}
						}
					}
				}
				20..=22 => {
					// remove at an address, sometimes holding no item; sometimes reinsert
					if let Some(a) = pick(&t, &mut rng, op < 22) {
						let b = Address::new(a.node, a.offset);
						if let Some((v, a)) = t.remove_at(b) {
							touch(&v);
							if rng.pct(40) {
								t.insert_at(a, v);
							}
						}
					}
				}
				23 => {
					if let Some(a) = pick(&t, &mut rng, true) {
						let old = t.replace_at(a, V::make(k));
						touch(&old)
					}
				}
				24 => {
					if let Some(a) = pick(&t, &mut rng, false) {
						if let Some(v) = t.get_at(a) {
							touch(v)
						}
						if let Some(v) = t.get_mut_at(a) {
							v.write()
						}
						t.normalize(a);
						t.next_item_or_back_address(a);
						t.previous_item_address(a);
						t.next_item_address(a);
						if !a.offset.is_before() {
							let l = t.leaf_address(a);
							t.insert_exactly_at(Some(l), V::make(k), None);
						}
					}
				}
				25 | 26 => {
					for steps in [rng.below(t.len() + 2), usize::MAX] {
						let mut it = t.iter();
						let mut n = 0;
						while let Some(v) = if rng.pct(50) { it.next() } else { it.next_back() } {
							touch(v);
							n += 1;
							if n >= steps {
								break;
							}
						}
						let copy = it;
						for v in copy.rev() {
							touch(v)
						}
						for v in it {
							touch(v)
						}
						if size > 40 {
							break;
						}
					}
				}
				27 | 28 => {
					let mut it = t.iter_mut();
					let steps = rng.below(it.len() + 2);
					for _ in 0..steps {
						if let Some(v) = if rng.pct(50) { it.next() } else { it.next_back() } {
							v.write()
						}
					}
					if rng.pct(60) {
						it.for_each(|v| v.write())
					}
				}
				29 => {
					let u = t.clone();
					if rng.pct(50) {
						t = u
					}
				}
				30 => {
					let n = t.len();
					let mut it = std::mem::take(&mut t).into_iter();
					let steps = if rng.pct(70) { rng.below(n + 2) } else { 0 };
					for _ in 0..steps {
						if let Some(v) = if rng.pct(50) { it.next() } else { it.next_back() } {
							touch(&v)
						}
					}
					if rng.pct(60) {
						// and make a tree of the rest
						for v in it {
							let last = t.next_back_of_last();
							t.insert_at(last, v);
						}
					}
				}
				31 => {
					let mut ids = vec![];
					t.visit_from_leaves(|id| ids.push(id));
					for id in ids {
						let n = t.node(id);
						for i in 0..n.item_count() {
							if let Some(v) = n.item(i.into()) {
								touch(v)
							}
						}
						for ch in n.children() {
							n.child_index(ch);
						}
						for ch in n.children_with_separators() {
							let (a, _, b) = ch;
							for v in [a, b].into_iter().flatten() {
								touch(v)
							}
						}
						let n = t.node_mut(id);
						if let Some(v) = n.item_mut(0.into()) {
							v.write()
						}
					}
				}
				32 => t.visit_from_leaves_mut(|_, n| {
					for i in 0..n.item_count() + 1 {
						if let Some(v) = n.item_mut(i.into()) {
							v.write()
						}
					}
				}),
				33 => {
					// a comparator that gives up
					let left = Cell::new(rng.below(12));
					let cmp = |a: &V, b: &V| {
						if left.get() == 0 {
							std::panic::panic_any(Injected("cmp"))
						}
						left.set(left.get() - 1);
						order(a, b)
					};
					let v = V::make(k);
					let _ = expecting(|| match k % 4 {
						0 => drop(t.insert(cmp, v)),
						1 => drop(t.remove(cmp, &v)),
						2 => drop(t.get(cmp, &v).is_some()),
						_ => drop(t.get_mut(cmp, &v).is_some()),
					});
				}
				34 => {
					// a comparator that makes no sense
					let r = Cell::new(rng.next());
					let cmp = |_: &V, _: &V| {
						r.set(crate::rng::mix(r.get()));
						[Ordering::Less, Ordering::Equal, Ordering::Greater][(r.get() % 3) as usize]
					};
					let v = V::make(k);
					if rng.pct(50) {
						t.insert(cmp, v);
					} else {
						t.remove(cmp, &v);
					}
				}
				35 => {
					if let Ok(a) | Err(Some(a)) = t.address_of(order::<V>, &V::make(k)) {
						if let Some(v) = t.get_at(a) {
							touch(v)
						}
					}
				}
				36 if rng.pct(20) => {
					t.clear();
					t.clear()
				}
				37 if rng.pct(20) => {
					// forgotten items are not leaked nodes: dropped by hand
					if !std::mem::needs_drop::<V>() {
						t.forget()
					}
				}
				_ => {
					// what a user does most
					let mut a = t.first_item_address();
					while let Some(x) = a {
						if let Some(v) = t.get_at(x) {
							touch(v)
						}
						a = t.next_item_or_back_address(x);
						if rng.pct(5) {
							break;
						}
						if a.is_some_and(|a| t.get_at(a).is_none()) {
							break;
						}
					}
				}
			}
		}
	}
	if rng.pct(30) {
		let mut it = t.into_iter();
		it.next_back();
		it.next();
	} else {
		drop(t)
	}
	count("blended_operations", ops as u64);
	count("items_touched_checksum_low", sum & 1);
	c.nontrivial = true;
	c.label = format!("{name}, {ops} blended operations, up to {size} items");
}

trait LastBack<N> {
	fn next_back_of_last(&self) -> Option<Address<N>>;
}
impl<V, S: Storage<V>> LastBack<S::Node> for RawBTree<V, S> {
	fn next_back_of_last(&self) -> Option<Address<S::Node>> {
		let mut id = self.root()?;
		unsafe {
			loop {
				let n = self.node(id);
				match n.child_id_opt(n.item_count()) {
					Some(c) => id = c,
					None => return Some(Address::new(id, n.item_count().into())),
				}
			}
		}
	}
}

fn blends(x: &mut Ctx) {
	macro_rules! all {
		($($n:literal: $t:ty),*) => {
			for i in 0..x.reps(x.nm(40, 5), x.nm(6, 8)) {
				$(
					x.case(concat!("blend-", $n), i, |c| {
						let (ops, size) = if c.miri { (60, [12, 60, 30, 110, 20][i as usize % 5]) } else { (400, [12, 60, 30, 110, 20, 400][i as usize % 6]) };
						if i % 5 == 1 {
							blend::<$t, MonStorage<$t, 7>>(c, $n, ops, size)
						} else if i % 5 == 3 && !c.miri {
							blend::<$t, MonStorage<$t, 0>>(c, $n, ops, size)
						} else {
							blend::<$t, BoxStorage>(c, $n, ops, size)
						}
					});
				)*
			}
		};
	}
	all!("unit": (), "counted-zst": TokZ, "u8": u8, "String": String, "Box": Box<i64>, "niche": Option<std::num::NonZeroU8>,
		"padded": (u8, u32, u16), "align256": Aligned, "aligned-zst": AlignedZst, "large": [u64; 40], "Rc": std::rc::Rc<i64>, "static-str": &'static str);
}

fn layouts(x: &mut Ctx) {
	macro_rules! all {
		($($n:literal: $t:ty),*) => {
			for i in 0..x.reps(x.nm(12, 1), 6) {
				$(
					x.case(concat!("layout-", $n), i, |c| {
						let ops = if c.miri { 50 } else { 400 };
						if i % 3 == 1 && !c.miri {
							layout::<$t, MonStorage<$t, 3>>(c, $n, ops)
						} else {
							layout::<$t, BoxStorage>(c, $n, ops)
						}
					});
				)*
			}
		};
	}
	all!("unit": (), "counted-zst": TokZ, "u8": u8, "String": String, "Box": Box<i64>, "niche": Option<std::num::NonZeroU8>,
		"padded": (u8, u32, u16), "align256": Aligned, "aligned-zst": AlignedZst, "large": [u64; 40], "Rc": std::rc::Rc<i64>, "static-str": &'static str);
}

/// Keeping several references of one mutable iterator: a recorded finding.
fn held(c: &mut Case) {
	let mut t: RawBTree<i32> = RawBTree::new();
	for i in 0..5 {
		t.insert(|a, b| a.cmp(b), i);
	}
	let v: Vec<&mut i32> = t.iter_mut().collect();
	for x in v {
		*x += 1;
	}
	note("held", 0, 0);
	c.nontrivial = true;
}

/// Same, the references being used in turn.
fn held_in_use(c: &mut Case) {
	let mut t: RawBTree<i32> = RawBTree::new();
	for i in 0..5 {
		t.insert(|a, b| a.cmp(b), i);
	}
	let mut it = t.iter_mut();
	let a = it.next().unwrap();
	*a += 1;
	let b = it.next().unwrap();
	*b += 1;
	*a += 1;
	note("held-in-use", 0, 0);
	c.nontrivial = true;
}

/// Same, with a reference from each end of a tree of several nodes.
fn held_apart(c: &mut Case) {
	let mut t: RawBTree<i32> = RawBTree::new();
	for i in 0..40 {
		t.insert(|a, b| a.cmp(b), i);
	}
	let mut it = t.iter_mut();
	let a = it.next().unwrap();
	*a += 1;
	let b = it.next_back().unwrap();
	*b += 1;
	*a += 1;
	note("held-apart", 0, 0);
	c.nontrivial = true;
}

pub fn run_held(x: &mut Ctx) {
	x.case("itermut-held", 0, held);
	x.case("itermut-held-in-use", 0, held_in_use);
	x.case("itermut-held-apart", 0, held_apart);
}

pub fn run_blend(x: &mut Ctx) {
	SAN_MODE.store(true, Relaxed);
	blends(x);
}

pub fn run(x: &mut Ctx) {
	SAN_MODE.store(true, Relaxed);
	use super::*;
	if x.leaky {
		// what is allowed to leak; leaks are not judged in this group
		whole::run_clear(x);
		hist::run_ledger(x);
		faults::run(x);
		array::run(x);
		#[cfg(debug_assertions)]
		validate::run(x);
		return;
	}
	layouts(x);
	c01::run(x);
	iters::run_shared(x);
	iters::run_owning(x);
	iters::run_mut(x);
	hist::run_shape(x);
	nested::run(x);
	if x.miri {
		// natively, these forget items
		hist::run_ledger(x);
		hist::run_storage(x);
		whole::run_clear(x);
	}
	addr::run_insert(x);
	super::forest::run(x);
	addr::run_remove(x);
	addr::run_items(x);
	addr::run_moves(x);
	whole::run_clone(x);
	whole::run_visit(x);
	// panics are slow to unwind
	let scale = x.scale;
	x.scale = scale / 3;
	cmp::run_args(x);
	x.scale = scale;
	cmp::run_chaos(x);
	item::run(x);
	dot::run(x);
	array::run(x);
	if x.miri {
		node::run(x);
	}
}
