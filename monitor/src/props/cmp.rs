//! C18 (comparator arguments and panics) and C19 (inconsistent comparators).
use crate::ctx::{count, count_max, expecting, note, Case, Ctx};
use crate::gen::{build, ck, ct, key_at, GAP, STYLES};
use crate::rng::{mix, Rng};
use crate::shape::walk;
use crate::store;
use crate::tok::{self, counted, Injected, Tok};
use crate::{combo_plain, ensure, viol};
use raw_btree::{RawBTree, Storage};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	Get,
	GetMut,
	AddressOf,
	Insert,
	Remove,
}
const OPS: [Op; 5] = [Op::Get, Op::GetMut, Op::AddressOf, Op::Insert, Op::Remove];

struct Probe<'a> {
	stored: &'a HashSet<u64>,
	calls: Cell<usize>,
	/// Panic at this call.
	at: usize,
}

impl Probe<'_> {
	fn item<T: Tok>(&self, a: &T, op: Op) {
		let u = a.uid();
		ensure!(self.stored.contains(&u), "{op:?}: the first argument of the comparator is item key={} uid={u}, which is not stored in the tree", a.key());
		let n = self.calls.get();
		self.calls.set(n + 1);
		if n == self.at {
			std::panic::panic_any(Injected("cmp"))
		}
	}
}

/// Runs one operation; the result is true if it found or replaced something.
fn apply<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, op: Op, k: i64, p: &Probe, fresh: &mut Option<u64>) -> (bool, Option<T>) {
	let key = k;
	let kp = &key as *const i64 as usize;
	let f = |a: &T, b: &i64| {
		ensure!(b as *const i64 as usize == kp && *b == k, "{op:?}: the second argument of the comparator is not the searched key");
		p.item(a, op);
		a.key().cmp(b)
	};
	match op {
		Op::Get => (t.get(f, &key).is_some(), None),
		Op::GetMut => (t.get_mut(f, &key).is_some(), None),
		Op::AddressOf => (t.address_of(f, &key).is_ok(), None),
		Op::Remove => {
			let r = t.remove(f, &key);
			(r.is_some(), r)
		}
		Op::Insert => {
			let x = T::new(k);
			let u = x.uid();
			*fresh = Some(u);
			let r = t.insert(
				|a, b| {
					ensure!(b.uid() == u, "insert: the second argument of the comparator is item uid={} instead of the inserted item uid={u}", b.uid());
					p.item(a, op);
					a.key().cmp(&b.key())
				},
				x,
			);
			(r.is_some(), r)
		}
	}
}

fn snapshot<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>) -> (Vec<(i64, u64, u64)>, u64, usize) {
	let w = walk(t);
	let v = w.addrs.iter().map(|a| unsafe { t.get_at(*a) }.map(|x| (x.key(), x.uid(), x.payload())).unwrap_or((0, 0, 0))).collect();
	(v, w.hash(), t.len())
}

fn args<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, probes: usize) {
	let seed = c.rng.next();
	let mut t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let keys = w.keys();
	let mut todo: Vec<usize> = (0..=2 * keys.len()).collect();
	if todo.len() > probes {
		c.rng.shuffle(&mut todo);
		todo.truncate(probes);
	}
	for p in todo {
		let k = if p % 2 == 1 {
			keys[p / 2]
		} else {
			match key_at(&keys, p / 2) {
				Some(k) => k,
				None => continue,
			}
		};
		for op in OPS {
			let before = snapshot(&t);
			let stored: HashSet<u64> = before.0.iter().map(|x| x.1).collect();
			let present = before.0.iter().any(|x| x.0 == k);
			// injected panic at each call in turn, until the operation completes
			let mut at = 0;
			loop {
				ensure!(at < 200, "{op:?}: more than {at} comparator calls in a tree of {n} items");
				let pr = Probe { stored: &stored, calls: Cell::new(0), at };
				let mut fresh = None;
				note("cmp-op", op as i64, at as i64);
				let (live0, drops0, act0) = (tok::live(), tok::drops(), store::active());
				store::fuel(500_000);
				let r = expecting(|| apply(&mut t, op, k, &pr, &mut fresh));
				store::fuel(u64::MAX);
				count("comparator_calls", pr.calls.get() as u64);
				match r {
					Err(p) => {
						ensure!(p.is::<Injected>(), "{op:?}: the panic of the comparator did not reach the caller: {}", crate::ctx::panic_msg(&*p));
						count("comparator_panics", 1);
						let after = snapshot(&t);
						ensure!(after.0 == before.0 && after.2 == before.2, "{op:?}(key={k}): a panic at comparator call {at} changed the tree from {} to {} items", before.2, after.2);
						if let Err(e) = walk(&t).structure(t.len()) {
							viol!("{op:?}(key={k}): a panic at comparator call {at} left a malformed tree: {e}")
						}
						ensure!(tok::live() == live0, "{op:?}: {} items are alive instead of {live0} after a panic of the comparator", tok::live());
						let expect = counted::<T>((op == Op::Insert) as usize) as u64;
						ensure!(tok::drops() - drops0 == expect, "{op:?}: {} items were dropped by the panic instead of {expect}", tok::drops() - drops0);
						if let Some(u) = fresh {
							ensure!(!T::DROPS || !tok::is_live(u), "insert: the item that was to be inserted is not dropped");
						}
						ensure!(store::active() == act0, "{op:?}: a panic of the comparator leaked nodes");
						at += 1;
					}
					Ok((found, item)) => {
						ensure!(pr.calls.get() <= at, "{op:?}: the panic raised by the comparator at call {at} was swallowed");
						ensure!(pr.calls.get() == at, "{op:?}: {} comparator calls, {at} before", pr.calls.get());
						ensure!(at > 0 || before.2 == 0, "{op:?}: decided without calling the comparator in a tree of {} items", before.2);
						ensure!(found == present, "{op:?}(key={k}) after comparator panics: {} although the key is {}", if found { "found" } else { "not found" }, if present { "stored" } else { "absent" });
						// back to the original content
						match (op, item) {
							(Op::Remove, Some(x)) => drop(t.insert(ct::<T>, x)),
							(Op::Insert, Some(_)) => (),
							(Op::Insert, None) => drop(t.remove(ck::<T>, &k)),
							_ => (),
						}
						break;
					}
				}
			}
			count("operations_probed", 1);
		}
	}
	c.nontrivial = keys.len() > 1;
	c.label = format!("style {style} n {} height {}", keys.len(), w.height);
	count_max("max_height", w.height as u64);
}

/// The searches and insertions of the nodes themselves.
fn on_nodes<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, most: usize) {
	let mut t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let mut todo: Vec<usize> = (0..w.nodes.len()).collect();
	c.rng.shuffle(&mut todo);
	todo.truncate(most);
	if !todo.contains(&0) && !w.nodes.is_empty() {
		todo.push(0);
	}
	for i in todo {
		let nd = &w.nodes[i];
		let own: Vec<i64> = nd.items.iter().map(|x| x.0).collect();
		let stored: HashSet<u64> = nd.items.iter().map(|x| x.1).collect();
		let mut keys = own.clone();
		keys.extend((0..=own.len()).filter_map(|g| key_at(&own, g)));
		if c.miri {
			c.rng.shuffle(&mut keys);
			keys.truncate(2);
		}
		for k in keys {
			for op in [Op::Get, Op::GetMut, Op::AddressOf, Op::Insert] {
				let before = snapshot(&t);
				let present = own.contains(&k);
				let mut at = 0;
				loop {
					ensure!(at < 100, "{op:?}: more than {at} comparator calls in a node of {} items", own.len());
					let pr = Probe { stored: &stored, calls: Cell::new(0), at };
					note("cmp-node-op", op as i64, at as i64);
					let (live0, drops0) = (tok::live(), tok::drops());
					let key = k;
					let kp = &key as *const i64 as usize;
					let f = |a: &T, b: &i64| {
						ensure!(b as *const i64 as usize == kp && *b == k, "{op:?} in a node: the second argument of the comparator is not the searched key");
						pr.item(a, op);
						a.key().cmp(b)
					};
					let r = expecting(|| {
						let node = unsafe { t.node_mut(nd.id) };
						match op {
							Op::Get => matches!(node.get(f, &key), Ok(Some(_))),
							Op::GetMut => matches!(node.get_mut(f, &key), Ok(Some(_))),
							Op::AddressOf => node.offset_of(f, &key).is_ok(),
							_ => {
								let x = T::new(k);
								let u = x.uid();
								let g = |a: &T, b: &T| {
									ensure!(b.uid() == u, "insert_by_key: the second argument of the comparator is not the inserted item");
									pr.item(a, op);
									a.key().cmp(&b.key())
								};
								match node.insert_by_key(g, x) {
									// back to the original content
									Ok((o, Some(old))) => {
										let new = std::mem::replace(node.item_mut(o).unwrap(), old);
										ensure!(new.uid() == u, "insert_by_key: offset {o} does not hold the inserted item");
										true
									}
									Ok((o, None)) => {
										match node {
											raw_btree::Node::Leaf(l) => ensure!(l.remove(o).uid() == u, "insert_by_key: offset {o} does not hold the inserted item"),
											_ => viol!("insert_by_key inserts in an internal node"),
										}
										false
									}
									Err(e) => {
										ensure!(e.item.uid() == u, "insert_by_key gives back another item");
										false
									}
								}
							}
						}
					});
					count("comparator_calls", pr.calls.get() as u64);
					let after = snapshot(&t);
					ensure!(after == before, "{op:?}(key={k}) in a node of {} items, panicking at comparator call {at}: the tree changed", own.len());
					ensure!(tok::live() == live0, "{op:?} in a node: {} items are alive instead of {live0}", tok::live());
					let gone = counted::<T>((op == Op::Insert) as usize) as u64;
					ensure!(tok::drops() - drops0 == gone, "{op:?} in a node: {} items were dropped instead of {gone}", tok::drops() - drops0);
					match r {
						Err(p) => {
							ensure!(p.is::<Injected>(), "{op:?} in a node: the panic of the comparator did not reach the caller: {}", crate::ctx::panic_msg(&*p));
							count("comparator_panics", 1);
							at += 1;
						}
						Ok(found) => {
							ensure!(pr.calls.get() <= at, "{op:?} in a node: the panic raised by the comparator at call {at} was swallowed");
							ensure!(pr.calls.get() == at, "{op:?} in a node: {} comparator calls, {at} before", pr.calls.get());
							ensure!(found == present, "{op:?}(key={k}) in a node: {} although the key is {}", if found { "found" } else { "not found" }, if present { "there" } else { "not there" });
							break;
						}
					}
				}
				count("node_operations_probed", 1);
			}
		}
	}
	c.nontrivial = n > 1;
	c.label = format!("style {style} n {n} nodes {}", w.nodes.len());
}

/// Unsized and borrowed keys.
fn borrowed(c: &mut Case, n: usize) {
	let mut t: RawBTree<String> = RawBTree::new();
	for _ in 0..n {
		let s = format!("{:03}", c.rng.below(400));
		t.insert(|a: &String, b: &String| a.cmp(b), s);
	}
	for k in (0..400).step_by(if c.miri { 23 } else { 1 }) {
		let s = format!("{k:03}");
		let sp = s.as_ptr() as usize;
		let all: HashSet<usize> = t.iter().map(|x| x as *const String as usize).collect();
		let f = |a: &String, b: &str| {
			ensure!(b.as_ptr() as usize == sp && b.len() == 3, "the second argument is not the searched key");
			ensure!(all.contains(&(a as *const String as usize)), "the first argument is not a stored item");
			a.as_str().cmp(b)
		};
		let g = t.get(f, s.as_str()).cloned();
		let e = t.iter().find(|x| **x == s).cloned();
		ensure!(g == e, "get({s}) = {g:?} instead of {e:?}");
	}
	c.nontrivial = n > 8;
	c.observe(n as u64);
}

fn sizes(x: &Ctx) -> Vec<usize> {
	if x.miri {
		vec![0, 1, 9, 40]
	} else {
		let mut v: Vec<usize> = (0..=30).collect();
		v.extend([35, 40, 50, 60, 64, 73, 80, 90, 100, 128, 150, 200, 300, 500]);
		if x.thorough {
			v.extend([1000, 3000]);
			v.extend(31..=110);
		}
		v
	}
}

pub fn run_args(x: &mut Ctx) {
	for r in 0..x.reps(x.nm(3, 1), 3) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(4) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				let probes = if x.miri { 1 } else if n > 100 { 10 } else { 24 };
				x.case("comparator", i, |c| combo_plain!(i / 100_000 + i % 100_000, args(c, style, n, probes)));
				x.case("comparator-nodes", i, |c| combo_plain!(i / 100_000 + i % 100_000, on_nodes(c, style, n, if c.miri { 2 } else { 12 })));
			}
		}
	}
	if x.huge() {
		x.case("comparator-huge", 0, |c| combo_plain!(1, args(c, 2, crate::gen::HUGE, 2)));
	}
	for i in 0..x.reps(x.nm(12, 1), 3) {
		x.case("comparator-borrowed", i, |c| borrowed(c, if c.miri { 12 } else { 5 + 17 * i as usize }));
	}
}

// ---- C19 --------------------------------------------------------------------

const CHAOS: usize = 12;

fn chaotic(kind: usize, rng: &Cell<u64>, clock: u64, a: i64, b: i64) -> Ordering {
	let o = |x: u64| [Ordering::Less, Ordering::Equal, Ordering::Greater][(x % 3) as usize];
	let next = || {
		rng.set(mix(rng.get()));
		rng.get()
	};
	match kind {
		0 => o(next()),
		1 => Ordering::Less,
		2 => Ordering::Greater,
		3 => Ordering::Equal,
		// a function of the pair, neither antisymmetric nor transitive
		4 => o(mix(a as u64 ^ mix(b as u64))),
		// cyclic: rock, paper, scissors
		5 => match (a - b).rem_euclid(3) {
			0 => Ordering::Equal,
			1 => Ordering::Greater,
			_ => Ordering::Less,
		},
		// changes over time
		6 => {
			if clock / 7 % 2 == 0 {
				a.cmp(&b)
			} else {
				b.cmp(&a)
			}
		}
		// mostly right
		7 => {
			if next().is_multiple_of(8) {
				o(next())
			} else {
				a.cmp(&b)
			}
		}
		// never equal
		8 => {
			if next().is_multiple_of(2) {
				Ordering::Less
			} else {
				Ordering::Greater
			}
		}
		// partial order made total wrongly
		9 => (a & b).cmp(&b),
		// alternating
		10 => o(clock),
		_ => a.cmp(&b).reverse(),
	}
}

fn chaos<T: Tok, S: Storage<T>>(c: &mut Case, kind0: usize, ops: usize, size: usize) {
	let mut rng = Rng::new(c.rng.next());
	let cell = Cell::new(rng.next());
	let clock = Cell::new(0u64);
	let style = rng.below(STYLES);
	let n0 = rng.below(size);
	let mut t: RawBTree<T, S> = build(&mut rng, style, n0);
	let mut held: Vec<T> = vec![];
	let mut maxh = 0;
	for n in 0..ops {
		// the kind changes now and then
		let kind = if kind0 < CHAOS { kind0 } else { (n / 13 + kind0) % CHAOS };
		let k = rng.range(0, 2 * size as i64) * GAP;
		let before = t.len();
		let calls = Cell::new(0u64);
		let f = |a: i64, b: i64| {
			clock.set(clock.get() + 1);
			calls.set(calls.get() + 1);
			chaotic(kind, &cell, clock.get(), a, b)
		};
		store::fuel(1_000_000);
		let d0 = tok::drops();
		let ins = if t.len() > 2 * size { 10 } else { 55 };
		let mut delta = 0i64;
		if rng.below(100) < 85 {
			if rng.below(100) < ins {
				note("chaos-insert", kind as i64, k);
				match t.insert(|a, b| f(a.key(), b.key()), T::new(k)) {
					Some(x) => held.push(x),
					None => delta = 1,
				}
			} else {
				note("chaos-remove", kind as i64, k);
				if let Some(x) = t.remove(|a: &T, q: &i64| f(a.key(), *q), &k) {
					held.push(x);
					delta = -1;
				}
			}
		} else {
			note("chaos-lookup", kind as i64, k);
			match rng.below(3) {
				0 => {
					if let Some(x) = t.get(|a: &T, q: &i64| f(a.key(), *q), &k) {
						x.check()
					}
				}
				1 => {
					if let Some(x) = t.get_mut(|a: &T, q: &i64| f(a.key(), *q), &k) {
						x.set_payload(n as u64)
					}
				}
				_ => match t.address_of(|a: &T, q: &i64| f(a.key(), *q), &k) {
					Ok(a) => ensure!(unsafe { t.get_at(a) }.is_some(), "address_of = Ok({a:?}), which holds no item"),
					Err(Some(a)) => {
						unsafe { t.insert_at(Some(a), T::new(k)) };
						delta = 1;
					}
					Err(None) => ensure!(t.is_empty(), "address_of = Err(None) in a tree of {} items", t.len()),
				},
			}
		}
		store::fuel(u64::MAX);
		count("comparator_calls", calls.get());
		ensure!(tok::drops() == d0, "{} items were dropped by the operation", tok::drops() - d0);
		ensure!(t.len() as i64 == before as i64 + delta, "len() went from {before} to {} instead of {}", t.len(), before as i64 + delta);
		ensure!(tok::live() == counted::<T>(t.len() + held.len()), "{} items are alive, {} are stored and {} were returned", tok::live(), t.len(), held.len());
		if n % 3 == 0 || n + 20 > ops {
			let w = walk(&t);
			if let Err(e) = w.structure(t.len()) {
				viol!("with an inconsistent comparator (kind {kind}): {e}")
			}
			let mut seen = HashSet::new();
			for (k, u) in &w.items {
				ensure!(tok::is_live(*u), "stored item key={k} was dropped");
				ensure!(seen.insert(*u), "item key={k} is stored twice");
			}
			for h in &held {
				ensure!(seen.insert(h.uid()), "item key={} was returned and is still stored", h.key());
			}
			ensure!(t.iter().map(|x| x.uid()).eq(w.items.iter().map(|x| x.1)), "iteration does not yield the {} stored items", t.len());
			maxh = maxh.max(w.height);
			c.shape(w.hash());
		}
		if held.len() > 50 {
			held.clear();
		}
	}
	let h = held.len();
	let len = t.len();
	match rng.below(3) {
		0 => drop(t),
		1 => {
			let u = t.clone();
			drop(t);
			ensure!(u.len() == len, "the clone has {} items of {len}", u.len());
			drop(u);
		}
		_ => {
			let v: Vec<T> = t.into_iter().collect();
			ensure!(v.len() == len, "into_iter yields {} items of {len}", v.len());
		}
	}
	ensure!(tok::live() == counted::<T>(h), "{} items are alive, {h} were returned", tok::live());
	c.nontrivial = ops > 8;
	c.label = format!("comparator kind {kind0}, {ops} operations, size {size}, height {maxh}");
	count_max("max_height", maxh as u64);
}

/// The nodes themselves under an inconsistent comparator.
fn chaos_nodes<T: Tok, S: Storage<T>>(c: &mut Case, kind0: usize, n: usize, ops: usize) {
	let mut rng = Rng::new(c.rng.next());
	let cell = Cell::new(rng.next());
	let clock = Cell::new(0u64);
	let mut t: RawBTree<T, S> = build(&mut rng, 2, n);
	let w = walk(&t);
	if w.nodes.is_empty() {
		return;
	}
	let mut held: Vec<T> = vec![];
	for j in 0..ops {
		let kind = if kind0 < CHAOS { kind0 } else { (j / 13 + kind0) % CHAOS };
		let calls = Cell::new(0u64);
		let f = |a: i64, b: i64| {
			clock.set(clock.get() + 1);
			calls.set(calls.get() + 1);
			ensure!(calls.get() < 1000, "a search in a node does not end");
			chaotic(kind, &cell, clock.get(), a, b)
		};
		let k = rng.range(0, 2 * n as i64 + 2) * GAP;
		let nd = rng.pick(&w.nodes);
		let node = unsafe { t.node_mut(nd.id) };
		let before: Vec<u64> = (0..node.item_count()).map(|i| node.item(i.into()).unwrap().uid()).collect();
		let kids: Vec<S::Node> = node.children().collect();
		let mut after = before.clone();
		let d0 = tok::drops();
		let op = rng.below(4);
		note("chaos-node", op as i64, kind as i64);
		match op {
			0 => match node.get(|a: &T, q: &i64| f(a.key(), *q), &k) {
				Ok(Some(x)) => ensure!(before.contains(&x.uid()), "get() in a node gives another item"),
				Ok(None) => ensure!(kids.is_empty(), "get() in an internal node leads nowhere"),
				Err(id) => ensure!(kids.contains(&id), "get() in a node leads to a node that is not its child"),
			},
			1 => match node.get_mut(|a: &T, q: &i64| f(a.key(), *q), &k) {
				Ok(Some(x)) => ensure!(before.contains(&x.uid()), "get_mut() in a node gives another item"),
				Ok(None) => ensure!(kids.is_empty(), "get_mut() in an internal node leads nowhere"),
				Err(id) => ensure!(kids.contains(id), "get_mut() in a node leads to a node that is not its child"),
			},
			2 => match node.offset_of(|a: &T, q: &i64| f(a.key(), *q), &k) {
				Ok(o) => ensure!(o < before.len() && !o.is_before(), "offset_of() in a node of {} items is Ok({o})", before.len()),
				Err((i, id)) => ensure!(i <= before.len() && id == kids.get(i).copied(), "offset_of() in a node of {} items is Err({i}, {id:?})", before.len()),
			},
			_ => {
				let x = T::new(k);
				let u = x.uid();
				if kids.is_empty() && before.len() > raw_btree::M {
					continue;
				}
				match node.insert_by_key(|a, b| f(a.key(), b.key()), x) {
					Ok((o, old)) => {
						ensure!(o <= before.len() && !o.is_before(), "insert_by_key() in a node of {} items gives offset {o}", before.len());
						let o = o.unwrap();
						match old {
							Some(x) => {
								ensure!(before.get(o) == Some(&x.uid()), "insert_by_key() at offset {o} returns another item");
								after[o] = u;
								held.push(x);
							}
							None => {
								ensure!(kids.is_empty(), "insert_by_key() inserts in an internal node");
								after.insert(o, u);
								let node = unsafe { t.node_mut(nd.id) };
								let now: Vec<u64> = (0..node.item_count()).map(|i| node.item(i.into()).unwrap().uid()).collect();
								ensure!(now == after, "insert_by_key() does not insert at offset {o}");
								if let raw_btree::Node::Leaf(l) = node {
									held.push(l.remove(o.into()))
								}
								after = before.clone();
							}
						}
					}
					Err(e) => {
						ensure!(e.item.uid() == u, "insert_by_key() gives back another item");
						ensure!(kids.get(e.child_offset) == Some(&e.child_id), "insert_by_key() leads to {:?}, which is not child {}", e.child_id, e.child_offset);
						held.push(e.item);
					}
				}
			}
		}
		let node = unsafe { t.node_mut(nd.id) };
		let now: Vec<u64> = (0..node.item_count()).map(|i| node.item(i.into()).unwrap().uid()).collect();
		ensure!(now == after, "with an inconsistent comparator (kind {kind}), a node operation changed the items of the node");
		ensure!(node.children().eq(kids.iter().copied()), "with an inconsistent comparator (kind {kind}), a node operation changed the children of the node");
		ensure!(tok::drops() == d0, "{} items were dropped by the operation", tok::drops() - d0);
		ensure!(tok::live() == counted::<T>(t.len() + held.len()), "{} items are alive, {} are stored and {} were returned", tok::live(), t.len(), held.len());
		count("comparator_calls", calls.get());
		if held.len() > 50 {
			held.clear();
		}
	}
	if let Err(e) = walk(&t).structure(t.len()) {
		viol!("with an inconsistent comparator on its nodes: {e}")
	}
	let h = held.len();
	drop(t);
	ensure!(tok::live() == counted::<T>(h), "{} items are alive, {h} were returned", tok::live());
	c.observe(w.hash() ^ kind0 as u64);
	c.nontrivial = n > 8;
	c.label = format!("comparator kind {kind0}, {ops} operations on the nodes of a tree of {n} items");
}

pub fn run_chaos(x: &mut Ctx) {
	for i in 0..x.reps(x.nm(700, 4), 10) {
		x.case("chaos", i, |c| {
			let kind = i as usize % (CHAOS + 8);
			let (ops, size) = if c.miri { (30, 30) } else { (*c.rng.pick(&[120usize, 300]), *c.rng.pick(&[10usize, 30, 100, 400])) };
			combo_plain!(i / 3, chaos(c, kind, ops, size))
		});
	}
	for i in 0..x.reps(x.nm(400, 3), 6) {
		x.case("chaos-nodes", i, |c| {
			let kind = i as usize % (CHAOS + 8);
			let (ops, n) = if c.miri { (30, 30) } else { (300, *c.rng.pick(&[1usize, 5, 8, 9, 40, 200])) };
			combo_plain!(i / 3, chaos_nodes(c, kind, n, ops))
		});
	}
	if !x.miri {
		for i in 0..x.reps(12, 6) {
			x.case("chaos-large", i, |c| combo_plain!(i, chaos(c, i as usize, 3000, 4000)));
		}
	}
}
