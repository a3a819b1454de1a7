//! C17: `validate` accepts sound trees and rejects malformed ones.
use crate::ctx::Ctx;

#[cfg(not(debug_assertions))]
pub fn run(_: &mut Ctx) {}

#[cfg(debug_assertions)]
pub fn run(x: &mut Ctx) {
	debug::run(x)
}

#[cfg(debug_assertions)]
mod debug {
	use crate::ctx::{count, count_max, expecting, note, panic_msg, Case, Ctx};
	use crate::gen::{build, ck, ct, key_at, GAP, STYLES};
	use crate::rng::Rng;
	use crate::shape::{walk, Walk};
	use crate::store;
	use crate::tok::Tok;
	use crate::{combo_plain, ensure, viol};
	use raw_btree::{Node, RawBTree, Storage, M};
	use std::collections::BTreeMap;

	fn accept<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, sgn: i64, q: i64, what: &str) {
		let r = expecting(|| t.validate(|a, b| (sgn * a.key().div_euclid(q)).cmp(&(sgn * b.key().div_euclid(q)))));
		if let Err(p) = r {
			viol!("validate() rejects a sound tree of {} items ({what}): {}", t.len(), panic_msg(&*p))
		}
		count("sound_trees_accepted", 1);
	}

	/// `Node::validate` and `validate_node` on each node of a sound tree, with
	/// right and wrong parents and separators.
	fn nodes<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, thin: usize) {
		let w = walk(t);
		for (k, nd) in w.nodes.iter().enumerate() {
			if k % thin != 0 && k + 1 != w.nodes.len() {
				continue;
			}
			let parent = nd.parent.map(|p| w.nodes[p].id);
			let (first, last) = (nd.items[0].0, nd.items.last().unwrap().0);
			let node = unsafe { t.node(nd.id) };
			let one = |p: Option<S::Node>, min: Option<i64>, max: Option<i64>, good: bool, what: &str| {
				let (a, b) = (min.map(T::new), max.map(T::new));
				note("node-validate", min.unwrap_or(i64::MIN), max.unwrap_or(i64::MAX));
				let r = expecting(|| node.validate(ct::<T>, p, a.as_ref(), b.as_ref()));
				match r {
					Ok(()) => ensure!(good, "a {} of keys {first}..={last} validates: {what}", if nd.leaf { "leaf" } else { "internal node" }),
					Err(e) => ensure!(!good, "a sound node of keys {first}..={last} does not validate ({what}): {}", panic_msg(&*e)),
				}
				count("nodes_validated", 1);
			};
			one(parent, None, None, true, "no separators");
			if nd.parent.is_some() || nd.items.len() >= M / 2 {
				one(parent, Some(first - 1), Some(last + 1), true, "close separators");
				one(parent, Some(i64::MIN), Some(i64::MAX), true, "wide separators");
				one(parent, Some(first - 1), None, true, "a left separator");
				one(parent, None, Some(last + 1), true, "a right separator");
			}
			for other in [None, Some(last + 1)] {
				one(parent, Some(first), other, false, "the first item equal to the left separator");
				one(parent, Some(first + 1), other, false, "the first item before the left separator");
			}
			for other in [None, Some(first - 1)] {
				one(parent, other, Some(last), false, "the last item equal to the right separator");
				one(parent, other, Some(last - 1), false, "the last item after the right separator");
			}
			one(if parent.is_some() { None } else { Some(nd.id) }, None, None, false, "another parent");
			if nd.parent.is_some() {
				one(Some(nd.id), Some(first - 1), Some(last + 1), false, "itself as parent");
			}
			// the subtree
			let (lo, hi) = (w.items[nd.lo].0, w.items[nd.hi - 1].0);
			let depth = w.height - 1 - nd.depth;
			let sub = |p: Option<S::Node>, min: Option<i64>, max: Option<i64>, good: bool, what: &str| {
				let (a, b) = (min.map(T::new), max.map(T::new));
				let r = expecting(|| t.validate_node(&ct::<T>, nd.id, p, a.as_ref(), b.as_ref()));
				match r {
					Ok(d) => {
						ensure!(good, "a subtree of keys {lo}..={hi} validates: {what}");
						ensure!(d == depth, "validate_node gives depth {d} for a subtree with leaves at depth {depth}")
					}
					Err(e) => ensure!(!good, "a sound subtree of keys {lo}..={hi} does not validate ({what}): {}", panic_msg(&*e)),
				}
				count("subtrees_validated", 1);
			};
			if nd.parent.is_some() {
				sub(parent, Some(lo - 1), Some(hi + 1), true, "close separators");
				sub(parent, Some(lo - 1), None, true, "a left separator");
				sub(parent, None, Some(hi + 1), true, "a right separator");
			}
			sub(parent, None, None, true, "no separators");
			sub(parent, Some(lo), None, false, "the first item equal to the left separator");
			sub(parent, None, Some(hi), false, "the last item equal to the right separator");
			sub(if parent.is_some() { None } else { Some(nd.id) }, None, None, false, "another parent");
		}
	}

	/// Trees produced through the API, at every step of a history.
	fn accepted<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
		let mut rng = Rng::new(c.rng.next());
		let mut t: RawBTree<T, S> = RawBTree::new();
		accept(&t, 1, 1, "new");
		t.extend_style(&mut rng, style, n);
		accept(&t, 1, 1, "built");
		let w = walk(&t);
		c.shape(w.hash());
		nodes(&t, if c.miri { 3 } else { 1 + w.nodes.len() / 40 });
		let steps = if c.miri { 6 } else { 30 };
		for j in 0..steps {
			let keys = walk(&t).keys();
			let p = rng.below(2 * keys.len() + 1);
			note("step", j, p as i64);
			match rng.below(4) {
				0 | 1 => {
					if let Some(k) = key_at(&keys, p / 2) {
						if rng.pct(50) {
							t.insert(ct::<T>, T::new(k));
						} else if let Err(a) = t.address_of(ck::<T>, &k) {
							unsafe { t.insert_at(a, T::new(k)) };
						}
					}
				}
				_ => {
					if let Some(k) = keys.get(p / 2) {
						if rng.pct(50) {
							t.remove(ck::<T>, k);
						} else if let Ok(a) = t.address_of(ck::<T>, k) {
							unsafe { t.remove_at(a) };
						}
					}
				}
			}
			accept(&t, 1, 1, "after an update");
		}
		nodes(&t, if c.miri { 5 } else { 1 + w.nodes.len() / 20 });
		let u = t.clone();
		accept(&u, 1, 1, "clone");
		drop(u);
		t.clear();
		accept(&t, 1, 1, "cleared");
		// other orders
		for (sgn, q) in [(-1, 1), (1, 3), (-1, 5)] {
			let cls = |k: i64| sgn * k.div_euclid(q);
			let mut t: RawBTree<T, S> = RawBTree::new();
			for _ in 0..n {
				let k = rng.range(0, 2 * q * n as i64 + 1);
				t.insert(|a, b| cls(a.key()).cmp(&cls(b.key())), T::new(k));
			}
			for _ in 0..n / 3 {
				let k = rng.range(0, 2 * q * n as i64 + 1);
				t.remove(|a: &T, b: &i64| cls(a.key()).cmp(&cls(*b)), &k);
			}
			accept(&t, sgn, q, "another order");
		}
		c.nontrivial = n > 8;
		c.label = format!("style {style} n {} height {}", w.items.len(), w.height);
		count_max("max_height", w.height as u64);
	}

	trait Styled {
		fn extend_style(&mut self, rng: &mut Rng, style: usize, n: usize);
	}
	impl<T: Tok, S: Storage<T>> Styled for RawBTree<T, S> {
		fn extend_style(&mut self, rng: &mut Rng, style: usize, n: usize) {
			crate::gen::fill(self, rng, style, n)
		}
	}

	fn reject<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, what: &str) {
		let r = expecting(|| t.validate(ct::<T>));
		ensure!(r.is_err(), "validate() accepts a malformed tree: {what}");
		count("malformed_trees_rejected", 1);
	}

	/// Exchanges the items at two addresses.
	fn swap<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, w: &Walk<S::Node>, i: usize, j: usize) {
		unsafe {
			let a = std::ptr::read(t.get_mut_at(w.addrs[i]).unwrap());
			let b = std::ptr::read(t.get_mut_at(w.addrs[j]).unwrap());
			std::ptr::write(t.get_mut_at(w.addrs[i]).unwrap(), b);
			std::ptr::write(t.get_mut_at(w.addrs[j]).unwrap(), a);
		}
	}

	const KINDS: usize = 14;

	/// Makes the tree malformed in a single way; `false` if it cannot be.
	fn spoil<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, kind: usize, rng: &mut Rng) -> Option<String> {
		let w = walk(t);
		let n = w.items.len();
		if n < 2 {
			return None;
		}
		let inner: Vec<usize> = (1..w.nodes.len()).collect();
		match kind {
			0 => {
				// wrong parent of a node that has one
				let i = *rng.pick(if inner.is_empty() { return None } else { &inner });
				let wrong = match rng.below(3) {
					0 => None,
					1 => Some(w.nodes[i].id),
					_ => {
						let o = w.nodes[rng.below(w.nodes.len())].id;
						if w.nodes[i].recorded_parent == Some(o) {
							None
						} else {
							Some(o)
						}
					}
				};
				unsafe { t.node_mut(w.nodes[i].id).set_parent(wrong) };
				Some(format!("the node {:?} at depth {} records parent {wrong:?}", w.nodes[i].id, w.nodes[i].depth))
			}
			1 => {
				// a root with a parent
				let o = w.nodes[rng.below(w.nodes.len())].id;
				unsafe { t.node_mut(w.nodes[0].id).set_parent(Some(o)) };
				Some(format!("the root records parent {o:?}"))
			}
			2 => {
				// neighbours exchanged
				let i = rng.below(n - 1);
				swap(t, &w, i, i + 1);
				Some(format!("items {i} and {} exchanged", i + 1))
			}
			3 => {
				// two items of one node exchanged
				let nd = &w.nodes[rng.below(w.nodes.len())];
				let k = nd.items.len();
				if k < 2 {
					return None;
				}
				let a = rng.below(k - 1);
				let b = a + 1 + rng.below(k - a - 1);
				let (i, j) = (nd.rank[a], nd.rank[b]);
				let (i, j) = if nd.leaf { (i, j) } else { (rank_of(&w, nd.items[a]), rank_of(&w, nd.items[b])) };
				swap(t, &w, i, j);
				Some(format!("items {a} and {b} of a node at depth {} exchanged", nd.depth))
			}
			4 => {
				// any two items exchanged
				let i = rng.below(n - 1);
				let j = i + 1 + rng.below(n - i - 1);
				swap(t, &w, i, j);
				Some(format!("items {i} and {j} exchanged"))
			}
			5 => {
				// a duplicate of the previous or next item
				let i = rng.below(n);
				let j = if i == 0 || (i + 1 < n && rng.pct(50)) { i + 1 } else { i - 1 };
				let old = unsafe { std::mem::replace(t.get_mut_at(w.addrs[i]).unwrap(), T::new(w.items[j].0)) };
				drop(old);
				Some(format!("item {i} equal to item {j}"))
			}
			6 => {
				// a key out of the range of its subtree
				let i = rng.below(n);
				let nd = w.nodes.iter().find(|x| x.id == w.addrs[i].node).unwrap();
				// beyond the separators of the node (or of its ancestors)
				let up = rng.pct(50);
				let k = if up {
					if nd.hi >= n {
						return None;
					}
					w.items[nd.hi + rng.below(n - nd.hi)].0 + 1
				} else {
					if nd.lo == 0 {
						return None;
					}
					w.items[rng.below(nd.lo)].0 - 1
				};
				// keep the order within the node
				let j = if up { nd.items.len() - 1 } else { 0 };
				let r = rank_of(&w, nd.items[j]);
				let old = unsafe { std::mem::replace(t.get_mut_at(w.addrs[r]).unwrap(), T::new(k)) };
				drop(old);
				Some(format!("item {r} at depth {} beyond its {} separator", nd.depth, if up { "right" } else { "left" }))
			}
			7 => {
				// an underfull leaf
				let l: Vec<usize> = inner.iter().copied().filter(|i| w.nodes[*i].leaf).collect();
				let i = *rng.pick(if l.is_empty() { return None } else { &l });
				let keep = rng.below(M / 2 - 1);
				match unsafe { t.node_mut(w.nodes[i].id) } {
					Node::Leaf(l) => {
						while l.item_count() > keep {
							drop(l.remove_last())
						}
					}
					_ => unreachable!(),
				}
				Some(format!("a leaf with {keep} items"))
			}
			8 => {
				// an underfull internal node
				let l: Vec<usize> = inner.iter().copied().filter(|i| !w.nodes[*i].leaf).collect();
				let i = *rng.pick(if l.is_empty() { return None } else { &l });
				let keep = rng.below(M / 2 - 1);
				match unsafe { t.node_mut(w.nodes[i].id) } {
					Node::Internal(l) => {
						while l.item_count() > keep {
							let k = l.item_count() - 1;
							drop(l.remove(k.into()))
						}
					}
					_ => unreachable!(),
				}
				Some(format!("an internal node with {keep} items"))
			}
			9 => {
				// an overfull leaf
				let l: Vec<usize> = inner.iter().copied().filter(|i| w.nodes[*i].leaf).collect();
				let i = *rng.pick(if l.is_empty() { return None } else { &l });
				let (first, last) = (w.nodes[i].items[0].0, w.nodes[i].items.last().unwrap().0);
				let mut keys: Vec<i64> = w.nodes[i].items.iter().map(|x| x.0).collect();
				if last - first < 100 {
					return None;
				}
				match unsafe { t.node_mut(w.nodes[i].id) } {
					Node::Leaf(l) => {
						while l.item_count() <= M {
							let g = (1..keys.len()).max_by_key(|g| keys[*g] - keys[*g - 1]).unwrap();
							let k = (keys[g] + keys[g - 1]) / 2;
							keys.insert(g, k);
							l.insert(g.into(), T::new(k))
						}
					}
					_ => unreachable!(),
				}
				Some("a leaf with too many items".into())
			}
			10 => {
				// an overfull internal node: children taken from its right sibling
				let mut cand = vec![];
				for p in &w.nodes {
					for s in 0..p.children.len().saturating_sub(1) {
						let (a, b) = (&w.nodes[p.children[s]], &w.nodes[p.children[s + 1]]);
						if !a.leaf && a.items.len() + b.items.len() >= M + M / 2 - 1 {
							cand.push((p.id, s, a.id, b.id, a.items.len()));
						}
					}
				}
				let (p, s, a, b, have) = *rng.pick(if cand.is_empty() { return None } else { &cand });
				for _ in have..M {
					unsafe {
						let (mut item, child) = match t.node_mut(b) {
							Node::Internal(b) => match b.pop_left() {
								Ok(x) => x,
								Err(_) => return None,
							},
							_ => unreachable!(),
						};
						std::mem::swap(&mut item, t.node_mut(p).item_mut(s.into()).unwrap());
						t.node_mut(a).push_right(item, Some(child));
						t.node_mut(child).set_parent(Some(a));
					}
				}
				Some("an internal node with too many items".into())
			}
			11 => {
				// an internal root without items, over its first child only
				match unsafe { t.node_mut(w.nodes[0].id) } {
					Node::Internal(l) => {
						while l.item_count() > 0 {
							let k = l.item_count() - 1;
							drop(l.remove(k.into()))
						}
					}
					Node::Leaf(_) => return None,
				}
				Some("an internal root without items".into())
			}
			_ => {
				// a subtree replaced by one of its own children
				let l: Vec<usize> = inner.iter().copied().filter(|i| !w.nodes[*i].leaf).collect();
				let i = *rng.pick(if l.is_empty() { return None } else { &l });
				let up = &w.nodes[w.nodes[i].parent.unwrap()];
				let ch = *rng.pick(&w.nodes[i].children);
				// a key that leads to the subtree
				let key = w.items[w.nodes[i].lo].0;
				unsafe {
					match t.node_mut(up.id).get_mut(ck::<T>, &key) {
						Err(slot) => {
							if *slot != w.nodes[i].id {
								return None;
							}
							*slot = w.nodes[ch].id
						}
						_ => return None,
					}
					t.node_mut(w.nodes[ch].id).set_parent(Some(up.id));
				}
				Some(format!("leaves at different depths (below depth {})", up.depth))
			}
		}
	}

	fn rank_of<N>(w: &Walk<N>, it: (i64, u64)) -> usize {
		w.items.iter().position(|x| *x == it).unwrap()
	}

	fn rejected<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, rounds: usize) {
		store::tolerate_leak(true);
		let mut rng = Rng::new(c.rng.next());
		let mut done: BTreeMap<usize, usize> = BTreeMap::new();
		for _ in 0..rounds {
			for kind in 0..KINDS {
				let mut t: RawBTree<T, S> = build(&mut rng, style, n);
				let parents = walk(&t).nodes.iter().map(|nd| (nd.id, nd.recorded_parent)).collect::<Vec<_>>();
				if let Some(what) = spoil(&mut t, kind, &mut rng) {
					note("spoil", kind as i64, n as i64);
					reject(&t, &what);
					*done.entry(kind).or_insert(0) += 1;
				}
				if kind < 7 {
					// every node is where it was, and holds what it must hold
					for (id, p) in parents {
						unsafe { t.node_mut(id).set_parent(p) }
					}
					drop(t)
				} else {
					// its storage must not be freed twice, hence no destructor
					std::mem::forget(t);
				}
			}
		}
		store::tolerate_leak(false);
		for k in done.keys() {
			count(
				["wrong_parent", "root_with_parent", "neighbours_exchanged", "exchanged_in_node", "exchanged", "duplicate", "out_of_range", "underfull_leaf", "underfull_internal", "overfull_leaf", "overfull_internal", "empty_root", "uneven", "uneven"][*k],
				done[k] as u64,
			);
		}
		c.observe(n as u64);
		c.nontrivial = done.len() > 3;
		c.label = format!("style {style} n {n} kinds {:?}", done.keys().collect::<Vec<_>>());
	}

	pub fn run(x: &mut Ctx) {
		let sizes: Vec<usize> = if x.miri {
			vec![0, 9, 30]
		} else {
			let mut v: Vec<usize> = (0..=30).collect();
			v.extend([35, 40, 50, 60, 70, 80, 90, 100, 130, 170, 220, 300, 400, 600]);
			if x.thorough {
				v.extend(31..=120);
				v.extend([1000, 2000]);
			}
			v
		};
		let _ = GAP;
		for r in 0..x.reps(x.nm(3, 1), 4) {
			for style in 0..STYLES {
				for n in &sizes {
					let n = *n;
					if x.miri && !(n + style).is_multiple_of(2) {
						continue;
					}
					let i = (r * 100 + style as u64) * 100_000 + n as u64;
					let k = i / 100_000 + i % 100_000;
					x.case("validate-accepts", i, |c| combo_plain!(k, accepted(c, style, n)));
					if !x.miri || x.leaky {
						x.case("validate-rejects", i, |c| combo_plain!(k, rejected(c, style, n, if c.miri || n > 200 { 1 } else { 3 })));
					}
				}
			}
		}
		if x.huge() {
			for i in 0..2 {
				x.case("validate-huge", i, |c| combo_plain!(i, accepted(c, i as usize * 2, crate::gen::HUGE)));
			}
		}
	}
}
