//! C27: the operations of a storage called directly, on several trees that
//! share it.
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::gen::{ck, GAP};
use crate::rng::{mix, Rng};
use crate::shape::{walk_from, Walk};
use crate::store;
use crate::tok::{self, counted, Tok};
use crate::{combo_plain, ensure, viol};
use raw_btree::{Address, Node, Storage, M};

/// Smallest number of items of a node other than a root.
const MIN: usize = M / 2 - 1;
/// Distance between the keys of a fresh tree.
const STEP: i64 = GAP << 24;

struct Sub<N> {
	root: Option<N>,
	items: Vec<(i64, u64)>,
	/// Identifiers, parents and items of the nodes when the tree was last used.
	seal: u64,
}

fn seal<N: Copy + PartialEq + std::fmt::Debug>(w: &Walk<N>) -> u64 {
	let mut h = w.nodes.len() as u64;
	for n in &w.nodes {
		h = mix(h ^ crate::ctx::hash_str(&format!("{:?} {:?} {}", n.id, n.recorded_parent, n.children.len())));
		for x in &n.items {
			h = mix(h ^ x.1);
		}
	}
	h
}

struct Forest<T: Tok, S: Storage<T>> {
	s: S,
	subs: Vec<Sub<S::Node>>,
	monitored: bool,
	_t: std::marker::PhantomData<T>,
}

impl<T: Tok, S: Storage<T>> Forest<T, S> {
	fn new() -> Self {
		Forest { s: S::default(), subs: vec![], monitored: std::any::type_name::<S>().contains("MonStorage"), _t: std::marker::PhantomData }
	}

	fn walk(&self, root: Option<S::Node>, len: usize) -> Walk<S::Node> {
		walk_from(&|id| unsafe { self.s.get(id) }, root, len)
	}

	/// Observes every tree after an operation on tree `i`.
	fn check(&mut self, what: &str, i: usize) -> Walk<S::Node> {
		let mut out = None;
		let mut nodes = 0;
		for j in 0..self.subs.len() {
			let w = self.walk(self.subs[j].root, self.subs[j].items.len());
			nodes += w.nodes.len();
			if j == i {
				let want = &self.subs[j].items;
				if w.items != *want {
					let r = w.items.iter().zip(want).position(|(a, b)| a != b).unwrap_or(w.items.len().min(want.len()));
					viol!("{what}: the tree holds {} items instead of {}; at rank {r}: {:?} instead of {:?} (key, uid)", w.items.len(), want.len(), w.items.get(r), want.get(r))
				}
				if let Err(e) = w.structure(want.len()).and_then(|_| w.sorted(|k| k)) {
					viol!("{what}: {e}")
				}
				self.subs[j].seal = seal(&w);
				out = Some(w);
			} else {
				ensure!(seal(&w) == self.subs[j].seal, "{what}: another tree of the same storage changed");
			}
		}
		if self.monitored {
			ensure!(store::active() == nodes as i64, "{what}: {} nodes are allocated and the trees have {nodes}", store::active());
		}
		let held: usize = self.subs.iter().map(|s| s.items.len()).sum();
		ensure!(tok::live() == counted::<T>(held), "{what}: {} items are alive and the trees hold {held}", tok::live());
		count("observations", 1);
		out.unwrap()
	}

	/// New tree of the given keys, in the order given.
	fn grow(&mut self, keys: &[i64]) -> usize {
		self.subs.push(Sub { root: None, items: vec![], seal: 0 });
		let i = self.subs.len() - 1;
		for k in keys {
			self.insert_key(i, *k);
		}
		self.check("a new tree", i);
		i
	}

	fn insert_key(&mut self, i: usize, k: i64) {
		let r = match self.subs[i].items.binary_search_by(|x| x.0.cmp(&k)) {
			Ok(_) => return,
			Err(r) => r,
		};
		let addr = match self.subs[i].root {
			None => None,
			Some(root) => match unsafe { self.s.address_in(root, ck::<T>, &k) } {
				Ok(a) => viol!("address_in(key={k}) = Ok({a:?}) although no such item is stored"),
				Err(a) => Some(a),
			},
		};
		let x = T::new(k);
		let e = (k, x.uid());
		let (root, back) = unsafe { self.s.insert_exactly_at(self.subs[i].root, addr, x, None) };
		self.subs[i].root = root;
		self.subs[i].items.insert(r, e);
		self.reads("insert_exactly_at", back, e.1);
	}

	fn reads(&self, what: &str, a: Option<Address<S::Node>>, uid: u64) {
		let Some(a) = a else { viol!("{what}: returned no address") };
		let g = unsafe { self.s.get(a.node) }.item(a.offset).map(|x| x.uid());
		ensure!(g == Some(uid), "{what}: the returned address {a:?} reads {g:?} instead of the inserted item uid={uid}");
	}

	/// Removes tree `i`, whose nodes become part of another.
	fn absorb(&mut self, i: usize) -> Sub<S::Node> {
		self.subs.remove(i)
	}

	fn fell(&mut self) {
		for sub in std::mem::take(&mut self.subs) {
			let w = self.walk(sub.root, sub.items.len());
			for n in w.nodes.iter().rev() {
				drop(unsafe { self.s.release_node(n.id) });
			}
		}
		ensure!(tok::live() == 0, "{} items left", tok::live());
		if self.monitored {
			ensure!(store::active() == 0, "{} nodes left", store::active());
		}
	}

	/// Every address question about tree `i`.
	fn questions(&self, i: usize, rng: &mut Rng, most: usize) {
		let Some(root) = self.subs[i].root else { return };
		let items = &self.subs[i].items;
		let w = self.walk(Some(root), items.len());
		let s = &self.s;
		for _ in 0..most.min(items.len()) {
			let r = rng.below(items.len());
			let a = w.addrs[r];
			let k = items[r].0;
			note("questions", r as i64, items.len() as i64);
			ensure!(unsafe { s.address_in(root, ck::<T>, &k) } == Ok(a), "address_in(key={k}) does not give the address of the stored item {a:?}");
			ensure!(unsafe { s.normalize(a) } == Some(a), "normalize({a:?}) changes the address of an item");
			let p = unsafe { s.previous_item_address(a) };
			ensure!(p == r.checked_sub(1).map(|r| w.addrs[r]), "previous_item_address({a:?}) = {p:?} at rank {r}");
			if r + 1 < items.len() {
				for (name, n) in [("next_item_address", unsafe { s.next_item_address(a) }), ("next_item_or_back_address", unsafe { s.next_item_or_back_address(a) })] {
					ensure!(n == Some(w.addrs[r + 1]), "{name}({a:?}) = {n:?} at rank {r} of {}", items.len());
				}
			}
			let l = unsafe { s.leaf_address(a) };
			match w.locate(l) {
				Some(q) => ensure!(q.leaf && q.rank == r, "leaf_address({a:?}) = {l:?}, which has {} items before it instead of {r} (leaf: {})", q.rank, q.leaf),
				None => viol!("leaf_address({a:?}) = {l:?}, which is not a valid address of the tree"),
			}
			// an absent key goes to its place
			let k = k + 1;
			if items.get(r + 1).is_none_or(|x| x.0 != k) {
				match unsafe { s.address_in(root, ck::<T>, &k) } {
					Ok(a) => viol!("address_in(key={k}) = Ok({a:?}) although no such item is stored"),
					Err(a) => match w.locate(a) {
						Some(q) => ensure!(q.leaf && q.off >= 0 && q.rank == r + 1, "address_in(key={k}) = Err({a:?}), which has {} items before it instead of {}", q.rank, r + 1),
						None => viol!("address_in(key={k}) = Err({a:?}), which is not a valid address of the tree"),
					},
				}
			}
			count("addresses_asked", 1);
		}
	}
}

/// `n` increasing keys strictly between `lo` and `hi`, if there is room.
fn between(lo: i64, hi: i64, n: usize) -> Option<Vec<i64>> {
	let step = hi.checked_sub(lo)? / (n as i64 + 2);
	if step < 4 {
		return None;
	}
	Some((1..=n as i64).map(|i| lo + i * step).collect())
}

fn history<T: Tok, S: Storage<T>>(c: &mut Case, ops: usize, size: usize) {
	let mut rng = Rng::new(c.rng.next());
	let mut f: Forest<T, S> = Forest::new();
	for _ in 0..2 + rng.below(3) {
		let n = rng.below(size + 1);
		let mut keys: Vec<i64> = (0..n as i64).map(|i| i * STEP).collect();
		if rng.pct(70) {
			rng.shuffle(&mut keys);
		}
		f.grow(&keys);
	}
	let mut grafts = 0;
	for op in 0..ops {
		if f.subs.len() < 2 || (f.subs.len() < 5 && rng.pct(3)) {
			let n = rng.below(size + 1);
			let keys: Vec<i64> = (0..n as i64).map(|i| i * STEP).collect();
			f.grow(&keys);
		}
		let i = rng.below(f.subs.len());
		let len = f.subs[i].items.len();
		let root = f.subs[i].root;
		let w = f.walk(root, len);
		store::fuel(400_000);
		match rng.below(100) {
			// keyed insertion
			0..=17 => {
				let k = rng.range(-2, size as i64 + 2) * STEP + rng.range(0, 3) * (STEP / 4);
				note("forest insert", k, i as i64);
				f.insert_key(i, k);
				f.check("insert_exactly_at", i);
			}
			// insertion at an address
			18..=34 => {
				let (rank, addr) = if root.is_none() {
					(0, None)
				} else {
					let ps: Vec<_> = w.positions().into_iter().filter(|p| p.off >= 0).collect();
					let p = rng.pick(&ps);
					(p.rank, Some(p.addr))
				};
				let Some(k) = crate::gen::key_at(&w.keys(), rank) else { continue };
				note("forest insert_at", rank as i64, i as i64);
				let x = T::new(k);
				let e = (k, x.uid());
				let (r, a) = unsafe { f.s.insert_at(root, addr, x) };
				f.subs[i].root = r;
				f.subs[i].items.insert(rank, e);
				f.check("insert_at", i);
				f.reads("insert_at", a, e.1);
			}
			// removal at an address
			35..=62 => {
				let ps = w.positions();
				if ps.is_empty() {
					continue;
				}
				let p = rng.pick(&ps);
				note("forest remove_at", p.rank as i64, i as i64);
				let r = unsafe { f.s.remove_at(root, p.addr) };
				match r {
					None => {
						ensure!(!p.occupied, "remove_at({:?}) removed nothing although the address holds an item", p.addr);
						f.check("remove_at of nothing", i);
					}
					Some(r) => {
						ensure!(p.occupied, "remove_at({:?}) removed an item although the address holds none", p.addr);
						ensure!(r.item.uid() == w.items[p.rank].1, "remove_at({:?}) returned uid={} instead of {}", p.addr, r.item.uid(), w.items[p.rank].1);
						f.subs[i].root = r.new_root;
						f.subs[i].items.remove(p.rank);
						drop(r.item);
						let w = f.check("remove_at", i);
						ensure!(r.new_root.is_none() == w.items.is_empty(), "remove_at: the new root is {:?} with {} items left", r.new_root, w.items.len());
						ensure!(r.new_addr.is_none() == w.items.is_empty(), "remove_at: the reinsertion address is {:?} with {} items left", r.new_addr, w.items.len());
						if let Some(a) = r.new_addr {
							match w.locate(a) {
								None => viol!("remove_at: the reinsertion address {a:?} is not an address of the tree"),
								Some(q) => ensure!(q.rank == p.rank, "remove_at: the reinsertion address {a:?} has {} items before it instead of {}", q.rank, p.rank),
							}
						}
						count("removals", 1);
					}
				}
			}
			// replacement
			63..=69 => {
				if len == 0 {
					continue;
				}
				let r = rng.below(len);
				let x = T::new(w.items[r].0);
				let e = (x.key(), x.uid());
				note("forest replace_at", r as i64, i as i64);
				let old = unsafe { f.s.replace_at(w.addrs[r], x) };
				ensure!(old.uid() == w.items[r].1, "replace_at({:?}) returned uid={} instead of {}", w.addrs[r], old.uid(), w.items[r].1);
				drop(old);
				f.subs[i].items[r] = e;
				f.check("replace_at", i);
			}
			// the greatest item of a subtree, where no rebalancing follows
			70..=75 => {
				let ok: Vec<usize> = (0..w.nodes.len()).filter(|n| {
					let mut last = *n;
					while let Some(c) = w.nodes[last].children.last() {
						last = *c;
					}
					w.nodes[last].items.len() > if last == 0 { 1 } else { MIN }
				}).collect();
				if ok.is_empty() {
					continue;
				}
				let n = &w.nodes[*rng.pick(&ok)];
				note("forest remove_rightmost_leaf_of", n.depth as i64, i as i64);
				let (x, leaf) = unsafe { f.s.remove_rightmost_leaf_of(n.id) };
				let r = n.hi - 1;
				ensure!(x.uid() == w.items[r].1, "remove_rightmost_leaf_of({:?}) gave uid={} instead of the greatest item {}", n.id, x.uid(), w.items[r].1);
				ensure!(leaf == w.addrs[r].node, "remove_rightmost_leaf_of({:?}) gave the leaf {leaf:?} instead of {:?}", n.id, w.addrs[r].node);
				drop(x);
				f.subs[i].items.remove(r);
				f.check("remove_rightmost_leaf_of", i);
				count("rightmost_removed", 1);
			}
			// a subtree at the right of a new item of an internal node
			76..=91 => {
				let inner: Vec<usize> = (0..w.nodes.len()).filter(|n| !w.nodes[*n].leaf && w.height - w.nodes[*n].depth <= 3).collect();
				if inner.is_empty() {
					continue;
				}
				let n = &w.nodes[*rng.pick(&inner)];
				let h = w.height - n.depth - 1;
				let off = rng.below(n.items.len() + 1);
				let rank = if off < n.items.len() { n.rank[off] } else { n.hi };
				let lo = if rank == 0 { w.items[0].0 - STEP * 64 } else { w.items[rank - 1].0 };
				let hi = w.items.get(rank).map(|x| x.0).unwrap_or(w.items[w.items.len() - 1].0 + STEP * 64);
				let m = if h == 1 { MIN + rng.below(M + 1 - MIN) } else { 17 + rng.below(46) };
				let Some(keys) = between(lo, hi, m + 1) else { continue };
				let mut rest = keys[1..].to_vec();
				if rng.pct(60) {
					rng.shuffle(&mut rest);
				}
				let j = f.grow(&rest);
				let b = f.walk(f.subs[j].root, m);
				if b.height != h || b.nodes[0].items.len() < MIN {
					continue;
				}
				let sub = f.absorb(j);
				let right = sub.root.unwrap();
				let x = T::new(keys[0]);
				let e = (keys[0], x.uid());
				note("forest graft", rank as i64, n.items.len() as i64);
				unsafe { f.s.get_mut(right).set_parent(Some(n.id)) };
				let (r, a) = unsafe { f.s.insert_exactly_at(root, Some(Address::new(n.id, off.into())), x, Some(right)) };
				f.subs[i].root = r;
				let mut new = vec![e];
				new.extend(sub.items);
				f.subs[i].items.splice(rank..rank, new);
				f.check(&format!("insert_exactly_at(offset {off} of {}, depth {}) with a subtree of height {h}", n.items.len(), n.depth), i);
				f.reads("insert_exactly_at with a subtree", a, e.1);
				grafts += 1;
				count("subtrees_inserted", 1);
			}
			// two trees under a new root
			92..=95 => {
				if len == 0 || w.height > 3 || w.nodes[0].items.len() < MIN {
					continue;
				}
				let last = w.items[len - 1].0;
				let m = match w.height {
					1 => MIN + rng.below(M + 1 - MIN),
					2 => 17 + rng.below(46),
					_ => 100 + rng.below(100),
				};
				let keys: Vec<i64> = (1..=m as i64 + 1).map(|i| last + i * (STEP / 8)).collect();
				let j = f.grow(&keys[1..]);
				let b = f.walk(f.subs[j].root, m);
				if b.height != w.height || b.nodes[0].items.len() < MIN {
					continue;
				}
				let sub = f.absorb(j);
				let x = T::new(keys[0]);
				f.subs[i].items.push((keys[0], x.uid()));
				f.subs[i].items.extend(sub.items);
				note("forest join", len as i64, m as i64);
				let top = Node::binary(None, root.unwrap(), x, sub.root.unwrap());
				let id = unsafe { f.s.insert_node(top) };
				f.subs[i].root = Some(id);
				f.check("insert_node", i);
				count("trees_joined", 1);
			}
			// a lone leaf becomes a tree
			_ => {
				let x = T::new(0);
				let e = (0, x.uid());
				let id = unsafe { f.s.insert_node(Node::leaf(None, x)) };
				f.subs.push(Sub { root: Some(id), items: vec![e], seal: 0 });
				let j = f.subs.len() - 1;
				f.check("insert_node of a leaf", j);
			}
		}
		let i = rng.below(f.subs.len());
		f.questions(i, &mut rng, 4);
		if f.subs.len() > 5 {
			let sub = f.absorb(0);
			let w = f.walk(sub.root, sub.items.len());
			for n in w.nodes.iter().rev() {
				drop(unsafe { f.s.release_node(n.id) });
			}
		}
		if op % 8 == 0 {
			let w = f.walk(f.subs[i.min(f.subs.len() - 1)].root, 1 << 20);
			c.shape(w.hash());
			count_max("max_height", w.height as u64);
		}
	}
	store::fuel(u64::MAX);
	f.fell();
	c.nontrivial = grafts > 0;
	c.observe(grafts as u64);
	c.observe(rng.next());
	c.label = format!("{ops} operations on trees of up to {size} items sharing a storage, {grafts} subtrees inserted");
}

/// Every offset of every internal node takes every small subtree.
fn graft_everywhere<T: Tok, S: Storage<T>>(c: &mut Case, n: usize) {
	let seed = c.rng.next();
	let plant = |f: &mut Forest<T, S>| {
		let mut rng = Rng::new(seed);
		let mut keys: Vec<i64> = (0..n as i64).map(|i| i * STEP).collect();
		if rng.pct(50) {
			rng.shuffle(&mut keys);
		}
		f.grow(&keys)
	};
	let mut f: Forest<T, S> = Forest::new();
	plant(&mut f);
	let w = f.walk(f.subs[0].root, n);
	c.shape(w.hash());
	f.fell();
	let mut done = 0;
	for v in 0..w.nodes.len() {
		if w.nodes[v].leaf || w.height - w.nodes[v].depth != 2 {
			continue;
		}
		for off in 0..=w.nodes[v].items.len() {
			let mut f: Forest<T, S> = Forest::new();
			plant(&mut f);
			let m = MIN + c.rng.below(M + 1 - MIN);
			let w = f.walk(f.subs[0].root, n);
			let nd = &w.nodes[v];
			let rank = if off < nd.items.len() { nd.rank[off] } else { nd.hi };
			let lo = if rank == 0 { -STEP } else { w.items[rank - 1].0 };
			let hi = w.items.get(rank).map(|x| x.0).unwrap_or(n as i64 * STEP);
			let keys = between(lo, hi, m + 1).unwrap();
			f.grow(&keys[1..]);
			let sub = f.absorb(1);
			let x = T::new(keys[0]);
			let e = (keys[0], x.uid());
			note("graft", off as i64, nd.items.len() as i64);
			unsafe { f.s.get_mut(sub.root.unwrap()).set_parent(Some(nd.id)) };
			let (r, a) = unsafe { f.s.insert_exactly_at(f.subs[0].root, Some(Address::new(nd.id, off.into())), x, sub.root) };
			f.subs[0].root = r;
			let mut new = vec![e];
			new.extend(sub.items);
			f.subs[0].items.splice(rank..rank, new);
			let w = f.check(&format!("insert_exactly_at(offset {off} of {}) with a leaf of {m} items", nd.items.len()), 0);
			f.reads("insert_exactly_at with a subtree", a, e.1);
			c.shape(w.hash());
			f.fell();
			done += 1;
		}
	}
	count("subtrees_inserted", done);
	c.nontrivial = done > 0;
	c.observe(n as u64);
	c.label = format!("a subtree at every internal address of a tree of {n} items");
}

pub fn run(x: &mut Ctx) {
	for i in 0..x.reps(x.nm(60, 2), 6) {
		x.case("forest-tiny", i, |c| combo_plain!(i, history(c, 120, 12)));
		if !x.miri || i == 0 {
			x.case("forest-small", i, |c| combo_plain!(i, history(c, if cfg!(miri) { 40 } else { 200 }, 60)));
		}
	}
	if !x.miri {
		for i in 0..x.reps(6, 6) {
			x.case("forest-medium", i, |c| combo_plain!(i, history(c, 200, 400)));
		}
	}
	let sizes: &[usize] = if x.miri { &[9, 30] } else { &[9, 12, 20, 40, 44, 48, 56, 64, 72, 76, 79, 80, 81, 90, 130, 200, 300] };
	for r in 0..x.reps(x.nm(2, 1), 4) {
		for n in sizes {
			let i = r * 1000 + *n as u64;
			x.case("graft-everywhere", i, |c| combo_plain!(i / 1000 + i, graft_everywhere(c, *n)));
		}
	}
}
