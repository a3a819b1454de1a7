//! C13 (clone), C14 (clear and forget), C15 (visitors).
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::gen::{build, ck, ct, GAP, STYLES};
use crate::rng::Rng;
use crate::shape::{walk, Walk};
use crate::store;
use crate::tok::{self, counted, Tok};
use crate::{combo_plain, ensure, viol};
use raw_btree::node::{InternalNode, LeafNode};
use raw_btree::{Node, RawBTree, Storage};

fn sizes(x: &Ctx) -> Vec<usize> {
	if x.miri {
		vec![0, 1, 9, 30, 64]
	} else {
		let mut v: Vec<usize> = (0..=40).collect();
		v.extend([45, 50, 60, 64, 73, 80, 90, 100, 128, 150, 200, 300, 500, 800]);
		if x.thorough {
			v.extend(41..=140);
			v.extend([2000, 5000]);
		}
		v
	}
}

/// Key, uid and payload of every item.
fn snap<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>) -> (Vec<(i64, u64, u64)>, u64) {
	let w = walk(t);
	let v = w.addrs.iter().map(|a| unsafe { t.get_at(*a) }.map(|x| (x.key(), x.uid(), x.payload())).unwrap_or((0, 0, 0))).collect();
	(v, w.hash())
}

fn soundness<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, what: &str) -> Walk<S::Node> {
	let w = walk(t);
	if let Err(e) = w.structure(t.len()) {
		viol!("{what}: {e}")
	}
	if let Err(e) = w.sorted(|k| k) {
		viol!("{what}: {e}")
	}
	w
}

/// Some random operations.
fn stir<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng, ops: usize) {
	store::fuel(5_000_000);
	for j in 0..ops {
		let range = 2 * t.len() as i64 + 10;
		let k = rng.range(0, range) * GAP;
		match rng.below(10) {
			0..=3 => drop(t.insert(ct::<T>, T::new(k))),
			4..=7 => {
				let k = match rng.below(3) {
					0 => t.first().map(|x| x.key()),
					1 => t.last().map(|x| x.key()),
					_ => Some(k),
				};
				drop(k.and_then(|k| t.remove(ck::<T>, &k)))
			}
			8 => {
				for x in t.iter_mut() {
					x.set_payload(j as u64 + 77)
				}
			}
			_ => {
				if let Some(x) = t.first_mut() {
					x.set_payload(j as u64)
				}
			}
		}
	}
	store::fuel(u64::MAX);
}

fn cloned<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<T, S> = build(&mut rng, style, n);
	let mut stamp = 100;
	for x in t.iter_mut() {
		stamp += 1;
		x.set_payload(stamp)
	}
	let before = snap(&t);
	let len = before.0.len();
	// into a new tree, or over another one
	let mut over: Option<RawBTree<T, S>> = None;
	if rng.pct(30) {
		let m = match rng.below(4) {
			0 => n,
			1 => 0,
			_ => rng.below(2 * n.min(200) + 10),
		};
		let style = rng.below(STYLES);
		over = Some(build(&mut rng, style, m));
	}
	let replaced = counted::<T>(over.as_ref().map(|o| o.len()).unwrap_or(0)) as u64;
	let (c0, mut d0, made0) = (tok::clones(), tok::drops(), tok::created());
	note(if over.is_some() { "clone_from" } else { "clone" }, style as i64, len as i64);
	store::fuel(1_000_000 + 100 * n as u64);
	let mut u = match over {
		Some(mut o) => {
			o.clone_from(&t);
			count("clone_from", 1);
			ensure!(tok::drops() - d0 == replaced, "clone_from() over a tree of {replaced} items dropped {}", tok::drops() - d0);
			d0 += replaced;
			o
		}
		None => t.clone(),
	};
	store::fuel(u64::MAX);
	ensure!(tok::clones() - c0 == len as u64, "clone() cloned {} items of {len}", tok::clones() - c0);
	ensure!(tok::created() - made0 == len as u64 && tok::drops() == d0, "clone() created {} items and dropped {}", tok::created() - made0, tok::drops() - d0);
	ensure!(snap(&t) == before, "clone() changed the original");
	ensure!(u.len() == len && u.is_empty() == (len == 0), "the clone of {len} items has len() = {}, is_empty() = {}", u.len(), u.is_empty());
	let wu = soundness(&u, "the clone");
	ensure!(wu.items.len() == len, "the clone holds {} items of {len}", wu.items.len());
	let su = snap(&u);
	for (i, (a, b)) in before.0.iter().zip(&su.0).enumerate() {
		ensure!(a.0 == b.0 && a.2 == b.2, "item of rank {i} of the clone is key={} payload={} instead of key={} payload={}", b.0, b.2, a.0, a.2);
		ensure!(tok::origin(b.1) == a.1, "item of rank {i} of the clone is not a clone of the item of rank {i}");
	}
	let wt = walk(&t);
	for a in &wt.nodes {
		for b in wu.nodes.iter().take(if wt.nodes.len() > 300 { 50 } else { usize::MAX }) {
			let (p, q) = unsafe { (t.node(a.id) as *const _ as usize, u.node(b.id) as *const _ as usize) };
			ensure!(p != q, "the clone shares node {:?} with the original", a.id);
		}
	}
	count("items_cloned", len as u64);
	c.shape(wt.hash());
	c.shape(wu.hash());
	// the clone behaves as a tree of the same content
	for (i, a) in before.0.iter().enumerate().step_by(1 + len / 40) {
		let g = u.get(ck::<T>, &a.0).map(|x| x.uid());
		ensure!(g == Some(su.0[i].1), "get(key={}) on the clone gives {g:?}", a.0);
	}
	ensure!(u.iter().map(|x| x.uid()).eq(su.0.iter().map(|x| x.1)), "iterating over the clone differs from its content");
	// independence, both ways
	note("change-original", 0, 0);
	stir(&mut t, &mut rng, 20);
	ensure!(snap(&u) == su, "changing the original changed the clone");
	let st = snap(&t);
	note("change-clone", 0, 0);
	stir(&mut u, &mut rng, 20);
	ensure!(snap(&t) == st, "changing the clone changed the original");
	soundness(&t, "the original after changes");
	soundness(&u, "the clone after changes");
	let su = snap(&u);
	// destruction, in either order and by different means
	let how = rng.below(5);
	note("destroy", how as i64, 0);
	let d = tok::drops();
	let l = t.len() as u64;
	match how {
		0 => drop(t),
		1 => {
			t.clear();
			drop(t)
		}
		2 => drop(t.into_iter()),
		3 => {
			let v: Vec<T> = t.into_iter().rev().collect();
			drop(v)
		}
		_ => {
			// destroy the clone first
			let st = snap(&t);
			let lu = u.len() as u64;
			let v = std::mem::take(&mut u);
			drop(v);
			ensure!(tok::drops() - d == counted::<T>(lu as usize) as u64, "destroying the clone dropped {} items of {lu}", tok::drops() - d);
			ensure!(snap(&t) == st, "destroying the clone changed the original");
			stir(&mut t, &mut rng, 10);
			soundness(&t, "the original after the destruction of the clone");
			drop(t);
			c.nontrivial = len > 8;
			c.label = format!("style {style} n {len}, clone destroyed first");
			return;
		}
	}
	ensure!(tok::drops() - d == counted::<T>(l as usize) as u64, "destroying the original dropped {} items of {l}", tok::drops() - d);
	ensure!(snap(&u) == su, "destroying the original changed the clone");
	for x in &u {
		ensure!(tok::is_live(x.uid()), "destroying the original dropped an item of the clone");
	}
	stir(&mut u, &mut rng, 10);
	let w = soundness(&u, "the clone after the destruction of the original");
	// a clone of the clone
	let v = u.clone();
	drop(u);
	let wv = soundness(&v, "the clone of the clone");
	ensure!(wv.keys() == w.keys(), "the clone of the clone differs");
	drop(v);
	ensure!(tok::live() == 0, "{} items are alive after all trees were dropped", tok::live());
	c.nontrivial = len > 8;
	c.label = format!("style {style} n {len} height {}", wt.height);
	count_max("max_height", wt.height as u64);
}

pub fn run_clone(x: &mut Ctx) {
	for r in 0..x.reps(x.nm(4, 1), 4) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(2) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				x.case("clone", i, |c| combo_plain!(i / 100_000 + i % 100_000, cloned(c, style, n)));
			}
		}
	}
	if !x.miri {
		for i in 0..x.reps(4, 4) {
			x.case("clone-large", i, |c| combo_plain!(i, cloned(c, i as usize * 5 % STYLES, 20_000)));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("clone-huge", i, |c| combo_plain!(i, cloned(c, i as usize * 2, crate::gen::HUGE)));
		}
	}
}

// ---- C14 --------------------------------------------------------------------

fn looks_empty<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, what: &str) {
	ensure!(t.len() == 0, "after {what}: len() = {}", t.len());
	ensure!(t.is_empty(), "after {what}: is_empty() = false");
	ensure!(t.root().is_none(), "after {what}: root() = {:?}", t.root());
	ensure!(t.first_item_address().is_none(), "after {what}: first_item_address() is not None");
	ensure!(t.first().is_none() && t.last().is_none(), "after {what}: first() or last() is not None");
	ensure!(t.first_mut().is_none() && t.last_mut().is_none(), "after {what}: first_mut() or last_mut() is not None");
	ensure!(t.get(ck::<T>, &0).is_none(), "after {what}: get() finds an item");
	ensure!(t.get_mut(ck::<T>, &0).is_none(), "after {what}: get_mut() finds an item");
	ensure!(matches!(t.address_of(ck::<T>, &GAP), Err(None)), "after {what}: address_of() is not Err(None)");
	ensure!(t.remove(ck::<T>, &0).is_none(), "after {what}: remove() finds an item");
	ensure!(t.iter().len() == 0 && t.iter().next().is_none() && t.iter().next_back().is_none(), "after {what}: iter() is not empty");
	ensure!(t.iter_mut().len() == 0 && t.iter_mut().next().is_none() && t.iter_mut().next_back().is_none(), "after {what}: iter_mut() is not empty");
	let mut k = 0;
	t.visit_from_leaves(|_| k += 1);
	t.visit_from_leaves_mut(|_, _| k += 1);
	ensure!(k == 0, "after {what}: {k} nodes are visited");
	#[cfg(debug_assertions)]
	t.validate(ct::<T>);
}

fn cleared<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, forget: bool) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<T, S> = build(&mut rng, style, n);
	let mut leaked = 0;
	for round in 0..3 {
		let forget = forget && (round != 1);
		let what = if forget { "forget()" } else { "clear()" };
		let w = walk(&t);
		c.shape(w.hash());
		let len = w.items.len();
		let (d, a) = (tok::drops(), store::active());
		note(what, len as i64, round);
		store::fuel(2_000_000 + 100 * len as u64);
		if forget {
			t.forget();
			ensure!(tok::drops() == d, "forget() ran {} destructors", tok::drops() - d);
			for (k, u) in &w.items {
				ensure!(tok::is_live(*u), "forget() dropped item key={k}");
			}
			leaked += counted::<T>(len);
		} else {
			t.clear();
			ensure!(tok::drops() - d == counted::<T>(len) as u64, "clear() ran {} destructors for {len} items", tok::drops() - d);
			for (k, u) in &w.items {
				ensure!(!T::DROPS || !tok::is_live(*u), "clear() did not drop item key={k}");
			}
		}
		if a > 0 {
			ensure!(a - store::active() == w.nodes.len() as i64, "{what} gave back {} of {} nodes", a - store::active(), w.nodes.len());
		}
		count("items_cleared", len as u64);
		looks_empty(&mut t, what);
		// the same operations on this tree and on a new one
		let seed = rng.next();
		let mut new: RawBTree<T, S> = RawBTree::new();
		let m = rng.below(n + 12);
		let ra = same_ops(&mut t, seed, m);
		let rb = same_ops(&mut new, seed, m);
		ensure!(ra == rb, "after {what}: the tree does not behave like a new one: {:?} instead of {:?}", ra.iter().zip(&rb).find(|(a, b)| a != b).map(|x| x.0), ra.iter().zip(&rb).find(|(a, b)| a != b).map(|x| x.1));
		let wt = soundness(&t, &format!("the tree reused after {what}"));
		let wn = walk(&new);
		ensure!(wt.keys() == wn.keys(), "after {what}: the tree and a new one differ after the same operations");
		c.shape(wt.hash());
		drop(new);
	}
	// twice in a row, and on an empty tree
	let d = tok::drops();
	let len = t.len() as u64;
	t.clear();
	t.clear();
	t.forget();
	ensure!(tok::drops() - d == counted::<T>(len as usize) as u64, "clear() twice dropped {} items of {len}", tok::drops() - d);
	looks_empty(&mut t, "clear() twice then forget()");
	t.insert(ct::<T>, T::new(1));
	ensure!(t.len() == 1, "len() = {} after inserting in a cleared tree", t.len());
	drop(t);
	ensure!(tok::live() == leaked, "{} items are alive, {leaked} were forgotten", tok::live());
	c.nontrivial = n > 8;
	c.label = format!("style {style} n {n} forget {forget}");
}

fn same_ops<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, seed: u64, ops: usize) -> Vec<i64> {
	let mut rng = Rng::new(seed);
	let mut out = vec![];
	for _ in 0..ops {
		let k = rng.range(0, ops as i64) * GAP;
		match rng.below(6) {
			0..=3 => out.push(t.insert(ct::<T>, T::new(k)).map(|x| x.key()).unwrap_or(-1)),
			4 => out.push(t.remove(ck::<T>, &k).map(|x| x.key()).unwrap_or(-2)),
			_ => out.push(t.get(ck::<T>, &k).map(|x| x.key()).unwrap_or(-3)),
		}
		out.push(t.len() as i64);
	}
	out.extend(t.iter().map(|x| x.key()));
	out
}

pub fn run_clear(x: &mut Ctx) {
	let forget_ok = !x.miri || x.leaky;
	for r in 0..x.reps(x.nm(4, 1), 4) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(2) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				x.case("clear", i, |c| combo_plain!(i / 100_000 + i % 100_000, cleared(c, style, n, false)));
				if forget_ok {
					x.case("forget", i, |c| combo_plain!(i / 100_000 + i % 100_000, cleared(c, style, n, true)));
				}
			}
		}
	}
	if !x.miri {
		for i in 0..x.reps(4, 4) {
			x.case("clear-large", i, |c| combo_plain!(i, cleared(c, i as usize * 5 % STYLES, 20_000, i % 2 == 1)));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("clear-huge", i, |c| combo_plain!(i, cleared(c, i as usize * 2, crate::gen::HUGE, i == 1)));
		}
	}
}

// ---- C15 --------------------------------------------------------------------

fn check_visit<N: Copy + PartialEq + std::fmt::Debug>(what: &str, w: &Walk<N>, base: usize, seen: &[N]) {
	// indices of the proper descendants of `base` (or of the whole tree)
	let mut want = vec![];
	let mut stack: Vec<usize> = w.nodes[base].children.clone();
	while let Some(i) = stack.pop() {
		want.push(i);
		stack.extend(&w.nodes[i].children);
	}
	let mut when = vec![None; w.nodes.len()];
	for (pos, id) in seen.iter().enumerate() {
		match want.iter().find(|i| w.nodes[**i].id == *id) {
			None => viol!("{what}: visited {id:?}, which is not one of the nodes to visit"),
			Some(i) => {
				ensure!(when[*i].is_none(), "{what}: visited {id:?} twice");
				when[*i] = Some(pos);
			}
		}
	}
	for i in &want {
		let Some(p) = when[*i] else { viol!("{what}: node {:?} (depth {}) is not visited", w.nodes[*i].id, w.nodes[*i].depth) };
		for ch in &w.nodes[*i].children {
			ensure!(when[*ch].is_some_and(|q| q < p), "{what}: node {:?} is visited before its child {:?}", w.nodes[*i].id, w.nodes[*ch].id);
		}
	}
	count("nodes_visited", seen.len() as u64);
}

fn visited<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let mut t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	note("visit", style as i64, w.nodes.len() as i64);
	store::fuel(100_000 + 50 * w.nodes.len() as u64);
	let mut seen = vec![];
	t.visit_from_leaves(|id| seen.push(id));
	let whole = |what: &str, seen: &[S::Node]| match t.root() {
		None => ensure!(seen.is_empty(), "{what}: visited {} nodes of an empty tree", seen.len()),
		Some(r) => {
			ensure!(seen.last() == Some(&r), "{what}: the last node visited is {:?} instead of the root {r:?}", seen.last());
			check_visit(what, &w, 0, &seen[..seen.len() - 1]);
		}
	};
	whole("visit_from_leaves", &seen);
	let mut seen = vec![];
	let mut ptrs = vec![];
	let mut stamp = c.rng.next() >> 8;
	let base = stamp;
	let mut writes: std::collections::HashMap<u64, u64> = Default::default();
	t.visit_from_leaves_mut(|id, node| {
		seen.push(id);
		ptrs.push(node as *const Node<T, S> as usize);
		for i in 0..node.item_count() {
			if let Some(x) = node.item_mut(i.into()) {
				stamp += 1;
				x.set_payload(stamp);
				writes.insert(x.uid(), stamp);
			}
		}
	});
	let whole = |what: &str, seen: &[S::Node]| match t.root() {
		None => ensure!(seen.is_empty(), "{what}: visited {} nodes of an empty tree", seen.len()),
		Some(r) => {
			ensure!(seen.last() == Some(&r), "{what}: the last node visited is {:?} instead of the root {r:?}", seen.last());
			check_visit(what, &w, 0, &seen[..seen.len() - 1]);
		}
	};
	whole("visit_from_leaves_mut", &seen);
	for (id, p) in seen.iter().zip(&ptrs) {
		let q = unsafe { t.node(*id) } as *const Node<T, S> as usize;
		ensure!(*p == q, "visit_from_leaves_mut: the node given for {id:?} is not the node it designates");
	}
	ensure!((stamp - base) as usize == w.items.len(), "visit_from_leaves_mut: {} items were seen out of {}", stamp - base, w.items.len());
	for (k, u) in &w.items {
		let e = writes.get(u).copied();
		let g = t.get(ck::<T>, k).map(|x| x.payload());
		ensure!(g == e, "item key={k} reads {g:?} instead of {e:?}, written by the visitor");
	}
	let w2 = walk(&t);
	ensure!(w2.items == w.items && w2.hash() == w.hash(), "visiting changed the tree");
	c.nontrivial = w.nodes.len() > 1;
	c.label = format!("style {style} n {} nodes {} height {}", w.items.len(), w.nodes.len(), w.height);
	count_max("max_height", w.height as u64);
}

/// A forest of arbitrary shape, built node by node in a storage.
fn manual<T: Tok, S: Storage<T>>(c: &mut Case, depth: usize) {
	let mut s = S::default();
	let mut key = 0;
	let mut w: Walk<S::Node> = Walk { items: vec![], addrs: vec![], nodes: vec![], height: 0 };
	fn grow<T: Tok, S: Storage<T>>(s: &mut S, rng: &mut Rng, depth: usize, key: &mut i64, w: &mut Walk<S::Node>, parent: Option<usize>, level: usize) -> usize {
		let me = w.nodes.len();
		w.nodes.push(crate::shape::NodeRec {
			id: {
				// placeholder, replaced below
				let tmp: Node<T, S> = Node::leaf(None, T::new(-1));
				let id = s.allocate_node(tmp);
				drop(unsafe { s.release_node(id) });
				id
			},
			parent,
			recorded_parent: None,
			depth: level,
			leaf: depth == 0,
			items: vec![],
			children: vec![],
			lo: 0,
			hi: 0,
			rank: vec![],
		});
		let id = if depth == 0 || (level > 0 && rng.pct(15)) {
			let mut leaf: LeafNode<T, S> = LeafNode::new(None, Default::default());
			for _ in 0..rng.below(5) {
				*key += 1;
				leaf.push_right(T::new(*key));
			}
			s.allocate_node(Node::Leaf(leaf))
		} else {
			let k = rng.below(5);
			let mut ids = vec![];
			for _ in 0..=k {
				let ch = grow::<T, S>(s, rng, depth - 1, key, w, Some(me), level + 1);
				w.nodes[me].children.push(ch);
				ids.push(w.nodes[ch].id);
			}
			let mut node: InternalNode<T, S> = InternalNode::new(None, ids[0], Default::default());
			for ch in &ids[1..] {
				*key += 1;
				node.push_right(T::new(*key), *ch);
			}
			unsafe { s.insert_node(Node::Internal(node)) }
		};
		w.nodes[me].id = id;
		me
	}
	grow::<T, S>(&mut s, &mut c.rng, depth, &mut key, &mut w, None, 0);
	note("forest", depth as i64, w.nodes.len() as i64);
	// every node's own descendants
	for i in 0..w.nodes.len() {
		let id = w.nodes[i].id;
		let mut seen = vec![];
		unsafe { s.get(id) }.visit_from_leaves(&s, |x| seen.push(x));
		check_visit("Node::visit_from_leaves", &w, i, &seen);
		let mut seen = vec![];
		unsafe { s.get(id) }.visit_from_leaves_with(&s, &mut |x| seen.push(x));
		check_visit("Node::visit_from_leaves_with", &w, i, &seen);
		for with in [false, true] {
			let mut seen = vec![];
			let mut ptrs = vec![];
			let mut stamp = 0;
			let node: &Node<T, S> = unsafe { &*(s.get(id) as *const Node<T, S>) };
			let mut f = |x: S::Node, n: &mut Node<T, S>| {
				seen.push(x);
				ptrs.push(n as *const Node<T, S> as usize);
				for j in 0..n.item_count() {
					if let Some(y) = n.item_mut(j.into()) {
						stamp += 1;
						y.set_payload(stamp)
					}
				}
			};
			if with {
				node.visit_from_leaves_mut_with(&mut s, &mut f);
			} else {
				node.visit_from_leaves_mut(&mut s, &mut f);
			}
			check_visit("Node::visit_from_leaves_mut", &w, i, &seen);
			for (x, p) in seen.iter().zip(&ptrs) {
				let q = unsafe { s.get(*x) } as *const Node<T, S> as usize;
				ensure!(*p == q, "Node::visit_from_leaves_mut: the node given for {x:?} is not the node it designates");
			}
		}
	}
	for nd in &w.nodes {
		let n = unsafe { s.get(nd.id) };
		let p = nd.parent.map(|p| w.nodes[p].id);
		ensure!(n.parent() == p, "insert_node: node {:?} records parent {:?} instead of {p:?}", nd.id, n.parent());
	}
	for nd in w.nodes.iter().rev() {
		drop(unsafe { s.release_node(nd.id) });
	}
	ensure!(tok::live() == 0, "{} items left", tok::live());
	c.nontrivial = w.nodes.len() > 2;
	c.observe(w.nodes.len() as u64);
	c.label = format!("forest of {} nodes", w.nodes.len());
}

pub fn run_visit(x: &mut Ctx) {
	for r in 0..x.reps(x.nm(4, 1), 4) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(2) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				x.case("visit", i, |c| combo_plain!(i / 100_000 + i % 100_000, visited(c, style, n)));
			}
		}
	}
	for i in 0..x.reps(x.nm(400, 3), 8) {
		x.case("visit-forest", i, |c| combo_plain!(i, manual(c, (i / 8) as usize % 4)));
	}
	if !x.miri {
		for i in 0..x.reps(4, 4) {
			x.case("visit-large", i, |c| combo_plain!(i, visited(c, i as usize * 5 % STYLES, 6_000)));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("visit-huge", i, |c| combo_plain!(i, visited(c, i as usize * 2, crate::gen::HUGE / 4)));
		}
	}
}
