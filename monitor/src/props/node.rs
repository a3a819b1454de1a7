//! C23: nodes against a model made of an item sequence and a child sequence.
use crate::ctx::{count, expecting, note, Case, Ctx};
use crate::gen::{ck, ct, GAP};
use crate::rng::Rng;
use crate::tok::{self, counted, Tok, TokA, TokB, TokL, TokP, TokS};
use crate::{ensure, viol};
use raw_btree::node::{Balance, InternalNode, LeafNode};
use raw_btree::storage::Dropper;
use raw_btree::{Node, Offset, Storage, M};

/// A storage whose identifiers are plain numbers: nodes are studied alone.
#[derive(Default, Clone)]
pub struct Ids;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Id(u32);
pub struct NoDrop;
unsafe impl<T> Storage<T> for Ids {
	type Node = Id;
	type Dropper = NoDrop;
	fn allocate_node(&mut self, _: Node<T, Self>) -> Id {
		unreachable!()
	}
	unsafe fn release_node(&mut self, _: Id) -> Node<T, Self> {
		unreachable!()
	}
	fn start_dropping(&self) -> Option<NoDrop> {
		None
	}
	unsafe fn get(&self, _: Id) -> &Node<T, Self> {
		unreachable!()
	}
	unsafe fn get_mut(&mut self, _: Id) -> &mut Node<T, Self> {
		unreachable!()
	}
}
unsafe impl<T> Dropper<T, Ids> for NoDrop {
	unsafe fn drop_node(&mut self, _: Id) {
		unreachable!()
	}
}

type K = (i64, u64);

#[derive(Clone, Debug, PartialEq)]
struct Model {
	parent: Option<Id>,
	items: Vec<K>,
	/// Empty for a leaf, otherwise one more than items.
	kids: Vec<Id>,
	payload: std::collections::HashMap<u64, u64>,
}

impl Model {
	fn leaf(&self) -> bool {
		self.kids.is_empty()
	}
	/// Most items a node can hold.
	fn cap(&self) -> usize {
		if self.leaf() {
			M + 1
		} else {
			M
		}
	}
	fn over(&self) -> bool {
		self.items.len() >= self.cap()
	}
	fn under(&self) -> bool {
		self.items.len() < M / 2 - 1
	}
	fn find(&self, k: i64) -> Result<usize, usize> {
		self.items.binary_search_by(|x| x.0.cmp(&k))
	}
	/// A key for an item to be placed at `i`.
	fn gap(&self, i: usize) -> Option<i64> {
		let keys: Vec<i64> = self.items.iter().map(|x| x.0).collect();
		crate::gen::key_at(&keys, i)
	}
}

fn bal(m: &Model) -> (bool, bool, bool) {
	(m.over(), m.under(), m.items.is_empty())
}

fn judge_balance(what: &str, b: Balance, m: &Model) {
	let ok = match b {
		Balance::Overflow => m.over(),
		Balance::Underflow(e) => !m.over() && m.under() && e == m.items.is_empty(),
		Balance::Balanced => !m.over() && !m.under(),
	};
	ensure!(ok, "{what}: balance is {b:?} for a {} of {} items", if m.leaf() { "leaf" } else { "node" }, m.items.len());
}

fn same<T: Tok>(what: &str, g: Option<&T>, e: Option<&K>) {
	ensure!(g.map(|x| (x.key(), x.uid())) == e.copied(), "{what}: gives item {:?} instead of {:?}", g.map(|x| x.key()), e.map(|x| x.0));
}

type N<T> = Node<T, Ids>;

/// Everything that can be read from a node.
fn compare<T: Tok>(n: &mut N<T>, m: &Model, what: &str) {
	let k = m.items.len();
	count("nodes_compared", 1);
	ensure!(n.item_count() == k, "{what}: {} items instead of {k}", n.item_count());
	ensure!(n.parent() == m.parent, "{what}: parent is {:?} instead of {:?}", n.parent(), m.parent);
	ensure!(n.child_count() == m.kids.len(), "{what}: {} children instead of {}", n.child_count(), m.kids.len());
	ensure!(n.is_overflowing() == m.over(), "{what}: is_overflowing() is {} with {k} items", n.is_overflowing());
	ensure!(n.is_underflowing() == m.under(), "{what}: is_underflowing() is {} with {k} items", n.is_underflowing());
	judge_balance(what, n.balance(), m);
	for i in 0..k + 3 {
		same(&format!("{what}: item({i})"), n.item(i.into()), m.items.get(i));
		let g = n.item_mut(i.into());
		same(&format!("{what}: item_mut({i})"), g.as_deref(), m.items.get(i));
		if let Some(g) = g {
			let e = m.payload.get(&m.items[i].1).copied().unwrap_or(0);
			ensure!(g.payload() == e, "{what}: item {i} lost what was written to it");
		}
		ensure!(n.child_id_opt(i) == m.kids.get(i).copied(), "{what}: child_id_opt({i}) is {:?} instead of {:?}", n.child_id_opt(i), m.kids.get(i));
		if let Some(c) = m.kids.get(i) {
			ensure!(n.child_id(i) == *c, "{what}: child_id({i}) is {:?} instead of {c:?}", n.child_id(i));
			ensure!(n.child_index(*c) == Some(i), "{what}: child_index({c:?}) is {:?} instead of {i}", n.child_index(*c));
			let (a, b) = n.separators(i);
			same(&format!("{what}: left separator of child {i}"), a, i.checked_sub(1).and_then(|j| m.items.get(j)));
			same(&format!("{what}: right separator of child {i}"), b, m.items.get(i));
		}
	}
	if m.leaf() {
		for i in [0, 1, k] {
			let (a, b) = n.separators(i);
			ensure!(a.is_none() && b.is_none(), "{what}: separators({i}) of a leaf are not None");
		}
	}
	same(&format!("{what}: item(-1)"), n.item(Offset::before()), None);
	ensure!(n.item_mut(Offset::before()).is_none(), "{what}: item_mut(-1) is an item");
	ensure!(n.child_index(Id(u32::MAX)).is_none(), "{what}: child_index() of an unknown child");
	ensure!(n.children().eq(m.kids.iter().copied()), "{what}: children() differs from {:?}", m.kids);
	let cs: Vec<(Option<K>, Id, Option<K>)> = n.children_with_separators().map(|(a, b, c)| (a.map(|x| (x.key(), x.uid())), b, c.map(|x| (x.key(), x.uid())))).collect();
	let want: Vec<(Option<K>, Id, Option<K>)> = m.kids.iter().enumerate().map(|(i, c)| (i.checked_sub(1).and_then(|j| m.items.get(j)).copied(), *c, m.items.get(i).copied())).collect();
	ensure!(cs == want, "{what}: children_with_separators() is {cs:?} instead of {want:?}");
	thread_local!(static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
	let turn = TURN.with(|t| t.replace(t.get() + 1));
	if !cfg!(miri) || turn % 8 == 0 {
		laws(&format!("{what}: children()"), &|| n.children(), |x| x, &m.kids);
		laws(&format!("{what}: children_with_separators()"), &|| n.children_with_separators(), |(a, b, c)| (a.map(|x| (x.key(), x.uid())), b, c.map(|x| (x.key(), x.uid()))), &want);
	}
	match n {
		Node::Leaf(l) => {
			ensure!(m.leaf(), "{what}: a leaf instead of an internal node");
			ensure!(l.iter().map(|x| (x.key(), x.uid())).eq(m.items.iter().copied()), "{what}: iter() differs");
			ensure!(l.items().iter().map(|x| (x.key(), x.uid())).eq(m.items.iter().copied()), "{what}: items() differs");
			ensure!(l.item_count() == k && l.parent() == m.parent && l.is_overflowing() == m.over() && l.is_underflowing() == m.under(), "{what}: the leaf differs from the node");
			judge_balance(what, l.balance(), m);
		}
		Node::Internal(l) => {
			ensure!(!m.leaf(), "{what}: an internal node instead of a leaf");
			ensure!(l.first_child_id() == m.kids[0], "{what}: first_child_id() is {:?}", l.first_child_id());
			ensure!(l.branches().iter().map(|b| ((b.item.key(), b.item.uid()), b.child)).eq(m.items.iter().copied().zip(m.kids[1..].iter().copied())), "{what}: branches() differs");
			ensure!(l.branches().iter().all(|b| std::ptr::eq(b.as_ref(), &b.item)), "{what}: a branch as reference is not its item");
			judge_balance(what, l.balance(), m);
		}
	}
}

/// What any iterator over `want` has to satisfy, whatever it overrides.
fn laws<I: Iterator, X: PartialEq + std::fmt::Debug>(what: &str, make: &dyn Fn() -> I, id: fn(I::Item) -> X, want: &[X]) {
	let n = want.len();
	let mut it = make();
	for (i, e) in want.iter().enumerate() {
		let (lo, hi) = it.size_hint();
		ensure!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "{what}: size_hint() is ({lo}, {hi:?}) with {} left", n - i);
		let g = it.next().map(id);
		ensure!(g.as_ref() == Some(e), "{what}: item {i} is {g:?} instead of {e:?}");
	}
	ensure!(it.next().is_none() && it.size_hint().0 == 0, "{what}: more than {n} items");
	ensure!(make().count() == n, "{what}: count() is {} instead of {n}", make().count());
	ensure!(make().last().map(id).as_ref() == want.last(), "{what}: last() differs");
	ensure!(make().fold(0, |i, x| i + (want.get(i) == Some(&id(x))) as usize) == n, "{what}: fold() differs");
	for i in 0..=n {
		let mut it = make();
		ensure!(it.nth(i).map(id).as_ref() == want.get(i), "{what}: nth({i}) differs");
		ensure!(it.next().map(id).as_ref() == want.get(i + 1), "{what}: next() after nth({i}) differs");
		let mut it = make();
		let mut k = 0;
		let _ = it.try_fold((), |_, x| {
			ensure!(want.get(k) == Some(&id(x)), "{what}: try_fold() differs at {k}");
			k += 1;
			if k > i {
				None
			} else {
				Some(())
			}
		});
		ensure!(it.next().map(id).as_ref() == want.get(i + 1), "{what}: next() after try_fold() differs");
		let mut rest = want[i..].iter();
		ensure!(make().skip(i).all(|x| rest.next() == Some(&id(x))) && rest.next().is_none(), "{what}: skip({i}) differs");
	}
	for s in 1..4 {
		let mut k = 0;
		for x in make().step_by(s) {
			ensure!(want.get(k) == Some(&id(x)), "{what}: step_by({s}) differs at {k}");
			k += s;
		}
		ensure!(k >= n, "{what}: step_by({s}) stops early");
	}
}

/// Every search, for every stored key and every gap.
fn search<T: Tok>(n: &mut N<T>, m: &Model) {
	let mut keys: Vec<i64> = vec![];
	for i in 0..=m.items.len() {
		keys.extend(m.gap(i));
		keys.extend(m.items.get(i).map(|x| x.0));
	}
	for k in keys {
		let e = m.find(k);
		match (n.offset_of(ck::<T>, &k), e) {
			(Ok(o), Ok(i)) => ensure!(o == i, "offset_of(key={k}) is Ok({o}) instead of Ok({i})"),
			(Err((o, c)), Err(i)) => ensure!(o == i && c == m.kids.get(i).copied(), "offset_of(key={k}) is Err({o}, {c:?}) instead of Err({i}, {:?})", m.kids.get(i)),
			(g, e) => viol!("offset_of(key={k}) is {g:?} instead of {e:?}"),
		}
		match n.get(ck::<T>, &k) {
			Ok(g) => {
				ensure!(m.leaf() || e.is_ok(), "get(key={k}) does not lead to a child");
				same(&format!("get(key={k})"), g, e.ok().map(|i| &m.items[i]))
			}
			Err(c) => ensure!(e.err().and_then(|i| m.kids.get(i)) == Some(&c), "get(key={k}) leads to {c:?}"),
		}
		match n.get_mut(ck::<T>, &k) {
			Ok(g) => {
				ensure!(m.leaf() || e.is_ok(), "get_mut(key={k}) does not lead to a child");
				same(&format!("get_mut(key={k})"), g.as_deref(), e.ok().map(|i| &m.items[i]))
			}
			Err(c) => ensure!(e.err().and_then(|i| m.kids.get(i)) == Some(&*c), "get_mut(key={k}) leads to {c:?}"),
		}
		match n {
			Node::Leaf(l) => {
				same(&format!("leaf get(key={k})"), l.get(ck::<T>, &k), e.ok().map(|i| &m.items[i]));
				same(&format!("leaf get_mut(key={k})"), l.get_mut(ck::<T>, &k).as_deref(), e.ok().map(|i| &m.items[i]));
				match (l.offset_of(ck::<T>, &k), e) {
					(Ok(o), Ok(i)) | (Err(o), Err(i)) => ensure!(o == i, "leaf offset_of(key={k}) is {o} instead of {i}"),
					(g, e) => viol!("leaf offset_of(key={k}) is {g:?} instead of {e:?}"),
				}
			}
			Node::Internal(l) => {
				ensure!(l.get(ck::<T>, &k).is_ok() == e.is_ok(), "internal get(key={k})");
				ensure!(l.get_mut(ck::<T>, &k).is_ok() == e.is_ok(), "internal get_mut(key={k})");
				ensure!(l.offset_of(ck::<T>, &k).is_ok() == e.is_ok(), "internal offset_of(key={k})");
			}
		}
		count("searches_checked", 1);
	}
}

struct World {
	rng: Rng,
	next: u32,
	forgotten: usize,
}
impl World {
	fn id(&mut self) -> Id {
		self.next += 1;
		Id(self.next)
	}
}

fn fresh<T: Tok>(k: i64) -> (T, K) {
	let x = T::new(k);
	let e = (k, x.uid());
	(x, e)
}

/// A node of `len` items with keys from `base`.
fn make<T: Tok>(w: &mut World, leaf: bool, len: usize, base: i64) -> (N<T>, Model) {
	let parent = if w.rng.pct(50) { Some(w.id()) } else { None };
	let mut m = Model { parent, items: vec![], kids: vec![], payload: Default::default() };
	let n = if leaf {
		if len > 0 && w.rng.pct(40) {
			let (x, e) = fresh::<T>(base);
			m.items.push(e);
			if w.rng.pct(50) {
				Node::leaf(parent, x)
			} else {
				Node::Leaf(LeafNode::from_item(parent, x))
			}
		} else {
			Node::Leaf(LeafNode::new(parent, Default::default()))
		}
	} else {
		let c = w.id();
		m.kids.push(c);
		if len > 0 && w.rng.pct(40) {
			let (x, e) = fresh::<T>(base);
			let d = w.id();
			m.items.push(e);
			m.kids.push(d);
			if w.rng.pct(50) {
				Node::binary(parent, c, x, d)
			} else {
				Node::Internal(InternalNode::binary(parent, c, x, d))
			}
		} else {
			Node::Internal(InternalNode::new(parent, c, Default::default()))
		}
	};
	let mut n: N<T> = n;
	while m.items.len() < len {
		let (x, e) = fresh::<T>(base + m.items.len() as i64 * GAP * 16);
		let i = m.items.len();
		m.items.push(e);
		let c = if leaf {
			None
		} else {
			let c = w.id();
			m.kids.push(c);
			Some(c)
		};
		let o = n.push_right(x, c);
		ensure!(o == i, "push_right() on {i} items returns offset {o}");
	}
	(n, m)
}

fn took<T: Tok>(what: &str, x: T, e: K) {
	ensure!((x.key(), x.uid()) == e, "{what} returns item {} instead of {}", x.key(), e.0);
	// dropped here, by the caller
}

/// Calls the node cannot carry out: it panics and stays as it was.
fn misuse<T: Tok>(w: &mut World, n: &mut N<T>, m: &Model) {
	let len = m.items.len();
	let direct = w.rng.pct(50);
	let far = [len, len + 1, len + M, 1 << 20, usize::MAX - 1][w.rng.below(5)];
	// of an item that does not exist
	let nowhere: Offset = if w.rng.pct(30) { Offset::before() } else { far.into() };
	// where nothing can be inserted
	let beyond: Offset = if w.rng.pct(30) { Offset::before() } else { far.saturating_add(1).min(usize::MAX - 1).into() };
	let op = w.rng.below(9);
	let (x, e) = fresh::<T>(m.items.last().map(|x| x.0).unwrap_or(0) + GAP);
	let c = w.id();
	note("node-misuse", op as i64, len as i64);
	let (what, r) = match op {
		0 => (
			"an insertion out of bounds",
			expecting(|| match n {
				Node::Leaf(l) if direct => l.insert(beyond, x),
				Node::Internal(l) if direct => l.insert(beyond, x, c),
				n => n.insert(beyond, x, if m.leaf() { None } else { Some(c) }),
			}),
		),
		1 => (
			"a removal out of bounds",
			expecting(|| match n {
				Node::Leaf(l) => drop(l.remove(nowhere)),
				Node::Internal(l) => drop(l.remove(nowhere)),
			}),
		),
		2 => (
			"a replacement out of bounds, or in a leaf",
			expecting(|| match n {
				Node::Internal(l) if direct => drop(l.replace(nowhere, x)),
				Node::Internal(_) => drop(n.replace(nowhere, x)),
				n => drop(n.replace(if direct { 0.into() } else { nowhere }, x)),
			}),
		),
		3 => (
			"a merge of children that do not exist",
			expecting(|| match n {
				Node::Internal(l) if direct => drop(l.merge(far)),
				Node::Internal(_) => drop(n.merge(far)),
				n => drop(n.merge(if direct { 0 } else { far })),
			}),
		),
		4 => ("the child at an index without child", expecting(|| drop(n.child_id(if m.leaf() && direct { 0 } else { far.saturating_add(1) })))),
		5 => {
			let l2 = w.rng.below(M / 2);
			let (o, _) = make::<T>(w, !m.leaf(), l2, e.0 + GAP);
			("appending a node of the other kind", expecting(|| drop(n.append(x, o))))
		}
		6 if !m.over() => (
			"splitting a node that is not overflowing",
			expecting(|| match n {
				Node::Leaf(l) if direct => drop(l.split()),
				Node::Internal(l) if direct => drop(l.split()),
				n => drop(n.split()),
			}),
		),
		7 if !m.leaf() => (
			"an insertion in an internal node without a child",
			expecting(|| match len % 3 {
				0 => n.push_left(x, None),
				1 => drop(n.push_right(x, None)),
				_ => n.insert((len / 2).into(), x, None),
			}),
		),
		8 if m.leaf() && len == 0 => (
			"removing the last item of an empty leaf",
			expecting(|| match n {
				Node::Leaf(l) if direct => drop(l.remove_last()),
				n => drop(n.remove_rightmost_leaf()),
			}),
		),
		_ => return,
	};
	ensure!(r.is_err(), "{what} is not refused");
	count("misuses_refused", 1);
}

fn step<T: Tok>(w: &mut World, n: &mut N<T>, m: &mut Model) -> Option<(N<T>, Model)> {
	let len = m.items.len();
	let room = len < m.cap();
	let op = w.rng.below(19);
	// through the enumeration or through the variant itself
	let direct = w.rng.pct(40);
	note("node-op", op as i64, len as i64);
	match op {
		0 | 1 if room => {
			// insert at an offset
			let i = w.rng.below(len + 1);
			let k = m.gap(i)?;
			let (x, e) = fresh::<T>(k);
			m.items.insert(i, e);
			if m.leaf() {
				match n {
					Node::Leaf(l) if direct => l.insert(i.into(), x),
					n => n.insert(i.into(), x, None),
				}
			} else {
				let c = w.id();
				m.kids.insert(i + 1, c);
				match n {
					Node::Internal(l) if direct => l.insert(i.into(), x, c),
					n => n.insert(i.into(), x, Some(c)),
				}
			}
		}
		2 | 3 if len > 0 => {
			// remove at an offset
			let i = w.rng.below(len);
			let e = m.items.remove(i);
			match n {
				Node::Leaf(l) if direct => took("remove()", l.remove(i.into()), e),
				Node::Leaf(_) => match n.leaf_remove(i.into()) {
					Some(Ok(x)) => took("leaf_remove()", x, e),
					_ => viol!("leaf_remove({i}) on a leaf of {len} items gives no item"),
				},
				Node::Internal(l) => {
					let right = m.kids.remove(i + 1);
					let (a, x, b) = l.remove(i.into());
					took("remove()", x, e);
					ensure!(a == m.kids[i] && b == right, "remove({i}) returns children {a:?}, {b:?} instead of {:?}, {right:?}", m.kids[i]);
				}
			}
		}
		4 => {
			// offsets without item, and the way to the leaves
			for o in [Offset::before(), len.into(), (len + 1).into(), (len + 40).into()] {
				ensure!(n.leaf_remove(o).is_none(), "leaf_remove({o}) with {len} items is not None");
			}
			if !m.leaf() {
				for i in 0..len {
					match n.leaf_remove(i.into()) {
						Some(Err(c)) => ensure!(c == m.kids[i], "leaf_remove({i}) leads to {c:?} instead of the child on the left, {:?}", m.kids[i]),
						_ => viol!("leaf_remove({i}) on an internal node does not lead to a child"),
					}
				}
				match n.remove_rightmost_leaf() {
					Err(c) => ensure!(c == m.kids[len], "remove_rightmost_leaf() leads to {c:?} instead of {:?}", m.kids[len]),
					Ok(_) => viol!("remove_rightmost_leaf() removes an item from an internal node"),
				}
			}
		}
		5 if len > 0 && m.leaf() => {
			let e = m.items.pop().unwrap();
			match n {
				Node::Leaf(l) if direct => took("remove_last()", l.remove_last(), e),
				n => match n.remove_rightmost_leaf() {
					Ok(x) => took("remove_rightmost_leaf()", x, e),
					Err(_) => viol!("remove_rightmost_leaf() gives no item of a leaf"),
				},
			}
		}
		6 if room => {
			let (x, e) = fresh::<T>(m.gap(0)?);
			m.items.insert(0, e);
			if m.leaf() {
				match n {
					Node::Leaf(l) if direct => l.push_left(x),
					n => n.push_left(x, None),
				}
			} else {
				let c = w.id();
				m.kids.insert(0, c);
				match n {
					Node::Internal(l) if direct => l.push_left(x, c),
					n => n.push_left(x, Some(c)),
				}
			}
		}
		7 if room => {
			let (x, e) = fresh::<T>(m.gap(len)?);
			m.items.push(e);
			let o = if m.leaf() {
				match n {
					Node::Leaf(l) if direct => l.push_right(x),
					n => n.push_right(x, None),
				}
			} else {
				let c = w.id();
				m.kids.push(c);
				match n {
					Node::Internal(l) if direct => l.push_right(x, c),
					n => n.push_right(x, Some(c)),
				}
			};
			ensure!(o == len, "push_right() on {len} items returns offset {o}");
		}
		8 => {
			let ok = len > M / 2 - 1;
			let r = match n {
				Node::Leaf(l) if direct => l.pop_left().map(|x| (x, None)),
				Node::Internal(l) if direct => l.pop_left().map(|(x, c)| (x, Some(c))),
				n => n.pop_left(),
			};
			match r {
				Err(_) => ensure!(!ok, "pop_left() refuses with {len} items"),
				Ok((x, c)) => {
					ensure!(ok, "pop_left() makes a node of {len} items underflow");
					took("pop_left()", x, m.items.remove(0));
					let e = if m.leaf() { None } else { Some(m.kids.remove(0)) };
					ensure!(c == e, "pop_left() returns child {c:?} instead of {e:?}");
				}
			}
		}
		9 => {
			let ok = len > M / 2 - 1;
			let r = match n {
				Node::Leaf(l) if direct => l.pop_right().map(|(o, x)| (o, x, None)),
				Node::Internal(l) if direct => l.pop_right().map(|b| (b.offset, b.item, Some(b.child))),
				n => n.pop_right(),
			};
			match r {
				Err(_) => ensure!(!ok, "pop_right() refuses with {len} items"),
				Ok((o, x, c)) => {
					ensure!(ok, "pop_right() makes a node of {len} items underflow");
					ensure!(o == len - 1, "pop_right() on {len} items returns offset {o}");
					took("pop_right()", x, m.items.pop().unwrap());
					let e = if m.leaf() { None } else { m.kids.pop() };
					ensure!(c == e, "pop_right() returns child {c:?} instead of {e:?}");
				}
			}
		}
		10 | 11 => {
			// insertion by key: an existing one, or a new one
			let hit = w.rng.pct(50) && len > 0;
			let i = w.rng.below(if hit { len } else { len + 1 });
			if !hit && m.leaf() && !room {
				return None;
			}
			let k = if hit { m.items[i].0 } else { m.gap(i)? };
			let (x, e) = fresh::<T>(k);
			let r = match n {
				Node::Leaf(l) if direct => Ok(l.insert_by_key(ct::<T>, x)),
				Node::Internal(l) if direct => l.insert_by_key(ct::<T>, x).map(|(o, x)| (o, Some(x))),
				n => n.insert_by_key(ct::<T>, x),
			};
			match r {
				Ok((o, old)) => {
					ensure!(hit || m.leaf(), "insert_by_key(key={k}) inserts in an internal node");
					ensure!(o == i, "insert_by_key(key={k}) returns offset {o} instead of {i}");
					if hit {
						match old {
							Some(x) => took("insert_by_key()", x, m.items[i]),
							None => viol!("insert_by_key(key={k}) does not return the item it replaces"),
						}
						m.items[i] = e;
					} else {
						ensure!(old.is_none(), "insert_by_key(key={k}) returns an item although the key is new");
						m.items.insert(i, e);
					}
				}
				Err(err) => {
					ensure!(!hit && !m.leaf(), "insert_by_key(key={k}) fails");
					ensure!(err.child_offset == i && err.child_id == m.kids[i], "insert_by_key(key={k}) leads to child {} {:?} instead of {i} {:?}", err.child_offset, err.child_id, m.kids[i]);
					took("insert_by_key()", err.item, e);
				}
			}
		}
		12 if len > 0 && !m.leaf() => {
			let i = w.rng.below(len);
			let (x, e) = fresh::<T>(m.items[i].0);
			let old = match n {
				Node::Internal(l) if direct => l.replace(i.into(), x),
				n => n.replace(i.into(), x),
			};
			took("replace()", old, m.items[i]);
			m.items[i] = e;
		}
		13 if m.over() => {
			let (k, median, right) = match &mut *n {
				Node::Leaf(l) if direct => {
					let (k, x, r) = l.split();
					(k, x, Node::Leaf(r))
				}
				Node::Internal(l) if direct => {
					let (k, x, r) = l.split();
					(k, x, Node::Internal(r))
				}
				n => n.split(),
			};
			ensure!(k < len && n.item_count() == k, "split() of {len} items reports {k} items on the left, where there are {}", n.item_count());
			let rk = len - 1 - k;
			ensure!(k >= M / 2 - 1 && rk >= M / 2 - 1, "split() of {len} items yields halves of {k} and {rk} items");
			ensure!(k.abs_diff(rk) <= 1, "split() of {len} items is not around the median: {k} and {rk}");
			let mut rm = Model { parent: m.parent, items: m.items.split_off(k + 1), kids: vec![], payload: m.payload.clone() };
			took("split()", median, m.items.pop().unwrap());
			if !m.leaf() {
				rm.kids = m.kids.split_off(k + 1);
			}
			let mut right = right;
			compare(&mut right, &rm, "right half");
			count("splits", 1);
			return Some((right, rm));
		}
		14 if len > 0 && !m.leaf() => {
			let i = w.rng.below(len);
			let (o, a, b, x, balance) = match n {
				Node::Internal(l) if direct => l.merge(i),
				n => n.merge(i),
			};
			took("merge()", x, m.items.remove(i));
			let right = m.kids.remove(i + 1);
			ensure!(o == i && a == m.kids[i] && b == right, "merge({i}) returns {o}, {a:?}, {b:?} instead of {i}, {:?}, {right:?}", m.kids[i]);
			judge_balance("merge()", balance, m);
			count("merges", 1);
		}
		15 => {
			// append another node of the same kind
			let max = m.cap() - 1;
			if len > max.saturating_sub(1) {
				return None;
			}
			let l2 = w.rng.below(max - len + 1);
			let top = m.items.last().map(|x| x.0).unwrap_or(0);
			let (o, om) = make::<T>(w, m.leaf(), l2, top + 3 * GAP * 16);
			let (x, e) = fresh::<T>(top + GAP * 16);
			let off = match (&mut *n, o) {
				(Node::Leaf(l), Node::Leaf(o)) if direct => l.append(x, o),
				(Node::Internal(l), Node::Internal(o)) if direct => l.append(x, o),
				(n, o) => n.append(x, o),
			};
			ensure!(off == len, "append() to {len} items returns offset {off} for the separator");
			m.items.push(e);
			m.items.extend(om.items);
			m.kids.extend(om.kids);
			count("appends", 1);
		}
		16 => {
			let p = if w.rng.pct(50) { Some(w.id()) } else { None };
			n.set_parent(p);
			m.parent = p;
		}
		17 => misuse(w, n, m),
		_ => {
			// write through the mutable accessors
			if len > 0 {
				let i = w.rng.below(len);
				let stamp = w.rng.next();
				let k = m.items[i].0;
				let g = if w.rng.pct(50) { n.item_mut(i.into()) } else { n.get_mut(ck::<T>, &k).ok().flatten() };
				match g {
					Some(g) => g.set_payload(stamp),
					None => viol!("item {i} of {len} is not found"),
				}
				m.payload.insert(m.items[i].1, stamp);
			}
			if let Node::Leaf(l) = n {
				if w.rng.pct(20) {
					let c = l.clone();
					ensure!(c.iter().map(|x| x.key()).eq(m.items.iter().map(|x| x.0)) && c.parent() == m.parent, "a cloned leaf differs");
				}
			}
		}
	}
	None
}

fn history<T: Tok>(c: &mut Case, leaf: bool, ops: usize) {
	let mut w = World { rng: Rng::new(c.rng.next()), next: 0, forgotten: 0 };
	let len = w.rng.below(if leaf { M + 2 } else { M + 1 });
	let (mut n, mut m) = make::<T>(&mut w, leaf, len, 0);
	compare(&mut n, &m, "new node");
	let mut seen = std::collections::HashSet::new();
	for _ in 0..ops {
		let other = step(&mut w, &mut n, &mut m);
		compare(&mut n, &m, "node");
		search(&mut n, &m);
		seen.insert((m.items.len(), bal(&m)));
		if let Some((r, rm)) = other {
			// go on with either half
			if w.rng.pct(50) {
				(n, m) = (r, rm);
			}
		}
		// keeps the keys apart
		if m.items.windows(2).any(|w| w[1].0 - w[0].0 < 8) {
			let (a, b) = make::<T>(&mut w, leaf, m.items.len(), 0);
			(n, m) = (a, b);
		}
		let extra = tok::live() - w.forgotten;
		ensure!(extra == counted::<T>(m.items.len()), "{extra} items are alive, the node holds {}", m.items.len());
	}
	// forget leaves the items alone
	if !c.miri && w.rng.pct(30) {
		let d = tok::drops();
		n.forget();
		ensure!(tok::drops() == d && n.item_count() == 0, "forget() drops {} items and keeps {}", tok::drops() - d, n.item_count());
		for e in &m.items {
			ensure!(tok::is_live(e.1), "forget() drops an item");
		}
		w.forgotten += counted::<T>(m.items.len());
	}
	drop(n);
	ensure!(tok::live() == w.forgotten, "{} items are alive, {} were forgotten", tok::live(), w.forgotten);
	for s in &seen {
		c.shape((s.0 * 2 + leaf as usize) as u64);
	}
	c.nontrivial = seen.len() > 2;
	c.label = format!("{} {} ops {ops}, {} fill levels", T::NAME, if leaf { "leaf" } else { "internal" }, seen.len());
}

/// Every fill level and every position, one operation each.
fn systematic<T: Tok>(c: &mut Case, leaf: bool, len: usize) {
	for seed in 0..if c.miri { 7 } else { 400 } {
		let mut w = World { rng: Rng::new(seed), next: 0, forgotten: 0 };
		let (mut n, mut m) = make::<T>(&mut w, leaf, len, 0);
		if seed == 0 {
			compare(&mut n, &m, "new node");
			search(&mut n, &m);
		}
		w.rng = Rng::new(c.rng.next());
		let r = step(&mut w, &mut n, &mut m);
		compare(&mut n, &m, "node");
		search(&mut n, &m);
		drop(r);
	}
	c.observe(len as u64);
	c.nontrivial = len > 1;
	c.label = format!("{} {} of {len} items, one operation each", T::NAME, if leaf { "leaf" } else { "internal" });
}

pub fn run(x: &mut Ctx) {
	for leaf in [true, false] {
		for len in 0..=M + leaf as usize {
			for r in 0..x.reps(1, 8) {
				x.case("node-systematic", (len * 2 + leaf as usize) as u64 + 100 * r, |c| systematic::<TokS>(c, leaf, len));
			}
		}
	}
	for i in 0..x.reps(x.nm(1500, 4), 12) {
		let leaf = i % 2 == 0;
		x.case("node-history", i, |c| {
			let ops = if c.miri { 15 } else { 80 };
			match i / 2 % 5 {
				4 => history::<TokP>(c, leaf, ops),
				0 => history::<TokS>(c, leaf, ops),
				1 => history::<TokB>(c, leaf, ops),
				2 => history::<TokA>(c, leaf, ops),
				_ => history::<TokL>(c, leaf, ops),
			}
		});
	}
}
