//! Items of unusual layouts (zero-sized, over-aligned, very large, with bits of
//! padding): the monitors that know items by an identity cannot use them, so
//! that these judge positions: addresses, and where items lie in memory.
use crate::ctx::{count, count_max, expecting, note, Case, Ctx};
use crate::ensure;
use crate::rng::{mix, Rng};
use crate::store::MonStorage;
use crate::tok::TokZ;
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, Node, RawBTree, Storage, M};
use std::cmp::Ordering;

pub trait Flat: Clone + 'static {
	fn new() -> Self;
}
impl Flat for () {
	fn new() {}
}
impl Flat for TokZ {
	fn new() -> TokZ {
		TokZ::new()
	}
}
impl Flat for u8 {
	fn new() -> u8 {
		7
	}
}
#[derive(Clone)]
#[repr(align(256))]
pub struct Wide(#[allow(unused)] u8);
impl Flat for Wide {
	fn new() -> Wide {
		Wide(3)
	}
}
#[derive(Clone)]
#[repr(align(64))]
pub struct WideZ;
impl Flat for WideZ {
	fn new() -> WideZ {
		WideZ
	}
}
impl Flat for [u16; 1500] {
	fn new() -> Self {
		[9; 1500]
	}
}
impl Flat for (u8, u64, u16) {
	fn new() -> Self {
		(1, 2, 3)
	}
}
impl Flat for Option<Box<u8>> {
	fn new() -> Self {
		Some(Box::new(1))
	}
}

struct Places<N> {
	addrs: Vec<Address<N>>,
	/// Nodes, children first.
	nodes: Vec<N>,
	height: usize,
	hash: u64,
}

/// The addresses of the items in order, read off the nodes; the structure is
/// checked on the way.
fn places<T, S: Storage<T>>(t: &RawBTree<T, S>) -> Places<S::Node> {
	fn go<T, S: Storage<T>>(t: &RawBTree<T, S>, id: S::Node, parent: Option<S::Node>, depth: usize, p: &mut Places<S::Node>) {
		let n = unsafe { t.node(id) };
		let k = n.item_count();
		ensure!(n.parent() == parent, "a node at depth {depth} records another parent");
		ensure!(k <= M && k >= if parent.is_none() { 1 } else { M / 2 - 1 }, "a node at depth {depth} has {k} items");
		p.hash = mix(p.hash ^ (k as u64 + 100 * depth as u64));
		let kids = n.child_count();
		if kids == 0 {
			if p.height == 0 {
				p.height = depth + 1
			}
			ensure!(p.height == depth + 1, "leaves at depths {depth} and {}", p.height - 1);
		} else {
			ensure!(kids == k + 1, "a node of {k} items has {kids} children");
		}
		for i in 0..=k {
			if kids > 0 {
				go(t, n.child_id(i), Some(id), depth + 1, p)
			}
			if i < k {
				p.addrs.push(Address::new(id, i.into()));
				ensure!(n.item(i.into()).is_some(), "item({i}) of a node of {k} items is None");
			}
		}
		p.nodes.push(id)
	}
	let mut p = Places { addrs: vec![], nodes: vec![], height: 0, hash: 1 };
	if let Some(r) = t.root() {
		go(t, r, None, 0, &mut p)
	}
	ensure!(p.addrs.len() == t.len(), "len() is {} with {} items in the nodes", t.len(), p.addrs.len());
	ensure!(t.is_empty() == p.addrs.is_empty(), "is_empty() is {} with {} items", t.is_empty(), p.addrs.len());
	count("positions_read", p.addrs.len() as u64);
	p
}

/// Where the items lie (nothing if they take no room).
fn spots<T, S: Storage<T>>(t: &RawBTree<T, S>, p: &Places<S::Node>) -> Vec<usize> {
	if size_of::<T>() == 0 {
		return vec![0; p.addrs.len()];
	}
	p.addrs.iter().map(|a| unsafe { t.get_at(*a) }.unwrap() as *const T as usize).collect()
}

fn spot<T>(x: &T) -> usize {
	let p = x as *const T as usize;
	ensure!(p != 0 && p % align_of::<T>() == 0, "an item at {p:#x}, not a multiple of {}", align_of::<T>());
	if size_of::<T>() == 0 {
		0
	} else {
		p
	}
}

fn rank<N: Copy + PartialEq>(p: &Places<N>, a: Address<N>) -> Option<usize> {
	p.addrs.iter().position(|x| *x == a)
}

fn grow<T: Flat, S: Storage<T>>(rng: &mut Rng, n: usize) -> RawBTree<T, S> {
	let mut t: RawBTree<T, S> = RawBTree::new();
	let style = rng.below(4);
	let extra = rng.below(n / 2 + 1);
	while t.len() < n + extra {
		let a = match style {
			0 => t.address_of(|_, _: &()| Ordering::Less, &()).unwrap_err(),
			1 => t.address_of(|_, _: &()| Ordering::Greater, &()).unwrap_err(),
			_ => {
				let r = std::cell::Cell::new(rng.next());
				t.address_of(
					|_, _: &()| {
						r.set(mix(r.get()));
						if r.get() % 2 == 0 {
							Ordering::Less
						} else {
							Ordering::Greater
						}
					},
					&(),
				)
				.unwrap_err()
			}
		};
		unsafe { t.insert_at(a, T::new()) };
	}
	while t.len() > n {
		let p = places(&t);
		unsafe { t.remove_at(*rng.pick(&p.addrs)) };
	}
	t
}

/// Calls with comparators that answer a constant.
fn keyed<T: Flat, S: Storage<T>>(t: &mut RawBTree<T, S>) {
	let p = places(t);
	let (n, at) = (p.addrs.len(), spots(t, &p));
	ensure!(t.first().map(spot) == at.first().copied(), "first()");
	ensure!(t.last().map(spot) == at.last().copied(), "last()");
	ensure!(t.first_mut().map(|x| spot(x)) == at.first().copied(), "first_mut()");
	ensure!(t.last_mut().map(|x| spot(x)) == at.last().copied(), "last_mut()");
	let eq = |_: &T, _: &()| Ordering::Equal;
	ensure!(t.get(eq, &()).is_some() == (n > 0), "get() with everything equal among {n} items");
	ensure!(t.get_mut(eq, &()).is_some() == (n > 0), "get_mut() with everything equal among {n} items");
	for o in [Ordering::Less, Ordering::Greater] {
		ensure!(t.get(|_, _: &()| o, &()).is_none(), "get() with nothing equal");
		ensure!(t.get_mut(|_, _: &()| o, &()).is_none(), "get_mut() with nothing equal");
		ensure!(t.remove(|_, _: &()| o, &()).is_none(), "remove() with nothing equal");
		ensure!(t.insert(|_, _| o, T::new()).is_none(), "insert() with nothing equal");
		ensure!(t.len() == n + 1, "len() is {} after an insertion in {n} items", t.len());
		let q = places(t);
		let gone = unsafe { t.remove_at(q.addrs[if o.is_lt() { n } else { 0 }]) };
		ensure!(gone.is_some(), "remove_at() of an item gives none");
	}
	ensure!(t.insert(|_, _| Ordering::Equal, T::new()).is_some() == (n > 0), "insert() with everything equal among {n} items");
	ensure!(t.len() == n.max(1), "len() is {} after the replacement of an item of {n}", t.len());
	ensure!(t.remove(eq, &()).is_some(), "remove() with everything equal");
	ensure!(t.len() == n.max(1) - 1, "len() is {} after a removal", t.len());
	places(t);
}

fn shared<T: Flat, S: Storage<T>>(t: &RawBTree<T, S>, rng: &mut Rng) {
	let p = places(t);
	let (n, at) = (p.addrs.len(), spots(t, &p));
	ensure!(t.iter().map(spot).eq(at.iter().copied()), "iter() does not yield the {n} items in order");
	ensure!(t.iter().rev().map(spot).eq(at.iter().rev().copied()), "iter().rev() does not yield the {n} items in order");
	ensure!(t.iter().count() == n && t.iter().len() == n && t.into_iter().count() == n, "count() or len() of the iterator over {n} items");
	ensure!(t.iter().last().map(spot) == at.last().copied(), "iter().last()");
	for _ in 0..3 {
		let (mut i, mut j) = (0, n);
		let mut it = t.iter();
		let copy = rng.below(n + 1);
		for step in 0..n + 4 {
			ensure!(it.len() == j - i && it.size_hint() == (j - i, Some(j - i)), "the iterator has {} items left, {} by its length", j - i, it.len());
			if step == copy {
				ensure!(it.clone().map(spot).eq(at[i..j].iter().copied()), "a copy of the iterator after {step} steps");
			}
			let k = if rng.pct(20) { rng.below(3) } else { 0 };
			if rng.pct(50) {
				let e = if i + k < j { Some(at[i + k]) } else { None };
				i = (i + k + 1).min(j);
				ensure!(it.nth(k).map(spot) == e, "nth({k}) from the front, step {step} over {n} items");
			} else {
				let e = if i + k < j { Some(at[j - 1 - k]) } else { None };
				j = j.saturating_sub(k + 1).max(i);
				ensure!(it.nth_back(k).map(spot) == e, "nth_back({k}), step {step} over {n} items");
			}
		}
		ensure!(it.next().is_none() && it.next_back().is_none(), "the iterator over {n} items is not exhausted");
	}
}

fn exclusive<T: Flat, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng) {
	let p = places(t);
	let (n, at) = (p.addrs.len(), spots(t, &p));
	ensure!(t.iter_mut().map(|x| spot(x)).eq(at.iter().copied()), "iter_mut() does not yield the {n} items in order");
	ensure!(t.iter_mut().rev().map(|x| spot(x)).eq(at.iter().rev().copied()), "iter_mut().rev() does not yield the {n} items in order");
	for _ in 0..3 {
		let (mut i, mut j) = (0, n);
		let mut it = t.iter_mut();
		for step in 0..n + 4 {
			ensure!(it.len() == j - i && it.size_hint() == (j - i, Some(j - i)), "the iterator has {} items left, {} by its length", j - i, it.len());
			let k = if rng.pct(20) { rng.below(3) } else { 0 };
			if rng.pct(50) {
				let e = if i + k < j { Some(at[i + k]) } else { None };
				i = (i + k + 1).min(j);
				ensure!(it.nth(k).map(|x| spot(x)) == e, "nth({k}) from the front, step {step} over {n} items");
			} else {
				let e = if i + k < j { Some(at[j - 1 - k]) } else { None };
				j = j.saturating_sub(k + 1).max(i);
				ensure!(it.nth_back(k).map(|x| spot(x)) == e, "nth_back({k}), step {step} over {n} items");
			}
		}
	}
	for x in t.iter_mut() {
		*x = T::new()
	}
	let q = places(t);
	ensure!(q.addrs == p.addrs && q.hash == p.hash, "writing to the items changed the tree");
}

fn owning<T: Flat, S: Storage<T>>(t: RawBTree<T, S>, rng: &mut Rng) {
	let n = t.len();
	let u = t.clone();
	ensure!(u.into_iter().count() == n, "into_iter() does not yield the {n} items");
	let u = t.clone();
	ensure!(u.into_iter().rev().count() == n, "into_iter().rev() does not yield the {n} items");
	let stop = rng.below(n + 3);
	let mut left = n;
	let mut it = t.into_iter();
	for step in 0..stop {
		ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "into_iter() has {left} items left, {} by its length", it.len());
		let x = if rng.pct(50) { it.next() } else { it.next_back() };
		ensure!(x.is_some() == (left > 0), "into_iter() of {n} items, step {step}: {}", if left > 0 { "no item" } else { "an item too many" });
		left -= x.is_some() as usize;
	}
}

fn insertions<T: Flat, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng) {
	for _ in 0..12 {
		let p = places(t);
		let n = p.addrs.len();
		let i = rng.below(n + 1);
		let (a, what) = if n == 0 {
			(None, "an empty tree")
		} else if i == n {
			let e = t.address_of(|_, _: &()| Ordering::Less, &()).unwrap_err();
			ensure!(e.is_some(), "address_of() is Err(None) among {n} items");
			(e, "the end")
		} else {
			(Some(p.addrs[i]), "an item")
		};
		note("flat-insert", i as i64, n as i64);
		let exactly = match a {
			Some(b) => unsafe { t.leaf_address(b) == b },
			None => true,
		};
		let b = if exactly && rng.pct(50) { unsafe { t.insert_exactly_at(a, T::new(), None) } } else { unsafe { t.insert_at(a, T::new()) } };
		let Some(b) = b else { crate::viol!("an insertion in {n} items returns no address") };
		let q = places(t);
		ensure!(q.addrs.len() == n + 1, "{} items after the insertion of one in {n}", q.addrs.len());
		ensure!(rank(&q, b) == Some(i), "insertion before {what}, of rank {i}, of {n}: the address returned is that of the item of rank {:?}", rank(&q, b));
		ensure!(unsafe { t.get_at(b) }.is_some() && unsafe { t.get_mut_at(b) }.is_some(), "get_at() of the address of an item");
		let old = unsafe { t.replace_at(b, T::new()) };
		drop(old);
		let first = t.address_of(|_, _: &()| Ordering::Greater, &()).unwrap_err().unwrap();
		ensure!(unsafe { t.normalize(first) } == Some(q.addrs[0]), "address_of() with a key less than all others");
		let found = t.address_of(|_, _: &()| Ordering::Equal, &());
		ensure!(matches!(found, Ok(a) if rank(&q, a).is_some()), "address_of() with everything equal");
	}
}

fn removals<T: Flat, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng) {
	for k in 0..12 {
		let p = places(t);
		let n = p.addrs.len();
		if n == 0 {
			break;
		}
		let i = rng.below(n);
		note("flat-remove", i as i64, n as i64);
		let r = unsafe { t.remove_at(p.addrs[i]) };
		let Some((x, b)) = r else { crate::viol!("remove_at() of item {i} of {n} gives none") };
		drop(x);
		let q = places(t);
		ensure!(q.addrs.len() == n - 1, "{} items after the removal of one of {n}", q.addrs.len());
		ensure!(b.is_none() == (n == 1), "remove_at() of item {i} of {n} gives the address {b:?}");
		if k % 2 == 0 {
			let Some(b) = (unsafe { t.insert_at(b, T::new()) }) else { crate::viol!("an insertion returns no address") };
			ensure!(rank(&places(t), b) == Some(i), "item {i} of {n}, removed and inserted again, is at another place");
		}
	}
}

fn steps<T: Flat, S: Storage<T>>(t: &RawBTree<T, S>) {
	let p = places(t);
	let n = p.addrs.len();
	let mut a = t.first_item_address();
	for i in 0..n {
		ensure!(a == Some(p.addrs[i]), "item address {i} of {n} is {a:?}");
		let b = unsafe { t.next_item_address(a.unwrap()) };
		if let Some(b) = b {
			ensure!(unsafe { t.previous_item_address(b) } == a, "the address before that of item {} of {n}", i + 1)
		}
		a = b;
	}
	ensure!(a.is_none(), "more than {n} item addresses");
	if n > 0 {
		ensure!(unsafe { t.previous_item_address(p.addrs[0]) }.is_none(), "an item address before the first");
	}
}

fn moves<T: Flat, S: Storage<T>>(t: &RawBTree<T, S>) {
	let p = places(t);
	let n = p.addrs.len();
	let Some(first) = t.first_item_address() else { return };
	let mut a = Some(first);
	let mut met = vec![];
	for _ in 0..4 * n + 20 {
		let Some(b) = a else { break };
		met.extend(rank(&p, b));
		ensure!(unsafe { t.normalize(b) } == p.addrs.get(met.len() - rank(&p, b).is_some() as usize).copied(), "normalize({b:?}) after {} items", met.len());
		a = unsafe { t.next_back_address(b) };
	}
	ensure!(a.is_none() && met.iter().copied().eq(0..n), "next_back_address() meets items {met:?} of {n}");
	let mut a = Some(p.addrs[n - 1]);
	met.clear();
	for _ in 0..4 * n + 20 {
		let Some(b) = a else { break };
		met.extend(rank(&p, b));
		a = unsafe { t.previous_front_address(b) };
	}
	ensure!(a.is_none() && met.iter().copied().eq((0..n).rev()), "previous_front_address() meets items {met:?} of {n}");
	for (i, b) in p.addrs.iter().enumerate() {
		ensure!(unsafe { t.next_item_or_back_address(*b) }.and_then(|x| rank(&p, x)) == (if i + 1 < n { Some(i + 1) } else { None }), "next_item_or_back_address() of item {i} of {n}");
		let l = unsafe { t.leaf_address(*b) };
		ensure!(matches!(unsafe { t.node(l.node) }, Node::Leaf(_)), "leaf_address() of item {i} is not in a leaf");
		ensure!(unsafe { t.normalize(l) } == Some(*b), "leaf_address() of item {i} is another position");
	}
}

fn copies<T: Flat, S: Storage<T>>(t: RawBTree<T, S>) {
	let p = places(&t);
	let mut u = t.clone();
	let q = places(&u);
	ensure!(q.addrs.len() == p.addrs.len(), "the clone of {} items has {}", p.addrs.len(), q.addrs.len());
	if size_of::<T>() > 0 {
		let (a, b) = (spots(&t, &p), spots(&u, &q));
		ensure!(a.iter().all(|x| !b.contains(x)), "the clone shares items");
	}
	if let Some(a) = q.addrs.first() {
		unsafe { u.remove_at(*a) };
		let r = places(&t);
		ensure!(r.addrs == p.addrs && r.hash == p.hash, "a removal from the clone changed the original");
	}
	drop(t);
	places(&u);
}

fn emptied<T: Flat, S: Storage<T>>(mut t: RawBTree<T, S>, forget: bool) {
	if forget {
		t.forget()
	} else {
		t.clear()
	}
	ensure!(t.root().is_none() && t.is_empty() && t.first().is_none() && t.last().is_none() && t.iter().next().is_none(), "an emptied tree is not empty");
	ensure!(t.first_item_address().is_none(), "an emptied tree has an address");
	for k in 1..20 {
		t.insert(|_, _| Ordering::Less, T::new());
		ensure!(places(&t).addrs.len() == k, "an emptied tree used again");
	}
}

fn visits<T: Flat, S: Storage<T>>(t: &mut RawBTree<T, S>) {
	let p = places(t);
	let mut met: Vec<S::Node> = vec![];
	t.visit_from_leaves(|id| met.push(id));
	let check = |met: &[S::Node]| {
		ensure!(met.len() == p.nodes.len(), "{} nodes visited of {}", met.len(), p.nodes.len());
		for (i, a) in met.iter().enumerate() {
			ensure!(p.nodes.contains(a) && !met[..i].contains(a), "node {a:?} visited twice, or not of the tree");
			for c in unsafe { t.node(*a) }.children() {
				ensure!(met[..i].contains(&c), "node {a:?} is visited before its child {c:?}")
			}
		}
	};
	check(&met);
	let mut met = vec![];
	let mut n = 0;
	// (the visitor may not look at the tree)
	let mut u = t.clone();
	u.visit_from_leaves_mut(|id, node| {
		n += node.item_count();
		met.push(id)
	});
	ensure!(n == p.addrs.len() && met.len() == p.nodes.len(), "visit_from_leaves_mut() sees {n} items in {} nodes", met.len());
}

#[cfg(debug_assertions)]
fn sound<T: Flat, S: Storage<T>>(t: &RawBTree<T, S>) {
	let p = places(t);
	let (n, at) = (p.addrs.len(), spots(t, &p));
	if size_of::<T>() > 0 {
		// the order of the items is that of their places
		let by: std::collections::HashMap<usize, usize> = at.iter().enumerate().map(|(i, a)| (*a, i)).collect();
		let key = |x: &T| by[&spot(x)];
		ensure!(expecting(|| t.validate(|a, b| key(a).cmp(&key(b)))).is_ok(), "validate() rejects a sound tree of {n} items");
		ensure!(expecting(|| t.validate(|a, b| key(b).cmp(&key(a)))).is_err() == (n > 1), "validate() of {n} items in the reverse order");
	}
	ensure!(expecting(|| t.validate(|_, _| Ordering::Equal)).is_err() == (n > 1), "validate() of {n} items, all equal");
}
#[cfg(not(debug_assertions))]
fn sound<T: Flat, S: Storage<T>>(_: &RawBTree<T, S>) {
	let _ = expecting(|| ());
}

fn case<T: Flat, S: Storage<T>>(c: &mut Case, prop: &str, n: usize, kind: &str) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<T, S> = grow(&mut rng, n);
	let p = places(&t);
	c.shape(p.hash);
	count_max("max_height", p.height as u64);
	match prop {
		"C01" => keyed(&mut t),
		"C02" => shared(&t, &mut rng),
		"C03" => owning(t, &mut rng),
		"C04" => exclusive(&mut t, &mut rng),
		"C05" => {
			insertions(&mut t, &mut rng);
			removals(&mut t, &mut rng);
		}
		"C09" => insertions(&mut t, &mut rng),
		"C10" => removals(&mut t, &mut rng),
		"C11" => steps(&t),
		"C12" => moves(&t),
		"C13" => copies(t),
		"C14" => emptied(t, !std::mem::needs_drop::<T>() && rng.pct(50)),
		"C15" => visits(&mut t),
		"C17" => sound(&t),
		_ => crate::ctx::harness_error("unknown property"),
	}
	count("unusual_layouts", 1);
	c.nontrivial = n > 1;
	c.label = format!("{n} items of type {kind}, height {}", p.height);
}

pub fn run(x: &mut Ctx, prop: &'static str) {
	let mut sizes: Vec<usize> = (0..=24).collect();
	sizes.extend([30, 36, 45, 52, 60, 75, 90, 130, 200]);
	if x.thorough {
		sizes.extend([260, 400, 700]);
		sizes.extend(25..60);
	}
	for r in 0..x.reps(x.nm(1, 1), 3).min(12) {
		for (j, n) in sizes.iter().enumerate() {
			let n = *n;
			if x.miri && !(n + r as usize).is_multiple_of(12) {
				continue;
			}
			macro_rules! all {
				($($name:literal: $t:ty),*) => {{
					let mut k = 0;
					$(
						k += 1;
						x.case("flat", (r * 1000 + j as u64) * 10 + k, |c| {
							match (r + j as u64 + k) % 3 {
								0 => case::<$t, BoxStorage>(c, prop, n, $name),
								1 => case::<$t, MonStorage<$t, 3>>(c, prop, n, $name),
								_ => case::<$t, MonStorage<$t, 4>>(c, prop, n, $name),
							}
						});
					)*
				}};
			}
			all!("()": (), "counted zero-sized": TokZ, "u8": u8, "align 256": Wide, "zero-sized align 64": WideZ, "3000 bytes": [u16; 1500], "padded": (u8, u64, u16), "Option<Box>": Option<Box<u8>>);
		}
	}
}
