//! C22: `Item` compares by key alone and keeps its parts.
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use crate::tok::{self, Tok, TokB, TokS};
use raw_btree::Item;
use std::cmp::{Ordering, Reverse};
use std::fmt::{Debug, Display};

/// Value that refuses to be compared or inspected.
#[derive(Clone, Debug)]
struct Mute(u64);
impl PartialEq for Mute {
	fn eq(&self, _: &Self) -> bool {
		crate::viol!("comparing two items compared their values")
	}
}
impl PartialOrd for Mute {
	fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
		crate::viol!("ordering two items compared their values")
	}
}
impl Display for Mute {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "<{}>", self.0)
	}
}

fn partial<K: PartialOrd + Clone + Debug + Display>(c: &mut Case, keys: &[K]) {
	for (i, a) in keys.iter().enumerate() {
		for (j, b) in keys.iter().enumerate() {
			let x = Item::new(a.clone(), Mute(i as u64));
			for same in [false, true] {
				let y = Item::new(b.clone(), Mute(if same { i as u64 } else { 1000 + j as u64 }));
				note("compare", i as i64, j as i64);
				ensure!((x == y) == (a == b), "items of keys {a:?} and {b:?}: == gives {}", x == y);
				ensure!((x != y) == (a != b), "items of keys {a:?} and {b:?}: != gives {}", x != y);
				ensure!(x.partial_cmp(&y) == a.partial_cmp(b), "items of keys {a:?} and {b:?}: partial_cmp gives {:?}", x.partial_cmp(&y));
				ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "items of keys {a:?} and {b:?}: <, <=, >, >= disagree with the keys");
				count("comparisons", 1);
			}
		}
		let x = Item::new(a.clone(), Mute(i as u64));
		// an item and itself: what its key and itself give (NaN is not equal to itself)
		let (r, q) = (&x, std::hint::black_box(&x));
		note("itself", i as i64, 0);
		ensure!((r == q) == (a == a) && (r != q) == (a != a), "the item of key {a:?} compared with itself: == gives {}, != gives {}", r == q, r != q);
		ensure!(r.partial_cmp(q) == a.partial_cmp(a), "the item of key {a:?} compared with itself: partial_cmp gives {:?}", r.partial_cmp(q));
		ensure!((r < q) == (a < a) && (r <= q) == (a <= a) && (r > q) == (a > a) && (r >= q) == (a >= a), "the item of key {a:?} compared with itself: <, <=, >, >= disagree with the key");
		count("comparisons", 1);
		let (k, v) = x.as_pair();
		ensure!(std::ptr::eq(k, &x.key) && std::ptr::eq(v, &x.value), "as_pair() does not refer to the key and value of the item");
		ensure!(std::ptr::eq(x.as_ref(), &x), "as_ref() is not the item");
		ensure!(x.to_string() == format!("({}, {})", a, Mute(i as u64)), "the item of key {a} displays as {x}");
		c.observe(crate::ctx::hash_str(&format!("{a:?}")));
	}
}

fn total<K: Ord + Clone + Debug + Display>(c: &mut Case, keys: &[K]) {
	partial(c, keys);
	for a in keys {
		for b in keys {
			let (x, y) = (Item::new(a.clone(), 1u8), Item::new(b.clone(), 2u8));
			note("total", 0, 0);
			ensure!(x.cmp(&y) == a.cmp(b), "items of keys {a:?} and {b:?}: cmp gives {:?}", x.cmp(&y));
			ensure!(x.key_cmp(b) == a.cmp(b), "key_cmp of {a:?} with {b:?} gives {:?}", x.key_cmp(b));
			ensure!((&x).max(&y).key == *a.max(b), "max of the items of keys {a:?} and {b:?} has another key");
			ensure!((&x).min(&y).key == *a.min(b), "min of the items of keys {a:?} and {b:?} has another key");
			// the values follow, and of two items with equal keys the key type's choice is taken whatever the values
			for (va, vb) in [(1u8, 2u8), (2, 1), (1, 1)] {
				let (x, y) = (Item::new(a.clone(), va), Item::new(b.clone(), vb));
				let m = x.clone().max(y.clone());
				ensure!(m.key == *a.max(b) && m.value == if a > b { va } else { vb }, "max of the items ({a:?}, {va}) and ({b:?}, {vb}) is ({:?}, {})", m.key, m.value);
				let m = x.clone().min(y.clone());
				ensure!(m.key == *a.min(b) && m.value == if a <= b { va } else { vb }, "min of the items ({a:?}, {va}) and ({b:?}, {vb}) is ({:?}, {})", m.key, m.value);
				if a <= b {
					for z in keys {
						let m = Item::new(z.clone(), 7u8).clamp(x.clone(), y.clone());
						let want = if z < a { (a, va) } else if z > b { (b, vb) } else { (z, 7) };
						ensure!((&m.key, m.value) == want, "the item ({z:?}, 7) clamped to ({a:?}, {va}), ({b:?}, {vb}) is ({:?}, {})", m.key, m.value);
					}
				}
				ensure!(x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == Some(a.cmp(b)) && (x == y) == (a == b), "comparing the items ({a:?}, {va}) and ({b:?}, {vb}) depends on the values");
			}
		}
	}
	let mut v: Vec<Item<K, usize>> = keys.iter().cloned().enumerate().map(|(i, k)| Item::new(k, i)).collect();
	v.sort();
	let mut k = keys.to_vec();
	k.sort();
	ensure!(v.iter().map(|x| x.key.clone()).collect::<Vec<_>>() == k, "sorting items does not sort their keys");
	ensure!(v.windows(2).all(|w| w[0].key != w[1].key || w[0].value < w[1].value), "a stable sort of the items depends on their values");
}

/// Key-only `Ord` seen through `Borrow`.
fn borrowed(c: &mut Case) {
	let words = ["", "a", "aa", "ab", "b", "B", "é", "z", "zz"];
	for a in words {
		for b in words {
			let x = Item::new(a.to_string(), 0);
			ensure!(x.key_cmp(b) == a.cmp(b), "key_cmp of {a:?} with str {b:?} gives {:?}", x.key_cmp(b));
			ensure!(x.key_cmp(&b.to_string()) == a.cmp(b), "key_cmp of {a:?} with String {b:?}");
			let y = Item::new(a.as_bytes().to_vec(), 0);
			ensure!(y.key_cmp(b.as_bytes()) == a.as_bytes().cmp(b.as_bytes()), "key_cmp of {a:?} with bytes {b:?}");
			let z = Item::new(Box::new(a.len()), 0);
			ensure!(z.key_cmp(&b.len()) == a.len().cmp(&b.len()), "key_cmp through Box");
			note("borrowed", a.len() as i64, b.len() as i64);
			count("comparisons", 4);
		}
	}
	c.nontrivial = true;
	c.label = "borrowed forms".into();
}

/// Ownership of the parts.
fn parts(c: &mut Case) {
	for k in 0..40 {
		let (a, b) = (TokS::new(k), TokB::new(-k));
		let (ua, ub) = (a.uid(), b.uid());
		let x = Item::new(a, b);
		ensure!(x.as_pair().0.uid() == ua && x.as_pair().1.uid() == ub, "as_pair() gives other parts");
		let c0 = tok::clones();
		let y = x.clone();
		ensure!(tok::clones() - c0 == 2 && tok::origin(y.key.uid()) == ua && tok::origin(y.value.uid()) == ub, "clone() does not clone the key and the value once each");
		let d = tok::drops();
		let (ka, kb) = (TokS::new(1000 + k), TokB::new(2000 + k));
		let mut z = Item::new(ka, kb);
		z.clone_from(&x);
		ensure!((z.key.key(), z.value.key()) == (k, -k), "clone_from() gives the parts {:?} instead of {:?}", (z.key.key(), z.value.key()), (k, -k));
		drop(z);
		ensure!(tok::drops() == d + 4, "clone_from() and dropping its result dropped {} parts", tok::drops() - d);
		let d = tok::drops();
		let (a, b) = x.into_pair();
		ensure!(a.uid() == ua && b.uid() == ub && tok::drops() == d, "into_pair() gives other parts");
		drop(y);
		ensure!(tok::drops() - d == 2, "dropping an item dropped {} parts", tok::drops() - d);
		ensure!(tok::is_live(a.uid()) && tok::is_live(b.uid()), "dropping the clone dropped the original parts");
		drop((a, b));
		ensure!(tok::live() == 0, "{} parts left", tok::live());
		note("parts", k, 0);
		count("parts_checked", 4);
	}
	c.nontrivial = true;
	c.label = "parts".into();
}

/// Items of a tree ordered by their keys.
fn in_tree(c: &mut Case) {
	let mut t: raw_btree::RawBTree<Item<String, u64>> = raw_btree::RawBTree::new();
	let mut m = std::collections::BTreeMap::new();
	for i in 0..if c.miri { 60 } else { 300u64 } {
		let k = format!("k{}", c.rng.below(120));
		note("tree-insert", i as i64, crate::ctx::hash_str(&k) as i64);
		let old = t.insert(|a, b| a.cmp(b), Item::new(k.clone(), i));
		let e = m.insert(k, i);
		ensure!(old.map(|x| x.value) == e, "inserting an item with an equal key does not replace the former one");
	}
	for k in 0..130 {
		let k = format!("k{k}");
		let g = t.get(|a, q: &str| a.key_cmp(q), k.as_str()).map(|x| x.value);
		ensure!(g == m.get(&k).copied(), "get({k}) gives {g:?}");
	}
	ensure!(t.iter().map(|x| (&x.key, &x.value)).eq(m.iter()), "the tree differs from a sorted map");
	c.nontrivial = true;
	c.label = format!("{} keys", m.len());
}

pub fn run(x: &mut Ctx) {
	let reps = x.reps(x.nm(200, 1), 20);
	for i in 0..reps {
		x.case("item-partial", i, |c| {
			let mut f = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.5, -f64::NAN, f64::MIN_POSITIVE];
			for _ in 0..if c.miri { 2 } else { 6 } {
				f.push(f64::from_bits(c.rng.next()));
			}
			partial(c, &f);
			c.nontrivial = true;
			c.label = format!("floats {:?}", &f[8..]);
		});
		x.case("item-total", i, |c| {
			let mut v: Vec<i64> = vec![i64::MIN, -1, 0, 1, i64::MAX];
			for _ in 0..if c.miri { 1 } else { 8 } {
				v.push(c.rng.next() as i64 >> c.rng.below(60));
			}
			total(c, &v);
			let s: Vec<String> = v.iter().map(|k| format!("{:.1$}", k, 3).chars().rev().collect()).collect();
			total(c, &s);
			let u: Vec<u8> = v.iter().map(|k| *k as u8).collect();
			total(c, &u);
			let ch: Vec<char> = v.iter().map(|k| char::from_u32(*k as u32 % 0xD7FF).unwrap_or('x')).collect();
			total(c, &ch);
			// reversed keys
			for a in &v {
				for b in &v {
					let (p, q) = (Item::new(Reverse(*a), ()), Item::new(Reverse(*b), ()));
					ensure!(p.cmp(&q) == b.cmp(a) && p.partial_cmp(&q) == Some(b.cmp(a)) && (p == q) == (a == b), "items with reversed keys {a} {b}");
				}
			}
			c.nontrivial = true;
			c.label = format!("integers {:?}", &v[5..]);
		});
		if i < 2 {
			// the same words and parts every time
			x.case("item-borrowed", i, borrowed);
			x.case("item-parts", i, parts);
		}
		if !x.miri || i == 0 {
			x.case("item-tree", i, in_tree);
		}
	}
}
