//! Items that own a tree, whose destructors, clones and comparators use other
//! trees while one of the outer tree's operations is under way.
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use crate::rng::Rng;
use crate::tok::{self, Tok, TokB, TokS};
use raw_btree::storage::BoxStorage;
use raw_btree::RawBTree;
use std::collections::BTreeMap;

fn ord(a: &TokS, b: &TokS) -> std::cmp::Ordering {
	a.key().cmp(&b.key())
}

struct Nest {
	tok: TokB,
	inner: RawBTree<TokS>,
	/// Keys of `inner`.
	keys: Vec<i64>,
}

impl Nest {
	fn new(key: i64, rng: &mut Rng, most: usize) -> Nest {
		let mut inner = RawBTree::new();
		let mut keys: Vec<i64> = (0..rng.below(most + 1) as i64).map(|i| i * 3).collect();
		rng.shuffle(&mut keys);
		for k in &keys {
			inner.insert(ord, TokS::new(*k));
		}
		keys.sort();
		Nest { tok: TokB::new(key), inner, keys }
	}
	fn size(&self) -> usize {
		1 + self.keys.len()
	}
	fn check(&self) {
		ensure!(self.inner.len() == self.keys.len() && self.inner.iter().map(|x| x.key()).eq(self.keys.iter().copied()), "the tree held by an item lost its content");
	}
}

impl Clone for Nest {
	fn clone(&self) -> Nest {
		self.check();
		Nest { tok: self.tok.clone(), inner: self.inner.clone(), keys: self.keys.clone() }
	}
}

impl Drop for Nest {
	fn drop(&mut self) {
		self.check();
		// its own tree is used during the destruction
		let n = self.keys.len();
		for k in self.keys.iter().skip(n % 3).step_by(2) {
			let r = self.inner.remove(|a, b: &i64| a.key().cmp(b), k);
			ensure!(r.map(|x| x.key()) == Some(*k), "remove() during a destruction");
		}
		if n % 2 == 0 {
			self.inner.insert(ord, TokS::new(1));
			ensure!(self.inner.get(|a, b: &i64| a.key().cmp(b), &1).is_some(), "insert() during a destruction");
		}
		if n % 5 == 0 {
			self.inner.clear()
		}
		count("destructors_using_trees", 1);
	}
}

fn history(c: &mut Case, ops: usize, most: usize, range: i64) {
	let mut rng = Rng::new(c.rng.next());
	let base = tok::live();
	// the order is looked up in another tree
	let mut rank: RawBTree<(i64, i64)> = RawBTree::new();
	let flip = rng.pct(50);
	for k in 0..range {
		rank.insert(|a, b| a.0.cmp(&b.0), (k, if flip { -k } else { k }));
	}
	let of = |k: i64| rank.get(|a, b: &i64| a.0.cmp(b), &k).map_or(0, |x| x.1);
	let cmp = |a: &Nest, b: &Nest| of(a.tok.key()).cmp(&of(b.tok.key()));
	let kcmp = |a: &Nest, b: &i64| of(a.tok.key()).cmp(&of(*b));
	let mut t: RawBTree<Nest> = RawBTree::new();
	let mut m: BTreeMap<i64, usize> = BTreeMap::new();
	for _ in 0..ops {
		let op = rng.below(14);
		let k = rng.below(range as usize) as i64;
		note("nested-op", op as i64, k);
		match op {
			0..=5 => {
				let x = Nest::new(k, &mut rng, most);
				let e = m.insert(k, x.size());
				let r = t.insert(cmp, x);
				ensure!(r.as_ref().map(|x| x.size()) == e, "insert({k}) returns another item");
				if let Some(x) = &r {
					x.check()
				}
			}
			6 | 7 => {
				let r = t.remove(kcmp, &k);
				ensure!(r.as_ref().map(|x| (x.tok.key(), x.size())) == m.remove(&k).map(|s| (k, s)), "remove({k}) returns another item");
			}
			8 => {
				// the tree of an item is changed in place
				let g = t.get_mut(kcmp, &k);
				ensure!(g.is_some() == m.contains_key(&k), "get_mut({k})");
				if let Some(g) = g {
					let j = 1 + 3 * rng.below(most + 2) as i64;
					if g.inner.insert(ord, TokS::new(j)).is_none() {
						g.keys.push(j);
						g.keys.sort();
					}
					m.insert(k, g.size());
				}
			}
			9 => {
				for x in t.iter_mut() {
					if x.keys.len() > 1 && rng.pct(20) {
						let j = x.keys.swap_remove(0);
						x.keys.sort();
						drop(x.inner.remove(|a, b: &i64| a.key().cmp(b), &j));
						m.insert(x.tok.key(), x.size());
					}
				}
			}
			10 => {
				let u = t.clone();
				let all: usize = m.values().sum();
				ensure!(tok::live() - base == 2 * all, "clone() of a tree of trees: {} instances instead of {}", tok::live() - base, 2 * all);
				if rng.pct(50) {
					t = u;
				} else {
					drop(u)
				}
			}
			11 if rng.pct(30) => {
				t.clear();
				m.clear();
			}
			12 if rng.pct(30) => {
				let mut it = std::mem::take(&mut t).into_iter();
				for _ in 0..rng.below(m.len() + 1) {
					let x = if rng.pct(50) { it.next() } else { it.next_back() };
					match x {
						Some(x) => x.check(),
						None => crate::viol!("into_iter() ends early"),
					}
				}
				drop(it);
				m.clear();
			}
			_ => {
				let mut keys: Vec<i64> = t.iter().map(|x| x.tok.key()).collect();
				t.iter().for_each(Nest::check);
				if flip {
					keys.reverse();
				}
				ensure!(keys.iter().eq(m.keys()), "the items of a tree of trees are not those stored");
			}
		}
		let all: usize = m.values().sum();
		ensure!(t.len() == m.len(), "{} items instead of {}", t.len(), m.len());
		ensure!(tok::live() - base == all, "{} instances are alive, {all} are stored", tok::live() - base);
		count("nested_operations", 1);
	}
	c.nontrivial = m.len() > 1;
	c.observe(m.len() as u64);
	c.label = format!("{ops} operations on a tree of trees, {} left", m.len());
	drop(t);
	ensure!(tok::live() == base, "{} instances are left", tok::live() - base);
}

pub fn run(x: &mut Ctx) {
	for i in 0..x.reps(x.nm(40, 3), 8) {
		x.case("nested", i, |c| {
			let (ops, most, range) = if c.miri { (24, 6, 14) } else { (200, [3, 12, 40][i as usize % 3], [12, 40, 120][i as usize / 3 % 3]) };
			history(c, ops, most, range)
		});
	}
}
