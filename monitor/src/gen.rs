//! Workload generation: comparators, trees of many shapes.
use crate::rng::Rng;
use crate::tok::Tok;
use raw_btree::{RawBTree, Storage, M};
use std::cmp::Ordering;

pub fn ct<T: Tok>(a: &T, b: &T) -> Ordering {
	a.key().cmp(&b.key())
}
pub fn ck<T: Tok>(a: &T, k: &i64) -> Ordering {
	a.key().cmp(k)
}

pub const STYLES: usize = 12;

/// Size of the largest trees built in each run: counts that do not fit 16 bits.
pub const HUGE: usize = (1 << 16) + 1234;

/// Spacing of the keys of built trees, leaving room for new ones.
pub const GAP: i64 = 1024;

/// Builds a tree of about `n` items in the given style (exactly `n` for the
/// styles below 9).
pub fn build<T: Tok, S: Storage<T>>(rng: &mut Rng, style: usize, n: usize) -> RawBTree<T, S> {
	let mut t: RawBTree<T, S> = RawBTree::new();
	fill(&mut t, rng, style, n);
	t
}

fn ins<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, i: usize) {
	t.insert(ct, T::new(i as i64 * GAP));
}
fn del<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, i: usize) {
	t.remove(ck, &(i as i64 * GAP));
}

pub fn fill<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng, style: usize, n: usize) {
	crate::ctx::note("build", style as i64, n as i64);
	match style % STYLES {
		0 => (0..n).for_each(|i| ins(t, i)),
		1 => (0..n).rev().for_each(|i| ins(t, i)),
		2 => {
			let mut k: Vec<usize> = (0..n).collect();
			rng.shuffle(&mut k);
			k.iter().for_each(|i| ins(t, *i));
		}
		3 => {
			// twice as many, then a random half removed
			let mut k: Vec<usize> = (0..2 * n).collect();
			k.iter().for_each(|i| ins(t, *i));
			rng.shuffle(&mut k);
			k[..n].iter().for_each(|i| del(t, *i));
		}
		4 => {
			// removed from the front
			(0..2 * n).for_each(|i| ins(t, i));
			(0..n).for_each(|i| del(t, i));
		}
		5 => {
			// removed from the back
			(0..2 * n).rev().for_each(|i| ins(t, i));
			(n..2 * n).rev().for_each(|i| del(t, i));
		}
		6 => {
			// every other item removed
			(0..2 * n).for_each(|i| ins(t, i));
			(0..n).for_each(|i| del(t, 2 * i));
		}
		7 => {
			// from the outside in
			for i in 0..n {
				ins(t, if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 });
			}
		}
		8 => {
			// random churn
			let mut k: Vec<usize> = (0..3 * n).collect();
			rng.shuffle(&mut k);
			k[..n].iter().for_each(|i| ins(t, *i));
			for j in 0..n {
				ins(t, k[n + j]);
				del(t, k[j]);
			}
		}
		9 => {
			// minimal fill: leaves reduced to the underflow limit
			(0..n).for_each(|i| ins(t, i));
			thin(t, M / 2 - 1);
		}
		10 => {
			// maximal fill of the leaves
			(0..n).for_each(|i| ins(t, i * 2));
			fatten(t, rng, n);
		}
		_ => {
			// random fill of each leaf
			(0..n).for_each(|i| ins(t, i * 2));
			fatten(t, rng, n / 3);
			let keep = M / 2 - 1 + rng.below(4);
			thin(t, keep);
		}
	}
}

/// Removes items of leaves holding more than `keep`, without underflow.
fn thin<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, keep: usize) {
	let w = crate::shape::walk(t);
	let mut doomed = vec![];
	for n in &w.nodes {
		if n.leaf && n.parent.is_some() {
			for it in n.items.iter().skip(keep.max(M / 2 - 1)) {
				doomed.push(it.0);
			}
		}
	}
	for k in doomed {
		t.remove(ck, &k);
	}
}

/// Inserts between existing keys, only where a leaf has room.
fn fatten<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, rng: &mut Rng, n: usize) {
	let w = crate::shape::walk(t);
	if w.items.is_empty() {
		return;
	}
	let mut tries = 0;
	let mut done = 0;
	while done < n && tries < 3 * n {
		tries += 1;
		let k = w.items[rng.below(w.items.len())].0 + 1 + rng.below(GAP as usize - 2) as i64;
		if let Err(Some(a)) = t.address_of(ck, &k) {
			if unsafe { t.node(a.node) }.item_count() < M {
				t.insert(ct, T::new(k));
				done += 1;
			}
		}
	}
}

/// A key strictly between two neighbours of rank `r-1` and `r`, if possible.
pub fn key_at(keys: &[i64], r: usize) -> Option<i64> {
	let lo = if r == 0 { keys.first().map(|k| k - 2 * GAP).unwrap_or(0) } else { keys[r - 1] };
	let hi = keys.get(r).copied().unwrap_or(lo + 2 * GAP);
	if hi - lo >= 2 {
		Some(lo + (hi - lo) / 2)
	} else {
		None
	}
}
