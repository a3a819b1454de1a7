//! Zero-sized items that have a destructor: the ledger can only count them.
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use crate::rng::Rng;
use crate::store::{self, MonStorage};
use crate::tok::{self, TokZ};
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, RawBTree, Storage};
use std::cmp::Ordering;

fn any<S: Storage<TokZ>>(t: &RawBTree<TokZ, S>, rng: &mut Rng) -> Option<Address<S::Node>> {
	let mut a = t.first_item_address()?;
	for _ in 0..rng.below(t.len()) {
		a = unsafe { t.next_item_address(a) }?;
	}
	Some(a)
}

fn grow<S: Storage<TokZ>>(t: &mut RawBTree<TokZ, S>, rng: &mut Rng, n: usize) {
	for _ in 0..n {
		let a = match any(t, rng) {
			Some(a) if rng.pct(30) => unsafe { t.next_back_address(a) }.or(Some(a)),
			a => a,
		};
		unsafe { t.insert_at(a, TokZ::new()) };
	}
}

/// A random history; after each operation, the items alive, the destructors
/// run and the clones made are those that the operation accounts for.
fn history<S: Storage<TokZ>>(c: &mut Case, ops: usize, size: usize, forget: bool) {
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<TokZ, S> = RawBTree::new();
	let mut m = 0usize; // items of the tree
	let mut lost = 0i64; // items forgotten
	for _ in 0..ops {
		let op = rng.below(20);
		note("zst-op", op as i64, m as i64);
		count("zst_operations", 1);
		let (d0, c0) = (tok::zst_drops(), tok::clones());
		let (mut drops, mut clones) = (0u64, 0u64);
		match op {
			0..=5 => {
				let k = 1 + rng.below(size / 3 + 1);
				if m < 2 * size {
					grow(&mut t, &mut rng, k);
					m += k;
				}
			}
			6..=8 => {
				for _ in 0..rng.below(size / 3 + 1) {
					let Some(a) = any(&t, &mut rng) else { break };
					let r = unsafe { t.remove_at(a) };
					ensure!(r.is_some(), "remove_at() on the address of an item gives nothing");
					m -= 1;
					let alive = tok::zst_drops() - d0;
					ensure!(alive == drops, "remove_at() dropped an item");
					drop(r);
					drops += 1;
				}
			}
			9 => {
				if let Some(a) = any(&t, &mut rng) {
					let old = unsafe { t.replace_at(a, TokZ::new()) };
					ensure!(tok::zst_drops() == d0, "replace_at() dropped an item");
					drop(old);
					drops += 1;
				}
			}
			10 => {
				// every item equals the new one
				let old = t.insert(|_, _| Ordering::Equal, TokZ::new());
				ensure!(old.is_some() == (m > 0), "insert() of an item equal to all the others");
				if m == 0 {
					m = 1
				}
				ensure!(tok::zst_drops() == d0, "insert() dropped an item");
				drops += old.is_some() as u64;
				drop(old);
			}
			11 => {
				let old = t.remove(|_, _: &()| Ordering::Equal, &());
				ensure!(old.is_some() == (m > 0), "remove() of an item equal to all the others");
				m -= old.is_some() as usize;
				drops += old.is_some() as u64;
				drop(old);
			}
			12 | 13 => {
				let u = t.clone();
				clones += m as u64;
				ensure!(tok::clones() - c0 == clones, "clone() made {} clones of {m} items", tok::clones() - c0);
				ensure!(u.len() == m && u.iter().count() == m, "the clone of {m} items has {} of them", u.len());
				if rng.pct(50) {
					drop(std::mem::replace(&mut t, u));
				} else {
					drop(u);
				}
				drops += m as u64;
			}
			14 => {
				t.clear();
				drops += m as u64;
				m = 0;
			}
			15 => {
				if forget {
					t.forget();
					lost += m as i64;
					m = 0;
				} else {
					drop(std::mem::replace(&mut t, RawBTree::new()));
					drops += m as u64;
					m = 0;
				}
			}
			16 => {
				drop(std::mem::replace(&mut t, RawBTree::new()));
				drops += m as u64;
				m = 0;
			}
			17 => {
				let mut it = std::mem::replace(&mut t, RawBTree::new()).into_iter();
				let mut held = vec![];
				for _ in 0..rng.below(m + 2) {
					let x = if rng.pct(50) { it.next() } else { it.next_back() };
					ensure!(x.is_some() == (held.len() < m), "into_iter() yielded {} of {m} items", held.len());
					held.extend(x);
				}
				ensure!(tok::zst_drops() == d0, "into_iter() dropped an item while iterating");
				drop(it);
				ensure!(tok::zst_drops() - d0 == (m - held.len()) as u64, "dropping the owning iterator dropped {} of {} items left", tok::zst_drops() - d0, m - held.len());
				drop(held);
				drops += m as u64;
				m = 0;
			}
			18 => {
				let n = t.iter_mut().count();
				ensure!(n == m, "iter_mut() yields {n} of {m} items");
			}
			_ => {
				let mut n = 0;
				let mut it = t.iter();
				while (if rng.pct(50) { it.next() } else { it.next_back() }).is_some() {
					n += 1;
				}
				ensure!(n == m && it.len() == 0, "iter() yields {n} of {m} items");
				ensure!(t.first().is_some() == (m > 0) && t.last().is_some() == (m > 0), "first() or last()");
			}
		}
		ensure!(tok::zst_drops() - d0 == drops, "{} zero-sized items were dropped instead of {drops} (operation {op}, {m} items left)", tok::zst_drops() - d0);
		ensure!(tok::clones() - c0 == clones, "{} zero-sized items were cloned instead of {clones} (operation {op})", tok::clones() - c0);
		ensure!(tok::zst_live() == m as i64 + lost, "{} zero-sized items are alive instead of {}", tok::zst_live(), m as i64 + lost);
		ensure!(t.len() == m && t.is_empty() == (m == 0), "len() = {} instead of {m}", t.len());
	}
	drop(t);
	ensure!(tok::zst_live() == lost, "{} zero-sized items are alive after the tree was dropped instead of {lost}", tok::zst_live());
	ensure!(store::active() == 0, "{} nodes are left", store::active());
	c.nontrivial = true;
	c.label = format!("{ops} operations on up to {size} zero-sized items");
}

pub fn run(x: &mut Ctx, name: &str) {
	let forget = !x.miri || x.leaky;
	for i in 0..x.reps(x.nm(60, 2), 8) {
		x.case(name, i, |c| {
			let (ops, size) = if c.miri { (25, 14) } else { (80, *c.rng.pick(&[3usize, 9, 20, 60, 150])) };
			match i % 5 {
				0 => history::<BoxStorage>(c, ops, size, forget),
				1 => history::<MonStorage<TokZ, 0>>(c, ops, size, forget),
				2 => history::<MonStorage<TokZ, 1>>(c, ops, size, forget),
				3 => history::<MonStorage<TokZ, 2>>(c, ops, size, forget),
				_ => history::<MonStorage<TokZ, 3>>(c, ops, size, forget),
			}
		});
	}
}
