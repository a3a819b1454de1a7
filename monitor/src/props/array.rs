//! C26: the item array of a leaf against a vector.
use crate::ctx::{count, count_max, expecting, note, Case, Ctx};
use crate::store;
use super::adapt;
use crate::tok::{self, counted, Injected, Tok, TokA, TokB, TokL, TokP, TokS, TokZ};
use crate::{ensure, viol};
use raw_btree::node::LeafNode;
use raw_btree::M;
use std::ops::Bound;

/// Capacity of the array of a leaf.
const CAP: usize = M + 1;
type Ids = std::collections::VecDeque<adapt::Id>;
type L<T> = LeafNode<T, raw_btree::storage::BoxStorage>;

/// What is stored, by identity, and what the caller holds.
struct World<T> {
	held: Vec<T>,
	leaked: Vec<u64>,
}

fn seen<T: Tok>(what: &str, a: &[T], m: &[u64]) {
	let g: Vec<u64> = a.iter().map(|x| x.uid()).collect();
	ensure!(g == m, "{what}: the array holds items {g:?} instead of {m:?}");
	for u in m {
		ensure!(tok::is_live(*u), "{what}: item uid={u}, still in the array, was dropped");
	}
}

/// After a panic or a forgotten drain: what is left must be some of `pool`, in
/// the same order, alive; the rest was dropped or leaked.
fn resync<T: Tok>(what: &str, a: &[T], pool: &[u64], w: &mut World<T>) -> Vec<u64> {
	let g: Vec<u64> = a.iter().map(|x| x.uid()).collect();
	let mut p = pool.iter();
	for u in &g {
		ensure!(p.any(|x| x == u), "{what}: the array holds {g:?}, not a part of {pool:?}");
		ensure!(tok::is_live(*u), "{what}: item uid={u}, still in the array, was dropped");
	}
	w.leaked.extend(pool.iter().filter(|u| !g.contains(u) && tok::is_live(**u)));
	g
}

fn bad_call<R>(what: &str, f: impl FnOnce() -> R) {
	if expecting(f).is_ok() {
		viol!("{what}: no panic")
	}
	count("rejected_calls", 1);
}

fn injected<R>(what: &str, f: impl FnOnce() -> R) {
	match expecting(f) {
		Ok(_) => viol!("{what}: the panic of a destructor, clone or iterator did not propagate"),
		Err(p) => ensure!(p.is::<Injected>(), "{what}: another panic: {}", crate::ctx::panic_msg(&*p)),
	}
	count("panics_injected", 1);
}

fn history<T: Tok>(c: &mut Case, ops: usize, hostile: bool) {
	store::tolerate_leak(true);
	let mut w: World<T> = World { held: vec![], leaked: vec![] };
	let mut next = 0i64;
	let fresh = |next: &mut i64| {
		*next += 1;
		T::new(*next)
	};
	// The type of the array has no public name.
	let x = fresh(&mut next);
	let mut m: Vec<u64> = vec![x.uid()];
	let leaf = L::<T>::from_item(None, x);
	let mut a = leaf.items().clone();
	drop(leaf);
	m[0] = a[0].uid();
	let mut b = std::mem::take(&mut a);
	std::mem::swap(&mut a, &mut b);
	let mut n: Vec<u64> = vec![];
	for _ in 0..ops {
		let op = c.rng.below(20);
		note("array-op", op as i64, m.len() as i64);
		match op {
			0 | 1 | 2 => {
				let x = fresh(&mut next);
				let u = x.uid();
				if m.len() < CAP {
					a.push(x);
					m.push(u);
				} else {
					bad_call("push on a full array", || a.push(x));
					ensure!(!T::DROPS || !tok::is_live(u), "push on a full array: the refused item was not dropped");
				}
			}
			3 => {
				let r = a.pop();
				ensure!(r.as_ref().map(|x| x.uid()) == m.pop(), "pop() gives another item");
				w.held.extend(r);
			}
			4 | 5 | 6 => {
				let i = c.rng.below(if hostile { CAP + 3 } else { m.len() + 1 });
				let x = fresh(&mut next);
				let u = x.uid();
				note("array-insert", i as i64, 0);
				if i <= m.len() && m.len() < CAP {
					a.insert(i, x);
					m.insert(i, u);
				} else {
					bad_call("insert out of bounds or on a full array", || a.insert(i, x));
					ensure!(!T::DROPS || !tok::is_live(u), "insert: the refused item was not dropped");
				}
			}
			7 => {
				let i = c.rng.below(CAP + 3);
				let r = a.remove(i);
				let e = if i < m.len() { Some(m.remove(i)) } else { None };
				ensure!(r.as_ref().map(|x| x.uid()) == e, "remove({i}) gives {:?} instead of {e:?}", r.as_ref().map(|x| x.uid()));
				w.held.extend(r);
			}
			8 | 9 | 10 | 11 => {
				let (mut i, mut j) = (c.rng.below(m.len() + 1), c.rng.below(m.len() + 1));
				if i > j {
					std::mem::swap(&mut i, &mut j);
				}
				if hostile && c.rng.pct(15) {
					// not a range of the array
					let j = m.len() + 1 + c.rng.below(4);
					note("array-bad-drain", i as i64, j as i64);
					let d0 = tok::drops();
					let r = if c.rng.pct(50) { expecting(|| drop(a.drain(i..j))) } else { expecting(|| drop(a.drain(i..=j - 1))) };
					ensure!(r.is_err(), "drain past the end of the array: no panic");
					ensure!(tok::drops() == d0, "drain past the end of the array dropped items");
					count("rejected_calls", 1);
				} else if hostile && c.rng.pct(4) {
					// bounds at the end of the range of usize
					let e = usize::MAX - c.rng.below(2);
					note("array-huge-drain", i as i64, e as i64);
					let d0 = tok::drops();
					let _ = match c.rng.below(4) {
						0 => expecting(|| drop(a.drain((Bound::Excluded(e), Bound::Unbounded)))),
						1 => expecting(|| drop(a.drain(i..=e))),
						2 => expecting(|| drop(a.drain(e..))),
						_ => expecting(|| drop(a.drain((Bound::Excluded(e), Bound::Included(e))))),
					};
					ensure!(tok::drops() == d0, "a drain at the end of the range of usize dropped items");
					count("rejected_calls", 1);
				} else if hostile && i < j && c.rng.pct(5) {
					let d0 = tok::drops();
					let (i, j) = (j, i);
					let _ = expecting(|| drop(a.drain(i..j)));
					ensure!(tok::drops() == d0, "drain({i}..{j}) dropped items");
				} else {
					note("array-drain", i as i64, j as i64);
					let lo = match c.rng.below(3) {
						0 if i == 0 => Bound::Unbounded,
						1 if i > 0 => Bound::Excluded(i - 1),
						_ => Bound::Included(i),
					};
					let hi = match c.rng.below(3) {
						0 if j == m.len() => Bound::Unbounded,
						1 if j > 0 => Bound::Included(j - 1),
						_ => Bound::Excluded(j),
					};
					let mut want: std::collections::VecDeque<u64> = m[i..j].iter().copied().collect();
					let taken = c.rng.below(want.len() + 2);
					let mut got: Vec<u64> = vec![];
					let pool = m.clone();
					let mut d = a.drain((lo, hi));
					if c.rng.pct(30) {
						let mut ids: Ids = want.iter().map(|u| (0, *u)).collect();
						for _ in 0..1 + c.rng.below(3) {
							adapt::wide(true, &mut d, &mut ids, &mut c.rng, |x| (0, x.uid()), &mut |x| w.held.push(x));
						}
						want = ids.into_iter().map(|x| x.1).collect();
						got.extend(m[i..j].iter().filter(|u| !want.contains(u)));
					}
					for _ in 0..taken {
						ensure!(d.size_hint() == (want.len(), Some(want.len())) && d.len() == want.len(), "drain: size_hint() is {:?} with {} items left", d.size_hint(), want.len());
						let back = c.rng.pct(40);
						let (r, e) = if back { (d.next_back(), want.pop_back()) } else { (d.next(), want.pop_front()) };
						ensure!(r.as_ref().map(|x| x.uid()) == e, "drain({i}..{j}): yields {:?} instead of {e:?}", r.as_ref().map(|x| x.uid()));
						got.extend(e);
						w.held.extend(r);
					}
					let how = if hostile { c.rng.below(4) } else { c.rng.below(2) };
					note("array-drain-end", how as i64, want.len() as i64);
					match how {
						0 => drop(d),
						1 => {
							for (x, e) in d.by_ref().zip(want.iter()) {
								ensure!(x.uid() == *e, "drain({i}..{j}): yields another item");
								w.held.push(x);
							}
							ensure!(d.next().is_none() && d.next_back().is_none(), "drain({i}..{j}): yields too many items");
							drop(d);
							want.clear();
						}
						2 if T::DROPS && !want.is_empty() => {
							let bad = want[c.rng.below(want.len())];
							tok::set_drop_panic(Some(bad));
							injected("dropping a drain", || drop(d));
							tok::set_drop_panic(None);
							let pool: Vec<u64> = pool.iter().copied().filter(|u| !got.contains(u)).collect();
							m = resync("after a destructor panicked in a drain", &a, &pool, &mut w);
							count("drains", 1);
							continue;
						}
						_ => {
							std::mem::forget(d);
							let pool: Vec<u64> = pool.iter().copied().filter(|u| !got.contains(u)).collect();
							m = resync("after a drain was forgotten", &a, &pool, &mut w);
							count("drains_forgotten", 1);
							continue;
						}
					}
					m.drain(i..j);
					for u in want {
						ensure!(!T::DROPS || !tok::is_live(u), "drain({i}..{j}): item uid={u} was not dropped");
					}
					count("drains", 1);
				}
			}
			12 => {
				// fill the other array, then append it
				let k = c.rng.below(CAP - n.len() + 1);
				for _ in 0..k {
					let x = fresh(&mut next);
					n.push(x.uid());
					b.push(x);
				}
				if m.len() + n.len() <= CAP {
					a.append(&mut b);
					m.append(&mut n);
					ensure!(b.is_empty() && b.len() == 0, "append() leaves {} items in the other array", b.len());
				} else if hostile {
					bad_call("append on a full array", || a.append(&mut b));
					let pool: Vec<u64> = m.iter().chain(n.iter()).copied().collect();
					let mut none = World::<T> { held: vec![], leaked: vec![] };
					m = resync("after too long an append", &a, &pool, &mut none);
					n = resync("after too long an append", &b, &n, &mut none);
					ensure!(!m.iter().any(|u| n.contains(u)), "after too long an append: an item is in both arrays");
					w.leaked.extend(pool.iter().filter(|u| !m.contains(u) && !n.contains(u) && tok::is_live(**u)));
				}
			}
			13 => {
				if T::DROPS && hostile && !m.is_empty() && c.rng.pct(50) {
					let bad = m[c.rng.below(m.len())];
					tok::set_drop_panic(Some(bad));
					injected("clear()", || a.clear());
					tok::set_drop_panic(None);
					m = resync("after a destructor panicked in clear()", &a, &m, &mut w);
				} else if c.rng.pct(30) {
					a.clear();
					for u in m.drain(..) {
						ensure!(!T::DROPS || !tok::is_live(u), "clear(): item uid={u} was not dropped");
					}
				}
			}
			14 => {
				let room = CAP - m.len();
				let k = if hostile && c.rng.pct(30) { room + 1 + c.rng.below(4) } else { c.rng.below(room + 1) };
				let v: Vec<T> = (0..k).map(|_| fresh(&mut next)).collect();
				if k > room {
					// too many items, announced or not
					let pool: Vec<u64> = m.iter().copied().chain(v.iter().map(|x| x.uid())).collect();
					note("array-long-extend", room as i64, k as i64);
					match c.rng.below(3) {
						0 => bad_call("extend beyond the capacity", || a.extend(v)),
						1 => bad_call("extend beyond the capacity", || a.extend(v.into_iter().filter(|x| x.key() > 0))),
						_ => {
							let mut v = v.into_iter();
							bad_call("extend beyond the capacity", || a.extend(std::iter::from_fn(|| v.next())))
						}
					}
					m = resync("after too long an extend", &a, &pool, &mut World::<T> { held: vec![], leaked: vec![] });
					ensure!(pool.iter().take(CAP - room).eq(m.iter().take(CAP - room)), "after too long an extend, the items of the array changed");
					continue;
				}
				m.extend(v.iter().map(|x| x.uid()));
				if hostile && c.rng.pct(30) {
					// the source panics at its end
					let mut v = v.into_iter();
					injected("extend()", || a.extend(std::iter::from_fn(|| Some(v.next().unwrap_or_else(|| std::panic::panic_any(Injected("iterator")))))));
					m = resync("after the source of extend() panicked", &a, &m, &mut w);
				} else {
					a.extend(v);
				}
			}
			15 => 'own: {
				// by value iteration of a copy or of the array itself
				let own = c.rng.pct(40);
				let c0 = tok::clones();
				let y = if own { std::mem::take(&mut a) } else { a.clone() };
				let l: Vec<u64> = y.iter().map(|x| x.uid()).collect();
				if own {
					seen("take", &y, &m);
					m.clear();
				} else {
					ensure!(tok::clones() - c0 == m.len() as u64 && l.iter().zip(&m).all(|(x, y)| tok::origin(*x) == *y) && l.len() == m.len(), "clone() of the array is wrong");
				}
				let mut want: std::collections::VecDeque<u64> = l.iter().copied().collect();
				let mut it = y.into_iter();
				if c.rng.pct(40) {
					let mut ids: Ids = want.iter().map(|u| (0, *u)).collect();
					for _ in 0..1 + c.rng.below(3) {
						adapt::wide(true, &mut it, &mut ids, &mut c.rng, |x| (0, x.uid()), &mut |x| w.held.push(x));
					}
					if c.rng.pct(40) {
						adapt::finish(true, it, &mut ids, &mut c.rng, |x| (0, x.uid()), &mut |x| w.held.push(x));
						break 'own;
					}
					want = ids.into_iter().map(|x| x.1).collect();
				}
				for _ in 0..c.rng.below(l.len() + 2) {
					ensure!(it.size_hint() == (want.len(), Some(want.len())) && it.len() == want.len(), "into_iter: size_hint() is {:?} with {} items left", it.size_hint(), want.len());
					let (r, e) = if c.rng.pct(40) { (it.next_back(), want.pop_back()) } else { (it.next(), want.pop_front()) };
					ensure!(r.as_ref().map(|x| x.uid()) == e, "into_iter yields another item");
					w.held.extend(r);
				}
				if T::DROPS && hostile && !want.is_empty() && c.rng.pct(40) {
					tok::set_drop_panic(Some(want[c.rng.below(want.len())]));
					injected("dropping a by-value iterator", || drop(it));
					tok::set_drop_panic(None);
					w.leaked.extend(want.iter().filter(|u| tok::is_live(**u)));
				} else if hostile && c.rng.pct(20) {
					std::mem::forget(it);
					w.leaked.extend(want.iter());
				} else {
					drop(it);
					for u in want {
						ensure!(!T::DROPS || !tok::is_live(u), "item uid={u}, left in a by-value iterator, was not dropped");
					}
				}
			}
			16 => {
				if hostile && !m.is_empty() && c.rng.pct(50) {
					tok::set_clone_panic(Some(m[c.rng.below(m.len())]));
					let l0 = tok::created();
					injected("clone()", || a.clone());
					tok::set_clone_panic(None);
					w.leaked.extend((l0..tok::created()).filter(|u| tok::is_live(*u)));
				} else {
					let y = a.clone();
					ensure!(y.len() == m.len() && y.iter().zip(&m).all(|(x, u)| tok::origin(x.uid()) == *u), "clone() of the array is wrong");
					if c.rng.pct(50) {
						let d = tok::drops();
						drop(y);
						ensure!(tok::drops() - d == counted::<T>(m.len()) as u64, "dropping an array of {} items dropped {}", m.len(), tok::drops() - d);
					} else {
						w.held.extend(y);
					}
				}
			}
			17 => {
				// through a leaf, and back
				let l = L::<T>::new(None, std::mem::take(&mut a));
				ensure!(l.item_count() == m.len() && l.iter().map(|x| x.uid()).eq(m.iter().copied()) && l.items().len() == m.len(), "a leaf made of the array holds other items");
				let copy = l.items().clone();
				drop(l);
				for u in &m {
					ensure!(!T::DROPS || !tok::is_live(*u), "dropping a leaf did not drop item uid={u}");
				}
				let new: Vec<u64> = copy.iter().map(|x| x.uid()).collect();
				ensure!(new.len() == m.len() && new.iter().zip(&m).all(|(x, y)| tok::origin(*x) == *y), "items().clone() is wrong");
				m = new;
				a = copy;
			}
			18 => {
				let (len, buf) = std::mem::take(&mut a).into_raw_parts();
				ensure!(len == m.len(), "into_raw_parts() gives {len} items instead of {}", m.len());
				let v: Vec<T> = buf.into_iter().take(len).map(|x| unsafe { x.assume_init() }).collect();
				ensure!(v.iter().map(|x| x.uid()).eq(m.iter().copied()), "into_raw_parts() gives other items");
				a = v.into_iter().collect();
			}
			_ => {
				for (i, x) in a.as_slice_mut().iter_mut().enumerate() {
					x.set_payload(i as u64 * 3 + 1);
				}
				ensure!(a.as_slice().iter().enumerate().all(|(i, x)| x.payload() == i as u64 * 3 + 1), "writes made through as_slice_mut() are not read back");
				if m.len() > 1 {
					let (i, j) = (c.rng.below(m.len()), c.rng.below(m.len()));
					a.swap(i, j);
					m.swap(i, j);
				}
				std::mem::swap(&mut a, &mut b);
				std::mem::swap(&mut m, &mut n);
			}
		}
		ensure!(a.len() == m.len() && a.is_empty() == m.is_empty(), "len() is {} instead of {}", a.len(), m.len());
		seen("array", &a, &m);
		seen("other array", &b, &n);
		ensure!((&a).into_iter().count() == m.len() && a.first().map(|x| x.uid()) == m.first().copied(), "the array iterates otherwise than its slice");
		for x in &w.held {
			ensure!(tok::is_live(x.uid()), "item uid={}, returned to the caller, was dropped", x.uid());
		}
		if w.held.len() > 12 {
			w.held.clear();
		}
		ensure!(tok::live() == counted::<T>(m.len() + n.len() + w.held.len() + w.leaked.len()), "{} items are alive: {} stored, {} returned, {} leaked", tok::live(), m.len() + n.len(), w.held.len(), w.leaked.len());
		count("states_compared", 1);
		count_max("max_items", m.len() as u64);
		c.observe(m.len() as u64 * 31 + op as u64);
	}
	drop(a);
	drop(b);
	w.held.clear();
	ensure!(tok::live() == counted::<T>(w.leaked.len()), "{} items are left after the arrays were dropped, {} leaked", tok::live(), w.leaked.len());
	store::tolerate_leak(false);
	c.nontrivial = ops > 8;
	c.label = format!("{} ops {ops} hostile {hostile}", T::NAME);
}

/// An array of zero-sized items: they can only be counted, and have to be aligned.
fn empty_items(c: &mut Case, ops: usize) {
	let x = TokZ::new();
	let leaf = LeafNode::<TokZ, raw_btree::storage::BoxStorage>::from_item(None, x);
	let mut a = leaf.items().clone();
	drop(leaf);
	let mut m = 1usize;
	for _ in 0..ops {
		let op = c.rng.below(12);
		note("zst-array-op", op as i64, m as i64);
		let (d0, c0) = (tok::zst_drops(), tok::clones());
		let (mut drops, mut clones) = (0, 0);
		match op {
			0..=2 => {
				if m < CAP {
					a.push(TokZ::new());
					m += 1
				} else {
					bad_call("push on a full array", || a.push(TokZ::new()));
					drops += 1
				}
			}
			3 => {
				let i = c.rng.below(CAP + 3);
				if i <= m && m < CAP {
					a.insert(i, TokZ::new());
					m += 1
				} else {
					bad_call("insert out of bounds or on a full array", || a.insert(i, TokZ::new()));
					drops += 1
				}
			}
			4 => {
				let r = a.pop();
				ensure!(r.is_some() == (m > 0), "pop() from {m} items");
				m -= r.is_some() as usize;
				drops += r.is_some() as u64;
			}
			5 => {
				let i = c.rng.below(CAP + 3);
				let r = a.remove(i);
				ensure!(r.is_some() == (i < m), "remove({i}) from {m} items");
				m -= r.is_some() as usize;
				drops += r.is_some() as u64;
			}
			6 => {
				let (i, j) = (c.rng.below(m + 1), c.rng.below(m + 1));
				let (i, j) = (i.min(j), i.max(j));
				let mut d = a.drain(i..j);
				let mut left = j - i;
				for _ in 0..c.rng.below(j - i + 2) {
					ensure!(d.len() == left, "a drain of {left} items has {} of them", d.len());
					let x = if c.rng.pct(50) { d.next() } else { d.next_back() };
					ensure!(x.is_some() == (left > 0), "a drain with {left} items left");
					left -= x.is_some() as usize;
				}
				drop(d);
				drops += (j - i) as u64;
				m -= j - i;
			}
			7 => {
				let b = a.clone();
				ensure!(b.len() == m, "a clone of {m} items has {}", b.len());
				clones += m as u64;
				let mut it = b.into_iter();
				let mut left = m;
				for _ in 0..c.rng.below(m + 2) {
					ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "an iterator over {left} items has {} of them", it.len());
					let x = if c.rng.pct(50) { it.next() } else { it.next_back() };
					ensure!(x.is_some() == (left > 0), "an iterator with {left} items left");
					left -= x.is_some() as usize;
				}
				drop(it);
				drops += m as u64;
			}
			8 => {
				let k = c.rng.below(CAP - m + 1);
				a.extend((0..k).map(|_| TokZ::new()));
				m += k;
			}
			9 => {
				let mut b = a.clone();
				clones += m as u64;
				if 2 * m <= CAP {
					a.append(&mut b);
					ensure!(b.is_empty(), "append() leaves {} items", b.len());
					m *= 2;
				} else {
					drop(b);
					drops += m as u64;
				}
			}
			10 => {
				if c.rng.pct(30) {
					a.clear();
					drops += m as u64;
					m = 0
				}
			}
			_ => {
				ensure!((&a).into_iter().count() == m && a.iter().rev().count() == m, "an iterator by reference over {m} items");
				ensure!(a.first().is_some() == (m > 0) && a.get(m).is_none(), "access to {m} items");
			}
		}
		ensure!(a.len() == m && a.as_slice().len() == m && a.is_empty() == (m == 0), "the array has {} items instead of {m}", a.len());
		ensure!(tok::zst_drops() - d0 == drops, "operation {op}: {} zero-sized items were dropped instead of {drops}", tok::zst_drops() - d0);
		ensure!(tok::clones() - c0 == clones, "operation {op}: {} zero-sized items were cloned instead of {clones}", tok::clones() - c0);
		ensure!(tok::zst_live() == m as i64, "operation {op}: {} zero-sized items are alive instead of {m}", tok::zst_live());
		c.observe(m as u64 * 31 + op as u64);
	}
	drop(a);
	ensure!(tok::zst_live() == 0, "{} zero-sized items are left after the array was dropped", tok::zst_live());
	c.nontrivial = true;
	c.label = format!("zero-sized items, ops {ops}");
}

pub fn run(x: &mut Ctx) {
	for i in 0..x.reps(x.nm(60, 2), 3) {
		let ops = x.nm(120, 40);
		x.case("array-zst", i, |c| empty_items(c, ops));
	}
	let n = x.nm(600, 24);
	for i in 0..x.reps(n, 3) {
		let ops = x.nm(120, 40);
		let hostile = i % 2 == 1;
		if hostile && !x.leaky && (x.miri || crate::ctx::SAN_MODE.load(std::sync::atomic::Ordering::Relaxed)) {
			continue;
		}
		x.case(if hostile { "array-hostile" } else { "array" }, i, |c| match i / 2 % 5 {
			4 => history::<TokP>(c, ops, hostile),
			0 => history::<TokS>(c, ops, hostile),
			1 => history::<TokB>(c, ops, hostile),
			2 => history::<TokA>(c, ops, hostile),
			_ => history::<TokL>(c, ops, hostile),
		});
	}
}
