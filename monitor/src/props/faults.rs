//! C20: panicking destructors, clones, closures and visitors.
use crate::ctx::{count, count_max, expecting, note, panic_msg, Case, Ctx};
use crate::gen::{build, ck, ct, GAP, STYLES};
use crate::rng::Rng;
use crate::shape::walk;
use crate::store;
use crate::tok::{self, Injected, Tok};
use crate::{combo, ensure, viol};
use raw_btree::{RawBTree, Storage};

type Snap = (Vec<(i64, u64, u64)>, u64, usize);

fn snap<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>) -> Snap {
	let w = walk(t);
	let v = w.addrs.iter().map(|a| unsafe { t.get_at(*a) }.map(|x| (x.key(), x.uid(), x.payload())).unwrap_or((0, 0, 0))).collect();
	(v, w.hash(), t.len())
}

fn sound<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, what: &str) {
	let w = walk(t);
	if let Err(e) = w.structure(t.len()) {
		viol!("{what}: {e}")
	}
	if let Err(e) = w.sorted(|k| k) {
		viol!("{what}: {e}")
	}
}

/// The tree can still be searched, filled, iterated and emptied.
fn usable<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, what: &str) {
	let keys = walk(t).keys();
	for k in keys.iter().step_by(1 + keys.len() / 12) {
		ensure!(t.get(ck::<T>, k).map(|x| x.key()) == Some(*k), "{what}: key {k} is not found any more");
	}
	let mut new: Vec<i64> = vec![];
	for j in 0..30 {
		let k = (j * GAP + 1..).find(|k| !keys.contains(k) && !new.contains(k)).unwrap();
		new.push(k);
	}
	for &k in &new {
		let r = t.insert(ct::<T>, T::new(k));
		ensure!(r.is_none(), "{what}: inserting a new key replaced an item");
	}
	sound(t, what);
	ensure!(t.len() == keys.len() + 30 && t.iter().count() == keys.len() + 30, "{what}: {} items after 30 insertions, {} before", t.len(), keys.len());
	for k in new {
		let r = t.remove(ck::<T>, &k);
		ensure!(r.is_some_and(|x| x.key() == k), "{what}: an item just inserted cannot be removed");
	}
	sound(t, what);
	ensure!(walk(t).keys() == keys, "{what}: the content changed");
}

fn injected<R>(what: &str, r: Result<R, Box<dyn std::any::Any + Send>>) {
	match r {
		Ok(_) => viol!("{what}: the panic did not propagate"),
		Err(p) => ensure!(p.is::<Injected>(), "{what}: another panic was raised: {}", panic_msg(&*p)),
	}
}

/// Ranks at which to inject: all of them for small trees.
fn ranks(c: &mut Case, n: usize, lim: usize) -> Vec<usize> {
	let mut v: Vec<usize> = (0..n).collect();
	if n > lim {
		c.rng.shuffle(&mut v);
		v.truncate(lim.saturating_sub(2));
		v.extend([0, n - 1]);
	}
	v
}

fn fresh<T: Tok, S: Storage<T>>(seed: u64, style: usize, n: usize) -> (RawBTree<T, S>, Vec<u64>) {
	let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
	let u = walk(&t).uids();
	(t, u)
}

#[derive(Clone, Copy, PartialEq)]
enum How {
	Clear,
	Drop,
	IntoIterDrop,
	IntoIterNth,
	DropWhileUnused,
}

fn destructors<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, lim: usize) {
	store::tolerate_leak(true);
	let seed = c.rng.next();
	let (t, u) = fresh::<T, S>(seed, style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let arg = n;
	let n = u.len();
	drop(t);
	for how in [How::Clear, How::Drop, How::IntoIterDrop, How::IntoIterNth, How::DropWhileUnused] {
		for r in ranks(c, n, lim) {
			let (mut t, u) = fresh::<T, S>(seed, style, arg);
			if u.len() <= r {
				continue;
			}
			let bad = u[r];
			note("inject-drop", r as i64, how as i64);
			count("destructor_panics_injected", 1);
			store::fuel(1_000_000 + 200 * n as u64);
			let d0 = tok::drops();
			match how {
				How::Clear => {
					tok::set_drop_panic(Some(bad));
					let res = expecting(|| t.clear());
					injected("clear()", res);
					ensure!(t.len() == 0 && t.is_empty() && t.root().is_none() && t.iter().next().is_none() && t.first().is_none() && t.last().is_none() && t.iter_mut().next_back().is_none(), "after a destructor panicked in clear(): the tree is not empty");
					ensure!(t.get(ck::<T>, &0).is_none() && t.remove(ck::<T>, &GAP).is_none(), "after a destructor panicked in clear(): an item is still found");
					let d = tok::drops();
					t.clear();
					ensure!(tok::drops() == d, "clear() on the tree emptied by a failed clear() drops {} items", tok::drops() - d);
					usable(&mut t, "after a destructor panicked in clear()");
					drop(t);
				}
				How::Drop | How::DropWhileUnused => {
					if how == How::DropWhileUnused {
						// an iterator that was not advanced owns the whole tree
						let it = t.into_iter();
						tok::set_drop_panic(Some(bad));
						injected("dropping an owning iterator", expecting(move || drop(it)));
					} else {
						tok::set_drop_panic(Some(bad));
						injected("dropping the tree", expecting(move || drop(t)));
					}
				}
				How::IntoIterDrop => {
					// some items taken from both ends, the bad one left
					let front = c.rng.below(r + 1);
					let back = c.rng.below(n - r);
					let mut it = t.into_iter();
					let mut held = vec![];
					for j in 0..front {
						let x = it.next().map(|x| (x.uid(), x));
						ensure!(x.as_ref().map(|x| x.0) == Some(u[j]), "into_iter() yields another item than the one of rank {j}");
						held.push(x.unwrap().1);
					}
					for j in 0..back {
						let x = it.next_back().map(|x| (x.uid(), x));
						ensure!(x.as_ref().map(|x| x.0) == Some(u[n - 1 - j]), "into_iter() yields another item than the one of rank {} from the back", j);
						held.push(x.unwrap().1);
					}
					tok::set_drop_panic(Some(bad));
					injected("dropping an owning iterator", expecting(move || drop(it)));
					for x in &held {
						ensure!(tok::is_live(x.uid()), "dropping the owning iterator dropped item uid={}, already yielded", x.uid());
					}
					let d = tok::drops();
					let k = held.len() as u64;
					drop(held);
					ensure!(tok::drops() - d == k, "{} of the {k} yielded items were dropped", tok::drops() - d);
				}
				How::IntoIterNth => {
					// the panicking item is skipped by the iterator, which goes on
					let mut it = t.into_iter();
					tok::set_drop_panic(Some(bad));
					let res = expecting(|| drop(it.nth(n - 1)));
					injected("nth() on an owning iterator", res);
					let mut rest = vec![];
					for x in it.by_ref() {
						rest.push(x.uid());
					}
					ensure!(rest == u[r + 1..], "after a destructor panicked in nth(): {} items are left instead of {}", rest.len(), n - r - 1);
					drop(it);
				}
			}
			tok::set_drop_panic(None);
			store::fuel(u64::MAX);
			ensure!(!tok::is_live(bad), "the item whose destructor panicked is still counted as live");
			count("items_dropped_under_panic", tok::drops() - d0);
		}
	}
	store::tolerate_leak(false);
	c.nontrivial = n > 8;
	c.label = format!("destructors style {style} n {n} height {}", w.height);
	count_max("max_height", w.height as u64);
}

fn clone_faults<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, lim: usize) {
	store::tolerate_leak(true);
	let seed = c.rng.next();
	let (mut t, u) = fresh::<T, S>(seed, style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let before = snap(&t);
	for r in ranks(c, u.len(), lim) {
		note("inject-clone", r as i64, 0);
		count("clone_panics_injected", 1);
		store::fuel(1_000_000 + 200 * n as u64);
		tok::set_clone_panic(Some(u[r]));
		let res = expecting(|| t.clone());
		tok::set_clone_panic(None);
		injected("clone()", res);
		store::fuel(u64::MAX);
		ensure!(snap(&t) == before, "the panic of an item's clone changed the tree that was being cloned");
		sound(&t, "after a failed clone()");
		for v in &u {
			ensure!(tok::is_live(*v), "a failed clone() dropped item uid={v} of the original");
		}
	}
	let copy = t.clone();
	ensure!(copy.iter().map(|x| x.key()).eq(before.0.iter().map(|x| x.0)), "clone() after failed attempts differs from the original");
	sound(&copy, "the clone made after failed attempts");
	drop(copy);
	usable(&mut t, "after failed clones");
	drop(t);
	store::tolerate_leak(false);
	c.nontrivial = u.len() > 8;
	c.label = format!("clones style {style} n {} height {}", u.len(), w.height);
}

fn visitors<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, lim: usize) {
	let seed = c.rng.next();
	let (mut t, u) = fresh::<T, S>(seed, style, n);
	let w = walk(&t);
	c.shape(w.hash());
	let before = snap(&t);
	let (a0, l0) = (store::active(), tok::live());
	for r in ranks(c, w.nodes.len(), lim) {
		for mutable in [false, true] {
			note("inject-visit", r as i64, mutable as i64);
			count("visitor_panics_injected", 1);
			store::fuel(1_000_000 + 200 * n as u64);
			let mut k = 0;
			let mut tick = || {
				if k == r {
					std::panic::panic_any(Injected("visit"))
				}
				k += 1;
			};
			let res = expecting(|| if mutable { t.visit_from_leaves_mut(|_, _| tick()) } else { t.visit_from_leaves(|_| tick()) });
			store::fuel(u64::MAX);
			ensure!(k == r, "{k} nodes were visited before the panic at node {r}");
			injected("visiting", res);
			ensure!(snap(&t) == before, "the panic of a visitor changed the tree");
			sound(&t, "after a visitor panicked");
			ensure!(store::active() == a0 && tok::live() == l0, "the panic of a visitor released nodes or dropped items");
		}
	}
	usable(&mut t, "after visitors panicked");
	let d = tok::drops();
	drop(t);
	ensure!(tok::drops() - d == u.len() as u64, "{} items were dropped with the tree instead of {}", tok::drops() - d, u.len());
	c.nontrivial = w.nodes.len() > 1;
	c.label = format!("visitors style {style} n {} nodes {}", u.len(), w.nodes.len());
}

#[derive(Clone, Copy, Debug)]
enum Run {
	ForEach,
	Fold,
	Rfold,
	TryForEach,
	ByRef,
	ByRefBack,
	Find,
	Rfind,
	Collect,
}

const RUNS: [Run; 9] = [Run::ForEach, Run::Fold, Run::Rfold, Run::TryForEach, Run::ByRef, Run::ByRefBack, Run::Find, Run::Rfind, Run::Collect];

/// A closure run over an iterator panics at some item.
fn closures<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, lim: usize) {
	store::tolerate_leak(true);
	let seed = c.rng.next();
	let (t, u) = fresh::<T, S>(seed, style, n);
	let w = walk(&t);
	c.shape(w.hash());
	drop(t);
	for r in ranks(c, u.len(), lim) {
		let how = RUNS[c.rng.below(RUNS.len())];
		let back = matches!(how, Run::Rfold | Run::ByRefBack | Run::Rfind);
		let (t, u) = fresh::<T, S>(seed, style, n);
		let n = u.len();
		// the front and the back already taken, around the bad rank
		let (f, b) = (if c.rng.below(2) == 0 { 0 } else { c.rng.below(r + 1) }, if c.rng.below(2) == 0 { 0 } else { c.rng.below(n - r) });
		note("inject-closure", r as i64, how as i64);
		count("closure_panics_injected", 1);
		store::fuel(1_000_000 + 200 * n as u64);
		let mut it = t.into_iter();
		let mut held: Vec<T> = vec![];
		held.extend(it.by_ref().take(f));
		held.extend(it.by_ref().rev().take(b));
		ensure!(held.iter().map(|x| x.uid()).eq(u[..f].iter().copied().chain(u[n - b..].iter().rev().copied())), "into_iter() yields other items");
		let taken = std::cell::RefCell::new(vec![]);
		// receives the items by value, and drops them
		let by_value = |x: T| {
			taken.borrow_mut().push(x.uid());
			if x.uid() == u[r] {
				std::panic::panic_any(Injected("closure"))
			}
		};
		let by_ref = |x: &T| {
			taken.borrow_mut().push(x.uid());
			if x.uid() == u[r] {
				std::panic::panic_any(Injected("closure"))
			}
			false
		};
		let mut left = None;
		let res = expecting(|| match how {
			Run::ForEach => it.for_each(by_value),
			Run::Fold => it.fold((), |_, x| by_value(x)),
			Run::Rfold => it.rfold((), |_, x| by_value(x)),
			Run::Collect => {
				let _ = it.map(by_value).collect::<Vec<_>>();
			}
			Run::TryForEach => {
				let i = left.insert(it);
				let _ = i.try_for_each(|x| {
					by_value(x);
					Some(())
				});
			}
			Run::ByRef => left.insert(it).by_ref().for_each(by_value),
			Run::ByRefBack => left.insert(it).by_ref().rev().for_each(by_value),
			Run::Find => drop(left.insert(it).find(by_ref)),
			Run::Rfind => drop(left.insert(it).rfind(by_ref)),
		});
		injected("running a closure over an owning iterator", res);
		let taken = taken.into_inner();
		let (want, rest): (Vec<u64>, &[u64]) = if back { (u[r..n - b].iter().rev().copied().collect(), &u[f..r]) } else { (u[f..=r].to_vec(), &u[r + 1..n - b]) };
		ensure!(taken == want, "{how:?}: the closure that panicked at rank {r} received {} items instead of {}", taken.len(), want.len());
		for v in &taken {
			ensure!(!tok::is_live(*v), "{how:?}: item uid={v}, given to the closure, was not dropped");
		}
		for x in &held {
			ensure!(tok::is_live(x.uid()), "{how:?}: item uid={}, already yielded, was dropped", x.uid());
		}
		if let Some(mut it) = left {
			ensure!(it.len() == rest.len(), "{how:?}: after the closure panicked, len() is {} instead of {}", it.len(), rest.len());
			for v in rest {
				ensure!(tok::is_live(*v), "{how:?}: item uid={v}, still in the iterator, was dropped");
			}
			let k = if rest.is_empty() { 0 } else { c.rng.below(rest.len() + 1) };
			for v in &rest[..k] {
				let x = it.next();
				ensure!(x.as_ref().map(|x| x.uid()) == Some(*v), "{how:?}: after the closure panicked, the iterator yields another item");
				drop(x);
			}
			drop(it);
			for v in rest {
				ensure!(!tok::is_live(*v), "{how:?}: item uid={v} was not dropped with the iterator");
			}
		}
		store::fuel(u64::MAX);
		let d = tok::drops();
		let k = held.len() as u64;
		drop(held);
		ensure!(tok::drops() - d == k, "{how:?}: {} of the {k} yielded items were dropped", tok::drops() - d);
	}
	// the borrowing iterators leave the tree as it was
	let (mut t, u) = fresh::<T, S>(seed, style, n);
	let before = snap(&t);
	let (a0, l0) = (store::active(), tok::live());
	for r in ranks(c, u.len(), lim / 2) {
		note("inject-closure-ref", r as i64, 0);
		let f = |v: u64| {
			if v == u[r] {
				std::panic::panic_any(Injected("closure"))
			}
		};
		let how = c.rng.below(6);
		let res = expecting(|| match how {
			0 => t.iter().for_each(|x| f(x.uid())),
			1 => t.iter().rfold((), |_, x| f(x.uid())),
			2 => drop(t.iter().find(|x| {
				f(x.uid());
				false
			})),
			3 => t.iter_mut().for_each(|x| f(x.uid())),
			4 => t.iter_mut().rfold((), |_, x| f(x.uid())),
			_ => drop(t.iter_mut().map(|x| f(x.uid())).collect::<Vec<_>>()),
		});
		injected("running a closure over a borrowing iterator", res);
		count("closure_panics_injected", 1);
		ensure!(snap(&t) == before && store::active() == a0 && tok::live() == l0, "the panic of a closure run over a borrowing iterator changed the tree");
	}
	usable(&mut t, "after closures panicked");
	drop(t);
	store::tolerate_leak(false);
	c.nontrivial = u.len() > 8;
	c.label = format!("closures style {style} n {} height {}", u.len(), w.height);
}

fn sizes(x: &Ctx) -> Vec<usize> {
	if x.miri {
		vec![1, 9, 34]
	} else {
		let mut v: Vec<usize> = (1..=30).collect();
		v.extend([35, 40, 50, 64, 73, 80, 100, 128, 200, 400]);
		if x.thorough {
			v.extend(31..=90);
			v.extend([1000, 2000]);
		}
		v
	}
}

pub fn run(x: &mut Ctx) {
	if x.miri && !x.leaky {
		// Leaks are permitted here: only run where leaks are not judged.
		return;
	}
	for r in 0..x.reps(x.nm(2, 1), 4) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(3) {
					continue;
				}
				let lim = if x.miri { 3 } else if n > 100 { 12 } else { 24 };
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				let k = i / 100_000 + i % 100_000;
				x.case("panicking-destructor", i, |c| combo!(k, destructors(c, style, n, lim)));
				x.case("panicking-closure", i, |c| combo!(k, closures(c, style, n, lim)));
				x.case("panicking-clone", i, |c| combo!(k, clone_faults(c, style, n, lim)));
				x.case("panicking-visitor", i, |c| combo!(k, visitors(c, style, n, lim)));
			}
		}
	}
}
