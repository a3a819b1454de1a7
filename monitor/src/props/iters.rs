//! C02, C03, C04: iterators, under every interleaving of front and back steps.
use crate::ctx::{count, count_max, note, Case, Ctx};
use crate::gen::{build, STYLES};
use crate::rng::{mix, Rng};
use crate::shape::walk;
use crate::store;
use crate::tok::{self, counted, Tok, TokZ};
use crate::props::adapt;
use crate::{combo_plain, ensure};
use raw_btree::{RawBTree, Storage};
use std::collections::VecDeque;

/// A script of front (`true`) and back steps, longer than the iterator.
#[derive(Clone, Debug)]
enum Script {
	/// Bits, least significant first, then alternating.
	Bits(u64, u32),
	/// `f` from the front then the rest from the back.
	Split(usize),
	SplitBack(usize),
	Random(u64, usize),
	/// Runs of given lengths.
	Runs(usize, usize),
}

impl Script {
	fn front(&self, i: usize) -> bool {
		match *self {
			Script::Bits(b, n) => {
				if (i as u32) < n {
					b >> i & 1 == 1
				} else {
					i % 2 == 0
				}
			}
			Script::Split(f) => i < f,
			Script::SplitBack(f) => i >= f,
			Script::Random(s, p) => (mix(s ^ mix(i as u64)) % 100) < p as u64,
			Script::Runs(a, b) => i % (a + b) < a,
		}
	}
}

fn scripts(c: &mut Case, n: usize, many: bool) -> Vec<Script> {
	let mut v = vec![Script::Split(n), Script::Split(0), Script::Runs(1, 1), Script::Split(n / 2), Script::SplitBack(n / 2)];
	if !many {
		v.truncate(3);
	}
	for _ in 0..if many { 6 } else { 1 } {
		let p = *c.rng.pick(&[10, 30, 50, 50, 70, 90]);
		v.push(Script::Random(c.rng.next(), p));
	}
	if many {
		v.push(Script::Runs(1 + c.rng.below(5), 1 + c.rng.below(5)));
		v.push(Script::SplitBack(c.rng.below(n + 1)));
		v.push(Script::Split(c.rng.below(n + 1)));
	}
	v
}

type Want = VecDeque<(i64, u64)>;

fn check_item<T: Tok>(what: &str, got: Option<&T>, want: Option<(i64, u64)>, left: usize) {
	match (got, want) {
		(None, None) => (),
		(Some(g), Some(w)) => ensure!((g.key(), g.uid()) == w, "{what}: yielded item key={} uid={} instead of key={} uid={} ({} items were left)", g.key(), g.uid(), w.0, w.1, left),
		(Some(g), None) => crate::viol!("{what}: yielded item key={} although the iterator is exhausted", g.key()),
		(None, Some(w)) => crate::viol!("{what}: returned None although {left} items are left, next is key={}", w.0),
	}
}

fn check_len<I: ExactSizeIterator>(it: &I, left: usize) {
	let h = it.size_hint();
	ensure!(h == (left, Some(left)), "size_hint() = {h:?} with {left} items left");
	ensure!(it.len() == left, "len() = {} with {left} items left", it.len());
}

fn step(want: &mut Want, front: bool) -> Option<(i64, u64)> {
	if front {
		want.pop_front()
	} else {
		want.pop_back()
	}
}

fn shared<'a, T: Tok, S: Storage<T>>(t: &'a RawBTree<T, S>, w: &[(i64, u64)], script: &Script, fork_at: Option<usize>) {
	let n = w.len();
	let mut want: Want = w.iter().copied().collect();
	store::fuel(200_000 + 100 * n as u64);
	let mut it = if n % 2 == 0 { t.iter() } else { t.into_iter() };
	let mut forks: Vec<(raw_btree::Iter<'a, T, S>, Want)> = vec![];
	for i in 0..n + 3 {
		check_len(&it, want.len());
		if fork_at == Some(i) {
			forks.push((it, want.clone())); // a copy
			#[allow(clippy::clone_on_copy)]
			forks.push((it.clone(), want.clone()));
			count("forks", 2);
		}
		let f = script.front(i);
		let left = want.len();
		let e = step(&mut want, f);
		let g = if f { it.next() } else { it.next_back() };
		check_item(if f { "next" } else { "next_back" }, g, e, left);
		count("iterator_steps", 1);
	}
	for k in 0..4 {
		let g = if k % 2 == 0 { it.next_back() } else { it.next() };
		check_item("after exhaustion", g, None, 0);
		check_len(&it, 0);
	}
	for (j, (mut it, mut want)) in forks.into_iter().enumerate() {
		let mut i = 0;
		loop {
			check_len(&it, want.len());
			let f = (i + j) % 3 != 0;
			let left = want.len();
			let e = step(&mut want, f);
			let g = if f { it.next() } else { it.next_back() };
			check_item("copied iterator", g, e, left);
			count("iterator_steps", 1);
			if e.is_none() {
				break;
			}
			i += 1;
		}
	}
}

fn adaptors<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, w: &[(i64, u64)], rng: &mut Rng) {
	store::fuel(2_000_000 + 100 * w.len() as u64);
	let a: Vec<u64> = t.iter().map(|x| x.uid()).collect();
	let e: Vec<u64> = w.iter().map(|x| x.1).collect();
	ensure!(a == e, "iter().collect() differs from the items of the tree ({} items for {})", a.len(), e.len());
	let mut a: Vec<u64> = t.iter().rev().map(|x| x.uid()).collect();
	a.reverse();
	ensure!(a == e, "iter().rev() differs from the reversed items");
	ensure!(t.iter().count() == w.len(), "iter().count() = {} for {} items", t.iter().count(), w.len());
	ensure!(t.iter().last().map(|x| x.uid()) == e.last().copied(), "iter().last() is not the last item");
	for _ in 0..3 {
		let k = rng.below(w.len() + 2);
		ensure!(t.iter().nth(k).map(|x| x.uid()) == e.get(k).copied(), "iter().nth({k}) is not the item of rank {k}");
		let r = if k < e.len() { Some(e[e.len() - 1 - k]) } else { None };
		ensure!(t.iter().nth_back(k).map(|x| x.uid()) == r, "iter().nth_back({k}) is wrong");
		let s: Vec<u64> = t.iter().skip(k).map(|x| x.uid()).collect();
		ensure!(s[..] == e[k.min(e.len())..], "iter().skip({k}) is wrong");
	}
	let mut c = 0;
	for x in t {
		ensure!(c < e.len() && x.uid() == e[c], "for loop over the tree diverges at step {c}");
		c += 1;
	}
	ensure!(c == e.len(), "for loop over the tree saw {c} of {} items", e.len());
}

/// The rest of the iterator interface, on an iterator and copies of it.
fn wide_shared<'a, T: Tok, S: Storage<T>>(t: &'a RawBTree<T, S>, w: &[(i64, u64)], rng: &mut Rng) {
	store::fuel(2_000_000 + 300 * w.len() as u64);
	let id = |x: &&'a T| (x.key(), x.uid());
	let mut want: Want = w.iter().copied().collect();
	let mut it = t.iter();
	for _ in 0..rng.below(12) {
		if rng.pct(15) {
			let mut want = want.clone();
			let mut it = it;
			adapt::wide(true, &mut it, &mut want, rng, id, &mut |_| ());
			adapt::finish(true, it, &mut want, rng, id, &mut |_| ());
		}
		adapt::wide(true, &mut it, &mut want, rng, id, &mut |_| ());
	}
	adapt::finish(true, it, &mut want, rng, id, &mut |_| ());
}

fn case_shared<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, many: bool) {
	let t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	for s in scripts(c, w.items.len(), many) {
		note("iter", n as i64, 0);
		let fork = if c.rng.pct(60) { Some(c.rng.below(w.items.len() + 2)) } else { None };
		shared(&t, &w.items, &s, fork);
	}
	adaptors(&t, &w.items, &mut c.rng);
	for _ in 0..if many { 6 } else { 2 } {
		wide_shared(&t, &w.items, &mut c.rng);
	}
	let w2 = walk(&t);
	ensure!(w2.items == w.items, "iterating changed the tree");
	c.nontrivial = w.items.len() > 8;
	c.label = format!("style {style} n {} height {}", w.items.len(), w.height);
	count_max("max_height", w.height as u64);
	count_max("max_items", w.items.len() as u64);
}

/// Every script of front/back steps for a small tree.
fn exhaustive_shared<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	let k = w.items.len();
	if k <= 12 {
		for bits in (0..1u64 << k).step_by(if c.miri { 37 } else { 1 }) {
			shared(&t, &w.items, &Script::Bits(bits, k as u32), None);
		}
		count("scripts", 1 << k);
	} else {
		for f in 0..=k {
			shared(&t, &w.items, &Script::Split(f), Some(f));
			shared(&t, &w.items, &Script::SplitBack(f), None);
			shared(&t, &w.items, &Script::Random(c.rng.next(), 50), None);
		}
		count("scripts", 3 * k as u64 + 3);
	}
	c.shape(w.hash());
	c.nontrivial = k > 8;
	c.label = format!("all scripts, style {style} n {k}");
}

fn sizes(x: &Ctx) -> Vec<usize> {
	if x.miri {
		vec![0, 1, 8, 9, 27, 60]
	} else {
		let mut v: Vec<usize> = (0..=24).collect();
		v.extend([30, 33, 40, 44, 50, 64, 72, 81, 90, 100, 120, 150, 200, 260, 333, 500, 729]);
		if x.thorough {
			v.extend((25..=140).filter(|k| k % 3 == 0));
			v.extend([1000, 2000, 5000]);
		}
		v
	}
}

type Runner = fn(&mut Case, u64, usize, usize, bool);

fn drive(x: &mut Ctx, name: &str, ename: &str, f: Runner, g: fn(&mut Case, u64, usize, usize)) {
	let reps = x.reps(x.nm(3, 1), 4);
	for r in 0..reps {
		for style in 0..STYLES {
			for n in sizes(x) {
				let i = (r * 1000 + style as u64) * 10_000 + n as u64;
				let k = r + style as u64 + n as u64;
				let few = x.miri;
				if few && !(style + n + r as usize).is_multiple_of(3) {
					continue;
				}
				x.case(name, i, |c| f(c, k, style, n, !few));
			}
		}
	}
	let max = x.nm(if x.thorough { 110 } else { 60 }, 9);
	for n in 0..=max {
		for style in [0usize, 1, 2, 3, 6, 9, 11] {
			if x.miri && (n < 7 || style > 0) || n < 7 && style > 2 {
				continue;
			}
			x.sys(ename, (style * 1000 + n) as u64, |c| g(c, (n + style) as u64, style, n));
		}
	}
	if !x.miri {
		for i in 0..x.reps(3, 4) {
			x.case(name, 900_000_000 + i, |c| f(c, i, (i as usize * 5 + 2) % STYLES, if c.thorough { 60_000 } else { 20_000 }, false));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case(name, 1_900_000_000 + i, |c| f(c, i, i as usize * 2, crate::gen::HUGE, false));
		}
	}
}

pub fn run_shared(x: &mut Ctx) {
	drive(
		x,
		"iter",
		"iter-all-scripts",
		|c, k, style, n, many| combo_plain!(k, case_shared(c, style, n, many)),
		|c, k, style, n| combo_plain!(k, exhaustive_shared(c, style, n)),
	)
}

// ---------------------------------------------------------------------------

/// Consumes `take` steps of an owning iterator, then drops it.
fn owning<T: Tok, S: Storage<T>>(t: RawBTree<T, S>, w: &[(i64, u64)], script: &Script, take: usize) {
	let n = w.len();
	let base_live = tok::live() - counted::<T>(n);
	let active0 = store::active();
	let nodes = walk(&t).nodes.len() as i64;
	let drops0 = tok::drops();
	let mut want: Want = w.iter().copied().collect();
	let mut held: Vec<T> = vec![];
	store::fuel(2_000_000 + 100 * n as u64);
	let mut it = t.into_iter();
	for i in 0..take {
		check_len(&it, want.len());
		let f = script.front(i);
		let left = want.len();
		let e = step(&mut want, f);
		let g = if f { it.next() } else { it.next_back() };
		check_item(if f { "next" } else { "next_back" }, g.as_ref(), e, left);
		held.extend(g);
		count("iterator_steps", 1);
		if i % 3 == 0 && held.len() > 3 {
			// dropping what was yielded must not matter to the iterator
			let k = held.len() / 2;
			held.swap_remove(k);
		}
	}
	if want.is_empty() && take > n {
		for k in 0..4 {
			let g = if k % 2 == 0 { it.next_back() } else { it.next() };
			check_item("after exhaustion", g.as_ref(), None, 0);
			check_len(&it, 0);
		}
	}
	let early = tok::drops() - drops0;
	let given = n - want.len();
	ensure!(early as usize == counted::<T>(given - held.len()), "{} items were dropped before the iterator although {} were returned and dropped by the caller", early, given - held.len());
	for (k, u) in &want {
		ensure!(tok::is_live(*u), "item key={k} not yet yielded is already dropped");
	}
	note("drop-iterator", want.len() as i64, given as i64);
	drop(it);
	count("iterators_dropped", 1);
	let late = tok::drops() - drops0 - early;
	ensure!(late as usize == counted::<T>(want.len()), "dropping the iterator dropped {late} items, {} were left", want.len());
	for (k, u) in &want {
		ensure!(!T::DROPS || !tok::is_live(*u), "item key={k} was left in the dropped iterator and is never dropped");
	}
	for h in &held {
		ensure!(tok::is_live(h.uid()), "a yielded item was dropped by the iterator");
		h.check();
	}
	let released = active0 - store::active();
	if active0 > 0 {
		ensure!(released == nodes, "consuming the tree released {released} of its {nodes} nodes");
	}
	drop(held);
	ensure!(tok::live() == base_live, "{} items are unaccounted for", tok::live() as i64 - base_live as i64);
}

/// The rest of the iterator interface, every item accounted for.
fn wide_owning<T: Tok, S: Storage<T>>(t: RawBTree<T, S>, w: &[(i64, u64)], rng: &mut Rng) {
	let base_live = tok::live() - counted::<T>(w.len());
	let active0 = store::active();
	let nodes = walk(&t).nodes.len() as i64;
	store::fuel(2_000_000 + 300 * w.len() as u64);
	let mut want: Want = w.iter().copied().collect();
	let mut held: Vec<T> = vec![];
	let id = |x: &T| (x.key(), x.uid());
	let mut it = t.into_iter();
	for _ in 0..rng.below(9) {
		adapt::wide(true, &mut it, &mut want, rng, id, &mut |x| held.push(x));
		if rng.pct(20) {
			held.truncate(held.len() / 2);
		}
		for (k, u) in &want {
			ensure!(tok::is_live(*u), "item key={k} not yet yielded is already dropped");
		}
	}
	if rng.pct(60) {
		adapt::finish(true, it, &mut want, rng, id, &mut |x| held.push(x));
	} else {
		drop(it)
	}
	for h in &held {
		ensure!(tok::is_live(h.uid()), "a yielded item was dropped by the iterator");
	}
	let live = tok::live() - base_live;
	ensure!(live == counted::<T>(held.len()), "{live} items are alive once the iterator is consumed, the caller holds {} of them", held.len());
	if active0 > 0 {
		let released = active0 - store::active();
		ensure!(released == nodes, "consuming the tree released {released} of its {nodes} nodes");
	}
	drop(held);
	ensure!(tok::live() == base_live, "{} items are unaccounted for", tok::live() as i64 - base_live as i64);
}

fn case_owning<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, many: bool) {
	let seed = c.rng.next();
	let n0 = {
		let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
		let w = walk(&t);
		c.shape(w.hash());
		count_max("max_height", w.height as u64);
		w.items.len()
	};
	for s in scripts(c, n0, many) {
		let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
		let w = walk(&t).items;
		let take = match c.rng.below(5) {
			0 | 1 => w.len() + 3,
			2 => 0,
			_ => c.rng.below(w.len() + 2),
		};
		note("into_iter", n as i64, take as i64);
		owning(t, &w, &s, take);
	}
	for _ in 0..if many { 5 } else { 1 } {
		let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
		let w = walk(&t).items;
		note("into_iter-adaptors", n as i64, 0);
		wide_owning(t, &w, &mut c.rng);
	}
	// collected, in both directions
	let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
	let w = walk(&t);
	let u = w.uids();
	let t2: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
	let u2 = walk(&t2).uids();
	let a: Vec<T> = t.into_iter().collect();
	ensure!(a.iter().map(|x| x.uid()).eq(u.iter().copied()), "into_iter().collect() differs from the items of the tree");
	let b: Vec<T> = t2.into_iter().rev().collect();
	ensure!(b.iter().rev().map(|x| x.uid()).eq(u2.iter().copied()), "into_iter().rev() differs from the reversed items");
	drop(a);
	drop(b);
	ensure!(tok::live() == 0, "{} items are still alive", tok::live());
	c.nontrivial = n0 > 8;
	c.label = format!("style {style} n {n0}");
}

fn exhaustive_owning<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let seed = c.rng.next();
	let mut k = 0;
	let mut go = |script: Script, take: usize| {
		let t: RawBTree<T, S> = build(&mut Rng::new(seed), style, n);
		let w = walk(&t).items;
		k = w.len();
		owning(t, &w, &script, take);
		tok::reset();
		count("scripts", 1);
	};
	if n <= 9 {
		for bits in (0..1u64 << n).step_by(if c.miri { 61 } else { 1 }) {
			go(Script::Bits(bits, n as u32), n + 2);
		}
		for take in 0..n {
			for bits in 0..1u64 << take {
				if n <= 6 || bits % if c.miri { 47 } else { 3 } == 0 {
					go(Script::Bits(bits, take as u32), take);
				}
			}
		}
	} else {
		for f in 0..=n {
			go(Script::Split(f), f);
			go(Script::SplitBack(f), f);
			go(Script::Random(seed ^ f as u64, 50), f);
			go(Script::Runs(1, 1), f);
		}
	}
	c.nontrivial = n > 8;
	c.label = format!("all scripts, style {style} n {k}");
}

fn zst_owning<S: Storage<TokZ>>(n: usize, take: usize) {
	let mut t: RawBTree<TokZ, S> = RawBTree::new();
	for i in 0..n {
		// insertion order is all that distinguishes them
		let bias = i % 3 == 0;
		t.insert(|_, _| if bias { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }, TokZ::new());
	}
	ensure!(t.len() == n, "len() = {} after {n} insertions of zero-sized items", t.len());
	let mut it = t.into_iter();
	let mut held = vec![];
	for i in 0..take {
		let g = if i % 2 == 0 { it.next() } else { it.next_back() };
		ensure!(g.is_some() == (i < n), "zero-sized items: step {i} of {n} returned {}", if g.is_some() { "an item" } else { "None" });
		held.extend(g);
	}
	drop(it);
	ensure!(tok::zst_live() == held.len() as i64, "{} zero-sized items alive, {} held", tok::zst_live(), held.len());
	drop(held);
	ensure!(tok::zst_live() == 0, "zero-sized items left");
}

pub fn run_owning(x: &mut Ctx) {
	drive(
		x,
		"into-iter",
		"into-iter-all-scripts",
		|c, k, style, n, many| combo_plain!(k, case_owning(c, style, n, many)),
		|c, k, style, n| combo_plain!(k, exhaustive_owning(c, style, n)),
	);
	for n in (0..x.nm(120, 20)).step_by(x.nm(1, 6)) {
		x.sys("into-iter-zst", n as u64, |c| {
			use raw_btree::storage::BoxStorage;
			use crate::store::MonStorage;
			let take = c.rng.below(n + 3);
			zst_owning::<BoxStorage>(n, take);
			zst_owning::<MonStorage<TokZ, 3>>(n, n + 2);
			zst_owning::<MonStorage<TokZ, 0>>(n, n / 2);
			c.nontrivial = n > 8;
			c.observe(n as u64);
		});
	}
}

// ---------------------------------------------------------------------------

fn mutable<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, w: &[(i64, u64)], script: &Script, take: usize, stamp: u64) {
	let n = w.len();
	let before: Vec<u64> = walk_payload(t);
	let mut want: Want = w.iter().copied().collect();
	let mut stamps: std::collections::HashMap<u64, u64> = Default::default();
	let mut ptrs: std::collections::HashSet<usize> = Default::default();
	store::fuel(2_000_000 + 100 * n as u64);
	{
		let mut it = if stamp % 2 == 0 { t.iter_mut() } else { (&mut *t).into_iter() };
		for i in 0..take {
			check_len(&it, want.len());
			let f = script.front(i);
			let left = want.len();
			let e = step(&mut want, f);
			let g = if f { it.next() } else { it.next_back() };
			check_item(if f { "next" } else { "next_back" }, g.as_deref(), e, left);
			if let Some(g) = g {
				ensure!(ptrs.insert(g as *mut T as usize), "two yielded references designate the same item (key={})", g.key());
				g.set_payload(stamp + i as u64);
				stamps.insert(g.uid(), stamp + i as u64);
			}
			count("iterator_steps", 1);
		}
		if take > n {
			for k in 0..4 {
				let g = if k % 2 == 0 { it.next_back() } else { it.next() };
				check_item("after exhaustion", g.as_deref(), None, 0);
				check_len(&it, 0);
			}
		}
	}
	// writes are seen by every kind of later access; nothing else changed
	let after = walk(t);
	ensure!(after.items == w, "iter_mut changed the items or their order");
	let now = walk_payload(t);
	for (i, (k, u)) in w.iter().enumerate() {
		let e = stamps.get(u).copied().unwrap_or(before[i]);
		ensure!(now[i] == e, "item key={k} reads {} instead of {}{}", now[i], e, if stamps.contains_key(u) { " (write lost)" } else { " (never written)" });
	}
	for (k, u) in w.iter().step_by(1 + n / 50) {
		if let Some(e) = stamps.get(u) {
			let g = t.get(crate::gen::ck::<T>, k);
			ensure!(g.map(|x| x.payload()) == Some(*e), "get(key={k}) does not see the value written through iter_mut");
			count("writes_read_back", 1);
		}
	}
	let seen: Vec<u64> = t.iter().map(|x| x.payload()).collect();
	ensure!(seen == now, "iter() does not see the values written through iter_mut");
}

/// The rest of the iterator interface, with a write through each reference.
fn wide_mut<T: Tok, S: Storage<T>>(t: &mut RawBTree<T, S>, w: &[(i64, u64)], rng: &mut Rng) {
	let mut expect: std::collections::HashMap<u64, u64> = w.iter().map(|x| x.1).zip(walk_payload(t)).collect();
	let mut seen: std::collections::HashSet<usize> = Default::default();
	store::fuel(2_000_000 + 300 * w.len() as u64);
	let mut want: Want = w.iter().copied().collect();
	let base = rng.next() << 20;
	{
		fn id<T: Tok>(x: &&mut T) -> (i64, u64) {
			(x.key(), x.uid())
		}
		let mut write = |x: &mut T| {
			ensure!(seen.insert(x as *mut T as usize), "two yielded references designate the same item (key={})", x.key());
			let p = base + seen.len() as u64;
			x.set_payload(p);
			expect.insert(x.uid(), p);
		};
		let mut it = t.iter_mut();
		for _ in 0..rng.below(9) {
			adapt::wide(!cfg!(miri), &mut it, &mut want, rng, id, &mut |x| write(x));
		}
		if rng.pct(60) {
			adapt::finish(!cfg!(miri), it, &mut want, rng, id, &mut |x| write(x));
		}
	}
	let after = walk(t);
	ensure!(after.items == w, "iter_mut changed the items or their order");
	for ((k, u), p) in w.iter().zip(walk_payload(t)) {
		ensure!(expect[u] == p, "item key={k} reads {p} instead of {}", expect[u]);
	}
}

fn walk_payload<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>) -> Vec<u64> {
	let w = walk(t);
	w.addrs.iter().map(|a| unsafe { t.get_at(*a) }.map(|x| x.payload()).unwrap_or(u64::MAX)).collect()
}

fn case_mut<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, many: bool) {
	let mut t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	for (j, s) in scripts(c, w.items.len(), many).into_iter().enumerate() {
		let take = if c.rng.pct(50) { w.items.len() + 3 } else { c.rng.below(w.items.len() + 2) };
		note("iter_mut", n as i64, take as i64);
		mutable(&mut t, &w.items, &s, take, (j as u64 + 1) << 32 | c.rng.next() & 1);
	}
	for _ in 0..if many { 5 } else { 1 } {
		note("iter_mut-adaptors", n as i64, 0);
		wide_mut(&mut t, &w.items, &mut c.rng);
	}
	c.nontrivial = w.items.len() > 8;
	c.label = format!("style {style} n {} height {}", w.items.len(), w.height);
	count_max("max_height", w.height as u64);
}

fn exhaustive_mut<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let mut t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	let k = w.items.len();
	c.shape(w.hash());
	if k <= 9 {
		for bits in (0..1u64 << k).step_by(if c.miri { 37 } else { 1 }) {
			mutable(&mut t, &w.items, &Script::Bits(bits, k as u32), k + 2, (bits + 1) << 20);
		}
		count("scripts", 1 << k);
	} else {
		for f in 0..=k {
			mutable(&mut t, &w.items, &Script::Split(f), k + 2, (f as u64 + 1) << 20);
			mutable(&mut t, &w.items, &Script::SplitBack(f), k, (f as u64 + 1000) << 20);
			mutable(&mut t, &w.items, &Script::Random(c.rng.next(), 50), f, (f as u64 + 5000) << 20);
		}
		count("scripts", 3 * k as u64 + 3);
	}
	c.nontrivial = k > 8;
	c.label = format!("all scripts, style {style} n {k}");
}

pub fn run_mut(x: &mut Ctx) {
	drive(
		x,
		"iter-mut",
		"iter-mut-all-scripts",
		|c, k, style, n, many| combo_plain!(k, case_mut(c, style, n, many)),
		|c, k, style, n| combo_plain!(k, exhaustive_mut(c, style, n)),
	)
}
