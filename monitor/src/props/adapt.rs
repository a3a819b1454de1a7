//! Drives an iterator through the whole of the standard iterator interface
//! (and not only `next` and `next_back`), against a double-ended model.
use crate::ctx::count;
use crate::ensure;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::ops::ControlFlow;

pub type Id = (i64, u64);

fn same(what: &str, got: &Option<Id>, want: Option<Id>, left: usize) {
	ensure!(*got == want, "{what} with {left} items left yielded {got:?} (key, uid) instead of {want:?}");
}

fn drain_front(want: &mut VecDeque<Id>, k: usize) -> Vec<Id> {
	let k = k.min(want.len());
	want.drain(..k).collect()
}

fn drain_back(want: &mut VecDeque<Id>, k: usize) -> Vec<Id> {
	let k = want.len() - k.min(want.len());
	let mut v: Vec<Id> = want.drain(k..).collect();
	v.reverse();
	v
}

fn amount(rng: &mut Rng, left: usize) -> usize {
	match rng.below(6) {
		0 => 0,
		1 => 1,
		2 => rng.below(9),
		3 => rng.below(left + 1),
		4 => rng.below(left + 3),
		_ => rng.below(30),
	}
}

/// One call, that may consume several items. `keep` is given what was yielded.
/// Without `hold`, nothing yielded is kept while the iterator is advanced (see
/// the known finding on `IterMut`).
pub fn wide<I: DoubleEndedIterator + ExactSizeIterator>(hold: bool, it: &mut I, want: &mut VecDeque<Id>, rng: &mut Rng, id: fn(&I::Item) -> Id, keep: &mut dyn FnMut(I::Item)) {
	let left = want.len();
	ensure!(it.size_hint() == (left, Some(left)), "size_hint() = {:?} with {left} items left", it.size_hint());
	ensure!(it.len() == left, "len() = {} with {left} items left", it.len());
	let k = amount(rng, left);
	let mut op = rng.below(17);
	if !hold && matches!(op, 7 | 8 | 14 | 16) {
		op = 6;
	}
	count("adaptor_calls", 1);
	let mut one = |what: &str, g: Option<I::Item>, e: Option<Id>| {
		same(what, &g.as_ref().map(id), e, left);
		if let Some(g) = g {
			keep(g)
		}
	};
	match op {
		0 => one("next", it.next(), want.pop_front()),
		1 => one("next_back", it.next_back(), want.pop_back()),
		2 | 3 => {
			drain_front(want, k);
			one(&format!("nth({k})"), it.nth(k), want.pop_front())
		}
		4 | 5 => {
			drain_back(want, k);
			one(&format!("nth_back({k})"), it.nth_back(k), want.pop_back())
		}
		6 => {
			for (i, e) in drain_front(want, k).into_iter().enumerate() {
				one(&format!("step {i} of take({k})"), it.by_ref().take(k - i).next(), Some(e));
			}
		}
		7 => {
			let e = drain_front(want, k);
			let g: Vec<I::Item> = it.by_ref().take(k).collect();
			ensure!(g.iter().map(id).eq(e.iter().copied()), "take({k}).collect() with {left} items left yielded {} items, or other ones", g.len());
			g.into_iter().for_each(keep);
		}
		8 => {
			let e = drain_back(want, k);
			let g: Vec<I::Item> = it.by_ref().rev().take(k).collect();
			ensure!(g.iter().map(id).eq(e.iter().copied()), "rev().take({k}).collect() with {left} items left yielded {} items, or other ones", g.len());
			g.into_iter().for_each(keep);
		}
		9 | 10 => {
			let target = want.get(k).copied();
			if op == 9 {
				drain_front(want, k);
				one("find", it.find(|x| Some(id(x)) == target), want.pop_front());
			} else {
				let target = if k < left { Some(want[left - 1 - k]) } else { None };
				drain_back(want, k);
				one("rfind", it.rfind(|x| Some(id(x)) == target), want.pop_back());
			}
		}
		11 | 12 => {
			// stops after the item of rank k
			let back = op == 12;
			let e = if back { drain_back(want, k + 1) } else { drain_front(want, k + 1) };
			let mut n = 0;
			let f = |n: usize, x: I::Item| {
				ensure!(e.get(n) == Some(&id(&x)), "try_fold: wrong item at rank {n}");
				keep(x);
				if n == k {
					ControlFlow::Break(n + 1)
				} else {
					ControlFlow::Continue(n + 1)
				}
			};
			let r = if back { it.try_rfold(n, f) } else { it.try_fold(n, f) };
			n = match r {
				ControlFlow::Break(n) | ControlFlow::Continue(n) => n,
			};
			ensure!(n == e.len(), "try_{}fold saw {n} items instead of {}", if back { "r" } else { "" }, e.len());
		}
		13 => {
			let mut seen = 0;
			let p = it.position(|x| {
				ensure!(want.get(seen) == Some(&id(&x)), "position: wrong item at rank {seen}");
				seen += 1;
				keep(x);
				seen == k + 1
			});
			ensure!(p == if k < left { Some(k) } else { None }, "position = {p:?}");
			ensure!(seen == (k + 1).min(left), "position saw {seen} items");
			drain_front(want, k + 1);
		}
		14 => {
			let mut g = vec![];
			if !it.by_ref().any(|x| {
				g.push(x);
				g.len() == k + 1
			}) {
				ensure!(k >= left, "any() ended early");
			}
			let e = drain_front(want, k + 1);
			ensure!(g.iter().map(id).eq(e.iter().copied()), "any() saw other items");
			g.into_iter().for_each(keep);
		}
		15 => {
			drain_front(want, k);
			one(&format!("skip({k}).next()"), it.by_ref().skip(k).next(), want.pop_front())
		}
		_ => {
			// step_by takes one item, then the s-th after it, and so on
			let s = 1 + rng.below(9);
			let n = 1 + rng.below(4);
			let g: Vec<I::Item> = it.by_ref().step_by(s).take(n).collect();
			let mut e = vec![];
			for i in 0..n {
				if i > 0 {
					drain_front(want, s - 1);
				}
				match want.pop_front() {
					Some(x) => e.push(x),
					None => break,
				}
			}
			ensure!(g.iter().map(id).eq(e.iter().copied()), "step_by({s}).take({n}) with {left} items left yielded {} items, or other ones", g.len());
			g.into_iter().for_each(keep);
		}
	}
}

/// Consumes the iterator.
pub fn finish<I: DoubleEndedIterator + ExactSizeIterator>(hold: bool, mut it: I, want: &mut VecDeque<Id>, rng: &mut Rng, id: fn(&I::Item) -> Id, keep: &mut dyn FnMut(I::Item)) {
	let left = want.len();
	ensure!(it.size_hint() == (left, Some(left)), "size_hint() = {:?} with {left} items left", it.size_hint());
	let all: Vec<Id> = want.drain(..).collect();
	let k = amount(rng, left);
	let rev = || all.iter().rev().copied();
	count("adaptor_calls", 1);
	let mut g: Vec<I::Item> = vec![];
	if !hold {
		let mut i = 0;
		let mut f = |x: I::Item, e: Option<&Id>| {
			ensure!(Some(&id(&x)) == e, "wrong item at rank {i}");
			i += 1;
			keep(x);
		};
		let mut n = 0;
		match rng.below(4) {
			0 => n = it.fold(0, |n, x| {
				f(x, all.get(n));
				n + 1
			}),
			1 => n = it.rfold(0, |n, x| {
				f(x, all.get(left.wrapping_sub(n + 1)));
				n + 1
			}),
			2 => it.for_each(|x| {
				f(x, all.get(n));
				n += 1
			}),
			_ => n = it.count(),
		}
		ensure!(n == left, "{n} items were yielded, {left} were left");
		return;
	}
	match rng.below(14) {
		0 => {
			g = it.fold(g, |mut g, x| {
				g.push(x);
				g
			});
			ensure!(g.iter().map(id).eq(all.iter().copied()), "fold: other items ({} of {left})", g.len());
		}
		1 => {
			g = it.rfold(g, |mut g, x| {
				g.push(x);
				g
			});
			ensure!(g.iter().map(id).eq(rev()), "rfold: other items ({} of {left})", g.len());
		}
		2 => {
			it.for_each(|x| g.push(x));
			ensure!(g.iter().map(id).eq(all.iter().copied()), "for_each: other items ({} of {left})", g.len());
		}
		3 => {
			let n = it.count();
			ensure!(n == left, "count() = {n} with {left} items left");
		}
		4 => {
			let x = it.last();
			same("last", &x.as_ref().map(id), all.last().copied(), left);
			g.extend(x);
		}
		5 => {
			g = it.collect();
			ensure!(g.iter().map(id).eq(all.iter().copied()), "collect: other items ({} of {left})", g.len());
		}
		6 => {
			g = it.rev().collect();
			ensure!(g.iter().map(id).eq(rev()), "rev().collect(): other items ({} of {left})", g.len());
		}
		7 => {
			g = it.skip(k).collect();
			ensure!(g.iter().map(id).eq(all.iter().skip(k).copied()), "skip({k}): other items ({} of {left})", g.len());
		}
		8 => {
			let s = 1 + rng.below(9);
			g = it.step_by(s).collect();
			ensure!(g.iter().map(id).eq(all.iter().step_by(s).copied()), "step_by({s}): other items ({} of {left})", g.len());
		}
		9 => {
			g = it.rev().skip(k).collect();
			ensure!(g.iter().map(id).eq(rev().skip(k)), "rev().skip({k}): other items ({} of {left})", g.len());
		}
		10 => {
			let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|x| id(x).1 % 2 == 0);
			ensure!(a.iter().map(id).eq(all.iter().copied().filter(|x| x.1 % 2 == 0)), "partition: other items");
			ensure!(b.iter().map(id).eq(all.iter().copied().filter(|x| x.1 % 2 == 1)), "partition: other items");
			g.extend(a);
			g.extend(b);
		}
		11 => {
			let x = it.max_by_key(|x| id(x).1);
			same("max_by_key", &x.as_ref().map(id), all.iter().copied().max_by_key(|x| x.1), left);
			g.extend(x);
		}
		12 => {
			// front and back at once, until they meet
			let (mut i, mut j) = (0, left);
			let mut a = it.by_ref();
			loop {
				let x = a.next();
				same("next", &x.as_ref().map(id), if i < j { Some(all[i]) } else { None }, j - i);
				i += x.is_some() as usize;
				let y = a.next_back();
				same("next_back", &y.as_ref().map(id), if i < j { Some(all[j - 1]) } else { None }, j - i);
				j -= y.is_some() as usize;
				let end = y.is_none();
				g.extend(x);
				g.extend(y);
				if end {
					break;
				}
				a = a.by_ref();
			}
		}
		_ => {
			let mut p = it.peekable();
			for e in &all {
				same("peek", &p.peek().map(id), Some(*e), left);
				g.extend(p.next());
			}
			ensure!(p.peek().is_none(), "peek() after the last item");
			ensure!(g.iter().map(id).eq(all.iter().copied()), "peekable: other items");
		}
	}
	g.into_iter().for_each(keep);
}
