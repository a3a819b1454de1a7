//! C09 to C12: addresses, against the in-order sequence of the items.
use crate::ctx::{count, count_max, expecting, note, Case, Ctx};
use crate::gen::{build, ck, key_at, STYLES};
use crate::rng::Rng;
use crate::shape::{walk, Walk};
use crate::store;
use crate::tok::{self, counted, Tok};
use crate::{combo_plain, ensure, viol};
use raw_btree::{Address, RawBTree, Storage};

type Seq = Vec<(i64, u64)>;

fn same_seq(what: &str, got: &Seq, want: &Seq) {
	if got != want {
		let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
		viol!("{what}: the sequence of items is wrong: {} items instead of {}; at rank {i}: {:?} instead of {:?} (key, uid)", got.len(), want.len(), got.get(i), want.get(i))
	}
}

fn observed<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, what: &str, want: &Seq) -> Walk<S::Node> {
	let w = walk(t);
	same_seq(what, &w.items, want);
	ensure!(t.len() == want.len(), "{what}: len() = {} for {} items", t.len(), want.len());
	w
}

// ---- C09 --------------------------------------------------------------------

/// address_of, get_at, get_mut_at and replace_at at every position.
fn lookups<T: Tok, S: Storage<T>>(c: &mut Case, t: &mut RawBTree<T, S>) {
	let w = walk(t);
	let keys = w.keys();
	for (i, k) in keys.iter().enumerate() {
		store::fuel(100_000);
		match t.address_of(ck::<T>, k) {
			Ok(a) => {
				let g = unsafe { t.get_at(a) }.map(|x| x.uid());
				ensure!(g == Some(w.items[i].1), "address_of(key={k}) = Ok({a:?}) designates item {g:?} instead of uid={}", w.items[i].1);
			}
			Err(_) => viol!("address_of(key={k}) = Err although the item is stored"),
		}
	}
	for r in 0..=keys.len() {
		let Some(k) = key_at(&keys, r) else { continue };
		match t.address_of(ck::<T>, &k) {
			Ok(a) => viol!("address_of(key={k}) = Ok({a:?}) although no such item is stored"),
			Err(None) => ensure!(keys.is_empty(), "address_of(key={k}) = Err(None) in a tree of {} items", keys.len()),
			Err(Some(a)) => match w.locate(a) {
				Some(p) => ensure!(p.rank == r && p.off >= 0, "address_of(key={k}) = Err({a:?}), which has {} items before it instead of {r}", p.rank),
				None => viol!("address_of(key={k}) = Err({a:?}), which is not a valid address"),
			},
		}
	}
	count("address_of_checked", 2 * keys.len() as u64);
	store::fuel(u64::MAX);
	let n = w.items.len();
	let mut pos = w.positions();
	if pos.len() > 600 {
		c.rng.shuffle(&mut pos);
		pos.truncate(600);
	}
	for p in &pos {
		let want = if p.occupied { Some(w.items[p.rank].1) } else { None };
		let g = unsafe { t.get_at(p.addr) }.map(|x| x.uid());
		ensure!(g == want, "get_at({:?}) = {g:?} instead of {want:?}", p.addr);
		let stamp = c.rng.next();
		let g = unsafe { t.get_mut_at(p.addr) };
		let gu = g.as_ref().map(|x| x.uid());
		ensure!(gu == want, "get_mut_at({:?}) = {gu:?} instead of {want:?}", p.addr);
		if let Some(g) = g {
			g.set_payload(stamp);
			let r = unsafe { t.get_at(p.addr) }.map(|x| x.payload());
			ensure!(r == Some(stamp), "a write through get_mut_at({:?}) is lost", p.addr);
		}
	}
	count("addresses_read", pos.len() as u64);
	let mut seq = w.items.clone();
	for p in pos.iter().filter(|p| p.occupied).take(120) {
		let x = T::new(w.items[p.rank].0);
		let new = (x.key(), x.uid());
		let old = unsafe { t.replace_at(p.addr, x) };
		ensure!(old.uid() == seq[p.rank].1, "replace_at({:?}) returned uid={} instead of {}", p.addr, old.uid(), seq[p.rank].1);
		seq[p.rank] = new;
		let g = unsafe { t.get_at(p.addr) }.map(|x| x.uid());
		ensure!(g == Some(new.1), "replace_at({:?}): the item read there is {g:?} instead of {}", p.addr, new.1);
		count("replacements", 1);
	}
	observed(t, "replace_at", &seq);
	ensure!(t.len() == n, "len() changed from {n} to {}", t.len());
}

fn insert_everywhere<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, limit: usize) {
	let seed = c.rng.next();
	let mk = || build::<T, S>(&mut Rng::new(seed), style, n);
	let mut t = mk();
	lookups(c, &mut t);
	let t0 = mk();
	let w0 = walk(&t0);
	c.shape(w0.hash());
	let keys = w0.keys();
	// by index in `positions`, whose order is a function of the shape
	let mut todo: Vec<usize> = w0.positions().iter().enumerate().filter(|(_, p)| p.off >= 0).map(|(i, _)| i).collect();
	if todo.len() > limit {
		c.rng.shuffle(&mut todo);
		todo.truncate(limit);
	}
	drop(t0);
	for i in todo {
		for exact in [false, true] {
			let mut t = mk();
			let w = walk(&t);
			let p = &w.positions()[i];
			let Some(k) = key_at(&keys, p.rank) else { continue };
			let x = T::new(k);
			if exact && !p.leaf {
				// documented to be refused
				note("insert_exactly_at internal", p.off, p.rank as i64);
				let alive = tok::live();
				let r = expecting(|| unsafe { t.insert_exactly_at(Some(p.addr), x, None) });
				ensure!(r.is_err(), "insert_exactly_at() accepts an internal address (offset {} of {}) without a child", p.off, p.count);
				observed(&t, "insert_exactly_at() refused", &w.items);
				ensure!(tok::live() + counted::<T>(1) == alive, "the item refused by insert_exactly_at() is not dropped");
				count("insertions_refused", 1);
				continue;
			}
			let e = (k, x.uid());
			let mut want = w.items.clone();
			want.insert(p.rank, e);
			let name = if exact { "insert_exactly_at" } else { "insert_at" };
			note(name, p.off, p.rank as i64);
			store::fuel(200_000);
			let r = unsafe {
				if exact {
					t.insert_exactly_at(Some(p.addr), x, None)
				} else {
					t.insert_at(Some(p.addr), x)
				}
			};
			let what = format!("{name}(offset {} of {}, {} node, rank {})", p.off, p.count, if p.leaf { "leaf" } else { "internal" }, p.rank);
			let w2 = observed(&t, &what, &want);
			returned(&t, &w2, &what, r, p.rank, e.1);
			c.shape(w2.hash());
			count("insertions", 1);
		}
	}
	if n == 0 {
		for exact in [false, true] {
			let mut t: RawBTree<T, S> = RawBTree::new();
			let x = T::new(5);
			let e = (5, x.uid());
			let r = unsafe {
				if exact {
					t.insert_exactly_at(None, x, None)
				} else {
					t.insert_at(None, x)
				}
			};
			let w = observed(&t, "insertion into the empty tree", &vec![e]);
			returned(&t, &w, "insertion into the empty tree", r, 0, e.1);
		}
	}
	c.nontrivial = n > 8;
	c.label = format!("every insertion address, style {style} n {} height {}", keys.len(), w0.height);
	count_max("max_height", w0.height as u64);
}

fn returned<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>, w: &Walk<S::Node>, what: &str, r: Option<Address<S::Node>>, rank: usize, uid: u64) {
	match r {
		None => viol!("{what}: returned no address"),
		Some(a) => match w.locate(a) {
			None => viol!("{what}: returned {a:?}, which is not a valid address"),
			Some(q) => {
				let g = if q.occupied { unsafe { t.get_at(a) }.map(|x| x.uid()) } else { None };
				ensure!(q.occupied && q.rank == rank && g == Some(uid), "{what}: the returned address {a:?} reads {g:?} (rank {}) instead of the inserted item uid={uid} (rank {rank})", q.rank);
			}
		},
	}
}

/// A long sequence of positional insertions, some chained on returned
/// addresses, with removals to keep the size bounded.
fn rope<T: Tok, S: Storage<T>>(c: &mut Case, ops: usize, size: usize) {
	let mut rng = Rng::new(c.rng.next());
	let style = rng.below(STYLES);
	let n0 = if size >= crate::gen::HUGE { size } else { rng.below(size + 1) };
	let mut t: RawBTree<T, S> = build(&mut rng, style, n0);
	let mut w = walk(&t);
	let mut seq = w.items.clone();
	let mut cursor: Option<Address<S::Node>> = None;
	let mut maxh = 0;
	// positions by rank need no key order: keys are arbitrary
	for n in 0..ops {
		store::fuel(1_000_000);
		if seq.len() > size && rng.pct(70) || !seq.is_empty() && rng.pct(12) {
			let k = 1 + rng.below(1 + seq.len() / 4).min(if seq.len() > 10_000 { 10 } else { 10_000 });
			for _ in 0..k {
				store::fuel(1_000_000);
				// any removal will do: it only makes new shapes
				let r = rng.below(seq.len());
				note("rope-remove", r as i64, 0);
				let x = unsafe { t.remove_at(w.addrs[r]) };
				drop(x);
				w = walk(&t);
				seq = w.items.clone();
				if seq.is_empty() {
					break;
				}
			}
			cursor = None;
		}
		let x = T::new(n as i64);
		let e = (n as i64, x.uid());
		let (addr, rank, what) = if seq.is_empty() {
			(None, 0, "into empty")
		} else if let (Some(a), true) = (cursor, rng.pct(70)) {
			// just before, or just after, the item inserted last
			let mut a = a;
			if rng.pct(50) {
				a.offset.incr();
			}
			match w.locate(a) {
				Some(p) => {
					// after an item of an internal node comes its right child
					(Some(a), p.rank, "at the last insertion")
				}
				None => viol!("the address {a:?} returned by the previous insertion is not valid"),
			}
		} else {
			let ps: Vec<_> = w.positions().into_iter().filter(|p| p.off >= 0).collect();
			let p = &ps[rng.below(ps.len())];
			(Some(p.addr), p.rank, "anywhere")
		};
		note("rope-insert", rank as i64, seq.len() as i64);
		let r = unsafe { t.insert_at(addr, x) };
		seq.insert(rank, e);
		let what = format!("insert_at {what} (rank {rank} of {})", seq.len() - 1);
		w = observed(&t, &what, &seq);
		returned(&t, &w, &what, r, rank, e.1);
		cursor = r;
		maxh = maxh.max(w.height);
		c.shape(w.hash());
		count("insertions", 1);
	}
	c.nontrivial = true;
	c.label = format!("rope of {ops} insertions, size {size}, height {maxh}");
	count_max("max_height", maxh as u64);
}

fn grid(x: &Ctx, quick: usize, thorough: usize, miri: usize) -> Vec<(usize, usize)> {
	let max = x.nm(if x.thorough { thorough } else { quick }, miri);
	let mut v = vec![];
	for style in 0..STYLES {
		let mut n = if x.miri { 4 + 3 * style } else { 0 };
		while n <= max {
			v.push((style, n));
			n += if x.miri { 33 } else if n < 40 { 1 } else { 5 + n / 10 };
		}
	}
	v
}

pub fn run_insert(x: &mut Ctx) {
	for (style, n) in grid(x, 90, 260, 40) {
		x.sys("insert-everywhere", (style * 100_000 + n) as u64, |c| {
			let lim = if c.miri { 2 } else if c.thorough { 300 } else { 100 };
			combo_plain!(n + style, insert_everywhere(c, style, n, lim))
		});
	}
	for i in 0..x.reps(x.nm(260, 2), 8) {
		x.case("rope", i, |c| {
			let (ops, size) = if c.miri { (15, 40) } else { (*c.rng.pick(&[60, 150]), *c.rng.pick(&[10usize, 30, 80, 250])) };
			combo_plain!(i, rope(c, ops, size))
		});
	}
	if !x.miri {
		for i in 0..x.reps(8, 6) {
			x.case("rope-large", i, |c| combo_plain!(i, rope(c, 120, 3000)));
		}
	}
	if x.huge() {
		x.case("rope-huge", 0, |c| combo_plain!(0, rope(c, 20, crate::gen::HUGE)));
		x.case("rope-huge", 1, |c| combo_plain!(1, rope(c, 20, crate::gen::HUGE)));
	}
}

// ---- C10 --------------------------------------------------------------------

fn remove_everywhere<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, limit: usize) {
	let seed = c.rng.next();
	let mk = || build::<T, S>(&mut Rng::new(seed), style, n);
	let w0 = walk(&mk());
	c.shape(w0.hash());
	let mut todo: Vec<usize> = (0..w0.positions().len()).collect();
	if todo.len() > limit {
		c.rng.shuffle(&mut todo);
		todo.truncate(limit);
	}
	for i in todo {
		let mut t = mk();
		let w = walk(&t);
		let p = &w.positions()[i];
		let what = format!("remove_at(offset {} of {}, {} node, rank {} of {})", p.off, p.count, if p.leaf { "leaf" } else { "internal" }, p.rank, w.items.len());
		note("remove_at", p.off, p.rank as i64);
		store::fuel(200_000);
		let r = unsafe { t.remove_at(p.addr) };
		if !p.occupied {
			ensure!(r.is_none(), "{what}: removed something although the address holds no item");
			observed(&t, &what, &w.items);
			count("empty_addresses", 1);
			continue;
		}
		let Some((item, back)) = r else { viol!("{what}: returned None although the address holds an item") };
		ensure!(item.uid() == w.items[p.rank].1, "{what}: returned uid={} instead of {}", item.uid(), w.items[p.rank].1);
		let mut want = w.items.clone();
		want.remove(p.rank);
		let w2 = observed(&t, &what, &want);
		c.shape(w2.hash());
		ensure!(back.is_none() == want.is_empty(), "{what}: the reinsertion address is {back:?} with {} items left", want.len());
		if let Some(a) = back {
			match w2.locate(a) {
				None => viol!("{what}: the reinsertion address {a:?} is not a valid address"),
				Some(q) => ensure!(q.rank == p.rank, "{what}: the reinsertion address {a:?} has {} items before it", q.rank),
			}
		}
		let fresh = c.rng.pct(30);
		let x = if fresh { T::new(item.key()) } else { item.clone() };
		let e = (x.key(), x.uid());
		note("reinsert", p.rank as i64, 0);
		unsafe { t.insert_at(back, x) };
		want.insert(p.rank, e);
		let w3 = observed(&t, &format!("{what} then insert_at the returned address"), &want);
		c.shape(w3.hash());
		count("removals_reinserted", 1);
	}
	c.nontrivial = n > 8;
	c.label = format!("every removal address, style {style} n {} height {}", w0.items.len(), w0.height);
	count_max("max_height", w0.height as u64);
}

/// Random removals; each either reinserted or left out; continuing from the
/// returned addresses.
fn removal_history<T: Tok, S: Storage<T>>(c: &mut Case, size: usize, ops: usize) {
	let mut rng = Rng::new(c.rng.next());
	let style = rng.below(STYLES);
	let n0 = 1 + rng.below(size);
	let mut t: RawBTree<T, S> = build(&mut rng, style, n0);
	let mut w = walk(&t);
	let mut seq = w.items.clone();
	let mut at: Option<Address<S::Node>> = None;
	let mut maxh = 0;
	let keep = rng.range(0, 100) as usize;
	let mut fresh = 0i64;
	for _ in 0..ops {
		store::fuel(1_000_000);
		if seq.is_empty() {
			let nk = rng.below(size);
			let st = rng.below(STYLES);
			t = build(&mut rng, st, nk);
			w = walk(&t);
			seq = w.items.clone();
			at = None;
			if seq.is_empty() {
				continue;
			}
		}
		maxh = maxh.max(w.height);
		// continue around the previous address most of the time
		let r = match at.and_then(|a| w.locate(a)) {
			Some(p) if rng.pct(60) => (p.rank as i64 + rng.range(-1, 1)).clamp(0, seq.len() as i64 - 1) as usize,
			_ => rng.below(seq.len()),
		};
		let what = format!("remove_at(rank {r} of {})", seq.len());
		note("remove_at", r as i64, seq.len() as i64);
		let Some((item, back)) = (unsafe { t.remove_at(w.addrs[r]) }) else { viol!("{what}: returned None although the address holds an item") };
		let gone = seq.remove(r);
		ensure!(item.uid() == gone.1, "{what}: returned uid={} instead of {}", item.uid(), gone.1);
		w = observed(&t, &what, &seq);
		ensure!(back.is_none() == seq.is_empty(), "{what}: the reinsertion address is {back:?} with {} items left", seq.len());
		at = back;
		c.shape(w.hash());
		count("removals", 1);
		if rng.below(100) < keep {
			let mut x = Some(item);
			// one or more items inserted there, each before the previous ones
			let k = 1 + rng.below(3);
			let mut a = back;
			for j in 0..k {
				let y = match x.take() {
					Some(x) => x,
					None => {
						fresh += 1;
						T::new(fresh)
					}
				};
				let e = (y.key(), y.uid());
				note("reinsert", r as i64, j as i64);
				let ret = unsafe { t.insert_at(a, y) };
				seq.insert(r, e);
				w = observed(&t, &format!("{what} then {} insertions there", j + 1), &seq);
				a = ret;
				at = ret;
				count("removals_reinserted", 1);
			}
		}
	}
	c.nontrivial = true;
	c.label = format!("{ops} removals, size {size}, height {maxh}, {keep}% reinserted");
	count_max("max_height", maxh as u64);
}

pub fn run_remove(x: &mut Ctx) {
	for (style, n) in grid(x, 110, 300, 40) {
		x.sys("remove-everywhere", (style * 100_000 + n) as u64, |c| {
			let lim = if c.miri { 3 } else if c.thorough { 600 } else { 160 };
			combo_plain!(n + style, remove_everywhere(c, style, n, lim))
		});
	}
	for i in 0..x.reps(x.nm(260, 2), 8) {
		x.case("removal-history", i, |c| {
			let (ops, size) = if c.miri { (15, 40) } else { (200, *c.rng.pick(&[10usize, 30, 80, 250])) };
			combo_plain!(i, removal_history(c, size, ops))
		});
	}
	if !x.miri {
		for i in 0..x.reps(8, 6) {
			x.case("removal-large", i, |c| combo_plain!(i, removal_history(c, 4000, 150)));
		}
	}
	if x.huge() {
		x.case("removal-huge", 0, |c| combo_plain!(0, removal_history(c, crate::gen::HUGE, 20)));
		x.case("removal-huge", 1, |c| combo_plain!(1, removal_history(c, crate::gen::HUGE, 20)));
	}
}

// ---- C11 --------------------------------------------------------------------

fn items<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize) {
	let t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	let len = w.items.len();
	c.shape(w.hash());
	store::fuel(100_000 + 200 * len as u64);
	let first = t.first_item_address();
	ensure!(first == w.addrs.first().copied(), "first_item_address() = {first:?} instead of {:?}", w.addrs.first());
	let mut a = first;
	for i in 0..len {
		ensure!(a == Some(w.addrs[i]), "step {i} of the forward walk is at {a:?} instead of {:?}", w.addrs[i]);
		a = unsafe { t.next_item_address(w.addrs[i]) };
	}
	ensure!(a.is_none(), "the forward walk continues to {a:?} after the last item");
	let mut a = w.addrs.last().copied();
	for i in (0..len).rev() {
		ensure!(a == Some(w.addrs[i]), "step {i} of the backward walk is at {a:?} instead of {:?}", w.addrs[i]);
		a = unsafe { t.previous_item_address(w.addrs[i]) };
	}
	ensure!(a.is_none(), "the backward walk continues to {a:?} before the first item");
	count("addresses_walked", 2 * len as u64);
	store::fuel(u64::MAX);
	let mut ps = w.positions();
	if ps.len() > 8000 {
		c.rng.shuffle(&mut ps);
		ps.truncate(8000);
	}
	for p in ps {
		store::fuel(100_000);
		let next = w.addrs.get(p.rank + p.occupied as usize).copied();
		let prev = if p.rank > 0 { Some(w.addrs[p.rank - 1]) } else { None };
		let what = format!("offset {} of {}, {} node, rank {} of {len}", p.off, p.count, if p.leaf { "leaf" } else { "internal" }, p.rank);
		let g = unsafe { t.next_item_address(p.addr) };
		ensure!(g == next, "next_item_address({:?}) [{what}] = {g:?} instead of {next:?}", p.addr);
		let g = unsafe { t.previous_item_address(p.addr) };
		ensure!(g == prev, "previous_item_address({:?}) [{what}] = {g:?} instead of {prev:?}", p.addr);
		count("addresses_checked", 1);
	}
	c.nontrivial = len > 8;
	c.label = format!("style {style} n {len} height {}", w.height);
	count_max("max_height", w.height as u64);
	count_max("max_items", len as u64);
}

// ---- C12 --------------------------------------------------------------------

fn moves<T: Tok, S: Storage<T>>(c: &mut Case, style: usize, n: usize, starts: usize) {
	let t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	let len = w.items.len();
	c.shape(w.hash());
	let ps = w.positions();
	for p in &ps {
		store::fuel(100_000);
		let what = format!("{:?} [offset {} of {}, {} node, rank {} of {len}]", p.addr, p.off, p.count, if p.leaf { "leaf" } else { "internal" }, p.rank);
		// normalize
		let want = w.addrs.get(p.rank).copied();
		let g = unsafe { t.normalize(p.addr) };
		ensure!(g == want, "normalize({what}) = {g:?} instead of {want:?}");
		// next item or back
		let next = w.addrs.get(p.rank + p.occupied as usize).copied();
		let g = unsafe { t.next_item_or_back_address(p.addr) };
		match (next, g) {
			(Some(e), g) => ensure!(g == Some(e), "next_item_or_back_address({what}) = {g:?} instead of {e:?}"),
			(None, None) => viol!("next_item_or_back_address({what}) = None"),
			(None, Some(g)) => match w.locate(g) {
				Some(q) if !q.occupied && q.off >= 0 && q.rank == len => (),
				_ => viol!("next_item_or_back_address({what}) = {g:?} is not a back address at the end of the tree"),
			},
		}
		// leaf address
		if p.off >= 0 {
			let g = unsafe { t.leaf_address(p.addr) };
			match w.locate(g) {
				Some(q) if q.leaf && q.off >= 0 && q.rank == p.rank => (),
				Some(q) => viol!("leaf_address({what}) = {g:?} [offset {} of {}, leaf {}, rank {}]", q.off, q.count, q.leaf, q.rank),
				None => viol!("leaf_address({what}) = {g:?} is not a valid address"),
			}
		}
		count("addresses_checked", 1);
	}
	// iteration from any address
	let mut idx: Vec<usize> = (0..ps.len()).collect();
	if idx.len() > starts {
		c.rng.shuffle(&mut idx);
		idx.truncate(starts);
	}
	let total = ps.len();
	for i in idx {
		let p = &ps[i];
		let what = format!("{:?} [offset {} of {}, {} node, rank {} of {len}]", p.addr, p.off, p.count, if p.leaf { "leaf" } else { "internal" }, p.rank);
		// forward through back addresses
		let mut expect = p.rank + p.occupied as usize;
		let mut at = p.addr;
		let mut rank = expect;
		let mut steps = 0;
		store::fuel(200 * total as u64 + 100_000);
		while let Some(g) = unsafe { t.next_back_address(at) } {
			steps += 1;
			ensure!(steps <= total + 1, "next_back_address from {what} does not reach the end after {steps} steps");
			let Some(q) = w.locate(g) else { viol!("next_back_address({at:?}) = {g:?} is not a valid address (from {what})") };
			ensure!(q.off >= 0, "next_back_address({at:?}) = {g:?} is not a back address (from {what})");
			ensure!(q.rank >= rank, "next_back_address({at:?}) = {g:?} moves back from rank {rank} to {} (from {what})", q.rank);
			if q.occupied {
				ensure!(q.rank == expect, "next_back_address from {what} reaches the item of rank {} instead of {expect}", q.rank);
				expect += 1;
			}
			rank = q.rank + q.occupied as usize;
			at = g;
		}
		ensure!(expect == len, "next_back_address from {what} ends after the item of rank {} of {len}", expect as i64 - 1);
		// backward through front addresses
		let mut expect = p.rank;
		let mut at = p.addr;
		let mut rank = p.rank;
		let mut back_steps = 0;
		while let Some(g) = unsafe { t.previous_front_address(at) } {
			back_steps += 1;
			ensure!(back_steps <= total + 1, "previous_front_address from {what} does not reach the start after {back_steps} steps");
			let Some(q) = w.locate(g) else { viol!("previous_front_address({at:?}) = {g:?} is not a valid address (from {what})") };
			ensure!(q.off < q.count as i64, "previous_front_address({at:?}) = {g:?} is not a front address (from {what})");
			let end = q.rank + q.occupied as usize;
			ensure!(end <= rank, "previous_front_address({at:?}) = {g:?} moves forward from rank {rank} to {end} (from {what})");
			if q.occupied {
				ensure!(q.rank + 1 == expect, "previous_front_address from {what} reaches the item of rank {} instead of {}", q.rank, expect as i64 - 1);
				expect -= 1;
			}
			rank = q.rank;
			at = g;
		}
		ensure!(expect == 0, "previous_front_address from {what} ends before the item of rank {}", expect as i64 - 1);
		count("address_iterations", 2);
		count("address_steps", (steps + back_steps) as u64);
	}
	c.nontrivial = len > 8;
	c.label = format!("style {style} n {len} height {}", w.height);
	count_max("max_height", w.height as u64);
	count_max("max_items", len as u64);
}

fn sizes(x: &Ctx) -> Vec<usize> {
	if x.miri {
		vec![0, 1, 9, 30, 70]
	} else {
		let mut v: Vec<usize> = (0..=90).collect();
		v.extend([100, 110, 127, 150, 200, 256, 333, 500, 730, 1000]);
		if x.thorough {
			v.extend(91..=250);
			v.extend([2000, 4000, 10_000]);
		}
		v
	}
}

pub fn run_items(x: &mut Ctx) {
	for r in 0..x.reps(x.nm(2, 1), 3) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(2) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				x.case("item-addresses", i, |c| combo_plain!(i, items(c, style, n)));
			}
		}
	}
	if !x.miri {
		for i in 0..x.reps(4, 4) {
			x.case("item-addresses", 1 << 40 | i, |c| combo_plain!(i, items(c, i as usize * 5 % STYLES, 20_000)));
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("item-addresses-huge", i, |c| combo_plain!(i, items(c, i as usize * 2, crate::gen::HUGE)));
		}
	}
}

pub fn run_moves(x: &mut Ctx) {
	for r in 0..x.reps(x.nm(1, 1), 3) {
		for style in 0..STYLES {
			for n in sizes(x) {
				if x.miri && !(n + style).is_multiple_of(3) {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				let starts = if x.miri { 3 } else { 24 };
				x.case("address-moves", i, |c| combo_plain!(i, moves(c, style, n, starts)));
			}
		}
	}
	if x.huge() {
		for i in 0..2 {
			x.case("address-moves-huge", i, |c| combo_plain!(i, moves(c, i as usize * 2, crate::gen::HUGE, 4)));
		}
	}
	// small trees: from every address
	for n in 1..=x.nm(60, 0) {
		for style in [0usize, 2, 3, 4, 9, 11] {
			x.sys("address-moves-all", (style * 1000 + n) as u64, |c| combo_plain!(n + style, moves(c, style, n, usize::MAX)));
		}
	}
}
