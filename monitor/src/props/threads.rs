//! C21: auto traits, concurrent readers, trees moved between threads.
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use crate::rng::{mix, Rng};
use raw_btree::storage::BoxPtr;
use raw_btree::{Address, IntoIter, Iter, IterMut, RawBTree};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier, MutexGuard};

macro_rules! auto {
	($t:ty) => {{
		struct W<T: ?Sized>(PhantomData<T>);
		#[allow(dead_code)]
		trait No {
			const SEND: bool = false;
			const SYNC: bool = false;
		}
		impl<T: ?Sized> No for W<T> {}
		#[allow(dead_code)]
		struct V<T: ?Sized>(PhantomData<T>);
		impl<T: ?Sized> No for V<T> {}
		#[allow(dead_code)]
		impl<T: ?Sized + Send> W<T> {
			const SEND: bool = true;
		}
		#[allow(dead_code)]
		impl<T: ?Sized + Sync> V<T> {
			const SYNC: bool = true;
		}
		(<W<$t>>::SEND, <V<$t>>::SYNC)
	}};
}

/// `send`/`sync`: auto traits of the item type.
fn judge(what: &str, got: (bool, bool), must: (bool, bool), may: (bool, bool)) {
	note("auto-traits", got.0 as i64, got.1 as i64);
	count("auto_traits_checked", 2);
	ensure!(!must.0 || got.0, "{what} is not Send although its item type allows it");
	ensure!(!must.1 || got.1, "{what} is not Sync although its item type allows it");
	ensure!(!got.0 || may.0, "{what} is Send although its item type does not allow it");
	ensure!(!got.1 || may.1, "{what} is Sync although its item type does not allow it");
}

macro_rules! check_types {
	($($name:literal: $t:ty),*) => {$({
		let it = auto!($t);
		let (send, sync) = it;
		let n = $name;
		judge(&format!("RawBTree<{n}>"), auto!(RawBTree<$t>), it, it);
		judge(&format!("IterMut<{n}>"), auto!(IterMut<'static, $t>), it, it);
		judge(&format!("IntoIter<{n}>"), auto!(IntoIter<$t>), it, it);
		// a shared iterator gives shared references to the items
		judge(&format!("Iter<{n}>"), auto!(Iter<'static, $t>), (send && sync, sync), (sync, sync));
		judge(&format!("the node identifier BoxPtr<{n}>"), auto!(BoxPtr<$t>), it, it);
		judge(&format!("Address<BoxPtr<{n}>>"), auto!(Address<BoxPtr<$t>>), it, it);
	})*};
}

fn traits(c: &mut Case) {
	check_types!(
		"i32": i32,
		"String": String,
		"Rc<i32>": Rc<i32>,
		"Cell<i32>": Cell<i32>,
		"MutexGuard<i32>": MutexGuard<'static, i32>,
		"*const u8": *const u8,
		"Arc<Cell<i32>>": Arc<Cell<i32>>,
		"Box<dyn Fn()>": Box<dyn Fn()>,
		"Box<dyn Fn() + Send>": Box<dyn Fn() + Send>,
		"Box<dyn Fn() + Send + Sync>": Box<dyn Fn() + Send + Sync>
	);
	c.nontrivial = true;
	c.label = "auto traits".into();
}

/// Lets the workload compile even if a marker is lost: the verdict on markers
/// is the one of `traits`.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
	fn get(self) -> T {
		self.0
	}
	fn as_ref(&self) -> &T {
		&self.0
	}
}

/// Item with heap content and an instance count shared by the threads.
struct It {
	key: i64,
	boxed: Box<i64>,
	live: Arc<AtomicI64>,
}
impl It {
	fn new(key: i64, live: &Arc<AtomicI64>) -> It {
		live.fetch_add(1, Relaxed);
		It { key, boxed: Box::new(!key), live: live.clone() }
	}
	fn ok(&self) -> bool {
		*self.boxed == !self.key
	}
}
impl Clone for It {
	fn clone(&self) -> It {
		It::new(self.key, &self.live)
	}
}
impl Drop for It {
	fn drop(&mut self) {
		self.live.fetch_sub(1, Relaxed);
	}
}
fn cmp(a: &It, b: &It) -> std::cmp::Ordering {
	a.key.cmp(&b.key)
}
fn kcmp(a: &It, b: &i64) -> std::cmp::Ordering {
	a.key.cmp(b)
}

fn make(rng: &mut Rng, n: usize, live: &Arc<AtomicI64>) -> (RawBTree<It>, Vec<i64>) {
	let mut t = RawBTree::new();
	let mut k: Vec<i64> = (0..2 * n as i64).collect();
	rng.shuffle(&mut k);
	for x in &k {
		t.insert(cmp, It::new(*x, live));
	}
	for x in &k[..n] {
		t.remove(kcmp, x);
	}
	let mut keep = k[n..].to_vec();
	keep.sort();
	(t, keep)
}

/// Order in which the threads made their steps. Relaxed, so that it does not
/// synchronise the threads being watched.
struct Seq(AtomicU64);
type Log = Vec<(u64, u8)>;
impl Seq {
	fn step(&self, me: u8, log: &mut Log) {
		log.push((self.0.fetch_add(1, Relaxed), me));
	}
}
fn interleaving(c: &mut Case, logs: Vec<Log>) {
	let mut all: Log = logs.into_iter().flatten().collect();
	all.sort();
	let mut h = 0;
	let mut switches = 0;
	for (i, x) in all.iter().enumerate() {
		h = mix(h ^ x.1 as u64);
		if i > 0 && all[i - 1].1 != x.1 {
			switches += 1
		}
	}
	count("steps_of_threads", all.len() as u64);
	count("switches_between_threads", switches);
	c.shape(h);
}

fn joined<R>(r: std::thread::Result<R>) -> R {
	r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

/// Several threads read one tree at the same time.
fn readers(c: &mut Case, n: usize, threads: usize, rounds: usize) {
	let live = Arc::new(AtomicI64::new(0));
	let (t, keys) = make(&mut c.rng, n, &live);
	let seq = Seq(AtomicU64::new(0));
	let gate = Barrier::new(threads);
	let shared = Force(&t);
	let seed = c.rng.next();
	let logs: Vec<Log> = std::thread::scope(|s| {
		let hs: Vec<_> = (0..threads)
			.map(|me| {
				let (shared, keys, seq, gate) = (&shared, &keys, &seq, &gate);
				s.spawn(move || {
					let t: &RawBTree<It> = shared.as_ref();
					let mut rng = Rng::new(seed ^ me as u64);
					let mut log = vec![];
					gate.wait();
					for r in 0..rounds {
						match (me + r) % 8 {
							0 => {
								let mut it = t.iter();
								for k in keys {
									seq.step(me as u8, &mut log);
									let x = it.next();
									ensure!(x.is_some_and(|x| x.key == *k && x.ok()), "a reader thread iterates over another content at key {k}");
								}
								ensure!(it.next().is_none(), "a reader thread sees too many items");
							}
							1 => {
								let mut it = t.iter();
								for k in keys.iter().rev() {
									seq.step(me as u8, &mut log);
									let x = it.next_back();
									ensure!(x.is_some_and(|x| x.key == *k && x.ok()), "a reader thread iterates backwards over another content at key {k}");
								}
								ensure!(it.next_back().is_none(), "a reader thread sees too many items backwards");
							}
							2 | 3 => {
								for _ in 0..keys.len() {
									seq.step(me as u8, &mut log);
									let k = rng.range(-1, 2 * keys.len() as i64 + 1);
									let x = t.get(kcmp, &k);
									let e = keys.binary_search(&k).is_ok();
									ensure!(x.is_some() == e && x.is_none_or(|x| x.key == k && x.ok()), "a reader thread looking for key {k} gets {:?}", x.map(|x| x.key));
								}
							}
							4 => {
								let mut a = t.first_item_address();
								for k in keys {
									seq.step(me as u8, &mut log);
									let Some(b) = a else { crate::viol!("a reader thread walking addresses misses key {k}") };
									let x = unsafe { t.get_at(b) };
									ensure!(x.is_some_and(|x| x.key == *k), "a reader thread walking addresses finds another item at key {k}");
									a = unsafe { t.next_item_address(b) };
								}
								ensure!(a.is_none(), "a reader thread walking addresses goes too far");
							}
							5 => {
								let mut k = 0;
								t.visit_from_leaves(|id| {
									seq.step(me as u8, &mut log);
									k += unsafe { t.node(id) }.item_count()
								});
								ensure!(k == keys.len(), "a reader thread visiting nodes sees {k} items of {}", keys.len());
							}
							6 => {
								seq.step(me as u8, &mut log);
								let u = t.clone();
								ensure!(u.iter().map(|x| x.key).eq(keys.iter().copied()), "a reader thread clones another content");
								seq.step(me as u8, &mut log);
							}
							_ => {
								for _ in 0..8 {
									seq.step(me as u8, &mut log);
									ensure!(t.len() == keys.len() && t.is_empty() == keys.is_empty(), "a reader thread reads len() = {}", t.len());
									ensure!(t.first().map(|x| x.key) == keys.first().copied() && t.last().map(|x| x.key) == keys.last().copied(), "a reader thread reads another first or last item");
								}
								#[cfg(debug_assertions)]
								t.validate(cmp);
							}
						}
					}
					log
				})
			})
			.collect();
		hs.into_iter().map(|h| joined(h.join())).collect()
	});
	note("readers", n as i64, threads as i64);
	ensure!(live.load(Relaxed) == keys.len() as i64, "{} items alive after the readers, {} stored", live.load(Relaxed), keys.len());
	drop(t);
	ensure!(live.load(Relaxed) == 0, "{} items left", live.load(Relaxed));
	interleaving(c, logs);
	c.nontrivial = threads > 1 && n > 0;
	c.label = format!("{threads} readers of {n} items");
}

/// A tree handed from thread to thread, used, then consumed or dropped there.
fn moved(c: &mut Case, n: usize, hops: usize) {
	let live = Arc::new(AtomicI64::new(0));
	let (mut t, keys) = make(&mut c.rng, n, &live);
	let mut m: BTreeMap<i64, ()> = keys.iter().map(|k| (*k, ())).collect();
	for hop in 0..hops {
		let seed = c.rng.next();
		let (l2, f) = (live.clone(), Force((t, m)));
		let r = std::thread::spawn(move || {
			let (mut t, mut m) = f.get();
			let mut rng = Rng::new(seed);
			for _ in 0..n / 2 + 5 {
				let k = rng.range(0, 2 * n as i64 + 4);
				if rng.pct(50) {
					let r = t.insert(cmp, It::new(k, &l2));
					ensure!(r.map(|x| x.key) == m.insert(k, ()).map(|_| k), "insert({k}) in another thread");
				} else {
					let r = t.remove(kcmp, &k);
					ensure!(r.map(|x| x.key) == m.remove(&k).map(|_| k), "remove({k}) in another thread");
				}
			}
			ensure!(t.iter().map(|x| x.key).eq(m.keys().copied()) && t.len() == m.len(), "the tree moved to another thread differs from a sorted map");
			Force((t, m))
		});
		(t, m) = joined(r.join()).get();
		note("hop", hop as i64, t.len() as i64);
		ensure!(t.iter().all(|x| x.ok()), "items of a tree that came back from another thread are corrupted");
	}
	let len = t.len() as i64;
	ensure!(live.load(Relaxed) == len, "{} items alive, {len} stored", live.load(Relaxed));
	let how = c.rng.below(4);
	let want: Vec<i64> = m.keys().copied().collect();
	match how {
		0 => {
			let f = Force(t);
			joined(std::thread::spawn(move || drop(f.get())).join());
		}
		1 => {
			let f = Force((t, want));
			joined(
				std::thread::spawn(move || {
					let (t, want) = f.get();
					ensure!(t.into_iter().map(|x| x.key).eq(want), "consuming the tree in another thread gives another content")
				})
				.join(),
			);
		}
		2 => {
			// the iterator itself changes threads
			let mut it = t.into_iter();
			let k = c.rng.below(want.len() + 1);
			for w in &want[..k] {
				ensure!(it.next().map(|x| x.key) == Some(*w), "into_iter() yields another item");
			}
			let f = Force((it, want[k..].to_vec()));
			joined(
				std::thread::spawn(move || {
					let (mut it, rest) = f.get();
					for w in rest.iter().rev().take(rest.len() / 2) {
						ensure!(it.next_back().map(|x| x.key) == Some(*w), "an owning iterator moved to another thread yields another item");
					}
					drop(it)
				})
				.join(),
			);
		}
		_ => {
			let f = Force(t);
			joined(
				std::thread::spawn(move || {
					let mut t = f.get();
					t.clear();
					ensure!(t.is_empty() && t.iter().next().is_none(), "clear() in another thread");
					drop(t)
				})
				.join(),
			);
		}
	}
	note("end", how as i64, len);
	ensure!(live.load(Relaxed) == 0, "{} items left after the tree ended in another thread", live.load(Relaxed));
	c.observe(how as u64);
	c.nontrivial = n > 0;
	c.label = format!("{n} items, {hops} hops, end {how}");
}

/// Iterators sent to other threads.
fn split(c: &mut Case, n: usize, threads: usize) {
	let live = Arc::new(AtomicI64::new(0));
	let (mut t, keys) = make(&mut c.rng, n, &live);
	let seq = Seq(AtomicU64::new(0));
	let gate = Barrier::new(threads);
	let logs: Vec<Log> = std::thread::scope(|s| {
		let mut it = t.iter();
		let mut at = 0;
		let hs: Vec<_> = (0..threads)
			.map(|me| {
				let f = Force(it);
				let rest = &keys[at..];
				// the next thread starts further
				for _ in 0..keys.len() / threads {
					it.next();
					at += 1;
				}
				let (seq, gate) = (&seq, &gate);
				s.spawn(move || {
					let mut log = vec![];
					let it = f.get();
					gate.wait();
					let mut k = 0;
					for x in it {
						seq.step(me as u8, &mut log);
						ensure!(x.key == rest[k] && x.ok(), "an iterator sent to another thread yields {} instead of {}", x.key, rest[k]);
						k += 1;
					}
					ensure!(k == rest.len(), "an iterator sent to another thread yields {k} items of {}", rest.len());
					log
				})
			})
			.collect();
		hs.into_iter().map(|h| joined(h.join())).collect()
	});
	interleaving(c, logs);
	// mutable iteration in another thread
	{
		let f = Force(t.iter_mut());
		let keys = &keys;
		std::thread::scope(|s| {
			joined(
				s.spawn(move || {
					let mut k = 0;
					for x in f.get() {
						ensure!(x.key == keys[k], "a mutable iterator sent to another thread yields {} instead of {}", x.key, keys[k]);
						*x.boxed = 7 + x.key;
						k += 1;
					}
				})
				.join(),
			)
		});
	}
	ensure!(t.iter().all(|x| *x.boxed == 7 + x.key), "writes made in another thread are lost");
	note("split", n as i64, threads as i64);
	c.nontrivial = threads > 1 && n > 0;
	c.label = format!("iterators over {n} items in {threads} threads");
}

/// Unrelated trees in different threads at the same time: no hidden state.
fn unrelated(c: &mut Case, threads: usize, ops: usize) {
	let gate = Barrier::new(threads);
	let seed = c.rng.next();
	let seq = Seq(AtomicU64::new(0));
	let logs: Vec<Log> = std::thread::scope(|s| {
		let hs: Vec<_> = (0..threads)
			.map(|me| {
				let (gate, seq) = (&gate, &seq);
				s.spawn(move || {
					let live = Arc::new(AtomicI64::new(0));
					let mut rng = Rng::new(seed ^ me as u64);
					let mut log = vec![];
					let mut t: RawBTree<It> = RawBTree::new();
					let mut m = BTreeMap::new();
					gate.wait();
					for _ in 0..ops {
						seq.step(me as u8, &mut log);
						let k = rng.range(0, ops as i64 / 3);
						match rng.below(5) {
							0..=2 => {
								let r = t.insert(cmp, It::new(k, &live));
								ensure!(r.map(|x| x.key) == m.insert(k, ()).map(|_| k), "insert({k}) while other threads use other trees");
							}
							3 => {
								let r = t.remove(kcmp, &k);
								ensure!(r.map(|x| x.key) == m.remove(&k).map(|_| k), "remove({k}) while other threads use other trees");
							}
							_ => ensure!(t.get(kcmp, &k).map(|x| x.key) == m.get(&k).map(|_| k), "get({k}) while other threads use other trees"),
						}
					}
					ensure!(t.iter().map(|x| x.key).eq(m.keys().copied()), "the content differs while other threads use other trees");
					drop(t);
					ensure!(live.load(Relaxed) == 0, "{} items left", live.load(Relaxed));
					log
				})
			})
			.collect();
		hs.into_iter().map(|h| joined(h.join())).collect()
	});
	note("unrelated", threads as i64, ops as i64);
	interleaving(c, logs);
	c.nontrivial = threads > 1;
	c.label = format!("{threads} unrelated trees");
}

/// A tree that lives in a thread local and is still used when it is destroyed,
/// as the thread ends.
struct Last {
	t: RawBTree<It>,
	m: BTreeMap<i64, ()>,
	how: usize,
	ended: Option<Arc<AtomicI64>>,
}
impl Drop for Last {
	fn drop(&mut self) {
		let Some(ended) = self.ended.take() else { return };
		ensure!(self.t.iter().map(|x| x.key).eq(self.m.keys().copied()), "the content of a tree held by a thread local is lost");
		let live = match self.t.first() {
			Some(x) => x.live.clone(),
			None => Arc::default(),
		};
		let keys: Vec<i64> = self.m.keys().copied().collect();
		match self.how % 4 {
			0 => (),
			1 => {
				for k in &keys {
					ensure!(self.t.remove(kcmp, k).is_some(), "remove({k}) while the thread ends");
				}
			}
			2 => {
				for k in &keys {
					self.t.insert(cmp, It::new(-1 - k, &live));
				}
				ensure!(self.t.len() == 2 * keys.len(), "insertions while the thread ends");
			}
			_ => {
				let u = self.t.clone();
				self.t.clear();
				ensure!(u.into_iter().map(|x| x.key).eq(keys), "a tree cloned while the thread ends has another content");
			}
		}
		ended.fetch_add(1, Relaxed);
	}
}
thread_local! {
	static FIRST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
	static SECOND: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
}

fn thread_local_trees(c: &mut Case, threads: usize, n: usize) {
	let live = Arc::new(AtomicI64::new(0));
	let ended = Arc::new(AtomicI64::new(0));
	let seed = c.rng.next();
	let hs: Vec<_> = (0..threads)
		.map(|me| {
			let f = Force((live.clone(), ended.clone()));
			std::thread::spawn(move || {
				let (live, ended) = f.get();
				let mut rng = Rng::new(mix(seed ^ me as u64));
				let mut grow = |how| {
					let (mut t, mut m) = (RawBTree::new(), BTreeMap::new());
					for _ in 0..n {
						let k = rng.range(0, 2 * n as i64);
						t.insert(cmp, It::new(k, &live));
						m.insert(k, ());
						let k = rng.range(0, 2 * n as i64);
						t.remove(kcmp, &k);
						m.remove(&k);
					}
					Last { t, m, how, ended: Some(ended.clone()) }
				};
				// either is registered for destruction before the trees are used
				if seed & 1 == 0 {
					FIRST.with(|f| drop(f.borrow_mut()));
				}
				let a = grow(seed as usize >> 1);
				FIRST.with(|f| *f.borrow_mut() = Some(a));
				let b = grow(seed as usize >> 3);
				SECOND.with(|f| *f.borrow_mut() = Some(b));
			})
		})
		.collect();
	for h in hs {
		joined(h.join());
	}
	note("thread-local", threads as i64, n as i64);
	ensure!(ended.load(Relaxed) == 2 * threads as i64, "{} trees were destroyed as their thread ended, instead of {}", ended.load(Relaxed), 2 * threads);
	ensure!(live.load(Relaxed) == 0, "{} items left after their threads ended", live.load(Relaxed));
	count("thread_local_trees", 2 * threads as u64);
	c.observe(seed % 32);
	c.nontrivial = n > 0;
	c.label = format!("trees of thread locals, {threads} threads, {n} insertions");
}

pub fn run(x: &mut Ctx) {
	x.sys("auto-traits", 0, traits);
	for i in 0..x.reps(x.nm(200, 2), 8) {
		x.case("readers", i, |c| {
			let (n, th, ro) = if c.miri { (6 + c.rng.below(20), 3, 3) } else { (c.rng.below(400), 2 + c.rng.below(6), 4 + c.rng.below(12)) };
			readers(c, n, th, ro)
		});
		x.case("moved", i, |c| {
			let (n, h) = if c.miri { (4 + c.rng.below(16), 1) } else { (c.rng.below(300), 1 + c.rng.below(4)) };
			moved(c, n, h)
		});
		x.case("sent-iterators", i, |c| {
			let (n, th) = if c.miri { (6 + c.rng.below(20), 2) } else { (c.rng.below(400), 2 + c.rng.below(6)) };
			split(c, n, th)
		});
		x.case("thread-local", i, |c| {
			let (th, n) = if c.miri { (1, 14) } else { (1 + c.rng.below(3), c.rng.below(150)) };
			thread_local_trees(c, th, n)
		});
		x.case("unrelated-trees", i, |c| {
			let (th, ops) = if c.miri { (2, 20) } else { (2 + c.rng.below(6), 300) };
			unrelated(c, th, ops)
		});
	}
}
