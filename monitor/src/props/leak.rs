//! The nodes of trees in the default storage are given back to the heap:
//! observed by counting the allocations of the thread.
use crate::alloc::heap;
use crate::ctx::{count, note, Case, Ctx};
use crate::ensure;
use crate::rng::Rng;
use raw_btree::RawBTree;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Way {
	Drop,
	Clear,
	Forget,
	IntoIter,
	RemoveAll,
	RemoveAt,
	CloneBoth,
	Reuse,
}

pub const ALL: [Way; 8] = [Way::Drop, Way::Clear, Way::Forget, Way::IntoIter, Way::RemoveAll, Way::RemoveAt, Way::CloneBoth, Way::Reuse];

fn tree<T: Ord>(rng: &mut Rng, n: usize, style: usize, make: &dyn Fn(i64) -> T) -> RawBTree<T> {
	let mut t: RawBTree<T> = RawBTree::new();
	for j in 0..n as i64 {
		let k = match style % 3 {
			0 => j,
			1 => -j,
			_ => rng.range(0, 4 * n as i64 + 1),
		};
		t.insert(|a: &T, b: &T| a.cmp(b), make(k));
	}
	if style >= 3 {
		for _ in 0..n / 2 {
			let k = rng.range(-(n as i64), n as i64);
			t.remove(|a: &T, b: &T| a.cmp(b), &make(k));
		}
	}
	t
}

fn end<T: Ord + Clone>(mut t: RawBTree<T>, rng: &mut Rng, way: Way, make: &dyn Fn(i64) -> T) {
	match way {
		Way::Drop => (),
		Way::Clear => t.clear(),
		Way::Forget => t.forget(),
		Way::IntoIter => {
			let n = t.len();
			let mut it = t.into_iter();
			for _ in 0..rng.below(n + 2) {
				if rng.pct(50) {
					it.next();
				} else {
					it.next_back();
				}
			}
		}
		Way::RemoveAll => {
			for k in -2000..2000 {
				t.remove(|a: &T, b: &T| a.cmp(b), &make(k));
			}
		}
		Way::RemoveAt => {
			for _ in 0..10_000 {
				let mut a = match t.first_item_address() {
					Some(a) => a,
					None => break,
				};
				for _ in 0..rng.below(4) {
					a = unsafe { t.next_item_address(a) }.unwrap_or(a);
				}
				unsafe { t.remove_at(a) };
			}
		}
		Way::CloneBoth => {
			let u = t.clone();
			if rng.pct(50) {
				drop(t);
				drop(u)
			}
		}
		Way::Reuse => {
			for _ in 0..3 {
				t.clear();
				for k in 0..50 {
					t.insert(|a: &T, b: &T| a.cmp(b), make(k));
				}
			}
		}
	}
}

fn balanced<T: Ord + Clone>(c: &mut Case, n: usize, style: usize, way: Way, name: &str, make: &dyn Fn(i64) -> T) {
	let seed = c.rng.next();
	note("heap-way", way as i64, n as i64);
	let mut d = (0, 0);
	let mut total = 0;
	// the first round allocates what the harness keeps
	for _ in 0..2 {
		let h = heap();
		let mut rng = Rng::new(seed);
		let t = tree(&mut rng, n, style, make);
		end(t, &mut rng, way, make);
		let g = heap();
		d = (g.live - h.live, g.bytes - h.bytes);
		total = g.total - h.total;
	}
	count("heap_rounds", 2);
	count("heap_allocations", total);
	ensure!(d == (0, 0), "{name}: {} heap blocks ({} bytes) are left of a tree of {n} items, end of the tree: {way:?}", d.0, d.1);
}

fn case(c: &mut Case, n: usize, style: usize, way: Way) {
	balanced::<u64>(c, n, style, way, "u64", &|k| k as u64);
	balanced::<[u64; 20]>(c, n, style, way, "large", &|k| [k as u64; 20]);
	if way != Way::Forget {
		balanced::<Box<i64>>(c, n, style, way, "Box", &|k| Box::new(k));
		balanced::<String>(c, n, style, way, "String", &|k| k.to_string());
	}
	c.nontrivial = n > 8;
	c.observe((n * 1000 + style) as u64);
	c.label = format!("{way:?} n {n} style {style}");
}

pub fn run(x: &mut Ctx, ways: &[Way]) {
	let sizes: &[usize] = if x.miri { &[10, 60] } else { &[0, 1, 2, 7, 8, 9, 10, 17, 30, 45, 64, 90, 150, 400] };
	for r in 0..x.reps(1, 6) {
		for way in ways {
			for style in 0..6 {
				for n in sizes {
					x.case("heap", ((*way as u64 * 10 + style as u64) * 10 + r) * 1000 + *n as u64, |c| case(c, *n, style, *way));
				}
			}
		}
	}
}
