//! Counts the heap allocations of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static BYTES: Cell<i64> = const { Cell::new(0) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Heap {
	/// Allocations made and not freed.
	pub live: i64,
	pub bytes: i64,
	/// Allocations made.
	pub total: u64,
}

pub fn heap() -> Heap {
	Heap { live: LIVE.with(|l| l.get()), bytes: BYTES.with(|l| l.get()), total: TOTAL.with(|l| l.get()) }
}

fn add(n: i64, b: i64) {
	let _ = LIVE.try_with(|l| l.set(l.get() + n));
	let _ = BYTES.try_with(|l| l.set(l.get() + b));
	if n > 0 {
		let _ = TOTAL.try_with(|l| l.set(l.get() + 1));
	}
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(1, l.size() as i64);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-1, -(l.size() as i64));
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		add(0, n as i64 - l.size() as i64);
		System.realloc(p, l, n)
	}
}
