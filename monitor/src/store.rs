//! Monitored storage: a conforming `Storage` that checks the other side of the
//! contract (which identifiers the tree uses, when it releases them) and counts
//! node accesses.
use crate::ctx::{count, violate, Kind};
use raw_btree::{storage::Dropper, Node, Storage};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Default, Clone, Copy, Debug, PartialEq, Eq)]
pub struct Counters {
	pub gets: u64,
	pub muts: u64,
	pub allocs: u64,
	pub releases: u64,
	pub dropped: u64,
	pub stores: u64,
}

impl Counters {
	pub fn access(&self) -> u64 {
		self.gets + self.muts
	}
}

thread_local! {
	static C: Cell<Counters> = const { Cell::new(Counters { gets: 0, muts: 0, allocs: 0, releases: 0, dropped: 0, stores: 0 }) };
	static ACTIVE: Cell<i64> = const { Cell::new(0) };
	static NEXT_STORE: Cell<u32> = const { Cell::new(1) };
	/// Leaking nodes is tolerated (an injected panic is unwinding).
	static TOLERATE_LEAK: Cell<bool> = const { Cell::new(false) };
	/// Node accesses allowed until the operation is declared endless.
	static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn counters() -> Counters {
	C.with(|c| c.get())
}
fn upd(f: impl FnOnce(&mut Counters)) {
	C.with(|c| {
		let mut x = c.get();
		f(&mut x);
		c.set(x)
	})
}
/// Number of nodes currently allocated, over all monitored storages.
pub fn active() -> i64 {
	ACTIVE.with(|a| a.get())
}
pub fn tolerate_leak(b: bool) {
	TOLERATE_LEAK.with(|t| t.set(b))
}
pub fn fuel(n: u64) {
	// Only meant to stop what never ends: generous.
	FUEL.with(|f| f.set(n.saturating_add(20_000_000)))
}
pub fn reset() {
	C.with(|c| c.set(Counters::default()));
	ACTIVE.with(|a| a.set(0));
	TOLERATE_LEAK.with(|t| t.set(false));
	fuel(u64::MAX);
}

/// `P & 1`: the storage has a dropper. `P & 2`: identifiers are recycled
/// last-in-first-out and compare by index only, as in a slab. `P & 4`: nodes move
/// in memory when others are allocated or released, as in a growing slab.
#[derive(Clone, Copy)]
pub struct MonId<const P: u8> {
	store: u32,
	index: u32,
	gen: u32,
}

impl<const P: u8> PartialEq for MonId<P> {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && (P & 2 != 0 || (self.gen == o.gen && self.store == o.store))
	}
}

impl<const P: u8> std::fmt::Debug for MonId<P> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "s{}n{}g{}", self.store, self.index, self.gen)
	}
}

impl<const P: u8> From<MonId<P>> for usize {
	fn from(v: MonId<P>) -> usize {
		// numbers that need the whole width, and differ anywhere in it
		let i = v.index as usize;
		match P {
			0 => i,
			1 => usize::MAX - i,
			2 => i << (usize::BITS / 2),
			_ => i.wrapping_mul(0x9E37_79B9_7F4A_7C15_u64 as usize),
		}
	}
}

struct Slot<T, const P: u8> {
	gen: u32,
	node: Option<*mut Node<T, MonStorage<T, P>>>,
}

thread_local! {
	/// Where nodes were before they moved, kept a while so that a stale pointer
	/// reads the pattern and not another node.
	static LEFT: RefCell<VecDeque<(*mut u8, std::alloc::Layout)>> = const { RefCell::new(VecDeque::new()) };
}

fn abandon(p: *mut u8, l: std::alloc::Layout) {
	// (not when the thread ends)
	let _ = LEFT.try_with(|q| {
		let mut q = q.borrow_mut();
		q.push_back((p, l));
		if q.len() > 1024 {
			let (p, l) = q.pop_front().unwrap();
			unsafe { std::alloc::dealloc(p, l) }
		}
	});
}

pub struct Table<T, const P: u8> {
	id: u32,
	slots: Vec<Slot<T, P>>,
	free: Vec<u32>,
	active: usize,
	/// Indices last accessed (`P & 4`).
	recent: Cell<[u32; 16]>,
	at: Cell<usize>,
}

pub struct MonStorage<T, const P: u8> {
	t: Rc<UnsafeCell<Table<T, P>>>,
}

impl<T, const P: u8> Default for MonStorage<T, P> {
	fn default() -> Self {
		upd(|c| c.stores += 1);
		let id = NEXT_STORE.with(|n| {
			n.set(n.get() + 1);
			n.get()
		});
		MonStorage { t: Rc::new(UnsafeCell::new(Table { id, slots: Vec::new(), free: Vec::new(), active: 0, recent: Cell::new([u32::MAX; 16]), at: Cell::new(0) })) }
	}
}

impl<T, const P: u8> Table<T, P> {
	#[inline]
	fn lookup(&self, id: MonId<P>, what: &str) -> *mut Node<T, MonStorage<T, P>> {
		if id.store != self.id {
			violate(Kind::Mem, &format!("{what}: node {id:?} belongs to another storage (this is s{})", self.id))
		}
		let s = match self.slots.get(id.index as usize) {
			Some(s) => s,
			None => violate(Kind::Mem, &format!("{what}: node {id:?} was never allocated")),
		};
		match s.node {
			Some(p) if s.gen == id.gen => {
				if P & 4 != 0 {
					let mut r = self.recent.get();
					r[self.at.get() % r.len()] = id.index;
					self.recent.set(r);
					self.at.set(self.at.get() + 1);
				}
				p
			}
			_ => violate(Kind::Mem, &format!("{what}: node {id:?} has already been released")),
		}
	}
	fn burn(&self, what: &str) {
		FUEL.with(|f| {
			let n = f.get();
			if n == 0 {
				violate(Kind::Sem, &format!("{what}: the operation keeps accessing nodes (access budget exhausted)"))
			}
			f.set(n - 1)
		})
	}
	/// Moves the nodes last accessed: pointers to them become stale.
	fn shake(&mut self) {
		if P & 4 == 0 {
			return;
		}
		for i in self.recent.get() {
			let Some(Slot { node: Some(p), .. }) = self.slots.get_mut(i as usize) else { continue };
			unsafe {
				let old = *p;
				*p = Box::into_raw(Box::<Node<T, MonStorage<T, P>>>::new(std::ptr::read(old)));
				if cfg!(miri) || crate::ctx::san_mode() {
					// the interpreter or sanitizer sees a later use
					drop(Box::from_raw(old as *mut std::mem::MaybeUninit<Node<T, MonStorage<T, P>>>));
				} else {
					std::ptr::write_bytes(old as *mut u8, 0xA5, size_of::<Node<T, MonStorage<T, P>>>());
					abandon(old as *mut u8, std::alloc::Layout::new::<Node<T, MonStorage<T, P>>>());
				}
			}
			count("nodes_moved", 1);
		}
		self.recent.set([u32::MAX; 16]);
	}
	fn take(&mut self, id: MonId<P>, what: &str) -> *mut Node<T, MonStorage<T, P>> {
		self.lookup(id, what);
		let s = &mut self.slots[id.index as usize];
		let p = s.node.take().unwrap();
		s.gen += 1;
		self.active -= 1;
		if P & 2 != 0 {
			self.free.push(id.index);
		}
		ACTIVE.with(|a| a.set(a.get() - 1));
		p
	}
}

impl<T, const P: u8> MonStorage<T, P> {
	#[allow(clippy::mut_from_ref)]
	fn tab(&self) -> &mut Table<T, P> {
		// Single-threaded, and never held across a call back into the tree.
		unsafe { &mut *self.t.get() }
	}
	pub fn active_nodes(&self) -> usize {
		self.tab().active
	}
}

unsafe impl<T, const P: u8> Storage<T> for MonStorage<T, P> {
	type Node = MonId<P>;
	type Dropper = MonDropper<T, P>;

	fn allocate_node(&mut self, node: Node<T, Self>) -> MonId<P> {
		let t = self.tab();
		t.burn("allocate_node");
		upd(|c| c.allocs += 1);
		ACTIVE.with(|a| a.set(a.get() + 1));
		t.shake();
		let p = Box::into_raw(Box::new(node));
		let index = match t.free.pop() {
			Some(i) => {
				count("recycled_ids", 1);
				i
			}
			None => {
				t.slots.push(Slot { gen: 0, node: None });
				t.slots.len() as u32 - 1
			}
		};
		t.active += 1;
		let s = &mut t.slots[index as usize];
		s.node = Some(p);
		MonId { store: t.id, index, gen: s.gen }
	}

	unsafe fn release_node(&mut self, id: MonId<P>) -> Node<T, Self> {
		upd(|c| c.releases += 1);
		let p = self.tab().take(id, "release_node");
		// (not when a node is dropped: references to the others may exist then)
		self.tab().shake();
		*Box::from_raw(p)
	}

	fn start_dropping(&self) -> Option<MonDropper<T, P>> {
		if P & 1 != 0 {
			Some(MonDropper { t: self.t.clone() })
		} else {
			None
		}
	}

	unsafe fn get(&self, id: MonId<P>) -> &Node<T, Self> {
		upd(|c| c.gets += 1);
		let t = self.tab();
		t.burn("get");
		&*t.lookup(id, "get")
	}

	unsafe fn get_mut(&mut self, id: MonId<P>) -> &mut Node<T, Self> {
		upd(|c| c.muts += 1);
		let t = self.tab();
		t.burn("get_mut");
		&mut *t.lookup(id, "get_mut")
	}
}

pub struct MonDropper<T, const P: u8> {
	t: Rc<UnsafeCell<Table<T, P>>>,
}

unsafe impl<T, const P: u8> Dropper<T, MonStorage<T, P>> for MonDropper<T, P> {
	unsafe fn drop_node(&mut self, id: MonId<P>) {
		upd(|c| c.dropped += 1);
		let p = (*self.t.get()).take(id, "drop_node");
		drop(Box::from_raw(p));
	}
}

impl<T, const P: u8> Drop for MonStorage<T, P> {
	fn drop(&mut self) {
		let t = self.tab();
		let left = t.active;
		if P & 1 != 0 {
			// Nodes must have gone through the dropper.
			if left > 0 && !std::thread::panicking() && !TOLERATE_LEAK.with(|t| t.get()) {
				violate(Kind::Mem, &format!("{left} nodes were never released although the storage has a dropper (leak)"))
			}
			ACTIVE.with(|a| a.set(a.get() - left as i64));
		} else {
			// The storage owns its nodes and drops them itself.
			t.active = 0;
			ACTIVE.with(|a| a.set(a.get() - left as i64));
			let nodes: Vec<_> = t.slots.iter_mut().filter_map(|s| s.node.take()).collect();
			for p in nodes {
				unsafe { drop(Box::from_raw(p)) }
			}
		}
	}
}
