//! Ledger items: every construction, clone and destruction is recorded, and
//! every access checks that the item is intact and alive.
use crate::ctx::{violate, Kind};
use crate::rng::mix;
use std::cell::RefCell;

#[derive(Default)]
pub struct Ledger {
	pub state: Vec<(bool, u64)>, // (live, origin)
	pub live: usize,
	pub drops: u64,
	pub clones: u64,
	/// Panic in the destructor of this item.
	pub drop_panic: Option<u64>,
	/// Panic in the clone of this item.
	pub clone_panic: Option<u64>,
	/// Number of ZST items alive.
	pub zst_live: i64,
	pub zst_drops: u64,
}

thread_local! {
	pub static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub struct Injected(pub &'static str);

pub fn reset() {
	L.with(|l| {
		let mut l = l.borrow_mut();
		// Keeps the identifiers of a skipped case out of the way.
		*l = Ledger::default();
	})
}

pub fn live() -> usize {
	L.with(|l| l.borrow().live)
}
pub fn drops() -> u64 {
	L.with(|l| l.borrow().drops)
}
pub fn clones() -> u64 {
	L.with(|l| l.borrow().clones)
}
pub fn created() -> u64 {
	L.with(|l| l.borrow().state.len() as u64)
}
pub fn is_live(uid: u64) -> bool {
	L.with(|l| l.borrow().state.get(uid as usize).map(|s| s.0).unwrap_or(false))
}
pub fn origin(uid: u64) -> u64 {
	L.with(|l| l.borrow().state.get(uid as usize).map(|s| s.1).unwrap_or(u64::MAX))
}
pub fn set_drop_panic(u: Option<u64>) {
	L.with(|l| l.borrow_mut().drop_panic = u)
}
pub fn set_clone_panic(u: Option<u64>) {
	L.with(|l| l.borrow_mut().clone_panic = u)
}

fn birth(origin: u64, counted: bool) -> u64 {
	L.with(|l| {
		let mut l = l.borrow_mut();
		let uid = l.state.len() as u64;
		l.state.push((true, origin));
		l.live += counted as usize;
		uid
	})
}

pub const MAGIC: u64 = 0xC0FF_EE00_DEAD_10CC;

#[derive(Debug)]
pub struct Core {
	key: i64,
	uid: u64,
	note: u64,
	seal: u64,
}

impl Core {
	fn seal(key: i64, uid: u64, note: u64) -> u64 {
		if cfg!(miri) {
			// Miri sees uninitialised and freed memory by itself.
			return MAGIC;
		}
		mix(key as u64 ^ mix(uid) ^ note.rotate_left(9)) ^ MAGIC
	}
	fn make(key: i64, note: u64, origin: u64, counted: bool) -> Core {
		let uid = birth(origin, counted);
		Core { key, uid, note, seal: Self::seal(key, uid, note) }
	}
	#[inline]
	fn check(&self) {
		if self.seal != Self::seal(self.key, self.uid, self.note) {
			violate(Kind::Mem, &format!("a stored item is corrupted or uninitialised: key={:#x} uid={:#x}", self.key, self.uid))
		}
	}
	fn drop_now(&mut self) {
		self.check();
		let uid = self.uid;
		let panic = L.with(|l| {
			let mut l = l.borrow_mut();
			match l.state.get(uid as usize).copied() {
				Some((true, o)) => {
					l.state[uid as usize] = (false, o);
					l.live -= 1;
					l.drops += 1;
					Ok(l.drop_panic == Some(uid))
				}
				Some((false, _)) => Err("dropped twice"),
				None => Err("dropped but never created"),
			}
		});
		match panic {
			Err(m) => violate(Kind::Mem, &format!("item uid={} key={} {}", uid, self.key, m)),
			Ok(true) => {
				L.with(|l| l.borrow_mut().drop_panic = None);
				crate::ctx::note("destructor-panics", self.key, uid as i64);
				std::panic::panic_any(Injected("drop"))
			}
			Ok(false) => (),
		}
	}
	fn dup(&self, counted: bool) -> Core {
		self.check();
		let p = L.with(|l| {
			let mut l = l.borrow_mut();
			if !l.state.get(self.uid as usize).map(|s| s.0).unwrap_or(false) {
				return Err(());
			}
			l.clones += 1;
			Ok(l.clone_panic == Some(self.uid))
		});
		match p {
			Err(()) => violate(Kind::Mem, &format!("item uid={} is cloned after its destruction", self.uid)),
			Ok(true) => {
				L.with(|l| l.borrow_mut().clone_panic = None);
				crate::ctx::note("clone-panics", self.key, self.uid as i64);
				std::panic::panic_any(Injected("clone"))
			}
			Ok(false) => Core::make(self.key, self.note, self.uid, counted),
		}
	}
}

pub trait Tok: Sized + Clone + 'static {
	const NAME: &'static str;
	/// Whether the items have a destructor. Those that have none are not counted
	/// as live, and stay so.
	const DROPS: bool = true;
	fn new(key: i64) -> Self;
	fn core(&self) -> &Core;
	fn core_mut(&mut self) -> &mut Core;
	/// Layout specific integrity check.
	fn intact(&self) -> bool {
		true
	}
	fn key(&self) -> i64 {
		self.check();
		self.core().key
	}
	fn uid(&self) -> u64 {
		self.check();
		self.core().uid
	}
	fn payload(&self) -> u64 {
		self.check();
		self.core().note
	}
	fn set_payload(&mut self, n: u64) {
		self.check();
		let c = self.core_mut();
		c.note = n;
		c.seal = Core::seal(c.key, c.uid, n);
	}
	fn check(&self) {
		self.core().check();
		if !self.intact() {
			violate(Kind::Mem, &format!("{}: padding bytes of item {} corrupted", Self::NAME, self.core().uid))
		}
	}
}

macro_rules! tok {
	($name:ident, $label:literal, [$($attr:meta)?], $field:ty, $wrap:expr, $get:expr, $getm:expr, $pad:ty, $padv:expr) => {
		$(#[$attr])?
		pub struct $name($field, $pad);
		impl Tok for $name {
			const NAME: &'static str = $label;
			fn new(key: i64) -> Self {
				$name($wrap(Core::make(key, 0, u64::MAX, true)), $padv)
			}
			fn core(&self) -> &Core {
				$get(&self.0)
			}
			fn core_mut(&mut self) -> &mut Core {
				$getm(&mut self.0)
			}
			fn intact(&self) -> bool {
				self.1 == $padv && (self as *const Self as usize) % std::mem::align_of::<Self>() == 0
			}
		}
		impl Clone for $name {
			fn clone(&self) -> Self {
				self.check();
				$name($wrap(self.core().dup(true)), $padv)
			}
		}
		impl Drop for $name {
			fn drop(&mut self) {
				self.check();
				self.core_mut().drop_now()
			}
		}
		impl std::fmt::Display for $name {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				write!(f, "k{}u{}", self.key(), self.uid())
			}
		}
	};
}

fn id<T>(t: T) -> T {
	t
}
fn bget(b: &Box<Core>) -> &Core {
	b
}
fn bgetm(b: &mut Box<Core>) -> &mut Core {
	b
}
const FILL: [u64; 24] = [0xA5A5_5A5A_0F0F_F0F0; 24];

tok!(TokS, "inline", [], Core, id, id::<&Core>, id::<&mut Core>, (), ());
tok!(TokB, "boxed", [], Box<Core>, Box::new, bget, bgetm, (), ());
tok!(TokA, "aligned64", [repr(align(64))], Core, id, id::<&Core>, id::<&mut Core>, u8, 0x5A);
tok!(TokL, "large", [], Core, id, id::<&Core>, id::<&mut Core>, [u64; 24], FILL);

/// Plain data, without a destructor, whose clones are nevertheless recorded.
pub struct TokP(Core);

impl Tok for TokP {
	const NAME: &'static str = "plain";
	const DROPS: bool = false;
	fn new(key: i64) -> Self {
		TokP(Core::make(key, 0, u64::MAX, false))
	}
	fn core(&self) -> &Core {
		&self.0
	}
	fn core_mut(&mut self) -> &mut Core {
		&mut self.0
	}
}
impl Clone for TokP {
	fn clone(&self) -> Self {
		self.check();
		TokP(self.0.dup(false))
	}
}
impl std::fmt::Display for TokP {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "k{}u{}", self.key(), self.uid())
	}
}

/// Number of destructors run for `n` items.
pub fn counted<T: Tok>(n: usize) -> usize {
	if T::DROPS {
		n
	} else {
		0
	}
}

/// Zero-sized item; the ledger only counts.
pub struct TokZ;
impl TokZ {
	pub fn new() -> Self {
		L.with(|l| l.borrow_mut().zst_live += 1);
		TokZ
	}
}
impl Clone for TokZ {
	fn clone(&self) -> Self {
		L.with(|l| l.borrow_mut().clones += 1);
		TokZ::new()
	}
}
impl Drop for TokZ {
	fn drop(&mut self) {
		let ok = L.with(|l| {
			let mut l = l.borrow_mut();
			l.zst_live -= 1;
			l.zst_drops += 1;
			l.zst_live >= 0
		});
		if !ok {
			violate(Kind::Mem, "more zero-sized items dropped than created")
		}
	}
}
pub fn zst_live() -> i64 {
	L.with(|l| l.borrow().zst_live)
}
pub fn zst_drops() -> u64 {
	L.with(|l| l.borrow().zst_drops)
}
