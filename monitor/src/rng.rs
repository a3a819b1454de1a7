//! Deterministic pseudo-random numbers (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(mix(seed ^ 0x5eed_5eed))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		mix(self.0)
	}
	/// Uniform in `0..n` (0 if `n` is 0).
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			0
		} else {
			(self.next() % n as u64) as usize
		}
	}
	pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
		lo + (self.next() % ((hi - lo) as u64 + 1)) as i64
	}
	pub fn pct(&mut self, p: usize) -> bool {
		self.below(100) < p
	}
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
		&s[self.below(s.len())]
	}
	pub fn shuffle<T>(&mut self, s: &mut [T]) {
		for i in (1..s.len()).rev() {
			s.swap(i, self.below(i + 1));
		}
	}
}
