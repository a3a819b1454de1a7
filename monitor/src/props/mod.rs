#[cfg(feature = "c01")]
pub mod c01;
#[cfg(any(feature = "iters", feature = "node"))]
pub mod adapt;
#[cfg(feature = "iters")]
pub mod iters;
#[cfg(feature = "hist")]
pub mod hist;
#[cfg(any(feature = "hist", feature = "whole"))]
pub mod zst;
#[cfg(feature = "addr")]
pub mod addr;
#[cfg(feature = "addr")]
pub mod forest;
#[cfg(feature = "whole")]
pub mod whole;
#[cfg(feature = "cmp")]
pub mod cmp;
#[cfg(feature = "faults")]
pub mod faults;
#[cfg(feature = "hist")]
pub mod nested;
#[cfg(feature = "node")]
pub mod node;
#[cfg(feature = "node")]
pub mod array;
#[cfg(feature = "threads")]
pub mod threads;
#[cfg(feature = "item")]
pub mod item;
#[cfg(feature = "offset")]
pub mod offset;
#[cfg(feature = "cost")]
pub mod cost;
#[cfg(feature = "dot")]
pub mod dot;
#[cfg(feature = "validate")]
pub mod validate;
#[cfg(any(feature = "c01", feature = "iters", feature = "hist", feature = "addr", feature = "whole", feature = "validate"))]
pub mod flat;
#[cfg(not(miri))]
pub mod leak;
#[cfg(feature = "memory")]
pub mod memory;

/// Calls a generic function for one of the item type / storage combinations.
#[macro_export]
macro_rules! combo {
	($i:expr, $f:ident ( $($a:expr),* )) => {{
		use $crate::tok::*;
		use $crate::store::MonStorage as MS;
		use raw_btree::storage::BoxStorage as BS;
		match ($i) % 8 {
			0 => $f::<TokS, MS<TokS, 1>>($($a),*),
			1 => $f::<TokB, BS>($($a),*),
			2 => $f::<TokB, MS<TokB, 3>>($($a),*),
			3 => $f::<TokS, BS>($($a),*),
			4 => $f::<TokS, MS<TokS, 0>>($($a),*),
			5 => $f::<TokA, BS>($($a),*),
			6 => $f::<TokL, MS<TokL, 6>>($($a),*),
			_ => $f::<TokL, BS>($($a),*),
		}
	}};
}

/// The same, and items without a destructor.
#[macro_export]
macro_rules! combo_plain {
	($i:expr, $f:ident ( $($a:expr),* )) => {{
		use $crate::tok::TokP;
		let i = ($i) as u64;
		if i % 10 > 7 {
			$crate::ctx::count("cases_of_plain_items", 1);
		}
		match i % 10 {
			8 => $f::<TokP, raw_btree::storage::BoxStorage>($($a),*),
			9 => match i / 10 % 3 {
				0 => $f::<TokP, $crate::store::MonStorage<TokP, 0>>($($a),*),
				1 => $f::<TokP, $crate::store::MonStorage<TokP, 1>>($($a),*),
				_ => $f::<TokP, $crate::store::MonStorage<TokP, 3>>($($a),*),
			},
			i => $crate::combo!(i, $f($($a),*)),
		}
	}};
}

/// Runs the scenarios of a property.
pub fn run(p: &str, x: &mut crate::ctx::Ctx) {
	match p {
		#[cfg(feature = "c01")]
		"C01" => {
			c01::run(x);
			flat::run(x, "C01")
		}
		#[cfg(feature = "iters")]
		"C02" => {
			iters::run_shared(x);
			flat::run(x, "C02")
		}
		#[cfg(feature = "iters")]
		"C03" => {
			iters::run_owning(x);
			flat::run(x, "C03");
			#[cfg(not(miri))]
			leak::run(x, &[leak::Way::IntoIter]);
		}
		#[cfg(feature = "iters")]
		"C04" => {
			iters::run_mut(x);
			flat::run(x, "C04")
		}
		#[cfg(feature = "hist")]
		"C05" => {
			hist::run_shape(x);
			flat::run(x, "C05")
		}
		#[cfg(feature = "hist")]
		"C06" => {
			hist::run_ledger(x);
			zst::run(x, "ledger-zst");
			nested::run(x);
		}
		#[cfg(feature = "memory")]
		"C07" => memory::run(x),
		#[cfg(feature = "memory")]
		"C07-blend" => memory::run_blend(x),
		#[cfg(feature = "memory")]
		"C07-held" => memory::run_held(x),
		#[cfg(feature = "hist")]
		"C08" => {
			hist::run_storage(x);
			#[cfg(not(miri))]
			leak::run(x, &leak::ALL);
		}
		#[cfg(feature = "addr")]
		"C09" => {
			addr::run_insert(x);
			flat::run(x, "C09")
		}
		#[cfg(feature = "addr")]
		"C10" => {
			addr::run_remove(x);
			flat::run(x, "C10")
		}
		#[cfg(feature = "addr")]
		"C11" => {
			addr::run_items(x);
			flat::run(x, "C11")
		}
		#[cfg(feature = "addr")]
		"C12" => {
			addr::run_moves(x);
			flat::run(x, "C12")
		}
		#[cfg(feature = "whole")]
		"C13" => {
			whole::run_clone(x);
			zst::run(x, "clone-zst");
			flat::run(x, "C13");
		}
		#[cfg(feature = "whole")]
		"C14" => {
			whole::run_clear(x);
			zst::run(x, "clear-zst");
			flat::run(x, "C14");
			#[cfg(not(miri))]
			leak::run(x, &[leak::Way::Clear, leak::Way::Forget, leak::Way::Reuse]);
		}
		#[cfg(feature = "whole")]
		"C15" => {
			whole::run_visit(x);
			flat::run(x, "C15")
		}
		#[cfg(feature = "dot")]
		"C16" => dot::run(x),
		#[cfg(feature = "validate")]
		"C17" => {
			validate::run(x);
			flat::run(x, "C17")
		}
		#[cfg(feature = "cmp")]
		"C18" => cmp::run_args(x),
		#[cfg(feature = "cmp")]
		"C19" => cmp::run_chaos(x),
		#[cfg(feature = "faults")]
		"C20" => faults::run(x),
		#[cfg(feature = "threads")]
		"C21" => threads::run(x),
		#[cfg(feature = "item")]
		"C22" => item::run(x),
		#[cfg(feature = "node")]
		"C23" => node::run(x),
		#[cfg(feature = "offset")]
		"C24" => offset::run(x),
		#[cfg(feature = "cost")]
		"C25" => cost::run(x),
		#[cfg(feature = "node")]
		"C26" => array::run(x),
		#[cfg(feature = "addr")]
		"C27" => forest::run(x),
		_ => crate::ctx::harness_error("unknown property"),
	}
}
