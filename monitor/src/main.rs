//! Runtime monitors for raw-btree. See DESIGN.md.
//! One cargo feature per group of monitors, so that a check builds what it runs.
#![allow(dead_code, unused_imports, unused_macros)]
mod alloc;
mod ctx;
mod gen;
mod props;
mod rng;
mod shape;
mod store;
mod tok;

use ctx::Ctx;
use std::sync::atomic::Ordering::Relaxed;

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
	let mut x = Ctx::new();
	let mut args = std::env::args().skip(1);
	let mut leaky = false;
	while let Some(a) = args.next() {
		let mut val = || args.next().unwrap_or_else(|| ctx::harness_error("missing argument value"));
		match a.as_str() {
			"--seed" => x.seed = val().parse().unwrap(),
			"--thorough" => x.thorough = true,
			"--shard" => {
				let v = val();
				let (a, b) = v.split_once('/').unwrap();
				x.shard = a.parse().unwrap();
				x.nshards = b.parse().unwrap();
			}
			"--scale" => x.scale = val().parse().unwrap(),
			"--seconds" => {
				let s: u64 = val().parse().unwrap();
				x.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(s));
			}
			"--journal" => x.journal = Some(std::fs::File::create(val()).unwrap()),
			"--only" => {
				let v = val();
				let (a, b) = v.rsplit_once(':').unwrap();
				x.only = Some((a.to_string(), b.parse().unwrap()));
			}
			"--san" => ctx::SAN_MODE.store(true, Relaxed),
			"--small" => x.miri = true,
			"--thin" => x.thin = val().parse().unwrap(),
			"--verbose" => x.verbose = true,
			"--leaky" => leaky = true,
			p => x.prop = p.to_string(),
		}
	}
	x.leaky = leaky;
	ctx::install_hook();
	#[cfg(not(miri))]
	ctx::start_watchdog(60.0);
	let p = x.prop.clone();
	props::run(&p, &mut x);
	x.finish();
}
