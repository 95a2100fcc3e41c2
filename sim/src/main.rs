#![feature(alloc_error_hook)]
//! Deterministic simulation of fixed-map: the containers under test. See DESIGN.md.

mod shapes;
mod uni;
mod wrap;
mod zero;

use fmsim_core::ctx;

#[global_allocator]
static A: ctx::SimAlloc = ctx::SimAlloc;

/// Hash seeds come from the plan.
struct SimRandom;
impl ahash::random_state::RandomSource for SimRandom {
    fn gen_hasher_seed(&self) -> usize {
        ctx::next_hash_seed()
    }
}

fn main() {
    std::alloc::set_alloc_error_hook(ctx::alloc_error);
    let _ = ahash::random_state::set_random_source(SimRandom);
    let build = fmsim_core::Build { maps: shapes::map_shapes, sets: shapes::set_shapes, seed: shapes::BUILD_SEED, wide: shapes::WIDE };
    assert!(fmsim_core::BUILD.set(build).is_ok());
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(fmsim_core::main(&args));
}
