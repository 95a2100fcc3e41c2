//! The simulator without the code under test: seams, plans, the reference model, judges, batches. See DESIGN.md.

pub mod ctx;
pub mod erased;
pub mod exec;
pub mod gen;
pub mod instr;
pub mod io;
pub mod minimise;
pub mod parent;
pub mod plan;
pub mod rng;
pub mod vals;
pub mod worker;

use erased::Shape;
use plan::Plan;
use std::sync::OnceLock;

/// What the program around the simulator brings: the containers it was built with.
pub struct Build {
    pub maps: fn() -> Vec<Shape>,
    pub sets: fn() -> Vec<Shape>,
    pub seed: u64,
    /// Which selection of shapes and which compiler settings: 0 quick, 1 wide, 2 a release build of a few shapes.
    pub wide: u8,
}
pub static BUILD: OnceLock<Build> = OnceLock::new();
pub fn build() -> &'static Build {
    BUILD.get().expect("BUILD is set first")
}

pub struct Shapes {
    pub maps: Vec<Shape>,
    pub sets: Vec<Shape>,
}

impl Shapes {
    pub fn load() -> Shapes {
        Shapes { maps: (build().maps)(), sets: (build().sets)() }
    }
    pub fn find(&self, p: &Plan) -> Option<&Shape> {
        let l = if p.is_map { &self.maps } else { &self.sets };
        l.iter().find(|s| s.label == p.shape)
    }
}

/// Run the command line.
pub fn main(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("FMSIM_PANICS").is_some() {
            ctx::user(|| eprintln!("{i}"));
        }
    }));
    match args.get(1).map(String::as_str) {
        Some("check") => parent::check(&args[2..]),
        Some("worker") => worker::work(&args[2..]),
        Some("exec") => worker::exec(&args[2..]),
        Some("replay") => parent::replay(&args[2..]),
        Some("selftest") => parent::selftest(&args[2..]),
        Some("plan") => worker::show(&args[2..]),
        _ => {
            eprintln!("usage: fmsim check PROP TIER SEED OUT | replay FILE | selftest | plan PROP SEED INDEX");
            2
        }
    }
}
