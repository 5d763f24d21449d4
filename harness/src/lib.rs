pub mod case;
pub mod compat;
pub mod cost;
pub mod kinds;
pub mod mem;
pub mod rng;
pub mod wire;
pub mod world;
pub mod plan;
pub mod runner;
