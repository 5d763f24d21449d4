//! Coverage-guided search over the same histories the random generators draw
//! from, decided by the same oracles: the bytes are a case. The property is
//! named by the environment.
#![no_main]

use colacheck::{case::Case, plan, runner, world};
use std::sync::OnceLock;

static PROP: OnceLock<(String, [u8; 256])> = OnceLock::new();

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let (prop, kinds) = PROP.get_or_init(|| {
        // libfuzzer-sys installed a hook that aborts on every panic, but
        // rejected calls panic, and are contained.
        let _ = std::panic::take_hook();
        world::install_panic_hook();
        let prop = std::env::var("COLAFUZZ_PROPERTY").expect("COLAFUZZ_PROPERTY");
        let kinds = plan::byte_kinds(&prop);
        (prop, kinds)
    });
    let case = Case::from_bytes(prop, kinds, data, runner::FUZZ_OPS);
    match runner::violation(&case) {
        Ok(None) => {},
        Ok(Some(f)) => {
            eprintln!("{:?}/{:?}: {}", f.kind, f.ctx, f.msg);
            std::process::abort();
        },
        Err(e) => {
            eprintln!("harness error: {e}");
            std::process::abort();
        },
    }
});
