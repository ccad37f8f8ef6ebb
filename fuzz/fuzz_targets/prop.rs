//! libFuzzer over the cases of one property: the bytes are the choices of a case.
//! RCGAL_FUZZ_PROP names the property; RCGAL_FUZZ_OUT receives the counts.
//! A failing input is judged again, shrunk and reported by the property's own binary (--bytes).
#![no_main]
use harness::engine::{run_case, Ctx, Prop, Verdict};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static PASS: AtomicU64 = AtomicU64::new(0);
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
static DISCARD: AtomicU64 = AtomicU64::new(0);

fn prop() -> &'static Prop {
    static P: OnceLock<Prop> = OnceLock::new();
    P.get_or_init(|| {
        harness::engine::install_panic_hook();
        harness::props::by_id(&std::env::var("RCGAL_FUZZ_PROP").expect("RCGAL_FUZZ_PROP")).expect("property")
    })
}

libfuzzer_sys::fuzz_target!(init: { prop(); }, |data: &[u8]| {
    let p = prop();
    let sub = &p.subs[data.first().copied().unwrap_or(0) as usize % p.subs.len()];
    let mut ctx = Ctx::from_bytes(data.get(1..).unwrap_or(&[]));
    match run_case(sub.f, &mut ctx) {
        Verdict::Pass => {
            PASS.fetch_add(1, Ordering::Relaxed);
            if ctx.nontrivial {
                NONTRIVIAL.fetch_add(1, Ordering::Relaxed);
            }
        }
        Verdict::Discard(_) => {
            DISCARD.fetch_add(1, Ordering::Relaxed);
        }
        Verdict::Fail(_) | Verdict::HarnessError(_) => std::process::abort(),
    }
    let (a, b, c) = (PASS.load(Ordering::Relaxed), NONTRIVIAL.load(Ordering::Relaxed), DISCARD.load(Ordering::Relaxed));
    if (a + c) % 500 == 0 {
        if let Ok(path) = std::env::var("RCGAL_FUZZ_OUT") {
            let _ = std::fs::write(path, format!("{a} {b} {c}"));
        }
    }
});
