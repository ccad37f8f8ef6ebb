//! Every property in one binary (development only: tools/mutate.py).  --prop C01
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = a.iter().position(|x| x == "--prop").map(|i| a[i + 1].clone()).unwrap_or_default();
    harness::engine::main_for(harness::props::by_id(&p).expect("--prop"));
}
