fn main() {
    harness::engine::main_for(harness::props::p12::prop());
}
