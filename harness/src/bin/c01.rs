fn main() {
    harness::engine::main_for(harness::props::p01::prop());
}
