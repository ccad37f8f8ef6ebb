fn main() {
    harness::engine::main_for(harness::props::p14::prop());
}
