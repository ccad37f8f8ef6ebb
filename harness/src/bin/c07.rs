fn main() {
    harness::engine::main_for(harness::props::p07::prop());
}
