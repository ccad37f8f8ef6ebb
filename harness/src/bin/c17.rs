fn main() {
    harness::engine::main_for(harness::props::p17::prop());
}
