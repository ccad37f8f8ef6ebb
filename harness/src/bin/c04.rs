fn main() {
    harness::engine::main_for(harness::props::p04::prop());
}
