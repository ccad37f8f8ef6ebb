fn main() {
    harness::engine::main_for(harness::props::p13::prop());
}
