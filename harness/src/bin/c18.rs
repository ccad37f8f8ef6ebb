fn main() {
    harness::engine::main_for(harness::props::p18::prop());
}
