fn main() {
    harness::engine::main_for(harness::props::p15::prop());
}
