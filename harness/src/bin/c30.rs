fn main() {
    harness::engine::main_for(harness::props::p30::prop());
}
