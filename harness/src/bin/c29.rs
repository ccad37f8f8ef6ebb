fn main() {
    harness::engine::main_for(harness::props::p29::prop());
}
