fn main() {
    harness::engine::main_for(harness::props::p09::prop());
}
