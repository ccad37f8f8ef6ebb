fn main() {
    harness::engine::main_for(harness::props::p26::prop());
}
