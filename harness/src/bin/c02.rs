fn main() {
    harness::engine::main_for(harness::props::p02::prop());
}
