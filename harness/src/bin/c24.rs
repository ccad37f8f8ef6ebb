fn main() {
    harness::engine::main_for(harness::props::p24::prop());
}
