fn main() {
    harness::engine::main_for(harness::props::p20::prop());
}
