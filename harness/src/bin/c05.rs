fn main() {
    harness::engine::main_for(harness::props::p05::prop());
}
