fn main() {
    harness::engine::main_for(harness::props::p19::prop());
}
