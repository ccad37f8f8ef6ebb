fn main() {
    harness::engine::main_for(harness::props::p03::prop());
}
