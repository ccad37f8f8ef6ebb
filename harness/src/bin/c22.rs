fn main() {
    harness::engine::main_for(harness::props::p22::prop());
}
