fn main() {
    harness::engine::main_for(harness::props::p27::prop());
}
