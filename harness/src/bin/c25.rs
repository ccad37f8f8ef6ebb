fn main() {
    harness::engine::main_for(harness::props::p25::prop());
}
