fn main() {
    harness::engine::main_for(harness::props::p10::prop());
}
