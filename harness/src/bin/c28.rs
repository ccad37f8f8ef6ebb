fn main() {
    harness::engine::main_for(harness::props::p28::prop());
}
