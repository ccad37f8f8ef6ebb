fn main() {
    harness::engine::main_for(harness::props::p16::prop());
}
