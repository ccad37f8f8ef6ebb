fn main() {
    harness::engine::main_for(harness::props::p32::prop());
}
