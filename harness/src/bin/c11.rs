fn main() {
    harness::engine::main_for(harness::props::p11::prop());
}
