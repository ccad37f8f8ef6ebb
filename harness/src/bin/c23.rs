fn main() {
    harness::engine::main_for(harness::props::p23::prop());
}
