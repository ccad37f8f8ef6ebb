fn main() {
    harness::engine::main_for(harness::props::p21::prop());
}
