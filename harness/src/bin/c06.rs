fn main() {
    harness::engine::main_for(harness::props::p06::prop());
}
