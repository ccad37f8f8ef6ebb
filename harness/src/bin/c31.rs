fn main() {
    harness::engine::main_for(harness::props::p31::prop());
}
