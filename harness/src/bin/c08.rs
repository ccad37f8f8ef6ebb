fn main() {
    harness::engine::main_for(harness::props::p08::prop());
}
