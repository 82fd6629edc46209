#[global_allocator]
static A: harness::alloc::Counting = harness::alloc::Counting;

fn main() {
    harness::run::main_with(harness::typed::native_table());
}
