#![allow(unknown_lints, invalid_runtime_symbol_definitions, static_mut_refs, dead_code)]
#![allow(non_snake_case)]
mod byz;
mod driver;
mod props;
mod rt;
mod sys;
mod traps;
mod world;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    // (a second arena makes malloc look at the number of processors)
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
    }
    driver::main()
}
