#![allow(static_mut_refs)]
mod client; mod gen; mod http; mod judge; mod kernel; mod lib_run; mod lin; mod model; mod net; mod raw; mod rng; mod run; mod scenario; mod shim; mod stmt;
mod driver; mod minimise;

#[global_allocator]
static A: shim::Alloc = shim::Alloc;

fn main() { driver::main() }
