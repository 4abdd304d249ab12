//! dsim: deterministic simulation of the bytedata crate.  See /verif/DESIGN.md.
#![feature(panic_can_unwind)]
#![feature(alloc_error_hook, core_io_borrowed_buf, read_buf)]
#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]
mod drive;
#[macro_use]
mod rt;
mod model;
mod w;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    std::process::exit(drive::main());
}
