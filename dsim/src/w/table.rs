//! The workloads of the library with all its features.
use super::*;

pub const TABLE: &[(&str, fn())] = &[
    ("C01", c01::run),
    ("C02", machines::c02),
    ("C03", machines::c03),
    ("C04", builder::c04),
    ("C09", c09),
    ("C05", queue::c05),
    ("C06", squeue::c06),
    ("C07", queue::c07),
    ("C08", queue::c08),
    ("C10", queue::c10),
    ("C11", builder::c11),
    ("C12", intern::c12),
    ("C13", c13),
    ("C14", c14),
    ("C15", machines::c15),
    ("C16", serde::c16),
    ("C17", machines::c17),
    ("C18", parse::c18),
    ("C20", frames::c20),
    ("C21", keys::c21),
    ("C23", render::c23),
    ("C24", gen::c24),
    // halves of properties, runnable on their own
    ("C09b", builder::c09),
    ("C09q", queue::c09),
    ("C13h", machines::c13),
    ("C13q", queue::c13),
    ("C13i", intern::c13),
    ("C13d", serde::c13),
    ("C14d", serde::c14),
    ("C13s", squeue::c13),
    ("C14s", squeue::c14),
    ("C14q", queue::c14),
    ("C14h", machines::c14),
];

/// Things with process-wide lazy initialisation are initialised before the first fork.
pub fn warm_up() {
    use bytedata::interning::{ByteInterning, StaticInterning};
    queue::pattern();
    // parking_lot's table of waiting threads grows with the number of threads that ever wait at once, and is never freed
    let b = std::sync::Barrier::new(8);
    std::thread::scope(|s| {
        for i in 0..8usize {
            let b = &b;
            s.spawn(move || {
                unsafe { parking_lot_core::park(0x1000 + i * 64, || false, || {}, |_, _| {}, parking_lot_core::ParkToken(0), None) };
                b.wait();
            });
        }
    });
    let t = StaticInterning::new(100);
    let _ = t.intern_always(bytedata::ByteData::from_static(b"warm up the number of shards"));
}

fn c09() {
    [builder::c09, queue::c09][crate::rt::w(2) as usize]()
}
fn c13() {
    [machines::c13, queue::c13, builder::c04, squeue::c13, intern::c13, serde::c13][crate::rt::w(6) as usize]()
}
fn c14() {
    [machines::c14, queue::c14, builder::c09, builder::c11, squeue::c14, serde::c14][crate::rt::w(6) as usize]()
}
