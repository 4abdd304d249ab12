//! Properties decided by the handle machine with different emphasis.
use super::common::{Beh, NICE};
use super::handles::{machine, Cfg, K};

/// C02: external owners live until the last view is gone and are dropped once.
static C02: Cfg = Cfg {
    weights: &[
        (K::Check, 2),
        (K::Clone, 6),
        (K::Drop, 6),
        (K::Send, 3),
        (K::Recv, 3),
        (K::Slice, 5),
        (K::SliceInto, 3),
        (K::Conv, 5),
        (K::New, 1),
        (K::Write, 2),
        (K::Queue, 2),
        (K::Split, 2),
        (K::Buf, 2),
        (K::Eq, 1),
        (K::Common, 4),
    ],
    sources: &[5, 8, 6, 7, 13, 14, 15, 16, 3, 5],
    bad_ranges: false,
    faulty: false,
    beh: NICE,
    max_threads: 4,
    max_ops: 12,
    text: 1,
};
pub fn c02() {
    if !super::common::owners_are_send() {
        crate::viol!("owner-thread", "a type which may not leave its thread can be an external owner, but is dropped by whichever thread drops the last view");
    }
    machine(&C02)
}
/// C03: taking storage back for writing never disturbs anyone else.
static C03: Cfg = Cfg {
    weights: &[
        (K::Check, 3),
        (K::Clone, 5),
        (K::Drop, 5),
        (K::Send, 3),
        (K::Recv, 3),
        (K::Slice, 3),
        (K::SliceInto, 2),
        (K::Conv, 8),
        (K::New, 1),
        (K::Write, 7),
        (K::Unique, 3),
        (K::Queue, 1),
        (K::Buf, 2),
        (K::Common, 3),
    ],
    sources: &[0, 3, 1, 2, 4, 8, 11, 12, 20, 16, 22, 14, 29],
    bad_ranges: false,
    faulty: false,
    beh: NICE,
    max_threads: 4,
    max_ops: 12,
    text: 2,
};
pub fn c03() {
    machine(&C03)
}
/// C15: to and from bytes::Bytes.
static C15: Cfg = Cfg {
    weights: &[
        (K::Check, 2),
        (K::Clone, 5),
        (K::Drop, 5),
        (K::Send, 3),
        (K::Recv, 3),
        (K::Slice, 4),
        (K::SliceInto, 1),
        (K::Conv, 9),
        (K::New, 2),
        (K::Write, 3),
        (K::Unique, 1),
        (K::Queue, 2),
        (K::Buf, 6),
        (K::Common, 3),
    ],
    sources: &[12, 11, 0, 16, 8, 2, 21, 24, 4, 9, 19, 30],
    bad_ranges: false,
    faulty: false,
    beh: NICE,
    max_threads: 4,
    max_ops: 12,
    text: 1,
};
pub fn c15() {
    machine(&C15)
}
/// C17: every view shows exactly the requested sub-range.
static C17: Cfg = Cfg {
    weights: &[
        (K::Check, 2),
        (K::Clone, 4),
        (K::Drop, 3),
        (K::Send, 1),
        (K::Recv, 1),
        (K::Slice, 10),
        (K::SliceInto, 8),
        (K::Conv, 3),
        (K::New, 3),
        (K::Split, 5),
        (K::Buf, 4),
        (K::Eq, 2),
        (K::Common, 4),
    ],
    sources: &[10, 9, 19, 0, 5, 1, 3, 6, 20, 17, 18, 23, 4, 15, 13, 21, 25, 26, 27, 28, 29, 29, 30, 31],
    bad_ranges: true,
    faulty: false,
    beh: NICE,
    max_threads: 3,
    max_ops: 14,
    text: 2,
};
pub fn c17() {
    machine(&C17)
}
/// C13, first half: allocations fail inside operations on handles of every kind.
static C13: Cfg = Cfg {
    weights: &[
        (K::Check, 1),
        (K::Clone, 6),
        (K::Drop, 3),
        (K::Send, 1),
        (K::Recv, 1),
        (K::Slice, 6),
        (K::SliceInto, 3),
        (K::Conv, 8),
        (K::New, 5),
        (K::Write, 5),
        (K::Queue, 4),
        (K::Split, 3),
        (K::Common, 2),
    ],
    sources: &[0, 3, 5, 1, 2, 4, 6, 8, 17, 18, 20, 21, 19, 14, 22, 27, 28, 29, 30, 31],
    bad_ranges: false,
    faulty: true,
    beh: NICE,
    max_threads: 3,
    max_ops: 12,
    text: 2,
};
pub fn c13() {
    machine(&C13)
}
/// C14, first half: owners that panic or lie.
static C14: Cfg = Cfg {
    weights: &[
        (K::Check, 2),
        (K::Clone, 5),
        (K::Drop, 6),
        (K::Send, 2),
        (K::Recv, 2),
        (K::Slice, 4),
        (K::SliceInto, 3),
        (K::Conv, 3),
        (K::New, 6),
        (K::Queue, 2),
        (K::Split, 2),
        (K::Common, 2),
    ],
    sources: &[5, 6, 7, 5, 6, 7, 18],
    bad_ranges: false,
    faulty: false,
    beh: Beh { panics: true, lies: true },
    max_threads: 3,
    max_ops: 12,
    text: 0,
};
pub fn c14() {
    machine(&C14)
}
