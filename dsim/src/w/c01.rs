//! C01: reference-counted storage lives, unchanged, until the last handle is gone.
use super::common::NICE;
use super::handles::{machine, Cfg, K};

static CFG: Cfg = Cfg {
    weights: &[
        (K::Check, 3),
        (K::Clone, 5),
        (K::Drop, 5),
        (K::Send, 3),
        (K::Recv, 3),
        (K::Slice, 4),
        (K::SliceInto, 2),
        (K::Conv, 4),
        (K::New, 1),
        (K::Write, 1),
        (K::Queue, 2),
        (K::Split, 1),
        (K::Buf, 2),
        (K::Eq, 1),
        (K::Common, 3),
    ],
    sources: &[0, 1, 2, 4, 12, 17, 20, 21, 3, 30, 31],
    bad_ranges: false,
    faulty: false,
    beh: NICE,
    max_threads: 4,
    max_ops: 12,
    text: 1,
};
pub fn run() {
    machine(&CFG)
}
