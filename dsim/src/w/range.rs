//! Ranges, lengths and tags: what the workloads of every build share.
use crate::model::Q;
use crate::rt::{self, quiet};
use core::ops::Bound;

// ------------------------------------------------------------------ ranges
/// One requested sub-range in one of the standard range forms.
#[derive(Clone, Copy, Debug)]
pub struct Rg {
    pub form: u32,
    pub a: usize,
    pub b: usize,
}
impl Rg {
    /// The half-open range it denotes for data of length `n`; None if it has to be refused.
    pub fn resolve(&self, n: usize) -> Option<(usize, usize)> {
        let (s, e) = match self.form {
            0 => (Some(self.a), Some(self.b)),
            1 => (Some(self.a), Some(n)),
            2 => (Some(0), Some(self.b)),
            3 => (Some(0), Some(n)),
            4 => (Some(self.a), self.b.checked_add(1)),
            5 => (Some(0), self.b.checked_add(1)),
            6 => (self.a.checked_add(1), Some(self.b)),
            _ => (self.a.checked_add(1), self.b.checked_add(1)),
        };
        let (s, e) = (s?, e?);
        (s <= e && e <= n).then_some((s, e))
    }
}
impl core::fmt::Display for Rg {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self.form {
            0 => write!(f, "{}..{}", self.a, self.b),
            1 => write!(f, "{}..", self.a),
            2 => write!(f, "..{}", self.b),
            3 => write!(f, ".."),
            4 => write!(f, "{}..={}", self.a, self.b),
            5 => write!(f, "..={}", self.b),
            6 => write!(f, "({}<..{})", self.a, self.b),
            _ => write!(f, "({}<..={})", self.a, self.b),
        }
    }
}
#[macro_export]
macro_rules! with_range {
    ($rg:expr, |$r:ident| $e:expr) => {{
        let rg: $crate::w::range::Rg = $rg;
        match rg.form {
            0 => { let $r = rg.a..rg.b; $e }
            1 => { let $r = rg.a..; $e }
            2 => { let $r = ..rg.b; $e }
            3 => { let $r = ..; $e }
            4 => { let $r = rg.a..=rg.b; $e }
            5 => { let $r = ..=rg.b; $e }
            6 => { let $r = (core::ops::Bound::Excluded(rg.a), core::ops::Bound::Excluded(rg.b)); $e }
            _ => { let $r = (core::ops::Bound::Excluded(rg.a), core::ops::Bound::Included(rg.b)); $e }
        }
    }};
}
pub fn bounds(r: Rg) -> (Bound<usize>, Bound<usize>) {
    with_range!(r, |x| {
        use core::ops::RangeBounds;
        (x.start_bound().cloned(), x.end_bound().cloned())
    })
}
/// A range drawn from three raw choices: mostly valid, sometimes (if `bad`) to be refused.
pub fn range_for(c: [u32; 3], n: usize, bad: bool) -> Rg {
    let forms = if bad { 8 } else { 6 };
    let mut form = c[0] % forms;
    if bad && (c[0] >> 4) % 4 == 3 {
        // out of bounds, reversed or overflowing
        let k = (c[0] >> 6) % 6;
        let x = at_for(c[1], n);
        let (a, b) = match k {
            0 => (x, n + 1 + c[2] as usize % 3),
            1 => (n + 1 + c[1] as usize % 3, n + c[2] as usize % 5),
            2 => (x + 1, x.saturating_sub(c[2] as usize % 3)),
            3 => (usize::MAX - (c[1] as usize % 3), x),
            4 => (x, usize::MAX - c[2] as usize % 3),
            _ => (usize::MAX, usize::MAX),
        };
        return Rg { form, a, b };
    }
    let a = at_for(c[1], n);
    let b = a + at_for(c[2], n - a);
    // the inclusive and exclusive forms shifted so that they denote a..b
    let (mut fa, mut fb) = (a, b);
    match form {
        4 | 5 => {
            if b == 0 {
                form = 0;
            } else {
                fb = b - 1;
            }
        }
        6 | 7 => {
            if a == 0 || (form == 7 && b == 0) {
                form = 0;
            } else {
                fa = a - 1;
                if form == 7 {
                    fb = b - 1;
                }
            }
        }
        _ => {}
    }
    Rg { form, a: fa, b: fb }
}

static TAG: rt::Shared<u32> = rt::Shared::new(1);
pub fn next_tag() -> u32 {
    TAG.with(|t| {
        *t += 1;
        *t
    })
}
/// Now and then, lengths around the limits of narrower counters, and others that no table has.
pub fn rare_len(c: u32) -> Option<usize> {
    const R: [usize; 32] = [
        255, 256, 257, 300, 127, 128, 1000, 4095, 4096, 4097, 8192, 9000, 512, 65535, 65536, 65537, // the first 16 for small c
        64, 65, 200, 511, 513, 1023, 1024, 1025, 2048, 16384, 32767, 32768, 32752, 131071, 131073, 262145,
    ];
    if (c >> 4) % 64 == 63 {
        let n = R[c as usize % 16 + (c >> 10) as usize % 2 * 16];
        rt::extend(n);
        Some(n)
    } else if (c >> 4) % 8 == 5 {
        Some((((c >> 7) % 32) * 16 + c % 16) as usize % 150)
    } else {
        None
    }
}
/// A place in `0..=n`.
pub fn at_for(c: u32, n: usize) -> usize {
    if n <= 2048 {
        return c as usize % (n + 1);
    }
    match c % 4 {
        0 => (c / 4) as usize % (n + 1),
        1 => n - (c / 4) as usize % (n + 1),
        _ => (c as u64 * 0x9E37_79B1 % (n as u64 + 1)) as usize,
    }
}
/// Interesting lengths around the representation limits.
pub fn len_for(c: u32) -> usize {
    if let Some(n) = rare_len(c) {
        return n;
    }
    const L: [usize; 16] = [20, 15, 16, 14, 13, 1, 0, 31, 32, 33, 17, 40, 24, 63, 100, 28];
    L[c as usize % 16]
}
/// Lives for the whole run, outside the simulation.
pub fn leak_static(q: &Q) -> &'static [u8] {
    quiet(|| Box::leak(q.b().to_vec().into_boxed_slice()))
}

// ------------------------------------------------------------------ running library code
/// A library call; with `faulty`, allocations inside it may fail.
pub fn run_in<R>(faulty: bool, f: impl FnOnce() -> R) -> Result<R, rt::Unwound> {
    if faulty {
        rt::faulty(f)
    } else {
        rt::catch(f)
    }
}
/// A library call that may unwind only because an allocation or a callback failed.
pub fn must_in<R>(faulty: bool, f: impl FnOnce() -> R) -> Option<R> {
    match run_in(faulty, f) {
        Ok(r) => Some(r),
        Err(rt::Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
        Err(_) => None,
    }
}

