//! Reference data for the oracles.  Everything here lives outside the simulation (quiet): it is never scheduled,
//! never faulted, never race- or leak-checked.
use crate::rt::{self, quiet};

/// A plain byte sequence kept by the oracle.
pub struct Q(Vec<u8>);
impl Q {
    pub fn new(b: &[u8]) -> Self {
        quiet(|| Q(b.to_vec()))
    }
    pub fn b(&self) -> &[u8] {
        &self.0
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_text(&self) -> bool {
        quiet(|| core::str::from_utf8(&self.0).is_ok())
    }
    pub fn s(&self) -> &str {
        quiet(|| core::str::from_utf8(&self.0).expect("oracle text"))
    }
    pub fn boundary(&self, i: usize) -> bool {
        quiet(|| i == 0 || i == self.0.len() || (i < self.0.len() && (self.0[i] as i8) >= -0x40))
    }
    pub fn sub(&self, a: usize, b: usize) -> Q {
        Q::new(&self.0[a..b])
    }
    pub fn push(&mut self, x: &[u8]) {
        quiet(|| self.0.extend_from_slice(x))
    }
    pub fn prepend(&mut self, x: &[u8]) {
        self.splice(0, 0, x)
    }
    pub fn splice(&mut self, a: usize, b: usize, x: &[u8]) {
        quiet(|| {
            self.0.splice(a..b, x.iter().copied());
        })
    }
    pub fn truncate(&mut self, n: usize) {
        quiet(|| self.0.truncate(n))
    }
    /// Removes and returns `a..b`.
    pub fn cut(&mut self, a: usize, b: usize) -> Q {
        quiet(|| Q(self.0.drain(a..b).collect()))
    }
    pub fn m(&mut self) -> &mut [u8] {
        &mut self.0
    }
    pub fn same(&self, x: &[u8]) -> bool {
        quiet(|| self.0 == x)
    }
    pub fn hash(&self) -> u64 {
        hash(&self.0)
    }
}
impl Clone for Q {
    fn clone(&self) -> Self {
        Q::new(&self.0)
    }
}
impl Drop for Q {
    fn drop(&mut self) {
        quiet(|| drop(core::mem::take(&mut self.0)))
    }
}
pub fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64 ^ b.len() as u64, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

/// Shows a difference between what was expected and what was seen.
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let lo = i.saturating_sub(4);
    let show = |x: &[u8]| {
        let hi = (i + 12).min(x.len());
        if lo >= hi {
            "(end)".to_string()
        } else {
            format!("..{:02x?}", &x[lo..hi])
        }
    };
    format!("expected {} bytes, found {}; first difference at {}: expected {} found {}", want.len(), got.len(), i, show(want), show(got))
}

/// Compares library-visible bytes with the oracle's (the read itself is part of the simulation).
#[track_caller]
pub fn check_bytes(what: &str, want: &[u8], got: &[u8]) {
    rt::check_read(got);
    let same = quiet(|| want == got);
    if !same {
        let m = quiet(|| format!("{what}: {}", diff(want, got)));
        rt::violation("content", &m);
    }
}

/// Deterministic source bytes: distinct enough that a shifted or swapped range is noticed.
pub fn gen_bytes(tag: u32, n: usize) -> Q {
    let mut v = Q::new(&[]);
    quiet(|| {
        for i in 0..n {
            v.0.push((tag as usize).wrapping_mul(37).wrapping_add(i.wrapping_mul(7)).wrapping_add((i / 11).wrapping_mul(5)) as u8);
        }
    });
    v
}
/// Text of exactly `n` bytes with characters of all widths (and line breaks and blanks).
pub fn gen_text(tag: u32, n: usize) -> Q {
    const P: [&str; 16] = ["a", "é", "b", "€", " ", "𝄞", "c", "ß", "\n", "d", "語", "e", "\u{2003}", "f", "🦀", "g"];
    // the ends of every range of code points, and everything that counts as a blank or a line break
    const E: [&str; 16] = [
        "\u{7f}", "\u{80}", "\r", "\u{7ff}", "\u{800}", "\u{d7ff}", "\n", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{a0}", "\u{10ffff}", "\0", "\u{3000}", "\t", "\u{85}",
    ];
    let mut v = Q::new(&[]);
    let ps = if tag % 4 == 3 { E } else { P };
    quiet(|| {
        let mut i = tag as usize;
        while v.0.len() < n {
            let p = ps[i * 5 % 16 ^ (i / 16) % 16].as_bytes();
            i += 1;
            if v.0.len() + p.len() <= n {
                v.0.extend_from_slice(p);
            } else {
                v.0.push(b'a' + (i % 26) as u8);
            }
        }
    });
    v
}
