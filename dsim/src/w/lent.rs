//! Data that is only lent for a while: a buffer is borrowed, cut, converted and queued, what remains is made independent
//! of it, and the buffer is then overwritten and released.
use super::handles::H;
use crate::rt::{self, w};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use bytes::{Buf, Bytes};
use std::borrow::Cow;

enum V<'l> {
    B(ByteData<'l>),
    S(StringData<'l>),
    Q(ByteQueue<'l>),
    T(StringQueue<'l>),
}

fn str_of(b: &[u8]) -> &str {
    core::str::from_utf8(b).unwrap_or("")
}
fn down(b: &[u8], mut i: usize) -> usize {
    while i > 0 && i < b.len() && b[i] & 0xC0 == 0x80 {
        i -= 1;
    }
    i
}
fn pieces<'l>(b: &'l [u8], text: bool) -> Vec<&'l [u8]> {
    rt::quiet(|| {
        let mut v = Vec::new();
        let mut at = 0;
        let n = w(4) as usize;
        for _ in 0..n {
            let k = at + w(40) as usize;
            let k = if text { down(b, k.min(b.len())) } else { k.min(b.len()) };
            if k > at {
                v.push(&b[at..k]);
                at = k;
            }
        }
        v.push(&b[at..]);
        v
    })
}
fn start<'l>(b: &'l [u8], text: bool) -> V<'l> {
    match w(if text { 9 } else { 6 }) {
        0 => V::B(ByteData::from_borrowed(b)),
        1 => V::B(ByteData::from(b)),
        2 => V::B(ByteData::from_cow(Cow::Borrowed(b))),
        3 => V::Q(ByteQueue::from(b)),
        4 => {
            let p = pieces(b, false);
            let mut q = ByteQueue::new();
            for x in p.iter() {
                q.push_back(ByteData::from_borrowed(x));
            }
            rt::quiet(|| drop(p));
            V::Q(q)
        }
        5 => V::B(ByteData::from_concat(&[b])),
        6 => V::S(StringData::from_borrowed(str_of(b))),
        7 => V::S(StringData::from(Cow::Borrowed(str_of(b)))),
        _ => {
            let p = pieces(b, true);
            let mut q = StringQueue::new();
            for x in p.iter() {
                q.push_back(StringData::from_borrowed(str_of(x)));
            }
            rt::quiet(|| drop(p));
            V::T(q)
        }
    }
}
/// Cuts to `x..y`.
fn cut<'l>(v: V<'l>, x: usize, y: usize) -> V<'l> {
    match v {
        V::B(mut d) => V::B(match w(8) {
            0 => d.sliced(x..y),
            1 => d.into_sliced(x..y),
            2 => {
                d.make_sliced(x..y);
                d
            }
            3 => d.clone().into_sliced(x..y),
            4 => {
                d.make_sliced(..y);
                let head = d.take_bytes(x);
                drop(head);
                d
            }
            5 => d.split_at(y).0.split_at(x).1,
            6 => {
                Buf::advance(&mut d, x);
                d.make_sliced(..y - x);
                d
            }
            _ => {
                let mut n = 0;
                let _ = ByteData::take_while(&mut d, |_| {
                    n += 1;
                    n <= x
                });
                d.into_sliced(0..y - x)
            }
        }),
        V::S(mut d) => V::S(match w(5) {
            0 => d.sliced(x..y),
            1 => d.into_sliced(x..y),
            2 => {
                d.make_sliced(x..y);
                d
            }
            3 => d.split_at(y).0.split_at(x).1,
            _ => d.clone().into_sliced(x..y),
        }),
        V::Q(mut d) => V::Q(match w(5) {
            0 => d.slice(x..y),
            1 => {
                d.consume(x);
                drop(d.split_off(y - x));
                d
            }
            2 => {
                drop(d.drain(..x));
                drop(d.drain(y - x..));
                d
            }
            3 => {
                Buf::advance(&mut d, x);
                d.slice(..y - x)
            }
            _ => {
                let mut r = d.split_off(x);
                drop(r.split_off(y - x));
                r
            }
        }),
        V::T(mut d) => V::T(match w(3) {
            0 => d.slice(x..y),
            1 => {
                drop(d.drain(y..));
                d.split_off(x)
            }
            _ => {
                drop(d.drain(..x));
                d.slice(..y - x)
            }
        }),
    }
}
fn conv<'l>(v: V<'l>, text: bool) -> V<'l> {
    match v {
        V::B(d) => match w(if text { 5 } else { 3 }) {
            0 => V::Q(ByteQueue::with_item(d)),
            1 => V::B(d.clone()),
            2 => match d.as_borrowed() {
                // the lifetime of what was lent, not that of the handle
                Some(s) => {
                    drop(d);
                    V::B(ByteData::from_borrowed(s))
                }
                None => V::B(d),
            },
            _ => match StringData::try_from_bytedata(d) {
                Ok(s) => V::S(s),
                Err(d) => V::B(d),
            },
        },
        V::S(d) => match w(4) {
            0 => V::B(d.into_bytedata()),
            1 => V::T(StringQueue::with_item(d)),
            2 => match d.as_borrowed() {
                Some(s) => {
                    drop(d);
                    V::S(StringData::from_borrowed(s))
                }
                None => V::S(d),
            },
            _ => match Cow::from(d) {
                Cow::Borrowed(s) => V::S(StringData::from_borrowed(s)),
                Cow::Owned(s) => V::S(StringData::from(s)),
            },
        },
        V::Q(mut d) => match w(3) {
            0 => V::B(ByteData::from(d)),
            1 if d.chunk_len() == 1 => match d.pop_back() {
                Some(x) => V::B(x),
                None => V::B(ByteData::empty()),
            },
            _ => V::Q(d.into_iter().collect()),
        },
        V::T(d) => match w(3) {
            0 => V::S(StringData::from(d)),
            1 => V::Q(d.into_bytequeue()),
            _ => {
                let mut q = StringQueue::new();
                q.extend(d.into_iter());
                V::T(q)
            }
        },
    }
}
/// What no longer depends on the buffer.
fn own(v: V<'_>, x: usize, y: usize) -> H {
    match v {
        V::B(d) => match w(6) {
            0 => H::Bd(d.into_shared().into_sliced(x..y)),
            1 => H::Bd(d.into_shared_range(x..y)),
            2 => H::Bd(d.sliced(x..y).into_shared()),
            3 => H::By(Bytes::from(d.into_sliced(x..y))),
            4 => H::V(Vec::from(d.sliced(x..y))),
            _ => {
                let mut d = d;
                H::By(d.split_at_bytes(x, y))
            }
        },
        V::S(d) => match w(4) {
            0 => H::Sd(d.into_shared().into_sliced(x..y)),
            1 => H::Sd(d.into_shared_range(x..y)),
            2 => H::Sd(d.sliced(x..y).into_shared()),
            _ => H::S(String::from(d.into_sliced(x..y))),
        },
        V::Q(d) => match w(5) {
            0 => {
                let mut q = ByteQueue::new();
                for c in d.slice(x..y) {
                    q.push_back(c.into_shared());
                }
                H::Q(q)
            }
            1 => H::V(Vec::from(d.slice(x..y))),
            2 => H::By(Bytes::from(d.slice(x..y))),
            3 => H::Bd(ByteData::from(d.slice(x..y)).into_shared()),
            _ => {
                let mut d = d;
                Buf::advance(&mut d, x);
                H::By(d.copy_to_bytes(y - x))
            }
        },
        V::T(d) => match w(3) {
            0 => {
                let mut q = StringQueue::new();
                for c in d.slice(x..y).into_iter() {
                    q.push_back(c.into_shared());
                }
                H::Sq(q)
            }
            1 => H::S(String::from(d.slice(x..y))),
            _ => H::Sd(StringData::from(d.slice(x..y)).into_shared()),
        },
    }
}
trait SplitAt {
    fn split_at_bytes(&mut self, x: usize, y: usize) -> Bytes;
}
impl SplitAt for ByteData<'_> {
    fn split_at_bytes(&mut self, x: usize, y: usize) -> Bytes {
        Buf::advance(self, x);
        self.copy_to_bytes(y - x)
    }
}

/// Lends `b` and gives back an independent handle on `a..e` of it.
pub fn lent(b: &[u8], text: bool, a: usize, e: usize) -> H {
    let mut v = start(b, text);
    let (mut lo, mut hi) = (0, b.len());
    for _ in 0..w(4) {
        if w(2) == 0 {
            v = conv(v, text);
            continue;
        }
        let mut x = lo + w((a - lo) as u32 + 1) as usize;
        let mut y = hi - w((hi - e) as u32 + 1) as usize;
        if text {
            x = down(b, x).max(lo);
            while y < hi && b[y] & 0xC0 == 0x80 {
                y += 1;
            }
        }
        v = cut(v, x - lo, y - lo);
        (lo, hi) = (x, y);
    }
    own(v, a - lo, e - lo)
}
