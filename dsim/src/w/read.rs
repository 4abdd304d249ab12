//! Reading (`Read`, `BufRead`, `Buf`) and HTTP bodies, over anything that offers them.
use super::common::*;
use super::queue::skip_of;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Unwound};
use bytes::Buf;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use std::io::{BufRead, IoSlice, IoSliceMut, Read};

const CANARY: u8 = 0xC5;

/// The caller's buffer: `m` bytes to be used, sometimes with more behind them that must stay as they are.
struct Room {
    v: Vec<u8>,
    m: usize,
}
impl Room {
    fn new(m: usize, more: bool) -> Room {
        // part of the simulation: an access behind the end of the exact ones is seen by the runtime
        Room { v: rt::nofault(|| vec![CANARY; m + if more { 24 } else { 0 }]), m }
    }
    fn room(&mut self) -> &mut [u8] {
        let m = self.m;
        &mut self.v[..m]
    }
    /// The first `k` bytes are `want`, the others untouched.
    fn check(&self, want: &[u8], k: usize) {
        check_bytes("bytes read", &want[..k], &self.v[..k]);
        if quiet(|| self.v[k..].iter().any(|b| *b != CANARY)) {
            viol!("read", "bytes of the caller's buffer behind the {} reported ones were changed", k);
        }
    }
}
fn size_for(c: u32, n: usize) -> usize {
    match c % 8 {
        0 => n,
        1 => n + 1 + (c as usize >> 3) % 40,
        2 => 0,
        3 => 1,
        4 => n.saturating_sub(1),
        _ => at_for(c >> 3, n + 1),
    }
}
/// One way of reading from `x`, which holds `want`.
pub fn step<X: Read + BufRead + Buf + Send>(what: &str, x: &mut X, want: &mut Q, c: [u32; 4], faulty: bool) {
    if rt::fault(fk::MIGRATE, 1) == 1 {
        return elsewhere(move || step1(what, x, want, c, faulty));
    }
    step1(what, x, want, c, faulty)
}
fn interrupted<X: Buf>(x: &X, want: &mut Q, atleast: usize) {
    let (n, left) = (want.len(), x.remaining());
    // what is left is the end of what there was
    if left > n || n - left < atleast {
        viol!("read", "an interrupted read left {} of {} bytes after giving {}", left, n, atleast);
    }
    want.cut(0, n - left);
}
/// When there is no room for what is read, it is still there: what is gone is what the caller has.
fn kept<X: Buf>(what: &str, x: &X, w: &[u8], got: &[u8]) {
    let left = x.remaining();
    if left > w.len() || w.len() - left != got.len() {
        viol!("read", "{} ran out of memory: {} of {} bytes are left, and {} were given", what, left, w.len(), got.len());
    }
    check_bytes("what a failed read gave", &w[..got.len()], got);
}
/// Only a failed allocation makes reading from memory fail.
fn failed(faulty: bool, e: std::io::Error) -> Result<usize, Unwound> {
    if !faulty || e.kind() != std::io::ErrorKind::OutOfMemory {
        viol!("read", "a read from memory failed");
    }
    quiet(|| drop(e));
    Err(Unwound::Alloc)
}
fn step1<X: Read + BufRead + Buf + Send>(what: &str, x: &mut X, want: &mut Q, c: [u32; 4], faulty: bool) {
    const NAMES: [&str; 18] = [
        "read", "read_vectored", "read_exact", "read_until", "read_to_end", "fill_buf and consume", "chunk and advance", "copy_to_slice",
        "copy_to_bytes", "numbers", "chunks_vectored", "limited reads", "read_line", "skip_until", "io::copy", "small reads", "has_remaining", "read_to_string",
    ];
    let n = want.len();
    let how = (c[0] >> 2) % 18;
    let m = size_for(c[1], n);
    let more = c[2] & 1 != 0;
    op!("{} of {}: {} bytes, {}", what, n, m, NAMES[how as usize]);
    if x.remaining() != n || x.has_remaining() != (n > 0) {
        viol!("count", "{} holds {} bytes and reports {} to read", what, n, x.remaining());
    }
    let w = want.clone();
    let w = w.b();
    // how many bytes go, by what the call reported
    let r: Result<usize, Unwound> = match how {
        0 => {
            let mut b = Room::new(m, more);
            let r = run_in(faulty, || x.read(b.room()));
            match r {
                Ok(Ok(k)) => {
                    if k > m.min(n) || (k == 0 && m != 0 && n != 0) {
                        viol!("read", "a read of {} bytes into a buffer of {} reported {}", n, m, k);
                    }
                    b.check(w, k);
                    Ok(k)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        1 => {
            // several buffers, one block: what lies behind each is the next one
            let mut b = Room::new(m, more);
            let cut = [c[2] as usize % (m + 1), c[3] as usize % (m + 1)];
            let (lo, hi) = (cut[0].min(cut[1]), cut[0].max(cut[1]));
            let r = if c[0] % 4 == 3 {
                // many small ones
                let step = 1 + c[2] as usize % 5 + m / 300;
                let mut bufs = quiet(|| b.room().chunks_mut(step).map(IoSliceMut::new).collect::<Vec<_>>());
                let r = run_in(faulty, || x.read_vectored(&mut bufs));
                quiet(|| drop(bufs));
                r
            } else {
                let (p, q) = b.room().split_at_mut(lo);
                let (q, s) = q.split_at_mut(hi - lo);
                let mut bufs = quiet(|| vec![IoSliceMut::new(p), IoSliceMut::new(q), IoSliceMut::new(&mut []), IoSliceMut::new(s)]);
                let r = run_in(faulty, || x.read_vectored(&mut bufs));
                quiet(|| drop(bufs));
                r
            };
            match r {
                Ok(Ok(k)) => {
                    if k > m.min(n) || (k == 0 && m != 0 && n != 0) {
                        viol!("read", "a vectored read of {} bytes into {} reported {}", n, m, k);
                    }
                    b.check(w, k);
                    Ok(k)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        2 => {
            let mut b = Room::new(m, more);
            match run_in(faulty, || x.read_exact(b.room())) {
                Ok(Ok(())) => {
                    if m > n {
                        viol!("read", "read_exact of {} bytes from {} succeeded", m, n);
                    }
                    b.check(w, m);
                    Ok(m)
                }
                Ok(Err(e)) => {
                    if m <= n {
                        viol!("read", "read_exact of {} bytes from {} failed", m, n);
                    }
                    quiet(|| drop(e));
                    // how much was read then is not specified
                    let left = x.remaining();
                    if left > n {
                        viol!("read", "a failed read_exact left {} of {} bytes", left, n);
                    }
                    Ok(n - left)
                }
                Err(u) => Err(u),
            }
        }
        3 | 13 => {
            let byte = if c[2] & 2 != 0 && n > 0 { w[c[1] as usize % n] } else { c[2] as u8 };
            let e = quiet(|| w.iter().position(|b| *b == byte)).map_or(n, |p| p + 1);
            let mut v = rt::nofault(|| vec![CANARY; 3]);
            let r = run_in(faulty, || if how == 3 { x.read_until(byte, &mut v) } else { x.skip_until(byte) });
            match r {
                Ok(Ok(k)) => {
                    if k != e {
                        viol!("read", "{} reported {} bytes, {} lie up to the one asked for", NAMES[how as usize], k, e);
                    }
                    check_bytes("what was there before", &[CANARY; 3], &v[..3]);
                    check_bytes("bytes read", if how == 3 { &w[..e] } else { &[] }, &v[3..]);
                    Ok(k)
                }
                Err(Unwound::Alloc) if how == 3 => {
                    kept(NAMES[how as usize], x, w, &v[3..]);
                    Err(Unwound::Alloc)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        4 | 14 => {
            let mut v = rt::nofault(|| if how == 4 { vec![CANARY; 3] } else { Vec::new() });
            let r = run_in(faulty, || if how == 4 { x.read_to_end(&mut v) } else { std::io::copy(x, &mut v).map(|k| k as usize) });
            match r {
                Ok(Ok(k)) => {
                    if k != n {
                        viol!("read", "{} reported {} of {} bytes", NAMES[how as usize], k, n);
                    }
                    check_bytes("bytes read", w, &v[if how == 4 { 3 } else { 0 }..]);
                    Ok(k)
                }
                Err(Unwound::Alloc) => {
                    kept(NAMES[how as usize], x, w, &v[if how == 4 { 3 } else { 0 }..]);
                    Err(Unwound::Alloc)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        5 => {
            let b = x.fill_buf();
            let l = match b {
                Ok(b) => {
                    if b.len() > n || (b.is_empty() && n != 0) {
                        viol!("read", "fill_buf shows {} of {} bytes", b.len(), n);
                    }
                    check_bytes("fill_buf", &w[..b.len()], b);
                    b.len()
                }
                Err(_) => viol!("read", "fill_buf from memory failed"),
            };
            let k = skip_of(c[1], l).min(l);
            run_in(faulty, || BufRead::consume(x, k)).map(|()| k)
        }
        6 => {
            let b = x.chunk();
            if b.len() > n || (b.is_empty() && n != 0) {
                viol!("read", "chunk() shows {} of {} bytes", b.len(), n);
            }
            check_bytes("chunk()", &w[..b.len()], b);
            let k = if c[2] & 4 != 0 { skip_of(c[1], n) } else { m.min(n) };
            match run_in(faulty, || x.advance(k)) {
                Ok(()) if k > n => viol!("not-refused", "advance({}) of {} bytes was accepted", k, n),
                Ok(()) => Ok(k),
                Err(Unwound::Lib(_)) if k > n => Ok(0),
                Err(u) => Err(u),
            }
        }
        7 => {
            let mut b = Room::new(m, more);
            match run_in(faulty, || x.copy_to_slice(b.room())) {
                Ok(()) if m > n => viol!("not-refused", "copy_to_slice of {} bytes from {} was accepted", m, n),
                Ok(()) => {
                    b.check(w, m);
                    Ok(m)
                }
                Err(Unwound::Lib(_)) if m > n => Ok(0),
                Err(u) => Err(u),
            }
        }
        8 => {
            // the caller's type, `Bytes`, does not survive failing allocations itself
            let k = skip_of(c[1], n);
            let lim = c[2] & 4 != 0;
            match rt::catch(|| without_drop_panics(|| rt::nofault(|| if lim { Buf::take(&mut *x, k).copy_to_bytes(k.min(n)) } else { x.copy_to_bytes(k) }))) {
                Ok(b) => {
                    if k > n && !lim {
                        viol!("not-refused", "copy_to_bytes({}) of {} bytes was accepted", k, n);
                    }
                    let k = k.min(n);
                    check_bytes("copy_to_bytes", &w[..k], &b);
                    if must_in(false, move || drop(b)).is_none() {
                        return interrupted(x, want, k);
                    }
                    Ok(k)
                }
                Err(Unwound::Lib(_)) if k > n => Ok(0),
                Err(u) => Err(u),
            }
        }
        9 => {
            let mut at = 0;
            let bad = std::cell::Cell::new(0usize);
            let r = run_in(faulty, || {
                for s in 0..1 + c[1] % 4 {
                    let (l, v, e) = match (c[2] >> s) % 5 {
                        0 if at + 1 <= n => (1, x.get_u8() as u128, w[at] as u128),
                        1 if at + 2 <= n => (2, x.get_u16() as u128, u16::from_be_bytes([w[at], w[at + 1]]) as u128),
                        2 if at + 4 <= n => (4, x.get_u32_le() as u128, u32::from_le_bytes(w[at..at + 4].try_into().unwrap()) as u128),
                        3 if at + 8 <= n => (8, x.get_u64() as u128, u64::from_be_bytes(w[at..at + 8].try_into().unwrap()) as u128),
                        4 if at + 16 <= n => (16, x.get_u128_le(), u128::from_le_bytes(w[at..at + 16].try_into().unwrap())),
                        _ => break,
                    };
                    at += l;
                    bad.set(at);
                    if v != e {
                        viol!("read", "a number of {} bytes read as {:x}, expected {:x}", l, v, e);
                    }
                }
            });
            match r {
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                Err(_) => return interrupted(x, want, bad.get()),
                Ok(()) => Ok(at),
            }
        }
        10 => {
            let mut d: Vec<IoSlice<'_>> = quiet(|| (0..c[1] as usize % 20).map(|_| IoSlice::new(&[])).collect());
            let k = x.chunks_vectored(&mut d);
            if k > d.len() {
                viol!("read", "chunks_vectored filled {} of {} slices", k, d.len());
            }
            let mut at = 0;
            for (i, s) in d.iter().enumerate() {
                if i >= k && !s.is_empty() {
                    viol!("read", "chunks_vectored set slice {} and reported {}", i, k);
                }
                if at + s.len() > n {
                    viol!("read", "chunks_vectored shows more than the {} bytes there are", n);
                }
                check_bytes("chunks_vectored", &w[at..at + s.len()], s);
                at += s.len();
            }
            if at == 0 && n > 0 && !d.is_empty() {
                viol!("read", "chunks_vectored shows nothing of {} bytes", n);
            }
            if k < d.len() && at != n {
                viol!("read", "chunks_vectored had {} slices to spare and shows {} of {} bytes", d.len() - k, at, n);
            }
            quiet(|| drop(d));
            // and what it showed is consumed
            run_in(faulty, || x.advance(at)).map(|()| at)
        }
        11 => {
            let mut v = rt::nofault(Vec::new);
            match run_in(faulty, || Read::take(&mut *x, m as u64).read_to_end(&mut v)) {
                Ok(Ok(k)) => {
                    if k != m.min(n) {
                        viol!("read", "a read limited to {} of {} bytes gave {}", m, n, k);
                    }
                    check_bytes("bytes read", &w[..k], &v);
                    Ok(k)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        12 | 17 => {
            // of text: a line, or all of it
            if !want.is_text() {
                return;
            }
            let e = if how == 17 { n } else { quiet(|| w.iter().position(|b| *b == b'\n')).map_or(n, |p| p + 1) };
            let mut s = String::new();
            match run_in(faulty, || if how == 17 { x.read_to_string(&mut s) } else { x.read_line(&mut s) }) {
                Ok(Ok(k)) => {
                    if k != e {
                        viol!("read", "{} gave {} bytes, expected {}", NAMES[how as usize], k, e);
                    }
                    check_bytes("text read", &w[..e], s.as_bytes());
                    Ok(k)
                }
                Ok(Err(e)) => failed(faulty, e),
                Err(u) => Err(u),
            }
        }
        15 => {
            // several small reads in a row
            let mut at = 0;
            for s in 0..1 + c[1] % 6 {
                let mut b = Room::new(1 + (c[2] as usize >> s) % 9, more);
                let r = run_in(faulty, || x.read(b.room()));
                match r {
                    Ok(Ok(k)) => {
                        if k > b.m.min(n - at) || (k == 0 && at < n) {
                            viol!("read", "a read of {} bytes into a buffer of {} reported {}", n - at, b.m, k);
                        }
                        b.check(&w[at..], k);
                        at += k;
                    }
                    Ok(Err(e)) => {
                        let _ = failed(faulty, e);
                        return interrupted(x, want, at);
                    }
                    Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                    Err(_) => return interrupted(x, want, at),
                }
            }
            Ok(at)
        }
        _ => {
            // over-reading is refused whatever the type asked for
            if n < 8 {
                match rt::catch(|| x.get_u64()) {
                    Ok(_) => viol!("not-refused", "eight bytes were read from {}", n),
                    Err(Unwound::Lib(_)) => {}
                    Err(_) => return interrupted(x, want, 0),
                }
            }
            Ok(0)
        }
    };
    match r {
        Ok(k) => {
            want.cut(0, k);
            if x.remaining() != want.len() {
                viol!("read", "{} bytes were reported read of {}, and {} are left", k, n, x.remaining());
            }
            if want.len() == 0 {
                // the end stays the end
                let mut b = Room::new(3, true);
                match run_in(faulty, || x.read(b.room())) {
                    Ok(Ok(0)) => b.check(&[], 0),
                    Ok(Ok(_)) => viol!("read", "reading at the end gave something"),
                    Ok(Err(e)) => drop(failed(faulty, e)),
                    Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                    Err(_) => {}
                }
            }
        }
        Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
        Err(_) => interrupted(x, want, 0),
    }
    let _ = model::hash;
}

// ------------------------------------------------------------------ HTTP bodies
/// What both versions of `Body` have in common.
trait Poller {
    type D: Buf + AsRef<[u8]> + Send;
    fn poll(&mut self) -> Poll<Option<Self::D>>;
    fn trailers(&mut self) -> bool;
    fn hint(&self) -> (u64, Option<u64>, Option<u64>);
    fn ended(&self) -> bool;
}
struct V4<'x, X>(&'x mut X);
struct V1<'x, X>(&'x mut X);
impl<X: http_body_04::Body<Error = core::convert::Infallible> + Unpin> Poller for V4<'_, X>
where
    X::Data: AsRef<[u8]> + Send,
{
    type D = X::Data;
    fn poll(&mut self) -> Poll<Option<X::Data>> {
        let mut cx = Context::from_waker(Waker::noop());
        Pin::new(&mut *self.0).poll_data(&mut cx).map(|o| o.map(|r| r.unwrap_or_else(|e| match e {})))
    }
    fn trailers(&mut self) -> bool {
        let mut cx = Context::from_waker(Waker::noop());
        match Pin::new(&mut *self.0).poll_trailers(&mut cx) {
            Poll::Ready(Ok(t)) => t.is_some(),
            Poll::Pending => true,
        }
    }
    fn hint(&self) -> (u64, Option<u64>, Option<u64>) {
        let h = self.0.size_hint();
        (h.lower(), h.upper(), h.exact())
    }
    fn ended(&self) -> bool {
        self.0.is_end_stream()
    }
}
impl<X: http_body_1::Body<Error = core::convert::Infallible> + Unpin> Poller for V1<'_, X>
where
    X::Data: AsRef<[u8]> + Send,
{
    type D = X::Data;
    fn poll(&mut self) -> Poll<Option<X::Data>> {
        let mut cx = Context::from_waker(Waker::noop());
        Pin::new(&mut *self.0).poll_frame(&mut cx).map(|o| {
            o.map(|r| match r.unwrap_or_else(|e| match e {}).into_data() {
                Ok(d) => d,
                Err(_) => viol!("body", "a frame without data"),
            })
        })
    }
    fn trailers(&mut self) -> bool {
        false
    }
    fn hint(&self) -> (u64, Option<u64>, Option<u64>) {
        let h = self.0.size_hint();
        (h.lower(), h.upper(), h.exact())
    }
    fn ended(&self) -> bool {
        self.0.is_end_stream()
    }
}
pub fn body4<X>(what: &str, x: &mut X, want: &mut Q, c: [u32; 4], faulty: bool)
where
    X: http_body_04::Body<Error = core::convert::Infallible> + Unpin + Send + Buf,
    X::Data: AsRef<[u8]> + Send,
{
    op!("poll {} of {} bytes as a body (0.4)", what, want.len());
    if rt::fault(fk::MIGRATE, 1) == 1 {
        return elsewhere(move || polls(&mut V4(x), want, c, faulty));
    }
    polls(&mut V4(x), want, c, faulty)
}
pub fn body1<X>(what: &str, x: &mut X, want: &mut Q, c: [u32; 4], faulty: bool)
where
    X: http_body_1::Body<Error = core::convert::Infallible> + Unpin + Send + Buf,
    X::Data: AsRef<[u8]> + Send,
{
    op!("poll {} of {} bytes as a body (1)", what, want.len());
    if rt::fault(fk::MIGRATE, 1) == 1 {
        return elsewhere(move || polls(&mut V1(x), want, c, faulty));
    }
    polls(&mut V1(x), want, c, faulty)
}
fn framing<P: Poller>(p: &P, n: usize) {
    let h = p.hint();
    let n64 = n as u64;
    if h != (n64, Some(n64), Some(n64)) {
        viol!("body", "a body of {} bytes reports the size {:?}", n, h);
    }
    if p.ended() != (n == 0) {
        viol!("body", "a body of {} bytes reports is_end_stream {}", n, p.ended());
    }
}
fn polls<P: Poller>(p: &mut P, want: &mut Q, c: [u32; 4], faulty: bool) {
    let times = match c[1] % 4 {
        0 => 1,
        1 => 2,
        2 => 100,
        _ => c[2] % 6,
    };
    let mut held: Vec<(P::D, Q)> = quiet(Vec::new);
    for s in 0..times {
        let n = want.len();
        framing(p, n);
        match run_in(faulty, || p.poll()) {
            Ok(Poll::Pending) => viol!("body", "a body in memory is pending"),
            Ok(Poll::Ready(None)) => {
                if n != 0 {
                    viol!("body", "a body ended with {} bytes to come", n);
                }
                for _ in 0..2 {
                    if !matches!(p.poll(), Poll::Ready(None)) {
                        viol!("body", "a body goes on after its end");
                    }
                }
                framing(p, 0);
                if p.trailers() {
                    viol!("body", "trailers nobody gave");
                }
                break;
            }
            Ok(Poll::Ready(Some(d))) => {
                let l = d.remaining();
                if l == 0 || l > n {
                    viol!("body", "a data frame of {} bytes with {} to come", l, n);
                }
                check_bytes("data frame", &want.b()[..l], d.as_ref());
                let w = want.cut(0, l);
                if (c[3] >> (s % 8)) & 1 == 0 {
                    quiet(|| held.push((d, w)));
                } else if (c[2] >> (s % 8)) & 1 == 0 {
                    let _ = must_in(false, move || drop(d));
                } else {
                    // another task writes the frame out
                    elsewhere(move || {
                        check_bytes("data frame", w.b(), d.as_ref());
                        let _ = must_in(false, move || drop(d));
                    })
                }
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                let left = p.hint().0 as usize;
                if left > n {
                    viol!("body", "an interrupted poll left {} of {} bytes", left, n);
                }
                want.cut(0, n - left);
            }
        }
    }
    framing(p, want.len());
    while let Some((d, w)) = quiet(|| held.pop()) {
        check_bytes("data frame kept", w.b(), d.as_ref());
        let _ = must_in(false, move || drop(d));
    }
    quiet(|| drop(held));
}
