//! The library without its `alloc` feature: data are static, borrowed or inline, and a queue has room for a fixed
//! number of chunks, beyond which it refuses.  Queues (C05, C06, C07), reading (C08), writing (C09), bodies (C10),
//! faulty caller code (C14), deserialising (C16) and views (C17).
use super::range::*;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use bytes::Buf;
use core::cell::Cell;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use serde::de::{self, Deserialize, Visitor};

/// A queue of bytes or of text, a view of bytes or of text.
enum H {
    Q(ByteQueue<'static>),
    T(StringQueue<'static>),
    B(ByteData<'static>),
    S(StringData<'static>),
}
impl H {
    fn is_text(&self) -> bool {
        matches!(self, H::T(_) | H::S(_))
    }
    fn len(&self) -> usize {
        match self {
            H::Q(q) => q.len(),
            H::T(q) => q.len(),
            H::B(d) => d.len(),
            H::S(d) => d.len(),
        }
    }
}
fn check_q(q: &ByteQueue<'_>, want: &[u8]) {
    let (mut p, mut n) = (0, 0);
    for c in q.chunks() {
        let c = c.as_slice();
        if c.is_empty() {
            viol!("content", "chunk {} of a queue is empty", n);
        }
        let e = (p + c.len()).min(want.len());
        check_bytes("queue", &want[p..e], c);
        p += c.len();
        n += 1;
    }
    if p != want.len() {
        viol!("content", "a queue of {} bytes has chunks of {} in all", want.len(), p);
    }
    if q.len() != p || q.is_empty() != (p == 0) || q.chunk_len() != n {
        viol!("length", "a queue of {} bytes in {} chunks reports {} in {} (empty: {})", p, n, q.len(), q.chunk_len(), q.is_empty());
    }
    let ends = (q.front().map(|x| x.as_slice()), q.back().map(|x| x.as_slice()));
    let it = (q.chunks().next().map(|x| x.as_slice()), q.chunks().last().map(|x| x.as_slice()));
    if ends != it {
        viol!("content", "front/back do not match the chunks");
    }
    if q.is_full() != (n >= CHUNKS) {
        viol!("length", "a queue of {} chunks reports is_full {}", n, q.is_full());
    }
}
/// Chunks a queue has room for.
const CHUNKS: usize = 23;

struct X {
    h: H,
    want: Q,
}
impl X {
    fn check(&self) {
        let w = self.want.b();
        match &self.h {
            H::Q(q) => check_q(q, w),
            H::T(q) => {
                check_q(q.as_bytequeue(), w);
                for c in q.chunks() {
                    if quiet(|| core::str::from_utf8(c.as_bytes()).is_err()) {
                        viol!("utf8", "a chunk of text is not text");
                    }
                }
            }
            H::B(d) => {
                check_bytes("view", w, d.as_slice());
                if d.len() != w.len() || d.is_empty() != w.is_empty() {
                    viol!("length", "a view of {} bytes reports {}", w.len(), d.len());
                }
            }
            H::S(d) => {
                check_bytes("view of text", w, d.as_bytes());
                if d.len() != w.len() || d.is_empty() != w.is_empty() {
                    viol!("length", "a view of {} bytes reports {}", w.len(), d.len());
                }
            }
        }
        rt::state(w.len() as u64 | (self.h.is_text() as u64) << 40);
    }
    fn chunks(&self) -> usize {
        match &self.h {
            H::Q(q) => q.chunk_len(),
            H::T(q) => q.chunk_len(),
            _ => 0,
        }
    }
}
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    c: [u32; 4],
}
struct M {
    x: Vec<X>,
    boxes: &'static [Mailbox<X>],
    cfg: &'static Cfg,
}
pub struct Cfg {
    /// weights of: push, pop, consume/take, slice, append/extend, split, replace, drain, iterate, chars, read, body, views, move, deserialise
    w: [u32; 15],
    panics: bool,
    text: u32,
}

fn small_len(c: u32) -> usize {
    if let Some(n) = rare_len(c) {
        return n;
    }
    const L: [usize; 16] = [3, 1, 2, 14, 15, 16, 5, 20, 0, 33, 13, 7, 24, 60, 4, 10];
    L[c as usize % 16]
}
fn data(c: u32, text: bool) -> (ByteData<'static>, Q) {
    let n = small_len(c);
    let want = if text { model::gen_text(next_tag(), n) } else { model::gen_bytes(next_tag(), n) };
    let s = leak_static(&want);
    let d = match c / 16 % 4 {
        0 => ByteData::from_static(s),
        1 => ByteData::from_borrowed(s),
        2 if n <= 14 => ByteData::from_chunk_slice(s),
        2 => ByteData::from(s),
        _ => {
            // a part of something longer
            let mut l = Q::new(&[b'x'; 20]);
            l.push(want.b());
            l.push(&[b'y'; 20]);
            ByteData::from_static(leak_static(&l)).into_sliced(20..20 + n)
        }
    };
    (d, want)
}
fn text_of(d: ByteData<'static>) -> StringData<'static> {
    match StringData::try_from_bytedata(d) {
        Ok(t) => t,
        Err(_) => viol!("utf8", "try_from_bytedata refused text"),
    }
}
fn prefix_or_suffix(got: &[u8], of: &[u8]) -> bool {
    quiet(|| of.starts_with(got) || of.ends_with(got))
}
fn flat(h: &H) -> Q {
    let mut v = Q::new(&[]);
    match h {
        H::Q(q) => q.chunks().for_each(|c| v.push(c.as_slice())),
        H::T(q) => q.byte_chunks().for_each(|c| v.push(c.as_slice())),
        H::B(d) => v.push(d.as_slice()),
        H::S(d) => v.push(d.as_bytes()),
    }
    v
}
/// A place in the text or bytes; on a character boundary if there have to be some.
fn place(c: u32, w: &Q, text: bool) -> usize {
    let mut a = at_for(c, w.len());
    while text && !w.boundary(a) {
        a -= 1;
    }
    a
}
fn span(c: [u32; 4], w: &Q, text: bool) -> (usize, usize) {
    let (a, b) = (place(c[1], w, text), place(c[2], w, text));
    (a.min(b), a.max(b))
}
impl M {
    fn add(&mut self, h: H, want: Q) {
        let x = X { h, want };
        x.check();
        quiet(|| self.x.push(x));
        if self.x.len() > 5 {
            let x = quiet(|| self.x.remove(0));
            x.check();
        }
    }
    /// An operation that may be refused for want of room (`room`: whether that cannot be).  Returns whether it was done.
    fn done(&mut self, i: usize, room: bool, old: Q, r: Result<(), Unwound>, extra: usize) -> bool {
        match r {
            Ok(()) => true,
            Err(Unwound::Lib(m)) => {
                if room || !quiet(|| m.contains("out of space")) {
                    viol!("panic", "unexpected panic with {} chunks and {} more: {}", self.x[i].chunks(), extra, m);
                }
                // what was accepted is a definite part of what was and was to be
                let got = flat(&self.x[i].h);
                let new = self.x[i].want.clone();
                if !prefix_or_suffix(got.b(), old.b()) && !prefix_or_suffix(got.b(), new.b()) {
                    viol!("content", "a queue that was full holds neither what it held nor what it was to hold: {}", model::diff(old.b(), got.b()));
                }
                self.x[i].want = got;
                self.x[i].check();
                false
            }
            Err(_) => {
                let got = flat(&self.x[i].h);
                let new = self.x[i].want.clone();
                if !prefix_or_suffix(got.b(), old.b()) && !prefix_or_suffix(got.b(), new.b()) {
                    viol!("content", "after a panic of the caller's: {}", model::diff(old.b(), got.b()));
                }
                self.x[i].want = got;
                self.x[i].check();
                false
            }
        }
    }
    fn push(&mut self, i: usize, o: &Op) {
        let text = self.x[i].h.is_text();
        for k in 0..if o.c[3] % 8 == 0 { 1 + o.c[2] % 26 } else { 1 } {
            let (d, w) = data(o.c[0] + k * 7, text);
            let front = (o.c[1] + k) % 3 == 0;
            let full = self.x[i].chunks() >= CHUNKS && !w.b().is_empty();
            let old = self.x[i].want.clone();
            op!("push {} bytes at the {} of {} in {} chunks", w.len(), if front { "front" } else { "back" }, old.len(), self.x[i].chunks());
            let x = &mut self.x[i];
            let r = rt::catch(|| match &mut x.h {
                H::Q(q) if front => q.push_front(d),
                H::Q(q) => q.push_back(d),
                H::T(q) if front => q.push_front(text_of(d)),
                H::T(q) => q.push_back(text_of(d)),
                _ => {}
            });
            if matches!(x.h, H::B(_) | H::S(_)) {
                return;
            }
            if full && r.is_ok() {
                viol!("content", "a full queue accepted a chunk");
            }
            if r.is_ok() {
                if front {
                    x.want.prepend(w.b())
                } else {
                    x.want.push(w.b())
                }
            }
            self.done(i, !full, old, r, 1);
            self.x[i].check();
        }
    }
    fn pop(&mut self, i: usize, o: &Op) {
        let x = &mut self.x[i];
        let back = o.c[0] & 1 == 0;
        op!("pop from the {} of {}", if back { "back" } else { "front" }, x.want.len());
        let got = match &mut x.h {
            H::Q(q) => (if back { q.pop_back() } else { q.pop_front() }).map(H::B),
            H::T(q) => (if back { q.pop_back() } else { q.pop_front() }).map(H::S),
            _ => return,
        };
        let n = x.want.len();
        match got {
            None if n != 0 => viol!("content", "a queue of {} bytes popped nothing", n),
            None => {}
            Some(h) => {
                let l = h.len();
                if l == 0 || l > n {
                    viol!("content", "{} bytes popped from {}", l, n);
                }
                let w = if back { x.want.cut(n - l, n) } else { x.want.cut(0, l) };
                x.check();
                self.add(h, w);
            }
        }
    }
    fn take(&mut self, i: usize, o: &Op) {
        let panics = self.cfg.panics;
        let x = &mut self.x[i];
        let old = x.want.clone();
        let text = x.h.is_text();
        let k = place(o.c[1], &old, text);
        op!("take {} of {}", k, old.len());
        let how = o.c[0] % 3;
        let mut at = 0;
        let mut pred = |l: usize| {
            if panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(700);
            }
            at += l;
            at <= k
        };
        let r = rt::catch(|| match &mut x.h {
            H::Q(q) if how == 0 => {
                q.consume(k);
                None
            }
            H::Q(q) => Some(H::Q(q.take_while(|_| pred(1)))),
            H::T(q) if how == 0 => Some(H::T(q.take_line())),
            H::T(q) => Some(H::T(q.take_while(|c| pred(c.len_utf8())))),
            H::B(d) if how == 0 => Some(H::B(d.take_bytes(k))),
            H::B(d) => Some(H::B(d.take_while(|_| pred(1)))),
            H::S(d) if how == 0 => Some(H::S(d.take_line())),
            H::S(d) => Some(H::S(d.take_while(|c| pred(c.len_utf8())))),
        });
        let k = if text && how == 0 { quiet(|| old.b().iter().position(|&b| b == b'\n').map_or(old.len(), |p| p + 1)) } else { k };
        match r {
            Ok(t) => {
                let w = x.want.cut(0, k);
                x.check();
                if let Some(t) = t {
                    self.add(t, w);
                }
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => x.check(),
        }
    }
    fn slice(&mut self, i: usize, o: &Op) {
        let x = &mut self.x[i];
        let (text, n) = (x.h.is_text(), x.want.len());
        let rg = if o.c[3] % 3 == 0 {
            range_for([o.c[0], o.c[1], o.c[2]], n, true)
        } else {
            let (a, b) = span(o.c, &x.want, text);
            Rg { form: 0, a, b }
        };
        let w = rg.resolve(n).filter(|&(a, b)| !text || (x.want.boundary(a) && x.want.boundary(b)));
        op!("slice {} of {}", rg, n);
        let how = o.c[0] / 16 % 3;
        // the containers keep the range types of the standard library's slices
        if rg.form > 5 && matches!(x.h, H::B(_) | H::S(_)) {
            return;
        }
        macro_rules! std_range {
            (|$r:ident| $e:expr) => {
                match rg.form {
                    0 => { let $r = rg.a..rg.b; $e }
                    1 => { let $r = rg.a..; $e }
                    2 => { let $r = ..rg.b; $e }
                    3 => { let $r = ..; $e }
                    4 => { let $r = rg.a..=rg.b; $e }
                    _ => { let $r = ..=rg.b; $e }
                }
            };
        }
        let r = rt::catch(|| match &mut x.h {
            H::Q(q) => Some(H::Q(with_range!(rg, |r| q.slice(r)))),
            H::T(q) => Some(H::T(with_range!(rg, |r| q.slice(r)))),
            H::B(d) => match how {
                0 => Some(H::B(std_range!(|r| d.sliced(r)))),
                1 => Some(H::B(std_range!(|r| d.clone().into_sliced(r)))),
                _ => {
                    std_range!(|r| d.make_sliced(r));
                    None
                }
            },
            H::S(d) => match how {
                0 => Some(H::S(std_range!(|r| d.sliced(r)))),
                1 => Some(H::S(std_range!(|r| d.clone().into_sliced(r)))),
                _ => {
                    std_range!(|r| d.make_sliced(r));
                    None
                }
            },
        });
        match (r, w) {
            (Ok(h), Some((a, b))) => {
                let w = x.want.sub(a, b);
                match h {
                    Some(h) => {
                        x.check();
                        self.add(h, w)
                    }
                    None => {
                        x.want = w;
                        x.check();
                    }
                }
            }
            (Ok(_), None) => viol!("range", "{} of {} bytes was not refused", rg, n),
            (Err(Unwound::Lib(m)), Some(_)) => viol!("panic", "{} of {} bytes was refused: {}", rg, n, m),
            _ => x.check(),
        }
    }
    fn append(&mut self, i: usize, o: &Op) {
        if !matches!(self.x[i].h, H::Q(_) | H::T(_)) {
            return;
        }
        let text = self.x[i].h.is_text();
        let old = self.x[i].want.clone();
        let mut new = old.clone();
        let (r, extra);
        if o.c[0] % 2 == 0 {
            let Some(j) = (0..self.x.len()).find(|&j| j != i && matches!((&self.x[j].h, text), (H::Q(_), false) | (H::T(_), true))) else { return };
            let y = quiet(|| self.x.remove(j));
            let i = if j < i { i - 1 } else { i };
            extra = y.chunks();
            op!("append {} bytes in {} chunks to {} in {}", y.want.len(), extra, old.len(), self.x[i].chunks());
            new.push(y.want.b());
            let room = self.x[i].chunks() + extra <= CHUNKS;
            let x = &mut self.x[i];
            r = rt::catch(|| match (&mut x.h, y.h) {
                (H::Q(q), H::Q(p)) => q.append(p),
                (H::T(q), H::T(p)) => q.extend(p),
                _ => {}
            });
            x.want = new;
            self.done(i, room, old, r, extra);
            self.x[i].check();
            return;
        }
        let n = o.c[2] as usize % 27;
        let mut items = quiet(Vec::new);
        for k in 0..n {
            let (d, w) = data(o.c[1] + k as u32 * 3, text);
            quiet(|| items.push(d));
            new.push(w.b());
        }
        extra = items.iter().filter(|d| !d.is_empty()).count();
        op!("extend {} in {} chunks by {}", old.len(), self.x[i].chunks(), extra);
        let panics = self.cfg.panics;
        let room = self.x[i].chunks() + extra <= CHUNKS;
        let x = &mut self.x[i];
        let it = items.iter().map(|d| {
            if panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(701);
            }
            d.clone()
        });
        r = rt::catch(|| match &mut x.h {
            H::Q(q) => q.extend(it),
            H::T(q) => q.extend(it.map(text_of)),
            _ => {}
        });
        if matches!(x.h, H::Q(_) | H::T(_)) {
            x.want = new;
            self.done(i, room, old, r, extra);
        }
        quiet(|| drop(items));
        self.x[i].check();
    }
    fn split(&mut self, i: usize, o: &Op) {
        let x = &mut self.x[i];
        let text = x.h.is_text();
        let n = x.want.len();
        let bad = o.c[3] % 5 == 0;
        let k = if bad { at_for(o.c[1], n + 2) } else { place(o.c[1], &x.want, text) };
        let ok = k <= n && (!text || x.want.boundary(k));
        op!("split {} at {}", n, k);
        let r = match &mut x.h {
            H::Q(q) => rt::catch(|| H::Q(q.split_off(k))),
            H::T(q) => rt::catch(|| H::T(q.split_off(k))),
            H::B(d) => {
                let c = d.clone();
                rt::catch(|| {
                    let (a, b) = c.split_at(k);
                    *d = a;
                    H::B(b)
                })
            }
            H::S(d) => {
                let c = d.clone();
                rt::catch(|| {
                    let (a, b) = c.split_at(k);
                    *d = a;
                    H::S(b)
                })
            }
        };
        match r {
            Ok(_) if !ok => viol!("range", "a split of {} bytes at {} was not refused", n, k),
            Ok(h) => {
                let w = x.want.cut(k, n);
                x.check();
                self.add(h, w);
            }
            Err(Unwound::Lib(m)) if ok => viol!("panic", "a split of {} bytes at {} was refused: {}", n, k, m),
            Err(_) => x.check(),
        }
    }
    fn replace(&mut self, i: usize, o: &Op) {
        let text = self.x[i].h.is_text();
        let old = self.x[i].want.clone();
        let n = old.len();
        let (a, b) = span(o.c, &old, text);
        let (d, w) = data(o.c[0], text);
        let chunks = self.x[i].chunks();
        op!("replace {}..{} of {} in {} chunks by {} bytes", a, b, n, chunks, w.len());
        let x = &mut self.x[i];
        let r = rt::catch(|| match &mut x.h {
            H::Q(q) => q.replace_range(a..b, d),
            H::T(q) => q.replace_range(a..b, text_of(d)),
            _ => {}
        });
        if matches!(x.h, H::Q(_) | H::T(_)) {
            x.want.splice(a, b, w.b());
            self.done(i, chunks + 2 <= CHUNKS, old, r, 2);
        }
        self.x[i].check();
    }
    fn drain(&mut self, i: usize, o: &Op) {
        let text = self.x[i].h.is_text();
        let old = self.x[i].want.clone();
        let n = old.len();
        let (a, b) = span(o.c, &old, text);
        let chunks = self.x[i].chunks();
        let take = o.c[3] as usize % 24;
        op!("drain {}..{} of {} in {} chunks, {} steps", a, b, n, chunks, take);
        let x = &mut self.x[i];
        let part = old.sub(a, b);
        let part = &part;
        let r = rt::catch(|| match &mut x.h {
            H::Q(q) => {
                let mut it = q.drain(a..b);
                walk(&mut it, part, take, o.c[0]);
            }
            H::T(q) => {
                let all = chars_of(part);
                let mut it = q.drain(a..b);
                for k in 0..take {
                    let (g, e) = (it.next(), all.get(k).map(|x| x.1));
                    if g != e {
                        viol!("iterator", "a drain gave {:?} instead of {:?}", g, e);
                    }
                }
            }
            _ => {}
        });
        if matches!(x.h, H::Q(_) | H::T(_)) {
            x.want.cut(a, b);
            self.done(i, chunks + 1 <= CHUNKS, old, r, 1);
        }
        self.x[i].check();
    }
    fn iterate(&mut self, i: usize, o: &Op) {
        let take = o.c[1] as usize % 40;
        let by_value = o.c[0] % 4 == 3;
        op!("iterate over {} bytes ({} steps, kind {})", self.x[i].want.len(), take, o.c[0] % 4);
        if by_value && matches!(self.x[i].h, H::Q(_) | H::T(_)) {
            let x = quiet(|| self.x.remove(i));
            let mut left = x.chunks();
            let mut w = x.want;
            let text = x.h.is_text();
            macro_rules! chunks {
                ($it:expr, $bytes:ident, $collect:expr) => {{
                    let mut it = $it;
                    for k in 0..take % 26 {
                        let n = w.len();
                        let back = o.c[2] >> (k % 12) & 1 != 0;
                        match if back { it.next_back() } else { it.next() } {
                            Some(d) => {
                                let l = d.len();
                                if left == 0 || l == 0 || l > n {
                                    viol!("iterator", "a chunk of {} bytes of {} to come", l, n);
                                }
                                left -= 1;
                                let e = if back { w.cut(n - l, n) } else { w.cut(0, l) };
                                check_bytes("chunk", e.b(), d.$bytes());
                            }
                            None if left != 0 => viol!("iterator", "chunks ended with {} to come", left),
                            None => {}
                        }
                        if it.len() != left || it.size_hint() != (left, Some(left)) {
                            viol!("iterator", "{} chunks to come are reported as {}", left, it.len());
                        }
                    }
                    if o.c[3] & 1 == 0 {
                        self.add($collect(it), w);
                    }
                }};
            }
            match x.h {
                H::Q(q) if o.c[3] % 3 == 2 => {
                    let mut it = q.into_bytes();
                    walk(&mut it, &w, take, o.c[2]);
                }
                H::Q(q) => chunks!(q.into_iter(), as_slice, |it| H::Q(ByteQueue::from_iter(it))),
                H::T(q) if o.c[3] % 3 == 2 => {
                    let all = chars_of(&w);
                    let mut it = q.into_chars();
                    for k in 0..take {
                        let (g, e) = (it.next(), all.get(k).map(|x| x.1));
                        if g != e {
                            viol!("iterator", "into_chars gave {:?} instead of {:?}", g, e);
                        }
                    }
                }
                H::T(q) => chunks!(q.into_iter(), as_bytes, |it| H::T(StringQueue::from_iter(it))),
                _ => {}
            }
            let _ = text;
            return;
        }
        let x = &self.x[i];
        match &x.h {
            H::Q(q) if o.c[0] % 2 == 0 => {
                let mut it = q.bytes();
                let a = at_for(o.c[2], x.want.len() + 3);
                let l = at_for(o.c[3] * 5, x.want.len() + 2);
                let n = x.want.len();
                if o.c[0] & 8 != 0 {
                    it = it.skip(a).take(l);
                    let (s, e) = (a.min(n), a.saturating_add(l).min(n));
                    walk(&mut it, &x.want.sub(s, e.max(s)), take, o.c[1]);
                } else {
                    walk(&mut it, &x.want, take, o.c[1]);
                }
            }
            H::Q(q) => {
                let n = q.chunk_len();
                let mut it = q.chunks();
                let k = o.c[2] as usize % (n + 2);
                it.skip_mut(k);
                let left = n.saturating_sub(k);
                if it.len() != left {
                    viol!("iterator", "{} of {} chunks skipped, {} reported to come", k, n, it.len());
                }
                let want = quiet(|| q.chunks().collect::<Vec<_>>());
                let got = quiet(|| it.collect::<Vec<_>>());
                if quiet(|| want[k.min(n)..].iter().map(|x| x.as_slice()).ne(got.iter().map(|x| x.as_slice()))) {
                    viol!("iterator", "skipping {} of {} chunks went to the wrong place", k, n);
                }
                quiet(|| drop((want, got)));
            }
            H::T(q) => {
                let all = chars_of(&x.want);
                let mut it = q.chars_indecies();
                for k in 0..take {
                    let (g, e) = (it.next(), all.get(k).copied());
                    if g != e {
                        viol!("iterator", "chars_indecies gave {:?} instead of {:?}", g, e);
                    }
                }
                if o.c[2] & 1 == 0 {
                    let g = q.chars().count();
                    if g != all.len() {
                        viol!("iterator", "{} characters were counted as {}", all.len(), g);
                    }
                }
            }
            _ => {}
        }
        x.check();
    }
    fn read(&mut self, i: usize, o: &Op) {
        let x = &mut self.x[i];
        let n = x.want.len();
        let k = at_for(o.c[1], n);
        macro_rules! buf {
            ($b:expr) => {{
                let b = $b;
                if b.remaining() != n || b.has_remaining() != (n > 0) {
                    viol!("read", "{} bytes to read are reported as {}", n, b.remaining());
                }
                let c = b.chunk();
                if (c.is_empty() && n > 0) || c.len() > n {
                    viol!("read", "a chunk of {} bytes of {}", c.len(), n);
                }
                check_bytes("chunk to read", &x.want.b()[..c.len()], c);
                match o.c[0] % 3 {
                    0 => {
                        op!("advance by {} of {}", k, n);
                        b.advance(k);
                    }
                    1 => {
                        op!("copy {} of {} to a slice", k, n);
                        let mut v = quiet(|| vec![0u8; k]);
                        b.copy_to_slice(&mut v);
                        check_bytes("bytes read", &x.want.b()[..k], &v);
                        quiet(|| drop(v));
                    }
                    _ => {
                        op!("copy {} of {} to Bytes", k, n);
                        let v = b.copy_to_bytes(k);
                        check_bytes("bytes read", &x.want.b()[..k], &v);
                    }
                }
            }};
        }
        match &mut x.h {
            H::Q(q) => buf!(q),
            H::B(d) => buf!(d),
            _ => return,
        }
        x.want.cut(0, k);
        x.check();
    }
    fn body(&mut self, i: usize, o: &Op) {
        let x = &mut self.x[i];
        let mut cx = Context::from_waker(Waker::noop());
        for _ in 0..1 + o.c[1] % 4 {
            let n = x.want.len();
            op!("poll a body of {}", n);
            fn hint(n: usize, h: (u64, Option<u64>), end: bool) {
                if h != (n as u64, Some(n as u64)) || end != (n == 0) {
                    viol!("body", "a body of {} bytes reports {:?}, end {}", n, h, end);
                }
            }
            fn one<B: http_body_1::Body<Error = core::convert::Infallible> + Unpin>(b: &mut B, n: usize, cx: &mut Context<'_>) -> Option<B::Data> {
                let h = b.size_hint();
                hint(n, (h.lower(), h.upper()), b.is_end_stream());
                match Pin::new(b).poll_frame(cx) {
                    Poll::Pending => viol!("body", "a body is not ready"),
                    Poll::Ready(None) => None,
                    Poll::Ready(Some(Err(e))) => match e {},
                    Poll::Ready(Some(Ok(f))) => match f.into_data() {
                        Ok(d) => Some(d),
                        Err(_) => viol!("body", "a frame that is not data"),
                    },
                }
            }
            fn old<B: http_body_04::Body<Error = core::convert::Infallible> + Unpin>(b: &mut B, n: usize, cx: &mut Context<'_>) -> Option<B::Data> {
                let h = b.size_hint();
                hint(n, (h.lower(), h.upper()), b.is_end_stream());
                match Pin::new(b).poll_data(cx) {
                    Poll::Pending => viol!("body", "a body is not ready"),
                    Poll::Ready(None) => None,
                    Poll::Ready(Some(Err(e))) => match e {},
                    Poll::Ready(Some(Ok(d))) => Some(d),
                }
            }
            let d = match &mut x.h {
                H::Q(q) => one(q, n, &mut cx),
                H::B(d) if o.c[0] & 1 == 0 => one(d, n, &mut cx),
                H::B(d) => old(d, n, &mut cx),
                _ => return,
            };
            match d {
                None if n > 0 => viol!("body", "a body of {} bytes ended", n),
                None => {}
                Some(d) => {
                    if d.is_empty() || d.len() > n {
                        viol!("body", "a frame of {} bytes of {}", d.len(), n);
                    }
                    let w = x.want.cut(0, d.len());
                    check_bytes("frame", w.b(), d.as_slice());
                }
            }
            x.check();
        }
    }
    fn make(&mut self, o: &Op) {
        let text = o.c[0] % 3 < self.cfg.text;
        let (d, w) = data(o.c[1], text);
        op!("new {} of {} bytes, kind {}", if text { "text" } else { "data" }, w.len(), o.c[2] % 6);
        let h = match (o.c[2] % 6, text) {
            (0, false) => H::Q(ByteQueue::with_item(d)),
            (1 | 4, false) => H::Q(ByteQueue::from(d)),
            (2 | 5, false) => {
                return self.add(H::Q(ByteQueue::new()), Q::new(&[]));
            }
            (_, false) => H::B(d),
            (0, true) => H::T(StringQueue::with_item(text_of(d))),
            (1 | 4, true) => H::T(StringQueue::from(text_of(d))),
            (2 | 5, true) => {
                return self.add(H::T(StringQueue::new()), Q::new(&[]));
            }
            (_, true) => H::S(text_of(d)),
        };
        self.add(h, w);
    }
    fn view(&mut self, i: usize, o: &Op) {
        let x = &self.x[i];
        let w = x.want.clone();
        op!("copy or turn into something else, {} bytes", w.len());
        let h = match &x.h {
            H::Q(q) => H::Q(q.clone()),
            H::T(q) if o.c[0] & 1 == 0 => H::T(q.clone()),
            H::T(q) => H::Q(q.clone().into_bytequeue()),
            H::B(d) if o.c[0] & 1 == 0 => H::B(d.clone()),
            H::B(d) if o.c[0] & 2 == 0 => H::B(d.clone().statically_borrowed()),
            H::B(d) => H::B(ByteData::from_iter_of(d)),
            H::S(d) if o.c[0] & 1 == 0 => {
                let (a, b, c) = (d.trim(), d.trim_start(), d.trim_end());
                let s = w.s();
                check_bytes("trim", s.trim().as_bytes(), a.as_bytes());
                check_bytes("trim_start", s.trim_start().as_bytes(), b.as_bytes());
                check_bytes("trim_end", s.trim_end().as_bytes(), c.as_bytes());
                H::S(d.clone())
            }
            H::S(d) => H::B(d.clone().into_bytedata()),
        };
        x.check();
        self.add(h, w);
    }
    fn step(&mut self, o: &Op) {
        if self.x.is_empty() || o.k % 16 == 15 {
            self.make(o);
        }
        let tot: u32 = self.cfg.w.iter().sum();
        let mut k = (o.k >> 4) % tot;
        let mut what = 0;
        while k >= self.cfg.w[what] {
            k -= self.cfg.w[what];
            what += 1;
        }
        let i = o.k as usize % self.x.len();
        match what {
            0 => self.push(i, o),
            1 => self.pop(i, o),
            2 => self.take(i, o),
            3 => self.slice(i, o),
            4 => self.append(i, o),
            5 => self.split(i, o),
            6 => self.replace(i, o),
            7 => self.drain(i, o),
            8 => self.iterate(i, o),
            9 => self.iterate(i, o),
            10 => self.read(i, o),
            11 => self.body(i, o),
            12 => self.view(i, o),
            14 => self.deserialise(o),
            _ if o.c[0] & 1 == 0 => {
                let x = quiet(|| self.x.remove(i));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.boxes.len();
                op!("send {} bytes to T{}", x.want.len(), to);
                self.boxes[to].send(x);
            }
            _ => {
                op!("receive");
                if let Some(x) = self.boxes[rt::tid() as usize].try_recv() {
                    x.check();
                    self.add(x.h, x.want);
                }
            }
        }
    }
    /// Bytes or text as some format delivers them.
    fn deserialise(&mut self, o: &Op) {
        let text = o.c[3] & 1 != 0;
        let n = small_len(o.c[0]);
        let want = if text || o.c[3] % 4 == 0 { model::gen_text(next_tag(), n) } else { model::gen_bytes(next_tag(), n) };
        let as_text = text || o.c[3] % 4 == 0;
        let mode = o.c[1] % if as_text { 6 } else { 3 };
        // 0 as it is, 1 for ever, 2 perhaps
        let how = o.c[2] % 3;
        let opt = o.c[2] / 3 % 4;
        let st = Cell::new(false);
        let de = De { data: leak_static(&want), mode, opt, failed: &st };
        op!("deserialise {} bytes as {}, delivered in way {} ({} {})", want.len(), if text { "text" } else { "bytes" }, mode, how, opt);
        let r = match (text, how) {
            (false, 0) => ByteData::deserialize(de).map(|d| Some(H::B(d))),
            (false, 1) => ByteData::deserialize_static(de).map(|d| Some(H::B(d))),
            (false, _) => ByteData::deserialize_static_opt(de).map(|d| d.map(H::B)),
            (true, 0) => StringData::deserialize(de).map(|d| Some(H::S(d))),
            (true, 1) => StringData::deserialize_static(de).map(|d| Some(H::S(d))),
            (true, _) => StringData::deserialize_static_opt(de).map(|d| d.map(H::S)),
        };
        let lasting = how == 0 && mode % 3 == 0;
        let must = (text == (mode >= 3)) && (lasting || n <= 14);
        match r {
            Ok(_) if st.get() => viol!("stream", "the failure of the format was not reported"),
            Ok(None) if how == 2 && opt >= 2 => {}
            Ok(None) => viol!("content", "a value was delivered and none deserialised"),
            Ok(Some(_)) if how == 2 && opt >= 2 => viol!("content", "no value was delivered and one deserialised"),
            Ok(Some(h)) => self.add(h, want),
            Err(E::Stream) if !st.get() => viol!("stream", "a failure appeared from nowhere"),
            Err(E::Lib) if st.get() => viol!("stream", "the failure of the format was replaced"),
            Err(E::Lib) if must || (how == 2 && opt >= 2) => {
                viol!("stream", "{} bytes, delivered in way {}, were refused", n, mode)
            }
            Err(_) => {}
        }
    }
    fn finish(mut self) {
        while let Some(x) = quiet(|| self.x.pop()) {
            x.check();
            drop(x);
        }
        quiet(|| drop(core::mem::take(&mut self.x)));
    }
}
#[derive(Debug)]
enum E {
    Stream,
    Lib,
}
impl core::fmt::Display for E {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> E {
        E::Lib
    }
}
/// One item of a stream: bytes (lasting, transient, owned) or text (likewise); for an optional one: as itself, as
/// some, none, unit.
#[derive(Clone, Copy)]
struct De<'t> {
    data: &'static [u8],
    mode: u32,
    opt: u32,
    failed: &'t Cell<bool>,
}
/// A buffer of the format's own: overwritten and gone once the visitor has returned.
struct Tmp(Vec<u8>);
impl Drop for Tmp {
    fn drop(&mut self) {
        rt::point();
        self.0.fill(b'!');
    }
}
impl De<'_> {
    fn trouble(&self) -> Result<(), E> {
        if rt::fault_often(fk::STREAM_ERR, 1) == 1 {
            self.failed.set(true);
            return Err(E::Stream);
        }
        Ok(())
    }
    fn deliver<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> {
        self.trouble()?;
        let t = Tmp(quiet(|| self.data.to_vec()));
        fn text(b: &[u8]) -> &str {
            unsafe { core::str::from_utf8_unchecked(b) }
        }
        let r = match self.mode {
            0 => v.visit_borrowed_bytes(self.data),
            1 => v.visit_bytes(&t.0),
            2 => v.visit_byte_buf(t.0.clone()),
            3 => v.visit_borrowed_str(text(self.data)),
            4 => v.visit_str(text(&t.0)),
            _ => v.visit_string(text(self.data).into()),
        }?;
        drop(t);
        // the format may find out later that the item was broken
        self.trouble()?;
        Ok(r)
    }
}
impl de::Deserializer<'static> for De<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, E> {
        match self.opt {
            0 => self.deliver(v),
            1 => v.visit_some(self),
            2 => v.visit_none(),
            _ => v.visit_unit(),
        }
    }
    serde::forward_to_deserialize_any! {
        <W: Visitor<'static>>
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq
        tuple tuple_struct map struct enum identifier ignored_any
    }
}
trait FromIterOf {
    fn from_iter_of(d: &ByteData<'static>) -> ByteData<'static>;
}
impl FromIterOf for ByteData<'static> {
    /// The same through a queue of one-byte views (if they fit).
    fn from_iter_of(d: &ByteData<'static>) -> ByteData<'static> {
        let n = d.len();
        let (a, b) = d.clone().split_at(n / 2);
        let q: ByteQueue<'static> = [a, b].into_iter().collect();
        check_q(&q, d.as_slice());
        d.clone()
    }
}
fn chars_of(w: &Q) -> &'static [(usize, char)] {
    let s = w.s();
    quiet(|| Box::leak(s.char_indices().collect::<Vec<_>>().into_boxed_slice()))
}
fn walk(it: &mut impl ExactSizeIterator<Item = u8>, w: &Q, steps: usize, c: u32) {
    let mut p = 0;
    for s in 0..steps {
        let left = w.len() - p;
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            viol!("iterator", "{} bytes to come are reported as {}", left, it.len());
        }
        let k = if (c >> (s % 11)) & 1 != 0 { c as usize % 17 } else { 0 };
        let g = if k > 0 { it.nth(k) } else { it.next() };
        let e = w.b().get(p + k).copied();
        if g != e {
            viol!("iterator", "byte {} came out as {:?} instead of {:?}", p + k, g, e);
        }
        p = (p + k + 1).min(w.len());
    }
}
fn go(cfg: &'static Cfg) {
    rt::profile(rt::PF_GEN);
    let nthr = 1 + rt::w(2) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| {
        (0..nthr)
            .map(|_| {
                let mut v = Vec::new();
                while v.len() < 30 && rt::w(16) != 0 {
                    v.push(Op { k: rt::w(4096), c: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(256)] });
                }
                v
            })
            .collect()
    });
    if quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<X>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut m = M { x: quiet(|| Vec::with_capacity(10)), boxes, cfg };
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    m.step(o);
                }
                quiet(|| drop(p));
                m.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = M { x: quiet(|| Vec::with_capacity(10)), boxes, cfg };
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some(x) = b.try_recv() {
            x.check();
        }
    }
    quiet(|| drop((p0, progs)));
}
macro_rules! props {
    ($($id:literal $f:ident $w:expr, $panics:expr, $text:expr;)*) => {
        $(pub fn $f() {
            static C: Cfg = Cfg { w: $w, panics: $panics, text: $text };
            go(&C)
        })*
        pub const TABLE: &[(&str, fn())] = &[$(($id, $f)),*];
    };
}
//                    push pop take slice append split replace drain iter chars read body view move deser
props! {
    "C05" c05 [6, 4, 3, 3, 4, 3, 3, 3, 1, 0, 1, 0, 2, 2, 0], false, 0;
    "C06" c06 [6, 4, 4, 3, 4, 3, 3, 3, 3, 3, 0, 0, 2, 2, 0], false, 3;
    "C07" c07 [5, 1, 1, 1, 2, 1, 1, 6, 6, 6, 0, 0, 1, 1, 0], false, 1;
    "C08" c08 [5, 1, 1, 1, 2, 1, 1, 0, 0, 0, 9, 0, 1, 1, 0], false, 0;
    "C10" c10 [5, 1, 2, 1, 2, 1, 1, 1, 0, 0, 1, 9, 1, 1, 0], false, 0;
    "C14" c14 [5, 1, 8, 1, 6, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0], true, 1;
    "C16" c16 [1, 1, 2, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1, 9], false, 2;
    "C17" c17 [0, 1, 6, 9, 0, 6, 0, 0, 1, 0, 3, 1, 4, 2, 0], false, 1;
}
