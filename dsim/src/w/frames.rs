//! Framing what has arrived (C20): a connection delivers records in pieces, cut, delayed and ended at will; a reader
//! takes the records apart again with everything the types offer for it, and hands them to another thread.  The oracle
//! is the flat stream: the records taken are the records sent, and every question asked in between has the answer a
//! plain slice gives.
use super::common::*;
use super::parse::{chunk_of, elsewhere2, leak_text, sender, shown, text_chunk, word, Piece, Show, Wire};
use super::queue::split_ref;
use crate::model::{check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use core::cell::Cell;

/// How records lie in the stream.
#[derive(Clone, Copy)]
enum Proto {
    /// up to a separator, which belongs to nobody
    Sep(&'static str),
    /// up to a line break, which belongs to the line
    Line,
    /// a length, a colon, that many bytes
    Len,
    /// characters in and out of a set, in turns
    Runs(&'static str),
}
use Proto::*;
/// The first record of `b`: its ends and where the next begins.  `None`: more has to come.
fn record(p: Proto, b: &[u8], eof: bool) -> Option<(usize, usize, usize)> {
    let n = b.len();
    let all = (eof && n > 0).then_some((0, n, n));
    let find = |x: &[u8]| b.windows(x.len()).position(|w| w == x);
    match p {
        Sep(s) => find(s.as_bytes()).map(|k| (0, k, k + s.len())).or(all),
        Line => find(b"\n").map(|k| (0, k + 1, k + 1)).or(all),
        Len => match find(b":") {
            None => all,
            Some(k) => {
                let m = k + 1 + core::str::from_utf8(&b[..k]).ok()?.parse::<usize>().ok()?;
                if m <= n {
                    Some((k + 1, m, m))
                } else {
                    all
                }
            }
        },
        Runs(set) => {
            let first = b.first()?;
            let k = b.iter().position(|x| set.as_bytes().contains(x) != set.as_bytes().contains(first));
            k.map(|k| (0, k, k)).or(all)
        }
    }
}
/// A caller's predicate over what it must be shown, one after the other; it may panic.
struct See<'a> {
    want: &'a Q,
    text: bool,
    at: Cell<usize>,
    live: bool,
}
impl<'a> See<'a> {
    fn new(want: &'a Q, text: bool, live: bool) -> Self {
        See { want, text, at: Cell::new(0), live }
    }
    /// Shown `c`: the position it has.
    fn see(&self, c: u32) -> usize {
        let at = self.at.get();
        let (want, n) = quiet(|| {
            if self.text {
                let c = self.want.s()[at..].chars().next();
                (c.map(|c| c as u32), c.map_or(0, |c| c.len_utf8()))
            } else {
                (self.want.b().get(at).map(|b| *b as u32), 1)
            }
        });
        if want != Some(c) {
            viol!("iterator", "a predicate was shown {:#x} at {} of {}, expected {:#x?}", c, at, self.want.len(), want);
        }
        self.at.set(at + n);
        if self.live && rt::fault(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(810);
        }
        at
    }
}
/// What a reader needs of whatever holds the stream.
trait Hold: Clone + Send + Show + 'static {
    const TEXT: bool;
    const NAME: &'static str;
    fn empty() -> Self;
    fn feed(self, b: &Q, kind: u32) -> Self;
    fn size(&self) -> usize;
    /// Where `sep` is, not before `from`.
    fn find(&self, sep: &str, from: usize, how: u32) -> Option<usize>;
    fn take(&mut self, n: usize, how: u32) -> Self;
    fn until(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Self;
    fn line(&mut self) -> Self;
    /// The part before `sep`, and the rest after it.
    fn cut(self, sep: &str) -> Result<(Self, Self), Self>;
    /// The parts between separators.  Whether the last may be missing when it is empty.
    fn parts(&self, sep: &str, max: usize, bytes: bool, want: &Q, each: &mut dyn FnMut(Option<Q>, usize, (usize, Option<usize>)) -> bool, keep: &mut dyn FnMut(Self)) -> bool;
    fn ask(&self, want: &Q, x: &Question, live: bool);
    fn skip(&mut self, n: usize, how: u32) {
        let x = self.take(n, how);
        drop(x);
    }
}
/// A sequence of bytes to look for, and where.
struct Question {
    needle: Q,
    at: usize,
    c: u32,
}
impl Question {
    fn new(want: &Q, text: bool, c: [u32; 3]) -> Self {
        let n = want.len();
        let mut at = at_for(c[0], n);
        let mut to = (at + (c[1] % 7) as usize).min(n);
        while text && !want.boundary(at) {
            at -= 1;
        }
        while text && !want.boundary(to) {
            to += 1;
        }
        let mut needle = want.sub(at, to);
        match c[1] / 8 % 8 {
            // something that only begins like what is there
            0 => needle.push(b"a"),
            1 => needle.push("é".as_bytes()),
            2 => needle = want.clone(),
            3 => {
                needle = want.clone();
                needle.push(b"b");
            }
            4 => needle = Q::new(b""),
            5 => {
                // something like it, with an end that differs
                let mut k = needle.len();
                while k > 0 && !needle.boundary(k - 1) {
                    k -= 1;
                }
                needle.truncate(k.saturating_sub(1));
                needle.push(b"b");
            }
            _ => {}
        }
        Question { needle, at, c: c[2] }
    }
    /// Positions worth asking about.
    fn places(&self, n: usize) -> [usize; 6] {
        [0, self.at, self.at + 1, n.saturating_sub(self.needle.len()), n, if self.c & 1 == 0 { n + 1 } else { usize::MAX }]
    }
}
fn wrong(what: &str, name: &str, n: usize, needle: &Q, want: impl core::fmt::Debug, got: impl core::fmt::Debug) -> ! {
    viol!("search", "{} of {} bytes in {} of {}: {:?} where a plain slice gives {:?}", what, needle.len(), name, n, got, want)
}
macro_rules! same {
    ($x:expr, $want:expr, $q:expr, $what:literal, $e:expr, $g:expr) => {{
        let e = quiet(|| $e);
        let g = $g;
        if e != g {
            wrong($what, $x, $want.len(), $q, e, g);
        }
    }};
}
/// The beginning and the end.
macro_rules! ends {
    ($t:ty, $x:expr, $want:expr, $q:expr, $arg:expr) => {{
        same!(<$t as Hold>::NAME, $want, $q, "starts_with", $want.b().starts_with($q.b()), $x.starts_with($arg));
        same!(<$t as Hold>::NAME, $want, $q, "ends_with", $want.b().ends_with($q.b()), $x.ends_with($arg));
    }};
}
/// Checks a split against the flat bytes; `each` is told of every part and says whether to go on.
fn check_parts<H: Hold>(x: &H, want: &Q, sep: &Q, c: u32, keep: &mut dyn FnMut(H, Q)) {
    let bytes = !sep.b().is_empty() && c & 2 != 0;
    let max = if c & 4 != 0 { (c >> 3) as usize % 5 } else { 0 };
    let stop = if c & 128 != 0 { (c >> 8) as usize % 4 } else { usize::MAX };
    let parts = quiet(|| split_ref(want.b(), sep.b(), max));
    let n = want.len();
    let mut k = 0;
    let mut ended = false;
    let open = Cell::new(false);
    let mut kept = 0;
    // the parts `keep` is given come right after `each` has seen them
    let last: Cell<Option<usize>> = Cell::new(None);
    let may_miss = x.parts(
        sep.s_or(),
        max,
        bytes,
        want,
        &mut |p, told, hint| {
            let left = parts.len() - k.min(parts.len());
            // whether an empty part follows a separator at the very end
            let slack = (left > 0 && parts.last() == Some(&(n, n))) as usize;
            if hint.0 > left || hint.1.is_some_and(|h| h < left - slack) {
                viol!("iterator", "a split of {} with {} parts to come has the size hint {:?}", H::NAME, left, hint);
            }
            if k == stop {
                return false;
            }
            match (p, parts.get(k)) {
                (None, e) => {
                    open.set(e.is_some());
                    if e.is_some_and(|e| e.0 < n) || parts.len() > k + 1 {
                        viol!("split", "a split of {} ended after {} of {} parts", H::NAME, k, parts.len());
                    }
                    ended = true;
                    return false;
                }
                (Some(p), Some(&(a, b))) => {
                    if told != p.len() {
                        viol!("length", "a part of {} bytes reports {}", p.len(), told);
                    }
                    check_bytes("part of a split", &want.b()[a..b], p.b());
                    last.set(Some(k));
                }
                (Some(p), None) => viol!("split", "a split of {} gave another part ({} bytes) after all {}", H::NAME, p.len(), parts.len()),
            }
            k += 1;
            true
        },
        &mut |p| {
            if let Some(&(a, b)) = last.take().and_then(|k| parts.get(k)) {
                if kept < 3 && b > a {
                    kept += 1;
                    return keep(p, want.sub(a, b));
                }
            }
            drop(p);
        },
    );
    if ended && open.get() && !may_miss {
        viol!("split", "a split of {} left out the last, empty part", H::NAME);
    }
    quiet(|| drop(parts));
}
trait Text {
    fn s_or(&self) -> &str;
}
impl Text for Q {
    /// As text where it is text; only the bytes count otherwise.
    fn s_or(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(self.b()) }
    }
}

impl Hold for ByteQueue<'static> {
    const TEXT: bool = false;
    const NAME: &'static str = "a queue";
    fn empty() -> Self {
        ByteQueue::new()
    }
    fn feed(mut self, b: &Q, kind: u32) -> Self {
        rt::nofault(|| self.push_back(chunk_of(b, kind)));
        self
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn find(&self, sep: &str, from: usize, how: u32) -> Option<usize> {
        match how % 3 {
            0 => self.find_slice_after(sep.as_bytes(), from),
            1 => self.find_slice(sep.as_bytes()),
            _ => (from..=self.len()).find(|&i| self.exists_at(i, sep.as_bytes())),
        }
    }
    fn take(&mut self, n: usize, how: u32) -> Self {
        match how % 5 {
            0 => {
                let rest = self.split_off(n);
                core::mem::replace(self, rest)
            }
            1 => {
                let x = self.slice(..n);
                self.consume(n);
                x
            }
            2 => self.drain(..n).map(ByteData::from_byte).collect(),
            3 => {
                let mut k = 0;
                self.take_while(|_| {
                    k += 1;
                    k <= n
                })
            }
            _ => {
                let x = self.slice(..n);
                *self = self.slice(n..);
                x
            }
        }
    }
    fn skip(&mut self, n: usize, how: u32) {
        match how % 4 {
            0 => self.consume(n),
            1 => drop(self.drain(..n)),
            2 => *self = self.split_off(n),
            _ => self.replace_range(..n, ByteData::empty()),
        }
    }
    fn until(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Self {
        self.take_while(|b| f(b as u32))
    }
    fn line(&mut self) -> Self {
        match self.find_byte(|b| b == b'\n') {
            Some(p) => self.take(p + 1, 0),
            None => core::mem::take(self),
        }
    }
    fn cut(self, sep: &str) -> Result<(Self, Self), Self> {
        let r = {
            let mut it = self.splitn_on(sep.as_bytes(), 2);
            let a = it.next();
            a.zip(it.next())
        };
        r.ok_or(self)
    }
    fn parts(&self, sep: &str, max: usize, _: bool, _: &Q, each: &mut dyn FnMut(Option<Q>, usize, (usize, Option<usize>)) -> bool, keep: &mut dyn FnMut(Self)) -> bool {
        let mut it = if max == 0 { self.split_on(sep.as_bytes()) } else { self.splitn_on(sep.as_bytes(), max) };
        loop {
            let h = it.size_hint();
            let p = it.next();
            if !each(p.as_ref().map(shown), p.as_ref().map_or(0, |p| p.len()), h) {
                break;
            }
            p.map(&mut *keep);
        }
        false
    }
    fn ask(&self, want: &Q, x: &Question, live: bool) {
        let (q, n) = (&x.needle, want.len());
        ends!(Self, self, want, q, q.b());
        for i in x.places(n) {
            same!(Self::NAME, want, q, "exists_at", want.b().get(i..i.saturating_add(q.len())) == Some(q.b()), self.exists_at(i, q.b()));
            if q.len() > 0 {
                same!(
                    Self::NAME,
                    want,
                    q,
                    "find_slice_after",
                    want.b().get(i..).and_then(|r| r.windows(q.len()).position(|w| w == q.b())).map(|p| p + i),
                    self.find_slice_after(q.b(), i)
                );
            }
        }
        if q.len() > 0 {
            same!(Self::NAME, want, q, "find_slice", want.b().windows(q.len()).position(|w| w == q.b()), self.find_slice(q.b()));
        }
        let s = See::new(want, false, live);
        let e = quiet(|| want.b().iter().position(|b| q.b().first() == Some(b)));
        let r = self.find_byte(|b| {
            s.see(b as u32);
            q.b().first() == Some(&b)
        });
        if r != e {
            wrong("find_byte", Self::NAME, n, q, e, r);
        }
    }
}
impl Hold for StringQueue<'static> {
    const TEXT: bool = true;
    const NAME: &'static str = "a queue of text";
    fn empty() -> Self {
        StringQueue::new()
    }
    fn feed(mut self, b: &Q, kind: u32) -> Self {
        rt::nofault(|| self.push_back(text_chunk(b, kind)));
        self
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn find(&self, sep: &str, from: usize, how: u32) -> Option<usize> {
        match how % 3 {
            0 => self.as_bytequeue().find_slice_after(sep.as_bytes(), from),
            1 => self.as_bytequeue().find_slice(sep.as_bytes()),
            _ => {
                // one character after the other
                let first = sep.chars().next();
                let mut at = None;
                for (i, c) in self.chars_indecies() {
                    if i >= from && Some(c) == first && self.as_bytequeue().exists_at(i, sep.as_bytes()) {
                        at = Some(i);
                        break;
                    }
                }
                at
            }
        }
    }
    fn take(&mut self, n: usize, how: u32) -> Self {
        match how % 5 {
            0 => {
                let rest = self.split_off(n);
                core::mem::replace(self, rest)
            }
            1 => {
                let x = self.slice(..n);
                *self = self.slice(n..);
                x
            }
            2 => {
                let mut s = StringQueue::new();
                let mut buf = [0; 4];
                for c in self.drain(..n) {
                    s.push_back(StringData::from_borrowed(c.encode_utf8(&mut buf)).into_shared());
                }
                s
            }
            3 => {
                let mut k = 0;
                self.take_while(|c| {
                    k += c.len_utf8();
                    k <= n
                })
            }
            _ => {
                let x = self.slice(..n);
                self.replace_range(..n, StringData::empty());
                x
            }
        }
    }
    fn until(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Self {
        self.take_while(|c| f(c as u32))
    }
    fn line(&mut self) -> Self {
        self.take_line()
    }
    fn cut(self, sep: &str) -> Result<(Self, Self), Self> {
        let r = {
            let mut it = self.splitn_on(sep, 2);
            let a = it.next();
            a.zip(it.next())
        };
        r.ok_or(self)
    }
    fn parts(&self, sep: &str, max: usize, bytes: bool, _: &Q, each: &mut dyn FnMut(Option<Q>, usize, (usize, Option<usize>)) -> bool, keep: &mut dyn FnMut(Self)) -> bool {
        if bytes {
            let mut it = if max == 0 { self.split_on_bytes(sep.as_bytes()) } else { self.splitn_on_bytes(sep.as_bytes(), max) };
            loop {
                let h = it.size_hint();
                let p = it.next();
                if !each(p.as_ref().map(shown), p.as_ref().map_or(0, |p| p.len()), h) {
                    break;
                }
            }
            return false;
        }
        let mut it = if max == 0 { self.split_on(sep) } else { self.splitn_on(sep, max) };
        loop {
            let h = it.size_hint();
            let p = it.next();
            if !each(p.as_ref().map(shown), p.as_ref().map_or(0, |p| p.len()), h) {
                break;
            }
            p.map(&mut *keep);
        }
        false
    }
    fn ask(&self, want: &Q, x: &Question, live: bool) {
        let (q, n) = (&x.needle, want.len());
        match x.c % 3 {
            0 => ends!(Self, self, want, q, q.s()),
            1 => ends!(Self, self, want, q, q.b()),
            _ => {
                let d = StringData::from_borrowed(q.s());
                ends!(Self, self, want, q, &d)
            }
        }
        let s = See::new(want, true, live);
        let first = quiet(|| q.s().chars().next());
        let e = quiet(|| want.s().char_indices().find(|c| Some(c.1) == first).map(|c| c.0));
        let mut c = self.clone();
        let r = c.find_char(|c| {
            s.see(c as u32);
            Some(c) == first
        });
        if r != e {
            wrong("find_char", Self::NAME, n, q, e, r);
        }
    }
}
macro_rules! data {
    ($t:ty, $name:literal, $text:literal, $empty:expr, $feed:expr, $arg:ident, $until:expr, $line:expr, $ask:expr) => {
        impl Hold for $t {
            const TEXT: bool = $text;
            const NAME: &'static str = $name;
            fn empty() -> Self {
                $empty
            }
            fn feed(self, b: &Q, kind: u32) -> Self {
                $feed(self, b, kind)
            }
            fn size(&self) -> usize {
                self.len()
            }
            fn find(&self, sep: &str, from: usize, how: u32) -> Option<usize> {
                match how % 2 {
                    0 => self.sliced(from.min(self.len())..).split_once_on($arg(sep)).ok().map(|(a, _)| a.len() + from),
                    _ => {
                        let n = self.len();
                        (from..=n).find(|&i| (i == n || !$text || AsRef::<[u8]>::as_ref(self)[i] & 0xC0 != 0x80) && self.sliced(i..).starts_with($arg(sep)))
                    }
                }
            }
            fn take(&mut self, n: usize, how: u32) -> Self {
                match how % 4 {
                    0 => {
                        let (a, b) = core::mem::replace(self, <$t>::empty()).split_at(n);
                        *self = b;
                        a
                    }
                    1 => {
                        let x = self.sliced(..n);
                        self.make_sliced(n..);
                        x
                    }
                    2 => {
                        let x = self.clone().into_sliced(n..);
                        core::mem::replace(self, x).into_sliced(..n)
                    }
                    _ => {
                        let mut k = 0;
                        Hold::until(self, &mut |c| {
                            k += if $text { char::from_u32(c).map_or(1, |c| c.len_utf8()) } else { 1 };
                            k <= n
                        })
                    }
                }
            }
            fn until(&mut self, f: &mut dyn FnMut(u32) -> bool) -> Self {
                $until(self, f)
            }
            fn line(&mut self) -> Self {
                $line(self)
            }
            fn cut(self, sep: &str) -> Result<(Self, Self), Self> {
                // the rest begins with the separator
                let (a, mut b) = self.split_once_on($arg(sep))?;
                if !b.starts_with($arg(sep)) {
                    viol!("split", "what follows a separator does not begin with it");
                }
                b.make_sliced(sep.len()..);
                Ok((a, b))
            }
            fn parts(&self, sep: &str, max: usize, _: bool, want: &Q, each: &mut dyn FnMut(Option<Q>, usize, (usize, Option<usize>)) -> bool, keep: &mut dyn FnMut(Self)) -> bool {
                let mut it = self.clone().split_on($arg(sep));
                let mut k = 0;
                loop {
                    k += 1;
                    // there is no maximum here: stop before it would matter
                    if k == max && !want.b().is_empty() {
                        break;
                    }
                    let h = if max == 0 { it.size_hint() } else { (0, None) };
                    let p = it.next();
                    if !each(p.as_ref().map(shown), p.as_ref().map_or(0, |p| p.len()), h) {
                        break;
                    }
                    p.map(&mut *keep);
                }
                true
            }
            fn ask(&self, want: &Q, x: &Question, live: bool) {
                let q = &x.needle;
                ends!(Self, self, want, q, $arg(q.s_or()));
                $ask(self, want, x, live)
            }
        }
    };
}
fn by(s: &str) -> &[u8] {
    s.as_bytes()
}
fn st(s: &str) -> &str {
    s
}
data!(
    ByteData<'static>,
    "bytes",
    false,
    ByteData::empty(),
    |d: ByteData<'static>, b: &Q, kind: u32| rt::nofault(|| {
        if d.is_empty() {
            return chunk_of(b, kind);
        }
        let mut n = SharedBytesBuilder::with_capacity(d.len() + kind as usize % 30);
        n.extend_from_slice(d.as_slice());
        drop(d);
        n.extend_from_slice(b.b());
        ByteData::from(n)
    }),
    by,
    |d: &mut ByteData<'static>, f: &mut dyn FnMut(u32) -> bool| d.take_while(|b| f(b as u32)),
    |d: &mut ByteData<'static>| {
        let k = d.as_slice().iter().position(|b| *b == b'\n').map_or(d.len(), |p| p + 1);
        d.take_bytes(k)
    },
    |d: &ByteData<'static>, want: &Q, x: &Question, live: bool| {
        let q = &x.needle;
        if x.c % 4 == 0 {
            let s = SharedBytes::from(d.clone());
            ends!(ByteData<'static>, s, want, q, q.b());
        }
        once(d, want, q, |d| d.split_once_on(q.b()));
        let (s, mut c) = (See::new(want, false, live), d.clone());
        let e = quiet(|| want.b().iter().position(|b| q.b().first() == Some(b))).unwrap_or(want.len());
        let a = ByteData::take_while(&mut c, |b| {
            s.see(b as u32);
            q.b().first() != Some(&b)
        });
        check_bytes("take_while", &want.b()[..e], a.as_slice());
        check_bytes("the rest after take_while", &want.b()[e..], c.as_slice());
    }
);
data!(
    StringData<'static>,
    "text",
    true,
    StringData::empty(),
    |d: StringData<'static>, b: &Q, kind: u32| rt::nofault(|| {
        if d.is_empty() {
            return text_chunk(b, kind);
        }
        let mut n = SharedStrBuilder::with_capacity(d.len() + kind as usize % 30);
        n.push_str(d.as_str());
        drop(d);
        n.push_str(b.s());
        StringData::from(n)
    }),
    st,
    |d: &mut StringData<'static>, f: &mut dyn FnMut(u32) -> bool| d.take_while(|c| f(c as u32)),
    |d: &mut StringData<'static>| d.take_line(),
    |d: &StringData<'static>, want: &Q, x: &Question, live: bool| {
        let q = &x.needle;
        let w = want.s();
        check_bytes("trim", quiet(|| w.trim()).as_bytes(), d.trim().as_bytes());
        check_bytes("trim_start", quiet(|| w.trim_start()).as_bytes(), d.trim_start().as_bytes());
        check_bytes("trim_end", quiet(|| w.trim_end()).as_bytes(), d.trim_end().as_bytes());
        once(d, want, q, |d| d.split_once_on(q.s()));
        let (s, mut c) = (See::new(want, true, live), d.clone());
        let first = quiet(|| q.s().chars().next());
        let e = quiet(|| w.char_indices().find(|c| Some(c.1) == first).map_or(w.len(), |c| c.0));
        let a = StringData::take_while(&mut c, |c| {
            s.see(c as u32);
            Some(c) != first
        });
        check_bytes("take_while", &want.b()[..e], a.as_bytes());
        check_bytes("the rest after take_while", &want.b()[e..], c.as_bytes());
    }
);
/// Split in two.
fn once<H: Hold>(d: &H, want: &Q, q: &Q, f: impl FnOnce(H) -> Result<(H, H), H>) {
    if q.len() == 0 {
        return;
    }
    let e = quiet(|| want.b().windows(q.len()).position(|w| w == q.b()));
    match (f(d.clone()), e) {
        (Ok((a, b)), Some(k)) => {
            check_bytes("split_once_on", &want.b()[..k], shown(&a).b());
            check_bytes("the rest after split_once_on", &want.b()[k..], shown(&b).b());
        }
        (Err(d), None) => check_bytes("what was not split", want.b(), shown(&d).b()),
        (Ok((a, _)), None) => viol!("split", "{} was split at {} on something that is not there", H::NAME, shown(&a).len()),
        (Err(_), Some(k)) => viol!("split", "{} was not split although the separator is at {}", H::NAME, k),
    }
}

/// Takes records off the front of `cur`: as many as it likes to, but at least one where there is one.
fn step<H: Hold>(mut cur: H, p: Proto, want: &Q, how: u32, from: usize, eof: bool, live: bool) -> (H, Vec<H>) {
    let mut out: Vec<H> = quiet(|| Vec::with_capacity(64));
    let n = cur.size();
    match p {
        Sep(s) => match how % 4 {
            0 => {
                // looked for where it was not looked for before
                if let Some(k) = cur.find(s, from, how / 4) {
                    let x = cur.take(k, how / 16);
                    cur.skip(s.len(), how / 64);
                    quiet(|| out.push(x));
                }
            }
            1 => match cur.cut(s) {
                Ok((x, rest)) => {
                    cur = rest;
                    quiet(|| out.push(x));
                }
                Err(c) => cur = c,
            },
            2 => {
                // everything there is, the last part stays
                let mut used = 0;
                let mut ends = Q::new(&[]);
                let all = quiet(|| split_ref(want.b(), s.as_bytes(), 0)).len();
                let mut k = 0;
                cur.parts(s, 0, false, want, &mut |p, _, _| {
                    k += 1;
                    if let Some(p) = &p {
                        ends.push(&[0]);
                        if k < all.min(40) {
                            used += p.len() + s.len();
                        }
                    }
                    p.is_some() && k < all.min(40)
                }, &mut |x| quiet(|| out.push(x)));
                if used > n {
                    viol!("split", "{} bytes of parts in {} bytes", used, n);
                }
                cur.skip(used, how / 64);
            }
            _ => {
                // up to the first character of the separator, which may or may not begin one
                let first = s.chars().next().map_or(0, |c| if H::TEXT { c as u32 } else { s.as_bytes()[0] as u32 });
                let see = See::new(want, H::TEXT, live);
                let mut c = cur.clone();
                let x = c.until(&mut |c| {
                    see.see(c);
                    c != first
                });
                let mut at = x.size();
                if c.find(s, 0, 2) == Some(0) {
                    cur = c;
                } else {
                    match cur.find(s, at, 0) {
                        None => return finish(cur, out, eof),
                        Some(k) => at = k,
                    }
                    cur.skip(at, how / 16);
                }
                let x = if at == x.size() { x } else { H::empty().feed(&want.sub(0, at), how / 64) };
                cur.skip(s.len(), how / 64);
                quiet(|| out.push(x));
            }
        },
        Line => {
            if how % 2 == 0 {
                let x = cur.line();
                let ends = shown(&x).b().last() == Some(&b'\n');
                if ends || (eof && x.size() > 0) {
                    quiet(|| out.push(x));
                    return (cur, out);
                }
                // not yet a line: it was all there is
                if cur.size() != 0 {
                    viol!("split", "a line without an end was taken out of {} bytes, with {} left", n, cur.size());
                }
                return (x, out);
            }
            if let Some(k) = cur.find("\n", from, how / 4) {
                let x = cur.take(k + 1, how / 16);
                quiet(|| out.push(x));
            }
        }
        Len => {
            let Some(k) = cur.find(":", 0, how / 4) else { return finish(cur, out, eof) };
            let see = See::new(want, H::TEXT, live);
            let head = if how % 2 == 0 {
                cur.clone().until(&mut |c| {
                    see.see(c);
                    c != ':' as u32
                })
            } else {
                cur.clone().take(k, how / 16)
            };
            let head = shown(&head);
            let Some(m) = quiet(|| core::str::from_utf8(head.b()).ok().and_then(|s| s.parse::<usize>().ok())) else {
                viol!("split", "the length of a record ({} bytes) is no number", head.len())
            };
            if k + 1 + m <= n {
                cur.skip(k + 1, how / 64);
                let x = cur.take(m, how / 16);
                quiet(|| out.push(x));
            }
        }
        Runs(set) => {
            let inside = |c: u32| set.chars().any(|x| x as u32 == c);
            let see = See::new(want, H::TEXT, live);
            let mut first = None;
            let mut c = cur.clone();
            let x = c.until(&mut |c| {
                see.see(c);
                let i = inside(c);
                *first.get_or_insert(i) == i
            });
            if c.size() > 0 || (eof && x.size() > 0) {
                quiet(|| out.push(x));
                return (c, out);
            }
        }
    }
    if out.is_empty() {
        return finish(cur, out, eof);
    }
    (cur, out)
}
/// At the end the rest is a record, too.
fn finish<H: Hold>(cur: H, mut out: Vec<H>, eof: bool) -> (H, Vec<H>) {
    if eof && cur.size() > 0 {
        quiet(|| out.push(cur));
        return (H::empty(), out);
    }
    (cur, out)
}
type Bench<H> = Mailbox<Option<(H, Q)>>;
#[derive(Clone, Copy)]
struct Conn {
    p: Proto,
    coins: &'static [[u32; 4]],
    faulty: bool,
}
/// Asks everything there is to ask.
fn ask<H: Hold>(x: &H, want: &Q, c: [u32; 4], faulty: bool, faults: &mut usize, keep: &mut Vec<(H, Q)>) {
    let q = Question::new(want, H::TEXT, [c[0], c[1], c[2]]);
    op!("ask {} of {} bytes about {} bytes", H::NAME, want.len(), q.needle.len());
    let live = faulty && *faults < 12;
    rt::extend(want.len() * 8);
    let r = run_in(live, || x.ask(want, &q, live));
    match r {
        Ok(()) => {}
        Err(Unwound::Lib(m)) => viol!("panic", "a search in {} of {} bytes panicked: {}", H::NAME, want.len(), m),
        Err(_) => *faults += 1,
    }
    let r = run_in(live, || {
        check_parts(x, want, &q.needle, c[3], &mut |p, w| {
            if keep.len() < 6 {
                quiet(|| keep.push((p, w)))
            }
        })
    });
    match r {
        Ok(()) => {}
        Err(Unwound::Lib(m)) => viol!("panic", "a split of {} of {} bytes panicked: {}", H::NAME, want.len(), m),
        Err(_) => *faults += 1,
    }
    check_bytes("what was asked about", want.b(), shown(x).b());
}
/// Works on records as they come out.
fn worker<H: Hold>(bench: &'static Bench<H>, c: Conn) {
    let (mut n, mut faults) = (0, 0);
    let mut keep: Vec<(H, Q)> = quiet(|| Vec::with_capacity(8));
    while let Some((x, w)) = bench.recv() {
        op!("a record of {} bytes comes in", w.len());
        check_bytes("a record", w.b(), shown(&x).b());
        if rt::blocks() < 100_000 && n < 12 {
            ask(&x, &w, c.coins[(n * 7 + 3) % c.coins.len()], c.faulty, &mut faults, &mut keep);
        }
        n += 1;
        if keep.len() < 6 && n % 2 == 0 {
            quiet(|| keep.push((x, w)));
        } else {
            drop(x);
        }
    }
    for (x, w) in keep.iter() {
        check_bytes("a record kept", w.b(), shown(x).b());
    }
    while let Some((x, w)) = quiet(|| keep.pop()) {
        drop(x);
        drop(w);
    }
    quiet(|| drop(keep));
}
fn reader<H: Hold>(wire: &'static Wire, bench: &'static Bench<H>, c: Conn) {
    let mut cur = H::empty();
    let mut want = Q::new(&[]);
    let mut keep: Vec<(H, Q)> = quiet(|| Vec::with_capacity(8));
    let (mut eof, mut n, mut from, mut faults) = (false, 0usize, 0usize, 0usize);
    // everything that came, and everything that went
    let (mut came, mut pieces, mut tries, mut records) = (0usize, 0usize, 0usize, 0usize);
    while rt::blocks() < 100_000 {
        let coin = c.coins[n % c.coins.len()];
        n += 1;
        tries += 1;
        if tries > 12 + 2 * (came + pieces) + faults {
            viol!("progress", "{} attempts, {} pieces with {} bytes, {} records", tries, pieces, came, records);
        }
        let live = c.faulty && faults < 12;
        op!("take records out of {}, {} bytes{}", H::NAME, want.len(), if eof { ", the last" } else { "" });
        rt::extend(want.len() * (2 + pieces));
        // what can be interrupted works on a copy
        let spare = live.then(|| rt::nofault(|| cur.clone()));
        let r = {
            let x = core::mem::replace(&mut cur, H::empty());
            let w = &want;
            let go = move || run_in(live, move || step(x, c.p, w, coin[0], from, eof, live));
            if rt::fault(fk::MIGRATE, 1) == 1 {
                elsewhere2(go)
            } else {
                go()
            }
        };
        let (rest, mut out) = match r {
            Ok(x) => x,
            Err(Unwound::Lib(m)) => viol!("panic", "taking records out of {} of {} bytes panicked: {}", H::NAME, want.len(), m),
            Err(_) => {
                faults += 1;
                match spare {
                    Some(s) => cur = s,
                    None => viol!("panic", "an interruption where nothing interrupts"),
                }
                continue;
            }
        };
        drop(spare);
        cur = rest;
        let none = out.is_empty();
        rt::state(coin[0] as u64 % 1024 | (want.len() as u64) << 20 | (out.len() as u64) << 40 | (eof as u64) << 60);
        let mut whole = core::mem::replace(&mut out, Vec::new());
        quiet(|| whole.reverse());
        while let Some(x) = quiet(|| whole.pop()) {
            let Some((a, b, next)) = quiet(|| record(c.p, want.b(), eof)) else {
                viol!("record", "a record of {} bytes was taken before it was there ({} bytes)", x.size(), want.len())
            };
            let w = want.sub(a, b);
            check_bytes("a record taken", w.b(), shown(&x).b());
            want.cut(0, next);
            records += 1;
            from = 0;
            bench.send(Some((x, w)));
        }
        quiet(|| drop(whole));
        check_bytes("what is left of the stream", want.b(), shown(&cur).b());
        if coin[3] % 4 == 1 {
            ask(&cur, &want, coin, c.faulty, &mut faults, &mut keep);
        }
        if !none {
            continue;
        }
        if quiet(|| record(c.p, want.b(), eof)).is_some() {
            viol!("record", "a record was not found in {} bytes of {}", want.len(), H::NAME);
        }
        if eof {
            break;
        }
        // it is not in there; the next search starts where one could begin that is not complete
        if let Sep(s) = c.p {
            from = (want.len() + 1).saturating_sub(s.len());
            while H::TEXT && !want.boundary(from) {
                from -= 1;
            }
        } else if matches!(c.p, Line) {
            from = want.len();
        }
        let mut k = rt::pick(fk::SHORT, 3);
        let mut p = Some(wire.recv());
        while let Some(x) = p.take() {
            match x {
                None => eof = true,
                Some(Piece { b, kind }) => {
                    pieces += 1;
                    came += b.len();
                    cur = cur.feed(&b, kind);
                    want.push(b.b());
                }
            }
            if k > 0 && !eof {
                k -= 1;
                p = wire.try_recv();
            }
        }
    }
    while !eof {
        eof = wire.recv().is_none();
    }
    bench.send(None);
    for (x, w) in keep.iter() {
        check_bytes("a part kept", w.b(), shown(x).b());
    }
    drop(cur);
    while let Some((x, w)) = quiet(|| keep.pop()) {
        drop(x);
        drop(w);
    }
    quiet(|| drop(keep));
}
/// What goes over the connection.
fn stream(p: Proto, n: usize) -> Q {
    let mut all = Q::new(&[]);
    for _ in 0..n {
        let spread = [2u32, 4, 8, 16][rt::w(4) as usize];
        let mut r = word(rt::w([3, 9, 30][rt::w(3) as usize]) as usize, spread);
        match p {
            Sep(s) => {
                // starts of the separator where there is none
                if rt::w(2) == 0 {
                    let mut k = rt::w(s.len() as u32) as usize;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    r.push(s[..k].as_bytes());
                }
                all.push(r.b());
                all.push(s.as_bytes());
            }
            Line => {
                all.push(r.b());
                all.push([b"\n" as &[u8], b"\r\n"][rt::w(2) as usize]);
            }
            Len => {
                let (mut d, mut k, mut m) = ([0u8; 8], 8, r.len());
                loop {
                    k -= 1;
                    d[k] = b'0' + (m % 10) as u8;
                    m /= 10;
                    if m == 0 {
                        break;
                    }
                }
                all.push(&d[k..]);
                all.push(b":");
                all.push(r.b());
            }
            Runs(_) => all.push(r.b()),
        }
    }
    all
}
pub fn c20() {
    let faulty = rt::w(4) == 3;
    rt::profile(if faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nconn = 1 + rt::w(5) as usize / 4;
    let mut joins = quiet(Vec::new);
    for k in 0..nconn {
        let kind = rt::w(4);
        let cuts = rt::w(5);
        let p = match rt::w(6) {
            0 => Line,
            1 => Len,
            2 => Runs([",;\n", "ab", "1 a"][rt::w(3) as usize]),
            x => Sep(leak_text(&word(1 + rt::w([2, 4, 9][x as usize - 3]) as usize, [2, 2, 16][rt::w(3) as usize]))),
        };
        let all = stream(p, rt::w(10) as usize);
        let mut coins = quiet(Vec::new);
        for _ in 0..2 + rt::w(14) {
            let c = [rt::w(1024), rt::w(4096), rt::w(4096), rt::w(4096)];
            quiet(|| coins.push(c));
        }
        let c = Conn { p, coins: quiet(|| Box::leak(coins.into_boxed_slice())), faulty };
        if all.len() > 8 {
            rt::nontrivial();
        }
        let wire: &'static Wire = quiet(|| Box::leak(Box::new(Mailbox::new())));
        let text = kind >= 2;
        let j = quiet(|| rt::spawn(move || sender(wire, all, text, cuts)));
        quiet(|| joins.push(j));
        fn both<H: Hold>(wire: &'static Wire, c: Conn, last: bool, joins: &mut Vec<rt::Join>) {
            let bench: &'static Bench<H> = quiet(|| Box::leak(Box::new(Mailbox::new())));
            let j = quiet(|| rt::spawn(move || worker::<H>(bench, c)));
            quiet(|| joins.push(j));
            if last {
                return reader::<H>(wire, bench, c);
            }
            let j = quiet(|| rt::spawn(move || reader::<H>(wire, bench, c)));
            quiet(|| joins.push(j));
        }
        let last = k + 1 == nconn;
        match kind {
            0 => both::<ByteQueue>(wire, c, last, &mut joins),
            1 => both::<ByteData>(wire, c, last, &mut joins),
            2 => both::<StringQueue>(wire, c, last, &mut joins),
            _ => both::<StringData>(wire, c, last, &mut joins),
        }
    }
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    check_owners();
}
