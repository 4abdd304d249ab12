//! Rendering (C23): threads print values, in every representation and with every history, into sinks that stall, refuse
//! or panic at any point, while others use and drop what shares their storage.  The oracle is the rendering of the flat
//! bytes by something else; what a sink took is always the beginning of that.
use super::common::*;
use super::keys::{AllText, NAMES, V};
use super::parse::word;
use crate::model::{check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{
    ByteChunk, ByteData, ByteQueue, ByteStringRender, MultiByteStringRender, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue,
};
use core::fmt::{self, Debug, Display, LowerHex, UpperHex, Write};
use nom::HexDisplay;

// ------------------------------------------------------------------ what is asked for
#[derive(Clone, Copy)]
struct Form {
    /// 0 plain, 1 debug, 2 hexadecimal in small, 3 in large letters
    how: u32,
    /// fill and alignment
    fa: u32,
    width: Option<usize>,
    precision: Option<usize>,
    alt: bool,
}
impl Form {
    fn new(c: [u32; 3]) -> Form {
        Form {
            how: c[0] % 4,
            fa: c[0] / 4 % 8,
            width: (c[1] % 3 == 0).then_some(c[1] as usize / 3 % [8, 70][c[1] as usize / 3 % 2]),
            precision: (c[2] % 3 == 0).then_some(c[2] as usize / 3 % [4, 50][c[2] as usize / 3 % 2]),
            alt: c[2] % 5 == 4,
        }
    }
}
macro_rules! padded {
    ($f:expr, $w:expr, $x:expr, $($fa:literal)*; $kind:literal) => {
        padded!(@ $f, $w, $x, 0, [$($fa)*], $kind)
    };
    (@ $f:expr, $w:expr, $x:expr, $n:expr, [$fa:literal $($rest:literal)*], $kind:literal) => {
        if $f.fa == $n {
            match ($f.width, $f.precision) {
                (None, None) => write!($w, concat!("{:", $fa, $kind, "}"), $x),
                (Some(w), None) => write!($w, concat!("{:", $fa, "1$", $kind, "}"), $x, w),
                (None, Some(p)) => write!($w, concat!("{:", $fa, ".1$", $kind, "}"), $x, p),
                (Some(w), Some(p)) => write!($w, concat!("{:", $fa, "1$.2$", $kind, "}"), $x, w, p),
            }
        } else {
            padded!(@ $f, $w, $x, $n + 1, [$($rest)*], $kind)
        }
    };
    (@ $f:expr, $w:expr, $x:expr, $n:expr, [], $kind:literal) => {
        write!($w, concat!("{:", $kind, "}"), $x)
    };
}
fn plain(f: &Form, w: &mut impl Write, x: &(impl Display + ?Sized)) -> fmt::Result {
    padded!(f, w, x, "" "<" "^" ">" "*<" "é^" "0>" "€>"; "")
}
fn debug(f: &Form, w: &mut impl Write, x: &(impl Debug + ?Sized)) -> fmt::Result {
    if f.alt {
        write!(w, "{:#?}", x)
    } else {
        padded!(f, w, x, "" "<" "^" ">" "*<" "é^" "0>" "€>"; "?")
    }
}
fn lower(f: &Form, w: &mut impl Write, x: &(impl LowerHex + ?Sized)) -> fmt::Result {
    padded!(f, w, x, "" "<" "^" ">" "*<" "é^" "0>" "€>"; "x")
}
fn upper(f: &Form, w: &mut impl Write, x: &(impl UpperHex + ?Sized)) -> fmt::Result {
    padded!(f, w, x, "" "<" "^" ">" "*<" "é^" "0>" "€>"; "X")
}
/// What the renderings of bytes are, written down once more.
fn hex(f: &Form, b: &[u8]) -> String {
    let mut s = String::new();
    for _ in b.len() * 2..f.width.unwrap_or(0) {
        s.push('0');
    }
    let d = if f.how == 3 { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    for x in b {
        s.push(d[(*x >> 4) as usize] as char);
        s.push(d[(*x & 15) as usize] as char);
    }
    s
}
fn escaped(b: &[u8]) -> String {
    let mut s = String::new();
    for &x in b {
        match x {
            b'\\' => s.push_str("\\\\"),
            b'"' => s.push_str("\\\""),
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            b'\t' => s.push_str("\\t"),
            32..=126 => s.push(x as char),
            _ => {
                let d = b"0123456789abcdef";
                s.push_str("\\x");
                s.push(d[(x >> 4) as usize] as char);
                s.push(d[(x & 15) as usize] as char);
            }
        }
    }
    s
}
fn quoted(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    s.push_str(&escaped(b));
    s.push('"');
    s
}
/// What is printed: a value, or something made of it for the occasion.
enum Thing<'a> {
    V(&'a V),
    Str(&'a SharedStrBuilder),
    Build(&'a SharedBytesBuilder),
    One(ByteStringRender<'a>),
    Many(&'a Vec<ByteData<'static>>),
    Chunk(ByteChunk),
}
/// Whether there is such a rendering; `None`: print it another way.
fn expected(t: &Thing<'_>, f: &Form, b: &Q) -> Option<String> {
    let text = |alt: bool, chunks: Option<Vec<&str>>| {
        let mut s = String::new();
        let _ = match (f.how, chunks) {
            (0, _) => plain(f, &mut s, b.s()),
            (_, Some(c)) => debug(&Form { alt, ..*f }, &mut s, &c[..]),
            (_, None) => debug(&Form { alt, ..*f }, &mut s, b.s()),
        };
        Some(s)
    };
    match (t, f.how) {
        (Thing::V(V::S(_)), 0 | 1) => text(f.alt, None),
        (Thing::V(V::T(q)), 0 | 1) => {
            let c: Vec<&str> = q.chunks().map(|c| c.as_str()).collect();
            text(f.alt, Some(c))
        }
        (Thing::Str(_), 0) => text(f.alt, None),
        (Thing::V(V::D(_) | V::Q(_)) | Thing::Chunk(_), 1) => Some(quoted(b.b())),
        (Thing::One(_) | Thing::Many(_), 0) => Some(escaped(b.b())),
        (Thing::One(_) | Thing::Many(_), 1) => Some(quoted(b.b())),
        (Thing::V(V::D(_) | V::B(_) | V::Q(_)) | Thing::Build(_) | Thing::One(_), 2 | 3) => Some(hex(f, b.b())),
        _ => None,
    }
}
fn print(t: &Thing<'_>, f: &Form, w: &mut impl Write) -> fmt::Result {
    macro_rules! hexed {
        ($x:expr) => {
            if f.how == 2 {
                lower(f, w, $x)
            } else {
                upper(f, w, $x)
            }
        };
    }
    match (t, f.how) {
        (Thing::V(V::S(x)), 0) => plain(f, w, x),
        (Thing::V(V::S(x)), _) => debug(f, w, x),
        (Thing::V(V::T(x)), 0) => plain(f, w, x),
        (Thing::V(V::T(x)), _) => debug(f, w, x),
        (Thing::Str(x), _) => plain(f, w, *x),
        (Thing::V(V::D(x)), 1) => debug(f, w, x),
        (Thing::V(V::D(x)), _) => hexed!(x),
        (Thing::V(V::Q(x)), 1) => debug(f, w, x),
        (Thing::V(V::Q(x)), _) => hexed!(x),
        (Thing::V(V::B(x)), _) => hexed!(x),
        (Thing::Build(x), _) => hexed!(*x),
        (Thing::Chunk(x), _) => debug(f, w, x),
        (Thing::One(x), 0) => plain(f, w, x),
        (Thing::One(x), 1) => debug(f, w, x),
        (Thing::One(x), _) => hexed!(x),
        (Thing::Many(x), 0) => plain(f, w, &MultiByteStringRender::<Vec<ByteData<'static>>, &ByteData<'static>>::new(*x)),
        (Thing::Many(x), _) => debug(f, w, &MultiByteStringRender::<Vec<ByteData<'static>>, &ByteData<'static>>::new(*x)),
    }
}

// ------------------------------------------------------------------ where it goes
/// Takes what fits; stalls, refuses or panics at any point.
struct Sink {
    got: Q,
    room: usize,
    live: bool,
    refused: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::check_read(s.as_bytes());
        rt::nofault(|| {
            if self.refused {
                viol!("render", "something was written after the sink had refused");
            }
            match rt::fault(fk::PENDING, 12) {
                0 => {}
                _ => rt::yield_now(),
            }
            if self.live && rt::fault(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(830);
            }
            if s.len() > self.room || (self.live && rt::fault(fk::REFUSE, 1) == 1) {
                self.refused = true;
                return Err(fmt::Error);
            }
            self.room -= s.len();
            self.got.push(s.as_bytes());
            Ok(())
        })
    }
}
/// A writer of bytes that takes as much as it likes.
struct Raw {
    got: Q,
    room: usize,
    failed: bool,
}
impl std::io::Write for Raw {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        rt::check_read(b);
        rt::nofault(|| {
            if rt::fault(fk::STREAM_ERR, 1) == 1 {
                return quiet(|| Err(std::io::Error::from(std::io::ErrorKind::Interrupted)));
            }
            let n = match rt::fault(fk::SHORT, 2) {
                0 => b.len(),
                1 => 1,
                _ => b.len() / 2 + 1,
            }
            .min(b.len())
            .min(self.room);
            if n == 0 && !b.is_empty() {
                self.failed = true;
                return quiet(|| Err(std::io::Error::from(std::io::ErrorKind::StorageFull)));
            }
            self.room -= n;
            self.got.push(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// `write!` needs a `fmt::Write`: what `io::Write::write_fmt` makes of it.
struct Thru<'a, 'b>(&'a Thing<'b>, &'a Form);
impl Display for Thru<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        print(self.0, self.1, f)
    }
}
fn outcome(name: &str, f: &Form, want: &[u8], got: &[u8], ok: Option<bool>, refused: bool) {
    rt::check_read(got);
    let n = got.len().min(want.len());
    if quiet(|| got.len() > want.len() || got[..n] != want[..n]) {
        let m = quiet(|| crate::model::diff(&want[..got.len().min(want.len())], got));
        viol!("render", "{} printed ({}/{:?}/{:?}): {}", name, f.how, f.width, f.precision, m);
    }
    match ok {
        Some(true) if refused => viol!("render", "{}: a refusal of the sink was swallowed", name),
        Some(true) if got.len() != want.len() => viol!("render", "{} printed {} of {} bytes", name, got.len(), want.len()),
        Some(false) if !refused => viol!("render", "{}: printing failed without a reason", name),
        _ => {}
    }
}
fn show(name: &str, t: &Thing<'_>, f: Form, b: &Q, sink: u32, faulty: bool, faults: &mut usize) {
    let Some(want) = quiet(|| expected(t, &f, b)) else { return };
    op!("print {} of {} bytes ({}), {} bytes, into {}", name, b.len(), f.how, want.len(), sink % 8);
    rt::extend(want.len() * 12);
    let live = faulty && *faults < 12;
    let w = want.as_bytes();
    // a place where it ends
    let room = if sink / 8 % 3 == 0 { (sink / 24) as usize % (want.len() + 2) } else { usize::MAX };
    let mut done = |r: &Result<fmt::Result, Unwound>| match r {
        Ok(r) => Some(r.is_ok()),
        Err(Unwound::Lib(m)) => viol!("panic", "printing {} of {} bytes panicked: {}", name, b.len(), m),
        Err(_) => {
            *faults += 1;
            None
        }
    };
    match sink % 8 {
        0 | 1 | 2 => {
            let mut s = Sink { got: Q::new(&[]), room, live, refused: false };
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            outcome(name, &f, w, s.got.b(), ok, s.refused);
        }
        3 => {
            let mut s = Raw { got: Q::new(&[]), room, failed: false };
            let r = run_in(false, || rt::nofault(|| std::io::Write::write_fmt(&mut s, format_args!("{}", Thru(t, &f))).map_err(|e| {
                quiet(|| drop(e));
                fmt::Error
            })));
            let ok = done(&r);
            outcome(name, &f, w, s.got.b(), ok, s.failed);
        }
        // into what the library has for it
        4 => {
            let mut s = SharedStrBuilder::new();
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            outcome(name, &f, w, s.as_str().as_bytes(), ok, false);
        }
        5 => {
            let mut s = SharedBytesBuilder::new();
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            outcome(name, &f, w, s.as_slice(), ok, false);
        }
        6 if want.len() < 200 => {
            let mut s = StringQueue::new();
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            let mut got = Q::new(&[]);
            for c in s.chunks() {
                got.push(c.as_bytes());
            }
            outcome(name, &f, w, got.b(), ok, false);
        }
        6 => {
            let mut s = ByteQueue::new();
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            let mut got = Q::new(&[]);
            for c in s.chunks() {
                got.push(c.as_slice());
            }
            outcome(name, &f, w, got.b(), ok, false);
        }
        _ => {
            let mut s = ByteChunk::from_slice(b"");
            let r = run_in(live, || print(t, &f, &mut s));
            let ok = done(&r);
            outcome(name, &f, w, s.as_slice(), ok, want.len() > ByteChunk::LEN);
        }
    }
    quiet(|| drop(want));
}

/// What shows more than the contents shows the contents.
fn all_there(name: &str, f: impl FnOnce() -> String, want: impl FnOnce(&[u8]) -> String, w: &Q, live: bool, faults: &mut usize) {
    rt::extend(w.len() * 8);
    match run_in(live, f) {
        Ok(s) => quiet(|| {
            if !s.contains(&want(w.b())) {
                viol!("render", "{} of {} bytes is shown as {}", name, w.len(), s);
            }
        }),
        Err(Unwound::Lib(m)) => viol!("panic", "showing {} of {} bytes panicked: {}", name, w.len(), m),
        Err(_) => *faults += 1,
    }
}
/// A dump for the eyes, as `nom` makes it of flat bytes: so many to a line, the lines numbered from an address.
fn dump(name: &str, v: &V, w: &Q, c: usize, d: usize, live: bool, faults: &mut usize) {
    let (per, from) = (1 + c % 20, if d % 3 == 0 { 0 } else { d / 3 });
    op!("dump {} of {} bytes, {} to a line, from {}", name, w.len(), per, from);
    rt::extend(w.len() * 8);
    let make = |v: &V| match v {
        V::D(x) => x.to_hex_from(per, from),
        V::Q(x) => x.to_hex_from(per, from),
        V::S(x) => x.to_hex_from(per, from),
        V::T(x) => x.to_hex_from(per, from),
        V::B(_) => String::new(),
    };
    let zero = |v: &V| match v {
        V::D(x) => x.to_hex(per),
        V::Q(x) => x.to_hex(per),
        V::S(x) => x.to_hex(per),
        V::T(x) => x.to_hex(per),
        V::B(_) => String::new(),
    };
    if let V::B(x) = v {
        return all_there(name, || format!("{:?}", x), quoted, w, live, faults);
    }
    match run_in(live, || if from == 0 { zero(v) } else { make(v) }) {
        Ok(s) => {
            let want = quiet(|| w.b().to_hex_from(per, from));
            check_bytes("a dump", want.as_bytes(), s.as_bytes());
            quiet(|| drop(want));
        }
        Err(Unwound::Lib(m)) => viol!("panic", "dumping {} of {} bytes, {} to a line, from {} panicked: {}", name, w.len(), per, from, m),
        Err(_) => *faults += 1,
    }
}

// ------------------------------------------------------------------ the threads
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    c: [u32; 7],
}
struct Run {
    boxes: &'static [Mailbox<(V, Q)>],
    texts: &'static [Q],
    faulty: bool,
}
/// A use of a value that may change what it shares storage with.
pub(super) fn disturb(v: V, c: u32) -> V {
    rt::nofault(|| match v {
        V::D(d) => {
            let n = d.len();
            match c % 3 {
                0 => V::D(d.into_sliced(c as usize / 3 % (n + 1)..)),
                1 => {
                    let mut b = SharedBytesBuilder::from(SharedBytes::from(d));
                    b.extend_from_slice(b"more");
                    V::D(b.into())
                }
                _ => V::Q(ByteQueue::from(d)),
            }
        }
        V::S(s) => match c % 2 {
            0 => V::T(StringQueue::from(s)),
            _ => {
                let mut b = SharedStrBuilder::from(s);
                b.push_str("more");
                V::S(b.into())
            }
        },
        V::B(b) => match c % 2 {
            0 => {
                let mut v = Vec::<u8>::from(ByteData::from(b));
                for x in v.iter_mut() {
                    *x ^= 1;
                }
                V::D(ByteData::from(v))
            }
            _ => V::D(ByteData::from(b)),
        },
        V::Q(mut q) => {
            match c % 3 {
                0 => q.consume((c as usize / 3) % (q.len() + 1)),
                1 => q.push_front(ByteData::from_static(b"front")),
                _ => drop(q.pop_back()),
            }
            V::Q(q)
        }
        V::T(mut q) => {
            match c % 3 {
                0 => drop(q.take_line()),
                1 => q.push_front(StringData::from_static("fr€nt")),
                _ => drop(q.pop_back()),
            }
            V::T(q)
        }
    })
}
fn thread(me: usize, prog: &'static [Op], r: &'static Run) {
    let mut pool: Vec<(V, Q)> = quiet(|| Vec::with_capacity(16));
    let mut faults = 0;
    let text = |c: u32, only: bool| -> &'static Q {
        let n = r.texts.len();
        (0..n).map(|i| &r.texts[(c as usize + i) % n]).find(|q| !only || q.boundary_all()).unwrap_or(&r.texts[0])
    };
    for o in prog {
        if rt::blocks() > 100_000 {
            break;
        }
        while pool.len() < 8 {
            let Some((v, w)) = r.boxes[me].try_recv() else { break };
            quiet(|| pool.push((v, w)));
        }
        let c = o.c;
        let ty = c[0] % 5;
        let f = Form::new([c[4], c[5], c[6]]);
        match o.k {
            0 | 1 => {
                let b = text(c[1], ty == 1 || ty == 4);
                op!("make {} of {} bytes", NAMES[ty as usize], b.len());
                let v = V::make(ty, b, [c[2], c[3]]);
                if pool.len() < 8 {
                    let w = b.clone();
                    quiet(|| pool.push((v, w)));
                }
            }
            2..=6 if !pool.is_empty() => {
                let (v, w) = &pool[c[1] as usize % pool.len()];
                show(NAMES[v.kind()], &Thing::V(v), f, w, c[2], r.faulty, &mut faults);
            }
            7 if !pool.is_empty() => {
                // one copy is printed while another is used
                let (v, w) = &pool[c[1] as usize % pool.len()];
                let Some(x) = must_in(false, || rt::nofault(|| v.clone())) else { continue };
                let mut n = 0;
                beside(|| show(NAMES[v.kind()], &Thing::V(v), f, w, c[2], false, &mut n), || drop(disturb(x, c[3])));
            }
            8 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = {
                    let (v, w) = &pool[i];
                    op!("a copy of {} goes to thread {}", NAMES[v.kind()], c[2] as usize % r.boxes.len());
                    (rt::nofault(|| v.clone()), w.clone())
                };
                r.boxes[c[2] as usize % r.boxes.len()].send((v, w));
            }
            9 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("use {} of {} bytes", NAMES[v.kind()], w.len());
                drop(w);
                let v = disturb(v, c[3]);
                let w = v.shown();
                quiet(|| pool.push((v, w)));
            }
            10 => {
                let b = text(c[1], c[2] % 6 == 0);
                match c[2] % 6 {
                    0 => {
                        let s = rt::nofault(|| {
                            let mut s = SharedStrBuilder::with_capacity(c[3] as usize % 40);
                            s.push_str(b.s());
                            s
                        });
                        if c[4] % 4 == 0 {
                            all_there("a text builder", || format!("{:?}", s), |_| format!("{:?}", b.s()), b, r.faulty && faults < 12, &mut faults);
                        }
                        show("a text builder", &Thing::Str(&s), Form { how: 0, ..f }, b, c[3], r.faulty, &mut faults)
                    }
                    1 => {
                        let s = rt::nofault(|| {
                            let mut s = SharedBytesBuilder::with_capacity(c[3] as usize % 40);
                            s.extend_from_slice(b.b());
                            s
                        });
                        show("a builder", &Thing::Build(&s), Form { how: 2 + f.how % 2, ..f }, b, c[3], r.faulty, &mut faults)
                    }
                    2 => {
                        let held = b.b();
                        let x = match c[1] as usize / r.texts.len() % 5 {
                            0 => ByteStringRender::from_slice(b.b()),
                            1 if b.is_text() => ByteStringRender::from_str(b.s()),
                            2 if b.is_text() => ByteStringRender::from(b.s()),
                            3 => ByteStringRender::from(b.b()),
                            _ => ByteStringRender::from_ref(&held),
                        };
                        check_bytes("as_slice of a renderer", b.b(), x.as_slice());
                        show("a renderer", &Thing::One(x), f, b, c[3], r.faulty, &mut faults)
                    }
                    3 | 4 => {
                        let mut v: Vec<ByteData<'static>> = rt::nofault(|| Vec::with_capacity(b.len()));
                        let mut at = 0;
                        while at < b.len() {
                            let n = (1 + (c[3] as usize + at) % 20).min(b.len() - at);
                            let V::D(d) = V::make(0, &b.sub(at, at + n), [c[3] + at as u32, c[2]]) else { unreachable!() };
                            rt::nofault(|| v.push(d));
                            at += n;
                        }
                        show("a renderer of several", &Thing::Many(&v), Form { how: f.how % 2, ..f }, b, c[3], r.faulty, &mut faults);
                        rt::nofault(|| drop(v));
                    }
                    _ => {
                        let b = b.sub(0, b.len().min(ByteChunk::LEN));
                        let x = ByteChunk::from_slice(b.b());
                        show("a chunk", &Thing::Chunk(x), Form { how: 1, ..f }, &b, c[3], r.faulty, &mut faults)
                    }
                }
            }
            12 if !pool.is_empty() => {
                let (v, w) = &pool[c[1] as usize % pool.len()];
                dump(NAMES[v.kind()], v, w, c[2] as usize, c[3] as usize, r.faulty && faults < 12, &mut faults);
            }
            11 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("drop {} of {} bytes", NAMES[v.kind()], w.len());
                drop(v);
                drop(w);
            }
            _ => {}
        }
        rt::state(o.k as u64 | (ty as u64) << 8 | (f.how as u64) << 12 | (f.width.unwrap_or(99) as u64) << 16 | (c[2] as u64 % 24) << 32);
    }
    while let Some((v, w)) = quiet(|| pool.pop()) {
        check_bytes("a value printed", w.b(), v.shown().b());
        drop(v);
        drop(w);
    }
    quiet(|| drop(pool));
}
pub fn c23() {
    let faulty = rt::w(2) == 1;
    rt::profile(if faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let mut texts: Vec<Q> = quiet(Vec::new);
    for _ in 0..1 + rt::w(5) {
        let mut x = word(rt::w([4, 12, 40][rt::w(3) as usize]) as usize, [2u32, 16, 16][rt::w(3) as usize]);
        for _ in 0..rt::w(4) {
            // everything that is escaped, and what lies next to it
            let b = [0u8, 7, 9, 10, 13, 31, 32, 33, 34, 35, 91, 92, 93, 126, 127, b'a'][rt::w(16) as usize];
            x.push(&[b]);
        }
        if rt::w(2) == 0 {
            // no text any more
            x.push(&[0x80 | rt::w(128) as u8]);
        }
        quiet(|| texts.push(x));
    }
    quiet(|| texts.push(Q::new(b"")));
    let nthr = 1 + rt::w(3) as usize;
    let mut progs: Vec<&'static [Op]> = quiet(Vec::new);
    let mut ops = 0;
    for _ in 0..nthr {
        let mut p = quiet(Vec::new);
        while p.len() < 30 && rt::w(12) != 0 {
            let o = Op { k: rt::w(13), c: [rt::w(5), rt::w(64), rt::w(2048), rt::w(4096), rt::w(32), rt::w(512), rt::w(512)] };
            quiet(|| p.push(o));
        }
        ops += p.len();
        quiet(|| progs.push(Box::leak(p.into_boxed_slice())));
    }
    if ops >= 5 {
        rt::nontrivial();
    }
    let r: &'static Run = quiet(|| {
        Box::leak(Box::new(Run {
            boxes: Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()),
            texts: Box::leak(texts.into_boxed_slice()),
            faulty,
        }))
    });
    let mut joins = quiet(Vec::new);
    for i in 1..nthr {
        let p = progs[i];
        let j = quiet(|| rt::spawn(move || thread(i, p, r)));
        quiet(|| joins.push(j));
    }
    thread(0, progs[0], r);
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for i in 0..nthr {
        while let Some((v, w)) = r.boxes[i].try_recv() {
            check_bytes("a value nobody took", w.b(), v.shown().b());
            drop(v);
            drop(w);
        }
    }
    quiet(|| drop(progs));
    check_owners();
}
