//! The handle machine: simulated threads create, view, re-slice, convert, write to, hand over and drop handles of every
//! kind; the oracle knows the bytes each must show, and which blocks are certainly held by whom.
use super::common::*;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use crate::with_range;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use bytes::{Buf, Bytes, BytesMut};

pub enum H {
    Sb(SharedBytes),
    Bd(ByteData<'static>),
    Sd(StringData<'static>),
    By(Bytes),
    Q(ByteQueue<'static>),
    Sq(StringQueue<'static>),
    Bu(SharedBytesBuilder),
    St(SharedStrBuilder),
    V(Vec<u8>),
    S(String),
    Bm(BytesMut),
}
pub const KIND: [&str; 11] =
    ["SharedBytes", "ByteData", "StringData", "Bytes", "ByteQueue", "StringQueue", "SharedBytesBuilder", "SharedStrBuilder", "Vec", "String", "BytesMut"];
impl H {
    pub fn kind(&self) -> usize {
        match self {
            H::Sb(_) => 0,
            H::Bd(_) => 1,
            H::Sd(_) => 2,
            H::By(_) => 3,
            H::Q(_) => 4,
            H::Sq(_) => 5,
            H::Bu(_) => 6,
            H::St(_) => 7,
            H::V(_) => 8,
            H::S(_) => 9,
            H::Bm(_) => 10,
        }
    }
    pub fn writable(&self) -> bool {
        self.kind() >= 6
    }
    fn slice(&self) -> Option<&[u8]> {
        Some(match self {
            H::Sb(x) => x.as_slice(),
            H::Bd(x) => x.as_slice(),
            H::Sd(x) => x.as_bytes(),
            H::By(x) => x.as_ref(),
            H::Bu(x) => x.as_slice(),
            H::St(x) => x.as_bytes(),
            H::V(x) => x.as_slice(),
            H::S(x) => x.as_bytes(),
            H::Bm(x) => x.as_ref(),
            H::Q(_) | H::Sq(_) => return None,
        })
    }
    fn len(&self) -> usize {
        match self {
            H::Sb(x) => x.len(),
            H::Bd(x) => x.len(),
            H::Sd(x) => x.len(),
            H::By(x) => x.len(),
            H::Q(x) => x.len(),
            H::Sq(x) => x.len(),
            H::Bu(x) => x.len(),
            H::St(x) => x.len(),
            H::V(x) => x.len(),
            H::S(x) => x.len(),
            H::Bm(x) => x.len(),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            H::Sb(x) => x.is_empty(),
            H::Bd(x) => x.is_empty(),
            H::Sd(x) => x.is_empty(),
            H::By(x) => x.is_empty(),
            H::Q(x) => x.is_empty(),
            H::Sq(x) => x.is_empty(),
            H::Bu(x) => x.is_empty(),
            H::St(x) => x.is_empty(),
            H::V(x) => x.is_empty(),
            H::S(x) => x.is_empty(),
            H::Bm(x) => x.is_empty(),
        }
    }
    /// The simulated block whose bytes it shows (0: inline, static or several).
    fn blk(&self) -> u32 {
        match self.slice() {
            Some(s) if !s.is_empty() => rt::block(s.as_ptr()),
            _ => 0,
        }
    }
    /// Does showing bytes of a block imply owning a share of it?
    fn shares(&self) -> bool {
        true
    }
}

/// Checks everything a queue shows.
pub fn check_queue(what: &str, q: &ByteQueue<'_>, want: &[u8]) {
    let mut p = 0;
    let mut n = 0;
    for c in q.chunks() {
        let s = c.as_slice();
        let e = (p + s.len()).min(want.len());
        if s.is_empty() {
            viol!("content", "{}: chunk {} of {} is empty", what, n, q.chunk_len());
        }
        if s.len() > want.len() - p {
            viol!("content", "{}: chunks hold more than the expected {} bytes", what, want.len());
        }
        check_bytes(what, &want[p..e], s);
        p = e;
        n += 1;
    }
    if p != want.len() {
        viol!("content", "{}: chunks hold {} of the expected {} bytes", what, p, want.len());
    }
    if q.chunk_len() != n {
        viol!("count", "{}: chunk_len() is {} but {} chunks were produced", what, q.chunk_len(), n);
    }
    if q.len() != want.len() {
        viol!("count", "{}: len() is {} but it holds {} bytes", what, q.len(), want.len());
    }
    if q.is_empty() != want.is_empty() {
        viol!("count", "{}: is_empty() is {} for {} bytes", what, q.is_empty(), want.len());
    }
    match (q.front(), q.back()) {
        (Some(f), Some(b)) => {
            if n == 0 || !want.starts_with(f.as_slice()) || !want.ends_with(b.as_slice()) {
                viol!("content", "{}: front()/back() do not match the ends", what);
            }
        }
        (None, None) if n == 0 => {}
        (f, b) => viol!("content", "{}: front() {} and back() {} with {} chunks", what, f.is_some(), b.is_some(), n),
    }
}
pub fn check_squeue(what: &str, q: &StringQueue<'_>, want: &[u8]) {
    for (i, c) in q.byte_chunks().enumerate() {
        if quiet(|| core::str::from_utf8(c.as_slice()).is_err()) {
            viol!("utf8", "{}: chunk {} is not valid UTF-8", what, i);
        }
    }
    check_queue(what, q.as_bytequeue(), want);
    if q.len() != want.len() || q.is_empty() != want.is_empty() || q.chunk_len() != q.as_bytequeue().chunk_len() {
        viol!("count", "{}: string queue len {} / chunk_len {} disagree with its {} bytes", what, q.len(), q.chunk_len(), want.len());
    }
}

pub struct Hd {
    pub(super) h: Option<H>,
    pub want: Q,
    pub(super) blk: u32,
}
impl Hd {
    pub fn new(h: H, want: Q) -> Self {
        let blk = quiet(|| if h.shares() { h.blk() } else { 0 });
        if h.writable() && blk != 0 && holders(blk) != 0 {
            viol!(
                "exclusive",
                "{} was given writable access to block #{} while {} other handle(s) still show it",
                KIND[h.kind()],
                blk - 1,
                holders(blk)
            );
        }
        hold(blk);
        rt::state(((h.kind() as u64) << 32) | ((want.len() as u64) << 8) | ((blk != 0) as u64) << 7 | holders(blk).min(7) as u64);
        Hd { h: Some(h), want, blk }
    }
    pub fn h(&self) -> &H {
        self.h.as_ref().unwrap()
    }
    pub(super) fn hm(&mut self) -> &mut H {
        self.h.as_mut().unwrap()
    }
    /// Gives up the handle for consumption by an operation.
    pub(super) fn take(mut self) -> (H, Q) {
        unhold(self.blk);
        self.blk = 0;
        let h = self.h.take().unwrap();
        let w = core::mem::replace(&mut self.want, Q::new(&[]));
        (h, w)
    }
    /// Before an in-place operation that may give up the handle's share: from here to `rehold`, it does not certainly
    /// hold its block any more.
    pub(super) fn loosen(&mut self) {
        unhold(self.blk);
        self.blk = 0;
    }
    /// After an in-place operation.
    pub(super) fn rehold(&mut self) {
        let b = quiet(|| self.h.as_ref().map(|h| h.blk()).unwrap_or(0));
        if b != self.blk {
            unhold(self.blk);
            if self.h().writable() && holders(b) != 0 {
                viol!("exclusive", "{} now writes to block #{} which {} other handle(s) show", KIND[self.h().kind()], b - 1, holders(b));
            }
            hold(b);
            self.blk = b;
        }
    }
    pub(super) fn h_len(&self) -> usize {
        self.h().len()
    }
    pub fn check(&self) {
        let h = self.h();
        let k = KIND[h.kind()];
        match h {
            H::Q(q) => return check_queue(k, q, self.want.b()),
            H::Sq(q) => return check_squeue(k, q, self.want.b()),
            _ => {}
        }
        let s = h.slice().unwrap();
        check_bytes(k, self.want.b(), s);
        if h.len() != self.want.len() || h.is_empty() != (self.want.len() == 0) {
            viol!("count", "{}: len() {} is_empty() {} for {} bytes", k, h.len(), h.is_empty(), self.want.len());
        }
        if matches!(h, H::Sd(_) | H::St(_) | H::S(_)) && quiet(|| core::str::from_utf8(s).is_err()) {
            viol!("utf8", "{}: not valid UTF-8", k);
        }
        match h {
            H::Sd(x) if x.as_str().len() != self.want.len() => viol!("count", "{}: as_str() has the wrong length", k),
            H::Bu(x) if x.capacity() < x.len() => viol!("count", "{}: capacity {} below length {}", k, x.capacity(), x.len()),
            H::St(x) if x.capacity() < x.len() => viol!("count", "{}: capacity {} below length {}", k, x.capacity(), x.len()),
            _ => {}
        }
    }
}
impl Drop for Hd {
    fn drop(&mut self) {
        unhold(self.blk);
        drop(self.h.take());
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Check,
    Clone,
    Drop,
    Send,
    Recv,
    Slice,
    SliceInto,
    Conv,
    New,
    Write,
    Unique,
    Queue,
    Split,
    Buf,
    Eq,
    Common,
}
pub struct Cfg {
    pub weights: &'static [(K, u32)],
    /// sources to start from: see `source`
    pub sources: &'static [u32],
    pub bad_ranges: bool,
    pub faulty: bool,
    pub beh: Beh,
    pub max_threads: usize,
    pub max_ops: usize,
    /// only these conversions' results are wanted (empty: all)
    pub text: u32,
}
#[derive(Clone, Copy)]
pub struct Op {
    k: K,
    a: u32,
    c: [u32; 3],
}
fn draw_op(cfg: &Cfg) -> Op {
    let tot: u32 = cfg.weights.iter().map(|x| x.1).sum();
    let mut x = rt::w(tot);
    let mut k = cfg.weights[0].0;
    for &(kk, wt) in cfg.weights {
        if x < wt {
            k = kk;
            break;
        }
        x -= wt;
    }
    Op { k, a: rt::w(16), c: [rt::w(4096), rt::w(4096), rt::w(256)] }
}
pub fn draw_program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let mut v = Vec::new();
        // one "go on" choice per operation, so that operations can be cut out one by one
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            v.push(draw_op(cfg));
        }
        v
    })
}

pub struct M {
    pub v: Vec<Hd>,
    cfg: &'static Cfg,
    boxes: &'static [Mailbox<Hd>],
    common: &'static [Hd],
}
const CAP: usize = 10;

/// The handle, whatever happened, when a conversion did not want it.
enum Conv {
    Done(H),
    Back(H),
}

fn run<R>(cfg: &Cfg, f: impl FnOnce() -> R) -> Result<R, Unwound> {
    if cfg.faulty {
        rt::faulty(f)
    } else {
        rt::catch(f)
    }
}
/// A library call that is allowed to unwind only because an allocation or a callback failed.
fn must<R>(cfg: &Cfg, f: impl FnOnce() -> R) -> Option<R> {
    match run(cfg, f) {
        Ok(r) => Some(r),
        Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
        Err(_) => None,
    }
}

/// A clone; `None` inside if the call was interrupted, outside if there is no such call.
fn copy_of(cfg: &Cfg, h: &H) -> Option<Option<H>> {
    Some(match h {
        H::Sb(x) => must(cfg, || H::Sb(x.clone())),
        H::Bd(x) => must(cfg, || H::Bd(x.clone())),
        H::Sd(x) => must(cfg, || H::Sd(x.clone())),
        H::By(x) => Some(H::By(x.clone())),
        H::Q(x) => must(cfg, || H::Q(x.clone())),
        H::Sq(x) => must(cfg, || H::Sq(x.clone())),
        _ => return None,
    })
}
/// Creates a fresh storage; `c` selects which kind.
/// A handle on part of a buffer that was lent, then overwritten and released.
fn lent(cfg: &Cfg, tag: u32, n: usize, text: bool) -> Option<Hd> {
    let (i, j) = (rt::w(24) as usize, rt::w(24) as usize);
    let all = if text { model::gen_text(tag, n + i + j) } else { model::gen_bytes(tag, n + i + j) };
    let (a, e) = if text { (floor(&all, i), floor(&all, i + n)) } else { (i, i + n) };
    op!("{} bytes lent, {}..{} of them kept{}", all.len(), a, e, if text { " as text" } else { "" });
    let mut lender = rt::nofault(|| all.b().to_vec());
    let r = must(cfg, || super::lent::lent(&lender, text, a, e));
    for x in lender.iter_mut() {
        *x = !*x;
    }
    drop(lender);
    let hd = Hd::new(r?, all.sub(a, e));
    hd.check();
    Some(hd)
}
pub fn source(cfg: &Cfg, c: [u32; 3]) -> Option<Hd> {
    let n = len_for(c[1]);
    let tag = next_tag();
    let want = if cfg.text != 0 && c[2] % 4 < cfg.text { model::gen_text(tag, n) } else { model::gen_bytes(tag, n) };
    let which = cfg.sources[c[0] as usize % cfg.sources.len()];
    if which >= 30 {
        return lent(cfg, tag, n, which == 31);
    }
    let n = match which {
        26 => [0, 1, 7, 13, 14][c[1] as usize % 5],
        25 => 1,
        _ => n,
    };
    let want = if matches!(which, 25..) { if matches!(which, 27 | 28 | 29) { model::gen_text(tag, n) } else { model::gen_bytes(tag, n) } } else { want };
    let small = n;
    op!("new source {} with {} bytes", which, n);
    let b = want.b();
    let beh = cfg.beh;
    let r = must(cfg, || match which {
        0 => H::Sb(SharedBytes::from_slice(b)),
        1 => H::Sb(SharedBytes::from_slice_aligned(b, 1 << (c[2] % 8))),
        2 => {
            let mut x = SharedBytesBuilder::with_alignment(1 << (c[2] % 8));
            for p in b.chunks(7) {
                x.extend_from_slice(p);
            }
            H::Sb(x.build())
        }
        3 => {
            let v = rt::nofault(|| b.to_vec());
            H::Bd(ByteData::from(v))
        }
        4 => H::Bd(ByteData::from_shared(SharedBytes::from(b))),
        5 => {
            let o = rt::nofault(|| OwnerS::make(b, beh, ()));
            H::Bd(ByteData::from_external(o))
        }
        6 => {
            let o = rt::nofault(|| OwnerB::make(b, beh, Al64(1)));
            H::Bd(ByteData::from_external(o))
        }
        7 if c[2] % 2 != 0 => {
            let o = rt::nofault(|| OwnerV::make(b, beh));
            H::Bd(ByteData::from_external(o))
        }
        7 => {
            let o = rt::nofault(|| OwnerL::make(b, beh, [7; 9]));
            H::Bd(ByteData::from_external(o))
        }
        8 => {
            let v = rt::nofault(|| {
                // spare capacity, so that taking it back keeps the very buffer
                let mut v = Vec::with_capacity(b.len() + c[2] as usize % 9);
                v.extend_from_slice(b);
                v
            });
            H::Bd(ByteData::from_external(v))
        }
        9 => H::Bd(ByteData::from_static(leak_static(&want))),
        10 => H::Bd(ByteData::from_chunk_slice(&b[..b.len().min(14)])),
        11 => {
            let v = rt::nofault(|| b.to_vec());
            H::By(Bytes::from(v))
        }
        12 => H::By(Bytes::from(SharedBytes::from_slice(b))),
        13 => H::Bd(ByteData::from_external(OwnerN(leak_static(&want)))),
        14 => {
            let v = rt::nofault(|| b.to_vec().into_boxed_slice());
            H::Bd(ByteData::from_external(v))
        }
        15 if want.is_text() && c[2] & 4 != 0 => {
            let t = rt::nofault(|| want.s().to_string());
            match c[2] & 3 {
                0 => H::Bd(ByteData::from_external(t)),
                1 => H::Bd(ByteData::from_external(rt::nofault(|| t.into_boxed_str()))),
                2 => H::Bd(ByteData::from_external(rt::nofault(|| std::sync::Arc::<str>::from(t)))),
                _ => match StringData::try_from_bytedata(ByteData::from_external(t)) {
                    Ok(x) => H::Sd(x),
                    Err(x) => H::Bd(x),
                },
            }
        }
        15 => {
            let v: std::sync::Arc<[u8]> = rt::nofault(|| std::sync::Arc::from(b));
            H::Bd(ByteData::from_external(v))
        }
        16 => {
            let v = rt::nofault(|| Bytes::from(b.to_vec()));
            H::Bd(ByteData::from_external(v))
        }
        17 => H::Bd(ByteData::from_concat(&[unsafe { core::mem::transmute::<&[u8], &'static [u8]>(&b[..b.len() / 2]) }, unsafe {
            core::mem::transmute::<&[u8], &'static [u8]>(&b[b.len() / 2..])
        }])),
        18 => {
            let given = std::cell::Cell::new(0);
            let it = rt::nofault(|| super::common::It::new(b.to_vec(), beh.panics, beh.lies, &given));
            H::Bd(it.collect())
        }
        // borrowed: the lender outlives the run, but the library is told it is only borrowed
        19 => H::Bd(ByteData::from_borrowed(leak_static(&want))),
        20 if want.is_text() => {
            let s = rt::nofault(|| want.s().to_string());
            H::Sd(StringData::from(s))
        }
        21 => {
            let mut q = ByteQueue::new();
            for p in b.chunks(17) {
                q.push_back(ByteData::from_shared(SharedBytes::from_slice(p)));
            }
            H::Q(q)
        }
        22 => {
            let mut v = rt::nofault(|| Vec::with_capacity(b.len() + 3));
            rt::nofault(|| v.extend_from_slice(b));
            H::V(v)
        }
        23 => H::Bd(ByteData::from_cow(std::borrow::Cow::Borrowed(leak_static(&want)))),
        24 => H::By(Bytes::from_static(leak_static(&want))),
        25 if small == 1 => H::Bd(ByteData::from_byte(b[0])),
        26 => H::Bd(match small {
            0 => ByteData::from_chunk(&[0u8; 0]),
            1 => ByteData::from_chunk(&[b[0]]),
            7 => ByteData::from_chunk::<7>(b[..7].try_into().unwrap()),
            13 => ByteData::from_chunk::<13>(b[..13].try_into().unwrap()),
            _ => ByteData::from_chunk::<14>(b[..14].try_into().unwrap()),
        }),
        27 => H::Sb(match core::str::FromStr::from_str(core::str::from_utf8(b).unwrap_or("")) {
            Ok(x) => x,
            Err(e) => match e {},
        }),
        28 => {
            let s: &'static str = unsafe { core::str::from_utf8_unchecked(leak_static(&want)) };
            let cut = [0, c[1] as usize % (n + 1), c[2] as usize % (n + 1), n];
            let (x, y) = (floor(&want, cut[1].min(cut[2])), floor(&want, cut[1].max(cut[2])));
            H::Sd(match c[2] % 4 {
                0 => StringData::from_concat(&[s]),
                1 => StringData::from_concat(&[&s[..x], &s[x..]]),
                2 => StringData::from_concat(&[&s[..x], &s[x..x], &s[x..y], &s[y..]]),
                3 if n == 0 => match c[1] % 3 {
                    0 => bytedata::format_shared!(""),
                    1 => StringData::from_concat(&[]),
                    _ => StringData::default(),
                },
                _ => bytedata::format_shared!("{}{}", &s[..y], &s[y..]),
            })
        }
        29 => {
            use std::borrow::Cow;
            let s: &'static [u8] = leak_static(&want);
            let t: &'static str = core::str::from_utf8(s).unwrap_or("");
            let o = c[2] & 1 != 0;
            let cb = rt::nofault(|| if o { Cow::Owned(s.to_vec()) } else { Cow::Borrowed(s) });
            let ct = rt::nofault(|| if o { Cow::Owned(t.to_string()) } else { Cow::Borrowed(t) });
            match (c[2] >> 1) % 8 {
                0 => H::Bd(ByteData::from_cow_static(cb)),
                1 => H::Bd(ByteData::from(cb)),
                2 => H::Bd(ByteData::from(ct)),
                3 => H::Sd(StringData::from_cow_static(ct)),
                4 => H::Sd(StringData::from(ct)),
                5 => H::Q(ByteQueue::from(ct)),
                6 => H::Sq(StringQueue::from(ct)),
                _ => H::Q(ByteQueue::from(cb)),
            }
        }
        _ => H::Sb(SharedBytes::from_slice(b)),
    })?;
    let want = if which == 10 { want.sub(0, n.min(14)) } else { want };
    // an owner that lied about its length on the way in decides what is shown
    let want = if beh.lies && matches!(which, 5..=7) {
        let l = quiet(|| r.len());
        if l > want.len() {
            viol!("content", "ByteData of {} bytes from an owner that never had more than {}", l, want.len());
        }
        want.sub(0, l)
    } else {
        want
    };
    let hd = Hd::new(r, want);
    hd.check();
    Some(hd)
}

impl M {
    pub fn new(cfg: &'static Cfg, boxes: &'static [Mailbox<Hd>], common: &'static [Hd]) -> Self {
        M { v: quiet(|| Vec::with_capacity(CAP + 2)), cfg, boxes, common }
    }
    pub fn add(&mut self, h: Hd) {
        quiet(|| self.v.push(h));
        while self.v.len() > CAP {
            let x = quiet(|| self.v.remove(0));
            must(self.cfg, move || drop(x));
        }
    }
    fn rm(&mut self, i: usize) -> Hd {
        quiet(|| self.v.remove(i))
    }
    /// Turns what an operation produced into a handle that is checked and kept.
    fn keep(&mut self, h: H, want: Q) {
        let hd = Hd::new(h, want);
        hd.check();
        self.add(hd);
    }
    fn text_range(&self, want: &Q, text: bool, mut r: Rg, c: u32) -> Rg {
        // mostly on character boundaries
        if text && !(self.cfg.bad_ranges && c % 4 == 0) {
            if let Some((mut a, mut b)) = r.resolve(want.len()) {
                while !want.boundary(a) {
                    a -= 1;
                }
                while !want.boundary(b) {
                    b -= 1;
                }
                r = Rg { form: 0, a, b: b.max(a) };
            }
        }
        r
    }
    fn clone_of(&mut self, h: &Hd, who: &str) {
        op!("clone {} of {} ({} bytes)", who, KIND[h.h().kind()], h.want.len());
        let r = match copy_of(self.cfg, h.h()) {
            Some(r) => r,
            None => return h.check(),
        };
        match r {
            Some(n) => self.keep(n, h.want.clone()),
            None => h.check(),
        }
    }
    fn slice_of(&mut self, h: &Hd, o: &Op) {
        let n = h.want.len();
        let text = matches!(h.h(), H::Sd(_) | H::Sq(_));
        let rg = self.text_range(&h.want, text, range_for(o.c, n, self.cfg.bad_ranges), o.a);
        op!("slice {} of {} ({} bytes)", rg, KIND[h.h().kind()], n);
        let ok = rg.resolve(n).filter(|&(a, b)| !text || (h.want.boundary(a) && h.want.boundary(b)));
        let cfg = self.cfg;
        let via_off = o.c[2] & 1 == 1;
        let r = match h.h() {
            H::Sb(x) => run(cfg, || {
                H::Sb(match ok {
                    Some((a, b)) if via_off => x.sliced(a, b - a),
                    None if via_off && rg.form == 0 => x.sliced(rg.a, rg.b), // offset and length, out of bounds together
                    _ => with_range!(rg, |r| x.sliced_range(r)),
                })
            }),
            H::Bd(x) => run(cfg, || H::Bd(with_range!(rg, |r| x.sliced(r)))),
            H::Sd(x) => run(cfg, || H::Sd(with_range!(rg, |r| x.sliced(r)))),
            H::By(x) => match ok {
                Some((a, b)) => Ok(H::By(x.slice(a..b))),
                None => return,
            },
            H::Q(x) => run(cfg, || H::Q(with_range!(rg, |r| x.slice(r)))),
            H::Sq(x) => run(cfg, || H::Sq(with_range!(rg, |r| x.slice(r)))),
            _ => return h.check(),
        };
        self.sliced(h, r, ok, &rg, n);
    }
    fn sliced(&mut self, h: &Hd, r: Result<H, Unwound>, ok: Option<(usize, usize)>, rg: &Rg, n: usize) {
        match (r, ok) {
            (Ok(x), Some((a, b))) => self.keep(x, h.want.sub(a, b)),
            // sliced(offset, len) with offset + len out of bounds by luck inside: decided by its own rule
            (Ok(x), None) => {
                if let (H::Sb(s), 0) = (&x, rg.form) {
                    if rg.a <= n && rg.b <= n - rg.a {
                        let w = h.want.sub(rg.a, rg.a + rg.b);
                        let _ = s;
                        return self.keep(x, w);
                    }
                }
                viol!("not-refused", "{} accepted the range {} of {} bytes", KIND[x.kind()], rg, n)
            }
            (Err(Unwound::Lib(m)), Some(_)) => viol!("panic", "valid range {} of {} bytes was refused: {}", rg, n, m),
            (Err(Unwound::Lib(_)), None) => {
                rt::note(0x5e);
                h.check()
            }
            (Err(_), _) => h.check(),
        }
    }
    fn slice_into(&mut self, i: usize, o: &Op) {
        let n = self.v[i].want.len();
        let text = matches!(self.v[i].h(), H::Sd(_));
        let rg = self.text_range(&self.v[i].want, text, range_for(o.c, n, self.cfg.bad_ranges), o.a >> 2);
        let ok = rg.resolve(n).filter(|&(a, b)| !text || (self.v[i].want.boundary(a) && self.v[i].want.boundary(b)));
        let k = self.v[i].h().kind();
        let form = o.a % 4;
        op!("{} {} of {} ({} bytes)", ["make_sliced", "into_sliced", "make_sliced", "into_shared_range"][form as usize], rg, KIND[k], n);
        let cfg = self.cfg;
        if form % 2 == 0 {
            let hd = &mut self.v[i];
            hd.loosen();
            let r = match hd.hm() {
                H::Sb(x) => run(cfg, || {
                    match ok {
                        Some((a, b)) if form == 0 => x.make_sliced(a, b - a),
                        _ => with_range!(rg, |r| x.make_sliced_range(r)),
                    };
                }),
                H::Bd(x) => run(cfg, || with_range!(rg, |r| x.make_sliced(r))),
                H::Sd(x) => run(cfg, || with_range!(rg, |r| x.make_sliced(r))),
                _ => return hd.rehold(),
            };
            match (r, ok) {
                (Ok(()), Some((a, b))) => hd.want = hd.want.sub(a, b),
                (Ok(()), None) => viol!("not-refused", "{} accepted the range {} of {} bytes", KIND[k], rg, n),
                (Err(Unwound::Lib(m)), Some(_)) => viol!("panic", "valid range {} of {} bytes was refused: {}", rg, n, m),
                // a destructor panicked after the cut, or the cut never happened
                (Err(_), Some((a, b))) if hd.h().len() != n => hd.want = hd.want.sub(a, b),
                (Err(_), _) => {}
            }
            hd.rehold();
            hd.check();
        } else {
            if k > 2 {
                return;
            }
            let (h, want) = self.rm(i).take();
            let r = match h {
                H::Sb(x) => run(cfg, move || {
                    H::Sb(match ok {
                        Some((a, b)) if form == 1 => x.into_sliced(a, b - a),
                        _ => with_range!(rg, |r| x.into_sliced_range(r)),
                    })
                }),
                H::Bd(x) if form == 1 => run(cfg, move || H::Bd(with_range!(rg, |r| x.into_sliced(r)))),
                H::Bd(x) => run(cfg, move || H::Bd(with_range!(rg, |r| x.into_shared_range(r)))),
                H::Sd(x) if form == 1 => run(cfg, move || H::Sd(with_range!(rg, |r| x.into_sliced(r)))),
                H::Sd(x) => run(cfg, move || H::Sd(with_range!(rg, |r| x.into_shared_range(r)))),
                _ => unreachable!(),
            };
            match (r, ok) {
                (Ok(x), Some((a, b))) => self.keep(x, want.sub(a, b)),
                (Ok(_), None) => viol!("not-refused", "{} accepted the range {} of {} bytes", KIND[k], rg, n),
                (Err(Unwound::Lib(m)), Some(_)) => viol!("panic", "valid range {} of {} bytes was refused: {}", rg, n, m),
                (Err(_), _) => {}
            }
        }
    }
    fn convert(&mut self, i: usize, o: &Op) {
        let (h, want) = self.rm(i).take();
        let c = o.c[0] % 16;
        let k = h.kind();
        op!("convert {} ({} bytes) variant {}", KIND[k], want.len(), c);
        let text = want.is_text();
        let cfg = self.cfg;
        let r = without_drop_panics(|| must(cfg, move || convert(h, c, text, o.c[1])));
        match r {
            None => {}
            Some(Conv::Done(x)) => self.keep(x, want),
            Some(Conv::Back(x)) => self.keep(x, want),
        }
    }
    fn write(&mut self, i: usize, o: &Op) {
        let hd = &mut self.v[i];
        let k = hd.h().kind();
        if !hd.h().writable() {
            return hd.check();
        }
        let add = model::gen_text(next_tag(), o.c[1] as usize % 40);
        let x = o.c[2] as u8 | 1;
        let how = o.c[0] % 4;
        op!("write to {} ({} bytes) how {}", KIND[k], hd.want.len(), how);
        let cfg = self.cfg;
        // overwrite in place
        if how & 1 == 0 {
            let m: Option<&mut [u8]> = match hd.h.as_mut().unwrap() {
                H::Bu(b) => Some(b.as_slice_mut()),
                H::V(v) => Some(&mut v[..]),
                H::Bm(b) => Some(&mut b[..]),
                _ => None,
            };
            if let Some(m) = m {
                for p in m.iter_mut() {
                    *p ^= x;
                }
                let n = hd.want.len();
                quiet(|| {
                    for j in 0..n {
                        hd.want.m()[j] ^= x;
                    }
                });
            }
        }
        if how & 2 == 0 {
            let a = add.b();
            let r = match hd.hm() {
                H::Bu(b) => must(cfg, || b.extend_from_slice(a)),
                H::St(b) => must(cfg, || b.push_str(unsafe { core::str::from_utf8_unchecked(a) })),
                H::V(v) => must(cfg, || v.extend_from_slice(a)),
                H::S(s) => must(cfg, || s.push_str(unsafe { core::str::from_utf8_unchecked(a) })),
                H::Bm(b) => {
                    b.extend_from_slice(a);
                    Some(())
                }
                _ => None,
            };
            if r.is_some() {
                hd.want.push(a);
            }
        }
        if how == 3 {
            let mut n = o.c[1] as usize % (hd.want.len() + 1);
            while k != 6 && k != 8 && k != 10 && !hd.want.boundary(n) {
                n -= 1;
            }
            match hd.hm() {
                H::Bu(b) => b.truncate(n),
                H::St(b) => b.truncate(n),
                H::V(v) => v.truncate(n),
                H::S(v) => v.truncate(n),
                H::Bm(v) => v.truncate(n),
                _ => {}
            }
            hd.want.truncate(n);
        }
        hd.rehold();
        hd.check();
    }
    fn unique(&mut self, i: usize) {
        let hd = &self.v[i];
        let (u, k) = match hd.h() {
            H::Sb(x) => (x.is_unique(), "SharedBytes"),
            H::By(x) => (x.is_unique(), "Bytes"),
            _ => return hd.check(),
        };
        op!("is_unique of {} -> {}", k, u);
        let others = holders(hd.blk).saturating_sub(1);
        if u && hd.blk != 0 && others > 0 {
            viol!("unique", "is_unique() is true for block #{} although {} other handle(s) hold it", hd.blk - 1, others);
        }
    }
    fn queue(&mut self, i: usize, o: &Op) {
        let cfg = self.cfg;
        let how = o.c[0] % 6;
        let k = self.v[i].h().kind();
        if k == 5 {
            return self.v[i].check();
        }
        if k != 4 {
            // push this handle into the first queue we own
            let Some(q) = self.v.iter().position(|h| matches!(h.h(), H::Q(_))) else {
                return self.v[i].check();
            };
            if k > 3 || k == 2 {
                return self.v[i].check();
            }
            let hd = self.rm(i);
            let q = if q > i { q - 1 } else { q };
            let (h, want) = hd.take();
            op!("push {} ({} bytes) into a queue of {} bytes", KIND[k], want.len(), self.v[q].want.len());
            let H::Q(qq) = self.v[q].hm() else { unreachable!() };
            let d: Option<ByteData<'static>> = match h {
                H::Sb(x) => Some(x.into()),
                H::Bd(x) => Some(x),
                H::By(x) => must(cfg, move || x.into()),
                _ => unreachable!(),
            };
            let Some(d) = d else { return };
            let r = if how % 2 == 0 { must(cfg, || qq.push_back(d)) } else { must(cfg, || qq.push_front(d)) };
            if r.is_some() {
                if how % 2 == 0 {
                    self.v[q].want.push(want.b());
                } else {
                    self.v[q].want.prepend(want.b());
                }
            }
            return self.v[q].check();
        }
        let n = self.v[i].want.len();
        let at = at_for(o.c[1], n);
        op!("queue op {} at {} of {} bytes", how, at, n);
        let hd = &mut self.v[i];
        let H::Q(q) = hd.h.as_mut().unwrap() else { unreachable!() };
        match how {
            0 | 1 => {
                let p = if how == 0 { q.pop_front() } else { q.pop_back() };
                match p {
                    Some(d) => {
                        let l = d.len();
                        if l == 0 || l > n {
                            viol!("content", "popped a chunk of {} bytes from {} bytes", l, n);
                        }
                        let w = if how == 0 { hd.want.cut(0, l) } else { hd.want.cut(n - l, n) };
                        self.v[i].check();
                        self.keep(H::Bd(d), w);
                    }
                    None if n != 0 => viol!("content", "pop found nothing in a queue of {} bytes", n),
                    None => {}
                }
            }
            2 => {
                if must(cfg, || q.consume(at)).is_some() {
                    hd.want.cut(0, at);
                } else {
                    // a chunk's destructor panicked midway: some is gone, from the front; an owner that panics when its
                    // last bytes are moved inline may take those (at most 14) with it
                    let left = hd.h().len();
                    if left > n || left + 14 < n - at {
                        viol!("content", "an interrupted consume of {} left {} of {} bytes", at, left, n);
                    }
                    hd.want.cut(0, n - left);
                }
                hd.check();
            }
            3 => {
                let r = must(cfg, || q.split_off(at));
                match r {
                    Some(t) => {
                        let w = hd.want.cut(at, n);
                        hd.check();
                        self.keep(H::Q(t), w);
                    }
                    None => {
                        // interrupted by a failed allocation: anything it shows must still be a run of the old bytes
                        self.settle(i);
                    }
                }
            }
            _ => {
                // append another queue, if there is one
                let j = self.v.iter().enumerate().position(|(j, h)| j != i && matches!(h.h(), H::Q(_)));
                let Some(j) = j else { return self.v[i].check() };
                let (h, w) = self.rm(j).take();
                let i = if j < i { i - 1 } else { i };
                let (H::Q(t), H::Q(q)) = (h, self.v[i].hm()) else { unreachable!() };
                if must(cfg, || q.append(t)).is_some() {
                    self.v[i].want.push(w.b());
                    self.v[i].check();
                } else {
                    let full = Q::new(w.b());
                    self.settle_with(i, &full);
                }
            }
        }
    }
    /// After an interrupted operation: the queue must hold a prefix of what it could legitimately hold.
    fn settle(&mut self, i: usize) {
        let e = Q::new(&[]);
        self.settle_with(i, &e)
    }
    fn settle_with(&mut self, i: usize, more: &Q) {
        let hd = &mut self.v[i];
        let mut full = hd.want.clone();
        full.push(more.b());
        let H::Q(q) = hd.h() else { unreachable!() };
        let l = q.chunks().map(|c| c.len()).sum::<usize>();
        if l > full.len() || (!more.b().is_empty() && l < hd.want.len()) {
            viol!("content", "after an interrupted operation the queue holds {} bytes (before: {})", l, hd.want.len());
        }
        full.truncate(l);
        hd.want = full;
        hd.check();
    }
    fn split(&mut self, i: usize, o: &Op) {
        let n = self.v[i].want.len();
        let k = self.v[i].h().kind();
        let mut at = at_for(o.c[1], n);
        let how = o.c[0] % 4;
        let cfg = self.cfg;
        if (k == 1 && how == 3) || (k == 2 && o.c[0] % 8 == 7) {
            return self.split_on(i, o);
        }
        if (k == 1 || k == 2) && o.c[2] % 8 == 6 {
            return self.iterate(i, o);
        }
        if k == 1 && how <= 2 {
            op!("ByteData {} at {} of {}", ["take_bytes", "split_at", "take_while"][how as usize], at, n);
            if how == 1 {
                let (h, mut want) = self.rm(i).take();
                let H::Bd(x) = h else { unreachable!() };
                if let Some((a, b)) = must(cfg, move || x.split_at(at)) {
                    let wa = want.cut(0, at);
                    self.keep(H::Bd(a), wa);
                    self.keep(H::Bd(b), want);
                }
                return;
            }
            let hd = &mut self.v[i];
            hd.loosen();
            let H::Bd(x) = hd.h.as_mut().unwrap() else { unreachable!() };
            let mut cnt = 0;
            let r = must(cfg, || {
                if how == 0 {
                    x.take_bytes(at)
                } else {
                    x.take_while(|_| {
                        cnt += 1;
                        cnt <= at
                    })
                }
            });
            if let Some(t) = r {
                let w = hd.want.cut(0, at);
                hd.rehold();
                hd.check();
                self.keep(H::Bd(t), w);
            } else {
                // the first part went down with the panic; it is either still in front or cut off
                if hd.h().len() != n {
                    hd.want.cut(0, at);
                }
                hd.rehold();
                hd.check();
            }
        } else if k == 2 {
            while !self.v[i].want.boundary(at) {
                at -= 1;
            }
            if how == 0 {
                op!("StringData split_at {} of {}", at, n);
                let (h, mut want) = self.rm(i).take();
                let H::Sd(x) = h else { unreachable!() };
                if let Some((a, b)) = must(cfg, move || x.split_at(at)) {
                    let wa = want.cut(0, at);
                    self.keep(H::Sd(a), wa);
                    self.keep(H::Sd(b), want);
                }
                return;
            }
            let hd = &mut self.v[i];
            if how == 1 {
                op!("StringData trim of {}", n);
                let H::Sd(x) = hd.h() else { unreachable!() };
                let r = must(cfg, || match o.c[2] % 3 {
                    0 => x.trim(),
                    1 => x.trim_start(),
                    _ => x.trim_end(),
                });
                let w = hd.want.s();
                let w = match o.c[2] % 3 {
                    0 => w.trim(),
                    1 => w.trim_start(),
                    _ => w.trim_end(),
                };
                let w = Q::new(w.as_bytes());
                hd.check();
                if let Some(t) = r {
                    self.keep(H::Sd(t), w);
                }
                return;
            }
            if how == 3 {
                // up to and with the end of the line
                at = quiet(|| hd.want.b().iter().position(|b| *b == b'\n').map_or(n, |p| p + 1));
                op!("StringData take_line, {} of {}", at, n);
            } else {
                op!("StringData take_while up to {} of {}", at, n);
            }
            hd.loosen();
            let H::Sd(x) = hd.h.as_mut().unwrap() else { unreachable!() };
            let mut seen = 0;
            let r = must(cfg, || {
                if how == 3 {
                    return x.take_line();
                }
                x.take_while(|c| {
                    seen += c.len_utf8();
                    seen <= at
                })
            });
            if let Some(t) = r {
                let w = hd.want.cut(0, at);
                hd.rehold();
                hd.check();
                self.keep(H::Sd(t), w);
            } else {
                // the first part went down with the panic; it is either still in front or cut off
                if hd.h().len() != n {
                    hd.want.cut(0, at);
                }
                hd.rehold();
                hd.check();
            }
        } else {
            self.v[i].check();
        }
    }
    /// The handle as an iterator: what was produced is gone from the front.
    fn iterate(&mut self, i: usize, o: &Op) {
        let cfg = self.cfg;
        let hd = &mut self.v[i];
        let most = 1 + o.c[1] as usize % 40;
        op!("iterate {} of {} bytes, up to {}", KIND[hd.h().kind()], hd.want.len(), most);
        hd.loosen();
        for _ in 0..most {
            let n = hd.want.len();
            let (r, k) = match hd.h.as_mut().unwrap() {
                H::Bd(x) => {
                    let r = must(cfg, || x.next().map(|b| b as u32));
                    (r, (n > 0) as usize)
                }
                H::Sd(x) => {
                    let (lo, hi) = x.size_hint();
                    if lo > n || hi.is_some_and(|h| h < quiet(|| hd.want.s().chars().count())) {
                        viol!("count", "a text of {} bytes promises {} to {:?} characters", n, lo, hi);
                    }
                    let r = must(cfg, || x.next().map(|c| c as u32));
                    (r, quiet(|| hd.want.s().chars().next().map_or(0, |c| c.len_utf8())))
                }
                _ => unreachable!(),
            };
            let expect = if k == 0 {
                None
            } else if hd.h().kind() == 1 {
                Some(hd.want.b()[0] as u32)
            } else {
                quiet(|| hd.want.s().chars().next().map(|c| c as u32))
            };
            match r {
                Some(g) if g != expect => viol!("content", "iterating {} bytes gave {:?} instead of {:?}", n, g, expect),
                Some(None) => break,
                Some(_) => {
                    hd.want.cut(0, k);
                }
                None => {
                    // interrupted: still there or gone
                    if hd.h().len() != n {
                        hd.want.cut(0, k);
                    }
                    break;
                }
            }
        }
        hd.rehold();
        hd.check();
    }
    /// Ways of looking that change nothing.
    fn look(&self, i: usize, o: &Op) {
        let hd = &self.v[i];
        let (w, n) = (hd.want.b(), hd.want.len());
        let at = at_for(o.c[1], n);
        let how = (o.c[0] >> 1) % 4;
        op!("look at {} ({} bytes), {}", KIND[hd.h().kind()], n, how);
        let bad = |what: &str| -> ! { viol!("content", "{} of {} bytes: {} is wrong", KIND[hd.h().kind()], n, what) };
        if how == 0 {
            return small_chunk(w, o.c);
        }
        if how == 1 && n > 0 {
            // equal to its own bytes, to nothing else
            let mut other = quiet(|| w.to_vec());
            let p = at.min(n - 1);
            quiet(|| other[p] ^= 1);
            let (same, diff, ends) = match hd.h() {
                H::Sb(x) => (*x == *w && x.eq_slice(w), *x == other[..] || x.eq_slice(&other), x.starts_with(&w[..at]) && x.ends_with(&w[at..])),
                H::Bd(x) => (*x == *w && x.eq_slice(w), *x == other[..] || x.eq_slice(&other), x.starts_with(&w[..at]) && x.ends_with(&w[at..])),
                H::Sd(x) => (*x == *w && x.eq_slice(w), *x == other[..] || x.eq_slice(&other), x.as_bytedata().starts_with(&w[..at])),
                _ => (true, false, true),
            };
            quiet(|| drop(other));
            if !same || diff || !ends {
                bad("comparing with its bytes");
            }
            return;
        }
        match hd.h() {
            H::Sb(x) => {
                let big = at + 1 + o.c[2] as usize % 3;
                let p = if how == 2 { at } else { n + o.c[2] as usize % 4 };
                match rt::catch(|| x[p]) {
                    Ok(b) if p >= n || b != w[p] => bad("an indexed byte"),
                    Err(_) if p < n => bad("an index that is refused"),
                    _ => {}
                }
                match rt::catch(|| (x[at..].as_ptr() as usize, x[at..].len())) {
                    Ok((q, l)) if l != n - at || (l > 0 && q != x.as_slice()[at..].as_ptr() as usize) => bad("[at..]"),
                    Err(_) => bad("a refused [at..]"),
                    _ => {}
                }
                match rt::catch(|| (x[..big].as_ptr() as usize, x[..big].len(), x[at..big].as_ptr() as usize, x[at..big].len())) {
                    Ok((a, l, b, m)) => {
                        let s = x.as_slice().as_ptr() as usize;
                        if big > n || l != big || a != s || m != big - at || b != s + at {
                            bad("[..end] or [at..end]");
                        }
                    }
                    Err(_) if big <= n => bad("a refused [..end]"),
                    _ => {}
                }
                if x[..].len() != n || core::convert::AsRef::<[u8]>::as_ref(x).len() != n {
                    bad("[..]");
                }
            }
            H::Bd(x) => {
                if let Some(b) = x.as_borrowed() {
                    check_bytes("as_borrowed", w, b);
                }
                check_bytes("borrow", w, core::borrow::Borrow::<[u8]>::borrow(x));
                check_bytes("as_ref", w, x.as_ref());
            }
            H::Sd(x) => {
                if let Some(b) = x.as_borrowed() {
                    check_bytes("as_borrowed", w, b.as_bytes());
                }
                check_bytes("borrow", w, core::borrow::Borrow::<str>::borrow(x).as_bytes());
                check_bytes("as_ref", w, core::convert::AsRef::<str>::as_ref(x).as_bytes());
                check_bytes("deref", w, (**x).as_bytes());
                check_bytes("as_bytedata", w, x.as_bytedata().as_slice());
                if n < 500 && !x.iter().eq(hd.want.s().chars()) {
                    bad("iter()");
                }
                if !x.eq_str(hd.want.s()) {
                    bad("eq_str");
                }
            }
            H::St(x) => check_bytes("borrow", w, core::borrow::Borrow::<str>::borrow(x).as_bytes()),
            H::Q(x) if x.is_full() => bad("is_full()"),
            H::Sq(x) => {
                let f = x.front().map(|f| f.as_bytes());
                let c = x.chunks().next().map(|f| f.as_bytes());
                if f.map(|f| (f.as_ptr(), f.len())) != c.map(|f| (f.as_ptr(), f.len())) || x.is_full() {
                    bad("front()");
                }
            }
            _ => hd.check(),
        }
    }
    fn split_on(&mut self, i: usize, o: &Op) {
        let cfg = self.cfg;
        let (h, want) = self.rm(i).take();
        let n = want.len();
        let text = matches!(h, H::Sd(_));
        // a separator from the data itself, mostly
        let mut a = at_for(o.c[1], n);
        let mut b = (a + (o.c[1] >> 8) as usize % 4).min(n);
        while text && !want.boundary(a) {
            a -= 1;
        }
        while text && !want.boundary(b) {
            b -= 1;
        }
        let needle = if o.c[2] % 8 == 7 { Q::new(b"#%&") } else { want.sub(a, b.max(a)) };
        let once = o.c[2] % 4 == 2;
        op!("{} {} {} bytes on {} bytes", KIND[h.kind()], if once { "split once" } else { "split" }, n, needle.len());
        let first = quiet(|| if needle.len() == 0 { (n > 0).then_some(0) } else { want.b().windows(needle.len()).position(|w| w == needle.b()) });
        if once {
            enum R {
                B(Result<(ByteData<'static>, ByteData<'static>), ByteData<'static>>),
                T(Result<(StringData<'static>, StringData<'static>), StringData<'static>>),
            }
            let r = must(cfg, || match h {
                H::Bd(d) => R::B(d.split_once_on(needle.b())),
                H::Sd(d) => R::T(d.split_once_on(needle.s())),
                _ => unreachable!(),
            });
            // the separator stays in front of the second part
            let pair = match r {
                None => return,
                Some(R::B(Ok((a, b)))) => Ok((H::Bd(a), H::Bd(b))),
                Some(R::B(Err(d))) => Err(H::Bd(d)),
                Some(R::T(Ok((a, b)))) => Ok((H::Sd(a), H::Sd(b))),
                Some(R::T(Err(d))) => Err(H::Sd(d)),
            };
            match pair {
                Ok((x, y)) => {
                    let Some(at) = first.or((needle.len() == 0).then_some(0)) else {
                        viol!("split", "split in two on something that is not there")
                    };
                    let mut want = want;
                    let wa = want.cut(0, at);
                    self.keep(x, wa);
                    self.keep(y, want);
                }
                Err(x) => {
                    if first.is_some() {
                        viol!("split", "not split although the separator is there");
                    }
                    self.keep(x, want);
                }
            }
            return;
        }
        let mut pieces = quiet(|| super::queue::split_ref(want.b(), needle.b(), 0));
        let stop = if o.c[0] >> 4 & 3 == 3 { (o.c[0] >> 6) as usize % 4 } else { usize::MAX };
        let mut it: Box<dyn Iterator<Item = H>> = quiet(|| -> Box<dyn Iterator<Item = H> + '_> {
            match h {
                H::Bd(d) => Box::new(d.split_on(needle.b()).map(H::Bd)),
                H::Sd(d) => Box::new(d.split_on(needle.s()).map(H::Sd)),
                _ => unreachable!(),
            }
        });
        let mut p = 0;
        while p < stop {
            let (lo, hi) = it.size_hint();
            let left = pieces.len().saturating_sub(p);
            // whether a separator at the very end is followed by an empty piece is left open
            let open = left > 0 && pieces.last() == Some(&(n, n)) && n > 0;
            if lo > left || hi.is_some_and(|h| h < left - open as usize) {
                viol!("count", "splitting {} bytes with {} pieces to come promises {} to {:?}", n, left, lo, hi);
            }
            match must(cfg, || it.next()) {
                None => break,
                Some(None) => {
                    if left > open as usize || (left > 0 && p + 1 != pieces.len()) {
                        viol!("split", "splitting {} bytes on {} gave {} pieces instead of {}", n, needle.len(), p, pieces.len());
                    }
                    break;
                }
                Some(Some(x)) => {
                    if left == 0 {
                        viol!("split", "splitting {} bytes on {} gave more than {} pieces", n, needle.len(), pieces.len());
                    }
                    let (a, b) = pieces[p];
                    p += 1;
                    self.keep(x, want.sub(a, b));
                }
            }
        }
        must(cfg, move || drop(it));
        quiet(|| pieces.clear());
        quiet(|| drop(pieces));
    }
    fn buf(&mut self, i: usize, o: &Op) {
        let n = self.v[i].want.len();
        let at = at_for(o.c[1], n);
        let how = o.c[0] % 5;
        let hd = &mut self.v[i];
        let k = hd.h().kind();
        op!("buf op {} at {} of {} ({} bytes)", how, at, KIND[k], n);
        hd.loosen();
        let h = hd.h.as_mut().unwrap();
        if how < 2 {
            match h {
                H::Sb(x) => x.advance(at),
                H::Bd(x) => x.advance(at),
                H::By(x) => x.advance(at),
                H::Q(x) => x.advance(at),
                H::Bm(x) => x.advance(at),
                _ => return hd.rehold(),
            }
            hd.want.cut(0, at);
            hd.rehold();
            return hd.check();
        }
        if how == 2 {
            let r = match h {
                H::Sb(x) => x.copy_to_bytes(at),
                H::Bd(x) => x.copy_to_bytes(at),
                H::By(x) => x.copy_to_bytes(at),
                H::Q(x) => x.copy_to_bytes(at),
                _ => return hd.rehold(),
            };
            let w = hd.want.cut(0, at);
            hd.rehold();
            hd.check();
            return self.keep(H::By(r), w);
        }
        match h {
            H::By(x) if how == 3 => {
                let r = x.split_to(at);
                let w = hd.want.cut(0, at);
                hd.rehold();
                hd.check();
                self.keep(H::By(r), w)
            }
            H::By(x) => {
                let r = x.split_off(at);
                let w = hd.want.cut(at, n);
                hd.rehold();
                hd.check();
                self.keep(H::By(r), w)
            }
            _ => hd.rehold(),
        }
    }
    fn eq(&mut self, i: usize, j: usize) {
        let (a, b) = (&self.v[i], &self.v[j]);
        let want = quiet(|| a.want.b() == b.want.b());
        op!("compare {} with {}", KIND[a.h().kind()], KIND[b.h().kind()]);
        let got = match (a.h(), b.h()) {
            (H::Sb(x), H::Sb(y)) => x == y,
            (H::Bd(x), H::Bd(y)) => x == y,
            (H::Sd(x), H::Bd(y)) => x == y,
            (H::Bd(x), H::Sd(y)) => x == y,
            (H::Sd(x), H::Sd(y)) => x == y,
            (H::Q(x), H::Q(y)) => x == y,
            (H::Q(x), H::Bd(y)) => x == y,
            (H::Bd(x), H::Q(y)) => x == y,
            _ => {
                a.check();
                return b.check();
            }
        };
        if got != want {
            viol!("equality", "{} == {} is {} but their bytes say {}", KIND[a.h().kind()], KIND[b.h().kind()], got, want);
        }
    }
    pub fn step(&mut self, o: &Op) {
        let n = self.v.len();
        match o.k {
            K::New => {
                if let Some(h) = source(self.cfg, o.c) {
                    self.add(h);
                }
                return;
            }
            K::Recv => {
                op!("receive");
                let me = rt::tid() as usize;
                if let Some(h) = self.boxes[me].try_recv() {
                    h.check();
                    self.add(h);
                }
                return;
            }
            K::Common if !self.common.is_empty() => {
                let h = &self.common[o.a as usize % self.common.len()];
                match o.c[0] % 4 {
                    0 => {
                        op!("check shared reference");
                        h.check()
                    }
                    1 => self.slice_of(h, o),
                    _ => self.clone_of(h, "through a shared reference"),
                }
                return;
            }
            _ => {}
        }
        if n == 0 {
            return;
        }
        let i = o.a as usize % n;
        match o.k {
            K::Check if o.c[0] % 2 == 1 => self.look(i, o),
            K::Check => {
                op!("check {}", KIND[self.v[i].h().kind()]);
                self.v[i].check()
            }
            K::Clone if o.c[2] == 255 && !matches!(self.v[i].h(), H::Q(_) | H::Sq(_)) => self.crowd(i, o),
            K::Clone => {
                // the machine owns both: borrow the handle for the duration of the call
                let h: &Hd = unsafe { &*(&self.v[i] as *const Hd) };
                let blk = h.blk;
                hold(blk);
                self.clone_of_local(h, blk);
            }
            K::Drop => {
                let h = self.rm(i);
                op!("drop {} ({} bytes)", KIND[h.h().kind()], h.want.len());
                if must(self.cfg, move || drop(h)).is_none() {
                    rt::note(0xd0);
                }
            }
            K::Send => {
                let h = self.rm(i);
                let to = (rt::tid() as usize + 1 + o.c[1] as usize % self.boxes.len().max(2).saturating_sub(1)) % self.boxes.len();
                op!("send {} ({} bytes) to T{}", KIND[h.h().kind()], h.want.len(), to);
                self.boxes[to].send(h);
            }
            K::Slice => {
                let h: Hd = self.rm(i);
                self.slice_of(&h, o);
                self.add(h);
            }
            K::SliceInto => self.slice_into(i, o),
            K::Conv => self.convert(i, o),
            K::Write => self.write(i, o),
            K::Unique => self.unique(i),
            K::Queue => self.queue(i, o),
            K::Split => self.split(i, o),
            K::Buf => {
                if self.cfg.faulty {
                    return self.v[i].check();
                }
                self.buf(i, o)
            }
            K::Eq => self.eq(i, o.c[1] as usize % n),
            _ => {}
        }
    }
    /// Very many clones at once, dropped first to last or last to first, half of them after the other half.
    fn crowd(&mut self, i: usize, o: &Op) {
        let n = [70, 130, 260, 300][o.c[1] as usize % 4];
        let h = &self.v[i];
        op!("clone {} ({} bytes) {} times", KIND[h.h().kind()], h.want.len(), n);
        hold(h.blk);
        let mut all = quiet(|| Vec::with_capacity(n));
        for _ in 0..n {
            if let Some(Some(c)) = copy_of(self.cfg, h.h()) {
                quiet(|| all.push(c));
            }
        }
        h.check();
        let mut k = 0;
        while let Some(c) = quiet(|| match o.c[0] % 3 {
            _ if all.is_empty() => None,
            0 => all.pop(),
            1 => Some(all.remove(0)),
            _ => Some(all.swap_remove(all.len() / 2)),
        }) {
            must(self.cfg, move || drop(c));
            k += 1;
            if k % 64 == 0 {
                h.check();
            }
        }
        quiet(|| drop(all));
        unhold(h.blk);
        h.check();
    }
    fn clone_of_local(&mut self, h: &Hd, blk: u32) {
        unhold(blk);
        // `keep` may evict the oldest handle; `h` stays valid because eviction happens after it was used
        let want_room = self.v.len() >= CAP;
        if want_room {
            return h.check();
        }
        self.clone_of(h, "own");
    }
    /// Checks and drops everything left.
    pub fn finish(mut self) {
        let cfg = self.cfg;
        while let Some(h) = quiet(|| self.v.pop()) {
            h.check();
            op!("final drop of {} ({} bytes)", KIND[h.h().kind()], h.want.len());
            must(cfg, move || drop(h));
        }
        quiet(|| drop(core::mem::take(&mut self.v)));
    }
}

/// The start of the character at `i`.
fn floor(w: &Q, mut i: usize) -> usize {
    while !w.boundary(i) {
        i -= 1;
    }
    i
}
/// Inline bytes on their own.
fn small_chunk(w: &[u8], c: [u32; 3]) {
    use bytedata::ByteChunk;
    let l = w.len().min(14);
    let mut x = ByteChunk::from_slice(&w[..l]);
    let full = Q::new(&w[..l]);
    let rg = range_for(c, l, true);
    let ok = rg.resolve(l);
    // only the forms a slice accepts
    let r = rt::catch(|| match (rg.form, c[2] % 3) {
        (0, 0) => Some(x.sliced(rg.a..rg.b)),
        (0, 1) => Some(x.into_sliced(rg.a..rg.b)),
        (0, _) => {
            x.make_sliced(rg.a..rg.b);
            Some(x)
        }
        (1, 0) => Some(x.sliced(rg.a..)),
        (1, _) => Some(x.into_sliced(rg.a..)),
        (2, 0) => Some(x.sliced(..rg.b)),
        (2, _) => Some(x.into_sliced(..rg.b)),
        (4, 0) => Some(x.sliced(rg.a..=rg.b)),
        (4, _) => Some(x.into_sliced(rg.a..=rg.b)),
        (5, 0) => Some(x.sliced(..=rg.b)),
        (5, _) => Some(x.into_sliced(..=rg.b)),
        _ => None,
    });
    match (r, ok) {
        (Ok(Some(y)), Some((a, b))) => {
            check_bytes("ByteChunk", full.sub(a, b).b(), y.as_slice());
            if y.len() != b - a || y.is_empty() != (a == b) {
                viol!("count", "a chunk of {} bytes reports {}", b - a, y.len());
            }
            x = y;
        }
        (Ok(Some(_)), None) => viol!("not-refused", "slicing {} inline bytes at {} was accepted", l, rg),
        (Err(_), Some(_)) => viol!("panic", "slicing {} inline bytes at {} was refused", l, rg),
        _ => check_bytes("ByteChunk", full.b(), x.as_slice()),
    }
    // written to
    let mut want = Q::new(x.as_slice());
    for k in 0..3u32 {
        let t = model::gen_text(next_tag(), (c[1] >> (k * 3)) as usize % 8);
        let r = core::fmt::Write::write_str(&mut x, t.s());
        if r.is_ok() != (want.len() + t.len() <= 14) {
            viol!("write", "writing {} bytes behind {} inline ones said {:?}", t.len(), want.len(), r.is_ok());
        }
        if r.is_ok() {
            want.push(t.b());
        }
        check_bytes("written ByteChunk", want.b(), x.as_slice());
    }
    check_bytes("ByteData of a ByteChunk", want.b(), ByteData::from_chunk_slice(x.as_slice()).as_slice());
}
fn convert(h: H, c: u32, text: bool, x: u32) -> Conv {
    use Conv::*;
    match h {
        H::Sb(s) => Done(match c % 8 {
            0 => H::Bd(ByteData::from(s)),
            1 => H::Bd(ByteData::from_shared(s)),
            2 => H::By(Bytes::from(s)),
            3 => H::Bu(SharedBytesBuilder::from(s)),
            4 => match if x & 1 == 0 { StringData::try_from_shared(s) } else { StringData::try_from(s) } {
                Ok(t) => {
                    if !text {
                        viol!("utf8", "try_from_shared accepted bytes that are not UTF-8");
                    }
                    H::Sd(t)
                }
                Err(s) => {
                    if text {
                        viol!("utf8", "try_from_shared refused valid UTF-8");
                    }
                    return Back(H::Sb(s));
                }
            },
            5 => H::V(Vec::from(ByteData::from(s))),
            6 => H::Bu(SharedBytesBuilder::from(s)),
            _ => H::Q(ByteQueue::from(ByteData::from_shared(s))),
        }),
        H::Bd(d) => Done(match c % 11 {
            0 => H::Sb(SharedBytes::from(d)),
            1 => match if x & 1 == 0 { StringData::try_from_bytedata(d) } else { StringData::try_from(d) } {
                Ok(t) => {
                    if !text {
                        viol!("utf8", "try_from_bytedata accepted bytes that are not UTF-8");
                    }
                    H::Sd(t)
                }
                Err(s) => {
                    if text {
                        viol!("utf8", "try_from_bytedata refused valid UTF-8");
                    }
                    return Back(H::Bd(s));
                }
            },
            // inside the bytes crate a failed allocation is that crate's business
            2 => rt::nofault(|| H::By(Bytes::from(d))),
            3 => H::Q(ByteQueue::from(d)),
            4 | 5 => H::V(Vec::from(d)),
            6 => H::V(std::borrow::Cow::<'_, [u8]>::from(d).into_owned()),
            7 => H::Bd(d.into_shared()),
            8 => H::Bd(d.statically_borrowed()),
            9 => H::Q(ByteQueue::with_item(d)),
            _ => H::Bu(SharedBytesBuilder::from(SharedBytes::from(d))),
        }),
        H::Sd(d) => Done(match c % 8 {
            0 => H::Bd(d.into_bytedata()),
            1 => H::S(String::from(d)),
            2 => H::V(Vec::from(d)),
            3 => H::St(SharedStrBuilder::from(d)),
            4 => H::Sq(StringQueue::from(d)),
            5 => H::Sd(d.into_shared()),
            6 => H::S(std::borrow::Cow::<'_, str>::from(d).into_owned()),
            _ => H::Sq(StringQueue::with_item(d)),
        }),
        H::By(b) => Done(match c % 8 {
            0 => H::Sb(SharedBytes::from(b)),
            1 => H::Bd(ByteData::from(b)),
            2 => H::Q(ByteQueue::from(b)),
            3 => rt::nofault(|| H::V(Vec::from(b))),
            4 => rt::nofault(|| H::Bm(BytesMut::from(b))),
            5 => match rt::nofault(|| b.try_into_mut()) {
                Ok(m) => H::Bm(m),
                Err(b) => return Back(H::By(b)),
            },
            6 => H::Bd(ByteData::from_external(b)),
            _ => H::Bd(ByteData::from(b)),
        }),
        H::Q(q) => Done(match c % 4 {
            0 => H::Bd(ByteData::from(q)),
            1 => H::Sb(SharedBytes::from(q)),
            2 => rt::nofault(|| H::By(Bytes::from(q))),
            _ => H::V(Vec::from(q)),
        }),
        H::Sq(q) => Done(match c % 3 {
            0 => H::Sd(StringData::from(q)),
            1 => H::S(String::from(q)),
            _ => H::Q(q.into_bytequeue()),
        }),
        H::Bu(b) => Done(match c % 3 {
            0 => H::Sb(b.build()),
            1 => H::Bd(ByteData::from(b)),
            _ if text => match SharedStrBuilder::try_from(b) {
                Ok(s) => H::St(s),
                Err(_) => viol!("utf8", "SharedStrBuilder::try_from refused valid UTF-8"),
            },
            _ => H::Sb(SharedBytes::from(b)),
        }),
        H::St(b) => Done(match c % 4 {
            0 => H::Sb(b.build()),
            1 => H::Sd(b.build_str()),
            2 => H::Bu(b.into_shared_bytes_builder()),
            _ => H::Bd(ByteData::from(b)),
        }),
        H::V(v) => Done(match c % 9 {
            0 => H::Bd(ByteData::from(v)),
            1 => H::Sb(SharedBytes::from(v)),
            2 => H::Bd(ByteData::from_external(v)),
            3 => H::By(Bytes::from(v)),
            4 => H::Q(ByteQueue::from(v)),
            5 => {
                let b = rt::nofault(|| v.into_boxed_slice());
                H::Bd(ByteData::from_external(b))
            }
            6 => {
                let b: std::sync::Arc<[u8]> = rt::nofault(|| v.into());
                H::Bd(ByteData::from_external(b))
            }
            7 => H::Bd(ByteData::from_owned(v)),
            _ => H::Bd(ByteData::from_cow(std::borrow::Cow::Owned(v))),
        }),
        H::S(s) => Done(match c % 9 {
            0 => H::Sd(StringData::from(s)),
            1 => H::Bd(ByteData::from(s)),
            2 => H::Sd(StringData::from_owned(s)),
            3 => H::Bd(ByteData::from_external(s)),
            4 => H::Sq(StringQueue::from(s)),
            5 => {
                let b: std::sync::Arc<str> = rt::nofault(|| s.into());
                H::Bd(ByteData::from_external(b))
            }
            6 => H::Sb(SharedBytes::from(s)),
            7 => {
                let b: Box<str> = rt::nofault(|| s.into());
                H::Bd(ByteData::from_external(b))
            }
            _ => H::Sd(StringData::from_cow(std::borrow::Cow::Owned(s))),
        }),
        H::Bm(b) => {
            let _ = x;
            Done(H::By(b.freeze()))
        }
    }
}

/// The shared shape of the multi-threaded workloads.
pub fn machine(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | if cfg.beh.panics || cfg.beh.lies { rt::PF_GEN } else { 0 });
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let nsrc = rt::wr(1, 3);
    let ncommon = if nthr > 1 { rt::w(3) as usize } else { 0 };
    let srcs: Vec<[u32; 3]> = quiet(|| (0..nsrc + ncommon).map(|_| [rt::w(64), rt::w(4096), rt::w(64)]).collect());
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| draw_program(cfg)).collect());
    if nthr > 1 && quiet(|| progs.iter().filter(|p| p.len() >= 2).count() >= 2) || quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<Hd>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let mut common: Vec<Hd> = quiet(Vec::new);
    for c in &srcs[nsrc..] {
        if let Some(h) = source(cfg, *c) {
            quiet(|| common.push(h));
        }
    }
    let cref: &'static [Hd] = unsafe { core::slice::from_raw_parts(common.as_ptr(), common.len()) };
    let mut m = M::new(cfg, boxes, cref);
    for c in &srcs[..nsrc] {
        if let Some(h) = source(cfg, *c) {
            m.add(h);
        }
    }
    let mut joins = quiet(Vec::new);
    for (t, p) in quiet(|| progs.drain(1..).collect::<Vec<_>>()).into_iter().enumerate() {
        // give each worker a clone or a sub-view of each source to start with
        let mut mm = M::new(cfg, boxes, cref);
        for i in 0..m.v.len() {
            let h: &Hd = unsafe { &*(&m.v[i] as *const Hd) };
            mm.clone_of(h, "for a worker");
        }
        let j = quiet(|| {
            rt::spawn(move || {
                let _ = t;
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some(h) = b.try_recv() {
            h.check();
            op!("drop undelivered {}", KIND[h.h().kind()]);
            must(cfg, move || drop(h));
        }
    }
    while let Some(h) = quiet(|| common.pop()) {
        h.check();
        op!("drop common {}", KIND[h.h().kind()]);
        must(cfg, move || drop(h));
    }
    check_owners();
    let _ = fk::ALLOC;
}
