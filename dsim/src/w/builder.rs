//! Builders: contents, capacity and alignment under failing growth (C04), writes (C09), fills of spare capacity (C11).
use super::common::*;
use super::handles::{Hd, H};
use crate::model::{self, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use bytes::BufMut;
use core::cell::Cell;
use core::fmt::Write as _;
use core::future::Future;
use core::mem::{ManuallyDrop, MaybeUninit};
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use std::io::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Append,
    New,
    Iter,
    Fmt,
    Io,
    BufMut,
    Reserve,
    Truncate,
    Clear,
    Edit,
    Build,
    Rebuild,
    Str,
    Refused,
    Fill,
    FillAsync,
    FillBorrowed,
    Drop,
    Send,
    Recv,
    View,
}
pub struct Cfg {
    pub weights: &'static [(K, u32)],
    pub faulty: bool,
    pub panics: bool,
    pub max_threads: usize,
    pub max_ops: usize,
}
#[derive(Clone, Copy)]
struct Op {
    k: K,
    a: u32,
    c: [u32; 3],
}
fn program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let tot: u32 = cfg.weights.iter().map(|x| x.1).sum();
        let mut v = Vec::new();
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            let mut x = rt::w(tot);
            let mut k = cfg.weights[0].0;
            for &(kk, wt) in cfg.weights {
                if x < wt {
                    k = kk;
                    break;
                }
                x -= wt;
            }
            v.push(Op { k, a: rt::w(8), c: [rt::w(64), rt::w(2048), rt::w(256)] });
        }
        v
    })
}

/// A builder, what it must hold, and the alignment asked for.
pub struct Bx {
    hd: Hd,
    align: usize,
}
impl Bx {
    fn is_str(&self) -> bool {
        matches!(self.hd.h(), H::St(_))
    }
    fn cap(&self) -> usize {
        match self.hd.h() {
            H::Bu(b) => b.capacity(),
            H::St(b) => b.capacity(),
            _ => unreachable!(),
        }
    }
    fn len(&self) -> usize {
        self.hd.want.len()
    }
    fn check(&self) {
        self.hd.check();
        let s = match self.hd.h() {
            H::Bu(b) => {
                let (x, y): (&[u8], &[u8]) = (b.as_ref(), b);
                if x.as_ptr() != b.as_slice().as_ptr() || y.len() != x.len() {
                    viol!("content", "as_ref() or deref() of a builder disagrees with as_slice()");
                }
                b.as_slice()
            }
            H::St(b) => b.as_str().as_bytes(),
            _ => unreachable!(),
        };
        check_align("builder", s, self.align);
    }
}
fn check_align(what: &str, s: &[u8], align: usize) {
    if !s.is_empty() && s.as_ptr() as usize % align != 0 {
        viol!("alignment", "{}: its bytes are at an address that is not a multiple of {}", what, align);
    }
}

struct M {
    cfg: &'static Cfg,
    b: Vec<Bx>,
    v: Vec<(Hd, usize)>,
    boxes: &'static [Mailbox<Bx>],
    vboxes: &'static [Mailbox<(Hd, usize)>],
}
const CAP: usize = 4;

fn amount(c: u32, spare: usize) -> usize {
    const L: [usize; 14] = [5, 1, 0, 8, 7, 3, 15, 16, 17, 24, 33, 60, 128, 300];
    if (c >> 5) % 64 == 63 {
        return [32750, 32768, 33000][c as usize % 3];
    }
    match c % 16 {
        14 => spare.min(5000),
        15 => spare.min(5000) + 1,
        x => L[x as usize],
    }
}
fn unsafe_str(b: &[u8]) -> &str {
    // the generator makes text
    unsafe { core::str::from_utf8_unchecked(b) }
}

impl M {
    fn bytes_for(&self, text: bool, n: usize) -> Q {
        if text {
            model::gen_text(next_tag(), n)
        } else {
            model::gen_bytes(next_tag(), n)
        }
    }
    fn add(&mut self, b: Bx) {
        b.check();
        rt::state(((b.align as u64) << 40) | ((b.cap() as u64) << 20) | b.len() as u64);
        quiet(|| self.b.push(b));
        if self.b.len() > CAP {
            let x = quiet(|| self.b.remove(0));
            drop(x);
        }
    }
    fn add_view(&mut self, h: Hd, align: usize) {
        h.check();
        quiet(|| self.v.push((h, align)));
        if self.v.len() > CAP {
            let x = quiet(|| self.v.remove(0));
            drop(x);
        }
    }
    /// Accounts for an append that was done (Some) or interrupted (None); `exact`: what an interrupted one must have added.
    fn grown(&mut self, i: usize, done: bool, add: &[u8], exact: Option<usize>) {
        let hd = &mut self.b[i].hd;
        if done {
            hd.want.push(add);
        } else {
            let (n, old) = (hd.h_len(), hd.want.len());
            let k = match exact {
                Some(k) => k,
                None if n < old || n - old > add.len() => {
                    viol!("content", "after an interrupted append of {} bytes the length went from {} to {}", add.len(), old, n)
                }
                None => n - old,
            };
            hd.want.push(&add[..k]);
        }
        hd.rehold();
        self.b[i].check();
    }
    fn new_builder(&mut self, o: &Op) {
        let f = self.cfg.faulty;
        let n = amount(o.c[1], 20);
        let align = 1usize << (o.c[2] % 10);
        let how = o.c[0] % 9;
        op!("new builder how {} capacity {} alignment {}", how, n, align);
        let mut want = Q::new(&[]);
        let mut al = 1;
        let r = must_in(f, || match how {
            0 => H::Bu(SharedBytesBuilder::new()),
            1 => {
                al = align;
                H::Bu(SharedBytesBuilder::with_alignment(align))
            }
            2 => H::Bu(SharedBytesBuilder::with_capacity(n)),
            3 => {
                al = align;
                H::Bu(SharedBytesBuilder::with_aligned_capacity(n, align))
            }
            4 => H::Bu(SharedBytes::builder()),
            5 => H::St(SharedStrBuilder::new()),
            6 => H::St(SharedStrBuilder::with_capacity(n)),
            7 => {
                want = model::gen_text(next_tag(), n.min(300));
                H::St(SharedStrBuilder::from(unsafe_str(want.b())))
            }
            _ => {
                want = model::gen_text(next_tag(), n.min(300));
                H::St(<SharedStrBuilder as core::str::FromStr>::from_str(unsafe_str(want.b())).unwrap())
            }
        });
        if let Some(h) = r {
            let b = Bx { hd: Hd::new(h, want), align: al };
            if matches!(how, 2 | 3 | 6) && b.cap() < n {
                viol!("capacity", "a builder asked for a capacity of {} has {}", n, b.cap());
            }
            self.add(b);
        }
    }
    fn append(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let b = &mut self.b[i];
        let n = amount(o.c[1], b.cap() - b.len());
        let text = b.is_str() || o.c[2] % 2 == 0;
        let add = if text { model::gen_text(next_tag(), n) } else { model::gen_bytes(next_tag(), n) };
        op!("append {} bytes to {} of {}", n, b.len(), b.cap());
        let d = add.b();
        let r = match b.hd.hm() {
            H::Bu(x) => must_in(f, || x.extend_from_slice(d)),
            H::St(x) if o.c[0] % 4 == 3 => {
                // one character at a time
                let r = must_in(f, || {
                    for ch in unsafe_str(d).chars() {
                        x.push(ch)
                    }
                });
                return self.grown(i, r.is_some(), d, None);
            }
            H::St(x) => must_in(f, || x.push_str(unsafe_str(d))),
            _ => unreachable!(),
        };
        self.grown(i, r.is_some(), d, Some(0))
    }
    fn iter(&mut self, i: usize, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let text = self.b[i].is_str();
        if text {
            return self.append(i, o);
        }
        let n = amount(o.c[1], 9).min(120);
        let w = o.c[0] % 5;
        let add = self.bytes_for(w == 3, n);
        let d = add.b();
        let step = 1 + o.c[2] as usize % 9;
        op!("extend by an iterator of kind {} with {} bytes", w, n);
        let given = Cell::new(0);
        let H::Bu(x) = self.b[i].hd.hm() else { unreachable!() };
        // what was handed over by the time the iterator stopped
        let mut ends: Vec<usize> = quiet(|| vec![0]);
        let r = match w {
            0 => {
                quiet(|| ends.extend(1..=n));
                let it = quiet(|| It::new(d.to_vec(), p, p, &given));
                run_in(f, || x.extend(it))
            }
            1 => {
                quiet(|| ends.extend(1..=n));
                let it = quiet(|| It::new(d.iter().collect::<Vec<&u8>>(), p, p, &given));
                run_in(f, || x.extend(it))
            }
            2 => {
                let parts: Vec<&[u8]> = quiet(|| d.chunks(step).collect());
                quiet(|| ends.extend(parts.iter().scan(0, |a, p| { *a += p.len(); Some(*a) })));
                let it = It::new(parts, p, p, &given);
                run_in(f, || x.extend(it))
            }
            4 => {
                // collected first, so it is all or nothing
                quiet(|| ends.resize(n + 1, 0));
                let it = quiet(|| It::new(d.to_vec(), p, p, &given));
                run_in(f, || x.extend_from_slice(&it.collect::<bytedata::ByteData<'static>>()))
            }
            _ => {
                let parts: Vec<&str> = quiet(|| split_text(unsafe_str(d), step));
                quiet(|| ends.extend(parts.iter().scan(0, |a, p| { *a += p.len(); Some(*a) })));
                let it = It::new(parts, p, p, &given);
                run_in(f, || x.extend(it))
            }
        };
        match r {
            Ok(()) => self.grown(i, true, d, None),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(Unwound::Injected(_)) => self.grown(i, false, d, Some(ends[given.get()])),
            // the item on its way when an allocation failed is not stored
            Err(Unwound::Alloc) => self.grown(i, false, d, Some(ends[given.get().saturating_sub(1)])),
        }
        quiet(|| drop(ends));
    }
    fn fmt(&mut self, i: usize, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let n = amount(o.c[1], 9).min(300);
        let add = model::gen_text(next_tag(), n);
        let d = add.b();
        let parts: Vec<&str> = quiet(|| split_text(unsafe_str(d), 1 + o.c[2] as usize % 40));
        let disp = Parts::new(&parts, p, p);
        let io = o.c[0] % 2 == 1;
        op!("format {} bytes in {} parts through {}", n, parts.len(), if io { "io::Write" } else { "fmt::Write" });
        let r = match self.b[i].hd.hm() {
            H::Bu(x) if io => run_in(f, || std::io::Write::write_fmt(x, format_args!("{disp}")).is_ok()),
            H::Bu(x) => run_in(f, || core::fmt::Write::write_fmt(x, format_args!("{disp}")).is_ok()),
            H::St(x) => run_in(f, || write!(x, "{disp}").is_ok()),
            _ => unreachable!(),
        };
        match r {
            Ok(true) => {
                if disp.failed.get() || disp.done.get() != n {
                    viol!("write", "formatting reported success although the value being formatted failed");
                }
                self.grown(i, true, d, None)
            }
            Ok(false) if !disp.failed.get() => viol!("write", "formatting reported an error that nothing caused"),
            // io::Write::write_fmt itself panics when the value fails although the writer did not
            Err(Unwound::Lib(_)) if io && disp.failed.get() => self.grown(i, false, d, Some(disp.done.get())),
            Ok(false) | Err(Unwound::Injected(_)) | Err(Unwound::Alloc) => self.grown(i, false, d, Some(disp.done.get())),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
        }
        drop(disp);
        quiet(|| drop(parts));
    }
    fn io(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        if self.b[i].is_str() {
            return self.fmt(i, o);
        }
        let b = &mut self.b[i];
        let n = amount(o.c[1], b.cap() - b.len());
        let add = model::gen_bytes(next_tag(), n);
        let d = add.b();
        let how = o.c[0] % 4;
        let step = 1 + o.c[2] as usize % 50;
        op!("io write {} of {} bytes to {} of {}", ["write", "write_all", "write_vectored", "flush"][how as usize], n, b.len(), b.cap());
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        let mut parts: Vec<std::io::IoSlice<'_>> = quiet(|| {
            let mut v = Vec::new();
            for (j, c) in d.chunks(step).enumerate() {
                if o.c[0] & 4 != 0 && j % 3 == 0 {
                    v.push(std::io::IoSlice::new(&[]));
                }
                v.push(std::io::IoSlice::new(c));
            }
            if o.c[0] & 8 != 0 {
                v.push(std::io::IoSlice::new(&[]));
            }
            v
        });
        let r = run_in(f, || match how {
            0 => x.write(d),
            1 => x.write_all(d).map(|()| d.len()),
            2 => x.write_vectored(&parts),
            _ => x.flush().map(|()| 0),
        });
        quiet(|| drop(core::mem::take(&mut parts)));
        match r {
            Ok(Ok(k)) => {
                if k > n {
                    viol!("write", "a write of {} bytes reported {}", n, k);
                }
                if k == 0 && n != 0 && how != 3 {
                    viol!("write", "a write of {} bytes reported 0", n);
                }
                self.grown(i, true, &d[..k], None)
            }
            Ok(Err(e)) => {
                drop(e);
                // refusing is fine, as long as nothing was taken
                self.grown(i, false, d, if how == 1 { None } else { Some(0) })
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => self.grown(i, false, d, if how == 1 { None } else { Some(0) }),
        }
    }
    fn bufmut(&mut self, i: usize, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        if self.b[i].is_str() {
            return self.append(i, o);
        }
        let b = &mut self.b[i];
        let n = amount(o.c[1], b.cap() - b.len()).min(4000);
        let how = o.c[0] % 7;
        let add = model::gen_bytes(next_tag(), n);
        let step = 1 + o.c[2] as usize % 50;
        op!("BufMut op {} with {} bytes on {} of {}", how, n, b.len(), b.cap());
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        if x.remaining_mut() < 1 << 20 {
            viol!("capacity", "remaining_mut() of a small builder is {}", x.remaining_mut());
        }
        match how {
            0 => {
                let r = must_in(f, || x.put_slice(add.b()));
                self.grown(i, r.is_some(), add.b(), Some(0))
            }
            1 => {
                let v = o.c[2] as u8;
                let r = must_in(f, || x.put_bytes(v, n));
                let w = quiet(|| Q::new(&vec![v; n]));
                self.grown(i, r.is_some(), w.b(), Some(0))
            }
            2 | 3 => {
                let mut parts: Vec<&[u8]> = quiet(|| add.b().chunks(step).collect());
                if o.c[0] & 8 != 0 {
                    quiet(|| parts.insert(0, &[]));
                }
                let gone = Cell::new(0);
                let r = must_in(f, || x.put(Pieces::new(&parts, p, &gone)));
                if r.is_some() {
                    if gone.get() != n {
                        viol!("write", "put() left {} of {} bytes in the source", n - gone.get(), n);
                    }
                    self.grown(i, true, add.b(), None);
                } else {
                    // stored, but its source was perhaps not yet told
                    let l = self.b[i].hd.h_len() - self.b[i].len();
                    if l < gone.get() || l > gone.get() + step {
                        viol!("write", "an interrupted put() stored {} bytes although the source was told {}", l, gone.get());
                    }
                    self.grown(i, false, add.b(), None);
                }
                quiet(|| drop(parts));
            }
            4 => {
                let v = (o.c[2] as u64).wrapping_mul(0x0102_0304_0506_0709);
                let r = must_in(f, || match o.c[1] % 4 {
                    0 => x.put_u8(v as u8),
                    1 => x.put_u16(v as u16),
                    2 => x.put_u32_le(v as u32),
                    _ => x.put_u64(v),
                });
                let w = match o.c[1] % 4 {
                    0 => Q::new(&[v as u8]),
                    1 => Q::new(&(v as u16).to_be_bytes()),
                    2 => Q::new(&(v as u32).to_le_bytes()),
                    _ => Q::new(&v.to_be_bytes()),
                };
                self.grown(i, r.is_some(), w.b(), Some(0))
            }
            _ => {
                // the raw protocol: chunk_mut, fill, advance_mut, repeatedly
                let mut done = 0;
                let mut ok = true;
                while done < n && ok {
                    let H::Bu(x) = self.b[i].hd.hm() else { unreachable!() };
                    let left = n - done;
                    let r = must_in(f, || {
                        let c = x.chunk_mut();
                        let k = c.len().min(left).min(step);
                        if k != 0 {
                            c[..k].copy_from_slice(&add.b()[done..done + k]);
                            unsafe { x.advance_mut(k) };
                        }
                        k
                    });
                    match r {
                        Some(0) => viol!("capacity", "chunk_mut() gave no space"),
                        Some(k) => done += k,
                        None => ok = false,
                    }
                }
                self.grown(i, true, &add.b()[..done], None)
            }
        }
    }
    fn reserve(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let b = &mut self.b[i];
        let n = amount(o.c[1], b.cap() - b.len());
        op!("reserve {} for {} of {}", n, b.len(), b.cap());
        let r = match b.hd.hm() {
            H::Bu(x) => must_in(f, || x.reserve(n)),
            H::St(x) => must_in(f, || x.reserve(n)),
            _ => unreachable!(),
        };
        if r.is_some() && b.cap() - b.len() < n {
            viol!("capacity", "after reserve({}) there is room for {}", n, b.cap() - b.len());
        }
        self.grown(i, true, &[], None);
    }
    fn truncate(&mut self, i: usize, o: &Op) {
        let b = &mut self.b[i];
        let n = b.len();
        let mut at = match o.c[0] % 16 {
            12 => usize::MAX,
            13 => 1 << 32,
            14 => (1 << 32) + 3,
            15 => u32::MAX as usize,
            11 => n,
            10 => n + 1,
            _ => o.c[1] as usize % (n + 1),
        };
        if b.is_str() {
            while at < n && !b.hd.want.boundary(at) {
                at -= 1;
            }
        }
        op!("truncate {} to {}", n, at);
        let r = rt::catch(|| match b.hd.hm() {
            H::Bu(x) => x.truncate(at),
            H::St(x) => x.truncate(at),
            _ => unreachable!(),
        });
        if let Err(e) = r {
            viol!("panic", "truncate({}) of {} bytes: {:?}", at, n, e);
        }
        if at < n {
            b.hd.want.truncate(at);
        }
        self.grown(i, true, &[], None);
    }
    fn edit(&mut self, i: usize, o: &Op) {
        let b = &mut self.b[i];
        let x = o.c[2] as u8 | 1;
        op!("edit {} bytes in place", b.len());
        if let H::Bu(h) = b.hd.hm() {
            let s: &mut [u8] = match o.c[0] % 3 {
                0 => h.as_slice_mut(),
                1 => h.as_mut(),
                _ => &mut *h,
            };
            let n = s.len();
            for p in s.iter_mut() {
                *p ^= x;
            }
            if n != b.hd.want.len() {
                viol!("content", "as_slice_mut() shows {} of {} bytes", n, b.hd.want.len());
            }
            quiet(|| b.hd.want.m().iter_mut().for_each(|p| *p ^= x));
        }
        self.grown(i, true, &[], None);
    }
    fn build(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let b = quiet(|| self.b.remove(i));
        let align = b.align;
        let (h, want) = b.hd.take();
        op!("build {} bytes how {}", want.len(), o.c[0] % 3);
        let r = must_in(f, move || match h {
            H::Bu(x) => match o.c[0] % 3 {
                0 => H::Sb(x.build()),
                1 => H::Bd(ByteData::from(x)),
                _ => H::Sb(SharedBytes::from(x)),
            },
            H::St(x) => match o.c[0] % 6 {
                0 => H::Sb(x.build()),
                1 => H::Sd(x.build_str()),
                2 => H::Bd(ByteData::from(x)),
                3 => H::Sd(StringData::from(x)),
                4 => H::Sb(SharedBytes::from(x)),
                _ => H::Bu(x.into_shared_bytes_builder()),
            },
            _ => unreachable!(),
        });
        if let Some(h) = r {
            let hd = Hd::new(h, want);
            if matches!(hd.h(), H::Bu(_)) {
                return self.add(Bx { hd, align });
            }
            if let (H::Sb(s), true) = (hd.h(), hd.want.len() > 0) {
                check_align("built SharedBytes", s.as_slice(), align);
                // nothing else knows it yet
                if !s.is_unique() {
                    viol!("unique", "a freshly built SharedBytes is not unique");
                }
            }
            // views of 14 bytes or less may have moved inline
            self.add_view(hd, align);
        }
    }
    fn rebuild(&mut self, o: &Op) {
        let f = self.cfg.faulty;
        if self.v.is_empty() {
            return;
        }
        let j = o.a as usize % self.v.len();
        let (hd, align) = quiet(|| self.v.remove(j));
        let (h, want) = hd.take();
        op!("rebuild a builder from {} bytes", want.len());
        let text = want.is_text();
        let keep = matches!(h, H::Sb(_)) && want.len() > 0;
        let r = must_in(f, move || match h {
            H::Sb(x) => H::Bu(SharedBytesBuilder::from(x)),
            H::Bd(x) => H::Bu(SharedBytesBuilder::from(SharedBytes::from(x))),
            H::Sd(x) => H::St(SharedStrBuilder::from(x)),
            _ => unreachable!(),
        });
        let _ = text;
        if let Some(h) = r {
            self.add(Bx { hd: Hd::new(h, want), align: if keep { align } else { 1 } });
        }
    }
    fn to_str(&mut self, i: usize) {
        let f = self.cfg.faulty;
        let b = quiet(|| self.b.remove(i));
        let align = b.align;
        let (h, want) = b.hd.take();
        let text = want.is_text();
        op!("convert a builder of {} bytes to or from text", want.len());
        let r = must_in(f, move || match h {
            H::Bu(x) => match SharedStrBuilder::try_from(x) {
                Ok(s) => Some(H::St(s)),
                Err(_) => None,
            },
            H::St(x) => Some(H::Bu(SharedBytesBuilder::from(x))),
            _ => unreachable!(),
        });
        match r {
            Some(Some(h)) => {
                if matches!(h, H::St(_)) && !text {
                    viol!("utf8", "SharedStrBuilder::try_from accepted bytes that are not UTF-8");
                }
                self.add(Bx { hd: Hd::new(h, want), align })
            }
            Some(None) if text => viol!("utf8", "SharedStrBuilder::try_from refused valid UTF-8"),
            _ => {}
        }
    }
    fn refused(&mut self, i: Option<usize>, o: &Op) {
        let how = o.c[0] % 11;
        let n = o.c[1] as usize;
        op!("arguments to be refused, {}", how);
        let big = (1usize << 32) + n;
        let r = match (how, i) {
            (0, _) => rt::catch(|| drop(SharedBytesBuilder::with_alignment(3 + n % 2 * 2))),
            (1, _) => rt::catch(|| drop(SharedBytesBuilder::with_alignment(1024 << (n % 8)))),
            (2, _) => rt::catch(|| drop(SharedBytesBuilder::with_capacity(big))),
            (3, _) => rt::catch(|| drop(SharedBytesBuilder::with_aligned_capacity(16, 12))),
            (4, _) => rt::catch(|| drop(SharedBytesBuilder::with_aligned_capacity(big, 64))),
            (5, _) => rt::catch(|| drop(SharedBytesBuilder::with_aligned_capacity(16, 2048))),
            (6, Some(i)) => match self.b[i].hd.hm() {
                H::Bu(x) => rt::catch(|| x.put_bytes(1, big)),
                _ => return,
            },
            (7, Some(i)) => match self.b[i].hd.hm() {
                H::Bu(x) => rt::catch(|| unsafe { x.advance_mut(big) }),
                _ => return,
            },
            (8, Some(i)) => match self.b[i].hd.hm() {
                H::Bu(x) => rt::catch(|| x.reserve(big)),
                H::St(x) => rt::catch(|| x.reserve(big)),
                _ => return,
            },
            (_, Some(i)) => {
                let l = self.b[i].len();
                let at = n % (l + 1);
                if self.b[i].hd.want.boundary(at) {
                    return;
                }
                match self.b[i].hd.hm() {
                    H::St(x) => rt::catch(|| x.truncate(at)),
                    _ => return,
                }
            }
            _ => return,
        };
        match r {
            Ok(()) => viol!("not-refused", "arguments {} were accepted", how),
            Err(Unwound::Lib(_)) => rt::note(0x9ef),
            Err(e) => viol!("not-refused", "arguments {} were not refused but {:?}", how, e),
        }
        if let Some(i) = i {
            self.grown(i, true, &[], None);
        }
    }
    fn fill(&mut self, i: usize, o: &Op) {
        if self.b[i].is_str() {
            return self.append(i, o);
        }
        let b = &mut self.b[i];
        let spare = b.cap() - b.len();
        rt::extend((spare / 4).min(20_000));
        let want = amount(o.c[1], spare).min(spare);
        // may report less than it wrote, or (refused) more than there is
        let rep = match o.c[0] % 8 {
            6 => want / 2,
            7 if self.cfg.panics => spare + 1 + o.c[2] as usize % 5,
            5 => 0,
            _ => want,
        };
        let p = self.cfg.panics;
        let add = model::gen_bytes(next_tag(), want);
        op!("fill {} of {} spare bytes, reporting {}", want, spare, rep);
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        let r = run_in(self.cfg.faulty, || {
            x.apply_unfilled(|buf| {
                rt::nofault(|| {
                    spare_ok(buf.len(), spare);
                    write_some(buf, add.b());
                    if p && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                        rt::inject_panic(600);
                    }
                    (rep ^ 0x55, rep)
                })
            })
        });
        match r {
            Ok(_) if rep > spare => viol!("fill", "a fill reporting {} of {} bytes was accepted", rep, spare),
            Ok(v) => {
                if v != rep ^ 0x55 {
                    viol!("fill", "apply_unfilled returned something else than its function did");
                }
                self.grown(i, true, &add.b()[..rep], None)
            }
            Err(Unwound::Lib(m)) if rep <= spare => viol!("panic", "unexpected panic: {}", m),
            Err(_) => self.grown(i, false, &[], Some(0)),
        }
    }
    fn fill_async(&mut self, i: usize, o: &Op) {
        if self.b[i].is_str() {
            return self.append(i, o);
        }
        let b = &mut self.b[i];
        let spare = b.cap() - b.len();
        rt::extend((spare / 4).min(20_000));
        let want = amount(o.c[1], spare).min(spare);
        let rep = match o.c[0] % 8 {
            6 => want / 2,
            7 if self.cfg.panics => spare + 1,
            5 => 0,
            _ => want,
        };
        let p = self.cfg.panics;
        let add = model::gen_bytes(next_tag(), want);
        let d: &'static [u8] = unsafe { core::mem::transmute(add.b()) };
        let stops = o.c[2] % 5;
        op!("async fill {} of {} spare bytes, reporting {}, {} suspensions", want, spare, rep, stops);
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        struct Filler<'l> {
            buf: Pin<&'l mut [MaybeUninit<u8>]>,
            d: &'static [u8],
            rep: usize,
            stops: u32,
            at: usize,
            panics: bool,
        }
        impl Future for Filler<'_> {
            type Output = (usize, usize);
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<(usize, usize)> {
                rt::nofault(|| {
                    // writes a part per poll
                    let me = &mut *self;
                    let n = me.d.len();
                    let to = if me.stops == 0 { n } else { (me.at + n.div_ceil(me.stops as usize + 1)).min(n) };
                    let (at, d) = (me.at, me.d);
                    write_some(&mut me.buf.as_mut().get_mut()[at..], &d[at..to]);
                    me.at = to;
                    if me.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                        rt::inject_panic(700);
                    }
                    if me.stops > 0 {
                        me.stops -= 1;
                        return Poll::Pending;
                    }
                    if rt::fault(fk::PENDING, 1) == 1 {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Poll::Ready((me.rep ^ 0x33, me.rep))
                })
            }
        }
        fn is_send<T: Send>(t: T) -> T {
            t
        }
        let fut = is_send(x.apply_unfilled_async(move |buf| {
            spare_ok(buf.len(), spare);
            Filler { buf, d, rep, stops, at: 0, panics: p }
        }));
        let mut fut = ManuallyDrop::new(fut);
        let mut polls = 0;
        let out = loop {
            if polls > 0 || o.c[0] & 8 != 0 {
                rt::point();
                if rt::fault(fk::CANCEL, 1) == 1 {
                    slog!("cancelled after {} polls", polls);
                    unsafe { ManuallyDrop::drop(&mut fut) };
                    break None;
                }
                if rt::fault(fk::LEAK, 1) == 1 {
                    slog!("leaked after {} polls", polls);
                    break None;
                }
            }
            polls += 1;
            if polls > 40 {
                viol!("progress", "a fill did not end after {} polls although its future was ready", polls);
            }
            let pf = unsafe { Pin::new_unchecked(&mut *fut) };
            let res: Result<Poll<usize>, Unwound> = if polls > 1 && rt::fault(fk::MIGRATE, 1) == 1 {
                // the future goes on in another thread
                let slot: rt::Shared<Option<Result<Poll<usize>, Unwound>>> = rt::Shared::new(None);
                poll_elsewhere(pf, &slot);
                slot.with(|s| s.take().unwrap())
            } else {
                let mut cx = Context::from_waker(Waker::noop());
                run_in(self.cfg.faulty, || pf.poll(&mut cx))
            };
            match res {
                Ok(Poll::Pending) => continue,
                Ok(Poll::Ready(v)) => {
                    unsafe { ManuallyDrop::drop(&mut fut) };
                    break Some(v);
                }
                Err(Unwound::Lib(m)) if rep <= spare => viol!("panic", "unexpected panic: {}", m),
                Err(_) => {
                    unsafe { ManuallyDrop::drop(&mut fut) };
                    break None;
                }
            }
        };
        match out {
            Some(_) if rep > spare => viol!("fill", "a fill reporting {} of {} bytes was accepted", rep, spare),
            Some(v) => {
                if v != rep ^ 0x33 {
                    viol!("fill", "apply_unfilled_async returned something else than its future did");
                }
                self.grown(i, true, &add.b()[..rep], None)
            }
            None => self.grown(i, false, &[], Some(0)),
        }
    }
    /// The filler leaves another buffer in the place of the one it was lent: no byte of either counts.
    fn fill_foreign(&mut self, i: usize, o: &Op) {
        let b = &mut self.b[i];
        let spare = b.cap() - b.len();
        rt::extend((spare / 4).min(20_000));
        let c = o.c[0];
        let size = match c % 4 {
            0 => spare,
            1 => amount(o.c[1], spare),
            2 => spare + 1 + o.c[1] as usize % 64,
            _ => o.c[1] as usize % 64,
        };
        let filled = if c & 16 == 0 { size } else { o.c[2] as usize % (size + 1) };
        let back = c & 32 != 0;
        let add = model::gen_bytes(next_tag(), filled);
        op!("fill {} spare bytes through a cursor of another {} of {}", spare, filled, size);
        let mut other = quiet(|| vec![0xEEu8; size]);
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        let r = run_in(self.cfg.faulty, || {
            let other = &mut other[..];
            x.apply_borrowed_buf(|bb| {
                rt::nofault(|| {
                    let mut alien = std::io::BorrowedBuf::from(other);
                    if back {
                        // lent out and put back: the original counts
                        std::mem::swap(bb, &mut alien);
                        if alien.len() != 0 {
                            viol!("fill", "the borrowed buffer starts with {} bytes filled", alien.len());
                        }
                        std::mem::swap(bb, &mut alien);
                        let n = filled.min(spare);
                        bb.unfilled().append(&add.b()[..n]);
                    } else {
                        alien.unfilled().append(add.b());
                        *bb = alien;
                    }
                    17u32
                })
            })
        });
        quiet(|| drop(other));
        let l = self.b[i].hd.h_len();
        match r {
            Ok(_) if back => self.grown(i, true, &add.b()[..filled.min(spare)], None),
            Err(Unwound::Lib(m)) if back => viol!("panic", "unexpected panic: {}", m),
            // refused or ignored
            _ => {
                if l != self.b[i].len() {
                    viol!("fill", "{} bytes in a buffer that is not the builder's took its length from {} to {}", filled, self.b[i].len(), l);
                }
                self.grown(i, false, &[], Some(0));
            }
        }
    }
    fn fill_borrowed(&mut self, i: usize, o: &Op) {
        if self.b[i].is_str() {
            return self.append(i, o);
        }
        if self.cfg.panics && rt::fault_often(fk::CB_LIE, 1) == 1 {
            return self.fill_foreign(i, o);
        }
        let b = &mut self.b[i];
        let spare = b.cap() - b.len();
        rt::extend((spare / 4).min(20_000));
        let want = amount(o.c[1], spare).min(spare);
        let p = self.cfg.panics;
        let add = model::gen_bytes(next_tag(), want);
        let step = 1 + o.c[2] as usize % 20 + want / 40;
        op!("fill {} of {} spare bytes through a cursor", want, spare);
        let H::Bu(x) = b.hd.hm() else { unreachable!() };
        let told = Cell::new(0);
        let r = run_in(self.cfg.faulty, || {
            x.apply_borrowed_buf(|bb| {
                rt::nofault(|| {
                    spare_ok(bb.capacity(), spare);
                    if bb.len() != 0 {
                        viol!("fill", "the borrowed buffer starts with {} bytes filled", bb.len());
                    }
                    let way = o.c[0] % 4;
                    if way == 2 {
                        // filled, and cleared again
                        bb.unfilled().append(&[0xCD; 9][..spare.min(9)]);
                        bb.clear();
                    }
                    for c in add.b().chunks(step) {
                        if p && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                            rt::inject_panic(800);
                        }
                        let mut cur = bb.unfilled();
                        if way % 2 == 0 {
                            cur.append(c);
                        } else if way == 3 {
                            // all of it initialised
                            cur.ensure_init().init_mut()[..c.len()].copy_from_slice(c);
                            unsafe { cur.advance_unchecked(c.len()) };
                        } else {
                            // by hand, initialising more than is reported
                            let u = unsafe { cur.as_mut() };
                            for q in u.iter_mut() {
                                q.write(0xAB);
                            }
                            for (q, v) in u.iter_mut().zip(c) {
                                q.write(*v);
                            }
                            unsafe { cur.advance_unchecked(c.len()) };
                        }
                        told.set(told.get() + c.len());
                    }
                    17u32
                })
            })
        });
        match r {
            Ok(v) => {
                if v != 17 {
                    viol!("fill", "apply_borrowed_buf returned something else than its function did");
                }
                self.grown(i, true, add.b(), None)
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                let l = self.b[i].hd.h_len();
                let old = self.b[i].len();
                if l != old && l != old + told.get() {
                    viol!("fill", "an interrupted fill of {} reported bytes changed the length from {} to {}", told.get(), old, l);
                }
                self.grown(i, false, add.b(), None)
            }
        }
    }
    fn view(&mut self, o: &Op) {
        let f = self.cfg.faulty;
        if self.v.is_empty() {
            return;
        }
        let j = o.a as usize % self.v.len();
        let how = o.c[0] % 5;
        op!("view op {} on {} bytes", how, self.v[j].0.want.len());
        self.v[j].0.check();
        match how {
            0 => {
                let x = quiet(|| self.v.remove(j));
                drop(x);
            }
            1 | 2 => {
                let n = self.v[j].0.want.len();
                let a = o.c[1] as usize % (n + 1);
                let b = a + o.c[2] as usize % (n - a + 1);
                let align = self.v[j].1;
                let (a, b) = if how == 1 { (0, n) } else { (a, b) };
                let r = match self.v[j].0.h() {
                    H::Sb(x) => must_in(f, || H::Sb(if how == 1 { x.clone() } else { x.sliced(a, b - a) })),
                    H::Bd(x) => must_in(f, || H::Bd(if how == 1 { x.clone() } else { x.sliced(a..b) })),
                    _ => None,
                };
                if let Some(h) = r {
                    let w = self.v[j].0.want.sub(a, b);
                    self.add_view(Hd::new(h, w), align);
                }
            }
            3 => {
                let x = quiet(|| self.v.remove(j));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.vboxes.len();
                self.vboxes[to].send(x);
            }
            _ => {
                if let Some((h, a)) = self.vboxes[rt::tid() as usize].try_recv() {
                    self.add_view(h, a);
                }
            }
        }
    }
    fn step(&mut self, o: &Op) {
        match o.k {
            K::New => return self.new_builder(o),
            K::Recv => {
                op!("receive a builder");
                if let Some(b) = self.boxes[rt::tid() as usize].try_recv() {
                    self.add(b);
                }
                return;
            }
            K::View => return self.view(o),
            K::Rebuild => return self.rebuild(o),
            _ => {}
        }
        if self.b.is_empty() {
            if o.k == K::Refused {
                return self.refused(None, o);
            }
            return self.new_builder(o);
        }
        let i = o.a as usize % self.b.len();
        match o.k {
            K::Append => self.append(i, o),
            K::Iter => self.iter(i, o),
            K::Fmt => self.fmt(i, o),
            K::Io => self.io(i, o),
            K::BufMut => self.bufmut(i, o),
            K::Reserve => self.reserve(i, o),
            K::Truncate => self.truncate(i, o),
            K::Clear => {
                op!("clear {} bytes", self.b[i].len());
                match self.b[i].hd.hm() {
                    H::Bu(x) => x.clear(),
                    H::St(x) => x.clear(),
                    _ => {}
                }
                self.b[i].hd.want.truncate(0);
                self.grown(i, true, &[], None);
            }
            K::Edit => self.edit(i, o),
            K::Build => self.build(i, o),
            K::Str => self.to_str(i),
            K::Refused => self.refused(Some(i), o),
            K::Fill => self.fill(i, o),
            K::FillAsync => self.fill_async(i, o),
            K::FillBorrowed => self.fill_borrowed(i, o),
            K::Drop => {
                let b = quiet(|| self.b.remove(i));
                op!("drop a builder of {} bytes", b.len());
                drop(b);
            }
            K::Send => {
                let b = quiet(|| self.b.remove(i));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.boxes.len();
                op!("send a builder of {} bytes to T{}", b.len(), to);
                self.boxes[to].send(b);
            }
            _ => {}
        }
    }
    fn finish(mut self) {
        while let Some(b) = quiet(|| self.b.pop()) {
            b.check();
            drop(b);
        }
        while let Some((h, _)) = quiet(|| self.v.pop()) {
            h.check();
            drop(h);
        }
        quiet(|| {
            drop(core::mem::take(&mut self.b));
            drop(core::mem::take(&mut self.v));
        });
    }
}
fn spare_ok(got: usize, spare: usize) {
    if got != spare {
        viol!("fill", "the function was offered {} bytes although {} are spare", got, spare);
    }
}
fn write_some(buf: &mut [MaybeUninit<u8>], d: &[u8]) {
    for (q, v) in buf.iter_mut().zip(d) {
        q.write(*v);
    }
}
fn poll_elsewhere<F: Future<Output = usize> + Send>(f: Pin<&mut F>, slot: &rt::Shared<Option<Result<Poll<usize>, Unwound>>>) {
    let fp = unsafe { f.get_unchecked_mut() as *mut F as usize };
    let sp = slot as *const _ as usize;
    let work = move || {
        let f = unsafe { Pin::new_unchecked(&mut *(fp as *mut F)) };
        let slot = unsafe { &*(sp as *const rt::Shared<Option<Result<Poll<usize>, Unwound>>>) };
        let mut cx = Context::from_waker(Waker::noop());
        let r = rt::catch(|| f.poll(&mut cx));
        slot.with(|s| *s = Some(r));
    };
    let work: Box<dyn FnOnce() + Send> = unsafe { core::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Box<dyn FnOnce() + Send>>(rt::nofault(|| Box::new(work))) };
    rt::nofault(|| rt::spawn(work).join());
}

/// Cuts text into parts of about `step` bytes, on character boundaries.
pub fn split_text(s: &str, step: usize) -> Vec<&str> {
    let mut v = Vec::new();
    let mut at = 0;
    while at < s.len() {
        let mut e = (at + step).min(s.len());
        while !s.is_char_boundary(e) {
            e += 1;
        }
        v.push(&s[at..e]);
        at = e;
    }
    v
}

pub fn builders(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| program(cfg)).collect());
    if quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<Bx>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let vboxes: &'static [Mailbox<(Hd, usize)>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let new = || M { cfg, b: quiet(|| Vec::with_capacity(CAP + 2)), v: quiet(|| Vec::with_capacity(CAP + 2)), boxes, vboxes };
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut mm = new();
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = new();
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some(b) = b.try_recv() {
            b.check();
            drop(b);
        }
    }
    for b in vboxes {
        while let Some((h, _)) = b.try_recv() {
            h.check();
            drop(h);
        }
    }
    quiet(|| {
        drop(p0);
        drop(progs);
    });
}

static C04: Cfg = Cfg {
    weights: &[
        (K::Append, 8),
        (K::New, 3),
        (K::Iter, 4),
        (K::Fmt, 3),
        (K::Io, 4),
        (K::BufMut, 6),
        (K::Reserve, 4),
        (K::Truncate, 4),
        (K::Clear, 2),
        (K::Edit, 3),
        (K::Build, 4),
        (K::Rebuild, 4),
        (K::Str, 2),
        (K::Refused, 2),
        (K::Fill, 1),
        (K::Drop, 2),
        (K::Send, 1),
        (K::Recv, 1),
        (K::View, 4),
    ],
    faulty: true,
    panics: false,
    max_threads: 2,
    max_ops: 16,
};
pub fn c04() {
    builders(&C04)
}
static C09: Cfg = Cfg {
    weights: &[
        (K::Append, 2),
        (K::New, 2),
        (K::Iter, 6),
        (K::Fmt, 8),
        (K::Io, 10),
        (K::BufMut, 10),
        (K::Reserve, 2),
        (K::Truncate, 1),
        (K::Clear, 1),
        (K::Build, 1),
        (K::Rebuild, 1),
        (K::Send, 1),
        (K::Recv, 1),
        (K::View, 1),
    ],
    faulty: false,
    panics: true,
    max_threads: 2,
    max_ops: 16,
};
pub fn c09() {
    builders(&C09)
}
static C11: Cfg = Cfg {
    weights: &[
        (K::Append, 4),
        (K::New, 3),
        (K::Reserve, 6),
        (K::Truncate, 2),
        (K::Clear, 1),
        (K::Edit, 1),
        (K::Build, 2),
        (K::Rebuild, 2),
        (K::Fill, 7),
        (K::FillAsync, 10),
        (K::FillBorrowed, 7),
        (K::Drop, 1),
        (K::Send, 1),
        (K::Recv, 1),
        (K::View, 2),
    ],
    faulty: false,
    panics: true,
    max_threads: 2,
    max_ops: 14,
};
pub fn c11() {
    builders(&C11)
}
