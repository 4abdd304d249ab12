//! Things several workloads share: owners, caller code, oracles for uniqueness.
use crate::model::Q;
use crate::rt::{self, fk, quiet};
use bytedata::external::{ExternalBytes, ExternalOps};
use core::ops::Bound;

pub use super::range::*;

// ------------------------------------------------------------------ external owners
static NODP: rt::Shared<u32> = rt::Shared::new(0);
fn no_drop_panic() -> bool {
    NODP.with(|m| *m & (1 << rt::tid()) != 0)
}
/// Runs a call that returns a fresh value by value after dropping its argument at scope end: rustc leaks the return
/// value when a destructor panics there (rust-lang/rust#47949), so owners do not panic in their drop inside it.
pub fn without_drop_panics<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NODP.with(|m| *m &= !(1 << rt::tid()));
        }
    }
    NODP.with(|m| *m |= 1 << rt::tid());
    let _g = G;
    f()
}
pub const MAXO: usize = 64;
#[derive(Clone, Copy)]
struct Rec {
    dropped: u32,
    taken: u32,
}
static REG: rt::Shared<(usize, [Rec; MAXO])> = rt::Shared::new((0, [Rec { dropped: 0, taken: 0 }; MAXO]));
pub fn new_owner_id() -> usize {
    REG.with(|r| {
        let i = r.0;
        assert!(i < MAXO);
        r.0 += 1;
        i
    })
}
pub fn owners() -> usize {
    REG.with(|r| r.0)
}
pub fn owner_dropped(i: usize) -> u32 {
    REG.with(|r| r.1[i].dropped)
}
fn note_drop(i: usize) {
    let n = REG.with(|r| {
        r.1[i].dropped += 1;
        r.1[i].dropped
    });
    slog!("owner {} dropped", i);
    if n > 1 {
        viol!("owner-dropped-twice", "external owner {} was dropped {} times", i, n);
    }
}
/// At the end of a run: every owner has been dropped exactly once.
pub fn check_owners() {
    for i in 0..owners() {
        let n = owner_dropped(i);
        if n == 0 && LEAKED.with(|l| *l) {
            continue;
        }
        if n != 1 {
            viol!("owner-lost", "external owner {} was dropped {} times by the end", i, n);
        }
    }
}

/// What the owner's code does when called; the faults are drawn from the fault stream.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Beh {
    /// as_slice and drop may panic
    pub panics: bool,
    /// as_slice may shrink what it shows between calls
    pub lies: bool,
}
pub const NICE: Beh = Beh { panics: false, lies: false };

/// A caller-supplied owner of bytes.  Its bytes are overwritten (plain writes) before it goes away.
pub struct Owner<const A: usize, X> {
    pub id: usize,
    pub data: Box<[u8]>,
    pub beh: Beh,
    pub calls: core::cell::Cell<u32>,
    pub _x: X,
}
// The Cell is only touched by harness code in quiet mode.
unsafe impl<const A: usize, X: Send> Send for Owner<A, X> {}
unsafe impl<const A: usize, X: Sync> Sync for Owner<A, X> {}
impl<const A: usize, X> Owner<A, X> {
    pub fn make(bytes: &[u8], beh: Beh, x: X) -> Self {
        let id = new_owner_id();
        // the owner's own memory is part of the simulation: checked for leaks and races
        let data: Box<[u8]> = rt::nofault(|| bytes.to_vec().into_boxed_slice());
        slog!("owner {} created, {} bytes", id, data.len());
        Owner { id, data, beh, calls: core::cell::Cell::new(0), _x: x }
    }
}
pub fn owner_slice<const A: usize, X>(o: &Owner<A, X>) -> &[u8] {
    let n = quiet(|| {
        let n = o.calls.get();
        o.calls.set(n + 1);
        n
    });
    owner_shows(o.id, o.beh, n, &o.data)
}
fn owner_shows(id: usize, beh: Beh, n: u32, data: &[u8]) -> &[u8] {
    rt::nofault(|| {
        rt::point();
        if owner_dropped(id) > 0 {
            viol!("owner-used-after-drop", "as_slice of external owner {} was called after it was dropped", id);
        }
        if beh.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(100 + n);
        }
        if beh.lies {
            let k = rt::fault_often(fk::CB_LIE, 4) as usize;
            if k > 0 {
                let len = data.len();
                let m = [len, len / 2, 14.min(len), 15.min(len), 0][k];
                return &data[..m];
            }
        }
        data
    })
}
fn owner_goes(id: usize, beh: Beh, data: &mut [u8]) {
    rt::nofault(|| {
        note_drop(id);
        rt::point();
        for b in data.iter_mut() {
            *b = 0xEE;
        }
    });
    if beh.panics && !no_drop_panic() && !quiet(std::thread::panicking) && rt::fault_often(fk::DROP_PANIC, 1) == 1 {
        rt::inject_panic(200);
    }
}
impl<const A: usize, X> Drop for Owner<A, X> {
    fn drop(&mut self) {
        owner_goes(self.id, self.beh, &mut self.data)
    }
}
/// An owner of exactly the size and alignment of a `Vec<u8>`.
pub struct OwnerV {
    data: Box<[u8]>,
    id: u32,
    beh: Beh,
}
const _: () = assert!(core::mem::size_of::<OwnerV>() == core::mem::size_of::<Vec<u8>>());
const _: () = assert!(core::mem::size_of::<OwnerS>() == core::mem::size_of::<bytes::Bytes>());
impl OwnerV {
    pub fn make(bytes: &[u8], beh: Beh) -> Self {
        let id = new_owner_id();
        let data: Box<[u8]> = rt::nofault(|| bytes.to_vec().into_boxed_slice());
        slog!("owner {} created, {} bytes", id, data.len());
        OwnerV { data, id: id as u32, beh }
    }
}
impl Drop for OwnerV {
    fn drop(&mut self) {
        owner_goes(self.id as usize, self.beh, &mut self.data)
    }
}
impl ExternalBytes for OwnerV {
    const OPS: ExternalOps<Self> = ExternalOps::new(|o| owner_shows(o.id as usize, o.beh, 50, &o.data));
}
#[repr(align(64))]
pub struct Al64(pub u8);
pub type OwnerS = Owner<1, ()>;
pub type OwnerB = Owner<64, Al64>;
pub type OwnerL = Owner<8, [u64; 9]>;
impl ExternalBytes for OwnerS {
    const OPS: ExternalOps<Self> = ExternalOps::new(owner_slice);
}
impl ExternalBytes for OwnerB {
    const OPS: ExternalOps<Self> = ExternalOps::new(owner_slice);
}
impl ExternalBytes for OwnerL {
    const OPS: ExternalOps<Self> = ExternalOps::new(owner_slice);
}
/// An owner without a destructor (its bytes are static).
pub struct OwnerN(pub &'static [u8]);
impl ExternalBytes for OwnerN {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x| x.0);
}

// ------------------------------------------------------------------ who certainly holds a block
const MAXBLK: usize = 8192;
static HOLD: rt::Shared<[u16; MAXBLK]> = rt::Shared::new([0; MAXBLK]);
pub fn hold(b: u32) {
    if b != 0 && (b as usize) < MAXBLK {
        HOLD.with(|h| h[b as usize] += 1)
    }
}
pub fn unhold(b: u32) {
    if b != 0 && (b as usize) < MAXBLK {
        HOLD.with(|h| h[b as usize] -= 1)
    }
}
pub fn holders(b: u32) -> u16 {
    if b != 0 && (b as usize) < MAXBLK {
        HOLD.with(|h| h[b as usize])
    } else {
        0
    }
}

// ------------------------------------------------------------------ sources
// ------------------------------------------------------------------ caller code handed to the library
use core::cell::Cell;
/// An iterator of the caller: may panic instead of producing an item, and may lie about how many there are.
pub struct It<'l, T> {
    pub items: std::vec::IntoIter<T>,
    pub panics: bool,
    pub lies: bool,
    pub given: &'l Cell<usize>,
}
impl<'l, T> It<'l, T> {
    pub fn new(items: Vec<T>, panics: bool, lies: bool, given: &'l Cell<usize>) -> Self {
        It { items: items.into_iter(), panics, lies, given }
    }
}
impl<T> Iterator for It<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        rt::nofault(|| {
            if self.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(300);
            }
            let x = self.items.next();
            if x.is_some() {
                quiet(|| self.given.set(self.given.get() + 1));
            }
            x
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        if self.lies {
            match rt::fault_often(fk::CB_LIE, 4) {
                0 => {}
                1 => return (0, None),
                2 => return (n + 3, Some(n + 9)),
                3 => return (0, Some(0)),
                _ => return (n / 2, Some(n / 2)),
            }
        }
        // what is true, more or less precisely
        match rt::w(8) {
            0..=3 => (n, Some(n)),
            4 => (n / 2, Some(n + 100)),
            5 => (0, None),
            6 => (0, Some(usize::MAX)),
            _ => (n, None),
        }
    }
}
/// Formats as its parts, one `write_str` each; may fail or panic before any of them.
pub struct Parts<'a> {
    pub parts: &'a [&'a str],
    pub panics: bool,
    pub errs: bool,
    /// bytes of the parts that were accepted
    pub done: Cell<usize>,
    pub failed: Cell<bool>,
}
impl<'a> Parts<'a> {
    pub fn new(parts: &'a [&'a str], panics: bool, errs: bool) -> Self {
        Parts { parts, panics, errs, done: Cell::new(0), failed: Cell::new(false) }
    }
}
impl core::fmt::Display for Parts<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        for p in self.parts {
            if self.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(400);
            }
            if self.errs && rt::fault_often(fk::CB_ERR, 1) == 1 {
                self.failed.set(true);
                return Err(core::fmt::Error);
            }
            f.write_str(p)?;
            self.done.set(self.done.get() + p.len());
        }
        Ok(())
    }
}
/// A `Buf` of the caller in several pieces; may panic at any call.
pub struct Pieces<'a> {
    pub parts: &'a [&'a [u8]],
    pub i: usize,
    pub off: usize,
    pub panics: bool,
    /// bytes it was told were consumed
    pub gone: &'a Cell<usize>,
}
impl<'a> Pieces<'a> {
    pub fn new(parts: &'a [&'a [u8]], panics: bool, gone: &'a Cell<usize>) -> Self {
        let mut p = Pieces { parts, i: 0, off: 0, panics, gone };
        p.settle();
        p
    }
    fn settle(&mut self) {
        while self.i < self.parts.len() && self.off == self.parts[self.i].len() {
            self.i += 1;
            self.off = 0;
        }
    }
}
impl bytes::Buf for Pieces<'_> {
    fn remaining(&self) -> usize {
        quiet(|| self.parts[self.i.min(self.parts.len())..].iter().map(|p| p.len()).sum::<usize>() - self.off)
    }
    fn chunk(&self) -> &[u8] {
        if self.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(500);
        }
        match self.parts.get(self.i) {
            Some(p) => &p[self.off..],
            None => &[],
        }
    }
    fn advance(&mut self, mut n: usize) {
        if n > self.remaining() {
            viol!("caller-buffer", "the library advanced the caller's buffer by {} of {} bytes", n, self.remaining());
        }
        self.gone.set(self.gone.get() + n);
        while n > 0 {
            let l = (self.parts[self.i].len() - self.off).min(n);
            self.off += l;
            n -= l;
            self.settle();
        }
        if self.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(501);
        }
    }
}

// ------------------------------------------------------------------ other threads
/// Runs `f` in another simulated thread and waits for it.
pub fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    if !rt::room() {
        return f();
    }
    let slot: rt::Shared<Option<R>> = rt::Shared::new(None);
    let sp = &slot as *const _ as usize;
    let work = move || {
        let r = f();
        let slot = unsafe { &*(sp as *const rt::Shared<Option<R>>) };
        slot.with(|s| *s = Some(r));
    };
    rt::nofault(|| {
        let work: Box<dyn FnOnce() + Send + '_> = Box::new(work);
        let work: Box<dyn FnOnce() + Send> = unsafe { core::mem::transmute(work) };
        rt::spawn(work).join();
    });
    slot.with(|s| s.take().unwrap())
}
/// Runs `g` in another simulated thread while `f` runs in this one.
pub fn beside<R, S: Send>(f: impl FnOnce() -> R, g: impl FnOnce() -> S + Send) -> (R, S) {
    if !rt::room() {
        let r = f();
        return (r, g());
    }
    let slot: rt::Shared<Option<S>> = rt::Shared::new(None);
    let sp = &slot as *const _ as usize;
    let work = move || {
        let r = g();
        let slot = unsafe { &*(sp as *const rt::Shared<Option<S>>) };
        slot.with(|s| *s = Some(r));
    };
    let j = rt::nofault(|| {
        let work: Box<dyn FnOnce() + Send + '_> = Box::new(work);
        let work: Box<dyn FnOnce() + Send> = unsafe { core::mem::transmute(work) };
        rt::spawn(work)
    });
    let r = f();
    rt::nofault(|| j.join());
    (r, slot.with(|s| s.take().unwrap()))
}
/// Whether `got` can be had from `of` by leaving bytes out.
pub fn is_subsequence(got: &[u8], of: &[u8]) -> bool {
    let mut it = of.iter();
    got.iter().all(|g| it.any(|x| x == g))
}
/// Something was deliberately leaked: owners inside may never be dropped.
static LEAKED: rt::Shared<bool> = rt::Shared::new(false);
pub fn leaked() {
    rt::leak_ok();
    LEAKED.with(|l| *l = true);
}

// ------------------------------------------------------------------ owners cross threads
/// Whether every type that can be handed over as an owner may be used and dropped on any thread, which is what happens to it:
/// `ByteData` is `Send`, and whoever drops the last view drops the owner.
pub fn owners_are_send() -> bool {
    struct P<T>(core::marker::PhantomData<T>);
    trait Unknown {
        fn known(&self) -> bool {
            false
        }
    }
    impl<T> Unknown for &P<T> {}
    trait Known {
        fn known(&self) -> bool {
            true
        }
    }
    impl<T: Send> Known for P<T> {}
    // resolved with nothing known of T but that it can be an owner
    fn probe<T: ExternalBytes>() -> bool {
        (&P::<T>(core::marker::PhantomData)).known()
    }
    probe::<OwnerV>()
}
