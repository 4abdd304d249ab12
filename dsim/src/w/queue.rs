//! Byte queues: contents (C05), iterators and drains (C07), reading (C08), writing (half of C09), HTTP bodies (C10),
//! and the queue halves of C13 (allocations fail) and C14 (caller code panics).
use super::common::*;
use super::handles::check_queue;
use super::read;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData};
use bytes::Bytes;
use core::cell::Cell;
use std::io::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Push,
    Burst,
    Pop,
    Consume,
    Slice,
    Append,
    Extend,
    Collect,
    SplitOff,
    Replace,
    Drain,
    TakeWhile,
    Find,
    IterRef,
    Chunks,
    IntoBytes,
    IntoIter,
    SplitOn,
    Conv,
    Clone,
    Drop,
    Send,
    Recv,
    View,
    Read,
    Write,
    Body,
    Beside,
}
pub struct Cfg {
    pub weights: &'static [(K, u32)],
    pub faulty: bool,
    /// caller code panics or lies
    pub panics: bool,
    /// destructors of external owners panic
    pub beh: Beh,
    /// ranges and positions to be refused
    pub bad: bool,
    /// sometimes chunks around the frame limit
    pub big: bool,
    pub max_threads: usize,
    pub max_ops: usize,
}
#[derive(Clone, Copy)]
pub struct Op {
    k: K,
    a: u32,
    c: [u32; 4],
}
fn program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let tot: u32 = cfg.weights.iter().map(|x| x.1).sum();
        let mut v = Vec::new();
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            let mut x = rt::w(tot);
            let mut k = cfg.weights[0].0;
            for &(kk, wt) in cfg.weights {
                if x < wt {
                    k = kk;
                    break;
                }
                x -= wt;
            }
            v.push(Op { k, a: rt::w(8), c: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(256)] });
        }
        v
    })
}

pub struct Qx {
    pub q: ByteQueue<'static>,
    pub want: Q,
}
impl Qx {
    fn check(&self) {
        check_queue("queue", &self.q, self.want.b());
        rt::state(((self.q.chunk_len() as u64) << 20) | self.want.len() as u64);
    }
}
/// A view kept beside the queues.
pub enum V {
    D(ByteData<'static>),
    S(SharedBytes),
}
pub struct Vx {
    pub v: V,
    pub want: Q,
}
impl Vx {
    fn check(&self) {
        match &self.v {
            V::D(d) => {
                check_bytes("view", self.want.b(), d.as_slice());
                if d.len() != self.want.len() || d.is_empty() != (self.want.len() == 0) {
                    viol!("count", "a view's len() is {} for {} bytes", d.len(), self.want.len());
                }
            }
            V::S(d) => {
                check_bytes("view", self.want.b(), d.as_slice());
                if d.len() != self.want.len() || d.is_empty() != (self.want.len() == 0) {
                    viol!("count", "a view's len() is {} for {} bytes", d.len(), self.want.len());
                }
            }
        }
    }
}

struct M {
    cfg: &'static Cfg,
    q: Vec<Qx>,
    v: Vec<Vx>,
    boxes: &'static [Mailbox<Qx>],
    vboxes: &'static [Mailbox<Vx>],
}
const CAP: usize = 4;

fn chunk_len(c: u32) -> usize {
    if let Some(n) = rare_len(c) {
        return n;
    }
    const L: [usize; 16] = [3, 1, 2, 14, 15, 16, 5, 20, 0, 33, 13, 7, 24, 60, 4, 10];
    L[c as usize % 16]
}
const BIG: [usize; 8] = [65535, 65536, 65537, 70000, 131070, 131071, 65534, 140000];

static PATTERN: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
/// Made before the first run.
pub fn pattern() -> &'static [u8] {
    PATTERN.get_or_init(|| (0..400_000usize).map(|i| (i * 7 + i / 251 * 13 + i / 65537) as u8).collect())
}

impl M {
    fn calm(&self) -> bool {
        !self.cfg.faulty && !self.cfg.beh.panics
    }
    fn must<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        must_in(self.cfg.faulty, f)
    }
    fn lose<T>(&self, x: T) {
        // its destructor may panic
        let _ = must_in(false, move || drop(x));
    }
    fn add(&mut self, q: ByteQueue<'static>, want: Q) {
        let x = Qx { q, want };
        x.check();
        quiet(|| self.q.push(x));
        if self.q.len() > CAP {
            let x = quiet(|| self.q.remove(0));
            x.check();
            self.lose(x);
        }
    }
    fn view(&mut self, v: V, want: Q) {
        let x = Vx { v, want };
        x.check();
        quiet(|| self.v.push(x));
        if self.v.len() > CAP + 2 {
            let x = quiet(|| self.v.remove(0));
            x.check();
            self.lose(x);
        }
    }
    /// A chunk of some kind with fresh contents (or a view of an existing storage).
    fn chunk(&mut self, c: [u32; 4]) -> Option<(ByteData<'static>, Q)> {
        if self.cfg.big && c[3] % 8 == 7 {
            return self.big(c);
        }
        let n = chunk_len(c[1]);
        let text = c[2] % 4 == 0;
        let want = if text { model::gen_text(next_tag(), n) } else { model::gen_bytes(next_tag(), n) };
        let b = want.b();
        let beh = self.cfg.beh;
        let kind = c[0] % 14;
        let d = match kind {
            0 => return Some((ByteData::from_chunk_slice(&b[..n.min(14)]), want.sub(0, n.min(14)))),
            1 => Some(ByteData::from_static(leak_static(&want))),
            2 => self.must(|| ByteData::from_shared(SharedBytes::from_slice(b))),
            3 | 9 | 10 => {
                // another view of something we keep
                if self.v.is_empty() || kind != 3 {
                    let d = if kind == 10 {
                        let o = rt::nofault(|| OwnerS::make(b, beh, ()));
                        self.must(|| ByteData::from_external(o))?
                    } else {
                        self.must(|| ByteData::from_shared(SharedBytes::from_slice(b)))?
                    };
                    let w = Q::new(b);
                    self.view(V::D(d), w);
                }
                let i = if kind == 3 { c[2] as usize % self.v.len() } else { self.v.len() - 1 };
                let w = &self.v[i].want;
                let m = w.len();
                let (s, e) = if c[3] % 3 == 0 {
                    (0, m)
                } else {
                    let s = at_for(c[1], m);
                    (s, s + at_for(c[2], m - s))
                };
                let w = w.sub(s, e);
                let d = match &self.v[i].v {
                    V::D(d) => self.must(|| d.sliced(s..e))?,
                    V::S(d) => self.must(|| ByteData::from_shared(d.sliced(s, e - s)))?,
                };
                return Some((d, w));
            }
            4 => {
                let o = rt::nofault(|| OwnerS::make(b, beh, ()));
                self.must(|| ByteData::from_external(o))
            }
            5 => {
                let o = rt::nofault(|| OwnerB::make(b, beh, Al64(1)));
                self.must(|| ByteData::from_external(o))
            }
            6 => {
                let o = rt::nofault(|| OwnerL::make(b, beh, [7; 9]));
                self.must(|| ByteData::from_external(o))
            }
            7 => {
                let v = rt::nofault(|| b.to_vec());
                self.must(|| ByteData::from(v))
            }
            8 => Some(ByteData::from_borrowed(leak_static(&want))),
            11 => {
                let v = rt::nofault(|| b.to_vec());
                self.must(|| ByteData::from_external(v))
            }
            12 => Some(ByteData::from_external(OwnerN(leak_static(&want)))),
            // Bytes itself does not survive failing allocations
            _ => Some(rt::nofault(|| ByteData::from(Bytes::from(b.to_vec())))),
        }?;
        Some((d, want))
    }
    /// A chunk around a multiple of the frame limit: part of one pattern, made once.
    fn big(&mut self, c: [u32; 4]) -> Option<(ByteData<'static>, Q)> {
        let n = BIG[c[1] as usize % 8];
        let p = pattern();
        let at = (next_tag() as usize * 97) % (p.len() - n);
        let b: &'static [u8] = &p[at..at + n];
        let d = match c[0] % 4 {
            0 | 1 => ByteData::from_static(b),
            2 => self.must(|| ByteData::from_shared(SharedBytes::from_slice(b)))?,
            _ => {
                let o = rt::nofault(|| OwnerS::make(b, self.cfg.beh, ()));
                self.must(|| ByteData::from_external(o))?
            }
        };
        Some((d, Q::new(b)))
    }
    /// What an interrupted operation left behind: bytes of `of`, in order, none invented or repeated.
    fn salvage(&mut self, i: usize, of: &Q) {
        let x = &mut self.q[i];
        let mut got = Q::new(&[]);
        for c in x.q.chunks() {
            rt::check_read(c.as_slice());
            got.push(c.as_slice());
        }
        if !quiet(|| is_subsequence(got.b(), of.b())) {
            viol!("content", "after an interrupted operation a queue holds {} bytes that are not a part of the {} it may hold", got.len(), of.len());
        }
        x.want = got;
        x.check();
    }
    fn push(&mut self, i: usize, o: &Op) {
        let front = o.c[3] & 64 != 0;
        let how = o.c[3] % 12;
        let want;
        let r = if how < 8 {
            let Some((d, w)) = self.chunk(o.c) else { return };
            want = w;
            op!("push {} bytes, kind {}, {}", want.len(), o.c[0] % 14, if front { "front" } else { "back" });
            let q = &mut self.q[i].q;
            must_in(self.cfg.faulty, || if front { q.push_front(d) } else { q.push_back(d) })
        } else {
            let n = chunk_len(o.c[1]);
            want = model::gen_text(next_tag(), n);
            op!("push {} bytes given as {}, {}", n, ["&[u8]", "&str", "Vec", "String"][how as usize - 8], if front { "front" } else { "back" });
            let s: &'static [u8] = leak_static(&want);
            let st = unsafe { core::str::from_utf8_unchecked(s) };
            let v = rt::nofault(|| s.to_vec());
            let t = rt::nofault(|| st.to_string());
            let q = &mut self.q[i].q;
            let f = self.cfg.faulty;
            match (how, front) {
                (8, false) => must_in(f, || q.push_back(s)),
                (8, true) => must_in(f, || q.push_front(s)),
                (9, false) => must_in(f, || q.push_back(ByteData::from_static(st.as_bytes()))),
                (9, true) => must_in(f, || q.push_front(StringData::from_static(st).into_bytedata())),
                (10, false) => must_in(f, || q.push_back(v)),
                (10, true) => must_in(f, || q.push_front(v)),
                (_, false) => must_in(f, || q.push_back(t)),
                _ => must_in(f, || q.push_front(t)),
            }
        };
        if r.is_some() {
            if front {
                self.q[i].want.prepend(want.b());
            } else {
                self.q[i].want.push(want.b());
            }
        }
        self.q[i].check();
    }
    fn burst(&mut self, i: usize, o: &Op) {
        const N: [usize; 12] = [7, 14, 15, 16, 17, 1, 8, 30, 31, 32, 47, 29];
        let n = if (o.c[1] >> 3) % 32 == 31 { [100, 128, 129, 200, 255, 256, 257, 300][o.c[0] as usize % 8] } else { N[o.c[0] as usize % 12] };
        rt::extend(n);
        let front = o.c[2] & 1 != 0;
        let mixed = o.c[2] & 2 != 0;
        let shared = o.c[2] & 4 != 0;
        op!("push {} small chunks, {}", n, if mixed { "both ends" } else if front { "front" } else { "back" });
        for j in 0..n {
            let w = model::gen_bytes(next_tag(), 1 + (o.c[1] as usize + j) % 3);
            let d = if shared && j % 2 == 0 {
                match self.must(|| ByteData::from_shared(SharedBytes::from_slice(w.b()))) {
                    Some(d) => d,
                    None => continue,
                }
            } else {
                ByteData::from_chunk_slice(w.b())
            };
            let fr = front ^ (mixed && j % 3 == 0);
            let q = &mut self.q[i].q;
            let r = must_in(self.cfg.faulty, || if fr { q.push_front(d) } else { q.push_back(d) });
            if r.is_some() {
                if fr {
                    self.q[i].want.prepend(w.b());
                } else {
                    self.q[i].want.push(w.b());
                }
            }
        }
        self.q[i].check();
    }
    fn pop(&mut self, i: usize, o: &Op) {
        let back = o.c[0] % 2 == 1;
        let times = [1, 1, 2, 3, 8, 16, 1, 1][o.c[1] as usize % 8];
        op!("pop {} from the {}", times, if back { "back" } else { "front" });
        for _ in 0..times {
            let x = &mut self.q[i];
            let n = x.want.len();
            let cl = x.q.chunk_len();
            let p = if back { x.q.pop_back() } else { x.q.pop_front() };
            let Some(d) = p else {
                if n != 0 {
                    viol!("content", "pop found nothing in a queue of {} bytes", n);
                }
                break;
            };
            let l = d.len();
            if l == 0 || l > n {
                viol!("content", "popped a chunk of {} bytes from {} bytes", l, n);
            }
            let w = if back { x.want.cut(n - l, n) } else { x.want.cut(0, l) };
            if x.q.chunk_len() + 1 != cl {
                viol!("count", "a pop changed chunk_len() from {} to {}", cl, x.q.chunk_len());
            }
            self.view(V::D(d), w);
        }
        self.q[i].check();
    }
    fn consume(&mut self, i: usize, o: &Op) {
        let x = &mut self.q[i];
        let n = x.want.len();
        let at = if self.cfg.bad && o.c[0] % 8 == 7 { n + 1 + o.c[1] as usize % 3 } else { (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1) };
        op!("consume {} of {}", at, n);
        let adv = o.c[0] & 16 != 0;
        let r = run_in(self.cfg.faulty, || if adv { bytes::Buf::advance(&mut x.q, at) } else { x.q.consume(at) });
        match r {
            Ok(()) if at > n => viol!("not-refused", "consume({}) of {} bytes was accepted", at, n),
            Ok(()) => drop(x.want.cut(0, at)),
            Err(Unwound::Lib(_)) if at > n => {}
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                let left = x.q.len();
                if left > n || left + 14 < n - at.min(n) {
                    viol!("content", "an interrupted consume of {} left {} of {} bytes", at, left, n);
                }
                x.want.cut(0, n - left);
            }
        }
        x.check();
    }
    fn slice(&mut self, i: usize, o: &Op) {
        let n = self.q[i].want.len();
        let rg = range_for([o.c[0], o.c[1] * 37 + o.c[2], o.c[2] * 13 + o.c[3]], n, self.cfg.bad);
        op!("slice {} of {} bytes", rg, n);
        let x = &self.q[i];
        let r = run_in(self.cfg.faulty, || with_range!(rg, |r| x.q.slice(r)));
        self.q[i].check();
        match (r, rg.resolve(n)) {
            (Ok(q), Some((a, b))) => {
                let w = self.q[i].want.sub(a, b);
                self.add(q, w)
            }
            (Ok(_), None) => viol!("not-refused", "slice({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => {}
            (Err(Unwound::Lib(m)), _) => viol!("panic", "unexpected panic: {}", m),
            (Err(_), _) => {}
        }
    }
    fn append(&mut self, i: usize, o: &Op) {
        if self.q.len() < 2 {
            return self.burst(i, o);
        }
        let j = (i + 1 + o.c[1] as usize % (self.q.len() - 1)) % self.q.len();
        let other = quiet(|| self.q.remove(j));
        let i = if j < i { i - 1 } else { i };
        op!("append {} bytes to {}", other.want.len(), self.q[i].want.len());
        let Qx { q: oq, want: ow } = other;
        let x = &mut self.q[i];
        let r = must_in(self.cfg.faulty, || x.q.append(oq));
        let old = x.want.len();
        x.want.push(ow.b());
        if r.is_some() {
            x.check();
        } else {
            let of = x.want.clone();
            self.salvage(i, &of);
            if self.q[i].want.len() < old || self.q[i].want.b()[..old] != of.b()[..old] {
                viol!("content", "an interrupted append lost bytes already in the queue");
            }
        }
    }
    fn extend(&mut self, i: Option<usize>, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let n = [3, 1, 2, 5, 17, 0, 9, 33][o.c[0] as usize % 8];
        let how = (o.c[0] >> 4) % 6;
        let given = Cell::new(0);
        // the items, and where each ends
        let mut all = Q::new(&[]);
        let mut ends: Vec<usize> = quiet(|| vec![0]);
        let text = how == 3 || how >= 4;
        let mut items: Vec<Q> = quiet(Vec::new);
        let mut datas: Vec<ByteData<'static>> = rt::nofault(Vec::new);
        for j in 0..n {
            if how == 0 && n <= 5 {
                let c = [o.c[1] + j as u32 * 5, o.c[2] + j as u32 * 3, o.c[3] + j as u32, o.c[3]];
                let Some((d, w)) = self.chunk(c) else { continue };
                rt::nofault(|| datas.push(d));
                quiet(|| items.push(w));
            } else {
                let l = chunk_len(o.c[1] + j as u32 * 3);
                let w = if text { model::gen_text(next_tag(), l) } else { model::gen_bytes(next_tag(), l) };
                if how == 0 {
                    rt::nofault(|| datas.push(ByteData::from_static(leak_static(&w))));
                }
                quiet(|| items.push(w));
            }
        }
        for w in items.iter() {
            all.push(w.b());
            quiet(|| ends.push(all.len()));
        }
        op!("{} {} items of kind {}", if i.is_some() { "extend by" } else { "collect" }, items.len(), how);
        let Some(i) = i else {
            let want = all;
            let r = if how == 0 || !datas.is_empty() {
                let it = It::new(datas, p, p, &given);
                run_in(f, || it.collect::<ByteQueue<'static>>())
            } else {
                rt::nofault(|| drop(datas));
                let v: Vec<ByteData<'static>> = rt::nofault(|| items.iter().map(|w| ByteData::from_static(leak_static(w))).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || it.collect::<ByteQueue<'static>>())
            };
            quiet(|| {
                drop(items);
                drop(ends);
            });
            match r {
                Ok(q) => self.add(q, want),
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                Err(_) => {}
            }
            return;
        };
        let q = &mut self.q[i].q;
        let st = |w: &Q| -> &'static str { unsafe { core::str::from_utf8_unchecked(leak_static(w)) } };
        let r = match how {
            0 => {
                let it = It::new(datas, p, p, &given);
                run_in(f, || q.extend(it))
            }
            1 => {
                let v: Vec<&'static [u8]> = rt::nofault(|| items.iter().map(leak_static).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
            2 => {
                let v: Vec<Vec<u8>> = rt::nofault(|| items.iter().map(|w| w.b().to_vec()).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
            3 => {
                let v: Vec<StringData<'static>> = rt::nofault(|| items.iter().map(|w| StringData::from_static(st(w))).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
            4 => {
                let v: Vec<&'static str> = rt::nofault(|| items.iter().map(st).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
            _ => {
                let v: Vec<String> = rt::nofault(|| items.iter().map(|w| st(w).to_string()).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
        };
        let k = match r {
            Ok(()) => {
                if given.get() != items.len() {
                    viol!("write", "extend stopped after {} of {} items", given.get(), items.len());
                }
                all.len()
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(u) => {
                // the item under way when an allocation (or a destructor) failed is not stored
                let a = ends[given.get()];
                let b = ends[given.get().saturating_sub(1)];
                let got = self.q[i].q.len().saturating_sub(self.q[i].want.len());
                if matches!(u, Unwound::Injected(x) if x >= 300) || got == a {
                    a
                } else {
                    b
                }
            }
        };
        self.q[i].want.push(&all.b()[..k]);
        quiet(|| {
            drop(items);
            drop(ends);
        });
        self.q[i].check();
    }
    fn split_off(&mut self, i: usize, o: &Op) {
        let x = &mut self.q[i];
        let n = x.want.len();
        let at = if self.cfg.bad && o.c[0] % 8 == 7 { n + 1 + o.c[1] as usize % 3 } else { (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1) };
        op!("split_off at {} of {}", at, n);
        let r = run_in(self.cfg.faulty, || x.q.split_off(at));
        match r {
            Ok(_) if at > n => viol!("not-refused", "split_off({}) of {} bytes was accepted", at, n),
            Ok(t) => {
                let w = x.want.cut(at, n);
                x.check();
                self.add(t, w);
            }
            Err(Unwound::Lib(_)) if at > n => x.check(),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                // what was under way is gone, what is left starts as before
                let left = x.q.len();
                if left > n {
                    viol!("content", "an interrupted split_off left {} of {} bytes", left, n);
                }
                x.want.truncate(left);
                x.check();
            }
        }
    }
    fn replace(&mut self, i: usize, o: &Op) {
        let Some((d, w)) = self.chunk([o.c[3], o.c[1] ^ o.c[2], o.c[0], o.c[3] >> 3]) else { return };
        let n = self.q[i].want.len();
        let rg = range_for([o.c[0], o.c[1] * 37 + o.c[2], o.c[2] * 13 + o.c[3]], n, self.cfg.bad);
        op!("replace {} of {} by {} bytes", rg, n, w.len());
        let x = &mut self.q[i];
        let r = run_in(self.cfg.faulty, || with_range!(rg, |r| x.q.replace_range(r, d)));
        match (r, rg.resolve(n)) {
            (Ok(()), Some((a, b))) => {
                x.want.splice(a, b, w.b());
                x.check();
            }
            (Ok(()), None) => viol!("not-refused", "replace_range({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => x.check(),
            (Err(Unwound::Lib(m)), _) => viol!("panic", "unexpected panic: {}", m),
            (Err(_), None) => x.check(),
            (Err(_), Some((a, b))) => {
                // either order of removing and inserting
                let mut of = x.want.clone();
                let mid = of.sub(a, b);
                of.splice(b, b, w.b());
                of.splice(b + w.len(), b + w.len(), mid.b());
                self.salvage(i, &of);
            }
        }
    }
    fn drain(&mut self, i: usize, o: &Op) {
        let n = self.q[i].want.len();
        let rg = range_for([o.c[0], o.c[1] * 37 + o.c[2], o.c[2] * 13 + o.c[3]], n, self.cfg.bad);
        let end = o.c[3] % 8;
        let steps = if o.c[3] & 128 != 0 { 40 } else { (o.c[2] % 5) as usize };
        let res = rg.resolve(n);
        op!("drain {} of {} bytes, {} steps, end {}", rg, n, steps, ["drop", "drop", "count", "last", "leak", "panic", "elsewhere", "forall"][end as usize]);
        let calm = self.calm();
        let x = &mut self.q[i];
        let want = match res {
            Some((a, b)) => x.want.sub(a, b),
            None => Q::new(&[]),
        };
        let w = want.b();
        let mut leak = false;
        let c = o.c;
        let q = &mut x.q;
        let r = run_in(self.cfg.faulty, || {
            let mut d = with_range!(rg, |r| q.drain(r));
            if res.is_none() {
                return;
            }
            let mut at = 0;
            for s in 0..steps {
                step_bytes(&mut d, &mut at, w, (c[0] >> 5).wrapping_add(s as u32 * 7).wrapping_add(c[1]));
            }
            let rest = w.len() - at;
            if d.len() != rest || d.size_hint() != (rest, Some(rest)) {
                viol!("iterator", "a drain with {} bytes to come reports {} {:?}", rest, d.len(), d.size_hint());
            }
            match end {
                2 => {
                    let k = d.count();
                    if k != rest {
                        viol!("iterator", "count() of a drain with {} bytes to come is {}", rest, k);
                    }
                }
                3 => {
                    let l = d.last();
                    let e = if rest == 0 { None } else { w.last().copied() };
                    if l != e {
                        viol!("iterator", "last() of a drain gave {:?}, expected {:?}", l, e);
                    }
                }
                4 => {
                    leak = true;
                    core::mem::forget(d)
                }
                5 => {
                    let _d = d;
                    rt::inject_panic(900)
                }
                6 => elsewhere(move || {
                    let mut d = d;
                    let mut at = at;
                    step_bytes(&mut d, &mut at, w, c[2]);
                    let _ = must_in(false, move || drop(d));
                }),
                7 => {
                    let mut k = at;
                    for b in d {
                        if w.get(k) != Some(&b) {
                            viol!("iterator", "a drain gave {} at {}, expected {:?}", b, k, w.get(k));
                        }
                        k += 1;
                    }
                    if k != w.len() {
                        viol!("iterator", "a drain ended after {} of {} bytes", k, w.len());
                    }
                }
                _ => drop(d),
            }
        });
        let full = x.want.clone();
        let removed = match (&r, res) {
            (Ok(()), None) => viol!("not-refused", "drain({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => false,
            (Err(Unwound::Lib(m)), Some(_)) => viol!("panic", "unexpected panic: {}", m),
            (_, None) => false,
            (Err(Unwound::Injected(900)), _) | (Ok(()), _) => true,
            (Err(_), _) => {
                return self.salvage(i, &full);
            }
        };
        if removed && !leak && (end != 6 || calm) && (end != 5 || calm) {
            let (a, b) = res.unwrap();
            x.want.cut(a, b);
            x.check();
        } else if removed {
            // leaked: any definite part of what it held; interrupted while unwinding or elsewhere: the same
            self.salvage(i, &full)
        } else {
            x.check()
        }
    }
    fn take_while(&mut self, i: usize, o: &Op) {
        let x = &mut self.q[i];
        let n = x.want.len();
        let stop = match o.c[0] % 4 {
            0 => n + 1,
            1 => 0,
            _ => (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1),
        };
        let p = self.cfg.panics;
        op!("take_while, {} of {} accepted", stop, n);
        let calls = Cell::new(0usize);
        let want = x.want.clone();
        let pred = |b: u8| {
            let k = calls.get();
            calls.set(k + 1);
            if k >= want.len() || want.b()[k] != b {
                viol!("iterator", "take_while showed byte {} at {}, expected {:?}", b, k, want.b().get(k));
            }
            if p && rt::fault(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(1000);
            }
            k < stop
        };
        let q = &mut x.q;
        let r = run_in(self.cfg.faulty, || q.take_while(pred));
        match r {
            Ok(t) => {
                let k = stop.min(n);
                let w = x.want.cut(0, k);
                x.check();
                self.add(t, w);
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(Unwound::Injected(1000)) => x.check(),
            Err(_) => {
                let of = x.want.clone();
                self.salvage(i, &of)
            }
        }
    }
    fn find(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let n = x.want.len();
        let at = (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1);
        let p = self.cfg.panics;
        op!("find_byte at {} of {}", at, n);
        let calls = Cell::new(0usize);
        let r = run_in(self.cfg.faulty, || {
            x.q.find_byte(|b| {
                let k = calls.get();
                calls.set(k + 1);
                if x.want.b().get(k) != Some(&b) {
                    viol!("iterator", "find_byte showed byte {} at {}, expected {:?}", b, k, x.want.b().get(k));
                }
                if p && rt::fault(fk::CB_PANIC, 1) == 1 {
                    rt::inject_panic(1001);
                }
                k == at
            })
        });
        match r {
            Ok(r) if r != (at < n).then_some(at) => viol!("iterator", "find_byte gave {:?} for position {} of {}", r, at, n),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            _ => {}
        }
        // searching for a run of its own bytes
        if n > 0 && at < n {
            let e = (at + 1 + o.c[2] as usize % 6).min(n);
            let needle = x.want.sub(at, e);
            let start = if o.c[0] & 1 == 0 { 0 } else { o.c[0] as usize % (at + 1) };
            let want = quiet(|| x.want.b()[start..].windows(needle.len()).position(|w| w == needle.b()).map(|p| p + start));
            let got = if start == 0 { x.q.find_slice(needle.b()) } else { x.q.find_slice_after(needle.b(), start) };
            if got != want {
                viol!("find", "find_slice_after({} bytes, {}) gave {:?}, expected {:?}", needle.len(), start, got, want);
            }
        }
        self.q[i].check();
    }
    fn iter_ref(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let n = x.want.len();
        op!("iterate over {} bytes by reference", n);
        let (mut lo, mut hi) = (0, n);
        let mut it = x.q.bytes();
        if o.c[0] & 1 != 0 {
            let k = skip_of(o.c[1], n);
            it = it.skip(k);
            lo = k.min(n);
        }
        if o.c[0] & 2 != 0 {
            let k = skip_of(o.c[2], n);
            it = it.take(k);
            hi = hi.min(lo.saturating_add(k));
        }
        if o.c[0] & 4 != 0 {
            let k = skip_of(o.c[3], n);
            it = it.skip(k);
            lo = lo.saturating_add(k).min(hi);
        }
        let want = x.want.sub(lo, hi);
        let mut w = want.b();
        let mut at = 0;
        let steps = if o.c[0] & 8 != 0 { 6 } else { (o.c[0] >> 4) as usize % 30 };
        let mut run = move |mut it: bytedata::queue::ByteIter<'static, '_>| {
            for s in 0..steps {
                step_bytes(&mut it, &mut at, w, o.c[1].wrapping_add(s as u32 * 5));
            }
            // a half used iterator cut again
            let z = mix(o.c);
            if z & 1 != 0 {
                let k = skip_of(z >> 4, w.len() - at);
                if z & 2 != 0 {
                    it = it.take(k);
                    w = &w[..at.saturating_add(k).min(w.len())];
                } else {
                    it = it.skip(k);
                    at = at.saturating_add(k).min(w.len());
                }
                for s in 0..(z >> 10) as usize % 6 {
                    step_bytes(&mut it, &mut at, w, (z >> 12).wrapping_add(s as u32 * 7));
                }
            }
            let rest = w.len() - at;
            if it.len() != rest || ExactSizeIterator::len(&it) != rest || it.is_empty() != (rest == 0) {
                viol!("iterator", "bytes() with {} to come reports len {} is_empty {}", rest, it.len(), it.is_empty());
            }
            match o.c[3] % 4 {
                0 => {
                    for k in at..w.len() {
                        let b = it.next();
                        if b != Some(w[k]) {
                            viol!("iterator", "bytes() gave {:?} at {}, expected {}", b, k, w[k]);
                        }
                    }
                    if it.next().is_some() || it.next().is_some() {
                        viol!("iterator", "bytes() goes on after its end");
                    }
                }
                1 => {
                    let k = it.count();
                    if k != rest {
                        viol!("iterator", "count() with {} to come is {}", rest, k);
                    }
                }
                2 => {
                    let l = it.last();
                    let e = if rest == 0 { None } else { w.last().copied() };
                    if l != e {
                        viol!("iterator", "last() gave {:?}, expected {:?}", l, e);
                    }
                }
                _ => core::mem::forget(it),
            }
        };
        if o.c[0] & 1024 != 0 {
            elsewhere(move || run(it));
        } else {
            run(it);
        }
        self.q[i].check();
    }
    fn chunks(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let mut list: Vec<(*const u8, usize)> = quiet(Vec::new);
        for c in x.q.chunks() {
            let s = c.as_slice();
            quiet(|| list.push((s.as_ptr(), s.len())));
        }
        let n = list.len();
        op!("iterate over {} chunks by reference", n);
        let mut it = match o.c[0] % 3 {
            0 => x.q.chunks(),
            1 => x.q.iter(),
            _ => (&x.q).into_iter(),
        };
        let mut at = 0;
        if o.c[1] & 1 != 0 {
            // the library documents no bound for skip
            let k = skip_of(o.c[2], n);
            it = it.skip(k);
            at = k.min(n);
        }
        for s in 0..(o.c[0] >> 3) % 12 {
            let c = o.c[1].wrapping_add(s * 11) >> 1;
            let (k, got) = match c % 4 {
                0 | 1 => (0, it.next()),
                2 => {
                    let k = (c >> 2) as usize % 18;
                    (k, it.nth(k))
                }
                _ => {
                    let k = (c >> 2) as usize % 20;
                    it.skip_mut(k);
                    (k, it.next())
                }
            };
            at = (at + k).min(n);
            let e = list.get(at).copied();
            let g = got.map(|d| (d.as_slice().as_ptr(), d.len()));
            if g != e {
                viol!("iterator", "chunk {} of {} is not the one expected ({:?} bytes instead of {:?})", at, n, g.map(|x| x.1), e.map(|x| x.1));
            }
            at = (at + 1).min(n);
            if it.len() != n - at || it.size_hint() != (n - at, Some(n - at)) {
                viol!("iterator", "chunk iterator with {} to come reports {}", n - at, it.len());
            }
        }
        match o.c[3] % 3 {
            0 => {
                let k = it.count();
                if k != n - at {
                    viol!("iterator", "count() of chunks with {} to come is {}", n - at, k);
                }
            }
            1 => {
                let g = it.last().map(|d| (d.as_slice().as_ptr(), d.len()));
                let e = if at == n { None } else { list.last().copied() };
                if g != e {
                    viol!("iterator", "last() of chunks is not the last one");
                }
            }
            _ => core::mem::forget(it),
        }
        quiet(|| drop(list));
        self.q[i].check();
    }
    fn into_bytes(&mut self, i: usize, o: &Op) {
        let Qx { q, want } = quiet(|| self.q.remove(i));
        let n = want.len();
        op!("iterate over {} bytes by value", n);
        let (mut lo, mut hi) = (0, n);
        let f = self.cfg.faulty;
        let mut it = Some(q.into_bytes());
        if o.c[0] & 1 != 0 {
            let k = skip_of(o.c[1], n);
            let i = it.take().unwrap();
            it = must_in(f, || i.skip(k));
            lo = k.min(n);
        }
        if o.c[0] & 2 != 0 {
            let k = skip_of(o.c[2], n);
            if let Some(i) = it.take() {
                it = must_in(f, || i.take(k));
            }
            hi = hi.min(lo.saturating_add(k));
        }
        let Some(mut it) = it else { return };
        let want = want.sub(lo, hi);
        let mut w = want.b();
        let mut at = 0;
        let steps = (o.c[0] >> 3) as usize % 20;
        let c = o.c;
        let run = move || {
            let r = run_in(f, || {
                for s in 0..steps {
                    step_bytes(&mut it, &mut at, w, c[1].wrapping_add(s as u32 * 5));
                }
            });
            match r {
                Ok(()) => {}
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                // interrupted: no use for it any more
                Err(_) => return must_in(false, move || drop(it)),
            };
            // a half used iterator cut again
            let z = mix(c);
            if z & 1 != 0 {
                let k = skip_of(z >> 4, w.len() - at);
                if z & 2 != 0 {
                    let Some(i) = must_in(f, || it.take(k)) else { return None };
                    it = i;
                    w = &w[..at.saturating_add(k).min(w.len())];
                } else {
                    let Some(i) = must_in(f, || it.skip(k)) else { return None };
                    it = i;
                    at = at.saturating_add(k).min(w.len());
                }
                let r = run_in(f, || {
                    for s in 0..(z >> 10) as usize % 6 {
                        step_bytes(&mut it, &mut at, w, (z >> 12).wrapping_add(s as u32 * 7));
                    }
                });
                match r {
                    Ok(()) => {}
                    Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                    Err(_) => return must_in(false, move || drop(it)),
                };
            }
            let rest = w.len() - at;
            if it.len() != rest || ExactSizeIterator::len(&it) != rest || it.is_empty() != (rest == 0) {
                viol!("iterator", "into_bytes() with {} to come reports len {} is_empty {}", rest, it.len(), it.is_empty());
            }
            must_in(f, || match c[3] % 6 {
                0 => {
                    let mut k = at;
                    for b in it {
                        if w.get(k) != Some(&b) {
                            viol!("iterator", "into_bytes() gave {} at {}, expected {:?}", b, k, w.get(k));
                        }
                        k += 1;
                    }
                    if k != w.len() {
                        viol!("iterator", "into_bytes() ended after {} of {} bytes", k, w.len());
                    }
                }
                1 => {
                    let k = it.count();
                    if k != rest {
                        viol!("iterator", "count() with {} to come is {}", rest, k);
                    }
                }
                2 => {
                    let l = it.last();
                    let e = if rest == 0 { None } else { w.last().copied() };
                    if l != e {
                        viol!("iterator", "last() gave {:?}, expected {:?}", l, e);
                    }
                }
                3 if rt::fault(fk::LEAK, 1) == 1 => {
                    leaked();
                    core::mem::forget(it)
                }
                _ => drop(it),
            })
        };
        if o.c[3] & 64 != 0 {
            elsewhere(move || {
                run();
            })
        } else {
            run();
        }
    }
    fn into_iter(&mut self, i: usize, o: &Op) {
        let Qx { q, mut want } = quiet(|| self.q.remove(i));
        let n = want.len();
        let chunks = q.chunk_len();
        op!("iterate over {} chunks by value", chunks);
        let mut it = if o.c[0] & 1 == 0 { q.into_iter() } else { IntoIterator::into_iter(q) };
        let _ = n;
        let mut left = chunks;
        let steps = (o.c[0] >> 1) % 40;
        for s in 0..steps {
            let c = o.c[1].wrapping_add(s * 7);
            let m = want.len();
            let (d, back) = match c % 8 {
                0..=3 => (it.next(), false),
                7 => {
                    // skips whole chunks, whose destructors may panic
                    let k = (c >> 3) as usize % 4;
                    for _ in 0..k.min(left) {
                        let d = it.next().unwrap();
                        want.cut(0, d.len());
                        self.lose(d);
                        left -= 1;
                    }
                    (it.next(), false)
                }
                _ => (it.next_back(), true),
            };
            let _ = m;
            let m = want.len();
            match d {
                Some(d) => {
                    if left == 0 {
                        viol!("iterator", "a chunk after the last");
                    }
                    left -= 1;
                    let l = d.len();
                    if l > m || l == 0 {
                        viol!("iterator", "a chunk of {} bytes with {} left", l, m);
                    }
                    let w = if back { want.cut(m - l, m) } else { want.cut(0, l) };
                    check_bytes("chunk", w.b(), d.as_slice());
                    if c & 16 != 0 {
                        self.view(V::D(d), w);
                    } else {
                        self.lose(d);
                    }
                }
                None if left != 0 => viol!("iterator", "chunks ended with {} to come", left),
                None => break,
            }
            if it.len() != left || it.size_hint() != (left, Some(left)) {
                viol!("iterator", "chunk iterator with {} to come reports {}", left, it.len());
            }
        }
        match o.c[3] % 6 {
            0 => {
                let k = must_in(false, move || it.count());
                if k.is_some_and(|k| k != left) {
                    viol!("iterator", "count() of chunks with {} to come is {:?}", left, k);
                }
            }
            1 if rt::fault(fk::LEAK, 1) == 1 => {
                leaked();
                core::mem::forget(it)
            }
            2 => elsewhere(move || {
                let _ = must_in(false, move || drop(it));
            }),
            3 => {
                // what is left goes into another queue
                let f = self.cfg.faulty;
                if let Some(q) = must_in(f, move || it.collect::<ByteQueue<'static>>()) {
                    self.add(q, want);
                }
            }
            _ => self.lose(it),
        }
    }
    fn split_on(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let n = self.q[i].want.len();
        let needle = if n == 0 || o.c[0] % 8 == 7 {
            model::gen_bytes(next_tag(), 1 + o.c[1] as usize % 3)
        } else if o.c[0] % 16 == 6 {
            Q::new(&[])
        } else {
            let a = (o.c[1] as usize * 37 + o.c[2] as usize) % n;
            self.q[i].want.sub(a, (a + 1 + o.c[2] as usize % 4).min(n))
        };
        let max = if o.c[0] & 32 != 0 { (o.c[0] >> 6) as usize % 4 } else { 0 };
        let parts = quiet(|| split_ref(self.q[i].want.b(), needle.b(), max));
        op!("split {} bytes on {} bytes, at most {}, into {}", n, needle.len(), max, parts.len());
        let stop = if o.c[3] & 3 == 0 { o.c[3] as usize >> 2 } else { usize::MAX };
        let mut kept: Vec<(ByteQueue<'static>, Q)> = quiet(Vec::new);
        {
            let x = &self.q[i];
            let mut it = if o.c[0] & 32 != 0 { x.q.splitn_on(needle.b(), max) } else { x.q.split_on(needle.b()) };
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                let left = parts.len() - k.min(parts.len());
                if lo > left || hi.is_some_and(|h| h < left) {
                    viol!("iterator", "a split with {} parts to come has the size hint {:?}", left, (lo, hi));
                }
                if k == stop {
                    break;
                }
                let Some(r) = must_in(f, || it.next()) else { break };
                match (r, parts.get(k)) {
                    (None, None) => {
                        if it.next().is_some() {
                            viol!("iterator", "a split goes on after its end");
                        }
                        break;
                    }
                    (Some(p), Some(&(a, b))) => {
                        check_queue("part of a split", &p, &x.want.b()[a..b]);
                        if kept.len() < 2 && b > a {
                            let w = x.want.sub(a, b);
                            quiet(|| kept.push((p, w)));
                        } else {
                            let _ = must_in(false, move || drop(p));
                        }
                    }
                    (Some(p), None) => viol!("iterator", "a split gave another part ({} bytes) after all {}", p.len(), parts.len()),
                    (None, Some(_)) => viol!("iterator", "a split ended after {} of {} parts", k, parts.len()),
                }
                k += 1;
            }
        }
        quiet(|| drop(parts));
        self.q[i].check();
        while let Some((p, w)) = quiet(|| kept.pop()) {
            self.add(p, w);
        }
        quiet(|| drop(kept));
    }
    fn conv(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let how = o.c[0] % 9;
        let Qx { q, want } = quiet(|| self.q.remove(i));
        op!("convert {} bytes in {} chunks, {}", want.len(), q.chunk_len(), how);
        match how {
            0 | 1 => {
                if let Some(d) = must_in(f, || without_drop_panics(|| ByteData::from(q))) {
                    self.view(V::D(d), want)
                }
            }
            2 => {
                if let Some(d) = must_in(f, || without_drop_panics(|| SharedBytes::from(ByteData::from(q)))) {
                    self.view(V::S(d), want)
                }
            }
            3 | 4 => {
                let Some(v) = must_in(f, || without_drop_panics(|| Vec::<u8>::from(q))) else { return };
                check_bytes("Vec from a queue", want.b(), &v);
                if let Some(q) = must_in(f, || ByteQueue::from(v)) {
                    self.add(q, want)
                }
            }
            5 => {
                let Some(b) = must_in(false, || without_drop_panics(|| rt::nofault(|| Bytes::from(q)))) else { return };
                check_bytes("Bytes from a queue", want.b(), &b);
                if let Some(q) = must_in(false, || ByteQueue::from(b)) {
                    self.add(q, want)
                }
            }
            6 => {
                let Some(d) = must_in(f, || without_drop_panics(|| ByteData::from(q))) else { return };
                if let Some(q) = must_in(f, || ByteQueue::from(d)) {
                    self.add(q, want)
                }
            }
            7 => {
                let Some(v) = must_in(f, || without_drop_panics(|| Vec::<u8>::from(q))) else { return };
                let text = want.is_text();
                if let Some(q) = must_in(f, || {
                    if text {
                        ByteQueue::from(unsafe { String::from_utf8_unchecked(v) })
                    } else {
                        ByteQueue::from(std::borrow::Cow::<'static, [u8]>::Owned(v))
                    }
                }) {
                    self.add(q, want)
                }
            }
            _ => {
                let s = leak_static(&want);
                self.lose(q);
                let q = if o.c[1] & 1 == 0 { ByteQueue::from(s) } else { ByteQueue::from(std::borrow::Cow::Borrowed(s)) };
                self.add(q, want);
            }
        }
    }
    fn clone_q(&mut self, i: usize) {
        op!("clone {} bytes in {} chunks", self.q[i].want.len(), self.q[i].q.chunk_len());
        let r = must_in(self.cfg.faulty, || self.q[i].q.clone());
        self.q[i].check();
        if let Some(q) = r {
            let w = self.q[i].want.clone();
            self.add(q, w);
        }
    }
    /// Two threads use one queue (by shared reference) at the same time.
    fn beside(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let f = self.cfg.faulty;
        let n = x.want.len();
        let a = at_for(o.c[1], n);
        op!("share a queue of {} bytes with another thread", n);
        let look = |c: u32| match c % 4 {
            0 => {
                x.check();
                None
            }
            1 => {
                let mut at = 0;
                for b in x.q.bytes() {
                    if x.want.b().get(at) != Some(&b) {
                        viol!("iterator", "bytes() gave {} at {}", b, at);
                    }
                    at += 1;
                }
                None
            }
            2 => must_in(f, || x.q.clone()).map(|q| (q, 0)),
            _ => must_in(f, || x.q.slice(a..)).map(|q| (q, a)),
        };
        let (p, r) = beside(|| look(o.c[0]), || look(o.c[2]));
        for (q, a) in [p, r].into_iter().flatten() {
            let w = self.q[i].want.sub(a, n);
            check_queue("copy of a shared queue", &q, w.b());
            self.lose(q);
        }
        self.q[i].check();
    }
    fn write(&mut self, i: usize, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let n = [5, 0, 1, 14, 15, 16, 40, 100, 300][o.c[1] as usize % 9];
        let how = o.c[0] % 6;
        op!("{} {} bytes into a queue of {}", ["write", "write_all", "write_vectored", "flush", "format", "io format"][how as usize], n, self.q[i].want.len());
        let add = if how >= 4 { model::gen_text(next_tag(), n) } else { model::gen_bytes(next_tag(), n) };
        let d = add.b();
        let step = 1 + o.c[2] as usize % 50;
        let parts: Vec<&str> = quiet(|| if how >= 4 { super::builder::split_text(add.s(), step) } else { Vec::new() });
        let slices: Vec<std::io::IoSlice<'_>> = quiet(|| {
            let mut v = Vec::new();
            for (j, c) in d.chunks(step).enumerate() {
                if o.c[0] & 64 != 0 && j % 3 == 0 {
                    v.push(std::io::IoSlice::new(&[]));
                }
                v.push(std::io::IoSlice::new(c));
            }
            v
        });
        let disp = Parts::new(&parts, p, p);
        let q = &mut self.q[i].q;
        let r = run_in(f, || match how {
            0 => q.write(d).map_err(drop),
            1 => q.write_all(d).map(|()| n).map_err(drop),
            2 => q.write_vectored(&slices).map_err(drop),
            3 => q.flush().map(|()| 0).map_err(drop),
            4 => core::fmt::Write::write_fmt(q, format_args!("{disp}")).map(|()| n).map_err(drop),
            _ => std::io::Write::write_fmt(q, format_args!("{disp}")).map(|()| n).map_err(drop),
        });
        let x = &mut self.q[i];
        let got = x.q.len().saturating_sub(x.want.len());
        let k = match r {
            Ok(Ok(k)) => {
                if k > n || (k == 0 && n != 0 && how != 3) {
                    viol!("write", "a write of {} bytes reported {}", n, k);
                }
                if how >= 4 && (disp.failed.get() || disp.done.get() != n) {
                    viol!("write", "formatting reported success although the value being formatted failed");
                }
                k
            }
            Ok(Err(())) => {
                if how < 4 && !f || how >= 4 && !disp.failed.get() {
                    viol!("write", "a write to a queue failed without a cause");
                }
                if how >= 4 { disp.done.get() } else { 0 }
            }
            Err(Unwound::Lib(_)) if how == 5 && disp.failed.get() => disp.done.get(),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) if how >= 4 => disp.done.get(),
            Err(_) => {
                if got != 0 {
                    viol!("write", "an interrupted write of {} bytes added {}", n, got);
                }
                0
            }
        };
        x.want.push(&d[..k]);
        drop(disp);
        quiet(|| {
            drop(parts);
            drop(slices);
        });
        x.check();
    }
    fn read(&mut self, i: usize, o: &Op) {
        let n = self.v.len();
        let f = self.cfg.faulty;
        if o.c[3] & 1 == 0 && n > 0 {
            let j = o.c[3] as usize / 2 % n;
            let x = &mut self.v[j];
            match &mut x.v {
                V::D(d) => read::step("ByteData", d, &mut x.want, o.c, f),
                V::S(d) => read::step("SharedBytes", d, &mut x.want, o.c, f),
            }
            x.check();
        } else {
            let x = &mut self.q[i];
            read::step("ByteQueue", &mut x.q, &mut x.want, o.c, f);
            x.check();
        }
    }
    fn body(&mut self, i: usize, o: &Op) {
        let n = self.v.len();
        let f = self.cfg.faulty;
        if o.c[3] & 1 == 0 && n > 0 {
            let j = o.c[3] as usize / 2 % n;
            let x = &mut self.v[j];
            match (&mut x.v, o.c[0] & 1) {
                (V::D(d), 0) => read::body4("ByteData", d, &mut x.want, o.c, f),
                (V::S(d), 0) => read::body4("SharedBytes", d, &mut x.want, o.c, f),
                (V::D(d), _) => read::body1("ByteData", d, &mut x.want, o.c, f),
                (V::S(d), _) => read::body1("SharedBytes", d, &mut x.want, o.c, f),
            }
            x.check();
        } else {
            let x = &mut self.q[i];
            read::body1("ByteQueue", &mut x.q, &mut x.want, o.c, f);
            x.check();
        }
    }
    fn view_op(&mut self, o: &Op) {
        let how = o.c[0] % 8;
        if self.v.is_empty() || how == 7 {
            if let Some((d, w)) = self.chunk([o.c[1], o.c[2], o.c[3], o.c[0] >> 4]) {
                op!("a new view of {} bytes", w.len());
                if o.c[3] & 1 == 0 {
                    self.view(V::D(d), w);
                } else if let Some(s) = self.must(|| SharedBytes::from(d)) {
                    self.view(V::S(s), w);
                }
            }
            return;
        }
        let j = o.a as usize % self.v.len();
        op!("view op {} on {} bytes", how, self.v[j].want.len());
        self.v[j].check();
        match how {
            0 | 1 => {
                let x = quiet(|| self.v.remove(j));
                self.lose(x);
            }
            2 | 3 => {
                let x = quiet(|| self.v.remove(j));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.vboxes.len();
                self.vboxes[to].send(x);
            }
            4 | 5 => {
                if let Some(x) = self.vboxes[rt::tid() as usize % self.vboxes.len()].try_recv() {
                    x.check();
                    quiet(|| self.v.push(x));
                    if self.v.len() > CAP + 2 {
                        let x = quiet(|| self.v.remove(0));
                        self.lose(x);
                    }
                }
            }
            _ => {
                let x = &self.v[j];
                let r = match &x.v {
                    V::D(d) => V::D(d.clone()),
                    V::S(d) => V::S(d.clone()),
                };
                let w = x.want.clone();
                self.view(r, w);
            }
        }
    }
    fn step(&mut self, o: &Op) {
        match o.k {
            K::Recv => {
                op!("receive a queue");
                if let Some(x) = self.boxes[rt::tid() as usize % self.boxes.len()].try_recv() {
                    x.check();
                    let Qx { q, want } = x;
                    self.add(q, want);
                }
                return;
            }
            K::View => return self.view_op(o),
            K::Collect => return self.extend(None, o),
            _ => {}
        }
        if self.q.is_empty() {
            match self.chunk(o.c) {
                Some((d, w)) if o.c[3] & 32 == 0 => {
                    op!("a queue of one chunk, {} bytes", w.len());
                    let q = if o.c[3] & 16 == 0 { ByteQueue::with_item(d) } else { ByteQueue::from(d) };
                    self.add(q, w);
                }
                x => {
                    if let Some((d, _)) = x {
                        self.lose(d);
                    }
                    op!("an empty queue");
                    self.add(ByteQueue::new(), Q::new(&[]));
                }
            }
            if matches!(o.k, K::Drop | K::Send | K::Conv) {
                return;
            }
        }
        let i = o.a as usize % self.q.len();
        match o.k {
            K::Push => self.push(i, o),
            K::Burst => self.burst(i, o),
            K::Pop => self.pop(i, o),
            K::Consume => self.consume(i, o),
            K::Slice => self.slice(i, o),
            K::Append => self.append(i, o),
            K::Extend => self.extend(Some(i), o),
            K::SplitOff => self.split_off(i, o),
            K::Replace => self.replace(i, o),
            K::Drain => self.drain(i, o),
            K::TakeWhile => self.take_while(i, o),
            K::Find => self.find(i, o),
            K::IterRef => self.iter_ref(i, o),
            K::Chunks => self.chunks(i, o),
            K::IntoBytes => self.into_bytes(i, o),
            K::IntoIter => self.into_iter(i, o),
            K::SplitOn => self.split_on(i, o),
            K::Conv => self.conv(i, o),
            K::Clone => self.clone_q(i),
            K::Beside => self.beside(i, o),
            K::Write => self.write(i, o),
            K::Read => self.read(i, o),
            K::Body => self.body(i, o),
            K::Drop => {
                let x = quiet(|| self.q.remove(i));
                op!("drop a queue of {} bytes in {} chunks", x.want.len(), x.q.chunk_len());
                self.lose(x);
            }
            K::Send => {
                let x = quiet(|| self.q.remove(i));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.boxes.len();
                op!("send a queue of {} bytes to T{}", x.want.len(), to);
                self.boxes[to].send(x);
            }
            _ => {}
        }
    }
    fn finish(mut self) {
        while let Some(x) = quiet(|| self.q.pop()) {
            x.check();
            self.lose(x);
        }
        while let Some(x) = quiet(|| self.v.pop()) {
            x.check();
            self.lose(x);
        }
        quiet(|| {
            drop(core::mem::take(&mut self.q));
            drop(core::mem::take(&mut self.v));
        });
    }
}
/// Numbers around `n` and far beyond.
/// More choices out of those of an operation.
fn mix(c: [u32; 4]) -> u32 {
    let z = (c[0] << 20 ^ c[1] << 8 ^ c[2] << 14 ^ c[3]).wrapping_mul(0x9E37_79B1);
    (z ^ z >> 15).wrapping_mul(0x85EB_CA6B) >> 4
}
pub fn skip_of(c: u32, n: usize) -> usize {
    match c % 16 {
        13 => usize::MAX,
        14 => n,
        15 => n + 1,
        12 => usize::MAX - 1,
        11 => n.saturating_sub(1),
        10 => 0,
        9 => 1.min(n),
        _ => (c >> 4) as usize % (n + 1),
    }
}
/// One step of a byte iterator, checked against what it has to give; `at`: bytes given or skipped so far.
pub fn step_bytes(it: &mut (impl Iterator<Item = u8> + ExactSizeIterator), at: &mut usize, w: &[u8], c: u32) {
    let (k, got) = match c % 8 {
        6 => {
            let k = (c >> 3) as usize % 20;
            (k, it.nth(k))
        }
        7 => {
            let k = if c & 1024 != 0 { usize::MAX - (c as usize >> 3) % 2 } else { w.len() - *at };
            (k, it.nth(k))
        }
        _ => (0, it.next()),
    };
    let p = at.saturating_add(k).min(w.len());
    let e = w.get(p).copied();
    if got != e {
        viol!("iterator", "an iterator gave {:?} at {} of {}, expected {:?}", got, p, w.len(), e);
    }
    *at = (p + 1).min(w.len());
    let rest = w.len() - *at;
    if it.size_hint() != (rest, Some(rest)) || it.len() != rest {
        viol!("iterator", "an iterator with {} to come reports {:?}", rest, it.size_hint());
    }
}
/// The parts a split has to give, as ranges.
pub fn split_ref(h: &[u8], needle: &[u8], max: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    if h.is_empty() {
        return v;
    }
    let mut s = 0;
    loop {
        if max != 0 && v.len() + 1 == max {
            break;
        }
        let p = if needle.is_empty() { None } else { h[s..].windows(needle.len()).position(|w| w == needle) };
        match p {
            Some(p) => {
                v.push((s, s + p));
                s += p + needle.len();
            }
            None => break,
        }
    }
    v.push((s, h.len()));
    v
}

pub fn queues(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| program(cfg)).collect());
    if quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<Qx>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let vboxes: &'static [Mailbox<Vx>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let new = || M { cfg, q: quiet(|| Vec::with_capacity(CAP + 2)), v: quiet(|| Vec::with_capacity(CAP + 4)), boxes, vboxes };
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut mm = new();
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = new();
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some(x) = b.try_recv() {
            x.check();
            let _ = must_in(false, move || drop(x));
        }
    }
    for b in vboxes {
        while let Some(x) = b.try_recv() {
            x.check();
            let _ = must_in(false, move || drop(x));
        }
    }
    quiet(|| {
        drop(p0);
        drop(progs);
    });
    check_owners();
}

static C05: Cfg = Cfg {
    weights: &[
        (K::Push, 10),
        (K::Burst, 5),
        (K::Pop, 6),
        (K::Consume, 5),
        (K::Slice, 5),
        (K::Append, 6),
        (K::Extend, 4),
        (K::Collect, 2),
        (K::SplitOff, 5),
        (K::Replace, 5),
        (K::Drain, 4),
        (K::TakeWhile, 3),
        (K::IntoIter, 2),
        (K::Find, 1),
        (K::Conv, 4),
        (K::Clone, 3),
        (K::Drop, 1),
        (K::Send, 3),
        (K::Recv, 4),
        (K::View, 3),
        (K::Beside, 2),
        (K::Write, 1),
        (K::Read, 1),
    ],
    faulty: false,
    panics: false,
    beh: NICE,
    bad: true,
    big: false,
    max_threads: 3,
    max_ops: 16,
};
pub fn c05() {
    queues(&C05)
}
static C07: Cfg = Cfg {
    weights: &[
        (K::Push, 6),
        (K::Burst, 6),
        (K::Pop, 2),
        (K::Append, 3),
        (K::SplitOff, 2),
        (K::Slice, 1),
        (K::Clone, 1),
        (K::Drain, 9),
        (K::TakeWhile, 3),
        (K::Find, 3),
        (K::IterRef, 7),
        (K::Chunks, 6),
        (K::IntoBytes, 7),
        (K::IntoIter, 7),
        (K::SplitOn, 7),
        (K::Send, 1),
        (K::Recv, 2),
        (K::View, 2),
        (K::Beside, 1),
    ],
    faulty: false,
    panics: true,
    beh: NICE,
    bad: true,
    big: false,
    max_threads: 2,
    max_ops: 14,
};
pub fn c07() {
    queues(&C07)
}
static C08: Cfg = Cfg {
    weights: &[
        (K::Push, 6),
        (K::Burst, 3),
        (K::Pop, 1),
        (K::Append, 2),
        (K::Slice, 1),
        (K::Read, 24),
        (K::Send, 1),
        (K::Recv, 2),
        (K::View, 8),
        (K::Conv, 1),
    ],
    faulty: false,
    panics: true,
    beh: NICE,
    bad: true,
    big: false,
    max_threads: 2,
    max_ops: 18,
};
static C08F: Cfg = Cfg { faulty: true, panics: false, ..C08 };
pub fn c08() {
    // there may be no memory for what is read
    queues(if rt::w(4) == 3 { &C08F } else { &C08 })
}
static C09: Cfg = Cfg {
    weights: &[
        (K::Write, 14),
        (K::Extend, 8),
        (K::Push, 3),
        (K::Burst, 2),
        (K::Pop, 2),
        (K::Consume, 2),
        (K::Append, 2),
        (K::Send, 1),
        (K::Recv, 2),
        (K::View, 2),
    ],
    faulty: false,
    panics: true,
    beh: NICE,
    bad: false,
    big: false,
    max_threads: 2,
    max_ops: 14,
};
pub fn c09() {
    queues(&C09)
}
static C10: Cfg = Cfg {
    weights: &[
        (K::Push, 5),
        (K::Burst, 2),
        (K::Pop, 1),
        (K::Append, 1),
        (K::Consume, 2),
        (K::Body, 20),
        (K::Send, 1),
        (K::Recv, 2),
        (K::View, 7),
        (K::Conv, 1),
    ],
    faulty: false,
    panics: true,
    beh: NICE,
    bad: false,
    big: true,
    max_threads: 2,
    max_ops: 14,
};
pub fn c10() {
    queues(&C10)
}
const MOST: &[(K, u32)] = &[
    (K::Push, 9),
    (K::Burst, 5),
    (K::Pop, 4),
    (K::Consume, 4),
    (K::Slice, 4),
    (K::Append, 7),
    (K::Extend, 5),
    (K::Collect, 2),
    (K::SplitOff, 5),
    (K::Replace, 5),
    (K::Drain, 5),
    (K::TakeWhile, 4),
    (K::Find, 1),
    (K::IntoBytes, 2),
    (K::IntoIter, 3),
    (K::SplitOn, 2),
    (K::Conv, 4),
    (K::Clone, 4),
    (K::Drop, 2),
    (K::Send, 1),
    (K::Recv, 1),
    (K::View, 4),
    (K::Write, 3),
    (K::Read, 3),
    (K::Beside, 1),
];
static C13: Cfg = Cfg { weights: MOST, faulty: true, panics: false, beh: NICE, bad: false, big: false, max_threads: 2, max_ops: 14 };
pub fn c13() {
    queues(&C13)
}
static C14: Cfg =
    Cfg { weights: MOST, faulty: false, panics: true, beh: Beh { panics: true, lies: false }, bad: false, big: false, max_threads: 2, max_ops: 14 };
pub fn c14() {
    queues(&C14)
}
