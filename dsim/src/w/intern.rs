//! Interning (C12) and its part of C13: threads intern, look up, clear, clone and drop tables; the recorded history of
//! every (table, value) pair must be equivalent to some sequential order of the calls on "the stored bytes, if any".
use super::common::*;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Unwound};
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteChunk, ByteData, SharedBytes, StringData};

struct Cfg {
    faulty: bool,
    max_threads: usize,
    max_ops: usize,
}
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    a: u32,
    c: [u32; 4],
}
const KEYS: usize = 16;
const LEN: [usize; KEYS] = [20, 20, 33, 15, 14, 64, 100, 0, 20, 20, 33, 16, 100, 300, 300, 28];
const MAXL: [usize; 9] = [64, 20, 15, 4, usize::MAX, 33, 128, 0, 300];
/// ASCII, so that every value is text as well.  Some differ from another in one place only, are another's beginning, end
/// or rearrangement; those from `KEYS` on are many of a kind.
fn key(k: usize) -> Q {
    quiet(|| {
        if k >= KEYS {
            return Q::new(format!("one of many: {k:08}").as_bytes());
        }
        let of = [0, 0, 2, 3, 4, 5, 6, 7, 0, 0, 0, 0, 6, 13, 13, 15][k];
        let mut v: Vec<u8> = (0..LEN[k]).map(|i| b'a' + ((i * 7 + of * 3) % 26) as u8).collect();
        match k {
            1 => v[19] = b'Z',
            8 => v[0] = b'Z',
            9 => v.swap(8, 10),
            11 => v = key(0).b()[4..].to_vec(),
            12 => v[50] = b'Z',
            14 => v[299] = b'Z',
            _ => {}
        }
        Q::new(&v)
    })
}

// ------------------------------------------------------------------ the history
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    /// interned: found or stored at this address
    Stored(usize),
    /// looked up: found at this address
    Found(usize),
    Missing,
    Clear,
    /// unwound out of interning: may or may not have stored something
    Maybe,
}
#[derive(Clone, Copy)]
struct Ev {
    table: usize,
    key: usize,
    inv: Clk,
    tid: usize,
    /// this thread's component when the call returned
    res: u32,
    what: What,
}
type Clk = [u32; 6];
impl Ev {
    /// Did this call return before (in the sense of happens-before) the other one was made?
    fn before(&self, o: &Ev) -> bool {
        o.inv[self.tid] >= self.res
    }
}
const ALLK: usize = usize::MAX;
static HIST: rt::Shared<Vec<Ev>> = rt::Shared::new(Vec::new());
fn record(table: usize, key: usize, inv: Clk, what: What) {
    let res = rt::clock();
    let tid = rt::tid() as usize;
    HIST.with(|h| h.push(Ev { table, key, inv, tid, res: res[tid], what }));
}
/// Stored address of the model: 0 nothing, 1 something not yet seen, else the address.
fn search(evs: &[Ev], done: u128, st: usize, seen: &mut std::collections::HashSet<(u128, usize)>) -> bool {
    if done.count_ones() as usize == evs.len() {
        return true;
    }
    if !seen.insert((done, st)) {
        return false;
    }
    for (i, e) in evs.iter().enumerate() {
        if done >> i & 1 != 0 || evs.iter().enumerate().any(|(j, x)| j != i && done >> j & 1 == 0 && x.before(e)) {
            continue;
        }
        let d = done | 1u128 << i;
        let next: [Option<usize>; 2] = match e.what {
            What::Clear => [Some(0), None],
            What::Missing => [(st == 0).then_some(0), None],
            What::Found(p) => [(st == p || st == 1).then_some(p), None],
            What::Stored(p) => [(st == 0 || st == p || st == 1).then_some(p), None],
            What::Maybe => [Some(st), (st == 0).then_some(1)],
        };
        for s in next.into_iter().flatten() {
            if search(evs, d, s, seen) {
                return true;
            }
        }
    }
    false
}
fn check_history() {
    quiet(|| {
        let h = HIST.with(core::mem::take);
        for t in 0..2 {
            let mut keys: Vec<usize> = h.iter().filter(|e| e.table == t && e.key != ALLK).map(|e| e.key).collect();
            keys.sort();
            keys.dedup();
            for k in keys {
                let evs: Vec<Ev> = h.iter().filter(|e| e.table == t && (e.key == k || e.key == ALLK)).copied().collect();
                if evs.len() > 120 || evs.iter().all(|e| e.key == ALLK) {
                    continue;
                }
                if !search(&evs, 0, 0, &mut std::collections::HashSet::new()) {
                    let mut m = format!("no order of the calls on table {t}, value {k} explains their results:");
                    let mut names: Vec<usize> = vec![];
                    let mut name = |p: usize| match names.iter().position(|x| *x == p) {
                        Some(i) => i,
                        None => {
                            names.push(p);
                            names.len() - 1
                        }
                    };
                    for e in &evs {
                        let s = match e.what {
                            What::Stored(p) => format!("interned at #{}", name(p)),
                            What::Found(p) => format!("found at #{}", name(p)),
                            What::Missing => "not found".into(),
                            What::Clear => "cleared".into(),
                            What::Maybe => "interrupted".into(),
                        };
                        m += &format!(" [T{} {}]", e.tid, s);
                    }
                    rt::violation("history", &m);
                }
            }
        }
    })
}

// ------------------------------------------------------------------ threads
struct Tab {
    /// a clone of its own, or a reference to the one of thread 0
    own: Option<StaticInterning>,
    base: *const StaticInterning,
    id: usize,
    max: usize,
}
unsafe impl Send for Tab {}
impl Tab {
    fn t(&self) -> &StaticInterning {
        match &self.own {
            Some(t) => t,
            None => unsafe { &*self.base },
        }
    }
}
struct Ret {
    d: ByteData<'static>,
    k: usize,
}
struct M {
    cfg: &'static Cfg,
    tabs: Vec<Tab>,
    rets: Vec<Ret>,
}
/// Where the bytes are, 0 if inside the handle itself (or nowhere).
fn addr(d: &ByteData<'_>) -> usize {
    let p = d.as_slice().as_ptr() as usize;
    let me = d as *const _ as usize;
    if d.is_empty() || (p >= me && p < me + core::mem::size_of_val(d)) {
        0
    } else {
        p
    }
}
enum Out {
    /// what came back
    Got(ByteData<'static>),
    Refused,
}
fn call<'b>(t: &StaticInterning, how: u32, text: bool, v: ByteData<'b>, w: &Q) -> Out {
    let at = addr(&v);
    let r: Result<ByteData<'static>, ByteData<'b>> = match (how, text) {
        (0, false) => t.intern(v),
        (1, false) => Ok(t.intern_always(v)),
        (_, false) => t.get(v),
        (_, true) => {
            let v = unsafe { StringData::from_bytedata_unchecked(v) };
            let r = match how {
                0 => t.intern_str(v),
                1 => Ok(t.intern_always_str(v)),
                _ => t.get_str(v),
            };
            match r {
                Ok(s) => Ok(s.into_bytedata()),
                Err(s) => Err(s.into_bytedata()),
            }
        }
    };
    match r {
        Ok(d) => Out::Got(d),
        Err(v) => {
            rt::nofault(|| {
                check_bytes("refused value", w.b(), v.as_slice());
                if addr(&v) != at {
                    viol!("refused", "a refused value came back in other storage");
                }
            });
            drop(v);
            Out::Refused
        }
    }
}
impl M {
    fn one(&mut self, how: u32, o: &Op) {
        let k = [0, 1, 0, 2, 1, 3, 0, 4, 5, 6, 7, 2, 0, 1, 8, 9, 10, 11, 12, 13, 14, 15, 6, 0][o.c[0] as usize % 24];
        self.with(how, k, o)
    }
    /// Many values, each of which must be there afterwards.
    fn many(&mut self, o: &Op) {
        let n = [20, 40, 70, 150][o.c[2] as usize % 4];
        let first = KEYS + o.c[0] as usize % 3 * 30;
        let mut o = *o;
        for how in [if o.c[2] & 16 == 0 { 0 } else { 1 }, 2] {
            for k in first..first + n {
                o.c[1] += 1;
                let kept = self.rets.len();
                self.with(how, k, &o);
                // only some of what comes back is kept
                while self.rets.len() > kept.max(40) {
                    let r = quiet(|| self.rets.remove(k % self.rets.len()));
                    drop(r);
                }
            }
        }
    }
    fn with(&mut self, how: u32, k: usize, o: &Op) {
        let ti = o.a as usize % self.tabs.len();
        let form = match o.c[1] % 8 {
            4 if k >= KEYS => 3,
            x => x,
        };
        let text = o.c[2] & 1 != 0;
        let w = key(k);
        let n = w.len();
        let prev = (form == 7).then(|| self.rets.iter().position(|r| r.k == k)).flatten();
        let tab = &self.tabs[ti];
        op!(
            "{} value {} ({} bytes, form {}{}) in table {} for up to {}",
            ["intern", "intern always", "look up"][how as usize],
            k,
            n,
            form,
            if text { ", text" } else { "" },
            tab.id,
            tab.max
        );
        let f = self.cfg.faulty;
        let inv;
        // the value is made first; the call itself is what is recorded
        let r: Result<Out, Unwound> = match form {
            1 => {
                let s = leak_static(&w);
                inv = rt::clock();
                run_in(f, || call(tab.t(), how, text, ByteData::from_static(s), &w))
            }
            2 | 3 | 4 | 5 => {
                let v = match form {
                    2 => ByteData::from_shared(SharedBytes::from(w.b())),
                    3 => ByteData::from_owned(rt::nofault(|| w.b().to_vec())),
                    4 => ByteData::from_external(OwnerS::make(w.b(), NICE, ())),
                    _ => {
                        let mut big = quiet(|| b"before".to_vec());
                        quiet(|| {
                            big.extend_from_slice(w.b());
                            big.extend_from_slice(b"behind it all");
                        });
                        let s = SharedBytes::from(&big[..]);
                        quiet(|| drop(big));
                        ByteData::from_shared(s).into_sliced(6..6 + n)
                    }
                };
                inv = rt::clock();
                run_in(f, || call(tab.t(), how, text, v, &w))
            }
            7 if prev.is_some() => {
                let v = self.rets[prev.unwrap_or(0)].d.clone();
                inv = rt::clock();
                run_in(f, || call(tab.t(), how, text, v, &w))
            }
            _ => {
                let mut b = rt::nofault(|| w.b().to_vec().into_boxed_slice());
                inv = rt::clock();
                let r = run_in(f, || call(tab.t(), how, text, ByteData::from_borrowed(&b), &w));
                b.fill(0xEE);
                drop(b);
                r
            }
        };
        let inline = n <= ByteChunk::LEN;
        match r {
            Ok(Out::Got(d)) => {
                if how == 0 && !inline && n > tab.max {
                    viol!("refused", "a value of {} bytes was interned in a table for up to {}", n, tab.max);
                }
                if how != 0 || !inline {
                    let p = addr(&d).max(2);
                    record(tab.id, k, inv, if how == 2 { What::Found(p) } else { What::Stored(p) });
                }
                check_bytes("interned value", w.b(), d.as_slice());
                rt::state((k as u64) << 8 | (how as u64) << 4 | form as u64 | (tab.id as u64) << 20 | (n > tab.max) as u64);
                quiet(|| self.rets.push(Ret { d, k }));
            }
            Ok(Out::Refused) => match how {
                2 => record(tab.id, k, inv, What::Missing),
                0 if n > tab.max => {}
                _ => viol!("refused", "a value of {} bytes was refused by a table for up to {}", n, tab.max),
            },
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                // a look up may allocate (sharing what it found), but changes nothing
                if how != 2 {
                    record(tab.id, k, inv, What::Maybe);
                }
            }
        }
    }
    fn step(&mut self, o: &Op) {
        if self.tabs.is_empty() {
            return;
        }
        let ti = o.a as usize % self.tabs.len();
        match o.k % 16 {
            0..=4 => self.one(0, o),
            5 | 6 => self.one(1, o),
            7 if o.c[3] % 16 == 15 => self.many(o),
            7..=9 => self.one(2, o),
            10 => {
                op!("clear table {}", self.tabs[ti].id);
                let inv = rt::clock();
                self.tabs[ti].t().clear();
                record(self.tabs[ti].id, ALLK, inv, What::Clear);
            }
            11 => {
                if self.tabs.len() >= 4 {
                    return;
                }
                let tab = &self.tabs[ti];
                op!("clone table {}", tab.id);
                if let Some(t) = must_in(self.cfg.faulty, || tab.t().clone()) {
                    let n = Tab { own: Some(t), base: core::ptr::null(), id: tab.id, max: tab.max };
                    quiet(|| self.tabs.push(n));
                }
            }
            12 => {
                op!("drop a handle of table {}", self.tabs[ti].id);
                if self.tabs.len() > 1 || o.c[0] & 1 != 0 {
                    let t = quiet(|| self.tabs.remove(ti));
                    drop(t);
                }
            }
            13 | 14 => {
                if self.rets.is_empty() {
                    return;
                }
                let i = o.c[0] as usize % self.rets.len();
                let r = quiet(|| self.rets.remove(i));
                op!("drop what came back for value {}", r.k);
                check_bytes("interned value", key(r.k).b(), r.d.as_slice());
                drop(r);
            }
            _ => {
                op!("show table {}", self.tabs[ti].id);
                let mut b = rt::Buf::<2000>::new();
                let _ = core::fmt::Write::write_fmt(&mut b, format_args!("{:?}", self.tabs[ti].t()));
            }
        }
    }
    fn finish(mut self, other: bool) {
        // the table or what came from it goes first
        if other {
            while let Some(t) = quiet(|| self.tabs.pop()) {
                drop(t);
            }
        }
        while let Some(r) = quiet(|| self.rets.pop()) {
            check_bytes("interned value", key(r.k).b(), r.d.as_slice());
            drop(r);
        }
        while let Some(t) = quiet(|| self.tabs.pop()) {
            drop(t);
        }
        quiet(|| drop((core::mem::take(&mut self.tabs), core::mem::take(&mut self.rets))));
    }
}
fn program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let mut v = Vec::new();
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            v.push(Op { k: rt::w(16), a: rt::w(16), c: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(256)] });
        }
        v
    })
}
fn interning(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| program(cfg)).collect());
    if quiet(|| progs.iter().filter(|p| p.len() >= 2).count() >= 2 || progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let two = rt::w(4) == 3;
    let shared = rt::w(3) != 2;
    let mut bases: Vec<(*mut StaticInterning, usize)> = quiet(Vec::new);
    for i in 0..1 + two as usize {
        let max = MAXL[rt::w(MAXL.len() as u32) as usize];
        let make = rt::w(3);
        let lazy = make == 0;
        let (max, usual) = if make == 2 && max == 128 { (128, true) } else { (max, false) };
        op!("table {} for up to {} bytes{}, {}", i, max, if lazy { ", made on first use" } else { "" }, if shared { "shared" } else { "cloned for each thread" });
        let t = if lazy { StaticInterning::new_const(max) } else if usual { StaticInterning::default() } else { StaticInterning::new(max) };
        let p = rt::nofault(|| Box::into_raw(Box::new(t)));
        quiet(|| bases.push((p, max)));
    }
    let new = || {
        let mut tabs = quiet(|| Vec::with_capacity(8));
        for (i, &(p, max)) in bases.iter().enumerate() {
            let own = (!shared).then(|| unsafe { (*p).clone() });
            quiet(|| tabs.push(Tab { own, base: p, id: i, max }));
        }
        M { cfg, tabs, rets: quiet(Vec::new) }
    };
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut mm = new();
        let other = rt::fault(fk::ABANDON, 1) == 1;
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish(other);
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = new();
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    if !shared {
        for &(p, _) in &bases {
            drop(unsafe { Box::from_raw(p) });
        }
    }
    for o in &p0 {
        m.step(o);
    }
    if shared {
        // borrowed tables are not dropped by the threads
        m.finish(false);
    } else {
        m.finish(true);
    }
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    if shared {
        for &(p, _) in &bases {
            drop(unsafe { Box::from_raw(p) });
        }
    }
    quiet(|| {
        drop(p0);
        drop(progs);
        drop(bases);
    });
    check_owners();
    check_history();
}
static C12: Cfg = Cfg { faulty: false, max_threads: 4, max_ops: 10 };
pub fn c12() {
    interning(&C12)
}
static C13: Cfg = Cfg { faulty: true, max_threads: 3, max_ops: 10 };
pub fn c13() {
    interning(&C13)
}
