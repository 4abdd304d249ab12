//! Generated values (C24): threads draw values of every type from supplies of bytes, one after the other and with what is
//! left, while allocations fail; the values are used, changed and handed around, and those that borrow share the supply.
//! The oracle draws the same from the same supply as flat data.  Drawing ends, also when the supply is exhausted.
use super::common::*;
use super::keys::{NAMES, V};
use super::render::disturb;
use crate::model::{check_bytes, Q};
use crate::rt::{self, quiet, Mailbox, Unwound};
use arbitrary::{Arbitrary, Result, Unstructured};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, StringData, StringQueue};

type U = Unstructured<'static>;
// ------------------------------------------------------------------ the same as flat data
fn shared(u: &mut U, rest: bool) -> Result<Vec<u8>> {
    let n = match () {
        _ if u.is_empty() => 0,
        _ if rest => u.len(),
        _ => u.arbitrary_len::<u8>()?,
    };
    Ok(u.bytes(n)?.to_vec())
}
fn bytes(u: &mut U, rest: bool) -> Result<Vec<u8>> {
    if u.is_empty() {
        return Ok(Vec::new());
    }
    let k = *u.choose(&[0, 1, 2])?;
    if k == 2 {
        return shared(u, false);
    }
    let n = if rest { u.len() } else { u.arbitrary_len::<u8>()? };
    Ok(u.bytes(if k == 1 { n.min(14) } else { n })?.to_vec())
}
fn text(u: &mut U, rest: bool) -> Result<Vec<u8>> {
    if u.is_empty() {
        return Ok(Vec::new());
    }
    let k = *u.choose(&[0, 1, 2])?;
    if k == 0 {
        return if rest {
            let v = core::mem::replace(u, Unstructured::new(&[]));
            <&str>::arbitrary_take_rest(v).map(|s| s.as_bytes().to_vec())
        } else {
            <&str>::arbitrary(u).map(|s| s.as_bytes().to_vec())
        };
    }
    let mut s = String::new();
    let mut more = |c: char| {
        let fits = k == 2 || s.len() + c.len_utf8() <= 14;
        if fits {
            s.push(c);
        }
        fits && (k == 2 || s.len() < 14)
    };
    if rest {
        // what is made inline goes on with the zeros of an exhausted supply
        while (k == 1 || !u.is_empty()) && more(char::arbitrary(u)?) {}
    } else {
        for c in u.arbitrary_iter::<char>()? {
            if !more(c?) {
                break;
            }
        }
    }
    Ok(s.into_bytes())
}
fn queue(u: &mut U, rest: bool, one: impl Fn(&mut U, bool) -> Result<Vec<u8>>, len: impl FnOnce(&mut U) -> Result<usize>) -> Result<Vec<u8>> {
    let mut n = if rest { usize::MAX } else { len(u)? };
    let mut all: Vec<u8> = Vec::new();
    while !u.is_empty() && n != 0 {
        let d = one(u, false)?;
        n -= 1;
        let at = if u.arbitrary::<bool>().unwrap_or_default() { 0 } else { all.len() };
        all.splice(at..at, d);
    }
    Ok(all)
}
const BUILDER: u32 = 5;
fn flat(u: &mut U, kind: u32, rest: bool) -> Result<Q> {
    let r = match kind {
        0 => bytes(u, rest),
        1 => text(u, rest),
        // no way of its own to take the rest
        2 => shared(u, false),
        3 => queue(u, rest, bytes, |u| u.arbitrary_len::<ByteData<'static>>()),
        4 => queue(u, rest, text, |u| u.arbitrary_len::<StringData<'static>>()),
        _ => shared(u, rest),
    };
    r.map(|v| Q::new(&v))
}
/// The real ones.
fn draw(u: &mut U, kind: u32, rest: bool) -> Result<V> {
    macro_rules! one {
        ($t:ty) => {
            if rest {
                <$t>::arbitrary_take_rest(core::mem::replace(u, Unstructured::new(&[])))
            } else {
                <$t>::arbitrary(u)
            }
        };
    }
    Ok(match kind {
        0 => V::D(one!(ByteData<'static>)?),
        1 => V::S(one!(StringData<'static>)?),
        2 => V::B(one!(SharedBytes)?),
        3 => V::Q(one!(bytedata::ByteQueue<'static>)?),
        4 => V::T(one!(StringQueue<'static>)?),
        _ => V::D(one!(SharedBytesBuilder)?.into()),
    })
}

// ------------------------------------------------------------------ the threads
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    c: [u32; 4],
}
struct Run {
    boxes: &'static [Mailbox<(V, Q)>],
    supplies: &'static [&'static [u8]],
    faulty: bool,
}
fn name(kind: u32) -> &'static str {
    NAMES.get(kind as usize).copied().unwrap_or("a builder")
}
fn check(what: &str, v: &V, w: &Q) {
    check_bytes(what, w.b(), v.shown().b());
    if let V::S(s) = v {
        if quiet(|| core::str::from_utf8(s.as_bytes()).is_err()) {
            viol!("utf8", "{} is not valid UTF-8", what);
        }
    }
}
fn generate(r: &Run, c: [u32; 4], pool: &mut Vec<(V, Q)>) {
    let s = r.supplies[c[0] as usize % r.supplies.len()];
    let s = &s[(c[1] as usize % (s.len() + 1)).min(s.len())..];
    let mut u = U::new(s);
    let mut f = U::new(s);
    rt::extend(s.len() * 4);
    let times = 1 + c[2] / 8 % 6;
    for t in 0..times {
        let kind = (c[3] >> (2 * t)) % 6;
        let rest = t + 1 == times && c[2] & 1 == 0;
        let n = f.len();
        op!("draw {} from {} bytes{}", name(kind), n, if rest { ", all that is left" } else { "" });
        let e = quiet(|| flat(&mut f, kind, rest));
        match (run_in(r.faulty, || draw(&mut u, kind, rest)), e) {
            (Ok(Ok(v)), Ok(w)) => {
                check(name(kind), &v, &w);
                if !rest && u.len() != f.len() {
                    viol!("generate", "{} drawn from {} bytes left {} of them, as flat data it leaves {}", name(kind), n, u.len(), f.len());
                }
                if pool.len() < 10 {
                    quiet(|| pool.push((v, w)));
                } else {
                    drop(v);
                    drop(w);
                }
            }
            (Ok(Err(_)), Err(_)) => return,
            (Ok(r), e) => viol!("generate", "{} from {} bytes: {}, as flat data: {}", name(kind), n, ["refused", "made"][r.is_ok() as usize], ["refused", "made"][e.is_ok() as usize]),
            (Err(Unwound::Lib(m)), _) => viol!("panic", "drawing {} from {} bytes panicked: {}", name(kind), n, m),
            (Err(Unwound::Alloc), _) if !r.faulty => viol!("generate", "drawing {} from {} bytes used up all memory", name(kind), n),
            // where in the supply that was is not specified
            (Err(_), e) => {
                quiet(|| drop(e));
                return;
            }
        }
    }
}
fn thread(me: usize, prog: &'static [Op], r: &'static Run) {
    let mut pool: Vec<(V, Q)> = quiet(|| Vec::with_capacity(24));
    for o in prog {
        if rt::blocks() > 100_000 {
            break;
        }
        while pool.len() < 8 {
            let Some((v, w)) = r.boxes[me].try_recv() else { break };
            quiet(|| pool.push((v, w)));
        }
        let c = o.c;
        match o.k {
            0..=4 => generate(r, c, &mut pool),
            5 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let to = c[2] as usize % r.boxes.len();
                op!("a copy of {} goes to thread {}", NAMES[pool[i].0.kind()], to);
                if let Some(v) = must_in(r.faulty, || pool[i].0.clone()) {
                    let w = pool[i].1.clone();
                    r.boxes[to].send((v, w));
                }
            }
            6 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("use {} of {} bytes", NAMES[v.kind()], w.len());
                check("a value to be used", &v, &w);
                drop(w);
                let v = disturb(v, c[3]);
                let w = v.shown();
                quiet(|| pool.push((v, w)));
            }
            7 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("drop {} of {} bytes", NAMES[v.kind()], w.len());
                check("a value to be dropped", &v, &w);
                drop(v);
                drop(w);
            }
            _ => {}
        }
        rt::state(o.k as u64 | (c[3] as u64) << 8 | (c[2] as u64) << 24 | (pool.len() as u64) << 40);
    }
    while let Some((v, w)) = quiet(|| pool.pop()) {
        check("a value drawn", &v, &w);
        drop(v);
        drop(w);
    }
    quiet(|| drop(pool));
}
pub fn c24() {
    let faulty = rt::w(2) == 1;
    rt::profile(if faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let mut supplies: Vec<&'static [u8]> = quiet(Vec::new);
    for _ in 0..1 + rt::w(4) {
        let n = rt::w([1u32, 4, 20, 70, 300][rt::w(5) as usize]) as usize;
        let mode = rt::w(4);
        let mut x = Q::new(&[]);
        for _ in 0..n {
            let b = match mode {
                0 => rt::w(256) as u8,
                1 => rt::w(4) as u8,
                2 => [0u8, 1, 2, 3, b'a', 0xc3, 0xa9, 0xff, 0x0e, 0x0f, 0x10][rt::w(11) as usize],
                _ => b' ' + rt::w(95) as u8,
            };
            x.push(&[b]);
        }
        let s = leak_static(&x);
        quiet(|| supplies.push(s));
    }
    let nthr = 1 + rt::w(3) as usize;
    let mut progs: Vec<&'static [Op]> = quiet(Vec::new);
    let mut ops = 0;
    for _ in 0..nthr {
        let mut p = quiet(Vec::new);
        while p.len() < 24 && rt::w(12) != 0 {
            let o = Op { k: rt::w(8), c: [rt::w(5), rt::w(64), rt::w(256), rt::w(4096)] };
            quiet(|| p.push(o));
        }
        ops += p.len();
        quiet(|| progs.push(Box::leak(p.into_boxed_slice())));
    }
    if ops >= 4 {
        rt::nontrivial();
    }
    let r: &'static Run = quiet(|| {
        Box::leak(Box::new(Run {
            boxes: Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()),
            supplies: Box::leak(supplies.into_boxed_slice()),
            faulty,
        }))
    });
    let mut joins = quiet(Vec::new);
    for i in 1..nthr {
        let p = progs[i];
        let j = quiet(|| rt::spawn(move || thread(i, p, r)));
        quiet(|| joins.push(j));
    }
    thread(0, progs[0], r);
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for i in 0..nthr {
        while let Some((v, w)) = r.boxes[i].try_recv() {
            check("a value nobody took", &v, &w);
            drop(v);
            drop(w);
        }
    }
    quiet(|| drop(progs));
    check_owners();
}
