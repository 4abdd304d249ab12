//! String queues (C06), and their part of C13 (allocations fail) and C14 (caller code panics).
use super::common::*;
use super::handles::check_squeue;
use super::queue::split_ref;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, SharedBytes, StringData, StringQueue};
use core::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Push,
    Burst,
    Pop,
    Slice,
    SplitOff,
    Replace,
    Drain,
    TakeWhile,
    TakeLine,
    FindChar,
    Chars,
    IntoChars,
    Bytes,
    Chunks,
    IntoIter,
    SplitOn,
    Extend,
    Collect,
    Conv,
    Fmt,
    Clone,
    Drop,
    Send,
    Recv,
    Beside,
}
struct Cfg {
    weights: &'static [(K, u32)],
    faulty: bool,
    panics: bool,
    beh: Beh,
    max_threads: usize,
    max_ops: usize,
}
#[derive(Clone, Copy)]
struct Op {
    k: K,
    a: u32,
    c: [u32; 4],
}
fn program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let tot: u32 = cfg.weights.iter().map(|x| x.1).sum();
        let mut v = Vec::new();
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            let mut x = rt::w(tot);
            let mut k = cfg.weights[0].0;
            for &(kk, wt) in cfg.weights {
                if x < wt {
                    k = kk;
                    break;
                }
                x -= wt;
            }
            v.push(Op { k, a: rt::w(8), c: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(256)] });
        }
        v
    })
}
struct Qx {
    q: StringQueue<'static>,
    want: Q,
}
impl Qx {
    fn check(&self) {
        check_squeue("string queue", &self.q, self.want.b());
        rt::state(((self.q.chunk_len() as u64) << 20) | self.want.len() as u64 | 1 << 50);
    }
}
struct M {
    cfg: &'static Cfg,
    q: Vec<Qx>,
    boxes: &'static [Mailbox<Qx>],
}
const CAP: usize = 4;
fn text_len(c: u32) -> usize {
    if let Some(n) = rare_len(c) {
        return n;
    }
    const L: [usize; 16] = [5, 1, 2, 14, 15, 16, 9, 20, 0, 33, 13, 7, 24, 60, 4, 3];
    L[c as usize % 16]
}
fn floor(w: &Q, mut i: usize) -> usize {
    while !w.boundary(i) {
        i -= 1;
    }
    i
}
/// A range, mostly on character boundaries.
fn text_range(c: [u32; 4], w: &Q) -> Rg {
    let n = w.len();
    let rg = range_for([c[0], c[1] * 37 + c[2], c[2] * 13 + c[3]], n, true);
    if c[3] % 4 == 3 {
        return rg;
    }
    let Some((a, b)) = rg.resolve(n) else { return rg };
    let (a, b) = (floor(w, a), floor(w, b));
    let plain = Rg { form: 0, a, b };
    match rg.form {
        4 | 5 if b > 0 => Rg { form: rg.form, a, b: b - 1 },
        6 if a > 0 => Rg { form: 6, a: a - 1, b },
        7 if a > 0 && b > 0 => Rg { form: 7, a: a - 1, b: b - 1 },
        4..=7 => plain,
        f => Rg { form: f, a, b },
    }
}
fn resolve(rg: Rg, w: &Q) -> Option<(usize, usize)> {
    rg.resolve(w.len()).filter(|&(a, b)| w.boundary(a) && w.boundary(b))
}
fn chars_of(w: &Q) -> &'static [(usize, char)] {
    let s = w.s();
    quiet(|| Box::leak(s.char_indices().collect::<Vec<_>>().into_boxed_slice()))
}
/// One step of an iterator over characters.
fn step_chars<T: PartialEq + core::fmt::Debug>(it: &mut impl Iterator<Item = T>, at: &mut usize, all: &[(usize, char)], c: u32, f: impl Fn((usize, char)) -> T) {
    let k = if c % 4 == 3 { (c >> 2) as usize % 6 } else { 0 };
    let got = if c % 4 == 3 { it.nth(k) } else { it.next() };
    let p = (*at + k).min(all.len());
    let e = all.get(p).map(|x| f(*x));
    if got != e {
        viol!("iterator", "character {} of {} came out as {:?}, expected {:?}", p, all.len(), got, e);
    }
    *at = (p + 1).min(all.len());
    hint(it, all.len() - *at);
}
fn hint<T>(it: &impl Iterator<Item = T>, left: usize) {
    let (lo, hi) = it.size_hint();
    if lo > left || hi.is_some_and(|h| h < left) {
        viol!("iterator", "an iterator with {} characters to come has the size hint {:?}", left, (lo, hi));
    }
}
/// The end of an iterator over characters: what is left comes out, or is counted, or is dropped.
fn end_chars<T: PartialEq + core::fmt::Debug>(mut it: impl Iterator<Item = T>, at: usize, all: &[(usize, char)], how: u32, f: impl Fn((usize, char)) -> T) {
    let rest = all.len() - at;
    match how % 4 {
        0 => {
            for p in at..all.len() {
                let got = it.next();
                let e = f(all[p]);
                if got.as_ref() != Some(&e) {
                    viol!("iterator", "character {} of {} came out as {:?}, expected {:?}", p, all.len(), got, e);
                }
            }
            if let Some(x) = it.next() {
                viol!("iterator", "another character, {:?}, after all {}", x, all.len());
            }
            hint(&it, 0);
        }
        1 => {
            let k = it.count();
            if k != rest {
                viol!("iterator", "count() with {} characters to come is {}", rest, k);
            }
        }
        2 => {
            let l = it.last();
            let e = if rest == 0 { None } else { all.last().map(|x| f(*x)) };
            if l != e {
                viol!("iterator", "the last character is {:?}, expected {:?}", l, e);
            }
        }
        _ => drop(it),
    }
}

impl M {
    fn lose<T>(&self, x: T) {
        let _ = must_in(false, move || drop(x));
    }
    fn add(&mut self, q: StringQueue<'static>, want: Q) {
        let x = Qx { q, want };
        x.check();
        quiet(|| self.q.push(x));
        if self.q.len() > CAP {
            let x = quiet(|| self.q.remove(0));
            x.check();
            self.lose(x);
        }
    }
    fn text(&self, c: u32) -> Q {
        let n = text_len(c);
        model::gen_text(next_tag(), n)
    }
    /// A text of some representation.
    fn piece(&mut self, c: [u32; 4]) -> Option<(StringData<'static>, Q)> {
        let f = self.cfg.faulty;
        let w = self.text(c[1]);
        let b: &'static [u8] = leak_static(&w);
        let st: &'static str = unsafe { core::str::from_utf8_unchecked(b) };
        let d = match c[0] % 10 {
            0 if b.len() <= 14 => unsafe { StringData::from_bytedata_unchecked(ByteData::from_chunk_slice(b)) },
            0 | 1 => StringData::from_static(st),
            2 | 3 => {
                let s = must_in(f, || SharedBytes::from_slice(b))?;
                match StringData::try_from_shared(s) {
                    Ok(d) => d,
                    Err(_) => viol!("utf8", "valid text was refused"),
                }
            }
            4 => {
                let o = rt::nofault(|| OwnerS::make(b, self.cfg.beh, ()));
                let d = must_in(f, || ByteData::from_external(o))?;
                match StringData::try_from_bytedata(d) {
                    Ok(d) => d,
                    Err(_) => viol!("utf8", "valid text was refused"),
                }
            }
            5 => {
                let s = rt::nofault(|| st.to_string());
                must_in(f, || StringData::from_owned(s))?
            }
            6 => StringData::from_borrowed(st),
            7 | 8 => {
                // part of a shared text
                let s = must_in(f, || SharedBytes::from_slice(b))?;
                let d = StringData::try_from_shared(s).unwrap();
                let a = floor(&w, c[2] as usize % (w.len() + 1));
                let e = floor(&w, a + c[3] as usize % (w.len() - a + 1)).max(a);
                let p = must_in(f, || d.sliced(a..e));
                self.lose(d);
                return Some((p?, w.sub(a, e)));
            }
            _ => {
                let s = rt::nofault(|| std::borrow::Cow::<'static, str>::Owned(st.to_string()));
                must_in(f, || StringData::from_cow(s))?
            }
        };
        Some((d, w))
    }
    fn salvage(&mut self, i: usize, of: &Q) {
        let x = &mut self.q[i];
        let mut got = Q::new(&[]);
        for c in x.q.byte_chunks() {
            rt::check_read(c.as_slice());
            got.push(c.as_slice());
        }
        if !quiet(|| is_subsequence(got.b(), of.b())) {
            viol!("content", "after an interrupted operation a string queue holds {} bytes that are not a part of the {} it may hold", got.len(), of.len());
        }
        x.want = got;
        x.check();
    }
    fn push(&mut self, i: usize, o: &Op) {
        let front = o.c[3] & 64 != 0;
        let Some((d, w)) = self.piece(o.c) else { return };
        op!("push {} bytes of text, kind {}, {}", w.len(), o.c[0] % 10, if front { "front" } else { "back" });
        let how = o.c[3] % 6;
        let f = self.cfg.faulty;
        let q = &mut self.q[i].q;
        let r = if how < 4 {
            must_in(f, || if front { q.push_front(d) } else { q.push_back(d) })
        } else {
            let st: &'static str = unsafe { core::str::from_utf8_unchecked(leak_static(&w)) };
            let s = rt::nofault(|| st.to_string());
            let _ = must_in(false, move || drop(d));
            match (how, front) {
                (4, true) => must_in(f, || q.push_front(st)),
                (4, false) => must_in(f, || q.push_back(st)),
                (_, true) => must_in(f, || q.push_front(s)),
                (_, false) => must_in(f, || q.push_back(s)),
            }
        };
        if r.is_some() {
            if front {
                self.q[i].want.prepend(w.b());
            } else {
                self.q[i].want.push(w.b());
            }
        }
        self.q[i].check();
    }
    fn burst(&mut self, i: usize, o: &Op) {
        const N: [usize; 10] = [7, 14, 15, 16, 17, 1, 8, 30, 32, 47];
        let n = if (o.c[1] >> 3) % 32 == 31 { [100, 128, 129, 200, 255, 256, 257, 300][o.c[0] as usize % 8] } else { N[o.c[0] as usize % 10] };
        rt::extend(n);
        let front = o.c[2] & 1 != 0;
        op!("push {} single characters, {}", n, if front { "front" } else { "back" });
        for j in 0..n {
            let w = model::gen_text(next_tag(), 1 + (o.c[1] as usize + j) % 4);
            let d = unsafe { StringData::from_bytedata_unchecked(ByteData::from_chunk_slice(w.b())) };
            let fr = front ^ (o.c[2] & 2 != 0 && j % 3 == 0);
            let q = &mut self.q[i].q;
            if must_in(self.cfg.faulty, || if fr { q.push_front(d) } else { q.push_back(d) }).is_some() {
                if fr {
                    self.q[i].want.prepend(w.b());
                } else {
                    self.q[i].want.push(w.b());
                }
            }
        }
        self.q[i].check();
    }
    fn pop(&mut self, i: usize, o: &Op) {
        let back = o.c[0] % 2 == 1;
        let times = [1, 1, 2, 3, 8, 16][o.c[1] as usize % 6];
        op!("pop {} from the {}", times, if back { "back" } else { "front" });
        for _ in 0..times {
            let x = &mut self.q[i];
            let n = x.want.len();
            let p = if back { x.q.pop_back() } else { x.q.pop_front() };
            let Some(d) = p else {
                if n != 0 {
                    viol!("content", "pop found nothing in a text of {} bytes", n);
                }
                break;
            };
            let l = d.len();
            if l == 0 || l > n {
                viol!("content", "popped a chunk of {} bytes from {} bytes", l, n);
            }
            let w = if back { x.want.cut(n - l, n) } else { x.want.cut(0, l) };
            check_bytes("popped text", w.b(), d.as_bytes());
            if !w.is_text() {
                viol!("utf8", "popped a chunk that is not text");
            }
            let _ = must_in(false, move || drop(d));
        }
        self.q[i].check();
    }
    fn slice(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let rg = text_range(o.c, &x.want);
        let n = x.want.len();
        let res = resolve(rg, &x.want);
        op!("slice {} of {} bytes{}", rg, n, if res.is_none() { " (refused)" } else { "" });
        let r = run_in(self.cfg.faulty, || with_range!(rg, |r| x.q.slice(r)));
        self.q[i].check();
        match (r, res) {
            (Ok(q), Some((a, b))) => {
                let w = self.q[i].want.sub(a, b);
                self.add(q, w)
            }
            (Ok(_), None) => viol!("not-refused", "slice({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => {}
            (Err(Unwound::Lib(m)), _) => viol!("panic", "unexpected panic: {}", m),
            (Err(_), _) => {}
        }
    }
    fn position(&self, i: usize, o: &Op) -> usize {
        let w = &self.q[i].want;
        let n = w.len();
        let at = (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1);
        match o.c[0] % 8 {
            7 => n + 1 + o.c[1] as usize % 3,
            6 => at,
            5 if o.c[1] & 64 != 0 => usize::MAX - o.c[1] as usize % 2,
            _ => floor(w, at),
        }
    }
    fn split_off(&mut self, i: usize, o: &Op) {
        let at = self.position(i, o);
        let x = &mut self.q[i];
        let n = x.want.len();
        let ok = at <= n && x.want.boundary(at);
        op!("split_off at {} of {}{}", at, n, if ok { "" } else { " (refused)" });
        match run_in(self.cfg.faulty, || x.q.split_off(at)) {
            Ok(_) if !ok => viol!("not-refused", "split_off({}) of {} bytes of text was accepted", at, n),
            Ok(t) => {
                let w = x.want.cut(at, n);
                x.check();
                self.add(t, w);
            }
            Err(Unwound::Lib(_)) if !ok => x.check(),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                let left = x.q.len();
                if left > n {
                    viol!("content", "an interrupted split_off left {} of {} bytes", left, n);
                }
                x.want.truncate(left);
                x.check();
            }
        }
    }
    fn replace(&mut self, i: usize, o: &Op) {
        let Some((d, w)) = self.piece([o.c[3], o.c[1] ^ o.c[2], o.c[0], o.c[3] >> 3]) else { return };
        let x = &mut self.q[i];
        let n = x.want.len();
        let rg = text_range(o.c, &x.want);
        let res = resolve(rg, &x.want);
        op!("replace {} of {} by {} bytes{}", rg, n, w.len(), if res.is_none() { " (refused)" } else { "" });
        let r = run_in(self.cfg.faulty, || with_range!(rg, |r| x.q.replace_range(r, d)));
        match (r, res) {
            (Ok(()), Some((a, b))) => {
                x.want.splice(a, b, w.b());
                x.check();
            }
            (Ok(()), None) => viol!("not-refused", "replace_range({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => x.check(),
            (Err(Unwound::Lib(m)), _) => viol!("panic", "unexpected panic: {}", m),
            (Err(_), None) => x.check(),
            (Err(_), Some((a, b))) => {
                let mut of = x.want.clone();
                let mid = of.sub(a, b);
                of.splice(b, b, w.b());
                of.splice(b + w.len(), b + w.len(), mid.b());
                self.salvage(i, &of);
            }
        }
    }
    fn drain(&mut self, i: usize, o: &Op) {
        let x = &mut self.q[i];
        let n = x.want.len();
        let rg = text_range(o.c, &x.want);
        let res = resolve(rg, &x.want);
        let end = o.c[3] >> 2 & 7;
        let steps = if o.c[3] & 128 != 0 { 40 } else { (o.c[2] % 5) as usize };
        op!("drain {} of {} bytes, {} steps, end {}{}", rg, n, steps, end, if res.is_none() { " (refused)" } else { "" });
        let want = match res {
            Some((a, b)) => x.want.sub(a, b),
            None => Q::new(&[]),
        };
        let all = chars_of(&want);
        let calm = !self.cfg.faulty && !self.cfg.beh.panics;
        let mut leak = false;
        let c = o.c;
        let q = &mut x.q;
        let ch = |x: (usize, char)| x.1;
        let r = run_in(self.cfg.faulty, || {
            let mut d = with_range!(rg, |r| q.drain(r));
            if res.is_none() {
                return;
            }
            let mut at = 0;
            hint(&d, all.len());
            for s in 0..steps {
                step_chars(&mut d, &mut at, all, c[1].wrapping_add(s as u32 * 7), ch);
            }
            match end {
                0 | 1 => end_chars(d, at, all, 0, ch),
                2 => end_chars(d, at, all, 1, ch),
                3 => end_chars(d, at, all, 2, ch),
                4 => {
                    leak = true;
                    core::mem::forget(d)
                }
                5 => {
                    let _d = d;
                    rt::inject_panic(900)
                }
                6 => elsewhere(move || {
                    let _ = must_in(false, move || end_chars(d, at, all, c[2], ch));
                }),
                _ => drop(d),
            }
        });
        let full = x.want.clone();
        match (&r, res) {
            (Ok(()), None) => viol!("not-refused", "drain({}) of {} bytes was accepted", rg, n),
            (Err(Unwound::Lib(_)), None) => x.check(),
            (Err(Unwound::Lib(m)), _) => viol!("panic", "unexpected panic: {}", m),
            (Err(_), None) => x.check(),
            (Err(Unwound::Injected(900)), Some((a, b))) | (Ok(()), Some((a, b))) if !leak && (calm || end < 4 || end == 7) => {
                x.want.cut(a, b);
                x.check();
            }
            _ => self.salvage(i, &full),
        }
    }
    fn predicate(&mut self, i: usize, o: &Op) {
        let x = &mut self.q[i];
        let all = chars_of(&x.want);
        let stop = match o.c[0] % 4 {
            0 => all.len() + 1,
            1 => 0,
            _ => (o.c[1] as usize * 37 + o.c[2] as usize) % (all.len() + 1),
        };
        let p = self.cfg.panics;
        let calls = Cell::new(0usize);
        let see = |c: char| {
            let k = calls.get();
            calls.set(k + 1);
            if all.get(k).map(|x| x.1) != Some(c) {
                viol!("iterator", "the predicate was shown {:?} at {}, expected {:?}", c, k, all.get(k));
            }
            if p && rt::fault(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(1002);
            }
            k
        };
        let q = &mut x.q;
        if o.k == K::FindChar {
            op!("find_char, number {} of {}", stop, all.len());
            let e = all.get(stop).map(|x| x.0);
            match run_in(self.cfg.faulty, || q.find_char(|c| see(c) == stop)) {
                Ok(r) if r != e => viol!("iterator", "find_char gave {:?}, expected {:?}", r, e),
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                _ => {}
            }
            return self.q[i].check();
        }
        op!("take_while, {} of {} characters accepted", stop, all.len());
        match run_in(self.cfg.faulty, || q.take_while(|c| see(c) < stop)) {
            Ok(t) => {
                let k = all.get(stop).map_or(x.want.len(), |x| x.0);
                let w = x.want.cut(0, k);
                x.check();
                self.add(t, w);
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(Unwound::Injected(1002)) => x.check(),
            Err(_) => {
                let of = x.want.clone();
                self.salvage(i, &of)
            }
        }
    }
    fn take_line(&mut self, i: usize) {
        let x = &mut self.q[i];
        let k = quiet(|| x.want.b().iter().position(|b| *b == b'\n')).map_or(x.want.len(), |p| p + 1);
        op!("take_line, {} of {} bytes", k, x.want.len());
        let q = &mut x.q;
        match run_in(self.cfg.faulty, || q.take_line()) {
            Ok(t) => {
                let w = x.want.cut(0, k);
                x.check();
                self.add(t, w);
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {
                let of = x.want.clone();
                self.salvage(i, &of)
            }
        }
    }
    fn chars(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let all = chars_of(&x.want);
        op!("iterate over {} characters", all.len());
        let steps = o.c[0] >> 3 & 31;
        let c = o.c;
        let with = c[0] & 1 != 0;
        let run = move || {
            let mut at = 0;
            if with {
                let mut it = x.q.chars_indecies();
                for s in 0..steps {
                    step_chars(&mut it, &mut at, all, c[1].wrapping_add(s * 5), |x| x);
                }
                end_chars(it, at, all, c[2], |x| x);
            } else {
                let mut it = x.q.chars();
                for s in 0..steps {
                    step_chars(&mut it, &mut at, all, c[1].wrapping_add(s * 5), |x| x.1);
                }
                end_chars(it, at, all, c[2], |x| x.1);
            }
        };
        if c[3] & 1 != 0 {
            elsewhere(run);
        } else {
            run();
        }
        self.q[i].check();
    }
    fn into_chars(&mut self, i: usize, o: &Op) {
        let Qx { q, want } = quiet(|| self.q.remove(i));
        if o.c[2] & 64 != 0 {
            return self.into_bytes(q, want, o);
        }
        let all = chars_of(&want);
        op!("iterate over {} characters by value", all.len());
        let steps = o.c[0] >> 3 & 31;
        let c = o.c;
        let f = self.cfg.faulty;
        let run = move || {
            // an iterator that was interrupted is of no use any more
            let _ = must_in(f, move || {
                let mut it = q.into_chars();
                let mut at = 0;
                for s in 0..steps {
                    step_chars(&mut it, &mut at, all, c[1].wrapping_add(s * 5), |x| x.1);
                }
                end_chars(it, at, all, c[2], |x| x.1);
            });
        };
        if c[3] & 1 != 0 {
            elsewhere(run);
        } else {
            run();
        }
    }
    fn into_bytes(&mut self, q: StringQueue<'static>, mut want: Q, o: &Op) {
        op!("iterate over {} bytes of text by value", want.len());
        let f = self.cfg.faulty;
        let c = o.c;
        let run = move || {
            let _ = must_in(f, || {
                let mut it = q.into_bytes();
                for s in 0..c[0] >> 3 & 31 {
                    let n = want.len();
                    if it.len() != n {
                        viol!("iterator", "bytes by value with {} to come report {}", n, it.len());
                    }
                    let (g, e) = match (c[1].wrapping_add(s * 5)) % 3 {
                        0 | 1 => (it.next(), want.cut(0, n.min(1))),
                        _ => {
                            let k = c[2] as usize % 20;
                            let e = if k < n { want.sub(k, k + 1) } else { Q::new(&[]) };
                            want.cut(0, n.min(k + 1));
                            (it.nth(k), e)
                        }
                    };
                    if g.as_ref() != e.b().first() {
                        viol!("iterator", "bytes by value gave {:?} instead of {:?}", g, e.b().first());
                    }
                }
                drop(it);
            });
        };
        if c[3] & 1 != 0 {
            elsewhere(run);
        } else {
            run();
        }
    }
    fn bytes(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        op!("look at the bytes of {}", x.want.len());
        let mut p = 0;
        for b in x.q.bytes() {
            if x.want.b().get(p) != Some(&b) {
                viol!("iterator", "bytes() gave {} at {}", b, p);
            }
            p += 1;
        }
        if p != x.want.len() {
            viol!("iterator", "bytes() ended after {} of {}", p, x.want.len());
        }
        let n = x.want.len();
        let k = at_for(o.c[1], n);
        let (a, b) = (x.want.sub(0, k), x.want.sub(k, n));
        if !x.q.starts_with(a.b()) || !x.q.ends_with(b.b()) || x.q != *x.want.s() {
            viol!("content", "starts_with/ends_with/== deny what the queue holds");
        }
    }
    fn chunks(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let n = x.q.chunk_len();
        op!("iterate over {} chunks of text", n);
        let mut it = x.q.chunks();
        let mut p = 0;
        let mut left = n;
        for s in 0..o.c[0] % 20 {
            if left == 0 {
                break;
            }
            let skip = if o.c[1] >> (s % 12) & 1 != 0 { (o.c[2] >> (s % 12)) as usize % left.min(18) } else { 0 };
            if skip > 0 {
                for c in x.q.chunks().skip(n - left).take(skip) {
                    p += c.len();
                }
            }
            let Some(d) = (if skip > 0 { it.nth(skip) } else { it.next() }) else {
                viol!("iterator", "chunks() ended with {} to come", left)
            };
            left -= skip + 1;
            let e = (p + d.len()).min(x.want.len());
            check_bytes("chunk of text", &x.want.b()[p..e], d.as_bytes());
            p = e;
            if it.len() != left {
                viol!("iterator", "chunks() with {} to come reports {}", left, it.len());
            }
        }
        if o.c[3] & 1 == 0 {
            let k = it.count();
            if k != left {
                viol!("iterator", "count() of {} chunks is {}", left, k);
            }
        } else {
            let l = it.last().map(|d| d.len());
            let e = if left == 0 { None } else { x.q.back().map(|d| d.len()) };
            if l != e {
                viol!("iterator", "the last chunk has {:?} bytes, expected {:?}", l, e);
            }
        }
    }
    fn into_iter(&mut self, i: usize, o: &Op) {
        let Qx { q, mut want } = quiet(|| self.q.remove(i));
        let mut left = q.chunk_len();
        op!("iterate over {} chunks of text by value", left);
        let mut it = if o.c[0] & 1 == 0 { q.into_iter() } else { IntoIterator::into_iter(q) };
        for s in 0..o.c[0] >> 1 & 31 {
            let m = want.len();
            let back = o.c[1] >> (s % 12) & 1 != 0;
            match if back { it.next_back() } else { it.next() } {
                Some(d) => {
                    let l = d.len();
                    if left == 0 || l > m || l == 0 {
                        viol!("iterator", "a chunk of {} bytes with {} left", l, m);
                    }
                    left -= 1;
                    let w = if back { want.cut(m - l, m) } else { want.cut(0, l) };
                    check_bytes("chunk of text", w.b(), d.as_bytes());
                    if !w.is_text() {
                        viol!("utf8", "a chunk is not text");
                    }
                    self.lose(d);
                }
                None if left != 0 => viol!("iterator", "chunks ended with {} to come", left),
                None => break,
            }
            if it.len() != left || it.size_hint() != (left, Some(left)) {
                viol!("iterator", "chunk iterator with {} to come reports {}", left, it.len());
            }
        }
        match o.c[3] % 5 {
            0 if rt::fault(fk::LEAK, 1) == 1 => {
                leaked();
                core::mem::forget(it)
            }
            1 => elsewhere(move || {
                let _ = must_in(false, move || drop(it));
            }),
            2 | 3 => {
                let f = self.cfg.faulty;
                if let Some(q) = must_in(f, move || it.collect::<StringQueue<'static>>()) {
                    self.add(q, want);
                }
            }
            _ => self.lose(it),
        }
    }
    fn split_on(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let n = self.q[i].want.len();
        // a piece of the text, on boundaries or not (then split on bytes)
        let bytes = o.c[0] & 8 != 0;
        let needle = {
            let w = &self.q[i].want;
            let a = (o.c[1] as usize * 37 + o.c[2] as usize) % (n + 1);
            let b = (a + 1 + o.c[2] as usize % 5).min(n);
            match o.c[0] % 8 {
                7 => model::gen_text(next_tag(), 1 + o.c[1] as usize % 3),
                6 => Q::new(&[]),
                _ if bytes => w.sub(a.min(b), b),
                _ => w.sub(floor(w, a), floor(w, b).max(floor(w, a))),
            }
        };
        let max = if o.c[0] & 32 != 0 { (o.c[0] >> 6) as usize % 4 } else { 0 };
        let parts = quiet(|| split_ref(self.q[i].want.b(), needle.b(), max));
        op!("split {} bytes on {} bytes, at most {}, into {}", n, needle.len(), max, parts.len());
        let mut kept: Vec<(StringQueue<'static>, Q)> = quiet(Vec::new);
        {
            let x = &self.q[i];
            let mut k = 0;
            if bytes {
                let mut it = if max != 0 { x.q.splitn_on_bytes(needle.b(), max) } else { x.q.split_on_bytes(needle.b()) };
                loop {
                    let Some(r) = must_in(f, || it.next()) else { break };
                    match (r, parts.get(k)) {
                        (None, None) => break,
                        (Some(p), Some(&(a, b))) => {
                            super::handles::check_queue("part of a split", &p, &x.want.b()[a..b]);
                            let _ = must_in(false, move || drop(p));
                        }
                        (a, b) => viol!("iterator", "a split gave part {}: {}, expected {}", k, a.is_some(), b.is_some()),
                    }
                    k += 1;
                }
            } else {
                let mut it = if max != 0 { x.q.splitn_on(needle.s(), max) } else { x.q.split_on(needle.s()) };
                loop {
                    let Some(r) = must_in(f, || it.next()) else { break };
                    match (r, parts.get(k)) {
                        (None, None) => break,
                        (Some(p), Some(&(a, b))) => {
                            check_squeue("part of a split", &p, &x.want.b()[a..b]);
                            if kept.len() < 2 && b > a {
                                let w = x.want.sub(a, b);
                                quiet(|| kept.push((p, w)));
                            } else {
                                let _ = must_in(false, move || drop(p));
                            }
                        }
                        (a, b) => viol!("iterator", "a split gave part {}: {}, expected {}", k, a.is_some(), b.is_some()),
                    }
                    k += 1;
                }
            }
        }
        quiet(|| drop(parts));
        self.q[i].check();
        while let Some((p, w)) = quiet(|| kept.pop()) {
            self.add(p, w);
        }
        quiet(|| drop(kept));
    }
    fn extend(&mut self, i: Option<usize>, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let n = [3, 1, 2, 5, 17, 0, 9][o.c[0] as usize % 7];
        let how = (o.c[0] >> 4) % 3;
        let given = Cell::new(0);
        let mut all = Q::new(&[]);
        let mut ends: Vec<usize> = quiet(|| vec![0]);
        let mut items: Vec<Q> = quiet(Vec::new);
        let mut datas: Vec<StringData<'static>> = rt::nofault(Vec::new);
        for j in 0..n {
            let c = [o.c[1] + j * 5, o.c[2] + j * 3, o.c[3] + j, o.c[3]];
            let w = if how == 0 || i.is_none() {
                let Some((d, w)) = self.piece(c) else { continue };
                rt::nofault(|| datas.push(d));
                w
            } else {
                self.text(c[1])
            };
            all.push(w.b());
            quiet(|| {
                ends.push(all.len());
                items.push(w)
            });
        }
        op!("{} {} texts of kind {}", if i.is_some() { "extend by" } else { "collect" }, items.len(), how);
        let Some(i) = i else {
            let it = It::new(datas, p, p, &given);
            let r = run_in(f, || it.collect::<StringQueue<'static>>());
            quiet(|| {
                drop(items);
                drop(ends);
            });
            match r {
                Ok(q) => self.add(q, all),
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                Err(_) => {}
            }
            return;
        };
        let st = |w: &Q| -> &'static str { unsafe { core::str::from_utf8_unchecked(leak_static(w)) } };
        let q = &mut self.q[i].q;
        let r = match how {
            0 => {
                let it = It::new(datas, p, p, &given);
                run_in(f, || q.extend(it))
            }
            1 => {
                rt::nofault(|| drop(datas));
                let v: Vec<&'static str> = rt::nofault(|| items.iter().map(st).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
            _ => {
                rt::nofault(|| drop(datas));
                let v: Vec<String> = rt::nofault(|| items.iter().map(|w| st(w).to_string()).collect());
                let it = It::new(v, p, p, &given);
                run_in(f, || q.extend(it))
            }
        };
        let k = match r {
            Ok(()) => all.len(),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(u) => {
                let a = ends[given.get()];
                let b = ends[given.get().saturating_sub(1)];
                let got = self.q[i].q.len().saturating_sub(self.q[i].want.len());
                if matches!(u, Unwound::Injected(x) if x >= 300) || got == a {
                    a
                } else {
                    b
                }
            }
        };
        self.q[i].want.push(&all.b()[..k]);
        quiet(|| {
            drop(items);
            drop(ends);
        });
        self.q[i].check();
    }
    fn conv(&mut self, i: usize, o: &Op) {
        let f = self.cfg.faulty;
        let how = o.c[0] % 5;
        let Qx { q, want } = quiet(|| self.q.remove(i));
        op!("convert {} bytes of text in {} chunks, {}", want.len(), q.chunk_len(), how);
        match how {
            0 => {
                let Some(s) = must_in(f, || without_drop_panics(|| String::from(q))) else { return };
                check_bytes("String from a queue", want.b(), s.as_bytes());
                if let Some(q) = must_in(f, || StringQueue::from(s)) {
                    self.add(q, want)
                }
            }
            1 => {
                let Some(s) = must_in(f, || without_drop_panics(|| StringData::from(q))) else { return };
                check_bytes("StringData from a queue", want.b(), s.as_bytes());
                if let Some(q) = must_in(f, || StringQueue::from(s)) {
                    self.add(q, want)
                }
            }
            2 => {
                let Some(s) = must_in(f, || rt::nofault(|| q.to_string())) else { return };
                check_bytes("formatted queue", want.b(), s.as_bytes());
                self.lose(q);
                if let Some(q) = must_in(f, || StringQueue::from(std::borrow::Cow::<'static, str>::Owned(s))) {
                    self.add(q, want)
                }
            }
            3 => {
                let mut b = q.into_bytequeue();
                // back through the bytes, chunk by chunk
                let mut t = StringQueue::new();
                let mut got = Q::new(&[]);
                while let Some(d) = b.pop_front() {
                    let Ok(s) = StringData::try_from_bytedata(d) else {
                        viol!("utf8", "a chunk is not text")
                    };
                    let l = s.as_bytes().len();
                    let at = got.len();
                    if must_in(f, || t.push_back(s)).is_some() {
                        got.push(&want.b()[at..at + l]);
                    } else {
                        break;
                    }
                }
                self.lose(b);
                self.add(t, got);
            }
            _ => {
                self.lose(q);
                let s: &'static str = unsafe { core::str::from_utf8_unchecked(leak_static(&want)) };
                let q = if o.c[1] & 1 == 0 { StringQueue::from(s) } else { StringQueue::from(std::borrow::Cow::Borrowed(s)) };
                self.add(q, want);
            }
        }
    }
    fn fmt(&mut self, i: usize, o: &Op) {
        let (f, p) = (self.cfg.faulty, self.cfg.panics);
        let n = [5, 0, 1, 14, 15, 40, 100][o.c[1] as usize % 7];
        let add = model::gen_text(next_tag(), n);
        let parts: Vec<&str> = quiet(|| super::builder::split_text(add.s(), 1 + o.c[2] as usize % 50));
        op!("format {} bytes in {} parts into {}", n, parts.len(), self.q[i].want.len());
        let disp = Parts::new(&parts, p, p);
        if o.c[3] % 32 == 4 {
            // nothing to format
            drop(disp);
            quiet(|| drop(parts));
            let (r, t) = match o.c[2] % 4 {
                0 => (run_in(f, || bytedata::format_queue!("")), ""),
                1 => (run_in(f, || bytedata::format_queue!("h€{{}}")), "h€{}"),
                2 => (run_in(f, || bytedata::format_queue!("{}", "a part of some length")), "a part of some length"),
                _ => (run_in(f, || bytedata::format_queue!("more than fits into a chunk, as it is")), "more than fits into a chunk, as it is"),
            };
            match r {
                Ok(q) => self.add(q, Q::new(t.as_bytes())),
                Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
                Err(_) => {}
            }
            return self.q[i].check();
        }
        if o.c[3] % 4 == 0 {
            // a queue made by formatting: an error from the value unwinds
            let r = run_in(f, || bytedata::format_queue!("{}", disp));
            match r {
                Ok(q) => {
                    if disp.failed.get() {
                        viol!("write", "format_queue succeeded although the value failed");
                    }
                    drop(disp);
                    quiet(|| drop(parts));
                    self.add(q, add);
                }
                Err(Unwound::Lib(m)) if !disp.failed.get() => viol!("panic", "unexpected panic: {}", m),
                Err(_) => {
                    drop(disp);
                    quiet(|| drop(parts));
                }
            }
            return self.q[i].check();
        }
        let q = &mut self.q[i].q;
        let r = run_in(f, || core::fmt::Write::write_fmt(q, format_args!("{disp}")).is_ok());
        let k = match r {
            Ok(ok) => {
                if ok == disp.failed.get() {
                    viol!("write", "formatting reported {} although the value's success was {}", ok, !disp.failed.get());
                }
                disp.done.get()
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => disp.done.get(),
        };
        self.q[i].want.push(&add.b()[..k]);
        drop(disp);
        quiet(|| drop(parts));
        self.q[i].check();
    }
    fn beside(&mut self, i: usize, o: &Op) {
        let x = &self.q[i];
        let f = self.cfg.faulty;
        op!("share a text of {} bytes with another thread", x.want.len());
        let all = chars_of(&x.want);
        let look = |c: u32| match c % 3 {
            0 => {
                x.check();
                None
            }
            1 => {
                end_chars(x.q.chars_indecies(), 0, all, c / 3, |x| x);
                None
            }
            _ => must_in(f, || x.q.clone()),
        };
        let (p, r) = beside(|| look(o.c[0]), || look(o.c[2]));
        for q in [p, r].into_iter().flatten() {
            check_squeue("copy of a shared queue", &q, self.q[i].want.b());
            self.lose(q);
        }
        self.q[i].check();
    }
    fn step(&mut self, o: &Op) {
        match o.k {
            K::Recv => {
                op!("receive a string queue");
                if let Some(x) = self.boxes[rt::tid() as usize % self.boxes.len()].try_recv() {
                    x.check();
                    let Qx { q, want } = x;
                    self.add(q, want);
                }
                return;
            }
            K::Collect => return self.extend(None, o),
            _ => {}
        }
        if self.q.is_empty() {
            match self.piece(o.c) {
                Some((d, w)) if o.c[3] & 32 == 0 => {
                    op!("a queue of one text, {} bytes", w.len());
                    self.add(StringQueue::with_item(d), w);
                }
                x => {
                    if let Some((d, _)) = x {
                        self.lose(d);
                    }
                    op!("an empty string queue");
                    self.add(StringQueue::new(), Q::new(&[]));
                }
            }
            if matches!(o.k, K::Drop | K::Send | K::Conv) {
                return;
            }
        }
        let i = o.a as usize % self.q.len();
        match o.k {
            K::Push => self.push(i, o),
            K::Burst => self.burst(i, o),
            K::Pop => self.pop(i, o),
            K::Slice => self.slice(i, o),
            K::SplitOff => self.split_off(i, o),
            K::Replace => self.replace(i, o),
            K::Drain => self.drain(i, o),
            K::TakeWhile | K::FindChar => self.predicate(i, o),
            K::TakeLine => self.take_line(i),
            K::Chars => self.chars(i, o),
            K::IntoChars => self.into_chars(i, o),
            K::Bytes => self.bytes(i, o),
            K::Chunks => self.chunks(i, o),
            K::IntoIter => self.into_iter(i, o),
            K::SplitOn => self.split_on(i, o),
            K::Extend => self.extend(Some(i), o),
            K::Conv => self.conv(i, o),
            K::Fmt => self.fmt(i, o),
            K::Beside => self.beside(i, o),
            K::Clone => {
                op!("clone {} bytes of text", self.q[i].want.len());
                let r = must_in(self.cfg.faulty, || self.q[i].q.clone());
                self.q[i].check();
                if let Some(q) = r {
                    let w = self.q[i].want.clone();
                    self.add(q, w);
                }
            }
            K::Drop => {
                let x = quiet(|| self.q.remove(i));
                op!("drop a text of {} bytes", x.want.len());
                self.lose(x);
            }
            K::Send => {
                let x = quiet(|| self.q.remove(i));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.boxes.len();
                op!("send a text of {} bytes to T{}", x.want.len(), to);
                self.boxes[to].send(x);
            }
            K::Recv | K::Collect => {}
        }
    }
    fn finish(mut self) {
        while let Some(x) = quiet(|| self.q.pop()) {
            x.check();
            self.lose(x);
        }
        quiet(|| drop(core::mem::take(&mut self.q)));
    }
}
fn squeues(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| program(cfg)).collect());
    if quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<Qx>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let new = || M { cfg, q: quiet(|| Vec::with_capacity(CAP + 2)), boxes };
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut mm = new();
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = new();
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some(x) = b.try_recv() {
            x.check();
            let _ = must_in(false, move || drop(x));
        }
    }
    quiet(|| {
        drop(p0);
        drop(progs);
    });
    check_owners();
}
const ALL: &[(K, u32)] = &[
    (K::Push, 9),
    (K::Burst, 4),
    (K::Pop, 4),
    (K::Slice, 6),
    (K::SplitOff, 6),
    (K::Replace, 6),
    (K::Drain, 7),
    (K::TakeWhile, 4),
    (K::TakeLine, 3),
    (K::FindChar, 2),
    (K::Chars, 4),
    (K::IntoChars, 3),
    (K::Bytes, 1),
    (K::Chunks, 2),
    (K::IntoIter, 2),
    (K::SplitOn, 4),
    (K::Extend, 3),
    (K::Collect, 2),
    (K::Conv, 4),
    (K::Fmt, 3),
    (K::Clone, 2),
    (K::Drop, 1),
    (K::Send, 2),
    (K::Recv, 2),
    (K::Beside, 1),
];
static C06: Cfg = Cfg { weights: ALL, faulty: false, panics: true, beh: NICE, max_threads: 2, max_ops: 14 };
pub fn c06() {
    squeues(&C06)
}
static C13: Cfg = Cfg { weights: ALL, faulty: true, panics: false, beh: NICE, max_threads: 2, max_ops: 14 };
pub fn c13() {
    squeues(&C13)
}
static C14: Cfg = Cfg { weights: ALL, faulty: false, panics: true, beh: Beh { panics: true, lies: false }, max_threads: 2, max_ops: 14 };
pub fn c14() {
    squeues(&C14)
}
