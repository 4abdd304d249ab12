//! Values as keys (C21): threads make values with the same and nearly the same contents in every representation and
//! with every history, hand them around, and use them as keys of hash tables and ordered tables, in sorted lists, and
//! compare them across types.  The oracle is the flat bytes.
use super::common::*;
use super::parse::{chunk_of, shown, text_chunk, word, Show};
use crate::model::{check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};
use core::cmp::Ordering;
use core::hash::{BuildHasher, Hash, Hasher};
use core::ops::Bound;
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ hashers
/// Three kinds: the standard one, one that takes a byte after the other, and one that takes what each call gives it in
/// words, so that the same bytes given in other pieces come out differently.
#[derive(Clone, Copy)]
struct Mix {
    kind: u32,
    live: bool,
}
enum Hs {
    Std(std::hash::DefaultHasher),
    Bytes(u64),
    Words(u64),
}
struct Hash3 {
    h: Hs,
    live: bool,
}
impl BuildHasher for Mix {
    type Hasher = Hash3;
    fn build_hasher(&self) -> Hash3 {
        let h = match self.kind % 3 {
            0 => Hs::Std(std::hash::DefaultHasher::new()),
            1 => Hs::Bytes(0xcbf29ce484222325),
            _ => Hs::Words(0),
        };
        Hash3 { h, live: self.live }
    }
}
impl Hasher for Hash3 {
    fn write(&mut self, b: &[u8]) {
        rt::check_read(b);
        if self.live && rt::fault(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(820);
        }
        quiet(|| match &mut self.h {
            Hs::Std(h) => h.write(b),
            Hs::Bytes(h) => b.iter().for_each(|x| *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3)),
            Hs::Words(h) => b.chunks(8).for_each(|c| {
                let mut w = [0; 8];
                w[..c.len()].copy_from_slice(c);
                *h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x517cc1b727220a95);
            }),
        })
    }
    fn finish(&self) -> u64 {
        quiet(|| match &self.h {
            Hs::Std(h) => h.finish(),
            Hs::Bytes(h) | Hs::Words(h) => *h,
        })
    }
}

// ------------------------------------------------------------------ keys
trait Key: Ord + Clone + Send + Sync + Show + 'static {
    const NAME: &'static str;
    const TEXT: bool;
    fn make(b: &Q, how: [u32; 2]) -> Self;
    fn feed<H: Hasher>(&self, h: &mut H);
    /// What it hashes like, where it can be looked up as something else.
    fn like(b: &Q, m: Mix) -> Option<u64>;
    /// Looked up as what it can be borrowed as.
    fn find(_: &HashMap<W<Self>, u64, Mix>, _: &BTreeMap<W<Self>, u64>, _: &Q) -> Option<[Option<u64>; 2]> {
        None
    }
    /// The first at or after, the last before.
    fn around(_: &BTreeMap<W<Self>, u64>, _: &Q) -> Option<[Option<u64>; 2]> {
        None
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct W<K>(K);
impl<K: Key> Hash for W<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.feed(h)
    }
}
impl core::borrow::Borrow<[u8]> for W<ByteData<'static>> {
    fn borrow(&self) -> &[u8] {
        self.0.borrow()
    }
}
impl core::borrow::Borrow<str> for W<StringData<'static>> {
    fn borrow(&self) -> &str {
        self.0.borrow()
    }
}
macro_rules! like {
    ($b:expr, $m:expr) => {{
        let mut h = $m.build_hasher();
        h.live = false;
        quiet(|| $b.hash(&mut h));
        Some(h.finish())
    }};
}
macro_rules! found {
    ($h:expr, $t:expr, $q:expr) => {
        Some([$h.get($q).copied(), $t.get($q).copied()])
    };
}
macro_rules! beside_of {
    ($t:expr, $ty:ty, $q:expr) => {
        Some([
            $t.range::<$ty, _>((Bound::Included($q), Bound::Unbounded)).next().map(|x| *x.1),
            $t.range::<$ty, _>((Bound::Unbounded, Bound::Excluded($q))).next_back().map(|x| *x.1),
        ])
    };
}
/// `b` with something around it, and where it lies in there.
fn around(b: &Q, c: u32) -> (Q, usize) {
    const E: [&str; 6] = ["", "a", "€é", "aaaaaaaaaaaaaaaa", "é1", "the beginning of it"];
    let mut x = Q::new(E[c as usize % 6].as_bytes());
    let at = x.len();
    x.push(b.b());
    x.push(E[c as usize / 6 % 6].as_bytes());
    (x, at)
}
impl Key for ByteData<'static> {
    const NAME: &'static str = "bytes";
    const TEXT: bool = false;
    fn make(b: &Q, how: [u32; 2]) -> Self {
        rt::nofault(|| match how[0] % 6 {
            0 | 1 => chunk_of(b, how[1]),
            2 => {
                let (x, at) = around(b, how[1] / 7);
                chunk_of(&x, how[1]).sliced(at..at + b.len())
            }
            3 => {
                let (x, at) = around(b, how[1] / 7);
                let mut d = chunk_of(&x, how[1]).into_shared();
                d.make_sliced(at..);
                d.take_bytes(b.len())
            }
            4 => ByteData::from(ByteQueue::make(b, [how[1], how[0]])),
            _ => {
                let mut n = SharedBytesBuilder::with_capacity(how[1] as usize % 40);
                n.extend_from_slice(b.b());
                ByteData::from(n)
            }
        })
    }
    fn feed<H: Hasher>(&self, h: &mut H) {
        self.hash(h)
    }
    fn like(b: &Q, m: Mix) -> Option<u64> {
        like!(b.b(), m)
    }
    fn find(h: &HashMap<W<Self>, u64, Mix>, t: &BTreeMap<W<Self>, u64>, b: &Q) -> Option<[Option<u64>; 2]> {
        found!(h, t, b.b())
    }
    fn around(t: &BTreeMap<W<Self>, u64>, b: &Q) -> Option<[Option<u64>; 2]> {
        beside_of!(t, [u8], b.b())
    }
}
impl Key for StringData<'static> {
    const NAME: &'static str = "text";
    const TEXT: bool = true;
    fn make(b: &Q, how: [u32; 2]) -> Self {
        rt::nofault(|| match how[0] % 5 {
            0 | 1 => text_chunk(b, how[1]),
            2 => {
                let (x, at) = around(b, how[1] / 7);
                text_chunk(&x, how[1]).sliced(at..at + b.len())
            }
            3 => {
                let (x, at) = around(b, how[1] / 7);
                let (d, _) = text_chunk(&x, how[1]).split_at(at + b.len());
                d.split_at(at).1
            }
            _ => StringData::from(StringQueue::make(b, [how[1], how[0]])),
        })
    }
    fn feed<H: Hasher>(&self, h: &mut H) {
        self.hash(h)
    }
    fn like(b: &Q, m: Mix) -> Option<u64> {
        like!(b.s(), m)
    }
    fn find(h: &HashMap<W<Self>, u64, Mix>, t: &BTreeMap<W<Self>, u64>, b: &Q) -> Option<[Option<u64>; 2]> {
        found!(h, t, b.s())
    }
    fn around(t: &BTreeMap<W<Self>, u64>, b: &Q) -> Option<[Option<u64>; 2]> {
        beside_of!(t, str, b.s())
    }
}
impl Key for SharedBytes {
    const NAME: &'static str = "shared bytes";
    const TEXT: bool = false;
    fn make(b: &Q, how: [u32; 2]) -> Self {
        rt::nofault(|| match how[0] % 5 {
            0 => SharedBytes::from_slice(b.b()),
            1 => SharedBytes::from_slice_aligned(b.b(), 1 << (how[1] % 7)),
            2 => SharedBytes::from(b.b().to_vec()),
            3 => {
                let (x, at) = around(b, how[1]);
                SharedBytes::from_slice(x.b()).sliced(at, b.len())
            }
            _ => SharedBytes::from(ByteData::make(b, [how[1], how[0]])),
        })
    }
    fn feed<H: Hasher>(&self, h: &mut H) {
        self.hash(h)
    }
    fn like(b: &Q, m: Mix) -> Option<u64> {
        like!(b.b(), m)
    }
}
/// Cuts the bytes for a queue; on characters where `text`.
fn cuts(b: &Q, how: u32, text: bool, mut each: impl FnMut(Q, u32)) {
    let n = b.len();
    let mut at = 0;
    let mut h = how;
    while at < n {
        let mut k = match h % 5 {
            0 => 1,
            1 => 2 + (h / 5) as usize % 5,
            2 => 14 + (h / 5) as usize % 3,
            3 => n - at,
            _ => (n - at).div_ceil(2),
        }
        .min(n - at);
        while text && !b.boundary(at + k) {
            k += 1;
        }
        h = h.wrapping_mul(2654435761) >> 3 ^ how;
        each(b.sub(at, at + k), h);
        at += k;
    }
}
impl Key for ByteQueue<'static> {
    const NAME: &'static str = "a queue";
    const TEXT: bool = false;
    fn make(b: &Q, how: [u32; 2]) -> Self {
        rt::nofault(|| {
            let all = |b: &Q, front: bool| {
                let mut q = ByteQueue::new();
                if front {
                    let mut v: Vec<(Q, u32)> = quiet(Vec::new);
                    cuts(b, how[1], false, |x, h| quiet(|| v.push((x, h))));
                    while let Some((x, h)) = quiet(|| v.pop()) {
                        q.push_front(chunk_of(&x, h));
                    }
                    quiet(|| drop(v));
                } else {
                    cuts(b, how[1], false, |x, h| q.push_back(chunk_of(&x, h)));
                }
                q
            };
            match how[0] % 6 {
                0 => all(b, false),
                1 => all(b, true),
                2 => {
                    let (x, at) = around(b, how[0] / 6);
                    all(&x, false).slice(at..at + b.len())
                }
                3 => {
                    let (x, at) = around(b, how[0] / 6);
                    let mut q = all(&x, true);
                    let _ = q.split_off(at + b.len());
                    q.consume(at);
                    q
                }
                4 => {
                    let k = (how[0] / 6) as usize % (b.len() + 1);
                    let mut q = all(&b.sub(0, k), false);
                    q.append(all(&b.sub(k, b.len()), true));
                    q
                }
                _ => ByteQueue::from(ByteData::from(all(b, false))),
            }
        })
    }
    fn feed<H: Hasher>(&self, h: &mut H) {
        self.hash(h)
    }
    fn like(_: &Q, _: Mix) -> Option<u64> {
        None
    }
}
impl Key for StringQueue<'static> {
    const NAME: &'static str = "a queue of text";
    const TEXT: bool = true;
    fn make(b: &Q, how: [u32; 2]) -> Self {
        rt::nofault(|| {
            let all = |b: &Q| {
                let mut q = StringQueue::new();
                cuts(b, how[1], true, |x, h| q.push_back(text_chunk(&x, h)));
                q
            };
            let (x, at) = around(b, how[0] / 4);
            match how[0] % 4 {
                0 => all(b),
                1 => all(&x).slice(at..at + b.len()),
                2 => {
                    let mut q = all(&x);
                    let _ = q.split_off(at + b.len());
                    q.split_off(at)
                }
                _ => {
                    let mut q = all(b);
                    q.replace_range(0..0, text_chunk(&x, how[0]));
                    q.replace_range(..x.len(), StringData::empty());
                    q
                }
            }
        })
    }
    /// It cannot be hashed.
    fn feed<H: Hasher>(&self, h: &mut H) {
        h.write_usize(self.len())
    }
    fn like(_: &Q, _: Mix) -> Option<u64> {
        None
    }
}
fn hashed<K: Key>(x: &K, m: Mix) -> u64 {
    let mut h = m.build_hasher();
    x.feed(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ tables
struct Tables<K: Key> {
    hash: HashMap<W<K>, u64, Mix>,
    tree: BTreeMap<W<K>, u64>,
    /// in order
    want: Vec<(Q, u64)>,
}
impl<K: Key> Tables<K> {
    fn new(kind: u32) -> Self {
        Tables { hash: rt::nofault(|| HashMap::with_hasher(Mix { kind, live: false })), tree: BTreeMap::new(), want: quiet(Vec::new) }
    }
    fn at(&self, b: &Q) -> Result<usize, usize> {
        quiet(|| self.want.binary_search_by(|x| x.0.b().cmp(b.b())))
    }
    fn val(&self, b: &Q) -> Option<u64> {
        self.at(b).ok().map(|i| self.want[i].1)
    }
    fn insert(&mut self, k: K, b: &Q, v: u64) {
        op!("{} of {} bytes becomes a key", K::NAME, b.len());
        let (x, y) = rt::nofault(|| (self.tree.insert(W(k.clone()), v), self.hash.insert(W(k), v)));
        let e = self.val(b);
        self.told("insert", b, e, x, y);
        match self.at(b) {
            Ok(i) => self.want[i].1 = v,
            Err(i) => {
                let b = b.clone();
                quiet(|| self.want.insert(i, (b, v)))
            }
        }
        self.sizes();
    }
    fn told(&self, what: &str, b: &Q, e: Option<u64>, tree: Option<u64>, hash: Option<u64>) {
        if tree != e || hash != e {
            viol!("key", "{} of {} ({} bytes): the ordered table says {:?}, the hash table {:?}, it should be {:?}", what, K::NAME, b.len(), tree, hash, e);
        }
    }
    fn sizes(&self) {
        if self.tree.len() != self.want.len() || self.hash.len() != self.want.len() {
            viol!("key", "{} and {} keys ({}) instead of {}", self.tree.len(), self.hash.len(), K::NAME, self.want.len());
        }
    }
    fn get(&self, k: &K, b: &Q) {
        op!("look up {} of {} bytes", K::NAME, b.len());
        // a key of a table is only compared while it is borrowed
        let k: &W<K> = unsafe { &*(k as *const K as *const W<K>) };
        self.told("get", b, self.val(b), self.tree.get(k).copied(), self.hash.get(k).copied());
        if let Some([h, t]) = K::find(&self.hash, &self.tree, b) {
            self.told("get by reference", b, self.val(b), t, h);
        }
        let i = self.at(b).unwrap_or_else(|i| i);
        let (after, before) = (self.want.get(i).map(|x| x.1), i.checked_sub(1).map(|i| self.want[i].1));
        let r = [
            self.tree.range((Bound::Included(k), Bound::Unbounded)).next().map(|x| *x.1),
            self.tree.range((Bound::Unbounded, Bound::Excluded(k))).next_back().map(|x| *x.1),
        ];
        for r in [Some(r), K::around(&self.tree, b)].into_iter().flatten() {
            if r != [after, before] {
                viol!("order", "around {} of {} bytes: {:?}, it should be {:?}", K::NAME, b.len(), r, [after, before]);
            }
        }
    }
    fn remove(&mut self, k: &K, b: &Q) {
        op!("remove {} of {} bytes", K::NAME, b.len());
        let k: &W<K> = unsafe { &*(k as *const K as *const W<K>) };
        let (x, y) = rt::nofault(|| (self.tree.remove(k), self.hash.remove(k)));
        self.told("remove", b, self.val(b), x, y);
        if let Ok(i) = self.at(b) {
            let x = quiet(|| self.want.remove(i));
            drop(x);
        }
        self.sizes();
    }
    fn check(&self) {
        self.sizes();
        for ((k, v), (b, e)) in self.tree.iter().zip(self.want.iter()) {
            check_bytes("a key", b.b(), shown(&k.0).b());
            if v != e {
                viol!("key", "a key ({}, {} bytes) leads to {} instead of {}", K::NAME, b.len(), v, e);
            }
        }
        for (k, v) in &self.hash {
            let b = shown(&k.0);
            if self.val(&b) != Some(*v) {
                viol!("key", "a hashed key ({}, {} bytes) leads to {} instead of {:?}", K::NAME, b.len(), v, self.val(&b));
            }
        }
    }
    /// Takes over all of another one's.
    fn merge(&mut self, mut o: Self) {
        op!("merge {} and {} keys ({})", self.want.len(), o.want.len(), K::NAME);
        rt::nofault(|| {
            self.tree.append(&mut o.tree);
            self.hash.extend(o.hash.drain());
        });
        for (b, v) in quiet(|| core::mem::take(&mut o.want)).into_iter() {
            match self.at(&b) {
                Ok(i) => self.want[i].1 = v,
                Err(i) => quiet(|| self.want.insert(i, (b, v))),
            }
        }
        self.check();
    }
}
impl<K: Key> Drop for Tables<K> {
    fn drop(&mut self) {
        quiet(|| drop(core::mem::take(&mut self.want)))
    }
}
fn order(what: &str, names: [&str; 2], b: [&Q; 2], e: Ordering, eq: [bool; 2], ord: Option<Ordering>) {
    let same = e == Ordering::Equal;
    if eq != [same, !same] || ord != Some(e) {
        viol!(
            "order",
            "{}: {} of {} bytes and {} of {} bytes: equal {:?}, different {:?}, order {:?}; it should be {:?}",
            what,
            names[0],
            b[0].len(),
            names[1],
            b[1].len(),
            eq[0],
            eq[1],
            ord,
            e
        );
    }
}

// ------------------------------------------------------------------ any of them
#[derive(Clone)]
pub(super) enum V {
    D(ByteData<'static>),
    S(StringData<'static>),
    B(SharedBytes),
    Q(ByteQueue<'static>),
    T(StringQueue<'static>),
}
pub(super) const NAMES: [&str; 5] = ["bytes", "text", "shared bytes", "a queue", "a queue of text"];
impl V {
    pub(super) fn kind(&self) -> usize {
        match self {
            V::D(_) => 0,
            V::S(_) => 1,
            V::B(_) => 2,
            V::Q(_) => 3,
            V::T(_) => 4,
        }
    }
    pub(super) fn make(kind: u32, b: &Q, how: [u32; 2]) -> V {
        match kind {
            0 => V::D(Key::make(b, how)),
            1 => V::S(Key::make(b, how)),
            2 => V::B(Key::make(b, how)),
            3 => V::Q(Key::make(b, how)),
            _ => V::T(Key::make(b, how)),
        }
    }
    pub(super) fn shown(&self) -> Q {
        match self {
            V::D(x) => shown(x),
            V::S(x) => shown(x),
            V::B(x) => Q::new(x.as_slice()),
            V::Q(x) => shown(x),
            V::T(x) => shown(x),
        }
    }
}
impl Show for SharedBytes {
    fn show(&self, v: &mut Q) {
        rt::check_read(self.as_slice());
        v.push(self.as_slice())
    }
}
/// Both ways round.
macro_rules! eqs {
    ($a:expr, $b:expr) => {
        [$a == $b, $a != $b]
    };
}
macro_rules! pair {
    (ord $a:expr, $b:expr, $n:expr, $w:expr, $e:expr) => {{
        order("compared", $n, $w, $e, eqs!($a, $b), PartialOrd::partial_cmp($a, $b));
        order("compared the other way", [$n[1], $n[0]], [$w[1], $w[0]], $e.reverse(), eqs!($b, $a), PartialOrd::partial_cmp($b, $a));
        let o = [$a < $b, $a <= $b, $a > $b, $a >= $b];
        if o != [$e.is_lt(), $e.is_le(), $e.is_gt(), $e.is_ge()] {
            viol!("order", "{} and {}: < <= > >= are {:?} for {:?}", $n[0], $n[1], o, $e);
        }
    }};
    (eq $a:expr, $b:expr, $n:expr, $w:expr, $e:expr) => {{
        order("compared", $n, $w, $e, eqs!($a, $b), Some($e));
        order("compared the other way", [$n[1], $n[0]], [$w[1], $w[0]], $e.reverse(), eqs!($b, $a), Some($e.reverse()));
    }};
    (one $a:expr, $b:expr, $n:expr, $w:expr, $e:expr) => {{
        order("compared", $n, $w, $e, eqs!($a, $b), PartialOrd::partial_cmp($a, $b));
    }};
}
fn total<K: Key>(a: &K, b: &K, w: [&Q; 2], e: Ordering, m: Mix) {
    let n = [K::NAME, K::NAME];
    pair!(ord a, b, n, w, e);
    if a.cmp(b) != e || b.cmp(a) != e.reverse() || a.cmp(a) != Ordering::Equal || !PartialEq::eq(b, b) {
        viol!("order", "{} of {} and {} bytes: {:?} instead of {:?}", K::NAME, w[0].len(), w[1].len(), a.cmp(b), e);
    }
    let big = Ord::max(a, b);
    let small = Ord::min(a, b);
    check_bytes("the larger", if e.is_gt() { w[0] } else { w[1] }.b(), shown(big).b());
    check_bytes("the smaller", if e.is_gt() { w[1] } else { w[0] }.b(), shown(small).b());
    let (x, y) = (hashed(a, m), hashed(b, m));
    if e == Ordering::Equal && x != y {
        viol!("hash", "{}: equal values of {} bytes hash differently", K::NAME, w[0].len());
    }
    for (x, w) in [(x, w[0]), (y, w[1])] {
        if K::like(w, m).is_some_and(|e| e != x) {
            viol!("hash", "{} of {} bytes does not hash like what it can be borrowed as", K::NAME, w.len());
        }
    }
}
/// A value and plain data.
fn plain(a: &V, w: [&Q; 2], e: Ordering) {
    let b = w[1].b();
    let v: Vec<u8> = quiet(|| b.to_vec());
    let n = [NAMES[a.kind()], "plain bytes"];
    let text = quiet(|| core::str::from_utf8(b).is_ok());
    match a {
        V::D(a) => {
            pair!(ord a, b, n, w, e);
            pair!(ord a, &v, n, w, e);
            pair!(eq a, &b, n, w, e);
            if a.eq_slice(b) != e.is_eq() {
                viol!("order", "bytes: eq_slice differs");
            }
        }
        V::B(a) => {
            pair!(ord a, b, n, w, e);
            pair!(ord a, &v, n, w, e);
            pair!(one a, &b, n, w, e);
            if a.eq_slice(b) != e.is_eq() {
                viol!("order", "shared bytes: eq_slice differs");
            }
        }
        V::Q(a) => {
            pair!(ord a, b, n, w, e);
            pair!(ord a, &v, n, w, e);
            pair!(eq a, &b, n, w, e);
            if text {
                pair!(eq a, w[1].s(), n, w, e);
                pair!(eq a, &w[1].s(), n, w, e);
            }
        }
        V::S(a) => {
            let all: &[u8] = a.as_ref();
            let same: &str = a.as_ref();
            let inner: &ByteData<'static> = a.as_ref();
            for x in [all, same.as_bytes(), inner.as_slice(), str::as_bytes(a)] {
                check_bytes("text taken as something else", w[0].b(), x);
            }
            if quiet(|| a.into_iter().ne(w[0].s().chars())) {
                viol!("content", "the characters of a text of {} bytes are others", w[0].len());
            }
            pair!(ord a, b, n, w, e);
            pair!(ord a, &v, n, w, e);
            pair!(eq a, &b, n, w, e);
            if text {
                let s = w[1].s();
                let o = quiet(|| s.to_string());
                pair!(ord a, s, n, w, e);
                pair!(ord a, &o, n, w, e);
                pair!(eq a, &s, n, w, e);
                if a.eq_str(s) != e.is_eq() || a.eq_slice(b) != e.is_eq() {
                    viol!("order", "text: eq_str or eq_slice differs");
                }
                quiet(|| drop(o));
            }
        }
        V::T(a) => {
            pair!(ord a, b, n, w, e);
            pair!(one a, &b, n, w, e);
            pair!(eq a, &b, n, w, e);
            if text {
                let s = w[1].s();
                pair!(ord a, s, n, w, e);
                pair!(one a, &s, n, w, e);
                pair!(eq a, &s, n, w, e);
            }
        }
    }
    quiet(|| drop(v));
}
fn compare(a: &V, b: &V, w: [&Q; 2], m: Mix) {
    let e = quiet(|| w[0].b().cmp(w[1].b()));
    let n = [NAMES[a.kind()], NAMES[b.kind()]];
    match (a, b) {
        (V::D(a), V::D(b)) => {
            if a.eq_const(b) != e.is_eq() {
                viol!("order", "bytes: eq_const differs");
            }
            total(a, b, w, e, m)
        }
        (V::S(a), V::S(b)) => {
            if a.eq_const(b) != e.is_eq() {
                viol!("order", "text: eq_const differs");
            }
            total(a, b, w, e, m)
        }
        (V::B(a), V::B(b)) => {
            if a.eq_const(b) != e.is_eq() {
                viol!("order", "shared bytes: eq_const differs");
            }
            total(a, b, w, e, m)
        }
        (V::Q(a), V::Q(b)) => total(a, b, w, e, m),
        (V::T(a), V::T(b)) => total(a, b, w, e, m),
        (V::D(a), V::S(b)) => pair!(ord a, b, n, w, e),
        (V::D(a), V::T(b)) => pair!(ord a, b, n, w, e),
        (V::S(a), V::T(b)) => pair!(ord a, b, n, w, e),
        (V::Q(a), V::T(b)) => pair!(ord a, b, n, w, e),
        (V::D(a), V::Q(b)) => pair!(eq a, b, n, w, e),
        (V::S(a), V::Q(b)) => pair!(eq a, b, n, w, e),
        (V::B(_), _) | (_, V::B(_)) => {}
        (b, a) => return compare(a, b, [w[1], w[0]], m),
    }
    plain(a, w, e);
    plain(b, [w[1], w[0]], e.reverse());
}

// ------------------------------------------------------------------ the threads
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    c: [u32; 4],
}
struct Shelf {
    d: Tables<ByteData<'static>>,
    s: Tables<StringData<'static>>,
    b: Tables<SharedBytes>,
    q: Tables<ByteQueue<'static>>,
    t: Tables<StringQueue<'static>>,
}
macro_rules! each {
    ($kind:expr, $shelf:expr, $t:ident => $e:expr) => {
        match $kind {
            0 => {
                let $t = &mut $shelf.d;
                $e
            }
            1 => {
                let $t = &mut $shelf.s;
                $e
            }
            2 => {
                let $t = &mut $shelf.b;
                $e
            }
            3 => {
                let $t = &mut $shelf.q;
                $e
            }
            _ => {
                let $t = &mut $shelf.t;
                $e
            }
        }
    };
}
struct Run {
    boxes: &'static [Mailbox<(V, Q)>],
    shelves: &'static Mailbox<Shelf>,
    texts: &'static [Q],
    faulty: bool,
    hasher: u32,
}
fn key_of<K: Key>(_: &Tables<K>, b: &Q, how: [u32; 2]) -> K {
    K::make(b, how)
}
fn sorted<K: Key>(v: Vec<K>, w: &[Q]) {
    op!("sort {} of {}", v.len(), K::NAME);
    let mut v = v;
    rt::nofault(|| v.sort());
    let mut w: Vec<&Q> = quiet(|| w.iter().collect());
    quiet(|| w.sort_by(|a, b| a.b().cmp(b.b())));
    for (x, w) in v.iter().zip(w.iter()) {
        check_bytes("one of a sorted list", w.b(), shown(x).b());
    }
    for (i, x) in v.iter().enumerate() {
        match v.binary_search(x) {
            Ok(k) if w[k].b() == w[i].b() => {}
            r => viol!("order", "a search in a sorted list of {} gave {:?} for {}", K::NAME, r, i),
        }
    }
    quiet(|| w.dedup_by(|a, b| a.b() == b.b()));
    rt::nofault(|| v.dedup());
    if v.len() != w.len() {
        viol!("order", "{} different {} instead of {}", v.len(), K::NAME, w.len());
    }
    rt::nofault(|| drop(v));
    quiet(|| drop(w));
}
fn thread(me: usize, prog: &'static [Op], r: &'static Run) {
    let kind = r.hasher;
    let mut shelf = Shelf { d: Tables::new(kind), s: Tables::new(kind), b: Tables::new(kind), q: Tables::new(kind), t: Tables::new(kind) };
    let mut pool: Vec<(V, Q)> = quiet(|| Vec::with_capacity(16));
    let text = |c: u32, only: bool| -> &'static Q {
        let n = r.texts.len();
        (0..n).map(|i| &r.texts[(c as usize + i) % n]).find(|q| !only || q.boundary_all()).unwrap_or(&r.texts[0])
    };
    for (i, o) in prog.iter().enumerate() {
        if rt::blocks() > 100_000 {
            break;
        }
        while pool.len() < 8 {
            let Some((v, w)) = r.boxes[me].try_recv() else { break };
            check_bytes("a value handed over", w.b(), v.shown().b());
            quiet(|| pool.push((v, w)));
        }
        let c = o.c;
        let ty = c[0] % 5;
        match o.k {
            0 | 1 => {
                let b = text(c[1], ty == 1 || ty == 4);
                op!("make {} of {} bytes", NAMES[ty as usize], b.len());
                let v = V::make(ty, b, [c[2], c[3]]);
                check_bytes("a new value", b.b(), v.shown().b());
                if pool.len() < 8 {
                    let w = b.clone();
                    quiet(|| pool.push((v, w)));
                }
            }
            2 | 3 => {
                let b = text(c[1], ty == 1 || ty == 4);
                let v = (me * 100 + i) as u64;
                each!(ty, shelf, t => {
                    let k = key_of(t, b, [c[2], c[3]]);
                    t.insert(k, b, v)
                });
            }
            4 | 5 => {
                let b = text(c[1], ty == 1 || ty == 4);
                each!(ty, shelf, t => {
                    let k = key_of(t, b, [c[2], c[3]]);
                    if o.k == 4 { t.get(&k, b) } else { t.remove(&k, b) }
                    rt::nofault(|| drop(k));
                });
            }
            6 | 7 if !pool.is_empty() => {
                let (x, y) = (c[1] as usize % pool.len(), c[2] as usize % pool.len());
                let (a, b) = (&pool[x], &pool[y]);
                op!("compare {} of {} with {} of {} bytes", NAMES[a.0.kind()], a.1.len(), NAMES[b.0.kind()], b.1.len());
                let live = r.faulty && c[3] % 2 == 0;
                let m = Mix { kind: c[3] / 2, live };
                let go = || match rt::catch(|| compare(&a.0, &b.0, [&a.1, &b.1], m)) {
                    Err(Unwound::Lib(m)) => viol!("panic", "a comparison panicked: {}", m),
                    _ => {}
                };
                if c[3] % 8 == 7 {
                    beside(go, || {
                        let _ = rt::catch(|| compare(&b.0, &a.0, [&b.1, &a.1], Mix { kind: c[3] / 4, live: false }));
                    });
                } else {
                    go();
                }
            }
            8 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("hand {} of {} bytes to thread {}", NAMES[v.kind()], w.len(), c[2] as usize % r.boxes.len());
                r.boxes[c[2] as usize % r.boxes.len()].send((v, w));
            }
            9 if !pool.is_empty() => {
                // a value and its copy are the same key
                let i = c[1] as usize % pool.len();
                let (v, w) = {
                    let (v, w) = &pool[i];
                    op!("copy {} of {} bytes", NAMES[v.kind()], w.len());
                    let Some(v) = must_in(r.faulty, || v.clone()) else { continue };
                    (v, w.clone())
                };
                compare(&pool[i].0, &v, [&w, &w], Mix { kind: c[2], live: false });
                let n = (me * 100 + i) as u64;
                match v {
                    V::D(x) => shelf.d.insert(x, &w, n),
                    V::S(x) => shelf.s.insert(x, &w, n),
                    V::B(x) => shelf.b.insert(x, &w, n),
                    V::Q(x) => shelf.q.insert(x, &w, n),
                    V::T(x) => shelf.t.insert(x, &w, n),
                }
            }
            10 => {
                let n = 2 + c[1] as usize % 6;
                let mut w: Vec<Q> = quiet(Vec::new);
                for k in 0..n {
                    let q = text(c[1] / 8 + k as u32 * (1 + c[2] % 3), ty == 1 || ty == 4).clone();
                    quiet(|| w.push(q));
                }
                each!(ty, shelf, t => {
                    let mut v = rt::nofault(|| Vec::with_capacity(n));
                    for (k, b) in w.iter().enumerate() {
                        let x = key_of(t, b, [c[2] + k as u32, c[3] * (k as u32 + 1)]);
                        rt::nofault(|| v.push(x));
                    }
                    sorted(v, &w)
                });
                quiet(|| drop(w));
            }
            12 if !pool.is_empty() => {
                // a value and a part of it, which lies in the same storage
                let i = c[1] as usize % pool.len();
                let (x, wx) = (&pool[i].0, &pool[i].1);
                let n = wx.len();
                let (mut a, mut e) = match c[2] % 5 {
                    0 => (0, c[3] as usize % (n + 1)),
                    1 => (c[3] as usize % (n + 1), n),
                    2 => (0, n.saturating_sub(1 + c[3] as usize % 2)),
                    3 => (0, n),
                    _ => (c[3] as usize % (n + 1), c[3] as usize / 64 % (n + 1)),
                };
                if e < a {
                    core::mem::swap(&mut a, &mut e);
                }
                if matches!(x, V::S(_) | V::T(_)) {
                    while !wx.boundary(a) {
                        a -= 1;
                    }
                    while !wx.boundary(e) {
                        e -= 1;
                    }
                }
                op!("{}..{} of {} of {} bytes", a, e, NAMES[x.kind()], n);
                let v = must_in(r.faulty, || match x {
                    V::D(x) => V::D(x.sliced(a..e)),
                    V::S(x) => V::S(x.sliced(a..e)),
                    V::B(x) => V::B(x.sliced(a, e - a)),
                    V::Q(x) => V::Q(x.slice(a..e)),
                    V::T(x) => V::T(x.slice(a..e)),
                });
                let Some(v) = v else { continue };
                let w = wx.sub(a, e);
                let m = Mix { kind: c[2], live: false };
                compare(x, &v, [wx, &w], m);
                compare(&v, x, [&w, wx], m);
                if pool.len() < 8 {
                    quiet(|| pool.push((v, w)));
                }
            }
            11 if !pool.is_empty() => {
                let i = c[1] as usize % pool.len();
                let (v, w) = quiet(|| pool.remove(i));
                op!("drop {} of {} bytes", NAMES[v.kind()], w.len());
                drop(v);
            }
            _ => {}
        }
        rt::state(o.k as u64 | (ty as u64) << 8 | (pool.len() as u64) << 12 | (shelf.d.want.len() as u64) << 16 | (shelf.q.want.len() as u64) << 24 | (c[3] as u64 % 64) << 32);
    }
    shelf.d.check();
    shelf.s.check();
    shelf.b.check();
    shelf.q.check();
    shelf.t.check();
    while let Some((v, w)) = quiet(|| pool.pop()) {
        check_bytes("a value kept", w.b(), v.shown().b());
        drop(v);
        drop(w);
    }
    quiet(|| drop(pool));
    r.shelves.send(shelf);
}
pub(super) trait AllText {
    fn boundary_all(&self) -> bool;
}
impl AllText for Q {
    fn boundary_all(&self) -> bool {
        quiet(|| core::str::from_utf8(self.b()).is_ok())
    }
}
pub fn c21() {
    let faulty = rt::w(3) == 2;
    rt::profile(if faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let mut texts: Vec<Q> = quiet(Vec::new);
    let first = word(rt::w([4, 12, 40][rt::w(3) as usize]) as usize, [2u32, 16][rt::w(2) as usize]);
    quiet(|| texts.push(first));
    for _ in 0..2 + rt::w(7) {
        let i = rt::w(texts.len() as u32) as usize;
        let mut x = texts[i].clone();
        let n = x.len();
        match rt::w(7) {
            0 => x.truncate(rt::w(n as u32 + 1) as usize),
            1 => x.push(word(1 + rt::w(3) as usize, 16).b()),
            2 if n > 0 => {
                let k = rt::w(n as u32) as usize;
                quiet(|| x.m()[k] ^= [1, 0x80, 0x20, 0xff][k % 4]);
            }
            3 if n > 0 => {
                let k = n - 1;
                quiet(|| x.m()[k] ^= [1, 0x80][i % 2]);
            }
            4 => x.push(b"\0"),
            5 => {
                let mut y = word(1, 16);
                y.push(x.b());
                x = y;
            }
            _ => x = word(rt::w(20) as usize, 16),
        }
        quiet(|| texts.push(x));
    }
    // a text for those that take nothing else
    quiet(|| texts.push(Q::new(b"")));
    let nthr = 1 + rt::w(3) as usize;
    let mut progs: Vec<&'static [Op]> = quiet(Vec::new);
    let mut ops = 0;
    for _ in 0..nthr {
        let mut p = quiet(Vec::new);
        while p.len() < 40 && rt::w(16) != 0 {
            let o = Op { k: rt::w(13), c: [rt::w(5), rt::w(64), rt::w(1024), rt::w(4096)] };
            quiet(|| p.push(o));
        }
        ops += p.len();
        quiet(|| progs.push(Box::leak(p.into_boxed_slice())));
    }
    if ops >= 6 {
        rt::nontrivial();
    }
    let hasher = rt::w(3);
    let r: &'static Run = quiet(|| {
        Box::leak(Box::new(Run {
            boxes: Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()),
            shelves: Box::leak(Box::new(Mailbox::new())),
            texts: Box::leak(texts.into_boxed_slice()),
            faulty,
            hasher,
        }))
    });
    let mut joins = quiet(Vec::new);
    for i in 1..nthr {
        let p = progs[i];
        let j = quiet(|| rt::spawn(move || thread(i, p, r)));
        quiet(|| joins.push(j));
    }
    thread(0, progs[0], r);
    // the last one to come is the first to be merged
    let mut all = r.shelves.recv();
    for _ in 1..nthr {
        let o = r.shelves.recv();
        let Shelf { d, s, b, q, t } = o;
        all.d.merge(d);
        all.s.merge(s);
        all.b.merge(b);
        all.q.merge(q);
        all.t.merge(t);
    }
    rt::nofault(|| drop(all));
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for i in 0..nthr {
        while let Some((v, w)) = r.boxes[i].try_recv() {
            check_bytes("a value nobody took", w.b(), v.shown().b());
            drop(v);
            drop(w);
        }
    }
    quiet(|| drop(progs));
    check_owners();
}
