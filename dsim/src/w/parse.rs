//! Parsing what has arrived (C18): a connection delivers a message in pieces, cut, delayed and ended at will; nom
//! parsers run over what is there, held as bytes or text, in one piece or in a queue.  The oracle is the same parser
//! over the same bytes as a plain slice.
use super::common::*;
use crate::model::{check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use core::ops::{Range, RangeFrom, RangeFull, RangeTo};
use nom::error::{Error, ErrorKind};
use nom::{AsChar, Compare, CompareResult, FindSubstring, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Needed, Slice};

// ------------------------------------------------------------------ what came out, in plain form
pub(super) trait Show {
    fn show(&self, v: &mut Q);
}
fn put(v: &mut Q, n: usize) {
    v.push(&(n as u64).to_le_bytes());
}
impl Show for &[u8] {
    fn show(&self, v: &mut Q) {
        v.push(self)
    }
}
impl Show for &str {
    fn show(&self, v: &mut Q) {
        v.push(self.as_bytes())
    }
}
impl Show for ByteData<'_> {
    fn show(&self, v: &mut Q) {
        rt::check_read(self.as_slice());
        v.push(self.as_slice())
    }
}
impl Show for StringData<'_> {
    fn show(&self, v: &mut Q) {
        rt::check_read(self.as_bytes());
        v.push(self.as_bytes())
    }
}
fn chunks(q: &ByteQueue<'_>, v: &mut Q) {
    let n = v.len();
    for c in q.chunks() {
        rt::check_read(c.as_slice());
        v.push(c.as_slice());
    }
    if q.len() != v.len() - n {
        viol!("length", "a queue of {} bytes reports {}", v.len() - n, q.len());
    }
}
impl Show for ByteQueue<'_> {
    fn show(&self, v: &mut Q) {
        chunks(self, v)
    }
}
impl Show for StringQueue<'_> {
    fn show(&self, v: &mut Q) {
        chunks(self.as_bytequeue(), v);
        for c in self.chunks() {
            if quiet(|| core::str::from_utf8(c.as_bytes()).is_err()) {
                viol!("utf8", "a chunk of text is not text");
            }
        }
    }
}
macro_rules! show_num {
    ($($t:ty)*) => {$(impl Show for $t {
        fn show(&self, v: &mut Q) {
            v.push(&(*self as u64).to_le_bytes())
        }
    })*};
}
show_num!(u8 u16 u32 u64 usize char bool);
impl Show for () {
    fn show(&self, _: &mut Q) {}
}
impl<T: Show> Show for Option<T> {
    fn show(&self, v: &mut Q) {
        put(v, self.is_some() as usize);
        if let Some(x) = self {
            x.show(v)
        }
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self, v: &mut Q) {
        put(v, self.len());
        for x in self {
            x.show(v);
            put(v, 77);
        }
    }
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self, v: &mut Q) {
        self.0.show(v);
        put(v, 78);
        self.1.show(v)
    }
}
pub(super) fn shown(x: &impl Show) -> Q {
    let mut v = Q::new(&[]);
    x.show(&mut v);
    v
}
enum Res {
    /// the rest, the value
    Done(Q, Q),
    More(Option<usize>),
    /// recoverable or not, where, why
    Bad(bool, Q, ErrorKind),
}
struct Got<I> {
    res: Res,
    rest: Option<I>,
    value: Option<I>,
}
fn got<I: Show, O: Show>(r: IResult<I, O>) -> (Res, Option<I>, Option<O>) {
    match r {
        Ok((rest, v)) => (Res::Done(shown(&rest), shown(&v)), Some(rest), Some(v)),
        Err(nom::Err::Incomplete(Needed::Unknown)) => (Res::More(None), None, None),
        Err(nom::Err::Incomplete(Needed::Size(n))) => (Res::More(Some(n.get())), None, None),
        Err(nom::Err::Error(e)) => (Res::Bad(true, shown(&e.input), e.code), None, None),
        Err(nom::Err::Failure(e)) => (Res::Bad(false, shown(&e.input), e.code), None, None),
    }
}
fn part<I: Show>(r: IResult<I, I>) -> Got<I> {
    let (res, rest, value) = got(r);
    Got { res, rest, value }
}
fn other<I: Show, O: Show>(r: IResult<I, O>) -> Got<I> {
    let (res, rest, _) = got(r);
    Got { res, rest, value: None }
}

// ------------------------------------------------------------------ what a parser may be given
trait In<T: AsChar + Copy>:
    Clone
    + Show
    + PartialEq
    + InputTake
    + InputLength
    + InputIter<Item = T>
    + InputTakeAtPosition<Item = T>
    + Slice<Range<usize>>
    + Slice<RangeFrom<usize>>
    + Slice<RangeTo<usize>>
    + Slice<RangeFull>
    + Compare<&'static str>
    + Compare<&'static [u8]>
    + FindSubstring<&'static str>
    + FindToken<u8>
{
}
impl<
        T: AsChar + Copy,
        I: Clone
            + Show
            + PartialEq
            + InputTake
            + InputLength
            + InputIter<Item = T>
            + InputTakeAtPosition<Item = T>
            + Slice<Range<usize>>
            + Slice<RangeFrom<usize>>
            + Slice<RangeTo<usize>>
            + Slice<RangeFull>
            + Compare<&'static str>
            + Compare<&'static [u8]>
            + FindSubstring<&'static str>
            + FindToken<u8>,
    > In<T> for I
{
}
/// A set of characters that knows items of every kind.
#[derive(Clone, Copy)]
struct Set(&'static str);
impl<T: AsChar> FindToken<T> for Set {
    fn find_token(&self, t: T) -> bool {
        let c = t.as_char();
        quiet(|| self.0.chars().any(|x| x == c))
    }
}
/// A caller's predicate: it may panic.
fn pred<T: AsChar>(set: &'static str, not: bool, live: bool) -> impl Fn(T) -> bool + Copy {
    move |t| {
        if live && rt::fault(fk::CB_PANIC, 1) == 1 {
            rt::inject_panic(800);
        }
        let c = t.as_char();
        quiet(|| set.chars().any(|x| x == c)) != not
    }
}

#[derive(Clone, Copy)]
struct Field {
    op: u32,
    sub: u32,
    k: usize,
    lit: &'static str,
    set: &'static str,
}
macro_rules! either {
    ($s:expr, $m:ident :: $f:ident ::<$($g:ty),*> ($($a:expr),*), $i:expr) => {
        if $s { nom::$m::streaming::$f::<$($g),*>($($a),*)($i) } else { nom::$m::complete::$f::<$($g),*>($($a),*)($i) }
    };
}
macro_rules! plain {
    ($s:expr, $f:ident ::<$($g:ty),*>, $i:expr) => {
        if $s { nom::character::streaming::$f::<$($g),*>($i) } else { nom::character::complete::$f::<$($g),*>($i) }
    };
}
const OPS: u32 = 14;
/// One parser over any input.
fn field<T: AsChar + Copy, I: In<T>>(f: &Field, s: bool, i: I, live: bool) -> Got<I> {
    use nom::branch::alt;
    use nom::combinator as c;
    use nom::multi as m;
    use nom::sequence as q;
    let (k, lit, set) = (f.k, f.lit, Set(f.set));
    let p = pred::<T>(f.set, f.sub & 16 != 0, live);
    type E<I> = Error<I>;
    match f.op {
        0 if f.sub % 3 == 2 => part(either!(s, bytes::tag::<_, _, E<I>>(lit.as_bytes()), i)),
        0 => part(either!(s, bytes::tag::<_, _, E<I>>(lit), i)),
        1 if f.sub % 3 == 2 => part(either!(s, bytes::tag_no_case::<_, _, E<I>>(lit.as_bytes()), i)),
        1 => part(either!(s, bytes::tag_no_case::<_, _, E<I>>(lit), i)),
        2 => part(either!(s, bytes::take::<_, _, E<I>>(k), i)),
        3 => part(match f.sub % 4 {
            0 => either!(s, bytes::take_while::<_, _, E<I>>(p), i),
            1 => either!(s, bytes::take_while1::<_, _, E<I>>(p), i),
            2 => either!(s, bytes::take_till::<_, _, E<I>>(p), i),
            _ => either!(s, bytes::take_till1::<_, _, E<I>>(p), i),
        }),
        4 => part(either!(s, bytes::take_while_m_n::<_, _, E<I>>(f.sub as usize % 3, f.sub as usize % 3 + k, p), i)),
        5 if f.sub & 1 == 0 => part(either!(s, bytes::take_until::<_, _, E<I>>(lit), i)),
        5 => part(either!(s, bytes::take_until1::<_, _, E<I>>(lit), i)),
        6 if f.sub & 1 == 0 => part(either!(s, bytes::is_a::<_, _, E<I>>(set), i)),
        6 => part(either!(s, bytes::is_not::<_, _, E<I>>(set), i)),
        7 => match f.sub % 5 {
            0 => other(plain!(s, anychar::<I, E<I>>, i)),
            1 => other(if s { nom::character::streaming::char::<I, E<I>>('a')(i) } else { nom::character::complete::char::<I, E<I>>('a')(i) }),
            2 => other(either!(s, character::one_of::<I, Set, E<I>>(set), i)),
            3 => other(either!(s, character::none_of::<I, Set, E<I>>(set), i)),
            _ => other(either!(s, character::satisfy::<_, I, E<I>>(pred::<char>(f.set, false, live)), i)),
        },
        8 => part(match f.sub % 12 {
            0 => plain!(s, alpha0::<I, E<I>>, i),
            1 => plain!(s, alpha1::<I, E<I>>, i),
            2 => plain!(s, digit0::<I, E<I>>, i),
            3 => plain!(s, digit1::<I, E<I>>, i),
            4 => plain!(s, alphanumeric0::<I, E<I>>, i),
            5 => plain!(s, alphanumeric1::<I, E<I>>, i),
            6 => plain!(s, space0::<I, E<I>>, i),
            7 => plain!(s, space1::<I, E<I>>, i),
            8 => plain!(s, multispace0::<I, E<I>>, i),
            9 => plain!(s, multispace1::<I, E<I>>, i),
            10 => plain!(s, hex_digit1::<I, E<I>>, i),
            _ => plain!(s, oct_digit1::<I, E<I>>, i),
        }),
        9 => match f.sub % 6 {
            0 => part(plain!(s, line_ending::<I, E<I>>, i)),
            1 => part(plain!(s, not_line_ending::<I, E<I>>, i)),
            2 => part(plain!(s, crlf::<I, E<I>>, i)),
            3 => other(plain!(s, newline::<I, E<I>>, i)),
            4 => part(c::rest::<I, E<I>>(i)),
            _ => other(c::rest_len::<I, E<I>>(i)),
        },
        // the first of several that fits
        10 => part(if s {
            use nom::bytes::streaming as b;
            use nom::character::streaming as h;
            alt((h::alpha1::<I, E<I>>, h::digit1, b::tag(lit), b::take_while1(p), b::take(1usize)))(i)
        } else {
            use nom::bytes::complete as b;
            use nom::character::complete as h;
            alt((h::alpha1::<I, E<I>>, h::digit1, b::tag(lit), b::take_while1(p), b::take(1usize)))(i)
        }),
        // several
        11 if s => {
            use nom::bytes::streaming as b;
            use nom::character::streaming as h;
            match f.sub % 6 {
                0 => other(m::many0(q::terminated(h::alpha1::<I, E<I>>, h::char(',')))(i)),
                1 => other(m::separated_list1(b::tag(lit), b::is_not::<_, _, E<I>>(Set(",;\r\n")))(i)),
                2 => other(m::many_m_n(1, 1 + k % 4, q::preceded(h::space0::<I, E<I>>, h::alphanumeric1))(i)),
                3 => other(m::many_till(h::anychar, b::tag::<_, I, E<I>>(lit))(i)),
                4 => other(m::count(b::take::<_, I, E<I>>(1usize), k % 5)(i)),
                _ => other(m::many0_count(b::tag::<_, I, E<I>>(lit))(i)),
            }
        }
        11 => {
            use nom::bytes::complete as b;
            use nom::character::complete as h;
            match f.sub % 6 {
                0 => other(m::many0(q::terminated(h::alpha1::<I, E<I>>, h::char(',')))(i)),
                1 => other(m::separated_list1(b::tag(lit), b::is_not::<_, _, E<I>>(Set(",;\r\n")))(i)),
                2 => other(m::many_m_n(1, 1 + k % 4, q::preceded(h::space0::<I, E<I>>, h::alphanumeric1))(i)),
                3 => other(m::many_till(h::anychar, b::tag::<_, I, E<I>>(lit))(i)),
                4 => other(m::count(b::take::<_, I, E<I>>(1usize), k % 5)(i)),
                _ => other(m::many0_count(b::tag::<_, I, E<I>>(lit))(i)),
            }
        }
        12 => other(plain!(s, u32::<I, E<I>>, i)),
        _ if s => {
            use nom::bytes::streaming as b;
            use nom::character::streaming as h;
            match f.sub % 5 {
                0 => other(c::opt(b::tag::<_, I, E<I>>(lit))(i)),
                1 => part(c::peek(b::take_until::<_, I, E<I>>(lit))(i)),
                2 => other(c::not(b::is_a::<_, I, E<I>>(set))(i)),
                3 => other(q::separated_pair(b::is_not::<_, I, E<I>>(Set("=;")), h::char('='), b::take_until(lit))(i)),
                _ => part(q::delimited(h::char('a'), b::take_until(lit), b::tag::<_, I, E<I>>(lit))(i)),
            }
        }
        _ => {
            use nom::bytes::complete as b;
            use nom::character::complete as h;
            match f.sub % 5 {
                0 => other(c::opt(b::tag::<_, I, E<I>>(lit))(i)),
                1 => part(c::peek(b::take_until::<_, I, E<I>>(lit))(i)),
                2 => other(c::not(b::is_a::<_, I, E<I>>(set))(i)),
                3 => other(q::separated_pair(b::is_not::<_, I, E<I>>(Set("=;")), h::char('='), b::take_until(lit))(i)),
                _ => part(q::delimited(h::char('a'), b::take_until(lit), b::tag::<_, I, E<I>>(lit))(i)),
            }
        }
    }
}
/// Parsers over bytes only.
fn number<I: In<u8>>(f: &Field, s: bool, i: I) -> Got<I> {
    use nom::multi::{length_count, length_data};
    macro_rules! go {
        ($m:ident) => {{
            use nom::number::$m as n;
            match f.sub % 6 {
                0 => other(n::be_u16::<I, Error<I>>(i)),
                1 => other(n::le_u32::<I, Error<I>>(i)),
                2 => other(n::be_u64::<I, Error<I>>(i)),
                3 => part(length_data(n::u8::<I, Error<I>>)(i)),
                4 => other(length_count(n::u8::<I, Error<I>>, n::be_u24)(i)),
                _ => other(n::le_u24::<I, Error<I>>(i)),
            }
        }};
    }
    if s {
        go!(streaming)
    } else {
        go!(complete)
    }
}
fn compared(r: CompareResult) -> usize {
    match r {
        CompareResult::Ok => 1,
        CompareResult::Error => 2,
        CompareResult::Incomplete => 3,
    }
}
/// The traits themselves, called directly: everything they answer.
fn direct<T: AsChar + Copy, I: In<T>>(x: &I, f: &Field, at: [usize; 2], live: bool) -> Q {
    let mut v = Q::new(&[]);
    let p = pred::<T>(f.set, f.sub & 16 != 0, live);
    put(&mut v, x.input_len());
    put(&mut v, compared(x.compare(f.lit)));
    put(&mut v, compared(x.compare_no_case(f.lit)));
    put(&mut v, compared(x.compare(f.lit.as_bytes())));
    put(&mut v, compared(x.compare_no_case(f.lit.as_bytes())));
    put(&mut v, x.find_substring(f.lit).map_or(0, |n| n + 1));
    put(&mut v, x.find_token(f.lit.as_bytes().first().copied().unwrap_or(b'q')) as usize);
    put(&mut v, x.position(p).map_or(0, |n| n + 1));
    for (i, c) in x.iter_indices().take(40) {
        put(&mut v, i);
        put(&mut v, c.as_char() as usize);
    }
    for c in x.iter_elements().take(40) {
        put(&mut v, c.as_char() as usize);
    }
    put(&mut v, x.slice_index(f.k).map_or(0, |n| n + 1));
    put(&mut v, x.slice_index(f.k * 9).map_or(0, |n| n + 1));
    let (a, b) = (at[0].min(at[1]), at[0].max(at[1]));
    x.take(b).show(&mut v);
    let (r, t) = x.take_split(b);
    r.show(&mut v);
    put(&mut v, 1);
    t.show(&mut v);
    put(&mut v, 2);
    Slice::slice(x, a..b).show(&mut v);
    put(&mut v, 3);
    Slice::slice(x, a..).show(&mut v);
    put(&mut v, 4);
    Slice::slice(x, ..a).show(&mut v);
    put(&mut v, 5);
    Slice::slice(x, ..).show(&mut v);
    for k in 0..4 {
        let r: IResult<I, I> = match k {
            0 => x.split_at_position(p),
            1 => x.split_at_position1(p, ErrorKind::AlphaNumeric),
            2 => x.split_at_position_complete(p),
            _ => x.split_at_position1_complete(p, ErrorKind::AlphaNumeric),
        };
        match got(r).0 {
            Res::Done(a, b) => {
                put(&mut v, 6);
                v.push(a.b());
                put(&mut v, 7);
                v.push(b.b());
            }
            Res::More(_) => put(&mut v, 8),
            Res::Bad(r, a, k) => {
                put(&mut v, 9 + r as usize);
                v.push(a.b());
                put(&mut v, k as usize);
            }
        }
    }
    v
}

// ------------------------------------------------------------------ the four holders of what has arrived
trait Stream: Sized + Clone + Send + 'static {
    const TEXT: bool;
    const NAME: &'static str;
    fn empty() -> Self;
    fn feed(self, b: &Q, kind: u32) -> Self;
    fn show(&self) -> Q;
    fn field(&self, f: &Field, s: bool, live: bool) -> Got<Self>;
    fn plain(b: &Q, f: &Field, s: bool) -> Res;
    fn direct(&self, f: &Field, at: [usize; 2], live: bool) -> Q;
    fn plain_direct(b: &Q, f: &Field, at: [usize; 2]) -> Q;
    /// The remaining arguments the traits take.
    fn args(&self, b: &Q, f: &Field);
}
/// What a plain slice answers to `compare`, `compare_no_case`, `find_substring`.
fn bytes_of(b: &[u8], lit: &[u8]) -> (usize, usize, Option<usize>) {
    quiet(|| (compared(b.compare(lit)), compared(b.compare_no_case(lit)), b.find_substring(lit)))
}
fn text_of(b: &str, lit: &str) -> (usize, usize, Option<usize>) {
    quiet(|| (compared(b.compare(lit)), compared(b.compare_no_case(lit)), b.find_substring(lit)))
}
macro_rules! arg {
    ($x:expr, $want:expr, $what:expr, $a:expr) => {{
        let (a, b) = (compared($x.compare($a)), compared($x.compare_no_case($a)));
        if (a, b) != ($want.0, $want.1) {
            viol!("parse", "{}: compare and compare_no_case gave {:?} instead of {:?}", $what, (a, b), ($want.0, $want.1));
        }
    }};
    (find $x:expr, $want:expr, $what:expr, $a:expr) => {{
        arg!($x, $want, $what, $a);
        let r = $x.find_substring($a);
        if r != $want.2 {
            viol!("parse", "{}: find_substring gave {:?} instead of {:?}", $what, r, $want.2);
        }
    }};
}
/// Token searches with all kinds of arguments.
macro_rules! tokens {
    ($x:expr, $b:expr, $lit:expr, $text:expr) => {
        for t in $lit.bytes().take(3) {
            let e = quiet(|| $b.b().contains(&t));
            if $x.find_token(t) != e || $x.find_token(&t) != e {
                viol!("parse", "a token was {}", if e { "missed" } else { "invented" });
            }
        }
        for t in $lit.chars().take(3) {
            if $text || t.is_ascii() {
                let e = quiet(|| if $text { $b.s().chars().any(|x| x == t) } else { $b.b().contains(&(t as u8)) });
                if $x.find_token(t) != e || $x.find_token(&t) != e {
                    viol!("parse", "a character was {}", if e { "missed" } else { "invented" });
                }
            }
        }
    };
}
/// A chunk of one of the representations.
pub(super) fn chunk_of(b: &Q, kind: u32) -> ByteData<'static> {
    let s = b.b();
    rt::nofault(|| match kind % 7 {
        0 => ByteData::from_static(leak_static(b)),
        1 => ByteData::from_shared(SharedBytes::from_slice(s)),
        2 if s.len() <= 14 => ByteData::from_chunk_slice(s),
        2 | 3 => {
            let mut x = Q::new(b"\xe2\x82");
            x.push(s);
            x.push(b"\xacab");
            ByteData::from_shared(SharedBytes::from_slice(x.b())).into_sliced(2..2 + s.len())
        }
        4 if owners() + 4 < MAXO => ByteData::from_external(OwnerS::make(s, NICE, ())),
        4 | 5 => ByteData::from_borrowed(leak_static(b)),
        _ if s.is_empty() => match kind / 7 % 8 {
            0 => ByteData::default(),
            1 => ByteData::from_concat(&[]),
            2 => StringData::default().into_bytedata(),
            3 => StringData::from_concat(&[]).into_bytedata(),
            4 => SharedBytes::default().into(),
            5 => SharedBytesBuilder::default().into(),
            6 => SharedStrBuilder::default().build_str().into_bytedata(),
            _ => match kind % 2 { 0 => ByteQueue::default().into(), _ => StringData::from(StringQueue::default()).into_bytedata() },
        },
        _ => match kind / 7 % 4 {
            0 => ByteData::from(std::borrow::Cow::Borrowed(leak_static(b))),
            1 if b.is_text() => StringData::from(std::borrow::Cow::Borrowed(unsafe { core::str::from_utf8_unchecked(leak_static(b)) })).into_bytedata(),
            2 => ByteData::from_borrowed(leak_static(b)).statically_borrowed(),
            _ => ByteData::from(s.to_vec()),
        },
    })
}
pub(super) fn text_chunk(b: &Q, kind: u32) -> StringData<'static> {
    match StringData::try_from_bytedata(chunk_of(b, kind)) {
        Ok(t) if kind / 7 % 2 == 0 => t.statically_borrowed(),
        Ok(t) => t,
        Err(_) => viol!("utf8", "try_from_bytedata refused text"),
    }
}
macro_rules! stream {
    ($t:ty, $name:literal, $text:literal, $item:ty, $flat:expr, $empty:expr, $feed:expr, $number:ident, $args:expr) => {
        impl Stream for $t {
            const TEXT: bool = $text;
            const NAME: &'static str = $name;
            fn empty() -> Self {
                $empty
            }
            fn feed(self, b: &Q, kind: u32) -> Self {
                $feed(self, b, kind)
            }
            fn show(&self) -> Q {
                shown(self)
            }
            fn field(&self, f: &Field, s: bool, live: bool) -> Got<Self> {
                if f.op >= OPS {
                    $number!(f, s, self.clone())
                } else {
                    field::<$item, $t>(f, s, self.clone(), live)
                }
            }
            fn plain(b: &Q, f: &Field, s: bool) -> Res {
                let i = $flat(b);
                quiet(|| if f.op >= OPS { $number!(f, s, i).res } else { field::<$item, _>(f, s, i, false).res })
            }
            fn direct(&self, f: &Field, at: [usize; 2], live: bool) -> Q {
                direct::<$item, $t>(self, f, at, live)
            }
            fn plain_direct(b: &Q, f: &Field, at: [usize; 2]) -> Q {
                let i = $flat(b);
                quiet(|| direct::<$item, _>(&i, f, at, false))
            }
            fn args(&self, b: &Q, f: &Field) {
                $args(self, b, f)
            }
        }
    };
}
macro_rules! with_numbers {
    ($f:expr, $s:expr, $i:expr) => {
        number($f, $s, $i)
    };
}
macro_rules! no_numbers {
    ($f:expr, $s:expr, $i:expr) => {
        other(Err::<_, nom::Err<Error<_>>>(nom::Err::Error(Error { input: $i, code: ErrorKind::Fail })).map(|x: (_, u8)| x))
    };
}
stream!(
    ByteQueue<'static>,
    "a queue",
    false,
    u8,
    |b: &'_ Q| -> &'static [u8] { unsafe { core::mem::transmute(b.b()) } },
    ByteQueue::new(),
    |mut q: ByteQueue<'static>, b: &Q, kind: u32| {
        rt::nofault(|| q.push_back(chunk_of(b, kind)));
        q
    },
    with_numbers,
    |x: &ByteQueue<'static>, b: &Q, f: &Field| {
        let w = bytes_of(b.b(), f.lit.as_bytes());
        let d = ByteData::from_static(f.lit.as_bytes());
        let s = StringData::from_static(f.lit);
        arg!(find x, w, "queue with ByteData", d.clone());
        arg!(find x, w, "queue with &ByteData", &d);
        arg!(find x, w, "queue with a slice", d.as_slice());
        arg!(find x, w, "queue with text", f.lit);
        arg!(x, w, "queue with StringData", s.clone());
        arg!(x, w, "queue with &StringData", &s);
        tokens!(x, b, f.lit, false);
    }
);
stream!(
    ByteData<'static>,
    "bytes",
    false,
    u8,
    |b: &'_ Q| -> &'static [u8] { unsafe { core::mem::transmute(b.b()) } },
    ByteData::empty(),
    |d: ByteData<'static>, b: &Q, kind: u32| rt::nofault(|| {
        if d.is_empty() {
            return chunk_of(b, kind);
        }
        let mut n = SharedBytesBuilder::with_capacity(d.len() + kind as usize % 30);
        n.extend_from_slice(d.as_slice());
        drop(d);
        n.extend_from_slice(b.b());
        ByteData::from(n)
    }),
    with_numbers,
    |x: &ByteData<'static>, b: &Q, f: &Field| {
        let w = bytes_of(b.b(), f.lit.as_bytes());
        let d = ByteData::from_static(f.lit.as_bytes());
        arg!(find x, w, "bytes with ByteData", d.clone());
        arg!(find x, w, "bytes with &ByteData", &d);
        arg!(find x, w, "bytes with a slice", d.as_slice());
        arg!(find x, w, "bytes with text", f.lit);
        tokens!(x, b, f.lit, false);
        check_bytes("as_bytes", b.b(), nom::AsBytes::as_bytes(x));
    }
);
stream!(
    StringQueue<'static>,
    "a queue of text",
    true,
    char,
    |b: &'_ Q| -> &'static str { unsafe { core::mem::transmute(b.s()) } },
    StringQueue::new(),
    |mut q: StringQueue<'static>, b: &Q, kind: u32| {
        rt::nofault(|| q.push_back(text_chunk(b, kind)));
        q
    },
    no_numbers,
    |x: &StringQueue<'static>, b: &Q, f: &Field| {
        let (w, t) = (bytes_of(b.b(), f.lit.as_bytes()), text_of(b.s(), f.lit));
        let d = ByteData::from_static(f.lit.as_bytes());
        let s = StringData::from_static(f.lit);
        arg!(find x, w, "text queue with ByteData", d.clone());
        arg!(find x, w, "text queue with &ByteData", &d);
        arg!(find x, w, "text queue with a slice", d.as_slice());
        arg!(find x, t, "text queue with text", f.lit);
        arg!(x, t, "text queue with StringData", s.clone());
        arg!(x, t, "text queue with &StringData", &s);
        tokens!(x, b, f.lit, true);
    }
);
stream!(
    StringData<'static>,
    "text",
    true,
    char,
    |b: &'_ Q| -> &'static str { unsafe { core::mem::transmute(b.s()) } },
    StringData::empty(),
    |d: StringData<'static>, b: &Q, kind: u32| rt::nofault(|| {
        if d.is_empty() {
            return text_chunk(b, kind);
        }
        let mut n = SharedStrBuilder::with_capacity(d.len() + kind as usize % 30);
        n.push_str(d.as_str());
        drop(d);
        n.push_str(b.s());
        StringData::from(n)
    }),
    no_numbers,
    |x: &StringData<'static>, b: &Q, f: &Field| {
        let (w, t) = (bytes_of(b.b(), f.lit.as_bytes()), text_of(b.s(), f.lit));
        let d = ByteData::from_static(f.lit.as_bytes());
        let s = StringData::from_static(f.lit);
        arg!(find x, w, "text with ByteData", d.clone());
        arg!(find x, w, "text with &ByteData", &d);
        arg!(find x, w, "text with a slice", d.as_slice());
        arg!(find x, t, "text with text", f.lit);
        arg!(find x, t, "text with StringData", s.clone());
        arg!(find x, t, "text with &StringData", &s);
        tokens!(x, b, f.lit, true);
        check_bytes("as_bytes", b.b(), nom::AsBytes::as_bytes(x));
    }
);

// ------------------------------------------------------------------ what is sent
const CH: [&str; 16] = ["a", "b", ",", "1", "\r\n", " ", "é", "a", "€", "=", "😀", "b", "A", ";", "\n", "ß"];
pub(super) fn word(n: usize, spread: u32) -> Q {
    let mut v = Q::new(&[]);
    for _ in 0..n {
        v.push(CH[rt::w(spread) as usize].as_bytes());
    }
    v
}
pub(super) fn leak_text(q: &Q) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(leak_static(q)) }
}
const SETS: [&str; 6] = ["ab1", "a", "é€b", " ,;\r\n", "", "1=😀"];
/// A field and something that probably matches it.
fn make_field(text: bool) -> (Field, Q) {
    let spread = [2u32, 4, 8, 16][rt::w(4) as usize];
    let lit = word(1 + rt::w(if rt::w(8) == 0 { 30 } else { 4 }) as usize, spread);
    let f = Field {
        op: rt::w(OPS + 1 - text as u32),
        sub: rt::w(240),
        k: rt::w(if rt::w(16) == 0 { 90 } else { 9 }) as usize,
        lit: leak_text(&lit),
        set: SETS[rt::w(6) as usize],
    };
    let mut v = Q::new(&[]);
    match (rt::w(5), f.op) {
        // anything
        (0, _) => v = word(rt::w(12) as usize, 16),
        (_, 0) => v.push(lit.b()),
        (_, 1) => v.push(quiet(|| f.lit.to_uppercase()).as_bytes()),
        (_, 5) | (_, 13) | (_, 11) => {
            // starts of what is looked for before it comes
            for _ in 0..rt::w(5) {
                let mut n = rt::w(lit.len() as u32) as usize;
                while !lit.boundary(n) {
                    n -= 1;
                }
                v.push(lit.sub(0, n).b());
                if rt::w(3) == 0 {
                    v.push(word(1, 16).b());
                }
            }
            v.push(lit.b());
        }
        (_, 3) | (_, 4) | (_, 6) => {
            let n = f.set.chars().count();
            for _ in 0..rt::w(12) {
                if let Some(c) = (n > 0).then(|| quiet(|| f.set.chars().nth(rt::w(n as u32) as usize))).flatten() {
                    v.push(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
            }
            v.push(word(1 + rt::w(3) as usize, 16).b());
        }
        (_, 12) => {
            for _ in 0..rt::w(11) {
                v.push(&[b'0' + rt::w(10) as u8]);
            }
            v.push(b";");
        }
        (_, OPS) => {
            let n = rt::w(6) as u8;
            v.push(&[n]);
            for k in 0..n * 3 {
                v.push(&[k ^ 0x81]);
            }
        }
        _ => v = word(1 + rt::w(9) as usize, 16),
    }
    (f, v)
}
pub(super) struct Piece {
    pub(super) b: Q,
    pub(super) kind: u32,
}
pub(super) type Wire = Mailbox<Option<Piece>>;

// ------------------------------------------------------------------ the two ends
/// Sends `all` in pieces; the connection may end early.
pub(super) fn sender(wire: &'static Wire, all: Q, text: bool, cuts: u32) {
    let mut at = 0;
    while at < all.len() {
        if rt::fault(fk::ABANDON, 1) == 1 {
            op!("the connection ends after {} of {} bytes", at, all.len());
            break;
        }
        let left = all.len() - at;
        let mut n = match cuts {
            0 => left,
            1 => 1,
            _ => 1 + rt::pick(fk::SHORT, [3, 17, 60][cuts as usize % 3]) as usize,
        }
        .min(left);
        while text && !all.boundary(at + n) {
            n += 1;
        }
        let b = all.sub(at, at + n);
        at += n;
        op!("{} bytes arrive", n);
        wire.send(Some(Piece { b, kind: rt::pick(fk::OVERWRITE, 7) }));
        for _ in 0..rt::fault(fk::PENDING, 4) {
            rt::yield_now();
        }
    }
    wire.send(None);
}
fn differ(what: &str, f: &Field, s: bool, want: &Res, got: &Res) -> ! {
    fn d(r: &Res) -> String {
        match r {
            Res::Done(a, b) => format!("{} bytes of result, {} left", b.len(), a.len()),
            Res::More(n) => format!("more needed ({n:?})"),
            Res::Bad(r, a, k) => format!("{} {k:?} with {} to come", if *r { "error" } else { "failure" }, a.len()),
        }
    }
    let (a, b) = quiet(|| (d(want), d(got)));
    viol!("parse", "parser {}/{} ({}) over {}: {} where a plain slice gives {}", f.op, f.sub, if s { "streaming" } else { "complete" }, what, b, a)
}
fn same(want: &Res, got: &Res) -> bool {
    quiet(|| match (want, got) {
        (Res::Done(a, b), Res::Done(x, y)) => a.b() == x.b() && b.b() == y.b(),
        // one may ask for less than is needed in the end, never for more
        (Res::More(None), Res::More(n)) => n.is_none_or(|n| n == 1),
        (Res::More(Some(m)), Res::More(n)) => n.is_none_or(|n| n <= *m),
        (Res::Bad(r, a, k), Res::Bad(q, b, l)) => r == q && a.b() == b.b() && k == l,
        _ => false,
    })
}
fn reader<S: Stream>(wire: &'static Wire, fields: &'static [Field], faulty: bool) {
    let mut cur = S::empty();
    // what has arrived and is not used up
    let mut want = Q::new(&[]);
    let mut kept: Vec<(S, Q)> = quiet(|| Vec::with_capacity(8));
    let (mut eof, mut n, mut tries, mut pieces, mut faults) = (false, 0, 0usize, 0usize, 0usize);
    // iterating over characters copies the queue for every one: some streams take a lot of them
    while n < fields.len() && rt::blocks() < 100_000 {
        let f = &fields[n];
        tries += 1;
        if tries > 8 + 2 * (fields.len() + pieces) + faults {
            viol!("progress", "{} attempts for {} fields in {} pieces", tries, fields.len(), pieces);
        }
        // once nothing can come any more, what is there has to do
        let s = !eof && f.sub % 32 != 31;
        op!("parse {}/{} over {}, {} bytes{}", f.op, f.sub, S::NAME, want.len(), if eof { ", the last" } else { "" });
        // copying a queue for every character takes a while
        rt::extend(want.len() * (1 + pieces) / 4);
        let r = {
            let c = &cur;
            // faults stop at some point, and then it has to work
            let live = faults < 12;
            let go = move || run_in(faulty && live, move || c.field(f, s, live));
            if rt::fault(fk::MIGRATE, 1) == 1 {
                elsewhere2(go)
            } else {
                go()
            }
        };
        check_bytes("input after parsing", want.b(), cur.show().b());
        let g = match r {
            Ok(g) => g,
            Err(Unwound::Lib(m)) => viol!("panic", "parser {}/{} over {} of {} bytes panicked: {}", f.op, f.sub, S::NAME, want.len(), m),
            Err(_) => {
                faults += 1;
                continue;
            }
        };
        let w = S::plain(&want, f, s);
        if !same(&w, &g.res) {
            differ(S::NAME, f, s, &w, &g.res);
        }
        rt::state(f.op as u64 | (f.sub as u64) << 8 | (want.len() as u64) << 20 | (s as u64) << 60);
        match (w, g.rest) {
            (Res::Done(rest, out), Some(r)) => {
                if let Some(v) = g.value {
                    if kept.len() < 6 {
                        quiet(|| kept.push((v, out)));
                    } else {
                        drop(v);
                    }
                }
                if kept.len() < 6 && f.sub & 64 != 0 {
                    // the input as it was stays with someone else
                    let c = core::mem::replace(&mut cur, r);
                    let w = core::mem::replace(&mut want, rest);
                    quiet(|| kept.push((c, w)));
                } else {
                    cur = r;
                    want = rest;
                }
                n += 1;
            }
            (Res::More(_), _) => {
                if eof {
                    break;
                }
                let mut k = rt::pick(fk::SHORT, 3);
                let mut p = Some(wire.recv());
                while let Some(x) = p.take() {
                    match x {
                        None => eof = true,
                        Some(x) => {
                            pieces += 1;
                            cur = cur.feed(&x.b, x.kind);
                            want.push(x.b.b());
                        }
                    }
                    if k > 0 && !eof {
                        k -= 1;
                        p = wire.try_recv();
                    }
                }
                check_bytes("what has arrived", want.b(), cur.show().b());
            }
            _ => n += 1,
        }
        if f.sub % 4 == 1 {
            ask(&cur, &want, f, faulty, &mut faults);
        }
    }
    while !eof {
        eof = wire.recv().is_none();
    }
    for (v, w) in kept.iter() {
        check_bytes("a parsed value", w.b(), v.show().b());
    }
    drop(cur);
    while let Some((v, w)) = quiet(|| kept.pop()) {
        drop(v);
        drop(w);
    }
    quiet(|| drop(kept));
}
/// `elsewhere` for results that are not `Send` by themselves.
pub(super) fn elsewhere2<R>(f: impl FnOnce() -> R) -> R {
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    let f = Any(f);
    elsewhere(move || {
        let f = f;
        Any((f.0)())
    })
    .0
}
/// Everything the traits can be asked.
fn ask<S: Stream>(x: &S, want: &Q, f: &Field, faulty: bool, faults: &mut usize) {
    let place = |c: usize| {
        let mut a = at_for(c as u32, want.len());
        while S::TEXT && !want.boundary(a) {
            a -= 1;
        }
        a
    };
    let at = [place(f.sub as usize * 3 + f.k), place(f.k * 5 + f.sub as usize)];
    op!("ask {} of {} bytes", S::NAME, want.len());
    let r = run_in(faulty && *faults < 12, || {
        let g = x.direct(f, at, *faults < 12);
        x.args(want, f);
        g
    });
    match r {
        Ok(g) => {
            let w = S::plain_direct(want, f, at);
            check_bytes("the answers of nom's traits", w.b(), g.b());
        }
        Err(Unwound::Lib(m)) => viol!("panic", "nom's traits over {} of {} bytes panicked: {}", S::NAME, want.len(), m),
        Err(_) => *faults += 1,
    }
    check_bytes("input after questions", want.b(), x.show().b());
}
pub fn c18() {
    let faulty = rt::w(4) == 3;
    rt::profile(if faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nconn = 1 + rt::w(4) as usize / 3;
    let mut joins = quiet(Vec::new);
    let mut ops = 0;
    for k in 0..nconn {
        let kind = rt::w(4);
        let text = kind >= 2;
        let cuts = rt::w(5);
        let mut all = Q::new(&[]);
        let mut fields = quiet(Vec::new);
        while fields.len() < 10 && rt::w(8) != 0 {
            let (f, v) = make_field(text);
            quiet(|| fields.push(f));
            all.push(v.b());
            // sometimes several the same way
            if rt::w(4) == 0 {
                quiet(|| fields.push(f));
                all.push(v.b());
            }
        }
        ops += fields.len();
        let fields: &'static [Field] = quiet(|| Box::leak(fields.into_boxed_slice()));
        let wire: &'static Wire = quiet(|| Box::leak(Box::new(Mailbox::new())));
        let j = quiet(|| rt::spawn(move || sender(wire, all, text, cuts)));
        quiet(|| joins.push(j));
        let read = move || match kind {
            0 => reader::<ByteQueue>(wire, fields, faulty),
            1 => reader::<ByteData>(wire, fields, faulty),
            2 => reader::<StringQueue>(wire, fields, faulty),
            _ => reader::<StringData>(wire, fields, faulty),
        };
        if k + 1 == nconn {
            if ops >= 3 {
                rt::nontrivial();
            }
            read();
        } else {
            let j = quiet(|| rt::spawn(read));
            quiet(|| joins.push(j));
        }
    }
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    check_owners();
}
