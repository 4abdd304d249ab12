//! Deserialising and serialising (C16), and its part of C13 (allocations fail) and C14 (the format panics).
//! The data format is ours: it delivers each item in one of many ways, overwrites its transient buffers, and fails.
use super::common::*;
use crate::model::{self, check_bytes, Q};
use crate::rt::{self, fk, quiet, Mailbox, Unwound};
use bytedata::{ByteData, SharedBytes, StringData};
use core::cell::Cell;
use serde::de::{self, Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};

#[derive(Debug)]
enum E {
    /// injected by the format
    Stream,
    /// made by the library
    Lib,
}
impl core::fmt::Display for E {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: core::fmt::Display>(m: T) -> E {
        // the message must be printable
        let mut b = rt::Buf::<100>::new();
        let _ = core::fmt::Write::write_fmt(&mut b, format_args!("{m}"));
        E::Lib
    }
}
impl ser::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> E {
        E::Lib
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    BorrowedBytes,
    Bytes,
    ByteBuf,
    BorrowedStr,
    Str,
    String,
    Char,
    SeqOfBytes,
    Number,
    Newtype,
}
use Mode::*;
const MODES: [Mode; 16] = [BorrowedBytes, Bytes, ByteBuf, BorrowedStr, Str, String, Bytes, Str, Char, SeqOfBytes, Number, Newtype, ByteBuf, String, Bytes, Str];

struct St {
    panics: bool,
    failed: Cell<bool>,
}
impl St {
    fn trouble(&self) -> Result<(), E> {
        rt::nofault(|| {
            if self.panics && rt::fault_often(fk::CB_PANIC, 1) == 1 {
                rt::inject_panic(600);
            }
            if rt::fault_often(fk::STREAM_ERR, 1) == 1 {
                self.failed.set(true);
                return Err(E::Stream);
            }
            Ok(())
        })
    }
}
/// One item of the stream.
#[derive(Clone, Copy)]
struct De<'de, 't> {
    data: &'de [u8],
    mode: Mode,
    /// how an optional item is shown: 0 as itself, 1 as some, 2 none, 3 unit
    opt: u32,
    st: &'t St,
}
/// A buffer of the format's own: overwritten and gone once the visitor has returned.
struct Tmp(Vec<u8>);
impl Tmp {
    fn new(d: &[u8]) -> Tmp {
        Tmp(rt::nofault(|| d.to_vec()))
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        rt::point();
        self.0.fill(b'!');
    }
}
fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
impl<'de> De<'de, '_> {
    fn deliver<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.st.trouble()?;
        let r = match self.mode {
            BorrowedBytes => v.visit_borrowed_bytes(self.data),
            Bytes => {
                let t = Tmp::new(self.data);
                v.visit_bytes(&t.0)
            }
            ByteBuf => v.visit_byte_buf(rt::nofault(|| {
                let mut x = Vec::with_capacity(self.data.len() + 5);
                x.extend_from_slice(self.data);
                x
            })),
            BorrowedStr => v.visit_borrowed_str(text(self.data)),
            Str => {
                let t = Tmp::new(self.data);
                v.visit_str(text(&t.0))
            }
            String => v.visit_string(rt::nofault(|| text(self.data).to_string())),
            Char => match text(self.data).chars().next() {
                Some(c) => v.visit_char(c),
                None => v.visit_str(""),
            },
            SeqOfBytes => v.visit_seq(Bs { data: self.data, at: 0 }),
            Number => self.something_else(v),
            Newtype => v.visit_newtype_struct(De { mode: Bytes, ..self }),
        }?;
        // the format may find out later that the item was broken
        self.st.trouble()?;
        Ok(r)
    }
}
impl<'de> De<'de, '_> {
    /// An item of a type that is neither bytes nor text.
    fn something_else<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.data.len();
        match n % 17 {
            0 => v.visit_bool(true),
            1 => v.visit_i8(n as i8),
            2 => v.visit_i16(n as i16),
            3 => v.visit_i32(n as i32),
            4 => v.visit_i64(n as i64),
            5 => v.visit_i128(n as i128),
            6 => v.visit_u8(n as u8),
            7 => v.visit_u16(n as u16),
            8 => v.visit_u32(n as u32),
            9 => v.visit_u128(n as u128),
            10 => v.visit_f32(n as f32),
            11 => v.visit_f64(n as f64),
            12 => v.visit_map(Pairs(self)),
            13 => v.visit_enum(Pairs(self)),
            14 => v.visit_some(De { mode: Number, ..De { data: &self.data[..1], ..self } }),
            _ => v.visit_u64(n as u64),
        }
    }
}
/// A map, or a variant, made of the item's bytes.
struct Pairs<'de, 't>(De<'de, 't>);
impl<'de> Pairs<'de, '_> {
    fn take(&mut self) -> Option<De<'de, '_>> {
        let (a, b) = (self.0.data.get(..1)?, &self.0.data[1..]);
        self.0.data = b;
        Some(De { data: a, mode: if a[0] & 1 == 0 { Bytes } else { SeqOfBytes }, ..self.0 })
    }
}
impl<'de> de::MapAccess<'de> for Pairs<'de, '_> {
    type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        self.take().map(|d| s.deserialize(d)).transpose()
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(self.0)
    }
}
impl<'de> de::EnumAccess<'de> for Pairs<'de, '_> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        Ok((s.deserialize(De { mode: Bytes, ..self.0 })?, self))
    }
}
impl<'de> de::VariantAccess<'de> for Pairs<'de, '_> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(De { mode: Bytes, ..self.0 })
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Bs { data: self.0.data, at: 0 })
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_map(self)
    }
}
macro_rules! all_the_same {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            self.deliver(v)
        }
    )*};
}
impl<'de> Deserializer<'de> for De<'de, '_> {
    type Error = E;
    all_the_same!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8
        deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str
        deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier deserialize_ignored_any);
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.opt {
            0 => self.deliver(v),
            1 => {
                self.st.trouble()?;
                let r = v.visit_some(self)?;
                self.st.trouble()?;
                Ok(r)
            }
            2 => v.visit_none(),
            _ => v.visit_unit(),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.deliver(v)
    }
}
/// Bytes as a sequence of numbers.
struct Bs<'a> {
    data: &'a [u8],
    at: usize,
}
impl<'de> de::SeqAccess<'de> for Bs<'_> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        let Some(&b) = self.data.get(self.at) else { return Ok(None) };
        self.at += 1;
        let d: de::value::U8Deserializer<E> = b.into_deserializer();
        s.deserialize(d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        match rt::fault(fk::CB_LIE, 3) {
            0 => None,
            1 => Some(self.data.len() - self.at),
            2 => Some(usize::MAX),
            _ => Some(usize::MAX / 2),
        }
    }
}
/// A sequence of items.
struct Items<'de, 't> {
    items: &'t [(Mode, usize, usize)],
    src: &'de [u8],
    at: usize,
    st: &'t St,
}
impl<'de> de::SeqAccess<'de> for Items<'de, '_> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.st.trouble()?;
        let Some(&(mode, a, b)) = self.items.get(self.at) else { return Ok(None) };
        self.at += 1;
        s.deserialize(De { data: &self.src[a..b], mode, opt: 1, st: self.st }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        let n = self.items.len() - self.at;
        match rt::fault_often(fk::CB_LIE, 6) {
            0 => Some(n),
            1 => None,
            2 => Some(0),
            3 => Some(n + 7),
            4 => Some(usize::MAX),
            5 => Some(usize::MAX / 8),
            _ => Some(n / 2),
        }
    }
}
struct SeqDe<'de, 't>(Items<'de, 't>);
macro_rules! all_seq {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            self.go(v)
        }
    )*};
}
impl<'de> SeqDe<'de, '_> {
    fn go<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let st = self.0.st;
        st.trouble()?;
        let r = v.visit_seq(self.0)?;
        st.trouble()?;
        Ok(r)
    }
}
impl<'de> Deserializer<'de> for SeqDe<'de, '_> {
    type Error = E;
    all_seq!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8
        deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str
        deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier deserialize_ignored_any deserialize_option);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.go(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.go(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        self.go(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        self.go(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.go(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.go(v)
    }
}

/// What the library serialised.
struct Ser<'a> {
    out: &'a Cell<Option<Q>>,
    text: bool,
    st: &'a St,
}
macro_rules! no_ser {
    ($($f:ident: $t:ty),*) => {$(
        fn $f(self, _: $t) -> Result<(), E> {
            viol!("serialise", "bytes were not serialised as bytes or text")
        }
    )*};
}
impl Serializer for Ser<'_> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    no_ser!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
        serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char);
    fn serialize_str(self, v: &str) -> Result<(), E> {
        if !self.text {
            viol!("serialise", "bytes were serialised as text");
        }
        self.st.trouble()?;
        rt::check_read(v.as_bytes());
        self.out.set(Some(Q::new(v.as_bytes())));
        self.st.trouble()
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        if self.text {
            viol!("serialise", "text was serialised as bytes");
        }
        self.st.trouble()?;
        rt::check_read(v);
        self.out.set(Some(Q::new(v)));
        self.st.trouble()
    }
    fn serialize_none(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        viol!("serialise", "bytes were not serialised as bytes or text")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        self.serialize_unit()
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Impossible<(), E>, E> {
        viol!("serialise", "bytes were not serialised as bytes or text")
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        self.serialize_seq(None)
    }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), E> {
        self.serialize_unit()
    }
}

// ------------------------------------------------------------------ values
enum Val<'a> {
    B(ByteData<'a>),
    T(StringData<'a>),
    S(SharedBytes),
}
impl<'a> Val<'a> {
    fn b(&self) -> &[u8] {
        match self {
            Val::B(x) => x.as_slice(),
            Val::T(x) => x.as_bytes(),
            Val::S(x) => x.as_slice(),
        }
    }
    fn check(&self, want: &Q) {
        check_bytes("deserialised value", want.b(), self.b());
        rt::state(want.len() as u64 | 1 << 40);
    }
    fn keep(self) -> Val<'static> {
        match self {
            Val::B(x) => Val::B(x.into_shared()),
            Val::T(x) => Val::T(x.into_shared()),
            Val::S(x) => Val::S(x),
        }
    }
}
/// What came out of a stream: `None` for an optional value that is absent.
type Vals<'a> = Vec<Option<Val<'a>>>;

struct Cfg {
    faulty: bool,
    panics: bool,
    max_threads: usize,
    max_ops: usize,
}
#[derive(Clone, Copy)]
struct Op {
    k: u32,
    c: [u32; 4],
    m: [u32; 4],
}
struct M {
    cfg: &'static Cfg,
    v: Vec<(Val<'static>, Q)>,
    boxes: &'static [Mailbox<(Val<'static>, Q)>],
}
const TARGETS: [&str; 14] = [
    "ByteData", "static ByteData", "StringData", "static StringData", "SharedBytes", "optional static ByteData", "optional static StringData",
    "static ByteDatas", "static StringDatas", "Option<ByteData>", "Vec<ByteData>", "Vec<SharedBytes>", "Option<StringData>", "Vec<StringData>",
];
fn is_vec(t: usize) -> bool {
    matches!(t, 7 | 8 | 10 | 11 | 13)
}
fn is_opt(t: usize) -> bool {
    matches!(t, 5 | 6 | 9 | 12)
}
fn is_text(t: usize) -> bool {
    matches!(t, 2 | 3 | 6 | 8 | 12 | 13)
}
fn is_static(t: usize) -> bool {
    matches!(t, 1 | 3..=8 | 11)
}
fn gather<'a, T>(v: Vec<T>, f: impl Fn(T) -> Val<'a>) -> Vals<'a> {
    rt::nofault(|| {
        let mut r = quiet(|| Vec::with_capacity(v.len()));
        for x in v {
            let x = f(x);
            quiet(|| r.push(Some(x)));
        }
        r
    })
}
fn one<'a>(v: Option<Val<'a>>) -> Vals<'a> {
    quiet(|| vec![v])
}
fn read<'de>(t: usize, d: De<'de, '_>, items: &[(Mode, usize, usize)], src: &'de [u8]) -> Result<Vals<'de>, E> {
    let st = d.st;
    let seq = || SeqDe(Items { items, src, at: 0, st });
    Ok(match t {
        0 => one(Some(Val::B(ByteData::deserialize(d)?))),
        1 => one(Some(Val::B(ByteData::deserialize_static(d)?))),
        2 => one(Some(Val::T(StringData::deserialize(d)?))),
        3 => one(Some(Val::T(StringData::deserialize_static(d)?))),
        4 => one(Some(Val::S(SharedBytes::deserialize(d)?))),
        5 => one(ByteData::deserialize_static_opt(d)?.map(Val::B)),
        6 => one(StringData::deserialize_static_opt(d)?.map(Val::T)),
        7 => gather(ByteData::deserialize_static_vec(seq())?, Val::B),
        8 => gather(StringData::deserialize_static_vec(seq())?, Val::T),
        9 => one(Option::<ByteData<'de>>::deserialize(d)?.map(Val::B)),
        10 => gather(Vec::<ByteData<'de>>::deserialize(seq())?, Val::B),
        11 => gather(Vec::<SharedBytes>::deserialize(seq())?, Val::S),
        12 => one(Option::<StringData<'de>>::deserialize(d)?.map(Val::T)),
        _ => gather(Vec::<StringData<'de>>::deserialize(seq())?, Val::T),
    })
}
/// Whether this way of delivering has to be understood.
fn must(t: usize, m: Mode) -> bool {
    match m {
        BorrowedBytes | Bytes | ByteBuf => !is_text(t),
        BorrowedStr | Str | String | Char => is_text(t),
        SeqOfBytes | Number | Newtype => false,
    }
}
impl M {
    fn add(&mut self, v: Val<'static>, q: Q) {
        if self.v.len() >= 8 {
            let x = quiet(|| self.v.remove(0));
            x.0.check(&x.1);
            drop(x);
        }
        quiet(|| self.v.push((v, q)));
    }
    fn deserialise(&mut self, o: &Op) {
        let t = o.c[0] as usize % TARGETS.len();
        let n = if is_vec(t) { o.c[1] as usize % 5 } else { 1 };
        let opt = if is_opt(t) { (o.c[1] >> 4) % 4 } else { 1 };
        // what is to be delivered
        let mut wants: Vec<Q> = quiet(Vec::new);
        let mut items: Vec<(Mode, usize, usize)> = quiet(Vec::new);
        let mut src = quiet(Vec::new);
        quiet(|| {
            for i in 0..n {
                let m = o.m[i % 4];
                // mostly ways that suit the target
                let mut mode = MODES[m as usize % 16];
                if (m >> 9) % 4 != 3 && !must(t, mode) {
                    mode = if is_text(t) { [BorrowedStr, Str, String][m as usize % 3] } else { [BorrowedBytes, Bytes, ByteBuf][m as usize % 3] };
                }
                let len = rare_len(m ^ (o.c[0] & 15)).unwrap_or_else(|| len_for(m >> 4));
                let tag = next_tag();
                let mut q = if is_text(t) || matches!(mode, BorrowedStr | Str | String | Char) { model::gen_text(tag, len) } else { model::gen_bytes(tag, len) };
                if is_text(t) && !must(t, mode) && m & 1 != 0 {
                    q = model::gen_bytes(tag, len);
                    if matches!(mode, BorrowedStr | Str | String | Char) {
                        q = model::gen_text(tag, len);
                    }
                }
                if mode == Char {
                    let l = q.s().chars().next().map_or(0, |c| c.len_utf8());
                    q = q.sub(0, l);
                }
                let a = src.len();
                src.extend_from_slice(q.b());
                items.push((mode, a, src.len()));
                wants.push(q);
            }
        });
        op!("deserialise {}: {} items, {:?} of {} bytes, optional form {}", TARGETS[t], n, items.first().map(|x| x.0), src.len(), opt);
        let mut srcb: Box<[u8]> = rt::nofault(|| src.clone().into_boxed_slice());
        quiet(|| drop(src));
        let st = St { panics: self.cfg.panics, failed: Cell::new(false) };
        let understood = match t {
            _ if is_opt(t) && opt >= 2 => true,
            9 | 12 if opt == 0 => false,
            _ => items.iter().all(|x| must(t, x.0)),
        };
        let mut kept: Vals<'static> = quiet(Vec::new);
        {
        let r = {
            let d = match items.first() {
                Some(&(mode, a, b)) => De { data: &srcb[a..b], mode, opt, st: &st },
                None => De { data: &srcb[..], mode: Bytes, opt, st: &st },
            };
            run_in(self.cfg.faulty, || read(t, d, &items, &srcb))
        };
        match r {
            Ok(Ok(v)) => {
                if st.failed.get() {
                    viol!("stream-error", "the stream failed, and {} was deserialised from it all the same", TARGETS[t]);
                }
                if v.len() != n {
                    viol!("content", "{} items were delivered and {} deserialised", n, v.len());
                }
                let absent = is_opt(t) && opt >= 2;
                for (i, x) in quiet(|| v.into_iter().collect::<Vec<_>>()).into_iter().enumerate() {
                    match x {
                        None if absent => {}
                        None => viol!("content", "an optional value was delivered and none deserialised"),
                        Some(_) if absent => viol!("content", "no value was delivered and one deserialised"),
                        Some(x) => {
                            if items[i].0 == Number {
                                viol!("content", "a number was deserialised as bytes");
                            }
                            if is_text(t) && !wants[i].is_text() {
                                viol!("utf8", "bytes that are not text were deserialised as text");
                            }
                            x.check(&wants[i]);
                            if !is_static(t) {
                                let Some(x) = must_in(self.cfg.faulty, || x.keep()) else { continue };
                                quiet(|| kept.push(Some(x)));
                            } else {
                                // static in fact, the type only says otherwise here
                                let x: Val<'static> = unsafe { core::mem::transmute(x) };
                                quiet(|| kept.push(Some(x)));
                            }
                            continue;
                        }
                    }
                }
            }
            Ok(Err(E::Stream)) => {
                if !st.failed.get() {
                    viol!("stream-error", "a stream error appeared from nowhere");
                }
            }
            Ok(Err(E::Lib)) => {
                if st.failed.get() {
                    viol!("stream-error", "the error of the stream was replaced by another");
                }
                if understood {
                    viol!("refused", "{} refused to be deserialised from {:?}", TARGETS[t], items.first().map(|x| x.0));
                }
            }
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {}
        }
        }
        // the stream's data go away
        srcb.fill(b'!');
        drop(srcb);
        rt::point();
        let whole = kept.len() == n;
        for (i, x) in quiet(|| core::mem::take(&mut kept).into_iter().collect::<Vec<_>>()).into_iter().enumerate() {
            if let Some(x) = x {
                if !whole {
                    continue;
                }
                x.check(&wants[i]);
                let w = wants[i].clone();
                self.add(x, w);
            }
        }
        quiet(|| drop((wants, items)));
    }
    fn serialise(&mut self, o: &Op) {
        if self.v.is_empty() {
            return self.source(o);
        }
        let i = o.c[0] as usize % self.v.len();
        let (v, w) = &self.v[i];
        op!("serialise {} bytes", w.len());
        let st = St { panics: self.cfg.panics, failed: Cell::new(false) };
        let out = Cell::new(None);
        let s = Ser { out: &out, text: matches!(v, Val::T(_)), st: &st };
        let r = run_in(self.cfg.faulty, || match (v, o.c[1] % 2) {
            (Val::B(x), 0) => x.serialize(s),
            (Val::B(x), _) => Some(x).serialize(s),
            (Val::T(x), 0) => x.serialize(s),
            (Val::T(x), _) => Some(x).serialize(s),
            (Val::S(x), 0) => x.serialize(s),
            (Val::S(x), _) => Some(x).serialize(s),
        });
        match r {
            Ok(Ok(())) => {
                if st.failed.get() {
                    viol!("stream-error", "the format refused the value and serialising succeeded");
                }
                match out.take() {
                    Some(q) => check_bytes("serialised bytes", w.b(), q.b()),
                    None => viol!("serialise", "nothing was serialised"),
                }
            }
            Ok(Err(E::Stream)) if st.failed.get() => {}
            Ok(Err(_)) => viol!("serialise", "serialising failed"),
            Err(Unwound::Lib(m)) => viol!("panic", "unexpected panic: {}", m),
            Err(_) => {}
        }
        drop(out.take());
        v.check(w);
    }
    /// A value that was not deserialised.
    fn source(&mut self, o: &Op) {
        let w = model::gen_text(next_tag(), len_for(o.m[0]));
        let n = w.len();
        op!("a value of {} bytes, kind {}", n, o.c[1] % 6);
        let v = match o.c[1] % 6 {
            0 => Val::S(SharedBytes::from(w.b())),
            1 => Val::B(ByteData::from_external(OwnerS::make(w.b(), NICE, ()))),
            2 => Val::T(StringData::from_owned(rt::nofault(|| w.s().to_string()))),
            3 => Val::B(ByteData::from_static(leak_static(&w))),
            4 => {
                let s = SharedBytes::from(w.b());
                let a = n / 3;
                let d = ByteData::from_shared(s).into_sliced(a..n);
                let q = w.sub(a, n);
                return self.add(Val::B(d), q);
            }
            _ => Val::B(ByteData::from_owned(rt::nofault(|| w.b().to_vec()))),
        };
        self.add(v, w);
    }
    fn step(&mut self, o: &Op) {
        match o.k % 8 {
            0..=4 => self.deserialise(o),
            5 => self.serialise(o),
            6 => {
                if self.v.is_empty() {
                    return self.source(o);
                }
                let x = quiet(|| self.v.remove(o.c[0] as usize % self.v.len()));
                let to = (rt::tid() as usize + 1 + o.c[1] as usize) % self.boxes.len();
                op!("send a value of {} bytes to T{}", x.1.len(), to);
                self.boxes[to].send(x);
            }
            _ => {
                op!("receive a value");
                match self.boxes[rt::tid() as usize].try_recv() {
                    Some((v, q)) => {
                        v.check(&q);
                        self.add(v, q);
                    }
                    None => self.source(o),
                }
            }
        }
    }
    fn finish(mut self) {
        while let Some((v, q)) = quiet(|| self.v.pop()) {
            v.check(&q);
            drop(v);
        }
        quiet(|| drop(core::mem::take(&mut self.v)));
    }
}
fn program(cfg: &Cfg) -> Vec<Op> {
    quiet(|| {
        let mut v = Vec::new();
        while v.len() < cfg.max_ops * 2 && rt::w(cfg.max_ops as u32 + 1) != 0 {
            v.push(Op {
                k: rt::w(16),
                c: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(256)],
                m: [rt::w(4096), rt::w(4096), rt::w(4096), rt::w(4096)],
            });
        }
        v
    })
}
fn streams(cfg: &'static Cfg) {
    rt::profile(if cfg.faulty { rt::PF_ALLOC } else { 0 } | rt::PF_GEN);
    let nthr = 1 + rt::w(cfg.max_threads as u32) as usize;
    let mut progs: Vec<Vec<Op>> = quiet(|| (0..nthr).map(|_| program(cfg)).collect());
    if quiet(|| progs.iter().map(|p| p.len()).sum::<usize>() >= 4) {
        rt::nontrivial();
    }
    let boxes: &'static [Mailbox<(Val<'static>, Q)>] = quiet(|| Box::leak((0..nthr).map(|_| Mailbox::new()).collect::<Vec<_>>().into_boxed_slice()));
    let mut joins = quiet(Vec::new);
    for p in quiet(|| progs.drain(1..).collect::<Vec<_>>()) {
        let mut mm = M { cfg, v: quiet(|| Vec::with_capacity(10)), boxes };
        let j = quiet(|| {
            rt::spawn(move || {
                for o in &p {
                    mm.step(o);
                }
                quiet(|| drop(p));
                mm.finish();
            })
        });
        quiet(|| joins.push(j));
    }
    let mut m = M { cfg, v: quiet(|| Vec::with_capacity(10)), boxes };
    let p0 = quiet(|| progs.pop().unwrap_or_default());
    for o in &p0 {
        m.step(o);
    }
    m.finish();
    for j in quiet(|| core::mem::take(&mut joins)) {
        j.join();
    }
    for b in boxes {
        while let Some((v, q)) = b.try_recv() {
            v.check(&q);
            drop(v);
        }
    }
    quiet(|| {
        drop(p0);
        drop(progs);
    });
    check_owners();
}
static C16: Cfg = Cfg { faulty: false, panics: false, max_threads: 2, max_ops: 12 };
pub fn c16() {
    streams(&C16)
}
static C13: Cfg = Cfg { faulty: true, panics: false, max_threads: 2, max_ops: 12 };
pub fn c13() {
    streams(&C13)
}
static C14: Cfg = Cfg { faulty: false, panics: true, max_threads: 2, max_ops: 12 };
pub fn c14() {
    streams(&C14)
}
