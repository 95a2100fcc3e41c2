//! Simulated disk transfers, a recording serializer and a scripted deserializer.

use crate::ctx::*;
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Impossible};
use std::fmt;
use std::io;

// ---------------------------------------------------------------- byte streams

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IoFault {
    None,
    /// An error once `at` bytes were transferred.
    Err,
    /// The disk is full: a write transfers nothing; a read hits the end early.
    Full,
    /// One EINTR.
    Intr,
    /// The process dies (unwinds) at this byte.
    Crash,
}

pub struct SimWriter {
    pub buf: Vec<u8>,
    pub fault: IoFault,
    pub at: usize,
    /// At most this many bytes per call (short writes), 0: unlimited.
    pub chunk: usize,
    pub fired: bool,
    pub writes_after_fail: u32,
}

impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        hook(Site::Write);
        user(|| {
            if b.is_empty() {
                return Ok(0);
            }
            if self.fired && matches!(self.fault, IoFault::Err | IoFault::Full) {
                self.writes_after_fail += 1;
                return Err(io::Error::other("sim: disk is gone"));
            }
            let mut n = b.len();
            if self.chunk != 0 {
                n = n.min(self.chunk);
            }
            if self.fault != IoFault::None && !self.fired && self.buf.len() + n > self.at {
                let room = self.at.saturating_sub(self.buf.len());
                if room == 0 {
                    self.fired = true;
                    match self.fault {
                        IoFault::Err => return Err(io::Error::other("sim: write error")),
                        IoFault::Full => return Ok(0),
                        IoFault::Intr => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                        _ => std::panic::panic_any(SimFault),
                    }
                }
                n = room;
            }
            self.buf.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct SimReader<'a> {
    pub bytes: &'a [u8],
    pub pos: usize,
    pub fault: IoFault,
    pub at: usize,
    pub chunk: usize,
    pub fired: bool,
    /// Count towards scheduling points (false for the reference decoder).
    pub live: bool,
}

impl io::Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.live {
            hook(Site::Read);
        }
        user(|| {
            if b.is_empty() {
                return Ok(0);
            }
            let mut n = b.len().min(self.bytes.len() - self.pos);
            if self.chunk != 0 {
                n = n.min(self.chunk);
            }
            if self.fault != IoFault::None && self.pos + n >= self.at {
                let room = self.at.saturating_sub(self.pos);
                if room == 0 {
                    let first = !std::mem::replace(&mut self.fired, true);
                    match self.fault {
                        IoFault::Err => return Err(io::Error::other("sim: read error")),
                        IoFault::Full => return Ok(0),
                        IoFault::Intr if first => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                        IoFault::Intr => {}
                        _ if first && self.live => std::panic::panic_any(SimFault),
                        _ => return Err(io::Error::other("sim: read error")),
                    }
                } else {
                    n = n.min(room);
                }
            }
            b[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

/// A text sink that fails at the n-th write (1-based; 0: never).
pub struct Sink {
    pub out: String,
    pub fail_at: u32,
    pub calls: u32,
    pub failed: bool,
    pub after: u32,
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        user(|| {
            self.calls += 1;
            if self.failed {
                self.after += 1;
            }
            if self.calls == self.fail_at {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.out.push_str(s);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- recording serializer

#[derive(Debug)]
pub struct SimErr(pub String);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        user(|| SimErr(m.to_string()))
    }
}
impl de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        user(|| SimErr(m.to_string()))
    }
}

/// Records the calls a container makes on its serializer, and fails the n-th of them.
#[derive(Default)]
pub struct Rec {
    pub calls: u32,
    pub fail_at: u32,
    pub failed: bool,
    pub after_fail: u32,
    pub starts: Vec<(char, Option<usize>)>,
    pub items: Vec<(String, Option<String>)>,
    pub pending: Option<String>,
    pub protocol: Vec<&'static str>,
    pub ended: u32,
}

impl Rec {
    fn call(&mut self) -> Result<(), SimErr> {
        self.calls += 1;
        if self.failed {
            self.after_fail += 1;
        }
        if self.ended > 0 {
            user(|| self.protocol.push("call after end"));
        }
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(user(|| SimErr("sim: sink failed".into())));
        }
        Ok(())
    }
}

macro_rules! no_ser {
    ($($f:ident($($t:ty),*) $(-> $r:ty)?;)*) => {$(
        fn $f(self, $(_: $t),*) -> no_ser!(@ret $($r)?) {
            Err(user(|| SimErr(concat!("unexpected ", stringify!($f)).into())))
        }
    )*};
    (@ret) => { Result<Self::Ok, SimErr> };
    (@ret $r:ty) => { Result<$r, SimErr> };
}

impl<'a> ser::Serializer for &'a mut Rec {
    type Ok = ();
    type Error = SimErr;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = Impossible<(), SimErr>;
    type SerializeTupleStruct = Impossible<(), SimErr>;
    type SerializeTupleVariant = Impossible<(), SimErr>;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = Impossible<(), SimErr>;
    type SerializeStructVariant = Impossible<(), SimErr>;
    no_ser! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        serialize_tuple(usize) -> Self::SerializeTuple;
        serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_struct(&'static str, usize) -> Self::SerializeStruct;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
    fn serialize_some<T: ser::Serialize + ?Sized>(self, _: &T) -> Result<(), SimErr> {
        Err(user(|| SimErr("unexpected some".into())))
    }
    fn serialize_newtype_struct<T: ser::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ser::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SimErr> {
        Err(user(|| SimErr("unexpected newtype variant".into())))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq<'a>, SimErr> {
        self.call()?;
        user(|| self.starts.push(('s', n)));
        Ok(RecSeq(self))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap<'a>, SimErr> {
        self.call()?;
        user(|| self.starts.push(('m', n)));
        Ok(RecMap(self))
    }
}

pub struct RecSeq<'a>(&'a mut Rec);
impl ser::SerializeSeq for RecSeq<'_> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_element<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.0.call()?;
        let s = v.serialize(Scalar)?;
        user(|| self.0.items.push((s, None)));
        Ok(())
    }
    fn end(self) -> Result<(), SimErr> {
        self.0.call()?;
        self.0.ended += 1;
        Ok(())
    }
}

pub struct RecMap<'a>(&'a mut Rec);
impl ser::SerializeMap for RecMap<'_> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_key<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.0.call()?;
        let s = v.serialize(Scalar)?;
        if self.0.pending.replace(s).is_some() {
            user(|| self.0.protocol.push("key without value"));
        }
        Ok(())
    }
    fn serialize_value<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.0.call()?;
        let s = v.serialize(Scalar)?;
        user(|| match self.0.pending.take() {
            Some(k) => self.0.items.push((k, Some(s))),
            None => self.0.protocol.push("value without key"),
        });
        Ok(())
    }
    fn end(self) -> Result<(), SimErr> {
        self.0.call()?;
        if self.0.pending.is_some() {
            user(|| self.0.protocol.push("end after a key"));
        }
        self.0.ended += 1;
        Ok(())
    }
}

/// Textual form of a key or value.
pub struct Scalar;
macro_rules! scalar {
    ($($f:ident($t:ty);)*) => {$(
        fn $f(self, v: $t) -> Result<String, SimErr> {
            Ok(user(|| format!("{:?}", v)))
        }
    )*};
}
impl ser::Serializer for Scalar {
    type Ok = String;
    type Error = SimErr;
    type SerializeSeq = Impossible<String, SimErr>;
    type SerializeTuple = Impossible<String, SimErr>;
    type SerializeTupleStruct = Impossible<String, SimErr>;
    type SerializeTupleVariant = Impossible<String, SimErr>;
    type SerializeMap = Impossible<String, SimErr>;
    type SerializeStruct = Impossible<String, SimErr>;
    type SerializeStructVariant = Impossible<String, SimErr>;
    scalar! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_i128(i128);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_u128(u128); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
    }
    fn serialize_none(self) -> Result<String, SimErr> {
        Ok(user(|| "None".into()))
    }
    fn serialize_unit(self) -> Result<String, SimErr> {
        Ok(user(|| "()".into()))
    }
    fn serialize_some<T: ser::Serialize + ?Sized>(self, v: &T) -> Result<String, SimErr> {
        let s = v.serialize(Scalar)?;
        Ok(user(|| format!("Some({s})")))
    }
    fn serialize_newtype_struct<T: ser::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<String, SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ser::Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<String, SimErr> {
        let s = v.serialize(Scalar)?;
        Ok(user(|| format!("{n}({s})")))
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<String, SimErr> {
        Ok(user(|| n.into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<String, SimErr> {
        Ok(user(|| n.into()))
    }
    no_ser! {
        serialize_seq(Option<usize>) -> Self::SerializeSeq;
        serialize_map(Option<usize>) -> Self::SerializeMap;
        serialize_tuple(usize) -> Self::SerializeTuple;
        serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_struct(&'static str, usize) -> Self::SerializeStruct;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
}

// ---------------------------------------------------------------- scripted deserializer

/// What the input turns out to be.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Map,
    Seq,
    Unit,
    Str,
}

/// Delivers the encoded keys and payloads of a script, failing at the n-th access call.
pub struct Script {
    /// (key as bincode bytes, payload)
    pub items: Vec<(Vec<u8>, i32)>,
    pub hint: Option<usize>,
    pub fail_at: u32,
    pub shape: Shape,
    pub calls: u32,
    pub failed: bool,
    pub after_fail: u32,
    pub pos: usize,
    pub ended: bool,
    pub used: u32,
}

impl Script {
    fn call(&mut self) -> Result<(), SimErr> {
        self.calls += 1;
        if self.failed {
            self.after_fail += 1;
        }
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(user(|| SimErr("sim: source failed".into())));
        }
        Ok(())
    }
}

pub struct ScriptDe<'a>(pub &'a mut Script);

macro_rules! script_de {
    ($($f:ident($($t:ty),*);)*) => {$(
        fn $f<V: Visitor<'de>>(self, $(_: $t,)* v: V) -> Result<V::Value, SimErr> {
            self.deserialize_any(v)
        }
    )*};
}

impl<'de> de::Deserializer<'de> for ScriptDe<'_> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.0.used += 1;
        match self.0.shape {
            Shape::Map => v.visit_map(ScriptMap(self.0)),
            Shape::Seq => v.visit_seq(ScriptSeq(self.0)),
            Shape::Unit => v.visit_unit(),
            Shape::Str => v.visit_str("neither map nor sequence"),
        }
    }
    script_de! {
        deserialize_bool(); deserialize_i8(); deserialize_i16(); deserialize_i32(); deserialize_i64();
        deserialize_u8(); deserialize_u16(); deserialize_u32(); deserialize_u64(); deserialize_f32(); deserialize_f64();
        deserialize_char(); deserialize_str(); deserialize_string(); deserialize_bytes(); deserialize_byte_buf();
        deserialize_option(); deserialize_unit(); deserialize_unit_struct(&'static str); deserialize_newtype_struct(&'static str);
        deserialize_seq(); deserialize_tuple(usize); deserialize_tuple_struct(&'static str, usize); deserialize_map();
        deserialize_struct(&'static str, &'static [&'static str]); deserialize_enum(&'static str, &'static [&'static str]);
        deserialize_identifier(); deserialize_ignored_any();
    }
}

fn key_from<'x, T: DeserializeSeed<'x>>(seed: T, bytes: &'x [u8]) -> Result<T::Value, SimErr> {
    let mut d = bincode::Deserializer::from_slice(bytes, bincode_opts());
    seed.deserialize(&mut d).map_err(|e| user(|| SimErr(e.to_string())))
}

pub fn bincode_opts() -> impl bincode::Options {
    use bincode::Options;
    bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes()
}

struct ScriptMap<'a>(&'a mut Script);
impl<'de> de::MapAccess<'de> for ScriptMap<'_> {
    type Error = SimErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.0.call()?;
        hook(Site::Source);
        let s = &mut *self.0;
        if s.pos >= s.items.len() {
            s.ended = true;
            return Ok(None);
        }
        // The bytes outlive the run: scripts are tiny.
        let b: &'static [u8] = user(|| leak(&s.items[s.pos].0));
        key_from(seed, b).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SimErr> {
        self.0.call()?;
        let s = &mut *self.0;
        let p = s.items[s.pos].1;
        s.pos += 1;
        use de::IntoDeserializer;
        let d: de::value::I32Deserializer<SimErr> = p.into_deserializer();
        seed.deserialize(d)
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.hint
    }
}

struct ScriptSeq<'a>(&'a mut Script);
impl<'de> de::SeqAccess<'de> for ScriptSeq<'_> {
    type Error = SimErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, SimErr> {
        self.0.call()?;
        hook(Site::Source);
        let s = &mut *self.0;
        if s.pos >= s.items.len() {
            s.ended = true;
            return Ok(None);
        }
        s.pos += 1;
        let b: &'static [u8] = user(|| leak(&s.items[s.pos - 1].0));
        key_from(seed, b).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.hint
    }
}

/// Interned so that repeated runs do not grow.
fn leak(b: &[u8]) -> &'static [u8] {
    use std::cell::RefCell;
    use std::collections::BTreeSet;
    thread_local!(static S: RefCell<BTreeSet<&'static [u8]>> = const { RefCell::new(BTreeSet::new()) });
    S.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(x) = s.get(b) {
            return *x;
        }
        let x: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        s.insert(x);
        x
    })
}
