//! Object-safe views of `Map<K, Tok>` and `Set<K>` over universe indexes, so that one engine drives every key shape.
//!
//! Every call into the code under test happens inside `real`, every callback and every allocation of the simulator
//! inside `user`.

use crate::ctx::*;
use crate::io::*;
use std::any::Any;
use std::cmp::Ordering;
use std::fmt;

pub const NOKEY: usize = usize::MAX - 1;

pub enum Val<'a> {
    None,
    Ref(&'a Tok),
    Mut(&'a mut Tok),
    Own(Tok),
}

pub struct Item<'a> {
    pub key: usize,
    pub val: Val<'a>,
}

pub trait DIter<'a> {
    fn next(&mut self) -> Option<Item<'a>>;
    fn nth(&mut self, n: usize) -> Option<Item<'a>>;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    /// The last item (`way` 0 to 2), or the first of the rest (3), by one of four consumers.
    fn last(self: Box<Self>, way: u32) -> Option<Item<'a>>;
    /// Visit the rest, by one of three consumers.
    fn fold(self: Box<Self>, way: u32, f: &mut dyn FnMut(Item<'a>));
    /// First item (from the front) accepted by `f`, by one of four consumers.
    fn find(&mut self, way: u32, f: &mut dyn FnMut(&Item<'a>) -> bool) -> Option<Item<'a>>;
    fn forget(self: Box<Self>);
    fn both_ends(&self) -> bool {
        false
    }
    fn next_back(&mut self) -> Option<Item<'a>> {
        unreachable!()
    }
    fn nth_back(&mut self, _: usize) -> Option<Item<'a>> {
        unreachable!()
    }
    fn rfold(self: Box<Self>, _: &mut dyn FnMut(Item<'a>)) {
        unreachable!()
    }
    fn rfind(&mut self, _: &mut dyn FnMut(&Item<'a>) -> bool) -> Option<Item<'a>> {
        unreachable!()
    }
    fn exact(&self) -> Option<usize> {
        None
    }
    fn dup(&self) -> Option<Box<dyn DIter<'a> + 'a>> {
        None
    }
    /// Debug form, for iterators that have one.
    fn debug(&self, _: &mut Sink, _: u8) -> Option<fmt::Result> {
        None
    }
}

pub type BIter<'a> = Box<dyn DIter<'a> + 'a>;

/// Format with one of the flag combinations `Formatter` passes on to entries.
#[macro_export]
macro_rules! styled {
    ($style:expr, $t:expr, $call:ident, $($to:expr)?) => {
        match $style {
            1 => $call!($($to,)? "{:#?}", $t),
            2 => $call!($($to,)? "{:x?}", $t),
            3 => $call!($($to,)? "{:#X?}", $t),
            4 => $call!($($to,)? "{:+9?}", $t),
            5 => $call!($($to,)? "{:#07?}", $t),
            6 => $call!($($to,)? "{:.1?}", $t),
            7 => $call!($($to,)? "{:*^#12.3?}", $t),
            _ => $call!($($to,)? "{:?}", $t),
        }
    };
}

pub fn debug_to<T: fmt::Debug + ?Sized>(t: &T, s: &mut Sink, style: u8) -> fmt::Result {
    use fmt::Write;
    real(|| styled!(style, t, write, s))
}

// ---------------------------------------------------------------- the container

pub const IT_ITER: u8 = 0;
pub const IT_KEYS: u8 = 1;
pub const IT_VALUES: u8 = 2;
pub const IT_REF: u8 = 3;
pub const NIT: u8 = 4;

pub enum Old {
    Val(Option<Tok>),
    Flag(bool),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CmpOut {
    pub partial: Option<Ordering>,
    pub total: Option<Ordering>,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
}

#[derive(Default, Debug)]
pub struct EntryOut {
    pub occupied: Option<bool>,
    pub keys: Vec<usize>,
    /// Values seen through the handle, in order.
    pub seen: Vec<(u64, i32)>,
    pub make_calls: u32,
    pub make_key: Vec<usize>,
    pub mod_calls: u32,
    pub made: Option<u64>,
    /// Payload last written through a reference.
    pub wrote: Option<i32>,
    pub gone: Option<u64>,
}

pub const HOWS: &[&str] = &[
    "or_insert",
    "or_insert_with",
    "or_insert_with_key",
    "or_default",
    "and_modify.or_insert",
    "and_modify",
    "and_modify.and_modify.or_insert_with_key",
    "key",
    "o.get|v.key",
    "o.get_mut|v.insert",
    "o.insert|v.insert",
    "o.into_mut|v.drop",
    "o.insert.remove|v.key.insert",
    "o.remove|v.drop",
    "forget",
    "o.get_mut.remove|v.insert",
    "o.insert.get.insert|v.drop",
    "and_modify.or_default",
];

pub trait Con: Any {
    fn is_map(&self) -> bool;
    fn insert(&mut self, k: usize, v: Option<Tok>) -> Old;
    fn remove(&mut self, k: usize) -> Old;
    fn contains(&self, k: usize) -> bool;
    fn get(&self, k: usize) -> Option<&Tok>;
    fn get_mut(&mut self, k: usize) -> Option<&mut Tok>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(usize, Option<&mut Tok>) -> bool);
    fn dup(&self) -> Box<dyn Con>;
    fn dup_from(&mut self, o: &dyn Con);
    fn equal(&self, o: &dyn Con, ne: bool) -> bool;
    fn compare(&self, o: &dyn Con, which: u8) -> Option<CmpOut>;
    fn hash(&self) -> Option<u64>;
    /// `max` (0) or `min` (1) with one operand, `clamp` with two.
    fn pick(self: Box<Self>, o: Vec<Box<dyn Con>>, which: u8) -> Option<Box<dyn Con>>;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn debug(&self, s: &mut Sink, style: u8) -> fmt::Result;
    fn iter(&self, kind: u8) -> BIter<'_>;
    fn iter_mut(&mut self, kind: u8) -> Option<BIter<'_>>;
    fn into_iter(self: Box<Self>) -> BIter<'static>;
    fn entry(&mut self, k: usize, how: u8, v: i32, out: &mut EntryOut);
    fn ser(&self, to: SerTo<'_>) -> Option<Result<(), String>>;
    fn raw(&self) -> Option<u128>;
    fn inter<'a>(&'a self, o: &'a dyn Con) -> Option<BIter<'a>>;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    /// Exchange the two containers, in place.
    fn swap(&mut self, o: &mut dyn Con);
    /// Move the container elsewhere and leave a new one.
    fn take(&mut self) -> Box<dyn Con>;
}

pub enum SerTo<'a> {
    Rec(&'a mut Rec),
    Bin(&'a mut SimWriter),
    Json(&'a mut SimWriter),
}

pub fn ser_to<T: serde::Serialize + ?Sized>(t: &T, to: SerTo<'_>) -> Result<(), String> {
    use bincode::Options;
    match to {
        SerTo::Rec(r) => real(|| t.serialize(r)).map_err(|e| e.0),
        SerTo::Bin(w) => real(|| bincode_opts().serialize_into(w, t)).map_err(|e| e.to_string()),
        SerTo::Json(w) => real(|| serde_json::to_writer(w, t)).map_err(|e| e.to_string()),
    }
}

/// A source of items with a possibly misleading size hint.
pub struct Source<'a, T> {
    pub items: &'a mut dyn FnMut() -> Option<T>,
    pub hint: (usize, Option<usize>),
}
impl<T> Iterator for Source<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        user(|| (self.items)())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

pub enum DeFrom<'a, 'b> {
    Bin(&'a mut SimReader<'b>),
    Json(&'a mut SimReader<'b>),
    Script(&'a mut Script),
}

pub fn de_from<T: serde::de::DeserializeOwned>(from: DeFrom<'_, '_>) -> Result<T, String> {
    match from {
        DeFrom::Bin(r) => real(|| {
            let mut d = bincode::Deserializer::with_reader(r, bincode_opts());
            T::deserialize(&mut d)
        })
        .map_err(|e| e.to_string()),
        DeFrom::Json(r) => real(|| {
            let mut d = serde_json::Deserializer::from_reader(r);
            let t = T::deserialize(&mut d)?;
            d.end()?;
            Ok(t)
        })
        .map_err(|e: serde_json::Error| e.to_string()),
        DeFrom::Script(s) => real(|| T::deserialize(ScriptDe(s))).map_err(|e| e.0),
    }
}

/// The independent reference decoder: a plain list of entries.
// ---------------------------------------------------------------- shapes

pub struct SerdeFns {
    pub de: fn(DeFrom<'_, '_>, is_map: bool) -> Result<Box<dyn Con>, String>,
    /// Reference decode of the same input.
    pub reference: fn(DeFrom<'_, '_>, is_map: bool) -> Result<Vec<(usize, i32)>, String>,
    pub key_bytes: fn(usize) -> Vec<u8>,
    pub key_scalar: fn(usize) -> String,
    /// Does every key have its own JSON key form?
    pub json: bool,
}

pub struct Shape {
    pub label: &'static str,
    pub is_map: bool,
    pub size: usize,
    pub dynamic: bool,
    pub both_ends: bool,
    pub has_ord: bool,
    pub ranks: Vec<usize>,
    pub in_dynamic: Vec<bool>,
    pub key_debug: fn(usize, style: u8) -> String,
    pub new: fn(default: bool) -> Box<dyn Con>,
    /// Collect from a source of (key, value); `array`: build a set from an array of this length instead.
    pub collect: fn(src: &mut dyn FnMut() -> Option<(usize, Option<Tok>)>, hint: (usize, Option<usize>)) -> Box<dyn Con>,
    pub from_array: Option<fn(&[usize]) -> Option<Box<dyn Con>>>,
    pub serde: Option<SerdeFns>,
    pub from_raw: Option<fn(u128) -> Box<dyn Con>>,
    /// Bits of the raw value (C12).
    pub raw_bits: u32,
    /// The container may be shared between threads.
    pub shared: bool,
    /// Values have no destructor and are copied bit by bit.
    pub copy: bool,
    /// A history with values which take no space; reports (property, what is wrong).
    pub zero: Option<fn(u64) -> Vec<(u32, String)>>,
}

pub type MapShape = Shape;
pub type SetShape = Shape;


/// Unit and Option keys have no unambiguous JSON key form.
pub fn json_ok(t: &str) -> bool {
    !t.contains("Option") && t != "()"
}
