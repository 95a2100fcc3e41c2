//! The containers of one key shape behind `Con`, and the iterators behind `DIter`.

use crate::uni::*;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};
use fmsim_core::ctx::*;
use fmsim_core::erased::*;
use fmsim_core::io::*;
use fmsim_core::vals::*;
use serde::de::Visitor;
use std::any::Any;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub trait ToItem<'a> {
    fn item(self) -> Item<'a>;
}
impl<'a, K: Uni> ToItem<'a> for K {
    fn item(self) -> Item<'a> {
        Item { key: self.idx(), val: Val::None }
    }
}
macro_rules! to_item {
    ($($v:ty)*) => {$(
        impl<'a, K: Uni> ToItem<'a> for (K, &'a $v) {
            fn item(self) -> Item<'a> {
                Item { key: self.0.idx(), val: Val::Ref(self.1.tok()) }
            }
        }
        impl<'a, K: Uni> ToItem<'a> for (K, &'a mut $v) {
            fn item(self) -> Item<'a> {
                Item { key: self.0.idx(), val: Val::Mut(self.1.tok_mut()) }
            }
        }
        impl<'a, K: Uni> ToItem<'a> for (K, $v) {
            fn item(self) -> Item<'a> {
                Item { key: self.0.idx(), val: Val::Own(self.1.unwrap()) }
            }
        }
        impl<'a> ToItem<'a> for &'a $v {
            fn item(self) -> Item<'a> {
                Item { key: NOKEY, val: Val::Ref(self.tok()) }
            }
        }
        impl<'a> ToItem<'a> for &'a mut $v {
            fn item(self) -> Item<'a> {
                Item { key: NOKEY, val: Val::Mut(self.tok_mut()) }
            }
        }
    )*};
}
to_item!(Tok Boxed Big Cop);

macro_rules! fwd_methods {
    () => {
        fn next(&mut self) -> Option<Item<'a>> {
            real(|| self.0.next()).map(ToItem::item)
        }
        fn nth(&mut self, n: usize) -> Option<Item<'a>> {
            real(|| self.0.nth(n)).map(ToItem::item)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            real(|| self.0.size_hint())
        }
        fn count(self: Box<Self>) -> usize {
            let i = *self;
            real(|| i.0.count())
        }
        fn last(self: Box<Self>, way: u32) -> Option<Item<'a>> {
            let i = *self;
            match way {
                0 => real(|| i.0.last()),
                1 => real(|| i.0.max_by(|_, _| std::cmp::Ordering::Equal)),
                2 => real(|| i.0.reduce(|_, x| x)),
                _ => real(|| i.0.min_by(|_, _| std::cmp::Ordering::Equal)),
            }
            .map(ToItem::item)
        }
        fn fold(self: Box<Self>, way: u32, f: &mut dyn FnMut(Item<'a>)) {
            let i = *self;
            match way {
                0 => real(|| i.0.fold((), |_, x| user(|| f(x.item())))),
                1 => real(|| i.0.for_each(|x| user(|| f(x.item())))),
                _ => {
                    real(|| i.0.map(|x| user(|| f(x.item()))).last());
                }
            }
        }
        fn find(&mut self, way: u32, f: &mut dyn FnMut(&Item<'a>) -> bool) -> Option<Item<'a>> {
            let mut found = None;
            let mut seen = 0;
            let found_at = &mut found;
            let mut hit = |x: I::Item| {
                user(|| {
                    seen += 1;
                    let x = x.item();
                    let hit = f(&x);
                    if hit {
                        *found_at = Some(x);
                    }
                    hit
                })
            };
            let r = match way {
                0 => real(|| self.0.try_fold((), |_, x| if hit(x) { Err(()) } else { Ok(()) })).is_err(),
                1 => real(|| self.0.any(&mut hit)),
                2 => !real(|| self.0.all(|x| !hit(x))),
                _ => match real(|| self.0.position(&mut hit)) {
                    Some(at) => {
                        assert_eq!(at + 1, seen, "position() of the item accepted by the predicate");
                        true
                    }
                    None => false,
                },
            };
            assert_eq!(r, found.is_some(), "answer of any(), all() or position()");
            found
        }
        fn forget(self: Box<Self>) {
            std::mem::forget(*self)
        }
    };
}
macro_rules! dei_methods {
    () => {
        fn both_ends(&self) -> bool {
            true
        }
        fn next_back(&mut self) -> Option<Item<'a>> {
            real(|| self.0.next_back()).map(ToItem::item)
        }
        fn nth_back(&mut self, n: usize) -> Option<Item<'a>> {
            real(|| self.0.nth_back(n)).map(ToItem::item)
        }
        fn rfold(self: Box<Self>, f: &mut dyn FnMut(Item<'a>)) {
            let i = *self;
            real(|| i.0.rfold((), |_, x| user(|| f(x.item()))))
        }
        fn rfind(&mut self, f: &mut dyn FnMut(&Item<'a>) -> bool) -> Option<Item<'a>> {
            real(|| {
                self.0.try_rfold((), |_, x| {
                    user(|| {
                        let x = x.item();
                        if f(&x) {
                            Err(x)
                        } else {
                            Ok(())
                        }
                    })
                })
            })
            .err()
        }
    };
}
macro_rules! dup_method {
    ($w:ident) => {
        fn dup(&self) -> Option<Box<dyn DIter<'a> + 'a>> {
            let c = real(|| self.0.clone());
            Some(Box::new($w(c)))
        }
    };
}

pub struct Fwd<I>(pub I);
impl<'a, I> DIter<'a> for Fwd<I>
where
    I: Iterator + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
}
pub struct FwdC<I>(pub I);
impl<'a, I> DIter<'a> for FwdC<I>
where
    I: Iterator + Clone + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
    dup_method!(FwdC);
}
pub struct Dei<I>(pub I);
impl<'a, I> DIter<'a> for Dei<I>
where
    I: DoubleEndedIterator + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
    dei_methods!();
}
pub struct DeiC<I>(pub I);
impl<'a, I> DIter<'a> for DeiC<I>
where
    I: DoubleEndedIterator + Clone + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
    dei_methods!();
    dup_method!(DeiC);
}
/// The two iterators over bare bool keys also know their exact length.
pub struct Exact<I>(pub I);
impl<'a, I> DIter<'a> for Exact<I>
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
    dei_methods!();
    dup_method!(Exact);
    fn exact(&self) -> Option<usize> {
        Some(real(|| self.0.len()))
    }
}
/// Intersections can be formatted.
pub struct Inter<I>(pub I);
impl<'a, I> DIter<'a> for Inter<I>
where
    I: Iterator + Clone + fmt::Debug + 'a,
    I::Item: ToItem<'a>,
{
    fwd_methods!();
    dup_method!(Inter);
    fn debug(&self, s: &mut Sink, style: u8) -> Option<fmt::Result> {
        Some(debug_to(&self.0, s, style))
    }
}

pub struct Pairs<K>(pub Vec<(usize, i32)>, PhantomData<K>);
impl<'de, K: Uni + serde::Deserialize<'de>> serde::Deserialize<'de> for Pairs<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K>(PhantomData<K>);
        impl<'de, K: Uni + serde::Deserialize<'de>> Visitor<'de> for P<K> {
            type Value = Vec<(usize, i32)>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("entries")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_key::<K>()? {
                    v.push((k.idx(), a.next_value::<i32>()?));
                }
                Ok(v)
            }
        }
        Ok(Pairs(d.deserialize_map(P::<K>(PhantomData))?, PhantomData))
    }
}
pub struct Elems<K>(pub Vec<(usize, i32)>, PhantomData<K>);
impl<'de, K: Uni + serde::Deserialize<'de>> serde::Deserialize<'de> for Elems<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K>(PhantomData<K>);
        impl<'de, K: Uni + serde::Deserialize<'de>> Visitor<'de> for P<K> {
            type Value = Vec<(usize, i32)>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("elements")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = vec![];
                while let Some(k) = a.next_element::<K>()? {
                    v.push((k.idx(), 0));
                }
                Ok(v)
            }
        }
        Ok(Elems(d.deserialize_seq(P::<K>(PhantomData))?, PhantomData))
    }
}


pub fn key_debug<K: Uni>(i: usize, style: u8) -> String {
    fmsim_core::styled!(style, K::nth(i), format,)
}

pub fn key_bytes<K: Uni + serde::Serialize>(i: usize) -> Vec<u8> {
    use bincode::Options;
    bincode_opts().serialize(&K::nth(i)).unwrap()
}

pub fn key_scalar<K: Uni + serde::Serialize>(i: usize) -> String {
    K::nth(i).serialize(Scalar).unwrap()
}

// ---------------------------------------------------------------- maps

type MIter<T> = fn(&T, u8) -> BIter<'_>;
type MIterMut<T> = fn(&mut T, u8) -> BIter<'_>;

pub struct MapFns<K: Key + 'static, V: 'static> {
    pub iter: MIter<Map<K, V>>,
    pub iter_mut: MIterMut<Map<K, V>>,
    pub into_iter: fn(Map<K, V>) -> BIter<'static>,
    pub compare: Option<fn(&Map<K, V>, &Map<K, V>, u8) -> CmpOut>,
    pub hash: Option<fn(&Map<K, V>) -> u64>,
    pub pick: Option<PickFn<Map<K, V>>>,
    pub ser: Option<fn(&Map<K, V>, SerTo<'_>) -> Result<(), String>>,
}

pub struct MW<K: Key + 'static, V: 'static> {
    pub m: Map<K, V>,
    pub f: &'static MapFns<K, V>,
}

fn peer<T: 'static>(o: &dyn Con) -> &T {
    o.any().downcast_ref::<T>().expect("containers of one run share their type")
}

impl<K: Uni, V: Sv> Con for MW<K, V>
where
    K::MapStorage<V>: Clone + PartialEq,
{
    fn is_map(&self) -> bool {
        true
    }
    fn insert(&mut self, k: usize, v: Option<Tok>) -> Old {
        let (k, v) = (K::nth(k), V::wrap(v.unwrap()));
        Old::Val(real(|| self.m.insert(k, v)).map(V::unwrap))
    }
    fn remove(&mut self, k: usize) -> Old {
        let k = K::nth(k);
        Old::Val(real(|| self.m.remove(k)).map(V::unwrap))
    }
    fn contains(&self, k: usize) -> bool {
        let k = K::nth(k);
        real(|| self.m.contains_key(k))
    }
    fn get(&self, k: usize) -> Option<&Tok> {
        let k = K::nth(k);
        real(|| self.m.get(k)).map(V::tok)
    }
    fn get_mut(&mut self, k: usize) -> Option<&mut Tok> {
        let k = K::nth(k);
        real(|| self.m.get_mut(k)).map(V::tok_mut)
    }
    fn len(&self) -> usize {
        real(|| self.m.len())
    }
    fn is_empty(&self) -> bool {
        real(|| self.m.is_empty())
    }
    fn clear(&mut self) {
        real(|| self.m.clear())
    }
    fn retain(&mut self, f: &mut dyn FnMut(usize, Option<&mut Tok>) -> bool) {
        real(|| self.m.retain(|k, v| user(|| f(k.idx(), Some(v.tok_mut())))))
    }
    fn dup(&self) -> Box<dyn Con> {
        let m = real(|| self.m.clone());
        Box::new(MW { m, f: self.f })
    }
    fn dup_from(&mut self, o: &dyn Con) {
        let o = peer::<Self>(o);
        real(|| self.m.clone_from(&o.m))
    }
    fn equal(&self, o: &dyn Con, ne: bool) -> bool {
        let o = peer::<Self>(o);
        real(|| if ne { self.m != o.m } else { self.m == o.m })
    }
    fn compare(&self, o: &dyn Con, which: u8) -> Option<CmpOut> {
        let o = peer::<Self>(o);
        self.f.compare.map(|f| f(&self.m, &o.m, which))
    }
    fn hash(&self) -> Option<u64> {
        self.f.hash.map(|f| f(&self.m))
    }
    fn pick(self: Box<Self>, o: Vec<Box<dyn Con>>, which: u8) -> Option<Box<dyn Con>> {
        let f = self.f;
        let g = f.pick?;
        let o = o.into_iter().map(|o| o.into_any().downcast::<Self>().expect("containers of one run share their type").m).collect();
        Some(Box::new(MW { m: g(self.m, o, which), f }))
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn debug(&self, s: &mut Sink, style: u8) -> fmt::Result {
        debug_to(&self.m, s, style)
    }
    fn iter(&self, kind: u8) -> BIter<'_> {
        (self.f.iter)(&self.m, kind)
    }
    fn iter_mut(&mut self, kind: u8) -> Option<BIter<'_>> {
        Some((self.f.iter_mut)(&mut self.m, kind))
    }
    fn into_iter(self: Box<Self>) -> BIter<'static> {
        let MW { m, f } = *self;
        (f.into_iter)(m)
    }
    fn entry(&mut self, k: usize, how: u8, v: i32, out: &mut EntryOut) {
        entry_script(&mut self.m, k, how, v, out)
    }
    fn ser(&self, to: SerTo<'_>) -> Option<Result<(), String>> {
        self.f.ser.map(|f| f(&self.m, to))
    }
    fn raw(&self) -> Option<u128> {
        None
    }
    fn inter<'a>(&'a self, _: &'a dyn Con) -> Option<BIter<'a>> {
        None
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn swap(&mut self, o: &mut dyn Con) {
        let o = o.any_mut().downcast_mut::<Self>().expect("containers of one run share their type");
        std::mem::swap(&mut self.m, &mut o.m);
    }
    fn take(&mut self) -> Box<dyn Con> {
        let m = real(|| std::mem::take(&mut self.m));
        Box::new(MW { m, f: self.f })
    }
}

fn note_key<K: Uni>(out: &mut EntryOut, k: K) {
    user(|| out.keys.push(k.idx()))
}
fn note_seen<V: Sv>(out: &mut EntryOut, t: &V) {
    user(|| out.seen.push(t.tok().see()))
}

/// Write `pay` through a reference obtained from the code under test.
fn write<V: Sv>(out: &mut EntryOut, t: &mut V, pay: i32) {
    user(|| {
        let t = t.tok_mut();
        t.see();
        t.pay = pay;
        out.wrote = Some(pay);
    })
}

/// `v` is the payload of a value made; writes use v+1, v+2.
fn entry_script<K: Uni, V: Sv>(m: &mut Map<K, V>, k: usize, how: u8, v: i32, out: &mut EntryOut) {
    let key = K::nth(k);
    macro_rules! tok {
        ($out:expr) => {
            user(|| {
                let t = Tok::new(v);
                $out.made = Some(t.id);
                V::wrap(t)
            })
        };
    }
    macro_rules! make {
        ($out:ident) => {
            || {
                user(|| {
                    $out.make_calls += 1;
                    hook(Site::Closure);
                    let t = Tok::new(v);
                    $out.made = Some(t.id);
                    V::wrap(t)
                })
            }
        };
    }
    macro_rules! make_key {
        ($out:ident) => {
            |k: K| {
                user(|| {
                    $out.make_calls += 1;
                    $out.make_key.push(k.idx());
                    hook(Site::Closure);
                    let t = Tok::new(v);
                    $out.made = Some(t.id);
                    V::wrap(t)
                })
            }
        };
    }
    macro_rules! modify {
        ($out:ident, $n:expr) => {
            |t: &mut V| {
                user(|| {
                    let t = t.tok_mut();
                    $out.mod_calls += 1;
                    $out.seen.push(t.see());
                    t.pay = v.wrapping_add($n);
                    $out.wrote = Some(t.pay);
                    hook(Site::Closure);
                })
            }
        };
    }
    real(|| {
        let e = m.entry(key);
        out.occupied = Some(matches!(e, Entry::Occupied(_)));
        match how {
            0 => {
                let t = tok!(out);
                let r = e.or_insert(t);
                note_seen(out, r);
                write(out, r, v.wrapping_add(1));
            }
            1 => {
                let r = e.or_insert_with(make!(out));
                note_seen(out, r);
                write(out, r, v.wrapping_add(1));
            }
            2 => {
                let r = e.or_insert_with_key(make_key!(out));
                note_seen(out, r);
            }
            3 => {
                let r = e.or_default();
                note_seen(out, r);
                write(out, r, v.wrapping_add(1));
            }
            4 => {
                let t = tok!(out);
                let r = e.and_modify(modify!(out, 1)).or_insert(t);
                note_seen(out, r);
            }
            5 => {
                let e = e.and_modify(modify!(out, 1));
                note_key(out, e.key());
                drop(e);
            }
            6 => {
                let e = e.and_modify(modify!(out, 1));
                let e = e.and_modify(modify!(out, 2));
                let r = e.or_insert_with_key(make_key!(out));
                note_seen(out, r);
            }
            7 => {
                note_key(out, e.key());
                note_key(out, e.key());
                drop(e);
            }
            14 => {
                note_key(out, e.key());
                std::mem::forget(e);
            }
            17 => {
                let r = e.and_modify(modify!(out, 1)).or_default();
                note_seen(out, r);
            }
            _ => match e {
                Entry::Occupied(mut o) => {
                    note_key(out, o.key());
                    match how {
                        8 => {
                            note_seen(out, o.get());
                            note_seen(out, o.get());
                        }
                        9 => {
                            let r = o.get_mut();
                            note_seen(out, r);
                            write(out, r, v.wrapping_add(1));
                            note_seen(out, o.get());
                        }
                        10 => {
                            let t = tok!(out);
                            let old = o.insert(t);
                            note_seen(out, &old);
                            note_seen(out, o.get());
                            note_key(out, o.key());
                            user(|| drop(old));
                        }
                        11 => {
                            let r = o.into_mut();
                            note_seen(out, r);
                            write(out, r, v.wrapping_add(1));
                        }
                        12 => {
                            let t = tok!(out);
                            let old = o.insert(t);
                            note_seen(out, &old);
                            let new = o.remove();
                            note_seen(out, &new);
                            user(|| {
                                out.gone = Some(new.tok().id);
                                drop(old);
                                drop(new);
                            });
                        }
                        13 => {
                            let old = o.remove();
                            note_seen(out, &old);
                            user(|| {
                                out.gone = Some(old.tok().id);
                                drop(old);
                            });
                        }
                        15 => {
                            let r = o.get_mut();
                            note_seen(out, r);
                            write(out, r, v.wrapping_add(1));
                            let old = o.remove();
                            note_seen(out, &old);
                            user(|| {
                                out.gone = Some(old.tok().id);
                                drop(old);
                            });
                        }
                        _ => {
                            let t = tok!(out);
                            let old = o.insert(t);
                            note_seen(out, &old);
                            note_seen(out, o.get());
                            user(|| drop(old));
                            let t = tok!(out);
                            let old = o.insert(t);
                            note_seen(out, &old);
                            note_seen(out, o.get());
                            user(|| drop(old));
                        }
                    }
                }
                Entry::Vacant(o) => {
                    note_key(out, o.key());
                    match how {
                        8 => note_key(out, o.key()),
                        9 | 10 | 12 | 15 => {
                            let t = tok!(out);
                            let r = o.insert(t);
                            note_seen(out, r);
                            write(out, r, v.wrapping_add(1));
                        }
                        _ => drop(o),
                    }
                }
            },
        }
    })
}

// ---------------------------------------------------------------- sets

pub struct SetFns<K: Key + 'static> {
    pub iter: MIter<Set<K>>,
    pub into_iter: fn(Set<K>) -> BIter<'static>,
    pub compare: Option<fn(&Set<K>, &Set<K>, u8) -> CmpOut>,
    pub hash: Option<fn(&Set<K>) -> u64>,
    pub pick: Option<PickFn<Set<K>>>,
    pub ser: Option<fn(&Set<K>, SerTo<'_>) -> Result<(), String>>,
    pub raw: Option<fn(&Set<K>) -> u128>,
}

pub struct SW<K: Key + 'static> {
    pub s: Set<K>,
    pub f: &'static SetFns<K>,
}

impl<K: Uni> Con for SW<K>
where
    K::SetStorage: Clone + PartialEq,
{
    fn is_map(&self) -> bool {
        false
    }
    fn insert(&mut self, k: usize, _: Option<Tok>) -> Old {
        let k = K::nth(k);
        Old::Flag(real(|| self.s.insert(k)))
    }
    fn remove(&mut self, k: usize) -> Old {
        let k = K::nth(k);
        Old::Flag(real(|| self.s.remove(k)))
    }
    fn contains(&self, k: usize) -> bool {
        let k = K::nth(k);
        real(|| self.s.contains(k))
    }
    fn get(&self, _: usize) -> Option<&Tok> {
        None
    }
    fn get_mut(&mut self, _: usize) -> Option<&mut Tok> {
        None
    }
    fn len(&self) -> usize {
        real(|| self.s.len())
    }
    fn is_empty(&self) -> bool {
        real(|| self.s.is_empty())
    }
    fn clear(&mut self) {
        real(|| self.s.clear())
    }
    fn retain(&mut self, f: &mut dyn FnMut(usize, Option<&mut Tok>) -> bool) {
        real(|| self.s.retain(|k| user(|| f(k.idx(), None))))
    }
    fn dup(&self) -> Box<dyn Con> {
        let s = real(|| self.s.clone());
        Box::new(SW { s, f: self.f })
    }
    fn dup_from(&mut self, o: &dyn Con) {
        let o = peer::<Self>(o);
        real(|| self.s.clone_from(&o.s))
    }
    fn equal(&self, o: &dyn Con, ne: bool) -> bool {
        let o = peer::<Self>(o);
        real(|| if ne { self.s != o.s } else { self.s == o.s })
    }
    fn compare(&self, o: &dyn Con, which: u8) -> Option<CmpOut> {
        let o = peer::<Self>(o);
        self.f.compare.map(|f| f(&self.s, &o.s, which))
    }
    fn hash(&self) -> Option<u64> {
        self.f.hash.map(|f| f(&self.s))
    }
    fn pick(self: Box<Self>, o: Vec<Box<dyn Con>>, which: u8) -> Option<Box<dyn Con>> {
        let f = self.f;
        let g = f.pick?;
        let o = o.into_iter().map(|o| o.into_any().downcast::<Self>().expect("containers of one run share their type").s).collect();
        Some(Box::new(SW { s: g(self.s, o, which), f }))
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn debug(&self, s: &mut Sink, style: u8) -> fmt::Result {
        debug_to(&self.s, s, style)
    }
    fn iter(&self, kind: u8) -> BIter<'_> {
        (self.f.iter)(&self.s, kind)
    }
    fn iter_mut(&mut self, _: u8) -> Option<BIter<'_>> {
        None
    }
    fn into_iter(self: Box<Self>) -> BIter<'static> {
        let SW { s, f } = *self;
        (f.into_iter)(s)
    }
    fn entry(&mut self, _: usize, _: u8, _: i32, _: &mut EntryOut) {
        unreachable!()
    }
    fn ser(&self, to: SerTo<'_>) -> Option<Result<(), String>> {
        self.f.ser.map(|f| f(&self.s, to))
    }
    fn raw(&self) -> Option<u128> {
        self.f.raw.map(|f| real(|| f(&self.s)))
    }
    fn inter<'a>(&'a self, o: &'a dyn Con) -> Option<BIter<'a>> {
        let o = peer::<Self>(o);
        let i = real(|| self.s.intersection(&o.s));
        Some(Box::new(Inter(i)))
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn swap(&mut self, o: &mut dyn Con) {
        let o = o.any_mut().downcast_mut::<Self>().expect("containers of one run share their type");
        std::mem::swap(&mut self.s, &mut o.s);
    }
    fn take(&mut self) -> Box<dyn Con> {
        let s = real(|| std::mem::take(&mut self.s));
        Box::new(SW { s, f: self.f })
    }
}

// ---------------------------------------------------------------- generated tables

pub fn compare_with<T: PartialOrd + Ord>(a: &T, b: &T, which: u8) -> CmpOut {
    // One operator at a time is exercised under faults; the rest is computed with it.
    real(|| {
        let mut o = CmpOut { partial: None, total: None, lt: false, le: false, gt: false, ge: false };
        let all = which >= 6;
        if all || which == 0 {
            o.partial = a.partial_cmp(b);
        }
        if all || which == 1 {
            o.total = Some(a.cmp(b));
        }
        if all || which == 2 {
            o.lt = a < b;
        }
        if all || which == 3 {
            o.le = a <= b;
        }
        if all || which == 4 {
            o.gt = a > b;
        }
        if all || which == 5 {
            o.ge = a >= b;
        }
        o
    })
}

pub type PickFn<T> = fn(T, Vec<T>, u8) -> T;

/// `max`, `min` and `clamp` take their operands by value.
pub fn pick_with<T: Ord>(a: T, mut o: Vec<T>, which: u8) -> T {
    let b = o.pop().unwrap();
    match (o.pop(), which) {
        (Some(lo), _) => real(|| a.clamp(lo, b)),
        (None, 0) => real(|| a.max(b)),
        (None, _) => real(|| a.min(b)),
    }
}

pub fn hash_with<T: Hash>(a: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    real(|| a.hash(&mut h));
    h.finish()
}

#[macro_export]
macro_rules! iter_wrap {
    (dei, $e:expr) => {{
        let i = real(|| $e);
        Box::new(DeiC(i))
    }};
    (exact, $e:expr) => {
        $crate::iter_wrap!(dei, $e)
    };
    (fwd, $e:expr) => {{
        let i = real(|| $e);
        Box::new(FwdC(i))
    }};
    (dei_once, $e:expr) => {{
        let i = real(|| $e);
        Box::new(Dei(i))
    }};
    (fwd_once, $e:expr) => {{
        let i = real(|| $e);
        Box::new(Fwd(i))
    }};
}

#[macro_export]
macro_rules! ord_fns {
    (ord, $t:ty) => {
        (Some(compare_with::<$t> as fn(&$t, &$t, u8) -> CmpOut), Some(hash_with::<$t> as fn(&$t) -> u64), Some(pick_with::<$t> as PickFn<$t>))
    };
    (noord, $t:ty) => {
        (None::<fn(&$t, &$t, u8) -> CmpOut>, None::<fn(&$t) -> u64>, None::<PickFn<$t>>)
    };
}

#[macro_export]
macro_rules! once_of {
    (exact, $e:expr) => {
        iter_wrap!(dei_once, $e)
    };
    (dei, $e:expr) => {
        iter_wrap!(dei_once, $e)
    };
    (fwd, $e:expr) => {
        iter_wrap!(fwd_once, $e)
    };
}

#[macro_export]
macro_rules! map_shape {
    ($ty:ty, $val:ty, $label:literal, $it:ident, $ord:ident, $serde:ident) => {{
        type K = $ty;
        type C = Map<K, $val>;
        type W = MW<K, $val>;
        fn iter(m: &C, kind: u8) -> BIter<'_> {
            match kind {
                IT_KEYS => $crate::keys_iter!($it, m.keys()),
                IT_VALUES => $crate::iter_wrap!($it, m.values()),
                IT_REF => $crate::iter_wrap!($it, m.into_iter()),
                _ => $crate::iter_wrap!($it, m.iter()),
            }
        }
        fn iter_mut(m: &mut C, kind: u8) -> BIter<'_> {
            match kind {
                IT_VALUES => $crate::once_of!($it, m.values_mut()),
                IT_REF => $crate::once_of!($it, m.into_iter()),
                _ => $crate::once_of!($it, m.iter_mut()),
            }
        }
        fn into_iter(m: C) -> BIter<'static> {
            $crate::owning!($it, m)
        }
        static F: MapFns<K, $val> = MapFns {
            iter,
            iter_mut,
            into_iter,
            compare: $crate::ord_fns!($ord, C).0,
            hash: $crate::ord_fns!($ord, C).1,
            pick: $crate::ord_fns!($ord, C).2,
            ser: $crate::ser_fn!($serde, C),
        };
        fn new(default: bool) -> Box<dyn Con> {
            let m = real(|| if default { <C as Default>::default() } else { C::new() });
            Box::new(W { m, f: &F })
        }
        fn collect(src: &mut dyn FnMut() -> Option<(usize, Option<Tok>)>, hint: (usize, Option<usize>)) -> Box<dyn Con> {
            let mut next = || src().map(|(k, v)| (<K as Uni>::nth(k), <$val as Sv>::wrap(v.unwrap())));
            let m = real(|| Source { items: &mut next, hint }.collect::<C>());
            Box::new(W { m, f: &F })
        }
        Shape {
            label: $label,
            is_map: true,
            size: <K as Uni>::size(),
            dynamic: <K as Uni>::dynamic(),
            both_ends: stringify!($it) != "fwd",
            has_ord: stringify!($ord) == "ord",
            ranks: (0..<K as Uni>::size()).map(<K as Uni>::rank).collect(),
            in_dynamic: (0..<K as Uni>::size()).map(<K as Uni>::in_dynamic).collect(),
            key_debug: key_debug::<K>,
            new,
            collect,
            from_array: None,
            serde: $crate::serde_fns!($serde, K, C, W, m, Pairs, F),
            from_raw: None,
            shared: <$crate::wrap::Shared<C>>::OK,
            raw_bits: 0,
            zero: None,
            copy: <$val as Sv>::COPY,
        }
    }};
}

#[macro_export]
macro_rules! keys_iter {
    (exact, $e:expr) => {{
        let i = real(|| $e);
        Box::new(Exact(i))
    }};
    ($it:ident, $e:expr) => {
        $crate::iter_wrap!($it, $e)
    };
}

#[macro_export]
macro_rules! ser_fn {
    (serde, $c:ty) => {
        Some(ser_to::<$c> as fn(&$c, SerTo<'_>) -> Result<(), String>)
    };
    (noserde, $c:ty) => {
        None
    };
}

#[macro_export]
macro_rules! serde_fns {
    (serde, $k:ty, $c:ty, $w:ident, $field:ident, $reference:ident, $f:ident) => {{
        fn de(from: DeFrom<'_, '_>, _: bool) -> Result<Box<dyn Con>, String> {
            let $field = de_from::<$c>(from)?;
            Ok(Box::new($w { $field, f: &$f }))
        }
        fn reference(from: DeFrom<'_, '_>, _: bool) -> Result<Vec<(usize, i32)>, String> {
            user(|| de_from::<$reference<$k>>(from)).map(|p| p.0)
        }
        let t = stringify!($k);
        let _ = t;
        Some(SerdeFns {
            de,
            reference,
            key_bytes: key_bytes::<$k>,
            key_scalar: key_scalar::<$k>,
            json: json_ok(std::any::type_name::<$k>()),
        })
    }};
    (noserde, $($t:tt)*) => {
        None
    };
}
#[macro_export]
macro_rules! raw_fns {
    (raw, $k:ty, $c:ty) => {{
        fn raw(s: &$c) -> u128 {
            let r = s.as_raw();
            r as u128
        }
        Some(raw as fn(&$c) -> u128)
    }};
    (noraw, $($t:tt)*) => {
        None
    };
}
#[macro_export]
macro_rules! from_raw_fns {
    (raw, $k:ty, $c:ty, $f:ident) => {{
        fn from_raw(bits: u128) -> Box<dyn Con> {
            let s = real(|| <$c>::from_raw(bits as _));
            Box::new(SW::<$k> { s, f: &$f })
        }
        Some(from_raw as fn(u128) -> Box<dyn Con>)
    }};
    (noraw, $($t:tt)*) => {
        None
    };
}
#[macro_export]
macro_rules! raw_width {
    (raw, $c:ty) => {
        8 * std::mem::size_of_val(&<$c>::new().as_raw()) as u32
    };
    (noraw, $($t:tt)*) => {
        0
    };
}

#[macro_export]
macro_rules! set_shape {
    ($ty:ty, $label:literal, $it:ident, $ord:ident, $serde:ident, $raw:ident) => {{
        type K = $ty;
        type C = Set<K>;
        type W = SW<K>;
        fn iter(m: &C, kind: u8) -> BIter<'_> {
            match kind {
                IT_REF => $crate::keys_iter!($it, m.into_iter()),
                _ => $crate::keys_iter!($it, m.iter()),
            }
        }
        fn into_iter(m: C) -> BIter<'static> {
            $crate::set_into!($it, m.into_iter())
        }
        static F: SetFns<K> = SetFns {
            iter,
            into_iter,
            compare: $crate::ord_fns!($ord, C).0,
            hash: $crate::ord_fns!($ord, C).1,
            pick: $crate::ord_fns!($ord, C).2,
            ser: $crate::ser_fn!($serde, C),
            raw: $crate::raw_fns!($raw, K, C),
        };
        fn new(default: bool) -> Box<dyn Con> {
            let s = real(|| if default { <C as Default>::default() } else { C::new() });
            Box::new(W { s, f: &F })
        }
        fn collect(src: &mut dyn FnMut() -> Option<(usize, Option<Tok>)>, hint: (usize, Option<usize>)) -> Box<dyn Con> {
            let mut next = || src().map(|(k, _)| <K as Uni>::nth(k));
            let s = real(|| Source { items: &mut next, hint }.collect::<C>());
            Box::new(W { s, f: &F })
        }
        fn from_array(l: &[usize]) -> Option<Box<dyn Con>> {
            let s = set_from_array::<K>(l)?;
            Some(Box::new(W { s, f: &F }))
        }
        Shape {
            label: $label,
            is_map: false,
            size: <K as Uni>::size(),
            dynamic: <K as Uni>::dynamic(),
            both_ends: stringify!($it) != "fwd",
            has_ord: stringify!($ord) == "ord",
            ranks: (0..<K as Uni>::size()).map(<K as Uni>::rank).collect(),
            in_dynamic: (0..<K as Uni>::size()).map(<K as Uni>::in_dynamic).collect(),
            key_debug: key_debug::<K>,
            new,
            collect,
            from_array: Some(from_array),
            serde: $crate::serde_fns!($serde, K, C, W, s, Elems, F),
            from_raw: $crate::from_raw_fns!($raw, K, C, F),
            shared: <$crate::wrap::Shared<C>>::OK,
            raw_bits: $crate::raw_width!($raw, C),
            zero: None,
            copy: false,
        }
    }};
}

/// May threads share a `T`? Answered without requiring it.
pub struct Shared<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
pub trait NotShared {
    const OK: bool = false;
}
impl<T: ?Sized> NotShared for Shared<T> {}
impl<T: ?Sized + Sync> Shared<T> {
    pub const OK: bool = true;
}

/// Some owning iterators can be cloned; which ones is up to the code under test.
pub struct Clonable;
pub struct Once;
pub trait CloneKind {
    fn kind(&self) -> Clonable {
        Clonable
    }
}
pub struct Tag<I>(PhantomData<I>);
pub fn tag<I>(_: &I) -> Tag<I> {
    Tag(PhantomData)
}
impl<I: Clone> CloneKind for Tag<I> {}
pub trait OnceKind {
    fn kind(&self) -> Once {
        Once
    }
}
impl<I> OnceKind for &Tag<I> {}
#[allow(dead_code)]
impl Clonable {
    pub fn dei<I: DoubleEndedIterator + Clone + 'static>(self, i: I) -> BIter<'static>
    where
        I::Item: ToItem<'static>,
    {
        Box::new(DeiC(i))
    }
    pub fn fwd<I: Iterator + Clone + 'static>(self, i: I) -> BIter<'static>
    where
        I::Item: ToItem<'static>,
    {
        Box::new(FwdC(i))
    }
}
#[allow(dead_code)]
impl Once {
    pub fn dei<I: DoubleEndedIterator + 'static>(self, i: I) -> BIter<'static>
    where
        I::Item: ToItem<'static>,
    {
        Box::new(Dei(i))
    }
    pub fn fwd<I: Iterator + 'static>(self, i: I) -> BIter<'static>
    where
        I::Item: ToItem<'static>,
    {
        Box::new(Fwd(i))
    }
}

#[macro_export]
macro_rules! owning {
    (exact, $m:expr) => {
        $crate::owning!(dei, $m)
    };
    ($it:ident, $m:expr) => {{
        let i = real(|| $m.into_iter());
        (&tag(&i)).kind().$it(i)
    }};
}

#[macro_export]
macro_rules! set_into {
    (exact, $e:expr) => {
        iter_wrap!(dei, $e)
    };
    (dei, $e:expr) => {
        iter_wrap!(dei, $e)
    };
    (fwd, $e:expr) => {
        iter_wrap!(fwd_once, $e)
    };
}

pub fn set_from_array<K: Uni>(l: &[usize]) -> Option<Set<K>> {
    fn go<K: Uni, const N: usize>(l: &[usize]) -> Set<K> {
        let a: [K; N] = std::array::from_fn(|i| K::nth(l[i]));
        real(|| Set::from(a))
    }
    Some(match l.len() {
        0 => go::<K, 0>(l),
        1 => go::<K, 1>(l),
        3 => go::<K, 3>(l),
        4 => go::<K, 4>(l),
        7 => go::<K, 7>(l),
        _ => return None,
    })
}

