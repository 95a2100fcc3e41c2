//! Key shapes: every key type enumerates a finite universe of keys, with the declaration-order rank of each.

use std::fmt::Debug;

pub const BAD: usize = usize::MAX;

pub trait Uni: fixed_map::Key + PartialEq + Debug + 'static {
    /// Number of keys in the universe.
    fn size() -> usize;
    /// Does the key type contain a dynamic (hash stored) part?
    fn dynamic() -> bool;
    /// Number of distinct ranks; keys in one dynamic part share a rank.
    fn ranks() -> usize;
    fn nth(i: usize) -> Self;
    fn rank(i: usize) -> usize;
    fn in_dynamic(i: usize) -> bool;
    /// Universe index, BAD if the key is not in the universe.
    fn idx(&self) -> usize;
}

#[inline]
pub fn off(o: usize, x: usize) -> usize {
    if x == BAD {
        BAD
    } else {
        o + x
    }
}

impl Uni for bool {
    fn size() -> usize {
        2
    }
    fn dynamic() -> bool {
        false
    }
    fn ranks() -> usize {
        2
    }
    fn nth(i: usize) -> bool {
        [true, false][i]
    }
    fn rank(i: usize) -> usize {
        i
    }
    fn in_dynamic(_: usize) -> bool {
        false
    }
    fn idx(&self) -> usize {
        usize::from(!*self)
    }
}

impl Uni for () {
    fn size() -> usize {
        1
    }
    fn dynamic() -> bool {
        false
    }
    fn ranks() -> usize {
        1
    }
    fn nth(_: usize) {}
    fn rank(_: usize) -> usize {
        0
    }
    fn in_dynamic(_: usize) -> bool {
        false
    }
    fn idx(&self) -> usize {
        0
    }
}

impl<K: Uni> Uni for Option<K> {
    fn size() -> usize {
        K::size() + 1
    }
    fn dynamic() -> bool {
        K::dynamic()
    }
    fn ranks() -> usize {
        K::ranks() + 1
    }
    fn nth(i: usize) -> Self {
        if i < K::size() {
            Some(K::nth(i))
        } else {
            None
        }
    }
    fn rank(i: usize) -> usize {
        if i < K::size() {
            K::rank(i)
        } else {
            K::ranks()
        }
    }
    fn in_dynamic(i: usize) -> bool {
        i < K::size() && K::in_dynamic(i)
    }
    fn idx(&self) -> usize {
        match self {
            Some(k) => k.idx(),
            None => K::size(),
        }
    }
}

macro_rules! dyn_uni {
    ($($ty:ty => $n:literal [$($v:expr),* $(,)?];)*) => {$(
        impl Uni for $ty {
            fn size() -> usize {
                $n
            }
            fn dynamic() -> bool {
                true
            }
            fn ranks() -> usize {
                1
            }
            fn nth(i: usize) -> Self {
                const L: [$ty; $n] = [$($v),*];
                L[i]
            }
            fn rank(_: usize) -> usize {
                0
            }
            fn in_dynamic(_: usize) -> bool {
                true
            }
            fn idx(&self) -> usize {
                const L: [$ty; $n] = [$($v),*];
                L.iter().position(|x| x == self).unwrap_or(BAD)
            }
        }
    )*};
}

dyn_uni! {
    char => 8 ['\0', 'a', 'b', 'é', '字', '\u{10ffff}', 'A', '\u{d7ff}'];
    u8 => 12 [0, 1, 2, 3, 7, 8, 15, 16, 127, 128, 254, 255];
    u32 => 24 [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 65535, 65536, 1 << 20, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    u128 => 8 [0, 1, 1 << 32, 1 << 64, (1 << 64) + 1, 1 << 127, u128::MAX - 1, u128::MAX];
    usize => 8 [0, 1, 2, 1 << 16, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX];
    i8 => 8 [0, 1, -1, 2, -2, 127, -128, -127];
    i32 => 8 [0, 1, -1, 1 << 16, i32::MAX, i32::MIN, i32::MIN + 1, -2];
    i64 => 8 [0, 1, -1, 1 << 32, i64::MAX, i64::MIN, -2, 1 << 16];
    i128 => 8 [0, 1, -1, 1 << 64, 1 << 32, i128::MAX, i128::MIN, -2];
    &'static str => 10 ["", "a", "b", "ab", "ba", "A", "\0", "字é", "a longer key that does not fit into one word", "a longer key that does not fit into one wore"];
    &'static [u8] => 8 [b"", b"\0", b"\0\0", b"a", b"ab", b"\xff", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"b"];
}

/// The one big universe.
impl Uni for u64 {
    fn size() -> usize {
        4300
    }
    fn dynamic() -> bool {
        true
    }
    fn ranks() -> usize {
        1
    }
    fn nth(i: usize) -> u64 {
        match i {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << 32,
            3 => 1 << 63,
            _ => (1 << 20) + 3 * i as u64,
        }
    }
    fn rank(_: usize) -> usize {
        0
    }
    fn in_dynamic(_: usize) -> bool {
        true
    }
    fn idx(&self) -> usize {
        match *self {
            0 => 0,
            u64::MAX => 1,
            0x1_0000_0000 => 2,
            0x8000_0000_0000_0000 => 3,
            x => match x.checked_sub(1 << 20) {
                Some(d) if d % 3 == 0 && (4..4300).contains(&(d / 3)) => (d / 3) as usize,
                _ => BAD,
            },
        }
    }
}

/// More keys than sixteen bits can count.
const HUGE: usize = 66_000;
impl Uni for isize {
    fn size() -> usize {
        HUGE
    }
    fn dynamic() -> bool {
        true
    }
    fn ranks() -> usize {
        1
    }
    fn nth(i: usize) -> isize {
        match i {
            0 => isize::MIN,
            1 => isize::MAX,
            _ => 1 - i as isize,
        }
    }
    fn rank(_: usize) -> usize {
        0
    }
    fn in_dynamic(_: usize) -> bool {
        true
    }
    fn idx(&self) -> usize {
        match *self {
            isize::MIN => 0,
            isize::MAX => 1,
            x if x < 0 && x > 1 - HUGE as isize => (1 - x) as usize,
            _ => BAD,
        }
    }
}

/// Enum shapes are serialized as their universe index.
#[macro_export]
macro_rules! enum_serde {
    ($name:ident) => {
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                hook(Site::KeySer);
                if wants_err(Site::KeySer) {
                    return Err(serde::ser::Error::custom("key refuses"));
                }
                s.serialize_u32(self.idx() as u32)
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                hook(Site::KeyDe);
                if wants_err(Site::KeyDe) {
                    return Err(serde::de::Error::custom("key refuses"));
                }
                let i = <u32 as serde::Deserialize>::deserialize(d)? as usize;
                if i >= <Self as Uni>::size() {
                    return Err(serde::de::Error::custom("no such key"));
                }
                Ok(<Self as Uni>::nth(i))
            }
        }
    };
}
