//! The same simulated value in other memory layouts: with a niche, larger than a cache line, without a destructor.

use crate::ctx::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

pub trait Sv: Clone + Eq + Ord + Hash + fmt::Debug + Default + Serialize + DeserializeOwned + 'static {
    /// Copied bit by bit, without destructor.
    const COPY: bool = false;
    fn wrap(t: Tok) -> Self;
    fn unwrap(self) -> Tok;
    fn tok(&self) -> &Tok;
    fn tok_mut(&mut self) -> &mut Tok;
}

impl Sv for Tok {
    fn wrap(t: Tok) -> Tok {
        t
    }
    fn unwrap(self) -> Tok {
        self
    }
    fn tok(&self) -> &Tok {
        self
    }
    fn tok_mut(&mut self) -> &mut Tok {
        self
    }
}

/// `Option<Boxed>` is a bare pointer.
pub struct Boxed(Box<Tok>);
impl Sv for Boxed {
    fn wrap(t: Tok) -> Boxed {
        user(|| Boxed(Box::new(t)))
    }
    fn unwrap(self) -> Tok {
        user(|| *self.0)
    }
    fn tok(&self) -> &Tok {
        &self.0
    }
    fn tok_mut(&mut self) -> &mut Tok {
        &mut self.0
    }
}

const PAD: usize = 25;

/// Larger than anything a compiler passes in registers, every byte of it checked.
#[repr(align(32))]
pub struct Big {
    head: [u64; PAD],
    t: Tok,
    tail: [u64; PAD],
}
impl Big {
    fn check(&self) {
        let id = self.t.id;
        if self.head.iter().chain(&self.tail).any(|x| *x != !id) {
            ledger(|l| l.errors.push(("torn value", id)));
        }
    }
}
impl Sv for Big {
    fn wrap(t: Tok) -> Big {
        Big { head: [!t.id; PAD], tail: [!t.id; PAD], t }
    }
    fn unwrap(self) -> Tok {
        self.check();
        self.t
    }
    fn tok(&self) -> &Tok {
        self.check();
        &self.t
    }
    fn tok_mut(&mut self) -> &mut Tok {
        self.check();
        &mut self.t
    }
}

/// The bytes of a [`Tok`], without destructor.
#[derive(Clone, Copy)]
#[repr(C)]
struct Bytes {
    id: u64,
    pay: i32,
    canary: u32,
}
const _: () = assert!(std::mem::size_of::<Bytes>() == std::mem::size_of::<Tok>());

#[derive(Copy)]
#[repr(transparent)]
pub struct Cop(Bytes);
impl Sv for Cop {
    const COPY: bool = true;
    fn wrap(t: Tok) -> Cop {
        let (id, pay) = t.see();
        std::mem::forget(t);
        ledger(|l| {
            if l.life[id as usize] == Life::Live {
                l.life[id as usize] = Life::Forgiven;
                l.live -= 1;
            }
        });
        Cop(Bytes { id, pay, canary: FREE ^ id as u32 })
    }
    fn unwrap(self) -> Tok {
        // Dropping a `Tok` marked free does nothing.
        unsafe { std::mem::transmute(self) }
    }
    fn tok(&self) -> &Tok {
        unsafe { &*(self as *const Cop).cast() }
    }
    fn tok_mut(&mut self) -> &mut Tok {
        unsafe { &mut *(self as *mut Cop).cast() }
    }
}
impl Clone for Cop {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Cop {
        hook(Site::Clone);
        *self
    }
}

macro_rules! clone_like_tok {
    ($($t:ident)*) => {$(
        impl Clone for $t {
            fn clone(&self) -> $t {
                $t::wrap(self.tok().clone())
            }
        }
    )*};
}
clone_like_tok!(Boxed Big);

macro_rules! like_tok {
    ($($t:ident)*) => {$(
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                self.tok() == o.tok()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            #[allow(clippy::non_canonical_partial_ord_impl)]
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                self.tok().partial_cmp(o.tok())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &$t) -> Ordering {
                self.tok().cmp(o.tok())
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.tok().hash(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.tok().fmt(f)
            }
        }
        impl Default for $t {
            fn default() -> $t {
                $t::wrap(Tok::default())
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.tok().serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                Tok::deserialize(d).map($t::wrap)
            }
        }
    )*};
}
like_tok!(Boxed Big Cop);
