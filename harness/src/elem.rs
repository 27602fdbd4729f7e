//! Element types the containers are instantiated with.
use crate::led;
use std::cmp::Ordering;

/// how much can be observed about an element
pub const OWN: u8 = 0; // identity and drops
pub const COPY: u8 = 1; // value only
pub const ZST: u8 = 2; // drops only, no identity
pub const MARK: u8 = 3; // identity, but nothing happens on drop
/// elements that can be told apart
pub fn ident(cls: u8) -> bool {
    cls == OWN || cls == MARK
}

pub trait Elem: Clone + 'static {
    const CLS: u8;
    const NAME: &'static str;
    /// id: for COPY types the value to carry, otherwise ignored
    fn make(id: u32) -> Self;
    /// GARBAGE if the bytes cannot be an element
    fn id(&self) -> u32;
    /// largest value a COPY type can carry
    const MAX: u32 = u32::MAX;
}

const MAGIC: u64 = 0x5AFE_C0DE_1234_8765;

macro_rules! token {
    ($name:ident, $txt:expr, $pad:ty, $padv:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $name {
            magic: u64,
            uid: u32,
            pub val: i32,
            pad: $pad,
        }
        impl Elem for $name {
            const CLS: u8 = OWN;
            const NAME: &'static str = $txt;
            fn make(_: u32) -> Self {
                let uid = led::fresh(0);
                $name { magic: MAGIC ^ uid as u64, uid, val: 0, pad: $padv(uid) }
            }
            fn id(&self) -> u32 {
                // all of it must have been moved
                if self.magic == MAGIC ^ self.uid as u64 && self.pad == $padv(self.uid) { self.uid } else { led::GARBAGE }
            }
        }
        impl $name {
            pub fn with_val(v: i32) -> Self { let mut t = Self::make(0); t.val = v; t }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                led::tick(led::F_CLONE);
                let uid = led::fresh(self.id());
                $name { magic: MAGIC ^ uid as u64, uid, val: self.val, pad: $padv(uid) }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                led::dropped(self.id());
                led::tick(led::F_DROP);
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool { led::tick(led::F_CMP); self.val == o.val }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering { led::tick(led::F_CMP); self.val.cmp(&o.val) }
        }
    };
}
fn nothing(_: u32) {}
fn filled<const K: usize>(uid: u32) -> [u32; K] { [uid ^ 0x5A5A_0F0F; K] }
token!(Tok, "tok", (), nothing,);
token!(Fat, "fat", [u32; 18], filled,);
token!(Huge, "huge", [u32; 77], filled,);
token!(Wide, "wide", (), nothing, #[repr(align(32))]);

/// as small as an element with an identity can be
pub struct Pip(u32);
impl Elem for Pip {
    const CLS: u8 = OWN;
    const NAME: &'static str = "pip";
    fn make(_: u32) -> Self { Pip(led::fresh(0)) }
    fn id(&self) -> u32 { self.0 }
}
impl Clone for Pip {
    fn clone(&self) -> Self {
        led::tick(led::F_CLONE);
        Pip(led::fresh(self.0))
    }
}
impl Drop for Pip {
    fn drop(&mut self) {
        led::dropped(self.0);
        led::tick(led::F_DROP);
    }
}

/// heap allocated
pub struct Heap(Box<Tok>);
impl Elem for Heap {
    const CLS: u8 = OWN;
    const NAME: &'static str = "heap";
    fn make(_: u32) -> Self {
        Heap(Box::new(Tok::make(0)))
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
}
impl Clone for Heap {
    fn clone(&self) -> Self {
        Heap(self.0.clone())
    }
}

/// Clone but neither Copy nor Drop: clones are new elements, drops are invisible
/// (code specialised on `needs_drop` takes its other path)
pub struct Mark {
    magic: u64,
    uid: u32,
}
impl Elem for Mark {
    const CLS: u8 = MARK;
    const NAME: &'static str = "mark";
    fn make(_: u32) -> Self {
        let uid = led::fresh(0);
        Mark { magic: MAGIC ^ uid as u64, uid }
    }
    fn id(&self) -> u32 {
        if self.magic == MAGIC ^ self.uid as u64 { self.uid } else { led::GARBAGE }
    }
}
impl Clone for Mark {
    fn clone(&self) -> Self {
        led::tick(led::F_CLONE);
        let uid = led::fresh(self.id());
        Mark { magic: MAGIC ^ uid as u64, uid }
    }
}

/// zero sized, drops are counted
pub struct Zed;
impl Elem for Zed {
    const CLS: u8 = ZST;
    const NAME: &'static str = "zst";
    fn make(_: u32) -> Self {
        Zed
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Clone for Zed {
    fn clone(&self) -> Self {
        led::tick(led::F_CLONE);
        Zed
    }
}
impl Drop for Zed {
    fn drop(&mut self) {
        led::dropped(0);
        led::tick(led::F_DROP);
    }
}

macro_rules! copyelem {
    ($t:ty, $txt:expr) => {
        impl Elem for $t {
            const CLS: u8 = COPY;
            const NAME: &'static str = $txt;
            const MAX: u32 = if <$t>::MAX as u64 > 60000 { 60000 } else { <$t>::MAX as u32 };
            fn make(id: u32) -> Self {
                id as $t
            }
            fn id(&self) -> u32 {
                if *self as u64 > 1_000_000 { led::GARBAGE } else { *self as u32 }
            }
        }
    };
}
copyelem!(u8, "u8");
copyelem!(u16, "u16");
copyelem!(u64, "u64");
copyelem!(u128, "u128");

/// hosts with unusual layouts
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct u128x2(#[allow(dead_code)] pub [u8; 32]);
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
#[repr(align(8))]
pub struct u8x12(#[allow(dead_code)] pub [u8; 12]);
