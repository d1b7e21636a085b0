//! The universe of component types.  Each value carries a token (as far as its size allows) and a pattern
//! derived from it, so that misplaced, partially moved or overwritten values are recognised.
use crate::alloc::user;
use shard_ecs::*;
use std::cell::{Cell, RefCell};

pub const BAD: u32 = 0xFFFF_FFFF;
/// Number of kinds usable in entities of the history engines.
pub const NK: usize = 17;

thread_local! {
    pub static DROPS: RefCell<Vec<(u8, u32)>> = const { RefCell::new(Vec::new()) };
    static SUPPRESS: Cell<bool> = const { Cell::new(false) };
    /// (kind, token) whose destructor panics; kind 255 = none.
    static PANIC_ON: Cell<(u8, u32)> = const { Cell::new((255, 0)) };
    /// n-th logged destructor call panics (0-based), -1 = none.
    static PANIC_NTH: Cell<i64> = const { Cell::new(-1) };
    static PANICKED: Cell<u32> = const { Cell::new(0) };
    static LOGGING: Cell<bool> = const { Cell::new(true) };
}
pub struct InjectedPanic;

pub fn take_drops() -> Vec<(u8, u32)> {
    DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
pub fn set_panic_on(k: u8, tok: u32) {
    PANIC_ON.with(|p| p.set((k, tok)));
}
pub fn set_panic_nth(n: i64) {
    PANIC_NTH.with(|p| p.set(n));
}
pub fn clear_panics() {
    PANIC_ON.with(|p| p.set((255, 0)));
    PANIC_NTH.with(|p| p.set(-1));
    PANICKED.with(|p| p.set(0));
}
pub fn panicked() -> u32 {
    PANICKED.with(|p| p.get())
}
pub fn set_logging(on: bool) {
    LOGGING.with(|p| p.set(on));
}

#[inline]
fn on_drop(k: u8, tok: u32) {
    if SUPPRESS.with(|s| s.get()) || !LOGGING.with(|s| s.get()) {
        return;
    }
    user(|| DROPS.with(|d| d.borrow_mut().push((k, tok))));
    let po = PANIC_ON.with(|p| p.get());
    let n = PANIC_NTH.with(|p| p.get());
    if n >= 0 {
        PANIC_NTH.with(|p| p.set(n - 1));
    }
    if (po.0 == k && po.1 == tok) || n == 0 {
        PANIC_ON.with(|p| p.set((255, 0)));
        PANICKED.with(|p| p.set(p.get() + 1));
        user(|| std::panic::panic_any(InjectedPanic));
    }
}

pub trait Kind: Component {
    const K: u8;
    const MASK: u32;
    const DROP: bool;
    const KNAME: &'static str;
    fn make(tok: u32) -> Self;
    /// The token stored, or BAD if the value is damaged.
    fn tok(&self) -> u32;
    /// Consumes a value that was handed back, without logging its destructor.
    fn give(self) -> u32 {
        let t = self.tok();
        SUPPRESS.with(|s| s.set(true));
        drop(self);
        SUPPRESS.with(|s| s.set(false));
        t
    }
}

macro_rules! kind {
    // plain data described by a byte pattern
    ($T:ident, $k:expr, $name:expr, $id:tt, $mask:expr, drop=$d:tt, bytes=$n:expr, align=$al:literal) => {
        #[repr(C, align($al))]
        pub struct $T { b: [u8; $n] }
        kind!(@comp $T, $name, $id);
        impl Kind for $T {
            const K: u8 = $k; const MASK: u32 = $mask; const DROP: bool = $d; const KNAME: &'static str = $name;
            #[inline]
            fn make(tok: u32) -> Self {
                let tok = tok & $mask;
                let mut b = [0u8; $n];
                let t = tok.to_le_bytes();
                let m = tok.wrapping_mul(0x9E37_79B1).to_le_bytes();
                for i in 0..$n { b[i] = if i < 4 { t[i] } else { m[i & 3] ^ (i as u8) ^ ($k as u8) }; }
                $T { b }
            }
            #[inline]
            fn tok(&self) -> u32 {
                let mut t = [0u8; 4];
                for i in 0..$n.min(4) { t[i] = self.b[i]; }
                let tok = u32::from_le_bytes(t);
                if tok & $mask != tok { return BAD; }
                let m = tok.wrapping_mul(0x9E37_79B1).to_le_bytes();
                for i in 4..$n { if self.b[i] != m[i & 3] ^ (i as u8) ^ ($k as u8) { return BAD; } }
                tok
            }
        }
        kind!(@drop $T, $d);
    };
    // zero sized
    ($T:ident, $k:expr, $name:expr, $id:tt, drop=$d:tt, zst, align=$al:literal) => {
        #[repr(C, align($al))]
        pub struct $T {}
        kind!(@comp $T, $name, $id);
        impl Kind for $T {
            const K: u8 = $k; const MASK: u32 = 0; const DROP: bool = $d; const KNAME: &'static str = $name;
            fn make(_: u32) -> Self { $T {} }
            fn tok(&self) -> u32 { 0 }
        }
        kind!(@drop $T, $d);
    };
    (@comp $T:ident, $name:expr, default) => {
        impl Component for $T { const NAME: &'static str = $name; }
    };
    (@comp $T:ident, $name:expr, $id:tt) => {
        impl Component for $T { const NAME: &'static str = $name; const ID: ComponentTypeId = ComponentTypeId::from_u16($id); }
    };
    (@drop $T:ident, true) => { impl Drop for $T { fn drop(&mut self) { on_drop(<$T as Kind>::K, self.tok()) } } };
    (@drop $T:ident, false) => {};
}

const M24: u32 = 0xFF_FFFF;
// Identifiers: boundary values, and B, T, P, V, E chosen such that the identifiers of the sets {B,T} and {P,V} collide
// (and so {B,T,x} and {P,V,x} for every x after them, such as H, D, S, X), and that of {T,P} is that of E.
kind!(A, 0, "A", 300, M24, drop = true, bytes = 8, align = 8);
kind!(Z, 1, "Z", 7, drop = true, zst, align = 1);
kind!(W, 2, "W", 0, M24, drop = true, bytes = 128, align = 64);
kind!(B, 4, "B", 9267, 0xFF, drop = false, bytes = 1, align = 1);
kind!(T, 5, "T", 14199, M24, drop = true, bytes = 3, align = 1);
kind!(Q, 7, "Quad", default, M24, drop = false, bytes = 16, align = 16);
kind!(L, 8, "Large", 0x0101, M24, drop = true, bytes = 1001, align = 1);
kind!(G, 9, "Page", 256, M24, drop = false, bytes = 4096, align = 4096);
kind!(N, 11, "Nothing", 255, drop = false, zst, align = 16);
kind!(S, 12, "Short", 0x7FFF, 0xFFFF, drop = true, bytes = 2, align = 2);
kind!(D, 13, "Dword", 0x8000, M24, drop = true, bytes = 4, align = 4);
kind!(E, 14, "Extra", 2151, M24, drop = true, bytes = 12, align = 4);
kind!(X, 15, "MaxSize", 0x2000, M24, drop = true, bytes = 65535, align = 1);
kind!(Y, 16, "MaxAlign", 0x0002, M24, drop = true, bytes = 32768, align = 32768);

/// Heap-owning component.
pub struct H {
    v: Box<[u64; 3]>,
}
impl Component for H {
    const NAME: &'static str = "Heap";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0xFFFE);
}
impl Kind for H {
    const K: u8 = 3;
    const MASK: u32 = M24;
    const DROP: bool = true;
    const KNAME: &'static str = "H";
    fn make(tok: u32) -> Self {
        let t = (tok & M24) as u64;
        user(|| H { v: Box::new([t, !t, t.wrapping_mul(0x9E37_79B9_7F4A_7C15)]) })
    }
    fn tok(&self) -> u32 {
        let p = &*self.v as *const [u64; 3] as usize;
        // A wild or null heap pointer means the bytes of the component itself are damaged.
        if p < 4096 || p % 8 != 0 || p == 0xCDCD_CDCD_CDCD_CDCD || p == 0xDDDD_DDDD_DDDD_DDDD {
            return BAD;
        }
        let [a, b, c] = *self.v;
        if b != !a || c != a.wrapping_mul(0x9E37_79B9_7F4A_7C15) || a > M24 as u64 {
            return BAD;
        }
        a as u32
    }
}
impl Drop for H {
    fn drop(&mut self) {
        on_drop(Self::K, self.tok());
        let t = &mut *self.v;
        t[1] = 0; // a second use of this allocation is recognisable
        t[2] = 0xDEAD;
    }
}

/// Component with padding and fields of different widths.
#[repr(C)]
pub struct P {
    a: u8,
    b: u64,
    c: u16,
}
impl Component for P {
    const NAME: &'static str = "Padded";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(11551);
}
impl Kind for P {
    const K: u8 = 6;
    const MASK: u32 = M24;
    const DROP: bool = true;
    const KNAME: &'static str = "P";
    fn make(tok: u32) -> Self {
        let t = tok & M24;
        P { a: t as u8, b: t as u64 | 0xABCD_0000_0000_0000, c: (t >> 8) as u16 }
    }
    fn tok(&self) -> u32 {
        let t = self.b as u32;
        if self.b >> 32 != 0xABCD_0000 || t & M24 != t || self.a != t as u8 || self.c != (t >> 8) as u16 {
            return BAD;
        }
        t
    }
}
impl Drop for P {
    fn drop(&mut self) {
        on_drop(Self::K, self.tok())
    }
}

/// Component owning a growable buffer.
pub struct V {
    v: Vec<u32>,
    s: String,
}
impl Component for V {
    const NAME: &'static str = "Vector";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(12305);
}
impl Kind for V {
    const K: u8 = 10;
    const MASK: u32 = M24;
    const DROP: bool = true;
    const KNAME: &'static str = "V";
    fn make(tok: u32) -> Self {
        let t = tok & M24;
        user(|| V { v: vec![t, !t], s: format!("{t:x}") })
    }
    fn tok(&self) -> u32 {
        let p = self.v.as_ptr() as usize;
        if self.v.len() != 2 || p < 4096 || p % 4 != 0 || self.s.len() > 8 || (self.s.as_ptr() as usize) < 4096 {
            return BAD;
        }
        let t = self.v[0];
        if self.v[1] != !t || u32::from_str_radix(&self.s, 16) != Ok(t) {
            return BAD;
        }
        t
    }
}
impl Drop for V {
    fn drop(&mut self) {
        on_drop(Self::K, self.tok())
    }
}

pub struct KInfo {
    pub name: &'static str,
    pub mask: u32,
    pub drop: bool,
    pub size: usize,
    pub align: usize,
    pub id: u16,
}
fn ki<K: Kind>() -> KInfo {
    KInfo {
        name: K::KNAME,
        mask: K::MASK,
        drop: K::DROP,
        size: std::mem::size_of::<K>(),
        align: std::mem::align_of::<K>(),
        id: K::ID.into_u16(),
    }
}
pub fn kinds() -> &'static [KInfo] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<KInfo>> = OnceLock::new();
    C.get_or_init(|| {
        vec![
            ki::<A>(), ki::<Z>(), ki::<W>(), ki::<H>(), ki::<B>(), ki::<T>(), ki::<P>(), ki::<Q>(), ki::<L>(),
            ki::<G>(), ki::<V>(), ki::<N>(), ki::<S>(), ki::<D>(), ki::<E>(), ki::<X>(), ki::<Y>(),
        ]
    })
}
/// The kind with the given component id.
pub fn kind_of_id(id: u16) -> Option<u8> {
    kinds().iter().position(|k| k.id == id).map(|x| x as u8)
}
