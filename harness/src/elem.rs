//! Element types of several size classes whose life is tracked in a ledger.
use crate::core::*;
use crate::fail;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

pub trait Elem: Clone + Ord + Hash + fmt::Debug + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    const TRACKED: bool = true;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    fn set(&mut self, v: u32);
    fn norm(v: u32) -> u32 {
        v
    }
    fn id(&self) -> u64 {
        0
    }
}

const LIVE: u32 = 0x600D_600D;
const DEAD: u32 = 0xDEAD_DEAD;

pub struct Tok {
    magic: u32,
    val: u32,
    id: u64,
}

fn new_id() -> u64 {
    let g = g();
    g.state.push(1);
    if g.state.len() > 2_000_000 {
        eprintln!("runaway element creation");
        std::process::exit(4);
    }
    (g.state.len() - 1) as u64
}

impl Tok {
    pub fn new(v: u32) -> Tok {
        Tok { magic: LIVE, val: v, id: new_id() }
    }
    #[inline(never)]
    fn check(&self, what: &str) -> bool {
        let st = g().state.get(self.id as usize).copied();
        match st {
            Some(1) if self.magic == LIVE => true,
            Some(2) => {
                fail!(K::DeadRead, "{}: element #{} was already dropped", what, self.id);
                false
            }
            _ => {
                fail!(K::DeadRead, "{}: not a valid element (magic {:#x}, id {:#x})", what, self.magic, self.id);
                false
            }
        }
    }
    pub fn get(&self) -> u32 {
        self.check("read");
        self.val
    }
    pub fn ident(&self) -> u64 {
        self.id
    }
    pub fn is_live(id: u64) -> bool {
        g().state.get(id as usize) == Some(&1)
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("clone");
        tick();
        g().clones += 1;
        Tok { magic: LIVE, val: self.val, id: new_id() }
    }
}

impl Drop for Tok {
    #[inline(never)]
    fn drop(&mut self) {
        let g = g();
        match g.state.get(self.id as usize) {
            Some(1) if self.magic == LIVE => {
                g.state[self.id as usize] = 2;
                unsafe { core::ptr::write_volatile(&mut self.magic, DEAD) };
                tick();
            }
            Some(2) => fail!(K::DoubleDrop, "element #{} (value {}) dropped again", self.id, self.val),
            _ => fail!(K::DeadRead, "destructor run on something that is no element (magic {:#x}, id {:#x})", self.magic, self.id),
        }
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        tick();
        self.get().cmp(&o.get())
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.get().hash(h)
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "<{}>", self.get())
    }
}

impl Elem for Tok {
    const NAME: &'static str = "tok16";
    fn mk(v: u32) -> Self {
        Tok::new(v)
    }
    fn val(&self) -> u32 {
        self.get()
    }
    fn set(&mut self, v: u32) {
        self.check("write");
        self.val = v
    }
    fn id(&self) -> u64 {
        self.id
    }
}

macro_rules! wrap {
    ($n:ident, $name:expr, $(#[$at:meta])* { $($f:ident : $t:ty = $e:expr),* }) => {
        $(#[$at])*
        #[derive(Clone)]
        pub struct $n { t: Tok, $(pub $f: $t),* }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.t == o.t } }
        impl Eq for $n {}
        impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.t.cmp(&o.t)) } }
        impl Ord for $n { fn cmp(&self, o: &Self) -> Ordering { self.t.cmp(&o.t) } }
        impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { self.t.hash(h) } }
        impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.t) } }
        impl Elem for $n {
            const NAME: &'static str = $name;
            fn mk(v: u32) -> Self { $n { t: Tok::new(v), $($f: $e),* } }
            fn val(&self) -> u32 { self.t.get() }
            fn set(&mut self, v: u32) { self.t.set(v) }
            fn id(&self) -> u64 { self.t.id }
        }
    };
}
wrap!(Big, "big1040", { pad: [u8; 1024] = [7; 1024] });
wrap!(Al, "align256", #[repr(align(256))] {});

macro_rules! plain {
    ($t:ty, $name:expr, $norm:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            const TRACKED: bool = false;
            fn mk(v: u32) -> Self {
                ($norm)(v) as $t
            }
            fn val(&self) -> u32 {
                *self as u32
            }
            fn set(&mut self, v: u32) {
                *self = ($norm)(v) as $t
            }
            fn norm(v: u32) -> u32 {
                ($norm)(v)
            }
        }
    };
}
plain!(u8, "u8", |v: u32| v & 0xff);
plain!(u32, "u32", |v: u32| v);

/// Three bytes, so that sizes are no power of two.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Odd([u8; 3]);
impl fmt::Debug for Odd {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl Elem for Odd {
    const NAME: &'static str = "odd3";
    const TRACKED: bool = false;
    fn mk(v: u32) -> Self {
        Odd([(v >> 16) as u8, (v >> 8) as u8, v as u8])
    }
    fn val(&self) -> u32 {
        (self.0[0] as u32) << 16 | (self.0[1] as u32) << 8 | self.0[2] as u32
    }
    fn set(&mut self, v: u32) {
        *self = Odd::mk(v)
    }
    fn norm(v: u32) -> u32 {
        v & 0xff_ffff
    }
}

// Zero-sized elements; only the number of live instances can be tracked.
macro_rules! zst {
    ($Z:ident, $name:expr, $(#[$m:meta])*) => {
$(#[$m])*
pub struct $Z(());
impl Clone for $Z {
    fn clone(&self) -> Self {
        tick();
        $Z::mk(0)
    }
}
impl Drop for $Z {
    fn drop(&mut self) {
        let g = g();
        g.zst_live -= 1;
        if g.zst_live < 0 {
            fail!(K::DoubleDrop, "more zero-sized elements dropped than created");
        }
        tick();
    }
}
impl PartialEq for $Z {
    fn eq(&self, _: &Self) -> bool {
        tick();
        true
    }
}
impl Eq for $Z {}
impl PartialOrd for $Z {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        Some(Ordering::Equal)
    }
}
impl Ord for $Z {
    fn cmp(&self, _: &Self) -> Ordering {
        Ordering::Equal
    }
}
impl Hash for $Z {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl fmt::Debug for $Z {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "0")
    }
}
impl Elem for $Z {
    const NAME: &'static str = $name;
    const ZST: bool = true;
    fn mk(_: u32) -> Self {
        g().zst_live += 1;
        $Z(())
    }
    fn val(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
}
    };
}
zst!(Zst, "zst",);
zst!(Za, "zst_align32", #[repr(align(32))]);
