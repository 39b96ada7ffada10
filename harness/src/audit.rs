//! Auditing allocators handed to lokky through its scopes.
use crate::core::*;
use crate::fail;
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;

pub struct Audit(pub u32);

const RZ: usize = 32;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0xDD;
const GUARD: u8 = 0xFB;
/// Requests above this are refused, as a finite machine would.
pub const LIMIT: usize = 16 << 20;
/// Released memory kept aside for inspection, at most.
const DEAD_LIMIT: usize = 64 << 20;

/// Tells the sanitizer which bytes may not be touched (asan) or hold nothing yet (msan).
#[allow(unused_variables)]
mod san {
    #[cfg(feature = "asan")]
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
    #[cfg(feature = "msan")]
    extern "C" {
        fn __msan_poison(p: *const u8, n: usize);
    }
    pub unsafe fn forbid(p: *const u8, n: usize) {
        #[cfg(feature = "asan")]
        __asan_poison_memory_region(p, n);
    }
    pub unsafe fn allow(p: *const u8, n: usize) {
        #[cfg(feature = "asan")]
        __asan_unpoison_memory_region(p, n);
    }
    pub unsafe fn undefined(p: *const u8, n: usize) {
        #[cfg(feature = "msan")]
        __msan_poison(p, n);
    }
}

struct Block {
    base: *mut u8,
    base_layout: Layout,
    front: usize,
    layout: Layout,
    owner: u32,
    live: bool,
    seq: u64,
}

#[derive(Clone)]
pub struct Sel {
    pub scope: u32,
    pub ty: &'static str,
    pub marker: Option<&'static str>,
}

pub struct A {
    blocks: HashMap<usize, Block>,
    dead: Vec<(usize, Block)>,
    dead_bytes: usize,
    pub requests: u64, // alloc + realloc calls
    pub frees: u64,
    pub seq: u64,
    pub fail_at: u64, // refuse the k-th request from now (0 = never)
    pub fail_all: bool,
    pub refused: u64,
    pub live_bytes: usize,
    pub sels: Vec<Sel>,
    pub leak_ok: bool,
    pub served: Vec<u32>, // allocator ids of successful requests
}

static mut AUD: *mut A = core::ptr::null_mut();
pub fn a() -> &'static mut A {
    unsafe {
        if AUD.is_null() {
            AUD = Box::into_raw(Box::new(A {
                blocks: HashMap::new(),
                dead: vec![],
                dead_bytes: 0,
                requests: 0,
                frees: 0,
                seq: 0,
                fail_at: 0,
                fail_all: false,
                refused: 0,
                live_bytes: 0,
                sels: vec![],
                leak_ok: false,
                served: vec![],
            }));
        }
        &mut *AUD
    }
}

impl A {
    pub fn reset(&mut self) {
        self.requests = 0;
        self.frees = 0;
        self.seq = 0;
        self.fail_at = 0;
        self.fail_all = false;
        self.refused = 0;
        self.live_bytes = 0;
        self.sels.clear();
        self.served.clear();
        self.leak_ok = false;
        assert!(self.blocks.is_empty());
    }
    pub fn live_blocks(&self) -> usize {
        self.blocks.len()
    }
    fn refuse(&mut self) -> bool {
        if self.fail_at > 0 {
            self.fail_at -= 1;
            if self.fail_at == 0 {
                self.refused += 1;
                return true;
            }
        }
        false
    }
    unsafe fn get(&mut self, owner: u32, layout: Layout) -> *mut u8 {
        if cfg!(miri) {
            // Miri itself tracks bounds, initialisation and lifetime of the exact block.
            let p = System.alloc(layout);
            self.blocks.insert(
                p as usize,
                Block { base: p, base_layout: layout, front: 0, layout, owner, live: true, seq: self.seq },
            );
            self.seq += 1;
            return p;
        }
        let front = (RZ.max(layout.align()) + layout.align() - 1) / layout.align() * layout.align();
        let total = front + layout.size() + RZ;
        let bl = Layout::from_size_align_unchecked(total, layout.align().max(16));
        let base = System.alloc(bl);
        assert!(!base.is_null(), "harness out of memory");
        core::ptr::write_bytes(base, GUARD, front);
        core::ptr::write_bytes(base.add(front), FRESH, layout.size());
        core::ptr::write_bytes(base.add(front + layout.size()), GUARD, RZ);
        let p = base.add(front);
        san::undefined(p, layout.size());
        san::forbid(base, front);
        san::forbid(p.add(layout.size()), RZ);
        self.seq += 1;
        self.live_bytes += layout.size();
        self.blocks.insert(
            p as usize,
            Block { base, base_layout: bl, front, layout, owner, live: true, seq: self.seq },
        );
        self.served.push(owner);
        p
    }
    unsafe fn check_guard(b: &Block, what: &str) {
        if cfg!(miri) {
            return;
        }
        san::allow(b.base, b.front);
        san::allow(b.base.add(b.front + b.layout.size()), RZ);
        for i in 0..b.front {
            if *b.base.add(i) != GUARD {
                fail!(K::Block, "{}: write before the start of block #{} ({:?})", what, b.seq, b.layout);
                break;
            }
        }
        for i in 0..RZ {
            if *b.base.add(b.front + b.layout.size() + i) != GUARD {
                fail!(K::Block, "{}: write past the end of block #{} ({:?})", what, b.seq, b.layout);
                break;
            }
        }
    }
    unsafe fn put(&mut self, owner: u32, ptr: *mut u8, layout: Layout, what: &str) -> bool {
        let Some(mut b) = self.blocks.remove(&(ptr as usize)) else {
            let known = self.dead.iter().any(|(p, _)| *p == ptr as usize);
            if known {
                fail!(K::Block, "{}: block released twice ({:?})", what, layout);
            } else {
                fail!(K::Block, "{}: pointer was never obtained from any allocator ({:?})", what, layout);
            }
            return false;
        };
        if b.owner != owner {
            fail!(K::Block, "{}: block #{} of allocator {} given to allocator {}", what, b.seq, b.owner, owner);
        }
        if b.layout != layout {
            fail!(K::Block, "{}: block #{} obtained as {:?} released as {:?}", what, b.seq, b.layout, layout);
        }
        Self::check_guard(&b, what);
        self.frees += 1;
        self.live_bytes -= b.layout.size().min(self.live_bytes);
        b.live = false;
        if cfg!(miri) {
            System.dealloc(ptr, b.layout);
            return true;
        }
        core::ptr::write_bytes(ptr, FREED, b.layout.size());
        san::forbid(b.base, b.base_layout.size());
        self.dead_bytes += b.base_layout.size();
        self.dead.push((ptr as usize, b));
        if self.dead_bytes > DEAD_LIMIT {
            // Histories on thousands of elements: look at the older half now and let it go.
            let n = self.dead.len() / 2;
            for (p, b) in self.dead.drain(..n) {
                self.dead_bytes -= b.base_layout.size();
                Self::bury(p, b);
            }
        }
        true
    }
    unsafe fn bury(p: usize, b: Block) {
        san::allow(b.base, b.base_layout.size());
        let s = core::slice::from_raw_parts(p as *const u8, b.layout.size());
        if s.iter().any(|&x| x != FREED) {
            fail!(K::Block, "block #{} ({:?}) written after release", b.seq, b.layout);
        }
        Self::check_guard(&b, "end of case");
        System.dealloc(b.base, b.base_layout);
    }
    /// End of a case: leak and write-after-release checks, then really release everything.
    pub fn finish(&mut self) {
        unsafe {
            for (p, b) in self.dead.drain(..) {
                Self::bury(p, b);
            }
            self.dead_bytes = 0;
            let mut live: Vec<(usize, Block)> = self.blocks.drain().collect();
            live.sort_by_key(|(_, b)| b.seq);
            if !live.is_empty() && !self.leak_ok {
                let (_, b) = &live[0];
                fail!(
                    K::BlockLeak,
                    "{} block(s) never released after all owners are gone, first #{} {:?}",
                    live.len(),
                    b.seq,
                    b.layout
                );
            }
            for (p, b) in live {
                Self::check_guard(&b, "end of case");
                let _ = p;
                System.dealloc(b.base, b.base_layout);
            }
        }
    }
}

unsafe impl GlobalAlloc for Audit {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let a = a();
        a.requests += 1;
        if layout.size() == 0 {
            fail!(K::Zero, "zero-sized request (align {})", layout.align());
        }
        if a.refuse() {
            return core::ptr::null_mut();
        }
        if layout.size() > LIMIT {
            a.refused += 1;
            return core::ptr::null_mut();
        }
        a.get(self.0, layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if layout.size() == 0 {
            fail!(K::Zero, "release with zero size (align {})", layout.align());
        }
        a().put(self.0, ptr, layout, "release");
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let a = a();
        a.requests += 1;
        if new_size == 0 || layout.size() == 0 {
            fail!(K::Zero, "resize from {} to {} bytes", layout.size(), new_size);
        }
        if new_size > isize::MAX as usize - (layout.align() - 1) {
            fail!(K::Zero, "resize to {} bytes, above the allocator contract's limit", new_size);
        }
        if a.refuse() {
            return core::ptr::null_mut();
        }
        if new_size > LIMIT {
            a.refused += 1;
            return core::ptr::null_mut();
        }
        match a.blocks.get(&(ptr as usize)) {
            None => {
                fail!(K::Block, "resize of a pointer that is not a live block ({:?})", layout);
                a.get(self.0, Layout::from_size_align_unchecked(new_size.max(1), layout.align()))
            }
            Some(b) => {
                let n = b.layout.size().min(new_size);
                let new = a.get(self.0, Layout::from_size_align_unchecked(new_size, layout.align()));
                core::ptr::copy_nonoverlapping(ptr, new, n);
                a.put(self.0, ptr, layout, "resize");
                new
            }
        }
    }
}

// ---- scopes -------------------------------------------------------------------------------------------

pub struct M1;
pub struct M2;
pub struct M3;

pub fn marker(n: u32) -> AllocMarker {
    match n % 4 {
        0 => AllocMarker::None,
        1 => AllocMarker::new::<M1>(),
        2 => AllocMarker::new::<M2>(),
        _ => AllocMarker::new::<M3>(),
    }
}
pub fn marker_name(m: AllocMarker) -> Option<&'static str> {
    match m {
        AllocMarker::None => None,
        AllocMarker::Type(s) => Some(s),
    }
}

pub const NA: usize = 64;
pub static ALLOCS: [Audit; NA] = {
    let mut v = [const { Audit(0) }; NA];
    let mut i = 0;
    while i < NA {
        v[i] = Audit(i as u32);
        i += 1;
    }
    v
};

/// Allocator index for a scope and marker, so that each (scope, marker) pair has its own allocator.
pub fn alloc_ix(scope: u32, m: Option<&str>) -> u32 {
    let k = match m {
        None => 0,
        Some(s) if s.ends_with("M1") => 1,
        Some(s) if s.ends_with("M2") => 2,
        Some(_) => 3,
    };
    (scope % 16) * 4 + k
}

pub fn serve(scope: u32, s: AllocSelector) -> &'static dyn GlobalAlloc {
    let m = marker_name(s.marker());
    let al = a();
    if al.sels.len() < 4096 {
        al.sels.push(Sel { scope, ty: s.ty(), marker: m });
    }
    &ALLOCS[alloc_ix(scope, m) as usize]
}

pub struct HScope {
    pub id: u32,
}
impl Scope for HScope {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(self.id, s)
    }
}

static mut ROOT: HScope = HScope { id: 0 };
static mut ENV: Option<Env> = None;

pub fn env() -> &'static mut Env {
    unsafe { ENV.as_mut().unwrap() }
}

pub fn reset_env() {
    unsafe {
        ENV = Some(Env::new(&mut *(&raw mut ROOT)));
        scope::ENV = Some(env);
    }
}
