//! Small multi-threaded programs over shared counted pointers (C16, C18).
//!
//! Nothing here synchronises the threads beyond starting, joining and handing pointers over: the ledgers use
//! relaxed atomics only and payload fields are plain memory, so that a missing ordering in the library shows
//! as a data race (under Miri), a double drop, a leak, a stale read or a use after release.
use crate::core::*;
use lokky::scope::{self, AllocSelector, Env, Envelop, Envelope, Scope, ScopeRecv};
use lokky::{arc, urc};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

// ---- ledgers -------------------------------------------------------------------------------------------

const NID: usize = 4096;
static STATE: [AtomicU8; NID] = [const { AtomicU8::new(0) }; NID];
static NEXT: AtomicU32 = AtomicU32::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static FAILED: AtomicBool = AtomicBool::new(false);
static MESSAGES: Mutex<Vec<(K, String)>> = Mutex::new(Vec::new());

fn bad(k: K, m: String) {
    FAILED.store(true, Relaxed);
    let mut v = MESSAGES.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() < 8 {
        v.push((k, m));
    }
}
macro_rules! bad {
    ($k:expr, $($t:tt)*) => { bad($k, format!($($t)*)) };
}

const L: [&str; 15] = [
    "read", "cloned", "weak_made", "get_mut_granted", "get_mut_refused", "make_mut_same_block", "make_mut_new_block",
    "unwrapped", "unwrap_refused", "handed_over", "received", "fence_made", "through_shared_ref", "strong_dropped_in_thread", "interior_write",
];
static LAB: [AtomicU32; 15] = [const { AtomicU32::new(0) }; 15];
fn lab(i: usize) {
    LAB[i].fetch_add(1, Relaxed);
}

// ---- allocators ----------------------------------------------------------------------------------------

struct TA(u32);
static TAS: [TA; 4] = [TA(1), TA(2), TA(3), TA(4)];
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    owner: u32,
}
const GOOD: u64 = 0x600D_B10C_600D_B10C;
const GONE: u64 = 0xDEAD_B10C_DEAD_B10C;

fn front(align: usize) -> usize {
    align.max(32)
}
unsafe impl GlobalAlloc for TA {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let f = front(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(f + l.size(), l.align().max(16)));
        assert!(!base.is_null());
        let p = base.add(f);
        (p.sub(32) as *mut Head).write(Head { magic: GOOD, size: l.size(), align: l.align(), owner: self.0 });
        BLOCKS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &mut *(p.sub(32) as *mut Head);
        if h.magic != GOOD {
            bad!(K::Block, "release of a block that is not live");
            return;
        }
        if h.size != l.size() || h.align != l.align() || h.owner != self.0 {
            bad!(K::Block, "block of {} bytes of allocator {} released as {} bytes to allocator {}", h.size, h.owner, l.size(), self.0);
            return;
        }
        h.magic = GONE;
        if !cfg!(miri) {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        BLOCKS.fetch_sub(1, Relaxed);
        let f = front(l.align());
        System.dealloc(p.sub(f), Layout::from_size_align_unchecked(f + l.size(), l.align().max(16)));
    }
}

struct TScope(u32);
impl Scope for TScope {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        &TAS[self.0 as usize % 4]
    }
}
static mut ROOTS: [TScope; 4] = [TScope(0), TScope(1), TScope(2), TScope(3)];
thread_local! {
    static TENV: UnsafeCell<Option<Env>> = const { UnsafeCell::new(None) };
}
fn tenv() -> &'static mut Env {
    TENV.with(|e| unsafe { (*e.get()).as_mut().unwrap() })
}
fn enter(tid: usize) {
    TENV.with(|e| unsafe {
        let root = (&raw mut ROOTS) as *mut TScope;
        *e.get() = Some(Env::new(&mut *root.add(tid % 4)));
    });
}

// ---- payload -------------------------------------------------------------------------------------------

/// Plain memory: every access is visible to the race detector.
pub struct P {
    id: u32,
    a: u64,
    b: u64,
    /// Written through shared access too; whoever is alone reads it as plain memory.
    m: AtomicU64,
}
fn fresh() -> u32 {
    let i = NEXT.fetch_add(1, Relaxed);
    if (i as usize) < NID {
        STATE[i as usize].store(1, Relaxed);
    }
    i
}
impl P {
    fn new(v: u64) -> P {
        P { id: fresh(), a: v, b: !v, m: AtomicU64::new(0) }
    }
    fn touch(&self) {
        self.m.fetch_add(1, Relaxed);
    }
    /// What an exclusive owner may do: plain reads and writes of everything.
    fn own(&mut self) {
        let m = unsafe { std::ptr::read_volatile(self.m.get_mut()) };
        if m > 1 << 20 {
            bad!(K::Content, "the counter of the value is {:#x}", m);
        }
        *self.m.get_mut() = m + 1;
    }
    fn set(&mut self, v: u64) {
        self.own();
        self.a = v;
        self.b = !v;
    }
    fn check(&self, exp: u64, what: &str) {
        let (a, b, id) = (self.a, self.b, self.id);
        if STATE.get(id as usize).map_or(false, |s| s.load(Relaxed) != 1) || id > 1 << 20 {
            bad!(K::DeadRead, "{}: the value was already dropped", what);
        } else if a != !b {
            bad!(K::Content, "{}: the value is torn: {:#x} {:#x}", what, a, b);
        } else if a != exp {
            bad!(K::Content, "{}: the value is {:#x} but was {:#x} when this pointer was made or last written through", what, a, exp);
        }
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        let (a, b) = (self.a, self.b);
        if a != !b {
            bad!(K::Content, "clone: the value is torn: {:#x} {:#x}", a, b);
        }
        P { id: fresh(), a, b, m: AtomicU64::new(self.m.load(Relaxed)) }
    }
}
impl Drop for P {
    fn drop(&mut self) {
        self.own();
        if self.a != !self.b {
            bad!(K::Content, "destructor: the value is torn or gone: {:#x} {:#x}", self.a, self.b);
        }
        if let Some(s) = STATE.get(self.id as usize) {
            if s.swap(2, Relaxed) != 1 {
                bad!(K::DoubleDrop, "value dropped twice");
            }
        }
        unsafe {
            std::ptr::write_volatile(&mut self.a, 0);
            std::ptr::write_volatile(&mut self.b, 0);
        }
    }
}

// ---- the two kinds of pointer --------------------------------------------------------------------------

struct Recv;
impl ScopeRecv<'static> for Recv {}

trait Kind: 'static {
    type S: 'static;
    type W: 'static;
    /// What may be sent as it is.
    type D: Send + 'static;
    /// What may be used by several threads at once.
    type Sh: Sync;
    fn new(p: P) -> Self::S;
    fn clone(s: &Self::S) -> Self::S;
    fn down(s: &Self::S) -> Self::W;
    fn get(s: &Self::S) -> &P;
    fn get_mut(s: &mut Self::S) -> Option<&mut P>;
    fn make_mut(s: &mut Self::S) -> &mut P;
    fn unwrap(s: Self::S) -> Result<P, Self::S>;
    fn envelop(s: &Self::S) -> Envelope<'static, Self::S>;
    fn direct(s: Self::S) -> Result<Self::D, Self::S>;
    fn undirect(d: Self::D) -> Self::S;
    /// Counts seen from here that may not be below the number of handles this thread holds.
    fn counts(s: &Self::S) -> (usize, usize);
    /// Group of handles that `counts` is about.
    fn group(s: &Self::S) -> usize;
    fn share(v: Vec<Self::S>) -> Self::Sh;
    fn shared(s: &Self::Sh) -> &[Self::S];
    /// At rest, with all handles known: is what the pointer says right?
    fn settle(s: &Self::S, strong: usize, weak: usize, groups: usize);
}

struct KArc;
impl Kind for KArc {
    type S = arc::Arc<P>;
    type W = arc::Weak<P>;
    type D = arc::Arc<P>;
    type Sh = Vec<arc::Arc<P>>;
    fn new(p: P) -> Self::S {
        arc::Arc::new(p)
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn down(s: &Self::S) -> Self::W {
        arc::Arc::downgrade(s)
    }
    fn get(s: &Self::S) -> &P {
        s
    }
    fn get_mut(s: &mut Self::S) -> Option<&mut P> {
        arc::Arc::get_mut(s)
    }
    fn make_mut(s: &mut Self::S) -> &mut P {
        arc::Arc::make_mut(s)
    }
    fn unwrap(s: Self::S) -> Result<P, Self::S> {
        arc::Arc::try_unwrap(s)
    }
    fn envelop(s: &Self::S) -> Envelope<'static, Self::S> {
        s.envelop(&Recv)
    }
    fn direct(s: Self::S) -> Result<Self::D, Self::S> {
        Ok(s)
    }
    fn undirect(d: Self::D) -> Self::S {
        d
    }
    fn counts(s: &Self::S) -> (usize, usize) {
        (arc::Arc::strong_count(s), arc::Arc::weak_count(s))
    }
    fn group(s: &Self::S) -> usize {
        arc::Arc::as_ptr(s) as usize
    }
    fn share(v: Vec<Self::S>) -> Self::Sh {
        v
    }
    fn shared(s: &Self::Sh) -> &[Self::S] {
        s
    }
    fn settle(s: &Self::S, strong: usize, weak: usize, _: usize) {
        let (a, b) = Self::counts(s);
        if a != strong || b != weak {
            bad!(K::Count, "at rest the counts are {} strong and {} weak, but {} and {} exist", a, b, strong, weak);
        }
    }
}

struct KUrc;
impl Kind for KUrc {
    type S = urc::Urc<P>;
    type W = urc::Weak<P>;
    type D = urc::Fence<P>;
    type Sh = ();
    fn new(p: P) -> Self::S {
        urc::Urc::new(p)
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn down(s: &Self::S) -> Self::W {
        urc::Urc::downgrade(s)
    }
    fn get(s: &Self::S) -> &P {
        s
    }
    fn get_mut(s: &mut Self::S) -> Option<&mut P> {
        urc::Urc::get_mut(s)
    }
    fn make_mut(s: &mut Self::S) -> &mut P {
        urc::Urc::make_mut(s)
    }
    fn unwrap(s: Self::S) -> Result<P, Self::S> {
        urc::Urc::try_unwrap(s)
    }
    fn envelop(s: &Self::S) -> Envelope<'static, Self::S> {
        s.envelop(&Recv)
    }
    fn direct(s: Self::S) -> Result<Self::D, Self::S> {
        urc::Urc::try_into_fence(s).map(|f| {
            lab(11);
            f.into_inner()
        })
    }
    fn undirect(d: Self::D) -> Self::S {
        d.into_urc()
    }
    fn counts(s: &Self::S) -> (usize, usize) {
        (urc::Urc::fence_strong_count(s), urc::Urc::fence_weak_count(s))
    }
    fn group(s: &Self::S) -> usize {
        urc::Urc::fence_of(s) as *const _ as usize
    }
    fn share(v: Vec<Self::S>) -> Self::Sh {
        drop(v);
    }
    fn shared(_: &Self::Sh) -> &[Self::S] {
        &[]
    }
    fn settle(s: &Self::S, strong: usize, weak: usize, groups: usize) {
        let (a, b) = Self::counts(s);
        if a != strong || b != weak {
            bad!(K::Count, "at rest the fence counts are {} strong and {} weak, but {} and {} exist", a, b, strong, weak);
        }
        if urc::Urc::is_sole_strong_fence(s) != (groups == 1) {
            bad!(K::Count, "at rest is_sole_strong_fence is {} with {} strong fence(s)", groups != 1, groups);
        }
    }
}

// ---- programs ------------------------------------------------------------------------------------------

enum Mail<Kd: Kind> {
    Env(Envelope<'static, Kd::S>, u64),
    Dir(Kd::D, u64),
}
struct Held<Kd: Kind> {
    s: Vec<(Kd::S, u64)>,
    w: Vec<(Kd::W, usize)>,
}

struct Ctx<'a, Kd: Kind> {
    post: &'a [Mutex<Vec<Mail<Kd>>>],
    shared: &'a Kd::Sh,
    shared_exp: &'a [u64],
    ready: &'a AtomicUsize,
    threads: usize,
    /// No more weak pointers than this are ever made.
    weaks: usize,
}

/// A burst stands for a pair of operations repeated many times, so that those of several threads meet.
fn expand(ops: &[Op]) -> Vec<Op> {
    let mut v = vec![];
    for o in ops {
        if o[0] != 14 {
            v.push(*o);
            continue;
        }
        let pair = [(7, 7), (3, 11), (1, 2), (4, 4), (7, 4), (5, 0), (6, 0), (3, 11)][o[3] as usize % 8];
        let n = if cfg!(miri) { 2 + o[2] } else { 4 << (2 * o[2]) };
        for _ in 0..n {
            v.push([pair.0, o[1], o[2], o[3], 0]);
            v.push([pair.1, o[1], o[2], o[3], 0]);
        }
    }
    v
}

fn run_ops<Kd: Kind>(cx: &Ctx<Kd>, tid: usize, h: &mut Held<Kd>, ops: &[Op]) {
    if !cfg!(miri) {
        // start together
        cx.ready.fetch_add(1, Relaxed);
        let mut n = 0;
        while cx.ready.load(Relaxed) < cx.threads && n < 20_000 {
            std::hint::spin_loop();
            n += 1;
        }
    }
    for (no, o) in expand(ops).iter().enumerate() {
        if FAILED.load(Relaxed) {
            return;
        }
        let (x, y) = (o[2] as usize, o[3] as usize);
        let newv = ((tid as u64 + 1) << 32) | ((no as u64 + 1) << 8) | 0x5A;
        let n = h.s.len();
        let i = if n > 0 { x % n } else { 0 };
        match o[0] {
            // what needs no own handle
            9 => {
                let m = cx.post[y % cx.post.len()].lock().unwrap().pop();
                if let Some(m) = m {
                    lab(10);
                    let (s, e) = match m {
                        Mail::Env(e, v) => (Recv.recv(e), v),
                        Mail::Dir(d, v) => (Kd::undirect(d), v),
                    };
                    Kd::get(&s).check(e, "received");
                    h.s.push((s, e));
                }
                continue;
            }
            10 => {
                let sh = Kd::shared(cx.shared);
                if !sh.is_empty() {
                    lab(12);
                    let k = x % sh.len();
                    Kd::get(&sh[k]).check(cx.shared_exp[k], "shared");
                    if y % 2 == 0 {
                        h.s.push((Kd::clone(&sh[k]), cx.shared_exp[k]));
                    } else {
                        h.w.push((Kd::down(&sh[k]), Kd::group(&sh[k])));
                    }
                }
                continue;
            }
            11 => {
                if !h.w.is_empty() {
                    let k = x % h.w.len();
                    drop(h.w.swap_remove(k));
                }
                continue;
            }
            12 => {
                if n < 6 {
                    h.s.push((Kd::new(P::new(newv)), newv));
                }
                continue;
            }
            _ if n == 0 => continue,
            0 => {
                lab(0);
                Kd::get(&h.s[i].0).check(h.s[i].1, "read")
            }
            1 => {
                if n < 6 {
                    lab(1);
                    let c = (Kd::clone(&h.s[i].0), h.s[i].1);
                    h.s.push(c);
                }
            }
            2 => {
                lab(13);
                drop(h.s.swap_remove(i))
            }
            3 => {
                if h.w.len() < 4 {
                    lab(2);
                    let w = (Kd::down(&h.s[i].0), Kd::group(&h.s[i].0));
                    h.w.push(w);
                }
            }
            4 => {
                let own = h.s.iter().filter(|q| Kd::group(&q.0) == Kd::group(&h.s[i].0)).count();
                let (s, e) = &mut h.s[i];
                match Kd::get_mut(s) {
                    Some(p) => {
                        lab(3);
                        if own > 1 {
                            bad!(K::Excl, "exclusive access granted with {} pointers in this very thread", own);
                        }
                        p.check(*e, "get_mut");
                        p.set(newv);
                        *e = newv;
                    }
                    None => lab(4),
                }
            }
            5 => {
                let (s, e) = &mut h.s[i];
                let before = Kd::get(s) as *const P;
                let p = Kd::make_mut(s);
                lab(if p as *const P == before { 5 } else { 6 });
                p.check(*e, "make_mut");
                p.set(newv);
                *e = newv;
            }
            6 => {
                let (s, e) = h.s.swap_remove(i);
                match Kd::unwrap(s) {
                    Ok(mut p) => {
                        lab(7);
                        p.own();
                        p.check(e, "unwrapped");
                        if y % 2 == 0 {
                            h.s.push((Kd::new(p), e));
                        }
                    }
                    Err(s) => {
                        lab(8);
                        Kd::get(&s).check(e, "refused unwrap");
                        h.s.push((s, e));
                    }
                }
            }
            13 => {
                lab(14);
                Kd::get(&h.s[i].0).touch()
            }
            7 => {
                let gr = Kd::group(&h.s[i].0);
                let own = h.s.iter().filter(|q| Kd::group(&q.0) == gr).count();
                let weak = h.w.iter().filter(|q| q.1 == gr).count();
                let (a, b) = Kd::counts(&h.s[i].0);
                if a < own || b < weak || a > 200 || b > cx.weaks {
                    bad!(K::Count, "counts are {} strong and {} weak, but this thread alone holds {} and {}, and {} weak pointers at most are ever made", a, b, own, weak, cx.weaks);
                }
            }
            _ => {
                // hand over: by envelope, or the pointer itself in its sendable form
                lab(9);
                let k = y / 2 % cx.post.len();
                if y % 2 == 0 {
                    let m = Mail::Env(Kd::envelop(&h.s[i].0), h.s[i].1);
                    cx.post[k].lock().unwrap().push(m);
                } else {
                    let (s, e) = h.s.swap_remove(i);
                    match Kd::direct(s) {
                        Ok(d) => cx.post[k].lock().unwrap().push(Mail::Dir(d, e)),
                        Err(s) => h.s.push((s, e)),
                    }
                }
            }
        }
    }
}

fn program<Kd: Kind>(c: &Case) {
    let nthreads = 1 + c.cfg[0] as usize % 3; // besides the main one
    let nvals = 1 + c.cfg[1] as usize % 2;
    let spread = c.cfg[2];
    let post: Vec<Mutex<Vec<Mail<Kd>>>> = (0..nthreads + 1).map(|_| Mutex::new(vec![])).collect();
    let ready = AtomicUsize::new(0);
    let vals: Vec<(Kd::S, u64)> = (0..nvals).map(|k| (Kd::new(P::new(0x100 + k as u64)), 0x100 + k as u64)).collect();
    let shared_vals: Vec<usize> = if spread & 1 == 1 { (0..nvals).collect() } else { vec![] };
    let shared_exp: Vec<u64> = shared_vals.iter().map(|&k| vals[k].1).collect();
    let shared = Kd::share(shared_vals.iter().map(|&k| Kd::clone(&vals[k].0)).collect());
    let mut main = Held::<Kd> { s: vec![], w: vec![] };
    if spread & 2 == 2 {
        main.w.push((Kd::down(&vals[0].0), Kd::group(&vals[0].0)));
    }
    let mut left: Vec<(Kd::S, u64)> = vec![];
    let weaks = (spread >> 1 & 1) as usize + c.ops.iter().filter(|o| matches!(o[0], 3 | 10 | 14)).count();
    {
        let cx = Ctx { post: &post, shared: &shared, shared_exp: &shared_exp, ready: &ready, threads: nthreads + 1, weaks };
        std::thread::scope(|sc| {
            let mut js = vec![];
            for t in 1..=nthreads {
                let mut init: Vec<Mail<Kd>> = vec![];
                for (k, (s, v)) in vals.iter().enumerate() {
                    let n = (c.cfg[3] >> (4 * t + 2 * k)) & 3;
                    for _ in 0..n.max((k == 0) as u32).min(2) {
                        init.push(Mail::Env(Kd::envelop(s), *v));
                    }
                }
                let ops: Vec<Op> = c.ops.iter().filter(|o| o[1] as usize % (nthreads + 1) == t).copied().collect();
                let cx = &cx;
                js.push(sc.spawn(move || {
                    enter(t);
                    let mut h = Held::<Kd> { s: vec![], w: vec![] };
                    for m in init {
                        if let Mail::Env(e, v) = m {
                            h.s.push((Recv.recv(e), v));
                        }
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_ops(cx, t, &mut h, &ops)));
                    if r.is_err() {
                        bad!(K::Panic, "an operation panicked");
                    }
                    let mut out = vec![];
                    if FAILED.load(Relaxed) {
                        std::mem::forget(h);
                        return out;
                    }
                    h.w.reverse();
                    if spread >> (4 + t) & 1 == 1 {
                        drop(h.w);
                        h.w = vec![];
                    }
                    for (k, (s, v)) in h.s.drain(..).enumerate() {
                        if spread >> (8 + k) & 1 == 1 {
                            if let Ok(d) = Kd::direct(s) {
                                out.push((d, v));
                            }
                        } else {
                            drop(s);
                        }
                    }
                    drop(h.w);
                    out
                }));
            }
            // the main thread takes part; it may keep its handles or give them up first
            let mut vals = vals;
            if spread & 4 == 4 {
                vals.truncate(1);
            }
            if spread & 8 == 8 {
                vals.clear();
            }
            main.s = vals;
            let ops: Vec<Op> = c.ops.iter().filter(|o| o[1] as usize % (nthreads + 1) == 0).copied().collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_ops(&cx, 0, &mut main, &ops)));
            if r.is_err() {
                bad!(K::Panic, "an operation panicked");
            }
            for j in js {
                match j.join() {
                    Ok(v) => left.extend(v.into_iter().map(|(d, v)| (Kd::undirect(d), v))),
                    Err(_) => bad!(K::Panic, "dropping the pointers of a thread panicked"),
                }
            }
        });
    }
    if FAILED.load(Relaxed) {
        std::mem::forget((post, shared, main, left));
        return;
    }
    // at rest
    for p in &post {
        for m in p.lock().unwrap().drain(..) {
            match m {
                Mail::Env(e, v) => left.push((Recv.recv(e), v)),
                Mail::Dir(d, _) => drop(d),
            }
        }
    }
    drop(shared);
    main.s.append(&mut left);
    for (s, e) in &main.s {
        Kd::get(s).check(*e, "at rest");
        let gr = Kd::group(s);
        let strong = main.s.iter().filter(|q| Kd::group(&q.0) == gr).count();
        let weak = main.w.iter().filter(|q| q.1 == gr).count();
        let mut groups: Vec<usize> = main.s.iter().filter(|q| std::ptr::eq(Kd::get(&q.0), Kd::get(s))).map(|q| Kd::group(&q.0)).collect();
        groups.sort_unstable();
        groups.dedup();
        Kd::settle(s, strong, weak, groups.len());
    }
    // a value with one pointer left is exclusively accessible
    let mut k = 0;
    while k < main.s.len() {
        let p = Kd::get(&main.s[k].0) as *const P;
        let gr = Kd::group(&main.s[k].0);
        let sole = main.s.iter().filter(|q| std::ptr::eq(Kd::get(&q.0), p)).count() == 1;
        if sole && main.w.is_empty() {
            if Kd::get_mut(&mut main.s[k].0).is_none() {
                bad!(K::Excl, "at rest the only pointer of a value is refused exclusive access");
            }
            let (s, e) = main.s.swap_remove(k);
            match Kd::unwrap(s) {
                Ok(v) => v.check(e, "unwrapped at rest"),
                Err(_) => bad!(K::Excl, "at rest the only pointer of a value cannot be unwrapped"),
            }
            let _ = gr;
        } else {
            k += 1;
        }
    }
    drop(main);
    let n = (NEXT.load(Relaxed) as usize).min(NID);
    let live = (0..n).filter(|&i| STATE[i].load(Relaxed) == 1).count();
    if live > 0 {
        bad!(K::Leak, "{} value(s) never dropped", live);
    }
    let b = BLOCKS.load(Relaxed);
    if b != 0 {
        bad!(K::BlockLeak, "{} block(s) never released", b);
    }
}

pub fn run(c: &Case, kind: u32) {
    let n = (NEXT.swap(0, Relaxed) as usize).min(NID);
    for s in &STATE[..n] {
        s.store(0, Relaxed);
    }
    BLOCKS.store(0, Relaxed);
    FAILED.store(false, Relaxed);
    for l in &LAB {
        l.store(0, Relaxed);
    }
    unsafe {
        scope::ENV = Some(tenv);
    }
    enter(0);
    note(|| format!("{} further thread(s), {} value(s), spread {:#x} {:#x}", 1 + c.cfg[0] % 3, 1 + c.cfg[1] % 2, c.cfg[2], c.cfg[3]), &[c.cfg[0] as u64 % 3, c.cfg[1] as u64 % 2, c.cfg[2] as u64 & 0xffff, c.cfg[3] as u64]);
    for o in &c.ops {
        const N: [&str; 15] = ["read", "clone", "drop", "downgrade", "get_mut", "make_mut", "try_unwrap", "counts", "hand over", "receive", "use shared", "drop weak", "new", "interior write", "burst"];
        note(|| format!("T{} {} {} {}", o[1] % (2 + c.cfg[0] % 3), N[o[0].min(14) as usize], o[2], o[3]), &[o[0] as u64, o[1] as u64, o[2] as u64, o[3] as u64]);
    }
    if kind == 0 {
        program::<KArc>(c);
    } else {
        program::<KUrc>(c);
    }
    if FAILED.load(Relaxed) {
        for (k, m) in MESSAGES.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
            fail(k, m);
        }
    }
    let c = |i: usize| LAB[i].load(Relaxed);
    for i in 0..L.len() {
        if c(i) > 0 {
            label(L[i]);
        }
    }
    g().nontrivial = c(3) + c(4) + c(5) + c(6) + c(7) + c(8) > 0 && c(0) + c(1) + c(2) + c(9) + c(10) + c(12) + c(13) + c(14) > 0;
}

pub const RULE: &str = "two or more threads held pointers to one value from the start, at least one of them tried exclusive access, copy-on-write or unwrapping, and at least one read, cloned, downgraded, handed over or dropped; distinct = different program text";
pub const MASK: &[K] = &[K::Count, K::Life, K::Excl, K::Content, K::Ret, K::Panic, K::DoubleDrop, K::Leak, K::DeadRead, K::Block, K::BlockLeak];

pub fn gen(r: &mut Rng, kind: u32) -> Case {
    let mut c = Case { cfg: [[0, 0, 0, 1, 1, 2][r.below(6) as usize], (r.below(4) == 0) as u32, r.next() as u32 & 0xffff, r.next() as u32], ops: vec![] };
    if kind == 1 || r.below(3) > 0 {
        c.cfg[2] &= !1; // shared references only now and then
    }
    if r.below(2) == 0 {
        c.cfg[3] = 0; // one pointer for each thread
    }
    let nt = 2 + c.cfg[0];
    let weights: [&[u32]; 8] = [
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13],
        &[4, 4, 2, 2, 3, 11, 0, 13],
        &[5, 5, 2, 1, 3, 11, 0, 13],
        &[6, 6, 2, 2, 3, 11, 0, 13],
        &[8, 9, 8, 9, 4, 5, 6, 2, 13],
        &[0, 1, 2, 2, 3, 11, 7, 10, 13],
        &[14, 14, 14, 2, 13, 11],
        &[14, 4, 5, 3, 2, 7, 6],
    ];
    let w = weights[r.below(8) as usize];
    let per = [1, 2, 3, 5][r.below(4) as usize];
    for t in 0..nt {
        let n = 1 + r.below(per) as u32;
        for _ in 0..n {
            let k = w[r.below(w.len() as u64) as usize];
            c.ops.push([k, t, r.below(4) as u32, r.below(8) as u32, 0]);
        }
    }
    c
}
