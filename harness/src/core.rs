//! Cases, generation, per-case global state, outcome kinds.
use std::collections::{BTreeMap, HashMap};

pub type Op = [u32; 5];

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub cfg: [u32; 4],
    pub ops: Vec<Op>,
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = format!("cfg {} {} {} {}\n", self.cfg[0], self.cfg[1], self.cfg[2], self.cfg[3]);
        for o in &self.ops {
            s += &format!("op {} {} {} {} {}\n", o[0], o[1], o[2], o[3], o[4]);
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case { cfg: [0; 4], ops: vec![] };
        for line in text.lines() {
            let mut it = line.split_whitespace();
            match it.next() {
                Some("cfg") => {
                    for x in c.cfg.iter_mut() {
                        *x = it.next()?.parse().ok()?;
                    }
                }
                Some("op") => {
                    let mut o = [0u32; 5];
                    for x in o.iter_mut() {
                        *x = it.next()?.parse().ok()?;
                    }
                    c.ops.push(o);
                }
                _ => {}
            }
        }
        Some(c)
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    /// Argument distribution: mostly small, sometimes wide, sometimes a corner value.
    pub fn arg(&mut self) -> u32 {
        match self.below(20) {
            0..=8 => self.below(8) as u32,
            9..=13 => self.below(32) as u32,
            14..=15 => self.below(256) as u32,
            16..=18 => self.next() as u32,
            _ => [0, 1, u32::MAX, 0x7fff_ffff, 0x8000_0000, 15, 16, 31, 255, 256][self.below(10) as usize],
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ r.next().rotate_left(17)
}

/// What kind of departure from expected behaviour was seen. Each property reports only its own kinds.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum K {
    Content = 0,   // contents differ from the model
    Ret = 1,       // a returned value differs from the model
    NoPanic = 2,   // an operation that must refuse did not
    Panic = 3,     // an operation panicked although it must not
    DoubleDrop = 4,
    Leak = 5, // element never dropped
    DeadRead = 6, // a dropped or never-initialised element is visible
    Block = 7, // release/resize protocol broken, out-of-bounds write, write after release
    BlockLeak = 8,
    Zero = 9, // zero-sized or otherwise invalid request
    Cap = 10,
    Heap = 11, // allocator request where none is allowed
    Fault = 12, // wrong reaction to a refused allocation
    Iter = 13,
    Utf8 = 14,
    Count = 15,     // reference counts
    Life = 16,      // value dropped too early / too late
    Excl = 17,      // exclusivity wrongly granted or refused
    Scope = 18,
    Select = 19,
    Cmp = 20,
    Move = 21, // an owning conversion copied, cloned or dropped elements
    Swallow = 22, // a caller's panic did not propagate
    Early = 23, // early element drop
    Hang = 24,
}

pub const fn mask(ks: &[K]) -> u32 {
    let mut m = 0;
    let mut i = 0;
    while i < ks.len() {
        m |= 1 << (ks[i] as u32);
        i += 1;
    }
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultMode {
    None,
    Alloc,
    Panic,
}

pub struct G {
    pub mask: u32,
    pub fault: FaultMode,
    pub violations: Vec<(K, String)>,
    pub ignored: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub op_no: usize,
    pub cur_op: String,
    // ledger
    pub state: Vec<u8>,
    pub zst_live: i64,
    pub leaked_ok: bool,
    // callback panic injection
    pub cb_arm: u64,
    pub cb_fired: bool,
    pub clones: u64,
    pub last_panic: String,
    pub nontrivial: bool,
}

static mut GLOBAL: *mut G = core::ptr::null_mut();

pub fn g() -> &'static mut G {
    unsafe {
        if GLOBAL.is_null() {
            GLOBAL = Box::into_raw(Box::new(G {
                mask: 0,
                fault: FaultMode::None,
                violations: vec![],
                ignored: 0,
                tracing: false,
                trace: vec![],
                labels: BTreeMap::new(),
                hash: 0,
                op_no: 0,
                cur_op: String::new(),
                state: vec![],
                zst_live: 0,
                leaked_ok: false,
                cb_arm: 0,
                cb_fired: false,
                clones: 0,
                last_panic: String::new(),
                nontrivial: false,
            }));
        }
        &mut *GLOBAL
    }
}

impl G {
    pub fn reset(&mut self, mask: u32, fault: FaultMode) {
        self.mask = mask;
        self.fault = fault;
        self.violations.clear();
        self.ignored = 0;
        self.trace.clear();
        self.labels.clear();
        self.hash = 0xcbf29ce484222325;
        self.op_no = 0;
        self.cur_op.clear();
        self.state.clear();
        self.state.push(0);
        self.zst_live = 0;
        self.leaked_ok = false;
        self.cb_arm = 0;
        self.cb_fired = false;
        self.clones = 0;
        self.nontrivial = false;
    }
    pub fn live(&self) -> usize {
        self.state.iter().filter(|&&s| s == 1).count()
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

/// Record a departure. Counted only if the property under check is about this kind.
pub fn fail(k: K, msg: String) {
    let g = g();
    if g.mask & (1 << (k as u32)) == 0 {
        g.ignored += 1;
        if g.tracing {
            g.trace.push(format!("   (not this property's: {:?}: {})", k, msg));
        }
        return;
    }
    if g.violations.len() < 8 {
        let m = format!("{:?}: {} [op {} {}]", k, msg, g.op_no, g.cur_op);
        if g.tracing {
            g.trace.push(format!("   !! {}", m));
        }
        g.violations.push((k, m));
    }
}

#[macro_export]
macro_rules! fail {
    ($k:expr, $($t:tt)*) => { $crate::core::fail($k, format!($($t)*)) };
}

pub fn label(l: &'static str) {
    *g().labels.entry(l).or_insert(0) += 1;
}

/// Note a decoded operation: for the trace and for the distinctness hash.
pub fn note(s: impl FnOnce() -> String, h: &[u64]) {
    let g = g();
    for x in h {
        g.hash = (g.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    if g.tracing {
        let t = s();
        g.cur_op = t.clone();
        g.trace.push(t);
    }
}

pub struct Injected;

/// Called from every caller-supplied callback; panics when armed.
pub fn tick() {
    let g = g();
    if g.cb_arm > 0 && !std::thread::panicking() {
        g.cb_arm -= 1;
        if g.cb_arm == 0 {
            g.cb_fired = true;
            std::panic::panic_any(Injected);
        }
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    g().last_panic.clear();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let inj = e.is::<Injected>();
            drop(e);
            let g = g();
            g.cb_arm = 0;
            Err(if inj { "injected".to_string() } else { g.last_panic.clone() })
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // In the concurrent checks several threads may come here.
        if std::thread::current().name() != Some("main") {
            eprintln!("thread panic: {}", info);
            return;
        }
        if std::env::var_os("PBT_VERBOSE").is_some() {
            eprintln!("panic: {}", info);
        }
        g().last_panic = info.to_string().replace('\n', " ");
    }));
}

pub type Map<A, B> = HashMap<A, B>;
