//! Programs of nested scopes, over several environments, with panics (C19); equality of selectors and markers (C20).
use crate::audit::*;
use crate::core::*;
use crate::elem::*;
use crate::fail;
use lokky::arc::Arc;
use lokky::boxed::Box as LBox;
use lokky::rc::Rc;
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use lokky::small_vec::SmallVec;
use lokky::string::String as LStr;
use lokky::urc::Urc;
use lokky::vec::Vec as LVec;
use std::alloc::GlobalAlloc;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---- environments ---------------------------------------------------------------------------------------

const ENVS: usize = 3;
static mut ROOTS: [HScope; ENVS] = [HScope { id: 0 }, HScope { id: 1 }, HScope { id: 2 }];
static mut LOCAL: [Option<Env>; ENVS] = [None, None, None];

fn env_n(n: usize) -> &'static mut Env {
    unsafe { (*(&raw mut LOCAL))[n].as_mut().unwrap() }
}
fn env0() -> &'static mut Env {
    env_n(0)
}
fn env1() -> &'static mut Env {
    env_n(1)
}
fn env2() -> &'static mut Env {
    env_n(2)
}
fn select_env(n: usize) {
    unsafe { scope::ENV = Some([env0 as fn() -> &'static mut Env, env1, env2][n]) };
}

// ---- scope types ----------------------------------------------------------------------------------------

/// An ordinary scope.
struct Plain {
    id: u32,
    _t: Tok,
}
impl Scope for Plain {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(self.id, s)
    }
}
/// A scope without any state.
struct Zero<const I: u32>;
impl<const I: u32> Scope for Zero<I> {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(I, s)
    }
}
/// A large one, its identity at the end.
struct Large {
    _fill: [u64; 200],
    id: u32,
    _t: Tok,
}
impl Scope for Large {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(self.id, s)
    }
}
/// One that itself owns memory of the enclosing scope.
struct Owning {
    id: LBox<u32>,
    list: LVec<Tok>,
}
impl Scope for Owning {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(*self.id, s)
    }
}
/// Over-aligned.
#[repr(align(128))]
struct Wide {
    id: u32,
}
impl Scope for Wide {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        serve(self.id, s)
    }
}

// ---- the interpreter ------------------------------------------------------------------------------------

struct In<'a> {
    ops: &'a [Op],
    at: usize,
    /// ids of the scopes of each environment, innermost last
    stacks: [Vec<u32>; ENVS],
    sel: usize,
    next_id: u32,
    depth: usize,
    deepest: usize,
    spawned: u32,
    unwound: u32,
    requested: u32,
    /// inside a scope initialiser: there the enclosing scope stays current
    steps: u32,
}

/// What a body gives back.
enum Out {
    Num(u64),
    Text(String),
    Elem(Tok),
    List(LVec<Tok>),
    Boxed(LBox<Tok>),
    Big([u64; 40]),
    Nothing,
    Res(Result<Tok, LStr>),
}
fn describe(o: &Out) -> (u64, Vec<u64>) {
    match o {
        Out::Num(n) => (1, vec![*n]),
        Out::Text(s) => (2, s.bytes().map(|b| b as u64).collect()),
        Out::Elem(t) => (3, vec![t.ident(), t.get() as u64]),
        Out::List(l) => (4, l.iter().flat_map(|t| [t.ident(), t.get() as u64]).chain([l.as_ptr() as u64, l.capacity() as u64]).collect()),
        Out::Boxed(b) => (5, vec![b.ident(), &**b as *const Tok as u64]),
        Out::Big(b) => (6, b.to_vec()),
        Out::Nothing => (7, vec![]),
        Out::Res(Ok(t)) => (8, vec![t.ident()]),
        Out::Res(Err(s)) => (9, s.bytes().map(|b| b as u64).chain([s.as_ptr() as u64]).collect()),
    }
}

enum Flow {
    Normal(Out),
    End,
}

struct Unwind;

impl<'a> In<'a> {
    fn current(&self) -> u32 {
        *self.stacks[self.sel].last().unwrap()
    }

    /// The current scope, found by asking it.
    fn look(&mut self, what: &str) {
        for n in 0..ENVS {
            let want = *self.stacks[n].last().unwrap();
            let n0 = a().sels.len();
            let x = ();
            let _ = env_n(n).current(&x).alloc_for(AllocSelector::new::<u16>()) as *const dyn GlobalAlloc;
            self.same(n0, want, what, &format!("Env::current of environment {}", n));
        }
        let n0 = a().sels.len();
        let x = 5u8;
        let p = scope::current(&x).alloc_for(AllocSelector::with_marker::<u16>(marker(1))) as *const dyn GlobalAlloc as *const u8;
        let want = self.current();
        self.same(n0, want, what, "scope::current");
        let q = &ALLOCS[alloc_ix(want, marker_name(marker(1))) as usize] as *const Audit as *const u8;
        if a().sels.len() < 4096 && p != q {
            fail!(K::Scope, "{}: scope::current gave the allocator of another scope", what);
        }
    }
    fn same(&self, n0: usize, want: u32, what: &str, who: &str) {
        let s = &a().sels;
        if s.len() >= 4096 {
            return;
        }
        if s.len() != n0 + 1 {
            fail!(K::Scope, "{}: {}: {} scopes were asked", what, who, s.len() - n0);
        } else if s[n0].scope != want {
            fail!(K::Scope, "{}: {} is scope {} where {} is innermost", what, who, s[n0].scope, want);
        }
    }

    /// Make an allocation request through some type, and see which scope served it.
    fn request(&mut self, k: u32) {
        let want = self.current();
        let (n0, s0) = (a().sels.len(), a().served.len());
        let mk = marker(k / 16);
        match k % 12 {
            0 => drop(LBox::new(Tok::new(1))),
            1 => drop(LBox::new_with(Tok::new(1), mk)),
            2 => drop(LVec::<Tok>::with_capacity_and_marker(3, mk)),
            3 => drop(LStr::from("text")),
            4 => drop(SmallVec::<Tok, 2>::from([Tok::new(1), Tok::new(2), Tok::new(3)])),
            5 => drop(Rc::new(Tok::new(2))),
            6 => drop(Arc::new(Tok::new(2))),
            7 => drop(Urc::new(Tok::new(2))),
            8 => {
                let mut v = LVec::<Tok>::with_marker(mk);
                v.push(Tok::new(1));
                v.push(Tok::new(2));
                v.reserve(20);
            }
            9 => {
                let mut s = SmallVec::<u32, 2>::with_marker(mk);
                for i in 0..9 {
                    s.push(i);
                }
            }
            10 => {
                let v: LVec<Tok> = (0..5).map(Tok::new).collect();
                drop(v.clone());
            }
            _ => {
                let mut s = LStr::with_marker(mk);
                s.push_str("abc");
                drop(s.clone());
            }
        }
        self.requested += 1;
        let al = a();
        if al.sels.len() >= 4096 {
            return;
        }
        if al.sels.len() == n0 {
            fail!(K::Scope, "a request ({}) asked no scope at all", k % 12);
        }
        for x in &al.sels[n0..] {
            if x.scope != want {
                fail!(K::Scope, "a request ({}) went to scope {} where {} is innermost", k % 12, x.scope, want);
            }
        }
        for &o in &al.served[s0..] {
            if o / 4 != want % 16 {
                fail!(K::Scope, "memory ({}) was supplied by scope {} (mod 16) where {} is innermost", k % 12, o / 4, want);
            }
        }
    }

    fn out(&mut self, k: u32) -> Out {
        match k % 8 {
            0 => Out::Num(k as u64),
            1 => Out::Text(format!("result {}", k)),
            2 => Out::Elem(Tok::new(k)),
            3 => Out::List((0..k % 5).map(Tok::new).collect()),
            4 => Out::Boxed(LBox::new(Tok::new(k))),
            5 => Out::Big(std::array::from_fn(|i| k as u64 * i as u64)),
            6 => Out::Nothing,
            _ => Out::Res(if k & 8 == 0 { Ok(Tok::new(k)) } else { Err(LStr::from("failed")) }),
        }
    }

    /// Run operations until the body ends.
    fn body(&mut self) -> Flow {
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        let r = self.body2();
        self.depth -= 1;
        r
    }
    fn body2(&mut self) -> Flow {
        loop {
            if self.at >= self.ops.len() || g().failed() {
                return Flow::End;
            }
            g().op_no = self.at;
            let op = self.ops[self.at];
            self.at += 1;
            let d = self.depth;
            match op[0] % 12 {
                0 | 1 | 2 => {
                    note(|| format!("{:w$}request {} (marker {})", "", op[1] % 12, op[1] / 16 % 4, w = d * 2), &[1, op[1] as u64 % 12]);
                    self.request(op[1]);
                }
                3 => {
                    note(|| format!("{:w$}look at the current scope", "", w = d * 2), &[2]);
                    self.look("looking");
                }
                4 if d > 1 => {
                    note(|| format!("{:w$}end, giving {}", "", op[1] % 8, w = d * 2), &[3, op[1] as u64 % 8]);
                    let o = self.out(op[1]);
                    return Flow::Normal(o);
                }
                5 if d > 1 => {
                    note(|| format!("{:w$}panic", "", w = d * 2), &[4]);
                    std::panic::panic_any(Unwind);
                }
                6 => {
                    let n = op[1] as usize % ENVS;
                    note(|| format!("{:w$}switch to environment {}", "", n, w = d * 2), &[5, n as u64]);
                    self.sel = n;
                    select_env(n);
                    self.look("after switching");
                }
                _ if d < 8 => self.spawn(op),
                _ => {}
            }
        }
    }

    fn spawn(&mut self, op: Op) {
        let id = self.next_id;
        self.next_id += 1;
        match op[1] % 6 {
            0 | 1 => self.spawn_with(op, id, |id| Plain { id, _t: Tok::new(id) }),
            2 => match op[1] / 6 % 3 {
                0 => self.spawn_with(op, 13, |_| Zero::<13>),
                1 => self.spawn_with(op, 14, |_| Zero::<14>),
                _ => self.spawn_with(op, 15, |_| Zero::<15>),
            },
            3 => self.spawn_with(op, id, |id| Large { _fill: [id as u64; 200], id, _t: Tok::new(id) }),
            4 => self.spawn_with(op, id, |id| Owning { id: LBox::new(id), list: (0..id % 4).map(Tok::new).collect() }),
            _ => self.spawn_with(op, id, |id| Wide { id }),
        }
    }

    fn spawn_with<S: Scope + 'static>(&mut self, op: Op, id: u32, mk: impl Fn(u32) -> S) {
        // which environment gets the scope: the selected one by the free function, or any by its method
        let free = op[2] % 3 > 0;
        let n = if free { self.sel } else { op[2] as usize / 3 % ENVS };
        let catching = op[3] % 3 > 0;
        let init_panics = op[3] / 3 % 11 == 10;
        let nested_init = op[3] / 33 % 7 == 6;
        let d = self.depth;
        note(
            || {
                format!(
                    "{:w$}spawn scope {} ({}) in environment {} by {}{}{}{}",
                    "",
                    id,
                    std::any::type_name::<S>(),
                    n,
                    if free { "scope::spawn" } else { "Env::spawn" },
                    if catching { ", catching panics" } else { "" },
                    if init_panics { ", the initialiser panics" } else { "" },
                    if nested_init { ", the initialiser runs a program" } else { "" },
                    w = d * 2
                )
            },
            &[6, op[1] as u64 % 6, n as u64, free as u64, catching as u64, init_panics as u64, nested_init as u64],
        );
        self.spawned += 1;
        let outer: Vec<u32> = self.stacks.iter().map(|s| *s.last().unwrap()).collect();
        let lens: Vec<usize> = self.stacks.iter().map(|s| s.len()).collect();
        let depth0 = self.depth;
        let me: *mut In<'a> = self;
        let mut inits = 0;
        let mut bodies = 0;
        let mut given: Option<(u64, Vec<u64>)> = None;
        let mut call = || {
            let init = |s: &dyn Scope| {
                let me = unsafe { &mut *me };
                inits += 1;
                if inits > 1 {
                    fail!(K::Scope, "the initialiser ran {} times", inits);
                }
                // the initialiser is shown the enclosing scope, which is still current
                let n0 = a().sels.len();
                let _ = s.alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc;
                me.same(n0, outer[n], "in the initialiser", "the scope it is given");
                me.look("in the initialiser");
                me.request(op[4]);
                if nested_init {
                    let _ = me.body();
                }
                if init_panics {
                    std::panic::panic_any(Unwind);
                }
                mk(id)
            };
            let f = |s: &mut S| {
                let me = unsafe { &mut *me };
                bodies += 1;
                if bodies > 1 {
                    fail!(K::Scope, "the body ran {} times", bodies);
                }
                me.stacks[n].push(id);
                // the scope the body is given is the current one
                let n0 = a().sels.len();
                let _ = s.alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc;
                me.same(n0, id, "in the body", "the scope it is given");
                let x = ();
                let c = env_n(n).current(&x) as *const dyn Scope as *const u8;
                if c != s as *const S as *const u8 {
                    fail!(K::Scope, "the body is given scope {} at another place than the current one", id);
                }
                me.look("in the body");
                let o = match me.body() {
                    Flow::Normal(o) => o,
                    Flow::End => Out::Nothing,
                };
                given = Some(describe(&o));
                o
            };
            if free {
                scope::spawn(init, f)
            } else {
                env_n(n).spawn(init, f)
            }
        };
        let fix = |me: &mut In<'a>| {
            // model: leaving, in whatever way, takes this scope and everything inside it away
            for (s, l) in me.stacks.iter_mut().zip(&lens) {
                s.truncate(*l);
            }
            me.depth = depth0;
        };
        if catching {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(call));
            let me = unsafe { &mut *me };
            fix(me);
            match r {
                Ok(o) => me.after(id, o, given, bodies),
                Err(e) => {
                    self.unwound += 1;
                    if !e.is::<Unwind>() {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        fail!(K::Scope, "another panic came out of a scope: {}", m);
                        return;
                    }
                    let me = unsafe { &mut *me };
                    note(|| format!("{:w$}caught a panic out of scope {}", "", id, w = depth0 * 2), &[7]);
                    me.look("after a panic");
                    me.request(op[4] / 3);
                }
            }
        } else {
            let o = call();
            let me = unsafe { &mut *me };
            fix(me);
            me.after(id, o, given, bodies);
        }
    }
    fn after(&mut self, id: u32, o: Out, given: Option<(u64, Vec<u64>)>, bodies: u32) {
        if bodies != 1 {
            fail!(K::Scope, "the body of scope {} ran {} times", id, bodies);
        }
        if given != Some(describe(&o)) {
            fail!(K::Scope, "the result of the work in scope {} changed from {:?} to {:?}", id, given, describe(&o));
        }
        note(|| format!("{:w$}back from scope {}", "", id, w = self.depth * 2), &[8]);
        self.look("after a scope");
        self.request(self.steps);
        self.steps = self.steps.wrapping_add(7);
    }
}

pub fn run(c: &Case) {
    for n in 0..ENVS {
        unsafe { (*(&raw mut LOCAL))[n] = Some(Env::new(&mut (*(&raw mut ROOTS))[n])) };
    }
    select_env(0);
    let mut s = In {
        ops: &c.ops,
        at: 0,
        stacks: [vec![0], vec![1], vec![2]],
        sel: 0,
        next_id: 3,
        depth: 0,
        deepest: 0,
        spawned: 0,
        unwound: 0,
        requested: 0,
        steps: c.cfg[1],
    };
    while s.at < c.ops.len() && !g().failed() {
        // a panic nobody caught ends up here, outside every scope
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            s.body();
        }));
        if let Err(e) = r {
            s.unwound += 1;
            if !e.is::<Unwind>() {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                fail!(K::Scope, "another panic came out: {}", m);
                break;
            }
            for st in s.stacks.iter_mut() {
                st.truncate(1);
            }
            s.depth = 0;
            note(|| "caught a panic outside all scopes".into(), &[9]);
            s.look("after a panic out of everything");
        }
    }
    s.depth = 0;
    s.look("at the end");
    if s.unwound > 0 {
        label("unwound");
    }
    if s.deepest >= 4 {
        label("nested_3_or_more");
    }
    if s.stacks.len() > 1 && s.sel > 0 {
        label("another_environment");
    }
    g().nontrivial = s.deepest >= 3 && s.spawned >= 2 && s.requested >= 3;
    reset_env();
    if !g().failed() {
        crate::finish_elems();
    } else {
        g().leaked_ok = true;
        a().leak_ok = true;
    }
}

// ---- selectors and markers ------------------------------------------------------------------------------

mod other {
    pub struct M1;
    pub struct Pair<A, B>(pub std::marker::PhantomData<(A, B)>);
}
struct Here;

fn h(x: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// Number and marker; distinct numbers are distinct types (or none).
fn mk_of(n: u32) -> (u32, AllocMarker) {
    let m = match n % 10 {
        0 => AllocMarker::None,
        1 => AllocMarker::default(),
        2 => AllocMarker::new::<M1>(),
        3 => AllocMarker::new::<M2>(),
        4 => AllocMarker::new::<other::M1>(),
        5 => AllocMarker::new::<Here>(),
        6 => AllocMarker::new::<other::Pair<M1, M2>>(),
        7 => AllocMarker::new::<other::Pair<M2, M1>>(),
        8 => AllocMarker::new::<u8>(),
        _ => AllocMarker::new::<&'static str>(),
    };
    (if n % 10 == 1 { 0 } else { n % 10 }, m)
}

/// A selector for type number t with marker number n, made locally or captured from a request of the library.
fn sel_of(t: u32, n: u32, how: u32) -> (u32, u32, AllocSelector) {
    let (mn, m) = mk_of(n);
    macro_rules! ty {
        ($($i:literal => $t:ty),*) => {
            match t % 6 {
                $($i => {
                    if how % 3 == 0 && mn == 0 {
                        (0, AllocSelector::new::<$t>())
                    } else if how % 3 == 1 {
                        let _ = captured(None);
                        drop(LVec::<$t>::with_marker(m));
                        (mn, captured(None).unwrap())
                    } else {
                        (mn, AllocSelector::with_marker::<$t>(m))
                    }
                })*
                _ => {
                    // a request made inside the library for a type it names itself
                    let _ = captured(None);
                    match how % 3 {
                        0 => drop(LStr::with_marker(m)),
                        1 => {
                            let mut s = LStr::with_marker(m);
                            s.push('x');
                        }
                        _ => drop(LStr::with_capacity_and_marker(4, m)),
                    }
                    (mn, captured(None).unwrap())
                }
            }
        };
    }
    let (mn, s) = ty!(0 => u8, 1 => u16, 2 => Here, 3 => LVec<u8>, 4 => other::Pair<M1, u8>);
    let tn = if t % 6 == 5 { 0 } else { t % 6 };
    (tn, mn, s)
}

struct Catcher;
impl Scope for Catcher {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        captured(Some(s));
        &ALLOCS[0]
    }
}
fn captured(s: Option<AllocSelector>) -> Option<AllocSelector> {
    static mut LAST: Option<AllocSelector> = None;
    unsafe {
        let l = &mut *(&raw mut LAST);
        match s {
            Some(s) => l.replace(s),
            None => l.take(),
        }
    }
}

pub fn run_eq(c: &Case) {
    let mut sels: Vec<(u32, u32, AllocSelector)> = vec![];
    let mut marks: Vec<(u32, AllocMarker)> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        let (t, m, how) = (op[1], op[2], op[3]);
        note(|| format!("selector for type {} with marker {}, way {}", t % 6, m % 10, how % 3), &[t as u64 % 6, m as u64 % 10, how as u64 % 3]);
        let x = scope::spawn(|_| Catcher, |_| sel_of(t, m, how));
        sels.push(x);
        marks.push(mk_of(m));
        marks.push((x.1, x.2.marker()));
    }
    let mut map = std::collections::HashMap::new();
    let (mut eq, mut ne) = (0, 0);
    for (i, x) in sels.iter().enumerate() {
        for y in &sels[i..] {
            let same = (x.0, x.1) == (y.0, y.1);
            if same {
                eq += 1
            } else {
                ne += 1
            }
            if (x.2 == y.2) != same || (x.2 != y.2) == same {
                fail!(K::Select, "selectors {:?} and {:?}: == gives {} where {} expected", x.2, y.2, x.2 == y.2, same);
            }
            if same && h(x.2) != h(y.2) {
                fail!(K::Select, "equal selectors {:?} and {:?} hash differently", x.2, y.2);
            }
            if (x.0 == y.0) != (x.2.ty() == y.2.ty()) {
                fail!(K::Select, "selectors {:?} and {:?} report the types {} and {}", x.2, y.2, x.2.ty(), y.2.ty());
            }
        }
        let n = map.len();
        let e = map.entry(x.2).or_insert((x.0, x.1));
        if *e != (x.0, x.1) {
            fail!(K::Select, "a table of selectors finds the wrong entry for {:?}", x.2);
        }
        let e = *e;
        let known = sels[..i].iter().any(|y| (y.0, y.1) == e);
        if (map.len() == n) != known {
            fail!(K::Select, "a table of selectors {} {:?}", if known { "does not find" } else { "wrongly finds" }, x.2);
        }
    }
    for (i, x) in marks.iter().enumerate() {
        for y in &marks[i..] {
            let same = x.0 == y.0;
            if (x.1 == y.1) != same || (x.1 != y.1) == same {
                fail!(K::Select, "markers {:?} and {:?}: == gives {} where {} expected", x.1, y.1, x.1 == y.1, same);
            }
            if same && h(x.1) != h(y.1) {
                fail!(K::Select, "equal markers {:?} and {:?} hash differently", x.1, y.1);
            }
        }
    }
    g().nontrivial = eq > sels.len() && ne > 0;
}
