//! Histories of operations on Rc, Arc and Urc against a model of values, groups and counts.
use crate::audit::*;
use crate::core::*;
use crate::elem::*;
use crate::fail;
use lokky::boxed::Box as LBox;
use lokky::scope::{Envelop, ScopeRecv};
use lokky::ScopePtr;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// One of the three counted pointers.
pub trait Kind: Sized + 'static {
    type S<T: 'static>: 'static;
    type W<T: 'static>: 'static;
    type F<T: 'static>: 'static;
    const NAME: &'static str;
    const UPG: bool = false;
    const HYBRID: bool = false;
    fn new<T: 'static>(x: T, how: u32) -> Result<Self::S<T>, ()>;
    fn get<T: 'static>(p: &Self::S<T>) -> &T;
    fn ptr<T: 'static>(p: &Self::S<T>) -> *const T;
    fn clone<T: 'static>(p: &Self::S<T>) -> Self::S<T>;
    fn down<T: 'static>(p: &Self::S<T>) -> Self::W<T>;
    fn strong<T: 'static>(p: &Self::S<T>) -> usize;
    fn weak<T: 'static>(p: &Self::S<T>) -> usize;
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool;
    fn unwrap<T: 'static>(p: Self::S<T>) -> Result<T, Self::S<T>>;
    fn make_mut<T: Clone + 'static>(p: &mut Self::S<T>) -> &mut T;
    fn get_mut<T: 'static>(p: &mut Self::S<T>) -> Option<&mut T>;
    fn fmt<T: fmt::Debug + 'static>(p: &Self::S<T>) -> String;
    fn agree<T: Ord + Hash + 'static>(a: &Self::S<T>, b: &Self::S<T>) -> Result<(), String>;
    fn upgrade<T: 'static>(_: &Self::W<T>) -> Option<Self::S<T>> {
        None
    }
    fn wclone<T: 'static>(_: &Self::W<T>) -> Option<Self::W<T>> {
        None
    }
    /// (strong, weak, debug text prefix, as_ptr) of a weak pointer, where the library shows them
    fn wlook<T: fmt::Debug + 'static>(_: &Self::W<T>) -> Option<(usize, usize, String, *const T)> {
        None
    }
    fn wptr_eq<T: 'static>(_: &Self::W<T>, _: &Self::W<T>) -> Option<bool> {
        None
    }
    fn envelop<T: 'static>(_: &Self::S<T>) -> Option<Self::S<T>> {
        None
    }
    fn sole<T: 'static>(_: &Self::S<T>) -> Option<bool> {
        None
    }
    fn to_fence<T: 'static>(p: Self::S<T>) -> Result<Self::F<T>, Self::S<T>> {
        Err(p)
    }
    fn fence_unbox<T: 'static>(f: Self::F<T>) -> Self::F<T> {
        f
    }
    fn from_fence<T: 'static>(_: Self::F<T>) -> Self::S<T> {
        unreachable!()
    }
    fn fence_counts<T: 'static>(_: &Self::F<T>) -> (usize, usize, bool, bool) {
        (1, 0, true, false)
    }
    fn uninit(_v: u32) -> Result<u32, String>;
    fn dflt<T: Default + 'static>() -> Option<Self::S<T>> {
        None
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! agree_body {
    ($a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let (x, y) = (&**a, &**b);
        if (a == b) != (x == y) || (a != b) != (x != y) {
            return Err("equality differs from the values'".into());
        }
        if a.partial_cmp(b) != x.partial_cmp(y) || a.cmp(b) != x.cmp(y) {
            return Err("ordering differs from the values'".into());
        }
        if (a < b) != (x < y) || (a <= b) != (x <= y) || (a > b) != (x > y) || (a >= b) != (x >= y) {
            return Err("a comparison operator differs from the values'".into());
        }
        if hash_of(a) != hash_of(x) {
            return Err("hash differs from the value's".into());
        }
        if !std::ptr::eq(std::borrow::Borrow::<T>::borrow(a), x) {
            return Err("Borrow gives something else".into());
        }
        if !std::ptr::eq(AsRef::<T>::as_ref(a), x) {
            return Err("AsRef gives something else".into());
        }
        Ok(())
    }};
}

pub struct KRc;
impl Kind for KRc {
    type S<T: 'static> = lokky::rc::Rc<T>;
    type W<T: 'static> = lokky::rc::Weak<T>;
    type F<T: 'static> = ();
    const NAME: &'static str = "Rc";
    const UPG: bool = true;
    fn new<T: 'static>(x: T, how: u32) -> Result<Self::S<T>, ()> {
        Ok(match how % 3 {
            0 | 1 => lokky::rc::Rc::new(x),
            _ => LBox::new(x).into(),
        })
    }
    fn get<T: 'static>(p: &Self::S<T>) -> &T {
        p
    }
    fn ptr<T: 'static>(p: &Self::S<T>) -> *const T {
        lokky::rc::Rc::as_ptr(p)
    }
    fn clone<T: 'static>(p: &Self::S<T>) -> Self::S<T> {
        p.clone()
    }
    fn down<T: 'static>(p: &Self::S<T>) -> Self::W<T> {
        lokky::rc::Rc::downgrade(p)
    }
    fn strong<T: 'static>(p: &Self::S<T>) -> usize {
        lokky::rc::Rc::strong_count(p)
    }
    fn weak<T: 'static>(p: &Self::S<T>) -> usize {
        lokky::rc::Rc::weak_count(p)
    }
    fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
        lokky::rc::Rc::ptr_eq(a, b)
    }
    fn unwrap<T: 'static>(p: Self::S<T>) -> Result<T, Self::S<T>> {
        lokky::rc::Rc::try_unwrap(p)
    }
    fn make_mut<T: Clone + 'static>(p: &mut Self::S<T>) -> &mut T {
        lokky::rc::Rc::make_mut(p)
    }
    fn get_mut<T: 'static>(p: &mut Self::S<T>) -> Option<&mut T> {
        lokky::rc::Rc::get_mut(p)
    }
    fn fmt<T: fmt::Debug + 'static>(p: &Self::S<T>) -> String {
        format!("{:?}", p)
    }
    fn agree<T: Ord + Hash + 'static>(a: &Self::S<T>, b: &Self::S<T>) -> Result<(), String> {
        agree_body!(a, b)
    }
    fn upgrade<T: 'static>(w: &Self::W<T>) -> Option<Self::S<T>> {
        w.upgrade()
    }
    fn wclone<T: 'static>(w: &Self::W<T>) -> Option<Self::W<T>> {
        Some(w.clone())
    }
    fn wlook<T: fmt::Debug + 'static>(w: &Self::W<T>) -> Option<(usize, usize, String, *const T)> {
        Some((w.strong_count(), w.weak_count(), format!("{:?}", w), w.as_ptr()))
    }
    fn wptr_eq<T: 'static>(a: &Self::W<T>, b: &Self::W<T>) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn uninit(v: u32) -> Result<u32, String> {
        // no uninitialised form; exercise the null weak pointer instead
        let w: lokky::rc::Weak<u32> = if v % 2 == 0 { lokky::rc::Weak::new() } else { Default::default() };
        let w2 = w.clone();
        if w.upgrade().is_some() || w.strong_count() != 0 || w.weak_count() != 0 || !w.as_ptr().is_null() || !w.ptr_eq(&w2) {
            return Err("a null weak pointer is not null".into());
        }
        if format!("{:?}", w2) != "(Weak null)" {
            return Err("a null weak pointer prints otherwise".into());
        }
        Ok(v)
    }
}

macro_rules! atomic {
    ($k:ident, $m:ident, $P:ident, $name:expr, { $($extra:tt)* }) => {
        pub struct $k;
        impl Kind for $k {
            type S<T: 'static> = lokky::$m::$P<T>;
            type W<T: 'static> = lokky::$m::Weak<T>;
            const NAME: &'static str = $name;
            fn new<T: 'static>(x: T, how: u32) -> Result<Self::S<T>, ()> {
                match how % 4 {
                    0 => Ok(lokky::$m::$P::new(x)),
                    1 => lokky::$m::$P::try_new(x).map_err(|_| ()),
                    2 => Ok(unsafe { std::pin::Pin::into_inner_unchecked(lokky::$m::$P::pin(x)) }),
                    _ => lokky::$m::$P::try_pin(x).map(|p| unsafe { std::pin::Pin::into_inner_unchecked(p) }).map_err(|_| ()),
                }
            }
            fn get<T: 'static>(p: &Self::S<T>) -> &T {
                p
            }
            fn ptr<T: 'static>(p: &Self::S<T>) -> *const T {
                let q = lokky::$m::$P::as_ptr(p);
                if format!("{:p}", p) != format!("{:p}", q) {
                    fail!(K::Cmp, "pointer formatting gives another address");
                }
                q
            }
            fn clone<T: 'static>(p: &Self::S<T>) -> Self::S<T> {
                p.clone()
            }
            fn down<T: 'static>(p: &Self::S<T>) -> Self::W<T> {
                lokky::$m::$P::downgrade(p)
            }
            fn ptr_eq<T: 'static>(a: &Self::S<T>, b: &Self::S<T>) -> bool {
                lokky::$m::$P::ptr_eq(a, b)
            }
            fn unwrap<T: 'static>(p: Self::S<T>) -> Result<T, Self::S<T>> {
                lokky::$m::$P::try_unwrap(p)
            }
            fn make_mut<T: Clone + 'static>(p: &mut Self::S<T>) -> &mut T {
                lokky::$m::$P::make_mut(p)
            }
            fn get_mut<T: 'static>(p: &mut Self::S<T>) -> Option<&mut T> {
                lokky::$m::$P::get_mut(p)
            }
            fn fmt<T: fmt::Debug + 'static>(p: &Self::S<T>) -> String {
                format!("{:?}", p)
            }
            fn agree<T: Ord + Hash + 'static>(a: &Self::S<T>, b: &Self::S<T>) -> Result<(), String> {
                agree_body!(a, b)
            }
            fn envelop<T: 'static>(p: &Self::S<T>) -> Option<Self::S<T>> {
                std::thread::scope(|s| {
                    let e = p.envelop(s);
                    Some(s.recv(e))
                })
            }
            fn uninit(v: u32) -> Result<u32, String> {
                let mut p = match v % 2 {
                    0 => lokky::$m::$P::<u32>::new_uninit(),
                    _ => lokky::$m::$P::<u32>::try_new_uninit().map_err(|_| "refused".to_string())?,
                };
                match lokky::$m::$P::get_mut(&mut p) {
                    None => Err("the only pointer to a fresh uninitialised value is not exclusive".into()),
                    Some(m) => {
                        m.write(v);
                        Ok(unsafe { p.assume_init() })
                    }
                }
            }
            fn dflt<T: Default + 'static>() -> Option<Self::S<T>> {
                Some(Default::default())
            }
            $($extra)*
        }
    };
}

atomic!(KArc, arc, Arc, "Arc", {
    type F<T: 'static> = ();
    fn strong<T: 'static>(p: &Self::S<T>) -> usize {
        lokky::arc::Arc::strong_count(p)
    }
    fn weak<T: 'static>(p: &Self::S<T>) -> usize {
        lokky::arc::Arc::weak_count(p)
    }
});

pub enum UF<T: 'static> {
    Boxed(ScopePtr<lokky::urc::Fence<T>>),
    Bare(lokky::urc::Fence<T>),
}
impl<T> UF<T> {
    fn fence(&self) -> &lokky::urc::Fence<T> {
        match self {
            UF::Boxed(b) => b,
            UF::Bare(b) => b,
        }
    }
}
atomic!(KUrc, urc, Urc, "Urc", {
    type F<T: 'static> = UF<T>;
    const HYBRID: bool = true;
    fn strong<T: 'static>(p: &Self::S<T>) -> usize {
        let f = lokky::urc::Urc::fence_of(p);
        let n = lokky::urc::Urc::fence_strong_count(p);
        if f.strong_count() != n || f.is_strong() != (n > 0) || f.is_weak() == (n > 0) {
            fail!(K::Count, "the group shows {} strong, the pointer {}", f.strong_count(), n);
        }
        n
    }
    fn weak<T: 'static>(p: &Self::S<T>) -> usize {
        let n = lokky::urc::Urc::fence_weak_count(p);
        if lokky::urc::Urc::fence_of(p).weak_count() != n {
            fail!(K::Count, "the group and the pointer show different weak counts");
        }
        n
    }
    fn sole<T: 'static>(p: &Self::S<T>) -> Option<bool> {
        Some(lokky::urc::Urc::is_sole_strong_fence(p))
    }
    fn to_fence<T: 'static>(p: Self::S<T>) -> Result<Self::F<T>, Self::S<T>> {
        lokky::urc::Urc::try_into_fence(p).map(UF::Boxed)
    }
    fn fence_unbox<T: 'static>(f: Self::F<T>) -> Self::F<T> {
        match f {
            UF::Boxed(b) => UF::Bare(b.into_inner()),
            f => f,
        }
    }
    fn from_fence<T: 'static>(f: Self::F<T>) -> Self::S<T> {
        match f {
            UF::Boxed(b) => b.into_inner().into_urc(),
            UF::Bare(b) => b.into_urc(),
        }
    }
    fn fence_counts<T: 'static>(f: &Self::F<T>) -> (usize, usize, bool, bool) {
        let f = f.fence();
        (f.strong_count(), f.weak_count(), f.is_strong(), f.is_weak())
    }
});

// ---- payloads ------------------------------------------------------------------------------------------

pub enum Link<Kd: Kind> {
    S(Kd::S<Node<Kd>>),
    W(Kd::W<Node<Kd>>),
}

pub struct Node<Kd: Kind> {
    tok: Tok,
    links: RefCell<Vec<Link<Kd>>>,
}

thread_local! {
    /// what dropped nodes saw: (value, one entry per weak link: could it be upgraded)
    static EVENTS: RefCell<Vec<(u32, Vec<bool>)>> = const { RefCell::new(vec![]) };
}

impl<Kd: Kind> Drop for Node<Kd> {
    fn drop(&mut self) {
        let mut seen = vec![];
        if Kd::UPG {
            for l in self.links.get_mut().iter() {
                if let Link::W(w) = l {
                    seen.push(Kd::upgrade(w).map(|p| Kd::get(&p).tok.get()).is_some());
                }
            }
        }
        let v = self.tok.get();
        EVENTS.with(|e| e.borrow_mut().push((v, seen)));
    }
}
impl<Kd: Kind> Clone for Node<Kd> {
    fn clone(&self) -> Self {
        let tok = self.tok.clone();
        let mut links = vec![];
        for l in self.links.borrow().iter() {
            match l {
                Link::S(p) => links.push(Link::S(Kd::clone(p))),
                Link::W(w) => {
                    if let Some(w) = Kd::wclone(w) {
                        links.push(Link::W(w))
                    }
                }
            }
        }
        Node { tok, links: RefCell::new(links) }
    }
}
impl<Kd: Kind> PartialEq for Node<Kd> {
    fn eq(&self, o: &Self) -> bool {
        self.tok == o.tok
    }
}
impl<Kd: Kind> Eq for Node<Kd> {}
impl<Kd: Kind> PartialOrd for Node<Kd> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.tok.cmp(&o.tok))
    }
}
impl<Kd: Kind> Ord for Node<Kd> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.tok.cmp(&o.tok)
    }
}
impl<Kd: Kind> Hash for Node<Kd> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tok.hash(h)
    }
}
impl<Kd: Kind> fmt::Debug for Node<Kd> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.tok.get())
    }
}

pub enum Popped<Kd: Kind, T: 'static> {
    S(Kd::S<T>),
    W(Kd::W<T>),
    None,
}

pub trait Pay<Kd: Kind>: Clone + Ord + Hash + fmt::Debug + 'static {
    const LINKS: bool = false;
    const TNAME: &'static str;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    fn set(&mut self, v: u32);
    fn norm(v: u32) -> u32 {
        v
    }
    fn id(&self) -> u64 {
        0
    }
    fn push(&self, _: Popped<Kd, Self>) {}
    fn pop(&self) -> Popped<Kd, Self> {
        Popped::None
    }
}
impl<Kd: Kind> Pay<Kd> for Node<Kd> {
    const LINKS: bool = true;
    const TNAME: &'static str = "node";
    fn mk(v: u32) -> Self {
        Node { tok: Tok::new(v), links: RefCell::new(vec![]) }
    }
    fn val(&self) -> u32 {
        self.tok.get()
    }
    fn set(&mut self, v: u32) {
        Elem::set(&mut self.tok, v)
    }
    fn id(&self) -> u64 {
        self.tok.ident()
    }
    fn push(&self, p: Popped<Kd, Self>) {
        let l = match p {
            Popped::S(p) => Link::S(p),
            Popped::W(p) => Link::W(p),
            Popped::None => return,
        };
        self.links.borrow_mut().push(l)
    }
    fn pop(&self) -> Popped<Kd, Self> {
        match self.links.borrow_mut().pop() {
            Some(Link::S(p)) => Popped::S(p),
            Some(Link::W(p)) => Popped::W(p),
            None => Popped::None,
        }
    }
}
macro_rules! pay {
    ($($t:ty),*) => {$(
        impl<Kd: Kind> Pay<Kd> for $t {
            const TNAME: &'static str = <$t as Elem>::NAME;
            fn mk(v: u32) -> Self { <$t as Elem>::mk(v) }
            fn val(&self) -> u32 { Elem::val(self) }
            fn set(&mut self, v: u32) { Elem::set(self, v) }
            fn norm(v: u32) -> u32 { <$t as Elem>::norm(v) }
            fn id(&self) -> u64 { Elem::id(self) }
        }
    )*};
}
pay!(Tok, Al, Big, u8, Odd, Zst, Za);

// ---- model ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Cell {
    val: u32,
    id: u64,
    alive: bool,
    links: Vec<(bool, usize)>, // strong?, group
}
#[derive(Clone, Debug)]
struct Group {
    cell: usize,
    strong: usize,
    weak: usize,
    /// Hybrid only: detached into a fence value; .1 = still in its own block
    detached: Option<bool>,
}

#[derive(Default, Clone)]
struct Model {
    cells: Vec<Cell>,
    groups: Vec<Group>,
    events: Vec<(u32, Vec<bool>)>,
    upg: bool,
    nodes: bool,
}

impl Model {
    fn sfences(&self, c: usize) -> usize {
        self.groups.iter().filter(|g| g.cell == c && (g.strong > 0 || g.detached.is_some())).count()
    }
    fn wfences(&self, c: usize) -> usize {
        self.groups.iter().filter(|g| g.cell == c && g.strong == 0 && g.detached.is_none() && g.weak > 0).count()
    }
    fn drop_strong(&mut self, gr: usize) {
        self.groups[gr].strong -= 1;
        self.ended(gr);
    }
    fn ended(&mut self, gr: usize) {
        let c = self.groups[gr].cell;
        if self.groups[gr].strong == 0 && self.groups[gr].detached.is_none() && self.sfences(c) == 0 && self.cells[c].alive {
            self.kill(c);
        }
    }
    /// The value goes: its destructor runs, then its links go in order.
    fn kill(&mut self, c: usize) {
        self.cells[c].alive = false;
        if self.nodes {
            let mut seen = vec![];
            if self.upg {
                for &(s, gr) in &self.cells[c].links {
                    if !s {
                        seen.push(self.groups[gr].strong > 0);
                    }
                }
            }
            let v = self.cells[c].val;
            self.events.push((v, seen));
        }
        for (s, gr) in std::mem::take(&mut self.cells[c].links) {
            if s {
                self.drop_strong(gr)
            } else {
                self.groups[gr].weak -= 1
            }
        }
    }
    fn blocks(&self, hybrid: bool) -> usize {
        if !hybrid {
            return self.groups.iter().filter(|g| g.strong + g.weak > 0).count();
        }
        let f = self.groups.iter().filter(|g| g.detached == Some(true) || (g.detached.is_none() && g.strong + g.weak > 0)).count();
        f + (0..self.cells.len()).filter(|&c| self.sfences(c) + self.wfences(c) > 0).count()
    }
}

const S: usize = 6;
const W: usize = 6;
const F: usize = 3;

struct H<Kd: Kind, T: Pay<Kd>> {
    s: Vec<Option<(Kd::S<T>, usize)>>,
    w: Vec<Option<(Kd::W<T>, usize)>>,
    f: Vec<Option<(Kd::F<T>, usize)>>,
    /// Many more pointers to one value, made and dropped together.
    crowd: (Vec<(Kd::S<T>, usize)>, Vec<(Kd::W<T>, usize)>),
    m: Model,
    fault: FaultMode,
    stop: bool,
}

fn full<X>(v: &[Option<X>], a: u32) -> Option<usize> {
    let ix: Vec<usize> = (0..v.len()).filter(|&i| v[i].is_some()).collect();
    if ix.is_empty() {
        None
    } else {
        Some(ix[a as usize % ix.len()])
    }
}

impl<Kd: Kind, T: Pay<Kd>> H<Kd, T> {
    fn new_cell(&mut self, v: u32, id: u64) -> usize {
        self.m.cells.push(Cell { val: v, id, alive: true, links: vec![] });
        self.m.cells.len() - 1
    }
    fn new_group(&mut self, cell: usize) -> usize {
        self.m.groups.push(Group { cell, strong: 1, weak: 0, detached: None });
        self.m.groups.len() - 1
    }
    fn put(&mut self, slot: usize, p: Kd::S<T>, gr: usize) {
        if let Some((old, og)) = self.s[slot].take() {
            drop(old);
            self.m.drop_strong(og);
        }
        self.s[slot] = Some((p, gr));
    }
    fn put_w(&mut self, slot: usize, p: Kd::W<T>, gr: usize) {
        if let Some((old, og)) = self.w[slot].take() {
            drop(old);
            self.m.groups[og].weak -= 1;
        }
        self.w[slot] = Some((p, gr));
    }
    fn disperse(&mut self) {
        let (p, w) = std::mem::take(&mut self.crowd);
        for (p, gr) in p {
            drop(p);
            self.m.drop_strong(gr);
        }
        for (w, gr) in w {
            drop(w);
            self.m.groups[gr].weak -= 1;
        }
    }
    fn arm(&self, f: u32) {
        if f > 0 {
            match self.fault {
                FaultMode::Alloc => a().fail_at = f as u64,
                FaultMode::Panic => g().cb_arm = f as u64,
                FaultMode::None => {}
            }
        }
    }
    /// Run one call into the library with the fault armed. None: it panicked, as it may then.
    fn call<R>(&mut self, f: u32, may_refuse: bool, op: impl FnOnce(&mut Self) -> R) -> Option<R> {
        let before = a().refused;
        let sel0 = a().sels.len();
        self.arm(f);
        let r = catch(|| op(self));
        a().fail_at = 0;
        let t = std::any::type_name::<T>();
        for x in &a().sels[sel0.min(a().sels.len())..] {
            label("selected");
            let named = if Kd::NAME == "Urc" { x.ty.contains(t) } else { x.ty == t };
            if !(named || x.ty.contains("u32")) {
                fail!(K::Select, "a request of {} of {} names the type {}", Kd::NAME, t, x.ty);
            }
            if let Some(m) = x.marker {
                fail!(K::Select, "a request of a pointer without a marker carries {:?}", m);
            }
        }
        let unfired = std::mem::replace(&mut g().cb_arm, 0);
        let _ = unfired;
        let refused = a().refused > before;
        if refused {
            label("refused");
        }
        let fired = std::mem::replace(&mut g().cb_fired, false);
        if fired {
            label("callback_panic");
        }
        match r {
            Ok(r) => {
                if fired {
                    fail!(K::Swallow, "a caller's panic did not come out of the operation");
                    self.stop = true;
                }
                Some(r)
            }
            Err(m) => {
                if fired {
                    if m != "injected" {
                        fail!(K::Swallow, "another panic came out instead of the caller's: {}", m);
                    }
                    self.stop = true;
                } else if !(refused && may_refuse) {
                    fail!(K::Panic, "panicked: {}", m);
                    fail!(K::Fault, "panicked: {}", m);
                    self.stop = true;
                }
                None
            }
        }
    }

    fn check(&mut self) {
        let g0 = g();
        let exp = std::mem::take(&mut self.m.events);
        let got = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
        if exp != got {
            fail!(K::Life, "destructors that ran (value, upgradable links): {:?}; expected {:?}", got, exp);
        }
        let mut text = vec![];
        // Miri is slow: look at everything only now and then
        let light = cfg!(miri) && g0.op_no % 4 != 3;
        for i in 0..S {
            let Some((p, gr)) = &self.s[i] else { continue };
            let gm = self.m.groups[*gr].clone();
            let cm = &self.m.cells[gm.cell];
            let (st, wk) = (Kd::strong(p), Kd::weak(p));
            if (st, wk) != (gm.strong, gm.weak) {
                fail!(K::Count, "pointer {}: counts (strong, weak) are ({}, {}), expected ({}, {})", i, st, wk, gm.strong, gm.weak);
            }
            if cm.id != 0 && !Tok::is_live(cm.id) {
                fail!(K::Life, "pointer {}: its value was dropped already", i);
                return;
            }
            let (v, id) = (Kd::get(p).val(), Kd::get(p).id());
            if v != cm.val || id != cm.id {
                fail!(K::Content, "pointer {} sees value {} (#{}), expected {} (#{})", i, v, id, cm.val, cm.id);
            }
            if Kd::ptr(p) != Kd::get(p) as *const T {
                fail!(K::Ret, "pointer {}: as_ptr() is not where the value is", i);
            }
            if !light && Kd::fmt(p) != format!("{:?}", Kd::get(p)) {
                fail!(K::Cmp, "pointer {} prints {:?}, its value {:?}", i, Kd::fmt(p), Kd::get(p));
            }
            if let Some(s) = Kd::sole(p) {
                let e = self.m.sfences(gm.cell) == 1;
                if s != e {
                    fail!(K::Count, "pointer {}: is_sole_strong_fence() is {}, expected {}", i, s, e);
                }
            }
            for j in 0..S {
                if light {
                    break;
                }
                let Some((q, gq)) = &self.s[j] else { continue };
                let same = self.m.groups[*gq].cell == gm.cell;
                if std::mem::size_of::<T>() > 0 && Kd::ptr_eq(p, q) != same {
                    fail!(K::Ret, "ptr_eq of pointers {} and {} is {}", i, j, !same);
                }
                if let Err(e) = Kd::agree(p, q) {
                    fail!(K::Cmp, "pointers {} and {}: {}", i, j, e);
                }
            }
            if g0.tracing {
                text.push(format!("p{}={}({}s{}w)", i, v, st, wk));
            }
        }
        for i in 0..W {
            let Some((w, gr)) = &self.w[i] else { continue };
            let gm = self.m.groups[*gr].clone();
            let cm = &self.m.cells[gm.cell];
            if light {
                continue;
            }
            if let Some((st, wk, txt, ptr)) = Kd::wlook(w) {
                if st != gm.strong {
                    fail!(K::Count, "weak pointer {}: strong_count() is {}, expected {}", i, st, gm.strong);
                }
                if gm.strong > 0 && wk != gm.weak {
                    fail!(K::Count, "weak pointer {}: weak_count() is {}, expected {}", i, wk, gm.weak);
                }
                let e = if cm.alive && gm.strong > 0 { format!("(Weak({:?}))", cm.val) } else { "(Weak deallocated)".into() };
                if txt != e {
                    fail!(K::Cmp, "weak pointer {} prints {}, expected {}", i, txt, e);
                }
                let up = Kd::upgrade(w);
                if up.is_some() != (gm.strong > 0) {
                    fail!(K::Life, "weak pointer {}: upgrade() gives {}, expected {}", i, up.is_some(), gm.strong > 0);
                    std::mem::forget(up);
                } else if let Some(u) = up {
                    if Kd::get(&u).id() != cm.id || Kd::ptr(&u) != ptr {
                        fail!(K::Content, "weak pointer {} upgrades to another value", i);
                    }
                }
                for j in 0..W {
                    let Some((x, gx)) = &self.w[j] else { continue };
                    if Kd::wptr_eq(w, x) != Some(gx == gr) {
                        fail!(K::Ret, "ptr_eq of weak pointers {} and {}", i, j);
                    }
                }
                if g0.tracing {
                    text.push(format!("w{}({}s)", i, st));
                }
            } else if g0.tracing {
                text.push(format!("w{}", i));
            }
        }
        for i in 0..F {
            let Some((f, _)) = &self.f[i] else { continue };
            let c = Kd::fence_counts(f);
            if c != (1, 0, true, false) {
                fail!(K::Count, "fence {} shows (strong, weak, is_strong, is_weak) {:?}", i, c);
            }
            if g0.tracing {
                text.push(format!("f{}", i));
            }
        }
        for (n, c) in self.m.cells.iter().enumerate() {
            if c.id != 0 && Tok::is_live(c.id) != c.alive {
                fail!(K::Life, "value {} (#{}) {}", n, c.id, if c.alive { "was dropped although a strong pointer is left" } else { "is still there although no strong pointer is left" });
            }
        }
        let (b, e) = (a().live_blocks(), self.m.blocks(Kd::HYBRID));
        if b > e {
            fail!(K::BlockLeak, "{} memory blocks are held, expected {}", b, e);
        } else if b < e {
            fail!(K::Block, "only {} memory blocks are held, expected {}", b, e);
        }
        if g0.tracing {
            g0.trace.push(format!("        -> {} | {} blocks", text.join(" "), b));
        }
        if a().live_blocks() > 300 {
            self.stop = true;
        }
    }

    fn op(&mut self, o: &Op) {
        let [k, x, y, z, f] = *o;
        let k = k % 26;
        let sx = full(&self.s, x);
        match k {
            0 | 1 => {
                // new
                let v = T::norm(z % 1000);
                let slot = y as usize % S;
                note(|| format!("p{} = {}::new[{}]({}) fault {}", slot, Kd::NAME, x % 4, v, f), &[0, slot as u64, v as u64]);
                label("new");
                let t = T::mk(v);
                let id = t.id();
                let ev = |m: &mut Model| if m.nodes { m.events.push((v, vec![])) };
                let n0 = self.m.cells.len();
                match self.call(f, true, |_| Kd::new(t, x)) {
                    Some(Ok(p)) => {
                        let c = self.new_cell(v, id);
                        let gr = self.new_group(c);
                        self.put(slot, p, gr);
                    }
                    Some(Err(())) => {
                        ev(&mut self.m);
                        self.refused("try_new");
                    }
                    None => {
                        ev(&mut self.m);
                    }
                }
                if self.m.cells.len() == n0 && id != 0 && Tok::is_live(id) {
                    fail!(K::Leak, "the value of a refused allocation was not dropped");
                    fail!(K::Fault, "the value of a refused allocation was not dropped");
                }
            }
            2 | 3 if z % 97 == 11 && self.fault == FaultMode::None => {
                if self.crowd.0.len() + self.crowd.1.len() > 0 {
                    note(|| "the crowd disperses".into(), &[102]);
                    self.disperse();
                    return;
                }
                let Some(i) = sx else { return };
                let n = match y % 32 {
                    _ if cfg!(miri) => 3,
                    0 => 65_500 + y as usize / 32 % 80,
                    _ => 200 + y as usize / 32 % 120,
                };
                let weak = x >> 8 & 1 == 1;
                note(|| format!("{} {} of p{}", n, if weak { "weak pointers" } else { "clones" }, i), &[103, i as u64, n as u64, weak as u64]);
                label("crowd");
                let (p, gr) = self.s[i].as_ref().unwrap();
                let gr = *gr;
                if weak {
                    self.crowd.1 = (0..n).map(|_| (Kd::down(p), gr)).collect();
                    self.m.groups[gr].weak += n;
                } else {
                    self.crowd.0 = (0..n).map(|_| (Kd::clone(p), gr)).collect();
                    self.m.groups[gr].strong += n;
                }
            }
            2 | 3 => {
                let (Some(i), j) = (sx, y as usize % S) else { return };
                note(|| format!("p{} = p{}.clone()", j, i), &[2, i as u64, j as u64]);
                let p = Kd::clone(&self.s[i].as_ref().unwrap().0);
                let gr = self.s[i].as_ref().unwrap().1;
                self.m.groups[gr].strong += 1;
                label("clone");
                let r = self.call(f, false, |h| h.put(j, p, gr));
                let _ = r;
            }
            4 | 5 => {
                let Some(i) = sx else { return };
                note(|| format!("drop p{}", i), &[4, i as u64]);
                let (p, gr) = self.s[i].take().unwrap();
                if self.call(f, false, |_| drop(p)).is_some() || !self.stop {
                    self.m.drop_strong(gr);
                }
                label("drop");
            }
            6 | 7 => {
                let (Some(i), j) = (sx, y as usize % W) else { return };
                note(|| format!("w{} = downgrade(p{})", j, i), &[6, i as u64, j as u64]);
                let w = Kd::down(&self.s[i].as_ref().unwrap().0);
                let gr = self.s[i].as_ref().unwrap().1;
                self.m.groups[gr].weak += 1;
                self.put_w(j, w, gr);
                label("downgrade");
            }
            8 => {
                let Some(i) = full(&self.w, x) else { return };
                note(|| format!("drop w{}", i), &[8, i as u64]);
                let (w, gr) = self.w[i].take().unwrap();
                drop(w);
                self.m.groups[gr].weak -= 1;
                label("drop_weak");
            }
            9 => {
                let Some(i) = full(&self.w, x) else { return };
                let j = y as usize % W;
                let gr = self.w[i].as_ref().unwrap().1;
                if let Some(w) = Kd::wclone(&self.w[i].as_ref().unwrap().0) {
                    note(|| format!("w{} = w{}.clone()", j, i), &[9, i as u64, j as u64]);
                    self.m.groups[gr].weak += 1;
                    self.put_w(j, w, gr);
                }
            }
            10 => {
                let Some(i) = full(&self.w, x) else { return };
                let j = y as usize % S;
                let gr = self.w[i].as_ref().unwrap().1;
                if !Kd::UPG {
                    return;
                }
                note(|| format!("p{} = w{}.upgrade()", j, i), &[10, i as u64, j as u64]);
                match Kd::upgrade(&self.w[i].as_ref().unwrap().0) {
                    Some(p) => {
                        if self.m.groups[gr].strong == 0 {
                            fail!(K::Life, "upgraded although the value is gone");
                            std::mem::forget(p);
                            self.stop = true;
                            return;
                        }
                        label("upgraded");
                        self.m.groups[gr].strong += 1;
                        self.put(j, p, gr);
                    }
                    None => {
                        label("upgrade_refused");
                        if self.m.groups[gr].strong > 0 {
                            fail!(K::Life, "not upgraded although the value lives");
                        }
                    }
                }
            }
            11 | 12 => {
                let Some(i) = sx else { return };
                let (p, gr) = self.s[i].take().unwrap();
                let gm = self.m.groups[gr].clone();
                let ok = gm.strong == 1 && self.m.sfences(gm.cell) == 1;
                note(|| format!("try_unwrap(p{})", i), &[11, i as u64]);
                let Some(r) = self.call(f, false, |_| Kd::unwrap(p)) else { return };
                match r {
                    Ok(t) => {
                        if !ok {
                            fail!(K::Excl, "unwrapped although {} strong pointers ({} groups) exist", gm.strong, self.m.sfences(gm.cell));
                            std::mem::forget(t);
                            self.stop = true;
                            return;
                        }
                        label("unwrapped");
                        let c = &self.m.cells[gm.cell];
                        if t.val() != c.val || t.id() != c.id {
                            fail!(K::Content, "unwrapped value {} (#{}), expected {} (#{})", t.val(), t.id(), c.val, c.id);
                        }
                        // the pointer is gone, the value is with us: counts first, then the value
                        let c = gm.cell;
                        self.m.groups[gr].strong = 0;
                        let b = a().live_blocks();
                        let e = self.m.blocks(Kd::HYBRID);
                        if b != e {
                            fail!(if b > e { K::BlockLeak } else { K::Block }, "{} memory blocks are held after unwrapping, expected {}", b, e);
                        }
                        for (w, g2) in self.w.iter().flatten() {
                            if *g2 == gr && Kd::upgrade(w).is_some() {
                                fail!(K::Life, "a weak pointer upgraded after the value was taken out");
                                self.stop = true;
                                std::mem::forget(t);
                                return;
                            }
                        }
                        let r = self.call(0, false, |_| drop(t));
                        let _ = r;
                        self.m.kill(c);
                    }
                    Err(p) => {
                        label("unwrap_refused");
                        self.s[i] = Some((p, gr));
                        if ok {
                            fail!(K::Excl, "the sole owner could not unwrap");
                        }
                    }
                }
            }
            13 | 14 => {
                let Some(i) = sx else { return };
                let v = T::norm(z % 1000);
                note(|| format!("*make_mut(p{}) = {} fault {}", i, v, f), &[13, i as u64, v as u64]);
                let gr = self.s[i].as_ref().unwrap().1;
                let gm = self.m.groups[gr].clone();
                let refused0 = a().refused;
                let r = self.call(f, true, |h| {
                    let t = Kd::make_mut(&mut h.s[i].as_mut().unwrap().0);
                    (t.id(), t.val())
                });
                let c0 = gm.cell;
                match r {
                    None => {
                        if self.stop {
                            return;
                        }
                        // nothing may have changed; a clone made in between is gone again
                        let cur = Kd::get(&self.s[i].as_ref().unwrap().0).id();
                        if cur != self.m.cells[c0].id {
                            fail!(K::Fault, "make_mut failed but changed the pointer");
                            self.stop = true;
                        }
                        if gm.strong > 1 || self.m.sfences(c0) > 1 {
                            self.clone_gone(c0);
                        }
                        label("make_mut_refused");
                    }
                    Some((id, val)) => {
                        if a().refused > refused0 {
                            fail!(K::Fault, "make_mut succeeded although its allocation was refused");
                        }
                        if val != self.m.cells[c0].val {
                            fail!(K::Content, "make_mut gives value {}, the pointer held {}", val, self.m.cells[c0].val);
                        }
                        let sole = gm.strong == 1 && self.m.sfences(c0) == 1;
                        let wk = gm.weak + self.m.wfences(c0);
                        if sole && wk == 0 {
                            label("make_mut_in_place");
                            if T::id(Kd::get(&self.s[i].as_ref().unwrap().0)) != 0 && id != self.m.cells[c0].id {
                                // replacing the value of the sole owner by a clone of it is not excluded as long as
                                // the old one is gone
                                self.moved(i, gr, c0, id);
                            }
                        } else if sole {
                            label("make_mut_moved");
                            self.moved(i, gr, c0, id);
                        } else {
                            label("make_mut_cloned");
                            if id != 0 && id == self.m.cells[c0].id {
                                fail!(K::Excl, "make_mut gives access to a value others share");
                                self.stop = true;
                                return;
                            }
                            let c = self.new_cell(self.m.cells[c0].val, id);
                            self.m.cells[c].links = self.cloned_links(c0);
                            let n = self.new_group(c);
                            self.s[i].as_mut().unwrap().1 = n;
                            self.m.drop_strong(gr);
                        }
                        let (p, gr) = self.s[i].as_mut().unwrap();
                        let c = self.m.groups[*gr].cell;
                        // now a sole owner: a second call must hand out the same value again
                        let t = Kd::make_mut(p);
                        if t.id() != id {
                            fail!(K::Excl, "make_mut twice gives two different values");
                        }
                        t.set(v);
                        self.m.cells[c].val = v;
                    }
                }
            }
            15 => {
                let Some(i) = sx else { return };
                let v = T::norm(z % 1000);
                note(|| format!("*get_mut(p{}) = {}", i, v), &[15, i as u64, v as u64]);
                let (p, gr) = self.s[i].as_mut().unwrap();
                let gm = self.m.groups[*gr].clone();
                let ok = gm.strong == 1 && gm.weak == 0 && self.m.sfences(gm.cell) == 1 && self.m.wfences(gm.cell) == 0;
                match Kd::get_mut(p) {
                    Some(t) => {
                        label("get_mut");
                        if !ok {
                            fail!(K::Excl, "get_mut gives access although others exist ({} strong, {} weak, {} groups)", gm.strong, gm.weak, self.m.sfences(gm.cell));
                        }
                        t.set(v);
                        self.m.cells[gm.cell].val = v;
                    }
                    None => {
                        label("get_mut_refused");
                        if ok {
                            fail!(K::Excl, "get_mut refuses the only pointer");
                        }
                    }
                }
            }
            16 | 17 if T::LINKS => {
                let (Some(i), Some(j)) = (sx, full(&self.s, y)) else { return };
                let (gi, gj) = (self.s[i].as_ref().unwrap().1, self.s[j].as_ref().unwrap().1);
                let ci = self.m.groups[gi].cell;
                if self.m.cells[ci].links.len() >= 4 {
                    return;
                }
                let strong = k == 16;
                note(|| format!("p{}.links.push({}(p{}))", i, if strong { "clone" } else { "downgrade" }, j), &[16, i as u64, j as u64, strong as u64]);
                let q = &self.s[j].as_ref().unwrap().0;
                let l = if strong { Popped::S(Kd::clone(q)) } else { Popped::W(Kd::down(q)) };
                Kd::get(&self.s[i].as_ref().unwrap().0).push(l);
                self.m.cells[ci].links.push((strong, gj));
                if strong {
                    self.m.groups[gj].strong += 1
                } else {
                    self.m.groups[gj].weak += 1
                }
                label(if strong { "linked" } else { "linked_weak" });
            }
            18 | 19 if T::LINKS => {
                let Some(i) = sx else { return };
                let c = self.m.groups[self.s[i].as_ref().unwrap().1].cell;
                let l = Kd::get(&self.s[i].as_ref().unwrap().0).pop();
                let e = self.m.cells[c].links.pop();
                let keep = k == 18;
                note(|| format!("p{}.links.pop() {}", i, if keep { "kept" } else { "dropped" }), &[18, i as u64, keep as u64]);
                match (l, e) {
                    (Popped::None, None) => {}
                    (Popped::S(p), Some((true, gr))) => {
                        label("unlinked");
                        if keep {
                            let j = y as usize % S;
                            self.put(j, p, gr);
                        } else {
                            let r = self.call(f, false, |_| drop(p));
                            let _ = r;
                            self.m.drop_strong(gr);
                        }
                    }
                    (Popped::W(p), Some((false, gr))) => {
                        if keep {
                            let j = y as usize % W;
                            self.put_w(j, p, gr);
                        } else {
                            drop(p);
                            self.m.groups[gr].weak -= 1;
                        }
                    }
                    _ => fail!(K::Content, "the value's own pointers are not those stored in it"),
                }
            }
            20 => {
                let Some(i) = sx else { return };
                let j = y as usize % S;
                let gr = self.s[i].as_ref().unwrap().1;
                note(|| format!("p{} = envelop+recv(p{})", j, i), &[20, i as u64, j as u64]);
                let r = self.call(f, true, |h| Kd::envelop(&h.s[i].as_ref().unwrap().0));
                match r {
                    Some(Some(p)) => {
                        label("enveloped");
                        let gr = if Kd::HYBRID {
                            let c = self.m.groups[gr].cell;
                            self.new_group(c)
                        } else {
                            self.m.groups[gr].strong += 1;
                            gr
                        };
                        self.put(j, p, gr);
                    }
                    _ => {}
                }
            }
            21 if Kd::HYBRID => {
                let Some(i) = sx else { return };
                let j = y as usize % F;
                if self.f[j].is_some() {
                    return;
                }
                let (p, gr) = self.s[i].take().unwrap();
                let gm = self.m.groups[gr].clone();
                let ok = gm.strong == 1 && gm.weak == 0;
                note(|| format!("f{} = try_into_fence(p{})", j, i), &[21, i as u64, j as u64]);
                match Kd::to_fence(p) {
                    Ok(fe) => {
                        label("fenced");
                        if !ok {
                            fail!(K::Excl, "made a fence although the group has {} strong and {} weak pointers", gm.strong, gm.weak);
                            std::mem::forget(fe);
                            self.stop = true;
                            return;
                        }
                        self.m.groups[gr].strong = 0;
                        self.m.groups[gr].detached = Some(true);
                        self.f[j] = Some((fe, gr));
                    }
                    Err(p) => {
                        label("fence_refused");
                        self.s[i] = Some((p, gr));
                        if ok {
                            fail!(K::Excl, "try_into_fence refuses the only pointer of its group");
                        }
                    }
                }
            }
            22 if Kd::HYBRID => {
                let Some(i) = full(&self.f, x) else { return };
                let (fe, gr) = self.f[i].take().unwrap();
                note(|| format!("f{} out of its block", i), &[22, i as u64]);
                self.m.groups[gr].detached = Some(false);
                self.f[i] = Some((Kd::fence_unbox(fe), gr));
            }
            23 if Kd::HYBRID => {
                let Some(i) = full(&self.f, x) else { return };
                let (fe, gr) = self.f[i].take().unwrap();
                let j = y as usize % S;
                note(|| format!("p{} = f{}.into_urc()", j, i), &[23, i as u64, j as u64]);
                match self.call(f, true, |_| Kd::from_fence(fe)) {
                    Some(p) => {
                        label("fence_to_urc");
                        self.m.groups[gr].detached = None;
                        self.m.groups[gr].strong = 1;
                        self.put(j, p, gr);
                    }
                    None => {
                        // the fence went with the failed call
                        self.m.groups[gr].detached = None;
                        self.m.ended(gr);
                    }
                }
            }
            24 if Kd::HYBRID => {
                let Some(i) = full(&self.f, x) else { return };
                let (fe, gr) = self.f[i].take().unwrap();
                note(|| format!("drop f{}", i), &[24, i as u64]);
                let r = self.call(f, false, |_| drop(fe));
                let _ = r;
                self.m.groups[gr].detached = None;
                self.m.ended(gr);
                label("drop_fence");
            }
            25 => {
                note(|| format!("uninit/default {}", z), &[25]);
                match self.call(f, true, |_| Kd::uninit(z)) {
                    Some(Ok(v)) if v == z => {}
                    Some(Err(m)) if m == "refused" => self.refused("try_new_uninit"),
                    Some(r) => fail!(K::Ret, "{:?}", r),
                    None => {}
                }
                if let Some(Some(p)) = self.call(f, true, |_| Kd::dflt::<u32>()) {
                    if *Kd::get(&p) != 0 {
                        fail!(K::Content, "Default gives {}", Kd::get(&p));
                    }
                }
            }
            _ => {}
        }
    }
    fn refused(&mut self, what: &str) {
        if a().refused == 0 {
            fail!(K::Fault, "{} returned an error without a refused allocation", what);
        }
    }
    fn cloned_links(&mut self, c0: usize) -> Vec<(bool, usize)> {
        let mut v = vec![];
        for (s, gr) in self.m.cells[c0].links.clone() {
            if s {
                self.m.groups[gr].strong += 1;
                v.push((s, gr));
            } else if Kd::UPG {
                self.m.groups[gr].weak += 1;
                v.push((s, gr));
            }
        }
        v
    }
    /// A clone of cell c0 was made and dropped again.
    fn clone_gone(&mut self, c0: usize) {
        let val = self.m.cells[c0].val;
        let links = self.cloned_links(c0);
        let c = self.new_cell(val, 0);
        self.m.cells[c].links = links;
        self.m.kill(c);
    }
    /// The value of group gr moved (or was cloned and dropped) to a new place.
    fn moved(&mut self, i: usize, gr: usize, c0: usize, id: u64) {
        let old = self.m.cells[c0].clone();
        if id != old.id {
            // cloned: the old value must be gone
            let c = self.new_cell(old.val, id);
            self.m.cells[c].links = self.cloned_links(c0);
            let n = self.new_group(c);
            self.s[i].as_mut().unwrap().1 = n;
            self.m.drop_strong(gr);
        } else {
            let c = self.new_cell(old.val, id);
            self.m.cells[c].links = std::mem::take(&mut self.m.cells[c0].links);
            self.m.cells[c0].alive = false;
            self.m.cells[c0].id = 0;
            self.m.groups[gr].strong -= 1;
            let n = self.new_group(c);
            self.s[i].as_mut().unwrap().1 = n;
        }
    }
    fn run(c: &Case) {
        let mut h: H<Kd, T> = H {
            s: (0..S).map(|_| None).collect(),
            w: (0..W).map(|_| None).collect(),
            f: (0..F).map(|_| None).collect(),
            crowd: (vec![], vec![]),
            m: Model { upg: Kd::UPG, nodes: T::LINKS, ..Default::default() },
            fault: g().fault,
            stop: false,
        };
        EVENTS.with(|e| e.borrow_mut().clear());
        note(|| format!("{} of {}", Kd::NAME, T::TNAME), &[T::TNAME.len() as u64 * 7 + Kd::NAME.len() as u64]);
        for (n, o) in c.ops.iter().enumerate() {
            g().op_no = n;
            if let Err(m) = catch(|| h.op(o)) {
                fail!(K::Panic, "panicked: {}", m);
                h.stop = true;
            }
            if h.stop || g().failed() {
                break;
            }
            if let Err(m) = catch(|| h.check()) {
                fail!(K::Panic, "panicked while looking: {}", m);
            }
            if h.stop || g().failed() {
                break;
            }
        }
        let l = |x| g().labels.get(x).copied().unwrap_or(0);
        let n = l("clone") + l("downgrade") + l("upgraded") + l("linked") + l("linked_weak") + l("enveloped");
        let e = l("unwrapped") + l("make_mut_cloned") + l("make_mut_moved") + l("get_mut") + l("fenced") + l("unlinked");
        g().nontrivial = n >= 2 && e >= 1;
        if g().failed() {
            std::mem::forget(h);
            return;
        }
        if h.stop {
            // after a caller's panic only safety is judged
            g().leaked_ok = true;
            let r = catch(|| drop((h.s, h.w, h.f, h.crowd)));
            if let Err(m) = r {
                if m != "injected" {
                    fail!(K::Swallow, "dropping what is left panics: {}", m);
                }
            }
            return;
        }
        // let everything go, one by one
        g().op_no = c.ops.len();
        for i in 0..S {
            if let Some((p, gr)) = h.s[i].take() {
                note(|| format!("drop p{}", i), &[]);
                drop(p);
                h.m.drop_strong(gr);
                h.check();
            }
        }
        h.disperse();
        h.check();
        for i in 0..F {
            if let Some((p, gr)) = h.f[i].take() {
                note(|| format!("drop f{}", i), &[]);
                drop(p);
                h.m.groups[gr].detached = None;
                h.m.ended(gr);
                h.check();
            }
        }
        for i in 0..W {
            if let Some((p, gr)) = h.w[i].take() {
                note(|| format!("drop w{}", i), &[]);
                drop(p);
                h.m.groups[gr].weak -= 1;
                h.check();
            }
        }
        // what is left now are cycles the values themselves form; they stay by design
        if h.m.cells.iter().any(|c| c.alive) {
            label("cycle_left");
            g().leaked_ok = true;
        } else if !g().failed() {
            crate::finish_elems();
        }
    }
}

fn kind<Kd: Kind>(c: &Case) {
    match c.cfg[1] % 14 {
        12 => H::<Kd, Odd>::run(c),
        13 => H::<Kd, Za>::run(c),
        0..=6 => H::<Kd, Node<Kd>>::run(c),
        7 => H::<Kd, Tok>::run(c),
        8 => H::<Kd, Al>::run(c),
        9 => H::<Kd, Big>::run(c),
        10 => H::<Kd, u8>::run(c),
        _ => H::<Kd, Zst>::run(c),
    }
}
pub fn rc(c: &Case) {
    kind::<KRc>(c)
}
pub fn arc(c: &Case) {
    kind::<KArc>(c)
}
pub fn urc(c: &Case) {
    kind::<KUrc>(c)
}
pub fn any(c: &Case) {
    match c.cfg[2] % 3 {
        0 => rc(c),
        1 => arc(c),
        _ => urc(c),
    }
}
