//! Comparison, ordering, hashing and formatting against slices, texts and plain values (C21).
use crate::audit::*;
use crate::core::*;
use crate::fail;
use lokky::arc::Arc;
use lokky::boxed::Box as LBox;
use lokky::rc::Rc;
use lokky::small_vec::SmallVec;
use lokky::string::String as LStr;
use lokky::urc::Urc;
use lokky::vec::Vec as LVec;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

// ---- contents -------------------------------------------------------------------------------------------

pub trait Val: Clone + PartialOrd + Debug + 'static {
    const N: &'static str;
    fn mk(x: u32) -> Self;
}
pub trait Full: Val + Ord + Hash {}

macro_rules! val {
    ($t:ty, $n:literal, |$x:ident| $e:expr) => {
        impl Val for $t {
            const N: &'static str = $n;
            fn mk($x: u32) -> Self {
                $e
            }
        }
    };
}
val!(u8, "u8", |x| [0, 1, 2, 127, 128, 255][x as usize % 6]);
val!(i32, "i32", |x| [0, 1, -1, 2, i32::MIN, i32::MAX][x as usize % 6]);
val!(u64, "u64", |x| [0, 1, 2, 1 << 40, u64::MAX, 255][x as usize % 6]);
val!(f64, "f64", |x| [0.0, -0.0, f64::NAN, 1.5, -1.5, f64::INFINITY][x as usize % 6]);
val!((), "()", |_x| ());
val!(char, "char", |x| ['a', 'b', 'é', '漢', '\n', '"'][x as usize % 6]);
val!(Option<u8>, "Option<u8>", |x| [None, Some(0), Some(1), None, Some(255), Some(1)][x as usize % 6]);
val!((u8, i32), "(u8, i32)", |x| [(0, 1), (0, -1), (1, 0), (0, 0), (255, 0), (1, 1)][x as usize % 6]);
impl Full for u8 {}
impl Full for i32 {}
impl Full for u64 {}
impl Full for () {}
impl Full for char {}
impl Full for Option<u8> {}
impl Full for (u8, i32) {}
// containers as elements
val!(LStr, "String", |x| string(["", "a", "b", "ab", "é", "aé"][x as usize % 6], x / 6));
impl Full for LStr {}
val!(LVec<u8>, "Vec<u8>", |x| vec_of(&[&[][..], &[0], &[1], &[0, 1], &[255], &[0, 0]][x as usize % 6], x / 6));
impl Full for LVec<u8> {}
val!(Rc<u8>, "Rc<u8>", |x| Rc::new(u8::mk(x)));
impl Full for Rc<u8> {}

/// Takes no room, and is not even equal to itself.
#[derive(Clone, Debug)]
pub struct Never;
impl PartialEq for Never {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
impl PartialOrd for Never {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        None
    }
}
val!(Never, "Never", |_x| Never);

/// Compares by its first part only: equal values may still differ.
#[derive(Clone, Debug)]
pub struct Keyed(u8, #[allow(dead_code)] u32);
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
/// In reverse order.
impl Ord for Keyed {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Hash for Keyed {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
val!(Keyed, "Keyed", |x| Keyed((x % 3) as u8, x));
impl Full for Keyed {}

// ---- oracles --------------------------------------------------------------------------------------------

/// A second hasher, which simply records everything.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn h1(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn h2(x: &(impl Hash + ?Sized)) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}

/// The six operators and partial_cmp.
fn rel<T: PartialOrd + ?Sized>(a: &T, b: &T) -> ([bool; 6], Option<Ordering>) {
    ([a == b, a != b, a < b, a <= b, a > b, a >= b], a.partial_cmp(b))
}
fn dbg_all(x: &(impl Debug + ?Sized)) -> [String; 6] {
    [format!("{:?}", x), format!("{:#?}", x), format!("{:4?}", x), format!("{:02x?}", x), format!("{:+.2?}", x), format!("{:<#7?}", x)]
}
fn disp_all(x: &(impl Display + ?Sized)) -> [String; 6] {
    [format!("{}", x), format!("{:>8}", x), format!("{:*^7.2}", x), format!("{:-<5}", x), format!("{:.1}", x), format!("{:#}", x)]
}

struct Seen {
    equal: u32,
    less: u32,
    unordered: u32,
}

fn partial<A: PartialOrd + Debug, S: PartialOrd + Debug + ?Sized>(a: &A, b: &A, sa: &S, sb: &S, what: &str, seen: &mut Seen) {
    let (x, y) = (rel(a, b), rel(sa, sb));
    if x != y {
        fail!(K::Cmp, "{}: {:?} and {:?} compare as {:?} where their contents compare as {:?} (== != < <= > >=)", what, a, b, x, y);
    }
    // one and the same container on both sides
    let (x1, y1) = (rel(a, a), rel(sa, sa));
    if x1 != y1 {
        fail!(K::Cmp, "{}: {:?} compares with itself as {:?} where its contents compare as {:?} (== != < <= > >=)", what, a, x1, y1);
    }
    match y.1 {
        Some(Ordering::Equal) => seen.equal += 1,
        Some(_) => seen.less += 1,
        None => seen.unordered += 1,
    }
    for (o, p) in dbg_all(a).iter().zip(&dbg_all(sa)) {
        if o != p {
            fail!(K::Cmp, "{}: prints {} where its contents print {}", what, o, p);
        }
    }
}
fn full<A: Ord + Hash + Debug, S: Ord + Hash + Debug + ?Sized>(a: &A, b: &A, sa: &S, sb: &S, what: &str) {
    if a.cmp(b) != sa.cmp(sb) {
        fail!(K::Cmp, "{}: cmp of {:?} and {:?} is {:?} where their contents give {:?}", what, a, b, a.cmp(b), sa.cmp(sb));
    }
    for (c, s) in [(a, sa), (b, sb)] {
        if h1(c) != h1(s) || h2(c) != h2(s) {
            fail!(K::Cmp, "{}: {:?} hashes differently from its contents", what, c);
        }
    }
}
/// Tables with the container as key, looked up by the borrowed form.
fn tables<A, S>(a: A, b: A, sa: &S, sb: &S, what: &str)
where
    A: Ord + Hash + Debug + Borrow<S>,
    S: Ord + Hash + Debug + ?Sized,
{
    let same = sa == sb;
    {
        let x: &S = a.borrow();
        if x != sa {
            fail!(K::Cmp, "{}: {:?} borrows as {:?} where its contents are {:?}", what, a, x, sa);
        }
    }
    let text = format!("{:?} and {:?}", a, b);
    let mut h: HashMap<A, u32> = HashMap::new();
    let mut t: BTreeMap<&S, u32> = BTreeMap::new();
    h.insert(a, 1);
    t.insert(sa, 1);
    if h.get(sa) != Some(&1) || h.contains_key(sb) != same {
        fail!(K::Cmp, "{}: a hash table with {} as key does not answer rightly to its contents", what, text);
    }
    h.insert(b, 2);
    t.insert(sb, 2);
    if h.len() != t.len() || h.get(sa) != t.get(sa) || h.get(sb) != Some(&2) {
        fail!(K::Cmp, "{}: a hash table with the keys {} differs from one with their contents as keys", what, text);
    }
    let mut o: BTreeMap<A, u32> = BTreeMap::new();
    for (k, v) in h {
        o.insert(k, v);
    }
    for s in [sa, sb] {
        if o.get(s) != t.get(s) {
            fail!(K::Cmp, "{}: an ordered table with the keys {} differs from one with their contents as keys", what, text);
        }
    }
    let ks: Vec<&S> = o.keys().map(|k| k.borrow()).collect();
    let ts: Vec<&S> = t.keys().copied().collect();
    if ks != ts {
        fail!(K::Cmp, "{}: an ordered table sorts {:?} where the contents sort {:?}", what, ks, ts);
    }
}

// ---- ways to come by a container ------------------------------------------------------------------------

fn vec_of<T: Clone + 'static>(s: &[T], how: u32) -> LVec<T> {
    match how % 8 {
        0 => LVec::from(s),
        1 => {
            let mut v = LVec::with_capacity_and_marker(s.len() + how as usize / 8 % 9, marker(how / 8));
            v.extend_from_slice(s);
            v
        }
        2 => {
            let mut v = LVec::with_marker(marker(how / 8));
            for x in s {
                v.push(x.clone());
            }
            v
        }
        3 => {
            // more than needed, cut back
            let mut v = LVec::from(s);
            for x in s {
                v.push(x.clone());
            }
            v.truncate(s.len());
            v
        }
        4 => {
            let mut v: LVec<T> = LVec::new();
            for x in s.iter().rev() {
                v.insert(0, x.clone());
            }
            v.shrink_to_fit();
            v
        }
        5 => small_of::<T, 3>(s, how / 8).into_vec(),
        6 => LVec::from(vec_of(s, how / 8 % 5).into_boxed_slice()),
        _ => s.iter().cloned().collect(),
    }
}
fn small_of<T: Clone + 'static, const N: usize>(s: &[T], how: u32) -> SmallVec<T, N> {
    match how % 7 {
        0 => SmallVec::from(s),
        1 => {
            let mut v = SmallVec::with_marker(marker(how / 7));
            for x in s {
                v.push(x.clone());
            }
            v
        }
        2 => {
            let mut v = SmallVec::with_capacity_and_marker(how as usize % 20, marker(how / 7));
            v.extend_from_slice(s);
            v
        }
        3 => {
            let mut v = SmallVec::<T, N>::from(s);
            v.move_to_heap();
            v
        }
        4 => {
            // out to the heap and back, if it fits
            let mut v = SmallVec::<T, N>::from(s);
            v.reserve(20);
            let _ = v.try_move_to_stack();
            v
        }
        5 => SmallVec::from(vec_of(s, [0, 1, 2, 3, 4, 7][how as usize / 7 % 6])),
        _ => {
            let mut v = SmallVec::<T, N>::from(s);
            v.extend(s.iter().cloned());
            v.truncate(s.len());
            v
        }
    }
}
fn string(s: &str, how: u32) -> LStr {
    match how % 6 {
        0 => LStr::from(s),
        1 => {
            let mut v = LStr::with_capacity_and_marker(s.len() + how as usize % 13, marker(how / 6));
            v.push_str(s);
            v
        }
        2 => s.chars().collect(),
        3 => {
            let mut v = LStr::from(s);
            v.push_str("tail");
            v.truncate(s.len());
            v
        }
        4 => {
            let mut v = LStr::from("head");
            v.push_str(s);
            v.split_off(4)
        }
        _ => {
            let mut v = LStr::new();
            for c in s.chars().rev() {
                v.insert(0, c);
            }
            v
        }
    }
}

/// Two contents, often related.
fn pair<T: Val>(op: &Op) -> (Vec<T>, Vec<T>) {
    let mut r = Rng::new(op[2] as u64);
    let n = r.below(6);
    let a: Vec<u32> = (0..n).map(|_| r.next() as u32 % 36).collect();
    let mut b = a.clone();
    match r.below(6) {
        0 => b = (0..r.below(6)).map(|_| r.next() as u32 % 36).collect(),
        1 => b.push(r.next() as u32 % 36),
        2 if !b.is_empty() => {
            let i = r.below(b.len() as u64) as usize;
            b[i] = r.next() as u32 % 36;
        }
        3 => b.truncate(n as usize / 2),
        4 if !b.is_empty() => {
            // the same values in other disguises
            for x in b.iter_mut() {
                *x = *x % 6 + 6 * (r.next() as u32 % 6);
            }
        }
        _ => {}
    }
    (a.iter().map(|&x| T::mk(x)).collect(), b.iter().map(|&x| T::mk(x)).collect())
}

fn seqs<T: Val>(op: &Op, seen: &mut Seen) {
    let (a, b) = pair::<T>(op);
    note(|| format!("compare sequences of {}: {:?} and {:?}, kind {}, made by ways {} and {}", T::N, a, b, op[1] % 5, op[3] % 56, op[4] % 56), &[1, op[1] as u64 % 5, op[2] as u64, op[3] as u64 % 56, op[4] as u64 % 56]);
    match op[1] % 5 {
        0 => partial(&vec_of(&a, op[3]), &vec_of(&b, op[4]), &a[..], &b[..], "Vec", seen),
        1 => partial(&small_of::<T, 0>(&a, op[3]), &small_of::<T, 0>(&b, op[4]), &a[..], &b[..], "SmallVec<0>", seen),
        2 => partial(&small_of::<T, 3>(&a, op[3]), &small_of::<T, 3>(&b, op[4]), &a[..], &b[..], "SmallVec<3>", seen),
        3 => partial(&small_of::<T, 9>(&a, op[3]), &small_of::<T, 9>(&b, op[4]), &a[..], &b[..], "SmallVec<9>", seen),
        _ => partial(&vec_of(&a, op[3]).into_boxed_slice(), &vec_of(&b, op[4]).into_boxed_slice(), &a[..], &b[..], "Box<[T]>", seen),
    }
}
fn seqs_full<T: Full>(op: &Op, seen: &mut Seen) {
    seqs::<T>(op, seen);
    let (a, b) = pair::<T>(op);
    macro_rules! both {
        ($f:expr, $g:expr, $n:literal) => {{
            full(&$f, &$g, &a[..], &b[..], $n);
            tables($f, $g, &a[..], &b[..], $n);
        }};
    }
    match op[1] % 5 {
        0 => both!(vec_of(&a, op[3]), vec_of(&b, op[4]), "Vec"),
        1 => both!(small_of::<T, 0>(&a, op[3]), small_of::<T, 0>(&b, op[4]), "SmallVec<0>"),
        2 => both!(small_of::<T, 3>(&a, op[3]), small_of::<T, 3>(&b, op[4]), "SmallVec<3>"),
        3 => both!(small_of::<T, 9>(&a, op[3]), small_of::<T, 9>(&b, op[4]), "SmallVec<9>"),
        _ => full(&vec_of(&a, op[3]).into_boxed_slice(), &vec_of(&b, op[4]).into_boxed_slice(), &a[..], &b[..], "Box<[T]>"),
    }
}

/// Sorting containers gives what sorting their contents gives.
fn sorting(op: &Op) {
    let mut r = Rng::new(op[2] as u64);
    let all: Vec<Vec<u8>> = (0..2 + r.below(5)).map(|_| (0..r.below(4)).map(|_| u8::mk(r.next() as u32)).collect()).collect();
    note(|| format!("sort containers of {:?}, kind {}", all, op[1] % 3), &[2, op[1] as u64 % 3, op[2] as u64]);
    let mut want = all.clone();
    want.sort();
    let mut k = op[3];
    let mut how = || {
        k = k.wrapping_mul(31).wrapping_add(7);
        k >> 3
    };
    let got: Vec<Vec<u8>> = match op[1] % 3 {
        0 => {
            let mut v: LVec<LVec<u8>> = all.iter().map(|x| vec_of(x, how())).collect();
            v.sort();
            v.dedup();
            want.dedup();
            v.iter().map(|x| x.to_vec()).collect()
        }
        1 => {
            let mut v: SmallVec<SmallVec<u8, 2>, 3> = all.iter().map(|x| small_of(x, how())).collect();
            v.sort();
            v.iter().map(|x| x.to_vec()).collect()
        }
        _ => {
            let mut v: Vec<Rc<LVec<u8>>> = all.iter().map(|x| Rc::new(vec_of(x, how()))).collect();
            v.sort();
            v.iter().map(|x| x.to_vec()).collect()
        }
    };
    if got != want {
        fail!(K::Cmp, "sorting containers gives {:?} where their contents sort as {:?}", got, want);
    }
}

fn strings(op: &Op, seen: &mut Seen) {
    let mut r = Rng::new(op[2] as u64);
    let parts = ["", "a", "b", "ab", "é", "漢字", "A", "z\n", "\"", "\u{10ffff}", "\0", "aaaaaaaa"];
    let mut a = String::new();
    for _ in 0..r.below(4) {
        a += parts[r.below(12) as usize];
    }
    let mut b = if r.below(2) == 0 { a.clone() } else { String::new() };
    if r.below(2) == 0 {
        b += parts[r.below(12) as usize];
    }
    note(|| format!("compare strings {:?} and {:?}, made by ways {} and {}", a, b, op[3] % 24, op[4] % 24), &[3, op[2] as u64, op[3] as u64 % 24, op[4] as u64 % 24]);
    let (x, y) = (string(&a, op[3]), string(&b, op[4]));
    partial(&x, &y, &a[..], &b[..], "String", seen);
    full(&x, &y, &a[..], &b[..], "String");
    for (o, p) in disp_all(&x).iter().zip(&disp_all(&a)) {
        if o != p {
            fail!(K::Cmp, "String displays {:?} where its text displays {:?}", o, p);
        }
    }
    tables::<LStr, str>(x, y, &a, &b, "String");
}

/// Pointers, to one shared value or to two.
fn pointers<T: Val>(op: &Op, seen: &mut Seen) {
    let (a, b) = pair::<T>(op);
    let (Some(a), Some(b)) = (a.first().cloned(), b.first().cloned()) else { return };
    let shared = op[3] % 3 == 0;
    let k = op[1] % 4;
    note(|| format!("compare {} pointers to {} {:?} and {:?}, shared {}", ["Rc", "Arc", "Urc", "Box"][k as usize], T::N, a, b, shared), &[4, k as u64, op[2] as u64, shared as u64]);
    macro_rules! ptr {
        ($p:ident) => {{
            let p = $p::new(a.clone());
            let q = if shared { p.clone() } else { $p::new(b.clone()) };
            let (va, vb) = (&*p, &*q);
            partial(&p, &q, va, vb, stringify!($p), seen);
            // through a weaker view: AsRef and Borrow give the value itself
            if AsRef::<T>::as_ref(&p) as *const T != va as *const T || Borrow::<T>::borrow(&p) as *const T != va as *const T {
                fail!(K::Cmp, "{}: AsRef or Borrow give another value", stringify!($p));
            }
            (p, q)
        }};
    }
    match k {
        0 => drop(ptr!(Rc)),
        1 => {
            let (p, _q) = ptr!(Arc);
            if format!("{:p}", p) != format!("{:p}", &*p as *const T) || format!("{:#20p}", p) != format!("{:#20p}", &*p as *const T) {
                fail!(K::Cmp, "Arc prints the address {:p} where its value is at {:p}", p, &*p as *const T);
            }
        }
        2 => {
            let (p, _q) = ptr!(Urc);
            if format!("{:p}", p) != format!("{:p}", &*p as *const T) || format!("{:#20p}", p) != format!("{:#20p}", &*p as *const T) {
                fail!(K::Cmp, "Urc prints the address {:p} where its value is at {:p}", p, &*p as *const T);
            }
        }
        _ => {
            let (p, q) = (LBox::new(a.clone()), LBox::new(b.clone()));
            partial(&p, &q, &a, &b, "Box", seen);
        }
    }
}
fn pointers_full<T: Full + Display>(op: &Op, seen: &mut Seen) {
    pointers::<T>(op, seen);
    let (a, b) = pair::<T>(op);
    let (Some(a), Some(b)) = (a.first().cloned(), b.first().cloned()) else { return };
    macro_rules! all {
        ($p:ident) => {{
            let (p, q) = ($p::new(a.clone()), $p::new(b.clone()));
            full(&p, &q, &a, &b, stringify!($p));
            for (o, x) in disp_all(&p).iter().zip(&disp_all(&a)) {
                if o != x {
                    fail!(K::Cmp, "{} displays {:?} where its value displays {:?}", stringify!($p), o, x);
                }
            }
            tables::<$p<T>, T>(p, q, &a, &b, stringify!($p));
        }};
    }
    match op[1] % 4 {
        0 => all!(Rc),
        1 => all!(Arc),
        2 => all!(Urc),
        _ => all!(LBox),
    }
}

/// Pointers to containers: everything nests.
fn nested(op: &Op, seen: &mut Seen) {
    let (a, b) = pair::<u8>(op);
    note(|| format!("compare nested {:?} and {:?}, kind {}", a, b, op[1] % 4), &[5, op[1] as u64 % 4, op[2] as u64, op[3] as u64 % 56, op[4] as u64 % 56]);
    let (va, vb) = (vec_of(&a, op[3]), vec_of(&b, op[4]));
    match op[1] % 4 {
        0 => {
            let (p, q) = (Rc::new(va), Rc::new(vb));
            partial(&p, &q, &a[..], &b[..], "Rc<Vec>", seen);
            full(&p, &q, &a[..], &b[..], "Rc<Vec>");
        }
        1 => {
            let (p, q) = (LBox::new(va), LBox::new(vb));
            partial(&p, &q, &a[..], &b[..], "Box<Vec>", seen);
            full(&p, &q, &a[..], &b[..], "Box<Vec>");
        }
        2 => {
            let (p, q) = (Arc::new(small_of::<u8, 3>(&a, op[3])), Arc::new(small_of::<u8, 3>(&b, op[4])));
            partial(&p, &q, &a[..], &b[..], "Arc<SmallVec>", seen);
            full(&p, &q, &a[..], &b[..], "Arc<SmallVec>");
        }
        _ => {
            let f = |x: &[u8], how: u32| -> LVec<LVec<u8>> { x.iter().map(|e| vec_of(&[*e, 1][..], how)).collect() };
            let w = |x: &[u8]| -> Vec<Vec<u8>> { x.iter().map(|e| vec![*e, 1]).collect() };
            let (p, q) = (f(&a, op[3]), f(&b, op[4]));
            partial(&p, &q, &w(&a)[..], &w(&b)[..], "Vec<Vec>", seen);
            full(&p, &q, &w(&a)[..], &w(&b)[..], "Vec<Vec>");
        }
    }
}

pub fn run(c: &Case) {
    let mut seen = Seen { equal: 0, less: 0, unordered: 0 };
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        let s = &mut seen;
        let r = catch(|| match op[0] % 24 {
            0 => seqs_full::<u8>(op, s),
            1 => seqs_full::<i32>(op, s),
            2 => seqs_full::<u64>(op, s),
            4 if op[4] % 3 == 0 => seqs::<Never>(op, s),
            3 | 4 => seqs::<f64>(op, s),
            5 => seqs_full::<()>(op, s),
            6 => seqs_full::<char>(op, s),
            7 => seqs_full::<Option<u8>>(op, s),
            8 => seqs_full::<(u8, i32)>(op, s),
            9 => seqs_full::<LStr>(op, s),
            10 => seqs_full::<LVec<u8>>(op, s),
            11 => seqs_full::<Rc<u8>>(op, s),
            12 => seqs_full::<Keyed>(op, s),
            13 => sorting(op),
            14..=16 => strings(op, s),
            17 | 18 => pointers::<f64>(op, s),
            19 => pointers_full::<i32>(op, s),
            20 => pointers_full::<LStr>(op, s),
            21 => pointers_full::<char>(op, s),
            22 if op[4] % 2 == 0 => pointers::<Never>(op, s),
            22 => pointers::<Keyed>(op, s),
            _ => nested(op, s),
        });
        if let Err(m) = r {
            fail!(K::Cmp, "panicked: {}", m);
        }
        if g().failed() {
            break;
        }
    }
    if seen.unordered > 0 {
        label("unordered");
    }
    g().nontrivial = seen.equal > 0 && seen.less > 0;
}
