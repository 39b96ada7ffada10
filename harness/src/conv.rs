//! Chains of conversions between containers (C22).
use crate::audit::*;
use crate::core::*;
use crate::elem::*;
use crate::fail;
use lokky::boxed::Box as LBox;
use lokky::small_vec::SmallVec;
use lokky::string::String as LStr;
use lokky::vec::Vec as LVec;

/// What currently holds the elements.
enum F<T: Elem> {
    V(LVec<T>),
    S0(SmallVec<T, 0>),
    S2(SmallVec<T, 2>),
    S5(SmallVec<T, 5>),
    S9(SmallVec<T, 9>),
    B(LBox<[T]>),
    Std(Vec<T>),
}
use F::*;

macro_rules! slice {
    ($f:expr) => {
        match $f {
            V(x) => &x[..],
            S0(x) => x.as_slice(),
            S2(x) => x.as_slice(),
            S5(x) => x.as_slice(),
            S9(x) => x.as_slice(),
            B(x) => &x[..],
            Std(x) => &x[..],
        }
    };
}

fn name<T: Elem>(f: &F<T>) -> &'static str {
    match f {
        V(_) => "Vec",
        S0(_) => "SmallVec<0>",
        S2(_) => "SmallVec<2>",
        S5(_) => "SmallVec<5>",
        S9(_) => "SmallVec<9>",
        B(_) => "Box<[T]>",
        Std(_) => "iterator source",
    }
}
fn see<T: Elem>(s: &[T]) -> Vec<(u64, u32)> {
    s.iter().map(|e| (e.id(), e.val())).collect()
}

fn array<T: Elem, const L: usize>(vals: &[u32]) -> [T; L] {
    std::array::from_fn(|i| T::mk(vals[i]))
}
macro_rules! from_array {
    ($c:ty, $v:expr, $n:expr) => {
        match $n {
            0 => one(array::<T, 0>($v), |a| <$c>::from(a)),
            1 => one(array::<T, 1>($v), |a| <$c>::from(a)),
            2 => one(array::<T, 2>($v), |a| <$c>::from(a)),
            3 => one(array::<T, 3>($v), |a| <$c>::from(a)),
            4 => one(array::<T, 4>($v), |a| <$c>::from(a)),
            5 => one(array::<T, 5>($v), |a| <$c>::from(a)),
            6 => one(array::<T, 6>($v), |a| <$c>::from(a)),
            7 => one(array::<T, 7>($v), |a| <$c>::from(a)),
            8 => one(array::<T, 8>($v), |a| <$c>::from(a)),
            9 => one(array::<T, 9>($v), |a| <$c>::from(a)),
            12 => one(array::<T, 12>($v), |a| <$c>::from(a)),
            40 => one(array::<T, 40>($v), |a| <$c>::from(a)),
            n => unreachable!("array of {}", n),
        }
    };
}
/// Convert an array, noting what it held.
fn one<T: Elem, const L: usize, R>(a: [T; L], f: impl FnOnce([T; L]) -> R) -> (Vec<(u64, u32)>, R) {
    let was = see(&a);
    let mark = Mark::now();
    let r = f(a);
    mark.same("from an array");
    (was, r)
}

/// Nothing may be cloned, made or dropped between two moments.
struct Mark {
    clones: u64,
    live: usize,
    made: usize,
    zst: i64,
}
impl Mark {
    fn now() -> Mark {
        Mark { clones: g().clones, live: g().live(), made: g().state.len(), zst: g().zst_live }
    }
    fn same(&self, what: &str) {
        let n = Mark::now();
        if n.clones != self.clones || n.made != self.made {
            fail!(K::Move, "{}: {} element(s) were cloned", what, n.made - self.made);
        }
        if n.live != self.live || n.zst != self.zst {
            fail!(K::Move, "{}: {} live elements became {}", what, self.live as i64 + self.zst, n.live as i64 + n.zst);
        }
    }
}

/// An iterator with its own idea of how much is left.
struct Shy<I>(I, u32);
impl<I: ExactSizeIterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n * 2)),
            _ => (n, None),
        }
    }
}

fn to_vec<T: Elem>(f: F<T>) -> LVec<T> {
    match f {
        V(x) => x,
        S0(x) => x.into_vec(),
        S2(x) => x.into_vec(),
        S5(x) => x.into_vec(),
        S9(x) => x.into_vec(),
        B(x) => LVec::from(x),
        Std(x) => x.into_iter().collect(),
    }
}

/// Move everything into another kind of container.
fn owning<T: Elem>(f: F<T>, op: &Op) -> F<T> {
    let k = op[2] % 12;
    match k {
        0 => V(to_vec(f)),
        1 => match f {
            B(x) => S0(SmallVec::from(x)),
            f => S0(SmallVec::from(to_vec(f))),
        },
        2 => match f {
            B(x) => S2(SmallVec::from(x)),
            f => S2(SmallVec::from(to_vec(f))),
        },
        3 => match f {
            B(x) => S5(SmallVec::from(x)),
            f => S5(SmallVec::from(to_vec(f))),
        },
        4 => match f {
            B(x) => S9(SmallVec::from(x)),
            f => S9(SmallVec::from(to_vec(f))),
        },
        5 => B(match f {
            S0(x) => x.into_boxed_slice(),
            S2(x) => x.into_boxed_slice(),
            S5(x) => x.into_boxed_slice(),
            S9(x) => x.into_boxed_slice(),
            B(x) => x,
            f => to_vec(f).into_boxed_slice(),
        }),
        6 => Std(match f {
            // out by a draining iterator
            V(mut x) => x.drain(..).collect(),
            S0(mut x) => x.drain(..).collect(),
            S2(mut x) => x.drain(..).collect(),
            S5(mut x) => x.drain(..).collect(),
            S9(mut x) => x.drain(..).collect(),
            f => to_vec(f).into_iter().collect(),
        }),
        7 => {
            // collected from an iterator
            let it = Shy(to_vec(f).into_iter(), op[3]);
            match op[3] / 4 % 4 {
                0 => V(it.collect()),
                1 => S2(it.collect()),
                2 => S5(it.collect()),
                _ => S9(it.collect()),
            }
        }
        8 => {
            // cut in two and put together again
            macro_rules! cut {
                ($x:expr, $w:ident) => {{
                    let mut x = $x;
                    let at = op[3] as usize % (x.len() + 1);
                    let mut y = x.split_off(at);
                    x.append(&mut y);
                    if y.len() != 0 {
                        fail!(K::Content, "append left {} elements behind", y.len());
                    }
                    $w(x)
                }};
            }
            match f {
                V(x) => cut!(x, V),
                S0(x) => cut!(x, S0),
                S2(x) => cut!(x, S2),
                S5(x) => cut!(x, S5),
                S9(x) => cut!(x, S9),
                f => cut!(to_vec(f), V),
            }
        }
        9 => {
            // cut in two, the tail into a small vector of another capacity, and back by extending
            macro_rules! cut {
                ($x:expr, $w:ident) => {{
                    let mut x = $x;
                    let at = op[3] as usize % (x.len() + 1);
                    let y = match op[3] / 64 % 3 {
                        0 => x.split_off_into::<0>(at).into_vec(),
                        1 => x.split_off_into::<3>(at).into_vec(),
                        _ => x.split_off_into::<8>(at).into_vec(),
                    };
                    x.extend(Shy(y.into_iter(), op[3] / 16));
                    $w(x)
                }};
            }
            match f {
                S0(x) => cut!(x, S0),
                S2(x) => cut!(x, S2),
                S5(x) => cut!(x, S5),
                S9(x) => cut!(x, S9),
                f => {
                    let mut x = to_vec(f);
                    let at = op[3] as usize % (x.len() + 1);
                    let y = x.split_off(at);
                    x.extend_from_iter(Shy(y.into_iter(), op[3] / 16));
                    V(x)
                }
            }
        }
        10 => {
            // storage moves
            macro_rules! mv {
                ($x:expr, $w:ident) => {{
                    let mut x = $x;
                    if op[3] % 2 == 0 {
                        x.move_to_heap();
                    } else {
                        let fits = x.try_move_to_stack().is_ok();
                        if fits == x.is_heap() {
                            fail!(K::Content, "try_move_to_stack says {} but is_heap is {}", fits, x.is_heap());
                        }
                    }
                    $w(x)
                }};
            }
            match f {
                S0(x) => mv!(x, S0),
                S2(x) => mv!(x, S2),
                S5(x) => mv!(x, S5),
                S9(x) => mv!(x, S9),
                f => {
                    let mut x = to_vec(f);
                    x.reserve(op[3] as usize % 30);
                    x.shrink_to_fit();
                    V(x)
                }
            }
        }
        _ => {
            // appended to an empty one
            match f {
                V(mut x) => {
                    let mut y = LVec::with_capacity_and_marker(op[3] as usize % 9, marker(op[3]));
                    y.append(&mut x);
                    V(y)
                }
                S2(mut x) => {
                    let mut y = SmallVec::with_marker(marker(op[3]));
                    y.append(&mut x);
                    S2(y)
                }
                S5(mut x) => {
                    let mut y = SmallVec::with_capacity(op[3] as usize % 9);
                    y.append(&mut x);
                    S5(y)
                }
                f => {
                    let mut y = SmallVec::new();
                    y.extend(to_vec(f));
                    S9(y)
                }
            }
        }
    }
}

/// Build another container from a borrowed view.
fn borrowed<T: Elem>(f: &mut F<T>, k: u32) -> F<T> {
    match k % 8 {
        0 => V(LVec::from(slice!(&*f))),
        1 => S2(SmallVec::from(slice!(&*f))),
        2 => S5(SmallVec::from(slice!(&*f))),
        3 => {
            let s: &mut [T] = match f {
                V(x) => x,
                S0(x) => x.as_mut_slice(),
                S2(x) => x.as_mut_slice(),
                S5(x) => x.as_mut_slice(),
                S9(x) => x.as_mut_slice(),
                B(x) => x,
                Std(x) => x,
            };
            if k / 8 % 2 == 0 {
                V(LVec::from(s))
            } else {
                S9(SmallVec::from(s))
            }
        }
        4 => {
            let mut v = LVec::new();
            v.extend_from_slice(slice!(&*f));
            V(v)
        }
        5 => {
            let mut v = SmallVec::new();
            v.extend_from_slice(slice!(&*f));
            S2(v)
        }
        6 => V(slice!(&*f).iter().cloned().collect()),
        _ => match &*f {
            V(x) => V(x.clone()),
            S0(x) => S0(x.clone()),
            S2(x) => S2(x.clone()),
            S5(x) => S5(x.clone()),
            S9(x) => S9(x.clone()),
            f => S0(SmallVec::from(slice!(f))),
        },
    }
}

fn chain<T: Elem>(c: &Case) {
    let mut r = Rng::new(c.cfg[2] as u64);
    let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 12, 40][r.below(13) as usize];
    let vals: Vec<u32> = (0..n.max(12)).map(|_| T::norm(r.next() as u32 % 50)).collect();
    let v = &vals[..];
    note(|| format!("{} elements of {} from an array: {:?}", n, T::NAME, &vals[..n]), &[n as u64, T::NAME.len() as u64, c.cfg[2] as u64]);
    let (mut was, mut f): (_, F<T>) = match c.cfg[3] % 5 {
        0 => {
            let (w, x) = from_array!(LVec<T>, v, n);
            (w, V(x))
        }
        1 => {
            let (w, x) = from_array!(SmallVec<T, 2>, v, n);
            (w, S2(x))
        }
        2 => {
            let (w, x) = from_array!(SmallVec<T, 5>, v, n);
            (w, S5(x))
        }
        3 => {
            let (w, x) = from_array!(SmallVec<T, 9>, v, n);
            (w, S9(x))
        }
        _ => {
            let (w, x) = from_array!(SmallVec<T, 0>, v, n);
            (w, S0(x))
        }
    };
    let check = |f: &F<T>, was: &[(u64, u32)], what: &str| {
        let now = see(slice!(f));
        if now != was {
            fail!(K::Content, "{}: {} holds (identity, value) {:?} where {:?} went in", what, name(f), now, was);
            return false;
        }
        true
    };
    check(&f, &was, "built from an array");
    let mut moves = 0;
    let mut other: Option<(F<T>, Vec<(u64, u32)>)> = None;
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        if g().failed() {
            break;
        }
        match op[0] % 5 {
            0..=2 => {
                let from = name(&f);
                let mark = Mark::now();
                f = owning(f, op);
                moves += 1;
                note(|| format!("{} -> {} (way {}, {})", from, name(&f), op[2] % 12, op[3]), &[1, op[2] as u64 % 12, op[3] as u64]);
                mark.same(&format!("{} to {}", from, name(&f)));
                check(&f, &was, "after the conversion");
            }
            3 => {
                // a copy, made from a borrowed view
                let mut b = borrowed(&mut f, op[2]);
                note(|| format!("{} copied into {} (way {})", name(&f), name(&b), op[2] % 8), &[2, op[2] as u64 % 16]);
                label("copied");
                check(&f, &was, "the source, after it was copied");
                let sb = see(slice!(&b));
                if sb.iter().map(|x| x.1).ne(was.iter().map(|x| x.1)) {
                    fail!(K::Content, "a copy holds {:?} where the source holds {:?}", sb, was);
                }
                if T::TRACKED && !T::ZST && sb.iter().any(|x| was.iter().any(|y| x.0 == y.0)) {
                    fail!(K::DeadRead, "a copy shares elements with its source");
                }
                // converted the other way round it is equal again
                if op[3] % 2 == 0 {
                    b = owning(b, &[0, 0, 0, 0, 0]);
                    if let (V(x), V(y)) = (&b, &V(LVec::from(slice!(&f)))) {
                        if x != y {
                            fail!(K::Content, "a copy converted back differs from the source");
                        }
                    }
                }
                // writing to one leaves the other alone
                if op[3] % 3 == 0 {
                    if let V(x) = &mut b {
                        x.iter_mut().for_each(|e| e.set(77));
                        x.push(T::mk(78));
                    } else if let S2(x) = &mut b {
                        x.as_mut_slice().iter_mut().for_each(|e| e.set(77));
                        x.push(T::mk(78));
                    }
                    check(&f, &was, "the source, after its copy was changed");
                }
                let sb = see(slice!(&b));
                match op[3] % 5 {
                    0 => {
                        // go on with the copy, keep the source
                        other = Some((std::mem::replace(&mut f, b), std::mem::replace(&mut was, sb)));
                    }
                    1 => {
                        drop(b);
                        check(&f, &was, "the source, after its copy was dropped");
                    }
                    2 => {
                        f = b;
                        was = sb;
                        check(&f, &was, "the copy, after its source was dropped");
                    }
                    _ => other = Some((b, sb)),
                }
            }
            _ => {
                if let Some((o, w)) = &mut other {
                    note(|| format!("exchange {} with {}", name(&f), name(o)), &[3]);
                    std::mem::swap(o, &mut f);
                    std::mem::swap(w, &mut was);
                }
            }
        }
        if let Some((o, w)) = &other {
            check(o, w, "the other container, meanwhile");
        }
    }
    g().nontrivial = moves >= 3 && was.len() >= 2;
    if g().failed() {
        std::mem::forget((f, other));
        g().leaked_ok = true;
        a().leak_ok = true;
        return;
    }
    drop(f);
    drop(other);
    if T::TRACKED {
        crate::finish_elems();
    }
}

static BYTES: [u8; 256] = {
    let mut b = [0; 256];
    let mut i = 0;
    while i < 256 {
        b[i] = i as u8;
        i += 1;
    }
    b
};

/// Chains of texts.
fn texts(c: &Case) {
    let mut r = Rng::new(c.cfg[2] as u64);
    let parts = ["", "a", "bc", "é", "漢", "\u{10ffff}", "line\n", "0123456789"];
    let mut t = String::new();
    for _ in 0..r.below(6) {
        t += parts[r.below(8) as usize];
    }
    note(|| format!("text {:?}", t), &[c.cfg[2] as u64]);
    let mut s = LStr::from(&t[..]);
    let mut n = 0;
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        let k = op[2] % 10;
        note(|| format!("text conversion {} ({})", k, op[3]), &[k as u64, op[3] as u64]);
        n += 1;
        let src = s.clone();
        s = match k {
            0 => s.chars().collect(),
            1 => {
                let cs: Vec<char> = s.chars().collect();
                cs.iter().collect()
            }
            2 => LStr::from_utf8(LVec::from(s.as_bytes())).unwrap(),
            3 => {
                // out as bytes, through a small vector and a box, and in again
                let v = std::mem::take(s.as_mut_vec());
                if s.len() != 0 {
                    fail!(K::Content, "a string without its bytes has length {}", s.len());
                }
                let v = if op[3] % 2 == 0 {
                    SmallVec::<u8, 4>::from(v)
                } else {
                    let mut y = SmallVec::<u8, 4>::new();
                    y.extend(v.iter().map(|&b| &BYTES[b as usize]));
                    y
                };
                let b = v.into_boxed_slice();
                LStr::from_utf8(SmallVec::<u8, 9>::from(b).into_vec()).unwrap()
            }
            4 => {
                let at = s.char_indices().map(|x| x.0).nth(op[3] as usize % 5).unwrap_or(0);
                let x = s.split_off(at);
                [s, x].into_iter().collect()
            }
            5 => s.split_inclusive('a').collect(),
            6 => {
                let u: Vec<u16> = s.encode_utf16().collect();
                LStr::from_utf16(&u).unwrap()
            }
            7 => s.parse().unwrap(),
            8 => {
                let mut x = LStr::with_capacity(op[3] as usize % 40);
                x.extend(s.chars().map(LStr::from));
                x
            }
            _ => LStr::new() + &s,
        };
        if s.as_str() != t {
            fail!(K::Content, "the text became {:?} where {:?} went in", s.as_str(), t);
        }
        if s != src || src.as_str() != t {
            fail!(K::Content, "a copy differs from the converted text: {:?}, {:?}", src, s);
        }
        if g().failed() {
            break;
        }
    }
    g().nontrivial = n >= 3 && t.len() >= 2;
}

pub fn run(c: &Case) {
    let r = catch(|| match c.cfg[1] % 14 {
        12 => chain::<Odd>(c),
        13 => chain::<Za>(c),
        0..=4 => chain::<Tok>(c),
        5 => chain::<Big>(c),
        6 => chain::<Al>(c),
        7 => chain::<Zst>(c),
        8 => chain::<u8>(c),
        9 => chain::<u32>(c),
        _ => texts(c),
    });
    if let Err(m) = r {
        fail!(K::Content, "panicked: {}", m);
    }
}
