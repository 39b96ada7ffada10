//! Histories of operations on lokky's String against std's String as the reference.
use crate::audit::*;
use crate::core::*;
use crate::fail;
use lokky::string::String as LStr;
use lokky::vec::Vec as LVec;
use std::fmt::Write;
use std::ops::{Bound, RangeBounds};

pub const CHARS: &[char] = &[
    'a', 'b', 'Z', ' ', '0', '\n', '"', '\'', '\\', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '漢', '\u{301}',
    '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '𝒳', '\u{10ffff}', 'x', 'y', 'q', 'İ', 'ﬃ',
];

pub fn ch(x: u32) -> char {
    match x % 40 {
        k @ 0..=31 => CHARS[k as usize],
        32..=36 => (b'a' + (x / 40 % 26) as u8) as char,
        _ => char::from_u32(x / 40 % 0x11_0000).unwrap_or('\u{fffd}'),
    }
}

pub fn chars(x: u32, y: u32) -> Vec<char> {
    let n = match x % 29 {
        28 if x / 29 % 32 == 7 && !cfg!(miri) => 1000 + x / 928 % 500,
        28 if x / 29 % 32 == 8 && x / 928 % 64 == 5 && !cfg!(miri) => 20_000 + x / 59_392 * 331 % 20_000,
        28 => 60,
        _ => x % 7,
    };
    let mut r = Rng::new(y as u64);
    (0..n).map(|_| ch(r.next() as u32)).collect()
}
pub fn text(x: u32, y: u32) -> String {
    chars(x, y).into_iter().collect()
}

/// Iterator with an honest but chosen size hint that can panic at any step.
pub struct Hinted<I: Iterator> {
    it: I,
    n: usize,
    hint: u32,
}
impl<T, I: Iterator<Item = T>> Hinted<I> {
    pub fn new(it: I, n: usize, hint: u32) -> Self {
        Hinted { it, n, hint }
    }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        let r = self.it.next();
        if r.is_some() {
            self.n -= 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint % 3 {
            0 => (self.n, Some(self.n)),
            1 => (0, None),
            _ => (self.n / 2, Some(self.n + 5)),
        }
    }
}

struct Slot {
    d: LStr,
    m: String,
    promise: usize,
    free: bool,
    /// the marker it was created with, if that is specified (C20)
    mk: Option<u32>,
}

pub struct In {
    slots: Vec<Slot>,
    edits: u32,
    wide: u32,
    new_mk: Option<u32>,
    sel0: (usize, usize),
    /// Let texts reach thousands of bytes.
    big: bool,
    /// How many times longer than that.
    scale: usize,
}

const SLOTS: usize = 3;
const MAXLEN: usize = 400;

#[derive(Clone, Copy, PartialEq)]
enum Fk {
    Try,
    Panics,
}

fn q(s: &str) -> String {
    if s.len() > 80 {
        format!("{:?}.. ({} bytes)", s.chars().take(24).collect::<String>(), s.len())
    } else {
        format!("{:?}", s)
    }
}

/// Positions are chosen among boundaries, non-boundaries and out-of-range places.
fn pos(x: u32, s: &str) -> usize {
    match x % 8 {
        7 => s.len() + 1 + (x as usize >> 3) % 3,
        6 => s.len(),
        5 => (x as usize >> 3) % (s.len() + 1), // any byte, maybe inside a character
        4 if x >> 3 & 15 == 15 => usize::MAX - (x as usize >> 7) % 2,
        _ => {
            let mut b: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
            b.push(s.len());
            b[(x as usize >> 3) % b.len()]
        }
    }
}

pub fn get_range<'a>(s: &'a str, r: (Bound<usize>, Bound<usize>)) -> Option<&'a str> {
    let a = match r.0 {
        Bound::Included(v) => v,
        Bound::Excluded(v) => v.checked_add(1)?,
        Bound::Unbounded => 0,
    };
    let b = match r.1 {
        Bound::Included(v) => v.checked_add(1)?,
        Bound::Excluded(v) => v,
        Bound::Unbounded => s.len(),
    };
    s.get(a..b)
}

impl In {
    fn new() -> In {
        In { slots: vec![Slot { d: LStr::new(), m: String::new(), promise: 0, free: true, mk: Some(0) }], edits: 0, wide: 0, new_mk: None, sel0: (0, 0), big: false, scale: 1 }
    }
    fn slot(&self, x: u32) -> usize {
        x as usize % self.slots.len()
    }
    fn arm(&self, op: &Op) {
        match g().fault {
            FaultMode::Alloc => a().fail_at = op[4] as u64 % 8,
            FaultMode::Panic => g().cb_arm = op[4] as u64 % 12,
            FaultMode::None => {}
        }
    }
    fn disarm(&self, refused0: u64) -> (bool, bool) {
        a().fail_at = 0;
        g().cb_arm = 0;
        let f = g().cb_fired;
        g().cb_fired = false;
        let r = a().refused > refused0;
        if f {
            label("callback_panic");
        }
        if r {
            label("refused");
        }
        (r, f)
    }

    /// Every request since `sel0` must name the element type and carry the right marker (C20).
    fn select(&self, mk: Option<u32>, sel0: (usize, usize), what: &str) {
        let al = a();
        for x in &al.sels[sel0.0.min(al.sels.len())..] {
            label("selected");
            if x.ty != "u8" {
                fail!(K::Select, "{}: a request of a string names the type {}", what, x.ty);
            }
            if let Some(m) = mk {
                if x.marker != marker_name(marker(m)) {
                    fail!(K::Select, "{}: a request carries the marker {:?} where the string was created with {:?}", what, x.marker, marker(m));
                }
            }
        }
        if let Some(m) = mk {
            for &o in &al.served[sel0.1.min(al.served.len())..] {
                label("served_by_marked");
                if o % 4 != m % 4 {
                    fail!(K::Select, "{}: memory came from the allocator of marker #{} where the string's is #{}", what, o % 4, m % 4);
                }
            }
        }
    }
    /// The text, if the bytes are sound enough to look at.
    fn read(&self, si: usize) -> Option<String> {
        let d = &self.slots[si].d;
        if d.len() > 1_000_000 {
            fail!(K::Content, "length {}", d.len());
            fail!(K::Utf8, "length {}", d.len());
            return None;
        }
        match std::str::from_utf8(d.as_bytes()) {
            Ok(s) => Some(s.to_string()),
            Err(e) => {
                fail!(K::Utf8, "bytes {:?} are not valid UTF-8: {}", d.as_bytes(), e);
                fail!(K::Content, "bytes {:?} are not valid UTF-8: {}", d.as_bytes(), e);
                None
            }
        }
    }
    fn check(&mut self, si: usize, what: &str) {
        let Some(s) = self.read(si) else {
            self.slots[si].d = LStr::new();
            self.slots[si].m = String::new();
            self.slots[si].promise = 0;
            return;
        };
        if s.len() > 65_535 {
            label("longer_than_65535");
        }
        let x = &self.slots[si];
        if s != x.m {
            fail!(K::Content, "{}: text {} where {} expected", what, q(&s), q(&x.m));
        }
        let d = &x.d;
        let views: [&str; 4] = [d.as_str(), d, d.as_ref(), std::borrow::Borrow::<str>::borrow(d)];
        if views.iter().any(|v| *v != s) {
            fail!(K::Content, "{}: the views of the text differ: {:?}", what, views);
        }
        if d.len() != s.len() || d.is_empty() != s.is_empty() {
            fail!(K::Ret, "{}: len {} is_empty {} for {}", what, d.len(), d.is_empty(), q(&s));
        }
        if d.capacity() < d.len() {
            fail!(K::Cap, "{}: capacity {} below length {}", what, d.capacity(), d.len());
        }
        self.slots[si].m = s;
        let m = self.slots[si].d.as_mut_vec().marker();
        match self.slots[si].mk {
            None => self.slots[si].mk = Some(alloc_ix(0, marker_name(m)) % 4),
            Some(x) if marker(x) != m => fail!(K::Select, "{}: reports the marker {:?} where it was created with {:?}", what, m, marker(x)),
            _ => {}
        }
    }

    /// Run an operation on slot `si`. `new`: expected text, or None if it must panic and change nothing.
    fn un<R: PartialEq + std::fmt::Debug>(&mut self, op: &Op, si: usize, new: Option<String>, ret: Option<R>, fk: Fk, f: impl FnOnce(&mut LStr) -> R) -> Option<R> {
        let old = self.slots[si].m.clone();
        let (req0, ref0) = (a().requests, a().refused);
        let cap0 = self.slots[si].d.capacity();
        let ptr0 = self.slots[si].d.as_ptr() as usize;
        let (promise0, free0) = (self.slots[si].promise, self.slots[si].free);
        let sel0 = (a().sels.len(), a().served.len());
        self.arm(op);
        let d = &mut self.slots[si].d;
        let r = catch(|| f(d));
        let (refused, injected) = self.disarm(ref0);
        if self.new_mk.is_none() {
            self.select(self.slots[si].mk, sel0, "during the operation");
        }
        self.new_mk = None;
        let reqs = a().requests - req0;
        let mut out = None;
        match (r, new) {
            (Ok(v), Some(new)) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                    self.resync(si);
                } else if refused && ret.as_ref().map_or(false, |e| v != *e) {
                    // a reported refusal
                    self.after_fault(si, &old, &new);
                    return Some(v);
                } else {
                    if let Some(e) = &ret {
                        if v != *e {
                            fail!(K::Ret, "returned {:?} where {:?} expected", v, e);
                        }
                    }
                    if new != old {
                        self.edits += 1;
                        if new.len() != new.chars().count() {
                            self.wide += 1;
                        }
                    }
                    if refused {
                        if let Some(act) = self.read(si) {
                            if act != new {
                                fail!(K::Fault, "reported success after a refused request, text {} where {} expected", q(&act), q(&new));
                            }
                        }
                    }
                    let len = new.len();
                    self.slots[si].m = new;
                    self.check(si, "after the operation");
                    if len <= promise0 && len > old.len() {
                        if reqs > 0 {
                            fail!(K::Cap, "growing to {} bytes made {} allocator request(s) although room for {} was reserved", len, reqs, promise0);
                        }
                        if self.slots[si].d.as_ptr() as usize != ptr0 {
                            fail!(K::Cap, "growing to {} bytes moved the text although room for {} was reserved", len, promise0);
                        }
                    }
                    if len > 0 {
                        self.slots[si].free = false;
                    }
                    if self.slots[si].free {
                        label("unfilled_op");
                        if reqs > 0 {
                            fail!(K::Heap, "{} allocator request(s) for a string created without capacity and never filled", reqs);
                        }
                    }
                    let _ = free0;
                }
                out = Some(v);
            }
            (Ok(_), None) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                } else {
                    fail!(K::NoPanic, "did not panic");
                }
                self.resync(si);
            }
            (Err(m), new) => {
                if injected {
                    self.resync(si);
                } else if refused {
                    if fk == Fk::Try {
                        fail!(K::Fault, "a fallible operation panicked on a refused request: {}", m);
                    }
                    let n = new.unwrap_or_else(|| old.clone());
                    self.after_fault(si, &old, &n);
                } else if let Some(new) = new {
                    fail!(K::Panic, "panicked although it should give {}: {}", q(&new), m);
                    self.resync(si);
                } else {
                    label("rightly_panicked");
                    if let Some(act) = self.read(si) {
                        if act != old {
                            fail!(K::Content, "panicked rightly but changed the text to {} (was {})", q(&act), q(&old));
                        }
                    }
                    self.resync(si);
                }
                self.slots[si].free = false;
                if self.slots[si].d.capacity() < cap0 {
                    self.slots[si].promise = 0;
                }
            }
        }
        out
    }
    fn after_fault(&mut self, si: usize, old: &str, new: &str) {
        if let Some(act) = self.read(si) {
            let between = act.len() >= old.len() && act.starts_with(old) && new.starts_with(&act);
            if act != *old && !between {
                fail!(K::Fault, "after a refused request: text {} (was {})", q(&act), q(old));
            }
        } else {
            fail!(K::Fault, "after a refused request the text is not valid");
        }
        self.resync(si);
        self.slots[si].free = false;
    }
    fn resync(&mut self, si: usize) {
        if let Some(s) = self.read(si) {
            self.slots[si].m = s;
        }
        self.check(si, "after a panic");
    }
    /// The caught result of a constructor.
    fn add(&mut self, r: Result<Option<LStr>, String>, want: Option<String>, ref0: u64, fallible: bool, promise: usize, free: bool, reqs: u64) {
        let (refused, injected) = self.disarm(ref0);
        let mk = self.new_mk.take();
        self.select(mk, self.sel0, "construction");
        match (r, want) {
            (Ok(Some(d)), Some(m)) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                }
                if d.capacity() < promise {
                    fail!(K::Cap, "capacity {} where {} was requested", d.capacity(), promise);
                }
                if free && reqs > 0 {
                    fail!(K::Heap, "{} allocator request(s) to construct an empty string without capacity", reqs);
                }
                if m.len() > 0 {
                    self.edits += 1;
                }
                let s = Slot { d, m, promise, free, mk };
                let l = if self.slots.len() < SLOTS {
                    self.slots.push(s);
                    self.slots.len() - 1
                } else {
                    self.slots[1] = s;
                    1
                };
                self.check(l, "after construction");
            }
            (Ok(Some(d)), None) => {
                if promise == 0 {
                    fail!(K::NoPanic, "accepted malformed input as {:?}", d.as_bytes());
                } else {
                    fail!(K::Cap, "accepted an impossible capacity {}", promise);
                }
            }
            (Ok(None), Some(m)) => {
                if !refused {
                    fail!(K::Ret, "refused what stands for {}", q(&m));
                }
            }
            (Ok(None), None) => label("rightly_rejected"),
            (Err(e), want) => {
                if refused && fallible {
                    fail!(K::Fault, "a fallible constructor panicked on a refused request: {}", e);
                } else if !refused && !injected && want.is_some() {
                    fail!(K::Panic, "construction panicked: {}", e);
                }
            }
        }
    }

    fn bounds(op: &Op, s: &str) -> (Bound<usize>, Bound<usize>) {
        let (mut x, mut y) = (pos(op[2] >> 4, s), pos(op[3] >> 2, s));
        if op[2] % 3 != 0 && x > y {
            std::mem::swap(&mut x, &mut y);
        }
        match op[3] % 6 {
            0 => (Bound::Included(x), Bound::Excluded(y)),
            1 => (Bound::Unbounded, Bound::Excluded(y)),
            2 => (Bound::Included(x), Bound::Unbounded),
            3 => (Bound::Unbounded, Bound::Unbounded),
            4 => (Bound::Included(x), Bound::Included(y.wrapping_sub(1))),
            _ => (Bound::Unbounded, Bound::Included(y.wrapping_sub(1))),
        }
    }

    fn step(&mut self, op: &Op) {
        let si = self.slot(op[1]);
        let old = self.slots[si].m.clone();
        let len = old.len();
        let tag = |n: String| format!("{} on #{} {}", n, si, q(&old));
        let (x, y) = (op[2], op[3]);
        let s64 = si as u64;
        if len > if self.big { 6000 * self.scale } else { MAXLEN } {
            note(|| tag("clear".into()), &[]);
            self.un(op, si, Some(String::new()), Some(()), Fk::Panics, |d| d.clear());
            return;
        }
        match op[0] % 30 {
            0 | 1 => {
                let c = ch(x ^ y);
                note(|| tag(format!("push({:?})", c)), &[1, s64, c as u64]);
                let mut n = old.clone();
                n.push(c);
                self.un(op, si, Some(n), Some(()), Fk::Panics, |d| {
                    if x & 0x300 != 0 {
                        d.push(c)
                    } else if d.write_char(c).is_err() {
                        fail!(K::Ret, "write_char failed");
                    }
                });
            }
            2 => {
                note(|| tag("pop".into()), &[2, s64]);
                let mut n = old.clone();
                let r = n.pop();
                self.un(op, si, Some(n), Some(r), Fk::Panics, |d| d.pop());
            }
            3 => {
                let t = text(x, y);
                let k = x >> 8 & 3;
                note(|| tag(format!("{}({:?})", ["push_str", "+=", "write_str", "write!"][k as usize], t)), &[3, s64, x as u64 % 203, y as u64, k as u64]);
                let n = old.clone() + &t;
                self.un(op, si, Some(n), Some(()), Fk::Panics, |d| match k {
                    0 => d.push_str(&t),
                    1 => *d += &t,
                    2 => {
                        if d.write_str(&t).is_err() {
                            fail!(K::Ret, "write_str failed");
                        }
                    }
                    _ => {
                        if write!(d, "{}", t).is_err() {
                            fail!(K::Ret, "write! failed");
                        }
                    }
                });
            }
            4 => {
                note(|| tag("clear".into()), &[4, s64]);
                self.un(op, si, Some(String::new()), Some(()), Fk::Panics, |d| d.clear());
            }
            5 | 6 => {
                let i = pos(x, &old);
                note(|| tag(format!("remove({})", i)), &[5, s64, i as u64]);
                let mut n = old.clone();
                let (n, r) = if i < len && n.is_char_boundary(i) {
                    let r = n.remove(i);
                    (Some(n), Some(r))
                } else {
                    (None, None)
                };
                self.un(op, si, n, r, Fk::Panics, |d| d.remove(i));
            }
            7 | 8 => {
                let i = pos(x, &old);
                let c = ch(y);
                note(|| tag(format!("insert({}, {:?})", i, c)), &[6, s64, i as u64, c as u64]);
                let n = if old.is_char_boundary(i) {
                    let mut n = old.clone();
                    n.insert(i, c);
                    Some(n)
                } else {
                    None
                };
                self.un(op, si, n, Some(()), Fk::Panics, |d| d.insert(i, c));
            }
            9 | 10 => {
                let i = pos(x, &old);
                let t = text(y, y >> 8);
                note(|| tag(format!("insert_str({}, {:?})", i, t)), &[7, s64, i as u64, y as u64]);
                let n = if old.is_char_boundary(i) {
                    let mut n = old.clone();
                    n.insert_str(i, &t);
                    Some(n)
                } else {
                    None
                };
                self.un(op, si, n, Some(()), Fk::Panics, |d| d.insert_str(i, &t));
            }
            11 => {
                let i = pos(x, &old);
                note(|| tag(format!("truncate({})", i)), &[8, s64, i as u64]);
                let n = if i >= len {
                    Some(old.clone())
                } else if old.is_char_boundary(i) {
                    Some(old[..i].to_string())
                } else {
                    None
                };
                self.un(op, si, n, Some(()), Fk::Panics, |d| d.truncate(i));
            }
            12 => {
                let i = pos(x, &old);
                note(|| tag(format!("split_off({})", i)), &[9, s64, i as u64]);
                let (n, t) = if old.is_char_boundary(i) { (Some(old[..i].to_string()), old[i..].to_string()) } else { (None, String::new()) };
                let mut res = None;
                self.new_mk = Some(0);
                self.un(op, si, n, Some(()), Fk::Panics, |d| res = Some(d.split_off(i)));
                if let Some(d) = res {
                    let s = Slot { d, m: t, promise: 0, free: false, mk: None };
                    let l = if self.slots.len() < SLOTS {
                        self.slots.push(s);
                        self.slots.len() - 1
                    } else {
                        let l = (si + 1) % SLOTS;
                        self.slots[l] = s;
                        l
                    };
                    self.check(l, "the part split off");
                }
            }
            13 | 14 => {
                let by_call = y % 2 == 0;
                note(|| tag(format!("retain(mask {:#x}, by {})", x, if by_call { "call" } else { "character" })), &[10, s64, x as u64, by_call as u64]);
                let keep = move |n: &mut u32, c: char| {
                    let b = if by_call { *n } else { c as u32 ^ (c as u32 >> 5) };
                    *n += 1;
                    x >> (b % 32) & 1 == 1
                };
                let mut n = old.clone();
                let mut seen = vec![];
                let mut k = 0;
                n.retain(|c| {
                    seen.push(c);
                    keep(&mut k, c)
                });
                let mut k2 = 0;
                self.un(op, si, Some(n), Some(seen), Fk::Panics, |d| {
                    let mut seen2 = vec![];
                    d.retain(|c| {
                        tick();
                        seen2.push(c);
                        keep(&mut k2, c)
                    });
                    seen2
                });
            }
            15 | 16 => self.reserve(op, si),
            17 => {
                let n = match x % 12 {
                    11 => usize::MAX,
                    10 => len + x as usize / 12 % 8,
                    8 | 9 if self.big => x as usize / 12 % (9000 * self.scale),
                    k => k as usize * 3,
                };
                let fit = y % 2 == 0;
                note(|| tag(if fit { "shrink_to_fit".into() } else { format!("shrink_to({})", n) }), &[11 + fit as u64, s64, n as u64]);
                let cap0 = self.slots[si].d.capacity();
                self.slots[si].promise = 0;
                self.un(op, si, Some(old.clone()), Some(()), Fk::Panics, |d| if fit { d.shrink_to_fit() } else { d.shrink_to(n) });
                let cap1 = self.slots[si].d.capacity();
                let floor = if fit { len } else { n.min(cap0).max(len) };
                if cap1 < floor || cap1 > cap0 {
                    fail!(K::Cap, "shrank from capacity {} to {}, length {} and minimum {}", cap0, cap1, len, n);
                }
                self.slots[si].promise = floor.min(10_000);
            }
            18 => {
                // (another string would need memory of its own)
                let how = if old.is_empty() { x % 3 } else { x % 4 };
                note(|| tag(["clone", "clone", "clone_from into a new one", "clone_from into another"][how as usize].into()), &[13, s64, how as u64 / 2 * how as u64]);
                let mut res = None;
                self.new_mk = Some(0);
                self.un(op, si, Some(old.clone()), Some(()), Fk::Panics, |d| {
                    res = Some(match how {
                        2 => {
                            let mut t = LStr::new();
                            t.clone_from(d);
                            t
                        }
                        3 => {
                            let mut t = LStr::from(&text(y, x)[..]);
                            t.clone_from(d);
                            t
                        }
                        _ => d.clone(),
                    })
                });
                if let Some(d) = res {
                    let s = Slot { d, m: old.clone(), promise: 0, free: false, mk: None };
                    let l = if self.slots.len() < SLOTS {
                        self.slots.push(s);
                        self.slots.len() - 1
                    } else {
                        let l = (si + 1) % SLOTS;
                        self.slots[l] = s;
                        l
                    };
                    self.check(l, "the clone");
                    self.check(si, "the cloned string");
                }
            }
            19 => {
                let k = x % 4;
                note(|| tag(format!("in-place edit {}", k)), &[14, s64, k as u64]);
                let mut n = old.clone();
                let up = |s: &mut str| {
                    if y % 2 == 0 {
                        s.make_ascii_uppercase()
                    } else {
                        s.make_ascii_lowercase()
                    }
                };
                up(&mut n);
                self.un(op, si, Some(n), Some(()), Fk::Panics, |d| match k {
                    0 => up(d.as_mut_str()),
                    1 => up(&mut *d),
                    2 => up(d.as_mut()),
                    _ => up(std::borrow::BorrowMut::<str>::borrow_mut(d)),
                });
            }
            20 => {
                let t = text(x, y);
                note(|| tag(format!("as_mut_vec().extend_from_slice({:?} bytes)", t)), &[15, s64, x as u64 % 203, y as u64]);
                let n = old.clone() + &t;
                self.un(op, si, Some(n), Some(()), Fk::Panics, |d| d.as_mut_vec().extend_from_slice(t.as_bytes()));
            }
            21 | 22 => {
                // extend by an iterator of pieces
                let k = x >> 8 & 3;
                let h = x >> 10;
                let cs = chars(x, y);
                let mut r = Rng::new(y as u64 + 1);
                let pieces: Vec<String> = (0..cs.len().min(5)).map(|_| text(r.next() as u32 % 6, r.next() as u32)).collect();
                let n = old.clone() + &if k < 2 { cs.iter().collect::<String>() } else { pieces.concat() };
                note(|| tag(format!("extend by {} (hint {}): {}", ["char", "&char", "&str", "String"][k as usize], h % 3, q(&n[len..]))), &[16, s64, k as u64, x as u64 % 203, y as u64, h as u64 % 3]);
                let m = h >> 2;
                // built beforehand: only the extension itself is under test
                let ls: Vec<LStr> = if k == 3 {
                    pieces
                        .iter()
                        .enumerate()
                        .map(|(i, p)| {
                            let mut s = LStr::with_marker(marker(if i == 0 { m } else { 0 }));
                            s.push_str(p);
                            s
                        })
                        .collect()
                } else {
                    vec![]
                };
                let mk0 = marker_name(self.slots[si].d.as_mut_vec().marker());
                self.un(op, si, Some(n), Some(()), Fk::Panics, |d| match k {
                    0 => d.extend(Hinted::new(cs.iter().copied(), cs.len(), h)),
                    1 => d.extend(Hinted::new(cs.iter(), cs.len(), h)),
                    2 => d.extend(Hinted::new(pieces.iter().map(|s| s.as_str()), pieces.len(), h)),
                    _ => d.extend(Hinted::new(ls.into_iter(), pieces.len(), h)),
                });
                let mk1 = marker_name(self.slots[si].d.as_mut_vec().marker());
                if mk0 != mk1 {
                    fail!(K::Select, "extending changed the marker from {:?} to {:?}", mk0, mk1);
                }
                if k == 3 {
                    // it may have taken over the first piece, capacity and all
                    self.slots[si].promise = 0;
                }
            }
            23 => {
                // slicing
                let r = Self::bounds(op, &old);
                // an inclusive range that was already walked to its end stands for what is after its end: nothing
                let spent = match r {
                    (Bound::Included(a), Bound::Included(b)) if op[4] % 4 == 0 && a <= b && b < 100_000 => Some(b + 1),
                    _ => None,
                };
                note(|| tag(format!("index {:?}{}", r, if spent.is_some() { ", already iterated over" } else { "" })), &[17, s64, x as u64, y as u64]);
                let want = match spent {
                    Some(b) => get_range(&old, (Bound::Included(b), Bound::Excluded(b))),
                    None => get_range(&old, r),
                };
                let want = want.map(|s| s.to_string());
                let n = want.as_ref().map(|_| old.clone());
                self.un(op, si, n, want, Fk::Panics, |d| {
                    use Bound::*;
                    match r {
                        (Included(a), Excluded(b)) => d[a..b].to_string(),
                        (Unbounded, Excluded(b)) => d[..b].to_string(),
                        (Included(a), Unbounded) => d[a..].to_string(),
                        (Unbounded, Unbounded) => d[..].to_string(),
                        (Included(a), Included(b)) => {
                            let mut r = a..=b;
                            if spent.is_some() {
                                r.by_ref().for_each(drop);
                            }
                            d[r].to_string()
                        }
                        (_, Included(b)) => d[..=b].to_string(),
                        _ => unreachable!(),
                    }
                });
            }
            24 => {
                let r = Self::bounds(op, &old);
                note(|| tag(format!("index_mut {:?}", r)), &[18, s64, x as u64, y as u64]);
                let n = get_range(&old, r).map(|_| {
                    let mut n = old.clone();
                    let s = r.start_bound();
                    let a = if let Bound::Included(a) = s { *a } else { 0 };
                    let l = get_range(&old, r).unwrap().len();
                    n[a..a + l].make_ascii_uppercase();
                    n
                });
                self.un(op, si, n, Some(()), Fk::Panics, |d| {
                    use Bound::*;
                    let s: &mut str = match r {
                        (Included(a), Excluded(b)) => &mut d[a..b],
                        (Unbounded, Excluded(b)) => &mut d[..b],
                        (Included(a), Unbounded) => &mut d[a..],
                        (Unbounded, Unbounded) => &mut d[..],
                        (Included(a), Included(b)) => &mut d[a..=b],
                        (_, Included(b)) => &mut d[..=b],
                        _ => unreachable!(),
                    };
                    s.make_ascii_uppercase()
                });
            }
            25 => {
                // consuming operations
                let t = text(x, y);
                note(|| tag(format!("self + {:?}", t)), &[19, s64, x as u64 % 203, y as u64]);
                let Slot { d, m, promise, mk, .. } = std::mem::replace(&mut self.slots[si], Slot { d: LStr::new(), m: String::new(), promise: 0, free: true, mk: Some(0) });
                let ref0 = a().refused;
                self.arm(op);
                let r = catch(|| d + &t[..]);
                let (refused, _) = self.disarm(ref0);
                match r {
                    Ok(d) => {
                        self.slots[si] = Slot { d, m: m + &t, promise: 0, free: false, mk };
                        let _ = promise;
                        self.check(si, "after +");
                        self.edits += 1;
                    }
                    Err(e) => {
                        if !refused {
                            fail!(K::Panic, "+ panicked: {}", e);
                        }
                    }
                }
            }
            26 => {
                // formatting out of the string
                let k = x % 6;
                note(|| tag(format!("format {}", k)), &[20, s64, k as u64]);
                let want = match k {
                    0 => format!("{}", old),
                    1 => format!("{:?}", old),
                    2 => format!("{:>12}|", old),
                    3 => format!("{:-<9.3}|", old),
                    4 => format!("{:#?}", old),
                    _ => format!("{:^7}", old),
                };
                self.un(op, si, Some(old.clone()), Some(want), Fk::Panics, |d| match k {
                    0 => format!("{}", d),
                    1 => format!("{:?}", d),
                    2 => format!("{:>12}|", d),
                    3 => format!("{:-<9.3}|", d),
                    4 => format!("{:#?}", d),
                    _ => format!("{:^7}", d),
                });
            }
            _ => self.construct(op),
        }
    }

    fn reserve(&mut self, op: &Op, si: usize) {
        let old = self.slots[si].m.clone();
        let len = old.len();
        let cap0 = self.slots[si].d.capacity();
        let (x, y) = (op[2], op[3]);
        let n = match x % 16 {
            15 => [usize::MAX, usize::MAX - len, isize::MAX as usize, isize::MAX as usize - len + 1, LIMIT + 1, usize::MAX / 2 + 1][y as usize % 6],
            14 => (cap0 - len).min(300),
            13 => (cap0 - len).min(300) + 1,
            8..=12 if self.big => y as usize % (9000 * self.scale),
            _ => y as usize % 24,
        };
        let rk = x >> 8 & 3;
        note(|| format!("{}({}) on #{} {}", ["reserve", "reserve_exact", "try_reserve", "try_reserve_exact"][rk as usize], n, si, q(&old)), &[21, si as u64, n as u64, rk as u64]);
        let need = len.checked_add(n);
        let possible = need.map_or(false, |w| w <= cap0 || w <= LIMIT);
        let f = move |d: &mut LStr| match rk {
            0 => Ok(d.reserve(n)),
            1 => Ok(d.reserve_exact(n)),
            2 => d.try_reserve(n).map_err(|_| ()),
            _ => d.try_reserve_exact(n).map_err(|_| ()),
        };
        if !possible {
            label("huge");
            let d = &mut self.slots[si].d;
            let r = catch(|| f(d));
            if let Ok(Ok(())) = r {
                fail!(K::Cap, "a reservation of {} bytes was accepted (capacity now {})", n, self.slots[si].d.capacity());
                fail!(K::Fault, "a reservation of {} bytes was accepted", n);
            }
            if self.slots[si].d.capacity() != cap0 || self.slots[si].d.as_bytes() != old.as_bytes() {
                fail!(K::Cap, "a refused reservation changed the string or its capacity");
            }
            self.check(si, "after a refused reservation");
            self.slots[si].free = false;
            return;
        }
        let need = need.unwrap();
        if n > 0 {
            self.slots[si].free = false;
        }
        let fk = if rk >= 2 { Fk::Try } else { Fk::Panics };
        let req0 = a().requests;
        let r = self.un(op, si, Some(old), Some(Ok(())), fk, f);
        let c = self.slots[si].d.capacity();
        if let Some(Ok(())) = r {
            if c < need {
                fail!(K::Cap, "capacity {} after reserving {} more bytes at length {}", c, n, len);
            }
            if need <= cap0 && a().requests > req0 {
                fail!(K::Cap, "reserving {} more bytes within capacity {} made an allocator request", n, cap0);
            }
            let p = &mut self.slots[si].promise;
            *p = (*p).max(need);
        } else if c != cap0 {
            fail!(K::Cap, "a refused reservation changed the capacity from {} to {}", cap0, c);
        }
    }

    fn construct(&mut self, op: &Op) {
        let (x, y) = (op[2], op[3]);
        let kind = op[1] / 3 % 18;
        let n = match x % 12 {
            11 => [usize::MAX, isize::MAX as usize + 1, LIMIT + 1][y as usize % 3],
            k => k as usize * 2,
        };
        let t = text(x, y);
        let cs: Vec<char> = t.chars().collect();
        let h = x >> 12;
        let m = marker(y);
        let (req0, ref0) = (a().requests, a().refused);
        macro_rules! go {
            ($name:expr, $want:expr, $fall:expr, $promise:expr, $free:expr, $f:expr) => {{
                let want: Option<String> = $want;
                note(|| format!("{} -> {:?}", $name, want.as_deref().map(q)), &[30 + kind as u64, x as u64, y as u64]);
                self.new_mk = match kind {
                    3 | 4 | 6 => Some(y % 4),
                    0..=2 | 5 | 7 | 8 | 13..=16 => Some(0),
                    _ => None,
                };
                self.sel0 = (a().sels.len(), a().served.len());
                self.arm(op);
                let r = catch(|| $f);
                let reqs = a().requests - req0;
                self.add(r, want, ref0, $fall, $promise, $free, reqs)
            }};
        }
        let big = n > LIMIT;
        let cap_want = if big { None } else { Some(String::new()) };
        match kind {
            0 => go!("new", Some(String::new()), false, 0, true, Some(LStr::new())),
            1 => go!("default", Some(String::new()), false, 0, true, Some(LStr::default())),
            2 => go!(format!("with_capacity({})", n), cap_want, false, n, n == 0, Some(LStr::with_capacity(n))),
            3 => go!("with_marker", Some(String::new()), false, 0, true, Some(LStr::with_marker(m))),
            4 => go!(format!("with_capacity_and_marker({})", n), cap_want, false, n, n == 0, Some(LStr::with_capacity_and_marker(n, m))),
            5 => go!(format!("try_with_capacity({})", n), cap_want, true, n, n == 0, LStr::try_with_capacity(n).ok()),
            6 => go!(format!("try_with_capacity_and_marker({})", n), cap_want, true, n, n == 0, LStr::try_with_capacity_and_marker(n, m).ok()),
            7 => {
                let c = ch(y);
                go!(format!("from char {:?}", c), Some(c.to_string()), false, 0, false, Some(LStr::from(c)))
            }
            8 => go!(format!("from &str {:?}", t), Some(t.clone()), false, 0, false, Some(if y % 2 == 0 { LStr::from(&t[..]) } else { t.parse::<LStr>().unwrap() })),
            9 => {
                let src = self.slot(op[1]);
                let w = self.slots[src].m.clone();
                let s = &self.slots[src].d as *const LStr;
                go!(format!("from &String {:?}", self.slots[src].m), Some(w), false, 0, false, Some(LStr::from(unsafe { &*s })))
            }
            10 | 11 | 12 => {
                let b = bytes(x, y);
                let want = std::str::from_utf8(&b);
                let mut v = LVec::<u8>::with_capacity(b.len());
                v.extend_from_slice(&b);
                if want.is_err() {
                    label("malformed");
                }
                let req0 = a().requests;
                note(|| format!("from_utf8({:x?}) -> {:?}", b, want), &[40, x as u64, y as u64]);
                self.sel0 = (a().sels.len(), a().served.len());
                self.arm(op);
                let r = catch(|| match LStr::from_utf8(v) {
                    Ok(s) => Some(s),
                    Err(e) => {
                        if want != Err(e) {
                            fail!(K::Ret, "from_utf8({:x?}) reports {:?} where {:?} expected", b, e, want);
                        }
                        None
                    }
                });
                if a().requests > req0 {
                    fail!(K::Move, "from_utf8 made an allocator request");
                }
                let w = want.ok().map(|s| s.to_string());
                self.add(r, w, ref0, false, 0, false, 0)
            }
            13 | 14 => {
                let u = units(x, y);
                let want = String::from_utf16(&u).ok();
                if want.is_none() {
                    label("malformed");
                }
                go!(format!("from_utf16({:x?})", u), want, false, 0, false, LStr::from_utf16(&u).ok())
            }
            15 => {
                let mut v = LVec::<u8>::new();
                v.extend_from_slice(t.as_bytes());
                go!(format!("from_utf8_unchecked({:?})", t), Some(t.clone()), false, 0, false, Some(unsafe { LStr::from_utf8_unchecked(v) }))
            }
            16 => {
                if y % 2 == 0 {
                    go!(format!("collect chars {:?}", t), Some(t.clone()), false, 0, false, Some(Hinted::new(cs.iter().copied(), cs.len(), h).collect::<LStr>()))
                } else {
                    go!(format!("collect &chars {:?}", t), Some(t.clone()), false, 0, false, Some(Hinted::new(cs.iter(), cs.len(), h).collect::<LStr>()))
                }
            }
            _ => {
                let mut r = Rng::new(y as u64 + 3);
                let pieces: Vec<String> = (0..x % 5).map(|_| text(r.next() as u32 % 6, r.next() as u32)).collect();
                let want = Some(pieces.concat());
                if y % 2 == 0 {
                    go!(format!("collect &str {:?}", pieces), want, false, 0, false, Some(Hinted::new(pieces.iter().map(|s| &s[..]), pieces.len(), h).collect::<LStr>()))
                } else {
                    let ls: Vec<LStr> = pieces.iter().map(|p| LStr::from(&p[..])).collect();
                    go!(format!("collect String {:?}", pieces), want, false, 0, false, Some(Hinted::new(ls.into_iter(), pieces.len(), h).collect::<LStr>()))
                }
            }
        }
    }
}

/// Bytes that are valid UTF-8, nearly so, or arbitrary.
pub fn bytes(x: u32, y: u32) -> Vec<u8> {
    let mut r = Rng::new((x as u64) << 32 | y as u64);
    let mut b = text(x, y).into_bytes();
    const BAD: &[&[u8]] = &[
        &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xe0, 0xa0], &[0xed, 0xa0, 0x80],
        &[0xed, 0xbf, 0xbf], &[0xef, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf0, 0x90], &[0xf4, 0x90, 0x80, 0x80],
        &[0xf4, 0x8f, 0xbf], &[0xf5, 0x80, 0x80, 0x80], &[0xfe], &[0xff], &[0xf8, 0x88, 0x80, 0x80, 0x80],
    ];
    match r.below(8) {
        0..=2 => {}
        3 => {
            let i = r.below(b.len() as u64 + 1) as usize;
            b.truncate(i);
        }
        4 | 5 => {
            let i = r.below(b.len() as u64 + 1) as usize;
            let bad = BAD[r.below(BAD.len() as u64) as usize];
            b.splice(i..i, bad.iter().copied());
        }
        6 => {
            if !b.is_empty() {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        _ => b = (0..r.below(8)).map(|_| r.next() as u8).collect(),
    }
    b
}
pub fn units(x: u32, y: u32) -> Vec<u16> {
    let mut r = Rng::new((y as u64) << 32 | x as u64);
    let mut u: Vec<u16> = text(x, y).encode_utf16().collect();
    match r.below(6) {
        0..=2 => {}
        3 => {
            let i = r.below(u.len() as u64 + 1) as usize;
            u.truncate(i);
        }
        4 => {
            let i = r.below(u.len() as u64 + 1) as usize;
            u.insert(i, [0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd834][r.below(5) as usize]);
        }
        _ => {
            for _ in 0..1 + r.below(2) {
                u.push([0xd83d, 0xde00, 0xdbff, 0xdfff, 0x41][r.below(5) as usize]);
            }
        }
    }
    u
}

pub fn run(c: &Case) {
    let mut s = In::new();
    s.big = c.cfg[3] & 1 == 1;
    if c.cfg[3] & 2 == 2 {
        s.scale = 16;
        label("histories_with_texts_of_tens_of_thousands_of_bytes");
    }
    if s.big {
        label("histories_with_texts_of_thousands_of_bytes");
    }
    note(|| "String".into(), &[7]);
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        s.step(op);
        if g().failed() {
            break;
        }
    }
    g().nontrivial = s.edits >= 3 && s.wide >= 1;
    g().op_no = c.ops.len();
    note(|| "end: drop everything".into(), &[]);
    let slots = std::mem::take(&mut s.slots);
    if g().failed() {
        std::mem::forget(slots);
        a().leak_ok = true;
        return;
    }
    if let Err(m) = catch(|| drop(slots)) {
        fail!(K::Panic, "dropping panicked: {}", m);
    }
}
