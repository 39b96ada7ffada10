//! Histories over boxes and directly created scope pointers.
use crate::audit::*;
use crate::core::*;
use crate::elem::*;
use crate::fail;
use lokky::boxed::Box as LBox;
use lokky::scope::{AllocMarker, AllocSelector};
use lokky::ScopePtr;
use std::alloc::{GlobalAlloc, Layout};
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::hash::{Hash, Hasher};
use std::ptr::NonNull;

const S: usize = 5;

enum P<T: 'static> {
    B(LBox<T>),
    R(ScopePtr<T>),
    BB(LBox<LBox<T>>),
    Arr(ScopePtr<[T]>),
    Dyn(ScopePtr<dyn Hold<T>>),
}
/// Any element behind a trait object.
trait Hold<T> {
    fn held(&self) -> &T;
    fn held_mut(&mut self) -> &mut T;
}
impl<T: Elem> Hold<T> for T {
    fn held(&self) -> &T {
        self
    }
    fn held_mut(&mut self) -> &mut T {
        self
    }
}
/// What `ScopePtr::alloc` does, by hand.
fn by_hand<T: 'static>(t: T, sel: AllocSelector) -> Option<(NonNull<T>, &'static dyn GlobalAlloc)> {
    let al: &'static dyn GlobalAlloc = unsafe { std::mem::transmute(lokky::scope::current(&()).alloc_for(sel)) };
    let l = Layout::new::<T>();
    let p = if l.size() == 0 { NonNull::<T>::dangling().as_ptr() } else { unsafe { al.alloc(l) as *mut T } };
    let p = NonNull::new(p)?;
    unsafe { p.as_ptr().write(t) };
    Some((p, al))
}
impl<T: Elem> P<T> {
    fn first(&self) -> Option<&T> {
        match self {
            P::B(b) => Some(b),
            P::R(b) => Some(b),
            P::BB(b) => Some(&***b),
            P::Arr(a) => a.first(),
            P::Dyn(d) => Some(d.held()),
        }
    }
    fn all(&self) -> Vec<u32> {
        match self {
            P::Arr(a) => a.iter().map(|e| e.val()).collect(),
            p => p.first().iter().map(|e| e.val()).collect(),
        }
    }
    fn ids(&self) -> Vec<u64> {
        match self {
            P::Arr(a) => a.iter().map(|e| e.id()).collect(),
            p => p.first().iter().map(|e| e.id()).collect(),
        }
    }
}
struct Slot<T: 'static> {
    p: P<T>,
    vals: Vec<u32>,
    ids: Vec<u64>,
    mk: Option<&'static str>,
}

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

macro_rules! typed {
    ($($f:ident $t:ident $k:literal),*) => {
        $(fn $f(&mut self, v: $t) {
            self.0 = (self.0.rotate_left(5) ^ v as u64 ^ $k).wrapping_mul(0x517cc1b727220a95);
        })*
    };
}

/// A hasher whose state depends on every byte, on where calls begin, and on the types of the integers it is given.
#[derive(Clone, Default)]
pub struct Fnv(u64, u32);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ self.1 as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.1 = self.1.wrapping_mul(31).wrapping_add(b.len() as u32);
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    typed! { write_u8 u8 1, write_u16 u16 2, write_u32 u32 3, write_u64 u64 4, write_u128 u128 5, write_usize usize 6 }
    typed! { write_i8 i8 7, write_i16 i16 8, write_i32 i32 9, write_i64 i64 10, write_i128 i128 11, write_isize isize 12 }
}

/// Gives one number to any hasher, as each of the types of integers.
fn typed(h: &mut impl Hasher, kind: u8, n: u64) {
    match kind % 12 {
        0 => h.write_u8(n as u8),
        1 => h.write_u16(n as u16),
        2 => h.write_u32(n as u32),
        3 => h.write_u64(n),
        4 => h.write_u128((n as u128) << 40),
        5 => h.write_usize(n as usize),
        6 => h.write_i8(n as i8),
        7 => h.write_i16(n as i16),
        8 => h.write_i32(n as i32),
        9 => h.write_i64(n as i64),
        10 => h.write_i128(-(n as i128)),
        _ => h.write_isize(n as isize),
    }
}

struct Run<T: 'static> {
    s: Vec<Option<Slot<T>>>,
    stop: bool,
}

fn sel_check<T>(from: usize, mk: Option<&'static str>, what: &str) {
    for s in &a().sels[from.min(a().sels.len())..] {
        if s.ty != std::any::type_name::<T>() || s.marker != mk || s.scope != 0 {
            fail!(K::Select, "{}: request with selector ({}, {:?}) to scope {}, expected ({}, {:?})", what, s.ty, s.marker, s.scope, std::any::type_name::<T>(), mk);
        }
    }
}

impl<T: Elem> Run<T> {
    fn full(&self, x: u32) -> Option<usize> {
        let v: Vec<usize> = (0..S).filter(|&i| self.s[i].is_some()).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[x as usize % v.len()])
        }
    }
    fn call<R>(&mut self, f: u32, alloc: bool, op: impl FnOnce() -> R) -> Option<R> {
        let r0 = a().refused;
        if f > 0 {
            match g().fault {
                FaultMode::Alloc => a().fail_at = 1 + f as u64 % 2,
                FaultMode::Panic => g().cb_arm = 1 + f as u64 % 4,
                _ => {}
            }
        }
        let r = catch(op);
        a().fail_at = 0;
        g().cb_arm = 0;
        let refused = a().refused > r0;
        let fired = std::mem::replace(&mut g().cb_fired, false);
        if refused {
            label("refused");
        }
        if fired {
            label("callback_panic");
            g().leaked_ok = true;
        }
        match r {
            Ok(v) => {
                if fired {
                    fail!(K::Swallow, "a caller's panic did not come out");
                }
                Some(v)
            }
            Err(m) => {
                if fired {
                    if m != "injected" {
                        fail!(K::Swallow, "another panic came out: {}", m);
                    }
                } else if !(refused && alloc) {
                    fail!(K::Panic, "panicked: {}", m);
                }
                None
            }
        }
    }
    fn gone(&self, ids: &[u64], what: &str) {
        for &id in ids {
            if id != 0 && Tok::is_live(id) {
                fail!(K::Leak, "{}: value #{} was not dropped", what, id);
                fail!(K::Life, "{}: value #{} was not dropped", what, id);
            }
        }
    }
    fn kept(&self, ids: &[u64], what: &str) {
        for &id in ids {
            if id != 0 && !Tok::is_live(id) {
                fail!(K::Life, "{}: value #{} was dropped", what, id);
            }
        }
    }
    fn set(&mut self, i: usize, p: P<T>, vals: Vec<u32>, ids: Vec<u64>, mk: Option<&'static str>) {
        self.s[i] = Some(Slot { p, vals, ids, mk });
    }
    fn check(&mut self) {
        let mut blocks = 0;
        for (i, s) in self.s.iter().enumerate() {
            let Some(s) = s else { continue };
            let z = std::mem::size_of::<T>() == 0;
            blocks += match &s.p {
                P::BB(_) => 1 + !z as usize,
                P::Arr(a) => (!z && a.len() > 0) as usize,
                _ => !z as usize,
            };
            let dead = s.ids.iter().any(|&id| id != 0 && !Tok::is_live(id));
            if dead {
                fail!(K::Life, "box {}: its value was dropped while the box lives", i);
                self.stop = true;
                return;
            }
            let v = s.p.all();
            if v != s.vals || s.p.ids() != s.ids {
                fail!(K::Content, "box {} holds {:?} {:?}, expected {:?} {:?}", i, v, s.p.ids(), s.vals, s.ids);
            }
            if let P::R(r) = &s.p {
                let one = unsafe { r.slice_ref(1) };
                if one.len() != 1 || !std::ptr::eq(&one[0], &**r) {
                    fail!(K::Content, "pointer {} seen as an array of one shows something else", i);
                }
            }
            let mk = match &s.p {
                P::R(r) => Some((r.marker(), r.alloc_selector(), AllocSelector::with_marker::<T>(r.marker()))),
                P::Arr(r) => Some((r.marker(), r.alloc_selector(), AllocSelector::with_marker::<[T]>(r.marker()))),
                P::Dyn(r) => Some((r.marker(), r.alloc_selector(), AllocSelector::with_marker::<dyn Hold<T>>(r.marker()))),
                _ => None,
            };
            if let Some((m, sel, want)) = mk {
                if marker_name(m) != s.mk {
                    fail!(K::Select, "pointer {} reports marker {:?}, created with {:?}", i, marker_name(m), s.mk);
                }
                if sel != want || sel.ty() != want.ty() {
                    fail!(K::Select, "pointer {} reports selector {:?}, expected {:?}", i, sel, want);
                }
            }
        }
        let b = a().live_blocks();
        if g().leaked_ok {
            return;
        }
        if b > blocks {
            fail!(K::BlockLeak, "{} blocks are held, expected {}", b, blocks);
        }
        if b < blocks {
            fail!(K::Block, "only {} blocks are held, expected {}", b, blocks);
        }
    }
    fn op(&mut self, o: &Op) {
        let [k, x, y, z, f] = *o;
        let j = y as usize % S;
        let v = T::norm(z % 64);
        let k = k % 16;
        match k {
            0 | 1 | 2 | 3 => {
                if self.s[j].is_some() {
                    return;
                }
                let mk = if k == 0 { AllocMarker::None } else { marker(x) };
                note(|| format!("b{} = kind {}.{} of {} marker {:?} fault {}", j, k, z >> 16 & 3, v, marker_name(mk), f), &[k as u64, j as u64, v as u64, x as u64 % 4 + 4 * (z as u64 >> 16 & 3)]);
                label("boxed");
                let t = T::mk(v);
                let id = t.id();
                let s0 = a().sels.len();
                let r0 = a().refused;
                let r = self.call(f, true, || match k {
                    0 => Some(P::B(LBox::new(t))),
                    1 => Some(P::B(LBox::new_with(t, mk))),
                    2 => {
                        let sel = AllocSelector::with_marker::<T>(mk);
                        match z >> 16 & 3 {
                            0 => by_hand(t, sel).map(|(p, al)| P::R(unsafe { ScopePtr::new(p, al, mk) })),
                            1 => by_hand(t, sel).map(|(p, al)| P::Dyn(unsafe { ScopePtr::new(NonNull::new_unchecked(p.as_ptr() as *mut dyn Hold<T>), al, mk) })),
                            _ => ScopePtr::alloc(t, sel).ok().map(P::R),
                        }
                    }
                    _ => {
                        let inner = LBox::new_with(t, mk);
                        Some(P::BB(LBox::new_with(inner, mk)))
                    }
                });
                if k != 3 {
                    sel_check::<T>(s0, marker_name(mk), "creating a box");
                }
                match r {
                    Some(Some(p)) => {
                        if a().refused > r0 {
                            fail!(K::Fault, "succeeded although the allocation was refused");
                        }
                        self.set(j, p, vec![v], vec![id], marker_name(mk))
                    }
                    _ => {
                        self.gone(&[id], "after a refused allocation");
                        if a().refused == r0 && g().fault == FaultMode::None {
                            fail!(K::Ret, "refused although memory was there");
                        }
                        if k == 2 && r.is_none() && a().refused > r0 {
                            fail!(K::Fault, "ScopePtr::alloc panicked on a refused allocation");
                        }
                    }
                }
            }
            4 | 5 => {
                let Some(i) = self.full(x) else { return };
                let s = self.s[i].take().unwrap();
                note(|| format!("take the value out of b{}", i), &[4, i as u64]);
                label("taken_out");
                let b0 = a().live_blocks();
                let zst = std::mem::size_of::<T>() == 0;
                let mut freed = !zst as usize;
                let ids = s.ids.clone();
                let r: Vec<T> = match s.p {
                    P::B(b) => vec![b.into_inner()],
                    P::R(b) => match z % 3 {
                        0 => {
                            let c = unsafe { b.clone() };
                            b.forget();
                            vec![c.into_inner()]
                        }
                        1 => {
                            // through an array of one
                            let mut c = unsafe { b.cast_to_slice(1) };
                            unsafe {
                                let v = std::ptr::read(&c[0]);
                                c.dealloc();
                                c.forget();
                                vec![v]
                            }
                        }
                        _ => vec![b.into_inner()],
                    },
                    P::Dyn(mut b) => unsafe {
                        if z % 2 == 0 {
                            let v = std::ptr::read(b.held());
                            b.dealloc();
                            b.forget();
                            vec![v]
                        } else {
                            vec![b.cast::<T>().into_inner()]
                        }
                    },
                    P::BB(b) => {
                        freed += 1;
                        vec![b.into_inner().into_inner()]
                    }
                    P::Arr(mut b) => {
                        // by hand: read all the elements, release the block, forget the pointer
                        freed = (!zst && b.len() > 0) as usize;
                        unsafe {
                            let v = b.iter().map(|e| std::ptr::read(e)).collect();
                            b.dealloc();
                            b.forget();
                            v
                        }
                    }
                };
                self.kept(&ids, "taken out of its box");
                let got: Vec<u32> = r.iter().map(|e| e.val()).collect();
                if got != s.vals {
                    fail!(K::Content, "took out {:?}, expected {:?}", got, s.vals);
                }
                if a().live_blocks() + freed != b0 && !g().leaked_ok {
                    fail!(K::BlockLeak, "taking the value out left {} blocks of {}", a().live_blocks(), b0);
                }
                self.call(0, false, || drop(r));
                self.gone(&ids, "dropped after being taken out");
            }
            6 | 7 => {
                let Some(i) = self.full(x) else { return };
                let s = self.s[i].take().unwrap();
                note(|| format!("drop b{}", i), &[6, i as u64]);
                label("dropped");
                let p = s.p;
                self.call(f, false, || drop(p));
                if g().fault != FaultMode::Panic {
                    self.gone(&s.ids, "after dropping its box");
                }
            }
            8 | 9 => {
                let Some(i) = self.full(x) else { return };
                let s = self.s[i].as_mut().unwrap();
                if s.vals.is_empty() {
                    return;
                }
                let how = z / 64 % 5;
                note(|| format!("write {} into b{} (way {})", v, i, how), &[8, i as u64, how as u64, v as u64]);
                label("written");
                let whole = z / 512 % 3 == 0;
                let r: &mut T = match &mut s.p {
                    P::B(b) => match how {
                        0 => &mut **b,
                        1 => b.as_mut(),
                        2 => BorrowMut::<T>::borrow_mut(b),
                        _ => &mut *b,
                    },
                    P::R(b) => match how {
                        0 => unsafe { &mut b.slice_mut(1)[0] },
                        _ => &mut **b,
                    },
                    P::Dyn(b) => b.held_mut(),
                    P::BB(b) => match how {
                        0 => b.as_mut().as_mut(),
                        _ => &mut ***b,
                    },
                    P::Arr(b) => &mut b[0],
                };
                let old = s.ids[0];
                if whole {
                    *r = T::mk(v);
                    s.ids[0] = r.id();
                } else {
                    r.set(v);
                }
                s.vals[0] = v;
                if whole {
                    self.gone(&[old], "after being overwritten in its box");
                }
            }
            10 => {
                let (Some(i), Some(k2)) = (self.full(x), self.full(y)) else { return };
                if i == k2 {
                    return;
                }
                note(|| format!("swap b{} b{}", i, k2), &[10, i as u64, k2 as u64]);
                let (lo, hi) = (i.min(k2), i.max(k2));
                let (l, r) = self.s.split_at_mut(hi);
                let (p, q) = (l[lo].as_mut().unwrap(), r[0].as_mut().unwrap());
                match (&mut p.p, &mut q.p) {
                    (P::B(b), P::B(c)) => std::mem::swap(&mut **b, &mut **c),
                    (P::R(b), P::R(c)) => std::mem::swap(&mut **b, &mut **c),
                    (P::B(b), P::R(c)) | (P::R(c), P::B(b)) => std::mem::swap(&mut **b, &mut **c),
                    _ => return,
                }
                std::mem::swap(&mut p.vals, &mut q.vals);
                std::mem::swap(&mut p.ids, &mut q.ids);
                label("swapped");
            }
            11 => self.compare(),
            12 => self.iter(o),
            13 => {
                // hashers behind a box
                note(|| format!("hasher {}", z), &[13, z as u64]);
                let mut plain = Fnv::default();
                let mut boxed = LBox::new(Fnv::default());
                let mut sip = DefaultHasher::new();
                let mut bsip = LBox::new(DefaultHasher::new());
                let mut r = Rng::new(z as u64);
                for _ in 0..1 + r.below(6) {
                    let n = r.below(12) as usize;
                    let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
                    plain.write(&b);
                    boxed.write(&b);
                    sip.write(&b);
                    bsip.write(&b);
                    if z % 2 == 0 {
                        let (k, n) = (r.next() as u8, r.next());
                        typed(&mut plain, k, n);
                        typed(&mut boxed, k, n);
                        typed(&mut sip, k, n);
                        typed(&mut bsip, k, n);
                    }
                    if z % 3 == 0 {
                        let v = (n as u8, -5i32, r.next() as u16 as u8 as char, &b[..], "text", Some(r.next()));
                        v.hash(&mut plain);
                        v.hash(&mut boxed);
                        v.hash(&mut sip);
                        v.hash(&mut bsip);
                    }
                    if plain.finish() != boxed.finish() || sip.finish() != bsip.finish() {
                        fail!(K::Cmp, "a boxed hasher gives {:x}/{:x} where {:x}/{:x} expected", boxed.finish(), bsip.finish(), plain.finish(), sip.finish());
                    }
                }
                label("hashed");
                // a text in a block of its own, seen as text and as bytes
                let t: String = (0..r.below(9)).map(|_| char::from_u32(0x61 + r.below(0x700) as u32).unwrap_or('x')).collect();
                let mk = marker(x);
                let sel = AllocSelector::with_marker::<str>(mk);
                let al: &'static dyn GlobalAlloc = unsafe { std::mem::transmute(lokky::scope::current(&()).alloc_for(sel)) };
                let b0 = a().live_blocks();
                let l = Layout::for_value(&t[..]);
                let mem = if t.is_empty() { NonNull::dangling().as_ptr() } else { unsafe { al.alloc(l) } };
                if !mem.is_null() {
                    let p: ScopePtr<str> = unsafe {
                        std::ptr::copy_nonoverlapping(t.as_ptr(), mem, t.len());
                        let s = std::str::from_utf8_unchecked_mut(std::slice::from_raw_parts_mut(mem, t.len()));
                        ScopePtr::new(NonNull::from(s), al, mk)
                    };
                    label("text_pointer");
                    let same = &*p == &t[..] && p.marker() == mk && p.alloc_selector() == sel;
                    let ok = if z % 2 == 0 {
                        let q = p.cast_str_to_bytes();
                        let ok = &*q == t.as_bytes() && q.marker() == mk && q.alloc_selector() == AllocSelector::with_marker::<[u8]>(mk);
                        if z % 4 == 0 {
                            let mut q = q;
                            unsafe { q.dealloc() };
                            q.forget();
                        } else {
                            drop(q);
                        }
                        ok
                    } else {
                        drop(p);
                        true
                    };
                    if !same || !ok {
                        fail!(K::Content, "a pointer to the text {:?} shows something else", t);
                    }
                    if a().live_blocks() != b0 && !g().leaked_ok {
                        fail!(K::BlockLeak, "a pointer to a text of {} bytes left {} blocks of {}", t.len(), a().live_blocks(), b0);
                    }
                }
            }
            15 if self.s[j].is_some() => {
                // resize an array in place, by hand
                let s = self.s[j].as_mut().unwrap();
                let P::Arr(_) = &s.p else { return };
                let Slot { p: P::Arr(p), mut vals, mut ids, mk } = self.s[j].take().unwrap() else { unreachable!() };
                let mut p = Some(p);
                let (n, old) = ((z % 9) as usize, vals.len());
                let huge = z % 64 == 63;
                let want = if huge { usize::MAX / (1 + x as usize % 17) } else { n };
                if huge && std::mem::size_of::<T>() == 0 {
                    self.s[j] = Some(Slot { p: P::Arr(p.unwrap()), vals, ids, mk });
                    return;
                }
                note(|| format!("resize array b{} from {} to {} fault {}", j, old, want, f), &[15, j as u64, want as u64]);
                label("array_resized");
                let mut keep: Vec<T> = vec![];
                for i in (if huge { old } else { n.min(old) })..old {
                    keep.push(unsafe { std::ptr::read(&p.as_ref().unwrap()[i]) });
                }
                let r0 = a().refused;
                let q = p.as_mut().unwrap();
                let r = self.call(f, false, || unsafe { q.realloc_array(want) });
                let refused = a().refused > r0;
                match r {
                    Some(Ok(())) => {
                        if huge {
                            fail!(K::Cap, "an array was resized to {} elements", want);
                            p.take().unwrap().forget();
                            self.stop = true;
                            return;
                        }
                        if refused {
                            fail!(K::Fault, "a resize succeeded although the request was refused");
                        }
                        let mut b = p.take().unwrap();
                        if b.len() != n {
                            fail!(K::Ret, "array of {} where {} asked for", b.len(), n);
                            b.forget();
                            self.stop = true;
                            return;
                        }
                        drop(keep);
                        vals.truncate(n);
                        ids.truncate(n);
                        for i in old..n {
                            let t = T::mk(T::norm(v.wrapping_add(i as u32)));
                            vals.push(t.val());
                            ids.push(t.id());
                            unsafe { std::ptr::write(&mut b[i], t) };
                        }
                        self.set(j, P::Arr(b), vals, ids, mk);
                    }
                    r => {
                        if r.is_none() {
                            fail!(K::Fault, "a fallible resize panicked");
                        } else if !refused && !huge {
                            fail!(K::Ret, "a resize to {} was refused", want);
                        }
                        // nothing changed: put the elements back
                        let mut b = p.take().unwrap();
                        if b.len() != old {
                            fail!(K::Fault, "a refused resize changed the length from {} to {}", old, b.len());
                            b.forget();
                            self.stop = true;
                            return;
                        }
                        let at = old - keep.len();
                        for (i, t) in keep.into_iter().enumerate() {
                            unsafe { std::ptr::write(&mut b[at + i], t) };
                        }
                        self.set(j, P::Arr(b), vals, ids, mk);
                    }
                }
            }
            _ => {
                // arrays
                if self.s[j].is_some() {
                    return;
                }
                let n = (z % 9) as usize;
                let mk = marker(x);
                note(|| format!("b{} = array of {} fault {}", j, n, f), &[14, j as u64, n as u64, x as u64 % 4]);
                let s0 = a().sels.len();
                let huge = z % 64 == 63;
                let want = if huge { usize::MAX / (1 + y as usize % 17) } else { n };
                let r0 = a().refused;
                let r = self.call(f, false, || ScopePtr::<[std::mem::MaybeUninit<T>]>::alloc_array_uninit(want, AllocSelector::with_marker::<T>(mk)));
                sel_check::<T>(s0, marker_name(mk), "creating an array");
                let Some(r) = r else { return };
                match r {
                    Err(_) if a().refused > r0 || (huge && std::mem::size_of::<T>() > 0) => {}
                    Err(e) => fail!(K::Ret, "an array of {} was refused: {:?}", want, e),
                    Ok(p) if huge => {
                        if std::mem::size_of::<T>() > 0 {
                            fail!(K::Cap, "an array of {} elements was granted", want);
                        }
                        drop(p);
                    }
                    Ok(mut p) => {
                        if a().refused > r0 {
                            fail!(K::Fault, "succeeded although the allocation was refused");
                        }
                        if p.len() != n {
                            fail!(K::Ret, "array of {} where {} asked for", p.len(), n);
                            return;
                        }
                        let vals: Vec<u32> = (0..n as u32).map(|i| T::norm(v.wrapping_add(i))).collect();
                        let mut ids = vec![];
                        for (e, &v) in p.iter_mut().zip(&vals) {
                            ids.push(e.write(T::mk(v)).id());
                        }
                        // the elements are there now: same memory as an array of T
                        let p: ScopePtr<[T]> = unsafe { p.cast::<T>().cast_to_slice(n) };
                        label("array");
                        self.set(j, P::Arr(p), vals, ids, marker_name(mk));
                    }
                }
            }
        }
    }

    fn compare(&mut self) {
        note(|| "compare".into(), &[11]);
        let bs: Vec<&LBox<T>> = self.s.iter().flatten().filter_map(|s| if let P::B(b) = &s.p { Some(b) } else { None }).collect();
        for a in &bs {
            for b in &bs {
                let (x, y): (&T, &T) = (a, b);
                if (a == b) != (x == y) || (a != b) != (x != y) || a.cmp(b) != x.cmp(y) || a.partial_cmp(b) != x.partial_cmp(y) {
                    fail!(K::Cmp, "boxes of {:?} and {:?} compare differently from their values", x, y);
                }
                if (a < b) != (x < y) || (a <= b) != (x <= y) || (a > b) != (x > y) || (a >= b) != (x >= y) {
                    fail!(K::Cmp, "an operator on boxes of {:?} and {:?} differs from the values'", x, y);
                }
            }
            let x: &T = a;
            if h(*a) != h(x) {
                fail!(K::Cmp, "a box hashes differently from its value {:?}", x);
            }
            if format!("{:?}|{:#?}|{:>9?}", a, a, a) != format!("{:?}|{:#?}|{:>9?}", x, x, x) {
                fail!(K::Cmp, "a box prints differently from its value {:?}", x);
            }
            if !std::ptr::eq(Borrow::<T>::borrow(*a), x) || !std::ptr::eq(AsRef::<T>::as_ref(*a), x) {
                fail!(K::Ret, "borrow or as_ref of a box is not its value");
            }
        }
        if bs.len() > 1 {
            label("compared");
        }
        // values with a partial order, and display
        let fs = [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -2.25];
        let n = a().requests as usize;
        let (x, y) = (fs[n % 7], fs[n / 7 % 7]);
        let (p, q) = (LBox::new(x), LBox::new(y));
        if (p == q) != (x == y) || p.partial_cmp(&q) != x.partial_cmp(&y) || (p < q) != (x < y) || (p >= q) != (x >= y) {
            fail!(K::Cmp, "boxes of {} and {} compare differently from their values", x, y);
        }
        if format!("{}|{:8.2}|{:+}", p, p, p) != format!("{}|{:8.2}|{:+}", x, x, x) {
            fail!(K::Cmp, "a box of {} displays as {}", x, p);
        }
    }

    fn iter(&mut self, o: &Op) {
        let mut r = Rng::new(o[3] as u64);
        let n = r.below(9) as u32;
        note(|| format!("boxed iterator of {}, seed {}", n, o[3]), &[12, o[3] as u64]);
        let mut m: VecDeque<u32> = (0..n).map(T::norm).collect();
        let src: Vec<T> = (0..n).map(|v| T::mk(T::norm(v))).collect();
        let kind = o[1] % 2;
        enum I<T: 'static> {
            A(LBox<std::vec::IntoIter<T>>),
            B(LBox<lokky::vec::IntoIter<T>>),
        }
        let mut it = if kind == 0 {
            I::A(LBox::new(src.into_iter()))
        } else {
            let mut v = lokky::vec::Vec::new();
            v.extend_from_iter(src.into_iter());
            I::B(LBox::new(v.into_iter()))
        };
        macro_rules! both {
            ($b:ident, $e:expr) => {
                match &mut it {
                    I::A($b) => $e,
                    I::B($b) => $e,
                }
            };
        }
        for _ in 0..r.below(10) {
            let k = r.below(3) as usize;
            let (got, want): (Option<u32>, Option<u32>) = match r.below(4) {
                0 => (both!(b, b.next()).map(|e| e.val()), m.pop_front()),
                1 => (both!(b, b.next_back()).map(|e| e.val()), m.pop_back()),
                2 => {
                    let w = if k < m.len() { m.drain(..k).count() } else { m.drain(..).count() };
                    let _ = w;
                    (both!(b, b.nth(k)).map(|e| e.val()), m.pop_front())
                }
                _ => {
                    let l = m.len().saturating_sub(k);
                    m.truncate(l);
                    (both!(b, b.nth_back(k)).map(|e| e.val()), m.pop_back())
                }
            };
            if got != want {
                fail!(K::Iter, "a boxed iterator gives {:?}, expected {:?}", got, want);
                fail!(K::Content, "a boxed iterator gives {:?}, expected {:?}", got, want);
            }
            let (l, hint) = (both!(b, b.len()), both!(b, b.size_hint()));
            if l != m.len() || hint != (m.len(), Some(m.len())) {
                fail!(K::Ret, "a boxed iterator says {} {:?}, {} are left", l, hint, m.len());
            }
        }
        label("iterated");
        let rest: Vec<u32> = match it {
            I::A(b) => b.map(|e| e.val()).collect(),
            I::B(b) => b.map(|e| e.val()).collect(),
        };
        if rest != Vec::from(m.clone()) {
            fail!(K::Content, "a boxed iterator ends with {:?}, expected {:?}", rest, m);
        }
        self.resuming(o);
    }

    /// An iterator may give values again after `None`; boxed, it must still answer as it does bare.
    fn resuming(&mut self, o: &Op) {
        let mut r = Rng::new(o[3] as u64 ^ 0x5e5);
        let items: VecDeque<Option<u32>> = (0..r.below(14)).map(|i| (r.below(3) > 0).then_some(i as u32)).collect();
        let hint = r.below(6) as u32;
        let mut bare = Resuming(items.clone(), hint);
        let mut boxed: LBox<Resuming> = LBox::new(Resuming(items, hint));
        if hint != 0 {
            label("loose_hints");
        }
        for _ in 0..1 + r.below(8) {
            let k = r.below(5) as usize;
            let by_ref = r.below(2) == 0;
            let b: &mut LBox<Resuming> = &mut boxed;
            let (name, got, want) = match r.below(8) {
                0 => ("next", b.next(), bare.next()),
                1 => ("next_back", b.next_back(), bare.next_back()),
                2 | 3 => ("nth", b.nth(k), bare.nth(k)),
                4 | 5 => ("nth_back", b.nth_back(k), bare.nth_back(k)),
                6 if by_ref => ("by_ref().take", b.by_ref().take(k).last(), bare.by_ref().take(k).last()),
                6 => ("by_ref().rev().take", b.by_ref().rev().take(k).last(), bare.by_ref().rev().take(k).last()),
                _ if by_ref => ("find", b.find(|x| *x as usize % 5 == k), bare.find(|x| *x as usize % 5 == k)),
                _ => ("rfind", b.rfind(|x| *x as usize % 5 == k), bare.rfind(|x| *x as usize % 5 == k)),
            };
            if got != want {
                fail!(K::Iter, "a boxed iterator's {}({}) gives {:?}, the bare one {:?}", name, k, got, want);
                fail!(K::Content, "a boxed iterator's {}({}) gives {:?}, the bare one {:?}", name, k, got, want);
            }
            let (a, b) = (boxed.size_hint(), bare.size_hint());
            if a != b || (hint == 0 && boxed.len() != bare.len()) {
                fail!(K::Ret, "a boxed iterator says {:?}, the bare one {:?}", a, b);
            }
        }
        let rest = |i: &mut dyn Iterator<Item = u32>| (0..20).map(|_| i.next()).collect::<Vec<_>>();
        let (got, want) = (rest(&mut boxed), rest(&mut bare));
        if got != want {
            fail!(K::Iter, "a boxed iterator goes on with {:?}, the bare one with {:?}", got, want);
            fail!(K::Content, "a boxed iterator goes on with {:?}, the bare one with {:?}", got, want);
        }
    }

    fn run(c: &Case) {
        let mut h = Run::<T> { s: (0..S).map(|_| None).collect(), stop: false };
        note(|| format!("boxes of {}", T::NAME), &[T::NAME.len() as u64 * 31 + std::mem::size_of::<T>() as u64]);
        for (n, o) in c.ops.iter().enumerate() {
            g().op_no = n;
            if let Err(m) = catch(|| {
                h.op(o);
                if !h.stop {
                    h.check()
                }
            }) {
                fail!(K::Panic, "panicked: {}", m);
                break;
            }
            if h.stop || g().failed() {
                break;
            }
        }
        let l = |x| g().labels.get(x).copied().unwrap_or(0);
        g().nontrivial = l("boxed") + l("array") >= 2 && l("taken_out") + l("dropped") >= 1 && l("written") + l("swapped") + l("iterated") + l("compared") >= 1;
        if g().failed() {
            std::mem::forget(h);
            return;
        }
        drop(h);
        crate::finish_elems();
    }
}

/// Answers with what it holds in turn, gaps included; its length is the number of answers left.
/// What it announces is exact or one of the looser bounds that are as true.
struct Resuming(VecDeque<Option<u32>>, u32);
impl Iterator for Resuming {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.0.pop_front().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (given, n) = (self.0.iter().take_while(|x| x.is_some()).count(), self.0.len());
        match self.1 {
            0 => (n, Some(n)),
            1 => (given, None),
            2 => (0, None),
            3 => (given, Some(n)),
            4 => (given / 2, Some(usize::MAX)),
            _ => (0, Some(n + 7)),
        }
    }
}
impl DoubleEndedIterator for Resuming {
    fn next_back(&mut self) -> Option<u32> {
        self.0.pop_back().flatten()
    }
}
impl ExactSizeIterator for Resuming {}

pub fn run(c: &Case) {
    match c.cfg[1] % 8 {
        6 => Run::<Odd>::run(c),
        7 => Run::<Za>::run(c),
        0 | 1 => Run::<Tok>::run(c),
        2 => Run::<Al>::run(c),
        3 => Run::<Big>::run(c),
        4 => Run::<u8>::run(c),
        _ => Run::<Zst>::run(c),
    }
}
