//! Histories of operations on lokky's Vec and SmallVec against std's Vec as the model.
use crate::audit::*;
use crate::core::*;
use crate::elem::*;
use crate::fail;
use lokky::boxed::Box as LBox;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec as LVec;
use std::any::Any;
use std::marker::PhantomData;
use std::ops::Bound;

pub trait It {
    fn next(&mut self) -> Option<u32>;
    fn next_back(&mut self) -> Option<u32>;
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn rest(&mut self) -> Vec<u32>;
    fn rest_mut(&mut self, _reverse: bool) -> Option<Vec<u32>> {
        None
    }
    fn nth(&mut self, k: usize) -> Option<u32>;
    fn nth_back(&mut self, k: usize) -> Option<u32>;
    /// Consume the iterator in one of the ways iterators can be.
    fn finish(&mut self, kind: u32) -> Vec<u32>;
}

struct Dr<I>(Option<I>);
impl<I> Dr<I> {
    fn it(&self) -> &I {
        self.0.as_ref().unwrap()
    }
    fn it_mut(&mut self) -> &mut I {
        self.0.as_mut().unwrap()
    }
}
pub const FINISHES: u32 = 12;
/// What `finish` gives for the values.
pub fn finished(kind: u32, v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    match kind % FINISHES {
        0 => v,
        1 | 3 => {
            v.reverse();
            v
        }
        2 => v.last().copied().into_iter().collect(),
        4 => vec![v.len() as u32],
        5 => v.into_iter().step_by(2).collect(),
        6 => v.into_iter().skip(1).collect(),
        7 => v.into_iter().take(2).collect(),
        8 => vec![v.iter().position(|x| x % 3 == 0).map_or(99, |x| x as u32)],
        9 => v.chunks(2).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect(),
        10 => v.iter().max().copied().into_iter().collect(),
        _ => vec![v.iter().rposition(|x| x % 3 == 0).map_or(99, |x| x as u32)],
    }
}
macro_rules! it_common {
    () => {
        fn next(&mut self) -> Option<u32> {
            Iterator::next(self.it_mut()).map(|e| e.val())
        }
        fn next_back(&mut self) -> Option<u32> {
            DoubleEndedIterator::next_back(self.it_mut()).map(|e| e.val())
        }
        fn len(&self) -> usize {
            ExactSizeIterator::len(self.it())
        }
        fn hint(&self) -> (usize, Option<usize>) {
            self.it().size_hint()
        }
        fn nth(&mut self, k: usize) -> Option<u32> {
            self.it_mut().nth(k).map(|e| e.val())
        }
        fn nth_back(&mut self, k: usize) -> Option<u32> {
            self.it_mut().nth_back(k).map(|e| e.val())
        }
        fn finish(&mut self, kind: u32) -> Vec<u32> {
            let mut it = self.0.take().unwrap();
            let mut out = vec![];
            match kind % FINISHES {
                0 => it.fold((), |_, e| out.push(e.val())),
                1 => it.rfold((), |_, e| out.push(e.val())),
                2 => out.extend(it.last().map(|e| e.val())),
                3 => it.rev().for_each(|e| out.push(e.val())),
                4 => out.push(it.count() as u32),
                5 => out.extend(it.step_by(2).map(|e| e.val())),
                6 => out.extend(it.skip(1).map(|e| e.val())),
                7 => out.extend(it.take(2).map(|e| e.val())),
                8 => out.push(it.position(|e| e.val() % 3 == 0).map_or(99, |x| x as u32)),
                9 => {
                    let mut p = it.map(|e| e.val()).peekable();
                    while let Some(x) = p.next() {
                        out.extend(p.next());
                        out.push(x);
                    }
                }
                10 => out.extend(it.map(|e| e.val()).max()),
                _ => out.push(it.rposition(|e| e.val() % 3 == 0).map_or(99, |x| x as u32)),
            }
            out
        }
    };
}
impl<T: Elem> It for Dr<lokky::vec::Drain<'_, T>> {
    it_common!();
    fn rest(&mut self) -> Vec<u32> {
        self.it().as_slice().iter().map(|e| e.val()).collect()
    }
}
impl<T: Elem, const N: usize> It for Dr<lokky::small_vec::Drain<'_, T, N>> {
    it_common!();
    fn rest(&mut self) -> Vec<u32> {
        self.it().as_slice().iter().map(|e| e.val()).collect()
    }
}
impl<T: Elem> It for Dr<lokky::vec::IntoIter<T>> {
    it_common!();
    fn rest(&mut self) -> Vec<u32> {
        let a: Vec<u32> = self.it().as_slice().iter().map(|e| e.val()).collect();
        let b: Vec<u32> = AsRef::<[T]>::as_ref(self.it()).iter().map(|e| e.val()).collect();
        if a != b {
            fail!(K::Iter, "as_slice {:?} and as_ref {:?} of an IntoIter differ", a, b);
        }
        a
    }
    fn rest_mut(&mut self, reverse: bool) -> Option<Vec<u32>> {
        let s = self.it_mut().as_slice_mut();
        let v = s.iter().map(|e| e.val()).collect();
        if reverse {
            s.reverse();
        }
        Some(v)
    }
}

/// Iterator over fresh elements with a chosen (honest) size hint; each step is a callback that may panic.
pub struct Feed<T> {
    v: std::vec::IntoIter<u32>,
    hint: u32,
    _p: PhantomData<T>,
}
impl<T: Elem> Feed<T> {
    fn new(v: &[u32], hint: u32) -> Self {
        Feed { v: v.to_vec().into_iter(), hint, _p: PhantomData }
    }
}
impl<T: Elem> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick();
        self.v.next().map(T::mk)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.hint % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            _ => (n.saturating_sub(1), Some(n + 3)),
        }
    }
}

type D = Box<dyn Sut>;

pub trait Sut {
    fn any(&mut self) -> &mut dyn Any;
    fn vals(&self) -> Vec<u32>;
    fn ids(&self) -> Vec<u64>;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn empty(&self) -> bool;
    fn full(&self) -> bool;
    fn spare(&self) -> usize;
    fn ptr(&self) -> usize;
    fn heap(&self) -> Option<bool>;
    fn push(&mut self, v: u32);
    fn pop(&mut self) -> Option<u32>;
    fn insert(&mut self, i: usize, v: u32);
    fn remove(&mut self, i: usize) -> u32;
    fn swap_remove(&mut self, i: usize) -> u32;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn resize(&mut self, n: usize, v: u32);
    fn resize_with(&mut self, n: usize, v: u32);
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn dedup(&mut self);
    fn dedup_by_key(&mut self, f: &mut dyn FnMut(u32) -> u32);
    fn dedup_by(&mut self, f: &mut dyn FnMut(u32, u32) -> (bool, Option<u32>));
    fn append(&mut self, o: &mut dyn Sut);
    fn extend_slice(&mut self, v: &[u32]);
    fn extend_iter(&mut self, v: &[u32], hint: u32);
    fn split_off(&mut self, at: usize) -> D;
    fn split_off_into(&mut self, at: usize, w: u32) -> D;
    fn drain(&mut self, r: (Bound<usize>, Bound<usize>), f: &mut dyn FnMut(&mut dyn It) -> bool);
    fn into_iter(self: Box<Self>, f: &mut dyn FnMut(&mut dyn It) -> bool) -> Option<D>;
    fn reserve(&mut self, n: usize, kind: u32) -> Result<(), ()>;
    fn shrink_to_fit(&mut self);
    fn shrink_to(&mut self, n: usize);
    fn clone_box(&self, how: u32) -> D;
    fn index(&self, i: usize) -> u32;
    fn index_set(&mut self, i: usize, v: u32);
    fn slice_op(&mut self, k: u32, a: usize, b: usize);
    fn boxed(self: Box<Self>, f: &mut dyn FnMut(Vec<u32>) -> bool) -> Option<D>;
    fn spare_fill(&mut self, v: &[u32]) -> usize;
    fn leak(self: Box<Self>) -> Result<Vec<u32>, D>;
    fn dealloc_no_drop(self: Box<Self>) -> Option<D>;
    fn to_heap(&mut self);
    fn to_heap_reserve(&mut self, n: usize) -> Result<(), ()>;
    fn to_stack(&mut self) -> Result<(), ()>;
    fn into_vec(self: Box<Self>) -> D;
    fn into_small(self: Box<Self>, w: u32) -> D;
    fn marker(&mut self) -> Option<lokky::scope::AllocMarker>;
}

trait Raw<T> {
    fn raw(&mut self) -> *mut T;
}
impl<T: 'static> Raw<T> for LVec<T> {
    fn raw(&mut self) -> *mut T {
        LVec::as_mut(self)
    }
}
impl<T: 'static, const N: usize> Raw<T> for SmallVec<T, N> {
    fn raw(&mut self) -> *mut T {
        SmallVec::as_mut_ptr(self)
    }
}
macro_rules! common {
    ($c:ty) => {
        fn any(&mut self) -> &mut dyn Any {
            self
        }
        fn vals(&self) -> Vec<u32> {
            let s = self.as_slice();
            let (d, r, b): (&[T], &[T], &[T]) = (self, self.as_ref(), std::borrow::Borrow::borrow(self));
            for (n, o) in [("Deref", d), ("AsRef", r), ("Borrow", b)] {
                if o.len() != s.len() || (s.len() > 0 && o.as_ptr() != s.as_ptr()) {
                    fail!(K::Content, "{} shows {} elements in other places than as_slice, which shows {}", n, o.len(), s.len());
                }
            }
            if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                fail!(K::Content, "elements of alignment {} at {:#x}", std::mem::align_of::<T>(), s.as_ptr() as usize);
                fail!(K::DeadRead, "elements of alignment {} at {:#x}", std::mem::align_of::<T>(), s.as_ptr() as usize);
            }
            s.iter().map(|e| e.val()).collect()
        }
        fn ids(&self) -> Vec<u64> {
            self.as_slice().iter().map(|e| e.id()).collect()
        }
        fn len(&self) -> usize {
            <$c>::len(self)
        }
        fn cap(&self) -> usize {
            <$c>::capacity(self)
        }
        fn empty(&self) -> bool {
            <$c>::is_empty(self)
        }
        fn full(&self) -> bool {
            <$c>::is_full(self)
        }
        fn spare(&self) -> usize {
            <$c>::spare_len(self)
        }
        fn ptr(&self) -> usize {
            <$c>::as_ptr(self) as usize
        }
        fn push(&mut self, v: u32) {
            <$c>::push(self, T::mk(v))
        }
        fn pop(&mut self) -> Option<u32> {
            <$c>::pop(self).map(|e| e.val())
        }
        fn insert(&mut self, i: usize, v: u32) {
            <$c>::insert(self, i, T::mk(v))
        }
        fn remove(&mut self, i: usize) -> u32 {
            <$c>::remove(self, i).val()
        }
        fn swap_remove(&mut self, i: usize) -> u32 {
            <$c>::swap_remove(self, i).val()
        }
        fn truncate(&mut self, n: usize) {
            <$c>::truncate(self, n)
        }
        fn clear(&mut self) {
            <$c>::clear(self)
        }
        fn resize(&mut self, n: usize, v: u32) {
            <$c>::resize(self, n, T::mk(v))
        }
        fn resize_with(&mut self, n: usize, v: u32) {
            let mut k = v;
            <$c>::resize_with(self, n, || {
                tick();
                k = k.wrapping_add(1);
                T::mk(k)
            })
        }
        fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool) {
            <$c>::retain(self, |e| f(e.val()))
        }
        fn dedup(&mut self) {
            <$c>::dedup(self)
        }
        fn dedup_by_key(&mut self, f: &mut dyn FnMut(u32) -> u32) {
            <$c>::dedup_by_key(self, |e| f(e.val()))
        }
        fn dedup_by(&mut self, f: &mut dyn FnMut(u32, u32) -> (bool, Option<u32>)) {
            <$c>::dedup_by(self, |a, b| {
                let (r, w) = f(a.val(), b.val());
                if let Some(w) = w {
                    b.set(w);
                }
                r
            })
        }
        fn append(&mut self, o: &mut dyn Sut) {
            let o = o.any().downcast_mut::<$c>().unwrap();
            <$c>::append(self, o)
        }
        fn extend_slice(&mut self, v: &[u32]) {
            let s: Vec<T> = v.iter().map(|&x| T::mk(x)).collect();
            <$c>::extend_from_slice(self, &s)
        }
        fn split_off(&mut self, at: usize) -> D {
            Box::new(<$c>::split_off(self, at))
        }
        fn drain(&mut self, r: (Bound<usize>, Bound<usize>), f: &mut dyn FnMut(&mut dyn It) -> bool) {
            let mut d = Dr(Some(<$c>::drain(self, r)));
            if f(&mut d) {
                std::mem::forget(d)
            }
        }
        fn reserve(&mut self, n: usize, kind: u32) -> Result<(), ()> {
            match kind {
                0 => Ok(<$c>::reserve(self, n)),
                1 => Ok(<$c>::reserve_exact(self, n)),
                2 => <$c>::try_reserve(self, n).map_err(|_| ()),
                _ => <$c>::try_reserve_exact(self, n).map_err(|_| ()),
            }
        }
        fn shrink_to_fit(&mut self) {
            <$c>::shrink_to_fit(self)
        }
        fn shrink_to(&mut self, n: usize) {
            <$c>::shrink_to(self, n)
        }
        fn clone_box(&self, how: u32) -> D {
            let mut t = match how % 6 {
                0 => <$c>::new(),
                1 | 2 => {
                    // an older copy, shorter or longer by now
                    let mut t = <$c as Clone>::clone(self);
                    if how % 6 == 1 {
                        t.truncate(self.len() / 2);
                    } else if t.len() < t.capacity() && t.len() > 0 {
                        let e = t[0].clone();
                        t.push(e);
                    }
                    t
                }
                _ => return Box::new(<$c as Clone>::clone(self)),
            };
            t.clone_from(self);
            Box::new(t)
        }
        fn index(&self, i: usize) -> u32 {
            self[i].val()
        }
        fn index_set(&mut self, i: usize, v: u32) {
            match v % 4 {
                0 if i < <$c>::len(self) => {
                    let p = self.raw();
                    drop(unsafe { std::mem::replace(&mut *p.add(i), T::mk(v)) });
                }
                1 => {
                    let s: &mut [T] = AsMut::<[T]>::as_mut(self);
                    s[i] = T::mk(v)
                }
                _ => self[i] = T::mk(v),
            }
        }
        fn slice_op(&mut self, k: u32, a: usize, b: usize) {
            let s: &mut [T] = match k % 4 {
                0 => self.as_mut_slice(),
                1 => &mut **self,
                2 => AsMut::<[T]>::as_mut(self),
                _ => std::borrow::BorrowMut::<[T]>::borrow_mut(self),
            };
            match (k / 4) % 4 {
                0 => s.reverse(),
                1 => s.sort(),
                2 => s.swap(a, b),
                _ => s.rotate_left(a),
            }
        }
        fn boxed(self: Box<Self>, f: &mut dyn FnMut(Vec<u32>) -> bool) -> Option<D> {
            let b: LBox<[T]> = <$c>::into_boxed_slice(*self);
            if f(b.iter().map(|e| e.val()).collect()) {
                None
            } else {
                Some(Box::new(<$c>::from(b)))
            }
        }
    };
}

impl<T: Elem> Sut for LVec<T> {
    common!(LVec<T>);
    fn heap(&self) -> Option<bool> {
        None
    }
    fn extend_iter(&mut self, v: &[u32], hint: u32) {
        self.extend_from_iter(Feed::<T>::new(v, hint))
    }
    fn split_off_into(&mut self, at: usize, _w: u32) -> D {
        Box::new(LVec::split_off(self, at))
    }
    fn into_iter(self: Box<Self>, f: &mut dyn FnMut(&mut dyn It) -> bool) -> Option<D> {
        let mut d = Dr(Some(IntoIterator::into_iter(*self)));
        if f(&mut d) {
            // collect the rest into a new vector
            let v: LVec<T> = d.0.unwrap().collect();
            return Some(Box::new(v));
        }
        None
    }
    fn spare_fill(&mut self, v: &[u32]) -> usize {
        let n = v.len().min(self.spare_len());
        let room = self.capacity() - LVec::len(self);
        let after = unsafe { self.as_ptr().add(LVec::len(self)) } as usize;
        let s = LVec::spare_capacity(self);
        if s.len() != room || (room > 0 && s.as_ptr() as usize != after) {
            fail!(K::Cap, "spare_capacity() shows {} places at +{} where {} are free", s.len(), s.as_ptr() as isize - after as isize, room);
        }
        let s = self.spare_capacity_mut();
        if s.len() != room || (room > 0 && s.as_ptr() as usize != after) {
            fail!(K::Cap, "spare_capacity_mut() shows {} places at +{} where {} are free", s.len(), s.as_ptr() as isize - after as isize, room);
        }
        for i in 0..n {
            s[i].write(T::mk(v[i]));
        }
        unsafe { self.set_len(LVec::len(self) + n) };
        n
    }
    fn leak(self: Box<Self>) -> Result<Vec<u32>, D> {
        let s: &'static mut [T] = LVec::leak(*self);
        let r = s.iter().map(|e| e.val()).collect();
        // The elements stay valid for ever; take them back by hand so that the ledger balances.
        for e in s.iter_mut() {
            drop(unsafe { std::ptr::read(e) });
        }
        a().leak_ok = true;
        Ok(r)
    }
    fn dealloc_no_drop(self: Box<Self>) -> Option<D> {
        let taken: Vec<T> = self.as_slice().iter().map(|e| unsafe { std::ptr::read(e) }).collect();
        LVec::dealloc_without_drop(*self);
        drop(taken);
        None
    }
    fn to_heap(&mut self) {}
    fn to_heap_reserve(&mut self, _n: usize) -> Result<(), ()> {
        Ok(())
    }
    fn to_stack(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn into_vec(self: Box<Self>) -> D {
        self
    }
    fn into_small(self: Box<Self>, _w: u32) -> D {
        self
    }
    fn marker(&mut self) -> Option<lokky::scope::AllocMarker> {
        Some(LVec::marker(self))
    }
}

impl<T: Elem, const N: usize> Sut for SmallVec<T, N> {
    common!(SmallVec<T, N>);
    fn heap(&self) -> Option<bool> {
        if self.is_heap() == self.is_stack() {
            fail!(K::Ret, "is_heap and is_stack agree");
        }
        Some(self.is_heap())
    }
    fn extend_iter(&mut self, v: &[u32], hint: u32) {
        self.extend(Feed::<T>::new(v, hint))
    }
    fn split_off_into(&mut self, at: usize, w: u32) -> D {
        // The part that is split off may have any other inline capacity; move it on through a Vec.
        macro_rules! via {
            ($n:expr) => {{
                let s = self.split_off_into::<$n>(at);
                disarm_all();
                s.into_vec()
            }};
        }
        let v: LVec<T> = match w % 5 {
            0 => via!(0),
            1 => via!(2),
            2 => via!(5),
            3 => via!(16),
            _ => return Box::new(self.split_off_into::<N>(at)),
        };
        Box::new(SmallVec::<T, N>::from(v))
    }
    fn into_iter(self: Box<Self>, f: &mut dyn FnMut(&mut dyn It) -> bool) -> Option<D> {
        let mut d = Dr(Some(IntoIterator::into_iter(SmallVec::into_vec(*self))));
        if f(&mut d) {
            let v: SmallVec<T, N> = d.0.unwrap().collect();
            return Some(Box::new(v));
        }
        None
    }
    fn spare_fill(&mut self, v: &[u32]) -> usize {
        let room = self.capacity() - SmallVec::len(self);
        let after = unsafe { self.as_ptr().add(SmallVec::len(self)) } as usize;
        let s = SmallVec::spare_capacity(self);
        if s.len() != room || (room > 0 && s.as_ptr() as usize != after) {
            fail!(K::Cap, "spare_capacity() shows {} places at +{} where {} are free", s.len(), s.as_ptr() as isize - after as isize, room);
        }
        let s = self.spare_capacity_mut();
        if s.len() != room || (room > 0 && s.as_ptr() as usize != after) {
            fail!(K::Cap, "spare_capacity_mut() shows {} places at +{} where {} are free", s.len(), s.as_ptr() as isize - after as isize, room);
        }
        // What is written there stays invisible (there is no way to claim it).
        for (i, x) in s.iter_mut().zip(v) {
            unsafe { i.write(T::mk(*x)).val() };
            drop(unsafe { i.assume_init_read() });
        }
        0
    }
    fn leak(self: Box<Self>) -> Result<Vec<u32>, D> {
        Err(self)
    }
    fn dealloc_no_drop(self: Box<Self>) -> Option<D> {
        Some(self)
    }
    fn to_heap(&mut self) {
        self.move_to_heap()
    }
    fn to_heap_reserve(&mut self, n: usize) -> Result<(), ()> {
        self.try_move_to_heap_and_reserve_exact(n).map_err(|_| ())
    }
    fn to_stack(&mut self) -> Result<(), ()> {
        self.try_move_to_stack().map_err(|_| ())
    }
    fn into_vec(self: Box<Self>) -> D {
        Box::new(SmallVec::<T, N>::from(SmallVec::into_vec(*self)))
    }
    fn into_small(self: Box<Self>, w: u32) -> D {
        // Round trip through another container type.
        let v = SmallVec::into_vec(*self);
        let b: LBox<[T]> = if w % 2 == 0 {
            v.into_boxed_slice()
        } else {
            SmallVec::<T, 3>::from(v).into_boxed_slice()
        };
        Box::new(SmallVec::<T, N>::from(b))
    }
    fn marker(&mut self) -> Option<lokky::scope::AllocMarker> {
        None
    }
}

pub fn mark_no(m: Option<&str>) -> u32 {
    alloc_ix(0, m) % 4
}

/// The operation under test is over; what follows in the same closure is the harness's own doing.
fn disarm_all() {
    a().fail_at = 0;
    g().cb_arm = 0;
}

// ---- constructors ---------------------------------------------------------------------------------------

pub struct Made {
    pub d: D,
    pub vals: Vec<u32>,
    pub promise: usize,
    /// created without capacity / asking for no more than fits inline
    pub plain: bool,
}

pub trait Fac {
    fn name(&self) -> String;
    fn ty(&self) -> &'static str;
    fn zst(&self) -> bool;
    fn inline(&self) -> Option<usize>;
    fn size(&self) -> usize;
    fn tracked(&self) -> bool;
    fn norm(&self, v: u32) -> u32;
    /// None: refused
    fn make(&self, kind: u32, n: usize, mk: u32, vals: &[u32]) -> Option<D>;
}

fn arr<T: Elem, const L: usize>(v: &[u32]) -> [T; L] {
    std::array::from_fn(|i| T::mk(v[i]))
}

/// Lengths of the arrays with more than 9 elements.
const LONG: usize = 40;
const LONGER: usize = 300;
/// On its own, so that the long arrays do not take part in the stack frame of every construction.
#[inline(never)]
fn far<C: From<[T; L]>, T: Elem, const L: usize>(v: &[u32]) -> C {
    C::from(arr::<T, L>(v))
}

macro_rules! by_len {
    ($c:ty, $v:expr) => {
        match $v.len() {
            0 => <$c>::from(arr::<T, 0>($v)),
            1 => <$c>::from(arr::<T, 1>($v)),
            2 => <$c>::from(arr::<T, 2>($v)),
            3 => <$c>::from(arr::<T, 3>($v)),
            4 => <$c>::from(arr::<T, 4>($v)),
            5 => <$c>::from(arr::<T, 5>($v)),
            6 => <$c>::from(arr::<T, 6>($v)),
            7 => <$c>::from(arr::<T, 7>($v)),
            8 => <$c>::from(arr::<T, 8>($v)),
            9 => <$c>::from(arr::<T, 9>($v)),
            LONG => far::<$c, T, LONG>($v),
            LONGER => far::<$c, T, LONGER>($v),
            n => unreachable!("array of {}", n),
        }
    };
}

macro_rules! make_body {
    ($c:ty, $kind:expr, $n:expr, $mk:expr, $vals:expr) => {{
        let d: $c = match $kind {
            0 => <$c>::new(),
            1 => <$c>::default(),
            2 => <$c>::with_capacity($n),
            3 => <$c>::with_marker(marker($mk)),
            4 => <$c>::with_capacity_and_marker($n, marker($mk)),
            5 => match <$c>::try_with_capacity($n) {
                Ok(v) => v,
                Err(_) => return None,
            },
            6 => match <$c>::try_with_capacity_and_marker($n, marker($mk)) {
                Ok(v) => v,
                Err(_) => return None,
            },
            7 => {
                let s: Vec<T> = $vals.iter().map(|&x| T::mk(x)).collect();
                <$c>::from(&s[..])
            }
            8 => {
                let mut s: Vec<T> = $vals.iter().map(|&x| T::mk(x)).collect();
                <$c>::from(&mut s[..])
            }
            9 => by_len!($c, $vals),
            10 => Feed::<T>::new($vals, $mk).collect(),
            _ => {
                let v: LVec<T> = by_len!(LVec<T>, $vals);
                <$c>::from(v.into_boxed_slice())
            }
        };
        Some(Box::new(d))
    }};
}

pub struct FV<T>(PhantomData<T>);
impl<T: Elem> Fac for FV<T> {
    fn name(&self) -> String {
        format!("Vec<{}>", T::NAME)
    }
    fn ty(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn zst(&self) -> bool {
        T::ZST
    }
    fn inline(&self) -> Option<usize> {
        None
    }
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
    fn tracked(&self) -> bool {
        T::TRACKED && !T::ZST
    }
    fn norm(&self, v: u32) -> u32 {
        T::norm(v)
    }
    fn make(&self, kind: u32, n: usize, mk: u32, vals: &[u32]) -> Option<D> {
        make_body!(LVec<T>, kind, n, mk, vals)
    }
}
pub struct FS<T, const N: usize>(PhantomData<T>);
impl<T: Elem, const N: usize> Fac for FS<T, N> {
    fn name(&self) -> String {
        format!("SmallVec<{},{}>", T::NAME, N)
    }
    fn ty(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn zst(&self) -> bool {
        T::ZST
    }
    fn inline(&self) -> Option<usize> {
        Some(N)
    }
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
    fn tracked(&self) -> bool {
        T::TRACKED && !T::ZST
    }
    fn norm(&self, v: u32) -> u32 {
        T::norm(v)
    }
    fn make(&self, kind: u32, n: usize, mk: u32, vals: &[u32]) -> Option<D> {
        make_body!(SmallVec<T, N>, kind, n, mk, vals)
    }
}

pub fn vec_fac(i: u32) -> Box<dyn Fac> {
    match i % 14 {
        12 => Box::new(FV::<Odd>(PhantomData)),
        13 => Box::new(FV::<Za>(PhantomData)),
        0..=4 => Box::new(FV::<Tok>(PhantomData)),
        5 | 6 => Box::new(FV::<u8>(PhantomData)),
        7 => Box::new(FV::<u32>(PhantomData)),
        8 | 9 => Box::new(FV::<Zst>(PhantomData)),
        10 => Box::new(FV::<Big>(PhantomData)),
        _ => Box::new(FV::<Al>(PhantomData)),
    }
}
pub fn small_fac(i: u32) -> Box<dyn Fac> {
    match i % 23 {
        20 => Box::new(FS::<Tok, 50>(PhantomData)),
        21 => Box::new(FS::<u8, 300>(PhantomData)),
        22 => Box::new(FS::<Tok, 200>(PhantomData)),
        16 => Box::new(FS::<Odd, 5>(PhantomData)),
        17 => Box::new(FS::<Za, 2>(PhantomData)),
        18 => Box::new(FS::<Zst, 0>(PhantomData)),
        19 => Box::new(FS::<Al, 0>(PhantomData)),
        0 => Box::new(FS::<Tok, 0>(PhantomData)),
        1 | 2 => Box::new(FS::<Tok, 1>(PhantomData)),
        3 => Box::new(FS::<Tok, 2>(PhantomData)),
        4 | 5 => Box::new(FS::<Tok, 3>(PhantomData)),
        6 | 7 => Box::new(FS::<Tok, 4>(PhantomData)),
        8 | 9 => Box::new(FS::<Tok, 7>(PhantomData)),
        10 => Box::new(FS::<u8, 6>(PhantomData)),
        11 => Box::new(FS::<u8, 16>(PhantomData)),
        12 => Box::new(FS::<Zst, 2>(PhantomData)),
        13 => Box::new(FS::<Big, 2>(PhantomData)),
        14 => Box::new(FS::<Al, 3>(PhantomData)),
        _ => Box::new(FS::<Tok, 12>(PhantomData)),
    }
}

// ---- the interpreter ------------------------------------------------------------------------------------

struct Slot {
    d: D,
    m: Vec<u32>,
    promise: usize,
    /// still entitled to make no allocator request (C08)
    free: bool,
    /// the marker it was created with, if that is specified (C20)
    mk: Option<u32>,
}

struct In {
    fac: Box<dyn Fac>,
    slots: Vec<Slot>,
    small: bool,
    moved: u32,
    grew: u32,
    shrunk: u32,
    reqs: u64,
    /// marker of a second container taking part in the operation under way
    mk2: Option<Option<u32>>,
    keeps_mk: bool,
    /// Let lengths and capacities reach thousands.
    big: bool,
    /// How many times more elements than that.
    scale: usize,
}

const SLOTS: usize = 3;
const MAXLEN: usize = 300;

#[derive(Clone, Copy, PartialEq)]
enum Faulty {
    No,
    /// fallible operation: must not panic on refusal
    Try,
    Panics,
}

fn show(v: &[u32]) -> String {
    if v.len() > 24 {
        format!("{:?}.. ({} long)", &v[..24], v.len())
    } else {
        format!("{:?}", v)
    }
}

impl In {
    fn slot(&self, x: u32) -> usize {
        x as usize % self.slots.len()
    }
    fn maxlen(&self) -> usize {
        if self.big {
            4000 * self.scale
        } else {
            MAXLEN
        }
    }
    fn vals(&self, op: &Op) -> Vec<u32> {
        // op[2]: how many, op[3]: which
        let n = (op[2] % 10) as usize;
        let n = if op[2] % 31 == 30 { 40 } else { n };
        let n = if self.big && op[2] % 3 == 0 { (op[2] / 3) as usize % (self.scale * 2600.min(60_000 / self.fac.size().max(1))) } else { n };
        (0..n as u32).map(|i| self.fac.norm((op[3] % 64).wrapping_add(i * (op[3] >> 6 & 3)))).collect()
    }
    /// Every request since the given marks must name the element type and carry the right marker (C20).
    fn select(&mut self, mk: Option<u32>, sel0: usize, served0: usize, what: &str) -> Option<u32> {
        let mut mk = mk;
        let mk2 = self.mk2.take();
        let al = a();
        for x in &al.sels[sel0.min(al.sels.len())..] {
            if x.ty != self.fac.ty() {
                fail!(K::Select, "{}: a request names the type {} where the elements are {}", what, x.ty, self.fac.ty());
            }
            if mk2 == Some(None) {
                continue;
            }
            let got = mark_no(x.marker);
            label("selected");
            if mk2 != Some(Some(got)) {
                match mk {
                    None => mk = Some(got),
                    Some(m) if m % 4 != got => {
                        fail!(K::Select, "{}: a request carries the marker {:?} where the container was created with {:?}", what, x.marker, marker(m));
                    }
                    _ => {}
                }
            }
        }
        if let (Some(m), true) = (mk, mk2 != Some(None)) {
            for &o in &al.served[served0.min(al.served.len())..] {
                label("served_by_marked");
                if o % 4 != m % 4 && mk2 != Some(Some(o % 4)) {
                    fail!(K::Select, "{}: memory came from the allocator of marker #{} where the container's is #{}", what, o % 4, m % 4);
                }
            }
        }
        mk
    }
    fn reported(&mut self, si: usize, what: &str) {
        if let Some(m) = self.slots[si].d.marker() {
            let got = mark_no(marker_name(m));
            match self.slots[si].mk {
                None => self.slots[si].mk = Some(got),
                Some(x) if x % 4 != got || m != marker(x) => {
                    fail!(K::Select, "{}: reports the marker {:?} where it was created with {:?}", what, m, marker(x));
                    self.slots[si].mk = Some(got);
                }
                _ => {}
            }
        }
    }
    fn hd(&mut self, si: usize, r: Faulty) {
        let _ = (si, r);
    }

    /// Compare a container with its model, and check what must hold in any state.
    fn check(&mut self, si: usize, what: &str) {
        self.reported(si, what);
        let s = &self.slots[si];
        let len = s.d.len();
        if len > 65_535 {
            label("longer_than_65535");
        }
        if len > self.maxlen() * 20 {
            fail!(K::Content, "{}: length {} where {} expected", what, len, s.m.len());
            fail!(K::DeadRead, "{}: length {} where {} expected", what, len, s.m.len());
            // Unsafe to read; give up on this container.
            std::mem::forget(std::mem::replace(&mut self.slots[si].d, self.fac.make(0, 0, 0, &[]).unwrap()));
            self.slots[si].m.clear();
            g().leaked_ok = true;
            a().leak_ok = true;
            return;
        }
        if s.d.cap() < len {
            fail!(K::Cap, "{}: capacity {} below length {}", what, s.d.cap(), len);
        }
        if s.d.spare() != s.d.cap().wrapping_sub(len) {
            fail!(K::Ret, "{}: spare_len {} of capacity {} length {}", what, s.d.spare(), s.d.cap(), len);
        }
        if s.d.empty() != (len == 0) || s.d.full() != (len == s.d.cap()) {
            fail!(K::Ret, "{}: is_empty {} is_full {} with length {}", what, s.d.empty(), s.d.full(), len);
        }
        let v = s.d.vals();
        if v != s.m {
            fail!(K::Content, "{}: contents {} where {} expected", what, show(&v), show(&s.m));
        }
        if self.fac.tracked() {
            let mut ids = s.d.ids();
            ids.sort();
            if ids.windows(2).any(|w| w[0] == w[1]) {
                fail!(K::DeadRead, "{}: one element is visible twice", what);
            }
        }
        if self.slots[si].m != v {
            self.slots[si].m = v;
        }
    }

    fn ids_disjoint(&self) {
        if self.fac.tracked() && self.slots.len() > 1 {
            let mut all: Vec<u64> = self.slots.iter().flat_map(|s| s.d.ids()).collect();
            all.sort();
            if all.windows(2).any(|w| w[0] == w[1]) {
                fail!(K::DeadRead, "one element is visible in two containers");
            }
        }
    }

    fn arm(&self, op: &Op) {
        match g().fault {
            FaultMode::Alloc => a().fail_at = op[4] as u64 % 8,
            FaultMode::Panic => g().cb_arm = op[4] as u64 % 24,
            FaultMode::None => {}
        }
    }
    /// Returns (allocation refused, callback panicked).
    fn disarm(&self, refused0: u64) -> (bool, bool) {
        a().fail_at = 0;
        g().cb_arm = 0;
        let f = g().cb_fired;
        g().cb_fired = false;
        (a().refused > refused0, f)
    }

    /// Run an operation on slot `si`. `new`: expected contents, or None if it must panic and change nothing.
    fn un<R: PartialEq + std::fmt::Debug>(
        &mut self,
        op: &Op,
        si: usize,
        new: Option<Vec<u32>>,
        ret: Option<R>,
        fk: Faulty,
        f: impl FnOnce(&mut dyn Sut) -> R,
    ) -> Option<R> {
        let old = self.slots[si].m.clone();
        let req0 = a().requests;
        let ref0 = a().refused;
        let cap0 = self.slots[si].d.cap();
        let ptr0 = self.slots[si].d.ptr();
        let free0 = self.slots[si].free;
        let promise0 = self.slots[si].promise;
        let (sel0, served0) = (a().sels.len(), a().served.len());
        self.arm(op);
        let d = &mut *self.slots[si].d;
        let r = catch(|| f(d));
        let (refused, injected) = self.disarm(ref0);
        self.slots[si].mk = self.select(self.slots[si].mk, sel0, served0, "during the operation");
        let reqs = a().requests - req0;
        self.reqs += reqs;
        if refused {
            label("refused");
        }
        if injected {
            label("callback_panic");
            g().leaked_ok = true;
        }
        let mut out = None;
        match (r, new) {
            (Ok(v), Some(new)) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                    self.resync(si);
                } else {
                    if let Some(e) = &ret {
                        if refused {
                            // A refusal may be reported or absorbed.
                            if v != *e {
                                let act = self.slots[si].d.vals();
                                if !(act == old || between(&old, &new, &act)) {
                                    fail!(K::Fault, "after a refused request: contents {} (were {})", show(&act), show(&old));
                                }
                                self.resync(si);
                                return Some(v);
                            }
                        } else if v != *e {
                            fail!(K::Ret, "returned {:?} where {:?} expected", v, e);
                        }
                    }
                    if refused {
                        let act = self.slots[si].d.vals();
                        if act != new {
                            fail!(K::Fault, "reported success after a refused request, contents {} where {} expected", show(&act), show(&new));
                        }
                    }
                    if new.len() > old.len() {
                        self.grew += 1;
                    } else if new.len() < old.len() {
                        self.shrunk += 1;
                    }
                    let len = new.len();
                    self.slots[si].m = new;
                    self.check(si, "after the operation");
                    if len <= promise0 && len > old.len() {
                        if reqs > 0 && fk != Faulty::No {
                            fail!(K::Cap, "growing to {} elements made {} allocator request(s) although room for {} was reserved", len, reqs, promise0);
                        }
                        if self.slots[si].d.ptr() != ptr0 {
                            fail!(K::Cap, "growing to {} elements moved the elements although room for {} was reserved", len, promise0);
                        }
                    }
                    let n = self.fac.inline();
                    if free0 && !self.entitled(len) {
                        self.slots[si].free = false;
                    }
                    if self.fac.zst() && reqs > 0 {
                        fail!(K::Heap, "{} allocator request(s) although {}", reqs, self.why());
                    }
                    if self.slots[si].free && len > old.len() {
                        label("heapless_growth");
                    }
                    if self.slots[si].free {
                        if reqs > 0 {
                            fail!(K::Heap, "{} allocator request(s) although {}", reqs, self.why());
                        }
                        if n.is_some() && self.slots[si].d.heap() == Some(true) {
                            fail!(K::Heap, "reports heap storage although {}", self.why());
                        }
                    }
                }
                out = Some(v);
            }
            (Ok(_), None) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                } else {
                    fail!(K::NoPanic, "did not panic");
                }
                self.resync(si);
                self.slots[si].free = false;
            }
            (Err(m), new) => {
                let act = self.safe_vals(si);
                if injected {
                    self.resync(si);
                    self.ids_disjoint();
                } else if refused {
                    if fk == Faulty::Try {
                        fail!(K::Fault, "a fallible operation panicked on a refused request: {}", m);
                    }
                    let ok = act == old || new.map_or(false, |n| between(&old, &n, &act));
                    if !ok {
                        fail!(K::Fault, "after a refused request: contents {} (were {})", show(&act), show(&old));
                    }
                    self.resync(si);
                } else if let Some(new) = new {
                    fail!(K::Panic, "panicked although it should give {}: {}", show(&new), m);
                    self.resync(si);
                } else {
                    label("rightly_panicked");
                    if act != old {
                        fail!(K::Content, "panicked rightly but changed the contents to {} (were {})", show(&act), show(&old));
                    }
                    self.resync(si);
                }
                self.slots[si].free = false;
                if self.slots[si].d.cap() < cap0 {
                    self.slots[si].promise = 0;
                }
            }
        }
        out
    }

    fn why(&self) -> String {
        if self.fac.zst() {
            "its elements are zero-sized".into()
        } else if let Some(n) = self.fac.inline() {
            format!("its elements always fitted the inline capacity {}", n)
        } else {
            "it was created without capacity and never filled".into()
        }
    }
    /// Whether `len` elements still need no heap memory.
    fn entitled(&self, len: usize) -> bool {
        match self.fac.inline() {
            Some(n) => len <= n,
            None => self.fac.zst() || len == 0,
        }
    }
    fn safe_vals(&mut self, si: usize) -> Vec<u32> {
        let s = &self.slots[si];
        if s.d.len() > self.maxlen() * 20 {
            return vec![];
        }
        s.d.vals()
    }
    fn resync(&mut self, si: usize) {
        if self.slots[si].d.len() <= self.maxlen() * 20 {
            self.slots[si].m = self.slots[si].d.vals();
        }
        self.check(si, "after a panic");
    }

    /// Replace a slot by what a consuming operation made of it.
    fn consume(&mut self, si: usize, op: &Op, new: Vec<u32>, keeps_free: bool, f: impl FnOnce(D) -> Option<D>) {
        let Slot { d, m: old, free, mk, .. } = self.slots.swap_remove(si);
        let req0 = a().requests;
        let ref0 = a().refused;
        let (sel0, served0) = (a().sels.len(), a().served.len());
        let keeps_mk = std::mem::replace(&mut self.keeps_mk, true);
        self.arm(op);
        let r = catch(|| f(d));
        let (refused, injected) = self.disarm(ref0);
        let mk = if keeps_mk { mk } else { None };
        if !keeps_mk {
            self.mk2 = Some(None);
        }
        let mk = self.select(mk, sel0, served0, "during the conversion");
        let reqs = a().requests - req0;
        self.reqs += reqs;
        if injected {
            label("callback_panic");
            g().leaked_ok = true;
        }
        if refused {
            label("refused");
        }
        match r {
            Ok(Some(d)) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                }
                let promise = 0;
                let free = free && keeps_free && self.entitled(new.len());
                if free && reqs > 0 {
                    fail!(K::Heap, "{} allocator request(s) although {}", reqs, self.why());
                }
                self.slots.push(Slot { d, m: new, promise, free, mk });
                let l = self.slots.len() - 1;
                self.check(l, "after the conversion");
                if self.small && free {
                    // conversions out of a small vector may put it on the heap
                    self.slots[l].free = false;
                }
            }
            Ok(None) => {
                if injected {
                    fail!(K::Swallow, "a panic raised by caller's code did not propagate");
                }
                if self.fac.zst() && reqs > 0 && !self.small {
                    fail!(K::Heap, "{} allocator request(s) although {}", reqs, self.why());
                }
            }
            Err(m) => {
                if !injected && !refused {
                    fail!(K::Panic, "panicked: {} (contents were {})", m, show(&old));
                }
            }
        }
        if self.slots.is_empty() {
            self.make(0, 0, 0, &[]);
        }
    }

    fn make(&mut self, kind: u32, n: usize, mk: u32, vals: &[u32]) {
        let req0 = a().requests;
        let ref0 = a().refused;
        let (sel0, served0) = (a().sels.len(), a().served.len());
        let r = catch(|| self.fac.make(kind, n, mk, vals));
        let (refused, injected) = self.disarm(ref0);
        let mk = Some(if matches!(kind, 3 | 4 | 6) { mk % 4 } else { 0 });
        self.select(mk, sel0, served0, "construction");
        let reqs = a().requests - req0;
        self.reqs += reqs;
        if injected {
            label("callback_panic");
            g().leaked_ok = true;
        }
        let has_vals = kind >= 7;
        let has_cap = matches!(kind, 2 | 4 | 5 | 6);
        let inl = self.fac.inline().unwrap_or(0);
        let huge = has_cap && !self.fac.zst() && n > inl && n.checked_mul(self.fac.size()).map_or(true, |b| b > LIMIT);
        match r {
            Ok(Some(d)) => {
                if huge && !refused {
                    fail!(K::Cap, "accepted an impossible capacity {}", n);
                }
                let m: Vec<u32> = if has_vals { vals.to_vec() } else { vec![] };
                let promise = if has_cap { n } else { 0 };
                if has_cap && d.cap() < n {
                    fail!(K::Cap, "capacity {} where {} was requested", d.cap(), n);
                }
                let mut free = match self.fac.inline() {
                    Some(i) => m.len() <= i && (!has_cap || n <= i) && kind != 11,
                    None => self.fac.zst() || (m.is_empty() && (!has_cap || n == 0)),
                };
                if self.fac.zst() && self.small && (m.len() > inl || n > inl) {
                    free = false; // ZST spilled: no requests, but on the heap
                    if reqs > 0 && kind != 11 {
                        fail!(K::Heap, "{} allocator request(s) for zero-sized elements", reqs);
                    }
                }
                if free && reqs > 0 {
                    fail!(K::Heap, "construction made {} allocator request(s) although {}", reqs, self.why());
                }
                if free && self.small && d.heap() == Some(true) {
                    fail!(K::Heap, "constructed on the heap although {}", self.why());
                }
                if let (Some(m2), None) = (None::<u32>, self.fac.inline()) {
                    let _ = m2;
                }
                let s = Slot { d, m, promise, free, mk };
                self.slots.push(s);
                let l = self.slots.len() - 1;
                self.check(l, "after construction");
            }
            Ok(None) => {
                if !huge && !refused {
                    fail!(K::Cap, "refused a capacity of {}", n);
                }
                label("refused");
            }
            Err(m) => {
                if refused && matches!(kind, 5 | 6) {
                    fail!(K::Fault, "a fallible constructor panicked on a refused request: {}", m);
                } else if !refused && !injected && !huge {
                    fail!(K::Panic, "construction panicked: {}", m);
                } else if huge && matches!(kind, 5 | 6) {
                    label("overflow_panic");
                }
            }
        }
        if self.slots.is_empty() {
            let d = self.fac.make(0, 0, 0, &[]).unwrap();
            self.slots.push(Slot { d, m: vec![], promise: 0, free: true, mk: Some(0) });
        }
    }

    fn pos(&self, x: u32, len: usize) -> usize {
        match x % 16 {
            15 => len + 1 + (x as usize >> 4) % 3,
            14 => len,
            13 if x >> 4 & 7 == 7 => usize::MAX - (x as usize >> 7) % 2,
            _ => {
                if len == 0 {
                    0
                } else {
                    (x as usize >> 4).wrapping_add(x as usize % 16) % len
                }
            }
        }
    }

    fn amount(&self, x: u32, y: u32, len: usize, cap: usize) -> usize {
        let sz = self.fac.size().max(1);
        match x % 24 {
            9..=19 if self.big => (y as usize >> 3) % (7000 * self.scale),
            21 if self.big => cap.saturating_sub(len).min(9000 * self.scale) + 1 + y as usize % 3000,
            23 => match y % 8 {
                0 => usize::MAX,
                1 => usize::MAX - len,
                2 => isize::MAX as usize,
                3 => isize::MAX as usize / sz + 1,
                4 => (usize::MAX / sz).saturating_add(1 + (y as usize >> 3) % 8),
                5 => LIMIT / sz + 1,
                6 => usize::MAX - (y as usize >> 3) % 32,
                _ => (1usize << 63) / sz + (y as usize >> 3) % 16,
            },
            22 => cap.saturating_sub(len).min(200),
            21 => (cap.saturating_sub(len)).min(200) + 1,
            20 => 64 + (y as usize % 64),
            _ => y as usize % 12,
        }
    }

    fn step(&mut self, op: &Op) {
        let si = self.slot(op[1] >> 16 ^ op[1]);
        let len = self.slots[si].m.len();
        label(match len {
            0 => "ops_at_length_0",
            1..=3 => "ops_at_length_1_to_3",
            4..=15 => "ops_at_length_4_to_15",
            _ => "ops_at_length_16_or_more",
        });
        let old = self.slots[si].m.clone();
        let fac_norm = |v: u32, s: &In| s.fac.norm(v);
        let kind = op[0] % 40;
        let nm = |n: &str, s: &In| format!("{} on #{} (len {})", n, si, s.slots[si].m.len());
        if len > self.maxlen() {
            note(|| nm("truncate(5)", self), &[]);
            let mut new = old;
            new.truncate(5);
            self.un(op, si, Some(new), Some(()), Faulty::No, |d| d.truncate(5));
            return;
        }
        match kind {
            0..=4 => {
                let v = fac_norm(op[2] % 64, self);
                note(|| nm(&format!("push({})", v), self), &[1, si as u64, v as u64]);
                let mut new = old;
                new.push(v);
                self.un(op, si, Some(new), Some(()), Faulty::Panics, |d| d.push(v));
            }
            5 => {
                note(|| nm("pop", self), &[2, si as u64]);
                let mut new = old;
                let r = new.pop();
                self.un(op, si, Some(new), Some(r), Faulty::No, |d| d.pop());
            }
            6 | 7 => {
                let i = self.pos(op[2], len);
                let v = fac_norm(op[3] % 64, self);
                note(|| nm(&format!("insert({}, {})", i, v), self), &[3, si as u64, i as u64, v as u64]);
                let mut new = old;
                let new = if i <= len {
                    new.insert(i, v);
                    Some(new)
                } else {
                    None
                };
                self.un(op, si, new, Some(()), Faulty::Panics, |d| d.insert(i, v));
            }
            8 | 9 => {
                let i = self.pos(op[2], len);
                let sw = kind == 9;
                note(|| nm(&format!("{}({})", if sw { "swap_remove" } else { "remove" }, i), self), &[4 + sw as u64, si as u64, i as u64]);
                let mut new = old;
                let (new, r) = if i < len {
                    let r = if sw { new.swap_remove(i) } else { new.remove(i) };
                    (Some(new), Some(r))
                } else {
                    (None, None)
                };
                self.un(op, si, new, r, Faulty::No, |d| if sw { d.swap_remove(i) } else { d.remove(i) });
            }
            10 => {
                let n = self.pos(op[2], len);
                note(|| nm(&format!("truncate({})", n), self), &[6, si as u64, n as u64]);
                let mut new = old;
                new.truncate(n);
                self.un(op, si, Some(new), Some(()), Faulty::No, |d| d.truncate(n));
            }
            11 => {
                note(|| nm("clear", self), &[7, si as u64]);
                self.un(op, si, Some(vec![]), Some(()), Faulty::No, |d| d.clear());
            }
            12 | 13 => {
                let n = match op[2] % 20 {
                    19 if !self.fac.zst() => self.amount(23, op[3], len, 0),
                    10..=15 if self.big => (op[3] as usize >> 3) % (4000 * self.scale),
                    18 => 70,
                    16 | 17 => len + op[2] as usize / 20 % 5,
                    _ => op[2] as usize % 20,
                };
                let v = fac_norm(op[3] % 64, self);
                let with = kind == 13;
                note(|| nm(&format!("{}({}, {})", if with { "resize_with" } else { "resize" }, n, v), self), &[8 + with as u64, si as u64, n as u64, v as u64]);
                let new = if n > 100_000 {
                    None
                } else {
                    let mut new = old;
                    if with {
                        let mut k = v;
                        let s = &self.fac;
                        new.resize_with(n, || {
                            k = k.wrapping_add(1);
                            s.norm(k)
                        });
                    } else {
                        new.resize(n, v);
                    }
                    Some(new)
                };
                if new.is_none() {
                    // impossible size: must be refused without a change
                    let cap0 = self.slots[si].d.cap();
                    let ref0 = a().refused;
                    let r = catch(|| if with { self.slots[si].d.resize_with(n, v) } else { self.slots[si].d.resize(n, v) });
                    let _ = ref0;
                    if r.is_ok() {
                        fail!(K::NoPanic, "resizing to {} elements succeeded", n);
                    }
                    if self.slots[si].d.cap() != cap0 {
                        fail!(K::Cap, "a refused resize changed the capacity");
                    }
                    self.check(si, "after a refused resize");
                    self.slots[si].free = false;
                    label("huge");
                } else {
                    self.un(op, si, new, Some(()), Faulty::Panics, |d| if with { d.resize_with(n, v) } else { d.resize(n, v) });
                }
            }
            14 => {
                let mask = op[2];
                let by_pos = op[3] % 2 == 0;
                note(|| nm(&format!("retain(mask {:#x}, by {})", mask, if by_pos { "call" } else { "value" }), self), &[10, si as u64, mask as u64, by_pos as u64]);
                let keep = move |n: &mut u32, v: u32| {
                    let b = if by_pos { *n } else { v };
                    *n += 1;
                    mask >> (b % 32) & 1 == 1
                };
                let mut new = old;
                let mut n = 0;
                new.retain(|&v| keep(&mut n, v));
                let calls = n;
                let mut n2 = 0;
                self.un(op, si, Some(new), Some(calls), Faulty::No, |d| {
                    d.retain(&mut |v| {
                        tick();
                        keep(&mut n2, v)
                    });
                    n2
                });
            }
            15 => {
                note(|| nm("dedup", self), &[11, si as u64]);
                let mut new = old;
                new.dedup();
                self.un(op, si, Some(new), Some(()), Faulty::No, |d| d.dedup());
            }
            16 => {
                let k = op[2] % 5 + 1;
                note(|| nm(&format!("dedup_by_key(v / {})", k), self), &[12, si as u64, k as u64]);
                let mut new = old;
                new.dedup_by_key(|v| *v / k);
                self.un(op, si, Some(new), Some(()), Faulty::No, |d| {
                    d.dedup_by_key(&mut |v| {
                        tick();
                        v / k
                    })
                });
            }
            17 => {
                let k = op[2] % 6;
                note(|| nm(&format!("dedup_by(rule {})", k), self), &[13, si as u64, k as u64]);
                // (current, previously kept) -> (same bucket, new value of the kept one)
                let norm = |v: u32| self.fac.norm(v);
                let rule = |a: u32, b: u32| -> (bool, Option<u32>) {
                    match k {
                        0 => (a == b, None),
                        1 => (a > b, None),
                        2 => (a % 3 == b % 3, Some(norm((b + 1) % 251))),
                        3 => (a <= b, Some(norm(a.max(b)))),
                        4 => (true, None),
                        _ => ((a ^ b) % 4 == 1, None),
                    }
                };
                let mut new = old;
                let mut seen = vec![];
                new.dedup_by(|a, b| {
                    seen.push((*a, *b));
                    let (r, w) = rule(*a, *b);
                    if let Some(w) = w {
                        *b = w;
                    }
                    r
                });
                let mut seen2 = vec![];
                self.un_dedup(op, si, new, seen, &mut seen2, &rule_clone(k, self.fac.norm(u32::MAX)));
            }
            18 => {
                let sj = self.slot(op[2]);
                if sj == si {
                    note(|| nm("nothing", self), &[]);
                    return;
                }
                note(|| nm(&format!("append(#{})", sj), self), &[14, si as u64, sj as u64]);
                let mut other = std::mem::replace(&mut self.slots[sj].m, vec![]);
                let om = other.clone();
                let mut new = old.clone();
                new.append(&mut other);
                if new.len() > self.maxlen() {
                    self.slots[sj].m = om;
                    return;
                }
                // take the other container out so that both can be borrowed
                let mut od = std::mem::replace(&mut self.slots[sj].d, self.fac.make(0, 0, 0, &[]).unwrap());
                let okd = {
                    let o = &mut *od;
                    self.mk2 = Some(self.slots[sj].mk.map(|m| m % 4));
                    let ou = self.un(op, si, Some(new), Some(()), Faulty::Panics, |d| d.append(o));
                    ou.is_some()
                };
                self.slots[sj].d = od;
                self.slots[sj].m = if okd { vec![] } else { om };
                self.check(sj, "the appended container");
                self.ids_disjoint();
            }
            19 => {
                let v = self.vals(op);
                note(|| nm(&format!("extend_from_slice({:?})", v), self), &[15, si as u64, v.len() as u64, op[3] as u64]);
                let mut new = old;
                new.extend_from_slice(&v);
                self.un(op, si, Some(new), Some(()), Faulty::Panics, |d| d.extend_slice(&v));
            }
            20 => {
                let v = self.vals(op);
                let h = op[2] >> 8;
                note(|| nm(&format!("extend(iter {:?}, hint {})", v, h % 4), self), &[16, si as u64, v.len() as u64, op[3] as u64, h as u64 % 4]);
                let mut new = old;
                new.extend_from_slice(&v);
                self.un(op, si, Some(new), Some(()), Faulty::Panics, |d| d.extend_iter(&v, h));
            }
            21 | 22 => {
                let at = self.pos(op[2], len);
                let into = kind == 22 && self.small;
                let w = op[3];
                note(|| nm(&format!("split_off{}({})", if into { "_into" } else { "" }, at), self), &[17 + into as u64, si as u64, at as u64, w as u64 % 5]);
                let mut new = old.clone();
                let (new, tail) = if at <= len {
                    let t = new.split_off(at);
                    (Some(new), t)
                } else if self.small {
                    (None, vec![])
                } else {
                    // Out of range: a panic, or nothing split off.
                    let r = catch(|| self.slots[si].d.split_off(at));
                    if let Ok(mut t) = r {
                        if t.len() != 0 {
                            fail!(K::NoPanic, "split_off past the end returned {} elements", t.len());
                            std::mem::forget(std::mem::replace(&mut t, self.fac.make(0, 0, 0, &[]).unwrap()));
                        }
                    }
                    self.check(si, "after split_off past the end");
                    return;
                };
                let free0 = self.slots[si].free;
                if into && w % 5 != 4 {
                    // the harness itself moves the part split off through a heap vector
                    self.slots[si].free = false;
                }
                let mut res: Option<D> = None;
                {
                    let rr = &mut res;
                    self.mk2 = Some(None);
                    self.un(op, si, new, Some(()), Faulty::Panics, |d| {
                        *rr = Some(if into { d.split_off_into(at, w) } else { d.split_off(at) });
                    });
                }
                if let Some(d) = res {
                    let free = free0 && (self.small || self.fac.zst()) && !(into && w % 5 != 4) && self.entitled(tail.len());
                    if free && d.heap() == Some(true) {
                        fail!(K::Heap, "the part split off is on the heap although {}", self.why());
                    }
                    let s = Slot { d, m: tail, promise: 0, free, mk: None };
                    if self.slots.len() < SLOTS {
                        self.slots.push(s);
                        let l = self.slots.len() - 1;
                        self.check(l, "the part split off");
                        self.ids_disjoint();
                    } else {
                        let sj = (si + 1) % self.slots.len();
                        self.slots[sj] = s;
                        self.check(sj, "the part split off");
                        self.ids_disjoint();
                    }
                }
            }
            23 | 24 | 25 => self.drain(op, si),
            26 | 27 => self.into_iter(op, si),
            28 | 29 => {
                let cap0 = self.slots[si].d.cap();
                let n = self.amount(op[2], op[3], len, cap0);
                let rk = op[2] >> 8 & 3;
                note(|| nm(&format!("{}({})", ["reserve", "reserve_exact", "try_reserve", "try_reserve_exact"][rk as usize], n), self), &[19, si as u64, n as u64, rk as u64]);
                self.reserve(op, si, n, rk);
            }
            30 | 31 => {
                let n = match op[2] % 12 {
                    11 => usize::MAX,
                    10 => len + op[2] as usize / 12 % 4,
                    9 => self.slots[si].d.cap().min(1000),
                    5..=8 if self.big => (op[3] as usize >> 3) % (6000 * self.scale),
                    x => x as usize * 2,
                };
                let fit = kind == 30;
                note(|| nm(&if fit { "shrink_to_fit".to_string() } else { format!("shrink_to({})", n) }, self), &[20 + fit as u64, si as u64, n as u64]);
                let cap0 = self.slots[si].d.cap();
                self.slots[si].promise = 0;
                self.un(op, si, Some(old), Some(()), Faulty::No, |d| if fit { d.shrink_to_fit() } else { d.shrink_to(n) });
                let cap1 = self.slots[si].d.cap();
                let floor = if fit { len } else { n.min(cap0).max(len) };
                if cap1 < floor {
                    fail!(K::Cap, "shrank from capacity {} to {}, less than {}", cap0, cap1, floor);
                }
                if cap1 > cap0 {
                    fail!(K::Cap, "shrinking grew the capacity from {} to {}", cap0, cap1);
                }
                // the larger of length and minimum stays available
                self.slots[si].promise = floor.min(10_000);
            }
            32 => {
                let how = op[2] % 6;
                note(|| nm(["clone_from into a new one", "clone_from into a shorter one", "clone_from into a longer one", "clone", "clone", "clone"][how as usize], self), &[22, si as u64, how.min(3) as u64]);
                let mut res: Option<D> = None;
                {
                    let rr = &mut res;
                    self.mk2 = Some(None);
                    self.un(op, si, Some(old.clone()), Some(()), Faulty::Panics, |d| *rr = Some(d.clone_box(how)));
                }
                if let Some(d) = res {
                    let free = how >= 3 && self.entitled(old.len());
                    let s = Slot { d, m: old, promise: 0, free, mk: None };
                    if self.slots.len() < SLOTS {
                        self.slots.push(s);
                    } else {
                        let sj = (si + 1) % self.slots.len();
                        self.slots[sj] = s;
                    }
                    for i in 0..self.slots.len() {
                        self.check(i, "after cloning");
                    }
                    self.ids_disjoint();
                }
            }
            33 => {
                let i = self.pos(op[2], len);
                let set = op[3] % 2 == 1;
                let v = fac_norm(op[3] >> 1 & 63, self);
                note(|| nm(&format!("index {} {}", i, if set { "set" } else { "get" }), self), &[23 + set as u64, si as u64, i as u64, v as u64]);
                if set {
                    let mut new = old;
                    let new = if i < len {
                        new[i] = v;
                        Some(new)
                    } else {
                        None
                    };
                    self.un(op, si, new, Some(()), Faulty::No, |d| d.index_set(i, v));
                } else {
                    let r = old.get(i).copied();
                    let new = if i < len { Some(old) } else { None };
                    self.un(op, si, new, r, Faulty::No, |d| d.index(i));
                }
            }
            34 => {
                let k = op[2] % 16;
                let (x, y) = if len == 0 { (0, 0) } else { (op[3] as usize % len, op[3] as usize / 7 % len) };
                note(|| nm(&format!("slice_op({}, {}, {})", k, x, y), self), &[25, si as u64, k as u64, x as u64, y as u64]);
                if len == 0 && (k / 4) % 4 == 2 {
                    return;
                }
                let mut new = old;
                match (k / 4) % 4 {
                    0 => new.reverse(),
                    1 => new.sort(),
                    2 => new.swap(x, y),
                    _ => new.rotate_left(x),
                }
                self.un(op, si, Some(new), Some(()), Faulty::No, |d| d.slice_op(k, x, y));
            }
            35 => {
                let dropit = op[2] % 3 == 0;
                note(|| nm(&format!("into_boxed_slice, then {}", if dropit { "drop" } else { "back" }), self), &[26, si as u64, dropit as u64]);
                let exp = old.clone();
                let small = self.small;
                self.consume(si, op, old, !small, |d| {
                    d.boxed(&mut |v| {
                        if v != exp {
                            fail!(K::Content, "boxed slice is {} where {} expected", show(&v), show(&exp));
                        }
                        dropit
                    })
                });
            }
            36 => {
                if self.small && op[2] % 8 == 7 {
                    let v = self.vals(op);
                    note(|| nm(&format!("write {:?} into the spare capacity and take it out", v), self), &[30, si as u64, 1]);
                    self.un(op, si, Some(old), Some(0), Faulty::No, |d| d.spare_fill(&v));
                } else if self.small {
                    let k = op[2] % 4;
                    match k {
                        0 => {
                            note(|| nm("move_to_heap", self), &[27, si as u64]);
                            self.slots[si].free = false;
                            // An explicit move fixes the size anew; earlier reservations do not survive it.
                            self.slots[si].promise = 0;
                            self.un(op, si, Some(old), Some(()), Faulty::Panics, |d| d.to_heap());
                            let r = self.slots[si].d.heap();
                            if r != Some(true) && a().refused == 0 {
                                fail!(K::Ret, "not on the heap after move_to_heap");
                            }
                            self.moved += 1;
                        }
                        1 => {
                            let cap0 = self.slots[si].d.cap();
                            let n = self.amount(op[2] >> 2, op[3], len, cap0);
                            note(|| nm(&format!("try_move_to_heap_and_reserve_exact({})", n), self), &[28, si as u64, n as u64]);
                            self.slots[si].free = false;
                            self.moved += 1;
                            self.reserve(op, si, n, 9);
                        }
                        _ => {
                            note(|| nm("try_move_to_stack", self), &[29, si as u64]);
                            let n = self.fac.inline().unwrap();
                            let on_stack = self.slots[si].d.heap() == Some(false);
                            let exp = if on_stack || len <= n { Ok(()) } else { Err(()) };
                            let promise = self.slots[si].promise;
                            let keep = on_stack || exp.is_err();
                            self.slots[si].promise = 0;
                            self.un(op, si, Some(old), Some(exp), Faulty::No, |d| d.to_stack());
                            if exp.is_ok() && self.slots[si].d.heap() != Some(false) {
                                fail!(K::Ret, "not inline after a successful move to the stack");
                            }
                            if exp.is_err() && self.slots[si].d.heap() != Some(true) {
                                fail!(K::Ret, "not on the heap after a refused move to the stack");
                            }
                            self.slots[si].promise = if keep { promise } else { 0 };
                            self.moved += 1;
                        }
                    }
                } else {
                    let v = self.vals(op);
                    let room = self.slots[si].d.spare().min(v.len());
                    note(|| nm(&format!("fill spare capacity with {:?}", &v[..room]), self), &[30, si as u64, room as u64]);
                    let mut new = old;
                    new.extend_from_slice(&v[..room]);
                    self.un(op, si, Some(new), Some(room), Faulty::No, |d| d.spare_fill(&v));
                }
            }
            37 => {
                let k = op[2] % 4;
                if self.small {
                    note(|| nm(&format!("into_vec/into_boxed_slice and back, {}", k), self), &[31, si as u64, k as u64]);
                    self.moved += 1;
                    self.consume(si, op, old, false, |d| Some(if k < 2 { d.into_vec() } else { d.into_small(k) }));
                } else if k == 0 {
                    note(|| nm("leak", self), &[32, si as u64]);
                    let exp = old;
                    self.consume(si, op, vec![], false, |d| {
                        let (v, _) = (d.leak(), 0);
                        if let Ok(v) = v {
                            if v != exp {
                                fail!(K::Content, "leaked slice is {} where {} expected", show(&v), show(&exp));
                            }
                        }
                        None
                    });
                } else if k == 1 && g().fault != FaultMode::Panic {
                    note(|| nm("dealloc_without_drop", self), &[33, si as u64]);
                    self.consume(si, op, vec![], false, |d| d.dealloc_no_drop());
                } else {
                    note(|| nm("nothing", self), &[]);
                }
            }
            38 => {
                note(|| nm("drop", self), &[34, si as u64]);
                self.consume(si, op, vec![], false, |d| {
                    drop(d);
                    None
                });
            }
            _ => {
                // a new container
                if self.slots.len() >= SLOTS {
                    note(|| nm("drop (to make room)", self), &[34, si as u64]);
                    let none = [0; 5];
                    self.consume(si, &none, vec![], false, |d| {
                        drop(d);
                        None
                    });
                }
                let k = op[1] / 4 % 12;
                let n = match op[2] % 12 {
                    11 => self.amount(23, op[3], 0, 0),
                    10 => self.fac.inline().unwrap_or(8),
                    9 => self.fac.inline().unwrap_or(8) + 1,
                    5..=8 if self.big => (op[3] as usize >> 3) % (6000 * self.scale),
                    x => x as usize,
                };
                let most = if self.big && matches!(k, 7 | 8 | 10) { 4000 * self.scale } else { 9 };
                let mut v: Vec<u32> = self.vals(op);
                let most = if matches!(k, 9 | 11) && v.len() >= LONGER && self.fac.size() <= 16 {
                    LONGER
                } else if matches!(k, 9 | 11) && v.len() >= LONG {
                    LONG
                } else {
                    most
                };
                v.truncate(most);
                let m = op[3] >> 8;
                note(|| format!("construct(kind {}, n {}, {:?}, marker {})", k, n, v, m % 4), &[35, k as u64, n as u64, v.len() as u64, m as u64 % 4]);
                self.arm(op);
                self.make(k, n, m, &v);
            }
        }
    }

    fn un_dedup(
        &mut self,
        op: &Op,
        si: usize,
        new: Vec<u32>,
        seen: Vec<(u32, u32)>,
        seen2: &mut Vec<(u32, u32)>,
        rule: &dyn Fn(u32, u32) -> (bool, Option<u32>),
    ) {
        self.un(op, si, Some(new), Some(seen), Faulty::No, |d| {
            d.dedup_by(&mut |a, b| {
                tick();
                seen2.push((a, b));
                rule(a, b)
            });
            seen2.clone()
        });
    }

    fn reserve(&mut self, op: &Op, si: usize, n: usize, rk: u32) {
        let s = &self.slots[si];
        let len = s.m.len();
        let cap0 = s.d.cap();
        let heap0 = s.d.heap();
        let need = len.checked_add(n);
        let size = self.fac.size();
        let fits = |need: usize| size == 0 || need.checked_mul(size).map_or(false, |b| b <= LIMIT);
        let possible = need.map_or(false, |need| need <= cap0 || fits(need));
        let old = s.m.clone();
        let req0 = a().requests;
        if !possible {
            label("huge");
            let r = catch(|| {
                let d = &mut self.slots[si].d;
                if rk == 9 {
                    d.to_heap_reserve(n)
                } else {
                    d.reserve(n, rk)
                }
            });
            match r {
                Ok(Ok(())) => {
                    fail!(K::Cap, "a reservation of {} elements was accepted (capacity now {})", n, self.slots[si].d.cap());
                    fail!(K::Fault, "a reservation of {} elements was accepted (capacity now {})", n, self.slots[si].d.cap());
                }
                Ok(Err(())) => {}
                Err(m) => {
                    if matches!(rk, 2 | 3 | 9) && need.is_some() && !m.contains("Overflow") && !m.contains("overflow") {
                        fail!(K::Fault, "a fallible reservation panicked on a refused request: {}", m);
                    }
                }
            }
            let d = &self.slots[si].d;
            if d.cap() != cap0 || d.heap() != heap0 {
                fail!(K::Cap, "a refused reservation changed the capacity from {} to {}", cap0, d.cap());
            }
            if d.vals() != old {
                fail!(K::Cap, "a refused reservation changed the contents");
                fail!(K::Fault, "a refused reservation changed the contents");
            }
            self.check(si, "after a refused reservation");
            let inl = self.fac.inline().unwrap_or(0);
            if !self.fac.zst() && n > inl {
                // it was asked for heap storage
                self.slots[si].free = false;
            }
            return;
        }
        let need = need.unwrap();
        let entitled = self.entitled(need);
        if !entitled {
            self.slots[si].free = false;
        }
        let fk = if matches!(rk, 2 | 3 | 9) { Faulty::Try } else { Faulty::Panics };
        let r = self.un(op, si, Some(old), Some(Ok(())), fk, |d| if rk == 9 { d.to_heap_reserve(n) } else { d.reserve(n, rk) });
        let reqs = a().requests - req0;
        match r {
            Some(Ok(())) => {
                let c = self.slots[si].d.cap();
                if c < need {
                    fail!(K::Cap, "capacity {} after reserving {} more elements at length {}", c, n, len);
                }
                if need <= cap0 && reqs > 0 && rk != 9 {
                    fail!(K::Cap, "reserving {} more elements within capacity {} made an allocator request", n, cap0);
                }
                if rk == 9 && self.slots[si].d.heap() != Some(true) {
                    fail!(K::Ret, "not on the heap after a successful move to the heap");
                }
                let p = &mut self.slots[si].promise;
                *p = if rk == 9 && heap0 == Some(false) { need } else { (*p).max(need) };
            }
            _ => {
                let d = &self.slots[si].d;
                if d.cap() != cap0 {
                    fail!(K::Cap, "a refused reservation changed the capacity from {} to {}", cap0, d.cap());
                }
            }
        }
    }

    /// Run a script of steps on an iterator over `exp`; returns what is left.
    fn script(it: &mut dyn It, exp: &[u32], steps: u32, mut bits: u32, into: bool) -> Vec<u32> {
        if exp.len() >= 2 && steps > 0 {
            label("iterated_2_or_more");
        }
        let mut q: std::collections::VecDeque<u32> = exp.iter().copied().collect();
        for k in 0..steps {
            let h = it.hint();
            if h != (q.len(), Some(q.len())) || (h.1 == Some(h.0) && it.len() != q.len()) {
                fail!(K::Iter, "reports {:?} remaining where {} remain", h, q.len());
            }
            // After exhaustion as well: the slice must be the remaining elements.
            let near = q.len() <= 10_000 && h.0 <= 10_000;
            let rest = if near { it.rest() } else { vec![] };
            if near && rest != q.iter().copied().collect::<Vec<_>>() {
                fail!(K::Iter, "remaining elements are {} where {} expected", show(&rest), show(q.make_contiguous()));
                if rest.len() != q.len() {
                    break;
                }
            }
            if into && near {
                let reverse = (bits >> 3 ^ k) % 4 == 1;
                if let Some(rm) = it.rest_mut(reverse) {
                    if rm != rest {
                        fail!(K::Iter, "as_slice_mut is {} where {} expected", show(&rm), show(&rest));
                        if rm.len() != rest.len() {
                            break;
                        }
                    }
                    if reverse {
                        // What is written through the slice is what the iterator holds; then put it back.
                        let mut want = rest.clone();
                        want.reverse();
                        let got = it.rest();
                        if got != want {
                            fail!(K::Iter, "after reversing as_slice_mut the remaining elements are {} where {} expected", show(&got), show(&want));
                        }
                        it.rest_mut(true);
                    }
                }
            }
            let (back, skip) = In::stride(&mut bits, k);
            let want = In::stepped(&mut q, back, skip);
            let got = match (back, skip) {
                (false, 0) => it.next(),
                (true, 0) => it.next_back(),
                (false, n) => it.nth(n),
                (true, n) => it.nth_back(n),
            };
            if got != want {
                fail!(K::Iter, "step {} ({}{}) yielded {:?} where {:?} expected", k, if back { "back" } else { "front" }, if skip > 0 { format!(", past {}", skip) } else { String::new() }, got, want);
                if got.is_some() != want.is_some() {
                    break;
                }
            }
        }
        let h = it.hint();
        if h != (q.len(), Some(q.len())) {
            fail!(K::Iter, "reports {:?} remaining where {} remain", h, q.len());
        }
        let left: Vec<u32> = q.into_iter().collect();
        if let Some(kind) = In::finishing(bits, steps) {
            label("consumed_by_adaptors");
            let (got, want) = (it.finish(kind), finished(kind, &left));
            if got != want {
                fail!(K::Iter, "consumed in way {}: {} where {} expected", kind, show(&got), show(&want));
            }
            return vec![];
        }
        left
    }
    /// Which end the next step is taken from, and how many elements it passes over.
    fn stride(bits: &mut u32, k: u32) -> (bool, usize) {
        let back = *bits & 1 == 1;
        *bits = bits.rotate_right(1) ^ (k & 8) >> 3;
        let h = (*bits ^ k).wrapping_mul(0x9e37_79b1) >> 20;
        (back, if h % 6 == 0 { 1 + h as usize / 6 % 3 } else { 0 })
    }
    fn stepped(q: &mut std::collections::VecDeque<u32>, back: bool, skip: usize) -> Option<u32> {
        for _ in 0..skip {
            if back {
                q.pop_back();
            } else {
                q.pop_front();
            }
        }
        if back {
            q.pop_back()
        } else {
            q.pop_front()
        }
    }
    /// Whether and how the rest is consumed, given the bits left after all steps.
    fn finishing(bits: u32, steps: u32) -> Option<u32> {
        let h = (bits ^ steps).wrapping_mul(0x85eb_ca6b) >> 16;
        (h % 3 == 0).then_some(h / 3 % FINISHES)
    }

    fn drain(&mut self, op: &Op, si: usize) {
        let len = self.slots[si].m.len();
        let old = self.slots[si].m.clone();
        let (x, y) = (self.pos(op[2], len), self.pos(op[2] >> 10 ^ op[3] >> 20, len));
        let lo = match op[3] % 7 {
            0 | 1 | 2 => Bound::Included(x),
            3 => Bound::Unbounded,
            4 => Bound::Excluded(x),
            _ => Bound::Included(x.min(y)),
        };
        let hi = match op[3] / 7 % 6 {
            0 | 1 => Bound::Excluded(y),
            2 => Bound::Unbounded,
            3 => Bound::Included(y),
            _ => Bound::Excluded(y.max(x)),
        };
        let start = match lo {
            Bound::Included(v) => Some(v),
            Bound::Excluded(v) => v.checked_add(1),
            Bound::Unbounded => Some(0),
        };
        let end = match hi {
            Bound::Included(v) => v.checked_add(1),
            Bound::Excluded(v) => Some(v),
            Bound::Unbounded => Some(len),
        };
        let range = match (start, end) {
            (Some(s), Some(e)) if s <= e && e <= len => Some((s, e)),
            _ => None,
        };
        let bits = op[3] >> 6;
        let steps = match op[2] >> 20 & 7 {
            0 => 0,
            7 => (len as u32 + 3).min(9000),
            k => k,
        };
        let forget = op[2] >> 26 & 31 == 31 && g().fault != FaultMode::Alloc;
        note(
            || format!("drain({:?}, {:?}) on #{} (len {}): {} steps, bits {:#x}{}", lo, hi, si, len, steps, bits, if forget { ", forget" } else { "" }),
            &[40, si as u64, start.unwrap_or(9999) as u64, end.unwrap_or(9999) as u64, steps as u64, (bits & ((1u64 << steps.min(20)) - 1) as u32) as u64, forget as u64],
        );
        match range {
            None => {
                self.un(op, si, None, Some(()), Faulty::No, |d| d.drain((lo, hi), &mut |_| false));
            }
            Some((s, e)) => {
                let mid: Vec<u32> = old[s..e].to_vec();
                let mut new = old.clone();
                new.drain(s..e);
                if forget {
                    // The documentation of leaking a drain: some elements may be lost, none may be duplicated.
                    let mut d = std::mem::replace(&mut self.slots[si].d, self.fac.make(0, 0, 0, &[]).unwrap());
                    self.arm(op);
                    let _ = catch(|| {
                        d.drain((lo, hi), &mut |it| {
                            In::script(it, &mid, steps, bits, false);
                            true
                        })
                    });
                    self.disarm(0);
                    self.slots[si].d = d;
                    g().leaked_ok = true;
                    label("forgotten_drain");
                    if self.slots[si].d.len() <= len {
                        let v = self.slots[si].d.vals();
                        // must be a subsequence of the old contents
                        let mut it = old.iter();
                        if !v.iter().all(|x| it.any(|y| y == x)) {
                            fail!(K::Content, "after a leaked drain: {} is no subsequence of {}", show(&v), show(&old));
                        }
                        self.slots[si].m = v;
                    }
                    self.check(si, "after a leaked drain");
                    return;
                }
                label("drain");
                self.un(op, si, Some(new.clone()), Some(()), Faulty::No, |d| {
                    d.drain((lo, hi), &mut |it| {
                        In::script(it, &mid, steps, bits, false);
                        false
                    })
                });
                if self.slots[si].m != new && g().fault == FaultMode::None {
                    fail!(K::Iter, "after the drain the vector is {} where {} expected", show(&self.slots[si].m), show(&new));
                }
            }
        }
    }

    fn into_iter(&mut self, op: &Op, si: usize) {
        let len = self.slots[si].m.len();
        let old = self.slots[si].m.clone();
        let bits = op[3];
        let steps = match op[2] & 7 {
            0 => 0,
            7 => (len as u32 + 3).min(9000),
            k => k,
        };
        let mut collect = op[2] >> 3 & 1 == 1;
        note(
            || format!("into_iter on #{} (len {}): {} steps, bits {:#x}, then {}", si, len, steps, bits, if collect { "collect" } else { "drop" }),
            &[41, si as u64, steps as u64, (bits & ((1u64 << steps.min(20)) - 1) as u32) as u64, collect as u64],
        );
        label("into_iter");
        let mut left = old.clone();
        // what the model leaves over, assuming no fault
        {
            let mut q: std::collections::VecDeque<u32> = old.iter().copied().collect();
            let mut b = bits;
            for k in 0..steps {
                let (back, skip) = In::stride(&mut b, k);
                In::stepped(&mut q, back, skip);
            }
            collect = collect && In::finishing(b, steps).is_none();
            if collect {
                left = q.into_iter().collect();
            } else {
                left.clear();
            }
        }
        let exp = left.clone();
        let small = self.small;
        let n0 = self.slots.len();
        self.keeps_mk = false;
        self.consume(si, op, left, !small && false, |d| {
            d.into_iter(&mut |it| {
                In::script(it, &old, steps, bits, true);
                collect
            })
        });
        if collect && self.slots.len() == n0 && g().fault == FaultMode::None {
            let got = self.slots.last().unwrap().d.vals();
            if got != exp {
                fail!(K::Iter, "collecting the rest gave {} where {} expected", show(&got), show(&exp));
            }
        }
    }
}

fn rule_clone(k: u32, top: u32) -> impl Fn(u32, u32) -> (bool, Option<u32>) {
    move |a, b| {
        let norm = |v: u32| v & top;
        match k {
            0 => (a == b, None),
            1 => (a > b, None),
            2 => (a % 3 == b % 3, Some(norm((b + 1) % 251))),
            3 => (a <= b, Some(norm(a.max(b)))),
            4 => (true, None),
            _ => ((a ^ b) % 4 == 1, None),
        }
    }
}

/// Whether `act` is the old contents followed by a part of what was to be added.
fn between(old: &[u32], new: &[u32], act: &[u32]) -> bool {
    act.len() >= old.len() && act.len() <= new.len() && act[..] == new[..act.len()] && act[..old.len()] == *old
}

pub fn run(c: &Case, small: bool) {
    let fac = if small { small_fac(c.cfg[1]) } else { vec_fac(c.cfg[1]) };
    note(|| format!("{}", fac.name()), &[c.cfg[1] as u64 % 48, small as u64]);
    let d = fac.make(0, 0, 0, &[]).unwrap();
    let mut s = In { fac, slots: vec![Slot { d, m: vec![], promise: 0, free: true, mk: Some(0) }], small, moved: 0, grew: 0, shrunk: 0, reqs: 0, mk2: None, keeps_mk: true, big: c.cfg[3] & 1 == 1, scale: 1 };
    if c.cfg[3] & 2 == 2 && s.fac.size() <= 1 {
        s.scale = 24;
        label("histories_with_tens_of_thousands_of_elements");
    }
    if s.big {
        label("histories_with_thousands_of_elements");
    }
    for (i, op) in c.ops.iter().enumerate() {
        g().op_no = i;
        s.step(op);
        if g().failed() {
            break;
        }
    }
    s.hd(0, Faulty::No);
    let nt = s.grew >= 2 && (s.shrunk >= 1 || s.moved >= 1 || s.reqs >= 2);
    g().nontrivial = nt;
    // Everything the containers still own must go with them.
    g().op_no = c.ops.len();
    note(|| "end: drop everything".into(), &[]);
    let slots = std::mem::take(&mut s.slots);
    if g().failed() {
        // The state may be unsound; stop here.
        std::mem::forget(slots);
        g().leaked_ok = true;
        a().leak_ok = true;
        return;
    }
    if let Err(m) = catch(|| drop(slots)) {
        fail!(K::Panic, "dropping panicked: {}", m);
    }
    if s.fac.tracked() || s.fac.zst() {
        crate::finish_elems();
    }
}
