//! The list-like containers driven by operations of the specification (SeqSpec).
use crate::elem::{ident, Elem, COPY, ZST};
use crate::graph::{Graph, Op};
use crate::led;
use crate::rec::Rec;
use crate::rt::{Ctx, Rng};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::io::{IoSlice, IoSliceMut};
use std::borrow::BorrowMut;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const BIG: i32 = 1_000_000;
pub fn arg(x: i32) -> usize {
    if x >= BIG { usize::MAX - (x - BIG) as usize } else { x as usize }
}

/// Something an operation returned.
pub enum Ret<E> {
    Val(E),
    /// an element looked at: id, and whether it was already dropped then
    Seen(u32, bool),
    Num(i32),
    Nothing,
}
pub type Held<E> = Vec<Ret<E>>;
pub fn sn<E>(id: u32) -> Ret<E> {
    Ret::Seen(id, led::is_dead(id))
}

/// Iterator handed to the code under test.  `claim`: what size_hint/len report, given what is really left.
pub struct Src<E> {
    pub items: std::vec::IntoIter<E>,
    pub claim: Claim,
    pub calls: std::cell::Cell<usize>,
}
#[derive(Clone, Copy)]
pub enum Claim {
    Honest,
    /// remaining + d (at least 0)
    Off(i64),
    Const(usize),
    /// first call says honest + d, later ones honest
    FirstOff(i64),
    /// first call honest, later ones + d
    LaterOff(i64),
}
impl<E> Src<E> {
    pub fn new(v: Vec<E>) -> Self {
        Src { items: v.into_iter(), claim: Claim::Honest, calls: Default::default() }
    }
    pub fn lying(v: Vec<E>, claim: Claim) -> Self {
        Src { items: v.into_iter(), claim, calls: Default::default() }
    }
    fn claimed(&self) -> usize {
        let n = self.items.len();
        let c = self.calls.get();
        self.calls.set(c + 1);
        let off = |d: i64| (n as i64 + d).max(0) as usize;
        match self.claim {
            Claim::Honest => n,
            Claim::Off(d) => off(d),
            Claim::Const(k) => k,
            Claim::FirstOff(d) => if c == 0 { off(d) } else { n },
            Claim::LaterOff(d) => if c == 0 { n } else { off(d) },
        }
    }
}
impl<E> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        led::tick(led::F_NEXT);
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        led::tick(led::F_NEXT);
        let n = self.claimed();
        (n, Some(n))
    }
}
impl<E> Drop for Src<E> {
    fn drop(&mut self) {
        led::tick(led::F_NEXT);
    }
}
impl<E> ExactSizeIterator for Src<E> {
    fn len(&self) -> usize {
        led::tick(led::F_NEXT);
        self.claimed()
    }
}

/// Claims to be nearly endless; stops the test if it is really consumed.
struct Huge<E>(usize, usize, PhantomData<E>);
impl<E: Elem> Iterator for Huge<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        self.1 += 1;
        if self.1 > 3000 {
            panic!("runaway");
        }
        if self.0 == 0 {
            None
        } else {
            self.0 -= 1;
            Some(E::make(9))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
}
impl<E: Elem> ExactSizeIterator for Huge<E> {}

/// A list to look at.
pub trait Lst<E: Elem> {
    fn cap() -> usize;
    fn make() -> Self;
    fn ln(&self) -> usize;
    fn emp(&self) -> bool;
    fn ful(&self) -> bool;
    fn at(&self, i: usize) -> &E;
    fn at_mut(&mut self, i: usize) -> &mut E;
    /// `self[i] = x`, or another way to write that must be there and panic alike
    fn put(&mut self, i: usize, x: E, _way: i32) { *self.at_mut(i) = x }
    /// `self.get_mut(i)`, or another way to reach item i
    fn reach_mut(&mut self, _i: usize, _way: i32) -> Option<&mut E> { unreachable!() }
    /// all other ways of looking agree with `ids`
    fn views(&self, ids: &[u32]) -> bool;
    fn via_iter(&self) -> Vec<u32>;
    /// positions (sparse containers only) and ids of the contents
    fn entries(&self) -> (Vec<i32>, Vec<u32>) {
        let n = self.ln();
        (vec![], if n > Self::cap() { self.via_iter() } else { (0..n).map(|i| self.at(i).id()).collect() })
    }
}

pub fn eqi<'a, E: Elem>(ids: &[u32], it: impl Iterator<Item = &'a E>) -> bool {
    let mut n = 0;
    for (i, e) in it.enumerate() {
        if i >= ids.len() || e.id() != ids[i] {
            return false;
        }
        n += 1;
    }
    n == ids.len()
}
fn eqr<'a, E: Elem>(ids: &[u32], it: impl Iterator<Item = &'a E>) -> bool {
    let v: Vec<u32> = ids.iter().rev().copied().collect();
    eqi(&v, it)
}

macro_rules! ways {
    ($s:ident, $i:ident, $way:ident) => {
        match $way {
            0 => $s.get_mut($i),
            1 => $s.iter_mut().nth($i),
            2 => $s.into_iter().nth($i),
            _ => {
                let n = $s.len();
                if $i >= n { None } else { $s.iter_mut().rev().nth(n - 1 - $i) }
            }
        }
    };
}
impl<E: Elem, const N: usize> Lst<E> for Chunk<E, N> {
    fn cap() -> usize { N }
    fn make() -> Self { Chunk::new() }
    fn ln(&self) -> usize { self.len() }
    fn emp(&self) -> bool { self.is_empty() }
    fn ful(&self) -> bool { self.is_full() }
    fn at(&self, i: usize) -> &E { &self[i] }
    fn at_mut(&mut self, i: usize) -> &mut E { &mut self[i] }
    fn put(&mut self, i: usize, x: E, way: i32) {
        match way {
            0 => self[i] = x,
            1 => self.as_mut()[i] = x,
            2 => BorrowMut::<[E]>::borrow_mut(self)[i] = x,
            3 => std::ops::DerefMut::deref_mut(self)[i] = x,
            4 => self[i..][0] = x,
            _ => self.as_mut_slice()[i] = x,
        }
    }
    fn reach_mut(&mut self, i: usize, way: i32) -> Option<&mut E> { ways!(self, i, way) }
    fn via_iter(&self) -> Vec<u32> { self.iter().take(N + 8).map(|e| e.id()).collect() }
    fn views(&self, ids: &[u32]) -> bool {
        let b: &[E] = std::borrow::Borrow::borrow(self);
        let r: &[E] = self.as_ref();
        Self::CAPACITY == N
            && eqi(ids, self.as_slice().iter()) && eqi(ids, self.into_iter()) && eqr(ids, self.iter().rev())
            && eqi(ids, b.iter()) && eqi(ids, r.iter()) && eqi(ids, self[..].iter())
            && (0..ids.len()).all(|i| self[i].id() == ids[i])
    }
}
impl<E: Elem, const N: usize> Lst<E> for RingBuffer<E, N> {
    fn cap() -> usize { N }
    fn make() -> Self { RingBuffer::new() }
    fn ln(&self) -> usize { self.len() }
    fn emp(&self) -> bool { self.is_empty() }
    fn ful(&self) -> bool { self.is_full() }
    fn at(&self, i: usize) -> &E { &self[i] }
    fn at_mut(&mut self, i: usize) -> &mut E { &mut self[i] }
    fn put(&mut self, i: usize, x: E, way: i32) {
        match way {
            0 => self[i] = x,
            1 => self.slice_mut(..)[i] = x,
            2 => self.slice_mut(i..)[0] = x,
            3 => *self.iter_mut().nth(i).unwrap() = x,
            4 => assert!(ArrayMut::set(self, i, x).is_some()),
            _ => *self.slice_mut(..).iter_mut().nth(i).unwrap() = x,
        }
    }
    fn reach_mut(&mut self, i: usize, way: i32) -> Option<&mut E> {
        match way {
            4 if i < HasLength::len(self) => Some(unsafe { self.get_unchecked_mut(i) }),
            4 => None,
            _ => ways!(self, i, way),
        }
    }
    fn via_iter(&self) -> Vec<u32> { self.iter().take(N + 8).map(|e| e.id()).collect() }
    fn views(&self, ids: &[u32]) -> bool {
        Self::CAPACITY == N
            && eqi(ids, self.into_iter()) && eqr(ids, self.iter().rev()) && eqi(ids, self.slice(..).iter())
            && (0..ids.len()).all(|i| self[i].id() == ids[i] && self.get(i).map(|e| e.id()) == Some(ids[i]))
            && self.get(ids.len()).is_none()
            && (0..ids.len()).all(|i| unsafe { self.get_unchecked(i) }.id() == ids[i])
    }
}
impl<E: Elem, T: 'static> Lst<E> for InlineArray<E, T> {
    fn cap() -> usize { InlineArray::<E, T>::CAPACITY.min(BIG as usize) }
    fn make() -> Self { InlineArray::new() }
    fn ln(&self) -> usize { self.len() }
    fn emp(&self) -> bool { self.is_empty() }
    fn ful(&self) -> bool { self.is_full() }
    fn at(&self, i: usize) -> &E { &self[i] }
    fn at_mut(&mut self, i: usize) -> &mut E { &mut self[i] }
    fn put(&mut self, i: usize, x: E, way: i32) {
        match way {
            0 => self[i] = x,
            1 => self.as_mut()[i] = x,
            2 => BorrowMut::<[E]>::borrow_mut(self)[i] = x,
            3 => std::ops::DerefMut::deref_mut(self)[i] = x,
            4 => self[i..][0] = x,
            _ => *self.iter_mut().nth(i).unwrap() = x,
        }
    }
    fn reach_mut(&mut self, i: usize, way: i32) -> Option<&mut E> { ways!(self, i, way) }
    fn via_iter(&self) -> Vec<u32> { self.iter().take(<Self as Lst<E>>::cap() + 8).map(|e| e.id()).collect() }
    fn views(&self, ids: &[u32]) -> bool {
        let b: &[E] = std::borrow::Borrow::borrow(self);
        let r: &[E] = self.as_ref();
        eqi(ids, self.into_iter()) && eqr(ids, self.iter().rev()) && eqi(ids, b.iter()) && eqi(ids, r.iter())
            && (0..ids.len()).all(|i| self[i].id() == ids[i])
    }
}

/// Runs an iterator script (IterSpec).
pub fn script<I>(mut it: I, s: &[i32], h: &mut Held<I::Out>)
where
    I: ScriptIter,
{
    for (k, &a) in s.iter().enumerate() {
        match a {
            1..=4 | 10 | 11 | 14 | 15 => {
                let r = match a {
                    1 => it.nx(),
                    2 => it.nb(),
                    3 => it.nthf(1),
                    10 => it.nthf(usize::MAX),
                    11 => it.nthf(2),
                    14 => it.nthb(2),
                    15 => it.nthb(usize::MAX),
                    _ => it.nthb(1),
                };
                h.push(r);
                let (lo, hi, len) = it.hint();
                h.push(Ret::Num(lo as i32));
                h.push(Ret::Num(hi.map(|x| x as i32).unwrap_or(-2)));
                h.push(Ret::Num(len as i32));
            }
            18..=21 | 23 | 25 => {
                it.some(a, h);
                let (lo, hi, len) = it.hint();
                h.push(Ret::Num(lo as i32));
                h.push(Ret::Num(hi.map(|x| x as i32).unwrap_or(-2)));
                h.push(Ret::Num(len as i32));
            }
            22 | 26 => {
                let r = it.one(a);
                h.push(r);
                return;
            }
            5 => {
                debug_assert_eq!(k + 1, s.len());
                let n = it.cnt();
                h.push(Ret::Num(n as i32));
                return;
            }
            6 => {
                let r = it.lst();
                h.push(r);
                return;
            }
            7 | 8 => {
                let mut n = 0;
                loop {
                    let r = if a == 7 { it.nx() } else { it.nb() };
                    if let Ret::Nothing = r {
                        break;
                    }
                    h.push(r);
                    n += 1;
                    if n > 5000 {
                        h.push(Ret::Num(-9));
                        break;
                    }
                }
                h.push(Ret::Num(-1));
                return;
            }
            12 | 13 | 16 | 17 | 24 => {
                it.all(a, h);
                h.push(Ret::Num(-1));
                return;
            }
            _ => return,
        }
    }
}
pub trait ScriptIter: Sized {
    type Out;
    fn nx(&mut self) -> Ret<Self::Out>;
    fn nb(&mut self) -> Ret<Self::Out>;
    fn nthf(&mut self, n: usize) -> Ret<Self::Out>;
    fn nthb(&mut self, n: usize) -> Ret<Self::Out>;
    fn hint(&self) -> (usize, Option<usize>, usize);
    fn cnt(self) -> usize;
    fn lst(self) -> Ret<Self::Out>;
    /// consume it in one call: 12 for_each, 13 rev().for_each, 16 step_by(2), 17 rev().skip(1), 24 rev().step_by(2)
    fn all(self, how: i32, h: &mut Held<Self::Out>);
    /// consume it for one item: 22 reduce to the last, 26 min_by to the first
    fn one(self, how: i32) -> Ret<Self::Out>;
    /// take a few items in one call: 18 find and 19 rfind the second, 20 any and 21 try_rfold that stop at
    /// the second, 23 rposition of the first seen, 25 position of the second
    fn some(&mut self, how: i32, h: &mut Held<Self::Out>);
}
/// adapts an iterator; `f` turns an item into an observation
pub struct Ad<I, F>(pub I, pub F);
impl<I, F, E> ScriptIter for Ad<I, F>
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: FnMut(I::Item) -> Ret<E>,
{
    type Out = E;
    fn nx(&mut self) -> Ret<E> { match self.0.next() { Some(x) => (self.1)(x), None => Ret::Nothing } }
    fn nb(&mut self) -> Ret<E> { match self.0.next_back() { Some(x) => (self.1)(x), None => Ret::Nothing } }
    fn nthf(&mut self, n: usize) -> Ret<E> { match self.0.nth(n) { Some(x) => (self.1)(x), None => Ret::Nothing } }
    fn nthb(&mut self, n: usize) -> Ret<E> { match self.0.nth_back(n) { Some(x) => (self.1)(x), None => Ret::Nothing } }
    fn all(self, how: i32, h: &mut Held<E>) {
        let Ad(it, mut f) = self;
        let mut n = 0;
        let each = |x| {
            h.push(f(x));
            n += 1;
            if n > 5000 {
                panic!("runaway");
            }
        };
        match how {
            12 => it.for_each(each),
            13 => it.rev().for_each(each),
            16 => it.step_by(2).for_each(each),
            24 => it.rev().step_by(2).for_each(each),
            _ => it.rev().skip(1).for_each(each),
        }
    }
    fn one(self, how: i32) -> Ret<E> {
        let Ad(it, mut f) = self;
        let x = if how == 22 { it.reduce(|_, b| b) } else { it.min_by(|_, _| std::cmp::Ordering::Equal) };
        match x { Some(x) => f(x), None => Ret::Nothing }
    }
    fn some(&mut self, how: i32, h: &mut Held<E>) {
        let Ad(it, f) = self;
        let mut k = 0;
        let mut second = || {
            k += 1;
            k == 2
        };
        match how {
            18 | 19 => {
                let x = if how == 18 { it.find(|_| second()) } else { it.rfind(|_| second()) };
                h.push(match x { Some(x) => f(x), None => Ret::Nothing })
            }
            20 => {
                it.any(|x| {
                    h.push(f(x));
                    second()
                });
            }
            21 => {
                let _ = it.try_rfold((), |_, x| {
                    h.push(f(x));
                    if second() { Err(()) } else { Ok(()) }
                });
            }
            23 => {
                let p = it.rposition(|_| true);
                h.push(Ret::Num(p.map(|p| p as i32 + 1).unwrap_or(0)))
            }
            _ => {
                let p = it.position(|_| second());
                h.push(Ret::Num(p.map(|p| p as i32 + 1).unwrap_or(0)))
            }
        }
    }
    fn hint(&self) -> (usize, Option<usize>, usize) {
        let h = self.0.size_hint();
        (h.0, h.1, self.0.len())
    }
    fn cnt(self) -> usize { self.0.count() }
    fn lst(mut self) -> Ret<E> { match self.0.last() { Some(x) => (self.1)(x), None => Ret::Nothing } }
}

macro_rules! iters {
    ($a:ident, $op:ident, $h:ident, $f:ident, $E:ty) => {{
        match $op.op {
            "it_ref" => script(Ad($a.iter(), |e: &$E| sn(e.id())), &$op.s, $h),
            "it_mut" => {
                $f.reverse();
                let mut ff = $f;
                script(
                    Ad($a.iter_mut(), |e: &mut $E| match ff.pop() {
                        Some(x) => Ret::Val(std::mem::replace(e, x)),
                        None => sn(e.id()),
                    }),
                    &$op.s,
                    $h,
                )
            }
            "it_own" => {
                let c = std::mem::replace($a, Lst::make());
                script(Ad(c.into_iter(), |e: $E| Ret::Val(e)), &$op.s, $h)
            }
            "leak_own" => {
                let mut it = std::mem::replace($a, Lst::make()).into_iter();
                for _ in 0..arg($op.x) { let x = it.next(); $h.push(opt(x)) }
                for _ in 0..arg($op.y) { let x = it.next_back(); $h.push(opt(x)) }
                std::mem::forget(it)
            }
            "leak_drain" => {
                let mut it = $a.drain();
                for _ in 0..arg($op.x) { let x = it.next(); $h.push(opt(x)) }
                for _ in 0..arg($op.y) { let x = it.next_back(); $h.push(opt(x)) }
                std::mem::forget(it)
            }
            _ => script(Ad($a.drain(), |e: $E| Ret::Val(e)), &$op.s, $h),
        }
    }};
}

pub fn opt<E>(o: Option<E>) -> Ret<E> {
    match o { Some(e) => Ret::Val(e), None => Ret::Nothing }
}
pub fn see<E: Elem>(o: Option<&E>) -> Ret<E> {
    match o { Some(e) => sn(e.id()), None => Ret::Nothing }
}

/// things only some element types can do
pub trait Special: Elem {
    fn ext_ref_chunk<const N: usize>(_: &mut Chunk<Self, N>, _: &[Self]) { panic!("unsupported") }
    fn ext_ref_inline<T>(_: &mut InlineArray<Self, T>, _: &[Self]) { panic!("unsupported") }
    fn io_chunk<const N: usize>(_: &mut Chunk<Self, N>, _: &Op, _: Vec<Self>, _: &mut Held<Self>) { panic!("unsupported") }
    fn io_ring<const N: usize>(_: &mut RingBuffer<Self, N>, _: &Op, _: Vec<Self>, _: &mut Held<Self>) { panic!("unsupported") }
}
macro_rules! plain { ($($t:ty),*) => { $(impl Special for $t {})* } }
plain!(crate::elem::Tok, crate::elem::Fat, crate::elem::Huge, crate::elem::Wide, crate::elem::Heap, crate::elem::Zed, crate::elem::Mark, crate::elem::Pip);
macro_rules! copying {
    ($($t:ty),*) => { $(impl Special for $t {
        fn ext_ref_chunk<const N: usize>(a: &mut Chunk<Self, N>, v: &[Self]) { a.extend(v.iter()) }
        fn ext_ref_inline<T>(a: &mut InlineArray<Self, T>, v: &[Self]) { a.extend(v.iter()) }
    })* }
}
copying!(u16, u64, u128);
fn io<C: std::io::Read + std::io::Write>(a: &mut C, op: &Op, f: Vec<u8>, h: &mut Held<u8>) {
    if op.op == "io_write" {
        let res = match op.y {
            0 => a.write(&f),
            1 => a.write_all(&f).map(|_| f.len()),
            _ => {
                // vectored writes until everything is gone or nothing more fits
                let (p, q) = f.split_at(f.len() / 3);
                let mut parts = [IoSlice::new(&[]), IoSlice::new(p), IoSlice::new(&[]), IoSlice::new(q)];
                let mut bufs = &mut parts[..];
                IoSlice::advance_slices(&mut bufs, 0);
                let mut n = 0;
                loop {
                    if bufs.is_empty() {
                        break Ok(n);
                    }
                    match a.write_vectored(bufs) {
                        Ok(0) => break Ok(n),
                        Ok(c) if c > f.len() - n => break Ok(-8i32 as usize),
                        Ok(c) => {
                            IoSlice::advance_slices(&mut bufs, c);
                            n += c
                        }
                        Err(e) => break Err(e),
                    }
                }
            }
        };
        match res {
            Ok(n) => h.push(Ret::Num(n as i32)),
            Err(_) => h.push(Ret::Num(-3)),
        }
        if a.flush().is_err() {
            h.push(Ret::Num(-3));
        }
    } else {
        let mut buf = vec![0xEEu8; arg(op.x) + 3];
        let k = arg(op.x);
        let res = match op.y {
            0 => a.read(&mut buf[..k]),
            1 => a.read_exact(&mut buf[..k]).map(|_| k),
            2 => {
                buf.clear();
                let n = a.read_to_end(&mut buf);
                buf.resize(buf.len().max(k), 0xEE);
                n
            }
            4 => {
                let (p, q) = buf[..k].split_at_mut(k / 3);
                let mut parts = [IoSliceMut::new(&mut []), IoSliceMut::new(p), IoSliceMut::new(&mut []), IoSliceMut::new(q)];
                let mut bufs = &mut parts[..];
                IoSliceMut::advance_slices(&mut bufs, 0);
                let mut n = 0;
                loop {
                    if bufs.is_empty() {
                        break Ok(n);
                    }
                    match a.read_vectored(bufs) {
                        Ok(0) => break Ok(n),
                        Ok(c) if c > k - n => break Ok(-8i32 as usize),
                        Ok(c) => {
                            IoSliceMut::advance_slices(&mut bufs, c);
                            n += c
                        }
                        Err(e) => break Err(e),
                    }
                }
            }
            _ => std::io::Read::bytes(&mut *a).take(k).zip(buf.iter_mut()).try_fold(0, |n, (b, p)| b.map(|b| *p = b).map(|_| n + 1)),
        };
        match res {
            Ok(n) => {
                h.push(Ret::Num(n as i32));
                for b in buf.iter().take(n.min(k)) {
                    h.push(Ret::Val(*b));
                }
                if buf[n.min(k)..].iter().any(|b| *b != 0xEE) {
                    h.push(Ret::Num(-4)); // wrote past what it reported
                }
            }
            Err(_) => h.push(Ret::Num(-3)),
        }
    }
}
impl Special for u8 {
    fn ext_ref_chunk<const N: usize>(a: &mut Chunk<Self, N>, v: &[Self]) { a.extend(v.iter()) }
    fn ext_ref_inline<T>(a: &mut InlineArray<Self, T>, v: &[Self]) { a.extend(v.iter()) }
    fn io_chunk<const N: usize>(a: &mut Chunk<Self, N>, op: &Op, f: Vec<Self>, h: &mut Held<Self>) { io(a, op, f, h) }
    fn io_ring<const N: usize>(a: &mut RingBuffer<Self, N>, op: &Op, f: Vec<Self>, h: &mut Held<Self>) { io(a, op, f, h) }
}

/// A kind of the specification: two registers and what the operations mean for them.
pub trait Kind<E: Special>: 'static {
    const K: &'static str;
    type A: Lst<E> + 'static;
    type B: Lst<E> + 'static;
    fn apply(a: &mut Self::A, b: &mut Self::B, op: &Op, f: Vec<E>, h: &mut Held<E>);
    fn lie(_: &mut Self::A, _: &Op, _: Vec<E>) { panic!("unsupported") }
}

macro_rules! both_ends {
    ($a:ident, $b:ident, $op:ident, $f:ident, $h:ident, $C:ty, $E:ty) => {{
        let i = arg($op.x);
        let j = arg($op.y);
        match $op.op {
            "new" => *$a = <$C>::new(),
            "default" => *$a = <$C>::default(),
            "unit" => *$a = <$C>::unit($f.pop().unwrap()),
            "pair" => {
                let y = $f.pop().unwrap();
                let x = $f.pop().unwrap();
                *$a = <$C>::pair(x, y)
            }
            "from_iter" => *$a = Src::new($f).collect(),
            "collect_from" => {
                let mut s = Src::new($f);
                *$a = <$C>::collect_from(&mut s, i)
            }
            "drain_from" => *$a = <$C>::drain_from($b),
            "from_front" => *$a = <$C>::from_front($b, i),
            "from_back" => *$a = <$C>::from_back($b, i),
            "clone" => *$b = $a.clone(),
            "clone_from" => $b.clone_from($a),
            "pool_clone" => {
                let pool: refpool::Pool<$C> = refpool::Pool::new(2);
                let r = refpool::PoolRef::clone_from(&pool, $a);
                let ids = Lst::<$E>::via_iter(&*r);
                if Lst::<$E>::ln(&*r) != ids.len() || !Lst::<$E>::views(&*r, &ids) {
                    $h.push(Ret::Num(-5));
                }
                $h.extend(ids.into_iter().map(sn));
                drop(r);
            }
            "pool_default" => {
                let pool: refpool::Pool<$C> = refpool::Pool::new(2);
                drop(refpool::PoolRef::clone_from(&pool, $a)); // leaves used memory in the pool
                let r = refpool::PoolRef::default(&pool);
                if Lst::<$E>::ln(&*r) != 0 || !Lst::<$E>::emp(&*r) || Lst::<$E>::ful(&*r) != (<$C as Lst<$E>>::cap() == 0) {
                    $h.push(Ret::Num(-5));
                }
                $h.extend(Lst::<$E>::via_iter(&*r).into_iter().map(sn));
            }
            "clear" => $a.clear(),
            "push_back" => $a.push_back($f.pop().unwrap()),
            "push_front" => $a.push_front($f.pop().unwrap()),
            "drop_left" => $a.drop_left(i),
            "drop_right" => $a.drop_right(i),
            "split_off" => *$b = $a.split_off(i),
            "append" => $a.append($b),
            "drain_from_front" => $a.drain_from_front($b, i),
            "drain_from_back" => $a.drain_from_back($b, i),
            "index" => $h.push(sn($a[i].id())),
            "index_mut" => {
                let x = $f.pop().unwrap();
                $a.put(i, x, $op.y);
            }
            "get" => $h.push(see($a.get(i))),
            "get_mut" => {
                let x = $f.pop().unwrap();
                match $a.reach_mut(i, $op.y) {
                    Some(p) => $h.push(Ret::Val(std::mem::replace(p, x))),
                    None => $h.push(Ret::Nothing),
                }
            }
            "first_last" => {
                $h.push(see($a.first()));
                $h.push(see($a.last()));
            }
            "swap" => $a.swap(i, j),
            "insert" => $a.insert(i, $f.pop().unwrap()),
            "insert_from" => $a.insert_from(i, Src::new($f)),
            "insert_huge" => $a.insert_from(i, Huge::<$E>(usize::MAX - j, 0, PhantomData)),
            "remove" => {
                let x = $a.remove(i);
                $h.push(Ret::Val(x))
            }
            "extend" => $a.extend(Src::new($f)),
            "exchange" => std::mem::swap($a, $b),
            "drop_all" => {
                *$a = <$C>::new();
                *$b = <$C>::new();
            }
            _ => panic!("unknown operation {}", $op.op),
        }
    }};
}

pub struct ChunkK<E, const N: usize>(PhantomData<E>);
impl<E: Special, const N: usize> Kind<E> for ChunkK<E, N> {
    const K: &'static str = "chunk";
    type A = Chunk<E, N>;
    type B = Chunk<E, N>;
    fn lie(a: &mut Self::A, op: &Op, f: Vec<E>) {
        let mut s = Src::lying(f, claim_of(op.y));
        match op.op {
            "lie_extend" => a.extend(s),
            "lie_insert" => a.insert_from(arg(op.x), s),
            "lie_from_iter" => *a = s.collect(),
            _ => *a = Chunk::collect_from(&mut s, arg(op.x)),
        }
    }
    fn apply(a: &mut Chunk<E, N>, b: &mut Chunk<E, N>, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
        match op.op {
            "pop_back" => {
                let x = a.pop_back();
                h.push(Ret::Val(x))
            }
            "pop_front" => {
                let x = a.pop_front();
                h.push(Ret::Val(x))
            }
            "set" => {
                let x = a.set(arg(op.x), f.pop().unwrap());
                h.push(Ret::Val(x))
            }
            "range" => h.extend(a[arg(op.x)..arg(op.y)].iter().map(|e| sn(e.id()))),
            "extend_ref" => E::ext_ref_chunk(a, &f),
            "io_write" | "io_read" => E::io_chunk(a, op, f, h),
            "it_ref" | "it_mut" | "it_own" | "it_drain" | "leak_own" | "leak_drain" => iters!(a, op, h, f, E),
            _ => both_ends!(a, b, op, f, h, Chunk<E, N>, E),
        }
    }
}
pub struct RingK<E, const N: usize>(PhantomData<E>);
impl<E: Special, const N: usize> Kind<E> for RingK<E, N> {
    const K: &'static str = "ring";
    type A = RingBuffer<E, N>;
    type B = RingBuffer<E, N>;
    fn lie(a: &mut Self::A, op: &Op, f: Vec<E>) {
        let mut s = Src::lying(f, claim_of(op.y));
        match op.op {
            "lie_extend" => a.extend(s),
            "lie_insert" => a.insert_from(arg(op.x), s),
            "lie_from_iter" => *a = s.collect(),
            _ => *a = RingBuffer::collect_from(&mut s, arg(op.x)),
        }
    }
    fn apply(a: &mut RingBuffer<E, N>, b: &mut RingBuffer<E, N>, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
        match op.op {
            "pop_back" => {
                let x = a.pop_back();
                h.push(opt(x))
            }
            "pop_front" => {
                let x = a.pop_front();
                h.push(opt(x))
            }
            "set" => {
                let x = a.set(arg(op.x), f.pop().unwrap());
                h.push(opt(x))
            }
            "map_pair" => {
                let (i, j) = a.map_pair(arg(op.x), arg(op.y), |x, y| {
                    std::mem::swap(x, y);
                    (y.id(), x.id())
                });
                h.push(sn(i));
                h.push(sn(j));
            }
            "extend_ref" => a.extend(f.iter()),
            "io_write" | "io_read" => E::io_ring(a, op, f, h),
            s if crate::slices::is_slice(s) => crate::slices::apply(a, op, f, h),
            "it_ref" | "it_mut" | "it_own" | "it_drain" | "leak_own" | "leak_drain" => iters!(a, op, h, f, E),
            _ => both_ends!(a, b, op, f, h, RingBuffer<E, N>, E),
        }
    }
}
pub struct InlineK<E, T>(PhantomData<(E, T)>);
impl<E: Special, T: 'static> Kind<E> for InlineK<E, T> {
    const K: &'static str = "inline";
    type A = InlineArray<E, T>;
    type B = InlineArray<E, T>;
    fn lie(a: &mut Self::A, op: &Op, f: Vec<E>) {
        let s = Src::lying(f, claim_of(op.y));
        match op.op {
            "lie_extend" => a.extend(s),
            _ => *a = s.collect(),
        }
    }
    fn apply(a: &mut InlineArray<E, T>, b: &mut InlineArray<E, T>, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
        let i = arg(op.x);
        match op.op {
            "new" => *a = InlineArray::new(),
            "default" => *a = InlineArray::default(),
            "from_iter" => *a = Src::new(f).collect(),
            "clone" => *b = a.clone(),
            "clone_from" => b.clone_from(a),
            "clear" => a.clear(),
            "push_back" => a.push(f.pop().unwrap()),
            "pop_back" => {
                let x = a.pop();
                h.push(opt(x))
            }
            "split_off" => *b = a.split_off(i),
            "index" => h.push(sn(a[i].id())),
            "index_mut" => {
                let x = f.pop().unwrap();
                a.put(i, x, op.y);
            }
            "get" => h.push(see(a.get(i))),
            "get_mut" => {
                let x = f.pop().unwrap();
                match a.reach_mut(i, op.y) {
                    Some(p) => h.push(Ret::Val(std::mem::replace(p, x))),
                    None => h.push(Ret::Nothing),
                }
            }
            "first_last" => {
                h.push(see(a.first()));
                h.push(see(a.last()));
            }
            "swap" => a.swap(i, arg(op.y)),
            "insert" => a.insert(i, f.pop().unwrap()),
            "remove" => {
                let x = a.remove(i);
                h.push(opt(x))
            }
            "extend" => a.extend(Src::new(f)),
            "extend_ref" => E::ext_ref_inline(a, &f),
            "exchange" => std::mem::swap(a, b),
            "drop_all" => {
                *a = InlineArray::new();
                *b = InlineArray::new();
            }
            "it_ref" | "it_mut" | "it_own" | "it_drain" | "leak_own" | "leak_drain" => iters!(a, op, h, f, E),
            _ => panic!("unknown operation {}", op.op),
        }
    }
}
/// A: Chunk, B: InlineArray
pub struct XferK<E, T, const N: usize>(PhantomData<(E, T)>);
impl<E: Special, T: 'static, const N: usize> Kind<E> for XferK<E, T, N> {
    const K: &'static str = "xfer";
    type A = Chunk<E, N>;
    type B = InlineArray<E, T>;
    fn apply(a: &mut Chunk<E, N>, b: &mut InlineArray<E, T>, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
        match op.op {
            "from_inline" => {
                let src = std::mem::replace(b, InlineArray::new());
                *a = Chunk::from(src)
            }
            "from_inline_mut" => *a = Chunk::from(&mut *b),
            "b_push" => b.push(f.pop().unwrap()),
            "b_pop" => {
                let x = b.pop();
                h.push(opt(x))
            }
            "b_remove" => {
                let x = b.remove(arg(op.x));
                h.push(opt(x))
            }
            "push_back" => a.push_back(f.pop().unwrap()),
            "push_front" => a.push_front(f.pop().unwrap()),
            "pop_back" => {
                let x = a.pop_back();
                h.push(Ret::Val(x))
            }
            "pop_front" => {
                let x = a.pop_front();
                h.push(Ret::Val(x))
            }
            "drop_all" => {
                *a = Chunk::new();
                *b = InlineArray::new();
            }
            _ => panic!("unknown operation {}", op.op),
        }
    }
}

const GUARD: u64 = 0xA5A5_5A5A_C3C3_3C3C;
#[repr(C)]
pub struct Regs<A, B> {
    g0: [u64; 4],
    a: A,
    g1: [u64; 4],
    b: B,
    g2: [u64; 4],
}

/// What can be seen of the two containers.
pub struct Seen {
    pub a: Vec<u32>,
    pub b: Vec<u32>,
    pub pa: Vec<i32>,
    pub pb: Vec<i32>,
    pub la: usize,
    pub lb: usize,
    pub o: [bool; 4],
    pub views: bool,
    pub guard: bool,
}
pub struct Info {
    pub k: &'static str,
    pub cls: u8,
    pub name: &'static str,
    pub max: u32,
    pub n: usize,
    pub m: usize,
}
/// Two containers under test, independent of their types.
pub trait Sut {
    fn info(&self) -> Info;
    fn lens(&self) -> (usize, usize);
    fn look(&self, views: bool) -> Seen;
    fn prepare(&mut self, vals: &[u32]) -> Vec<u32>;
    fn apply(&mut self, op: &Op, lie: bool) -> bool;
    /// what was returned; ids of handed out elements are in Ret::Val
    fn rets(&self) -> Vec<Ret<u32>>;
    fn settle(&mut self);
    fn forget(&mut self);
    fn poke(&mut self, i: usize, v: u32);
}
pub struct Pair<E: Special, K: Kind<E>> {
    regs: Option<Box<Regs<K::A, K::B>>>,
    fresh: Vec<E>,
    held: Held<E>,
}
pub fn pair<E: Special, K: Kind<E>>() -> Box<dyn Sut> {
    Box::new(Pair::<E, K> {
        regs: Some(Box::new(Regs { g0: [GUARD; 4], a: <K::A as Lst<E>>::make(), g1: [GUARD; 4], b: <K::B as Lst<E>>::make(), g2: [GUARD; 4] })),
        fresh: vec![],
        held: vec![],
    })
}
impl<E: Special, K: Kind<E>> Sut for Pair<E, K> {
    fn info(&self) -> Info {
        Info { k: K::K, cls: E::CLS, name: E::NAME, max: E::MAX, n: <K::A as Lst<E>>::cap(), m: <K::B as Lst<E>>::cap() }
    }
    fn lens(&self) -> (usize, usize) {
        let r = self.regs.as_ref().unwrap();
        (r.a.ln(), r.b.ln())
    }
    fn look(&self, views: bool) -> Seen {
        let r = self.regs.as_ref().unwrap();
        let ((pa, a), (pb, b)) = (r.a.entries(), r.b.entries());
        let (la, lb) = (r.a.ln(), r.b.ln());
        let sane = la <= <K::A as Lst<E>>::cap() && lb <= <K::B as Lst<E>>::cap();
        let views = views && sane && r.a.views(&a) && r.b.views(&b);
        let guard = [&r.g0, &r.g1, &r.g2].iter().all(|g| g.iter().all(|x| *x == GUARD));
        Seen { la, lb, o: [r.a.emp(), r.a.ful(), r.b.emp(), r.b.ful()], views, guard, a, b, pa, pb }
    }
    fn prepare(&mut self, vals: &[u32]) -> Vec<u32> {
        self.fresh = vals.iter().map(|v| E::make(*v)).collect();
        self.fresh.iter().map(|e| e.id()).collect()
    }
    fn apply(&mut self, op: &Op, lie: bool) -> bool {
        let fresh = std::mem::take(&mut self.fresh);
        let regs = self.regs.as_mut().unwrap();
        let (a, b, h) = (&mut regs.a, &mut regs.b, &mut self.held);
        catch_unwind(AssertUnwindSafe(move || if lie { K::lie(a, op, fresh) } else { K::apply(a, b, op, fresh, h) })).is_err()
    }
    fn rets(&self) -> Vec<Ret<u32>> {
        self.held.iter().map(|r| match r {
            Ret::Val(e) => Ret::Val(e.id()),
            Ret::Seen(i, d) => Ret::Seen(*i, *d),
            Ret::Num(n) => Ret::Num(*n),
            Ret::Nothing => Ret::Nothing,
        }).collect()
    }
    fn settle(&mut self) {
        self.held.clear()
    }
    fn forget(&mut self) {
        for h in self.held.drain(..) {
            std::mem::forget(h);
        }
        std::mem::forget(self.regs.take());
    }
    fn poke(&mut self, i: usize, v: u32) {
        *self.regs.as_mut().unwrap().b.at_mut(i) = E::make(v);
    }
}

/// One history on one pair of containers.
pub struct Walk {
    sut: Box<dyn Sut>,
    pub info: Info,
    counter: u32,
    pub poisoned: bool,
    /// something irregular happened to these containers before
    pub after: bool,
}
pub type Maker = fn() -> Box<dyn Sut>;
pub struct StepInfo {
    pub la: usize,
    pub lb: usize,
    pub calls: u32,
    pub fired: bool,
}

struct Labels {
    cls: u8,
    tab: HashMap<u32, i32>,
}
impl Labels {
    fn base(&self, id: u32) -> i32 {
        if id == led::GARBAGE {
            return 8888;
        }
        if self.cls == ZST {
            return 1;
        }
        if let Some(l) = self.tab.get(&id) {
            return *l;
        }
        if ident(self.cls) {
            let p = led::parent(id);
            if p != 0 && p < id {
                let l = self.base(p);
                return if l < 5000 { l + 1000 } else { l };
            }
        }
        9999
    }
    fn dead(&self, id: u32, dead: bool) -> i32 {
        let l = self.base(id);
        if ident(self.cls) && l < 7000 && dead { 7000 + l } else { l }
    }
    fn vis(&self, id: u32) -> i32 {
        self.dead(id, led::is_dead(id))
    }
}

impl Walk {
    pub fn new(mk: Maker) -> Self {
        led::reset();
        let sut = mk();
        Walk { info: sut.info(), sut, counter: 0, poisoned: false, after: false }
    }
    pub fn lens(&self) -> (usize, usize) {
        self.sut.lens()
    }
    fn value(&mut self, live: &[u32]) -> u32 {
        loop {
            self.counter = self.counter % self.info.max + 1;
            if !live.contains(&self.counter) {
                return self.counter;
            }
        }
    }
    /// run one operation; flt: (kind, at) of an injected panic
    pub fn step(&mut self, ctx: &mut Ctx, op: &Op, flt: Option<(u8, u32)>) -> StepInfo {
        self.run(ctx, op, flt, false)
    }
    pub fn run(&mut self, ctx: &mut Ctx, op: &Op, flt: Option<(u8, u32)>, lie: bool) -> StepInfo {
        ctx.begin(&op.op);
        let cls = self.info.cls;
        let pre = self.sut.look(false);
        let (la, lb) = (pre.a.len(), pre.b.len());
        let mut pos = pre.pa;
        pos.extend(pre.pb);
        let mut live = pre.a;
        live.extend(pre.b);
        let mut vals = vec![];
        for _ in 0..op.nf {
            // elements without identity get values not in use
            let v = if cls == COPY { self.value(&live) } else { 0 };
            vals.push(v);
        }
        live.extend(self.sut.prepare(&vals));
        let mut labels = Labels { cls, tab: HashMap::new() };
        if cls != ZST {
            for (i, id) in live.iter().enumerate() {
                labels.tab.insert(*id, i as i32 + 1);
            }
        }
        led::start_op();
        if let Some((k, at)) = flt {
            led::arm(k, at);
        }
        let panicked = self.sut.apply(op, lie);
        let (calls, fired) = if flt.is_some() { led::disarm() } else { (0, false) };
        let log = led::take_log();

        let sut = &self.sut;
        let now = match catch_unwind(AssertUnwindSafe(|| sut.look(true))) {
            Ok(s) => s,
            Err(_) => Seen { a: vec![], b: vec![], pa: vec![], pb: vec![], la: usize::MAX, lb: usize::MAX, o: [false; 4], views: false, guard: false },
        };
        let rets = self.sut.rets();
        let cut = |n: usize| n.min(BIG as usize) as i32;
        let o = vec![cut(now.la), now.o[0] as i32, now.o[1] as i32, cut(now.lb), now.o[2] as i32, now.o[3] as i32, now.views as i32, now.guard as i32];
        let mut d: Vec<i32> = log.iter().map(|id| labels.base(*id)).collect();
        d.sort();
        let mut r = vec![];
        let mut e = vec![];
        for x in &rets {
            r.push(match x {
                Ret::Val(id) => {
                    if ident(cls) {
                        e.push(labels.vis(*id));
                    }
                    labels.vis(*id)
                }
                Ret::Seen(id, dead) => labels.dead(*id, *dead),
                Ret::Num(n) => *n,
                Ret::Nothing => 0,
            });
        }
        if panicked {
            r.clear(); // nothing was returned
        }
        pos.extend(&now.pa);
        pos.extend(&now.pb);
        let rec = Rec {
            i: pos, k: self.info.k, op: op.op, n: cut(self.info.n), m: cut(self.info.m), cls, x: op.x, y: op.y, nf: op.nf, s: op.s.clone(),
            la: la as i32, lb: lb as i32, pre: if self.after { vec![1] } else { vec![] }, flt: if fired { flt.unwrap().0 as i32 } else { 0 }, p: panicked as i32,
            a: now.a.iter().map(|i| labels.vis(*i)).collect(), b: now.b.iter().map(|i| labels.vis(*i)).collect(), r, d, e, o,
        };
        // anything odd: stop using these containers (the record tells the story)
        let sane = now.la <= self.info.n && now.lb <= self.info.m && now.guard;
        let mut seen: Vec<i32> = rec.a.iter().chain(&rec.b).chain(&rec.e).copied().collect();
        let shadow = seen.iter().any(|l| *l >= 7000 || (ident(cls) && rec.d.contains(l)));
        let count = seen.len();
        seen.sort();
        seen.dedup();
        let twice = ident(cls) && seen.len() != count;
        if !sane || shadow || twice {
            self.poisoned = true;
        }
        if flt.is_none() || fired {
            ctx.add(rec);
        }
        self.after |= fired || lie;
        let gone = StepInfo { la: usize::MAX, lb: usize::MAX, calls, fired };
        if self.poisoned {
            self.sut.forget();
            return gone;
        }
        self.sut.settle();
        if cls == COPY {
            // make the values distinct again
            let mut all = now.a.clone();
            all.extend(&now.b);
            let mut used = now.a.clone();
            for (i, v) in now.b.iter().enumerate() {
                if used.contains(v) {
                    let nv = self.value(&all);
                    all.push(nv);
                    self.sut.poke(i, nv);
                    used.push(nv);
                } else {
                    used.push(*v);
                }
            }
            let mut ua = now.a.clone();
            ua.sort();
            ua.dedup();
            if ua.len() != now.a.len() {
                self.poisoned = true; // an item appears twice
                return gone;
            }
        }
        StepInfo { la: now.a.len(), lb: now.b.len(), calls, fired }
    }
    pub fn random(&self, rng: &mut Rng, ops: &[&'static str]) -> Op {
        if self.info.k == "sparse" {
            let now = self.sut.look(false);
            return crate::sparse::random_op(rng, ops, self.info.n, &now.pa);
        }
        let (la, lb) = self.lens();
        random_op(rng, ops, self.info.n, self.info.m, la, lb)
    }
    pub fn finish(&mut self, ctx: &mut Ctx) {
        if !self.poisoned {
            self.step(ctx, &Op::new("drop_all", 0, 0, 0), None);
        }
    }
}

pub fn kind_no(k: &str) -> i32 {
    match k {
        "chunk" => 1,
        "ring" => 2,
        "inline" => 3,
        "sparse" => 5,
        _ => 4,
    }
}
/// length of a layout of the model
pub fn layout_lens(k: &str, s: &[i32]) -> (usize, usize) {
    match k {
        "chunk" => ((s[4] - s[3]) as usize, (s[6] - s[5]) as usize),
        "sparse" => (s[3].count_ones() as usize, s[5].count_ones() as usize),
        "xfer" => ((s[4] - s[3]) as usize, s[6] as usize),
        _ => (s[4] as usize, s[6] as usize),
    }
}

/// Which graph transitions an element type can run
fn runs(i: &Info, op: &str) -> bool {
    match op {
        "extend_ref" => i.cls == COPY || i.k == "ring",
        "io_write" | "io_read" => i.name == "u8",
        _ => true,
    }
}

/// breadth first tree over the transitions this element type can run
fn reach(i: &Info, g: &Graph, root: usize) -> (Vec<usize>, Vec<Option<(usize, usize)>>) {
    let mut order = vec![root];
    let mut from: Vec<Option<(usize, usize)>> = vec![None; g.states.len()];
    let mut seen = vec![false; g.states.len()];
    seen[root] = true;
    let mut at = 0;
    while at < order.len() {
        let s = order[at];
        at += 1;
        for (k, (o, t)) in g.out[s].iter().enumerate() {
            if runs(i, o.op) && !seen[*t] {
                seen[*t] = true;
                from[*t] = Some((s, k));
                order.push(*t);
            }
        }
    }
    (order, from)
}
/// bring fresh containers to state s; None: the real containers went elsewhere
fn go_to(ctx: &mut Ctx, mk: Maker, g: &Graph, from: &[Option<(usize, usize)>], s: usize) -> (Walk, bool) {
    let mut path = vec![];
    let mut c = s;
    while let Some((f, e)) = from[c] {
        path.push((f, e));
        c = f;
    }
    path.reverse();
    let mut w = Walk::new(mk);
    for (f, e) in &path {
        let (po, pt) = &g.out[*f][*e];
        let inf = w.step(ctx, po, None);
        if w.poisoned || (inf.la, inf.lb) != layout_lens(w.info.k, &g.states[*pt]) {
            return (w, false);
        }
    }
    (w, true)
}

/// Replay every transition of the graph below (n, m): shortest path to its source state, the
/// transition, then drop everything.  With `every` > 1 only each every-th transition.
pub fn replay_graph(ctx: &mut Ctx, mk: Maker, g: &Graph, every: usize) {
    let i = mk().info();
    let (n, m) = (i.n as i32, i.m as i32);
    let Some(&root) = g.ids.get(&vec![kind_no(i.k), n, m, 0, 0, 0, 0]) else { return };
    let (order, from) = reach(&i, g, root);
    let mut wno = 0;
    for s in order {
        for (k, (o, _)) in g.out[s].iter().enumerate() {
            wno += 1;
            if (wno + k) % every != 0 || !runs(&i, o.op) || !ctx.walk(wno) {
                continue;
            }
            let (mut w, good) = go_to(ctx, mk, g, &from, s);
            if good {
                w.step(ctx, o, None);
            }
            w.finish(ctx);
        }
    }
}

/// Like replay_graph, but user code panics: every callback of every transition in turn.
pub fn fault_graph(ctx: &mut Ctx, mk: Maker, g: &Graph, after: &[&'static str]) {
    let i = mk().info();
    let (n, m) = (i.n as i32, i.m as i32);
    let Some(&root) = g.ids.get(&vec![kind_no(i.k), n, m, 0, 0, 0, 0]) else { return };
    let (order, from) = reach(&i, g, root);
    let mut wno = 0;
    for s in order {
        for (o, _) in g.out[s].iter() {
            wno += 1;
            if !runs(&i, o.op) || o.op == "insert_huge" || !ctx.walk(wno) {
                continue;
            }
            for kind in [led::F_CLONE, led::F_DROP, led::F_NEXT] {
                let mut at = 0; // first only count the callbacks
                let mut calls = 0;
                loop {
                    let (mut w, good) = go_to(ctx, mk, g, &from, s);
                    if !good {
                        w.finish(ctx);
                        break;
                    }
                    let inf = w.step(ctx, o, Some((kind, at)));
                    if at == 0 {
                        calls = inf.calls;
                    } else {
                        let mut rng = Rng::new(ctx.args.seed, (wno * 64 + at as usize) as u64, kind as u64);
                        for _ in 0..3 {
                            if w.poisoned {
                                break;
                            }
                            let o2 = w.random(&mut rng, after);
                            w.step(ctx, &o2, None);
                        }
                    }
                    w.finish(ctx);
                    if at >= calls {
                        break;
                    }
                    at += 1;
                }
            }
        }
    }
}

pub fn claim_of(y: i32) -> Claim {
    match y {
        BIG.. => Claim::Const(usize::MAX - (y - BIG) as usize),
        300.. => Claim::LaterOff(y as i64 - 350),
        200.. => Claim::FirstOff(y as i64 - 250),
        100.. => Claim::Off(y as i64 - 150),
        _ => Claim::Const(y as usize),
    }
}
/// Feed iterators that misreport their length, in every state of the graph.
pub fn lie_graph(ctx: &mut Ctx, mk: Maker, g: &Graph, after: &[&'static str]) {
    let i = mk().info();
    let (n, m) = (i.n as i32, i.m as i32);
    let Some(&root) = g.ids.get(&vec![kind_no(i.k), n, m, 0, 0, 0, 0]) else { return };
    let (order, from) = reach(&i, g, root);
    let mut claims: Vec<i32> = (0..=n + 2).collect();
    claims.extend([BIG, BIG + 1, BIG + 5, 149, 151, 152, 148, 249, 251, 252, 349, 351, 353]);
    let mut wno = 0;
    for s in order {
        let la = layout_lens(i.k, &g.states[s]).0 as i32;
        let mut ops = vec![];
        for nf in 0..=(n - la + 2) {
            for y in &claims {
                ops.push(Op::new("lie_extend", 0, *y, nf));
                if i.k != "inline" {
                    for q in 0..=la + 1 {
                        ops.push(Op::new("lie_insert", q, *y, nf));
                    }
                }
            }
        }
        if i.k == "sparse" {
            ops.clear();
            for nf in 0..=(n + 1) {
                for y in &claims {
                    let mut o = Op::new("lie_from_iter", 0, *y, nf);
                    o.s = (0..nf).collect();
                    ops.push(o);
                }
            }
        } else if la == 0 {
            for nf in 0..=(n + 2) {
                for y in &claims {
                    ops.push(Op::new("lie_from_iter", 0, *y, nf));
                    if i.k != "inline" {
                        for q in 0..=n + 1 {
                            ops.push(Op::new("lie_collect", q, *y, nf));
                        }
                    }
                }
            }
        }
        for o in ops {
            wno += 1;
            if !ctx.walk(wno) {
                continue;
            }
            let (mut w, good) = go_to(ctx, mk, g, &from, s);
            if good {
                w.run(ctx, &o, None, true);
                let mut rng = Rng::new(ctx.args.seed, wno as u64, 5);
                for _ in 0..2 {
                    if w.poisoned {
                        break;
                    }
                    let o2 = w.random(&mut rng, after);
                    w.step(ctx, &o2, None);
                }
            }
            w.finish(ctx);
        }
    }
}
/// Random walks through the graph.
pub fn walk_graph(ctx: &mut Ctx, mk: Maker, g: &Graph, walks: usize, len: usize) {
    let i = mk().info();
    let (n, m) = (i.n as i32, i.m as i32);
    let Some(&root) = g.ids.get(&vec![kind_no(i.k), n, m, 0, 0, 0, 0]) else { return };
    for wno in 0..walks {
        if !ctx.walk(wno) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, wno as u64, crate::rt::hash_name(ctx.name));
        let mut w = Walk::new(mk);
        let mut s = root;
        for _ in 0..len {
            // choose an operation name first, so that rare ones are not drowned
            let names: Vec<&'static str> = {
                let mut v: Vec<&'static str> = g.out[s].iter().map(|e| e.0.op).collect();
                v.dedup();
                v
            };
            if names.is_empty() {
                break;
            }
            let nm = names[rng.below(names.len())];
            let cand: Vec<usize> = (0..g.out[s].len()).filter(|i| g.out[s][*i].0.op == nm).collect();
            let (o, t) = &g.out[s][cand[rng.below(cand.len())]];
            if !runs(&i, o.op) {
                continue;
            }
            let inf = w.step(ctx, o, None);
            if w.poisoned || (inf.la, inf.lb) != layout_lens(w.info.k, &g.states[*t]) {
                break;
            }
            s = *t;
        }
        w.finish(ctx);
    }
}

/// random steps of an iterator script
pub fn action(rng: &mut Rng) -> i32 {
    match rng.below(12) {
        0 | 1 => 3 + rng.below(2) as i32,
        2 if rng.below(2) == 0 => [10, 11, 14, 15][rng.below(4)],
        3 => [18, 19, 20, 21, 23, 25][rng.below(6)],
        _ => 1 + rng.below(2) as i32,
    }
}
pub fn last_action(rng: &mut Rng) -> i32 { [9, 9, 9, 5, 6, 7, 8, 12, 13, 16, 17, 22, 24, 26][rng.below(14)] }

/// Random operation on containers of any capacity, biased to boundaries.
pub fn random_op(rng: &mut Rng, ops: &[&'static str], n: usize, m: usize, la: usize, lb: usize) -> Op {
    let op = ops[rng.below(ops.len())];
    if crate::slices::is_slice(op) {
        return crate::slices::random(rng, op, la);
    }
    let n = if n > 2000 { 80 } else { n }; // zero sized: no limit
    let room = n.saturating_sub(la);
    let bias = |rng: &mut Rng, len: usize| -> i32 {
        match rng.below(12) {
            0 => 0,
            1 => 1,
            2 => len as i32,
            3 => (len as i32 - 1).max(0),
            4 => len as i32 + 1,
            5 => (len / 2) as i32,
            6 if rng.below(4) == 0 => BIG,
            _ => rng.below(len + 1) as i32,
        }
    };
    let cnt = |rng: &mut Rng, room: usize| -> i32 {
        match rng.below(10) {
            0 => 0,
            1 => 1,
            2 => room as i32,
            3 => (room as i32 - 1).max(0),
            4 => room as i32 + 1,
            5 => (room / 2) as i32,
            _ => {
                let lim = if rng.below(3) == 0 { 64 } else { 6 };
                rng.below(room.min(lim) + 1) as i32
            }
        }
    };
    let mut o = Op::new(op, 0, 0, 0);
    match op {
        "unit" | "push_back" | "push_front" | "b_push" => o.nf = 1,
        "pair" => o.nf = 2,
        "from_iter" => o.nf = bias(rng, n) .min(n as i32 + 1),
        "extend" | "extend_ref" => o.nf = cnt(rng, room),
        "io_write" => {
            o.nf = cnt(rng, room);
            o.y = [0, (o.nf <= room as i32) as i32, 2, 0][rng.below(4)]
        }
        "io_read" => {
            o.y = [0, 0, 4, 1, 2, 3][rng.below(6)];
            o.x = match o.y {
                0 | 4 => bias(rng, la).min(la as i32 + 1),
                2 => la as i32,
                _ => bias(rng, la).min(la as i32),
            }
        }
        "collect_from" => {
            o.x = bias(rng, n).min(n as i32 + 1);
            o.nf = (o.x + rng.below(3) as i32 - 1).max(0)
        }
        "from_front" | "from_back" => o.x = bias(rng, lb),
        "drain_from_front" | "drain_from_back" => o.x = if rng.below(2) == 0 { bias(rng, lb) } else { bias(rng, room.min(lb)) },
        "drop_left" | "drop_right" | "split_off" | "remove" | "index" | "get" => o.x = bias(rng, la),
        "b_remove" => o.x = bias(rng, lb),
        "set" | "index_mut" | "get_mut" | "insert" => {
            o.x = bias(rng, la);
            o.y = match op {
                "index_mut" => rng.below(6) as i32,
                "get_mut" => rng.below(5) as i32,
                _ => 0,
            };
            o.nf = 1
        }
        "swap" | "map_pair" => {
            o.x = bias(rng, la);
            o.y = bias(rng, la)
        }
        "range" => {
            o.x = bias(rng, la);
            o.y = bias(rng, la)
        }
        "insert_from" => {
            o.x = bias(rng, la);
            o.nf = cnt(rng, room)
        }
        "insert_huge" => {
            o.x = bias(rng, la).min(la as i32);
            o.y = rng.below(n + 2) as i32
        }
        "leak_own" | "leak_drain" => {
            o.x = bias(rng, la).min(la as i32 + 1);
            o.y = if rng.below(2) == 0 { 0 } else { bias(rng, la).min(la as i32 + 1) }
        }
        "it_ref" | "it_mut" | "it_own" | "it_drain" => {
            if op == "it_mut" {
                o.nf = la as i32
            }
            let k = if rng.below(3) == 0 { rng.below(2 * la + 3) } else { rng.below(5) };
            for _ in 0..k {
                o.s.push(action(rng));
            }
            o.s.push(last_action(rng));
        }
        _ => {}
    }
    let _ = m;
    o
}

/// Random histories on containers of any capacity.
pub fn random_walks(ctx: &mut Ctx, mk: Maker, ops: &[&'static str], walks: usize, len: usize) {
    let i = mk().info();
    let ops: Vec<&'static str> = ops.iter().copied().filter(|o| runs(&i, o)).collect();
    for wno in 0..walks {
        if !ctx.walk(wno) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, wno as u64, crate::rt::hash_name(ctx.name));
        let mut w = Walk::new(mk);
        for _ in 0..len {
            let o = w.random(&mut rng, &ops);
            w.step(ctx, &o, None);
            if w.poisoned {
                break;
            }
        }
        w.finish(ctx);
    }
}

/// Random histories which jump to a random pair of layouts every few steps and use large counts: at capacities
/// where single steps from an empty container rarely get to wide and wrapping contents.
pub fn jump_walks(ctx: &mut Ctx, mk: Maker, ops: &[&'static str], walks: usize) {
    let i = mk().info();
    let ops: Vec<&'static str> = ops.iter().copied().filter(|o| runs(&i, o)).collect();
    let n = i.n.min(400);
    for wno in 0..walks {
        if !ctx.walk(wno) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, wno as u64, crate::rt::hash_name(ctx.name));
        let mut w = Walk::new(mk);
        let size = |rng: &mut Rng, max: usize| match rng.below(8) {
            0 => max,
            1 => max.saturating_sub(1),
            2 => max / 2,
            3 => rng.below(max.min(3) + 1),
            _ => rng.below(max + 1),
        };
        'walk: for _ in 0..2 {
            for reg in 0..2 {
                let full = size(&mut rng, n);
                let mut prep = vec![Op::new("from_iter", 0, 0, full as i32)];
                if i.k != "inline" {
                    let gone = if rng.below(3) == 0 { 0 } else { size(&mut rng, full) };
                    prep.push(Op::new("drop_left", gone as i32, 0, 0));
                    if i.k == "ring" {
                        prep.push(Op::new("extend", 0, 0, size(&mut rng, n - full + gone) as i32));
                    } else if gone < full {
                        let more = size(&mut rng, n - full);
                        prep.push(Op::new("extend", 0, 0, more as i32));
                        prep.push(Op::new("drop_right", size(&mut rng, full - gone + more) as i32, 0, 0));
                    }
                }
                if reg == 0 {
                    prep.push(Op::new("exchange", 0, 0, 0));
                }
                for o in &prep {
                    if runs(&i, o.op) {
                        w.step(ctx, o, None);
                    }
                    if w.poisoned {
                        break 'walk;
                    }
                }
            }
            for _ in 0..4 {
                let mut o = w.random(&mut rng, &ops);
                let (la, lb) = w.lens();
                match o.op {
                    "insert_from" | "extend" => o.nf = size(&mut rng, n.saturating_sub(la)) as i32,
                    "from_front" | "from_back" => o.x = size(&mut rng, lb) as i32,
                    "split_off" => o.x = size(&mut rng, la) as i32,
                    "drain_from_front" | "drain_from_back" if rng.below(3) != 0 => o.x = size(&mut rng, n.saturating_sub(la).min(lb)) as i32,
                    _ => (),
                }
                w.step(ctx, &o, None);
                if w.poisoned {
                    break 'walk;
                }
            }
        }
        w.finish(ctx);
    }
}

/// Random histories in which user code panics now and then.
pub fn fault_walks(ctx: &mut Ctx, mk: Maker, ops: &[&'static str], walks: usize, len: usize) {
    let i = mk().info();
    let ops: Vec<&'static str> = ops.iter().copied().filter(|o| runs(&i, o) && *o != "insert_huge").collect();
    for wno in 0..walks {
        if !ctx.walk(wno) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, wno as u64, crate::rt::hash_name(ctx.name));
        let mut w = Walk::new(mk);
        for _ in 0..len {
            let o = w.random(&mut rng, &ops);
            let flt = if rng.below(3) == 0 {
                let at = if rng.below(2) == 0 { rng.below(3) } else { rng.below(i.n.min(70) + 2) };
                Some(([led::F_CLONE, led::F_DROP, led::F_DROP, led::F_NEXT][rng.below(4)], at as u32))
            } else {
                None
            };
            w.step(ctx, &o, flt);
            if w.poisoned {
                break;
            }
        }
        w.finish(ctx);
    }
}
/// Random histories in which iterators misreport their length now and then.
pub fn lie_walks(ctx: &mut Ctx, mk: Maker, ops: &[&'static str], walks: usize, len: usize) {
    let i = mk().info();
    let ops: Vec<&'static str> = ops.iter().copied().filter(|o| runs(&i, o)).collect();
    let n = i.n.min(80) as i32;
    for wno in 0..walks {
        if !ctx.walk(wno) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, wno as u64, crate::rt::hash_name(ctx.name));
        let mut w = Walk::new(mk);
        for _ in 0..len {
            if rng.below(3) != 0 {
                let o = w.random(&mut rng, &ops);
                w.step(ctx, &o, None);
            } else {
                let (la, _) = w.lens();
                let room = (n - la as i32).max(0);
                let nf = match rng.below(4) {
                    0 => room + rng.below(3) as i32,
                    1 => (room - rng.below(3) as i32).max(0),
                    _ => rng.below(room as usize + 2) as i32,
                };
                let near = rng.below(4) as i32;
                let y = match rng.below(8) {
                    0 => BIG + near,
                    1 => (nf - near).clamp(0, 99),
                    2 => (nf + near).clamp(0, 99),
                    3 => (room + near).clamp(0, 99),
                    4 => 150 + near - 2,
                    5 => 250 + near - 2,
                    6 => 350 + near - 2,
                    _ => rng.below(90) as i32,
                };
                let o = if i.k == "sparse" {
                    let nf = rng.below(n as usize + 2) as i32;
                    let mut o = Op::new("lie_from_iter", 0, y, nf);
                    o.s = (0..nf).collect();
                    o
                } else if i.k == "inline" {
                    Op::new(["lie_extend", "lie_extend", "lie_from_iter"][rng.below(3)], 0, y, nf)
                } else {
                    match rng.below(5) {
                        0 => Op::new("lie_from_iter", 0, y, nf),
                        1 => Op::new("lie_collect", rng.below(n as usize + 2) as i32, y, nf),
                        2 => Op::new("lie_extend", 0, y, nf),
                        _ => Op::new("lie_insert", rng.below(la + 2) as i32, y, nf),
                    }
                };
                w.run(ctx, &o, None, true);
            }
            if w.poisoned {
                break;
            }
        }
        w.finish(ctx);
    }
}
