//! InlineArray for many element and host layouts (LayoutSpec).
use sized_chunks::inline_array::InlineArray;
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::rec::Rec;
use vh::rt::*;

macro_rules! aligned {
    ($($name:ident $a:literal),*) => {$(
        #[derive(Clone, Copy)]
        #[repr(align($a))]
        pub struct $name<const S: usize>([u8; S]);
        impl<const S: usize> Bytes for $name<S> {
            fn fill(b: u8) -> Self { $name(std::array::from_fn(|i| b ^ (i as u8).wrapping_mul(29))) }
            fn is(&self, b: u8) -> bool { self.0.iter().enumerate().all(|(i, x)| *x == b ^ (i as u8).wrapping_mul(29)) }
        }
    )*};
}
pub trait Bytes: Copy + 'static {
    fn fill(b: u8) -> Self;
    fn is(&self, b: u8) -> bool;
}
aligned!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64);

const GUARD: usize = 64;
const LIMIT: usize = 300; // zero sized elements are unlimited
#[repr(C)]
struct Held<A, T> {
    before: [u8; GUARD],
    arr: InlineArray<A, T>,
    after: [u8; GUARD],
}
fn pattern(i: usize) -> u8 {
    (i as u8).wrapping_mul(37) ^ 0xA5
}
/// way: which operation fills it
fn observe<A: Bytes, T: Copy>(way: usize) -> Rec {
    let cap = InlineArray::<A, T>::CAPACITY;
    let mut rec = Rec {
        k: "inline", op: "layout", n: way as i32, cls: 0,
        s: vec![size_of::<T>() as i32, align_of::<T>() as i32, size_of::<A>() as i32, align_of::<A>() as i32],
        x: if cap == usize::MAX { 1_000_000 } else { cap as i32 },
        y: size_of::<InlineArray<A, T>>() as i32, m: align_of::<InlineArray<A, T>>() as i32, nf: LIMIT as i32,
        ..Rec::default()
    };
    let Ok(arr) = catch_unwind(InlineArray::<A, T>::new) else {
        rec.p = 1;
        return rec;
    };
    let n = cap.min(LIMIT);
    // two of them side by side on the heap
    let mut h = Box::new([Held { before: [0x5A; GUARD], arr, after: [0xC3; GUARD] }, Held { before: [0x5A; GUARD], arr: InlineArray::<A, T>::new(), after: [0xC3; GUARD] }]);
    let ok = catch_unwind(AssertUnwindSafe(|| {
        let mut good = true;
        for q in [1, 0] {
            let a = &mut h[q].arr;
            match way {
                0 => (0..n).for_each(|i| a.push(A::fill(pattern(i)))),
                1 => (0..n).rev().for_each(|i| a.insert(0, A::fill(pattern(i)))),
                2 => a.extend((0..n).map(|i| A::fill(pattern(i)))),
                3 => {
                    // used before, in full
                    (0..n).for_each(|_| a.push(A::fill(0x77)));
                    (0..n).for_each(|i| {
                        a.remove(0);
                        a.push(A::fill(pattern(i)));
                    })
                }
                4 => *a = (0..n).map(|i| A::fill(pattern(i))).collect(),
                _ => {
                    let b: InlineArray<A, T> = (0..n).map(|i| A::fill(pattern(i))).collect();
                    *a = b.clone();
                }
            }
        }
        for q in [0, 1] {
            let a = &h[q].arr;
            good &= a.len() == n && a.iter().enumerate().all(|(i, e)| e.is(pattern(i))) && (0..n).all(|i| a[i].is(pattern(i)));
        }
        good
    }));
    let base = &h[0].arr as *const _ as usize;
    let a = &mut h[0].arr;
    rec.la = a.len() as i32;
    let ptrs: Vec<usize> = (0..a.len().min(LIMIT)).map(|i| a[..].as_mut_ptr() as usize + i * size_of::<A>()).collect();
    let refs: Vec<usize> = a.iter().map(|e| e as *const A as usize).collect();
    // zero sized elements may live anywhere aligned
    rec.a = ptrs.iter().map(|p| if size_of::<A>() == 0 { (*p % 4096) as i32 } else { p.wrapping_sub(base) as i64 as i32 }).collect();
    let (len, full) = (a.len() as i32, a.is_full() as i32);
    let more = if a.is_full() { catch_unwind(AssertUnwindSafe(|| a.push(A::fill(0)))).is_err() as i32 } else { 0 };
    let mut order = true;
    for i in (0..n).rev() {
        order &= catch_unwind(AssertUnwindSafe(|| a.pop())).ok().flatten().map_or(false, |e| e.is(pattern(i)));
    }
    let empty = a.is_empty() && a.len() == 0 && a.pop().is_none();
    let guards = h.iter().all(|h| h.before == [0x5A; GUARD] && h.after == [0xC3; GUARD]) && h[1].arr.len() == n && h[1].arr.iter().enumerate().all(|(i, e)| e.is(pattern(i)));
    rec.r = vec![len, full, (ok.unwrap_or(false) && refs == ptrs) as i32, guards as i32, more, order as i32, empty as i32];
    rec
}
fn all<A: Bytes, T: Copy>(ctx: &mut Ctx) {
    for way in 0..6 {
        static NAME: &str = "layout";
        ctx.begin(&NAME);
        ctx.add(observe::<A, T>(way));
    }
}
// optimised builds of all pairs take too long; the thorough check uses the feature "deep"
macro_rules! hosts {
    ($ctx:expr, $e:ty) => {{
        hosts!(@ $ctx, $e, A1<7>, A1<8>, A1<9>, A1<33>, A1<130>, A2<10>, A4<12>, A8<8>, A8<56>, A16<32>, A64<192>);
        #[cfg(any(debug_assertions, feature = "deep"))]
        hosts!(@ $ctx, $e, A1<0>, A1<15>, A1<16>, A1<17>, A1<57>, A2<8>, A4<8>, A4<20>, A4<60>, A8<16>, A8<24>, A8<256>, A16<16>, A16<80>, A32<32>, A32<96>, A64<64>);
    }};
    (@ $ctx:expr, $e:ty, $($h:ty),*) => {{$( all::<$e, $h>($ctx); )*}};
}
fn main() {
    let args = args();
    let mut jobs = vec![];
    macro_rules! elems { ($($e:ty),*) => {$( jobs.push(job(concat!("layout/", stringify!($e)).replace(' ', ""), |x| { x.walk(0); hosts!(x, $e) })); )*} }
    elems!(A1<0>, A16<0>, A1<1>, A1<3>, A1<9>, A2<6>, A4<12>, A8<8>, A16<16>, A64<64>);
    #[cfg(any(debug_assertions, feature = "deep"))]
    elems!(A2<0>, A8<0>, A64<0>, A1<2>, A1<5>, A1<8>, A1<24>, A2<2>, A4<4>, A8<16>, A8<24>, A16<48>, A32<32>);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
