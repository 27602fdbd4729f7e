//! Generation from bytes: the model's byte strings and random longer ones (ArbSpec).
use arbitrary::{Arbitrary, Error, Unstructured};
use sized_chunks::inline_array::InlineArray;
use sized_chunks::{Chunk, RingBuffer, SparseChunk};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::cases::Case;
use vh::elem::Tok;
use vh::led;
use vh::rec::Rec;
use vh::rt::*;

/// an element with a value and the index of its kind
trait Gen: for<'a> Arbitrary<'a> + Clone + 'static {
    const KIND: i32;
    const NAME: &'static str;
    fn val(&self) -> i32;
    fn id(&self) -> Option<u32> {
        None
    }
}
macro_rules! plain {
    ($t:ty, $k:expr, $n:expr, |$x:ident| $e:expr) => {
        impl Gen for $t {
            const KIND: i32 = $k;
            const NAME: &'static str = $n;
            fn val(&self) -> i32 {
                let $x = *self;
                $e
            }
        }
    };
}
plain!(u8, 1, "u8", |x| x as i32);
plain!(u16, 2, "u16", |x| x as i32);
plain!((), 3, "unit", |_x| 0);
plain!(bool, 4, "bool", |x| x as i32);
#[derive(Clone)]
struct Pick(Tok);
impl<'a> Arbitrary<'a> for Pick {
    fn arbitrary(u: &mut Unstructured<'a>) -> arbitrary::Result<Self> {
        match u8::arbitrary(u)? {
            2 => Err(Error::IncorrectFormat),
            v => Ok(Pick(Tok::with_val(v as i32))),
        }
    }
    fn size_hint(_: usize) -> (usize, Option<usize>) {
        (1, Some(1))
    }
}
impl Gen for Pick {
    const KIND: i32 = 5;
    const NAME: &'static str = "pick";
    fn val(&self) -> i32 {
        self.0.val
    }
    fn id(&self) -> Option<u32> {
        use vh::elem::Elem;
        Some(self.0.id())
    }
}
trait Cont<E: Gen>: for<'a> Arbitrary<'a> + 'static {
    const K: &'static str;
    fn cap() -> usize;
    fn items(&self) -> Vec<(Option<usize>, E)>;
    fn size(&self) -> usize;
}
macro_rules! list {
    ($k:expr, [$($g:tt)*], $t:ty, $cap:expr) => {
        impl<E: Gen, $($g)*> Cont<E> for $t {
            const K: &'static str = $k;
            fn cap() -> usize { $cap }
            fn items(&self) -> Vec<(Option<usize>, E)> { self.iter().map(|e| (None, e.clone())).collect() }
            fn size(&self) -> usize { self.len() }
        }
    };
}
use bitmaps::{Bits, BitsImpl};
impl<E: Gen, const N: usize> Cont<E> for Chunk<E, N>
where
    BitsImpl<N>: Bits,
{
    const K: &'static str = "chunk";
    fn cap() -> usize {
        N
    }
    fn items(&self) -> Vec<(Option<usize>, E)> {
        self.iter().map(|e| (None, e.clone())).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
impl<E: Gen, const N: usize> Cont<E> for RingBuffer<E, N>
where
    BitsImpl<N>: Bits,
{
    const K: &'static str = "ring";
    fn cap() -> usize {
        N
    }
    fn items(&self) -> Vec<(Option<usize>, E)> {
        self.iter().map(|e| (None, e.clone())).collect()
    }
    fn size(&self) -> usize {
        array_ops::HasLength::len(self)
    }
}
impl<E: Gen, const N: usize> Cont<E> for SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    const K: &'static str = "sparse";
    fn cap() -> usize {
        N
    }
    fn items(&self) -> Vec<(Option<usize>, E)> {
        self.entries().map(|(i, e)| (Some(i), e.clone())).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
list!("inline", [T: 'static], InlineArray<E, T>, InlineArray::<E, T>::CAPACITY);

fn cap_num(c: usize) -> i32 {
    if c == usize::MAX { 1_000_000 } else { c as i32 }
}
fn one<E: Gen, C: Cont<E>>(ctx: &mut Ctx, bytes: &[i32]) {
    let data: Vec<u8> = bytes.iter().map(|b| *b as u8).collect();
    for rest in [false, true] {
        static ARB: &str = "arb";
        static REST: &str = "rest";
        ctx.begin(if rest { &REST } else { &ARB });
        led::reset();
        led::start_op();
        let mut u = Unstructured::new(&data);
        let res = catch_unwind(AssertUnwindSafe(|| if rest { C::arbitrary_take_rest(Unstructured::new(&data)) } else { C::arbitrary(&mut u) }));
        let used = if rest { -1 } else { (data.len() - u.len()) as i32 };
        let made = led::LED.with(|l| l.borrow().parent.len() as u32);
        let log = led::take_log();
        let mut rec = Rec { k: C::K, op: if rest { REST } else { ARB }, n: cap_num(C::cap()), s: bytes.to_vec(), e: vec![E::KIND], p: res.is_err() as i32, r: vec![used], ..Rec::default() };
        let mut inside = vec![];
        match &res {
            Ok(Ok(c)) => {
                let size = c.size();
                let items = c.items();
                rec.a = items.iter().flat_map(|(i, e)| i.map(|i| i as i32).into_iter().chain([e.val()])).collect();
                if items.len() != size {
                    rec.a.push(-999);
                }
                // the items are clones: their parents are what the container holds
                inside = items.iter().filter_map(|(_, e)| e.id().map(led::parent)).collect();
            }
            Ok(Err(_)) => rec.y = 1,
            Err(_) => {}
        }
        let wrong = (1..made).filter(|id| log.iter().filter(|d| *d == id).count() + inside.iter().filter(|d| *d == id).count() != 1).count();
        rec.o = vec![wrong as i32];
        ctx.add(rec);
    }
}
fn cases<E: Gen, C: Cont<E>>(ctx: &mut Ctx, cases: &[Case]) {
    if ctx.walk(0) {
        static HINT: &str = "hint";
        ctx.begin(&HINT);
        let h = catch_unwind(|| (C::size_hint(0), C::size_hint(1)));
        let mut rec = Rec { k: C::K, op: HINT, n: cap_num(C::cap()), e: vec![E::KIND], p: h.is_err() as i32, ..Rec::default() };
        if let Ok((a, b)) = h {
            rec.r = vec![a.0 as i32, a.1.map_or(-1, |x| x.min(1_000_000_000) as i32), (a == b) as i32];
        }
        ctx.add(rec);
    }
    for (w, c) in cases.iter().enumerate() {
        let n = cap_num(C::cap()).min(4); // unlimited ones run all strings
        if c.names[0] == E::NAME && c.nums[0][0] == n && (c.nums[0][1] == 1) == (C::K == "sparse") && ctx.walk(w + 1) {
            one::<E, C>(ctx, &c.nums[1]);
        }
    }
}
fn random<E: Gen, C: Cont<E>>(ctx: &mut Ctx, walks: usize) {
    for w in 0..walks {
        if !ctx.walk(w) {
            continue;
        }
        let mut rng = Rng::new(ctx.args.seed, w as u64, hash_name(ctx.name));
        let len = rng.below(5 * C::cap().min(60) + 3);
        let odd = [2, 5, 20][rng.below(3)];
        let bytes: Vec<i32> = (0..len).map(|_| { let b = rng.below(256) as i32; if rng.below(odd) > 0 { b | 1 } else { b } }).collect();
        one::<E, C>(ctx, &bytes);
    }
}
fn main() {
    let args = args();
    let all = vh::cases::load(&args);
    let walks = args.walks;
    let mut jobs = vec![];
    macro_rules! small { ($($e:ty, $c:ty);* $(;)?) => {$(
        let name = format!("{}/cases/{}/{}", <$c as Cont<$e>>::K, <$e>::NAME, cap_num(<$c as Cont<$e>>::cap()));
        let c = all.clone();
        jobs.push(job(name, move |x| cases::<$e, $c>(x, &c)));
    )*} }
    macro_rules! big { ($($e:ty, $c:ty);* $(;)?) => {$(
        let name = format!("{}/random/{}/{}", <$c as Cont<$e>>::K, <$e>::NAME, cap_num(<$c as Cont<$e>>::cap()));
        jobs.push(job(name, move |x| random::<$e, $c>(x, walks)));
    )*} }
    macro_rules! kinds { ($($n:literal),*) => {$(
        small!(u8, Chunk<u8, $n>; u16, Chunk<u16, $n>; (), Chunk<(), $n>; bool, Chunk<bool, $n>; Pick, Chunk<Pick, $n>;
               u8, RingBuffer<u8, $n>; u16, RingBuffer<u16, $n>; (), RingBuffer<(), $n>; bool, RingBuffer<bool, $n>; Pick, RingBuffer<Pick, $n>;
               u8, SparseChunk<u8, $n>; u16, SparseChunk<u16, $n>; (), SparseChunk<(), $n>; bool, SparseChunk<bool, $n>; Pick, SparseChunk<Pick, $n>;
               u8, InlineArray<u8, [u8; 8 + $n]>; u16, InlineArray<u16, [u16; 4 + $n]>; bool, InlineArray<bool, [u8; 8 + $n]>; Pick, InlineArray<Pick, [u64; 1 + 2 * $n]>);
    )*} }
    kinds!(1, 2, 3);
    small!(u8, InlineArray<u8, [u8; 8]>; Pick, InlineArray<Pick, [u64; 1]>; u16, InlineArray<u16, [u8; 9]>; (), InlineArray<(), usize>);
    big!(u8, Chunk<u8, 64>; u16, Chunk<u16, 33>; Pick, Chunk<Pick, 20>; u8, RingBuffer<u8, 64>; u16, RingBuffer<u16, 33>; Pick, RingBuffer<Pick, 20>;
         u8, SparseChunk<u8, 64>; u16, SparseChunk<u16, 33>; Pick, SparseChunk<Pick, 20>; u8, SparseChunk<u8, 129>; u8, InlineArray<u8, [u64; 9]>; Pick, InlineArray<Pick, [u64; 50]>);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
