//! Comparisons: every pair of the model's operands and random larger ones, for every pair of types.
use bitmaps::{Bits, BitsImpl};
use sized_chunks::inline_array::InlineArray;
use std::collections::{BTreeMap, HashMap};
use vh::cmp::*;
use vh::compare;
use vh::rt::*;

/// where operands come from: (kind, capacity) -> operands
type Src<'a> = &'a mut dyn FnMut(&str, usize) -> Vec<Opd>;

// codes of the right hand side types
const CHUNK: i32 = 1;
const CHUNK2: i32 = 2;
const INLINE: i32 = 3;
const VEC: i32 = 4;
const SLICE: i32 = 5;
const ARRAY: i32 = 6;
const RING: i32 = 7;
const RSLICE: i32 = 8;
const RSLICEMUT: i32 = 9;
const SPARSE: i32 = 10;
const BTREE: i32 = 11;
const HASH: i32 = 12;

macro_rules! eq {
    ($ctx:expr, $e:ty, $k:expr, $code:expr, $as:expr, $bs:expr, |$x:ident| $a:expr, |$y:ident| $b:expr) => {
        compare!($ctx, <$e>::NAN, "eq", $k, $code, $as, $bs, |$x, $y| vec![($a == $b) as i32, ($a != $b) as i32, UNORD, UNORD])
    };
    ($ctx:expr, $e:ty, $k:expr, $code:expr, $as:expr, $bs:expr, |$x:ident| $a:expr, |$y:ident| $b:expr, both) => {
        compare!($ctx, <$e>::NAN, "eq", $k, $code, $as, $bs, |$x, $y| vec![($a == $b) as i32, ($a != $b) as i32, ($b == $a) as i32, ($b != $a) as i32])
    };
}
macro_rules! pord {
    ($ctx:expr, $e:ty, $k:expr, $as:expr, |$x:ident| $a:expr, |$y:ident| $b:expr) => {
        compare!($ctx, <$e>::NAN, "ord", $k, 0, $as, $as, |$x, $y| {
            let p = ord(PartialOrd::partial_cmp(&$a, &$b));
            vec![p, ($a < $b) as i32, ($a <= $b) as i32, ($a > $b) as i32, ($a >= $b) as i32]
        })
    };
}
macro_rules! total {
    ($ctx:expr, $k:expr, $as:expr, |$x:ident| $a:expr, |$y:ident| $b:expr) => {
        compare!($ctx, false, "cmp", $k, 0, $as, $as, |$x, $y| vec![Ord::cmp(&$a, &$b) as i32])
    };
}
macro_rules! hash {
    ($ctx:expr, $k:expr, $code:expr, $as:expr, $bs:expr, |$x:ident| $a:expr, |$y:ident| $b:expr) => {
        compare!($ctx, false, "hash", $k, $code, $as, $bs, |$x, $y| hashes($a, $b))
    };
}

// the inline arrays' capacity has to be at least the longest contents
fn contiguous<E: Val, const N: usize, const M: usize, T, U>(ctx: &mut Ctx, src: Src) {
    let c = src("chunk", N);
    let i = src("inline", N);
    eq!(ctx, E, "chunk", CHUNK, chunks::<E, N>(&c), chunks::<E, N>(&c), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "chunk", CHUNK2, chunks::<E, N>(&c), chunks::<E, M>(&c), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "chunk", INLINE, chunks::<E, N>(&c), inlines::<E, T>(&i), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "chunk", VEC, chunks::<E, N>(&c), vecs::<E>(&i), |x| x.c, |y| y.c);
    eq!(ctx, E, "chunk", SLICE, chunks::<E, N>(&c), vecs::<E>(&i), |x| x.c, |y| &y.c[..]);
    eq!(ctx, E, "chunk", ARRAY, chunks::<E, N>(&c), arrays::<E, 2>(&i), |x| x.c, |y| y.c);
    pord!(ctx, E, "chunk", chunks::<E, N>(&c), |x| x.c, |y| y.c);
    eq!(ctx, E, "inline", INLINE, inlines::<E, T>(&i), inlines::<E, T>(&i), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "inline", INLINE, inlines::<E, T>(&i), inlines::<E, U>(&i), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "inline", VEC, inlines::<E, T>(&i), vecs::<E>(&i), |x| x.c, |y| y.c);
    eq!(ctx, E, "inline", SLICE, inlines::<E, T>(&i), vecs::<E>(&i), |x| x.c, |y| &y.c[..]);
    eq!(ctx, E, "inline", ARRAY, inlines::<E, T>(&i), arrays::<E, 2>(&i), |x| x.c, |y| y.c);
    pord!(ctx, E, "inline", inlines::<E, T>(&i), |x| x.c, |y| y.c);
}
fn contiguous_total<const N: usize, const M: usize, T>(ctx: &mut Ctx, src: Src) {
    let c = src("chunk", N);
    let i = src("inline", N);
    total!(ctx, "chunk", chunks::<i32, N>(&c), |x| x.c, |y| y.c);
    total!(ctx, "inline", inlines::<i32, T>(&i), |x| x.c, |y| y.c);
    hash!(ctx, "chunk", CHUNK, chunks::<i32, N>(&c), chunks::<i32, N>(&c), |x| &x.c, |y| &y.c);
    hash!(ctx, "chunk", CHUNK2, chunks::<i32, N>(&c), chunks::<i32, M>(&c), |x| &x.c, |y| &y.c);
    hash!(ctx, "chunk", SLICE, chunks::<i32, N>(&c), vecs::<i32>(&i), |x| &x.c, |y| &y.c[..]);
    hash!(ctx, "inline", INLINE, inlines::<i32, T>(&i), inlines::<i32, T>(&i), |x| &x.c, |y| &y.c);
    hash!(ctx, "inline", SLICE, inlines::<i32, T>(&i), vecs::<i32>(&i), |x| &x.c, |y| &y.c[..]);
    hash!(ctx, "inline", CHUNK, inlines::<i32, T>(&i), chunks::<i32, N>(&c), |x| &x.c, |y| &y.c);
    for x in chunks::<i32, N>(&c) {
        debugs(ctx, "chunk", &x.v, &x.c);
    }
    for x in inlines::<i32, T>(&i) {
        debugs(ctx, "inline", &x.v, &x.c);
    }
}
fn ring<E: Val, const N: usize, const M: usize, T>(ctx: &mut Ctx, src: Src) {
    let r = src("ring", N);
    let s = src("slice", N);
    let c = src("chunk", N);
    let i = src("inline", N);
    eq!(ctx, E, "ring", RING, rings::<E, N>(&r), rings::<E, N>(&r), |x| x.c, |y| y.c, both);
    eq!(ctx, E, "ring", CHUNK, rings::<E, N>(&r), chunks::<E, N>(&c), |x| x.c, |y| y.c);
    eq!(ctx, E, "ring", CHUNK2, rings::<E, N>(&r), chunks::<E, M>(&c), |x| x.c, |y| y.c);
    eq!(ctx, E, "ring", INLINE, rings::<E, N>(&r), inlines::<E, T>(&i), |x| x.c, |y| y.c);
    eq!(ctx, E, "ring", VEC, rings::<E, N>(&r), vecs::<E>(&i), |x| x.c, |y| y.c);
    eq!(ctx, E, "ring", SLICE, rings::<E, N>(&r), vecs::<E>(&i), |x| x.c, |y| &y.c[..]);
    eq!(ctx, E, "ring", ARRAY, rings::<E, N>(&r), arrays::<E, 2>(&i), |x| x.c, |y| y.c);
    eq!(ctx, E, "ring", RSLICE, rings::<E, N>(&r), rings::<E, N>(&s), |x| x.c, |y| y.c.slice(y.w.clone()), both);
    eq!(ctx, E, "ring", RSLICEMUT, rings::<E, N>(&r), rings::<E, N>(&s), |x| x.c, |y| y.c.slice_mut(y.w.clone()), both);
    pord!(ctx, E, "ring", rings::<E, N>(&r), |x| x.c, |y| y.c);
    macro_rules! side {
        ($k:expr, $m:ident) => {
            eq!(ctx, E, $k, RSLICE, rings::<E, N>(&s), rings::<E, N>(&s), |x| x.c.$m(x.w.clone()), |y| y.c.slice(y.w.clone()), both);
            eq!(ctx, E, $k, RSLICEMUT, rings::<E, N>(&s), rings::<E, N>(&s), |x| x.c.$m(x.w.clone()), |y| y.c.slice_mut(y.w.clone()), both);
            eq!(ctx, E, $k, CHUNK, rings::<E, N>(&s), chunks::<E, N>(&c), |x| x.c.$m(x.w.clone()), |y| y.c);
            eq!(ctx, E, $k, INLINE, rings::<E, N>(&s), inlines::<E, T>(&i), |x| x.c.$m(x.w.clone()), |y| y.c);
            eq!(ctx, E, $k, VEC, rings::<E, N>(&s), vecs::<E>(&i), |x| x.c.$m(x.w.clone()), |y| y.c);
            eq!(ctx, E, $k, SLICE, rings::<E, N>(&s), vecs::<E>(&i), |x| x.c.$m(x.w.clone()), |y| &y.c[..]);
            eq!(ctx, E, $k, ARRAY, rings::<E, N>(&s), arrays::<E, 2>(&i), |x| x.c.$m(x.w.clone()), |y| y.c);
            pord!(ctx, E, $k, rings::<E, N>(&s), |x| x.c.$m(x.w.clone()), |y| y.c.$m(y.w.clone()));
        };
    }
    side!("slice", slice);
    side!("slicemut", slice_mut);
}
fn ring_total<const N: usize>(ctx: &mut Ctx, src: Src) {
    let r = src("ring", N);
    let s = src("slice", N);
    total!(ctx, "ring", rings::<i32, N>(&r), |x| x.c, |y| y.c);
    total!(ctx, "slice", rings::<i32, N>(&s), |x| x.c.slice(x.w.clone()), |y| y.c.slice(y.w.clone()));
    total!(ctx, "slicemut", rings::<i32, N>(&s), |x| x.c.slice_mut(x.w.clone()), |y| y.c.slice_mut(y.w.clone()));
    hash!(ctx, "ring", RING, rings::<i32, N>(&r), rings::<i32, N>(&r), |x| &x.c, |y| &y.c);
    hash!(ctx, "ring", RSLICE, rings::<i32, N>(&r), rings::<i32, N>(&s), |x| &x.c, |y| &y.c.slice(y.w.clone()));
    hash!(ctx, "ring", RSLICEMUT, rings::<i32, N>(&r), rings::<i32, N>(&s), |x| &x.c, |y| &y.c.slice_mut(y.w.clone()));
    hash!(ctx, "slice", RSLICE, rings::<i32, N>(&s), rings::<i32, N>(&s), |x| &x.c.slice(x.w.clone()), |y| &y.c.slice(y.w.clone()));
    hash!(ctx, "slicemut", RSLICEMUT, rings::<i32, N>(&s), rings::<i32, N>(&s), |x| &x.c.slice_mut(x.w.clone()), |y| &y.c.slice_mut(y.w.clone()));
    for x in rings::<i32, N>(&r) {
        debugs(ctx, "ring", &x.v, &x.c);
    }
    for mut x in rings::<i32, N>(&s) {
        debugs(ctx, "slice", &x.v, &x.c.slice(x.w.clone()));
        debugs(ctx, "slicemut", &x.v, &x.c.slice_mut(x.w.clone()));
    }
}
fn sparse<E: Val, const N: usize>(ctx: &mut Ctx, src: Src)
where
    BitsImpl<N>: Bits,
{
    let s = src("sparse", N);
    let m = src("map", N);
    compare!(ctx, E::NAN, "speq", "sparse", SPARSE, sparses::<E, N>(&s), sparses::<E, N>(&s), |x, y| vec![(x.c == y.c) as i32, (x.c != y.c) as i32, UNORD, UNORD]);
    compare!(ctx, E::NAN, "speq", "sparse", BTREE, sparses::<E, N>(&s), maps::<E, BTreeMap<usize, E>>(&m), |x, y| vec![(x.c == y.c) as i32, (x.c != y.c) as i32, UNORD, UNORD]);
    compare!(ctx, E::NAN, "speq", "sparse", HASH, sparses::<E, N>(&s), maps::<E, HashMap<usize, E>>(&m), |x, y| vec![(x.c == y.c) as i32, (x.c != y.c) as i32, UNORD, UNORD]);
    if !E::NAN {
        for x in sparses::<i32, N>(&s) {
            debugs(ctx, "sparse", &x.v, &x.c);
        }
    }
}

type F64s<const K: usize> = [u64; K];
type Inl<T> = InlineArray<f64, T>;

fn main() {
    let args = args();
    let cases = vh::cases::load(&args);
    let walks = args.walks;
    let mut jobs = vec![];
    assert!(Inl::<F64s<4>>::CAPACITY == 3 && Inl::<F64s<6>>::CAPACITY == 5);
    macro_rules! model {
        ($name:expr, $n:expr, $f:expr) => {
            if wanted(&args, $name) {
                let c = cases.clone();
                jobs.push(job($name.to_string(), move |x| $f(x, &mut |k, n| operands(&c, k, n))));
            }
        };
    }
    model!("cmp/pairs/contiguous/f64", 3, contiguous::<f64, 3, 4, F64s<4>, F64s<6>>);
    model!("cmp/pairs/contiguous/i32", 3, contiguous::<i32, 3, 8, F64s<3>, [u32; 7]>);
    model!("cmp/pairs/contotal/i32", 3, contiguous_total::<3, 5, F64s<3>>);
    model!("cmp/pairs/ring/f64", 3, ring::<f64, 3, 5, F64s<4>>);
    model!("cmp/pairs/ringtotal/i32", 3, ring_total::<3>);
    model!("cmp/pairs/sparse/f64", 3, sparse::<f64, 3>);
    model!("cmp/pairs/sparse/i32", 3, sparse::<i32, 3>);
    macro_rules! random {
        ($name:expr, $f:expr) => {
            if wanted(&args, $name) {
                jobs.push(job($name.to_string(), move |x| {
                    for w in 0..walks {
                        let mut rng = Rng::new(x.args.seed, w as u64, hash_name($name));
                        // both sides vary the same contents
                        let seed = rng.next();
                        let mut f = |k: &str, n: usize| {
                            let mut r = Rng::new(seed, 0, 0);
                            match k {
                                "sparse" | "map" => random_maps(&mut r, n, (k == "map") as usize * 3, 5),
                                "slice" => random_lists(&mut r, n, true, 5),
                                "ring" => random_lists(&mut r, n, true, 5).into_iter().map(|mut o| { o.pl.truncate(2); o }).collect(),
                                _ => random_lists(&mut r, n, false, 5),
                            }
                        };
                        $f(x, &mut f);
                    }
                }));
            }
        };
    }
    random!("cmp/random/contiguous/f64", contiguous::<f64, 20, 64, F64s<21>, F64s<32>>);
    random!("cmp/random/contotal/i32", contiguous_total::<20, 33, [u64; 11]>);
    random!("cmp/random/ring/f64", ring::<f64, 20, 33, F64s<21>>);
    random!("cmp/random/ringtotal/i32", ring_total::<20>);
    random!("cmp/random/sparse65/f64", sparse::<f64, 65>);
    random!("cmp/random/sparse129/i32", sparse::<i32, 129>);
    random!("cmp/random/sparse9/i32", sparse::<i32, 9>);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
