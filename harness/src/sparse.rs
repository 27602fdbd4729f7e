//! SparseChunk driven by operations of SparseSpec.
use crate::elem::Elem;
use crate::graph::Op;
use crate::rt::Rng;
use crate::seqc::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk;
use std::marker::PhantomData;

fn num<E>(k: usize) -> Ret<E> {
    Ret::Num(-10 - k.min(900_000) as i32)
}

impl<E: Elem, const N: usize> Lst<E> for SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    fn cap() -> usize { N }
    fn make() -> Self { SparseChunk::new() }
    fn ln(&self) -> usize { self.len() }
    fn emp(&self) -> bool { self.is_empty() }
    fn ful(&self) -> bool { self.is_full() }
    fn at(&self, i: usize) -> &E { self.iter().nth(i).unwrap() }
    fn at_mut(&mut self, i: usize) -> &mut E { self.iter_mut().nth(i).unwrap() }
    fn via_iter(&self) -> Vec<u32> { self.iter().take(N + 8).map(|e| e.id()).collect() }
    fn entries(&self) -> (Vec<i32>, Vec<u32>) {
        let mut p = vec![];
        let mut v = vec![];
        for i in 0..N {
            if let Some(e) = self.get(i) {
                p.push(i as i32);
                v.push(e.id());
            }
        }
        (p, v)
    }
    fn views(&self, ids: &[u32]) -> bool {
        let (pos, _) = Lst::<E>::entries(self);
        let idx: Vec<usize> = pos.iter().map(|p| *p as usize).collect();
        Self::CAPACITY == N
            && eqi(ids, self.iter())
            && self.indices().take(N + 8).collect::<Vec<_>>() == idx
            && self.first_index() == idx.first().copied()
            && self.entries().take(N + 8).map(|e| e.0).collect::<Vec<_>>() == idx
            && eqi(ids, self.entries().map(|e| e.1))
            && self.option_iter().take(N + 8).count() == N
            && self.option_iter().enumerate().all(|(i, e)| e.map(|e| e.id()) == self.get(i).map(|e| e.id()))
            && idx.iter().zip(ids).all(|(i, e)| self[*i].id() == *e && unsafe { self.get_unchecked(*i) }.id() == *e)
            && self.get(N).is_none() && self.get(usize::MAX).is_none() && self.get(N + 64).is_none()
    }
}

/// Runs a forward iterator script (SparseSpec).
fn script<E, I: Iterator>(mut it: I, s: &[i32], h: &mut Held<E>, mut f: impl FnMut(I::Item, &mut Held<E>)) {
    for &a in s {
        match a {
            1 | 3 | 10 | 11 => {
                match if a == 1 { it.next() } else { it.nth(match a { 3 => 1, 10 => usize::MAX, _ => 2 }) } {
                    Some(x) => f(x, h),
                    None => h.push(Ret::Nothing),
                }
                let (lo, hi) = it.size_hint();
                h.push(Ret::Num(lo.min(999_999) as i32));
                h.push(Ret::Num(hi.map(|x| x.min(999_999) as i32).unwrap_or(-2)));
            }
            18 | 20 | 25 => {
                let mut k = 0;
                let mut second = || {
                    k += 1;
                    k == 2
                };
                match a {
                    18 => match it.find(|_| second()) {
                        Some(x) => f(x, h),
                        None => h.push(Ret::Nothing),
                    },
                    20 => {
                        it.any(|x| {
                            f(x, h);
                            second()
                        });
                    }
                    _ => h.push(num(it.position(|_| second()).map(|p| p + 1).unwrap_or(0))),
                }
                let (lo, hi) = it.size_hint();
                h.push(Ret::Num(lo.min(999_999) as i32));
                h.push(Ret::Num(hi.map(|x| x.min(999_999) as i32).unwrap_or(-2)));
            }
            22 | 26 => {
                match if a == 22 { it.reduce(|_, b| b) } else { it.min_by(|_, _| std::cmp::Ordering::Equal) } {
                    Some(x) => f(x, h),
                    None => h.push(Ret::Nothing),
                }
                return;
            }
            5 => {
                let n = it.count();
                h.push(num(n));
                return;
            }
            6 => {
                match it.last() {
                    Some(x) => f(x, h),
                    None => h.push(Ret::Nothing),
                }
                return;
            }
            7 => {
                let mut n = 0;
                while let Some(x) = it.next() {
                    f(x, h);
                    n += 1;
                    if n > 5000 {
                        h.push(Ret::Num(-9));
                        break;
                    }
                }
                h.push(Ret::Num(-1));
                return;
            }
            12 | 16 => {
                let mut n = 0;
                let each = |x| {
                    f(x, h);
                    n += 1;
                    if n > 5000 {
                        panic!("runaway");
                    }
                };
                if a == 12 { it.for_each(each) } else { it.step_by(2).for_each(each) }
                h.push(Ret::Num(-1));
                return;
            }
            _ => return,
        }
    }
}

pub struct SparseK<E, const N: usize>(PhantomData<E>);
impl<E: Special, const N: usize> Kind<E> for SparseK<E, N>
where
    BitsImpl<N>: Bits,
{
    const K: &'static str = "sparse";
    type A = SparseChunk<E, N>;
    type B = SparseChunk<E, N>;
    fn lie(a: &mut Self::A, op: &Op, f: Vec<E>) {
        *a = Src::lying(f.into_iter().map(Some).collect(), claim_of(op.y)).collect();
    }
    fn apply(a: &mut Self::A, b: &mut Self::B, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
        let i = arg(op.x);
        let j = arg(op.y);
        match op.op {
            "new" => *a = SparseChunk::new(),
            "default" => *a = SparseChunk::default(),
            "unit" => *a = SparseChunk::unit(i, f.pop().unwrap()),
            "pair" => {
                let y = f.pop().unwrap();
                let x = f.pop().unwrap();
                *a = SparseChunk::pair(i, x, j, y)
            }
            "from_iter" => {
                let mut v: Vec<Option<E>> = vec![];
                let mut it = f.into_iter();
                let mut s = op.s.iter().peekable();
                for k in 0..op.x {
                    v.push(if s.peek() == Some(&&k) {
                        s.next();
                        it.next()
                    } else {
                        None
                    });
                }
                *a = Src::new(v).collect()
            }
            "insert" => {
                let x = a.insert(i, f.pop().unwrap());
                h.push(opt(x))
            }
            "remove" => {
                let x = a.remove(i);
                h.push(opt(x))
            }
            "pop" => {
                let x = a.pop();
                h.push(opt(x))
            }
            "get" => h.push(see(a.get(i))),
            "get_mut" => {
                let x = f.pop().unwrap();
                let p = match j {
                    0 => a.get_mut(i),
                    1 if a.get(i).is_some() => Some(unsafe { a.get_unchecked_mut(i) }),
                    1 => None,
                    2 => a.option_iter_mut().nth(i).flatten(),
                    _ => match a.indices().position(|k| k == i) {
                        Some(k) => a.iter_mut().nth(k),
                        None => None,
                    },
                };
                match p {
                    Some(p) => h.push(Ret::Val(std::mem::replace(p, x))),
                    None => h.push(Ret::Nothing),
                }
            }
            "index" => h.push(sn(a[i].id())),
            "index_mut" => {
                let x = f.pop().unwrap();
                a[i] = x
            }
            "first_index" => h.push(match a.first_index() {
                Some(k) => num(k),
                None => Ret::Nothing,
            }),
            "clone" => *b = a.clone(),
            "clone_from" => b.clone_from(a),
            "pool_clone" => {
                let pool: refpool::Pool<Self::A> = refpool::Pool::new(2);
                let r = refpool::PoolRef::clone_from(&pool, a);
                let (p, ids) = Lst::<E>::entries(&*r);
                if Lst::<E>::ln(&*r) != ids.len() || !Lst::<E>::views(&*r, &ids) {
                    h.push(Ret::Num(-5));
                }
                for (p, id) in p.into_iter().zip(ids) {
                    h.push(num(p as usize));
                    h.push(sn(id));
                }
                drop(r);
            }
            "pool_default" => {
                let pool: refpool::Pool<Self::A> = refpool::Pool::new(2);
                drop(refpool::PoolRef::clone_from(&pool, a)); // leaves used memory in the pool
                let r = refpool::PoolRef::default(&pool);
                if Lst::<E>::ln(&*r) != 0 || !r.is_empty() || r.is_full() {
                    h.push(Ret::Num(-5));
                }
                h.extend(Lst::<E>::via_iter(&*r).into_iter().map(sn));
            }
            "exchange" => std::mem::swap(a, b),
            "drop_all" => {
                *a = SparseChunk::new();
                *b = SparseChunk::new();
            }
            "sp_ref" => script(a.iter(), &op.s, h, |e, h| h.push(sn(e.id()))),
            "sp_indices" => script(a.indices(), &op.s, h, |k, h| h.push(num(k))),
            "sp_entries" => script(a.entries(), &op.s, h, |(k, e), h| {
                h.push(num(k));
                h.push(sn(e.id()))
            }),
            "sp_opt" => script(a.option_iter(), &op.s, h, |e, h| {
                h.push(match e {
                    Some(e) => sn(e.id()),
                    None => Ret::Num(-5),
                })
            }),
            "sp_mut" => {
                f.reverse();
                script(a.iter_mut(), &op.s, h, |e, h| {
                    h.push(match f.pop() {
                        Some(x) => Ret::Val(std::mem::replace(e, x)),
                        None => sn(e.id()),
                    })
                })
            }
            "sp_optmut" => {
                f.reverse();
                script(a.option_iter_mut(), &op.s, h, |e, h| {
                    h.push(match e {
                        Some(e) => match f.pop() {
                            Some(x) => Ret::Val(std::mem::replace(e, x)),
                            None => sn(e.id()),
                        },
                        None => Ret::Num(-5),
                    })
                })
            }
            "sp_own" => {
                let c = std::mem::replace(a, SparseChunk::new());
                let it = if op.x == 0 { c.drain() } else { c.into_iter() };
                script(it, &op.s, h, |e, h| h.push(Ret::Val(e)))
            }
            "sp_optdrain" => {
                let c = std::mem::replace(a, SparseChunk::new());
                script(c.option_drain(), &op.s, h, |e, h| {
                    h.push(match e {
                        Some(e) => Ret::Val(e),
                        None => Ret::Num(-5),
                    })
                })
            }
            _ => panic!("unknown operation {}", op.op),
        }
    }
}

/// Random operation; indices near occupied ones, block boundaries of the bitmap and the end
pub fn random_op(rng: &mut Rng, ops: &[&'static str], n: usize, occ: &[i32]) -> Op {
    let op = ops[rng.below(ops.len())];
    let idx = |rng: &mut Rng, valid: bool| -> i32 {
        loop {
            let k = match rng.below(10) {
                0 => 0,
                1 => n as i32 - 1,
                2 => [n as i32, n as i32 + 1, BIG, n as i32 + 64][rng.below(4)],
                3 | 4 if !occ.is_empty() => occ[rng.below(occ.len())],
                5 => [31, 32, 63, 64, 127, 128, 255, 256][rng.below(8)],
                6 if !occ.is_empty() => (occ[rng.below(occ.len())] + 1).min(n as i32),
                _ => rng.below(n) as i32,
            };
            if !valid || k < n as i32 {
                return k;
            }
        }
    };
    let mut o = Op::new(op, 0, 0, 0);
    match op {
        "unit" | "insert" | "get_mut" | "index_mut" => {
            o.nf = 1;
            o.x = idx(rng, false);
            if op == "get_mut" {
                o.y = rng.below(4) as i32;
            }
        }
        "remove" | "get" | "index" => o.x = idx(rng, false),
        "pair" => {
            o.nf = 2;
            o.x = idx(rng, false);
            o.y = idx(rng, false);
        }
        "from_iter" => {
            let lim = n as i32 + if rng.below(4) == 0 { 2 } else { 0 };
            let dense = 1 + rng.below(8);
            o.x = rng.below(lim as usize + 1) as i32;
            for k in 0..o.x {
                if rng.below(dense) == 0 && o.s.len() < 100 {
                    o.s.push(k)
                }
            }
            o.nf = o.s.len() as i32;
        }
        _ if op.starts_with("sp_") => {
            if op == "sp_mut" || op == "sp_optmut" {
                o.nf = occ.len() as i32
            }
            if op == "sp_own" {
                o.x = rng.below(2) as i32
            }
            let k = if rng.below(3) == 0 { rng.below((2 * occ.len() + 3).min(40)) } else { rng.below(5) };
            for _ in 0..k {
                o.s.push(match rng.below(15) { 0..=2 => 3, 3 => [10, 11, 18, 20, 25][rng.below(5)], _ => 1 });
            }
            let end = if op.starts_with("sp_opt") && n > 70 { [9, 9, 9, 9, 5, 5, 6] } else { [9, 6, 5, [7, 22][rng.below(2)], 12, 16, 26] };
            o.s.push(end[rng.below(7)]);
        }
        _ => {}
    }
    o
}
