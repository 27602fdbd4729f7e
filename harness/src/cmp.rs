//! Comparisons, hashing and printing (CmpSpec): all pairs of operands for every pair of types.
use crate::cases::Case;
use crate::place;
use crate::rec::Rec;
use crate::rt::{Ctx, Rng};
use sized_chunks::inline_array::InlineArray;
use sized_chunks::{Chunk, RingBuffer, SparseChunk};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Val: PartialEq + PartialOrd + Clone + Debug + 'static {
    const NAN: bool;
    fn of(v: i32) -> Self;
}
impl Val for f64 {
    const NAN: bool = true;
    fn of(v: i32) -> f64 {
        if v == 0 { f64::NAN } else { v as f64 }
    }
}
impl Val for i32 {
    const NAN: bool = false;
    fn of(v: i32) -> i32 {
        v
    }
}
pub const UNORD: i32 = 9;
pub fn ord(o: Option<std::cmp::Ordering>) -> i32 {
    o.map_or(UNORD, |o| o as i32)
}

/// what an operand is made of (see MCCmp)
#[derive(Clone, Debug)]
pub struct Opd {
    pub pl: Vec<i32>,
    pub v: Vec<i32>,
}
impl Opd {
    fn pl(&self, i: usize) -> i32 {
        self.pl.get(i).copied().unwrap_or(0)
    }
}
pub fn operands(cases: &[Case], kind: &str, n: usize) -> Vec<Opd> {
    cases.iter().filter(|c| c.names[0] == kind && c.nums[0][0] == n as i32).map(|c| Opd { pl: c.nums[0].clone(), v: c.nums[1].clone() }).collect()
}
pub struct Item<C> {
    pub c: C,
    pub v: Vec<i32>,
    pub w: std::ops::Range<usize>,
}
fn vals<E: Val>(v: &[i32]) -> Vec<E> {
    v.iter().map(|x| E::of(*x)).collect()
}
pub fn chunks<E: Val, const N: usize>(o: &[Opd]) -> Vec<Item<Chunk<E, N>>> {
    o.iter().map(|o| Item { c: place::chunk(o.pl(1), vals(&o.v), || E::of(77)), w: 0..o.v.len(), v: o.v.clone() }).collect()
}
pub fn rings<E: Val, const N: usize>(o: &[Opd]) -> Vec<Item<RingBuffer<E, N>>> {
    o.iter()
        .map(|o| {
            let (lo, tr) = (o.pl(2) as usize, o.pl(3) as usize);
            let mut all = vec![77; lo];
            all.extend(&o.v);
            all.extend(vec![78; tr]);
            Item { c: place::ring(o.pl(1), vals(&all), || E::of(79)), w: lo..lo + o.v.len(), v: o.v.clone() }
        })
        .collect()
}
pub fn inlines<E: Val, T>(o: &[Opd]) -> Vec<Item<InlineArray<E, T>>> {
    o.iter()
        .map(|o| {
            let mut c = InlineArray::new();
            // leave something behind in the unused slots
            while c.len() < InlineArray::<E, T>::CAPACITY {
                c.push(E::of(77));
            }
            c.clear();
            c.extend(vals::<E>(&o.v));
            Item { c, w: 0..o.v.len(), v: o.v.clone() }
        })
        .collect()
}
pub fn vecs<E: Val>(o: &[Opd]) -> Vec<Item<Vec<E>>> {
    o.iter().map(|o| Item { c: vals(&o.v), w: 0..o.v.len(), v: o.v.clone() }).collect()
}
pub fn arrays<E: Val, const L: usize>(o: &[Opd]) -> Vec<Item<[E; L]>> {
    o.iter().filter(|o| o.v.len() == L).map(|o| Item { c: std::array::from_fn(|i| E::of(o.v[i])), w: 0..L, v: o.v.clone() }).collect()
}
fn pairs(v: &[i32]) -> impl Iterator<Item = (usize, i32)> + '_ {
    v.chunks(2).map(|p| (p[0] as usize, p[1]))
}
pub fn maps<E: Val, M: Default + Extend<(usize, E)>>(o: &[Opd]) -> Vec<Item<M>> {
    o.iter()
        .map(|o| {
            let mut m = M::default();
            m.extend(pairs(&o.v).map(|(k, v)| (k, E::of(v))));
            Item { c: m, w: 0..0, v: o.v.clone() }
        })
        .collect()
}
/// Runs a comparison on every pair of items.
#[macro_export]
macro_rules! compare {
    // $x, $y: names of the items within the expression, which gives the results
    ($ctx:expr, $nan:expr, $op:expr, $k:expr, $code:expr, $as:expr, $bs:expr, |$x:ident, $y:ident| $($r:tt)*) => {{
        let (mut xs, mut ys) = ($as, $bs);
        for (i, $x) in xs.iter_mut().enumerate() {
            if !$ctx.walk(i) {
                continue;
            }
            for $y in ys.iter_mut() {
                static NAME: &str = $op;
                $ctx.begin(&NAME);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Vec<i32> { $($r)* }));
                $ctx.add($crate::cmp::rec($k, $op, $nan, $code, &$x.v, &$y.v, res.ok()));
            }
        }
    }};
}
pub fn rec(k: &'static str, op: &'static str, nan: bool, code: i32, v: &[i32], w: &[i32], r: Option<Vec<i32>>) -> Rec {
    Rec { k, op, n: 0, m: 0, cls: nan as u8, x: code, s: v.to_vec(), pre: w.to_vec(), p: r.is_none() as i32, r: r.unwrap_or_default(), ..Rec::default() }
}

/// remembers every call made to it
#[derive(Default, PartialEq)]
struct Feed(Vec<u8>);
impl Hasher for Feed {
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
pub fn hashes(a: &(impl Hash + ?Sized), b: &(impl Hash + ?Sized)) -> Vec<i32> {
    let (mut f, mut g) = (Feed::default(), Feed::default());
    a.hash(&mut f);
    b.hash(&mut g);
    let (mut h, mut i) = (DefaultHasher::new(), DefaultHasher::new());
    a.hash(&mut h);
    b.hash(&mut i);
    vec![(f == g) as i32, (h.finish() == i.finish()) as i32]
}
fn numbers(s: &str) -> Vec<i32> {
    s.split(|c: char| !c.is_ascii_digit() && c != '-').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap_or(-777)).collect()
}
/// the numbers printed, plain and pretty
pub fn debugs(ctx: &mut Ctx, k: &'static str, v: &[i32], a: &impl Debug) {
    static NAME: &str = "debug";
    ctx.begin(&NAME);
    for pretty in [false, true] {
        let r = catch_unwind(AssertUnwindSafe(|| numbers(&if pretty { format!("{:#?}", a) } else { format!("{:?}", a) })));
        ctx.add(rec(k, NAME, false, pretty as i32, v, &[], r.ok()));
    }
}

pub fn sparses<E: Val, const N: usize>(o: &[Opd]) -> Vec<Item<SparseChunk<E, N>>>
where
    bitmaps::BitsImpl<N>: bitmaps::Bits,
{
    o.iter()
        .map(|o| {
            let mut c = SparseChunk::new();
            if o.pl(1) == 1 {
                for i in 0..N {
                    c.insert(i, E::of(77));
                }
                for i in (0..N).rev() {
                    if !pairs(&o.v).any(|(k, _)| k == i) {
                        c.remove(i);
                    }
                }
            }
            for (k, v) in pairs(&o.v) {
                c.insert(k, E::of(v));
            }
            Item { c, w: 0..0, v: o.v.clone() }
        })
        .collect()
}

/// Variations of one contents: alike, one value changed, longer, shorter, moved.
pub fn random_lists(rng: &mut Rng, n: usize, slice: bool, count: usize) -> Vec<Opd> {
    let len = if rng.below(3) == 0 { n } else { rng.below(n + 1) };
    let base: Vec<i32> = (0..len).map(|_| rng.below(3) as i32 + (rng.below(30) != 0) as i32).collect();
    (0..count)
        .map(|_| {
            let mut v = base.clone();
            match rng.below(6) {
                0 | 1 if !v.is_empty() => {
                    let i = if rng.below(2) == 0 { v.len() - 1 } else { rng.below(v.len()) };
                    v[i] = rng.below(4) as i32;
                }
                2 => v.truncate(rng.below(n + 1)),
                3 => {
                    let i = rng.below(v.len() + 1);
                    if v.len() < n {
                        v.insert(i, rng.below(3) as i32);
                    }
                }
                _ => {}
            }
            let room = n - v.len();
            let (lo, tr) = if slice { let lo = rng.below(room + 1); (lo, rng.below(room - lo + 1)) } else { (0, 0) };
            Opd { pl: vec![n as i32, rng.below(if slice { n } else { room + 1 }.max(1)) as i32, lo as i32, tr as i32], v }
        })
        .collect()
}
pub fn random_maps(rng: &mut Rng, n: usize, extra: usize, count: usize) -> Vec<Opd> {
    let want = [0, 1, 2, n / 2, n, rng.below(n + 1)][rng.below(6)].min(40);
    let near = rng.below(2) == 0;
    let mut base = std::collections::BTreeMap::new();
    for _ in 0..want {
        let k = if near { (n - 1).saturating_sub(rng.below(6)) } else { rng.below(n) };
        base.insert(k as i32, 1 + rng.below(3) as i32);
    }
    (0..count)
        .map(|_| {
            let mut m = base.clone();
            let k = rng.below(n + extra) as i32;
            let have: Vec<i32> = m.keys().copied().collect();
            match rng.below(6) {
                0 => drop(m.insert(k, rng.below(4) as i32)),
                1 if !have.is_empty() => drop(m.remove(&have[rng.below(have.len())])),
                2 if !have.is_empty() => drop(m.insert(have[rng.below(have.len())], rng.below(4) as i32)),
                3 if !have.is_empty() => {
                    let v = m.remove(&have[rng.below(have.len())]).unwrap();
                    m.insert(k, v);
                }
                _ => {}
            }
            Opd { pl: vec![n as i32, rng.below(2) as i32], v: m.into_iter().flat_map(|(k, v)| [k, v]).collect() }
        })
        .collect()
}
