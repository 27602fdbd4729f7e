//! What the compiler says about sending and sharing every public type, and two threads using them (Threads).
use sized_chunks::ring_buffer::{Array, HasLength};
use sized_chunks::*;
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use vh::rec::Rec;
use vh::rt::*;

/// An inherent constant is preferred to one of a trait, but exists only if the bound holds.
#[allow(dead_code)]
struct Ask<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: i32 = 0;
    const SYNC: i32 = 0;
}
impl<T: ?Sized> No for Ask<T> {}
#[allow(dead_code)]
struct AskSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for AskSync<T> {}
impl<T: ?Sized + Send> Ask<T> {
    const SEND: i32 = 1;
}
impl<T: ?Sized + Sync> AskSync<T> {
    const SYNC: i32 = 1;
}
macro_rules! flags { ($t:ty) => { (Ask::<$t>::SEND, AskSync::<$t>::SYNC) }; }

/// Sync, not Send (as a lock guard is)
pub struct Stay(#[allow(dead_code)] *const u8);
unsafe impl Sync for Stay {}
pub struct Both(#[allow(dead_code)] u32);
type Go = Cell<u32>;
type Neither = Rc<u32>;

const OWN: i32 = 0;
const READ: i32 = 1;
const EXCL: i32 = 2;

fn main() {
    let args = args();
    let mut jobs = vec![];
    macro_rules! tell {
        ($x:ident, $e:ty, $h:ty, $k:expr, $($name:literal $form:ident $t:ty),* $(,)?) => {{
            let (es, ey) = flags!($e);
            let (hs, hy) = flags!($h);
            $(
                let (send, sync) = flags!($t);
                $x.add(Rec { k: $k, op: $name, n: $form, s: vec![es, ey, hs, hy], x: send, y: sync, ..Rec::default() });
            )*
        }};
    }
    macro_rules! types {
        ($x:ident, $e:ty, $n:literal) => {{
            tell!($x, $e, u8, "chunk",
                "chunk" OWN Chunk<$e, $n>, "chunk_iter" OWN sized_chunk::Iter<$e, $n>, "chunk_drain" EXCL sized_chunk::Drain<'static, $e, $n>,
                "chunk_ref" READ &'static Chunk<$e, $n>, "chunk_mut" EXCL &'static mut Chunk<$e, $n>);
            tell!($x, $e, u8, "ring",
                "ring" OWN RingBuffer<$e, $n>, "ring_owned" OWN ring_buffer::OwnedIter<$e, $n>, "ring_iter" READ ring_buffer::Iter<'static, $e, $n>,
                "ring_iter_mut" EXCL ring_buffer::IterMut<'static, $e, $n>, "ring_drain" EXCL ring_buffer::Drain<'static, $e, $n>,
                "ring_slice" READ ring_buffer::Slice<'static, $e, $n>, "ring_slice_mut" EXCL ring_buffer::SliceMut<'static, $e, $n>);
        }};
    }
    macro_rules! sparse {
        ($x:ident, $e:ty, $n:literal) => {{
            tell!($x, $e, u8, "sparse",
                "sparse" OWN SparseChunk<$e, $n>, "sparse_drain" OWN sparse_chunk::Drain<$e, $n>, "sparse_iter" READ sparse_chunk::Iter<'static, $e, $n>,
                "sparse_iter_mut" EXCL sparse_chunk::IterMut<'static, $e, $n>, "sparse_option_iter" READ sparse_chunk::OptionIter<'static, $e, $n>,
                "sparse_option_iter_mut" EXCL sparse_chunk::OptionIterMut<'static, $e, $n>, "sparse_option_drain" OWN sparse_chunk::OptionDrain<$e, $n>);
        }};
    }
    macro_rules! inline {
        ($x:ident, $e:ty, $h:ty) => {{
            tell!($x, $e, $h, "inline",
                "inline" OWN InlineArray<$e, $h>, "inline_iter" OWN inline_array::Iter<$e, $h>, "inline_drain" EXCL inline_array::Drain<'static, $e, $h>);
        }};
    }
    macro_rules! elems {
        ($($e:ty),*) => {$(
            jobs.push(job(concat!("thread/types/", stringify!($e)).to_string(), |x| {
                x.walk(0);
                static NAME: &str = "types";
                x.begin(&NAME);
                types!(x, $e, 0); types!(x, $e, 1); types!(x, $e, 7); types!(x, $e, 64);
                types!(x, Box<$e>, 3); types!(x, (u8, $e), 5);
                sparse!(x, $e, 1); sparse!(x, $e, 8); sparse!(x, $e, 64); sparse!(x, $e, 200); sparse!(x, Option<$e>, 130);
                inline!(x, $e, [u64; 4]); inline!(x, $e, u8); inline!(x, $e, [u128; 8]); inline!(x, Vec<$e>, [u64; 9]);
                inline!(x, $e, Both); inline!(x, $e, Go); inline!(x, $e, Stay); inline!(x, $e, Neither);
            }));
        )*};
    }
    elems!(Both, Go, Stay, Neither);
    let rounds = args.walks;
    macro_rules! use_ {
        ($k:literal, $n:literal, $make:expr, $read:expr, $iter:expr) => {
            jobs.push(job(format!("thread/use/{}/{}", $k, $n), move |x| {
                for w in 0..8usize {
                    x.walk(w);
                    static NAME: &str = "readers";
                    x.begin(&NAME);
                    // different lengths and places of the contents
                    let len = $n * (w % 4) / 3;
                    let items: Vec<String> = (0..len).map(|q| format!("{w}-{q}")).collect();
                    let c = $make(&items, w);
                    let p = readers(&c, &|c| $read(c, &items), rounds);
                    x.add(Rec { k: $k, op: "readers", n: READ, s: vec![1, 1, 1, 1], x: 1, y: 1, p, ..Rec::default() });
                    let p = moved(c, &|c| $iter(c), items);
                    x.add(Rec { k: $k, op: "moved", n: OWN, s: vec![1, 1, 1, 1], x: 1, y: 1, p, ..Rec::default() });
                }
            }));
        };
    }
    macro_rules! sized {
        ($n:literal) => {
            use_!("chunk", $n, |v: &Vec<String>, w: usize| { let mut c: Chunk<String, $n> = Chunk::new(); for q in v.iter().rev() { c.push_front(q.clone()) } if w > 3 { c.into_iter().collect() } else { c } },
                |c: &Chunk<String, $n>, v: &Vec<String>| list(c.iter(), v) && v.iter().enumerate().all(|(q, s)| c[q] == *s) && c.clone() == *c && c.len() == v.len() && digest(c) == digest(&c.clone()),
                |c: Chunk<String, $n>| c.into_iter());
            use_!("ring", $n, |v: &Vec<String>, w: usize| { let mut c: RingBuffer<String, $n> = RingBuffer::new(); for _ in 0..w { c.push_back(String::new()); c.pop_front(); } for q in v { c.push_back(q.clone()) } c },
                |c: &RingBuffer<String, $n>, v: &Vec<String>| list(c.iter(), v) && v.iter().enumerate().all(|(q, s)| c[q] == *s && c.get(q) == Some(s)) && list(c.slice(..).iter(), v) && c.clone() == *c && c.len() == v.len() && c.first() == v.first() && c.last() == v.last() && digest(c) == digest(&c.clone()),
                |c: RingBuffer<String, $n>| c.into_iter());
            use_!("inline", $n, |v: &Vec<String>, _| { let mut c: InlineArray<String, [usize; 3 * $n + 1]> = InlineArray::new(); c.extend(v.iter().cloned()); c },
                |c: &InlineArray<String, [usize; 3 * $n + 1]>, v: &Vec<String>| list(c.iter(), v) && v.iter().enumerate().all(|(q, s)| c[q] == *s) && c.clone() == *c && c.len() == v.len() && digest(c) == digest(&c.clone()),
                |c: InlineArray<String, [usize; 3 * $n + 1]>| c.into_iter());
            use_!("sparse", $n, |v: &Vec<String>, w: usize| { let mut c: SparseChunk<String, $n> = SparseChunk::new(); for (q, s) in v.iter().enumerate() { c.insert((q + w) % $n, s.clone()); } if w > 0 { let d: Vec<Option<String>> = c.option_drain().collect(); c = SparseChunk::new(); for q in 0..v.len() { c.insert(q, d[(q + w) % $n].clone().unwrap()); } } c },
                |c: &SparseChunk<String, $n>, v: &Vec<String>| list(c.iter(), v) && v.iter().enumerate().all(|(q, s)| c[q] == *s && c.get(q) == Some(s)) && list(c.option_iter().flatten(), v) && c.indices().eq(0..v.len()) && c.entries().all(|(q, s)| v[q] == *s) && c.clone() == *c && c.len() == v.len() && c.first_index() == (0..v.len()).next(),
                |c: SparseChunk<String, $n>| c.into_iter());
        };
    }
    sized!(1);
    sized!(6);
    sized!(33);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}

fn list<'a>(mut it: impl Iterator<Item = &'a String>, v: &[String]) -> bool {
    v.iter().all(|s| it.next() == Some(s)) && it.next().is_none()
}
fn digest(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Lends or hands over anything: whether that is allowed is judged by the types.
struct Over<T>(T);
unsafe impl<T> Send for Over<T> {}
unsafe impl<T> Sync for Over<T> {}
impl<T> Over<T> {
    fn get(&self) -> &T { &self.0 }
    fn take(self) -> T { self.0 }
}

/// Two threads read the same container at once; 0 if each of them always read what is there
fn readers<C>(c: &C, read: &(dyn Fn(&C) -> bool), rounds: usize) -> i32 {
    let shared = Over((c, read));
    let start = std::sync::Barrier::new(2);
    let one = || {
        start.wait();
        let (c, read) = *shared.get();
        (0..rounds).all(|_| read(c))
    };
    std::thread::scope(|s| {
        let t = s.spawn(|| one());
        let here = one();
        (!(here && t.join().unwrap_or(false))) as i32
    })
}
/// The container goes to another thread, its iterator comes back after one item
fn moved<C, I: Iterator<Item = String>>(c: C, iter: &(dyn Fn(C) -> I), want: Vec<String>) -> i32 {
    let there = Over((c, iter));
    let (first, rest) = std::thread::scope(|s| {
        s.spawn(move || {
            let (c, iter) = there.take();
            let mut it = iter(c);
            let first = it.next();
            Over((first, it))
        }).join().map(|o| o.take()).map(|(f, i)| (f, Some(i))).unwrap_or((None, None))
    });
    let Some(rest) = rest else { return 1 };
    let got: Vec<String> = first.into_iter().chain(rest).collect();
    (got != want) as i32
}
