//! Sorted insertion and searching: the model's cases and random histories.
use sized_chunks::{Chunk, RingBuffer};
use vh::elem::Tok;
use vh::ord::*;
use vh::rt::*;

fn main() {
    let args = args();
    let cases = vh::cases::load(&args);
    let mut jobs = vec![];
    let walks = args.walks;
    macro_rules! j { ($name:expr, $f:expr) => {{ let n: String = $name; if wanted(&args, &n) { jobs.push(job(n, $f)); } }} }
    macro_rules! on { ($k:ident, $kn:expr, $($n:expr),*) => {$(
        { let c = cases.clone(); j!(format!("{}/cases/tok/{}", $kn, $n), move |x| run_cases::<$k<Tok, $n>>(x, &c, false)); }
        { let c = cases.clone(); j!(format!("{}/fault/tok/{}", $kn, $n), move |x| run_cases::<$k<Tok, $n>>(x, &c, true)); }
    )*} }
    macro_rules! rand { ($k:ident, $kn:expr, $($n:expr),*) => {$(
        j!(format!("{}/history/tok/{}", $kn, $n), move |x| histories::<$k<Tok, $n>>(x, walks, 40));
    )*} }
    on!(Chunk, "chunk", 0, 1, 2, 3, 4, 5, 6);
    on!(RingBuffer, "ring", 0, 1, 2, 3, 4, 5, 6);
    rand!(Chunk, "chunk", 7, 16, 64);
    rand!(RingBuffer, "ring", 7, 16, 33, 64);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
