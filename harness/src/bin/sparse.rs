//! SparseChunk: replay of the model's transitions, walks, random histories, injected panics, lying iterators.
use vh::elem::*;
use vh::rt::*;
use vh::seqc::*;
use vh::sets::*;
use vh::sparse::*;

fn main() {
    let args = args();
    let g = graph(&args);
    let mut jobs = vec![];
    let walks = args.walks;
    macro_rules! j { ($name:expr, $f:expr) => {{ let n: String = $name; if wanted(&args, &n) { jobs.push(job(n, $f)); } }} }
    macro_rules! gr { ($e:ty, $($n:expr),*) => {$(
        { let g = g.clone(); j!(format!("sparse/graph/{}/{}", <$e>::NAME, $n), move |c| replay_graph(c, pair::<$e, SparseK<$e, $n>>, &g, 1)); }
        { let g = g.clone(); j!(format!("sparse/walk/{}/{}", <$e>::NAME, $n), move |c| walk_graph(c, pair::<$e, SparseK<$e, $n>>, &g, walks, 60)); }
    )*} }
    macro_rules! rand { ($e:ty, $($n:expr),*) => {$(
        j!(format!("sparse/random/{}/{}", <$e>::NAME, $n), move |c| random_walks(c, pair::<$e, SparseK<$e, $n>>, SPARSE, walks, 80));
    )*} }
    macro_rules! fault { ($e:ty, $($n:expr),*) => {$(
        { let g = g.clone(); j!(format!("sparse/fault/{}/{}", <$e>::NAME, $n), move |c| fault_graph(c, pair::<$e, SparseK<$e, $n>>, &g, AFTERSP)); }
        { let g = g.clone(); j!(format!("sparse/lie/{}/{}", <$e>::NAME, $n), move |c| lie_graph(c, pair::<$e, SparseK<$e, $n>>, &g, AFTERSP)); }
    )*} }
    macro_rules! messy { ($e:ty, $($n:expr),*) => {$(
        j!(format!("sparse/faultwalk/{}/{}", <$e>::NAME, $n), move |c| fault_walks(c, pair::<$e, SparseK<$e, $n>>, SPARSE, walks, 50));
        j!(format!("sparse/liewalk/{}/{}", <$e>::NAME, $n), move |c| lie_walks(c, pair::<$e, SparseK<$e, $n>>, SPARSE, walks, 50));
    )*} }
    messy!(Tok, 6, 70);
    messy!(Heap, 8);
    messy!(Mark, 33);
    messy!(Zed, 9);
    gr!(Tok, 1, 2, 3, 4, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 128, 129, 256, 1024);
    gr!(Zed, 1, 3, 64);
    gr!(u8, 3, 129);
    gr!(Wide, 9);
    gr!(Heap, 2);
    gr!(Mark, 3, 65);
    rand!(Tok, 5, 20, 64, 127, 200);
    rand!(u16, 32, 70);
    rand!(Zed, 40);
    rand!(Heap, 128);
    rand!(Huge, 20);
    rand!(Mark, 90);
    fault!(Tok, 2, 3, 65);
    fault!(Zed, 3);
    fault!(Mark, 2);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
