//! Chunk: replay of the model's transitions, walks, random histories, injected panics, lying iterators.
use vh::elem::*;
use vh::rt::*;
use vh::seqc::*;
use vh::sets::*;

fn main() {
    let args = args();
    let g = graph(&args);
    let mut jobs = vec![];
    let walks = args.walks;
    macro_rules! j { ($name:expr, $f:expr) => {{ let n: String = $name; if wanted(&args, &n) { jobs.push(job(n, $f)); } }} }
    macro_rules! graph { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        { let g = g.clone(); j!(format!("{}/graph/{}/{}", $kn, <$e>::NAME, $n), move |c| replay_graph(c, pair::<$e, $k<$e, $n>>, &g, 1)); }
        { let g = g.clone(); j!(format!("{}/walk/{}/{}", $kn, <$e>::NAME, $n), move |c| walk_graph(c, pair::<$e, $k<$e, $n>>, &g, walks, 60)); }
    )*} }
    macro_rules! rand { ($k:ident, $kn:expr, $ops:expr, $tag:expr, $e:ty, $($n:expr),*) => {$(
        j!(format!("{}/{}/{}/{}", $kn, $tag, <$e>::NAME, $n), move |c| random_walks(c, pair::<$e, $k<$e, $n>>, $ops, walks, 80));
    )*} }
    macro_rules! fault { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        { let g = g.clone(); j!(format!("{}/fault/{}/{}", $kn, <$e>::NAME, $n), move |c| fault_graph(c, pair::<$e, $k<$e, $n>>, &g, AFTER)); }
    )*} }
    macro_rules! lie { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        { let g = g.clone(); j!(format!("{}/lie/{}/{}", $kn, <$e>::NAME, $n), move |c| lie_graph(c, pair::<$e, $k<$e, $n>>, &g, AFTER)); }
    )*} }
    macro_rules! big { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        j!(format!("{}/random/{}/big{}", $kn, <$e>::NAME, $n), move |c| random_walks(c, pair::<$e, $k<$e, $n>>, LIST, walks / 8 + 1, 80));
    )*} }
    macro_rules! jump { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        j!(format!("{}/random/{}/jump{}", $kn, <$e>::NAME, $n), move |c| jump_walks(c, pair::<$e, $k<$e, $n>>, JUMP, walks / 3 + 1));
        j!(format!("{}/moves/{}/jump{}", $kn, <$e>::NAME, $n), move |c| jump_walks(c, pair::<$e, $k<$e, $n>>, MOVES, walks));
    )*} }
    macro_rules! messy { ($k:ident, $kn:expr, $e:ty, $($n:expr),*) => {$(
        j!(format!("{}/faultwalk/{}/{}", $kn, <$e>::NAME, $n), move |c| fault_walks(c, pair::<$e, $k<$e, $n>>, LIST, walks, 50));
        j!(format!("{}/liewalk/{}/{}", $kn, <$e>::NAME, $n), move |c| lie_walks(c, pair::<$e, $k<$e, $n>>, LIST, walks, 50));
    )*} }
    // ---- chunk
    messy!(ChunkK, "chunk", Tok, 4, 9, 32);
    messy!(ChunkK, "chunk", Heap, 6);
    messy!(ChunkK, "chunk", Mark, 7);
    messy!(ChunkK, "chunk", Zed, 12);
    big!(ChunkK, "chunk", Tok, 130, 300);
    big!(ChunkK, "chunk", u16, 257, 300);
    big!(ChunkK, "chunk", Zed, 300);
    jump!(ChunkK, "chunk", Tok, 20, 33, 130);
    jump!(ChunkK, "chunk", u16, 64, 320);
    graph!(ChunkK, "chunk", Tok, 0, 1, 2, 3, 4, 5, 8);
    graph!(ChunkK, "chunk", Zed, 0, 1, 3, 4);
    graph!(ChunkK, "chunk", u8, 2, 4);
    graph!(ChunkK, "chunk", Heap, 3);
    graph!(ChunkK, "chunk", Mark, 2, 3);
    rand!(ChunkK, "chunk", LIST, "random", Tok, 7, 64);
    rand!(ChunkK, "chunk", LIST, "random", Wide, 16);
    rand!(ChunkK, "chunk", LIST, "random", Huge, 5, 24);
    graph!(ChunkK, "chunk", Huge, 3);
    rand!(ChunkK, "chunk", LIST, "random", u16, 33);
    rand!(ChunkK, "chunk", LIST, "random", Mark, 12);
    rand!(ChunkK, "chunk", IO, "iorandom", u8, 1, 3, 8, 64);
    fault!(ChunkK, "chunk", Tok, 2, 3);
    fault!(ChunkK, "chunk", Zed, 2);
    fault!(ChunkK, "chunk", Mark, 2);
    lie!(ChunkK, "chunk", Tok, 0, 3, 4);
    lie!(ChunkK, "chunk", u64, 3);
    macro_rules! huge { ($($e:ty, $n:expr);*) => {$(
        j!(format!("chunk/runs/{}/{}", <$e>::NAME, $n), move |c| vh::big::walks(c, pair::<$e, ChunkK<$e, $n>>, walks / 20 + 2, 40));
    )*} }
    huge!(Pip, 65535; Pip, 65536; Pip, 65537; Pip, 70001; Zed, 70001; Zed, 65536);
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
