//! InlineArray and its conversion to Chunk: replay of the model's transitions, walks, random histories, injected panics, lying iterators.
use vh::elem::*;
use vh::rt::*;
use vh::seqc::*;
use vh::sets::*;

fn main() {
    let args = args();
    let g = graph(&args);
    let mut jobs = vec![];
    let walks = args.walks;
    macro_rules! j { ($name:expr, $f:expr) => {{ let n: String = $name; if wanted(&args, &n) { jobs.push(job(n, $f)); } }} }
    // ---- inline (element, host)
    macro_rules! inl { ($t:ident; $($e:ty, $h:ty, $tag:expr);* $(;)?) => {$(
        { let g = g.clone(); j!(format!("inline/graph/{}/{}", <$e>::NAME, $tag), move |c| replay_graph(c, pair::<$e, InlineK<$e, $h>>, &g, 1)); }
        { let g = g.clone(); j!(format!("inline/walk/{}/{}", <$e>::NAME, $tag), move |c| walk_graph(c, pair::<$e, InlineK<$e, $h>>, &g, walks, 60)); }
        j!(format!("inline/random/{}/{}", <$e>::NAME, $tag), move |c| random_walks(c, pair::<$e, InlineK<$e, $h>>, INL, walks, 60));
    )*} }
    inl!(x;
        Tok, [usize; 1], "0"; Tok, [usize; 3], "1"; Tok, [usize; 5], "2"; Tok, [usize; 7], "3"; Tok, [usize; 9], "4"; Tok, [usize; 41], "20";
        Fat, [usize; 34], "3"; Huge, [usize; 124], "3";
        Wide, [u128x2; 4], "3"; Wide, [u128x2; 1], "0";
        Heap, [usize; 4], "3"; Mark, [usize; 5], "2"; Mark, [usize; 7], "3"; Mark, [usize; 21], "10";
        u8, [usize; 2], "8"; u8, [u8x12; 1], "4";
        u16, [usize; 17], "64"; u128, [u128; 4], "3"; u64, [usize; 6], "5";
        Zed, [usize; 1], "unlimited"; Zed, [usize; 3], "unlimited2";
    );
    macro_rules! inlf { ($($e:ty, $h:ty, $tag:expr);* $(;)?) => {$(
        { let g = g.clone(); j!(format!("inline/fault/{}/{}", <$e>::NAME, $tag), move |c| fault_graph(c, pair::<$e, InlineK<$e, $h>>, &g, AFTERI)); }
        { let g = g.clone(); j!(format!("inline/lie/{}/{}", <$e>::NAME, $tag), move |c| lie_graph(c, pair::<$e, InlineK<$e, $h>>, &g, AFTERI)); }
    )*} }
    inlf!(Tok, [usize; 5], "2"; Tok, [usize; 7], "3"; Tok, [usize; 9], "4"; u16, [u32; 4], "4"; Mark, [usize; 5], "2"; );
    macro_rules! messy { ($($e:ty, $h:ty, $tag:expr);* $(;)?) => {$(
        j!(format!("inline/faultwalk/{}/{}", <$e>::NAME, $tag), move |c| fault_walks(c, pair::<$e, InlineK<$e, $h>>, INL, walks, 50));
        j!(format!("inline/liewalk/{}/{}", <$e>::NAME, $tag), move |c| lie_walks(c, pair::<$e, InlineK<$e, $h>>, INL, walks, 50));
    )*} }
    messy!(Tok, [usize; 9], "4"; Tok, [usize; 25], "12"; Wide, [u128x2; 8], "7"; Heap, [usize; 8], "7"; Mark, [usize; 13], "6"; Zed, [usize; 1], "unlimited"; u16, [u32; 12], "20");
    macro_rules! big { ($($e:ty, $h:ty, $tag:expr);* $(;)?) => {$(
        j!(format!("inline/random/{}/big{}", <$e>::NAME, $tag), move |c| random_walks(c, pair::<$e, InlineK<$e, $h>>, INL, walks / 8 + 1, 80));
    )*} }
    macro_rules! jump { ($($e:ty, $h:ty, $tag:expr);* $(;)?) => {$(
        j!(format!("inline/random/{}/jump{}", <$e>::NAME, $tag), move |c| jump_walks(c, pair::<$e, InlineK<$e, $h>>, INL, walks / 3 + 1));
    )*} }
    jump!(Tok, [usize; 61], "30"; u16, [usize; 36], "140"; u64, [usize; 281], "280");
    big!(Tok, [usize; 401], "200"; u16, [usize; 81], "320");
    // ---- Chunk <- InlineArray
    macro_rules! xf { ($($e:ty, $h:ty, $n:expr);* $(;)?) => {$(
        { let g = g.clone(); j!(format!("xfer/graph/{}/{}-{}", <$e>::NAME, std::mem::size_of::<$h>(), $n), move |c| replay_graph(c, pair::<$e, XferK<$e, $h, $n>>, &g, 1)); }
        { let g = g.clone(); j!(format!("xfer/walk/{}/{}-{}", <$e>::NAME, std::mem::size_of::<$h>(), $n), move |c| walk_graph(c, pair::<$e, XferK<$e, $h, $n>>, &g, walks, 60)); }
        j!(format!("xfer/random/{}/{}-{}", <$e>::NAME, std::mem::size_of::<$h>(), $n), move |c| random_walks(c, pair::<$e, XferK<$e, $h, $n>>, XF, walks, 60));
    )*} }
    macro_rules! xff { ($($e:ty, $h:ty, $n:expr);* $(;)?) => {$(
        { let g = g.clone(); j!(format!("xfer/fault/{}/{}-{}", <$e>::NAME, std::mem::size_of::<$h>(), $n), move |c| fault_graph(c, pair::<$e, XferK<$e, $h, $n>>, &g, XF)); }
    )*} }
    xf!(Tok, [usize; 7], 0; Tok, [usize; 7], 2; Tok, [usize; 7], 3; Tok, [usize; 7], 4; Tok, [usize; 1], 3; Wide, [u128x2; 4], 3; Zed, [usize; 1], 3; Heap, [usize; 4], 2; Huge, [usize; 124], 3; Mark, [usize; 7], 3; u8, [usize; 2], 8; u8, [usize; 9], 16);
    xff!(Tok, [usize; 7], 2; Tok, [usize; 7], 3);
    macro_rules! huge { ($($e:ty, $h:ty, $n:expr);*) => {$(
        j!(format!("inline/runs/{}/{}", <$e>::NAME, $n), move |c| vh::big::walks(c, pair::<$e, InlineK<$e, $h>>, walks / 20 + 2, 40));
    )*} }
    huge!(Pip, [u64; 32769], 65536; Pip, [u64; 35002], 70002; Zed, [u64; 1], "unlimited");
    let (rec, _) = run(&args, jobs);
    write_out(&args, &rec);
}
