pub mod elem;
pub mod big;
pub mod graph;
pub mod led;
pub mod rec;
pub mod rt;
pub mod seqc;
pub mod slices;
pub mod sets;
pub mod sparse;
pub mod cases;
pub mod cmp;
pub mod ord;
pub mod place;
