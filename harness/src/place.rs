//! Containers with given contents, reached by different histories (model layouts are only recipes:
//! nothing is assumed about where the items really are).
use sized_chunks::{Chunk, RingBuffer};

/// window [l, r) of the model
pub fn chunk<E, const N: usize>(l: i32, items: Vec<E>, mut filler: impl FnMut() -> E) -> Chunk<E, N> {
    let len = items.len();
    let mut c = Chunk::new();
    if len == 0 {
        // move around, then empty
        for _ in 0..(l as usize).min(N) {
            c.push_back(filler());
        }
        while !c.is_empty() {
            c.pop_front();
        }
        return c;
    }
    if l as usize + len == N && l > 0 {
        // pushed to the front of an empty chunk: sits at the end
        for e in items.into_iter().rev() {
            c.push_front(e);
        }
        return c;
    }
    let l = (l as usize).min(N - len);
    for _ in 0..l {
        c.push_back(filler());
    }
    for e in items {
        c.push_back(e);
    }
    for _ in 0..l {
        c.pop_front();
    }
    c
}
/// origin o of the model
pub fn ring<E, const N: usize>(o: i32, items: Vec<E>, mut filler: impl FnMut() -> E) -> RingBuffer<E, N> {
    let mut c = RingBuffer::new();
    let o = o as usize;
    if N > 0 && o + items.len() > N && o % 2 == 1 {
        // the other way round: backwards from the start
        for _ in 0..(N - o % N) % N {
            c.push_front(filler());
        }
        for _ in 0..(N - o % N) % N {
            c.pop_back();
        }
    } else {
        for _ in 0..o {
            c.push_back(filler());
            c.pop_front();
        }
    }
    for e in items {
        c.push_back(e);
    }
    c
}
