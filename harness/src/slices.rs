//! Slice and SliceMut driven by operations of the specification (SliceSpec).
use crate::elem::Elem;
use crate::graph::Op;
use crate::rt::Rng;
use crate::seqc::*;
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::RingBuffer;
use std::ops::Bound::{Excluded, Included, Unbounded};

pub fn is_slice(op: &str) -> bool {
    op.starts_with("sl_") || op.starts_with("sm_")
}

macro_rules! step {
    ($w:expr, $p:expr) => {{
        let (i, j) = (arg($p[1]), arg($p[2]));
        let w = $w;
        match $p[0] {
            1 => w.slice(i..j),
            2 => w.slice(i..=j),
            3 => w.slice(i..),
            4 => w.slice(..j),
            5 => w.slice(..=j),
            6 => w.slice(..),
            11 => w.slice((Excluded(i), Excluded(j))),
            12 => w.slice((Excluded(i), Included(j))),
            13 => w.slice((Excluded(i), Unbounded)),
            7 => w.split_at(i).0,
            8 => w.split_at(i).1,
            _ => w,
        }
    }};
}
fn window<'a, E: Elem, const N: usize>(a: &'a RingBuffer<E, N>, p: &[i32]) -> Slice<'a, E, N> {
    let mut w = match p[0] {
        1 => a.slice(arg(p[1])..arg(p[2])),
        2 => a.slice(arg(p[1])..=arg(p[2])),
        3 => a.slice(arg(p[1])..),
        4 => a.slice(..arg(p[2])),
        5 => a.slice(..=arg(p[2])),
        6 => a.slice(..),
        11 => a.slice((Excluded(arg(p[1])), Excluded(arg(p[2])))),
        12 => a.slice((Excluded(arg(p[1])), Included(arg(p[2])))),
        13 => a.slice((Excluded(arg(p[1])), Unbounded)),
        10 => Slice::from(a),
        _ => step!(a.slice(..), p),
    };
    for q in p[3..].chunks(3) {
        w = if q[0] == 9 { w.clone() } else { step!(w, q) };
    }
    if p[0] == 9 { w.clone() } else { w }
}
fn window_mut<'a, E: Elem, const N: usize>(a: &'a mut RingBuffer<E, N>, p: &[i32]) -> SliceMut<'a, E, N> {
    let mut w = match p[0] {
        1 => a.slice_mut(arg(p[1])..arg(p[2])),
        2 => a.slice_mut(arg(p[1])..=arg(p[2])),
        3 => a.slice_mut(arg(p[1])..),
        4 => a.slice_mut(..arg(p[2])),
        5 => a.slice_mut(..=arg(p[2])),
        6 => a.slice_mut(..),
        11 => a.slice_mut((Excluded(arg(p[1])), Excluded(arg(p[2])))),
        12 => a.slice_mut((Excluded(arg(p[1])), Included(arg(p[2])))),
        13 => a.slice_mut((Excluded(arg(p[1])), Unbounded)),
        10 => SliceMut::from(a),
        _ => step!(a.slice_mut(..), p),
    };
    for q in p[3..].chunks(3) {
        w = step!(w, q);
    }
    w
}

macro_rules! looks {
    ($w:ident, $E:ty, $N:expr) => {{
        let ids: Vec<u32> = $w.iter().take($N + 8).map(|e| e.id()).collect();
        let n = ids.len();
        let back: Vec<u32> = ids.iter().rev().copied().collect();
        let same = $w.len() == n
            && $w.is_empty() == (n == 0)
            && eqi(&ids, (&$w).into_iter())
            && eqi(&back, $w.iter().rev())
            && (0..n).all(|i| $w[i].id() == ids[i] && $w.get(i).map(|e| e.id()) == Some(ids[i]) && unsafe { $w.get_unchecked(i) }.id() == ids[i])
            && $w.get(n).is_none()
            && $w.get(usize::MAX).is_none()
            && $w.first().map(|e| e.id()) == ids.first().copied()
            && $w.last().map(|e| e.id()) == ids.last().copied();
        (ids, same)
    }};
}
fn view<E: Elem>(h: &mut Held<E>, len: usize, (ids, same): (Vec<u32>, bool)) {
    h.push(Ret::Num(len.min(BIG as usize) as i32));
    h.extend(ids.into_iter().map(sn));
    h.push(Ret::Num(same as i32));
}

pub fn apply<E: Special, const N: usize>(a: &mut RingBuffer<E, N>, op: &Op, mut f: Vec<E>, h: &mut Held<E>) {
    let z = op.s.iter().step_by(3).position(|k| *k == 0).unwrap() * 3;
    let (p, s) = (&op.s[..z], &op.s[z + 1..]);
    let (i, j) = (arg(op.x), arg(op.y));
    macro_rules! with {
        ($w:ident, $e:expr) => {
            match op.y {
                0 => { let $w = window(a, p); $e }
                1 => { let $w = window_mut(a, p); $e }
                2 => { let $w = window_mut(a, p).unmut(); $e }
                _ => { let $w: Slice<'_, E, N> = window_mut(a, p).into(); $e }
            }
        };
    }
    match op.op {
        "sl_view" => with!(w, { let l = looks!(w, E, N); view(h, w.len(), l) }),
        "sl_index" => with!(w, h.push(sn(w[i].id()))),
        "sl_get" => with!(w, h.push(see(w.get(i)))),
        "sl_iter" => with!(w, script(Ad(w.iter(), |e: &E| sn(e.id())), s, h)),
        "sl_owned" => with!(w, {
            let c = w.to_owned();
            let n = c.len();
            let ids: Vec<u32> = c.iter().take(N + 8).map(|e| e.id()).collect();
            let ok = n == ids.len() && Lst::<E>::views(&c, &ids);
            h.extend(ids.into_iter().map(sn));
            if !ok {
                h.push(Ret::Num(-5));
            }
        }),
        "sm_index" => {
            let mut w = window_mut(a, p);
            w[i] = f.pop().unwrap();
        }
        "sm_get_mut" => {
            let mut w = window_mut(a, p);
            let x = f.pop().unwrap();
            match w.get_mut(i) {
                Some(r) => h.push(Ret::Val(std::mem::replace(r, x))),
                None => h.push(Ret::Nothing),
            }
        }
        "sm_set" => {
            let mut w = window_mut(a, p);
            let r = w.set(i, f.pop().unwrap());
            h.push(opt(r));
        }
        "sm_swap" => window_mut(a, p).swap(i, j),
        "sm_map_pair" => {
            let (x, y) = window_mut(a, p).map_pair(i, j, |x, y| {
                std::mem::swap(x, y);
                (y.id(), x.id())
            });
            h.push(sn(x));
            h.push(sn(y));
        }
        "sm_iter" => {
            let mut w = window_mut(a, p);
            f.reverse();
            let mut hand = |e: &mut E| match f.pop() {
                Some(x) => Ret::Val(std::mem::replace(e, x)),
                None => sn(e.id()),
            };
            if s.len() % 2 == 0 {
                script(Ad(w.iter_mut(), &mut hand), s, h)
            } else {
                script(Ad((&mut w).into_iter(), &mut hand), s, h)
            }
        }
        "sm_ends" => {
            let mut w = window_mut(a, p);
            let y = f.pop().unwrap();
            let x = f.pop().unwrap();
            match w.first_mut() {
                Some(r) => h.push(Ret::Val(std::mem::replace(r, x))),
                None => h.push(Ret::Nothing),
            }
            match w.last_mut() {
                Some(r) => h.push(Ret::Val(std::mem::replace(r, y))),
                None => h.push(Ret::Nothing),
            }
        }
        "sm_split" => {
            let (mut l, mut r) = window_mut(a, p).split_at(i);
            f.reverse();
            let (ln, rn) = (l.len(), r.len());
            if l.get_mut(ln).is_some() || r.get_mut(rn).is_some() {
                h.push(Ret::Num(-6));
            }
            for k in 0..ln.max(rn) {
                if k < ln {
                    h.push(Ret::Val(std::mem::replace(&mut l[k], f.pop().unwrap())));
                }
                if k < rn {
                    h.push(Ret::Val(std::mem::replace(&mut r[k], f.pop().unwrap())));
                }
            }
        }
        _ => panic!("unknown operation {}", op.op),
    }
}

fn near(rng: &mut Rng, len: i32) -> i32 {
    match rng.below(16) {
        0 | 1 => 0,
        2 | 3 => len,
        4 => (len - 1).max(0),
        5 => len + 1,
        6 => BIG,
        _ => rng.below(len as usize + 1) as i32,
    }
}
/// a random window (mostly a valid one) and access to it
pub fn random(rng: &mut Rng, op: &'static str, la: usize) -> Op {
    let mut o = Op::new(op, 0, 0, 0);
    let mut len = la as i32;
    for k in 0..1 + rng.below(3) {
        let form = if k == 0 && rng.below(8) == 0 { 10 } else { [1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 11, 12, 13][rng.below(14)] };
        let (mut i, mut j) = (near(rng, len), near(rng, len));
        if rng.below(6) != 0 {
            i = i.min(len);
            j = if matches!(form, 2 | 5 | 12) { j.min(len - 1).max(0) } else { j.min(len) };
            if matches!(form, 1 | 2 | 11 | 12) && i > j {
                std::mem::swap(&mut i, &mut j);
            }
        }
        let w = match form {
            1 => j - i,
            2 => j + 1 - i,
            3 | 8 => len - i,
            4 => j,
            5 => j + 1,
            7 => i,
            11 => j - i - 1,
            12 => j - i,
            13 => len - i - 1,
            _ => len,
        };
        let (i, j) = match form {
            1 | 2 | 11 | 12 => (i, j),
            3 | 7 | 8 | 13 => (i, 0),
            4 | 5 => (0, j),
            _ => (0, 0),
        };
        o.s.extend([form, i, j]);
        len = w.clamp(0, len);
    }
    o.s.push(0);
    o.x = near(rng, len);
    match op {
        "sl_view" => (o.x, o.y) = (0, rng.below(4) as i32),
        "sl_index" | "sl_get" => o.y = rng.below(4) as i32,
        "sl_owned" => (o.x, o.y) = (0, rng.below(2) as i32),
        "sm_index" | "sm_get_mut" | "sm_set" => o.nf = 1,
        "sm_swap" | "sm_map_pair" => o.y = near(rng, len),
        "sm_split" => o.nf = len,
        "sm_ends" => (o.x, o.nf) = (0, 2),
        _ => {
            o.x = 0;
            if op == "sm_iter" {
                o.nf = len
            } else {
                o.y = rng.below(2) as i32
            }
            let k = if rng.below(3) == 0 { rng.below(2 * len as usize + 3) } else { rng.below(5) };
            for _ in 0..k {
                o.s.push(action(rng));
            }
            o.s.push(last_action(rng));
        }
    }
    o
}
