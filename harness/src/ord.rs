//! Sorted insertion, searching, sorting and membership (OrdSpec).
use crate::cases::Case;
use crate::elem::{Elem, Tok};
use crate::led;
use crate::place;
use crate::rec::Rec;
use crate::rt::{Ctx, Rng};
use crate::seqc::Lst;
use array_ops::{Array, ArrayMut};
use sized_chunks::{Chunk, RingBuffer};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct OrdOp<'a> {
    pub op: &'static str,
    pub x: i32,
    pub y: i32,
    pub s: &'a [i32],
}
pub trait OrdC: Lst<Tok> {
    const K: &'static str;
    fn place(at: i32, items: Vec<Tok>) -> Self;
    fn ord(&mut self, o: &OrdOp, fresh: Option<Tok>) -> Vec<i32>;
    fn edit(&mut self, what: usize, v: i32);
}
fn found(r: Result<usize, usize>) -> Vec<i32> {
    match r {
        Ok(i) => vec![1, i as i32],
        Err(i) => vec![0, i as i32],
    }
}
macro_rules! search {
    ($c:expr, $o:expr) => {{
        let c = $c;
        let x = $o.x;
        let probe = Tok::with_val(x);
        let pat: Vec<Tok> = if matches!($o.op, "starts" | "ends") { $o.s[2..].iter().map(|v| Tok::with_val(*v)).collect() } else { vec![] };
        led::start_op();
        let r = match $o.op {
            "find" => found(c.binary_search(&probe)),
            "find_by" => found(c.binary_search_by(|e| e.cmp(&probe))),
            "find_key" => found(c.binary_search_by_key(&x, |e| e.val / 2)),
            "has" => vec![c.contains(&probe) as i32],
            "sorted" => vec![Array::is_sorted(c) as i32],
            "sorted_by" => vec![Array::is_sorted_by(c, |a, b| b.partial_cmp(a)) as i32],
            "sorted_key" => vec![Array::is_sorted_by_key(c, |e| e.val / 2) as i32],
            "starts" => vec![c.starts_with(&pat) as i32],
            _ => vec![c.ends_with(&pat) as i32],
        };
        std::mem::forget((probe, pat));
        r
    }};
}
fn changes(op: &str) -> bool {
    op.starts_with("sort") && !op.starts_with("sorted") || op == "swap"
}
macro_rules! change {
    ($c:expr, $o:expr) => {{
        let c = $c;
        match ($o.op, $o.x) {
            ("sort", _) | ("sort_empty", 0) => c.sort_unstable(),
            ("sort_by", _) | ("sort_empty", 1) => c.sort_unstable_by(|a, b| b.cmp(a)),
            ("sort_key", _) | ("sort_empty", _) => c.sort_unstable_by_key(|e| {
                led::tick(led::F_CMP);
                e.val / 2
            }),
            _ => c.swap($o.s[2] as usize, $o.s[3] as usize),
        }
        vec![]
    }};
}
impl<const N: usize> OrdC for RingBuffer<Tok, N> {
    const K: &'static str = "ring";
    fn place(at: i32, items: Vec<Tok>) -> Self {
        place::ring(at, items, || Tok::make(0))
    }
    fn ord(&mut self, o: &OrdOp, fresh: Option<Tok>) -> Vec<i32> {
        let w = o.s[0] as usize..o.s[1] as usize;
        if let Some(e) = fresh {
            self.insert_ordered(e);
            return vec![];
        }
        if changes(o.op) {
            return match o.y {
                0 => change!(self, o),
                _ => change!(&mut self.slice_mut(w), o),
            };
        }
        match o.y {
            0 => search!(&*self, o),
            1 => search!(&self.slice(w), o),
            _ => search!(&self.slice_mut(w), o),
        }
    }
    fn edit(&mut self, what: usize, v: i32) {
        match what {
            0 => drop(self.pop_front()),
            1 => drop(self.pop_back()),
            2 if !self.is_full() => self.push_front(Tok::with_val(v)),
            3 if !self.is_full() => self.push_back(Tok::with_val(v)),
            4 => drop(self.set(v as usize, Tok::with_val(v))),
            _ => {}
        }
    }
}
impl<const N: usize> OrdC for Chunk<Tok, N> {
    const K: &'static str = "chunk";
    fn place(at: i32, items: Vec<Tok>) -> Self {
        place::chunk(at, items, || Tok::make(0))
    }
    fn ord(&mut self, _: &OrdOp, fresh: Option<Tok>) -> Vec<i32> {
        self.insert_ordered(fresh.unwrap());
        vec![]
    }
    fn edit(&mut self, what: usize, v: i32) {
        match what {
            0 if !self.is_empty() => drop(self.pop_front()),
            1 if !self.is_empty() => drop(self.pop_back()),
            2 if !self.is_full() => self.push_front(Tok::with_val(v)),
            3 if !self.is_full() => self.push_back(Tok::with_val(v)),
            _ => {}
        }
    }
}

/// Runs one operation and records it; false: stop using this container.
fn step<C: OrdC>(ctx: &mut Ctx, c: &mut C, o: &OrdOp, flt: u32) -> (bool, u32) {
    let names: &'static &'static str = Box::leak(Box::new(o.op)); // the reporter keeps the address
    step_named(ctx, c, o, flt, names)
}
fn step_named<C: OrdC>(ctx: &mut Ctx, c: &mut C, o: &OrdOp, flt: u32, name: &'static &'static str) -> (bool, u32) {
    ctx.begin(name);
    let pre: Vec<u32> = c.via_iter();
    let vals: Vec<i32> = (0..c.ln()).map(|i| c.at(i).val).collect();
    let fresh = (o.op == "ins").then(|| Tok::with_val(o.x));
    let new = fresh.as_ref().map(|e| e.id());
    let lab = |id: u32| -> i32 {
        let l = match pre.iter().position(|p| *p == id) {
            Some(i) => i as i32 + 1,
            None if Some(id) == new => pre.len() as i32 + 1,
            None => 9999,
        };
        l
    };
    led::start_op();
    led::arm(led::F_CMP, flt);
    let res = catch_unwind(AssertUnwindSafe(|| c.ord(o, fresh)));
    let (calls, fired) = led::disarm();
    let log = led::take_log();
    let Ok((la, emp, ful, ids, views)) = catch_unwind(AssertUnwindSafe(|| {
        let ids = c.via_iter();
        let v = c.ln() == ids.len() && c.views(&ids);
        (c.ln(), c.emp(), c.ful(), ids, v)
    })) else {
        panic!("looking at the container failed");
    };
    let mut d: Vec<i32> = log.iter().map(|i| lab(*i)).filter(|l| o.op == "ins" || *l != 9999).collect();
    d.sort();
    let rec = Rec {
        k: C::K, op: o.op, n: C::cap() as i32, m: 0, cls: 0, x: o.x, y: o.y, nf: new.is_some() as i32, s: o.s.to_vec(), la: pre.len() as i32, lb: 0, pre: vals,
        flt: if fired { led::F_CMP as i32 } else { 0 }, p: res.is_err() as i32,
        a: ids.iter().map(|i| if led::is_dead(*i) { 7000 + lab(*i) } else { lab(*i) }).collect(),
        b: vec![], r: res.unwrap_or_default(), d, i: vec![], e: vec![],
        o: vec![la.min(1_000_000) as i32, emp as i32, ful as i32, 0, 1, 1, views as i32, 1],
    };
    let mut s = rec.a.clone();
    s.sort();
    s.dedup();
    let good = la <= C::cap() && s.len() == rec.a.len() && s.iter().all(|l| *l < 7000);
    if flt == 0 || fired {
        ctx.add(rec);
    }
    (good, calls)
}

/// Every case of the model; with `fault` also with every comparison panicking in turn.
pub fn run_cases<C: OrdC>(ctx: &mut Ctx, cases: &[Case], fault: bool) {
    let names: std::collections::HashMap<&'static str, &'static &'static str> =
        cases.iter().map(|c| c.names[1]).collect::<std::collections::HashSet<_>>().into_iter().map(|n| (n, &*Box::leak(Box::new(n)))).collect();
    for (w, k) in cases.iter().enumerate() {
        let head = &k.nums[0];
        if k.names[0] != C::K || head[0] != C::cap() as i32 || !ctx.walk(w) {
            continue;
        }
        let o = OrdOp { op: k.names[1], x: head[3], y: head[4], s: &k.nums[1] };
        let mut at = 0;
        loop {
            led::reset();
            let mut c = C::place(head[1], k.nums[2].iter().map(|v| Tok::with_val(*v)).collect());
            let (mut good, calls) = step_named(ctx, &mut c, &o, at, names[o.op]);
            if at > 0 && good {
                let s = [0, c.ln() as i32];
                good = step(ctx, &mut c, &OrdOp { op: "ins", x: 2, y: 0, s: &s }, 0).0;
            }
            if !good {
                std::mem::forget(c);
            }
            if !fault || at >= calls {
                break;
            }
            at += 1;
        }
    }
}
/// Histories on larger containers.
pub fn histories<C: OrdC>(ctx: &mut Ctx, walks: usize, len: usize) {
    for w in 0..walks {
        if !ctx.walk(w) {
            continue;
        }
        led::reset();
        let mut rng = Rng::new(ctx.args.seed, w as u64, crate::rt::hash_name(ctx.name));
        let mut c = C::make();
        let top = [1, 3, 10, 100, 1000][rng.below(5)];
        let fills = rng.below(C::cap() + 1);
        let mut good = true;
        for i in 0..len + fills {
            let n = c.ln() as i32;
            let v = rng.below(top) as i32;
            let (lo, hi) = (rng.below(n as usize + 1) as i32, rng.below(n as usize + 1) as i32);
            let mut s = vec![lo.min(hi), lo.max(hi)];
            let y = rng.below(3) as i32;
            if y == 0 {
                s = vec![0, n];
            }
            let x = if rng.below(3) == 0 || n == 0 { v } else { c.at(rng.below(n as usize)).val + rng.below(2) as i32 };
            let op: &'static str = match rng.below(if C::K == "chunk" { 8 } else { 20 }) {
                _ if i < fills => "ins",
                0 | 1 | 2 | 3 => "ins",
                4 | 5 => {
                    c.edit(rng.below(2), 0);
                    continue;
                }
                6 => {
                    c.edit(0, 0);
                    continue;
                }
                7 => {
                    if rng.below(6) == 0 {
                        c.edit(2 + rng.below(3), v); // usually breaks the order
                    } else {
                        c.edit(1, 0);
                    }
                    continue;
                }
                8 | 9 => "find",
                10 => "find_by",
                11 => "find_key",
                12 => "has",
                13 => ["sorted", "sorted_by", "sorted_key"][rng.below(3)],
                14 | 15 => {
                    let k = rng.below((s[1] - s[0] + 2) as usize);
                    let from = if rng.below(2) == 0 { s[0] as usize } else { (s[1] as usize).saturating_sub(k) };
                    let mut pat: Vec<i32> = (from..from + k).filter(|q| *q < n as usize).map(|q| c.at(q).val).collect();
                    if rng.below(4) == 0 && !pat.is_empty() {
                        let j = rng.below(pat.len());
                        pat[j] += 1;
                    }
                    s.extend(pat);
                    ["starts", "ends"][rng.below(2)]
                }
                16 | 17 => ["sort", "sort_by", "sort_key"][if rng.below(3) > 0 { 0 } else { rng.below(3) }],
                _ => {
                    let l = (s[1] - s[0]) as usize;
                    let (i, j) = (rng.below(l + 1) as i32, rng.below(l + 1) as i32);
                    s.extend([i, j]);
                    "swap"
                }
            };
            if op == "ins" {
                s = vec![0, n];
            }
            let y = if op == "ins" { 0 } else if changes(op) && y == 1 { 2 } else { y };
            if changes(op) && op != "swap" && s[0] == s[1] {
                continue;
            }
            good = step(ctx, &mut c, &OrdOp { op, x: if changes(op) { 0 } else { x }, y, s: &s }, 0).0;
            if !good {
                break;
            }
        }
        if !good {
            std::mem::forget(c);
        }
    }
}
