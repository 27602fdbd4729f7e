//! Histories of containers of many thousand elements; what is seen is written as runs of consecutive labels (RunSpec).
use crate::elem::ZST;
use crate::graph::Op;
use crate::led;
use crate::rec::Rec;
use crate::rt::{Ctx, Rng};
use crate::seqc::{Maker, Ret, BIG};
use std::panic::{catch_unwind, AssertUnwindSafe};

const CLONE: i32 = 1_000_000;
const DEAD: i32 = 30_000_000;
const UNKNOWN: i32 = 99_999_999;

struct Labels {
    zst: bool,
    tab: Vec<i32>,
}
impl Labels {
    fn base(&self, id: u32) -> i32 {
        if self.zst {
            return 1;
        }
        match self.tab.get(id as usize) {
            Some(l) if *l != 0 => *l,
            _ => {
                let p = led::parent(id);
                match self.tab.get(p as usize) {
                    Some(l) if p != 0 && *l != 0 => *l + CLONE,
                    _ => UNKNOWN,
                }
            }
        }
    }
    fn vis(&self, id: u32) -> i32 {
        let l = self.base(id);
        if !self.zst && led::is_dead(id) { l + DEAD } else { l }
    }
    fn runs(&self, v: impl Iterator<Item = i32>) -> Vec<i32> {
        let mut out: Vec<i32> = vec![];
        for x in v {
            let k = out.len();
            if k > 0 && (self.zst || out[k - 2] + out[k - 1] == x) {
                out[k - 1] += 1;
            } else if k > 400 {
                out[k - 1] += 1_000_000; // hopeless
            } else {
                out.extend([x, 1]);
            }
        }
        out
    }
}

fn size(rng: &mut Rng, top: usize) -> usize {
    let pick = [0, 1, 2, top / 2, top.saturating_sub(1), top, top + 1, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, rng.below(top + 1), rng.below(top + 1)];
    let x = pick[rng.below(pick.len())];
    if rng.below(10) == 0 { x } else { x.min(top) }
}

fn random(rng: &mut Rng, kind: &str, n: usize, la: usize, lb: usize) -> Op {
    let room = n - la;
    let common: &[&'static str] = &["push_back", "pop_back", "insert", "remove", "index", "index_mut", "get", "get_mut", "first_last", "swap", "split_off", "exchange", "clear", "extend", "extend", "extend",
        "from_iter", "clone", "clone_from", "it_ref", "it_own", "it_drain", "insert", "remove"];
    let ends: &[&'static str] = &["push_front", "push_front", "pop_front", "insert_from", "insert_from", "insert_from", "drop_left", "drop_left", "drop_right", "append", "append", "drain_from", "drain_from_front",
        "drain_from_front", "drain_from_back", "drain_from_back", "from_front", "from_back", "set", "collect_from"];
    let ring: &[&'static str] = &["sl_view", "sl_view", "sl_index", "sl_get", "sl_owned", "sl_iter", "sm_set", "sm_swap", "sm_ends"];
    let all: Vec<&'static str> = match kind {
        "inline" => common.to_vec(),
        "chunk" => [common, ends].concat(),
        _ => [common, ends, ring].concat(),
    };
    let op = if la == 0 && lb == 0 && rng.below(4) > 0 { "extend" } else { all[rng.below(all.len())] };
    let top = n.min(90_000);
    let mut o = Op::new(op, 0, 0, 0);
    let actions = |rng: &mut Rng, s: &mut Vec<i32>| {
        for _ in 0..rng.below(5) {
            s.push([1, 2, 3, 4, 10, 11, 14, 15, 1, 2, 1, 2][rng.below(12)]);
        }
        s.push([5, 6, 9][rng.below(3)]);
    };
    match op {
        "push_back" | "push_front" => o.nf = 1,
        "insert" => {
            o.nf = 1;
            o.x = size(rng, la) as i32
        }
        "insert_from" => {
            o.x = size(rng, la) as i32;
            o.nf = size(rng, room.min(top)) as i32
        }
        "extend" => o.nf = size(rng, room.min(top)) as i32,
        "from_iter" => o.nf = size(rng, top) as i32,
        "collect_from" => {
            o.x = size(rng, top) as i32;
            o.nf = o.x + rng.below(3) as i32
        }
        "remove" | "index" | "get" | "split_off" | "drop_left" | "drop_right" => o.x = size(rng, la) as i32,
        "index_mut" | "get_mut" | "set" => {
            o.x = size(rng, la) as i32;
            o.nf = 1
        }
        "swap" => {
            o.x = size(rng, la) as i32;
            o.y = size(rng, la) as i32
        }
        "drain_from_front" | "drain_from_back" => o.x = size(rng, lb.min(room)) as i32,
        "from_front" | "from_back" => o.x = size(rng, lb) as i32,
        "it_ref" | "it_own" | "it_drain" => actions(rng, &mut o.s),
        _ if crate::slices::is_slice(op) => {
            let (i, j) = (size(rng, la) as i32, size(rng, la) as i32);
            let form = [1, 2, 3, 4, 5, 7, 8, 11, 12, 13][rng.below(10)];
            o.s = vec![form, i.min(j), i.max(j), 0];
            o.x = size(rng, la) as i32;
            o.y = rng.below(2) as i32;
            match op {
                "sm_set" => o.nf = 1,
                "sm_ends" => o.nf = 2,
                "sm_swap" => o.y = size(rng, la) as i32,
                "sl_iter" => actions(rng, &mut o.s),
                _ => {}
            }
        }
        _ => {}
    }
    o
}

pub fn walks(ctx: &mut Ctx, mk: Maker, count: usize, len: usize) {
    for w in 0..count {
        if !ctx.walk(w) {
            continue;
        }
        led::reset();
        let mut rng = Rng::new(ctx.args.seed, w as u64, crate::rt::hash_name(ctx.name));
        let mut sut = mk();
        let info = sut.info();
        for _ in 0..len {
            let (la, lb) = sut.lens();
            let mut op = random(&mut rng, info.k, info.n, la, lb);
            if la > 300_000 {
                op = Op::new("clear", 0, 0, 0)
            }
            if info.n < la + lb {
                // the second container only matters where it is used
                if rng.below(3) == 0 {
                    op = Op::new("exchange", 0, 0, 0)
                }
            }
            ctx.begin(&op.op);
            let pre = sut.look(false);
            let mut labels = Labels { zst: info.cls == ZST, tab: vec![] };
            let mut next = 0;
            let fresh = sut.prepare(&vec![0; op.nf as usize]);
            if !labels.zst {
                for id in pre.a.iter().chain(&pre.b).chain(&fresh) {
                    next += 1;
                    if labels.tab.len() <= *id as usize {
                        labels.tab.resize(*id as usize + 1, 0);
                    }
                    labels.tab[*id as usize] = next;
                }
            }
            led::start_op();
            let panicked = sut.apply(&op, false);
            let log = led::take_log();
            let (sane, now) = {
                let s = &sut;
                match catch_unwind(AssertUnwindSafe(|| s.look(true))) {
                    Ok(x) => (x.la <= info.n && x.lb <= info.m && x.guard, Some(x)),
                    Err(_) => (false, None),
                }
            };
            let cut = |n: usize| n.min(BIG as usize) as i32;
            let mut d: Vec<i32> = log.iter().map(|id| labels.base(*id)).collect();
            d.sort();
            let rets: Vec<i32> = sut.rets().iter().map(|x| match x {
                Ret::Val(id) => labels.vis(*id),
                Ret::Seen(id, dead) => labels.base(*id) + if *dead && !labels.zst { DEAD } else { 0 },
                Ret::Num(n) => *n,
                Ret::Nothing => 0,
            }).collect();
            let (a, b, o) = match &now {
                Some(x) => (
                    labels.runs(x.a.iter().map(|i| labels.vis(*i))),
                    labels.runs(x.b.iter().map(|i| labels.vis(*i))),
                    vec![cut(x.la), x.o[0] as i32, x.o[1] as i32, cut(x.lb), x.o[2] as i32, x.o[3] as i32, x.views as i32, x.guard as i32],
                ),
                None => (vec![], vec![], vec![-1, 0, 0, -1, 0, 0, 0, 0]),
            };
            let odd = a.iter().chain(&b).any(|l| *l >= 10_000_000);
            ctx.add(Rec {
                k: info.k, op: op.op, n: cut(info.n), m: cut(info.m), cls: info.cls, x: op.x, y: op.y, nf: op.nf, s: op.s.clone(), la: la as i32, lb: lb as i32, p: panicked as i32,
                a, b, r: if panicked { vec![] } else { labels.runs(rets.into_iter()) }, d: labels.runs(d.into_iter()), o,
                ..Rec::default()
            });
            if !sane || odd {
                sut.forget();
                break;
            }
            sut.settle();
        }
    }
}
