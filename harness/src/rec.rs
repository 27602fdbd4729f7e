//! Records of observed transitions, deduplicated.
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rec {
    pub k: &'static str,
    pub op: &'static str,
    pub n: i32,
    pub m: i32,
    pub cls: u8,
    pub x: i32,
    pub y: i32,
    pub nf: i32,
    pub s: Vec<i32>,
    pub la: i32,
    pub lb: i32,
    pub pre: Vec<i32>, // extra description of the state before (sparse: occupied indices of A, then of B)
    pub flt: i32,      // injected fault kind, 0 none
    pub p: i32,
    pub a: Vec<i32>,
    pub b: Vec<i32>,
    pub r: Vec<i32>,
    pub d: Vec<i32>,
    pub i: Vec<i32>, // sparse: occupied indices of A, B before and of A, B after
    pub e: Vec<i32>, // elements the operation handed to the caller
    pub o: Vec<i32>,
}

fn arr(s: &mut String, name: &str, v: &[i32]) {
    let _ = write!(s, ",\"{}\":[", name);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
}

impl Rec {
    pub fn json(&self) -> String {
        let mut s = String::with_capacity(160);
        let _ = write!(
            s,
            "{{\"k\":\"{}\",\"op\":\"{}\",\"n\":{},\"m\":{},\"c\":{},\"x\":{},\"y\":{},\"nf\":{},\"la\":{},\"lb\":{},\"flt\":{},\"p\":{}",
            self.k, self.op, self.n, self.m, self.cls, self.x, self.y, self.nf, self.la, self.lb, self.flt, self.p
        );
        arr(&mut s, "s", &self.s);
        arr(&mut s, "pre", &self.pre);
        arr(&mut s, "a", &self.a);
        arr(&mut s, "b", &self.b);
        arr(&mut s, "r", &self.r);
        arr(&mut s, "d", &self.d);
        arr(&mut s, "e", &self.e);
        arr(&mut s, "o", &self.o);
        if self.k == "sparse" {
            arr(&mut s, "i", &self.i);
        }
        s.push('}');
        s
    }
}

#[derive(Default)]
pub struct Recorder {
    pub seen: HashMap<Rec, (String, u64)>,
    pub steps: u64,
    pub walks: u64,
    pub ops: HashMap<(&'static str, &'static str), u64>,
}

impl Recorder {
    pub fn add(&mut self, r: Rec, witness: impl FnOnce() -> String) {
        self.steps += 1;
        *self.ops.entry((r.k, r.op)).or_default() += 1;
        if let Some(e) = self.seen.get_mut(&r) {
            e.1 += 1;
        } else {
            self.seen.insert(r, (witness(), 1));
        }
    }
    pub fn merge(&mut self, o: Recorder) {
        self.steps += o.steps;
        self.walks += o.walks;
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for (k, (w, c)) in o.seen {
            let e = self.seen.entry(k).or_insert((w, 0));
            e.1 += c;
        }
    }
}

/// interned operation names
pub fn intern(s: &str) -> &'static str {
    use std::sync::Mutex;
    static TAB: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut t = TAB.lock().unwrap();
    if let Some(x) = t.iter().find(|x| **x == s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.push(l);
    l
}
