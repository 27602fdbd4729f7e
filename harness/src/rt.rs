//! Worker threads, crash and hang reporting, deterministic randomness, output files.
use crate::rec::{Rec, Recorder};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut r = Rng(seed ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
}
pub fn hash_name(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct Args {
    pub graphs: Vec<String>,
    pub out: String,
    pub seed: u64,
    pub walks: usize,
    pub job: Option<String>,
    pub walk: Option<usize>,
    pub deep: bool,
    pub threads: usize,
    pub mode: String,
}
pub fn args() -> Args {
    let mut a = Args { graphs: vec![], out: String::new(), seed: 1, walks: 50, job: None, walk: None, deep: false, threads: 8, mode: String::new() };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("argument value");
        match k.as_str() {
            "--graph" => a.graphs.push(v()),
            "--out" => a.out = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--walks" => a.walks = v().parse().unwrap(),
            "--job" => a.job = Some(v()),
            "--walk" => a.walk = Some(v().parse().unwrap()),
            "--threads" => a.threads = v().parse().unwrap(),
            "--deep" => a.deep = true,
            "--mode" => a.mode = v(),
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

const SLOTS: usize = 64;
struct Slot {
    active: AtomicBool,
    progress: AtomicU64,
    job: AtomicUsize,
    walk: AtomicU64,
    step: AtomicU64,
    op: AtomicUsize,
}
static SLOT: [Slot; SLOTS] = [const {
    Slot { active: AtomicBool::new(false), progress: AtomicU64::new(0), job: AtomicUsize::new(0), walk: AtomicU64::new(0), step: AtomicU64::new(0), op: AtomicUsize::new(0) }
}; SLOTS];
static JOBS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

static mut NAMES: [(*const u8, usize); 4096] = [(std::ptr::null(), 0); 4096];

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
fn raw(s: &[u8]) {
    unsafe {
        write(1, s.as_ptr(), s.len());
    }
}
fn rawnum(mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    raw(&b[i..]);
}
fn report(kind: &[u8], num: u64, slot: usize) {
    raw(b"\n");
    raw(kind);
    raw(b" code=");
    rawnum(num);
    if slot < SLOTS {
        let s = &SLOT[slot];
        let j = s.job.load(Relaxed);
        let (p, n) = unsafe { NAMES[j & 4095] };
        if !p.is_null() {
            raw(b" job=");
            raw(unsafe { std::slice::from_raw_parts(p, n) });
        }
        raw(b" walk=");
        rawnum(s.walk.load(Relaxed));
        raw(b" step=");
        rawnum(s.step.load(Relaxed));
        let o = s.op.load(Relaxed);
        if o != 0 {
            let op = unsafe { &*(o as *const &'static str) };
            raw(b" op=");
            raw(op.as_bytes());
        }
    }
    raw(b"\n");
}
extern "C" fn on_signal(sig: i32) {
    let me = ME.with(|m| m.get());
    report(b"CRASH", sig as u64, me);
    unsafe { _exit(77) }
}

pub struct Ctx<'a> {
    pub rec: Recorder,
    pub args: &'a Args,
    pub name: &'static str,
    pub walkno: usize,
    pub stepno: usize,
    pub explain: bool,
    pub lines: Vec<String>,
}
impl<'a> Ctx<'a> {
    /// start walk w; false: filtered out
    pub fn walk(&mut self, w: usize) -> bool {
        if let Some(x) = self.args.walk {
            if x != w {
                return false;
            }
        }
        self.walkno = w;
        self.rec.walks += 1;
        self.stepno = 0;
        let s = &SLOT[ME.with(|m| m.get())];
        s.walk.store(w as u64, Relaxed);
        s.step.store(0, Relaxed);
        s.progress.fetch_add(1, Relaxed);
        true
    }
    /// about to run an operation on the real code
    pub fn begin(&mut self, op: &&'static str) {
        self.stepno += 1;
        let s = &SLOT[ME.with(|m| m.get())];
        s.op.store(op as *const &'static str as usize, Relaxed);
        s.step.store(self.stepno as u64, Relaxed);
        s.progress.fetch_add(1, Relaxed);
        if self.explain {
            println!("RUN job={} walk={} step={} op={}", self.name, self.walkno, self.stepno, op);
        }
    }
    pub fn add(&mut self, r: Rec) {
        if self.explain {
            println!("REC {}", r.json());
        }
        let (n, w, s) = (self.name, self.walkno, self.stepno);
        self.rec.add(r, || format!("job={} walk={} step={}", n, w, s));
    }
}

pub type JobFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;
pub struct Job {
    pub name: String,
    pub f: JobFn,
}
pub fn job(name: String, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Job {
    Job { name, f: Box::new(f) }
}

/// "a/b,c": wanted if all parts of one of the comma separated patterns occur in the job name
pub fn wanted(args: &Args, name: &str) -> bool {
    let parts: Vec<&str> = name.split('/').collect();
    args.mode.is_empty() || args.mode.split(',').any(|p| p.split('/').all(|w| parts.contains(&w)))
}

/// Runs all jobs, returns the merged recorder and free-form lines.
pub fn run(args: &Args, jobs: Vec<Job>) -> (Recorder, Vec<String>) {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_signal as *const () as usize);
        }
        setrlimit(9, &[12u64 << 30, 12u64 << 30]);
    }
    let names: Vec<&'static str> = jobs.iter().map(|j| &*Box::leak(j.name.clone().into_boxed_str())).collect();
    for (i, n) in names.iter().enumerate() {
        unsafe { NAMES[i & 4095] = (n.as_ptr(), n.len()) }
    }
    *JOBS.lock().unwrap() = names.clone();
    let next = AtomicUsize::new(0);
    let total = Mutex::new((Recorder::default(), Vec::new()));
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut last = [(0u64, 0u32); SLOTS];
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for i in 0..SLOTS {
                    let p = SLOT[i].progress.load(Relaxed);
                    if SLOT[i].active.load(Relaxed) && p == last[i].0 {
                        last[i].1 += 1;
                        if last[i].1 > 100 {
                            report(b"HANG", 20, i);
                            unsafe { _exit(78) }
                        }
                    } else {
                        last[i] = (p, 0);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..args.threads.min(SLOTS))
            .map(|t| {
                let (next, jobs, names, total) = (&next, &jobs, &names, &total);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        ME.with(|m| m.set(t));
                        let mut acc = Recorder::default();
                        let mut lines = vec![];
                        loop {
                            let j = next.fetch_add(1, Relaxed);
                            if j >= jobs.len() {
                                break;
                            }
                            if let Some(want) = &args.job {
                                if *want != jobs[j].name {
                                    continue;
                                }
                            }
                            SLOT[t].job.store(j, Relaxed);
                            SLOT[t].progress.fetch_add(1, Relaxed);
                            SLOT[t].active.store(true, Relaxed);
                            let mut ctx = Ctx { rec: Recorder::default(), args, name: names[j], walkno: 0, stepno: 0, explain: args.job.is_some(), lines: vec![] };
                            crate::led::reset();
                            (jobs[j].f)(&mut ctx);
                            SLOT[t].active.store(false, Relaxed);
                            acc.merge(ctx.rec);
                            lines.extend(ctx.lines);
                        }
                        let mut g = total.lock().unwrap();
                        g.0.merge(acc);
                        g.1.extend(lines);
                    })
                    .unwrap()
            })
            .collect();
        let mut bad = false;
        for h in hs {
            bad |= h.join().is_err();
        }
        done.store(true, Relaxed);
        if bad {
            println!("HARNESS-ERROR a worker panicked outside the code under test");
            unsafe { _exit(3) }
        }
    });
    total.into_inner().unwrap()
}

/// Writes the records (one JSON object per line) and, line by line, their witnesses.
pub fn write_out(args: &Args, rec: &Recorder) {
    if args.out.is_empty() {
        return;
    }
    let mut v: Vec<(&Rec, &(String, u64))> = rec.seen.iter().collect();
    v.sort_by(|a, b| a.0.cmp(b.0));
    let mut f = std::io::BufWriter::new(std::fs::File::create(&args.out).unwrap());
    let mut w = std::io::BufWriter::new(std::fs::File::create(format!("{}.wit", args.out)).unwrap());
    for (r, (wit, c)) in v {
        writeln!(f, "{}", r.json()).unwrap();
        writeln!(w, "{} seen={}", wit, c).unwrap();
    }
    f.flush().unwrap();
    w.flush().unwrap();
    println!("STEPS {} UNIQUE {}", rec.steps, rec.seen.len());
    println!("WALKS {}", rec.walks);
    let mut ops: Vec<_> = rec.ops.iter().collect();
    ops.sort();
    println!("OPS {}", ops.iter().map(|(k, v)| format!("{}.{}={v}", k.0, k.1)).collect::<Vec<_>>().join(" "));
}
