//! Ledger of tracked elements: which exist, which were dropped, who was cloned from whom;
//! and the fault injector that makes user code (clone, drop, cmp, iterator) panic.
use std::cell::{Cell, RefCell};

#[derive(Default)]
pub struct Ledger {
    pub parent: Vec<u32>,
    pub dead: Vec<bool>,
    /// drops since the start of the current operation (ids; a second drop of the same id is logged again)
    pub log: Vec<u32>,
}

pub const GARBAGE: u32 = u32::MAX;

thread_local! {
    pub static LED: RefCell<Ledger> = RefCell::new(Ledger::default());
    static ARMED: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static AT: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

pub fn reset() {
    LED.with(|l| {
        let mut l = l.borrow_mut();
        l.parent.clear();
        l.dead.clear();
        l.log.clear();
        l.parent.push(0);
        l.dead.push(true);
    })
}
pub fn fresh(parent: u32) -> u32 {
    LED.with(|l| {
        let mut l = l.borrow_mut();
        l.parent.push(parent);
        l.dead.push(false);
        (l.parent.len() - 1) as u32
    })
}
pub fn dropped(id: u32) {
    LED.with(|l| {
        let mut l = l.borrow_mut();
        if (id as usize) < l.dead.len() {
            l.dead[id as usize] = true;
            l.log.push(id);
        } else {
            l.log.push(GARBAGE);
        }
    })
}
pub fn start_op() {
    LED.with(|l| l.borrow_mut().log.clear())
}
pub fn take_log() -> Vec<u32> {
    LED.with(|l| std::mem::take(&mut l.borrow_mut().log))
}
pub fn is_dead(id: u32) -> bool {
    LED.with(|l| l.borrow().dead.get(id as usize).copied().unwrap_or(true))
}
pub fn parent(id: u32) -> u32 {
    LED.with(|l| l.borrow().parent.get(id as usize).copied().unwrap_or(0))
}

/// kinds of user code that can be made to panic
pub const F_CLONE: u8 = 1;
pub const F_DROP: u8 = 2;
pub const F_NEXT: u8 = 3;
pub const F_CMP: u8 = 4;

/// panic at the `at`-th (from 1) callback of kind `kind`; at = 0: only count
pub fn arm(kind: u8, at: u32) {
    ARMED.with(|a| a.set(kind));
    COUNT.with(|c| c.set(0));
    AT.with(|c| c.set(at));
    FIRED.with(|c| c.set(false));
}
/// returns (number of callbacks seen, fired)
pub fn disarm() -> (u32, bool) {
    ARMED.with(|a| a.set(0));
    (COUNT.with(|c| c.get()), FIRED.with(|c| c.get()))
}
#[inline]
pub fn tick(kind: u8) {
    if ARMED.with(|a| a.get()) == kind {
        let c = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if c == AT.with(|a| a.get()) && !std::thread::panicking() {
            FIRED.with(|f| f.set(true));
            panic!("injected");
        }
    }
}
