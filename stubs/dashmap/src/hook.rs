//! Visibility of entries while rudof runs symbolically on one thread: when `racing`, the lookup of an
//! entry that only other tasks have seen or made so far is hit or missed nondeterministically, as it
//! would be under some schedule. What a task has seen or made itself, it sees again.
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering::Relaxed};

static RACING: AtomicBool = AtomicBool::new(false);
static TASK: AtomicU32 = AtomicU32::new(0);
static SEEN: Mutex<Vec<(usize, u64, u32)>> = Mutex::new(Vec::new());

pub fn racing(b: bool) {
    RACING.store(b, Relaxed)
}
/// another task runs from here on
pub fn next_task() {
    TASK.store(TASK.load(Relaxed) + 1, Relaxed)
}
pub(crate) fn made(map: usize, key: u64) {
    if RACING.load(Relaxed) {
        SEEN.lock().unwrap().push((map, key, TASK.load(Relaxed)));
    }
}
/// is the existing entry visible to the running task?
pub(crate) fn visible(map: usize, key: u64) -> bool {
    if !RACING.load(Relaxed) {
        return true;
    }
    let e = (map, key, TASK.load(Relaxed));
    if SEEN.lock().unwrap().contains(&e) {
        return true;
    }
    if symrt::concrete(symrt::bool(c"missed") as u64) == 1 {
        return false;
    }
    SEEN.lock().unwrap().push(e);
    true
}

/// Preemption: before each operation on a map (unless some shard is locked) `other` may run other tasks.
static HELD: AtomicI32 = AtomicI32::new(0);
static OTHER: Mutex<Option<usize>> = Mutex::new(None);
pub(crate) fn locked(n: i32) -> bool {
    HELD.store(HELD.load(Relaxed) + n, Relaxed);
    true
}
/// `other` must stay where it is until `preempt(None)`
pub fn preempt(other: Option<&&dyn Fn()>) {
    *OTHER.lock().unwrap() = other.map(|f| f as *const &dyn Fn() as usize);
}
pub(crate) fn point() {
    let other = OTHER.lock().unwrap().filter(|_| HELD.load(Relaxed) == 0);
    if let Some(f) = other {
        unsafe { (*(f as *const &dyn Fn()))() }
    }
}
