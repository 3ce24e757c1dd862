//! Requests that never come to an end.  On a validator the compute budget would refuse them; natively they would
//! stall the simulation.  Every thread says when it is inside a transaction; a watching thread notices one that has
//! been in the same transaction for seconds of processor time (not wall-clock time: a machine that stands still
//! is not a program that does), or that fills the memory.
use crate::bank;
use crate::keys::Cfg;
use crate::world::Step;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct History {
    pub run: u64,
    pub run_seed: u64,
    pub strict: bool,
    pub cfg: Option<Cfg>,
    pub steps: Vec<Step>,
}

struct Slot {
    /// odd while the thread is inside a transaction
    busy: Arc<AtomicU64>,
    task: String,
    history: Mutex<History>,
}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);

thread_local! {
    static MINE: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

fn mine<T>(f: impl FnOnce(&Slot) -> T) -> T {
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        let s = m.get_or_insert_with(|| {
            let task = std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}/schedstat", p.display())).unwrap_or_default();
            let s = Arc::new(Slot { busy: bank::BUSY.with(|b| b.clone()), task, history: Mutex::default() });
            SLOTS.lock().unwrap().push(s.clone());
            s
        });
        f(s)
    })
}

/// A new history begins on this thread.
pub fn begin(run: u64, run_seed: u64, strict: bool, cfg: &Cfg, steps: &[Step]) {
    mine(|s| *s.history.lock().unwrap() = History { run, run_seed, strict, cfg: Some(cfg.clone()), steps: steps.to_vec() });
}

/// The next step of the history, before it is taken.
pub fn step(x: &Step) {
    mine(|s| s.history.lock().unwrap().steps.push(x.clone()));
}

/// What this thread has been doing.
pub fn history() -> History {
    mine(|s| s.history.lock().unwrap().clone())
}

fn cpu(task: &str) -> Option<u64> {
    std::fs::read_to_string(task).ok()?.split_whitespace().next()?.parse().ok()
}

/// Resident memory in bytes.
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

pub fn limit_secs() -> u64 {
    std::env::var("RSIM_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(10)
}

/// Calls `report` with the history of a thread that is stuck, once.
pub fn start(report: impl FnOnce(History) + Send + 'static) {
    std::thread::spawn(move || {
        // per slot: the transaction last seen, and the processor time then
        let mut seen: Vec<(u64, u64)> = vec![];
        let limit = limit_secs() * 1_000_000_000;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let slots = SLOTS.lock().unwrap().clone();
            seen.resize(slots.len(), (0, 0));
            let full = resident() > 12 << 30;
            let mut stuck: Option<usize> = None;
            for (i, s) in slots.iter().enumerate() {
                let at = s.busy.load(Ordering::SeqCst);
                if at % 2 == 0 || at != seen[i].0 {
                    seen[i] = (at, if at % 2 == 1 { cpu(&s.task).unwrap_or(u64::MAX) } else { 0 });
                } else if cpu(&s.task).is_some_and(|t| t.saturating_sub(seen[i].1) > if full { limit / 40 } else { limit }) {
                    stuck = Some(i);
                }
            }
            if let Some(i) = stuck {
                let h = slots[i].history.lock().unwrap().clone();
                return report(h);
            }
        }
    });
}
