//! Stateless, deviation-bounded, exhaustive exploration of a choice tree.
//!
//! An execution asks the chooser for every decision: `pick(n)` is a free choice (all n alternatives are
//! explored), `dev(n)` is a deviation from the default 0 and costs one unit of the budget, `wide(n)` is a
//! deviation that costs the whole budget (large menus, explored only in otherwise default executions).
//! Every execution within the budget is run exactly once; work is shared by the workers as untaken
//! alternatives of prefixes.
use crate::{alloc, trace};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
struct Pt {
    choice: u32,
    n: u32,
    open: bool,
}

pub struct Ch<'p> {
    prefix: &'p [u32],
    trail: Vec<Pt>,
    left: u32,
    budget: u32,
}

pub struct Diverged;

impl<'p> Ch<'p> {
    pub fn new(prefix: &'p [u32], budget: u32) -> Ch<'p> {
        Ch { prefix, trail: Vec::with_capacity(64), left: budget, budget }
    }
    fn choose(&mut self, n: usize, cost: u32) -> usize {
        let i = self.trail.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        let afford = cost <= self.left;
        if c as usize >= n || (c > 0 && !afford) {
            std::panic::panic_any(Diverged);
        }
        if c > 0 {
            self.left -= cost;
        }
        self.trail.push(Pt { choice: c, n: n as u32, open: afford && i >= self.prefix.len() });
        c as usize
    }
    /// free choice among n
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n, 0)
    }
    /// 0 unless this execution deviates here
    pub fn dev(&mut self, n: usize) -> usize {
        self.choose(n, 1)
    }
    /// as dev, but only in executions that deviate nowhere else
    pub fn wide(&mut self, n: usize) -> usize {
        self.choose(n, self.budget.max(1))
    }
    /// every prefix that leads to an execution not yet covered by this one
    pub fn alternatives(&self) -> Vec<Vec<u32>> {
        let mut v = vec![];
        for (i, p) in self.trail.iter().enumerate() {
            if p.open {
                for a in 1..p.n {
                    let mut x: Vec<u32> = self.trail[..i].iter().map(|p| p.choice).collect();
                    x.push(a);
                    v.push(x);
                }
            }
        }
        v
    }
    pub fn choices(&self) -> Vec<u32> {
        self.trail.iter().map(|p| p.choice).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    /// classification to look up in the known findings
    pub known: Option<String>,
}

impl Fail {
    pub fn new(what: impl Into<String>) -> Fail {
        Fail { what: what.into(), known: None }
    }
    pub fn known(key: &str, what: impl Into<String>) -> Fail {
        Fail { what: what.into(), known: Some(key.to_string()) }
    }
}

pub type Out = Result<(), Fail>;

/// what a worker gathers
#[derive(Default)]
pub struct Cx {
    pub verbose: bool,
    pub outcomes: trace::Set,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub sums: BTreeMap<u64, u64>,
}

pub static DESCRIPTION: Mutex<String> = Mutex::new(String::new());

impl Cx {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    /// one distinct observed outcome
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 3_000_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// writes down the case at hand (only when a failure is replayed)
    pub fn describe(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            let mut d = DESCRIPTION.lock().unwrap_or_else(|e| e.into_inner());
            d.push_str(&s);
            d.push('\n');
        }
    }
    fn merge(&mut self, o: Cx) {
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.sums {
            let e = self.sums.entry(k).or_insert(0);
            *e = e.wrapping_add(v);
        }
        for (k, (n, d)) in o.known {
            let e = self.known.entry(k).or_insert((0, d.clone()));
            e.0 += n;
            if d.len() < e.1.len() || (d.len() == e.1.len() && d < e.1) {
                e.1 = d;
            }
        }
        self.samples.extend(o.samples);
    }
}

thread_local! {
    static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static WORKER: Cell<usize> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A crash (stack overflow, abort, invalid access) must not take the verdict along: the thread that crashed
/// stops where it is, and the watchdog reports the execution it was running.
pub static CRASHED: AtomicUsize = AtomicUsize::new(0);
/// what to print, and leave, if there is no watchdog (one execution is replayed)
pub static CRASH_LINE: Mutex<Option<&'static str>> = Mutex::new(None);
static CRASH_EXITS: AtomicBool = AtomicBool::new(false);

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn pause() -> i32;
}

extern "C" fn crashed(_sig: i32) {
    let inside = IN_IMPL.try_with(|x| x.get()).unwrap_or(false);
    if CRASH_EXITS.load(SeqCst) {
        if let (true, Ok(g)) = (inside, CRASH_LINE.try_lock()) {
            if let Some(l) = *g {
                unsafe {
                    write(1, l.as_ptr().cast(), l.len());
                    _exit(1)
                }
            }
        }
        unsafe { _exit(2) }
    }
    let w = WORKER.try_with(|w| w.get()).unwrap_or(0);
    if w > 0 || !inside {
        CRASHED.store(if inside { w } else { usize::MAX }, SeqCst);
    }
    loop {
        unsafe { pause() };
    }
}

pub fn catch_crashes(exit_with: Option<String>) {
    if let Some(l) = exit_with {
        *CRASH_LINE.lock().unwrap() = Some(Box::leak(l.into_boxed_str()));
        CRASH_EXITS.store(true, SeqCst);
    }
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV; on the alternate stack, not blocked while handled
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction {
            handler: crashed as *const () as usize,
            mask: [0; 16],
            flags: 0x0800_0000 | 0x4000_0000,
            restorer: 0,
        };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
}

/// marks a call into the code under test
pub fn imp<T>(f: impl FnOnce() -> T) -> T {
    // a byte source may itself use the code under test
    let outer = IN_IMPL.with(|x| x.replace(true));
    let r = f();
    IN_IMPL.with(|x| x.set(outer));
    r
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

pub type Body = dyn Fn(&mut Ch, &mut Cx) -> Out + Sync + Send;

pub struct Run {
    pub name: &'static str,
    pub what: String,
    pub budget: u32,
    pub body: Box<Body>,
}

impl Run {
    pub fn new(
        name: &'static str,
        what: impl Into<String>,
        budget: u32,
        body: impl Fn(&mut Ch, &mut Cx) -> Out + Sync + Send + 'static,
    ) -> Run {
        Run { name, what: what.into(), budget, body: Box::new(body) }
    }
}

pub enum One {
    Ok,
    Fail(Fail),
    /// the harness itself failed
    Broken(String),
}

/// runs one execution
pub fn one(run: &Run, budget: u32, ch: &mut Ch, cx: &mut Cx) -> One {
    let _ = budget;
    IN_IMPL.with(|x| x.set(false));
    alloc::arm(true);
    let r = catch_unwind(AssertUnwindSafe(|| (run.body)(ch, cx)));
    alloc::arm(false);
    match r {
        Ok(Ok(())) => One::Ok,
        Ok(Err(f)) => One::Fail(f),
        Err(p) => {
            if p.downcast_ref::<Diverged>().is_some() {
                return One::Broken("replayed choices do not fit the execution".into());
            }
            let m = PANIC.with(|p| p.borrow().clone());
            if IN_IMPL.with(|x| x.get()) {
                One::Fail(Fail::new(format!("the code under test panicked: {m}")))
            } else {
                One::Broken(format!("harness panic: {m}"))
            }
        }
    }
}

struct Entry {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32, // 0: run the bare prefix
}

struct Slot {
    since: AtomicU64,
    choices: Mutex<Vec<u32>>,
}

pub struct Violation {
    pub run: &'static str,
    pub budget: u32,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub hang: bool,
}

#[derive(Default)]
pub struct Report {
    pub cx: Cx,
    pub model: trace::Model,
    pub executions: u64,
    pub points: u64,
    pub longest: u64,
    pub capped: bool,
    pub violation: Option<Violation>,
    pub broken: Option<String>,
    pub wall: f64,
}

pub struct Opts {
    pub workers: usize,
    pub deadline: Instant,
    pub hang_after: Duration,
    pub is_known: fn(&str) -> bool,
}

pub fn explore(run: &Run, budget: u32, opts: &Opts) -> Report {
    let t0 = Instant::now();
    let shared: Mutex<Vec<Entry>> = Mutex::new(vec![Entry { prefix: vec![], lo: 0, hi: 0 }]);
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let slots: Vec<Slot> =
        (0..opts.workers).map(|_| Slot { since: AtomicU64::new(0), choices: Mutex::new(vec![]) }).collect();
    let total: Mutex<Report> = Mutex::new(Report::default());
    let live = AtomicUsize::new(opts.workers);
    let hung: Mutex<Option<Vec<u32>>> = Mutex::new(None);

    std::thread::scope(|s| {
        for w in 0..opts.workers {
            let (shared, cv, idle, stop, capped, found, broken, slots, total, live) =
                (&shared, &cv, &idle, &stop, &capped, &found, &broken, &slots, &total, &live);
            s.spawn(move || {
                WORKER.with(|x| x.set(w + 1));
                let mut cx = Cx::default();
                let mut local: VecDeque<Entry> = VecDeque::new();
                let (mut execs, mut points, mut longest) = (0u64, 0u64, 0u64);
                'outer: loop {
                    let e = match local.pop_back() {
                        Some(e) => e,
                        None => {
                            let mut g = shared.lock().unwrap();
                            idle.fetch_add(1, SeqCst);
                            loop {
                                if stop.load(SeqCst) {
                                    break 'outer;
                                }
                                if let Some(e) = g.pop() {
                                    idle.fetch_sub(1, SeqCst);
                                    break e;
                                }
                                if idle.load(SeqCst) == opts.workers {
                                    stop.store(true, SeqCst);
                                    cv.notify_all();
                                    break 'outer;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                            }
                        }
                    };
                    if stop.load(Relaxed) {
                        break;
                    }
                    let mut prefix = e.prefix;
                    if e.hi > 0 {
                        if e.lo + 1 < e.hi {
                            local.push_back(Entry { prefix: prefix.clone(), lo: e.lo + 1, hi: e.hi });
                        }
                        prefix.push(e.lo);
                    }
                    // share with those who have nothing to do
                    if idle.load(Relaxed) > 0 {
                        if let Some(mut f) = local.pop_front() {
                            if f.hi > f.lo + 1 {
                                let mid = f.lo + (f.hi - f.lo) / 2;
                                local.push_front(Entry { prefix: f.prefix.clone(), lo: f.lo, hi: mid });
                                f.lo = mid;
                            }
                            shared.lock().unwrap().push(f);
                            cv.notify_one();
                        }
                    }
                    {
                        let mut c = slots[w].choices.lock().unwrap();
                        c.clear();
                        c.extend_from_slice(&prefix);
                    }
                    slots[w].since.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                    let mut ch = Ch::new(&prefix, budget);
                    let r = one(run, budget, &mut ch, &mut cx);
                    slots[w].since.store(0, Relaxed);
                    execs += 1;
                    points += (ch.trail.len() - prefix.len().min(ch.trail.len())) as u64;
                    longest = longest.max(ch.trail.len() as u64);
                    match r {
                        One::Ok => {}
                        One::Fail(f) => {
                            if let Some(k) = f.known.as_ref().filter(|k| (opts.is_known)(k)) {
                                let e = cx.known.entry(k.clone()).or_insert((0, f.what.clone()));
                                e.0 += 1;
                                if (f.what.len(), &f.what) < (e.1.len(), &e.1) {
                                    e.1 = f.what.clone();
                                }
                            } else {
                                let mut g = found.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(Violation {
                                        run: run.name,
                                        budget,
                                        choices: ch.choices(),
                                        fail: f,
                                        hang: false,
                                    });
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        One::Broken(m) => {
                            *broken.lock().unwrap() = Some(format!("{}: {m}; choices {:?}", run.name, prefix));
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    for i in prefix.len()..ch.trail.len() {
                        let p = ch.trail[i];
                        if p.open && p.n > 1 {
                            local.push_back(Entry {
                                prefix: ch.trail[..i].iter().map(|p| p.choice).collect(),
                                lo: 1,
                                hi: p.n,
                            });
                        }
                    }
                    if execs % 64 == 0 && Instant::now() > opts.deadline {
                        capped.store(true, SeqCst);
                        stop.store(true, SeqCst);
                        break;
                    }
                }
                idle.fetch_add(1, SeqCst);
                let m = trace::drain();
                let mut t = total.lock().unwrap();
                t.cx.merge(cx);
                t.model.states.extend(m.states);
                t.model.edges.extend(m.edges);
                t.executions += execs;
                t.points += points;
                t.longest = t.longest.max(longest);
                live.fetch_sub(1, SeqCst);
                cv.notify_all();
            });
        }
        // watchdog
        loop {
            if live.load(SeqCst) == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            let now = t0.elapsed().as_millis() as u64 + 1;
            match CRASHED.load(SeqCst) {
                0 => {}
                w if w <= slots.len() => {
                    let choices = slots[w - 1].choices.lock().unwrap().clone();
                    let fail = Fail::new(
                        "the process was aborted inside the code under test (stack overflow, abort or invalid access)",
                    );
                    crate::report::hang(run, Violation { run: run.name, budget, choices, fail, hang: true });
                }
                _ => {
                    eprintln!("ERROR: the harness crashed in {}", run.name);
                    std::process::exit(2);
                }
            }
            for s in &slots {
                let since = s.since.load(Relaxed);
                let late = since > 0 && now.saturating_sub(since) > opts.hang_after.as_millis() as u64;
                if late || alloc::RUNAWAY.load(SeqCst) {
                    // prefer the longest-running slot when memory ran away
                    *hung.lock().unwrap() = Some(s.choices.lock().unwrap().clone());
                    let choices = if late {
                        s.choices.lock().unwrap().clone()
                    } else {
                        slots
                            .iter()
                            .filter(|s| s.since.load(Relaxed) > 0)
                            .min_by_key(|s| s.since.load(Relaxed))
                            .map(|s| s.choices.lock().unwrap().clone())
                            .unwrap_or_default()
                    };
                    let what = if late {
                        format!("one execution did not end within {:?}", opts.hang_after)
                    } else {
                        "one execution allocated more than 6 GiB".to_string()
                    };
                    let v = Violation { run: run.name, budget, choices, fail: Fail::new(what), hang: true };
                    // the stuck thread cannot be joined: report from here and leave
                    crate::report::hang(run, v);
                }
            }
        }
    });
    let mut r = total.into_inner().unwrap();
    r.capped = capped.load(SeqCst);
    r.violation = found.into_inner().unwrap();
    r.broken = broken.into_inner().unwrap();
    r.wall = t0.elapsed().as_secs_f64();
    r
}
