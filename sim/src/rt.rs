//! The simulator: one process, real threads parked and released one at a time, simulated time, and
//! every source of nondeterminism behind a seam. Nothing here knows about proofs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

// ------------------------------------------------------------------ raw system calls

#[inline(always)]
pub unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
fn futex_wait(w: &AtomicU32, v: u32) {
    unsafe { raw(202, w as *const _ as u64, 0, v as u64, 0, 0, 0); }
}
fn futex_wake(w: &AtomicU32) {
    unsafe { raw(202, w as *const _ as u64, 1, 1, 0, 0, 0); }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { raw(231, code as u64, 0, 0, 0, 0, 0); }
    loop {}
}

// ------------------------------------------------------------------ pseudo-random numbers

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(23).wrapping_mul(0xD6E8FEB86659FD93))
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix2(h, u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
    }
    h
}
#[derive(Clone)]
pub struct Prng([u64; 4]);
impl Prng {
    pub fn new(a: u64, b: u64) -> Prng {
        let s0 = mix2(a, b);
        Prng([s0, mix(s0 ^ 1), mix(s0 ^ 2), mix(s0 ^ 3)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn fill(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&x[..n]);
        }
    }
}

// ------------------------------------------------------------------ memory shared with the driver

pub const MAX_CHOICES: usize = 1 << 18;
pub const MAX_RESULT: usize = 1 << 23;
#[repr(C)]
pub struct Shm {
    pub n_choices: AtomicU64,
    pub phase_len: AtomicU32,
    pub in_lib: AtomicU32,
    pub result_len: AtomicU64,
    pub done: AtomicU32,
    pub phase: [u8; 256],
    pub choices: [u64; MAX_CHOICES],
    pub result: [u8; MAX_RESULT],
}
pub fn map_shared(len: usize) -> *mut u8 {
    // mmap(NULL, len, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0)
    let p = unsafe { raw(9, 0, len as u64, 3, 0x21, u64::MAX, 0) };
    assert!(p > 0, "mmap failed");
    p as *mut u8
}
static mut SHM: *mut Shm = null_mut();
pub fn set_shm(p: *mut Shm) {
    unsafe { SHM = p }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn set_phase(s: &str) {
    unsafe {
        if SHM.is_null() {
            return;
        }
        let n = s.len().min(256);
        shm().phase[..n].copy_from_slice(&s.as_bytes()[..n]);
        shm().phase_len.store(n as u32, SeqCst);
    }
}

// ------------------------------------------------------------------ the simulation state of one run

/// How the process under simulation ended when it did not end by itself.
pub const EXIT_OK: i32 = 0;
pub const EXIT_HARNESS: i32 = 77;

pub type Msg = Box<dyn Any + Send>;

enum Ev {
    Wake(usize, u64),
    Deliver(usize, Msg),
    Call(Box<dyn FnOnce() + Send>),
}
struct Item(u64, u64, Ev);
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> std::cmp::Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
}

pub struct Thr {
    word: AtomicU32,
    id: usize,
    name: String,
    epoch: u64,
    done: bool,
    waiting: bool,
    pub slow: u64,
    mail: VecDeque<Msg>,
    pub ctx: *mut JobCtx,
    /// a thread that the library started
    helper: bool,
}

pub struct Sim {
    seedless: bool, // replaying
    replay: Vec<u64>,
    prng: Prng,
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<Item>>,
    thr: Vec<Box<Thr>>,
    main: AtomicU32,
    pub stats: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub hash: u64,
    pub sched: u64,
    pub events: u64,
    /// nothing further is to be simulated
    pub halt: bool,
    last: u64,
    pub preempt_mode: u64,
    pub entropy: u64,
    pub clock_off: i64,
    pub clock_stop: bool,
    lock_spins: u64,
    /// who waits for what lock: (address, node, epoch)
    waiters: Vec<(u64, usize, u64)>,
    /// threads that the library started: (pthread_t, node)
    helpers: Vec<(u64, usize)>,
    /// what they did after the call that started them had ended
    pub late_sys: Vec<String>,
    pub notes: Vec<String>,
}
static mut SIM: *mut Sim = null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

thread_local! {
    static CUR: Cell<*mut JobCtx> = const { Cell::new(null_mut()) };
    static THR: Cell<*mut Thr> = const { Cell::new(null_mut()) };
    static NOHOOK: Cell<u32> = const { Cell::new(0) };
}

pub fn init_sim(seed: u64, stream: u64, replay: Option<Vec<u64>>) {
    shm().n_choices.store(0, SeqCst);
    let s = Sim {
        seedless: replay.is_some(),
        replay: replay.unwrap_or_default(),
        prng: Prng::new(seed, stream),
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        thr: vec![],
        main: AtomicU32::new(1),
        stats: BTreeMap::new(),
        trace: vec![],
        hash: 0,
        sched: 0,
        events: 0,
        halt: false,
        last: 0,
        preempt_mode: 0,
        entropy: 0,
        clock_off: 0,
        clock_stop: false,
        lock_spins: 0,
        waiters: vec![],
        helpers: vec![],
        late_sys: vec![],
        notes: vec![],
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) }
}

/// The one source of choices: every schedule, fault and input decision is one draw. 0 is always the
/// plainest alternative, so that minimisation can move towards it.
pub fn draw(bound: u64) -> u64 {
    let s = sim();
    let i = shm().n_choices.load(Relaxed) as usize;
    if bound <= 1 {
        return 0;
    }
    let v = if s.seedless {
        s.replay.get(i).copied().unwrap_or(0) % bound
    } else {
        s.prng.next() % bound
    };
    if i < MAX_CHOICES {
        shm().choices[i] = v;
        shm().n_choices.store(i as u64 + 1, Relaxed);
    } else {
        stat("inconclusive");
        trace("too many choices".to_string());
        finish(None)
    }
    v
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
/// True with probability num/den; 0 is "no".
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) + num >= den
}
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[draw(v.len() as u64) as usize]
}

pub fn stat(k: &str) {
    stat_n(k, 1)
}
pub fn stat_n(k: &str, n: u64) {
    let _g = nohook();
    *sim().stats.entry(k.to_string()).or_insert(0) += n;
}
pub fn trace(s: String) {
    let _g = nohook();
    let m = sim();
    m.hash = hash_bytes(m.hash ^ m.now, s.as_bytes());
    m.last = m.now;
    let line = format!("[{:>9}.{:03} us] {}", m.now / 1000, m.now % 1000, s);
    if m.trace.len() < 4000 {
        m.trace.push(line);
    }
}

pub struct NoHook;
pub fn nohook() -> NoHook {
    NOHOOK.with(|n| n.set(n.get() + 1));
    NoHook
}
impl Drop for NoHook {
    fn drop(&mut self) {
        NOHOOK.with(|n| n.set(n.get() - 1));
    }
}

// ------------------------------------------------------------------ ending a run

pub fn finish(verdict: Option<(String, String)>) -> ! {
    let _g = nohook();
    let s = sim();
    let mut o = String::new();
    if let Some((c, d)) = &verdict {
        o.push_str(&format!("V\t{}\t{}\n", c, d.replace('\n', " ")));
    }
    let h = match &verdict {
        Some((c, d)) => hash_bytes(hash_bytes(s.hash, c.as_bytes()), d.as_bytes()),
        None => s.hash,
    };
    o.push_str(&format!("H\t{:016x}\t{:016x}\t{}\t{}\n", h, s.sched, s.last, s.events));
    for (k, v) in &s.stats {
        o.push_str(&format!("S\t{}\t{}\n", k, v));
    }
    for n in &s.notes {
        o.push_str(&format!("N\t{}\n", n.replace('\n', " ")));
    }
    for t in &s.trace {
        o.push_str(&format!("T\t{}\n", t.replace('\n', " ")));
        if o.len() > MAX_RESULT - 100_000 {
            break;
        }
    }
    let b = o.as_bytes();
    let n = b.len().min(MAX_RESULT);
    shm().result[..n].copy_from_slice(&b[..n]);
    shm().result_len.store(n as u64, SeqCst);
    shm().done.store(1, SeqCst);
    exit_now(EXIT_OK)
}
/// A mistake of the machinery itself: never reported as a violation.
pub fn harness_error(m: &str) -> ! {
    let _g = nohook();
    let b = format!("E\t{}\n", m.replace('\n', " "));
    let n = b.len().min(MAX_RESULT);
    shm().result[..n].copy_from_slice(&b.as_bytes()[..n]);
    shm().result_len.store(n as u64, SeqCst);
    shm().done.store(2, SeqCst);
    exit_now(EXIT_HARNESS)
}
/// A library call that does not come back within its bounds. The run cannot go on.
pub static mut ON_LIMIT: Option<fn(&str, &str) -> Option<(String, String)>> = None;
fn limit(kind: &str, phase: &str) -> ! {
    let _g = nohook();
    trace(format!("LIMIT {} in {}", kind, phase));
    let v = unsafe { ON_LIMIT.and_then(|f| f(kind, phase)) };
    finish(v)
}

/// Does `f` in a forked copy of this process and brings back its result. No choices may be drawn.
/// If the copy ends otherwise it has reported for the whole run, and this process ends too.
pub const MAX_FORKED: usize = 1 << 18;
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let _g = nohook();
    let buf = map_shared(MAX_FORKED + 16);
    let len = unsafe { &*(buf as *const AtomicU64) };
    len.store(u64::MAX, SeqCst);
    let before = shm().n_choices.load(SeqCst);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        harness_error("fork failed");
    }
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        NOHOOK.with(|n| n.set(0));
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| harness_error("panic in a forked step"));
        let _g = nohook();
        if r.len() > MAX_FORKED {
            harness_error("forked result too long");
        }
        unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), buf.add(16), r.len()) };
        len.store(r.len() as u64, SeqCst);
        exit_now(EXIT_OK);
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    if before != shm().n_choices.load(SeqCst) {
        harness_error("a forked step drew choices");
    }
    let n = len.load(SeqCst);
    if n == u64::MAX {
        // it has said why, or died in a library call; this process ends the same way
        if libc::WIFSIGNALED(st) {
            unsafe {
                libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                libc::raise(libc::WTERMSIG(st));
            }
        }
        exit_now(libc::WEXITSTATUS(st));
    }
    let mut v = vec![0u8; n as usize];
    unsafe {
        std::ptr::copy_nonoverlapping(buf.add(16), v.as_mut_ptr(), v.len());
        libc::munmap(buf as *mut _, MAX_FORKED + 16);
    }
    shm().in_lib.store(0, SeqCst);
    v
}

// ------------------------------------------------------------------ threads

fn schedule(at: u64, e: Ev) {
    let s = sim();
    s.seq += 1;
    let q = s.seq;
    s.heap.push(Reverse(Item(at, q, e)));
}
pub fn at(t: u64, f: impl FnOnce() + Send + 'static) {
    let _g = nohook();
    let t = t.max(sim().now);
    schedule(t, Ev::Call(Box::new(f)));
}
pub fn deliver(to: usize, delay: u64, m: Msg) {
    let _g = nohook();
    schedule(sim().now + delay, Ev::Deliver(to, m));
}

/// Starts a node: a real thread that only ever runs when the simulator lets it.
pub fn spawn(name: &str, slow: u64, delay: u64, f: impl FnOnce() + Send + 'static) -> usize {
    let _g = nohook();
    let id = sim().thr.len();
    let t = Box::new(Thr {
        word: AtomicU32::new(0),
        id,
        name: name.to_string(),
        epoch: 0,
        done: false,
        waiting: false,
        slow,
        mail: VecDeque::new(),
        ctx: null_mut(),
        helper: false,
    });
    sim().thr.push(t);
    let p = &mut **sim().thr.last_mut().unwrap() as *mut Thr as usize;
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let t = unsafe { &mut *(p as *mut Thr) };
            while t.word.load(Acquire) == 0 {
                futex_wait(&t.word, 0);
            }
            THR.with(|c| c.set(t));
            let r = catch_unwind(AssertUnwindSafe(f));
            if r.is_err() {
                harness_error(&format!("node {} panicked outside the library", t.name));
            }
            t.done = true;
            t.word.store(0, Release);
            sim().main.store(1, Release);
            futex_wake(&sim().main);
            // stay parked: thread destructors must not run outside the schedule
            loop {
                futex_wait(&t.word, 0);
            }
        })
        .unwrap_or_else(|_| harness_error("cannot start a thread"));
    let now = sim().now;
    schedule(now + delay, Ev::Wake(id, 0));
    id
}
fn switch_to(id: usize, why: u64) {
    let s = sim();
    let now = s.now;
    s.sched = mix2(s.sched, mix2(id as u64 * 8 + why, now / 1000));
    let t = &mut *s.thr[id] as *mut Thr;
    let t = unsafe { &mut *t };
    s.main.store(0, Relaxed);
    t.epoch += 1;
    t.word.store(1, Release);
    futex_wake(&t.word);
    let s = sim();
    while s.main.load(Acquire) == 0 {
        futex_wait(&s.main, 0);
    }
}
fn switch_back() {
    let t = unsafe { &*THR.with(|c| c.get()) };
    t.word.store(0, Relaxed);
    let s = sim();
    s.main.store(1, Release);
    futex_wake(&s.main);
    while t.word.load(Acquire) == 0 {
        futex_wait(&t.word, 0);
    }
}
fn me() -> Option<&'static mut Thr> {
    let p = THR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
pub fn my_id() -> usize {
    me().map(|t| t.id).unwrap_or(usize::MAX)
}
/// Simulated time passes for this node.
pub fn sleep(d: u64) {
    let _g = nohook();
    match me() {
        Some(t) => {
            let now = sim().now;
            schedule(now + d, Ev::Wake(t.id, t.epoch));
            switch_back();
        }
        None => sim().now += d,
    }
}
/// Waits for a message, at most for `d`.
pub fn recv(d: u64) -> Option<Msg> {
    let _g = nohook();
    let t = me().expect("recv outside a node");
    if let Some(m) = t.mail.pop_front() {
        return Some(m);
    }
    t.waiting = true;
    let now = sim().now;
    schedule(now + d, Ev::Wake(t.id, t.epoch));
    switch_back();
    t.waiting = false;
    t.mail.pop_front()
}
pub fn pending_mail() -> usize {
    me().map(|t| t.mail.len()).unwrap_or(0)
}
/// Runs the schedule until nothing is left to happen or the bounds are reached.
pub fn run(max_time: u64, max_events: u64) -> bool {
    loop {
        if sim().halt {
            return true;
        }
        let it = match sim().heap.pop() {
            None => return true,
            Some(Reverse(i)) => i,
        };
        if it.0 > max_time || sim().events > max_events {
            return false;
        }
        sim().events += 1;
        sim().now = sim().now.max(it.0);
        match it.2 {
            Ev::Wake(id, ep) => {
                let t = &sim().thr[id];
                if !t.done && t.epoch == ep {
                    switch_to(id, 1);
                }
            }
            Ev::Deliver(id, m) => {
                if id >= sim().thr.len() || sim().thr[id].done {
                    continue;
                }
                sim().thr[id].mail.push_back(m);
                if sim().thr[id].waiting {
                    switch_to(id, 2);
                }
            }
            Ev::Call(f) => f(),
        }
    }
}
pub fn all_done() -> bool {
    sim().thr.iter().all(|t| t.done)
}
/// The call a node is in the middle of, if any (for faults that hit it there).
pub fn ctx_of(id: usize) -> Option<&'static mut JobCtx> {
    let p = sim().thr[id].ctx;
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

// ------------------------------------------------------------------ library calls

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Append(&'static [u8], Vec<u8>),
    Chal(&'static [u8], Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// The library panicked
    Panic(String),
    /// The simulator crashed the call
    Crash,
    /// The entropy source failed and the call gave up
    Entropy,
}
struct Injected;

#[derive(Clone)]
pub struct JobCtx {
    pub name: String,
    /// which entropy this call gets
    pub stream: u64,
    pub draws: Vec<Vec<u8>>,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub flips: Vec<(usize, usize)>,
    pub over: BTreeMap<usize, Vec<u8>>,
    pub slow_draw: Option<(usize, u64)>,
    /// time spent waiting for locks, the last wait, and when it was
    waited: u64,
    wait: u64,
    wait_steps: u64,
    polls: u64,
    /// not preempted, and at the usual speed
    pub calm: bool,
    pub log: bool,
    pub ops: Vec<Op>,
    pub chal_n: usize,
    pub chal_flip: Option<(usize, usize, u8)>,
    pub steps: u64,
    pub bytes: u64,
    pub max_steps: u64,
    pub max_bytes: u64,
    pub abort_at: u64,
    budget: i64,
    pub preempts: u64,
    pub points: u64,
    pub sys: Vec<String>,
    pub stream_fault: u8,
    panic_msg: String,
    /// in a thread that the library started: the call it works for
    root: *mut JobCtx,
    /// threads started, and draws made, by this thread
    helpers: u64,
    drawn: usize,
    ended: bool,
    root_in_node: bool,
}
pub fn job(name: &str, stream: u64) -> JobCtx {
    JobCtx {
        name: name.to_string(),
        stream,
        draws: vec![],
        fail_at: None,
        failed: false,
        flips: vec![],
        over: BTreeMap::new(),
        slow_draw: None,
        waited: 0,
        wait: 0,
        wait_steps: u64::MAX,
        polls: 0,
        calm: false,
        log: false,
        ops: vec![],
        chal_n: 0,
        chal_flip: None,
        steps: 0,
        bytes: 0,
        max_steps: 40_000_000,
        max_bytes: 1 << 30,
        abort_at: 0,
        budget: 0,
        preempts: 0,
        points: 0,
        sys: vec![],
        stream_fault: 0,
        panic_msg: String::new(),
        root: null_mut(),
        helpers: 0,
        drawn: 0,
        ended: false,
        root_in_node: false,
    }
}
fn next_budget() -> i64 {
    match sim().preempt_mode {
        0 => 0,
        1 => match draw(8) {
            0..=2 => 0,
            3 => 1 + draw(4) as i64,
            4..=5 => 1 + draw(64) as i64,
            6 => 1 + draw(512) as i64,
            _ => 1 + draw(4096) as i64,
        },
        // fine-grained
        _ => 1 + draw(24) as i64,
    }
}

/// Runs library code under the simulator.
pub fn lib<T>(cx: JobCtx, f: impl FnOnce() -> T) -> (Result<T, Fail>, JobCtx) {
    let mut cx = Box::new(cx);
    set_phase(&cx.name);
    cx.budget = if me().is_some() && !cx.calm { next_budget() } else { 0 };
    let p: *mut JobCtx = &mut *cx;
    if let Some(t) = me() {
        t.ctx = p;
    }
    shm().in_lib.store(1, SeqCst);
    crate::traps::arm();
    CUR.with(|c| c.set(p));
    let r = catch_unwind(AssertUnwindSafe(f));
    // anything the library printed without a newline is still in the buffer of stdout
    let _ = catch_unwind(|| {
        use std::io::Write;
        let _ = std::io::stdout().flush();
    });
    CUR.with(|c| c.set(null_mut()));
    shm().in_lib.store(0, SeqCst);
    NOHOOK.with(|n| n.set(0));
    if cx.helpers > 0 && me().is_none() {
        // let them do whatever they still want to do
        let mut i = 0;
        while pump() && i < 10_000 {
            i += 1;
        }
    }
    cx.sys.extend(crate::traps::drain());
    cx.ended = true;
    if let Some(t) = me() {
        t.ctx = null_mut();
        // computing takes time
        let slow = if cx.calm { 1 } else { t.slow.max(1) };
        let d = (cx.steps - cx.points.min(cx.steps)) * 20 * slow + 1000;
        sleep(d);
    }
    let r = match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Injected>() {
                Err(Fail::Crash)
            } else if cx.failed {
                Err(Fail::Entropy)
            } else {
                Err(Fail::Panic(std::mem::take(&mut cx.panic_msg)))
            }
        }
    };
    if cx.helpers > 0 {
        // threads it started may still refer to it
        return (r, Box::leak(cx).clone());
    }
    (r, *cx)
}

#[derive(PartialEq, Clone, Copy)]
enum Point {
    Alloc,
    Proto,
}
fn point(kind: Point) {
    let c = CUR.with(|c| c.get());
    if c.is_null() || NOHOOK.with(|n| n.get()) > 0 {
        return;
    }
    NOHOOK.with(|n| n.set(1));
    let c = unsafe { &mut *c };
    c.steps += 1;
    if c.steps > c.max_steps {
        limit("steps", &c.name);
    }
    if kind == Point::Proto && c.abort_at > 0 {
        c.abort_at -= 1;
        if c.abort_at == 0 {
            NOHOOK.with(|n| n.set(0));
            resume_unwind(Box::new(Injected));
        }
    }
    if c.budget > 0 {
        c.budget -= 1;
        if c.budget == 0 {
            let t = me().unwrap();
            c.preempts += 1;
            let s = sim();
            *s.stats.entry("sched.preemption".into()).or_insert(0) += 1;
            let d = (c.steps - c.points) * 20 * t.slow.max(1) + draw(4) * 500;
            c.points = c.steps;
            let now = s.now;
            schedule(now + d, Ev::Wake(t.id, t.epoch));
            shm().in_lib.store(0, SeqCst);
            switch_back();
            shm().in_lib.store(1, SeqCst);
            set_phase(&c.name);
            c.budget = next_budget();
        }
    }
    NOHOOK.with(|n| n.set(0));
}
/// So long a call waits for locks in one call before it counts as blocked. Any call of any node, however
/// slow, is done in less.
const MAX_WAIT: u64 = 400_000_000_000;
/// The library waits for a lock: let others run.
fn lock_wait(addr: u64, timed: bool) {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        return;
    }
    let c = unsafe { &mut *c };
    let _g = nohook();
    let s = sim();
    s.lock_spins += 1;
    *s.stats.entry("sched.lock_wait".into()).or_insert(0) += 1;
    // (a thread the library started may well wait for work; those who wait for it count)
    if c.waited > MAX_WAIT && c.root.is_null() {
        limit("blocked", &c.name);
    }
    match me() {
        Some(t) => {
            // who holds the lock may be slow, stalled or waiting for entropy: back off
            if c.wait_steps != c.steps {
                c.wait_steps = c.steps;
                c.wait = 0;
                c.polls = 0;
            }
            c.wait = (c.wait * 2).max(2_000).min(200_000_000);
            let now = s.now;
            if addr != 0 {
                s.waiters.push((addr, t.id, t.epoch));
            }
            c.polls += 1;
            if c.root.is_null() || addr == 0 || timed || c.polls < 64 {
                schedule(now + c.wait, Ev::Wake(t.id, t.epoch));
            }
            shm().in_lib.store(0, SeqCst);
            switch_back();
            shm().in_lib.store(1, SeqCst);
            set_phase(&c.name);
            s.waiters.retain(|w| w.1 != t.id);
            c.waited += s.now - now;
        }
        None => {
            if pump() {
                s.lock_spins -= 1;
            } else if s.lock_spins > 100 {
                limit("blocked", &c.name);
            }
        }
    }
}

// ------------------------------------------------------------------ threads that the library starts

/// Outside the message flow: lets a thread that the library started go on. False if there is none.
fn pump() -> bool {
    let _g = nohook();
    let mut aside = vec![];
    let mut found = false;
    while let Some(Reverse(i)) = sim().heap.pop() {
        if let Ev::Wake(id, ep) = &i.2 {
            let t = &sim().thr[*id];
            if t.helper {
                if !t.done && t.epoch == *ep {
                    let id = *id;
                    sim().now = sim().now.max(i.0);
                    switch_to(id, 3);
                    found = true;
                    break;
                }
                continue;
            }
        }
        aside.push(Reverse(i));
    }
    sim().heap.extend(aside);
    if !CUR.with(|c| c.get()).is_null() {
        shm().in_lib.store(1, SeqCst);
    }
    found
}
type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
type Create = unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32;
extern "C" {
    fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
}
unsafe fn next(name: &std::ffi::CStr) -> *mut u8 {
    // RTLD_NEXT
    let p = dlsym(-1i64 as *mut u8, name.as_ptr());
    if p.is_null() {
        harness_error("a function of the C library is missing");
    }
    p
}
struct Helper {
    thr: usize,
    cx: *mut JobCtx,
    start: Start,
    arg: *mut u8,
}
unsafe extern "C" fn helper_main(p: *mut u8) -> *mut u8 {
    let h = Box::from_raw(p as *mut Helper);
    let t = &mut *(h.thr as *mut Thr);
    while t.word.load(Acquire) == 0 {
        futex_wait(&t.word, 0);
    }
    THR.with(|c| c.set(t));
    t.ctx = h.cx;
    (*h.cx).budget = if (*h.cx).root_in_node { next_budget() } else { 0 };
    set_phase(&(*h.cx).name);
    shm().in_lib.store(1, SeqCst);
    CUR.with(|c| c.set(h.cx));
    (h.start)(h.arg);
    let addr = &t.done as *const bool as u64;
    let _g = nohook();
    shm().in_lib.store(0, SeqCst);
    t.ctx = null_mut();
    t.done = true;
    let s = sim();
    let now = s.now;
    let who: Vec<_> = s.waiters.iter().filter(|w| w.0 == addr).cloned().collect();
    for (_, id, epoch) in who {
        schedule(now, Ev::Wake(id, epoch));
    }
    t.word.store(0, Release);
    s.main.store(1, Release);
    futex_wake(&s.main);
    loop {
        futex_wait(&t.word, 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    static REAL: AtomicU64 = AtomicU64::new(0);
    if REAL.load(Relaxed) == 0 {
        REAL.store(next(c"pthread_create") as u64, Relaxed);
    }
    let real: Create = std::mem::transmute(REAL.load(Relaxed));
    let c = CUR.with(|c| c.get());
    if c.is_null() || NOHOOK.with(|n| n.get()) > 0 {
        return real(out, attr, start, arg);
    }
    let _g = nohook();
    let c = &mut *c;
    c.helpers += 1;
    *sim().stats.entry("sched.library_thread".into()).or_insert(0) += 1;
    if c.helpers > 256 {
        limit("threads", &c.name);
    }
    let root = if c.root.is_null() { c as *mut JobCtx } else { c.root };
    let mut cx = Box::new(job(&c.name, mix2(c.stream, 0x7ead + c.helpers)));
    cx.root = root;
    cx.root_in_node = me().is_some_and(|t| !t.helper || c.root_in_node);
    cx.stream_fault = c.stream_fault;
    cx.max_steps = c.max_steps;
    cx.max_bytes = c.max_bytes;
    let in_node = cx.root_in_node;
    let id = sim().thr.len();
    sim().thr.push(Box::new(Thr {
        word: AtomicU32::new(0),
        id,
        name: format!("helper of {}", c.name),
        epoch: 0,
        done: false,
        waiting: false,
        slow: me().map(|t| t.slow).unwrap_or(1),
        mail: VecDeque::new(),
        ctx: null_mut(),
        helper: true,
    }));
    let thr = &mut **sim().thr.last_mut().unwrap() as *mut Thr as usize;
    let h = Box::into_raw(Box::new(Helper { thr, cx: Box::into_raw(cx), start, arg }));
    let r = real(out, attr, helper_main, h as *mut u8);
    if r != 0 {
        harness_error("cannot start a thread");
    }
    sim().helpers.push((*out, id));
    let d = if in_node { draw(4) * 700 } else { 0 };
    let now = sim().now;
    schedule(now + d, Ev::Wake(id, 0));
    0
}
fn helper_of(th: u64) -> Option<usize> {
    if unsafe { SIM.is_null() } {
        return None;
    }
    sim().helpers.iter().rev().find(|h| h.0 == th).map(|h| h.1)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, out: *mut *mut u8) -> i32 {
    if let Some(id) = helper_of(th) {
        let t = &*sim().thr[id] as *const Thr;
        let addr = &(*t).done as *const bool as u64;
        while !std::ptr::read_volatile(&(*t).done) {
            lock_wait(addr, false);
        }
        if !out.is_null() {
            *out = null_mut();
        }
        return 0;
    }
    let real: unsafe extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(next(c"pthread_join"));
    real(th, out)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: u64) -> i32 {
    if helper_of(th).is_some() {
        return 0;
    }
    let real: unsafe extern "C" fn(u64) -> i32 = std::mem::transmute(next(c"pthread_detach"));
    real(th)
}

/// The library wakes those who wait for a lock; who goes first is up to the scheduler.
fn lock_wake(addr: u64, count: usize) {
    let c = CUR.with(|c| c.get());
    let t = match me() {
        Some(t) if !c.is_null() => t,
        _ => return,
    };
    let c = unsafe { &mut *c };
    let _g = nohook();
    let s = sim();
    let who: Vec<_> = s.waiters.iter().filter(|w| w.0 == addr).take(count).cloned().collect();
    if who.is_empty() {
        return;
    }
    let now = s.now;
    for (_, id, epoch) in who {
        schedule(now, Ev::Wake(id, epoch));
    }
    *s.stats.entry("sched.lock_wake".into()).or_insert(0) += 1;
    if draw(2) == 1 {
        *s.stats.entry("sched.lock_handover".into()).or_insert(0) += 1;
        schedule(now + 1 + draw(4) * 500, Ev::Wake(t.id, t.epoch));
        shm().in_lib.store(0, SeqCst);
        switch_back();
        shm().in_lib.store(1, SeqCst);
        set_phase(&c.name);
    }
}

// ------------------------------------------------------------------ seam: entropy and transcript

pub fn entropy_bytes(stream: u64, idx: usize, d: &mut [u8]) {
    let mut p = Prng::new(mix2(sim().entropy, stream), idx as u64);
    p.fill(d);
}
fn h_entropy(os: bool, d: &mut [u8]) -> bool {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        Prng::new(0x5eed, d.len() as u64).fill(d);
        return true;
    }
    point(Point::Proto);
    let own = unsafe { &mut *c };
    let c = if own.root.is_null() { unsafe { &mut *c } } else { unsafe { &mut *own.root } };
    let _g = nohook();
    let i = c.draws.len();
    let k = own.drawn;
    own.drawn += 1;
    if let Some((j, dt)) = c.slow_draw {
        if i == j {
            *sim().stats.entry("fault.slow_entropy".into()).or_insert(0) += 1;
            sleep(dt);
        }
    }
    if let Some(f) = c.fail_at {
        if i >= f {
            if !c.failed {
                *sim().stats.entry("fault.entropy_outage".into()).or_insert(0) += 1;
            }
            c.failed = true;
            own.failed = true;
            return false;
        }
    }
    let _ = os;
    match c.over.get(&i) {
        Some(v) if v.len() == d.len() => d.copy_from_slice(v),
        _ => entropy_bytes(own.stream, k, d),
    }
    for (j, b) in &c.flips {
        if *j == i && *b < d.len() {
            d[*b] ^= 0x55;
        }
    }
    c.draws.push(d.to_vec());
    true
}
fn h_append(label: &'static [u8], m: &[u8]) {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        return;
    }
    point(Point::Proto);
    let c = unsafe { &mut *c };
    if c.log {
        let _g = nohook();
        c.ops.push(Op::Append(label, m.to_vec()));
    }
}
fn h_challenge(label: &'static [u8], d: &mut [u8]) {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        return;
    }
    point(Point::Proto);
    let c = unsafe { &mut *c };
    let _g = nohook();
    if let Some((i, b, x)) = c.chal_flip {
        if i == c.chal_n {
            let n = d.len();
            if n > 0 {
                d[b % n] ^= x;
            }
        }
    }
    c.chal_n += 1;
    if c.log {
        c.ops.push(Op::Chal(label, d.to_vec()));
    }
}
pub fn install() {
    seam::install(seam::Hooks { entropy: h_entropy, append: h_append, challenge: h_challenge });
    std::panic::set_hook(Box::new(|i| {
        let _g = nohook();
        let c = CUR.with(|c| c.get());
        let m = format!("{}", i);
        if c.is_null() {
            if unsafe { !SHM.is_null() && !SIM.is_null() } {
                harness_error(&format!("panic in the harness: {}", m));
            }
            let m = m + "\n";
            unsafe { raw(1, 2, m.as_ptr() as u64, m.len() as u64, 0, 0, 0); }
        } else {
            unsafe { (*c).panic_msg = m };
        }
    }));
}

// ------------------------------------------------------------------ seam: allocator

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note_alloc(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}
#[inline]
fn note_alloc(n: usize) {
    let c = CUR.with(|c| c.get());
    if c.is_null() || NOHOOK.with(|n| n.get()) > 0 {
        return;
    }
    let c = unsafe { &mut *c };
    c.bytes += n as u64;
    if c.bytes > c.max_bytes {
        NOHOOK.with(|n| n.set(1));
        limit("memory", &c.name);
    }
    point(Point::Alloc);
}

// ------------------------------------------------------------------ seam: system calls

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
pub fn current_job() -> bool {
    !CUR.with(|c| c.get()).is_null()
}
/// In a library call: note the system call. True if it was noted (and must not really happen).
pub fn noted(f: impl FnOnce() -> String) -> Option<&'static mut JobCtx> {
    let c = CUR.with(|c| c.get());
    if c.is_null() {
        return None;
    }
    let c = unsafe { &mut *c };
    let _g = nohook();
    let root = if c.root.is_null() { &mut *c } else { unsafe { &mut *c.root } };
    if root.ended {
        sim().late_sys.push(f());
    } else if root.sys.len() < 64 {
        root.sys.push(f());
    }
    Some(c)
}
fn text(p: *const u8, n: usize) -> String {
    if p.is_null() {
        return String::new();
    }
    let b = unsafe { std::slice::from_raw_parts(p, n.min(60)) };
    String::from_utf8_lossy(b).into_owned()
}
fn cstr(p: *const i8) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }
}
fn stream_result(c: &mut JobCtx, n: usize) -> i64 {
    let e = match c.stream_fault {
        1 => -32, // EPIPE
        2 => -28, // ENOSPC
        3 => -5,  // EIO
        4 => -9,  // EBADF
        5 => return (n as i64 + 1) / 2, // short write
        _ => return n as i64,
    };
    *sim().stats.entry("fault.stream_error".into()).or_insert(0) += 1;
    e
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if let Some(c) = noted(|| format!("write(fd {}, {} bytes: {:?})", fd, n, text(p, n))) {
        return ret(stream_result(c, n)) as isize;
    }
    ret(raw(1, fd as u64, p as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if CUR.with(|c| c.get()).is_null() {
        return ret(raw(20, fd as u64, v as u64, n as u64, 0, 0, 0)) as isize;
    }
    let mut tot = 0;
    for i in 0..n as usize {
        tot += (*v.add(i)).iov_len;
    }
    let c = noted(|| format!("writev(fd {}, {} bytes)", fd, tot)).unwrap();
    ret(stream_result(c, tot)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if noted(|| format!("read(fd {}, {} bytes)", fd, n)).is_some() {
        return 0;
    }
    ret(raw(0, fd as u64, p as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, fl: i32, mode: u32) -> i32 {
    if noted(|| format!("open({:?})", cstr(path))).is_some() {
        return ret(-13) as i32;
    }
    ret(raw(2, path as u64, fl as u64, mode as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, fl: i32, mode: u32) -> i32 {
    open(path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, path: *const i8, fl: i32, mode: u32) -> i32 {
    if noted(|| format!("openat({:?})", cstr(path))).is_some() {
        return ret(-13) as i32;
    }
    ret(raw(257, d as u64, path as u64, fl as u64, mode as u64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const i8, fl: i32, mode: u32) -> i32 {
    openat(d, path, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
    if noted(|| "socket()".to_string()).is_some() {
        return ret(-13) as i32;
    }
    ret(raw(41, a as u64, b as u64, c as u64, 0, 0, 0)) as i32
}
/// (In a module of its own because some of these names, like `stat`, are taken here.)
mod libc_seam {
use super::*;
/// Calls that are noted and refused in library code, and go to the kernel elsewhere.
macro_rules! seam {
    ($($name:ident $nr:literal ($($a:ident),*) $path:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: u64),*) -> i64 {
            let args: [u64; 6] = seam!(@pad $($a),*);
            if noted(|| seam!(@text $path $name args)).is_some() {
                return ret(-13);
            }
            ret(raw($nr, args[0], args[1], args[2], args[3], args[4], args[5]))
        }
    )* };
    (@pad $($a:ident),*) => {{
        let mut v = [0u64; 6];
        let mut _i = 0;
        $( v[_i] = $a; _i += 1; )*
        v
    }};
    (@text p0 $name:ident $v:ident) => { format!("{}({:?})", stringify!($name), cstr($v[0] as *const i8)) };
    (@text p1 $name:ident $v:ident) => { format!("{}({:?})", stringify!($name), cstr($v[1] as *const i8)) };
    (@text no $name:ident $v:ident) => { format!("{}()", stringify!($name)) };
}
seam! {
    stat 4 (a, b) p0;
    stat64 4 (a, b) p0;
    lstat 6 (a, b) p0;
    lstat64 6 (a, b) p0;
    fstatat 262 (a, b, c, d) p1;
    fstatat64 262 (a, b, c, d) p1;
    statx 332 (a, b, c, d, e) p1;
    access 21 (a, b) p0;
    faccessat 269 (a, b, c) p1;
    readlink 89 (a, b, c) p0;
    rename 82 (a, b) p0;
    rmdir 84 (a) p0;
    chdir 80 (a) p0;
    creat 85 (a, b) p0;
    pwrite64 18 (a, b, c, d) no;
    pread64 17 (a, b, c, d) no;
    connect 42 (a, b, c) no;
    bind 49 (a, b, c) no;
    sendto 44 (a, b, c, d, e, f) no;
    sendmsg 46 (a, b, c) no;
    recvfrom 45 (a, b, c, d, e, f) no;
    kill 62 (a, b) no;
    dup2 33 (a, b) no;
    uname 63 (a) no;
    sysinfo 99 (a) no;
    getrusage 98 (a, b) no;
    times 100 (a) no;
    getpid 39 () no;
    getppid 110 () no;
    getuid 102 () no;
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: u64, p: u64, n: u64, fl: u64) -> i64 {
    sendto(fd, p, n, fl, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: u64) -> *mut u8 {
    if noted(|| "getcwd()".to_string()).is_some() {
        ret(-13);
        return null_mut();
    }
    if ret(raw(79, p as u64, n, 0, 0, 0, 0)) < 0 {
        return null_mut();
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    if noted(|| "time()".to_string()).is_some() {
        sim_clock(ts.as_mut_ptr());
    } else {
        raw(228, 0, ts.as_mut_ptr() as u64, 0, 0, 0, 0);
    }
    if !t.is_null() {
        *t = ts[0];
    }
    ts[0]
}
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const i8) -> i32 {
    if noted(|| format!("unlink({:?})", cstr(path))).is_some() {
        return ret(-13) as i32;
    }
    ret(raw(87, path as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const i8, m: u32) -> i32 {
    if noted(|| format!("mkdir({:?})", cstr(path))).is_some() {
        return ret(-13) as i32;
    }
    ret(raw(83, path as u64, m as u64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if !CUR.with(|c| c.get()).is_null() || !SIM.is_null() {
        let ok = h_entropy(true, std::slice::from_raw_parts_mut(p, n));
        return ret(if ok { n as i64 } else { -5 }) as isize;
    }
    ret(raw(318, p as u64, n as u64, fl as u64, 0, 0, 0)) as isize
}
pub fn sim_clock(ts: *mut i64) -> i32 {
    let s = sim();
    let base = 1_700_000_000_000_000_000i64;
    let t = base + s.clock_off + if s.clock_stop { 0 } else { s.now as i64 };
    unsafe {
        *ts = t.div_euclid(1_000_000_000);
        *ts.add(1) = t.rem_euclid(1_000_000_000);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if noted(|| format!("clock_gettime({})", id)).is_some() {
        return sim_clock(ts);
    }
    ret(raw(228, id as u64, ts as u64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, _z: *mut u8) -> i32 {
    if noted(|| "gettimeofday()".to_string()).is_some() {
        sim_clock(tv);
        *tv.add(1) /= 1000;
        return 0;
    }
    ret(raw(96, tv as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, _rem: *mut i64) -> i32 {
    if noted(|| "nanosleep()".to_string()).is_some() {
        sleep((*req as u64) * 1_000_000_000 + *req.add(1) as u64);
        return 0;
    }
    ret(raw(35, req as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const i64, rem: *mut i64) -> i32 {
    if noted(|| "clock_nanosleep()".to_string()).is_some() {
        sleep((*req as u64) * 1_000_000_000 + *req.add(1) as u64);
        return 0;
    }
    -(raw(230, id as u64, fl as u64, req as u64, rem as u64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !CUR.with(|c| c.get()).is_null() {
        lock_wait(0, false);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    // (these the standard library asks for by itself, when it starts a thread or reports a panic)
    let own = std::ffi::CStr::from_ptr(name).to_bytes();
    if own != b"RUST_MIN_STACK" && own != b"RUST_BACKTRACE" && own != b"RUST_LIB_BACKTRACE" {
        noted(|| format!("getenv({:?})", cstr(name)));
    }
    extern "C" {
        static environ: *const *const i8;
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    #[allow(static_mut_refs)]
    for e in &crate::traps::ENV {
        let e = std::ffi::CStr::from_ptr(*e).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (e.as_ptr() as *const i8).add(want.len() + 1);
        }
    }
    #[allow(static_mut_refs)]
    if !crate::traps::ENV.is_empty() {
        return std::ptr::null();
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null();
    }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if !CUR.with(|c| c.get()).is_null() {
        match n {
            202 => {
                // futex; WAIT (0) and WAIT_BITSET (9) hand the processor to another node
                let op = (b & 0x7f) as u32;
                if op == 0 || op == 9 {
                    if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                        return ret(-11);
                    }
                    lock_wait(a, d != 0);
                    return 0;
                }
                if op == 1 || op == 10 {
                    lock_wake(a, c as usize);
                }
            }
            318 => {
                if a == 0 || b == 0 {
                    return 0;
                }
                let ok = h_entropy(true, std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
                return ret(if ok { b as i64 } else { -5 });
            }
            24 => {
                lock_wait(0, false);
                return 0;
            }
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
