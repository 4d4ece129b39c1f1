//! A net below the seams of `rt`: what library code can reach without going through a libc
//! function that the simulator provides. System calls that the simulator itself never makes inside a
//! run are trapped (seccomp) and refused; the command line and the environment are behind a guard
//! page; the time stamp counter shows simulated time. All of it is noted as an effect of the call.
use crate::rt::*;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static ARGV: AtomicU64 = AtomicU64::new(0);
static GUARD: AtomicU64 = AtomicU64::new(0);
static GUARD_LEN: AtomicU64 = AtomicU64::new(0);
static LIFTED: AtomicBool = AtomicBool::new(true);
/// the environment as it was: what the seam of getenv reads
pub static mut ENV: Vec<*const i8> = Vec::new();

extern "C" fn keep_args(_c: i32, v: *const *const i8, _e: *const *const i8) {
    ARGV.store(v as u64, SeqCst);
}
#[link_section = ".init_array"]
#[used]
static KEEP: extern "C" fn(i32, *const *const i8, *const *const i8) = keep_args;

const TRAPPED: &[u32] = &[
    0, 1, 20, 2, 257, 85, 437, 87, 263, 82, 264, 316, 83, 258, 84, 86, 265, 88, 266, 90, 91, 268, 92, 93, 94, 260, 76, 77, 78, 217,
    79, 80, 81, 4, 6, 262, 332, 21, 269, 439, 89, 267, 137, 41, 42, 43, 288, 44, 45, 46, 47, 49, 50, 53, 307, 299, 57, 58, 59,
    322, 62, 200, 129, 63, 22, 293, 32, 33, 292, 99, 100, 98, 29, 30, 31, 68, 69, 70, 240, 319, 253, 294, 213, 291, 290,
    284, 283, 425, 38, 36, 37, 159, 227, 201, 96, 101, 95, 103, 16, 72, 40, 275, 326, 310, 311, 170, 171, 161, 165, 169, 18,
    17, 296, 295, 19, 8,
];
#[repr(C)]
struct Ins {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    ins: *const Ins,
}

// What was met, as codes: a signal handler must not allocate. Sorted out by `drain`.
static MET: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static N_MET: AtomicU64 = AtomicU64::new(0);
const ARGS: u64 = 1 << 20;
const TSC: u64 = 1 << 21;
fn met(x: u64) {
    let i = N_MET.fetch_add(1, SeqCst);
    if i < 16 {
        MET[i as usize].store(x, SeqCst);
    }
}
fn in_library() -> bool {
    current_job()
}
/// What library code did since the last time.
pub fn drain() -> Vec<String> {
    let n = N_MET.swap(0, SeqCst).min(16);
    (0..n as usize)
        .map(|i| match MET[i].load(SeqCst) {
            ARGS => "a look at the command line or the environment".to_string(),
            TSC => "a look at the time stamp counter".to_string(),
            x => format!("system call {}", x),
        })
        .collect()
}

extern "C" fn on_sys(_s: i32, i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let nr = *((i as *const u8).add(24) as *const i32);
        let uc = &mut *(u as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        if !in_library() {
            harness_error(&format!("system call {} outside library code", nr));
        }
        met(nr as u64);
        g[libc::REG_RAX as usize] = -13;
    }
}
extern "C" fn on_segv(_s: i32, i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let a = (*i).si_addr() as u64;
        let (p, n) = (GUARD.load(SeqCst), GUARD_LEN.load(SeqCst));
        if p != 0 && a >= p && a < p + n && !LIFTED.load(SeqCst) {
            if in_library() {
                met(ARGS);
            }
            lift();
            return;
        }
        let uc = &mut *(u as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        if (*i).si_code == 128 {
            // (general protection: not a page fault, so the instruction can be read)
            let ip = g[libc::REG_RIP as usize] as *const u8;
            let n = match (*ip, *ip.add(1)) {
                (0x0f, 0x31) => 2,
                (0x0f, 0x01) if *ip.add(2) == 0xf9 => 3,
                _ => 0,
            };
            if n > 0 {
                if in_library() {
                    met(TSC);
                }
                let mut ts = [0i64; 2];
                sim_clock(ts.as_mut_ptr());
                let t = (ts[0] as u64).wrapping_mul(1_000_000_000).wrapping_add(ts[1] as u64);
                g[libc::REG_RAX as usize] = (t & 0xffff_ffff) as i64;
                g[libc::REG_RDX as usize] = (t >> 32) as i64;
                g[libc::REG_RCX as usize] = if n == 3 { 0 } else { g[libc::REG_RCX as usize] };
                g[libc::REG_RIP as usize] += n;
                return;
            }
        }
        // anything else is what it is
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}
fn lift() {
    unsafe {
        libc::mprotect(GUARD.load(SeqCst) as *mut _, GUARD_LEN.load(SeqCst) as usize, libc::PROT_READ);
    }
    LIFTED.store(true, SeqCst);
}
/// Before a call of the library.
pub fn arm() {
    if GUARD.load(SeqCst) != 0 && LIFTED.load(SeqCst) {
        unsafe {
            libc::mprotect(GUARD.load(SeqCst) as *mut _, GUARD_LEN.load(SeqCst) as usize, libc::PROT_NONE);
        }
        LIFTED.store(false, SeqCst);
    }
}

/// In the process of one run, before anything is simulated.
pub fn install() {
    unsafe {
        // 1. strings of the command line and the environment move behind the guard
        extern "C" {
            static mut environ: *mut *mut i8;
        }
        let argv = ARGV.load(SeqCst) as *mut *mut i8;
        let mut slots: Vec<*mut *mut i8> = vec![];
        for mut p in [argv, environ] {
            while !p.is_null() && !(*p).is_null() {
                slots.push(p);
                p = p.add(1);
            }
        }
        let mut e = environ;
        ENV = vec![];
        while !e.is_null() && !(*e).is_null() {
            ENV.push(*e);
            e = e.add(1);
        }
        let len: usize = slots.iter().map(|s| libc::strlen(**s) + 1).sum();
        let len = (len + 4096) & !4095;
        let m = libc::mmap(null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if m != libc::MAP_FAILED {
            let mut at = m as *mut i8;
            for s in slots {
                let n = libc::strlen(*s) + 1;
                std::ptr::copy_nonoverlapping(*s, at, n);
                *s = at;
                at = at.add(n);
            }
            GUARD_LEN.store(len as u64, SeqCst);
            GUARD.store(m as u64, SeqCst);
            LIFTED.store(true, SeqCst);
        }
        // 2. handlers
        for (sig, f) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGSYS, on_sys as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, null_mut());
        }
        // 3. time stamp counter (where the kernel can do it)
        libc::prctl(26, 2, 0, 0, 0);
        // 4. system calls
        if std::env::var("SIM_DEBUG").is_ok() {
            return;
        }
        let k = TRAPPED.len();
        let mut ins = vec![Ins { code: 0x20, jt: 0, jf: 0, k: 0 }];
        for (i, nr) in TRAPPED.iter().enumerate() {
            ins.push(Ins { code: 0x15, jt: (k - i) as u8, jf: 0, k: *nr });
        }
        ins.push(Ins { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
        ins.push(Ins { code: 0x06, jt: 0, jf: 0, k: 0x0003_0000 });
        let prog = Prog { len: ins.len() as u16, ins: ins.as_ptr() };
        libc::prctl(38, 1, 0, 0, 0);
        libc::prctl(22, 2, &prog as *const _, 0, 0);
    }
}

// Processes: these are refused in library code, and real elsewhere.
extern "C" {
    fn __fork() -> i32;
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> i32 {
    if noted(|| "fork()".to_string()).is_some() {
        *libc::__errno_location() = libc::EACCES;
        return -1;
    }
    __fork()
}
macro_rules! no_spawn {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(_pid: *mut i32, path: *const i8) -> i32 {
            if noted(|| format!("{}({:?})", stringify!($name), std::ffi::CStr::from_ptr(path))).is_none() {
                harness_error("a process started outside library code");
            }
            libc::EACCES
        }
    )* };
}
no_spawn! { posix_spawn posix_spawnp }
