//! The seam between the dependencies of qesa that touch the outside world (entropy) or carry the
//! protocol state (transcript), and the simulator. The patched `rand`, `getrandom` and `merlin`
//! call these hooks; the simulator installs them once at start.

#[derive(Clone, Copy)]
pub struct Hooks {
    /// Fill with entropy. `os` tells the OS source from the thread generator. False: source failed.
    pub entropy: fn(os: bool, dest: &mut [u8]) -> bool,
    /// Before a message is absorbed by a transcript.
    pub append: fn(label: &'static [u8], msg: &[u8]),
    /// After a challenge was squeezed; may change it.
    pub challenge: fn(label: &'static [u8], dest: &mut [u8]),
}

static mut HOOKS: Option<Hooks> = None;

pub fn install(h: Hooks) {
    unsafe { HOOKS = Some(h) }
}

#[inline]
fn hooks() -> Option<Hooks> {
    unsafe { HOOKS }
}

/// The thread generator. A failing source is a panic, as in `rand::thread_rng`.
pub fn thread_entropy(dest: &mut [u8]) {
    match hooks() {
        Some(h) => {
            if !(h.entropy)(false, dest) {
                panic!("could not initialize thread_rng: entropy source failed");
            }
        }
        None => panic!("seam: no simulator installed"),
    }
}

pub fn os_entropy(dest: &mut [u8]) -> bool {
    match hooks() {
        Some(h) => (h.entropy)(true, dest),
        None => panic!("seam: no simulator installed"),
    }
}

#[inline]
pub fn append(label: &'static [u8], msg: &[u8]) {
    if let Some(h) = hooks() {
        (h.append)(label, msg)
    }
}

#[inline]
pub fn challenge(label: &'static [u8], dest: &mut [u8]) {
    if let Some(h) = hooks() {
        (h.challenge)(label, dest)
    }
}
