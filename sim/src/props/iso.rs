//! No side channels and no I/O (C15); sessions do not influence one another (C16).
use super::*;
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::Arc;

// ------------------------------------------------------------------ C15

/// The same call under healthy streams and clock, and under failing ones.
fn compare_faulty() -> Verdict {
    let sys = *pick(&ALL);
    let (st, wit) = gen(sys, Want { dense: false, max_n: size(if draw(6) == 5 { 16 } else { 8 }), min_n: 0 });
    let pre = preamble();
    trace(format!("{} preamble {:?}", describe(&st), pre));
    let stream = 1 + draw(1000);
    let one = |name: &str, fault: u8, clock: u64, stream: u64| -> (Result<Tree, Fail>, Vec<String>) {
        match clock {
            0 => {}
            1 => sim().clock_stop = true,
            2 => sim().clock_off -= 1 << 50,
            3 => sim().clock_off += 1 << 58,
            _ => sim().now += 12345 * MS,
        }
        if clock > 0 {
            stat("fault.clock_jump");
        }
        if fault > 0 {
            stat("fault.stream_broken");
        }
        let mut cx = job(name, stream);
        cx.stream_fault = fault;
        let mut tr = transcript(&pre, Some(&st));
        let (r, cx) = lib(cx, || prove(&st, &wit, &mut tr));
        (r, cx.sys)
    };
    let (a, s1) = one("create", 0, 0, stream);
    let (fault, clock) = (1 + draw(5) as u8, draw(5));
    let (b, s2) = one("create with broken streams", fault, clock, stream);
    stat_n("lib.create", 2);
    for s in [s1, s2] {
        if let Some(x) = s.first() {
            return bad("side-effect", format!("create made {} ({})", x, describe(&st)));
        }
    }
    let a = match (a, b) {
        (Ok(a), Ok(b)) if a == b => a,
        (Err(Fail::Panic(m)), Err(Fail::Panic(_))) => {
            trace(format!("prover panicked: {}", m));
            stat("inconclusive");
            return None;
        }
        _ => return bad("outcome-changed", format!("another proof, or none, with broken streams {} and clock {} ({})", fault, clock, describe(&st))),
    };
    // the same for the verifier, with an honest and an altered proof
    let mut altered = a.clone();
    if draw(2) == 1 {
        let ls = altered.leaves();
        let p = ls[draw(ls.len() as u64) as usize].clone();
        let k = altered.leaf(&p).0;
        let v = if draw(3) == 2 && k == Kind::Enc { [0xff; 32] } else if k == Kind::Sca { [3; 32] } else { enc(&pool(1234)) };
        altered.set(&p, if k == Kind::Sca { let mut v = v; v[31] = 0; v } else { v });
    }
    let mut seen = None;
    for fault in [0, fault] {
        let mut cx = job(if fault == 0 { "verify" } else { "verify with broken streams" }, 1);
        cx.stream_fault = fault;
        let mut tr = transcript(&pre, Some(&st));
        let (r, cx) = lib(cx, || verify(&st, &altered, &mut tr));
        stat("judged.verdicts");
        trace(format!("{:?}", r));
        if let Some(x) = cx.sys.first() {
            return bad("side-effect", format!("verify made {} ({})", x, describe(&st)));
        }
        if seen.is_some() && seen != Some(r.clone()) {
            return bad("outcome-changed", format!("another verdict with broken streams ({})", describe(&st)));
        }
        seen = Some(r);
    }
    late()
}
/// Threads the library left behind.
fn late() -> Verdict {
    sim().late_sys.extend(crate::traps::drain());
    sim().late_sys.first().and_then(|x| bad("side-effect", format!("a thread that a call left behind made {}", x)))
}
pub fn c15() -> Verdict {
    if draw(2) == 0 {
        return compare_faulty();
    }
    draw_net(true);
    w().net.streams = true;
    w().net.clock = true;
    for _ in 0..1 + draw(3) {
        let (st, wit) = gen(*pick(&ALL), Want { dense: false, max_n: size(if draw(8) == 7 { 16 } else { 8 }), min_n: 0 });
        let id = add_session(st, wit, preamble(), true);
        trace(format!("s{}: {}", id, describe(&w().sess[id].st)));
    }
    if draw(2) == 1 {
        w().extra = Some(rubbish);
    }
    let kinds: Vec<Sys> = w().sess.iter().map(|s| s.st.sys).collect();
    draw_past(&kinds);
    deploy(1 + draw(2) as usize, 1 + draw(2) as usize);
    run(END + 1, 400_000);
    let p = w().prec.iter().map(|p| (p.sess, "create", &p.sys));
    let v = w().vrec.iter().map(|v| (v.sess, "verify", &v.sys));
    for (s, what, sys) in p.chain(v) {
        if let Some(x) = sys.first() {
            return bad("side-effect", format!("{} made {} ({})", what, x, describe(&w().sess[s].st)));
        }
    }
    late()
}

// ------------------------------------------------------------------ C16

/// Messages nobody should be impressed by.
fn rubbish(s: usize, t: &Tree) -> Vec<Wire> {
    let mut v = vec![];
    for _ in 0..draw(4) {
        let mut u = t.clone();
        let what;
        match draw(4) {
            0 => {
                let ls = u.leaves();
                let p = ls[draw(ls.len() as u64) as usize].clone();
                let k = u.leaf(&p).0;
                u.set(&p, if k == Kind::Sca { [1; 32] } else { enc(&pool(1900)) });
                if k == Kind::Sca {
                    let mut x = [1u8; 32];
                    x[31] = 0;
                    u.set(&p, x);
                }
                what = "altered";
            }
            1 => {
                let ls = u.leaves();
                let p = ls[draw(ls.len() as u64) as usize].clone();
                if u.leaf(&p).0 == Kind::Enc {
                    u.set(&p, [0xff; 32]);
                }
                what = "garbled";
            }
            2 => {
                let ls = u.lists();
                if let Some(p) = ls.get(draw(ls.len().max(1) as u64) as usize) {
                    u.list_mut(p).pop();
                }
                what = "cut";
            }
            _ => {
                let o = draw(w().sess.len() as u64) as usize;
                if w().sess[o].st.sys == w().sess[s].st.sys {
                    v.push(Wire { sess: o, tree: Arc::new(t.clone()), tag: format!("proof of s{} sent to s{}", s, o), from: 0 });
                }
                continue;
            }
        }
        if u != *t {
            stat("fault.msg_altered");
            v.push(Wire { sess: s, tree: Arc::new(u), tag: format!("{} proof of s{}", what, s), from: 0 });
        }
    }
    // the prover checks its own proof, on its own thread
    if draw(2) == 1 {
        let _ = check_wire(7, &Wire { sess: s, tree: Arc::new(t.clone()), tag: format!("own proof of s{}", s), from: 0 });
    }
    v
}

/// A process forked before anything happened, which makes single calls in fresh copies of itself.
pub struct Alone {
    buf: *mut u8,
}
const BUF: usize = 1 << 18;
fn wait(w: &AtomicU32, v: u32) {
    while w.load(SeqCst) != v {
        let cur = w.load(SeqCst);
        if cur == v {
            return;
        }
        unsafe { raw(202, w as *const _ as u64, 0, cur as u64, 0, 0, 0) };
    }
}
fn tell(w: &AtomicU32, v: u32) {
    w.store(v, SeqCst);
    unsafe { raw(202, w as *const _ as u64, 1, 100, 0, 0, 0) };
}
impl Alone {
    pub fn start() -> Alone {
        let buf = map_shared(BUF);
        let a = Alone { buf };
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            loop {
                wait(a.word(), 1);
                let (kind, s, k, mut b) = a.request();
                let r = forked(|| {
                    let ss = &w().sess[s];
                    let mut cx = job("alone", if kind == 0 { mix2(ss.key, k as u64) } else { 1 });
                    cx.name = format!("{} alone s{}", if kind == 0 { "create" } else { "verify" }, s);
                    let mut tr = transcript(&ss.pre, Some(&ss.st));
                    if kind == 0 {
                        match lib(cx, || prove(&ss.st, &ss.wit, &mut tr)).0 {
                            Ok(t) => [&[1u8][..], &t.hash().to_le_bytes()].concat(),
                            Err(_) => vec![2],
                        }
                    } else {
                        let t = Tree::de(&mut b);
                        match lib(cx, || verify(&ss.st, &t, &mut tr)).0 {
                            Ok(Ans::Accept) => vec![3],
                            Ok(Ans::Reject) => vec![4],
                            Ok(Ans::Undecodable) => vec![5],
                            Err(_) => vec![2],
                        }
                    }
                });
                unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), a.buf.add(64), r.len()) };
                a.put(0, r.len() as u32);
                tell(a.word(), 2);
            }
        }
        a
    }
    fn word(&self) -> &AtomicU32 {
        unsafe { &*(self.buf as *const AtomicU32) }
    }
    fn put(&self, i: usize, v: u32) {
        unsafe { (*(self.buf.add(8 + 4 * i) as *const AtomicU32)).store(v, SeqCst) }
    }
    fn get(&self, i: usize) -> u32 {
        unsafe { (*(self.buf.add(8 + 4 * i) as *const AtomicU32)).load(SeqCst) }
    }
    fn request(&self) -> (u32, usize, usize, &'static [u8]) {
        let n = self.get(0) as usize;
        (self.get(1), self.get(2) as usize, self.get(3) as usize, unsafe { std::slice::from_raw_parts(self.buf.add(64), n) })
    }
    fn ask(&self, kind: u32, s: usize, k: usize, b: &[u8]) -> Vec<u8> {
        if b.len() > BUF - 64 {
            harness_error("request too long");
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.buf.add(64), b.len()) };
        self.put(0, b.len() as u32);
        self.put(1, kind);
        self.put(2, s as u32);
        self.put(3, k as u32);
        tell(self.word(), 1);
        let mut spins = 0;
        // the copy may have died in the library: then there is no answer
        while self.word().load(SeqCst) != 2 {
            let mut ts = [0i64, 50_000_000];
            unsafe { raw(202, self.word() as *const _ as u64, 0, 1, ts.as_mut_ptr() as u64, 0, 0) };
            spins += 1;
            if shm().done.load(SeqCst) != 0 {
                exit_now(EXIT_OK); // a bound was hit there, and it has said so
            }
            if spins > 20 * 60 {
                harness_error("no answer from the solitary process");
            }
        }
        self.word().store(0, SeqCst);
        let n = self.get(0) as usize;
        unsafe { std::slice::from_raw_parts(self.buf.add(64), n).to_vec() }
    }
}
pub fn c16() -> Verdict {
    draw_net(true);
    let n = &mut w().net;
    n.crash = n.crash.max(25 * draw(2));
    if sim().preempt_mode == 0 {
        sim().preempt_mode = draw(3);
    }
    let ns = 2 + draw(4) as usize;
    let same = draw(2) == 1;
    let sys0 = *pick(&ALL);
    for i in 0..ns {
        let sys = if same { sys0 } else { *pick(&ALL) };
        if i > 0 && draw(4) == 3 {
            let (st, wit, pre) = ((*w().sess[i - 1].st).clone(), (*w().sess[i - 1].wit).clone(), w().sess[i - 1].pre.clone());
            add_session(st, wit, pre, true);
            continue;
        }
        let (st, wit) = gen(sys, Want { dense: draw(2) == 1, max_n: size(if draw(8) == 7 { 16 } else { 8 }), min_n: 0 });
        add_session(st, wit, preamble(), true);
    }
    for (i, s) in w().sess.iter().enumerate() {
        trace(format!("s{}: {}", i, describe(&s.st)));
    }
    w().keep = true;
    let kinds: Vec<Sys> = w().sess.iter().map(|s| s.st.sys).collect();
    draw_past(&kinds);
    let alone = Alone::start();
    w().extra = Some(rubbish);
    deploy(1 + draw(2) as usize, 1 + draw(4) as usize);
    let ended = run(END + 1, 400_000);
    if !ended {
        let stuck = w().prec.iter().all(|p| !matches!(p.res, Err(Fail::Panic(_))));
        if stuck {
            return bad("not-live", "the sessions did not come to rest".into());
        }
    }
    let mut budget = 24;
    // of a long past some calls and the peculiar ones, and all others
    let chosen = |s: usize, i: usize, odd: bool| !w().sess[s].past || i % 60 == 0 || odd;
    let odd = |p: &PRec| matches!(p.res, Err(Fail::Panic(_)));
    for p in w().prec.iter().enumerate().filter(|(i, p)| chosen(p.sess, *i, odd(p))).map(|x| x.1) {
        if budget == 0 {
            break;
        }
        if p.disturbed && !p.res.is_ok() && !matches!(p.res, Err(Fail::Panic(_))) {
            continue;
        }
        let got = match &p.res {
            Ok(h) => [&[1u8][..], &h.to_le_bytes()].concat(),
            Err(Fail::Panic(_)) => vec![2],
            Err(_) => continue,
        };
        budget -= 1;
        stat("judged.proof_alone");
        let r = alone.ask(0, p.sess, p.attempt, &[]);
        if r != got {
            let how = |v: &Vec<u8>| if v[0] == 1 { "a proof" } else { "a panic" };
            let d = if r[0] == got[0] { "another proof".to_string() } else { format!("{} instead of {}", how(&r), how(&got)) };
            return bad(
                "not-isolated",
                format!("session {} attempt {}: alone it gives {} ({})", p.sess, p.attempt, d, describe(&w().sess[p.sess].st)),
            );
        }
    }
    let mut done: Vec<(usize, u64)> = vec![];
    budget = 40;
    for v in w().vrec.iter().enumerate().filter(|(i, v)| chosen(v.sess, *i, v.intact != (v.res == Ok(Ans::Accept)))).map(|x| x.1) {
        let got = match &v.res {
            Ok(Ans::Accept) => 3u8,
            Ok(Ans::Reject) => 4,
            Ok(Ans::Undecodable) => 5,
            Err(Fail::Panic(_)) => 2,
            Err(_) => continue,
        };
        let code = mix2(v.hash, got as u64);
        if done.contains(&(v.sess, code)) || budget == 0 {
            continue;
        }
        budget -= 1;
        done.push((v.sess, code));
        stat("judged.verdict_alone");
        let t = match &v.tree {
            Some(t) => t.bytes(),
            None => continue,
        };
        let r = alone.ask(1, v.sess, 0, &t);
        if r != [got] {
            return bad(
                "not-isolated",
                format!("{}: {:?} here, another verdict alone ({})", v.tag, v.res, describe(&w().sess[v.sess].st)),
            );
        }
    }
    None
}
