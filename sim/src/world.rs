//! The simulated deployment: provers and verifiers on nodes, a network with faults between them.
use crate::rt::*;
use crate::props::prop;
use crate::sys::*;
use std::sync::Arc;

pub const MS: u64 = 1_000_000;
pub const HEAL: u64 = 3_000 * MS;
pub const END: u64 = 600_000 * MS;

pub struct Sess {
    pub st: Arc<Stmt>,
    pub wit: Arc<Wit>,
    pub pre: Preamble,
    /// Has a prover that follows the protocol
    pub prover: bool,
    /// proofs an honest prover made for exactly this session
    pub honest: Vec<Tree>,
    pub accepted: Vec<bool>,
    pub attempts: usize,
    pub key: u64,
    /// only there to have happened
    pub past: bool,
}
/// What the nodes have been through before the simulation looks at them.
#[derive(Clone, Copy)]
pub struct Past {
    sess: usize,
    creates: u64,
    verifies: u64,
    rough: bool,
    key: u64,
}
#[derive(Clone)]
pub struct Wire {
    pub sess: usize,
    pub tree: Arc<Tree>,
    pub tag: String,
    pub from: usize,
}
#[derive(Clone)]
pub struct Ack {
    pub sess: usize,
    pub role: usize,
}
#[derive(Clone, Debug)]
pub struct VRec {
    pub sess: usize,
    pub role: usize,
    pub tag: String,
    pub intact: bool,
    pub hash: u64,
    pub res: Result<Ans, Fail>,
    pub sys: Vec<String>,
    /// what was presented, if it is to be kept
    pub tree: Option<Arc<Tree>>,
}
#[derive(Clone, Debug)]
pub struct PRec {
    pub sess: usize,
    pub attempt: usize,
    pub res: Result<u64, Fail>,
    pub sys: Vec<String>,
    pub disturbed: bool,
    /// the entropy source failed during the attempt
    pub outage: bool,
}
#[derive(Default, Clone)]
pub struct Net {
    pub drop: u64,
    pub dup: u64,
    pub jitter: u64,
    pub late: u64,
    pub crash: u64,
    pub outage: u64,
    pub slow_entropy: u64,
    pub streams: bool,
    pub clock: bool,
}
pub struct World {
    pub sess: Vec<Sess>,
    pub net: Net,
    pub cut: Vec<(usize, u64, u64)>,
    /// node of each role: verifiers first
    pub addr: Vec<usize>,
    pub nver: usize,
    pub vrec: Vec<VRec>,
    pub prec: Vec<PRec>,
    /// called when an honest proof was made: further messages to send
    pub extra: Option<fn(usize, &Tree) -> Vec<Wire>>,
    /// keep every presented proof
    pub keep: bool,
    /// stop making work
    pub stop: bool,
    /// when provers stop sending again
    pub give_up: u64,
    pub past: Option<Past>,
    /// an honest session that fails ends the run
    pub first_failure: bool,
}
static mut W: *mut World = std::ptr::null_mut();
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn init_world() {
    let w = World {
        sess: vec![],
        net: Net::default(),
        cut: vec![],
        addr: vec![],
        nver: 0,
        vrec: vec![],
        prec: vec![],
        extra: None,
        keep: false,
        stop: false,
        give_up: END,
        past: None,
        first_failure: false,
    };
    unsafe { W = Box::into_raw(Box::new(w)) }
}

pub fn preamble() -> Preamble {
    let label = draw(LABELS.len() as u64) as usize;
    let msgs = (0..draw(3)).map(|_| (draw(3) as usize, (0..draw(5)).map(|_| draw(256) as u8).collect())).collect();
    Preamble { label, msgs }
}
pub fn add_session(st: Stmt, wit: Wit, pre: Preamble, prover: bool) -> usize {
    let id = w().sess.len();
    let key = draw(1 << 20);
    w().sess.push(Sess {
        st: Arc::new(st),
        wit: Arc::new(wit),
        pre,
        prover,
        honest: vec![],
        accepted: vec![],
        attempts: 0,
        key: mix2(key, id as u64),
        past: false,
    });
    id
}
pub fn describe(st: &Stmt) -> String {
    match st.sys {
        Sys::C => format!(
            "{} n={} commitments={} messages={} equations={}",
            st.sys.name(),
            st.n,
            st.sets.len(),
            st.sets.iter().map(|s| s.len()).sum::<usize>(),
            st.gam.len()
        ),
        Sys::Q | Sys::Qi => format!("{} n={} equations={}", st.sys.name(), st.n, st.gam.len()),
        Sys::LB | Sys::ZB => format!("{} n={} rows={}", st.sys.name(), st.n, st.m),
        Sys::LK | Sys::ZK => format!("{} n={} rows={} k={}", st.sys.name(), st.n, st.m, st.k),
        _ => format!("{} n={}", st.sys.name(), st.n),
    }
}

/// At times the nodes have done a great many calls before.
pub fn draw_past(kinds: &[Sys]) {
    let often = match prop() {
        "C16" => 70,
        "C09" | "C13" | "C15" => 110,
        _ => 160,
    };
    if draw(often) < often - 1 {
        return;
    }
    let n = [70, 140, 300, 600][draw(4) as usize];
    let (creates, verifies) = [(n, 0), (0, n), (n, n / 2), (n / 2, n)][draw(4) as usize];
    let rough = draw(2) == 1;
    let sys = *pick(kinds);
    let (st, wit) = gen(sys, Want { dense: true, max_n: 4, min_n: 2 });
    let sess = add_session(st, wit, preamble(), false);
    w().sess[sess].past = true;
    stat("app.long_past");
    stat_n("app.calls_in_past", creates + verifies);
    trace(format!("past: s{} {}, {} creates, {} verifies{}", sess, describe(&w().sess[sess].st), creates, verifies, if rough { ", rough" } else { "" }));
    w().past = Some(Past { sess, creates, verifies, rough, key: draw(1 << 20) });
}
fn live_past(role: usize, prover: bool) {
    let p = match w().past {
        Some(p) => p,
        None => return,
    };
    let mut g = Prng::new(p.key, role as u64);
    let mut rough = |k: u64| p.rough && g.next() % k == 0;
    if prover {
        for _ in 0..p.creates {
            let (a, o) = (rough(3), rough(6));
            attempt_with(p.sess, a.then_some(2), o.then_some(1));
        }
        return;
    }
    if p.verifies == 0 {
        return;
    }
    let t = match attempt_with(p.sess, None, None) {
        Ok(t) => Arc::new(t),
        Err(_) => return,
    };
    let ls = t.leaves();
    for i in 0..p.verifies {
        let mut x = Wire { sess: p.sess, tree: t.clone(), tag: "proof of the past".into(), from: role };
        if rough(2) && ls.len() > 0 {
            let at = &ls[i as usize % ls.len()];
            let mut u = (*t).clone();
            let v = if t.leaf(at).0 == Kind::Sca { curve25519_dalek::scalar::Scalar::from(77 + i).to_bytes() } else { enc(&pool(1300 + i as usize % 500)) };
            u.set(at, v);
            x.tree = Arc::new(u);
            x.tag = "altered proof of the past".into();
        }
        let _ = check_wire(role, &x);
    }
}
/// Which faults this run has (each kind on or off, at a rate).
pub fn draw_net(benign: bool) {
    let n = &mut w().net;
    if draw(3) == 0 {
        return; // calm
    }
    let rate = |num| if draw(2) == 1 { num } else { 0 };
    n.drop = rate(25);
    n.dup = rate(25);
    n.late = rate(10);
    n.jitter = [1, 20, 200, 1000][draw(4) as usize] * MS;
    if benign {
        n.crash = rate(25);
        n.outage = rate(25);
        n.slow_entropy = rate(15);
        n.streams = draw(2) == 1;
        n.clock = draw(2) == 1;
    }
}
pub fn faults_on() -> bool {
    sim().now < HEAL
}
fn pc(p: u64) -> bool {
    p > 0 && faults_on() && draw(100) >= 100 - p
}

pub fn send(to_role: usize, wire: Wire) {
    let _g = nohook();
    let node = w().addr[to_role];
    let now = sim().now;
    if w().cut.iter().any(|c| c.0 == to_role && c.1 <= now && now < c.2) {
        stat("fault.partition_drop");
        trace(format!("net: {} to v{} lost in partition", wire.tag, to_role));
        return;
    }
    if pc(w().net.drop) {
        stat("fault.msg_lost");
        trace(format!("net: {} to v{} lost", wire.tag, to_role));
        return;
    }
    let d = MS + draw(4) * 250_000 + if w().net.jitter > 0 { draw(w().net.jitter / MS + 1) * MS } else { 0 };
    if w().net.jitter > 0 && d > 10 * MS {
        stat("fault.msg_delayed");
    }
    if pc(w().net.dup) {
        stat("fault.msg_duplicated");
        let d2 = d + draw(50) * MS;
        deliver(node, d2, Box::new(wire.clone()));
    }
    if pc(w().net.late) {
        stat("fault.msg_replayed_late");
        deliver(node, d + 1500 * MS + draw(1000) * MS, Box::new(wire.clone()));
    }
    stat("net.delivered");
    deliver(node, d, Box::new(wire));
}
fn send_ack(role: usize, a: Ack) {
    let _g = nohook();
    if pc(w().net.drop) {
        stat("fault.ack_lost");
        return;
    }
    let node = w().addr[role];
    deliver(node, MS + draw(4) * MS, Box::new(a));
}

pub fn host_faults(cx: &mut JobCtx, prover: bool) -> bool {
    let n = &w().net;
    let mut disturbed = false;
    if pc(n.crash) {
        cx.abort_at = 1 + draw(60);
        disturbed = true;
    }
    if prover && pc(n.outage) {
        cx.fail_at = Some(draw(14) as usize);
        disturbed = true;
    }
    if prover && pc(n.slow_entropy) {
        cx.slow_draw = Some((draw(8) as usize, draw(300) * MS));
    }
    if n.streams {
        cx.stream_fault = draw(6) as u8;
    }
    if n.clock && faults_on() && draw(3) == 2 {
        stat("fault.clock_jump");
        match draw(3) {
            0 => sim().clock_stop = !sim().clock_stop,
            1 => sim().clock_off += 1 << (30 + draw(25)),
            _ => sim().clock_off -= 1 << (30 + draw(25)),
        }
    }
    disturbed
}

/// Into the history; and to be read, unless there is too much of it.
fn note(much: bool, f: impl Fn() -> String) {
    if much {
        sim().hash = hash_bytes(sim().hash, f().as_bytes());
    } else {
        trace(f());
    }
}
/// Makes one proof of a session, in one attempt.
pub fn attempt(s: usize) -> Result<Tree, Fail> {
    attempt_with(s, None, None)
}
fn attempt_with(s: usize, abort: Option<u64>, outage: Option<usize>) -> Result<Tree, Fail> {
    let ss = &mut w().sess[s];
    let k = ss.attempts;
    ss.attempts += 1;
    let (st, wit, pre, key) = (ss.st.clone(), ss.wit.clone(), ss.pre.clone(), ss.key);
    let mut cx = job(&format!("create s{} {} attempt {}", s, describe(&st), k), mix2(key, k as u64));
    let past = w().sess[s].past;
    let mut disturbed = false;
    if past {
        cx.calm = true;
        cx.abort_at = abort.map(|a| a + k as u64 % 7).unwrap_or(0);
        cx.fail_at = outage;
        disturbed = abort.is_some() || outage.is_some();
    } else {
        disturbed = host_faults(&mut cx, true);
    }
    let mut tr = transcript(&pre, Some(&st));
    let (r, cx) = lib(cx, || prove(&st, &wit, &mut tr));
    match &r {
        Ok(t) => {
            stat("lib.create");
            note(past && k > 3, || format!("s{}: proof made, attempt {}, #{:016x}", s, k, t.hash()));
            w().sess[s].honest.push(t.clone());
        }
        Err(e) => {
            match e {
                Fail::Crash => stat("fault.crash_in_create"),
                Fail::Entropy => stat("lib.refused_without_entropy"),
                Fail::Panic(_) => stat("lib.create_panicked"),
            }
            note(past && k > 3, || format!("s{}: attempt {} ended with {:?}", s, k, e));
        }
    }
    let h = match &r {
        Ok(t) => Ok(t.hash()),
        Err(e) => Err(e.clone()),
    };
    if let (true, Err(Fail::Panic(_))) = (w().first_failure, &h) {
        sim().halt = true;
    }
    w().prec.push(PRec { sess: s, attempt: k, res: h, outage: cx.failed, sys: cx.sys, disturbed });
    r
}

pub fn prover_node(role: usize, todo: Vec<usize>, made: Vec<(usize, Vec<Wire>)>) {
    let mut made = made;
    for (i, s) in todo.iter().enumerate() {
        loop {
            match attempt(*s) {
                Ok(t) => {
                    let arc = Arc::new(t.clone());
                    let mut out: Vec<Wire> = (0..w().nver)
                        .map(|_| Wire { sess: *s, tree: arc.clone(), tag: format!("proof of s{}", s), from: role })
                        .collect();
                    for v in 0..w().nver {
                        send(v, out[v].clone());
                    }
                    if let Some(f) = w().extra {
                        for x in f(*s, &t) {
                            let v = draw(w().nver as u64) as usize;
                            send(v, x);
                        }
                        // the intact one once more, after all that
                        for v in 0..w().nver {
                            send(v, out[v].clone());
                        }
                    }
                    out.truncate(w().nver);
                    made.push((*s, out));
                    break;
                }
                Err(Fail::Panic(_)) => break,
                Err(Fail::Crash) if draw(2) == 1 => {
                    // the node comes back with nothing but its list of jobs
                    stat("fault.node_restart");
                    sleep(draw(20) * MS);
                    let rest = todo[i..].to_vec();
                    let slow = 1;
                    let id = spawn(&format!("p{}'", role), slow, draw(50) * MS, move || prover_node(role, rest, made));
                    w().addr[role] = id;
                    return;
                }
                Err(_) => sleep((1 + draw(50)) * MS),
            }
        }
    }
    // send again until everybody has it
    loop {
        let open: Vec<(usize, usize)> = made
            .iter()
            .flat_map(|(s, _)| (0..w().nver).map(move |v| (*s, v)))
            .filter(|(s, v)| !w().sess[*s].accepted.get(*v).copied().unwrap_or(false))
            .collect();
        if open.is_empty() || sim().now > w().give_up || w().stop {
            return;
        }
        if let Some(m) = recv(400 * MS) {
            if let Ok(a) = m.downcast::<Ack>() {
                let acc = &mut w().sess[a.sess].accepted;
                acc.resize(8, false);
                acc[a.role] = true;
            }
            continue;
        }
        if sim().now > w().give_up {
            return;
        }
        for (s, v) in open {
            if let Some((_, o)) = made.iter().find(|x| x.0 == s) {
                stat("net.retransmit");
                send(v, o[v].clone());
            }
        }
    }
}

/// Checks one received proof.
pub fn check_wire(role: usize, x: &Wire) -> Result<Ans, Fail> {
    let s = &w().sess[x.sess];
    let (st, pre) = (s.st.clone(), s.pre.clone());
    let mut cx = job(&format!("verify s{} {}: {}", x.sess, describe(&st), x.tag), 1);
    let past = s.past;
    if past {
        cx.calm = true;
    } else {
        host_faults(&mut cx, false);
    }
    let mut tr = transcript(&pre, Some(&st));
    let tree = x.tree.clone();
    let (r, cx) = lib(cx, || verify(&st, &tree, &mut tr));
    let intact = w().sess[x.sess].honest.contains(&*x.tree);
    match &r {
        Ok(Ans::Accept) => stat("lib.accept"),
        Ok(Ans::Reject) => stat("lib.reject"),
        Ok(Ans::Undecodable) => stat("app.undecodable"),
        Err(Fail::Crash) => stat("fault.crash_in_verify"),
        Err(_) => stat("lib.verify_panicked"),
    }
    note(past, || format!("v{}: {} for s{} #{:016x} -> {:?}", role, x.tag, x.sess, x.tree.hash(), r));
    let kept = if w().keep { Some(x.tree.clone()) } else { None };
    if w().first_failure && intact && r != Ok(Ans::Accept) && r != Err(Fail::Crash) {
        sim().halt = true;
    }
    w().vrec.push(VRec { sess: x.sess, role, tag: x.tag.clone(), intact, hash: x.tree.hash(), res: r.clone(), sys: cx.sys, tree: kept });
    r
}
pub fn verifier_node(role: usize) {
    loop {
        let left = END.saturating_sub(sim().now);
        if left == 0 {
            return;
        }
        let m = match recv(left) {
            None => return,
            Some(m) => m,
        };
        if let Ok(x) = m.downcast::<Wire>() {
            let r = check_wire(role, &x);
            match r {
                Ok(Ans::Accept) => send_ack(x.from, Ack { sess: x.sess, role }),
                Err(Fail::Crash) if draw(2) == 1 => {
                    stat("fault.node_restart");
                    let id = spawn(&format!("v{}'", role), 1, draw(20) * MS, move || verifier_node(role));
                    w().addr[role] = id;
                    return;
                }
                _ => {}
            }
        }
    }
}

/// Starts verifiers and provers. Sessions with a prover are dealt out to the prover nodes.
pub fn deploy(nver: usize, nprov: usize) {
    w().nver = nver;
    let net = w().net.clone();
    for v in 0..nver {
        let slow = if net.jitter > 0 { [1, 1, 10, 1000][draw(4) as usize] } else { 1 };
        if slow > 100 {
            stat("fault.slow_node");
        }
        let id = spawn(&format!("v{}", v), slow, 0, move || {
            if v == 0 {
                live_past(v, false);
            }
            verifier_node(v)
        });
        w().addr.push(id);
    }
    let mut todo: Vec<Vec<usize>> = vec![vec![]; nprov];
    for s in 0..w().sess.len() {
        if w().sess[s].prover {
            todo[s % nprov].push(s);
        }
    }
    for (p, t) in todo.into_iter().enumerate() {
        let slow = if net.jitter > 0 { [1, 1, 10, 1000][draw(4) as usize] } else { 1 };
        let role = nver + p;
        let id = spawn(&format!("p{}", p), slow, draw(4) * MS / 2, move || {
            if p == 0 {
                live_past(role, true);
            }
            prover_node(role, t, vec![])
        });
        w().addr.push(id);
    }
    if net.crash > 0 {
        // crashes at instants of their own, whatever the node is doing then
        for _ in 0..draw(4) {
            let role = draw((nver + nprov) as u64) as usize;
            let t = draw(2000) * MS;
            at(t, move || {
                if let Some(c) = ctx_of(w().addr[role]) {
                    stat("fault.crash_at_instant");
                    c.abort_at = 1;
                }
            });
        }
    }
    if net.drop > 0 && draw(3) == 2 {
        let v = draw(nver as u64) as usize;
        let a = draw(1000) * MS;
        let b = a + draw(1500) * MS;
        w().cut.push((v, a, b.min(HEAL)));
    }
}
