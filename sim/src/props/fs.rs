//! Transcripts: sequences of proofs on one transcript (C11), and what is fixed before which
//! challenge (C12).
use super::*;
use crate::byz::fresh_point;
use curve25519_dalek::traits::Identity;
use curve25519_dalek::ristretto::CompressedRistretto;
use merlin::Transcript;
use std::sync::Arc;

// ------------------------------------------------------------------ C11

enum Item {
    Msg(usize, Vec<u8>),
    Proof(Arc<Stmt>, Arc<Wit>, u64),
}
#[derive(Clone)]
enum Body {
    Msg(usize, Vec<u8>),
    Proof(Arc<Tree>),
}
#[derive(Clone)]
struct Packet {
    seq: usize,
    body: Body,
}
struct Conv {
    label: usize,
    items: Vec<Item>,
    sent: Vec<Body>,
    /// the challenge after each item, as the prover sees it
    pch: Vec<[u8; 32]>,
    /// transcript before each item
    before: Vec<Transcript>,
    done: bool,
    verdict: Verdict,
    judged: u64,
}
static mut CONV: *mut Conv = std::ptr::null_mut();
fn conv() -> &'static mut Conv {
    unsafe { &mut *CONV }
}
fn peek(t: &Transcript) -> [u8; 32] {
    let _g = nohook();
    let mut b = [0u8; 32];
    t.clone().challenge_bytes(b"peek", &mut b);
    b
}
fn fail(class: &str, d: String) {
    if conv().verdict.is_none() {
        conv().verdict = bad(class, d);
    }
}
fn same_body(a: &Body, b: &Body) -> bool {
    match (a, b) {
        (Body::Msg(l, m), Body::Msg(k, n)) => l == k && m == n,
        (Body::Proof(s), Body::Proof(t)) => s == t,
        _ => false,
    }
}
/// One proof on a transcript; a crash or an outage loses the attempt, and the application goes back
/// to the transcript it had before.
fn prove_on(i: usize, st: &Stmt, wit: &Wit, key: u64, tr: &mut Transcript) -> Option<Tree> {
    for k in 0..200u64 {
        let mut t2 = tr.clone();
        bind_claim(st, &mut t2);
        let mut cx = job(&format!("create item {} {}", i, describe(st)), mix2(key, k));
        host_faults(&mut cx, true);
        match lib(cx, || prove(st, wit, &mut t2)).0 {
            Ok(t) => {
                stat("lib.create");
                *tr = t2;
                return Some(t);
            }
            Err(Fail::Panic(m)) => {
                trace(format!("item {}: prover panicked: {}", i, m));
                return None;
            }
            Err(e) => {
                if e == Fail::Crash {
                    stat("fault.crash_in_create");
                }
                trace(format!("item {}: attempt {} ended with {:?}", i, k, e));
                sleep((1 + draw(50)) * MS);
            }
        }
    }
    None
}
fn talker(listeners: Vec<usize>) {
    let c = conv();
    let mut tr = Transcript::new(LABELS[c.label]);
    for i in 0..c.items.len() {
        c.before.push(tr.clone());
        let b = match &c.items[i] {
            Item::Msg(l, m) => {
                let _g = nohook();
                tr.append_message(MLABELS[*l], m);
                Body::Msg(*l, m.clone())
            }
            Item::Proof(st, wit, key) => match prove_on(i, st, wit, *key, &mut tr) {
                Some(t) => Body::Proof(Arc::new(t)),
                None => {
                    stat("inconclusive");
                    c.done = true;
                    return;
                }
            },
        };
        c.pch.push(peek(&tr));
        c.sent.push(b);
        for l in &listeners {
            transmit(*l, i);
        }
    }
    for _ in 0..40 {
        sleep(400 * MS);
        if c.done {
            return;
        }
        for i in 0..c.sent.len() {
            for l in &listeners {
                transmit(*l, i);
            }
        }
    }
}
fn transmit(node: usize, seq: usize) {
    let _g = nohook();
    let lossy = w().net.drop > 0 && faults_on() && draw(4) == 3;
    if lossy {
        stat("fault.msg_lost");
        return;
    }
    let p = Packet { seq, body: conv().sent[seq].clone() };
    let d = MS + draw(4) * MS + if w().net.jitter > 0 { draw(w().net.jitter / MS + 1) * MS } else { 0 };
    if w().net.dup > 0 && draw(4) == 3 {
        stat("fault.msg_duplicated");
        deliver(node, d + draw(60) * MS, Box::new(p.clone()));
    }
    stat("net.delivered");
    deliver(node, d, Box::new(p));
}
/// Verifies one item on `tr`. None: the call was lost and `tr` is as before.
fn take(i: usize, b: &Body, tr: &mut Transcript, who: &str) -> Option<Result<Ans, Fail>> {
    match (b, &conv().items[i]) {
        (Body::Msg(l, m), _) => {
            let _g = nohook();
            tr.append_message(MLABELS[*l], m);
            Some(Ok(Ans::Accept))
        }
        (Body::Proof(t), Item::Proof(st, ..)) => {
            let mut t2 = tr.clone();
            bind_claim(st, &mut t2);
            let mut cx = job(&format!("verify item {} {}", i, describe(st)), 1);
            host_faults(&mut cx, false);
            let (r, _) = lib(cx, || verify(st, t, &mut t2));
            trace(format!("{}: item {} -> {:?}", who, i, r));
            match &r {
                Ok(Ans::Accept) => stat("lib.accept"),
                Ok(_) => stat("lib.reject"),
                Err(Fail::Crash) => {
                    stat("fault.crash_in_verify");
                    return None;
                }
                Err(_) => stat("lib.verify_panicked"),
            }
            *tr = t2;
            Some(r)
        }
        _ => harness_error("item mixed up"),
    }
}
/// Puts everything in the order of the conversation.
fn orderly() {
    let c = conv();
    let mut tr = Transcript::new(LABELS[c.label]);
    let mut got: Vec<Option<Body>> = vec![None; c.items.len()];
    let mut next = 0;
    while next < c.items.len() {
        let p = match recv(END) {
            None => return,
            Some(m) => *m.downcast::<Packet>().unwrap_or_else(|_| harness_error("not a packet")),
        };
        got[p.seq] = Some(p.body);
        while next < c.items.len() {
            let b = match &got[next] {
                None => break,
                Some(b) => b.clone(),
            };
            match take(next, &b, &mut tr, "orderly") {
                None => continue,
                Some(Ok(Ans::Accept)) => {}
                Some(r) => {
                    fail("not-composing", format!("item {} of {} in sequence: {:?} ({})", next, c.items.len(), r, name(next)));
                    c.done = true;
                    return;
                }
            }
            c.judged += 1;
            if peek(&tr) != c.pch[next] {
                fail("out-of-step", format!("after item {} ({}) the next challenge differs between prover and verifier", next, name(next)));
                c.done = true;
                return;
            }
            next += 1;
        }
    }
    c.done = true;
}
fn name(i: usize) -> String {
    match &conv().items[i] {
        Item::Msg(..) => "message".into(),
        Item::Proof(st, ..) => describe(st),
    }
}
/// Takes everything as it comes, and starts again after a refusal.
fn hasty() {
    let c = conv();
    let mut tr = Transcript::new(LABELS[c.label]);
    let mut seen: Vec<Body> = vec![];
    let mut n = 0;
    while n < 14 {
        let p = match recv(3000 * MS) {
            None => return,
            Some(m) => *m.downcast::<Packet>().unwrap_or_else(|_| harness_error("not a packet")),
        };
        n += 1;
        // now and then it loses a message or starts afresh
        if draw(6) == 5 {
            continue;
        }
        if draw(6) == 5 {
            tr = Transcript::new(LABELS[c.label]);
            seen.clear();
        }
        let i = p.seq;
        let proper = seen.len() == i && (0..i).all(|j| same_body(&seen[j], &c.sent[j]));
        match take(i, &p.body, &mut tr, "hasty") {
            None => continue,
            Some(r) => {
                if let Body::Proof(_) = p.body {
                    c.judged += 1;
                    stat(if proper { "judged.in_order" } else { "judged.out_of_order" });
                    if !proper && r == Ok(Ans::Accept) {
                        fail("order-ignored", format!("item {} ({}) was accepted after another history than its own", i, name(i)));
                        return;
                    }
                    if proper && r != Ok(Ans::Accept) {
                        fail("not-composing", format!("item {} ({}) after its own history: {:?}", i, name(i), r));
                        return;
                    }
                }
                if r == Ok(Ans::Accept) {
                    seen.push(p.body);
                } else {
                    tr = Transcript::new(LABELS[c.label]);
                    seen.clear();
                }
            }
        }
    }
}
pub fn c11() -> Verdict {
    draw_net(true);
    let label = draw(LABELS.len() as u64) as usize;
    let n = 2 + draw(4) as usize;
    // sizes without any rounds: such proofs need not bind anything, so that only the order in which
    // they were made is tried
    let small = draw(5) == 4;
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        if draw(4) == 3 {
            items.push(Item::Msg(draw(3) as usize, (0..draw(4)).map(|_| draw(256) as u8).collect()));
        } else if i > 0 && draw(4) == 3 {
            // the same statement again
            let prev = items.iter().rev().find_map(|x| match x {
                Item::Proof(s, w, _) => Some((s.clone(), w.clone())),
                _ => None,
            });
            if let Some((s, w)) = prev {
                // an unmasked proof would be the same only on the same transcript
                items.push(Item::Proof(s, w, mix2(draw(1 << 20), i as u64)));
            }
        } else {
            let (max_n, min_n) = if small { (2, 0) } else { (size_dear(8), 2) };
            let (st, wit) = gen(*pick(&ALL), Want { dense: true, max_n, min_n });
            items.push(Item::Proof(Arc::new(st), Arc::new(wit), mix2(draw(1 << 20), i as u64)));
        }
    }
    if items.is_empty() {
        return None;
    }
    let c = Conv { label, items, sent: vec![], pch: vec![], before: vec![], done: false, verdict: None, judged: 0 };
    unsafe { CONV = Box::into_raw(Box::new(c)) }
    for i in 0..conv().items.len() {
        trace(format!("item {}: {}", i, name(i)));
    }
    let a = spawn("orderly", 1, 0, orderly);
    let mut peers = vec![a];
    if !small {
        peers.push(spawn("hasty", 1, 0, hasty));
    }
    spawn("talker", [1, 1, 10][draw(3) as usize], draw(4) * MS, move || talker(peers));
    run(END, 200_000);
    let c = conv();
    if c.verdict.is_some() {
        return c.verdict.take();
    }
    stat_n("judged.items", c.judged);
    if small {
        return None;
    }
    // what comes next depends on the proof: another proof of the same thing leads elsewhere
    for i in 0..c.sent.len() {
        if let Item::Proof(st, wit, key) = &c.items[i] {
            if !matches!(st.sys, Sys::Q | Sys::Qi | Sys::C | Sys::A | Sys::ZB | Sys::ZK) || draw(3) > 0 {
                continue;
            }
            let mut tr = c.before[i].clone();
            bind_claim(st, &mut tr);
            let (r, _) = lib(job("create again", mix2(*key, 0xd1ff)), || prove(st, wit, &mut tr));
            let t = match r {
                Ok(t) => t,
                Err(_) => continue,
            };
            if matches!(&c.sent[i], Body::Proof(s) if **s == t) {
                continue;
            }
            stat("judged.dependence");
            if peek(&tr) == c.pch[i] {
                return bad("not-bound", format!("two different proofs ({}) lead to the same next challenge", name(i)));
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C12

enum Spot {
    Leaf(Vec<usize>),
    Image(usize),
    Commitment(usize),
}
/// Every value that must be fixed before a challenge, with the index of that challenge.
fn bound_values(st: &Stmt, t: &Tree) -> Vec<(Spot, usize)> {
    let mut v = vec![];
    let rounds = |part: usize, first: usize, v: &mut Vec<(Spot, usize)>| {
        if let Tree::List(l) = t.at(&[part]) {
            for i in 0..l.len() {
                for p in l[i].leaves() {
                    let path = [&[part, i][..], &p[..]].concat();
                    v.push((Spot::Leaf(path), first + i));
                }
            }
        }
    };
    match st.sys {
        Sys::Q | Sys::Qi => {
            v.push((Spot::Leaf(vec![0]), 0));
            v.push((Spot::Leaf(vec![1]), 2));
            v.push((Spot::Leaf(vec![2]), 4));
            rounds(3, 6, &mut v);
            rounds(4, 6, &mut v);
        }
        Sys::C => {
            v.push((Spot::Leaf(vec![0]), 0));
            for i in 0..st.comms.len() {
                v.push((Spot::Commitment(i), 0));
            }
            v.push((Spot::Leaf(vec![1]), 1));
            v.push((Spot::Leaf(vec![2]), 3));
            v.push((Spot::Leaf(vec![3]), 5));
            rounds(4, 7, &mut v);
            rounds(5, 7, &mut v);
        }
        Sys::A => {
            v.push((Spot::Leaf(vec![0]), 0));
            rounds(1, 2, &mut v);
            rounds(2, 2, &mut v);
        }
        Sys::I => {
            rounds(0, 1, &mut v);
            rounds(1, 1, &mut v);
        }
        Sys::LB => {
            rounds(0, 0, &mut v);
            rounds(1, 0, &mut v);
        }
        Sys::ZB => {
            rounds(1, 1, &mut v);
            rounds(2, 1, &mut v);
        }
        Sys::LK => rounds(1, 0, &mut v),
        Sys::ZK => rounds(2, 1, &mut v),
    }
    if matches!(st.sys, Sys::ZB | Sys::ZK) {
        for i in 0..st.m {
            v.push((Spot::Leaf(vec![0, i]), 0));
        }
    }
    if matches!(st.sys, Sys::LB | Sys::LK | Sys::ZB | Sys::ZK) {
        for i in 0..st.m {
            v.push((Spot::Image(i), 0));
        }
    }
    v
}
fn challenges(ops: &[Op]) -> Vec<Vec<u8>> {
    ops.iter()
        .filter_map(|o| match o {
            Op::Chal(_, b) => Some(b.clone()),
            _ => None,
        })
        .collect()
}
pub fn c12() -> Verdict {
    let sys = *pick(&ALL);
    let (st, wit) = gen(sys, Want { dense: true, max_n: size(if draw(6) == 5 { 16 } else { 8 }), min_n: 2 });
    let pre = preamble();
    let mut d = Data::new(1);
    trace(format!("{} preamble {:?}", describe(&st), pre));
    let (t, _) = prove_now("create", &st, &wit, &pre, 11, false);
    let t = match t {
        Ok(t) => t,
        Err(_) => {
            stat("inconclusive");
            return None;
        }
    };
    let (r, cx) = verify_now("verify", &st, &pre, &t, true);
    if r != Ok(Ans::Accept) {
        stat("inconclusive");
        return None;
    }
    let base = challenges(&cx.ops);
    trace(format!("{} challenges", base.len()));
    let spots = bound_values(&st, &t);
    // every value must be followed by a challenge
    for (s, first) in &spots {
        if *first >= base.len() {
            return bad("no-challenge", format!("no challenge is drawn after {} ({})", show(s), describe(&st)));
        }
    }
    for _ in 0..3 + draw(4) {
        let (s, first) = &spots[draw(spots.len() as u64) as usize];
        let (mut st2, mut t2) = (st.clone(), t.clone());
        let b = match s {
            Spot::Leaf(p) => t.leaf(p).1,
            Spot::Image(i) => enc(&st.t[*i]),
            Spot::Commitment(i) => enc(&st.comms[*i]),
        };
        let x = CompressedRistretto(b).decompress().unwrap_or(st.q);
        let y = match draw(5) {
            0 => fresh_point(&mut d),
            1 => -x,
            2 => x + x,
            3 => x + st.q,
            _ => pool(1500),
        };
        if x == y {
            continue;
        }
        match s {
            Spot::Leaf(p) => t2.set(p, enc(&y)),
            Spot::Image(i) => {
                st2.t[*i] = y;
                if sys == Sys::LK {
                    // the image also travels as the middle message of the first round
                    t2.set(&[1, 0, st.k - 1, *i], enc(&y));
                }
            }
            Spot::Commitment(i) => st2.comms[*i] = y,
        }
        let (r, cx) = verify_now("verify changed", &st2, &pre, &t2, true);
        let c = challenges(&cx.ops);
        stat("judged.binding");
        trace(format!("{} changed: {:?}, {} challenges", show(s), r, c.len()));
        for i in *first..c.len().min(base.len()) {
            if c[i] == base[i] {
                return bad(
                    "not-bound",
                    format!("{} changed, but challenge {} stays the same ({})", show(s), i, describe(&st)),
                );
            }
        }
    }
    // two values at once: neither a combination of them nor their multiset is all that is bound
    for _ in 0..2 + draw(3) {
        let i = draw(spots.len() as u64) as usize;
        // near each other more often
        let j = match draw(3) {
            0 => draw(spots.len() as u64) as usize,
            1 => (i + 1) % spots.len(),
            _ => match partner(&spots, i) {
                Some(j) => j,
                None => continue,
            },
        };
        if i == j {
            continue;
        }
        let get = |st: &Stmt, t: &Tree, s: &Spot| -> Pt {
            let b = match s {
                Spot::Leaf(p) => t.leaf(p).1,
                Spot::Image(i) => enc(&st.t[*i]),
                Spot::Commitment(i) => enc(&st.comms[*i]),
            };
            CompressedRistretto(b).decompress().unwrap_or(st.q)
        };
        let put = |st: &mut Stmt, t: &mut Tree, s: &Spot, y: Pt| match s {
            Spot::Leaf(p) => t.set(p, enc(&y)),
            Spot::Image(i) => {
                st.t[*i] = y;
                if sys == Sys::LK {
                    t.set(&[1, 0, st.k - 1, *i], enc(&y));
                }
            }
            Spot::Commitment(i) => st.comms[*i] = y,
        };
        let ((a, fa), (b, fb)) = (&spots[i], &spots[j]);
        let (mut st1, mut t1) = (st.clone(), t.clone());
        let mut before = base.clone();
        let (x, y) = (get(&st, &t, a), get(&st, &t, b));
        let f = fresh_point(&mut d);
        let how = draw(5);
        let (u, v, what) = match how {
            0 => (x + f, y - f, "moved against each other"),
            1 => (x + f, y + f, "moved by the same"),
            2 => (y, x, "exchanged"),
            3 => (-x, -y, "negated"),
            _ => {
                // one of them nothing
                put(&mut st1, &mut t1, a, Pt::identity());
                let (_, cx) = verify_now("verify changed", &st1, &pre, &t1, true);
                before = challenges(&cx.ops);
                (y, Pt::identity(), "exchanged, one of them nothing")
            }
        };
        if u == get(&st1, &t1, a) || v == get(&st1, &t1, b) {
            continue;
        }
        put(&mut st1, &mut t1, a, u);
        put(&mut st1, &mut t1, b, v);
        let (r, cx) = verify_now("verify changed", &st1, &pre, &t1, true);
        let c = challenges(&cx.ops);
        stat("judged.binding_pairs");
        trace(format!("{} and {} {}: {:?}, {} challenges", show(a), show(b), what, r, c.len()));
        for i in *fa.max(fb)..c.len().min(before.len()) {
            if c[i] == before[i] {
                return bad(
                    "not-bound",
                    format!("{} and {} {}, but challenge {} stays the same ({})", show(a), show(b), what, i, describe(&st)),
                );
            }
        }
    }
    // the verdict depends on the whole of every challenge
    for _ in 0..4 + draw(5) {
        let i = draw(base.len() as u64) as usize;
        let len = base[i].len();
        let byte = draw(len as u64) as usize;
        let x = 1 << draw(8);
        stat("fault.challenge_flip");
        stat("judged.challenge_byte");
        if flipped(&st, &pre, &t, i, byte, x) == Ok(Ans::Accept) {
            // how much of it matters?
            let n = (0..len).filter(|b| flipped(&st, &pre, &t, i, *b, x) != Ok(Ans::Accept)).count();
            trace(format!("byte {} of challenge {} of {} does not matter, {} bytes do", byte, i, base.len(), n));
            if n < 32 {
                return bad(
                    "challenge-unused",
                    format!("only {} of {} bytes of challenge {} matter for the verdict ({})", n, len, i, describe(&st)),
                );
            }
        }
    }
    None
}
/// The value of the same round and place in the other list.
fn partner(spots: &[(Spot, usize)], i: usize) -> Option<usize> {
    let p = match &spots[i].0 {
        Spot::Leaf(p) if p.len() > 1 => p,
        _ => return None,
    };
    (0..spots.len()).find(|j| match &spots[*j].0 {
        Spot::Leaf(q) => *j != i && q.len() == p.len() && q[1..] == p[1..],
        _ => false,
    })
}
fn flipped(st: &Stmt, pre: &Preamble, t: &Tree, i: usize, byte: usize, x: u8) -> Result<Ans, Fail> {
    let mut cx = job("verify under another challenge", 1);
    cx.chal_flip = Some((i, byte, x));
    let mut tr = transcript(pre, Some(st));
    lib(cx, || verify(st, t, &mut tr)).0
}
fn show(s: &Spot) -> String {
    match s {
        Spot::Leaf(p) => format!("proof value {}", p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")),
        Spot::Image(i) => format!("image entry {}", i),
        Spot::Commitment(i) => format!("commitment {}", i),
    }
}
