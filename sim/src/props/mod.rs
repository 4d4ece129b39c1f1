//! One scenario per property: what is deployed, which faults and deviations there are, and what
//! must hold.
use crate::rt::*;
use crate::sys::*;
use crate::world::*;

pub mod fs;
pub mod iso;
pub mod mask;
pub mod sound;
pub mod tamper;

pub static mut PROP: &str = "";
pub fn prop() -> &'static str {
    unsafe { PROP }
}
pub type Verdict = Option<(String, String)>;
pub fn bad(class: &str, detail: String) -> Verdict {
    Some((class.to_string(), detail))
}

pub const IDS: [&str; 16] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
];

/// A piece of the library the scenario needs to set the stage failed on an admissible input.
pub fn library_failed(what: &str, detail: &str) -> ! {
    trace(format!("{}: {}", what, detail));
    if prop() == "C03" {
        finish(bad("honest-failed", detail.to_string()));
    }
    stat("inconclusive");
    finish(None)
}
/// A library call ran out of bounds: work, memory, or blocked for ever.
pub fn on_limit(kind: &str, phase: &str) -> Verdict {
    let honest = phase.starts_with("create") || phase.contains("proof of s") || phase == "mapping" || phase == "commit";
    match prop() {
        "C09" if phase.starts_with("verify") => bad("limit", format!("{} exceeded in {}", kind, phase)),
        "C01" | "C03" | "C05" | "C07" if honest => bad("limit", format!("{} exceeded in {}", kind, phase)),
        "C16" => bad("limit", format!("{} exceeded in {}", kind, phase)),
        _ => {
            stat("inconclusive");
            None
        }
    }
}
/// The process died (abort, memory fault, stack, or endless loop) inside a library call.
pub fn on_death(p: &str, phase: &str) -> bool {
    let honest = phase.starts_with("create") || phase.contains("proof of s") || phase == "mapping" || phase == "commit";
    match p {
        "C09" => phase.starts_with("verify"),
        "C01" | "C03" | "C05" | "C07" => honest,
        "C16" => true,
        _ => false,
    }
}

pub fn scenario(p: &'static str) -> Verdict {
    unsafe {
        PROP = p;
        ON_LIMIT = Some(on_limit);
    }
    init_world();
    sim().entropy = draw(1 << 32);
    sim().preempt_mode = draw(3);
    match p {
        "C01" => honest(&[Sys::Q, Sys::Q, Sys::Qi]),
        "C03" => honest(&[Sys::C]),
        "C05" => honest(&[Sys::LB, Sys::LK, Sys::ZB, Sys::ZK]),
        "C02" => sound::c02(),
        "C04" => sound::c04(),
        "C06" => sound::c06(),
        "C07" => {
            if draw(3) == 0 {
                honest(&[Sys::I, Sys::A])
            } else {
                sound::c07()
            }
        }
        "C08" => tamper::c08(),
        "C09" => tamper::c09(),
        "C10" => tamper::c10(),
        "C11" => fs::c11(),
        "C12" => among_others(fs::c12, &ALL),
        "C13" => mask::c13(),
        "C14" => mask::c14(),
        "C15" => iso::c15(),
        "C16" => iso::c16(),
        "KF1" => sound::known_finding(),
        "LAY" => sound::learn(),
        _ => harness_error("unknown property"),
    }
}

/// A probe on a node of its own, while other sessions go on around it (one time in six).
fn among_others(f: fn() -> Verdict, kinds: &[Sys]) -> Verdict {
    static mut RESULT: Option<Verdict> = None;
    if draw(6) < 5 {
        return f();
    }
    draw_net(true);
    stat("app.probe_among_sessions");
    for _ in 0..1 + draw(2) {
        let (st, wit) = gen(*pick(kinds), Want { dense: true, max_n: 8, min_n: 2 });
        let id = add_session(st, wit, preamble(), true);
        trace(format!("s{}: {}", id, describe(&w().sess[id].st)));
    }
    draw_past(kinds);
    deploy(1, 1 + draw(2) as usize);
    let slow = [1, 1, 10][draw(3) as usize];
    spawn("probe", slow, draw(4) * MS / 2, move || {
        let r = f();
        unsafe { RESULT = Some(r) };
        sim().halt = true;
    });
    run(END + 1, 400_000);
    #[allow(static_mut_refs)]
    match unsafe { RESULT.take() } {
        Some(v) => v,
        None => {
            stat("inconclusive");
            None
        }
    }
}

pub fn draw_size() -> usize {
    // mostly small, at times large
    match draw(40) {
        0..=27 => 8,
        28..=35 => 16,
        36 => 32,
        37..=38 => 64,
        _ => [128, 256, 512, 512][draw(4) as usize],
    }
}

/// C01, C03, C05 and the first half of C07: a deployment of honest sessions with benign faults.
fn honest(kinds: &[Sys]) -> Verdict {
    draw_net(true);
    let ns = 1 + draw(4) as usize;
    let max_n = draw_size();
    if max_n > 32 {
        w().net.jitter = w().net.jitter.min(20 * MS);
    }
    let same = draw(2) == 1;
    let sys0 = *pick(kinds);
    for i in 0..ns {
        if max_n > 16 && i > 0 {
            break;
        }
        let sys = if same { sys0 } else { *pick(kinds) };
        let odd = draw(8) == 7;
        if odd {
            stat("app.odd_generators");
        }
        ODD_GENERATORS.store(odd, std::sync::atomic::Ordering::SeqCst);
        let (st, wit) = gen(sys, Want { dense: false, max_n, min_n: if max_n > 16 { max_n / 2 } else { 0 } });
        ODD_GENERATORS.store(false, std::sync::atomic::Ordering::SeqCst);
        let pre = preamble();
        let id = add_session(st, wit, pre, true);
        let s = &w().sess[id];
        trace(format!("s{}: {} preamble {:?}", id, describe(&s.st), s.pre));
        // the same statement and witness in a further session
        if draw(4) == 3 {
            let (st, wit, pre) = ((*s.st).clone(), (*s.wit).clone(), s.pre.clone());
            add_session(st, wit, pre, true);
        }
    }
    stat_n("sessions", w().sess.len() as u64);
    let (nv, np) = (1 + draw(2) as usize, 1 + draw(3) as usize);
    w().first_failure = true;
    draw_past(kinds);
    deploy(nv, np);
    let ended = run(END + 1, 400_000);
    judge_honest(ended)
}
pub fn judge_honest(ended: bool) -> Verdict {
    for p in &w().prec {
        if let Err(Fail::Panic(m)) = &p.res {
            return bad("honest-failed", format!("honest prover panicked for {}: {}", describe(&w().sess[p.sess].st), m));
        }
    }
    for v in &w().vrec {
        if v.intact {
            match &v.res {
                Ok(Ans::Accept) | Err(Fail::Crash) => {}
                Ok(a) => {
                    return bad("honest-failed", format!("honest proof not accepted ({:?}) for {}", a, describe(&w().sess[v.sess].st)))
                }
                Err(e) => {
                    return bad(
                        "honest-failed",
                        format!("verifier failed on an honest proof for {}: {:?}", describe(&w().sess[v.sess].st), e),
                    )
                }
            }
        } else if v.res == Ok(Ans::Undecodable) {
            return bad("honest-failed", format!("honest proof does not decode: {}", describe(&w().sess[v.sess].st)));
        }
    }
    if !ended {
        return bad("not-live", "deployment did not come to rest within its bounds after faults stopped".into());
    }
    for (s, x) in w().sess.iter().enumerate() {
        if !x.prover {
            continue;
        }
        for role in 0..w().nver {
            if !w().vrec.iter().any(|v| v.sess == s && v.role == role && v.intact && v.res == Ok(Ans::Accept)) {
                return bad("not-live", format!("session {} was never accepted by v{} although faults stopped", s, role));
            }
        }
    }
    None
}
/// Nothing but an intact honest proof for that very session may be accepted.
pub fn judge_sound(class: &str) -> Verdict {
    for v in &w().vrec {
        if !v.intact && v.res == Ok(Ans::Accept) {
            return bad(class, format!("accepted: {} ({})", v.tag, describe(&w().sess[v.sess].st)));
        }
    }
    None
}
/// Verification in a single call outside the message flow (still under the simulator).
pub fn verify_now(name: &str, st: &Stmt, pre: &Preamble, t: &Tree, log: bool) -> (Result<Ans, Fail>, JobCtx) {
    let mut cx = job(name, 1);
    cx.log = log;
    let mut tr = transcript(pre, Some(st));
    lib(cx, || verify(st, t, &mut tr))
}
pub fn prove_now(name: &str, st: &Stmt, wit: &Wit, pre: &Preamble, stream: u64, log: bool) -> (Result<Tree, Fail>, JobCtx) {
    let mut cx = job(name, stream);
    cx.log = log;
    let mut tr = transcript(pre, Some(st));
    lib(cx, || prove(st, wit, &mut tr))
}

/// For the evidence: how cases are made and what counts.
pub fn text(p: &str) -> String {
    let made = match p {
        "C01" => "A deployment of 1-4 honest quadratic-system sessions (also repeated) on 1-3 provers and 1-2 verifiers; systems, witnesses, sizes, randomness, schedule, message faults, aborted attempts, outages, restarts are drawn. Every delivered intact proof must be accepted and every session must be accepted by every verifier within bounds after faults stop.",
        "C03" => "As for C01, with copy proofs: index sets, messages, blinders, accompanying systems are drawn.",
        "C05" => "As for C01, with the four linear-map arguments: matrices (zero, repeated, dependent rows and columns), witnesses, sizes, row counts, folding factors are drawn.",
        "C02" => "A byzantine prover follows one of 13 strategies against a verifier that holds a violated system (strategy, size, position and amount of the violation drawn), or is the control: the same machinery on a true statement, counted under strategies.",
        "C04" => "A byzantine prover follows one of 14 strategies against a verifier that holds commitments to other values, or is the control (a true statement, counted).",
        "C06" => "A byzantine prover follows one of 7 strategies against a verifier that holds a wrong image, over all four linear-map arguments, or is the control (a true statement, counted).",
        "C07" => "One third honest deployments (must be accepted), two thirds byzantine provers with a wrong value or commitment (must not be accepted) and controls.",
        "C08" => "Honest sessions; the network makes altered copies of each proof (one value, several values, lists, parts of another proof for the same session). None may be accepted.",
        "C09" => "Honest sessions; the network and peers make malformed copies of each proof. None may be accepted, panic, or exceed the bounds on work and memory, and honest proofs must still be accepted afterwards.",
        "C10" => "Honest sessions and sessions that differ from one in exactly one respect; proofs are delivered to all of them, repeatedly. Only the own session may accept, always with the same verdict.",
        "C11" => "One conversation of 2-5 proofs and messages on one transcript, to a verifier that restores the order and to one that takes everything as it comes (lost, repeated, reordered, started afresh).",
        "C12" => "One honest proof; values of it and of the claim are changed and the verifier's challenges compared; single bytes of single challenges are changed under the verifier.",
        "C13" => "Half deployments that prove the same statements repeatedly with crashes, outages and clock faults; a quarter probes which bytes of entropy each masking value depends on, after a drawn history; the rest an outage at every draw, and generators that show single mask entries.",
        "C14" => "A matrix with a kernel and two witnesses with the same image; the entropy of the second prover is solved for; proofs and transcripts must be the same byte for byte.",
        "C15" => "Half single calls repeated under broken streams and a jumping clock, half deployments with those faults; system calls made inside library calls are recorded.",
        _ => "A deployment of 2-5 sessions with preemption inside calls, aborts, restarts, garbage and misdelivery; afterwards each proof and each verdict is compared with the same call alone in a process forked before the first call.",
    };
    format!("{} Distinct: by the hash of the whole recorded history. Non-trivial: the library returned a proof or verdict that was judged, and the run was not inconclusive.", made)
}
