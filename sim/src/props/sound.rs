//! Soundness: deployments with provers that do not follow the protocol (C02, C04, C06, C07).
use super::*;
use crate::byz::*;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use std::collections::BTreeSet;
use std::sync::Arc;

/// One cheating prover: builds messages for session 0 in a node of its own.
pub type Attack = Box<dyn FnOnce(&mut Data, &mut Vec<(Tree, String)>) + Send>;

fn strategy(name: &str) {
    stat(&format!("strategy.{}", name));
    trace(format!("byzantine prover: {}", name));
}
fn target() -> (Arc<Stmt>, Preamble) {
    let s = &w().sess[0];
    (s.st.clone(), s.pre.clone())
}
/// A true claim proved by the byzantine machinery: shows that the lies fail for being lies.
fn control(t: Tree, out: &mut Vec<(Tree, String)>) {
    w().sess[0].honest.push(t.clone());
    out.push((t, "control".into()));
}
fn count_controls() {
    for v in &w().vrec {
        if v.tag == "control" {
            stat(if v.res == Ok(Ans::Accept) { "byz.control_accepted" } else { "byz.control_refused" });
        }
    }
}
fn oracle() -> Orc {
    let (st, pre) = target();
    Orc { st, pre }
}
/// Runs the honest code of the library with whatever statement and witness, towards session 0.
fn library_prover(st: &Stmt, wit: &Wit, key: u64) -> Option<Tree> {
    let (_, pre) = target();
    let mut cx = job("byzantine run of the prover", key);
    // what the caller binds is what the verifier's caller binds
    let mut tr = transcript(&pre, Some(&w().sess[0].st));
    cx.max_steps = 4_000_000;
    let (r, _) = lib(cx, || prove(st, wit, &mut tr));
    r.ok()
}

/// Session 0 is the target, `others` are honest ones next to it.
fn deploy_attack(st: Stmt, kinds: &[Sys], attacks: Vec<Attack>, class: &str) -> Verdict {
    let pre = preamble();
    trace(format!("s0: {} preamble {:?}", describe(&st), pre));
    add_session(st, Wit::default(), pre, false);
    draw_net(false);
    if draw(3) == 2 {
        let (st, wit) = gen(*pick(kinds), Want { dense: false, max_n: 8, min_n: 0 });
        let pre = preamble();
        add_session(st, wit, pre, true);
    }
    let nver = 1 + draw(2) as usize;
    let sys = w().sess[0].st.sys;
    draw_past(&[sys]);
    deploy(nver, 1);
    let role = w().addr.len();
    for (i, a) in attacks.into_iter().enumerate() {
        let key = draw(1 << 32);
        let id = spawn(&format!("byz{}", i), 1, draw(3) * MS, move || {
            let mut d = Data { r: Prng::new(key, 0xbad), style: 1 };
            let mut out = vec![];
            a(&mut d, &mut out);
            for (t, tag) in &out {
                stat("byz.messages");
                for v in 0..w().nver {
                    send(v, Wire { sess: 0, tree: Arc::new(t.clone()), tag: tag.clone(), from: role });
                }
            }
            // once more when the network is well again
            let t0 = HEAL + 100 * MS;
            if sim().now < t0 {
                sleep(t0 - sim().now);
            }
            for (t, tag) in &out {
                for v in 0..w().nver {
                    send(v, Wire { sess: 0, tree: Arc::new(t.clone()), tag: format!("{} (again)", tag), from: role });
                }
            }
        });
        w().addr.push(id);
    }
    w().give_up = HEAL + 30_000 * MS;
    run(END + 1, 400_000);
    let seen = w().vrec.iter().filter(|v| v.sess == 0).count();
    stat_n("judged.byzantine_proofs", seen as u64);
    count_controls();
    judge_sound(class)
}

// ------------------------------------------------------------------ learning

pub const LEARN: [Sys; 8] = [Sys::Q, Sys::C, Sys::A, Sys::I, Sys::LB, Sys::ZB, Sys::LK, Sys::ZK];

/// The byzantine prover's preparation: it proves a true statement to a copy of the verifier, and if
/// the verifier does not take that, looks for the way in which it uses its challenges.
pub fn learn() -> Verdict {
    for big in &[false, true] {
        for sys in LEARN {
            // (copy proofs of all sizes are taken together)
            if sys != Sys::C || !*big {
                learn_of(sys, *big);
            }
        }
    }
    None
}
fn learn_of(sys: Sys, big: bool) {
    {
        let (max_n, min_n) = match big {
            true => (64, 64),
            false if sys == Sys::C => (32, 16),
            false => (16, 16),
        };
        let (mut st, wit) = (0..40)
            .map(|_| gen(sys, Want { dense: true, max_n, min_n }))
            .find(|x| if sys == Sys::C { x.0.comms.len() > 4 } else { (x.0.n >= 32) == big })
            .unwrap_or_else(|| gen(sys, Want { dense: true, max_n: 8, min_n: 4 }));
        let at = layout_of(sys, st.n);
        if (at >= 16) != big {
            sim().notes.push(format!("layout {} plain 0 0 0", sys as usize + if big { 16 } else { 0 }));
            return;
        }
        // (any multiples of a true equation are true)
        if matches!(sys, Sys::Q | Sys::C) {
            let n2 = st.n - 2;
            let g = st.gam.first().cloned().unwrap_or(vec![vec![Scalar::zero(); n2]; n2]);
            for f in 2..12 {
                st.gam.push(g.iter().map(|r| r.iter().map(|x| sc(f) * x).collect()).collect());
            }
        }
        let o = Orc { st: Arc::new(st), pre: Preamble { label: 0, msgs: vec![] } };
        let s = o.st.clone();
        let mut found = None;
        let total = match sys {
            Sys::Q => 9,
            Sys::C => 10,
            Sys::A => 5,
            Sys::I => 4,
            _ => 4,
        } + if big { 3 } else { 0 };
        let known: Vec<u8> = (0..4).map(|w| *expansion(w)).collect();
        let before = unsafe { LAYOUTS[sys as usize] };
        let mut ways = vec![];
        if big {
            // (what was found for the small ones stays)
            ways.push((before, 9, 0));
        }
        ways.push((Layout::Plain, 1, 0));
        let which: &[u64] = match sys {
            Sys::Q => &[0, 2, 3],
            Sys::C => &[1],
            _ => &[],
        };
        for what in which.iter().filter(|_| !big) {
            ways.extend((1..EXPANSIONS).map(|e| (Layout::Plain, *what, e)));
        }
        ways.extend(
            Layout::all(total)
                .into_iter()
                .filter(|l| !big || matches!(l, Layout::Replaced { .. } | Layout::Merged { e: 1, .. }))
                .map(|l| (l, if big { 9 } else { 1 }, 0)),
        );
        for (l, what, e) in ways {
            unsafe { LAYOUTS[at] = l }
            if what < 9 {
                for w in which {
                    *expansion(*w) = 0;
                }
                *expansion(what) = e;
            }
            let mut d = Data::new(1);
            let t = match sys {
                Sys::Q => {
                    let we = extend(&mut d, &wit.w);
                    inner_proof(&mut d, &o, &s, &s.gam, &we, &InnerDev::default())
                }
                Sys::C => copy_proof(&mut d, &o, &plan_of(&s, &wit)).map(|x| x.0),
                Sys::A => {
                    let mut t = blank(&s);
                    alm(&o, &mut d, &mut t, 0, 0, &s.g, &s.h, &s.q, s.p, &wit.a, &wit.b, s.ip, &AlmDev::default()).map(|_| t)
                }
                Sys::I => {
                    let mut t = blank(&s);
                    let dev = IpaDev::default();
                    ipa(&o, &mut d, &mut t, 0, 0, &s.g, &s.h, &s.q, wit.a.clone(), wit.b.clone(), s.p, s.ip, &dev).map(|_| t)
                }
                _ => {
                    let mut t = blank(&s);
                    linear(&o, &mut d, &mut t, &s, &wit.w, &LinDev::default()).map(|_| t)
                }
            };
            let t = match t {
                Some(t) => t,
                None => continue,
            };
            if verify_now("control", &s, &o.pre, &t, false).0 == Ok(Ans::Accept) {
                found = Some((l, what, e));
                break;
            }
        }
        if found.is_none() || big {
            for w in 0..4 {
                *expansion(w) = known[w as usize];
            }
        }
        if found.is_none() {
            unsafe { LAYOUTS[at] = Layout::Plain }
        }
        if let Some((l, what, e)) = found {
            sim().notes.push(format!("layout {} {}", at, l.code()));
            if e > 0 && !big {
                sim().notes.push(format!("expansion {} {}", what, e));
            }
        }
    }
}
/// What `learn` found, for all runs to come.
pub fn learned(notes: &[String]) -> Vec<String> {
    let mut odd = vec![];
    let mut seen = 0;
    for n in notes {
        let f: Vec<&str> = n.splitn(3, ' ').collect();
        if f[0] == "expansion" {
            let (what, e) = (f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0));
            *expansion(what) = e;
            let of = ["equations", "commitments", "tested entries", "tested blinders"];
            odd.push(format!("weights of {}: {}", of[what as usize & 3], e));
        }
        if f[0] != "layout" {
            continue;
        }
        seen += 1;
        if let (Ok(i), Some(l)) = (f[1].parse::<usize>(), Layout::from_code(f[2])) {
            unsafe {
                LAYOUTS[i] = l;
                if i & 15 == Sys::Q as usize {
                    LAYOUTS[Sys::Qi as usize + (i & 16)] = l;
                }
            }
            if l != Layout::Plain {
                odd.push(format!("system {}{}: {:?}", i & 15, if i > 15 { " (large)" } else { "" }, l));
            }
        }
    }
    if seen < 2 * LEARN.len() - 1 {
        odd.push(format!("byzantine proofs of true statements accepted for {} of {} systems only", seen, 2 * LEARN.len() - 1));
    }
    odd
}

// ------------------------------------------------------------------ C02

/// Adds to one coefficient of matrix `e` so that its value at `w` grows by `r`.
fn violate(d: &mut Data, gam: &mut Vec<Vec<Vec<Scalar>>>, e: usize, w: &[Scalar], r: Scalar) {
    let n = w.len();
    let (mut p, mut q) = (0, 0);
    for _ in 0..8 {
        let (i, j) = (d.below(n), d.below(n));
        if w[i] * w[j] != Scalar::zero() {
            p = i;
            q = j;
            break;
        }
    }
    gam[e][p][q] += r * (w[p] * w[q]).invert();
}
fn extend(d: &mut Data, w: &[Scalar]) -> Vec<Scalar> {
    let mut v = w.to_vec();
    v.push(d.random());
    v.push(d.random());
    v
}
fn inner_proof(d: &mut Data, o: &Orc, st: &Stmt, gam: &[Vec<Vec<Scalar>>], we: &[Scalar], dev: &InnerDev) -> Option<Tree> {
    let mut t = blank(&o.st);
    t.set(&[0], enc(&msm(we, &st.g)));
    inner(o, d, &mut t, 0, 0, st, gam, we, dev)?;
    Some(t)
}
fn adapt_dev() -> InnerDev {
    let mut v = InnerDev::default();
    v.alm.ipa.adapt = true;
    v
}

/// True when the system does not determine its first entry at this assignment: then a proof with
/// another first entry is a proof of a true statement.
fn free_first(gam: &[Vec<Vec<Scalar>>], w: &[Scalar]) -> bool {
    // quadratic in the first entry: zero at three points is zero
    gam.iter().all(|g| {
        (0..3).all(|x| {
            let mut v = w.to_vec();
            v[0] = sc(x);
            quad(g, &v) == Scalar::zero()
        })
    })
}
/// Looks for two equations that a verifier does not tell apart: an honest proof is still accepted when
/// they are exchanged.
fn alike(d: &mut Data, st: &mut Stmt, wit: &Wit) -> Option<(usize, usize)> {
    let idx: Vec<usize> = (0..st.n - 2).collect();
    let k = *pick(&[70usize, 140, 270]);
    while st.gam.len() < k {
        let g = equation(d, &wit.w, &idx, true);
        st.gam.push(g);
    }
    let pre = preamble();
    let t = prove_now("create", st, wit, &pre, 77, false).0.ok()?;
    let i = draw(16) as usize;
    for j in i + 1..st.gam.len() {
        if st.gam[i] == st.gam[j] {
            continue;
        }
        st.gam.swap(i, j);
        let ok = verify_now("verify", st, &pre, &t, false).0 == Ok(Ans::Accept);
        st.gam.swap(i, j);
        if ok {
            return Some((i, j));
        }
    }
    None
}
pub fn c02() -> Verdict {
    let sys = if draw(4) == 3 { Sys::Qi } else { Sys::Q };
    let max_n = size(if draw(6) == 5 { 16 } else { 8 });
    let kind = draw(18);
    let max_n = if kind == 16 && draw(2) == 1 { 32 << draw(2) } else { max_n };
    let dense = draw(3) == 2;
    let (mut st, wit) = loop {
        let (st, wit) = gen(sys, Want { dense, max_n, min_n: 0 });
        if kind == 4 || kind == 6 || kind == 9 {
            if st.gam.len() < 2 {
                continue;
            }
        }
        break (st, wit);
    };
    let good = st.clone();
    let mut d = Data::new(1);
    let k = st.gam.len();
    let ww = wit.w.clone();
    let n2 = st.n - 2;
    let rnd = |d: &mut Data| if draw(2) == 0 { Scalar::one() } else { d.random() };
    let e = match draw(3) {
        0 => k - 1,
        _ => draw(k as u64) as usize,
    };
    let mut attacks: Vec<Attack> = vec![];
    let key = draw(1 << 30);
    match kind {
        0 | 1 => {
            // one equation does not hold
            let r = rnd(&mut d);
            violate(&mut d, &mut st.gam, e, &ww, r);
            if kind == 0 {
                attacks.push(Box::new(move |_, out| {
                    strategy("honest code on a witness that violates one equation");
                    let (s, _) = target();
                    if let Some(t) = library_prover(&s, &wit, key) {
                        out.push((t, "proof with a bad witness".into()))
                    }
                }));
            } else {
                attacks.push(Box::new(move |d, out| {
                    strategy("protocol followed with a witness that violates one equation");
                    let o = oracle();
                    let we = extend(d, &wit.w);
                    if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default()) {
                        out.push((t, "proof with a bad witness".into()))
                    }
                }));
            }
        }
        2 | 3 => {
            // the prover proves another system
            let r = rnd(&mut d);
            violate(&mut d, &mut st.gam, e, &ww, r);
            if kind == 2 {
                attacks.push(Box::new(move |_, out| {
                    strategy("honest code for another system");
                    if let Some(t) = library_prover(&good, &wit, key) {
                        out.push((t, "proof of another system".into()))
                    }
                }));
            } else {
                attacks.push(Box::new(move |d, out| {
                    strategy("protocol followed for another system");
                    let o = oracle();
                    let we = extend(d, &wit.w);
                    if let Some(t) = inner_proof(d, &o, &good, &good.gam, &we, &InnerDev::default()) {
                        out.push((t, "proof of another system".into()))
                    }
                }));
            }
        }
        4 => {
            // violations that cancel under some wrong weights
            let (mut i, mut j) = (draw(k as u64) as usize, draw(k as u64) as usize);
            if i == j {
                j = (i + 1) % k;
            }
            let r = rnd(&mut d);
            let mut how = draw(4);
            if st.n <= 8 && draw(3) == 2 {
                // far apart in a long system
                let p = *pick(&[2usize, 4, 8, 16, 32, 64, 128, 256, 10, 31, 33, 63, 65, 100, 127, 129, 255, 257]);
                i = draw(p as u64 + 8) as usize;
                j = i + p;
                let idx: Vec<usize> = (0..n2).collect();
                while st.gam.len() < j + 1 + draw(4) as usize {
                    let g = equation(&mut d, &ww, &idx, false);
                    st.gam.push(g);
                }
                how = draw(8) & 5;
                if draw(4) == 3 {
                    if let Some(x) = alike(&mut d, &mut st, &wit) {
                        i = x.0;
                        j = x.1;
                        how = 0;
                    }
                }
            }
            let (a, b) = match how & 3 {
                0 => (Scalar::one(), Scalar::one()),
                1 => (sc(j as u64 + 1), sc(i as u64 + 1)),
                2 => (sc(1 << (j % 32)), sc(1 << (i % 32))),
                _ => (Scalar::one(), -Scalar::one()),
            };
            violate(&mut d, &mut st.gam, i, &ww, r * a);
            violate(&mut d, &mut st.gam, j, &ww, -r * b);
            let by_lib = draw(2) == 0;
            attacks.push(Box::new(move |d, out| {
                strategy("two violations that cancel");
                let o = oracle();
                let t = if by_lib {
                    library_prover(&o.st, &wit, key)
                } else {
                    let we = extend(d, &wit.w);
                    inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default())
                };
                if let Some(t) = t {
                    out.push((t, "proof with cancelling violations".into()))
                }
            }));
        }
        5 => {
            // a witness whose first entry is not one; the equations themselves hold
            let f = match draw(3) {
                0 => -Scalar::one(),
                1 => sc(2),
                _ => d.random(),
            };
            let scaled: Vec<Scalar> = ww.iter().map(|x| f * x).collect();
            let by = draw(3);
            attacks.push(Box::new(move |d, out| {
                strategy("satisfying assignment, first entry not one");
                let o = oracle();
                if free_first(&o.st.gam, &scaled) {
                    return;
                }
                let t = match by {
                    0 => {
                        let wit = Wit { w: scaled.clone(), ..wit.clone() };
                        library_prover(&o.st, &wit, key)
                    }
                    b => {
                        let we = extend(d, &scaled);
                        let dev = InnerDev { beta_one: b == 2, ..Default::default() };
                        inner_proof(d, &o, &o.st, &o.st.gam, &we, &dev)
                    }
                };
                if let Some(t) = t {
                    out.push((t, "proof with w0 != 1".into()))
                }
            }));
        }
        6 => {
            // w0 = 1 + x, and the guess that the challenge that fixes it is a power of the batching one
            let x = rnd(&mut d);
            let j = 1 + draw((k - 1).min(3) as u64) as usize;
            let (a, b) = if draw(4) == 3 { (draw((k - j) as u64) as usize + j, 0) } else { (0, 0) };
            let (a, b) = if a > 0 { (a - j, a) } else { (b, b + j) };
            let n = st.n;
            // w_u (w_0 - c w_v) and w_u (w_x - ..): linear in the first entry
            let (u, v) = (1, 1 + (n2 > 2) as usize * (d.below(n2 - 2) + 1) % (n2 - 1).max(1));
            let mut wv = ww.clone();
            for y in wv.iter_mut().skip(1) {
                if *y == Scalar::zero() {
                    *y = d.random();
                }
            }
            let v = v.max(1).min(n2 - 1);
            wv[0] = Scalar::one();
            for m in 0..k {
                // all other equations: trivial
                st.gam[m] = vec![vec![Scalar::zero(); n2]; n2];
            }
            st.gam[a][u][0] = Scalar::one();
            st.gam[a][u][v] -= wv[v].invert();
            // residual of b at the assignment: -x w_u
            st.gam[b][u][v] -= x * wv[v].invert();
            let _ = n;
            wv[0] += x;
            let by = draw(3);
            attacks.push(Box::new(move |d, out| {
                strategy("wrong first entry compensated by another equation");
                let o = oracle();
                let t = if by == 0 {
                    let wit = Wit { w: wv.clone(), rp: wit.rp.clone(), ..Default::default() };
                    library_prover(&o.st, &wit, key)
                } else {
                    let we = extend(d, &wv);
                    inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default())
                };
                if let Some(t) = t {
                    out.push((t, "proof with w0 != 1, compensated".into()))
                }
            }));
        }
        7 | 8 => {
            // w'' that is not Gamma w
            let r = rnd(&mut d);
            violate(&mut d, &mut st.gam, e, &ww, r);
            let n = st.n;
            let i = if draw(3) == 2 { n - 2 + draw(2) as usize } else { draw(n as u64) as usize };
            let mut j = if draw(3) == 2 { n - 2 + draw(2) as usize } else { draw(n as u64) as usize };
            if i == j {
                j = if i + 1 < n { i + 1 } else { i - 1 };
            }
            let guess = match draw(4) {
                0 => Guess::Const(i, 0),
                1 => Guess::Const(i, 1),
                2 => Guess::Same(i, j),
                _ => Guess::Multiple(i, j, 2),
            };
            attacks.push(Box::new(move |d, out| {
                strategy("wrong image under the batched matrix, hidden where the challenge is guessed");
                let o = oracle();
                let we = extend(d, &wit.w);
                let dev = InnerDev { guess, ..Default::default() };
                if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &dev) {
                    out.push((t, "proof with w'' != Gamma w".into()))
                }
            }));
        }
        9 => {
            // the batching challenge is foreseen
            let v = d.below(n2 - 1) + 1;
            for g in st.gam.iter_mut() {
                g[v][v] = Scalar::zero();
            }
            let rows = draw(2);
            attacks.push(Box::new(move |d, out| {
                strategy("assignment chosen for a foreseen batching challenge");
                let o = oracle();
                let mut t0 = blank(&o.st);
                if rows == 1 {
                    t0.set(&[0], enc(&msm(&extend(d, &wit.w), &o.st.g)));
                }
                let x = match o.chal(&t0, 0) {
                    Some(x) => x,
                    None => return,
                };
                let gx = batch_matrix(&o.st.gam, &x, n2);
                let mut w1 = wit.w.clone();
                w1[v] = Scalar::zero();
                let f0 = quad(&gx, &w1);
                w1[v] = Scalar::one();
                let f1 = quad(&gx, &w1) - f0;
                if f1 == Scalar::zero() {
                    return;
                }
                w1[v] = -f0 * f1.invert();
                if o.st.gam.iter().all(|g| quad(g, &w1) == Scalar::zero()) {
                    return;
                }
                let we = extend(d, &w1);
                if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default()) {
                    out.push((t, "proof for a foreseen challenge".into()))
                }
            }));
        }
        10 => {
            // the challenge that fixes the first entry is foreseen
            let f = d.random();
            attacks.push(Box::new(move |d, out| {
                strategy("first entry chosen for a foreseen challenge");
                let o = oracle();
                let beta = match o.chal(&blank(&o.st), 1) {
                    Some(x) => x,
                    None => return,
                };
                let mut w1: Vec<Scalar> = wit.w.iter().map(|x| f * x).collect();
                if free_first(&o.st.gam, &w1) {
                    return;
                }
                w1[0] = Scalar::one() + (f - Scalar::one()) * beta.invert();
                let we = extend(d, &w1);
                if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default()) {
                    out.push((t, "proof for a foreseen challenge".into()))
                }
            }));
        }
        15 | 17 => {
            // a single coefficient is all there is to the system, and it is wrong; many are tried on a
            // copy of the verifier
            let k = if st.n <= 16 && draw(2) == 1 { k.max(draw(24) as usize) } else { k };
            let pre = Preamble { label: 0, msgs: vec![] };
            let mut wit = wit.clone();
            for x in wit.w.iter_mut() {
                if *x == Scalar::zero() {
                    *x = d.nonzero();
                }
            }
            let zero = vec![vec![Scalar::zero(); n2]; n2];
            st.gam = vec![zero.clone(); k];
            let r = rnd(&mut d);
            let tries = if st.n <= 16 { 8 } else { 2 };
            for i in 0..tries {
                let at = |d: &mut Data, m: usize| match d.below(3) {
                    0 => m - 1,
                    _ => d.below(m),
                };
                let (e, p, q) = (at(&mut d, k), at(&mut d, n2), at(&mut d, n2));
                st.gam[e][p][q] = r;
                if i + 1 == tries {
                    break;
                }
                stat("byz.trials");
                let t = prove_now("create", &st, &wit, &pre, 77 + i, false).0;
                if let Ok(t) = t {
                    if verify_now("verify", &st, &pre, &t, false).0 == Ok(Ans::Accept) {
                        break;
                    }
                }
                st.gam[e] = zero.clone();
            }
            attacks.push(Box::new(move |_, out| {
                strategy("honest code, one wrong coefficient in an empty system");
                let (s, _) = target();
                if let Some(t) = library_prover(&s, &wit, key) {
                    out.push((t, "proof with a bad witness".into()))
                }
            }));
        }
        16 => {
            // as 7 and 8, several guesses tried on a copy of the verifier
            let r = rnd(&mut d);
            violate(&mut d, &mut st.gam, e, &ww, r);
            let n = st.n;
            let tries = if n <= 16 { 8 } else { 5 };
            attacks.push(Box::new(move |d, out| {
                strategy("several guesses of the testing challenge tried on a copy of the verifier");
                let o = oracle();
                for i in 0..tries {
                    let a = d.below(n);
                    let b = (a + 1 + d.below(n - 1)) % n;
                    let guess = match d.below(6) {
                        0..=2 => Guess::Const(a, 0),
                        3 => Guess::Const(a, 1),
                        4 => Guess::Same(a, b),
                        _ => Guess::Same(a, if a + 1 < n { a + 1 } else { a - 1 }),
                    };
                    stat("byz.trials");
                    let we = extend(d, &wit.w);
                    let dev = InnerDev { guess, ..Default::default() };
                    if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &dev) {
                        let ok = verify_now("verify", &o.st, &o.pre, &t, false).0 == Ok(Ans::Accept);
                        if ok || i + 1 == tries {
                            out.push((t, "proof with w'' != Gamma w".into()));
                            break;
                        }
                    }
                }
            }));
        }
        14 => attacks.push(Box::new(move |d, out| {
            strategy("control");
            let o = oracle();
            let we = extend(d, &wit.w);
            if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &InnerDev::default()) {
                control(t, out)
            }
        })),
        _ => {
            // whatever the verifier does not bind is chosen last
            let r = rnd(&mut d);
            violate(&mut d, &mut st.gam, e, &ww, r);
            attacks.push(Box::new(move |d, out| {
                strategy("values that are not bound are chosen last");
                let o = oracle();
                let we = extend(d, &wit.w);
                if let Some(t) = inner_proof(d, &o, &o.st, &o.st.gam, &we, &adapt_dev()) {
                    out.push((t, "adaptive proof".into()))
                }
            }));
        }
    }
    deploy_attack(st, &[Sys::Q, Sys::Qi], attacks, "accepted-violated-equation")
}

// ------------------------------------------------------------------ C07

pub fn c07() -> Verdict {
    let sys = if draw(2) == 0 { Sys::A } else { Sys::I };
    let max_n = size(if draw(6) == 5 { 16 } else { 8 });
    let (mut st, wit) = gen(sys, Want { dense: false, max_n, min_n: 2 });
    let good = st.clone();
    let mut d = Data::new(1);
    let z = if draw(2) == 0 { Scalar::one() } else { d.random() };
    let wild = fresh_point(&mut d);
    let name: &str;
    let mut dev = AlmDev::default();
    let kind = draw(12);
    let mut lib_run = false;
    let mut wit = wit;
    let rounds = st.n.trailing_zeros() as u64;
    match kind {
        0 => {
            name = "claimed value wrong, honest code";
            st.ip += z;
            lib_run = true;
            if sys == Sys::I {
                // the commitment the verifier holds includes the true or the claimed value
                if draw(2) == 1 {
                    st.p += z * st.q;
                }
            }
        }
        1 | 2 => {
            name = "claimed value wrong";
            st.ip += z;
            if sys == Sys::I && draw(2) == 1 {
                st.p += z * st.q;
            }
            if sys == Sys::A && draw(3) > 0 {
                // compensated in the mask: guess that the weight is one
                dev.add = Some(-z * st.q);
            }
            if draw(3) == 2 {
                dev.ipa.alpha_one = true;
            }
        }
        3 => {
            name = "commitment to something else, honest code";
            st.p += wild;
            lib_run = true;
        }
        4 => {
            name = "commitment to something else";
            st.p += wild;
            match draw(3) {
                0 => dev.add = Some(-wild),
                1 => dev.ipa.add = Some((draw(2) == 0, draw(rounds) as usize, -wild)),
                _ => {}
            }
        }
        5 => {
            name = "other vectors";
            let i = d.below(st.n);
            if draw(2) == 0 {
                wit.a[i] += z;
            } else {
                wit.b[i] += z;
            }
            lib_run = draw(2) == 0;
        }
        6 => {
            name = "value wrong, compensated in one round";
            st.ip += z;
            let x = if draw(2) == 0 { z * st.q } else { -z * st.q };
            dev.ipa.add = Some((draw(2) == 0, draw(rounds) as usize, x));
        }
        10 => name = "control",
        11 => {
            name = "surplus on the value's generator";
            st.p += z * st.q;
            dev.skew = Some(z);
        }
        _ => {
            name = "values that are not bound are chosen last";
            if draw(2) == 0 {
                st.ip += z;
            } else {
                st.p += wild;
            }
            dev.ipa.adapt = true;
        }
    }
    let key = draw(1 << 30);
    let attack: Attack = Box::new(move |d, out| {
        strategy(name);
        let o = oracle();
        let s = &o.st;
        let t = if lib_run {
            library_prover(s, &wit, key)
        } else {
            let mut t = blank(s);
            let r = if s.sys == Sys::A {
                alm(&o, d, &mut t, 0, 0, &s.g, &s.h, &s.q, s.p, &wit.a, &wit.b, s.ip, &dev)
            } else {
                ipa(&o, d, &mut t, 0, 0, &s.g, &s.h, &s.q, wit.a.clone(), wit.b.clone(), s.p, s.ip, &dev.ipa)
            };
            r.map(|_| t)
        };
        if let Some(t) = t {
            if kind == 10 {
                return control(t, out);
            }
            out.push((t, "false inner-product proof".into()))
        }
    });
    let _ = good;
    deploy_attack(st, &[Sys::I, Sys::A], vec![attack], "accepted-wrong-claim")
}

// ------------------------------------------------------------------ C06

pub fn c06() -> Verdict {
    let sys = *pick(&[Sys::LB, Sys::ZB, Sys::LK, Sys::ZK]);
    let max_n = size(if draw(6) == 5 { 16 } else { 8 });
    let (mut st, wit) = loop {
        let (st, wit) = gen(sys, Want { dense: draw(2) == 1, max_n, min_n: if draw(3) == 2 { 0 } else { 2 } });
        // rows without any generator prove nothing
        break (st, wit);
    };
    let mut d = Data::new(1);
    let good = st.clone();
    let m = st.m;
    // which rows are wrong
    let mut off = vec![Pt::identity(); m];
    let kind = draw(9);
    let pattern = draw(7);
    match pattern {
        0 => off[draw(m as u64) as usize] = fresh_point(&mut d),
        1 => off[m - 1] = fresh_point(&mut d),
        2 => {
            // all but one
            let i = draw(m as u64) as usize;
            for (j, o) in off.iter_mut().enumerate() {
                if j != i || m == 1 {
                    *o = fresh_point(&mut d);
                }
            }
        }
        3 | 4 => {
            let (i, j) = (draw(m as u64) as usize, draw(m as u64) as usize);
            let x = fresh_point(&mut d);
            off[i] += x;
            if j != i {
                off[j] -= if pattern == 3 { x } else { sc(2) * x };
            }
        }
        5 => {
            for o in off.iter_mut() {
                *o = fresh_point(&mut d);
            }
        }
        _ => {
            let x = fresh_point(&mut d);
            for o in off.iter_mut() {
                *o = x;
            }
        }
    }
    let rounds = match sys {
        Sys::LB | Sys::ZB => st.n.trailing_zeros() as usize,
        _ => {
            let (mut r, mut n) = (0, st.n);
            while n >= st.k {
                n /= st.k;
                r += 1;
            }
            r
        }
    };
    let key = draw(1 << 30);
    let mut dev = LinDev::default();
    let mut stp = good.clone();
    let mut name = "image wrong";
    let mut lib_run = false;
    let mut last = false;
    match kind {
        0 => {
            name = "image wrong, honest code";
            lib_run = true;
            for i in 0..m {
                st.t[i] += off[i];
            }
            if draw(2) == 1 {
                stp.t = st.t.clone();
            }
        }
        1 => {
            for i in 0..m {
                st.t[i] += off[i];
            }
        }
        2 => {
            // another matrix, with an image that is right for that one only
            name = "another matrix";
            for i in 0..m {
                if off[i] != Pt::identity() {
                    let j = d.below(st.n);
                    stp.a[i][j] += off[i];
                }
            }
            if draw(3) == 2 && m > 1 {
                // the rows of the other one are those of this one, with other signs, factors or places
                stp.a = good.a.clone();
                match draw(4) {
                    0 | 1 => {
                        let one = draw(m as u64) as usize;
                        let f = if draw(2) == 0 { -Scalar::one() } else { sc(2) };
                        for i in 0..m {
                            if i == one || (i != (one + 1) % m && d.below(2) == 1) {
                                stp.a[i] = stp.a[i].iter().map(|x| f * x).collect();
                            }
                        }
                    }
                    2 => {
                        let i = draw(m as u64 - 1) as usize;
                        stp.a.swap(i, i + 1);
                    }
                    _ => {
                        let (i, j) = (draw(m as u64) as usize, draw(m as u64) as usize);
                        let r = stp.a[j].clone();
                        stp.a[i] = stp.a[i].iter().zip(&r).map(|(x, y)| x + y).collect();
                    }
                }
            }
            let wv = wit.w.clone();
            stp.t = image(&stp.a, &wv);
            if stp.t == good.t {
                // that entry of the witness is zero
                stp.t[0] += fresh_point(&mut d);
            }
            st.t = stp.t.clone();
            lib_run = draw(3) == 2;
            dev.carry_own = draw(8) as u8;
        }
        3 => {
            name = "image wrong, carried values those of the prover";
            for i in 0..m {
                st.t[i] += off[i];
            }
            dev.carry_own = 1 + draw(7) as u8;
        }
        4 | 5 => {
            name = "image wrong, compensated elsewhere";
            for i in 0..m {
                st.t[i] += off[i];
            }
            let neg: Vec<Pt> = off.iter().map(|x| -x).collect();
            let v = match draw(4) {
                0 => off.clone(),
                _ => neg,
            };
            let r = if rounds > 0 { draw(rounds as u64) as usize } else { 0 };
            let wh = match (draw(3), sys) {
                (0, Sys::ZB) | (0, Sys::ZK) => Where::Mask,
                (1, Sys::LB) | (1, Sys::ZB) => Where::L(r),
                (_, Sys::LB) | (_, Sys::ZB) => Where::R(r),
                _ => Where::U(r, draw(2 * st.k as u64) as usize),
            };
            dev.add = Some((wh, v));
        }
        6 => {
            name = "values that are not bound are chosen last";
            for i in 0..m {
                st.t[i] += off[i];
            }
            dev.adapt = true;
        }
        8 => name = "control",
        _ => {
            name = "image chosen last";
            last = true;
            if matches!(sys, Sys::ZB | Sys::ZK) && draw(2) == 0 {
                dev.wild_a = true;
            } else {
                dev.wild_l = true;
            }
        }
    }
    if kind == 7 && rounds == 0 && !dev.wild_a {
        // nothing to choose
        dev.wild_a = true;
    }
    let attack: Attack = Box::new(move |d, out| {
        strategy(name);
        let o = oracle();
        if lib_run {
            if let Some(t) = library_prover(&stp, &wit, key) {
                out.push((t, "proof for a wrong image".into()))
            }
            return;
        }
        let mut t = blank(&o.st);
        let end = match linear(&o, d, &mut t, &stp, &wit.w, &dev) {
            Some(e) => e,
            None => return,
        };
        if kind == 8 {
            return control(t, out);
        }
        if last {
            // the claim goes out after the rest of the proof
            let f = end.weight.invert();
            let t2: Vec<Pt> = o.st.t.iter().zip(&end.gap).map(|(t, g)| t + f * g).collect();
            if t2 == o.st.t {
                return;
            }
            let mut s2 = (*o.st).clone();
            s2.t = t2;
            let o2 = Orc { st: Arc::new(s2), pre: o.pre.clone() };
            // the values that travel along, as the verifier will compute them: once more with the
            // challenges it draws now; they are the same ones if the image is not bound
            let mut u = t.clone();
            if matches!(o.st.sys, Sys::LK | Sys::ZK) {
                fix_carried(&o2, &mut u);
            }
            w().sess[0].st = o2.st.clone();
            out.push((u, "image chosen after the proof".into()));
            return;
        }
        out.push((t, "proof for a wrong image".into()));
    });
    deploy_attack(st, &[Sys::LB, Sys::ZB, Sys::LK, Sys::ZK], vec![attack], "accepted-wrong-image")
}
/// The middle elements and the folded image for the statement of `o`, with the challenges it draws.
fn fix_carried(o: &Orc, t: &mut Tree) {
    let st = &o.st;
    let m = st.m;
    let z = st.sys == Sys::ZK;
    let off = z as usize;
    let rd = |t: &Tree, p: &[usize]| -> Pt {
        curve25519_dalek::ristretto::CompressedRistretto(t.leaf(p).1).decompress().unwrap_or(Pt::identity())
    };
    let mut cur = st.t.clone();
    if z {
        let b = match o.chal(t, 0) {
            Some(b) => b,
            None => return,
        };
        cur = (0..m).map(|i| b * cur[i] + rd(t, &[0, i])).collect();
    }
    let k = st.k;
    let (mut n, mut i) = (st.n, 0);
    while n >= k {
        for j in 0..m {
            t.set(&[off + 1, i, k - 1, j], enc(&cur[j]));
        }
        let x = match o.chal(t, off + i) {
            Some(x) => x,
            None => return,
        };
        let xi = x.invert();
        let mut nx = vec![Pt::identity(); m];
        for l in 0..2 * k - 1 {
            let (b, e) = if l >= k - 1 { (xi, l - (k - 1)) } else { (x, k - 1 - l) };
            let mut f = Scalar::one();
            for _ in 0..e {
                f *= b;
            }
            for j in 0..m {
                nx[j] += f * rd(t, &[off + 1, i, l, j]);
            }
        }
        cur = nx;
        n /= k;
        i += 1;
    }
    for j in 0..m {
        t.set(&[off + 3, j], enc(&cur[j]));
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone)]
struct CopyPlan {
    /// the prover's idea of the map: (position, index, commitment) per message
    map: Vec<(u16, u16, u16)>,
    msgs: Vec<Scalar>,
    rnd: Vec<Scalar>,
    w: Vec<Scalar>,
    /// change the witness after the aggregation
    tweak: Vec<(usize, Scalar)>,
    /// what goes into the aggregated values instead of the messages
    agg: Option<Vec<Scalar>>,
    /// (position, commitment, value): component of a commitment outside its set
    extra: Vec<(usize, usize, Scalar)>,
    /// copy equations the prover believes in
    eqs: u64,
    adapt: bool,
    /// the carried commitment is the one of the prover
    own_commitment: bool,
}
/// The matrices of the copy equations for a map.
fn copy_equations(map: &[(u16, u16, u16)], idx: &BTreeSet<u16>, al: &[Scalar], n2: usize, how: u64) -> Vec<Vec<Vec<Scalar>>> {
    let mut v = vec![];
    for (c, i) in idx.iter().enumerate() {
        let mut g = vec![vec![Scalar::zero(); n2]; n2];
        g[0][*i as usize] = -Scalar::one();
        let mut first = true;
        for m in map.iter().filter(|m| m.1 == *i) {
            if how == 3 && !first {
                continue;
            }
            first = false;
            g[0][m.0 as usize] = if how == 4 { Scalar::one() } else { al[m.2 as usize] };
        }
        match how {
            1 => continue,
            2 if c > 0 => continue,
            6 if c >= 2 => continue,
            7 if c >= 4 => continue,
            8 if c >= 8 => continue,
            9 if c >= 16 => continue,
            5 if c + 1 == idx.len() => continue,
            _ => {}
        }
        v.push(g);
    }
    v
}
fn copy_proof(d: &mut Data, o: &Orc, p: &CopyPlan) -> Option<(Tree, Scalar)> {
    let st = &o.st;
    let (n, n2) = (st.n, st.n - 2);
    let mut we = vec![Scalar::zero(); n];
    we[..p.w.len()].copy_from_slice(&p.w);
    we[n - 2] = d.random();
    we[n - 1] = d.random();
    for (m, v) in p.map.iter().zip(&p.msgs) {
        we[m.0 as usize] = *v;
    }
    let mut t = blank(st);
    let mut cw = msm(&we, &st.g);
    t.set(&[0], enc(&cw));
    let al0 = o.chal(&t, 0)?;
    let al = alphas(al0, st.comms.len());
    for (j, r) in p.rnd.iter().enumerate() {
        we[n - 1] += al[j] * r;
    }
    for (m, v) in p.map.iter().zip(p.agg.as_ref().unwrap_or(&p.msgs)) {
        we[m.1 as usize] += al[m.2 as usize] * v;
    }
    for (i, c, x) in &p.extra {
        we[*i] += al[*c] * x;
    }
    for (i, x) in &p.tweak {
        we[*i] += x;
    }
    let held: Pt = al.iter().zip(&st.comms).map(|(a, c)| a * c).sum();
    if p.adapt && !o.bound(&t, &[0], 0) {
        cw = msm(&we, &st.g) - held;
        t.set(&[0], enc(&cw));
    }
    let c1 = if p.own_commitment { msm(&we, &st.g) } else { cw + held };
    t.set(&[1], enc(&c1));
    let idx = st.map.as_ref().unwrap().sim_unique_indices();
    let mut gam = st.gam.clone();
    gam.extend(copy_equations(&p.map, &idx, &al, n2, p.eqs));
    let mut dev = InnerDev::default();
    dev.alm.ipa.adapt = p.adapt;
    inner(o, d, &mut t, 1, 1, st, &gam, &we, &dev)?;
    Some((t, al0))
}
fn plan_of(st: &Stmt, wit: &Wit) -> CopyPlan {
    CopyPlan {
        map: st.map.as_ref().unwrap().sim_messages(),
        msgs: wit.open.iter().flat_map(|o| o.0.iter().cloned()).collect(),
        rnd: wit.open.iter().map(|o| o.1).collect(),
        w: wit.w.clone(),
        tweak: vec![],
        agg: None,
        extra: vec![],
        eqs: 0,
        adapt: false,
        own_commitment: false,
    }
}
pub fn c04() -> Verdict {
    let max_n = size(if draw(3) == 2 { 16 } else { 8 });
    let kind = draw(18);
    // many generators committed to, many commitments
    let many = if kind >= 15 { draw(2) == 1 } else { matches!(kind, 3 | 5 | 7) && draw(4) == 3 };
    let max_n = if many { 32 } else { max_n };
    let want = if many { 5 + draw(8) as usize } else { 0 };
    let mut tries = 0;
    let same = |m: usize| same_weight(&|x, _| alphas(x, m), draw(64) as usize);
    let (mut st, mut wit) = loop {
        let (mut st, wit) = gen(Sys::C, Want { dense: false, max_n, min_n: if many { 32 } else { 0 } });
        if matches!(kind, 1 | 3 | 9) && st.comms.len() < 2 {
            continue;
        }
        if many && st.sets.iter().flatten().collect::<BTreeSet<_>>().len().max(st.comms.len()) < want {
            tries += 1;
            if tries < 60 {
                continue;
            }
        }
        if kind >= 2 && draw(2) == 0 {
            // only what ties the witness to the commitments
            st.gam.truncate(0);
        }
        break (st, wit);
    };
    let mut d = Data::new(1);
    let z = if draw(2) == 0 { Scalar::one() } else { d.random() };
    let wild = fresh_point(&mut d);
    let nc = st.comms.len();
    let n = st.n;
    let key = draw(1 << 30);
    let mut plan = plan_of(&st, &wit);
    let nm = plan.msgs.len();
    let mut stp: Option<Stmt> = None;
    let mut late: Option<Pt> = None;
    let mut maps: Vec<(Stmt, Wit)> = vec![];
    // a commitment that has messages
    let ci = {
        let v: Vec<usize> = (0..nc).filter(|i| !st.sets[*i].is_empty()).collect();
        v[draw(v.len() as u64) as usize]
    };
    let mut mi = draw(nm as u64) as usize;
    let mut few = draw(10);
    if many {
        // one of the generators past those that a shortened list of equations covers
        let idx = st.map.as_ref().unwrap().sim_unique_indices();
        let rank = |m: usize| idx.iter().take_while(|x| **x < plan.map[m].1).count();
        let most = (0..nm).map(rank).max().unwrap_or(0);
        let fit: Vec<u64> = (6..10).filter(|e| 1 << (e - 5) <= most).collect();
        if !fit.is_empty() && draw(4) > 0 {
            stat("byz.shortened_list");
            few = fit[fit.len() - 1 - draw(fit.len() as u64).min(draw(fit.len() as u64)) as usize];
            if few == 8 {
                stat("byz.eight_equations");
            }
            let v: Vec<usize> = (0..nm).filter(|m| rank(*m) >= 1 << (few - 5)).collect();
            mi = v[draw(v.len() as u64) as usize];
        }
    }
    let mi = mi;
    let name = match kind {
        0 => {
            st.comms[ci] += match draw(4) {
                0 => wild,
                1 => z * st.g[*st.sets[ci].iter().next().unwrap() as usize],
                2 => z * st.g[0],
                _ => z * st.g[n - 2],
            };
            if draw(2) == 0 {
                stp = Some(st.clone());
            }
            "one commitment is to something else"
        }
        1 => {
            // two commitments exchanged
            let mut cj = draw(nc as u64) as usize;
            if cj == ci {
                cj = (ci + 1) % nc;
            }
            let how = draw(3);
            if how == 2 {
                stp = Some(st.clone());
            }
            st.comms.swap(ci, cj);
            if st.comms[ci] == st.comms[cj] {
                st.comms[ci] += wild;
            }
            if how == 0 {
                stp = Some(st.clone());
            }
            "two commitments exchanged"
        }
        2 => {
            // the prover uses other messages
            plan.msgs[mi] += z;
            if draw(2) == 0 {
                // and makes up for it in the witness, where no message is
                plan.tweak.push((plan.map[mi].1 as usize, if draw(2) == 0 { -z } else { z }));
            }
            "another message"
        }
        3 => {
            // shifts that cancel
            let mut cj = draw(nc as u64) as usize;
            if cj == ci {
                cj = (ci + 1) % nc;
            }
            let x = match draw(3) {
                0 => wild,
                1 => z * st.g[*st.sets[ci].iter().next().unwrap() as usize],
                _ => z * st.g[0],
            };
            if draw(2) == 0 {
                // an honest proof of the commitments before
                stp = Some(st.clone());
            }
            let mut ci = ci;
            if let (Some((i, j)), true) = (same(nc), draw(4) > 0) {
                ci = i;
                cj = j;
            }
            st.comms[ci] += x;
            st.comms[cj] -= match draw(3) {
                0 | 1 => x,
                _ => sc(ci as u64 + 1) * sc(cj as u64 + 1).invert() * x,
            };
            "shifts of two commitments that cancel"
        }
        4 => {
            // other positions than the public map says
            let free: Vec<u16> = (1..n as u16 - 2)
                .filter(|p| !plan.map.iter().any(|m| m.0 == *p || m.1 == *p))
                .collect();
            if draw(2) == 0 && !free.is_empty() {
                plan.map[mi].0 = *pick(&free);
                // something else where the verifier expects it
                let old = plan_of(&st, &wit).map[mi].0 as usize;
                plan.tweak.push((old, z));
            } else if nm > 1 {
                let mj = (mi + 1) % nm;
                let a = plan.map[mi].0;
                plan.map[mi].0 = plan.map[mj].0;
                plan.map[mj].0 = a;
                if plan.msgs[mi] == plan.msgs[mj] {
                    plan.tweak.push((a as usize, z));
                }
            } else {
                plan.tweak.push((plan.map[mi].0 as usize, z));
            }
            plan.eqs = draw(6);
            "messages at other positions"
        }
        5 | 6 => {
            // value at the position and aggregated value differ
            plan.eqs = if many { few } else { draw(6) };
            if draw(3) > 0 {
                // from the start
                plan.agg = Some(plan.msgs.clone());
                plan.msgs[mi] += z;
                if draw(2) == 0 {
                    // and the values of two commitments on one generator make up for each other
                    let also: Vec<usize> = (0..nm).filter(|m| *m != mi && plan.map[*m].1 == plan.map[mi].1).collect();
                    if !also.is_empty() {
                        plan.msgs[*pick(&also)] -= z;
                    }
                }
            } else {
                plan.tweak.push((plan.map[mi].0 as usize, z));
            }
            "witness value differs from the committed one"
        }
        7 => {
            plan.tweak.push((plan.map[mi].1 as usize, z));
            plan.eqs = if many { few } else { draw(6) };
            "aggregated value shifted"
        }
        8 => {
            // value in the commitment at an index outside its set, or in the first entry
            let i = match draw(3) {
                0 => 0,
                1 => st.wlen.saturating_sub(1),
                _ => n - 2,
            };
            st.comms[ci] += z * st.g[i];
            let f = if draw(2) == 0 { z } else { -z };
            plan.tweak.push((i, f));
            "surplus component of a commitment"
        }
        9 => {
            // commitments chosen after the rest
            late = Some(wild);
            "commitments chosen last"
        }
        10 => {
            st.comms[ci] += wild;
            plan.own_commitment = true;
            "carried commitment is not the one of the verifier"
        }
        11 => {
            // the quadratic system is violated by the committed values
            let mut full = vec![Scalar::zero(); n - 2];
            full[..wit.w.len()].copy_from_slice(&wit.w);
            for (m, v) in plan.map.iter().zip(&plan.msgs) {
                full[m.0 as usize] = *v;
            }
            if st.gam.is_empty() {
                st.gam.push(vec![vec![Scalar::zero(); n - 2]; n - 2]);
            }
            let e = draw(st.gam.len() as u64) as usize;
            let p = plan.map[mi].0 as usize;
            // concerns that message
            let col = if full[p] == Scalar::zero() { 0 } else { p };
            st.gam[e][0][col] += z;
            stp = if draw(2) == 0 { Some(st.clone()) } else { None };
            "committed values violate the system"
        }
        12 => {
            // openings that differ from what the prover uses, honest code
            stp = Some(st.clone());
            let o = wit.open[ci].0.len();
            let x = draw(o as u64) as usize;
            if draw(2) == 0 {
                wit.open[ci].0[x] += z;
            } else {
                wit.open[ci].1 += z;
            }
            "honest code with a wrong opening"
        }
        14 => "control",
        15..=17 => {
            // equations that hold whatever the messages are
            let idx: Vec<usize> = (0..st.wlen).collect();
            let mut full = vec![Scalar::zero(); n - 2];
            full[..wit.w.len()].copy_from_slice(&wit.w);
            let k = if n <= 32 { draw(12) as usize } else { draw(3) as usize };
            st.gam = (0..k).map(|_| equation(&mut d, &full, &idx, false)).collect();
            let map = st.map.clone().unwrap();
            // messages on one generator change places
            for i in 0..nm {
                for j in 0..i {
                    if plan.map[i].1 == plan.map[j].1 && plan.msgs[i] != plan.msgs[j] {
                        let mut m = map.clone();
                        let (a, b) = (plan.map[i], plan.map[j]);
                        m.sim_set_message(i, (b.0, a.1, a.2));
                        m.sim_set_message(j, (a.0, b.1, b.2));
                        maps.push((Stmt { map: Some(m), ..st.clone() }, wit.clone()));
                    }
                }
            }
            // a message goes where it is not looked for, and something else to its place
            let free: Vec<u16> = (st.wlen as u16..n as u16 - 2)
                .filter(|p| !plan.map.iter().any(|m| m.0 == *p || m.1 == *p))
                .collect();
            if !free.is_empty() {
                for i in 0..nm {
                    let mut m = map.clone();
                    let a = plan.map[i];
                    m.sim_set_message(i, (*pick(&free), a.1, a.2));
                    let mut w2 = full.clone();
                    w2[a.0 as usize] = plan.msgs[i] + z;
                    maps.push((Stmt { map: Some(m), ..st.clone() }, Wit { w: w2, ..wit.clone() }));
                }
            }
            if !maps.is_empty() {
                let from = draw(maps.len() as u64) as usize;
                maps.rotate_left(from);
            }
            "honest code with another map, tried on a copy of the verifier"
        }
        _ => {
            plan.adapt = true;
            match draw(3) {
                0 => plan.msgs[mi] += z,
                1 => st.comms[ci] += wild,
                _ => plan.tweak.push((plan.map[mi].0 as usize, z)),
            }
            "values that are not bound are chosen last"
        }
    };
    let attack: Attack = Box::new(move |d, out| {
        strategy(name);
        let o = oracle();
        if let Some(s) = &stp {
            if let Some(t) = library_prover(s, &wit, key) {
                out.push((t, "proof about other commitments".into()))
            }
            return;
        }
        if kind >= 15 {
            let most = if o.st.n <= 16 { 10 } else { 6 };
            let mut last = None;
            for (s, w) in maps.iter().take(most) {
                stat("byz.trials");
                last = library_prover(s, w, key);
                if let Some(t) = &last {
                    if verify_now("verify", &o.st, &o.pre, t, false).0 == Ok(Ans::Accept) {
                        break;
                    }
                }
            }
            if let Some(t) = last {
                out.push((t, "copy proof with another map".into()))
            }
            return;
        }
        let (t, al) = match copy_proof(d, &o, &plan) {
            Some(x) => x,
            None => return,
        };
        if kind == 14 {
            return control(t, out);
        }
        if let Some(x) = late {
            // P_i + alpha^(j+1) X and P_j - alpha^(i+1) X aggregate to the same
            let mut s2 = (*o.st).clone();
            let pw = alphas(al, s2.comms.len());
            s2.comms[0] += pw[1] * x;
            s2.comms[1] -= pw[0] * x;
            w().sess[0].st = Arc::new(s2);
        }
        out.push((t, "copy proof about other commitments".into()));
    });
    deploy_attack(st, &[Sys::C], vec![attack], "accepted-misrepresentation")
}

/// The recorded finding of C04: a commitment with a component on the generator of a witness position
/// that belongs to a message of another commitment.
pub fn known_finding() -> Verdict {
    use qesa::sim_hooks as hk;
    let n = 16;
    let mut d = Data::new(1);
    let (mut st, _) = gen(Sys::A, Want { dense: true, max_n: n, min_n: n });
    st.sys = Sys::C;
    st.gam = vec![];
    st.wlen = 2;
    let c: u16 = 10;
    st.sets = vec![[c].into_iter().collect(), [c].into_iter().collect()];
    let sets = st.sets.clone();
    let (m, _) = lib(job("mapping", 0), move || hk::copy::compute_mapping(n, 2, &sets));
    let map = match m {
        Ok(m) => m,
        Err(_) => return None,
    };
    let ms = map.sim_messages();
    st.map = Some(map);
    let (m1, m2, z) = (d.random(), d.random(), d.random());
    let r = vec![d.random(), d.random()];
    let p1 = ms[0].0 as usize;
    // the first commitment also has a component on the generator of its own message's position;
    // the second is well-formed, to m2
    let (gc, gr) = (st.g[c as usize], st.g[n - 1]);
    st.comms = vec![m1 * gc + z * st.g[p1] + r[0] * gr, m2 * gc + r[1] * gr];
    let plan = CopyPlan {
        map: ms,
        // the witness holds m2 - z for the second
        msgs: vec![m1, m2 - z],
        agg: Some(vec![m1, m2]),
        extra: vec![(p1, 0, z)],
        rnd: r,
        w: vec![Scalar::one(), d.random()],
        tweak: vec![],
        eqs: 0,
        adapt: false,
        own_commitment: false,
    };
    let attack: Attack = Box::new(move |d, out| {
        strategy("component of one commitment on the generator of a message's witness position");
        let o = oracle();
        if let Some((t, _)) = copy_proof(d, &o, &plan) {
            out.push((t, "copy proof that uses m2 - z for the commitment to m2".into()));
        }
    });
    deploy_attack(st, &[Sys::C], vec![attack], "accepted-misrepresentation")
}
