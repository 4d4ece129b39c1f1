//! Where the masking randomness comes from and what it hides (C13, C14).
use super::*;
use crate::byz::{as_scalar, orth_to, sc};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as B;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;

const MASKED: [Sys; 6] = [Sys::Q, Sys::ZB, Sys::A, Sys::ZK, Sys::C, Sys::Qi];

/// Independent entries of one orthogonal mask of length n.
fn mask_dim(n: usize) -> usize {
    n.min(2 * n.trailing_zeros() as usize + 2)
}
/// Values of the proof that carry masks only, and how many fresh scalars each must depend on.
fn needs(st: &Stmt) -> Vec<(Vec<usize>, usize)> {
    let m = 2 * mask_dim(st.n);
    match st.sys {
        Sys::Q => vec![(vec![0], 2), (vec![1], 2), (vec![2], 2 + m)],
        Sys::Qi => vec![(vec![2], m)],
        Sys::C => vec![(vec![0], 2), (vec![1], 2), (vec![2], 2), (vec![3], 2 + m)],
        Sys::A => vec![(vec![0], m)],
        Sys::ZB | Sys::ZK => (0..st.m).map(|i| (vec![0, i], st.n)).collect(),
        _ => vec![],
    }
}
/// Values that must differ between any two proofs.
fn fresh_leaves(sys: Sys, t: &Tree) -> Vec<Vec<usize>> {
    t.leaves().into_iter().filter(|p| !(sys == Sys::Qi && p[0] < 2)).collect()
}
fn repeated(sys: Sys, a: &Tree, b: &Tree) -> Option<String> {
    for p in fresh_leaves(sys, a) {
        if let Some(i) = fresh_leaves(sys, b).iter().find(|q| **q == p) {
            if a.leaf(&p) == b.leaf(i) {
                return Some(p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("."));
            }
        }
    }
    None
}

/// A deployment in which the same statements are proved over and over.
fn repetition() -> Verdict {
    draw_net(true);
    let n = &mut w().net;
    n.crash = n.crash.max(25 * draw(2));
    n.outage = n.outage.max(25 * draw(2));
    n.clock = n.clock || draw(2) == 1;
    let sys = *pick(&MASKED);
    let (st, wit) = gen(sys, Want { dense: true, max_n: size_dear(if draw(6) == 5 { 16 } else { 8 }), min_n: 2 });
    let pre = preamble();
    trace(format!("{} preamble {:?}", describe(&st), pre));
    let k = 2 + draw(5);
    for i in 0..k {
        let other = draw(4) == 3;
        let (st, wit) = if other { gen(sys, Want { dense: true, max_n: size_dear(8), min_n: 2 }) } else { (st.clone(), wit.clone()) };
        add_session(st, wit, if i > 0 && draw(3) == 2 { preamble() } else { pre.clone() }, true);
    }
    draw_past(&[sys]);
    deploy(1, 1 + draw(3) as usize);
    run(END + 1, 400_000);
    if let Some(v) = outage_proof() {
        return Some(v);
    }
    let all: Vec<(usize, Tree)> =
        (0..w().sess.len()).flat_map(|s| w().sess[s].honest.iter().map(move |t| (s, t.clone()))).collect();
    stat_n("judged.proof_pairs", (all.len() * all.len().saturating_sub(1) / 2) as u64);
    let mut seen = std::collections::HashMap::new();
    for (s, a) in &all {
        for p in fresh_leaves(sys, a) {
            let v = a.leaf(&p).1;
            if let Some(r) = seen.insert((p.clone(), v), *s) {
                let p = p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".");
                return bad("repeated-mask", format!("two proofs (s{}, s{}) share value {} ({})", r, s, p, describe(&w().sess[*s].st)));
            }
        }
    }
    None
}
/// An attempt that was refused entropy and still gave a proof.
fn outage_proof() -> Verdict {
    for p in &w().prec {
        if p.res.is_ok() && p.outage {
            return bad("proof-without-entropy", format!("session {} attempt {}: a proof although the entropy source failed", p.sess, p.attempt));
        }
    }
    None
}
type Flip = Option<(usize, usize)>;
/// The proof, made in a copy of this process, with one byte of entropy different.
fn probe(st: &Stmt, wit: &Wit, pre: &Preamble, stream: u64, flip: Flip) -> Option<(Tree, Vec<Vec<u8>>)> {
    probe_with(st, wit, pre, stream, flip, None)
}
/// The same; the entropy source may answer with given bytes instead.
fn probe_with(
    st: &Stmt,
    wit: &Wit,
    pre: &Preamble,
    stream: u64,
    flip: Flip,
    over: Option<(usize, Vec<u8>)>,
) -> Option<(Tree, Vec<Vec<u8>>)> {
    let b = forked(|| {
        let mut cx = job("create", stream);
        cx.flips = flip.into_iter().collect();
        cx.over = over.into_iter().collect();
        let mut tr = transcript(pre, Some(st));
        let (r, cx) = lib(cx, || prove(st, wit, &mut tr));
        let mut o = vec![];
        if let Ok(t) = r {
            o.extend_from_slice(&(cx.draws.len() as u32).to_le_bytes());
            for d in &cx.draws {
                o.extend_from_slice(&(d.len() as u32).to_le_bytes());
                o.extend_from_slice(d);
            }
            t.ser(&mut o);
        }
        o
    });
    if b.is_empty() {
        return None;
    }
    let mut r = &b[..];
    let num = |r: &mut &[u8]| {
        let n = u32::from_le_bytes([r[0], r[1], r[2], r[3]]) as usize;
        *r = &r[4..];
        n
    };
    let k = num(&mut r);
    let mut draws = vec![];
    for _ in 0..k {
        let l = num(&mut r);
        draws.push(r[..l].to_vec());
        r = &r[l..];
    }
    Some((Tree::de(&mut r), draws))
}
/// Something happened before in this process.
fn history(st: &Stmt, wit: &Wit, pre: &Preamble) {
    for i in 0..draw(4) {
        let mut cx = job("create earlier", 500 + i);
        let what = match draw(5) {
            0 => "a proof",
            1 | 2 => {
                stat("fault.crash_in_create");
                cx.abort_at = 1 + draw(60);
                "an aborted proof"
            }
            3 => {
                cx.fail_at = Some(draw(12) as usize);
                "a proof without entropy"
            }
            _ => {
                stat("fault.clock_jump");
                sim().clock_off -= 1 << 40;
                "the clock set back, and a proof"
            }
        };
        let mut tr = transcript(pre, Some(st));
        let (r, _) = lib(cx, || prove(st, wit, &mut tr));
        trace(format!("before: {} -> {}", what, if r.is_ok() { "proof" } else { "none" }));
    }
}
/// How many scalars' worth of entropy the values depend on.
fn influence() -> Verdict {
    let sys = *pick(&MASKED);
    // witnesses of small values, or otherwise peculiar
    SMALL.store(draw(3) == 2, std::sync::atomic::Ordering::Relaxed);
    let (mut st, mut wit) = gen(sys, Want { dense: true, max_n: size_dear(if draw(4) == 3 { 16 } else { 8 }), min_n: 2 });
    if matches!(sys, Sys::ZB | Sys::ZK) {
        let n = st.n;
        let at = draw(n as u64) as usize;
        match draw(9) {
            0 => wit.w = vec![Scalar::zero(); n],
            1 => wit.w = (0..n).map(|i| Scalar::from((i == at) as u64)).collect(),
            2 => wit.w = (0..n).map(|i| Scalar::from((i != at) as u64)).collect(),
            3 => wit.w = vec![wit.w[at]; n],
            4 => wit.w = vec![-Scalar::one(); n],
            5 => wit.w = (0..n).map(|i| if i < at { wit.w[i] } else { Scalar::zero() }).collect(),
            _ => {}
        }
        st.t = image(&st.a, &wit.w);
    }
    let pre = preamble();
    trace(format!("{} preamble {:?}", describe(&st), pre));
    history(&st, &wit, &pre);
    let stream = 1000 + draw(1000);
    // the scalars the entropy source gives are below 2^248
    let low = draw(3) == 2;
    let (t, draws) = match probe(&st, &wit, &pre, stream, None) {
        Some(x) => x,
        None => {
            stat("inconclusive");
            return None;
        }
    };
    let need = needs(&st);
    // for each value: how many units of entropy count
    let mut units = vec![0usize; need.len()];
    let mut small = vec![0usize; need.len()];
    let mut largest = 0;
    for (j, dr) in draws.iter().enumerate() {
        let mut off = 0;
        while off < dr.len() {
            let len = if dr.len() - off >= 96 { 64 } else { dr.len() - off };
            let next = off + len;
            let mut over = None;
            let mut t = &t;
            let t1;
            let mut len = len;
            if low && len >= 32 {
                let mut v = dr.clone();
                for x in &mut v[off + 31..off + len] {
                    *x = 0;
                }
                over = Some((j, v));
                len = 31;
                t1 = match probe_with(&st, &wit, &pre, stream, None, over.clone()) {
                    Some(x) => x.0,
                    None => {
                        stat("inconclusive");
                        return None;
                    }
                };
                t = &t1;
                stat("fault.entropy_small_value");
            }
            let differs = |b: usize| -> Vec<bool> {
                stat("fault.entropy_flip");
                match probe_with(&st, &wit, &pre, stream, Some((j, off + b)), over.clone()) {
                    Some((u, _)) => need.iter().map(|(p, _)| u.leaf(p) != t.leaf(p)).collect(),
                    None => vec![true; need.len()],
                }
            };
            // a byte below and one above the 16th tell a short mask from a full one
            let some = [
                draw(8) as usize % len,
                (8 + draw(len.max(9) as u64 - 8) as usize) % len,
                if low { len - 1 - draw(4) as usize % len } else { draw(8) as usize % len },
            ];
            let seen: Vec<Vec<bool>> = some.iter().map(|b| differs(*b)).collect();
            let full: Vec<bool> = (0..need.len()).map(|i| seen.iter().all(|s| s[i])).collect();
            let any: Vec<bool> = (0..need.len()).map(|i| seen.iter().any(|s| s[i])).collect();
            let mut count = vec![0usize; need.len()];
            if (len < 32 && !low) || full != any {
                for b in 0..len {
                    for (c, x) in count.iter_mut().zip(differs(b)) {
                        *c += x as usize;
                    }
                }
            } else {
                for (c, x) in count.iter_mut().zip(&full) {
                    *c = if *x { len } else { 0 };
                }
            }
            for i in 0..need.len() {
                largest = largest.max(count[i]);
                if count[i] >= 32 || (low && count[i] >= 28) {
                    units[i] += 1;
                } else {
                    small[i] += count[i];
                }
            }
            off = next;
        }
    }
    trace(format!("{} draws; units {:?} and {:?} bytes; needed {:?}", draws.len(), units, small, need.iter().map(|n| n.1).collect::<Vec<_>>()));
    for (i, (p, n)) in need.iter().enumerate() {
        stat("judged.mask_entropy");
        let have = units[i] + small[i] / 32;
        if have < *n {
            return bad(
                "too-little-entropy",
                format!("value {:?} depends on {} fresh scalars instead of {} ({})", p, have, n, describe(&st)),
            );
        }
    }
    None
}
/// Every draw may fail.
fn outage() -> Verdict {
    let sys = *pick(&MASKED);
    let (st, wit) = gen(sys, Want { dense: true, max_n: size_dear(8), min_n: 2 });
    let pre = preamble();
    trace(format!("{} preamble {:?}", describe(&st), pre));
    history(&st, &wit, &pre);
    let (t, draws) = match probe(&st, &wit, &pre, 1, None) {
        Some(x) => x,
        None => {
            stat("inconclusive");
            return None;
        }
    };
    for j in 0..draws.len() {
        let b = forked(|| {
            let mut cx = job("create", 1);
            cx.fail_at = Some(j);
            let mut tr = transcript(&pre, Some(&st));
            let (r, cx) = lib(cx, || prove(&st, &wit, &mut tr));
            vec![r.is_ok() as u8, cx.failed as u8]
        });
        stat("fault.entropy_outage");
        stat("judged.outage");
        if b == [1, 1] {
            return bad("proof-without-entropy", format!("entropy failed from draw {} on, and a proof was made ({})", j, describe(&st)));
        }
    }
    // afterwards everything is as before, with fresh values
    let mut tr = transcript(&pre, Some(&st));
    let (r, _) = lib(job("create", 2), || prove(&st, &wit, &mut tr));
    if let Ok(u) = r {
        if let Some(p) = repeated(sys, &t, &u) {
            return bad("repeated-mask", format!("value {} again after outages ({})", p, describe(&st)));
        }
    }
    None
}
fn bpt() -> Pt {
    B
}
fn neg(b: [u8; 32]) -> [u8; 32] {
    curve25519_dalek::ristretto::CompressedRistretto(b).decompress().map(|p| enc(&-p)).unwrap_or(b)
}
/// Generators that show single entries of a mask.
fn entries() -> Verdict {
    let sys = [Sys::ZB, Sys::ZK, Sys::A, Sys::Q, Sys::C, Sys::Qi][draw(6) as usize];
    // (the system of a copy proof is sparse: from 16 generators on, some entries of its masks are zero)
    let max_n = if draw(20) == 19 && sys != Sys::C { 16 } else { 8 };
    let (st0, wit) = gen(sys, Want { dense: true, max_n, min_n: 2 });
    let pre = preamble();
    trace(format!("{} preamble {:?}", describe(&st0), pre));
    history(&st0, &wit, &pre);
    let id = enc(&Pt::identity());
    if matches!(sys, Sys::ZB | Sys::ZK) {
        let mut st = st0.clone();
        st.m = st.n;
        st.a = (0..st.n).map(|i| (0..st.n).map(|j| if i == j { bpt() } else { Pt::identity() }).collect()).collect();
        st.t = image(&st.a, &wit.w);
        let (t, draws) = match probe(&st, &wit, &pre, 1, None) {
            Some(x) => x,
            None => {
                stat("inconclusive");
                return None;
            }
        };
        let u = match probe(&st, &wit, &pre, 2, None) {
            Some(x) => x.0,
            None => return None,
        };
        let row = |t: &Tree| -> Vec<[u8; 32]> { (0..st.n).map(|i| t.leaf(&[0, i]).1).collect() };
        let (a, b) = (row(&t), row(&u));
        stat("judged.mask_entries");
        for i in 0..st.n {
            if a[i] == id {
                return bad("zero-mask", format!("entry {} of the mask is zero ({})", i, describe(&st)));
            }
            for j in 0..st.n {
                if (i != j && (a[i] == a[j] || a[i] == neg(a[j]))) || a[i] == b[j] || a[i] == neg(b[j]) {
                    return bad("repeated-mask", format!("entries {} and {} of the mask are the same ({})", i, j, describe(&st)));
                }
            }
        }
        // each entry can be matched with entropy of its own
        let mut depends: Vec<Vec<usize>> = vec![];
        for (j, dr) in draws.iter().enumerate() {
            let mut off = 0;
            while off < dr.len() {
                let len = if dr.len() - off >= 96 { 64 } else { dr.len() - off };
                let v = match probe(&st, &wit, &pre, 1, Some((j, off + len / 3))) {
                    Some((v, _)) => row(&v),
                    None => return None,
                };
                depends.push((0..st.n).filter(|i| v[*i] != a[*i]).collect());
                off += len;
            }
        }
        if depends.len() >= st.n && matching(&depends, st.n) < st.n {
            return bad("derived-mask", format!("the entries of the mask are not independent: {:?} ({})", depends, describe(&st)));
        }
        return None;
    }
    // one generator alone
    let unit = |hside: bool, i: usize| -> (Stmt, Wit) {
        let mut st = st0.clone();
        st.g = vec![Pt::identity(); st.n];
        st.h = vec![Pt::identity(); st.n];
        if hside {
            st.h[i] = bpt();
        } else {
            st.g[i] = bpt();
        }
        if sys == Sys::A {
            st.p = msm(&wit.a, &st.g) + msm(&wit.b, &st.h);
        }
        if sys == Sys::C {
            st.comms = st.sets.iter().zip(&wit.open).map(|(s, (m, r))| ref_commit(&st.g, s, m, r)).collect();
        }
        (st, wit.clone())
    };
    let cr = match sys {
        Sys::A => vec![0],
        Sys::C => vec![3],
        _ => vec![2],
    };
    for _ in 0..3 {
        let (hs, i) = (draw(2) == 1, draw(st0.n as u64) as usize);
        let (st, wit) = unit(hs, i);
        let (t, u) = match (probe(&st, &wit, &pre, 1, None), probe(&st, &wit, &pre, 2, None)) {
            (Some(t), Some(u)) => (t.0, u.0),
            _ => {
                stat("inconclusive");
                return None;
            }
        };
        stat("judged.mask_entries");
        let (a, b) = (t.leaf(&cr).1, u.leaf(&cr).1);
        let side = if hs { "H" } else { "G" };
        if a == id {
            return bad("zero-mask", format!("the mask on generator {}_{} is zero ({})", side, i, describe(&st)));
        }
        if a == b || a == neg(b) {
            return bad("repeated-mask", format!("the mask on generator {}_{} is the same in two proofs ({})", side, i, describe(&st)));
        }
    }
    if sys != Sys::Q && sys != Sys::C {
        return None;
    }
    // the blinders of the witness commitments
    let n = st0.n;
    let mut vals: Vec<([u8; 32], String)> = vec![];
    for stream in [1, 2] {
        for (part, hs) in if sys == Sys::Q { [(0, false), (1, true)] } else { [(0, false), (2, true)] } {
            for i in [n - 2, n - 1] {
                let (st, wit) = unit(hs, i);
                let t = match probe(&st, &wit, &pre, stream, None) {
                    Some(x) => x.0,
                    None => return None,
                };
                let v = t.leaf(&[part]).1;
                let what = format!("proof {} value {} generator {}", stream, part, i);
                if v == id {
                    return bad("zero-mask", format!("no blinder: {} ({})", what, describe(&st)));
                }
                vals.push((v, what));
            }
        }
    }
    // the second commitment uses the same two blinders the other way round, nothing else may be shared
    for i in 0..vals.len() {
        for j in 0..i {
            let same = vals[i].0 == vals[j].0 || vals[i].0 == neg(vals[j].0);
            let turned = i / 4 == j / 4 && i % 4 >= 2 && j % 4 < 2 && (i % 2) != (j % 2);
            if same && !turned {
                return bad("repeated-mask", format!("same blinder: {} and {} ({})", vals[j].1, vals[i].1, describe(&st0)));
            }
        }
    }
    None
}
/// Size of a largest matching between the units of entropy and the entries that depend on them.
fn matching(depends: &[Vec<usize>], n: usize) -> usize {
    let mut owner: Vec<Option<usize>> = vec![None; n];
    fn go(u: usize, d: &[Vec<usize>], owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &e in &d[u] {
            if !seen[e] {
                seen[e] = true;
                if owner[e].is_none() || go(owner[e].unwrap(), d, owner, seen) {
                    owner[e] = Some(u);
                    return true;
                }
            }
        }
        false
    }
    (0..depends.len()).filter(|u| go(*u, depends, &mut owner, &mut vec![false; n])).count()
}
pub fn c13() -> Verdict {
    match draw(8) {
        0..=3 => repetition(),
        4 | 5 => influence(),
        6 => outage(),
        _ => entries(),
    }
}

// ------------------------------------------------------------------ C14

/// Where in the drawn entropy each mask entry is: (draw, offset, length).
fn calibrate(st: &Stmt, wit: &Wit, pre: &Preamble) -> Option<(Vec<(usize, usize, usize)>, Vec<usize>)> {
    let mut s = st.clone();
    s.m = s.n;
    s.a = (0..s.n).map(|i| (0..s.n).map(|j| if i == j { B } else { Pt::identity() }).collect()).collect();
    s.t = image(&s.a, &wit.w);
    let (t, draws) = probe(&s, wit, pre, 1, None)?;
    let mut at = vec![];
    for i in 0..s.n {
        let want = t.leaf(&[0, i]).1;
        let mut found = None;
        for (j, d) in draws.iter().enumerate() {
            for len in [64usize, 32] {
                let mut off = 0;
                while found.is_none() && off + len <= d.len() {
                    if enc(&(as_scalar(&d[off..off + len]) * B)) == want {
                        found = Some((j, off, len));
                    }
                    off += len;
                }
            }
        }
        at.push(found?);
    }
    Some((at, draws.iter().map(|d| d.len()).collect()))
}
/// Entries of the random vector that are constant, or in a constant relation to another.
fn no_mask(st: &Stmt, wit: &Wit, pre: &Preamble) -> Verdict {
    let mut s = st.clone();
    s.m = s.n;
    s.a = (0..s.n).map(|i| (0..s.n).map(|j| if i == j { B } else { Pt::identity() }).collect()).collect();
    s.t = image(&s.a, &wit.w);
    let row = |stream: u64| -> Option<Vec<Pt>> {
        let (t, _) = probe(&s, wit, pre, stream, None)?;
        (0..s.n).map(|i| curve25519_dalek::ristretto::CompressedRistretto(t.leaf(&[0, i]).1).decompress()).collect()
    };
    let (a, b) = (row(1)?, row(2)?);
    for i in 0..s.n {
        if a[i] == b[i] {
            return bad("witness-shows", format!("entry {} of the random vector is always the same ({})", i, describe(st)));
        }
        for j in 0..i {
            if a[i] - a[j] == b[i] - b[j] || a[i] + a[j] == b[i] + b[j] {
                return bad("witness-shows", format!("entries {} and {} of the random vector are always in the same relation ({})", i, j, describe(st)));
            }
        }
    }
    None
}
/// A matrix with a kernel, and two witnesses with the same image.
fn two_witnesses(st: &mut Stmt, wit: &Wit, d: &mut Data) -> Option<(Wit, Wit)> {
    let n = st.n;
    if n < 2 {
        st.a = vec![vec![Pt::identity()]; st.m];
        st.t = vec![Pt::identity(); st.m];
        let (a, b) = (Wit { w: vec![d.sc()], ..Default::default() }, Wit { w: vec![d.random()], ..Default::default() });
        return Some((a, b));
    }
    let mut v = vec![Scalar::zero(); n];
    match draw(4) {
        0 => {
            // two equal columns
            let (i, j) = (d.below(n), d.below(n - 1));
            let j = if j >= i { j + 1 } else { j };
            for r in st.a.iter_mut() {
                r[j] = r[i];
            }
            let x = d.random();
            v[i] = x;
            v[j] = -x;
        }
        1 => {
            let i = d.below(n);
            for r in st.a.iter_mut() {
                r[i] = Pt::identity();
            }
            v[i] = d.random();
        }
        2 => {
            // known relations between all entries: points with known multiples of one base
            let base: Vec<Vec<Scalar>> = (0..st.m).map(|_| (0..n).map(|_| d.random()).collect()).collect();
            if st.m >= n {
                return None;
            }
            let rows: Vec<&[Scalar]> = base.iter().map(|r| &r[..]).collect();
            v = orth_to(d, &rows, n);
            st.a = base.iter().map(|r| r.iter().map(|x| x * B).collect()).collect();
        }
        _ => {
            let l = d.below(n);
            let c: Vec<Scalar> = (0..n).map(|i| if i == l { -Scalar::one() } else { d.random() }).collect();
            for r in st.a.iter_mut() {
                r[l] = (0..n).filter(|i| *i != l).map(|i| c[i] * r[i]).fold(Pt::identity(), |x, y| x + y);
            }
            let x = d.nonzero();
            v = c.iter().map(|c| c * x).collect();
        }
    }
    let w1 = wit.w.clone();
    let w2: Vec<Scalar> = w1.iter().zip(&v).map(|(a, b)| a + b).collect();
    st.t = image(&st.a, &w1);
    if image(&st.a, &w2) != st.t {
        harness_error("not the same image");
    }
    if w1 == w2 {
        return None;
    }
    Some((Wit { w: w1, ..Default::default() }, Wit { w: w2, ..Default::default() }))
}
fn create_logged(st: &Stmt, wit: &Wit, pre: &Preamble, stream: u64, over: &[(usize, Vec<u8>)]) -> (Option<Tree>, JobCtx) {
    let mut cx = job("create", stream);
    cx.log = true;
    cx.over = over.iter().cloned().collect();
    let mut tr = transcript(pre, Some(st));
    let (r, cx) = lib(cx, || prove(st, wit, &mut tr));
    (r.ok(), cx)
}
pub fn c14() -> Verdict {
    let sys = [Sys::ZB, Sys::ZK][draw(2) as usize];
    let (mut st, wit) = gen(sys, Want { dense: draw(2) == 0, max_n: size_dear(if draw(4) == 3 { 16 } else { 8 }), min_n: 0 });
    let pre = preamble();
    let mut d = Data::new(1);
    let (w1, w2) = match two_witnesses(&mut st, &wit, &mut d) {
        Some(x) => x,
        None => return None,
    };
    trace(format!("{} preamble {:?}", describe(&st), pre));
    let (at, lens) = match calibrate(&st, &wit, &pre) {
        Some(x) => x,
        None => {
            // the masks are not plain draws: nothing can be said about equal distributions, but
            // masks that are no masks can be told
            stat("uncalibrated");
            if let Some(v) = no_mask(&st, &wit, &pre) {
                return Some(v);
            }
            stat("inconclusive");
            return None;
        }
    };
    history(&st, &w1, &pre);
    let stream = 1 + draw(1000);
    let (t1, c1) = create_logged(&st, &w1, &pre, stream, &[]);
    let t1 = match t1 {
        Some(t) => t,
        None => {
            stat("inconclusive");
            return None;
        }
    };
    let beta = c1.ops.iter().find_map(|o| match o {
        Op::Chal(_, b) => Some(as_scalar(b)),
        _ => None,
    });
    let beta = match beta {
        Some(b) => b,
        None => sc(0),
    };
    if c1.draws.iter().map(|d| d.len()).collect::<Vec<_>>() != lens {
        stat("uncalibrated");
        stat("inconclusive");
        return None;
    }
    let mut over: Vec<(usize, Vec<u8>)> = c1.draws.iter().cloned().enumerate().collect();
    for i in 0..st.n {
        let (j, off, len) = at[i];
        let r1 = as_scalar(&c1.draws[j][off..off + len]);
        let r2 = r1 + beta * (w1.w[i] - w2.w[i]);
        let buf = &mut over[j].1[off..off + len];
        for x in buf.iter_mut() {
            *x = 0;
        }
        buf[..32].copy_from_slice(&r2.to_bytes());
    }
    let (t2, c2) = create_logged(&st, &w2, &pre, stream, &over);
    stat("judged.witness_pairs");
    let t2 = match t2 {
        Some(t) => t,
        None => {
            stat("inconclusive");
            return None;
        }
    };
    stat_n("lib.create", 2);
    trace(format!("first witness #{:016x}, second #{:016x}", t1.hash(), t2.hash()));
    if t1 != t2 {
        let p = t1.leaves().into_iter().find(|p| !t2.leaves().contains(p) || t1.leaf(p) != t2.leaf(p));
        return bad("witness-shows", format!("the proofs for two witnesses with the same image differ at {:?} ({})", p, describe(&st)));
    }
    let (o1, o2): (Vec<_>, Vec<_>) = (c1.ops, c2.ops);
    if o1 != o2 {
        return bad("witness-shows", format!("the transcripts for two witnesses with the same image differ ({})", describe(&st)));
    }
    None
}
