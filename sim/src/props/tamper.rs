//! A network that alters, mixes up and invents messages (C08, C09, C10).
use super::*;
use crate::byz::fresh_point;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as B;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use std::sync::Arc;

fn wire(sess: usize, t: Tree, tag: String) -> Wire {
    Wire { sess, tree: Arc::new(t), tag, from: 0 }
}
fn point(b: [u8; 32]) -> Pt {
    CompressedRistretto(b).decompress().unwrap_or(Pt::identity())
}
fn scalar(b: [u8; 32]) -> Scalar {
    Scalar::from_bytes_mod_order(b)
}
/// A leaf; every part of the proof has the same chance, however large it is.
fn some_leaf(t: &Tree) -> Option<Vec<usize>> {
    let mut p = vec![];
    let mut cur = t;
    while let Tree::List(v) = cur {
        if v.is_empty() {
            return None;
        }
        let i = draw(v.len() as u64) as usize;
        p.push(i);
        cur = &v[i];
    }
    Some(p)
}
fn leaf_like(t: &Tree, kind: Kind, not: &[usize]) -> Option<Vec<usize>> {
    let v: Vec<Vec<usize>> = t.leaves().into_iter().filter(|p| t.leaf(p).0 == kind && p != not).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[draw(v.len() as u64) as usize].clone())
    }
}
fn show(p: &[usize]) -> String {
    p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")
}
fn add_point(t: &mut Tree, p: &[usize], x: &Pt) {
    let b = t.leaf(p).1;
    t.set(p, enc(&(point(b) + x)));
}
/// Valid values throughout, but not the ones that were sent.
fn alter(t: &Tree, other: &Tree, st: &Stmt, d: &mut Data) -> Option<(Tree, String)> {
    let mut u = t.clone();
    let tag;
    match draw(17) {
        k @ 0..=7 => {
            let p = some_leaf(t)?;
            let (kind, b) = t.leaf(&p);
            if kind == Kind::Sca {
                let s = scalar(b);
                let (v, n) = match k {
                    0 => (d.random(), "random"),
                    1 => (-s, "negated"),
                    2 => (s + Scalar::one(), "plus 1"),
                    3 => (Scalar::zero(), "zero"),
                    4 => (s + s, "doubled"),
                    5 => (scalar(other.at(&p).clone().leaf(&[]).1), "of another proof"),
                    6 => (s - Scalar::one(), "minus 1"),
                    _ => (if s == Scalar::zero() { s } else { s.invert() }, "inverted"),
                };
                u.set(&p, v.to_bytes());
                tag = format!("value {} {}", show(&p), n);
            } else {
                let x = point(b);
                let (v, n) = match k {
                    0 => (fresh_point(d), "random"),
                    1 => (-x, "negated"),
                    2 => (x + B, "plus the base point"),
                    3 => (Pt::identity(), "identity"),
                    4 => (x + x, "doubled"),
                    5 => (point(other.leaf(&p).1), "of another proof"),
                    6 => (x + st.q, "plus Q"),
                    _ => {
                        let g = match (st.g.is_empty(), draw(3)) {
                            (false, 0) => st.g[d.below(st.g.len())],
                            (false, 1) => st.g[st.g.len() - 1],
                            _ if !st.a.is_empty() => st.a[d.below(st.m)][d.below(st.n)],
                            _ => st.h[d.below(st.h.len())],
                        };
                        (x + g, "plus a generator")
                    }
                };
                u.set(&p, enc(&v));
                tag = format!("value {} {}", show(&p), n);
            }
        }
        8 | 9 => {
            let p = some_leaf(t)?;
            let q = leaf_like(t, t.leaf(&p).0, &p)?;
            let (a, b) = (t.leaf(&p).1, t.leaf(&q).1);
            u.set(&p, b);
            if draw(3) > 0 {
                u.set(&q, a);
                tag = format!("values {} and {} exchanged", show(&p), show(&q));
            } else {
                tag = format!("value {} replaced by {}", show(&p), show(&q));
            }
        }
        10 | 11 => {
            let ls = t.lists();
            if ls.is_empty() {
                return None;
            }
            let p = ls[draw(ls.len() as u64) as usize].clone();
            let v = u.list_mut(&p);
            let n = v.len();
            let i = if n > 0 { draw(n as u64) as usize } else { 0 };
            match draw(8) {
                0 => {
                    if n == 0 {
                        return None;
                    }
                    v.remove(i);
                    tag = format!("element {} of list {} dropped", i, show(&p));
                }
                1 => {
                    if n == 0 {
                        return None;
                    }
                    let x = v[i].clone();
                    v.insert(i, x);
                    tag = format!("element {} of list {} repeated", i, show(&p));
                }
                2 => {
                    if n < 2 {
                        return None;
                    }
                    let j = (i + 1 + draw(n as u64 - 1) as usize) % n;
                    v.swap(i, j);
                    tag = format!("elements {} and {} of list {} exchanged", i, j, show(&p));
                }
                3 => {
                    v.clear();
                    tag = format!("list {} emptied", show(&p));
                }
                4 => {
                    v.reverse();
                    tag = format!("list {} reversed", show(&p));
                }
                5 => {
                    if n == 0 {
                        return None;
                    }
                    let x = v[i].clone();
                    v.push(x);
                    tag = format!("element {} of list {} appended", i, show(&p));
                }
                6 => {
                    if n == 0 {
                        return None;
                    }
                    v.pop();
                    tag = format!("list {} cut", show(&p));
                }
                _ => {
                    *u.at_mut(&p) = other.at(&p).clone();
                    tag = format!("list {} of another proof", show(&p));
                }
            }
        }
        12 => {
            // two points shifted against each other
            let p = some_leaf(t)?;
            if t.leaf(&p).0 == Kind::Sca {
                return None;
            }
            let q = leaf_like(t, t.leaf(&p).0, &p)?;
            let x = if draw(2) == 0 { fresh_point(d) } else { B };
            add_point(&mut u, &p, &x);
            add_point(&mut u, &q, &-x);
            tag = format!("values {} and {} shifted against each other", show(&p), show(&q));
        }
        13 => {
            // final scalars
            let v: Vec<Vec<usize>> = t.leaves().into_iter().filter(|p| t.leaf(p).0 == Kind::Sca).collect();
            if v.len() < 2 {
                return None;
            }
            let (p, q) = (&v[0], &v[1]);
            let (a, b) = (scalar(t.leaf(p).1), scalar(t.leaf(q).1));
            let two = Scalar::from(2u64);
            let (a2, b2) = match draw(3) {
                0 => (-a, -b),
                1 => (a * two, b * two.invert()),
                _ => (b, a),
            };
            u.set(p, a2.to_bytes());
            u.set(q, b2.to_bytes());
            tag = "final scalars changed together".to_string();
        }
        16 => {
            // all of some kind made the same special value
            let v = match draw(4) {
                0 => Scalar::one(),
                1 => -Scalar::one(),
                _ => Scalar::zero(),
            };
            let x = match draw(4) {
                0 => B,
                1 => point(t.leaf(&leaf_like(t, Kind::Enc, &[]).or(leaf_like(t, Kind::Pnt, &[]))?).1),
                _ => Pt::identity(),
            };
            let which = draw(3);
            let part = some_leaf(t)?;
            let depth = draw(part.len() as u64 + 1) as usize;
            for p in t.leaves() {
                if !p.starts_with(&part[..depth]) {
                    continue;
                }
                match t.leaf(&p).0 {
                    Kind::Sca if which != 1 => u.set(&p, v.to_bytes()),
                    Kind::Sca => {}
                    _ if which != 0 => u.set(&p, enc(&x)),
                    _ => {}
                }
            }
            tag = format!("special values throughout {}", show(&part[..depth]));
        }
        14 => {
            // one top-level part from another proof
            if let Tree::List(v) = t {
                let i = draw(v.len() as u64) as usize;
                *u.at_mut(&[i]) = other.at(&[i]).clone();
                tag = format!("part {} of another proof", i);
            } else {
                return None;
            }
        }
        _ => {
            // everything from some part on
            if let Tree::List(v) = t {
                if v.len() < 2 {
                    return None;
                }
                let i = 1 + draw(v.len() as u64 - 1) as usize;
                for j in i..v.len() {
                    *u.at_mut(&[j]) = other.at(&[j]).clone();
                }
                tag = format!("parts from {} on of another proof", i);
            } else {
                return None;
            }
        }
    }
    if u == *t || u == *other {
        return None;
    }
    Some((u, tag))
}
/// Another proof by the honest prover for the same session.
fn sibling(s: usize) -> Option<Tree> {
    let ss = &w().sess[s];
    let (st, wit, pre) = (ss.st.clone(), ss.wit.clone(), ss.pre.clone());
    let (r, _) = prove_now("second proof", &st, &wit, &pre, mix2(ss.key, 0xabc), false);
    r.ok()
}
fn altered_messages(s: usize, t: &Tree) -> Vec<Wire> {
    let other = match sibling(s) {
        Some(o) if o.leaves().len() == t.leaves().len() => o,
        _ => return vec![],
    };
    w().sess[s].honest.push(other.clone());
    let st = w().sess[s].st.clone();
    let mut d = Data::new(1);
    let mut v = vec![];
    for _ in 0..2 + draw(5) {
        if let Some((u, tag)) = alter(t, &other, &st, &mut d) {
            if w().sess[s].honest.contains(&u) {
                continue;
            }
            stat("fault.msg_altered");
            v.push(wire(s, u, format!("proof of s{} with {}", s, tag)));
        }
    }
    v
}
fn deploy_messages(f: fn(usize, &Tree) -> Vec<Wire>) -> bool {
    w().extra = Some(f);
    let kinds: Vec<Sys> = w().sess.iter().map(|s| s.st.sys).collect();
    draw_past(&kinds);
    let nv = 1 + draw(2) as usize;
    deploy(nv, 1 + draw(2) as usize);
    if prop() != "C09" {
        w().give_up = HEAL + 30_000 * MS;
    }
    run(END + 1, 400_000)
}
fn sessions(n: u64, max_n: usize) {
    let same = draw(2) == 1;
    let first = *pick(&ALL);
    for _ in 0..1 + draw(n) {
        let sys = if same { first } else { *pick(&ALL) };
        let (st, wit) = gen(sys, Want { dense: true, max_n, min_n: 2 });
        let pre = preamble();
        let id = add_session(st, wit, pre, true);
        trace(format!("s{}: {} preamble {:?}", id, describe(&w().sess[id].st), w().sess[id].pre));
    }
}

pub fn c08() -> Verdict {
    draw_net(draw(3) == 2);
    sessions(2, size(if draw(6) == 5 { 16 } else { 8 }));
    deploy_messages(altered_messages);
    stat_n("judged.altered_proofs", w().vrec.iter().filter(|v| !v.intact).count() as u64);
    judge_sound("accepted-altered")
}

// ------------------------------------------------------------------ C09

fn junk_bytes(d: &mut Data) -> [u8; 32] {
    let mut b = [0u8; 32];
    match draw(8) {
        0 => b = [0xff; 32],
        1 => {
            // odd, so no encoding
            d.r.fill(&mut b);
            b[0] |= 1;
            b[31] &= 0x7f;
        }
        2 => {
            d.r.fill(&mut b);
            b[31] |= 0x80;
        }
        3 => {
            // p itself: a non-canonical zero
            b = [0xff; 32];
            b[0] = 0xed;
            b[31] = 0x7f;
        }
        4 => b[0] = 1,
        5 => b[31] = 0x80,
        6 => {
            b = [0xff; 32];
            b[31] = 0x7f;
        }
        _ => d.r.fill(&mut b),
    }
    b
}
fn leaves(t: &Tree) -> usize {
    match t {
        Tree::List(l) => 1 + l.iter().map(leaves).sum::<usize>(),
        _ => 1,
    }
}
fn resize(v: &mut Vec<Tree>) -> String {
    let n = v.len();
    let m = match draw(8) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => 1,
        4 => n * 2,
        5 => n + 64,
        6 => n + 1000,
        _ => draw(2 * n as u64 + 3) as usize,
    };
    let fill = v.last().cloned().unwrap_or(Tree::List(vec![]));
    // the whole message stays small enough that time proportional to its length is short
    let m = m.min(n.max(6000 / leaves(&fill).max(1)));
    v.resize(m, fill);
    format!("{} instead of {}", m, n)
}
/// Proofs of these decode, and could even be right.
const SPECIAL: &str = "valid values,";
fn malform(t: &Tree, d: &mut Data) -> Option<(Tree, String)> {
    let mut u = t.clone();
    let tag;
    let lists = |t: &Tree| t.lists();
    match draw(13) {
        10..=12 => {
            // no honest prover is likely to send these, but they decode
            let all = t.leaves();
            if all.is_empty() {
                return None;
            }
            let sp = |d: &mut Data, k: Kind| match (k, draw(5)) {
                (Kind::Enc, 0..=2) => [0u8; 32],
                (Kind::Enc, 3) => B.compress().to_bytes(),
                (_, 0..=2) => [0u8; 32],
                (_, 3) => {
                    let mut b = [0u8; 32];
                    b[0] = 1;
                    b
                }
                _ => t.leaf(&all[d.below(all.len())]).1,
            };
            let how = draw(4);
            let (from, to) = match how {
                0 => {
                    let i = draw(all.len() as u64) as usize;
                    (i, i + 1)
                }
                1 => (0, all.len()),
                _ => {
                    let i = draw(all.len() as u64) as usize;
                    (i, (i + 1 + draw(all.len() as u64) as usize).min(all.len()))
                }
            };
            let one = sp(d, Kind::Enc);
            for p in &all[from..to] {
                let k = t.leaf(p).0;
                if how != 2 || k == Kind::Enc {
                    let b = match (k, how) {
                        (Kind::Enc, 1) | (Kind::Enc, 2) => one,
                        _ => sp(d, k),
                    };
                    u.set(p, b);
                }
            }
            tag = format!("{} {} to {} special", SPECIAL, show(&all[from]), show(&all[to - 1]));
        }
        0 | 1 => {
            let encs: Vec<Vec<usize>> = t.leaves().into_iter().filter(|p| t.leaf(p).0 == Kind::Enc).collect();
            if encs.is_empty() {
                return None;
            }
            let p = encs[draw(encs.len() as u64) as usize].clone();
            u.set(&p, junk_bytes(d));
            tag = format!("value {} no valid encoding", show(&p));
        }
        2 => {
            for p in t.leaves() {
                if t.leaf(&p).0 == Kind::Enc && draw(2) == 1 {
                    u.set(&p, junk_bytes(d));
                }
            }
            tag = "several values no valid encodings".to_string();
        }
        3..=5 => {
            let ls = lists(t);
            if ls.is_empty() {
                return None;
            }
            let p = ls[draw(ls.len() as u64) as usize].clone();
            let what = resize(u.list_mut(&p));
            tag = format!("list {} of length {}", show(&p), what);
        }
        6 => {
            // several, the outer ones first
            let ls = lists(t);
            let mut what = vec![];
            for p in ls.iter().rev() {
                if draw(3) == 2 {
                    what.push(format!("{}: {}", show(p), resize(u.list_mut(p))));
                }
            }
            tag = format!("lists of lengths {}", what.join(", "));
        }
        7 => {
            // same change to all lists of a depth: consistent but wrong
            let ls = lists(t);
            if ls.is_empty() {
                return None;
            }
            let depth = ls[draw(ls.len() as u64) as usize].len();
            let (grow, by) = (draw(2) == 1, 1 + draw(3) as usize);
            for p in ls.iter().rev().filter(|p| p.len() == depth) {
                let v = u.list_mut(p);
                for _ in 0..by {
                    if grow {
                        if let Some(x) = v.last().cloned() {
                            v.push(x)
                        }
                    } else {
                        v.pop();
                    }
                }
            }
            tag = format!("all lists at depth {} {} by {}", depth, if grow { "longer" } else { "shorter" }, by);
        }
        8 => {
            for p in lists(t).iter().rev() {
                u.list_mut(p).clear();
            }
            tag = "all lists empty".to_string();
        }
        _ => {
            // rounds repeated very often
            if let Tree::List(v) = &mut u {
                let k = [200, 1000, 3000][draw(3) as usize];
                for x in v.iter_mut() {
                    if let Tree::List(y) = x {
                        if let Some(z) = y.first().cloned() {
                            if z.leaves().len() * k < 20_000 {
                                for _ in 0..k {
                                    y.push(z.clone());
                                }
                            }
                        }
                    }
                }
            }
            tag = "very many rounds".to_string();
        }
    }
    if u == *t {
        return None;
    }
    Some((u, tag))
}
fn malformed_messages(s: usize, t: &Tree) -> Vec<Wire> {
    let mut d = Data::new(1);
    let mut v = vec![];
    for _ in 0..2 + draw(5) {
        if let Some((u, tag)) = malform(t, &mut d) {
            stat("fault.msg_malformed");
            v.push(wire(s, u, format!("malformed proof of s{}: {}", s, tag)));
        }
    }
    // a proof of another size or kind
    for o in 0..w().sess.len() {
        if o != s && w().sess[o].st.sys == w().sess[s].st.sys && draw(2) == 1 {
            stat("fault.msg_misdelivered");
            v.push(wire(o, t.clone(), format!("misdelivered proof of s{}", s)));
        }
    }
    v
}
pub fn c09() -> Verdict {
    draw_net(draw(3) == 2);
    sessions(2, size(if draw(6) == 5 { 16 } else { 8 }));
    deploy_messages(malformed_messages);
    let mut seen = 0;
    for (i, v) in w().vrec.iter().enumerate() {
        let d = describe(&w().sess[v.sess].st);
        if !v.intact {
            seen += (v.res != Ok(Ans::Undecodable)) as u64;
            match &v.res {
                Err(Fail::Panic(m)) => return bad("panic", format!("verifier panicked on {} ({}): {}", v.tag, d, m)),
                Ok(Ans::Accept) if !v.tag.contains(SPECIAL) => return bad("accepted-malformed", format!("accepted: {} ({})", v.tag, d)),
                _ => {}
            }
        } else if matches!(v.res, Ok(Ans::Reject) | Err(Fail::Panic(_))) {
            let before = w().vrec[..i].iter().any(|u| u.sess == v.sess && u.hash == v.hash && u.res == Ok(Ans::Accept));
            if before {
                return bad("damaged", format!("proof accepted before is no longer after a malformed one: {:?} ({})", v.res, d));
            }
        }
    }
    stat_n("judged.malformed_proofs", seen);
    None
}

// ------------------------------------------------------------------ C10

/// The session with one thing different.
fn variant(st: &Stmt, pre: &Preamble, d: &mut Data) -> Option<(Stmt, Preamble, String)> {
    let (mut s, mut p) = (st.clone(), pre.clone());
    let what: String;
    let uses_gens = matches!(st.sys, Sys::Q | Sys::Qi | Sys::C | Sys::I | Sys::A);
    let lin = matches!(st.sys, Sys::LB | Sys::LK | Sys::ZB | Sys::ZK);
    match draw(3) {
        0 => match draw(6) {
            0 => {
                p.label = (p.label + 1 + draw(LABELS.len() as u64 - 1) as usize) % LABELS.len();
                what = "another transcript label".into();
            }
            1 => {
                p.msgs.push((draw(3) as usize, vec![draw(256) as u8]));
                what = "a further message before".into();
            }
            2 => {
                p.msgs.pop()?;
                what = "a message less before".into();
            }
            3 => {
                let n = p.msgs.len();
                let m = p.msgs.get_mut(draw(n.max(1) as u64) as usize)?;
                match draw(2) {
                    0 => m.1.push(0),
                    _ => {
                        let b = m.1.last_mut()?;
                        *b ^= 1;
                    }
                }
                what = "another message before".into();
            }
            4 => {
                let m = p.msgs.last_mut()?;
                m.0 = (m.0 + 1) % MLABELS.len();
                what = "another message label before".into();
            }
            _ => {
                if p.msgs.len() < 2 || p.msgs[0] == p.msgs[1] {
                    return None;
                }
                p.msgs.swap(0, 1);
                what = "messages in another order".into();
            }
        },
        _ if lin => {
            let (i, j) = (d.below(st.m), d.below(st.n));
            match draw(6) {
                0 | 1 => {
                    s.a[i][j] = if draw(2) == 0 { -s.a[i][j] } else { s.a[i][j] + B };
                    what = format!("matrix entry ({},{}) different", i, j);
                }
                2 | 3 => {
                    s.t[i] = if draw(2) == 0 { -s.t[i] } else { s.t[i] + B };
                    what = format!("image entry {} different", i);
                }
                4 => {
                    if st.m < 2 {
                        return None;
                    }
                    let l = (i + 1) % st.m;
                    s.t.swap(i, l);
                    if draw(2) == 0 {
                        s.a.swap(i, l);
                    }
                    what = "rows exchanged".into();
                }
                _ => {
                    if st.n < 2 {
                        return None;
                    }
                    let l = (j + 1) % st.n;
                    for r in s.a.iter_mut() {
                        r.swap(j, l);
                    }
                    what = "columns exchanged".into();
                }
            }
        }
        1 if uses_gens => {
            let n = st.n;
            let i = match draw(4) {
                0 => 0,
                1 => n - 1,
                _ => draw(n as u64) as usize,
            };
            match draw(5) {
                0 => {
                    s.g[i] = s.g[i] + B;
                    what = format!("generator G_{} different", i);
                }
                1 => {
                    s.h[i] = s.h[i] + B;
                    what = format!("generator H_{} different", i);
                }
                2 => {
                    s.q = if draw(2) == 0 { -s.q } else { s.q + B };
                    what = "generator Q different".into();
                }
                3 => {
                    let j = (i + 1) % n;
                    s.g.swap(i, j);
                    what = format!("generators G_{} and G_{} exchanged", i, j);
                }
                _ => {
                    let j = (i + 1) % n;
                    s.h.swap(i, j);
                    what = format!("generators H_{} and H_{} exchanged", i, j);
                }
            }
        }
        _ if matches!(st.sys, Sys::I | Sys::A) => match draw(2) {
            0 => {
                s.p += B;
                what = "commitment different".into();
            }
            _ => {
                s.ip += Scalar::one();
                what = "claimed value different".into();
            }
        },
        _ => {
            let copy = st.sys == Sys::C;
            if copy && draw(2) == 1 {
                let ms = st.map.as_ref()?.sim_messages();
                let i = draw(ms.len() as u64) as usize;
                let mut m = ms[i];
                match draw(6) {
                    0 => {
                        let c = draw(st.comms.len() as u64) as usize;
                        s.comms[c] += B;
                        what = format!("commitment {} different", c);
                    }
                    1 => {
                        if st.comms.len() < 2 || st.comms[0] == st.comms[1] {
                            return None;
                        }
                        s.comms.swap(0, 1);
                        what = "commitments exchanged".into();
                    }
                    2 => {
                        m.0 = 1 + draw(st.n as u64 - 3) as u16;
                        if m == ms[i] || (m.0 == m.1) {
                            return None;
                        }
                        s.map.as_mut()?.sim_set_message(i, m);
                        what = format!("position of message {} different", i);
                    }
                    3 => {
                        if st.comms.len() < 2 {
                            return None;
                        }
                        m.2 = (m.2 + 1) % st.comms.len() as u16;
                        s.map.as_mut()?.sim_set_message(i, m);
                        what = format!("commitment number of message {} different", i);
                    }
                    4 => {
                        m.1 = 1 + draw(st.n as u64 - 3) as u16;
                        if m == ms[i] {
                            return None;
                        }
                        s.map.as_mut()?.sim_set_message(i, m);
                        what = format!("generator of message {} different", i);
                    }
                    _ => {
                        if ms.len() < 2 {
                            return None;
                        }
                        let j = (i + 1) % ms.len();
                        let (a, b) = ((ms[j].0, ms[i].1, ms[i].2), (ms[i].0, ms[j].1, ms[j].2));
                        if ms[i].1 == ms[j].1 && ms[i].2 == ms[j].2 {
                            return None;
                        }
                        s.map.as_mut()?.sim_set_message(i, a);
                        s.map.as_mut()?.sim_set_message(j, b);
                        what = format!("positions of messages {} and {} exchanged", i, j);
                    }
                }
            } else {
                let k = st.gam.len();
                if k == 0 {
                    return None;
                }
                let n2 = st.n - 2;
                let e = if draw(2) == 0 { k - 1 } else { draw(k as u64) as usize };
                match draw(6) {
                    0..=2 => {
                        let (i, j) = (d.below(n2), d.below(n2));
                        s.gam[e][i][j] += if draw(2) == 0 { Scalar::one() } else { d.random() };
                        what = format!("coefficient ({},{}) of equation {} different", i, j, e);
                    }
                    3 => {
                        if k < 2 {
                            return None;
                        }
                        let f = (e + 1) % k;
                        if s.gam[e] == s.gam[f] {
                            return None;
                        }
                        s.gam.swap(e, f);
                        what = format!("equations {} and {} exchanged", e, f);
                    }
                    4 => {
                        if k < 2 || (copy && false) {
                            return None;
                        }
                        s.gam.remove(e);
                        what = format!("equation {} left out", e);
                    }
                    _ => {
                        let g = s.gam[e].clone();
                        s.gam.push(g);
                        what = format!("equation {} once more", e);
                    }
                }
            }
        }
    }
    Some((s, p, what))
}
fn misdelivered(s: usize, t: &Tree) -> Vec<Wire> {
    let mut v = vec![];
    for o in 0..w().sess.len() {
        if w().sess[o].st.sys == w().sess[s].st.sys && o != s {
            if w().sess[o].prover && draw(2) == 0 {
                continue;
            }
            stat("fault.msg_misdelivered");
            v.push(wire(o, t.clone(), format!("proof of s{} delivered to s{}", s, o)));
        }
    }
    v
}
pub fn c10() -> Verdict {
    draw_net(draw(3) == 2);
    sessions(2, size(if draw(6) == 5 { 16 } else { 8 }));
    let n = w().sess.len();
    let mut d = Data::new(1);
    for s in 0..n {
        for _ in 0..2 + draw(4) {
            let (st, pre) = (w().sess[s].st.clone(), w().sess[s].pre.clone());
            if let Some((st, pre, what)) = variant(&st, &pre, &mut d) {
                let id = add_session(st, Wit::default(), pre, false);
                trace(format!("s{}: like s{} but {}", id, s, what));
                stat(&format!("judged.variant.{}", what.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()));
            }
        }
    }
    deploy_messages(misdelivered);
    for v in &w().vrec {
        // two sessions may have come out the same
        if !v.intact && v.res == Ok(Ans::Accept) {
            return bad("accepted-elsewhere", format!("accepted: {} ({})", v.tag, describe(&w().sess[v.sess].st)));
        }
    }
    for (i, v) in w().vrec.iter().enumerate() {
        for u in &w().vrec[..i] {
            if u.sess == v.sess && u.hash == v.hash && u.res != v.res {
                let crash = |r: &Result<Ans, Fail>| *r == Err(Fail::Crash);
                if !crash(&u.res) && !crash(&v.res) {
                    return bad("verdict-changed", format!("{:?}, then {:?}, for {} ({})", u.res, v.res, v.tag, describe(&w().sess[v.sess].st)));
                }
            }
        }
    }
    None
}
