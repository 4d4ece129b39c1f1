//! The proof systems of the library behind one interface, statements and witnesses for them, and
//! proofs as the tree of values that travels over the simulated network.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use crate::rt::*;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};
use merlin::Transcript;
use qesa::lmpa::{no_zk as lnz, simple_zk as lsz};
use qesa::matrix::BlockMatrix;
use qesa::sim_hooks as hk;
use std::collections::BTreeSet;

pub type Pt = RistrettoPoint;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Sys {
    /// qesa_zk
    Q,
    /// qesa_inner with caller-chosen blinders
    Qi,
    /// copy
    C,
    /// lmpa, two-way folding
    LB,
    /// lmpa, k-way folding
    LK,
    /// lmpa masked, two-way
    ZB,
    /// lmpa masked, k-way
    ZK,
    /// inner product
    I,
    /// inner product, masked
    A,
}
use Sys::*;
pub const ALL: [Sys; 9] = [Q, LB, I, LK, ZB, ZK, A, Qi, C];
impl Sys {
    pub fn name(self) -> &'static str {
        match self {
            Q => "qesa_zk",
            Qi => "qesa_inner",
            C => "copy",
            LB => "lmpa-2",
            LK => "lmpa-k",
            ZB => "lmpa-zk-2",
            ZK => "lmpa-zk-k",
            I => "ipa",
            A => "ipa-zk",
        }
    }
}

// ------------------------------------------------------------------ wire format

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// a point that the library receives encoded
    Enc,
    /// a point that the library receives decoded
    Pnt,
    Sca,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tree {
    Leaf(Kind, [u8; 32]),
    List(Vec<Tree>),
}
impl Tree {
    pub fn ser(&self, o: &mut Vec<u8>) {
        match self {
            Tree::Leaf(k, b) => {
                o.push(*k as u8);
                o.extend_from_slice(b);
            }
            Tree::List(v) => {
                o.push(9);
                o.extend_from_slice(&(v.len() as u32).to_le_bytes());
                for t in v {
                    t.ser(o);
                }
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.ser(&mut o);
        o
    }
    pub fn de(b: &mut &[u8]) -> Tree {
        let k = b[0];
        if k == 9 {
            let n = u32::from_le_bytes([b[1], b[2], b[3], b[4]]) as usize;
            *b = &b[5..];
            return Tree::List((0..n).map(|_| Tree::de(b)).collect());
        }
        let mut x = [0u8; 32];
        x.copy_from_slice(&b[1..33]);
        *b = &b[33..];
        Tree::Leaf([Kind::Enc, Kind::Pnt, Kind::Sca][k as usize], x)
    }
    pub fn hash(&self) -> u64 {
        hash_bytes(7, &self.bytes())
    }
    pub fn leaves(&self) -> Vec<Vec<usize>> {
        let mut o = vec![];
        fn go(t: &Tree, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
            match t {
                Tree::Leaf(..) => o.push(p.clone()),
                Tree::List(v) => {
                    for (i, c) in v.iter().enumerate() {
                        p.push(i);
                        go(c, p, o);
                        p.pop();
                    }
                }
            }
        }
        go(self, &mut vec![], &mut o);
        o
    }
    /// Paths of all lists below the top.
    pub fn lists(&self) -> Vec<Vec<usize>> {
        let mut o = vec![];
        fn go(t: &Tree, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
            if let Tree::List(v) = t {
                if !p.is_empty() {
                    o.push(p.clone());
                }
                for (i, c) in v.iter().enumerate() {
                    p.push(i);
                    go(c, p, o);
                    p.pop();
                }
            }
        }
        go(self, &mut vec![], &mut o);
        o
    }
    pub fn at(&self, p: &[usize]) -> &Tree {
        match (self, p) {
            (t, []) => t,
            (Tree::List(v), [i, r @ ..]) => v[*i].at(r),
            _ => harness_error("bad path"),
        }
    }
    pub fn at_mut(&mut self, p: &[usize]) -> &mut Tree {
        match p {
            [] => self,
            [i, r @ ..] => match self {
                Tree::List(v) => v[*i].at_mut(r),
                _ => harness_error("bad path"),
            },
        }
    }
    pub fn leaf(&self, p: &[usize]) -> (Kind, [u8; 32]) {
        match self.at(p) {
            Tree::Leaf(k, b) => (*k, *b),
            _ => harness_error("not a leaf"),
        }
    }
    pub fn set(&mut self, p: &[usize], b: [u8; 32]) {
        match self.at_mut(p) {
            Tree::Leaf(_, x) => *x = b,
            _ => harness_error("not a leaf"),
        }
    }
    pub fn list_mut(&mut self, p: &[usize]) -> &mut Vec<Tree> {
        match self.at_mut(p) {
            Tree::List(v) => v,
            _ => harness_error("not a list"),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Leaf(..) => 0,
            Tree::List(v) => 1 + v.iter().map(|t| t.depth()).max().unwrap_or(0),
        }
    }
}
pub fn enc(p: &Pt) -> [u8; 32] {
    p.compress().to_bytes()
}
pub fn lp(p: &Pt) -> Tree {
    Tree::Leaf(Kind::Pnt, enc(p))
}
pub fn lc(c: &CompressedRistretto) -> Tree {
    Tree::Leaf(Kind::Enc, c.to_bytes())
}
pub fn ls(s: &Scalar) -> Tree {
    Tree::Leaf(Kind::Sca, s.to_bytes())
}
fn vp(v: &[Pt]) -> Tree {
    Tree::List(v.iter().map(lp).collect())
}
fn vs(v: &[Scalar]) -> Tree {
    Tree::List(v.iter().map(ls).collect())
}
fn vc(v: &[CompressedRistretto]) -> Tree {
    Tree::List(v.iter().map(lc).collect())
}
fn vvp(v: &[Vec<Pt>]) -> Tree {
    Tree::List(v.iter().map(|r| vp(r)).collect())
}
fn vvvp(v: &[Vec<Vec<Pt>>]) -> Tree {
    Tree::List(v.iter().map(|r| vvp(r)).collect())
}

// decoding; None is a message that the receiving application cannot decode
fn dc(t: &Tree) -> Option<CompressedRistretto> {
    match t {
        Tree::Leaf(Kind::Enc, b) => Some(CompressedRistretto(*b)),
        _ => None,
    }
}
fn dp(t: &Tree) -> Option<Pt> {
    match t {
        Tree::Leaf(Kind::Pnt, b) => CompressedRistretto(*b).decompress(),
        _ => None,
    }
}
fn ds(t: &Tree) -> Option<Scalar> {
    match t {
        Tree::Leaf(Kind::Sca, b) => Scalar::from_canonical_bytes(*b),
        _ => None,
    }
}
fn dv<T>(t: &Tree, f: fn(&Tree) -> Option<T>) -> Option<Vec<T>> {
    match t {
        Tree::List(v) => v.iter().map(f).collect(),
        _ => None,
    }
}
fn dvp(t: &Tree) -> Option<Vec<Pt>> {
    dv(t, dp)
}
fn dvvp(t: &Tree) -> Option<Vec<Vec<Pt>>> {
    dv(t, dvp)
}
fn dvvvp(t: &Tree) -> Option<Vec<Vec<Vec<Pt>>>> {
    dv(t, dvvp)
}

// ------------------------------------------------------------------ statements

#[derive(Clone)]
pub struct Stmt {
    pub sys: Sys,
    pub n: usize,
    pub m: usize,
    pub k: usize,
    pub g: Vec<Pt>,
    pub h: Vec<Pt>,
    pub q: Pt,
    pub gam: Vec<Vec<Vec<Scalar>>>,
    pub wlen: usize,
    pub sets: Vec<BTreeSet<u16>>,
    pub map: Option<hk::copy::Mapping>,
    pub comms: Vec<Pt>,
    pub a: Vec<Vec<Pt>>,
    pub t: Vec<Pt>,
    /// inner product: commitment and claimed value
    pub p: Pt,
    pub ip: Scalar,
}
#[derive(Clone, Default)]
pub struct Wit {
    pub w: Vec<Scalar>,
    pub rp: Vec<Scalar>,
    pub open: Vec<(Vec<Scalar>, Scalar)>,
    pub a: Vec<Scalar>,
    pub b: Vec<Scalar>,
}

pub fn block(g: &[Vec<Vec<Scalar>>]) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in g {
        b.push(m.clone());
    }
    b
}

pub static mut POOL: Vec<Pt> = vec![];
pub const POOL_N: usize = 2048;
/// Generators nobody knows a relation between. Made once, before the first run.
pub fn make_pool() {
    let mut v = vec![];
    let mut r = Prng::new(0x9e5a, 1);
    for _ in 0..POOL_N {
        let mut b = [0u8; 64];
        r.fill(&mut b);
        v.push(Pt::from_uniform_bytes(&b));
    }
    unsafe { POOL = v }
}
#[allow(static_mut_refs)]
pub fn pool(i: usize) -> Pt {
    unsafe { POOL[i % POOL_N] }
}

pub fn prove(st: &Stmt, w: &Wit, tr: &mut Transcript) -> Tree {
    let (g, h) = (st.g.clone(), st.h.clone());
    match st.sys {
        Q => {
            let p = qesa::qesa_zk::create(tr, g, h, st.q, &block(&st.gam), w.w.clone());
            let _g = nohook();
            let (c1, c2, alm) = p.sim_parts().sim_parts();
            inner_tree(vec![], c1, c2, &alm)
        }
        Qi => {
            let p = hk::qesa_inner::create(tr, g, h, &st.q, &block(&st.gam), w.w.clone(), w.rp.clone());
            let _g = nohook();
            let (c1, c2, alm) = p.sim_parts();
            inner_tree(vec![], c1, c2, &alm)
        }
        C => {
            let map = st.map.clone().unwrap();
            let p = hk::copy::create(tr, g, h, &st.q, map, block(&st.gam), w.w.clone(), w.open.clone());
            let _g = nohook();
            copy_tree(&p)
        }
        LB => {
            let p = lnz::create(tr, st.a.clone(), g, h, &st.q, w.w.clone());
            let _g = nohook();
            let (l, r, s) = p.sim_parts();
            Tree::List(vec![vvp(l), vvp(r), ls(s)])
        }
        LK => {
            let p = lnz::create_lmpa_noZK(tr, st.a.clone(), w.w.clone(), st.t.clone(), st.n, st.m, st.k, Scalar::one(), Pt::identity());
            let _g = nohook();
            let (wv, u, a, t) = p.sim_parts();
            Tree::List(vec![vs(wv), vvvp(u), vvp(a), vp(t)])
        }
        ZB => {
            let p = lsz::create(tr, st.a.clone(), g, h, &st.q, w.w.clone());
            let _g = nohook();
            let (a, p) = p.sim_parts();
            let (l, r, s) = p.sim_parts();
            Tree::List(vec![vp(a), vvp(l), vvp(r), ls(s)])
        }
        ZK => {
            let p = lsz::create_general(tr, st.a.clone(), w.w.clone(), st.t.clone(), st.n, st.m, st.k);
            let _g = nohook();
            let (av, p) = p.sim_parts();
            let (wv, u, a, t) = p.sim_parts();
            Tree::List(vec![vp(av), vs(wv), vvvp(u), vvp(a), vp(t)])
        }
        I => {
            let p = hk::no_zk::create(tr, g, h, &st.q, w.a.clone(), w.b.clone());
            let _g = nohook();
            Tree::List(ipa_parts(&p))
        }
        A => {
            let p = hk::alm_zk::create(tr, g, h, &st.q, st.p, w.a.clone(), w.b.clone(), st.ip);
            let _g = nohook();
            Tree::List(alm_parts(&p))
        }
    }
}
fn ipa_parts(p: &hk::no_zk::NoZK) -> Vec<Tree> {
    vec![vc(&p.sim_parts().0), vc(&p.sim_parts().1), ls(&p.sim_parts().2), ls(&p.sim_parts().3)]
}
pub fn alm_parts(p: &hk::alm_zk::AlmZK) -> Vec<Tree> {
    let (c, p) = p.sim_parts();
    let mut v = vec![lc(&c)];
    v.extend(ipa_parts(&p));
    v
}
pub fn inner_tree(mut v: Vec<Tree>, c1: CompressedRistretto, c2: CompressedRistretto, a: &hk::alm_zk::AlmZK) -> Tree {
    v.push(lc(&c1));
    v.push(lc(&c2));
    v.extend(alm_parts(a));
    Tree::List(v)
}
pub fn copy_tree(p: &hk::copy::Copy) -> Tree {
    let (cw, inner) = p.sim_parts();
    let (c1, c2, alm) = inner.sim_parts();
    inner_tree(vec![lc(&cw)], c1, c2, &alm)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Accept,
    Reject,
    /// the stub decoder of the application refused the message; the library never saw it
    Undecodable,
}
fn ans(b: bool) -> Ans {
    if b {
        Ans::Accept
    } else {
        Ans::Reject
    }
}

pub enum Decoded {
    Q(qesa::qesa_zk::Zk),
    Qi(hk::qesa_inner::Inner),
    C(hk::copy::Copy),
    LB(lnz::NoZK),
    LK(lnz::lmpa_noZK),
    ZB(lsz::SimpleZK),
    ZK(lsz::SimpleZK_general),
    I(hk::no_zk::NoZK),
    A(hk::alm_zk::AlmZK),
}
pub fn decode(sys: Sys, t: &Tree) -> Option<Decoded> {
    let v = match t {
        Tree::List(v) => v,
        _ => return None,
    };
    let want = match sys {
        Q | Qi => 7,
        C => 8,
        LB => 3,
        LK => 4,
        ZB => 4,
        ZK => 5,
        I => 4,
        A => 5,
    };
    if v.len() != want {
        return None;
    }
    let ipa = |v: &[Tree]| -> Option<hk::no_zk::NoZK> {
        Some(hk::no_zk::NoZK::sim_from_parts(dv(&v[0], dc)?, dv(&v[1], dc)?, ds(&v[2])?, ds(&v[3])?))
    };
    let alm = |v: &[Tree]| -> Option<hk::alm_zk::AlmZK> {
        Some(hk::alm_zk::AlmZK::sim_from_parts(dc(&v[0])?, ipa(&v[1..])?))
    };
    let inner = |v: &[Tree]| -> Option<hk::qesa_inner::Inner> {
        Some(hk::qesa_inner::Inner::sim_from_parts(dc(&v[0])?, dc(&v[1])?, alm(&v[2..])?))
    };
    Some(match sys {
        Q => Decoded::Q(qesa::qesa_zk::Zk::sim_from_parts(inner(v)?)),
        Qi => Decoded::Qi(inner(v)?),
        C => Decoded::C(hk::copy::Copy::sim_from_parts(dc(&v[0])?, inner(&v[1..])?)),
        LB => Decoded::LB(lnz::NoZK::sim_from_parts(dvvp(&v[0])?, dvvp(&v[1])?, ds(&v[2])?)),
        LK => Decoded::LK(lnz::lmpa_noZK::sim_from_parts(dv(&v[0], ds)?, dvvvp(&v[1])?, dvvp(&v[2])?, dvp(&v[3])?)),
        ZB => Decoded::ZB(lsz::SimpleZK::sim_from_parts(
            dvp(&v[0])?,
            lnz::NoZK::sim_from_parts(dvvp(&v[1])?, dvvp(&v[2])?, ds(&v[3])?),
        )),
        ZK => Decoded::ZK(lsz::SimpleZK_general::sim_from_parts(
            dvp(&v[0])?,
            lnz::lmpa_noZK::sim_from_parts(dv(&v[1], ds)?, dvvvp(&v[2])?, dvvp(&v[3])?, dvp(&v[4])?),
        )),
        I => Decoded::I(ipa(v)?),
        A => Decoded::A(alm(v)?),
    })
}
pub fn check(st: &Stmt, p: &Decoded, tr: &mut Transcript) -> bool {
    let (g, h) = (st.g.clone(), st.h.clone());
    match p {
        Decoded::Q(p) => p.verify(tr, g, h, &st.q, &block(&st.gam)),
        Decoded::Qi(p) => p.verify(tr, g, h, &st.q, &block(&st.gam)),
        Decoded::C(p) => p.sim_verify(tr, g, h, &st.q, block(&st.gam), st.map.clone().unwrap(), st.comms.clone()),
        Decoded::LB(p) => p.verify(tr, st.a.clone(), g, h, &st.q, st.n, st.t.clone()),
        Decoded::LK(p) => p.verify_lmpa_noZK(tr, st.a.clone(), st.t.clone(), st.n, st.m, st.k, Scalar::one(), Pt::identity()),
        Decoded::ZB(p) => p.verify(tr, st.a.clone(), g, h, &st.q, st.n, st.t.clone()),
        Decoded::ZK(p) => p.verify_general(tr, st.a.clone(), st.t.clone(), st.n, st.m, st.k),
        Decoded::I(p) => p.verify(tr, &st.g, &st.h, &st.q, st.n, st.p, st.ip),
        Decoded::A(p) => p.verify(tr, &st.g, &st.h, &st.q, st.n, st.p, st.ip),
    }
}
pub fn verify(st: &Stmt, t: &Tree, tr: &mut Transcript) -> Ans {
    let d = {
        let _g = nohook();
        decode(st.sys, t)
    };
    match d {
        None => Ans::Undecodable,
        Some(p) => ans(check(st, &p, tr)),
    }
}

// ------------------------------------------------------------------ sessions

pub const LABELS: [&[u8]; 5] = [b"app", b"app2", b"qesa", b"copy", b""];
/// What both sides put on the transcript before the proof.
#[derive(Clone, PartialEq, Debug)]
pub struct Preamble {
    pub label: usize,
    pub msgs: Vec<(usize, Vec<u8>)>,
}
pub const MLABELS: [&[u8]; 3] = [b"msg", b"ctx", b"c_w"];
pub fn transcript(pre: &Preamble, st: Option<&Stmt>) -> Transcript {
    let _g = nohook();
    let mut t = Transcript::new(LABELS[pre.label]);
    for (l, m) in &pre.msgs {
        t.append_message(MLABELS[*l], m);
    }
    if let Some(st) = st {
        bind_claim(st, &mut t);
    }
    t
}
/// The inner-product arguments leave it to the caller to bind the claim.
pub fn bind_claim(st: &Stmt, t: &mut Transcript) {
    let _g = nohook();
    if st.sys == I || st.sys == A {
        t.append_message(b"P", &enc(&st.p));
        t.append_message(b"t", st.ip.as_bytes());
    }
}

// ------------------------------------------------------------------ data

/// Values from one seed, in a style (0: plain small numbers, 1: dense random, 2: with special values).
pub struct Data {
    pub r: Prng,
    pub style: u64,
}
impl Data {
    pub fn new(style: u64) -> Data {
        Data { r: Prng::new(draw(1 << 32), 0xda7a), style }
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.r.next() % n.max(1) as u64) as usize
    }
    pub fn random(&mut self) -> Scalar {
        let mut b = [0u8; 64];
        self.r.fill(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn nonzero(&mut self) -> Scalar {
        if self.style == 0 {
            Scalar::from(1 + self.r.next() % 9)
        } else {
            let s = self.random();
            if s == Scalar::zero() {
                Scalar::one()
            } else {
                s
            }
        }
    }
    pub fn sc(&mut self) -> Scalar {
        match self.style {
            0 | 1 => self.nonzero(),
            _ => match self.r.next() % 8 {
                0 | 1 => Scalar::zero(),
                2 => Scalar::one(),
                3 => -Scalar::one(),
                4 => Scalar::from(self.r.next() % 4),
                5 => Scalar::from(self.r.next()),
                _ => self.random(),
            },
        }
    }
    pub fn vec(&mut self, n: usize) -> Vec<Scalar> {
        (0..n).map(|_| self.sc()).collect()
    }
}
pub fn ip(a: &[Scalar], b: &[Scalar]) -> Scalar {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn msm(s: &[Scalar], p: &[Pt]) -> Pt {
    Pt::vartime_multiscalar_mul(s.iter(), p.iter())
}
pub fn quad(g: &[Vec<Scalar>], w: &[Scalar]) -> Scalar {
    g.iter().zip(w).map(|(row, x)| x * ip(row, w)).sum()
}
pub fn image(a: &[Vec<Pt>], w: &[Scalar]) -> Vec<Pt> {
    a.iter().map(|r| Pt::multiscalar_mul(w.iter(), r.iter())).collect()
}
/// Generators that are not in general position (honest proofs are accepted all the same).
pub static ODD_GENERATORS: AtomicBool = AtomicBool::new(false);
fn odd_generators(st: &mut Stmt) {
    let n = st.n as u64;
    for _ in 0..1 + draw(3) {
        let (i, j) = (draw(n) as usize, draw(n) as usize);
        match draw(10) {
            0 => st.g[i] = st.g[j],
            1 => st.h[i] = st.h[j],
            2 => st.h[i] = st.g[j],
            3 => st.h = st.g.clone(),
            4 => st.g[i] = -st.g[j],
            5 => st.q = if draw(2) == 0 { st.g[i] } else { st.h[i] },
            6 => st.q = RISTRETTO_BASEPOINT_POINT,
            7 => st.g[i] = if draw(2) == 0 { RISTRETTO_BASEPOINT_POINT } else { Pt::identity() },
            8 => st.h[i] = if draw(2) == 0 { RISTRETTO_BASEPOINT_POINT } else { Pt::identity() },
            _ => st.g = vec![st.g[i]; st.n],
        }
    }
}
fn empty(sys: Sys, n: usize, off: usize) -> Stmt {
    let mut st = empty_plain(sys, n, off);
    if ODD_GENERATORS.load(Relaxed) {
        odd_generators(&mut st);
    }
    st
}
fn empty_plain(sys: Sys, n: usize, off: usize) -> Stmt {
    Stmt {
        sys,
        n,
        m: 0,
        k: 0,
        g: (0..n).map(|i| pool(off + 2 * i)).collect(),
        h: (0..n).map(|i| pool(off + 2 * i + 1)).collect(),
        q: pool(off + 2 * n),
        gam: vec![],
        wlen: 0,
        sets: vec![],
        map: None,
        comms: vec![],
        a: vec![],
        t: vec![],
        p: Pt::identity(),
        ip: Scalar::zero(),
    }
}

/// How demanding the generated statements are.
#[derive(Clone, Copy, Default)]
pub struct Want {
    /// general position: no zero or repeated values anywhere
    pub dense: bool,
    pub max_n: usize,
    /// at least that many
    pub min_n: usize,
}

/// General position, but of small values.
pub static SMALL: AtomicBool = AtomicBool::new(false);

/// Mostly the usual size, at times a large one.
pub fn size(usual: usize) -> usize {
    match draw(80) {
        0 | 1 => 32,
        2 => 64,
        3 => [64, 128, 128, 256][draw(4) as usize],
        _ => usual,
    }
}
/// The same where a case takes many calls.
pub fn size_dear(usual: usize) -> usize {
    match draw(160) {
        0 | 1 => 32,
        2 => 64,
        _ => usual,
    }
}
/// Numbers of rows of a matrix.
fn rows() -> usize {
    1 + if draw(10) == 9 { draw(20) } else { draw(4) } as usize
}
fn pow2(lo: usize, hi: usize) -> usize {
    let (mut a, mut v) = (lo, vec![]);
    while a <= hi {
        v.push(a);
        a *= 2;
    }
    *pick(&v)
}

/// A matrix the assignment satisfies; `idx` are the positions it may speak about.
pub fn equation(d: &mut Data, w: &[Scalar], idx: &[usize], dense: bool) -> Vec<Vec<Scalar>> {
    let n = w.len();
    let mut g = vec![vec![Scalar::zero(); n]; n];
    if dense || d.below(3) == 0 {
        for &i in idx {
            for &j in idx {
                g[i][j] = d.nonzero();
            }
        }
    } else {
        for _ in 0..1 + d.below(4) {
            let (i, j) = (idx[d.below(idx.len())], idx[d.below(idx.len())]);
            g[i][j] = d.sc();
        }
    }
    // make it hold by moving one coefficient
    let mut c = (0, 0);
    for _ in 0..6 {
        let (i, j) = (idx[d.below(idx.len())], idx[d.below(idx.len())]);
        if w[i] * w[j] != Scalar::zero() {
            c = (i, j);
            break;
        }
    }
    let res = quad(&g, w);
    g[c.0][c.1] -= res * (w[c.0] * w[c.1]).invert();
    debug_assert!(quad(&g, w) == Scalar::zero());
    g
}

pub fn gen(sys: Sys, want: Want) -> (Stmt, Wit) {
    let style = if want.dense { !SMALL.load(Relaxed) as u64 } else { draw(3) };
    let mut d = Data::new(style);
    let cap = if want.max_n == 0 { 8 } else { want.max_n };
    let want = if cap > 16 { Want { min_n: want.min_n.max(cap / 2), ..want } } else { want };
    match sys {
        Q | Qi => {
            let n = pow2(4.max(want.min_n), cap.max(4).max(want.min_n));
            let k = match draw(8) {
                0..=2 => 1 + draw(3) as usize,
                3..=5 => 1 + draw(n as u64) as usize,
                6 => n + draw(4) as usize,
                _ => n + 1 + draw(2 * n.min(16) as u64) as usize,
            };
            let k = match n {
                0..=32 => k,
                33..=256 => 1 + k % 8,
                _ => 1 + k % 2,
            };
            // many more equations than variables
            let k = if n <= 8 && draw(40) == 39 { 20 + draw(300) as usize } else { k };
            let mut st = empty(sys, n, draw(3) as usize * 131);
            let mut w = d.vec(n - 2);
            w[0] = Scalar::one();
            let idx: Vec<usize> = (0..n - 2).collect();
            st.gam = (0..k).map(|_| equation(&mut d, &w, &idx, want.dense)).collect();
            let rp = vec![d.random(), d.random()];
            (st, Wit { w, rp, ..Default::default() })
        }
        C => gen_copy(&mut d, want, cap),
        LB | ZB => {
            let n = pow2(1.max(want.min_n), cap.max(want.min_n));
            let m = rows();
            let mut st = empty(sys, n, draw(3) as usize * 131);
            st.m = m;
            st.a = matrix(&mut d, m, n, want.dense);
            let w = d.vec(n);
            st.t = image(&st.a, &w);
            (st, Wit { w, ..Default::default() })
        }
        LK | ZK => {
            let (k, n) = loop {
                let k = 2 + if draw(10) == 9 { draw(15) } else { draw(5) } as usize;
                let c = 1 + draw(k as u64 - 1) as usize;
                let dd = if cap > 16 { 1 + draw(6) } else if want.min_n > 1 { 1 + draw(2) } else { draw(3) } as u32;
                let n = c * k.pow(dd);
                if n <= cap.max(k) * 2 && n >= want.min_n.min(k) {
                    break (k, n);
                }
            };
            let m = rows();
            let mut st = empty(sys, 1, 0);
            st.n = n;
            st.k = k;
            st.m = m;
            st.a = matrix(&mut d, m, n, want.dense);
            let w = d.vec(n);
            st.t = image(&st.a, &w);
            (st, Wit { w, ..Default::default() })
        }
        I | A => {
            let lo = if sys == A { 4 } else { 1 };
            let n = pow2(lo.max(want.min_n), cap.max(lo).max(want.min_n));
            let mut st = empty(sys, n, draw(3) as usize * 131);
            if sys == A {
                d.style = 1; // the masked argument is for dense vectors
            }
            let (a, b) = (d.vec(n), d.vec(n));
            claim(&mut st, &a, &b);
            (st, Wit { a, b, ..Default::default() })
        }
    }
}
/// Commitment and value of the inner-product claim for these vectors.
pub fn claim(st: &mut Stmt, a: &[Scalar], b: &[Scalar]) {
    st.ip = ip(a, b);
    st.p = msm(a, &st.g) + msm(b, &st.h);
    if st.sys == I {
        st.p += st.ip * st.q;
    }
}
pub fn matrix(d: &mut Data, m: usize, n: usize, dense: bool) -> Vec<Vec<Pt>> {
    let base = d.below(POOL_N);
    let mut a: Vec<Vec<Pt>> = (0..m).map(|i| (0..n).map(|j| pool(base + i * n + j)).collect()).collect();
    if !dense && d.style == 2 {
        for _ in 0..1 + d.below(3) {
            let (i, j) = (d.below(m), d.below(n));
            match d.below(7) {
                0 => a[i][j] = Pt::identity(),
                1 => a[i] = vec![Pt::identity(); n],
                2 => {
                    for r in a.iter_mut() {
                        r[j] = Pt::identity()
                    }
                }
                3 => {
                    let r = a[i].clone();
                    let l = d.below(m);
                    a[l] = r;
                }
                4 => {
                    let l = d.below(n);
                    for r in a.iter_mut() {
                        r[l] = r[j]
                    }
                }
                5 => a[i][j] = RISTRETTO_BASEPOINT_POINT,
                _ => a[i][j] = -a[i][j],
            }
        }
    }
    a
}
pub fn ref_commit(g: &[Pt], set: &BTreeSet<u16>, m: &[Scalar], r: &Scalar) -> Pt {
    let pts: Vec<Pt> = set.iter().map(|i| g[*i as usize]).collect();
    msm(m, &pts) + r * g[g.len() - 1]
}
fn gen_copy(d: &mut Data, want: Want, cap: usize) -> (Stmt, Wit) {
    let n = pow2(8.max(want.min_n), cap.max(8).max(want.min_n));
    let mut st = empty(C, n, draw(3) as usize * 131);
    let (wlen, sets) = loop {
        let wlen = 1 + draw(if draw(4) == 3 || (n > 256 && draw(2) == 1) { n as u64 - 6 } else { (n as u64 - 4) / 2 }) as usize;
        let nc = match draw(4) {
            _ if n > 128 || wlen > n / 2 => 1 + draw(3) as usize,
            0 => 1,
            1 => 2,
            _ => 1 + draw(n as u64 / 4) as usize,
        };
        let lo = wlen as u64;
        let hi = n as u64 - 3;
        let mut sets: Vec<BTreeSet<u16>> = vec![];
        for _ in 0..nc {
            let len = if draw(12) == 11 { 0 } else { 1 + draw(3) };
            let mut s = BTreeSet::new();
            for _ in 0..len {
                s.insert(range(lo, hi) as u16);
            }
            sets.push(s);
        }
        let uniq: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
        let tot: usize = sets.iter().map(|s| s.len()).sum();
        if tot > 0 && tot + uniq.len() + wlen <= n - 2 {
            break (wlen, sets);
        }
        if draw(4) == 0 {
            // the plainest one
            break (1, vec![[2u16].into_iter().collect()]);
        }
    };
    st.wlen = wlen;
    st.sets = sets;
    let open: Vec<(Vec<Scalar>, Scalar)> = st.sets.iter().map(|s| (d.vec(s.len()), d.sc())).collect();
    let (sets, wl) = (st.sets.clone(), wlen);
    let (m, _) = lib(job("mapping", 0), move || hk::copy::compute_mapping(n, wl, &sets));
    let map = match m {
        Ok(m) => m,
        Err(e) => crate::props::library_failed("mapping", &format!("compute_mapping panicked for an admissible input: {:?}", e)),
    };
    let mut full = vec![Scalar::zero(); n - 2];
    let w: Vec<Scalar> = std::iter::once(Scalar::one()).chain(d.vec(wlen - 1)).collect();
    full[..wlen].copy_from_slice(&w);
    let msgs: Vec<Scalar> = open.iter().flat_map(|o| o.0.iter().cloned()).collect();
    let ms = map.sim_messages();
    if ms.len() != msgs.len() || ms.iter().any(|x| x.0 as usize >= n - 2) {
        crate::props::library_failed("mapping", "compute_mapping did not give every message a witness position");
    }
    // every message has a place of its own, neither the witness nor an aggregated value is there, and
    // it is known which commitment it comes from and on which generator
    let uniq: BTreeSet<u16> = st.sets.iter().flatten().cloned().collect();
    let places: BTreeSet<u16> = ms.iter().map(|x| x.0).collect();
    let origin: Vec<(u16, u16)> =
        st.sets.iter().enumerate().flat_map(|(c, s)| s.iter().map(move |i| (*i, c as u16))).collect();
    if places.len() != ms.len()
        || places.iter().any(|p| (*p as usize) < wlen || uniq.contains(p))
        || ms.iter().map(|x| (x.1, x.2)).ne(origin.iter().cloned())
    {
        crate::props::library_failed("mapping", "compute_mapping gave a message a place that is taken or another origin");
    }
    for (x, v) in ms.iter().zip(&msgs) {
        full[x.0 as usize] = *v;
    }
    let mut idx: Vec<usize> = (0..wlen).collect();
    idx.extend(ms.iter().map(|x| x.0 as usize));
    let k = match draw(8) {
        6 if n <= 32 => draw(n as u64) as usize,
        7 if n <= 16 => draw(3 * n as u64) as usize,
        _ => draw(4) as usize,
    };
    st.gam = (0..k).map(|_| equation(d, &full, &idx, want.dense)).collect();
    st.comms = st.sets.iter().zip(&open).map(|(s, (m, r))| ref_commit(&st.g, s, m, r)).collect();
    if draw(2) == 1 {
        let (g, sets, op) = (st.g.clone(), st.sets.clone(), open.clone());
        let (c, _) = lib(job("commit", 0), move || -> Vec<Pt> {
            sets.iter().zip(&op).map(|(s, (m, r))| hk::copy::commit(&g, s, m, r)).collect()
        });
        match c {
            Ok(c) => st.comms = c,
            Err(e) => crate::props::library_failed("commit", &format!("commit panicked for an admissible input: {:?}", e)),
        }
    }
    st.map = Some(map);
    (st, Wit { w, open, ..Default::default() })
}
