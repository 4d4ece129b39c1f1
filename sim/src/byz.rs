//! Provers that deviate. They know the mathematics of the protocols and learn every challenge by
//! asking the verifier itself (run in the simulator on a copy of its session), so they work with
//! whatever the verifier binds, and find out what it does not bind.
use crate::rt::*;
use crate::sys::*;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use std::sync::Arc;

pub fn sc(n: u64) -> Scalar {
    Scalar::from(n)
}
pub fn fresh_point(d: &mut Data) -> Pt {
    let mut b = [0u8; 64];
    d.r.fill(&mut b);
    Pt::from_uniform_bytes(&b)
}
pub fn as_scalar(b: &[u8]) -> Scalar {
    if b.len() <= 32 {
        let mut x = [0u8; 32];
        x[..b.len()].copy_from_slice(b);
        Scalar::from_bytes_mod_order(x)
    } else {
        let mut x = [0u8; 64];
        let n = b.len().min(64);
        x[..n].copy_from_slice(&b[..n]);
        Scalar::from_bytes_mod_order_wide(&x)
    }
}

/// How the challenges that the verifier draws are used. As the protocol has it, one by one; or one of
/// the protocol's challenges is not drawn but made from an earlier one.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Plain,
    /// challenge `p` is challenge `q` to the power `e`
    Merged { p: usize, q: usize, e: i64 },
    /// challenge `p` is always one
    One { p: usize },
    /// challenges `p` and `p + 1` are drawn the other way round
    Swapped { p: usize },
    /// from `p` on always the same
    Shared { p: usize },
    /// challenge `p` is drawn, and challenge `q` used
    Replaced { p: usize, q: usize },
}
impl Layout {
    pub fn apply(&self, real: Vec<Scalar>) -> Vec<Scalar> {
        let mut v = real;
        match *self {
            Layout::Plain => {}
            Layout::Merged { p, q, e } => {
                if p <= v.len() && q < p {
                    let b = if e < 0 { invert(&v[q]) } else { v[q] };
                    let x = (1..e.abs()).fold(b, |f, _| f * b);
                    v.insert(p, x);
                }
            }
            Layout::One { p } => {
                if p <= v.len() {
                    v.insert(p, Scalar::one())
                }
            }
            Layout::Replaced { p, q } => {
                if p < v.len() && q < v.len() {
                    v[p] = v[q]
                }
            }
            Layout::Swapped { p } => {
                if p + 1 < v.len() {
                    v.swap(p, p + 1)
                }
            }
            Layout::Shared { p } => {
                if p < v.len() {
                    let x = v[p];
                    v.truncate(p);
                    v.extend(vec![x; 12]);
                }
            }
        }
        v
    }
    /// Candidates for a protocol with `n` challenges.
    pub fn all(n: usize) -> Vec<Layout> {
        let mut v = vec![Layout::Plain];
        for p in 0..n {
            v.push(Layout::Swapped { p });
            v.push(Layout::One { p });
            v.push(Layout::Shared { p });
        }
        for p in 1..n {
            for q in (0..p).rev() {
                v.push(Layout::Replaced { p, q });
            }
        }
        for e in [1, 2, 3, -1, 4, 5] {
            for p in 1..n {
                for q in (0..p).rev() {
                    v.push(Layout::Merged { p, q, e });
                }
            }
        }
        v
    }
    pub fn code(&self) -> String {
        match *self {
            Layout::Plain => "plain 0 0 0".into(),
            Layout::Merged { p, q, e } => format!("merged {} {} {}", p, q, e),
            Layout::One { p } => format!("one {} 0 0", p),
            Layout::Swapped { p } => format!("swapped {} 0 0", p),
            Layout::Shared { p } => format!("shared {} 0 0", p),
            Layout::Replaced { p, q } => format!("replaced {} {} 0", p, q),
        }
    }
    pub fn from_code(s: &str) -> Option<Layout> {
        let f: Vec<&str> = s.split(' ').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<i64>().ok());
        let (p, q, e) = (n(1)? as usize, n(2)? as usize, n(3)?);
        Some(match f[0] {
            "plain" => Layout::Plain,
            "merged" => Layout::Merged { p, q, e },
            "one" => Layout::One { p },
            "swapped" => Layout::Swapped { p },
            "shared" => Layout::Shared { p },
            "replaced" => Layout::Replaced { p, q },
            _ => return None,
        })
    }
}
/// How the verifier makes many weights out of one challenge: what the byzantine prover takes it for.
/// Number 0 is what the protocol says, consecutive powers from the first.
pub const EXPANSIONS: u8 = 18;
pub fn expand(kind: u8, x: Scalar, m: usize) -> Vec<Scalar> {
    let pw = |e: usize| (0..e).fold(Scalar::one(), |f, _| f * x);
    (0..m)
        .map(|i| match kind {
            1 => pw(i),
            2 => x,
            3 => Scalar::one(),
            4 => pw(m - i),
            5 => sc(i as u64 + 1) * x,
            6 => pw(i % 2 + 1),
            7 => pw(i.min(1) + 1),
            8 => pw(i % 4 + 1),
            9 => pw(i.min(2) + 1),
            10 => pw(i % 8 + 1),
            11 => pw(i / 2 + 1),
            12 => (0..i).fold(x, |f, _| f * f),
            13 => pw(m - 1 - i),
            14 => pw(2 * i + 1),
            15 => pw(2 * (i + 1)),
            16 => x + sc(i as u64),
            17 => pw(i.max(1)),
            _ => pw(i + 1),
        })
        .collect()
}
/// Weights of the equations, of the commitments, and of the entries that test the images.
pub static mut BATCH: u8 = 0;
pub static mut ALPHA: u8 = 0;
pub static mut TEST_S: u8 = 0;
pub static mut TEST_B: u8 = 0;
pub fn expansion(what: u64) -> &'static mut u8 {
    unsafe {
        match what {
            0 => &mut *std::ptr::addr_of_mut!(BATCH),
            1 => &mut *std::ptr::addr_of_mut!(ALPHA),
            2 => &mut *std::ptr::addr_of_mut!(TEST_S),
            _ => &mut *std::ptr::addr_of_mut!(TEST_B),
        }
    }
}
/// Two positions that always have the same weight.
pub fn same_weight(weights: &dyn Fn(Scalar, Scalar) -> Vec<Scalar>, pick: usize) -> Option<(usize, usize)> {
    let v = weights(sc(1234567), sc(7654321));
    let mut all = vec![];
    for j in 0..v.len() {
        for i in 0..j {
            if v[i] == v[j] {
                all.push((i, j));
            }
        }
    }
    if all.is_empty() {
        None
    } else {
        Some(all[pick % all.len()])
    }
}
pub fn alphas(x: Scalar, m: usize) -> Vec<Scalar> {
    expand(unsafe { ALPHA }, x, m)
}
pub static mut LAYOUTS: [Layout; 32] = [Layout::Plain; 32];
/// Where the layout for a system and size is; more rounds may be used in another way.
pub fn layout_of(sys: Sys, n: usize) -> usize {
    sys as usize + if n >= 32 && sys != Sys::C { 16 } else { 0 }
}

/// The verifier as the prover sees it: proof in, challenges out.
#[derive(Clone)]
pub struct Orc {
    pub st: Arc<Stmt>,
    pub pre: Preamble,
}
impl Orc {
    pub fn chals(&self, t: &Tree) -> Vec<Scalar> {
        let mut cx = job("oracle", 1);
        cx.log = true;
        let mut tr = transcript(&self.pre, Some(&self.st));
        let st = self.st.clone();
        let (_, cx) = lib(cx, || verify(&st, t, &mut tr));
        stat("byz.oracle_calls");
        let real = cx
            .ops
            .iter()
            .filter_map(|o| match o {
                Op::Chal(_, b) => Some(as_scalar(b)),
                _ => None,
            })
            .collect();
        unsafe { LAYOUTS[layout_of(self.st.sys, self.st.n)].apply(real) }
    }
    /// None: the verifier stopped before drawing that challenge
    pub fn chal(&self, t: &Tree, i: usize) -> Option<Scalar> {
        self.chals(t).get(i).cloned()
    }
    /// Does challenge `i` depend on the value at `path`?
    pub fn bound(&self, t: &Tree, path: &[usize], i: usize) -> bool {
        let a = self.chal(t, i);
        let mut u = t.clone();
        let v = match u.leaf(path).0 {
            Kind::Sca => sc(77).to_bytes(),
            _ => enc(&pool(1999)),
        };
        u.set(path, v);
        let b = self.chal(&u, i);
        let free = a.is_some() && a == b;
        if free {
            stat("byz.unbound_value_found");
        }
        !free
    }
    /// Does challenge `i` depend on more than a combination of the two? Otherwise the factor `f` such that
    /// moving the first by x and the second by f x goes unnoticed.
    pub fn bound2(&self, t: &Tree, p: &[usize], q: &[usize], i: usize) -> Option<Scalar> {
        let a = self.chal(t, i)?;
        let x = pool(1998);
        let rd = |p: &[usize]| curve25519_dalek::ristretto::CompressedRistretto(t.leaf(p).1).decompress().unwrap_or(Pt::identity());
        for f in &[-Scalar::one(), Scalar::one()] {
            let mut u = t.clone();
            u.set(p, enc(&(rd(p) + x)));
            u.set(q, enc(&(rd(q) + f * x)));
            if self.chal(&u, i) == Some(a) {
                stat("byz.unbound_value_found");
                return Some(*f);
            }
        }
        None
    }
}

fn pt(p: &Pt) -> Tree {
    Tree::Leaf(Kind::Enc, enc(p))
}
fn lg(n: usize) -> usize {
    n.trailing_zeros() as usize
}
/// A message of the right shape.
pub fn blank(st: &Stmt) -> Tree {
    let e = || pt(&pool(1777));
    let p = || lp(&pool(1778));
    let s = || ls(&Scalar::one());
    let r = lg(st.n);
    let ipa = |v: &mut Vec<Tree>| {
        v.push(Tree::List((0..r).map(|_| e()).collect()));
        v.push(Tree::List((0..r).map(|_| e()).collect()));
        v.push(s());
        v.push(s());
    };
    let rows = || Tree::List((0..st.m).map(|_| p()).collect());
    let mut v = vec![];
    match st.sys {
        Sys::Q | Sys::Qi | Sys::C => {
            for _ in 0..if st.sys == Sys::C { 4 } else { 3 } {
                v.push(e());
            }
            ipa(&mut v);
        }
        Sys::A => {
            v.push(e());
            ipa(&mut v);
        }
        Sys::I => ipa(&mut v),
        Sys::LB | Sys::ZB => {
            if st.sys == Sys::ZB {
                v.push(rows());
            }
            v.push(Tree::List((0..r).map(|_| rows()).collect()));
            v.push(Tree::List((0..r).map(|_| rows()).collect()));
            v.push(s());
        }
        Sys::LK | Sys::ZK => {
            let (mut rounds, mut left) = (0, st.n);
            while left >= st.k {
                left /= st.k;
                rounds += 1;
            }
            if st.sys == Sys::ZK {
                v.push(rows());
            }
            v.push(Tree::List((0..left).map(|_| s()).collect()));
            v.push(Tree::List((0..rounds).map(|_| Tree::List((0..2 * st.k - 1).map(|_| rows()).collect())).collect()));
            v.push(Tree::List((0..st.m).map(|_| Tree::List((0..left).map(|_| p()).collect())).collect()));
            v.push(rows());
        }
    }
    Tree::List(v)
}

// ------------------------------------------------------------------ inner products

/// Random vector orthogonal to all of `vs`.
pub fn orth_to(d: &mut Data, vs: &[&[Scalar]], n: usize) -> Vec<Scalar> {
    let mut basis: Vec<Vec<Scalar>> = vec![];
    for v in vs {
        let mut x = v.to_vec();
        for b in &basis {
            let f = ip(&x, b) * ip(b, b).invert();
            x = x.iter().zip(b).map(|(a, c)| a - f * c).collect();
        }
        if x.iter().any(|s| *s != Scalar::zero()) {
            basis.push(x);
        }
    }
    let mut r: Vec<Scalar> = (0..n).map(|_| d.random()).collect();
    for b in &basis {
        let f = ip(&r, b) * ip(b, b).invert();
        r = r.iter().zip(b).map(|(a, c)| a - f * c).collect();
    }
    r
}

/// Extra deviations of the inner-product part.
#[derive(Clone, Default)]
pub struct IpaDev {
    /// use whatever the verifier does not bind
    pub adapt: bool,
    /// add this point to L (true) or R of that round
    pub add: Option<(bool, usize, Pt)>,
    /// believe that the value is not re-randomised
    pub alpha_one: bool,
}
fn com(g: &[Pt], h: &[Pt], q: &Pt, a: &[Scalar], b: &[Scalar], t: &Scalar) -> Pt {
    msm(a, g) + msm(b, h) + t * q
}
fn invert(s: &Scalar) -> Scalar {
    if *s == Scalar::zero() {
        Scalar::one()
    } else {
        s.invert()
    }
}
/// Rounds of the inner-product argument. `l`: position of the list of Ls, `c`: index of the first
/// challenge (alpha). `p`, `t`: commitment and claim as the verifier computes them.
pub fn ipa(o: &Orc, d: &mut Data, tree: &mut Tree, l: usize, c: usize, g: &[Pt], h: &[Pt], q: &Pt, a: Vec<Scalar>, b: Vec<Scalar>, p: Pt, t: Scalar, dev: &IpaDev) -> Option<()> {
    let (mut g, mut h, mut a, mut b) = (g.to_vec(), h.to_vec(), a, b);
    let alpha = if dev.alpha_one { Scalar::one() } else { o.chal(tree, c)? };
    let q = invert(&alpha) * q;
    let mut p = p - (alpha - Scalar::one()) * t * q;
    let mut n = g.len();
    let mut i = 0;
    while n > 1 {
        n /= 2;
        let cl = ip(&a[..n], &b[n..]);
        let cr = ip(&a[n..], &b[..n]);
        let mut lp = com(&g[n..], &h[..n], &q, &a[..n], &b[n..], &cl);
        let mut rp = com(&g[..n], &h[n..], &q, &a[n..], &b[..n], &cr);
        if let Some((left, r, x)) = &dev.add {
            if *r == i {
                if *left {
                    lp += x
                } else {
                    rp += x
                }
            }
        }
        tree.set(&[l, i], enc(&lp));
        tree.set(&[l + 1, i], enc(&rp));
        let x = o.chal(tree, c + 1 + i)?;
        let fold = |g: &[Pt], h: &[Pt]| -> (Vec<Pt>, Vec<Pt>) {
            ((0..n).map(|j| g[j] + x * g[n + j]).collect(), (0..n).map(|j| x * h[j] + h[n + j]).collect())
        };
        let (g2, h2) = fold(&g, &h);
        a = (0..n).map(|j| a[j] * x + a[n + j]).collect();
        b = (0..n).map(|j| b[j] + x * b[n + j]).collect();
        if dev.adapt {
            let target = com(&g2, &h2, &q, &a, &b, &ip(&a, &b));
            let free_r = !o.bound(tree, &[l + 1, i], c + 1 + i);
            let free_l = !free_r && !o.bound(tree, &[l, i], c + 1 + i);
            if free_r {
                rp = target - x * x * lp - x * p;
                tree.set(&[l + 1, i], enc(&rp));
            } else if free_l {
                lp = invert(&(x * x)) * (target - x * p - rp);
                tree.set(&[l, i], enc(&lp));
            } else if let Some(f) = o.bound2(tree, &[l, i], &[l + 1, i], c + 1 + i) {
                let y = invert(&(x * x + f)) * (target - x * x * lp - x * p - rp);
                lp += y;
                rp += f * y;
                tree.set(&[l, i], enc(&lp));
                tree.set(&[l + 1, i], enc(&rp));
            }
        }
        p = x * x * lp + x * p + rp;
        g = g2;
        h = h2;
        i += 1;
    }
    tree.set(&[l + 2], a[0].to_bytes());
    tree.set(&[l + 3], b[0].to_bytes());
    let _ = d;
    Some(())
}
#[derive(Clone, Default)]
pub struct AlmDev {
    pub ipa: IpaDev,
    /// put this into the mask commitment on top
    pub add: Option<Pt>,
    /// the commitment has this surplus on the value's generator: masks that make up for it if the
    /// challenge that separates the two can be foreseen
    pub skew: Option<Scalar>,
}
/// The masked argument. `r`: position of C_r, `c`: index of the challenge after it.
pub fn alm(o: &Orc, d: &mut Data, tree: &mut Tree, r: usize, c: usize, g: &[Pt], h: &[Pt], q: &Pt, cw: Pt, a: &[Scalar], b: &[Scalar], t: Scalar, dev: &AlmDev) -> Option<()> {
    let n = g.len();
    let r1 = orth_to(d, &[b], n);
    let mut r2 = orth_to(d, &[a, &r1], n);
    if let Some(z) = dev.skew {
        let alpha = o.chal(tree, c + 1)?;
        let f = ip(a, &r1) * invert(&ip(&r1, &r1));
        let side: Vec<Scalar> = a.iter().zip(&r1).map(|(x, y)| x - f * y).collect();
        let g = alpha * z * invert(&ip(a, &side));
        r2 = r2.iter().zip(&side).map(|(x, y)| x + g * y).collect();
    }
    let mut cr = com(g, h, q, &r1, &r2, &Scalar::zero());
    if let Some(x) = &dev.add {
        cr += x;
    }
    tree.set(&[r], enc(&cr));
    let beta = o.chal(tree, c)?;
    let mut ma: Vec<Scalar> = a.iter().zip(&r1).map(|(x, y)| beta * x + y).collect();
    let mb: Vec<Scalar> = b.iter().zip(&r2).map(|(x, y)| beta * x + y).collect();
    let bt = beta * beta * t;
    if dev.ipa.adapt && !o.bound(tree, &[r], c) {
        // the mask can still be chosen: make the masked claim true
        let have = ip(&ma, &mb);
        let j = (0..n).find(|j| mb[*j] != Scalar::zero()).unwrap_or(0);
        ma[j] += (bt - have) * invert(&mb[j]);
        cr = com(g, h, q, &ma, &mb, &Scalar::zero()) - beta * cw;
        tree.set(&[r], enc(&cr));
    }
    let p = beta * cw + cr + bt * q;
    ipa(o, d, tree, r + 1, c + 1, g, h, q, ma, mb, p, bt, &dev.ipa)
}

// ------------------------------------------------------------------ quadratic systems

/// Guess about the vector s' that lets a wrong w'' through.
#[derive(Clone, Copy, PartialEq)]
pub enum Guess {
    None,
    /// that entry is this constant
    Const(usize, u64),
    /// these two entries are equal
    Same(usize, usize),
    /// this entry is the first one times that
    Multiple(usize, usize, u64),
}
#[derive(Clone)]
pub struct InnerDev {
    pub alm: AlmDev,
    pub guess: Guess,
    /// believe that the first entry is not fixed
    pub beta_one: bool,
    /// r'' is not r' rotated
    pub unrotated: bool,
}
impl Default for InnerDev {
    fn default() -> InnerDev {
        InnerDev { alm: AlmDev::default(), guess: Guess::None, beta_one: false, unrotated: false }
    }
}
pub fn batch_matrix(gam: &[Vec<Vec<Scalar>>], x: &Scalar, n2: usize) -> Vec<Vec<Scalar>> {
    let mut o = vec![vec![Scalar::zero(); n2]; n2];
    let weights = match unsafe { BATCH } {
        0 => {
            let mut f = Scalar::one();
            gam.iter()
                .map(|_| {
                    f *= x;
                    f
                })
                .collect()
        }
        b => expand(b, *x, gam.len()),
    };
    for (g, f) in gam.iter().zip(&weights) {
        for i in 0..n2 {
            for j in 0..n2 {
                o[i][j] += f * g[i][j];
            }
        }
    }
    o
}
/// From c' on. `off`: position of c' in the message, `c`: index of the first challenge after it.
/// `w` has all n entries (with the two blinders).
pub fn inner(o: &Orc, d: &mut Data, tree: &mut Tree, off: usize, c: usize, st: &Stmt, gam: &[Vec<Vec<Scalar>>], w: &[Scalar], dev: &InnerDev) -> Option<()> {
    let n = st.n;
    let n2 = n - 2;
    let mut g = st.g.clone();
    let ch = o.chals(tree);
    let (x, beta) = (*ch.get(c)?, *ch.get(c + 1)?);
    let beta = if dev.beta_one { Scalar::one() } else { beta };
    let gamma = batch_matrix(gam, &x, n2);
    let mut w = w.to_vec();
    w[0] = Scalar::one() + beta * (w[0] - Scalar::one());
    let c1 = msm(&w, &{
        let mut e = g.clone();
        e[0] = e[0] * invert(&beta);
        e
    });
    g[0] = g[0] * invert(&beta);
    let mut w2: Vec<Scalar> = gamma.iter().map(|r| ip(r, &w[..n2])).collect();
    w2.push(-w[n - 1]);
    w2.push(w[n - 2]);
    let mut res = quad(&gamma, &w[..n2]);
    if dev.unrotated {
        // r'' = (r'_1, r'_2) instead
        w2[n - 2] = w[n - 2];
        w2[n - 1] = w[n - 1];
    }
    let tests = |s: Scalar, b: Scalar| -> Vec<Scalar> {
        unsafe { [&expand(TEST_S, s, n2)[..], &expand(TEST_B, b, 2)[..]].concat() }
    };
    // <w' - s', delta> has to make up for the residual
    let mut delta = vec![Scalar::zero(); n];
    let guess = match (dev.guess, same_weight(&tests, d.below(1 << 16))) {
        (Guess::None, _) => Guess::None,
        (_, Some((i, j))) if w[i] != w[j] => Guess::Same(i, j),
        (x, _) => x,
    };
    match guess {
        Guess::Const(i, v) => delta[i] = -res * invert(&(w[i] - sc(v))),
        Guess::Same(i, j) => {
            delta[i] = -res * invert(&(w[i] - w[j]));
            delta[j] = -delta[i];
        }
        Guess::Multiple(i, j, k) => {
            // s'_j = k s'_i
            // k delta_j + delta_i = 0
            let f = -sc(k);
            delta[j] = -res * invert(&(w[j] + f * w[i]));
            delta[i] = f * delta[j];
        }
        Guess::None => {}
    }
    let put = |w2: &[Scalar], delta: &[Scalar]| -> Pt {
        let v: Vec<Scalar> = w2.iter().zip(delta).map(|(a, b)| a + b).collect();
        msm(&v, &st.h)
    };
    let mut c2 = put(&w2, &delta);
    tree.set(&[off + 1], enc(&c2));
    if dev.alm.ipa.adapt {
        let free_s = !o.bound(tree, &[off + 1], c + 2);
        let free_b = !free_s && !o.bound(tree, &[off + 1], c + 3);
        if free_s || free_b {
            let ch = o.chals(tree);
            let (s, b) = (*ch.get(c + 2)?, *ch.get(c + 3)?);
            // <w' - s', delta> is zero for the guesses as they stand only if they are right
            let (j, v) = if free_s { (0, s) } else { (n - 2, b) };
            delta = vec![Scalar::zero(); n];
            delta[j] = -res * invert(&(w[j] - v));
            c2 = put(&w2, &delta);
            tree.set(&[off + 1], enc(&c2));
            res = Scalar::zero();
        }
    }
    let _ = res;
    let ch = o.chals(tree);
    let (s, b) = (*ch.get(c + 2)?, *ch.get(c + 3)?);
    let sp = tests(s, b);
    // Gamma'^T s'
    let mut gts: Vec<Scalar> = (0..n2).map(|j| (0..n2).map(|i| gamma[i][j] * sp[i]).sum()).collect();
    gts.push(sp[n - 1]);
    gts.push(-sp[n - 2]);
    let a: Vec<Scalar> = (0..n).map(|i| w[i] - sp[i]).collect();
    let bb: Vec<Scalar> = (0..n).map(|i| w2[i] + delta[i] + gts[i]).collect();
    let t = -quad(&gamma.iter().map(|r| r.clone()).collect::<Vec<_>>(), &sp[..n2]);
    let cw = c1 + c2 + msm(&gts, &st.h) - msm(&sp, &g);
    alm(o, d, tree, off + 2, c + 4, &g, &st.h, &st.q, cw, &a, &bb, t, &dev.alm)
}

// ------------------------------------------------------------------ linear maps

#[derive(Clone, Default)]
pub struct LinDev {
    pub adapt: bool,
    /// (which list element of the first round or of the mask, per row what to add)
    pub add: Option<(Where, Vec<Pt>)>,
    /// values of the statement that travel in the proof: the ones of the prover instead
    pub carry_own: u8,
    /// in the first round a left value of unknown origin
    pub wild_l: bool,
    pub wild_a: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
    L(usize),
    R(usize),
    U(usize, usize),
    Mask,
}
fn set_rows(t: &mut Tree, path: &[usize], v: &[Pt]) {
    for (i, p) in v.iter().enumerate() {
        let mut q = path.to_vec();
        q.push(i);
        t.set(&q, enc(p));
    }
}
fn addv(a: &[Pt], b: &[Pt]) -> Vec<Pt> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
fn mulv(a: &Scalar, b: &[Pt]) -> Vec<Pt> {
    b.iter().map(|y| a * y).collect()
}
fn foldw(a: &[Vec<Pt>], f: impl Fn(&[Pt]) -> Vec<Pt>) -> Vec<Vec<Pt>> {
    a.iter().map(|r| f(r)).collect()
}
/// Rows that are short of something; those past the third that nothing can be done about are left alone.
fn short_rows(gap: &[Pt]) -> Vec<usize> {
    (0..gap.len()).filter(|i| gap[*i] != Pt::identity()).collect()
}
/// What the prover ends up with, for those who choose the claim last.
pub struct LinEnd {
    /// what the verifier compares: its image minus the one it expects
    pub gap: Vec<Pt>,
    /// factor of the claimed image in that
    pub weight: Scalar,
}
/// All four linear-map arguments. `stp`: the statement the prover computes with; the image that
/// counts is the one of the verifier (`o.st.t`).
pub fn linear(o: &Orc, d: &mut Data, tree: &mut Tree, stp: &Stmt, w: &[Scalar], dev: &LinDev) -> Option<LinEnd> {
    let m = o.st.m;
    let masked = matches!(o.st.sys, Sys::ZB | Sys::ZK);
    let two = matches!(o.st.sys, Sys::LB | Sys::ZB);
    let mut a = stp.a.clone();
    let mut av = o.st.a.clone();
    let mut t = o.st.t.clone();
    let mut own_t = stp.t.clone();
    let mut w = w.to_vec();
    let mut weight = Scalar::one();
    let (mut off, mut c) = (0, 0);
    if masked {
        let r: Vec<Scalar> = (0..w.len()).map(|_| d.random()).collect();
        let mut mask = image(&a, &r);
        let own_mask = mask.clone();
        if dev.wild_a {
            for x in mask.iter_mut() {
                *x += fresh_point(d);
            }
        }
        if let Some((Where::Mask, v)) = &dev.add {
            mask = addv(&mask, v);
        }
        set_rows(tree, &[0], &mask);
        let beta = o.chal(tree, 0)?;
        w = w.iter().zip(&r).map(|(x, y)| beta * x + y).collect();
        if dev.adapt {
            let want = image(&av, &w);
            let gap: Vec<Pt> = (0..m).map(|i| want[i] - beta * t[i] - mask[i]).collect();
            let mut stuck = 0;
            for i in short_rows(&gap) {
                if stuck < 3 && !o.bound(tree, &[0, i], 0) {
                    mask[i] += gap[i];
                } else {
                    stuck += 1;
                }
            }
            set_rows(tree, &[0], &mask);
        }
        t = addv(&mulv(&beta, &t), &mask);
        own_t = addv(&mulv(&beta, &own_t), &own_mask);
        weight = beta;
        off = 1;
        c = 1;
    }
    if two {
        let mut n = o.st.n;
        let mut i = 0;
        while n > 1 {
            n /= 2;
            let half = |a: &[Vec<Pt>], lo: bool| -> Vec<Vec<Pt>> { foldw(a, |r| if lo { r[..n].to_vec() } else { r[n..].to_vec() }) };
            let mut l = image(&half(&a, true), &w[n..]);
            let mut r = image(&half(&a, false), &w[..n]);
            if i == 0 && dev.wild_l {
                for x in l.iter_mut() {
                    *x += fresh_point(d);
                }
            }
            match &dev.add {
                Some((Where::L(j), v)) if *j == i => l = addv(&l, v),
                Some((Where::R(j), v)) if *j == i => r = addv(&r, v),
                _ => {}
            }
            set_rows(tree, &[off, i], &l);
            set_rows(tree, &[off + 1, i], &r);
            let x = o.chal(tree, c + i)?;
            let fold = |a: &[Vec<Pt>]| foldw(a, |r| (0..n).map(|j| r[j] + x * r[n + j]).collect());
            a = fold(&a);
            av = fold(&av);
            w = (0..n).map(|j| w[j] * x + w[n + j]).collect();
            if dev.adapt {
                let want = image(&av, &w);
                let gap: Vec<Pt> = (0..m).map(|j| want[j] - x * t[j] - l[j] - x * x * r[j]).collect();
                let mut stuck = 0;
                for j in short_rows(&gap) {
                    if stuck > 2 {
                        break;
                    } else if !o.bound(tree, &[off, i, j], c + i) {
                        l[j] += gap[j];
                    } else if !o.bound(tree, &[off + 1, i, j], c + i) {
                        r[j] += invert(&(x * x)) * gap[j];
                    } else if let Some(f) = o.bound2(tree, &[off, i, j], &[off + 1, i, j], c + i) {
                        let y = invert(&(Scalar::one() + f * x * x)) * gap[j];
                        l[j] += y;
                        r[j] += f * y;
                    } else {
                        stuck += 1;
                    }
                }
                set_rows(tree, &[off, i], &l);
                set_rows(tree, &[off + 1, i], &r);
            }
            t = (0..m).map(|j| l[j] + x * t[j] + x * x * r[j]).collect();
            weight *= x;
            i += 1;
        }
        tree.set(&[off + 2], w[0].to_bytes());
    } else {
        let k = o.st.k;
        let mut n = o.st.n;
        let mut i = 0;
        while n >= k {
            let len = n / k;
            let part = |a: &[Vec<Pt>], j: usize| -> Vec<Vec<Pt>> { foldw(a, |r| r[j * len..(j + 1) * len].to_vec()) };
            // u_{j - i + k - 1} = sum A_i w_j
            let mut u = vec![vec![Pt::identity(); m]; 2 * k - 1];
            for p in 0..k {
                for q in 0..k {
                    if p != q {
                        let l = k - 1 + q - p;
                        u[l] = addv(&u[l], &image(&part(&a, p), &w[q * len..(q + 1) * len]));
                    }
                }
            }
            u[k - 1] = if dev.carry_own & 4 != 0 { own_t.clone() } else { t.clone() };
            if i == 0 && dev.wild_l {
                for x in u[0].iter_mut() {
                    *x += fresh_point(d);
                }
            }
            if let Some((Where::U(j, l), v)) = &dev.add {
                if *j == i {
                    let l = l % (2 * k - 1);
                    let l = if l == k - 1 { 0 } else { l };
                    u[l] = addv(&u[l], v);
                }
            }
            for (l, v) in u.iter().enumerate() {
                set_rows(tree, &[off + 1, i, l], v);
            }
            let x = o.chal(tree, c + i)?;
            let xi = invert(&x);
            let pow = |b: Scalar| -> Vec<Scalar> {
                let mut v = vec![Scalar::one()];
                for _ in 1..k {
                    v.push(v[v.len() - 1] * b);
                }
                v
            };
            let (xs, ys) = (pow(x), pow(xi));
            let fold = |a: &[Vec<Pt>]| foldw(a, |r| (0..len).map(|j| (0..k).map(|p| xs[p] * r[p * len + j]).sum()).collect());
            a = fold(&a);
            av = fold(&av);
            w = (0..len).map(|j| (0..k).map(|p| ys[p] * w[p * len + j]).sum()).collect();
            // l-th element has weight x^(p-q)
            let z = |l: usize| -> Scalar {
                if l >= k - 1 {
                    ys[l - (k - 1)]
                } else {
                    xs[k - 1 - l]
                }
            };
            let total = |u: &Vec<Vec<Pt>>| -> Vec<Pt> {
                (0..m).map(|j| (0..2 * k - 1).map(|l| z(l) * u[l][j]).sum()).collect()
            };
            if dev.adapt {
                let want = image(&av, &w);
                let now = total(&u);
                let gap: Vec<Pt> = (0..m).map(|j| want[j] - now[j]).collect();
                let mut stuck = 0;
                for j in short_rows(&gap) {
                    if stuck > 2 {
                        break;
                    }
                    match [0, 2 * k - 2].iter().find(|l| **l != k - 1 && !o.bound(tree, &[off + 1, i, **l, j], c + i)) {
                        Some(l) => u[*l][j] += invert(&z(*l)) * gap[j],
                        None => stuck += 1,
                    }
                }
                for (l, v) in u.iter().enumerate() {
                    set_rows(tree, &[off + 1, i, l], v);
                }
            }
            t = total(&u);
            own_t = total(&{
                let mut v = u.clone();
                v[k - 1] = own_t.clone();
                v
            });
            n = len;
            i += 1;
        }
        for (j, x) in w.iter().enumerate() {
            tree.set(&[off, j], x.to_bytes());
        }
        let own_image = image(&a, &w);
        let ca = if dev.carry_own & 1 != 0 { &a } else { &av };
        for (r, row) in ca.iter().enumerate() {
            set_rows(tree, &[off + 2, r], row);
        }
        let ct = if dev.carry_own & 2 != 0 { own_image } else { t.clone() };
        set_rows(tree, &[off + 3], &ct);
    }
    let want = image(&av, &w);
    Some(LinEnd { gap: (0..m).map(|j| want[j] - t[j]).collect(), weight })
}
