//! C11 Shamir sharing, C12 public commitment polynomials
use kv::det::ByteStream;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::refmath::Pt;
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Point, Scalar, SuiteEd25519};
use kyber_rs::group::HashFactory;
use kyber_rs::share::poly::*;
use kyber_rs::Group;
use num_bigint_dig::BigUint;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

type G = SuiteEd25519;
fn g() -> G {
    SuiteEd25519::new_blake3_sha256_ed25519()
}
fn sc(b: &B32) -> Scalar {
    Scalar { v: b.0 }
}
fn val(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
fn okr<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: format!("{what}:error"), msg: format!("{e}") })
}
fn poly(c: &[B32]) -> PriPoly<G> {
    coefficients_to_pri_poly(&g(), &c.iter().map(sc).collect::<Vec<_>>())
}
fn model(c: &[B32]) -> Vec<BigUint> {
    c.iter().map(|b| b.modl()).collect()
}
fn mcoef(p: &PriPoly<G>) -> Vec<BigUint> {
    p.coefficients().iter().map(val).collect()
}
fn at(c: &[BigUint], i: usize) -> BigUint {
    rm::poly_eval(c, &rm::modl(&(BigUint::from(i) + 1u32)))
}
fn pt(p: &Pt) -> Point {
    let mut q = Point::default();
    q.unmarshal_binary(&p.encode()).expect("reference point decodes");
    q
}
fn penc(p: &Point) -> Vec<u8> {
    p.marshal_binary().expect("points encode")
}

fn coeffs(max: usize) -> impl Strategy<Value = Vec<B32>> {
    prop::collection::vec(prop_oneof![4 => key32(), 2 => any_scalar(), 1 => Just(B32([0; 32]))], 1..=max)
}
/// a share index below 2^63 - 1
fn index() -> impl Strategy<Value = usize> {
    prop_oneof![
        6 => 0usize..12,
        2 => 0usize..300,
        1 => prop::sample::select(vec![254usize, 255, 256, 65534, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 2]),
        1 => 0usize..(1 << 63) - 2,
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct EvalCase {
    c: Vec<B32>,
    idx: Vec<usize>,
    n: usize,
}
fn eval_law(i: &EvalCase) -> Res {
    let (p, m) = (poly(&i.c), model(&i.c));
    ensure_eq!(p.threshold(), i.c.len(), "threshold:wrong");
    ensure_eq!(val(&p.secret()), m[0], "secret:wrong");
    ensure_eq!(mcoef(&p), m, "coefficients:wrong");
    for &k in &i.idx {
        let s = p.eval(k);
        ensure_eq!(s.i, k, "eval:index");
        ensure!(val(&s.v) == at(&m, k), "eval:wrong", "index {k}: got {} want {}", val(&s.v), at(&m, k));
        ensure!(rm::lebytes(&s.v.v) < *rm::l(), "eval:not reduced");
        let mut h = Sha256::new();
        h.update(rm::sc(&at(&m, k)));
        h.update((k as u32).to_le_bytes());
        ensure_eq!(okr("hash", s.hash(g()))?, h.finalize().to_vec(), "share.hash:wrong");
    }
    let sh = p.shares(i.n);
    ensure_eq!(sh.len(), i.n, "shares:count");
    for (k, s) in sh.iter().enumerate() {
        let s = s.ok_or(Fail { sig: "shares:absent".into(), msg: "".into() })?;
        ensure!(s.i == k && val(&s.v) == at(&m, k), "shares:wrong", "share {k}");
    }
    Ok(Obs::nt(i.c.len() >= 2 && !i.idx.is_empty()).label(format!("t={}", i.c.len().min(6))).label_if(i.idx.iter().any(|k| *k > 300), "large index"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rec {
    c: Vec<B32>,
    /// share indices, repetitions allowed
    idx: Vec<usize>,
    /// where to insert absent shares
    holes: Vec<u8>,
    n: usize,
    base: Option<u16>,
}
fn rec_strategy(max_t: usize) -> impl Strategy<Value = Rec> {
    (coeffs(max_t), 0u8..6)
        .prop_flat_map(|(c, kind)| {
            let t = c.len();
            let idx = match kind {
                // exactly t, more, fewer; with or without repetitions
                0 | 1 => prop::collection::hash_set(index(), t..=t).prop_map(|s| s.into_iter().collect::<Vec<_>>()).boxed(),
                2 | 3 => prop::collection::hash_set(index(), t..=t + 5).prop_map(|s| s.into_iter().collect::<Vec<_>>()).boxed(),
                4 => prop::collection::hash_set(index(), 0..t.max(1)).prop_map(|s| s.into_iter().collect::<Vec<_>>()).boxed(),
                _ => prop::collection::vec(index(), 0..=t + 4).boxed(),
            };
            (Just(c), idx, prop::collection::vec(any::<u16>(), 14), prop::collection::vec(any::<u8>(), 0..4), 0usize..4)
        })
        .prop_flat_map(|(c, idx, keys, holes, dup)| {
            let ord = perm(&keys, idx.len());
            let mut idx: Vec<usize> = ord.iter().map(|k| idx[*k]).collect();
            // repeat some shares
            for d in 0..dup.saturating_sub(1) {
                if !idx.is_empty() {
                    let k = keys[d] as usize % idx.len();
                    let x = idx[k];
                    idx.insert(keys[d + 5] as usize % (idx.len() + 1), x);
                }
            }
            (Just(c), Just(idx), Just(holes), 0usize..40, prop::option::of(any::<u16>()))
        })
        .prop_map(|(c, idx, holes, n, base)| Rec { c, idx, holes, n, base })
}
fn distinct(v: &[usize]) -> usize {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v.len()
}
fn rec_obs(i: &Rec) -> Obs {
    let d = distinct(&i.idx);
    Obs::nt(i.c.len() >= 2 && d > 0)
        .label(if d == i.c.len() { "exactly t distinct" } else if d > i.c.len() { "more than t" } else { "fewer than t" })
        .label_if(d < i.idx.len(), "repeated shares")
        .label_if(!i.holes.is_empty(), "absent shares")
        .label_if(i.idx.windows(2).any(|w| w[0] > w[1]), "out of order")
        .label_if(i.idx.iter().any(|x| *x > 300), "large index")
}
fn rec_pri(i: &Rec) -> Res {
    let (p, m, t) = (poly(&i.c), model(&i.c), i.c.len());
    let mut shares: Vec<Option<PriShare<Scalar>>> = i.idx.iter().map(|k| Some(p.eval(*k))).collect();
    for h in &i.holes {
        shares.insert(*h as usize % (shares.len() + 1), None);
    }
    let copy = shares.clone();
    let s = nopanic("recover_secret", || recover_secret(g(), &shares, t, i.n))?;
    let q = nopanic("recover_pri_poly", || recover_pri_poly(&g(), &shares, t, i.n))?;
    ensure!(copy == shares, "recover:changes its input");
    if distinct(&i.idx) >= t {
        let s = okr("recover_secret", s)?;
        ensure!(val(&s) == m[0], "recover_secret:wrong", "got {} want {}", val(&s), m[0]);
        let q = okr("recover_pri_poly", q)?;
        ensure!(mcoef(&q) == m, "recover_pri_poly:wrong", "got {:?} want {:?}", mcoef(&q), m);
        ensure!(okr("equal", q.equal(&p))?, "recover_pri_poly:not equal");
    } else {
        ensure!(s.is_err(), "recover_secret:too few shares accepted", "{} of {t}", distinct(&i.idx));
        ensure!(q.is_err(), "recover_pri_poly:too few shares accepted", "{} of {t}", distinct(&i.idx));
    }
    Ok(rec_obs(i))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Two {
    a: Vec<B32>,
    b: Vec<B32>,
    k: usize,
    base: Option<u16>,
}
fn two(max: usize) -> impl Strategy<Value = Two> {
    (coeffs(max), coeffs(max), index(), 0u8..9, any::<u8>(), prop::option::of(any::<u16>())).prop_map(|(a, mut b, k, kind, w, base)| {
        match kind {
            0 => b = a.clone(),
            // same length
            1..=4 => {
                while b.len() < a.len() {
                    b.push(b[b.len() - 1]);
                }
                b.truncate(a.len());
            }
            // differs in one coefficient
            5 => {
                b = a.clone();
                let j = w as usize % b.len();
                b[j].0[w as usize % 31] ^= 1;
            }
            // differs in the sign of a coefficient, or in their order
            7 => {
                b = a.clone();
                let j = w as usize % b.len();
                if w & 0x80 == 0 {
                    b[j] = B32(rm::sc(&rm::subl(&BigUint::zero(), &b[j].modl())));
                } else {
                    b.swap(0, j);
                }
            }
            // prefix
            6 => {
                b = a.clone();
                b.push(B32([w; 32]));
            }
            _ => {}
        }
        Two { a, b, k, base }
    })
}
/// A group with a name of its own: polynomials over two of them have nothing in common.
#[derive(Clone, Debug, Default)]
struct Named(&'static str);
impl std::fmt::Display for Named {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl HashFactory for Named {
    type T = Sha256;
}
impl Group for Named {
    type POINT = Point;
    fn scalar(&self) -> Scalar {
        g().scalar()
    }
    fn scalar_len(&self) -> usize {
        32
    }
    fn point(&self) -> Point {
        g().point()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
fn arith(i: &Two) -> Res {
    let (p, q) = (poly(&i.a), poly(&i.b));
    let (ma, mb) = (model(&i.a), model(&i.b));
    let (va, vb) = (at(&ma, i.k), at(&mb, i.k));
    match nopanic("add", || p.add(&q))? {
        Ok(s) => {
            ensure!(ma.len() == mb.len(), "add:accepts different lengths");
            let want: Vec<_> = ma.iter().zip(&mb).map(|(x, y)| rm::modl(&(x + y))).collect();
            ensure_eq!(mcoef(&s), want, "add:wrong");
            ensure_eq!(val(&s.eval(i.k).v), rm::modl(&(&va + &vb)), "add:evaluation");
        }
        Err(_) => ensure!(ma.len() != mb.len(), "add:rejects equal lengths"),
    }
    let prod = nopanic("mul", || p.mul(&q))?;
    let mut want = vec![BigUint::zero(); ma.len() + mb.len() - 1];
    for (x, a) in ma.iter().enumerate() {
        for (y, b) in mb.iter().enumerate() {
            want[x + y] = rm::modl(&(&want[x + y] + a * b));
        }
    }
    ensure_eq!(mcoef(&prod), want, "mul:wrong");
    ensure_eq!(val(&prod.eval(i.k).v), rm::modl(&(&va * &vb)), "mul:evaluation");
    ensure_eq!(val(&prod.secret()), rm::modl(&(&ma[0] * &mb[0])), "mul:secret");
    ensure_eq!(okr("equal", p.equal(&q))?, ma == mb, "equal:wrong");
    ensure_eq!(okr("equal", q.equal(&p))?, ma == mb, "equal:wrong");
    ensure!(mcoef(&p) == ma && mcoef(&q) == mb, "arith:operand changed");
    // polynomials of different groups are neither equal nor added
    let named = |n, c: &[B32]| kyber_rs::share::poly::coefficients_to_pri_poly(&Named(n), &c.iter().map(sc).collect::<Vec<_>>());
    let (a1, a2, b1) = (named("one", &i.a), named("two", &i.a), named("one", &i.b));
    ensure!(!okr("equal", a1.equal(&a2))?, "equal:across groups");
    ensure!(a1.add(&a2).is_err(), "add:across groups");
    ensure_eq!(okr("equal", a1.equal(&b1))?, ma == mb, "equal:wrong");
    ensure_eq!(a1.add(&b1).is_ok(), ma.len() == mb.len(), "add:lengths");
    Ok(Obs::nt(ma.len() > 1 && mb.len() > 1).label_if(ma.len() == mb.len(), "same length").label_if(ma == mb, "equal"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct NewPoly {
    t: usize,
    secret: Option<B32>,
    stream: B32,
    other: B32,
}
fn new_poly(i: &NewPoly) -> Res {
    let mk = |s: &B32| new_pri_poly(g(), i.t, i.secret.as_ref().map(sc), ByteStream::new(&s.0));
    let p = nopanic("new_pri_poly", || mk(&i.stream))?;
    ensure_eq!(p.threshold(), i.t, "new_pri_poly:degree");
    if let Some(s) = &i.secret {
        ensure_eq!(val(&p.secret()), s.modl(), "new_pri_poly:secret");
    }
    let c = mcoef(&p);
    ensure!(okr("equal", p.equal(&mk(&i.stream)))?, "new_pri_poly:not a function of the stream");
    // random coefficients: distinct and not those of another stream
    let first = usize::from(i.secret.is_some());
    for a in first..c.len() {
        ensure!(c[a].bits() > 128, "new_pri_poly:small coefficient", "{}", c[a]);
        for b in a + 1..c.len() {
            ensure!(c[a] != c[b], "new_pri_poly:repeated coefficient");
        }
    }
    if i.other != i.stream && first < c.len() {
        let d = mcoef(&mk(&i.other));
        for a in first..c.len() {
            ensure!(c[a] != d[a], "new_pri_poly:ignores the stream");
        }
    }
    Ok(Obs::nt(i.t >= 2).label(if i.secret.is_some() { "given secret" } else { "random secret" }))
}

fn c11() -> Prop {
    Prop {
        id: "C11",
        laws: vec![
            law("eval", 50_000, 300_000, "threshold of at least two and at least one index",
                || (coeffs(9), prop::collection::vec(index(), 0..6), 0usize..14).prop_map(|(c, idx, n)| EvalCase { c, idx, n }), eval_law),
            law("recover", 50_000, 300_000, "threshold of at least two, at least one share", || rec_strategy(9), rec_pri),
            law("arith", 40_000, 300_000, "both of degree at least one", || two(8), arith),
            law("new_poly", 20_000, 100_000, "threshold of at least two",
                || (1usize..9, prop::option::of(any_scalar()), rand32(), rand32()).prop_map(|(t, secret, stream, other)| NewPoly { t, secret, stream, other }), new_poly),
        ],
        assumptions: vec!["num-bigint-dig correct", "share indices below 2^63 - 1, thresholds of at least one"],
    }
}

// ------------------------------------------------------------------ C12
fn base_pt(b: &Option<u16>) -> Option<(Point, Pt)> {
    b.map(|b| {
        let m = Pt::base_mul(&rm::modl(&rm::lebytes(&rm::sha512(&[b"base", &b.to_le_bytes()]))));
        (pt(&m), m)
    })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Com {
    c: Vec<B32>,
    idx: Vec<usize>,
    delta: B32,
    wrong: usize,
    base: Option<u16>,
}
fn commit_law(i: &Com) -> Res {
    let (p, m) = (poly(&i.c), model(&i.c));
    let b = base_pt(&i.base);
    let base = |s: &BigUint| match &b {
        None => Pt::base_mul(s),
        Some((_, m)) => m.mul(s),
    };
    let pp = p.commit(b.as_ref().map(|x| &x.0));
    ensure_eq!(pp.threshold(), m.len(), "commit:length");
    let (ib, ic) = pp.info();
    ensure!(ib.as_ref().map(penc) == b.as_ref().map(|x| penc(&x.0)), "info:base");
    for (k, c) in ic.iter().enumerate() {
        ensure!(penc(c) == base(&m[k]).encode().to_vec(), "commit:wrong", "coefficient {k}");
    }
    ensure_eq!(penc(&pp.commit()), penc(&ic[0]), "commit:constant");
    // built from the commitments again
    let pp2 = PubPoly::new(&g(), ib.clone(), &ic);
    ensure!(okr("equal", pp.equal(&pp2))?, "new:not equal");
    for &k in &i.idx {
        let v = at(&m, k);
        let e = pp.eval(k);
        ensure_eq!(e.i, k, "eval:index");
        ensure!(penc(&e.v) == base(&v).encode().to_vec(), "eval:wrong", "index {k}");
        let s = p.eval(k);
        ensure!(pp.check(&s) && pp2.check(&s), "check:rejects the right share", "index {k}");
        // unreduced value of the same share
        // wrong value
        let d = i.delta.modl();
        if !d.is_zero() {
            let w = PriShare { i: k, v: Scalar { v: rm::sc(&(&v + &d)) } };
            ensure!(!pp.check(&w), "check:accepts a wrong share", "index {k}");
        }
        // right value for another index
        if k != i.wrong && at(&m, i.wrong) != v {
            let w = PriShare { i: i.wrong, v: s.v };
            ensure!(!pp.check(&w), "check:accepts a share at another index", "{} for {k}", i.wrong);
        }
        let neg = rm::subl(&BigUint::zero(), &v);
        if neg != v {
            ensure!(!pp.check(&PriShare { i: k, v: Scalar { v: rm::sc(&neg) } }), "check:accepts the negated share");
        }
        let mut h = Sha256::new();
        h.update(base(&v).encode());
        h.update((k as u32).to_le_bytes());
        ensure_eq!(okr("hash", e.hash(g()))?, h.finalize().to_vec(), "pubshare.hash:wrong");
    }
    let n = i.c.len() + 1;
    let sh = pp.shares(n);
    ensure_eq!(sh.len(), n, "shares:count");
    for (k, s) in sh.iter().enumerate() {
        let s = s.ok_or(Fail { sig: "shares:absent".into(), msg: "".into() })?;
        ensure!(s.i == k && s.v == pp.eval(k).v, "shares:wrong", "share {k}");
    }
    Ok(Obs::nt(m.len() >= 2 && !i.idx.is_empty()).label(if b.is_some() { "given base" } else { "standard base" }).label_if(i.idx.iter().any(|k| *k > 300), "large index"))
}
fn rec_pub(i: &Rec) -> Res {
    let (p, t) = (poly(&i.c), i.c.len());
    let b = base_pt(&i.base);
    let pp = p.commit(b.as_ref().map(|x| &x.0));
    let m = model(&i.c);
    let mut cache: BTreeMap<usize, PubShare<Point>> = BTreeMap::new();
    let mut shares: Vec<Option<PubShare<Point>>> = vec![];
    for k in &i.idx {
        let s = cache.entry(*k).or_insert_with(|| {
            let v = at(&m, *k);
            let q = match &b {
                None => Pt::base_mul(&v),
                Some((_, x)) => x.mul(&v),
            };
            PubShare { i: *k, v: pt(&q) }
        });
        shares.push(Some(*s));
    }
    for h in &i.holes {
        shares.insert(*h as usize % (shares.len() + 1), None);
    }
    let c = nopanic("recover_commit", || recover_commit(g(), &shares, t, i.n))?;
    let q = nopanic("recover_pub_poly", || recover_pub_poly(g(), &shares, t, i.n))?;
    if distinct(&i.idx) >= t {
        let c = okr("recover_commit", c)?;
        ensure!(penc(&c) == penc(&pp.commit()), "recover_commit:wrong", "got {} want {}", c, pp.commit());
        let q = okr("recover_pub_poly", q)?;
        ensure_eq!(q.threshold(), t, "recover_pub_poly:length");
        for (k, (x, y)) in q.info().1.iter().zip(&pp.info().1).enumerate() {
            ensure!(penc(x) == penc(y), "recover_pub_poly:wrong", "coefficient {k}");
        }
        ensure!(okr("equal", q.equal(&pp))?, "recover_pub_poly:not equal");
        if b.is_none() {
            // usable as it is: it checks the shares of the polynomial
            ensure!(q.check(&p.eval(1)), "recover_pub_poly:rejects the right share");
            ensure!(okr("add", q.add(&pp))?.check(&PriShare { i: 0, v: Scalar { v: rm::sc(&(at(&m, 0) * 2u32)) } }), "recover_pub_poly:sum");
        }
    } else {
        ensure!(c.is_err(), "recover_commit:too few shares accepted", "{} of {t}", distinct(&i.idx));
        ensure!(q.is_err(), "recover_pub_poly:too few shares accepted", "{} of {t}", distinct(&i.idx));
    }
    Ok(rec_obs(i))
}
fn pub_arith(i: &Two) -> Res {
    let b = base_pt(&i.base);
    let bp = b.as_ref().map(|x| &x.0);
    let (p, q) = (poly(&i.a), poly(&i.b));
    let (cp, cq) = (p.commit(bp), q.commit(bp));
    let (ma, mb) = (model(&i.a), model(&i.b));
    match nopanic("add", || cp.add(&cq))? {
        Ok(s) => {
            ensure!(ma.len() == mb.len(), "add:accepts different lengths");
            let sum = okr("add", p.add(&q))?;
            ensure!(okr("equal", s.equal(&sum.commit(bp)))?, "add:not homomorphic");
            ensure!(s.check(&sum.eval(i.k)), "add:rejects the sum of shares");
            ensure_eq!(s.info().0.as_ref().map(penc), bp.map(penc), "add:base");
            for (k, c) in s.info().1.iter().enumerate() {
                let m = rm::modl(&(&ma[k] + &mb[k]));
                let want = match &b {
                    None => Pt::base_mul(&m),
                    Some((_, x)) => x.mul(&m),
                };
                ensure!(penc(c) == want.encode().to_vec(), "add:wrong", "coefficient {k}");
            }
        }
        Err(_) => ensure!(ma.len() != mb.len(), "add:rejects equal lengths"),
    }
    let e = nopanic("equal", || cp.equal(&cq))?;
    ensure_eq!(okr("equal", e)?, ma == mb, "equal:wrong");
    let e = nopanic("equal", || cq.equal(&cp))?;
    ensure_eq!(okr("equal", e)?, ma == mb, "equal:wrong");
    // commitments in different groups are neither equal nor added
    let (_, cs) = cp.info();
    let named = |n| PubPoly::new(&Named(n), bp.copied(), &cs);
    let (one, two) = (named("one"), named("two"));
    ensure!(!okr("equal", one.equal(&two))? && okr("equal", one.equal(&named("one")))?, "equal:across groups");
    ensure!(one.add(&two).is_err() && one.add(&named("one")).is_ok(), "add:across groups");
    Ok(Obs::nt(ma.len() > 1 || mb.len() > 1).label_if(ma.len() == mb.len(), "same length").label_if(ma == mb, "equal").label_if(b.is_some(), "given base"))
}
/// commitments that need not be of prime order: (scalar, torsion) each
#[derive(Debug, Clone, Serialize, Deserialize)]
struct AnyPts {
    c: Vec<(B32, u8)>,
    d: Vec<(B32, u8)>,
    idx: usize,
    base: Option<u16>,
}
fn any_points(i: &AnyPts) -> Res {
    let b = base_pt(&i.base);
    let base = |s: &BigUint| match &b {
        None => Pt::base_mul(s),
        Some((_, m)) => m.mul(s),
    };
    let pts = |v: &[(B32, u8)]| v.iter().map(|(s, t)| base(&s.modl()).add(&rm::c().torsion[*t as usize % 8])).collect::<Vec<_>>();
    let (mc, md) = (pts(&i.c), pts(&i.d));
    let mk = |m: &[Pt]| PubPoly::new(&g(), b.as_ref().map(|x| x.0), &m.iter().map(pt).collect::<Vec<_>>());
    let (pc, pd) = (mk(&mc), mk(&md));
    let x = BigUint::from(i.idx) + 1u32;
    let horner = |m: &[Pt]| m.iter().rev().fold(Pt::id(), |a, c| a.mul(&x).add(c));
    let ev = horner(&mc);
    ensure_eq!(penc(&pc.eval(i.idx).v), ev.encode().to_vec(), "any.eval:wrong");
    // the share of the prime-order part fits exactly when the torsion parts cancel
    let v = i.c.iter().rev().fold(BigUint::zero(), |a, c| rm::modl(&(a * &x + c.0.modl())));
    let fits = ev == base(&v);
    let s = PriShare { i: i.idx, v: Scalar { v: rm::sc(&v) } };
    ensure!(nopanic("check", || pc.check(&s))? == fits, "any.check:wrong", "check says {}, evaluation is {} the share's commitment", !fits, if fits { "" } else { "not" });
    let same = mc.len() == md.len() && mc.iter().zip(&md).all(|(a, b)| a == b);
    ensure_eq!(okr("equal", nopanic("equal", || pc.equal(&pd))?)?, same, "any.equal:wrong");
    ensure_eq!(okr("equal", nopanic("equal", || pd.equal(&pc))?)?, same, "any.equal:wrong");
    match nopanic("add", || pc.add(&pd))? {
        Ok(q) => {
            ensure!(mc.len() == md.len(), "any.add:accepts different lengths");
            for (k, c) in q.info().1.iter().enumerate() {
                ensure!(penc(c) == mc[k].add(&md[k]).encode().to_vec(), "any.add:wrong", "coefficient {k}");
            }
        }
        Err(_) => ensure!(mc.len() != md.len(), "any.add:rejects equal lengths"),
    }
    Ok(Obs::nt(i.c.iter().any(|c| c.1 % 8 != 0)).label(if fits { "share fits" } else { "share does not fit" }).label_if(same, "equal").label_if(i.base.is_some(), "given base"))
}
fn any_pts() -> impl Strategy<Value = AnyPts> {
    let t = || prop_oneof![2 => Just(0u8), 3 => 1u8..8];
    let coef = move || (prop_oneof![key32(), any_scalar()], t());
    (prop::collection::vec(coef(), 1..5), prop::collection::vec(coef(), 1..5), prop_oneof![3 => 0usize..20, 1 => index()], prop::option::of(any::<u16>()), 0u8..7, any::<u8>(), 1u8..8).prop_map(|(c, mut d, idx, base, rel, at, dt)| {
        match rel {
            0 => d = c.clone(),
            1 | 2 => {
                // same but for one torsion part
                d = c.clone();
                let k = at as usize % d.len();
                d[k].1 = (d[k].1 + dt) % 8;
            }
            3 => {
                // same, cut or extended by the identity
                d = c.clone();
                d.push((B32([0; 32]), 0));
            }
            4 => {
                // same but for the sign of one coordinate, or of both
                d = c.clone();
                let k = at as usize % d.len();
                d[k].0 = B32(rm::sc(&rm::subl(&BigUint::zero(), &d[k].0.modl())));
                d[k].1 = (16 - d[k].1 % 8 + if dt % 2 == 0 { 4 } else { 0 }) % 8;
            }
            5 => {
                // the same commitments in another order
                d = c.clone();
                let k = at as usize % d.len();
                d.swap(0, k);
            }
            _ => {}
        }
        AnyPts { c, d, idx, base }
    })
}
fn c12() -> Prop {
    Prop {
        id: "C12",
        laws: vec![
            law("commit", 1500, 40_000, "threshold of at least two and at least one index",
                || (coeffs(6), prop::collection::vec(index(), 0..4), key32(), index(), prop::option::of(any::<u16>())).prop_map(|(c, idx, delta, wrong, base)| Com { c, idx, delta, wrong, base }), commit_law),
            law("recover", 2000, 50_000, "threshold of at least two, at least one share", || rec_strategy(6), rec_pub),
            law("arith", 2500, 60_000, "one of degree at least one", || two(5), pub_arith),
            law("any_points", 2000, 50_000, "some commitment with a torsion part", any_pts, any_points),
        ],
        assumptions: vec!["num-bigint-dig correct", "share indices below 2^63 - 1, thresholds of at least one, base points of prime order"],
    }
}

fn main() {
    kv::cli::main(&[("C11", c11), ("C12", c12)])
}
