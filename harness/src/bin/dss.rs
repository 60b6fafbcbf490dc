//! C25 distributed Schnorr signatures.
use kv::det::{self, DSuite};
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::rabin as rd;
use kyber_rs::share::poly::PriShare;
use kyber_rs::sign::{dss, eddsa, schnorr};
use num_bigint_dig::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

type RShare = rd::DistKeyShare<DSuite>;
type Part = dss::PartialSig<DSuite>;

fn big(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
fn scb(n: &BigUint) -> Scalar {
    Scalar { v: rm::sc(n) }
}
fn x_of(i: usize) -> BigUint {
    BigUint::from(i + 1)
}
fn poly_of(seed: u64, tag: u32, t: usize) -> Vec<BigUint> {
    (0..t as u32).map(|k| big(&key_of(seed, tag + k))).collect()
}

/// the share types of both key generation protocols
trait Share: dss::DistKeyShare<DSuite> + PartialEq + std::fmt::Debug + 'static {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self;
}
impl Share for PShare {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self {
        PShare { commits, share, private_poly: vec![] }
    }
}
impl Share for RShare {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self {
        rd::DistKeyShare { commits, share }
    }
}
fn shares<S: Share>(co: &[BigUint], n: usize) -> Vec<S> {
    let commits: Vec<Point> = co.iter().map(|c| base_mul(&scb(c))).collect();
    (0..n).map(|i| S::make(commits.clone(), PriShare { i, v: scb(&rm::poly_eval(co, &x_of(i))) })).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Ev {
    /// the receiver makes its own partial signature
    Own,
    /// an honest partial signature of some participant arrives (possibly again)
    Good(u16),
    /// an altered one arrives
    Bad(u16, Alt),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Alt {
    /// a wrong share value, signed by its sender
    Value(B32),
    /// a wrong share value under the original signature
    ValueUnsigned(B32),
    /// claims another participant's index (own value, own signature)
    Index(u16),
    /// another participant's index and right share value, signed with the own key
    Impersonate(u16),
    /// indices outside the committee
    Outside(u8),
    /// session bytes altered and signed by the sender
    Session(u16),
    SessionLength(bool),
    /// session bytes altered, not signed again
    SessionUnsigned(u16),
    /// the sender's partial signature of another session (other keys / other randomness / other message)
    Other(u8),
    /// signature bits, length, addition of the group order, or none at all
    Bit(u16),
    Length(i8),
    Malleable,
    NoSignature,
    /// signed by somebody who is not a participant
    Outsider,
    /// the signature of another participant's partial
    Swapped(u16),
}
fn alt() -> impl Strategy<Value = Alt> {
    prop_oneof![
        3 => nz_scalar().prop_map(Alt::Value),
        1 => nz_scalar().prop_map(Alt::ValueUnsigned),
        1 => any::<u16>().prop_map(Alt::Index),
        1 => any::<u16>().prop_map(Alt::Impersonate),
        1 => any::<u8>().prop_map(Alt::Outside),
        2 => any::<u16>().prop_map(Alt::Session),
        1 => any::<bool>().prop_map(Alt::SessionLength),
        1 => any::<u16>().prop_map(Alt::SessionUnsigned),
        3 => (0u8..3).prop_map(Alt::Other),
        2 => any::<u16>().prop_map(Alt::Bit),
        1 => any::<i8>().prop_map(Alt::Length),
        1 => Just(Alt::Malleable),
        1 => Just(Alt::NoSignature),
        1 => Just(Alt::Outsider),
        1 => any::<u16>().prop_map(Alt::Swapped),
    ]
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    seed: u64,
    rabin: bool,
    n: usize,
    lt: usize,
    rt: usize,
    t: usize,
    /// the long-term or the random secret is zero plus this
    edge: Option<(bool, B32)>,
    msg: Bs,
    at: u16,
    evs: Vec<Ev>,
}
fn case(max: usize) -> impl Strategy<Value = Case> {
    (1usize..=max)
        .prop_flat_map(|n| (Just(n), 1..=n, 1..=n, prop::option::weighted(0.2, 1..=n), prop::bool::weighted(0.7)))
        .prop_flat_map(|(n, a, b, c, same)| {
            let rt = if same { a } else { b };
            let t = a.max(rt).max(c.unwrap_or(0));
            let ev = prop_oneof![1 => Just(Ev::Own), 6 => any::<u16>().prop_map(Ev::Good), 4 => (any::<u16>(), alt()).prop_map(|(a, b)| Ev::Bad(a, b))];
            (
                (any::<u64>(), any::<bool>(), prop::option::weighted(0.1, (any::<bool>(), red_scalar())), message(), any::<u16>()),
                prop::collection::vec(ev, n..=3 * n + 4),
            )
                .prop_map(move |((seed, rabin, edge, msg, at), evs)| Case { seed, rabin, n, lt: a, rt, t, edge, msg, at, evs })
        })
}

fn signing(c: &Case) -> Res {
    if c.rabin {
        run::<RShare>(c)
    } else {
        run::<PShare>(c)
    }
}
fn run<S: Share>(c: &Case) -> Res {
    det::reseed64(c.seed);
    let n = c.n;
    let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(c.seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let mut lco = poly_of(c.seed, 1000, c.lt);
    let mut rco = poly_of(c.seed, 2000, c.rt);
    if let Some((l, v)) = &c.edge {
        (if *l { &mut lco } else { &mut rco })[0] = v.modl();
    }
    let long: Vec<S> = shares(&lco, n);
    let random: Vec<S> = shares(&rco, n);
    let new = |i: usize, l: &S, r: &S, m: &[u8]| okr("new_dss", nopanic("new_dss", || dss::new_dss(suite(), &keys[i], &pubs, l, r, m, c.t))?);
    // an outsider cannot take part
    let out = key_of(c.seed, 900);
    ensure!(dss::new_dss(suite(), &out, &pubs, &long[0], &random[0], &c.msg.0, c.t).is_err(), "new_dss:outsider accepted");

    let renc = rm::Pt::base_mul(&rco[0]).encode();
    let aenc = rm::Pt::base_mul(&lco[0]).encode();
    let h = rm::modl(&rm::lebytes(&rm::sha512(&[&renc, &aenc, &c.msg.0])));
    let mut want = renc.to_vec();
    want.extend(rm::sc(&(&rco[0] + &h * &lco[0])));

    let mut nodes = vec![];
    let mut parts: Vec<Part> = vec![];
    for i in 0..n {
        let mut d = new(i, &long[i], &random[i], &c.msg.0)?;
        ensure!(d.index == i, "new_dss:index");
        let p = okr("partial_sig", nopanic("partial_sig", || d.partial_sig())?)?;
        ensure!(p.partial.i == i, "partial_sig:index");
        let v = rm::modl(&(rm::poly_eval(&rco, &x_of(i)) + &h * rm::poly_eval(&lco, &x_of(i))));
        ensure!(big(&p.partial.v) == v, "partial_sig:value is not r_i + H(R,A,m) a_i");
        let hash = okr("hash", p.hash(suite()))?;
        ensure!(schnorr::verify(suite(), &pubs[i], &hash, &p.signature).is_ok(), "partial_sig:signature");
        parts.push(p);
        nodes.push(d);
    }
    ensure!(parts.iter().all(|p| p.session_id == parts[0].session_id), "session:participants differ");
    let resign = |mut p: Part, k: &Scalar| -> Result<Part, Fail> {
        let h = okr("hash", p.hash(suite()))?;
        p.signature = sign(k, &h);
        Ok(p)
    };
    // other sessions of the same committee
    let other = |i: usize, kind: u8| -> Result<Part, Fail> {
        let o1: Vec<S> = shares(&poly_of(c.seed, 3000, c.lt), n);
        let o2: Vec<S> = shares(&poly_of(c.seed, 4000, c.rt), n);
        let (l, r, m) = match kind {
            0 => (&o1[i], &random[i], c.msg.0.clone()),
            1 => (&long[i], &o2[i], c.msg.0.clone()),
            _ => {
                let mut m = c.msg.0.clone();
                m.push(0);
                (&long[i], &random[i], m)
            }
        };
        let mut d = new(i, l, r, &m)?;
        okr("partial_sig", d.partial_sig())
    };

    let me = pick16(c.at, n);
    let mut d = new(me, &long[me], &random[me], &c.msg.0)?;
    let mut have: BTreeSet<usize> = BTreeSet::new();
    let (mut bad, mut dups) = (0, 0);
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    let check = |d: &dss::DSS<DSuite, S>, have: &BTreeSet<usize>| -> Result<(), Fail> {
        ensure!(d.enough_partial_sig() == (have.len() >= c.t), "enough_partial_sig:wrong", "{} of {}", have.len(), c.t);
        let s = nopanic("signature", || d.signature())?;
        if have.len() < c.t {
            ensure!(s.is_err(), "signature:from fewer than the threshold of partials", "{} of {}", have.len(), c.t);
        } else {
            match s {
                Ok(s) => ensure!(s == want, "signature:not the signature of the distributed key", "{} instead of {}", hex::encode(&s), hex::encode(&want)),
                Err(e) => return fail("signature:error with enough partials", format!("{e}")),
            }
        }
        Ok(())
    };
    check(&d, &have)?;
    for ev in &c.evs {
        match ev {
            Ev::Own => {
                let p = okr("partial_sig", nopanic("partial_sig", || d.partial_sig())?)?;
                ensure!(p.partial == parts[me].partial && p.session_id == parts[me].session_id, "partial_sig:not deterministic");
                have.insert(me);
            }
            Ev::Good(k) => {
                let k = pick16(*k, n);
                let fresh = have.insert(k);
                let before = if fresh { None } else { Some(d.clone()) };
                let got = nopanic("process_partial_sig", || d.process_partial_sig(parts[k].clone()))?;
                ensure!(got.is_ok() == fresh, if fresh { "process_partial_sig:valid partial rejected" } else { "process_partial_sig:duplicate accepted" }, "{got:?}");
                ensure!(before.is_none_or(|b| b == d), "process_partial_sig:duplicate changes the state");
                dups += !fresh as usize;
            }
            Ev::Bad(k, a) => {
                let k = pick16(*k, n);
                let mut p = parts[k].clone();
                let kind = format!("{a:?}");
                let mut skip = false;
                let p = match a {
                    Alt::Value(x) => {
                        p.partial.v = scb(&(big(&p.partial.v) + x.big()));
                        resign(p, &keys[k])?
                    }
                    Alt::ValueUnsigned(x) => {
                        p.partial.v = scb(&(big(&p.partial.v) + x.big()));
                        p
                    }
                    Alt::Index(j) => {
                        p.partial.i = pick16(*j, n);
                        skip = p.partial.i == k;
                        resign(p, &keys[k])?
                    }
                    Alt::Impersonate(j) => {
                        let j = pick16(*j, n);
                        skip = j == k;
                        resign(parts[j].clone(), &keys[k])?
                    }
                    Alt::Outside(w) => {
                        p.partial.i = [n, n + 1, n + *w as usize, usize::MAX, usize::MAX - n, u32::MAX as usize, (1usize << 32) + k][*w as usize % 7];
                        resign(p, &keys[k])?
                    }
                    Alt::Session(b) => {
                        let b = *b as usize % (8 * p.session_id.len());
                        p.session_id[b / 8] ^= 1 << (b % 8);
                        resign(p, &keys[k])?
                    }
                    Alt::SessionLength(longer) => {
                        if *longer {
                            p.session_id.push(0)
                        } else {
                            p.session_id.pop();
                        }
                        resign(p, &keys[k])?
                    }
                    Alt::SessionUnsigned(b) => {
                        let b = *b as usize % (8 * p.session_id.len());
                        p.session_id[b / 8] ^= 1 << (b % 8);
                        p
                    }
                    Alt::Other(kind) => {
                        let o = other(k, *kind)?;
                        ensure!((o.session_id == p.session_id) == (*kind > 1), "session:does not identify keys and randomness", "kind {kind}");
                        // a vanishing key share makes partials of different messages equal
                        skip = *kind > 1 && o.partial == p.partial;
                        o
                    }
                    Alt::Bit(b) => {
                        let b = *b as usize % (8 * p.signature.len());
                        p.signature[b / 8] ^= 1 << (b % 8);
                        p
                    }
                    Alt::Length(by) => {
                        let l = p.signature.len() as i64 + if *by == 0 { 1 } else { *by as i64 };
                        p.signature.resize(l.max(0) as usize, 0);
                        p
                    }
                    Alt::Malleable => {
                        let s = rm::lebytes(&p.signature[32..]) + rm::l();
                        p.signature[32..].copy_from_slice(&rm::le32(&s));
                        p
                    }
                    Alt::NoSignature => {
                        p.signature.clear();
                        p
                    }
                    Alt::Outsider => resign(p, &out)?,
                    Alt::Swapped(j) => {
                        let j = pick16(*j, n);
                        skip = j == k;
                        p.signature = parts[j].signature.clone();
                        p
                    }
                };
                if skip {
                    continue;
                }
                let before = d.clone();
                let got = nopanic("process_partial_sig", || d.process_partial_sig(p))?;
                let kind = kind.split(['(', ' ']).next().unwrap().to_string();
                ensure!(got.is_err(), format!("process_partial_sig:accepted:{kind}"), "from {k}: {a:?}");
                ensure!(before == d, format!("process_partial_sig:rejected partial changes the state:{kind}"));
                kinds.insert(kind);
                bad += 1;
            }
        }
        check(&d, &have)?;
    }
    // everything else is still accepted
    for k in 0..n {
        if have.insert(k) {
            okr("process_partial_sig", d.process_partial_sig(parts[k].clone()))?;
        }
        check(&d, &have)?;
    }
    // the signature is an ordinary one
    let a = base_mul(&scb(&lco[0]));
    let strict = rm::strict_verify(&aenc, &c.msg.0, &want);
    for (name, ok) in [
        ("dss", dss::verify(&a, &c.msg.0, &want).is_ok()),
        ("eddsa", eddsa::verify(&a, &c.msg.0, &want).is_ok()),
        ("schnorr", schnorr::verify(suite(), &a, &c.msg.0, &want).is_ok()),
    ] {
        ensure!(ok == (strict == rm::Verdict::Ok), format!("verify:{name} disagrees with the reference"), "{strict:?}");
    }
    ensure!(strict == rm::Verdict::Ok || c.edge.is_some(), "signature:not valid", "{strict:?}");
    let mut o = Obs::nt(n > 1).label_if(bad > 0, "altered partials").label_if(dups > 0, "duplicates").label_if(c.lt != c.rt, "different thresholds").label_if(c.t > c.lt.max(c.rt), "larger threshold");
    for k in kinds {
        o = o.label(k);
    }
    Ok(o)
}
fn pick16(k: u16, n: usize) -> usize {
    k as usize % n
}

// -------------------------------------------------------------- keys from real key generations
#[derive(Debug, Clone, Serialize, Deserialize)]
struct E2e {
    seed: u64,
    rabin: bool,
    n: usize,
    t: usize,
    msg: Bs,
    picks: Vec<u16>,
}
fn keygen<D: Dkg>(seed: u64, n: usize, t: usize) -> Result<Vec<D::G>, Fail> {
    let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let mut g = vec![];
    for k in &keys {
        g.push(okr("new", D::new(k, &pubs, t))?);
    }
    let mut resps = vec![];
    for d in 0..n {
        for (i, dl) in okr("deals", D::deals(&mut g[d]))? {
            resps.push((i, okr("process_deal", D::p_deal(&mut g[i], &dl))?));
        }
    }
    for (from, r) in &resps {
        for j in (0..n).filter(|j| j != from) {
            okr("process_response", D::p_resp(&mut g[j], r))?;
        }
    }
    Ok(g)
}
fn e2e(c: &E2e) -> Res {
    det::reseed64(c.seed);
    if c.rabin {
        let get = || -> Result<Vec<RShare>, Fail> {
            let mut g = keygen::<RabD>(c.seed, c.n, c.t)?;
            let mut scs = vec![];
            for x in g.iter_mut() {
                scs.push(okr("secret_commits", x.secret_commits())?);
            }
            let mut out = vec![];
            for x in g.iter_mut() {
                let me = x.index;
                for s in scs.iter().filter(|s| s.index != me) {
                    ensure!(okr("process_secret_commits", x.process_secret_commits(s))?.is_none(), "secret commits:complaint");
                }
                out.push(okr("dist_key_share", x.dist_key_share())?);
            }
            Ok(out)
        };
        let (l, r) = (get()?, get()?);
        sign_all(c, &l, &r)
    } else {
        let get = || -> Result<Vec<PShare>, Fail> {
            let g = keygen::<PedD>(c.seed, c.n, c.t)?;
            let mut out = vec![];
            for x in &g {
                out.push(okr("dist_key_share", x.dist_key_share())?);
            }
            Ok(out)
        };
        let (l, r) = (get()?, get()?);
        sign_all(c, &l, &r)
    }
}
fn sign_all<S: Share>(c: &E2e, l: &[S], r: &[S]) -> Res {
    let n = c.n;
    let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(c.seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let mut nodes = vec![];
    let mut parts = vec![];
    for i in 0..n {
        let mut d = okr("new_dss", dss::new_dss(suite(), &keys[i], &pubs, &l[i], &r[i], &c.msg.0, c.t))?;
        parts.push(okr("partial_sig", d.partial_sig())?);
        nodes.push(d);
    }
    let mut sigs: BTreeSet<Vec<u8>> = BTreeSet::new();
    for (i, d) in nodes.iter_mut().enumerate() {
        let ks: Vec<u16> = c.picks.iter().map(|p| p.wrapping_mul(2 * i as u16 + 1)).collect();
        let mut got = 1;
        for k in perm(&ks, n).into_iter().filter(|k| *k != i) {
            if got == c.t {
                break;
            }
            ensure!(d.signature().is_err(), "signature:from fewer than the threshold of partials");
            okr("process_partial_sig", d.process_partial_sig(parts[k].clone()))?;
            got += 1;
        }
        sigs.insert(okr("signature", d.signature())?);
    }
    ensure!(sigs.len() == 1, "signature:signers differ");
    let s = sigs.pop_first().unwrap();
    let public = &l[0].commitments()[0];
    ensure!(rm::strict_verify(&penc(public), &c.msg.0, &s) == rm::Verdict::Ok, "signature:not valid under the distributed key");
    ensure!(dss::verify(public, &c.msg.0, &s).is_ok(), "verify:valid signature rejected");
    ensure_eq!(&s[..32], &penc(&r[0].commitments()[0])[..], "signature:commitment is not the random key");
    Ok(Obs::nt(true).label(if c.rabin { "rabin" } else { "pedersen" }))
}

fn c25() -> Prop {
    Prop {
        id: "C25",
        laws: vec![
            law("partials", 2_500, 250_000, "more than one participant", || case(8), signing),
            law(
                "keys-from-dkg",
                120,
                12_000,
                "every case: two key generations and a signature by every node",
                || {
                    (2usize..=6)
                        .prop_flat_map(|n| (any::<u64>(), any::<bool>(), Just(n), 2..=n, message(), prop::collection::vec(any::<u16>(), n)))
                        .prop_map(|(seed, rabin, n, t, msg, picks)| E2e { seed, rabin, n, t, msg, picks })
                },
                e2e
            ),
        ],
        assumptions: vec!["participants are listed in the order of their share indices; the threshold given is at least the threshold of both keys"],
    }
}
fn main() {
    kv::cli::main(&[("C25", c25)]);
}
