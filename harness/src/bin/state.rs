//! C27 serialization and resuming, C29 renderings without secrets.
use kv::det::{self, DSuite};
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::leak::{searchable, searchable_throughout, written, Text};
use kv::mutate::*;
use kv::net::*;
use kv::refmath as rm;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{
    scalar_test_types::{FactoredScalar, SimpleCTScalar},
    Curve, Point, Scalar, SuiteEd25519,
};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use kyber_rs::share::poly::{coefficients_to_pri_poly, PriPoly, PriShare, PubPoly, PubShare};
use kyber_rs::sign::{dss, eddsa::EdDSA};
use kyber_rs::util::key::Pair;
use num_bigint_dig::{BigInt, BigUint, Sign};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};

type RShare = rd::DistKeyShare<DSuite>;

// ------------------------------------------------------------------ C27
/// saves and restores in one of the ways a user has
fn saved<T: Serialize + DeserializeOwned>(what: &str, x: &T, how: u8) -> Result<T, Fail> {
    match how % 5 {
        0 => {
            let b = okr(&format!("{what}:bincode"), bincode::serialize(x))?;
            okr(&format!("{what}:bincode decode"), nopanic(what, || bincode::deserialize(&b))?)
        }
        1 => {
            let s = okr(&format!("{what}:json"), serde_json::to_string(x))?;
            okr(&format!("{what}:json decode"), nopanic(what, || serde_json::from_str(&s))?)
        }
        2 => {
            let s = okr(&format!("{what}:json"), serde_json::to_value(x))?;
            okr(&format!("{what}:json decode"), nopanic(what, || serde_json::from_value(s))?)
        }
        3 => {
            let b = okr(&format!("{what}:bincode"), bincode::serialize(x))?;
            okr(&format!("{what}:bincode decode"), nopanic(what, || bincode::deserialize_from(&b[..]))?)
        }
        _ => {
            // twice
            let b = okr(&format!("{what}:bincode"), bincode::serialize(x))?;
            let y: T = okr(&format!("{what}:bincode decode"), bincode::deserialize(&b))?;
            let s = okr(&format!("{what}:json"), serde_json::to_vec(&y))?;
            okr(&format!("{what}:json decode"), serde_json::from_slice(&s))
        }
    }
}
/// every way of saving gives the same content back
fn round<T: Serialize + DeserializeOwned>(what: &str, x: &T) -> Result<(), Fail> {
    let v = val(x);
    for how in 0..5 {
        let y = saved(what, x, how)?;
        ensure!(val(&y) == v, format!("{what}:differs after saving"), "way {how}: {} became {}", trunc(&v.to_string(), 300), trunc(&val(&y).to_string(), 300));
    }
    Ok(())
}
fn round_eq<T: Serialize + DeserializeOwned + PartialEq>(what: &str, x: &T) -> Result<(), Fail> {
    for how in 0..5 {
        ensure!(saved(what, x, how)? == *x, format!("{what}:not equal after saving"), "way {how}");
    }
    round(what, x)
}
/// the library's own helpers (their decoder borrows from its input)
fn round_lib<T: Serialize + DeserializeOwned + PartialEq + Default>(what: &str, x: &T) -> Result<(), Fail> {
    let b = okr(&format!("{what}:marshal_binary"), encoding::marshal_binary(x))?;
    let mut y = T::default();
    okr(&format!("{what}:unmarshal_binary"), encoding::unmarshal_binary(&mut y, &b))?;
    ensure!(y == *x, format!("{what}:not equal after marshal_binary"));
    round_eq(what, x)
}
fn round_bin<T: BinaryMarshaler + BinaryUnmarshaler + PartialEq>(what: &str, x: &T, mut y: T) -> Result<(), Fail> {
    let b = okr(&format!("{what}:marshal_binary"), x.marshal_binary())?;
    okr(&format!("{what}:unmarshal_binary"), y.unmarshal_binary(&b))?;
    ensure!(y == *x, format!("{what}:not equal after marshal_binary"));
    let c = okr(&format!("{what}:marshal_binary"), y.marshal_binary())?;
    ensure_eq!(b, c, format!("{what}:encodes differently after decoding"));
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Objs {
    s: Vec<B32>,
    k: Vec<(u8, u32)>,
    i: u64,
    msg: Bs,
    m: Bs,
}
fn point_of(s: &B32, k: &(u8, u32)) -> Point {
    let p = base_mul(&sc(s));
    if k.0 % 3 == 0 {
        other_point(&p, k.1, &[])
    } else {
        p
    }
}
fn objects(c: &Objs) -> Res {
    let sc: Vec<Scalar> = c.s.iter().map(sc).collect();
    let ps: Vec<Point> = c.s.iter().zip(&c.k).map(|(s, k)| point_of(s, k)).collect();
    let i = match c.k[0].0 % 4 {
        0 => c.i as usize,
        1 => usize::MAX,
        2 => u32::MAX as usize,
        _ => c.i as usize % 9,
    };
    for s in &sc {
        round_lib("scalar", s)?;
        // the binary encoding is that of the residue
        let r = Scalar { v: rm::sc(&rm::lebytes(&s.v)) };
        round_bin("scalar", &r, Scalar::default())?;
        ensure_eq!(okr("scalar", s.marshal_binary())?, r.v.to_vec(), "scalar:marshal_binary is not of the residue");
    }
    let mut y = SimpleCTScalar::default();
    okr("SimpleCTScalar:unmarshal_binary", y.unmarshal_binary(&sc[0].v))?;
    round_lib("SimpleCTScalar", &y)?;
    let mut y = FactoredScalar::default();
    okr("FactoredScalar:unmarshal_binary", y.unmarshal_binary(&sc[0].v))?;
    round_lib("FactoredScalar", &y)?;
    for p in &ps {
        round_lib("point", p)?;
        round_bin("point", p, Point::default())?;
        ensure_eq!(penc(&saved("point", p, c.k[0].0)?), penc(p), "point:encoding differs after saving");
    }
    round("curve", &Curve::new())?;
    round("suite", &SuiteEd25519::new_blake3_sha256_ed25519())?;
    // integers modulo anything, either byte order
    let m = BigInt::from_bytes_be(Sign::Plus, &c.m.0) + BigInt::from(2);
    for bo in [ByteOrder::LittleEndian, ByteOrder::BigEndian] {
        let x = Int::new_int_bytes(&c.s[0].0, &m, bo);
        round_eq("int", &x)?;
        let y = saved("int", &x, c.k[0].0)?;
        ensure!(y.bo == x.bo && y.equal(&x), "int:differs after saving");
        ensure_eq!(okr("int", y.marshal_binary())?, okr("int", x.marshal_binary())?, "int:encoding differs after saving");
    }
    round("byte order", &ByteOrder::LittleEndian)?;
    // shares and polynomials
    let (ha, hb) = (ps[0], ps[1 % ps.len()]);
    round_lib("private share", &PriShare { i, v: sc[0].clone() })?;
    round_lib("public share", &PubShare { i, v: ps[0] })?;
    let f: PriPoly<DSuite> = coefficients_to_pri_poly(&suite(), &sc);
    round_lib("private polynomial", &f)?;
    round_lib("public polynomial", &PubPoly::new(&suite(), None, &ps))?;
    let g = PubPoly::new(&suite(), Some(hb), &ps);
    round_lib("public polynomial", &g)?;
    let h = saved("public polynomial", &g, c.k[0].0)?;
    ensure!(h.info() == g.info() && h.eval(i % 100) == g.eval(i % 100), "public polynomial:behaves differently after saving");
    let e = saved("private polynomial", &f, c.k[0].0)?;
    ensure!(e.eval(i % 100) == f.eval(i % 100) && e.commit(Some(&ha)).info() == f.commit(Some(&ha)).info(), "private polynomial:behaves differently after saving");
    // keys and shares of keys
    round_lib("pair", &Pair { public: ps[0], private: sc[0].clone() })?;
    let mut y = Pair::<Point>::default();
    y.private = sc[0].clone();
    y.public = base_mul(&sc[0]);
    round_lib("pair", &y)?;
    let share = PriShare { i, v: sc[0].clone() };
    round_lib("pedersen key share", &PShare { commits: ps.clone(), share: share.clone(), private_poly: sc.clone() })?;
    round_lib("rabin key share", &RShare { commits: ps.clone(), share: share.clone() })?;
    let cfg = pd::Config::<DSuite, det::DetReader> {
        suite: suite(),
        longterm: sc[0].clone(),
        old_nodes: ps.clone(),
        public_coeffs: (c.k[0].0 % 2 == 0).then(|| ps.clone()),
        new_nodes: ps.iter().rev().cloned().collect(),
        share: (c.k[0].0 % 4 < 2).then(|| PShare { commits: ps.clone(), share: share.clone(), private_poly: sc.clone() }),
        threshold: i,
        old_threshold: c.i as usize,
        reader: (c.k[0].1 % 2 == 0).then_some(det::DetReader),
        user_reader_only: c.k[0].1 % 4 < 2,
    };
    round_lib("config", &cfg)?;
    // signing keys
    let ed = okr("EdDSA", EdDSA::new(&mut det::ByteStream::new(&c.s[0].0)))?;
    round("EdDSA", &ed)?;
    let back = saved("EdDSA", &ed, c.k[0].0)?;
    ensure!(back == ed && back.seed == ed.seed && back.prefix == ed.prefix, "EdDSA:not equal after saving");
    let b = okr("EdDSA", ed.marshal_binary())?;
    let mut m = EdDSA::<Curve>::default();
    okr("EdDSA:unmarshal_binary", m.unmarshal_binary(&b))?;
    let sign = |e: &EdDSA<Curve>| okr("EdDSA", e.sign(&c.msg.0)).map(|s| s.to_vec());
    ensure!(sign(&m)? == sign(&ed)? && sign(&back)? == sign(&ed)?, "EdDSA:signs differently after saving");
    ensure!(m.secret == ed.secret && m.public == ed.public && m.prefix == ed.prefix, "EdDSA:not equal after marshal_binary");
    // messages with arbitrary contents
    for how in 0..2 {
        messages(c, &sc, &ps, i, how)?;
    }
    Ok(Obs::nt(true).label_if(c.s.len() > 2, "longer lists").label_if(c.k[0].0 % 3 == 0, "unusual points"))
}
fn messages(c: &Objs, sc: &[Scalar], ps: &[Point], i: usize, how: u8) -> Result<(), Fail> {
    let bytes = |k: usize| c.s[k % c.s.len()].0[..c.k[0].1 as usize % 33].to_vec();
    let share = PriShare { i, v: sc[0].clone() };
    let deal = MDeal {
        session_id: bytes(0),
        sec_share: MShare { i, v: sc[0].clone() },
        rnd_share: None,
        t: c.i as usize,
        commitments: ps.to_vec(),
    };
    let mut rdeal = deal.clone();
    rdeal.rnd_share = Some(MShare { i: i / 2, v: sc[sc.len() - 1].clone() });
    let enc = MEnc { dhkey: ps[0], signature: bytes(1), nonce: bytes(2), cipher: c.msg.0.clone() };
    let resp = MResp { session_id: bytes(0), index: i as u32, ok: how == 0, signature: bytes(1) };
    let pj = MJust { session_id: bytes(0), index: i as u32, deal: deal.clone(), signature: bytes(1) };
    let rj = MJust { deal: rdeal.clone(), ..pj.clone() };
    round_lib("pedersen deal", &Ped::deal(&deal))?;
    round_lib("rabin deal", &Rab::deal(&rdeal))?;
    round_lib("pedersen encrypted deal", &Ped::enc(&enc))?;
    round_lib("rabin encrypted deal", &Rab::enc(&enc))?;
    round_lib("pedersen response", &Ped::resp(&resp))?;
    round_lib("rabin response", &Rab::resp(&resp))?;
    round_lib("pedersen justification", &Ped::just(&pj))?;
    round_lib("rabin justification", &Rab::just(&rj))?;
    let d = c.i as u32;
    round("pedersen dkg deal", &PedD::mk_deal(d, &enc, &bytes(2)))?;
    round("rabin dkg deal", &RabD::mk_deal(d, &enc, &bytes(2)))?;
    round_lib("pedersen dkg response", &PedD::mk_resp(d, &resp))?;
    round_lib("rabin dkg response", &RabD::mk_resp(d, &resp))?;
    round_lib("pedersen dkg justification", &PedD::mk_just(d, &pj))?;
    round_lib("rabin dkg justification", &RabD::mk_just(d, &rj))?;
    round_lib("secret commits", &rd::SecretCommits::<DSuite> { index: d, commitments: ps.to_vec(), session_id: bytes(0), signature: bytes(1) })?;
    round_lib(
        "complaint",
        &rd::ComplaintCommits::<DSuite> { index: i as u32, dealer_index: d, deal: Rab::deal(&rdeal), signature: bytes(1) },
    )?;
    round_lib(
        "reconstruction",
        &rd::ReconstructCommits::<DSuite> { session_id: bytes(0), index: i as u32, dealer_index: d, share: share.clone(), signature: bytes(1) },
    )?;
    let p = dss::PartialSig::<DSuite> { partial: share.clone(), session_id: bytes(0), signature: bytes(1) };
    round("partial signature", &p)?;
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Resume {
    s: Scen,
    /// at which steps which nodes are interrupted, and how they are saved
    at: Vec<(u8, u8)>,
    /// the node also waits for nothing more
    timeout: Option<u8>,
    /// when a wrong justification comes first
    #[serde(default)]
    wrong: u8,
    #[serde(default)]
    muts: Vec<Mut>,
}
fn resume(c: &Resume) -> Res {
    match c.s.proto {
        Proto::Pedersen => resume_run::<PedD>(c, fresh(&c.s)?, fresh(&c.s)?),
        Proto::Rabin => resume_run::<RabD>(c, fresh(&c.s)?, fresh(&c.s)?),
        Proto::Reshare { .. } => resume_run::<PedD>(c, resharing(&c.s)?, resharing(&c.s)?),
    }
}
fn restart<D: Dkg>(net: &mut Net<D>, k: usize, how: u8) -> Result<(), Fail> {
    let what = format!("{} node", D::NAME);
    let back = saved(&what, &net.g[k], how)?;
    ensure!(back == net.g[k], format!("{what}:not equal after saving"), "node {k}, step {}", net.step);
    ensure!(val(&back) == val(&net.g[k]), format!("{what}:differs after saving"), "node {k}, step {}", net.step);
    net.g[k] = back;
    Ok(())
}
/// a wrong justification by the same dealer, instead of the one that is due
fn wrong<D: Dkg>(c: &Resume, net: &Net<D>, j: usize, w: Option<&W<D>>) -> Result<Option<W<D>>, Fail> {
    let Some(W::Just(x)) = w else { return Ok(None) };
    if c.wrong >> ((net.step + j) % 8) & 1 == 0 {
        return Ok(None);
    }
    let (d, mut m) = D::un_just(x);
    m.deal.sec_share.v = key_of(c.s.seed, 103);
    let bad = W::<D>::Just(D::mk_just(d, &m));
    Ok(net.author(&bad).map(|a| bad.resign(&net.keys[a])))
}
fn resume_run<D: Dkg>(c: &Resume, mut net: Net<D>, mut plain: Net<D>) -> Res {
    let mut n = 0;
    let mut who: BTreeSet<usize> = BTreeSet::new();
    let timeouts = |net: &mut Net<D>, ph: &Phase| {
        // the time-out falls at the end of the sharing phase or of the run
        if let (Some(m), Phase::Shared, true) | (Some(m), Phase::End, false) = (c.timeout, ph, c.timeout.is_some_and(|m| m % 2 == 0)) {
            for k in 0..net.g.len() {
                if m >> (1 + k % 7) & 1 == 1 {
                    D::timeout(&mut net.g[k]);
                }
            }
        }
    };
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, ph: Phase| -> Result<(), Fail> {
        let slot = if w.is_some() { net.step } else { 1000 };
        let (mask, how) = c.at[slot % c.at.len()];
        for k in 0..net.g.len() {
            if mask >> (k % 8) & 1 == 1 {
                restart(net, k, how)?;
                who.insert(k);
                n += 1;
            }
        }
        timeouts(net, &ph);
        // a wrong justification may come first
        if let Some(bad) = wrong(c, net, j, w)? {
            let _ = nopanic("delivery", || deliver::<D>(&mut net.g[j], &bad))?;
            let (mask, how) = c.at[(net.step + 1) % c.at.len()];
            if mask & 3 != 0 {
                restart(net, j, how)?;
                n += 1;
            }
        }
        // the message, too, may have come from a file
        if let Some(w) = w {
            if how % 3 == 0 {
                let x = match w {
                    W::Deal(x) => W::<D>::Deal(saved("deal", x, how)?),
                    W::Resp(x) => W::Resp(saved("response", x, how)?),
                    W::Just(x) => W::Just(saved("justification", x, how)?),
                    W::Sc(x) => W::Sc(saved("secret commits", x, how)?),
                    W::Cc(x) => W::Cc(saved("complaint", x, how)?),
                    W::Rc(x) => W::Rc(saved("reconstruction", x, how)?),
                };
                ensure!(x.value() == w.value(), format!("{}:differs after saving", w.name()));
            }
        }
        Ok(())
    };
    run(&c.s, &mut net, &mut hook)?;
    run(&c.s, &mut plain, &mut |net: &mut Net<D>, j: usize, w: Option<&W<D>>, ph: Phase| {
        timeouts(net, &ph);
        if let Some(bad) = wrong(c, net, j, w)? {
            let _ = nopanic("delivery", || deliver::<D>(&mut net.g[j], &bad))?;
        }
        Ok(())
    })?;
    ensure_eq!(net.step, plain.step, "run:length differs from the undisturbed run");
    for (a, b) in net.seen.iter().zip(&plain.seen) {
        ensure!(a.value() == b.value(), format!("{}:differs from the undisturbed run", a.name()), "{a:?} instead of {b:?}");
    }
    let mut done = 0;
    for k in 0..net.g.len() {
        ensure!(net.g[k] == plain.g[k], "run:end state differs from the undisturbed run", "node {k}");
        ensure_eq!(D::qual(&net.g[k]), D::qual(&plain.g[k]), "run:qualified set differs");
        ensure_eq!(D::certified(&net.g[k]), D::certified(&plain.g[k]), "run:certification differs");
        let (a, b) = (D::key(&net.g[k]), D::key(&plain.g[k]));
        ensure!(a.is_ok() == b.is_ok(), "run:key differs from the undisturbed run", "node {k}: {a:?} {b:?}");
        if let (Ok(a), Ok(b)) = (a, b) {
            ensure_eq!(a, b, "run:key differs from the undisturbed run");
            done += 1;
        }
        restart(&mut net, k, c.at[0].1)?;
        ensure_eq!(D::qual(&net.g[k]), D::qual(&plain.g[k]), "run:qualified set differs");
    }
    Ok(Obs::nt(n > 0 && net.step > 1)
        .label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string())
        .label_if(who.len() == net.g.len(), "everyone interrupted")
        .label_if(done > 0, "keys made")
        .label_if(c.timeout.is_some(), "time-outs")
        .label_if(net.seen.iter().any(|w| matches!(w, W::Just(_))), "justifications")
        .label_if(net.seen.iter().any(|w| matches!(w, W::Rc(_))), "reconstructions"))
}

/// a lone dealer and its verifiers
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sharing {
    seed: u64,
    rabin: bool,
    n: usize,
    t: usize,
    /// holders who complain, and whose deals are bad
    complain: u8,
    bad: u8,
    at: Vec<(u8, u8)>,
    order: Vec<u16>,
    timeout: u8,
    /// verifiers who first see a wrong justification
    #[serde(default)]
    wrong: u8,
    #[serde(default)]
    muts: Vec<Mut>,
}
struct Share<V: Vss> {
    d: V::Dealer,
    v: Vec<V::Verifier>,
    log: Vec<String>,
}
type Step<'a, V> = &'a mut dyn FnMut(&mut Share<V>) -> Result<(), Fail>;
fn share<V: Vss>(c: &Sharing, step: Step<V>) -> Result<Share<V>, Fail> {
    det::reseed64(c.seed);
    let keys: Vec<Scalar> = (0..c.n as u32).map(|i| key_of(c.seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let long = key_of(c.seed, 100);
    let mut s = Share::<V> {
        d: okr("dealer", V::dealer(&long, &key_of(c.seed, 101), &pubs, c.t))?,
        v: vec![],
        log: vec![],
    };
    for k in &keys {
        s.v.push(okr("verifier", V::verifier(k, &base_mul(&long), &pubs))?);
    }
    for i in 0..c.n {
        if c.bad >> (i % 8) & 1 == 1 {
            let mut other = s.d.clone();
            let mut m = V::mdeal(okr("plain", V::plain(&mut other, i))?);
            m.sec_share.v = key_of(c.seed, 102);
            *okr("plain", V::plain(&mut other, i))? = V::deal(&m);
            let e = okr("encrypt", V::encrypt(&other, i))?;
            step(&mut s)?;
            det::reseed64(c.seed + 10 + i as u64);
            let r = V::v_deal(&mut s.v[i], &e);
            s.log.push(format!("{r:?}"));
            if let Ok(r) = r {
                back(c, &mut s, i, r, step)?;
            }
            continue;
        }
        let e = okr("encrypt", V::encrypt(&s.d, i))?;
        step(&mut s)?;
        det::reseed64(c.seed + 10 + i as u64);
        let r = okr("process deal", V::v_deal(&mut s.v[i], &e))?;
        back(c, &mut s, i, r, step)?;
    }
    step(&mut s)?;
    for i in 0..c.n {
        if c.timeout >> (i % 7) & 1 == 1 {
            V::v_timeout(&mut s.v[i]);
        }
    }
    if c.timeout > 127 {
        V::d_timeout(&mut s.d);
    }
    step(&mut s)?;
    Ok(s)
}
fn back<V: Vss>(c: &Sharing, s: &mut Share<V>, i: usize, r: V::Resp, step: Step<V>) -> Result<(), Fail> {
    let mut m = V::mresp(&r);
    if c.complain >> (i % 8) & 1 == 1 {
        m = MResp::new(&m.session_id, m.index, false, &key_of(c.seed, i as u32));
    }
    let r = V::resp(&m);
    s.log.push(format!("{r:?}"));
    step(s)?;
    let j = V::d_resp(&mut s.d, &r);
    for k in perm(&c.order, c.n) {
        if k != i {
            step(s)?;
            let x = V::v_resp(&mut s.v[k], &r);
            s.log.push(format!("{k} {}", x.is_ok()));
        }
    }
    s.log.push(format!("{j:?}"));
    if let Ok(Some(j)) = j {
        let mut bad = V::mjust(&j);
        bad.deal.sec_share.v = key_of(c.seed, 103);
        let bad = V::just(&V::make_just(&bad.session_id, bad.index, &bad.deal, &key_of(c.seed, 100)));
        for k in perm(&c.order, c.n) {
            if c.wrong >> (k % 8) & 1 == 1 {
                step(s)?;
                let x = V::v_just(&mut s.v[k], &bad);
                s.log.push(format!("{k} {}", x.is_ok()));
            }
            step(s)?;
            let x = V::v_just(&mut s.v[k], &j);
            s.log.push(format!("{k} {}", x.is_ok()));
        }
    }
    Ok(())
}
fn vss_resume(c: &Sharing) -> Res {
    if c.rabin {
        vss_run::<Rab>(c)
    } else {
        vss_run::<Ped>(c)
    }
}
fn vss_run<V: Vss>(c: &Sharing) -> Res {
    let mut k = 0;
    let mut n = 0;
    let a = share::<V>(c, &mut |s| {
        k += 1;
        let (mask, how) = c.at[k % c.at.len()];
        if mask & 1 == 1 {
            let d = saved("dealer", &s.d, how)?;
            ensure!(d == s.d && val(&d) == val(&s.d), "dealer:not equal after saving");
            s.d = d;
            n += 1;
        }
        for (i, v) in s.v.iter_mut().enumerate() {
            if mask >> (1 + i % 7) & 1 == 1 {
                let w = saved("verifier", v, how)?;
                ensure!(w == *v && val(&w) == val(v), "verifier:not equal after saving");
                *v = w;
                n += 1;
            }
        }
        Ok(())
    })?;
    let b = share::<V>(c, &mut |_| Ok(()))?;
    ensure_eq!(a.log, b.log, "run:differs from the undisturbed run");
    ensure!(a.d == b.d && a.v == b.v, "run:end state differs from the undisturbed run");
    ensure!(V::d_certified(&a.d) == V::d_certified(&b.d), "run:certification differs");
    for (x, y) in a.v.iter().zip(&b.v) {
        ensure!(V::v_certified(x) == V::v_certified(y), "run:certification differs");
        ensure!(V::v_getdeal(x) == V::v_getdeal(y), "run:deal differs");
    }
    Ok(Obs::nt(n > 0).label(V::NAME).label_if(b.log.iter().any(|l| l.starts_with("Ok(Some")), "justifications").label_if(V::d_certified(&b.d), "certified").label_if(b.v.iter().any(|v| val(v)["aggregator"]["bad_dealer"] == true), "bad dealer exposed"))
}

// ---------------------------------------------------------- distributed signing
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Signing {
    seed: u64,
    rabin: bool,
    n: usize,
    t: usize,
    msg: Bs,
    order: Vec<(u8, u16, bool)>,
    at: Vec<(bool, u8)>,
}
trait KeyShare: dss::DistKeyShare<DSuite> + PartialEq + Debug + Display + Default + Serialize + DeserializeOwned + 'static {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self;
}
impl KeyShare for PShare {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self {
        PShare { commits, share, private_poly: vec![] }
    }
}
impl KeyShare for RShare {
    fn make(commits: Vec<Point>, share: PriShare<Scalar>) -> Self {
        RShare { commits, share }
    }
}
fn scb(n: &BigUint) -> Scalar {
    Scalar { v: rm::sc(n) }
}
fn key_shares<S: KeyShare>(seed: u64, tag: u32, n: usize, t: usize) -> Vec<S> {
    let co: Vec<BigUint> = (0..t as u32).map(|k| rm::lebytes(&key_of(seed, tag + k).v)).collect();
    let commits: Vec<Point> = co.iter().map(|c| base_mul(&scb(c))).collect();
    (0..n).map(|i| S::make(commits.clone(), PriShare { i, v: scb(&rm::poly_eval(&co, &BigUint::from(i + 1))) })).collect()
}
type Signer<S> = dss::DSS<DSuite, S>;
fn signers<S: KeyShare>(seed: u64, n: usize, t: usize, msg: &[u8]) -> Result<Vec<Signer<S>>, Fail> {
    det::reseed64(seed);
    let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let long: Vec<S> = key_shares(seed, 1000, n, t);
    let random: Vec<S> = key_shares(seed, 2000, n, t);
    (0..n).map(|i| okr("new_dss", dss::new_dss(suite(), &keys[i], &pubs, &long[i], &random[i], msg, t))).collect()
}
fn signing_run<S: KeyShare>(c: &Signing, step: &mut dyn FnMut(&mut Vec<Signer<S>>) -> Result<(), Fail>) -> Result<Vec<Signer<S>>, Fail> {
    let mut nodes = signers::<S>(c.seed, c.n, c.t, &c.msg.0)?;
    let mut parts: Vec<Option<dss::PartialSig<DSuite>>> = vec![None; c.n];
    for (k, (to, from, _)) in c.order.iter().enumerate() {
        step(&mut nodes)?;
        det::reseed64(c.seed + k as u64);
        let (to, from) = (*to as usize % c.n, *from as usize % c.n);
        match parts[from].clone() {
            Some(p) if to != from => {
                let _ = nodes[to].process_partial_sig(p);
            }
            _ => {
                let p = nodes[from].partial_sig();
                parts[from] = Some(okr("partial_sig", p)?);
            }
        }
    }
    step(&mut nodes)?;
    Ok(nodes)
}
fn dss_resume(c: &Signing) -> Res {
    if c.rabin {
        dss_run::<RShare>(c)
    } else {
        dss_run::<PShare>(c)
    }
}
fn dss_run<S: KeyShare>(c: &Signing) -> Res {
    let mut k = 0;
    let mut n = 0;
    let a = signing_run::<S>(c, &mut |nodes| {
        k += 1;
        for (i, d) in nodes.iter_mut().enumerate() {
            let (yes, how) = c.at[(k * 7 + i) % c.at.len()];
            if yes {
                let x = saved("signer", d, how)?;
                ensure!(x == *d && val(&x) == val(d), "signer:not equal after saving");
                *d = x;
                n += 1;
            }
        }
        Ok(())
    })?;
    let b = signing_run::<S>(c, &mut |_| Ok(()))?;
    let mut done = 0;
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "run:end state differs from the undisturbed run");
        ensure!(x.enough_partial_sig() == y.enough_partial_sig(), "run:differs from the undisturbed run");
        match (x.signature(), y.signature()) {
            (Ok(p), Ok(q)) => {
                ensure_eq!(p, q, "run:signature differs from the undisturbed run");
                done += 1;
            }
            (Err(_), Err(_)) => (),
            _ => return fail("run:signature differs from the undisturbed run", ""),
        }
    }
    Ok(Obs::nt(n > 0).label_if(done > 0, "signatures made"))
}

fn restarts(max: usize) -> impl Strategy<Value = Vec<(u8, u8)>> {
    prop::collection::vec((prop_oneof![2 => Just(0u8), 1 => Just(255u8), 3 => any::<u8>()], any::<u8>()), 1..max)
}
fn c27() -> Prop {
    Prop {
        id: "C27",
        laws: vec![
            law(
                "objects",
                1_500,
                150_000,
                "every case: every serializable type with generated contents, saved and restored in five ways",
                || {
                    (1usize..6).prop_flat_map(|n| {
                        (
                            prop::collection::vec(any_scalar(), n),
                            prop::collection::vec((any::<u8>(), any::<u32>()), n),
                            any::<u64>(),
                            message(),
                            bytes(40),
                        )
                            .prop_map(|(s, k, i, msg, m)| Objs { s, k, i, msg, m })
                    })
                },
                objects,
            ),
            law(
                "key-generation",
                300,
                30_000,
                "some node was saved and restored in mid-protocol",
                || {
                    (scen(5), restarts(40), prop::option::weighted(0.4, any::<u8>()), prop_oneof![1 => Just(0u8), 1 => any::<u8>()])
                        .prop_map(|(s, at, timeout, wrong)| Resume { s, at, timeout, wrong, muts: vec![] })
                },
                resume,
            ),
            law(
                "sharing",
                500,
                50_000,
                "dealer or verifiers were saved and restored in mid-protocol",
                || {
                    (2usize..=6).prop_flat_map(|n| {
                        (
                            (any::<u64>(), any::<bool>(), 2..=n),
                            prop_oneof![1 => Just(0u8), 1 => any::<u8>()],
                            prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
                            restarts(20),
                            prop::collection::vec(any::<u16>(), n),
                            any::<u8>(),
                            prop_oneof![1 => Just(0u8), 1 => any::<u8>()],
                        )
                            .prop_map(move |((seed, rabin, t), complain, bad, at, order, timeout, wrong)| Sharing { seed, rabin, n, t, complain, bad, at, order, timeout, wrong, muts: vec![] })
                    })
                },
                vss_resume,
            ),
            law(
                "distributed-signing",
                300,
                30_000,
                "some signer was saved and restored in mid-protocol",
                || {
                    (1usize..=6).prop_flat_map(|n| {
                        (
                            (any::<u64>(), any::<bool>(), 1..=n, message()),
                            prop::collection::vec((any::<u8>(), any::<u16>(), any::<bool>()), n..8 * n),
                            prop::collection::vec((any::<bool>(), any::<u8>()), 1..20),
                        )
                            .prop_map(move |((seed, rabin, t, msg), order, at)| Signing { seed, rabin, n, t, msg, order, at })
                    })
                },
                dss_resume,
            ),
        ],
        assumptions: vec!["objects are saved with serde (bincode, JSON) or the library's own marshaling; the randomness after a restart is that of the uninterrupted run"],
    }
}

// ------------------------------------------------------------------ C29
/// all scalars an object holds
fn secrets(v: &serde_json::Value) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for (p, k) in nodes(v) {
        if k == Kind::Scalar {
            if let Ok(s) = unval::<Scalar>(v.pointer(&p).unwrap()) {
                out.push(s.v.to_vec());
            }
        }
    }
    out.retain(|s| searchable(s));
    out.sort();
    out.dedup();
    out
}
/// no rendering of the object shows any of the secrets; gives back the plain ones
fn hidden<T: Debug + ?Sized>(what: &str, x: &T, secrets: &[Vec<u8>]) -> Result<String, Fail> {
    let a = nopanic(&format!("{what}:debug"), || format!("{x:?}"))?;
    let b = nopanic(&format!("{what}:debug"), || format!("{x:#?}"))?;
    let h = nopanic(&format!("{what}:debug"), || format!("{x:x?}"))?;
    search(what, "debug", &a, secrets)?;
    search(what, "pretty debug", &b, secrets)?;
    search(what, "hexadecimal debug", &h, secrets)?;
    Ok(a)
}
/// the same object with something altered in it shows none of the secrets either
fn altered<T: Serialize + DeserializeOwned + Debug + Display>(what: &str, x: &T, secrets: &[Vec<u8>], muts: &[Mut]) -> Result<usize, Fail> {
    let v = val(x);
    let mut n = 0;
    for m in muts {
        let Ok(y) = unval::<T>(&alter(&v, m, &[]).0) else { continue };
        for (how, text) in renderings(&y) {
            search(&format!("altered {what}"), how, &text, secrets)?;
        }
        n += 1;
    }
    Ok(n)
}
fn renderings<T: Debug + Display>(x: &T) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    // objects no decoder would have let through need not be renderable
    out.extend(nopanic("", || format!("{x:?}")).ok().map(|t| ("debug", t)));
    out.extend(nopanic("", || format!("{x:#?}")).ok().map(|t| ("pretty debug", t)));
    out.extend(nopanic("", || format!("{x:x?}")).ok().map(|t| ("hexadecimal debug", t)));
    out.extend(nopanic("", || format!("{x}")).ok().map(|t| ("display", t)));
    out.extend(nopanic("", || format!("{x:#}")).ok().map(|t| ("display", t)));
    out
}
fn shown<T: Display + ?Sized>(what: &str, x: &T, secrets: &[Vec<u8>]) -> Result<String, Fail> {
    let a = nopanic(&format!("{what}:display"), || format!("{x}"))?;
    search(what, "display", &a, secrets)?;
    let b = nopanic(&format!("{what}:display"), || format!("{x:#}"))?;
    search(what, "display", &b, secrets)?;
    Ok(a)
}
fn search(what: &str, how: &str, text: &str, secrets: &[Vec<u8>]) -> Result<(), Fail> {
    let t = Text::new(text);
    for s in secrets {
        ensure!(!t.reveals(s), format!("{what}:{how} reveals a secret"), "{} in {}", hex::encode(s), trunc(text, 2000));
    }
    Ok(())
}
/// the public part is still readable
fn public(what: &str, text: &str, pts: &[Point]) -> Result<(), Fail> {
    for p in pts {
        ensure!(text.contains(&hex::encode(penc(p))), format!("{what}:display lacks a public value"), "{} in {}", hex::encode(penc(p)), trunc(text, 1000));
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Vals {
    s: Vec<B32>,
    i: u16,
    seed: u64,
    n: usize,
    t: usize,
    msg: Bs,
    steps: Vec<(u8, u16)>,
    how: u8,
    #[serde(default)]
    muts: Vec<Mut>,
}
fn values(c: &Vals) -> Res {
    let s: Vec<Scalar> = c.s.iter().map(sc).collect();
    let p: Vec<Point> = s.iter().map(base_mul).collect();
    let mut sec: Vec<Vec<u8>> = c.s.iter().map(|x| x.0.to_vec()).collect();
    sec.extend(c.s.iter().map(|x| rm::sc(&x.modl()).to_vec()));
    sec.retain(|s| searchable(s));
    // the search finds what it has to find
    if let Some(x) = sec.iter().find(|x| searchable_throughout(x)) {
        let t = Text::new(&format!("Thing {{ a: [1, 2], v: {}, z: ({}) }}", written(x, c.how), p[0]));
        ensure!(t.reveals(x), "internal:the search misses a secret", "encoding {}", c.how % 12);
        ensure!(!Text::new(&format!("{} {:?}", p[0], penc(&p[0]))).reveals(x), "internal:the search finds what is not there");
    }
    let i = c.i as usize;
    let share = PriShare { i, v: s[0].clone() };
    hidden("private share", &share, &sec)?;
    shown("private share", &share, &sec)?;
    let f: PriPoly<DSuite> = coefficients_to_pri_poly(&suite(), &s);
    hidden("private polynomial", &f, &sec)?;
    shown("private polynomial", &f, &sec)?;
    let kp = Pair { public: p[0], private: s[0].clone() };
    hidden("pair", &kp, &sec)?;
    public("pair", &shown("pair", &kp, &sec)?, &p[..1])?;
    let pk = PShare { commits: p.clone(), share: share.clone(), private_poly: s.clone() };
    hidden("pedersen key share", &pk, &sec)?;
    public("pedersen key share", &shown("pedersen key share", &pk, &sec)?, &p)?;
    let rk = RShare { commits: p.clone(), share: share.clone() };
    hidden("rabin key share", &rk, &sec)?;
    public("rabin key share", &shown("rabin key share", &rk, &sec)?, &p)?;
    let cfg = pd::Config::<DSuite, det::DetReader> {
        suite: suite(),
        longterm: s[s.len() - 1].clone(),
        old_nodes: p.clone(),
        public_coeffs: Some(p.clone()),
        new_nodes: p.clone(),
        share: (c.how % 4 > 0).then(|| pk.clone()),
        threshold: i,
        old_threshold: i,
        reader: Some(det::DetReader),
        user_reader_only: true,
    };
    hidden("config", &cfg, &sec)?;
    public("config", &shown("config", &cfg, &sec)?, &p)?;
    altered("private share", &share, &sec, &c.muts)?;
    altered("private polynomial", &f, &sec, &c.muts)?;
    altered("pair", &kp, &sec, &c.muts)?;
    altered("pedersen key share", &pk, &sec, &c.muts)?;
    altered("rabin key share", &rk, &sec, &c.muts)?;
    altered("config", &cfg, &sec, &c.muts)?;
    // signing keys also keep a seed and a prefix
    let ed = okr("EdDSA", EdDSA::new(&mut det::ByteStream::new(&c.s[0].0)))?;
    let mut es = sec.clone();
    es.extend([ed.seed.clone(), ed.prefix.clone(), ed.secret.v.to_vec()].into_iter().filter(|s| searchable(s)));
    hidden("EdDSA", &ed, &es)?;
    // public values are readable
    let ps = PubShare { i, v: p[0] };
    public("public share", &format!("{ps}"), &p[..1])?;
    public("public polynomial", &format!("{}", PubPoly::new(&suite(), None, &p)), &p)?;
    public("point", &format!("{}", p[0]), &p[..1])?;
    // what cannot be done is refused without telling why in secrets
    let e = |r: Result<Scalar, kyber_rs::share::poly::PolyError>| r.map_err(|e| format!("{e:?}: {e}"));
    let some: Vec<Option<PriShare<Scalar>>> = s.iter().enumerate().map(|(k, v)| Some(PriShare { i: k, v: v.clone() })).collect();
    mute("recover_secret", e(kyber_rs::share::poly::recover_secret(suite(), &some, s.len() + 1, s.len() + 1)), &sec)?;
    mute("recover_pri_poly", kyber_rs::share::poly::recover_pri_poly(&suite(), &some, s.len() + 1, s.len() + 1).map_err(|e| format!("{e:?}: {e}")), &sec)?;
    let longer: PriPoly<DSuite> = coefficients_to_pri_poly(&suite(), &[&s[..], &s[..1]].concat());
    mute("add", f.add(&longer).map_err(|e| format!("{e:?}: {e}")), &sec)?;
    mute("mul", Ok(f.mul(&longer)), &sec)?;
    for cut in [0usize, 1, 31, 32, 33, 63] {
        let mut b = okr("EdDSA encodes", ed.marshal_binary())?;
        b.truncate(cut);
        let mut x = okr("EdDSA", EdDSA::new(&mut det::ByteStream::new(&c.s[0].0)))?;
        mute("EdDSA", x.unmarshal_binary(&b).map_err(|e| format!("{e:?}: {e}")), &es)?;
        let mut x = Scalar::default();
        let mut y = c.s[0].0.to_vec();
        y.truncate(cut);
        y.extend((cut == 33).then_some(0));
        if y.len() != 32 {
            mute("scalar", x.unmarshal_binary(&y).map_err(|e| format!("{e:?}: {e}")), &sec)?;
        }
    }
    let sealed = okr("encrypt", kyber_rs::encrypt::ecies::encrypt(suite(), p[0], &c.msg.0))?;
    for k in 0..sealed.len().min(34) {
        let mut bad = sealed.clone();
        bad[k] ^= 1 << (k % 8);
        let mut m = es.clone();
        m.extend((searchable(&c.msg.0)).then(|| c.msg.0.clone()));
        mute("decrypt", kyber_rs::encrypt::ecies::decrypt(suite(), s[0].clone(), &bad).map_err(|e| format!("{e:?}: {e}")), &m)?;
    }
    signer_views::<RShare>(c)?;
    signer_views::<PShare>(c)?;
    Ok(Obs::nt(!sec.is_empty()).label(format!("encoding {}", c.how % 12)))
}
fn signer_views<S: KeyShare>(c: &Vals) -> Result<(), Fail> {
    let mut nodes = signers::<S>(c.seed, c.n, c.t, &c.msg.0)?;
    let mut sec = vec![];
    for d in &nodes {
        sec.extend(secrets(&val(d)));
    }
    let mut parts = vec![];
    for d in nodes.iter_mut() {
        parts.push(okr("partial_sig", d.partial_sig())?);
    }
    let me = c.i as usize % c.n;
    for (k, _) in &c.steps {
        let k = *k as usize % c.n;
        let _ = nodes[me].process_partial_sig(parts[k].clone());
    }
    // partial signatures are for the other signers: their values are no secrets
    let d = &nodes[me];
    sec.retain(|s| !parts.iter().any(|p| p.partial.v.v[..] == s[..]));
    hidden("signer", d, &sec)?;
    let text = shown("signer", d, &sec)?;
    altered("signer", d, &sec, &c.muts)?;
    public("signer", &text, &d.participants)
}

fn states(c: &Resume) -> Res {
    match c.s.proto {
        Proto::Pedersen => states_run::<PedD>(c, fresh(&c.s)?),
        Proto::Rabin => states_run::<RabD>(c, fresh(&c.s)?),
        Proto::Reshare { .. } => states_run::<PedD>(c, resharing(&c.s)?),
    }
}
fn look<D: Dkg>(c: &Resume, net: &mut Net<D>, k: usize, extra: &[Vec<u8>]) -> Result<usize, Fail> {
    let mut sec = secrets(&val(&net.g[k]));
    sec.extend(extra.iter().cloned());
    let what = format!("{} node", D::NAME);
    hidden(&what, &net.g[k], &sec)?;
    let text = shown(&what, &net.g[k], &sec)?;
    public(&what, &text, &[base_mul(&net.keys[k])])?;
    let at = (net.step * 3 + k) % c.muts.len();
    altered(&what, &net.g[k], &sec, &c.muts[at..c.muts.len().min(at + 2)])?;
    Ok(sec.len())
}
/// every sum of shares a node has received: what its key share is made of
fn sums(v: &serde_json::Value) -> Vec<Vec<u8>> {
    let mut sh: Vec<BigUint> = vec![];
    for (p, k) in nodes(v) {
        if k == Kind::Scalar && (p.contains("sec_share") || p.contains("rnd_share")) && p.contains("verifiers") {
            if let Ok(s) = unval::<Scalar>(v.pointer(&p).unwrap()) {
                sh.push(rm::lebytes(&s.v));
            }
        }
    }
    sh.sort();
    sh.dedup();
    sh.truncate(8);
    let mut out = vec![];
    for m in 1u32..1 << sh.len() {
        let s: BigUint = (0..sh.len()).filter(|i| m >> i & 1 == 1).map(|i| &sh[i]).sum();
        out.push(rm::sc(&rm::modl(&s)).to_vec());
    }
    out.retain(|s| searchable(s));
    out
}
/// no error tells a secret
fn mute<T>(what: &str, r: R<T>, sec: &[Vec<u8>]) -> Result<bool, Fail> {
    match r {
        Ok(_) => Ok(false),
        Err(e) => search(what, "error", &e, sec).map(|_| true),
    }
}
/// what a node answers to calls that come too early, twice or with something wrong
fn errors<D: Dkg>(net: &Net<D>, j: usize, w: Option<&W<D>>, extra: &[Vec<u8>]) -> Result<usize, Fail> {
    let v = val(&net.g[j]);
    let mut sec = secrets(&v);
    sec.extend(extra.iter().cloned());
    sec.extend(sums(&v));
    let what = format!("{} node", D::NAME);
    let mut n = 0;
    let mut g = net.g[j].clone();
    n += mute(&what, nopanic("dist_key_share", || D::key(&g))?, &sec)? as usize;
    if D::RABIN {
        n += mute(&what, nopanic("secret_commits", || D::secret_commits(&mut g))?, &sec)? as usize;
    }
    n += mute(&what, nopanic("deals", || D::deals(&mut g))?, &sec)? as usize;
    if let Some(w) = w {
        for _ in 0..2 {
            n += mute(&what, nopanic("delivery", || deliver::<D>(&mut g, w))?, &sec)? as usize;
        }
    }
    Ok(n)
}
/// messages with parts that are secret until they are sent
fn message_views<D: Dkg>(c: &Resume, step: usize, w: &W<D>) -> Result<(), Fail> {
    let sec = secrets(&w.value());
    let muts = &c.muts[step % c.muts.len()..][..1];
    fn whole<T: Debug + Display + Serialize + DeserializeOwned>(what: &str, x: &T, sec: &[Vec<u8>], muts: &[Mut]) -> Result<(), Fail> {
        hidden(what, x, sec)?;
        shown(what, x, sec)?;
        altered(what, x, sec, muts)?;
        Ok(())
    }
    match w {
        W::Deal(x) => whole("deal message", x, &sec, muts)?,
        W::Resp(x) => whole("response message", x, &sec, muts)?,
        W::Just(x) => whole("justification message", x, &sec, muts)?,
        W::Sc(x) => whole("commitments message", x, &sec, muts)?,
        W::Cc(x) => whole("complaint message", x, &sec, muts)?,
        W::Rc(x) => whole("reconstruction message", x, &sec, muts)?,
    }
    match w {
        W::Just(x) => {
            let (_, m) = D::un_just(x);
            let d = <D::V as Vss>::deal(&m.deal);
            hidden("deal", &d, &sec)?;
            shown("deal", &d, &sec)?;
            altered("deal", &d, &sec, muts)?;
        }
        W::Cc(x) => {
            hidden("complaint's deal", &x.deal, &sec)?;
            shown("complaint's deal", &x.deal, &sec)?;
        }
        _ => (),
    }
    Ok(())
}
fn states_run<D: Dkg>(c: &Resume, mut net: Net<D>) -> Res {
    let (mut n, mut errs) = (0, 0);
    let mut labels: BTreeSet<&str> = BTreeSet::new();
    let extra: Vec<Vec<u8>> = net.keys.iter().map(|k| k.v.to_vec()).collect();
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, ph: Phase| -> Result<(), Fail> {
        match ph {
            Phase::Deliver => {
                if let Some(bad) = wrong(c, net, j, w)? {
                    errs += errors(net, j, Some(&bad), &extra)?;
                    let _ = nopanic("delivery", || deliver::<D>(&mut net.g[j], &bad))?;
                    n += look(c, net, j, &extra)?;
                }
                if let Some(w) = w {
                    message_views(c, net.step, w)?;
                }
                // the node that just heard something, now and then
                let (mask, _) = c.at[net.step % c.at.len()];
                if mask % 4 == 1 {
                    n += look(c, net, j, &extra)?;
                    errs += errors(net, j, w, &extra)?;
                    labels.insert(w.map_or("", |w| w.name()));
                }
            }
            Phase::Shared => {
                for k in 0..net.g.len() {
                    n += look(c, net, k, &extra)?;
                    errs += errors(net, k, None, &extra)?;
                }
            }
            Phase::End => {
                for k in 0..net.g.len() {
                    if c.timeout.is_some() {
                        D::timeout(&mut net.g[k]);
                    }
                    n += look(c, net, k, &extra)?;
                    errs += errors(net, k, None, &extra)?;
                    if let Some((s, texts)) = nopanic("key share", || D::key_views(&net.g[k]))? {
                        for t in texts {
                            search(&format!("{} key share", D::NAME), "rendering", &t, &[s.v.to_vec()])?;
                        }
                        labels.insert("key");
                    }
                }
            }
        }
        Ok(())
    };
    run(&c.s, &mut net, &mut hook)?;
    let mut o = Obs::nt(n > 0).label_if(errs > 0, "errors").label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string());
    for l in labels {
        o = o.label(format!("before a {l}"));
    }
    Ok(o)
}
fn sharing_views(c: &Sharing) -> Res {
    if c.rabin {
        views_run::<Rab>(c)
    } else {
        views_run::<Ped>(c)
    }
}
fn views_run<V: Vss>(c: &Sharing) -> Res {
    let mut k = 0;
    let mut n = 0;
    let keys: Vec<Vec<u8>> = (0..c.n as u32).map(|i| key_of(c.seed, i).v.to_vec()).chain([key_of(c.seed, 100).v.to_vec(), key_of(c.seed, 101).v.to_vec()]).collect();
    let pubs: Vec<Point> = (0..c.n as u32).chain([100]).map(|i| base_mul(&key_of(c.seed, i))).collect();
    share::<V>(c, &mut |s| {
        k += 1;
        let (mask, _) = c.at[k % c.at.len()];
        if mask % 4 != 1 && k > 1 {
            return Ok(());
        }
        let mut sec = secrets(&val(&s.d));
        sec.extend(keys.iter().cloned());
        hidden(&format!("{} dealer", V::NAME), &s.d, &sec)?;
        altered(&format!("{} dealer", V::NAME), &s.d, &sec, &c.muts[k % c.muts.len()..][..1])?;
        for d in 0..c.n {
            let x = okr("plain", V::plain(&mut s.d, d))?.clone();
            hidden(&format!("{} deal", V::NAME), &x, &sec)?;
            let text = shown(&format!("{} deal", V::NAME), &x, &sec)?;
            altered(&format!("{} deal", V::NAME), &x, &sec, &c.muts)?;
            public(&format!("{} deal", V::NAME), &text, &V::mdeal(&x).commitments)?;
        }
        let text = shown(&format!("{} dealer", V::NAME), &s.d, &sec)?;
        public(&format!("{} dealer", V::NAME), &text, &pubs)?;
        for v in &s.v {
            hidden(&format!("{} verifier", V::NAME), v, &sec)?;
            altered(&format!("{} verifier", V::NAME), v, &sec, &c.muts[k % c.muts.len()..][..1])?;
            let text = shown(&format!("{} verifier", V::NAME), v, &sec)?;
            public(&format!("{} verifier", V::NAME), &text, &pubs)?;
        }
        // nor do errors
        let some: Vec<V::Deal> = (0..c.t - 1).map(|d| V::plain(&mut s.d, d).unwrap().clone()).collect();
        mute("recover_secret", V::recover(some, c.n, c.t), &sec)?;
        let one = V::plain(&mut s.d, 0).unwrap().clone();
        mute("recover_secret", V::recover(vec![one; c.t], c.n, c.t), &sec)?;
        mute("plaintext_deal", V::plain(&mut s.d, c.n).map(|_| ()), &sec)?;
        mute("encrypted_deal", V::encrypt(&s.d, c.n), &sec)?;
        for i in 0..c.n {
            let e = okr("encrypted_deal", V::encrypt(&s.d, i))?;
            let x = &s.v[(i + 1) % c.n];
            mute("decrypt_deal", V::decrypt(x, &e), &sec)?;
            mute("process_encrypted_deal", V::v_deal(&mut x.clone(), &e), &sec)?;
            let mut y = s.v[i].clone();
            for _ in 0..2 {
                mute("process_encrypted_deal", V::v_deal(&mut y, &e), &sec)?;
            }
        }
        n += 1;
        Ok(())
    })?;
    Ok(Obs::nt(n > 0).label(V::NAME))
}
fn c29() -> Prop {
    Prop {
        id: "C29",
        laws: vec![
            law(
                "values",
                1_500,
                150_000,
                "the secrets have enough entropy to be searched for",
                || {
                    (1usize..5).prop_flat_map(|n| {
                        (
                            prop::collection::vec(any_scalar(), 1..5),
                            (any::<u16>(), any::<u64>(), 1..=n, message()),
                            prop::collection::vec((any::<u8>(), any::<u16>()), 0..6),
                            any::<u8>(),
                            prop::collection::vec(mutation(), 0..8),
                        )
                            .prop_map(move |(s, (i, seed, t, msg), steps, how, muts)| Vals { s, i, seed, n, t, msg, steps, how, muts })
                    })
                },
                values,
            ),
            law(
                "key-generation",
                200,
                20_000,
                "states with secrets in them were rendered",
                || {
                    (scen(4), restarts(40), prop::option::weighted(0.3, any::<u8>()), prop_oneof![1 => Just(0u8), 1 => any::<u8>()], prop::collection::vec(mutation(), 1..40))
                        .prop_map(|(s, at, timeout, wrong, muts)| Resume { s, at, timeout, wrong, muts })
                },
                states,
            ),
            law(
                "sharing",
                300,
                30_000,
                "states with secrets in them were rendered",
                || {
                    (2usize..=4).prop_flat_map(|n| {
                        (
                            (any::<u64>(), any::<bool>(), 2..=n),
                            any::<u8>(),
                            prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
                            restarts(20),
                            prop::collection::vec(any::<u16>(), n),
                            any::<u8>(),
                            (prop_oneof![1 => Just(0u8), 1 => any::<u8>()], prop::collection::vec(mutation(), 1..40)),
                        )
                            .prop_map(move |((seed, rabin, t), complain, bad, at, order, timeout, (wrong, muts))| Sharing { seed, rabin, n, t, complain, bad, at, order, timeout, wrong, muts })
                    })
                },
                sharing_views,
            ),
        ],
        assumptions: vec!["a rendering reveals a secret if any eight consecutive bytes of it can be read off in hexadecimal, as a list of numbers, as a decimal number, in base64 or escaped, in either byte order"],
    }
}
fn main() {
    kv::cli::main(&[("C27", c27), ("C29", c29)]);
}
