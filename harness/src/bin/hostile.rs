//! C26 hostile bytes and messages.
use kv::det::{self, DSuite};
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::mutate::*;
use kv::net::*;
use kv::refmath as rm;
use kv::vssx::*;
use kv::ensure;
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{
    scalar_test_types::{FactoredScalar, SimpleCTScalar},
    Curve, Point, Scalar, SuiteEd25519,
};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use kyber_rs::share::poly::{self, PriPoly, PriShare, PubPoly, PubShare};
use kyber_rs::share::vss::{pedersen::vss as pv, rabin::vss as rv};
use kyber_rs::sign::{dss, eddsa, eddsa::EdDSA, schnorr};
use kyber_rs::util::key::Pair;
use kyber_rs::{Group, Point as _};
use num_bigint_dig::{BigInt, Sign};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::io::Cursor;

// ------------------------------------------------------------- bytes
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Edit {
    op: u8,
    at: u16,
    arg: u64,
}
fn edits(max: usize) -> impl Strategy<Value = Vec<Edit>> {
    let arg = prop_oneof![2 => any::<u64>(), 2 => 0u64..40, 1 => (0u32..64).prop_map(|k| 1u64 << k), 1 => (0u32..64).prop_map(|k| u64::MAX << k)];
    prop::collection::vec((any::<u8>(), any::<u16>(), arg).prop_map(|(op, at, arg)| Edit { op, at, arg }), 0..max)
}
/// changes bytes, lengths and numbers inside an encoding
fn edit(b: &mut Vec<u8>, e: &Edit) {
    let n = b.len();
    let at = if n == 0 { 0 } else { e.at as usize % n };
    match e.op % 9 {
        0 | 1 if n > 0 => b[at] ^= 1 << (e.arg % 8),
        2 if n > 0 => b[at] = e.arg as u8,
        3 => b.truncate(at),
        4 => b.extend((0..e.arg % 50).map(|k| (e.arg >> (k % 57)) as u8)),
        // eight bytes aligned as the lengths and numbers of bincode usually are
        5 if n >= 8 => {
            let p = (at / 4 * 4).min(n - 8);
            b[p..p + 8].copy_from_slice(&e.arg.to_le_bytes());
        }
        6 if n >= 8 => {
            let p = at.min(n - 8);
            b[p..p + 8].copy_from_slice(&e.arg.to_le_bytes());
        }
        7 if n > 0 => {
            b.remove(at);
        }
        _ => b.insert(at, e.arg as u8),
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
    /// which valid encoding is the start, none: `raw`
    base: Option<u16>,
    raw: Bs,
    edits: Vec<Edit>,
    text: String,
    s: Vec<B32>,
    point: (u8, u32),
}
fn raw() -> impl Strategy<Value = Raw> {
    (
        prop::option::weighted(0.8, any::<u16>()),
        bytes(400),
        edits(6),
        "[\\[\\]{}:,\"0-9a-z_. -]{0,60}",
        prop::collection::vec(any_scalar(), 1..4),
        (any::<u8>(), any::<u32>()),
    )
        .prop_map(|(base, raw, edits, text, s, point)| Raw { base, raw, edits, text, s, point })
}
/// valid encodings of everything a peer or a file may supply
fn encodings(c: &Raw) -> Result<Vec<(Vec<u8>, Value)>, Fail> {
    let s: Vec<Scalar> = c.s.iter().map(sc).collect();
    let p: Vec<Point> = s.iter().map(base_mul).chain([other_point(&base_mul(&s[0]), c.point.1, &[])]).collect();
    let share = PriShare { i: c.point.0 as usize, v: s[0].clone() };
    let bytes = |k: usize| c.s[k % c.s.len()].0.to_vec();
    let sig = sign(&key_of(1, 1), b"x");
    let deal = MDeal { session_id: bytes(0), sec_share: MShare { i: share.i, v: share.v.clone() }, rnd_share: None, t: p.len(), commitments: p.clone() };
    let mut rdeal = deal.clone();
    rdeal.rnd_share = Some(deal.sec_share.clone());
    let enc = MEnc { dhkey: p[0], signature: sig.clone(), nonce: vec![0; 12], cipher: c.raw.0.clone() };
    let resp = MResp { session_id: bytes(0), index: 1, ok: true, signature: sig.clone() };
    let pj = MJust { session_id: bytes(0), index: 1, deal: deal.clone(), signature: sig.clone() };
    let rj = MJust { deal: rdeal.clone(), ..pj.clone() };
    let cfg = fresh_config(&s[0], &p, 1);
    let d = okr("dealer", Ped::dealer(&s[0], &s[0], &[p[0], base_mul(&key_of(1, 2))], 2))?;
    let r = okr("dealer", Rab::dealer(&s[0], &s[0], &[p[0], base_mul(&key_of(1, 2))], 2))?;
    let g = PedD::new(&key_of(1, 2), &[base_mul(&key_of(1, 3)), base_mul(&key_of(1, 2))], 2);
    let h = RabD::new(&key_of(1, 2), &[base_mul(&key_of(1, 3)), base_mul(&key_of(1, 2))], 2);
    macro_rules! all {
        ($($x:expr),* $(,)?) => { vec![$((bincode::serialize(&$x).expect("encodes"), val(&$x))),*] };
    }
    let mut out = all!(
        s[0],
        p[0],
        share,
        PubShare { i: 3, v: p[0] },
        PubPoly::new(&suite(), Some(p[0]), &p),
        poly::coefficients_to_pri_poly(&suite(), &s),
        Pair { public: p[0], private: s[0].clone() },
        Ped::deal(&deal),
        Rab::deal(&rdeal),
        Ped::enc(&enc),
        Ped::resp(&resp),
        Ped::just(&pj),
        Rab::just(&rj),
        PedD::mk_deal(1, &enc, &sig),
        PedD::mk_resp(1, &resp),
        PedD::mk_just(1, &pj),
        RabD::mk_just(1, &rj),
        rd::SecretCommits::<DSuite> { index: 1, commitments: p.clone(), session_id: bytes(0), signature: sig.clone() },
        rd::ComplaintCommits::<DSuite> { index: 1, dealer_index: 0, deal: Rab::deal(&rdeal), signature: sig.clone() },
        rd::ReconstructCommits::<DSuite> { session_id: bytes(0), index: 1, dealer_index: 0, share: share.clone(), signature: sig.clone() },
        dss::PartialSig::<DSuite> { partial: share.clone(), session_id: bytes(0), signature: sig.clone() },
        PShare { commits: p.clone(), share: share.clone(), private_poly: s.clone() },
        cfg,
        d,
        r,
        Int::new_int_bytes(&bytes(0), &BigInt::from_bytes_be(Sign::Plus, &[1, 0, 0]), ByteOrder::LittleEndian),
    );
    if let (Ok(g), Ok(h)) = (g, h) {
        out.extend(all!(g, h));
    }
    let ed = okr("EdDSA", EdDSA::new(&mut det::ByteStream::new(&bytes(0))))?;
    out.push((okr("EdDSA", ed.marshal_binary())?, val(&ed)));
    out.push((s[0].v.to_vec(), val(&s[0])));
    out.push((penc(&p[p.len() - 1]), val(&p[0])));
    out.push((sig, Value::Null));
    det::reseed64(7);
    out.push((okr("encrypt", ecies::encrypt(suite(), base_mul(&key_of(1, 2)), &c.raw.0))?, Value::Null));
    Ok(out)
}
fn decode<T: Serialize + DeserializeOwned + Debug>(name: &str, b: &[u8], v: &Value, text: &str) -> Result<usize, Fail> {
    let mut n = 0;
    let mut look = |x: T| -> Result<(), Fail> {
        n += 1;
        nopanic(&format!("{name}:use"), || {
            let _ = format!("{x:?}");
            let y = val(&x);
            let _ = bincode::serialize(&x);
            drop(x);
            y
        })
        .map(|_| ())
    };
    if let Ok(x) = nopanic(&format!("{name}:bincode"), || bincode::deserialize::<T>(b))? {
        look(x)?;
    }
    if let Ok(x) = nopanic(&format!("{name}:bincode stream"), || bincode::deserialize_from::<_, T>(Cursor::new(b)))? {
        look(x)?;
    }
    if let Ok(x) = nopanic(&format!("{name}:json"), || serde_json::from_value::<T>(v.clone()))? {
        look(x)?;
    }
    if let Ok(x) = nopanic(&format!("{name}:json"), || serde_json::from_slice::<T>(b))? {
        look(x)?;
    }
    if let Ok(x) = nopanic(&format!("{name}:json"), || serde_json::from_str::<T>(text))? {
        look(x)?;
    }
    Ok(n)
}
fn unmarshal<T: BinaryUnmarshaler + Marshaling + Default>(name: &str, b: &[u8]) -> Result<usize, Fail> {
    let mut x = T::default();
    let a = nopanic(&format!("{name}:unmarshal_binary"), || x.unmarshal_binary(b).is_ok())?;
    let mut y = T::default();
    let c = nopanic(&format!("{name}:unmarshal_from"), || y.unmarshal_from(&mut Cursor::new(b)).is_ok())?;
    nopanic(&format!("{name}:marshal"), || x.marshal_binary().is_ok() && y.marshal_binary().is_ok())?;
    Ok(a as usize + c as usize)
}
fn decoders(c: &Raw) -> Res {
    let enc = encodings(c)?;
    let (mut b, mut v) = match c.base {
        Some(k) => enc[k as usize % enc.len()].clone(),
        None => (c.raw.0.clone(), Value::Null),
    };
    for e in &c.edits {
        edit(&mut b, e);
        v = alter(&v, &Mut { at: e.at, op: e.op, arg: e.arg as u32 }, &[]).0;
    }
    let t = &c.text;
    let mut n = 0;
    macro_rules! try_all {
        ($($t:ty),* $(,)?) => { $( n += decode::<$t>(stringify!($t), &b, &v, t)?; )* };
    }
    try_all!(
        Scalar, SimpleCTScalar, FactoredScalar, Point, Int, Curve, SuiteEd25519, ByteOrder,
        PriShare<Scalar>, PubShare<Point>, PriPoly<DSuite>, PubPoly<DSuite>, Pair<Point>, EdDSA<Curve>,
        pv::Dealer<DSuite>, pv::Verifier<DSuite>, pv::Aggregator<DSuite>, pv::Deal<DSuite>, pv::EncryptedDeal<Point>, pv::Response, pv::Justification<DSuite>,
        rv::Dealer<DSuite>, rv::Verifier<DSuite>, rv::Aggregator<DSuite>, rv::Deal<DSuite>, rv::EncryptedDeal<Point>, rv::Response, rv::Justification<DSuite>,
        PGen, RGen, PShare, rd::DistKeyShare<DSuite>, pd::Config<DSuite, det::DetReader>,
        pd::structs::Deal<Point>, pd::structs::Response, pd::structs::Justification<DSuite>,
        rd::Deal<Point>, rd::Response, rd::Justification<DSuite>, rd::SecretCommits<DSuite>, rd::ComplaintCommits<DSuite>, rd::ReconstructCommits<DSuite>,
        dss::PartialSig<DSuite>, dss::DSS<DSuite, PShare>, dss::DSS<DSuite, rd::DistKeyShare<DSuite>>,
    );
    n += unmarshal::<Scalar>("scalar", &b)?;
    n += unmarshal::<SimpleCTScalar>("SimpleCTScalar", &b)?;
    n += unmarshal::<FactoredScalar>("FactoredScalar", &b)?;
    n += unmarshal::<Point>("point", &b)?;
    let mut ed = EdDSA::<Curve>::default();
    n += nopanic("EdDSA:unmarshal_binary", || ed.unmarshal_binary(&b).is_ok())? as usize;
    nopanic("EdDSA:use", || (format!("{ed:?}"), ed.sign(b"m").is_ok(), ed.marshal_binary().is_ok()))?;
    // integers of any size and modulus
    let m = BigInt::from_bytes_be(Sign::Plus, &c.raw.0[..c.raw.0.len().min(40)]) + BigInt::from(1);
    for bo in [ByteOrder::LittleEndian, ByteOrder::BigEndian] {
        let mut x = Int::new_int(BigInt::from(0), m.clone());
        x.bo = bo;
        n += nopanic("int:unmarshal_binary", || x.unmarshal_binary(&b).is_ok())? as usize;
        n += nopanic("int:unmarshal_from", || x.unmarshal_from(&mut Cursor::new(&b)).is_ok())? as usize;
        for text in [t, &String::from_utf8_lossy(&b).into_owned()] {
            n += nopanic("int:set_string", || x.clone().set_string(text.clone(), String::new(), 2 + c.point.0 as i32 % 35).is_ok())? as usize;
        }
    }
    // whatever decodes as a point is one, and can be asked for embedded data
    let mut p = Point::default();
    if p.unmarshal_binary(&b[..b.len().min(32)]).is_ok() {
        nopanic("point:data", || p.data().is_ok())?;
        nopanic("point:use", || (format!("{p}"), suite().point().mul(&key_of(1, 9), Some(&p)), penc(&p)))?;
        for dlen in [0usize, 1, 29, 30, 64] {
            let _ = nopanic("point:embed", || suite().point().embed(Some(&b[..b.len().min(dlen)]), &mut det::DetStream))?;
        }
    }
    let pk = base_mul(&key_of(1, 1));
    let pb = penc(&pk);
    let mut ok = 0;
    for (what, k, msg, s) in [("signature", &pb[..], &b"x"[..], &b[..]), ("message", &pb, &b, &enc[enc.len() - 2].0), ("key", &b, b"x", &enc[enc.len() - 2].0)] {
        ok += nopanic(&format!("eddsa::verify_with_checks:{what}"), || eddsa::verify_with_checks(k, msg, s).is_ok())? as usize;
        if p.unmarshal_binary(k).is_ok() {
            nopanic(&format!("schnorr::verify:{what}"), || schnorr::verify(suite(), &p, msg, s).is_ok())?;
            nopanic(&format!("eddsa::verify:{what}"), || eddsa::verify(&p, msg, s).is_ok())?;
            nopanic(&format!("dss::verify:{what}"), || dss::verify(&p, msg, s).is_ok())?;
        }
    }
    n += nopanic("ecies::decrypt", || ecies::decrypt(suite(), key_of(1, 2), &b).is_ok())? as usize;
    let ctx = &c.raw.0;
    let a = okr("AEAD::new", AEAD::<DSuite>::new(pk, ctx))?;
    nopanic("AEAD::open", || a.open(None, &[0; 12], &b, Some(ctx)).is_ok())?;
    nopanic("AEAD::open", || a.open(Some(&mut vec![0; c.point.0 as usize]), &[0; 12], &b, None).is_ok())?;
    nopanic("aes_decrypt", || DSuite::aes_decrypt(&b, &[0; 12], &b, None).is_ok())?;
    // decrypting the bytes of a deal
    let v = okr("verifier", Ped::verifier(&key_of(1, 2), &pk, &[base_mul(&key_of(1, 2)), pk]))?;
    let w = okr("verifier", Rab::verifier(&key_of(1, 2), &pk, &[base_mul(&key_of(1, 2)), pk]))?;
    for (e, r) in [sealed(&key_of(1, 1), &val(&v), &b)?, (MEnc { cipher: b.clone(), ..sealed(&key_of(1, 1), &val(&v), &[])?.0 }, false)] {
        let _ = r;
        let r = nopanic("pedersen:decrypt_deal", || Ped::decrypt(&v, &Ped::enc(&e)))?;
        nopanic("pedersen:process_encrypted_deal", || Ped::v_deal(&mut v.clone(), &Ped::enc(&e)))?.ok();
        n += r.is_ok() as usize;
    }
    let (e, _) = sealed(&key_of(1, 1), &val(&w), &b)?;
    n += nopanic("rabin:decrypt_deal", || Rab::decrypt(&w, &Rab::enc(&e)))?.is_ok() as usize;
    nopanic("rabin:process_encrypted_deal", || Rab::v_deal(&mut w.clone(), &Rab::enc(&e)))?.ok();
    Ok(Obs::nt(!b.is_empty())
        .label(if c.base.is_none() { "arbitrary bytes" } else if c.edits.is_empty() { "valid encoding" } else { "altered encoding" })
        .label_if(n > 0 && !c.edits.is_empty(), "decodes nevertheless")
        .label_if(ok > 0, "verifies"))
}
/// bytes properly encrypted by a dealer to a verifier
fn sealed(dealer: &Scalar, verifier: &Value, plain: &[u8]) -> Result<(MEnc, bool), Fail> {
    let ctx: Vec<u8> = unval(&verifier["hkdf_context"]).map_err(|e| Fail { sig: "internal".into(), msg: e })?;
    let me: Point = unval(&verifier["pubb"]).map_err(|e| Fail { sig: "internal".into(), msg: e })?;
    seal_to(dealer, &me, &ctx, plain).map(|e| (e, true))
}
fn seal_to(dealer: &Scalar, me: &Point, ctx: &[u8], plain: &[u8]) -> Result<MEnc, Fail> {
    let eph = key_of(u64::from_le_bytes(det::det_bytes()), 77);
    let dhkey = base_mul(&eph);
    let a = okr("AEAD::new", AEAD::<DSuite>::new(suite().point().mul(&eph, Some(me)), ctx))?;
    let cipher = okr("seal", a.seal(None, &[0; 12], plain, Some(ctx)))?;
    Ok(MEnc { signature: sign(dealer, &penc(&dhkey)), dhkey, nonce: vec![0; 12], cipher })
}

// ------------------------------------------------------------- key generation under attack
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Evil {
    kind: u8,
    from: u16,
    to: u16,
    muts: Vec<Mut>,
    edits: Vec<Edit>,
    flags: u8,
}
fn evil() -> impl Strategy<Value = Evil> {
    (any::<u8>(), any::<u16>(), any::<u16>(), prop::collection::vec(mutation(), 0..4), edits(3), any::<u8>())
        .prop_map(|(kind, from, to, muts, edits, flags)| Evil { kind, from, to, muts, edits, flags })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Attack {
    s: Scen,
    evils: Vec<Evil>,
    every: u8,
    timeout: u8,
}
fn attack(c: &Attack) -> Res {
    match c.s.proto {
        Proto::Pedersen => attack_run::<PedD>(c, fresh(&c.s)?, fresh(&c.s)?),
        Proto::Rabin => attack_run::<RabD>(c, fresh(&c.s)?, fresh(&c.s)?),
        Proto::Reshare { .. } => attack_run::<PedD>(c, resharing(&c.s)?, resharing(&c.s)?),
    }
}
fn mutated(v: &Value, ms: &[Mut], pool: &[Point]) -> Value {
    let mut v = v.clone();
    for m in ms {
        v = alter(&v, m, pool).0;
    }
    v
}
/// a deal no honest dealer would make, properly encrypted and signed
fn evil_deal<D: Dkg>(net: &Net<D>, d: usize, j: usize, e: &Evil, pool: &[Point]) -> Result<Option<W<D>>, Fail> {
    let (Some(dx), Some(jx)) = (net.as_dealer[d], net.as_holder[j]) else { return Ok(None) };
    let mut vd = D::dealer_of(&net.g[d]);
    let vv = val(&vd);
    let ctx: Vec<u8> = unval(&vv["hkdf_context"]).unwrap_or_default();
    let Ok(plain) = <D::V as Vss>::plain(&mut vd, jx) else { return Ok(None) };
    let m = <D::V as Vss>::mdeal(plain);
    let v = mutated(&val(&m), &e.muts, pool);
    let mut bytes = match unval::<MDeal>(&v) {
        Ok(mut x) => {
            if e.flags & 1 == 1 {
                // consistent with itself
                let verifiers: Vec<Point> = unval(&vv["verifiers"]).unwrap_or_default();
                x.session_id = session_id(&base_mul(&net.keys[d]), &verifiers, &x.commitments, x.t);
            }
            match conv::<_, <D::V as Vss>::Deal>(&x) {
                Ok(x) => okr("deal", x.marshal_binary())?,
                Err(_) => return Ok(None),
            }
        }
        Err(_) => return Ok(None),
    };
    if e.flags & 6 == 6 {
        for x in &e.edits {
            edit(&mut bytes, x);
        }
    }
    let enc = seal_to(&net.keys[d], &base_mul(&net.keys[j]), &ctx, &bytes)?;
    let index = if e.flags & 56 == 56 { e.from as u32 } else { dx as u32 };
    Ok(Some(W::Deal(D::sign_deal(&D::mk_deal(index, &enc, &[]), &net.keys[d]))))
}
fn queries<D: Dkg>(g: &D::G) -> Result<(), Fail> {
    nopanic("queries", || {
        let _ = D::qual(g);
        for i in [0, 1, 7, u32::MAX, 1 << 31] {
            let _ = D::in_qual(g, i);
        }
        let _ = D::certified(g);
        let _ = D::key(g).is_ok();
    })?;
    nopanic("rendering", || (format!("{g:?}"), format!("{g}")))?;
    Ok(())
}
fn attack_run<D: Dkg>(c: &Attack, mut net: Net<D>, mut plain: Net<D>) -> Res {
    let mut labels: BTreeSet<String> = BTreeSet::new();
    let (mut hits, mut clean) = (0, true);
    net.lenient = true;
    let keys = net.keys.clone();
    let pool: Vec<Point> = keys.iter().map(base_mul).collect();
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, ph: Phase| -> Result<(), Fail> {
        if let Phase::Shared = ph {
            for k in 0..net.g.len() {
                if c.timeout >> (k % 8) & 1 == 1 && c.timeout & 1 == 1 {
                    clean = false;
                    nopanic("set_timeout", || D::timeout(&mut net.g[k]))?;
                }
                queries::<D>(&net.g[k])?;
            }
            return Ok(());
        }
        if w.is_some() && net.step % (1 + c.every as usize % 8) != 0 {
            return Ok(());
        }
        let total = net.g.len();
        let e = &c.evils[net.step % c.evils.len()];
        det::reseed64(net.step as u64 + 31);
        let bad = match (e.kind % 5, w) {
            (0, _) => evil_deal(net, e.from as usize % total, j, e, &pool)?,
            (1 | 2, Some(w)) => w.with(&mutated(&w.value(), &e.muts, &pool)).ok(),
            _ => {
                let w = &net.seen[e.from as usize % net.seen.len()];
                w.with(&mutated(&w.value(), &e.muts, &pool)).ok()
            }
        };
        let Some(mut bad) = bad else {
            labels.insert("undecodable".into());
            return Ok(());
        };
        // by its author, by somebody else, or as it was
        if e.kind % 5 != 0 {
            let by = match e.flags % 8 {
                0..=4 => net.author(&bad),
                5 => Some(e.from as usize % total),
                _ => None,
            };
            if let Some(k) = by {
                bad = nopanic("signing", || bad.resign(&keys[k]))?;
            }
        }
        let mut queue: Vec<(usize, W<D>)> = vec![(if e.flags & 64 == 0 { j } else { e.to as usize % total }, bad.clone())];
        if e.flags & 128 != 0 {
            queue.extend((0..total).map(|k| (k, bad.clone())));
        }
        let mut depth = 0;
        while let Some((to, m)) = queue.pop() {
            let before = net.g[to].clone();
            let got = nopanic(&format!("{} {}", D::NAME, m.name()), || deliver::<D>(&mut net.g[to], &m))?;
            clean &= before == net.g[to];
            hits += 1;
            labels.insert(format!("{}: {}", m.name(), if got.is_ok() { "accepted" } else { "rejected" }));
            queries::<D>(&net.g[to])?;
            depth += 1;
            if let (Ok(Some(out)), true) = (got, depth < 20) {
                queue.extend((0..total).map(|k| (k, out.clone())));
            }
        }
        Ok(())
    };
    run(&c.s, &mut net, &mut hook)?;
    for g in net.g.iter_mut() {
        queries::<D>(g)?;
        nopanic("set_timeout", || D::timeout(g))?;
        queries::<D>(g)?;
        let _ = nopanic("secret_commits", || D::secret_commits(g).is_ok())?;
        queries::<D>(g)?;
    }
    if clean {
        // nothing took effect: everything goes on as if it had not been sent
        run(&c.s, &mut plain, &mut |_: &mut Net<D>, _: usize, _: Option<&W<D>>, _: Phase| Ok(()))?;
        for g in plain.g.iter_mut() {
            D::timeout(g);
            let _ = D::secret_commits(g);
        }
        ensure!(net.ends() == plain.ends(), "outcome:rejected messages have an effect");
    }
    let mut o = Obs::nt(hits > 0).label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string()).label_if(clean, "all without effect").label_if(net.ends().iter().any(|e| e.1.is_ok()), "somebody finishes");
    for l in labels {
        o = o.label(l);
    }
    Ok(o)
}

// ------------------------------------------------------------- one dealer, its verifiers
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Vs {
    seed: u64,
    rabin: bool,
    n: usize,
    t: usize,
    evils: Vec<Evil>,
}
fn sharing(c: &Vs) -> Res {
    if c.rabin {
        sharing_run::<Rab>(c)
    } else {
        sharing_run::<Ped>(c)
    }
}
fn sharing_run<V: Vss>(c: &Vs) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let mut d = okr("dealer", V::dealer(&com.dlong, &com.outsider(9), &com.pubs, c.t))?;
    let honest = d.clone();
    let mut v = vec![];
    for k in &com.keys {
        v.push(okr("verifier", V::verifier(k, &com.dpub, &com.pubs))?);
    }
    let ctx: Vec<u8> = unval(&val(&d)["hkdf_context"]).unwrap_or_default();
    let encs = okr("encrypted_deals", V::encrypt_all(&d))?;
    let mut resps: Vec<MResp> = (0..c.n as u32).map(|i| MResp::new(&V::d_sid(&d), i, i % 2 == 0, &com.keys[i as usize])).collect();
    let m0 = V::mdeal(okr("plain", V::plain(&mut d, 0))?);
    let mut justs: Vec<MJust> = vec![V::make_just(&V::d_sid(&d), 0, &m0, &com.dlong)];
    let mut pool = com.pubs.clone();
    pool.extend(m0.commitments.iter().cloned());
    let mut deals: Vec<V::Deal> = vec![];
    let mut labels: BTreeSet<String> = BTreeSet::new();
    let mut hits = 0;
    for e in &c.evils {
        let to = e.to as usize % c.n;
        let k = e.from as usize % c.n;
        let signer = |author: usize| match e.flags % 8 {
            0..=4 => com.keys[author % c.n].clone(),
            5 => com.dlong.clone(),
            _ => com.keys[k].clone(),
        };
        hits += 1;
        match e.kind % 7 {
            // a deal: honest, with a strange content, or strange itself
            0 => {
                let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v[to], &encs[k]))?;
                if let Ok(r) = r {
                    resps.push(V::mresp(&r));
                    labels.insert("deal: accepted".into());
                }
            }
            1 => {
                let mut x = honest.clone();
                let m = V::mdeal(okr("plain", V::plain(&mut x, to))?);
                let Ok(mut m) = unval::<MDeal>(&mutated(&val(&m), &e.muts, &pool)) else { continue };
                if e.flags & 1 == 1 {
                    m.session_id = session_id(&com.dpub, &com.pubs, &m.commitments, m.t);
                }
                let Ok(x) = conv::<_, V::Deal>(&m) else { continue };
                let mut b = okr("deal", x.marshal_binary())?;
                if e.flags & 6 == 6 {
                    for x in &e.edits {
                        edit(&mut b, x);
                    }
                }
                deals.push(x);
                let enc = seal_to(&com.dlong, &com.pubs[to], &ctx, &b)?;
                let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v[to], &V::enc(&enc)))?;
                labels.insert(format!("hostile deal: {}", if r.is_ok() { "accepted" } else { "rejected" }));
                if let Ok(r) = r {
                    resps.push(V::mresp(&r));
                }
            }
            2 => {
                let mut m = V::menc(&encs[k]);
                if let Ok(x) = unval::<MEnc>(&mutated(&val(&m), &e.muts, &pool)) {
                    m = x;
                }
                if e.flags & 1 == 1 {
                    m.signature = sign(&com.dlong, &penc(&m.dhkey));
                }
                let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v[to], &V::enc(&m)))?;
                labels.insert(format!("altered deal: {}", if r.is_ok() { "accepted" } else { "rejected" }));
            }
            3 | 4 => {
                let mut r = resps[e.from as usize % resps.len()].clone();
                if e.kind % 7 == 4 {
                    if let Ok(x) = unval::<MResp>(&mutated(&val(&r), &e.muts, &pool)) {
                        r = x;
                    }
                    r.signature = if e.flags & 16 == 0 { sign(&signer(r.index as usize), &r.hash()) } else { r.signature };
                }
                let r = V::resp(&r);
                let j = nopanic("dealer:process_response", || V::d_resp(&mut d, &r))?;
                labels.insert(format!("dealer, response: {}", if j.is_ok() { "accepted" } else { "rejected" }));
                if let Ok(Some(j)) = j {
                    justs.push(V::mjust(&j));
                }
                let x = nopanic("verifier:process_response", || V::v_resp(&mut v[to], &r))?;
                labels.insert(format!("response: {}", if x.is_ok() { "accepted" } else { "rejected" }));
            }
            5 => {
                let mut j = justs[e.from as usize % justs.len()].clone();
                if let Ok(x) = unval::<MJust>(&mutated(&val(&j), &e.muts, &pool)) {
                    j = x;
                }
                if conv::<_, V::Deal>(&j.deal).is_err() {
                    continue;
                }
                if e.flags & 1 == 1 {
                    j = nopanic("hash", || V::make_just(&j.session_id, j.index, &j.deal, &com.dlong))?;
                }
                let x = nopanic("verifier:process_justification", || V::v_just(&mut v[to], &V::just(&j)))?;
                labels.insert(format!("justification: {}", if x.is_ok() { "accepted" } else { "rejected" }));
            }
            _ => {
                nopanic("set_timeout", || V::d_timeout(&mut d))?;
                if !val(&v[to])["aggregator"].is_null() {
                    nopanic("set_timeout", || V::v_timeout(&mut v[to]))?;
                }
            }
        }
        nopanic("queries", || (V::d_certified(&d), V::d_commits(&d), V::d_secret_commit(&d)))?;
        nopanic("queries", || V::v_getdeal(&v[to]))?;
        if !val(&v[to])["aggregator"].is_null() {
            nopanic("queries", || (V::v_certified(&v[to]), V::v_missing(&v[to])))?;
        }
        nopanic("rendering", || (format!("{}", v[to]), format!("{:?}", v[to]), format!("{d}"), format!("{d:?}")))?;
    }
    for x in v.iter() {
        deals.extend(V::v_getdeal(x));
    }
    nopanic("recover_secret", || V::recover(deals.clone(), c.n, c.t).is_ok())?;
    deals.reverse();
    nopanic("recover_secret", || V::recover(deals.clone(), c.n, c.t).is_ok())?;
    let mut o = Obs::nt(hits > 1).label(V::NAME);
    for l in labels {
        o = o.label(l);
    }
    Ok(o)
}

// ------------------------------------------------------------- shares and partial signatures
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sh {
    seed: u64,
    n: usize,
    t: usize,
    idx: Vec<(u64, B32)>,
    holes: Vec<u8>,
    evils: Vec<Evil>,
    msg: Bs,
}
fn shares(c: &Sh) -> Res {
    let mut a: Vec<Option<PriShare<Scalar>>> = c.idx.iter().map(|(i, v)| Some(PriShare { i: *i as usize, v: sc(v) })).collect();
    let mut b: Vec<Option<PubShare<Point>>> = c.idx.iter().map(|(i, v)| Some(PubShare { i: *i as usize, v: other_point(&base_mul(&sc(v)), *i as u32, &[]) })).collect();
    for h in &c.holes {
        let k = *h as usize % (a.len() + 1);
        a.insert(k, None);
        b.insert(k, None);
    }
    let g = suite();
    let mut done = 0;
    done += nopanic("recover_secret", || poly::recover_secret(g, &a, c.t, c.n).is_ok())? as usize;
    done += nopanic("recover_pri_poly", || poly::recover_pri_poly(&g, &a, c.t, c.n).is_ok())? as usize;
    done += nopanic("recover_commit", || poly::recover_commit(g, &b, c.t, c.n).is_ok())? as usize;
    done += nopanic("recover_pub_poly", || poly::recover_pub_poly(g, &b, c.t, c.n).is_ok())? as usize;
    let pts: Vec<Point> = b.iter().flatten().map(|s| s.v).collect();
    if !pts.is_empty() {
        let p = PubPoly::new(&g, None, &pts);
        let q = PubPoly::new(&g, Some(pts[0]), &pts[..1]);
        for s in a.iter().flatten() {
            nopanic("PubPoly:use", || (p.check(s), p.eval(s.i), p.add(&q).is_ok(), q.equal(&p).is_ok(), p.equal(&q).is_ok()))?;
        }
    }
    // partial signatures
    let n = c.n;
    let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(c.seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let long = old_shares(c.seed, n, c.t);
    let random = old_shares(c.seed + 1, n, c.t);
    det::reseed64(c.seed);
    let mut nodes = vec![];
    let mut parts = vec![];
    for i in 0..n {
        let mut d = okr("new_dss", dss::new_dss(suite(), &keys[i], &pubs, &long[i], &random[i], &c.msg.0, c.t))?;
        parts.push(okr("partial_sig", d.partial_sig())?);
        nodes.push(d);
    }
    let (mut bad, mut good) = (0, 0);
    for e in &c.evils {
        let to = e.to as usize % n;
        let mut p = parts[e.from as usize % n].clone();
        if let Ok(x) = unval(&mutated(&val(&p), &e.muts, &pubs)) {
            p = x;
        }
        let by = match e.flags % 4 {
            0 => p.partial.i % n,
            1 => e.kind as usize % n,
            _ => e.from as usize % n,
        };
        if e.flags & 8 == 0 {
            let h = nopanic("hash", || p.hash(suite()))?;
            if let Ok(h) = h {
                p.signature = sign(&keys[by], &h);
            }
        }
        let before = nodes[to].clone();
        let r = nopanic("process_partial_sig", || nodes[to].process_partial_sig(p))?;
        ensure!(r.is_ok() || before == nodes[to], "process_partial_sig:rejection has an effect");
        nopanic("queries", || (nodes[to].enough_partial_sig(), nodes[to].signature().is_ok()))?;
        nopanic("rendering", || (format!("{}", nodes[to]), format!("{:?}", nodes[to])))?;
        bad += r.is_err() as usize;
        good += r.is_ok() as usize;
    }
    // the honest ones are still welcome
    for to in 0..n {
        for (k, p) in parts.iter().enumerate() {
            let have = nodes[to].partials.iter().any(|q| q.as_ref().is_some_and(|q| q.i == k));
            let r = nopanic("process_partial_sig", || nodes[to].process_partial_sig(p.clone()))?;
            ensure!(r.is_ok() != have, "process_partial_sig:honest partial rejected", "{r:?}");
        }
        let r = nopanic("signature", || nodes[to].signature())?;
        ensure!(r.is_ok(), "signature:error with all partials", "{r:?}");
    }
    Ok(Obs::nt(c.idx.len() > 1 || bad + good > 0).label_if(done > 0, "recovers").label_if(bad > 0, "partials rejected").label_if(good > 0, "partials accepted"))
}

fn c26() -> Prop {
    Prop {
        id: "C26",
        laws: vec![
            law("decoders", 2_500, 400_000, "a non-empty input", raw, decoders),
            law(
                "key-generation",
                450,
                45_000,
                "some hostile message was delivered",
                || (scen(4), prop::collection::vec(evil(), 1..16), any::<u8>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(s, evils, every, timeout)| Attack { s, evils, every, timeout }),
                attack,
            ),
            law(
                "sharing",
                1_500,
                150_000,
                "more than one hostile message",
                || {
                    (2usize..=6).prop_flat_map(|n| {
                        (any::<u64>(), any::<bool>(), 2..=n, prop::collection::vec(evil(), 1..30)).prop_map(move |(seed, rabin, t, evils)| Vs { seed, rabin, n, t, evils })
                    })
                },
                sharing,
            ),
            law(
                "shares",
                1_500,
                150_000,
                "several shares or some hostile partial signature",
                || {
                    (1usize..=6).prop_flat_map(|n| {
                        let i = prop_oneof![4 => 0u64..8, 1 => any::<u64>(), 2 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64, (1 << 31) - 1])];
                        (
                            (any::<u64>(), 1..=n, message()),
                            prop::collection::vec((i, any_scalar()), 0..8),
                            prop::collection::vec(any::<u8>(), 0..3),
                            prop::collection::vec(evil(), 0..12),
                        )
                            .prop_map(move |((seed, t, msg), idx, holes, evils)| Sh { seed, n, t, idx, holes, evils, msg })
                    })
                },
                shares,
            ),
        ],
        assumptions: vec!["committees, thresholds and own keys are valid: only what a peer supplies is hostile", "a case that uses more than a minute of processor time counts as a hang"],
    }
}
fn main() {
    let _ = rm::l();
    kv::cli::main(&[("C26", c26)]);
}
