//! C08 RFC 8032 conformance, C09 Schnorr signatures, C10 strict verification
use kv::det::{reseed64, ByteStream, DSuite};
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::refmath::{Pt, Verdict};
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::sign::eddsa::{self, EdDSA};
use kyber_rs::sign::schnorr;
use kyber_rs::util::key::Pair;
use num_bigint_dig::BigUint;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn pt(b: &[u8]) -> Result<Point, Fail> {
    let mut p = Point::default();
    p.unmarshal_binary(b).map_err(|e| Fail { sig: "decode".into(), msg: format!("{e}") })?;
    Ok(p)
}
fn okr<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: format!("{what}:error"), msg: format!("{e}") })
}

// ------------------------------------------------------------------ C08
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rfc {
    seed: B32,
    tail: B32,
    m1: Bs,
    m2: Bs,
    route: u8,
}
fn seeds() -> impl Strategy<Value = B32> {
    prop_oneof![
        6 => rand32(),
        1 => any_scalar(),
        1 => prop::sample::select(vec![B32([0; 32]), B32([255; 32]), B32([1; 32])]),
    ]
}
fn rfc(i: &Rfc) -> Res {
    let mut buf = i.seed.0.to_vec();
    buf.extend_from_slice(&i.tail.0);
    let (secret, prefix, pk) = rm::ed_keygen(&i.seed.0);
    let key = match i.route % 3 {
        0 => {
            let mut k = EdDSA::<Curve>::default();
            nopanic("unmarshal", || okr("unmarshal", k.unmarshal_binary(&buf)))??;
            k
        }
        1 => {
            let mut s = ByteStream::new(&buf);
            okr("new", EdDSA::<Curve>::new(&mut s))?
        }
        _ => {
            // a used receiver takes on the new key completely
            let mut k = okr("new", EdDSA::<Curve>::new(&mut ByteStream::new(&i.tail.0)))?;
            okr("unmarshal", k.unmarshal_binary(&buf))?;
            k
        }
    };
    ensure_eq!(okr("pub", key.public.marshal_binary())?, pk.to_vec(), "public:wrong");
    ensure_eq!(rm::modl(&rm::lebytes(&key.secret.v)), rm::modl(&rm::lebytes(&secret)), "secret:wrong");
    ensure_eq!(key.prefix, prefix.to_vec(), "prefix:wrong");
    ensure_eq!(key.seed, i.seed.0.to_vec(), "seed:wrong");
    for (m, n) in [(&i.m1, "first"), (&i.m2, "second"), (&i.m1, "again")] {
        let sig = nopanic("sign", || okr("sign", key.sign(&m.0)))??;
        let want = rm::ed_sign(&i.seed.0, &m.0);
        ensure!(sig == want, "sign:wrong", "{n} message: got {} want {}", hex::encode(sig), hex::encode(want));
        okr("verify", eddsa::verify(&key.public, &m.0, &sig))?;
        okr("verify_with_checks", eddsa::verify_with_checks(&pk, &m.0, &sig))?;
    }
    // encoding
    let enc = okr("marshal", key.marshal_binary())?;
    let mut want = i.seed.0.to_vec();
    want.extend_from_slice(&pk);
    ensure_eq!(enc, want, "marshal:wrong");
    let mut back = EdDSA::<Curve>::default();
    okr("unmarshal", back.unmarshal_binary(&enc))?;
    ensure!(back == key, "roundtrip:differs");
    let back: EdDSA<Curve> = okr("bincode", bincode::deserialize(&okr("bincode", bincode::serialize(&key))?))?;
    ensure!(back == key, "bincode:differs");
    ensure_eq!(okr("sign", back.sign(&i.m2.0))?, rm::ed_sign(&i.seed.0, &i.m2.0), "bincode:signs differently");
    Ok(Obs::nt(i.m1 != i.m2)
        .label(format!("route {}", i.route % 3))
        .label_if(i.m1.0.is_empty() || i.m2.0.is_empty(), "empty message")
        .label_if(i.m1.0.len() > 128 || i.m2.0.len() > 128, "several hash blocks"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct KeyBytes {
    seed: B32,
    bytes: Bs,
}
fn key_bytes(i: &KeyBytes) -> Res {
    let key = okr("new", EdDSA::<Curve>::new(&mut ByteStream::new(&i.seed.0)))?;
    let mut k = okr("new", EdDSA::<Curve>::new(&mut ByteStream::new(&i.seed.0)))?;
    let r = nopanic("unmarshal", || k.unmarshal_binary(&i.bytes.0))?;
    if i.bytes.0.len() == 64 {
        ensure!(r.is_ok(), "unmarshal:rejects 64 bytes");
        let (_, _, pk) = rm::ed_keygen(&i.bytes.0[..32]);
        ensure_eq!(okr("pub", k.public.marshal_binary())?, pk.to_vec(), "unmarshal:public");
        ensure_eq!(okr("sign", k.sign(b"m"))?, rm::ed_sign(&i.bytes.0[..32], b"m"), "unmarshal:sign");
    } else {
        ensure!(r.is_err(), "unmarshal:accepts wrong length", "{} bytes", i.bytes.0.len());
        ensure!(k == key, "unmarshal:changed by rejected input");
    }
    Ok(Obs::nt(true).label(if i.bytes.0.len() == 64 { "64" } else { "other length" }))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PairCase {
    k1: B32,
    k2: B32,
    m1: Bs,
    m2: Bs,
}
fn nonce_of(x: &BigUint, pk: &[u8], m: &[u8], sig: &[u8]) -> BigUint {
    let h = rm::modl(&rm::lebytes(&rm::sha512(&[&sig[..32], pk, m])));
    rm::subl(&rm::lebytes(&sig[32..]), &(h * x))
}
fn pair_signer(i: &PairCase) -> Res {
    let (x1, x2) = (i.k1.modl(), i.k2.modl());
    if x1.is_zero() || x2.is_zero() {
        return Ok(Obs::nt(false).label("zero key"));
    }
    let mk = |k: &B32| -> Result<(EdDSA<Curve>, [u8; 32]), Fail> {
        let pk = Pt::base_mul(&k.modl()).encode();
        Ok((EdDSA::<Curve>::from(Pair { public: pt(&pk)?, private: Scalar { v: k.0 } }), pk))
    };
    let ((e1, p1), (e2, p2)) = (mk(&i.k1)?, mk(&i.k2)?);
    let mut nonces = vec![];
    for (e, x, pk, m) in [(&e1, &x1, &p1, &i.m1), (&e1, &x1, &p1, &i.m2), (&e2, &x2, &p2, &i.m1)] {
        let sig = nopanic("pair.sign", || okr("pair.sign", e.sign(&m.0)))??;
        let again = okr("pair.sign", e.sign(&m.0))?;
        ensure_eq!(sig.to_vec(), again.to_vec(), "pair.sign:not deterministic");
        ensure_eq!(rm::strict_verify(pk, &m.0, &sig), Verdict::Ok, "pair.sign:invalid");
        okr("pair.verify", eddsa::verify(&e.public, &m.0, &sig))?;
        let r = nonce_of(x, pk, &m.0, &sig);
        ensure_eq!(Pt::base_mul(&r).encode().to_vec(), sig[..32].to_vec(), "pair.nonce:not the discrete log of R");
        // nonces nobody without the key may be able to compute
        for (what, guess) in [
            ("hash of the message", rm::sha512(&[&m.0])),
            ("hash of public key and message", rm::sha512(&[pk, &m.0])),
            ("hash of zeroes and message", rm::sha512(&[&[0u8; 32], &m.0])),
            ("hash of the public key's hash and message", rm::sha512(&[&rm::sha512(&[pk])[32..], &m.0])),
            ("hash of the empty seed's prefix and message", rm::sha512(&[&rm::sha512(&[])[32..], &m.0])),
        ] {
            ensure!(r != rm::modl(&rm::lebytes(&guess)), "pair.nonce:public", "the nonce is the {what}");
        }
        ensure!(!r.is_zero(), "pair.nonce:zero");
        nonces.push(r);
    }
    if i.m1 != i.m2 {
        ensure!(nonces[0] != nonces[1], "pair.nonce:ignores the message");
    }
    if x1 != x2 {
        ensure!(nonces[0] != nonces[2], "pair.nonce:ignores the key");
    }
    // no seed, no encoding: an error at most, never a crash
    let _ = nopanic("pair.marshal", || e1.marshal_binary())?;
    Ok(Obs::nt(i.m1 != i.m2 && x1 != x2))
}

fn c08() -> Prop {
    Prop {
        id: "C08",
        laws: vec![
            law("rfc8032", 3500, 120_000, "two different messages",
                || (seeds(), shaped32(), message(), message(), any::<u8>()).prop_map(|(seed, tail, m1, m2, route)| Rfc { seed, tail, m1, m2, route }), rfc),
            law("key_bytes", 2000, 40_000, "every case",
                || (rand32(), prop_oneof![2 => bytes_n(64..=64), 1 => bytes(130), 1 => bytes_n(60..=68)]).prop_map(|(seed, bytes)| KeyBytes { seed, bytes }), key_bytes),
            law("pair_signer", 1500, 40_000, "different keys and different messages",
                || (prop_oneof![key32(), any_scalar()], key32(), message(), message()).prop_map(|(k1, k2, m1, m2)| PairCase { k1, k2, m1, m2 }), pair_signer),
        ],
        assumptions: vec!["num-bigint-dig, sha2 correct (reference checked against RFC 8032 vectors)"],
    }
}

// ------------------------------------------------------------------ C09
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sch {
    key: B32,
    m1: Bs,
    m2: Bs,
    seed: u64,
    real: bool,
}
fn sch(i: &Sch) -> Res {
    let x = i.key.modl();
    if x.is_zero() {
        return Ok(Obs::nt(false).label("zero key"));
    }
    let sk = Scalar { v: i.key.0 };
    let pk = Pt::base_mul(&x).encode();
    let public = pt(&pk)?;
    let real = SuiteEd25519::new_blake3_sha256_ed25519();
    let det = DSuite {};
    let mut nonces: Vec<(BigUint, Vec<u8>)> = vec![];
    reseed64(i.seed);
    for (n, m) in [&i.m1, &i.m2, &i.m1].into_iter().enumerate() {
        if n == 2 && !i.real {
            // a different stream of randomness
            reseed64(i.seed ^ 0x5555);
        }
        let sig = nopanic("sign", || okr("sign", if i.real { schnorr::sign(&real, &sk, &m.0) } else { schnorr::sign(&det, &sk, &m.0) }))??;
        ensure_eq!(sig.len(), 64, "sign:length");
        ensure_eq!(rm::strict_verify(&pk, &m.0, &sig), Verdict::Ok, "sign:invalid");
        if i.real {
            okr("schnorr.verify", schnorr::verify(real, &public, &m.0, &sig))?;
        } else {
            okr("schnorr.verify", schnorr::verify(det, &public, &m.0, &sig))?;
        }
        okr("eddsa.verify", eddsa::verify(&public, &m.0, &sig))?;
        okr("eddsa.verify_with_checks", eddsa::verify_with_checks(&pk, &m.0, &sig))?;
        let r = nonce_of(&x, &pk, &m.0, &sig);
        ensure_eq!(Pt::base_mul(&r).encode().to_vec(), sig[..32].to_vec(), "nonce:not the discrete log of R");
        ensure!(r > BigUint::from(1u64 << 32), "nonce:tiny");
        for (k, (o, _)) in nonces.iter().enumerate() {
            ensure!(*o != r, "nonce:reused", "signatures {k} and {n}");
        }
        nonces.push((r, sig));
    }
    if !i.real {
        // the same randomness gives the same signature
        reseed64(i.seed);
        let sig = okr("sign", schnorr::sign(&det, &sk, &i.m1.0))?;
        ensure_eq!(sig, nonces[0].1, "sign:not a function of key, message and stream");
    }
    Ok(Obs::nt(i.m1 != i.m2).label(if i.real { "suite" } else { "deterministic stream" }).label_if(i.key.big() >= *rm::l(), "unreduced key"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct EdAsSch {
    seed: B32,
    m: Bs,
}
fn ed_as_sch(i: &EdAsSch) -> Res {
    let key = okr("new", EdDSA::<Curve>::new(&mut ByteStream::new(&i.seed.0)))?;
    let sig = okr("sign", key.sign(&i.m.0))?;
    okr("schnorr.verify", schnorr::verify(SuiteEd25519::new_blake3_sha256_ed25519(), &key.public, &i.m.0, &sig))?;
    okr("schnorr.verify", schnorr::verify(Curve::new(), &key.public, &i.m.0, &sig))?;
    // and a Schnorr signature with the EdDSA private key
    reseed64(rm::lebytes(&i.seed.0[..8]).to_string().parse().unwrap_or(1));
    let s2 = okr("sign", schnorr::sign(&DSuite {}, &key.secret, &i.m.0))?;
    okr("eddsa.verify", eddsa::verify(&key.public, &i.m.0, &s2))?;
    Ok(Obs::nt(!i.m.0.is_empty()))
}
fn c09() -> Prop {
    Prop {
        id: "C09",
        laws: vec![
            law("schnorr", 4000, 120_000, "two different messages",
                || (prop_oneof![2 => key32(), 1 => any_scalar()], message(), message(), any::<u64>(), prop::bool::weighted(0.3))
                    .prop_map(|(key, m1, m2, seed, real)| Sch { key, m1, m2, seed, real }), sch),
            law("eddsa_under_schnorr", 3000, 60_000, "non-empty message",
                || (seeds(), message()).prop_map(|(seed, m)| EdAsSch { seed, m }), ed_as_sch),
        ],
        assumptions: vec!["num-bigint-dig, sha2 correct", "key holders have a private key that is not zero modulo the group order"],
    }
}

// ------------------------------------------------------------------ C10
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Mut {
    FlipMsg(u16, u8),
    AppendMsg(u8),
    TruncMsg,
    FlipSig(u8, u8),
    SetSig(u8, u8),
    FlipPk(u8, u8),
    AddL(u8),
    AddConstS(u8),
    NegS,
    NegR,
    NegA,
    AddTorsionR(u8),
    AddTorsionA(u8),
    OtherKey(B32),
    SigLen(Bs),
    SigCut(u8),
    SigGrow(Bs),
    SigTwice,
    SigPrefixed(u8),
    PkCut(u8),
    PkGrow(u8),
    RandomSig(B32, B32),
    PkBytes(B32),
    RBytes(B32),
    SBytes(B32),
    SwapRS,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Base {
    /// signature by a key holder
    Honest { key: B32, nonce: B32 },
    /// public key a B + torsion point, signed so that the equation holds (h kills the torsion part)
    MixedKey { key: B32, nonce: B32, t: u8 },
    /// small-order public key and matching signature
    SmallKey { nonce: B32, t: u8 },
    /// R is a torsion point, the key has a torsion component too (and only that, if `key` is unused)
    SmallRMixedKey { key: B32, t: u8, u: u8, pure: bool },
    /// R is the identity, S = h a
    SmallR { key: B32 },
    /// R = r B + torsion
    MixedR { key: B32, nonce: B32, t: u8 },
    /// key a B + T with R = r B - h T: cofactorless equation holds although both are of mixed order
    MixedBoth { key: B32, nonce: B32, t: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ver {
    base: Base,
    msg: Bs,
    /// alternative encodings of pk and R: add p to y where it fits, flip sign where x = 0
    alias: u8,
    muts: Vec<Mut>,
}
fn tors(t: u8) -> Pt {
    rm::c().torsion[t as usize % 8].clone()
}
fn chal(r: &[u8], a: &[u8], m: &[u8]) -> BigUint {
    rm::modl(&rm::lebytes(&rm::sha512(&[r, a, m])))
}
fn join(r: &[u8], s: &BigUint) -> Vec<u8> {
    let mut v = r.to_vec();
    v.extend_from_slice(&rm::sc(s));
    v
}
/// (public key, message, signature)
fn build(b: &Base, msg: &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    match b {
        Base::Honest { key, nonce } => {
            let pk = Pt::base_mul(&key.modl()).encode();
            let s = rm::sig_with_nonce(&key.modl(), &nonce.modl(), &pk, msg);
            (pk.to_vec(), msg.to_vec(), s.to_vec())
        }
        Base::MixedKey { key, nonce, t } => {
            let a = Pt::base_mul(&key.modl()).add(&tors(*t)).encode();
            let r = Pt::base_mul(&nonce.modl()).encode();
            // look for a message whose challenge kills the torsion component
            let mut m = msg.to_vec();
            for k in 0..64u8 {
                m = msg.to_vec();
                m.push(k);
                if tors(*t).mul(&chal(&r, &a, &m)).is_id() {
                    break;
                }
            }
            let h = chal(&r, &a, &m);
            let s = nonce.modl() + h * key.modl();
            (a.to_vec(), m, join(&r, &s))
        }
        Base::SmallKey { nonce, t } => {
            let a = tors(*t).encode();
            let r = Pt::base_mul(&nonce.modl()).encode();
            let mut m = msg.to_vec();
            for k in 0..64u8 {
                m = msg.to_vec();
                m.push(k);
                if tors(*t).mul(&chal(&r, &a, &m)).is_id() {
                    break;
                }
            }
            (a.to_vec(), m, join(&r, &nonce.modl()))
        }
        Base::SmallRMixedKey { key, t, u, pure } => {
            let x = if *pure { BigUint::zero() } else { key.modl() };
            let a = Pt::base_mul(&x).add(&tors(*t)).encode();
            let r = tors(*u).encode();
            let mut m = msg.to_vec();
            for k in 0..64u8 {
                m = msg.to_vec();
                m.push(k);
                if tors(*u).add(&tors(*t).mul(&chal(&r, &a, &m))).is_id() {
                    break;
                }
            }
            let s = chal(&r, &a, &m) * x;
            (a.to_vec(), m, join(&r, &s))
        }
        Base::SmallR { key } => {
            let a = Pt::base_mul(&key.modl()).encode();
            let r = Pt::id().encode();
            let s = chal(&r, &a, msg) * key.modl();
            (a.to_vec(), msg.to_vec(), join(&r, &s))
        }
        Base::MixedR { key, nonce, t } => {
            let a = Pt::base_mul(&key.modl()).encode();
            let r = Pt::base_mul(&nonce.modl()).add(&tors(*t)).encode();
            let s = nonce.modl() + chal(&r, &a, msg) * key.modl();
            (a.to_vec(), msg.to_vec(), join(&r, &s))
        }
        Base::MixedBoth { key, nonce, t } => {
            // R = rB - jT for a guessed j; search a message with h = j (mod 8)
            let a = Pt::base_mul(&key.modl()).add(&tors(*t)).encode();
            let j = nonce.0[0] as u32 % 8;
            let r = Pt::base_mul(&nonce.modl()).sub(&tors(*t).mul(&BigUint::from(j))).encode();
            let mut m = msg.to_vec();
            for k in 0..64u8 {
                m = msg.to_vec();
                m.push(k);
                if tors(*t).mul(&chal(&r, &a, &m)) == tors(*t).mul(&BigUint::from(j)) {
                    break;
                }
            }
            let s = nonce.modl() + chal(&r, &a, &m) * key.modl();
            (a.to_vec(), m, join(&r, &s))
        }
    }
}
/// another encoding of the same point, when there is one
fn alias(b: &mut [u8], how: u8) -> bool {
    if b.len() != 32 || how == 0 {
        return false;
    }
    let Some(p) = Pt::decode(b) else { return false };
    let (x, y) = p.affine();
    let mut done = false;
    if how & 1 == 1 {
        let y2 = &y + &rm::c().p;
        if y2.bits() <= 255 {
            let s = b[31] & 0x80;
            b.copy_from_slice(&rm::le32(&y2));
            b[31] |= s;
            done = true;
        }
    }
    if how & 2 == 2 && x.is_zero() {
        b[31] ^= 0x80;
        done = true;
    }
    done
}
fn mutate(m: &Mut, pk: &mut Vec<u8>, msg: &mut Vec<u8>, sig: &mut Vec<u8>) {
    let addpt = |b: &mut [u8], t: &Pt| {
        if let Some(p) = Pt::decode(b) {
            b.copy_from_slice(&p.add(t).encode());
        }
    };
    let ok = sig.len() == 64;
    match m {
        Mut::FlipMsg(i, b) if !msg.is_empty() => {
            let n = msg.len();
            msg[*i as usize % n] ^= 1 << (b % 8)
        }
        Mut::AppendMsg(b) => msg.push(*b),
        Mut::TruncMsg => {
            msg.pop();
        }
        Mut::FlipSig(i, b) if !sig.is_empty() => {
            let n = sig.len();
            sig[*i as usize % n] ^= 1 << (b % 8)
        }
        Mut::SetSig(i, b) if !sig.is_empty() => {
            let n = sig.len();
            sig[*i as usize % n] = *b
        }
        Mut::FlipPk(i, b) if !pk.is_empty() => {
            let n = pk.len();
            pk[*i as usize % n] ^= 1 << (b % 8)
        }
        Mut::AddL(k) if ok => {
            let s = rm::lebytes(&sig[32..]) + rm::l() * (*k as u32 % 16);
            if s.bits() <= 256 {
                sig[32..].copy_from_slice(&rm::le32(&s));
            }
        }
        Mut::AddConstS(k) if ok => {
            let s = rm::modl(&(rm::lebytes(&sig[32..]) + *k as u32));
            sig[32..].copy_from_slice(&rm::le32(&s));
        }
        Mut::NegS if ok => {
            let s = rm::subl(&BigUint::zero(), &rm::modl(&rm::lebytes(&sig[32..])));
            sig[32..].copy_from_slice(&rm::le32(&s));
        }
        Mut::NegR if ok => sig[31] ^= 0x80,
        Mut::NegA if pk.len() == 32 => pk[31] ^= 0x80,
        Mut::AddTorsionR(t) if ok => addpt(&mut sig[..32], &tors(*t)),
        Mut::AddTorsionA(t) if pk.len() == 32 => addpt(pk, &tors(*t)),
        Mut::OtherKey(k) => *pk = Pt::base_mul(&k.modl()).encode().to_vec(),
        Mut::SigLen(b) => *sig = b.0.clone(),
        Mut::SigCut(n) => sig.truncate(sig.len().saturating_sub(*n as usize % 65)),
        Mut::SigGrow(b) => sig.extend_from_slice(&b.0),
        Mut::SigTwice => sig.extend_from_within(..),
        Mut::SigPrefixed(b) => sig.insert(0, *b),
        Mut::PkCut(n) => pk.truncate(pk.len().saturating_sub(*n as usize % 33)),
        Mut::PkGrow(b) => pk.push(*b),
        Mut::RandomSig(a, b) => {
            *sig = a.0.to_vec();
            sig.extend_from_slice(&rm::sc(&b.modl()));
        }
        Mut::PkBytes(b) => *pk = b.0.to_vec(),
        Mut::RBytes(b) if ok => sig[..32].copy_from_slice(&b.0),
        Mut::SBytes(b) if ok => sig[32..].copy_from_slice(&b.0),
        Mut::SwapRS if ok => sig.rotate_left(32),
        _ => {}
    }
}
fn ver(i: &Ver) -> Res {
    let (mut pk, mut msg, mut sig) = build(&i.base, &i.msg.0);
    let honest = (pk.clone(), msg.clone(), sig.clone());
    let al = alias(&mut pk, i.alias & 3) | alias(&mut sig[..32], i.alias >> 2 & 3);
    for m in &i.muts {
        mutate(m, &mut pk, &mut msg, &mut sig);
    }
    let want = rm::strict_verify(&pk, &msg, &sig);
    let got = nopanic("eddsa.verify_with_checks", || eddsa::verify_with_checks(&pk, &msg, &sig))?;
    ensure!(got.is_ok() == (want == Verdict::Ok), format!("eddsa.verify_with_checks:{}", if got.is_ok() { "accepts" } else { "rejects" }), "{got:?}, strict rules say {want:?}; pk {} msg {} sig {}", hex::encode(&pk), hex::encode(&msg), hex::encode(&sig));
    // verifiers that take a point
    let mut p = Point::default();
    if pk.len() == 32 && p.unmarshal_binary(&pk).is_ok() {
        let canon = Pt::decode(&pk).map(|p| p.encode());
        ensure!(canon.is_some(), "decode:accepts");
        let want = rm::strict_verify(&canon.unwrap(), &msg, &sig);
        let g1 = nopanic("eddsa.verify", || eddsa::verify(&p, &msg, &sig))?;
        ensure!(g1.is_ok() == (want == Verdict::Ok), format!("eddsa.verify:{}", if g1.is_ok() { "accepts" } else { "rejects" }), "{g1:?}, strict rules say {want:?}; pk {} sig {}", hex::encode(&pk), hex::encode(&sig));
        let g2 = nopanic("schnorr.verify", || schnorr::verify(SuiteEd25519::new_blake3_sha256_ed25519(), &p, &msg, &sig))?;
        ensure!(g2.is_ok() == (want == Verdict::Ok), format!("schnorr.verify:{}", if g2.is_ok() { "accepts" } else { "rejects" }), "{g2:?}, strict rules say {want:?}; pk {} sig {}", hex::encode(&pk), hex::encode(&sig));
    }
    // anything but the signed triple fails, when the key has an ordinary owner
    let changed = (pk.clone(), msg.clone(), sig.clone()) != honest;
    if changed && matches!(i.base, Base::Honest { .. }) && got.is_ok() {
        return fail("altered:accepted", format!("muts {:?}", i.muts));
    }
    let b = match i.base {
        Base::Honest { .. } => "honest",
        Base::MixedKey { .. } => "mixed-order key",
        Base::SmallKey { .. } => "small-order key",
        Base::SmallR { .. } => "small-order R",
        Base::SmallRMixedKey { .. } => "small-order R and mixed-order key",
        Base::MixedR { .. } => "mixed-order R",
        Base::MixedBoth { .. } => "mixed-order key and R",
    };
    Ok(Obs::nt(changed || !matches!(i.base, Base::Honest { .. })).label(format!("verdict {want:?}")).label(b).label_if(al, "aliased encoding"))
}
fn muts() -> impl Strategy<Value = Mut> {
    let ys: Vec<B32> = {
        // y around p, 0, 1 and their sign-bit twins
        let p = &rm::c().p;
        let mut v = vec![];
        for d in 0u32..20 {
            for b in [rm::le32(&BigUint::from(d)), rm::le32(&(p + d)), rm::le32(&(p - (d + 1)))] {
                if d >= 19 && rm::lebytes(&b).bits() > 255 {
                    continue;
                }
                v.push(B32(b));
                let mut c = b;
                c[31] |= 0x80;
                v.push(B32(c));
            }
        }
        for t in rm::c().torsion.iter() {
            v.push(B32(t.encode()));
        }
        v
    };
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::FlipMsg(a, b)),
        1 => any::<u8>().prop_map(Mut::AppendMsg),
        1 => Just(Mut::TruncMsg),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::FlipSig(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::SetSig(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::FlipPk(a, b)),
        4 => (1u8..16).prop_map(Mut::AddL),
        1 => (1u8..=255).prop_map(Mut::AddConstS),
        1 => Just(Mut::NegS),
        1 => Just(Mut::NegR),
        1 => Just(Mut::NegA),
        2 => (1u8..8).prop_map(Mut::AddTorsionR),
        2 => (1u8..8).prop_map(Mut::AddTorsionA),
        2 => key32().prop_map(Mut::OtherKey),
        2 => bytes(130).prop_map(Mut::SigLen),
        2 => bytes_n(1..=70).prop_map(Mut::SigGrow),
        1 => Just(Mut::SigTwice),
        1 => any::<u8>().prop_map(Mut::SigPrefixed),
        2 => (1u8..65).prop_map(Mut::SigCut),
        1 => (1u8..33).prop_map(Mut::PkCut),
        1 => any::<u8>().prop_map(Mut::PkGrow),
        1 => (rand32(), any_scalar()).prop_map(|(a, b)| Mut::RandomSig(a, b)),
        1 => prop_oneof![rand32(), prop::sample::select(ys.clone())].prop_map(Mut::PkBytes),
        2 => prop_oneof![rand32(), prop::sample::select(ys)].prop_map(Mut::RBytes),
        2 => any_scalar().prop_map(Mut::SBytes),
        1 => Just(Mut::SwapRS),
    ]
}
fn bases() -> impl Strategy<Value = Base> {
    prop_oneof![
        6 => (key32(), key32()).prop_map(|(key, nonce)| Base::Honest { key, nonce }),
        1 => (nz_scalar(), nz_scalar()).prop_map(|(key, nonce)| Base::Honest { key, nonce }),
        2 => (key32(), key32(), any::<u8>()).prop_map(|(key, nonce, t)| Base::MixedKey { key, nonce, t }),
        2 => (key32(), any::<u8>()).prop_map(|(nonce, t)| Base::SmallKey { nonce, t }),
        2 => key32().prop_map(|key| Base::SmallR { key }),
        2 => (key32(), 1u8..8, 0u8..8, prop::bool::weighted(0.2)).prop_map(|(key, t, u, pure)| Base::SmallRMixedKey { key, t, u, pure }),
        1 => (key32(), key32(), any::<u8>()).prop_map(|(key, nonce, t)| Base::MixedR { key, nonce, t }),
        1 => (key32(), key32(), any::<u8>()).prop_map(|(key, nonce, t)| Base::MixedBoth { key, nonce, t }),
    ]
}
fn vers() -> impl Strategy<Value = Ver> {
    (bases(), message(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![1 => Just(0usize), 4 => Just(1), 1 => Just(2)])
        .prop_flat_map(|(b, m, a, n)| (Just(b), Just(m), Just(a), prop::collection::vec(muts(), n)))
        .prop_map(|(base, msg, alias, muts)| Ver { base, msg, alias, muts })
}
/// every single-bit change of an honest triple is rejected
#[derive(Debug, Clone, Serialize, Deserialize)]
struct AllBits {
    key: B32,
    nonce: B32,
    msg: Bs,
}
fn all_bits(i: &AllBits) -> Res {
    let (pk, msg, sig) = build(&Base::Honest { key: i.key, nonce: i.nonce }, &i.msg.0);
    okr("honest", eddsa::verify_with_checks(&pk, &msg, &sig))?;
    let p = pt(&pk)?;
    let g = SuiteEd25519::new_blake3_sha256_ed25519();
    okr("honest", schnorr::verify(g, &p, &msg, &sig))?;
    let mut n = 0;
    for k in 0..512 {
        let mut s = sig.clone();
        s[k / 8] ^= 1 << (k % 8);
        ensure!(eddsa::verify_with_checks(&pk, &msg, &s).is_err(), "bit:sig", "eddsa accepts signature bit {k} flipped");
        ensure!(schnorr::verify(g, &p, &msg, &s).is_err(), "bit:sig", "schnorr accepts signature bit {k} flipped");
        n += 1;
    }
    for k in 0..256 {
        let mut q = pk.clone();
        q[k / 8] ^= 1 << (k % 8);
        ensure!(eddsa::verify_with_checks(&q, &msg, &sig).is_err(), "bit:pk", "eddsa accepts key bit {k} flipped");
        n += 1;
    }
    for k in 0..msg.len() * 8 {
        let mut m = msg.clone();
        m[k / 8] ^= 1 << (k % 8);
        ensure!(eddsa::verify_with_checks(&pk, &m, &sig).is_err(), "bit:msg", "eddsa accepts message bit {k} flipped");
        ensure!(schnorr::verify(g, &p, &m, &sig).is_err(), "bit:msg", "schnorr accepts message bit {k} flipped");
        n += 1;
    }
    for len in 0..64 {
        ensure!(nopanic("short", || eddsa::verify_with_checks(&pk, &msg, &sig[..len]))?.is_err(), "short:sig");
        ensure!(nopanic("short", || schnorr::verify(g, &p, &msg, &sig[..len]))?.is_err(), "short:sig");
    }
    // nothing may follow
    for len in 1..=70usize {
        let mut s = sig.clone();
        s.extend((0..len).map(|k| if i.nonce.0[0] & 1 == 0 { 0 } else { sig[k % 64] }));
        ensure!(nopanic("long", || eddsa::verify_with_checks(&pk, &msg, &s))?.is_err(), "long:sig", "eddsa accepts {len} more bytes");
        ensure!(nopanic("long", || eddsa::verify(&p, &msg, &s))?.is_err(), "long:sig", "eddsa accepts {len} more bytes");
        ensure!(nopanic("long", || schnorr::verify(g, &p, &msg, &s))?.is_err(), "long:sig", "schnorr accepts {len} more bytes");
        let mut q = pk.clone();
        q.extend_from_slice(&s[64..]);
        ensure!(nopanic("long", || eddsa::verify_with_checks(&q, &msg, &sig))?.is_err(), "long:pk", "eddsa accepts a key with {len} more bytes");
    }
    Ok(Obs::nt(n > 768))
}
fn c10() -> Prop {
    Prop {
        id: "C10",
        laws: vec![
            law("strict_rules", 8_000, 400_000, "altered in some part, or crafted with low- or mixed-order parts", vers, ver),
            law("every_bit", 16, 400, "non-empty message",
                || (key32(), key32(), bytes_n(1..=12)).prop_map(|(key, nonce, msg)| AllBits { key, nonce, msg }), all_bits),
        ],
        assumptions: vec!["num-bigint-dig, sha2 correct", "no forgery of SHA-512/edwards25519 is found by random search"],
    }
}

fn main() {
    kv::cli::main(&[("C08", c08), ("C09", c09), ("C10", c10)])
}
