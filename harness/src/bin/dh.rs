//! C13 key exchange and derived-key encryption, C14 ECIES
use aes_gcm::aead::{Aead, Payload};
use aes_gcm::{Aes256Gcm, KeyInit};
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::refmath::Pt;
use kv::{ensure, ensure_eq};
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Point, Scalar, SuiteEd25519};
use kyber_rs::share::vss::{pedersen, rabin};
use num_bigint_dig::BigUint;
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

type G = SuiteEd25519;
fn g() -> G {
    SuiteEd25519::new_blake3_sha256_ed25519()
}
fn sc(b: &B32) -> Scalar {
    Scalar { v: b.0 }
}
fn okr<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: format!("{what}:error"), msg: format!("{e}") })
}
fn pt(p: &Pt) -> Point {
    let mut q = Point::default();
    q.unmarshal_binary(&p.encode()).expect("reference point decodes");
    q
}
fn penc(p: &Point) -> Vec<u8> {
    p.marshal_binary().expect("points encode")
}

// ---- reference: HMAC and HKDF written from RFC 2104 and RFC 5869
fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x36));
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x5c));
    h.update(inner);
    h.finalize().into()
}
fn hkdf(ikm: &[u8], info: &[u8], n: usize) -> Option<Vec<u8>> {
    if n > 255 * 32 {
        return None;
    }
    let prk = hmac(&[0u8; 32], &[ikm]);
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        t = hmac(&prk, &[&t, info, &[i]]).to_vec();
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    Some(out)
}
fn seal(key: &[u8], nonce: &[u8], pt: &[u8], aad: &[u8]) -> Vec<u8> {
    Aes256Gcm::new_from_slice(key).unwrap().encrypt(nonce.into(), Payload { msg: pt, aad }).unwrap()
}

// ------------------------------------------------------------------ C13
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ex {
    a: B32,
    b: B32,
    t: u8,
}
fn exchange(i: &Ex) -> Res {
    let (x, y) = (i.a.modl(), i.b.modl());
    let (pa, pb) = (Pt::base_mul(&x), Pt::base_mul(&y));
    let want = Pt::base_mul(&rm::modl(&(&x * &y))).encode().to_vec();
    let k1 = nopanic("dh", || G::dh_exchange(g(), sc(&i.a), pt(&pb)))?;
    let k2 = nopanic("dh", || G::dh_exchange(g(), sc(&i.b), pt(&pa)))?;
    ensure!(k1 == k2 && penc(&k1) == penc(&k2), "dh:sides disagree");
    ensure_eq!(penc(&k1), want, "dh:wrong");
    // any remote point
    let q = pb.add(&rm::c().torsion[i.t as usize % 8]);
    let k = G::dh_exchange(g(), sc(&i.a), pt(&q));
    ensure_eq!(penc(&k), q.mul(&i.a.big()).encode().to_vec(), "dh:mixed-order remote");
    Ok(Obs::nt(!x.is_zero() && !y.is_zero() && x != y).label_if(i.t % 8 != 0, "mixed-order remote").label_if(i.a.big() >= *rm::l(), "unreduced key"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Kdf {
    ikm: Bs,
    info: Bs,
    n: Option<usize>,
}
fn kdf(i: &Kdf) -> Res {
    let got = nopanic("hkdf", || G::hkdf(&i.ikm.0, &i.info.0, i.n))?;
    match hkdf(&i.ikm.0, &i.info.0, i.n.unwrap_or(32)) {
        Some(w) => ensure_eq!(okr("hkdf", got)?, w, "hkdf:wrong"),
        None => ensure!(got.is_err(), "hkdf:accepts an impossible length"),
    }
    Ok(Obs::nt(!i.ikm.0.is_empty() && i.n != Some(0)).label(match i.n {
        None => "default size",
        Some(n) if n > 255 * 32 => "too long",
        Some(n) if n > 32 => "several blocks",
        _ => "one block",
    }))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Alt {
    Flip(u16, u8),
    Cut(u16),
    Grow(Bs),
    Front(u8),
    Nonce(u8, u8),
    Aad(u16, u8),
    NoAad,
    KeyPoint(B32),
    Ctx(u16, u8),
    Swap(u16, u16),
    Replace(Bs),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Aes {
    key: B32,
    ctx: Bs,
    nonce: [u8; 12],
    msg: Bs,
    aad: Option<Bs>,
    alts: Vec<Alt>,
    dst: i8,
}
fn flip(v: &mut [u8], i: u16, b: u8) {
    if !v.is_empty() {
        let n = v.len();
        v[i as usize % n] ^= 1 << (b % 8);
    }
}
fn alter_ct(ct: &mut Vec<u8>, a: &Alt) {
    match a {
        Alt::Flip(i, b) => flip(ct, *i, *b),
        Alt::Cut(n) => ct.truncate(ct.len().saturating_sub(1 + *n as usize % (ct.len().max(1)))),
        Alt::Grow(b) => ct.extend_from_slice(&b.0),
        Alt::Front(n) => {
            ct.drain(..(1 + *n as usize % 40).min(ct.len()));
        }
        Alt::Swap(i, j) if !ct.is_empty() => {
            let n = ct.len();
            ct.swap(*i as usize % n, *j as usize % n)
        }
        Alt::Replace(b) => *ct = b.0.clone(),
        _ => {}
    }
}
fn aead(i: &Aes) -> Res {
    let m = Pt::base_mul(&i.key.modl());
    let p = pt(&m);
    let key = hkdf(&m.encode(), &i.ctx.0, 32).unwrap();
    let aad = i.aad.as_ref().map(|a| a.0.as_slice());
    // AEAD object
    let box_ = nopanic("AEAD::new", || okr("AEAD::new", AEAD::<G>::new(p, &i.ctx.0)))??;
    let want = seal(&key, &i.nonce, &i.msg.0, aad.unwrap_or(&[]));
    let mut dst = vec![0xa5u8; (want.len() as i64 + i.dst as i64).max(0) as usize];
    let fits = dst.len() >= want.len();
    let ct = nopanic("seal", || box_.seal(Some(&mut dst), &i.nonce, &i.msg.0, aad))?;
    ensure_eq!(ct.is_ok(), fits, "seal:destination");
    if fits {
        ensure_eq!(okr("seal", ct)?, want, "seal:wrong");
        ensure_eq!(dst[..want.len()].to_vec(), want, "seal:dst");
        ensure!(dst[want.len()..].iter().all(|b| *b == 0xa5), "seal:writes beyond");
    }
    ensure_eq!(okr("seal", box_.seal(None, &i.nonce, &i.msg.0, aad))?, want, "seal:wrong");
    ensure_eq!(okr("open", box_.open(None, &i.nonce, &want, aad))?, i.msg.0, "open:wrong");
    let mut dst = vec![0xa5u8; (i.msg.0.len() as i64 + i.dst as i64).max(0) as usize];
    let fits = dst.len() >= i.msg.0.len();
    let r = nopanic("open", || box_.open(Some(&mut dst), &i.nonce, &want, aad))?;
    ensure_eq!(r.is_ok(), fits, "open:destination");
    if fits {
        ensure_eq!(dst[..i.msg.0.len()].to_vec(), i.msg.0, "open:dst");
    }
    // bare functions
    ensure_eq!(okr("aes_encrypt", G::aes_encrypt(&key, &i.nonce, &i.msg.0, aad))?, want, "aes_encrypt:wrong");
    ensure_eq!(okr("aes_decrypt", G::aes_decrypt(&key, &i.nonce, &want, aad))?, i.msg.0, "aes_decrypt:wrong");
    let want2 = seal(&key, &i.nonce, &i.msg.0, &i.ctx.0);
    ensure_eq!(okr("encrypt", G::encrypt(&p, &i.ctx.0, &i.nonce, &i.msg.0))?, want2, "encrypt:wrong");
    ensure_eq!(okr("decrypt", G::decrypt(&p, &i.ctx.0, &i.nonce, &want2))?, i.msg.0, "decrypt:wrong");
    // altered
    let (mut ct, mut nonce, mut ad, mut kp, mut ctx) = (want.clone(), i.nonce, i.aad.clone().map(|a| a.0).unwrap_or_default(), m.clone(), i.ctx.0.clone());
    for a in &i.alts {
        match a {
            Alt::Nonce(k, b) => flip(&mut nonce, *k as u16, *b),
            Alt::Aad(k, b) if ad.is_empty() => ad.push(*k as u8 ^ *b),
            Alt::Aad(k, b) => flip(&mut ad, *k, *b),
            Alt::NoAad => ad.clear(),
            Alt::KeyPoint(k) => kp = Pt::base_mul(&k.modl()),
            Alt::Ctx(k, b) if ctx.is_empty() => ctx.push(*k as u8 ^ *b),
            Alt::Ctx(k, b) => flip(&mut ctx, *k, *b),
            a => alter_ct(&mut ct, a),
        }
    }
    let altered = ct != want || nonce != i.nonce || ad != i.aad.clone().map(|a| a.0).unwrap_or_default() || kp != m || ctx != i.ctx.0;
    let b2 = okr("AEAD::new", AEAD::<G>::new(pt(&kp), &ctx))?;
    let r = nopanic("open", || b2.open(None, &nonce, &ct, Some(&ad)))?;
    ensure!(r.is_ok() == !altered, "open:altered accepted", "{:?}", i.alts);
    let k2 = hkdf(&kp.encode(), &ctx, 32).unwrap();
    let r = nopanic("aes_decrypt", || G::aes_decrypt(&k2, &nonce, &ct, Some(&ad)))?;
    ensure!(r.is_ok() == !altered, "aes_decrypt:altered accepted", "{:?}", i.alts);
    // same alterations of the point-keyed form (whose additional data is the context)
    let mut ct2 = want2.clone();
    for a in &i.alts {
        alter_ct(&mut ct2, a);
    }
    let altered2 = ct2 != want2 || nonce != i.nonce || kp != m || ctx != i.ctx.0;
    let r = nopanic("decrypt", || G::decrypt(&pt(&kp), &ctx, &nonce, &ct2))?;
    ensure!(r.is_ok() == !altered2, "decrypt:altered accepted", "{:?}", i.alts);
    Ok(Obs::nt(altered || !i.msg.0.is_empty()).label(if altered { "altered" } else { "intact" }).label(if i.aad.is_some() { "aad" } else { "no aad" }).label(match i.dst {
        0 => "exact destination",
        d if d < 0 => "short destination",
        _ => "long destination",
    }))
}
fn alts() -> impl Strategy<Value = Alt> {
    prop_oneof![
        6 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Alt::Flip(a, b)),
        3 => any::<u16>().prop_map(Alt::Cut),
        2 => bytes(40).prop_map(Alt::Grow),
        1 => any::<u8>().prop_map(Alt::Front),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Alt::Nonce(a, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Alt::Aad(a, b)),
        1 => Just(Alt::NoAad),
        2 => key32().prop_map(Alt::KeyPoint),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Alt::Ctx(a, b)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Alt::Swap(a, b)),
        1 => bytes(80).prop_map(Alt::Replace),
    ]
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct KeyLen {
    key: Bs,
    nonce: [u8; 12],
    data: Bs,
}
fn key_len(i: &KeyLen) -> Res {
    let e = nopanic("aes_encrypt", || G::aes_encrypt(&i.key.0, &i.nonce, &i.data.0, None))?;
    let d = nopanic("aes_decrypt", || G::aes_decrypt(&i.key.0, &i.nonce, &i.data.0, None))?;
    ensure!(d.is_err(), "aes_decrypt:accepts garbage");
    if i.key.0.len() == 32 {
        ensure_eq!(okr("aes_encrypt", e)?, seal(&i.key.0, &i.nonce, &i.data.0, &[]), "aes_encrypt:wrong");
    } else {
        ensure!(e.is_err(), "aes_encrypt:wrong key length");
    }
    Ok(Obs::nt(i.key.0.len() != 32).label(if i.key.0.len() == 32 { "32" } else { "other length" }))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CtxCase {
    dealer: u16,
    verifiers: Vec<u16>,
}
fn small_pt(k: u16) -> Pt {
    Pt::base_mul(&rm::modl(&rm::lebytes(&rm::sha512(&[b"ctx", &k.to_le_bytes()]))))
}
fn contexts(i: &CtxCase) -> Res {
    let d = small_pt(i.dealer);
    let vs: Vec<Pt> = i.verifiers.iter().map(|v| small_pt(*v)).collect();
    let mut buf = b"vss-dealer".to_vec();
    buf.extend_from_slice(&d.encode());
    buf.extend_from_slice(b"vss-verifiers");
    for v in &vs {
        buf.extend_from_slice(&v.encode());
    }
    let pts: Vec<Point> = vs.iter().map(pt).collect();
    ensure_eq!(pedersen::context(g(), &pt(&d), &pts), Sha256::digest(&buf).to_vec(), "pedersen context:wrong");
    let mut want = [0u8; 128];
    blake3::Hasher::new().update(&buf).finalize_xof().fill(&mut want);
    ensure_eq!(rabin::vss::context(&g(), &pt(&d), &pts), want.to_vec(), "rabin context:wrong");
    Ok(Obs::nt(vs.len() > 1))
}
fn c13() -> Prop {
    Prop {
        id: "C13",
        laws: vec![
            law("exchange", 3000, 80_000, "different non-zero keys",
                || (prop_oneof![key32(), any_scalar()], prop_oneof![key32(), any_scalar()], any::<u8>()).prop_map(|(a, b, t)| Ex { a, b, t }), exchange),
            law("hkdf", 20_000, 400_000, "non-empty key material and output",
                || (blob(100), blob(100), prop_oneof![1 => Just(None), 4 => (0usize..300).prop_map(Some), 1 => (8100usize..8220).prop_map(Some)]).prop_map(|(ikm, info, n)| Kdf { ikm, info, n }), kdf),
            law("aead", 4000, 120_000, "altered, or a non-empty message",
                || (key32(), blob(80), any::<[u8; 12]>(), message(), prop::option::of(blob(60)), prop_oneof![1 => prop::collection::vec(alts(), 0..1), 4 => prop::collection::vec(alts(), 1..3)], prop_oneof![3 => Just(0i8), 1 => -40i8..40])
                    .prop_map(|(key, ctx, nonce, msg, aad, alts, dst)| Aes { key, ctx, nonce, msg, aad, alts, dst }), aead),
            law("key_length", 4000, 50_000, "key of another length",
                || (prop_oneof![1 => bytes_n(32..=32), 2 => bytes(70)], any::<[u8; 12]>(), blob(60)).prop_map(|(key, nonce, data)| KeyLen { key, nonce, data }), key_len),
            law("contexts", 600, 20_000, "several verifiers",
                || (any::<u16>(), prop::collection::vec(any::<u16>(), 0..9)).prop_map(|(dealer, verifiers)| CtxCase { dealer, verifiers }), contexts),
        ],
        assumptions: vec!["sha2, blake3, aes-gcm, num-bigint-dig correct", "no AES-GCM forgery is found by random search"],
    }
}

// ------------------------------------------------------------------ C14
/// the construction, from the model: R || AES-256-GCM(HKDF(R, info = k), n, msg), k || n = HKDF(rP)
fn model_encrypt(r: &BigUint, dh: &Pt, msg: &[u8]) -> Vec<u8> {
    let rp = Pt::base_mul(r).encode();
    let buf = hkdf(&dh.encode(), &[], 44).unwrap();
    let key = hkdf(&rp, &buf, 32).unwrap();
    let mut out = rp.to_vec();
    out.extend_from_slice(&seal(&key, &buf[32..], msg, &[]));
    out
}
fn model_decrypt(x: &BigUint, ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 32 {
        return None;
    }
    let r = Pt::decode(&ct[..32])?;
    let buf = hkdf(&r.mul(x).encode(), &[], 44).unwrap();
    let key = hkdf(&r.encode(), &buf, 32).unwrap();
    Aes256Gcm::new_from_slice(&key).unwrap().decrypt(buf[32..].into(), Payload { msg: &ct[32..], aad: &[] }).ok()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ec {
    key: B32,
    r: B32,
    msg: Bs,
    alts: Vec<Alt>,
    torsion: u8,
    other: B32,
}
fn ec(i: &Ec) -> Res {
    let x = i.key.modl();
    let pm = Pt::base_mul(&x);
    let public = pt(&pm);
    let c1 = nopanic("encrypt", || okr("encrypt", ecies::encrypt(g(), public, &i.msg.0)))??;
    let c2 = okr("encrypt", ecies::encrypt(g(), public, &i.msg.0))?;
    ensure_eq!(c1.len(), 32 + i.msg.0.len() + 16, "encrypt:length");
    ensure!(c1[..32] != c2[..32] && c1 != c2, "encrypt:not fresh");
    for c in [&c1, &c2] {
        let d = nopanic("decrypt", || ecies::decrypt(g(), sc(&i.key), c))?;
        ensure_eq!(okr("decrypt", d)?, i.msg.0, "decrypt:wrong");
        let m = model_decrypt(&x, c);
        ensure!(m.as_ref() == Some(&i.msg.0), "encrypt:not the documented construction");
        // an ephemeral key in the prime-order group
        let r = Pt::decode(&c[..32]).ok_or(Fail { sig: "encrypt:ephemeral".into(), msg: "not a point".into() })?;
        ensure!(r.prime_subgroup() && !r.is_id(), "encrypt:ephemeral key");
    }
    // a ciphertext of our own making
    let r = i.r.modl();
    let ct = model_encrypt(&r, &pm.mul(&r), &i.msg.0);
    ensure_eq!(okr("decrypt", ecies::decrypt(g(), sc(&i.key), &ct))?, i.msg.0, "decrypt:wrong");
    // altered
    let mut bad = if i.torsion & 0x80 != 0 { ct.clone() } else { c1.clone() };
    let orig = bad.clone();
    for a in &i.alts {
        alter_ct(&mut bad, a);
    }
    if i.torsion & 7 != 0 && i.torsion & 0x10 != 0 && bad.len() >= 32 {
        if let Some(p) = Pt::decode(&bad[..32]) {
            let q = p.add(&rm::c().torsion[(i.torsion & 7) as usize]).encode();
            bad[..32].copy_from_slice(&q);
        }
    }
    let d = nopanic("decrypt", || ecies::decrypt(g(), sc(&i.key), &bad))?;
    if bad == orig {
        ensure!(d.is_ok(), "decrypt:rejects");
    } else {
        ensure!(d.is_err(), "decrypt:altered accepted", "{:?}", i.alts);
    }
    // someone else's
    if i.other.modl() != x {
        let d = nopanic("decrypt", || ecies::decrypt(g(), sc(&i.other), &c1))?;
        ensure!(d.is_err(), "decrypt:wrong key accepted");
    }
    Ok(Obs::nt(bad != orig).label_if(bad.len() < 32, "shorter than a point").label_if(bad.len() < 48 && bad.len() >= 32, "shorter than a tag").label_if(i.msg.0.is_empty(), "empty message")
        .label_if(i.torsion & 7 != 0 && i.torsion & 0x10 != 0, "small-order shift"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Arb {
    key: B32,
    head: Bs,
    tail: Bs,
}
fn arb(i: &Arb) -> Res {
    let mut c = i.head.0.clone();
    c.extend_from_slice(&i.tail.0);
    let d = nopanic("decrypt", || ecies::decrypt(g(), sc(&i.key), &c))?;
    ensure!(d.is_err(), "decrypt:accepts arbitrary bytes");
    Ok(Obs::nt(c.len() >= 48).label(match c.len() {
        0..=31 => "no point",
        32..=47 => "no tag",
        _ => "full",
    }).label_if(c.len() >= 32 && Pt::decode(&c[..32]).is_some(), "decodable ephemeral key"))
}
fn heads() -> impl Strategy<Value = Bs> {
    let mut sp: Vec<Bs> = rm::c().torsion.iter().map(|t| Bs(t.encode().to_vec())).collect();
    sp.push(Bs(Pt::base_mul(&BigUint::from(1u32)).encode().to_vec()));
    sp.push(Bs(vec![0xff; 32]));
    sp.push(Bs(rm::le32(&rm::c().p).to_vec()));
    prop_oneof![2 => bytes(31), 3 => bytes_n(32..=32), 2 => key32().prop_map(|k| Bs(Pt::base_mul(&k.modl()).encode().to_vec())), 2 => prop::sample::select(sp)]
}
fn c14() -> Prop {
    Prop {
        id: "C14",
        laws: vec![
            law("ecies", 2500, 80_000, "altered ciphertext",
                || (prop_oneof![3 => key32(), 1 => any_scalar(), 1 => rand32().prop_map(|b| B32(rm::clamp(&b.0)))], key32(), message(), prop_oneof![1 => prop::collection::vec(alts(), 0..1), 4 => prop::collection::vec(alts(), 1..3)], any::<u8>(), key32())
                    .prop_map(|(key, r, msg, alts, torsion, other)| Ec { key, r, msg, alts, torsion, other }), ec),
            law("arbitrary", 6000, 200_000, "long enough to hold a point and a tag",
                || (prop_oneof![key32(), any_scalar()], heads(), blob(70)).prop_map(|(key, head, tail)| Arb { key, head, tail }), arb),
            law("every_cut", 200, 4000, "every case",
                || (key32(), bytes(40)).prop_map(|(key, tail)| Arb { key, head: Bs(vec![]), tail }), |i: &Arb| {
                    let c = okr("encrypt", ecies::encrypt(g(), pt(&Pt::base_mul(&i.key.modl())), &i.tail.0))?;
                    for n in 0..c.len() {
                        let d = nopanic("decrypt", || ecies::decrypt(g(), sc(&i.key), &c[..n]))?;
                        ensure!(d.is_err(), "decrypt:truncation accepted", "{n} of {} bytes", c.len());
                    }
                    Ok(Obs::nt(true))
                }),
        ],
        assumptions: vec!["sha2, aes-gcm, num-bigint-dig correct", "no AES-GCM forgery is found by random search"],
    }
}

fn main() {
    kv::cli::main(&[("C13", c13), ("C14", c14)])
}
