//! Both verifiable secret sharing variants behind one interface, with transparent mirror messages.
use crate::det::DSuite;
use crate::fw::Fail;
use crate::gen::B32;
use crate::refmath as rm;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::group::HashFactory;
use kyber_rs::share::vss::{pedersen::vss as pv, rabin::vss as rv};
use kyber_rs::sign::schnorr;
use kyber_rs::{Group, Point as _, XOFFactory};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::fmt::Debug;
use std::io::Write;

pub type R<T> = Result<T, String>;

pub fn suite() -> DSuite {
    DSuite {}
}
pub fn sc(b: &B32) -> Scalar {
    Scalar { v: b.0 }
}
pub fn base_mul(s: &Scalar) -> Point {
    suite().point().mul(s, None)
}
pub fn penc(p: &Point) -> Vec<u8> {
    p.marshal_binary().expect("points encode")
}
pub fn okr<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: format!("{what}:error"), msg: format!("{e}") })
}
/// a key derived from a number
pub fn key_of(seed: u64, tag: u32) -> Scalar {
    let mut h = blake3::Hasher::new();
    h.update(b"kv key");
    h.update(&seed.to_le_bytes());
    h.update(&tag.to_le_bytes());
    Scalar { v: rm::sc(&rm::lebytes(h.finalize().as_bytes())) }
}
pub fn conv<A: Serialize, B: DeserializeOwned>(a: &A) -> R<B> {
    serde_json::from_value(serde_json::to_value(a).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}
pub fn sign(k: &Scalar, msg: &[u8]) -> Vec<u8> {
    schnorr::sign(&suite(), k, msg).expect("schnorr signing")
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MShare {
    pub i: usize,
    pub v: Scalar,
}
/// mirror of a plaintext deal (the second share only in the Rabin variant)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MDeal {
    pub session_id: Vec<u8>,
    pub sec_share: MShare,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rnd_share: Option<MShare>,
    pub t: usize,
    pub commitments: Vec<Point>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MEnc {
    pub dhkey: Point,
    pub signature: Vec<u8>,
    pub nonce: Vec<u8>,
    pub cipher: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MResp {
    pub session_id: Vec<u8>,
    pub index: u32,
    #[serde(alias = "approved", alias = "status")]
    pub ok: bool,
    pub signature: Vec<u8>,
}
impl MResp {
    pub fn hash(&self) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update(b"response");
        h.update(&self.session_id);
        h.update(self.index.to_le_bytes());
        h.update((self.ok as u32).to_le_bytes());
        h.finalize().to_vec()
    }
    pub fn new(sid: &[u8], index: u32, ok: bool, signer: &Scalar) -> MResp {
        let mut r = MResp { session_id: sid.to_vec(), index, ok, signature: vec![] };
        r.signature = sign(signer, &r.hash());
        r
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MJust {
    pub session_id: Vec<u8>,
    pub index: u32,
    pub deal: MDeal,
    pub signature: Vec<u8>,
}

/// session identifier: hash of dealer, verifiers, commitments and threshold
pub fn session_id(dealer: &Point, verifiers: &[Point], commits: &[Point], t: usize) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(penc(dealer));
    for v in verifiers {
        h.update(penc(v));
    }
    for c in commits {
        h.update(penc(c));
    }
    h.update((t as u32).to_le_bytes());
    h.finalize().to_vec()
}
/// second generator of the Rabin variant
pub fn second_base(verifiers: &[Point]) -> Point {
    let mut b = vec![];
    for v in verifiers {
        b.extend(penc(v));
    }
    suite().point().pick(&mut suite().xof(Some(&b)))
}

pub trait Vss: 'static {
    const NAME: &'static str;
    const RABIN: bool;
    type Dealer: Clone + PartialEq + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    type Verifier: Clone + PartialEq + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    type Deal: Clone + PartialEq + Debug + std::fmt::Display + Serialize + DeserializeOwned + BinaryMarshaler;
    type Enc: Clone + PartialEq + Debug + Serialize + DeserializeOwned;
    type Resp: Clone + PartialEq + Debug + Serialize + DeserializeOwned;
    type Just: Clone + PartialEq + Debug + Serialize + DeserializeOwned;
    fn dealer(long: &Scalar, secret: &Scalar, pubs: &[Point], t: usize) -> R<Self::Dealer>;
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> R<Self::Verifier>;
    fn encrypt(d: &Self::Dealer, i: usize) -> R<Self::Enc>;
    fn encrypt_all(d: &Self::Dealer) -> R<Vec<Self::Enc>>;
    fn plain(d: &mut Self::Dealer, i: usize) -> R<&mut Self::Deal>;
    fn d_resp(d: &mut Self::Dealer, r: &Self::Resp) -> R<Option<Self::Just>>;
    fn d_timeout(d: &mut Self::Dealer);
    fn d_certified(d: &Self::Dealer) -> bool;
    fn d_secret_commit(d: &Self::Dealer) -> Option<Point>;
    fn d_commits(d: &Self::Dealer) -> Option<Vec<Point>>;
    fn d_sid(d: &Self::Dealer) -> Vec<u8>;
    fn decrypt(v: &Self::Verifier, e: &Self::Enc) -> R<Self::Deal>;
    fn v_deal(v: &mut Self::Verifier, e: &Self::Enc) -> R<Self::Resp>;
    fn v_resp(v: &mut Self::Verifier, r: &Self::Resp) -> R<()>;
    fn v_just(v: &mut Self::Verifier, j: &Self::Just) -> R<()>;
    fn v_timeout(v: &mut Self::Verifier);
    /// None: the verifier has no aggregator yet
    fn v_certified(v: &Self::Verifier) -> bool;
    fn v_getdeal(v: &Self::Verifier) -> Option<Self::Deal>;
    fn v_sid(v: &Self::Verifier) -> Vec<u8>;
    fn v_index(v: &Self::Verifier) -> usize;
    fn v_expect_t(v: &mut Self::Verifier, t: usize) -> bool;
    /// recorded responses, when the variant shows them
    fn v_recorded(v: &Self::Verifier) -> Option<Vec<(u32, bool)>>;
    fn v_missing(v: &Self::Verifier) -> Option<Vec<usize>>;
    fn recover(deals: Vec<Self::Deal>, n: usize, t: usize) -> R<Scalar>;
    fn minimum_t(n: usize) -> usize;
    fn resp(r: &MResp) -> Self::Resp;
    fn mresp(r: &Self::Resp) -> MResp;

    type Agg: Clone + PartialEq + Debug;
    fn d_agg(d: &mut Self::Dealer) -> &mut Self::Agg;
    /// only once the verifier has its deal, in the Rabin variant
    fn v_agg(v: &mut Self::Verifier) -> &mut Self::Agg;
    /// an aggregator of its own, where the variant offers one
    fn a_new(pubs: &[Point]) -> Option<Self::Agg>;
    fn a_deal(a: &mut Self::Agg, d: &Self::Deal, inclusion: bool) -> R<()>;
    fn a_resp(a: &mut Self::Agg, r: &Self::Resp) -> R<()>;
    fn a_add(a: &mut Self::Agg, r: &Self::Resp) -> R<()>;
    fn a_certified(a: &Self::Agg) -> bool;
    fn a_enough(a: &Self::Agg) -> Option<bool>;
    fn a_recorded(a: &Self::Agg) -> Option<Vec<(u32, bool)>>;
    fn a_missing(a: &Self::Agg) -> Option<Vec<usize>>;
    fn a_expect_t(a: &mut Self::Agg, t: usize);
    /// fill in complaints for the silent, where the variant offers it
    fn a_clean(a: &mut Self::Agg) -> bool;
    fn v_unsafe(v: &mut Self::Verifier, idx: u32, ok: bool);
    fn d_key(d: Self::Dealer) -> (Scalar, Point);
    fn v_key(v: Self::Verifier) -> (Scalar, Point);

    fn mdeal(d: &Self::Deal) -> MDeal {
        conv(d).expect("deal mirror")
    }
    fn deal(m: &MDeal) -> Self::Deal {
        conv(m).expect("deal from mirror")
    }
    fn menc(e: &Self::Enc) -> MEnc {
        conv(e).expect("encrypted deal mirror")
    }
    fn enc(m: &MEnc) -> Self::Enc {
        conv(m).expect("encrypted deal from mirror")
    }
    fn mjust(j: &Self::Just) -> MJust {
        conv(j).expect("justification mirror")
    }
    fn just(m: &MJust) -> Self::Just {
        conv(m).expect("justification from mirror")
    }
    fn just_hash(m: &MJust) -> Vec<u8> {
        let mut h = suite().hash();
        h.write_all(b"justification").unwrap();
        h.write_all(&m.session_id).unwrap();
        h.write_all(&m.index.to_le_bytes()).unwrap();
        h.write_all(&Self::deal(&m.deal).marshal_binary().expect("deals encode")).unwrap();
        h.finalize().to_vec()
    }
    fn make_just(sid: &[u8], index: u32, deal: &MDeal, signer: &Scalar) -> MJust {
        let mut m = MJust { session_id: sid.to_vec(), index, deal: deal.clone(), signature: vec![] };
        m.signature = sign(signer, &Self::just_hash(&m));
        m
    }
    /// The share equation and everything else that makes a deal valid for participant `me` of these
    /// verifiers and this dealer. `want_t`: threshold the verifier requires, 0 if none.
    fn oracle_valid(m: &MDeal, me: usize, dealer: &Point, verifiers: &[Point], want_t: usize) -> bool {
        let n = verifiers.len();
        if m.sec_share.i != me || m.t < 2 || m.t > n || m.commitments.len() != m.t || (want_t != 0 && m.t != want_t) {
            return false;
        }
        if m.session_id != session_id(dealer, verifiers, &m.commitments, m.t) {
            return false;
        }
        let s = suite();
        // right side: sum of commitments times powers of the index + 1
        let x = num_bigint_dig::BigUint::from(me as u64 + 1);
        let mut pw = num_bigint_dig::BigUint::from(1u32);
        let mut rhs = s.point().null();
        for c in &m.commitments {
            let e = Scalar { v: rm::sc(&pw) };
            let term = s.point().mul(&e, Some(c));
            rhs = s.point().add(&rhs, &term);
            pw = rm::modl(&(&pw * &x));
        }
        let mut lhs = base_mul(&m.sec_share.v);
        if Self::RABIN {
            let Some(r) = &m.rnd_share else { return false };
            if r.i != me {
                return false;
            }
            let g = s.point().mul(&r.v, Some(&second_base(verifiers)));
            lhs = s.point().add(&lhs, &g);
        }
        penc(&lhs) == penc(&rhs)
    }
}

fn e2s<T, E: std::fmt::Debug + std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| format!("{e:?}: {e}"))
}

pub struct Ped;
impl Vss for Ped {
    const NAME: &'static str = "pedersen";
    const RABIN: bool = false;
    type Dealer = pv::Dealer<DSuite>;
    type Verifier = pv::Verifier<DSuite>;
    type Deal = pv::Deal<DSuite>;
    type Enc = pv::EncryptedDeal<Point>;
    type Resp = pv::Response;
    type Just = pv::Justification<DSuite>;
    fn dealer(long: &Scalar, secret: &Scalar, pubs: &[Point], t: usize) -> R<Self::Dealer> {
        e2s(pv::new_dealer(suite(), long.clone(), secret.clone(), pubs, t))
    }
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> R<Self::Verifier> {
        e2s(pv::new_verifier(suite(), long, dealer, pubs))
    }
    fn encrypt(d: &Self::Dealer, i: usize) -> R<Self::Enc> {
        e2s(d.encrypted_deal(i))
    }
    fn encrypt_all(d: &Self::Dealer) -> R<Vec<Self::Enc>> {
        e2s(d.encrypted_deals())
    }
    fn plain(d: &mut Self::Dealer, i: usize) -> R<&mut Self::Deal> {
        e2s(d.plaintext_deal(i))
    }
    fn d_resp(d: &mut Self::Dealer, r: &Self::Resp) -> R<Option<Self::Just>> {
        e2s(d.process_response(r))
    }
    fn d_timeout(d: &mut Self::Dealer) {
        d.set_timeout()
    }
    fn d_certified(d: &Self::Dealer) -> bool {
        d.deal_certified()
    }
    fn d_secret_commit(d: &Self::Dealer) -> Option<Point> {
        d.secret_commit()
    }
    fn d_commits(d: &Self::Dealer) -> Option<Vec<Point>> {
        Some(d.commits())
    }
    fn d_sid(d: &Self::Dealer) -> Vec<u8> {
        d.session_id()
    }
    fn decrypt(v: &Self::Verifier, e: &Self::Enc) -> R<Self::Deal> {
        e2s(v.decrypt_deal(e))
    }
    fn v_deal(v: &mut Self::Verifier, e: &Self::Enc) -> R<Self::Resp> {
        e2s(v.process_encrypted_deal(e))
    }
    fn v_resp(v: &mut Self::Verifier, r: &Self::Resp) -> R<()> {
        e2s(v.process_response(r))
    }
    fn v_just(v: &mut Self::Verifier, j: &Self::Just) -> R<()> {
        e2s(v.process_justification(j))
    }
    fn v_timeout(v: &mut Self::Verifier) {
        v.set_timeout()
    }
    fn v_certified(v: &Self::Verifier) -> bool {
        v.deal_certified()
    }
    fn v_getdeal(v: &Self::Verifier) -> Option<Self::Deal> {
        v.deal()
    }
    fn v_sid(v: &Self::Verifier) -> Vec<u8> {
        v.session_id()
    }
    fn v_index(v: &Self::Verifier) -> usize {
        v.index()
    }
    fn v_expect_t(v: &mut Self::Verifier, t: usize) -> bool {
        v.set_threshold(t);
        true
    }
    fn v_recorded(v: &Self::Verifier) -> Option<Vec<(u32, bool)>> {
        let mut r: Vec<_> = v.responses().iter().map(|(i, r)| (*i, r.status)).collect();
        r.sort();
        Some(r)
    }
    fn v_missing(v: &Self::Verifier) -> Option<Vec<usize>> {
        Some(v.missing_responses())
    }
    fn recover(deals: Vec<Self::Deal>, n: usize, t: usize) -> R<Scalar> {
        e2s(pv::recover_secret(suite(), deals, n, t))
    }
    type Agg = pv::Aggregator<DSuite>;
    fn d_agg(d: &mut Self::Dealer) -> &mut Self::Agg {
        d
    }
    fn v_agg(v: &mut Self::Verifier) -> &mut Self::Agg {
        v
    }
    fn a_new(pubs: &[Point]) -> Option<Self::Agg> {
        Some(pv::new_empty_aggregator(suite(), pubs))
    }
    fn a_deal(a: &mut Self::Agg, d: &Self::Deal, inclusion: bool) -> R<()> {
        e2s(a.verify_deal(d, inclusion))
    }
    fn a_resp(a: &mut Self::Agg, r: &Self::Resp) -> R<()> {
        e2s(a.process_response(r.clone()))
    }
    fn a_add(a: &mut Self::Agg, r: &Self::Resp) -> R<()> {
        e2s(a.add_response(r))
    }
    fn a_certified(a: &Self::Agg) -> bool {
        a.deal_certified()
    }
    fn a_enough(_: &Self::Agg) -> Option<bool> {
        None
    }
    fn a_recorded(a: &Self::Agg) -> Option<Vec<(u32, bool)>> {
        let mut r: Vec<_> = a.responses().iter().map(|(i, r)| (*i, r.status)).collect();
        r.sort();
        Some(r)
    }
    fn a_missing(a: &Self::Agg) -> Option<Vec<usize>> {
        Some(a.missing_responses())
    }
    fn a_expect_t(a: &mut Self::Agg, t: usize) {
        a.set_threshold(t)
    }
    fn a_clean(_: &mut Self::Agg) -> bool {
        false
    }
    fn v_unsafe(v: &mut Self::Verifier, idx: u32, ok: bool) {
        v.unsafe_set_response_dkg(idx, ok)
    }
    fn d_key(d: Self::Dealer) -> (Scalar, Point) {
        d.key()
    }
    fn v_key(v: Self::Verifier) -> (Scalar, Point) {
        v.key()
    }
    fn minimum_t(n: usize) -> usize {
        pv::minimum_t(n)
    }
    fn resp(r: &MResp) -> Self::Resp {
        pv::Response { session_id: r.session_id.clone(), index: r.index, status: r.ok, signature: r.signature.clone() }
    }
    fn mresp(r: &Self::Resp) -> MResp {
        MResp { session_id: r.session_id.clone(), index: r.index, ok: r.status, signature: r.signature.clone() }
    }
}

pub struct Rab;
impl Vss for Rab {
    const NAME: &'static str = "rabin";
    const RABIN: bool = true;
    type Dealer = rv::Dealer<DSuite>;
    type Verifier = rv::Verifier<DSuite>;
    type Deal = rv::Deal<DSuite>;
    type Enc = rv::EncryptedDeal<Point>;
    type Resp = rv::Response;
    type Just = rv::Justification<DSuite>;
    fn dealer(long: &Scalar, secret: &Scalar, pubs: &[Point], t: usize) -> R<Self::Dealer> {
        e2s(rv::new_dealer(suite(), long.clone(), secret.clone(), pubs, t))
    }
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> R<Self::Verifier> {
        e2s(rv::new_verifier(&suite(), long, dealer, pubs))
    }
    fn encrypt(d: &Self::Dealer, i: usize) -> R<Self::Enc> {
        e2s(d.encrypted_deal(i))
    }
    fn encrypt_all(d: &Self::Dealer) -> R<Vec<Self::Enc>> {
        e2s(d.encrypted_deals())
    }
    fn plain(d: &mut Self::Dealer, i: usize) -> R<&mut Self::Deal> {
        e2s(d.plaintext_deal(i))
    }
    fn d_resp(d: &mut Self::Dealer, r: &Self::Resp) -> R<Option<Self::Just>> {
        e2s(d.process_response(r))
    }
    fn d_timeout(d: &mut Self::Dealer) {
        d.set_timeout()
    }
    fn d_certified(d: &Self::Dealer) -> bool {
        d.deal_certified()
    }
    fn d_secret_commit(d: &Self::Dealer) -> Option<Point> {
        d.secret_commit()
    }
    fn d_commits(d: &Self::Dealer) -> Option<Vec<Point>> {
        d.commits()
    }
    fn d_sid(d: &Self::Dealer) -> Vec<u8> {
        d.session_id()
    }
    fn decrypt(v: &Self::Verifier, e: &Self::Enc) -> R<Self::Deal> {
        e2s(v.decrypt_deal(e))
    }
    fn v_deal(v: &mut Self::Verifier, e: &Self::Enc) -> R<Self::Resp> {
        e2s(v.process_encrypted_deal(e))
    }
    fn v_resp(v: &mut Self::Verifier, r: &Self::Resp) -> R<()> {
        e2s(v.process_response(r))
    }
    fn v_just(v: &mut Self::Verifier, j: &Self::Just) -> R<()> {
        e2s(v.process_justification(j))
    }
    fn v_timeout(v: &mut Self::Verifier) {
        v.set_timeout()
    }
    fn v_certified(v: &Self::Verifier) -> bool {
        // the variant has no aggregator before the deal
        crate::fw::catch(|| v.deal_certified()).unwrap_or(false)
    }
    fn v_getdeal(v: &Self::Verifier) -> Option<Self::Deal> {
        v.deal()
    }
    fn v_sid(v: &Self::Verifier) -> Vec<u8> {
        crate::fw::catch(|| v.session_id()).unwrap_or_default()
    }
    fn v_index(v: &Self::Verifier) -> usize {
        v.index()
    }
    fn v_expect_t(_: &mut Self::Verifier, _: usize) -> bool {
        false
    }
    fn v_recorded(_: &Self::Verifier) -> Option<Vec<(u32, bool)>> {
        None
    }
    fn v_missing(_: &Self::Verifier) -> Option<Vec<usize>> {
        None
    }
    fn recover(deals: Vec<Self::Deal>, n: usize, t: usize) -> R<Scalar> {
        e2s(rv::recover_secret(suite(), deals, n, t))
    }
    type Agg = rv::Aggregator<DSuite>;
    fn d_agg(d: &mut Self::Dealer) -> &mut Self::Agg {
        d
    }
    fn v_agg(v: &mut Self::Verifier) -> &mut Self::Agg {
        v
    }
    fn a_new(_: &[Point]) -> Option<Self::Agg> {
        None
    }
    fn a_deal(a: &mut Self::Agg, d: &Self::Deal, inclusion: bool) -> R<()> {
        e2s(a.verify_deal(d, inclusion))
    }
    fn a_resp(a: &mut Self::Agg, r: &Self::Resp) -> R<()> {
        e2s(a.verify_response(r))
    }
    fn a_add(a: &mut Self::Agg, r: &Self::Resp) -> R<()> {
        e2s(a.add_response(r))
    }
    fn a_certified(a: &Self::Agg) -> bool {
        a.deal_certified()
    }
    fn a_enough(a: &Self::Agg) -> Option<bool> {
        Some(a.enough_approvals())
    }
    fn a_recorded(_: &Self::Agg) -> Option<Vec<(u32, bool)>> {
        None
    }
    fn a_missing(_: &Self::Agg) -> Option<Vec<usize>> {
        None
    }
    fn a_expect_t(_: &mut Self::Agg, _: usize) {}
    fn a_clean(a: &mut Self::Agg) -> bool {
        a.clean_verifiers();
        true
    }
    fn v_unsafe(v: &mut Self::Verifier, idx: u32, ok: bool) {
        v.unsafe_set_response_dkg(idx, ok)
    }
    fn d_key(d: Self::Dealer) -> (Scalar, Point) {
        d.key()
    }
    fn v_key(v: Self::Verifier) -> (Scalar, Point) {
        v.key()
    }
    fn minimum_t(n: usize) -> usize {
        rv::minimum_t(n)
    }
    fn resp(r: &MResp) -> Self::Resp {
        rv::Response { session_id: r.session_id.clone(), index: r.index, approved: r.ok, signature: r.signature.clone() }
    }
    fn mresp(r: &Self::Resp) -> MResp {
        MResp { session_id: r.session_id.clone(), index: r.index, ok: r.approved, signature: r.signature.clone() }
    }
}

/// A committee: keys of n participants, a dealer's key
pub struct Com {
    pub seed: u64,
    pub n: usize,
    pub keys: Vec<Scalar>,
    pub pubs: Vec<Point>,
    pub dlong: Scalar,
    pub dpub: Point,
}
impl Com {
    /// `dealer_in`: the dealer is itself participant 0
    pub fn new(seed: u64, n: usize, dealer_in: bool) -> Com {
        let keys: Vec<Scalar> = (0..n as u32).map(|i| key_of(seed, i)).collect();
        let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
        let dlong = if dealer_in { keys[0].clone() } else { key_of(seed, 1 << 20) };
        let dpub = base_mul(&dlong);
        Com { seed, n, keys, pubs, dlong, dpub }
    }
    pub fn outsider(&self, k: u32) -> Scalar {
        key_of(self.seed, (1 << 21) + k)
    }
}
