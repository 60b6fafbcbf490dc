//! C17 deals, C18 certification, C19 complaints and justifications, C20 reconstruction (both
//! verifiable secret sharing variants).
use kv::det;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::{Group, Point as _};
use num_bigint_dig::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn big(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
fn scb(n: &BigUint) -> Scalar {
    Scalar { v: rm::sc(n) }
}
fn add_sc(a: &Scalar, b: &Scalar) -> Scalar {
    scb(&rm::modl(&(big(a) + big(b))))
}
fn padd(a: &Point, b: &Point) -> Point {
    suite().point().add(a, b)
}
fn dealer<V: Vss>(c: &Com, secret: &Scalar, t: usize) -> Result<V::Dealer, Fail> {
    okr("new_dealer", V::dealer(&c.dlong, secret, &c.pubs, t))
}
fn verifier<V: Vss>(c: &Com, i: usize) -> Result<V::Verifier, Fail> {
    okr("new_verifier", V::verifier(&c.keys[i], &c.dpub, &c.pubs))
}
fn sig_ok(pk: &Point, r: &MResp) -> bool {
    let rr = r.clone();
    kyber_rs::sign::schnorr::verify(suite(), pk, &rr.hash(), &r.signature).is_ok()
}

fn nt_pair(max: usize) -> impl Strategy<Value = (usize, usize)> {
    prop_oneof![4 => (2usize..=max.min(7)), 1 => (2usize..=max)]
        .prop_flat_map(|n| (Just(n), prop_oneof![3 => 2usize..=n, 1 => Just(2usize), 1 => Just(n), 1 => Just(((n + 1) / 2).max(2))]))
}

// ------------------------------------------------------------------ C17
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Honest {
    seed: u64,
    n: usize,
    t: usize,
    dealer_in: bool,
    secret: B32,
    me: u16,
    other: u16,
    bad_t: u16,
    expect_t: bool,
}
fn honest_strat() -> impl Strategy<Value = Honest> {
    (any::<u64>(), nt_pair(12), any::<bool>(), prop_oneof![3 => key32(), 1 => any_scalar()], any::<u16>(), any::<u16>(), any::<u16>(), any::<bool>()).prop_map(
        |(seed, (n, t), dealer_in, secret, me, other, bad_t, expect_t)| Honest { seed, n, t, dealer_in, secret, me, other, bad_t, expect_t },
    )
}
fn honest<V: Vss>(c: &Honest) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, c.dealer_in);
    let me = c.me as usize % c.n;
    let other = (me + 1 + c.other as usize % (c.n - 1)) % c.n;
    let secret = sc(&c.secret);
    // thresholds outside 2..=n
    let bads = [0usize, 1, c.n + 1, c.n + 2 + c.bad_t as usize, (1 << 32) + c.t, usize::MAX];
    let bt = bads[c.bad_t as usize % bads.len()];
    let r = nopanic("new_dealer with an invalid threshold", || V::dealer(&com.dlong, &secret, &com.pubs, bt))?;
    ensure!(r.is_err(), "new_dealer:invalid threshold accepted", "n={} t={bt}", c.n);
    ensure!(V::verifier(&com.outsider(0), &com.dpub, &com.pubs).is_err(), "new_verifier:outsider accepted");
    let mut d = dealer::<V>(&com, &secret, c.t)?;
    let mut deals = vec![];
    for i in 0..c.n {
        deals.push(V::mdeal(okr("plaintext_deal", V::plain(&mut d, i))?));
    }
    ensure!(V::plain(&mut d, c.n).is_err(), "plaintext_deal:index out of range accepted");
    ensure!(V::encrypt(&d, c.n).is_err(), "encrypted_deal:index out of range accepted");
    for i in [c.n + 1 + c.other as usize, 1 << 32, usize::MAX / 2, usize::MAX] {
        ensure!(nopanic("plaintext_deal", || V::plain(&mut d, i).is_err())?, "plaintext_deal:index out of range accepted");
        ensure!(nopanic("encrypted_deal", || V::encrypt(&d, i).is_err())?, "encrypted_deal:index out of range accepted");
    }
    let sid = session_id(&com.dpub, &com.pubs, &deals[0].commitments, c.t);
    ensure_eq!(V::d_sid(&d), sid, "dealer:session id is not the hash of dealer, verifiers, commitments and threshold");
    for (i, m) in deals.iter().enumerate() {
        ensure!(V::oracle_valid(m, i, &com.dpub, &com.pubs, c.t), "dealer:own deal invalid", "deal {i} of n={} t={}: {m:?}", c.n, c.t);
        ensure!(m.commitments == deals[0].commitments, "dealer:deals with different commitments");
    }
    // the shares lie on one polynomial of degree t-1 with the secret as constant term
    let pts: Vec<(BigUint, BigUint)> = deals.iter().map(|m| (BigUint::from(m.sec_share.i + 1), big(&m.sec_share.v))).collect();
    let co = rm::interpolate(&pts[c.n - c.t..]);
    ensure_eq!(co[0], big(&secret), "dealer:shares are not of the secret");
    for (x, y) in &pts {
        ensure!(rm::poly_eval(&co, x) == *y, "dealer:share off the polynomial");
    }
    ensure!(V::d_key(d.clone()) == (com.dlong.clone(), com.dpub.clone()), "dealer:key() is not its key pair");
    let encs = okr("encrypted_deals", V::encrypt_all(&d))?;
    ensure_eq!(encs.len(), c.n, "encrypted_deals:wrong number");
    let again = okr("encrypted_deal", V::encrypt(&d, me))?;
    ensure!(again != encs[me], "encrypted_deal:no fresh ephemeral key");
    let mut v = verifier::<V>(&com, me)?;
    ensure_eq!(V::v_index(&v), me, "verifier:index");
    ensure!(V::v_key(v.clone()) == (com.keys[me].clone(), com.pubs[me].clone()), "verifier:key() is not its key pair");
    let expected = c.expect_t && V::v_expect_t(&mut v, c.t);
    let before = v.clone();
    // someone else's deal
    ensure!(V::decrypt(&v, &encs[other]).is_err(), "decrypt_deal:opens someone else's deal");
    ensure!(nopanic("process_encrypted_deal", || V::v_deal(&mut v, &encs[other]))?.is_err(), "process_encrypted_deal:accepts someone else's deal");
    ensure!(v == before, "process_encrypted_deal:rejected deal changes the verifier");
    // another dealer, another committee
    let mut w = okr("new_verifier", V::verifier(&com.keys[me], &base_mul(&com.outsider(1)), &com.pubs))?;
    ensure!(V::v_deal(&mut w, &encs[me]).is_err(), "process_encrypted_deal:accepts a deal of another dealer");
    let mut pubs2 = com.pubs.clone();
    pubs2.swap(me, other);
    let mut w = okr("new_verifier", V::verifier(&com.keys[me], &com.dpub, &pubs2))?;
    ensure!(V::v_deal(&mut w, &encs[me]).is_err(), "process_encrypted_deal:accepts a deal for another committee");
    // its own
    let plain = okr("decrypt_deal", V::decrypt(&v, &encs[me]))?;
    ensure_eq!(V::mdeal(&plain), deals[me], "decrypt_deal:other content");
    ensure!(v == before, "decrypt_deal:changes the verifier");
    let r = V::mresp(&okr("process_encrypted_deal", V::v_deal(&mut v, &encs[me]))?);
    ensure!(r.ok, "process_encrypted_deal:honest deal not approved", "n={} t={} me={me}", c.n, c.t);
    ensure!(r.index == me as u32 && r.session_id == sid, "response:index or session", "{r:?}");
    ensure!(sig_ok(&com.pubs[me], &r), "response:signature invalid");
    ensure_eq!(V::v_sid(&v), sid, "verifier:session id");
    let after = v.clone();
    for e in [&encs[me], &again, &encs[other]] {
        ensure!(V::v_deal(&mut v, e).is_err(), "process_encrypted_deal:second deal accepted");
        ensure!(v == after, "process_encrypted_deal:second deal changes the verifier");
    }
    Ok(Obs::nt(true)
        .label_if(c.dealer_in, "dealer participates")
        .label_if(c.t == c.n, "t=n")
        .label_if(expected, "threshold expected")
        .label_if(c.t < V::minimum_t(c.n), "t below minimum_t"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum DMut {
    ShareAdd(B32),
    ShareIdx(u16),
    RndAdd(B32),
    RndIdx(u16),
    BothIdx(u16),
    /// shift the share and the constant commitment together
    Shift(B32),
    T(u16),
    CommitAdd(u16, B32),
    CommitSwap(u16, u16),
    CommitPush(B32),
    CommitPop,
    CommitClear,
    /// drop one commitment and lower t with it
    Shorten,
    /// append the identity and raise t with it
    Lengthen,
    Sid(u16, u8),
    SidCut(u16),
    SidFix,
    /// take one part from a second deal of the same dealer
    FromOther(u8),
    /// the deal of another participant
    DealOf(u16),
    /// a commitment moved by a point of order 8, 4 or 2
    Torsion(u16, u8),
}
fn dmut() -> impl Strategy<Value = DMut> {
    prop_oneof![
        3 => nz_scalar().prop_map(DMut::ShareAdd),
        1 => Just(DMut::ShareAdd(B32({let mut b=[0;32]; b[0]=1; b}))),
        2 => any::<u16>().prop_map(DMut::ShareIdx),
        2 => nz_scalar().prop_map(DMut::RndAdd),
        2 => any::<u16>().prop_map(DMut::RndIdx),
        1 => any::<u16>().prop_map(DMut::BothIdx),
        2 => nz_scalar().prop_map(DMut::Shift),
        2 => any::<u16>().prop_map(DMut::T),
        3 => (any::<u16>(), nz_scalar()).prop_map(|(a, b)| DMut::CommitAdd(a, b)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| DMut::CommitSwap(a, b)),
        1 => nz_scalar().prop_map(DMut::CommitPush),
        1 => Just(DMut::CommitPop),
        1 => Just(DMut::CommitClear),
        1 => Just(DMut::Shorten),
        1 => Just(DMut::Lengthen),
        2 => (any::<u16>(), 1u8..).prop_map(|(a, b)| DMut::Sid(a, b)),
        1 => any::<u16>().prop_map(DMut::SidCut),
        2 => any::<u8>().prop_map(DMut::FromOther),
        1 => any::<u16>().prop_map(DMut::DealOf),
        1 => (any::<u16>(), 1u8..8).prop_map(|(a, b)| DMut::Torsion(a, b)),
    ]
}
fn pick_t(k: u16, n: usize, t: usize) -> usize {
    let v = [0, 1, 2, t.wrapping_sub(1), t + 1, n, n + 1, t + (1 << 32), usize::MAX, 1 << 31, (1 << 32) - 1];
    v[k as usize % v.len()]
}
fn pick_i(k: u16, n: usize, me: usize) -> usize {
    let v = [0, me + 1, me.wrapping_sub(1), n - 1, n, n + 1, me + (1 << 32), usize::MAX, usize::MAX - 1, (1 << 32) - 1];
    v[k as usize % v.len()]
}
fn torsion(k: u8) -> Point {
    use kyber_rs::encoding::BinaryUnmarshaler;
    let mut q = Point::default();
    q.unmarshal_binary(&rm::c().torsion[k as usize % 8].encode()).expect("torsion point decodes");
    q
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct BadDeal {
    seed: u64,
    n: usize,
    t: usize,
    me: u16,
    muts: Vec<DMut>,
    expect: Option<u16>,
}
fn apply<V: Vss>(m: &mut MDeal, x: &DMut, c: &Com, me: usize, t: usize, all: &[MDeal], other: &[MDeal]) {
    let n = c.n;
    match x {
        DMut::ShareAdd(b) => m.sec_share.v = add_sc(&m.sec_share.v, &sc(b)),
        DMut::ShareIdx(k) => m.sec_share.i = pick_i(*k, n, me),
        DMut::RndAdd(b) => {
            if let Some(r) = m.rnd_share.as_mut() {
                r.v = add_sc(&r.v, &sc(b))
            }
        }
        DMut::RndIdx(k) => {
            if let Some(r) = m.rnd_share.as_mut() {
                r.i = pick_i(*k, n, me)
            }
        }
        DMut::BothIdx(k) => {
            m.sec_share.i = pick_i(*k, n, me);
            if let Some(r) = m.rnd_share.as_mut() {
                r.i = pick_i(*k, n, me)
            }
        }
        DMut::Shift(b) => {
            m.sec_share.v = add_sc(&m.sec_share.v, &sc(b));
            if let Some(c0) = m.commitments.first_mut() {
                *c0 = padd(c0, &base_mul(&sc(b)));
            }
        }
        DMut::T(k) => m.t = pick_t(*k, n, t),
        DMut::CommitAdd(k, b) => {
            let l = m.commitments.len().max(1);
            if let Some(p) = m.commitments.get_mut(*k as usize % l) {
                *p = padd(p, &base_mul(&sc(b)));
            }
        }
        DMut::CommitSwap(a, b) => {
            let l = m.commitments.len();
            if l > 0 {
                m.commitments.swap(*a as usize % l, *b as usize % l);
            }
        }
        DMut::CommitPush(b) => m.commitments.push(base_mul(&sc(b))),
        DMut::CommitPop => {
            m.commitments.pop();
        }
        DMut::CommitClear => m.commitments.clear(),
        DMut::Shorten => {
            m.commitments.pop();
            m.t = m.t.wrapping_sub(1);
        }
        DMut::Lengthen => {
            m.commitments.push(suite().point().null());
            m.t = m.t.wrapping_add(1);
        }
        DMut::Sid(k, b) => {
            let l = m.session_id.len().max(1);
            if let Some(x) = m.session_id.get_mut(*k as usize % l) {
                *x ^= b;
            }
        }
        DMut::SidCut(k) => {
            let l = m.session_id.len();
            if l > 0 {
                m.session_id.truncate(*k as usize % l);
            }
        }
        DMut::SidFix => m.session_id = session_id(&c.dpub, &c.pubs, &m.commitments, m.t),
        DMut::FromOther(k) => match k % 4 {
            0 => m.session_id = other[me].session_id.clone(),
            1 => m.sec_share = other[me].sec_share.clone(),
            2 => m.commitments = other[me].commitments.clone(),
            _ => m.rnd_share = other[me].rnd_share.clone(),
        },
        DMut::DealOf(k) => *m = all[*k as usize % n].clone(),
        DMut::Torsion(k, b) => {
            let l = m.commitments.len().max(1);
            if let Some(p) = m.commitments.get_mut(*k as usize % l) {
                *p = padd(p, &torsion(*b));
            }
        }
    }
}
fn bad_strat() -> impl Strategy<Value = BadDeal> {
    (
        any::<u64>(),
        nt_pair(8),
        any::<u16>(),
        prop::collection::vec(dmut(), 1..=3),
        any::<bool>(),
        prop::option::weighted(0.3, any::<u16>()),
    )
        .prop_map(|(seed, (n, t), me, mut muts, fix, expect)| {
            if fix {
                muts.push(DMut::SidFix);
            }
            BadDeal { seed, n, t, me, muts, expect }
        })
}
fn bad_deal<V: Vss>(c: &BadDeal) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let me = c.me as usize % c.n;
    let mut d = dealer::<V>(&com, &key_of(c.seed, 77), c.t)?;
    let mut d2 = dealer::<V>(&com, &key_of(c.seed, 78), c.t)?;
    let all: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d, i).unwrap())).collect();
    let other: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d2, i).unwrap())).collect();
    let mut m = all[me].clone();
    for x in &c.muts {
        apply::<V>(&mut m, x, &com, me, c.t, &all, &other);
    }
    *V::plain(&mut d, me).unwrap() = V::deal(&m);
    let enc = okr("encrypted_deal", V::encrypt(&d, me))?;
    let mut v = verifier::<V>(&com, me)?;
    let mut want = 0;
    if let Some(k) = c.expect {
        let w = 2 + k as usize % (c.n - 1);
        if V::v_expect_t(&mut v, w) {
            want = w;
        }
    }
    let before = v.clone();
    let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v, &enc))?;
    if m.sec_share.i != me {
        ensure!(r.is_err(), "bad deal:share of another index processed", "{m:?}");
        ensure!(v == before, "bad deal:rejected deal changes the verifier");
        return Ok(Obs::nt(true).label("index of someone else"));
    }
    let valid = V::oracle_valid(&m, me, &com.dpub, &com.pubs, want);
    let r = match r {
        Ok(r) => V::mresp(&r),
        Err(e) => {
            ensure!(!valid, "bad deal:valid deal rejected", "{e} for {m:?}");
            ensure!(!V::v_certified(&v), "bad deal:certified");
            return Ok(Obs::nt(true).label("error"));
        }
    };
    if r.ok != valid {
        let what = if r.ok { "bad deal:invalid deal approved" } else { "bad deal:valid deal gets a complaint" };
        return fail(what, format!("n={} t={} me={me} expected t={want} after {:?}: {m:?}", c.n, c.t, c.muts));
    }
    ensure_eq!(r.index, me as u32, "bad deal:response index");
    ensure_eq!(r.session_id, session_id(&com.dpub, &com.pubs, &m.commitments, m.t), "bad deal:response session");
    ensure!(sig_ok(&com.pubs[me], &r), "bad deal:response signature");
    // whatever the others say, an unresolved complaint keeps the deal from being used
    for i in 0..c.n {
        if i != me {
            let rr = MResp::new(&V::v_sid(&v), i as u32, true, &com.keys[i]);
            V::v_resp(&mut v, &V::resp(&rr)).ok();
        }
    }
    if !valid {
        ensure!(V::v_getdeal(&v).is_none(), "bad deal:usable in spite of the own complaint");
        if !V::RABIN {
            ensure!(!V::v_certified(&v), "bad deal:certified in spite of the own complaint");
        }
    } else {
        let got = V::v_getdeal(&v);
        ensure!(got.is_some(), "bad deal:valid deal with all approvals not certified");
        ensure_eq!(V::mdeal(&got.unwrap()), m, "bad deal:other deal");
    }
    Ok(Obs::nt(true)
        .label(if valid { "valid after all" } else { "complaint" })
        .label_if(want != 0, "threshold expected"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum EMut {
    Cipher(u16, u8),
    CipherCut(u16),
    CipherAdd(Bs),
    Nonce(u8, u8),
    NonceLen(Bs),
    Dh(u16, B32),
    DhTorsion(u8),
    Sig(u16, u8),
    SigCut(u16),
    SigAdd(Bs),
    /// take parts (bits of the mask) from another encryption of this participant's deal
    Mix(u8),
    /// parts from another participant's encrypted deal
    MixOther(u8, u16),
    /// sign the ephemeral key with another key
    Resign(u16),
    /// a complete encrypted deal made by someone else for this participant
    Impostor(u16),
}
fn emut() -> impl Strategy<Value = EMut> {
    prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| EMut::Cipher(a, b)),
        2 => any::<u16>().prop_map(EMut::CipherCut),
        1 => bytes_n(1..=20).prop_map(EMut::CipherAdd),
        2 => (0u8..12, 0u8..8).prop_map(|(a, b)| EMut::Nonce(a, b)),
        2 => bytes(24).prop_map(EMut::NonceLen),
        1 => (any::<u16>(), nz_scalar()).prop_map(|(a, b)| EMut::Dh(a, b)),
        1 => (1u8..8).prop_map(EMut::DhTorsion),
        3 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| EMut::Sig(a, b)),
        1 => any::<u16>().prop_map(EMut::SigCut),
        1 => bytes_n(1..=8).prop_map(EMut::SigAdd),
        2 => (1u8..15).prop_map(EMut::Mix),
        2 => (1u8..16, any::<u16>()).prop_map(|(a, b)| EMut::MixOther(a, b)),
        1 => any::<u16>().prop_map(EMut::Resign),
        1 => any::<u16>().prop_map(EMut::Impostor),
    ]
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tamper {
    seed: u64,
    n: usize,
    t: usize,
    me: u16,
    muts: Vec<EMut>,
}
fn tamper<V: Vss>(c: &Tamper) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let me = c.me as usize % c.n;
    let d = dealer::<V>(&com, &key_of(c.seed, 77), c.t)?;
    let genuine = okr("encrypted_deal", V::encrypt(&d, me))?;
    let mg = V::menc(&genuine);
    let second = V::menc(&okr("encrypted_deal", V::encrypt(&d, me))?);
    let mut v = verifier::<V>(&com, me)?;
    let before = v.clone();
    let mut tried = 0;
    for x in &c.muts {
        let mut e = mg.clone();
        let take = |e: &mut MEnc, o: &MEnc, mask: u8| {
            if mask & 1 != 0 {
                e.dhkey = o.dhkey.clone();
            }
            if mask & 2 != 0 {
                e.signature = o.signature.clone();
            }
            if mask & 4 != 0 {
                e.cipher = o.cipher.clone();
            }
            if mask & 8 != 0 {
                e.nonce = o.nonce.clone();
            }
        };
        match x {
            EMut::Cipher(k, b) => {
                let l = e.cipher.len();
                e.cipher[*k as usize % l] ^= 1 << b
            }
            EMut::CipherCut(k) => {
                let l = e.cipher.len();
                e.cipher.truncate(*k as usize % l)
            }
            EMut::CipherAdd(b) => e.cipher.extend(&b.0),
            EMut::Nonce(k, b) => {
                let l = e.nonce.len();
                e.nonce[*k as usize % l] ^= 1 << b
            }
            EMut::NonceLen(b) => e.nonce = b.0.clone(),
            EMut::Dh(_, b) => e.dhkey = padd(&e.dhkey, &base_mul(&sc(b))),
            EMut::DhTorsion(b) => e.dhkey = padd(&e.dhkey, &torsion(*b)),
            EMut::Sig(k, b) => {
                let l = e.signature.len();
                e.signature[*k as usize % l] ^= 1 << b
            }
            EMut::SigCut(k) => {
                let l = e.signature.len();
                e.signature.truncate(*k as usize % l)
            }
            EMut::SigAdd(b) => e.signature.extend(&b.0),
            EMut::Mix(m) => {
                let m = m % 15;
                take(&mut e, &second, m);
                // both keys are genuine: key and signature together with the cipher are one message
                if m & 7 == 7 {
                    continue;
                }
            }
            EMut::MixOther(m, k) => {
                let o = (me + 1 + *k as usize % (c.n - 1)) % c.n;
                let o = V::menc(&okr("encrypted_deal", V::encrypt(&d, o))?);
                take(&mut e, &o, *m);
            }
            EMut::Resign(k) => {
                let o = (me + 1 + *k as usize % (c.n - 1)) % c.n;
                e.signature = sign(&com.keys[o], &penc(&e.dhkey));
            }
            EMut::Impostor(k) => {
                let o = (me + 1 + *k as usize % (c.n - 1)) % c.n;
                let imp = okr("new_dealer", V::dealer(&com.keys[o], &key_of(c.seed, 79), &com.pubs, c.t))?;
                e = V::menc(&okr("encrypted_deal", V::encrypt(&imp, me))?);
            }
        }
        if e == mg {
            continue;
        }
        tried += 1;
        let e = V::enc(&e);
        let r = nopanic("decrypt_deal", || V::decrypt(&v, &e))?;
        ensure!(r.is_err(), "tampered deal:decrypted", "{x:?}");
        let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v, &e))?;
        ensure!(r.is_err(), "tampered deal:processed", "{x:?}");
        ensure!(v == before, "tampered deal:changes the verifier", "{x:?}");
    }
    let r = V::mresp(&okr("process_encrypted_deal after rejected deals", V::v_deal(&mut v, &genuine))?);
    ensure!(r.ok, "tampered deal:genuine deal not approved afterwards");
    Ok(Obs::nt(tried > 0))
}

// ------------------------------------------------------------------ C18
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Sid {
    Mine,
    Other,
    Empty,
    Random(B32),
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Auth {
    Good,
    /// signed by another participant
    By(u16),
    Outsider,
    FlipBit(u16),
    None,
    /// the valid signature of the same sender over the opposite status
    Opposite,
    /// the valid signature over the other session
    OtherSession,
    /// valid signature of another participant's response
    OtherIndex(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    Deal,
    Resp { from: u16, ok: bool, sid: Sid, auth: Auth, oob: Option<u16> },
    Timeout,
    /// genuine justification by the dealer
    Just(u16),
    /// dealer-signed justification whose share is wrong
    BadJust(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    seed: u64,
    n: usize,
    t: usize,
    me: u16,
    bad_own: bool,
    evs: Vec<Ev>,
}
fn ev(n: usize) -> impl Strategy<Value = Ev> {
    let n = n as u16;
    let sid = prop_oneof![12 => Just(Sid::Mine), 2 => Just(Sid::Other), 1 => Just(Sid::Empty), 1 => rand32().prop_map(Sid::Random)];
    let auth = prop_oneof![
        14 => Just(Auth::Good),
        1 => (0..n).prop_map(Auth::By),
        1 => Just(Auth::Outsider),
        1 => any::<u16>().prop_map(Auth::FlipBit),
        1 => Just(Auth::None),
        1 => Just(Auth::Opposite),
        1 => Just(Auth::OtherSession),
        1 => (0..n).prop_map(Auth::OtherIndex),
    ];
    prop_oneof![
        3 => Just(Ev::Deal),
        24 => (0..n, prop::bool::weighted(0.75), sid, auth, prop::option::weighted(0.04, any::<u16>())).prop_map(|(from, ok, sid, auth, oob)| Ev::Resp { from, ok, sid, auth, oob }),
        2 => Just(Ev::Timeout),
        5 => (0..n).prop_map(Ev::Just),
        1 => (0..n).prop_map(Ev::BadJust),
    ]
}
fn hist_strat(max_n: usize) -> impl Strategy<Value = Hist> {
    (any::<u64>(), nt_pair(max_n), any::<u16>(), prop::bool::weighted(0.15), any::<Vec<u16>>())
        .prop_flat_map(|(seed, (n, t), me, bad_own, keys)| {
            // most histories contain one genuine response of everybody, in some order
            let full = (0..n as u16, prop::collection::vec((any::<u16>(), prop::bool::weighted(0.8), prop::bool::weighted(0.9)), n)).prop_map(move |(_, v)| {
                let mut o: Vec<(u16, Ev)> = v
                    .iter()
                    .enumerate()
                    .filter(|(_, (_, _, keep))| *keep)
                    .map(|(i, (k, ok, _))| (*k, Ev::Resp { from: i as u16, ok: *ok, sid: Sid::Mine, auth: Auth::Good, oob: None }))
                    .collect();
                o.push((0x3000, Ev::Deal));
                o
            });
            let extra = prop::collection::vec((any::<u16>(), ev(n)), 0..=(2 * n + 4));
            // a complaint and what follows it, each at its time
            let episode = prop::option::weighted(0.4, (0..n as u16, prop::collection::vec((any::<u16>(), 0u8..4), 1..5), any::<u16>()));
            (Just((seed, n, t, me, bad_own, keys)), prop::option::weighted(0.8, full), extra, episode)
        })
        .prop_map(|((seed, n, t, me, bad_own, _), full, extra, episode)| {
            let mut all: Vec<(u16, Ev)> = full.unwrap_or_default();
            if let Some((k, what, at)) = episode {
                all.retain(|(_, e)| !matches!(e, Ev::Resp { from, .. } if *from == k));
                all.push((at, Ev::Resp { from: k, ok: false, sid: Sid::Mine, auth: Auth::Good, oob: None }));
                for (x, w) in what {
                    let e = match w {
                        0 => Ev::Timeout,
                        1 => Ev::BadJust(k),
                        _ => Ev::Just(k),
                    };
                    all.push((if w == 0 { x } else { x | 0x4000 }, e));
                }
            }
            all.extend(extra);
            all.sort_by_key(|e| e.0);
            Hist { seed, n, t, me, bad_own, evs: all.into_iter().map(|e| e.1).collect() }
        })
}
/// What a participant must have recorded, and the documented certification rule.
#[derive(Clone, Debug)]
struct Model {
    rabin: bool,
    n: usize,
    t: usize,
    /// session known (deal processed, or the dealer itself)
    known: bool,
    own_valid: bool,
    timeout: bool,
    bad: bool,
    resp: BTreeMap<u32, (bool, Vec<u8>)>,
}
impl Model {
    fn certified(&self) -> bool {
        if !self.known || self.bad {
            return false;
        }
        let app = self.resp.values().filter(|r| r.0).count();
        let missing = self.n - self.resp.len();
        if app < self.t {
            return false;
        }
        if self.rabin {
            return missing == 0;
        }
        if app < self.resp.len() {
            return false;
        }
        missing == 0 || (self.timeout && missing <= self.n - self.t)
    }
}
fn observe<V: Vss>(v: &V::Verifier, m: &Model, me: usize, ctx: &dyn Fn() -> String) -> Result<(), Fail> {
    if V::RABIN && !m.known {
        return Ok(()); // nothing to look at before the deal
    }
    let got = V::v_certified(v);
    ensure!(got == m.certified(), if got { "certified:although the rule does not hold" } else { "certified:not although the rule holds" }, "{} model {m:?}", ctx());
    if let Some(rec) = V::v_recorded(v) {
        let want: Vec<(u32, bool)> = m.resp.iter().map(|(i, r)| (*i, r.0)).collect();
        ensure!(rec == want, "responses:recorded differ", "{rec:?} != {want:?} {}", ctx());
        let miss: Vec<usize> = (0..m.n).filter(|i| !m.resp.contains_key(&(*i as u32))).collect();
        ensure_eq!(V::v_missing(v).unwrap(), miss, "missing_responses:wrong");
    }
    let usable = m.certified() && m.resp.get(&(me as u32)).is_some_and(|r| r.0);
    ensure!(V::v_getdeal(v).is_some() == usable, "deal():available exactly when certified", "{} model {m:?}", ctx());
    Ok(())
}
fn history<V: Vss>(c: &Hist) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let me = c.me as usize % c.n;
    let (ka, kb) = (key_of(c.seed, 77), key_of(c.seed, 78));
    let mut da = dealer::<V>(&com, &ka, c.t)?;
    let db = dealer::<V>(&com, &kb, c.t)?;
    let (sa, sb) = (V::d_sid(&da), V::d_sid(&db));
    let plains: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut da, i).unwrap())).collect();
    let one = Scalar { v: { let mut b = [0u8; 32]; b[0] = 1; b } };
    if c.bad_own {
        let mut m = plains[me].clone();
        m.sec_share.v = add_sc(&m.sec_share.v, &one);
        *V::plain(&mut da, me).unwrap() = V::deal(&m);
    }
    let enc = okr("encrypted_deal", V::encrypt(&da, me))?;
    let mut v = verifier::<V>(&com, me)?;
    let mut m = Model { rabin: V::RABIN, n: c.n, t: c.t, known: false, own_valid: !c.bad_own, timeout: false, bad: false, resp: BTreeMap::new() };
    let (mut rejected, mut certified, mut justified, mut predeal) = (0, false, 0, 0);
    let mut trace: Vec<String> = vec![];
    for e in &c.evs {
        let before = v.clone();
        let mb = m.clone();
        let (got, want): (Result<(), String>, bool) = match e {
            Ev::Deal => {
                let r = nopanic("process_encrypted_deal", || V::v_deal(&mut v, &enc))?;
                if m.known {
                    (r.map(|_| ()), false)
                } else {
                    let r = match r {
                        Ok(r) => V::mresp(&r),
                        Err(e) => return fail("deal:rejected", format!("{e} after {trace:?}")),
                    };
                    ensure!(r.ok == m.own_valid, "deal:response");
                    m.known = true;
                    m.resp.retain(|_, r| r.1 == sa);
                    m.resp.insert(me as u32, (r.ok, sa.clone()));
                    (Ok(()), true)
                }
            }
            Ev::Timeout => {
                nopanic("set_timeout", || V::v_timeout(&mut v))?;
                if V::RABIN {
                    if m.known {
                        for i in 0..c.n as u32 {
                            m.resp.entry(i).or_insert((false, sa.clone()));
                        }
                    }
                } else {
                    m.timeout = true;
                }
                (Ok(()), true)
            }
            Ev::Resp { from, ok, sid, auth, oob } => {
                let from = *from as usize % c.n;
                // a participant does not answer before its deal
                if from == me && !m.known {
                    continue;
                }
                let s = match sid {
                    Sid::Mine => sa.clone(),
                    Sid::Other => sb.clone(),
                    Sid::Empty => vec![],
                    Sid::Random(b) => b.0.to_vec(),
                };
                let oth = |k: &u16| (from + 1 + *k as usize % (c.n - 1)) % c.n;
                let mut r = MResp::new(&s, from as u32, *ok, &com.keys[from]);
                let mut authentic = true;
                match auth {
                    Auth::Good => {}
                    Auth::By(k) => {
                        r.signature = sign(&com.keys[oth(k)], &r.hash());
                        authentic = false;
                    }
                    Auth::Outsider => {
                        r.signature = sign(&com.outsider(3), &r.hash());
                        authentic = false;
                    }
                    Auth::FlipBit(k) => {
                        let k = *k as usize % (r.signature.len() * 8);
                        r.signature[k / 8] ^= 1 << (k % 8);
                        authentic = false;
                    }
                    Auth::None => {
                        r.signature.clear();
                        authentic = false;
                    }
                    Auth::Opposite => {
                        r.signature = MResp::new(&s, from as u32, !*ok, &com.keys[from]).signature;
                        authentic = false;
                    }
                    Auth::OtherSession => {
                        let o = if s == sb { &sa } else { &sb };
                        r.signature = MResp::new(o, from as u32, *ok, &com.keys[from]).signature;
                        authentic = false;
                    }
                    Auth::OtherIndex(k) => {
                        r.index = oth(k) as u32;
                        authentic = false;
                    }
                }
                if let Some(k) = oob {
                    let v = [c.n as u32, c.n as u32 + 1, u32::MAX, 1 << 31, (1 << 16) + from as u32];
                    r.index = v[*k as usize % v.len()];
                    r.signature = sign(&com.keys[from], &r.hash());
                    authentic = false;
                }
                if authentic && from == me && !m.resp.contains_key(&(me as u32)) {
                    continue;
                }
                let right = if m.known { s == sa } else { !V::RABIN };
                let first = !m.resp.contains_key(&r.index);
                let accept = authentic && right && first;
                if accept {
                    m.resp.insert(r.index, (*ok, s));
                    if !m.known {
                        predeal += 1;
                    }
                }
                let rr = V::resp(&r);
                (nopanic("process_response", || V::v_resp(&mut v, &rr))?, accept)
            }
            Ev::Just(k) => {
                let k = *k as usize % c.n;
                let j = V::make_just(&sa, k as u32, &plains[k], &com.dlong);
                let jj = V::just(&j);
                // before the deal a justification is judged against the complaints known by then
                let complaint = m.resp.get(&(k as u32)).is_some_and(|r| !r.0);
                if !m.known && complaint && m.resp[&(k as u32)].1 != sa {
                    continue; // session of the recorded complaint not decided yet
                }
                if complaint {
                    m.resp.get_mut(&(k as u32)).unwrap().0 = true;
                    justified += 1;
                }
                (nopanic("process_justification", || V::v_just(&mut v, &jj))?, complaint)
            }
            Ev::BadJust(k) => {
                let k = *k as usize % c.n;
                let complaint = m.resp.get(&(k as u32)).is_some_and(|r| !r.0);
                if !m.known && complaint && m.resp[&(k as u32)].1 != sa {
                    continue;
                }
                let mut d = plains[k].clone();
                d.sec_share.v = add_sc(&d.sec_share.v, &one);
                let j = V::just(&V::make_just(&sa, k as u32, &d, &com.dlong));
                let r = nopanic("process_justification", || V::v_just(&mut v, &j))?;
                ensure!(r.is_err(), "justification:wrong share accepted");
                if complaint {
                    m.bad = true;
                    trace.push(format!("{e:?}"));
                    observe::<V>(&v, &m, me, &|| format!("after {trace:?}"))?;
                    continue;
                }
                (r, false)
            }
        };
        trace.push(format!("{e:?}={}", got.is_ok()));
        if got.is_ok() != want {
            let sig = format!("{}:{}", match e { Ev::Deal => "deal", Ev::Resp { .. } => "response", Ev::Timeout => "timeout", _ => "justification" }, if want { "rejected" } else { "accepted" });
            return fail(sig, format!("{got:?} for {e:?} after {trace:?}; model before {mb:?}"));
        }
        if !want {
            rejected += 1;
            ensure!(v == before, "rejected message:changes the participant", "{e:?} after {trace:?}");
        }
        observe::<V>(&v, &m, me, &|| format!("after {trace:?}"))?;
        certified |= m.certified();
    }
    Ok(Obs::nt(m.resp.len() >= 2 && m.known)
        .label_if(rejected > 0, "rejections")
        .label_if(certified, "certified at some point")
        .label_if(m.certified(), "certified at the end")
        .label_if(m.bad, "bad dealer")
        .label_if(m.timeout || c.evs.iter().any(|e| matches!(e, Ev::Timeout)), "timeout")
        .label_if(justified > 0, "justified complaint")
        .label_if(predeal > 0, "responses before the deal"))
}
/// the dealer's own view
fn dealer_view<V: Vss>(c: &Hist) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let (ka, kb) = (key_of(c.seed, 77), key_of(c.seed, 78));
    let mut d = dealer::<V>(&com, &ka, c.t)?;
    let db = dealer::<V>(&com, &kb, c.t)?;
    let (sa, sb) = (V::d_sid(&d), V::d_sid(&db));
    let plains: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d, i).unwrap())).collect();
    let badi = c.me as usize % c.n;
    if c.bad_own {
        let mut m = plains[badi].clone();
        m.sec_share.v = add_sc(&m.sec_share.v, &key_of(c.seed, 99));
        *V::plain(&mut d, badi).unwrap() = V::deal(&m);
    }
    let mut m = Model { rabin: V::RABIN, n: c.n, t: c.t, known: true, own_valid: true, timeout: false, bad: false, resp: BTreeMap::new() };
    let (mut cert, mut justs) = (false, 0);
    for e in &c.evs {
        let before = d.clone();
        match e {
            Ev::Timeout => {
                V::d_timeout(&mut d);
                if V::RABIN {
                    for i in 0..c.n as u32 {
                        m.resp.entry(i).or_insert((false, sa.clone()));
                    }
                } else {
                    m.timeout = true;
                }
            }
            Ev::Resp { from, ok, sid, auth, .. } => {
                let from = *from as usize % c.n;
                let s = match sid {
                    Sid::Mine => sa.clone(),
                    Sid::Other => sb.clone(),
                    Sid::Empty => vec![],
                    Sid::Random(b) => b.0.to_vec(),
                };
                let mut r = MResp::new(&s, from as u32, *ok, &com.keys[from]);
                let authentic = match auth {
                    Auth::Good => true,
                    Auth::Opposite => {
                        r.ok = !r.ok;
                        false
                    }
                    _ => {
                        r.signature = sign(&com.outsider(3), &r.hash());
                        false
                    }
                };
                let accept = authentic && s == sa && !m.resp.contains_key(&(from as u32));
                let rr = V::resp(&r);
                let got = nopanic("dealer process_response", || V::d_resp(&mut d, &rr))?;
                ensure!(got.is_ok() == accept, if accept { "dealer:response rejected" } else { "dealer:response accepted" }, "{e:?}");
                match got {
                    Err(_) => ensure!(d == before, "dealer:rejected response changes the dealer"),
                    Ok(None) => {
                        ensure!(*ok, "dealer:complaint not answered");
                        m.resp.insert(from as u32, (true, s));
                    }
                    Ok(Some(j)) => {
                        ensure!(!*ok, "dealer:approval answered by a justification");
                        justs += 1;
                        let j = V::mjust(&j);
                        ensure!(j.index == from as u32 && j.session_id == sa, "dealer:justification index or session");
                        ensure!(j.deal == V::mdeal(V::plain(&mut d, from).unwrap()), "dealer:justification reveals another deal");
                        ensure!(
                            kyber_rs::sign::schnorr::verify(suite(), &com.dpub, &V::just_hash(&j), &j.signature).is_ok(),
                            "dealer:justification not signed"
                        );
                        let honest = !(c.bad_own && from == badi);
                        m.resp.insert(from as u32, (honest, s));
                        m.bad |= !honest;
                    }
                }
            }
            _ => {}
        }
        let got = V::d_certified(&d);
        ensure!(got == m.certified(), if got { "dealer certified:although the rule does not hold" } else { "dealer certified:not although the rule holds" }, "{m:?}");
        let sc = V::d_secret_commit(&d);
        ensure!(sc.is_some() == m.certified(), "secret_commit:available exactly when certified");
        if let Some(p) = sc {
            ensure_eq!(penc(&p), penc(&base_mul(&ka)), "secret_commit:wrong");
        }
        ensure!(V::d_commits(&d).is_some() || !m.certified(), "commits:not available although certified");
        ensure!(V::d_commits(&d).is_none() || m.certified() || !V::RABIN, "commits:available before certification");
        if let (true, Some(co)) = (m.certified(), V::d_commits(&d)) {
            ensure!(co.len() == c.t && penc(&co[0]) == penc(&base_mul(&ka)), "commits:wrong");
        }
        cert |= m.certified();
    }
    Ok(Obs::nt(m.resp.len() >= 2).label_if(cert, "certified").label_if(justs > 0, "justification").label_if(m.bad, "bad dealer"))
}

// ---- the bookkeeping both roles share, driven directly
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Role {
    Dealer,
    Verifier(u16),
    /// an aggregator on its own, told the threshold or not
    Observer(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum DealMut {
    Genuine,
    Share,
    SecondShare,
    Index(u16),
    Session(u16),
    OtherSession,
    Threshold(u16),
    Commitment(u16),
    Short,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum AEv {
    Deal { of: u16, how: DealMut, inclusion: bool },
    Resp { from: u16, ok: bool, sid: Sid, forged: bool },
    /// recorded without verification
    Add { index: u16, ok: bool, beyond: bool },
    Unsafe { index: u16, ok: bool, beyond: bool },
    Clean,
    Timeout,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct AHist {
    seed: u64,
    n: usize,
    t: usize,
    role: Role,
    evs: Vec<AEv>,
}
fn ahist_strat() -> impl Strategy<Value = AHist> {
    let role = prop_oneof![2 => Just(Role::Dealer), 2 => any::<u16>().prop_map(Role::Verifier), 1 => any::<bool>().prop_map(Role::Observer)];
    let how = prop_oneof![
        8 => Just(DealMut::Genuine),
        2 => Just(DealMut::Share),
        1 => Just(DealMut::SecondShare),
        1 => any::<u16>().prop_map(DealMut::Index),
        1 => any::<u16>().prop_map(DealMut::Session),
        1 => Just(DealMut::OtherSession),
        1 => any::<u16>().prop_map(DealMut::Threshold),
        1 => any::<u16>().prop_map(DealMut::Commitment),
        1 => Just(DealMut::Short),
    ];
    let sid = prop_oneof![12 => Just(Sid::Mine), 1 => Just(Sid::Other), 1 => Just(Sid::Empty), 1 => rand32().prop_map(Sid::Random)];
    let ok = || prop::bool::weighted(0.85);
    let e = prop_oneof![
        6 => (any::<u16>(), how, any::<bool>()).prop_map(|(of, how, inclusion)| AEv::Deal { of, how, inclusion }),
        8 => (any::<u16>(), ok(), sid, prop::bool::weighted(0.1)).prop_map(|(from, ok, sid, forged)| AEv::Resp { from, ok, sid, forged }),
        4 => (any::<u16>(), ok(), prop::bool::weighted(0.1)).prop_map(|(index, ok, beyond)| AEv::Add { index, ok, beyond }),
        3 => (any::<u16>(), ok(), prop::bool::weighted(0.1)).prop_map(|(index, ok, beyond)| AEv::Unsafe { index, ok, beyond }),
        1 => Just(AEv::Clean),
        1 => Just(AEv::Timeout),
    ];
    (any::<u64>(), nt_pair(7), role).prop_flat_map(move |(seed, (n, t), role)| {
        (Just((seed, n, t, role)), prop::collection::vec(e.clone(), 1..=(3 * n + 4))).prop_map(|((seed, n, t, role), evs)| AHist { seed, n, t, role, evs })
    })
}
enum Hold<V: Vss> {
    D(V::Dealer),
    V(V::Verifier),
    A(V::Agg),
}
impl<V: Vss> Hold<V> {
    fn agg(&mut self) -> &mut V::Agg {
        match self {
            Hold::D(d) => V::d_agg(d),
            Hold::V(v) => V::v_agg(v),
            Hold::A(a) => a,
        }
    }
}
fn aggregator<V: Vss>(c: &AHist) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let (ka, kb) = (key_of(c.seed, 77), key_of(c.seed, 78));
    let mut da = dealer::<V>(&com, &ka, c.t)?;
    let mut db = dealer::<V>(&com, &kb, c.t)?;
    let (sa, sb) = (V::d_sid(&da), V::d_sid(&db));
    let plains: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut da, i).unwrap())).collect();
    let foreign: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut db, i).unwrap())).collect();
    let one = key_of(1, 1);
    let mut m = Model { rabin: V::RABIN, n: c.n, t: c.t, known: true, own_valid: true, timeout: false, bad: false, resp: BTreeMap::new() };
    // the session is known; a deal has been seen
    let (mut session, mut seen) = (true, false);
    let mut role = c.role.clone();
    if let Role::Observer(_) = role {
        if V::a_new(&com.pubs).is_none() {
            role = Role::Dealer;
        }
    }
    let mut h: Hold<V> = match &role {
        Role::Dealer => Hold::D(da),
        Role::Verifier(me) => {
            let me = *me as usize % c.n;
            let mut v = verifier::<V>(&com, me)?;
            okr("process_encrypted_deal", V::v_deal(&mut v, &okr("encrypted_deal", V::encrypt(&da, me))?))?;
            seen = true;
            m.resp.insert(me as u32, (true, sa.clone()));
            Hold::V(v)
        }
        Role::Observer(told) => {
            let mut a = V::a_new(&com.pubs).unwrap();
            session = false;
            m.known = *told;
            if *told {
                V::a_expect_t(&mut a, c.t);
            }
            Hold::A(a)
        }
    };
    let mut trace: Vec<String> = vec![];
    let (mut deals, mut rejected, mut cert) = (0, 0, false);
    for e in &c.evs {
        let before = h.agg().clone();
        let (name, got, want, changes) = match e {
            AEv::Deal { of, how, inclusion } => {
                let i = *of as usize % c.n;
                let mut d = plains[i].clone();
                match how {
                    DealMut::Genuine => {}
                    DealMut::Share => d.sec_share.v = add_sc(&d.sec_share.v, &one),
                    DealMut::SecondShare => match d.rnd_share.as_mut() {
                        Some(r) => r.v = add_sc(&r.v, &one),
                        None => d.sec_share.v = add_sc(&d.sec_share.v, &one),
                    },
                    DealMut::Index(k) => {
                        let x = [c.n, c.n + 1, 1 << 32, usize::MAX, (i + 1) % c.n];
                        d.sec_share.i = x[*k as usize % x.len()];
                        if let (0x8000.., Some(r)) = (*k, d.rnd_share.as_mut()) {
                            r.i = d.sec_share.i;
                        }
                    }
                    DealMut::Session(k) => d.session_id[*k as usize % 32] ^= 1 << (k % 8),
                    DealMut::OtherSession => d = foreign[i].clone(),
                    DealMut::Threshold(k) => d.t = pick_t(*k, c.n, c.t),
                    DealMut::Commitment(k) => {
                        let k = *k as usize % c.t;
                        d.commitments[k] = padd(&d.commitments[k], &base_mul(&one));
                    }
                    DealMut::Short => {
                        d.commitments.pop();
                    }
                }
                let valid = d == plains[i];
                if !seen && !valid {
                    continue; // what a first, invalid deal leaves behind is the verifier's business
                }
                let want = valid && !(seen && *inclusion);
                let first = !seen;
                let dd = V::deal(&d);
                let r = nopanic("verify_deal", || V::a_deal(h.agg(), &dd, *inclusion))?;
                deals += 1;
                if want {
                    (seen, session, m.known) = (true, true, true);
                }
                ("verify_deal", r, want, first)
            }
            AEv::Resp { from, ok, sid, forged } => {
                let from = *from as usize % c.n;
                let s = match sid {
                    Sid::Mine => sa.clone(),
                    _ if !session => sa.clone(),
                    Sid::Other => sb.clone(),
                    Sid::Empty => vec![],
                    Sid::Random(b) => b.0.to_vec(),
                };
                let signer = if *forged { com.outsider(3) } else { com.keys[from].clone() };
                let r = V::resp(&MResp::new(&s, from as u32, *ok, &signer));
                let want = !forged && s == sa && !m.resp.contains_key(&(from as u32));
                if want {
                    m.resp.insert(from as u32, (*ok, s));
                }
                ("response", nopanic("verify_response", || V::a_resp(h.agg(), &r))?, want, true)
            }
            AEv::Add { index, ok, beyond } | AEv::Unsafe { index, ok, beyond } => {
                let far = [c.n as u32, c.n as u32 + 1, 1 << 16, 1 << 31, u32::MAX];
                let i = if *beyond { far[*index as usize % far.len()] } else { (*index as usize % c.n) as u32 };
                let want = (i as usize) < c.n && !m.resp.contains_key(&i);
                let r = match (e, &mut h) {
                    (AEv::Unsafe { .. }, Hold::V(v)) => {
                        nopanic("unsafe_set_response_dkg", || V::v_unsafe(v, i, *ok))?;
                        if want { Ok(()) } else { Err("silent".into()) }
                    }
                    (_, h) => {
                        let r = V::resp(&MResp::new(&sa, i, *ok, &com.outsider(5)));
                        nopanic("add_response", || V::a_add(h.agg(), &r))?
                    }
                };
                if want {
                    m.resp.insert(i, (*ok, sa.clone()));
                }
                ("add_response", r, want, true)
            }
            AEv::Clean => {
                if !nopanic("clean_verifiers", || V::a_clean(h.agg()))? {
                    continue;
                }
                for i in 0..c.n as u32 {
                    m.resp.entry(i).or_insert((false, sa.clone()));
                }
                ("clean_verifiers", Ok(()), true, true)
            }
            AEv::Timeout => {
                match &mut h {
                    Hold::D(d) => V::d_timeout(d),
                    Hold::V(v) => V::v_timeout(v),
                    Hold::A(_) => continue,
                }
                if V::RABIN {
                    for i in 0..c.n as u32 {
                        m.resp.entry(i).or_insert((false, sa.clone()));
                    }
                } else {
                    m.timeout = true;
                }
                ("set_timeout", Ok(()), true, true)
            }
        };
        trace.push(format!("{e:?}={}", got.is_ok()));
        if got.is_ok() != want {
            return fail(format!("{name}:{}", if want { "rejected" } else { "accepted" }), format!("{got:?} after {trace:?}; model {m:?}"));
        }
        rejected += (!want) as usize;
        let a = h.agg();
        ensure!((want && changes) || *a == before, "aggregator:changed by what leaves no trace", "{name} after {trace:?}");
        let cd = V::a_certified(a);
        ensure!(cd == m.certified(), if cd { "certified:although the rule does not hold" } else { "certified:not although the rule holds" }, "after {trace:?} model {m:?}");
        cert |= cd;
        let app = m.resp.values().filter(|r| r.0).count();
        if let Some(en) = V::a_enough(a) {
            ensure!(en == (app >= c.t), "enough_approvals:wrong", "{app} of t={} after {trace:?}", c.t);
        }
        if let Some(rec) = V::a_recorded(a) {
            let want: Vec<(u32, bool)> = m.resp.iter().map(|(i, r)| (*i, r.0)).collect();
            ensure!(rec == want, "responses:recorded differ", "{rec:?} != {want:?} after {trace:?}");
        }
        if let Some(miss) = V::a_missing(a) {
            let want: Vec<usize> = (0..c.n).filter(|i| !m.resp.contains_key(&(*i as u32))).collect();
            ensure_eq!(miss, want, "missing_responses:wrong");
        }
    }
    Ok(Obs::nt(m.resp.len() >= 2 && deals > 0)
        .label_if(rejected > 0, "rejections")
        .label_if(cert, "certified at some point")
        .label_if(matches!(role, Role::Observer(_)), "observer")
        .label_if(matches!(role, Role::Verifier(_)), "verifier"))
}

// ------------------------------------------------------------------ C19
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Resolve {
    seed: u64,
    n: usize,
    t: usize,
    dealer_in: bool,
    /// per participant: 0 approve, 1 complain falsely, 2 gets a bad deal and a good justification,
    /// 3 gets a bad deal and a bad justification, 4 complains falsely and is answered first with a
    /// wrong justification, then with the right one
    kind: Vec<u8>,
    /// delivery keys, per receiver and message
    order: Vec<u16>,
    late_timeout: bool,
    /// receivers whose time is up before anything arrives
    #[serde(default)]
    early_timeout: u8,
}
fn resolve_strat() -> impl Strategy<Value = Resolve> {
    (any::<u64>(), nt_pair(6), any::<bool>())
        .prop_flat_map(|(seed, (n, t), dealer_in)| {
            (
                Just((seed, n, t, dealer_in)),
                prop_oneof![
                    2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)], n),
                    1 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)], n),
                    1 => (0..n).prop_map(move |k| (0..n).map(|i| if i == k { 4 } else { 0 }).collect()),
                    1 => Just(vec![1u8; n]),
                ],
                prop::collection::vec(any::<u16>(), 2 * n * (n + 1)),
                any::<bool>(),
                prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
            )
        })
        .prop_map(|((seed, n, t, dealer_in), kind, order, late_timeout, early_timeout)| Resolve { seed, n, t, dealer_in, kind, order, late_timeout, early_timeout })
}
fn resolve<V: Vss>(c: &Resolve) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, c.dealer_in);
    let secret = key_of(c.seed, 77);
    let mut d = dealer::<V>(&com, &secret, c.t)?;
    let good: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d, i).unwrap())).collect();
    let bad: Vec<MDeal> = good
        .iter()
        .map(|m| {
            let mut m = m.clone();
            m.sec_share.v = add_sc(&m.sec_share.v, &key_of(c.seed, 55));
            m
        })
        .collect();
    let mut vs = vec![];
    let mut resps: Vec<MResp> = vec![];
    for i in 0..c.n {
        let k = c.kind[i];
        if k == 2 || k == 3 {
            *V::plain(&mut d, i).unwrap() = V::deal(&bad[i]);
        }
        let e = okr("encrypted_deal", V::encrypt(&d, i))?;
        if k == 2 {
            *V::plain(&mut d, i).unwrap() = V::deal(&good[i]);
        }
        let mut v = verifier::<V>(&com, i)?;
        let r = V::mresp(&okr("process_encrypted_deal", V::v_deal(&mut v, &e))?);
        ensure!(r.ok == (k < 2 || k == 4), "deal:response");
        if k == 1 || k == 4 {
            // a false complaint, recorded by the others only
            resps.push(MResp::new(&r.session_id, i as u32, false, &com.keys[i]));
        } else {
            resps.push(r);
        }
        vs.push(v);
    }
    // the dealer answers complaints
    let mut justs: Vec<(usize, V::Just)> = vec![];
    for i in perm(&c.order, c.n) {
        let j = okr("dealer process_response", V::d_resp(&mut d, &V::resp(&resps[i])))?;
        ensure!(j.is_some() == !resps[i].ok, "dealer:complaint without justification, or justification of an approval");
        if let Some(j) = j {
            justs.push((i, j));
        }
    }
    let cheated = c.kind.contains(&3);
    let wrong: Vec<usize> = (0..c.n).filter(|i| c.kind[*i] == 4).collect();
    let sid = V::d_sid(&d);
    ensure!(V::d_certified(&d) == !cheated, "dealer:certified view", "cheated {cheated}");
    // everybody receives all responses and justifications in an own order
    for me in 0..c.n {
        let v = &mut vs[me];
        let cheated = cheated || wrong.iter().any(|i| *i != me);
        if !V::RABIN && c.early_timeout >> (me % 8) & 1 == 1 {
            V::v_timeout(v);
        }
        let mut msgs: Vec<(u16, usize, bool)> = vec![]; // key, index, is justification
        for i in 0..c.n {
            if i != me {
                msgs.push((c.order[(me * 2 * c.n + i) % c.order.len()], i, false));
            }
        }
        for (k, (i, _)) in justs.iter().enumerate() {
            msgs.push((c.order[(me * 2 * c.n + c.n + k) % c.order.len()], *i, true));
        }
        msgs.sort();
        let mut recorded: BTreeSet<usize> = [me].into();
        let mut exposed = false;
        let mut todo: std::collections::VecDeque<_> = msgs.into();
        let mut rounds = 0;
        while let Some((k, i, isj)) = todo.pop_front() {
            rounds += 1;
            ensure!(rounds < 1000, "internal:delivery does not end");
            if !isj {
                okr("process_response", V::v_resp(v, &V::resp(&resps[i])))?;
                recorded.insert(i);
            } else {
                let j = &justs.iter().find(|x| x.0 == i).unwrap().1;
                if c.kind[i] == 4 && i != me && recorded.contains(&i) {
                    let bad = V::just(&V::make_just(&sid, i as u32, &bad[i], &com.dlong));
                    ensure!(nopanic("process_justification", || V::v_just(v, &bad))?.is_err(), "justification:invalid deal accepted");
                    ensure!(!V::v_certified(v) && V::v_getdeal(v).is_none(), "cheating dealer:deal certified after the exposure");
                    // whether the right one still counts does not matter
                    let _ = nopanic("process_justification", || V::v_just(v, j))?;
                    exposed = true;
                    ensure!(!V::v_certified(v) && V::v_getdeal(v).is_none(), "cheating dealer:deal certified after the exposure");
                    continue;
                }
                let before = v.clone();
                let r = nopanic("process_justification", || V::v_just(v, j))?;
                if i == me && (c.kind[me] == 1 || c.kind[me] == 4) {
                    // it knows of no complaint: it approved
                    ensure!(r.is_err(), "justification:for an approval accepted");
                    ensure!(*v == before, "justification:rejected one changes the verifier");
                    continue;
                }
                if !recorded.contains(&i) {
                    ensure!(r.is_err(), "justification:without complaint accepted");
                    ensure!(*v == before, "justification:rejected one changes the verifier");
                    todo.push_back((k, i, isj));
                    continue;
                }
                if c.kind[i] == 3 {
                    ensure!(r.is_err(), "justification:invalid deal accepted");
                    exposed = true;
                } else {
                    ensure!(r.is_ok(), "justification:of an honest dealer rejected", "{r:?} kinds {:?} me {me} index {i}", c.kind);
                    let after = v.clone();
                    ensure!(V::v_just(v, j).is_err(), "justification:second one accepted");
                    ensure!(*v == after, "justification:second one changes the verifier");
                }
            }
            if exposed {
                ensure!(!V::v_certified(v) && V::v_getdeal(v).is_none(), "cheating dealer:deal certified after the exposure");
            }
        }
        if c.late_timeout {
            V::v_timeout(v);
        }
        ensure!(V::v_certified(v) == !cheated, if cheated { "cheating dealer:deal certified" } else { "honest dealer:deal not certified" }, "kinds {:?} me {me}", c.kind);
        if !cheated {
            let m = match V::v_getdeal(v) {
                Some(x) => V::mdeal(&x),
                None => return fail("honest dealer:no deal", format!("kinds {:?} me {me}", c.kind)),
            };
            ensure!(V::oracle_valid(&m, me, &com.dpub, &com.pubs, c.t), "resolved:participant keeps an invalid deal", "kinds {:?} me {me} {m:?}", c.kind);
            ensure_eq!(m, good[me], "resolved:participant has another deal");
        }
    }
    if !cheated && wrong.is_empty() {
        let deals: Vec<V::Deal> = vs.iter().filter_map(|v| V::v_getdeal(v)).take(c.t).collect();
        let s = okr("recover_secret", V::recover(deals, c.n, c.t))?;
        ensure_eq!(big(&s), big(&secret), "resolved:secret");
    } else if cheated {
        ensure!(V::d_secret_commit(&d).is_none(), "cheating dealer:secret commitment revealed");
    }
    Ok(Obs::nt(!justs.is_empty()).label_if(cheated, "cheater exposed").label_if(!wrong.is_empty(), "wrong justification before the right one").label_if(c.kind.contains(&2), "bad deal, good justification").label_if(justs.len() == c.n, "everyone complains"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum JMut {
    SignedBy(u16),
    Unsigned,
    FlipSig(u16),
    /// other session, signed by the dealer or not
    Session(bool),
    SessionBytes(Bs, bool),
    /// share of another participant, signed by the dealer or not
    ShareOf(u16, bool),
    /// names another index than the complainer's
    Index(u16, bool),
    IndexOob(u16, bool),
    /// whole genuine justification of another session
    Replay,
    /// not signed by the dealer and the deal does not verify
    ForgedBad(u16),
    /// signature of another genuine justification of this session
    SigOf,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Forge {
    seed: u64,
    n: usize,
    t: usize,
    me: u16,
    complainer: u16,
    muts: Vec<JMut>,
}
fn forge_strat() -> impl Strategy<Value = Forge> {
    let j = prop_oneof![
        3 => any::<u16>().prop_map(JMut::SignedBy),
        1 => Just(JMut::Unsigned),
        2 => any::<u16>().prop_map(JMut::FlipSig),
        2 => any::<bool>().prop_map(JMut::Session),
        1 => (bytes(40), any::<bool>()).prop_map(|(a, b)| JMut::SessionBytes(a, b)),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| JMut::ShareOf(a, b)),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| JMut::Index(a, b)),
        1 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| JMut::IndexOob(a, b)),
        1 => Just(JMut::Replay),
        1 => Just(JMut::SigOf),
        1 => any::<u16>().prop_map(JMut::ForgedBad),
    ];
    (any::<u64>(), nt_pair(6), any::<u16>(), any::<u16>(), prop::collection::vec(j, 1..=4)).prop_map(|(seed, (n, t), me, complainer, muts)| Forge { seed, n, t, me, complainer, muts })
}
fn forged<V: Vss>(c: &Forge) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, false);
    let me = c.me as usize % c.n;
    let cp = (me + 1 + c.complainer as usize % (c.n - 1)) % c.n;
    let mut d = dealer::<V>(&com, &key_of(c.seed, 77), c.t)?;
    let mut d2 = dealer::<V>(&com, &key_of(c.seed, 78), c.t)?;
    let all: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d, i).unwrap())).collect();
    let all2: Vec<MDeal> = (0..c.n).map(|i| V::mdeal(V::plain(&mut d2, i).unwrap())).collect();
    let (sa, sb) = (V::d_sid(&d), V::d_sid(&d2));
    let mut v = verifier::<V>(&com, me)?;
    okr("process_encrypted_deal", V::v_deal(&mut v, &okr("enc", V::encrypt(&d, me))?))?;
    for i in 0..c.n {
        if i != me {
            okr("process_response", V::v_resp(&mut v, &V::resp(&MResp::new(&sa, i as u32, i != cp, &com.keys[i]))))?;
        }
    }
    let before = v.clone();
    let dl = &com.dlong;
    let mut known_bug = None;
    for x in &c.muts {
        let mk = |sid: &[u8], i: u32, m: &MDeal, by: &Scalar| V::make_just(sid, i, m, by);
        let somebody = |k: u16| {
            let i = k as usize % (c.n + 1);
            if i == c.n { com.outsider(5) } else { com.keys[i].clone() }
        };
        let j = match x {
            JMut::SignedBy(k) => mk(&sa, cp as u32, &all[cp], &somebody(*k)),
            JMut::Unsigned => MJust { signature: vec![], ..mk(&sa, cp as u32, &all[cp], dl) },
            JMut::FlipSig(k) => {
                let mut j = mk(&sa, cp as u32, &all[cp], dl);
                let k = *k as usize % (j.signature.len() * 8);
                j.signature[k / 8] ^= 1 << (k % 8);
                j
            }
            JMut::Session(resign) => {
                let mut j = mk(&sa, cp as u32, &all[cp], dl);
                j.session_id = sb.clone();
                if *resign { mk(&sb, cp as u32, &all[cp], dl) } else { j }
            }
            JMut::SessionBytes(b, resign) => {
                if b.0 == sa {
                    continue;
                }
                let mut j = mk(&sa, cp as u32, &all[cp], dl);
                j.session_id = b.0.clone();
                if *resign { mk(&b.0, cp as u32, &all[cp], dl) } else { j }
            }
            JMut::ShareOf(k, resign) => {
                let o = (cp + 1 + *k as usize % (c.n - 1)) % c.n;
                mk(&sa, cp as u32, &all[o], &if *resign { dl.clone() } else { somebody(*k) })
            }
            JMut::Index(k, resign) => {
                let o = (cp + 1 + *k as usize % (c.n - 1)) % c.n;
                // deal of the complainer or of the index, for an index that did not complain
                let m = if k % 2 == 0 { &all[cp] } else { &all[o] };
                mk(&sa, o as u32, m, &if *resign { dl.clone() } else { somebody(*k) })
            }
            JMut::IndexOob(k, resign) => {
                let iv = [c.n as u32, u32::MAX, cp as u32 + (1 << 16), cp as u32 + (1 << 31)];
                mk(&sa, iv[*k as usize % 4], &all[cp], &if *resign { dl.clone() } else { somebody(*k) })
            }
            JMut::Replay => mk(&sb, cp as u32, &all2[cp], dl),
            JMut::SigOf => {
                let o = (cp + 1) % c.n;
                let mut j = mk(&sa, cp as u32, &all[cp], dl);
                j.signature = mk(&sa, o as u32, &all[o], dl).signature;
                j
            }
            JMut::ForgedBad(k) => {
                let mut m = all[cp].clone();
                m.sec_share.v = add_sc(&m.sec_share.v, &key_of(c.seed, 5));
                let by = if c.n > 1 && *k as usize % (c.n + 1) < c.n { com.keys[*k as usize % (c.n + 1)].clone() } else { com.outsider(5) };
                let j = V::just(&mk(&sa, cp as u32, &m, &by));
                let mut w = v.clone();
                let r = nopanic("process_justification", || V::v_just(&mut w, &j))?;
                ensure!(r.is_err(), "justification:forged one accepted", "{x:?}");
                if w != before {
                    known_bug = Some(format!("{x:?}"));
                }
                continue;
            }
        };
        let jj = V::just(&j);
        let r = nopanic("process_justification", || V::v_just(&mut v, &jj))?;
        ensure!(r.is_err(), "justification:forged one accepted", "{x:?} me {me} complainer {cp} n {}", c.n);
        ensure!(v == before, "justification:forged one changes the verifier", "{x:?} {r:?} me {me} complainer {cp} n {}", c.n);
    }
    // the dealer's own is still accepted
    let j = okr("dealer process_response", V::d_resp(&mut d, &V::resp(&MResp::new(&sa, cp as u32, false, &com.keys[cp]))))?.unwrap();
    ensure!(!V::v_certified(&v) || V::RABIN, "complaint:certified while open");
    okr("process_justification after forged ones", V::v_just(&mut v, &j))?;
    ensure!(V::v_certified(&v), "justification:not certified afterwards");
    if let Some(x) = known_bug {
        return fail("forged-justification-frames-dealer", format!("{x}: a justification the dealer did not sign marks it as bad"));
    }
    Ok(Obs::nt(true))
}

// ------------------------------------------------------------------ C20
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rec {
    seed: u64,
    n: usize,
    t: usize,
    secret: B32,
    pick: Vec<u16>,
    foreign: Option<(u16, u16)>,
    wrong_t: u8,
}
fn rec_strat() -> impl Strategy<Value = Rec> {
    (any::<u64>(), nt_pair(10), prop_oneof![3 => key32(), 1 => any_scalar()])
        .prop_flat_map(|(seed, (n, t), secret)| {
            (
                Just((seed, n, t, secret)),
                prop_oneof![
                    3 => prop::collection::vec(any::<u16>(), n).prop_flat_map(move |k| (Just(k), t..=n)).prop_map(move |(k, l)| perm(&k, n).into_iter().take(l).map(|x| x as u16).collect::<Vec<u16>>()),
                    2 => prop::collection::vec(0..n as u16, 0..=(n + 2)),
                    1 => prop::collection::vec(any::<u16>(), n).prop_map(move |k| perm(&k, n).into_iter().take(t - 1).map(|x| x as u16).collect::<Vec<u16>>()),
                    1 => prop::collection::vec(any::<u16>(), n).prop_map(move |k| { let mut v: Vec<u16> = perm(&k, n).into_iter().take(t - 1).map(|x| x as u16).collect(); v.extend(v.clone()); v }),
                ],
                prop::option::weighted(0.25, (any::<u16>(), any::<u16>())),
                any::<u8>(),
            )
        })
        .prop_map(|((seed, n, t, secret), pick, foreign, wrong_t)| Rec { seed, n, t, secret, pick, foreign, wrong_t })
}
fn reconstruct<V: Vss>(c: &Rec) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, c.wrong_t & 1 == 0);
    let secret = sc(&c.secret);
    let d = dealer::<V>(&com, &secret, c.t)?;
    let mut d2 = dealer::<V>(&com, &key_of(c.seed, 3), c.t)?;
    let encs = okr("encrypted_deals", V::encrypt_all(&d))?;
    let mut deals = vec![];
    let mut resps = vec![];
    let mut vs = vec![];
    for i in 0..c.n {
        let mut v = verifier::<V>(&com, i)?;
        resps.push(okr("process_encrypted_deal", V::v_deal(&mut v, &encs[i]))?);
        vs.push(v);
    }
    // only the participants that are picked are needed in full
    for (i, v) in vs.iter_mut().enumerate() {
        if !c.pick.contains(&(i as u16)) && i > 0 {
            deals.push(None);
            continue;
        }
        for (k, r) in resps.iter().enumerate() {
            if k != i {
                okr("process_response", V::v_resp(v, r))?;
            }
        }
        let x = V::v_getdeal(v);
        ensure!(x.is_some(), "honest sharing:no deal");
        let m = V::mdeal(x.as_ref().unwrap());
        ensure!(V::oracle_valid(&m, i, &com.dpub, &com.pubs, c.t), "honest sharing:deal inconsistent with its commitments");
        deals.push(x);
    }
    let mut list: Vec<V::Deal> = c.pick.iter().filter_map(|i| deals[*i as usize].clone()).collect();
    let distinct: BTreeSet<u16> = c.pick.iter().copied().collect();
    let mut mixed = false;
    if let Some((at, who)) = c.foreign {
        if !list.is_empty() {
            let mut f = V::mdeal(V::plain(&mut d2, who as usize % c.n).unwrap());
            if who & 0x8000 != 0 {
                // the session is all that differs
                f = V::mdeal(&list[at as usize % list.len()]);
                match who % 7 {
                    0 => f.session_id.clear(),
                    1 => f.session_id.push(0),
                    2 => drop(f.session_id.pop()),
                    k => f.session_id[(at >> 3) as usize % 32] ^= 1 << k,
                }
            }
            let f = V::deal(&f);
            let at = at as usize % (list.len() + 1);
            list.insert(at, f);
            mixed = true;
        }
    }
    let r = nopanic("recover_secret", || V::recover(list.clone(), c.n, c.t))?;
    if mixed {
        ensure!(r.is_err(), "recover_secret:deals of different sessions accepted");
    } else if distinct.len() >= c.t {
        let s = okr("recover_secret", r)?;
        ensure!(big(&s) == big(&secret), "recover_secret:wrong secret", "n={} t={} picked {:?}", c.n, c.t, c.pick);
    } else {
        ensure!(r.is_err(), "recover_secret:too few deals accepted", "n={} t={} picked {:?}", c.n, c.t, c.pick);
    }
    Ok(Obs::nt(distinct.len() >= c.t)
        .label(if mixed { "mixed sessions" } else if distinct.len() < c.t { "too few" } else if distinct.len() == c.t { "exactly t" } else { "more than t" })
        .label_if(distinct.len() < c.pick.len(), "duplicates"))
}

fn min_t(n: &usize) -> Res {
    for t in [Ped::minimum_t(*n), Rab::minimum_t(*n)] {
        // more than half can reconstruct, half or less of the others cannot stop it
        ensure_eq!(t, (*n + 1) / 2, "minimum_t:not (n+1)/2");
    }
    Ok(Obs::nt(*n > 2))
}

macro_rules! both {
    ($v:ident, $name:literal, $q:expr, $t:expr, $rule:expr, $strat:expr, $f:ident) => {
        $v.push(law(concat!("pedersen-", $name), $q, $t, $rule, $strat, $f::<Ped>));
        $v.push(law(concat!("rabin-", $name), $q, $t, $rule, $strat, $f::<Rab>));
    };
}
const ASSUME: &[&str] = &[
    "committees of up to 12 participants; keys and randomness are derived from the case's seed",
    "the library's own schnorr signatures and point operations (C03, C09) are used to build messages and to evaluate the share equation",
];
fn c17() -> Prop {
    let mut laws = vec![];
    both!(laws, "honest-deal", 500, 20_000, "every case: a full honest dealing", honest_strat, honest);
    both!(laws, "bad-deal", 3200, 200_000, "every case: a plaintext deal altered by one to four mutations, encrypted by the dealer", bad_strat, bad_deal);
    both!(
        laws,
        "tampered-deal",
        700,
        40_000,
        "at least one altered encrypted deal was tried",
        || (any::<u64>(), nt_pair(6), any::<u16>(), prop::collection::vec(emut(), 1..=6)).prop_map(|(seed, (n, t), me, muts)| Tamper { seed, n, t, me, muts }),
        tamper
    );
    Prop { id: "C17", laws, assumptions: ASSUME.to_vec() }
}
fn c18() -> Prop {
    let mut laws = vec![];
    both!(laws, "history", 4000, 200_000, "deal processed and at least two responses recorded", || hist_strat(9), history);
    both!(laws, "aggregator", 2500, 120_000, "a deal verified and at least two responses recorded", ahist_strat, aggregator);
    both!(laws, "dealer-history", 1200, 60_000, "at least two responses recorded", || hist_strat(8), dealer_view);
    Prop { id: "C18", laws, assumptions: ASSUME.to_vec() }
}
fn c19() -> Prop {
    let mut laws = vec![];
    both!(laws, "resolution", 500, 30_000, "at least one complaint", resolve_strat, resolve);
    both!(laws, "forged-justification", 900, 50_000, "every case", forge_strat, forged);
    Prop { id: "C19", laws, assumptions: ASSUME.to_vec() }
}
fn c20() -> Prop {
    let mut laws = vec![];
    both!(laws, "reconstruction", 700, 40_000, "at least t distinct deals", rec_strat, reconstruct);
    laws.push(law("minimum-t", 500, 5000, "n above 2", || 0usize..100_000, min_t));
    Prop { id: "C20", laws, assumptions: ASSUME.to_vec() }
}
fn main() {
    kv::cli::main(&[("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20)])
}
