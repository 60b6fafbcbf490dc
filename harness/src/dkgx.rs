//! Both distributed key generation variants behind one interface.
use crate::det::{DSuite, DetReader};
use crate::vssx::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type PGen = pd::DistKeyGenerator<DSuite, DetReader>;
pub type RGen = rd::DistKeyGenerator<DSuite>;
pub type PShare = pd::structs::DistKeyShare<DSuite>;

fn e2s<T, E: Debug + std::fmt::Display>(r: Result<T, E>) -> R<T> {
    r.map_err(|e| format!("{e:?}: {e}"))
}

/// what a finished node holds
#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub commits: Vec<Point>,
    pub i: usize,
    pub v: Scalar,
}

pub trait Dkg: 'static {
    type V: Vss;
    const NAME: &'static str;
    const RABIN: bool;
    type G: Clone + PartialEq + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    type Dl: Clone + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    type Just: Clone + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    type Resp: Clone + Debug + std::fmt::Display + Serialize + DeserializeOwned;
    fn new(long: &Scalar, pubs: &[Point], t: usize) -> R<Self::G>;
    fn deals(g: &mut Self::G) -> R<BTreeMap<usize, Self::Dl>>;
    fn p_deal(g: &mut Self::G, d: &Self::Dl) -> R<Self::Resp>;
    fn p_resp(g: &mut Self::G, r: &Self::Resp) -> R<Option<Self::Just>>;
    fn p_just(g: &mut Self::G, j: &Self::Just) -> R<()>;
    fn mk_resp(dealer: u32, r: &MResp) -> Self::Resp;
    fn un_resp(r: &Self::Resp) -> (u32, MResp);
    fn mk_just(dealer: u32, j: &MJust) -> Self::Just;
    fn un_just(j: &Self::Just) -> (u32, MJust);
    /// dealer index, encrypted deal, outer signature (empty when there is none)
    fn un_deal(d: &Self::Dl) -> (u32, MEnc, Vec<u8>);
    fn mk_deal(dealer: u32, e: &MEnc, sig: &[u8]) -> Self::Dl;
    /// signs the outer part of a deal where the variant has one
    fn sign_deal(d: &Self::Dl, k: &Scalar) -> Self::Dl;
    fn timeout(g: &mut Self::G);
    fn qual(g: &Self::G) -> Vec<usize>;
    fn in_qual(g: &Self::G, i: u32) -> bool;
    /// enough dealers are qualified
    fn certified(g: &Self::G) -> bool;
    /// holders that answered every undisputed deal, and: all deals are certified and answered by all
    fn progress(_: &Self::G) -> Option<(Vec<usize>, bool)> {
        None
    }
    fn key(g: &Self::G) -> R<Key>;
    fn dealer_of(g: &Self::G) -> <Self::V as Vss>::Dealer;
    /// the secret of the node's key share and the share's renderings
    fn key_views(g: &Self::G) -> Option<(Scalar, Vec<String>)>;
    fn plain(g: &mut Self::G, i: usize) -> &mut <Self::V as Vss>::Deal;
    // the commitment phase (Rabin only)
    fn secret_commits(_: &mut Self::G) -> R<rd::SecretCommits<DSuite>> {
        Err("no commitment phase".into())
    }
    fn p_sc(_: &mut Self::G, _: &rd::SecretCommits<DSuite>) -> R<Option<rd::ComplaintCommits<DSuite>>> {
        Err("no commitment phase".into())
    }
    fn p_cc(_: &mut Self::G, _: &rd::ComplaintCommits<DSuite>) -> R<rd::ReconstructCommits<DSuite>> {
        Err("no commitment phase".into())
    }
    fn p_rc(_: &mut Self::G, _: &rd::ReconstructCommits<DSuite>) -> R<()> {
        Err("no commitment phase".into())
    }
}

pub struct PedD;
impl Dkg for PedD {
    type V = Ped;
    const NAME: &'static str = "pedersen";
    const RABIN: bool = false;
    type G = PGen;
    type Dl = pd::structs::Deal<Point>;
    type Just = pd::structs::Justification<DSuite>;
    type Resp = pd::structs::Response;
    fn new(long: &Scalar, pubs: &[Point], t: usize) -> R<PGen> {
        e2s(pd::new_dist_key_handler(fresh_config(long, pubs, t)))
    }
    fn deals(g: &mut PGen) -> R<BTreeMap<usize, Self::Dl>> {
        e2s(g.deals()).map(|m| m.into_iter().collect())
    }
    fn p_deal(g: &mut PGen, d: &Self::Dl) -> R<Self::Resp> {
        e2s(g.process_deal(d))
    }
    fn p_resp(g: &mut PGen, r: &Self::Resp) -> R<Option<Self::Just>> {
        e2s(g.process_response(r))
    }
    fn p_just(g: &mut PGen, j: &Self::Just) -> R<()> {
        e2s(g.process_justification(j))
    }
    fn mk_resp(dealer: u32, r: &MResp) -> Self::Resp {
        pd::structs::Response { index: dealer, response: Ped::resp(r) }
    }
    fn un_resp(r: &Self::Resp) -> (u32, MResp) {
        (r.index, Ped::mresp(&r.response))
    }
    fn mk_just(dealer: u32, j: &MJust) -> Self::Just {
        pd::structs::Justification { index: dealer, justification: Ped::just(j) }
    }
    fn un_just(j: &Self::Just) -> (u32, MJust) {
        (j.index, Ped::mjust(&j.justification))
    }
    fn un_deal(d: &Self::Dl) -> (u32, MEnc, Vec<u8>) {
        (d.index, Ped::menc(&d.deal), d.signature.clone())
    }
    fn mk_deal(dealer: u32, e: &MEnc, sig: &[u8]) -> Self::Dl {
        pd::structs::Deal { index: dealer, deal: Ped::enc(e), signature: sig.to_vec() }
    }
    fn sign_deal(d: &Self::Dl, k: &Scalar) -> Self::Dl {
        let mut d = d.clone();
        d.signature = vec![];
        let b = kyber_rs::encoding::BinaryMarshaler::marshal_binary(&d).expect("deals encode");
        d.signature = sign(k, &b);
        d
    }
    fn timeout(g: &mut PGen) {
        g.set_timeout()
    }
    fn qual(g: &PGen) -> Vec<usize> {
        let mut q = g.qual();
        q.sort();
        q
    }
    fn in_qual(g: &PGen, i: u32) -> bool {
        g.is_in_qual(i)
    }
    fn certified(g: &PGen) -> bool {
        g.threshold_certified()
    }
    fn progress(g: &PGen) -> Option<(Vec<usize>, bool)> {
        Some((g.qualified_shares(), g.certified()))
    }
    fn key(g: &PGen) -> R<Key> {
        let k = e2s(g.dist_key_share())?;
        Ok(Key { commits: k.commits, i: k.share.i, v: k.share.v })
    }
    fn dealer_of(g: &PGen) -> <Self::V as Vss>::Dealer {
        g.dealer.clone()
    }
    fn key_views(g: &PGen) -> Option<(Scalar, Vec<String>)> {
        let k = g.dist_key_share().ok()?;
        Some((k.share.v, vec![format!("{k}"), format!("{k:?}"), format!("{k:#?}"), format!("{k:x?}")]))
    }
    fn plain(g: &mut PGen, i: usize) -> &mut pvDeal {
        g.dealer.plaintext_deal(i).expect("own deals")
    }
}
#[allow(non_camel_case_types)]
type pvDeal = kyber_rs::share::vss::pedersen::vss::Deal<DSuite>;
#[allow(non_camel_case_types)]
type rvDeal = kyber_rs::share::vss::rabin::vss::Deal<DSuite>;

pub fn fresh_config(long: &Scalar, pubs: &[Point], t: usize) -> pd::Config<DSuite, DetReader> {
    pd::Config {
        suite: suite(),
        longterm: long.clone(),
        old_nodes: vec![],
        public_coeffs: None,
        new_nodes: pubs.to_vec(),
        share: None,
        threshold: t,
        old_threshold: 0,
        reader: Some(DetReader),
        user_reader_only: true,
    }
}

pub struct RabD;
impl Dkg for RabD {
    type V = Rab;
    const NAME: &'static str = "rabin";
    const RABIN: bool = true;
    type G = RGen;
    type Dl = rd::Deal<Point>;
    type Just = rd::Justification<DSuite>;
    type Resp = rd::Response;
    fn new(long: &Scalar, pubs: &[Point], t: usize) -> R<RGen> {
        e2s(rd::new_dist_key_generator(&suite(), long, pubs, t))
    }
    fn deals(g: &mut RGen) -> R<BTreeMap<usize, Self::Dl>> {
        e2s(g.deals()).map(|m| m.into_iter().collect())
    }
    fn p_deal(g: &mut RGen, d: &Self::Dl) -> R<Self::Resp> {
        e2s(g.process_deal(d))
    }
    fn p_resp(g: &mut RGen, r: &Self::Resp) -> R<Option<Self::Just>> {
        e2s(g.process_response(r))
    }
    fn p_just(g: &mut RGen, j: &Self::Just) -> R<()> {
        e2s(g.process_justification(j))
    }
    fn mk_resp(dealer: u32, r: &MResp) -> Self::Resp {
        rd::Response { index: dealer, response: Rab::resp(r) }
    }
    fn un_resp(r: &Self::Resp) -> (u32, MResp) {
        (r.index, Rab::mresp(&r.response))
    }
    fn mk_just(dealer: u32, j: &MJust) -> Self::Just {
        rd::Justification { index: dealer, justification: Rab::just(j) }
    }
    fn un_just(j: &Self::Just) -> (u32, MJust) {
        (j.index, Rab::mjust(&j.justification))
    }
    fn un_deal(d: &Self::Dl) -> (u32, MEnc, Vec<u8>) {
        (d.index, Rab::menc(&d.deal), vec![])
    }
    fn mk_deal(dealer: u32, e: &MEnc, _: &[u8]) -> Self::Dl {
        rd::Deal { index: dealer, deal: Rab::enc(e) }
    }
    fn sign_deal(d: &Self::Dl, _: &Scalar) -> Self::Dl {
        d.clone()
    }
    fn secret_commits(g: &mut RGen) -> R<rd::SecretCommits<DSuite>> {
        e2s(g.secret_commits())
    }
    fn p_sc(g: &mut RGen, m: &rd::SecretCommits<DSuite>) -> R<Option<rd::ComplaintCommits<DSuite>>> {
        e2s(g.process_secret_commits(m))
    }
    fn p_cc(g: &mut RGen, m: &rd::ComplaintCommits<DSuite>) -> R<rd::ReconstructCommits<DSuite>> {
        e2s(g.process_complaint_commits(m))
    }
    fn p_rc(g: &mut RGen, m: &rd::ReconstructCommits<DSuite>) -> R<()> {
        e2s(g.process_reconstruct_commits(m))
    }
    fn timeout(g: &mut RGen) {
        g.set_timeout()
    }
    fn qual(g: &RGen) -> Vec<usize> {
        let mut q = g.qual();
        q.sort();
        q
    }
    fn in_qual(g: &RGen, i: u32) -> bool {
        g.is_in_qual(i)
    }
    fn certified(g: &RGen) -> bool {
        g.certified()
    }
    fn key(g: &RGen) -> R<Key> {
        let k = e2s(g.dist_key_share())?;
        Ok(Key { commits: k.commits, i: k.share.i, v: k.share.v })
    }
    fn dealer_of(g: &RGen) -> <Self::V as Vss>::Dealer {
        g.dealer.clone()
    }
    fn key_views(g: &RGen) -> Option<(Scalar, Vec<String>)> {
        let k = g.dist_key_share().ok()?;
        Some((k.share.v, vec![format!("{k}"), format!("{k:?}"), format!("{k:#?}"), format!("{k:x?}")]))
    }
    fn plain(g: &mut RGen, i: usize) -> &mut rvDeal {
        g.dealer.plaintext_deal(i).expect("own deals")
    }
}
