//! Complete runs of the key generation protocols over a simulated network, with a hook before every
//! delivery. All randomness is a function of the case and the step, so that runs that differ only
//! in what a hook does (and undoes) are comparable.
use crate::det;
use crate::dkgx::*;
use crate::fw::*;
use crate::gen::perm;
use crate::mutate::{unval, val};
use crate::refmath as rm;
use crate::vssx::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use kyber_rs::share::poly::PriShare;
use num_bigint_dig::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;

pub type Sc = rd::SecretCommits<det::DSuite>;
pub type Cc = rd::ComplaintCommits<det::DSuite>;
pub type Rc = rd::ReconstructCommits<det::DSuite>;

pub enum W<D: Dkg> {
    Deal(D::Dl),
    Resp(D::Resp),
    Just(D::Just),
    Sc(Sc),
    Cc(Cc),
    Rc(Rc),
}
impl<D: Dkg> std::fmt::Debug for W<D> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}({})", self.name(), trunc(&self.value().to_string(), 300))
    }
}
impl<D: Dkg> Clone for W<D> {
    fn clone(&self) -> Self {
        match self {
            W::Deal(x) => W::Deal(x.clone()),
            W::Resp(x) => W::Resp(x.clone()),
            W::Just(x) => W::Just(x.clone()),
            W::Sc(x) => W::Sc(x.clone()),
            W::Cc(x) => W::Cc(x.clone()),
            W::Rc(x) => W::Rc(x.clone()),
        }
    }
}
impl<D: Dkg> W<D> {
    pub fn name(&self) -> &'static str {
        match self {
            W::Deal(_) => "deal",
            W::Resp(_) => "response",
            W::Just(_) => "justification",
            W::Sc(_) => "secret commits",
            W::Cc(_) => "complaint",
            W::Rc(_) => "reconstruction",
        }
    }
    pub fn value(&self) -> Value {
        match self {
            W::Deal(x) => val(x),
            W::Resp(x) => val(x),
            W::Just(x) => val(x),
            W::Sc(x) => val(x),
            W::Cc(x) => val(x),
            W::Rc(x) => val(x),
        }
    }
    /// another message of the same type
    pub fn with(&self, v: &Value) -> R<W<D>> {
        Ok(match self {
            W::Deal(_) => W::Deal(unval(v)?),
            W::Resp(_) => W::Resp(unval(v)?),
            W::Just(_) => W::Just(unval(v)?),
            W::Sc(_) => W::Sc(unval(v)?),
            W::Cc(_) => W::Cc(unval(v)?),
            W::Rc(_) => W::Rc(unval(v)?),
        })
    }
    /// the dealer the message is about
    pub fn dealer(&self) -> u32 {
        match self {
            W::Deal(x) => D::un_deal(x).0,
            W::Resp(x) => D::un_resp(x).0,
            W::Just(x) => D::un_just(x).0,
            W::Sc(x) => x.index,
            W::Cc(x) => x.dealer_index,
            W::Rc(x) => x.dealer_index,
        }
    }
    /// the same content, signed with the given key
    pub fn resign(&self, k: &Scalar) -> W<D> {
        let s = suite();
        match self {
            W::Deal(x) => {
                let (i, mut e, sig) = D::un_deal(x);
                e.signature = sign(k, &penc(&e.dhkey));
                W::Deal(D::sign_deal(&D::mk_deal(i, &e, &sig), k))
            }
            W::Resp(x) => {
                let (i, mut r) = D::un_resp(x);
                r.signature = sign(k, &r.hash());
                W::Resp(D::mk_resp(i, &r))
            }
            W::Just(x) => {
                let (i, j) = D::un_just(x);
                W::Just(D::mk_just(i, &D::V::make_just(&j.session_id, j.index, &j.deal, k)))
            }
            W::Sc(x) => {
                let mut x = x.clone();
                x.signature = x.hash(&s).map(|h| sign(k, &h)).unwrap_or_default();
                W::Sc(x)
            }
            W::Cc(x) => {
                let mut x = x.clone();
                x.signature = x.hash(&s).map(|h| sign(k, &h)).unwrap_or_default();
                W::Cc(x)
            }
            W::Rc(x) => {
                let mut x = x.clone();
                x.signature = x.hash(&s).map(|h| sign(k, &h)).unwrap_or_default();
                W::Rc(x)
            }
        }
    }
}
/// hands a message to a node; what the node wants broadcast
pub fn deliver<D: Dkg>(g: &mut D::G, w: &W<D>) -> R<Option<W<D>>> {
    match w {
        W::Deal(x) => D::p_deal(g, x).map(|r| Some(W::Resp(r))),
        W::Resp(x) => D::p_resp(g, x).map(|j| j.map(W::Just)),
        W::Just(x) => D::p_just(g, x).map(|_| None),
        W::Sc(x) => D::p_sc(g, x).map(|c| c.map(W::Cc)),
        W::Cc(x) => D::p_cc(g, x).map(|r| Some(W::Rc(r))),
        W::Rc(x) => D::p_rc(g, x).map(|_| None),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Proto {
    Pedersen,
    Rabin,
    /// Pedersen resharing to a committee of n2 with threshold t2, `overlap` of whom are old members
    Reshare { n2: usize, t2: usize, overlap: usize },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Scen {
    pub proto: Proto,
    /// of the long-term keys
    pub keys: u64,
    /// of the run
    pub seed: u64,
    pub n: usize,
    pub t: usize,
    /// holders complain about these dealers' valid deals
    pub complain: Vec<u8>,
    /// this dealer broadcasts commitments with this coefficient altered (Rabin)
    pub falsify: Option<(u8, u8)>,
    pub order: Vec<u16>,
}
pub fn scen(max: usize) -> impl Strategy<Value = Scen> {
    let nt = move || (2usize..=max).prop_flat_map(|n| (Just(n), 2..=n));
    let proto = prop_oneof![
        3 => Just(Proto::Pedersen),
        4 => Just(Proto::Rabin),
        2 => (nt(), 0usize..8).prop_map(|((n2, t2), o)| Proto::Reshare { n2, t2, overlap: o }),
    ];
    (
        proto,
        any::<u64>(),
        any::<u64>(),
        nt(),
        prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], max),
        prop::option::weighted(0.6, (any::<u8>(), any::<u8>())),
        prop_oneof![1 => Just(vec![]), 5 => prop::collection::vec(any::<u16>(), 1..120)],
    )
        .prop_map(|(proto, keys, seed, (n, t), complain, falsify, order)| Scen { proto, keys, seed, n, t, complain, falsify, order })
}

pub struct Net<D: Dkg> {
    pub g: Vec<D::G>,
    /// long-term keys of the nodes
    pub keys: Vec<Scalar>,
    /// positions of the nodes among the dealers and the holders
    pub as_dealer: Vec<Option<usize>>,
    pub as_holder: Vec<Option<usize>>,
    /// deals delivered per node
    pub knows: Vec<BTreeSet<u32>>,
    pub step: usize,
    /// all honest messages so far
    pub seen: Vec<W<D>>,
    pub t: usize,
    /// go on where a disturbed node refuses to take part
    pub lenient: bool,
}
impl<D: Dkg> Net<D> {
    /// the node whose signature the message has to carry
    pub fn author(&self, w: &W<D>) -> Option<usize> {
        let dealer = |d: u32| self.as_dealer.iter().position(|x| *x == Some(d as usize));
        let holder = |h: u32| self.as_holder.iter().position(|x| *x == Some(h as usize));
        match w {
            W::Deal(_) | W::Just(_) | W::Sc(_) => dealer(w.dealer()),
            W::Resp(r) => holder(D::un_resp(r).1.index),
            W::Cc(c) => holder(c.index),
            W::Rc(c) => holder(c.index),
        }
    }
    /// what the nodes end with
    pub fn ends(&self) -> Vec<(Vec<usize>, Result<Key, ()>)> {
        self.g.iter().map(|g| (D::qual(g), D::key(g).map_err(|_| ()))).collect()
    }
}
pub enum Phase {
    /// a deal, response, ... is about to be delivered
    Deliver,
    /// all messages of the first part are delivered
    Shared,
    End,
}
pub type Hook<'a, D> = &'a mut dyn FnMut(&mut Net<D>, usize, Option<&W<D>>, Phase) -> Result<(), Fail>;

fn scb(n: &BigUint) -> Scalar {
    Scalar { v: rm::sc(n) }
}
fn big(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
/// old shares of a resharing
pub fn old_shares(seed: u64, n: usize, t: usize) -> Vec<PShare> {
    let co: Vec<BigUint> = (0..t as u32).map(|k| big(&key_of(seed, 7000 + k))).collect();
    let commits: Vec<Point> = co.iter().map(|c| base_mul(&scb(c))).collect();
    (0..n)
        .map(|i| PShare { commits: commits.clone(), share: PriShare { i, v: scb(&rm::poly_eval(&co, &BigUint::from(i + 1))) }, private_poly: vec![] })
        .collect()
}
pub fn fresh<D: Dkg>(s: &Scen) -> Result<Net<D>, Fail> {
    det::reseed64(s.seed);
    let keys: Vec<Scalar> = (0..s.n as u32).map(|i| key_of(s.keys, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let mut g = vec![];
    for k in &keys {
        g.push(okr("new_dist_key_generator", D::new(k, &pubs, s.t))?);
    }
    let ix: Vec<Option<usize>> = (0..s.n).map(Some).collect();
    Ok(Net { g, keys, as_dealer: ix.clone(), as_holder: ix, knows: vec![BTreeSet::new(); s.n], step: 0, seen: vec![], t: s.t, lenient: false })
}
pub fn resharing(s: &Scen) -> Result<Net<PedD>, Fail> {
    let Proto::Reshare { n2, t2, overlap } = s.proto else { return fail("internal", "not a resharing") };
    det::reseed64(s.seed);
    let old: Vec<Scalar> = (0..s.n as u32).map(|i| key_of(s.keys, i)).collect();
    let order: Vec<u16> = (0..s.n).map(|i| (s.keys >> (5 * i)) as u16).collect();
    let mut new: Vec<Scalar> = perm(&order, s.n).into_iter().take(overlap.min(n2)).map(|i| old[i].clone()).collect();
    for i in new.len()..n2 {
        new.push(key_of(s.keys, 50 + i as u32));
    }
    let opub: Vec<Point> = old.iter().map(base_mul).collect();
    let npub: Vec<Point> = new.iter().map(base_mul).collect();
    let shares = old_shares(s.keys, s.n, s.t);
    let mut net = Net { g: vec![], keys: vec![], as_dealer: vec![], as_holder: vec![], knows: vec![], step: 0, seen: vec![], t: t2, lenient: false };
    let all: Vec<Scalar> = new.iter().chain(old.iter().filter(|k| !new.contains(k))).cloned().collect();
    for k in all {
        let d = old.iter().position(|x| *x == k);
        let c = pd::Config {
            suite: suite(),
            longterm: k.clone(),
            old_nodes: opub.clone(),
            public_coeffs: if d.is_some() { None } else { Some(shares[0].commits.clone()) },
            new_nodes: npub.clone(),
            share: d.map(|d| shares[d].clone()),
            threshold: t2,
            old_threshold: s.t,
            reader: Some(det::DetReader),
            user_reader_only: true,
        };
        net.g.push(okr("new_dist_key_handler", pd::new_dist_key_handler(c))?);
        net.as_dealer.push(d);
        net.as_holder.push(new.iter().position(|x| *x == k));
        net.keys.push(k);
        net.knows.push(BTreeSet::new());
    }
    Ok(net)
}
fn mix(seed: u64, step: usize) -> u64 {
    seed ^ (step as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}

/// Runs the protocol to its end.
pub fn run<D: Dkg>(s: &Scen, net: &mut Net<D>, hook: Hook<D>) -> Result<(), Fail> {
    let total = net.g.len();
    let fresh = !matches!(s.proto, Proto::Reshare { .. });
    let mut queue: Vec<(usize, W<D>)> = vec![];
    for j in 0..total {
        let Some(d) = net.as_dealer[j] else { continue };
        det::reseed64(mix(s.seed, 1_000_000 + j));
        let deals = okr("deals", nopanic("deals", || D::deals(&mut net.g[j]))?)?;
        if fresh {
            net.knows[j].insert(d as u32);
        }
        for (i, dl) in deals {
            let to = (0..total).find(|x| net.as_holder[*x] == Some(i)).unwrap();
            let w = W::Deal(dl);
            net.seen.push(w.clone());
            queue.push((to, w));
        }
    }
    pump(s, net, queue, hook)?;
    hook(net, 0, None, Phase::Shared)?;
    if D::RABIN {
        let mut queue = vec![];
        let bad = s.falsify.map(|(d, c)| (d as usize % s.n, c as usize % s.t));
        for j in 0..total {
            det::reseed64(mix(s.seed, 2_000_000 + j));
            let sc = nopanic("secret_commits", || D::secret_commits(&mut net.g[j]))?;
            if sc.is_err() && net.lenient {
                continue;
            }
            let mut sc = okr("secret_commits", sc)?;
            if let Some((d, c)) = bad {
                if d == j {
                    use kyber_rs::{Group as _, Point as _};
                    sc.commitments[c] = suite().point().add(&sc.commitments[c], &suite().point().base());
                    let W::Sc(x) = W::<D>::Sc(sc).resign(&net.keys[j]) else { unreachable!() };
                    sc = x;
                }
            }
            let w = W::Sc(sc);
            net.seen.push(w.clone());
            queue.extend((0..total).filter(|to| *to != j).map(|to| (to, w.clone())));
        }
        pump(s, net, queue, hook)?;
    }
    hook(net, 0, None, Phase::End)
}
fn pump<D: Dkg>(s: &Scen, net: &mut Net<D>, mut queue: Vec<(usize, W<D>)>, hook: Hook<D>) -> Result<(), Fail> {
    let total = net.g.len();
    let mut later: Vec<Vec<W<D>>> = vec![vec![]; total];
    while !queue.is_empty() {
        let k = if s.order.is_empty() { 0 } else { s.order[net.step % s.order.len()] as usize % queue.len() };
        let (j, w) = if s.order.is_empty() { queue.remove(0) } else { queue.swap_remove(k) };
        net.step += 1;
        hook(net, j, Some(&w), Phase::Deliver)?;
        det::reseed64(mix(s.seed, net.step));
        let got = nopanic("delivery", || deliver::<D>(&mut net.g[j], &w))?;
        let Ok(out) = got else {
            later[j].push(w);
            continue;
        };
        if let W::Deal(_) = &w {
            net.knows[j].insert(w.dealer());
        }
        queue.extend(std::mem::take(&mut later[j]).into_iter().map(|w| (j, w)));
        let Some(mut out) = out else { continue };
        if let W::Resp(r) = &out {
            let (d, m) = D::un_resp(r);
            let mask = s.complain.get(m.index as usize).copied().unwrap_or(0);
            if mask >> (d % 8) & 1 == 1 && net.as_dealer[j] != Some(d as usize) {
                out = W::Resp(D::mk_resp(d, &MResp::new(&m.session_id, m.index, false, &net.keys[j])));
            }
        }
        net.seen.push(out.clone());
        let own = matches!(out, W::Cc(_));
        queue.extend((0..total).filter(|to| own || *to != j).map(|to| (to, out.clone())));
    }
    Ok(())
}
