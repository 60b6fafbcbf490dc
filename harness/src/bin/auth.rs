//! C28 altered, misattributed and replayed messages.
use kv::det;
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::mutate::*;
use kv::net::*;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::group::edwards25519::{Point, Scalar};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

fn ends<D: Dkg>(net: &Net<D>) -> Vec<(Vec<usize>, Result<Key, ()>)> {
    net.ends()
}
fn none<D: Dkg>(_: &mut Net<D>, _: usize, _: Option<&W<D>>, _: Phase) -> Result<(), Fail> {
    Ok(())
}
/// does the node know which session the dealer's messages belong to?
fn knows<D: Dkg>(net: &Net<D>, j: usize, d: u32) -> bool {
    net.knows[j].contains(&d) || (net.as_holder[j].is_none() && net.as_dealer[j] == Some(d as usize))
}
/// a message that must be rejected without effect
fn rejected<D: Dkg>(net: &mut Net<D>, j: usize, bad: &W<D>, what: &str) -> Result<(), Fail> {
    let before = net.g[j].clone();
    let got = nopanic("delivery", || deliver::<D>(&mut net.g[j], bad))?;
    if before != net.g[j] {
        let (a, b) = (state(&before), state(&net.g[j]));
        // an altered justification frames its dealer before its signature is looked at (known
        // finding of C19 and C28, see the law forged-justifications); that and nothing else
        let framed = matches!(bad, W::Just(_)) && got.is_err() && unframed(&a) == unframed(&b);
        ensure!(a == b || framed, format!("{}:{}:changes the node", bad.name(), what), "node {j}: {got:?}");
        net.g[j] = before;
    }
    if got.is_ok() {
        // once reconstructed (or known), further shares are ignored unseen
        if let W::Rc(rc) = bad {
            if let Some(honest) = net.seen.iter().find(|w| matches!(w, W::Rc(x) if x.dealer_index == rc.dealer_index)).cloned() {
                let mut g = net.g[j].clone();
                if deliver::<D>(&mut g, &honest).is_ok() && g == net.g[j] {
                    return Ok(());
                }
            }
        }
        return fail(format!("{}:{}:accepted", bad.name(), what), format!("node {j}, step {}", net.step));
    }
    Ok(())
}
/// a node's state without the empty records a leaving node opens for dealers
fn state<G: Serialize>(g: &G) -> serde_json::Value {
    let mut v = val(g);
    if let Some(o) = v.get_mut("old_aggregators").and_then(|o| o.as_object_mut()) {
        o.retain(|_, a| a["responses"].as_object().is_some_and(|r| !r.is_empty()));
    }
    v
}
fn unframed(v: &serde_json::Value) -> serde_json::Value {
    match v {
        serde_json::Value::Object(o) => serde_json::Value::Object(o.iter().filter(|(k, _)| *k != "bad_dealer").map(|(k, x)| (k.clone(), unframed(x))).collect()),
        serde_json::Value::Array(a) => serde_json::Value::Array(a.iter().map(unframed).collect()),
        x => x.clone(),
    }
}
fn author<D: Dkg>(net: &Net<D>, w: &W<D>) -> Option<usize> {
    net.author(w)
}
fn pool<D: Dkg>(net: &Net<D>) -> Vec<Point> {
    net.keys.iter().map(base_mul).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Alt {
    s: Scen,
    muts: Vec<Mut>,
    every: u8,
}
fn alterations(c: &Alt) -> Res {
    match c.s.proto {
        Proto::Pedersen => alter_run::<PedD>(c, &mut fresh(&c.s)?, fresh(&c.s)?),
        Proto::Rabin => alter_run::<RabD>(c, &mut fresh(&c.s)?, fresh(&c.s)?),
        Proto::Reshare { .. } => alter_run::<PedD>(c, &mut resharing(&c.s)?, resharing(&c.s)?),
    }
}
fn alter_run<D: Dkg>(c: &Alt, net: &mut Net<D>, mut plain: Net<D>) -> Res {
    let mut labels: BTreeSet<String> = BTreeSet::new();
    let mut n = 0;
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, _: Phase| -> Result<(), Fail> {
        let Some(w) = w else { return Ok(()) };
        if net.step % (c.every as usize + 1) != 0 {
            return Ok(());
        }
        let m = &c.muts[net.step % c.muts.len()];
        let v = w.value();
        let (x, what) = alter(&v, m, &pool(net));
        if canon(&x) == canon(&v) {
            return Ok(());
        }
        let Ok(bad) = w.with(&x) else {
            labels.insert("undecodable".into());
            return Ok(());
        };
        if canon(&bad.value()) == canon(&v) {
            return Ok(());
        }
        // before its deal is known, a response of this dealer's is provisional (see known findings)
        if !D::RABIN && bad.dealer() != w.dealer() && matches!(w, W::Resp(_)) && !knows(net, j, bad.dealer()) {
            return Ok(());
        }
        rejected(net, j, &bad, &field(&what))?;
        n += 1;
        labels.insert(format!("{} {}", w.name(), field(&what)));
        Ok(())
    };
    run(&c.s, net, &mut hook)?;
    run(&c.s, &mut plain, &mut none::<D>)?;
    ensure_eq!(ends(net), ends(&plain), "outcome:differs from the undisturbed run");
    ensure!(ends(&plain).iter().any(|e| e.1.is_ok()) || c.s.falsify.is_some() || !matches!(c.s.proto, Proto::Pedersen), "outcome:nobody finished");
    let mut o = Obs::nt(n > 0).label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string());
    for l in labels {
        o = o.label(l);
    }
    Ok(o)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Attr {
    s: Scen,
    acts: Vec<(u8, u16, u16)>,
    every: u8,
}
fn attribution(c: &Attr) -> Res {
    match c.s.proto {
        Proto::Pedersen => attr_run::<PedD>(c, &mut fresh(&c.s)?, fresh(&c.s)?),
        Proto::Rabin => attr_run::<RabD>(c, &mut fresh(&c.s)?, fresh(&c.s)?),
        Proto::Reshare { .. } => attr_run::<PedD>(c, &mut resharing(&c.s)?, resharing(&c.s)?),
    }
}
fn attr_run<D: Dkg>(c: &Attr, net: &mut Net<D>, mut plain: Net<D>) -> Res {
    let mut labels: BTreeSet<String> = BTreeSet::new();
    let mut n = 0;
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, _: Phase| -> Result<(), Fail> {
        let Some(w) = w else { return Ok(()) };
        if net.step % (c.every as usize + 1) != 0 {
            return Ok(());
        }
        let (kind, a, b) = c.acts[net.step % c.acts.len()];
        let Some(who) = author(net, w) else { return Ok(()) };
        let other = a as usize % net.keys.len();
        let (bad, what) = match kind % 6 {
            // signed by its author, but for another session
            4 | 5 => {
                let v = w.value();
                let sids: Vec<String> = nodes(&v).into_iter().map(|x| x.0).filter(|p| p.ends_with("session_id")).collect();
                if sids.is_empty() || matches!(w, W::Deal(_)) {
                    return Ok(());
                }
                let mut x = v.clone();
                let all = a % 3 == 0;
                for (k, p) in sids.iter().enumerate() {
                    if !all && k != a as usize % sids.len() {
                        continue;
                    }
                    let slot = x.pointer_mut(p).unwrap();
                    let mut id: Vec<u8> = unval(slot).unwrap_or_default();
                    match b % 5 {
                        0 if !id.is_empty() => {
                            let l = id.len();
                            id[b as usize / 40 % l] ^= 1 << (b / 5 % 8);
                        }
                        1 => id.push((b / 5) as u8),
                        2 => {
                            id.pop();
                        }
                        3 => id.clear(),
                        _ => id = net.seen.iter().rev().flat_map(|y| {
                                let v = y.value();
                                nodes(&v).into_iter().filter(|x| x.0.ends_with("session_id")).filter_map(|x| unval::<Vec<u8>>(v.pointer(&x.0).unwrap()).ok()).collect::<Vec<_>>()
                            })
                            .find(|i| *i != id).unwrap_or_default(),
                    }
                    *slot = val(&id);
                }
                let Ok(x) = w.with(&x) else { return Ok(()) };
                if x.value() == v {
                    return Ok(());
                }
                // before its deal is known, a response is provisional (see known findings)
                if !D::RABIN && matches!(w, W::Resp(_)) && !knows(net, j, w.dealer()) {
                    return Ok(());
                }
                (x.resign(&net.keys[who]), "signed for another session")
            }
            // somebody else signs it
            0 => {
                if other == who {
                    return Ok(());
                }
                (w.resign(&net.keys[other]), "signed by another participant")
            }
            1 => (w.resign(&key_of(c.s.keys, 90_000 + b as u32)), "signed by an outsider"),
            // the author claims to be somebody else
            2 => {
                let claimed = b as u32 % (net.as_dealer.len() as u32 + 1);
                let x = match w {
                    W::Deal(x) => {
                        let (i, e, s) = D::un_deal(x);
                        if i == claimed {
                            return Ok(());
                        }
                        W::Deal(D::mk_deal(claimed, &e, &s))
                    }
                    W::Just(x) => {
                        let (i, m) = D::un_just(x);
                        if i == claimed {
                            return Ok(());
                        }
                        W::Just(D::mk_just(claimed, &m))
                    }
                    W::Resp(x) => {
                        let (d, mut m) = D::un_resp(x);
                        if m.index == claimed {
                            return Ok(());
                        }
                        m.index = claimed;
                        W::Resp(D::mk_resp(d, &m))
                    }
                    W::Sc(x) => {
                        let mut x = x.clone();
                        if x.index == claimed {
                            return Ok(());
                        }
                        x.index = claimed;
                        W::Sc(x)
                    }
                    W::Cc(x) => {
                        let mut x = x.clone();
                        if x.index == claimed {
                            return Ok(());
                        }
                        x.index = claimed;
                        W::Cc(x)
                    }
                    W::Rc(x) => {
                        let mut x = x.clone();
                        if x.index == claimed {
                            return Ok(());
                        }
                        x.index = claimed;
                        x.share.i = claimed as usize;
                        W::Rc(x)
                    }
                };
                (x.resign(&net.keys[who]), "claims another author")
            }
            // the message of another participant, attributed to this author unsigned or signed
            _ => {
                let same: Vec<W<D>> = net.seen.iter().filter(|x| x.name() == w.name() && author(net, x).is_some_and(|y| y != who)).cloned().collect();
                if same.is_empty() {
                    return Ok(());
                }
                let x = &same[b as usize % same.len()];
                // an honest message signed by somebody else
                (x.resign(&net.keys[who]), "of another participant signed by the author")
            }
        };
        rejected(net, j, &bad, what)?;
        n += 1;
        labels.insert(format!("{} {what}", w.name()));
        Ok(())
    };
    run(&c.s, net, &mut hook)?;
    run(&c.s, &mut plain, &mut none::<D>)?;
    ensure_eq!(ends(net), ends(&plain), "outcome:differs from the undisturbed run");
    let mut o = Obs::nt(n > 0).label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string());
    for l in labels {
        o = o.label(l);
    }
    Ok(o)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Rep {
    s: Scen,
    other: u64,
    /// the other session has these complaints and falsified commitments
    complain: Vec<u8>,
    falsify: Option<(u8, u8)>,
    picks: Vec<u16>,
    every: u8,
}
fn replays(c: &Rep) -> Res {
    match c.s.proto {
        Proto::Pedersen => replay_run::<PedD>(c, &fresh),
        Proto::Rabin => replay_run::<RabD>(c, &fresh),
        Proto::Reshare { .. } => replay_run::<PedD>(c, &resharing),
    }
}
fn replay_run<D: Dkg>(c: &Rep, mk: &dyn Fn(&Scen) -> Result<Net<D>, Fail>) -> Res {
    if c.other == c.s.seed {
        return Ok(Obs::nt(false));
    }
    let s2 = Scen { seed: c.other, complain: c.complain.clone(), falsify: c.falsify, ..c.s.clone() };
    let mut foreign = mk(&s2)?;
    run(&s2, &mut foreign, &mut none::<D>)?;
    let msgs: Vec<W<D>> = foreign.seen.iter().filter(|w| !matches!(w, W::Deal(_))).cloned().collect();
    let mut labels: BTreeSet<String> = BTreeSet::new();
    let mut n = 0;
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, _: Phase| -> Result<(), Fail> {
        let Some(w) = w else { return Ok(()) };
        if net.step % (c.every as usize + 1) != 0 || msgs.is_empty() {
            return Ok(());
        }
        let k = c.picks[net.step % c.picks.len()] as usize;
        // like the message that is due, or any
        let like: Vec<&W<D>> = msgs.iter().filter(|m| m.name() == w.name() && m.dealer() == w.dealer()).collect();
        let bad = if k % 2 == 0 && !like.is_empty() { like[k / 2 % like.len()].clone() } else { msgs[k / 2 % msgs.len()].clone() };
        if !D::RABIN && matches!(bad, W::Resp(_)) && !knows(net, j, bad.dealer()) {
            return Ok(());
        }
        rejected(net, j, &bad, "of another session")?;
        n += 1;
        labels.insert(bad.name().into());
        Ok(())
    };
    let mut net = mk(&c.s)?;
    run(&c.s, &mut net, &mut hook)?;
    let mut plain = mk(&c.s)?;
    run(&c.s, &mut plain, &mut none::<D>)?;
    ensure_eq!(ends(&net), ends(&plain), "outcome:differs from the undisturbed run");
    let mut o = Obs::nt(n > 0).label(format!("{:?}", c.s.proto).split(' ').next().unwrap().to_string());
    for l in labels {
        o = o.label(l);
    }
    Ok(o)
}

/// responses that reach a node of the Pedersen variant before the deal they are about
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Early {
    s: Scen,
    other: u64,
    pick: u16,
}
fn early(c: &Early) -> Res {
    let s = Scen { proto: Proto::Pedersen, order: vec![], complain: vec![], ..c.s.clone() };
    let mut foreign = fresh::<PedD>(&Scen { seed: c.other, ..s.clone() })?;
    run(&Scen { seed: c.other, ..s.clone() }, &mut foreign, &mut none::<PedD>)?;
    let mut net = fresh::<PedD>(&s)?;
    let (n, d) = (s.n, c.pick as usize % s.n);
    let j = (d + 1) % n;
    let from = (0..n).find(|x| *x != d && *x != j);
    let Some(from) = from else { return Ok(Obs::nt(false)) };
    det::reseed64(s.seed ^ 1);
    let deals = okr("deals", PedD::deals(&mut net.g[d]))?;
    let bad = foreign.seen.iter().find(|w| matches!(w, W::Resp(r) if r.index == d as u32 && r.response.index == from as u32)).cloned();
    let Some(bad) = bad else { return fail("internal", "no such response") };
    let good = W::<PedD>::Resp(okr("process_deal", PedD::p_deal(&mut net.g[from], &deals[&from]))?);
    let first = nopanic("delivery", || deliver::<PedD>(&mut net.g[j], &bad))?;
    let second = nopanic("delivery", || deliver::<PedD>(&mut net.g[j], &good))?;
    okr("process_deal", PedD::p_deal(&mut net.g[j], &deals[&j]))?;
    // whatever was replayed does not count, and the honest response does
    let third = nopanic("delivery", || deliver::<PedD>(&mut net.g[j], &good))?;
    let counted = net.g[j].verifiers[&(d as u32)].responses().get(&(from as u32)).map(|r| r.session_id == net.g[d].dealer.session_id());
    ensure!(counted == Some(true), "response:replayed before the deal:counts", "{first:?} {second:?} {third:?}");
    if second.is_err() {
        return fail("predeal-foreign-response-occupies-slot", format!("the honest response was rejected with {second:?}"));
    }
    Ok(Obs::nt(true))
}

/// an altered justification of an open complaint must not count against the dealer
fn forged(c: &Early) -> Res {
    let s = Scen { proto: if c.other % 2 == 0 { Proto::Pedersen } else { Proto::Rabin }, complain: vec![0xff; 8], ..c.s.clone() };
    if s.proto == Proto::Rabin {
        forged_run::<RabD>(c, &s)
    } else {
        forged_run::<PedD>(c, &s)
    }
}
fn forged_run<D: Dkg>(c: &Early, s: &Scen) -> Res {
    let mut tried = 0;
    let mut hook = |net: &mut Net<D>, j: usize, w: Option<&W<D>>, _: Phase| -> Result<(), Fail> {
        let Some(W::Just(x)) = w else { return Ok(()) };
        let (d, mut m) = D::un_just(x);
        tried += 1;
        if tried != 1 + c.pick as usize % 4 {
            return Ok(());
        }
        m.deal.sec_share.v = Scalar { v: kv::refmath::sc(&(kv::refmath::lebytes(&m.deal.sec_share.v.v) + 1u32)) };
        let bad = W::<D>::Just(D::mk_just(d, &m));
        let mut g = net.g[j].clone();
        let got = nopanic("delivery", || deliver::<D>(&mut g, &bad))?;
        ensure!(got.is_err(), "justification:forged:accepted");
        ensure!(g == net.g[j], "forged-justification-frames-dealer", "node {j}, dealer {d}: {got:?}");
        Ok(())
    };
    let mut net = fresh::<D>(s)?;
    run(s, &mut net, &mut hook)?;
    Ok(Obs::nt(tried > 0))
}

// ---------------------------------------------------------------------------- partial signatures
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Part {
    seed: u64,
    n: usize,
    t: usize,
    msg: Bs,
    muts: Vec<Mut>,
    signer: u8,
}
fn partials(c: &Part) -> Res {
    use kyber_rs::sign::dss;
    det::reseed64(c.seed);
    let keys: Vec<Scalar> = (0..c.n as u32).map(|i| key_of(c.seed, i)).collect();
    let pubs: Vec<Point> = keys.iter().map(base_mul).collect();
    let (l, r) = (old_shares(c.seed, c.n, c.t), old_shares(c.seed.wrapping_add(1), c.n, c.t));
    let mut nodes = vec![];
    let mut parts = vec![];
    for i in 0..c.n {
        let mut d = okr("new_dss", dss::new_dss(suite(), &keys[i], &pubs, &l[i], &r[i], &c.msg.0, c.t))?;
        parts.push(okr("partial_sig", d.partial_sig())?);
        nodes.push(d);
    }
    let d = &mut nodes[0];
    let mut n = 0;
    let mut o = Obs::nt(true);
    for (k, p) in parts.iter().enumerate().skip(1) {
        for m in &c.muts {
            let v = val(p);
            let (x, what) = alter(&v, m, &pubs);
            if canon(&x) == canon(&v) {
                continue;
            }
            let Ok(mut bad) = unval::<dss::PartialSig<det::DSuite>>(&x) else { continue };
            if canon(&val(&bad)) == canon(&v) {
                continue;
            }
            // some are signed again by their author, who cannot alter what it has to send
            if c.signer == 1 && !what.starts_with("signature") {
                if let Ok(h) = bad.hash(suite()) {
                    bad.signature = sign(&keys[k], &h);
                }
            }
            let before = d.clone();
            let got = nopanic("process_partial_sig", || d.process_partial_sig(bad))?;
            ensure!(got.is_err(), format!("partial signature:{}:accepted", field(&what)), "of {k}");
            ensure!(before == *d, format!("partial signature:{}:changes the signer", field(&what)));
            n += 1;
            o = o.label(field(&what));
        }
        okr("process_partial_sig", d.process_partial_sig(p.clone()))?;
    }
    let s = okr("signature", d.signature())?;
    let public = l[0].public();
    ensure!(dss::verify(&public, &c.msg.0, &s).is_ok(), "signature:invalid after rejected partial signatures");
    o.nontrivial = n > 0;
    Ok(o)
}

// ---- what exactly a signature covers
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Signed {
    seed: u64,
    n: usize,
    t: usize,
    sid: Bs,
    index: u32,
    other: u32,
    ok: bool,
    share_i: usize,
}
/// every message's hash is that of its kind and all its fields, computed here from the fields
fn signed_contents(c: &Signed) -> Res {
    use kyber_rs::encoding::BinaryMarshaler;
    use kyber_rs::share::dkg::rabin as rd;
    use kyber_rs::share::poly::PriShare;
    use kyber_rs::sign::dss;
    use sha2::{Digest, Sha256};
    det::reseed64(c.seed);
    let h = |parts: &[&[u8]]| {
        let mut h = Sha256::new();
        for p in parts {
            h.update(p);
        }
        h.finalize().to_vec()
    };
    let (ix, ox) = (c.index.to_le_bytes(), c.other.to_le_bytes());
    let com = Com::new(c.seed, c.n, false);
    let k = key_of(c.seed, 500);
    for other in [false, true] {
        // the hash leaves the signature itself out
        let sig = if other { vec![7u8; 64] } else { vec![] };
        let want = h(&[b"response", &c.sid.0, &ix, &(c.ok as u32).to_le_bytes()]);
        let m = MResp { session_id: c.sid.0.clone(), index: c.index, ok: c.ok, signature: sig.clone() };
        ensure_eq!(okr("hash", Ped::resp(&m).hash(&suite()))?, want, "pedersen response:hash is not of kind, session, index and verdict");
        ensure_eq!(okr("hash", Rab::resp(&m).hash(&suite()))?, want, "rabin response:hash is not of kind, session, index and verdict");
        let commitments: Vec<Point> = (0..c.t as u32).map(|i| base_mul(&key_of(c.seed, 600 + i))).collect();
        let mut parts: Vec<Vec<u8>> = vec![b"secretcommits".to_vec(), c.sid.0.clone(), ix.to_vec()];
        parts.extend(commitments.iter().map(penc));
        let parts: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let m = rd::SecretCommits::<kv::det::DSuite> { index: c.index, commitments, session_id: c.sid.0.clone(), signature: sig.clone() };
        ensure_eq!(okr("hash", m.hash(&suite()))?, h(&parts), "secret commitments:hash is not of kind, session, index and commitments");
        let share = PriShare { i: c.share_i, v: k.clone() };
        let sh = h(&[&k.v, &(c.share_i as u32).to_le_bytes()]);
        let m = rd::ReconstructCommits::<kv::det::DSuite> { session_id: c.sid.0.clone(), index: c.index, dealer_index: c.other, share: share.clone(), signature: sig.clone() };
        ensure_eq!(okr("hash", m.hash(&suite()))?, h(&[b"reconstructcommits", &c.sid.0, &ix, &ox, &sh]), "reconstruct share:hash is not of kind, session, indices and share");
        let mut d = okr("new_dealer", Rab::dealer(&com.dlong, &k, &com.pubs, c.t))?;
        let deal = okr("plaintext_deal", Rab::plain(&mut d, c.index as usize % c.n))?.clone();
        let db = okr("deal encodes", deal.marshal_binary())?;
        let m = rd::ComplaintCommits { index: c.index, dealer_index: c.other, deal, signature: sig.clone() };
        ensure_eq!(okr("hash", m.hash(&suite()))?, h(&[b"commitcomplaint", &ix, &ox, &db]), "commitment complaint:hash is not of kind, indices and deal");
        let m = dss::PartialSig::<kv::det::DSuite> { partial: share, session_id: c.sid.0.clone(), signature: sig };
        ensure_eq!(okr("hash", m.hash(suite()))?, h(&[&sh, &c.sid.0]), "partial signature:hash is not of share and session");
    }
    // and a justification's signature is over kind, session, index and deal
    justified_by::<Ped>(c, &com, &k)?;
    justified_by::<Rab>(c, &com, &k)?;
    Ok(Obs::nt(true))
}
/// the dealer's answer to a complaint carries its signature over these very bytes
fn justified_by<V: Vss>(c: &Signed, com: &Com, k: &Scalar) -> Result<(), Fail> {
    let mut d = okr("new_dealer", V::dealer(&com.dlong, k, &com.pubs, c.t))?;
    let i = c.index as usize % c.n;
    let r = V::resp(&MResp::new(&V::d_sid(&d), i as u32, false, &com.keys[i]));
    let j = okr("process_response", V::d_resp(&mut d, &r))?;
    let Some(j) = j else { return fail("complaint:not answered", format!("{i}")) };
    let m = V::mjust(&j);
    ensure!(
        kyber_rs::sign::schnorr::verify(suite(), &com.dpub, &V::just_hash(&m), &m.signature).is_ok(),
        "justification:signature is not over kind, session, index and deal"
    );
    Ok(())
}

fn c28() -> Prop {
    Prop {
        id: "C28",
        laws: vec![
            law(
                "alterations",
                500,
                50_000,
                "at least one altered message was delivered",
                || (scen(5), prop::collection::vec(mutation(), 1..60), 0u8..4).prop_map(|(s, muts, every)| Alt { s, muts, every }),
                alterations
            ),
            law(
                "attribution",
                300,
                30_000,
                "at least one misattributed message was delivered",
                || (scen(5), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>()), 1..60), 0u8..4).prop_map(|(s, acts, every)| Attr { s, acts, every }),
                attribution
            ),
            law(
                "replays",
                300,
                30_000,
                "at least one message of another session was delivered",
                || {
                    (scen(5), any::<u64>(), prop::collection::vec(any::<u8>(), 5), prop::option::weighted(0.7, (any::<u8>(), any::<u8>())), prop::collection::vec(any::<u16>(), 1..60), 0u8..3)
                        .prop_map(|(s, other, complain, falsify, picks, every)| Rep { s, other, complain, falsify, picks, every })
                },
                replays
            ),
            law("early-responses", 40, 2_000, "more than two nodes", || (scen(5), any::<u64>(), any::<u16>()).prop_map(|(s, other, pick)| Early { s, other, pick }), early),
            law("forged-justifications", 40, 2_000, "a complaint was justified", || (scen(5), any::<u64>(), any::<u16>()).prop_map(|(s, other, pick)| Early { s, other, pick }), forged),
            law(
                "signed-contents",
                300,
                30_000,
                "every case",
                || {
                    (2usize..=5).prop_flat_map(|n| {
                        let ix = || prop_oneof![3 => 0u32..8, 1 => any::<u32>(), 1 => Just(256u32), 1 => Just(u32::MAX)];
                        (any::<u64>(), Just(n), 2..=n, prop_oneof![2 => bytes_n(32..=32), 1 => bytes(80)], ix(), ix(), any::<bool>(), prop_oneof![4 => 0usize..300, 1 => 0usize..=u32::MAX as usize])
                            .prop_map(|(seed, n, t, sid, index, other, ok, share_i)| Signed { seed, n, t, sid, index, other, ok, share_i })
                    })
                },
                signed_contents
            ),
            law(
                "partial-signatures",
                300,
                30_000,
                "at least one altered partial signature was processed",
                || {
                    (2usize..=6)
                        .prop_flat_map(|n| (any::<u64>(), Just(n), 1..=n, message(), prop::collection::vec(mutation(), 1..12), 0u8..2))
                        .prop_map(|(seed, n, t, msg, muts, signer)| Part { seed, n, t, msg, muts, signer })
                },
                partials
            ),
        ],
        assumptions: vec!["a node knows the session a message belongs to once it has the deal in question"],
    }
}
fn main() {
    kv::cli::main(&[("C28", c28)]);
}
