//! C21 / C22 distributed key generation (Pedersen / Rabin), C23 resharing, C24 renewal.
use kv::det::{self, DSuite, DetReader};
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use kyber_rs::share::poly::PriShare;
use kyber_rs::Point as _;
use num_bigint_dig::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn big(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
fn scb(n: &BigUint) -> Scalar {
    Scalar { v: rm::sc(n) }
}
fn x_of(i: usize) -> BigUint {
    BigUint::from(i + 1)
}
fn plus_one(s: &Scalar) -> Scalar {
    scb(&rm::modl(&(big(s) + 1u32)))
}
fn bit(m: u8, i: usize) -> bool {
    m >> (i % 8) & 1 == 1
}

// ------------------------------------------------------------------ the sharing phase (C21, C22)
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum DFault {
    None,
    /// takes no part at all
    Absent,
    /// sends no deal (or an unusable one) to the masked nodes
    Omit { mask: u8, unusable: bool },
    /// deals invalid shares to the masked nodes; answers complaints well (0), badly (1) or never (2)
    Bad { mask: u8, kind: u8, just: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum RFault {
    None,
    /// does not respond to the masked dealers
    Silent(u8),
    /// complains about the masked dealers' valid deals
    Complain(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fault {
    d: DFault,
    r: RFault,
    /// broadcasts a response to its own deal
    own: Option<bool>,
}
impl Fault {
    fn honest(&self) -> bool {
        self.d == DFault::None && self.r == RFault::None && self.own.is_none()
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sim {
    seed: u64,
    n: usize,
    t: usize,
    faults: Vec<Fault>,
    order: Vec<u16>,
    /// every k-th delivery is repeated
    dup: u8,
    /// nodes whose timeout runs out before the first message (Pedersen)
    early: u8,
    /// faults of the commitment phase (Rabin)
    commit: Vec<CFault>,
    pick: Vec<u16>,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum CFault {
    None,
    Withhold,
    /// adds a polynomial to the committed one that vanishes at the given participant
    Falsify { at: u16, by: B32, free: bool },
    /// another number of commitments
    Length(u8),
    /// complains about everyone else's valid commitments
    Unfounded { forged: bool },
    /// complains only about the dealer's, and sends no reconstruction share
    NoShare,
}
fn fault() -> impl Strategy<Value = Fault> {
    let d = prop_oneof![
        3 => Just(DFault::None),
        2 => Just(DFault::Absent),
        2 => (any::<u8>(), prop::bool::weighted(0.3)).prop_map(|(mask, unusable)| DFault::Omit { mask, unusable }),
        4 => (1u8.., 0u8..3, 0u8..6).prop_map(|(mask, kind, just)| DFault::Bad { mask, kind, just }),
    ];
    let r = prop_oneof![3 => Just(RFault::None), 2 => any::<u8>().prop_map(RFault::Silent), 2 => any::<u8>().prop_map(RFault::Complain)];
    (d, r, prop::option::weighted(0.2, any::<bool>())).prop_map(|(d, r, own)| Fault { d, r, own })
}
fn cfault() -> impl Strategy<Value = CFault> {
    prop_oneof![
        1 => Just(CFault::Withhold),
        8 => (any::<u16>(), key32(), any::<bool>()).prop_map(|(at, by, free)| CFault::Falsify { at, by, free }),
        1 => any::<u8>().prop_map(CFault::Length),
        3 => any::<bool>().prop_map(|forged| CFault::Unfounded { forged }),
        2 => Just(CFault::NoShare),
    ]
}
fn nt(max: usize) -> impl Strategy<Value = (usize, usize)> {
    (2usize..=max).prop_flat_map(|n| (Just(n), prop_oneof![3 => 2usize..=n, 1 => Just(2usize), 1 => Just(n), 1 => Just(((n + 1) / 2).max(2))]))
}
fn sim(max: usize, faulty: f64) -> impl Strategy<Value = Sim> {
    (any::<u64>(), nt(max))
        .prop_flat_map(move |(seed, (n, t))| {
            let ok = Fault { d: DFault::None, r: RFault::None, own: None };
            let f = prop_oneof![((1.0 - faulty) * 100.0) as u32 => Just(ok), (faulty * 100.0) as u32 => fault()];
            let cf = prop_oneof![4 => Just(CFault::None), 1 => cfault()];
            (
                Just((seed, n, t)),
                prop::collection::vec(f, n),
                prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(any::<u16>(), 1..200)],
                0u8..6,
                prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
                prop::collection::vec(cf, n),
                prop::collection::vec(any::<u16>(), n),
            )
        })
        .prop_map(|((seed, n, t), faults, order, dup, early, commit, pick)| Sim { seed, n, t, faults, order, dup, early, commit, pick })
}

/// what a node has recorded about one dealer
#[derive(Clone, Debug, Default, PartialEq)]
struct View {
    known: bool,
    /// holds a valid deal
    valid: bool,
    bad: bool,
    timeout: bool,
    resp: BTreeMap<u32, bool>,
}
impl View {
    fn certified(&self, rabin: bool, n: usize, t: usize) -> bool {
        let app = self.resp.values().filter(|r| **r).count();
        let missing = n - self.resp.len();
        if self.bad || app < t || (rabin && !self.known) {
            return false;
        }
        if rabin {
            return missing == 0;
        }
        app == self.resp.len() && (missing == 0 || (self.timeout && missing <= n - t))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Msg {
    Deal(usize),
    Resp(usize, usize),
    Just(usize, usize),
}
struct Run<D: Dkg> {
    n: usize,
    t: usize,
    com: Com,
    g: Vec<D::G>,
    honest: Vec<bool>,
    dead: Vec<bool>,
    /// the dealers' polynomials
    co: Vec<Vec<BigUint>>,
    true_deals: Vec<Vec<MDeal>>,
    views: Vec<Vec<View>>,
    delivered: usize,
    labels: Vec<&'static str>,
}
impl<D: Dkg> Run<D> {
    fn quals(&self, j: usize) -> Vec<usize> {
        (0..self.n).filter(|d| self.views[j][*d].certified(D::RABIN, self.n, self.t)).collect()
    }
    fn observe(&self, j: usize, after: &str) -> Result<(), Fail> {
        if !self.honest[j] {
            return Ok(());
        }
        let q = D::qual(&self.g[j]);
        let want = self.quals(j);
        ensure!(q == want, "qual:not as the rules say", "node {j} after {after}: {q:?} instead of {want:?}, view {:?}", self.views[j]);
        ensure!(D::certified(&self.g[j]) == (want.len() >= self.t), "certified:not as the rules say", "node {j} after {after}: {} of {}", want.len(), self.t);
        if let Some((shares, all)) = D::progress(&self.g[j]) {
            ensure_eq!(shares, good_holders(&self.views[j], self.n), "qualified_shares:wrong");
            ensure!(all == self.views[j].iter().enumerate().all(|(d, v)| want.contains(&d) && v.resp.len() == self.n), "certified:wrong", "node {j} after {after}, qualified {q:?}");
        }
        Ok(())
    }
}
/// holders that answered every deal that has answers and no open complaint
fn good_holders(views: &[View], n: usize) -> Vec<usize> {
    let good: Vec<&View> = views.iter().filter(|v| !v.resp.is_empty() && v.resp.values().all(|x| *x)).collect();
    (0..n).filter(|i| good.iter().all(|v| v.resp.contains_key(&(*i as u32)))).collect()
}
fn sharing<D: Dkg>(c: &Sim) -> Result<Run<D>, Fail> {
    det::reseed64(c.seed);
    let n = c.n;
    let com = Com::new(c.seed, n, true);
    let mut r: Run<D> = Run {
        n,
        t: c.t,
        g: vec![],
        honest: c.faults.iter().map(|f| f.honest()).collect(),
        dead: c.faults.iter().map(|f| f.d == DFault::Absent).collect(),
        co: vec![],
        true_deals: vec![],
        views: vec![vec![View::default(); n]; n],
        delivered: 0,
        labels: vec![],
        com,
    };
    let mut deals: Vec<BTreeMap<usize, D::Dl>> = vec![];
    let mut valid = vec![vec![true; n]; n];
    for d in 0..n {
        // the default threshold need not be spelled out
        let t = if !D::RABIN && c.t == D::V::minimum_t(n) && c.seed % 2 == 0 { 0 } else { c.t };
        let mut g = okr("new_dist_key_generator", D::new(&r.com.keys[d], &r.com.pubs, t))?;
        let plain: Vec<MDeal> = (0..n).map(|i| D::V::mdeal(D::plain(&mut g, i))).collect();
        let pts: Vec<_> = plain.iter().map(|m| (x_of(m.sec_share.i), big(&m.sec_share.v))).collect();
        let co = rm::interpolate(&pts[..c.t]);
        for (x, y) in &pts {
            ensure!(rm::poly_eval(&co, x) == *y, "deals:off the polynomial of degree t-1");
        }
        r.co.push(co);
        if let DFault::Bad { mask, kind, .. } = &c.faults[d].d {
            for i in (0..n).filter(|i| *i != d && bit(*mask, *i)) {
                valid[d][i] = false;
                let mut m = plain[i].clone();
                match kind {
                    1 if D::RABIN => m.rnd_share.as_mut().unwrap().v = plus_one(&m.rnd_share.as_ref().unwrap().v),
                    2 => m.session_id[i] ^= 1,
                    _ => m.sec_share.v = plus_one(&m.sec_share.v),
                }
                *D::plain(&mut g, i) = D::V::deal(&m);
            }
        }
        if let (DFault::Omit { mask, unusable: true }, false) = (&c.faults[d].d, D::RABIN) {
            for i in (0..n).filter(|i| *i != d && bit(*mask, *i)) {
                let mut m = plain[i].clone();
                m.sec_share.i = (i + 1) % n;
                *D::plain(&mut g, i) = D::V::deal(&m);
            }
        }
        let mut out = BTreeMap::new();
        if !r.dead[d] {
            out = okr("deals", nopanic("deals", || D::deals(&mut g))?)?;
            ensure_eq!(out.keys().copied().collect::<Vec<_>>(), (0..n).filter(|i| *i != d).collect::<Vec<_>>(), "deals:recipients");
            if (c.seed >> 8 ^ d as u64) % 3 == 0 {
                // asked again, the same deals in other envelopes
                let before = g.clone();
                let again = okr("deals", nopanic("deals again", || D::deals(&mut g))?)?;
                ensure!(g == before, "deals:repeated call changes the node");
                ensure_eq!(again.keys().collect::<Vec<_>>(), out.keys().collect::<Vec<_>>(), "deals:recipients");
                out = again;
            }
            let v = &mut r.views[d][d];
            v.known = true;
            v.valid = true;
            v.resp.insert(d as u32, true);
        }
        for (i, p) in plain.iter().enumerate() {
            *D::plain(&mut g, i) = D::V::deal(p);
        }
        if let DFault::Omit { mask, unusable } = &c.faults[d].d {
            // without its deal a node of the Rabin variant cannot follow the dealer: all or none
            let mask = if D::RABIN && *mask & 1 == 1 { 0xff } else if D::RABIN { 0 } else { *mask };
            if !unusable || D::RABIN {
                out.retain(|i, _| !bit(mask, *i));
            }
            if *unusable && !D::RABIN {
                r.labels.push("unusable deal");
            }
            for i in 0..n {
                valid[d][i] &= !bit(mask, i);
            }
        }
        deals.push(out);
        r.true_deals.push(plain);
        r.g.push(g);
    }
    if !D::RABIN {
        for j in 0..n {
            if bit(c.early, j) {
                D::timeout(&mut r.g[j]);
                r.views[j].iter_mut().for_each(|v| v.timeout = true);
            }
        }
    }
    let mut resps: BTreeMap<(usize, usize), MResp> = BTreeMap::new();
    // justification and whether it is good
    let mut justs: BTreeMap<(usize, usize), (MJust, bool)> = BTreeMap::new();
    let mut pending: Vec<(usize, Msg)> = vec![];
    let mut later: Vec<Vec<Msg>> = vec![vec![]; n];
    for d in 0..n {
        for i in deals[d].keys() {
            pending.push((*i, Msg::Deal(d)));
        }
        if let (Some(ok), false) = (c.faults[d].own, r.dead[d]) {
            resps.insert((d, d), MResp::new(&r.true_deals[d][0].session_id, d as u32, ok, &r.com.keys[d]));
            for j in (0..n).filter(|j| *j != d) {
                pending.push((j, Msg::Resp(d, d)));
            }
        }
    }
    let mut step = 0usize;
    while !pending.is_empty() {
        let k = if c.order.is_empty() { 0 } else { c.order[step % c.order.len()] as usize % pending.len() };
        let (j, msg) = if c.order.is_empty() { pending.remove(0) } else { pending.swap_remove(k) };
        step += 1;
        if r.dead[j] {
            continue;
        }
        r.delivered += 1;
        let h = r.honest[j];
        let mut accepted = false;
        match msg {
            Msg::Deal(d) => {
                let dl = &deals[d][&j];
                let unusable = matches!(c.faults[d].d, DFault::Omit { unusable: true, mask } if !D::RABIN && bit(mask, j));
                let before = if unusable && h { Some(r.g[j].clone()) } else { None };
                let got = nopanic("process_deal", || D::p_deal(&mut r.g[j], dl))?;
                if unusable {
                    ensure!(got.is_err(), "process_deal:deal of another participant accepted");
                    ensure!(before.is_none_or(|b| b == r.g[j]), "process_deal:rejected deal changes the node");
                    continue;
                }
                let (rd, m) = match got {
                    Ok(x) => D::un_resp(&x),
                    Err(e) => return fail("process_deal:rejected", format!("deal {d}->{j}: {e}")),
                };
                let ok = valid[d][j];
                ensure!(rd as usize == d && m.index as usize == j, "process_deal:response indices");
                ensure!(m.ok == ok, if ok { "process_deal:valid deal not approved" } else { "process_deal:invalid deal approved" }, "{d}->{j}");
                let sid = session_id(&r.com.pubs[d], &r.com.pubs, &r.true_deals[d][0].commitments, c.t);
                ensure!(m.session_id == sid, "process_deal:response's session");
                ensure!(kyber_rs::sign::schnorr::verify(suite(), &r.com.pubs[j], &m.hash(), &m.signature).is_ok(), "process_deal:response's signature");
                let v = &mut r.views[j][d];
                v.known = true;
                v.valid = ok;
                v.resp.insert(j as u32, ok);
                v.resp.insert(d as u32, true);
                accepted = true;
                let out = match c.faults[j].r {
                    RFault::Silent(mask) if bit(mask, d) => None,
                    RFault::Complain(mask) if bit(mask, d) => Some(MResp::new(&sid, j as u32, false, &r.com.keys[j])),
                    _ => Some(m),
                };
                if let Some(m) = out {
                    resps.insert((d, j), m);
                    for to in (0..n).filter(|to| *to != j) {
                        pending.push((to, Msg::Resp(d, j)));
                    }
                }
            }
            Msg::Resp(d, from) => {
                let m = resps[&(d, from)].clone();
                let v = r.views[j][d].clone();
                let want = !v.resp.contains_key(&(from as u32)) && from != d && (v.known || !D::RABIN);
                if !want && D::RABIN && !v.known && deals[d].contains_key(&j) && from != d {
                    later[j].push(msg);
                }
                let before = if !want && h { Some(r.g[j].clone()) } else { None };
                let msg_in = D::mk_resp(d as u32, &m);
                let got = nopanic("process_response", || D::p_resp(&mut r.g[j], &msg_in))?;
                if want {
                    let v = &mut r.views[j][d];
                    v.resp.insert(from as u32, m.ok);
                    if !D::RABIN {
                        v.resp.insert(d as u32, true);
                    }
                    accepted = true;
                }
                if h {
                    ensure!(got.is_ok() == want, if want { "process_response:rejected" } else { "process_response:accepted" }, "{d},{from} at {j}: {got:?}, view {v:?}");
                    ensure!(before.is_none_or(|b| b == r.g[j]), "process_response:rejected response changes the node", "{d},{from} at {j}");
                    if want {
                        let js = got.unwrap();
                        ensure!(js.is_some() == (d == j && !m.ok), "process_response:justification exactly for complaints about the own deal", "{d},{from} at {j}");
                        if let Some(js) = js {
                            let (i, js) = D::un_just(&js);
                            ensure!(i as usize == d && js.index as usize == from && js.deal == r.true_deals[d][from], "justification:other content");
                            r.views[j][d].resp.insert(from as u32, true);
                            justs.insert((d, from), (js, true));
                        }
                    }
                }
                if d == j && want && !m.ok && !h {
                    // a dishonest dealer answers as it likes
                    let policy = match c.faults[d].d {
                        DFault::Bad { just, .. } => just,
                        _ => 0,
                    };
                    let mut md = r.true_deals[d][from].clone();
                    let sid = md.session_id.clone();
                    match policy {
                        1 => md.sec_share.v = plus_one(&md.sec_share.v),
                        // a consistent deal of another polynomial, under this session's identifier
                        3 | 4 => {
                            md.sec_share.v = plus_one(&md.sec_share.v);
                            if let Some(x) = md.rnd_share.as_mut() {
                                x.v = plus_one(&x.v);
                            }
                            let one = suite().point().base();
                            let one = if D::RABIN { suite().point().add(&one, &second_base(&r.com.pubs)) } else { one };
                            md.commitments[0] = suite().point().add(&md.commitments[0], &one);
                            if policy == 4 {
                                md.session_id = session_id(&r.com.pubs[d], &r.com.pubs, &md.commitments, c.t);
                            }
                        }
                        5 => md.session_id[0] ^= 1,
                        _ => {}
                    }
                    if policy != 2 {
                        justs.insert((d, from), (D::V::make_just(&sid, from as u32, &md, &r.com.keys[d]), policy == 0));
                    }
                }
                if d == j && want && justs.contains_key(&(d, from)) {
                    for to in (0..n).filter(|to| *to != d) {
                        pending.push((to, Msg::Just(d, from)));
                    }
                }
            }
            Msg::Just(d, about) => {
                let (m, good) = justs[&(d, about)].clone();
                let v = r.views[j][d].clone();
                let open = v.resp.get(&(about as u32)) == Some(&false) && (v.known || !D::RABIN);
                if !open && !v.resp.contains_key(&(about as u32)) {
                    later[j].push(msg);
                }
                let before = if !open && h { Some(r.g[j].clone()) } else { None };
                let jin = D::mk_just(d as u32, &m);
                let got = nopanic("process_justification", || D::p_just(&mut r.g[j], &jin))?;
                if open {
                    let v = &mut r.views[j][d];
                    if good {
                        v.resp.insert(about as u32, true);
                        if about == j {
                            v.valid = true;
                        }
                        r.labels.push("justified");
                    } else {
                        v.bad = true;
                        r.labels.push("bad justification");
                    }
                    accepted = true;
                }
                if h {
                    ensure!(got.is_ok() == (open && good), if good { "process_justification:rejected" } else { "process_justification:accepted" }, "{d},{about} at {j}: {got:?} view {v:?}");
                    ensure!(before.is_none_or(|b| b == r.g[j]), "process_justification:rejected justification changes the node");
                }
            }
        }
        r.observe(j, &format!("{msg:?}"))?;
        if accepted {
            pending.extend(later[j].drain(..).map(|m| (j, m)));
            // repeated delivery
            if c.dup > 0 && step % (c.dup as usize + 1) == 0 && h {
                let before = r.g[j].clone();
                let again = match msg {
                    Msg::Deal(d) => D::p_deal(&mut r.g[j], &deals[d][&j]).map(|_| ()),
                    Msg::Resp(d, f) => D::p_resp(&mut r.g[j], &D::mk_resp(d as u32, &resps[&(d, f)])).map(|_| ()),
                    Msg::Just(d, a) => D::p_just(&mut r.g[j], &D::mk_just(d as u32, &justs[&(d, a)].0)),
                };
                ensure!(again.is_err(), "duplicate:accepted", "{msg:?} at {j}");
                // a bad justification stays bad
                ensure!(before == r.g[j], "duplicate:changes the node", "{msg:?} at {j}");
            }
        }
    }
    for j in 0..n {
        if r.dead[j] {
            continue;
        }
        if r.honest[j] && !D::RABIN {
            // before the timeout nobody may be missing
            r.observe(j, "all messages")?;
        }
        D::timeout(&mut r.g[j]);
        for d in 0..n {
            let v = &mut r.views[j][d];
            v.timeout = true;
            if D::RABIN && v.known {
                for i in 0..n as u32 {
                    v.resp.entry(i).or_insert(false);
                }
            }
        }
        r.observe(j, "timeout")?;
    }
    Ok(r)
}
fn some_honest<D: Dkg>(r: &Run<D>) -> Option<usize> {
    (0..r.n).find(|j| r.honest[*j])
}
fn sum_poly<D: Dkg>(r: &Run<D>, q: &[usize]) -> Vec<BigUint> {
    (0..r.t).map(|k| rm::modl(&q.iter().map(|d| r.co[*d].get(k).cloned().unwrap_or_default()).sum::<BigUint>())).collect()
}
/// The keys of the honest nodes that finished: same commitments, shares on the polynomial, any
/// threshold of them reconstructs.
fn check_keys(keys: &[(usize, Key)], co: &[BigUint], t: usize, pick: &[u16]) -> Result<bool, Fail> {
    let commits: Vec<Vec<u8>> = co.iter().map(|c| penc(&base_mul(&scb(c)))).collect();
    for (j, k) in keys {
        let got: Vec<Vec<u8>> = k.commits.iter().map(penc).collect();
        ensure!(got == commits, "key:commitments are not the sum over the qualified dealers", "node {j}");
        ensure!(k.i == *j, "key:share index", "node {j}: {}", k.i);
        ensure!(big(&k.v) == rm::poly_eval(co, &x_of(*j)), "key:share is not the sum of the qualified dealers' shares", "node {j}");
    }
    if keys.len() < t {
        return Ok(false);
    }
    let sub = perm(pick, keys.len());
    let shares: Vec<Option<PriShare<Scalar>>> = sub[..t].iter().map(|k| Some(PriShare { i: keys[*k].1.i, v: keys[*k].1.v.clone() })).collect();
    let n = keys.iter().map(|k| k.0 + 1).max().unwrap();
    let s = okr("recover_secret", kyber_rs::share::poly::recover_secret(suite(), &shares, t, n))?;
    ensure!(big(&s) == co[0] && penc(&base_mul(&s)) == commits[0], "key:threshold of shares does not give the private key");
    Ok(true)
}

fn pedersen(c: &Sim) -> Res {
    let r = sharing::<PedD>(c)?;
    let Some(h0) = some_honest(&r) else { return Ok(Obs::nt(false).label("nobody honest")) };
    let q = r.quals(h0);
    let mut keys = vec![];
    let (mut errs, mut missing) = (0, 0);
    for j in (0..r.n).filter(|j| r.honest[*j]) {
        ensure!(r.quals(j) == q, "agreement:honest nodes disagree on the qualified dealers", "{h0}: {q:?}, {j}: {:?}", r.quals(j));
        let g = &r.g[j];
        for i in 0..r.n as u32 + 2 {
            ensure!(g.is_in_qual(i) == q.contains(&(i as usize)), "is_in_qual:wrong", "node {j}, dealer {i}, qualified {q:?}");
        }
        ensure!(g.threshold_certified() == (q.len() >= r.t), "threshold_certified:wrong", "{} of {}", q.len(), r.t);
        let all = (0..r.n).all(|d| q.contains(&d) && r.views[j][d].resp.len() == r.n);
        ensure!(g.certified() == all, "certified:wrong", "node {j} qualified {q:?}");
        ensure_eq!(g.expected_deals(), r.n - 1, "expected_deals:wrong");
        ensure_eq!(g.qualified_shares(), good_holders(&r.views[j], r.n), "qualified_shares:wrong");
        let have = q.iter().all(|d| r.views[j][*d].valid);
        let k = nopanic("dist_key_share", || PedD::key(g))?;
        if q.len() < r.t {
            ensure!(k.is_err(), "dist_key_share:key without a threshold of qualified dealers", "{} of {}", q.len(), r.t);
            errs += 1;
        } else if !have {
            ensure!(k.is_err(), "dist_key_share:key without a qualified dealer's deal", "node {j}");
            missing += 1;
        } else {
            match k {
                Ok(k) => keys.push((j, k)),
                Err(e) => return fail("dist_key_share:error", format!("node {j}: {e}, qualified {q:?}")),
            }
            let full = okr("dist_key_share", g.dist_key_share())?;
            ensure!(penc(&full.public()) == penc(&full.commits[0]), "public:not the first commitment");
            ensure!(full.private_poly.iter().map(big).collect::<Vec<_>>() == r.co[j], "private_poly:not the node's own polynomial");
        }
    }
    let co = sum_poly(&r, &q);
    let rec = check_keys(&keys, &co, r.t, &c.pick)?;
    let mut o = Obs::nt(r.delivered > 0)
        .label_if(rec, "reconstructed")
        .label_if(errs > 0, "not certified")
        .label_if(missing > 0, "node lacks a deal")
        .label_if(q.len() < r.n && q.len() >= r.t, "certified with some dealers excluded")
        .label_if(c.faults.iter().any(|f| !f.honest()), "faults");
    r.labels.iter().collect::<std::collections::BTreeSet<_>>().into_iter().for_each(|l| o.labels.push(l.to_string()));
    Ok(o)
}

// ------------------------------------------------------------------ the commitment phase (C22)
#[derive(Clone, Copy, Debug, PartialEq)]
enum CMsg {
    Secret(usize),
    Complaint(usize, usize),
    Reconstruct(usize, usize),
    Unfounded(usize, usize),
}
/// a good node's knowledge about one dealer's commitments
#[derive(Clone, Debug, Default)]
struct CView {
    /// commitments stored, as broadcast
    stored: bool,
    /// commitments that do not match the own share
    rejected: bool,
    /// a complaint was accepted
    open: bool,
    pending: std::collections::BTreeSet<usize>,
    done: bool,
}
fn rabin(c: &Sim) -> Res {
    let mut r = sharing::<RabD>(c)?;
    let (n, t) = (r.n, r.t);
    let Some(h0) = some_honest(&r) else { return Ok(Obs::nt(false).label("nobody honest")) };
    let q = r.quals(h0);
    let mut o = Obs::nt(r.delivered > 0).label_if(c.faults.iter().any(|f| !f.honest()), "faults");
    for l in r.labels.iter().collect::<std::collections::BTreeSet<_>>() {
        o.labels.push(l.to_string());
    }
    for j in (0..n).filter(|j| r.honest[*j]) {
        ensure!(r.quals(j) == q, "agreement:honest nodes disagree on the qualified dealers", "{h0}: {q:?}, {j}: {:?}", r.quals(j));
        for i in 0..n as u32 + 2 {
            ensure!(r.g[j].is_in_qual(i) == q.contains(&(i as usize)), "is_in_qual:wrong", "node {j}, dealer {i}, qualified {q:?}");
        }
        ensure!(r.g[j].certified() == (q.len() >= t), "certified:wrong", "{} of {t}", q.len());
        ensure!(!r.g[j].finished(), "finished:before any commitments");
        ensure!(nopanic("dist_key_share", || RabD::key(&r.g[j]))?.is_err(), "dist_key_share:key before any commitments");
    }
    let mut good: Vec<usize> =
        (0..n).filter(|j| r.honest[*j] && c.commit[*j] == CFault::None && q.contains(j) && q.iter().all(|d| r.views[*j][*d].valid)).collect();
    if q.len() < t {
        good.clear();
        o = o.label("not certified");
    }
    // commitments as broadcast: None when withheld or unusable; the offset of the false ones
    let mut sent: BTreeMap<usize, rd::SecretCommits<DSuite>> = BTreeMap::new();
    let mut offset: BTreeMap<usize, Vec<BigUint>> = BTreeMap::new();
    let mut lost = vec![];
    for d in 0..n {
        if r.honest[d] && c.commit[d] == CFault::None {
            let g = &mut r.g[d];
            let sc = nopanic("secret_commits", || g.secret_commits())?;
            ensure!(sc.is_ok() == q.contains(&d), if q.contains(&d) { "secret_commits:error for a qualified dealer" } else { "secret_commits:revealed by a disqualified dealer" }, "{d} of {q:?}: {:?}", sc.err());
            let Ok(sc) = sc else { continue };
            let want: Vec<Vec<u8>> = r.co[d].iter().map(|x| penc(&base_mul(&scb(x)))).collect();
            ensure!(sc.commitments.iter().map(penc).collect::<Vec<_>>() == want && sc.index as usize == d, "secret_commits:not the dealer's polynomial");
            sent.insert(d, sc);
        } else if q.contains(&d) {
            let mut co = r.co[d].clone();
            co.resize(t, BigUint::default());
            let mut delta = vec![BigUint::default(); t];
            match &c.commit[d] {
                CFault::Withhold => {
                    lost.push(d);
                    continue;
                }
                CFault::Falsify { at, by, free } if good.len() >= t => {
                    let b = by.modl();
                    if *free {
                        delta[*at as usize % t] = b;
                    } else {
                        let x = x_of(*at as usize % n);
                        delta[0] = rm::subl(&BigUint::default(), &rm::modl(&(&b * &x)));
                        delta[1] = b;
                    }
                    offset.insert(d, delta.clone());
                }
                CFault::Length(k) => {
                    lost.push(d);
                    co.resize(if *k & 1 == 0 { t - 1 } else { t + 1 + *k as usize % 3 }, BigUint::from(5u32));
                    delta.resize(co.len(), BigUint::default());
                }
                _ => {}
            }
            let commitments = co.iter().zip(&delta).map(|(a, b)| base_mul(&scb(&rm::modl(&(a + b))))).collect();
            let sid = r.true_deals[d][0].session_id.clone();
            let mut sc = rd::SecretCommits { index: d as u32, commitments, session_id: sid, signature: vec![] };
            sc.signature = sign(&r.com.keys[d], &sc.hash(&suite()).unwrap());
            sent.insert(d, sc);
        }
    }
    if good.is_empty() {
        return Ok(o);
    }
    let mut cv: BTreeMap<(usize, usize), CView> = BTreeMap::new();
    for j in &good {
        for d in &q {
            cv.insert((*j, *d), CView { stored: j == d, ..Default::default() });
        }
    }
    let mut pending: Vec<(usize, CMsg)> = vec![];
    let mut later: BTreeMap<usize, Vec<CMsg>> = BTreeMap::new();
    for d in sent.keys() {
        for j in good.iter().filter(|j| *j != d) {
            pending.push((*j, CMsg::Secret(*d)));
        }
    }
    let mut unfounded: BTreeMap<(usize, usize), rd::ComplaintCommits<DSuite>> = BTreeMap::new();
    for b in (0..n).filter(|b| !good.contains(b) && !r.dead[*b]) {
        if let CFault::Unfounded { forged } = c.commit[b] {
            for d in q.iter().filter(|d| **d != b && (forged || !offset.contains_key(d))) {
                let mut deal = r.true_deals[*d][b].clone();
                if forged {
                    deal.sec_share.v = plus_one(&deal.sec_share.v);
                }
                let mut cc = rd::ComplaintCommits { index: b as u32, dealer_index: *d as u32, deal: Rab::deal(&deal), signature: vec![] };
                cc.signature = sign(&r.com.keys[b], &cc.hash(&suite()).unwrap());
                unfounded.insert((b, *d), cc);
                for j in &good {
                    pending.push((*j, CMsg::Unfounded(b, *d)));
                }
            }
        }
    }
    let mut ccs: BTreeMap<(usize, usize), rd::ComplaintCommits<DSuite>> = BTreeMap::new();
    let mut rcs: BTreeMap<(usize, usize), rd::ReconstructCommits<DSuite>> = BTreeMap::new();
    let mut step = 0usize;
    let mut complaints = 0;
    while !pending.is_empty() {
        let k = if c.order.is_empty() { 0 } else { c.order[(step * 7 + 3) % c.order.len()] as usize % pending.len() };
        let (j, msg) = if c.order.is_empty() { pending.remove(0) } else { pending.swap_remove(k) };
        step += 1;
        let before = r.g[j].clone();
        let g = &mut r.g[j];
        let mut progress = false;
        match msg {
            CMsg::Secret(d) => {
                let got = nopanic("process_secret_commits", || g.process_secret_commits(&sent[&d]))?;
                if !q.contains(&d) {
                    ensure!(got.is_err() && before == *g, "process_secret_commits:from a disqualified dealer accepted");
                    continue;
                }
                let v = cv.get_mut(&(j, d)).unwrap();
                if lost.contains(&d) || v.done || v.open {
                    ensure!(got.is_err(), "process_secret_commits:unusable commitments accepted", "{d} at {j}");
                    ensure!(before == *g, "process_secret_commits:rejected commitments change the node");
                    continue;
                }
                let detect = offset.get(&d).is_some_and(|p| rm::poly_eval(p, &x_of(j)) != BigUint::default());
                match got {
                    Err(e) => return fail("process_secret_commits:rejected", format!("{d} at {j}: {e:?}")),
                    Ok(None) => {
                        ensure!(!detect, "process_secret_commits:false commitments accepted", "{d} at {j}");
                        v.stored = true;
                    }
                    Ok(Some(cc)) => {
                        ensure!(detect, "process_secret_commits:complaint about true commitments", "{d} at {j}");
                        ensure!(cc.index as usize == j && cc.dealer_index as usize == d && Rab::mdeal(&cc.deal) == r.true_deals[d][j], "complaint:other content");
                        v.rejected = true;
                        complaints += 1;
                        ccs.insert((j, d), cc);
                        pending.extend(good.iter().map(|to| (*to, CMsg::Complaint(j, d))));
                    }
                }
                progress = true;
            }
            CMsg::Unfounded(b, d) => {
                let got = nopanic("process_complaint_commits", || g.process_complaint_commits(&unfounded[&(b, d)]))?;
                ensure!(got.is_err(), "process_complaint_commits:unfounded complaint accepted", "{b} about {d} at {j}");
                ensure!(before == *g, "process_complaint_commits:rejected complaint changes the node");
            }
            CMsg::Complaint(i, d) => {
                let got = nopanic("process_complaint_commits", || g.process_complaint_commits(&ccs[&(i, d)]))?;
                let v = cv.get_mut(&(j, d)).unwrap();
                if (v.stored || v.rejected) && !v.open && !v.done {
                    let rc = match got {
                        Ok(rc) => rc,
                        Err(e) => return fail("process_complaint_commits:justified complaint rejected", format!("{i} about {d} at {j}: {e:?}")),
                    };
                    ensure!(rc.index as usize == j && rc.dealer_index as usize == d && rc.share.i == j && rc.share.v == r.true_deals[d][j].sec_share.v, "reconstruction share:other content");
                    v.open = true;
                    v.stored = false;
                    v.rejected = false;
                    v.pending.insert(j);
                    rcs.insert((j, d), rc);
                    pending.extend(good.iter().filter(|to| **to != j).map(|to| (*to, CMsg::Reconstruct(j, d))));
                    progress = true;
                } else {
                    ensure!(got.is_err(), "process_complaint_commits:complaint without commitments accepted");
                    ensure!(before == *g, "process_complaint_commits:rejected complaint changes the node");
                    if !v.open && !v.done {
                        later.entry(j).or_default().push(msg);
                    }
                }
            }
            CMsg::Reconstruct(i, d) => {
                let got = nopanic("process_reconstruct_commits", || g.process_reconstruct_commits(&rcs[&(i, d)]))?;
                let v = cv.get_mut(&(j, d)).unwrap();
                if v.done {
                    ensure!(got.is_ok() && before == *g, "process_reconstruct_commits:late share changes the node");
                } else if v.stored {
                    ensure!(got.is_err() && before == *g, "process_reconstruct_commits:accepted without a complaint");
                    later.entry(j).or_default().push(msg);
                } else {
                    ensure!(got.is_ok(), "process_reconstruct_commits:rejected", "{i} about {d} at {j}: {got:?}");
                    v.pending.insert(i);
                    progress = true;
                    // a second share of the same node does not count, whatever it is
                    let mut twin = rcs[&(i, d)].clone();
                    twin.share.v = plus_one(&twin.share.v);
                    twin.signature = sign(&r.com.keys[i], &twin.hash(&suite()).unwrap());
                    let after = g.clone();
                    let got = nopanic("process_reconstruct_commits", || g.process_reconstruct_commits(&twin))?;
                    ensure!(after == *g, "process_reconstruct_commits:second share of a node counts", "{i} about {d} at {j}: {got:?}");
                }
            }
        }
        for (_, v) in cv.iter_mut().filter(|((x, _), _)| *x == j) {
            if !v.done && v.pending.len() >= t {
                v.done = true;
            }
        }
        let fin = q.iter().all(|d| cv[&(j, *d)].stored || cv[&(j, *d)].done);
        ensure!(r.g[j].finished() == fin, if fin { "finished:false with all commitments" } else { "finished:true without all commitments" }, "{j} after {msg:?}");
        if !fin {
            ensure!(nopanic("dist_key_share", || RabD::key(&r.g[j]))?.is_err(), "dist_key_share:key before all commitments");
        }
        if progress {
            pending.extend(later.remove(&j).unwrap_or_default().into_iter().map(|m| (j, m)));
        }
    }
    let mut keys = vec![];
    for j in &good {
        let fin = r.g[*j].finished();
        ensure!(fin == lost.iter().all(|d| !q.contains(d)), if fin { "finished:although commitments are missing" } else { "finished:never" }, "{j}");
        let k = nopanic("dist_key_share", || RabD::key(&r.g[*j]))?;
        if fin {
            keys.push((*j, okr("dist_key_share", k)?));
        } else {
            ensure!(k.is_err(), "dist_key_share:key without all commitments");
        }
    }
    // whoever lacks a qualified dealer's share gets an error
    for j in (0..n).filter(|j| r.honest[*j] && q.iter().any(|d| !r.views[*j][*d].valid)) {
        ensure!(nopanic("dist_key_share", || RabD::key(&r.g[j]))?.is_err(), "dist_key_share:key without a qualified dealer's share");
        o = o.label("node lacks a deal");
    }
    let rec = check_keys(&keys, &sum_poly(&r, &q), t, &c.pick)?;
    Ok(o.label_if(rec, "reconstructed")
        .label_if(complaints > 0, "commitments reconstructed after a complaint")
        .label_if(!lost.is_empty(), "commitments withheld")
        .label_if(!unfounded.is_empty(), "unfounded complaint")
        .label_if(q.len() < n, "certified with some dealers excluded"))
}

// A dealer that deals to some nodes only: the others cannot follow it.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Omitted {
    seed: u64,
    n: usize,
    t: usize,
    mask: u8,
}
fn omitted(c: &Omitted) -> Res {
    det::reseed64(c.seed);
    let (n, t) = (c.n, c.t);
    let com = Com::new(c.seed, n, true);
    let mut g = vec![];
    for k in &com.keys {
        g.push(okr("new_dist_key_generator", RabD::new(k, &com.pubs, t))?);
    }
    let left = |d: usize, i: usize| d == 0 && i != 0 && bit(c.mask, i);
    let mut resps = vec![];
    for d in 0..n {
        for (i, dl) in okr("deals", RabD::deals(&mut g[d]))? {
            if !left(d, i) {
                resps.push((d, i, okr("process_deal", RabD::p_deal(&mut g[i], &dl))?));
            }
        }
    }
    let mut split = false;
    for (d, i, m) in &resps {
        for j in (0..n).filter(|j| j != i) {
            let got = nopanic("process_response", || RabD::p_resp(&mut g[j], m))?;
            if left(*d, j) {
                split = true;
                ensure!(got.is_err(), "process_response:accepted without the deal");
            } else {
                okr("process_response", got)?;
            }
        }
    }
    g.iter_mut().for_each(RabD::timeout);
    let got: Vec<Vec<usize>> = g.iter().map(RabD::qual).collect();
    let dealt = (1..n).filter(|i| !left(0, *i)).count();
    // those who have the deal see the others as complaining
    let zero = dealt + 1 >= t;
    let predicted: Vec<Vec<usize>> = (0..n).map(|j| (0..n).filter(|d| *d != 0 || (zero && !left(0, j))).collect()).collect();
    let honest = &got[1..];
    if honest.iter().any(|q| q != &honest[0]) {
        let sig = if got == predicted && split { "rabin-omitted-deal-splits-qualified-set" } else { "agreement:honest nodes disagree on the qualified dealers" };
        return fail(sig, format!("n={n} t={t} omitted {:?}: {got:?}", (1..n).filter(|i| left(0, *i)).collect::<Vec<_>>()));
    }
    Ok(Obs::nt(split))
}

// ------------------------------------------------------------------ resharing (C23)
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum OFault {
    None,
    Absent,
    /// shares something else than its old share
    Wrong(B32),
    Bad { mask: u8, just: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Resh {
    seed: u64,
    no: usize,
    to: usize,
    nn: usize,
    /// 0: the default threshold
    tn: usize,
    overlap: usize,
    keys: Vec<u16>,
    dealers: Vec<OFault>,
    holders: Vec<RFault>,
    order: Vec<u16>,
    dup: u8,
    early: u8,
}
fn resh(max: usize, faulty: u32) -> impl Strategy<Value = Resh> {
    (any::<u64>(), nt(max), nt(max), any::<u16>(), prop::bool::weighted(0.1))
        .prop_flat_map(move |(seed, (no, to), (nn, tn), ov, def)| {
            let m = no.min(nn);
            let overlap = match ov % 4 {
                0 => 0,
                1 => m,
                _ => ov as usize / 4 % (m + 1),
            };
            let tn = if def && nn >= 3 { 0 } else { tn };
            let of = prop_oneof![
                1 => Just(OFault::Absent),
                2 => key32().prop_map(OFault::Wrong),
                2 => (1u8.., 0u8..3).prop_map(|(mask, just)| OFault::Bad { mask, just }),
            ];
            let hf = prop_oneof![any::<u8>().prop_map(RFault::Silent), any::<u8>().prop_map(RFault::Complain)];
            (
                Just((seed, no, to, nn, tn, overlap)),
                prop::collection::vec(any::<u16>(), 16),
                prop::collection::vec(prop_oneof![100 - faulty => Just(OFault::None), faulty => of], no),
                prop::collection::vec(prop_oneof![100 - faulty => Just(RFault::None), faulty / 2 + 1 => hf], nn),
                prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(any::<u16>(), 1..200)],
                0u8..6,
                prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
            )
        })
        .prop_map(|((seed, no, to, nn, tn, overlap), keys, dealers, holders, order, dup, early)| Resh { seed, no, to, nn, tn, overlap, keys, dealers, holders, order, dup, early })
}
/// a resharing in which everybody's keys and the old shares are given
struct Setup {
    old: Vec<Scalar>,
    new: Vec<Scalar>,
    to: usize,
    tn: usize,
    commits: Vec<Point>,
    shares: Vec<PShare>,
}
struct Plan<'a> {
    dealers: &'a [OFault],
    holders: &'a [RFault],
    order: &'a [u16],
    dup: u8,
    early: u8,
}
struct Outcome {
    shares: Vec<Option<PShare>>,
    q: Vec<usize>,
    labels: Vec<&'static str>,
}
fn committees(seed: u64, no: usize, nn: usize, overlap: usize, keys: &[u16], gen: u32) -> (Vec<Scalar>, Vec<Scalar>) {
    let old: Vec<Scalar> = (0..no as u32).map(|i| key_of(seed, gen * 100 + i)).collect();
    (old.clone(), next_committee(seed, &old, nn, overlap, keys, gen + 1))
}
fn next_committee(seed: u64, old: &[Scalar], nn: usize, overlap: usize, keys: &[u16], gen: u32) -> Vec<Scalar> {
    let mut l: Vec<Scalar> = perm(keys, old.len()).into_iter().take(overlap).map(|i| old[i].clone()).collect();
    for i in l.len()..nn {
        l.push(key_of(seed, gen * 100 + 50 + i as u32));
    }
    let k: Vec<u16> = keys.iter().rev().copied().collect();
    perm(&k, nn).into_iter().map(|i| l[i].clone()).collect()
}
fn eval_commits(commits: &[Point], i: usize) -> Point {
    let mut acc = suite().point().null();
    let mut pw = BigUint::from(1u32);
    for c in commits {
        let term = suite().point().mul(&scb(&pw), Some(c));
        acc = suite().point().add(&acc, &term);
        pw = rm::modl(&(&pw * x_of(i)));
    }
    acc
}
use kyber_rs::Group as _;
fn reshare(s: &Setup, p: &Plan) -> Result<Outcome, Fail> {
    let (no, nn) = (s.old.len(), s.new.len());
    let tn = if s.tn == 0 { (nn + 1) / 2 } else { s.tn };
    let opub: Vec<Point> = s.old.iter().map(base_mul).collect();
    let npub: Vec<Point> = s.new.iter().map(base_mul).collect();
    let new_of = |d: usize| s.new.iter().position(|k| *k == s.old[d]);
    let old_of = |j: usize| s.old.iter().position(|k| *k == s.new[j]);
    let dead = |d: usize| p.dealers[d] == OFault::Absent;
    let cfg = |long: &Scalar, share: Option<PShare>, public: Option<Vec<Point>>| pd::Config {
        suite: suite(),
        longterm: long.clone(),
        old_nodes: opub.clone(),
        public_coeffs: public,
        new_nodes: npub.clone(),
        share,
        threshold: s.tn,
        old_threshold: s.to,
        reader: Some(DetReader),
        user_reader_only: true,
    };
    let mut labels = vec![];
    // nodes: the new ones by their new index, then the leaving ones by their old index
    let mut g: Vec<Option<PGen>> = vec![];
    let mut honest = vec![];
    let share_of = |d: usize| {
        let mut sh = s.shares[d].clone();
        if let OFault::Wrong(b) = &p.dealers[d] {
            sh.share.v = scb(&rm::modl(&(big(&sh.share.v) + b.modl())));
        }
        sh
    };
    for j in 0..nn {
        let od = old_of(j);
        let c = match od {
            Some(d) => cfg(&s.new[j], Some(share_of(d)), None),
            None => cfg(&s.new[j], None, Some(s.commits.clone())),
        };
        honest.push(p.holders[j] == RFault::None && od.is_none_or(|d| p.dealers[d] == OFault::None));
        let n = okr("new_dist_key_handler", pd::new_dist_key_handler(c))?;
        ensure_eq!(n.expected_deals(), if od.is_some() { no - 1 } else { no }, "expected_deals:wrong");
        g.push((!od.is_some_and(dead)).then_some(n));
    }
    let leaving: Vec<usize> = (0..no).filter(|d| new_of(*d).is_none()).collect();
    for d in &leaving {
        let n = okr("new_dist_key_handler", pd::new_dist_key_handler(cfg(&s.old[*d], Some(share_of(*d)), None)))?;
        ensure_eq!(n.expected_deals(), 0, "expected_deals:wrong");
        honest.push(p.dealers[*d] == OFault::None);
        g.push((!dead(*d)).then_some(n));
    }
    for j in (0..nn).filter(|j| old_of(*j).is_none()) {
        // who holds nothing deals nothing
        if let Some(n) = g[j].as_mut() {
            ensure!(okr("deals", nopanic("deals", || PedD::deals(n))?)?.is_empty(), "deals:from a newcomer");
        }
    }
    let node_of = |d: usize| new_of(d).unwrap_or_else(|| nn + leaving.iter().position(|x| *x == d).unwrap());
    let total = g.len();
    let mut deals: Vec<BTreeMap<usize, pd::structs::Deal<Point>>> = vec![BTreeMap::new(); no];
    let mut plain: Vec<Vec<MDeal>> = vec![vec![]; no];
    let mut valid = vec![vec![true; nn]; no];
    for d in 0..no {
        let Some(n) = g[node_of(d)].as_mut() else { continue };
        plain[d] = (0..nn).map(|i| Ped::mdeal(PedD::plain(n, i))).collect();
        if let OFault::Bad { mask, .. } = &p.dealers[d] {
            for i in (0..nn).filter(|i| bit(*mask, *i) && old_of(*i) != Some(d)) {
                valid[d][i] = false;
                let mut m = plain[d][i].clone();
                m.sec_share.v = plus_one(&m.sec_share.v);
                *PedD::plain(n, i) = Ped::deal(&m);
            }
        }
        deals[d] = okr("deals", nopanic("deals", || PedD::deals(n))?)?;
        ensure_eq!(deals[d].keys().copied().collect::<Vec<_>>(), (0..nn).collect::<Vec<_>>(), "deals:recipients");
        if (d + no) % 3 == 0 {
            let again = okr("deals", nopanic("deals again", || PedD::deals(n))?)?;
            ensure_eq!(again.keys().collect::<Vec<_>>(), deals[d].keys().collect::<Vec<_>>(), "deals:recipients");
            deals[d] = again;
        }
        for (i, m) in plain[d].iter().enumerate() {
            *PedD::plain(n, i) = Ped::deal(m);
        }
    }
    for j in 0..nn {
        if let (true, Some(n)) = (bit(p.early, j), g[j].as_mut()) {
            n.set_timeout();
        }
    }
    let right = |d: usize| !matches!(p.dealers[d], OFault::Wrong(_));
    let mut views = vec![vec![View::default(); no]; total];
    for (j, v) in views.iter_mut().enumerate().take(nn) {
        v.iter_mut().for_each(|v| v.timeout = bit(p.early, j) && g[j].is_some());
    }
    let quals = |views: &Vec<Vec<View>>, j: usize| -> Vec<usize> { (0..no).filter(|d| views[j][*d].certified(false, nn, tn)).collect() };
    let mut resps: BTreeMap<(usize, usize), MResp> = BTreeMap::new();
    let mut justs: BTreeMap<(usize, usize), (MJust, bool)> = BTreeMap::new();
    let mut pending: Vec<(usize, Msg)> = vec![];
    let mut later: Vec<Vec<Msg>> = vec![vec![]; total];
    for (d, m) in deals.iter().enumerate() {
        pending.extend(m.keys().map(|i| (*i, Msg::Deal(d))));
    }
    let mut step = 0usize;
    while !pending.is_empty() {
        let k = if p.order.is_empty() { 0 } else { p.order[step % p.order.len()] as usize % pending.len() };
        let (j, msg) = if p.order.is_empty() { pending.remove(0) } else { pending.swap_remove(k) };
        step += 1;
        let Some(n) = g[j].as_mut() else { continue };
        let h = honest[j];
        let mut accepted = false;
        match msg {
            Msg::Deal(d) => {
                let (rd, m) = match nopanic("process_deal", || PedD::p_deal(n, &deals[d][&j]))? {
                    Ok(x) => PedD::un_resp(&x),
                    Err(e) => return fail("process_deal:rejected", format!("deal {d}->{j}: {e}")),
                };
                let ok = valid[d][j] && right(d);
                if h {
                    ensure!(rd as usize == d && m.index as usize == j, "process_deal:response indices");
                    ensure!(m.ok == ok, if ok { "process_deal:valid deal not approved" } else { "process_deal:invalid deal approved" }, "{d}->{j} {:?}", p.dealers[d]);
                    ensure!(m.session_id == session_id(&opub[d], &npub, &plain[d][0].commitments, tn), "process_deal:response's session");
                    ensure!(kyber_rs::sign::schnorr::verify(suite(), &npub[j], &m.hash(), &m.signature).is_ok(), "process_deal:response's signature");
                }
                let v = &mut views[j][d];
                v.known = true;
                v.valid = ok;
                v.resp.insert(j as u32, ok);
                if let (Some(e), false) = (new_of(d), right(d)) {
                    v.resp.entry(e as u32).or_insert(false);
                }
                accepted = true;
                let out = match &p.holders[j] {
                    RFault::Silent(mask) if bit(*mask, d) => None,
                    RFault::Complain(mask) if bit(*mask, d) => Some(MResp::new(&m.session_id, j as u32, false, &s.new[j])),
                    // a cheating dealer approves itself
                    _ if old_of(j) == Some(d) && !right(d) => Some(MResp::new(&m.session_id, j as u32, true, &s.new[j])),
                    _ => Some(m),
                };
                if let Some(m) = out {
                    resps.insert((d, j), m);
                    pending.extend((0..total).filter(|to| *to != j).map(|to| (to, Msg::Resp(d, j))));
                }
            }
            Msg::Resp(d, from) => {
                let m = &resps[&(d, from)];
                let v = views[j][d].clone();
                let want = !v.resp.contains_key(&(from as u32));
                let before = if !want && h { Some(n.clone()) } else { None };
                let rin = PedD::mk_resp(d as u32, m);
                let got = nopanic("process_response", || PedD::p_resp(n, &rin))?;
                if want {
                    views[j][d].resp.insert(from as u32, m.ok);
                    accepted = true;
                }
                let mine = node_of(d) == j;
                if h {
                    ensure!(got.is_ok() == want, if want { "process_response:rejected" } else { "process_response:accepted" }, "{d},{from} at {j}: {got:?}, view {v:?}");
                    ensure!(before.is_none_or(|b| b == *n), "process_response:rejected response changes the node");
                    if let Ok(js) = got {
                        ensure!(js.is_some() == (mine && !m.ok), "process_response:justification exactly for complaints about the own deal", "{d},{from} at {j}");
                        if let Some(js) = js {
                            let (i, js) = PedD::un_just(&js);
                            ensure!(i as usize == d && js.index as usize == from && js.deal == plain[d][from], "justification:other content");
                            if j < nn {
                                views[j][d].resp.insert(from as u32, true);
                            }
                            justs.insert((d, from), (js, true));
                        }
                    }
                } else if mine && want && !m.ok {
                    let policy = match &p.dealers[d] {
                        OFault::Bad { just, .. } => *just,
                        _ => 0,
                    };
                    let mut md = plain[d][from].clone();
                    if policy == 1 {
                        md.sec_share.v = plus_one(&md.sec_share.v);
                    }
                    if policy < 2 {
                        justs.insert((d, from), (Ped::make_just(&md.session_id.clone(), from as u32, &md, &s.old[d]), policy == 0));
                    }
                }
                if mine && want && justs.contains_key(&(d, from)) {
                    // leaving nodes do not follow justifications
                    pending.extend((0..nn).filter(|to| *to != j).map(|to| (to, Msg::Just(d, from))));
                }
            }
            Msg::Just(d, about) => {
                let (m, good) = justs[&(d, about)].clone();
                let v = views[j][d].clone();
                let open = v.resp.get(&(about as u32)) == Some(&false);
                if !open && !v.resp.contains_key(&(about as u32)) {
                    later[j].push(msg);
                }
                let before = if (!open || !right(d)) && h { Some(n.clone()) } else { None };
                let jin = PedD::mk_just(d as u32, &m);
                let got = nopanic("process_justification", || PedD::p_just(n, &jin))?;
                if open && right(d) {
                    let v = &mut views[j][d];
                    if good {
                        v.resp.insert(about as u32, true);
                        if about == j {
                            v.valid = true;
                        }
                        labels.push("justified");
                    } else {
                        v.bad = true;
                        labels.push("bad justification");
                    }
                    accepted = true;
                }
                if h {
                    ensure!(got.is_ok() == (open && good && right(d)), if good && right(d) { "process_justification:rejected" } else { "process_justification:accepted" }, "{d},{about} at {j}: {got:?} view {v:?}");
                    ensure!(before.is_none_or(|b| b == *n), "process_justification:rejected justification changes the node");
                }
            }
        }
        let n = g[j].as_mut().unwrap();
        if h && j < nn {
            let (q, want) = (PedD::qual(n), quals(&views, j));
            ensure!(q == want, "qual:not as the rules say", "node {j} after {msg:?}: {q:?} instead of {want:?}");
            ensure!(n.threshold_certified() == (q.len() >= s.to), "threshold_certified:wrong", "{} of {} after {msg:?}", q.len(), s.to);
            ensure!(n.certified() == (0..no).all(|d| q.contains(&d) && views[j][d].resp.len() == nn), "certified:wrong", "after {msg:?}");
            ensure_eq!(n.qualified_shares(), good_holders(&views[j], nn), "qualified_shares:wrong");
        }
        if accepted {
            pending.extend(later[j].drain(..).map(|m| (j, m)));
            if p.dup > 0 && step % (p.dup as usize + 1) == 0 && h {
                let before = n.clone();
                let again = match msg {
                    Msg::Deal(d) => PedD::p_deal(n, &deals[d][&j]).map(|_| ()),
                    Msg::Resp(d, f) => PedD::p_resp(n, &PedD::mk_resp(d as u32, &resps[&(d, f)])).map(|_| ()),
                    Msg::Just(d, a) => PedD::p_just(n, &PedD::mk_just(d as u32, &justs[&(d, a)].0)),
                };
                ensure!(again.is_err(), "duplicate:accepted", "{msg:?} at {j}");
                ensure!(before == *n, "duplicate:changes the node", "{msg:?} at {j}");
            }
        }
    }
    let clean = p.dealers.iter().all(|f| *f == OFault::None) && p.holders.iter().all(|f| *f == RFault::None);
    for (k, d) in leaving.iter().enumerate() {
        let Some(n) = g[nn + k].as_mut().filter(|_| honest[nn + k]) else { continue };
        let q = PedD::qual(n);
        if clean {
            ensure_eq!(q, (0..no).collect::<Vec<_>>(), "qual:leaving node");
            ensure!(n.certified() && n.threshold_certified(), "certified:leaving node");
        }
        for x in &q {
            let v = &views[nn + k][*x];
            ensure!(v.resp.values().all(|r| *r) && v.resp.len() >= tn, "qual:leaving node qualifies a dealer without approvals", "node {d}, dealer {x}: {v:?}");
        }
        for i in 0..no as u32 + 2 {
            ensure!(n.is_in_qual(i) == q.contains(&(i as usize)), "is_in_qual:leaving node", "dealer {i}, qualified {q:?}");
        }
        n.set_timeout();
        ensure!(nopanic("dist_key_share", || PedD::key(n))?.is_err(), "dist_key_share:leaving node gets a share");
    }
    let mut q0: Option<Vec<usize>> = None;
    let mut shares = vec![None; nn];
    for j in 0..nn {
        let Some(n) = g[j].as_mut().filter(|_| honest[j]) else { continue };
        if clean {
            ensure!(n.certified(), "certified:not before the timeout although everything was approved");
        }
        n.set_timeout();
        views[j].iter_mut().for_each(|v| v.timeout = true);
        let q = PedD::qual(n);
        let want = quals(&views, j);
        ensure!(q == want, "qual:not as the rules say", "node {j} after the timeout: {q:?} instead of {want:?}");
        if let Some(q0) = &q0 {
            ensure!(q == *q0, "agreement:honest nodes disagree on the qualified dealers", "{q0:?}, {j}: {q:?}");
        }
        q0 = Some(q.clone());
        for d in &q {
            ensure!(right(*d), "qual:dealer of another secret qualified", "{d}");
        }
        for i in 0..no as u32 + 2 {
            ensure!(n.is_in_qual(i) == q.contains(&(i as usize)), "is_in_qual:wrong");
        }
        ensure!(n.threshold_certified() == (q.len() >= s.to), "threshold_certified:wrong", "{} of {}", q.len(), s.to);
        ensure!(n.certified() == (0..no).all(|d| q.contains(&d) && views[j][d].resp.len() == nn), "certified:wrong");
        ensure_eq!(n.qualified_shares(), good_holders(&views[j], nn), "qualified_shares:wrong");
        let have = q.iter().all(|d| views[j][*d].valid);
        let k = nopanic("dist_key_share", || n.dist_key_share())?;
        if q.len() < s.to {
            ensure!(k.is_err(), "dist_key_share:key without a threshold of qualified dealers");
            labels.push("not certified");
        } else if !have {
            ensure!(k.is_err(), "dist_key_share:key without a qualified dealer's deal");
            labels.push("node lacks a deal");
        } else {
            shares[j] = Some(match k {
                Ok(k) => k,
                Err(e) => return fail("dist_key_share:error", format!("node {j}: {e:?}, qualified {q:?}")),
            });
        }
    }
    let fin: Vec<&PShare> = shares.iter().flatten().collect();
    for k in &fin {
        ensure!(penc(&k.public()) == penc(&s.commits[0]), "resharing:public key changed");
        ensure!(k.commits.len() == tn, "resharing:number of commitments", "{} for threshold {tn}", k.commits.len());
        ensure!(k.commits.iter().map(penc).eq(fin[0].commits.iter().map(penc)), "resharing:nodes disagree on the commitments");
        ensure!(penc(&base_mul(&k.share.v)) == penc(&eval_commits(&k.commits, k.share.i)), "resharing:share not on the committed polynomial");
    }
    for (j, k) in shares.iter().enumerate() {
        ensure!(k.as_ref().is_none_or(|k| k.share.i == j), "resharing:share index");
    }
    Ok(Outcome { shares, q: q0.unwrap_or_default(), labels })
}
/// any threshold of the new shares gives the secret
fn secret_of(shares: &[Option<PShare>], t: usize, pick: &[u16]) -> Result<Option<BigUint>, Fail> {
    let have: Vec<PriShare<Scalar>> = shares.iter().flatten().map(|s| s.share.clone()).collect();
    if have.len() < t {
        return Ok(None);
    }
    let sub: Vec<_> = perm(pick, have.len()).into_iter().take(t).map(|i| Some(have[i].clone())).collect();
    Ok(Some(big(&okr("recover_secret", kyber_rs::share::poly::recover_secret(suite(), &sub, t, shares.len()))?)))
}
fn make_shares(co: &[BigUint], n: usize) -> (Vec<Point>, Vec<PShare>) {
    let commits: Vec<Point> = co.iter().map(|c| base_mul(&scb(c))).collect();
    let shares = (0..n)
        .map(|i| PShare { commits: commits.clone(), share: PriShare { i, v: scb(&rm::poly_eval(co, &x_of(i))) }, private_poly: vec![] })
        .collect();
    (commits, shares)
}
fn poly_of(seed: u64, tag: u32, t: usize) -> Vec<BigUint> {
    (0..t as u32).map(|k| big(&key_of(seed, tag + k))).collect()
}
fn resharing(c: &Resh) -> Res {
    det::reseed64(c.seed);
    let (old, new) = committees(c.seed, c.no, c.nn, c.overlap, &c.keys, 0);
    let co = poly_of(c.seed, 5000, c.to);
    let (commits, shares) = make_shares(&co, c.no);
    let s = Setup { old, new, to: c.to, tn: c.tn, commits, shares };
    let r = reshare(&s, &Plan { dealers: &c.dealers, holders: &c.holders, order: &c.order, dup: c.dup, early: c.early })?;
    let tn = if c.tn == 0 { (c.nn + 1) / 2 } else { c.tn };
    let sec = secret_of(&r.shares, tn, &c.keys)?;
    if let Some(x) = &sec {
        ensure!(*x == co[0], "resharing:new shares reconstruct another secret");
    }
    let done = r.shares.iter().flatten().count();
    if c.dealers.iter().all(|f| *f == OFault::None) && c.holders.iter().all(|f| *f == RFault::None) {
        ensure!(done == c.nn, "resharing:honest committee does not finish");
    }
    let mut o = Obs::nt(done > 0 || r.q.len() < c.no)
        .label_if(sec.is_some(), "reconstructed")
        .label_if(c.overlap == 0, "disjoint committees")
        .label_if(c.overlap > 0 && c.overlap < c.no, "some nodes leave")
        .label_if(c.overlap == c.no && c.no == c.nn, "same nodes")
        .label_if(tn != c.to, "other threshold")
        .label_if(done > 0 && r.q.len() < c.no, "finished with some dealers excluded");
    for l in r.labels.iter().collect::<std::collections::BTreeSet<_>>() {
        o.labels.push(l.to_string());
    }
    Ok(o)
}
// several honest resharings (and renewals) in a row, starting from a real key generation
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Chain {
    seed: u64,
    n: usize,
    t: usize,
    next: Vec<(usize, usize, u16, bool)>,
    keys: Vec<u16>,
    order: Vec<u16>,
}
fn zero_sharing(seed: u64, tag: u32, t: usize, n: usize) -> Vec<PShare> {
    let mut z = poly_of(seed, tag, t);
    z[0] = BigUint::default();
    make_shares(&z, n).1
}
fn chain(c: &Chain) -> Res {
    let faults = vec![Fault { d: DFault::None, r: RFault::None, own: None }; c.n];
    let sim = Sim { seed: c.seed, n: c.n, t: c.t, faults, order: c.order.clone(), dup: 0, early: 0, commit: vec![CFault::None; c.n], pick: c.keys.clone() };
    let r = sharing::<PedD>(&sim)?;
    let mut keys: Vec<Scalar> = r.com.keys.clone();
    let mut shares: Vec<PShare> = vec![];
    for g in &r.g {
        shares.push(okr("dist_key_share", g.dist_key_share())?);
    }
    let secret = sum_poly(&r, &(0..c.n).collect::<Vec<_>>())[0].clone();
    let public = penc(&shares[0].public());
    ensure!(penc(&base_mul(&scb(&secret))) == public, "key:public key is not that of the summed secrets");
    let mut t = c.t;
    for (gen, (nn, tn, ov, renew)) in c.next.iter().enumerate() {
        if *renew {
            let z = zero_sharing(c.seed, 7000 + 100 * gen as u32, t, keys.len());
            for (s, z) in shares.iter_mut().zip(z) {
                *s = okr("renew", s.renew(suite(), z))?;
            }
        }
        let overlap = *ov as usize % (keys.len().min(*nn) + 1);
        let new = next_committee(c.seed, &keys, *nn, overlap, &c.keys, gen as u32 + 1);
        let s = Setup { old: keys.clone(), new: new.clone(), to: t, tn: *tn, commits: shares[0].commits.clone(), shares: shares.clone() };
        let p = Plan { dealers: &vec![OFault::None; keys.len()], holders: &vec![RFault::None; *nn], order: &c.order, dup: 0, early: 0 };
        let out = reshare(&s, &p)?;
        ensure!(out.shares.iter().all(|s| s.is_some()), "resharing:honest committee does not finish");
        ensure!(secret_of(&out.shares, *tn, &c.keys)? == Some(secret.clone()), "resharing:new shares reconstruct another secret");
        shares = out.shares.into_iter().flatten().collect();
        ensure!(shares.iter().all(|s| penc(&s.public()) == public), "resharing:public key changed");
        keys = new;
        t = *tn;
    }
    Ok(Obs::nt(true).label(format!("{} resharings", c.next.len())).label_if(c.next.iter().any(|n| n.3), "renewed"))
}
fn chain_strat() -> impl Strategy<Value = Chain> {
    (any::<u64>(), nt(4), prop::collection::vec((nt(4), any::<u16>(), any::<bool>()), 1..=3), prop::collection::vec(any::<u16>(), 8), prop::collection::vec(any::<u16>(), 0..40)).prop_map(
        |(seed, (n, t), next, keys, order)| Chain { seed, n, t, next: next.into_iter().map(|((a, b), c, d)| (a, b, c, d)).collect(), keys, order },
    )
}
// configurations that cannot work
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cfg {
    seed: u64,
    n: usize,
    t: usize,
    kind: u8,
    k: u16,
}
fn config(c: &Cfg) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, true);
    let k = c.k as usize % c.n;
    let (commits, shares) = make_shares(&poly_of(c.seed, 5000, c.t), c.n);
    let new: Vec<Point> = (0..c.n as u32).map(|i| base_mul(&key_of(c.seed, 300 + i))).collect();
    let mut cfg = pd::Config {
        suite: suite(),
        longterm: com.keys[k].clone(),
        old_nodes: com.pubs.clone(),
        public_coeffs: None,
        new_nodes: new,
        share: Some(shares[k].clone()),
        threshold: c.t,
        old_threshold: c.t,
        reader: Some(DetReader),
        user_reader_only: true,
    };
    let fresh = fresh_config(&com.keys[k], &com.pubs, c.t);
    let what = match c.kind % 10 {
        0 => {
            cfg.old_threshold = 0;
            "resharing without an old threshold"
        }
        1 => {
            cfg.old_nodes = vec![];
            cfg.new_nodes = com.pubs.clone();
            "resharing without old nodes"
        }
        2 => {
            cfg.longterm = com.outsider(1);
            "resharing by an outsider"
        }
        3 => {
            cfg = fresh;
            cfg.longterm = com.outsider(1);
            "fresh generation by an outsider"
        }
        4 => {
            cfg = fresh;
            cfg.new_nodes = vec![];
            "no nodes"
        }
        5 => {
            cfg = fresh;
            cfg.threshold = c.n + 1 + c.k as usize;
            "threshold above the number of nodes"
        }
        6 => {
            cfg = fresh;
            cfg.threshold = 1;
            "threshold of one"
        }
        7 => {
            cfg = fresh;
            let l = cfg.new_nodes.len();
            cfg.new_nodes[(k + 1) % l] = cfg.new_nodes[k].clone();
            "a node listed twice"
        }
        8 => {
            cfg.threshold = cfg.new_nodes.len() + 1;
            "resharing with a threshold above the number of nodes"
        }
        _ => {
            cfg.longterm = key_of(c.seed, 300);
            cfg.share = None;
            cfg.public_coeffs = Some(commits);
            let l = cfg.old_nodes.len();
            cfg.old_nodes[(k + 1) % l] = cfg.old_nodes[k].clone();
            "an old node listed twice"
        }
    };
    let r = nopanic("new_dist_key_handler", || pd::new_dist_key_handler(cfg))?;
    ensure!(r.is_err(), "new_dist_key_handler:impossible configuration accepted", "{what}");
    Ok(Obs::nt(true).label(what))
}

// ------------------------------------------------------------------ renewal (C24)
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Renew {
    seed: u64,
    n: usize,
    t: usize,
    secret: B32,
    rounds: u8,
    bad: u8,
    amount: B32,
    pick: Vec<u16>,
    at: u16,
}
fn renew(c: &Renew) -> Res {
    let mut co = poly_of(c.seed, 5000, c.t);
    co[0] = c.secret.modl();
    let (commits, mut shares) = make_shares(&co, c.n);
    let public = penc(&commits[0]);
    let at = c.at as usize % c.n;
    let mut cur = co.clone();
    for round in 0..c.rounds {
        let mut z = poly_of(c.seed, 6000 + 50 * round as u32, c.t);
        z[0] = BigUint::default();
        if round == 1 && c.bad & 1 == 1 {
            // a sharing of zero whose other coefficients vanish too
            z = vec![BigUint::default(); c.t];
        }
        let zs = make_shares(&z, c.n).1;
        // a mismatching renewal first
        let mut g = zs[at].clone();
        let what = match c.bad % 7 {
            6 => {
                // a sharing of zero whose constant commitment is moved by a point of small order
                let t = rm::c().torsion[1 + c.pick[0] as usize % 7].encode();
                let mut q = Point::default();
                okr("torsion point", kyber_rs::encoding::BinaryUnmarshaler::unmarshal_binary(&mut q, &t))?;
                g.commits[0] = suite().point().add(&g.commits[0], &q);
                "a constant commitment of small order"
            }
            0 => {
                let mut w = z.clone();
                w[0] = c.amount.modl();
                g = make_shares(&w, c.n).1[at].clone();
                "a sharing of a non-zero secret"
            }
            1 => {
                g.share.i = (at + 1) % c.n;
                "another share index"
            }
            2 => {
                g.commits.push(commits[0].clone());
                "a longer sharing"
            }
            3 => {
                g.commits.truncate(c.t - 1);
                "a shorter sharing"
            }
            4 => {
                g.commits.clear();
                "no commitments"
            }
            _ => {
                g = zs[(at + 1) % c.n].clone();
                "another participant's share"
            }
        };
        let before = shares[at].clone();
        let r = nopanic("renew", || shares[at].renew(suite(), g))?;
        ensure!(r.is_err(), "renew:mismatching renewal accepted", "{what}");
        ensure!(shares[at] == before, "renew:mismatching renewal changes the share");
        for k in 0..c.t {
            cur[k] = rm::modl(&(&cur[k] + &z[k]));
        }
        for i in 0..c.n {
            let old = shares[i].clone();
            let new = okr("renew", nopanic("renew", || shares[i].renew(suite(), zs[i].clone()))?)?;
            ensure!(old == shares[i], "renew:changes the old share");
            ensure!(penc(&new.public()) == public, "renew:public key changed");
            ensure!(new.share.i == i, "renew:share index");
            ensure!(big(&new.share.v) == rm::poly_eval(&cur, &x_of(i)), "renew:share is not the sum of the shares");
            ensure!(new.commits.iter().map(penc).eq(cur.iter().map(|x| penc(&base_mul(&scb(x))))), "renew:commitments are not the sum of the commitments");
            if z.iter().any(|x| *x != BigUint::default()) && rm::poly_eval(&z, &x_of(i)) != BigUint::default() {
                ensure!(new.share.v != old.share.v, "renew:share unchanged");
            }
            shares[i] = new;
        }
        let all: Vec<Option<PShare>> = shares.iter().cloned().map(Some).collect();
        ensure!(secret_of(&all, c.t, &c.pick)? == Some(co[0].clone()), "renew:renewed shares reconstruct another secret");
        // shares of different epochs do not mix
        if c.t >= 2 && z.iter().any(|x| *x != BigUint::default()) {
            let mut mixed = all.clone();
            let k = perm(&c.pick, c.n)[0];
            mixed[k].as_mut().unwrap().share.v = scb(&rm::subl(&big(&shares[k].share.v), &rm::poly_eval(&z, &x_of(k))));
            if rm::poly_eval(&z, &x_of(k)) != BigUint::default() {
                ensure!(secret_of(&mixed, c.t, &c.pick)? != Some(co[0].clone()), "renew:old share still counts");
            }
        }
    }
    Ok(Obs::nt(c.rounds > 0).label(format!("{} rounds", c.rounds)))
}

fn c21() -> Prop {
    Prop {
        id: "C21",
        laws: vec![
            law("faulty-dealing", 500, 40_000, "messages were delivered to live nodes", || sim(6, 0.35), pedersen),
        ],
        assumptions: vec!["broadcast messages reach every honest node, in any order"],
    }
}

fn c22() -> Prop {
    Prop {
        id: "C22",
        laws: vec![
            law("faulty-dealing", 400, 40_000, "messages were delivered to live nodes", || sim(6, 0.25), rabin),
            law("commitments", 400, 40_000, "messages were delivered to live nodes", || sim(6, 0.03), rabin),
            law(
                "omitted-deal",
                60,
                4_000,
                "a dealer dealt to some nodes only",
                || (any::<u64>(), nt(5), any::<u8>()).prop_map(|(seed, (n, t), mask)| Omitted { seed, n, t, mask }),
                omitted
            ),
        ],
        assumptions: vec!["broadcast messages reach every honest node, in any order; a dealer deals to all nodes or to none"],
    }
}

fn c23() -> Prop {
    Prop {
        id: "C23",
        laws: vec![
            law("honest-resharing", 160, 20_000, "a new node finished", || resh(6, 1), resharing),
            law("faulty-resharing", 400, 40_000, "a new node finished or a dealer was excluded", || resh(6, 25), resharing),
            law("chain", 60, 8_000, "every case: key generation and one to three resharings", chain_strat, chain),
            law(
                "configuration",
                200,
                20_000,
                "every case: an impossible configuration",
                || (any::<u64>(), nt(7), any::<u8>(), any::<u16>()).prop_map(|(seed, (n, t), kind, k)| Cfg { seed, n, t, kind, k }),
                config
            ),
        ],
        assumptions: vec!["broadcast messages reach every honest node, in any order"],
    }
}
fn c24() -> Prop {
    Prop {
        id: "C24",
        laws: vec![law(
            "renewal",
            700,
            100_000,
            "at least one renewal",
            || {
                (any::<u64>(), nt(10), prop_oneof![3 => key32(), 1 => red_scalar()], 1u8..4, any::<u8>(), key32(), prop::collection::vec(any::<u16>(), 10), any::<u16>())
                    .prop_map(|(seed, (n, t), secret, rounds, bad, amount, pick, at)| Renew { seed, n, t, secret, rounds, bad, amount, pick, at })
            },
            renew
        )],
        assumptions: vec![],
    }
}

fn main() {
    kv::cli::main(&[("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24)]);
}
