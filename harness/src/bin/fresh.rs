//! C30: secrets, nonces and ephemeral keys are fresh and come from the configured source
use kv::det;
use kv::dkgx::*;
use kv::fw::*;
use kv::gen::*;
use kv::net;
use kv::net::{Net, Phase, Proto, Scen};
use kv::refmath as rm;
use kv::refmath::Pt;
use kv::vssx::*;
use kv::{ensure, ensure_eq};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Point, Scalar, SuiteEd25519};
use kyber_rs::share::dkg::pedersen as pd;
use kyber_rs::share::dkg::rabin as rd;
use kyber_rs::sign::{eddsa::EdDSA, schnorr};
use kyber_rs::util::key::new_key_pair;
use kyber_rs::{Group, Point as _, Random as _, Scalar as _};
use num_bigint_dig::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

fn big(s: &Scalar) -> BigUint {
    rm::modl(&rm::lebytes(&s.v))
}
fn real() -> SuiteEd25519 {
    SuiteEd25519::new_blake3_sha256_ed25519()
}

/// secret values that must look independent: no repeats, no small values, no small differences
#[derive(Default)]
struct Seen(Vec<(String, BigUint)>);
impl Seen {
    fn near_zero(x: &BigUint) -> bool {
        x.bits() <= 96 || (rm::l() - x).bits() <= 96
    }
    /// a value the others have to differ from
    fn avoid(&mut self, what: &str, x: &BigUint) {
        self.0.push((what.into(), rm::modl(x)));
    }
    fn fresh(&mut self, what: String, x: &BigUint) -> Result<(), Fail> {
        let x = rm::modl(x);
        ensure!(!Seen::near_zero(&x), "fresh:predictable value", "{what} is small");
        for (o, y) in &self.0 {
            if Seen::near_zero(&rm::subl(&x, y)) || Seen::near_zero(&rm::modl(&(&x + y))) {
                return fail("fresh:repeated value", format!("{what} is {o}, its opposite, or close to either"));
            }
        }
        self.0.push((what, x));
        Ok(())
    }
}
/// public images of ephemeral secrets
#[derive(Default)]
struct Pubs(BTreeMap<Vec<u8>, String>);
impl Pubs {
    fn with_small() -> Pubs {
        let mut p = Pubs::default();
        let c = rm::c();
        let mut x = Pt::id();
        for i in 0..33 {
            p.0.insert(x.encode().to_vec(), format!("{i} times the base"));
            p.0.insert(x.neg().encode().to_vec(), format!("-{i} times the base"));
            x = x.add(&c.b);
        }
        p
    }
    fn avoid(&mut self, what: &str, b: &[u8]) {
        self.0.insert(b.to_vec(), what.into());
    }
    fn fresh(&mut self, what: String, b: &[u8]) -> Result<(), Fail> {
        if let Some(o) = self.0.insert(b.to_vec(), what.clone()) {
            return fail("fresh:repeated key", format!("{what} is {o}"));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ dealings
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fresh {
    seed: u64,
    n: usize,
    t: usize,
    secret: B32,
}
fn fresh_strat() -> impl Strategy<Value = Fresh> {
    (any::<u64>(), nt(2, 9), prop_oneof![3 => key32(), 1 => any_scalar()]).prop_map(|(seed, (n, t), secret)| Fresh { seed, n, t, secret })
}
fn nt(min: usize, max: usize) -> impl Strategy<Value = (usize, usize)> {
    (min..=max).prop_flat_map(|n| (Just(n), 2..=n.max(2)))
}
/// the polynomials and ephemeral keys of one dealing
fn dealing<V: Vss>(tag: &str, d: &mut V::Dealer, n: usize, t: usize, secret: &BigUint, seen: &mut Seen, pubs: &mut Pubs) -> Result<(), Fail> {
    let mut all = vec![];
    for i in 0..n {
        all.push(V::mdeal(okr("plaintext_deal", V::plain(d, i))?));
    }
    let poly = |f: &dyn Fn(&MDeal) -> BigUint| -> Result<Vec<BigUint>, Fail> {
        let pts: Vec<_> = (0..n as u64).map(|i| BigUint::from(i + 1)).zip(all.iter().map(f)).collect();
        let mut co = rm::interpolate(&pts);
        co.resize(n, BigUint::default());
        ensure!(co[t..].iter().all(|x| *x == BigUint::default()), "dealing:degree above the threshold");
        co.truncate(t);
        Ok(co)
    };
    let f = poly(&|m| big(&m.sec_share.v))?;
    ensure!(f[0] == *secret, "dealing:another secret");
    for (i, x) in f.iter().enumerate().skip(1) {
        seen.fresh(format!("coefficient {i} of {tag}"), x)?;
    }
    if V::RABIN {
        let g = poly(&|m| big(&m.rnd_share.as_ref().expect("second share").v))?;
        for (i, x) in g.iter().enumerate() {
            seen.fresh(format!("blinding coefficient {i} of {tag}"), x)?;
        }
    }
    let mut encs = okr("encrypted_deals", V::encrypt_all(d))?;
    for i in 0..n {
        encs.push(okr("encrypted_deal", V::encrypt(d, i))?);
    }
    for (i, e) in encs.iter().enumerate() {
        let e = V::menc(e);
        pubs.fresh(format!("ephemeral key {i} of {tag}"), &penc(&e.dhkey))?;
        pubs.fresh(format!("nonce of deal {i} of {tag}"), &e.signature[..32])?;
    }
    Ok(())
}
fn dealings<V: Vss>(c: &Fresh) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, true);
    let (mut seen, mut pubs) = (Seen::default(), Pubs::with_small());
    for (i, p) in com.pubs.iter().enumerate() {
        pubs.avoid("a long-term key", &penc(p));
        seen.avoid("a long-term key", &big(&com.keys[i]));
    }
    seen.avoid("the secret", &c.secret.modl());
    let mut sids = vec![];
    for round in 0..2 {
        let mut d = okr("new_dealer", V::dealer(&com.dlong, &sc(&c.secret), &com.pubs, c.t))?;
        ensure!(!sids.contains(&V::d_sid(&d)), "dealing:two dealings share a session");
        sids.push(V::d_sid(&d));
        dealing::<V>(&format!("dealing {round}"), &mut d, c.n, c.t, &c.secret.modl(), &mut seen, &mut pubs)?;
    }
    Ok(Obs::nt(true).label_if(c.t == c.n, "t = n"))
}
// ------------------------------------------------------------------ key generations
/// several generators, also for the same node
fn generations(c: &Fresh) -> Res {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, true);
    let (mut seen, mut pubs) = (Seen::default(), Pubs::with_small());
    for (i, p) in com.pubs.iter().enumerate() {
        pubs.avoid("a long-term key", &penc(p));
        seen.avoid("a long-term key", &big(&com.keys[i]));
    }
    for round in 0..3usize {
        let k = &com.keys[round / 2 % c.n];
        let g = okr("new_dist_key_generator", rd::new_dist_key_generator(&suite(), k, &com.pubs, c.t))?;
        let mut d = g.dealer.clone();
        seen.fresh(format!("contribution {round} (Rabin)"), &big(&d.secret))?;
        let s = big(&d.secret);
        dealing::<Rab>(&format!("Rabin generation {round}"), &mut d, c.n, c.t, &s, &mut seen, &mut pubs)?;
        let g = okr("new_dist_key_generator", pd::new_dist_key_generator::<_, det::DetReader>(suite(), k.clone(), &com.pubs, c.t))?;
        let mut d = g.dealer.clone();
        seen.fresh(format!("contribution {round} (Pedersen)"), &big(&d.secret))?;
        let s = big(&d.secret);
        dealing::<Ped>(&format!("Pedersen generation {round}"), &mut d, c.n, c.t, &s, &mut seen, &mut pubs)?;
    }
    // resharing: the contribution is the old share, everything else is new
    let shares = net::old_shares(c.seed, c.n, c.t);
    for round in 0..2usize {
        let cfg = pd::Config {
            share: Some(shares[0].clone()),
            old_nodes: com.pubs.clone(),
            old_threshold: c.t,
            ..fresh_config(&com.keys[0], &com.pubs, c.t)
        };
        let g = okr("new_dist_key_handler", pd::new_dist_key_handler(cfg))?;
        if round == 0 {
            seen.avoid("an old share", &big(&shares[0].share.v));
        }
        dealing::<Ped>(&format!("resharing {round}"), &mut g.dealer.clone(), c.n, c.t, &big(&shares[0].share.v), &mut seen, &mut pubs)?;
    }
    Ok(Obs::nt(true))
}

// ------------------------------------------------------------------ entropy of a dealer's contribution
#[derive(Clone)]
struct CountedReader {
    seed: u64,
    limit: usize,
    pos: std::rc::Rc<std::cell::Cell<usize>>,
}
impl std::io::Read for CountedReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.limit.saturating_sub(self.pos.get()));
        let mut x = blake3::Hasher::new().update(&self.seed.to_le_bytes()).finalize_xof();
        x.set_position(self.pos.get() as u64);
        x.fill(&mut b[..n]);
        self.pos.set(self.pos.get() + n);
        Ok(n)
    }
}
fn counted(seed: u64, limit: usize) -> CountedReader {
    CountedReader { seed, limit, pos: Default::default() }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Entropy {
    seed: u64,
    n: usize,
    t: usize,
    k: u16,
    rd: u64,
    other: u64,
    short: u8,
    mode: u8,
}
/// the secret a node deals, for a configuration with this reader
fn dealt_secret(c: &Entropy, r: Option<CountedReader>, only: bool) -> Result<Scalar, Fail> {
    det::reseed64(c.seed);
    let com = Com::new(c.seed, c.n, true);
    let k = c.k as usize % c.n;
    let cfg = pd::Config {
        suite: suite(),
        longterm: com.keys[k].clone(),
        old_nodes: vec![],
        public_coeffs: None,
        new_nodes: com.pubs.clone(),
        share: None,
        threshold: c.t,
        old_threshold: 0,
        reader: r,
        user_reader_only: only,
    };
    let g = okr("new_dist_key_handler", pd::new_dist_key_handler(cfg))?;
    ensure!(g.dealer.commits()[0] == base_mul(&g.dealer.secret), "entropy:commits to another secret");
    Ok(g.dealer.secret)
}
fn entropy(c: &Entropy) -> Res {
    use kyber_rs::util::random::RandStream;
    use kyber_rs::Scalar as _;
    let alone = |seed: u64| suite().scalar().pick(&mut RandStream::new(vec![Box::new(counted(seed, usize::MAX))]));
    let exact = alone(c.rd);
    let fresh = |what: &str, a: &Scalar, b: &Scalar| -> Result<(), Fail> {
        ensure!(a != b, format!("entropy:{what}: the same secret twice"));
        ensure!(*a != exact && *b != exact, format!("entropy:{what}: system randomness ignored"));
        Ok(())
    };
    let short = c.short as usize % 32;
    let label = match c.mode % 5 {
        0 => {
            ensure!(dealt_secret(c, Some(counted(c.rd, usize::MAX)), true)? == exact, "entropy:exclusive reader: not the reader's secret");
            if c.rd != c.other {
                ensure!(dealt_secret(c, Some(counted(c.other, usize::MAX)), true)? != exact, "entropy:exclusive reader: reader ignored");
            }
            "exclusive"
        }
        1 => {
            let (a, b) = (counted(c.rd, usize::MAX), counted(c.rd, usize::MAX));
            let (x, y) = (dealt_secret(c, Some(a.clone()), false)?, dealt_secret(c, Some(b.clone()), false)?);
            fresh("mixed", &x, &y)?;
            ensure!(a.pos.get() >= 32 && b.pos.get() >= 32, "entropy:mixed: reader not consulted");
            "mixed"
        }
        2 => {
            let (x, y) = (dealt_secret(c, None, false)?, dealt_secret(c, None, false)?);
            fresh("none", &x, &y)?;
            "system"
        }
        3 => {
            // nothing but a reader that is too short: no secret at all
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dealt_secret(c, Some(counted(c.rd, short)), true).is_ok()));
            ensure!(!matches!(r, Ok(true)), "entropy:dealt without any source");
            "exhausted"
        }
        _ => {
            let (x, y) = (dealt_secret(c, Some(counted(c.rd, short)), false)?, dealt_secret(c, Some(counted(c.rd, short)), false)?);
            fresh("mixed with a short reader", &x, &y)?;
            "short and mixed"
        }
    };
    Ok(Obs::nt(true).label(label))
}


// ------------------------------------------------------------------ whole protocol runs
fn signatures(v: &Value, out: &mut Vec<(String, Vec<u8>)>) {
    let bytes = |a: &Value| -> Option<Vec<u8>> { a.as_array()?.iter().map(|x| x.as_u64().map(|x| x as u8)).collect() };
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                match (k.as_str(), bytes(x)) {
                    ("signature", Some(b)) if b.len() == 64 => out.push(("nonce".into(), b)),
                    _ => signatures(x, out),
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|x| signatures(x, out)),
        _ => {}
    }
}
fn transcript(s: &Scen) -> Res {
    fn go<D: Dkg>(s: &Scen, mut net: Net<D>) -> Res {
        net::run::<D>(s, &mut net, &mut |_, _, _, _| Ok(()))?;
        let mut pubs = Pubs::with_small();
        for k in &net.keys {
            pubs.avoid("a long-term key", &penc(&base_mul(k)));
        }
        let mut whole: Vec<Vec<u8>> = vec![];
        let mut names = BTreeMap::new();
        for (j, w) in net.seen.iter().enumerate() {
            let mut l = vec![];
            signatures(&w.value(), &mut l);
            *names.entry(w.name()).or_insert(0) += l.len();
            for (_, b) in l {
                // a message may be passed on, a nonce may not serve two messages
                if whole.contains(&b) {
                    continue;
                }
                pubs.fresh(format!("nonce of message {j} ({})", w.name()), &b[..32])?;
                whole.push(b);
            }
        }
        let mut o = Obs::nt(whole.len() > 2);
        for (n, k) in names {
            o = o.label_if(k > 0, n);
        }
        Ok(o)
    }
    match s.proto {
        Proto::Pedersen => go(s, net::fresh::<PedD>(s)?),
        Proto::Rabin => go(s, net::fresh::<RabD>(s)?),
        Proto::Reshare { .. } => go(s, net::resharing(s)?),
    }
}
/// `f` on a stream that dies at one of its calls: it must not succeed
fn starve<T>(what: &str, pick: u16, mut f: impl FnMut() -> Option<T>) -> Result<bool, Fail> {
    det::reseed64(pick as u64);
    det::fail_from(usize::MAX);
    let ok = catch(&mut f);
    let calls = det::fail_from(usize::MAX);
    if !matches!(ok, Ok(Some(_))) || calls == 0 {
        return Ok(false);
    }
    let k = pick as usize % calls;
    det::reseed64(pick as u64);
    det::fail_from(k);
    let r = catch(&mut f);
    det::fail_from(usize::MAX);
    ensure!(!matches!(r, Ok(Some(_))), format!("starved:{what} succeeds"), "the random stream failed at call {k} of {calls}");
    Ok(true)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Starved {
    s: Scen,
    picks: Vec<u16>,
    msg: Bs,
}
fn starved(c: &Starved) -> Res {
    fn go<D: Dkg>(c: &Starved, mut net: Net<D>) -> Res {
        let mut i = 0usize;
        let mut hit = vec![];
        let mut pick = || {
            i += 1;
            c.picks[i % c.picks.len()].wrapping_mul(i as u16)
        };
        // the parts of a key generation
        let s = &c.s;
        let long = net.keys[0].clone();
        let pubs: Vec<Point> = net.keys.iter().map(base_mul).collect();
        let p = pick();
        if starve("new_dist_key_generator", p, || D::new(&long, &pubs, 2.max(s.t.min(pubs.len()))).ok())? {
            hit.push("generator");
        }
        for j in 0..net.g.len() {
            let p = pick();
            if starve("deals", p, || D::deals(&mut net.g[j].clone()).ok())? {
                hit.push("deals");
            }
        }
        let secret = key_of(s.seed, 1);
        let p = pick();
        if starve("new_dealer", p, || D::V::dealer(&long, &secret, &pubs, 2.max(s.t.min(pubs.len()))).ok())? {
            hit.push("dealer");
        }
        let d = D::dealer_of(&net.g[0]);
        let p = pick();
        if starve("encrypted_deal", p, || D::V::encrypt(&d, 0).ok())? {
            hit.push("encrypted deal");
        }
        let p = pick();
        if starve("schnorr.sign", p, || schnorr::sign(&suite(), &long, &c.msg.0).ok())? {
            hit.push("schnorr");
        }
        let p = pick();
        if starve("new_key_pair", p, || new_key_pair(&suite()).ok())? {
            hit.push("key pair");
        }
        // every message of a run
        net::run::<D>(s, &mut net, &mut |net, j, w, ph| {
            if let (Phase::Deliver, Some(w)) = (&ph, w) {
                let g = net.g[j].clone();
                let p = pick();
                if p % 3 == 0 && starve(w.name(), p, || net::deliver::<D>(&mut g.clone(), w).ok())? {
                    hit.push(w.name());
                }
            }
            if let Phase::Shared = ph {
                let g = net.g[0].clone();
                let p = pick();
                if starve("secret_commits", p, || D::secret_commits(&mut g.clone()).ok())? {
                    hit.push("commitments");
                }
            }
            Ok(())
        })?;
        hit.sort();
        hit.dedup();
        let mut o = Obs::nt(!hit.is_empty());
        for h in hit {
            o = o.label(h);
        }
        Ok(o)
    }
    match c.s.proto {
        Proto::Pedersen => go(c, net::fresh::<PedD>(&c.s)?),
        Proto::Rabin => go(c, net::fresh::<RabD>(&c.s)?),
        Proto::Reshare { .. } => go(c, net::resharing(&c.s)?),
    }
}
// ------------------------------------------------------------------ signatures, encryption, keys
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sig {
    seed: u64,
    key: B32,
    msgs: Vec<Bs>,
    real: bool,
}
fn nonces(c: &Sig) -> Res {
    det::reseed64(c.seed);
    let key = sc(&c.key);
    let pk = penc(&base_mul(&key));
    let mut seen = Seen::default();
    seen.avoid("the private key", &c.key.modl());
    // the same messages twice
    for (j, m) in c.msgs.iter().chain(c.msgs.iter()).enumerate() {
        let s = if c.real { okr("sign", schnorr::sign(&real(), &key, &m.0))? } else { sign(&key, &m.0) };
        ensure_eq!(s.len(), 64, "sign:length");
        let h = rm::lebytes(&rm::sha512(&[&s[..32], &pk, &m.0]));
        let k = rm::subl(&rm::lebytes(&s[32..]), &(rm::modl(&h) * c.key.modl()));
        ensure!(Pt::base_mul(&k).encode()[..] == s[..32], "sign:not s = k + hx");
        seen.fresh(format!("nonce of signature {j}"), &k)?;
    }
    Ok(Obs::nt(!c.msgs.is_empty()).label(if c.real { "library suite" } else { "deterministic suite" }))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Keys {
    key: B32,
    msg: Bs,
}
/// with the library's own suite and system randomness
fn keys(c: &Keys) -> Res {
    let g = real();
    let mut seen = Seen::default();
    let mut pubs = Pubs::with_small();
    seen.avoid("the recipient's key", &c.key.modl());
    let public = g.point().mul(&sc(&c.key), None);
    pubs.avoid("the recipient's key", &penc(&public));
    for j in 0..3 {
        let p = okr("new_key_pair", new_key_pair(&g))?;
        seen.fresh(format!("key pair {j}"), &big(&p.private))?;
        let k = g.scalar().pick(&mut g.random_stream());
        seen.fresh(format!("picked scalar {j}"), &big(&k))?;
        let p = penc(&g.point().pick(&mut g.random_stream()));
        pubs.fresh(format!("picked point {j}"), &p)?;
        let p = penc(&g.point().embed(Some(&c.msg.0), &mut g.random_stream()));
        if c.msg.0.len() < 20 {
            pubs.fresh(format!("embedded point {j}"), &p)?;
        }
        let ct = okr("encrypt", ecies::encrypt(g, public, &c.msg.0))?;
        pubs.fresh(format!("ephemeral key {j}"), &ct[..32])?;
        let e = okr("EdDSA::new", EdDSA::new(&mut g.random_stream()))?;
        pubs.fresh(format!("EdDSA key {j}"), &penc(&e.public))?;
        // one stream is not a constant either
        let mut st = g.random_stream();
        for i in 0..2 {
            seen.fresh(format!("scalar {i} of stream {j}"), &big(&g.scalar().pick(&mut st)))?;
        }
    }
    Ok(Obs::nt(!c.msg.0.is_empty()))
}

// ------------------------------------------------------------------ process restarts, exhaustion
/// what one run of a process draws; the runs differ in nothing but system randomness
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Restart {
    key: B32,
    ops: Vec<u8>,
    thread: bool,
}
fn draw(c: &Restart) -> Vec<(String, Vec<u8>)> {
    let g = real();
    // away from keys of the identity
    let key = Scalar { v: rm::sc(&c.key.big()) };
    let key = if Seen::near_zero(&big(&key)) { g.scalar().set_int64(1 << 50) } else { key };
    let public = g.point().mul(&key, None);
    let peers = [public.clone(), g.point().mul(&(key.clone() + g.scalar().one()), None), g.point().mul(&(key.clone() + g.scalar().set_int64(2)), None)];
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        let (what, v) = match o % 10 {
            0 => {
                let mut b = vec![0u8; 32];
                kyber_rs::util::random::bytes(&mut b, &mut kyber_rs::util::random::RandStream::default()).expect("bytes");
                ("RandStream", b)
            }
            1 => ("pick", g.scalar().pick(&mut g.random_stream()).v.to_vec()),
            2 => ("key pair", penc(&new_key_pair(&g).expect("key pair").public)),
            3 => ("schnorr nonce", schnorr::sign(&g, &key, b"m").expect("sign")[..32].to_vec()),
            4 => ("ecies ephemeral key", ecies::encrypt(g, public.clone(), b"m").expect("encrypt")[..32].to_vec()),
            5 => ("EdDSA key", penc(&EdDSA::new(&mut g.random_stream()).expect("key").public)),
            6 => {
                let d = kyber_rs::share::vss::pedersen::vss::new_dealer(g, key.clone(), key.clone(), &peers, 2).expect("dealer");
                ("polynomial (pedersen)", penc(&d.commits()[1]))
            }
            7 => {
                let mut d = kyber_rs::share::vss::rabin::vss::new_dealer(g, key.clone(), key.clone(), &peers, 2).expect("dealer");
                ("polynomial (rabin)", serde_json::to_vec(&*d.plaintext_deal(0).expect("deal")).expect("json"))
            }
            8 => {
                let mut n = pd::new_dist_key_generator::<_, det::DetReader>(g, key.clone(), &peers, 2).expect("generator");
                ("contribution (pedersen)", serde_json::to_vec(&n.deals().expect("deals").into_values().next()).expect("json"))
            }
            _ => ("embedded point", penc(&g.point().embed(Some(b"m"), &mut g.random_stream()))),
        };
        out.push((format!("{what} {i}"), v));
    }
    out
}
fn draw_main(arg: &str) {
    let c: Restart = serde_json::from_str(arg).expect("json");
    let v = if c.thread { std::thread::spawn(move || draw(&c)).join().expect("thread") } else { draw(&c) };
    println!("{}", serde_json::to_string(&v).unwrap());
}
fn restart(c: &Restart) -> Res {
    let exe = std::env::current_exe().expect("exe");
    let arg = serde_json::to_string(c).expect("json");
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for run in 0..2 {
        let o = std::process::Command::new(&exe).args(["draw", &arg]).env("KV_CHILD", "1").stderr(std::process::Stdio::null()).output().expect("spawn");
        ensure!(o.status.success(), "restart:the process failed", "{}", String::from_utf8_lossy(&o.stdout));
        let vals: Vec<(String, Vec<u8>)> = serde_json::from_slice(&o.stdout).expect("output of the child");
        ensure_eq!(vals.len(), c.ops.len(), "restart:output");
        for (what, v) in vals {
            let what = format!("{what} of process {run}");
            if let Some(o) = seen.insert(v, what.clone()) {
                return fail("restart:repeated value", format!("{what} is {o}"));
            }
        }
    }
    Ok(Obs::nt(true).label_if(c.thread, "drawn in a spawned thread"))
}
/// many streams: their entropy is large
fn streams(seed: &u64) -> Res {
    let mut all: Vec<u64> = (0..300_000)
        .map(|_| {
            let mut b = [0u8; 8];
            kyber_rs::util::random::bytes(&mut b, &mut kyber_rs::util::random::RandStream::default()).expect("bytes");
            u64::from_le_bytes(b)
        })
        .collect();
    let _ = seed;
    all.sort();
    ensure!(all.windows(2).all(|w| w[0] != w[1]), "streams:two random streams are the same");
    Ok(Obs::nt(true))
}

fn c30() -> Prop {
    Prop {
        id: "C30",
        laws: vec![
            law("pedersen-dealing", 300, 20_000, "every case: two dealings of one secret", fresh_strat, dealings::<Ped>),
            law("rabin-dealing", 300, 20_000, "every case: two dealings of one secret", fresh_strat, dealings::<Rab>),
            law("generations", 120, 8_000, "every case: repeated key generations and resharings by one node", || (any::<u64>(), nt(2, 6), key32()).prop_map(|(seed, (n, t), secret)| Fresh { seed, n, t, secret }), generations),
            law(
                "entropy",
                600,
                40_000,
                "every case: a configured entropy source",
                || (any::<u64>(), nt(2, 6), any::<u16>(), any::<u64>(), any::<u64>(), any::<u8>(), any::<u8>()).prop_map(|(seed, (n, t), k, rd, other, short, mode)| Entropy { seed, n, t, k, rd, other, short, mode }),
                entropy
            ),
            law("transcript", 150, 10_000, "more than two signatures", || net::scen(5), transcript),
            law("starved", 100, 6_000, "a starved operation needed randomness", || (net::scen(4), prop::collection::vec(1u16.., 8), bytes(40)).prop_map(|(s, picks, msg)| Starved { s, picks, msg }), starved),
            law("nonces", 2_000, 100_000, "at least one message", || (any::<u64>(), key32(), prop::collection::vec(blob(60), 1..5), any::<bool>()).prop_map(|(seed, key, msgs, real)| Sig { seed, key, msgs, real }), nonces),
            law("keys", 300, 20_000, "non-empty message", || (key32(), bytes(40)).prop_map(|(key, msg)| Keys { key, msg }), keys),
            law("restart", 40, 4_000, "every case: the same operations in two processes", || (key32(), prop::collection::vec(any::<u8>(), 1..8), any::<bool>()).prop_map(|(key, ops, thread)| Restart { key, ops, thread }), restart),
            law("streams", 16, 800, "every case: 300000 default streams", any::<u64>, streams),
        ],
        assumptions: vec!["independent 252-bit values do not coincide or come within 2^96 of each other by chance", "the deterministic suite's stream is an independent BLAKE3 keystream", "300000 independent 64-bit values do not collide by chance"],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("draw") {
        return draw_main(&a[2]);
    }
    kv::cli::main(&[("C30", c30)]);
}
