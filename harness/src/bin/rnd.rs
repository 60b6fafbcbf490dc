//! C15 extendable-output cipher, C16 randomness utilities and key pairs
use kv::det::ByteStream;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::refmath::Pt;
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::Marshaling;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::integer_field::integer::Int;
use kyber_rs::util::key::{new_key_pair, Generator, KeyError};
use kyber_rs::util::random::{self, RandStream};
use kyber_rs::{Group, Point as PointT, Random, Scalar as ScalarT, XOFFactory, XOF};
use num_bigint_dig::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;

fn okr<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: format!("{what}:error"), msg: format!("{e}") })
}

// ------------------------------------------------------------------ C15
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Write(Bs),
    WriteAll(Bs),
    Read(u16),
    ReadExact(u16),
    Xor(Bs, u8),
    /// encrypt with one fork, decrypt with another
    XorBack(Bs),
    ShortDst(u8),
    Reseed,
    Fork,
    Flush,
    Switch(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct XofRun {
    seed: Option<Bs>,
    direct: bool,
    ops: Vec<Op>,
}
#[derive(Clone)]
struct Model {
    absorbed: Vec<u8>,
    pos: Option<u64>,
}
impl Model {
    fn out(&mut self, n: usize) -> Vec<u8> {
        let p = self.pos.unwrap_or(0);
        let mut r = blake3::Hasher::new().update(&self.absorbed).finalize_xof();
        r.set_position(p);
        let mut v = vec![0u8; n];
        r.fill(&mut v);
        self.pos = Some(p + n as u64);
        v
    }
    fn write(&mut self, b: &[u8]) -> bool {
        if self.pos.is_none() {
            self.absorbed.extend_from_slice(b);
        }
        self.pos.is_none()
    }
}
fn xof_run(i: &XofRun) -> Res {
    let seed = i.seed.as_ref().map(|s| s.0.as_slice());
    let first: Box<dyn XOF> = if i.direct { kv::det::DSuite {}.xof(seed) } else { SuiteEd25519::new_blake3_sha256_ed25519().xof(seed) };
    let mut insts: Vec<(Box<dyn XOF>, Model)> = vec![(first, Model { absorbed: seed.unwrap_or(&[]).to_vec(), pos: None })];
    let mut cur = 0;
    let (mut wrote, mut read, mut refused, mut forked, mut reseeded) = (false, false, false, false, false);
    for (k, op) in i.ops.iter().enumerate() {
        let at = format!("step {k} {op:?}");
        let at = trunc(&at, 120);
        if let Op::Switch(n) = op {
            cur = *n as usize % insts.len();
            continue;
        }
        if let Op::Fork = op {
            if insts.len() < 6 {
                let c = nopanic("clone", || XOF::clone(&insts[cur].0))?;
                let m = insts[cur].1.clone();
                insts.push((c, m));
                forked = true;
            }
            continue;
        }
        let (x, m) = &mut insts[cur];
        match op {
            Op::Write(b) => {
                let r = nopanic("write", || x.write(&b.0))?;
                match r {
                    Ok(n) => {
                        ensure!(n <= b.0.len() && (n > 0 || b.0.is_empty()), "write:count", "{at}");
                        ensure!(m.write(&b.0[..n]), "write:accepted after read", "{at}");
                        wrote |= n > 0;
                    }
                    Err(_) => {
                        ensure!(m.pos.is_some(), "write:refused", "{at}");
                        refused = true;
                    }
                }
            }
            Op::WriteAll(b) => {
                // a retryable error would make this loop for ever
                let r = nopanic("write_all", || x.write_all(&b.0))?;
                if b.0.is_empty() {
                    continue;
                }
                ensure!(r.is_ok() == m.write(&b.0), "write_all:state", "{at}: {r:?}");
                wrote |= r.is_ok();
                refused |= r.is_err();
            }
            Op::Flush => okr("flush", nopanic("flush", || x.flush())?)?,
            Op::Read(n) => {
                let mut b = vec![0x5au8; *n as usize + 1];
                let r = okr("read", nopanic("read", || x.read(&mut b))?)?;
                ensure!(r > 0 && r <= b.len(), "read:count", "{at}");
                ensure!(b[..r] == m.out(r)[..], "read:wrong", "{at}");
                ensure!(b[r..].iter().all(|v| *v == 0x5a), "read:writes beyond", "{at}");
                read = true;
            }
            Op::ReadExact(n) => {
                let mut b = vec![0u8; *n as usize + 1];
                okr("read_exact", nopanic("read_exact", || x.read_exact(&mut b))?)?;
                ensure!(b == m.out(b.len()), "read_exact:wrong", "{at}");
                read = true;
            }
            Op::Xor(b, extra) if !b.0.is_empty() => {
                let mut d = vec![0x5au8; b.0.len() + *extra as usize % 40];
                okr("xor", nopanic("xor", || x.xor_key_stream(&mut d, &b.0))?)?;
                let ks = m.out(b.0.len());
                let want: Vec<u8> = b.0.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
                ensure!(d[..b.0.len()] == want[..], "xor:wrong", "{at}");
                ensure!(d[b.0.len()..].iter().all(|v| *v == 0x5a), "xor:writes beyond", "{at}");
                read = true;
            }
            Op::XorBack(b) if !b.0.is_empty() => {
                let mut y = nopanic("clone", || XOF::clone(x))?;
                let mut d = vec![0u8; b.0.len()];
                okr("xor", x.xor_key_stream(&mut d, &b.0))?;
                let mut e = vec![0u8; b.0.len()];
                okr("xor", y.xor_key_stream(&mut e, &d))?;
                ensure!(e == b.0, "xor:not its own inverse", "{at}");
                m.out(b.0.len());
                read = true;
            }
            Op::ShortDst(n) => {
                let src = vec![1u8; *n as usize % 60 + 1];
                let mut d = vec![0u8; src.len() - 1];
                let r = nopanic("xor", || x.xor_key_stream(&mut d, &src))?;
                ensure!(r.is_err(), "xor:short destination accepted", "{at}");
            }
            Op::Reseed => {
                nopanic("reseed", || x.reseed())?;
                let key = m.out(128);
                *m = Model { absorbed: key, pos: None };
                reseeded = true;
            }
            _ => {}
        }
    }
    // forks never influence one another
    for (k, (x, m)) in insts.iter_mut().enumerate() {
        let mut b = vec![0u8; 77];
        okr("read_exact", x.read_exact(&mut b))?;
        ensure!(b == m.out(77), "final:wrong", "instance {k}");
    }
    Ok(Obs::nt(read && (wrote || i.seed.is_some()))
        .label_if(refused, "write after read refused")
        .label_if(forked, "forked")
        .label_if(reseeded, "reseeded"))
}
fn xops() -> impl Strategy<Value = Op> {
    let data = || prop_oneof![4 => bytes(70), 1 => bytes_n(900..=1100), 1 => bytes_n(2000..=2100), 1 => bytes_n(60..=66)];
    let len = || prop_oneof![6 => 0u16..80, 1 => 120u16..140, 1 => 1000u16..1040, 1 => 0u16..5000];
    prop_oneof![
        4 => data().prop_map(Op::Write),
        3 => data().prop_map(Op::WriteAll),
        4 => len().prop_map(Op::Read),
        2 => len().prop_map(Op::ReadExact),
        4 => (data(), any::<u8>()).prop_map(|(b, e)| Op::Xor(b, e)),
        1 => data().prop_map(Op::XorBack),
        1 => any::<u8>().prop_map(Op::ShortDst),
        2 => Just(Op::Reseed),
        2 => Just(Op::Fork),
        1 => Just(Op::Flush),
        3 => any::<u8>().prop_map(Op::Switch),
    ]
}
/// two ways of cutting the same input and output
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cut {
    input: Bs,
    out: u16,
    w1: Vec<u8>,
    w2: Vec<u8>,
    r1: Vec<u8>,
    r2: Vec<u8>,
    seeded: bool,
}
fn cut(i: &Cut) -> Res {
    let mk = |w: &[u8], r: &[u8], xor: bool| -> Result<Vec<u8>, Fail> {
        let parts = chunks(w, &i.input.0);
        let (seed, rest) = if i.seeded && !parts.is_empty() { (Some(parts[0].clone()), &parts[1..]) } else { (None, &parts[..]) };
        let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(seed.as_deref());
        for p in rest {
            okr("write_all", x.write_all(p))?;
        }
        let mut out = vec![];
        for c in chunks(r, &vec![0u8; i.out as usize]) {
            let mut b = vec![0u8; c.len()];
            if xor {
                okr("xor", x.xor_key_stream(&mut b, &c))?;
            } else {
                okr("read", x.read_exact(&mut b))?;
            }
            out.extend(b);
        }
        Ok(out)
    };
    let a = mk(&i.w1, &i.r1, false)?;
    let b = mk(&i.w2, &i.r2, true)?;
    ensure!(a == b, "chunking:matters");
    let mut want = vec![0u8; i.out as usize];
    blake3::Hasher::new().update(&i.input.0).finalize_xof().fill(&mut want);
    ensure!(a == want, "chunking:wrong");
    Ok(Obs::nt(!i.input.0.is_empty() && i.out > 0))
}
/// inputs and outputs far beyond one buffer
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Long {
    seed: u64,
    input: u32,
    /// lengths of the successive outputs, each by `read` or by the cipher
    out: Vec<(u32, bool)>,
    reseed: bool,
}
fn long(i: &Long) -> Res {
    let data = |n: usize, tag: u8| {
        let mut v = vec![0u8; n];
        blake3::Hasher::new().update(&i.seed.to_le_bytes()).update(&[tag]).finalize_xof().fill(&mut v);
        v
    };
    let input = data(i.input as usize, 0);
    let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(None);
    okr("write_all", x.write_all(&input))?;
    let mut m = Model { absorbed: input, pos: None };
    let mut longest = 0;
    for (k, (n, cipher)) in i.out.iter().enumerate() {
        let n = *n as usize;
        let src = if *cipher { data(n, 1 + k as u8) } else { vec![0; n] };
        let mut d = vec![0u8; n];
        if *cipher {
            okr("xor", nopanic("xor", || x.xor_key_stream(&mut d, &src))?)?;
        } else {
            okr("read_exact", nopanic("read_exact", || x.read_exact(&mut d))?)?;
        }
        let ks = m.out(n);
        let bad = (0..n).find(|j| d[*j] != src[*j] ^ ks[*j]);
        ensure!(bad.is_none(), "long:wrong", "output {k} of {n} bytes differs at {bad:?}");
        longest = longest.max(n);
        if i.reseed && k == 0 {
            nopanic("reseed", || x.reseed())?;
            let key = m.out(128);
            m = Model { absorbed: key, pos: None };
        }
    }
    Ok(Obs::nt(longest > 16384 || i.input > 16384).label_if(longest > 65536, "more than 64 KiB in one call").label_if(longest > 1 << 20, "more than 1 MiB in one call"))
}
fn long_len() -> impl Strategy<Value = u32> {
    prop_oneof![
        2 => 0u32..100_000,
        4 => (10u32..18, -3i32..4).prop_map(|(e, d)| ((1i64 << e) + d as i64) as u32),
        2 => 60_000u32..300_000,
        1 => 1_000_000u32..1_200_000,
    ]
}
fn c15() -> Prop {
    Prop {
        id: "C15",
        laws: vec![
            law("history", 200_000, 500_000, "something was absorbed and something was read",
                || (prop::option::of(bytes(140)), any::<bool>(), prop::collection::vec(xops(), 0..24)).prop_map(|(seed, direct, ops)| XofRun { seed, direct, ops }), xof_run),
            law("long", 1_200, 20_000, "an input or an output of more than 16 KiB",
                || (any::<u64>(), long_len(), prop::collection::vec((long_len(), any::<bool>()), 1..4), any::<bool>()).prop_map(|(seed, input, out, reseed)| Long { seed, input, out, reseed }), long),
            law("chunking", 60_000, 200_000, "non-empty input and output",
                || (prop_oneof![3 => bytes(300), 1 => bytes_n(1000..=3000)], 0u16..3000, prop::collection::vec(any::<u8>(), 0..5), prop::collection::vec(any::<u8>(), 0..5), prop::collection::vec(any::<u8>(), 0..5), prop::collection::vec(any::<u8>(), 0..5), any::<bool>())
                    .prop_map(|(input, out, w1, w2, r1, r2, seeded)| Cut { input, out, w1, w2, r1, r2, seeded }), cut),
        ],
        assumptions: vec!["blake3 correct", "a zero-length read or write may or may not count as one; none is generated before a write"],
    }
}

// ------------------------------------------------------------------ C16
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ints {
    modulus: Bs,
    stream: Bs,
}
fn first_int(m: &BigUint, s: &mut ByteStream) -> BigUint {
    let bits = m.bits();
    loop {
        let mut b: Vec<u8> = (0..bits.div_ceil(8)).map(|_| s.next()).collect();
        if bits % 8 != 0 {
            b[0] &= (1u8 << (bits % 8)) - 1;
        }
        let v = BigUint::from_bytes_be(&b);
        if !v.is_zero() && v < *m {
            return v;
        }
    }
}
fn ints(i: &Ints) -> Res {
    let m = BigUint::from_bytes_be(&i.modulus.0);
    let mi = BigInt::from_biguint(Sign::Plus, m.clone());
    let mut s = ByteStream::new(&i.stream.0);
    let v = nopanic("random_int", || random::random_int(&mi, &mut s))?;
    ensure!(v < mi && v.sign() != Sign::Minus, "random_int:out of range", "{v} for {mi}");
    let mut r = ByteStream::new(&i.stream.0);
    let want = first_int(&m, &mut r);
    ensure!(v == BigInt::from_biguint(Sign::Plus, want.clone()), "random_int:not taken from the stream", "got {v} want {want}");
    ensure_eq!(s.pos, r.pos, "random_int:stream use");
    // picking in a ring and in the group order
    let mut s = ByteStream::new(&i.stream.0);
    let x = nopanic("Int.pick", || Int::new_int64(0, mi.clone()).pick(&mut s))?;
    let mut le = want.to_bytes_le();
    le.resize(m.bits().div_ceil(8), 0);
    le.reverse();
    ensure_eq!(okr("marshal", x.marshal_binary())?, le, "Int.pick:wrong");
    let mut s = ByteStream::new(&i.stream.0);
    let x = nopanic("Scalar.pick", || Scalar { v: [0x77; 32] }.pick(&mut s))?;
    let want = first_int(rm::l(), &mut ByteStream::new(&i.stream.0));
    ensure_eq!(x.v, rm::sc(&want), "Scalar.pick:wrong");
    let mut s = ByteStream::new(&i.stream.0);
    let mut x = Scalar { v: [0x77; 32] };
    nopanic("Scalar.unmarshal_from_random", || x.unmarshal_from_random(&mut s))?;
    ensure_eq!(x.v, rm::sc(&want), "Scalar.unmarshal_from_random:wrong");
    let mut s = ByteStream::new(&i.stream.0);
    let mut x = Int::new_int64(0, mi.clone());
    nopanic("Int.unmarshal_from_random", || x.unmarshal_from_random(&mut s))?;
    ensure_eq!(okr("marshal", x.marshal_binary())?, le, "Int.unmarshal_from_random:wrong");
    Ok(Obs::nt(r.pos > m.bits().div_ceil(8)).label(if r.pos > m.bits().div_ceil(8) { "rejected candidates" } else { "first candidate" }))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bits {
    n: u16,
    exact: bool,
    stream: Bs,
}
fn bits(i: &Bits) -> Res {
    let n = if i.exact { i.n.max(1) } else { i.n } as usize;
    let mut s = ByteStream::new(&i.stream.0);
    let b = nopanic("bits", || random::bits(n as u64, i.exact, &mut s))?;
    ensure_eq!(b.len(), n.div_ceil(8), "bits:length");
    let v = BigUint::from_bytes_be(&b);
    ensure!(v.bits() <= n, "bits:too many", "{} bits for {n}", v.bits());
    if i.exact {
        ensure!(v.bits() == n, "bits:not exact", "{} bits for {n}", v.bits());
    }
    let mut r = ByteStream::new(&i.stream.0);
    let raw: Vec<u8> = (0..n.div_ceil(8)).map(|_| r.next()).collect();
    let mut want = BigUint::from_bytes_be(&raw) & ((BigUint::one() << n) - 1u32);
    if i.exact {
        want |= BigUint::one() << (n - 1);
    }
    ensure!(v == want, "bits:not taken from the stream");
    let mut buf = vec![0xeeu8; n % 97];
    let mut s = ByteStream::new(&i.stream.0);
    okr("bytes", nopanic("bytes", || random::bytes(&mut buf, &mut s))?)?;
    let mut r = ByteStream::new(&i.stream.0);
    let want: Vec<u8> = (0..buf.len()).map(|_| r.next()).collect();
    ensure_eq!(buf, want, "bytes:not taken from the stream");
    Ok(Obs::nt(n > 0).label(if i.exact { "exact" } else { "at most" }).label(if n % 8 == 0 { "whole bytes" } else { "partial byte" }))
}

/// a reader that hands out its bytes in pieces and then ends or fails
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Src {
    data: Bs,
    piece: u8,
    /// 0 endless (extended), 1 ends, 2 fails, 3 fails at once but recovers, 4 interrupted now and then
    end: u8,
}
struct SrcReader {
    s: Src,
    st: Rc<RefCell<(usize, usize)>>,
}
fn src_byte(s: &Src, k: usize) -> u8 {
    if k < s.data.0.len() {
        s.data.0[k]
    } else {
        let mut r = blake3::Hasher::new().update(&s.data.0).finalize_xof();
        r.set_position(k as u64);
        let mut b = [0u8; 1];
        r.fill(&mut b);
        b[0]
    }
}
impl Read for SrcReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut st = self.st.borrow_mut();
        st.1 += 1;
        if self.s.end == 3 && st.1 == 1 {
            return Err(std::io::ErrorKind::Other.into());
        }
        if self.s.end == 4 && st.1 % 3 == 1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min((self.s.piece as usize % 40).max(1));
        if matches!(self.s.end, 1 | 2) {
            let left = self.s.data.0.len().saturating_sub(st.0);
            if left == 0 {
                return if self.s.end == 1 { Ok(0) } else { Err(std::io::ErrorKind::BrokenPipe.into()) };
            }
            n = n.min(left);
        }
        for k in 0..n {
            b[k] = src_byte(&self.s, st.0 + k);
        }
        st.0 += n;
        Ok(n)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mix {
    srcs: Vec<Src>,
    calls: Vec<Bs>,
    swap: bool,
}
fn mix(i: &Mix) -> Res {
    use sha2::{Digest, Sha256};
    let mk = || -> (Vec<Box<dyn Read>>, Vec<Rc<RefCell<(usize, usize)>>>) {
        let st: Vec<_> = i.srcs.iter().map(|_| Rc::new(RefCell::new((0, 0)))).collect();
        (i.srcs.iter().zip(&st).map(|(s, st)| Box::new(SrcReader { s: s.clone(), st: st.clone() }) as Box<dyn Read>).collect(), st)
    };
    let (rs, _) = mk();
    let mut rnd = RandStream::new(rs);
    // the same sources, read by the model
    let (mut model, _) = mk();
    let mut failures = 0;
    for (k, src) in i.calls.iter().enumerate() {
        let mut seed = vec![];
        let mut good = 0;
        for r in model.iter_mut() {
            let mut b = [0u8; 32];
            if r.read_exact(&mut b).is_ok() {
                seed.extend_from_slice(&b);
                good += 1;
            }
        }
        let mut dst = vec![0x33u8; src.0.len()];
        let r = nopanic("xor_key_stream", || rnd.xor_key_stream(&mut dst, &src.0))?;
        if good == 0 {
            ensure!(matches!(r, Err(StreamError::ReadersFailure)), "mixed:works without a source", "call {k}: {r:?}");
            failures += 1;
            continue;
        }
        okr("mixed", r)?;
        let mut ks = vec![0u8; src.0.len()];
        blake3::Hasher::new().update(&Sha256::digest(&seed)).finalize_xof().fill(&mut ks);
        let want: Vec<u8> = src.0.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
        ensure!(dst == want, "mixed:wrong", "call {k}");
    }
    Ok(Obs::nt(i.srcs.len() > 1 && !i.calls.is_empty()).label_if(failures > 0, "all sources failed").label(format!("{} sources", i.srcs.len())))
}
/// changing one reader's bytes changes the output
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Chg {
    data: Vec<B32>,
    which: u8,
    pos: u8,
    bit: u8,
    n: u8,
}
fn changed(i: &Chg) -> Res {
    let run = |d: &[B32]| -> Result<Vec<u8>, Fail> {
        let rs: Vec<Box<dyn Read>> = d.iter().map(|b| Box::new(std::io::Cursor::new(b.0.to_vec())) as Box<dyn Read>).collect();
        let n = i.n as usize % 64 + 16;
        let mut out = vec![0u8; n];
        okr("xor", RandStream::new(rs).xor_key_stream(&mut out, &vec![0u8; n]))?;
        Ok(out)
    };
    let a = run(&i.data)?;
    ensure!(a == run(&i.data)?, "mixed:not deterministic");
    let mut d = i.data.clone();
    let w = i.which as usize % d.len();
    d[w].0[i.pos as usize % 32] ^= 1 << (i.bit % 8);
    ensure!(a != run(&d)?, "mixed:ignores a reader", "reader {w} byte {}", i.pos % 32);
    // and a stream with no reader of its own is not predictable
    let mut x = vec![0u8; 32];
    let mut y = vec![0u8; 32];
    okr("xor", RandStream::new(vec![]).xor_key_stream(&mut x, &[0u8; 32]))?;
    okr("xor", RandStream::default().xor_key_stream(&mut y, &[0u8; 32]))?;
    ensure!(x != y, "default:predictable");
    let mut s = RandStream::default();
    okr("xor", s.xor_key_stream(&mut x, &[0u8; 32]))?;
    okr("xor", s.xor_key_stream(&mut y, &[0u8; 32]))?;
    ensure!(x != y, "default:repeats");
    let mut z = vec![0u8; 33];
    ensure!(nopanic("xor", || s.xor_key_stream(&mut z, &[0u8; 32]))?.is_err(), "mixed:length mismatch accepted");
    ensure!(nopanic("xor", || s.xor_key_stream(&mut z[..31], &[0u8; 32]))?.is_err(), "mixed:length mismatch accepted");
    Ok(Obs::nt(i.data.len() > 1))
}

/// fails after a number of calls
struct FailAfter {
    inner: ByteStream,
    left: usize,
}
impl Stream for FailAfter {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if self.left == 0 {
            self.inner.calls += 1;
            if self.inner.calls > 10_000 {
                panic!("asked {} times after failing", self.inner.calls);
            }
            return Err(StreamError::ReadersFailure);
        }
        self.left -= 1;
        self.inner.xor_key_stream(dst, src)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bad {
    stream: Bs,
    after: u8,
    bits: u8,
    what: u8,
}
fn failing(i: &Bad) -> Res {
    let mut s = FailAfter { inner: ByteStream::new(&i.stream.0), left: i.after as usize };
    // whether the failure was reached, and how the call ended
    let (name, r): (&str, Result<bool, String>) = match i.what % 8 {
        0 => ("bits", catch(|| { random::bits(i.bits as u64 + 1, false, &mut s); true })),
        1 => ("random_int", catch(|| { random::random_int(&(BigInt::from(i.bits) + 3), &mut s); true })),
        2 => ("Scalar.pick", catch(|| { Scalar::default().pick(&mut s); true })),
        3 => ("Point.pick", catch(|| { Point::default().pick(&mut s); true })),
        4 => ("Point.embed", catch(|| { Point::default().embed(Some(&i.stream.0), &mut s); true })),
        5 => ("new_key", catch(|| Curve::new().new_key(&mut s).is_ok())),
        6 => ("bytes", catch(|| random::bytes(&mut [0u8; 32], &mut s).is_ok())),
        _ => ("Int.pick", catch(|| { Int::new_int64(1, BigInt::from(i.bits) + 3).pick(&mut s); true })),
    };
    let hit = s.inner.calls > i.after as usize;
    if hit {
        ensure!(r != Ok(true), format!("{name}:predictable after failure"));
        ensure!(s.inner.calls < 10_000, format!("{name}:loops after failure"));
    } else {
        ensure!(r == Ok(true), format!("{name}:fails"), "{r:?}");
    }
    Ok(Obs::nt(hit).label(name))
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
struct KSuite {
    data: Bs,
    own_rule: bool,
}
impl std::fmt::Display for KSuite {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k")
    }
}
impl Group for KSuite {
    type POINT = Point;
    fn scalar(&self) -> Scalar {
        Curve::new().scalar()
    }
    fn scalar_len(&self) -> usize {
        32
    }
    fn point(&self) -> Point {
        Curve::new().point()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
impl kyber_rs::group::HashFactory for KSuite {
    type T = sha2::Sha256;
}
impl Random for KSuite {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(ByteStream::new(&self.data.0))
    }
}
impl Generator<Scalar> for KSuite {
    fn new_key<S: Stream>(&self, s: &mut S) -> Result<Option<Scalar>, KeyError> {
        if self.own_rule {
            Ok(None)
        } else {
            Curve::new().new_key(s)
        }
    }
}
impl kyber_rs::util::key::Suite for KSuite {}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Kp {
    stream: Bs,
    other: Bs,
    own_rule: bool,
}
fn keypair(i: &Kp) -> Res {
    let mk = |d: &Bs| nopanic("new_key_pair", || okr("new_key_pair", new_key_pair(&KSuite { data: d.clone(), own_rule: i.own_rule })));
    let k = mk(&i.stream)??;
    let mut s = ByteStream::new(&i.stream.0);
    let want = if i.own_rule {
        rm::sc(&first_int(rm::l(), &mut s))
    } else {
        let seed: Vec<u8> = (0..32).map(|_| s.next()).collect();
        rm::ed_keygen(&seed).0
    };
    ensure!(rm::modl(&rm::lebytes(&k.private.v)) == rm::modl(&rm::lebytes(&want)), "private:wrong", "got {} want {}", hex::encode(k.private.v), hex::encode(want));
    let pk = Pt::base_mul(&rm::modl(&rm::lebytes(&want))).encode().to_vec();
    ensure_eq!(okr("public", k.public.marshal_binary())?, pk, "public:wrong");
    ensure!(k.public == Curve::new().point().mul(&k.private, None), "public:not private times base");
    let again = mk(&i.stream)??;
    ensure!(again == k, "pair:not a function of the stream");
    let o = mk(&i.other)??;
    // the generators read the same prefix only when the streams agree on it
    let (mut a, mut b) = (ByteStream::new(&i.stream.0), ByteStream::new(&i.other.0));
    let differ = (0..32).any(|_| a.next() != b.next());
    if differ && !i.own_rule {
        ensure!(o.private != k.private, "pair:ignores the stream");
    }
    // the library's suite never repeats itself
    let real = SuiteEd25519::new_blake3_sha256_ed25519();
    let (x, y) = (okr("pair", new_key_pair(&real))?, okr("pair", new_key_pair(&real))?);
    ensure!(x.private != y.private && x.public != y.public, "pair:repeats");
    ensure!(x.public == real.point().mul(&x.private, None), "pair:inconsistent");
    Ok(Obs::nt(differ).label(if i.own_rule { "picked" } else { "hashed seed" }))
}
fn moduli() -> impl Strategy<Value = Bs> {
    prop_oneof![
        3 => (2u64..600).prop_map(|x| Bs(BigUint::from(x).to_bytes_be())),
        2 => (1usize..300, -2i32..3).prop_map(|(k, d)| { let x = BigInt::from(BigUint::one() << k) + d; Bs(if x < BigInt::from(2) { vec![2] } else { x.to_bytes_be().1 }) }),
        2 => bytes_n(1..=40).prop_map(|mut b| { b.0[0] |= 2; b }),
        1 => Just(Bs(rm::l().to_bytes_be())),
    ]
}
/// streams that start with rejected candidates
fn streams() -> impl Strategy<Value = Bs> {
    prop_oneof![2 => bytes(64), 2 => bytes_n(32..=96), 1 => (0usize..80, any::<u8>(), bytes(40)).prop_map(|(n, v, b)| { let mut x = vec![v; n]; x.extend(b.0); Bs(x) }), 1 => (0usize..80, bytes(40)).prop_map(|(n, b)| { let mut x = vec![0xff; n]; x.extend(b.0); Bs(x) }), 1 => (0usize..80, bytes(40)).prop_map(|(n, b)| { let mut x = vec![0; n]; x.extend(b.0); Bs(x) })]
}
fn c16() -> Prop {
    Prop {
        id: "C16",
        laws: vec![
            law("random_int", 120_000, 500_000, "at least one candidate was rejected",
                || (moduli(), streams()).prop_map(|(modulus, stream)| Ints { modulus, stream }), ints),
            law("bits", 120_000, 500_000, "at least one bit",
                || (prop_oneof![0u16..40, 0u16..600], any::<bool>(), streams()).prop_map(|(n, exact, stream)| Bits { n, exact, stream }), bits),
            law("mixed", 80_000, 200_000, "several sources and at least one call",
                || (prop::collection::vec((bytes(100), any::<u8>(), 0u8..5).prop_map(|(data, piece, end)| Src { data, piece, end }), 1..5), prop::collection::vec(bytes(80), 0..6), any::<bool>())
                    .prop_map(|(srcs, calls, swap)| Mix { srcs, calls, swap }), mix),
            law("changed_reader", 40_000, 100_000, "several readers",
                || (prop::collection::vec(rand32(), 1..5), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(data, which, pos, bit, n)| Chg { data, which, pos, bit, n }), changed),
            law("failing_stream", 60_000, 100_000, "the failure was reached",
                || (bytes(40), prop_oneof![3 => Just(0u8), 1 => 0u8..4], any::<u8>(), any::<u8>()).prop_map(|(stream, after, bits, what)| Bad { stream, after, bits, what }), failing),
            law("key_pair", 12_000, 60_000, "streams differ",
                || (streams(), streams(), any::<bool>()).prop_map(|(stream, other, own_rule)| Kp { stream, other, own_rule }), keypair),
        ],
        assumptions: vec!["blake3, sha2, num-bigint-dig correct", "bounds of at least two; exact bit strings of at least one bit"],
    }
}

fn main() {
    kv::cli::main(&[("C15", c15), ("C16", c16)])
}
