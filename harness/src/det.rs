//! A ciphersuite whose randomness is a deterministic, thread-local stream, and test streams.
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::HashFactory;
use kyber_rs::util::key::{Generator, KeyError};
use kyber_rs::{Group, Random, XOFFactory, XOF};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::{Display, Formatter};
use std::io::Read;

thread_local! {
    /// calls of the random stream since the last reset, and the call from which it fails
    static CALLS: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, usize::MAX)) };
    static RNG: RefCell<blake3::OutputReader> = RefCell::new(blake3::Hasher::new().finalize_xof());
}

/// Restarts the deterministic randomness of this thread.
pub fn reseed(seed: &[u8]) {
    let mut h = blake3::Hasher::new();
    h.update(b"kv det");
    h.update(seed);
    RNG.with(|r| *r.borrow_mut() = h.finalize_xof());
}
pub fn reseed64(seed: u64) {
    reseed(&seed.to_le_bytes())
}
pub fn det_bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    RNG.with(|r| r.borrow_mut().fill(&mut b));
    b
}

/// The random stream of this thread fails from its k-th call on; the calls so far.
pub fn fail_from(k: usize) -> usize {
    CALLS.with(|c| c.replace((0, k))).0
}
fn alive() -> bool {
    CALLS.with(|c| {
        let (n, k) = c.get();
        c.set((n + 1, k));
        n < k
    })
}

pub struct DetStream;
impl Stream for DetStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if !alive() {
            return Err(StreamError::ReadersFailure);
        }
        let mut k = vec![0u8; src.len()];
        RNG.with(|r| r.borrow_mut().fill(&mut k));
        for i in 0..src.len() {
            dst[i] = src[i] ^ k[i];
        }
        Ok(())
    }
}

/// A reader over the thread's deterministic randomness (for key-generation configurations).
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(into = "u8", from = "u8")]
pub struct DetReader;
impl From<u8> for DetReader {
    fn from(_: u8) -> Self {
        DetReader
    }
}
// not a unit in JSON: an optional one would be restored as none
impl From<DetReader> for u8 {
    fn from(_: DetReader) -> u8 {
        1
    }
}
impl Read for DetReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !alive() {
            return Ok(0);
        }
        RNG.with(|r| r.borrow_mut().fill(b));
        Ok(b.len())
    }
}

/// edwards25519 suite with deterministic `random_stream`; everything else is the library's.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct DSuite {}

fn base() -> SuiteEd25519 {
    SuiteEd25519::new_blake3_sha256_ed25519()
}

impl Display for DSuite {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Ed25519")
    }
}
impl Group for DSuite {
    type POINT = Point;
    fn scalar(&self) -> Scalar {
        base().scalar()
    }
    fn scalar_len(&self) -> usize {
        base().scalar_len()
    }
    fn point(&self) -> Point {
        base().point()
    }
    fn point_len(&self) -> usize {
        base().point_len()
    }
    fn is_prime_order(&self) -> Option<bool> {
        base().is_prime_order()
    }
}
impl HashFactory for DSuite {
    type T = sha2::Sha256;
}
impl Random for DSuite {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(DetStream)
    }
}
impl XOFFactory for DSuite {
    fn xof(&self, key: Option<&[u8]>) -> Box<dyn XOF> {
        base().xof(key)
    }
}
impl Generator<Scalar> for DSuite {
    fn new_key<S: Stream>(&self, stream: &mut S) -> Result<Option<Scalar>, KeyError> {
        Curve::new().new_key(stream)
    }
}
impl kyber_rs::share::vss::suite::Suite for DSuite {}
impl kyber_rs::sign::dss::Suite for DSuite {}
impl kyber_rs::util::key::Suite for DSuite {}

/// A keystream over given bytes, then a deterministic extension; counts and can fail.
pub struct ByteStream {
    pub data: Vec<u8>,
    pub pos: usize,
    pub calls: usize,
    pub max_calls: usize,
}
impl ByteStream {
    pub fn new(data: &[u8]) -> Self {
        ByteStream { data: data.to_vec(), pos: 0, calls: 0, max_calls: 100_000 }
    }
    pub fn next(&mut self) -> u8 {
        let p = self.pos;
        self.pos += 1;
        if p < self.data.len() {
            self.data[p]
        } else {
            // extension: blake3 of data, as XOF block
            let q = p - self.data.len();
            let mut r = blake3::Hasher::new().update(&self.data).finalize_xof();
            r.set_position(q as u64);
            let mut b = [0u8; 1];
            r.fill(&mut b);
            b[0]
        }
    }
}
impl std::io::Read for ByteStream {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > self.max_calls {
            panic!("stream read {} times: no termination", self.calls);
        }
        for x in b.iter_mut() {
            *x = self.next();
        }
        Ok(b.len())
    }
}
impl Stream for ByteStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        self.calls += 1;
        if self.calls > self.max_calls {
            panic!("stream read {} times: no termination", self.calls);
        }
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.next();
        }
        Ok(())
    }
}
