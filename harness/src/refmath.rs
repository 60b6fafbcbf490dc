//! Independent reference arithmetic: edwards25519 over BigUint, scalars mod L, Ed25519, Shamir.
//! Shares no code with the library under test.
use num_bigint_dig::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use sha2::{Digest, Sha512};

pub struct Consts {
    pub p: BigUint,
    pub l: BigUint,
    pub d: BigUint,
    pub sqrtm1: BigUint,
    pub b: Pt,
    /// the eight torsion points, torsion[i] = i * generator
    pub torsion: Vec<Pt>,
}

fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

pub fn c() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = (BigUint::one() << 255usize) - BigUint::from(19u32);
        let l = (BigUint::one() << 252usize) + dec("27742317777372353535851937790883648493");
        // d = -121665/121666
        let inv = BigUint::from(121666u32).modpow(&(&p - 2u32), &p);
        let d = (&p - (BigUint::from(121665u32) * inv) % &p) % &p;
        let sqrtm1 = BigUint::from(2u32).modpow(&((&p - 1u32) >> 2usize), &p);
        let mut k = Consts { p: p.clone(), l, d, sqrtm1, b: Pt::raw_id(), torsion: vec![] };
        // B: y = 4/5, x even
        let y = (BigUint::from(4u32) * BigUint::from(5u32).modpow(&(&p - 2u32), &p)) % &p;
        let x = xrec(&k, &y, false).unwrap();
        k.b = Pt::aff(&k, x, y);
        // torsion generator: find a point Q, T = l*Q of order 8
        let mut yy = BigUint::from(2u32);
        loop {
            if let Some(x) = xrec(&k, &yy, false) {
                let q = Pt::aff(&k, x, yy.clone());
                let t = q.mul_k(&k, &k.l);
                let t4 = t.mul_k(&k, &BigUint::from(4u32));
                if !t4.is_id_k(&k) {
                    k.torsion = (0u32..8).map(|i| t.mul_k(&k, &BigUint::from(i))).collect();
                    break;
                }
            }
            yy += 1u32;
        }
        k
    })
}

fn xrec(k: &Consts, y: &BigUint, sign: bool) -> Option<BigUint> {
    // x^2 = (y^2-1)/(d y^2+1)
    let p = &k.p;
    let y2 = (y * y) % p;
    let u = (&y2 + p - 1u32) % p;
    let v = (&k.d * &y2 + 1u32) % p;
    let vi = v.modpow(&(p - 2u32), p);
    let x2 = (u * vi) % p;
    if x2.is_zero() {
        return Some(BigUint::zero());
    }
    let mut x = x2.modpow(&((p + 3u32) >> 3usize), p);
    if (&x * &x) % p != x2 {
        x = (&x * &k.sqrtm1) % p;
    }
    if (&x * &x) % p != x2 {
        return None;
    }
    if x.is_odd() != sign {
        x = p - x;
    }
    Some(x)
}

/// extended coordinates
#[derive(Clone, Debug)]
pub struct Pt {
    x: BigUint,
    y: BigUint,
    z: BigUint,
    t: BigUint,
}

impl PartialEq for Pt {
    fn eq(&self, o: &Pt) -> bool {
        let p = &c().p;
        (&self.x * &o.z) % p == (&o.x * &self.z) % p && (&self.y * &o.z) % p == (&o.y * &self.z) % p
    }
}

impl Pt {
    fn raw_id() -> Pt {
        Pt { x: BigUint::zero(), y: BigUint::one(), z: BigUint::one(), t: BigUint::zero() }
    }
    pub fn id() -> Pt {
        Pt::raw_id()
    }
    fn aff(k: &Consts, x: BigUint, y: BigUint) -> Pt {
        let t = (&x * &y) % &k.p;
        Pt { x, y, z: BigUint::one(), t }
    }
    fn add_k(&self, k: &Consts, o: &Pt) -> Pt {
        // unified addition for a=-1, complete because d is a non-square
        let p = &k.p;
        let a = ((&self.y + p - &self.x) * (&o.y + p - &o.x)) % p;
        let b = ((&self.y + &self.x) * (&o.y + &o.x)) % p;
        let cc = (((&self.t * &o.t) % p) * &k.d * 2u32) % p;
        let d = (&self.z * &o.z * 2u32) % p;
        let e = (&b + p - &a) % p;
        let f = (&d + p - &cc) % p;
        let g = (&d + &cc) % p;
        let h = (&b + &a) % p;
        Pt { x: (&e * &f) % p, y: (&g * &h) % p, t: (&e * &h) % p, z: (&f * &g) % p }
    }
    pub fn add(&self, o: &Pt) -> Pt {
        self.add_k(c(), o)
    }
    pub fn neg(&self) -> Pt {
        let p = &c().p;
        Pt { x: (p - &self.x) % p, y: self.y.clone(), z: self.z.clone(), t: (p - &self.t) % p }
    }
    pub fn sub(&self, o: &Pt) -> Pt {
        self.add(&o.neg())
    }
    fn mul_k(&self, k: &Consts, n: &BigUint) -> Pt {
        let mut acc = Pt::raw_id();
        for byte in n.to_bytes_be() {
            for i in (0..8).rev() {
                acc = acc.add_k(k, &acc);
                if (byte >> i) & 1 == 1 {
                    acc = acc.add_k(k, self);
                }
            }
        }
        acc
    }
    pub fn mul(&self, n: &BigUint) -> Pt {
        self.mul_k(c(), n)
    }
    fn is_id_k(&self, k: &Consts) -> bool {
        (&self.x % &k.p).is_zero() && (&self.y % &k.p) == (&self.z % &k.p)
    }
    pub fn is_id(&self) -> bool {
        self.is_id_k(c())
    }
    pub fn small_order(&self) -> bool {
        let a = self.add(self);
        let b = a.add(&a);
        b.add(&b).is_id()
    }
    pub fn prime_subgroup(&self) -> bool {
        self.mul(&c().l).is_id()
    }
    pub fn affine(&self) -> (BigUint, BigUint) {
        let p = &c().p;
        let zi = self.z.modpow(&(p - 2u32), p);
        ((&self.x * &zi) % p, (&self.y * &zi) % p)
    }
    pub fn encode(&self) -> [u8; 32] {
        let (x, y) = self.affine();
        let mut b = le32(&y);
        if x.is_odd() {
            b[31] |= 0x80;
        }
        b
    }
    /// Decodes like the usual (lenient) Ed25519 decoding: y is taken modulo p, sign of x = 0 ignored.
    pub fn decode(b: &[u8]) -> Option<Pt> {
        if b.len() != 32 {
            return None;
        }
        let k = c();
        let mut yb = b.to_vec();
        let sign = yb[31] & 0x80 != 0;
        yb[31] &= 0x7f;
        let y = BigUint::from_bytes_le(&yb) % &k.p;
        let x = xrec(k, &y, sign)?;
        Some(Pt::aff(k, x, y))
    }
    pub fn base_mul(n: &BigUint) -> Pt {
        static T: std::sync::OnceLock<Vec<Pt>> = std::sync::OnceLock::new();
        let t = T.get_or_init(|| {
            let mut v = vec![c().b.clone()];
            for i in 0..520 {
                let x = v[i].add(&v[i]);
                v.push(x);
            }
            v
        });
        let mut acc = Pt::id();
        for (i, byte) in n.to_bytes_le().iter().enumerate() {
            for j in 0..8 {
                if (byte >> j) & 1 == 1 {
                    acc = acc.add(&t[8 * i + j]);
                }
            }
        }
        acc
    }
}

/// whether the 255-bit y coordinate is below p
pub fn y_canonical(b: &[u8]) -> bool {
    if b.len() != 32 {
        return false;
    }
    let mut yb = b.to_vec();
    yb[31] &= 0x7f;
    BigUint::from_bytes_le(&yb) < c().p
}

pub fn le32(n: &BigUint) -> [u8; 32] {
    let v = n.to_bytes_le();
    assert!(v.len() <= 32, "le32 overflow");
    let mut b = [0u8; 32];
    b[..v.len()].copy_from_slice(&v);
    b
}
pub fn lebytes(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn l() -> &'static BigUint {
    &c().l
}
pub fn modl(n: &BigUint) -> BigUint {
    n % l()
}
/// canonical 32-byte encoding of an integer mod L
pub fn sc(n: &BigUint) -> [u8; 32] {
    le32(&modl(n))
}
pub fn sci(n: &BigInt) -> [u8; 32] {
    let m = BigInt::from_biguint(Sign::Plus, l().clone());
    le32(&n.mod_floor(&m).to_biguint().unwrap())
}
pub fn invl(n: &BigUint) -> BigUint {
    modl(n).modpow(&(l() - 2u32), l())
}
pub fn subl(a: &BigUint, b: &BigUint) -> BigUint {
    (modl(a) + l() - modl(b)) % l()
}

// ---------------------------------------------------------------- Ed25519
pub fn clamp(h: &[u8]) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(&h[..32]);
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    a
}
pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    let mut o = [0u8; 64];
    o.copy_from_slice(&h.finalize());
    o
}
/// (clamped secret, prefix, public key)
pub fn ed_keygen(seed: &[u8]) -> ([u8; 32], [u8; 32], [u8; 32]) {
    let h = sha512(&[seed]);
    let a = clamp(&h);
    let mut prefix = [0u8; 32];
    prefix.copy_from_slice(&h[32..]);
    (a, prefix, Pt::base_mul(&lebytes(&a)).encode())
}
pub fn ed_sign(seed: &[u8], msg: &[u8]) -> [u8; 64] {
    let (a, prefix, pk) = ed_keygen(seed);
    ed_sign_expanded(&a, &prefix, &pk, msg)
}
pub fn ed_sign_expanded(a: &[u8; 32], prefix: &[u8], pk: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let r = modl(&lebytes(&sha512(&[prefix, msg])));
    sig_with_nonce(&lebytes(a), &r, pk, msg)
}
/// R = rB, S = r + H(R,A,M)a
pub fn sig_with_nonce(a: &BigUint, r: &BigUint, pk: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let rp = Pt::base_mul(&modl(r)).encode();
    let h = lebytes(&sha512(&[&rp, pk, msg]));
    let s = sc(&(r + modl(&h) * modl(a)));
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&rp);
    o[32..].copy_from_slice(&s);
    o
}

/// The strict rules both verifiers document: lengths, S < L, canonical A and R, A and R not of
/// small order, cofactorless equation S*B = R + H(R,A,M)*A.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Ok,
    Length,
    SNotCanonical,
    RUndecodable,
    RNotCanonical,
    RSmall,
    AUndecodable,
    ANotCanonical,
    ASmall,
    Equation,
}
pub fn strict_verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> Verdict {
    if sig.len() != 64 || pk.len() != 32 {
        return Verdict::Length;
    }
    let s = lebytes(&sig[32..]);
    if &s >= l() {
        return Verdict::SNotCanonical;
    }
    let Some(r) = Pt::decode(&sig[..32]) else { return Verdict::RUndecodable };
    if !y_canonical(&sig[..32]) {
        return Verdict::RNotCanonical;
    }
    if r.small_order() {
        return Verdict::RSmall;
    }
    let Some(a) = Pt::decode(pk) else { return Verdict::AUndecodable };
    if !y_canonical(pk) {
        return Verdict::ANotCanonical;
    }
    if a.small_order() {
        return Verdict::ASmall;
    }
    let h = modl(&lebytes(&sha512(&[&sig[..32], &a.encode(), msg])));
    if Pt::base_mul(&s) == r.add(&a.mul(&h)) {
        Verdict::Ok
    } else {
        Verdict::Equation
    }
}

// ---------------------------------------------------------------- polynomials mod L
pub fn poly_eval(co: &[BigUint], x: &BigUint) -> BigUint {
    let mut acc = BigUint::zero();
    for a in co.iter().rev() {
        acc = (acc * x + a) % l();
    }
    acc
}
/// Lagrange interpolation of the full polynomial through distinct xs.
pub fn interpolate(pts: &[(BigUint, BigUint)]) -> Vec<BigUint> {
    let mut out = vec![BigUint::zero(); pts.len()];
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let mut num = vec![BigUint::one()];
        let mut den = BigUint::one();
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i == j {
                continue;
            }
            // num *= (X - xj)
            let mut n2 = vec![BigUint::zero(); num.len() + 1];
            for (k, co) in num.iter().enumerate() {
                n2[k + 1] = (&n2[k + 1] + co) % l();
                n2[k] = (&n2[k] + co * subl(&BigUint::zero(), xj)) % l();
            }
            num = n2;
            den = (den * subl(xi, xj)) % l();
        }
        let f = (yi * invl(&den)) % l();
        for (k, co) in num.iter().enumerate() {
            out[k] = (&out[k] + co * &f) % l();
        }
    }
    out
}
pub fn interpolate0(pts: &[(BigUint, BigUint)]) -> BigUint {
    let mut acc = BigUint::zero();
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let (mut num, mut den) = (BigUint::one(), BigUint::one());
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                num = (num * xj) % l();
                den = (den * subl(xj, xi)) % l();
            }
        }
        acc = (acc + yi * num * invl(&den)) % l();
    }
    acc
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn rfc8032_vector_1_2() {
        let seed = hex::decode("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60").unwrap();
        let (_, _, pk) = ed_keygen(&seed);
        assert_eq!(hex::encode(pk), "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a");
        assert_eq!(hex::encode(ed_sign(&seed, b"")), "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b");
        assert_eq!(strict_verify(&pk, b"", &ed_sign(&seed, b"")), Verdict::Ok);
        let seed = hex::decode("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb").unwrap();
        assert_eq!(hex::encode(ed_sign(&seed, &[0x72])), "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00");
    }
    #[test]
    fn group() {
        assert!(c().b.mul(l()).is_id());
        assert_eq!(hex::encode(c().b.encode()), "5866666666666666666666666666666666666666666666666666666666666666");
        let mut e: Vec<_> = c().torsion.iter().map(|t| t.encode()).collect();
        e.sort();
        e.dedup();
        assert_eq!(e.len(), 8);
        assert!(c().torsion.iter().all(|t| t.small_order()));
    }
}
