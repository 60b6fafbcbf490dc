//! Input generators shared by the laws. Every value is serde-serializable so that a shrunk failure
//! is a replay file.
use crate::refmath as rm;
use num_bigint_dig::BigUint;
use num_traits::One;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// bytes, written as hex in samples and replay files
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Bs(pub Vec<u8>);
impl fmt::Debug for Bs {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "x{}", hex::encode(&self.0))
    }
}
impl Serialize for Bs {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        hex::decode(s).map(Bs).map_err(serde::de::Error::custom)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct B32(pub [u8; 32]);
impl fmt::Debug for B32 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "x{}", hex::encode(self.0))
    }
}
impl Serialize for B32 {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(self.0))
    }
}
impl<'de> Deserialize<'de> for B32 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b = Bs::deserialize(d)?;
        <[u8; 32]>::try_from(b.0.as_slice()).map(B32).map_err(serde::de::Error::custom)
    }
}
impl B32 {
    pub fn big(&self) -> BigUint {
        rm::lebytes(&self.0)
    }
    pub fn modl(&self) -> BigUint {
        rm::modl(&self.big())
    }
}

/// a part of the bytes replaced by one repeated value: (which part, which value)
fn shape(mut b: Vec<u8>, how: Option<(u8, u16, u8)>) -> Bs {
    if let (Some((part, pos, val)), false) = (how, b.is_empty()) {
        let val = match val % 4 {
            0 | 1 => 0,
            2 => 255,
            _ => val,
        };
        let n = b.len();
        // cut either anywhere or at a multiple of 32
        let at = if pos & 1 == 0 { (pos as usize >> 1) % n } else { (pos as usize >> 1) * 32 % n.max(32) }.min(n);
        let range = match part % 4 {
            0 => 0..n,
            1 => at..n,
            2 => 0..at,
            _ => at..(at + 32).min(n),
        };
        b[range].fill(val);
    }
    Bs(b)
}
fn shapes() -> impl Strategy<Value = Option<(u8, u16, u8)>> {
    prop::option::weighted(0.2, any::<(u8, u16, u8)>())
}
pub fn bytes(max: usize) -> impl Strategy<Value = Bs> {
    (prop::collection::vec(any::<u8>(), 0..=max), shapes()).prop_map(|(b, s)| shape(b, s))
}
pub fn bytes_n(r: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Bs> {
    (prop::collection::vec(any::<u8>(), r), shapes()).prop_map(|(b, s)| shape(b, s))
}
/// short, block-sized and long byte strings
pub fn blob(max: usize) -> impl Strategy<Value = Bs> {
    prop_oneof![3 => bytes(max), 2 => message()]
}
/// 32 bytes, a fifth of them partly or wholly constant
pub fn shaped32() -> impl Strategy<Value = B32> {
    (any::<[u8; 32]>(), shapes()).prop_map(|(b, s)| B32(shape(b.to_vec(), s).0.try_into().unwrap()))
}
pub fn rand32() -> impl Strategy<Value = B32> {
    any::<[u8; 32]>().prop_map(B32)
}

fn special_scalars() -> Vec<[u8; 32]> {
    let l = rm::l();
    let one = BigUint::one();
    let mut v: Vec<BigUint> = vec![];
    for k in 0u32..=15 {
        for d in -2i64..=2 {
            let base = l * k;
            let x = if d < 0 {
                if base >= BigUint::from((-d) as u64) { base - (-d) as u64 } else { continue }
            } else {
                base + d as u64
            };
            v.push(x);
        }
    }
    for e in [1usize, 8, 20, 21, 22, 31, 32, 42, 63, 64, 84, 127, 128, 168, 231, 232, 251, 252, 253, 254, 255] {
        let x = &one << e;
        v.push(&x - 1u32);
        v.push(x.clone());
        v.push(&x + 1u32);
    }
    v.push((l - 1u32) >> 1usize);
    v.push((l + 1u32) >> 1usize);
    v.push((&one << 256usize) - 1u32);
    v.push((&one << 252usize) + (&one << 124usize));
    v.push((&one << 255usize) - 19u32);
    v.retain(|x| x.bits() <= 256);
    let mut v: Vec<[u8; 32]> = v.iter().map(rm::le32).collect();
    // nibble patterns that stress signed radix-16 recoding
    for b in [0x77u8, 0x78, 0x80, 0x87, 0x88, 0x08, 0xf8, 0x8f, 0xff, 0x7f, 0x0f, 0xf0, 0x99, 0x11] {
        v.push([b; 32]);
        let mut a = [b; 32];
        a[31] &= 0x7f;
        v.push(a);
        a[31] &= 0x0f;
        v.push(a);
    }
    v
}

/// any 256-bit operand, biased to limb, order and recoding boundaries
pub fn any_scalar() -> impl Strategy<Value = B32> {
    let sp = special_scalars();
    prop_oneof![
        3 => any::<[u8; 32]>().prop_map(B32),
        3 => prop::sample::select(sp.clone()).prop_map(B32),
        2 => any::<[u8; 32]>().prop_map(|mut b| { b[31] &= 0x0f; B32(b) }),
        // 21-bit limbs that are all zero / all one / one off
        3 => prop::collection::vec((0u8..6, any::<u32>()), 13).prop_map(|ls| {
            let mut n = BigUint::from(0u32);
            for (i, (k, r)) in ls.iter().enumerate() {
                let limb: u32 = match k { 0 => 0, 1 => 0x1fffff, 2 => 0x100000, 3 => 0xfffff, 4 => 1, _ => r & 0x1fffff };
                n += BigUint::from(limb) << (21 * i);
            }
            let mask = (BigUint::one() << 256usize) - 1u32;
            B32(rm::le32(&(n & mask)))
        }),
        // small and sparse
        1 => any::<u16>().prop_map(|x| { let mut b=[0u8;32]; b[..2].copy_from_slice(&x.to_le_bytes()); B32(b) }),
        1 => (0usize..32, any::<u8>(), 0usize..32, any::<u8>()).prop_map(|(i,a,j,b)| { let mut v=[0u8;32]; v[i]=a; v[j]=b; B32(v) }),
        // special plus small perturbation
        1 => (prop::sample::select(sp), 0usize..256).prop_map(|(mut b, k)| { b[k/8] ^= 1 << (k%8); B32(b) }),
    ]
}
/// reduced scalar
pub fn red_scalar() -> impl Strategy<Value = B32> {
    any_scalar().prop_map(|b| B32(rm::sc(&b.big())))
}
/// nonzero reduced
pub fn nz_scalar() -> impl Strategy<Value = B32> {
    red_scalar().prop_map(|b| if b.0 == [0; 32] { let mut x = [0; 32]; x[0] = 1; B32(x) } else { b })
}
/// uniform nonzero key
pub fn key32() -> impl Strategy<Value = B32> {
    any::<[u8; 32]>().prop_map(|b| {
        let n = rm::modl(&rm::lebytes(&b));
        B32(if n == BigUint::from(0u32) { rm::sc(&BigUint::from(7u32)) } else { rm::sc(&n) })
    })
}

/// message lengths around hash-block boundaries
pub fn message() -> impl Strategy<Value = Bs> {
    prop_oneof![
        90 => prop::collection::vec(any::<u8>(), 0..=48),
        60 => (prop::sample::select(vec![0usize,1,31,32,33,47,48,49,63,64,65,79,80,81,95,96,97,111,112,113,127,128,129,175,176,177,255,256,257,1023,1024,1025]), any::<u8>())
            .prop_flat_map(|(n, _)| prop::collection::vec(any::<u8>(), n)),
        30 => (0usize..4096).prop_flat_map(|n| prop::collection::vec(any::<u8>(), n)),
        // beyond 16-bit lengths
        2 => (prop_oneof![4000usize..70_000, 65_530usize..65_545, 131_065usize..131_080], any::<u64>()).prop_map(|(n, seed)| {
            let mut v = vec![0u8; n];
            blake3::Hasher::new().update(&seed.to_le_bytes()).finalize_xof().fill(&mut v);
            v
        }),
    ].prop_flat_map(|b| (Just(b), shapes())).prop_map(|(b, s)| shape(b, s))
}

/// splits bytes into chunks; used to vary call patterns
pub fn chunks(sizes: &[u8], data: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    let mut k = 0;
    while i < data.len() {
        let n = if sizes.is_empty() { data.len() } else { (sizes[k % sizes.len()] as usize % 40).max(1) };
        let e = (i + n).min(data.len());
        out.push(data[i..e].to_vec());
        i = e;
        k += 1;
    }
    out
}

/// a permutation of 0..n determined by keys
pub fn perm(keys: &[u16], n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|&i| (keys.get(i).copied().unwrap_or(0), i));
    v
}
