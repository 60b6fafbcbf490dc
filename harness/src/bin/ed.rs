//! C01 scalar arithmetic, C02 scalar encodings, C03 group law, C04 decoding/equality, C05 embedding
use kv::det::ByteStream;
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::refmath::Pt;
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::scalar::sc_mul_add;
use kyber_rs::group::edwards25519::{FactoredScalar, Point, Scalar, SimpleCTScalar, SuiteEd25519};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::{Group, Point as PointT, Scalar as ScalarT};
use num_bigint_dig::{BigInt, BigUint};
use num_traits::Zero;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Cursor;

// ------------------------------------------------------------------ C01
/// raw access to the three implementations
pub trait Impl: ScalarT {
    fn mk(b: &B32) -> Self;
    fn raw(&self) -> [u8; 32];
}
impl Impl for Scalar {
    fn mk(b: &B32) -> Self {
        Scalar { v: b.0 }
    }
    fn raw(&self) -> [u8; 32] {
        self.v
    }
}
impl Impl for SimpleCTScalar {
    fn mk(b: &B32) -> Self {
        let mut s = SimpleCTScalar::new();
        s.v = b.0;
        s
    }
    fn raw(&self) -> [u8; 32] {
        self.v
    }
}
impl Impl for FactoredScalar {
    fn mk(b: &B32) -> Self {
        let mut s = FactoredScalar::new();
        s.v = b.0;
        s
    }
    fn raw(&self) -> [u8; 32] {
        self.v
    }
}

fn expect(what: &str, got: [u8; 32], want: [u8; 32]) -> Result<(), Fail> {
    if got != want {
        return fail(format!("{what}:wrong"), format!("got {} want {}", hex::encode(got), hex::encode(want)));
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bin {
    a: B32,
    b: B32,
    recv: B32,
}
fn bin() -> impl Strategy<Value = Bin> {
    (any_scalar(), any_scalar(), any_scalar(), 0u8..12).prop_map(|(a, b, recv, k)| {
        // equal and opposite operands
        let b = match k {
            0 => a,
            1 => B32(rm::sc(&rm::subl(&BigUint::zero(), &a.big()))),
            _ => b,
        };
        Bin { a, b, recv }
    })
}

fn scalar_ops<S: Impl>(n: &str, i: &Bin) -> Res {
    let (a, b, r) = (S::mk(&i.a), S::mk(&i.b), S::mk(&i.recv));
    let (x, y) = (i.a.modl(), i.b.modl());
    expect(&format!("{n}.add"), (a.clone() + b.clone()).raw(), rm::sc(&(&x + &y)))?;
    expect(&format!("{n}.mul"), (a.clone() * b.clone()).raw(), rm::sc(&(&x * &y)))?;
    expect(&format!("{n}.sub"), r.clone().sub(&a, &b).raw(), rm::sc(&rm::subl(&x, &y)))?;
    expect(&format!("{n}.neg"), r.clone().neg(&a).raw(), rm::sc(&rm::subl(&BigUint::zero(), &x)))?;
    expect(&format!("{n}.zero"), r.clone().zero().raw(), [0; 32])?;
    expect(&format!("{n}.one"), r.clone().one().raw(), rm::sc(&BigUint::from(1u32)))?;
    ensure_eq!(r.clone().set(&a).raw(), i.a.0, format!("{n}.set:wrong"));
    // operands are left alone
    ensure_eq!(a.raw(), i.a.0, format!("{n}.operand:changed"));
    ensure_eq!(b.raw(), i.b.0, format!("{n}.operand:changed"));
    let nt = i.a.0 != [0; 32] && i.b.0 != [0; 32];
    Ok(Obs::nt(nt)
        .label_if(i.a.big() >= *rm::l() || i.b.big() >= *rm::l(), "unreduced operand")
        .label_if(x == y, "equal residues")
        .label_if(((&x + &y) % rm::l()).is_zero(), "opposite residues")
        .label_if(&x + &y >= *rm::l(), "sum wraps"))
}
fn scalar_div<S: Impl>(n: &str, i: &Bin) -> Res {
    let (a, b, r) = (S::mk(&i.a), S::mk(&i.b), S::mk(&i.recv));
    let (x, y) = (i.a.modl(), i.b.modl());
    if y.is_zero() {
        // no inverse exists: only demand that it returns a canonical value
        let v = nopanic(&format!("{n}.inv0"), || r.clone().inv(&b).raw())?;
        ensure!(rm::lebytes(&v) < *rm::l(), format!("{n}.inv0:range"));
        return Ok(Obs::nt(false).label("zero divisor"));
    }
    expect(&format!("{n}.inv"), r.clone().inv(&b).raw(), rm::sc(&rm::invl(&y)))?;
    expect(&format!("{n}.div"), r.clone().div(&a, &b).raw(), rm::sc(&(&x * rm::invl(&y))))?;
    Ok(Obs::nt(!x.is_zero()).label_if(i.b.big() >= *rm::l(), "unreduced divisor"))
}
fn set_bytes_law<S: Impl>(n: &str, data: &Bs, recv: &B32) -> Res {
    let r = S::mk(recv);
    expect(&format!("{n}.set_bytes"), r.set_bytes(&data.0).raw(), rm::sc(&rm::lebytes(&data.0)))?;
    Ok(Obs::nt(recv.0 != [0; 32] && !data.0.is_empty())
        .label(format!("len{}", match data.0.len() { 0..=31 => "<32", 32 => "=32", _ => ">32" }))
        .label_if(rm::lebytes(&data.0) >= *rm::l(), "needs reduction"))
}
fn set_i64_law<S: Impl>(n: &str, v: i64, recv: &B32) -> Res {
    let r = S::mk(recv);
    expect(&format!("{n}.set_int64"), r.set_int64(v).raw(), rm::sci(&BigInt::from(v)))?;
    Ok(Obs::nt(recv.0 != [0; 32] && v != 0).label_if(v < 0, "negative"))
}
fn any_i64() -> impl Strategy<Value = i64> {
    prop_oneof![any::<i64>(), -300i64..300, prop::sample::select(vec![i64::MIN, i64::MIN + 1, i64::MAX, -1, 0, 1, 255, 256, 257, 65535, 65536, -256, 1 << 32, -(1 << 32)])]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Prog {
    init: Vec<B32>,
    ops: Vec<(u8, u8, u8, u8)>,
}
/// random straight-line programs over four registers against the integer model
fn run_prog<S: Impl>(n: &str, p: &Prog) -> Res {
    let mut regs: Vec<S> = p.init.iter().map(S::mk).collect();
    let mut model: Vec<BigUint> = p.init.iter().map(|b| b.modl()).collect();
    for (k, (op, d, s, t)) in p.ops.iter().enumerate() {
        let (d, s, t) = (*d as usize % 4, *s as usize % 4, *t as usize % 4);
        let (a, b, r) = (regs[s].clone(), regs[t].clone(), regs[d].clone());
        let (x, y) = (model[s].clone(), model[t].clone());
        let (v, m) = match op % 6 {
            0 => (a + b, rm::modl(&(x + y))),
            1 => (a * b, rm::modl(&(x * y))),
            2 => (r.sub(&a, &b), rm::subl(&x, &y)),
            3 => (r.neg(&a), rm::subl(&BigUint::zero(), &x)),
            4 => (a.clone() * a.clone() + b, rm::modl(&(&x * &x + y))),
            _ => (r.set_bytes(&a.raw()), x),
        };
        if v.raw() != rm::sc(&m) {
            return fail(format!("{n}.program:op{}:wrong", op % 6), format!("step {k}: got {} want {}", hex::encode(v.raw()), hex::encode(rm::sc(&m))));
        }
        regs[d] = v;
        model[d] = m;
    }
    Ok(Obs::nt(p.ops.len() >= 2))
}
fn prog() -> impl Strategy<Value = Prog> {
    (prop::collection::vec(any_scalar(), 4), prop::collection::vec(any::<(u8, u8, u8, u8)>(), 1..12)).prop_map(|(init, ops)| Prog { init, ops })
}

pub fn c01() -> Prop {
    let rule_ops = "add, mul, sub, neg, zero, one, set against integers mod L for any 256-bit operands and receiver; non-trivial: neither operand zero";
    Prop {
        id: "C01",
        laws: vec![
            law("ops_scalar", 720_000, 12_000_000, rule_ops, bin, |i| scalar_ops::<Scalar>("Scalar", i)),
            law("ops_simple", 360_000, 6_000_000, rule_ops, bin, |i| scalar_ops::<SimpleCTScalar>("SimpleCTScalar", i)),
            law("ops_factored", 360_000, 6_000_000, rule_ops, bin, |i| scalar_ops::<FactoredScalar>("FactoredScalar", i)),
            law("div_scalar", 72_000, 1_200_000, "inv and div; non-trivial: dividend non-zero and divisor invertible", bin, |i| scalar_div::<Scalar>("Scalar", i)),
            law("div_simple", 24_000, 480_000, "as div_scalar", bin, |i| scalar_div::<SimpleCTScalar>("SimpleCTScalar", i)),
            law("div_factored", 24_000, 480_000, "as div_scalar", bin, |i| scalar_div::<FactoredScalar>("FactoredScalar", i)),
            law(
                "mul_add",
                100_000,
                2_000_000,
                "sc_mul_add on three 256-bit operands; non-trivial: all operands non-zero",
                || (any_scalar(), any_scalar(), any_scalar(), any_scalar()),
                |(a, b, c, s): &(B32, B32, B32, B32)| {
                    let mut o = s.0;
                    sc_mul_add(&mut o, &a.0, &b.0, &c.0);
                    expect("sc_mul_add", o, rm::sc(&(a.big() * b.big() + c.big())))?;
                    Ok(Obs::nt(![a, b, c].iter().any(|x| x.0 == [0; 32])))
                },
            ),
            law(
                "set_bytes",
                60_000,
                800_000,
                "set_bytes of 0..=96 bytes into a dirty receiver, all three implementations; non-trivial: receiver and input non-empty",
                || (prop_oneof![bytes(96).boxed(), any_scalar().prop_map(|b| Bs(b.0.to_vec())).boxed(), (bytes(4), 0usize..64).prop_map(|(b, z)| { let mut v = b.0; v.resize(v.len() + z, 0); Bs(v) }).boxed()], any_scalar()),
                |(d, r): &(Bs, B32)| {
                    set_bytes_law::<SimpleCTScalar>("SimpleCTScalar", d, r)?;
                    set_bytes_law::<FactoredScalar>("FactoredScalar", d, r)?;
                    set_bytes_law::<Scalar>("Scalar", d, r)
                },
            ),
            law(
                "set_int64",
                40_000,
                400_000,
                "set_int64 into a dirty receiver, all three implementations; non-trivial: receiver and value non-zero",
                || (any_i64(), any_scalar()),
                |(v, r): &(i64, B32)| {
                    set_i64_law::<SimpleCTScalar>("SimpleCTScalar", *v, r)?;
                    set_i64_law::<FactoredScalar>("FactoredScalar", *v, r)?;
                    set_i64_law::<Scalar>("Scalar", *v, r)
                },
            ),
            law("program_scalar", 72_000, 1_200_000, "straight-line programs of scalar operations over dirty registers; non-trivial: two or more steps", prog, |p| run_prog::<Scalar>("Scalar", p)),
            law("program_simple", 36_000, 600_000, "as program_scalar", prog, |p| run_prog::<SimpleCTScalar>("SimpleCTScalar", p)),
            law("program_factored", 36_000, 600_000, "as program_scalar", prog, |p| run_prog::<FactoredScalar>("FactoredScalar", p)),
        ],
        assumptions: vec!["num-bigint-dig integer arithmetic is correct"],
    }
}

// ------------------------------------------------------------------ C02
fn rt_bin<S: Impl>(n: &str, b: &B32, recv: &B32) -> Result<(), Fail> {
    let s = S::mk(b);
    let canonical = b.big() < *rm::l();
    let enc = s.marshal_binary().map_err(|e| Fail { sig: format!("{n}.marshal:err"), msg: e.to_string() })?;
    ensure_eq!(enc.len(), 32, format!("{n}.marshal:len"));
    ensure!(rm::modl(&rm::lebytes(&enc)) == b.modl(), format!("{n}.marshal:value"), "{} for {b:?}", hex::encode(&enc));
    ensure_eq!(enc, rm::sc(&b.big()).to_vec(), format!("{n}.marshal:canonical"));
    ensure_eq!(s.marshal_size(), 32, format!("{n}.marshal_size"));
    let mut d = S::mk(recv);
    d.unmarshal_binary(&enc).map_err(|e| Fail { sig: format!("{n}.unmarshal:err"), msg: e.to_string() })?;
    ensure!(rm::modl(&rm::lebytes(&d.raw())) == b.modl(), format!("{n}.unmarshal:value"));
    if canonical {
        ensure!(d == s, format!("{n}.unmarshal:neq"));
    }
    // streamed, with trailing data left unread
    let mut w = vec![];
    s.marshal_to(&mut w).map_err(|e| Fail { sig: format!("{n}.marshal_to:err"), msg: e.to_string() })?;
    ensure_eq!(w.len(), s.marshal_size(), format!("{n}.marshal_to:len"));
    ensure_eq!(w.len(), 32, format!("{n}.marshal_to:len"));
    let mut two = w.clone();
    two.extend_from_slice(&[7; 9]);
    let mut c = Cursor::new(two);
    let mut d = S::mk(recv);
    d.unmarshal_from(&mut c).map_err(|e| Fail { sig: format!("{n}.unmarshal_from:err"), msg: e.to_string() })?;
    ensure_eq!(c.position(), 32, format!("{n}.unmarshal_from:consumed"));
    ensure!(rm::modl(&rm::lebytes(&d.raw())) == b.modl(), format!("{n}.unmarshal_from:value"));
    if canonical {
        ensure!(d == s, format!("{n}.unmarshal_from:neq"));
    }
    // serde
    let bc = bincode::serialize(&s).map_err(|e| Fail { sig: format!("{n}.serde:err"), msg: e.to_string() })?;
    let d: S = bincode::deserialize(&bc).map_err(|e| Fail { sig: format!("{n}.serde:err"), msg: e.to_string() })?;
    ensure!(d == s && d.raw() == s.raw(), format!("{n}.serde:neq"));
    let js = serde_json::to_string(&s).map_err(|e| Fail { sig: format!("{n}.serde_json:err"), msg: e.to_string() })?;
    let d: S = serde_json::from_str(&js).map_err(|e| Fail { sig: format!("{n}.serde_json:err"), msg: e.to_string() })?;
    ensure!(d == s, format!("{n}.serde_json:neq"));
    Ok(())
}
fn hex_forms(n: &str, s: &(impl std::fmt::LowerHex + std::fmt::UpperHex), raw: [u8; 32]) -> Result<(), Fail> {
    let h = hex::encode(raw);
    ensure_eq!(format!("{s:x}"), h, format!("{n}.hex"));
    ensure_eq!(format!("{s:#x}"), format!("0x{h}"), format!("{n}.hex#"));
    ensure_eq!(format!("{s:X}").to_lowercase(), h, format!("{n}.HEX"));
    ensure!(format!("{s:#X}").to_lowercase() == format!("0x{h}"), format!("{n}.HEX#"));
    Ok(())
}
fn wrong_len<S: Impl>(n: &str, data: &[u8], recv: &B32) -> Result<(), Fail> {
    let mut d = S::mk(recv);
    let r = nopanic(&format!("{n}.unmarshal"), || d.unmarshal_binary(data).is_ok())?;
    ensure_eq!(r, data.len() == 32, format!("{n}.unmarshal:length-accept"));
    let mut d = S::mk(recv);
    let r = nopanic(&format!("{n}.unmarshal_from"), || d.unmarshal_from(&mut Cursor::new(data)).is_ok())?;
    ensure_eq!(r, data.len() >= 32, format!("{n}.unmarshal_from:length-accept"));
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        laws: vec![
            law(
                "roundtrip",
                30_000,
                400_000,
                "binary, streamed, bincode, JSON round trips of the three scalar types into a dirty receiver; non-trivial: scalar non-zero",
                || (any_scalar(), any_scalar()),
                |(b, r): &(B32, B32)| {
                    rt_bin::<Scalar>("Scalar", b, r)?;
                    rt_bin::<SimpleCTScalar>("SimpleCTScalar", b, r)?;
                    rt_bin::<FactoredScalar>("FactoredScalar", b, r)?;
                    Ok(Obs::nt(b.0 != [0; 32]).label_if(b.big() >= *rm::l(), "unreduced").label_if(b.0[31] == 0, "high byte zero"))
                },
            ),
            law(
                "hex",
                20_000,
                300_000,
                "hexadecimal renderings are the 32 little-endian bytes, with prefix when alternate, and decode back; non-trivial: scalar non-zero",
                any_scalar,
                |b: &B32| {
                    let b = &B32(rm::sc(&b.big()));
                    hex_forms("Scalar", &Scalar::mk(b), b.0)?;
                    hex_forms("SimpleCTScalar", &SimpleCTScalar::mk(b), b.0)?;
                    hex_forms("FactoredScalar", &FactoredScalar::mk(b), b.0)?;
                    let mut s = Scalar::new();
                    s.unmarshal_binary(&hex::decode(format!("{:x}", Scalar::mk(b))).unwrap()).map_err(|e| Fail { sig: "hex:decode".into(), msg: e.to_string() })?;
                    ensure!(s == Scalar::mk(b), "hex:neq");
                    Ok(Obs::nt(b.0 != [0; 32]))
                },
            ),
            law(
                "length",
                20_000,
                200_000,
                "decoding succeeds exactly for 32 bytes (streams: at least 32); non-trivial: length not 32",
                || (prop_oneof![bytes(80), bytes_n(31..=33)], any_scalar()),
                |(d, r): &(Bs, B32)| {
                    wrong_len::<Scalar>("Scalar", &d.0, r)?;
                    wrong_len::<SimpleCTScalar>("SimpleCTScalar", &d.0, r)?;
                    wrong_len::<FactoredScalar>("FactoredScalar", &d.0, r)?;
                    Ok(Obs::nt(d.0.len() != 32).label(if d.0.len() < 32 { "short" } else { "32+" }))
                },
            ),
            law(
                "canonical",
                200_000,
                3_000_000,
                "is_canonical(b) iff 32 bytes and below L, whatever the receiver; boundary-biased; non-trivial: 32 bytes within the top two nibbles of L",
                || {
                    (
                        prop_oneof![
                            6 => any_scalar().prop_map(|b| Bs(b.0.to_vec())),
                            // agree with L on a prefix (from the top), then differ
                            6 => (0usize..33, any::<u8>(), any::<[u8; 32]>()).prop_map(|(k, x, r)| {
                                let l = rm::le32(rm::l());
                                let mut v = r;
                                for i in 0..32 { if i >= k { v[i] = l[i]; } }
                                if k > 0 && x & 1 == 1 { v[k - 1] = if x & 2 == 2 { l[k - 1].wrapping_add(1) } else { l[k - 1].wrapping_sub(1) }; }
                                Bs(v.to_vec())
                            }),
                            1 => bytes(70),
                        ],
                        any_scalar(),
                    )
                },
                |(d, r): &(Bs, B32)| {
                    let got = nopanic("is_canonical", || Scalar::mk(r).is_canonical(&d.0))?;
                    let want = d.0.len() == 32 && rm::lebytes(&d.0) < *rm::l();
                    ensure!(got == want, format!("is_canonical:{}", if got { "accepts" } else { "rejects" }), "{d:?}: got {got}");
                    Ok(Obs::nt(d.0.len() == 32 && d.0[31] & 0xf0 == 0x10).label(if want { "canonical" } else { "not" }))
                },
            ),
        ],
        assumptions: vec!["a scalar holding an unreduced 32-byte string encodes as its residue"],
    }
}

// ------------------------------------------------------------------ points
/// how to build a point: n*B + torsion[t], with a choice of internal representation
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PtSpec {
    pub n: B32,
    pub t: u8,
    /// 0: decoded (Z=1); 1: sum of two points; 2: difference; 3: from multiplication + torsion; 4: negated
    pub repr: u8,
    pub k: B32,
    /// instead of n*B: the first curve point whose y is at or above this one (sign in the top bit)
    #[serde(default)]
    pub y: Option<B32>,
}
/// y coordinates made of extreme 25/26-bit limbs (the field representation) or 51-bit ones
pub fn struct_y() -> impl Strategy<Value = B32> {
    let fe = |wide: bool| {
        prop::collection::vec((0u8..8, any::<u64>()), 10).prop_map(move |ls| {
            let mut n = BigUint::zero();
            let mut off = 0usize;
            for (i, (k, r)) in ls.iter().enumerate() {
                let w = if wide { 51 } else if i % 2 == 0 { 26 } else { 25 };
                if off >= 255 { break }
                let top = 1u64 << w;
                let limb = match k { 0 => 0, 1 => top - 1, 2 => top >> 1, 3 => (top >> 1) - 1, 4 => 1, 5 => top - 2, 6 => (top >> 1) + 1, _ => r % top };
                n += BigUint::from(limb) << off;
                off += w;
            }
            let b = rm::le32(&(n & ((BigUint::from(1u32) << 256usize) - 1u32)));
            B32(b)
        })
    };
    (
        prop_oneof![
            3 => fe(false),
            2 => fe(true),
            1 => (0u32..2000).prop_map(|k| B32(rm::le32(&(rm::c().p.clone() - 1u32 - k)))),
            1 => (0u32..2000).prop_map(|k| B32(rm::le32(&BigUint::from(k)))),
            1 => any_scalar(),
        ],
        any::<bool>(),
    )
        .prop_map(|(mut b, s)| { b.0[31] &= 0x7f; if s { b.0[31] |= 0x80 } b })
}
/// the first valid encoding at or above y (wrapping at p)
pub fn lift_y(y: &B32) -> Pt {
    let mut yb = y.0;
    let sign = yb[31] & 0x80;
    yb[31] &= 0x7f;
    let mut n = rm::lebytes(&yb) % &rm::c().p;
    loop {
        let mut e = rm::le32(&n);
        e[31] |= sign;
        if let Some(p) = Pt::decode(&e) {
            return p;
        }
        n = (n + 1u32) % &rm::c().p;
    }
}
pub fn pt_spec() -> impl Strategy<Value = PtSpec> {
    (
        prop_oneof![4 => red_scalar(), 1 => Just(B32([0; 32])), 1 => (0u8..20).prop_map(|x| { let mut b = [0; 32]; b[0] = x; B32(b) })],
        prop_oneof![2 => Just(0u8), 1 => 0u8..8],
        0u8..6,
        nz_scalar(),
        prop::option::weighted(0.3, struct_y()),
    )
        .prop_map(|(n, t, repr, k, y)| PtSpec { n, t, repr, k, y })
}
pub fn decode_pt(b: &[u8; 32]) -> Result<Point, Fail> {
    let mut p = Point::new();
    p.unmarshal_binary(b).map_err(|e| Fail { sig: "decode:valid-rejected".into(), msg: format!("{}: {e}", hex::encode(b)) })?;
    Ok(p)
}
impl PtSpec {
    pub fn model(&self) -> Pt {
        self.pre().add(&rm::c().torsion[self.t as usize % 8])
    }
    /// the point without its torsion shift
    fn pre(&self) -> Pt {
        match &self.y {
            Some(y) => lift_y(y),
            None => Pt::base_mul(&self.n.modl()),
        }
    }
    /// the library's version of `pre`
    fn pre_lib(&self, base: Option<&Point>) -> Result<Point, Fail> {
        match &self.y {
            Some(_) => decode_pt(&self.pre().encode()),
            None => Ok(Point::new().mul(&Scalar { v: rm::sc(&self.n.big()) }, base)),
        }
    }
    pub fn is_identity(&self) -> bool {
        self.y.is_none() && self.n.modl().is_zero() && self.t % 8 == 0
    }
    /// the opposite element
    fn negate(&mut self) {
        self.n = B32(rm::sc(&rm::subl(&BigUint::zero(), &self.n.big())));
        self.t = (8 - self.t % 8) % 8;
        if let Some(y) = &self.y {
            let p = lift_y(y);
            self.y = Some(B32(p.neg().encode()));
        }
    }
    /// the library's point for this spec, in the chosen representation
    pub fn build(&self) -> Result<(Point, Pt), Fail> {
        let m = self.model();
        let e = m.encode();
        let p = match self.repr {
            1 => {
                let o = Pt::base_mul(&self.k.big());
                Point::new().add(&decode_pt(&m.sub(&o).encode())?, &decode_pt(&o.encode())?)
            }
            2 => {
                let o = Pt::base_mul(&self.k.big());
                Point::new().sub(&decode_pt(&m.add(&o).encode())?, &decode_pt(&o.encode())?)
            }
            3 => {
                let p = self.pre_lib(None)?;
                let t = decode_pt(&rm::c().torsion[self.t as usize % 8].encode())?;
                Point::new().add(&t, &p)
            }
            4 => {
                let mut o = Point::new();
                o.neg(&decode_pt(&m.neg().encode())?)
            }
            5 => {
                let base = Point::new().base();
                let p = self.pre_lib(Some(&base))?;
                let t = decode_pt(&rm::c().torsion[self.t as usize % 8].encode())?;
                Point::new().sub(&p, &t).add(&p, &t)
            }
            _ => decode_pt(&e)?,
        };
        if enc(&p) != e {
            return fail("build:wrong-point", format!("representation {} of {} encodes as {}", self.repr, hex::encode(e), hex::encode(enc(&p))));
        }
        Ok((p, m))
    }
}
pub fn enc(p: &Point) -> [u8; 32] {
    let v = p.marshal_binary().expect("point encodes");
    <[u8; 32]>::try_from(v.as_slice()).expect("32 bytes")
}
fn same(what: &str, p: &Point, m: &Pt) -> Result<(), Fail> {
    let (a, b) = (enc(p), m.encode());
    if a != b {
        return fail(format!("{what}:wrong"), format!("got {} want {}", hex::encode(a), hex::encode(b)));
    }
    Ok(())
}
/// set the private variable-time flag through serde
pub fn vartime(p: &Point, on: bool) -> Point {
    let mut v = serde_json::to_value(p).expect("serialize");
    if v.get("var_time").is_some() {
        v["var_time"] = serde_json::Value::Bool(on);
    }
    serde_json::from_value(v).unwrap_or(*p)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PP {
    p: PtSpec,
    q: PtSpec,
    r: PtSpec,
    rel: u8,
}
fn pp() -> impl Strategy<Value = PP> {
    (pt_spec(), pt_spec(), pt_spec(), 0u8..12).prop_map(|(p, mut q, r, rel)| {
        match rel {
            0 | 1 => {
                q.n = p.n;
                q.t = p.t;
                q.y = p.y;
            }
            2 | 3 => {
                q.n = p.n;
                q.t = p.t;
                q.y = p.y;
                q.negate();
            }
            _ => {}
        }
        PP { p, q, r, rel }
    })
}
fn add_law(i: &PP) -> Res {
    let (p, mp) = i.p.build()?;
    let (q, mq) = i.q.build()?;
    let (r, _) = i.r.build()?;
    let (ep, eq) = (enc(&p), enc(&q));
    same("add", &r.add(&p, &q), &mp.add(&mq))?;
    same("sub", &r.sub(&p, &q), &mp.sub(&mq))?;
    let mut rr = r;
    let res = rr.neg(&p);
    same("neg", &res, &mp.neg())?;
    same("neg.receiver", &rr, &mp.neg())?;
    same("null", &r.null(), &Pt::id())?;
    same("base", &r.base(), &rm::c().b)?;
    let mut rr = r;
    let res = rr.set(&p);
    same("set", &res, &mp)?;
    same("set.receiver", &rr, &mp)?;
    // aliased receiver
    same("add.alias", &p.add(&p, &q), &mp.add(&mq))?;
    same("sub.alias", &q.sub(&p, &q), &mp.sub(&mq))?;
    ensure!(enc(&p) == ep && enc(&q) == eq, "operand:changed");
    Ok(Obs::nt(!i.p.is_identity() && !i.q.is_identity())
        .label_if(mp == mq, "equal")
        .label_if(mp.add(&mq).is_id(), "opposite")
        .label_if(mp.is_id() || mq.is_id(), "identity operand")
        .label_if(mp.small_order() || mq.small_order(), "small-order operand")
        .label_if(i.p.t != 0 || i.q.t != 0, "torsion component")
        .label_if(i.p.y.is_some() || i.q.y.is_some(), "structured y"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct MulIn {
    s: B32,
    p: PtSpec,
    r: PtSpec,
}
fn mul_scalar_strat() -> impl Strategy<Value = B32> {
    any_scalar()
}
fn mul_law(i: &MulIn) -> Res {
    let (p, mp) = i.p.build()?;
    let (r, _) = i.r.build()?;
    let s = Scalar { v: i.s.0 };
    let n = i.s.big();
    let hi = if i.s.0[31] > 127 { ":>=2^255" } else { "" };
    let want = mp.mul(&n);
    same(&format!("mul.const{hi}"), &r.mul(&s, Some(&p)), &want)?;
    same(&format!("mul.alias{hi}"), &p.mul(&s, Some(&p)), &want)?;
    let vt = vartime(&r, true);
    same(&format!("mul.vartime{hi}"), &vt.mul(&s, Some(&p)), &want)?;
    let vp = vartime(&p, true);
    same(&format!("mul.vartime-alias{hi}"), &vp.mul(&s, Some(&vp)), &want)?;
    Ok(Obs::nt(!mp.is_id() && !n.is_zero())
        .label_if(n >= *rm::l(), "scalar >= L")
        .label_if(i.s.0[31] > 127, "scalar >= 2^255")
        .label_if(mp.small_order(), "small-order point")
        .label_if(!mp.small_order() && i.p.t != 0, "mixed-order point"))
}
fn base_law(i: &(B32, PtSpec)) -> Res {
    let s = Scalar { v: i.0 .0 };
    let n = i.0.big();
    let (r, _) = i.1.build()?;
    let hi = if i.0 .0[31] > 127 { ":>=2^255" } else { "" };
    let want = Pt::base_mul(&n);
    same(&format!("mul.base{hi}"), &r.mul(&s, None), &want)?;
    same(&format!("mul.base-vartime-receiver{hi}"), &vartime(&r, true).mul(&s, None), &want)?;
    let b = Point::new().base();
    same(&format!("mul.base-explicit{hi}"), &r.mul(&s, Some(&b)), &want)?;
    Ok(Obs::nt(!n.is_zero()).label_if(n >= *rm::l(), "scalar >= L").label_if(i.0 .0[31] > 127, "scalar >= 2^255"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PProg {
    init: Vec<PtSpec>,
    sc: Vec<B32>,
    ops: Vec<(u8, u8, u8, u8)>,
}
fn pprog_law(p: &PProg) -> Res {
    let mut regs = vec![];
    let mut model = vec![];
    for s in &p.init {
        let (a, m) = s.build()?;
        regs.push(a);
        model.push(m);
    }
    for (k, (op, d, s, t)) in p.ops.iter().enumerate() {
        let (d, s, t) = (*d as usize % 3, *s as usize % 3, *t as usize % 3);
        let (a, b) = (regs[s], regs[t]);
        let (x, y) = (model[s].clone(), model[t].clone());
        let sc = &p.sc[k % p.sc.len()];
        let (v, m) = match op % 6 {
            0 | 1 => (regs[d].add(&a, &b), x.add(&y)),
            2 => (regs[d].sub(&a, &b), x.sub(&y)),
            3 => {
                let mut r = regs[d];
                (r.neg(&a), x.neg())
            }
            4 => (regs[d].add(&a, &a), x.add(&x)),
            _ => (regs[d].mul(&Scalar { v: sc.0 }, Some(&a)), x.mul(&sc.big())),
        };
        regs[d] = v;
        model[d] = m;
    }
    for d in 0..3 {
        same("program", &regs[d], &model[d])?;
    }
    Ok(Obs::nt(p.ops.len() >= 3))
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        laws: vec![
            law("add_sub_neg", 7_200, 500_000, "add, sub, neg, null, base, set against an affine-checked extended-coordinate model; operands in several projective representations; non-trivial: neither operand the identity", pp, add_law),
            law(
                "mul_point",
                14_000,
                300_000,
                "variable-base multiplication, constant-time and variable-time, any 256-bit scalar, any receiver; non-trivial: scalar non-zero, point not the identity",
                || (mul_scalar_strat(), pt_spec(), pt_spec()).prop_map(|(s, p, r)| MulIn { s, p, r }),
                mul_law,
            ),
            law("mul_base", 15_000, 1_000_000, "fixed-base multiplication; non-trivial: scalar non-zero", || (mul_scalar_strat(), pt_spec()), base_law),
            law(
                "program",
                4_000,
                80_000,
                "straight-line programs of point operations over three registers; non-trivial: three or more steps",
                || (prop::collection::vec(pt_spec(), 3), prop::collection::vec(red_scalar(), 1..4), prop::collection::vec(any::<(u8, u8, u8, u8)>(), 1..14)).prop_map(|(init, sc, ops)| PProg { init, sc, ops }),
                pprog_law,
            ),
        ],
        assumptions: vec!["the BigUint reference group law (checked against RFC 8032 vectors in refmath tests)"],
    }
}

// ------------------------------------------------------------------ C04
/// candidate encodings
fn enc_cand() -> impl Strategy<Value = Bs> {
    prop_oneof![
        6 => any::<[u8; 32]>().prop_map(|b| Bs(b.to_vec())),
        // every non-canonical y, values near p, torsion encodings with either sign
        4 => (0u32..40, any::<bool>()).prop_map(|(k, s)| {
            let n = (rm::c().p.clone() + 20u32) - k; // p+20 .. p-19
            let n = if n.bits() > 255 { n - 20u32 } else { n };
            let mut b = rm::le32(&n);
            if s { b[31] |= 0x80 }
            Bs(b.to_vec())
        }),
        2 => (0usize..8, any::<bool>()).prop_map(|(t, s)| { let mut b = rm::c().torsion[t].encode(); if s { b[31] ^= 0x80 } Bs(b.to_vec()) }),
        2 => (0u8..=255, any::<bool>()).prop_map(|(k, s)| { let mut b=[0u8;32]; b[0]=k; if s { b[31]|=0x80 } Bs(b.to_vec()) }),
        2 => (0u8..=255, any::<bool>()).prop_map(|(k, s)| { let mut b=[0xffu8;32]; b[0]=k; b[31]=0x7f; if s { b[31]|=0x80 } Bs(b.to_vec()) }),
        4 => struct_y().prop_map(|y| Bs(y.0.to_vec())),
        2 => struct_y().prop_map(|y| Bs(lift_y(&y).encode().to_vec())),
        // one byte away from the encodings of the small-order points
        6 => near_small(),
        2 => (pt_spec(), 0usize..256, any::<bool>()).prop_map(|(p, k, f)| { let mut b = p.model().encode(); if f { b[k/8] ^= 1<<(k%8); } Bs(b.to_vec()) }),
        1 => bytes(70),
        1 => bytes_n(31..=33),
    ]
}
fn near_small() -> impl Strategy<Value = Bs> {
    (0usize..8, 0usize..32, any::<u8>(), any::<bool>()).prop_map(|(t, k, x, s)| {
        let mut b = rm::c().torsion[t].encode();
        b[k] ^= x;
        if s {
            b[31] ^= 0x80
        }
        Bs(b.to_vec())
    })
}
fn limbs_in_range(p: &Point) -> Option<bool> {
    let v = serde_json::to_value(p).ok()?;
    Some(v.get("ge").is_some())
}
fn decode_law(i: &(Bs, PtSpec)) -> Res {
    let (d, r) = (&i.0 .0, &i.1);
    let (recv, _) = r.build()?;
    let want = Pt::decode(d);
    let mut p = recv;
    let ok = nopanic("unmarshal", || p.unmarshal_binary(d).is_ok())?;
    ensure!(ok == want.is_some(), format!("unmarshal:{}", if ok { "accepts-invalid" } else { "rejects-valid" }), "{:?}", i.0);
    if let Some(m) = &want {
        same("unmarshal", &p, m)?;
        // fully usable: doubling agrees (T coordinate consistent)
        same("unmarshal.double", &Point::new().add(&p, &p), &m.add(m))?;
        ensure!(p.has_small_order() == m.small_order(), format!("has_small_order:{}", if m.small_order() { "misses" } else { "false" }), "{:?}", i.0);
    } else {
        // nothing invalid is left behind
        let e = enc(&p);
        let m = Pt::decode(&e);
        ensure!(m.is_some() && m.as_ref().unwrap().encode() == e, "unmarshal:invalid-left-behind", "receiver after a rejected decode encodes as {}", hex::encode(e));
        let m = m.unwrap();
        ensure!(enc(&Point::new().add(&p, &p)) == m.add(&m).encode(), "unmarshal:invalid-left-behind", "receiver after a rejected decode is not on the curve");
    }
    // stream
    let mut p = recv;
    let mut cur = Cursor::new(d.clone());
    let ok = nopanic("unmarshal_from", || p.unmarshal_from(&mut cur).is_ok())?;
    let want2 = if d.len() >= 32 { Pt::decode(&d[..32]) } else { None };
    ensure!(ok == want2.is_some(), format!("unmarshal_from:{}", if ok { "accepts-invalid" } else { "rejects-valid" }), "{:?}", i.0);
    if let Some(m) = &want2 {
        same("unmarshal_from", &p, m)?;
        ensure_eq!(cur.position(), 32, "unmarshal_from:consumed");
        // encodings are canonical and re-decode to the same element
        let e = enc(&p);
        let mut q = Point::new();
        ensure!(q.unmarshal_binary(&e).is_ok() && q == p, "roundtrip:binary");
        let mut w = vec![];
        p.marshal_to(&mut w).map_err(|e| Fail { sig: "marshal_to:err".into(), msg: e.to_string() })?;
        ensure_eq!(w, e.to_vec(), "marshal_to:bytes");
        ensure_eq!(p.marshal_size(), 32, "marshal_size");
        hex_forms("Point", &p, e)?;
        let b: Point = bincode::deserialize(&bincode::serialize(&p).unwrap()).map_err(|e| Fail { sig: "serde:rejects-valid".into(), msg: e.to_string() })?;
        ensure!(b == p, "serde:neq");
        same("serde", &b, m)?;
        same("serde.double", &Point::new().add(&b, &b), &m.add(m))?;
        let b: Point = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| Fail { sig: "serde_json:rejects-valid".into(), msg: e.to_string() })?;
        ensure!(b == p, "serde_json:neq");
    }
    // predicates
    let pc = nopanic("is_canonical", || recv.is_canonical(d))?;
    let wc = rm::y_canonical(d);
    ensure!(pc == wc, format!("point.is_canonical:{}", if pc { "accepts" } else { "rejects" }), "{:?} got {pc}", i.0);
    Ok(Obs::nt(d.len() == 32)
        .label(if want.is_some() { "valid" } else { "invalid" })
        .label_if(d.len() == 32 && !wc, "y >= p")
        .label_if(want.as_ref().is_some_and(|m| m.small_order()), "small order")
        .label_if(d.len() != 32, "wrong length")
        .label_if(limbs_in_range(&recv).is_none(), "opaque serde"))
}
fn h(p: &Point) -> u64 {
    let mut s = DefaultHasher::new();
    p.hash(&mut s);
    s.finish()
}
fn eq_law(i: &PP) -> Res {
    let (p, mp) = i.p.build()?;
    let (q, mq) = i.q.build()?;
    let same_el = mp == mq;
    ensure!((p == q) == same_el, format!("eq:{}", if same_el { "misses" } else { "false" }), "{} {}", hex::encode(enc(&p)), hex::encode(enc(&q)));
    ensure!((enc(&p) == enc(&q)) == same_el, "encode:not-injective");
    ensure!(p == p && !(p != p), "eq:reflexive");
    ensure!((q == p) == same_el, "eq:symmetric");
    use std::cmp::Ordering;
    ensure!((p.cmp(&q) == Ordering::Equal) == same_el, format!("ord:{}", if same_el { "equal-points-ordered" } else { "distinct-points-equal" }), "{:?}", p.cmp(&q));
    ensure!(p.partial_cmp(&q) == Some(p.cmp(&q)), "ord:partial");
    ensure!(p.cmp(&q) == q.cmp(&p).reverse(), "ord:antisymmetric");
    // the order only depends on the element
    let (p2, q2) = (decode_pt(&mp.encode())?, decode_pt(&mq.encode())?);
    ensure!(p.cmp(&q) == p2.cmp(&q2), "ord:representation");
    if same_el {
        ensure!(h(&p) == h(&q), "hash:differs");
    }
    ensure!(vartime(&p, true) == p, "eq:vartime-flag");
    ensure!((vartime(&p, true).cmp(&q) == Ordering::Equal) == same_el, "ord:vartime-flag");
    // small-order predicate
    ensure!(p.has_small_order() == mp.small_order(), format!("has_small_order:{}", if mp.small_order() { "misses" } else { "false" }), "{}", hex::encode(enc(&p)));
    Ok(Obs::nt(same_el || i.rel < 4).label(if same_el { "same element" } else { "different" }).label_if(mp.small_order(), "small order"))
}
/// serde images: structurally valid but mostly not points
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Limbs {
    p: PtSpec,
    edits: Vec<(u8, u8, i32)>,
    which: u8,
}
fn edit_json(v: &mut serde_json::Value, i: &Limbs) {
    fn leaves<'a>(v: &'a mut serde_json::Value, out: &mut Vec<&'a mut serde_json::Value>) {
        match v {
            serde_json::Value::Number(_) => out.push(v),
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, out)),
            serde_json::Value::Object(o) => o.values_mut().for_each(|x| leaves(x, out)),
            _ => {}
        }
    }
    let mut l = vec![];
    leaves(v, &mut l);
    let n = l.len();
    if n == 0 {
        return;
    }
    for (a, _b, x) in &i.edits {
        let leaf = &mut l[*a as usize % n];
        let cur = leaf.as_i64().unwrap_or(0);
        **leaf = match i.which % 3 {
            0 => serde_json::json!((cur as i32).wrapping_add(*x)),
            1 => serde_json::json!(*x),
            _ => serde_json::json!((cur as i32) ^ (1 << (*x as u32 % 31))),
        };
    }
}
fn serde_hostile(i: &Limbs) -> Res {
    let (p, _) = i.p.build()?;
    let mut v = serde_json::to_value(&p).unwrap();
    edit_json(&mut v, i);
    let r = nopanic("serde", || serde_json::from_value::<Point>(v.clone()).ok())?;
    let Some(q) = r else { return Ok(Obs::nt(true).label("rejected")) };
    // accepted: must be a curve point
    let e = enc(&q);
    let m = Pt::decode(&e);
    ensure!(m.is_some() && m.as_ref().unwrap().encode() == e, "serde:accepts-invalid", "{v}");
    let m = m.unwrap();
    ensure!(enc(&Point::new().add(&q, &q)) == m.add(&m).encode(), "serde:accepts-invalid", "not on the curve: {v}");
    let b = Point::new().base();
    ensure!(enc(&Point::new().add(&b, &q)) == m.add(&rm::c().b).encode(), "serde:accepts-invalid", "not on the curve: {v}");
    Ok(Obs::nt(true).label("accepted"))
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        laws: vec![
            law("decode", 26_000, 500_000, "candidate encodings (random, non-canonical y, near p, torsion, bit-flipped, wrong length) through every route; non-trivial: 32 bytes", || (enc_cand(), pt_spec()), decode_law),
            law("equality", 16_000, 300_000, "Eq, Ord, Hash, encoding and small-order predicate of pairs of points in different representations; non-trivial: related pairs (equal or opposite)", pp, eq_law),
            law(
                "serde_hostile",
                8_000,
                150_000,
                "serde images with edited limbs either fail to decode or decode to a curve point; non-trivial: all",
                || (pt_spec(), prop::collection::vec((any::<u8>(), any::<u8>(), prop_oneof![-5i32..5, any::<i32>(), (-(1i32 << 25))..(1 << 25)]), 1..4), 0u8..3).prop_map(|(p, edits, which)| Limbs { p, edits, which }),
                serde_hostile,
            ),
        ],
        assumptions: vec!["decoding is the usual lenient Ed25519 decoding: y is reduced modulo p and the sign of x=0 is ignored; canonicity is a separate predicate", "the identity is counted as a small-order point"],
    }
}

// ------------------------------------------------------------------ C05
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Emb {
    data: Bs,
    stream: Bs,
    recv: PtSpec,
}
fn embed_law(i: &Emb) -> Res {
    let suite = SuiteEd25519::new_blake3_sha256_ed25519();
    let (recv, _) = i.recv.build()?;
    let cap = recv.embed_len();
    ensure!(cap == 29 && suite.point().embed_len() == 29, "embed_len", "{cap}");
    let mut st = ByteStream::new(&i.stream.0);
    let p = nopanic("embed", || recv.embed(Some(&i.data.0), &mut st))?;
    let e = enc(&p);
    let m = Pt::decode(&e);
    ensure!(m.is_some(), "embed:invalid-point");
    let m = m.unwrap();
    ensure!(m.prime_subgroup(), "embed:outside-subgroup", "{}", hex::encode(e));
    ensure!(enc(&Point::new().add(&p, &p)) == m.add(&m).encode(), "embed:inconsistent-point");
    let n = i.data.0.len().min(cap);
    let out = nopanic("data", || p.data())?;
    match out {
        Ok(d) => ensure!(d == i.data.0[..n], "embed:data-differs", "{} vs {:?}", hex::encode(&d), i.data),
        Err(e) => return fail("embed:data-error", e.to_string()),
    }
    let q = decode_pt(&e)?;
    ensure!(q.data().ok().as_deref() == Some(&i.data.0[..n]), "embed:lost-by-encoding");
    // stateless: depends on stream only, not on the receiver
    let mut st2 = ByteStream::new(&i.stream.0);
    ensure!(Point::new().embed(Some(&i.data.0), &mut st2) == p, "embed:receiver-dependent");
    ensure!(st.pos == st2.pos, "embed:stream-consumption");
    Ok(Obs::nt(!i.data.0.is_empty()).label(match i.data.0.len() { 0 => "empty", 1..=28 => "short", 29 => "full", _ => "truncated" }))
}
fn pick_law(i: &(Bs, PtSpec)) -> Res {
    let (recv, _) = i.1.build()?;
    let mut st = ByteStream::new(&i.0 .0);
    let p = nopanic("pick", || recv.pick(&mut st))?;
    let m = match Pt::decode(&enc(&p)) {
        Some(m) => m,
        None => return fail("pick:invalid-point", hex::encode(enc(&p))),
    };
    ensure!(m.prime_subgroup(), "pick:outside-subgroup");
    ensure!(!m.is_id(), "pick:identity");
    // documented rule: first 32-byte block of the stream that decodes, times the cofactor
    let mut st2 = ByteStream::new(&i.0 .0);
    let want = loop {
        let b: Vec<u8> = (0..32).map(|_| st2.next()).collect();
        if let Some(x) = Pt::decode(&b) {
            let x = x.mul(&BigUint::from(8u32));
            if !x.is_id() {
                break x;
            }
        }
    };
    same("pick", &p, &want)?;
    ensure!(st.pos == st2.pos, "pick:stream-consumption", "{} {}", st.pos, st2.pos);
    let mut st3 = ByteStream::new(&i.0 .0);
    ensure!(Point::new().pick(&mut st3) == p, "pick:receiver-dependent");
    let mut st3 = ByteStream::new(&i.0 .0);
    let mut q = recv;
    nopanic("unmarshal_from_random", || q.unmarshal_from_random(&mut st3))?;
    ensure!(q == p, "unmarshal_from_random:wrong");
    let c = kyber_rs::group::edwards25519::Curve::new();
    ensure!(kyber_rs::Group::point_len(&c) == 32 && kyber_rs::Group::scalar_len(&c) == 32, "lengths");
    // a different stream gives a different point
    let mut o = i.0 .0.clone();
    o.push(1);
    let mut st4 = ByteStream::new(&o);
    let other = Point::new().pick(&mut st4);
    if i.0 .0.len() < 32 {
        ensure!(other != p, "pick:ignores-stream");
    }
    Ok(Obs::nt(true).label_if(st.pos > 32, "retried"))
}
fn data_law(i: &(PtSpec, u8)) -> Res {
    let (p, m) = i.0.build()?;
    let e = m.encode();
    let d = nopanic("data", || p.data())?;
    match d {
        Ok(v) => {
            ensure!(v.len() <= 29, "data:too-long");
            ensure!(e[0] as usize == v.len() && e[1..1 + v.len()] == v[..], "data:wrong-bytes");
        }
        Err(_) => ensure!(e[0] > 29, "data:spurious-error", "{}", hex::encode(e)),
    }
    Ok(Obs::nt(true).label_if(e[0] <= 29, "has data"))
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        laws: vec![
            law(
                "embed",
                2_500,
                60_000,
                "data of 0..=40 bytes embedded with a generated stream into a dirty receiver; non-trivial: data non-empty",
                || (prop_oneof![bytes(40), bytes_n(28..=30), (any::<u8>(), 0usize..40).prop_map(|(b, n)| Bs(vec![b; n]))], bytes(64), pt_spec()).prop_map(|(data, stream, recv)| Emb { data, stream, recv }),
                embed_law,
            ),
            law("pick", 6_000, 200_000, "pick against the documented rule on the stream; non-trivial: all", || (prop_oneof![bytes(96), (0usize..8, bytes(40)).prop_map(|(t, b)| { let mut v = rm::c().torsion[t].encode().to_vec(); v.extend(b.0); Bs(v) })], pt_spec()), pick_law),
            law("data", 10_000, 400_000, "data() of any point; non-trivial: all", || (pt_spec(), any::<u8>()), data_law),
        ],
        assumptions: vec!["the reference subgroup test multiplies by L in BigUint arithmetic"],
    }
}

fn main() {
    kv::cli::main(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05)]);
}
