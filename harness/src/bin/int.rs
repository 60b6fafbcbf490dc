//! C06 modular integers compute exactly, C07 modular integer encodings
use kv::fw::*;
use kv::gen::*;
use kv::refmath as rm;
use kv::{ensure, ensure_eq};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::Scalar as ScalarT;
use num_bigint_dig::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::io::Cursor;

/// exact view of an Int through its serialized form
#[derive(Deserialize, Debug)]
struct Mirror {
    v: BigInt,
    m: BigInt,
}
fn view(i: &Int) -> (BigInt, BigInt) {
    let m: Mirror = serde_json::from_value(serde_json::to_value(i).unwrap()).expect("Int serializes its value and modulus");
    (m.v, m.m)
}
fn big(b: &Bs) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, &b.0)
}
fn expect(what: &str, got: &Int, want: &BigInt, m: &BigInt) -> Result<(), Fail> {
    let (v, gm) = view(got);
    let w = want.mod_floor(m);
    if gm != *m {
        return fail(format!("{what}:modulus"), format!("modulus {gm} want {m}"));
    }
    if v != w {
        return fail(format!("{what}:wrong"), format!("got {v} want {w} modulo {m}"));
    }
    Ok(())
}

const PRIMES: &[u64] = &[2, 3, 5, 7, 11, 13, 17, 31, 97, 101, 127, 193, 241, 251, 257, 641, 769, 12289, 40961, 65521, 65537, 786433, 998244353, 2147483647, 4294967291, 4294967311, 18446744073709551557];
fn big_primes() -> Vec<BigInt> {
    let one = BigUint::one();
    let mut v: Vec<BigUint> = PRIMES.iter().map(|p| BigUint::from(*p)).collect();
    v.push((&one << 127usize) - 1u32);
    v.push((&one << 255usize) - 19u32);
    v.push((&one << 521usize) - 1u32);
    v.push((&one << 130usize) - 5u32);
    v.push((&one << 224usize) - (&one << 96usize) + 1u32); // p224, 2-adicity 96
    v.push(rm::l().clone());
    v.into_iter().map(|u| BigInt::from_biguint(Sign::Plus, u)).collect()
}
/// modulus of at least two
fn modulus() -> impl Strategy<Value = Bs> {
    prop_oneof![
        4 => prop::sample::select(big_primes()).prop_map(|p| Bs(p.to_bytes_be().1)),
        2 => (2u64..2000).prop_map(|p| Bs(BigInt::from(p).to_bytes_be().1)),
        1 => (1usize..300).prop_map(|k| Bs((BigInt::one() << k).to_bytes_be().1)),
        1 => (1usize..300).prop_map(|k| { let x: BigInt = BigInt::one() << k; Bs((x + BigInt::one()).to_bytes_be().1) }),
        3 => prop::collection::vec(any::<u8>(), 1..48).prop_map(|mut v| { v[0] |= 1; if v.len() == 1 { v[0] |= 2 } Bs(v) }),
        1 => Just(Bs((rm::c().p.clone()).to_bytes_be())),
    ]
}
/// a value relative to the modulus, with sign
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Val {
    raw: Bs,
    rel: u8,
    k: i8,
}
fn val() -> impl Strategy<Value = Val> {
    (bytes(56), 0u8..8, -5i8..6).prop_map(|(raw, rel, k)| Val { raw, rel, k })
}
impl Val {
    fn big(&self, m: &BigInt) -> BigInt {
        match self.rel {
            0 => m * BigInt::from(self.k),
            1 => m * BigInt::from(self.k) + 1,
            2 => m * BigInt::from(self.k) - 1,
            3 => -big(&self.raw),
            4 => BigInt::from(self.k),
            5 => big(&self.raw).mod_floor(m),
            _ => big(&self.raw),
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ring {
    m: Bs,
    a: Val,
    b: Val,
    /// receiver's value and modulus
    r: Val,
    rm: Bs,
    same: bool,
    le: bool,
}
fn ring() -> impl Strategy<Value = Ring> {
    (modulus(), val(), val(), val(), modulus(), any::<bool>(), any::<bool>()).prop_map(|(m, a, b, r, rm, same, le)| Ring { m, a, b, r, rm, same, le })
}
impl Ring {
    fn recv(&self) -> (Int, BigInt) {
        let rmod = if self.same { big(&self.m) } else { big(&self.rm) };
        let v = self.r.big(&rmod);
        let mut i = Int::new_int(v, rmod.clone());
        let order = bool::from(ByteOrder::from(self.le));
        i.bo = ByteOrder::from(order);
        (i, rmod)
    }
}
fn ring_law(i: &Ring) -> Res {
    let m = big(&i.m);
    let (av, bv) = (i.a.big(&m), i.b.big(&m));
    let a = Int::new_int(av.clone(), m.clone());
    let b = Int::new_int(bv.clone(), m.clone());
    expect("new_int", &a, &av, &m)?;
    let (r, rmod) = i.recv();
    expect("add", &(a.clone() + b.clone()), &(&av + &bv), &m)?;
    expect("add.ref", &(&a + &b), &(&av + &bv), &m)?;
    expect("mul", &(a.clone() * b.clone()), &(&av * &bv), &m)?;
    expect("sub", &r.clone().sub(&a, &b), &(&av - &bv), &m)?;
    expect("neg", &r.clone().neg(&a), &-&av, &m)?;
    expect("set", &r.clone().set(&a), &av, &m)?;
    expect("zero", &r.clone().zero(), &BigInt::zero(), &rmod)?;
    expect("one", &r.clone().one(), &BigInt::one(), &rmod)?;
    let unit = bv.mod_floor(&m).gcd(&m).is_one() && !bv.mod_floor(&m).is_zero();
    if unit {
        let inv = inverse(&bv.mod_floor(&m), &m);
        expect("inv", &nopanic("inv", || r.clone().inv(&b))?, &inv, &m)?;
        expect("div", &nopanic("div", || r.clone().div(&a, &b))?, &(&av * &inv), &m)?;
        expect("div.alias", &a.clone().div(&a, &b), &(&av * &inv), &m)?;
    }
    // comparison
    let (x, y) = (av.mod_floor(&m), bv.mod_floor(&m));
    ensure_eq!(a.equal(&b), x == y, "equal");
    ensure_eq!(a == b, x == y, "eq");
    ensure_eq!(a.cmpr(&b), x.cmp(&y), "cmpr");
    ensure_eq!(a.cmp(&b), x.cmp(&y), "cmp");
    ensure_eq!(a.partial_cmp(&b), Some(x.cmp(&y)), "partial_cmp");
    ensure_eq!(a.nonzero(), !x.is_zero(), "nonzero");
    // operands untouched
    expect("operand", &a, &av, &m)?;
    expect("operand", &b, &bv, &m)?;
    Ok(Obs::nt(!x.is_zero() && !y.is_zero())
        .label_if(unit, "divisor invertible")
        .label_if(av.is_negative() || bv.is_negative(), "negative input")
        .label_if(x == y, "equal")
        .label_if(x.cmp(&y) == Ordering::Less, "borrow")
        .label_if(m.bits() > 64, "big modulus"))
}
fn inverse(a: &BigInt, m: &BigInt) -> BigInt {
    // extended Euclid
    let (mut r0, mut r1) = (m.clone(), a.clone());
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1;
        r0 = r1;
        r1 = r;
        let t = &t0 - &q * &t1;
        t0 = t1;
        t1 = t;
    }
    t0.mod_floor(m)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct SetIn {
    ring: Ring,
    i: i64,
    u: u64,
    bytes: Bs,
    base: u8,
}
fn set_law(i: &SetIn) -> Res {
    let (r, m) = i.ring.recv();
    expect("set_int64", &r.clone().set_int64(i.i), &BigInt::from(i.i), &m)?;
    expect("new_int64", &Int::new_int64(i.i, m.clone()), &BigInt::from(i.i), &m)?;
    expect("init64", &r.clone().init64(i.i, m.clone()), &BigInt::from(i.i), &m)?;
    expect("set_uint64", &r.set_uint64(i.u), &BigInt::from(i.u), &m)?;
    let bytes_val = if i.ring.le { BigInt::from_bytes_le(Sign::Plus, &i.bytes.0) } else { BigInt::from_bytes_be(Sign::Plus, &i.bytes.0) };
    expect("set_bytes", &r.clone().set_bytes(&i.bytes.0), &bytes_val, &m)?;
    expect("new_int_bytes", &Int::new_int_bytes(&i.bytes.0, &m, ByteOrder::from(i.ring.le)), &bytes_val, &m)?;
    expect("init_bytes", &r.clone().init_bytes(&i.bytes.0, &m, ByteOrder::from(i.ring.le)), &bytes_val, &m)?;
    // u64 views
    let x = BigInt::from(i.u).mod_floor(&m);
    let ux = Int::new_int(x.clone(), m.clone());
    ensure_eq!(BigInt::from(ux.uint64()), x, "uint64");
    ensure_eq!(ux.int64(), ux.uint64() as i64, "int64");
    // strings: n or n/d in a base
    let base = 2 + (i.base % 35) as u32;
    let n = i.ring.a.big(&m);
    let d = i.ring.b.big(&m);
    let ns = n.to_str_radix(base);
    expect("set_string", &r.clone().set_string(ns.clone(), String::new(), base as i32).map_err(|e| Fail { sig: "set_string:err".into(), msg: e.to_string() })?, &n, &m)?;
    expect("new_int_string", &Int::new_int_string(ns.clone(), String::new(), base as i32, &m), &n, &m)?;
    let dm = d.mod_floor(&m);
    let unit = dm.gcd(&m).is_one() && !dm.is_zero();
    if unit {
        let want = &n * inverse(&dm, &m);
        expect("set_string.frac", &r.clone().set_string(ns.clone(), d.to_str_radix(base), base as i32).map_err(|e| Fail { sig: "set_string.frac:err".into(), msg: e.to_string() })?, &want, &m)?;
        expect("new_int_string.frac", &Int::new_int_string(ns, d.to_str_radix(base), base as i32, &m), &want, &m)?;
    }
    ensure!(r.clone().set_string("zz!".into(), String::new(), 10).is_err(), "set_string:accepts-garbage");
    Ok(Obs::nt(i.i != 0 && i.u != 0 && !i.bytes.0.is_empty()).label_if(i.i < 0, "negative").label_if(unit, "fraction").label_if(i.ring.le, "little endian"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ExpIn {
    m: Bs,
    a: Val,
    e: Bs,
    neg: bool,
    r: Ring,
}
fn exp_law(i: &ExpIn) -> Res {
    let m = big(&i.m);
    let av = i.a.big(&m).mod_floor(&m);
    let a = Int::new_int(av.clone(), m.clone());
    let unit = av.gcd(&m).is_one() && !av.is_zero();
    let neg = i.neg && unit;
    let eb = BigUint::from_bytes_be(&i.e.0);
    let (r, _) = i.r.recv();
    // reference: square and multiply
    let basis = if neg { inverse(&av, &m) } else { av.clone() };
    let mut acc = BigInt::one().mod_floor(&m);
    for byte in eb.to_bytes_be() {
        for k in (0..8).rev() {
            acc = (&acc * &acc) % &m;
            if byte >> k & 1 == 1 {
                acc = (&acc * &basis) % &m;
            }
        }
    }
    let e = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, eb.clone());
    expect("exp", &nopanic("exp", || r.clone().exp(&a, &e))?, &acc, &m)?;
    expect("exp.alias", &nopanic("exp", || a.clone().exp(&a, &e))?, &acc, &m)?;
    Ok(Obs::nt(av > BigInt::one() && eb > BigUint::one()).label_if(neg, "negative exponent").label_if(eb >= m.to_biguint().unwrap(), "exponent >= m"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct JacIn {
    factors: Vec<u8>,
    a: Val,
    prime: u8,
    square: bool,
    r: Ring,
}
fn legendre(a: &BigInt, p: &BigInt) -> i64 {
    let a = a.mod_floor(p);
    if a.is_zero() {
        return 0;
    }
    let e = (p - 1) / 2;
    if a.modpow(&e, p).is_one() {
        1
    } else {
        -1
    }
}
fn jacobi_law(i: &JacIn) -> Res {
    // modulus with known factorisation; jacobi = product of Legendre symbols by Euler's criterion
    let odd: Vec<BigInt> = big_primes().into_iter().skip(1).collect();
    let ps: Vec<BigInt> = i.factors.iter().map(|f| odd[*f as usize % odd.len()].clone()).collect();
    let m = ps.iter().fold(BigInt::one(), |x, y| x * y);
    let av = i.a.big(&m).mod_floor(&m);
    let want: i64 = ps.iter().map(|p| legendre(&av, p)).product();
    let (r, _) = i.r.recv();
    let got = nopanic("jacobi", || r.jacobi(&Int::new_int(av.clone(), m.clone())))?;
    let g = view(&got).0;
    // -1 may be represented as such or as m-1
    let ok = g == BigInt::from(want) || (want == -1 && g == &m - 1);
    ensure!(ok && (want == -1 || got.int64() == want), "jacobi:wrong", "({av}/{m}) = {want}, got {g}");
    Ok(Obs::nt(ps.len() > 1 || want != 0).label(format!("symbol {want}")).label_if(ps.len() > 1, "composite"))
}
fn sqrt_law(i: &JacIn) -> Res {
    let ps = big_primes();
    let p = ps[i.prime as usize % ps.len()].clone();
    let mut av = i.a.big(&p).mod_floor(&p);
    if i.square {
        av = (&av * &av).mod_floor(&p);
    }
    let is_square = av.is_zero() || p == BigInt::from(2) || legendre(&av, &p) == 1;
    let (mut r, _) = i.r.recv();
    let res = nopanic("sqrt", || r.sqrt(&Int::new_int(av.clone(), p.clone())).is_ok())?;
    ensure!(res == is_square, format!("sqrt:{}", if res { "root-of-non-square" } else { "misses-root" }), "{av} mod {p}");
    if res {
        let (v, m) = view(&r);
        ensure_eq!(m, p, "sqrt:modulus");
        ensure!(!v.is_negative() && v < p, "sqrt:range");
        ensure!((&v * &v).mod_floor(&p) == av, "sqrt:wrong", "{v}^2 != {av} mod {p}");
    }
    Ok(Obs::nt(av > BigInt::one()).label(if is_square { "square" } else { "non-square" }).label_if(p.bits() > 64, "big prime"))
}
fn jac() -> impl Strategy<Value = JacIn> {
    (prop::collection::vec(any::<u8>(), 1..4), val(), any::<u8>(), any::<bool>(), ring()).prop_map(|(factors, a, prime, square, r)| JacIn { factors, a, prime, square, r })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Prog {
    m: Bs,
    init: Vec<Val>,
    ops: Vec<(u8, u8, u8, u8)>,
}
fn prog_law(p: &Prog) -> Res {
    let m = big(&p.m);
    let mut regs: Vec<Int> = p.init.iter().map(|v| Int::new_int(v.big(&m), m.clone())).collect();
    let mut model: Vec<BigInt> = p.init.iter().map(|v| v.big(&m).mod_floor(&m)).collect();
    for (op, d, s, t) in &p.ops {
        let (d, s, t) = (*d as usize % 3, *s as usize % 3, *t as usize % 3);
        let (a, b, r) = (regs[s].clone(), regs[t].clone(), regs[d].clone());
        let (x, y) = (model[s].clone(), model[t].clone());
        let unit = y.gcd(&m).is_one() && !y.is_zero();
        let (v, w, n) = match op % 6 {
            0 => (a + b, x + y, "add"),
            1 => (a * b, x * y, "mul"),
            2 => (r.sub(&a, &b), x - y, "sub"),
            3 => (r.neg(&a), -x, "neg"),
            4 if unit => (r.div(&a, &b), x * inverse(&y, &m), "div"),
            5 => (r.exp(&a, &BigInt::from(*op as u32 / 6)), x.modpow(&BigInt::from(*op as u32 / 6), &m), "exp"),
            _ => (r.set(&a), x, "set"),
        };
        expect(&format!("program.{n}"), &v, &w, &m)?;
        regs[d] = v;
        model[d] = w.mod_floor(&m);
    }
    Ok(Obs::nt(p.ops.len() >= 3))
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        laws: vec![
            law("ring", 600_000, 12_000_000, "ring operations and comparisons on residues of generated moduli (>= 2), values given unreduced and signed, receiver of another modulus; non-trivial: both residues non-zero", ring, ring_law),
            law(
                "set",
                60_000,
                1_000_000,
                "set from i64, u64, bytes, strings and fractions; non-trivial: inputs non-zero",
                || (ring(), prop_oneof![any::<i64>(), -300i64..300, Just(i64::MIN), Just(i64::MAX)], any::<u64>(), bytes(50), any::<u8>()).prop_map(|(ring, i, u, bytes, base)| SetIn { ring, i, u, bytes, base }),
                set_law,
            ),
            law("exp", 48_000, 1_000_000, "exponentiation against square-and-multiply; non-trivial: base and exponent above one", || (modulus(), val(), bytes(20), any::<bool>(), ring()).prop_map(|(m, a, e, neg, r)| ExpIn { m, a, e, neg, r }), exp_law),
            law("jacobi", 80_000, 1_600_000, "Jacobi symbol against the product of Legendre symbols (Euler's criterion) over a known factorisation; non-trivial: composite modulus or non-zero symbol", jac, jacobi_law),
            law("sqrt", 80_000, 1_600_000, "modular square root over primes (2, and up to 521 bits, 2-adicity up to 96); non-trivial: operand above one", jac, sqrt_law),
            law(
                "program",
                30_000,
                500_000,
                "straight-line programs over three registers; non-trivial: three or more steps",
                || (modulus(), prop::collection::vec(val(), 3), prop::collection::vec(any::<(u8, u8, u8, u8)>(), 1..14)).prop_map(|(m, init, ops)| Prog { m, init, ops }),
                prog_law,
            ),
        ],
        assumptions: vec!["num-bigint-dig integer arithmetic is correct", "moduli are at least two; division only by units; square roots modulo primes; Jacobi symbols for odd moduli (as documented)"],
    }
}

// ------------------------------------------------------------------ C07
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Enc {
    r: Ring,
    min: u8,
    max: u8,
}
fn enc_law(i: &Enc) -> Res {
    let m = big(&i.r.m);
    let x = i.r.a.big(&m).mod_floor(&m);
    let mut a = Int::new_int(x.clone(), m.clone());
    a.bo = ByteOrder::from(i.r.le);
    let width = (m.bits() + 7) / 8;
    ensure_eq!(a.marshal_size(), width, "marshal_size");
    let mut want = x.to_bytes_be().1;
    while want.len() < width {
        want.insert(0, 0);
    }
    if i.r.le {
        want.reverse();
    }
    let e = nopanic("marshal", || a.marshal_binary())?.map_err(|e| Fail { sig: "marshal:err".into(), msg: e.to_string() })?;
    ensure!(e == want, "marshal:wrong", "got {} want {} (modulus {m})", hex::encode(&e), hex::encode(&want));
    let mut w = vec![];
    a.marshal_to(&mut w).map_err(|e| Fail { sig: "marshal_to:err".into(), msg: e.to_string() })?;
    ensure!(w == want, "marshal_to:wrong");
    // decoding into a dirty receiver of the same modulus and byte order
    let mut d = Int::new_int(i.r.r.big(&m), m.clone());
    d.bo = ByteOrder::from(i.r.le);
    d.unmarshal_binary(&e).map_err(|e| Fail { sig: "unmarshal:err".into(), msg: e.to_string() })?;
    expect("unmarshal", &d, &x, &m)?;
    ensure!(d == a, "unmarshal:neq");
    let mut d = Int::new_int(i.r.r.big(&m), m.clone());
    d.bo = ByteOrder::from(i.r.le);
    let mut st = w.clone();
    st.extend([1, 2, 3]);
    let mut cur = Cursor::new(st);
    d.unmarshal_from(&mut cur).map_err(|e| Fail { sig: "unmarshal_from:err".into(), msg: e.to_string() })?;
    expect("unmarshal_from", &d, &x, &m)?;
    ensure_eq!(cur.position(), width as u64, "unmarshal_from:consumed");
    // padded
    let vlen = if x.is_zero() { 0 } else { x.to_bytes_be().1.len() };
    let (min, max) = (i.min as usize, i.max as usize);
    for (n, r) in [("little_endian", nopanic("little_endian", || a.little_endian(min, max).ok())?), ("big_endian", nopanic("big_endian", || a.big_endian(min, max).ok())?)] {
        match r {
            Some(b) => {
                ensure!(b.len() >= min, format!("{n}:shorter-than-min"), "{} < {min}", b.len());
                ensure!(max == 0 || b.len() <= max, format!("{n}:longer-than-max"), "{} > {max}", b.len());
                let v = if n == "big_endian" { BigInt::from_bytes_be(Sign::Plus, &b) } else { BigInt::from_bytes_le(Sign::Plus, &b) };
                ensure!(v == x, format!("{n}:value"), "{} is not {x}", hex::encode(&b));
                ensure!(b.len() <= min.max(width), format!("{n}:over-padded"), "{} bytes for width {width}, min {min}", b.len());
            }
            None => ensure!(max != 0 && (vlen > max || width > max || min > max), format!("{n}:spurious-error"), "min {min} max {max} width {width} value {vlen} bytes"),
        }
    }
    // hex and serde
    let hx = format!("{a:x}");
    ensure!(BigInt::parse_bytes(hx.as_bytes(), 16).as_ref() == Some(&x), "hex", "{hx}");
    ensure_eq!(format!("{a:#x}"), format!("0x{hx}"), "hex#");
    ensure_eq!(format!("{a:X}"), hx.to_uppercase(), "HEX");
    let back = Int::new_int_string(hx, String::new(), 16, &m);
    ensure!(back == a, "hex:neq");
    let b: Int = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| Fail { sig: "serde:err".into(), msg: e.to_string() })?;
    ensure!(b == a && view(&b) == view(&a) && b.bo == a.bo, "serde:neq");
    let b: Int = serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| Fail { sig: "serde_json:err".into(), msg: e.to_string() })?;
    ensure!(b == a && view(&b) == view(&a) && b.bo == a.bo, "serde_json:neq");
    Ok(Obs::nt(!x.is_zero()).label_if(vlen < width, "value shorter than modulus").label_if(i.r.le, "little endian").label_if(min > width, "padding requested"))
}
fn dec_law(i: &(Ring, Bs, u8)) -> Res {
    let (r, d, mode) = (&i.0, &i.1, i.2);
    let m = big(&r.m);
    let width = (m.bits() + 7) / 8;
    // around the range limit, or arbitrary
    let data: Vec<u8> = match mode % 4 {
        0 => {
            let x = &m + BigInt::from((mode as i64 / 4) % 7 - 3);
            let mut b = x.to_bytes_be().1;
            while b.len() < width {
                b.insert(0, 0);
            }
            if r.le {
                b.reverse();
            }
            b
        }
        1 => {
            let mut v = d.0.clone();
            v.resize(width, 0xff);
            v
        }
        2 => {
            let mut v = d.0.clone();
            v.resize(if mode & 16 == 0 { width + 1 } else { width.saturating_sub(1) }, 0);
            v
        }
        _ => d.0.clone(),
    };
    let v = if r.le { BigInt::from_bytes_le(Sign::Plus, &data) } else { BigInt::from_bytes_be(Sign::Plus, &data) };
    let want = data.len() == width && v < m;
    let before = r.r.big(&m).mod_floor(&m);
    let mut x = Int::new_int(before.clone(), m.clone());
    x.bo = ByteOrder::from(r.le);
    let ok = nopanic("unmarshal", || x.unmarshal_binary(&data).is_ok())?;
    ensure!(ok == want, format!("unmarshal:{}", if ok { "accepts" } else { "rejects" }), "{} modulo {m}", hex::encode(&data));
    let now = view(&x).0;
    ensure!(now == if ok { v.clone() } else { before.clone() }, if ok { "unmarshal:value" } else { "unmarshal:rejected-but-changed" }, "{now}");
    let mut x = Int::new_int(before, m.clone());
    x.bo = ByteOrder::from(r.le);
    let ok = nopanic("unmarshal_from", || x.unmarshal_from(&mut Cursor::new(&data)).is_ok())?;
    let v2 = if data.len() >= width { Some(if r.le { BigInt::from_bytes_le(Sign::Plus, &data[..width]) } else { BigInt::from_bytes_be(Sign::Plus, &data[..width]) }) } else { None };
    ensure!(ok == v2.is_some_and(|v| v < m), "unmarshal_from:decision");
    Ok(Obs::nt(true).label(if want { "valid" } else if data.len() != width { "wrong length" } else { "out of range" }))
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        laws: vec![
            law("encode", 720_000, 12_000_000, "fixed width, both byte orders, padding, hex, serde, round trips; non-trivial: value non-zero", || (ring(), 0u8..70, 0u8..70).prop_map(|(r, min, max)| Enc { r, min, max }), enc_law),
            law("decode", 1_440_000, 24_000_000, "acceptance exactly for the right length and range; receiver unchanged on error; non-trivial: all", || (ring(), bytes(70), any::<u8>()), dec_law),
        ],
        assumptions: vec!["an Int's serialized form exposes its value and modulus"],
    }
}

fn main() {
    kv::cli::main(&[("C06", c06), ("C07", c07)]);
}
