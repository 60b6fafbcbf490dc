//! Structural alteration of serializable messages: every message is a tree of points, scalars, byte
//! strings, numbers, flags and lists, any node of which can be replaced.
use crate::refmath as rm;
use crate::vssx::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Mut {
    /// which node of the tree
    pub at: u16,
    pub op: u8,
    pub arg: u32,
}
pub fn mutation() -> impl Strategy<Value = Mut> {
    (any::<u16>(), any::<u8>(), prop_oneof![1 => 0u32..16, 1 => any::<u32>()]).prop_map(|(at, op, arg)| Mut { at, op, arg })
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Point,
    Scalar,
    Bytes,
    List,
    Num,
    Flag,
    Text,
    Null,
}
fn keys(v: &Value) -> Vec<String> {
    v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
}
fn kind(v: &Value) -> Option<Kind> {
    thread_local! {
        static PK: Vec<String> = keys(&serde_json::to_value(Point::default()).unwrap());
        static SK: Vec<String> = keys(&serde_json::to_value(Scalar::default()).unwrap());
    }
    match v {
        Value::Null => Some(Kind::Null),
        Value::Bool(_) => Some(Kind::Flag),
        Value::Number(_) => Some(Kind::Num),
        Value::String(_) => Some(Kind::Text),
        Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.as_u64().is_some_and(|x| x < 256)) => Some(Kind::Bytes),
        Value::Array(_) => Some(Kind::List),
        Value::Object(_) => {
            let k = keys(v);
            if PK.with(|p| *p == k) {
                Some(Kind::Point)
            } else if SK.with(|p| *p == k) {
                Some(Kind::Scalar)
            } else {
                None
            }
        }
    }
}
/// every alterable node with its JSON pointer
pub fn nodes(v: &Value) -> Vec<(String, Kind)> {
    let mut out = vec![];
    walk(v, String::new(), &mut out);
    out
}
fn walk(v: &Value, path: String, out: &mut Vec<(String, Kind)>) {
    let k = kind(v);
    if let Some(k) = k {
        out.push((path.clone(), k));
    }
    match (k, v) {
        (Some(Kind::List), Value::Array(a)) => {
            for (i, x) in a.iter().enumerate() {
                walk(x, format!("{path}/{i}"), out);
            }
        }
        (None, Value::Object(o)) => {
            for (n, x) in o {
                walk(x, format!("{path}/{n}"), out);
            }
        }
        _ => {}
    }
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}
fn junk(n: usize, arg: u32) -> Vec<u8> {
    let mut b = vec![0u8; n];
    let mut h = blake3::Hasher::new();
    h.update(&arg.to_le_bytes());
    h.finalize_xof().fill(&mut b);
    b
}
/// points a cheater might use instead of `p`
pub fn other_point(p: &Point, arg: u32, pool: &[Point]) -> Point {
    let id = Point::default();
    let dec = |b: &[u8]| -> Point {
        let mut q = Point::default();
        match kyber_rs::encoding::BinaryUnmarshaler::unmarshal_binary(&mut q, b) {
            Ok(()) => q,
            Err(_) => id,
        }
    };
    use kyber_rs::Group as _;
    use kyber_rs::Point as _;
    match arg % 8 {
        0 => suite().point().null(),
        1 => suite().point().base(),
        2 => dec(&rm::c().torsion[(arg / 8) as usize % 8].encode()),
        3 => suite().point().neg(p),
        4 => suite().point().add(p, &dec(&rm::c().torsion[1 + (arg / 8) as usize % 7].encode())),
        5 => suite().point().add(p, &suite().point().base()),
        6 => dec(&rm::Pt::base_mul(&rm::modl(&rm::lebytes(&junk(32, arg)))).encode()),
        _ if !pool.is_empty() => pool[(arg / 8) as usize % pool.len()],
        _ => suite().point().base(),
    }
}
/// Applies one alteration to a copy; describes it. `mild` keeps to alterations that decode.
pub fn alter(v: &Value, m: &Mut, pool: &[Point]) -> (Value, String) {
    let ns = nodes(v);
    if ns.is_empty() {
        return (v.clone(), "nothing".into());
    }
    let (path, k) = ns[m.at as usize % ns.len()].clone();
    let mut out = v.clone();
    let slot = if path.is_empty() { &mut out } else { out.pointer_mut(&path).unwrap() };
    let a = m.arg as usize;
    let what;
    *slot = match k {
        Kind::Point => {
            what = "point";
            let p: Point = serde_json::from_value(slot.clone()).unwrap_or_default();
            serde_json::to_value(other_point(&p, m.arg, pool)).unwrap()
        }
        Kind::Scalar => {
            let s: Scalar = serde_json::from_value(slot.clone()).unwrap_or_default();
            let mut b = s.v;
            what = "scalar";
            match m.op % 6 {
                0..=2 => b[a / 8 % 32] ^= 1 << (a % 8),
                3 => b = [0; 32],
                4 => b = [0xff; 32],
                _ => b = junk(32, m.arg).try_into().unwrap(),
            }
            serde_json::to_value(Scalar { v: b }).unwrap()
        }
        Kind::Bytes => {
            let mut b = bytes(slot);
            let n = b.len();
            what = match m.op % 8 {
                0..=2 => {
                    b[a / 8 % n] ^= 1 << (a % 8);
                    "bit"
                }
                3 => {
                    b.truncate(a % n);
                    "truncated"
                }
                4 => {
                    b.extend(junk(1 + a % 40, m.arg));
                    "extended"
                }
                5 => {
                    b.clear();
                    "emptied"
                }
                6 => {
                    b = junk(n, m.arg);
                    "replaced"
                }
                _ => {
                    b = vec![[0u8, 0xff][a % 2]; n];
                    "constant"
                }
            };
            serde_json::to_value(b).unwrap()
        }
        Kind::List => {
            let l = slot.as_array_mut().unwrap();
            let n = l.len();
            what = match m.op % 6 {
                0 if n > 0 => {
                    l.pop();
                    "shortened"
                }
                1 if n > 0 => {
                    let x = l[a % n].clone();
                    l.push(x);
                    "lengthened"
                }
                2 => {
                    l.clear();
                    "emptied"
                }
                3 if n > 1 => {
                    l.swap(a % n, (a + 1) % n);
                    "swapped"
                }
                4 if n > 0 => {
                    let x = l[a % n].clone();
                    l.resize(300, x);
                    "flooded"
                }
                _ => {
                    if n > 0 {
                        l.remove(a % n);
                    } else {
                        l.push(Value::from(a as u8));
                    }
                    "removed"
                }
            };
            Value::Array(l.clone())
        }
        Kind::Num => {
            let x = slot.as_u64().unwrap_or(0);
            what = "number";
            Value::from(match m.op % 9 {
                0 => x ^ 1,
                1 => x.wrapping_add(1),
                2 => x.wrapping_sub(1),
                3 => 0,
                4 => u32::MAX as u64,
                5 => u64::MAX,
                6 => x ^ (1 << (a % 64)),
                7 => a as u64 % 12,
                _ => [1 << 31, 1 << 32, i64::MAX as u64, 1 << 63, u32::MAX as u64 - 1, u64::MAX - 1, 255, 65535][a % 8],
            })
        }
        Kind::Flag => {
            what = "flag";
            Value::from(!slot.as_bool().unwrap())
        }
        Kind::Text => {
            what = "text";
            let mut s = slot.as_str().unwrap().to_string();
            match m.op % 3 {
                0 => s.push('0'),
                1 => {
                    s.pop();
                }
                _ => s = "zz".into(),
            }
            Value::from(s)
        }
        Kind::Null => {
            what = "null";
            Value::from(a as u8)
        }
    };
    (out, format!("{}:{what}", path.trim_start_matches('/')))
}
/// name of the altered field without list positions
pub fn field(desc: &str) -> String {
    desc.split('/').filter(|p| p.parse::<usize>().is_err()).collect::<Vec<_>>().join("/")
}
pub fn val<T: Serialize>(x: &T) -> Value {
    serde_json::to_value(x).expect("messages serialize")
}
pub fn unval<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}
/// equal exactly when the contents are: points by their encoding, scalars by their residue
pub fn canon(v: &Value) -> Value {
    match kind(v) {
        Some(Kind::Point) => Value::from(match serde_json::from_value::<Point>(v.clone()) {
            Ok(p) => hex::encode(penc(&p)),
            Err(_) => v.to_string(),
        }),
        Some(Kind::Scalar) => Value::from(match serde_json::from_value::<Scalar>(v.clone()) {
            Ok(s) => hex::encode(rm::sc(&rm::lebytes(&s.v))),
            Err(_) => v.to_string(),
        }),
        Some(_) if !v.is_array() => v.clone(),
        _ => match v {
            Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), canon(x))).collect()),
            _ => v.clone(),
        },
    }
}
