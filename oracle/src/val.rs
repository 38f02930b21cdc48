//! Values over the whole serde data model, and what each becomes in a binary packet.
use crate::ctx::Rng;
use serde::ser::*;
use serde::{Serialize, Serializer};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// a value serialized through its Display implementation
    Shown(String),
    Bytes(Vec<u8>),
    /// a sequence; whether the length is announced
    Seq(Vec<V>, bool),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    UnitStruct,
    Newtype(Box<V>),
    Some(Box<V>),
    None,
    /// a map; whether entries are written key and value apart
    Map(Vec<(V, V)>, bool),
    Struct(Vec<V>),
    UnitVariant,
    NewtypeVariant(Box<V>),
    TupleVariant(Vec<V>),
    StructVariant(Vec<V>),
    Fail,
    /// writes itself as a text to human-readable formats and as a number to others
    Human,
}
use V::*;

pub const FIELDS: [&str; 6] = ["a", "b", "num", "_placeholder", "c\"d", ""];

impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Unit => s.serialize_unit(),
            Bool(x) => s.serialize_bool(*x),
            I8(x) => s.serialize_i8(*x),
            I16(x) => s.serialize_i16(*x),
            I32(x) => s.serialize_i32(*x),
            I64(x) => s.serialize_i64(*x),
            I128(x) => s.serialize_i128(*x),
            U8(x) => s.serialize_u8(*x),
            U16(x) => s.serialize_u16(*x),
            U32(x) => s.serialize_u32(*x),
            U64(x) => s.serialize_u64(*x),
            U128(x) => s.serialize_u128(*x),
            F32(x) => s.serialize_f32(*x),
            F64(x) => s.serialize_f64(*x),
            Char(x) => s.serialize_char(*x),
            Str(x) => s.serialize_str(x),
            Shown(x) => s.collect_str(x),
            Bytes(x) => s.serialize_bytes(x),
            Seq(v, l) => {
                let mut q = s.serialize_seq(if *l { Option::Some(v.len()) } else { Option::None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TS", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            UnitStruct => s.serialize_unit_struct("US"),
            Newtype(x) => s.serialize_newtype_struct("NT", &**x),
            V::Some(x) => s.serialize_some(&**x),
            V::None => s.serialize_none(),
            Map(v, apart) => {
                let mut q = s.serialize_map(Option::Some(v.len()))?;
                for (k, x) in v {
                    if *apart {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    } else {
                        q.serialize_entry(k, x)?;
                    }
                }
                q.end()
            }
            Struct(v) => {
                let mut q = s.serialize_struct("St", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    if i == 1 {
                        q.skip_field("skipped")?;
                    }
                    q.serialize_field(FIELDS[i % 6], x)?;
                }
                q.end()
            }
            UnitVariant => s.serialize_unit_variant("En", 0, "uv"),
            NewtypeVariant(x) => s.serialize_newtype_variant("En", 1, "nv", &**x),
            TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("En", 2, "tv", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            StructVariant(v) => {
                let mut q = s.serialize_struct_variant("En", 3, "sv", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_field(FIELDS[i % 6], x)?;
                }
                q.end()
            }
            Human => {
                if s.is_human_readable() {
                    s.serialize_str("human")
                } else {
                    s.serialize_u8(7)
                }
            }
            Fail => Err(serde::ser::Error::custom("refused")),
        }
    }
}

/// the value with its byte strings moved to `bufs`
pub fn out_of_line(v: &V, bufs: &mut Vec<Vec<u8>>) -> V {
    let place = |b: Vec<u8>, bufs: &mut Vec<Vec<u8>>| {
        bufs.push(b);
        Map(
            vec![
                (Str("_placeholder".into()), Bool(true)),
                (Str("num".into()), U64(bufs.len() as u64 - 1)),
            ],
            false,
        )
    };
    let all = |v: &Vec<V>, bufs: &mut Vec<Vec<u8>>| v.iter().map(|x| out_of_line(x, bufs)).collect::<Vec<_>>();
    match v {
        Bytes(b) => place(b.clone(), bufs),
        Seq(x, l) => {
            let bytes: Option<Vec<u8>> = x.iter().map(|e| if let U8(b) = e { Option::Some(*b) } else { Option::None }).collect();
            match bytes {
                Option::Some(b) if !b.is_empty() => place(b, bufs),
                _ => Seq(all(x, bufs), *l),
            }
        }
        Tuple(x) => Tuple(all(x, bufs)),
        TupleStruct(x) => TupleStruct(all(x, bufs)),
        Newtype(x) => Newtype(Box::new(out_of_line(x, bufs))),
        V::Some(x) => V::Some(Box::new(out_of_line(x, bufs))),
        Map(x, a) => Map(x.iter().map(|(k, y)| (k.clone(), out_of_line(y, bufs))).collect(), *a),
        Struct(x) => Struct(all(x, bufs)),
        NewtypeVariant(x) => NewtypeVariant(Box::new(out_of_line(x, bufs))),
        TupleVariant(x) => TupleVariant(all(x, bufs)),
        StructVariant(x) => StructVariant(all(x, bufs)),
        x => x.clone(),
    }
}

pub fn text(r: &mut Rng) -> String {
    const POOL: [&str; 18] = [
        "", "a", "event", "x y", "\"", "\\", "\n", "\u{0}", "\u{7f}", "é", "\u{1F600}", "/", ",", "[1]", "_placeholder", "num", "4", "\u{2028}",
    ];
    if r.chance(1, 60) {
        let n = r.size(2000);
        let c = *r.pick(&['a', 'é', '"', '\n', '\u{7f}', '\u{1F600}']);
        return (0..n).map(|_| c).collect();
    }
    match r.below(5) {
        4 => r.word(),
        0 => r.pick(&POOL).to_string() + r.pick(&POOL),
        1 => (0..r.below(5)).map(|_| *r.pick(&['a', 'é', '"', '\\', '/', '\u{10FFFF}', ']', '['])).collect(),
        _ => r.pick(&POOL).to_string(),
    }
}
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) {
        let n = r.size(600);
        return (0..n).map(|_| r.next() as u8).collect();
    }
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 4, 9]);
    if r.chance(1, 4) {
        return (0..n).map(|_| r.next() as u8).collect();
    }
    (0..n).map(|_| *r.pick(&[0u8, 1, 4, 4, 52, 127, 128, 255])).collect()
}

/// `fail`: whether failing values may appear
pub fn gen(r: &mut Rng, depth: usize, fail: bool) -> V {
    let top = if depth == 0 { 21 } else { 36 };
    let sub = |r: &mut Rng| -> Vec<V> { (0..r.below(4)).map(|_| gen(r, depth - 1, fail)).collect() };
    match r.below(top) {
        0 => Unit,
        1 => Bool(r.chance(1, 2)),
        2 => I8(*r.pick(&[-128, -1, 0, 127])),
        3 => I16(*r.pick(&[-32768, 255, 256])),
        4 => I32(*r.pick(&[i32::MIN, 0, 7])),
        5 => I64(if r.chance(1, 2) { r.int() as i64 } else { *r.pick(&[i64::MIN, -1, i64::MAX]) }),
        6 => match r.below(2) {
            0 if r.chance(1, 2) => I128(r.int() as i128 - (1 << 62)),
            0 => I128(*r.pick(&[i64::MIN as i128, -5, u64::MAX as i128])),
            _ => U128(*r.pick(&[0, u64::MAX as u128])),
        },
        7 => U8(if r.chance(1, 2) { r.next() as u8 } else { *r.pick(&[0, 1, 4, 200, 255]) }),
        8 => U16(if r.chance(1, 2) { r.int() as u16 } else { *r.pick(&[0, 4, 65535]) }),
        9 => U32(if r.chance(1, 2) { r.int() as u32 } else { *r.pick(&[1, u32::MAX]) }),
        10 => U64(if r.chance(1, 2) { r.int() } else { *r.pick(&[0, 1, u64::MAX]) }),
        11 => F64(*r.pick(&[0.0, -0.5, 1e300, f64::NAN, f64::INFINITY])),
        12 => F32(*r.pick(&[1.5, 0.1, -0.0, f32::NAN, f32::INFINITY])),
        13 => Char(*r.pick(&['a', '"', '\u{1F600}'])),
        14 | 15 => Str(text(r)),
        16 => match r.below(4) {
            0 => Shown(text(r)),
            1 => {
                if r.chance(1, 2) {
                    Human
                } else {
                    UnitStruct
                }
            }
            2 => UnitVariant,
            _ => V::None,
        },
        17 | 18 => Bytes(bytes(r)),
        19 => Seq(bytes(r).into_iter().map(U8).collect(), r.chance(1, 2)),
        20 => {
            if fail && r.chance(1, 2) {
                Fail
            } else {
                // byte-like beginnings that turn out to be mixed
                let mut v: Vec<V> = bytes(r).into_iter().map(U8).collect();
                let at = r.below(v.len() + 1);
                let odd = match r.below(8) {
                    6 => Human,
                    7 => UnitVariant,
                    0 => U16(7),
                    1 => Bytes(bytes(r)),
                    2 => Str("x".into()),
                    3 => I8(4),
                    4 => Seq(vec![U8(9)], true),
                    _ => V::None,
                };
                v.insert(at, odd);
                if fail && r.chance(1, 3) {
                    v.push(Fail);
                }
                Seq(v, r.chance(1, 2))
            }
        }
        21 if r.chance(1, 4) => Seq(vec![Human; 1 + r.below(4)], r.chance(1, 2)),
        21..=24 => {
            // an element wrapped around an 8-bit number is neither clearly one nor clearly not
            let v: Vec<V> = sub(r)
                .into_iter()
                .map(|x| match x {
                    Newtype(y) | V::Some(y) if matches!(*y, U8(_)) => *y,
                    x => x,
                })
                .collect();
            Seq(v, r.chance(1, 2))
        }
        25 => Tuple(sub(r)),
        26 => {
            let v = sub(r);
            if v.is_empty() || r.chance(1, 2) {
                TupleStruct(v)
            } else {
                TupleVariant(v)
            }
        }
        27 => Newtype(Box::new(strip(gen(r, depth - 1, fail)))),
        28 => V::Some(Box::new(strip(gen(r, depth - 1, fail)))),
        29..=31 => {
            let n = r.below(4);
            let m = (0..n)
                .map(|i| {
                    let k = match r.below(6) {
                        0 => I32(i as i32 - 1),
                        1 => U8(i as u8),
                        2 => {
                            if i == 0 && r.chance(1, 3) {
                                Human
                            } else {
                                Char(*r.pick(&['k', '"']))
                            }
                        }
                        3 => Newtype(Box::new(Str(format!("n{}", i)))),
                        _ => Str(format!("{}{}", text(r), i)),
                    };
                    let k = if fail && r.chance(1, 8) { Seq(vec![], true) } else { k };
                    (k, gen(r, depth - 1, fail))
                })
                .collect();
            Map(m, r.chance(1, 2))
        }
        32 | 33 => Struct(sub(r)),
        34 => NewtypeVariant(Box::new(strip(gen(r, depth - 1, fail)))),
        _ => StructVariant(sub(r)),
    }
}
fn strip(v: V) -> V {
    match v {
        U8(x) => U16(x as u16),
        x => x,
    }
}
pub fn has_key_nonstring(v: &V) -> bool {
    matches!(v, Seq(..))
}
