//! C11: typed decoding of arguments of packets with attachments
use crate::ctx::*;
use serde::de::*;
use serde::Deserialize;
use socket_io_protocol::engine::Message as EMsg;
use socket_io_protocol::socket::{deserialize, Arg, DeserializeResult, Packet};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

// ------------------------------------------------------------------ types as data
const NAMES: [&str; 4] = ["a", "b", "num", "long name"];
const VARS: [&str; 4] = ["U", "N", "T", "S"];
#[derive(Clone, Debug)]
pub enum Sh {
    Any,
    Ignored,
    Bool,
    Int(u8),
    F64,
    Char,
    Str,
    Borrowed,
    Owned,
    Bytes,
    ByteBuf,
    Opt(Box<Sh>),
    Unit,
    Newtype(Box<Sh>),
    Seq(Box<Sh>),
    Tuple(Vec<Sh>),
    TupleStruct(Vec<Sh>),
    Map(Box<Sh>, Box<Sh>),
    /// fields in the order of NAMES
    Struct(Vec<Sh>),
    /// the four kinds of variant: unit, newtype, tuple, struct
    Enum(Box<Sh>, Vec<Sh>, Vec<Sh>),
}
use Sh::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    I(i128),
    F(u64),
    Text(String),
    Bytes(Vec<u8>),
    Some(Box<Out>),
    None,
    New(Box<Out>),
    Seq(Vec<Out>),
    Map(Vec<(Out, Out)>),
    Var(String, Box<Out>),
    Skipped,
}

struct Seed<'s>(&'s Sh);
impl<'de, 's> DeserializeSeed<'de> for Seed<'s> {
    type Value = Out;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        if !d.is_human_readable() {
            return Err(D::Error::custom("not a human readable format"));
        }
        let v = Vis(self.0);
        match self.0 {
            Any => d.deserialize_any(v),
            Ignored => d.deserialize_ignored_any(v),
            Bool => d.deserialize_bool(v),
            Int(0) => d.deserialize_i8(v),
            Int(1) => d.deserialize_i16(v),
            Int(2) => d.deserialize_i32(v),
            Int(3) => d.deserialize_i64(v),
            Int(4) => d.deserialize_u8(v),
            Int(5) => d.deserialize_u16(v),
            Int(6) => d.deserialize_u32(v),
            Int(7) => d.deserialize_u64(v),
            Int(8) => d.deserialize_i128(v),
            Int(_) => d.deserialize_u128(v),
            F64 => d.deserialize_f64(v),
            Char => d.deserialize_char(v),
            Str | Borrowed => d.deserialize_str(v),
            Owned => d.deserialize_string(v),
            Bytes => d.deserialize_bytes(v),
            ByteBuf => d.deserialize_byte_buf(v),
            Opt(_) => d.deserialize_option(v),
            Unit => d.deserialize_unit(v),
            Newtype(_) => d.deserialize_newtype_struct("NT", v),
            Seq(_) => d.deserialize_seq(v),
            Tuple(x) => d.deserialize_tuple(x.len(), v),
            TupleStruct(x) => d.deserialize_tuple_struct("TS", x.len(), v),
            Map(..) => d.deserialize_map(v),
            Struct(x) => d.deserialize_struct("St", &NAMES[..x.len()], v),
            Enum(..) => d.deserialize_enum("En", &VARS, v),
        }
    }
}
struct Vis<'s>(&'s Sh);
impl<'s> Vis<'s> {
    fn bad<T, E: Error>(&self, u: Unexpected<'_>) -> Result<T, E> {
        Err(E::invalid_type(u, &"something else"))
    }
}
impl<'de, 's> Visitor<'de> for Vis<'s> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<Out, E> {
        match self.0 {
            Any | Bool => Ok(Out::Bool(v)),
            _ => self.bad(Unexpected::Bool(v)),
        }
    }
    fn visit_i128<E: Error>(self, v: i128) -> Result<Out, E> {
        match self.0 {
            Any | F64 => Ok(Out::I(v)),
            Int(k) => {
                let (lo, hi) = match k {
                    0 => (i8::MIN as i128, i8::MAX as i128),
                    1 => (i16::MIN as i128, i16::MAX as i128),
                    2 => (i32::MIN as i128, i32::MAX as i128),
                    3 => (i64::MIN as i128, i64::MAX as i128),
                    4 => (0, 255),
                    5 => (0, 65535),
                    6 => (0, u32::MAX as i128),
                    7 => (0, u64::MAX as i128),
                    8 => (i128::MIN, i128::MAX),
                    _ => (0, i128::MAX),
                };
                if lo <= v && v <= hi {
                    Ok(Out::I(v))
                } else {
                    Err(E::custom("out of range"))
                }
            }
            _ => self.bad(Unexpected::Other("integer")),
        }
    }
    fn visit_u128<E: Error>(self, v: u128) -> Result<Out, E> {
        self.visit_i128(v as i128)
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<Out, E> {
        self.visit_i128(v as i128)
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<Out, E> {
        self.visit_i128(v as i128)
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<Out, E> {
        match self.0 {
            Any | F64 => Ok(Out::F(v.to_bits())),
            _ => self.bad(Unexpected::Float(v)),
        }
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<Out, E> {
        match self.0 {
            Any | Str | Owned => Ok(Out::Text(v.to_string())),
            Char if v.chars().count() == 1 => Ok(Out::Text(v.to_string())),
            Bytes | ByteBuf => Ok(Out::Bytes(v.as_bytes().to_vec())),
            _ => self.bad(Unexpected::Str(v)),
        }
    }
    fn visit_borrowed_str<E: Error>(self, v: &'de str) -> Result<Out, E> {
        match self.0 {
            Borrowed => Ok(Out::Text(v.to_string())),
            _ => self.visit_str(v),
        }
    }
    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Out, E> {
        match self.0 {
            Bytes | ByteBuf => Ok(Out::Bytes(v.to_vec())),
            _ => self.bad(Unexpected::Bytes(v)),
        }
    }
    fn visit_borrowed_bytes<E: Error>(self, v: &'de [u8]) -> Result<Out, E> {
        match self.0 {
            Bytes => Ok(Out::Bytes(v.to_vec())),
            _ => self.visit_bytes(v),
        }
    }
    fn visit_unit<E: Error>(self) -> Result<Out, E> {
        match self.0 {
            Any | Unit => Ok(Out::Unit),
            Opt(_) => Ok(Out::None),
            Ignored => Ok(Out::Skipped),
            _ => self.bad(Unexpected::Unit),
        }
    }
    fn visit_none<E: Error>(self) -> Result<Out, E> {
        match self.0 {
            Opt(_) => Ok(Out::None),
            _ => self.visit_unit(),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        match self.0 {
            Opt(x) => Ok(Out::Some(Box::new(Seed(x).deserialize(d)?))),
            _ => self.bad(Unexpected::Option),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        match self.0 {
            Newtype(x) => Ok(Out::New(Box::new(Seed(x).deserialize(d)?))),
            _ => self.bad(Unexpected::NewtypeStruct),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        match self.0 {
            Ignored => {
                while a.next_element::<IgnoredAny>()?.is_some() {}
                Ok(Out::Skipped)
            }
            Any | Seq(_) => {
                let e = if let Seq(e) = self.0 { &**e } else { &Any };
                while let Some(x) = a.next_element_seed(Seed(e))? {
                    v.push(x);
                }
                Ok(Out::Seq(v))
            }
            Bytes | ByteBuf => {
                let mut b = vec![];
                while let Some(x) = a.next_element::<u8>()? {
                    b.push(x);
                }
                Ok(Out::Bytes(b))
            }
            Tuple(s) | TupleStruct(s) | Struct(s) => {
                for (i, e) in s.iter().enumerate() {
                    match a.next_element_seed(Seed(e))? {
                        Some(x) => v.push(x),
                        None => return Err(A::Error::invalid_length(i, &"more")),
                    }
                }
                Ok(Out::Seq(v))
            }
            Newtype(x) => match a.next_element_seed(Seed(x))? {
                Some(x) => Ok(Out::New(Box::new(x))),
                None => Err(A::Error::invalid_length(0, &"one")),
            },
            _ => self.bad(Unexpected::Seq),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let mut v = vec![];
        match self.0 {
            Ignored => {
                while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
                Ok(Out::Skipped)
            }
            Any | Map(..) => {
                let (k, e) = if let Map(k, e) = self.0 { (&**k, &**e) } else { (&Any, &Any) };
                while let Some(k) = a.next_key_seed(Seed(k))? {
                    v.push((k, a.next_value_seed(Seed(e))?));
                }
                Ok(Out::Map(v))
            }
            Struct(s) => {
                while let Some(k) = a.next_key_seed(Seed(&Owned))? {
                    let i = NAMES[..s.len()].iter().position(|n| Out::Text(n.to_string()) == k);
                    let e = i.map(|i| &s[i]).unwrap_or(&Ignored);
                    v.push((k, a.next_value_seed(Seed(e))?));
                }
                Ok(Out::Map(v))
            }
            _ => self.bad(Unexpected::Map),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Out, A::Error> {
        let (n, t, s) = match self.0 {
            Enum(n, t, s) => (n, t, s),
            _ => return self.bad(Unexpected::Enum),
        };
        let (k, w) = a.variant_seed(Seed(&Owned))?;
        let name = match k {
            Out::Text(x) => x,
            x => return Err(A::Error::custom(format!("{:?}", x))),
        };
        let r = match name.as_str() {
            "U" => {
                w.unit_variant()?;
                Out::Unit
            }
            "N" => w.newtype_variant_seed(Seed(n))?,
            "T" => w.tuple_variant(t.len(), Vis(&Tuple(t.clone())))?,
            "S" => w.struct_variant(&NAMES[..s.len()], Vis(&Struct(s.clone())))?,
            _ => return Err(A::Error::unknown_variant(&name, &VARS)),
        };
        Ok(Out::Var(name, Box::new(r)))
    }
}

thread_local!(static SHAPE: RefCell<Sh> = RefCell::new(Unit));
/// the type that SHAPE describes
pub struct Dyn(Out);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = SHAPE.with(|s| s.borrow().clone());
        Ok(Dyn(Seed(&s).deserialize(d)?))
    }
}

pub fn gen_shape(r: &mut Rng, depth: usize) -> Sh {
    let n = if depth == 0 { 16 } else { 27 };
    let many = |r: &mut Rng, m: usize| -> Vec<Sh> { (0..r.below(m + 1)).map(|_| gen_shape(r, depth - 1)).collect() };
    match r.below(n) {
        0 | 1 => Any,
        2 => Bool,
        3 => Int(r.below(10) as u8),
        4 => Seq(Box::new(Int(4))),
        5 => F64,
        6 => Char,
        7 => Str,
        8 => Borrowed,
        9 => Owned,
        10 | 11 => Bytes,
        12 | 13 | 14 => ByteBuf,
        15 => Unit,
        16 | 17 => Opt(Box::new(gen_shape(r, depth - 1))),
        18 => Newtype(Box::new(gen_shape(r, depth - 1))),
        19 | 20 => Seq(Box::new(gen_shape(r, depth - 1))),
        21 => Tuple(many(r, 3)),
        22 => TupleStruct(many(r, 3)),
        23 | 24 => {
            let k = match r.below(9) {
                0 => Int(r.below(10) as u8),
                1 => Newtype(Box::new(Owned)),
                2 => Borrowed,
                3 => Char,
                4 => Enum(Box::new(Unit), vec![], vec![]),
                5 => Any,
                6 => Opt(Box::new(Owned)),
                _ => Owned,
            };
            Map(Box::new(k), Box::new(gen_shape(r, depth - 1)))
        }
        25 => Struct(many(r, 3)),
        _ => Enum(Box::new(gen_shape(r, depth - 1)), many(r, 2), many(r, 3)),
    }
}

fn wrapped_elements(s: &Sh) -> bool {
    let w = |x: &Sh| matches!(x, Opt(_) | Newtype(_)) || wrapped_elements(x);
    match s {
        Seq(x) => w(x),
        Tuple(v) | TupleStruct(v) | Struct(v) => v.iter().any(w),
        Enum(n, t, f) => wrapped_elements(n) || t.iter().any(w) || f.iter().any(w),
        Opt(x) | Newtype(x) => wrapped_elements(x),
        Map(_, x) => wrapped_elements(x),
        _ => false,
    }
}

/// the same text twice: with placeholders, and with what they stand for
struct Both {
    t: String,
    p: String,
    holes: usize,
    nohole: bool,
    /// one whose number is out of range was written
    bad: bool,
}
impl Both {
    fn put(&mut self, s: &str) {
        self.t.push_str(s);
        self.p.push_str(s);
    }
    fn hole(&mut self, r: &mut Rng, ds: &[Vec<u8>], bad: bool) {
        if self.nohole {
            return self.put("5");
        }
        let k = if bad && r.chance(1, 6) {
            self.bad = true;
            let n = ds.len() as u64;
            *r.pick(&[n, n + 1, 1 << 32, u64::MAX])
        } else {
            r.below(ds.len()) as u64
        };
        self.holes += 1;
        let t = match r.below(8) {
            0 => format!("{{ \"_placeholder\" : true , \"num\" : {} }}", k),
            1 => format!("{{\"\\u005fplaceholder\":true,\"num\":{}}}", k),
            2 => format!("{{\"_placeholder\":true,\"n\\u0075m\":{}}}", k),
            _ => format!("{{\"_placeholder\":true,\"num\":{}}}", k),
        };
        self.t.push_str(&t);
        match ds.get(k as usize) {
            Some(d) if k < ds.len() as u64 => {
                let x: Vec<_> = d.iter().map(|b| b.to_string()).collect();
                self.p.push_str(&format!("[{}]", x.join(",")));
            }
            // no type takes this
            _ => self.p.push_str("[1e999]"),
        }
    }
    fn sp(&mut self, r: &mut Rng) {
        if r.chance(1, 12) {
            self.put(r.pick(&[" ", "\t", "  "]));
        }
    }
    fn key(&mut self, r: &mut Rng, i: usize, k: &Sh) {
        let s = match k {
            Int(n) if *n != 4 && r.chance(3, 4) => format!("\"{}\"", i as i64 * 7 + if *n < 4 { -3 } else { 0 }),
            Int(_) => format!("\"{}\"", i),
            Char => format!("\"{}\"", r.pick(&['a', 'é', 'b'])),
            Enum(..) => "\"U\"".to_string(),
            _ => r.pick(&["\"k\"", "\"\\u0065x\"", "\"\"", "\"num\"", "\"a\"", "\"é\\n\"", "\"12\"", "\"_placeholde\"", "\"_placeholder_\""]).to_string(),
        };
        self.put(&s);
    }
    fn list(&mut self, r: &mut Rng, es: &[&Sh], ds: &[Vec<u8>], depth: usize, bad: bool) {
        self.put("[");
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                self.put(",");
            }
            self.val(r, e, ds, depth, bad);
        }
        self.put("]");
    }
    fn fields(&mut self, r: &mut Rng, s: &[Sh], ds: &[Vec<u8>], depth: usize, bad: bool) {
        self.put("{");
        let mut ix: Vec<usize> = (0..s.len()).collect();
        if r.chance(1, 2) {
            ix.reverse();
        }
        let extra = r.chance(1, 5);
        for (n, i) in ix.iter().enumerate() {
            if n > 0 {
                self.put(",");
            }
            self.put(&format!("\"{}\":", NAMES[*i]));
            self.val(r, &s[*i], ds, depth, bad);
        }
        if extra {
            self.put(if s.is_empty() { "" } else { "," });
            self.put("\"unknown\":");
            self.val(r, &Any, ds, depth.min(1), bad);
        }
        self.put("}");
    }
    fn val(&mut self, r: &mut Rng, s: &Sh, ds: &[Vec<u8>], depth: usize, bad: bool) {
        self.sp(r);
        if depth > 0 && r.chance(1, 25) {
            // a value of some other type
            let o = gen_shape(r, 1);
            let was = self.nohole;
            // bytes are numbers: a reader of optional or wrapped numbers is not one of bytes
            self.nohole = was || wrapped_elements(s);
            self.val(r, &o, ds, depth - 1, bad);
            self.nohole = was;
            return;
        }
        let d = depth.saturating_sub(1);
        match s {
            Any | Ignored => {
                if r.chance(1, 3) || depth == 0 {
                    if r.chance(1, 2) {
                        self.hole(r, ds, bad)
                    } else {
                        self.put(r.pick(&["1", "null", "\"x\"", "-2.5", "[]", "{}", "true", "\"\\u00e9\""]))
                    }
                } else {
                    let o = gen_shape(r, depth.min(2));
                    self.val(r, &o, ds, d, bad)
                }
            }
            Bool => self.put(r.pick(&["true", "false"])),
            Int(k) => {
                let x = *r.pick(&["0", "1", "127", "255", "256", "-1", "-128", "70000", "4294967296", "18446744073709551615", "1.0"]);
                let ok = match k {
                    0..=3 | 8 => x,
                    _ => x.trim_start_matches('-'),
                };
                self.put(if r.chance(1, 2) { "5" } else { ok })
            }
            F64 => self.put(r.pick(&["0", "-1.5", "1e300", "2", "0.1"])),
            Char => self.put(r.pick(&["\"a\"", "\"\\n\"", "\"é\""])),
            Str | Owned => self.put(r.pick(&["\"\"", "\"abc\"", "\"\\u0041\\n\"", "\"_placeholder\"", "\"é\u{1F600}\""])),
            Borrowed => self.put(r.pick(&["\"\"", "\"abc\"", "\"é\""])),
            Bytes | ByteBuf => {
                if r.chance(4, 5) {
                    self.hole(r, ds, bad)
                } else {
                    self.put(r.pick(&["[]", "[1,2]", "\"abc\"", "[256]", "{\"num\":0}", "[\"x\"]"]))
                }
            }
            Opt(x) => {
                if r.chance(1, 3) {
                    self.put("null")
                } else {
                    self.val(r, x, ds, d, bad)
                }
            }
            Unit => self.put("null"),
            Newtype(x) => self.val(r, x, ds, d, bad),
            Seq(e) => {
                if matches!(**e, Int(4)) && r.chance(2, 3) {
                    return self.hole(r, ds, bad);
                }
                let n = r.below(4);
                self.list(r, &vec![&**e; n], ds, d, bad)
            }
            Tuple(v) | TupleStruct(v) => {
                if v.iter().all(|e| matches!(e, Int(4) | Any)) && r.chance(1, 2) {
                    return self.hole(r, ds, bad);
                }
                let es: Vec<&Sh> = v.iter().collect();
                self.list(r, &es, ds, d, bad)
            }
            Map(k, e) => {
                self.put("{");
                for i in 0..r.below(4) {
                    if i > 0 {
                        self.put(",");
                    }
                    self.sp(r);
                    self.key(r, i, k);
                    self.put(":");
                    self.val(r, e, ds, d, bad);
                }
                self.put("}");
            }
            Struct(v) => {
                if r.chance(1, 8) {
                    let es: Vec<&Sh> = v.iter().collect();
                    return self.list(r, &es, ds, d, bad);
                }
                self.fields(r, v, ds, d, bad)
            }
            Enum(n, t, s) => match r.below(5) {
                0 => self.put("\"U\""),
                1 => {
                    self.put("{\"N\":");
                    self.val(r, n, ds, d, bad);
                    self.put("}");
                }
                2 => {
                    self.put("{\"T\":");
                    let es: Vec<&Sh> = t.iter().collect();
                    self.list(r, &es, ds, d, bad);
                    self.put("}");
                }
                3 => {
                    self.put("{\"S\":");
                    self.fields(r, s, ds, d, bad);
                    self.put("}");
                }
                _ => self.put(r.pick(&["{\"U\":null}", "{\"X\":1}", "\"X\"", "{\"N\":1,\"T\":2}"])),
            },
        }
    }
}

fn parse<'a, T: Deserialize<'a>>(t: &'a str) -> Result<T, String> {
    let mut d = serde_json::Deserializer::from_str(t);
    T::deserialize(&mut d).map_err(|e| e.to_string())
}

/// a binary ack with these arguments and attachments
pub fn packet(args: &[&str], ds: &[Vec<u8>], how: usize) -> Result<Packet, String> {
    let t = format!("6{}-7[{}]", ds.len(), args.join(","));
    match deserialize(crate::de::tmsg(&t, how)) {
        Ok(DeserializeResult::DataNeeded(p)) => {
            let att: Vec<EMsg> = ds.iter().enumerate().map(|(i, d)| crate::de::bmsg(d, how + i)).collect();
            socket_io_protocol::socket::deserialize_partial(p, att).map_err(|e| e.to_string())
        }
        Ok(_) => Err("no attachments asked for".into()),
        Err(e) => Err(e.to_string()),
    }
}
fn arg<'p>(p: &'p Packet, i: usize) -> Result<Arg<'p>, String> {
    let (_, _, a) = crate::de::kind_of(p);
    a.ok_or("no arguments")?.get(i).ok_or_else(|| "argument missing".into())
}

#[derive(Deserialize, Debug, PartialEq, Clone)]
struct Plain<'a> {
    #[serde(borrow)]
    raw: &'a [u8],
    text: &'a str,
    owned: Vec<u8>,
    maybe: Option<Vec<u8>>,
    list: Vec<Vec<u8>>,
    pair: (Vec<u8>, u16),
    #[serde(default)]
    by_name: HashMap<String, Vec<u8>>,
}
#[derive(Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "kind")]
enum Tagged {
    One { data: Vec<u8> },
    Two { n: u32 },
}
#[derive(Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Untagged {
    Bytes(Vec<u8>),
    Text(String),
    Obj { inner: Vec<u8> },
}
#[derive(Deserialize, Debug, PartialEq, Clone)]
struct Flat {
    id: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<u8>>,
}
#[derive(Deserialize, Debug, PartialEq, Clone, Eq, PartialOrd, Ord)]
struct Name(String);
#[derive(Deserialize, Debug, PartialEq, Clone)]
enum Ext {
    Unit,
    New(Vec<u8>),
    Pair(Vec<u8>, u8),
    Rec { x: Vec<u8> },
}

fn typed<T: PartialEq + fmt::Debug>(a: &Arg, want: &str) -> Result<(), String>
where
    T: for<'x> Deserialize<'x>,
{
    let got: Result<T, String> = a.deserialize::<T>().map_err(|e| e.to_string());
    let want: Result<T, String> = parse(want);
    match (got, want) {
        (Ok(x), Ok(y)) => eq(std::any::type_name::<T>(), x, y),
        (Err(_), Err(_)) => Ok(()),
        (g, w) => Err(format!("{}: got {:?} expected {:?}", std::any::type_name::<T>(), g, w)),
    }
}
fn battery(a: &Arg, want: &str) -> Result<(), String> {
    typed::<Vec<u8>>(a, want)?;
    typed::<Option<Vec<u8>>>(a, want)?;
    typed::<Vec<Vec<u8>>>(a, want)?;
    typed::<(Vec<u8>, u16)>(a, want)?;
    typed::<BTreeMap<String, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<u64, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<i8, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<bool, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<u8, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<u16, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<u32, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<u128, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<i16, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<i32, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<i64, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<i128, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<Option<i64>, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<Name, Vec<u8>>>(a, want)?;
    typed::<BTreeMap<char, Vec<u8>>>(a, want)?;
    typed::<Tagged>(a, want)?;
    typed::<Untagged>(a, want)?;
    typed::<Flat>(a, want)?;
    typed::<Ext>(a, want)?;
    typed::<Vec<Ext>>(a, want)?;
    typed::<serde_json::Value>(a, want)
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "arguments with placeholders decoded into enumerated and random types (described as data, over the whole serde data model) and compared with plain serde_json on the text with every placeholder replaced by the numbers of its bytes";
    let pool = |r: &mut Rng| -> Vec<Vec<u8>> {
        let n = 1 + r.below(3);
        (0..n).map(|_| crate::val::bytes(r)).collect()
    };
    // real types
    let ds = vec![vec![4u8, 52, 0], vec![], vec![255, 128]];
    let hole = |k: usize| format!("{{\"_placeholder\":true,\"num\":{}}}", k);
    let num = |k: usize| format!("{:?}", ds.get(k).cloned().unwrap_or_default());
    let forms: Vec<Box<dyn Fn(&dyn Fn(usize) -> String) -> String>> = vec![
        Box::new(|h| h(0)),
        Box::new(|h| h(1)),
        Box::new(|h| format!("[{},{}]", h(2), h(0))),
        Box::new(|h| format!("[{},7]", h(2))),
        Box::new(|h| format!("{{\"k\":{},\"\\u0041\":{}}}", h(0), h(1))),
        Box::new(|h| format!("{{\"1\":{},\"2\":{}}}", h(0), h(2))),
        Box::new(|h| format!("{{\"-1\":{}}}", h(0))),
        Box::new(|h| format!("{{\" 1\":{}}}", h(0))),
        Box::new(|h| format!("{{\"x\":{}}}", h(0))),
        Box::new(|h| format!("{{\"true\":{},\"false\":{}}}", h(0), h(2))),
        Box::new(|h| format!("{{\"255\":{},\"0\":{}}}", h(0), h(2))),
        Box::new(|h| format!("{{\"300\":{}}}", h(0))),
        Box::new(|h| format!("{{\"-70000\":{}}}", h(1))),
        Box::new(|h| format!("{{\"340282366920938463463374607431768211455\":{}}}", h(0))),
        Box::new(|h| format!("{{\"-9223372036854775808\":{},\"9223372036854775807\":{}}}", h(0), h(1))),
        Box::new(|h| format!("{{\"null\":{}}}", h(0))),
        Box::new(|h| format!("{{\"kind\":\"One\",\"data\":{}}}", h(2))),
        Box::new(|h| format!("{{\"data\":{},\"kind\":\"One\"}}", h(2))),
        Box::new(|_| "{\"kind\":\"Two\",\"n\":9}".into()),
        Box::new(|h| format!("{{\"inner\":{}}}", h(2))),
        Box::new(|h| format!("{{\"id\":3,\"p\":{},\"q\":{}}}", h(0), h(2))),
        Box::new(|h| format!("{{\"p\":{},\"id\":3}}", h(1))),
        Box::new(|_| "\"Unit\"".into()),
        Box::new(|h| format!("{{\"New\":{}}}", h(0))),
        Box::new(|h| format!("{{\"Pair\":[{},8]}}", h(2))),
        Box::new(|h| format!("{{\"Rec\":{{\"x\":{}}}}}", h(0))),
        Box::new(|h| format!("[\"Unit\",{{\"New\":{}}},{{\"Rec\":{{\"x\":{}}}}}]", h(0), h(1))),
        Box::new(|_| "null".into()),
        Box::new(|_| "{}".into()),
        Box::new(|_| "{\"num\":1,\"x\":{}}".into()),
        Box::new(|_| "{\"_placeholde\":[1]}".into()),
        Box::new(|_| "\"_placeholder\"".into()),
    ];
    for (i, f) in forms.iter().enumerate() {
        let (t, p) = (f(&hole), f(&num));
        ctx.case(true, || format!("argument {} of a packet with attachments {:?}, into the real types", t, ds), || {
            let q = packet(&["\"first\"", &t], &ds, i)?;
            battery(&arg(&q, 1)?, &p)
        });
    }
    for n in [3usize, 4, 100] {
        let t = hole(n);
        ctx.case(true, || format!("argument {} of a packet with 3 attachments", t), || {
            let q = packet(&[&t], &ds, 0)?;
            let a = arg(&q, 0)?;
            if a.deserialize::<Vec<u8>>().is_ok() || a.deserialize::<&[u8]>().is_ok() || a.deserialize::<serde_json::Value>().is_ok() {
                return Err("an attachment that does not exist was accepted".into());
            }
            Ok(())
        });
    }
    for k in 0..3 {
        ctx.case(true, || format!("attachment {:?} as borrowed bytes, also within others", ds[k]), || {
            let q = packet(&[&hole(k), &format!("[[{}]]", hole(k)), &format!("{{\"a\":{}}}", hole(k))], &ds, k)?;
            let w = &ds[k][..];
            eq("bytes", arg(&q, 0)?.deserialize::<&[u8]>().map_err(|e| e.to_string())?, w)?;
            eq("optional bytes", arg(&q, 0)?.deserialize::<Option<&[u8]>>().map_err(|e| e.to_string())?, Some(w))?;
            eq("list", arg(&q, 1)?.deserialize::<Vec<(&[u8],)>>().map_err(|e| e.to_string())?, vec![(w,)])?;
            eq("map", arg(&q, 2)?.deserialize::<BTreeMap<&str, &[u8]>>().map_err(|e| e.to_string())?, vec![("a", w)].into_iter().collect())
        });
    }
    for esc in [false, true] {
        let k = |s: &str| if esc { format!("\\u{:04x}{}", s.as_bytes()[0], &s[1..]) } else { s.to_string() };
        let t = format!(
            "{{\"{}\":{},\"{}\":\"plain é\",\"{}\":{},\"{}\":{},\"{}\":[{},{}],\"{}\":[{},300],\"{}\":{{\"x\":{}}}}}",
            k("raw"), hole(0), k("text"), k("owned"), hole(2), k("maybe"), hole(1), k("list"), hole(0), hole(2), k("pair"), hole(0), k("by_name"), hole(2)
        );
        ctx.case(true, || format!("struct with borrowed bytes from {}", t), || {
            let q = packet(&[&t], &ds, 1)?;
            let got = arg(&q, 0)?.deserialize::<Plain>().map_err(|e| e.to_string())?;
            let want = Plain {
                raw: &ds[0],
                text: "plain é",
                owned: ds[2].clone(),
                maybe: Some(ds[1].clone()),
                list: vec![ds[0].clone(), ds[2].clone()],
                pair: (ds[0].clone(), 300),
                by_name: vec![("x".to_string(), ds[2].clone())].into_iter().collect(),
            };
            eq("struct", got, want)
        });
    }
    // many attachments
    for n in [1usize, 2, 10, 255, 256, 257, 300, 1100, 65537] {
        let ds: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, (i >> 8) as u8]).collect();
        let t = format!("[{}]", (0..n).rev().map(hole).collect::<Vec<_>>().join(","));
        ctx.case(true, || format!("{} placeholders in reverse order", n), || {
            let q = packet(&[&t], &ds, 0)?;
            let mut w = ds.clone();
            w.reverse();
            eq("list", arg(&q, 0)?.deserialize::<Vec<Vec<u8>>>().map_err(|e| e.to_string())?, w.clone())?;
            let b: Vec<&[u8]> = arg(&q, 0)?.deserialize().map_err(|e| e.to_string())?;
            eq("borrowed list", b, w.iter().map(|x| &x[..]).collect())
        });
    }
    // long attachments, and placeholders far back
    for n in [255usize, 256, 257, 1100, 65535, 65536, 65537, (1 << 20) + 1] {
        let ds = vec![(0..n).map(|x| (x / 251) as u8).collect::<Vec<u8>>(), vec![7]];
        let zeros = "0,".repeat(n);
        ctx.case(true, || format!("an attachment of {} bytes; {} elements and keys before a placeholder", n, n), || {
            let keys: String = (0..n.min(70000)).map(|k| format!("\"k{}\":0,", k)).collect();
            let q = packet(&[&hole(0), &format!("[{}{}]", zeros, hole(1)), &format!("{{{}\"last\":{}}}", keys, hole(1))], &ds, 0)?;
            eq("borrowed bytes", arg(&q, 0)?.deserialize::<&[u8]>().map_err(|e| e.to_string())?, &ds[0][..])?;
            eq("bytes", arg(&q, 0)?.deserialize::<Vec<u8>>().map_err(|e| e.to_string())?, ds[0].clone())?;
            let v = arg(&q, 1)?.deserialize::<serde_json::Value>().map_err(|e| e.to_string())?;
            eq("elements", v.as_array().map(|v| v.len()), Some(n + 1))?;
            eq("last element", &v[n], &serde_json::json!([7]))?;
            let v = arg(&q, 2)?.deserialize::<serde_json::Value>().map_err(|e| e.to_string())?;
            eq("keys", v.as_object().map(|v| v.len()), Some(n.min(70000) + 1))?;
            eq("last key", &v["last"], &serde_json::json!([7]))
        });
    }
    // types described as data
    let n = ctx.budget(200000);
    for i in 0..n {
        if !ctx.more() {
            break;
        }
        let ds = pool(&mut ctx.rng);
        let depth = 1 + ctx.rng.below(4);
        let sh = gen_shape(&mut ctx.rng, depth);
        let bad = ctx.rng.chance(1, 6);
        let mut b = Both { t: "".into(), p: "".into(), holes: 0, nohole: false, bad: false };
        b.val(&mut ctx.rng, &sh, &ds, depth + 1, bad);
        if b.t.len() > 20000 {
            continue;
        }
        ctx.case(b.holes > 0, || format!("argument {} of a packet with attachments {:?}, into {:?}", b.t, ds, sh), || {
            SHAPE.with(|s| *s.borrow_mut() = sh.clone());
            let q = packet(&[&b.t], &ds, i)?;
            let got = arg(&q, 0)?.deserialize::<Dyn>().map(|d| d.0).map_err(|e| e.to_string());
            let want = parse::<Dyn>(&b.p).map(|d| d.0);
            match (got, want) {
                (Ok(x), Ok(y)) => eq("value", x, y),
                (Err(_), Err(_)) => Ok(()),
                (g, w) => Err(format!("got {} expected {} (what plain decoding of {} yields)", short(&format!("{:?}", g)), short(&format!("{:?}", w)), short(&b.p))),
            }
        });
    }
}
