//! C14: what is encoded is what is decoded
use crate::ctx::*;
use crate::de::kind_of;
use crate::ser::build;
use crate::val::{bytes, gen, text, V};
use async_tungstenite::tungstenite::Message as Ws;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_protocol::engine::{Decoder, Message as EMsg, Packet as EPacket};
use socket_io_protocol::socket::*;

/// the receiving side: one engine session, then packets completed by their attachments
pub struct Session {
    dec: Decoder,
    partial: Option<(Partial, Vec<EMsg>)>,
}
impl Session {
    pub fn open() -> Result<Session, String> {
        let mut dec = Decoder::new();
        match dec.decode(Ws::Text("0{\"sid\":\"s\",\"upgrades\":[],\"pingTimeout\":1,\"pingInterval\":2}".into())) {
            Ok(EPacket::Open(_)) => Ok(Session { dec, partial: None }),
            x => Err(format!("open: {:?}", x.map(|_| ()).map_err(|e| e.to_string()))),
        }
    }
    /// a packet when this frame completed one
    pub fn take(&mut self, f: Ws) -> Result<Option<Packet>, String> {
        let m = match self.dec.decode(f).map_err(|e| e.to_string())? {
            EPacket::Message(m) => m,
            x => return Err(format!("not a message: {:?}", x)),
        };
        match self.partial.take() {
            Some((p, mut v)) => {
                v.push(m);
                if v.len() as u64 == p.attachments() {
                    return deserialize_partial(p, v).map(Some).map_err(|e| e.to_string());
                }
                self.partial = Some((p, v));
                Ok(None)
            }
            None => match deserialize(m).map_err(|e| e.to_string())? {
                DeserializeResult::Packet(p) => Ok(Some(p)),
                DeserializeResult::DataNeeded(p) => {
                    self.partial = Some((p, vec![]));
                    Ok(None)
                }
            },
        }
    }
}
/// feeds all frames; only the last may complete a packet
pub fn feed(s: &mut Session, fs: Vec<Ws>) -> Result<Packet, String> {
    let n = fs.len();
    for (i, f) in fs.into_iter().enumerate() {
        match s.take(f) {
            Err(e) => return Err(format!("frame {} of {} refused: {}", i + 1, n, e)),
            Ok(Some(p)) if i + 1 == n => return Ok(p),
            Ok(Some(_)) => return Err(format!("complete after frame {} of {}", i + 1, n)),
            Ok(None) => {}
        }
    }
    Err("not complete after its last frame".into())
}

fn looks_like_placeholder(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(looks_like_placeholder),
        Value::Object(m) => m.contains_key("_placeholder") || m.values().any(looks_like_placeholder),
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq)]
struct Blob(Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct B;
        impl<'de> serde::de::Visitor<'de> for B {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Blob, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(B)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Rec {
    name: String,
    data: Blob,
    list: Vec<u8>,
    opt: Option<Blob>,
    kind: Kind,
    pair: (Blob, i64),
    map: std::collections::BTreeMap<String, Blob>,
    f: f64,
    n: u64,
    mixed: Vec<u16>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Kind {
    A,
    B(Blob),
    C(u8, Blob),
    D { x: Option<Blob> },
}
fn rec(r: &mut Rng) -> Rec {
    let blob = |r: &mut Rng| Blob(bytes(r));
    Rec {
        name: text(r),
        data: blob(r),
        list: bytes(r),
        opt: if r.chance(1, 2) { Some(blob(r)) } else { None },
        kind: match r.below(4) {
            0 => Kind::A,
            1 => Kind::B(blob(r)),
            2 => Kind::C(7, blob(r)),
            _ => Kind::D { x: if r.chance(1, 2) { Some(blob(r)) } else { None } },
        },
        pair: (blob(r), *r.pick(&[0, -1, i64::MIN])),
        map: (0..r.below(3)).map(|i| (format!("{}{}", text(r), i), blob(r))).collect(),
        f: *r.pick(&[0.0, -1.5, 1e300]),
        n: *r.pick(&[0, 1, u64::MAX]),
        mixed: (0..r.below(3)).map(|_| *r.pick(&[1u16, 300])).collect(),
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "events and acks with enumerated and seeded namespaces, ids, names and arguments are encoded; their frames go, after other packets, through one engine decoder and the packet decoder; compared with what was encoded";
    const NS: [&str; 12] = ["/", "/a", "/nsp", "/é", "/a/b", "//", "/a?q=1", "/1", "/[", "/-", "/ ", "/\n"];
    let n = ctx.budget(40000);
    let mut session: Option<Session> = None;
    for i in 0..n {
        let ev = ctx.rng.chance(1, 2);
        let binary = ctx.rng.chance(2, 3);
        let ns = if ctx.rng.chance(2, 3) { ctx.rng.pick(&NS).to_string() } else { format!("/{}x", text(&mut ctx.rng).replace(',', "")) };
        let ns = if ctx.rng.chance(1, 4) { ctx.rng.ns() } else { ns };
        let id = match ctx.rng.below(4) {
            0 => None,
            1 => Some(ctx.rng.int()),
            _ => *ctx.rng.pick(&crate::ser::IDS),
        };
        let id = if ev { id } else { Some(id.unwrap_or(3)) };
        let name = text(&mut ctx.rng);
        let typed = i >= 24 + crate::ser::COUNTS.len() && ctx.rng.chance(1, 3);
        let k = ctx.rng.below(4);
        let recs: Vec<Rec> = (0..if typed { k } else { 0 }).map(|_| rec(&mut ctx.rng)).collect();
        let mut vals: Vec<V> = (0..if typed { 0 } else { k }).map(|_| gen(&mut ctx.rng, 3, false)).collect();
        if !typed && ctx.rng.chance(1, 20) {
            let m = 9 + ctx.rng.below(120);
            vals.extend((0..m).map(|j| V::Bytes(vec![j as u8])));
        }
                if i < 24 {
            vals = vec![V::Bytes(vec![i as u8; [65535, 65536, 65537, 70001, 131072, 1 << 20][i as usize % 6]])];
            if i >= 12 {
                vals = vec![V::Str("x".repeat([65535, 65536, 65537, 70001, 131072, 1 << 20][i as usize % 6])), V::Bytes(vec![1])];
            }
        }
        let binary = if let Some(m) = (24..24 + crate::ser::COUNTS.len()).contains(&i).then(|| crate::ser::COUNTS[i - 24]) {
            let one: Vec<V> = (0..m).map(|j| V::Bytes(vec![j as u8, (j >> 8) as u8])).collect();
            vals = if i % 2 == 0 { one } else { vec![V::Tuple(one)] };
            true
        } else {
            binary
        };
        if ctx.rng.chance(1, 50) {
            session = None;
        }
        let mut s = match session.take() {
            Some(s) => s,
            None => Session::open().unwrap_or_else(|e| panic!("{}", e)),
        };
        let sr = &mut s;
        ctx.case(true, || format!("event {:?} ns {:?} id {:?} binary {} args {:?} {:?}", ev.then(|| name.clone()), ns, id, binary, vals, recs), || {
            let frames = if typed {
                let mut b = if ev { PacketBuilder::new_event(&name, ns.clone(), id, binary) } else { PacketBuilder::new_ack(ns.clone(), id.unwrap_or(0), binary) };
                for r in &recs {
                    b.serialize_arg(r).map_err(|e| format!("refused: {}", e))?;
                }
                b.finish()
            } else {
                let b = build(ev.then(|| name.as_str()), &ns, id, binary, &vals, i);
                if let Some(Err(e)) = b.outcomes.iter().find(|o| o.is_err()) {
                    return Err(format!("refused: {}", e));
                }
                b.frames
            };
            let p = feed(sr, frames)?;
            let (kind, got_id, args) = kind_of(&p);
            eq("type", kind, if ev { 2 } else { 3 })?;
            eq("namespace", p.namespace(), ns.as_str())?;
            eq("id", got_id, id)?;
            let args = args.ok_or("no arguments")?;
            let off = ev as usize;
            eq("number of arguments", args.len(), off + vals.len() + recs.len())?;
            let at = |i: usize| args.get(i).ok_or_else(|| format!("no argument {}", i));
            if ev {
                eq("event name", at(0)?.deserialize::<String>().map_err(|e| e.to_string())?, name.clone())?;
            }
            for (j, r) in recs.iter().enumerate() {
                eq("typed argument", at(off + j)?.deserialize::<Rec>().map_err(|e| e.to_string())?, r.clone())?;
            }
            for (j, v) in vals.iter().enumerate() {
                let want = match serde_json::from_str::<Value>(&serde_json::to_string(v).map_err(|e| e.to_string())?) {
                    Ok(w) => w,
                    Err(_) => continue,
                };
                if binary && looks_like_placeholder(&want) {
                    continue;
                }
                let a = at(off + j)?;
                eq("argument as a JSON value", a.to_json_value().map_err(|e| e.to_string())?, want.clone())?;
                eq("argument decoded into a JSON value", a.deserialize::<Value>().map_err(|e| e.to_string())?, want)?;
            }
            Ok(())
        });
        session = Some(s);
    }
}
