use crate::ctx::*;
use crate::val::{self, gen, out_of_line, text, V};
use async_tungstenite::tungstenite::Message as Ws;
use socket_io_protocol::engine::Message as EMsg;
use socket_io_protocol::socket::*;

pub const NS: [&str; 9] = ["/", "/a", "/nsp", "/é", "", "x", "/a/b", "//", "/a?q=1"];
pub const IDS: [Option<u64>; 8] = [None, Some(0), Some(1), Some(9), Some(10), Some(255), Some(4294967296), Some(u64::MAX)];

pub fn header(kind: u8, n: Option<usize>, ns: &str, id: Option<u64>) -> String {
    let mut h = format!("4{}", kind);
    if let Some(n) = n {
        h += &format!("{}-", n);
    }
    if ns != "/" {
        h += ns;
        h.push(',');
    }
    if let Some(i) = id {
        h += &i.to_string();
    }
    h
}

/// numbers of attachments (or arguments) around the places where small integers wrap
pub const COUNTS: [usize; 7] = [255, 256, 257, 300, 65535, 65536, 65537];

pub struct Built {
    pub frames: Vec<Ws>,
    pub outcomes: Vec<Result<(), String>>,
}
/// how the namespace is handed over
pub fn build(event: Option<&str>, ns: &str, id: Option<u64>, binary: bool, args: &[V], how: usize) -> Built {
    let mut b = match (event, how % 2) {
        (Some(e), 0) => PacketBuilder::new_event(e, ns, id, binary),
        (Some(e), _) => PacketBuilder::new_event(e, ns.to_string(), id, binary),
        (None, 0) => PacketBuilder::new_ack(ns, id.unwrap_or(0), binary),
        (None, _) => PacketBuilder::new_ack(ns.to_string(), id.unwrap_or(0), binary),
    };
    let outcomes = args.iter().map(|a| b.serialize_arg(a).map_err(|e| e.to_string())).collect();
    Built { frames: b.finish(), outcomes }
}

/// the frames expected: only the arguments in `accepted`
pub fn expect(event: Option<&str>, ns: &str, id: Option<u64>, binary: bool, accepted: &[V]) -> Vec<Ws> {
    let mut bufs = vec![];
    let mut parts = vec![];
    if let Some(e) = event {
        parts.push(serde_json::to_string(e).unwrap());
    }
    for a in accepted {
        let x = if binary { out_of_line(a, &mut bufs) } else { a.clone() };
        parts.push(serde_json::to_string(&x).unwrap());
    }
    let kind = match (event.is_some(), binary) {
        (true, false) => 2,
        (false, false) => 3,
        (true, true) => 5,
        (false, true) => 6,
    };
    let id = if event.is_some() { id } else { Some(id.unwrap_or(0)) };
    let mut t = header(kind, if binary { Some(bufs.len()) } else { None }, ns, id);
    if !parts.is_empty() {
        t += &format!("[{}]", parts.join(","));
    }
    let mut f = vec![Ws::Text(t)];
    for b in bufs {
        let mut d = vec![4u8];
        d.extend(b);
        f.push(Ws::Binary(d));
    }
    f
}

fn fails(v: &V) -> bool {
    // serde_json writes bytes as an array and refuses only what it documents; a byte string as a map key cannot occur here
    serde_json::to_string(v).is_err()
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "encode event/ack/connect/disconnect packets over enumerated namespaces, ids, modes and seeded arguments; compare everything before the argument list, and the attachment count";
    let more: Vec<String> = (0..200).map(|_| ctx.rng.ns()).collect();
    for ns in NS.iter().map(|s| s.to_string()).chain((1..30).map(|n| "/".to_string() + &"n".repeat(n))).chain(more) {
        for (k, m) in [(0, serialize_connect(&ns)), (1, serialize_disconnect(&ns))] {
            let want = header(k, None, &ns, None);
            ctx.case(true, || format!("kind {} namespace {:?}", k, ns), || match m {
                EMsg::Text(t) => eq("text", &*t, want.as_str()),
                x => Err(format!("{:?}", x)),
            });
        }
    }
    let n = ctx.budget(4000);
    let mut combos = vec![];
    for ev in [true, false] {
        for binary in [true, false] {
            for ns in NS {
                for id in IDS {
                    combos.push((ev, binary, ns.to_string(), id));
                }
            }
        }
    }
    for i in 0..n + combos.len() {
        let (ev, binary, ns, id) = if i < combos.len() {
            combos[i].clone()
        } else {
            let ns = if ctx.rng.chance(1, 2) { ctx.rng.pick(&NS).to_string() } else {
                match ctx.rng.below(2) {
                    0 => ctx.rng.ns(),
                    _ => format!("/{}", text(&mut ctx.rng)),
                }
            };
            let id = if ctx.rng.chance(1, 2) { Some(ctx.rng.int()) } else { *ctx.rng.pick(&IDS) };
            (ctx.rng.chance(1, 2), ctx.rng.chance(1, 2), ns, id)
        };
        let e = text(&mut ctx.rng);
        let k = ctx.rng.below(4);
        let mut args: Vec<V> = (0..k).map(|_| gen(&mut ctx.rng, 2, false)).collect();
        if ctx.rng.chance(1, 8) {
            let m = match ctx.rng.below(16) {
                0 => ctx.rng.size(400),
                1 => 250 + ctx.rng.below(60),
                _ => 8 + ctx.rng.below(8),
            };
            args.extend((0..m).map(|j| V::Bytes(vec![j as u8])));
        }
        let many = if i >= combos.len() { COUNTS.get(i - combos.len()) } else { None };
        if let Some(m) = many {
            args = (0..*m).map(|j| V::Bytes(vec![j as u8])).collect();
        }
        let binary = binary || many.is_some();
        let id = if ev { id } else { Some(id.unwrap_or(3)) };
        ctx.case(true, || format!("event {:?} ns {:?} id {:?} binary {} args {:?}", ev.then(|| e.clone()), ns, id, binary, args), || {
            let b = build(ev.then(|| e.as_str()), &ns, id, binary, &args, i);
            let kind = match (ev, binary) {
                (true, false) => 2,
                (false, false) => 3,
                (true, true) => 5,
                (false, true) => 6,
            };
            let natt = b.frames.len() - 1;
            let h = header(kind, if binary { Some(natt) } else { None }, &ns, id);
            if !binary && natt != 0 {
                return Err("text packet with several frames".into());
            }
            for f in &b.frames[1..] {
                if !matches!(f, Ws::Binary(_)) {
                    return Err(format!("attachment frame {:?}", f));
                }
            }
            match &b.frames[0] {
                Ws::Text(t) if t.starts_with(&h) && (t.len() == h.len() || t[h.len()..].starts_with('[')) => Ok(()),
                t => Err(format!("header frame {:?}, expected {:?} and then the arguments", t, h)),
            }
        });
    }
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "histories of additions, some of which fail at different depths; the finished frames must be those of the accepted arguments alone";
    let n = ctx.budget(12000);
    for i in 0..n {
        let ev = ctx.rng.chance(1, 2);
        let binary = ctx.rng.chance(2, 3);
        let e = text(&mut ctx.rng);
        let ns = if ctx.rng.chance(1, 3) { ctx.rng.ns() } else { ctx.rng.pick(&NS).to_string() };
        let id = if ev { *ctx.rng.pick(&IDS) } else { Some(ctx.rng.int()) };
        let k = ctx.rng.below(6);
        let args: Vec<V> = (0..k)
            .map(|_| {
                if ctx.rng.chance(1, 4) {
                    // attachments first, the failure later
                    let d = gen(&mut ctx.rng, 1, false);
                    let t = V::Tuple(vec![V::Bytes(val::bytes(&mut ctx.rng)), d, V::Seq(vec![V::U8(1), V::Bytes(vec![2]), V::Fail], true)]);
                    t
                } else {
                    gen(&mut ctx.rng, 3, true)
                }
            })
            .collect();
        let args = if i < 2 * COUNTS.len() {
            // many additions, one of which fails after attachments of its own
            let m = COUNTS[i / 2];
            let mut a: Vec<V> = (0..m).map(|j| if i % 2 == 0 { V::Bytes(vec![j as u8]) } else { V::U16(j as u16) }).collect();
            a.push(V::Tuple(vec![V::Bytes(vec![1, 2]), V::Seq(vec![V::U8(1), V::Fail], true)]));
            a.push(V::Bytes(vec![m as u8]));
            a
        } else {
            args
        };
        let nontrivial = args.iter().any(fails) || k > 0;
        ctx.case(nontrivial, || format!("event {:?} ns {:?} id {:?} binary {} additions {:?}", ev.then(|| e.clone()), ns, id, binary, args), || {
            let b = build(ev.then(|| e.as_str()), &ns, id, binary, &args, i);
            let ok: Vec<V> = args.iter().zip(&b.outcomes).filter(|(_, o)| o.is_ok()).map(|(a, _)| a.clone()).collect();
            for (a, o) in args.iter().zip(&b.outcomes) {
                if o.is_ok() && fails(a) {
                    return Err(format!("{:?} was accepted", a));
                }
                if o.is_err() && !fails(a) {
                    return Err(format!("{:?} was refused: {:?}", a, o));
                }
            }
            eq("frames", b.frames, expect(ev.then(|| e.as_str()), &ns, id, binary, &ok))
        });
    }
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "values over the whole serde data model in one to four arguments, text and binary packets, compared with an independent substitution of placeholders followed by serde_json";
    let n = ctx.budget(15000);
    let one = |ctx: &mut Ctx, args: Vec<V>, binary: bool| {
        ctx.case(true, || format!("binary {} arguments {:?}", binary, args), || {
            let b = build(None, "/", Some(1), binary, &args, 0);
            if let Some(Err(e)) = b.outcomes.iter().find(|o| o.is_err()) {
                return Err(format!("refused: {}", e));
            }
            let w = expect(None, "/", Some(1), binary, &args);
            eq("frames", b.frames, w)
        });
    };
    // every kind alone and inside every container
    let leaves = vec![
        V::Bytes(vec![]), V::Bytes(vec![4]), V::Bytes(vec![1, 2]), V::Seq(vec![], true), V::Seq(vec![], false),
        V::Seq(vec![V::U8(4)], true), V::Seq(vec![V::U8(1), V::U8(2)], false), V::Seq(vec![V::U8(1), V::U16(2), V::U8(3)], true),
        V::Seq(vec![V::U8(1), V::U8(2), V::Bytes(vec![3])], false), V::Tuple(vec![V::U8(1), V::U8(2)]), V::TupleStruct(vec![V::U8(1)]),
        V::U8(5), V::I8(5), V::U16(5), V::Unit, V::None, V::Str("é\"".into()), V::Char('x'), V::F64(1.5), V::Bool(true), V::UnitStruct, V::UnitVariant,
        V::Human, V::I128(5), V::U128(7), V::I64(-1), V::U64(u64::MAX), V::F32(0.5), V::I16(3), V::I32(3), V::U32(9), V::Shown("s".into()),
    ];
    for l in &leaves {
        let b = || Box::new(l.clone());
        let wraps = vec![
            l.clone(),
            V::Some(b()),
            V::Newtype(b()),
            V::NewtypeVariant(b()),
            V::Seq(vec![l.clone()], true),
            V::Seq(vec![l.clone(), l.clone()], false),
            V::Seq(vec![V::U8(7), l.clone()], true),
            V::Seq(vec![l.clone(), V::U8(7)], true),
            V::Seq(vec![V::Str("q".into()), l.clone()], false),
            V::Tuple(vec![l.clone(), l.clone()]),
            V::TupleStruct(vec![l.clone()]),
            V::TupleVariant(vec![l.clone(), V::U8(1)]),
            V::Map(vec![(V::Str("k".into()), l.clone()), (V::I32(3), l.clone())], false),
            V::Map(vec![(V::Str("k".into()), l.clone())], true),
            V::Struct(vec![l.clone(), l.clone(), l.clone()]),
            V::StructVariant(vec![l.clone(), V::Bytes(vec![9]), l.clone()]),
        ];
        for w in wraps {
            for binary in [true, false] {
                one(ctx, vec![w.clone()], binary);
                one(ctx, vec![V::Bytes(vec![8]), w.clone(), w.clone()], binary);
            }
        }
    }
    for len in [15usize, 16, 17, 127, 128, 255, 256, 300, 1024, 70000] {
        one(ctx, vec![V::Bytes((0..len).map(|x| x as u8).collect())], true);
        one(ctx, vec![V::Seq((0..len).map(|x| V::U8(x as u8)).collect(), true)], true);
        let mut q: Vec<V> = (0..len).map(|x| V::U8(x as u8)).collect();
        q.push(V::U16(300));
        one(ctx, vec![V::Seq(q, true)], true);
    }
    for m in COUNTS {
        // in one argument, and over many
        let many: Vec<V> = (0..m).map(|j| V::Bytes(vec![j as u8, (j >> 8) as u8])).collect();
        one(ctx, vec![V::Seq(many.clone(), true)], true);
        one(ctx, many, true);
    }
    one(ctx, vec![V::Seq((0..131073).map(|j| V::Bytes(vec![j as u8])).collect(), true)], true);
    for _ in 0..n {
        let k = 1 + ctx.rng.below(4);
        let args: Vec<V> = (0..k).map(|_| gen(&mut ctx.rng, 4, false)).collect();
        let binary = ctx.rng.chance(3, 4);
        one(ctx, args, binary);
    }
}
