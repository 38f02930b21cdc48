use crate::ctx::*;
use async_tungstenite::tungstenite::Message as Ws;
use socket_io_protocol::engine::*;

#[derive(Debug, Clone, PartialEq)]
enum Obs {
    Err,
    Open(String, u64, u64),
    Close,
    Ping,
    Pong,
    Text(Vec<u8>),
    Bin(Vec<u8>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum S {
    I,
    A,
    C,
}

fn observe(d: &mut Decoder, m: Ws) -> Obs {
    match d.decode(m) {
        Err(_) => Obs::Err,
        Ok(Packet::Open(o)) => Obs::Open(o.sid, o.ping_timeout, o.ping_interval),
        Ok(Packet::Close) => Obs::Close,
        Ok(Packet::Ping) => Obs::Ping,
        Ok(Packet::Pong) => Obs::Pong,
        Ok(Packet::Message(Message::Text(t))) => Obs::Text(t.as_bytes().to_vec()),
        Ok(Packet::Message(Message::Binary(b))) => Obs::Bin(b.to_vec()),
    }
}

/// the open handshake object, read independently of the crate
fn open_of(t: &str) -> Option<Obs> {
    // duplicate keys are rejected by the decoder and silently merged by Value: not generated here
    let v: serde_json::Value = serde_json::from_str(t).ok()?;
    let o = v.as_object()?;
    Some(Obs::Open(
        o.get("sid")?.as_str()?.to_string(),
        o.get("pingTimeout")?.as_u64()?,
        o.get("pingInterval")?.as_u64()?,
    ))
}

fn step(s: S, m: &Ws) -> (S, Obs) {
    let no = (s, Obs::Err);
    if s == S::C {
        return no;
    }
    match m {
        Ws::Text(t) => {
            let b = t.as_bytes();
            match (b.first(), s) {
                (Some(b'0'), S::I) => match open_of(&t[1..]) {
                    Some(o) => (S::A, o),
                    None => no,
                },
                (Some(b'1'), S::A) => (S::C, Obs::Close),
                (Some(b'2'), S::A) => (s, Obs::Ping),
                (Some(b'3'), S::A) => (s, Obs::Pong),
                (Some(b'4'), S::A) => (s, Obs::Text(b[1..].to_vec())),
                _ => no,
            }
        }
        Ws::Binary(b) if s == S::A && b.first() == Some(&4) => (s, Obs::Bin(b[1..].to_vec())),
        _ => no,
    }
}

fn show(m: &Ws) -> String {
    format!("{:?}", m)
}

const OPEN: &str = "0{\"sid\":\"s1\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}";

fn alphabet() -> Vec<Ws> {
    let t = |s: &str| Ws::Text(s.to_string());
    vec![
        t(OPEN),
        t("0{\"sid\":\"\u{e9}\",\"pingTimeout\":0,\"pingInterval\":18446744073709551615}"),
        t("0"),
        t("0{\"sid\":1}"),
        t("1"),
        t("1x"),
        t("2"),
        t("2probe"),
        t("3"),
        t("3probe"),
        t("4"),
        t("42[\"a\"]"),
        t("4\u{1F600}x"),
        t("5"),
        t("6"),
        t(""),
        t("x"),
        t("\u{20ac}4"),
        Ws::Binary(vec![]),
        Ws::Binary(vec![4]),
        Ws::Binary(vec![4, 1, 2, 4]),
        Ws::Binary(vec![3, 4]),
        Ws::Binary(vec![b'4', 1]),
        Ws::Ping(vec![]),
        Ws::Pong(vec![4]),
        Ws::Close(None),
    ]
}

fn run_seq(ctx: &mut Ctx, ms: Vec<Ws>) {
    let nontrivial = ms.len() > 1;
    let d = || ms.iter().map(show).collect::<Vec<_>>().join(" ; ");
    ctx.case(nontrivial, d, || {
        let mut dec = Decoder::new();
        let mut s = S::I;
        for (i, m) in ms.iter().enumerate() {
            let (s2, want) = step(s, m);
            let got = observe(&mut dec, m.clone());
            eq(&format!("frame {} in state {:?}", i, s), got, want)?;
            s = s2;
        }
        Ok(())
    });
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "sequences of websocket frames fed to one decoder: all of length <= 3 over 26 frames, then seeded longer ones; nontrivial: at least two frames";
    let a = alphabet();
    for x in &a {
        run_seq(ctx, vec![x.clone()]);
        for y in &a {
            run_seq(ctx, vec![x.clone(), y.clone()]);
            for z in &a {
                run_seq(ctx, vec![x.clone(), y.clone(), z.clone()]);
            }
        }
    }
    for _ in 0..ctx.budget(6000) {
        let n = 4 + ctx.rng.below(12);
        let mut v = vec![];
        for i in 0..n {
            // bias towards an opened session
            if i < 2 && ctx.rng.chance(1, 2) {
                v.push(a[0].clone());
            } else {
                v.push(ctx.rng.pick(&a).clone());
            }
        }
        run_seq(ctx, v);
    }
    // the default decoder is a fresh one
    ctx.case(true, || "Decoder::default() then message".into(), || {
        let mut d = Decoder::default();
        eq("before open", observe(&mut d, Ws::Text("2".into())), Obs::Err)
    });
}

pub fn rand_text(r: &mut Rng, max: usize) -> String {
    match r.below(12) {
        0 => return r.word(),
        1 => {
            let n = r.size(3000);
            let c = *r.pick(&['a', '4', '\u{e9}', '\u{1F600}', '\u{0}']);
            return (0..n).map(|_| c).collect();
        }
        2 => return r.int().to_string(),
        _ => {}
    }
    let n = r.below(max + 1);
    let pool = ['0', '1', '2', '3', '4', '5', 'a', '"', '\\', '{', '}', '[', ']', ',', ':', '\u{0}', '\n', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{20ac}', '\u{ffff}', '\u{10000}', '\u{1F600}', ' '];
    (0..n).map(|_| *r.pick(&pool)).collect()
}
pub fn rand_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = if r.chance(1, 12) { r.size(3000) } else { r.below(max + 1) };
    (0..n).map(|_| if r.chance(1, 3) { *r.pick(&[0u8, 4, b'4', 127, 128, 255]) } else { r.next() as u8 }).collect()
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "single frames to a fresh, an open and a closed decoder: every first byte/character, payloads enumerated and seeded (multi-byte, embedded headers, long); nontrivial: accepted frames";
    let mut frames: Vec<Ws> = alphabet();
    for c in 0u32..0x300 {
        if let Some(c) = std::char::from_u32(c) {
            for p in &["", "4", "x\u{e9}", "{\"sid\":\"a\",\"pingTimeout\":1,\"pingInterval\":2}"] {
                frames.push(Ws::Text(format!("{}{}", c, p)));
            }
        }
    }
    for b in 0..=255u8 {
        for p in &[vec![], vec![4u8], vec![b, b], vec![0u8; 70000]] {
            let mut v = vec![b];
            v.extend_from_slice(p);
            if p.len() < 100 || b == 4 {
                frames.push(Ws::Binary(v));
            }
        }
    }
    frames.push(Ws::Text(format!("4{}", "\u{e9}".repeat(40000))));
    for n in [65534usize, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1] {
        frames.push(Ws::Text(format!("4{}z", "y".repeat(n))));
        let mut b = vec![4u8; n + 1];
        b.push(9);
        frames.push(Ws::Binary(b));
    }
    for o in &[
        "{}", "[]", "{\"sid\":\"a\"}", "{\"sid\":\"a\",\"pingTimeout\":1}", "{\"sid\":\"a\",\"pingInterval\":1}",
        "{\"pingInterval\":1,\"pingTimeout\":2}", "{\"sid\":null,\"pingInterval\":1,\"pingTimeout\":2}",
        "{\"sid\":\"a\",\"pingInterval\":-1,\"pingTimeout\":2}", "{\"sid\":\"a\",\"pingInterval\":1.5,\"pingTimeout\":2}",
        "{\"sid\":\"a\",\"pingInterval\":18446744073709551616,\"pingTimeout\":2}",
        "{\"sid\":\"a\",\"ping_interval\":1,\"ping_timeout\":2}",
        "{\"sid\":\"\\u00e9\\n\",\"pingInterval\":3,\"pingTimeout\":4} ", " {\"sid\":\"\",\"pingInterval\":7,\"pingTimeout\":8}",
        "{\"sid\":\"a\",\"pingInterval\":3,\"pingTimeout\":4}x", "{\"sid\":\"a\",\"pingInterval\":3,\"pingTimeout\":4",
        "{\"upgrades\":[\"x\"],\"pingTimeout\":9,\"maxPayload\":10,\"pingInterval\":11,\"sid\":\"zz\"}", "null", "1", "\"a\"",
    ] {
        frames.push(Ws::Text(format!("0{}", o)));
    }
    for _ in 0..ctx.budget(20000) {
        let f = match ctx.rng.below(10) {
            0..=5 => {
                let h = *ctx.rng.pick(&['4', '4', '4', '2', '3', '1', '0', '\u{e9}']);
                Ws::Text(format!("{}{}", h, rand_text(&mut ctx.rng, 40)))
            }
            6 => {
                let (a, b) = (ctx.rng.int(), ctx.rng.int());
                let sid = serde_json::to_string(&rand_text(&mut ctx.rng, 10)).unwrap();
                Ws::Text(format!("0{{\"sid\":{},\"pingInterval\":{},\"pingTimeout\":{}}}", sid, a, b))
            }
            7 => Ws::Text(rand_text(&mut ctx.rng, 20)),
            _ => {
                let mut v = vec![*ctx.rng.pick(&[4u8, 4, 4, 0, 52])];
                v.extend(rand_bytes(&mut ctx.rng, 60));
                Ws::Binary(v)
            }
        };
        frames.push(f);
    }
    for f in frames {
        for s in &[S::I, S::A, S::C] {
            let (_, want) = step(*s, &f);
            ctx.case(want != Obs::Err, || format!("state {:?}, frame {}", s, short(&show(&f))), || {
                let mut d = Decoder::new();
                if *s != S::I {
                    d.decode(Ws::Text(OPEN.into())).map_err(|e| format!("open refused: {:?}", e))?;
                }
                if *s == S::C {
                    d.decode(Ws::Text("1".into())).map_err(|e| format!("close refused: {:?}", e))?;
                }
                eq("decoded", observe(&mut d, f.clone()), want)
            });
        }
    }
}

fn open_decoder() -> Decoder {
    let mut d = Decoder::new();
    d.decode(Ws::Text(OPEN.into())).unwrap();
    d
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "payloads encoded and the frame compared byte for byte, then decoded by an open decoder; nontrivial: non-empty payload";
    let mut texts: Vec<String> = vec!["".into(), "4".into(), "2[\"a\"]".into(), "\u{0}".into(), "{}".into(), "{0}".into(), "\u{1F600}".repeat(3), "x".repeat(70000)];
    let mut bins: Vec<Vec<u8>> = vec![vec![], vec![4], vec![0], vec![4, 4, 4], (0..=255).collect(), vec![7; 70000]];
    for n in [65534usize, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1] {
        texts.push("y".repeat(n) + "z");
        let mut b = vec![4u8; n];
        b.push(9);
        bins.push(b);
    }
    for c in 0u32..0x900 {
        if let Some(c) = std::char::from_u32(c) {
            texts.push(c.to_string());
        }
    }
    for b in 0..=255 {
        bins.push(vec![b]);
    }
    for _ in 0..ctx.budget(10000) {
        texts.push(rand_text(&mut ctx.rng, 50));
        bins.push(rand_bytes(&mut ctx.rng, 80));
    }
    for t in texts {
        ctx.case(!t.is_empty(), || format!("text {:?}", short(&t)), || {
            let f = encode_message(&t);
            eq("encode_message", &f, &Ws::Text(format!("4{}", t)))?;
            eq("package_message", &package_message(format!("4{}", t)), &f)?;
            eq("decoded", observe(&mut open_decoder(), f), Obs::Text(t.as_bytes().to_vec()))
        });
    }
    for b in bins {
        ctx.case(!b.is_empty(), || format!("binary {:?}", short(&format!("{:?}", b))), || {
            let mut v = vec![4u8];
            v.extend_from_slice(&b);
            let f = encode_binary(&b);
            eq("encode_binary", &f, &Ws::Binary(v.clone()))?;
            eq("package_binary", &package_binary(v), &f)?;
            eq("decoded", observe(&mut open_decoder(), f), Obs::Bin(b.clone()))
        });
    }
    ctx.case(true, || "heartbeats".into(), || {
        eq("ping", encode_ping(), Ws::Text("2".into()))?;
        eq("pong", encode_pong(), Ws::Text("3".into()))?;
        eq("decoded ping", observe(&mut open_decoder(), encode_ping()), Obs::Ping)?;
        eq("decoded pong", observe(&mut open_decoder(), encode_pong()), Obs::Pong)?;
        eq("header constants", (MESSAGE_HEADER, BINARY_HEADER), ('4', 4))
    });
}
