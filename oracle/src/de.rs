//! Decoding of packets: C06, C07, C08, C09, C10
use crate::ctx::*;
use owned_subslice::OwnedSubslice;
use serde::Deserialize;
use serde_json::value::RawValue;
use serde_json::Value;
use socket_io_protocol::engine::Message as EMsg;
use socket_io_protocol::socket::*;
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ an independent reader of the grammar
#[derive(Debug, Clone, PartialEq)]
pub struct Hdr {
    pub kind: u8,
    pub count: Option<u64>,
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<String>,
}

fn canonical(d: &str) -> Option<u64> {
    if d.len() > 1 && d.starts_with('0') {
        return None;
    }
    let mut n: u128 = 0;
    for c in d.bytes() {
        n = n * 10 + (c - b'0') as u128;
        if n > u64::MAX as u128 {
            return None;
        }
    }
    Some(n as u64)
}
fn digits(t: &str) -> &str {
    &t[..t.bytes().take_while(|c| c.is_ascii_digit()).count()]
}
pub fn read(t: &str) -> Option<Hdr> {
    let kind = t.bytes().next()?;
    if !b"012356".contains(&kind) {
        return None;
    }
    let mut r = &t[1..];
    let d = digits(r);
    let mut count = None;
    if !d.is_empty() && r[d.len()..].starts_with('-') {
        count = Some(canonical(d)?);
        r = &r[d.len() + 1..];
    }
    let mut ns = "/".to_string();
    if r.starts_with('/') {
        let c = r.find(',')?;
        if c < 2 {
            return None;
        }
        ns = r[..c].to_string();
        r = &r[c + 1..];
    }
    let d = digits(r);
    let mut id = None;
    if !d.is_empty() {
        id = Some(canonical(d)?);
        r = &r[d.len()..];
    }
    let mut args = vec![];
    if !r.is_empty() {
        if !r.starts_with('[') || !r.ends_with(']') || r.len() < 2 || r.contains('\n') {
            return None;
        }
        args = elements(r)?;
    }
    Some(Hdr { kind: kind - b'0', count, ns, id, args })
}

/// the texts of the elements of a JSON array
pub fn elements(t: &str) -> Option<Vec<String>> {
    let b = t.as_bytes();
    let mut p = ws(b, 0);
    if b.get(p) != Some(&b'[') {
        return None;
    }
    p = ws(b, p + 1);
    let mut out = vec![];
    if b.get(p) == Some(&b']') {
        p += 1;
    } else {
        loop {
            p = ws(b, p);
            let q = value(b, p)?;
            out.push(t[p..q].to_string());
            p = ws(b, q);
            match b.get(p) {
                Some(b',') => p += 1,
                Some(b']') => {
                    p += 1;
                    break;
                }
                _ => return None,
            }
        }
    }
    if ws(b, p) == b.len() {
        Some(out)
    } else {
        None
    }
}
fn ws(b: &[u8], mut p: usize) -> usize {
    while p < b.len() && matches!(b[p], b' ' | b'\t' | b'\r' | b'\n') {
        p += 1;
    }
    p
}
/// end of the JSON value that starts at p (no recursion: nesting may be deep)
fn value(b: &[u8], mut p: usize) -> Option<usize> {
    let mut open: Vec<u8> = vec![];
    'v: loop {
        p = ws(b, p);
        match *b.get(p)? {
            b'[' => {
                p = ws(b, p + 1);
                if b.get(p) == Some(&b']') {
                    p += 1;
                } else {
                    open.push(b'[');
                    continue 'v;
                }
            }
            b'{' => {
                p = ws(b, p + 1);
                if b.get(p) == Some(&b'}') {
                    p += 1;
                } else {
                    open.push(b'{');
                    p = key(b, p)?;
                    continue 'v;
                }
            }
            b'"' => p = string(b, p)?,
            b't' if b[p..].starts_with(b"true") => p += 4,
            b'f' if b[p..].starts_with(b"false") => p += 5,
            b'n' if b[p..].starts_with(b"null") => p += 4,
            b'-' | b'0'..=b'9' => p = number(b, p)?,
            _ => return None,
        }
        loop {
            match open.last() {
                None => return Some(p),
                Some(o) => {
                    p = ws(b, p);
                    match (*b.get(p)?, o) {
                        (b',', b'[') => {
                            p += 1;
                            continue 'v;
                        }
                        (b',', _) => {
                            p = key(b, ws(b, p + 1))?;
                            continue 'v;
                        }
                        (b']', b'[') | (b'}', b'{') => {
                            p += 1;
                            open.pop();
                        }
                        _ => return None,
                    }
                }
            }
        }
    }
}
fn key(b: &[u8], p: usize) -> Option<usize> {
    if b.get(p) != Some(&b'"') {
        return None;
    }
    let p = ws(b, string(b, p)?);
    if b.get(p) == Some(&b':') {
        Some(p + 1)
    } else {
        None
    }
}
fn string(b: &[u8], mut p: usize) -> Option<usize> {
    p += 1;
    loop {
        match *b.get(p)? {
            b'"' => return Some(p + 1),
            b'\\' => match *b.get(p + 1)? {
                b'u' => {
                    let h = b.get(p + 2..p + 6)?;
                    if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                        return None;
                    }
                    p += 6;
                }
                b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => p += 2,
                _ => return None,
            },
            0..=31 => return None,
            _ => p += 1,
        }
    }
}
fn number(b: &[u8], mut p: usize) -> Option<usize> {
    let ds = |p: usize| b[p..].iter().take_while(|c| c.is_ascii_digit()).count();
    if b[p] == b'-' {
        p += 1;
    }
    let n = ds(p);
    if n == 0 || (n > 1 && b[p] == b'0') {
        return None;
    }
    p += n;
    if b.get(p) == Some(&b'.') {
        let n = ds(p + 1);
        if n == 0 {
            return None;
        }
        p += 1 + n;
    }
    if matches!(b.get(p), Some(b'e') | Some(b'E')) {
        p += 1;
        if matches!(b.get(p), Some(b'+') | Some(b'-')) {
            p += 1;
        }
        let n = ds(p);
        if n == 0 {
            return None;
        }
        p += n;
    }
    Some(p)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Reject,
    Packet(Hdr),
    Need(Hdr, u64),
}
fn content(h: &Hdr) -> bool {
    match h.kind {
        2 | 5 => !h.args.is_empty(),
        _ => h.id.is_some(),
    }
}
pub fn want(t: &str) -> Want {
    let h = match read(t) {
        None => return Want::Reject,
        Some(h) => h,
    };
    let n = h.count.unwrap_or(0);
    let ok = match h.kind {
        0 | 1 => h.count.is_none() && h.id.is_none() && h.args.is_empty(),
        2 | 3 => n == 0 && content(&h),
        _ if h.count.is_none() => false,
        _ if n > 0 => return Want::Need(h, n),
        _ => content(&h),
    };
    if ok {
        Want::Packet(h)
    } else {
        Want::Reject
    }
}

// ------------------------------------------------------------------ observation
/// a message text, sometimes as a window of a larger buffer
pub fn tmsg(t: &str, how: usize) -> EMsg {
    EMsg::Text(match how % 4 {
        0 => t.to_string().into(),
        1 => OwnedSubslice::new(format!("4{}", t), 1..t.len() + 1),
        2 => OwnedSubslice::new(format!("é[{}]\",1", t), 3..t.len() + 3),
        _ => OwnedSubslice::new(format!("{}9", t), 0..t.len()),
    })
}
pub fn bmsg(d: &[u8], how: usize) -> EMsg {
    EMsg::Binary(match how % 3 {
        0 => d.to_vec().into(),
        1 => {
            let mut v = vec![4u8];
            v.extend(d);
            let n = v.len();
            OwnedSubslice::new(v, 1..n)
        }
        _ => {
            let mut v = vec![7u8, 8];
            v.extend(d);
            v.push(9);
            OwnedSubslice::new(v, 2..d.len() + 2)
        }
    })
}
struct Never;
impl<'de> Deserialize<'de> for Never {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("never"))
    }
}
/// the text an argument is decoded from
pub fn arg_text(a: &Arg) -> Result<String, String> {
    match a.deserialize::<Never>() {
        Err(ArgsError::JsonDeError(t, _)) => Ok(t),
        Err(e) => Err(format!("unexpected error {:?}", e)),
        Ok(_) => Err("decoded a value of an empty type".into()),
    }
}
pub fn kind_of(p: &Packet) -> (u8, Option<u64>, Option<Args<'_>>) {
    match p.data() {
        Data::Connect => (0, None, None),
        Data::Disconnect => (1, None, None),
        Data::Event { id, args } => (2, id, Some(args)),
        Data::Ack { id, args } => (3, Some(id), Some(args)),
    }
}
pub fn check_packet(p: &Packet, h: &Hdr) -> Result<(), String> {
    let (k, id, args) = kind_of(p);
    eq("type", k, if h.kind >= 5 { h.kind - 3 } else { h.kind })?;
    eq("namespace", p.namespace(), h.ns.as_str())?;
    if k >= 2 {
        eq("id", id, h.id)?;
    }
    match args {
        None => Ok(()),
        Some(a) => {
            eq("number of arguments", a.len(), h.args.len())?;
            for (i, w) in h.args.iter().enumerate() {
                let x = a.get(i).ok_or_else(|| format!("no argument {}", i))?;
                eq("argument text", arg_text(&x)?.trim(), w.as_str())?;
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ texts
const TOK: [&str; 50] = [
    "0", "1", "2", "10", "01", "00", "18446744073709551615", "18446744073709551616", "9223372036854775808", "340282366920938463463374607431768211457", "4294967296", "-", "--", "+1",
    "/", "/a", "/a/b", "/é", "//", "/ ", "/\n", "/[", "/1", "/-", ",", ",,", "[", "]", "[]", "[ ]", "[1]", "[\"e\"]", "[\"e\",1]",
    "[1,]", "[,]", "[[]", "[ 1 , \"x\\\"]\" ]", "[1]x", "[1]\n", "\n", "[\"\n\"]", " ", "[1e999]", "[\"\\ud800\"]", "[-0.5e+3]", "[01]", "[nul]", "[{\"_placeholder\":true,\"num\":0}]",
    "[{\"a\":[1,{}]},\"é]\",true]", "{}",
];
const KINDS: [&str; 9] = ["0", "1", "2", "3", "4", "5", "6", "7", "x"];

pub fn json_text(r: &mut Rng, depth: usize) -> String {
    let leaf = [
        "0", "-1", "1.5", "1e3", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1E400", "true", "false", "null", "\"\"", "\"a\"", "\"é\\n\\u0041\"", "\"\\ud83d\\ude00\"",
        "\"\\ud800\"", "\"]\"", "\"[\\\"\"", "\"\\\\\"", "{}", "[]", "255", "256", "{\"_placeholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":1}", "\"\u{2028}\"", "\" \"", "-0", "0.1e-2",
    ];
    if depth == 0 || r.chance(1, 3) {
        match r.below(12) {
            0 => {
                let w = r.word();
                return serde_json::to_string(&w).unwrap();
            }
            1 => {
                let x = r.int();
                return x.to_string();
            }
            _ => {}
        }
        return r.pick(&leaf).to_string();
    }
    let n = r.below(4);
    let sp = |r: &mut Rng| r.pick(&["", "", "", " ", "\t", " \r "]).to_string();
    if r.chance(1, 2) {
        let v: Vec<String> = (0..n).map(|_| sp(r) + &json_text(r, depth - 1) + &sp(r)).collect();
        format!("[{}]", v.join(","))
    } else {
        let v: Vec<String> = (0..n)
            .map(|i| {
                let k = r.pick(&["a", "num", "_placeholder", "k\\u0061", "é", "", "x\\\"y"]).to_string();
                format!("{}\"{}{}\"{}:{}{}", sp(r), k, if r.chance(1, 2) { i.to_string() } else { String::new() }, sp(r), sp(r), json_text(r, depth - 1))
            })
            .collect();
        format!("{{{}}}", v.join(","))
    }
}
pub fn array_text(r: &mut Rng, max: usize, depth: usize) -> String {
    let n = r.below(max + 1);
    let sp = |r: &mut Rng| r.pick(&["", "", "", " ", "\t\r"]).to_string();
    let v: Vec<String> = (0..n).map(|_| sp(r) + &json_text(r, depth) + &sp(r)).collect();
    format!("[{}]", v.join(","))
}
pub fn packet_text(r: &mut Rng) -> String {
    let k = *r.pick(&["0", "1", "2", "2", "2", "3", "3", "5", "5", "6", "6"]);
    let mut t = k.to_string();
    if (k == "5" || k == "6") && !r.chance(1, 12) || r.chance(1, 20) {
        t += r.pick(&["0", "1", "2", "3", "10", "12", "18446744073709551615"]);
        t.push('-');
    }
    if r.chance(1, 2) {
        if r.chance(1, 4) {
            t += &r.ns();
        } else {
            t += r.pick(&["/a", "/a/b", "/é", "//", "/ x", "/a?b=c", "/[", "/1", "/a-1", "/\"", "/0-"]);
        }
        t.push(',');
    }
    if k != "0" && k != "1" {
        if r.chance(1, 2) || (k == "3" && r.chance(5, 6)) {
            let x = r.int();
            t += &x.to_string();
        }
        if r.chance(9, 10) {
            t += &array_text(r, 4, 2);
        }
    }
    t
}
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let x = *r.pick(&['0', '1', '9', '-', '/', ',', '[', ']', '"', '{', '}', ' ', '\n', '\\', 'a', 'é', '5', ':', '٣', '\u{ff10}', '\r', '\u{85}', '\t']);
        match r.below(4) {
            0 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            1 if !c.is_empty() => {
                let i = r.below(c.len());
                c[i] = x;
            }
            2 if c.len() > 1 => {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            _ => {
                let i = r.below(c.len() + 1);
                c.insert(i, x);
            }
        }
    }
    c.into_iter().collect()
}
/// calls `f` on every text to try
pub fn texts(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str)) {
    for t in ctx.extra.clone() {
        f(ctx, &t);
    }
    f(ctx, "");
    // all short texts
    const AL: [&str; 12] = ["0", "1", "2", "5", "-", "/", ",", "[", "]", "a", "\"", "\n"];
    let depth = if ctx.thorough { 5 } else { 4 };
    for k in KINDS {
        let mut layer = vec![k.to_string()];
        for d in 0..=depth {
            for t in &layer {
                f(ctx, t);
            }
            if d == depth || (d == 3 && !["2", "5", "3"].contains(&k) && !ctx.thorough) {
                break;
            }
            let mut next = Vec::with_capacity(layer.len() * 12);
            for t in &layer {
                for a in AL {
                    next.push(format!("{}{}", t, a));
                }
            }
            layer = next;
        }
    }
    // all pairs of tokens, and random longer sequences
    for k in KINDS {
        for a in TOK {
            f(ctx, &format!("{}{}", k, a));
            for b in TOK {
                f(ctx, &format!("{}{}{}", k, a, b));
            }
        }
    }
    let n = ctx.budget(40000);
    for _ in 0..n {
        let t = match ctx.rng.below(4) {
            0 => {
                let mut t = ctx.rng.pick(&KINDS).to_string();
                for _ in 0..2 + ctx.rng.below(4) {
                    t += ctx.rng.pick(&TOK);
                }
                t
            }
            1 => {
                let t = packet_text(&mut ctx.rng);
                mutate(&mut ctx.rng, &t)
            }
            _ => packet_text(&mut ctx.rng),
        };
        f(ctx, &t);
    }
    // numbers around the limits
    for k in ["2", "3", "5", "6"] {
        for n in ["18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551625", "28446744073709551615", "184467440737095516150", "9999999999999999999", "10000000000000000000", "99999999999999999999"] {
            f(ctx, &format!("{}{}[\"e\"]", k, n));
            f(ctx, &format!("{}{}-[\"e\"]", k, n));
            f(ctx, &format!("{}0-/a,{}[\"e\"]", k, n));
        }
    }
    // depth
    for d in [100usize, 126, 127, 128, 129, 200, 5000, 100000] {
        f(ctx, &format!("2[{}1{}]", "[".repeat(d), "]".repeat(d)));
        f(ctx, &format!("2[\"e\",{}1{}]", "{\"a\":".repeat(d), "}".repeat(d)));
        f(ctx, &format!("2[{}{}", "[".repeat(d), "]".repeat(d)));
        f(ctx, &format!("51-[{}1{}]", "[".repeat(d), "]".repeat(d)));
    }
}
fn short_text(t: &str) -> String {
    format!("text {:?}", short(t))
}

// ------------------------------------------------------------------ C07
pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "all texts of a type digit and up to 3-4 characters over a 12-letter alphabet, all pairs and random sequences of grammar tokens, seeded valid packets and mutations of them; acceptance and every reported field compared with an independent reader of the grammar";
    let mut i = 0;
    texts(ctx, &mut |ctx, t| {
        i += 1;
        let w = want(t);
        ctx.case(w != Want::Reject || read(t).is_some(), || short_text(t), || check_text(t, &w, i));
    });
    ctx.case(false, || "a binary message".into(), || match deserialize(bmsg(&[50, 91], 0)) {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("accepted as {:?}", x)),
    });
}
fn check_text(t: &str, w: &Want, how: usize) -> Result<(), String> {
    match (deserialize(tmsg(t, how)), w) {
        (Err(_), Want::Reject) => Ok(()),
        (Ok(DeserializeResult::Packet(p)), Want::Packet(h)) => check_packet(&p, h),
        (Ok(DeserializeResult::DataNeeded(q)), Want::Need(h, n)) => {
            eq("attachments asked for", q.attachments(), *n)?;
            if *n <= 12 && content(h) {
                let ms: Vec<EMsg> = (0..*n).map(|i| bmsg(&[i as u8], i as usize)).collect();
                let p = deserialize_partial(q, ms).map_err(|e| format!("not completed: {}", e))?;
                check_packet(&p, h)?;
            }
            Ok(())
        }
        (r, w) => Err(format!("decoded as {}, expected {}", short(&format!("{:?}", r)), short(&format!("{:?}", w)))),
    }
}

// ------------------------------------------------------------------ C06
fn exercise(p: &Packet) -> Result<(), String> {
    let _ = p.namespace().len();
    let _ = format!("{}", p);
    let _ = format!("{:?}", p);
    let q = p.clone();
    let (_, _, args) = kind_of(&q);
    if let Some(a) = args {
        let _ = format!("{} {}", a, a.is_empty());
        let n = a.len();
        for i in (0..n.min(20)).chain(vec![n, n + 1, usize::MAX, usize::MAX / 2]) {
            if let Some(x) = a.get(i) {
                let v = x.to_json_value();
                let _ = format!("{}", x);
                if let Err(e) = v {
                    let _ = format!("{} {:?}", e, e);
                }
                let _ = x.deserialize::<Value>().map_err(|e| e.to_string());
            } else if i < n {
                return Err(format!("argument {} of {} missing", i, n));
            }
        }
        let mut it = a.iter();
        for _ in 0..n + 3 {
            if let Some(x) = it.next() {
                let _ = x.to_json_value();
            }
        }
    }
    Ok(())
}
pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "the texts of C07, and binary packets completed with none, one, too many and the right attachments; everything the packet offers is called (display, debug, namespace, list, iterate past the end, JSON conversion); a panic, abort or hang is the failure";
    let mut i = 0;
    texts(ctx, &mut |ctx, t| {
        i += 1;
        ctx.case(read(t).is_some(), || short_text(t), || {
            match deserialize(tmsg(t, i)) {
                Err(e) => {
                    let _ = format!("{} {:?}", e, e);
                }
                Ok(DeserializeResult::Packet(p)) => exercise(&p)?,
                Ok(DeserializeResult::DataNeeded(q)) => {
                    let _ = format!("{:?}", q);
                    let n = q.attachments();
                    let k = if n < 64 { n as usize } else { i % 5 };
                    let k = match i % 7 {
                        0 => k + 1,
                        1 if k > 0 => k - 1,
                        _ => k,
                    };
                    let ms: Vec<EMsg> = (0..k).map(|j| if i % 11 == 0 && j == 0 { tmsg("x", i) } else { bmsg(&vec![0xff; j % 5], i + j) }).collect();
                    match deserialize_partial(q, ms) {
                        Ok(p) => exercise(&p)?,
                        Err(e) => {
                            let _ = format!("{} {:?}", e, e);
                        }
                    }
                }
            }
            Ok(())
        });
    });
    let n = ctx.budget(20000);
    for i in 0..n {
        let natt = ctx.rng.below(4);
        let a: Vec<String> = (0..1 + ctx.rng.below(3)).map(|_| ph_text(&mut ctx.rng, 3, natt, true)).collect();
        let t = format!("{}{}-7[{}]", 5 + i % 2, natt, a.join(","));
        ctx.case(true, || format!("text {:?} with its attachments", t), || {
            if let Ok(DeserializeResult::DataNeeded(q)) = deserialize(tmsg(&t, i)) {
                if let Ok(p) = deserialize_partial(q, (0..natt).map(|j| bmsg(&vec![1; j], j)).collect::<Vec<_>>()) {
                    exercise(&p)?;
                }
            }
            Ok(())
        });
    }
    // long texts of wide characters, at every offset, in everything that may be quoted or cut
    for c in ["\u{e9}", "\u{20ac}", "\u{1f600}"] {
        for len in [20usize, 40, 70, 130, 260, 520, 1030, 2050, 4100, 33000, 70000] {
            for shift in 0..4 {
                let w = format!("{}{}", "a".repeat(shift), c.repeat(len / c.len()));
                let ts = [
                    format!("2[\"{}\",1e999,[1e999,\"{}\"],{{\"{}\":1e999}}]", w, w, w),
                    format!("2/{},7[\"{}\",\"\\ud800{}\",\"{}\\ud800\"]", w, w, w, w),
                    format!("51-/{},[\"{}\",{{\"_placeholder\":true,\"num\":9,\"{}\":\"{}\"}},{{\"_placeholder\":\"{}\"}},[{{\"{}\":{{\"_placeholder\":true,\"num\":\"{}\"}}}}]]", w, w, w, w, w, w, w),
                    format!("0/{},[\"{}\"]", w, w),
                    format!("2[\"{}\"", w),
                    format!("2[\"{}\",]", w),
                    format!("2{}", w),
                    w.clone(),
                    format!("3[\"{}\"]", w),
                    format!("5[\"{}\"]", w),
                ];
                for (k, t) in ts.iter().enumerate() {
                    ctx.case(read(t).is_some(), || short_text(t), || {
                        match deserialize(tmsg(t, shift)) {
                            Err(e) => {
                                let _ = format!("{} {:?}", e, e);
                            }
                            Ok(DeserializeResult::Packet(p)) => exercise(&p)?,
                            Ok(DeserializeResult::DataNeeded(q)) => {
                                let _ = format!("{:?}", q);
                                let m = if shift == 3 && k == 2 { tmsg(&w, shift) } else { bmsg(w.as_bytes(), shift) };
                                match deserialize_partial(q, vec![m]) {
                                    Ok(p) => exercise(&p)?,
                                    Err(e) => {
                                        let _ = format!("{} {:?}", e, e);
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // many attachments
    for n in [1usize, 255, 256, 1000] {
        let t = format!("5{}-[\"e\",{{\"_placeholder\":true,\"num\":{}}}]", n, n - 1);
        ctx.case(true, || short_text(&t), || {
            if let Ok(DeserializeResult::DataNeeded(q)) = deserialize(tmsg(&t, n)) {
                let p = deserialize_partial(q, (0..n).map(|j| bmsg(&[j as u8], j)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                exercise(&p)?;
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C08
fn same<'a, T: Deserialize<'a> + PartialEq + std::fmt::Debug>(a: &Arg<'a>, t: &'a str) -> Result<(), String> {
    let (g, w) = (a.deserialize::<T>(), serde_json::from_str::<T>(t));
    match (g, w) {
        (Ok(g), Ok(w)) => {
            if g == w || format!("{:?}", g) == format!("{:?}", w) {
                Ok(())
            } else {
                Err(format!("argument {:?} as {}: got {:?} expected {:?}", t, std::any::type_name::<T>(), g, w))
            }
        }
        (Err(_), Err(_)) => Ok(()),
        (g, w) => Err(format!("argument {:?} as {}: got {:?} expected {:?}", t, std::any::type_name::<T>(), g.map_err(|e| e.to_string()), w.map_err(|e| e.to_string()))),
    }
}
#[derive(Debug, PartialEq, Deserialize)]
struct St<'a> {
    #[serde(borrow)]
    a: Option<&'a str>,
    num: Option<i64>,
    _placeholder: Option<bool>,
}
#[derive(Debug, PartialEq, Deserialize)]
enum En {
    a(u8),
    num(i64),
    B { x: u8 },
    C,
}
fn same_all<'a>(x: &Arg<'a>, t: &'a str) -> Result<(), String> {
    same::<Value>(x, t)?;
    same::<String>(x, t)?;
    same::<&str>(x, t)?;
    same::<u64>(x, t)?;
    same::<i64>(x, t)?;
    same::<u8>(x, t)?;
    same::<f64>(x, t)?;
    same::<bool>(x, t)?;
    same::<()>(x, t)?;
    same::<char>(x, t)?;
    same::<Option<i32>>(x, t)?;
    same::<Vec<u8>>(x, t)?;
    same::<Vec<Value>>(x, t)?;
    same::<(Value, Value)>(x, t)?;
    same::<BTreeMap<String, Value>>(x, t)?;
    same::<HashMap<String, u8>>(x, t)?;
    same::<BTreeMap<i32, Value>>(x, t)?;
    same::<St>(x, t)?;
    same::<En>(x, t)?;
    let (g, w) = (x.deserialize::<&RawValue>(), serde_json::from_str::<&RawValue>(t));
    eq("raw text", g.map(|r| r.get().to_string()).map_err(|_| ()), w.map(|r| r.get().to_string()).map_err(|_| ()))?;
    let (g, w) = (x.to_json_value(), serde_json::from_str::<Value>(t));
    eq("JSON value", g.map_err(|_| ()), w.map_err(|_| ()))
}
pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "seeded argument arrays of 0 to 6 elements with spaces, escapes, nesting and placeholder-like objects; count, text at every index and past the end, iteration, and 20 target types compared with serde_json on an independently cut element text";
    let n = ctx.budget(14000);
    for i in 0..n {
        let kind = *ctx.rng.pick(&["2", "3", "50-", "60-", "20-", "30-"]);
        let ns = *ctx.rng.pick(&["", "/a,", "/é,"]);
        let arr = array_text(&mut ctx.rng, 6, 3);
        let t = format!("{}{}5{}", kind, ns, arr);
        ctx.case(true, || short_text(&t), || {
            let h = match want(&t) {
                Want::Packet(h) => h,
                _ => {
                    return match deserialize(tmsg(&t, i)) {
                        Err(_) => Ok(()),
                        Ok(x) => Err(format!("accepted as {:?}", x)),
                    }
                }
            };
            let p = match deserialize(tmsg(&t, i)) {
                Ok(DeserializeResult::Packet(p)) => p,
                x => return Err(format!("decoded as {:?}", x)),
            };
            let args = kind_of(&p).2.ok_or("no arguments")?;
            eq("length", args.len(), h.args.len())?;
            eq("emptiness", args.is_empty(), h.args.is_empty())?;
            for (j, w) in h.args.iter().enumerate() {
                let x = args.get(j).ok_or_else(|| format!("no argument {}", j))?;
                eq("text", arg_text(&x)?.trim(), w.trim())?;
                same_all(&x, w)?;
            }
            for j in [h.args.len(), h.args.len() + 1, usize::MAX] {
                if args.get(j).is_some() {
                    return Err(format!("argument {} of {} exists", j, h.args.len()));
                }
            }
            let mut it = args.iter();
            for w in &h.args {
                let x = it.next().ok_or("iteration ended early")?;
                eq("iterated text", arg_text(&x)?.trim(), w.trim())?;
            }
            for _ in 0..3 {
                if it.next().is_some() {
                    return Err("iteration goes on past the end".into());
                }
            }
            eq("collected", args.iter().count(), h.args.len())
        });
    }
    // long arguments: the ones behind them
    for len in [255usize, 256, 65535, 65536, 65537, (1 << 20) + 3, (1 << 22) + 5] {
        for bin in [false, true] {
            ctx.case(true, || format!("an argument of {} bytes between others, binary {}", len, bin), || {
                let long: String = (0..len).map(|k| (b'a' + (k / 7 % 26) as u8) as char).collect();
                let t = format!("{}[\"ev\",\"{}\",{{\"k\":[1, 2]}},{}]", if bin { "50-/n,7" } else { "2" }, long, len);
                let p = match deserialize(tmsg(&t, len)) {
                    Ok(DeserializeResult::Packet(p)) => p,
                    _ => return Err("not a packet".into()),
                };
                let args = kind_of(&p).2.ok_or("no arguments")?;
                eq("length", args.len(), 4)?;
                if args.get(1).and_then(|a| a.deserialize::<String>().ok()) != Some(long) {
                    return Err("the long argument differs".into());
                }
                let rest: Vec<Option<Value>> = args.iter().skip(2).map(|a| a.deserialize::<Value>().ok()).collect();
                eq("arguments behind it", rest, vec![Some(serde_json::json!({"k": [1, 2]})), Some(Value::from(len))])
            });
        }
    }
    // many arguments
    for m in [255usize, 256, 257, 300, 1000, 65536, 65537] {
        ctx.case(true, || format!("{} arguments", m), || {
            let t = format!("2[{}]", (0..m).map(|j| j.to_string()).collect::<Vec<_>>().join(","));
            let p = match deserialize(tmsg(&t, m)) {
                Ok(DeserializeResult::Packet(p)) => p,
                _ => return Err("not a packet".into()),
            };
            let args = kind_of(&p).2.ok_or("no arguments")?;
            eq("length", args.len(), m)?;
            let mut it = args.iter();
            for j in 0..m {
                eq("iterated argument", it.next().and_then(|a| a.deserialize::<usize>().ok()), Some(j))?;
                eq("argument", args.get(j).and_then(|a| a.deserialize::<usize>().ok()), Some(j))?;
            }
            if it.next().is_some() || args.get(m).is_some() {
                return Err("more arguments than received".into());
            }
            Ok(())
        });
    }
    // borrowing and the attachment path: texts at every index of packets with attachments
    for i in 0..n / 4 {
        let arr = array_text(&mut ctx.rng, 6, 3);
        let natt = 1 + ctx.rng.below(3);
        let t = format!("5{}-/n,{}", natt, arr);
        ctx.case(true, || short_text(&t), || {
            let h = match want(&t) {
                Want::Need(h, _) if content(&h) => h,
                _ => return Ok(()),
            };
            if let Ok(DeserializeResult::DataNeeded(q)) = deserialize(tmsg(&t, i)) {
                let p = deserialize_partial(q, (0..natt).map(|j| bmsg(&[3], j)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                check_packet(&p, &h)?;
                let args = kind_of(&p).2.ok_or("no arguments")?;
                let got: Result<Vec<String>, String> = args.iter().map(|x| arg_text(&x)).collect();
                eq("iterated texts", got?, h.args.clone())
            } else {
                Err("not accepted".into())
            }
        });
    }
}

// ------------------------------------------------------------------ C09
const TEXTS: [&str; 10] = ["2[\"x\"]", "", "\u{4}", "4", "[1,2]", "0", "51-[\"e\"]", "{\"_placeholder\":true,\"num\":0}", "null", "\"\""];
pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "headers announcing 0 to 14 attachments, completed with every number 0..n+2 of messages, with text messages at every position, through iterators with and without exact size; contents, order and header fields compared";
    let mut i = 0;
    let mut one = |ctx: &mut Ctx, kind: u8, n: usize, ns: &str, id: Option<u64>, ms: Vec<Option<Vec<u8>>>, args: bool| {
        i += 1;
        let how = i;
        let phs: Vec<String> = (0..n).map(|k| format!("{{\"_placeholder\":true,\"num\":{}}}", k)).collect();
        let mut t = format!("{}{}-", kind, n);
        if ns != "/" {
            t += &format!("{},", ns);
        }
        if let Some(x) = id {
            t += &x.to_string();
        }
        let mut a = vec!["\"ev\"".to_string(), "{\"x\":[1]}".to_string()];
        a.extend(phs);
        if args {
            t += &format!("[{}]", a.join(","));
        }
        let nontrivial = ms.len() == n;
        ctx.case(nontrivial, || format!("text {:?} attachments {:?}", t, ms), || {
            let h = read(&t).ok_or("oracle cannot read its own text")?;
            let has = content(&h);
            let q = match deserialize(tmsg(&t, how)) {
                Ok(DeserializeResult::DataNeeded(q)) if n > 0 => q,
                Ok(DeserializeResult::Packet(_)) if n == 0 && has => return Ok(()),
                Err(_) if n == 0 && !has => return Ok(()),
                x => return Err(format!("decoded as {:?}", x)),
            };
            eq("announced", q.attachments(), n as u64)?;
            let ms2: Vec<EMsg> = ms.iter().enumerate().map(|(j, m)| match m {
                Some(d) => bmsg(d, how + j),
                // whatever the text: what an attachment may not be is a text
                None => tmsg(TEXTS[(how + j / 2) % TEXTS.len()], how + j),
            }).collect();
            let r = match how % 3 {
                0 => deserialize_partial(q, ms2),
                1 => deserialize_partial(q, ms2.into_iter().filter(|_| true)),
                _ => deserialize_partial(q, Once(ms2.into_iter())),
            };
            let good = ms.len() == n && ms.iter().all(|m| m.is_some()) && has;
            match (r, good) {
                (Err(_), false) => Ok(()),
                (Ok(p), true) => {
                    check_packet(&p, &h)?;
                    let a = kind_of(&p).2.ok_or("no arguments")?;
                    for k in 0..if args { n } else { 0 } {
                        let v = a.get(k + 2).ok_or("argument missing")?.to_json_value().map_err(|e| e.to_string())?;
                        let w = Value::Array(ms[k].clone().unwrap().into_iter().map(Value::from).collect());
                        eq("attachment", v, w)?;
                        let x = a.get(k + 2).ok_or("argument missing")?;
                        let v: Vec<u8> = x.deserialize().map_err(|e| e.to_string())?;
                        eq("attachment bytes", v, ms[k].clone().unwrap())?;
                    }
                    Ok(())
                }
                (Ok(p), false) => Err(format!("completed as {}", p)),
                (Err(e), true) => Err(format!("not completed: {}", e)),
            }
        });
    };
    for kind in [5u8, 6] {
        for n in 0..=14usize {
            for m in 0..=n + 2 {
                for (ns, id, args) in [("/", Some(3), true), ("/a", Some(0), true), ("/é", None, true), ("/", Some(9), false), ("/", None, false)] {
                    if n > 5 && (ns != "/" || m + 2 < n) {
                        continue;
                    }
                    let ms: Vec<Option<Vec<u8>>> = (0..m).map(|j| Some(vec![j as u8; j % 4])).collect();
                    one(ctx, kind, n, ns, id, ms, args);
                }
            }
            for j in 0..n.min(6) {
                let mut ms: Vec<Option<Vec<u8>>> = (0..n).map(|j| Some(vec![j as u8])).collect();
                ms[j] = None;
                one(ctx, kind, n, "/", Some(1), ms.clone(), true);
                ms.push(Some(vec![1]));
                one(ctx, kind, n, "/", Some(1), ms, true);
            }
        }
    }
    for n in [255usize, 256, 257, 300, 1025, 4097, 65536, 65537, 65538] {
        let ms: Vec<Option<Vec<u8>>> = (0..n).map(|j| Some(vec![j as u8, (j / 256) as u8])).collect();
        if n < 1000 {
            one(ctx, 5, n, "/", None, ms.clone(), true);
        }
        one(ctx, 6, n, "/", Some(2), ms[..n - 1].to_vec(), false);
        one(ctx, 6, n - 1, "/", Some(2), ms.clone(), false);
        one(ctx, 6, n, "/", Some(2), ms.clone(), false);
        // many more than announced
        one(ctx, 5, 1, "/", Some(2), ms.clone(), true);
        one(ctx, 6, 2, "/", Some(2), ms, true);
    }
    for _ in 0..ctx.budget(3000) {
        let n = ctx.rng.below(5);
        let m = if ctx.rng.chance(3, 4) { n } else { ctx.rng.below(6) };
        let ms: Vec<Option<Vec<u8>>> = (0..m).map(|_| if ctx.rng.chance(1, 20) { None } else { Some(crate::val::bytes(&mut ctx.rng)) }).collect();
        let k = 5 + ctx.rng.below(2) as u8;
        let id = *ctx.rng.pick(&[None, Some(0), Some(u64::MAX)]);
        one(ctx, k, n, "/z", id, ms, true);
    }
}
struct Once(std::vec::IntoIter<EMsg>);
impl Iterator for Once {
    type Item = EMsg;
    fn next(&mut self) -> Option<EMsg> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

// ------------------------------------------------------------------ C10
/// JSON text with placeholders in it; `bad`: some of them unusable
pub fn ph_text(r: &mut Rng, depth: usize, natt: usize, bad: bool) -> String {
    if r.chance(1, 4) {
        let num = if bad && r.chance(1, 4) {
            r.pick(&["-1", "1.0", "\"0\"", "null", "18446744073709551615", "18446744073709551616", "4294967296", "[0]", "0.5", "-0", "1e0", "true"]).to_string()
        } else if bad && r.chance(1, 6) {
            (natt + r.below(3)).to_string()
        } else {
            r.below(natt.max(1)).to_string()
        };
        if r.chance(1, 10) {
            // what makes a placeholder is the key, whatever its value
            let v = r.pick(&["false", "null", "1", "\"x\"", "{}", "[true]"]).to_string();
            return format!("{{\"_placeholder\":{},\"num\":{}}}", v, num);
        }
        return match r.below(if bad { 9 } else { 4 }) {
            0 => format!("{{\"num\":{},\"_placeholder\":true}}", num),
            4 => "{\"_placeholder\":true}".to_string(),
            5 => format!("{{\"_placeholder\":true,\"num\":{},\"x\":1}}", num),
            6 => format!("{{\"_placeholder\":true,\"Num\":{}}}", num),
            1 => format!("{{ \"_placeholder\" : true , \"num\" : {} }}", num),
            _ => format!("{{\"_placeholder\":true,\"num\":{}}}", num),
        };
    }
    if depth == 0 || r.chance(1, 4) {
        return r.pick(&["0", "-1", "1.5", "\"a\"", "true", "null", "{}", "[]", "{\"num\":0}", "\"_placeholder\"", "{\"placeholder\":true,\"num\":0}", "18446744073709551615", "\"é\"", "{\"a\":\"_placeholder\"}"]).to_string();
    }
    let n = r.below(4);
    if r.chance(1, 2) {
        let v: Vec<String> = (0..n).map(|_| ph_text(r, depth - 1, natt, bad)).collect();
        format!("[{}]", v.join(","))
    } else {
        let v: Vec<String> = (0..n).map(|i| format!("\"{}{}\":{}", r.pick(&["a", "num", "é", "z", "_"]), i, ph_text(r, depth - 1, natt, bad))).collect();
        format!("{{{}}}", v.join(","))
    }
}
fn fill(v: &Value, ds: &[Vec<u8>]) -> Result<Value, String> {
    match v {
        Value::Array(x) => Ok(Value::Array(x.iter().map(|y| fill(y, ds)).collect::<Result<_, _>>()?)),
        Value::Object(m) if m.contains_key("_placeholder") => match m.get("num").and_then(|n| n.as_u64()) {
            Some(k) if k < ds.len() as u64 => Ok(Value::Array(ds[k as usize].iter().map(|b| Value::from(*b)).collect())),
            x => Err(format!("placeholder {:?}", x)),
        },
        Value::Object(m) => {
            let mut o = serde_json::Map::new();
            for (k, x) in m {
                o.insert(k.clone(), fill(x, ds)?);
            }
            Ok(Value::Object(o))
        }
        x => Ok(x.clone()),
    }
}
pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "seeded JSON arguments with placeholders at any depth, good and unusable numbers, 1 to 4 attachments (some longer than 255 bytes); compared with an independent substitution";
    // long arrays, objects and attachments, deep values, with the placeholder last
    for n in [255usize, 256, 257, 1100, 65535, 65536, 65537] {
        let ds: Vec<Vec<u8>> = vec![(0..n).map(|x| (x / 251) as u8).collect(), vec![7]];
        let hole = |k: usize| format!("{{\"_placeholder\":true,\"num\":{}}}", k);
        let keys: String = (0..n).map(|k| format!("\"k{:05}\":0,", k)).collect();
        let deep = n.min(100);
        let args = [hole(0), format!("[{}{}]", "0,".repeat(n), hole(1)), format!("[{}{}]", format!("{},", hole(1)).repeat(n), hole(1)), format!("{{{}\"z\":{}}}", keys, hole(1)), format!("{}{}{}", "[".repeat(deep), hole(1), "]".repeat(deep)), format!("{}{}{}", "{\"a\":".repeat(deep), hole(1), "}".repeat(deep))];
        ctx.case(true, || format!("an attachment of {} bytes, {} elements or keys before a placeholder, {} levels around one", n, n, deep), || {
            let t = format!("52-[{}]", args.join(","));
            let q = match deserialize(tmsg(&t, n)) {
                Ok(DeserializeResult::DataNeeded(q)) => q,
                x => return Err(format!("decoded as {}", short(&format!("{:?}", x)))),
            };
            let p = deserialize_partial(q, ds.iter().map(|d| bmsg(d, n)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
            let a = kind_of(&p).2.ok_or("no arguments")?;
            for (j, w) in args.iter().enumerate() {
                let got = a.get(j).ok_or("argument missing")?.to_json_value().map_err(|e| short(&e.to_string()).to_string())?;
                let want = serde_json::from_str::<Value>(w).map_err(|e| e.to_string()).and_then(|v| fill(&v, &ds))?;
                eq("value", got, want)?;
            }
            Ok(())
        });
    }
    let n = ctx.budget(25000);
    for i in 0..n {
        let natt = 1 + ctx.rng.below(4);
        let ds: Vec<Vec<u8>> = (0..natt)
            .map(|j| match ctx.rng.below(12) {
                0 => vec![],
                1 => (0..300).map(|x| (x + j) as u8).collect(),
                2 => (0..=255).collect(),
                _ => crate::val::bytes(&mut ctx.rng),
            })
            .collect();
        let bad = ctx.rng.chance(1, 3);
        let args: Vec<String> = (0..1 + ctx.rng.below(3)).map(|_| { let d = 1 + ctx.rng.below(4); ph_text(&mut ctx.rng, d, natt, bad) }).collect();
        let t = format!("{}{}-3[{}]", 5 + i % 2, natt, args.join(","));
        let nontrivial = t.contains("true");
        ctx.case(nontrivial, || format!("text {:?} attachments {:?}", short(&t), short(&format!("{:?}", ds))), || {
            let q = match deserialize(tmsg(&t, i)) {
                Ok(DeserializeResult::DataNeeded(q)) => q,
                x => return Err(format!("decoded as {:?}", x)),
            };
            let p = deserialize_partial(q, ds.iter().enumerate().map(|(j, d)| bmsg(d, i + j)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
            let a = kind_of(&p).2.ok_or("no arguments")?;
            for (j, w) in args.iter().enumerate() {
                let got = a.get(j).ok_or("argument missing")?.to_json_value();
                let want = serde_json::from_str::<Value>(w).map_err(|e| e.to_string()).and_then(|v| fill(&v, &ds));
                match (got, want) {
                    (Ok(g), Ok(w)) => eq("value", g, w)?,
                    (Err(_), Err(_)) => {}
                    (g, w2) => return Err(format!("argument {}: got {:?} expected {:?}", w, g.map_err(|e| e.to_string()), w2)),
                }
                // a second conversion gives the same
                let again = a.get(j).ok_or("argument missing")?.to_json_value().map_err(|_| ());
                let want = serde_json::from_str::<Value>(w).map_err(|e| e.to_string()).and_then(|v| fill(&v, &ds)).map_err(|_| ());
                eq("again", again, want)?;
            }
            Ok(())
        });
    }
}
