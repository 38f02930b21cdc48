//! The client: C15, C16, C17, C18, C19, C20, C21, C22
use crate::ctx::*;
use crate::de::{arg_text, read, Hdr};
use crate::rig::*;
use crate::ser;
use crate::val::{bytes, gen, out_of_line, text, V};
use async_tungstenite::tungstenite as ts;
use futures::channel::mpsc;
use futures::stream::StreamExt;
use futures::task::ArcWake;
use serde_json::Value;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, AckCallback, Client, EventCallback};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use ts::Message as Ws;

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

// ------------------------------------------------------------------ what callbacks saw
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    tag: String,
    args: Vec<String>,
    /// arguments with the attachments in place, where they can be represented
    values: Vec<Option<Value>>,
    reply: bool,
}
#[derive(Clone, Default)]
pub struct Log {
    calls: Arc<Mutex<Vec<Call>>>,
    replies: Arc<Mutex<Vec<AckBuilder>>>,
}
fn seen(tag: &str, args: &Args, reply: bool) -> Call {
    Call {
        tag: tag.to_string(),
        args: (0..args.len()).map(|i| args.get(i).map(|a| arg_text(&a).unwrap_or_else(|e| e).trim().to_string()).unwrap_or_default()).collect(),
        values: (0..args.len()).map(|i| args.get(i).and_then(|a| a.to_json_value().ok())).collect(),
        reply,
    }
}
impl Log {
    fn event(&self, tag: &str) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
        let (l, t) = (self.clone(), tag.to_string());
        move |a: &Args, r: Option<AckBuilder>| {
            lock(&l.calls).push(seen(&t, a, r.is_some()));
            if let Some(r) = r {
                lock(&l.replies).push(r);
            }
        }
    }
    fn ack(&self, tag: &str) -> impl FnOnce(&Args) + Send + 'static {
        let (l, t) = (self.clone(), tag.to_string());
        move |a: &Args| lock(&l.calls).push(seen(&t, a, false))
    }
    fn take(&self) -> Vec<Call> {
        std::mem::take(&mut *lock(&self.calls))
    }
    fn reply(&self) -> Option<AckBuilder> {
        lock(&self.replies).pop()
    }
}
fn fill(v: &Value, ds: &[Vec<u8>]) -> Option<Value> {
    Some(match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| fill(x, ds)).collect::<Option<_>>()?),
        Value::Object(m) if m.contains_key("_placeholder") => {
            let k = m.get("num")?.as_u64()?;
            Value::from(ds.get(k as usize)?.clone())
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| Some((k.clone(), fill(x, ds)?))).collect::<Option<_>>()?),
        x => x.clone(),
    })
}
/// the call a complete packet makes when the callback found is `tag`
fn expected(tag: &str, args: &[String], ds: &[Vec<u8>], reply: bool) -> Call {
    Call {
        tag: tag.to_string(),
        args: args.to_vec(),
        values: args
            .iter()
            .map(|t| {
                let v: Option<Value> = serde_json::from_str(t).ok();
                if ds.is_empty() {
                    v
                } else {
                    v.and_then(|v| fill(&v, ds))
                }
            })
            .collect(),
        reply,
    }
}

// ------------------------------------------------------------------ C15: the registry
#[derive(Default, Clone)]
struct Model {
    events: BTreeMap<(String, String), String>,
    fallback: BTreeMap<String, String>,
}
impl Model {
    fn note(&mut self, op: &Op, tag: &str) {
        match op {
            Op::SetEvent(ns, ev, _) => {
                self.events.insert((ns.clone(), ev.clone()), tag.to_string());
            }
            Op::ClearEvent(ns, ev) => {
                self.events.remove(&(ns.clone(), ev.clone()));
            }
            Op::SetFallback(ns, _) => {
                self.fallback.insert(ns.clone(), tag.to_string());
            }
            Op::ClearFallback(ns) => {
                self.fallback.remove(ns);
            }
        }
    }
    fn find(&self, ns: &str, ev: &str) -> Option<String> {
        self.events.get(&(ns.to_string(), ev.to_string())).or_else(|| self.fallback.get(ns)).cloned()
    }
}
#[derive(Clone, Debug)]
enum Op {
    SetEvent(String, String, bool),
    ClearEvent(String, String),
    SetFallback(String, bool),
    ClearFallback(String),
}
/// `short`: through the method without a namespace, when the namespace is /
fn apply(c: &mut Client, m: &mut Model, log: &Log, op: &Op, tag: &str, short: bool) {
    match op {
        Op::SetEvent(ns, ev, boxed) => {
            let f = log.event(tag);
            match (short && ns == "/", *boxed) {
                (true, false) => c.set_event_callback(ev, f),
                (true, true) => c.set_event_callback(ev, EventCallback::from(f)),
                (false, false) => c.set_namespace_event_callback(ns, ev, f),
                (false, true) => c.set_namespace_event_callback(ns, ev, EventCallback::from(f)),
            }
        }
        Op::ClearEvent(ns, ev) => {
            if short && ns == "/" {
                c.clear_event_callback(ev)
            } else {
                c.clear_namespace_event_callback(ns, ev)
            }
        }
        Op::SetFallback(ns, boxed) => {
            let f = log.event(tag);
            match (short && ns == "/", *boxed) {
                (true, false) => c.set_fallback_callback(f),
                (true, true) => c.set_fallback_callback(EventCallback::from(f)),
                (false, false) => c.set_namespace_fallback_callback(ns, f),
                (false, true) => c.set_namespace_fallback_callback(ns, EventCallback::from(f)),
            }
        }
        Op::ClearFallback(ns) => {
            if short && ns == "/" {
                c.clear_fallback_callback()
            } else {
                c.clear_namespace_fallback_callback(ns)
            }
        }
    }
    m.note(op, tag);
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
/// the usual names, or others of the dictionaries
fn pools(r: &mut Rng, nss: &[&str], evs: &[&str]) -> (Vec<String>, Vec<String>) {
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    if r.chance(1, 2) {
        (own(nss), own(evs))
    } else {
        (r.some_ns(nss.len()), r.some_names(evs.len()))
    }
}
fn gen_op(r: &mut Rng, nss: &[&str], evs: &[&str]) -> Op {
    let ns = r.pick(nss).to_string();
    let ev = r.pick(evs).to_string();
    match r.below(10) {
        0..=4 => Op::SetEvent(ns, ev, r.chance(1, 2)),
        5 | 6 => Op::ClearEvent(ns, ev),
        7 | 8 => Op::SetFallback(ns, r.chance(1, 2)),
        _ => Op::ClearFallback(ns),
    }
}
fn ns_text(ns: &str) -> String {
    if ns == "/" {
        "".into()
    } else {
        format!("{},", ns)
    }
}
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "histories of set and clear calls (with and without a namespace) on a connected client; after every few of them the peer sends an event for each namespace and name, and the callback that runs is compared with a model keyed by namespace and name";
    const NSS: [&str; 7] = ["/", "/a", "/b", "/A", "/a/", "/é", "//"];
    const EVS: [&str; 6] = ["e", "f", "", "E", "/a", "a,b"];
    let histories = ctx.budget(400);
    for h in 0..histories {
        if !ctx.more() {
            break;
        }
        let (nss, evs) = pools(&mut ctx.rng, &NSS, &EVS);
        let (nss, evs) = (strs(&nss), strs(&evs));
        let mut rig = Rig::open();
        let log = Log::default();
        let mut model = Model::default();
        let n = if ctx.rng.chance(1, 10) { 20 + ctx.rng.below(40) } else { 1 + ctx.rng.below(14) };
        let mut done: Vec<Op> = vec![];
        let few = 1 + ctx.rng.below(5);
        for k in 0..n {
            // short histories over few names meet more often
            let op = if h % 2 == 0 { gen_op(&mut ctx.rng, &nss[..2], &evs[..2]) } else { gen_op(&mut ctx.rng, &nss, &evs) };
            let short = ctx.rng.chance(1, 2);
            done.push(op.clone());
            let (rg, lg, md) = (&mut rig, &log, &mut model);
            let last = k + 1 == n;
            ctx.case(true, || format!("history {:?}", done), || {
                apply(&mut rg.client(), md, lg, &op, &format!("cb{}", k), short);
                // sending events and taking their acks leaves event callbacks alone
                if k % 3 == 2 {
                    let ns = nss[k % nss.len()];
                    rg.client().namespace_emit(ns, evs[k % evs.len()]).callback(|_: &Args| {}).args().send();
                    for (h, _) in packets(&rg.sent())? {
                        if k % 2 == 0 {
                            rg.text(&ack_text(ns, h.id.ok_or("no id")?, None, &[]));
                        }
                    }
                }
                if !last && k % few != 0 {
                    return Ok(());
                }
                for ns in nss.iter().copied() {
                    for ev in evs.iter().copied() {
                        rg.text(&format!("42{}[{}]", ns_text(ns), q(ev)));
                        let got: Vec<String> = lg.take().into_iter().map(|c| c.tag).collect();
                        let want: Vec<String> = md.find(ns, ev).into_iter().collect();
                        eq(&format!("callbacks run for {:?} on {:?}", ev, ns), got, want)?;
                    }
                }
                if rg.ended() {
                    return Err("the connection ended".into());
                }
                Ok(())
            });
        }
    }
    // long names and namespaces that differ in their last character
    for len in [31usize, 63, 64, 127, 128, 200, 255, 256, 300, 1023, 1024, 4096, 65535, 65536] {
        for c in ["x", "\u{20ac}"] {
            ctx.case(true, || format!("names and namespaces with the same first {} characters {:?}", len, c), || {
                let mut rig = Rig::open();
                let log = Log::default();
                let long = c.repeat(len);
                let names: Vec<String> = ["", "a", "b", "ab"].iter().map(|e| format!("{}{}", long, e)).collect();
                let at: Vec<(String, String)> = names.iter().flat_map(|n| vec![("/".to_string(), n.clone()), (format!("/{}", n), "e".to_string())]).collect();
                let mut live: Vec<Option<String>> = vec![None; at.len()];
                for step in 0..at.len() * 3 {
                    let k = step * 5 % at.len();
                    let (ns, ev) = &at[k];
                    if step < at.len() * 2 {
                        rig.client().set_namespace_event_callback(ns, ev, log.event(&step.to_string()));
                        live[k] = Some(step.to_string());
                    } else if k % 3 == 0 {
                        rig.client().clear_namespace_event_callback(ns, ev);
                        live[k] = None;
                    }
                    if len > 5000 && step % 8 != 7 {
                        continue;
                    }
                    for (k, (ns, ev)) in at.iter().enumerate() {
                        rig.text(&format!("42{}[{}]", ns_text(ns), q(ev)));
                        let got: Vec<String> = log.take().into_iter().map(|c| c.tag).collect();
                        eq(&format!("callbacks run at {} after step {}", k, step), got, live[k].clone().into_iter().collect())?;
                    }
                }
                Ok(())
            });
        }
    }
    // many names, many namespaces
    for n in [65usize, 129, 257, 1025, 4200] {
        for spread in [false, true] {
            ctx.case(true, || format!("{} callbacks, each on a namespace of its own: {}", n, spread), || {
                let mut rig = Rig::open();
                let log = Log::default();
                let at = |k: usize| if spread { (format!("/n{}", k), "e".to_string()) } else { ("/".to_string(), format!("e{}", k)) };
                rig.client().set_namespace_fallback_callback("/", log.event("fallback"));
                for k in 0..n {
                    let (ns, ev) = at(k);
                    rig.client().set_namespace_event_callback(&ns, &ev, log.event(&k.to_string()));
                }
                for k in (0..n).step_by(3) {
                    let (ns, ev) = at(k);
                    rig.client().clear_namespace_event_callback(&ns, &ev);
                }
                for k in 0..n {
                    let (ns, ev) = at(k);
                    rig.text(&format!("42{}[{}]", ns_text(&ns), q(&ev)));
                    let got: Vec<String> = log.take().into_iter().map(|c| c.tag).collect();
                    let want = if k % 3 != 0 { vec![k.to_string()] } else if spread { vec![] } else { vec!["fallback".to_string()] };
                    eq(&format!("callbacks run for {:?} on {:?}", ev, ns), got, want)?;
                }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C16: delivery
#[derive(Clone, Debug)]
enum In {
    Text(String),
    Bin(Vec<u8>),
    Raw(Ws),
    /// not a frame: the registry changes here
    Do(Op, String),
}
impl In {
    fn frame(&self) -> Ws {
        match self {
            In::Text(t) => Ws::Text(t.clone()),
            In::Bin(d) => {
                let mut v = vec![4u8];
                v.extend(d);
                Ws::Binary(v)
            }
            In::Raw(w) => w.clone(),
            In::Do(..) => unreachable!(),
        }
    }
}
fn header_of(t: &str) -> Hdr {
    read(t).expect("generated text")
}
fn show(ms: &[In]) -> String {
    short(&format!("{:?}", ms))
}
fn gen_args(r: &mut Rng, natt: usize, extra: usize) -> Vec<String> {
    (0..extra)
        .map(|_| match r.below(8) {
            0 | 1 if natt > 0 => format!("{{\"_placeholder\":true,\"num\":{}}}", r.below(natt)),
            2 if natt > 0 => format!("[{{\"k\":{{\"_placeholder\":true,\"num\":{}}}}},1]", r.below(natt)),
            3 => q(&text(r)),
            4 => "[1,2,3]".into(),
            5 => "{\"a\":{\"b\":\"]\"}}".into(),
            6 => "null".into(),
            _ => format!("{}", r.int()),
        })
        .collect()
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "sequences of frames (events with and without id and attachments, connects, disconnects, pings, pongs, websocket control frames) to a client with a seeded registry; the callbacks run, their order, arguments and reply handles are compared with an independent reading of the frames";
    const NSS: [&str; 4] = ["/", "/a", "/b", "/é"];
    const EVS: [&str; 5] = ["e", "f", "", "\"q\"", "é"];
    let runs = ctx.budget(1500);
    for i in 0..runs {
        let (nss, evs) = pools(&mut ctx.rng, &NSS, &EVS);
        let (nss, evs) = (strs(&nss), strs(&evs));
        let mut rig = Rig::open();
        let log = Log::default();
        let mut model = Model::default();
        for k in 0..ctx.rng.below(8) {
            let op = gen_op(&mut ctx.rng, &nss, &evs);
            apply(&mut rig.client(), &mut model, &log, &op, &format!("cb{}", k), k % 2 == 0);
        }
        let before = model.clone();
        let n = if ctx.rng.chance(1, 40) { ctx.rng.size(140) } else { 1 + ctx.rng.below(8) };
        let mut frames: Vec<In> = vec![];
        let mut want: Vec<Call> = vec![];
        // number of calls expected once frames[..=i] have been taken
        let mut upto: Vec<usize> = vec![];
        for _ in 0..n {
            let r = &mut ctx.rng;
            let ns = r.pick(&nss).to_string();
            let ev = r.pick(&evs).to_string();
            match r.below(15) {
                14 => {
                    let op = gen_op(r, &nss, &evs);
                    let tag = format!("later{}", frames.len());
                    let mut none = Model::default();
                    std::mem::swap(&mut none, &mut model);
                    none.note(&op, &tag);
                    model = none;
                    frames.push(In::Do(op, tag));
                }
                0 => frames.push(In::Text(format!("40{}", ns_text(&ns)))),
                1 => frames.push(In::Text(format!("41{}", ns_text(&ns)))),
                2 => frames.push(In::Text("2".into())),
                3 => frames.push(In::Text(r.pick(&["3probe", "3", "2x"]).to_string())),
                4 => frames.push(In::Raw(Ws::Ping(vec![1; *r.pick(&[0usize, 1, 4, 64, 125])]))),
                5 => frames.push(In::Raw(Ws::Pong(vec![]))),
                k => {
                    let natt = if k < 9 { if r.chance(1, 150) { r.size(300) } else { r.below(4) } } else { 0 };
                    let binary = k < 9;
                    let id = if r.chance(1, 2) { Some(r.int()) } else { None };
                    let extra = r.below(4);
                    let mut args = vec![q(&ev)];
                    args.extend(gen_args(r, natt, extra));
                    let mut t = format!("4{}", if binary { 5 } else { 2 });
                    if binary {
                        t += &format!("{}-", natt);
                    }
                    t += &ns_text(&ns);
                    if let Some(i) = id {
                        t += &i.to_string();
                    }
                    t += &format!("[{}]", args.join(","));
                    frames.push(In::Text(t));
                    let ds: Vec<Vec<u8>> = (0..natt).map(|_| bytes(r)).collect();
                    for d in &ds {
                        if r.chance(1, 4) {
                            upto.resize(frames.len(), want.len());
                            frames.push(match r.below(4) {
                                0 => In::Text("2".into()),
                                1 => In::Text("3".into()),
                                2 => In::Raw(Ws::Ping(vec![7; *r.pick(&[0usize, 1, 4, 64, 125])])),
                                _ => In::Raw(Ws::Pong(vec![b'1'; *r.pick(&[0usize, 1, 4, 64, 125])])),
                            });
                        }
                        upto.resize(frames.len(), want.len());
                        frames.push(In::Bin(d.clone()));
                    }
                    upto.resize(frames.len() - 1, want.len());
                    if let Some(tag) = model.find(&ns, &ev) {
                        want.push(expected(&tag, &args, &ds, id.is_some()));
                    }
                }
            }
            upto.resize(frames.len(), want.len());
        }
        let (rg, lg) = (&mut rig, &log);
        ctx.case(!want.is_empty(), || format!("events {:?} fallbacks {:?} frames {}", before.events, before.fallback, show(&frames)), || {
            let mut got: Vec<Call> = vec![];
            let burst = i % 3 == 0;
            for (k, f) in frames.iter().enumerate() {
                if let In::Do(op, tag) = f {
                    rg.exec.run();
                    apply(&mut rg.client(), &mut Model::default(), lg, op, tag, k % 2 == 0);
                    continue;
                }
                if burst && k + 1 < frames.len() {
                    rg.push(f.frame());
                    continue;
                }
                rg.give(f.frame());
                got.extend(lg.take());
                eq(&format!("callbacks run after frame {}", k + 1), got.len(), upto[k])?;
            }
            rg.exec.run();
            got.extend(lg.take());
            eq("calls", got, want.clone())?;
            if rg.ended() {
                return Err("the connection ended".into());
            }
            Ok(())
        });
    }
    // frames that are not what the protocol allows run nothing
    let bad: Vec<Vec<In>> = vec![
        vec![In::Bin(vec![1])],
        vec![In::Text("451-[\"e\"]".into()), In::Text("42[\"e\"]".into())],
        vec![In::Text("452-[\"e\"]".into()), In::Bin(vec![1]), In::Text("42[\"e\"]".into())],
        vec![In::Text("452-[\"e\"]".into()), In::Text("42[\"e\"]".into()), In::Bin(vec![1])],
        vec![In::Text("42".into())],
        vec![In::Text("42[]".into())],
        vec![In::Text("42[1]".into())],
        vec![In::Text("42[{}]".into())],
        vec![In::Text("42{\"e\":1}".into())],
        vec![In::Text("451-".into()), In::Bin(vec![1])],
        vec![In::Text("42[\"e\"".into())],
        vec![In::Text("47[\"e\"]".into())],
        vec![In::Text("40[\"e\"]".into())],
        vec![In::Text("41[\"e\"]".into())],
        vec![In::Text("421-[\"e\"]".into())],
        vec![In::Text(OPEN.into()), In::Text("42[\"e\"]".into())],
        vec![In::Text("1".into()), In::Text("42[\"e\"]".into())],
        vec![In::Raw(Ws::Binary(vec![])), In::Text("42[\"e\"]".into())],
        vec![In::Raw(Ws::Binary(vec![2, 1])), In::Text("42[\"e\"]".into())],
        vec![In::Text("43[\"e\"]".into())],
        vec![In::Text("".into()), In::Text("42[\"e\"]".into())],
    ];
    for fs in bad {
        ctx.case(true, || format!("a client with event and fallback callbacks gets {}", show(&fs)), || {
            let mut rig = Rig::open();
            let log = Log::default();
            rig.client().set_event_callback("e", log.event("e"));
            rig.client().set_fallback_callback(log.event("fb"));
            for f in &fs {
                rig.give(f.frame());
            }
            eq("calls", log.take(), vec![])?;
            if !rig.ended() {
                return Err("the connection went on".into());
            }
            rig.text("42[\"e\"]");
            eq("calls after the error", log.take(), vec![])
        });
    }
    // acks that come and go do not change which callback an event runs
    for kind in 0..16 {
        let (ns, other) = if kind & 1 == 0 { ("/", "/a") } else { ("/a", "/") };
        let acks = 1 + (kind >> 1 & 1);
        let reg = kind >> 2;
        ctx.case(true, || format!("{} answered events on {:?}, registered there: {}", acks, ns, ["an event", "a fallback", "a fallback, an event set and cleared", "nothing, on the other namespace a fallback"][reg]), || {
            let mut rig = Rig::open();
            let log = Log::default();
            match reg {
                0 => rig.client().set_namespace_event_callback(ns, "e", log.event("cb")),
                1 => rig.client().set_namespace_fallback_callback(ns, log.event("cb")),
                2 => {
                    rig.client().set_namespace_fallback_callback(ns, log.event("cb"));
                    rig.client().set_namespace_event_callback(ns, "e", log.event("gone"));
                    rig.client().clear_namespace_event_callback(ns, "e");
                }
                _ => rig.client().set_namespace_fallback_callback(other, log.event("cb")),
            }
            for k in 0..acks {
                rig.client().namespace_emit(ns, "q").callback(log.ack(&format!("ack{}", k))).args().send();
                let h = packets(&rig.sent())?.pop().ok_or("nothing sent")?.0;
                rig.text(&ack_text(ns, h.id.ok_or("no id")?, None, &[]));
                eq("callbacks run by the ack", log.take().into_iter().map(|c| c.tag).collect::<Vec<_>>(), vec![format!("ack{}", k)])?;
                let at = if reg == 3 { other } else { ns };
                rig.text(&format!("42{}[\"e\",{}]", ns_text(at), k));
                eq("callbacks run by the event", log.take(), vec![expected("cb", &["\"e\"".into(), k.to_string()], &[], false)])?;
            }
            Ok(())
        });
    }
    // a packet of many attachments, then one without
    for n in [255usize, 256, 257, 1025, 4097, 8200, 65537] {
        ctx.case(true, || format!("an event of {} attachments", n), || {
            let mut rig = Rig::open();
            let log = Log::default();
            rig.client().set_event_callback("e", log.event("e"));
            rig.push(Ws::Text(format!("45{}-[\"e\"]", n)));
            for k in 0..n {
                eq("calls before the packet is complete", log.take().len(), 0)?;
                rig.push(Ws::Binary(vec![4, k as u8]));
                if k % 1000 == 0 || k + 1 == n {
                    rig.exec.run();
                }
            }
            eq("calls", log.take().len(), 1)?;
            rig.text("42[\"e\",1]");
            eq("calls of the next packet", log.take(), vec![expected("e", &["\"e\"".into(), "1".into()], &[], false)])
        });
    }
    // events that arrive while the connection is being closed, until the peer ends it
    for n in [1usize, 7] {
        for binary in [false, true] {
            ctx.case(true, || format!("{} events, binary {}, of a peer that was asked to close", n, binary), || {
                let mut rig = Rig::open();
                let log = Log::default();
                rig.client().set_event_callback("late", log.event("late"));
                let c = rig.client.clone();
                let mut h = Hand::new(async move { lock(&c).close().await });
                h.run(&rig.exec);
                let mut want = vec![];
                for k in 0..n {
                    let mut fs = vec![raw_frame(1, if binary { format!("451-[\"late\",{{\"_placeholder\":true,\"num\":0}},{}]", k) } else { format!("42[\"late\",{}]", k) }.as_bytes())];
                    if binary {
                        fs.push(raw_frame(2, &[4, k as u8]));
                    }
                    for f in fs {
                        let _ = lock(&rig.peer).get_mut().write(&f);
                        h.run(&rig.exec);
                    }
                    let mut args = vec!["\"late\"".to_string()];
                    if binary {
                        args.push("{\"_placeholder\":true,\"num\":0}".into());
                    }
                    args.push(k.to_string());
                    want.push(expected("late", &args, &if binary { vec![vec![k as u8]] } else { vec![] }, false));
                }
                eq("calls", log.take(), want)
            });
        }
    }
    // one callback on two connections: it runs for each event, also while it is running already
    ctx.case(true, || "an event while the same callback runs for another connection".into(), || {
        let count = Arc::new(AtomicUsize::new(0));
        let (entered, on) = std::sync::mpsc::channel::<()>();
        let (go, gate) = std::sync::mpsc::channel::<()>();
        let n = count.clone();
        let cb = EventCallback::from(move |_: &Args, _: Option<AckBuilder>| {
            if n.fetch_add(1, Ordering::SeqCst) == 0 {
                let _ = entered.send(());
                let _ = gate.recv_timeout(std::time::Duration::from_secs(10));
            }
        });
        let ts: Vec<_> = (0..2)
            .map(|k| {
                let cb = cb.clone();
                let t = std::thread::spawn(move || {
                    let mut rig = Rig::open();
                    rig.client().set_event_callback("e", cb);
                    rig.text("42[\"e\"]");
                });
                if k == 0 {
                    let _ = on.recv_timeout(std::time::Duration::from_secs(10));
                }
                t
            })
            .collect();
        std::thread::sleep(std::time::Duration::from_millis(100));
        let _ = go.send(());
        for t in ts {
            t.join().map_err(|_| "a thread panicked".to_string())?;
        }
        eq("runs", count.load(Ordering::SeqCst), 2)
    });
    // a session's very first frame is the open packet; later events reach callbacks set before and after
    for late in [false, true] {
        ctx.case(true, || format!("event burst, callback set after {} of 6", if late { 3 } else { 0 }), || {
            let mut rig = Rig::open();
            let log = Log::default();
            let mut want = vec![];
            for k in 0..6 {
                if k == if late { 3 } else { 0 } {
                    rig.client().set_event_callback("e", log.event("cb"));
                }
                if !late || k >= 3 {
                    want.push(expected("cb", &["\"e\"".into(), k.to_string()], &[], false));
                }
                rig.text(&format!("42[\"e\",{}]", k));
            }
            eq("calls", log.take(), want)
        });
    }
}

// ------------------------------------------------------------------ C17: acks
struct Emitted {
    hdr: Hdr,
    natt: usize,
}
/// reads back what the client sent as packets (pings and the like excluded)
fn packets(fs: &[Ws]) -> Result<Vec<(Hdr, Vec<Vec<u8>>)>, String> {
    let mut out: Vec<(Hdr, Vec<Vec<u8>>)> = vec![];
    let mut missing = 0;
    for f in fs {
        match f {
            Ws::Text(t) if missing == 0 && t.starts_with('4') => {
                let h = read(&t[1..]).ok_or_else(|| format!("unreadable packet {:?}", t))?;
                missing = h.count.unwrap_or(0) as usize;
                out.push((h, vec![]));
            }
            Ws::Binary(d) if missing > 0 && d.first() == Some(&4) => {
                missing -= 1;
                out.last_mut().unwrap().1.push(d[1..].to_vec());
            }
            f => return Err(format!("unexpected frame {:?} with {} attachments missing", f, missing)),
        }
    }
    if missing > 0 {
        return Err(format!("{} attachments missing", missing));
    }
    Ok(out)
}
fn ack_text(ns: &str, id: u64, natt: Option<usize>, args: &[String]) -> String {
    let mut t = String::from(if natt.is_some() { "46" } else { "43" });
    if let Some(n) = natt {
        t += &format!("{}-", n);
    }
    t += &ns_text(ns);
    t += &format!("{}", id);
    if !args.is_empty() {
        t += &format!("[{}]", args.join(","));
    }
    t
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "interleavings of events sent with and without callbacks on several namespaces and of acks for them (plain, binary, without arguments, repeated, unknown, on another namespace); the callbacks run are compared with the ids read from the frames sent";
    let runs = ctx.budget(1500);
    for i in 0..runs {
        let nss = pools(&mut ctx.rng, &["/", "/a", "/b"], &[]).0;
        let nss = strs(&nss);
        let name = if ctx.rng.chance(1, 2) { "e".to_string() } else { text(&mut ctx.rng) };
        let mut rig = Rig::open();
        let log = Log::default();
        let mut pending: BTreeMap<(String, u64), String> = BTreeMap::new();
        let mut ids: BTreeSet<u64> = BTreeSet::new();
        let mut steps: Vec<String> = vec![];
        let n = if ctx.rng.chance(1, 20) { 40 + ctx.rng.below(60) } else { 2 + ctx.rng.below(14) };
        // ids of the answered
        let mut answered: Vec<(String, u64)> = vec![];
        for k in 0..n {
            let r = &mut ctx.rng;
            let ns = r.pick(&nss).to_string();
            let tag = format!("ack{}", k);
            let what = r.below(12);
            let (rg, lg) = (&mut rig, &log);
            if what >= 10 {
                // what happens to event callbacks is no business of acks
                let op = gen_op(r, &nss, &[name.as_str(), "f"]);
                let ev = if r.chance(1, 2) { Some(format!("42{}[\"f\"]", ns_text(&ns))) } else { None };
                steps.push(format!("{:?}, event {:?}", op, ev));
                ctx.case(false, || format!("{:?}", steps), || {
                    apply(&mut rg.client(), &mut Model::default(), lg, &op, "event", k % 2 == 0);
                    if let Some(t) = &ev {
                        rg.text(t);
                    }
                    if lg.take().iter().any(|c| c.tag != "event") {
                        return Err("an event ran an ack callback".into());
                    }
                    Ok(())
                });
            } else if what < 5 || (pending.is_empty() && what < 9) {
                let with = r.chance(4, 5);
                let binary = r.chance(1, 3);
                let drop_it = r.chance(1, 8);
                let boxed = r.chance(1, 2);
                let after = r.chance(1, 2);
                let twice = r.chance(1, 8);
                steps.push(format!("emit on {:?} callback {} (after another: {}) binary {} dropped {}", ns, with, twice, binary, drop_it));
                let (pd, is) = (&mut pending, &mut ids);
                ctx.case(with, || format!("{:?}", steps), || {
                    {
                        let mut c = rg.client();
                        let mut b = if ns == "/" && k % 2 == 0 { c.emit(&name) } else { c.namespace_emit(&ns, &name) };
                        if !after {
                            b = b.binary(binary);
                        }
                        if with && twice {
                            b = b.callback(lg.ack("replaced"));
                        }
                        if with {
                            b = if boxed { b.callback(AckCallback::from(lg.ack(&tag))) } else { b.callback(lg.ack(&tag)) };
                        }
                        if after {
                            b = b.binary(binary);
                        }
                        let a = b.args().arg(&k).map_err(|e| e.to_string())?;
                        if !drop_it {
                            a.send();
                        }
                    }
                    let ps = packets(&rg.sent())?;
                    if drop_it {
                        return eq("packets sent", ps.len(), 0);
                    }
                    eq("packets sent", ps.len(), 1)?;
                    let h = &ps[0].0;
                    eq("id present", h.id.is_some(), with)?;
                    if let Some(id) = h.id {
                        if !is.insert(id) {
                            return Err(format!("id {} used twice", id));
                        }
                        pd.insert((h.ns.clone(), id), tag.clone());
                    }
                    Ok(())
                });
            } else if what < 9 {
                let keys: Vec<_> = pending.keys().cloned().collect();
                let (ns, id) = r.pick(&keys).clone();
                let natt = if r.chance(1, 3) { Some(if r.chance(1, 60) { r.size(300) } else { r.below(3) }) } else { None };
                let m = r.below(3);
                let args = gen_args(r, natt.unwrap_or(0), m);
                let ds: Vec<Vec<u8>> = (0..natt.unwrap_or(0)).map(|_| bytes(r)).collect();
                let t = ack_text(&ns, id, natt, &args);
                steps.push(format!("ack {:?} + {:?}", t, ds));
                let tag = pending.remove(&(ns.clone(), id)).unwrap();
                answered.push((ns, id));
                ctx.case(true, || format!("{:?}", steps), || {
                    rg.text(&t);
                    for d in &ds {
                        rg.bin(d);
                    }
                    eq("callbacks run", lg.take(), vec![expected(&tag, &args, &ds, false)])?;
                    if rg.ended() {
                        return Err("the connection ended".into());
                    }
                    Ok(())
                });
            } else {
                // an ack that answers nothing: an error, and nothing runs
                let (ns, id) = match r.below(4) {
                    0 if !answered.is_empty() => r.pick(&answered).clone(),
                    1 if !pending.is_empty() => {
                        let keys: Vec<_> = pending.keys().cloned().collect();
                        let (_, id) = r.pick(&keys).clone();
                        (nss.iter().chain(&["/c"]).map(|s| s.to_string()).find(|s| !pending.contains_key(&(s.clone(), id))).unwrap(), id)
                    }
                    _ => {
                        let mut id = r.int();
                        while pending.keys().any(|p| p.1 == id) {
                            id = id.wrapping_add(1);
                        }
                        (ns, id)
                    }
                };
                let t = ack_text(&ns, id, if i % 2 == 0 { None } else { Some(0) }, &["1".to_string()]);
                steps.push(format!("stray ack {:?}", t));
                ctx.case(true, || format!("{:?}", steps), || {
                    rg.text(&t);
                    eq("callbacks run", lg.take(), vec![])?;
                    if !rg.ended() {
                        return Err("accepted".into());
                    }
                    Ok(())
                });
                let closed = rig;
                ctx.case(true, || format!("{:?} then close", steps), || match closed.close() {
                    Err(e) if e.contains("nexpected ack") => Ok(()),
                    r => Err(format!("close reported {:?} instead of the unexpected ack", r)),
                });
                break;
            }
        }
    }
    // reading back what an ack was for: the same client over many events
    let many = if ctx.thorough { 70000 } else { 4200 };
    ctx.case(true, || format!("{} events with callbacks, answered in reverse", many), || {
        let mut rig = Rig::open();
        let log = Log::default();
        let mut sent = vec![];
        for k in 0..many {
            rig.client().emit("e").callback(log.ack(&k.to_string())).args().send();
            let ps = packets(&rig.sent())?;
            sent.push(Emitted { hdr: ps.into_iter().next().ok_or("nothing sent")?.0, natt: 0 });
        }
        let ids: BTreeSet<u64> = sent.iter().filter_map(|e| e.hdr.id).collect();
        eq("distinct ids", ids.len(), many)?;
        for (k, e) in sent.iter().enumerate().rev() {
            rig.text(&ack_text("/", e.hdr.id.unwrap(), None, &[e.natt.to_string()]));
            eq("callbacks", log.take().into_iter().map(|c| c.tag).collect::<Vec<_>>(), vec![k.to_string()])?;
        }
        Ok(())
    });
    // ids stay distinct when events are abandoned or dropped between
    for pattern in 0..32u32 {
        ctx.case(true, || format!("five events with callbacks, sent where the bits of {:05b} are set", pattern), || {
            let mut rig = Rig::open();
            let log = Log::default();
            let mut ids = vec![];
            for k in 0..5 {
                {
                    let mut c = rig.client();
                    let b = c.namespace_emit(["/", "/a"][k % 2], "e").callback(log.ack(&k.to_string()));
                    if pattern >> k & 1 == 1 {
                        b.args().send();
                    }
                }
                for (h, _) in packets(&rig.sent())? {
                    ids.push((k, h));
                }
            }
            let all: BTreeSet<u64> = ids.iter().filter_map(|x| x.1.id).collect();
            eq("ids", all.len(), pattern.count_ones() as usize)?;
            for (k, h) in ids {
                rig.text(&ack_text(&h.ns, h.id.ok_or("no id")?, None, &[]));
                eq("callbacks", log.take().into_iter().map(|c| c.tag).collect::<Vec<_>>(), vec![k.to_string()])?;
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C18: replies and heartbeats
/// the frames that an ack for (ns, id) with these arguments consists of
fn ack_frames(ns: &str, id: u64, binary: bool, args: &[V]) -> Vec<Ws> {
    ser::expect(None, ns, Some(id), binary, args)
}
fn usable(v: &V) -> bool {
    serde_json::to_string(v).is_ok() && serde_json::to_string(&out_of_line(v, &mut vec![])).is_ok()
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "received events with ids are answered through their handle, at once or later and in any order, with seeded arguments, text and binary; pings between them; every frame sent is compared with the one expected";
    let runs = ctx.budget(1200);
    for _ in 0..runs {
        let nss = pools(&mut ctx.rng, &["/", "/a", "/é", "/b/c"], &[]).0;
        let nss = strs(&nss);
        let mut rig = Rig::open();
        let log = Log::default();
        rig.client().set_fallback_callback(log.event("root"));
        for ns in &nss[1..] {
            rig.client().set_namespace_fallback_callback(ns, log.event(ns));
        }
        let mut steps: Vec<String> = vec![];
        let mut open: Vec<(String, u64, AckBuilder)> = vec![];
        let n = 1 + ctx.rng.below(10);
        for k in 0..n {
            let r = &mut ctx.rng;
            let (rg, lg) = (&mut rig, &log);
            match r.below(10) {
                0 | 1 => {
                    let pings = if r.chance(1, 30) { r.size(130) } else { 1 + r.below(3) };
                    steps.push(format!("{} pings", pings));
                    let together = r.chance(1, 2);
                    let payload = if r.chance(1, 3) { format!("2{}", text(r)) } else { r.pick(&["2", "2probe", "2é"]).to_string() };
                    ctx.case(true, || format!("{:?}", steps), || {
                        for _ in 0..pings {
                            if together {
                                rg.push(Ws::Text(payload.clone()));
                            } else {
                                rg.text(&payload);
                            }
                        }
                        eq("frames sent", rg.sent(), vec![Ws::Text("3".into()); pings])
                    });
                }
                2 | 3 => {
                    let quiet = r.pick(&["3", "40", "41", "40/a,", "42[\"e\",1]", "42/zz,7[\"e\"]", "42/zz,[\"e\"]", "450-[\"e\"]", "3x"]).to_string();
                    steps.push(format!("frame {:?}", quiet));
                    ctx.case(true, || format!("{:?}", steps), || {
                        rg.text(&quiet);
                        lg.take();
                        eq("frames sent", rg.sent(), vec![])
                    });
                }
                4..=6 => {
                    let ns = r.pick(&nss).to_string();
                    let id = if r.chance(1, 2) { r.int() } else { *r.pick(&[0u64, 1, 9, 10, 12345, u64::MAX, 1 << 32, k as u64]) };
                    let natt = if r.chance(1, 60) { r.size(300) } else { r.below(3) };
                    let t = if natt > 0 {
                        format!("45{}-{}{}[\"e\"]", natt, ns_text(&ns), id)
                    } else {
                        format!("42{}{}[\"e\"]", ns_text(&ns), id)
                    };
                    steps.push(format!("event {:?}", t));
                    let op = &mut open;
                    // pings may arrive between a packet and its attachments
                    let between = if natt > 0 && r.chance(1, 2) { 1 + r.below(2) } else { 0 };
                    let at = r.below(natt.max(1));
                    steps.push(format!("({} pings before attachment {})", between, at));
                    ctx.case(true, || format!("{:?}", steps), || {
                        rg.text(&t);
                        for j in 0..natt {
                            if j == at && between > 0 {
                                for _ in 0..between {
                                    rg.text("2");
                                }
                                eq("pongs sent", rg.sent(), vec![Ws::Text("3".into()); between])?;
                            }
                            rg.bin(&[j as u8]);
                        }
                        eq("callbacks run", lg.take().len(), 1)?;
                        let b = lg.reply().ok_or("no reply handle")?;
                        op.push((ns.clone(), id, b));
                        eq("frames sent", rg.sent(), vec![])
                    });
                }
                _ => {
                    if open.is_empty() {
                        continue;
                    }
                    let at = r.below(open.len());
                    let (ns, id, b) = open.remove(at);
                    let mode = *r.pick(&[None, Some(true), Some(false)]);
                    let m = if r.chance(1, 30) { r.size(40) } else { r.below(4) };
                    let args: Vec<V> = (0..m).map(|_| { let f = r.chance(1, 6); gen(r, 2, f) }).collect();
                    let drop_it = r.chance(1, 8);
                    let by_ref = r.chance(1, 2);
                    steps.push(format!("reply to {:?} {} mode {:?} args {:?} dropped {}", ns, id, mode, args, drop_it));
                    ctx.case(true, || format!("{:?}", steps), || {
                        let b = match mode {
                            None => b,
                            Some(x) => b.binary(x),
                        };
                        let mut a = b.args();
                        let mut ok = vec![];
                        for v in &args {
                            if by_ref || !usable(v) {
                                if a.arg_ref(v).is_ok() {
                                    ok.push(v.clone());
                                }
                            } else {
                                a = a.arg(v).map_err(|e| e.to_string())?;
                                ok.push(v.clone());
                            }
                        }
                        if drop_it {
                            drop(a);
                            return eq("frames sent", rg.sent(), vec![]);
                        }
                        a.send();
                        eq("frames sent", rg.sent(), ack_frames(&ns, id, mode == Some(true), &ok))
                    });
                }
            }
        }
        if rig.ended() {
            let s = format!("{:?}", steps);
            ctx.case(true, || s.clone(), || Err("the connection ended".into()));
        }
    }
    // replies from within the callback, also to events that arrive in one burst
    for m in [1usize, 2, 5, 40] {
        ctx.case(true, || format!("{} events answered from their callback, in one burst with pings", m), || {
            let mut rig = Rig::open();
            rig.client().set_namespace_event_callback("/n", "e", |a: &Args, r: Option<AckBuilder>| {
                let x: u64 = a.get(1).unwrap().deserialize().unwrap();
                if let Some(r) = r {
                    r.binary(x % 2 == 0).args().arg(&x).unwrap().send();
                }
            });
            let mut want = vec![];
            for k in 0..m {
                rig.push(Ws::Text(format!("42/n,{}[\"e\",{}]", k + 5, k)));
                rig.push(Ws::Text("2".into()));
                want.extend(ack_frames("/n", k as u64 + 5, k % 2 == 0, &[V::U64(k as u64)]));
                want.push(Ws::Text("3".into()));
            }
            eq("frames sent", rig.sent(), want)
        });
    }
    // a session answers pings after its packets, and a second client's handle stays with its own connection
    ctx.case(true, || "two clients, replies crossed in time".into(), || {
        let (mut a, mut b) = (Rig::open(), Rig::open());
        let (la, lb) = (Log::default(), Log::default());
        a.client().set_event_callback("e", la.event("a"));
        b.client().set_event_callback("e", lb.event("b"));
        a.text("421[\"e\"]");
        b.text("422[\"e\"]");
        let (ra, rb) = (la.reply().ok_or("no handle")?, lb.reply().ok_or("no handle")?);
        rb.args().send();
        ra.args().send();
        eq("first", a.sent(), vec![Ws::Text("431".into())])?;
        eq("second", b.sent(), vec![Ws::Text("432".into())])
    });
}

// ------------------------------------------------------------------ C19: sending
/// runs something the moment a message is queued, in another thread
struct Spy(Mutex<Option<Box<dyn FnOnce() + Send>>>);
impl ArcWake for Spy {
    fn wake_by_ref(s: &Arc<Self>) {
        if let Some(f) = lock(&s.0).take() {
            f();
        }
    }
}
fn poll_one(rx: &mut mpsc::UnboundedReceiver<Vec<Ws>>, spy: &Arc<Spy>) -> Option<Vec<Ws>> {
    let w = futures::task::waker(spy.clone());
    match Pin::new(rx).poll_next_unpin(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => x,
        Poll::Pending => None,
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "events built in every mode with seeded namespaces, names and arguments (some refused), sent or dropped, between other events; every queued unit is compared with the frames expected, and at the moment a unit is queued its ack is delivered from another thread";
    let nss = ["/", "/a", "/é", "/a/b?x=1"];
    let runs = ctx.budget(1500);
    for i in 0..runs {
        let nss = pools(&mut ctx.rng, &nss, &[]).0;
        let mut rig = Rig::open();
        let log = Log::default();
        // every other run looks at the queue, the others at the connection
        let queue = i % 2 == 0;
        let mut rx = None;
        if queue {
            let (tx, r) = mpsc::unbounded();
            rig.client().send = tx;
            rx = Some(r);
        }
        let mut steps: Vec<String> = vec![];
        let mut last_id: Option<u64> = None;
        for k in 0..if ctx.rng.chance(1, 60) { 280 } else { 1 + ctx.rng.below(6) } {
            let r = &mut ctx.rng;
            let ns = r.pick(&nss).to_string();
            let name = text(r);
            let with = r.chance(1, 2);
            let mode = *r.pick(&[None, Some(true), Some(true), Some(false)]);
            let m = if r.chance(1, 30) { r.size(300) } else { r.below(4) };
            let args: Vec<V> = (0..m).map(|_| { let f = r.chance(1, 8); gen(r, if m > 4 { 1 } else { 2 }, f) }).collect();
            let stage = r.below(10);
            let order = r.below(3);
            let by_ref = r.chance(1, 2);
            steps.push(format!("event {:?} on {:?} callback {} mode {:?} args {:?} stage {}", name, ns, with, mode, args, stage));
            let (rg, lg) = (&mut rig, &log);
            let (rx, last) = (&mut rx, &mut last_id);
            ctx.case(true, || format!("{:?}", steps), || {
                let tag = format!("ack{}", k);
                let mut ok = vec![];
                {
                    let mut c = rg.client();
                    let mut b = if ns == "/" && k % 2 == 0 { c.emit(&name) } else { c.namespace_emit(&ns, &name) };
                    if order == 0 && with {
                        b = b.callback(lg.ack(&tag));
                    }
                    if let Some(x) = mode {
                        if order == 2 {
                            b = b.binary(!x);
                        }
                        b = b.binary(x);
                    }
                    if order != 0 && with {
                        b = b.callback(lg.ack(&tag));
                    }
                    if stage > 0 {
                        let mut a = b.args();
                        for v in &args {
                            if by_ref || !usable(v) {
                                if a.arg_ref(v).is_ok() {
                                    ok.push(v.clone());
                                }
                            } else {
                                a = a.arg(v).map_err(|e| e.to_string())?;
                                ok.push(v.clone());
                            }
                        }
                        if stage > 1 {
                            a.send();
                        }
                    }
                }
                let units: Vec<Vec<Ws>> = match rx {
                    Some(rx) => {
                        let spy = Arc::new(Spy(Mutex::new(None)));
                        let mut u = vec![];
                        while let Some(x) = poll_one(rx, &spy) {
                            u.push(x);
                        }
                        u
                    }
                    None => {
                        let f = rg.sent();
                        if f.is_empty() {
                            vec![]
                        } else {
                            vec![f]
                        }
                    }
                };
                if stage <= 1 {
                    eq("units queued", units.len(), 0)?;
                    // nothing registered either: the next ids answer nothing
                    return Ok(());
                }
                eq("units queued", units.len(), 1)?;
                let id = match &units[0][0] {
                    Ws::Text(t) => read(t.get(1..).unwrap_or("")).ok_or_else(|| format!("unreadable {:?}", t))?.id,
                    f => return Err(format!("first frame {:?}", f)),
                };
                eq("id present", id.is_some(), with)?;
                if let (Some(x), Some(y)) = (id, *last) {
                    if x == y {
                        return Err(format!("id {} used again", x));
                    }
                }
                *last = id.or(*last);
                let want = ser::expect(Some(&name), &ns, id, mode == Some(true), &ok);
                eq("frames", units[0].clone(), want)?;
                if let Some(id) = id {
                    if k % 2 == 0 {
                        rg.text(&ack_text(&ns, id, None, &["1".into()]));
                        eq("ack callbacks run", lg.take(), vec![expected(&tag, &["1".into()], &[], false)])?;
                        if rg.ended() {
                            return Err("the connection ended on the ack".into());
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // any text as namespace, also one that no peer can answer
    for ns in ["", "a", "//", ",", "/a,b", " ", "/ ", "0", "[", "-", "/\n"] {
        for with in [false, true] {
            ctx.case(true, || format!("event on {:?}, callback {}", ns, with), || {
                let rig = Rig::open();
                let (tx, mut rx) = mpsc::unbounded();
                rig.client().send = tx;
                for _ in 0..3 {
                    let mut c = rig.client();
                    let mut b = c.namespace_emit(ns, "e");
                    if with {
                        b = b.callback(|_: &Args| {});
                    }
                    b.args().send();
                }
                let mut ids = vec![];
                for _ in 0..3 {
                    let u: Vec<Ws> = rx.try_next().map_err(|e| e.to_string())?.ok_or("nothing queued")?;
                    eq("frames", u.len(), 1)?;
                    let t = u[0].to_text().map_err(|e| e.to_string())?.to_string();
                    let rest = t.strip_prefix(&format!("42{},", ns)).and_then(|t| t.strip_suffix("[\"e\"]")).ok_or_else(|| format!("frame {:?}", t))?;
                    eq("id present", !rest.is_empty(), with)?;
                    if with {
                        ids.push(rest.parse::<u64>().map_err(|e| e.to_string())?);
                    }
                }
                ids.sort();
                ids.dedup();
                eq("different ids", ids.len(), if with { 3 } else { 0 })?;
                if rx.try_next().is_ok() {
                    return Err("more was queued".into());
                }
                Ok(())
            });
        }
    }
    // dropped at every stage: nothing registered (an ack with any small id answers nothing)
    for stage in 0..3 {
        for id in 0..4u64 {
            ctx.case(true, || format!("event with callback dropped at stage {}, then ack {}", stage, id), || {
                let mut rig = Rig::open();
                let log = Log::default();
                for k in 0..3 {
                    let mut c = rig.client();
                    let b = c.emit("e").callback(log.ack(&k.to_string()));
                    if stage > 0 {
                        let a = b.args();
                        if stage > 1 {
                            let _ = a.arg(&1).map_err(|e| e.to_string())?;
                        }
                    }
                }
                eq("frames sent", rig.sent(), vec![])?;
                rig.text(&ack_text("/", id, None, &[]));
                eq("callbacks run", log.take(), vec![])?;
                if !rig.ended() {
                    return Err("the ack was accepted".into());
                }
                Ok(())
            });
        }
    }
    // the answer arrives as soon as the packet can leave
    let races = ctx.budget(60);
    for i in 0..races {
        let ns = nss[i % 4];
        let binary = i % 3 == 0;
        let before = i / 4 % 3;
        ctx.case(true, || format!("event with callback on {:?} (binary {}), after {} others, answered the moment it is queued", ns, binary, before), || {
            let mut rig = Rig::open();
            let log = Log::default();
            let (tx, mut rx) = mpsc::unbounded();
            rig.client().send = tx;
            for _ in 0..before {
                rig.client().emit("x").callback(|_: &Args| {}).args().send();
                rx.try_next().map_err(|e| e.to_string())?;
            }
            // the id the event is going to have: ids are handed out one after another
            let (done_tx, done_rx) = std::sync::mpsc::channel::<()>();
            let (peer, exec) = (rig.peer.clone(), rig.exec.clone());
            let rx = Arc::new(Mutex::new(rx));
            let rx2 = rx.clone();
            let spy = Arc::new(Spy(Mutex::new(None)));
            let probe = std::sync::mpsc::channel::<Result<(), String>>();
            let ptx = probe.0.clone();
            let nss = ns.to_string();
            *lock(&spy.0) = Some(Box::new(move || {
                let h = std::thread::spawn(move || {
                    let got = lock(&rx2).try_next();
                    let r = (|| {
                        let u: Vec<Ws> = match got {
                            Ok(Some(u)) => u,
                            x => return Err(format!("queue: {:?}", x)),
                        };
                        let id = match &u[0] {
                            Ws::Text(t) => read(&t[1..]).and_then(|h| h.id).ok_or("no id")?,
                            f => return Err(format!("{:?}", f)),
                        };
                        let _ = lock(&peer).write_message(Ws::Text(ack_text(&nss, id, None, &["5".into()])));
                        exec.run();
                        Ok(())
                    })();
                    let _ = ptx.send(r);
                    let _ = done_tx.send(());
                });
                // a sender that still holds the registry is no violation: let it finish
                let _ = done_rx.recv_timeout(std::time::Duration::from_millis(300));
                drop(h);
            }));
            if poll_one(&mut lock(&rx), &spy).is_some() {
                return Err("something was queued before".into());
            }
            rig.client().namespace_emit(ns, "e").binary(binary).callback(log.ack("ack")).args().arg(&1).map_err(|e| e.to_string())?.send();
            match probe.1.recv_timeout(std::time::Duration::from_secs(5)) {
                Ok(r) => r?,
                Err(_) => return Err("the packet was not queued".into()),
            }
            eq("ack callbacks run", log.take(), vec![expected("ack", &["5".into()], &[], false)])?;
            if rig.ended() {
                return Err("the ack found no callback".into());
            }
            Ok(())
        });
    }
    // order
    let n = ctx.budget(60);
    for _ in 0..n {
        let r = &mut ctx.rng;
        let plan: Vec<(usize, bool, usize)> = (0..2 + r.below(12)).map(|k| (k, r.chance(1, 2), r.below(3))).collect();
        let cap = *r.pick(&[usize::MAX, 1, 7, 40]);
        ctx.case(true, || format!("events {:?} (number, binary, attachments) sent at once, the connection taking {} bytes at a time", plan, cap), || {
            let mut rig = Rig::open();
            lock(&rig.peer).get_ref().limit(cap);
            let mut want = vec![];
            for (k, binary, natt) in &plan {
                let args: Vec<V> = (0..*natt).map(|j| V::Bytes(vec![*k as u8, j as u8])).collect();
                let mut c = rig.client();
                let evname = format!("e{}", k);
                let mut a = c.emit(&evname).binary(*binary).args();
                for v in &args {
                    a.arg_ref(v).map_err(|e| e.to_string())?;
                }
                a.send();
                want.extend(ser::expect(Some(&format!("e{}", k)), "/", None, *binary, &args));
            }
            eq("frames", rig.sent(), want)
        });
    }
}

// ------------------------------------------------------------------ C20: URLs
#[derive(Clone, Debug)]
struct UrlCase {
    url: String,
    tls: bool,
    host: String,
    port: Option<u16>,
    target: String,
}
fn url_case(scheme: &str, host: &str, port: Option<u16>, path: &str, query: Option<&str>, frag: Option<&str>) -> UrlCase {
    let mut u = format!("{}://{}", scheme, host);
    if let Some(p) = port {
        u += &format!(":{}", p);
    }
    u += path;
    if let Some(x) = query {
        u += &format!("?{}", x);
    }
    if let Some(f) = frag {
        u += &format!("#{}", f);
    }
    let tls = matches!(scheme.to_ascii_lowercase().as_str(), "https" | "wss");
    // what a URL library makes of path and query
    let p = url::Url::parse(&u).expect("generated url");
    let mut t = p.path().to_string();
    t.push('?');
    match p.query() {
        Some(x) if !x.is_empty() => {
            t += x;
            t += "&EIO=4&transport=websocket";
        }
        _ => t += "EIO=4&transport=websocket",
    }
    let default = if tls { 443 } else { 80 };
    UrlCase { url: u, tls, host: p.host_str().unwrap().to_string(), port: port.filter(|x| *x != default), target: t }
}

/// what the client writes first: the request head, or the first bytes when it is no http
fn first_bytes(url: &str) -> Result<(Vec<u8>, Option<Result<(), String>>), String> {
    logging();
    let exec = Exec::default();
    let (c, p) = pipe();
    let (u, e) = (url.to_string(), exec.clone());
    let mut h = Hand::new(async move { Client::from_stream(u, c, &e).await });
    h.run(&exec);
    let b = p.pending();
    p.hang_up();
    h.run(&exec);
    Ok((b, h.done.map(|r| r.map(|_| ()).map_err(|e| format!("{:?}", e)))))
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "URLs assembled from schemes, hosts, ports, paths, queries and fragments, and texts that are no such URL; the request the peer receives (target and host), the use of TLS and the arguments of the connect function are compared with the parts";
    let schemes = ["http", "ws", "https", "wss", "HTTP", "WsS"];
    let hosts = ["example.com", "localhost", "127.0.0.1", "[::1]", "EXAMPLE.org", "a-b.c"];
    let ports = [None, Some(80), Some(443), Some(1), Some(8000), Some(65535)];
    let paths = ["", "/", "/socket.io/", "/a/b", "/a//b", "/é", "/a%20b", "/EIO=4", "/a/../c", "/a//", "//", "/a/", "/a;b=1", "/.", "/a.b", "/%2F", "/a:80/b@c", "/A", "/~x/"];
    let queries = [None, Some(""), Some("a=1"), Some("a=1&b=2"), Some("x"), Some("EIO=3"), Some("transport=polling"), Some("q=%C3%A9+b"), Some("q=a?b"), Some("sid=1&"), Some("a=%26"), Some("EIO=4"), Some("transport=websocket"), Some("EIO=4&transport=websocket"), Some("x=1&EIO=4"), Some("a=1&a=2"), Some("&"), Some("="), Some("a+b=c%20d"), Some("B=2&A=1")];
    let frags = [None, None, Some("f"), Some("")];
    let mut cases = vec![];
    for s in schemes {
        for p in ports {
            cases.push(url_case(s, "example.com", p, "/", None, None));
        }
        for q in queries {
            cases.push(url_case(s, "localhost", Some(81), "/p", q, None));
        }
    }
    for h in hosts {
        for p in paths {
            for f in frags {
                cases.push(url_case("ws", h, None, p, Some("k=v"), f));
            }
        }
    }
    for len in [255usize, 256, 1024, 2048, 2049, 4100, 9000] {
        let (path, query) = (format!("/{}", "p/".repeat(len / 2)), format!("q={}", "v".repeat(len)));
        cases.push(url_case("ws", "example.com", None, &path, None, None));
        cases.push(url_case("ws", "example.com", None, "/", Some(&query), None));
        cases.push(url_case("ws", "example.com", Some(8000), &path, Some(&query), Some("f")));
    }
    let n = ctx.budget(1500);
    for _ in 0..n {
        let r = &mut ctx.rng;
        cases.push(url_case(r.pick(&schemes), r.pick(&hosts), *r.pick(&ports), r.pick(&paths), *r.pick(&queries), *r.pick(&frags)));
    }
    for (i, c) in cases.into_iter().enumerate() {
        ctx.case(true, || format!("{:?}", c), || {
            let (b, _) = first_bytes(&c.url)?;
            if c.tls {
                // (the TLS library takes no addresses for names)
                let ip = c.host.starts_with('[') || c.host == "127.0.0.1";
                if b.first() != Some(&0x16) && !(ip && b.is_empty()) {
                    return Err(format!("no TLS handshake: {:?}", String::from_utf8_lossy(&b)));
                }
            } else {
                let t = String::from_utf8_lossy(&b).to_string();
                let line = t.lines().next().unwrap_or("").to_string();
                eq("request line", line, format!("GET {} HTTP/1.1", c.target))?;
                let host = t.lines().find(|l| l.to_ascii_lowercase().starts_with("host:")).map(|l| l[5..].trim().to_string());
                let want = match c.port {
                    Some(p) => format!("{}:{}", c.host, p),
                    None => c.host.clone(),
                };
                eq("host", host.unwrap_or_default(), want)?;
                if i % 16 == 0 {
                    let rig = connect(&c.url)?;
                    eq("request target of a whole connection", rig.request.target.clone(), c.target.clone())?;
                }
            }
            // the connect function
            let got = Arc::new(Mutex::new(vec![]));
            let exec = Exec::default();
            let (u, e, g) = (c.url.clone(), exec.clone(), got.clone());
            let mut h = Hand::new(async move {
                let f = move |host: String, port: u16| {
                    lock(&g).push((host, port));
                    async { Err::<ClientEnd, std::io::Error>(std::io::ErrorKind::ConnectionRefused.into()) }
                };
                Client::connect(u, f, &e).await
            });
            if !h.run(&exec) {
                return Err("connect did not finish".into());
            }
            let p = c.port.unwrap_or(if c.tls { 443 } else { 80 });
            eq("connect function called with", lock(&got).clone(), vec![(c.host.clone(), p)])?;
            match h.done.unwrap() {
                Err(socket_io_client::Error::ConnectionError(_)) => Ok(()),
                Err(e) => Err(format!("wrong error {:?}", e)),
                Ok(_) => Err("connected over a failed connection".into()),
            }
        });
    }
    // connect goes on with the stream that was opened
    ctx.case(true, || "connect over a stream".into(), || {
        let exec = Exec::default();
        let (c, p) = pipe();
        let slot = Arc::new(Mutex::new(Some(c)));
        let e = exec.clone();
        let mut h = Hand::new(async move {
            let f = move |_: String, _: u16| {
                let c = lock(&slot).take();
                async move { c.ok_or_else(|| std::io::Error::from(std::io::ErrorKind::Other)) }
            };
            Client::connect("http://h.example/x?y=z", f, &e).await
        });
        h.run(&exec);
        let t = String::from_utf8_lossy(&p.pending()).to_string();
        eq("request line", t.lines().next().unwrap_or("").to_string(), "GET /x?y=z&EIO=4&transport=websocket HTTP/1.1".to_string())
    });
    let bad = [
        "ftp://example.com/", "file:///tmp/x", "mailto:a@b", "localhost:8000", "example.com", "", " ", "//example.com/", "/path", "http://", "ws://", "wss:///x", "http://[::1", "http://exa mple.com/",
        "data:text/plain,x", "httpx://h/", "wsss://h/", "htt://h/", "unix:/tmp/s", "http://h:99999/", "ws://:80/", "javascript:1", "blob:http://x/", "about:blank", "é", "http:", "socket.io://h/", "w://h/", "shttp://h/", "ws+unix://h/",
    ];
    for u in bad {
        // a URL library may still find a host in some of these (http:///x)
        ctx.case(true, || format!("{:?}", u), || {
            let fine = url::Url::parse(u).map(|p| matches!(p.scheme(), "http" | "https" | "ws" | "wss") && p.host().is_some()).unwrap_or(false);
            let (b, r) = first_bytes(u)?;
            if fine {
                return Ok(());
            }
            if !b.is_empty() {
                return Err(format!("something was sent: {:?}", String::from_utf8_lossy(&b)));
            }
            match r {
                Some(Err(e)) if e.contains("UrlError") => {}
                r => return Err(format!("{:?}", r)),
            }
            let called = Arc::new(AtomicUsize::new(0));
            let exec = Exec::default();
            let (e, k, us) = (exec.clone(), called.clone(), u.to_string());
            let mut h = Hand::new(async move {
                let f = move |_: String, _: u16| {
                    k.fetch_add(1, Ordering::SeqCst);
                    async { Err::<ClientEnd, std::io::Error>(std::io::ErrorKind::Other.into()) }
                };
                Client::connect(us, f, &e).await
            });
            h.run(&exec);
            eq("connect function calls", called.load(Ordering::SeqCst), 0)?;
            match h.done {
                Some(Err(socket_io_client::Error::UrlError(..))) => Ok(()),
                Some(Err(e)) => Err(format!("wrong error {:?}", e)),
                _ => Err("accepted".into()),
            }
        });
    }
}

// ------------------------------------------------------------------ C21: opening and closing
/// the websocket accept response for the request in `head`
fn accept(head: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(head).to_string();
    let key = t.lines().find(|l| l.to_ascii_lowercase().starts_with("sec-websocket-key:")).map(|l| l[18..].trim().to_string()).unwrap_or_default();
    let acc = ts::handshake::server::create_response(
        &http_request(&key),
    )
    .ok()
    .and_then(|r| r.headers().get("Sec-WebSocket-Accept").map(|h| h.to_str().unwrap().to_string()))
    .unwrap_or_default();
    format!("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n", acc).into_bytes()
}
fn http_request(key: &str) -> ts::handshake::server::Request {
    ts::http::Request::builder()
        .method("GET")
        .uri("/")
        .version(ts::http::Version::HTTP_11)
        .header("Connection", "Upgrade")
        .header("Upgrade", "websocket")
        .header("Sec-WebSocket-Version", "13")
        .header("Sec-WebSocket-Key", key)
        .body(())
        .unwrap()
}
/// an unmasked frame as a server sends it
fn raw_frame(op: u8, d: &[u8]) -> Vec<u8> {
    assert!(d.len() < 126);
    let mut v = vec![0x80 | op, d.len() as u8];
    v.extend(d);
    v
}
#[derive(Clone, Debug)]
enum Act {
    Accept,
    Bytes(Vec<u8>),
    Open,
    Text(&'static str),
    Bin(Vec<u8>),
    CloseFrame,
    Eof,
}
fn act(p: &mut PeerEnd, head: &[u8], a: &Act) {
    match a {
        Act::Accept => {
            let _ = p.write(&accept(head));
        }
        Act::Bytes(b) => {
            let _ = p.write(b);
        }
        Act::Open => {
            let _ = p.write(&raw_frame(1, OPEN.as_bytes()));
        }
        Act::Text(t) => {
            let _ = p.write(&raw_frame(1, t.as_bytes()));
        }
        Act::Bin(b) => {
            let _ = p.write(&raw_frame(2, b));
        }
        Act::CloseFrame => {
            let _ = p.write(&raw_frame(8, &[]));
        }
        Act::Eof => p.end(),
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "scripted peers that refuse, cut, delay or complete the handshake and the open packet, in every order; closes with peers that answer, send more first, cut or stay silent (real timeouts); second closes; order of queued messages under small buffers";
    use Act::*;
    let p = |v: Vec<Act>| v;
    // (script, outcome: Some(true) connected, Some(false) failed, None still waiting)
    let scripts: Vec<(Vec<Act>, Option<bool>)> = vec![
        (p(vec![]), None),
        (p(vec![Accept]), None),
        (p(vec![Accept, Open]), Some(true)),
        (p(vec![Accept, Open, Text("3")]), Some(true)),
        (p(vec![Eof]), Some(false)),
        (p(vec![Bytes(b"HTTP/1.1 404 Not Found\r\n\r\n".to_vec())]), Some(false)),
        (p(vec![Bytes(b"HTTP/1.1 200 OK\r\n\r\n".to_vec())]), Some(false)),
        (p(vec![Bytes(b"HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: AAAA\r\n\r\n".to_vec())]), Some(false)),
        (p(vec![Bytes(b"\0\x01garbage\r\n\r\n".to_vec())]), Some(false)),
        (p(vec![Bytes(b"HTTP/1.1 101 Swi".to_vec()), Eof]), Some(false)),
        (p(vec![Accept, Eof]), Some(false)),
        (p(vec![Accept, CloseFrame, Eof]), Some(false)),
        (p(vec![Accept, Text("2"), Eof]), Some(false)),
        (p(vec![Accept, Text("42[\"e\"]"), Eof]), Some(false)),
        (p(vec![Accept, Text("42[\"e\"]")]), Some(false)),
        (p(vec![Accept, Text("2")]), Some(false)),
        (p(vec![Accept, Text("1")]), Some(false)),
        (p(vec![Accept, Text("0{}")]), Some(false)),
        (p(vec![Accept, Text("0")]), Some(false)),
        (p(vec![Accept, Text("")]), Some(false)),
        (p(vec![Accept, Bin(vec![4, 1])]), Some(false)),
        (p(vec![Accept, Bytes(raw_frame(9, b"x"))]), None),
        (p(vec![Accept, Bytes(raw_frame(9, b"x")), Bytes(raw_frame(10, b"y")), Open]), Some(true)),
        (p(vec![Accept, Bytes(vec![0x83, 0])]), Some(false)),
        (p(vec![Accept, Bytes(raw_frame(1, &[0xff]))]), Some(false)),
        (p(vec![Accept, Text("4")]), Some(false)),
        (p(vec![Accept, Text("6"), Open]), Some(false)),
    ];
    for (s, want) in &scripts {
        // all at once, one by one, byte by byte
        for how in 0..3 {
            ctx.case(true, || format!("peer {:?} delivery {}", s, how), || {
                logging();
                let exec = Exec::default();
                let (c, mut pe) = pipe();
                let e = exec.clone();
                let mut h = Hand::new(async move { Client::from_stream("ws://h/", c, &e).await });
                h.run(&exec);
                let head = pe.pending();
                let mut early = false;
                for (i, a) in s.iter().enumerate() {
                    if let (2, Act::Bytes(b)) = (how, a) {
                        for x in b {
                            let _ = pe.write(&[*x]);
                            h.run(&exec);
                        }
                    }  else {
                        act(&mut pe, &head, a);
                    }
                    if how > 0 {
                        h.run(&exec);
                    }
                    let opened = s[..=i].iter().any(|x| matches!(x, Act::Open));
                    if !opened && matches!(h.done, Some(Ok(_))) {
                        early = true;
                    }
                }
                h.run(&exec);
                if early {
                    return Err("connected before the open packet".into());
                }
                let got = h.done.as_ref().map(|r| r.is_ok());
                eq("outcome", got, *want)
            });
        }
    }
    ctx.case(true, || "spawning fails".into(), || {
        let exec = Exec::default();
        exec.refuse.store(true, Ordering::SeqCst);
        let (c, mut pe) = pipe();
        let e = exec.clone();
        let mut h = Hand::new(async move { Client::from_stream("ws://h/", c, &e).await });
        h.run(&exec);
        let head = pe.pending();
        act(&mut pe, &head, &Act::Accept);
        act(&mut pe, &head, &Act::Open);
        h.run(&exec);
        match h.done {
            Some(Err(_)) => Ok(()),
            r => Err(format!("{:?}", r.map(|x| x.is_ok()))),
        }
    });

    // closing
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum End {
        /// the peer answers the close and ends
        Answer,
        /// it sends these many events first
        Late(usize),
        /// it ends without answering
        Cut,
        /// it had closed already
        Before,
        /// it had vanished already
        Gone,
        /// it answers something invalid
        Bad,
        /// it answers something that is no websocket frame
        Garbled,
    }
    let ends = [End::Answer, End::Late(1), End::Late(7), End::Cut, End::Before, End::Gone, End::Bad, End::Garbled];
    for end in ends {
        for queued in [0usize, 1, 5] {
            for (flushed, cap) in [(false, usize::MAX), (true, usize::MAX), (false, 1), (true, 1), (false, 9), (false, 14)] {
                ctx.case(true, || format!("close with {} events queued (sent before: {}), buffer {}, peer {:?}", queued, flushed, cap, end), || {
                    let mut rig = Rig::open();
                    lock(&rig.peer).get_ref().limit(cap);
                    let log = Log::default();
                    rig.client().set_event_callback("late", log.event("late"));
                    let mut want = vec![];
                    for k in 0..queued {
                        rig.client().emit("e").args().arg(&k).map_err(|e| e.to_string())?.send();
                        want.push(Ws::Text(format!("42[\"e\",{}]", k)));
                    }
                    let mut got = vec![];
                    if flushed {
                        got.extend(rig.sent());
                        eq("frames sent before the close", got.clone(), want.clone())?;
                    }
                    match end {
                        End::Before => {
                            let _ = lock(&rig.peer).close(None);
                            rig.exec.run();
                        }
                        End::Gone => {
                            lock(&rig.peer).get_ref().hang_up();
                            rig.exec.run();
                        }
                        _ => {}
                    }
                    let c = rig.client.clone();
                    let mut h = Hand::new(async move { lock(&c).close().await });
                    h.run(&rig.exec);
                    let live = !matches!(end, End::Before | End::Gone);
                    if live && h.done.is_some() {
                        return Err("close returned before the peer ended the connection".into());
                    }
                    // what arrives until the close frame
                    let mut close_seen = false;
                    for _ in 0..2000 {
                        h.run(&rig.exec);
                        let m = { lock(&rig.peer).read_message() };
                        match m {
                            Ok(Ws::Close(_)) => close_seen = true,
                            Ok(m) => {
                                if close_seen {
                                    return Err(format!("{:?} after the close frame", m));
                                }
                                got.push(m)
                            }
                            Err(_) => {
                                // room was made: the client may go on
                                h.run(&rig.exec);
                                if lock(&rig.peer).get_ref().pending().is_empty() {
                                    break;
                                }
                            }
                        }
                        if close_seen {
                            break;
                        }
                    }
                    if live && !close_seen {
                        return Err("no websocket close was sent".into());
                    }
                    if live && h.done.is_some() {
                        return Err("close returned before the peer ended the connection".into());
                    }
                    if got.len() > want.len() || got[..] != want[..got.len()] {
                        return Err(format!("sent {:?}, queued {:?}", got, want));
                    }
                    match end {
                        End::Late(n) => {
                            for k in 0..n {
                                let b = raw_frame(1, format!("42[\"late\",{}]", k).as_bytes());
                                let _ = lock(&rig.peer).get_mut().write(&b);
                                h.run(&rig.exec);
                                if h.done.is_some() {
                                    return Err("close returned before the peer ended the connection".into());
                                }
                            }
                        }
                        End::Bad => {
                            let _ = lock(&rig.peer).get_mut().write(&raw_frame(1, b"9"));
                        }
                        End::Garbled => {
                            let _ = lock(&rig.peer).get_mut().write(&[0x83, 0]);
                        }
                        _ => {}
                    }
                    // the answer to the close was written by the peer's websocket when it read it
                    for _ in 0..20 {
                        h.run(&rig.exec);
                        let m = { lock(&rig.peer).read_message() };
                        if let Err(ts::Error::Io(e)) = m {
                            if e.kind() == std::io::ErrorKind::WouldBlock && !matches!(end, End::Cut) {
                                continue;
                            }
                        }
                    }
                    lock(&rig.peer).get_ref().hang_up();
                    if !h.run(&rig.exec) {
                        return Err("close did not return after the peer had ended the connection".into());
                    }
                    let r = h.done.unwrap();
                    match end {
                        End::Answer | End::Late(_) => {
                            if let Err(e) = r {
                                return Err(format!("an orderly close reported {:?}", e));
                            }
                        }
                        End::Bad | End::Garbled if r.is_ok() => return Err("close reported no error".into()),
                        _ => {}
                    }
                    // a second close
                    let c = rig.client.clone();
                    let mut h2 = Hand::new(async move { lock(&c).close().await });
                    if !h2.run(&rig.exec) {
                        return Err("the second close did not return".into());
                    }
                    match h2.done.unwrap() {
                        Err(socket_io_client::Error::AlreadyClosed) => Ok(()),
                        r => Err(format!("second close: {:?}", r)),
                    }
                });
            }
        }
    }
    // an error that ended the connection is what close reports
    for f in ["43999[1]", "9", "4x", "42"] {
        ctx.case(true, || format!("the peer sends {:?}, then close", f), || {
            let mut rig = Rig::open();
            rig.text(f);
            if !rig.ended() {
                return Err("the connection went on".into());
            }
            match rig.close() {
                Err(_) => Ok(()),
                Ok(()) => Err("close reported no error".into()),
            }
        });
    }
    // order of queued messages
    let n = ctx.budget(200);
    for _ in 0..n {
        let r = &mut ctx.rng;
        let plan: Vec<usize> = (0..1 + r.below(20)).map(|_| *r.pick(&[0usize, 1, 2, 3, 300])).collect();
        let cap = *r.pick(&[1usize, 3, 50, 1000, usize::MAX]);
        let between = r.below(3);
        ctx.case(true, || format!("units of {:?} attachments, buffer {}, peer reads every {}", plan, cap, between), || {
            let mut rig = Rig::open();
            lock(&rig.peer).get_ref().limit(cap);
            let mut want = vec![];
            let mut got = vec![];
            for (k, n) in plan.iter().enumerate() {
                let mut unit = vec![Ws::Text(format!("45{}-[\"e{}\"]", n, k))];
                unit.extend((0..*n).map(|j| Ws::Binary(vec![4, k as u8, j as u8])));
                want.extend(unit.clone());
                let _ = rig.client().send.unbounded_send(unit);
                if between > 0 && k % between == 0 {
                    got.extend(rig.sent());
                }
                if k % 3 == 1 {
                    rig.push(Ws::Text("3".into()));
                }
            }
            got.extend(rig.sent());
            eq("frames", got, want)
        });
    }
    // timeouts, in real time and side by side
    ctx.case(true, || "peers that stay silent: in the handshake, before the open packet, and when asked to close".into(), || {
        let exec = Exec::default();
        let (c1, p1) = pipe();
        let (c2, mut p2) = pipe();
        let (e1, e2) = (exec.clone(), exec.clone());
        let t0 = std::time::Instant::now();
        let mut h1 = Hand::new(async move { Client::from_stream("ws://h/", c1, &e1).await });
        let mut h2 = Hand::new(async move { Client::from_stream("ws://h/", c2, &e2).await });
        h1.run(&exec);
        h2.run(&exec);
        let head = p2.pending();
        act(&mut p2, &head, &Act::Accept);
        h2.run(&exec);
        let rig = Rig::open();
        let c = rig.client.clone();
        let mut h3 = Hand::new(async move { lock(&c).close().await });
        h3.run(&rig.exec);
        while t0.elapsed() < std::time::Duration::from_millis(14000) {
            let d = [h1.run(&exec), h2.run(&exec), h3.run(&rig.exec)];
            if d == [true; 3] {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
        }
        let waited = t0.elapsed();
        drop(p1);
        match (h1.done, h2.done, h3.done) {
            (Some(a), Some(b), Some(c)) => {
                if a.is_ok() || b.is_ok() {
                    return Err("connecting to a silent peer succeeded".into());
                }
                if c.is_ok() {
                    return Err("close reported success although the peer never ended the connection".into());
                }
                if waited < std::time::Duration::from_millis(1000) {
                    return Err(format!("timed out after only {:?}", waited));
                }
                Ok(())
            }
            (a, b, c) => Err(format!("after {:?} still waiting: handshake {}, open {}, close {}", waited, a.is_none(), b.is_none(), c.is_none())),
        }
    });
    // the connection takes nothing any more: close cannot be sent
    for late in [false, true] {
        ctx.case(true, || format!("close over a connection that takes no more bytes, ended afterwards: {}", late), || {
            let mut rig = Rig::open();
            lock(&rig.peer).get_ref().deafen();
            let c = rig.client.clone();
            let mut h = Hand::new(async move { lock(&c).close().await });
            if late {
                h.run(&rig.exec);
            }
            lock(&rig.peer).get_ref().end();
            if !h.run(&rig.exec) {
                return Err("close did not return after the connection had ended".into());
            }
            if h.done.unwrap().is_ok() {
                return Err("close reported no error".into());
            }
            let _ = &mut rig;
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C22: callbacks that use the client
#[derive(Clone, Debug)]
enum Body {
    SetEvent,
    ClearEvent,
    SetFallback,
    ClearFallback,
    Emit,
    EmitCallback,
    /// all of them, from another thread that the callback waits for
    Thread,
    SetSelf,
    ClearSelf,
    Panic,
}
const BODIES: [Body; 10] = [Body::SetEvent, Body::ClearEvent, Body::SetFallback, Body::ClearFallback, Body::Emit, Body::EmitCallback, Body::Thread, Body::SetSelf, Body::ClearSelf, Body::Panic];
fn work(b: &Body, c: &Arc<Mutex<Client>>, ns: &str, ran: &Arc<AtomicUsize>) {
    match b {
        Body::SetEvent => lock(c).set_namespace_event_callback(ns, "other", |_: &Args, _: Option<AckBuilder>| {}),
        Body::ClearEvent => lock(c).clear_namespace_event_callback(ns, "other"),
        Body::SetFallback => lock(c).set_namespace_fallback_callback(ns, |_: &Args, _: Option<AckBuilder>| {}),
        Body::ClearFallback => lock(c).clear_namespace_fallback_callback(ns),
        Body::Emit => lock(c).namespace_emit(ns, "out").args().send(),
        Body::EmitCallback => {
            let r = ran.clone();
            lock(c)
                .namespace_emit(ns, "out")
                .callback(move |_: &Args| {
                    r.fetch_add(100, Ordering::SeqCst);
                })
                .args()
                .send()
        }
        Body::SetSelf => lock(c).set_namespace_event_callback(ns, "e", |_: &Args, _: Option<AckBuilder>| {}),
        Body::ClearSelf => lock(c).clear_namespace_event_callback(ns, "e"),
        Body::Thread => {
            let (c, ns, ran) = (c.clone(), ns.to_string(), ran.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for b in &BODIES[..6] {
                    work(b, &c, &ns, &ran);
                }
                let _ = tx.send(());
            });
            rx.recv_timeout(std::time::Duration::from_secs(5)).expect("the client was blocked while the callback ran");
        }
        Body::Panic => panic!("callback"),
    }
    ran.fetch_add(1, Ordering::SeqCst);
}
/// every operation on the client comes to an end
fn usable_client(c: &Arc<Mutex<Client>>) -> Result<(), String> {
    let c = c.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let ran = Arc::new(AtomicUsize::new(0));
            for b in BODIES[..6].iter().chain(&BODIES[..6]) {
                work(b, &c, "/probe", &ran);
            }
        }));
        let _ = tx.send(r.is_ok());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(5)) {
        Ok(true) => Ok(()),
        Ok(false) => Err("an operation on the client panicked afterwards".into()),
        Err(_) => Err("the callback registry stayed locked".into()),
    }
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "event, fallback and ack callbacks whose bodies set and clear callbacks and send events (directly, or in a thread they wait for), one or several per packet burst, text and binary; afterwards, and after every kind of refused packet, the client must still answer every operation";
    let runs = ctx.budget(300);
    for i in 0..runs {
        let r = &mut ctx.rng;
        let m = 1 + r.below(3);
        let bodies: Vec<Body> = (0..m).map(|_| r.pick(&BODIES).clone()).collect();
        let bodies = if i < 30 { vec![BODIES[i % 10].clone()] } else { bodies };
        let (nss, evs) = if i < 30 { (vec!["/".to_string(), "/a".to_string()], vec!["e".to_string()]) } else { pools(r, &["/", "/a"], &["e", "$e"]) };
        let (ns, ev) = (r.pick(&nss).clone(), r.pick(&evs).clone());
        let via = if i < 30 { i / 10 } else { r.below(3) };
        let binary = r.chance(1, 3);
        let burst = 1 + r.below(3);
        ctx.case(true, || format!("{} callback for {:?} on {:?} doing {:?}; {} packets, binary {}", ["event", "fallback", "ack"][via], ev, ns, bodies, burst, binary), || {
            let mut rig = Rig::open();
            let ran = Arc::new(AtomicUsize::new(0));
            let panics = bodies.iter().any(|b| matches!(b, Body::Panic));
            let mut frames = vec![];
            if via < 2 {
                let (b, c, n, k) = (bodies.clone(), rig.client.clone(), ns.clone(), ran.clone());
                let f = move |_: &Args, _: Option<AckBuilder>| {
                    for x in &b {
                        work(x, &c, &n, &k);
                    }
                };
                if via == 0 {
                    rig.client().set_namespace_event_callback(&ns, &ev, f);
                } else {
                    rig.client().set_namespace_fallback_callback(&ns, f);
                }
                for _ in 0..burst {
                    frames.push(Ws::Text(format!("4{}{}1[{}]", if binary { "51-" } else { "2" }, ns_text(&ns), q(&ev))));
                    if binary {
                        frames.push(Ws::Binary(vec![4, 1]));
                    }
                }
            } else {
                for _ in 0..burst {
                    let (b, c, n, k) = (bodies.clone(), rig.client.clone(), ns.clone(), ran.clone());
                    rig.client()
                        .namespace_emit(&ns, "q")
                        .callback(move |_: &Args| {
                            for x in &b {
                                work(x, &c, &n, &k);
                            }
                        })
                        .args()
                        .send();
                }
                for (h, _) in packets(&rig.sent())? {
                    frames.push(Ws::Text(ack_text(&ns, h.id.ok_or("no id")?, if binary { Some(1) } else { None }, &[])));
                    if binary {
                        frames.push(Ws::Binary(vec![4, 1]));
                    }
                }
            }
            for f in frames {
                rig.push(f);
            }
            // watched from outside: a callback that never comes back
            let (exec, tx) = (rig.exec.clone(), std::sync::mpsc::channel());
            let s = tx.0.clone();
            std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec.run()));
                let _ = s.send(r.is_ok());
            });
            match tx.1.recv_timeout(std::time::Duration::from_secs(8)) {
                Err(_) => return Err("the callback never came to an end: the client was blocked while it ran".into()),
                Ok(false) if !panics => return Err("a callback panicked: the client was blocked while it ran".into()),
                Ok(_) => {}
            }
            if !panics && ran.load(Ordering::SeqCst) == 0 {
                return Err("no callback ran".into());
            }
            usable_client(&rig.client)
        });
    }
    for f in ["43999[1]", "43/x,1", "42[1]", "42[]", "42", "9", "4", "42[\"nobody\"]", "42/zz,1[\"e\"]", "40", "41/a,", "461-5", "1", "2"] {
        ctx.case(true, || format!("after {:?}", f), || {
            let mut rig = Rig::open();
            rig.client().set_event_callback("e", |_: &Args, _: Option<AckBuilder>| {});
            rig.text(f);
            rig.bin(&[1]);
            usable_client(&rig.client)
        });
    }
}

#[allow(dead_code)]
fn unused(p: &mut PeerEnd) {
    let _ = p.read(&mut []);
}
