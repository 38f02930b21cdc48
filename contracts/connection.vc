module socket_io_client::connection
-- ext sync futures
-- needs socket_io_client
-- light none
-- heavyext net futures_timer async_tungstenite url time
-- heavyneeds socket_io_client::receiver socket_io_protocol::engine
-- raw [light]
#[verifier::external_body]
pub struct Connection {}

-- raw [heavy]
use crate::ext::sync::*;
use crate::ext::net::*;
use crate::ext::time::*;
use crate::ext::url::*;
use crate::ext::futures::task::Task;
use crate::ext::async_tungstenite::*;
use crate::socket_io_client::receiver::{recv_ok, handled};

// ------------------------------------------------------------------ the task of a connection, by what it was made of
pub uninterp spec fn task_receiver(task: int) -> Receiver;
pub uninterp spec fn task_queue(task: int) -> int;
pub uninterp spec fn task_close(task: int) -> int;
/// the one-shot channel its receiver completes with the engine open (contract of `process_websocket_packet`)
pub open spec fn task_open(task: int) -> int { task_receiver(task).open->0.chan() }
pub open spec fn task_ok(task: int) -> bool {
    let r = task_receiver(task);
    recv_ok(r) && r.open is Some && r.in_progress is None && r.decoder.state == crate::socket_io_protocol::engine::State::Initial && r.sender.queue() == task_queue(task)
}

-- raw [heavy]
// ------------------------------------------------------------------ what the task does with the websocket
/// the frames written since `n`
pub open spec fn out(log: Seq<Ev>, n: int) -> Seq<WsMessage>
    decreases log.len()
{
    if log.len() <= n || log.len() == 0 { seq![] } else {
        let p = out(log.drop_last(), n);
        match log.last() { Ev::Wrote { msg, ok } => if ok { p.push(msg) } else { p }, _ => p }
    }
}
/// the frames of the units taken from the queue since `n`, in order
pub open spec fn taken(log: Seq<Ev>, n: int, q: int) -> Seq<WsMessage>
    decreases log.len()
{
    if log.len() <= n || log.len() == 0 { seq![] } else {
        let p = taken(log.drop_last(), n, q);
        match log.last() { Ev::Took { queue, unit } => if queue == q { p + unit } else { p }, _ => p }
    }
}
/// 0: open; 1: asked to close; 2: the close frame has been sent, directly after that; 9: anything else
pub open spec fn phase(log: Seq<Ev>, n: int, close: int) -> int
    decreases log.len()
{
    if log.len() <= n || log.len() == 0 { 0 } else {
        let p = phase(log.drop_last(), n, close);
        match log.last() {
            Ev::Got { chan } => if chan == close && p == 0 { 1 } else { 9 },
            Ev::Lost { chan } => if chan == close && p == 0 { 1 } else { 9 },
            Ev::WroteClose => if p == 1 { 2 } else { 9 },
            Ev::Took { queue, unit } => if p == 0 { 0 } else { 9 },
            Ev::Wrote { msg, ok } => if p == 0 { 0 } else { 9 },
            _ => if p == 1 { 9 } else { p },
        }
    }
}
/// reading failed since `n`
pub open spec fn broken(log: Seq<Ev>, n: int) -> bool
    decreases log.len()
{
    log.len() > n && log.len() > 0 && (log.last() is Broken || broken(log.drop_last(), n))
}
/// the frame read at `i` was handled by the receiver, which may have refused it only if `any`
pub open spec fn dealt(log: Seq<Ev>, i: int, any: bool) -> bool {
    exists|r0: Receiver, r1: Receiver, k: int, ok: bool| (any || ok) && i < k <= log.len() && #[trigger] passed(r0, log[i]->Read_msg, r1, log.take(i + 1), log.take(k), ok)
}
pub open spec fn passed(r0: Receiver, msg: WsMessage, r1: Receiver, l0: Seq<Ev>, l1: Seq<Ev>, ok: bool) -> bool {
    recv_ok(r0) && if msg is Text || msg is Binary { exists|w0: World, w1: World| w0.log == l0 && w1.log == l1 && w0.free() && w1.free() && #[trigger] handled(r0, msg, r1, w0, w1, ok) } else { ok && l1 == l0 && r1 == r0 }
}
pub open spec fn all_dealt(log: Seq<Ev>, n: int, any: bool) -> bool { forall|i: int| n <= i < log.len() && (#[trigger] log[i]) is Read ==> dealt(log, i, any) }
pub proof fn lemma_dealt(l0: Seq<Ev>, l1: Seq<Ev>, i: int, any: bool)
    requires 0 <= i < l0.len(), l0.len() <= l1.len(), l1.take(l0.len() as int) =~= l0, dealt(l0, i, any)
    ensures dealt(l1, i, any), dealt(l1, i, true)
{
    let (r0, r1, k, ok) = choose|r0: Receiver, r1: Receiver, k: int, ok: bool| (any || ok) && i < k <= l0.len() && #[trigger] passed(r0, l0[i]->Read_msg, r1, l0.take(i + 1), l0.take(k), ok);
    assert(l1.take(l0.len() as int)[i] == l1[i]);
    assert(l0[i] == l1[i]);
    assert(l1.take(i + 1) =~= l0.take(i + 1));
    assert(l1.take(k) =~= l0.take(k));
    assert(passed(r0, l1[i]->Read_msg, r1, l1.take(i + 1), l1.take(k), ok));
}
pub proof fn lemma_any(l: Seq<Ev>, i: int)
    requires dealt(l, i, false)
    ensures forall|any: bool| dealt(l, i, any)
{
    let (r0, r1, k, ok) = choose|r0: Receiver, r1: Receiver, k: int, ok: bool| ok && i < k <= l.len() && #[trigger] passed(r0, l[i]->Read_msg, r1, l.take(i + 1), l.take(k), ok);
    assert forall|any: bool| dealt(l, i, any) by { assert((any || ok) && passed(r0, l[i]->Read_msg, r1, l.take(i + 1), l.take(k), ok)); }
}
pub proof fn lemma_calmly(l0: Seq<Ev>, l1: Seq<Ev>, n: int, q: int, c: int)
    requires 0 <= n <= l0.len(), calmly(l0, l1)
    ensures
        out(l1, n) == out(l0, n), taken(l1, n, q) == taken(l0, n, q), phase(l0, n, c) != 1 ==> phase(l1, n, c) == phase(l0, n, c),
        broken(l1, n) == broken(l0, n),
        all_dealt(l0, n, false) ==> all_dealt(l1, n, false) && all_dealt(l1, n, true),
    decreases l1.len()
{
    if l1.len() == l0.len() {
        assert(l1 =~= l0);
    } else {
        let m = l1.drop_last();
        assert(m.take(l0.len() as int) =~= l0);
        assert(calm(l1[l1.len() - 1]));
        assert forall|i: int| l0.len() <= i < m.len() implies calm(#[trigger] m[i]) by { assert(m[i] == l1[i]); }
        lemma_calmly(l0, m, n, q, c);
        if all_dealt(l0, n, false) {
            assert forall|i: int| n <= i < l1.len() && (#[trigger] l1[i]) is Read implies dealt(l1, i, false) && dealt(l1, i, true) by {
                assert(i < m.len());
                assert(m[i] == l1[i]);
                assert(l1.take(m.len() as int) =~= m);
                lemma_dealt(m, l1, i, false);
            }
        }
    }
}
pub proof fn lemma_push(l: Seq<Ev>, e: Ev, n: int, q: int, c: int)
    requires 0 <= n <= l.len()
    ensures
        out(l.push(e), n) == (match e { Ev::Wrote { msg, ok } => if ok { out(l, n).push(msg) } else { out(l, n) }, _ => out(l, n) }),
        taken(l.push(e), n, q) == (match e { Ev::Took { queue, unit } => if queue == q { taken(l, n, q) + unit } else { taken(l, n, q) }, _ => taken(l, n, q) }),
        phase(l.push(e), n, c) == (match e {
            Ev::Got { chan } => if chan == c && phase(l, n, c) == 0 { 1int } else { 9 },
            Ev::Lost { chan } => if chan == c && phase(l, n, c) == 0 { 1int } else { 9 },
            Ev::WroteClose => if phase(l, n, c) == 1 { 2 } else { 9 },
            Ev::Took { queue, unit } => if phase(l, n, c) == 0 { 0 } else { 9 },
            Ev::Wrote { msg, ok } => if phase(l, n, c) == 0 { 0 } else { 9 },
            _ => if phase(l, n, c) == 1 { 9 } else { phase(l, n, c) },
        }),
        broken(l.push(e), n) == (broken(l, n) || e is Broken),
        all_dealt(l, n, false) && !(e is Read) ==> all_dealt(l.push(e), n, false) && all_dealt(l.push(e), n, true),
{
    assert(l.push(e).drop_last() =~= l);
    if all_dealt(l, n, false) && !(e is Read) {
        assert forall|i: int| n <= i < l.push(e).len() && (#[trigger] l.push(e)[i]) is Read implies dealt(l.push(e), i, false) && dealt(l.push(e), i, true) by {
            assert(l.push(e)[i] == l[i]);
            assert(l.push(e).take(l.len() as int) =~= l);
            lemma_dealt(l, l.push(e), i, false);
        }
    }
}

-- raw [heavy]
// ------------------------------------------------------------------ the same, found by the verifier itself from the contracts of the calls
pub broadcast proof fn b_drop(l: Seq<Ev>, e: Ev)
    ensures #[trigger] l.push(e).drop_last() == l
{ assert(l.push(e).drop_last() =~= l); }
pub broadcast proof fn b_out(l: Seq<Ev>, e: Ev, n: int)
    requires 0 <= n <= l.len()
    ensures #[trigger] out(l.push(e), n) == (match e { Ev::Wrote { msg, ok } => if ok { out(l, n).push(msg) } else { out(l, n) }, _ => out(l, n) })
{ lemma_push(l, e, n, 0, 0); }
pub broadcast proof fn b_taken(l: Seq<Ev>, e: Ev, n: int, q: int)
    requires 0 <= n <= l.len()
    ensures #[trigger] taken(l.push(e), n, q) == (match e { Ev::Took { queue, unit } => if queue == q { taken(l, n, q) + unit } else { taken(l, n, q) }, _ => taken(l, n, q) })
{ lemma_push(l, e, n, q, 0); }
pub broadcast proof fn b_phase(l: Seq<Ev>, e: Ev, n: int, c: int)
    requires 0 <= n <= l.len()
    ensures
        #[trigger] phase(l.push(e), n, c) == (match e {
            Ev::Got { chan } => if chan == c && phase(l, n, c) == 0 { 1int } else { 9 },
            Ev::Lost { chan } => if chan == c && phase(l, n, c) == 0 { 1int } else { 9 },
            Ev::WroteClose => if phase(l, n, c) == 1 { 2 } else { 9 },
            Ev::Took { queue, unit } => if phase(l, n, c) == 0 { 0 } else { 9 },
            Ev::Wrote { msg, ok } => if phase(l, n, c) == 0 { 0 } else { 9 },
            _ => if phase(l, n, c) == 1 { 9 } else { phase(l, n, c) },
        })
{ lemma_push(l, e, n, 0, c); }
pub broadcast proof fn b_broken(l: Seq<Ev>, e: Ev, n: int)
    requires 0 <= n <= l.len()
    ensures #[trigger] broken(l.push(e), n) == (broken(l, n) || e is Broken)
{ lemma_push(l, e, n, 0, 0); }
pub broadcast proof fn b_dealt(l: Seq<Ev>, e: Ev, n: int, any: bool)
    requires 0 <= n <= l.len(), all_dealt(l, n, false), !(e is Read)
    ensures #[trigger] all_dealt(l.push(e), n, any)
{ lemma_push(l, e, n, 0, 0); }
pub broadcast proof fn b_calm_out(l0: Seq<Ev>, l1: Seq<Ev>, n: int)
    requires 0 <= n <= l0.len(), #[trigger] calmly(l0, l1)
    ensures #[trigger] out(l1, n) == out(l0, n)
{ lemma_calmly(l0, l1, n, 0, 0); }
pub broadcast proof fn b_calm_taken(l0: Seq<Ev>, l1: Seq<Ev>, n: int, q: int)
    requires 0 <= n <= l0.len(), #[trigger] calmly(l0, l1)
    ensures #[trigger] taken(l1, n, q) == taken(l0, n, q)
{ lemma_calmly(l0, l1, n, q, 0); }
pub broadcast proof fn b_calm_phase(l0: Seq<Ev>, l1: Seq<Ev>, n: int, c: int)
    requires 0 <= n <= l0.len(), #[trigger] calmly(l0, l1), phase(l0, n, c) != 1
    ensures #[trigger] phase(l1, n, c) == phase(l0, n, c)
{ lemma_calmly(l0, l1, n, 0, c); }
pub broadcast proof fn b_calm_broken(l0: Seq<Ev>, l1: Seq<Ev>, n: int)
    requires 0 <= n <= l0.len(), #[trigger] calmly(l0, l1)
    ensures #[trigger] broken(l1, n) == broken(l0, n)
{ lemma_calmly(l0, l1, n, 0, 0); }
/// a frame that is neither text nor binary needs no handling
pub broadcast proof fn b_control(r0: Receiver, l: Seq<Ev>, e: Ev, n: int, any: bool)
    requires 0 <= n <= l.len(), all_dealt(l, n, false), #[trigger] recv_ok(r0), e matches Ev::Read { msg } && !(msg is Text) && !(msg is Binary)
    ensures #[trigger] all_dealt(l.push(e), n, any)
{
    let l1 = l.push(e);
    let i = l.len() as int;
    assert(l1.take(i + 1) =~= l1);
    assert(l1.take(i) =~= l);
    assert(passed(r0, l1[i]->Read_msg, r0, l1.take(i + 1), l1.take(i + 1), true));
    assert(dealt(l1, i, false));
    lemma_any(l1, i);
    assert forall|j: int| n <= j < l1.len() && (#[trigger] l1[j]) is Read implies dealt(l1, j, any) by {
        if j < i { assert(l1[j] == l[j]); lemma_dealt(l, l1, j, false); lemma_any(l1, j); }
    }
}
pub broadcast proof fn b_read(r0: Receiver, msg: WsMessage, r1: Receiver, w0: World, w1: World, ok: bool, n: int, any: bool)
    requires
        0 <= n < w0.log.len(), recv_ok(r0), w0.free(), w1.free(), calmly(w0.log, w1.log), any || ok,
        w0.log.last() == (Ev::Read { msg }), all_dealt(w0.log.drop_last(), n, false),
        msg is Text || msg is Binary ==> handled(r0, msg, r1, w0, w1, ok),
        !(msg is Text || msg is Binary) ==> ok && w1.log == w0.log && r1 == r0,
    ensures (#[trigger] handled(r0, msg, r1, w0, w1, ok)) || true, #[trigger] all_dealt(w1.log, n, any)
{
    let l0 = w0.log.drop_last();
    assert(w0.log =~= l0.push(Ev::Read { msg }));
    let i = l0.len() as int;
    let l = w1.log;
    assert(l.take(i + 1) =~= w0.log);
    assert(l.take(l.len() as int) =~= l);
    assert(l[i] == l.take(i + 1)[i]);
    assert(passed(r0, l[i]->Read_msg, r1, l.take(i + 1), l.take(l.len() as int), ok));
    assert(dealt(l, i, !ok) && dealt(l, i, true));
    assert forall|j: int| n <= j < l.len() && (#[trigger] l[j]) is Read implies dealt(l, j, any) by {
        if j < i {
            assert(l.take(i + 1)[j] == l[j]);
            assert(l0[j] == l[j]);
            assert(l.take(i) =~= l.take(i + 1).take(i));
            assert(l.take(i) =~= l0);
            lemma_dealt(l0, l, j, false);
            lemma_any(l, j);
        } else if j > i {
            assert(calm(l[j]));
        } else {
            if ok { lemma_any(l, i); }
        }
    }
}

-- raw [heavy]
// ------------------------------------------------------------------ opening and closing
/// the URL that is asked for
pub open spec fn with_sid(v: UrlView, sid: Option<&str>) -> UrlView {
    match sid { Some(s) => with_pair(v, "sid"@, s@), None => v }
}
/// a connection and its task
pub open spec fn conn_of(c: Connection, task: int) -> bool {
    &&& c.handle matches Some(h) && h.task() == task
    &&& c.close matches Some(s) && s.chan() == task_close(task)
    &&& c.send.queue() == task_queue(task)
    &&& task_ok(task)
}
pub open spec fn opened(l0: Seq<Ev>, url: Seq<char>, timeout: Duration, task: int) -> Seq<Ev> {
    l0.push(Ev::Asked { url }).push(Ev::Waited { at_most: Some(timeout) }).push(Ev::Shook { ok: true })
        .push(Ev::Spawned { task }).push(Ev::Waited { at_most: Some(timeout) }).push(Ev::Got { chan: task_open(task) })
}
/// every wait since `n` is over when the timer is, except for the end of a task that has dropped its half of a channel
pub open spec fn bounded(log: Seq<Ev>, n: int, timeout: Duration) -> bool {
    forall|i: int| n <= i < log.len() && (#[trigger] log[i]) is Waited ==>
        log[i] == (Ev::Waited { at_most: Some(timeout) }) || (i > n && log[i - 1] is Lost)
}

-- fn Connection::new
requires:
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C20] final(vp_w).log.len() > old(vp_w).log.len() && final(vp_w).log[old(vp_w).log.len() as int] == (Ev::Asked { url: url_text(with_sid(url@, sid)) })
- [C20,C21] final(vp_w).log.take(old(vp_w).log.len() as int) =~= old(vp_w).log
- [C21] r matches Ok(c) ==> exists|task: int| conn_of(c, task) && c.timeout == timeout && final(vp_w).log == #[trigger] opened(old(vp_w).log, url_text(with_sid(url@, sid)), timeout, task)
- [C21] bounded(final(vp_w).log, old(vp_w).log.len() as int, timeout)
proof start:
let ghost vp_url = url@;
proof tail [C21]:
proof {
    if r is Ok {
        let t = r->Ok_0.handle->0.task();
        assert(vp_w.log =~= opened(old(vp_w).log, url_text(with_sid(vp_url, sid)), timeout, t));
    }
}

-- fn Connection::sid
ensures:
- r@ == self.sid@

-- fn Connection::sender
ensures:
- r.queue() == self.send.queue()

-- fn Connection::close
requires:
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C21] final(self).handle is None && final(self).close is None
- [C21] old(self).handle is None || old(self).close is None ==> r == Err::<(), Error>(Error::AlreadyClosed) && final(vp_w).log == old(vp_w).log
- [C21] (old(self).handle matches Some(h) && old(self).close matches Some(s) && {
      let l = old(vp_w).log.push(Ev::Fired { chan: s.chan() }).push(Ev::Waited { at_most: Some(old(self).timeout) });
      ||| final(vp_w).log == l.push(Ev::Joined { task: h.task() }) && r == crate::ext::futures::future::outcome::<Result<(), Error>>(h.task())
      ||| final(vp_w).log == l.push(Ev::Elapsed) && (r matches Err(e) && e is Timeout)
  }) || old(self).handle is None || old(self).close is None

-- fn process_websocket
requires:
- old(vp_w).free()
- send_tx.queue() == send_rx.queue()
ensures:
- final(vp_w).free()
- r is Err ==> final(vp_w).log == old(vp_w).log
- r matches Ok(h) ==> task_ok(h.task()) && task_open(h.task()) == open.chan() && task_close(h.task()) == close.chan() && task_queue(h.task()) == send_tx.queue()
    && final(vp_w).log == old(vp_w).log.push(Ev::Spawned { task: h.task() })

-- fn process_websocket_async0
param close: oneshot::Receiver<()>
param receiver: Receiver
param send_rx: mpsc::UnboundedReceiver<Vec<WsMessage>>
param sink: WsSink<S>
param stream: WsStream<S>
retty Result<(), Error>
smoke: sel0
attr #[verifier::exec_allows_no_decreases_clause]
attr #[verifier::loop_isolation(false)]
rewrite send_rx . next ( ) ==> send_rx . vp_next_fed ( & receiver . sender )
rewrite drop ( next ) ; ==>
task:
- task_receiver(r.id()) == receiver
- task_queue(r.id()) == send_rx.queue()
- task_close(r.id()) == close.chan()
requires:
- old(vp_w).free()
- recv_ok(receiver)
- receiver.sender.queue() == send_rx.queue()
ensures:
- final(vp_w).free()
- final(vp_w).log.take(old(vp_w).log.len() as int) =~= old(vp_w).log
- ({ let o = out(final(vp_w).log, old(vp_w).log.len() as int); let t = taken(final(vp_w).log, old(vp_w).log.len() as int, send_rx.queue());
     o.is_prefix_of(t) && (r is Ok ==> o == t) })
- phase(final(vp_w).log, old(vp_w).log.len() as int, close.chan()) == 0 || phase(final(vp_w).log, old(vp_w).log.len() as int, close.chan()) == 2
- r is Ok ==> final(vp_w).log.last() is Ended && !broken(final(vp_w).log, old(vp_w).log.len() as int)
- all_dealt(final(vp_w).log, old(vp_w).log.len() as int, r is Err)
proof start:
broadcast use {b_drop, b_out, b_taken, b_phase, b_broken, b_dealt, b_calm_out, b_calm_taken, b_calm_phase, b_calm_broken, b_read, b_control};
let ghost vp_n = vp_w.log.len() as int;
let ghost vp_q = send_rx.queue();
let ghost vp_c = close.chan();
loop 0:
- vp_w.free() && 0 <= vp_n <= vp_w.log.len() && vp_w.log.take(vp_n) =~= old(vp_w).log
- vp_n == old(vp_w).log.len()
- out(vp_w.log, vp_n) == taken(vp_w.log, vp_n, vp_q)
- phase(vp_w.log, vp_n, vp_c) == 0
- all_dealt(vp_w.log, vp_n, false)
- !broken(vp_w.log, vp_n)
- recv_ok(receiver) && receiver.sender.queue() == vp_q && send_rx.queue() == vp_q && closed.chan() == vp_c
proof presel0:
let ghost vp_l0 = vp_w.log;
proof sel0:
let ghost vp_o = out(vp_l0, vp_n);
let ghost vp_unit: Seq<WsMessage> = match vp_w.log.last() { Ev::Took { queue, unit } => unit, _ => seq![] };
proof loop1:
let ghost vp_i = vp_it1.index@ as int;
proof {
    assert((vp_o + vp_unit.take(vp_i)).is_prefix_of(vp_o + vp_unit));
    assert(vp_unit.take(vp_i + 1) =~= vp_unit.take(vp_i).push(msg));
    assert(vp_o + vp_unit.take(vp_i + 1) =~= (vp_o + vp_unit.take(vp_i)).push(msg));
}
loop 1:
- vp_w.free() && 0 <= vp_n <= vp_w.log.len() && vp_w.log.take(vp_n) =~= old(vp_w).log
- vp_n == old(vp_w).log.len()
- vp_it1.seq() == vp_unit && out(vp_w.log, vp_n) == vp_o + vp_unit.take(vp_it1.index@ as int)
- taken(vp_w.log, vp_n, vp_q) == vp_o + vp_unit
- phase(vp_w.log, vp_n, vp_c) == 0
- all_dealt(vp_w.log, vp_n, false)
- !broken(vp_w.log, vp_n)
loop 2:
- vp_w.free() && 0 <= vp_n <= vp_w.log.len() && vp_w.log.take(vp_n) =~= old(vp_w).log
- vp_n == old(vp_w).log.len()
- out(vp_w.log, vp_n) == taken(vp_w.log, vp_n, vp_q)
- phase(vp_w.log, vp_n, vp_c) == 2
- all_dealt(vp_w.log, vp_n, false)
- !broken(vp_w.log, vp_n)
- recv_ok(receiver)
