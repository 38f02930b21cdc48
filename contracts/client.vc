module socket_io_client
-- ext sync futures net url time
-- keeptype Error [C16,C17,C18,C20,C21]
-- keeptype UrlError [C16,C17,C18,C20,C21]
-- needs socket_io_client::protocol socket_io_client::callbacks socket_io_client::connection socket_io_client::emit socket_io_protocol::socket
-- raw
use crate::ext::sync::*;
use crate::ext::net::*;
use crate::ext::url::*;
use crate::ext::time::*;
use callbacks::*;

-- fn Client::namespace_emit
ensures:
- *r.client == *old(self) && *final(r.client) == *final(self)
- r.event == event && r.namespace == namespace && !r.binary && r.callback is None

-- fn Client::emit
ensures:
- *r.client == *old(self) && *final(r.client) == *final(self)
- r.event == event && r.namespace@ == "/"@ && !r.binary && r.callback is None

-- fn Client::set_namespace_event_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- event_conv(callback) ==> steps(section_before(*final(vp_w)), Op::SetEvent(namespace@, event@, as_event(callback)), section_after(*final(vp_w)))

-- fn Client::set_event_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- event_conv(callback) ==> steps(section_before(*final(vp_w)), Op::SetEvent("/"@, event@, as_event(callback)), section_after(*final(vp_w)))

-- fn Client::clear_namespace_event_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- steps(section_before(*final(vp_w)), Op::ClearEvent(namespace@, event@), section_after(*final(vp_w)))

-- fn Client::clear_event_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- steps(section_before(*final(vp_w)), Op::ClearEvent("/"@, event@), section_after(*final(vp_w)))

-- fn Client::set_namespace_fallback_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- event_conv(callback) ==> steps(section_before(*final(vp_w)), Op::SetFallback(namespace@, as_event(callback)), section_after(*final(vp_w)))

-- fn Client::set_fallback_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- event_conv(callback) ==> steps(section_before(*final(vp_w)), Op::SetFallback("/"@, as_event(callback)), section_after(*final(vp_w)))

-- fn Client::clear_namespace_fallback_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- steps(section_before(*final(vp_w)), Op::ClearFallback(namespace@), section_after(*final(vp_w)))

-- fn Client::clear_fallback_callback
requires:
- old(vp_w).free()
ensures:
- *final(self) == *old(self)
- one_section(*old(vp_w), *final(vp_w)) && same_acks(section_before(*final(vp_w)), section_after(*final(vp_w)))
- steps(section_before(*final(vp_w)), Op::ClearFallback("/"@), section_after(*final(vp_w)))

-- raw [C20,C21]
use crate::socket_io_client::connection::{conn_of, opened, bounded};
// ------------------------------------------------------------------ which URLs connect, and to what
pub open spec fn ws_scheme(s: Seq<char>) -> Seq<char> { if s == "http"@ || s == "ws"@ { "ws"@ } else { "wss"@ } }
/// the URL a text connects to, if any
pub open spec fn target(text: Seq<char>) -> Option<UrlView> {
    match url_of(text) {
        Some(v) => if web(v.scheme) && v.host is Some { Some(UrlView { scheme: ws_scheme(v.scheme), ..v }) } else { None },
        None => None,
    }
}
/// `EIO=4&transport=websocket` after the query there is
pub open spec fn with_params(v: UrlView) -> UrlView {
    UrlView { query: Some(match v.query { Some(q) => if q.len() == 0 { q } else { q.push('&') }, None => seq![] } + "EIO=4&transport=websocket"@), ..v }
}
pub proof fn lemma_schemes()
    ensures "http"@ != "https"@, "http"@ != "wss"@, "ws"@ != "https"@, "ws"@ != "wss"@, "ftp"@ != "http"@, "ftp"@ != "ws"@, "ftp"@ != "https"@, "ftp"@ != "wss"@
{
    reveal_strlit("http"); reveal_strlit("https"); reveal_strlit("ws"); reveal_strlit("wss"); reveal_strlit("ftp");
    assert("http"@.len() == 4 && "https"@.len() == 5 && "ws"@.len() == 2 && "wss"@.len() == 3 && "ftp"@.len() == 3);
    assert("ftp"@[0] == 'f' && "wss"@[0] == 'w');
}
pub proof fn lemma_params(v: UrlView)
    ensures with_pair(with_pair(v, "EIO"@, "4"@), "transport"@, "websocket"@) == with_params(v)
{
    reveal_strlit("EIO"); reveal_strlit("4"); reveal_strlit("transport"); reveal_strlit("websocket"); reveal_strlit("EIO=4&transport=websocket");
    assert(plain("EIO"@) && plain("4"@) && plain("transport"@) && plain("websocket"@));
    axiom_form_plain("EIO"@); axiom_form_plain("4"@); axiom_form_plain("transport"@); axiom_form_plain("websocket"@);
    assert(with_pair(with_pair(v, "EIO"@, "4"@), "transport"@, "websocket"@).query->0 =~= with_params(v).query->0);
}
/// the port a text connects to
pub open spec fn target_port(v: UrlView) -> Option<u16> { if v.port is Some { v.port } else { default_port(v.scheme) } }

-- fn parse_url
only C20,C21
ensures:
- [C20,C21] r is Ok <==> target(url@) is Some
- [C20,C21] r matches Ok(u) ==> Some(u@) == target(url@)
proof start:
proof { lemma_schemes(); }
broadcast use axiom_str_ext;

-- fn add_socketio_query_params
only C20,C21
ensures:
- [C20,C21] final(url)@ == with_params(old(url)@)
proof start:
proof { lemma_params(url@); }

-- fn Client::new
only C20,C21
requires:
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C20] final(vp_w).log.len() > old(vp_w).log.len() && final(vp_w).log[old(vp_w).log.len() as int] == (Ev::Asked { url: url_text(with_params(url@)) })
- [C20,C21] final(vp_w).log.take(old(vp_w).log.len() as int) =~= old(vp_w).log
- [C21] r matches Ok(c) ==> c.next_id == 0 && c.send.queue() == c.connection.send.queue()
    && exists|task: int| conn_of(c.connection, task) && c.connection.timeout == secs(10) && final(vp_w).log == #[trigger] opened(old(vp_w).log, url_text(with_params(url@)), secs(10), task)
- [C21] bounded(final(vp_w).log, old(vp_w).log.len() as int, secs(10))

-- fn Client::from_stream
only C20,C21
param url: impl AsText
requires:
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C20] target(url.text()) is None ==> final(vp_w).log == old(vp_w).log && (r matches Err(e) && e is UrlError)
- [C20] target(url.text()) matches Some(v) ==> final(vp_w).log.len() > old(vp_w).log.len() && final(vp_w).log[old(vp_w).log.len() as int] == (Ev::Asked { url: url_text(with_params(v)) })
- [C20,C21] final(vp_w).log.take(old(vp_w).log.len() as int) =~= old(vp_w).log
- [C21] r matches Ok(c) ==> target(url.text()) matches Some(v) && c.next_id == 0 && c.send.queue() == c.connection.send.queue()
    && exists|task: int| conn_of(c.connection, task) && c.connection.timeout == secs(10) && final(vp_w).log == #[trigger] opened(old(vp_w).log, url_text(with_params(v)), secs(10), task)
- [C21] bounded(final(vp_w).log, old(vp_w).log.len() as int, secs(10))

-- fn Client::connect
only C20,C21
param url: impl AsText
requires:
- old(vp_w).free()
- forall|h: Host, p: Port| target(url.text()) matches Some(v) && v.host == Some(h@) && target_port(v) == Some(p) ==> connect.requires((h, p))
ensures:
- final(vp_w).free()
- [C20] target(url.text()) is None ==> final(vp_w).log == old(vp_w).log && (r matches Err(e) && e is UrlError)
- [C20] r is Ok || final(vp_w).log.len() > old(vp_w).log.len() ==> (target(url.text()) matches Some(v) && final(vp_w).log.len() > old(vp_w).log.len() && final(vp_w).log[old(vp_w).log.len() as int] == (Ev::Asked { url: url_text(with_params(v)) }))
- [C20,C21] final(vp_w).log.take(old(vp_w).log.len() as int) =~= old(vp_w).log
- [C21] r matches Ok(c) ==> target(url.text()) matches Some(v) && c.next_id == 0 && c.send.queue() == c.connection.send.queue()
    && exists|task: int| conn_of(c.connection, task) && c.connection.timeout == secs(10) && final(vp_w).log == #[trigger] opened(old(vp_w).log, url_text(with_params(v)), secs(10), task)
- [C21] bounded(final(vp_w).log, old(vp_w).log.len() as int, secs(10))

-- fn Client::close
only C20,C21
requires:
- old(vp_w).free()
ensures:
- final(vp_w).free()
- [C21] final(self).connection.handle is None && final(self).connection.close is None
- [C21] old(self).connection.handle is None || old(self).connection.close is None ==> r == Err::<(), Error>(Error::AlreadyClosed) && final(vp_w).log == old(vp_w).log
- [C21] (old(self).connection.handle matches Some(h) && old(self).connection.close matches Some(s) && {
      let l = old(vp_w).log.push(Ev::Fired { chan: s.chan() }).push(Ev::Waited { at_most: Some(old(self).connection.timeout) });
      ||| final(vp_w).log == l.push(Ev::Joined { task: h.task() }) && r == crate::ext::futures::future::outcome::<Result<(), Error>>(h.task())
      ||| final(vp_w).log == l.push(Ev::Elapsed) && (r matches Err(e) && e is Timeout)
  }) || old(self).connection.handle is None || old(self).connection.close is None

module socket_io_client::protocol
-- needs socket_io_protocol::socket
