//! A client of the real crate on an in-memory connection to a peer driven by the oracle.
use async_tungstenite::tungstenite as ts;
use futures::future::FutureObj;
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::{ArcWake, Spawn, SpawnError};
use socket_io_client::{Client, Error};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll, Waker};
use ts::Message as Ws;

// ------------------------------------------------------------------ a pipe
struct Half {
    buf: VecDeque<u8>,
    closed: bool,
    cap: usize,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Half {
    fn new() -> Arc<Mutex<Half>> {
        Arc::new(Mutex::new(Half { buf: VecDeque::new(), closed: false, cap: usize::MAX, reader: None, writer: None }))
    }
}
fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
fn close(h: &Mutex<Half>) {
    let mut g = lock(h);
    g.closed = true;
    let w = (g.reader.take(), g.writer.take());
    drop(g);
    for w in [w.0, w.1] {
        if let Some(w) = w {
            w.wake();
        }
    }
}
pub struct ClientEnd {
    inn: Arc<Mutex<Half>>,
    out: Arc<Mutex<Half>>,
}
pub struct PeerEnd {
    inn: Arc<Mutex<Half>>,
    out: Arc<Mutex<Half>>,
}
pub fn pipe() -> (ClientEnd, PeerEnd) {
    let (a, b) = (Half::new(), Half::new());
    (ClientEnd { inn: a.clone(), out: b.clone() }, PeerEnd { inn: b, out: a })
}
impl AsyncRead for ClientEnd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = lock(&self.inn);
        if g.buf.is_empty() {
            if g.closed {
                return Poll::Ready(Ok(0));
            }
            g.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(g.buf.len());
        for b in buf[..n].iter_mut() {
            *b = g.buf.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for ClientEnd {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = lock(&self.out);
        if g.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = buf.len().min(g.cap.saturating_sub(g.buf.len()));
        if n == 0 && !buf.is_empty() {
            g.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        g.buf.extend(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        close(&self.out);
        Poll::Ready(Ok(()))
    }
}
impl Drop for ClientEnd {
    fn drop(&mut self) {
        close(&self.inn);
        close(&self.out);
    }
}
impl Read for PeerEnd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut g = lock(&self.inn);
        if g.buf.is_empty() {
            return if g.closed { Ok(0) } else { Err(io::ErrorKind::WouldBlock.into()) };
        }
        let n = buf.len().min(g.buf.len());
        for b in buf[..n].iter_mut() {
            *b = g.buf.pop_front().unwrap();
        }
        let w = g.writer.take();
        drop(g);
        if let Some(w) = w {
            w.wake();
        }
        Ok(n)
    }
}
impl Write for PeerEnd {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut g = lock(&self.out);
        g.buf.extend(buf);
        let w = g.reader.take();
        drop(g);
        if let Some(w) = w {
            w.wake();
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl PeerEnd {
    /// the peer goes away
    pub fn hang_up(&self) {
        close(&self.out);
        close(&self.inn);
    }
    /// the peer takes no more
    pub fn deafen(&self) {
        close(&self.inn);
    }
    /// the peer stops sending
    pub fn end(&self) {
        close(&self.out);
    }
    pub fn client_gone(&self) -> bool {
        lock(&self.inn).closed
    }
    pub fn pending(&self) -> Vec<u8> {
        lock(&self.inn).buf.iter().cloned().collect()
    }
    pub fn limit(&self, cap: usize) {
        lock(&self.inn).cap = cap;
    }
}

// ------------------------------------------------------------------ an executor that runs when told to
struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}
struct Task {
    fut: Mutex<Option<FutureObj<'static, ()>>>,
    flag: Arc<Flag>,
}
#[derive(Clone, Default)]
pub struct Exec {
    tasks: Arc<Mutex<Vec<Arc<Task>>>>,
    /// spawning fails
    pub refuse: Arc<AtomicBool>,
}
impl Spawn for Exec {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.refuse.load(Ordering::SeqCst) {
            return Err(SpawnError::shutdown());
        }
        lock(&self.tasks).push(Arc::new(Task { fut: Mutex::new(Some(f)), flag: Arc::new(Flag(AtomicBool::new(true))) }));
        Ok(())
    }
}
impl Exec {
    /// polls until nothing is woken
    pub fn run(&self) {
        loop {
            let all: Vec<Arc<Task>> = lock(&self.tasks).clone();
            let mut any = false;
            for t in all {
                if t.flag.0.swap(false, Ordering::SeqCst) {
                    any = true;
                    let w = futures::task::waker(t.flag.clone());
                    let mut g = lock(&t.fut);
                    if let Some(f) = g.as_mut() {
                        if Pin::new(f).poll(&mut Context::from_waker(&w)).is_ready() {
                            *g = None;
                        }
                    }
                }
            }
            lock(&self.tasks).retain(|t| t.fut.try_lock().map(|f| f.is_some()).unwrap_or(true));
            if !any {
                return;
            }
        }
    }
    pub fn idle(&self) -> bool {
        lock(&self.tasks).is_empty()
    }
}
/// a future polled by hand
pub struct Hand<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
    pub done: Option<T>,
}
impl<T> Hand<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        Hand { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), done: None }
    }
    /// polls this and the tasks of `e` until nothing is woken
    pub fn run(&mut self, e: &Exec) -> bool {
        loop {
            e.run();
            if !self.flag.0.swap(false, Ordering::SeqCst) {
                return self.done.is_some();
            }
            if let Some(f) = self.fut.as_mut() {
                let w = futures::task::waker(self.flag.clone());
                if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                    self.done = Some(x);
                    self.fut = None;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the peer
#[derive(Clone, Debug, PartialEq)]
pub struct Request {
    pub target: String,
    pub host: String,
}
type Shaking = ts::handshake::MidHandshake<ts::handshake::server::ServerHandshake<PeerEnd, Grab>>;
pub struct Grab(Arc<Mutex<Option<Request>>>);
impl ts::handshake::server::Callback for Grab {
    fn on_request(
        self,
        r: &ts::handshake::server::Request,
        resp: ts::handshake::server::Response,
    ) -> Result<ts::handshake::server::Response, ts::handshake::server::ErrorResponse> {
        let host = r.headers().get("Host").map(|h| h.to_str().unwrap_or("?").to_string()).unwrap_or_default();
        *lock(&self.0) = Some(Request { target: r.uri().to_string(), host });
        Ok(resp)
    }
}
pub enum Peer {
    Shaking(Option<Shaking>),
    Up(ts::protocol::WebSocket<PeerEnd>),
    Failed(String),
}
impl Peer {
    pub fn new(p: PeerEnd, seen: Arc<Mutex<Option<Request>>>) -> Peer {
        Peer::step(ts::accept_hdr(p, Grab(seen)))
    }
    fn step(r: Result<ts::protocol::WebSocket<PeerEnd>, ts::handshake::HandshakeError<ts::handshake::server::ServerHandshake<PeerEnd, Grab>>>) -> Peer {
        match r {
            Ok(w) => Peer::Up(w),
            Err(ts::handshake::HandshakeError::Interrupted(m)) => Peer::Shaking(Some(m)),
            Err(e) => Peer::Failed(e.to_string()),
        }
    }
    pub fn shake(&mut self) {
        if let Peer::Shaking(m) = self {
            let m = m.take().unwrap();
            *self = Peer::step(m.handshake());
        }
    }
}

pub const OPEN: &str = "0{\"sid\":\"s1\",\"upgrades\":[],\"pingTimeout\":60000,\"pingInterval\":25000}";

pub struct Rig {
    pub exec: Exec,
    pub client: Arc<Mutex<Client>>,
    pub peer: Arc<Mutex<ts::protocol::WebSocket<PeerEnd>>>,
    pub request: Request,
    pub closed_by_client: bool,
}

static LOG: Once = Once::new();
struct Fmt;
impl log::Log for Fmt {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("socket_io") {
            // what a logger would do with it
            let _ = format!("{}", r.args());
        }
    }
    fn flush(&self) {}
}
pub fn logging() {
    LOG.call_once(|| {
        let _ = log::set_logger(&Fmt);
        log::set_max_level(log::LevelFilter::Trace);
    });
}

pub fn connect(url: &str) -> Result<Rig, String> {
    logging();
    let exec = Exec::default();
    let (c, p) = pipe();
    let seen = Arc::new(Mutex::new(None));
    let (u, e) = (url.to_string(), exec.clone());
    let mut h = Hand::new(async move { Client::from_stream(u, c, &e).await });
    h.run(&exec);
    let mut peer = Peer::new(p, seen.clone());
    for _ in 0..20 {
        h.run(&exec);
        peer.shake();
        if let Peer::Up(_) = peer {
            break;
        }
    }
    let mut w = match peer {
        Peer::Up(w) => w,
        Peer::Failed(e) => return Err(format!("handshake: {}", e)),
        Peer::Shaking(_) => return Err(format!("no handshake; {:?}", h.done.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
    };
    h.run(&exec);
    w.write_message(Ws::Text(OPEN.into())).map_err(|e| e.to_string())?;
    if !h.run(&exec) {
        return Err("connect did not finish after the open packet".into());
    }
    let client = h.done.unwrap().map_err(|e| format!("connect failed: {}", e))?;
    let request = lock(&seen).clone().ok_or("no request")?;
    Ok(Rig { exec, client: Arc::new(Mutex::new(client)), peer: Arc::new(Mutex::new(w)), request, closed_by_client: false })
}

impl Rig {
    pub fn open() -> Rig {
        connect("ws://example.com/").unwrap_or_else(|e| panic!("{}", e))
    }
    pub fn push(&mut self, m: Ws) {
        let _ = lock(&self.peer).write_message(m);
    }
    /// delivers a frame and lets the client work on it
    pub fn give(&mut self, m: Ws) {
        self.push(m);
        self.exec.run();
    }
    pub fn text(&mut self, t: &str) {
        self.give(Ws::Text(t.to_string()))
    }
    pub fn bin(&mut self, d: &[u8]) {
        let mut v = vec![4u8];
        v.extend(d);
        self.give(Ws::Binary(v))
    }
    /// the frames the client has sent since the last call
    pub fn sent(&mut self) -> Vec<Ws> {
        self.exec.run();
        let mut out = vec![];
        loop {
            let r = lock(&self.peer).read_message();
            match r {
                Ok(Ws::Close(_)) => self.closed_by_client = true,
                Ok(m) => out.push(m),
                Err(ts::Error::Io(e)) if e.kind() == io::ErrorKind::WouldBlock => {
                    // room was made: the client may go on
                    self.exec.run();
                    if lock(&self.peer).get_ref().pending().is_empty() {
                        return out;
                    }
                }
                Err(_) => return out,
            }
        }
    }
    /// the connection task has ended
    pub fn ended(&self) -> bool {
        self.exec.run();
        lock(&self.peer).get_ref().client_gone()
    }
    pub fn client(&self) -> std::sync::MutexGuard<'_, Client> {
        lock(&self.client)
    }
    /// result of close, given that the peer answers
    pub fn close(self) -> Result<(), String> {
        let c = self.client.clone();
        let mut h = Hand::new(async move { lock(&c).close().await });
        for _ in 0..50 {
            if h.run(&self.exec) {
                return h.done.unwrap().map_err(|e: Error| e.to_string());
            }
            let r = lock(&self.peer).read_message();
            match r {
                Err(ts::Error::Io(e)) if e.kind() == io::ErrorKind::WouldBlock => {}
                Err(_) => {
                    let g = lock(&self.peer);
                    g.get_ref().hang_up();
                }
                Ok(_) => {}
            }
        }
        Err("close did not return".into())
    }
}
