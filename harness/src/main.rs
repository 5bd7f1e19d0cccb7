//! Drives the real client (public API only) over a real loopback TCP socket
//! against a scripted broker, on a paused clock and a single thread, polling
//! the event loop by hand. Writes every observable event to a trace that the
//! TLA+ specifications in ../spec judge. The harness itself judges nothing:
//! what it counts only decides how long it waits before it calls the client idle.
mod dbg;
mod mem;
mod rle;

use std::collections::VecDeque;
use std::future::Future;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, RawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use futures::StreamExt;
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use serde_json::{json, Value};

const HANG_S: u64 = 15;
const SPIN_POLLS: u32 = 4000;
const PATIENCE_MS: u64 = 2500;

static OUT: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);
static BUSY_SINCE: AtomicU64 = AtomicU64::new(0);
/// The client is inside an API call (rather than the event loop).
static IN_CALL: AtomicBool = AtomicBool::new(false);
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn emit(s: &str) {
    let mut g = OUT.lock().unwrap();
    let w = g.as_mut().unwrap();
    w.write_all(s.as_bytes()).unwrap();
    w.write_all(b"\n").unwrap();
}

fn flush() {
    OUT.lock().unwrap().as_mut().unwrap().flush().unwrap();
}

fn unix_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Splits the complete packets off the front of `buf`. Returns the packets and
/// whether an over-long length field makes the rest unreadable.
fn frames(buf: &mut Vec<u8>) -> (Vec<Vec<u8>>, bool) {
    let mut out = vec![];
    let mut pos = 0;
    let mut dead = false;
    'next: loop {
        let b = &buf[pos..];
        let (mut len, mut mul, mut i) = (0usize, 1usize, 1usize);
        loop {
            if i == 5 {
                if b.len() > 5 {
                    dead = true;
                }
                break 'next;
            }
            match b.get(i) {
                None => break 'next,
                Some(x) => {
                    len += (x & 127) as usize * mul;
                    mul *= 128;
                    i += 1;
                    if x & 128 == 0 {
                        break;
                    }
                }
            }
        }
        if b.len() < i + len {
            break;
        }
        out.push(b[..i + len].to_vec());
        pos += i + len;
    }
    buf.drain(..pos);
    if dead {
        out.push(std::mem::take(buf));
    }
    (out, dead)
}

fn body(f: &[u8]) -> &[u8] {
    let mut i = 1;
    while i < f.len() && f[i] & 128 != 0 {
        i += 1;
    }
    &f[(i + 1).min(f.len())..]
}

fn be16(b: &[u8], i: usize) -> u16 {
    if b.len() >= i + 2 {
        u16::from_be_bytes([b[i], b[i + 1]])
    } else {
        0
    }
}

/// Packet id of a client packet that needs an acknowledgement.
fn out_id(f: &[u8]) -> Option<(u8, u16)> {
    let b = body(f);
    match f[0] >> 4 {
        3 => {
            let q = (f[0] >> 1) & 3;
            if q == 0 {
                return None;
            }
            let tl = be16(b, 0) as usize;
            Some((if q == 1 { 4 } else { 5 }, be16(b, 2 + tl)))
        }
        8 => Some((9, be16(b, 0))),
        10 => Some((11, be16(b, 0))),
        _ => None,
    }
}

fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    let mut n = body.len();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        v.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            break;
        }
    }
    v.extend_from_slice(body);
    v
}

fn ranges(ids: &[u16]) -> Vec<(u16, u16)> {
    let mut out: Vec<(u16, u16)> = vec![];
    for &i in ids {
        match out.last_mut() {
            Some(l) if l.1 != u16::MAX && l.1 + 1 == i => l.1 = i,
            _ => out.push((i, i)),
        }
    }
    out
}

/// The peer's small writes are not to wait for our delayed acknowledgements.
fn quickack(fd: RawFd) {
    let one: libc::c_int = 1;
    unsafe {
        libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4);
    }
}

fn ioctl(fd: i32, req: libc::c_ulong) -> i64 {
    let mut n: libc::c_int = 0;
    let r = unsafe { libc::ioctl(fd, req as _, &mut n) };
    if r < 0 {
        0
    } else {
        n as i64
    }
}
const FIONREAD: libc::c_ulong = 0x541B;
const SIOCOUTQ: libc::c_ulong = 0x5411;
const SIOCOUTQNSD: libc::c_ulong = 0x894B;

/// The client's own descriptor of the connection (same process), to see
/// whether the kernel still holds bytes it has not read.
fn peer_fd(local: SocketAddr) -> Option<i32> {
    let port = local.port();
    for e in std::fs::read_dir("/proc/self/fd").ok()? {
        let fd: i32 = e.ok()?.file_name().to_str()?.parse().ok()?;
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
            if libc::getpeername(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) == 0
                && (a.sin_family == libc::AF_INET as u16 || a.sin_family == libc::AF_INET6 as u16)
                && u16::from_be(a.sin_port) == port
            {
                return Some(fd);
            }
        }
    }
    None
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

fn vbi(out: &mut Vec<u8>, mut n: usize) {
    while n > 127 {
        out.push((n % 128 + 128) as u8);
        n /= 128;
    }
    out.push(n as u8);
}

/// so many copies of one property are shown as two
static COPIES: AtomicU64 = AtomicU64::new(0);

fn props_json(d: Option<&dbg::D>) -> Option<String> {
    let l = match d {
        Some(dbg::D::List(l)) => l,
        _ => return None,
    };
    let mut out = vec![];
    for p in l {
        let (n, fs) = match p {
            dbg::D::Node(n, fs) => (n.as_str(), fs),
            _ => return None,
        };
        let (k, a, b) = match n {
            "PayloadFormatId" => ("pfi", vec![u8::try_from(fs.get(0)?.1.num()?).ok()?], vec![]),
            "MessageExpiryInterval" => {
                ("mei", u32::try_from(fs.get(0)?.1.num()?).ok()?.to_be_bytes().to_vec(), vec![])
            }
            "ResponseTopic" => ("rt", fs.get(0)?.1.bytes()?, vec![]),
            "CorrelationData" => ("cd", fs.get(0)?.1.bytes()?, vec![]),
            "ReasonString" => ("rs", fs.get(0)?.1.bytes()?, vec![]),
            "UserProperty" => ("up", fs.get(0)?.1.bytes()?, fs.get(1)?.1.bytes()?),
            _ => return None,
        };
        out.push(format!("{{\"k\":\"{}\",\"a\":{},\"b\":{}}}", k, rle::enc(&a), rle::enc(&b)));
    }
    let n = COPIES.load(Ordering::Relaxed);
    if n > 2 && out.len() as u64 == n && out.iter().all(|x| *x == out[0]) {
        out.truncate(2);
    } else if n > 2 {
        out.truncate(9);
    }
    Some(format!("[{}]", out.join(",")))
}

fn flag(d: Option<&dbg::D>) -> Option<bool> {
    match d?.name() {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    }
}

/// Names the fields may go by: the text is the client's, its inner names are
/// not what is judged.
const ID: &[&str] = &["pktid", "pkt_id", "packet_id", "packet_identifier", "pid", "id"];
const PROPS: &[&str] = &["properties", "props"];
const REASON: &[&str] = &["reason", "reason_code", "code", "rc"];
const SP: &[&str] = &["session_present", "session", "sp"];

fn any<'a>(d: &'a dbg::D, names: &[&str]) -> Option<&'a dbg::D> {
    names.iter().find_map(|n| d.find(n))
}

fn ack_json(kind: &str, s: &str) -> Option<String> {
    let d = dbg::parse(s)?;
    let id = if kind == "connack" { 0 } else { any(&d, ID)?.num()? };
    let sp = if kind == "connack" { flag(any(&d, SP))? } else { false };
    Some(format!(
        "\"k\":\"{}\",\"id\":{},\"sp\":{},\"rc\":\"{}\",\"props\":{}",
        kind,
        id,
        sp,
        norm(any(&d, REASON)?.name()),
        props_json(any(&d, PROPS))?
    ))
}

fn msg_json(s: &str) -> Option<String> {
    let d = dbg::parse(s)?;
    if !d.name().to_ascii_lowercase().contains("publish") && d.name() != "Message" {
        return None;
    }
    let pl = d.find("payload")?;
    let txt = match pl.name() {
        "String" => true,
        "Bytes" => false,
        _ => return None,
    };
    let qos = match d.find("qos")?.name() {
        "AtMostOnce" => 0,
        "AtLeastOnce" => 1,
        "ExactlyOnce" => 2,
        _ => return None,
    };
    let id = match any(&d, ID)? {
        x if x.name() == "None" => 0,
        x => x.num()?,
    };
    Some(format!(
        "\"k\":\"message\",\"topic\":{},\"txt\":{},\"pl\":{},\"props\":{},\"qos\":{},\"retain\":{},\"dup\":{},\"id\":{}",
        rle::enc(&d.find("topic")?.bytes()?),
        txt,
        rle::enc(&pl.bytes()?),
        props_json(any(&d, PROPS))?,
        qos,
        flag(d.find("retain"))?,
        flag(d.find("dup"))?,
        id
    ))
}

fn notif_json(n: &Notification) -> String {
    #[allow(unreachable_patterns)]
    let (k, r) = match n {
        Notification::ConnAck(c) => ("connack", ack_json("connack", &format!("{:?}", c))),
        Notification::SubAck(s) => ("suback", ack_json("suback", s)),
        Notification::UnsubAck(s) => ("unsuback", ack_json("unsuback", s)),
        Notification::Message(s) => ("message", msg_json(s)),
        _ => ("other", None),
    };
    r.unwrap_or_else(|| {
        let mut raw = format!("{:?}", n);
        raw.truncate(raw.char_indices().nth(200).map(|x| x.0).unwrap_or(raw.len()));
        format!("\"k\":\"{}\",\"raw\":{}", k, Value::from(raw))
    })
}

/// The line around the identifier of a notification, and the identifier.
fn split_id(j: &str) -> Option<(&str, u16, &str)> {
    let at = j.find("\"id\":")? + 5;
    let end = j[at..].find(|c: char| !c.is_ascii_digit()).map_or(j.len(), |x| x + at);
    Some((&j[..at], j[at..end].parse().ok()?, &j[end..]))
}

/// This thread so far: milliseconds of processor time, and how often it waited.
fn usage() -> (u64, i64) {
    unsafe {
        let mut r: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut r);
        let ms = |t: libc::timeval| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000;
        (ms(r.ru_utime) + ms(r.ru_stime), r.ru_nvcsw)
    }
}

/// Formats what the client logs, as an application's logger would.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Null, *r.args());
    }
    fn flush(&self) {}
}

type Loop = Pin<Box<dyn Future<Output = Result<(), anyhow::Error>>>>;

#[derive(Default)]
struct Want {
    cmds: i64,
    acks: i64,
    notifs: i64,
    live: bool,
    last_ping: u64,
    ka: u64,
    end: bool,
    disc: bool,
}

/// An address of the client's, and whether a broker listens there.
struct Place {
    l: TcpListener,
    on: bool,
}

/// A socket with an address of its own; connections to it are refused until it listens.
fn place(v6: bool) -> Place {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let fam = if v6 { libc::AF_INET6 } else { libc::AF_INET };
        let fd = libc::socket(fam, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        assert!(fd >= 0, "socket");
        let r = if v6 {
            let mut a: libc::sockaddr_in6 = std::mem::zeroed();
            a.sin6_family = fam as u16;
            a.sin6_addr.s6_addr[15] = 1;
            libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32)
        } else {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            a.sin_family = fam as u16;
            a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
            libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32)
        };
        assert!(r == 0, "bind");
        Place { l: TcpListener::from_raw_fd(fd), on: false }
    }
}

/// n QoS 1 messages that differ only in their identifier
struct Rain {
    acks: Vec<u16>,
    ack: Vec<u8>,
    ids: Vec<u16>,
    note: String,
    odd: u64,
}

/// Publishes from several threads: who, which, when (on one counter).
struct Threads {
    wire: Vec<(u64, u64, u64)>,
    ids: Vec<u16>,
}
static STAMP: AtomicU64 = AtomicU64::new(1);

struct Bulk {
    template: Vec<u8>,
    ids: Vec<u16>,
    odd: u64,
    late: u64,
}

struct World {
    t0: tokio::time::Instant,
    side: Option<std::cell::RefCell<Vec<String>>>,
    listener: Option<TcpListener>,
    net: Vec<Place>, // the addresses the client was given, when it was given several or in words
    driven: bool,
    addr: SocketAddr,
    broker: Option<TcpStream>,
    accepted: bool,
    cfd: Option<i32>,
    evloop: Option<Loop>,
    flag: Arc<Flag>,
    fresh: bool,    // every poll has a waker of its own
    spurious: bool, // it is also polled when it was not woken
    clients: Vec<Option<Client>>,
    rx: Option<futures::channel::mpsc::Receiver<Notification>>,
    drain: bool,
    reading: bool,
    nend: bool,
    finished: bool,
    broken: bool,
    weof: bool,
    outbuf: VecDeque<u8>,
    finq: bool,
    bstream: Vec<u8>,
    bdead: bool,
    inraw: Vec<u8>,
    outstanding: Vec<(u8, u16)>,
    last_ack: Vec<u8>,
    want: Want,
    undrained: i64,
    patience: u64,
    bulk: Option<Bulk>,
    rain: Option<Rain>,
    threads: Option<Threads>,
    polls: u64,
    mem0: i64,
    alone: bool,
}

impl World {
    fn now(&self) -> u64 {
        (tokio::time::Instant::now() - self.t0).as_millis() as u64
    }
    fn log(&self, e: &str, rest: &str) {
        let sep = if rest.is_empty() { "" } else { "," };
        self.say(&format!("{{\"e\":\"{}\",\"t\":{}{}{}}}", e, self.now(), sep, rest));
    }
    fn say(&self, l: &str) {
        match &self.side {
            Some(v) => v.borrow_mut().push(l.to_string()),
            None => emit(l),
        }
    }

    fn poll_loop(&mut self) {
        if self.flag.0.swap(false, Ordering::SeqCst) {
            self.polls += 1;
        }
        if self.fresh {
            // only the waker of the last poll counts
            self.flag = Arc::new(Flag(AtomicBool::new(false)));
        }
        let w: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&w);
        let r = match self.evloop.as_mut() {
            None => return,
            Some(f) => {
                // should the client take the process down, the trace survives
                flush();
                BUSY_SINCE.store(unix_ms(), Ordering::SeqCst);
                let r = {
                    let _own = mem::client();
                    catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)))
                };
                BUSY_SINCE.store(0, Ordering::SeqCst);
                r
            }
        };
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(r)) => {
                let f = self.evloop.take();
                let d = catch_unwind(AssertUnwindSafe(move || drop(f)));
                self.finished = true;
                // everything written before the end belongs before it
                self.read_wire_to_end();
                self.take_notifs();
                let (ok, kind) = match &r {
                    Ok(()) => (true, "none".to_string()),
                    Err(e) => (
                        false,
                        e.downcast_ref::<std::io::Error>()
                            .map(|e| format!("{:?}", e.kind()))
                            .unwrap_or_else(|| "other".into()),
                    ),
                };
                self.log("Done", &format!("\"ok\":{},\"kind\":\"{}\"", ok, kind));
                if d.is_err() {
                    self.log("Panic", &format!("\"msg\":{}", Value::from(PANIC_MSG.lock().unwrap().clone())));
                }
            }
            Err(_) => {
                let f = self.evloop.take();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                self.finished = true;
                self.read_wire_to_end();
                self.take_notifs();
                self.log("Panic", &format!("\"msg\":{}", Value::from(PANIC_MSG.lock().unwrap().clone())));
            }
        }
    }

    /// After the event loop is gone its socket is closed: read what it wrote.
    fn read_wire_to_end(&mut self) {
        if !self.reading {
            self.reading = true;
            self.mode();
        }
        let t = std::time::Instant::now();
        while self.broker.is_some() && !self.weof && t.elapsed() < Duration::from_millis(self.patience) {
            if !self.read_wire() {
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }

    fn on_wire(&mut self, f: Vec<u8>) {
        match f[0] >> 4 {
            1 => {
                let b = body(&f);
                self.want.ka = be16(b, 8) as u64 * 1000;
            }
            4 => self.want.acks -= 1,
            12 => self.want.last_ping = self.now(),
            3 | 8 | 10 => self.want.cmds -= 1,
            14 => {
                self.want.cmds -= 1;
                self.want.end = true;
            }
            _ => {}
        }
        if let Some(o) = out_id(&f) {
            self.outstanding.push(o);
        }
        if let Some(b) = self.bulk.as_mut() {
            let id = out_id(&f).map(|x| x.1).unwrap_or(0);
            let mut g = f.clone();
            let tl = b.template.len();
            if g.len() == tl && tl > 8 && f[0] >> 4 == 3 {
                // topic "f": id sits after type, length, 2 + 1 bytes of topic
                g[5] = 0;
                g[6] = 0;
            }
            if g == b.template {
                b.ids.push(id);
                return;
            }
            b.odd += 1;
        }
        if let Some(r) = self.threads.as_mut() {
            // the payload is the thread and a number
            let n = f.len();
            if f[0] >> 4 == 3 && n > 10 && f[n - 6..n - 3] == *b"th/" {
                let id = out_id(&f).map(|x| x.1);
                r.wire.push((f[n - 3] as u64, be16(&f, n - 2) as u64, STAMP.fetch_add(1, Ordering::SeqCst)));
                r.ids.extend(id);
                return;
            }
        }
        if let Some(r) = self.rain.as_mut() {
            if f[0] >> 4 == 4 && (4..128).contains(&f.len()) {
                let id = be16(&f, 2);
                let mut g = f.clone();
                g[2..4].copy_from_slice(&[0, 1]);
                if r.ack.is_empty() {
                    r.ack = g.clone();
                }
                if r.ack == g {
                    r.acks.push(id);
                    return;
                }
            }
            r.odd += 1;
        }
        self.log("Wire", &format!("\"p\":{}", rle::enc(&f)));
    }

    fn log_rain(&mut self, d: &[u8], lo: u64, n: u64, len: usize) {
        let r = self.rain.take().unwrap();
        let runs = |v: &[u16]| -> String {
            let l: Vec<String> = ranges(v).iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
            l.join(",")
        };
        self.log(
            "Rain",
            &format!(
                "\"p\":{},\"len\":{},\"lo\":{},\"n\":{},\"ack\":{},\"acks\":[{}],\"ids\":[{}],\"odd\":{},\"note\":{{{}}}",
                rle::enc(d), len, lo, n, rle::enc(&r.ack), runs(&r.acks), runs(&r.ids), r.odd,
                if r.note.is_empty() { "\"k\":\"none\"".to_string() } else { r.note.clone() }
            ),
        );
    }

    fn read_wire(&mut self) -> bool {
        let mut got = false;
        let mut tmp = vec![0u8; 65536];
        loop {
            let r = match self.broker.as_mut() {
                None => return got,
                Some(_) if self.weof => return got,
                Some(s) => s.read(&mut tmp),
            };
            match r {
                Ok(0) => {
                    self.weof = true;
                    let j = std::mem::take(&mut self.inraw);
                    self.log("WireEof", &format!("\"junk\":{},\"rst\":false", rle::enc(&j)));
                    return true;
                }
                Ok(n) => {
                    got = true;
                    if let Some(s) = self.broker.as_ref() {
                        quickack(s.as_raw_fd());
                    }
                    self.inraw.extend_from_slice(&tmp[..n]);
                    let mut raw = std::mem::take(&mut self.inraw);
                    let (fs, _) = frames(&mut raw);
                    self.inraw = raw;
                    for f in fs {
                        self.on_wire(f);
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return got,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.weof = true;
                    let j = std::mem::take(&mut self.inraw);
                    self.log("WireEof", &format!("\"junk\":{},\"rst\":true", rle::enc(&j)));
                    return true;
                }
            }
        }
    }

    fn take_one(&mut self) -> Option<bool> {
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        if self.nend {
            return None;
        }
        match self.rx.as_mut()?.poll_next_unpin(&mut cx) {
            Poll::Pending => None,
            Poll::Ready(None) => {
                self.nend = true;
                self.log("NEnd", "");
                Some(false)
            }
            Poll::Ready(Some(n)) => {
                self.want.notifs -= 1;
                self.undrained -= 1;
                let j = notif_json(&n);
                if let Some(r) = self.rain.as_mut() {
                    // the identifier is taken out and counted
                    if let Some((a, id, z)) = split_id(&j) {
                        let rest = format!("{}0{}", a, z);
                        if r.note.is_empty() {
                            r.note = rest.clone();
                        }
                        if r.note == rest {
                            r.ids.push(id);
                            return Some(true);
                        }
                    }
                    r.odd += 1;
                }
                self.log("Notif", &j);
                Some(true)
            }
        }
    }

    fn take_notifs(&mut self) -> bool {
        let mut got = false;
        if self.drain {
            while self.take_one().is_some() {
                got = true;
            }
        }
        got
    }

    fn feed(&mut self) -> bool {
        let mut got = false;
        while !self.outbuf.is_empty() {
            let (a, _) = self.outbuf.as_slices();
            let r = match self.broker.as_mut() {
                None => {
                    self.outbuf.clear();
                    return true;
                }
                Some(s) => s.write(&a[..a.len().min(1 << 16)]),
            };
            match r {
                Ok(n) => {
                    self.outbuf.drain(..n);
                    got = true;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    self.outbuf.clear();
                }
            }
        }
        if self.outbuf.is_empty() && self.finq && self.broker.is_some() {
            self.finq = false;
            if let Some(s) = self.broker.as_ref() {
                let _ = s.shutdown(std::net::Shutdown::Write);
            }
            got = true;
        }
        got
    }

    fn try_accept(&mut self) -> bool {
        let ls = self.listener.iter().chain(self.net.iter().filter(|p| p.on).map(|p| &p.l));
        let got = ls.filter_map(|l| Some((l.accept().ok()?.0, l.local_addr().ok()?))).next();
        if let Some((s, addr)) = got {
            self.log("Accept", "");
            if self.accepted {
                return true; // another connection: nobody serves it
            }
            s.set_nonblocking(true).unwrap();
            s.set_nodelay(true).unwrap();
            quickack(s.as_raw_fd());
            self.addr = addr;
            self.cfd = peer_fd(self.addr);
            self.broker = Some(s);
            self.accepted = true;
            return true;
        }
        false
    }

    fn blocked(&self) -> bool {
        !self.drain && self.rx.is_some() && self.undrained > 95
    }

    /// Something is still expected to happen: only used to wait longer.
    fn unmet(&self) -> bool {
        if self.finished || self.broken || self.evloop.is_none() {
            return self.finished && self.reading && self.broker.is_some() && !self.weof;
        }
        if !self.accepted && (self.listener.is_some() || self.net.iter().any(|p| p.on)) {
            return true;
        }
        if self.accepted && self.reading && self.broker.is_some() && self.want.ka == 0 {
            return true; // no CONNECT yet
        }
        if self.listener.is_none() && !self.accepted && self.evloop.is_some() {
            return true; // connection refused
        }
        if self.blocked() || !self.reading {
            return false;
        }
        if self.want.end {
            return true;
        }
        if self.want.live {
            if self.want.cmds > 0 && self.outstanding.len() < 65535 {
                return true;
            }
            if self.want.acks > 0 || (self.drain && self.rx.is_some() && self.want.notifs > 0) {
                return true;
            }
            if self.want.ka > 0 && self.now() > self.want.last_ping + self.want.ka {
                return true;
            }
        }
        false
    }

    /// No bytes are on their way in the kernel.
    fn kernel_quiet(&self) -> bool {
        // Over loopback what was sent has arrived, though its acknowledgement
        // may be delayed; only large amounts in flight are waited for.
        let busy = |fd: RawFd| ioctl(fd, SIOCOUTQNSD) > 0 || ioctl(fd, SIOCOUTQ) > 8192;
        if let Some(s) = self.broker.as_ref() {
            if busy(s.as_raw_fd()) && !self.finished {
                return false;
            }
            if self.reading && !self.weof && ioctl(s.as_raw_fd(), FIONREAD) > 0 {
                return false;
            }
            if let (Some(fd), false) = (self.cfd, self.finished) {
                if (!self.blocked() && self.reading && ioctl(fd, FIONREAD) > 0)
                    || (self.reading && busy(fd))
                {
                    return false;
                }
            }
        }
        true
    }

    async fn run(&mut self) {
        let mut idle = 0;
        let mut spins = 0;
        let mut first = self.spurious;
        let mut waited: Option<std::time::Instant> = None;
        let begun = std::time::Instant::now();
        loop {
            if begun.elapsed() > Duration::from_secs(HANG_S * 2) {
                // it never comes to rest
                self.log("Spin", "");
                self.broken = true;
                return;
            }
            let mut progress = self.try_accept();
            progress |= self.feed();
            if !self.net.is_empty() && !self.driven {
                self.driven = true;
                self.log("Drive", &format!("\"up\":{}", self.net.iter().any(|p| p.on)));
            }
            if !self.broken && self.evloop.is_some() && (first || self.flag.0.load(Ordering::SeqCst)) {
                self.poll_loop();
                spins += 1;
                idle = 0;
                first = false;
            }
            if self.reading {
                progress |= self.read_wire();
            }
            progress |= self.take_notifs();
            if progress {
                spins = 0;
                idle = 0;
                waited = None;
            } else {
                idle += 1;
            }
            if spins > SPIN_POLLS {
                self.log("Spin", "");
                self.broken = true;
                return;
            }
            tokio::task::yield_now().await;
            if idle >= 3 && (self.evloop.is_none() || !self.flag.0.load(Ordering::SeqCst)) {
                let unmet = self.unmet();
                let limit = if unmet {
                    self.patience
                } else if !self.kernel_quiet() {
                    self.patience / 5
                } else {
                    0
                };
                if limit == 0 {
                    return;
                }
                let w = *waited.get_or_insert_with(std::time::Instant::now);
                if w.elapsed() > Duration::from_millis(limit) {
                    if unmet {
                        self.patience = 60;
                    }
                    return;
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }

    fn mode(&self) {
        self.log("Mode", &format!("\"drain\":{},\"reading\":{}", self.drain, self.reading));
    }

    fn settle(&mut self) {
        let r = format!(
            "\"done\":{},\"drain\":{},\"reading\":{},\"rx\":{},\"polls\":{},\"kb\":{}",
            self.finished,
            self.drain,
            self.reading,
            self.rx.is_some(),
            self.polls,
            if self.alone { (mem::live() - self.mem0).max(0) / 1024 } else { 0 }
        );
        self.polls = 0;
        self.log("Settle", &r);
    }

    fn bsend(&mut self, d: &[u8]) {
        if self.broker.is_none() {
            return;
        }
        self.outbuf.extend(d);
        let mut fs = vec![];
        self.bstream.extend_from_slice(d);
        if !self.bdead {
            let mut b = std::mem::take(&mut self.bstream);
            let (f, dead) = frames(&mut b);
            self.bstream = b;
            self.bdead = dead;
            fs = f;
        }
        for f in &fs {
            let ty = f[0] >> 4;
            match ty {
                2 => {
                    if !self.want.live {
                        self.want.notifs += 1;
                        self.undrained += 1;
                        if f.len() > 3 && f[3] == 0 {
                            self.want.live = true;
                            self.want.last_ping = self.now();
                        } else {
                            self.want.end = true;
                        }
                    }
                }
                3 => {
                    let q = (f[0] >> 1) & 3;
                    if q < 2 {
                        self.want.notifs += 1;
                        self.undrained += 1;
                    }
                    if q == 1 {
                        self.want.acks += 1;
                    }
                }
                9 | 11 => {
                    self.want.notifs += 1;
                    self.undrained += 1;
                }
                14 => self.want.end = true,
                _ => {}
            }
            // ids as the broker sees them
            if ty == 4 || ty == 9 || ty == 11 {
                let id = be16(body(f), 0);
                self.outstanding.retain(|x| x.1 != id);
            }
        }
        if self.bulk.is_none() {
            let l: Vec<String> = fs.iter().map(|f| rle::enc(f)).collect();
            let th = if self.bdead { vec![] } else { self.bstream[..self.bstream.len().min(6)].to_vec() };
            let tl = if self.bdead { 0 } else { self.bstream.len() };
            self.log(
                "BSend",
                &format!("\"fr\":[{}],\"tl\":{},\"th\":{}", l.join(","), tl, rle::enc(&th)),
            );
        }
    }

    fn call(&mut self, a: &Value, quiet: bool) -> bool {
        let h = a["h"].as_u64().unwrap_or(0) as usize;
        let op = a["op"].as_str().unwrap();
        let topic = rle::dec(&a["topic"]);
        let pl = rle::dec(&a["pl"]);
        let txt = a["txt"].as_bool().unwrap_or(false);
        let q = a["qos"].as_u64();
        let qos = match q {
            Some(1) => QoS::AtLeastOnce,
            Some(2) => QoS::ExactlyOnce,
            _ => QoS::AtMostOnce,
        };
        let mut pj = vec![];
        let st = |b: Vec<u8>| String::from_utf8(b).expect("scenario text must be UTF-8");
        let mut props = vec![];
        for p in a["props"].as_array().unwrap_or(&vec![]) {
            let (x, y) = (rle::dec(&p["a"]), rle::dec(&p["b"]));
            if !quiet {
                pj.push(format!(
                    "{{\"k\":\"{}\",\"a\":{},\"b\":{}}}",
                    p["k"].as_str().unwrap(),
                    rle::enc(&x),
                    rle::enc(&y)
                ));
            }
            props.push(match p["k"].as_str().unwrap() {
                "pfi" => Property::PayloadFormatId(x[0]),
                "mei" => Property::MessageExpiryInterval(u32::from_be_bytes([x[0], x[1], x[2], x[3]])),
                "rt" => Property::ResponseTopic(st(x)),
                "cd" => Property::CorrelationData(x),
                "up" => Property::UserProperty(st(x), st(y)),
                k => panic!("property {k}"),
            });
        }
        let c = match self.clients.get_mut(h) {
            Some(Some(c)) => c,
            _ => return false,
        };
        let (tj, plj) = if quiet { (String::new(), String::new()) } else { (rle::enc(&topic), rle::enc(&pl)) };
        let t = st(topic);
        let size = (t.len() + pl.len()) as u64;
        let (cpu0, waits0) = usage();
        let begun = std::time::Instant::now();
        IN_CALL.store(true, Ordering::SeqCst);
        BUSY_SINCE.store(unix_ms(), Ordering::SeqCst);
        let own = mem::client();
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            "pub" => {
                let mut b = if txt {
                    PublishBuilder::from_str(&t, std::str::from_utf8(&pl).expect("text payload"))
                } else {
                    PublishBuilder::from_bytes(&t, &pl)
                };
                // the builder's methods in another order, and a change of mind
                let late = a["qlast"].as_u64();
                if q.is_some() && late.is_none() {
                    b = b.qos(qos);
                } else if late == Some(2) {
                    b = b.qos(if q == Some(1) { QoS::ExactlyOnce } else { QoS::AtLeastOnce });
                }
                for p in props {
                    b = b.with_property(p);
                }
                if q.is_some() && late.is_some() {
                    b = b.qos(qos);
                }
                c.publish(if late == Some(3) { b.clone() } else { b })
            }
            "sub" => c.subscribe(&t, qos),
            "unsub" => c.unsubscribe(&t),
            "disc" => c.disconnect(),
            o => panic!("op {o}"),
        }));
        drop(own);
        BUSY_SINCE.store(0, Ordering::SeqCst);
        IN_CALL.store(false, Ordering::SeqCst);
        let wall = begun.elapsed().as_millis() as u64;
        let (cpu1, waits1) = usage();
        // it slept, or it kept the processor busy for long
        let late = (waits1 > waits0 && wall >= 20 + cpu1 - cpu0) || cpu1 - cpu0 > 200 + size / 100_000;
        if late {
            if let Some(b) = self.bulk.as_mut() {
                b.late += 1;
            }
        }
        let (ok, panicked) = match r {
            Ok(Ok(())) => (true, false),
            Ok(Err(_)) => (false, false),
            Err(_) => (false, true),
        };
        if ok && !self.want.disc {
            self.want.cmds += 1;
            if op == "disc" {
                self.want.disc = true;
            }
        }
        if !quiet {
            self.log(
                "Call",
                &format!(
                    "\"k\":\"{}\",\"h\":{},\"ok\":{},\"topic\":{},\"pl\":{},\"txt\":{},\"qos\":{},\"props\":[{}],\"panic\":{},\"late\":{}",
                    op,
                    h,
                    ok,
                    tj,
                    plj,
                    txt,
                    q.unwrap_or(0),
                    pj.join(","),
                    panicked,
                    late
                ),
            );
        }
        ok
    }

    async fn act(&mut self, a: &Value) {
        let nr = a["nr"].as_u64().unwrap_or(0) == 1;
        let num = |k: &str, d: u64| a[k].as_u64().unwrap_or(d);
        match a["a"].as_str().unwrap() {
            "call" => {
                for _ in 0..num("rep", 1) {
                    self.call(a, false);
                }
            }
            "clone" => {
                let h = num("h", 0) as usize;
                let c = self.clients.get(h).cloned().flatten();
                let alive = c.is_some();
                self.clients.push(c);
                self.log("Clone", &format!("\"ok\":{}", alive));
            }
            "drop" => {
                let h = num("h", 0) as usize;
                if let Some(x) = self.clients.get_mut(h) {
                    *x = None;
                }
                let n = self.clients.iter().filter(|c| c.is_some()).count();
                self.log("Drop", &format!("\"left\":{}", n));
            }
            "dropall" => {
                self.clients.iter_mut().for_each(|c| *c = None);
                self.log("Drop", "\"left\":0");
            }
            "droprx" => {
                self.rx = None;
                self.log("DropRx", "");
            }
            "send" => {
                let d = rle::dec(&a["d"]);
                let mut pos = 0;
                if let Some(cuts) = a["cuts"].as_array() {
                    for c in cuts {
                        let n = (c.as_u64().unwrap() as usize).min(d.len() - pos);
                        if n == 0 {
                            continue;
                        }
                        self.bsend(&d[pos..pos + n]);
                        pos += n;
                        self.run().await;
                        self.settle();
                    }
                }
                if pos < d.len() || d.is_empty() {
                    let step = num("each", 0) as usize;
                    if step > 0 {
                        while pos < d.len() {
                            let n = step.min(d.len() - pos);
                            self.bsend(&d[pos..pos + n]);
                            pos += n;
                            self.run().await;
                        }
                    } else if pos < d.len() {
                        self.bsend(&d[pos..]);
                    }
                }
            }
            "pong" => self.bsend(&[0xD0, 0]),
            "ack" => {
                let c: Vec<(u8, u16)> = self.outstanding.iter().copied().filter(|x| x.0 != 5).collect();
                if !c.is_empty() {
                    let i = num("i", 0) as usize;
                    let (ty, id) = if num("new", 0) == 1 { c[c.len() - 1 - i % c.len()] } else { c[i % c.len()] };
                    let [x, y] = id.to_be_bytes();
                    // no such reason in an UNSUBACK
                    let rc = if ty == 11 && num("rc", 0) == 151 { 131 } else { num("rc", 0) as u8 };
                    let props = rle::dec(&a["props"]);
                    let mut pv = vec![props.len() as u8];
                    pv.extend_from_slice(&props);
                    let f = match ty {
                        4 => match num("form", 0) {
                            0 => frame(0x40, &[x, y]),
                            1 => frame(0x40, &[x, y, rc]),
                            _ => {
                                let mut b = vec![x, y, rc];
                                b.extend_from_slice(&pv);
                                frame(0x40, &b)
                            }
                        },
                        t => {
                            let mut b = vec![x, y];
                            b.extend_from_slice(&pv);
                            b.push(rc);
                            frame(t << 4, &b)
                        }
                    };
                    self.last_ack = f.clone();
                    self.bsend(&f);
                }
            }
            "reack" => {
                let f = self.last_ack.clone();
                if !f.is_empty() {
                    self.bsend(&f);
                }
            }
            "adv" => {
                let ms = num("ms", 1000);
                let step = num("step", ms).max(1);
                let pong = num("pong", 0);
                let mut left = ms;
                while left > 0 {
                    let mut n = step.min(left);
                    // stop where a ping may be due, so that timers fire on time
                    if self.want.live && self.want.ka > 0 {
                        let d = (self.now() - self.want.last_ping) % self.want.ka;
                        n = n.min(self.want.ka - d);
                    }
                    left -= n;
                    let before = self.want.last_ping;
                    tokio::time::advance(Duration::from_millis(n)).await;
                    if left > 0 || pong == 1 {
                        self.run().await;
                        self.settle();
                    }
                    if pong == 1 && self.want.last_ping != before && !self.finished {
                        self.bsend(&[0xD0, 0]);
                        if left > 0 {
                            self.run().await;
                            self.settle();
                        }
                    }
                    if self.finished || self.broken {
                        break;
                    }
                }
            }
            "hold" => {
                self.drain = false;
                self.mode();
            }
            "drain" => {
                self.drain = true;
                self.mode();
            }
            "take" => {
                for _ in 0..num("n", 1) {
                    if self.take_one().is_none() {
                        break;
                    }
                }
            }
            "halt" => {
                self.reading = false;
                self.mode();
            }
            "resume" => {
                self.reading = true;
                self.mode();
            }
            // a connection that is not there (yet, or any more) cannot be ended
            "close" | "rst" if self.broker.is_none() => {}
            "fin" if self.broker.is_none() && self.accepted => {}
            "fin" => {
                self.finq = true;
                self.want.end = true;
                self.log("BEnd", "\"how\":\"fin\"");
            }
            "close" => {
                self.want.end = true;
                self.log("BEnd", "\"how\":\"close\"");
                self.feed();
                self.broker = None;
            }
            "rst" => {
                self.want.end = true;
                self.log("BEnd", "\"how\":\"rst\"");
                if let Some(s) = self.broker.take() {
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(
                            s.as_raw_fd(),
                            libc::SOL_SOCKET,
                            libc::SO_LINGER,
                            &l as *const _ as *const libc::c_void,
                            std::mem::size_of::<libc::linger>() as u32,
                        );
                    }
                }
            }
            "run" => {}
            "connect" => {
                if let Some(Some(c)) = self.clients.get_mut(num("h", 0) as usize) {
                    let r = catch_unwind(AssertUnwindSafe(|| c.connect()));
                    self.log("Connect", &format!("\"ok\":{}", matches!(r, Ok(Ok(())))));
                }
            }
            // the event loop is dropped before it has finished
            "listen" => {
                let p = &mut self.net[num("i", 0) as usize];
                p.on = true;
                assert_eq!(unsafe { libc::listen(p.l.as_raw_fd(), 16) }, 0);
            }
            // does it do anything though nobody drives it?
            "peek" => {
                for _ in 0..num("n", 3) {
                    tokio::task::yield_now().await;
                    std::thread::sleep(Duration::from_millis(2));
                    while self.try_accept() {}
                }
            }
            "kill" => {
                if let Some(f) = self.evloop.take() {
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                    self.finished = true;
                    self.log("Gone", "");
                    self.read_wire_to_end();
                    self.take_notifs();
                }
            }
            // the client never runs out of packets to read while time passes
            "storm" => {
                let d = rle::dec(&a["d"]);
                let (n, ahead, ms) = (num("n", 1000), num("ahead", 400) as i64, num("ms", 100));
                let calls: Vec<Value> = a["calls"].as_array().cloned().unwrap_or_default();
                self.log("Storm", "\"on\":true");
                let (mut sent, mut round) = (0, 0);
                let (mut was, mut since) = ((0, 0), std::time::Instant::now());
                while sent < n && !self.finished && !self.broken {
                    if was != (sent, self.undrained) {
                        was = (sent, self.undrained);
                        since = std::time::Instant::now();
                    } else if since.elapsed() > Duration::from_secs(8) {
                        break; // nothing moves
                    }
                    let want = (ahead - self.undrained).max(0) as u64;
                    let k = want.min(n - sent);
                    if k > 0 {
                        let chunk: Vec<u8> = (0..k).flat_map(|_| d.iter().copied()).collect();
                        self.bsend(&chunk);
                        sent += k;
                    }
                    let before = self.want.last_ping;
                    self.try_accept();
                    self.feed();
                    for _ in 0..2 {
                        if self.flag.0.load(Ordering::SeqCst) {
                            self.poll_loop();
                        }
                        tokio::task::yield_now().await;
                    }
                    self.read_wire();
                    self.take_notifs();
                    if num("pong", 0) == 1 && self.want.last_ping != before && !self.finished {
                        self.bsend(&[0xD0, 0]);
                    }
                    if let Some(c) = calls.get(round) {
                        self.call(c, false);
                    }
                    round += 1;
                    tokio::time::advance(Duration::from_millis(ms)).await;
                }
                self.log("Storm", "\"on\":false");
            }
            // k threads publish n times each, while the event loop runs here
            "threads" => {
                let (k, n) = (num("k", 4), num("n", 100));
                let c = match self.clients[0].clone() {
                    None => return,
                    Some(c) => c,
                };
                self.threads = Some(Threads { wire: vec![], ids: vec![] });
                let go = Arc::new(AtomicBool::new(false));
                let left = Arc::new(AtomicU64::new(k));
                let hs: Vec<_> = (0..k)
                    .map(|h| {
                        let (mut c, go, left) = (c.clone(), go.clone(), left.clone());
                        std::thread::spawn(move || {
                            while !go.load(Ordering::SeqCst) {
                                std::hint::spin_loop();
                            }
                            let mut out = vec![];
                            for i in 0..n {
                                let mut pl = b"th/".to_vec();
                                pl.push(h as u8);
                                pl.extend_from_slice(&(i as u16).to_be_bytes());
                                let b = PublishBuilder::from_bytes("t", &pl)
                                    .qos(if (h + i) % 3 == 0 { QoS::AtLeastOnce } else { QoS::AtMostOnce });
                                let t = STAMP.fetch_add(1, Ordering::SeqCst);
                                let r = catch_unwind(AssertUnwindSafe(|| c.publish(b)));
                                let z = STAMP.fetch_add(1, Ordering::SeqCst);
                                let res = match r {
                                    Ok(Ok(())) => 0,
                                    Ok(Err(_)) => 1,
                                    Err(_) => 2,
                                };
                                out.push((h, i, t, z, res));
                                if res == 1 {
                                    std::thread::sleep(Duration::from_micros(500));
                                } else if i % 40 == 39 {
                                    std::thread::yield_now();
                                }
                            }
                            left.fetch_sub(1, Ordering::SeqCst);
                            out
                        })
                    })
                    .collect();
                drop(c);
                go.store(true, Ordering::SeqCst);
                let begun = std::time::Instant::now();
                while left.load(Ordering::SeqCst) > 0 && begun.elapsed() < Duration::from_secs(10) {
                    if self.flag.0.load(Ordering::SeqCst) && !self.broken {
                        self.poll_loop();
                    }
                    self.read_wire();
                    tokio::task::yield_now().await;
                }
                if left.load(Ordering::SeqCst) > 0 {
                    self.log("Hang", "\"call\":true");
                    self.broken = true;
                    return;
                }
                let calls: Vec<_> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
                let ok = calls.iter().filter(|c| c.4 == 0).count();
                self.want.cmds = ok as i64 - self.threads.as_ref().unwrap().wire.len() as i64;
                while self.want.cmds > 0 && begun.elapsed() < Duration::from_secs(12) && !self.finished && !self.broken {
                    self.run().await;
                    self.want.cmds = ok as i64 - self.threads.as_ref().unwrap().wire.len() as i64;
                }
                self.want.cmds = 0;
                let mut th = self.threads.take().unwrap();
                let cs: Vec<String> = calls.iter().map(|c| format!("[{},{},{}]", c.2, c.3, c.4)).collect();
                let which = |w: &(u64, u64, u64)| calls.iter().position(|c| (c.0, c.1) == (w.0, w.1)).map_or(0, |x| x + 1);
                let wi: Vec<String> = th.wire.iter().map(|w| format!("[{},{}]", which(w), w.2)).collect();
                let m = th.ids.len();
                th.ids.sort_unstable();
                th.ids.dedup();
                let ids: Vec<String> = ranges(&th.ids).iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
                self.log(
                    "Threads",
                    &format!(
                        "\"calls\":[{}],\"wire\":[{}],\"ids\":[{}],\"rep\":{}",
                        cs.join(","), wi.join(","), ids.join(","), m - th.ids.len()
                    ),
                );
            }
            // n QoS 1 messages, with identifiers counting up from `id`
            "rain" => {
                let (n, mut id) = (num("n", 1000), num("id", 1));
                let d = rle::dec(&a["d"]);
                let at = num("at", 0) as usize;
                let lo = id;
                self.rain = Some(Rain { acks: vec![], ack: vec![], ids: vec![], note: String::new(), odd: 0 });
                self.log("Start", "");
                let mut sent = 0;
                while sent < n && !self.finished && !self.broken {
                    let k = (n - sent).min(num("by", 200));
                    for _ in 0..k {
                        let mut f = d.clone();
                        f[at..at + 2].copy_from_slice(&(id as u16).to_be_bytes());
                        self.outbuf.extend(&f);
                        id = id % 65535 + 1;
                    }
                    sent += k;
                    self.undrained += k as i64;
                    self.want.notifs += k as i64;
                    self.want.acks += k as i64;
                    self.run().await;
                }
                self.log_rain(&d, lo, sent, d.len());
            }
            "many" => {
                // one message with n copies of a property, shown as one with two
                let (topic, pl, unit) = (rle::dec(&a["topic"]), rle::dec(&a["pl"]), rle::dec(&a["unit"]));
                let (n, id) = (num("n", 1000), num("id", 1));
                let packet = |n: u64| {
                    let mut b = (topic.len() as u16).to_be_bytes().to_vec();
                    b.extend(&topic);
                    b.extend((id as u16).to_be_bytes());
                    vbi(&mut b, unit.len() * n as usize);
                    b.extend(unit.repeat(n as usize));
                    b.extend(&pl);
                    let mut f = vec![0x32];
                    vbi(&mut f, b.len());
                    f.extend(b);
                    f
                };
                let f = packet(n);
                self.rain = Some(Rain { acks: vec![], ack: vec![], ids: vec![], note: String::new(), odd: 0 });
                self.log("Start", "");
                COPIES.store(n, Ordering::Relaxed);
                self.outbuf.extend(&f);
                self.undrained += 1;
                self.want.notifs += 1;
                self.want.acks += 1;
                self.run().await;
                COPIES.store(0, Ordering::Relaxed);
                self.log_rain(&packet(2), id, 1, f.len());
            }
            "flood" => {
                // n QoS 1 publishes of one byte on topic "f"
                let n = num("n", 1000);
                let q = num("qos", 1);
                let call = json!({"op": "pub", "topic": "f", "pl": "x", "qos": q, "h": num("h", 0)});
                let first = 0x30 | ((q as u8) << 1);
                let template = frame(first, &[0, 1, b'f', 0, 0, 2, 1, 0, b'x']);
                self.bulk = Some(Bulk { template, ids: vec![], odd: 0, late: 0 });
                let mut done = 0;
                let mut refused = 0;
                'f: while done < n {
                    for _ in 0..64.min(n - done) {
                        if self.call(&call, true) {
                            done += 1;
                        } else {
                            refused += 1;
                            if refused > 3 {
                                break 'f;
                            }
                            break;
                        }
                    }
                    self.run().await;
                    if self.finished || self.broken {
                        break;
                    }
                }
                self.run().await;
                let mut b = self.bulk.take().unwrap();
                b.ids.sort_unstable();
                let written = b.ids.len();
                b.ids.dedup();
                let r: Vec<String> = ranges(&b.ids).iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
                self.log(
                    "Bulk",
                    &format!("\"n\":{},\"qos\":{},\"w\":{},\"ids\":[{}],\"rep\":{},\"odd\":{},\"late\":{}",
                        done,
                        q,
                        written,
                        r.join(","),
                        written - b.ids.len(),
                        b.odd,
                        b.late > 0
                    ),
                );
            }
            "acks" => {
                // PUBACK for every outstanding id in the given ranges, in that order
                let mut ids: Vec<u16> = vec![];
                let out: std::collections::HashSet<u16> =
                    self.outstanding.iter().filter(|x| x.0 == 4).map(|x| x.1).collect();
                for r in a["r"].as_array().unwrap() {
                    let (lo, hi) = (r[0].as_u64().unwrap(), r[1].as_u64().unwrap());
                    if lo <= hi {
                        ids.extend((lo..=hi).map(|x| x as u16).filter(|x| out.contains(x)));
                    } else {
                        ids.extend((hi..=lo).rev().map(|x| x as u16).filter(|x| out.contains(x)));
                    }
                }
                let gone: std::collections::HashSet<u16> = ids.iter().copied().collect();
                self.outstanding.retain(|x| !gone.contains(&x.1));
                let r: Vec<String> = ranges(&ids).iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
                self.log("BAcks", &format!("\"ids\":[{}]", r.join(",")));
                self.bulk = Some(Bulk { template: vec![], ids: vec![], odd: 0, late: 0 });
                for id in ids {
                    let [x, y] = id.to_be_bytes();
                    self.outbuf.extend(&[0x40, 2, x, y]);
                }
                self.bulk = None;
            }
            o => panic!("action {o}"),
        }
        if !nr && !self.broken {
            self.run().await;
            self.settle();
        }
    }
}

fn world(sc: &Value, t0: tokio::time::Instant, side: bool) -> World {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    let rcvbuf = sc["rcvbuf"].as_u64().unwrap_or(0) as libc::c_int;
    if rcvbuf > 0 {
        unsafe {
            libc::setsockopt(
                l.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_RCVBUF,
                &rcvbuf as *const _ as *const libc::c_void,
                4,
            );
        }
    }
    let addr = l.local_addr().unwrap();
    let refused = sc["refused"].as_bool().unwrap_or(false);
    let listener = Some(l).filter(|_| !refused);
    let seed = sc["seed"].as_u64().unwrap_or(1);
    let mem0 = mem::live();
    let form = sc["form"].as_str().unwrap_or("sock");
    let net: Vec<Place> = (0..sc["net"].as_u64().unwrap_or(0)).map(|i| place(form == "v6" || form == "mix46" && i % 2 == 1 || form == "mix64" && i % 2 == 0)).collect();
    let listener = if net.is_empty() { listener } else { None };
    let (client, evloop, rx) = {
        let at: Vec<SocketAddr> = net.iter().map(|p| p.l.local_addr().unwrap()).collect();
        let port = at.first().map_or(0, |a| a.port());
        let words: &'static str = Box::leak(format!("localhost:{port}").into_boxed_str());
        let all: &'static [SocketAddr] = Box::leak(at.clone().into_boxed_slice());
        let _own = mem::client();
        fn open<A>(a: A) -> (Client, Loop, futures::channel::mpsc::Receiver<Notification>)
        where
            A: ToOwned + 'static,
            A::Owned: tokio::net::ToSocketAddrs + Clone + Send + 'static,
        {
            let (c, e, n) = Client::new(a);
            (c, Box::pin(e), n)
        }
        match (at.len(), form) {
            (0, _) => open(addr),
            (1, "words") => open(words),
            (1, "string") => open(at[0].to_string()),
            (1, "pair") => open(("localhost", port)),
            (1, "ip") => open((at[0].ip(), port)),
            (1, "slice") => open(all),
            (1, _) => open(at[0]),
            _ => open(all),
        }
    };
    World {
        t0,
        side: if side { Some(Default::default()) } else { None },
        listener,
        net,
        driven: false,
        addr,
        broker: None,
        accepted: false,
        cfd: None,
        evloop: Some(evloop),
        flag: Arc::new(Flag(AtomicBool::new(true))),
        clients: vec![Some(client)],
        rx: Some(rx),
        drain: true,
        reading: true,
        nend: false,
        finished: false,
        broken: false,
        weof: false,
        outbuf: VecDeque::new(),
        finq: false,
        bstream: vec![],
        bdead: false,
        inraw: vec![],
        outstanding: vec![],
        last_ack: vec![],
        want: Want::default(),
        undrained: 0,
        patience: PATIENCE_MS,
        bulk: None,
        rain: None,
        threads: None,
        polls: 0,
        fresh: seed % 2 == 0,
        spurious: seed % 3 == 0,
        mem0,
        alone: sc["twins"].is_null(),
    }
}

/// "twins": that many clients in one process, each with a broker of its own;
/// an action says by "w" whose it is. The traces follow one another.
async fn scenario(sc: &Value) {
    let t0 = tokio::time::Instant::now();
    let n = sc["twins"].as_u64().unwrap_or(1) as usize;
    let mut ws: Vec<World> = (0..n).map(|i| world(sc, t0, i > 0)).collect();
    for (i, w) in ws.iter_mut().enumerate() {
        let id = if n > 1 { json!(format!("{}/{}", sc["id"].as_str().unwrap(), i)) } else { sc["id"].clone() };
        w.say(&format!(
            "{{\"e\":\"Begin\",\"t\":0,\"id\":{},\"refused\":{},\"net\":{},\"grp\":{}}}",
            id,
            w.listener.is_none() && w.net.is_empty(),
            !w.net.is_empty(),
            if sc["grp"].is_null() { json!("") } else { sc["grp"].clone() }
        ));
    }
    for w in ws.iter_mut() {
        // "lazy": the event loop is not polled before the first action
        if !sc["lazy"].as_bool().unwrap_or(false) {
            w.run().await;
            w.settle();
        }
    }
    for a in sc["acts"].as_array().unwrap() {
        let k = a["w"].as_u64().unwrap_or(0) as usize;
        if !ws[k].broken {
            ws[k].act(a).await;
        }
        if n > 1 && a["nr"].as_u64() != Some(1) {
            for (i, w) in ws.iter_mut().enumerate() {
                if i != k && !w.broken {
                    w.run().await;
                    w.settle();
                }
            }
        }
    }
    for w in ws.iter_mut() {
        if !w.broken {
            w.reading = true;
            w.drain = true;
            w.mode();
            w.run().await;
            w.settle();
        }
        w.log("End", "");
        let ev = w.evloop.take();
        let _ = catch_unwind(AssertUnwindSafe(move || drop(ev)));
        for l in w.side.take().map(|x| x.into_inner()).unwrap_or_default() {
            emit(&l);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (scen, trace) = (&args[1], &args[2]);
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let f = std::fs::OpenOptions::new().create(true).append(true).open(trace).unwrap();
    *OUT.lock().unwrap() = Some(std::io::BufWriter::with_capacity(1 << 20, f));
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if let Ok(mut g) = PANIC_MSG.lock() {
            *g = s.chars().take(300).collect();
        }
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let b = BUSY_SINCE.load(Ordering::SeqCst);
        if b != 0 && unix_ms().saturating_sub(b) > HANG_S * 1000 {
            emit(&format!("{{\"e\":\"Hang\",\"t\":-1,\"call\":{}}}", IN_CALL.load(Ordering::SeqCst)));
            emit("{\"e\":\"End\",\"t\":-1}");
            flush();
            unsafe { libc::_exit(3) };
        }
    });
    static SINK: Sink = Sink;
    log::set_logger(&SINK).unwrap();
    let text = std::fs::read_to_string(scen).unwrap();
    for (i, line) in text.lines().enumerate() {
        if i < skip || line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(line).unwrap();
        let seed = sc["seed"].as_u64().unwrap_or(1);
        log::set_max_level(if seed % 4 == 0 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let r = catch_unwind(AssertUnwindSafe(|| {
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .start_paused(true)
                .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
                .build()
                .unwrap();
            rt.block_on(scenario(&sc));
        }));
        if r.is_err() {
            flush();
            eprintln!("harness error in scenario {}: {}", sc["id"], PANIC_MSG.lock().unwrap());
            std::process::exit(4);
        }
        // tells the runner where to go on after a hang or a crash
        flush();
        println!("{}", i);
    }
    flush();
}
