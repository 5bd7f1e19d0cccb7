// A scripted broker for one connection, in real time, over loopback TCP.
#![allow(dead_code)]
use futures::channel::mpsc::Receiver;
use futures::StreamExt;
pub use ruq::{Client, Notification, Property, PublishBuilder, QoS};
pub use std::time::{Duration, Instant};
pub use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::task::JoinHandle;
pub use tokio::time::{sleep, timeout};

pub const CONNACK: &[u8] = &[0x20, 3, 0, 0, 0];
pub const PINGRESP: &[u8] = &[0xD0, 0];

pub struct Conn {
    pub client: Option<Client>,
    pub notes: Option<Receiver<Notification>>,
    pub sock: TcpStream,
    pub ev: Option<JoinHandle<anyhow::Result<()>>>,
    buf: Vec<u8>,
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// starts the client; `before` may use it before the event loop runs
pub async fn start_with(before: impl FnOnce(&mut Client)) -> Conn {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let addr = leak(l.local_addr().unwrap().to_string());
    let (mut client, ev, notes) = Client::new(addr);
    before(&mut client);
    let ev = tokio::spawn(ev);
    let (sock, _) = l.accept().await.unwrap();
    Conn { client: Some(client), notes: Some(notes), sock, ev: Some(ev), buf: vec![] }
}

/// the same, up to and including the handshake
pub async fn live() -> Conn {
    let mut c = start_with(|_| ()).await;
    let p = c.pkt(5000).await.expect("no CONNECT");
    assert_eq!(p[0], 0x10, "not a CONNECT");
    c.send(CONNACK).await;
    match c.note(5000).await {
        Some(Notification::ConnAck(_)) => c,
        n => panic!("no CONNACK notification: {:?}", n),
    }
}

impl Conn {
    pub fn cl(&mut self) -> &mut Client {
        self.client.as_mut().unwrap()
    }
    pub async fn send(&mut self, b: &[u8]) {
        let _ = self.sock.write_all(b).await;
        let _ = self.sock.flush().await;
    }
    fn cut(&mut self) -> Option<Vec<u8>> {
        let (mut len, mut i) = (0usize, 1usize);
        loop {
            let b = *self.buf.get(i)? as usize;
            len |= (b & 127) << (7 * (i - 1));
            i += 1;
            if b < 128 {
                break;
            }
        }
        if self.buf.len() < i + len {
            return None;
        }
        let rest = self.buf.split_off(i + len);
        Some(std::mem::replace(&mut self.buf, rest))
    }
    /// next packet the client writes, None when it closed or nothing came in time
    pub async fn pkt(&mut self, ms: u64) -> Option<Vec<u8>> {
        let end = tokio::time::Instant::now() + Duration::from_millis(ms);
        loop {
            if let Some(p) = self.cut() {
                return Some(p);
            }
            let mut b = [0u8; 65536];
            match tokio::time::timeout_at(end, self.sock.read(&mut b)).await {
                Ok(Ok(n)) if n > 0 => self.buf.extend_from_slice(&b[..n]),
                _ => return None,
            }
        }
    }
    /// next packet other than PINGREQ; pings are answered
    pub async fn pkt_np(&mut self, ms: u64) -> Option<Vec<u8>> {
        loop {
            match self.pkt(ms).await {
                Some(p) if p[0] == 0xC0 => self.send(PINGRESP).await,
                p => return p,
            }
        }
    }
    pub async fn note(&mut self, ms: u64) -> Option<Notification> {
        match timeout(Duration::from_millis(ms), self.notes.as_mut().unwrap().next()).await {
            Ok(n) => n,
            Err(_) => None,
        }
    }
    /// the event loop's result, None while it runs; panics when it panicked
    pub async fn result(&mut self, ms: u64) -> Option<anyhow::Result<()>> {
        match timeout(Duration::from_millis(ms), self.ev.as_mut().unwrap()).await {
            Ok(r) => Some(r.expect("the event loop panicked")),
            Err(_) => None,
        }
    }
}

pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}
pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(vbi(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn st(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}
/// PUBLISH to the client; flags are the low nibble of the first byte
pub fn publish(flags: u8, topic: &str, id: u16, props: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = st(topic);
    if flags & 6 != 0 {
        b.extend(id.to_be_bytes());
    }
    b.extend(vbi(props.len()));
    b.extend_from_slice(props);
    b.extend_from_slice(payload);
    packet(0x30 | flags, &b)
}
pub fn puback(id: u16) -> Vec<u8> {
    packet(0x40, &id.to_be_bytes())
}
pub fn suback(id: u16) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    b.extend([0, 0]);
    packet(0x90, &b)
}
pub fn unsuback(id: u16) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    b.extend([0, 0]);
    packet(0xB0, &b)
}
/// (packet identifier, topic) of a SUBSCRIBE, UNSUBSCRIBE or PUBLISH the client wrote
pub fn id_topic(p: &[u8]) -> (u16, String) {
    let mut i = 1;
    while p[i] & 128 != 0 {
        i += 1;
    }
    i += 1;
    let u = |i: usize| u16::from_be_bytes([p[i], p[i + 1]]);
    if p[0] >> 4 == 3 {
        let n = u(i) as usize;
        let t = String::from_utf8(p[i + 2..i + 2 + n].to_vec()).unwrap();
        (if p[0] & 6 != 0 { u(i + 2 + n) } else { 0 }, t)
    } else {
        let id = u(i);
        let k = if p[i + 2] == 0 { i + 3 } else { panic!("properties") };
        let n = u(k) as usize;
        (id, String::from_utf8(p[k + 2..k + 2 + n].to_vec()).unwrap())
    }
}
pub fn text(n: Option<Notification>) -> String {
    match n {
        Some(Notification::Message(s)) | Some(Notification::SubAck(s)) | Some(Notification::UnsubAck(s)) => s,
        n => format!("{:?}", n),
    }
}
