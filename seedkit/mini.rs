//! A small scriptable MySQL-like server on the loopback interface, and builders
//! for binlog events. Each connection plays the next session script.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone)]
pub enum Step {
    /// one packet (payload without the header)
    Send(Vec<u8>),
    /// raw bytes on the wire
    Raw(Vec<u8>),
    Sleep(u64),
    Close,
    /// keep the connection open without sending anything
    Hold(u64),
}

#[derive(Clone)]
pub struct Cfg {
    pub version: String,
    pub status: (String, u64),
    pub checksum: String,
    /// what follows the dump request, per connection
    pub dumps: Vec<Vec<Step>>,
    /// answer a query (by substring) with these packets instead
    pub answers: Vec<(String, Vec<Vec<u8>>)>,
    pub plugin: String,
    /// packets after the handshake response: each entry is sent, the next waits for a client packet
    pub auth: Vec<Vec<Vec<u8>>>,
    pub scramble: Vec<u8>,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            version: "8.0.33".into(),
            status: ("mysql-bin.000001".into(), 4),
            checksum: "NONE".into(),
            dumps: vec![],
            answers: vec![],
            plugin: "mysql_native_password".into(),
            auth: vec![vec![vec![0, 0, 0, 2, 0, 0, 0]]],
            scramble: b"abcdefghijklmnopqrst".to_vec(),
        }
    }
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<(usize, Vec<u8>)>>>);
impl Log {
    /// dump requests, in order
    pub fn dumps(&self) -> Vec<Vec<u8>> {
        self.0.lock().unwrap().iter().filter(|x| matches!(x.1.first(), Some(0x12) | Some(0x1e))).map(|x| x.1.clone()).collect()
    }
    pub fn queries(&self) -> Vec<String> {
        self.0.lock().unwrap().iter().filter(|x| x.1.first() == Some(&3)).map(|x| String::from_utf8_lossy(&x.1[1..]).to_string()).collect()
    }
    pub fn all(&self) -> Vec<(usize, Vec<u8>)> {
        self.0.lock().unwrap().clone()
    }
    pub fn wait_dumps(&self, n: usize) -> Vec<Vec<u8>> {
        for _ in 0..200 {
            if self.dumps().len() >= n {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        self.dumps()
    }
}

fn frame(seq: u8, p: &[u8]) -> Vec<u8> {
    let mut v = (p.len() as u32).to_le_bytes()[..3].to_vec();
    v.push(seq);
    v.extend_from_slice(p);
    v
}
fn recv(s: &mut TcpStream) -> Option<(u8, Vec<u8>)> {
    let mut h = [0u8; 4];
    s.read_exact(&mut h).ok()?;
    let n = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
    let mut p = vec![0; n];
    s.read_exact(&mut p).ok()?;
    Some((h[3], p))
}
pub fn err(code: u16, msg: &str) -> Vec<u8> {
    let mut v = vec![0xff];
    v.extend_from_slice(&code.to_le_bytes());
    v.extend_from_slice(b"#HY000");
    v.extend_from_slice(msg.as_bytes());
    v
}
pub fn eof() -> Vec<u8> {
    vec![0xfe, 0, 0, 2, 0]
}
pub fn ok() -> Vec<u8> {
    vec![0, 0, 0, 2, 0, 0, 0]
}
fn lenstr(v: &mut Vec<u8>, s: &str) {
    v.push(s.len() as u8);
    v.extend_from_slice(s.as_bytes());
}
pub fn result(cells: &[&str]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![cells.len() as u8]];
    for _ in cells {
        let mut c = vec![];
        for s in ["def", "", "", "", "c", ""] {
            lenstr(&mut c, s);
        }
        c.extend_from_slice(&[12, 33, 0, 0, 1, 0, 0, 253, 0, 0, 31, 0, 0]);
        out.push(c);
    }
    out.push(eof());
    let mut r = vec![];
    for c in cells {
        lenstr(&mut r, c);
    }
    out.push(r);
    out.push(eof());
    out
}

pub fn serve(cfg: Cfg) -> (u16, Log) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let log = Log::default();
    let lg = log.clone();
    let next = Arc::new(Mutex::new(0usize));
    std::thread::spawn(move || {
        let mut n = 0;
        for s in l.incoming() {
            let Ok(s) = s else { continue };
            let (cfg, lg, next) = (cfg.clone(), lg.clone(), next.clone());
            let id = n;
            n += 1;
            std::thread::spawn(move || {
                let _ = session(s, id, cfg, lg, next);
            });
        }
    });
    (port, log)
}

fn session(mut s: TcpStream, id: usize, cfg: Cfg, log: Log, next: Arc<Mutex<usize>>) -> Option<()> {
    s.set_nodelay(true).ok()?;
    let caps: u64 = 0xf7ff & !(1 << 11) | (0x81ff << 16);
    let mut g = vec![10];
    g.extend_from_slice(cfg.version.as_bytes());
    g.push(0);
    g.extend_from_slice(&(id as u32 + 1).to_le_bytes());
    g.extend_from_slice(&cfg.scramble[..8]);
    g.push(0);
    g.extend_from_slice(&(caps as u16).to_le_bytes());
    g.extend_from_slice(&[33, 2, 0]);
    g.extend_from_slice(&((caps >> 16) as u16).to_le_bytes());
    g.push(21);
    g.extend_from_slice(&[0; 10]);
    g.extend_from_slice(&cfg.scramble[8..]);
    g.push(0);
    g.extend_from_slice(cfg.plugin.as_bytes());
    g.push(0);
    s.write_all(&frame(0, &g)).ok()?;
    for batch in &cfg.auth {
        let (mut seq, p) = recv(&mut s)?;
        log.0.lock().unwrap().push((id, p));
        for p in batch {
            seq = seq.wrapping_add(1);
            s.write_all(&frame(seq, p)).ok()?;
        }
    }
    loop {
        let (_, p) = recv(&mut s)?;
        log.0.lock().unwrap().push((id, p.clone()));
        let mut seq = 0u8;
        match p.first()? {
            1 => return None,
            3 => {
                let q = String::from_utf8_lossy(&p[1..]).to_string();
                let low = q.to_lowercase();
                let a = match cfg.answers.iter().find(|a| low.contains(&a.0)) {
                    Some(a) => a.1.clone(),
                    None if low.contains("show master status") => result(&[&cfg.status.0, &cfg.status.1.to_string(), "", "", ""]),
                    None if low.contains("select") => result(&[&cfg.checksum]),
                    None => vec![ok()],
                };
                for p in a {
                    seq = seq.wrapping_add(1);
                    s.write_all(&frame(seq, &p)).ok()?;
                }
            }
            0x12 | 0x1e => {
                let k = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                let steps = cfg.dumps.get(k).cloned().unwrap_or_default();
                for st in steps {
                    match st {
                        Step::Send(p) => {
                            seq = seq.wrapping_add(1);
                            s.write_all(&frame(seq, &p)).ok()?;
                        }
                        Step::Raw(b) => s.write_all(&b).ok()?,
                        Step::Sleep(ms) => std::thread::sleep(Duration::from_millis(ms)),
                        Step::Close => return None,
                        Step::Hold(ms) => {
                            std::thread::sleep(Duration::from_millis(ms));
                            return None;
                        }
                    }
                }
                return None;
            }
            _ => s.write_all(&frame(1, &ok())).ok()?,
        }
    }
}

// ---------- events ----------
pub struct Ev {
    pub ts: u32,
    pub typ: u8,
    pub server: u32,
    pub next: u32,
    pub flags: u16,
    pub body: Vec<u8>,
}
impl Ev {
    pub fn new(typ: u8, next: u32, body: Vec<u8>) -> Ev {
        Ev { ts: 1_600_000_000, typ, server: 1, next, flags: 0, body }
    }
    pub fn bytes(&self, crc: bool) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.ts.to_le_bytes());
        v.push(self.typ);
        v.extend_from_slice(&self.server.to_le_bytes());
        v.extend_from_slice(&(19 + self.body.len() as u32 + if crc { 4 } else { 0 }).to_le_bytes());
        v.extend_from_slice(&self.next.to_le_bytes());
        v.extend_from_slice(&self.flags.to_le_bytes());
        v.extend_from_slice(&self.body);
        if crc {
            let c = crc32(&v);
            v.extend_from_slice(&c.to_le_bytes());
        }
        v
    }
    pub fn packet(&self, crc: bool) -> Vec<u8> {
        let mut v = vec![0];
        v.extend(self.bytes(crc));
        v
    }
    pub fn send(&self) -> Step {
        Step::Send(self.packet(false))
    }
}
pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
pub fn rotate(file: &str, pos: u64, next: u32) -> Ev {
    let mut b = pos.to_le_bytes().to_vec();
    b.extend_from_slice(file.as_bytes());
    Ev::new(4, next, b)
}
/// format description; `alg` 0 none, 1 crc32. Always followed by a checksum.
pub fn fde(alg: u8, next: u32) -> Ev {
    let mut b = vec![4, 0];
    let mut v = b"8.0.33".to_vec();
    v.resize(50, 0);
    b.extend(v);
    b.extend_from_slice(&[0, 0, 0, 0, 19]);
    let mut t = vec![8u8; 41];
    t[14] = 57 + 41;
    b.extend(t);
    b.push(alg);
    Ev::new(15, next, b)
}
pub fn query(next: u32, sql: &str) -> Ev {
    let mut b = vec![7, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0];
    b.extend_from_slice(b"shop\0");
    b.extend_from_slice(sql.as_bytes());
    Ev::new(2, next, b)
}
pub fn xid(next: u32, x: u64) -> Ev {
    Ev::new(16, next, x.to_le_bytes().to_vec())
}
pub fn my_gtid(next: u32, uuid: [u8; 16], gno: u64) -> Ev {
    let mut b = vec![1];
    b.extend_from_slice(&uuid);
    b.extend_from_slice(&gno.to_le_bytes());
    Ev::new(33, next, b)
}
pub fn ma_gtid(next: u32, domain: u32, server: u32, seq: u64, flags: u8) -> Ev {
    let mut b = seq.to_le_bytes().to_vec();
    b.extend_from_slice(&domain.to_le_bytes());
    b.push(flags);
    b.extend_from_slice(&[0; 6]);
    let mut e = Ev::new(162, next, b);
    e.server = server;
    e
}
/// table with INT columns
pub fn map_ints(next: u32, id: u64, name: &str, cols: usize) -> Ev {
    map(next, id, name, &vec![3; cols], &[])
}
pub fn map(next: u32, id: u64, name: &str, types: &[u8], meta: &[u8]) -> Ev {
    let mut b = id.to_le_bytes()[..6].to_vec();
    b.extend_from_slice(&[1, 0, 4]);
    b.extend_from_slice(b"shop\0");
    b.push(name.len() as u8);
    b.extend_from_slice(name.as_bytes());
    b.push(0);
    b.push(types.len() as u8);
    b.extend_from_slice(types);
    b.push(meta.len() as u8);
    b.extend_from_slice(meta);
    b.extend(vec![0xff; (types.len() + 7) / 8]);
    Ev::new(19, next, b)
}
/// WRITE_ROWS v1 with INT columns
pub fn write_ints(next: u32, id: u64, rows: &[&[u32]], end: bool) -> Ev {
    let mut b = id.to_le_bytes()[..6].to_vec();
    b.extend_from_slice(&[end as u8, 0]);
    let n = rows[0].len();
    b.push(n as u8);
    b.extend(vec![0xff; (n + 7) / 8]);
    for r in rows {
        b.extend(vec![0; (n + 7) / 8]);
        for v in *r {
            b.extend_from_slice(&v.to_le_bytes());
        }
    }
    Ev::new(23, next, b)
}
pub fn heartbeat(file: &str, pos: u32) -> Ev {
    Ev::new(27, pos, file.as_bytes().to_vec())
}
/// A binlog file in the demo's scratch directory.
pub fn file(name: &str, evs: &[Vec<u8>]) -> std::fs::File {
    let dir = std::env::var("DEMO_DIR").unwrap_or_else(|_| ".".into());
    let p = format!("{}/{}", dir, name);
    let mut v = vec![0xfe, 0x62, 0x69, 0x6e];
    for e in evs {
        v.extend_from_slice(e);
    }
    std::fs::write(&p, v).unwrap();
    std::fs::File::open(&p).unwrap()
}

use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::replica_options::ReplicaOptions;
pub fn options(port: u16, binlog: BinlogOptions) -> ReplicaOptions {
    ReplicaOptions {
        hostname: "127.0.0.1".into(),
        port,
        username: "root".into(),
        password: "Secret123".into(),
        heartbeat_interval: Duration::from_secs(1),
        binlog,
        ..Default::default()
    }
}
pub fn fail(msg: &str) -> ! {
    println!("PROPERTY BROKEN: {}", msg);
    std::process::exit(1)
}
