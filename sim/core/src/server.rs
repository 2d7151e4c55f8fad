//! Model MySQL / MariaDB server: handshake, authentication, the few statements a
//! replica issues, and the binlog dump thread. Written from the protocol
//! documentation, sharing no code with the library under test.
use crate::binlog::*;
use crate::canon::*;
use crate::choice::Choices;
use crate::gen::*;
use crate::world::*;
use openssl::hash::{hash, MessageDigest};
use openssl::rsa::{Padding, Rsa};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const NATIVE: &str = "mysql_native_password";
pub const SHA2: &str = "caching_sha2_password";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Init,
    AwaitAuth,
    AwaitSwitch,
    AwaitPubkeyReq,
    AwaitRsa,
    Ready,
    Dumping,
    Closed,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub ev: Rc<CEvent>,
    pub tx: u32,
    pub k: u32,
    pub last: bool,
    /// position in the server's whole log, 0 for events made up for the stream
    pub seq: u32,
    pub file: Rc<str>,
    pub corrupted: bool,
    pub at: u64,
}

#[derive(Clone, Debug)]
pub enum Item {
    Ev(Sent),
    Err(u16, String),
    Eof,
    /// packet replaced by damaged bytes
    Damaged,
    /// event of this type whose body was damaged
    Hurt(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub struct DumpReq {
    pub gtid: bool,
    pub file: String,
    pub pos: u64,
    pub server_id: u32,
    pub flags: u16,
    pub set: Option<GSet>,
    pub ma: Option<MaState>,
    pub ma_text: String,
}

pub struct Session {
    pub st: St,
    pub inbuf: Vec<u8>,
    pub seq: u8,
    pub scramble: Vec<u8>,
    pub plugin: &'static str,
    pub user: String,
    pub account: Option<usize>,
    pub authed: bool,
    pub hb_ns: u64,
    pub checksum: Option<u8>,
    pub checksum_set: bool,
    pub capability: Option<String>,
    pub strict: bool,
    pub connect_state: Option<String>,
    pub registered: bool,
    pub nonblock: bool,
    pub fidx: usize,
    pub eidx: usize,
    pub need_rotate: bool,
    pub start_pos: u64,
    pub alg: u8,
    pub set: Option<GSet>,
    pub ma: Option<MaState>,
    pub skipped_to: Option<u32>,
    pub pump_pending: bool,
    pub at_head: bool,
    pub hb_gen: u64,
    pub out: Vec<Item>,
    pub stages: Vec<&'static str>,
    pub dump: Option<DumpReq>,
    pub lookup: Option<(String, u32)>,
    /// bytes produced when the reply to the lookup was complete
    pub lookup_end: Option<u64>,
    /// error packet sent by the server: code, text, stage
    pub err: Option<(u16, String, &'static str)>,
    pub stage: &'static str,
    pub hb_sent: u64,
    pub auth_path: &'static str,
    pub result_mode: bool,
}

impl Session {
    pub fn new() -> Session {
        Session {
            st: St::Init,
            inbuf: vec![],
            seq: 0,
            scramble: vec![],
            plugin: NATIVE,
            user: String::new(),
            account: None,
            authed: false,
            hb_ns: 0,
            checksum: None,
            checksum_set: false,
            capability: None,
            strict: false,
            connect_state: None,
            registered: false,
            nonblock: false,
            fidx: 0,
            eidx: 0,
            need_rotate: false,
            start_pos: 4,
            alg: 0,
            set: None,
            ma: None,
            skipped_to: None,
            pump_pending: false,
            at_head: false,
            hb_gen: 0,
            out: vec![],
            stages: vec![],
            dump: None,
            lookup: None,
            lookup_end: None,
            err: None,
            stage: "greeting",
            hb_sent: 0,
            auth_path: "",
            result_mode: false,
        }
    }
}

pub struct Server {
    pub idx: usize,
    pub id: u32,
    pub uuid: [u8; 16],
    pub up: bool,
    pub flavour: Flavour,
    pub version: String,
    pub n_types: u8,
    pub files: Vec<BFile>,
    pub first: usize,
    pub alg: u8,
    pub prefix: String,
    pub file_no: u32,
    pub log_seq: u32,
    pub srv_ts: u32,
    pub my: GSet,
    pub ma: MaState,
    pub table_ids: BTreeMap<u32, u64>,
    pub next_table_id: u64,
    /// (last id before the first one given out, step)
    pub table_base: (u64, u64),
    /// the definition last logged under each id
    pub mapped: BTreeMap<u64, u32>,
    pub default_plugin: &'static str,
    /// index into RSA_KEYS, or none: server without a key pair
    pub rsa: Option<usize>,
    /// (log_seq, file index, event index) for every logged event
    pub log: Vec<(u32, u32)>,
    pub applied: Vec<bool>,
    pub script_left: u64,
    pub cached: Vec<bool>,
    pub start_count: u32,
}

pub const RSA_KEYS: [(&str, &str); 4] = [
    (include_str!("../keys/k1.pem"), include_str!("../keys/p1.pem")),
    (include_str!("../keys/k2.pem"), include_str!("../keys/p2.pem")),
    (include_str!("../keys/k3.pem"), include_str!("../keys/p3.pem")),
    (include_str!("../keys/k4.pem"), include_str!("../keys/p4.pem")),
];

fn sha1(d: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha1(), d).unwrap().to_vec()
}
fn sha256(d: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha256(), d).unwrap().to_vec()
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b.iter().cycle()).map(|(x, y)| x ^ y).collect()
}
pub fn native_token(pass: &[u8], scramble: &[u8]) -> Vec<u8> {
    let h1 = sha1(pass);
    let h2 = sha1(&h1);
    xor(&h1, &sha1(&[scramble, &h2[..]].concat()))
}
/// XOR(SHA256(password), SHA256(SHA256(SHA256(password)), nonce))
pub fn sha2_token(pass: &[u8], nonce: &[u8]) -> Vec<u8> {
    let h1 = sha256(pass);
    let h2 = sha256(&h1);
    xor(&h1, &sha256(&[&h2[..], nonce].concat()))
}

pub fn squash(sql: &str) -> String {
    let mut s = String::new();
    let mut sp = false;
    for c in sql.trim().trim_end_matches(';').chars() {
        if c.is_whitespace() {
            sp = true;
            continue;
        }
        if sp && !s.is_empty() && !matches!(c, '=' | ',' | ')' | '(') && !s.ends_with(['=', ',', '(', ')']) {
            s.push(' ');
        }
        sp = false;
        s.push(c);
    }
    s
}

pub fn parse_gset(d: &[u8]) -> Option<(GSet, bool)> {
    // (set, well formed canonical encoding)
    let mut p = 0usize;
    let rd = |p: &mut usize| -> Option<u64> {
        let v = u64::from_le_bytes(d.get(*p..*p + 8)?.try_into().ok()?);
        *p += 8;
        Some(v)
    };
    let n = rd(&mut p)?;
    let mut s = GSet::default();
    let mut ok = true;
    for _ in 0..n {
        let u: [u8; 16] = d.get(p..p + 16)?.try_into().ok()?;
        p += 16;
        let m = rd(&mut p)?;
        let mut last = 0u64;
        if s.0.contains_key(&u) {
            ok = false;
        }
        for _ in 0..m {
            let a = rd(&mut p)?;
            let b = rd(&mut p)?;
            // the server rejects empty, unordered or overlapping intervals
            if a == 0 || b <= a || a <= last {
                ok = false;
            }
            if b > a {
                s.add_range(u, a, b - 1);
            }
            last = b;
        }
    }
    if p != d.len() {
        ok = false;
    }
    Some((s, ok))
}

pub fn parse_ma(t: &str) -> Option<MaState> {
    let mut m = MaState::new();
    if t.is_empty() {
        return Some(m);
    }
    for g in t.split(',') {
        let v: Vec<&str> = g.trim().split('-').collect();
        if v.len() != 3 {
            return None;
        }
        if m.insert(v[0].parse().ok()?, (v[1].parse().ok()?, v[2].parse().ok()?)).is_some() {
            return None;
        }
    }
    Some(m)
}

/// Damages a byte string (payload of a packet, or a file image).
pub fn damage(ch: &mut Choices, label: &'static str, id: u32, d: &mut Vec<u8>, from: usize) {
    let n = d.len().saturating_sub(from);
    let edges = [0u64, 1, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff];
    let at = |ch: &mut Choices, n: usize| -> usize {
        if n == 0 {
            return 0;
        }
        // bias towards the beginning, where the structure is
        if ch.draw(label, id, 2) == 0 {
            ch.draw(label, id, n.min(64) as u64) as usize
        } else {
            ch.draw(label, id, n as u64) as usize
        }
    };
    match ch.draw(label, id, 9) {
        0 if n > 0 => {
            let p = from + at(ch, n);
            d[p] = edges[ch.draw(label, id, 10) as usize] as u8;
        }
        1 if n > 0 => {
            let p = from + at(ch, n);
            d[p] ^= 1 << ch.draw(label, id, 8);
        }
        2 => {
            let keep = from + at(ch, n + 1);
            d.truncate(keep);
        }
        3 => d.truncate(from),
        4 if n > 0 => {
            let p = from + at(ch, n);
            let c = 1 + ch.draw(label, id, 8) as usize;
            let e = (p + c).min(d.len());
            d.drain(p..e);
        }
        5 => {
            let p = from + at(ch, n + 1);
            let c = 1 + ch.draw(label, id, 8) as usize;
            let b = edges[ch.draw(label, id, 10) as usize] as u8;
            for _ in 0..c {
                d.insert(p, b);
            }
        }
        6 if n > 0 => {
            // a whole integer field set to an extreme
            let p = from + at(ch, n);
            let w = [2usize, 3, 4, 8][ch.draw(label, id, 4) as usize];
            let v = [0u64, u64::MAX, 0x7fff_ffff_ffff_ffff, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000][ch.draw(label, id, 6) as usize];
            let e = (p + w).min(d.len());
            for (i, x) in d[p..e].iter_mut().enumerate() {
                *x = v.to_le_bytes()[i];
            }
        }
        7 => {
            let p = from + at(ch, n + 1);
            for i in 0..(1 + ch.draw(label, id, 24) as usize) {
                let b = ch.draw(label, id, 256) as u8;
                if p + i < d.len() {
                    d[p + i] = b;
                } else {
                    d.push(b);
                }
            }
        }
        _ if n > 0 => {
            // length-encoded integer claiming a huge size
            let p = from + at(ch, n);
            let v = [0xfcu8, 0xfd, 0xfe][ch.draw(label, id, 3) as usize];
            d[p] = v;
            for i in 1..9 {
                if p + i < d.len() && i <= [2usize, 3, 8][(v - 0xfc) as usize] {
                    d[p + i] = if i < 6 { 0xff } else { 0 };
                }
            }
        }
        _ => d.extend_from_slice(&[0xff; 4]),
    }
}

impl World {
    pub fn server_side_closed(&mut self, ci: usize) {
        let s = &mut self.conns[ci].sess;
        s.st = St::Closed;
        s.hb_gen += 1;
    }

    pub fn shut_conn(&mut self, ci: usize, e: End) {
        if self.conns[ci].sess.st == St::Closed {
            return;
        }
        self.server_side_closed(ci);
        self.send_end(ci, e, false);
    }

    /// Sends one packet; false when the plan replaced it by an error packet.
    fn packet(&mut self, ci: usize, payload: &[u8]) -> bool {
        let plan_hit = {
            let c = &self.conns[ci];
            c.plan.kind == Some(Fault::ServerErr) && !c.plan_fired && c.s2c_pkts >= c.plan.pkt && !c.muted
        };
        if plan_hit {
            self.conns[ci].plan_fired = true;
            let code = self.conns[ci].plan.code;
            let n = self.conns[ci].plan.sub;
            let stage = self.conns[ci].sess.stage;
            self.fault("server error packet");
            self.note(format!("conn{} error injected at {}", ci, stage));
            let mut msg = format!("simulated failure {} at packet {}", 7000 + n as u32 * 13 + code as u32, self.conns[ci].s2c_pkts);
            if self.cfg.wide {
                match self.ch.draw("srv.errtext", ci as u32, 8) {
                    // a server whose messages are in another character set
                    6 => {
                        let mut b = msg.into_bytes();
                        b.extend_from_slice(b" caf\xe9 na\xefve");
                        self.send_err_bytes(ci, code, &b);
                        return false;
                    }
                    7 => msg.clear(),
                    1 => msg = format!("Сбой {}: 失敗", msg),
                    2 => msg = format!("{}; {}", msg, "details ".repeat(60)),
                    3 => msg = format!("{} #1 near '\"x\"' at line 1", msg),
                    4 => msg = format!("{}é", msg),
                    _ => {}
                }
            }
            self.send_err(ci, code, &msg);
            return false;
        }
        self.raw_packet(ci, payload.to_vec(), true);
        true
    }

    fn raw_packet(&mut self, ci: usize, mut payload: Vec<u8>, may_damage: bool) -> bool {
        let seq = self.conns[ci].sess.seq;
        self.conns[ci].sess.seq = seq.wrapping_add(1);
        let mut damaged = false;
        let barrage = self.cfg.barrage && self.cfg.corrupt_p.0 > 0;
        let cp = match (barrage, self.conns[ci].unsolicited) {
            (true, true) => (1, 2),
            (true, false) => (0, 1),
            _ => self.cfg.corrupt_p,
        };
        let mut hdr_delta: Option<u32> = None;
        let mut seq_out = seq;
        if may_damage && self.faults_on && cp.0 > 0 && self.ch.chance("corrupt", ci as u32, cp.0, cp.1) {
            damaged = true;
            self.fault("packet damaged");
            self.conns[ci].corrupted += 1;
            match if barrage && !self.ch.chance("corrupt.hard", ci as u32, 1, 60) { 15 } else { self.ch.draw("corrupt.how", ci as u32, 16) } {
                0 => {
                    hdr_delta = Some(self.ch.draw("corrupt.hdr", ci as u32, 1 << 24) as u32);
                    // a receiver rightly waits for as many bytes as are announced; heartbeats
                    // trickling in for weeks would only prolong that
                    self.conns[ci].mute = true;
                }
                1 => seq_out = self.ch.draw("corrupt.seq", ci as u32, 256) as u8,
                2 => {
                    let l = self.ch.draw("corrupt.len", ci as u32, 80) as usize;
                    payload = (0..l).map(|_| self.ch.draw("corrupt.rnd", ci as u32, 256) as u8).collect();
                }
                3 => payload.extend(payload.clone()),
                k => {
                    // keep the status byte of most packets so the damage reaches the parsers
                    let from = if payload.is_empty() || k < 6 { 0 } else { 1 };
                    let times = 1 + self.ch.draw("corrupt.n", ci as u32, 3);
                    for _ in 0..times {
                        damage(&mut self.ch, "corrupt.m", ci as u32, &mut payload, from);
                    }
                }
            }
            payload.truncate((1 << 24) - 2);
        }
        let mut w = W::new();
        w.le(hdr_delta.unwrap_or(payload.len() as u32) as u64, 3).u8(seq_out).b(&payload);
        if !self.conns[ci].unsolicited {
            self.conns[ci].unread += w.0.len() as u64;
        }
        self.net_s2c(ci, w.0);
        damaged
    }

    pub fn send_err(&mut self, ci: usize, code: u16, msg: &str) {
        self.send_err_bytes(ci, code, msg.as_bytes())
    }

    fn send_err_bytes(&mut self, ci: usize, code: u16, text: &[u8]) {
        let msg = &*String::from_utf8_lossy(text);
        let st = self.conns[ci].sess.st;
        let mut w = W::new();
        w.u8(0xff).le(code as u64, 2);
        if st != St::Init {
            let state = if self.cfg.wide { ["#HY000", "#28000", "#42S02", "#08S01"][code as usize % 4] } else { "#HY000" };
            w.b(state.as_bytes());
        }
        w.b(text);
        let stage = self.conns[ci].sess.stage;
        self.conns[ci].sess.err = Some((code, msg.to_string(), stage));
        self.note(format!("conn{} server error {} {} ({})", ci, code, msg, stage));
        self.probe(crate::choice::intern(&format!("error at stage: {}", stage)));
        let d = self.raw_packet(ci, w.0, true);
        if st == St::Dumping {
            self.sent(ci, if d { Item::Damaged } else { Item::Err(code, msg.to_string()) });
        }
        self.conns[ci].replies_done += 1;
        if st == St::Ready {
            self.conns[ci].sess.stage = "ready";
        } else {
            self.shut_conn(ci, End::Fin);
        }
    }

    fn ok_packet() -> Vec<u8> {
        vec![0, 0, 0, 2, 0, 0, 0]
    }

    fn new_scramble(&mut self, ci: usize) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..20 {
            let mut b = 1 + self.ch.draw("srv.scramble", ci as u32, 126) as u8;
            if b == b'$' {
                b += 1;
            }
            v.push(b);
        }
        v
    }

    pub fn accept(&mut self, ci: usize) {
        let scr = self.new_scramble(ci);
        let sv = &self.servers[self.conns[ci].server];
        let (version, plugin, maria) = (sv.version.clone(), sv.default_plugin, sv.flavour == Flavour::Maria);
        self.conns[ci].sess.scramble = scr.clone();
        self.conns[ci].sess.plugin = plugin;
        let mut w = W::new();
        // MariaDB 11 no longer hides behind a 5.5.5 prefix
        let shown = if maria && !version.starts_with("11") { format!("5.5.5-{}", version) } else { version };
        let mut caps: u64 = 0xf7ff & !(1 << 11) | (0x81ff << 16);
        let (mut id, mut coll, mut status) = (1000 + ci as u64, 33u8, 2u64);
        if self.cfg.wide {
            // set-ups differ: TLS offered, optional capabilities, default collation, thread ids
            let r = &mut crate::choice::Rng::new(self.ch.draw("srv.greeting", ci as u32, 1 << 40));
            if r.below(2) == 1 && !self.cfg.no_tls {
                caps |= 1 << 11;
            }
            if r.below(3) == 0 {
                caps &= !((1 << 24) | (1 << 23) | (1 << 22) | (1 << 5) | (1 << 7));
            }
            id = [id, 0xffff_ffff, 0x8000_0001, 0x1_0000][r.below(4) as usize];
            coll = [33, 255, 8, 45, 224][r.below(5) as usize];
            status = [2, 0, 0x4002][r.below(3) as usize];
        }
        w.u8(10).b(shown.as_bytes()).u8(0).le(id, 4).b(&scr[..8]).u8(0);
        w.le(caps & 0xffff, 2).u8(coll).le(status, 2).le(caps >> 16, 2).u8(21).b(&[0; 6]);
        w.le(if maria { 0x1d } else { 0 }, 4).b(&scr[8..]).u8(0).b(plugin.as_bytes()).u8(0);
        if self.packet(ci, &w.0) {
            self.conns[ci].replies_done += 1;
            self.conns[ci].sess.st = St::AwaitAuth;
            self.conns[ci].sess.stage = "authentication";
        }
    }

    pub fn on_server_data(&mut self, ci: usize, data: Vec<u8>) {
        if self.conns[ci].sess.st == St::Closed {
            return;
        }
        self.conns[ci].sess.inbuf.extend_from_slice(&data);
        loop {
            let s = &mut self.conns[ci].sess;
            if s.st == St::Closed || s.inbuf.len() < 4 {
                return;
            }
            let n = s.inbuf[0] as usize | (s.inbuf[1] as usize) << 8 | (s.inbuf[2] as usize) << 16;
            if s.inbuf.len() < 4 + n {
                return;
            }
            let seq = s.inbuf[3];
            let payload: Vec<u8> = s.inbuf[4..4 + n].to_vec();
            s.inbuf.drain(..4 + n);
            self.on_frame(ci, seq, payload);
        }
    }

    fn on_frame(&mut self, ci: usize, seq: u8, p: Vec<u8>) {
        let st = self.conns[ci].sess.st;
        self.mix(20, st as u64, p.len() as u64);
        let damaged = self.conns[ci].corrupted > 0;
        match st {
            St::AwaitAuth | St::AwaitSwitch | St::AwaitPubkeyReq | St::AwaitRsa => {
                let want = self.conns[ci].sess.seq;
                if seq != want && !damaged {
                    if seq == 0 {
                        self.monitor("command-before-auth", format!("conn{} request {:02x?}... with sequence 0 while authentication is in progress", ci, &p[..p.len().min(12)]));
                    } else {
                        self.monitor("bad-sequence", format!("conn{} authentication packet has sequence number {}, expected {}", ci, seq, want));
                    }
                }
                self.conns[ci].sess.seq = seq.wrapping_add(1);
                match st {
                    St::AwaitAuth => self.auth_response(ci, p),
                    St::AwaitSwitch => {
                        self.conns[ci].sess.stage = "authentication after plugin switch";
                        self.check_token(ci, p)
                    }
                    St::AwaitPubkeyReq => self.pubkey_request(ci, p),
                    _ => self.rsa_response(ci, p),
                }
            }
            St::Ready => {
                if seq != 0 && !damaged {
                    self.monitor("bad-sequence", format!("conn{} command has sequence number {}", ci, seq));
                }
                self.conns[ci].sess.seq = 1;
                self.command(ci, p);
            }
            St::Dumping => {
                if p.first() == Some(&1) {
                    self.shut_conn(ci, End::Fin);
                } else if !damaged {
                    self.monitor("request-during-dump", format!("conn{} sends {:02x?} during the dump", ci, &p[..p.len().min(12)]));
                }
            }
            St::Init => {
                if !damaged {
                    self.monitor("request-before-greeting", format!("conn{} sends {} bytes before the greeting", ci, p.len()));
                }
            }
            St::Closed => {}
        }
    }

    fn bad(&mut self, ci: usize, why: String) {
        if self.conns[ci].corrupted == 0 {
            self.monitor("bad-request", format!("conn{}: {}", ci, why));
        }
    }
    fn content(&mut self, ci: usize, why: String) {
        if self.conns[ci].corrupted == 0 {
            self.monitor("request-content", format!("conn{}: {}", ci, why));
        }
    }

    fn auth_response(&mut self, ci: usize, p: Vec<u8>) {
        let parsed = (|| {
            let caps = u32::from_le_bytes(p.get(0..4)?.try_into().ok()?);
            let mut at = 32;
            let z = |at: &mut usize| -> Option<Vec<u8>> {
                let rest = p.get(*at..)?;
                let n = rest.iter().position(|b| *b == 0)?;
                *at += n + 1;
                Some(rest[..n].to_vec())
            };
            let user = z(&mut at)?;
            let n = *p.get(at)? as usize;
            let token = p.get(at + 1..at + 1 + n)?.to_vec();
            at += 1 + n;
            let mut db = None;
            if caps & 8 != 0 {
                db = Some(z(&mut at)?);
            }
            let mut plugin = None;
            if caps & (1 << 19) != 0 {
                plugin = Some(z(&mut at)?);
            }
            Some((caps, user, token, db, plugin, at))
        })();
        let Some((caps, user, token, db, plugin, used)) = parsed else {
            self.bad(ci, format!("malformed handshake response of {} bytes", p.len()));
            self.send_err(ci, 1043, "Bad handshake");
            return;
        };
        if used != p.len() && caps & (1 << 20) == 0 {
            self.bad(ci, format!("{} stray bytes after the handshake response", p.len() - used));
        }
        if caps & 0x8200 != 0x8200 {
            self.bad(ci, format!("capabilities {:x} lack PROTOCOL_41 / SECURE_CONNECTION", caps));
        }
        if p[9..32].iter().any(|b| *b != 0) {
            self.bad(ci, "reserved bytes of the handshake response are not zero".into());
        }
        let ex = self.expects[self.conns[ci].client].clone();
        if user != ex.user.as_bytes() {
            self.content(ci, format!("user {:?} sent, {:?} configured", String::from_utf8_lossy(&user), ex.user));
        }
        // an empty name is no database
        if db.as_deref().filter(|x| !x.is_empty()) != ex.db.as_ref().map(|s| s.as_bytes()).filter(|x| !x.is_empty()) {
            self.content(ci, format!("database {:?} sent, {:?} configured", db.as_ref().map(|d| String::from_utf8_lossy(d).to_string()), ex.db));
        }
        if self.rogue && self.ch.chance("srv.rogue", ci as u32, 1, 2) {
            // a server that asks for the password in some other way
            let k = self.ch.draw("srv.roguekind", ci as u32, 6) as usize;
            let name: &str = ["mysql_clear_password", "sha256_password", "dialog", "mysql_old_password", "auth_gssapi_client", ""][k];
            let mut w = W::new();
            let scr = self.conns[ci].sess.scramble.clone();
            w.u8(0xfe).b(name.as_bytes()).u8(0).b(&scr).u8(0);
            self.fault("server asks for an unsupported plugin");
            self.conns[ci].corrupted += 1;
            if self.packet(ci, &w.0) {
                self.conns[ci].replies_done += 1;
                self.conns[ci].sess.st = St::AwaitSwitch;
            }
            return;
        }
        let default = self.conns[ci].sess.plugin;
        let claimed = plugin.unwrap_or_else(|| NATIVE.as_bytes().to_vec());
        if claimed != default.as_bytes() {
            self.content(ci, format!("auth plugin {:?} sent, server proposed {}", String::from_utf8_lossy(&claimed), default));
        }
        let user = String::from_utf8_lossy(&user).to_string();
        self.conns[ci].sess.user = user.clone();
        let acc = self.accounts.iter().position(|a| a.user == user);
        self.conns[ci].sess.account = acc;
        let want = acc.map_or(default, |a| self.accounts[a].plugin);
        if want != default {
            let scr = self.new_scramble(ci);
            let s = &mut self.conns[ci].sess;
            s.scramble = scr.clone();
            s.plugin = want;
            s.stage = "plugin switch";
            let mut w = W::new();
            w.u8(0xfe).b(want.as_bytes()).u8(0).b(&scr).u8(0);
            if self.packet(ci, &w.0) {
                self.conns[ci].replies_done += 1;
                self.conns[ci].sess.st = St::AwaitSwitch;
                self.probe("auth: plugin switch");
            }
            return;
        }
        self.check_token(ci, token)
    }

    fn denied(&mut self, ci: usize) {
        let user = self.conns[ci].sess.user.clone();
        self.send_err(ci, 1045, &format!("Access denied for user {}", user));
    }

    fn granted(&mut self, ci: usize, path: &'static str) {
        if self.packet(ci, &Self::ok_packet()) {
            let s = &mut self.conns[ci].sess;
            s.authed = true;
            s.st = St::Ready;
            s.stage = "ready";
            s.auth_path = path;
            self.conns[ci].replies_done += 1;
            self.probe(path);
        }
    }

    fn check_token(&mut self, ci: usize, token: Vec<u8>) {
        let (plugin, scr) = (self.conns[ci].sess.plugin, self.conns[ci].sess.scramble.clone());
        let acc = self.conns[ci].sess.account;
        let pass = acc.map(|a| self.accounts[a].pass.clone());
        let empty = token.is_empty() || (plugin == SHA2 && token == [0]);
        if empty {
            // only an account without a password may be opened this way
            match pass {
                Some(p) if p.is_empty() => self.granted(ci, "auth: empty password"),
                _ => self.denied(ci),
            }
            return;
        }
        let want_len = if plugin == NATIVE { 20 } else { 32 };
        if token.len() != want_len {
            self.bad(ci, format!("{} response of {} bytes", plugin, token.len()));
            self.denied(ci);
            return;
        }
        match pass {
            Some(p) if p.is_empty() => return self.denied(ci),
            None if plugin == NATIVE => return self.denied(ci),
            _ => {}
        }
        if plugin == NATIVE {
            if native_token(pass.unwrap().as_bytes(), &scr) == token {
                self.granted(ci, "auth: native");
            } else {
                self.denied(ci);
            }
            return;
        }
        let sv = self.conns[ci].server;
        let cached = acc.map_or(false, |a| self.servers[sv].cached[a]);
        if cached && sha2_token(pass.unwrap().as_bytes(), &scr) == token {
            self.conns[ci].sess.stage = "cached authentication";
            if self.packet(ci, &[1, 3]) {
                self.granted(ci, "auth: sha2 cached");
            }
            return;
        }
        self.conns[ci].sess.stage = "full authentication";
        if self.packet(ci, &[1, 4]) {
            self.conns[ci].replies_done += 1;
            self.conns[ci].sess.st = St::AwaitPubkeyReq;
        }
    }

    fn pubkey_request(&mut self, ci: usize, p: Vec<u8>) {
        if p != [2] {
            self.bad(ci, format!("{} bytes instead of a public key request", p.len()));
            self.denied(ci);
            return;
        }
        self.conns[ci].sess.stage = "public key request";
        match self.servers[self.conns[ci].server].rsa {
            None => {
                self.probe("auth: server without key pair");
                self.denied(ci)
            }
            Some(k) => {
                let mut w = vec![1u8];
                w.extend_from_slice(RSA_KEYS[k].1.as_bytes());
                if self.packet(ci, &w) {
                    self.conns[ci].replies_done += 1;
                    self.conns[ci].sess.st = St::AwaitRsa;
                }
            }
        }
    }

    fn rsa_response(&mut self, ci: usize, p: Vec<u8>) {
        thread_local! { static KEYS: Vec<Rsa<openssl::pkey::Private>> =
            RSA_KEYS.iter().map(|k| Rsa::private_key_from_pem(k.0.as_bytes()).unwrap()).collect(); }
        self.conns[ci].sess.stage = "encrypted password";
        let Some(k) = self.servers[self.conns[ci].server].rsa else { return self.denied(ci) };
        let plain = KEYS.with(|keys| {
            let rsa = &keys[k];
            if p.len() != rsa.size() as usize {
                return None;
            }
            let mut out = vec![0u8; rsa.size() as usize];
            match rsa.private_decrypt(&p, &mut out, Padding::PKCS1_OAEP) {
                Ok(n) => {
                    out.truncate(n);
                    Some(out)
                }
                Err(_) => None,
            }
        });
        let Some(plain) = plain else {
            self.bad(ci, format!("{} bytes that are not an OAEP message under the server's key", p.len()));
            return self.denied(ci);
        };
        let scr = self.conns[ci].sess.scramble.clone();
        let clear = xor(&plain, &scr);
        let acc = self.conns[ci].sess.account;
        let good = match (acc, clear.split_last()) {
            (Some(a), Some((0, pw))) => pw == self.accounts[a].pass.as_bytes(),
            _ => false,
        };
        if good {
            let sv = self.conns[ci].server;
            self.servers[sv].cached[acc.unwrap()] = true;
            self.granted(ci, "auth: sha2 full");
        } else {
            self.denied(ci);
        }
    }

    // ---------- commands ----------
    fn command(&mut self, ci: usize, p: Vec<u8>) {
        match p.first() {
            Some(1) => self.shut_conn(ci, End::Fin),
            Some(3) => match std::str::from_utf8(&p[1..]) {
                Ok(s) => self.query(ci, &squash(s)),
                Err(_) => {
                    self.bad(ci, "query is not UTF-8".into());
                    self.send_err(ci, 1064, "bad query");
                }
            },
            Some(14) => self.simple_ok(ci, "ping"),
            Some(21) => self.register(ci, p),
            Some(18) => self.dump_pos(ci, p),
            Some(30) => self.dump_gtid(ci, p),
            other => {
                self.bad(ci, format!("unknown command {:?}", other));
                self.send_err(ci, 1047, "Unknown command");
            }
        }
    }

    fn simple_ok(&mut self, ci: usize, stage: &'static str) {
        self.conns[ci].sess.stage = stage;
        self.conns[ci].sess.stages.push(stage);
        if self.packet(ci, &Self::ok_packet()) {
            self.conns[ci].replies_done += 1;
        }
        self.conns[ci].sess.stage = "ready";
    }

    fn result_set(&mut self, ci: usize, stage: &'static str, cols: &[&str], rows: &[Vec<Option<String>>]) {
        self.conns[ci].sess.stage = stage;
        self.conns[ci].sess.stages.push(stage);
        let mut pk: Vec<Vec<u8>> = vec![vec![cols.len() as u8]];
        for c in cols {
            let mut w = W::new();
            w.lenstr(b"def").lenstr(b"").lenstr(b"").lenstr(b"").lenstr(c.as_bytes()).lenstr(b"");
            w.u8(12).le(33, 2).le(765, 4).u8(253).le(0, 2).u8(31).le(0, 2);
            pk.push(w.0);
        }
        let eof = vec![0xfe, 0, 0, 2, 0];
        pk.push(eof.clone());
        for r in rows {
            let mut w = W::new();
            for c in r {
                match c {
                    Some(s) => w.lenstr(s.as_bytes()),
                    None => w.u8(0xfb),
                };
            }
            pk.push(w.0);
        }
        pk.push(eof);
        for x in &pk {
            if !self.packet(ci, x) {
                return;
            }
        }
        self.conns[ci].replies_done += 1;
        self.conns[ci].sess.stage = "ready";
    }

    fn query(&mut self, ci: usize, sql: &str) {
        let low = sql.to_ascii_lowercase();
        self.note(format!("conn{} query {}", ci, sql));
        let sv = self.conns[ci].server;
        if low == "show master status" {
            let f = self.servers[sv].files.last().unwrap();
            let (name, pos) = (f.name.clone(), f.size);
            let mut row = vec![Some(name.clone()), Some(pos.to_string()), Some("".into()), Some("".into())];
            let mut cols = vec!["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB"];
            if self.servers[sv].flavour == Flavour::MySql {
                cols.push("Executed_Gtid_Set");
                // the server puts each source on a line of its own
                row.push(Some(self.servers[sv].my.text().replace(',', ",\n")));
            }
            if self.cfg.wide {
                // replication filters can make these long
                let l = [0usize, 1, 250, 251, 252, 255, 256, 65_535, 65_536, 70_000];
                for k in 2..4 {
                    let n = l[self.ch.draw("srv.filter", ci as u32, l.len() as u64) as usize];
                    row[k] = Some("d".repeat(n));
                }
            }
            self.conns[ci].sess.lookup = Some((name, pos));
            let done = self.conns[ci].replies_done;
            let errs = self.conns[ci].sess.err.is_some();
            self.result_set(ci, "show master status", &cols, &[row]);
            let c = &mut self.conns[ci];
            if c.replies_done > done && c.sess.err.is_some() == errs && !c.muted {
                c.sess.lookup_end = Some(c.produced);
            }
            return;
        }
        if low == "select @master_binlog_checksum" {
            let v = self.conns[ci].sess.checksum.map(|c| if c == 1 { "CRC32" } else { "NONE" }.to_string());
            self.result_set(ci, "select checksum", &["@master_binlog_checksum"], &[vec![v]]);
            return;
        }
        let var = |name: &str| low.strip_prefix(name).and_then(|r| r.strip_prefix('=')).map(|r| sql[sql.len() - r.len()..].to_string());
        if let Some(v) = var("set @master_heartbeat_period") {
            match v.parse::<u64>() {
                Ok(n) => self.conns[ci].sess.hb_ns = n,
                Err(_) => self.bad(ci, format!("heartbeat period {:?}", v)),
            }
            return self.simple_ok(ci, "set heartbeat");
        }
        if let Some(v) = var("set @master_binlog_checksum") {
            let val = match v.to_ascii_lowercase().trim_matches('\'') {
                "@@global.binlog_checksum" => self.servers[sv].alg,
                "none" => 0,
                "crc32" => 1,
                _ => {
                    self.bad(ci, format!("checksum setting {:?}", v));
                    0
                }
            };
            self.conns[ci].sess.checksum = Some(val);
            return self.simple_ok(ci, "set checksum");
        }
        if let Some(v) = var("set @mariadb_slave_capability") {
            self.conns[ci].sess.capability = Some(v);
            return self.simple_ok(ci, "set capability");
        }
        if let Some(v) = var("set @slave_connect_state") {
            let t = v.trim_matches('\'').to_string();
            if parse_ma(&t).is_none() {
                self.bad(ci, format!("connect state {:?}", v));
                return self.send_err(ci, 1231, "Variable cannot be set to that value");
            }
            self.conns[ci].sess.connect_state = Some(t);
            return self.simple_ok(ci, "set connect state");
        }
        if let Some(v) = var("set @slave_gtid_strict_mode") {
            self.conns[ci].sess.strict = v != "0";
        }
        if low.starts_with("set @") || low.starts_with("set session ") || low.starts_with("set names") {
            return self.simple_ok(ci, "set variable");
        }
        self.bad(ci, format!("query {:?}", sql));
        self.send_err(ci, 1064, "You have an error in your SQL syntax");
    }

    fn register(&mut self, ci: usize, p: Vec<u8>) {
        let ok = (|| {
            let id = u32::from_le_bytes(p.get(1..5)?.try_into().ok()?);
            let mut at = 5;
            for _ in 0..3 {
                at += 1 + *p.get(at)? as usize;
            }
            if p.len() != at + 10 {
                return None;
            }
            Some(id)
        })();
        match ok {
            None => self.bad(ci, "malformed registration".into()),
            Some(id) => {
                let ex = self.expects[self.conns[ci].client].clone();
                if id != ex.server_id {
                    self.content(ci, format!("registers as server {}, configured {}", id, ex.server_id));
                }
            }
        }
        self.conns[ci].sess.registered = true;
        self.simple_ok(ci, "register");
    }

    fn check_dump(&mut self, ci: usize, flags: u16, id: u32) -> bool {
        let ex = self.expects[self.conns[ci].client].clone();
        let nonblock = id == 0 || flags & 1 != 0;
        if nonblock == ex.blocking {
            self.content(ci, format!("dump requested with server id {} flags {:x}, blocking is {}", id, flags, ex.blocking));
        }
        if ex.blocking && id != ex.server_id {
            self.content(ci, format!("dump requested as server {}, configured {}", id, ex.server_id));
        }
        let s = &self.conns[ci].sess;
        let (hb, cs) = (s.hb_ns, s.checksum);
        if hb != ex.hb_ns {
            self.monitor_clean(ci, "heartbeat-request", format!("heartbeat period {} ns requested, configured {}", hb, ex.hb_ns));
        }
        if cs.is_none() {
            self.content(ci, "dump requested without announcing checksum support".into());
        }
        nonblock
    }

    fn monitor_clean(&mut self, ci: usize, class: &'static str, d: String) {
        if self.conns[ci].corrupted == 0 {
            self.monitor(class, format!("conn{}: {}", ci, d));
        }
    }

    fn dump_pos(&mut self, ci: usize, p: Vec<u8>) {
        if p.len() < 11 {
            self.bad(ci, "short dump request".into());
            return self.send_err(ci, 1236, "malformed dump request");
        }
        let pos = u32::from_le_bytes(p[1..5].try_into().unwrap()) as u64;
        let flags = u16::from_le_bytes(p[5..7].try_into().unwrap());
        let id = u32::from_le_bytes(p[7..11].try_into().unwrap());
        let Ok(file) = String::from_utf8(p[11..].to_vec()) else {
            self.bad(ci, "file name is not UTF-8".into());
            return self.send_err(ci, 1236, "malformed dump request");
        };
        let nonblock = self.check_dump(ci, flags, id);
        let sv = self.conns[ci].server;
        let maria = self.servers[sv].flavour == Flavour::Maria;
        let cap4 = self.conns[ci].sess.capability.as_deref() == Some("4");
        let ma_text = self.conns[ci].sess.connect_state.clone();
        let ma = match (maria && cap4, &ma_text) {
            (true, Some(t)) => parse_ma(t),
            _ => None,
        };
        let req = DumpReq { gtid: false, file, pos, server_id: id, flags, set: None, ma, ma_text: ma_text.unwrap_or_default() };
        self.start_dump(ci, req, nonblock);
    }

    fn dump_gtid(&mut self, ci: usize, p: Vec<u8>) {
        let parsed = (|| {
            let flags = u16::from_le_bytes(p.get(1..3)?.try_into().ok()?);
            let id = u32::from_le_bytes(p.get(3..7)?.try_into().ok()?);
            let n = u32::from_le_bytes(p.get(7..11)?.try_into().ok()?) as usize;
            let file = String::from_utf8(p.get(11..11 + n)?.to_vec()).ok()?;
            let at = 11 + n;
            let pos = u64::from_le_bytes(p.get(at..at + 8)?.try_into().ok()?);
            let m = u32::from_le_bytes(p.get(at + 8..at + 12)?.try_into().ok()?) as usize;
            let data = p.get(at + 12..)?;
            if data.len() != m {
                return None;
            }
            let (set, ok) = parse_gset(data)?;
            Some((flags, id, file, pos, set, ok))
        })();
        let Some((flags, id, file, pos, set, ok)) = parsed else {
            self.bad(ci, "malformed GTID dump request".into());
            return self.send_err(ci, 1236, "malformed GTID set encoding");
        };
        if !ok {
            self.bad(ci, format!("GTID set with empty, unordered or overlapping intervals, or stray bytes: {:02x?}", &p[11..p.len().min(120)]));
            return self.send_err(ci, 1236, "malformed GTID set encoding");
        }
        if self.servers[self.conns[ci].server].flavour == Flavour::Maria {
            self.bad(ci, "COM_BINLOG_DUMP_GTID sent to MariaDB".into());
            return self.send_err(ci, 1047, "Unknown command");
        }
        let nonblock = self.check_dump(ci, flags, id);
        let req = DumpReq { gtid: true, file, pos, server_id: id, flags, set: Some(set), ma: None, ma_text: String::new() };
        self.start_dump(ci, req, nonblock);
    }

    fn start_dump(&mut self, ci: usize, req: DumpReq, nonblock: bool) {
        self.note(format!("conn{} dump {:?}", ci, req));
        let sv = self.conns[ci].server;
        {
            let c = &mut self.conns[ci];
            c.unsolicited = true;
            let s = &mut c.sess;
            s.stages.push("dump");
            s.stage = "event stream";
            s.st = St::Dumping;
            s.dump = Some(req.clone());
            s.nonblock = nonblock;
            s.need_rotate = true;
            s.start_pos = 4;
        }
        let server = &self.servers[sv];
        let alg = self.conns[ci].sess.checksum.unwrap_or(0);
        let mut start: Option<(usize, usize, u64)> = None;
        let mut err: Option<String> = None;
        let mut misplaced = None;
        let mut hole = false;
        if let Some(ma) = &req.ma {
            let f = (server.first..server.files.len())
                .rev()
                .find(|f| server.files[*f].prev_ma.iter().all(|(d, (i, q))| ma.get(d).map_or(false, |(j, x)| self.ma_rank(*d, *j, *x) >= self.ma_rank(*d, *i, *q))));
            match f {
                Some(f) => start = Some((f, 0, 4)),
                None => err = Some("Could not find GTID state requested by slave in any binlog files. Probably the slave state is too old and required binlog files have been purged.".into()),
            }
            for (d, (i, q)) in ma {
                if self.ma_rank(*d, *i, *q) > server.ma.get(d).map_or(0, |x| self.ma_rank(*d, x.0, x.1)) {
                    err = Some(format!("Error: connecting slave requested to start from GTID {}-x-{}, which is not in the master's binlog", d, q));
                } else if self.anc_ma.get(d) == Some(&(*i, *q)) {
                    // the state this history began with
                } else if *q > 0 && !self.txs.iter().any(|t| t.gtid == TGtid::Ma(*d, *i, *q)) {
                    hole = true;
                    if self.conns[ci].sess.strict {
                        err = Some(format!("The binlog on the master is missing the GTID {}-{}-{} requested by the slave (even though a subsequent sequence number does exist), and GTID strict mode is enabled", d, i, q));
                    }
                }
            }
        } else if req.gtid && req.file.is_empty() {
            let set = req.set.as_ref().unwrap();
            if !server.files[server.first].prev_my.subset_of(set) {
                err = Some("Cannot replicate because the master purged required binary logs.".into());
            } else {
                let f = (server.first..server.files.len()).rev().find(|f| server.files[*f].prev_my.subset_of(set)).unwrap();
                start = Some((f, 0, 4));
            }
        } else {
            let f = if req.file.is_empty() {
                Some(server.first)
            } else {
                (server.first..server.files.len()).find(|f| server.files[*f].name == req.file)
            };
            match f {
                None => err = Some("Could not find first log file name in binary log index file".into()),
                Some(f) => {
                    let file = &server.files[f];
                    if req.pos < 4 {
                        err = Some("Client requested master to start replication from position < 4".into());
                    } else if req.pos > file.size as u64 {
                        err = Some("Client requested master to start replication from position > file size".into());
                    } else if req.pos == file.size as u64 {
                        start = Some((f, file.evs.len(), req.pos));
                    } else {
                        match file.evs.iter().position(|e| e.pos as u64 == req.pos).or_else(|| file.evs.iter().position(|e| e.end as u64 == req.pos).map(|e| e + 1)) {
                            Some(e) => start = Some((f, e, req.pos)),
                            None => {
                                err = Some("bogus data in log event; the first event is not at an event boundary".into());
                                misplaced = Some(format!("dump requested at {}:{}, which is inside an event", req.file, req.pos));
                            }
                        }
                    }
                }
            }
        }
        if hole {
            self.probe("resume between two sequence numbers");
        }
        if let Some(m) = misplaced {
            self.monitor_clean(ci, "bad-position", m);
        }
        if let Some(e) = err {
            self.probe("dump refused by the server");
            return self.send_err(ci, 1236, &e);
        }
        let (f, e, pos) = start.unwrap();
        let s = &mut self.conns[ci].sess;
        s.fidx = f;
        s.eidx = e;
        s.start_pos = pos;
        s.alg = alg;
        s.set = req.set;
        s.ma = req.ma;
        self.schedule_pump(ci);
    }

    fn schedule_pump(&mut self, ci: usize) {
        if self.conns[ci].sess.pump_pending {
            return;
        }
        self.conns[ci].sess.pump_pending = true;
        let d = self.ch.draw("srv.pump", ci as u32, 4) * 200 * US;
        self.at(self.now + d, Ev::Pump { conn: ci });
    }

    pub fn wake_dumps(&mut self, server: usize) {
        for ci in 0..self.conns.len() {
            let c = &mut self.conns[ci];
            if c.server == server && c.sess.st == St::Dumping && c.sess.at_head {
                c.sess.at_head = false;
                c.sess.hb_gen += 1;
                self.schedule_pump(ci);
            }
        }
    }

    /// Sends an event packet on a dump connection.
    fn send_event(&mut self, ci: usize, bytes: &[u8], ev: Rc<CEvent>, tx: u32, k: u32, last: bool, seq: u32, file: &str) -> bool {
        let mut p = Vec::with_capacity(bytes.len() + 1);
        p.push(0);
        p.extend_from_slice(bytes);
        if self.tracing() {
            self.note(format!("conn{} sends tx{} {} {}", ci, tx, k, ev.brief()));
        }
        let before = self.conns[ci].corrupted;
        let bp = self.cfg.body_p;
        let typ = bytes[4];
        let hurt = bp.0 > 0 && typ != 15 && self.ch.chance("hurt", ci as u32, bp.0, bp.1);
        if hurt {
            self.fault("event body damaged");
            for _ in 0..1 + self.ch.draw("hurt.n", ci as u32, 3) {
                damage(&mut self.ch, "hurt.m", ci as u32, &mut p, 20);
            }
            self.note(format!("conn{} its body is damaged", ci));
        }
        if !self.packet(ci, &p) {
            return false;
        }
        let corrupted = self.conns[ci].corrupted > before;
        let at = self.now;
        self.sent(ci, if corrupted {
            Item::Damaged
        } else if hurt {
            Item::Hurt(typ)
        } else {
            Item::Ev(Sent { ev, tx, k, last, seq, file: file.into(), corrupted, at })
        });
        true
    }

    fn artificial(&mut self, ci: usize, typ: u8, body: Vec<u8>, cb: CBody, log_pos: u32, flags: u16) -> bool {
        let sv = &self.servers[self.conns[ci].server];
        let (id, file) = (sv.id, sv.files[self.conns[ci].sess.fidx].name.clone());
        let crc = self.conns[ci].sess.alg == 1;
        let (bytes, h) = build_event(0, typ, id, flags, &body, crc, Some(log_pos), 0);
        self.send_event(ci, &bytes, Rc::new(CEvent { h, b: cb }), 0, 0, false, 0, &file)
    }

    pub fn pump(&mut self, ci: usize) {
        self.conns[ci].sess.pump_pending = false;
        let sv = self.conns[ci].server;
        if self.conns[ci].sess.st != St::Dumping || !self.servers[sv].up {
            return;
        }
        let batch = 1 + self.ch.draw("srv.batch", ci as u32, 12);
        let mut left = batch;
        while left > 0 {
            let (fidx, eidx) = (self.conns[ci].sess.fidx, self.conns[ci].sess.eidx);
            if self.conns[ci].sess.need_rotate {
                let name = self.servers[sv].files[fidx].name.clone();
                let pos = self.conns[ci].sess.start_pos;
                self.conns[ci].sess.need_rotate = false;
                let b = rotate_body(&name, pos);
                if !self.artificial(ci, 4, b, CBody::Rotate { file: name, pos }, 0, 0x20) {
                    return;
                }
                // the format description always precedes the events
                if !self.send_fde(ci) {
                    return;
                }
                left = left.saturating_sub(1);
                continue;
            }
            let file = &self.servers[sv].files[fidx];
            if eidx >= file.evs.len() {
                if fidx + 1 < self.servers[sv].files.len() {
                    if !self.flush_skip(ci) {
                        return;
                    }
                    let s = &mut self.conns[ci].sess;
                    s.fidx += 1;
                    s.eidx = 0;
                    s.need_rotate = true;
                    s.start_pos = 4;
                    self.probe("stream crosses a file boundary");
                    continue;
                }
                if !self.flush_skip(ci) {
                    return;
                }
                return self.reached_head(ci);
            }
            let e = file.evs[eidx].clone();
            self.conns[ci].sess.eidx += 1;
            if eidx == 0 || e.annotate {
                // format description already sent; annotations are not requested
                continue;
            }
            if self.cfg.mid_hb && self.conns[ci].sess.hb_ns > 0 && self.ch.chance("srv.midhb", ci as u32, 1, 12) {
                // a slow dump thread: it heartbeats between any two events
                self.conns[ci].sess.eidx -= 1;
                self.probe("heartbeat between events");
                if self.send_heartbeat(ci, e.pos) && self.conns[ci].sess.st == St::Dumping {
                    self.schedule_pump(ci);
                }
                return;
            }
            if self.skipped(ci, e.tx) {
                self.conns[ci].sess.skipped_to = Some(e.end);
                continue;
            }
            if !self.flush_skip(ci) {
                return;
            }
            let name = self.servers[sv].files[fidx].name.clone();
            if !self.send_event(ci, &e.bytes, e.ev.clone(), e.tx, e.k, e.last, e.seq, &name) {
                return;
            }
            left -= 1;
            if self.conns[ci].sess.st != St::Dumping {
                return;
            }
        }
        self.schedule_pump(ci);
    }

    fn skipped(&self, ci: usize, tx: u32) -> bool {
        if tx == 0 {
            return false;
        }
        let t = &self.txs[tx as usize - 1];
        let s = &self.conns[ci].sess;
        match (&t.gtid, &s.set, &s.ma) {
            (TGtid::My(u, n), Some(set), _) => set.has(u, *n),
            (TGtid::Ma(d, i, n), _, Some(ma)) => ma.get(d).map_or(false, |x| self.ma_rank(*d, x.0, x.1) >= self.ma_rank(*d, *i, *n)),
            _ => false,
        }
    }

    /// Place of a GTID in the history of its domain.
    fn ma_rank(&self, domain: u32, server: u32, seq: u64) -> u64 {
        if !self.cfg.ma_ooo {
            return seq;
        }
        self.txs.iter().position(|t| t.gtid == TGtid::Ma(domain, server, seq)).map_or(0, |p| p as u64 + 1)
    }

    fn flush_skip(&mut self, ci: usize) -> bool {
        let Some(p) = self.conns[ci].sess.skipped_to.take() else { return true };
        self.probe("transactions skipped by GTID");
        let sv = self.conns[ci].server;
        if self.servers[sv].flavour == Flavour::MySql && self.cfg.gtid_skip_hb {
            return self.send_heartbeat(ci, p);
        }
        true
    }

    fn send_heartbeat(&mut self, ci: usize, pos: u32) -> bool {
        let sv = self.conns[ci].server;
        let name = self.servers[sv].files[self.conns[ci].sess.fidx].name.clone();
        self.artificial(ci, 27, name.as_bytes().to_vec(), CBody::Heartbeat(name.clone()), pos, 0)
    }

    fn send_fde(&mut self, ci: usize) -> bool {
        let sv = self.conns[ci].server;
        let s = &self.conns[ci].sess;
        let file = &self.servers[sv].files[s.fidx];
        let e = &file.evs[0];
        let mut bytes = e.bytes.to_vec();
        let mut h = e.ev.h.clone();
        h.flags &= !1;
        if s.start_pos > 4 {
            h.next_pos = 0;
            bytes[13..17].copy_from_slice(&[0; 4]);
            bytes[19 + 52..19 + 56].copy_from_slice(&[0; 4]);
        }
        bytes[17..19].copy_from_slice(&h.flags.to_le_bytes());
        if file.alg != 255 {
            let n = bytes.len() - 4;
            let c = crc32(&bytes[..n]);
            bytes[n..].copy_from_slice(&c.to_le_bytes());
        }
        let ev = Rc::new(CEvent { h, b: e.ev.b.clone() });
        let (seq, alg, name) = (e.seq, file.alg, file.name.clone());
        let seq = if s.start_pos > 4 { 0 } else { seq };
        self.conns[ci].sess.alg = if alg == 255 { 0 } else { alg };
        if self.conns[ci].sess.eidx == 0 {
            self.conns[ci].sess.eidx = 1;
        }
        self.send_event(ci, &bytes, ev, 0, 0, false, seq, &name)
    }

    /// Notes an item of the stream, whose last byte has just been handed to the network.
    fn sent(&mut self, ci: usize, item: Item) {
        let c = &mut self.conns[ci];
        c.sess.out.push(item);
        c.ends.resize(c.sess.out.len(), c.produced);
    }

    fn reached_head(&mut self, ci: usize) {
        if self.conns[ci].sess.nonblock {
            if self.packet(ci, &[0xfe, 0, 0, 2, 0]) {
                self.sent(ci, Item::Eof);
                self.note(format!("conn{} end of stream announced", ci));
                let damaged = self.conns[ci].corrupted > 0;
                if damaged {
                    self.conns[ci].sess.out.pop();
                    self.conns[ci].sess.out.push(Item::Damaged);
                }
                // the server keeps the connection; the client leaves
                self.conns[ci].sess.st = St::Ready;
            }
            return;
        }
        let s = &mut self.conns[ci].sess;
        s.at_head = true;
        s.hb_gen += 1;
        let (gen, hb) = (s.hb_gen, s.hb_ns);
        if hb > 0 {
            self.at(self.now + hb, Ev::Heartbeat { conn: ci, gen });
        }
    }

    pub fn heartbeat(&mut self, ci: usize, gen: u64) {
        let s = &self.conns[ci].sess;
        if self.conns[ci].mute || s.st != St::Dumping || s.hb_gen != gen || !s.at_head || self.conns[ci].fds == 0 {
            return;
        }
        let c = &self.conns[ci];
        if c.produced - c.delivered + c.rx.len() as u64 > 64 << 10 {
            // the socket buffers are full: the dump thread is blocked in its write
            let hb = s.hb_ns.max(MS);
            self.at(self.now + hb, Ev::Heartbeat { conn: ci, gen });
            return;
        }
        let sv = self.conns[ci].server;
        let pos = self.servers[sv].files[self.conns[ci].sess.fidx].size;
        self.conns[ci].sess.hb_sent += 1;
        self.probe("heartbeat sent");
        if self.send_heartbeat(ci, pos) && self.conns[ci].sess.st == St::Dumping {
            let hb = self.conns[ci].sess.hb_ns;
            self.at(self.now + hb, Ev::Heartbeat { conn: ci, gen });
        }
    }
}
