//! The simulated world: clock, event queue, network, sockets, files, faults.
use std::net::{IpAddr, Ipv6Addr};
use crate::binlog::*;
use crate::choice::*;
use crate::gen::TableDef;
use crate::server::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, BTreeMap, BinaryHeap, VecDeque};
use std::rc::Rc;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Dns,
    Refuse,
    ConnTimeout,
    Fin,
    Rst,
    Stall,
    StallResume,
    ServerErr,
    SendFail,
    Corrupt,
    Slow,
}

/// What one of the addresses of a host name leads to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Where {
    V4,
    V6,
    /// nobody there: errno and how long it takes to find out
    Dead4(i32, u64),
    Dead6(i32, u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Fin,
    Rst,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    // --- network ---
    pub seg: bool,
    pub short_read: bool,
    pub short_write: bool,
    pub eintr: bool,
    pub lat_max_us: u64,
    pub slow_max_ms: u64,
    /// delays are at times as long as they can be
    pub slow_edge: bool,
    /// servers may be slow to accept connections
    pub syn_lost: bool,
    /// servers may have inherited transactions of masters long gone
    pub ancestry: bool,
    /// a sound session whose every other event is damaged
    pub barrage: bool,
    /// the body of an event is damaged on its way, its framing and header stay intact
    pub body_p: (u64, u64),
    pub fault_kinds: Vec<Fault>,
    pub fault_p: (u64, u64),
    pub fault_budget: u32,
    /// weights of the fault's place: connection set-up, first events, later events
    pub place: [u64; 3],
    pub corrupt_p: (u64, u64),
    // --- history ---
    pub flavour: Flavour,
    pub gtid: bool,
    pub rows_v2: bool,
    pub anon: bool,
    pub opt_meta: bool,
    pub plain_values: bool,
    pub big: (u64, u64, usize),
    pub max_rows: u64,
    pub shapes: [u64; 14],
    pub n_sources: u64,
    pub out_of_order: bool,
    pub alter_p: (u64, u64),
    pub reid_p: (u64, u64),
    pub initial_txs: u64,
    pub script_ops: u64,
    pub script_gap_ms: u64,
    /// tx, rotate, clean restart, crash, purge, kill connections, checksum change, idle, failover
    pub script: [u64; 9],
    pub gtid_skip_hb: bool,
    pub step_limit: u64,
    /// unusual identifiers, sizes and texts
    pub wide: bool,
    /// log positions may jump (network scenarios only)
    pub gaps: bool,
    /// a server may heartbeat between any two events
    pub mid_hb: bool,
    /// no server offers encryption
    pub no_tls: bool,
    /// table definitions are not repeated while they are unchanged
    pub lazy_maps: bool,
    /// ids are given to other tables within a file
    pub reuse_ids: bool,
    pub max_tables: usize,
    pub max_maps: u64,
    /// some transactions have no GTID
    pub mixed_anon: bool,
    /// MariaDB sequence numbers out of order (a source that is not strict)
    pub ma_ooo: bool,
    /// faults fall between packets only
    pub whole_cuts: bool,
    /// servers that log event types the library does not decode
    pub newer: bool,
    /// servers of both flavours
    pub two_flavours: bool,
    /// MariaDB sequence numbers with holes
    pub ma_holes: bool,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            seg: true,
            short_read: true,
            short_write: true,
            eintr: true,
            lat_max_us: 20_000,
            slow_max_ms: 0,
            slow_edge: false,
            syn_lost: false,
            ancestry: true,
            barrage: false,
            body_p: (0, 1),
            fault_kinds: vec![],
            fault_p: (0, 1),
            fault_budget: 0,
            place: [3, 3, 3],
            corrupt_p: (0, 1),
            flavour: Flavour::MySql,
            gtid: false,
            rows_v2: true,
            anon: false,
            opt_meta: true,
            plain_values: false,
            big: (0, 1, 0),
            max_rows: 3,
            shapes: [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0],
            n_sources: 1,
            out_of_order: false,
            alter_p: (1, 6),
            reid_p: (1, 16),
            initial_txs: 4,
            script_ops: 0,
            script_gap_ms: 200,
            script: [10, 1, 0, 0, 0, 0, 0, 2, 0],
            gtid_skip_hb: true,
            step_limit: 400_000,
            wide: false,
            gaps: true,
            mid_hb: false,
            no_tls: false,
            lazy_maps: false,
            reuse_ids: false,
            max_tables: 5,
            max_maps: 3,
            mixed_anon: false,
            ma_ooo: false,
            whole_cuts: false,
            newer: false,
            two_flavours: false,
            ma_holes: false,
        }
    }
}

#[derive(Debug)]
pub enum Ev {
    ToServer { conn: usize, data: Vec<u8> },
    ToClient { conn: usize, epoch: u32, data: Vec<u8> },
    EndToClient { conn: usize, epoch: u32, end: End },
    Pump { conn: usize },
    Heartbeat { conn: usize, gen: u64 },
    Script { server: usize },
    Apply { server: usize },
    ServerUp { server: usize },
}

struct QEv {
    at: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for QEv {
    fn eq(&self, o: &QEv) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for QEv {}
impl PartialOrd for QEv {
    fn partial_cmp(&self, o: &QEv) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QEv {
    fn cmp(&self, o: &QEv) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub seg: u8,
    pub lat: u64,
    pub jitter: u64,
    pub short_read: bool,
    pub short_write: bool,
    pub eintr: bool,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub kind: Option<Fault>,
    pub pkt: u32,
    pub off: u8,
    pub drop_inflight: bool,
    pub resume_after: u64,
    pub sub: u8,
    pub code: u16,
    pub send_nth: u32,
    pub send_err: i32,
}

/// A connection attempt which is going to succeed.
#[derive(Debug)]
pub struct Attempt {
    server: usize,
    v6: bool,
    prof: Profile,
    plan: Plan,
}

pub struct Conn {
    pub id: usize,
    pub client: usize,
    pub server: usize,
    pub fds: u32,
    pub opened_at: u64,
    pub rx: VecDeque<u8>,
    pub v6: bool,
    pub rx_end: Option<End>,
    pub rx_end_at: u64,
    /// Bytes produced when each item of the stream was complete.
    pub ends: Vec<u64>,
    /// Bytes delivered to the client, and when.
    pub arrivals: Vec<(u64, u64)>,
    pub rst_reported: bool,
    pub rcv_to: Option<u64>,
    pub snd_to: Option<u64>,
    /// bytes in the send buffer of a peer that does not read, and its size
    pub backlog: u64,
    pub sndbuf: u64,
    pub nonblock: bool,
    pub connected: bool,
    pub shut_rd: bool,
    pub shut_wr: bool,
    pub pending_err: i32,
    pub s2c_last: u64,
    pub c2s_last: u64,
    pub epoch: u32,
    pub prof: Profile,
    pub plan: Plan,
    pub plan_fired: bool,
    pub s2c_pkts: u32,
    pub muted: bool,
    pub stall_until: u64,
    pub sends: u32,
    pub last_rx_at: u64,
    pub waited_since: u64,
    pub last_consumed_at: u64,
    /// bytes of replies the server produced that the client has not read yet
    pub unread: u64,
    pub unsolicited: bool,
    pub client_bytes: Vec<u8>,
    pub server_bytes: Vec<u8>,
    pub consumed: u64,
    pub produced: u64,
    /// bytes that reached the client's socket
    pub delivered: u64,
    /// client-side view of outgoing frames
    pub fr_need: usize,
    pub fr_hdr: Vec<u8>,
    pub frames_begun: u32,
    pub frames_sent: u32,
    pub replies_done: u32,
    pub closed_by_server: bool,
    pub corrupted: u32,
    pub mute: bool,
    pub sess: Session,
}

pub enum FdObj {
    Fresh { nonblock: bool, rcv_to: Option<u64>, snd_to: Option<u64> },
    Conn(usize),
    File(usize),
}

/// A simulated disk file: contents live in a memfd, reads go through faults.
#[derive(Clone)]
pub struct SimFile {
    pub len: u64,
    pub pos: u64,
    pub short: bool,
    pub eintr: bool,
    /// reading at or past this offset fails
    pub eio_at: Option<u64>,
    pub eio_times: u32,
    pub eio_hit: u32,
    pub limit: u64,
}

#[derive(Clone, Debug)]
pub struct Account {
    pub user: String,
    pub pass: String,
    pub plugin: &'static str,
    pub cached: bool,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub user: String,
    pub db: Option<String>,
    pub server_id: u32,
    pub blocking: bool,
    pub hb_ns: u64,
}

pub struct World {
    pub ch: Choices,
    pub cfg: Cfg,
    pub now: u64,
    q: BinaryHeap<QEv>,
    qseq: u64,
    pub conns: Vec<Conn>,
    pub fds: BTreeMap<i32, FdObj>,
    pub files: Vec<SimFile>,
    pub servers: Vec<Server>,
    /// host name -> server index
    /// names of the servers, by which clients address them
    pub names: Vec<String>,
    /// addresses a name resolves to, in order
    pub layout: Vec<Where>,
    /// addresses connect was called with
    pub tried: Vec<IpAddr>,
    /// attempts of sockets that do not block: when they end, and how
    pub pending: HashMap<i32, (u64, Result<Attempt, i32>)>,
    pub so_error: HashMap<i32, i32>,
    /// seconds the wall clock is ahead of the simulation's start
    pub wall: i64,
    /// the servers have addresses of the client's own machine
    /// what every server had executed before its oldest binlog
    pub anc_my: GSet,
    pub anc_ma: MaState,
    pub loopback: bool,
    pub hosts: BTreeMap<String, usize>,
    pub accounts: Vec<Account>,
    pub expects: Vec<Expect>,
    pub txs: Vec<Rc<Tx>>,
    pub tables: Vec<Rc<TableDef>>,
    pub next_def: u32,
    pub next_gno: BTreeMap<u32, u64>,
    pub held: Vec<(u32, u64)>,
    pub xa_open: Vec<u32>,
    pub sources: Vec<[u8; 16]>,
    pub domains: Vec<u32>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub mon: Vec<(&'static str, String)>,
    pub steps: u64,
    pub call_steps: u64,
    pub calls: u64,
    pub port: u16,
    /// faults that can make a call fail
    pub hard: u64,
    pub script_pending: u32,
    pub rogue: bool,
    pub faults_left: u32,
    pub faults_on: bool,
    pub blocked_forever: bool,
    pub dns_fail_next: bool,
    pub connect_attempts: u32,
    pub max_wait: u64,
    /// index of the client whose calls are being made
    pub cur_client: usize,
    pub primary: usize,
    pub apply_on: bool,
    /// lowest file index that must not be purged, per server
    pub purge_floor: BTreeMap<usize, usize>,
}

pub enum NetErr {
    Errno(i32),
}

impl World {
    pub fn new(ch: Choices, cfg: Cfg) -> World {
        World {
            ch,
            faults_left: cfg.fault_budget,
            cfg,
            now: SEC,
            q: BinaryHeap::new(),
            qseq: 0,
            conns: vec![],
            fds: BTreeMap::new(),
            files: vec![],
            servers: vec![],
            names: vec![],
            layout: vec![Where::V4],
            tried: vec![],
            pending: HashMap::new(),
            so_error: HashMap::new(),
            wall: 1_700_000_000,
            anc_my: GSet::default(),
            anc_ma: MaState::default(),
            loopback: false,
            hosts: BTreeMap::new(),
            accounts: vec![],
            expects: vec![],
            txs: vec![],
            tables: vec![],
            next_def: 0,
            next_gno: BTreeMap::new(),
            held: vec![],
            xa_open: vec![],
            sources: vec![],
            domains: vec![],
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            hash: 0xcbf29ce484222325,
            trace: None,
            mon: vec![],
            steps: 0,
            call_steps: 0,
            calls: 0,
            port: 3306,
            hard: 0,
            script_pending: 0,
            rogue: false,
            faults_on: true,
            blocked_forever: false,
            dns_fail_next: false,
            connect_attempts: 0,
            max_wait: 0,
            cur_client: 0,
            primary: 0,
            apply_on: false,
            purge_floor: BTreeMap::new(),
        }
    }

    // ---------- bookkeeping ----------
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        // those that must not be noticed
        if !["short ", "address of", "wall clock", "connection requests"].iter().any(|p| k.starts_with(p)) && !k.contains("EINTR") {
            self.hard += 1;
        }
        self.mix(0xfa, k.len() as u64, k.as_bytes()[0] as u64);
        if self.trace.is_some() {
            self.note(format!("FAULT {}", k));
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn mix(&mut self, a: u64, b: u64, c: u64) {
        let mut h = self.hash;
        for v in [a, b, c, self.now] {
            h = (h ^ v).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        self.hash = h;
    }
    pub fn mix_bytes(&mut self, d: &[u8]) {
        let mut h = self.hash;
        for c in d.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x100000001b3);
            h ^= h >> 31;
        }
        self.hash = h;
    }
    pub fn note(&mut self, s: String) {
        let t = self.now;
        if let Some(v) = &mut self.trace {
            v.push(format!("[{:>14.6}ms] {}", t as f64 / 1e6, s));
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn monitor(&mut self, class: &'static str, detail: String) {
        self.note(format!("MONITOR {}: {}", class, detail));
        if self.mon.len() < 50 {
            self.mon.push((class, detail));
        }
    }

    // ---------- event queue ----------
    pub fn at(&mut self, at: u64, ev: Ev) {
        self.qseq += 1;
        self.q.push(QEv { at: at.max(self.now), seq: self.qseq, ev });
    }
    pub fn next_at(&self) -> Option<u64> {
        self.q.peek().map(|e| e.at)
    }
    pub fn run_one(&mut self) {
        if let Some(e) = self.q.pop() {
            self.now = self.now.max(e.at);
            self.steps += 1;
            self.dispatch(e.ev);
        }
    }
    fn drain_due(&mut self) {
        while let Some(t) = self.next_at() {
            if t > self.now {
                break;
            }
            self.run_one();
        }
    }
    /// Lets `d` nanoseconds pass.
    pub fn advance(&mut self, d: u64) {
        let end = self.now + d;
        while let Some(t) = self.next_at() {
            if t > end {
                break;
            }
            self.run_one();
        }
        self.now = end;
    }
    fn dispatch(&mut self, ev: Ev) {
        match ev {
            Ev::ToServer { conn, data } => self.on_server_data(conn, data),
            Ev::ToClient { conn, epoch, data } => {
                let now = self.now;
                let c = &mut self.conns[conn];
                if c.epoch == epoch && c.rx_end.is_none() && c.fds > 0 {
                    c.rx.extend(&data);
                    c.last_rx_at = now;
                    c.delivered += data.len() as u64;
                    match c.arrivals.last_mut() {
                        Some(a) if a.1 == now => a.0 = c.delivered,
                        _ => c.arrivals.push((c.delivered, now)),
                    }
                }
            }
            Ev::EndToClient { conn, epoch, end } => {
                let c = &mut self.conns[conn];
                if c.epoch == epoch && c.rx_end.is_none() {
                    c.rx_end = Some(end);
                    c.rx_end_at = self.now;
                }
                self.mix(3, conn as u64, end as u64);
                self.note(format!("conn{} {:?} reaches the client", conn, end));
            }
            Ev::Pump { conn } => self.pump(conn),
            Ev::Heartbeat { conn, gen } => self.heartbeat(conn, gen),
            Ev::Script { server } => self.script_tick(server),
            Ev::Apply { server } => self.apply_tick(server),
            Ev::ServerUp { server } => self.server_up(server),
        }
    }

    // ---------- server -> client bytes ----------
    pub fn net_s2c(&mut self, ci: usize, data: Vec<u8>) {
        let pkt = self.conns[ci].s2c_pkts;
        self.conns[ci].s2c_pkts += 1;
        if self.conns[ci].muted || self.conns[ci].fds == 0 {
            return;
        }
        let plan = self.conns[ci].plan.clone();
        let mut data = data;
        let mut end = None;
        if !self.conns[ci].plan_fired && pkt == plan.pkt {
            let n = data.len();
            // place of the cut inside this packet
            let keep = match plan.off {
                0 => 0,
                1 => 1,
                2 => 3.min(n),
                3 => 4.min(n),
                4 => 5.min(n),
                5 => n - 1,
                6 => n,
                7 => n.saturating_sub(4),
                8 => 24.min(n),
                k => (n * (k as usize - 8)) / 8,
            }
            .min(n);
            match plan.kind {
                Some(Fault::Fin) | Some(Fault::Rst) => {
                    data.truncate(keep);
                    end = Some(if plan.kind == Some(Fault::Fin) { End::Fin } else { End::Rst });
                    self.conns[ci].plan_fired = true;
                    self.fault(if end == Some(End::Fin) { "connection closed mid-session" } else { "connection reset mid-session" });
                    if keep > 0 && keep < n {
                        self.probe("cut inside a packet");
                    }
                }
                Some(Fault::Stall) => {
                    data.truncate(keep);
                    self.conns[ci].plan_fired = true;
                    self.conns[ci].muted = true;
                    self.fault("server goes silent");
                    if keep > 0 && keep < n {
                        self.probe("silence inside a packet");
                    }
                    self.deliver(ci, data);
                    return;
                }
                Some(Fault::StallResume) => {
                    self.conns[ci].plan_fired = true;
                    self.fault("server stalls, then resumes");
                    if keep > 0 && keep < n {
                        self.probe("stall inside a packet");
                    }
                    let rest = data.split_off(keep);
                    self.deliver(ci, data);
                    self.conns[ci].stall_until = self.now + plan.resume_after;
                    self.deliver(ci, rest);
                    return;
                }
                _ => {}
            }
        }
        self.deliver(ci, data);
        if let Some(e) = end {
            self.conns[ci].muted = true;
            self.server_side_closed(ci);
            self.send_end(ci, e, plan.drop_inflight);
        }
    }

    /// When the last byte of an item of the stream reached the client.
    pub fn arrived(&self, ci: usize, item: usize) -> Option<u64> {
        let c = &self.conns[ci];
        let end = *c.ends.get(item)?;
        c.arrivals.get(c.arrivals.partition_point(|a| a.0 < end)).map(|a| a.1)
    }

    pub fn send_end(&mut self, ci: usize, e: End, drop_inflight: bool) {
        self.conns[ci].muted = true;
        self.conns[ci].closed_by_server = true;
        let at;
        if drop_inflight && e == End::Rst {
            self.conns[ci].epoch += 1;
            at = self.now + self.conns[ci].prof.lat;
        } else {
            at = self.conns[ci].s2c_last.max(self.now + self.conns[ci].prof.lat);
        }
        let epoch = self.conns[ci].epoch;
        self.conns[ci].s2c_last = at;
        self.at(at, Ev::EndToClient { conn: ci, epoch, end: e });
    }

    fn deliver(&mut self, ci: usize, data: Vec<u8>) {
        if data.is_empty() {
            return;
        }
        let p = self.conns[ci].prof;
        let id = ci as u32;
        // extremes: this packet at once, the next one as late as packets can be
        let late = match if self.cfg.slow_edge { self.ch.draw("net.edge", id, 3) } else { 2 } {
            0 => 0,
            1 => p.jitter,
            _ if p.jitter > 0 => self.ch.draw("net.jitter", id, p.jitter / US + 1) * US,
            _ => 0,
        };
        let mut t = self.now + p.lat + late;
        t = t.max(self.conns[ci].s2c_last).max(self.conns[ci].stall_until);
        let n = data.len();
        let c = &mut self.conns[ci];
        c.produced += n as u64;
        if c.server_bytes.len() < 6000 {
            let room = 6000 - c.server_bytes.len();
            c.server_bytes.extend_from_slice(&data[..n.min(room)]);
        }
        let epoch = c.epoch;
        let pieces: usize = match p.seg {
            0 => 1,
            1 => 1 + self.ch.draw("net.seg", id, 4) as usize,
            2 => {
                if n <= 120 {
                    n
                } else {
                    1 + self.ch.draw("net.seg", id, 8) as usize
                }
            }
            _ => {
                if self.ch.draw("net.seg", id, 3) == 0 {
                    1
                } else {
                    2
                }
            }
        };
        let mut rest = data;
        for k in 0..pieces {
            let left = rest.len();
            if left == 0 {
                break;
            }
            let take = if k + 1 == pieces {
                left
            } else if p.seg == 2 && n <= 120 {
                1
            } else {
                1 + self.ch.draw("net.cut", id, left as u64) as usize
            };
            let tail = rest.split_off(take.min(left));
            self.at(t, Ev::ToClient { conn: ci, epoch, data: rest });
            rest = tail;
            if k + 1 < pieces {
                let gap = match self.ch.draw("net.gap", id, 4) {
                    0 | 1 => 0,
                    2 => 50 * US,
                    _ => p.jitter.min(20 * MS),
                };
                // a link has bandwidth: once segments queue up they follow back to back
                if t < (self.now + p.lat + p.jitter + 500 * MS).max(self.conns[ci].stall_until) {
                    t += gap;
                }
            }
        }
        self.conns[ci].s2c_last = t;
    }

    // ---------- socket calls made by the library ----------
    fn tick(&mut self) {
        self.now += US;
        self.steps += 1;
        if self.steps - self.call_steps > self.cfg.step_limit {
            self.blocked_forever = true;
        }
        self.drain_due();
    }

    pub fn sys_socket(&mut self, fd: i32) {
        self.fds.insert(fd, FdObj::Fresh { nonblock: false, rcv_to: None, snd_to: None });
        self.mix(10, 0, 0);
    }

    pub fn open_conns(&self) -> usize {
        self.conns.iter().filter(|c| c.fds > 0).count() + self.fds.values().filter(|f| matches!(f, FdObj::Fresh { .. })).count()
    }

    /// Resolves a host name: the server's address index, or an EAI code.
    pub fn ip_of(&self, server: u32) -> u32 {
        if self.loopback {
            127 << 24 | (server + 1)
        } else {
            10 << 24 | 77 << 16 | server
        }
    }

    /// Offset of the wall clock, which is set every now and then.
    pub fn wall_clock(&mut self) -> i64 {
        if self.ch.chance("clock.set", 0, 1, 6) {
            self.wall += [3600, -3600, 40, -40][self.ch.draw("clock.by", 0, 4) as usize];
            self.fault("wall clock set");
        }
        self.wall
    }

    pub fn ip6_of(&self, server: u32) -> Ipv6Addr {
        Ipv6Addr::new(0xfd77, 0, 0, 0, 0, 0, 0, server as u16 + 1)
    }

    pub fn addresses(&self, server: u32) -> Vec<IpAddr> {
        let dead = |k: usize| (99 << 8 | k as u32) << 8 | server;
        self.layout
            .iter()
            .enumerate()
            .map(|(k, w)| match w {
                Where::V4 => IpAddr::V4(self.ip_of(server).into()),
                Where::V6 => IpAddr::V6(self.ip6_of(server)),
                Where::Dead4(..) => IpAddr::V4((10 << 24 | dead(k)).into()),
                Where::Dead6(..) => IpAddr::V6(Ipv6Addr::new(0xfd99, 0, 0, 0, 0, 0, k as u16, server as u16)),
            })
            .collect()
    }

    /// The server at an address, or what happens instead.
    pub fn server_at(&self, ip: IpAddr) -> Result<usize, (i32, u64)> {
        for s in 0..self.servers.len() as u32 {
            if ip == IpAddr::V4(self.ip_of(s).into()) || ip == IpAddr::V6(self.ip6_of(s)) {
                return Ok(s as usize);
            }
            if let Some(k) = self.addresses(s).iter().position(|a| *a == ip) {
                if let Where::Dead4(e, t) | Where::Dead6(e, t) = self.layout[k] {
                    return Err((e, t));
                }
            }
        }
        Ok(usize::MAX)
    }

    pub fn sys_resolve(&mut self, host: &str) -> Result<u32, i32> {
        self.tick();
        if self.faults_on && self.faults_left > 0 && self.cfg.fault_kinds.contains(&Fault::Dns) {
            let n = self.connect_attempts;
            if self.ch.chance("dns", n, 1, 16) {
                self.faults_left -= 1;
                self.connect_attempts += 1;
                self.fault("name lookup fails");
                return Err(-3); // EAI_AGAIN
            }
        }
        match self.hosts.get(host) {
            Some(s) => Ok(*s as u32),
            None => Err(-2),
        }
    }

    /// Connect. `Ok(())` or an errno.
    pub fn sys_connect(&mut self, fd: i32, ip: IpAddr, port: u16) -> Result<(), i32> {
        self.tick();
        self.tried.push(ip);
        let nonblock = match self.fds.get(&fd) {
            Some(FdObj::Fresh { nonblock, .. }) => *nonblock,
            Some(FdObj::Conn(_)) => return Err(libc::EISCONN),
            _ => return Err(libc::ENOTSOCK),
        };
        if self.pending.contains_key(&fd) {
            return Err(libc::EALREADY);
        }
        let (delay, outcome) = self.attempt(ip, port);
        if nonblock {
            let at = self.now + delay;
            self.pending.insert(fd, (at, outcome));
            return Err(libc::EINPROGRESS);
        }
        self.advance(delay);
        self.establish(fd, outcome?)
    }

    /// Waits for a connection attempt; true when it has ended, well or not.
    pub fn sys_poll_connect(&mut self, fd: i32, timeout: Option<u64>) -> bool {
        self.tick();
        let end = timeout.map(|t| self.now.saturating_add(t)).unwrap_or(u64::MAX);
        let at = match self.pending.get(&fd) {
            Some(p) => p.0,
            None => {
                self.advance(end.min(self.now + 127 * SEC) - self.now);
                return false;
            }
        };
        if end < at {
            self.advance(end - self.now);
            return false;
        }
        self.advance(at.saturating_sub(self.now));
        let outcome = self.pending.remove(&fd).unwrap().1;
        if let Err(e) = outcome.and_then(|to| self.establish(fd, to)) {
            self.so_error.insert(fd, e);
        }
        true
    }

    /// What becomes of a connection attempt, and after how long.
    fn attempt(&mut self, ip: IpAddr, port: u16) -> (u64, Result<Attempt, i32>) {
        let server = match self.server_at(ip) {
            Ok(s) => s,
            Err((e, t)) => {
                self.note(format!("connect to {}: error {}", ip, e));
                self.fault("address of the server is dead");
                return (t, Err(e));
            }
        };
        let n = self.connect_attempts;
        self.connect_attempts += 1;
        if server >= self.servers.len() || !self.servers[server].up || port != self.port {
            self.note(format!("connect to server{}: refused (down)", server));
            self.hard += (server < self.servers.len() && port == self.port) as u64;
            return (MS, Err(libc::ECONNREFUSED));
        }
        let plan = self.draw_plan(n);
        match plan.kind {
            Some(Fault::Refuse) => {
                self.fault("connection refused");
                return (MS, Err([libc::ECONNREFUSED, libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::EADDRNOTAVAIL][self.ch.draw("conn.err", n, 5) as usize]));
            }
            Some(Fault::ConnTimeout) => {
                self.fault("connect times out");
                return (127 * SEC, Err(libc::ETIMEDOUT));
            }
            _ => {}
        }
        let prof = self.draw_profile(n);
        let mut delay = 2 * prof.lat;
        if self.cfg.syn_lost && self.ch.chance("conn.syn", n, 1, 4) {
            // requests for the connection are lost and repeated after 1, 2, 4 s
            delay += [1, 3, 7][self.ch.draw("conn.synn", n, 3) as usize] * SEC;
            self.fault("connection requests lost");
        }
        (delay, Ok(Attempt { server, v6: ip.is_ipv6(), prof, plan }))
    }

    /// The connection is there.
    fn establish(&mut self, fd: i32, to: Attempt) -> Result<(), i32> {
        let Attempt { server, v6, prof, plan } = to;
        let (nonblock, rcv_to, snd_to) = match self.fds.get(&fd) {
            Some(FdObj::Fresh { nonblock, rcv_to, snd_to }) => (*nonblock, *rcv_to, *snd_to),
            _ => return Err(libc::EBADF),
        };
        if !self.servers[server].up {
            self.note(format!("connect to server{}: refused (went down)", server));
            self.hard += 1;
            return Err(libc::ECONNREFUSED);
        }
        let id = self.conns.len();
        let now = self.now;
        let client = self.cur_client;
        self.conns.push(Conn {
            id,
            client,
            server,
            v6,
            fds: 1,
            opened_at: now,
            rx: VecDeque::new(),
            rx_end: None,
            rx_end_at: 0,
            ends: vec![],
            arrivals: vec![],
            rst_reported: false,
            rcv_to,
            snd_to,
            backlog: 0,
            sndbuf: 0,
            nonblock,
            connected: true,
            shut_rd: false,
            shut_wr: false,
            pending_err: 0,
            s2c_last: now,
            c2s_last: now,
            epoch: 0,
            prof,
            plan,
            plan_fired: false,
            s2c_pkts: 0,
            muted: false,
            stall_until: 0,
            sends: 0,
            last_rx_at: now,
            waited_since: now,
            last_consumed_at: now,
            unread: 0,
            unsolicited: false,
            client_bytes: vec![],
            server_bytes: vec![],
            consumed: 0,
            produced: 0,
            delivered: 0,
            fr_need: 0,
            fr_hdr: vec![],
            frames_begun: 0,
            frames_sent: 0,
            replies_done: 0,
            closed_by_server: false,
            corrupted: 0, mute: false,
            sess: Session::new(),
        });
        self.fds.insert(fd, FdObj::Conn(id));
        self.mix(11, id as u64, server as u64);
        self.note(format!("conn{} opened to server{} {:?} plan {:?}", id, server, prof, self.conns[id].plan));
        self.accept(id);
        Ok(())
    }

    fn draw_profile(&mut self, n: u32) -> Profile {
        let c = self.cfg.clone();
        let ch = &mut self.ch;
        let lat = ch.draw("conn.lat", n, c.lat_max_us + 1) * US;
        let jitter = if ch.chance("conn.jit", n, 1, 2) { ch.draw("conn.jitter", n, c.lat_max_us + 1) * US } else { 0 };
        let jitter = if c.slow_max_ms > 0 && ch.chance("conn.slow", n, 1, 2) { if c.slow_edge { c.slow_max_ms * MS } else { ch.draw("conn.slowj", n, c.slow_max_ms) * MS } } else { jitter };
        Profile {
            seg: if c.seg { ch.weighted("conn.seg", n, &[3, 4, 1, 2]) as u8 } else { 0 },
            lat,
            jitter,
            short_read: c.short_read && ch.chance("conn.sr", n, 1, 2),
            short_write: c.short_write && ch.chance("conn.sw", n, 1, 2),
            eintr: c.eintr && ch.chance("conn.ei", n, 1, 3),
        }
    }

    fn draw_plan(&mut self, n: u32) -> Plan {
        let mut p = Plan {
            kind: None,
            pkt: u32::MAX,
            off: 0,
            drop_inflight: false,
            resume_after: 0,
            sub: 0,
            code: 0,
            send_nth: u32::MAX,
            send_err: 0,
        };
        let kinds = self.cfg.fault_kinds.clone();
        if !self.faults_on || self.faults_left == 0 || kinds.is_empty() {
            return p;
        }
        let fp = self.cfg.fault_p;
        if !self.ch.chance("plan", n, fp.0, fp.1) {
            return p;
        }
        let kinds: Vec<Fault> = kinds.into_iter().filter(|k| *k != Fault::Dns).collect();
        if kinds.is_empty() {
            return p;
        }
        self.faults_left -= 1;
        let ch = &mut self.ch;
        let k = kinds[ch.draw("plan.kind", n, kinds.len() as u64) as usize];
        p.kind = Some(k);
        p.pkt = match ch.weighted("plan.place", n, &self.cfg.place) {
            0 => ch.draw("plan.pkt", n, 16) as u32,
            1 => 10 + ch.draw("plan.pkt", n, 16) as u32,
            _ => 16 + ch.draw("plan.pkt", n, 90) as u32,
        };
        p.off = ch.draw("plan.off", n, 16) as u8;
        if self.cfg.whole_cuts {
            p.off = 6;
        }
        p.drop_inflight = ch.chance("plan.drop", n, 1, 3);
        p.resume_after = match ch.draw("plan.resume", n, 4) {
            0 => 500 * MS,
            1 => 3 * SEC,
            2 => 15 * SEC,
            _ => 60 * SEC,
        };
        p.sub = ch.draw("plan.sub", n, 6) as u8;
        p.code = [1045u16, 1040, 1227, 1236, 1193, 1053, 2013, 13121][ch.draw("plan.code", n, 8) as usize];
        p.send_nth = ch.draw("plan.send", n, 30) as u32;
        p.send_err = [libc::EPIPE, libc::ECONNRESET, libc::ENOBUFS, libc::ETIMEDOUT][ch.draw("plan.senderr", n, 4) as usize];
        p
    }

    pub fn conn_of(&self, fd: i32) -> Option<usize> {
        match self.fds.get(&fd) {
            Some(FdObj::Conn(c)) => Some(*c),
            _ => None,
        }
    }

    fn wait_readable(&mut self, ci: usize, deadline: Option<u64>) -> Result<bool, i32> {
        // true: readable; false: deadline passed
        let start = self.now;
        let mut spins = 0u64;
        loop {
            let c = &self.conns[ci];
            if !c.rx.is_empty() || c.rx_end.is_some() || c.shut_rd {
                let w = self.now - start;
                self.max_wait = self.max_wait.max(w);
                return Ok(true);
            }
            match self.next_at() {
                Some(t) if deadline.map_or(true, |d| t <= d) => {
                    spins += 1;
                    // without a deadline only bytes end the wait, and the others go on for ever
                    if spins > if deadline.is_some() { 5_000_000 } else { 200_000 } || self.blocked_forever {
                        self.blocked_forever = true;
                        self.note(format!("conn{}: read never returns", ci));
                        return Err(libc::ECONNABORTED);
                    }
                    self.run_one();
                }
                _ => match deadline {
                    Some(d) => {
                        self.now = d;
                        self.max_wait = self.max_wait.max(self.now - start);
                        return Ok(false);
                    }
                    None => {
                        self.blocked_forever = true;
                        self.note(format!("conn{}: read never returns", ci));
                        return Err(libc::ECONNABORTED);
                    }
                },
            }
        }
    }

    pub fn sys_recv(&mut self, ci: usize, buf: &mut [u8], peek: bool, dontwait: bool) -> Result<usize, i32> {
        self.tick();
        if self.blocked_forever {
            return Err(libc::ECONNABORTED);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let id = ci as u32;
        if self.conns[ci].prof.eintr && self.ch.chance("recv.eintr", id, 1, 12) {
            self.fault("read interrupted (EINTR)");
            return Err(libc::EINTR);
        }
        let c = &self.conns[ci];
        if c.rx.is_empty() && c.rx_end.is_none() && !c.shut_rd {
            if c.nonblock || dontwait {
                return Err(libc::EAGAIN);
            }
            let deadline = c.rcv_to.map(|t| self.now + t);
            if !self.wait_readable(ci, deadline)? {
                self.mix(12, id as u64, 0);
                self.note(format!("conn{} read times out", ci));
                self.probe("read timed out");
                return Err(libc::EAGAIN);
            }
        }
        let c = &mut self.conns[ci];
        if c.rx.is_empty() {
            if c.shut_rd {
                return Ok(0);
            }
            return match c.rx_end {
                Some(End::Rst) if !c.rst_reported => {
                    c.rst_reported = true;
                    // usually a reset; the network may also give up on its own
                    Err([libc::ECONNRESET, libc::ECONNRESET, libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ECONNABORTED][self.ch.draw("recv.err", id, 6) as usize])
                }
                _ => Ok(0),
            };
        }
        let avail = c.rx.len().min(buf.len());
        let mut n = avail;
        if n > 1 && c.prof.short_read {
            let mode = self.ch.draw("recv.mode", id, 4);
            if mode >= 2 {
                n = if mode == 2 { 1 } else { 1 + self.ch.draw("recv.n", id, avail as u64) as usize };
                if n < avail {
                    self.fault("short read");
                }
            }
        }
        let now = self.now;
        let c = &mut self.conns[ci];
        for (i, b) in c.rx.iter().take(n).enumerate() {
            buf[i] = *b;
        }
        if !peek {
            c.rx.drain(..n);
            c.consumed += n as u64;
            c.unread = c.unread.saturating_sub(n as u64);
            c.last_consumed_at = now;
        }
        self.mix(13, id as u64, n as u64);
        Ok(n)
    }

    pub fn sys_send(&mut self, ci: usize, data: &[u8]) -> Result<usize, i32> {
        self.tick();
        let id = ci as u32;
        let nth = self.conns[ci].sends;
        self.conns[ci].sends += 1;
        if data.is_empty() {
            return Ok(0);
        }
        if self.conns[ci].shut_wr {
            return Err(libc::EPIPE);
        }
        if self.conns[ci].prof.eintr && self.ch.chance("send.eintr", id, 1, 12) {
            self.fault("write interrupted (EINTR)");
            return Err(libc::EINTR);
        }
        if self.conns[ci].rx_end == Some(End::Rst) {
            self.conns[ci].rst_reported = true;
            return Err(libc::EPIPE);
        }
        let plan = self.conns[ci].plan.clone();
        if plan.kind == Some(Fault::SendFail) && nth >= plan.send_nth && !self.conns[ci].plan_fired {
            self.conns[ci].plan_fired = true;
            self.conns[ci].muted = true;
            self.fault("write fails");
            self.server_side_closed(ci);
            self.conns[ci].rx_end = Some(End::Rst);
            self.conns[ci].rx_end_at = self.now;
            self.conns[ci].rst_reported = true;
            self.conns[ci].shut_wr = true;
            return Err(plan.send_err);
        }
        let mut n = data.len();
        if n > 1 && self.conns[ci].prof.short_write {
            let mode = self.ch.draw("send.mode", id, 4);
            if mode >= 2 {
                n = if mode == 2 { 1 } else { 1 + self.ch.draw("send.n", id, n as u64) as usize };
                if n < data.len() {
                    self.fault("short write");
                }
            }
        }
        n = self.send_room(ci, n)?;
        let data = data[..n].to_vec();
        self.client_frames(ci, &data);
        if self.conns[ci].client_bytes.len() < 100_000 {
            self.conns[ci].client_bytes.extend_from_slice(&data);
        }
        let p = self.conns[ci].prof;
        let t = (self.now + p.lat).max(self.conns[ci].c2s_last);
        self.conns[ci].c2s_last = t;
        self.mix(14, id as u64, n as u64);
        self.at(t, Ev::ToServer { conn: ci, data });
        Ok(n)
    }

    /// How much of a write the operating system takes while the server does
    /// not read: the send buffer fills up, then the call blocks.
    fn send_room(&mut self, ci: usize, n: usize) -> Result<usize, i32> {
        let start = self.now;
        loop {
            let c = &self.conns[ci];
            let silent = c.plan_fired && match c.plan.kind {
                Some(Fault::Stall) => c.muted,
                Some(Fault::StallResume) => self.now < c.stall_until,
                _ => false,
            };
            if c.rx_end == Some(End::Rst) && self.now > start {
                self.conns[ci].rst_reported = true;
                return Err(libc::ECONNRESET);
            }
            if !silent {
                self.conns[ci].backlog = 0;
                return Ok(n);
            }
            if c.sndbuf == 0 {
                let b = [160_000u64, 90_000, 2_500_000][self.ch.draw("send.buf", ci as u32, 3) as usize];
                self.conns[ci].sndbuf = b;
            }
            let c = &mut self.conns[ci];
            let room = c.sndbuf.saturating_sub(c.backlog) as usize;
            if room > 0 {
                let n = n.min(room);
                c.backlog += n as u64;
                return Ok(n);
            }
            if c.nonblock {
                return Err(libc::EAGAIN);
            }
            let until = if c.muted { None } else { Some(c.stall_until) };
            let deadline = c.snd_to.map(|t| start + t);
            self.probe("send buffer full");
            let (to, ready) = match (until, deadline) {
                (Some(u), Some(d)) if u <= d => (u, true),
                (Some(u), None) => (u, true),
                (_, Some(d)) => (d, false),
                (None, None) => {
                    self.blocked_forever = true;
                    self.note(format!("conn{}: write never returns", ci));
                    return Err(libc::ECONNABORTED);
                }
            };
            while self.now < to {
                match self.next_at() {
                    Some(t) if t <= to => self.run_one(),
                    _ => self.now = to,
                }
            }
            self.max_wait = self.max_wait.max(self.now - start);
            if !ready {
                self.note(format!("conn{} write times out", ci));
                self.probe("write timed out");
                return Err(libc::EAGAIN);
            }
        }
    }

    /// Follows the framing of what the client sends, to see when it starts a
    /// new request while a reply is still outstanding.
    fn client_frames(&mut self, ci: usize, data: &[u8]) {
        let mut bad: Option<String> = None;
        let c = &mut self.conns[ci];
        for b in data {
            if c.fr_hdr.len() < 4 {
                if c.fr_hdr.is_empty() {
                    let n = c.frames_begun;
                    c.frames_begun += 1;
                    if !c.unsolicited && c.corrupted == 0 && (c.replies_done < n + 1 || c.unread > 0) {
                        bad = Some(format!(
                            "request {} begins with {} replies complete and {} reply bytes unread",
                            n, c.replies_done, c.unread
                        ));
                    }
                }
                c.fr_hdr.push(*b);
                if c.fr_hdr.len() == 4 {
                    c.fr_need = c.fr_hdr[0] as usize | (c.fr_hdr[1] as usize) << 8 | (c.fr_hdr[2] as usize) << 16;
                    if c.fr_need == 0 {
                        c.fr_hdr.clear();
                        c.frames_sent += 1;
                    }
                }
            } else {
                c.fr_need -= 1;
                if c.fr_need == 0 {
                    c.fr_hdr.clear();
                    c.frames_sent += 1;
                }
            }
        }
        if let Some(b) = bad {
            self.monitor("pipelined-request", format!("conn{}: {}", ci, b));
        }
    }

    pub fn sys_close(&mut self, fd: i32) -> bool {
        self.pending.remove(&fd);
        self.so_error.remove(&fd);
        match self.fds.remove(&fd) {
            Some(FdObj::Conn(ci)) => {
                self.conns[ci].fds -= 1;
                self.mix(15, ci as u64, 0);
                if self.conns[ci].fds == 0 {
                    self.note(format!("conn{} closed by the client", ci));
                    self.server_side_closed(ci);
                }
                true
            }
            Some(_) => true,
            None => false,
        }
    }

    pub fn sys_dup(&mut self, fd: i32, new: i32) {
        match self.fds.get(&fd) {
            Some(FdObj::Conn(ci)) => {
                let ci = *ci;
                self.conns[ci].fds += 1;
                self.fds.insert(new, FdObj::Conn(ci));
            }
            Some(FdObj::File(f)) => {
                let f = *f;
                self.fds.insert(new, FdObj::File(f));
            }
            Some(FdObj::Fresh { nonblock, rcv_to, snd_to }) => {
                let o = FdObj::Fresh { nonblock: *nonblock, rcv_to: *rcv_to, snd_to: *snd_to };
                self.fds.insert(new, o);
            }
            None => {}
        }
    }

    pub fn sys_poll_in(&mut self, ci: usize, timeout: Option<u64>) -> Result<bool, i32> {
        self.tick();
        let c = &self.conns[ci];
        if !c.rx.is_empty() || c.rx_end.is_some() {
            return Ok(true);
        }
        if timeout == Some(0) {
            return Ok(false);
        }
        let d = timeout.map(|t| self.now + t);
        self.wait_readable(ci, d)
    }

    // ---------- file reads ----------
    /// How many bytes a read of `want` bytes at `pos` may return, or an errno.
    pub fn sys_file_read(&mut self, fi: usize, pos: u64, want: usize) -> Result<usize, i32> {
        self.now += US;
        self.steps += 1;
        let id = fi as u32;
        if self.files[fi].eintr && self.ch.chance("file.eintr", id, 1, 12) {
            self.fault("file read interrupted (EINTR)");
            return Err(libc::EINTR);
        }
        let f = &self.files[fi];
        let mut end = f.len.min(f.limit);
        if let Some(e) = f.eio_at {
            if f.eio_hit < f.eio_times {
                if pos >= e && want > 0 {
                    self.files[fi].eio_hit += 1;
                    self.fault("file read error");
                    return Err([libc::EIO, libc::EIO, libc::ESTALE, libc::ETIMEDOUT, libc::EREMOTEIO, libc::ENOMEM][self.ch.draw("file.err", id, 6) as usize]);
                }
                end = end.min(e);
            }
        }
        let avail = (end.saturating_sub(pos) as usize).min(want);
        let mut n = avail;
        if n > 1 && self.files[fi].short {
            let mode = self.ch.draw("file.mode", id, 4);
            if mode >= 2 {
                n = if mode == 2 { 1 } else { 1 + self.ch.draw("file.n", id, avail as u64) as usize };
                if n < avail {
                    self.fault("short file read");
                }
            }
        }
        self.mix(16, id as u64, n as u64);
        Ok(n)
    }
}

thread_local! {
    pub static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    /// Set while library code runs: system calls go to the simulator.
    pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
    /// Set on simulation threads: randomness is always simulated.
    pub static SIM_THREAD: Cell<bool> = const { Cell::new(false) };
    pub static RAND: Cell<u64> = const { Cell::new(1) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("world")))
}
