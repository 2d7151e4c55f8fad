//! The application side: calls into the library, with every call observed.
use crate::conv;
use crate::interpose::*;
use crate::run::CALLS;
use std::sync::atomic::Ordering;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use simcore::canon::*;
use simcore::server::*;
use simcore::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Debug, Clone)]
pub enum Stop {
    Viol(&'static str, String),
    Harness(String),
}
pub type R<T> = Result<T, Stop>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($a:tt)*) => { return Err($crate::app::Stop::Viol($class, format!($($a)*))) };
}

pub fn draw(label: &'static str, n: u64) -> u64 {
    with(|w| w.ch.draw(label, 0, n))
}
pub fn draw_i(label: &'static str, i: u32, n: u64) -> u64 {
    with(|w| w.ch.draw(label, i, n))
}
pub fn chance(label: &'static str, num: u64, den: u64) -> bool {
    with(|w| w.ch.chance(label, 0, num, den))
}
pub fn weighted(label: &'static str, wt: &[u64]) -> usize {
    with(|w| w.ch.weighted(label, 0, wt))
}
pub fn note(s: impl FnOnce() -> String) {
    with(|w| {
        if w.tracing() {
            let t = s();
            w.note(t)
        }
    })
}
pub fn probe(s: &'static str) {
    with(|w| w.probe(s))
}
pub fn now() -> u64 {
    with(|w| w.now)
}

/// Runs library code under the simulator.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    with(|w| {
        w.call_steps = w.steps;
        w.calls += 1;
    });
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    mem_begin();
    CALLS.fetch_add(1, Ordering::SeqCst);
    ACTIVE.with(|a| a.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(false));
    CALLS.fetch_add(1, Ordering::SeqCst);
    if HARNESS_PANIC.with(|h| h.get()) {
        return Err(Stop::Harness(format!("simulator panicked during {}: {}", what, PANIC_MSG.with(|m| m.borrow().clone()))));
    }
    let v = match r {
        Ok(v) => v,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            note(|| format!("{} panics: {}", what, m));
            viol!("panic", "{} panicked: {}", what, m);
        }
    };
    if with(|w| w.blocked_forever) {
        viol!("hang", "{} never returns", what);
    }
    let peak = PEAK.with(|p| p.get());
    let received = with(|w| w.conns.iter().map(|c| c.consumed).max().unwrap_or(0) + w.files.iter().map(|f| f.len).max().unwrap_or(0));
    let limit = (32u64 << 20) + 8192 * received;
    if peak as u64 > limit {
        viol!("memory", "{} holds {} bytes of memory having received {} bytes", what, peak, received);
    }
    Ok(v)
}

#[derive(Clone, Debug)]
pub enum Start {
    Begin,
    End,
    Pos(String, u32),
    My(String),
    Ma(String),
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub host: String,
    pub user: String,
    pub pass: String,
    pub db: Option<String>,
    pub server_id: u32,
    pub blocking: bool,
    pub hb: Duration,
    pub start: Start,
}

pub enum Next {
    Ev(CEvent, Box<(EventHeader, BinlogEvent)>),
    Err(String),
    End,
}

pub struct Client {
    pub id: usize,
    pub c: Option<BinlogClient>,
    pub s: Option<BinlogEvents>,
    pub ci: usize,
    pub k: usize,
}

pub fn binlog_options(start: &Start) -> R<Result<BinlogOptions, String>> {
    Ok(Ok(match start {
        Start::Begin => lib("from_start", BinlogOptions::from_start)?,
        Start::End => lib("from_end", BinlogOptions::from_end)?,
        Start::Pos(f, p) => lib("from_position", || BinlogOptions::from_position(f.clone(), *p))?,
        Start::My(t) => match lib("GtidSet::parse", || GtidSet::parse(t))? {
            Ok(s) => lib("from_mysql_gtid", || BinlogOptions::from_mysql_gtid(s))?,
            Err(e) => return Ok(Err(format!("GtidSet::parse({:?}): {:?}", t, e))),
        },
        Start::Ma(t) => match lib("GtidList::parse", || GtidList::parse(t))? {
            Ok(s) => lib("from_mariadb_gtid", || BinlogOptions::from_mariadb_gtid(s))?,
            Err(e) => return Ok(Err(format!("GtidList::parse({:?}): {:?}", t, e))),
        },
    }))
}

impl Client {
    /// Registers the client with the simulated servers and creates it.
    pub fn new(o: &Opts) -> R<Client> {
        let id = with(|w| {
            w.expects.push(Expect { user: o.user.clone(), db: o.db.clone(), server_id: o.server_id, blocking: o.blocking, hb_ns: o.hb.as_nanos() as u64 });
            w.expects.len() - 1
        });
        let mut c = Client { id, c: None, s: None, ci: 0, k: 0 };
        c.recreate(o)?;
        Ok(c)
    }

    /// A new library client in place of the old one (application restart).
    pub fn recreate(&mut self, o: &Opts) -> R<()> {
        self.drop_stream()?;
        if let Some(c) = self.c.take() {
            lib("drop client", || drop(c))?;
        }
        let b = match binlog_options(&o.start)? {
            Ok(b) => b,
            Err(e) => viol!("parse-failed", "{}", e),
        };
        let port = with(|w| w.port);
        let (o, port) = (o.clone(), port);
        let end = matches!(o.start, Start::End);
        let c = lib("BinlogClient::new", move || {
            // settings with their documented default are left to the library
            let d = ReplicaOptions::default();
            let (db, id, hb) = (o.db.clone(), o.server_id, o.hb);
            BinlogClient::new(ReplicaOptions {
                port: if port == 3306 { d.port } else { port },
                hostname: if o.host == "localhost" { d.hostname } else { o.host.clone() },
                ssl_mode: d.ssl_mode,
                username: if o.user.is_empty() { d.username } else { o.user.clone() },
                password: if o.pass.is_empty() { d.password } else { o.pass.clone() },
                database: if db.is_none() { d.database } else { db },
                server_id: if id == 65535 { d.server_id } else { id },
                blocking: if o.blocking { d.blocking } else { false },
                heartbeat_interval: if hb == Duration::from_secs(30) { d.heartbeat_interval } else { hb },
                binlog: if end { d.binlog } else { b },
            })
        })?;
        self.c = Some(c);
        Ok(())
    }

    pub fn options(&mut self) -> &mut ReplicaOptions {
        &mut self.c.as_mut().unwrap().options
    }
    pub fn coords(&self) -> (String, u32) {
        let b = &self.c.as_ref().unwrap().options.binlog;
        (b.filename.clone(), b.position)
    }
    pub fn gtid_text(&self) -> R<String> {
        let b = &self.c.as_ref().unwrap().options.binlog;
        lib("format GTID position", || match (&b.gtid_set, &b.gtid_list) {
            (Some(s), _) => s.to_string(),
            (_, Some(l)) => l.to_string(),
            _ => String::new(),
        })
    }

    pub fn replicate(&mut self) -> R<Result<(), String>> {
        self.drop_stream()?;
        let id = self.id;
        let n0 = with(|w| {
            w.cur_client = id;
            w.conns.len()
        });
        let c = self.c.as_mut().unwrap();
        let r = lib("replicate", || c.replicate())?;
        let opened: Vec<usize> = with(|w| w.conns.iter().filter(|c| c.id >= n0 && c.client == id).map(|c| c.id).collect());
        match r {
            Ok(s) => {
                self.s = Some(s);
                self.k = 0;
                let open: Vec<usize> = with(|w| opened.iter().copied().filter(|c| w.conns[*c].fds > 0).collect());
                self.ci = match open.last() {
                    Some(c) => *c,
                    None => viol!("no-connection", "replicate succeeded without an open connection"),
                };
                note(|| format!("client{} replicate ok, conn{}", id, self.ci));
                Ok(Ok(()))
            }
            Err(e) => {
                if let Some(c) = opened.last() {
                    self.ci = *c;
                }
                let t = format!("{:?}", e);
                note(|| format!("client{} replicate fails: {}", id, t));
                lib("drop error", || drop(e))?;
                Ok(Err(t))
            }
        }
    }

    pub fn next(&mut self) -> R<Next> {
        let id = self.id;
        with(|w| w.cur_client = id);
        let s = self.s.as_mut().expect("stream");
        let r = lib("next", || s.next())?;
        let n = match r {
            None => Next::End,
            Some(Err(e)) => {
                let t = format!("{:?}", e);
                release(e);
                Next::Err(t)
            }
            Some(Ok((h, e))) => Next::Ev(conv::event(&h, &e), Box::new((h, e))),
        };
        note(|| match &n {
            Next::End => format!("client{} stream ends", id),
            Next::Err(e) => format!("client{} gets error {}", id, e),
            Next::Ev(c, _) => format!("client{} gets {}", id, c.brief()),
        });
        with(|w| {
            let d = match &n {
                Next::End => 1,
                Next::Err(_) => 2,
                Next::Ev(..) => 3,
            };
            w.mix(40, id as u64, d)
        });
        Ok(n)
    }

    pub fn commit(&mut self, e: &(EventHeader, BinlogEvent)) -> R<()> {
        let c = self.c.as_mut().unwrap();
        let id = self.id;
        lib("commit", || c.commit(&e.0, &e.1))?;
        note(|| {
            let b = &self.c.as_ref().unwrap().options.binlog;
            format!("client{} commits; recorded {}:{}", id, b.filename, b.position)
        });
        Ok(())
    }

    pub fn drop_stream(&mut self) -> R<()> {
        let id = self.id;
        with(|w| w.cur_client = id);
        if let Some(s) = self.s.take() {
            lib("drop stream", || drop(s))?;
        }
        Ok(())
    }

    /// Compares an item of the stream with the next thing the server sent.
    pub fn check_item(&mut self, n: &Next) -> R<Option<Sent>> {
        let (ci, k) = (self.ci, self.k);
        let item = with(|w| w.conns[ci].sess.out.get(k).cloned());
        match n {
            Next::Ev(c, _) => match item {
                Some(Item::Ev(s)) => {
                    if *s.ev != *c {
                        viol!("wrong-event", "item {} of conn{}: {}", k, ci, conv::diff(c, &s.ev));
                    }
                    self.k += 1;
                    Ok(Some(s))
                }
                Some(o) => viol!("invented-event", "item {} of conn{}: yielded {} where the server sent {:?}", k, ci, c.brief(), o),
                None => viol!("invented-event", "item {} of conn{}: yielded {} that the server has not sent", k, ci, c.brief()),
            },
            Next::End => match item {
                Some(Item::Eof) => {
                    self.k += 1;
                    Ok(None)
                }
                o => viol!("false-end", "stream of conn{} ends after {} items, the server next sent {:?}", ci, k, o.map(brief_item)),
            },
            Next::Err(_) => Ok(None),
        }
    }
}

pub fn brief_item(i: Item) -> String {
    match i {
        Item::Ev(s) => s.ev.brief(),
        o => format!("{:?}", o),
    }
}

// ---------- files ----------
pub fn make_file(data: &[u8]) -> (std::fs::File, usize, i32) {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::syscall(libc::SYS_memfd_create, c"sim".as_ptr(), 1u32) as i32;
        assert!(fd >= 0, "memfd_create");
        append_fd(fd, data, 0);
        let fi = with(|w| {
            w.files.push(SimFile { len: data.len() as u64, pos: 0, short: false, eintr: false, eio_at: None, eio_times: 0, eio_hit: 0, limit: u64::MAX });
            w.fds.insert(fd, FdObj::File(w.files.len() - 1));
            w.files.len() - 1
        });
        (std::fs::File::from_raw_fd(fd), fi, fd)
    }
}
pub fn append_fd(fd: i32, data: &[u8], at: u64) {
    let mut off = 0usize;
    while off < data.len() {
        let n = unsafe { libc::syscall(libc::SYS_pwrite64, fd, data[off..].as_ptr(), data.len() - off, at as i64 + off as i64) };
        assert!(n > 0, "memfd write");
        off += n as usize;
    }
}

pub struct Reader {
    pub r: Option<BinlogReader>,
    pub fi: usize,
    pub fd: i32,
}

impl Reader {
    pub fn open(data: &[u8], set: impl FnOnce(&mut SimFile)) -> R<Result<Reader, String>> {
        let (f, fi, fd) = make_file(data);
        // the closure draws choices itself, so it works on a copy
        let mut file = with(|w| w.files[fi].clone());
        set(&mut file);
        with(|w| w.files[fi] = file);
        match lib("BinlogReader::new", || BinlogReader::new(f))? {
            Ok(r) => {
                let r = lib("read_events", || r.read_events())?;
                Ok(Ok(Reader { r: Some(r), fi, fd }))
            }
            Err(e) => Ok(Err(format!("{:?}", e))),
        }
    }
    pub fn next(&mut self) -> R<Next> {
        let r = self.r.as_mut().unwrap();
        let n = match lib("reader next", || r.next())? {
            None => Next::End,
            Some(Err(e)) => {
                let t = format!("{:?}", e);
                release(e);
                Next::Err(t)
            }
            Some(Ok((h, e))) => Next::Ev(conv::event(&h, &e), Box::new((h, e))),
        };
        note(|| match &n {
            Next::End => "reader: end".to_string(),
            Next::Err(e) => format!("reader: error {}", e),
            Next::Ev(c, _) => format!("reader: {}", c.brief()),
        });
        Ok(n)
    }
    pub fn close(&mut self) -> R<()> {
        if let Some(r) = self.r.take() {
            lib("drop reader", || drop(r))?;
        }
        Ok(())
    }
}
