//! Set-up and oracles shared by the property scenarios.
use crate::app::*;
use crate::viol;
use simcore::binlog::*;
use simcore::canon::*;
use simcore::server::*;
use simcore::world::*;
use std::rc::Rc;
use std::time::Duration;

/// Name of a server, by which clients address it.
pub fn host(s: usize) -> String {
    with(|w| w.names[s].clone())
}

pub fn rand_text(label: &'static str, i: u32, min: u64, max: u64) -> String {
    with(|w| {
        let n = w.ch.range(label, i, min, max);
        (0..n).map(|_| b"abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"[w.ch.draw(label, i, 57) as usize] as char).collect()
    })
}

/// Draws the general shape of a run: flavour, formats, network behaviour.
pub fn base_world(f: impl FnOnce(&mut Cfg)) {
    with(|w| {
        let mut c = Cfg::base();
        let ch = &mut w.ch;
        c.flavour = if ch.chance("cfg.maria", 0, 2, 5) { Flavour::Maria } else { Flavour::MySql };
        c.gtid = ch.chance("cfg.gtid", 0, 1, 2);
        c.rows_v2 = !ch.chance("cfg.rowsv1", 0, 1, 4);
        c.anon = ch.chance("cfg.anon", 0, 1, 2);
        c.opt_meta = !ch.chance("cfg.nometa", 0, 1, 4);
        c.seg = ch.chance("cfg.seg", 0, 3, 4);
        c.short_read = ch.chance("cfg.sr", 0, 2, 3);
        c.short_write = ch.chance("cfg.sw", 0, 1, 2);
        c.eintr = ch.chance("cfg.eintr", 0, 1, 2);
        c.lat_max_us = [0, 500, 20_000, 200_000][ch.draw("cfg.lat", 0, 4) as usize];
        c.reid_p = [(1, 16), (0, 1), (1, 3)][ch.draw("cfg.reid", 0, 3) as usize];
        c.wide = ch.chance("cfg.wide", 0, 1, 3);
        c.newer = ch.chance("cfg.newer", 0, 1, 4);
        f(&mut c);
        w.faults_left = c.fault_budget;
        w.cfg = c;
    })
}

/// Adds `n` servers; returns connection options for the first.
pub fn servers(n: usize) -> Opts {
    let pass = rand_text("acc.pass", 0, 8, 24);
    servers_with(n, pass)
}

pub fn servers_with(n: usize, pass: String) -> Opts {
    let mut user = rand_text("acc.user", 0, 1, 16);
    if with(|w| w.cfg.wide && w.ch.chance("acc.wideuser", 0, 1, 4)) {
        user += "юзер-用户";
    }
    if with(|w| w.cfg.wide && w.ch.chance("acc.blank", 0, 1, 8)) {
        user = [format!(" {}", user), format!("{} ", user), format!("{}\t", user), user.to_uppercase()][draw("acc.blankat", 4) as usize].clone();
    }
    let sha2 = chance("acc.sha2", 1, 4);
    with(|w| {
        w.accounts.push(Account { user: user.clone(), pass: pass.clone(), plugin: if sha2 { SHA2 } else { NATIVE }, cached: false });
        let naming = w.ch.weighted("srv.naming", 0, &[5, 1, 1, 1]);
        w.loopback = naming == 1 || naming == 3;
        if naming < 2 && w.ch.chance("srv.addresses", 0, 1, 6) {
            // the name has several addresses, and not all of them answer
            let (e, t) = [(libc::ECONNREFUSED, 0), (libc::ENETUNREACH, 0), (libc::EHOSTUNREACH, 50 * MS)][w.ch.draw("srv.dead", 0, 3) as usize];
            w.layout = match w.ch.draw("srv.layout", 0, 4) {
                0 => vec![Where::Dead6(e, t), Where::V4],
                1 => vec![Where::V6],
                2 => vec![Where::V6, Where::V4],
                _ => vec![Where::Dead4(e, t), Where::Dead6(e, t), Where::V4],
            };
        }
        w.inherit();
        for i in 0..n {
            let name = match naming {
                0 => format!("db{}.sim", i),
                1 => ["localhost", "localhost.localdomain", "LOCALHOST"][i].into(),
                2 => format!("10.77.0.{}", i),
                _ => format!("127.0.0.{}", i + 1),
            };
            w.names.push(name.clone());
            let alg = w.ch.weighted("srv.alg", i as u32, &[1, 1]) as u8;
            let fl = match (w.cfg.flavour, w.cfg.two_flavours && i % 2 == 1) {
                (Flavour::MySql, true) => Flavour::Maria,
                (Flavour::Maria, true) => Flavour::MySql,
                (f, _) => f,
            };
            let wide = if w.cfg.wide { 6 } else { 3 };
            let long = "b".repeat(200);
            let prefix = ["mysql-bin", "binlog", "master.log-bin", "бинлог", "b", &long][w.ch.draw("srv.prefix", i as u32, wide) as usize];
            let s = w.add_server(&name, fl, alg, prefix);
            if w.ch.chance("srv.defsha2", i as u32, 1, 4) {
                w.servers[s].default_plugin = SHA2;
            }
            w.servers[s].rsa = Some(w.ch.weighted("srv.rsa", i as u32, &[6, 6, 0, if wide == 6 { 1 } else { 0 }]));
            w.servers[s].my = w.anc_my.clone();
            w.servers[s].ma = w.anc_ma.clone();
            w.open_file(s);
        }
        w.port = [3306, 3307, 13306][w.ch.draw("srv.port", 0, 3) as usize];
    });
    let db = if chance("opt.db", 1, 3) { Some(rand_text("opt.dbname", 0, 0, 12)) } else { None };
    let wide = with(|w| w.cfg.wide);
    let mut server_id = 1 + draw("opt.id", 70_000) as u32;
    if wide {
        server_id = server_id.wrapping_add([0u32, 0x7fff_ffff, 0xfffe_0000, 0x00ff_0000][draw("opt.wideid", 4) as usize]).max(1);
    }
    if wide && chance("opt.sameid", 1, 8) {
        // a server's own id: events that originate from it are streamed like all others
        server_id = with(|w| w.servers[0].id);
    }
    if chance("opt.defid", 1, 8) {
        server_id = 65535;
    }
    let hb = [30_000u64, 1000, 5000, 250, 60_000, 4_295, 1_500, 3_600_000][draw("opt.hb", if wide { 8 } else { 5 }) as usize];
    Opts { host: host(0), user, pass, db, server_id, blocking: true, hb: Duration::from_millis(hb), start: Start::Begin }
}

/// Initial history on server 0, in one or more files.
pub fn history(s: usize, n: u64) {
    with(|w| {
        for _ in 0..n {
            w.new_tx(s);
            if w.ch.chance("hist.rotate", s as u32, 1, 6) {
                w.rotate(s);
            }
        }
    })
}

pub fn faulted(ci: usize) -> bool {
    with(|w| {
        let c = &w.conns[ci];
        c.plan_fired || c.closed_by_server || c.sess.err.is_some() || c.corrupted > 0
    })
}

pub fn hard() -> u64 {
    with(|w| w.hard)
}

/// The stream has delivered all there is for now.
pub fn drained(c: &Client) -> bool {
    with(|w| {
        let x = &w.conns[c.ci];
        w.script_done() && x.sess.st == St::Dumping && x.sess.at_head && x.sess.out.iter().skip(c.k).all(|i| matches!(i, Item::Ev(s) if matches!(s.ev.b, CBody::Heartbeat(..))))
    })
}

pub fn monitors(classes: &[&'static str]) -> R<()> {
    let hit = with(|w| w.mon.iter().find(|m| classes.contains(&m.0)).cloned());
    if let Some((c, d)) = hit {
        viol!(c, "{}", d);
    }
    Ok(())
}

/// Lets the application be busy (or idle) for a while.
pub fn think() {
    with(|w| {
        let d = match w.ch.weighted("app.think", 0, &[6, 2, 1]) {
            0 => 0,
            1 => w.ch.draw("app.thinkus", 0, 20_000) * US,
            _ => w.ch.draw("app.thinkms", 0, 2000) * MS,
        };
        if d > 0 {
            w.advance(d);
        }
    })
}

/// Every event of a server's log that a stream delivers, in order: (seq, file, end).
pub fn deliverable(s: usize) -> Vec<u32> {
    with(|w| w.servers[s].files.iter().flat_map(|f| f.evs.iter().filter(|e| !e.annotate).map(|e| e.seq)).collect())
}

/// (file, position) of every event boundary a stream may start at.
pub fn boundaries(s: usize, only_safe: bool) -> Vec<(String, u32, u32)> {
    with(|w| {
        let sv = &w.servers[s];
        let mut v = vec![];
        for f in &sv.files[sv.first..] {
            let mut safe = true;
            for e in &f.evs {
                if safe || !only_safe {
                    v.push((f.name.clone(), e.pos, e.seq));
                }
                safe = match &e.ev.b {
                    CBody::TableMap { .. } => false,
                    CBody::Write { flags, .. } | CBody::Delete { flags, .. } | CBody::Update { flags, .. } => flags & 1 != 0,
                    CBody::Unknown if rows_type(e.ev.h.typ) => false,
                    // annotations precede the table maps they belong to
                    _ => true,
                };
            }
        }
        v
    })
}

/// Rows events the library does not decode.
pub fn rows_type(t: u8) -> bool {
    t == 39 || (166..=171).contains(&t)
}

/// The position a commit of this event must leave, given the old one.
pub fn implied(old: &(String, u32), e: &CEvent) -> (String, u32) {
    match &e.b {
        CBody::TableMap { .. } => old.clone(),
        // whether it ends its statement cannot be seen
        CBody::Unknown if rows_type(e.h.typ) => old.clone(),
        CBody::Write { flags, .. } | CBody::Delete { flags, .. } | CBody::Update { flags, .. } if flags & 1 == 0 => old.clone(),
        CBody::Rotate { file, pos } => (file.clone(), *pos as u32),
        _ if e.h.next_pos > 0 => (old.0.clone(), e.h.next_pos),
        _ => old.clone(),
    }
}

// ---------- GTID oracle ----------
pub fn parse_gset_text(t: &str) -> Option<GSet> {
    let mut s = GSet::default();
    let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
    if t.is_empty() {
        return Some(s);
    }
    for part in t.split(',') {
        let mut it = part.split(':');
        let u: String = it.next()?.chars().filter(|c| *c != '-').collect();
        if u.len() != 32 {
            return None;
        }
        let mut id = [0u8; 16];
        for (i, b) in id.iter_mut().enumerate() {
            *b = u8::from_str_radix(u.get(2 * i..2 * i + 2)?, 16).ok()?;
        }
        for r in it {
            let (a, b) = match r.split_once('-') {
                Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
                None => (r.parse().ok()?, r.parse().ok()?),
            };
            if a == 0 || b < a {
                return None;
            }
            s.add_range(id, a, b);
        }
    }
    Some(s)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Track {
    pub my: GSet,
    pub ma: MaState,
}

impl Track {
    pub fn add(&mut self, g: &TGtid) {
        match g {
            TGtid::My(u, n) => self.my.add(*u, *n),
            TGtid::Ma(d, s, n) => {
                self.ma.insert(*d, (*s, *n));
            }
            TGtid::None => {}
        }
    }
    pub fn has(&self, g: &TGtid) -> bool {
        match g {
            TGtid::My(u, n) => self.my.has(u, *n),
            TGtid::Ma(d, _, n) => self.ma.get(d).map_or(false, |x| x.1 >= *n),
            TGtid::None => false,
        }
    }
    pub fn text(&self, f: Flavour) -> String {
        if f == Flavour::MySql {
            self.my.text()
        } else {
            ma_text(&self.ma)
        }
    }
    /// Compares with text printed by the library.
    pub fn matches(&self, f: Flavour, t: &str) -> bool {
        if f == Flavour::MySql {
            parse_gset_text(t).map_or(false, |s| {
                let mut s = s;
                s.0.retain(|_, v| !v.is_empty());
                let mut m = self.my.clone();
                m.0.retain(|_, v| !v.is_empty());
                s == m
            })
        } else {
            let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
            parse_ma(&t).map_or(false, |s| s == self.ma)
        }
    }
}

/// Equivalent but less tidy spellings of a GTID set, as users write them.
pub fn messy_my(s: &GSet) -> String {
    with(|w| {
        let ch = &mut w.ch;
        let mut parts: Vec<String> = vec![];
        for (u, iv) in s.0.iter().filter(|x| !x.1.is_empty()) {
            let mut id = uuid_text(u);
            match ch.draw("messy.uuid", 0, 5) {
                3 => id = id.to_uppercase(),
                4 => id = id.replace('-', ""),
                _ => {}
            }
            let mut v: Vec<(u64, u64)> = vec![];
            for (a, b) in iv {
                match ch.draw("messy.split", 0, 5) {
                    3 if b > a => {
                        let m = a + ch.draw("messy.at", 0, b - a);
                        v.push((*a, m));
                        v.push((m + 1, *b));
                    }
                    4 if b > a => {
                        // one range inside another
                        v.push((*a, *b));
                        let lo = *a + ch.draw("messy.at", 0, b - a);
                        v.push((lo, lo + ch.draw("messy.len", 0, b - lo + 1)));
                    }
                    _ => v.push((*a, *b)),
                }
            }
            for i in (1..v.len()).rev() {
                let j = i - ch.draw("messy.shuf", 0, 2.min(i as u64 + 1)) as usize;
                v.swap(i, j);
            }
            let t: Vec<String> = v.iter().map(|(a, b)| if a == b && ch.draw("messy.one", 0, 3) != 2 { a.to_string() } else { format!("{}-{}", a, b) }).collect();
            if t.len() > 1 && ch.draw("messy.dup", 0, 5) == 4 {
                parts.push(format!("{}:{}", id, t[0]));
                parts.push(format!("{}:{}", id, t[1..].join(":")));
            } else {
                parts.push(format!("{}:{}", id, t.join(":")));
            }
        }
        let sep = [",", ", ", ",\n", " , "][ch.draw("messy.sep", 0, 4) as usize];
        if parts.len() > 1 && ch.draw("messy.rev", 0, 2) == 1 {
            parts.reverse();
        }
        parts.join(sep)
    })
}

pub fn messy_ma(m: &MaState) -> String {
    with(|w| {
        let mut p: Vec<String> = m.iter().map(|(d, (s, q))| format!("{}-{}-{}", d, s, q)).collect();
        if p.len() > 1 && w.ch.draw("messy.rev", 0, 2) == 1 {
            p.reverse();
        }
        p.join([",", ", ", ",\n", " , "][w.ch.draw("messy.sep", 0, 4) as usize])
    })
}

pub fn tx(id_plus_1: u32) -> Rc<Tx> {
    with(|w| w.txs[id_plus_1 as usize - 1].clone())
}

/// Transactions delivered on one connection must be whole and in order.
#[derive(Default)]
pub struct Whole {
    cur: Option<(u32, u32)>,
}
impl Whole {
    pub fn on(&mut self, s: &Sent) -> R<()> {
        if s.tx == 0 {
            return Ok(());
        }
        let t = tx(s.tx);
        let visible: Vec<u32> = t.specs.iter().enumerate().filter(|(_, x)| !matches!(x, simcore::gen::Spec::Annotate(_))).map(|(k, _)| k as u32).collect();
        let want = match self.cur {
            Some((id, k)) if id == s.tx => visible.iter().copied().find(|x| *x > k),
            Some((id, _)) => viol!("transaction-cut", "transaction {} (gtid {:?}) interrupted by transaction {}", id - 1, tx(id).gtid, s.tx - 1),
            None => visible.first().copied(),
        };
        if want != Some(s.k) {
            viol!("transaction-cut", "transaction {} (gtid {:?}) delivered from event {} on, expected event {:?}", s.tx - 1, t.gtid, s.k, want);
        }
        self.cur = if s.last { None } else { Some((s.tx, s.k)) };
        Ok(())
    }
}
