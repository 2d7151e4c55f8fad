//! One scenario per property.
use crate::app::*;
use crate::common::*;
use crate::conv;
use crate::viol;
use mysql_cdc::ssl_mode::SslMode;
use simcore::binlog::*;
use simcore::canon::*;
use simcore::server::*;
use simcore::world::*;
use std::time::Duration;

pub fn run(prop: &str) -> R<()> {
    match prop {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => crate::replica::c03(),
        "C04" => crate::replica::gtid(Flavour::MySql),
        "C05" => crate::replica::gtid(Flavour::Maria),
        "C06" => crate::replica::c06(),
        "C07" => c07(),
        "C08" => c08(),
        "C09" => c09(),
        "C10" => c10(),
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        "C16" => crate::files::c16(),
        "C17" => crate::files::c17(),
        "C18" => crate::files::c18(),
        "C19" => c19(),
        "C20" => c20(),
        "C21" => crate::files::c21(),
        "C22" => c22(),
        "C23" => c23(),
        "C24" => c24(),
        "C27" => c27(),
        "C28" => c28(),
        "C29" => c29(),
        "C30" => c30(),
        _ => Err(Stop::Harness(format!("unknown property {}", prop))),
    }
}

/// A replicate call that must succeed unless something was injected.
/// Ok(false): it failed for an injected reason.
pub fn connect(c: &mut Client) -> R<bool> {
    let h = hard();
    match c.replicate()? {
        Ok(()) => Ok(true),
        Err(e) => {
            if hard() == h {
                viol!("set-up-failed", "replicate fails although nothing was injected: {}", e);
            }
            Ok(false)
        }
    }
}

/// A starting point inside the current history, and what it means.
pub fn draw_start(s: usize) -> Start {
    let (fl, gtid) = with(|w| (w.cfg.flavour, w.cfg.gtid));
    let g = if fl == Flavour::Maria || gtid { 2 } else { 0 };
    match weighted("start", &[3, 2, 3, g]) {
        0 => Start::Begin,
        1 => Start::End,
        2 => {
            let b = boundaries(s, true);
            let (f, p, _) = b[draw("start.pos", b.len() as u64) as usize].clone();
            Start::Pos(f, p)
        }
        _ => {
            let full = chance("start.full", 1, 3);
            let (my, ma) = with(|w| if full { (w.servers[s].my.clone(), w.servers[s].ma.clone()) } else { (w.anc_my.clone(), w.anc_ma.clone()) });
            match fl {
                Flavour::MySql => Start::My(my.text()),
                Flavour::Maria => Start::Ma(ma_text(&ma)),
            }
        }
    }
}

/// Reads a stream to the end of the history, comparing every item with what
/// the server sent. Returns false if the stream broke for an injected reason.
fn follow(c: &mut Client, max: usize) -> R<bool> {
    let mut n = 0;
    loop {
        if drained(c) {
            return Ok(true);
        }
        n += 1;
        if n > max {
            return Ok(true);
        }
        let x = c.next()?;
        c.check_item(&x)?;
        match x {
            Next::Ev(..) => {}
            Next::End => return Ok(true),
            Next::Err(e) => {
                if !faulted(c.ci) {
                    viol!("spurious-error", "stream of conn{} fails at item {} although nothing was injected: {}", c.ci, c.k, e);
                }
                return Ok(false);
            }
        }
        think();
    }
}

fn script(ops: u64) {
    with(|w| {
        w.cfg.script_ops = ops;
        w.start_script(0);
    })
}

// C01: streams are exact.
fn c01() -> R<()> {
    base_world(|c| {
        c.big = (1, 10, 200_000);
        c.max_rows = 6;
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::Stall];
        c.fault_p = (1, 4);
        c.fault_budget = 2;
        c.place = [1, 3, 6];
        c.script = [10, 2, 0, 0, 0, 1, 1, 2, 0];
        c.script_gap_ms = 400;
        c.mid_hb = c.lat_max_us == 500;
    });
    let mut o = servers(1);
    history(0, 2 + draw("n", 8));
    if chance("long", 1, 60) {
        with(|w| {
            w.cfg.big = (0, 1, 0);
            w.cfg.max_rows = 1;
        });
        history(0, [100, 300][draw("long.n", 2) as usize]);
    }
    if chance("huge", 1, 800) {
        // values near the size of the largest packet
        with(|w| {
            w.cfg.big = (1, 2, 15_000_000);
            w.cfg.max_rows = 1;
            w.cfg.seg = false;
        });
        history(0, 2);
        with(|w| w.cfg.big = (0, 1, 0));
        probe("huge values");
    }
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 10));
    let sessions = 1 + draw("sessions", 3);
    let mut tries = 0;
    for _ in 0..sessions {
        while !connect(&mut c)? {
            tries += 1;
            if tries > 10 {
                return Ok(());
            }
        }
        follow(&mut c, 5000)?;
    }
    if o.blocking && c.s.is_some() && with(|w| w.conns[c.ci].sess.st == St::Dumping) && chance("idle", 1, 2) {
        // nothing happens for a while: only heartbeats arrive
        for _ in 0..1 + draw("hbs", 3) {
            let x = c.next()?;
            c.check_item(&x)?;
            if let Next::Err(e) = x {
                if !faulted(c.ci) {
                    viol!("spurious-error", "idle stream fails: {}", e);
                }
                break;
            }
        }
    }
    c.drop_stream()
}

// C29: what has arrived is delivered at once.
fn c29() -> R<()> {
    base_world(|c| {
        c.big = (1, 12, 60_000);
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::StallResume, Fault::ServerErr];
        c.fault_p = (1, 4);
        c.fault_budget = 2;
        c.place = [1, 2, 5];
        c.script = [10, 2, 0, 0, 0, 1, 1, 2, 0];
    });
    let mut o = servers(1);
    with(|w| w.cfg.script_gap_ms = [0, 50, 400, 20_000, 200_000][w.ch.draw("gap", 0, 5) as usize]);
    history(0, 1 + draw("n", 6));
    if chance("offline", 1, 6) {
        // nothing to wait for in a file
        for f in crate::files::all_files() {
            let t0 = now();
            let mut r = match Reader::open(&f.image(), |_| ())? {
                Ok(r) => r,
                Err(e) => viol!("spurious-error", "{} cannot be opened: {}", f.name, e),
            };
            loop {
                let x = r.next()?;
                let d = now() - t0;
                if d > MS {
                    viol!("late", "reading {} waits for {:.6} s", f.name, d as f64 / 1e9);
                }
                if !matches!(x, Next::Ev(..)) {
                    break;
                }
            }
            r.close()?;
        }
    }
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 12));
    // an application which commits does so after every event, as the position needs
    let commits = chance("commit", 1, 2);
    let over = |since: u64| {
        let (t, steps) = with(|w| (w.now, w.steps - w.call_steps));
        let late = t.saturating_sub(since);
        (late > MS + steps * US, late as f64 / 1e9)
    };
    for _ in 0..1 + draw("sessions", 3) {
        let t0 = now();
        if !connect(&mut c)? {
            continue;
        }
        // every wait while connecting ends with something from the server
        let last = with(|w| w.conns[c.ci].last_rx_at.max(w.conns[c.ci].opened_at)).max(t0);
        if let (true, d) = over(last) {
            viol!("late", "replicate returns {:.6} s after the server's last reply", d);
        }
        for _ in 0..400 {
            if drained(&c) && !(o.blocking && chance("linger", 1, 2)) {
                break;
            }
            let t0 = now();
            let k = c.k;
            let x = c.next()?;
            let since = match &x {
                Next::Err(_) => with(|w| if w.conns[c.ci].rx_end.is_some() { Some(w.conns[c.ci].rx_end_at) } else { w.arrived(c.ci, k) }),
                _ => with(|w| w.arrived(c.ci, k)),
            };
            c.check_item(&x)?;
            if let Some(a) = since {
                if let (true, d) = over(a.max(t0)) {
                    viol!("late", "item {} of conn{} had arrived {:.6} s before next returned it", k, c.ci, d);
                }
                with(|w| {
                    if a > t0 {
                        w.probe("waited for an item")
                    } else {
                        w.probe("item had already arrived")
                    }
                });
            }
            match x {
                Next::Ev(e, raw) => {
                    if commits {
                        let t0 = now();
                        c.commit(&raw)?;
                        if now() > t0 + US {
                            viol!("late", "committing {} waits", e.brief());
                        }
                    }
                }
                Next::End => break,
                Next::Err(e) => {
                    if !faulted(c.ci) {
                        viol!("spurious-error", "stream of conn{} fails although nothing was injected: {}", c.ci, e);
                    }
                    break;
                }
            }
            think();
        }
        let t0 = now();
        c.drop_stream()?;
        if let (true, d) = over(t0) {
            viol!("late", "dropping the stream waits {:.6} s", d);
        }
    }
    Ok(())
}

// C30: a server is reached through any of its addresses.
fn c30() -> R<()> {
    base_world(|c| {
        c.lat_max_us = c.lat_max_us.min(20_000);
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::ServerErr, Fault::Refuse];
        c.fault_p = (1, 3);
        c.fault_budget = 2;
        c.syn_lost = true;
        c.script = [10, 2, 0, 0, 0, 1, 1, 1, 0];
    });
    let mut o = servers(2);
    auth_matrix();
    with(|w| {
        let n = 1 + w.ch.draw("addr.n", 0, 5);
        let mut l: Vec<Where> = (0..n)
            .map(|k| {
                let k = k as u32;
                let (e, t) = [(libc::ECONNREFUSED, MS), (libc::ENETUNREACH, 0), (libc::EHOSTUNREACH, 3 * SEC), (libc::ETIMEDOUT, 127 * SEC), (libc::EACCES, 0)][w.ch.draw("addr.err", k, 5) as usize];
                match w.ch.draw("addr.kind", k, 4) {
                    3 => Where::Dead4(e, t),
                    2 => Where::Dead6(e, t),
                    0 => Where::V4,
                    _ => Where::V6,
                }
            })
            .collect();
        if !l.iter().any(|x| matches!(x, Where::V4 | Where::V6)) {
            let at = w.ch.draw("addr.at", 0, n + 1) as usize;
            l.insert(at, if w.ch.chance("addr.six", 0, 1, 2) { Where::V6 } else { Where::V4 });
        }
        w.layout = l;
        // names, and sometimes numbers
        let h = match w.ch.weighted("addr.host", 0, &[6, 1, 1]) {
            1 => format!("[{}]", w.ip6_of(0)),
            2 => w.ip_of(0).to_be_bytes().map(|b| b.to_string()).join("."),
            _ => "cdc.example".to_string(),
        };
        w.hosts.insert(h.clone(), 0);
        o.host = h;
    });
    history(0, 1 + draw("n", 6));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 6));
    for _ in 0..1 + draw("sessions", 3) {
        with(|w| w.tried.clear());
        if !connect(&mut c)? {
            if with(|w| w.open_conns()) > 0 {
                viol!("connection-left-open", "replicate failed and left {} sockets open", with(|w| w.open_conns()));
            }
            continue;
        }
        let (s, open) = with(|w| (w.conns[c.ci].server, w.open_conns()));
        // every address the name resolved to before this one has been tried
        if o.host == "cdc.example" {
            let skipped = with(|w| {
                let used = *w.tried.last().unwrap();
                w.addresses(0).into_iter().take_while(|a| *a != used).find(|a| !w.tried.contains(a))
            });
            if let Some(a) = skipped {
                viol!("address-skipped", "{} comes before the address connected to and was not tried", a);
            }
        }
        if s != 0 || open != 1 {
            viol!("wrong-server", "connected to server{} with {} sockets open", s, open);
        }
        follow(&mut c, 300)?;
        c.drop_stream()?;
        if chance("move", 1, 4) {
            // the addresses come in another order next time
            with(|w| w.layout.rotate_left(1));
        }
    }
    Ok(())
}

/// Memory the library keeps between calls.
#[derive(Default)]
struct Meter {
    at: Vec<i64>,
    largest: u64,
    tables: std::collections::BTreeMap<u64, u64>,
    defs: u64,
    most: u64,
}
impl Meter {
    fn event(&mut self, e: &CEvent, raw: Box<(mysql_cdc::events::event_header::EventHeader, mysql_cdc::events::binlog_event::BinlogEvent)>) {
        self.largest = self.largest.max(e.h.len as u64);
        match &e.b {
            CBody::TableMap { table_id, .. } => {
                let cost = 512 + 16 * e.h.len as u64;
                let old = self.tables.get(table_id).copied().unwrap_or(0);
                if cost > old {
                    self.tables.insert(*table_id, cost);
                    self.defs += cost - old;
                    self.most = self.most.max(self.defs);
                }
            }
            CBody::Rotate { .. } => {
                // the next file has its own definitions
                self.tables.clear();
                self.defs = 0;
            }
            _ => {}
        }
        let x = *raw;
        crate::interpose::release(x);
        self.sample();
    }
    /// An event the library read but could not make sense of takes its room in the buffers as well.
    fn unread(&mut self) {
        for f in crate::files::all_files() {
            self.largest = f.evs.iter().map(|e| e.bytes.len() as u64).max().unwrap_or(0).max(self.largest);
        }
    }
    fn sample(&mut self) {
        self.at.push(crate::interpose::mem_live());
    }
    fn judge(&self, what: &str) -> R<()> {
        let n = self.at.len();
        if n < 40 {
            return Ok(());
        }
        let (m, e) = (self.at[n / 4], self.at[n - 1]);
        let grown = e - m;
        let limit = (16 << 10) + 4 * self.largest + self.most;
        note(|| format!("{}: {} samples, memory kept {} -> {} (limit of growth {})", what, n, m, e, limit));
        if grown > limit as i64 {
            viol!("memory-grows", "{}: between sample {} and {} the memory kept by the library grows from {} to {} bytes; the largest event has {} bytes", what, n / 4, n, m, e, self.largest);
        }
        let most = self.at.iter().copied().max().unwrap_or(0);
        let limit = (1 << 20) + 4 * self.largest + self.most;
        if most > limit as i64 {
            viol!("memory-held", "{}: the library keeps {} bytes between calls; the largest event has {} bytes", what, most, self.largest);
        }
        Ok(())
    }
}

// C28: memory in use does not depend on how long the library has been running.
fn c28() -> R<()> {
    base_world(|c| {
        c.lat_max_us = c.lat_max_us.min(500);
        c.shapes[2] = 0;
        c.alter_p = (0, 1);
        c.reid_p = (0, 1);
        c.ancestry = false;
        c.gaps = false;
        c.max_rows = 3;
        c.script = [10, 1, 0, 0, 0, 0, 0, 1, 0];
    });
    let kind = weighted("kind", &[3, 2, 3, 2, 1]);
    let n = [150u64, 60, 250][draw("size", 3) as usize];
    let mut m = Meter::default();
    // a part of the events is damaged inside sound framing
    let hurt = kind != 1 && kind != 3 && chance("damage", 1, 5);
    if hurt {
        with(|w| w.cfg.body_p = [(1, 8), (1, 3), (2, 3)][w.ch.draw("damage.p", 0, 3) as usize]);
    }
    let churn = kind == 0 && chance("churn", 1, 2);
    if churn {
        // tables are opened anew all the time, and the log is rotated often
        with(|w| {
            w.cfg.reid_p = (1, 2);
            w.cfg.max_rows = 1;
        });
    }
    if chance("mono", 1, 3) {
        // one kind of transaction only
        with(|w| {
            let k = [0usize, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][w.ch.draw("mono.k", 0, 13) as usize];
            w.cfg.shapes = [0; 14];
            w.cfg.shapes[k] = 1;
        });
    }
    match kind {
        3 => with(|w| {
            w.cfg.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::ServerErr, Fault::Refuse, Fault::SendFail, Fault::Dns];
            w.cfg.fault_p = (1, 2);
            w.cfg.fault_budget = 1000;
            w.faults_left = 1000;
            w.cfg.place = [3, 3, 3];
        }),
        4 => with(|w| {
            w.cfg.big = (1, 2, 60_000);
            w.cfg.seg = false;
        }),
        _ => {}
    }
    let mut o = servers(1);
    let commit = chance("commit", 2, 3);
    match kind {
        2 => {
            if chance("large", 1, 6) {
                with(|w| w.cfg.big = (1, 2, 60_000));
            }
            for _ in 0..n {
                with(|w| w.new_tx(0));
            }
            for f in crate::files::all_files() {
                let image = if hurt { crate::files::hurt_file(&f, with(|w| w.cfg.body_p)).0 } else { f.image() };
                let mut r = match Reader::open(&image, |_| ())? {
                    Ok(r) => r,
                    Err(e) => viol!("spurious-error", "{} cannot be opened: {}", f.name, e),
                };
                let mut m = Meter::default();
                loop {
                    match r.next()? {
                        Next::Ev(e, raw) => m.event(&e, raw),
                        Next::Err(_) if hurt => m.sample(),
                        _ => break,
                    }
                }
                if hurt {
                    m.unread();
                }
                m.judge("reading a file")?;
                r.close()?;
            }
            return Ok(());
        }
        3 => {
            history(0, 3 + draw("n", 12));
            o.start = draw_start(0);
            let mut c = Client::new(&o)?;
            for _ in 0..100 {
                if let Ok(()) = c.replicate()? {
                    for _ in 0..draw("some", 40) {
                        if drained(&c) {
                            break;
                        }
                        match c.next()? {
                            Next::Ev(e, raw) => {
                                c.k += 1;
                                if commit {
                                    c.commit(&raw)?;
                                }
                                m.largest = m.largest.max(e.h.len as u64);
                                let x = *raw;
                                crate::interpose::release(x);
                            }
                            _ => break,
                        }
                    }
                    c.drop_stream()?;
                }
                m.sample();
            }
            m.judge("connecting again and again")?;
            return Ok(());
        }
        _ => {}
    }
    let total = if kind == 1 { 2 } else if churn { 300 } else { n };
    for i in 0..total {
        with(|w| {
            w.new_tx(0);
            if churn && i % 5 == 4 || w.ch.chance("hist.rotate", 0, 1, 6) {
                w.rotate(0);
            }
        })
    }
    o.start = if kind == 1 { draw_start(0) } else { Start::Begin };
    let mut c = Client::new(&o)?;
    if !connect(&mut c)? {
        return Ok(());
    }
    let mut idle = 0;
    loop {
        if drained(&c) {
            idle += 1;
            if idle > if kind == 1 { 400 } else { 0 } {
                break;
            }
        }
        let x = c.next()?;
        if hurt {
            c.k += 1;
        } else {
            c.check_item(&x)?;
        }
        match x {
            Next::Ev(e, raw) => {
                if commit {
                    c.commit(&raw)?;
                }
                m.event(&e, raw);
            }
            Next::Err(_) if hurt => m.sample(),
            Next::Err(e) => viol!("spurious-error", "the stream fails although nothing was injected: {}", e),
            Next::End => viol!("false-end", "the stream ends"),
        }
    }
    if hurt {
        m.unread();
    }
    m.judge(if kind == 1 { "an idle stream" } else { "a stream" })?;
    c.drop_stream()
}

// C02: requests arrive whole and well framed.
fn c02() -> R<()> {
    base_world(|c| {
        c.short_write = true;
        c.eintr = true;
        c.fault_kinds = vec![Fault::SendFail];
        c.fault_p = (1, 3);
        c.fault_budget = 3;
        c.n_sources = 4;
        c.out_of_order = true;
    });
    let mut o = servers(1);
    if chance("longuser", 1, 3) {
        o.user = rand_text("user.long", 0, 20, 250);
        let (u, p) = (o.user.clone(), o.pass.clone());
        with(|w| {
            w.accounts[0].user = u;
            w.accounts[0].pass = p;
        });
    }
    if chance("longdb", 1, 3) {
        o.db = Some(rand_text("db.long", 0, 1, 300));
    }
    history(0, 2 + draw("n", 20));
    o.start = draw_start(0);
    if let Start::My(_) = o.start {
        // a large set makes a large request
        let mut t = with(|w| if w.ch.chance("set.full", 0, 1, 2) { w.servers[0].my.clone() } else { w.anc_my.clone() });
        let extra = if chance("set.many", 1, 16) { 250 + draw("set.extra", 60) } else { draw("set.extra", 30) };
        for i in 0..extra {
            let mut u = [7u8; 16];
            u[3] = i as u8;
            u[5] = (i >> 8) as u8;
            let mut at = 1;
            for _ in 0..1 + draw("set.iv", 12) {
                let len = draw("set.len", 50);
                t.add_range(u, at, at + len);
                at += len + 2 + draw("set.gap", 20);
            }
        }
        if with(|w| w.cfg.wide && w.ch.chance("set.huge", 0, 1, 12)) {
            // after many gaps the request no longer fits into 64 KB
            let mut u = [9u8; 16];
            for i in 0..3u64 {
                u[15] = i as u8;
                let iv: Vec<(u64, u64)> = (0..1000 + draw("set.hugen", 2000)).map(|k| (k * 4 + 1, k * 4 + 1 + (k + i) % 2)).collect();
                t.0.insert(u, iv);
            }
        }
        o.start = Start::My(t.text());
    }
    if let Start::Pos(..) = o.start {
        if chance("id.big", 1, 3) {
            o.server_id = u32::MAX - draw("id.v", 3) as u32;
        }
    }
    o.blocking = !chance("nonblock", 1, 3);
    let mut c = Client::new(&o)?;
    for _ in 0..1 + draw("sessions", 4) {
        let n0 = with(|w| w.conns.len());
        let h = hard();
        match c.replicate()? {
            Ok(()) => {
                let failed = with(|w| w.conns[n0..].iter().any(|x| x.plan.kind == Some(Fault::SendFail) && x.plan_fired));
                if failed {
                    viol!("write-failure-ignored", "a write failed but replicate reports success");
                }
                // all requests must be complete once the server has had time to answer
                with(|w| w.advance(3 * SEC));
                let (st, rest) = with(|w| (w.conns[c.ci].sess.st, w.conns[c.ci].sess.inbuf.len()));
                monitors(&["bad-sequence", "bad-request", "request-content", "heartbeat-request", "request-before-greeting", "request-during-dump"])?;
                if st != St::Dumping && st != St::Ready || with(|w| w.conns[c.ci].sess.dump.is_none()) || rest > 0 {
                    viol!("request-lost", "replicate reports success but the server is in state {:?} with {} bytes of an incomplete request", st, rest);
                }
                if let (Start::My(_) | Start::Ma(_) | Start::Pos(..), Some(r)) = (&o.start, with(|w| w.conns[c.ci].sess.dump.clone())) {
                    check_start(&o.start, &r, &(String::new(), 4), &[])?;
                }
                follow(&mut c, 30)?;
            }
            Err(e) => {
                monitors(&["bad-sequence", "bad-request", "request-content", "heartbeat-request", "request-before-greeting", "request-during-dump"])?;
                if hard() == h {
                    viol!("request-lost", "replicate fails although nothing was injected: {}", e);
                }
            }
        }
    }
    c.drop_stream()?;
    monitors(&["bad-sequence", "bad-request", "request-content", "heartbeat-request", "request-before-greeting", "request-during-dump"])
}

// C07: the requested starting point is honoured.
fn c07() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Dns, Fault::Refuse, Fault::ConnTimeout, Fault::Fin, Fault::Rst, Fault::Stall, Fault::ServerErr, Fault::SendFail];
        c.fault_p = (2, 3);
        c.fault_budget = 5;
        c.place = [6, 3, 1];
        c.script = [10, 3, 0, 0, 0, 0, 0, 1, 0];
    });
    let mut o = servers(1);
    history(0, 2 + draw("n", 10));
    if chance("purge", 1, 3) {
        with(|w| w.purge(0));
    }
    o.start = draw_start(0);
    if let (Flavour::MySql, true, true) = (with(|w| w.cfg.flavour), matches!(o.start, Start::My(_)), with(|w| w.servers[0].first > 0)) {
        o.start = Start::Begin;
    }
    if let (Start::Ma(_), true) = (&o.start, with(|w| w.servers[0].first > 0)) {
        o.start = Start::Begin;
    }
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 8));
    let init = c.coords();
    let mut allowed: Vec<(String, u32)> = vec![];
    let mut sure = false;
    let mut good = 0;
    let tries = 2 + draw("tries", 8);
    for _ in 0..tries {
        think();
        let n0 = with(|w| w.conns.len());
        let ok = c.replicate()?.is_ok();
        // what the lookups of this attempt told the client
        let seen: Vec<(String, u32, bool)> = with(|w| {
            w.conns[n0..]
                .iter()
                .filter_map(|x| x.sess.lookup.clone().map(|l| (l.0, l.1, x.sess.lookup_end.map_or(false, |e| x.consumed >= e))))
                .collect()
        });
        if let Start::End = o.start {
            for (f, p, whole) in &seen {
                if !sure {
                    allowed.push((f.clone(), *p));
                    sure |= *whole;
                } else {
                    viol!("start-moved", "the end position is looked up again ({}:{}) after a successful lookup", f, p);
                }
            }
        } else if !seen.is_empty() {
            viol!("start-moved", "the end position is looked up although the start is {:?}", o.start);
        }
        let reqs: Vec<DumpReq> = with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.dump.clone()).collect());
        if ok && chance("settle", 1, 2) {
            with(|w| w.advance(SEC));
        }
        let reqs = if ok { with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.dump.clone()).collect()) } else { reqs };
        for r in &reqs {
            check_start(&o.start, r, &init, &allowed)?;
        }
        if ok {
            good += 1;
            // read a little; nothing is committed
            let mut first = true;
            for _ in 0..draw("read", 12) {
                if drained(&c) {
                    break;
                }
                let x = c.next()?;
                let s = c.check_item(&x)?;
                if let Next::Err(e) = &x {
                    if !faulted(c.ci) {
                        viol!("spurious-error", "stream fails: {}", e);
                    }
                    break;
                }
                if let Next::End = x {
                    break;
                }
                if let Some(s) = s {
                    if s.seq > 0 && first {
                        first = false;
                        first_event(&o.start, &s, &allowed)?;
                    }
                }
            }
            let reqs: Vec<DumpReq> = with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.dump.clone()).collect());
            for r in &reqs {
                check_start(&o.start, r, &init, &allowed)?;
            }
            c.drop_stream()?;
            if good >= 3 {
                break;
            }
        }
    }
    c.drop_stream()
}

fn check_start(start: &Start, r: &DumpReq, init: &(String, u32), allowed: &[(String, u32)]) -> R<()> {
    match start {
        Start::Begin => {
            let oldest = with(|w| w.servers[0].files[w.servers[0].first].name.clone());
            if !(r.file.is_empty() || r.file == oldest) || r.pos != 4 || r.gtid {
                viol!("wrong-start", "from the start: dump requested at {:?}:{}, oldest file is {}", r.file, r.pos, oldest);
            }
        }
        Start::End => {
            if !allowed.iter().any(|a| a.0 == r.file && a.1 as u64 == r.pos) {
                viol!("wrong-start", "from the end: dump requested at {:?}:{}, the server reported {:?}", r.file, r.pos, allowed);
            }
        }
        Start::Pos(f, p) => {
            if r.file != *f || r.pos != *p as u64 {
                viol!("wrong-start", "dump requested at {:?}:{}, asked for {}:{}", r.file, r.pos, f, p);
            }
        }
        Start::My(t) => {
            let want = parse_gset_text(t).unwrap_or_default();
            let mut got = r.set.clone().unwrap_or_default();
            got.0.retain(|_, v| !v.is_empty());
            if !r.gtid || got != want || !r.file.is_empty() {
                viol!("wrong-start", "GTID start {}: dump requested with {:?}", t, r);
            }
        }
        Start::Ma(t) => {
            if r.ma != parse_ma(t) {
                viol!("wrong-start", "GTID start {}: dump requested with {:?}", t, r);
            }
        }
    }
    let _ = init;
    Ok(())
}

fn first_event(start: &Start, s: &Sent, allowed: &[(String, u32)]) -> R<()> {
    let b = boundaries(0, false);
    let want: Option<u32> = match start {
        Start::Begin => b.first().map(|x| x.2),
        Start::Pos(f, p) => succ(f, *p),
        Start::End => {
            // any of the allowed coordinates
            let c: Vec<u32> = allowed.iter().filter_map(|(f, p)| succ(f, *p)).collect();
            if c.contains(&s.seq) {
                return Ok(());
            }
            c.first().copied()
        }
        _ => return Ok(()),
    };
    if want != Some(s.seq) {
        viol!("wrong-first-event", "start {:?}: first event is {} (log event {}), expected log event {:?}", start, s.ev.brief(), s.seq, want);
    }
    Ok(())
}

/// Log sequence number of the first streamed event at or after a position.
fn succ(f: &str, p: u32) -> Option<u32> {
    with(|w| {
        let sv = &w.servers[0];
        let i = sv.files.iter().position(|x| x.name == *f)?;
        let mut it = sv.files[i].evs.iter().filter(|e| e.pos >= p && !(e.annotate)).map(|e| e.seq).chain(sv.files[i + 1..].iter().flat_map(|x| x.evs.iter().map(|e| e.seq)));
        it.next()
    })
}

// C08: the recorded position moves only through commit.
fn c08() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Dns, Fault::Refuse, Fault::Fin, Fault::Rst, Fault::Stall, Fault::ServerErr, Fault::SendFail];
        c.fault_p = (1, 3);
        c.fault_budget = 4;
        c.place = [2, 2, 4];
        c.script = [10, 3, 0, 0, 0, 1, 0, 1, 0];
        c.shapes = [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 4, 1, 0];
    });
    let mut o = servers(1);
    history(0, 2 + draw("n", 8));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 8));
    let mut lookups = 0;
    // a position recorded by committing an earlier event again may lie anywhere
    let mut odd = false;
    for _ in 0..1 + draw("sessions", 5) {
        let (before, g) = (c.coords(), c.gtid_text()?);
        let n0 = with(|w| w.conns.len());
        let ok = connect(&mut c)?;
        let after = c.coords();
        if after != before {
            let seen: Vec<(String, u32)> = with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.lookup.clone()).collect());
            lookups += 1;
            let end = matches!(o.start, Start::End);
            if !end || lookups > 1 || !seen.contains(&after) {
                viol!("moved-without-commit", "replicate moved the position from {:?} to {:?} (start {:?}, lookups {:?})", before, after, o.start, seen);
            }
        }
        if c.gtid_text()? != g {
            viol!("moved-without-commit", "replicate changed the GTID position from {} to {}", g, c.gtid_text()?);
        }
        if !ok {
            continue;
        }
        let mut uncommitted: Vec<(Option<Sent>, CEvent, Box<_>)> = vec![];
        let lag = draw("lag", 3) as usize;
        let mut done: Vec<(CEvent, Box<_>)> = vec![];
        for _ in 0..draw("read", 60) {
            if drained(&c) && chance("stop", 2, 3) {
                break;
            }
            let (before, g) = (c.coords(), c.gtid_text()?);
            let x = c.next()?;
            let s = c.check_item(&x)?;
            if c.coords() != before || c.gtid_text()? != g {
                viol!("moved-without-commit", "reading moved the position from {:?} to {:?}", before, c.coords());
            }
            match x {
                Next::Ev(e, b) => uncommitted.push((s, e, b)),
                Next::Err(e) => {
                    if !faulted(c.ci) && !odd {
                        viol!("spurious-error", "stream fails: {}", e);
                    }
                    break;
                }
                Next::End => break,
            }
            while uncommitted.len() > lag {
                let (s, e, b) = uncommitted.remove(0);
                let (old, g) = (c.coords(), c.gtid_text()?);
                c.commit(&b)?;
                let want = implied(&old, &e);
                if c.coords() != want {
                    viol!("wrong-position", "commit of {} at {:?} leaves {:?}, expected {:?}", e.brief(), old, c.coords(), want);
                }
                if !matches!(o.start, Start::My(_) | Start::Ma(_)) && chance("recommit", 1, 30) {
                    // the application commits an earlier event again
                    if done.len() > 4 {
                        let i = draw("recommit.i", done.len() as u64) as usize;
                        let old = c.coords();
                        c.commit(&done[i].1)?;
                        odd = true;
                        let (want, got) = (implied(&old, &done[i].0), c.coords());
                        if got != want {
                            viol!("wrong-position", "another commit of {} at {:?} leaves {:?}, expected {:?}", done[i].0.brief(), old, got, want);
                        }
                    }
                }
                if done.len() < 40 {
                    done.push((e.clone(), b));
                }
                let last = s.map_or(false, |s| s.last);
                if !last && c.gtid_text()? != g {
                    viol!("moved-without-commit", "commit of {} (not the end of a transaction) changed the GTID position from {} to {}", e.brief(), g, c.gtid_text()?);
                }
                if chance("skipcommit", 1, 40) {
                    break;
                }
            }
        }
        let before = (c.coords(), c.gtid_text()?);
        c.drop_stream()?;
        if (c.coords(), c.gtid_text()?) != before {
            viol!("moved-without-commit", "dropping the stream moved the position");
        }
    }
    Ok(())
}

fn carries(text: &str, code: u16, msg: &str) -> bool {
    // the error value may be printed with quotes escaped, once or twice
    let plain = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>();
    text.contains(&code.to_string()) && plain(text).contains(&plain(msg))
}

// C09: server errors are reported at every stage.
fn c09() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::ServerErr];
        c.fault_p = (5, 6);
        c.fault_budget = 4;
        c.place = [5, 5, 1];
        c.script = [10, 1, 0, 0, 0, 0, 0, 1, 0];
    });
    let mut o = servers(1);
    auth_matrix();
    history(0, 1 + draw("n", 5));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    if chance("badpos", 1, 10) {
        o.start = if chance("badfile", 1, 2) { Start::Pos("nosuch-bin.000001".into(), 4) } else { Start::Pos(with(|w| w.servers[0].files[0].name.clone()), 1 << 30) };
    }
    let mut c = Client::new(&o)?;
    script(draw("ops", 4));
    for _ in 0..1 + draw("sessions", 5) {
        let n0 = with(|w| w.conns.len());
        let h = hard();
        let r = c.replicate()?;
        let err = with(|w| w.conns[n0..].iter().rev().find_map(|x| x.sess.err.clone()));
        match (&r, &err) {
            (Ok(()), Some((code, msg, stage))) if *stage != "event stream" => {
                viol!("error-ignored", "the server answered with error {} {:?} ({}), but replicate reports success", code, msg, stage)
            }
            (Err(t), Some((code, msg, stage))) => {
                if !carries(t, *code, msg) {
                    viol!("error-text-lost", "the server answered with error {} {:?} ({}), replicate reports {}", code, msg, stage, t);
                }
                let after = with(|w| w.conns[n0..].last().map(|x| (x.frames_begun, x.sess.stage)));
                let _ = after;
            }
            (Err(t), None) if hard() == h => viol!("set-up-failed", "replicate fails although nothing was injected: {}", t),
            _ => {}
        }
        if r.is_err() {
            continue;
        }
        for _ in 0..60 {
            if drained(&c) {
                break;
            }
            let x = c.next()?;
            c.check_item(&x)?;
            let item = with(|w| w.conns[c.ci].sess.out.get(c.k).cloned());
            match x {
                Next::Ev(..) => {}
                Next::End => break,
                Next::Err(t) => {
                    match item {
                        Some(Item::Err(code, msg)) => {
                            if !carries(&t, code, &msg) {
                                viol!("error-text-lost", "the stream carried error {} {:?}, the iterator reports {}", code, msg, t);
                            }
                        }
                        _ => {
                            if !faulted(c.ci) {
                                viol!("spurious-error", "stream fails: {}", t);
                            }
                        }
                    }
                    break;
                }
            }
        }
    }
    c.drop_stream()
}

/// Draws account plugin, server default plugin, cache and key state.
fn auth_matrix() {
    with(|w| {
        let p = w.ch.draw("auth.plugin", 0, 2);
        for a in w.accounts.iter_mut() {
            a.plugin = if p == 1 { SHA2 } else { NATIVE };
        }
        let d = w.ch.draw("auth.default", 0, 2);
        let cached = w.ch.chance("auth.cached", 0, 1, 2);
        for s in w.servers.iter_mut() {
            s.default_plugin = if d == 1 { SHA2 } else { NATIVE };
            for c in s.cached.iter_mut() {
                *c = cached;
            }
        }
    })
}

fn draw_password(i: u32) -> String {
    match with(|w| w.ch.weighted("pw.kind", i, &[6, 2, 1, 2, 1, 1, 1])) {
        0 => rand_text("pw", i, 1, 32),
        1 => String::new(),
        2 => rand_text("pw", i, 33, 60),
        3 => {
            let s = rand_text("pw", i, 1, 10);
            s + "пароль-密码\u{1F512}"
        }
        4 => rand_text("pw", i, 61, 85),
        5 => rand_text("pw", i, 86, 213),
        _ => " '\"\\%_;--".to_string() + &rand_text("pw", i, 0, 6),
    }
}

// C10: a session is set up exactly when the server accepts the credentials.
fn c10() -> R<()> {
    base_world(|c| {
        c.lat_max_us = c.lat_max_us.min(20_000);
    });
    let pass = draw_password(0);
    let mut o = servers_with(1, pass);
    if chance("emptyuser", 1, 20) {
        o.user = String::new();
        with(|w| w.accounts[0].user = String::new());
    }
    auth_matrix();
    with(|w| {
        match w.ch.weighted("norsa", 0, &[8, 3, 1]) {
            0 => {}
            1 => w.servers[0].rsa = None,
            _ => w.servers[0].rsa = Some(2),
        }
    });
    history(0, 1 + draw("n", 3));
    let right = o.pass.clone();
    let mut old: Option<Client> = None;
    for i in 0..1 + draw("sessions", 4) as u32 {
        let wrong = chance("wrong", 1, 3);
        let mut p = o.clone();
        if wrong {
            p.pass = match draw_i("wrong.how", i, 6) {
                0 => right.clone() + "x",
                1 => String::new(),
                2 => right.chars().skip(1).collect(),
                3 => right.to_uppercase(),
                4 => {
                    p.user = p.user.clone() + "2";
                    right.clone()
                }
                _ => draw_password(i + 1),
            };
        }
        if chance("switchplugin", 1, 6) {
            auth_matrix();
        }
        if with(|w| w.servers[0].rsa.is_some()) && chance("newkey", 1, 6) {
            // the server comes back with a new key pair
            with(|w| {
                w.servers[0].rsa = Some(w.ch.draw("newkey.which", i, 2) as usize);
                w.servers[0].cached[0] = false;
            });
        }
        let (plugin, rsa, cached) = with(|w| (w.accounts[0].plugin, w.servers[0].rsa.is_some(), w.servers[0].cached[0]));
        let good = p.user == o.user && p.pass == right;
        // OAEP leaves 86 bytes of a 1024-bit key, 214 of a 2048-bit key and so on, one of them for the zero
        let fits = right.len() < [86, 214, 22, 470][with(|w| w.servers[0].rsa.unwrap_or(0))];
        let able = plugin == NATIVE || rsa && fits || cached || right.is_empty();
        let mut c = match old.take() {
            Some(mut c) if chance("reuse", 1, 2) => {
                // the application changes the credentials of the client it has
                c.options().username = p.user.clone();
                c.options().password = p.pass.clone();
                with(|w| w.expects[c.id].user = p.user.clone());
                c
            }
            _ => Client::new(&p)?,
        };
        let r = c.replicate()?;
        let (authed, err) = with(|w| {
            let x = w.conns.last().unwrap();
            (x.sess.authed, x.sess.err.clone())
        });
        monitors(&["command-before-auth", "bad-sequence", "request-content", "bad-request", "pipelined-request"])?;
        let path = format!("plugin {}, default {}, cached {}, key {}, password of {} bytes", plugin, with(|w| w.servers[0].default_plugin), cached, rsa, p.pass.len());
        match r {
            Ok(()) => {
                if !authed {
                    viol!("accepted-without-server", "replicate reports success but the server did not accept the credentials ({})", path);
                }
                if !good {
                    return Err(Stop::Harness(format!("model server accepted wrong credentials ({})", path)));
                }
                let mut seen = 0;
                for _ in 0..3 {
                    let x = c.next()?;
                    c.check_item(&x)?;
                    match x {
                        Next::Ev(..) => seen += 1,
                        Next::Err(e) => viol!("session-unusable", "first events cannot be read: {} ({})", e, path),
                        Next::End => {}
                    }
                }
                let _ = seen;
                probe("right password accepted");
            }
            Err(e) => {
                if good && able {
                    viol!("right-password-refused", "replicate with the right password fails: {} (server error {:?}; {})", e, err, path);
                }
                if authed {
                    viol!("set-up-failed", "the server accepted the credentials but replicate fails: {} ({})", e, path);
                }
                probe("wrong password refused");
            }
        }
        c.drop_stream()?;
        old = Some(c);
    }
    monitors(&["command-before-auth", "bad-sequence", "request-content", "bad-request", "pipelined-request"])
}

fn hexs(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| format!("{:02x}", x).into_bytes()).collect()
}
fn b64(b: &[u8]) -> Vec<u8> {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(n >> (18 - 6 * i) & 63) as usize]);
        }
    }
    o
}
fn find(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && h.windows(n.len()).any(|w| w == n)
}

/// Does `sent` contain the password, plainly or masked with data seen on the wire?
fn leaks(sent: &[u8], seen: &[u8], scrambles: &[Vec<u8>], pw: &[u8]) -> Option<String> {
    let rev: Vec<u8> = pw.iter().rev().copied().collect();
    for (what, v) in [("hexadecimal", hexs(pw)), ("base64", b64(pw)), ("reversed", rev)] {
        if find(sent, &v) {
            return Some(format!("password sent in {} form", what));
        }
    }
    for w in sent.windows(8) {
        if find(pw, w) {
            return Some("eight bytes of the password in clear".into());
        }
    }
    if sent.len() < pw.len() {
        return None;
    }
    for (i, w) in sent.windows(pw.len()).enumerate() {
        let x: Vec<u8> = w.iter().zip(pw).map(|(a, b)| a ^ b).collect();
        if x.iter().all(|b| *b == x[0]) {
            return Some(format!("password XOR constant {:02x} at byte {}", x[0], i));
        }
        let d: Vec<u8> = w.iter().zip(pw).map(|(a, b)| a.wrapping_sub(*b)).collect();
        if d.iter().all(|b| *b == d[0]) {
            return Some(format!("password plus constant {:02x} at byte {}", d[0], i));
        }
        for k in scrambles {
            let two: Vec<u8> = k.iter().cycle().take(k.len() + pw.len()).copied().collect();
            if !k.is_empty() && find(&two, &x) {
                return Some(format!("password masked with the scramble at byte {}", i));
            }
        }
        if find(seen, &x) || find(sent, &x) {
            return Some(format!("password masked with wire data at byte {}", i));
        }
    }
    None
}

// C11: the password never crosses the wire.
fn c11() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::Stall, Fault::ServerErr, Fault::SendFail];
        c.fault_p = (1, 3);
        c.fault_budget = 4;
        c.place = [6, 2, 0];
        c.corrupt_p = if c.gtid { (1, 5) } else { (0, 1) };
    });
    // short ones, and lengths at which an encryption scheme meets its limits
    let (lo, hi) = [(10, 40), (18, 23), (60, 66), (82, 90), (124, 130), (208, 216), (252, 258)][with(|w| w.ch.weighted("acc.passlen", 0, &[12, 1, 1, 1, 1, 1, 1]))];
    let pass = rand_text("acc.pass", 0, lo, hi);
    let mut o = servers_with(1, pass);
    auth_matrix();
    with(|w| {
        match w.ch.weighted("norsa", 0, &[8, 2, 1, 1]) {
            0 => {}
            1 => w.servers[0].rsa = None,
            k => w.servers[0].rsa = Some(k),
        }
        w.rogue = w.ch.chance("rogue", 0, 1, 2);
    });
    history(0, 1 + draw("n", 3));
    o.start = draw_start(0);
    let mut c = Client::new(&o)?;
    // encryption demanded, or used if offered; no server here offers it
    let ssl = with(|w| if w.cfg.corrupt_p.0 > 0 { 0 } else { w.ch.weighted("ssl", 0, &[8, 2, 2, 1, 1]) });
    c.options().ssl_mode = [SslMode::Disabled, SslMode::IfAvailable, SslMode::Require, SslMode::RequireVerifyCa, SslMode::RequireVerifyFull][ssl];
    with(|w| w.cfg.no_tls = ssl > 0);
    for _ in 0..1 + draw("sessions", 5) {
        if chance("switchplugin", 1, 4) {
            auth_matrix();
        }
        let ok = c.replicate()?.is_ok();
        if ok && ssl >= 2 {
            viol!("encryption-not-enforced", "replicate succeeds with {:?} although the server offers no encryption", c.options().ssl_mode);
        }
        if ok {
            for _ in 0..draw("read", 6) {
                if !matches!(c.next()?, Next::Ev(..)) {
                    break;
                }
            }
        }
        c.drop_stream()?;
    }
    let conns: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = with(|w| w.conns.iter().map(|x| (x.client_bytes.clone(), x.server_bytes.clone(), x.sess.scramble.clone())).collect());
    let scr: Vec<Vec<u8>> = conns.iter().map(|x| x.2.clone()).collect();
    for (i, (sent, seen, _)) in conns.iter().enumerate() {
        if ssl >= 2 && !sent.is_empty() {
            viol!("encryption-not-enforced", "conn{}: {} bytes sent to a server without encryption, which the options demand", i, sent.len());
        }
        if let Some(why) = leaks(sent, seen, &scr, o.pass.as_bytes()) {
            viol!("password-leaked", "conn{}: {}", i, why);
        }
    }
    Ok(())
}

// C12: silence is detected in time, live servers are not declared dead.
fn c12() -> R<()> {
    let idle = |n: u64| n;
    base_world(|c| {
        c.fault_kinds = vec![Fault::Stall];
        c.fault_p = (2, 3);
        c.fault_budget = 3;
        c.place = [5, 3, 3];
        c.script = [3, 1, 0, 0, 0, 0, 0, 4, 0];
        c.big = (0, 1, 0);
    });
    let mut o = servers(1);
    auth_matrix();
    o.hb = Duration::from_millis(match draw("hb", 8) {
        0 => 1000,
        1 => 1,
        2 => 30_000,
        3 => 500,
        4 => 1 + draw("hb.ms", 100_000),
        5 => 3_600_000,
        6 => 60_000,
        _ => 1 + draw("hb.ms", 3000),
    });
    let hb = std::cell::Cell::new(o.hb.as_nanos() as u64);
    let live = chance("live", 1, 2);
    with(|w| {
        if live {
            w.cfg.fault_budget = 0;
            w.faults_left = 0;
            // everything may be late, but by less than ten seconds
            w.cfg.slow_max_ms = [0, 100, 9600, 9900][w.ch.draw("slow", 0, 4) as usize];
            w.cfg.slow_edge = w.cfg.slow_max_ms == 9900;
            w.cfg.lat_max_us = w.cfg.lat_max_us.min(20_000);
        }
        w.cfg.script_gap_ms = [200, 20_000, 7_200_000][w.ch.draw("gap", 0, 3) as usize];
    });
    history(0, 1 + draw("n", 4));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 6);
    if chance("huge", 1, 24) && with(|w| w.cfg.flavour == Flavour::MySql && w.cfg.gtid) {
        // the dump request exceeds what the operating system buffers
        let mut t = GSet::default();
        for i in 0..4 {
            let mut u = [9u8; 16];
            u[15] = i as u8;
            t.0.insert(u, (0..2600 + draw("huge.n", 2000)).map(|k| (k * 4 + 1, k * 4 + 1 + (k + i) % 2)).collect());
        }
        o.start = Start::My(t.text());
        with(|w| {
            w.cfg.fault_kinds = vec![Fault::Stall, Fault::StallResume];
            w.cfg.whole_cuts = true;
            w.cfg.place = [1, 0, 0];
        });
    }
    let mut c = Client::new(&o)?;
    script(draw("ops", 6));
    let slack = 20 * MS;
    let check = |what: &str, t0: u64, ci: Option<usize>| -> R<()> {
        let t1 = now();
        let last = with(|w| ci.map_or(t0, |c| w.conns[c].last_rx_at.min(t1).max(w.conns[c].opened_at)));
        let base = last.max(t0);
        let over = t1.saturating_sub(base);
        if over > hb.get() + 10 * SEC + slack {
            viol!(
                "silence-not-detected",
                "{} returned {:.3} s after the last byte from the server; heartbeat interval {:.3} s plus 10 s is the limit",
                what,
                over as f64 / 1e9,
                hb.get() as f64 / 1e9
            );
        }
        Ok(())
    };
    for s in 0..1 + draw("sessions", 3) {
        if s > 0 && chance("newhb", 1, 3) {
            // the application changes the interval of the client it has
            o.hb = Duration::from_millis(1 + draw("hb.new", 100_000));
            let d = o.hb;
            hb.set(d.as_nanos() as u64);
            c.options().heartbeat_interval = d;
            with(|w| w.expects[c.id].hb_ns = d.as_nanos() as u64);
        }
        let n0 = with(|w| w.conns.len());
        let t0 = now();
        let h = hard();
        let r = c.replicate()?;
        let ci = with(|w| if w.conns.len() > n0 { Some(w.conns.len() - 1) } else { None });
        check("replicate", t0, ci)?;
        monitors(&["heartbeat-request"])?;
        if let Err(e) = r {
            if hard() == h {
                viol!("live-server-declared-dead", "replicate fails although nothing was injected: {}", e);
            }
            continue;
        }
        let mut hbs = 0;
        for _ in 0..80 {
            if drained(&c) && hbs > idle(4) {
                break;
            }
            let t0 = now();
            let x = c.next()?;
            c.check_item(&x)?;
            check("next", t0, Some(c.ci))?;
            match x {
                Next::Ev(e, _) => {
                    if let CBody::Heartbeat(_) = e.b {
                        hbs += 1;
                    }
                }
                Next::End => break,
                Next::Err(e) => {
                    if !faulted(c.ci) {
                        viol!("live-server-declared-dead", "the stream of a live server (heartbeat interval {:?}) fails: {}", o.hb, e);
                    }
                    break;
                }
            }
            if chance("busy", 1, 8) {
                with(|w| w.advance(20 * SEC));
            }
        }
        c.drop_stream()?;
    }
    monitors(&["heartbeat-request"])
}

// C13: lost connections are errors; nothing is invented afterwards.
fn c13() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::Stall, Fault::StallResume, Fault::StallResume, Fault::ServerErr];
        c.fault_p = (5, 6);
        c.fault_budget = 3;
        c.place = [1, 3, 6];
        c.big = (1, 8, 30_000);
        c.script = [10, 1, 0, 0, 0, 1, 0, 1, 0];
    });
    let mut o = servers(1);
    o.hb = Duration::from_millis([1000u64, 100, 30_000, 5000][draw("hb13", 4) as usize]);
    history(0, 2 + draw("n", 8));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 3);
    let mut c = Client::new(&o)?;
    script(draw("ops", 8));
    for _ in 0..1 + draw("sessions", 3) {
        if !connect(&mut c)? {
            continue;
        }
        let mut errs = 0;
        for _ in 0..600 {
            if drained(&c) && chance("stop", 1, 2) {
                break;
            }
            let x = c.next()?;
            match x {
                Next::Ev(..) => {
                    c.check_item(&x)?;
                    if errs > 0 {
                        probe("stream continued after an error");
                    }
                }
                Next::End => {
                    // an ended stream after a reported error is acceptable
                    if errs == 0 {
                        c.check_item(&x)?;
                    }
                    if errs > 0 || chance("end.stop", 1, 2) {
                        break;
                    }
                    // keep calling: nothing may appear out of thin air
                    let (ci, k) = (c.ci, c.k);
                    let more = with(|w| w.conns[ci].sess.out.len() > k);
                    if !more {
                        let y = c.next()?;
                        if let Next::Ev(e, _) = y {
                            viol!("invented-event", "after the end of the stream: {}", e.brief());
                        }
                    }
                    break;
                }
                Next::Err(e) => {
                    if errs == 0 && !faulted(c.ci) {
                        viol!("spurious-error", "stream of conn{} fails at item {}: {}", c.ci, c.k, e);
                    }
                    errs += 1;
                    if errs > 12 {
                        break;
                    }
                }
            }
        }
        c.drop_stream()?;
    }
    Ok(())
}

// C14: non-blocking reads deliver everything available, then end.
fn c14() -> R<()> {
    base_world(|c| {
        c.big = (1, 12, 60_000);
        c.script = [10, 3, 0, 0, 0, 0, 1, 1, 0];
        c.script_gap_ms = 50;
        c.lat_max_us = c.lat_max_us.min(20_000);
    });
    let mut o = servers(1);
    history(0, draw("n", 14));
    o.start = draw_start(0);
    o.blocking = chance("blocking", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 8));
    if chance("earlier", 1, 4) {
        // an earlier session of the same client in the other mode
        let set = |c: &mut Client, b: bool| {
            c.options().blocking = b;
            with(|w| w.expects[c.id].blocking = b);
        };
        set(&mut c, !o.blocking);
        if !connect(&mut c)? {
            return Ok(());
        }
        for _ in 0..draw("earlier.n", 6) {
            let x = c.next()?;
            c.check_item(&x)?;
            if !matches!(x, Next::Ev(..)) {
                break;
            }
        }
        c.drop_stream()?;
        set(&mut c, o.blocking);
    }
    if !connect(&mut c)? {
        return Ok(());
    }
    if o.blocking {
        // later events arrive and the stream does not end by itself
        let mut extra = 3;
        loop {
            if drained(&c) {
                extra -= 1;
                if extra == 0 {
                    break;
                }
                with(|w| {
                    w.new_tx(0);
                });
                let t0 = now();
                let want = with(|w| w.servers[0].log_seq);
                loop {
                    let x = c.next()?;
                    let s = c.check_item(&x)?;
                    match x {
                        Next::Err(e) => viol!("spurious-error", "stream fails: {}", e),
                        _ => {}
                    }
                    if s.map_or(false, |s| s.seq >= want) || drained(&c) {
                        break;
                    }
                }
                let _ = t0;
                continue;
            }
            let x = c.next()?;
            c.check_item(&x)?;
            if let Next::Err(e) = x {
                viol!("spurious-error", "stream fails: {}", e);
            }
        }
        return c.drop_stream();
    }
    let mut last_seq = 0;
    let mut got = vec![];
    loop {
        let t0 = now();
        let x = c.next()?;
        let s = c.check_item(&x)?;
        let arrived = with(|w| w.conns[c.ci].last_rx_at);
        match x {
            Next::Ev(..) => {
                let s = s.unwrap();
                if s.seq > 0 {
                    last_seq = s.seq;
                    got.push(s.seq);
                }
            }
            Next::Err(e) => viol!("spurious-error", "non-blocking stream fails after {} events: {}", got.len(), e),
            Next::End => {
                let late = now().saturating_sub(arrived.max(t0));
                if late > 50 * MS {
                    viol!("waited-at-end", "the end was reported {} ms after it was announced", late / MS);
                }
                break;
            }
        }
        think();
    }
    // everything in the log from the starting point on was delivered
    let all = deliverable(0);
    let (first, skip) = with(|w| {
        let x = &w.conns[c.ci].sess;
        (got.first().copied().unwrap_or(0), x.set.is_some() || x.ma.is_some())
    });
    if !skip && !got.is_empty() {
        let want: Vec<u32> = all.iter().copied().filter(|s| *s >= first && *s <= last_seq).collect();
        if want != got {
            viol!("missing-events", "non-blocking read yielded log events {:?}, expected {:?}", got, want);
        }
    }
    for _ in 0..draw("again", 3) {
        // the connection is finished; nothing further may be invented
        let t0 = now();
        let x = c.next()?;
        let _ = t0;
        if let Next::Ev(e, _) = x {
            viol!("invented-event", "after the end: {}", e.brief());
        }
    }
    c.drop_stream()
}

// C15: damaged packets never crash the client.
fn c15() -> R<()> {
    base_world(|c| {
        c.corrupt_p = [(1, 40), (1, 12), (1, 4)][if c.seg { 0 } else if c.eintr { 1 } else { 2 }];
        c.fault_kinds = vec![Fault::Fin];
        c.fault_p = (1, 10);
        c.fault_budget = 2;
        c.script = [10, 2, 0, 0, 0, 0, 1, 0, 0];
        c.shapes = [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 3, 1, 2];
    });
    with(|w| w.cfg.barrage = w.ch.chance("barrage", 0, 1, 2));
    let patience = if with(|w| w.cfg.barrage) { 150 } else { 6 };
    let mut o = servers(1);
    auth_matrix();
    o.hb = Duration::from_millis(500);
    history(0, 2 + draw("n", 12));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 5));
    for _ in 0..1 + draw("sessions", 5) {
        if c.replicate()?.is_err() {
            continue;
        }
        let mut errs = 0;
        for _ in 0..150 {
            if drained(&c) {
                break;
            }
            match c.next()? {
                Next::Ev(_, b) => c.commit(&b)?,
                Next::End => break,
                Next::Err(_) => {
                    errs += 1;
                    if errs > patience {
                        break;
                    }
                }
            }
        }
        let _ = c.gtid_text()?;
        c.drop_stream()?;
    }
    Ok(())
}

/// Which rows events can be judged while some events arrive damaged: those
/// whose table was defined by a sound event after the last damaged definition.
#[derive(Default)]
pub struct Defs(std::collections::BTreeSet<u64>);
impl Defs {
    pub fn hurt(&mut self, typ: u8) {
        if typ == 19 {
            self.0.clear();
        }
    }
    /// Takes a sound event; false if it depends on damaged ones.
    pub fn sound(&mut self, b: &CBody) -> bool {
        match b {
            CBody::TableMap { table_id, .. } => {
                self.0.insert(*table_id);
                true
            }
            CBody::Write { table_id, .. } | CBody::Update { table_id, .. } | CBody::Delete { table_id, .. } => self.0.contains(table_id),
            _ => true,
        }
    }
}

// C27: damage stays confined to the event it hits.
fn c27() -> R<()> {
    if chance("offline", 1, 3) {
        return crate::files::c27();
    }
    base_world(|c| {
        c.body_p = [(1, 12), (1, 3), (1, 2)][if c.seg { 0 } else if c.eintr { 1 } else { 2 }];
        c.script = [10, 2, 0, 0, 0, 0, 1, 1, 0];
        c.shapes = [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 3, 1, 2];
        c.max_rows = 2;
    });
    let mut o = servers(1);
    o.hb = Duration::from_millis(500);
    history(0, 2 + draw("n", 12));
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 6));
    for _ in 0..1 + draw("sessions", 3) {
        if !connect(&mut c)? {
            continue;
        }
        let mut defs = Defs::default();
        for _ in 0..600 {
            if drained(&c) {
                break;
            }
            let x = c.next()?;
            let (ci, k) = (c.ci, c.k);
            match (with(|w| w.conns[ci].sess.out.get(k).cloned()), x) {
                (Some(Item::Hurt(_)), Next::End) => viol!("false-end", "stream of conn{} ends at the damaged event {}", ci, k),
                (Some(Item::Hurt(t)), _) => defs.hurt(t),
                (Some(Item::Eof), Next::End) => break,
                (Some(Item::Ev(s)), x) => {
                    let judged = defs.sound(&s.ev.b);
                    match x {
                        Next::Ev(e, _) if !judged || e == *s.ev => {}
                        Next::Err(_) if !judged => {}
                        Next::Ev(e, _) => viol!("wrong-event", "item {} of conn{}, behind damaged events: {}", k, ci, conv::diff(&e, &s.ev)),
                        Next::Err(e) => viol!("damage-spread", "item {} of conn{} ({}) is sound, but next returns {}", k, ci, s.ev.brief(), e),
                        Next::End => viol!("false-end", "stream of conn{} ends at item {}, which is sound", ci, k),
                    }
                }
                (Some(o), _) => viol!("invented-event", "item {} of conn{} is not what the server sent: {}", k, ci, brief_item(o)),
                (None, Next::Err(e)) => viol!("spurious-error", "stream of conn{} fails at item {}, nothing being sent: {}", ci, k, e),
                (None, _) => viol!("invented-event", "item {} of conn{} was never sent", k, ci),
            }
            c.k += 1;
        }
        c.drop_stream()?;
    }
    Ok(())
}

// C19: rows are decoded with the latest definition.
fn c19() -> R<()> {
    base_world(|c| {
        c.shapes = [6, 6, 5, 0, 2, 1, 0, 0, 1, 3, 1, 8, 0, 0];
        c.reid_p = [(1, 2), (1, 4), (1, 12), (0, 1)][c.lat_max_us as usize % 4];
        c.script = [10, 3, 0, 0, 0, 1, 0, 0, 0];
        c.max_rows = 2;
        c.gaps = false;
        c.mid_hb = c.reid_p.0 % 2 == 1;
    });
    with(|w| {
        w.cfg.lazy_maps = w.ch.chance("lazy", 0, 1, 3);
        w.cfg.reuse_ids = w.ch.chance("reuse", 0, 1, 3);
        if w.ch.chance("tables", 0, 1, 4) {
            w.cfg.max_tables = 40;
            w.cfg.max_maps = 20;
        }
    });
    let mut o = servers(1);
    history(0, 3 + draw("n", 12));
    if chance("churn", 1, 24) {
        // tables keep getting new ids
        with(|w| w.cfg.reid_p = (4, 5));
        history(0, [60, 150, 400][draw("churn.n", 3) as usize]);
    }
    if chance("restart", 1, 2) {
        // table ids start over after a restart, and so name other tables
        let ids = with(|w| (w.servers[0].table_ids.clone(), w.servers[0].next_table_id));
        with(|w| {
            w.restart(0, true);
            w.advance(10 * SEC);
        });
        if chance("same.ids", 1, 2) {
            with(|w| w.alter_unlogged(0, &ids.0, ids.1));
        }
        history(0, 2 + draw("n2", 8));
    }
    if chance("offline", 1, 6) {
        return c19_files();
    }
    o.start = draw_start(0);
    let inside = chance("inside", 1, 2);
    if inside {
        let b = boundaries(0, false);
        let (f, p, _) = b[draw("inside.pos", b.len() as u64) as usize].clone();
        o.start = Start::Pos(f, p);
    }
    let mut c = Client::new(&o)?;
    script(draw("ops", 6));
    if !connect(&mut c)? {
        return Ok(());
    }
    let mut known: std::collections::BTreeSet<u64> = Default::default();
    loop {
        if drained(&c) {
            break;
        }
        let (ci, k) = (c.ci, c.k);
        let x = c.next()?;
        let item = with(|w| w.conns[ci].sess.out.get(k).cloned());
        let Some(Item::Ev(s)) = item else {
            c.check_item(&x)?;
            if let (Next::Err(e), false) = (&x, faulted(ci)) {
                viol!("spurious-error", "stream fails: {}", e);
            }
            break;
        };
        let rows = match &s.ev.b {
            CBody::Write { table_id, .. } | CBody::Delete { table_id, .. } | CBody::Update { table_id, .. } => Some(*table_id),
            CBody::TableMap { table_id, .. } => {
                known.insert(*table_id);
                None
            }
            _ => None,
        };
        match (&x, rows) {
            (Next::Ev(e, _), Some(id)) if !known.contains(&id) => {
                viol!("rows-invented", "rows of table id {} decoded without a definition: {}", id, e.brief())
            }
            (Next::Err(_), Some(id)) if !known.contains(&id) => {
                probe("rows without definition refused");
                c.k += 1;
            }
            (Next::Err(e), _) => {
                if faulted(ci) {
                    break;
                }
                viol!("spurious-error", "item {} ({}) not decoded: {}", k, s.ev.brief(), e)
            }
            _ => {
                c.check_item(&x)?;
            }
        }
    }
    c.drop_stream()
}

fn c19_files() -> R<()> {
    for f in crate::files::all_files() {
        let short = chance("file.short", 1, 2);
        let mut r = match Reader::open(&f.image(), |x| x.short = short)? {
            Ok(r) => r,
            Err(e) => viol!("spurious-error", "file cannot be opened: {}", e),
        };
        let mut known: std::collections::BTreeSet<u64> = Default::default();
        for e in &f.evs {
            let x = r.next()?;
            let missing = match &e.ev.b {
                CBody::Write { table_id, .. } | CBody::Delete { table_id, .. } | CBody::Update { table_id, .. } => !known.contains(table_id),
                CBody::TableMap { table_id, .. } => {
                    known.insert(*table_id);
                    false
                }
                _ => false,
            };
            match x {
                Next::Ev(got, _) if missing => viol!("rows-invented", "file {}: rows decoded without a definition: {}", f.name, got.brief()),
                Next::Err(_) if missing => probe("rows without definition refused"),
                Next::Ev(got, _) if got == *e.ev => {}
                Next::Ev(got, _) => viol!("wrong-event", "file {}: {}", f.name, conv::diff(&got, &e.ev)),
                Next::Err(m) => viol!("spurious-error", "file {}: {} not decoded: {}", f.name, e.ev.brief(), m),
                Next::End => viol!("false-end", "file {} ends before {}", f.name, e.ev.brief()),
            }
        }
        r.close()?;
    }
    Ok(())
}

// C20: checksum changes are followed.
fn c20() -> R<()> {
    base_world(|c| {
        c.script = [8, 2, 1, 1, 0, 0, 5, 0, 0];
        c.script_gap_ms = 300;
        c.fault_kinds = vec![Fault::Fin];
        c.fault_p = (1, 4);
        c.fault_budget = 3;
    });
    let mut o = servers(1);
    with(|w| {
        for _ in 0..2 + w.ch.draw("n", 0, 10) {
            w.new_tx(0);
            if w.ch.chance("cs.change", 0, 1, 3) {
                let a = w.servers[0].alg;
                w.servers[0].alg = 1 - a;
                w.rotate(0);
                w.probe("checksum setting changed");
            }
            if w.ch.chance("cs.only", 0, 1, 12) {
                // changed for later files only
                let a = w.servers[0].alg;
                w.servers[0].alg = 1 - a;
            }
        }
    });
    if chance("offline", 1, 3) {
        return crate::files::all_files_exact();
    }
    o.start = draw_start(0);
    o.blocking = !chance("nonblock", 1, 4);
    let mut c = Client::new(&o)?;
    script(draw("ops", 8));
    let mut down = 0;
    for _ in 0..1 + draw("sessions", 5) {
        match connect(&mut c)? {
            true => {
                follow(&mut c, 400)?;
            }
            false => {
                down += 1;
                with(|w| w.advance(SEC));
                if down > 12 {
                    break;
                }
            }
        }
    }
    c.drop_stream()
}

// C22: sessions are independent.
fn c22() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::StallResume];
        c.fault_p = (1, 2);
        c.fault_budget = 5;
        c.place = [1, 3, 6];
        c.gtid = true;
        c.ancestry = false;
        c.gaps = false;
        c.reid_p = (1, 6);
        c.shapes = [6, 6, 2, 2, 1, 1, 0, 0, 0, 1, 1, 5, 0, 0];
    });
    with(|w| w.cfg.mixed_anon = w.ch.chance("mixed", 0, 1, 5));
    with(|w| w.cfg.two_flavours = w.ch.chance("flavours", 0, 1, 3));
    let mut o = servers(2);
    o.hb = Duration::from_millis(1000);
    // two servers of one flavour with clashing table ids, different tables and formats
    history(0, 2 + draw("n", 6));
    with(|w| {
        w.tables.clear();
    });
    history(1, 2 + draw("m", 6));
    let fl = |s: usize| with(|w| w.servers[s].flavour);
    let empty = |s: usize| match fl(s) {
        Flavour::MySql => Start::My(String::new()),
        Flavour::Maria => Start::Ma(String::new()),
    };
    let n = 1 + draw("clients", 3) as usize;
    let mut cs: Vec<Client> = vec![];
    let mut at: Vec<usize> = vec![];
    let mut track: Vec<Track> = vec![];
    for i in 0..n {
        let mut p = o.clone();
        let s = draw_i("on", i as u32, 2) as usize;
        p.host = host(s);
        p.server_id = 10 + i as u32;
        p.start = empty(s);
        if draw_i("posmode", i as u32, 2) == 1 {
            p.start = Start::Begin;
        }
        cs.push(Client::new(&p)?);
        at.push(s);
        track.push(Track::default());
    }
    let files: Vec<BFile> = with(|w| w.servers.iter().flat_map(|s| s.files.iter().cloned()).collect());
    let mut rd: Vec<(Reader, usize, usize)> = vec![];
    for step in 0..10 + draw("steps", 250) {
        let i = draw("who", n as u64 + 1) as usize;
        if i == n {
            // a file reader, interleaved with everything else
            if rd.len() < 2 && chance("rd.open", 1, 2) {
                let f = draw("rd.file", files.len() as u64) as usize;
                let short = chance("rd.short", 1, 2);
                match Reader::open(&files[f].image(), |x| x.short = short)? {
                    Ok(r) => rd.push((r, f, 0)),
                    Err(e) => viol!("spurious-error", "file cannot be opened: {}", e),
                }
            } else if !rd.is_empty() {
                let j = draw("rd.which", rd.len() as u64) as usize;
                let x = rd[j].0.next()?;
                let want = files[rd[j].1].evs.get(rd[j].2).map(|e| e.ev.clone());
                match (x, want) {
                    (Next::Ev(e, _), Some(w)) if e == *w => rd[j].2 += 1,
                    (Next::End, None) => {
                        rd[j].0.close()?;
                        rd.remove(j);
                    }
                    (Next::Ev(e, _), w) => viol!("wrong-event", "reader: {}", w.map_or(e.brief(), |w| conv::diff(&e, &w))),
                    (Next::End, _) => viol!("false-end", "reader ends early"),
                    (Next::Err(e), _) => viol!("spurious-error", "reader fails: {}", e),
                }
            }
            continue;
        }
        let c = &mut cs[i];
        if c.s.is_none() {
            if chance("switch", 1, 4) {
                // the application points the client at the other server
                at[i] = 1 - at[i];
                let h = host(at[i]);
                let other = fl(0) != fl(1);
                let fresh = binlog_options(&empty(at[i]))?;
                let b = &mut c.options().binlog;
                match fl(at[i]) {
                    _ if b.gtid_set.is_none() && b.gtid_list.is_none() => {
                        b.filename = String::new();
                        b.position = 4;
                    }
                    _ if other => {
                        track[i] = Track::default();
                        match fresh {
                            Ok(f) => *b = f,
                            Err(e) => viol!("parse-failed", "{}", e),
                        }
                    }
                    Flavour::MySql => {}
                    Flavour::Maria => {
                        let g = b.gtid_list.as_mut().unwrap();
                        g.gtids.clear();
                        track[i] = Track::default();
                    }
                }
                c.options().hostname = h;
            }
            connect(c)?;
            continue;
        }
        if drained(c) {
            if chance("more", 1, 2) {
                let s = at[i];
                with(|w| w.new_tx(s));
            } else {
                c.drop_stream()?;
                continue;
            }
        }
        if chance("leave", 1, 30) {
            c.drop_stream()?;
            continue;
        }
        let x = c.next()?;
        let s = c.check_item(&x)?;
        match x {
            Next::Ev(_, b) => {
                c.commit(&b)?;
                if let Some(s) = s {
                    if s.last && s.tx > 0 {
                        track[i].add(&tx(s.tx).gtid);
                    }
                }
                if !matches!(with(|w| w.conns[c.ci].sess.dump.as_ref().map(|d| d.set.is_some() || d.ma.is_some())), Some(true)) {
                    continue;
                }
                let t = c.gtid_text()?;
                if !track[i].matches(fl(at[i]), &t) {
                    viol!("wrong-gtid-position", "client {} (step {}) records {}, expected {}", i, step, t, track[i].text(fl(at[i])));
                }
            }
            Next::Err(e) => {
                if !faulted(c.ci) {
                    viol!("spurious-error", "stream fails: {}", e);
                }
                c.drop_stream()?;
            }
            Next::End => c.drop_stream()?,
        }
    }
    for c in cs.iter_mut() {
        c.drop_stream()?;
    }
    for r in rd.iter_mut() {
        r.0.close()?;
    }
    Ok(())
}

// C23: no connection is leaked.
fn c23() -> R<()> {
    base_world(|c| {
        c.fault_kinds = vec![Fault::Dns, Fault::Refuse, Fault::ConnTimeout, Fault::Fin, Fault::Rst, Fault::Stall, Fault::ServerErr, Fault::SendFail];
        c.fault_p = (5, 6);
        c.fault_budget = 8;
        c.place = [6, 4, 1];
        c.script = [10, 1, 0, 0, 0, 1, 0, 0, 0];
        c.corrupt_p = if c.anon { (1, 30) } else { (0, 1) };
    });
    let mut o = servers(1);
    auth_matrix();
    history(0, 1 + draw("n", 4));
    o.start = draw_start(0);
    o.hb = Duration::from_millis(1000);
    o.blocking = !chance("nonblock", 1, 4);
    if chance("wrongpass", 1, 6) {
        o.pass.push('!');
    }
    if chance("wronghost", 1, 12) {
        o.host = "nowhere.sim".into();
    }
    let mut c = Client::new(&o)?;
    script(draw("ops", 3));
    for _ in 0..2 + draw("sessions", 8) {
        let r = c.replicate()?;
        let open = with(|w| w.open_conns());
        match r {
            Ok(()) => {
                if open != 1 {
                    viol!("connection-leaked", "{} connections open after replicate succeeded", open);
                }
                for _ in 0..draw("read", 10) {
                    if drained(&c) || !matches!(c.next()?, Next::Ev(..)) {
                        break;
                    }
                }
                if chance("keepstream", 1, 3) {
                    // a second replicate call while the first stream is still alive
                    let old = c.s.take();
                    let old_ci = c.ci;
                    let r2 = c.replicate()?;
                    let open = with(|w| w.open_conns());
                    let want = 1 + r2.is_ok() as usize;
                    if open != want || with(|w| w.conns[old_ci].fds == 0) {
                        viol!("connection-leaked", "{} connections open with {} streams alive", open, want);
                    }
                    lib("drop stream", || drop(old))?;
                    let open = with(|w| w.open_conns());
                    if open != r2.is_ok() as usize {
                        viol!("connection-leaked", "{} connections open after the first stream was dropped", open);
                    }
                }
                c.drop_stream()?;
                let open = with(|w| w.open_conns());
                if open != 0 {
                    viol!("connection-leaked", "{} connections open after the stream was dropped", open);
                }
            }
            Err(e) => {
                if open != 0 {
                    viol!("connection-leaked", "{} connections open after replicate failed: {}", open, e);
                }
            }
        }
    }
    Ok(())
}

// C24: replies are matched to requests.
fn c24() -> R<()> {
    base_world(|c| {
        c.slow_max_ms = if c.eintr { 800 } else { 0 };
    });
    let mut o = servers(1);
    if chance("nopass", 1, 8) {
        o.pass = String::new();
        with(|w| w.accounts[0].pass = String::new());
    }
    auth_matrix();
    history(0, 1 + draw("n", 6));
    let classes = ["pipelined-request", "command-before-auth", "bad-sequence", "request-before-greeting", "request-during-dump", "bad-request"];
    for i in 0..1 + draw("sessions", 4) {
        o.start = draw_start(0);
        o.blocking = !chance("nonblock", 1, 3);
        if i > 0 && chance("restart", 1, 3) {
            with(|w| {
                w.restart(0, true);
                w.advance(10 * SEC);
            });
        }
        if chance("algchange", 1, 4) {
            with(|w| {
                let a = w.servers[0].alg;
                w.servers[0].alg = 1 - a;
                if w.ch.chance("algrot", 0, 1, 2) {
                    w.rotate(0);
                }
            });
        }
        let mut c = Client::new(&o)?;
        let r = c.replicate()?;
        monitors(&classes)?;
        if let Err(e) = r {
            viol!("set-up-failed", "replicate fails although nothing was injected: {}", e);
        }
        with(|w| w.advance(2 * SEC));
        monitors(&classes)?;
        if let Start::End = o.start {
            let (l, d) = with(|w| (w.conns[c.ci].sess.lookup.clone(), w.conns[c.ci].sess.dump.clone()));
            let Some(d) = d else { viol!("set-up-failed", "no dump request reached the server") };
            if l != Some((d.file.clone(), d.pos as u32)) || Some(c.coords()) != l {
                viol!("wrong-reply", "the server reported {:?}, the dump was requested at {}:{} and {:?} is recorded", l, d.file, d.pos, c.coords());
            }
        }
        for _ in 0..3 + draw("read", 20) {
            if drained(&c) {
                break;
            }
            let x = c.next()?;
            c.check_item(&x)?;
            match x {
                Next::Ev(..) => {}
                Next::End => break,
                Next::Err(e) => viol!("wrong-reply", "item {} cannot be read: {}", c.k, e),
            }
        }
        c.drop_stream()?;
        monitors(&classes)?;
    }
    Ok(())
}
