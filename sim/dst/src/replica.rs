//! Long-running replicas: resuming by position and by GTID.
use crate::app::*;
use crate::common::*;
use crate::viol;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use simcore::binlog::*;
use simcore::server::*;
use simcore::world::*;
use std::collections::VecDeque;
use std::time::Duration;

type Got = (Option<Sent>, Box<(EventHeader, BinlogEvent)>);

const NET: [Fault; 8] = [Fault::Fin, Fault::Rst, Fault::Stall, Fault::Dns, Fault::Refuse, Fault::ConnTimeout, Fault::SendFail, Fault::StallResume];

fn backoff() {
    with(|w| {
        let d = [0, 50, 400, 3000][w.ch.draw("app.backoff", 0, 4) as usize] * MS;
        w.advance(d);
    })
}

/// The streamed event after `seq`.
fn after(all: &[u32], seq: u32) -> Option<u32> {
    all.iter().copied().find(|s| *s > seq)
}

fn file_index(name: &str) -> Option<usize> {
    with(|w| w.servers[0].files.iter().position(|f| f.name == name))
}

// C03: resuming from file and position.
pub fn c03() -> R<()> {
    base_world(|c| {
        c.fault_kinds = NET.to_vec();
        c.fault_kinds.push(Fault::ServerErr);
        c.fault_p = (1, 2);
        c.fault_budget = 6;
        c.place = [2, 3, 5];
        c.script = [10, 2, 2, 2, 2, 2, 1, 2, 0];
        c.script_gap_ms = 500;
        c.shapes = [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 5, 1, 0];
    });
    let mut o = servers(1);
    o.hb = Duration::from_millis([1000u64, 250, 30_000][draw("hb3", 3) as usize]);
    history(0, 2 + draw("n", 8));
    o.start = crate::scen::draw_start(0);
    if matches!(o.start, Start::My(_) | Start::Ma(_)) {
        o.start = Start::Begin;
    }
    let orig = o.start.clone();
    let mut c = Client::new(&o)?;
    with(|w| {
        w.purge_floor.insert(0, w.servers[0].first);
        w.cfg.script_ops = 2 + w.ch.draw("ops", 0, 14);
        w.start_script(0);
    });
    // last event committed, by log order; None: no stream yet
    let mut last: Option<u32> = match &orig {
        Start::Begin => Some(with(|w| w.servers[0].files[w.servers[0].first].evs[0].seq - 1)),
        Start::Pos(f, p) => Some(before(f, *p)),
        _ => None,
    };
    let mut maxdone = last.unwrap_or(0);
    let mut saved: Option<((String, u32), u32)> = None;
    let mut queue: VecDeque<Got> = VecDeque::new();
    let mut fruitless = 0;
    let mut calm = false;
    let budget = 60 + draw("budget", 400);
    let mut steps = 0;
    let mut tries = 0;
    loop {
        // ---- connect ----
        let want = c.coords();
        let n0 = with(|w| w.conns.len());
        let h = hard();
        let r = c.replicate()?;
        let reqs: Vec<DumpReq> = with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.dump.clone()).collect());
        for q in &reqs {
            check_resume(q, &want, &orig)?;
        }
        tries += 1;
        let ok = match r {
            Ok(()) => true,
            Err(e) => {
                if hard() == h && calm {
                    viol!("set-up-failed", "replicate fails although nothing was injected: {}", e);
                }
                false
            }
        };
        if ok && last.is_none() {
            let (f, p) = c.coords();
            last = Some(before(&f, p));
            maxdone = last.unwrap();
        }
        if ok && saved.is_none() && !c.coords().0.is_empty() {
            saved = Some((c.coords(), last.unwrap()));
        }
        let done0 = maxdone;
        let mut prev: Option<u32> = None;
        // ---- stream ----
        if ok {
            let lag = draw("lag", 4) as usize;
            let checked = (c.ci, want.clone());
            loop {
                steps += 1;
                if !calm && steps > budget {
                    break;
                }
                if drained(&c) && (calm || chance("idle.stop", 1, 3)) {
                    break;
                }
                let x = c.next()?;
                let s = c.check_item(&x)?;
                if let Some(q) = with(|w| w.conns[checked.0].sess.dump.clone()) {
                    check_resume(&q, &checked.1, &orig)?;
                }
                match x {
                    Next::Ev(_, b) => {
                        if let Some(s) = &s {
                            if s.seq > 0 {
                                let all = deliverable(0);
                                let expect = after(&all, prev.unwrap_or(last.unwrap()));
                                match prev {
                                    Some(_) if expect != Some(s.seq) => viol!("event-lost", "log event {} follows {:?} on conn{}, expected {:?}", s.seq, prev, c.ci, expect),
                                    None if s.seq > last.unwrap() && Some(s.seq) != expect => viol!("event-lost", "resumed at log event {} ({}), first event not committed is {:?}", s.seq, s.ev.brief(), expect),
                                    _ => {}
                                }
                                prev = Some(s.seq);
                            }
                        }
                        queue.push_back((s, b));
                    }
                    Next::End => viol!("false-end", "blocking stream ends"),
                    Next::Err(e) => {
                        let refused = with(|w| {
                            let x = &w.conns[c.ci];
                            let injected = x.plan.kind == Some(Fault::ServerErr) && x.plan_fired;
                            x.sess.err.clone().filter(|e| e.0 == 1236 && !injected)
                        });
                        if let Some(r) = refused {
                            viol!("resume-refused", "the server refuses to resume at {:?}: {} {}", want, r.0, r.1);
                        }
                        if !faulted(c.ci) {
                            viol!("no-progress", "resumed at {:?}, the stream fails at item {} although nothing was injected: {}", want, c.k, e);
                        }
                        break;
                    }
                }
                while queue.len() > if calm { 0 } else { lag } {
                    let g = queue.pop_front().unwrap();
                    process(&mut c, g, &mut last, &mut maxdone, &mut saved)?;
                }
                if !calm {
                    if chance("app.crash", 1, 60) {
                        crash(&mut c, &mut o, &orig, &mut last, &mut queue, &saved)?;
                        break;
                    }
                    if chance("app.leave", 1, 60) {
                        break;
                    }
                }
                think();
            }
            monitors(&["bad-position"])?;
        }
        c.drop_stream()?;
        // ---- what happens to events received but not committed ----
        if !queue.is_empty() {
            if chance("flush", 1, 2) {
                while let Some(g) = queue.pop_front() {
                    process(&mut c, g, &mut last, &mut maxdone, &mut saved)?;
                }
            } else {
                queue.clear();
            }
        }
        if calm {
            let all = deliverable(0);
            if last.is_some() && after(&all, maxdone).is_none() {
                return Ok(());
            }
            fruitless = if maxdone > done0 { 0 } else { fruitless + 1 };
            if fruitless > 6 {
                viol!("no-progress", "after faults stopped, {} reconnects from {:?} make no progress; {} of {} log events processed", fruitless, c.coords(), maxdone, all.last().unwrap());
            }
        } else {
            if steps > budget || tries > 40 {
                calm = true;
                with(|w| {
                    w.advance(SEC);
                    w.quiesce();
                });
            }
            if chance("app.crash2", 1, 20) {
                crash(&mut c, &mut o, &orig, &mut last, &mut queue, &saved)?;
            }
            if chance("app.ckpt", 1, 4) && !c.coords().0.is_empty() && last.is_some() {
                save(&c, &mut saved, last.unwrap());
            }
            backoff();
        }
    }
}

/// Sequence number of the last event before a position.
fn before(f: &str, p: u32) -> u32 {
    with(|w| {
        let mut last = 0;
        for x in &w.servers[0].files {
            for e in &x.evs {
                if x.name == f && e.pos >= p {
                    return last;
                }
                last = e.seq;
            }
            if x.name == f {
                return last;
            }
        }
        last
    })
}

fn check_resume(q: &DumpReq, want: &(String, u32), orig: &Start) -> R<()> {
    if want.0.is_empty() {
        // no position recorded yet: C07 decides what is asked for
        return match orig {
            Start::Begin if q.pos != 4 => Err(Stop::Viol("resume-coordinates", format!("nothing committed, dump requested at {:?}:{}", q.file, q.pos))),
            _ => Ok(()),
        };
    }
    if q.file != want.0 || q.pos != want.1 as u64 {
        viol!("resume-coordinates", "recorded position is {}:{}, dump requested at {}:{}", want.0, want.1, q.file, q.pos);
    }
    Ok(())
}

fn save(c: &Client, saved: &mut Option<((String, u32), u32)>, last: u32) {
    *saved = Some((c.coords(), last));
    if let Some(f) = file_index(&c.coords().0) {
        with(|w| {
            w.purge_floor.insert(0, f);
        })
    }
}

fn process(c: &mut Client, g: Got, last: &mut Option<u32>, maxdone: &mut u32, saved: &mut Option<((String, u32), u32)>) -> R<()> {
    let (s, b) = g;
    if let Some(s) = &s {
        if s.seq > 0 {
            if s.seq > *maxdone {
                let all = deliverable(0);
                let e = after(&all, *maxdone);
                if e != Some(s.seq) {
                    viol!("event-lost", "log event {} is processed for the first time after {}, expected {:?}", s.seq, maxdone, e);
                }
                *maxdone = s.seq;
            }
        }
    }
    c.commit(&b)?;
    if let Some(s) = s {
        if s.seq > 0 {
            *last = Some(s.seq);
        }
    }
    if !c.coords().0.is_empty() && !chance("ckpt.skip", 1, 4) {
        save(c, saved, last.unwrap());
    }
    Ok(())
}

fn crash(c: &mut Client, o: &mut Opts, orig: &Start, last: &mut Option<u32>, queue: &mut VecDeque<Got>, saved: &Option<((String, u32), u32)>) -> R<()> {
    queue.clear();
    probe("application crash");
    with(|w| w.fault("application crash"));
    match saved {
        Some(((f, p), l)) => {
            o.start = Start::Pos(f.clone(), *p);
            *last = Some(*l);
        }
        None => {
            o.start = orig.clone();
            match orig {
                Start::End => *last = None,
                Start::Begin => *last = Some(with(|w| w.servers[0].files[w.servers[0].first].evs[0].seq - 1)),
                Start::Pos(f, p) => *last = Some(before(f, *p)),
                _ => {}
            }
        }
    }
    c.recreate(o)
}

// ---------- GTID ----------

/// A set of transactions the client already has.
fn initial(fl: Flavour) -> Track {
    let kind = weighted("init.kind", &[3, 2, 3, 2]);
    let mut t = Track::default();
    with(|w| {
        t.my = w.anc_my.clone();
        t.ma = w.anc_ma.clone();
        let n = w.txs.len() as u64;
        let upto = match kind {
            0 => 0,
            1 => n,
            _ => w.ch.draw("init.upto", 0, n + 1),
        };
        for i in 0..upto as usize {
            // a set with holes is possible where the set is a set
            if kind == 3 && fl == Flavour::MySql && w.ch.chance("init.hole", 0, 1, 3) {
                continue;
            }
            let g = w.txs[i].gtid.clone();
            t.add(&g);
        }
        if kind == 3 && fl == Flavour::Maria && w.cfg.ma_holes {
            // between two transactions: the number was never used, or filtered out
            for i in upto as usize..w.txs.len() {
                if let TGtid::Ma(d, s, q) = w.txs[i].gtid {
                    if let Some(x) = t.ma.get(&d).copied() {
                        if q > x.1 + 1 && w.txs[..i].iter().all(|y| !matches!(y.gtid, TGtid::Ma(e, _, p) if e == d && p > x.1)) && w.ch.chance("init.inhole", 0, 1, 2) {
                            t.ma.insert(d, (s, x.1 + 1));
                        }
                    }
                }
            }
        }
        if kind == 3 && fl == Flavour::MySql && w.ch.chance("init.foreign", 0, 1, 3) {
            // transactions of a source this server has never seen
            let mut u = [0u8; 16];
            for b in u.iter_mut() {
                *b = w.ch.draw("init.fuuid", 0, 256) as u8;
            }
            let hi = 1 + w.ch.draw("init.fhi", 0, 1 << 33);
            t.my.add_range(u, 1, hi);
        }
    });
    t
}

fn start_of(t: &Track, fl: Flavour, messy: bool) -> Start {
    match (fl, messy) {
        (Flavour::MySql, true) => Start::My(messy_my(&t.my)),
        (Flavour::MySql, false) => Start::My(t.my.text()),
        (Flavour::Maria, true) => Start::Ma(messy_ma(&t.ma)),
        (Flavour::Maria, false) => Start::Ma(ma_text(&t.ma)),
    }
}

fn check_request(q: &DumpReq, t: &Track, fl: Flavour) -> R<()> {
    let same = match fl {
        Flavour::MySql => {
            let mut a = q.set.clone().unwrap_or_default();
            let mut b = t.my.clone();
            a.0.retain(|_, v| !v.is_empty());
            b.0.retain(|_, v| !v.is_empty());
            q.gtid && a == b
        }
        Flavour::Maria => q.ma.as_ref() == Some(&t.ma),
    };
    if !same {
        viol!("wrong-resume-set", "the dump request carries {:?} (GTID text {:?}), recorded is {}", q, q.ma_text, t.text(fl));
    }
    Ok(())
}

fn set_purge_floor(t: &Track, fl: Flavour) {
    with(|w| {
        for s in 0..w.servers.len() {
            let sv = &w.servers[s];
            let f = (sv.first..sv.files.len())
                .rev()
                .find(|f| match fl {
                    Flavour::MySql => sv.files[*f].prev_my.subset_of(&t.my),
                    Flavour::Maria => sv.files[*f].prev_ma.iter().all(|(d, (_, q))| t.ma.get(d).map_or(false, |x| x.1 >= *q)),
                })
                .unwrap_or(sv.first);
            w.purge_floor.insert(s, f);
        }
    })
}

fn pick_server(t: &Track, fl: Flavour, calm: bool) -> usize {
    with(|w| {
        let p = w.primary;
        if calm || w.servers.len() == 1 || !w.ch.chance("on.replica", 0, 1, 3) {
            return p;
        }
        let s = w.ch.draw("on.which", 0, w.servers.len() as u64) as usize;
        let ok = match fl {
            // a server that lacks transactions of ours is not a candidate
            Flavour::MySql => t.my.subset_of(&w.servers[s].my),
            Flavour::Maria => t.ma.iter().all(|(d, (_, q))| w.servers[s].ma.get(d).map_or(false, |x| x.1 >= *q)),
        };
        if ok {
            s
        } else {
            p
        }
    })
}

// C04, C05: resuming and failing over by GTID.
pub fn gtid(fl: Flavour) -> R<()> {
    base_world(|c| {
        c.flavour = fl;
        c.gtid = true;
        c.n_sources = 3;
        c.out_of_order = fl == Flavour::MySql;
        c.fault_kinds = NET.to_vec();
        c.fault_p = (1, 2);
        c.fault_budget = 6;
        c.place = [2, 3, 5];
        c.script = [12, 2, 1, 2, 2, 2, 1, 2, 3];
        c.script_gap_ms = 500;
    });
    with(|w| w.cfg.ma_holes = fl == Flavour::Maria && w.ch.chance("holes", 0, 1, 3));
    let n = 1 + weighted("servers", &[1, 3, 2]);
    let mut o = servers(n);
    with(|w| w.cfg.n_sources = 1 + w.ch.draw("sources", 0, 3));
    o.hb = Duration::from_millis([1000u64, 250, 30_000][draw("hb4", 3) as usize]);
    history(0, 2 + draw("n", 10));
    let init = initial(fl);
    o.start = start_of(&init, fl, chance("init.messy", 1, 3));
    let mut track = init.clone();
    let mut saved: (String, Track) = (track.text(fl), track.clone());
    let mut c = Client::new(&o)?;
    set_purge_floor(&track, fl);
    with(|w| {
        w.apply_on = n > 1;
        for s in 1..n {
            let at = w.now + s as u64 * MS;
            w.at(at, Ev::Apply { server: s });
        }
        if n > 1 {
            let at = w.now + 3 * MS;
            w.at(at, Ev::Apply { server: 0 });
        }
        w.cfg.script_ops = 2 + w.ch.draw("ops", 0, 14);
        w.start_script(0);
    });
    let budget = 60 + draw("budget", 400);
    let (mut steps, mut tries, mut fruitless, mut calm) = (0u64, 0, 0, false);
    let mut queue: VecDeque<Got> = VecDeque::new();
    loop {
        let s = pick_server(&track, fl, calm);
        c.options().hostname = host(s);
        let n0 = with(|w| w.conns.len());
        let h = hard();
        let r = c.replicate()?;
        tries += 1;
        for q in with(|w| w.conns[n0..].iter().filter_map(|x| x.sess.dump.clone()).collect::<Vec<_>>()) {
            check_request(&q, &track, fl)?;
        }
        if let Err(e) = &r {
            if hard() == h && calm {
                viol!("set-up-failed", "replicate fails although nothing was injected: {}", e);
            }
        }
        let resumed = track.clone();
        let before = track.clone();
        let mut whole = Whole::default();
        if r.is_ok() {
            let lag = draw("lag", 4) as usize;
            let ci = c.ci;
            loop {
                steps += 1;
                if !calm && steps > budget {
                    break;
                }
                if drained(&c) && (calm || chance("idle.stop", 1, 3)) {
                    break;
                }
                let x = c.next()?;
                let s = c.check_item(&x)?;
                if let Some(q) = with(|w| w.conns[ci].sess.dump.clone()) {
                    check_request(&q, &resumed, fl)?;
                }
                match x {
                    Next::Ev(_, b) => {
                        if let Some(s) = &s {
                            whole.on(s)?;
                            if s.tx > 0 && resumed.has(&tx(s.tx).gtid) {
                                viol!("committed-redelivered", "transaction {:?} is delivered again; recorded position was {}", tx(s.tx).gtid, resumed.text(fl));
                            }
                        }
                        queue.push_back((s, b));
                    }
                    Next::End => viol!("false-end", "blocking stream ends"),
                    Next::Err(e) => {
                        if let Some(r) = with(|w| w.conns[ci].sess.err.clone().filter(|e| matches!(e.0, 1236 | 1064 | 1047))) {
                            viol!("resume-refused", "the server refuses to resume from {}: {} {}", resumed.text(fl), r.0, r.1);
                        }
                        if !faulted(ci) {
                            viol!("spurious-error", "stream of conn{} fails at item {} although nothing was injected: {}", ci, c.k, e);
                        }
                        break;
                    }
                }
                while queue.len() > if calm { 0 } else { lag } {
                    finish(&mut c, queue.pop_front().unwrap(), &mut track, &mut saved, fl)?;
                }
                if !calm {
                    if chance("app.crash", 1, 60) {
                        gcrash(&mut c, &mut o, &mut track, &mut queue, &saved, fl)?;
                        break;
                    }
                    if chance("app.leave", 1, 60) {
                        break;
                    }
                }
                think();
            }
        }
        c.drop_stream()?;
        if !queue.is_empty() {
            if chance("flush", 1, 2) {
                while let Some(g) = queue.pop_front() {
                    finish(&mut c, g, &mut track, &mut saved, fl)?;
                }
            } else {
                queue.clear();
            }
        }
        if calm {
            let missing: Vec<TGtid> = with(|w| w.txs.iter().map(|t| t.gtid.clone()).filter(|g| !track.has(g)).collect());
            if missing.is_empty() {
                return Ok(());
            }
            fruitless = if track != before { 0 } else { fruitless + 1 };
            if fruitless > 4 {
                viol!("lost-transaction", "after faults stopped, {} reconnects deliver nothing more; not processed: {:?}; recorded: {}", fruitless, missing, c.gtid_text()?);
            }
        } else {
            if steps > budget || tries > 40 {
                calm = true;
                with(|w| {
                    w.advance(SEC);
                    w.quiesce();
                    w.apply_on = false;
                    let p = w.primary;
                    w.apply_all(p);
                });
            }
            if chance("app.crash2", 1, 20) {
                gcrash(&mut c, &mut o, &mut track, &mut queue, &saved, fl)?;
            }
            backoff();
        }
    }
}

fn finish(c: &mut Client, g: Got, track: &mut Track, saved: &mut (String, Track), fl: Flavour) -> R<()> {
    let (s, b) = g;
    c.commit(&b)?;
    if let Some(s) = s {
        if s.last && s.tx > 0 {
            track.add(&tx(s.tx).gtid);
            set_purge_floor(&saved.1, fl);
        }
    }
    if !chance("ckpt.skip", 1, 4) {
        *saved = (c.gtid_text()?, track.clone());
    }
    Ok(())
}

fn gcrash(c: &mut Client, o: &mut Opts, track: &mut Track, queue: &mut VecDeque<Got>, saved: &(String, Track), fl: Flavour) -> R<()> {
    queue.clear();
    with(|w| w.fault("application crash"));
    o.start = match fl {
        Flavour::MySql => Start::My(saved.0.clone()),
        Flavour::Maria => Start::Ma(saved.0.clone()),
    };
    *track = saved.1.clone();
    c.recreate(o)
}

// C06: the recorded GTID position.
pub fn c06() -> R<()> {
    base_world(|c| {
        c.gtid = true;
        c.n_sources = 3;
        c.out_of_order = true;
        c.fault_kinds = vec![Fault::Fin, Fault::Rst, Fault::Stall, Fault::StallResume, Fault::SendFail];
        c.fault_p = (1, 2);
        c.fault_budget = 6;
        c.place = [1, 3, 6];
        c.script = [12, 2, 1, 1, 0, 1, 0, 1, 0];
        c.shapes = [6, 4, 4, 4, 3, 3, 2, 3, 3, 2, 3, 3, 2, 0];
        c.ma_ooo = true;
    });
    with(|w| w.cfg.mixed_anon = w.ch.chance("mixed", 0, 1, 5));
    let fl = with(|w| w.cfg.flavour);
    let mut o = servers(1);
    o.hb = Duration::from_millis(1000);
    history(0, 2 + draw("n", 14));
    let mut track = initial(fl);
    o.start = start_of(&track, fl, true);
    let mut c = Client::new(&o)?;
    let check = |c: &Client, t: &Track, what: &str| -> R<()> {
        let g = c.gtid_text()?;
        if !t.matches(fl, &g) {
            viol!("wrong-gtid-position", "after {} the recorded position is {}, expected {}", what, g, t.text(fl));
        }
        Ok(())
    };
    check(&c, &track, "the start")?;
    with(|w| {
        w.cfg.script_ops = w.ch.draw("ops", 0, 10);
        w.start_script(0);
    });
    for _ in 0..1 + draw("sessions", 7) {
        let r = c.replicate()?;
        check(&c, &track, "replicate")?;
        if r.is_err() {
            backoff();
            continue;
        }
        for _ in 0..draw("read", 150) {
            if drained(&c) {
                break;
            }
            let x = c.next()?;
            let s = c.check_item(&x)?;
            match x {
                Next::Ev(e, b) => {
                    c.commit(&b)?;
                    if let Some(s) = s {
                        if s.last && s.tx > 0 {
                            track.add(&tx(s.tx).gtid);
                        }
                    }
                    check(&c, &track, &format!("commit of {}", e.brief()))?;
                }
                Next::End => break,
                Next::Err(e) => {
                    if let Some(r) = with(|w| w.conns[c.ci].sess.err.clone().filter(|e| matches!(e.0, 1236 | 1064 | 1047))) {
                        viol!("resume-refused", "the server refuses {}: {} {}", track.text(fl), r.0, r.1);
                    }
                    if !faulted(c.ci) {
                        viol!("spurious-error", "stream fails: {}", e);
                    }
                    break;
                }
            }
            think();
        }
        check(&c, &track, "the session")?;
        c.drop_stream()?;
    }
    Ok(())
}
