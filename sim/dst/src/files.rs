//! Offline reading of binlog files.
use crate::app::*;
use crate::common::*;
use crate::conv;
use crate::viol;
use simcore::binlog::*;
use simcore::canon::*;
use simcore::gen::Spec;
use simcore::server::*;
use simcore::world::*;

/// A history written for offline reading: some of it in awkward sizes.
fn write_files(n: u64) {
    for _ in 0..n {
        with(|w| {
            if w.ch.chance("file.pad", 0, 1, 5) {
                // events whose payload is around the reader's buffer size
                let base = [32_768i64, 32_768, 65_536, 16_384, 4096, 8192][w.ch.draw("file.padbase", 0, 6) as usize];
                let delta = w.ch.draw("file.paddelta", 0, 41) as i64 - 20;
                let crc = if w.servers[0].files.last().unwrap().alg == 1 { 4 } else { 0 };
                let want = (base + delta - crc) as usize;
                // query body: 13 fixed bytes, schema, NUL, text
                let text = want.saturating_sub(13 + 4 + 1);
                let sql: String = (0..text).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let q = Spec::query("shop", &sql);
                w.log_raw(0, vec![q], "event of buffer size");
            } else {
                w.new_tx(0);
            }
            if w.ch.chance("file.rotate", 0, 1, 8) {
                w.rotate(0);
            }
        })
    }
    if chance("file.crash", 1, 5) {
        // the server died: no Rotate or Stop event, IN_USE flag still set
        with(|w| {
            w.restart(0, false);
            w.advance(10 * SEC);
        });
    } else if chance("file.stop", 1, 5) {
        with(|w| {
            w.restart(0, true);
            w.advance(10 * SEC);
        });
    }
}

pub fn all_files() -> Vec<BFile> {
    with(|w| w.servers[0].files.clone())
}

fn world() {
    base_world(|c| {
        c.big = [(1, 8, 70_000), (1, 10, 40_000), (1, 30, 3_000_000), (0, 1, 0)][c.lat_max_us as usize % 4];
        c.max_rows = 6;
        c.gaps = false;
        c.shapes = [6, 4, 2, 3, 2, 1, 1, 1, 1, 1, 1, 3, 1, 1];
    });
}

fn lib_mode(f: &mut SimFile) {
    let k = draw("file.io", 4);
    f.short = k & 1 != 0;
    f.eintr = k & 2 != 0;
}

fn exact(f: &BFile) -> R<()> {
    let mut r = match Reader::open(&f.image(), lib_mode)? {
        Ok(r) => r,
        Err(e) => viol!("spurious-error", "{} cannot be opened: {}", f.name, e),
    };
    for (i, e) in f.evs.iter().enumerate() {
        match r.next()? {
            Next::Ev(c, _) => {
                if c != *e.ev {
                    viol!("wrong-event", "event {} of {} (at {}): {}", i, f.name, e.pos, conv::diff(&c, &e.ev));
                }
            }
            Next::End => viol!("false-end", "{} ends after {} of {} events", f.name, i, f.evs.len()),
            Next::Err(x) => viol!("spurious-error", "event {} of {} ({}) not read: {}", i, f.name, e.ev.brief(), x),
        }
    }
    for _ in 0..2 {
        match r.next()? {
            Next::End => {}
            Next::Ev(c, _) => viol!("invented-event", "after the last event of {}: {}", f.name, c.brief()),
            Next::Err(x) => viol!("spurious-error", "{} does not end cleanly: {}", f.name, x),
        }
    }
    r.close()
}

// C16: complete files are read exactly.
pub fn c16() -> R<()> {
    world();
    servers(1);
    if chance("huge", 1, 800) {
        with(|w| {
            w.cfg.big = (1, 2, 15_000_000);
            w.cfg.max_rows = 1;
        });
        history(0, 2);
        with(|w| w.cfg.big = (0, 1, 0));
        probe("huge values");
    }
    write_files(1 + draw("n", 16));
    for f in all_files() {
        exact(&f)?;
    }
    Ok(())
}

/// The offline half of C20.
pub fn all_files_exact() -> R<()> {
    if chance("old", 1, 2) {
        // files of a server that knows no checksums
        with(|w| {
            w.servers[0].alg = 255;
            w.rotate(0);
        });
        history(0, 1 + draw("n.old", 6));
    }
    for f in all_files() {
        exact(&f)?;
    }
    Ok(())
}

/// A place in a file: anywhere, with a bias to event boundaries and headers.
fn place(f: &BFile, len: u64) -> u64 {
    let i = draw("cut.ev", f.evs.len() as u64 + 1) as usize;
    let (a, b) = match f.evs.get(i) {
        Some(e) => (e.pos as u64, e.end as u64),
        None => return draw("cut.any", len + 1),
    };
    match draw("cut.kind", 8) {
        0 => a,
        1 => a + 1,
        2 => a + 18,
        3 => a + 19,
        4 => a + 20,
        5 => b - 1,
        6 => a + draw("cut.hdr", 19),
        _ => a + draw("cut.body", b - a),
    }
    .min(len)
}

// C17: torn and failing files.
pub fn c17() -> R<()> {
    world();
    servers(1);
    write_files(1 + draw("n", 10));
    let fs = all_files();
    for _ in 0..1 + draw("rounds", 4) {
        let f = fs[draw("which", fs.len() as u64) as usize].clone();
        let img = f.image();
        let mode = draw("mode", 3);
        let at = place(&f, img.len() as u64);
        match mode {
            0 => torn(&f, &img, at)?,
            1 => failing(&f, &img, at)?,
            _ => growing(&f, &img, at)?,
        }
    }
    Ok(())
}

fn torn(f: &BFile, img: &[u8], cut: u64) -> R<()> {
    note(|| format!("{} torn at {}", f.name, cut));
    with(|w| w.fault("file torn"));
    let mut r = match Reader::open(&img[..cut as usize], lib_mode)? {
        Ok(r) if cut >= 4 => r,
        Ok(_) => viol!("invented-event", "a file of {} bytes is accepted", cut),
        Err(_) if cut < 4 => return Ok(()),
        Err(e) => viol!("spurious-error", "file cannot be opened: {}", e),
    };
    prefix(&mut r, f, cut)?;
    match r.next()? {
        Next::End => {}
        Next::Ev(c, _) => viol!("invented-event", "{} torn at {}: yielded {}", f.name, cut, c.brief()),
        Next::Err(e) => viol!("torn-tail-error", "{} torn at {} does not end the iteration but reports {}", f.name, cut, e),
    }
    for _ in 0..2 {
        if let Next::Ev(c, _) = r.next()? {
            viol!("invented-event", "{} torn at {}: after the end: {}", f.name, cut, c.brief());
        }
    }
    r.close()
}

fn prefix(r: &mut Reader, f: &BFile, cut: u64) -> R<usize> {
    let n = f.evs.iter().filter(|e| e.end as u64 <= cut).count();
    for (i, e) in f.evs[..n].iter().enumerate() {
        match r.next()? {
            Next::Ev(c, _) => {
                if c != *e.ev {
                    viol!("wrong-event", "event {} of {}: {}", i, f.name, conv::diff(&c, &e.ev));
                }
            }
            Next::End => viol!("event-lost", "{} broken at {}: the iteration ends before event {}, which is complete", f.name, cut, i),
            Next::Err(x) => viol!("event-lost", "{} broken at {}: event {}, which is complete, is not read: {}", f.name, cut, i, x),
        }
    }
    Ok(n)
}

fn failing(f: &BFile, img: &[u8], at: u64) -> R<()> {
    let times = 1 + draw("eio.times", 3) as u32;
    note(|| format!("{} fails {} times at {}", f.name, times, at));
    let r = Reader::open(img, |x| {
        lib_mode(x);
        x.eio_at = Some(at);
        x.eio_times = times;
    })?;
    let mut r = match r {
        Ok(r) if at >= 4 => r,
        Ok(_) => viol!("error-swallowed", "opening reports success although reading byte {} fails", at),
        Err(_) if at < 4 => return Ok(()),
        Err(e) => viol!("spurious-error", "file cannot be opened: {}", e),
    };
    let n = prefix(&mut r, f, at)?;
    match r.next()? {
        Next::Err(_) => {}
        Next::End => viol!("error-swallowed", "reading {} fails at {}, reported as the end of the file", f.name, at),
        Next::Ev(c, _) => viol!("invented-event", "reading {} fails at {}: yielded {}", f.name, at, c.brief()),
    }
    continuation(&mut r, f, n, "after the read error")?;
    r.close()
}

/// After trouble: only the exact next events, errors, or nothing.
fn continuation(r: &mut Reader, f: &BFile, from: usize, what: &str) -> R<()> {
    let mut i = from;
    let mut idle = 0;
    while idle < 5 {
        match r.next()? {
            Next::Ev(c, _) => {
                match f.evs.get(i) {
                    Some(e) if *e.ev == c => {}
                    Some(e) => viol!("invented-event", "{}, event {} of {}: {}", what, i, f.name, conv::diff(&c, &e.ev)),
                    None => viol!("invented-event", "{}, behind the last event of {}: {}", what, f.name, c.brief()),
                }
                probe("reader went on after trouble");
                i += 1;
            }
            _ => idle += 1,
        }
    }
    Ok(())
}

/// The file is being written: it ends in a torn event, then grows.
fn growing(f: &BFile, img: &[u8], cut: u64) -> R<()> {
    let cut = cut.max(4);
    note(|| format!("{} read at {} bytes, then grows", f.name, cut));
    with(|w| w.fault("file grows while read"));
    let mut r = match Reader::open(&img[..cut as usize], lib_mode)? {
        Ok(r) => r,
        Err(e) => viol!("spurious-error", "file cannot be opened: {}", e),
    };
    let n = prefix(&mut r, f, cut)?;
    match r.next()? {
        Next::End => {}
        Next::Ev(c, _) => viol!("invented-event", "{} torn at {}: yielded {}", f.name, cut, c.brief()),
        Next::Err(e) => viol!("torn-tail-error", "{} torn at {} does not end the iteration but reports {}", f.name, cut, e),
    }
    append_fd(r.fd, &img[cut as usize..], cut);
    with(|w| w.files[r.fi].len = img.len() as u64);
    continuation(&mut r, f, n, "after the file has grown")?;
    r.close()
}

// C18: damaged files.
pub fn c18() -> R<()> {
    world();
    with(|w| w.cfg.big = if w.cfg.big.2 > 100_000 { (0, 1, 0) } else { w.cfg.big });
    servers(1);
    write_files(1 + draw("n", 8));
    let fs = all_files();
    for _ in 0..8 + draw("rounds", 40) {
        let f = &fs[draw("which", fs.len() as u64) as usize];
        let img = with(|w| {
            w.fault("file damaged");
            match w.ch.weighted("dmg.kind", 0, &[5, 2, 1]) {
                0 => {
                    // damage inside events whose framing stays intact
                    let mut v = vec![0xfe, 0x62, 0x69, 0x6e];
                    let n = f.evs.len() as u64;
                    let mut hit = w.ch.draw("dmg.ev", 0, n);
                    if w.ch.chance("dmg.bytype", 0, 1, 2) {
                        // rare types as often as frequent ones
                        let t: std::collections::BTreeSet<u8> = f.evs.iter().map(|e| e.bytes[4]).collect();
                        let t = *t.iter().nth(w.ch.draw("dmg.of", 0, t.len() as u64) as usize).unwrap();
                        let c: Vec<usize> = (0..f.evs.len()).filter(|i| f.evs[*i].bytes[4] == t).collect();
                        hit = c[w.ch.draw("dmg.nth", 0, c.len() as u64) as usize] as u64;
                    }
                    // a long file is cut down to what surrounds the damage
                    let small = f.image().len() < 4000;
                    let near = |i: u64| i == 0 || small || i + 8 > hit && i < hit + 5;
                    let also = w.ch.chance("dmg.more", 0, 1, 4);
                    for (i, e) in f.evs.iter().enumerate().filter(|x| near(x.0 as u64)) {
                        let mut b = e.bytes.to_vec();
                        if i as u64 == hit || also && w.ch.chance("dmg.too", 0, 1, 4) {
                            for _ in 0..1 + w.ch.draw("dmg.n", 0, 3) {
                                damage(&mut w.ch, "dmg", 0, &mut b, 19);
                            }
                            if w.ch.chance("dmg.type", 0, 1, 8) {
                                b[4] = [2u8, 4, 5, 13, 14, 15, 16, 19, 23, 24, 25, 27, 29, 30, 31, 32, 33, 34, 35, 162, 163][w.ch.draw("dmg.typ", 0, 21) as usize];
                            }
                            let l = (b.len() as u32).to_le_bytes();
                            b[9..13].copy_from_slice(&l);
                        }
                        v.extend_from_slice(&b);
                    }
                    v
                }
                1 => {
                    let mut v = f.image();
                    for _ in 0..1 + w.ch.draw("dmg.n", 0, 4) {
                        damage(&mut w.ch, "dmg", 0, &mut v, 4);
                    }
                    v
                }
                _ => {
                    let mut v = f.image();
                    damage(&mut w.ch, "dmg", 0, &mut v, 0);
                    v
                }
            }
        });
        damaged(&img)?;
    }
    Ok(())
}

/// The offline half of C27.
/// The file's bytes with some event bodies damaged, and which.
pub fn hurt_file(f: &BFile, p: (u64, u64)) -> (Vec<u8>, Vec<bool>) {
    with(|w| {
        let mut v = vec![0xfe, 0x62, 0x69, 0x6e];
        let mut hurt = vec![];
        for e in f.evs.iter() {
            let mut b = e.bytes.to_vec();
            let hit = b[4] != 15 && w.ch.chance("hurt", 0, p.0, p.1);
            if hit {
                w.fault("event body damaged");
                for _ in 0..1 + w.ch.draw("hurt.n", 0, 3) {
                    damage(&mut w.ch, "hurt.m", 0, &mut b, 19);
                }
                let l = (b.len() as u32).to_le_bytes();
                b[9..13].copy_from_slice(&l);
            }
            hurt.push(hit);
            v.extend_from_slice(&b);
        }
        (v, hurt)
    })
}

pub fn c27() -> R<()> {
    world();
    with(|w| w.cfg.big = if w.cfg.big.2 > 100_000 { (0, 1, 0) } else { w.cfg.big });
    servers(1);
    write_files(1 + draw("n", 8));
    for f in all_files() {
        let p = [(1u64, 20u64), (1, 5), (1, 2)][draw("hurt.p", 3) as usize];
        let (img, hurt) = hurt_file(&f, p);
        let mut r = match Reader::open(&img, lib_mode)? {
            Ok(r) => r,
            Err(e) => viol!("spurious-error", "{} cannot be opened: {}", f.name, e),
        };
        let mut defs = crate::scen::Defs::default();
        for (i, e) in f.evs.iter().enumerate() {
            let x = r.next()?;
            if hurt[i] {
                if let Next::End = x {
                    viol!("false-end", "{} ends at the damaged event {}", f.name, i);
                }
                defs.hurt(e.bytes[4]);
                continue;
            }
            let judged = defs.sound(&e.ev.b);
            match x {
                Next::Ev(c, _) if !judged || c == *e.ev => {}
                Next::Err(_) if !judged => {}
                Next::Ev(c, _) => viol!("wrong-event", "event {} of {}, behind damaged ones: {}", i, f.name, conv::diff(&c, &e.ev)),
                Next::Err(x) => viol!("damage-spread", "event {} of {} ({}) is sound, but next returns {}", i, f.name, e.ev.brief(), x),
                Next::End => viol!("false-end", "{} ends at event {}, which is sound", f.name, i),
            }
        }
        match r.next()? {
            Next::End => {}
            Next::Ev(c, _) => viol!("invented-event", "behind the last event of {}: {}", f.name, c.brief()),
            Next::Err(x) => viol!("spurious-error", "{} does not end cleanly: {}", f.name, x),
        }
        r.close()?;
    }
    Ok(())
}

fn damaged(img: &[u8]) -> R<()> {
    let mut r = match Reader::open(img, lib_mode)? {
        Ok(r) => r,
        Err(e) => {
            if img.starts_with(&[0xfe, 0x62, 0x69, 0x6e]) {
                viol!("spurious-error", "a file with the right magic number cannot be opened: {}", e);
            }
            return Ok(());
        }
    };
    if !img.starts_with(&[0xfe, 0x62, 0x69, 0x6e]) {
        viol!("bad-magic-accepted", "a file starting with {:02x?} is accepted", &img[..img.len().min(4)]);
    }
    // complete frames, by the length in each header
    let mut frames = 0;
    let mut at = 4usize;
    while at + 19 <= img.len() {
        let len = u32::from_le_bytes(img[at + 9..at + 13].try_into().unwrap()) as usize;
        if len < 19 {
            // a frame that cannot be skipped must still be reported
            frames += 1;
            break;
        }
        if len > img.len() - at {
            break;
        }
        frames += 1;
        at += len;
    }
    let mut items = 0usize;
    let mut errs = 0;
    let mut ended = false;
    for _ in 0..img.len() / 19 + 20 {
        match r.next()? {
            Next::End => {
                ended = true;
                if errs == 0 && items < frames {
                    viol!("silent-end", "the iteration ends after {} items, {} events are present in full", items, frames);
                }
                break;
            }
            Next::Err(_) => {
                errs += 1;
                items += 1;
            }
            Next::Ev(..) => items += 1,
        }
    }
    if !ended {
        viol!("endless-iteration", "a file of {} bytes yields {} items ({} errors) and no end", img.len(), items, errs);
    }
    r.close()
}

// C21: a stream and the files it comes from agree.
pub fn c21() -> R<()> {
    world();
    with(|w| {
        w.cfg.lat_max_us = w.cfg.lat_max_us.min(20_000);
        w.cfg.gtid_skip_hb = false;
    });
    let mut o = servers(1);
    with(|w| {
        for _ in 0..draw_n(w) {
            if w.ch.chance("cs.change", 0, 1, 6) {
                let a = w.servers[0].alg;
                w.servers[0].alg = 1 - a;
                w.rotate(0);
            }
            w.new_tx(0);
        }
    });
    write_files(1 + draw("n2", 6));
    o.blocking = false;
    let files = all_files();
    // the stream
    let mut c = Client::new(&o)?;
    if let Err(e) = c.replicate()? {
        viol!("spurious-error", "replicate fails although nothing was injected: {}", e);
    }
    let mut online: Vec<CEvent> = vec![];
    loop {
        match c.next()? {
            Next::Ev(e, _) => {
                if e.h.ts != 0 {
                    online.push(mask(e))
                }
            }
            Next::Err(e) => viol!("spurious-error", "the stream fails after {} events: {}", online.len(), e),
            Next::End => break,
        }
        think();
    }
    c.drop_stream()?;
    // the files
    let mut offline: Vec<CEvent> = vec![];
    for f in &files {
        let mut r = match Reader::open(&f.image(), lib_mode)? {
            Ok(r) => r,
            Err(e) => viol!("spurious-error", "{} cannot be opened: {}", f.name, e),
        };
        loop {
            match r.next()? {
                Next::Ev(e, _) => {
                    if e.h.typ != 160 {
                        offline.push(mask(e))
                    }
                }
                Next::Err(e) => viol!("spurious-error", "{} fails after {} events: {}", f.name, offline.len(), e),
                Next::End => break,
            }
        }
        r.close()?;
    }
    let n = online.len().min(offline.len());
    for i in 0..n {
        if online[i] != offline[i] {
            viol!("paths-disagree", "event {} online and offline: {}", i, conv::diff(&online[i], &offline[i]));
        }
    }
    if online.len() != offline.len() {
        viol!("paths-disagree", "{} events online, {} offline", online.len(), offline.len());
    }
    Ok(())
}

fn draw_n(w: &mut World) -> u64 {
    1 + w.ch.draw("n", 0, 12)
}

/// The in-use flag of a format description differs by design.
fn mask(mut e: CEvent) -> CEvent {
    if e.h.typ == 15 {
        e.h.flags &= !1;
    }
    e
}

