//! History generation: transactions, log files, restarts, purges, replicas.
use crate::binlog::*;
use crate::canon::*;
use crate::choice::*;
use crate::gen::*;
use crate::server::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const SHAPES: [&str; 14] = [
    "row transaction",
    "multi-statement transaction",
    "DDL",
    "statement-based transaction",
    "savepoints",
    "rolled back (non-transactional part)",
    "empty transaction",
    "create/drop",
    "XA transaction",
    "create ... select",
    "non-transactional, COMMIT query",
    "multi-event statement",
    "LOAD DATA",
    "user variables",
];

/// Statement texts of unusual size or spelling.
fn wide_sql(r: &mut Rng, sql: String) -> String {
    match r.below(8) {
        0 => format!("{} /* {} */", sql, "ü".repeat(200)),
        1 => format!("{} /* {} */", sql, "日本語".repeat(8000)),
        2 => format!("{} /* COMMIT */", sql),
        3 => format!("{}  ", sql),
        4 => format!("/* BEGIN */ {}", sql),
        5 => format!("{} /* {} */", sql, "x".repeat([255usize, 256, 65_535, 65_536][r.below(4) as usize])),
        _ => sql,
    }
}

impl World {
    /// Transactions every server has executed, but whose binlogs are gone: of
    /// many sources or domains, or of one source with many gaps.
    pub fn inherit(&mut self) {
        if !self.cfg.ancestry || !self.cfg.wide || !self.ch.chance("anc", 0, 1, 16) {
            return;
        }
        let (sources, gaps) = match self.ch.draw("anc.kind", 0, 3) {
            0 => (1 + self.ch.draw("anc.few", 0, 20), 1 + self.ch.draw("anc.gaps", 0, 4)),
            1 => (250 + self.ch.draw("anc.many", 0, 100), 1),
            _ => (1, 250 + self.ch.draw("anc.ivs", 0, 200)),
        };
        let mut r = Rng::new(self.ch.draw("anc.seed", 0, 1 << 40) ^ 0xa4ce);
        for i in 0..sources {
            let mut u = [0u8; 16];
            for b in u.iter_mut() {
                *b = r.below(256) as u8;
            }
            let mut at = 1;
            for _ in 0..gaps {
                let long = r.below(8) == 0;
                let n = r.below(if long { 1 << 34 } else { 40 });
                self.anc_my.add_range(u, at, at + n);
                at += n + 2 + r.below(9);
            }
            let d = 1_000_000 + i as u32 * (1 + r.below(3) as u32);
            let id = 1 + r.below(u32::MAX as u64) as u32;
            let big = r.below(4) == 0;
            self.anc_ma.insert(d, (id, 1 + r.below(if big { 1 << 60 } else { 100_000 })));
        }
    }

    pub fn add_server(&mut self, host: &str, flavour: Flavour, alg: u8, prefix: &str) -> usize {
        let idx = self.servers.len();
        let mut uuid = [0u8; 16];
        let mut r = Rng::new(self.ch.draw("srv.uuid", idx as u32, 1 << 40) ^ 0x5e4e);
        for b in uuid.iter_mut() {
            *b = r.below(256) as u8;
        }
        let wide = self.cfg.wide;
        let v = self.ch.draw("srv.version", idx as u32, if wide { 6 } else { 3 }) as usize;
        let (version, n_types) = match flavour {
            Flavour::MySql => [("8.0.33", 41u8), ("5.7.40-log", 38), ("8.4.0", 42), ("8.0.33-25", 41), ("8.0.33-0ubuntu0.20.04.2", 41), ("5.6.51-91.0-percona-server-with-a-long-suffix-log", 35)][v],
            Flavour::Maria => [
                ("10.6.12-MariaDB-log", 164u8),
                ("10.3.38-MariaDB-1:10.3.38+maria~ubu2004-log", 163),
                ("10.11.2-MariaDB", 171),
                ("11.4.2-MariaDB-ubu2404", 171),
                ("10.1.48-MariaDB", 164),
                ("10.5.23-19-MariaDB-enterprise-log", 168),
            ][v],
        };
        let mut id = 1 + idx as u32 + self.ch.draw("srv.id", idx as u32, 3) as u32 * 100;
        let mut file_no = 1 + self.ch.draw("srv.fileno", idx as u32, 200) as u32;
        let mut table_base = (100, 1);
        if wide {
            id = id.wrapping_add([0u32, 0x7fff_fffe, 0xffff_fe00, 0xffff][self.ch.draw("srv.widid", idx as u32, 4) as usize]);
            if self.ch.chance("srv.widfile", idx as u32, 1, 4) {
                file_no = 999_990 + self.ch.draw("srv.widfileno", idx as u32, 12) as u32;
            }
            table_base = (
                [100u64, 0xffff_fff0, 1 << 40, 0xffff_ff00_0000, 240, 65_500][self.ch.draw("srv.widtid", idx as u32, 6) as usize],
                [1u64, 1 << 8, 1 << 16, 1 << 24][self.ch.draw("srv.widstep", idx as u32, 4) as usize],
            );
            if table_base.0 > 1 << 41 {
                table_base.1 = 1;
            }
        }
        self.servers.push(Server {
            idx,
            id,
            uuid,
            up: true,
            flavour,
            version: version.to_string(),
            n_types,
            files: vec![],
            first: 0,
            alg,
            prefix: prefix.to_string(),
            file_no,
            log_seq: 0,
            srv_ts: 0,
            my: GSet::default(),
            ma: MaState::new(),
            table_ids: BTreeMap::new(),
            next_table_id: table_base.0,
            table_base,
            mapped: BTreeMap::new(),
            default_plugin: NATIVE,
            rsa: Some(0),
            log: vec![],
            applied: vec![],
            script_left: 0,
            cached: vec![false; self.accounts.len()],
            start_count: 0,
        });
        self.hosts.insert(host.to_string(), idx);
        idx
    }

    /// Opens a new binlog file (its format description and GTID state events).
    pub fn open_file(&mut self, s: usize) {
        let sv = &mut self.servers[s];
        let name = format!("{}.{:06}", sv.prefix, sv.file_no);
        sv.file_no += 1;
        sv.mapped.clear();
        let f = BFile { name: name.clone(), alg: sv.alg, evs: vec![], size: 4, prev_my: sv.my.clone(), prev_ma: sv.ma.clone(), crashed: false, gap: 0 };
        let (my, ma, flavour, alg) = (sv.my.clone(), sv.ma.clone(), sv.flavour, sv.alg);
        let (version, n_types, created) = (sv.version.clone(), sv.n_types, sv.srv_ts);
        sv.files.push(f);
        let fde = fde_body(&version, TS_SRV + created, n_types, alg);
        // IN_USE flag is set while the file is open and cleared on clean close
        self.append_server_event(s, 15, fde, CBody::Fde { version: 4, server: version, checksum: if alg == 255 { 0 } else { alg } }, 1);
        match flavour {
            Flavour::MySql => {
                let (b, c) = prev_gtids_body(&my);
                self.append_server_event(s, 35, b, c, 0x80);
            }
            Flavour::Maria => {
                let (b, c) = gtid_list_body(&ma);
                self.append_server_event(s, 163, b, c, 0);
                let mut w = W::new();
                w.le(name.len() as u64, 4).b(name.as_bytes());
                self.append_server_event(s, 161, w.0, CBody::Unknown, 0);
            }
        }
        if self.cfg.wide && self.cfg.gaps && self.ch.chance("file.gap", s as u32, 1, 3) {
            // a file that has grown large
            let g = [0x7fff_ff00u32, 0xffff, 0x00ff_ff00, 0xefff_0000][self.ch.draw("file.gapto", s as u32, 4) as usize];
            let f = self.servers[s].files.last_mut().unwrap();
            f.gap = g;
            f.size += g;
        }
    }

    fn append_server_event(&mut self, s: usize, typ: u8, body: Vec<u8>, cb: CBody, flags: u16) {
        let sv = &mut self.servers[s];
        let ts = TS_SRV + s as u32 * 100_000 + sv.srv_ts;
        sv.srv_ts += 1;
        let crc = { let a = sv.files.last().unwrap().alg; a == 1 || (typ == 15 && a == 0) };
        self.append_event(s, ts, typ, flags, body, cb, crc, 0, 0, false, None);
    }

    #[allow(clippy::too_many_arguments)]
    fn append_event(&mut self, s: usize, ts: u32, typ: u8, flags: u16, body: Vec<u8>, cb: CBody, crc: bool, tx: u32, k: u32, last: bool, origin: Option<u32>) {
        let sv = &mut self.servers[s];
        let id = origin.unwrap_or(sv.id);
        let fi = sv.files.len() - 1;
        let f = sv.files.last_mut().unwrap();
        let (bytes, h) = build_event(ts, typ, id, flags, &body, crc, None, f.size);
        sv.log_seq += 1;
        let pos = f.size;
        f.size += bytes.len() as u32;
        sv.log.push((fi as u32, f.evs.len() as u32));
        f.evs.push(LogEv {
            end: f.size,
            bytes: Rc::new(bytes),
            ev: Rc::new(CEvent { h, b: cb }),
            pos,
            seq: sv.log_seq,
            tx,
            k,
            last,
            annotate: typ == 160,
        });
    }

    /// Closes the newest file with a Rotate event and opens the next one.
    pub fn rotate(&mut self, s: usize) {
        let sv = &self.servers[s];
        let next = format!("{}.{:06}", sv.prefix, sv.file_no);
        let b = rotate_body(&next, 4);
        self.append_server_event(s, 4, b, CBody::Rotate { file: next, pos: 4 }, 0);
        self.close_file(s);
        self.open_file(s);
        self.probe("binlog rotated");
        self.wake_dumps(s);
    }

    /// Clears the IN_USE flag, as a clean close does.
    fn close_file(&mut self, s: usize) {
        let f = self.servers[s].files.last_mut().unwrap();
        let e = &mut f.evs[0];
        let mut b = e.bytes.to_vec();
        b[17] &= !1;
        // the server recomputes nothing: IN_USE is excluded from the checksum
        let mut ev = (*e.ev).clone();
        ev.h.flags &= !1;
        e.bytes = Rc::new(b);
        e.ev = Rc::new(ev);
    }

    fn table_id(&mut self, s: usize, def: u32, used: &BTreeMap<u32, u64>) -> u64 {
        let n = self.servers[s].log_seq;
        let re = self.cfg.reid_p;
        let fresh = self.ch.chance("srv.reid", s as u32, re.0, re.1);
        let _ = n;
        let sv = &mut self.servers[s];
        if fresh {
            // table definition cache flushed: the table gets a new id
            sv.table_ids.remove(&def);
        }
        if self.cfg.reuse_ids && !sv.table_ids.contains_key(&def) && self.ch.chance("srv.reuse", s as u32, 1, 2) {
            // it gets an id under which another table was known
            let free: Vec<(u32, u64)> = sv.table_ids.iter().filter(|x| !used.values().any(|u| u == x.1)).map(|x| (*x.0, *x.1)).collect();
            if !free.is_empty() {
                let (d, id) = free[self.ch.draw("srv.reuseid", s as u32, free.len() as u64) as usize];
                sv.table_ids.remove(&d);
                sv.table_ids.insert(def, id);
            }
        }
        *sv.table_ids.entry(def).or_insert_with(|| {
            sv.next_table_id += sv.table_base.1;
            if sv.next_table_id == 0xff_ffff {
                sv.next_table_id += 1;
            }
            sv.next_table_id
        })
    }

    /// Writes a transaction to a server's binlog.
    pub fn append_tx(&mut self, s: usize, tx: &Rc<Tx>) {
        let f = self.servers[s].files.last().unwrap();
        let big = f.size - f.gap > 1 << 24;
        if big {
            self.rotate(s);
        }
        let alg = self.servers[s].files.last().unwrap().alg;
        let n = tx.specs.len();
        let mut stmt_ids: BTreeMap<u32, u64> = BTreeMap::new();
        for (k, sp) in tx.specs.iter().enumerate() {
            let id = match sp {
                Spec::Map(d) => {
                    let id = self.table_id(s, d.def_id, &stmt_ids);
                    stmt_ids.insert(d.def_id, id);
                    id
                }
                Spec::Rows(r) => stmt_ids.get(&r.def.def_id).copied().unwrap_or(0),
                _ => 0,
            };
            if let (Spec::Map(d), true) = (sp, self.cfg.lazy_maps) {
                if self.servers[s].mapped.get(&id) == Some(&d.def_id) && self.ch.chance("map.skip", s as u32, 2, 3) {
                    self.probe("definition not repeated");
                    continue;
                }
                self.servers[s].mapped.insert(id, d.def_id);
            }
            let (typ, body, cb) = sp.encode(id);
            let ts = TS_TX + tx.id * 512 + k as u32;
            let flags = match sp {
                Spec::Query { .. } => 8,
                _ => 0,
            };
            let flags = if tx.flags == 0 { flags } else { tx.flags };
            self.append_event(s, ts, typ, flags, body, cb, alg == 1, tx.id + 1, k as u32, k + 1 == n, Some(tx.orig));
        }
        let sv = &mut self.servers[s];
        match &tx.gtid {
            TGtid::My(u, g) => sv.my.add(*u, *g),
            TGtid::Ma(d, id, q) => {
                sv.ma.insert(*d, (*id, *q));
            }
            TGtid::None => {}
        }
        if sv.applied.len() <= tx.id as usize {
            sv.applied.resize(tx.id as usize + 1, false);
        }
        sv.applied[tx.id as usize] = true;
        self.note(format!("server{} logs tx{} {:?} ({})", s, tx.id, tx.gtid, tx.shape));
        self.mix(30, s as u64, tx.id as u64);
        self.wake_dumps(s);
    }

    // ---------- transactions ----------
    fn new_def(&mut self, name: Option<String>) -> Rc<TableDef> {
        let id = self.next_def;
        self.next_def += 1;
        let seed = self.ch.draw("def.seed", id, 1 << 40);
        let name = name.unwrap_or_else(|| format!("t{}", id));
        let mysql = self.cfg.flavour == Flavour::MySql;
        Rc::new(TableDef::gen(id, seed, mysql, self.cfg.opt_meta, &name, self.cfg.wide))
    }

    fn alter_def(&mut self, old: &TableDef) -> Rc<TableDef> {
        let id = self.next_def;
        self.next_def += 1;
        let seed = self.ch.draw("def.alter", id, 1 << 40);
        self.probe("columns altered in place");
        Rc::new(old.alter(id, seed))
    }

    /// Alters tables without logging the statement (`sql_log_bin=0`) around a
    /// restart, after which they are opened in the order they were before.
    pub fn alter_unlogged(&mut self, s: usize, ids: &BTreeMap<u32, u64>, next: u64) {
        self.servers[s].next_table_id = next;
        for i in 0..self.tables.len() {
            let mut d = self.tables[i].clone();
            let old = d.def_id;
            if self.ch.chance("unlogged.alter", i as u32, 2, 3) {
                d = self.alter_def(&d);
                self.tables[i] = d.clone();
            }
            if let Some(id) = ids.get(&old) {
                self.servers[s].table_ids.insert(d.def_id, *id);
            }
        }
    }

    fn pick_table(&mut self, n: u32) -> Rc<TableDef> {
        let cnt = self.tables.len() as u64;
        let k = self.ch.draw("tx.table", n, cnt + 1) as usize;
        if k >= self.tables.len() {
            if self.tables.len() < self.cfg.max_tables {
                let d = self.new_def(None);
                self.tables.push(d);
            }
            return self.tables[self.tables.len() - 1].clone();
        }
        self.tables[k].clone()
    }

    fn rows(&mut self, n: u32, def: &Rc<TableDef>, end: bool, big: usize) -> Spec {
        let seed = self.ch.draw("tx.rows", n, 1 << 40);
        let cnt = 1 + self.ch.draw("tx.nrows", n, self.cfg.max_rows.max(1)) as usize;
        let kind = self.ch.draw("tx.kind", n, 3) as u8;
        let v2 = self.cfg.rows_v2 && self.cfg.flavour == Flavour::MySql;
        let mut cnt = if big > 20_000 { 1 } else { cnt };
        if self.cfg.wide && big <= 100 && def.cols.len() < 8 && self.ch.chance("tx.manyrows", n, 1, 40) {
            cnt = 300;
        }
        let mut r = RowsSpec::gen(def, seed, cnt, end, v2, kind, big, self.cfg.wide);
        if r.data.len() > 15 << 20 {
            // would not fit into one packet
            r = RowsSpec::gen(def, seed, cnt, end, v2, kind, 20, self.cfg.wide);
        }
        Spec::Rows(Rc::new(r))
    }

    /// One row-based statement: table maps, then row events, the last with STMT_END.
    fn statement(&mut self, n: u32, multi: bool, out: &mut Vec<Spec>) {
        let mysql = self.cfg.flavour == Flavour::MySql;
        if self.ch.chance("tx.annot", n, 1, 4) {
            let l = self.ch.draw("tx.annotlen", n, 400) as usize;
            let mut q = format!("INSERT INTO t VALUES ({})", "x, ".repeat(l / 3));
            if self.cfg.wide {
                let r = &mut Rng::new(self.ch.draw("tx.annotwide", n, 1 << 40));
                q = wide_sql(r, q);
            }
            out.push(if mysql { Spec::RowsQuery(q) } else { Spec::Annotate(q) });
        }
        let nmaps = if multi { 1 + self.ch.draw("tx.nmaps", n, self.cfg.max_maps) as usize } else { 1 };
        let mut defs: Vec<Rc<TableDef>> = vec![];
        for _ in 0..nmaps {
            let d = self.pick_table(n);
            if !defs.iter().any(|x| x.def_id == d.def_id) {
                defs.push(d);
            }
        }
        for d in &defs {
            out.push(Spec::Map(d.clone()));
        }
        let nev = if multi { defs.len() + self.ch.draw("tx.nev", n, 4) as usize } else { 1 };
        let b = self.cfg.big;
        for i in 0..nev {
            let big = if self.ch.chance("tx.big", n, b.0, b.1) { b.2 } else { 20 };
            let d = defs[i % defs.len()].clone();
            if self.cfg.newer && self.ch.chance("tx.unkrows", n, 1, 3) {
                // compressed rows (MariaDB) or partial JSON updates (MySQL)
                let typ = if mysql { 39 } else { [166u8, 167, 168, 169, 170, 171][self.ch.draw("tx.unktype", n, 6) as usize] };
                let mut r = Rng::new(self.ch.draw("tx.unkbody", n, 1 << 40));
                let l = 8 + r.below(60) as usize;
                out.push(Spec::Raw(typ, (0..l).map(|_| r.below(256) as u8).collect()));
                self.probe("rows event of an unknown type");
                continue;
            }
            out.push(self.rows(n, &d, i + 1 == nev, big));
        }
    }

    fn alloc_gtid(&mut self, n: u32, s: usize) -> TGtid {
        if self.cfg.mixed_anon && self.ch.chance("tx.nogtid", n, 1, 5) {
            self.probe("transaction without GTID");
            return TGtid::None;
        }
        match self.cfg.flavour {
            Flavour::MySql => {
                if !self.cfg.gtid {
                    return TGtid::None;
                }
                let ns = self.cfg.n_sources.max(1);
                let src = self.ch.draw("tx.source", n, ns) as u32;
                let uuid = if src == 0 { self.servers[s].uuid } else { self.source_uuid(src) };
                let key = if src == 0 { 1000 + s as u32 } else { src };
                if self.cfg.out_of_order {
                    if let Some(i) = self.held.iter().position(|h| h.0 == key) {
                        if self.ch.chance("tx.release", n, 1, 2) {
                            let h = self.held.remove(i);
                            self.probe("out-of-order transaction id");
                            return TGtid::My(uuid, h.1);
                        }
                    }
                    if self.held.len() < 4 && self.ch.chance("tx.hold", n, 1, 4) {
                        let base = self.gno_base(key);
                        let g = self.next_gno.entry(key).or_insert(base);
                        *g += 1;
                        let v = *g;
                        self.held.push((key, v));
                    }
                }
                let base = self.gno_base(key);
                let g = self.next_gno.entry(key).or_insert(base);
                *g += 1;
                TGtid::My(uuid, *g)
            }
            Flavour::Maria => {
                let ns = self.cfg.n_sources.max(1);
                let d = self.ch.draw("tx.source", n, ns) as u32;
                let mode = if self.cfg.wide { self.ch.draw("cfg.domains", 0, 5) } else { 0 };
                let d = match mode {
                    0 => d * 7,
                    1 => u32::MAX - d,
                    2 => d << 16,
                    3 => 0x8000_0000 | d,
                    _ => d << 8,
                };
                let base = self.gno_base(d);
                if self.cfg.ma_ooo {
                    if let Some(i) = self.held.iter().position(|h| h.0 == d) {
                        if self.ch.chance("tx.release", n, 1, 2) {
                            let h = self.held.remove(i);
                            self.probe("out-of-order sequence number");
                            return TGtid::Ma(d, self.servers[s].id, h.1);
                        }
                    }
                    if self.held.len() < 4 && self.ch.chance("tx.hold", n, 1, 4) {
                        let g = self.next_gno.entry(d).or_insert(base);
                        *g += 1;
                        let v = *g;
                        self.held.push((d, v));
                    }
                }
                let skip = if self.cfg.ma_holes && self.ch.chance("tx.seqhole", n, 1, 4) { 1 + self.ch.draw("tx.seqskip", n, 3) } else { 0 };
                let g = self.next_gno.entry(d).or_insert(base);
                *g += 1 + skip;
                TGtid::Ma(d, self.servers[s].id, *g)
            }
        }
    }

    /// Number before the first transaction id of a source.
    fn gno_base(&mut self, key: u32) -> u64 {
        if !self.cfg.wide || self.next_gno.contains_key(&key) {
            return 0;
        }
        let top = if self.cfg.flavour == Flavour::Maria { u64::MAX - 2000 } else { (1 << 63) - 2000 };
        [0, 0, (1 << 31) - 3, (1 << 32) - 3, (1 << 53) - 3, top, 253, 65_533][self.ch.draw("gno.base", key, 8) as usize]
    }

    fn source_uuid(&mut self, k: u32) -> [u8; 16] {
        while self.sources.len() <= k as usize {
            let i = self.sources.len() as u32;
            let mut r = Rng::new(self.ch.draw("uuid", i, 1 << 40) ^ 0x77);
            let mut u = [0u8; 16];
            for b in u.iter_mut() {
                *b = r.below(256) as u8;
            }
            if self.cfg.wide && self.ch.chance("uuid.near", i, 1, 2) {
                // differs from another source in one byte
                let s0 = self.servers[0].uuid;
                let at = r.below(16) as usize;
                u = if i > 0 { self.sources[i as usize - 1] } else { s0 };
                u[at] = u[at].wrapping_add(1 + i as u8);
            }
            self.sources.push(u);
        }
        self.sources[k as usize]
    }

    fn push_tx(&mut self, n: u32, s: usize, body: Vec<Spec>, shape: &'static str, ma_flags: u8) -> Rc<Tx> {
        let gtid = self.alloc_gtid(n, s);
        let mut specs = vec![];
        match &gtid {
            TGtid::My(u, g) => {
                let t = self.ch.draw("tx.gtidtail", n, 2);
                // 5.6 has no logical timestamps after the transaction id
                let tail = if t == 0 { let mut w = W::new(); w.u8(2).le(n as u64, 8).le(n as u64 + 1, 8); w.0 } else { vec![] };
                specs.push(Spec::MyGtid { uuid: *u, gno: *g, flags: (ma_flags & 1) ^ 1, tail });
            }
            TGtid::Ma(d, id, q) => {
                let mut flags = ma_flags;
                let commit_id = if self.ch.chance("tx.cid", n, 1, 3) { Some(n as u64 + 50) } else { None };
                if commit_id.is_some() {
                    flags |= 2;
                }
                if flags & 1 == 0 && self.ch.chance("tx.trans", n, 1, 2) {
                    flags |= 4;
                }
                specs.push(Spec::MaGtid { domain: *d, server: *id, seq: *q, flags, commit_id, tail: vec![] });
            }
            TGtid::None => {
                if self.cfg.flavour == Flavour::Maria {
                    let own = matches!(body.first(), Some(Spec::Query { sql, .. }) if sql.starts_with("XA "));
                    if ma_flags & 1 == 0 && !own {
                        specs.push(Spec::query("shop", "BEGIN"));
                    }
                } else if self.cfg.anon {
                    let mut w = W::new();
                    w.u8(1).b(&[0; 16]).le(0, 8).u8(2).le(0, 8).le(1, 8);
                    specs.push(Spec::Raw(34, w.0));
                }
            }
        }
        specs.extend(body);
        if self.cfg.wide && self.ch.chance("tx.pad", n, 1, 30) {
            self.pad_event(n, s, &mut specs);
        }
        let id = self.txs.len() as u32;
        let flags = if self.cfg.wide { [0u16, 0, 4, 8, 0x10, 0x80, 0x100, 0x200][self.ch.draw("tx.flags", n, 8) as usize] } else { 0 };
        let tx = Rc::new(Tx { id, gtid, orig: self.servers[s].id, specs, shape, flags });
        self.txs.push(tx.clone());
        self.probe(shape);
        tx
    }

    /// Generates and logs one transaction (XA: up to two) on server `s`.
    pub fn new_tx(&mut self, s: usize) {
        let run = self.cfg.flavour;
        self.cfg.flavour = self.servers[s].flavour;
        self.gen_tx(s);
        self.cfg.flavour = run;
    }

    fn gen_tx(&mut self, s: usize) {
        let n = self.txs.len() as u32;
        if n > 900 {
            return;
        }
        let maria = self.cfg.flavour == Flavour::Maria;
        let w = self.cfg.shapes;
        let shape = self.ch.weighted("tx.shape", n, &w);
        let seed = if self.cfg.wide { self.ch.draw("tx.wide", n, 1 << 40) } else { 0 };
        let wide = seed != 0;
        let rng = std::cell::RefCell::new(Rng::new(seed));
        let q = |sql: &str| {
            let mut p = (9 + n, n % 3, 0u16, vec![0u8; (n % 7) as usize], "shop".to_string());
            if wide {
                let r = &mut *rng.borrow_mut();
                p.0 = r.next() as u32;
                p.1 = r.next() as u32;
                p.2 = r.below(65536) as u16;
                let l = [0u64, 7, 255, 256, 300, 1000][r.below(6) as usize];
                p.3 = (0..l).map(|_| r.below(256) as u8).collect();
                p.4 = match r.below(5) {
                    0 => String::new(),
                    1 => "база".repeat(1 + r.below(24) as usize),
                    2 => "d".repeat(255),
                    3 => "日本".into(),
                    _ => "shop".into(),
                };
            }
            Spec::Query { thread: p.0, dur: p.1, err: p.2, status: p.3, db: p.4, sql: sql.into() }
        };
        let ws = |sql: String| if wide { wide_sql(&mut rng.borrow_mut(), sql) } else { sql };
        let mut b: Vec<Spec> = vec![];
        let mut flags = 0u8;
        let mut end = Spec::Xid(if wide { rng.borrow_mut().next() } else { 5000 + n as u64 });
        let mut begin = !maria;
        let pfx: &str = "";
        match shape {
            0 => self.statement(n, false, &mut b),
            1 => {
                for _ in 0..2 + self.ch.draw("tx.nst", n, 3) {
                    { let m = self.ch_multi(n); self.statement(n, m, &mut b); }
                }
            }
            2 => {
                let k = self.ch.draw("tx.ddl", n, 3);
                let sql = if k < 2 && !self.tables.is_empty() {
                    let i = self.ch.draw("tx.alter", n, self.tables.len() as u64) as usize;
                    let old = self.tables[i].clone();
                    self.tables[i] = if self.ch.chance("alter.kind", n, 1, 2) { self.alter_def(&old) } else { self.new_def(Some(old.name.clone())) };
                    self.probe("schema changed");
                    format!("ALTER TABLE {} ADD COLUMN c{} INT", old.name, n)
                } else {
                    format!("CREATE TABLE x{} (id INT)", n)
                };
                b.push(q(&ws(sql)));
                flags = 1 | 32;
                begin = false;
                end = Spec::RowsQuery(String::new());
            }
            3 => {
                for i in 0..1 + self.ch.draw("tx.nst", n, 3) {
                    match self.ch.draw("tx.sbr", n, 4) {
                        0 => b.push(Spec::IntVar(1 + (n % 2) as u8, if wide { rng.borrow_mut().next() } else { 77 + n as u64 })),
                        1 => b.push(Spec::Raw(13, vec![n as u8; 16])),
                        2 if wide => {
                            let r = &mut *rng.borrow_mut();
                            let name = ["ß", "переменная", "v"][r.below(3) as usize].repeat(1 + r.below(40) as usize);
                            let len = [0u64, 1, 255, 256, 70_000][r.below(5) as usize] as usize;
                            let text = ["x", "é", "日"][r.below(3) as usize].repeat(len);
                            b.push(Spec::UserVar { name, value: Some((0, r.next() as u32, text, r.below(3) as u8)) })
                        }
                        2 => b.push(Spec::UserVar { name: format!("v{}", n), value: Some((0, 33, format!("text {}", n), (n % 2) as u8)) }),
                        _ => {}
                    }
                    b.push(q(&ws(format!("INSERT INTO t{} VALUES ({})", i, n))));
                }
            }
            4 => {
                let sp = if wide { ["s1", "COMMIT", "BEGIN", "ROLLBACK", "日本"][rng.borrow_mut().below(5) as usize] } else { "s1" };
                b.push(q(&format!("SAVEPOINT `{}`", sp)));
                self.statement(n, false, &mut b);
                b.push(q(&format!("ROLLBACK TO `{}`", sp)));
                self.statement(n, false, &mut b);
                if self.ch.chance("tx.release_sp", n, 1, 2) {
                    b.push(q(&format!("RELEASE SAVEPOINT `{}`", sp)));
                }
            }
            5 => {
                self.statement(n, false, &mut b);
                end = q("ROLLBACK");
            }
            6 => {
                end = q("COMMIT");
            }
            7 => {
                let all = [
                    "CREATE DATABASE d",
                    "DROP TABLE IF EXISTS `a`,`b` /* generated by server */",
                    "TRUNCATE TABLE t0",
                    "GRANT SELECT ON *.* TO u",
                    "CREATE PROCEDURE p() BEGIN START TRANSACTION; INSERT INTO t VALUES (1); COMMIT; END",
                    "CREATE TABLE `COMMIT` (id INT)",
                    "CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET @a = 1; END",
                ];
                let sql = all[self.ch.draw("tx.ddl", n, if wide { 7 } else { 4 }) as usize];
                b.push(q(sql));
                flags = 1 | 32;
                begin = false;
                end = Spec::RowsQuery(String::new());
            }
            8 => {
                let xid = format!("X'{:02x}',X'',1", n);
                b.push(q(&format!("XA START {}", xid)));
                { let m = self.ch_multi(n); self.statement(n, m, &mut b); }
                b.push(q(&format!("XA END {}", xid)));
                let one_phase = self.ch.chance("tx.onephase", n, 1, 4) && !maria;
                let mut w = W::new();
                w.u8(one_phase as u8).le(1, 4).le(1, 4).le(0, 4).u8(n as u8);
                b.push(Spec::Raw(38, w.0));
                let t = self.push_tx(n, s, b, SHAPES[8], if maria { 64 } else { 0 });
                self.append_tx(s, &t);
                if one_phase {
                    return;
                }
                self.xa_open.push(n);
                if self.ch.chance("tx.xalate", n, 1, 2) {
                    return;
                }
                self.finish_xa(s);
                return;
            }
            9 => {
                let d = self.new_def(None);
                let tail = if maria { "" } else { " START TRANSACTION" };
                b.push(q(&format!("CREATE TABLE {} (id INT){}", d.name, tail)));
                b.push(Spec::Map(d.clone()));
                let r = self.rows(n, &d, true, 20);
                b.push(r);
                if self.tables.len() < self.cfg.max_tables {
                    self.tables.push(d);
                }
                if maria {
                    flags = 32;
                }
            }
            10 => {
                { let m = self.ch_multi(n); self.statement(n, m, &mut b); }
                end = q("COMMIT");
            }
            11 => self.statement(n, true, &mut b),
            12 => {
                b.push(Spec::Raw(17, vec![1, 0, 0, 0, b'a', b'b', b'\n']));
                b.push(Spec::Raw(18, vec![7; 40]));
            }
            _ => {
                b.push(Spec::UserVar { name: format!("u{}", n), value: None });
                b.push(q("UPDATE t SET a = @u"));
            }
        }
        let _ = pfx;
        if self.cfg.newer && self.ch.chance("tx.compressed", n, 1, 6) {
            let mut r = Rng::new(self.ch.draw("tx.compbody", n, 1 << 40));
            let l = 8 + r.below(300) as usize;
            let body: Vec<u8> = (0..l).map(|_| r.below(256) as u8).collect();
            if !maria && begin {
                // the whole transaction in one event
                b = vec![Spec::Raw(40, body)];
                begin = false;
                end = Spec::RowsQuery(String::new());
                self.probe("compressed transaction");
            } else if maria {
                // long statements are compressed one by one
                let mut done = false;
                for x in b.iter_mut() {
                    let plain = matches!(x, Spec::Query { sql, .. } if !sql.contains("SAVEPOINT") && !sql.starts_with("ROLLBACK"));
                    if plain && !done {
                        *x = Spec::Raw(165, body.clone());
                        done = true;
                    }
                }
                if done {
                    self.probe("compressed statement");
                }
            }
        }
        let mut all = vec![];
        if begin {
            all.push(q("BEGIN"));
        }
        all.extend(b);
        if !matches!(&end, Spec::RowsQuery(s) if s.is_empty()) {
            all.push(end);
        }
        let t = self.push_tx(n, s, all, SHAPES[shape], flags);
        self.append_tx(s, &t);
        if !self.xa_open.is_empty() && self.ch.chance("tx.xafin", n, 1, 3) {
            self.finish_xa(s);
        }
    }

    /// Logs a bare group of events.
    pub fn log_raw(&mut self, s: usize, specs: Vec<Spec>, shape: &'static str) {
        let id = self.txs.len() as u32;
        let tx = Rc::new(Tx { id, gtid: TGtid::None, orig: self.servers[s].id, specs, shape, flags: 0 });
        self.txs.push(tx.clone());
        self.probe(shape);
        self.append_tx(s, &tx);
    }

    /// Makes one event's packet exactly as long as (or one byte off) a round number.
    fn pad_event(&mut self, n: u32, s: usize, specs: &mut [Spec]) {
        let to = [255usize, 256, 4096, 8192, 16_384, 32_768, 65_535, 65_536, 131_072][self.ch.draw("pad.to", n, 9) as usize];
        let to = to - 1 + self.ch.draw("pad.off", n, 3) as usize;
        // counted from the packet's status byte, from the header or from the body
        let head = [20usize, 19, 0][self.ch.draw("pad.from", n, 3) as usize];
        let tail = if self.servers[s].alg == 1 { 4 } else { 0 };
        for sp in specs.iter_mut() {
            let have = sp.encode(0).1.len() + head + tail;
            if have >= to {
                continue;
            }
            match sp {
                Spec::Query { sql, .. } if sql.contains(' ') && !sql.starts_with("XA ") => {
                    sql.push_str(&" ".repeat(to - have));
                }
                Spec::RowsQuery(q) => q.push_str(&"x".repeat(to - have)),
                _ => continue,
            }
            self.probe("event of a round size");
            return;
        }
    }

    fn ch_multi(&mut self, n: u32) -> bool {
        self.ch.chance("tx.multi", n, 1, 3)
    }

    fn finish_xa(&mut self, s: usize) {
        if self.xa_open.is_empty() {
            return;
        }
        let x = self.xa_open.remove(0);
        let n = self.txs.len() as u32;
        let verb = if self.ch.chance("tx.xarb", n, 1, 3) { "ROLLBACK" } else { "COMMIT" };
        let b = vec![Spec::query("shop", &format!("XA {} X'{:02x}',X'',1", verb, x))];
        let standalone = if self.cfg.flavour == Flavour::Maria { 128 | self.ch.draw("tx.xasa", n, 2) as u8 } else { 1 };
        let t = self.push_tx(n, s, b, SHAPES[8], standalone);
        self.append_tx(s, &t);
    }

    // ---------- scripts ----------
    pub fn start_script(&mut self, s: usize) {
        self.servers[s].script_left = self.cfg.script_ops;
        self.next_script(s);
    }

    fn next_script(&mut self, s: usize) {
        if self.servers[s].script_left == 0 {
            return;
        }
        self.servers[s].script_left -= 1;
        let gap = match self.ch.draw("script.gapkind", 0, 4) {
            0 => 0,
            1 => self.ch.draw("script.gap", 0, self.cfg.script_gap_ms + 1) * MS / 20,
            _ => self.ch.draw("script.gap", 0, self.cfg.script_gap_ms + 1) * MS,
        };
        self.script_pending += 1;
        self.at(self.now + gap, Ev::Script { server: s });
    }

    /// No script step is left and every server is up.
    pub fn script_done(&self) -> bool {
        self.script_pending == 0 && self.servers.iter().all(|s| s.up)
    }

    pub fn script_tick(&mut self, s: usize) {
        let s = if s == usize::MAX { self.primary } else { s };
        if !self.servers[s].up {
            // retry once the server is back
            self.at(self.now + 100 * MS, Ev::Script { server: s });
            return;
        }
        self.script_pending -= 1;
        let w = self.cfg.script;
        let op = self.ch.weighted("script.op", 0, &w);
        // a step already scheduled when the faults stop only adds data
        match if self.faults_on { op } else { 0 } {
            0 => {
                for _ in 0..1 + self.ch.draw("script.burst", 0, 3) {
                    self.new_tx(s);
                }
            }
            1 => self.rotate(s),
            2 => self.restart(s, true),
            3 => self.restart(s, false),
            4 => self.purge(s),
            5 => self.kill_conns(s),
            6 => {
                let a = self.servers[s].alg;
                self.servers[s].alg = 1 - a.min(1);
                self.probe("checksum setting changed");
                if self.ch.chance("script.csrot", 0, 7, 8) {
                    self.rotate(s);
                }
            }
            8 => {
                self.failover(s);
                let p = self.primary;
                self.servers[p].script_left = self.servers[s].script_left;
                self.servers[s].script_left = 0;
                return self.next_script(p);
            }
            _ => {}
        }
        self.next_script(s);
    }

    /// A dump thread that is stopped may say so before it closes the connection.
    fn goodbye(&mut self, ci: usize) {
        if self.conns[ci].sess.st == St::Dumping && self.ch.chance("goodbye", ci as u32, 1, 3) {
            let e = [(1053, "Server shutdown in progress"), (1317, "Query execution was interrupted"), (1927, "Connection was killed"), (1152, "Aborted connection")];
            let (code, text) = e[self.ch.draw("goodbye.code", ci as u32, 4) as usize];
            self.probe("dump ended by an error packet");
            self.send_err(ci, code, text);
        }
    }

    pub fn kill_conns(&mut self, s: usize) {
        let e = if self.ch.chance("kill.rst", 0, 1, 2) { End::Rst } else { End::Fin };
        let mut any = false;
        for ci in 0..self.conns.len() {
            if self.conns[ci].server == s && self.conns[ci].sess.st != St::Closed {
                any = true;
                self.goodbye(ci);
                self.shut_conn(ci, e);
            }
        }
        if any {
            self.fault("connection killed by the server");
        }
    }

    /// Shuts the server down (or crashes it) and brings it back later with a
    /// new binlog file and fresh table ids.
    pub fn restart(&mut self, s: usize, clean: bool) {
        if clean {
            self.append_server_event(s, 3, vec![], CBody::Unknown, 0);
            // dump threads get a chance to send the stop event
            if self.ch.chance("restart.flush", s as u32, 1, 2) {
                self.wake_dumps(s);
            }
            self.close_file(s);
            self.fault("server restart (clean)");
        } else {
            self.servers[s].files.last_mut().unwrap().crashed = true;
            self.fault("server crash");
        }
        for ci in 0..self.conns.len() {
            if self.conns[ci].server == s && self.conns[ci].sess.st != St::Closed {
                let e = if clean { End::Fin } else { End::Rst };
                if clean {
                    self.goodbye(ci);
                }
                self.shut_conn(ci, e);
            }
        }
        self.servers[s].up = false;
        self.note(format!("server{} down ({})", s, if clean { "clean" } else { "crash" }));
        if self.faults_on && self.ch.chance("restart.alg", s as u32, 1, 6) {
            let a = self.servers[s].alg;
            self.servers[s].alg = 1 - a.min(1);
            self.probe("checksum setting changed");
        }
        let d = (1 + self.ch.draw("restart.down", s as u32, 5000)) * MS;
        self.at(self.now + d, Ev::ServerUp { server: s });
    }

    pub fn server_up(&mut self, s: usize) {
        if self.servers[s].up {
            return;
        }
        let sv = &mut self.servers[s];
        sv.up = true;
        sv.table_ids.clear();
        sv.next_table_id = sv.table_base.0;
        sv.start_count += 1;
        for c in sv.cached.iter_mut() {
            *c = false;
        }
        self.open_file(s);
        self.note(format!("server{} up", s));
        self.mix(31, s as u64, 0);
    }

    pub fn purge(&mut self, s: usize) {
        let newest = self.servers[s].files.len() - 1;
        let in_use = self.conns.iter().filter(|c| c.server == s && c.sess.st == St::Dumping).map(|c| c.sess.fidx).min().unwrap_or(newest).min(newest);
        let keep = self.purge_floor.get(&s).copied().unwrap_or(usize::MAX).min(in_use);
        let first = self.servers[s].first;
        if keep > first {
            let k = 1 + self.ch.draw("purge", s as u32, (keep - first) as u64) as usize;
            self.servers[s].first += k;
            self.probe("old binlogs purged");
            self.note(format!("server{} purges to {}", s, self.servers[s].files[self.servers[s].first].name));
        }
    }

    /// The primary goes away; a replica that has everything takes over.
    pub fn failover(&mut self, s: usize) {
        let cands: Vec<usize> = (0..self.servers.len()).filter(|x| *x != s && self.servers[*x].up).collect();
        if cands.is_empty() {
            return;
        }
        let t = cands[self.ch.draw("failover.to", 0, cands.len() as u64) as usize];
        self.apply_all(t);
        self.primary = t;
        self.probe("failover");
        self.note(format!("failover: server{} replaces server{}", t, s));
        self.restart(s, false);
    }

    fn unapplied(&self, s: usize) -> Vec<u32> {
        (0..self.txs.len() as u32).filter(|t| !self.servers[s].applied.get(*t as usize).copied().unwrap_or(false)).collect()
    }

    pub fn apply_all(&mut self, s: usize) {
        for t in self.unapplied(s) {
            let tx = self.txs[t as usize].clone();
            self.append_tx(s, &tx);
        }
    }

    /// Replica applier: copies transactions in its own order, into its own files.
    pub fn apply_tick(&mut self, s: usize) {
        if s != self.primary && self.servers[s].up {
            let un = self.unapplied(s);
            if !un.is_empty() {
                let cnt = 1 + self.ch.draw("apply.n", s as u32, 4) as usize;
                for _ in 0..cnt {
                    let un = self.unapplied(s);
                    if un.is_empty() {
                        break;
                    }
                    // MySQL's parallel applier may swap neighbours; MariaDB keeps each domain's order
                    let k = if self.cfg.flavour == Flavour::MySql && self.cfg.out_of_order && un.len() > 1 && self.ch.chance("apply.swap", s as u32, 1, 4) { 1 } else { 0 };
                    let k = if k == 1 && (self.txs[un[0] as usize].shape == SHAPES[8] || self.txs[un[1] as usize].shape == SHAPES[8]) { 0 } else { k };
                    let tx = self.txs[un[k] as usize].clone();
                    self.append_tx(s, &tx);
                    if self.ch.chance("apply.rotate", s as u32, 1, 8) {
                        self.rotate(s);
                    }
                }
                self.probe("replica applied transactions");
            }
        }
        if self.apply_on {
            let d = (1 + self.ch.draw("apply.gap", s as u32, 300)) * MS;
            self.at(self.now + d, Ev::Apply { server: s });
        }
    }

    /// Stops all fault injection; servers come up and stay up.
    pub fn quiesce(&mut self) {
        self.faults_on = false;
        self.faults_left = 0;
        for s in 0..self.servers.len() {
            self.servers[s].script_left = 0;
            if !self.servers[s].up {
                self.server_up(s);
            }
        }
        self.note("faults stop".into());
    }
}
