//! Model binlogs: transactions, log files, GTID state.
use crate::canon::*;
use crate::gen::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const TS_TX: u32 = 1_000_000_000;
pub const TS_SRV: u32 = 3_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavour {
    MySql,
    Maria,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TGtid {
    None,
    My([u8; 16], u64),
    Ma(u32, u32, u64),
}

#[derive(Debug)]
pub struct Tx {
    pub id: u32,
    pub gtid: TGtid,
    pub orig: u32,
    pub specs: Vec<Spec>,
    pub shape: &'static str,
    /// header flags of all events, 0 = usual
    pub flags: u16,
}

/// MySQL GTID set, inclusive sorted disjoint intervals.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct GSet(pub BTreeMap<[u8; 16], Vec<(u64, u64)>>);

impl GSet {
    pub fn add_range(&mut self, u: [u8; 16], lo: u64, hi: u64) {
        let v = self.0.entry(u).or_default();
        v.push((lo, hi));
        v.sort();
        let mut out: Vec<(u64, u64)> = vec![];
        for (a, b) in v.drain(..) {
            match out.last_mut() {
                Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
                _ => out.push((a, b)),
            }
        }
        *v = out;
    }
    pub fn add(&mut self, u: [u8; 16], n: u64) {
        self.add_range(u, n, n)
    }
    pub fn has(&self, u: &[u8; 16], n: u64) -> bool {
        self.0.get(u).map_or(false, |v| v.iter().any(|(a, b)| *a <= n && n <= *b))
    }
    pub fn subset_of(&self, o: &GSet) -> bool {
        self.0.iter().all(|(u, v)| {
            v.iter().all(|(a, b)| o.0.get(u).map_or(false, |w| w.iter().any(|(c, d)| c <= a && b <= d)))
        })
    }
    pub fn text(&self) -> String {
        self.0
            .iter()
            .filter(|x| !x.1.is_empty())
            .map(|(u, v)| {
                let i: Vec<String> = v.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{}-{}", a, b) }).collect();
                format!("{}:{}", uuid_text(u), i.join(":"))
            })
            .collect::<Vec<_>>()
            .join(",")
    }
}

pub type MaState = BTreeMap<u32, (u32, u64)>;

pub fn ma_text(m: &MaState) -> String {
    m.iter().map(|(d, (s, q))| format!("{}-{}-{}", d, s, q)).collect::<Vec<_>>().join(",")
}

#[derive(Clone, Debug)]
pub struct LogEv {
    pub bytes: Rc<Vec<u8>>,
    pub ev: Rc<CEvent>,
    pub pos: u32,
    pub end: u32,
    /// Position of this event in the server's whole log (1-based).
    pub seq: u32,
    /// Transaction id + 1; 0 = not part of a transaction.
    pub tx: u32,
    pub k: u32,
    pub last: bool,
    pub annotate: bool,
}

#[derive(Clone, Debug)]
pub struct BFile {
    pub name: String,
    /// 0 none, 1 crc32, 255: file from a server without checksum support
    pub alg: u8,
    pub evs: Vec<LogEv>,
    pub size: u32,
    pub prev_my: GSet,
    pub prev_ma: MaState,
    pub crashed: bool,
    /// bytes of history before the first transaction that the model does not hold
    pub gap: u32,
}

pub fn build_event(ts: u32, typ: u8, server_id: u32, flags: u16, body: &[u8], crc: bool, log_pos: Option<u32>, at: u32) -> (Vec<u8>, CHeader) {
    let len = 19 + body.len() as u32 + if crc { 4 } else { 0 };
    let next = log_pos.unwrap_or(at.wrapping_add(len));
    let mut w = W::new();
    w.le(ts as u64, 4).u8(typ).le(server_id as u64, 4).le(len as u64, 4).le(next as u64, 4).le(flags as u64, 2).b(body);
    if crc {
        let c = crc32(&w.0);
        w.le(c as u64, 4);
    }
    (w.0, CHeader { ts, typ, server_id, len, next_pos: next, flags })
}

pub fn fde_body(version: &str, created: u32, n_types: u8, alg: u8) -> Vec<u8> {
    let mut w = W::new();
    let mut v = version.as_bytes().to_vec();
    v.resize(50, 0);
    w.le(4, 2).b(&v).le(created as u64, 4).u8(19);
    let mut types: Vec<u8> = (0..n_types).map(|i| [56u8, 13, 0, 8, 0, 18][i as usize % 6]).collect();
    types[14] = 57u8.wrapping_add(n_types);
    w.b(&types);
    if alg != 255 {
        w.u8(alg);
    }
    w.0
}

pub fn rotate_body(file: &str, pos: u64) -> Vec<u8> {
    let mut w = W::new();
    w.le(pos, 8).b(file.as_bytes());
    w.0
}

pub fn prev_gtids_body(s: &GSet) -> (Vec<u8>, CBody) {
    let mut w = W::new();
    let sets: Vec<_> = s.0.iter().filter(|x| !x.1.is_empty()).collect();
    w.le(sets.len() as u64, 8);
    let mut c = vec![];
    for (u, v) in sets {
        w.b(&u[..]).le(v.len() as u64, 8);
        for (a, b) in v {
            w.le(*a, 8).le(*b + 1, 8);
        }
        c.push((uuid_text(u), v.clone()));
    }
    (w.0, CBody::PrevGtids(c))
}

pub fn gtid_list_body(m: &MaState) -> (Vec<u8>, CBody) {
    let mut w = W::new();
    w.le(m.len() as u64, 4);
    let mut c = vec![];
    for (d, (s, q)) in m {
        w.le(*d as u64, 4).le(*s as u64, 4).le(*q, 8);
        c.push((*d, *s, *q));
    }
    (w.0, CBody::MaGtidList(c))
}

impl BFile {
    /// File contents as stored on disk.
    pub fn image(&self) -> Vec<u8> {
        let mut v = vec![0xfe, 0x62, 0x69, 0x6e];
        for e in &self.evs {
            v.extend_from_slice(&e.bytes);
        }
        v
    }
}
