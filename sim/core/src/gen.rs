//! Table definitions, row images and event bodies: encoded bytes plus the
//! canonical value an application should see.
use crate::canon::*;
use crate::choice::Rng;
use std::rc::Rc;

pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(Vec::new())
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn le(&mut self, v: u64, n: usize) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes()[..n]);
        self
    }
    pub fn be(&mut self, v: u64, n: usize) -> &mut W {
        self.0.extend_from_slice(&v.to_be_bytes()[8 - n..]);
        self
    }
    pub fn b(&mut self, v: &[u8]) -> &mut W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn lenenc(&mut self, v: u64) -> &mut W {
        if v < 251 {
            self.u8(v as u8)
        } else if v < 65536 {
            self.u8(0xfc).le(v, 2)
        } else if v < 1 << 24 {
            self.u8(0xfd).le(v, 3)
        } else {
            self.u8(0xfe).le(v, 8)
        }
    }
    pub fn lenstr(&mut self, s: &[u8]) -> &mut W {
        self.lenenc(s.len() as u64).b(s)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Tiny,
    Short,
    Int24,
    Long,
    LongLong,
    Float,
    Double,
    Decimal(u8, u8),
    Varchar(u16),
    Char(u16),
    Enum(u8, u16),
    Set(u8, u8),
    Bit(u8),
    Blob(u8),
    Json,
    Geometry,
    Year,
    Date,
    Time2(u8),
    DateTime2(u8),
    Timestamp2(u8),
    OldTime,
    OldDateTime,
    OldTimestamp,
}
use Kind::*;

#[derive(Clone, Debug)]
pub struct Col {
    pub kind: Kind,
    pub nullable: bool,
    pub unsigned: bool,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct TableDef {
    pub def_id: u32,
    pub db: String,
    pub name: String,
    pub cols: Vec<Col>,
    pub opt: Option<CMeta>,
    pub opt_bytes: Vec<u8>,
    opt_seed: u64,
    wide: bool,
}

impl Col {
    /// (type code in the table map, metadata bytes, metadata value)
    pub fn wire(&self) -> (u8, Vec<u8>, u16) {
        let le2 = |v: u16| v.to_le_bytes().to_vec();
        let be2 = |v: u16| v.to_be_bytes().to_vec();
        match self.kind {
            Tiny => (1, vec![], 0),
            Short => (2, vec![], 0),
            Int24 => (9, vec![], 0),
            Long => (3, vec![], 0),
            LongLong => (8, vec![], 0),
            Float => (4, vec![4], 4),
            Double => (5, vec![8], 8),
            Decimal(p, s) => (246, vec![p, s], (p as u16) | ((s as u16) << 8)),
            Varchar(n) => (15, le2(n), n),
            Char(n) => {
                let b0 = 254u16 ^ ((n & 0x300) >> 4);
                let m = (b0 << 8) | (n & 0xff);
                (254, be2(m), m)
            }
            Enum(pack, _) => (254, be2((247 << 8) | pack as u16), (247 << 8) | pack as u16),
            Set(pack, _) => (254, be2((248 << 8) | pack as u16), (248 << 8) | pack as u16),
            Bit(n) => {
                let m = (n as u16 % 8) | ((n as u16 / 8) << 8);
                (16, le2(m), m)
            }
            Blob(n) => (252, vec![n], n as u16),
            Json => (245, vec![4], 4),
            Geometry => (255, vec![4], 4),
            Year => (13, vec![], 0),
            Date => (10, vec![], 0),
            Time2(f) => (19, vec![f], f as u16),
            DateTime2(f) => (18, vec![f], f as u16),
            Timestamp2(f) => (17, vec![f], f as u16),
            OldTime => (11, vec![], 0),
            OldDateTime => (12, vec![], 0),
            OldTimestamp => (7, vec![], 0),
        }
    }
    pub fn numeric(&self) -> bool {
        matches!(self.kind, Tiny | Short | Int24 | Long | LongLong | Float | Double | Decimal(..))
    }
    pub fn character(&self) -> bool {
        matches!(self.kind, Varchar(_) | Char(_) | Blob(_))
    }
}

fn utf8(r: &mut Rng, max_bytes: usize) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.below(12) as usize,
        7 | 8 => r.below(64) as usize,
        _ => r.below(max_bytes as u64 + 1) as usize,
    }
    .min(max_bytes);
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(12) {
            0 => 'é',
            1 => '日',
            2 => '𝄞',
            3 => '\u{0}',
            4 => '\n',
            _ => (b' ' + r.below(95) as u8) as char,
        };
        if s.len() + c.len_utf8() > max_bytes {
            break;
        }
        s.push(c);
    }
    s
}

fn frac(w: &mut W, us: u32, fsp: u8) -> u32 {
    // stored with the declared precision only
    let p = 10u32.pow(6 - fsp as u32);
    let us = us / p * p;
    match fsp {
        0 => {}
        1 | 2 => {
            w.be((us / 10000) as u64, 1);
        }
        3 | 4 => {
            w.be((us / 100) as u64, 2);
        }
        _ => {
            w.be(us as u64, 3);
        }
    }
    us / 1000
}

const DIG2BYTES: [usize; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];

fn decimal(r: Option<&mut Rng>, p: u8, s: u8, w: &mut W) -> CVal {
    let (p, s) = (p as usize, s as usize);
    let int = p - s;
    let mut digits: Vec<u8> = vec![0; p];
    let mut neg = false;
    if let Some(r) = r {
        neg = r.below(2) == 1;
        let lead = r.below(int as u64 + 1) as usize;
        for (i, d) in digits.iter_mut().enumerate() {
            if i >= lead {
                *d = match r.below(4) {
                    0 => 0,
                    _ => r.below(10) as u8,
                };
            }
        }
        if digits.iter().all(|d| *d == 0) {
            neg = false;
        }
    }
    let num = |d: &[u8]| d.iter().fold(0u64, |a, x| a * 10 + *x as u64);
    let mut bytes = W::new();
    let i0 = int % 9;
    bytes.be(num(&digits[..i0]), DIG2BYTES[i0]);
    for k in 0..int / 9 {
        bytes.be(num(&digits[i0 + k * 9..i0 + k * 9 + 9]), 4);
    }
    for k in 0..s / 9 {
        bytes.be(num(&digits[int + k * 9..int + k * 9 + 9]), 4);
    }
    let f0 = s % 9;
    bytes.be(num(&digits[p - f0..]), DIG2BYTES[f0]);
    let mut v = bytes.0;
    if neg {
        for b in v.iter_mut() {
            *b ^= 0xff;
        }
    }
    v[0] ^= 0x80;
    w.b(&v);
    let mut t = String::new();
    if neg {
        t.push('-');
    }
    let istr: String = digits[..int].iter().map(|d| (b'0' + d) as char).collect();
    let istr = istr.trim_start_matches('0');
    t.push_str(if istr.is_empty() { "0" } else { istr });
    if s > 0 {
        t.push('.');
        t.extend(digits[int..].iter().map(|d| (b'0' + d) as char));
    }
    CVal::Decimal(t)
}

/// Encodes one value. `r` = None gives the simplest value.
pub fn value(kind: &Kind, mut r: Option<&mut Rng>, big: usize, w: &mut W) -> CVal {
    let mut any = |n: u64| r.as_mut().map_or(0, |r| r.below(n));
    match *kind {
        Tiny => {
            let v = any(256);
            w.le(v, 1);
            CVal::U("tiny", v)
        }
        Short => {
            let v = any(1 << 16);
            w.le(v, 2);
            CVal::U("short", v)
        }
        Int24 => {
            let v = any(1 << 24);
            w.le(v, 3);
            CVal::U("int24", v)
        }
        Long => {
            let v = any(1 << 32);
            w.le(v, 4);
            CVal::U("long", v)
        }
        LongLong => {
            let v = any(u64::MAX);
            w.le(v, 8);
            CVal::U("longlong", v)
        }
        Float => {
            let v = (any(1 << 24) as f32 - 1000.0) * 0.37;
            w.b(&v.to_le_bytes());
            CVal::F32(v.to_bits())
        }
        Double => {
            let v = (any(1 << 40) as f64 - 1000.0) * 0.0037;
            w.b(&v.to_le_bytes());
            CVal::F64(v.to_bits())
        }
        Decimal(p, s) => decimal(r, p, s, w),
        Varchar(n) | Char(n) => {
            let s = match r {
                Some(r) => utf8(r, n as usize),
                None => String::new(),
            };
            w.le(s.len() as u64, if n < 256 { 1 } else { 2 });
            w.b(s.as_bytes());
            CVal::Str(s)
        }
        Enum(pack, n) => {
            let v = 1 + any(n as u64);
            w.le(v, pack as usize);
            CVal::U("enum", v)
        }
        Set(pack, n) => {
            let v = if n >= 64 { any(u64::MAX) } else { any(1 << n) };
            w.le(v, pack as usize);
            CVal::U("set", v)
        }
        Bit(n) => {
            let n = n as usize;
            let v = if n >= 64 { any(u64::MAX) } else { any(1 << n) };
            w.be(v, (n + 7) / 8);
            CVal::Bit((0..n).rev().map(|i| v >> i & 1 == 1).collect())
        }
        Blob(_) | Json | Geometry => {
            let lb = if let Blob(n) = *kind { n as usize } else { 4 };
            let max = match lb {
                1 => 255,
                2 => big.min(65535),
                _ => big,
            };
            let n = if big > 100 { any(max as u64 + 1) as usize } else { any(20.min(max as u64)) as usize };
            let mut v = vec![0u8; n];
            if let Some(r) = r {
                for c in v.chunks_mut(8) {
                    let x = r.next().to_le_bytes();
                    let l = c.len();
                    c.copy_from_slice(&x[..l]);
                }
            }
            w.le(n as u64, lb).b(&v);
            CVal::Blob(v)
        }
        Year => {
            let v = 1 + any(255);
            w.u8(v as u8);
            CVal::U("year", 1900 + v)
        }
        Date => {
            let (y, m, d) = (any(10000), any(13), any(32));
            w.le(d | (m << 5) | (y << 9), 3);
            CVal::Date(y as u16, m as u8, d as u8)
        }
        Time2(f) => {
            let (h, m, s, us) = (any(839), any(60), any(60), any(1_000_000));
            w.be(0x800000 | (h << 12) | (m << 6) | s, 3);
            let ms = frac(w, us as u32, f);
            CVal::Time(h as i16, m as u8, s as u8, ms)
        }
        DateTime2(f) => {
            let (y, mo, d) = (any(10000), any(13), any(32));
            let (h, m, s, us) = (any(24), any(60), any(60), any(1_000_000));
            let v = (1u64 << 39) | ((y * 13 + mo) << 22) | (d << 17) | (h << 12) | (m << 6) | s;
            w.be(v, 5);
            let ms = frac(w, us as u32, f);
            CVal::DateTime(y as u16, mo as u8, d as u8, h as u8, m as u8, s as u8, ms)
        }
        Timestamp2(f) => {
            let (s, us) = (any(1 << 31), any(1_000_000));
            w.be(s, 4);
            let ms = frac(w, us as u32, f);
            CVal::U("timestamp", s * 1000 + ms as u64)
        }
        OldTime => {
            let (h, m, s) = (any(839), any(60), any(60));
            w.le(h * 10000 + m * 100 + s, 3);
            CVal::Time(h as i16, m as u8, s as u8, 0)
        }
        OldDateTime => {
            let (y, mo, d) = (any(10000), any(13), any(32));
            let (h, m, s) = (any(24), any(60), any(60));
            w.le(((((y * 100 + mo) * 100 + d) * 100 + h) * 100 + m) * 100 + s, 8);
            CVal::DateTime(y as u16, mo as u8, d as u8, h as u8, m as u8, s as u8, 0)
        }
        OldTimestamp => {
            let s = any(1 << 32);
            w.le(s, 4);
            CVal::U("timestamp", s * 1000)
        }
    }
}

fn gen_kind(r: &mut Rng, mysql: bool) -> Kind {
    match r.below(26) {
        0 => Tiny,
        1 => Short,
        2 => Int24,
        3 | 24 => Long,
        4 => LongLong,
        5 => Float,
        6 => Double,
        7 | 8 => {
            let p = 1 + r.below(65) as u8;
            let s = r.below(p.min(30) as u64 + 1) as u8;
            Decimal(p, s)
        }
        9 | 25 => Varchar([1u16, 20, 63, 255, 256, 1000, 4000][r.below(7) as usize]),
        10 => Char([1u16, 10, 80, 255, 256, 400, 600, 800, 1020][r.below(9) as usize]),
        11 => {
            let pack = 1 + r.below(2) as u8;
            Enum(pack, if pack == 1 { 1 + r.below(10) as u16 } else { [300, 300, 300, 300, 300, 9000][r.below(6) as usize] })
        }
        12 => {
            let n = [1u8, 7, 8, 9, 20, 25, 40, 64][r.below(8) as usize];
            let pack = match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=24 => 3,
                25..=32 => 4,
                _ => 8,
            };
            Set(pack, n)
        }
        13 => Bit([1u8, 3, 8, 9, 15, 16, 33, 64][r.below(8) as usize]),
        14 | 15 => Blob(1 + r.below(4) as u8),
        16 if mysql => Json,
        17 => Geometry,
        18 => Year,
        19 => Date,
        20 => Time2(r.below(7) as u8),
        21 => DateTime2(r.below(7) as u8),
        22 => Timestamp2(r.below(7) as u8),
        23 => match r.below(3) {
            0 => OldTime,
            1 => OldDateTime,
            _ => OldTimestamp,
        },
        _ => Varchar(40),
    }
}

fn bits_msb(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    v
}

pub fn bits_lsb(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}

impl TableDef {
    /// `seed` 0 gives a one-column table without optional metadata.
    pub fn gen(def_id: u32, seed: u64, mysql: bool, allow_opt: bool, name: &str, wide: bool) -> TableDef {
        let mut cols = vec![Col { kind: Long, nullable: false, unsigned: false, name: "id".into() }];
        let mut db = "shop".to_string();
        let mut opt = None;
        let mut opt_bytes = Vec::new();
        let mut opt_seed = 0;
        let mut odd = false;
        let mut name = name.to_string();
        if seed != 0 {
            let mut r = Rng::new(seed);
            let n = match r.below(8) {
                0 => 0,
                1..=5 => r.below(7),
                6 => r.below(20),
                _ => r.below(70),
            };
            odd = wide && r.below(2) == 1;
            let n = if odd && r.below(24) == 0 { 245 + r.below(30) } else { n };
            for i in 0..n {
                cols.push(Col {
                    kind: gen_kind(&mut r, mysql),
                    nullable: r.below(2) == 1,
                    unsigned: r.below(2) == 1,
                    name: format!("c{}_{}", i, utf8(&mut r, 12).replace('\0', "")),
                });
            }
            db = format!("db{}", r.below(3));
            if odd {
                match r.below(4) {
                    0 => db = "база_данных".repeat(1 + r.below(9) as usize),
                    1 => db = "d".repeat(64),
                    _ => {}
                }
                match if name.len() < 20 { r.below(4) } else { 9 } {
                    0 => name = format!("{}_{}", name, "表".repeat(60)),
                    1 => name = format!("{} with `quotes` and.dot", name),
                    _ => {}
                }
                if n < 100 {
                    for c in cols.iter_mut() {
                        if r.below(6) == 0 {
                            c.name = ["столбец", "列", "c"][r.below(3) as usize].repeat(1 + r.below(18) as usize);
                        }
                    }
                }
            }
            if allow_opt && r.below(2) == 1 {
                opt_seed = r.next();
                let (m, b) = gen_opt(&mut Rng::new(opt_seed), &cols, odd);
                opt = if b.is_empty() { None } else { Some(m) };
                opt_bytes = b;
            }
        }
        TableDef { def_id, db, name, cols, opt, opt_bytes, opt_seed, wide: odd }
    }

    /// The same table after a change that leaves its column types alone.
    pub fn alter(&self, def_id: u32, seed: u64) -> TableDef {
        let mut r = Rng::new(seed);
        let mut d = self.clone();
        d.def_id = def_id;
        let kinds = [[1u32, 2, 4, 8, 16, 32, 3, 63][r.below(8) as usize], 1][r.below(2) as usize];
        if kinds & 1 != 0 {
            for c in d.cols.iter_mut() {
                if r.below(4) == 0 {
                    continue;
                }
                c.kind = match c.kind.clone() {
                    Varchar(n) => Varchar(if n < 256 { 256 + r.below(4000) as u16 } else { 1 + r.below(255) as u16 }),
                    Char(n) => Char(if n < 256 { 256 + r.below(760) as u16 / 4 * 4 } else { 1 + r.below(255) as u16 }),
                    Decimal(..) => {
                        let p = 1 + r.below(65) as u8;
                        Decimal(p, r.below(p.min(30) as u64 + 1) as u8)
                    }
                    Enum(1, _) => Enum(2, 300),
                    Enum(..) => Enum(1, 1 + r.below(10) as u16),
                    Set(8, _) => Set(1, 5),
                    Set(..) => Set(8, 40),
                    Bit(_) => Bit(1 + r.below(64) as u8),
                    Blob(_) => Blob(1 + r.below(4) as u8),
                    Time2(_) => Time2(r.below(7) as u8),
                    DateTime2(_) => DateTime2(r.below(7) as u8),
                    Timestamp2(_) => Timestamp2(r.below(7) as u8),
                    k => k,
                };
            }
        }
        for c in d.cols.iter_mut().skip(1) {
            if kinds & 2 != 0 && r.below(2) == 0 {
                c.nullable = !c.nullable;
            }
            if kinds & 4 != 0 && r.below(2) == 0 {
                c.unsigned = !c.unsigned;
            }
            if kinds & 8 != 0 && r.below(2) == 0 {
                c.name.push('x');
            }
        }
        if kinds & 16 != 0 {
            d.db = format!("{}2", if d.db.len() < 64 { &d.db } else { "db" });
        }
        if kinds & 32 != 0 {
            d.name = format!("r{}", def_id);
        }
        if !self.opt_bytes.is_empty() {
            let (m, b) = gen_opt(&mut Rng::new(self.opt_seed), &d.cols, self.wide);
            d.opt = if b.is_empty() { None } else { Some(m) };
            d.opt_bytes = b;
        }
        d
    }

    pub fn map_body(&self, table_id: u64) -> (Vec<u8>, CBody) {
        let mut w = W::new();
        w.le(table_id, 6).le(1, 2);
        w.u8(self.db.len() as u8).b(self.db.as_bytes()).u8(0);
        w.u8(self.name.len() as u8).b(self.name.as_bytes()).u8(0);
        w.lenenc(self.cols.len() as u64);
        let mut types = vec![];
        let mut mb = vec![];
        let mut meta = vec![];
        for c in &self.cols {
            let (t, b, m) = c.wire();
            types.push(t);
            mb.extend(b);
            meta.push(m);
        }
        w.b(&types).lenstr(&mb);
        let nulls: Vec<bool> = self.cols.iter().map(|c| c.nullable).collect();
        w.b(&bits_lsb(&nulls)).b(&self.opt_bytes);
        (
            w.0,
            CBody::TableMap { table_id, db: self.db.clone(), table: self.name.clone(), types, meta, nulls, opt: self.opt.clone() },
        )
    }
}

fn field(out: &mut W, typ: u8, body: &[u8]) {
    out.u8(typ).lenenc(body.len() as u64).b(body);
}

fn gen_opt(r: &mut Rng, cols: &[Col], wide: bool) -> (CMeta, Vec<u8>) {
    let mut m = CMeta::default();
    let mut o = W::new();
    let num: Vec<bool> = cols.iter().filter(|c| c.numeric()).map(|c| c.unsigned).collect();
    if !num.is_empty() {
        field(&mut o, 1, &bits_msb(&num));
        m.signedness = Some(num);
    }
    let chars: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].character()).collect();
    let coll = |r: &mut Rng| [8u32, 33, 45, 63, 255, 300][r.below(6) as usize];
    let charset = |r: &mut Rng, n: usize| {
        let d = coll(r);
        let mut w = W::new();
        w.lenenc(d as u64);
        let mut pairs = vec![];
        for i in 0..n {
            if r.below(3) == 0 {
                let c = coll(r);
                w.lenenc(i as u64).lenenc(c as u64);
                pairs.push((i as u32, c));
            }
        }
        ((d, pairs), w.0)
    };
    let arr = |v: &[u32]| {
        let mut w = W::new();
        for x in v {
            w.lenenc(*x as u64);
        }
        w.0
    };
    if !chars.is_empty() {
        if r.below(2) == 0 {
            let (v, b) = charset(r, chars.len());
            field(&mut o, 2, &b);
            m.default_charset = Some(v);
        } else {
            let v: Vec<u32> = chars.iter().map(|_| coll(r)).collect();
            field(&mut o, 3, &arr(&v));
            m.column_charsets = Some(v);
        }
    }
    let es: Vec<&Col> = cols.iter().filter(|c| matches!(c.kind, Enum(..) | Set(..))).collect();
    let full = r.below(2) == 1;
    if full {
        let mut w = W::new();
        for c in cols {
            w.lenstr(c.name.as_bytes());
        }
        field(&mut o, 4, &w.0);
        m.column_names = Some(cols.iter().map(|c| c.name.clone()).collect());
        for (code, is_set) in [(5u8, true), (6u8, false)] {
            let mut w = W::new();
            let mut all = vec![];
            for c in &es {
                let n = match c.kind {
                    Set(_, n) if is_set => n as usize,
                    Enum(_, n) if !is_set => n as usize,
                    _ => continue,
                };
                let vals: Vec<String> = (0..n).map(|i| if wide { ["ж", "v", "値,", ""][(i + n) % 4].repeat(i % 9) + &i.to_string() } else { format!("v{}", i) }).collect();
                w.lenenc(n as u64);
                for v in &vals {
                    w.lenstr(v.as_bytes());
                }
                all.push(vals);
            }
            if !all.is_empty() {
                field(&mut o, code, &w.0);
                if is_set {
                    m.set_values = Some(all)
                } else {
                    m.enum_values = Some(all)
                }
            }
        }
    }
    let geo = cols.iter().filter(|c| c.kind == Geometry).count();
    if geo > 0 {
        let v: Vec<u32> = (0..geo).map(|_| r.below(8) as u32).collect();
        field(&mut o, 7, &arr(&v));
        m.geometry_types = Some(v);
    }
    if full {
        if r.below(2) == 0 {
            let mut pk = vec![0u32];
            if wide {
                pk.extend((1..cols.len() as u32).filter(|_| r.below(5) == 0));
                pk.reverse();
            }
            field(&mut o, 8, &arr(&pk));
            m.simple_pk = Some(pk);
        } else {
            let mut w = W::new();
            let mut pk = vec![];
            for i in 0..cols.len() as u32 {
                if i == 0 || wide && r.below(5) == 0 {
                    let p = r.below(if wide { 4000 } else { 300 }) as u32;
                    w.lenenc(i as u64).lenenc(p as u64);
                    pk.push((i, p));
                }
            }
            field(&mut o, 9, &w.0);
            m.prefix_pk = Some(pk);
        }
        if !es.is_empty() {
            if r.below(2) == 0 {
                let (v, b) = charset(r, es.len());
                field(&mut o, 10, &b);
                m.es_default_charset = Some(v);
            } else {
                let v: Vec<u32> = es.iter().map(|_| coll(r)).collect();
                field(&mut o, 11, &arr(&v));
                m.es_column_charsets = Some(v);
            }
        }
        if r.below(2) == 0 {
            let v: Vec<bool> = cols.iter().map(|_| r.below(4) != 0).collect();
            field(&mut o, 12, &bits_msb(&v));
            m.visibility = Some(v);
        }
    }
    (m, o.0)
}

#[derive(Debug)]
pub struct RowsSpec {
    pub kind: u8, // 0 write, 1 update, 2 delete
    pub def: Rc<TableDef>,
    pub flags: u16,
    pub v2: bool,
    pub extra: Vec<u8>,
    pub p1: Vec<bool>,
    pub p2: Vec<bool>,
    pub data: Vec<u8>,
    pub rows: Vec<CRow>,
    pub urows: Vec<(CRow, CRow)>,
}

fn image(cols: &[Col], present: &[bool], mut r: Option<&mut Rng>, big: usize, w: &mut W) -> CRow {
    let mut nulls = vec![];
    for (i, c) in cols.iter().enumerate() {
        if present[i] {
            nulls.push(c.nullable && r.as_mut().map_or(false, |r| r.below(4) == 0));
        }
    }
    w.b(&bits_lsb(&nulls));
    let mut out = vec![];
    let mut k = 0;
    for (i, c) in cols.iter().enumerate() {
        if !present[i] {
            out.push(None);
            continue;
        }
        let null = nulls[k];
        k += 1;
        if null {
            out.push(None);
        } else {
            // a row has to fit a packet
            let big = if big > 4_000_000 && w.0.len() > 1_000_000 { 20 } else { big };
            out.push(Some(value(&c.kind, r.as_deref_mut(), big, w)));
        }
    }
    out
}

impl RowsSpec {
    pub fn gen(def: &Rc<TableDef>, seed: u64, n_rows: usize, stmt_end: bool, v2: bool, kind: u8, big: usize, wide: bool) -> RowsSpec {
        let mut rng = Rng::new(seed);
        let mut r = if seed == 0 { None } else { Some(&mut rng) };
        let ncol = def.cols.len();
        let mut p1 = vec![true; ncol];
        let mut p2 = vec![true; ncol];
        let mut flags = if stmt_end { 1 } else { 0 };
        let mut extra = vec![];
        if let Some(r) = r.as_mut() {
            flags |= (r.below(8) as u16) << 1;
            if r.below(3) == 0 {
                for p in [&mut p1, &mut p2] {
                    for b in p.iter_mut().skip(1) {
                        *b = r.below(3) != 0;
                    }
                }
            }
            if v2 && r.below(4) == 0 {
                extra = (0..r.below(if wide { 400 } else { 9 })).map(|x| x as u8).collect();
            }
        }
        let mut w = W::new();
        let mut rows = vec![];
        let mut urows = vec![];
        for _ in 0..n_rows {
            let a = image(&def.cols, &p1, r.as_deref_mut(), big, &mut w);
            if kind == 1 {
                let b = image(&def.cols, &p2, r.as_deref_mut(), big, &mut w);
                urows.push((a, b));
            } else {
                rows.push(a);
            }
        }
        RowsSpec { kind, def: def.clone(), flags, v2, extra, p1, p2, data: w.0, rows, urows }
    }
    pub fn type_code(&self) -> u8 {
        match (self.v2, self.kind) {
            (false, k) => 23 + k,
            (true, k) => 30 + k,
        }
    }
    pub fn body(&self, table_id: u64) -> (Vec<u8>, CBody) {
        let mut w = W::new();
        w.le(table_id, 6).le(self.flags as u64, 2);
        if self.v2 {
            w.le(self.extra.len() as u64 + 2, 2).b(&self.extra);
        }
        let n = self.def.cols.len();
        w.lenenc(n as u64).b(&bits_lsb(&self.p1));
        if self.kind == 1 {
            w.b(&bits_lsb(&self.p2));
        }
        w.b(&self.data);
        let c = match self.kind {
            0 => CBody::Write { table_id, flags: self.flags, cols: n, present: self.p1.clone(), rows: self.rows.clone() },
            2 => CBody::Delete { table_id, flags: self.flags, cols: n, present: self.p1.clone(), rows: self.rows.clone() },
            _ => CBody::Update {
                table_id,
                flags: self.flags,
                cols: n,
                before: self.p1.clone(),
                after: self.p2.clone(),
                rows: self.urows.clone(),
            },
        };
        (w.0, c)
    }
}

/// Structured event (before a server gives it a table id, position and checksum).
#[derive(Clone, Debug)]
pub enum Spec {
    MyGtid { uuid: [u8; 16], gno: u64, flags: u8, tail: Vec<u8> },
    MaGtid { domain: u32, server: u32, seq: u64, flags: u8, commit_id: Option<u64>, tail: Vec<u8> },
    Query { thread: u32, dur: u32, err: u16, status: Vec<u8>, db: String, sql: String },
    RowsQuery(String),
    Annotate(String),
    IntVar(u8, u64),
    UserVar { name: String, value: Option<(u8, u32, String, u8)> },
    Xid(u64),
    Map(Rc<TableDef>),
    Rows(Rc<RowsSpec>),
    /// Event type the library reports as unknown
    Raw(u8, Vec<u8>),
}

impl Spec {
    pub fn query(db: &str, sql: &str) -> Spec {
        Spec::Query { thread: 7, dur: 0, err: 0, status: vec![], db: db.into(), sql: sql.into() }
    }
    pub fn table(&self) -> Option<&Rc<TableDef>> {
        match self {
            Spec::Map(d) => Some(d),
            Spec::Rows(r) => Some(&r.def),
            _ => None,
        }
    }
    pub fn encode(&self, table_id: u64) -> (u8, Vec<u8>, CBody) {
        let mut w = W::new();
        match self {
            Spec::MyGtid { uuid, gno, flags, tail } => {
                w.u8(*flags).b(uuid).le(*gno, 8).b(tail);
                (33, w.0, CBody::MyGtid { uuid: *uuid, uuid_text: uuid_text(uuid), gno: *gno, flags: *flags })
            }
            Spec::MaGtid { domain, server, seq, flags, commit_id, tail } => {
                w.le(*seq, 8).le(*domain as u64, 4).u8(*flags);
                match commit_id {
                    Some(c) => w.le(*c, 8),
                    None => w.b(&[0; 6]),
                };
                w.b(tail);
                (162, w.0, CBody::MaGtid { domain: *domain, server: *server, seq: *seq, flags: *flags })
            }
            Spec::Query { thread, dur, err, status, db, sql } => {
                w.le(*thread as u64, 4).le(*dur as u64, 4).u8(db.len() as u8).le(*err as u64, 2);
                w.le(status.len() as u64, 2).b(status).b(db.as_bytes()).u8(0).b(sql.as_bytes());
                (
                    2,
                    w.0,
                    CBody::Query {
                        thread_id: *thread,
                        duration: *dur,
                        error_code: *err,
                        status: status.clone(),
                        db: db.clone(),
                        sql: sql.clone(),
                    },
                )
            }
            Spec::RowsQuery(q) => {
                w.u8(q.len().min(255) as u8).b(q.as_bytes());
                (29, w.0, CBody::RowsQuery(q.clone()))
            }
            Spec::Annotate(q) => {
                w.b(q.as_bytes());
                (160, w.0, CBody::RowsQuery(q.clone()))
            }
            Spec::IntVar(t, v) => {
                w.u8(*t).le(*v, 8);
                (5, w.0, CBody::IntVar(*t, *v))
            }
            Spec::UserVar { name, value } => {
                w.le(name.len() as u64, 4).b(name.as_bytes());
                match value {
                    None => {
                        w.u8(1);
                    }
                    Some((t, c, v, f)) => {
                        w.u8(0).u8(*t).le(*c as u64, 4).le(v.len() as u64, 4).b(v.as_bytes()).u8(*f);
                    }
                }
                (14, w.0, CBody::UserVar { name: name.clone(), value: value.clone() })
            }
            Spec::Xid(x) => {
                w.le(*x, 8);
                (16, w.0, CBody::Xid(*x))
            }
            Spec::Map(d) => {
                let (b, c) = d.map_body(table_id);
                (19, b, c)
            }
            Spec::Rows(r) => {
                let (b, c) = r.body(table_id);
                (r.type_code(), b, c)
            }
            Spec::Raw(t, b) => (*t, b.clone(), CBody::Unknown),
        }
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}
