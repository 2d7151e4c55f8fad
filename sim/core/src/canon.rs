//! Canonical form of a decoded binlog event: what the application should see.
//! The model servers build it from the structured definition of each event,
//! never from the library's decoder.
#[derive(Clone, Debug, PartialEq)]
pub struct CHeader {
    pub ts: u32,
    pub typ: u8,
    pub server_id: u32,
    pub len: u32,
    pub next_pos: u32,
    pub flags: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    U(&'static str, u64),
    F32(u32),
    F64(u64),
    Decimal(String),
    Str(String),
    Bit(Vec<bool>),
    Blob(Vec<u8>),
    Date(u16, u8, u8),
    Time(i16, u8, u8, u32),
    DateTime(u16, u8, u8, u8, u8, u8, u32),
}

pub type CRow = Vec<Option<CVal>>;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CMeta {
    pub signedness: Option<Vec<bool>>,
    pub default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub column_charsets: Option<Vec<u32>>,
    pub column_names: Option<Vec<String>>,
    pub set_values: Option<Vec<Vec<String>>>,
    pub enum_values: Option<Vec<Vec<String>>>,
    pub geometry_types: Option<Vec<u32>>,
    pub simple_pk: Option<Vec<u32>>,
    pub prefix_pk: Option<Vec<(u32, u32)>>,
    pub es_default_charset: Option<(u32, Vec<(u32, u32)>)>,
    pub es_column_charsets: Option<Vec<u32>>,
    pub visibility: Option<Vec<bool>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CBody {
    Unknown,
    Write { table_id: u64, flags: u16, cols: usize, present: Vec<bool>, rows: Vec<CRow> },
    Delete { table_id: u64, flags: u16, cols: usize, present: Vec<bool>, rows: Vec<CRow> },
    Update { table_id: u64, flags: u16, cols: usize, before: Vec<bool>, after: Vec<bool>, rows: Vec<(CRow, CRow)> },
    Xid(u64),
    IntVar(u8, u64),
    UserVar { name: String, value: Option<(u8, u32, String, u8)> },
    Query { thread_id: u32, duration: u32, error_code: u16, status: Vec<u8>, db: String, sql: String },
    TableMap { table_id: u64, db: String, table: String, types: Vec<u8>, meta: Vec<u16>, nulls: Vec<bool>, opt: Option<CMeta> },
    Rotate { file: String, pos: u64 },
    RowsQuery(String),
    Heartbeat(String),
    Fde { version: u16, server: String, checksum: u8 },
    MyGtid { uuid: [u8; 16], uuid_text: String, gno: u64, flags: u8 },
    /// (uuid text, intervals inclusive), sorted by uuid text
    PrevGtids(Vec<(String, Vec<(u64, u64)>)>),
    MaGtid { domain: u32, server: u32, seq: u64, flags: u8 },
    MaGtidList(Vec<(u32, u32, u64)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct CEvent {
    pub h: CHeader,
    pub b: CBody,
}

impl CEvent {
    pub fn brief(&self) -> String {
        let s = format!("{:?}", self.b);
        let cut: String = s.chars().take(160).collect();
        format!("{{ts {} type {} len {} next {} flags {}}} {}", self.h.ts, self.h.typ, self.h.len, self.h.next_pos, self.h.flags, cut)
    }
}

pub fn uuid_text(d: &[u8; 16]) -> String {
    let mut s = String::new();
    for (i, b) in d.iter().enumerate() {
        if i == 4 || i == 6 || i == 8 || i == 10 {
            s.push('-');
        }
        s.push_str(&format!("{:02x}", b));
    }
    s
}
