//! Library event -> canonical event.
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::row_events::mysql_value::MySqlValue as V;
use mysql_cdc::events::row_events::row_data::RowData;
use simcore::canon::*;

pub fn header(h: &EventHeader) -> CHeader {
    CHeader { ts: h.timestamp, typ: h.event_type, server_id: h.server_id, len: h.event_length, next_pos: h.next_event_position, flags: h.event_flags }
}

fn val(v: &V) -> CVal {
    match v {
        V::TinyInt(x) => CVal::U("tiny", *x as u64),
        V::SmallInt(x) => CVal::U("short", *x as u64),
        V::MediumInt(x) => CVal::U("int24", *x as u64),
        V::Int(x) => CVal::U("long", *x as u64),
        V::BigInt(x) => CVal::U("longlong", *x as u64),
        V::Float(x) => CVal::F32(x.to_bits()),
        V::Double(x) => CVal::F64(x.to_bits()),
        V::Decimal(s) => CVal::Decimal(s.clone()),
        V::String(s) => CVal::Str(s.clone()),
        V::Bit(b) => CVal::Bit(b.clone()),
        V::Enum(x) => CVal::U("enum", *x as u64),
        V::Set(x) => CVal::U("set", *x as u64),
        V::Blob(b) => CVal::Blob(b.clone()),
        V::Year(x) => CVal::U("year", *x as u64),
        V::Date(d) => CVal::Date(d.year, d.month, d.day),
        V::Time(t) => CVal::Time(t.hour, t.minute, t.second, t.millis),
        V::DateTime(d) => CVal::DateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.millis),
        V::Timestamp(x) => CVal::U("timestamp", *x as u64),
    }
}
fn row(r: &RowData) -> CRow {
    r.cells.iter().map(|c| c.as_ref().map(val)).collect()
}

pub fn body(e: &BinlogEvent) -> CBody {
    use BinlogEvent::*;
    match e {
        UnknownEvent => CBody::Unknown,
        WriteRowsEvent(x) => CBody::Write { table_id: x.table_id, flags: x.flags, cols: x.columns_number, present: x.columns_present.clone(), rows: x.rows.iter().map(row).collect() },
        DeleteRowsEvent(x) => CBody::Delete { table_id: x.table_id, flags: x.flags, cols: x.columns_number, present: x.columns_present.clone(), rows: x.rows.iter().map(row).collect() },
        UpdateRowsEvent(x) => CBody::Update {
            table_id: x.table_id,
            flags: x.flags,
            cols: x.columns_number,
            before: x.columns_before_update.clone(),
            after: x.columns_after_update.clone(),
            rows: x.rows.iter().map(|r| (row(&r.before_update), row(&r.after_update))).collect(),
        },
        XidEvent(x) => CBody::Xid(x.xid),
        IntVarEvent(x) => CBody::IntVar(x.intvar_type, x.value),
        UserVarEvent(x) => CBody::UserVar { name: x.name.clone(), value: x.value.as_ref().map(|v| (v.var_type, v.collation, v.value.clone(), v.flags)) },
        QueryEvent(x) => CBody::Query {
            thread_id: x.thread_id,
            duration: x.duration,
            error_code: x.error_code,
            status: x.status_variables.clone(),
            db: x.database_name.clone(),
            sql: x.sql_statement.clone(),
        },
        TableMapEvent(x) => CBody::TableMap {
            table_id: x.table_id,
            db: x.database_name.clone(),
            table: x.table_name.clone(),
            types: x.column_types.clone(),
            meta: x.column_metadata.clone(),
            nulls: x.null_bitmap.clone(),
            opt: x.table_metadata.as_ref().map(|m| CMeta {
                signedness: m.signedness.clone(),
                default_charset: m.default_charset.as_ref().map(|c| (c.default_charset_collation, c.charset_collations.clone())),
                column_charsets: m.column_charsets.clone(),
                column_names: m.column_names.clone(),
                set_values: m.set_string_values.clone(),
                enum_values: m.enum_string_values.clone(),
                geometry_types: m.geometry_types.clone(),
                simple_pk: m.simple_primary_keys.clone(),
                prefix_pk: m.primary_keys_with_prefix.clone(),
                es_default_charset: m.enum_and_set_default_charset.as_ref().map(|c| (c.default_charset_collation, c.charset_collations.clone())),
                es_column_charsets: m.enum_and_set_column_charsets.clone(),
                visibility: m.column_visibility.clone(),
            }),
        },
        RotateEvent(x) => CBody::Rotate { file: x.binlog_filename.clone(), pos: x.binlog_position },
        RowsQueryEvent(x) => CBody::RowsQuery(x.query.clone()),
        HeartbeatEvent(x) => CBody::Heartbeat(x.binlog_filename.clone()),
        FormatDescriptionEvent(x) => CBody::Fde { version: x.binlog_version, server: x.server_version.clone(), checksum: x.checksum_type as u8 },
        MySqlGtidEvent(x) => CBody::MyGtid { uuid: x.gtid.source_id.data, uuid_text: x.gtid.source_id.uuid.clone(), gno: x.gtid.transaction_id, flags: x.flags },
        MySqlPrevGtidsEvent(x) => {
            let mut v: Vec<(String, Vec<(u64, u64)>)> =
                x.gtid_set.uuid_sets.iter().map(|(k, s)| (k.clone(), s.intervals.iter().map(|i| (i.start, i.end)).collect())).collect();
            v.sort();
            CBody::PrevGtids(v)
        }
        MariaDbGtidEvent(x) => CBody::MaGtid { domain: x.gtid.domain_id, server: x.gtid.server_id, seq: x.gtid.sequence, flags: x.flags },
        MariaDbGtidListEvent(x) => CBody::MaGtidList(x.gtid_list.gtids.iter().map(|g| (g.domain_id, g.server_id, g.sequence)).collect()),
    }
}

pub fn event(h: &EventHeader, e: &BinlogEvent) -> CEvent {
    CEvent { h: header(h), b: body(e) }
}

/// First difference between two events, for the report.
pub fn diff(got: &CEvent, want: &CEvent) -> String {
    let f = |e: &CEvent| format!("{:?}", e);
    let (a, b) = (f(got), f(want));
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let at = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
    let from = at.saturating_sub(60);
    let cut = |v: &[char]| v[from.min(v.len())..(at + 100).min(v.len())].iter().collect::<String>();
    format!("yielded ...{}... expected ...{}...", cut(&x), cut(&y))
}
