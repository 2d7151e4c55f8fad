#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the wording in step)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

NONET="No existing test opens a connection: the 27 unit tests parse fixed byte arrays, so no schedule, segmentation or fault is ever exercised."
NOFILE="No existing test opens a binlog file through the reader, so short reads, interruptions, torn tails and read errors are never exercised."

p("C01","A stream yields exactly the events the server sent, in order",
 "While a connection lasts, the sequence of (header, event) pairs the replication iterator yields equals, field by field, the sequence of binlog events the server sent on it: none lost, duplicated, reordered, merged, split or altered. This holds however the network segments, delays or interleaves the bytes and however often reads are cut short or interrupted by signals. If the connection ends early, what was yielded is an exact prefix.",
 ["schedules","inputs","fault_sequences"],"every event history, every segmentation/delay of the byte stream, every placement of short reads, EINTR and connection cuts",NONET,
 ["src/packet_channel.rs","src/binlog_events.rs","src/events/event_parser.rs","src/events/event_header.rs"],
 [("read_packet frames packets with read_exact","src/packet_channel.rs"),("status byte dispatch and header/body split","src/binlog_events.rs"),("event dispatch and table map cache","src/events/event_parser.rs")],
 ["BinlogClient::replicate() iterator items"],[("table_map","latest table definition per table id","src/events/event_parser.rs")])
p("C02","Every command reaches the server whole and well framed, or the call fails",
 "Each request the client issues (handshake reply, authentication reply, query, registration, dump request) arrives at the server complete, correctly framed and with the right sequence number, even when the operating system accepts only part of a write or interrupts it. If a write fails, the call that issued it returns an error; a request is never truncated, duplicated or interleaved with another.",
 ["schedules","fault_sequences","inputs"],"every split of every write into partial writes, every EINTR placement, every write failure point, every option value",NONET,
 ["src/packet_channel.rs","src/commands/authenticate_command.rs","src/commands/query_command.rs","src/commands/dump_binlog_command.rs","src/commands/dump_binlog_gtid_command.rs","src/commands/register_slave_command.rs"],
 [("write_packet writes header then body","src/packet_channel.rs"),("command serializers","src/commands/")],
 ["bytes received by the (model) server","return value of replicate()"])
p("C03","Resuming from file/position never loses an event and always makes progress",
 "If an application starts replication by position (from the start, from the end, or from a file and position), processes and commits events as documented, and resumes from the recorded file name and position after any number of disconnects, server restarts, log rotations or its own crashes, then every event from its starting point on is processed at least once and first-time processing follows binlog order. A resumed stream never starts later than the first uncommitted event, and once faults stop the application catches up: the recorded position never wedges inside a group of row events.",
 ["crash_points","schedules","histories","fault_sequences"],"every binlog history (multi-table and multi-event statements, rotations, restarts), every disconnect/crash instant, every commit and checkpoint lag",
 "Tests never run commit() or a reconnect; the guarantee quantifies over crash points within every history.",
 ["src/binlog_client.rs","src/binlog_options.rs","src/configure.rs","src/commands/dump_binlog_command.rs","src/providers/mysql/mysql_provider.rs","src/providers/mariadb/mariadb_provider.rs"],
 [("update_binlog_position: not advanced by table map events; rotate events switch file; zero next positions ignored","src/binlog_client.rs"),("dump request carries recorded file and position","src/providers/")],
 ["options.binlog.filename / options.binlog.position","dump request at the server","events processed by the application"],
 [("options.binlog.{filename,position}","resume point","src/binlog_options.rs")])
p("C04","MySQL GTID resume and failover: nothing lost, nothing committed is resent",
 "With MySQL GTID replication, every transaction that is not in the recorded GTID set when the client (re)connects is delivered whole and in order, and no transaction in the recorded set is delivered again; after any sequence of disconnects, crashes, server restarts or failovers to a server holding the same transactions in different files and positions, every transaction is eventually processed completely. The set the server receives is exactly the recorded set.",
 ["crash_points","schedules","histories","fault_sequences","configurations"],"every transaction history (several source UUIDs, out-of-order ids, DDL, savepoints, rollbacks), every crash instant including mid-transaction, every failover",
 "Tests only exercise GTID set parsing and single add_gtid calls, never a reconnect or a second server.",
 ["src/providers/mysql/mysql_provider.rs","src/commands/dump_binlog_gtid_command.rs","src/binlog_client.rs","src/providers/mysql/gtid/gtid_set.rs","src/providers/mysql/gtid/uuid_set.rs"],
 [("dump by GTID set","src/providers/mysql/mysql_provider.rs"),("GTID set serialization, end exclusive","src/commands/dump_binlog_gtid_command.rs"),("GTID added at transaction end","src/binlog_client.rs")],
 ["GTID dump request at the server","options.binlog.gtid_set"],[("options.binlog.gtid_set","executed transactions","src/binlog_options.rs")])
p("C05","MariaDB GTID resume and failover: nothing lost, nothing committed is resent",
 "With MariaDB GTID replication, every transaction after the recorded position of its domain is delivered whole and in order, and none at or before it is delivered again; after any sequence of disconnects, crashes, restarts or failovers every transaction of every domain is eventually processed completely. The position the server is given is exactly the recorded GTID list.",
 ["crash_points","schedules","histories","fault_sequences","configurations"],"every multi-domain history (row and statement based groups, standalone DDL, savepoints, rollbacks), every crash instant including mid-transaction, every failover",
 "Tests only exercise GTID list parsing and add_gtid; no MariaDB session, crash or reconnect is ever run.",
 ["src/providers/mariadb/mariadb_provider.rs","src/providers/mariadb/gtid/gtid_list.rs","src/providers/mariadb/events/gtid_event.rs","src/binlog_client.rs"],
 [("slave capability, connect state, registration, dump","src/providers/mariadb/mariadb_provider.rs"),("GTID list updated at transaction end","src/binlog_client.rs")],
 ["@slave_connect_state at the server","options.binlog.gtid_list"],[("options.binlog.gtid_list","last transaction per domain","src/binlog_options.rs")])
p("C06","The recorded GTID position equals exactly the completed transactions",
 "At every moment the recorded GTID set (MySQL) or list (MariaDB) equals the initial position plus exactly those transactions whose final event the application has committed: it never includes a transaction that is still in progress or was cut off by a disconnect, and never omits a completed one. This holds for any order of transaction ids, any transaction shape (row-based, statement-based, DDL, savepoints, rollback) and any number of reconnects.",
 ["histories","schedules","crash_points"],"every commit history with every disconnect point; every order and shape of transactions",
 "Tests add at most six ids to one set by hand; commit() and the in-transaction state are never executed.",
 ["src/binlog_client.rs","src/providers/mysql/gtid/uuid_set.rs","src/providers/mysql/gtid/gtid_set.rs","src/providers/mariadb/gtid/gtid_list.rs"],
 [("update_gtid_position / commit_gtid","src/binlog_client.rs"),("interval search, insert and collapse","src/providers/mysql/gtid/uuid_set.rs")],
 ["options.binlog.gtid_set / gtid_list after each commit()"],[("pending gtid and in-transaction flag","transaction currently being read","src/binlog_client.rs")])
p("C07","The requested starting point is honoured",
 "Replication from the start begins at the first event of the oldest available binlog; from a file and position it begins at exactly that event; from the end it begins right after the position the server reports at the first successful lookup, so later writes are all delivered and earlier ones are not. Failed connection attempts before or after the lookup do not move the starting point.",
 ["schedules","histories","configurations","fault_sequences"],"every server history and purge state, every interleaving of writes with session set-up, every failure point during set-up, both server flavours, blocking or not",NONET,
 ["src/binlog_options.rs","src/configure.rs","src/providers/mysql/mysql_provider.rs","src/providers/mariadb/mariadb_provider.rs"],
 [("adjust_starting_position: SHOW MASTER STATUS only when no file is recorded","src/configure.rs"),("starting strategies","src/binlog_options.rs")],
 ["first events delivered","dump request at the server"])
p("C08","The recorded position moves only through commit",
 "Apart from the one-time lookup of the end position, nothing but a commit call changes the recorded file name, position or GTID state: reading events, errors, timeouts, failed connects and reconnects leave it untouched, and each commit moves it to exactly the position implied by the committed event. Artificial events without a position, table definitions, and row events that are not the last of their statement do not move it.",
 ["histories","schedules","fault_sequences"],"every interleaving of reads, commits (immediate, lagged or skipped), failures and reconnects",
 "commit() has no test at all; the property relates every operation of every history to the recorded state.",
 ["src/binlog_client.rs","src/configure.rs"],
 [("commit / update_binlog_position","src/binlog_client.rs")],["options.binlog.* before and after every call"])
p("C09","Server errors are reported, at every stage, with their code and text",
 "Whenever the server answers with an error packet - instead of the greeting, during authentication, to any set-up query, inside a result set, to registration, or within the event stream - the call in progress returns an error that carries the server's error code and message. The client does not carry on with the session as if the step had succeeded, and does not wait for more data instead.",
 ["schedules","fault_sequences","configurations"],"every stage of every session shape (auth method x flavour x start mode) at which the server can report an error",NONET,
 ["src/extensions.rs","src/connect.rs","src/configure.rs","src/binlog_events.rs","src/responses/error_packet.rs","src/providers/mariadb/mariadb_provider.rs"],
 [("check_error_packet after every reply","src/extensions.rs"),("event stream error","src/binlog_events.rs")],["Err from replicate() or next()"])
p("C10","A session is set up exactly when the server accepts the credentials",
 "For both supported authentication plugins, with or without a plugin switch, on the cached and the full (public key) path, and for any user name, password (empty included) and challenge, a client with the right password gets a working session and one with a wrong password gets an error. No set-up query is issued before the server has accepted the credentials.",
 ["configurations","inputs","schedules","fault_sequences"],"every authentication path x credentials x challenge, with any segmentation, delay or failure of the exchange",
 "No test runs a handshake; the password hashes themselves are untested.",
 ["src/connect.rs","src/extensions.rs","src/commands/authenticate_command.rs","src/commands/auth_plugin_switch_command.rs","src/responses/handshake_packet.rs","src/responses/auth_switch_packet.rs"],
 [("authenticate, plugin switch, caching_sha2 full authentication","src/connect.rs"),("challenge response","src/extensions.rs")],["replicate() result","server-side verification of the credentials"])
p("C11","The password never crosses the wire in clear",
 "On an unencrypted connection no byte sequence sent by the client, in any request of any session, on any authentication path and under any server behaviour or failure, contains the password in clear or merely obfuscated with data visible on the wire. If the options require encryption and the server does not offer it, nothing at all is sent.",
 ["schedules","fault_sequences","configurations"],"every session, including hostile or failing servers at every authentication step",NONET,
 ["src/connect.rs","src/extensions.rs","src/commands/authenticate_command.rs"],
 [("hashing / RSA encryption of the password; clear text only under SSL","src/connect.rs")],["all bytes sent by the client"])
p("C12","A silent server is detected in time, a live one is never declared dead",
 "Once connected, if the server sends nothing for the heartbeat interval plus ten seconds, the pending call returns an error no later than that, at whatever point of the session the silence begins. The client asks the server to heartbeat at exactly the configured interval, and a server that does so (with less than ten seconds of network delay) never triggers a timeout, however long there are no events.",
 ["schedules","configurations","fault_sequences"],"every heartbeat interval, every instant at which the server goes silent, every heartbeat delay below the allowance",NONET,
 ["src/packet_channel.rs","src/configure.rs","src/constants/mod.rs"],
 [("read timeout = heartbeat interval + latency allowance","src/packet_channel.rs"),("heartbeat period request in nanoseconds","src/configure.rs")],["simulated time at which next()/replicate() returns","@master_heartbeat_period at the server"])
p("C13","A lost connection is an error, never a clean end or invented data",
 "If the connection is reset or closed at any byte, or a read times out, without the server having announced the end of the stream, the iterator reports an error and never a normal end. Whatever the application does after an error, including continuing to iterate, it is never given an event that the server did not send next on that connection.",
 ["crash_points","schedules","fault_sequences"],"every byte offset at which the connection can be cut or stall, every reaction of the application",NONET,
 ["src/binlog_events.rs","src/packet_channel.rs"],
 [("read errors surface as IoError items","src/binlog_events.rs"),("packet framing state","src/packet_channel.rs")],["iterator items after the fault"])
p("C14","A non-blocking read delivers everything available and then ends",
 "With blocking disabled the stream yields every event in the server's binlogs from the starting point on, across file boundaries, and then ends without an error and without waiting for a heartbeat or timeout. With blocking enabled it does not end by itself and delivers events written later.",
 ["histories","schedules","configurations"],"every binlog history and start mode, blocking or not, with any network schedule",NONET,
 ["src/binlog_client.rs","src/binlog_events.rs","src/providers/mysql/mysql_provider.rs"],
 [("server id 0 requests a non-blocking dump","src/binlog_client.rs"),("end-of-file packet ends the iterator","src/binlog_events.rs")],["iterator end"])
p("C15","Damaged server data yields errors, never a crash, hang or memory blow-up",
 "Whatever bytes arrive from the server - packets truncated, emptied, bit-flipped, extended or replaced in the greeting, authentication, query results or event stream - every call returns an event or an error. It never panics, aborts, loops forever or tries to reserve memory out of all proportion to the data received.",
 ["fault_sequences","inputs"],"every corruption of every packet of every session",
 "Tests feed a handful of well-formed byte arrays; none feeds damaged data.",
 ["src/packet_channel.rs","src/events/","src/responses/","src/extensions.rs","src/connect.rs","src/configure.rs","src/metadata/table_metadata.rs"],
 [("Result-returning parsers over bounded cursors","src/events/"),("length checks","src/extensions.rs")],["return values of replicate() and next()"])
p("C16","The offline reader yields exactly the file's events",
 "Reading a complete binlog file offline yields exactly the events it contains, field by field and in file order, and then ends - for events of any size and however the operating system splits or interrupts the reads. Reading never skips, repeats or blends bytes of neighbouring events.",
 ["inputs","schedules","fault_sequences"],"every file content and event size, every split of every read, every EINTR placement",NOFILE,
 ["src/binlog_reader.rs","src/events/event_parser.rs"],
 [("read_exact of header then payload; shared payload buffer below 32 KiB","src/binlog_reader.rs")],["BinlogReader items"],[("payload_buffer","reused between events","src/binlog_reader.rs")])
p("C17","Torn or failing files: exact prefix, honest ending",
 "If a binlog file stops in the middle of an event, or reading fails at any byte, every complete event before that point is delivered unchanged; a torn tail ends the iteration without inventing an event, and a read failure is reported as an error rather than as the end of the file. Continuing to iterate afterwards never yields an event that is not in the file.",
 ["crash_points","fault_sequences","inputs"],"every truncation point, every read-failure point, every reaction of the application",NOFILE,
 ["src/binlog_reader.rs"],[("unexpected EOF ends the iteration, other errors are items","src/binlog_reader.rs")],["BinlogReader items"])
p("C18","Damaged binlog files yield errors, never a crash or a silent end",
 "Whatever bytes a binlog file contains, opening and reading it returns events or errors: it never panics, aborts, loops forever or tries to reserve memory out of all proportion to the file. An event that is present in full but cannot be decoded is reported as an error, not as the end of the file.",
 ["fault_sequences","inputs"],"every corruption (flipped, overwritten, inserted or removed bytes) of every file",NOFILE,
 ["src/binlog_reader.rs","src/events/","src/metadata/table_metadata.rs","src/providers/"],
 [("length and magic checks, Result-returning parsers","src/binlog_reader.rs")],["BinlogReader::new / items"])
p("C19","Rows are decoded with the latest table definition, or an error is reported",
 "Every row event is decoded with the most recent definition of its table received earlier on the same connection or file, even when ids are reused for other tables, definitions change, several tables are interleaved, or the server restarts in between. A definition holds within the binlog file it is logged in, as servers log row events in the file of their definitions. If no definition was received (for example because replication started inside a statement), an error is reported and no rows are invented.",
 ["histories","schedules","crash_points"],"every history of definitions and row events with id reuse, schema change, rotation, restart and mid-statement starts",
 "No test decodes a row event; the definition cache is never exercised.",
 ["src/events/event_parser.rs","src/events/row_events/row_parser.rs","src/events/table_map_event.rs"],
 [("table map cache keyed by table id, replaced by each definition","src/events/event_parser.rs"),("missing definition error","src/events/row_events/row_parser.rs")],["row events yielded"],[("table_map","latest definition per id","src/events/event_parser.rs")])
p("C20","Changes of the binlog checksum algorithm are followed",
 "Events are decoded correctly, with neither checksum bytes left in nor payload bytes cut off, whichever checksum algorithm is in force: the one negotiated when the session starts until the first format description, then the one each format description announces. This holds across rotation to files written with another algorithm, server restarts with a changed setting, reconnects, and for offline files of either kind.",
 ["histories","configurations","schedules"],"every sequence of checksum settings over files, restarts and reconnects, online and offline",
 "No test uses a format description event or any checksum.",
 ["src/configure.rs","src/binlog_events.rs","src/events/event_parser.rs","src/events/format_description_event.rs"],
 [("checksum negotiated before the dump","src/configure.rs"),("format description switches the algorithm","src/events/event_parser.rs")],["events yielded"],[("checksum_type","algorithm in force","src/events/event_parser.rs")])
p("C21","Online and offline reads of the same binlog agree",
 "For any binlog, the events obtained by streaming it from a server and by reading the same file offline are identical, apart from the artificial events a server inserts into a stream. This holds for every way the bytes are delivered on either side.",
 ["inputs","schedules","configurations"],"every binlog content, every delivery schedule on both paths",
 "Neither path is ever run by a test, let alone both on the same data.",
 ["src/binlog_reader.rs","src/binlog_events.rs","src/events/event_parser.rs"],
 [("both paths share the event parser, but frame events separately","src/events/event_parser.rs")],["items of both iterators"])
p("C22","Sessions are independent of each other and of earlier sessions",
 "Several clients or readers used in one process, interleaved in any way, each behave as if they were alone. A client that reconnects starts a fresh session: no partial packet, table definition, checksum setting or unfinished transaction of an earlier connection influences what it delivers or records afterwards.",
 ["schedules","histories","fault_sequences"],"every interleaving of several clients' and readers' calls; every state in which an earlier session was abandoned",
 "Tests never create a client, let alone two or a reconnect.",
 ["src/binlog_client.rs","src/binlog_events.rs","src/events/event_parser.rs"],
 [("per-connection parser and channel","src/binlog_events.rs"),("transaction state reset on replicate","src/binlog_client.rs")],["events yielded and positions recorded by each client"])
p("C23","No connection is leaked",
 "Every connection the client opens is closed by the time the stream that owns it is dropped or the replicate call that opened it has failed, at whatever step and for whatever reason it failed. A replicate call opens at most one connection that stays open.",
 ["fault_sequences","schedules"],"every failure point of session set-up and streaming, every point at which the application abandons a stream",NONET,
 ["src/packet_channel.rs","src/connect.rs","src/binlog_client.rs"],
 [("ownership of the socket by channel and stream","src/packet_channel.rs")],["sockets open after each call"])
p("C24","Replies are matched to the requests that caused them",
 "The client never issues a request while a reply to an earlier one is still unread, and interprets each reply as the answer to its own request, on every authentication path, server flavour and start mode and under any timing. In particular the first packet taken as a binlog event is the first packet of the dump, and values read from the server (end position, checksum algorithm) come from the right result set.",
 ["schedules","configurations","fault_sequences"],"every session shape and every network timing",NONET,
 ["src/connect.rs","src/configure.rs","src/providers/mariadb/mariadb_provider.rs"],
 [("each command is followed by reading its complete reply","src/configure.rs")],["unread server bytes when a request arrives"])
p("C27","Damage stays confined to the event it hits",
 "When an event's content arrives damaged in the stream or stands damaged in a file, while the framing around it is intact, exactly that event is affected: it yields one item, an event or an error. An application that keeps iterating gets every following event as if nothing had happened, decoded with the checksum setting and table definitions announced by the sound events - only rows events whose table definition was itself damaged may be affected too - and the stream or file ends where it would have ended.",
 ["fault_sequences","histories"],"every set of damaged events at any place of any history, online and offline",
 "No existing test decodes an event after one that cannot be decoded.",
 ["src/events/event_parser.rs","src/binlog_events.rs","src/binlog_reader.rs"],
 [("parser state changes only with a fully decoded event","src/events/event_parser.rs"),("an event is consumed before it is decoded","src/binlog_reader.rs")],["items behind a damaged event"])
p("C28","Memory in use does not grow with the time a client has been running",
 "What the library keeps in memory between calls does not grow with the number of events, heartbeats or sessions it has handled or with the length of a file: besides the current packet or event, the recorded position and the table definitions of the current binlog file, nothing of what was received is retained once the application has dropped the event, the stream or the error. This holds for streams of any length, idle streams, files of any length, and clients that connect again and again, whether the sessions end well or fail.",
 ["histories","fault_sequences"],"every history of events, sessions and failures, of any length",
 "No test handles more than one event.",
 ["src/events/event_parser.rs","src/packet_channel.rs","src/binlog_events.rs","src/binlog_reader.rs","src/binlog_client.rs"],
 [("definition cache of one binlog file","src/events/event_parser.rs"),("packet and event buffers","src/packet_channel.rs")],["bytes allocated by the library and not freed between calls"],[("table_map","definitions of the current file","src/events/event_parser.rs")])
p("C29","What has arrived is delivered at once",
 "next returns an item as soon as its last byte has reached the client: it does not wait for later events, heartbeats or timers, whatever pauses the server makes and wherever the network cuts the byte stream. The same holds for errors sent by the server, for the end of a non-blocking stream and for a lost connection; replicate returns with the server's last reply; commit, dropping a stream and reading a file do not wait for anything.",
 ["schedules","histories"],"every schedule of writes, pauses, segmentation and delays",
 "No test opens a connection or measures time.",
 ["src/binlog_events.rs","src/packet_channel.rs","src/binlog_client.rs"],
 [("exactly one packet is read per item","src/binlog_events.rs"),("no buffering beyond the packet","src/packet_channel.rs")],["simulated time at which calls return"])
p("C30","A server is reached through any of its addresses",
 "When the configured host name resolves to several addresses, IPv4 or IPv6 in any order, of which some refuse, are unreachable or do not answer, replicate connects through the first that accepts and the session is like any other; it fails only if none accepts. Addresses written as numbers work too. Attempts that failed leave no socket behind.",
 ["fault_sequences","configurations"],"every set and order of addresses, dead or alive",
 "No test opens a connection.",
 ["src/packet_channel.rs"],
 [("connecting by name","src/packet_channel.rs")],["result of replicate","open sockets"])
p("C25","Column values decode to the values the server stored",
 "For every column type and every value, the decoded cell equals the value the server stored (numbers, decimals, strings, bits, enums, sets, blobs, temporal types), and table metadata equals what the server wrote.",
 ["inputs"],"every type, metadata and value",
 "Unit tests sample five decimals and three string types.",
 ["src/events/row_events/col_parser.rs","src/events/row_events/decimal.rs","src/events/row_events/row_parser.rs","src/metadata/table_metadata.rs"],
 [("per-type decoders","src/events/row_events/col_parser.rs")],["cells of row events"])
p("C26","GTID text round trip",
 "Parsing any valid textual GTID set or list and printing it again denotes the same set of transactions, whatever the order, case or spacing of the text.",
 ["inputs"],"every valid text",
 "Unit tests sample a dozen strings.",
 ["src/providers/mysql/gtid/gtid_set.rs","src/providers/mysql/gtid/uuid.rs","src/providers/mariadb/gtid/gtid_list.rs"],
 [("parse and Display","src/providers/mysql/gtid/gtid_set.rs")],["GtidSet::parse/to_string"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
