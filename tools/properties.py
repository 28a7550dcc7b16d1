import json
S='app/roster/src/application/server/'
D='app/roster/src/domain/'
def P(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
H="cfg(roster_verif): re-exports of private items for the replay harness"
props=[
P("C01","Requests do not depend on how the client's bytes are split",
"For every byte stream a client sends, the sequence of requests taken from the connection depends only on the bytes, never on how they were cut into reads, on buffer sizes or on what is still unread. Every complete request is taken exactly once, in order, with nothing lost, duplicated or left over between two requests. A request cut short by the end of the stream is never executed: a stream that ends between two requests ends the connection cleanly, one that ends inside a request ends it with an error.",
["inputs","schedules"],"all byte streams, all ways of cutting them into reads, requests of any size and number per read",
"The tests send one small request at a time over loopback, so every request arrives in one read and fits the first buffer.",
[S+"connection.rs",S+"frame/mod.rs"],
[("ReadConnection::read_frame / parse_frame",S+"connection.rs"),("Frame::check",S+"frame/mod.rs")],
["the requests executed on a connection","ReadConnection::read_frame"],
[("ReadConnection.buffer","bytes received and not yet taken as a frame",S+"connection.rs")],H),
P("C02","Decoding a request yields exactly the value the client encoded",
"For every value of the protocol (simple string, error, integer, bulk string, null, array, map, nested up to the nesting limit), decoding its encoding yields exactly that value, byte for byte, and consumes exactly the bytes of the encoding, whatever follows them. A strict prefix of an encoding is reported as incomplete, never as a value or as an error. Bytes that are not an encoding (unknown type byte, invalid length or number, invalid text, malformed null, though not the two bytes closing a bulk string, which are skipped unread as in Redis) are rejected and never yield a value.",
["inputs"],"all byte strings and all protocol values, of any size, with nesting up to the limit",
"Three fixed byte strings are tested; the decoder is recursive and its length arithmetic only goes wrong on unusual lengths, positions and nestings.",
[S+"frame/mod.rs"],
[("Frame::check","finds the end of the first frame, in "+S+"frame/mod.rs"),("Frame::parse","builds the value of a checked frame, in "+S+"frame/mod.rs"),("get_line / get_decimal / skip / peek_u8 / get_u8 and their _mut versions",S+"frame/mod.rs")],
["Frame::check","Frame::parse"]),
P("C03","Every reply is sent as exactly one complete encoding of its value",
"For every reply value, the bytes put on the connection are exactly the protocol encoding of that value, complete and in order, whatever its size and however few bytes the socket accepts at a time. A text put in a simple string or an error can never be read by the client as more than one reply: a line break in it is sent as a space. A reply is only reported as sent once all of its bytes have been handed to the socket.",
["inputs","schedules"],"all reply values (any size, content and nesting) and all sequences of short writes",
"The tests encode seven small values into an in-memory writer that never writes short, and end-to-end replies are below any buffer size.",
[S+"frame/write.rs",S+"connection.rs"],
[("write_value / write_decimal / write_line / write_frame",S+"frame/write.rs"),("Encoder",S+"frame/write.rs"),("WriteConnection::write_frame",S+"connection.rs")],
["the bytes received by the client"],None,H),
P("C04","No bytes from a client can bring down the server or other connections",
"Whatever bytes a client sends, and whenever it disconnects, the server keeps running: no input makes the request path panic, overflow an integer, index out of bounds or recurse without bound. A malformed or unacceptable request ends at most the connection it came from, and a connection that ends in any way is marked as ended. Failing to accept a connection never stops the server from accepting the following ones.",
["inputs","fault_sequences"],"all byte streams and disconnections, all requests and arguments, all accept and socket errors",
"Tests send well-formed commands; a crash needs a specific length, nesting, encoding or I/O failure.",
[S+"frame/mod.rs",S+"connection.rs",S+"cmd/parse.rs",S+"cmd/mod.rs",S+"cmd/set.rs",S+"cmd/acl/cat.rs",S+"handle.rs",S+"server_thread.rs",S+"frame/write.rs"],
[("MAX_DEPTH / check_nested",S+"frame/mod.rs"),("checked length arithmetic",S+"frame/mod.rs"),("connection task",S+"server_thread.rs"),("accept loop",S+"server_thread.rs"),("reading task",S+"handle.rs")],
["the server process","other connections"],None,H),
P("C05","A request runs as exactly the command and arguments it spells",
"A request is an array whose first element names the command, and a second one the subcommand for CLIENT and ACL, in any letter case; it runs as that command with exactly the arguments given, in the order given. A request with a missing, extra or ill-typed argument (for example a key or name that is not text, a number that is not an unsigned 64-bit decimal, an unknown SET option or LIST filter; only the attributes of CLIENT SETINFO and the type of a CLIENT LIST TYPE may be left out), or that is not an array, is rejected without running any command. A command or subcommand that does not exist is answered with an error naming it, in lower case.",
["inputs"],"all protocol values received as a request, all command names, arities, argument types and contents",
"The tests parse a dozen well-formed requests and two with an extra argument; the combinations of names, arities and types are unbounded.",
[S+"cmd/mod.rs",S+"cmd/parse.rs",S+"cmd/set.rs",S+"cmd/get.rs",S+"cmd/ping.rs",S+"cmd/hello.rs",S+"cmd/acl/mod.rs",S+"cmd/acl/cat.rs",S+"cmd/client/mod.rs",S+"cmd/client/list.rs",S+"cmd/client/set_info.rs",S+"cmd/client/set_name.rs",S+"cmd/client/get_name.rs",S+"cmd/client/id.rs",S+"cmd/client/info.rs"],
[("Command::from_frame",S+"cmd/mod.rs"),("Parse",S+"cmd/parse.rs"),("parse_frames / from_parse of every command",S+"cmd/")],
["Command::from_frame","replies of the server"],None,H),
P("C06","GET returns the value of the last SET of that key, byte for byte",
"Over all connections and threads, a GET of a key returns exactly the bytes of the last SET of that key that took effect before it, or nil when there is none (or when its time to live has passed). A SET replaces the previous value and its time to live, and a SET or GET of one key never changes what any other key holds. An acknowledged SET is never lost, whatever the concurrent SETs, GETs and expirations of the same key.",
["inputs","histories","schedules"],"all keys and values (any bytes), all histories of SET and GET from any number of connections, all interleavings",
"One test sets one key once; overwriting, other keys, binary values and concurrent access are never exercised.",
[D+"storage/mod.rs",S+"cmd/set.rs",S+"cmd/get.rs"],
[("StorageSegment::set_async / get_async",D+"storage/mod.rs"),("Set::apply / Get::apply",S+"cmd/"),("Storage::part",D+"storage/mod.rs")],
["replies to GET","StorageSegment"],
[("StorageSegment.db","the key space, shared by all the threads",D+"storage/mod.rs")]),
P("C07","A key expires after its time to live, and not before",
"A key set with EX n (seconds) or PX n (milliseconds) is still returned by a GET made before that time has passed since the SET, and never returned by a GET made after it has passed (to the resolution of the server's coarse clock). A key set without a time to live never expires, and a new SET discards the previous time to live. This holds for every n, including those larger than the server's clock can represent, which keep the key for as long as the clock can represent.",
["inputs","histories"],"all times to live in 0..2^64, all instants of SET and GET, all histories",
"No test sets a time to live; the boundary is a clock comparison and the arithmetic only fails on large values.",
[D+"storage/mod.rs",S+"cmd/set.rs",S+"cmd/get.rs",S+"context.rs"],
[("expiry comparison",D+"storage/mod.rs get_async"),("deadline computation",S+"cmd/set.rs apply"),("Context::now",S+"context.rs")],
["replies to GET after SET EX/PX"],
[("StorageValue.expired","deadline of the key, if any",D+"storage/mod.rs")]),
P("C08","Every command answers with the reply its documentation promises",
"PING answers PONG, or its argument byte for byte; SET answers OK; GET answers the value or nil; HELLO answers the map of the server's properties with the id of the connection asking; CLIENT ID, GETNAME, SETNAME, SETINFO, INFO, LIST and HELP answer for the connection asking (its own id, its own name or nil, OK or an error for a name with a space, a line break or another special character, its own description, one description per live connection, the help text). Every other command or subcommand is answered with an error. Each command sends exactly one reply, and an error reply leaves the state of the server unchanged.",
["inputs","histories"],"all commands with all arguments, in all states of the server",
"Snapshots of a few replies in one state.",
[S+"cmd/ping.rs",S+"cmd/set.rs",S+"cmd/get.rs",S+"cmd/hello.rs",S+"cmd/unknown.rs",S+"cmd/mod.rs",S+"cmd/acl/cat.rs",S+"cmd/client/mod.rs",S+"cmd/client/id.rs",S+"cmd/client/info.rs",S+"cmd/client/list.rs",S+"cmd/client/get_name.rs",S+"cmd/client/set_name.rs",S+"cmd/client/set_info.rs"],
[("apply of every command",S+"cmd/"),("Command::apply",S+"cmd/mod.rs")],
["replies of the server"],None,H),
P("C09","Replies come back one per request, in the order of the requests",
"For any number of requests a client pipelines on a connection, the server sends exactly one reply per request, in the order in which the requests were sent, and each reply is the answer to its own request. Requests of a connection take effect one after the other in that order. After a request that is rejected, no later request of that connection is executed or answered.",
["schedules","histories","inputs"],"all sequences of requests on a connection, all interleavings of its reading and answering tasks",
"Tests wait for each reply before the next request, so the reading task never gets ahead of the answering task.",
[S+"handle.rs",S+"cmd/mod.rs",S+"connection.rs"],
[("reading task and answering task",S+"handle.rs run_internal"),("in-order channel",S+"handle.rs")],
["the stream of replies of a connection"]),
P("C10","Connection ids are never reused, grow with time, and LIST shows the live ones",
"Every connection accepted by the server, on any thread, gets an id that no other connection ever has, and that is greater than the id of every connection established before it. CLIENT ID, CLIENT INFO and HELLO report that id for as long as the connection lasts. CLIENT LIST describes every connection that is established and not ended exactly once, and no connection that has ended.",
["histories","schedules"],"all histories of connections and disconnections on all threads",
"Tests open two connections on a fresh server; uniqueness under concurrent accepts and the listing after disconnections are not exercised.",
[S+"supervisor/mod.rs",S+"server_thread.rs",S+"cmd/client/id.rs",S+"cmd/client/list.rs",S+"cmd/hello.rs"],
[("Supervisor::assign_new_connection / get_normal_connection",S+"supervisor/mod.rs"),("MetadataConnection::stop",S+"supervisor/mod.rs"),("accept loop and connection task",S+"server_thread.rs")],
["CLIENT ID","CLIENT LIST"],
[("Supervisor.current_id","next id",S+"supervisor/mod.rs"),("Supervisor.current_connections","all connections",S+"supervisor/mod.rs"),("MetadataConnection.stopped","the connection has ended",S+"supervisor/mod.rs")],H),
P("C11","A connection's name is its own and is the last one it set",
"CLIENT GETNAME returns exactly the last name the same connection set, and nil if it set none or removed it by setting the empty name; no connection can change or see another one's name as its own. A name that contains a space, a line break or any other character outside the printable ASCII ones is refused and leaves the current name unchanged. The descriptions in CLIENT INFO and CLIENT LIST carry that connection's id, addresses and current name, and no name can forge a field of a description.",
["inputs","histories"],"all names (any text), all histories of SETNAME/GETNAME/INFO/LIST over any number of connections",
"One test sets one name on one connection.",
[S+"supervisor/mod.rs",S+"cmd/client/set_name.rs",S+"cmd/client/get_name.rs",S+"cmd/client/info.rs",S+"cmd/client/list.rs"],
[("MetadataConnection::set_name / name / format_conn",S+"supervisor/mod.rs"),("name validation",S+"cmd/client/set_name.rs")],
["CLIENT GETNAME, INFO, LIST"],
[("MetadataConnection.name","current name of the connection",S+"supervisor/mod.rs")],H),
P("C12","The hash slot of a key is its CRC16 modulo 16384",
"The hash slot of every key, for the commands that have one, is the CRC16 (XMODEM) of the bytes of the key modulo 16384, and is therefore always below 16384. It depends on nothing but the bytes of the key: every server and every thread computes the same slot. Commands that do not address a key have no slot.",
["inputs"],"all keys (any bytes, any length) and all commands",
"No test computes a hash slot.",
["app/roster/src/infrastructure/hash/mod.rs",S+"cmd/set.rs",S+"cmd/get.rs",S+"cmd/mod.rs"],
[("crc_hash","app/roster/src/infrastructure/hash/mod.rs"),("hash_key",S+"cmd/mod.rs")],
["crc_hash","CommandExecution::hash_key"],None,H),
P("C13","Slot ranges partition the slot space, and a part always gets the same segment",
"For every number of parts from 1 to 16384, splitting the key space gives that many consecutive ranges which cover every slot from 0 to 16383 exactly once. A thread is always given the range and the storage segment of its index modulo the number of parts, the same for the storage and for the dialer, so that two threads of the same part share the same data, and a server with a single segment serves every key on every thread. Asking whether a slot belongs to a part agrees with its range.",
["inputs","configurations"],"all numbers of parts in 1..=16384 and all thread indexes",
"No test splits the storage; the server itself always uses one part.",
[D+"storage/mod.rs",D+"dialer/mod.rs",S+"mod.rs",S+"server_thread.rs"],
[("Storage::new / slots / part",D+"storage/mod.rs"),("RootDialer::part",D+"dialer/mod.rs"),("Slot",D+"dialer/mod.rs")],
["Storage::slots","Storage::part"]),
P("C14","The number of concurrent connections never exceeds the configured limit",
"When the configured maximum number of concurrent connections is reached, the server stops accepting connections until an active connection ends.",
["histories","configurations"],"all limits and all histories of connections",
"No test opens more connections than a limit.",
["app/roster/src/infrastructure/config/mod.rs",S+"mod.rs",S+"server_thread.rs"],
[("max_connection","documented in app/roster/src/infrastructure/config/mod.rs; not implemented")],
["the listening socket"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,sc); assert p['statement'].count('. ')<=2,p['id']
