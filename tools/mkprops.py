#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ST = "tracker/storage/map/"
p("S01", "An announce updates exactly one peer of exactly one swarm",
  "After an announce is stored, the named swarm contains the announcing peer id exactly once, with the announced address, port and completion state and the current time as its last-seen time; a stop removes exactly that peer id from that swarm and a stop for an unknown peer or swarm changes nothing. Every other peer of that swarm and every other swarm is left exactly as it was.",
  ["inputs", "histories"], "every database state, infohash, peer id, address, port and completion flag, new or already present, any number of earlier operations",
  "The tests store a handful of fixed peers and look only at the entry they wrote; they never compare the rest of the database, so an update leaking into another peer or swarm passes.",
  [ST+"peer.go", ST+"memory.go"], [("Save", ST+"peer.go"), ("Drop", ST+"peer.go"), ("makePeermap", ST+"memory.go")],
  ["storage.Database Save/Drop followed by PeerList/HashStats"], [("hashmap", "infohash -> swarm", ST+"memory.go"), ("Peers", "peer id -> peer", ST+"memory.go")])
p("S02", "Swarm seeder and leecher counts equal the swarm's membership",
  "For every infohash the reported number of complete and incomplete peers equals the number of peers stored for it with and without the completed state, for swarms of any size, and is 0/0 for an infohash with no swarm. This stays true across any sequence of announces (including peers changing between leecher and seeder in either direction), stops, expiry runs and backup loads.",
  ["histories", "inputs"], "every sequence of announce/stop/trim/decode on every database state",
  "Tests check the counts for a few scripted transitions on one small swarm; a count that drifts on a specific transition or wraps in a big swarm is never seen.",
  [ST+"peer.go", ST+"memory.go", ST+"hash.go", ST+"encode_binary.go"], [("Complete/Incomplete bookkeeping", ST+"peer.go"), ("HashStats", ST+"hash.go"), ("decodeBinary recount", ST+"encode_binary.go")],
  ["HashStats, scrape and announce responses"], [("Complete/Incomplete", "cached counts of a swarm", ST+"memory.go")])
p("S03", "Peer lists contain only distinct live members, capped and exactly encoded",
  "A peer list for an infohash and a limit n lists pairwise distinct current members of that swarm and never more than n of them: the dictionary form lists exactly min(n, swarm size) of them, each with its textual IP, its port and (unless suppressed) its peer id, and the compact form puts each listed IPv4 peer as 4+2 and each listed IPv6 peer as 16+2 network-order bytes, all of the swarm when it fits the limit. The list is empty for an unknown infohash, an empty swarm or n = 0, and never carries bytes left over from an earlier response.",
  ["inputs", "histories"], "every swarm content (any mix of IPv4/IPv6), every limit, every previous use of the pooled buffers",
  "Tests look at swarms of one or two peers with fresh buffers; limits, mixtures, unknown hashes and recycled buffers are not sampled.",
  [ST+"hash.go", "pools/pools.go"], [("PeerList", ST+"hash.go"), ("PeerListBytes", ST+"hash.go"), ("peer list pools", "pools/pools.go")],
  ["PeerList / PeerListBytes results; 'peers' and 'peers6' in announce responses"])
p("S04", "Expiry removes exactly the expired peers and only empty swarms",
  "An expiry run removes every peer whose last announce is older than the configured expiry and no other peer, removes a swarm exactly when none of its peers is left, and leaves every surviving peer and swarm unchanged. The reported numbers of removed peers and swarms equal what was removed.",
  ["inputs", "histories", "configurations"], "every database state, clock value and expiry setting",
  "The test expires everything at once (expiry 0); the boundary, mixed swarms and the survivors are not examined.",
  [ST+"memory.go", ST+"peer.go"], [("trim", ST+"memory.go"), ("delete", ST+"peer.go")], ["database contents and counts after Trim"])
p("S05", "Global seed, leech and unique-IP statistics track the stored peers",
  "In the default build every announce, stop and expiry changes the published totals of seeds and leeches, and the per-IP reference counts behind the unique-IP total, by exactly the change it makes to the stored peers: a new peer counts once, a state change moves one unit, an address change moves one reference, and a removal takes back exactly what that peer contributed. Loading a database at startup sets the totals to the sums over what was loaded.",
  ["histories", "inputs"], "every database state and operation, including re-announces with a different state or address and removals",
  "No test reads the statistics after anything but trivial operations.",
  [ST+"peer.go", ST+"memory.go", ST+"expvar.go", "tracker/stats/stats_slow.go"], [("metrics updates", ST+"peer.go"), ("Inc/Remove", "tracker/stats/stats_slow.go"), ("SyncExpvars", ST+"expvar.go")], ["trakx.database.seeds/leeches/ips expvars"])
p("S06", "A database backup restores to the same database",
  "Encoding the peer database for backup emits every swarm and every peer of it exactly once in the documented record layout, with a peer count that matches the records that follow, and decoding such data rebuilds a database with the same swarms, peer ids, addresses, ports, completion states, last-seen times and counts.",
  ["inputs", "histories"], "every database content (any number of swarms and peers, IPv4 and IPv6)",
  "The tests round-trip a single generated database of IPv4 peers.",
  [ST+"encode_binary.go", ST+"backup_file.go"], [("encodeBinary", ST+"encode_binary.go"), ("decodeBinary", ST+"encode_binary.go")], ["file / postgres backup payload", "database after Load"])
p("S07", "Loading an arbitrary or damaged backup never crashes the tracker",
  "Decoding any byte string as a peer-database backup terminates without a panic and either reports an error or yields a database whose swarm counts agree with its peers; truncated records are reported as an error, and no length field found in the data makes the tracker allocate or index out of range. The postgres loader and saver accept an empty database as well.",
  ["inputs", "fault_sequences"], "every byte string, of any length, as the backup contents",
  "Only well-formed backups produced by the encoder are decoded by the tests.",
  [ST+"encode_binary.go", ST+"backup_pg.go", ST+"backup_file.go"], [("decodeBinary", ST+"encode_binary.go"), ("Load", ST+"backup_pg.go")], ["Load / decodeBinary on a damaged file"])
p("S08", "Concurrent announces, stops, expiry and reads never corrupt or lose peers",
  "Under every interleaving of announces, stops, expiry runs, reads and backups, the shared maps, counts and peer records are only touched while the lock that protects them is held, every lock taken is released on every path and locks are always nested in one order, so there is no data race and no deadlock. An announce that has returned is in the database until a later stop or expiry removes it: it is never lost to a concurrent first announce of the same swarm or to a concurrent expiry of an empty swarm, and each swarm's counts equal its membership whenever its lock is free.",
  ["schedules", "histories"], "all interleavings of any number of goroutines calling the storage operations",
  "The test suite calls the storage single-threaded; even with the race detector it would only sample schedules.",
  [ST+"peer.go", ST+"memory.go", ST+"hash.go", ST+"encode_binary.go", ST+"encode_gob.go"], [("db.mutex / PeerMap.mutex / IPStats mutex", ST+"memory.go"), ("Save, Drop", ST+"peer.go"), ("trim", ST+"memory.go")], ["peer lists and counts under concurrent load", "go test -race"],
  [("mutex", "guards hashmap / a swarm", ST+"memory.go")])
p("S09", "A crash while saving never destroys the previous backup",
  "Saving the peer database or the UDP connection table to disk replaces the previous file atomically: at every instant the configured path holds either the complete previous contents or the complete new contents, so a crash or a failed write at any point leaves a loadable file, and a failed save is reported as an error.",
  ["crash_points", "fault_sequences"], "every point at which the process can die or the write can fail during a save",
  "The tests never interrupt a save.",
  [ST+"backup_file.go", "tracker/udp/conndb.go"], [("writeFile", ST+"backup_file.go"), ("writeToFile", "tracker/udp/conndb.go")], ["contents of the backup path and conn.db at any crash point"])
p("S10", "Pooled objects are never used after release and never leak old contents",
  "An object taken from a pool is used by at most one owner at a time: nothing reads or writes it after it has been returned, it is returned at most once, and a peer record is returned only after it has been removed from its swarm. A reused object never exposes its previous contents: dictionaries restart empty, and peer records and list buffers are fully overwritten or truncated before their contents are stored or sent.",
  ["histories", "schedules"], "every operation and every history of earlier uses of the pools",
  "Tests use fresh pools and cannot see aliasing between two owners.",
  ["pools/pool.go", "pools/pools.go", ST+"peer.go", ST+"hash.go", "tracker/http/announce.go", "tracker/http/scrape.go", "tracker/http/error.go", "tracker/udp/announce.go"],
  [("Pool.Get/Put and reset functions", "pools/pool.go"), ("Put call sites", ST+"peer.go")], ["contents of responses and stored peers"])

U = "tracker/udp/"
p("U01", "UDP announces and scrapes need a connection id issued to that address",
  "A connect request is answered with a connection id that is recorded for exactly the sender's address and port; with validation enabled, an announce or scrape is processed only if it carries the id currently recorded for its sender's address and port, and otherwise it is answered with a 'bad connection id' error and has no effect on the peer database. An id issued to one address is never accepted from another address or port, and a newer connect replaces the older id.",
  ["inputs", "histories"], "every datagram, source address, connection table content and history of connects; validation on and off",
  "The tests use one client and one bad id (that test does not even pass reliably); other addresses, replaced ids and effect-freedom are not tested.",
  [U+"udptracker.go", U+"conndb.go", U+"connect.go"], [("process gate", U+"udptracker.go"), ("add/check", U+"conndb.go"), ("connect", U+"connect.go")], ["UDP replies", "peer database after the datagram"], [("connectionMap", "address -> issued id and time", U+"conndb.go")])
p("U02", "Connection ids expire exactly by the configured age",
  "An expiry run of the UDP connection table removes every entry older than the configured expiry and keeps every other entry unchanged; recording an id stamps it with the current time and leaves all other entries alone.",
  ["inputs", "histories", "configurations"], "every connection table, clock value and expiry setting",
  "One fixed table is trimmed in the tests.",
  [U+"conndb.go"], [("trim", U+"conndb.go"), ("add", U+"conndb.go")], ["acceptance of connection ids after a trim"])
p("U03", "The connection table round-trips and tolerates damaged data",
  "Serialising the UDP connection table in its binary form and loading it back gives the same table, and loading any byte string neither panics nor accepts a truncated table: it yields an error or a table. If the saved file cannot be loaded at startup the tracker continues with an empty, usable table.",
  ["inputs", "fault_sequences"], "every connection table and every byte string as file contents",
  "Tests round-trip one table and never feed damaged data.",
  [U+"conndb.go", U+"udptracker.go"], [("marshallBinary/unmarshallBinary", U+"conndb.go"), ("loadFromFile", U+"conndb.go"), ("Init fallback", U+"udptracker.go")], ["connection table after restart"])
p("U04", "UDP responses have the exact BEP 15 layout and echo the transaction",
  "Every UDP response is byte for byte the BEP 15 encoding: big-endian action and transaction id copied from the request, followed by the connection id (connect), interval, leechers, seeders and compact peers (announce), seeders, completed and leechers per infohash in request order (scrape), or the message text (error), with no leading, trailing or missing bytes.",
  ["inputs"], "every field value, peer list and number of scraped infohashes",
  "Tests decode responses of a few fixed requests with the same package's decoders; no test looks at the bytes of a scrape response.",
  [U+"protocol/announce.go", U+"protocol/connect.go", U+"protocol/scrape.go", U+"protocol/error.go", U+"announce.go", U+"scrape.go", U+"connect.go", U+"error.go"], [("Marshall methods", U+"protocol/"), ("response construction", U+"announce.go")], ["bytes written to the socket"])
p("U05", "No UDP datagram crashes the tracker or reflects more than one reply",
  "For every datagram of any length and content the UDP tracker neither panics nor reads outside the datagram; it sends at most one reply, only to the sender, and datagrams shorter than 16 bytes get none. An unknown action, an announce shorter than 98 bytes and a message that cannot be decoded are answered with an error (heartbeats with the single byte 0xFF) and leave the database unchanged.",
  ["inputs"], "every datagram (length 0..1496, any bytes), any state, debug logging on or off",
  "Tests send a dozen well-formed or slightly wrong datagrams.",
  [U+"udptracker.go", U+"error.go", U+"protocol/announce.go", U+"protocol/scrape.go"], [("process dispatch and size checks", U+"udptracker.go"), ("Unmarshall", U+"protocol/")], ["process liveness", "datagrams sent"])
p("U06", "UDP announces store and answer according to the request",
  "A valid UDP announce with event 'stopped' drops exactly that peer and is acknowledged with an empty list; any other valid announce stores the peer under the sender's own address and the announced port, complete exactly when the event is 'completed' or nothing is left, and is answered with the swarm's counts, an interval of at least the configured base and less than base plus fuzz, and compact peers of the sender's address family only, at most as many as requested, the default when fewer than one is asked for, never above the configured limit. An announce with port 0 is answered with an error and stores nothing.",
  ["inputs", "configurations"], "every announce, sender address (IPv4, IPv6, IPv4-mapped) and configuration",
  "Tests announce twice from one local address with fixed numwant.",
  [U+"announce.go", U+"udptracker.go"], [("announce", U+"announce.go"), ("address normalisation", U+"udptracker.go")], ["peer database and reply after an announce"])
p("U07", "UDP scrapes report every requested infohash once, in order",
  "A UDP scrape reply holds exactly one entry per requested infohash, in request order, with that infohash's own current counts, and scraping never changes the database; a scrape naming more than 74 infohashes is answered with an error.",
  ["inputs"], "every list of 0..74 and more infohashes and every database",
  "One infohash is scraped in the tests and the reply is not decoded.",
  [U+"scrape.go", U+"protocol/scrape.go"], [("scrape loop", U+"scrape.go"), ("Scrape.Unmarshall", U+"protocol/scrape.go")], ["scrape replies"])
p("U08", "UDP requests decode from their documented offsets or fail cleanly",
  "Decoding a UDP announce, connect or scrape request yields exactly the big-endian fields at their BEP 15 offsets of that datagram, encoding and decoding are inverse for every message type that offers both, and decoding a datagram too short for its type returns an error and never panics.",
  ["inputs"], "every byte string for every message type",
  "Only full-size messages built by the same package are decoded in tests.",
  [U+"protocol/announce.go", U+"protocol/connect.go", U+"protocol/scrape.go", U+"protocol/error.go"], [("Unmarshall", U+"protocol/announce.go")], ["decoded request fields", "error results"])

H = "tracker/http/"
p("H01", "Parsing an HTTP request never crashes and sees only that request",
  "For every byte sequence received as a request the HTTP request parser terminates without panicking and returns either a parse result or an error, and everything it returns is computed from the bytes of that request alone, never from bytes a previous request left in the connection buffer.",
  ["inputs", "histories"], "every request up to the buffer size (plain or base64) and every previous buffer content",
  "Fuzz seeds in the tests cover a few inputs and always fresh buffers.",
  [H+"parser.go", H+"worker.go"], [("parse", H+"parser.go"), ("worker read loop", H+"worker.go")], ["parse result", "worker responses across requests"])
p("H02", "Request path and query parameters are split and percent-decoded exactly",
  "For a well-formed GET request the parser returns the exact path between the method and '?' or ' HTTP/', and the query split at '&' into its parameters in order, each percent-decoded once from left to right; a parameter with a truncated escape, an empty query and a query ending in '&' make the request invalid.",
  ["inputs"], "every request line, any number of parameters up to the maximum, any placement of escapes",
  "A few fixed request lines are parsed in tests.",
  [H+"parser.go"], [("parse", H+"parser.go"), ("unescapeFast / fromHexChar", H+"parser.go")], ["announce and scrape parameters"])
p("H03", "HTTP announces are validated and stored according to the request",
  "An HTTP announce whose infohash or peer id is not 20 bytes, whose port is not a decimal number in 1..65535, or whose numwant is not a non-negative number is answered with a bencoded failure reason and changes nothing; event 'stopped' drops exactly that peer. Any other announce stores exactly that peer under the connection's address (complete exactly when event is 'completed' or left is 0) and is answered with an interval in [base, base+fuzz), the swarm's counts and a peer list of at most min(numwant or the default, limit) peers in the requested form.",
  ["inputs", "configurations"], "every combination of parameters, database and configuration",
  "Tests cover a few parameter combinations with exact strings for one peer.",
  [H+"announce.go", H+"worker.go"], [("announce", H+"announce.go"), ("parameter extraction", H+"worker.go")], ["HTTP responses and peer database"])
p("H04", "HTTP scrapes report exactly the requested infohashes",
  "An HTTP scrape is answered with one bencoded 'files' entry per info_hash parameter, in order, keyed by that infohash and holding its own current counts, and never changes the database; an info_hash that is not 20 bytes or a scrape naming none is answered with a failure reason.",
  ["inputs"], "every list of parameters and every database",
  "One or two infohashes are scraped in the tests.",
  [H+"scrape.go", H+"worker.go"], [("scrape", H+"scrape.go"), ("info_hash filtering", H+"worker.go")], ["scrape responses"])
p("H05", "Every accepted HTTP connection is answered once and closed",
  "For every accepted connection the worker sets read and write deadlines before reading, and closes the connection exactly once on every path; a request that arrived gets a response chosen by its path alone (announce, scrape, heartbeat, stats, an embedded page, or 404), 400 if it is malformed or not a GET, and the worker goes on to the next connection without crashing.",
  ["inputs", "fault_sequences"], "every request content, read failure and accept failure",
  "Tests exercise a few routes against a live server and never check closing or deadlines.",
  [H+"worker.go", H+"wrappers.go", H+"error.go"], [("work loop", H+"worker.go")], ["sequence of operations on the connection"])
p("H06", "Behind a proxy the announcing address is the right-most forwarded one",
  "In the app-engine build the address stored for an announce is the right-most entry of the X-Forwarded-For header of that very request, with surrounding blanks removed; for every request content the extraction neither crashes nor reads past the request, and a request whose header has no usable address is answered with a failure and stores nothing.",
  ["inputs", "configurations"], "every request content in the heroku build variant",
  "A few fixed headers are tested.",
  [H+"forwarded_appeng.go", H+"worker.go"], [("parseForwarded", H+"forwarded_appeng.go")], ["stored peer address"])
p("H07", "The web server exposes only embedded pages, never the configuration",
  "The set of files served over HTTP is exactly the embedded regular files other than the configuration file, each under '/' plus its name (with '/' as an alias of the index page) and with the embedded content (HTML with tabs and newlines removed); no request path yields the configuration.",
  ["inputs", "configurations"], "every embedded directory content and every request path",
  "A test compares two known files.",
  ["config/embed.go", H+"worker.go"], [("GenerateEmbeddedCache", "config/embed.go")], ["HTTP responses for file paths"])

p("B01", "Bencoded dictionaries are exactly the encoding of what was written",
  "For every sequence of writes, the bytes a bencoding dictionary returns are 'd', then for every write in order the exact bencoding of key and value (byte-length-prefixed strings of arbitrary bytes, decimal integers over the whole range, lists, nested dictionaries), then 'e'; resetting a dictionary makes it equivalent to a new one and strings are never altered or truncated.",
  ["inputs", "histories"], "every sequence of write operations, keys, byte strings and int64 values",
  "Tests encode a few constants.",
  ["bencoding/dictionary.go", "bencoding/encoding.go"], [("Dictionary methods", "bencoding/dictionary.go"), ("str, integer, list", "bencoding/encoding.go")], ["bytes of HTTP responses"])
p("C01", "Stopping the service is bounded and reports failure truthfully",
  "The process-id file round-trips every process id, an empty or unparsable file is reported as such, and clearing it makes it empty. Stopping signals exactly the recorded process, waits a bounded time (about ten seconds), reports success and clears the file only when that process is gone, and returns an error when it is still alive at the end of the wait or cannot be signalled.",
  ["inputs", "fault_sequences"], "every file content, process id, and sequence of liveness results while waiting",
  "Stop is not tested at all; the pid file is tested with one id.",
  ["controller/controller.go", "controller/pidfile.go"], [("Stop", "controller/controller.go"), ("Read/Write/Clear", "controller/pidfile.go")], ["return value of Stop, pid file contents"])
p("C02", "Startup and shutdown keep the stored peers",
  "At startup the object pools are ready before a stored backup is loaded, so a non-empty backup loads; the tracker refuses to run with an unloaded configuration or a storage that fails to open. On interrupt or termination the peer database and the UDP connection table are both saved, each exactly once and even if the other save fails, before the process exits, and a save signal saves both without exiting.",
  ["histories", "fault_sequences", "configurations"], "every configuration, signal sequence and save outcome",
  "The tests start one tracker with an empty database and never deliver a signal.",
  ["tracker/tracker.go", "tracker/signalhandler.go", "tracker/storage/database.go"], [("Run", "tracker/tracker.go"), ("signalHandler", "tracker/signalhandler.go"), ("Open", "tracker/storage/database.go")], ["order of effects at startup and shutdown"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
