// tracker/udp: datagram handling

ghost now Int

// ---- the socket: what was sent, to whom, how often
ghost nsent Int
ghost sent Seq
ghost sentto Int

extern (*net.UDPConn).WriteToUDP(c, b, addr) (n, err)
  why the kernel sends the bytes of b, once, to addr
  modifies ghost nsent, ghost sent, ghost sentto
  ensures nsent == old(nsent) + 1 && sent == content(b) && sentto == ref(addr)

// ---- the peer database as the protocol layer sees it
// db is its abstract contents; dbSave and dbDrop are its updates.
ghost db Opq
logic dbSave(Opq, Addr, Int, Bool, BA, BA) Opq
logic dbDrop(Opq, BA, BA) Opq
logic dbComplete(Opq, BA) Int
logic dbIncomplete(Opq, BA) Int
// peers4ok(db, hash, n, s): s is a compact list of at most n distinct IPv4 members of hash's swarm; peers6ok: IPv6
logic peers4ok(Opq, BA, Int, Seq) Bool
logic peers6ok(Opq, BA, Int, Seq) Bool

extern (tracker/storage.Database).Save(d, ip, port, complete, hash, id)
  why S01 decides it for the only implementation
  modifies ghost db
  ensures db == dbSave(old(db), ip, port, complete, hash, id)

extern (tracker/storage.Database).Drop(d, hash, id)
  why S01 decides it for the only implementation
  modifies ghost db
  ensures db == dbDrop(old(db), hash, id)

extern (tracker/storage.Database).HashStats(d, hash) (complete, incomplete)
  why S02 decides it for the only implementation
  ensures complete == dbComplete(db, hash) && incomplete == dbIncomplete(db, hash)

extern (tracker/storage.Database).PeerListBytes(d, hash, n) (p4, p6)
  why S03 decides it for the only implementation
  ensures peers4ok(db, hash, n, content(p4)) && peers6ok(db, hash, n, content(p6))
  ensures fresh(p4) && fresh(p6) && reg(p4) != reg(p6)
  ensures cap(p4) == poolcap(pools.Peerlists4) && cap(p6) == poolcap(pools.Peerlists6)

// ---- connection ids

func tracker/udp.newConnectionDatabase(expiry) (r)
  props U02 U03
  requires 0 <= expiry && config.Config != nil && config.Config.UDP.ConnDB.Size >= 0
  ensures fresh(r) && fresh(r.connectionMap) && r.connectionMap != nil
  ensures empty: forall k: AddrPort :: !has(r.connectionMap, k)
  ensures expiry: r.expiry == expiry / 1000000000

func (*tracker/udp.connectionDatabase).make(db)
  props U03
  requires config.Config != nil && config.Config.UDP.ConnDB.Size >= 0
  modifies db.connectionMap
  ensures fresh(db.connectionMap) && db.connectionMap != nil
  ensures empty: forall k: AddrPort :: !has(db.connectionMap, k)

func (*tracker/udp.connectionDatabase).size(db) (count)
  props U02
  requires db.connectionMap != nil
  ensures count == len(db.connectionMap)

func (*tracker/udp.connectionDatabase).add(db, id, addr)
  props U01 U02
  requires db.connectionMap != nil
  modifies map(db.connectionMap), ghost now
  ensures recorded: has(db.connectionMap, addr) && db.connectionMap[addr].ID == id
  ensures stamped: old(now) <= db.connectionMap[addr].TimeStamp && db.connectionMap[addr].TimeStamp <= now
  ensures others: forall k: AddrPort :: k != addr ==> (has(db.connectionMap, k) <==> old(has(db.connectionMap, k))) && (has(db.connectionMap, k) ==> db.connectionMap[k] == old(db.connectionMap[k]))

func (*tracker/udp.connectionDatabase).check(db, id, addr) (r)
  props U01
  ensures exact: r <==> has(db.connectionMap, addr) && db.connectionMap[addr].ID == id

func (*tracker/udp.connectionDatabase).trim(db)
  props U02
  requires db.expiry >= 0 && db.connectionMap != nil
  requires forall k: AddrPort :: has(db.connectionMap, k) ==> db.connectionMap[k].TimeStamp >= 0
  modifies map(db.connectionMap), ghost now
  inv ?e:iter :: forall k: AddrPort :: has(db.connectionMap, k) ==> old(has(db.connectionMap, k))
  inv ?e:iter :: forall k: AddrPort :: has(db.connectionMap, k) ==> db.connectionMap[k] == old(db.connectionMap[k])
  inv ?e:iter :: forall k: AddrPort :: in(d0(?e), k) && !in(vis(?e), k) ==> has(db.connectionMap, k)
  inv ?e:iter :: forall k: AddrPort :: in(vis(?e), k) && has(db.connectionMap, k) ==> old(now) - old(db.connectionMap[k].TimeStamp) <= db.expiry
  inv ?e:iter :: forall k: AddrPort :: old(has(db.connectionMap, k)) && !has(db.connectionMap, k) ==> now - old(db.connectionMap[k].TimeStamp) > db.expiry
  ensures subset: forall k: AddrPort :: has(db.connectionMap, k) ==> old(has(db.connectionMap, k))
  ensures unchanged: forall k: AddrPort :: has(db.connectionMap, k) ==> db.connectionMap[k] == old(db.connectionMap[k])
  ensures expired: forall k: AddrPort :: old(has(db.connectionMap, k)) && old(now) - old(db.connectionMap[k].TimeStamp) > db.expiry ==> !has(db.connectionMap, k)
  ensures kept: forall k: AddrPort :: old(has(db.connectionMap, k)) && now - old(db.connectionMap[k].TimeStamp) <= db.expiry ==> has(db.connectionMap, k)

// ---- datagrams

unframed tracker/stats.Hits tracker/stats.Connects tracker/stats.Announces tracker/stats.Scrapes tracker/stats.ServerErrors tracker/stats.ClientErrors

define errMsg(tid, text) = be32(3) ++ be32(tid) ++ text
define udpAddr(remote) = ap(a_unmap(a_from(content(remote.IP))), wrap(remote.Port, uint16))
define udpReady(u) = u != nil && u.sock != nil && u.conndb != nil && u.conndb.connectionMap != nil && u.peerdb != nil && config.Config != nil
define udpConfig() = 1 <= config.Config.Numwant.Default && config.Config.Numwant.Default <= config.Config.Numwant.Limit && config.Config.Numwant.Limit <= 1000000 && poolsReady() && poolcap(pools.Peerlists4) == 6 * config.Config.Numwant.Limit && poolcap(pools.Peerlists6) == 18 * config.Config.Numwant.Limit
define baseSecs() = config.Config.Announce.Base / 1000000000
define fuzzSecs() = config.Config.Announce.Fuzz / 1000000000
define durConfig() = 0 <= config.Config.Announce.Base && 0 <= config.Config.Announce.Fuzz && baseSecs() + fuzzSecs() < 2147483648
define replied(remote) = nsent == old(nsent) + 1 && sentto == ref(remote)
define clampWant(n) = ite(n < 1, config.Config.Numwant.Default, ite(n > config.Config.Numwant.Limit, config.Config.Numwant.Limit, n))

// an announce, given the fields of the request
define annBadPort(port) = port == 0
define annStop(port, ev) = port != 0 && ev == 3
define annLive(port, ev) = port != 0 && ev != 3

func (*tracker/udp.UDPTracker).newClientError(u, msg, tid, fields) (r)
  props U04 U05
  requires config.Config != nil
  ensures layout: content(r) == errMsg(tid, msg)
  ensures fresh(r)

func (*tracker/udp.UDPTracker).newServerError(u, msg, e, tid) (r)
  props U04 U05
  ensures layout: content(r) == errMsg(tid, "internal err")
  ensures fresh(r)

func (*tracker/udp.UDPTracker).connect(u, connect, remote, addr)
  props U01 U02 U04 U05
  requires udpReady(u) && connect != nil
  modifies map(u.conndb.connectionMap), ghost now, ghost nsent, ghost sent, ghost sentto
  ensures reply: replied(remote)
  ensures layout: sent == be32(0) ++ be32(connect.TransactionID) ++ be64(u.conndb.connectionMap[addr].ID)
  ensures recorded: has(u.conndb.connectionMap, addr)
  ensures stamped: old(now) <= u.conndb.connectionMap[addr].TimeStamp && u.conndb.connectionMap[addr].TimeStamp <= now
  ensures others: forall k: AddrPort :: k != addr ==> (has(u.conndb.connectionMap, k) <==> old(has(u.conndb.connectionMap, k))) && (has(u.conndb.connectionMap, k) ==> u.conndb.connectionMap[k] == old(u.conndb.connectionMap[k]))

func (*tracker/udp.UDPTracker).announce(u, announce, remote, addrPort)
  props U04 U05 U06
  requires udpReady(u) && udpConfig() && durConfig() && announce != nil
  modifies *announce, ghost db, ghost nsent, ghost sent, ghost sentto, ghost rel_bytes
  ensures reply: replied(remote)
  ensures badport: old(announce.Port) == 0 ==> db == old(db) && sent == errMsg(old(announce.TransactionID), "bad port")
  ensures stopdrops: annStop(old(announce.Port), old(announce.Event)) ==> db == dbDrop(old(db), old(announce.InfoHash), old(announce.PeerID))
  ensures stopreply: annStop(old(announce.Port), old(announce.Event)) ==> sent == be32(1) ++ be32(old(announce.TransactionID)) ++ be32(0-1) ++ be32(0-1) ++ be32(0-1)
  ensures saves: annLive(old(announce.Port), old(announce.Event)) ==> db == dbSave(old(db), ap_addr(addrPort), old(announce.Port), old(announce.Event) == 1 || old(announce.Left) == 0, old(announce.InfoHash), old(announce.PeerID))
  ensures head: annLive(old(announce.Port), old(announce.Event)) ==> len(sent) >= 20 && sub(sent, 0, 4) == be32(1) && sub(sent, 4, 4) == be32(old(announce.TransactionID))
  ensures interval: annLive(old(announce.Port), old(announce.Event)) ==> baseSecs() <= s32(sub(sent, 8, 4)) && (s32(sub(sent, 8, 4)) < baseSecs() + fuzzSecs() || s32(sub(sent, 8, 4)) == baseSecs() && fuzzSecs() == 0)
  ensures counts: annLive(old(announce.Port), old(announce.Event)) ==> sub(sent, 12, 4) == be32(wrap(dbIncomplete(db, old(announce.InfoHash)), int32)) && sub(sent, 16, 4) == be32(wrap(dbComplete(db, old(announce.InfoHash)), int32))
  ensures peers4: annLive(old(announce.Port), old(announce.Event)) && a_is4(ap_addr(addrPort)) ==> peers4ok(db, old(announce.InfoHash), clampWant(old(announce.NumWant)), sub(sent, 20, len(sent) - 20))
  ensures peers6: annLive(old(announce.Port), old(announce.Event)) && !a_is4(ap_addr(addrPort)) ==> peers6ok(db, old(announce.InfoHash), clampWant(old(announce.NumWant)), sub(sent, 20, len(sent) - 20))

// the entries of a scrape of the infohashes hs[o..o+n)
recdef scrapeEnc(d Opq, hs Arr(Int,BA), o Int, n Int) Seq = ite(n <= 0, "", scrapeEnc(d, hs, o, n-1) ++ be32(wrap(dbComplete(d, sel(hs, o+n-1)), int32)) ++ be32(0-1) ++ be32(wrap(dbIncomplete(d, sel(hs, o+n-1)), int32)))
lemma scrape_len(d Opq, hs Arr(Int,BA), o Int, n Int) induct n {scrapeEnc(d, hs, o, n)} = n >= 0 ==> len(scrapeEnc(d, hs, o, n)) == 12 * n
lemma scrape_eq(d Opq, hs Arr(Int,BA), o Int, a Arr(Int,Int), b Arr(Int,Int), c Arr(Int,Int), o2 Int, n Int) induct n {scrapeEnc(d, hs, o, n), recs_444(a, b, c, o2, n)} = (forall i: Int :: 0 <= i && i < n ==> sel(a, o2+i) == wrap(dbComplete(d, sel(hs, o+i)), int32) && sel(b, o2+i) == 0-1 && sel(c, o2+i) == wrap(dbIncomplete(d, sel(hs, o+i)), int32)) ==> recs_444(a, b, c, o2, n) == scrapeEnc(d, hs, o, n)

func (*tracker/udp.UDPTracker).scrape(u, scrape, remote)
  props U04 U05 U07
  requires udpReady(u) && scrape != nil
  modifies ghost nsent, ghost sent, ghost sentto
  inv ?x:idx ?r:cell!tracker/udp/protocol.ScrapeResp :: len(?r.Info) == ?x && ?r.Action == 2 && ?r.TransactionID == scrape.TransactionID
  inv ?x:idx ?r:cell!tracker/udp/protocol.ScrapeResp :: forall i: Int :: 0 <= i && i < ?x ==> ?r.Info[i].Complete == wrap(dbComplete(db, scrape.InfoHashes[i]), int32) && ?r.Info[i].Incomplete == wrap(dbIncomplete(db, scrape.InfoHashes[i]), int32) && ?r.Info[i].Downloaded == 0-1
  inv ?r:cell!tracker/udp/protocol.ScrapeResp :: fresh(?r.Info) || cap(?r.Info) == 0
  ensures reply: replied(remote)
  ensures toomany: len(scrape.InfoHashes) > 74 ==> sent == errMsg(scrape.TransactionID, "74 hashes max")
  ensures layout: len(scrape.InfoHashes) <= 74 ==> sent == be32(2) ++ be32(scrape.TransactionID) ++ scrapeEnc(db, arrmem(scrape.InfoHashes), off(scrape.InfoHashes), len(scrape.InfoHashes))

// every entry of a scrape reply is at its place
lemma scrape_sub(d Opq, hs Arr(Int,BA), o Int, i Int, n Int) induct n {sub(scrapeEnc(d, hs, o, n), 12*i, 12)} = 0 <= i && i < n ==> sub(scrapeEnc(d, hs, o, n), 12*i, 12) == be32(wrap(dbComplete(d, sel(hs, o+i)), int32)) ++ be32(0-1) ++ be32(wrap(dbIncomplete(d, sel(hs, o+i)), int32))
theorem scrape_entries(d Opq, hs Arr(Int,BA), o Int, n Int, i Int)
  props U07 U04
  requires 0 <= i && i < n
  ensures size: len(scrapeEnc(d, hs, o, n)) == 12 * n
  ensures entry: sub(scrapeEnc(d, hs, o, n), 12*i, 12) == be32(wrap(dbComplete(d, sel(hs, o+i)), int32)) ++ be32(0-1) ++ be32(wrap(dbIncomplete(d, sel(hs, o+i)), int32))

// ---- the dispatcher: one datagram, at most one reply
define act(d) = nth(d, 11)
define txid(d) = s32(sub(d, 12, 4))
define connid(d) = s64(sub(d, 0, 8))
define idok(u, remote, d) = has(u.conndb.connectionMap, udpAddr(remote)) && u.conndb.connectionMap[udpAddr(remote)].ID == connid(d)
// the datagram gets past the connection id check
define admitted(u, remote, d) = !config.Config.UDP.ConnDB.Validate || idok(u, remote, d)
define dPort(d) = u16(sub(d, 96, 2))
define dEvent(d) = s32(sub(d, 80, 4))
define dHash(d) = s2ba(sub(d, 16, 20))
define dPeer(d) = s2ba(sub(d, 36, 20))
define dLeft(d) = s64(sub(d, 64, 8))
define dWant(d) = s32(sub(d, 92, 4))
define isAnn(u, remote, data) = nth(old(content(data)), 11) == 1 && old(admitted(u, remote, content(data))) && len(data) >= 98

define D(data) = old(content(data))

func (*tracker/udp.UDPTracker).process(u, data, remote)
  props U01 U04 U05 U06 U07
  requires udpReady(u) && udpConfig() && durConfig() && remote != nil && (len(remote.IP) == 4 || len(remote.IP) == 16) && len(data) >= 16
  modifies map(u.conndb.connectionMap), ghost now, ghost db, ghost nsent, ghost sent, ghost sentto, ghost rel_bytes
  ensures onereply: act(D(data)) != 3 || !old(admitted(u, remote, content(data))) ==> replied(remote)
  ensures noreply: act(D(data)) == 3 && old(admitted(u, remote, content(data))) ==> nsent == old(nsent)
  ensures badaction: act(D(data)) > 4 ==> db == old(db) && sent == errMsg(txid(D(data)), "bad action")
  ensures heartbeat: act(D(data)) == 4 ==> db == old(db) && sent == unit(255)
  ensures connect: act(D(data)) == 0 ==> db == old(db) && has(u.conndb.connectionMap, udpAddr(remote)) && sent == be32(0) ++ be32(txid(D(data))) ++ be64(u.conndb.connectionMap[udpAddr(remote)].ID)
  ensures others: forall k: AddrPort :: act(D(data)) != 0 || k != udpAddr(remote) ==> (has(u.conndb.connectionMap, k) <==> old(has(u.conndb.connectionMap, k))) && (has(u.conndb.connectionMap, k) ==> u.conndb.connectionMap[k] == old(u.conndb.connectionMap[k]))
  ensures badid: act(D(data)) >= 1 && act(D(data)) <= 3 && !old(admitted(u, remote, content(data))) ==> db == old(db) && sent == errMsg(txid(D(data)), "bad connection id")
  ensures onlyannounce: act(D(data)) != 1 ==> db == old(db)
  ensures annshort: act(D(data)) == 1 && old(admitted(u, remote, content(data))) && len(data) < 98 ==> db == old(db) && sent == errMsg(txid(D(data)), "bad announce size")
  ensures annport: isAnn(u, remote, data) && dPort(D(data)) == 0 ==> db == old(db) && sent == errMsg(txid(D(data)), "bad port")
  ensures annstop: isAnn(u, remote, data) && annStop(dPort(D(data)), dEvent(D(data))) ==> db == dbDrop(old(db), dHash(D(data)), dPeer(D(data))) && sent == be32(1) ++ be32(txid(D(data))) ++ be32(0-1) ++ be32(0-1) ++ be32(0-1)
  ensures annsave: isAnn(u, remote, data) && annLive(dPort(D(data)), dEvent(D(data))) ==> db == dbSave(old(db), a_unmap(a_from(old(content(remote.IP)))), dPort(D(data)), dEvent(D(data)) == 1 || dLeft(D(data)) == 0, dHash(D(data)), dPeer(D(data)))
  ensures annhead: isAnn(u, remote, data) && annLive(dPort(D(data)), dEvent(D(data))) ==> len(sent) >= 20 && sub(sent, 0, 4) == be32(1) && sub(sent, 4, 4) == be32(txid(D(data)))
  ensures anninterval: isAnn(u, remote, data) && annLive(dPort(D(data)), dEvent(D(data))) ==> baseSecs() <= s32(sub(sent, 8, 4)) && (s32(sub(sent, 8, 4)) < baseSecs() + fuzzSecs() || s32(sub(sent, 8, 4)) == baseSecs() && fuzzSecs() == 0)
  ensures anncounts: isAnn(u, remote, data) && annLive(dPort(D(data)), dEvent(D(data))) ==> sub(sent, 12, 4) == be32(wrap(dbIncomplete(db, dHash(D(data))), int32)) && sub(sent, 16, 4) == be32(wrap(dbComplete(db, dHash(D(data))), int32))
  ensures annpeers: isAnn(u, remote, data) && annLive(dPort(D(data)), dEvent(D(data))) ==> ite(a_is4(ap_addr(udpAddr(remote))), peers4ok(db, dHash(D(data)), clampWant(dWant(D(data))), sub(sent, 20, len(sent) - 20)), peers6ok(db, dHash(D(data)), clampWant(dWant(D(data))), sub(sent, 20, len(sent) - 20)))
  ensures scrapesize: act(D(data)) == 2 && old(admitted(u, remote, content(data))) && (len(data) - 16) / 20 <= 74 ==> len(sent) == 8 + 12 * ((len(data) - 16) / 20) && sub(sent, 0, 8) == be32(2) ++ be32(txid(D(data)))
  ensures scrapemany: act(D(data)) == 2 && old(admitted(u, remote, content(data))) && (len(data) - 16) / 20 > 74 ==> sent == errMsg(txid(D(data)), "74 hashes max")

// ---- the reading workers
ghost nread Int
extern (*net.UDPConn).ReadFromUDP(c, b) (n, addr, err)
  why the kernel delivers at most one datagram per call, cut to the buffer, with an IPv4 or IPv6 sender address; its errors wrap a cause
  modifies mem(b), ghost nread
  ensures 0 <= n && n <= len(b)
  ensures err == nil ==> addr != nil && (len(addr.IP) == 4 || len(addr.IP) == 16)
  ensures err != nil ==> wrapped(err)
  ensures nread == old(nread) + ite(err == nil && n >= 16, 1, 0)

extern (*sync.Pool).Get(p) (r)
  why a sync.Pool hands out what its New returned or what was Put; only *[]byte buffers of the request size are put here
  ensures typeis(r, *[]byte) && as(r, *[]byte) > 0
  ensures !sel(rel_bytes, reg(*as(r, *[]byte)))

func (*tracker/udp.UDPTracker).Serve$go1()
  props U05 U01
  requires udpReady(u) && udpConfig() && durConfig() && nread >= 0
  modifies map(u.conndb.connectionMap), ghost now, ghost db, ghost nsent, ghost sent, ghost sentto, ghost rel_bytes, ghost nread, ghost nput, ghost putarg, ghost putdyn, allmem uint8
  inv nsent - old(nsent) <= nread - old(nread)
  ensures atmostone: nsent - old(nsent) <= nread - old(nread)

// ---- the connection table on disk
ghost connord Arr(Int,Arr(Int,AddrPort))
maphook map[net/netip.AddrPort]tracker/udp.connectionInfo connord order

define connRec(k, id, ts) = unit(len(a_bytes(ap_addr(k)))) ++ a_bytes(ap_addr(k)) ++ le16(ap_port(k)) ++ le64(id) ++ le64(ts)
recdef connRecs(o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), n Int) Seq = ite(n <= 0, "", connRecs(o, ids, ts, n-1) ++ connRec(sel(o, n-1), sel(ids, sel(o, n-1)), sel(ts, sel(o, n-1))))
lemma conn_upd(o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), n Int, p Int, k AddrPort) induct n {connRecs(upd(o, p, k), ids, ts, n)} = p >= n ==> connRecs(upd(o, p, k), ids, ts, n) == connRecs(o, ids, ts, n)

func (*tracker/udp.connectionDatabase).marshallBinary(db) (b, err)
  props U03
  requires db.connectionMap != nil && len(db.connectionMap) < 4294967296
  modifies ghost connord
  inv ?e:iter ?w:*bufio.Writer :: ?w.pend == le32(len(db.connectionMap)) ++ connRecs(ord(?e), vals(db.connectionMap, ID), vals(db.connectionMap, TimeStamp), cnt(?e))
  ensures noerr: err == nil
  ensures layout: content(b) == le32(len(db.connectionMap)) ++ connRecs(sel(connord, ref(db.connectionMap)), vals(db.connectionMap, ID), vals(db.connectionMap, TimeStamp), len(db.connectionMap))
  ensures every: forall i: Int :: 0 <= i && i < len(db.connectionMap) ==> has(db.connectionMap, sel(sel(connord, ref(db.connectionMap)), i))

// any table written earlier (witnesses): wN entries in the order wOrd, the i-th at connPos(wOrd, i)
ghost wOrd Arr(Int,AddrPort)
ghost wRank Arr(AddrPort,Int)
ghost wIds Arr(AddrPort,Int)
ghost wTs Arr(AddrPort,Int)
ghost wN Int
define alen(k) = len(a_bytes(ap_addr(k)))
recdef connPos(o Arr(Int,AddrPort), n Int) Int depth 1 = ite(n <= 0, 4, connPos(o, n-1) + 19 + alen(sel(o, n-1)))
lemma conn_mono(o Arr(Int,AddrPort), i Int, j Int) induct j {connPos(o, i), connPos(o, j)} = i <= j ==> connPos(o, i) <= connPos(o, j)
define okKey(k) = (alen(k) == 4 || alen(k) == 16) && a_from(a_bytes(ap_addr(k))) == ap_addr(k)
define connAt(d, p, k, id, ts) = (p + 1 <= len(d) ==> nth(d, p) == alen(k)) && (p + 1 + alen(k) <= len(d) ==> sub(d, p+1, alen(k)) == a_bytes(ap_addr(k))) && (p + 3 + alen(k) <= len(d) ==> lu16(sub(d, p+1+alen(k), 2)) == ap_port(k)) && (p + 19 + alen(k) <= len(d) ==> wrap(lu64(sub(d, p+3+alen(k), 8)), int64) == id && wrap(lu64(sub(d, p+11+alen(k), 8)), int64) == ts)
define connTable(d) = 0 <= wN && wN < 4294967296 && len(d) <= connPos(wOrd, wN) && (4 <= len(d) ==> lu32(sub(d, 0, 4)) == wN) && (forall i: Int :: {sel(wOrd, i)} 0 <= i && i < wN ==> okKey(sel(wOrd, i)) && sel(wRank, sel(wOrd, i)) == i && connAt(d, connPos(wOrd, i), sel(wOrd, i), sel(wIds, sel(wOrd, i)), sel(wTs, sel(wOrd, i))))

func (*tracker/udp.connectionDatabase).unmarshallBinary(db, data) (err)
  props U03
  requires config.Config != nil && config.Config.UDP.ConnDB.Size >= 0
  modifies db.connectionMap
  inv db.connectionMap != nil && fresh(db.connectionMap)
  inv ?l:uint32 ?r:*bufio.Reader :: old(connTable(content(data))) ==> ?l <= wN && ?r.pos == connPos(wOrd, wN - ?l) && (?l > 0 ==> okKey(sel(wOrd, wN - ?l)) && connPos(wOrd, wN - ?l + 1) <= connPos(wOrd, wN))
  inv ?r:*bufio.Reader :: ?r.base == old(content(data)) && 0 <= ?r.pos && ?r.pos <= len(?r.base)
  inv ?l:uint32 :: old(connTable(content(data))) ==> forall k: AddrPort :: has(db.connectionMap, k) <==> 0 <= sel(wRank, k) && sel(wRank, k) < wN - ?l && sel(wOrd, sel(wRank, k)) == k
  inv ?l:uint32 :: old(connTable(content(data))) ==> forall k: AddrPort :: has(db.connectionMap, k) ==> db.connectionMap[k].ID == sel(wIds, k) && db.connectionMap[k].TimeStamp == sel(wTs, k)
  ensures usable: db.connectionMap != nil
  ensures truncated: old(connTable(content(data))) && len(data) < connPos(wOrd, wN) ==> err != nil
  ensures loads: old(connTable(content(data))) && len(data) == connPos(wOrd, wN) ==> err == nil
  ensures sameentries: old(connTable(content(data))) && err == nil ==> forall k: AddrPort :: has(db.connectionMap, k) <==> 0 <= sel(wRank, k) && sel(wRank, k) < wN && sel(wOrd, sel(wRank, k)) == k
  ensures samevalues: old(connTable(content(data))) && err == nil ==> forall k: AddrPort :: has(db.connectionMap, k) ==> db.connectionMap[k].ID == sel(wIds, k) && db.connectionMap[k].TimeStamp == sel(wTs, k)

// what marshallBinary writes is such a table, with the recorded order as witness
lemma conn_len(o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), n Int) induct n {connRecs(o, ids, ts, n)} = len(connRecs(o, ids, ts, n)) == connPos(o, n) - 4
recdef connMid(o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), i Int, n Int) Seq depth 1 = ite(n <= i+1, "", connMid(o, ids, ts, i, n-1) ++ connRec(sel(o, n-1), sel(ids, sel(o, n-1)), sel(ts, sel(o, n-1))))
lemma conn_split(o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), i Int, n Int) induct n {connRecs(o, ids, ts, n), connMid(o, ids, ts, i, n)} = 0 <= i && i < n ==> connRecs(o, ids, ts, n) == connRecs(o, ids, ts, i) ++ connRec(sel(o, i), sel(ids, sel(o, i)), sel(ts, sel(o, i))) ++ connMid(o, ids, ts, i, n)
theorem conn_at(h Seq, x Seq, y Seq, k AddrPort, id Int, ts Int)
  props U03
  requires okKey(k)
  ensures alen: nth(h ++ x ++ connRec(k, id, ts) ++ y, len(h) + len(x)) == alen(k)
  ensures at: connAt(h ++ x ++ connRec(k, id, ts) ++ y, len(h) + len(x), k, wrap(id, int64), wrap(ts, int64))
theorem conn_roundtrip(d Seq, o Arr(Int,AddrPort), ids Arr(AddrPort,Int), ts Arr(AddrPort,Int), n Int, i Int)
  props U03
  requires 0 <= i && i < n && n < 4294967296 && d == le32(n) ++ connRecs(o, ids, ts, n)
  ensures size: len(d) == connPos(o, n)
  ensures count: lu32(sub(d, 0, 4)) == n
  ensures pos: len(le32(n)) + len(connRecs(o, ids, ts, i)) == connPos(o, i)
  ensures rec: d == le32(n) ++ connRecs(o, ids, ts, i) ++ connRec(sel(o, i), sel(ids, sel(o, i)), sel(ts, sel(o, i))) ++ connMid(o, ids, ts, i, n)
