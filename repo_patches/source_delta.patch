From a915a3d3dd67c8a3c72ec07145306e4856ea9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 01/21] fix: don't prefix UDP scrape responses with zero bytes

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 888171b8c72ff187c35cd2b3488d866a30c69b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 02/21] fix: put UDP scrape response fields in BEP 15 order

---
 tracker/udp/protocol/scrape.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..c818803 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -37,11 +37,12 @@ func (s *Scrape) Unmarshall(data []byte) error {
 	return nil
 }
 
-// ScrapeInfo holds the information for each infohash in the scrape response
+// ScrapeInfo holds the information for each infohash in the scrape response.
+// The field order is the wire order (seeders, completed, leechers).
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 86995180bc09989b0ca692000eea0c9154810f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 03/21] fix: return the error when a UDP announce fails to
 decode

---
 tracker/udp/protocol/announce.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/announce.go b/tracker/udp/protocol/announce.go
index ecda170..984a34e 100644
--- a/tracker/udp/protocol/announce.go
+++ b/tracker/udp/protocol/announce.go
@@ -39,7 +39,7 @@ func (a *Announce) Marshall() ([]byte, error) {
 // Unmarshall decodes a byte slice into an Announce.
 func (a *Announce) Unmarshall(data []byte) error {
 	if err := binary.Read(bytes.NewReader(data), binary.BigEndian, a); err != nil {
-		errors.Wrap(err, "failed to decode announce")
+		return errors.Wrap(err, "failed to decode announce")
 	}
 
 	return nil
-- 
2.43.0


From 33027f74cea4dd48b38c19b81afb433ea3c2b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 04/21] fix: don't panic when decoding short UDP messages

---
 tracker/udp/protocol/announce.go | 3 +++
 tracker/udp/protocol/error.go    | 3 +++
 tracker/udp/protocol/scrape.go   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/tracker/udp/protocol/announce.go b/tracker/udp/protocol/announce.go
index 984a34e..8401ff0 100644
--- a/tracker/udp/protocol/announce.go
+++ b/tracker/udp/protocol/announce.go
@@ -83,6 +83,9 @@ func (ar *AnnounceResp) Marshall() ([]byte, error) {
 
 // Unmarshall decodes a byte slice into an AnnounceResp.
 func (ar *AnnounceResp) Unmarshall(data []byte) error {
+	if len(data) < 20 {
+		return errors.New("announce response too short")
+	}
 	ar.Peers = make([]byte, (len(data) - 20))
 
 	reader := bytes.NewReader(data)
diff --git a/tracker/udp/protocol/error.go b/tracker/udp/protocol/error.go
index b533cc7..652fb21 100644
--- a/tracker/udp/protocol/error.go
+++ b/tracker/udp/protocol/error.go
@@ -33,6 +33,9 @@ func (e *Error) Marshall() ([]byte, error) {
 
 // Unmarshall decodes a byte slice into an Error.
 func (e *Error) Unmarshall(data []byte) error {
+	if len(data) < 8 {
+		return errors.New("error too short")
+	}
 	e.ErrorString = make([]uint8, (len(data) - 8))
 	reader := bytes.NewReader(data)
 
diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index c818803..adcec0f 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -18,6 +18,9 @@ type Scrape struct {
 
 // Unmarshall decodes a byte slice into a Scrape.
 func (s *Scrape) Unmarshall(data []byte) error {
+	if len(data) < 16 {
+		return errors.New("scrape too short")
+	}
 	s.InfoHashes = make([]storage.Hash, (len(data)-16)/20)
 	reader := bytes.NewReader(data)
 
-- 
2.43.0


From f13c61f280817598fc0446eaaa7783716560f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 05/21] fix: don't send stale pool contents for unknown hashes
 or zero numwant

---
 tracker/storage/map/hash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..88be750 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -88,7 +88,8 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
 	if !ok {
-		return
+		// the pooled buffers hold an older response
+		return peers4[:0], peers6[:0]
 	}
 
 	peermap.mutex.RLock()
@@ -98,7 +99,7 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 
 	if numWant == 0 {
 		peermap.mutex.RUnlock()
-		return
+		return peers4[:0], peers6[:0]
 	}
 
 	var pos4, pos6 int
-- 
2.43.0


From 1a3e8d033de91bd93f8a0cfcaf4e43979042a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 06/21] fix: cap compact peer lists at numwant

---
 tracker/storage/map/hash.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index 88be750..354a3a2 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -102,6 +102,7 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 		return peers4[:0], peers6[:0]
 	}
 
+	var i uint
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
@@ -119,6 +120,11 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 				break
 			}
 		}
+
+		i++
+		if i == numWant {
+			break
+		}
 	}
 	peermap.mutex.RUnlock()
 
-- 
2.43.0


From e4e3a3deb4add565d5e7ffbfe4e9974d827b2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 07/21] fix: don't lose or corrupt peers on concurrent
 announces and trims

---
 tracker/storage/map/memory.go |  9 +++++++--
 tracker/storage/map/peer.go   | 26 +++++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..a775259 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -106,10 +106,15 @@ func (db *Memory) trim() (peers, hashes int) {
 		peermap.mutex.Unlock()
 
 		if peersize == 0 {
+			// a peer may have been saved in the meantime
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			peermap.mutex.RLock()
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.RUnlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..121354a 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -10,24 +10,33 @@ import (
 )
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
-	// get/create the map
+	// the map lock is held until the peer is stored so trim can't remove the submap in between
 	memoryDb.mutex.RLock()
-	peermap, ok := memoryDb.hashmap[hash]
+	if peermap, ok := memoryDb.hashmap[hash]; ok {
+		memoryDb.savePeer(peermap, ip, port, complete, id)
+		memoryDb.mutex.RUnlock()
+		return
+	}
 	memoryDb.mutex.RUnlock()
 
-	// if submap doesn't exist create it
+	// if submap doesn't exist create it, unless another announce did so in the meantime
+	memoryDb.mutex.Lock()
+	peermap, ok := memoryDb.hashmap[hash]
 	if !ok {
-		memoryDb.mutex.Lock()
 		peermap = memoryDb.makePeermap(hash)
-		memoryDb.mutex.Unlock()
 	}
+	memoryDb.savePeer(peermap, ip, port, complete, id)
+	memoryDb.mutex.Unlock()
+}
+
+// savePeer creates or updates a peer in the given peermap
+func (memoryDb *Memory) savePeer(peermap *PeerMap, ip netip.Addr, port uint16, complete bool, id storage.PeerID) {
+	peermap.mutex.Lock()
+	defer peermap.mutex.Unlock()
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +60,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
-- 
2.43.0


From a96fee5979128e61fbe0be5b3bbcdba64f81061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 08/21] fix: count and encode a swarm under one lock when
 backing up

---
 tracker/storage/map/encode_binary.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..d5ccc31 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -24,12 +24,13 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
 		}
+		// the lock covers the size as well so that it matches the peers that follow
+		submap.mutex.RLock()
 		if err := binary.Write(writer, binary.LittleEndian, uint32(len(submap.Peers))); err != nil {
 			return nil, err
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From fca2a540b1d2def3e56ca38df4221a8c347bade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 09/21] fix: reject invalid address lengths when decoding a
 backup

---
 tracker/storage/map/encode_binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index d5ccc31..a114227 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -103,6 +103,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
 				return
 			}
+			if addrSliceLen != 4 && addrSliceLen != 16 {
+				err = errors.New("invalid address length")
+				return
+			}
 			addrSlice := make([]byte, addrSliceLen)
 			if err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {
 				return
-- 
2.43.0


From a17acea2fc2273154e8247fd8268db82b6ff9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 10/21] fix: don't wrap the peer counts of swarms above 65535
 peers

---
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..05ab14c 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (int, int)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index a114227..306e10a 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -82,7 +82,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete int
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -133,7 +133,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = len(peermap.Peers) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index 354a3a2..d822633 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete int) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index a775259..364787d 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   int
+	Incomplete int
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From c73813c6220ad3a66afa6c65eb732a818e76f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 11/21] fix: don't wrap the per-IP peer counts above 32767
 peers

---
 tracker/stats/stats.go      | 2 +-
 tracker/stats/stats_slow.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..714cd72 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..a6c5c12 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
-- 
2.43.0


From ca994286901cb477dd342db534ca99b8c1b53567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 12/21] fix: initialize the pools before loading the database
 backup

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..7c803fa 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// pools, loading a database backup takes peers from them
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From bd6873dc9984552f8e83a5635ac3145273279a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 13/21] fix: don't leak a postgres connection on every backup

---
 tracker/storage/map/backup_pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..c97fade 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,7 +75,7 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
-- 
2.43.0


From bdf70f84c543984b52e56d8aca83f6244dd51da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 14/21] fix: don't panic when saving or loading an empty
 database with postgres

---
 tracker/storage/map/backup_pg.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index c97fade..bd48fc0 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -61,6 +61,14 @@ func (bck *PgBackup) Init(db storage.Database) error {
 	return nil
 }
 
+// firstHash returns the first hash of an encoded database, which has none if the database is empty
+func firstHash(encoded []byte) []byte {
+	if len(encoded) > 20 {
+		return encoded[:20]
+	}
+	return encoded
+}
+
 func (bck PgBackup) Save() error {
 	config.Logger.Info("Saving database to pg")
 	var data []byte
@@ -80,7 +88,7 @@ func (bck PgBackup) Save() error {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Any("hash", firstHash(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,7 +131,7 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", firstHash(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
-- 
2.43.0


From f4e6b231f3a6b716484c22da82e70979756b55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 15/21] fix: don't parse bytes of previous requests left in the
 buffer

---
 tracker/http/parser.go | 4 +++-
 tracker/http/worker.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..561e4ce 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -31,10 +31,12 @@ type (
 // Custom HTTP parser
 // only supports GET request and up to `maxparams` params but uses no heap memory
 func parse(data []byte, size int) (parsed, error) {
+	data = data[:size] // the rest of the buffer holds older requests
+
 	// uTorrent sometimes encodes scrape req in b64
 	// Example: R0VUIC9zY3JhcGU/aW5mb19oYXNoPS = GET /scrape?info_hash=
 	if bytes.HasPrefix(data, []byte("R0VU")) {
-		decoded, err := base64.StdEncoding.Decode(data, data[:size])
+		decoded, err := base64.StdEncoding.Decode(data, data)
 		if err != nil {
 			return parsed{}, errors.Wrap(err, "failed to decode base64 encoded request")
 		}
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..479e72a 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From 0e8e2e41d97748a068d4942b35ebd30f8f79fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 16/21] fix: don't panic or skip bytes when X-Forwarded-For has
 no space after a comma

---
 tracker/http/forwarded_appeng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..10b06ea 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -27,8 +27,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
+		return true, bytes.TrimSpace(headerValue[lastItemIndex:])
 	}
 
 	return true, headerValue
-- 
2.43.0


From e768af25246d8d64bbd67340dcd6698fded33180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 17/21] fix: don't share one header map between the http
 workers

---
 tracker/http/fakeresp.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..dd00783 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -7,21 +7,15 @@ import (
 
 // Hacky fake http response writer to serve expvar over
 
-var (
-	fakeHdr     http.Header
-	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
-)
-
-func init() {
-	fakeHdr = make(http.Header)
-}
+var statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	// discarded, but not shared: workers serve stats concurrently
+	return make(http.Header)
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From da3e6de091e9936b6f6e1204bfd4fdc362dc54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 18/21] fix: give up waiting for the process to stop after 10s

---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..b519f2a 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -84,12 +84,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
-- 
2.43.0


From c00704ee8bd256570b8eed54fed48347e1d0d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 19/21] fix: replace backup files atomically so a crash can't
 destroy them

---
 tracker/storage/map/backup_file.go |  3 ++-
 tracker/udp/conndb.go              |  3 ++-
 tracker/utils/writefile.go         | 34 ++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)
 create mode 100644 tracker/utils/writefile.go

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..561c6eb 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -72,7 +73,7 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	if err := utils.WriteFileAtomic(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
 
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index bc1bfdd..f47828a 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/crimist/trakx/config"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -92,7 +93,7 @@ func (connDb *connectionDatabase) writeToFile(path string) error {
 		return errors.Wrap(err, "failed to marshall connection database")
 	}
 
-	if err := os.WriteFile(path, encoded, 0644); err != nil {
+	if err := utils.WriteFileAtomic(path, encoded, 0644); err != nil {
 		return errors.Wrap(err, "failed to write file")
 	}
 
diff --git a/tracker/utils/writefile.go b/tracker/utils/writefile.go
new file mode 100644
index 0000000..337f7a7
--- /dev/null
+++ b/tracker/utils/writefile.go
@@ -0,0 +1,34 @@
+package utils
+
+import (
+	"os"
+	"path/filepath"
+)
+
+// WriteFileAtomic writes data to the named file like os.WriteFile. The data is written to a temporary file
+// first so the named file always holds its complete old or complete new contents, even after a crash.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	file, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(perm)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), path)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
+
+	return err
+}
-- 
2.43.0


From ddceee3dc1bcaa504920bddec2714e3999b0041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 20/21] fix: ignore blanks around a single X-Forwarded-For
 address

---
 tracker/http/forwarded_appeng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 10b06ea..49270f4 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -28,8 +28,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
 		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
-		return true, bytes.TrimSpace(headerValue[lastItemIndex:])
+		headerValue = headerValue[lastItemIndex:]
 	}
 
-	return true, headerValue
+	return true, bytes.TrimSpace(headerValue)
 }
-- 
2.43.0


From ad4646d7888be52e69dfddd460ebf4c32e1c264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 21/21] fix: count a repeated peer id once when decoding a
 backup

---
 tracker/storage/map/encode_binary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 306e10a..7a25643 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -123,6 +123,9 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {
 				return
 			}
+			if replaced, ok := peermap.Peers[id]; ok && replaced.Complete {
+				complete-- // damaged data with a repeated peer id
+			}
 			peermap.Peers[id] = peer
 			peers++
 
-- 
2.43.0

