import sys; sys.path.insert(0,'/verif/tools/seed')
from mk import mk
M='tracker/storage/map/'
PRE='''package gomap

import (
	"bytes"
	"net/netip"
	"runtime"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"go.uber.org/zap"
)

var _ = runtime.GC
var _ = bytes.Equal
var _ = stats.Seeds.Load
var _ storage.Hash
var _ netip.Addr
var _ time.Time

func setup() *Memory {
	config.Config = new(config.Configuration)
	config.Logger = zap.NewNop()
	pools.Initialize(20)
	db := new(Memory)
	db.make()
	return db
}

'''
mk('s01-reseed','S01','a peer that announces again while complete','the last-seen time of a seeder is not refreshed by a later announce',
 [(M+'peer.go','''	peer.LastSeen = time.Now().Unix()
''','''	if !peerExists || !complete {
		peer.LastSeen = time.Now().Unix()
	}
''')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	h, id, ip := storage.Hash{1}, storage.PeerID{2}, netip.MustParseAddr("10.0.0.1")
	for _, c := range []bool{false, true} {
		db.Save(ip, 1, c, h, id)
		db.hashmap[h].Peers[id].LastSeen -= 1000
		db.Save(ip, 1, c, h, id)
		if p := db.hashmap[h].Peers[id]; time.Now().Unix()-p.LastSeen > 100 {
			t.Fatal("announce did not refresh the last-seen time, complete:", c)
		}
	}
}
'''})
mk('s02-lastseed','S02','the only seeder of a swarm going back to leeching','a swarm with a single seeder keeps counting it as complete after it became incomplete',
 [(M+'peer.go','''		} else if peer.Complete && !complete {
			peermap.Complete--
''','''		} else if peer.Complete && !complete && peermap.Complete > 1 {
			peermap.Complete--
''')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	h, id, ip := storage.Hash{1}, storage.PeerID{2}, netip.MustParseAddr("10.0.0.1")
	db.Save(ip, 1, true, h, id)
	db.Save(ip, 1, true, h, storage.PeerID{3})
	db.Save(ip, 1, false, h, id)
	if c, i := db.HashStats(h); c != 1 || i != 1 {
		t.Fatal(c, i)
	}
	db.Save(ip, 1, false, h, storage.PeerID{3})
	if c, i := db.HashStats(h); c != 0 || i != 2 {
		t.Fatal(c, i)
	}
}
'''})
mk('s03-limit6','S03','a compact peer list of a swarm with more IPv6 peers than asked for','the compact list holds more peers than were asked for',
 [(M+'hash.go','''				break
			}
		}

		i++
		if i == numWant {
			break
		}
	}
	peermap.mutex.RUnlock()

''','''				break
			}
			i++
		}

		if i == numWant {
			break
		}
	}
	peermap.mutex.RUnlock()

''')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	h, ip := storage.Hash{1}, netip.MustParseAddr("2001:db8::1")
	for i := byte(0); i < 5; i++ {
		db.Save(ip, 1, true, h, storage.PeerID{i})
	}
	_, p6 := db.PeerListBytes(h, 2)
	if len(p6) != 36 {
		t.Fatal(len(p6))
	}
	_ = bytes.Count
}
'''})
mk('s04-minutes','S04','a configured expiry that is not a whole number of minutes','peers younger than the configured expiry are removed',
 [(M+'memory.go','peerTimeout := int64(config.Config.DB.Expiry.Seconds())','peerTimeout := int64(config.Config.DB.Expiry.Truncate(time.Minute).Seconds())')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	config.Config.DB.Expiry = 90 * time.Second
	h, ip := storage.Hash{1}, netip.MustParseAddr("10.0.0.1")
	for i, age := range []int64{0, 50, 75, 100} {
		id := storage.PeerID{byte(i)}
		db.Save(ip, 1, true, h, id)
		db.hashmap[h].Peers[id].LastSeen -= age
	}
	db.Trim()
	if n := len(db.hashmap[h].Peers); n != 3 {
		t.Fatal("peers left:", n)
	}
}
'''})
mk('s05-moved','S05','a peer that changes its address and completes in the same announce','the per-IP reference is not moved when the peer changes its completion state in the same announce',
 [(M+'peer.go','			if peer.IP != ip {','			if peer.IP != ip && peer.Complete == complete {')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	h, id := storage.Hash{1}, storage.PeerID{2}
	a, b := netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("10.0.0.2")
	n := stats.IPStats.Total()
	db.Save(a, 1, false, h, id)
	db.Save(a, 1, false, h, storage.PeerID{3})
	db.Save(b, 1, true, h, id)
	if stats.IPStats.Total() != n+2 {
		t.Fatal("unique addresses:", stats.IPStats.Total()-n)
	}
}
'''})
mk('s06-unmap','S06','a peer stored with an IPv4-mapped IPv6 address','the address of such a peer comes back from a backup as IPv4',
 [(M+'encode_binary.go','addrSlice := peer.IP.AsSlice()','addrSlice := peer.IP.Unmap().AsSlice()')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	h := storage.Hash{1}
	for i, s := range []string{"10.0.0.1", "2001:db8::1", "::ffff:10.0.0.1"} {
		db.Save(netip.MustParseAddr(s), 1, false, h, storage.PeerID{byte(i)})
	}
	data, err := db.encodeBinary()
	if err != nil {
		t.Fatal(err)
	}
	db2 := new(Memory)
	if _, _, err = db2.decodeBinary(data); err != nil {
		t.Fatal(err)
	}
	for id, p := range db.hashmap[h].Peers {
		if q := db2.hashmap[h].Peers[id]; q == nil || q.IP != p.IP {
			t.Fatal(p.IP, q)
		}
	}
}
'''})
mk('s07-prealloc','S07','a backup whose peer count field is damaged','decoding allocates as many map entries as the count field says before reading them',
 [(M+'encode_binary.go','''		// decode peerid and peers
''','''		peermap.Peers = make(map[storage.PeerID]*storage.Peer, count)

		// decode peerid and peers
''')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	data := make([]byte, 24)
	data[22] = 0x80 // 2^23 peers
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, _, err := db.decodeBinary(data); err == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 100<<20 {
		t.Fatal("allocated", n)
	}
}
'''})
mk('s10-early','S10','another announce taking the removed peer record from the pool before the expiry run has read it','the expiry run reads a peer record after it gave it back to the pool',
 [(M+'peer.go','''	delete(peermap.Peers, id)

	if peer.Complete {
		peermap.Complete--
	} else {
		peermap.Incomplete--
	}

	if !fast {
''','''	delete(peermap.Peers, id)
	pools.Peers.Put(peer)

	if peer.Complete {
		peermap.Complete--
	} else {
		peermap.Incomplete--
	}

	if !fast {
'''),(M+'peer.go','''		stats.IPStats.Unlock()
	}

	pools.Peers.Put(peer)
}

// Drop''','''		stats.IPStats.Unlock()
	}
}

// Drop''')],{'tracker/storage/map':PRE+'''
func TestDemo(t *testing.T) {
	db := setup()
	// the next user of a returned record overwrites it at once
	pools.Peers = pools.NewPool[*storage.Peer](func() any { return new(storage.Peer) }, func(p *storage.Peer) { *p = storage.Peer{} })
	config.Config.DB.Expiry = time.Minute
	h, id := storage.Hash{1}, storage.PeerID{2}
	db.Save(netip.MustParseAddr("10.0.0.1"), 1, true, h, id)
	seeds, leeches := stats.Seeds.Load(), stats.Leeches.Load()
	db.hashmap[h].Peers[id].LastSeen -= 1000
	db.Trim()
	if stats.Seeds.Load() != seeds-1 || stats.Leeches.Load() != leeches {
		t.Fatal("statistics changed by", stats.Seeds.Load()-seeds, stats.Leeches.Load()-leeches)
	}
}
'''})
