package gomap

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/netip"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/crimist/trakx/bencoding"
	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"go.uber.org/zap"
)

func vSeed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(n) + 1
}

func vRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 20
	}
	return n
}

const vLimit = 20

type vModel map[storage.Hash]map[storage.PeerID]storage.Peer

// vEnv runs random operations on the database and on a model of it.
type vEnv struct {
	r      *rand.Rand
	db     *Memory
	m      vModel
	hashes []storage.Hash
	ids    []storage.PeerID
	ips    []netip.Addr
	log    []string
	expiry int64
	// what the operation removed, and returned
	old               vModel
	seeds0, leeches0  int64
}

func vNew(seed int64) *vEnv {
	c := new(config.Configuration)
	c.LogLevel = "fatal"
	config.Config = c
	config.Logger = zap.NewNop()
	pools.Initialize(vLimit)
	e := &vEnv{r: rand.New(rand.NewSource(seed)), db: new(Memory), m: vModel{}}
	e.db.make()
	e.expiry = int64(e.r.Intn(5000))
	c.DB.Expiry = time.Duration(e.expiry)*time.Second + time.Duration(e.r.Intn(1000))*time.Millisecond
	for i := 0; i < 4; i++ {
		var h storage.Hash
		var id storage.PeerID
		switch i {
		case 1:
			h[19], id[19] = 1, 1
		case 2:
			h[0], id[0] = 1, 1
		case 3:
			e.r.Read(h[:])
			e.r.Read(id[:])
		}
		e.hashes = append(e.hashes, h)
		e.ids = append(e.ids, id)
	}
	for i := 0; i < 9; i++ {
		var id storage.PeerID
		e.r.Read(id[:])
		e.ids = append(e.ids, id)
	}
	for i := 0; i < 3; i++ {
		e.ips = append(e.ips, netip.AddrFrom4([4]byte{10, 0, byte(e.r.Intn(256)), byte(i)}))
		var a [16]byte
		e.r.Read(a[:])
		a[0] = 0x20
		e.ips = append(e.ips, netip.AddrFrom16(a))
	}
	e.ips = append(e.ips, netip.AddrFrom4([4]byte{}), netip.AddrFrom16([16]byte{}), netip.MustParseAddr("::ffff:10.1.2.3"))
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	for stats.IPStats.Total() > 0 {
		for a := range vLastIPs {
			stats.IPStats.Delete(a)
		}
		if stats.IPStats.Total() > 0 {
			vBaseIPs = stats.IPStats.Total()
			break
		}
	}
	vLastIPs = map[netip.Addr]bool{}
	for _, a := range e.ips {
		vLastIPs[a] = true
	}
	return e
}

var (
	vLastIPs = map[netip.Addr]bool{}
	vBaseIPs int // addresses left by other tests
)

func (e *vEnv) copyModel() vModel {
	m := vModel{}
	for h, s := range e.m {
		m[h] = map[storage.PeerID]storage.Peer{}
		for id, p := range s {
			m[h][id] = p
		}
	}
	return m
}

// step performs one random operation.
func (e *vEnv) step() error {
	h, id, ip := e.hashes[e.r.Intn(len(e.hashes))], e.ids[e.r.Intn(len(e.ids))], e.ips[e.r.Intn(len(e.ips))]
	e.old = e.copyModel()
	if e.r.Intn(3) > 0 { // the same peer keeps coming back
		id = e.ids[e.r.Intn(4)]
	}
	switch k := e.r.Intn(100); {
	case k < 55:
		port, complete := uint16(e.r.Intn(65536)), e.r.Intn(2) == 0
		e.log = append(e.log, fmt.Sprintf("Save(%v, %d, %v, %x, %x)", ip, port, complete, h[:], id[:]))
		t0 := time.Now().Unix()
		e.db.Save(ip, port, complete, h, id)
		if e.m[h] == nil {
			e.m[h] = map[storage.PeerID]storage.Peer{}
		}
		p := storage.Peer{Complete: complete, IP: ip, Port: port}
		if s := e.db.hashmap[h]; s != nil && s.Peers[id] != nil {
			p.LastSeen = s.Peers[id].LastSeen
			if p.LastSeen < t0 || p.LastSeen > time.Now().Unix() {
				return fmt.Errorf("last seen %d after a save at %d", p.LastSeen, t0)
			}
		}
		e.m[h][id] = p
	case k < 80:
		e.log = append(e.log, fmt.Sprintf("Drop(%x, %x)", h[:], id[:]))
		e.db.Drop(h, id)
		delete(e.m[h], id)
	case k < 90: // some peers were last seen a while ago
		for hh, s := range e.m {
			for i, p := range s {
				if e.r.Intn(3) == 0 {
					p.LastSeen = time.Now().Unix() - []int64{0, e.expiry - 3, e.expiry + 1, e.expiry + 2, e.expiry * 2}[e.r.Intn(5)]
					s[i] = p
					e.db.hashmap[hh].Peers[i].LastSeen = p.LastSeen
					e.log = append(e.log, fmt.Sprintf("last seen of %x in %x is now-%d", i[:], hh[:], time.Now().Unix()-p.LastSeen))
				}
			}
		}
	case k < 97:
		return e.trim()
	}
	return nil
}

// trim expires peers; ages within two seconds of the boundary are set aside because the clock moves.
func (e *vEnv) trim() error {
	e.log = append(e.log, fmt.Sprintf("trim (expiry %ds)", e.expiry))
	now := time.Now().Unix()
	wantP, wantH := 0, 0
	for h, s := range e.m {
		for id, p := range s {
			if age := now - p.LastSeen; age > e.expiry-2 && age <= e.expiry {
				p.LastSeen = now - e.expiry + 3
				if e.expiry < 3 {
					p.LastSeen = now + 10
				}
				s[id] = p
				e.db.hashmap[h].Peers[id].LastSeen = p.LastSeen
			}
			if now-p.LastSeen > e.expiry {
				delete(s, id)
				wantP++
			}
		}
		if len(s) == 0 {
			delete(e.m, h)
			wantH++
		}
	}
	p, h := e.db.trim()
	if p != wantP || h != wantH {
		return fmt.Errorf("trim reported %d peers and %d swarms removed, %d and %d were", p, h, wantP, wantH)
	}
	return nil
}

// contents compares the stored swarms and peers.
func (e *vEnv) contents() error {
	if len(e.db.hashmap) != len(e.m) {
		return fmt.Errorf("%d swarms stored, want %d", len(e.db.hashmap), len(e.m))
	}
	return vSame(e.db, e.m)
}

func vSame(db *Memory, m vModel) error {
	for h, s := range m {
		pm := db.hashmap[h]
		if pm == nil {
			return fmt.Errorf("swarm %x is missing", h[:])
		}
		if len(pm.Peers) != len(s) {
			return fmt.Errorf("swarm %x has %d peers, want %d", h[:], len(pm.Peers), len(s))
		}
		for id, p := range s {
			q := pm.Peers[id]
			if q == nil {
				return fmt.Errorf("peer %x of %x is missing", id[:], h[:])
			}
			if *q != p {
				return fmt.Errorf("peer %x of %x is %+v, want %+v", id[:], h[:], *q, p)
			}
		}
	}
	return nil
}

func (e *vEnv) counts() error {
	for _, h := range append(e.hashes, storage.Hash{9}) {
		c := 0
		for _, p := range e.db.hashmap[h].peers() {
			if p.Complete {
				c++
			}
		}
		gc, gi := e.db.HashStats(h)
		if gc != c || gi != len(e.db.hashmap[h].peers())-c {
			return fmt.Errorf("swarm %x reports %d/%d, its peers are %d/%d", h[:], gc, gi, c, len(e.db.hashmap[h].peers())-c)
		}
	}
	if e.db.Hashes() != len(e.db.hashmap) {
		return fmt.Errorf("%d hashes reported, %d stored", e.db.Hashes(), len(e.db.hashmap))
	}
	return nil
}

func (pm *PeerMap) peers() map[storage.PeerID]*storage.Peer {
	if pm == nil {
		return nil
	}
	return pm.Peers
}

func (e *vEnv) stats() error {
	var s, l int64
	refs := map[netip.Addr]bool{}
	for _, pm := range e.db.hashmap {
		for _, p := range pm.Peers {
			if p.Complete {
				s++
			} else {
				l++
			}
			refs[p.IP] = true
		}
	}
	if stats.Seeds.Load() != s || stats.Leeches.Load() != l {
		return fmt.Errorf("statistics say %d seeds %d leeches, stored are %d and %d", stats.Seeds.Load(), stats.Leeches.Load(), s, l)
	}
	if stats.IPStats.Total()-vBaseIPs != len(refs) {
		return fmt.Errorf("statistics count %d addresses, stored are %d", stats.IPStats.Total(), len(refs))
	}
	return nil
}

// lists checks the peer lists of a random swarm and limit.
func (e *vEnv) lists() error {
	h := append(e.hashes, storage.Hash{9})[e.r.Intn(len(e.hashes)+1)]
	n := uint([]int{0, 1, 2, 3, 5, 8, vLimit, vLimit + 1, 1000}[e.r.Intn(9)])
	noID := e.r.Intn(2) == 0
	want := map[string]int{}
	for id, p := range e.db.hashmap[h].peers() {
		d := bencoding.NewDictionary()
		if !noID {
			d.String("peer id", string(id[:]))
		}
		d.String("ip", p.IP.String())
		d.Int64("port", int64(p.Port))
		want[string(d.GetBytes())]++
	}
	size := uint(len(e.db.hashmap[h].peers()))
	k := n
	if k > size {
		k = size
	}
	l := e.db.PeerList(h, n, noID)
	if uint(len(l)) != k {
		return fmt.Errorf("PeerList(%x, %d) has %d entries, swarm size %d", h[:], n, len(l), size)
	}
	for _, b := range l {
		if want[string(b)] == 0 {
			return fmt.Errorf("PeerList(%x, %d, %v) has entry %q", h[:], n, noID, b)
		}
		want[string(b)]--
	}
	// compact
	want4, want6 := map[string]int{}, map[string]int{}
	for _, p := range e.db.hashmap[h].peers() {
		b := append(append([]byte{}, p.IP.AsSlice()...), byte(p.Port>>8), byte(p.Port))
		if p.IP.Is4() {
			want4[string(b)]++
		} else {
			want6[string(b)]++
		}
	}
	p4, p6 := e.db.PeerListBytes(h, n)
	if len(p4)%6 != 0 || len(p6)%18 != 0 {
		return fmt.Errorf("compact lists of %d and %d bytes", len(p4), len(p6))
	}
	if t := uint(len(p4)/6 + len(p6)/18); t > k || n <= vLimit && t != k {
		return fmt.Errorf("PeerListBytes(%x, %d) has %d entries, swarm size %d", h[:], n, t, size)
	}
	for i := 0; i < len(p4); i += 6 {
		if want4[string(p4[i:i+6])] == 0 {
			return fmt.Errorf("PeerListBytes(%x, %d) has IPv4 entry %x", h[:], n, p4[i:i+6])
		}
		want4[string(p4[i:i+6])]--
	}
	for i := 0; i < len(p6); i += 18 {
		if want6[string(p6[i:i+18])] == 0 {
			return fmt.Errorf("PeerListBytes(%x, %d) has IPv6 entry %x", h[:], n, p6[i:i+18])
		}
		want6[string(p6[i:i+18])]--
	}
	// the buffers must not be shared with anything else in use
	c4, c6 := append([]byte{}, p4...), append([]byte{}, p6...)
	q4, q6 := e.db.PeerListBytes(e.hashes[e.r.Intn(len(e.hashes))], vLimit)
	if !bytes.Equal(c4, p4) || !bytes.Equal(c6, p6) {
		return fmt.Errorf("a second peer list overwrote the first")
	}
	for _, b := range [][]byte{p4, q4} {
		pools.Peerlists4.Put(b)
	}
	for _, b := range [][]byte{p6, q6} {
		pools.Peerlists6.Put(b)
	}
	return nil
}

// records checks that no peer record is stored twice or still in the pool.
func (e *vEnv) records() error {
	seen := map[*storage.Peer]bool{}
	for _, pm := range e.db.hashmap {
		for _, p := range pm.Peers {
			if seen[p] {
				return fmt.Errorf("a peer record is stored twice")
			}
			seen[p] = true
		}
	}
	var got []*storage.Peer
	for i := 0; i < 20; i++ {
		p := pools.Peers.Get()
		if seen[p] {
			return fmt.Errorf("a stored peer record came out of the pool, or one came out twice")
		}
		seen[p] = true
		got = append(got, p)
	}
	for _, p := range got {
		*p = storage.Peer{Complete: true, Port: 0xdead, LastSeen: 1, IP: netip.AddrFrom4([4]byte{9, 9, 9, 9})}
		pools.Peers.Put(p)
	}
	d := pools.Dictionaries.Get()
	if string(d.GetBytes()) != "de" {
		return fmt.Errorf("a dictionary from the pool holds %q", d.GetBytes())
	}
	pools.Dictionaries.Put(d)
	return nil
}

// vRun runs random operations and the checks after each.
func vRun(t *testing.T, runs, steps int, checks ...func(*vEnv) error) {
	for n := 0; n < vRounds(runs); n++ {
		e := vNew(vSeed()*1000 + int64(n))
		for i := 0; i < steps; i++ {
			err := func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic: %v", p)
					}
				}()
				if err = e.step(); err != nil {
					return
				}
				for _, c := range checks {
					if err = c(e); err != nil {
						return
					}
				}
				return
			}()
			if err != nil {
				for _, l := range e.log {
					t.Log(l)
				}
				t.Fatal(err)
			}
		}
	}
}

// vEncode is the documented backup layout of a model, swarms and peers in any order.
func vEncode(m vModel) []byte {
	var b []byte
	for h, s := range m {
		b = append(b, h[:]...)
		b = binary.LittleEndian.AppendUint32(b, uint32(len(s)))
		for id, p := range s {
			b = append(b, id[:]...)
			if p.Complete {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
			a := p.IP.AsSlice()
			b = binary.LittleEndian.AppendUint32(b, uint32(len(a)))
			b = append(b, a...)
			b = binary.LittleEndian.AppendUint16(b, p.Port)
			b = binary.LittleEndian.AppendUint64(b, uint64(p.LastSeen))
		}
	}
	return b
}
