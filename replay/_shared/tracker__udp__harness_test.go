package udp

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
)

func vSeed() int64 {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return int64(n) + 1
}

func vRounds(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 20
	}
	return n
}

type vPeer struct {
	ip       netip.Addr
	port     uint16
	complete bool
}

// vDB is a plain peer database that also counts its updates.
type vDB struct {
	m       map[storage.Hash]map[storage.PeerID]vPeer
	updates int
	c, i    map[storage.Hash]int // fixed counts
}

func (d *vDB) Init(storage.Backup) error       { return nil }
func (d *vDB) Check() bool                     { return true }
func (d *vDB) Backup() storage.Backup          { return nil }
func (d *vDB) Trim()                           {}
func (d *vDB) SyncExpvars() error              { return nil }
func (d *vDB) Hashes() int                     { return len(d.m) }
func (d *vDB) PeerList(storage.Hash, uint, bool) [][]byte { return nil }
func (d *vDB) Save(ip netip.Addr, port uint16, c bool, h storage.Hash, id storage.PeerID) {
	d.updates++
	if d.m[h] == nil {
		d.m[h] = map[storage.PeerID]vPeer{}
	}
	d.m[h][id] = vPeer{ip, port, c}
}
func (d *vDB) Drop(h storage.Hash, id storage.PeerID) {
	d.updates++
	delete(d.m[h], id)
}
func (d *vDB) HashStats(h storage.Hash) (c, i int) {
	for _, p := range d.m[h] {
		if p.complete {
			c++
		} else {
			i++
		}
	}
	return c + d.c[h], i + d.i[h]
}
func (d *vDB) lists(h storage.Hash, n uint) (p4, p6 [][]byte) {
	for _, p := range d.m[h] {
		b := append(append([]byte{}, p.ip.AsSlice()...), byte(p.port>>8), byte(p.port))
		if p.ip.Is4() {
			p4 = append(p4, b)
		} else {
			p6 = append(p6, b)
		}
	}
	return
}
func (d *vDB) PeerListBytes(h storage.Hash, n uint) ([]byte, []byte) {
	b4, b6 := pools.Peerlists4.Get(), pools.Peerlists6.Get()
	b4, b6 = b4[:0], b6[:0]
	p4, p6 := d.lists(h, n)
	for _, p := range p4 {
		if uint(len(b4)/6+len(b6)/18) < n && len(b4)+6 <= cap(b4) {
			b4 = append(b4, p...)
		}
	}
	for _, p := range p6 {
		if uint(len(b4)/6+len(b6)/18) < n && len(b6)+18 <= cap(b6) {
			b6 = append(b6, p...)
		}
	}
	return b4, b6
}

type vEnv struct {
	t    *testing.T
	r    *rand.Rand
	u    *UDPTracker
	db   *vDB
	cl   []*net.UDPConn
	addr []*net.UDPAddr
}

func vNew(t *testing.T) *vEnv {
	c := new(config.Configuration)
	*c = config.Configuration{}
	c.LogLevel = "fatal"
	c.Announce.Base, c.Announce.Fuzz = 1800*time.Second, 50*time.Second
	c.Numwant.Default, c.Numwant.Limit = 7, 20
	c.UDP.ConnDB.Validate = true
	c.UDP.ConnDB.Expiry = time.Hour
	config.Config = c
	pools.Initialize(20)
	e := &vEnv{t: t, r: rand.New(rand.NewSource(vSeed()))}
	e.db = &vDB{m: map[storage.Hash]map[storage.PeerID]vPeer{}, c: map[storage.Hash]int{}, i: map[storage.Hash]int{}}
	e.u = &UDPTracker{conndb: newConnectionDatabase(time.Hour), peerdb: e.db}
	s, err := net.ListenUDP("udp", nil)
	if err != nil {
		t.Skip("no UDP socket")
	}
	e.u.sock = s
	t.Cleanup(func() { s.Close() })
	for _, ip := range []string{"127.0.0.1", "127.0.0.1", "::1", "127.0.0.2"} {
		k, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip)})
		if err != nil {
			continue
		}
		t.Cleanup(func() { k.Close() })
		e.cl = append(e.cl, k)
		e.addr = append(e.addr, k.LocalAddr().(*net.UDPAddr))
	}
	return e
}

// send has the tracker process d as if client i had sent it, and returns what i received.
func (e *vEnv) send(i int, d []byte) [][]byte {
	in := append(make([]byte, 0, len(d)), d...) // no room behind the datagram
	e.u.process(in, e.addr[i])
	if !bytes.Equal(in, d) {
		e.t.Fatalf("the datagram was changed: %x -> %x", d, in)
	}
	var out [][]byte
	wait := 300 * time.Millisecond
	for {
		e.cl[i].SetReadDeadline(time.Now().Add(wait))
		b := make([]byte, 65536)
		n, _, err := e.cl[i].ReadFromUDP(b)
		if err != nil {
			return out
		}
		out = append(out, b[:n])
		wait = 0
		// replies are sent before process returns: anything else is queued already
		wait = time.Millisecond
	}
}

func vAddrPort(a *net.UDPAddr) netip.AddrPort {
	ip, _ := netip.AddrFromSlice(a.IP)
	return netip.AddrPortFrom(ip.Unmap(), uint16(a.Port))
}

func vErr(tx uint32, msg string) []byte {
	b := make([]byte, 8)
	b[3] = 3
	binary.BigEndian.PutUint32(b[4:], tx)
	return append(b, msg...)
}

// vStep sends one datagram and checks the reply against BEP 15 and the database before and after.
func (e *vEnv) step(i int, d []byte) error {
	u32 := binary.BigEndian.Uint32
	ap := vAddrPort(e.addr[i])
	before, known := e.u.conndb.connectionMap[ap]
	table := map[netip.AddrPort]connectionInfo{}
	for k, v := range e.u.conndb.connectionMap {
		table[k] = v
	}
	upd := e.db.updates
	rep := e.send(i, d)
	act, tx := d[11], u32(d[12:16])
	if act > 4 || act == 4 || act != 0 {
		if len(table) != len(e.u.conndb.connectionMap) {
			return fmt.Errorf("the connection table changed on action %d", act)
		}
	}
	for k, v := range table {
		if k != ap && e.u.conndb.connectionMap[k] != v {
			return fmt.Errorf("entry %v of the connection table changed: %v -> %v", k, v, e.u.conndb.connectionMap[k])
		}
	}
	if len(rep) > 1 {
		return fmt.Errorf("%d replies to one datagram: %x", len(rep), rep)
	}
	same := func(want []byte) error {
		if e.db.updates != upd {
			return fmt.Errorf("the database changed")
		}
		if len(rep) != 1 || !bytes.Equal(rep[0], want) {
			return fmt.Errorf("reply %x, want %x", rep, want)
		}
		return nil
	}
	switch {
	case act > 4:
		return same(vErr(tx, "bad action"))
	case act == 4:
		return same([]byte{0xff})
	case act == 0:
		now, ok := e.u.conndb.connectionMap[ap]
		if !ok {
			return fmt.Errorf("no id recorded for %v", ap)
		}
		if s := time.Now().Unix() - now.TimeStamp; s < 0 || s > 2 {
			return fmt.Errorf("id stamped %d seconds ago", s)
		}
		w := make([]byte, 16)
		binary.BigEndian.PutUint32(w[4:], tx)
		binary.BigEndian.PutUint64(w[8:], uint64(now.ID))
		return same(w)
	}
	id := int64(binary.BigEndian.Uint64(d[0:8]))
	if config.Config.UDP.ConnDB.Validate && (!known || before.ID != id) {
		return same(vErr(tx, "bad connection id"))
	}
	if act == 3 {
		if len(rep) != 0 || e.db.updates != upd {
			return fmt.Errorf("action 3 answered with %x", rep)
		}
		return nil
	}
	if act == 2 {
		n := (len(d) - 16) / 20
		if n > 74 {
			return same(vErr(tx, "74 hashes max"))
		}
		w := make([]byte, 8)
		w[3] = 2
		binary.BigEndian.PutUint32(w[4:], tx)
		for k := 0; k < n; k++ {
			var h storage.Hash
			copy(h[:], d[16+20*k:])
			c, in := e.db.HashStats(h)
			w = binary.BigEndian.AppendUint32(w, uint32(c))
			w = binary.BigEndian.AppendUint32(w, 0xffffffff)
			w = binary.BigEndian.AppendUint32(w, uint32(in))
		}
		return same(w)
	}
	if len(d) < 98 {
		return same(vErr(tx, "bad announce size"))
	}
	var h storage.Hash
	var p storage.PeerID
	copy(h[:], d[16:])
	copy(p[:], d[36:])
	left, ev, want, port := binary.BigEndian.Uint64(d[64:]), u32(d[80:]), int32(u32(d[92:])), binary.BigEndian.Uint16(d[96:])
	if port == 0 {
		return same(vErr(tx, "bad port"))
	}
	if e.db.updates != upd+1 {
		return fmt.Errorf("%d updates of the database", e.db.updates-upd)
	}
	got, stored := e.db.m[h][p]
	if len(rep) != 1 {
		return fmt.Errorf("no reply")
	}
	b := rep[0]
	if ev == 3 {
		if stored {
			return fmt.Errorf("the stopped peer is still stored")
		}
		w := make([]byte, 8)
		w[3] = 1
		binary.BigEndian.PutUint32(w[4:], tx)
		w = append(w, bytes.Repeat([]byte{0xff}, 12)...)
		if !bytes.Equal(b, w) {
			return fmt.Errorf("reply %x, want %x", b, w)
		}
		return nil
	}
	if w := (vPeer{ap.Addr(), port, ev == 1 || left == 0}); !stored || got != w {
		return fmt.Errorf("stored %+v, want %+v", got, w)
	}
	if want < 1 {
		want = int32(config.Config.Numwant.Default)
	} else if want > int32(config.Config.Numwant.Limit) {
		want = int32(config.Config.Numwant.Limit)
	}
	if len(b) < 20 || b[3] != 1 || b[0]|b[1]|b[2] != 0 || u32(b[4:]) != tx {
		return fmt.Errorf("reply %x", b)
	}
	base, fuzz := uint32(config.Config.Announce.Base.Seconds()), uint32(config.Config.Announce.Fuzz.Seconds())
	if iv := u32(b[8:]); iv < base || iv >= base+fuzz && !(fuzz == 0 && iv == base) {
		return fmt.Errorf("interval %d", iv)
	}
	c, in := e.db.HashStats(h)
	if u32(b[12:]) != uint32(in) || u32(b[16:]) != uint32(c) {
		return fmt.Errorf("counts %d/%d, want %d/%d", u32(b[12:]), u32(b[16:]), in, c)
	}
	p4, p6 := e.db.lists(h, uint(want))
	mine, sz := p4, 6
	if ap.Addr().Is6() {
		mine, sz = p6, 18
	}
	list := b[20:]
	if len(list)%sz != 0 || len(list)/sz > int(want) {
		return fmt.Errorf("peer list of %d bytes for numwant %d", len(list), want)
	}
	if len(p4)+len(p6) <= int(want) && len(list)/sz != len(mine) {
		return fmt.Errorf("%d peers listed of %d", len(list)/sz, len(mine))
	}
	if len(mine) > 0 && len(list) == 0 && (len(p6) == 0 || len(p4) == 0) {
		return fmt.Errorf("empty peer list")
	}
	seen := map[string]bool{}
	for k := 0; k < len(list); k += sz {
		x := string(list[k : k+sz])
		found := false
		for _, m := range mine {
			found = found || string(m) == x
		}
		if !found || seen[x] {
			return fmt.Errorf("peer %x listed, members %x", x, mine)
		}
		seen[x] = true
	}
	return nil
}

// connid is the id recorded for client i, or a made-up one.
func (e *vEnv) connid(i int) uint64 {
	if c, ok := e.u.conndb.connectionMap[vAddrPort(e.addr[i])]; ok {
		return uint64(c.ID)
	}
	return 0
}

func (e *vEnv) datagram(i int) []byte {
	r := e.r
	n := []int{16, 16, 17, 20, 36, 56, 97, 98, 98, 98, 98, 100, 116, 1496, 16 + 20*r.Intn(90), 16 + r.Intn(1480)}[r.Intn(16)]
	d := make([]byte, n)
	r.Read(d)
	act := []byte{0, 1, 1, 1, 1, 2, 2, 3, 4, 5, byte(r.Intn(256))}[r.Intn(11)]
	d[8], d[9], d[10], d[11] = 0, 0, 0, act
	if act == 0 && r.Intn(2) == 0 {
		binary.BigEndian.PutUint64(d, 0x41727101980)
	} else if r.Intn(5) > 0 {
		binary.BigEndian.PutUint64(d, e.connid(i))
	} else if r.Intn(2) == 0 {
		binary.BigEndian.PutUint64(d, e.connid(r.Intn(len(e.cl))))
	} else {
		binary.BigEndian.PutUint64(d, e.connid(i)^(1<<uint(r.Intn(64))))
	}
	if n >= 98 && act == 1 {
		copy(d[16:36], bytes.Repeat([]byte{byte(r.Intn(3))}, 20))
		copy(d[36:56], bytes.Repeat([]byte{byte(r.Intn(12))}, 20))
		if r.Intn(4) > 0 {
			binary.BigEndian.PutUint64(d[64:], []uint64{0, 0, 0, 1, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 0xffffffff}[r.Intn(9)])
		}
		binary.BigEndian.PutUint32(d[80:], []uint32{0, 1, 2, 3, 0, 1, 2, 0xff000003, r.Uint32()}[r.Intn(9)])
		binary.BigEndian.PutUint32(d[92:], []uint32{0, 1, 2, 5, 20, 21, 0xffffffff, 0x80000000, 0x7fffffff, r.Uint32()}[r.Intn(10)])
		if r.Intn(8) == 0 {
			d[96], d[97] = 0, 0
		}
	}
	if act == 2 {
		for k := 16; k+20 <= n; k += 20 {
			if r.Intn(3) > 0 {
				copy(d[k:k+20], bytes.Repeat([]byte{byte(r.Intn(4))}, 20))
			}
		}
	}
	return d
}
