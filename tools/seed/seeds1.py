import sys; sys.path.insert(0,'/verif/tools/seed')
from mk import mk
mk('u01-zero-id','U01','an announce or scrape from a sender without a recorded id that carries connection id 0','a sender that never connected is let through with connection id 0',
 [('tracker/udp/conndb.go','''	cid, ok := db.connectionMap[addr]
	db.mutex.RUnlock()

	if ok && cid.ID == id {
		return true
	}
	return false
''','''	cid := db.connectionMap[addr]
	db.mutex.RUnlock()

	return cid.ID == id
''')],
 {'tracker/udp':'''package udp

import (
	"net/netip"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	db := newConnectionDatabase(time.Hour)
	a := netip.MustParseAddrPort("10.0.0.1:1000")
	db.add(77, a)
	if !db.check(77, a) || db.check(78, a) {
		t.Fatal("check is wrong for a known address")
	}
	if db.check(0, netip.MustParseAddrPort("10.0.0.2:1000")) {
		t.Fatal("an address without an id was accepted")
	}
}
'''})
mk('u02-minutes','U02','a configured expiry that is not a whole number of minutes','connection ids younger than the configured expiry are removed',
 [('tracker/udp/conndb.go','expiry: int64(expiry.Seconds()),','expiry: int64(expiry.Minutes()) * 60,')],
 {'tracker/udp':'''package udp

import (
	"net/netip"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	db := newConnectionDatabase(90 * time.Second)
	a, b := netip.MustParseAddrPort("10.0.0.1:1000"), netip.MustParseAddrPort("10.0.0.1:1001")
	now := time.Now().Unix()
	db.connectionMap[a] = connectionInfo{1, now - 75}
	db.connectionMap[b] = connectionInfo{2, now - 100}
	db.trim()
	if _, ok := db.connectionMap[a]; !ok {
		t.Fatal("an entry younger than the expiry was removed")
	}
	if _, ok := db.connectionMap[b]; ok {
		t.Fatal("an entry older than the expiry was kept")
	}
}
'''})
UDPH='''package udp

import (
	"net"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"net/netip"
)

type demoDB struct{ saved, dropped int }

func (d *demoDB) Init(storage.Backup) error                { return nil }
func (d *demoDB) Check() bool                              { return true }
func (d *demoDB) Backup() storage.Backup                   { return nil }
func (d *demoDB) Trim()                                    {}
func (d *demoDB) SyncExpvars() error                       { return nil }
func (d *demoDB) Hashes() int                              { return 0 }
func (d *demoDB) PeerList(storage.Hash, uint, bool) [][]byte { return nil }
func (d *demoDB) Save(netip.Addr, uint16, bool, storage.Hash, storage.PeerID) { d.saved++ }
func (d *demoDB) Drop(storage.Hash, storage.PeerID)        { d.dropped++ }
func (d *demoDB) HashStats(h storage.Hash) (int, int)      { return int(h[0]), int(h[1]) }
func (d *demoDB) PeerListBytes(storage.Hash, uint) ([]byte, []byte) {
	b4, b6 := pools.Peerlists4.Get()[:0], pools.Peerlists6.Get()[:0]
	return append(b4, 1, 2, 3, 4, 5, 6), append(b6, make([]byte, 18)...)
}

// ask has the tracker process d as sent by from and returns the replies.
func ask(t *testing.T, db storage.Database, d []byte, from string) [][]byte {
	config.Config = new(config.Configuration)
	config.Config.LogLevel = "fatal"
	config.Config.Numwant.Default, config.Config.Numwant.Limit = 5, 10
	config.Config.Announce.Base = time.Minute
	pools.Initialize(10)
	u := &UDPTracker{conndb: newConnectionDatabase(time.Hour), peerdb: db}
	s, err := net.ListenUDP("udp", nil)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	u.sock = s
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(from)})
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	u.process(d, &net.UDPAddr{IP: net.ParseIP(from), Port: c.LocalAddr().(*net.UDPAddr).Port})
	var out [][]byte
	for {
		b := make([]byte, 4096)
		c.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		n, err := c.Read(b)
		if err != nil {
			return out
		}
		out = append(out, b[:n])
	}
}
'''
mk('u07-dup','U07','a scrape that names the same infohash twice','the reply has one entry less, so later entries are matched to the wrong infohash',
 [('tracker/udp/scrape.go','''	for _, hash := range scrape.InfoHashes {
''','''	seen := make(map[[20]byte]bool, len(scrape.InfoHashes))
	for _, hash := range scrape.InfoHashes {
		if seen[hash] {
			continue
		}
		seen[hash] = true
''')],
 {'tracker/udp':UDPH+'''
func TestDemo(t *testing.T) {
	d := make([]byte, 76)
	d[11] = 2
	d[16], d[17] = 3, 4
	d[36], d[37] = 3, 4
	d[56], d[57] = 5, 6
	r := ask(t, &demoDB{}, d, "127.0.0.1")
	if len(r) != 1 || len(r[0]) != 8+36 || r[0][11] != 3 || r[0][23] != 3 || r[0][35] != 5 {
		t.Fatalf("reply %x", r)
	}
}
'''})
mk('u06-left-high','U06','an announce whose left is a multiple of 2^32 but not 0','a leecher is stored as complete',
 [('tracker/udp/announce.go','announce.Event == protocol.EventCompleted || announce.Left == 0','announce.Event == protocol.EventCompleted || int32(announce.Left) == 0')],
 {'tracker/udp':UDPH.replace('{ d.saved++ }','{}').replace('type demoDB struct{ saved, dropped int }','type demoDB struct{ saved, dropped int; complete bool }').replace('Save(netip.Addr, uint16, bool, storage.Hash, storage.PeerID) {}','Save(_ netip.Addr, _ uint16, c bool, _ storage.Hash, _ storage.PeerID) { d.saved++; d.complete = c }')+'''
func TestDemo(t *testing.T) {
	d := make([]byte, 98)
	d[11], d[97] = 1, 9
	d[67] = 2 // left = 2 << 32
	db := &demoDB{}
	r := ask(t, db, d, "127.0.0.1")
	if len(r) != 1 || db.saved != 1 || db.complete {
		t.Fatalf("%d replies, saved %d, complete %v", len(r), db.saved, db.complete)
	}
}
'''})
mk('b01-runes','B01','a byte string value that holds multi-byte UTF-8 sequences','the length prefix of the value is too small',
 [('bencoding/dictionary.go','''	d.write(strconv.FormatInt(int64(len(key)), 10) + ":" + key + strconv.FormatInt(int64(len(v)), 10) + ":" + v)
''','''	d.write(str(key) + strconv.Itoa(len([]rune(v))) + ":" + v)
''')],
 {'bencoding':'''package bencoding

import "testing"

func TestDemo(t *testing.T) {
	d := NewDictionary()
	d.String("ip", "1.2.3.4")
	d.String("k", "\\xc3\\xa9")
	if got := d.Get(); got != "d2:ip7:1.2.3.41:k2:\\xc3\\xa9e" {
		t.Fatalf("%q", got)
	}
}
'''})
mk('u03-short-tail','U03','a table file cut inside its last record','a truncated connection table is accepted',
 [('tracker/udp/conndb.go','''		if err := binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
			return err
		}
''','''		if err := binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
			break
		}
''')],
 {'tracker/udp':'''package udp

import (
	"net/netip"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
)

func TestDemo(t *testing.T) {
	config.Config = new(config.Configuration)
	db := newConnectionDatabase(time.Hour)
	db.add(1, netip.MustParseAddrPort("10.0.0.1:1000"))
	db.add(2, netip.MustParseAddrPort("10.0.0.1:1001"))
	b, err := db.marshallBinary()
	if err != nil {
		t.Fatal(err)
	}
	if err := db.unmarshallBinary(b); err != nil || db.size() != 2 {
		t.Fatal(err)
	}
	if err := db.unmarshallBinary(b[:4+(len(b)-4)/2]); err == nil {
		t.Fatal("a table with one record missing was accepted")
	}
}
'''})
mk('s09-reuse-temp','S09','a save that fails part way (a full disk)','the previous file is removed when a save fails',
 [('tracker/utils/writefile.go','''		os.Remove(file.Name())
''','''		os.Remove(file.Name())
		os.Remove(path)
''')] if False else [('tracker/udp/conndb.go','utils.WriteFileAtomic(path, encoded, 0644)','os.WriteFile(path, encoded, 0644)'),('tracker/udp/conndb.go','	"github.com/crimist/trakx/tracker/utils"\n','')],
 {'tracker/udp':'''package udp

import (
	"net/netip"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
)

func table(n int) *connectionDatabase {
	config.Config = new(config.Configuration)
	db := newConnectionDatabase(time.Hour)
	for i := 0; i < n; i++ {
		db.add(int64(i), netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, byte(i >> 8), byte(i)}), 9))
	}
	return db
}

func TestDemo(t *testing.T) {
	if d := os.Getenv("DEMO_LIMITED"); d != "" {
		signal.Ignore(syscall.SIGXFSZ)
		if table(5000).writeToFile(filepath.Join(d, "conn.db")) == nil {
			t.Fatal("no error for a save on a full disk")
		}
		return
	}
	d := t.TempDir()
	if err := table(10).writeToFile(filepath.Join(d, "conn.db")); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("/bin/sh", "-c", "ulimit -f 8; exec \\"$0\\" -test.run '^TestDemo$'", os.Args[0])
	cmd.Env = append(os.Environ(), "DEMO_LIMITED="+d)
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v\\n%s", err, out)
	}
	db := table(0)
	if err := db.loadFromFile(filepath.Join(d, "conn.db")); err != nil || db.size() != 10 {
		t.Fatalf("after a failed save the table is gone: %v, %d entries", err, db.size())
	}
}
'''})
