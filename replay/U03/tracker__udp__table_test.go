package udp

import (
	"bytes"
	"math/rand"
	"net/netip"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
)

func vTable(r *rand.Rand) map[netip.AddrPort]connectionInfo {
	m := map[netip.AddrPort]connectionInfo{}
	for i := r.Intn(40); i > 0; i-- {
		var a netip.Addr
		if r.Intn(2) == 0 {
			var b [4]byte
			r.Read(b[:])
			a = netip.AddrFrom4(b)
		} else {
			var b [16]byte
			r.Read(b[:])
			if r.Intn(5) == 0 {
				copy(b[:], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
			}
			a = netip.AddrFrom16(b)
		}
		m[netip.AddrPortFrom(a, uint16(r.Uint32()))] = connectionInfo{int64(r.Uint64()), int64(r.Uint64())}
	}
	return m
}

func TestVerifTable(t *testing.T) {
	vNew(t)
	r := rand.New(rand.NewSource(vSeed()))
	for n := 0; n < vRounds(400); n++ {
		db := newConnectionDatabase(time.Hour)
		db.connectionMap = vTable(r)
		want := vTable(r)
		want = db.connectionMap
		cp := map[netip.AddrPort]connectionInfo{}
		for k, v := range want {
			cp[k] = v
		}
		b, err := db.marshallBinary()
		if err != nil {
			t.Fatal(err)
		}
		if !reflect.DeepEqual(cp, db.connectionMap) {
			t.Fatalf("serialising changed the table")
		}
		d2 := newConnectionDatabase(time.Hour)
		d2.connectionMap[netip.AddrPortFrom(netip.AddrFrom4([4]byte{1, 2, 3, 4}), 5)] = connectionInfo{1, 2}
		if err := d2.unmarshallBinary(b); err != nil || !reflect.DeepEqual(d2.connectionMap, cp) {
			t.Fatalf("%v: %v came back as %v", err, cp, d2.connectionMap)
		}
		for i := 0; i < 10; i++ {
			cut := r.Intn(len(b))
			if r.Intn(3) == 0 {
				cut = len(b) - 1 - r.Intn(min0(len(b), 20))
			}
			d3 := newConnectionDatabase(time.Hour)
			if err := d3.unmarshallBinary(append([]byte{}, b[:cut]...)); err == nil {
				t.Fatalf("%d of %d bytes were accepted as a table", cut, len(b))
			}
			if d3.connectionMap == nil {
				t.Fatalf("no table after an error")
			}
		}
		for i := 0; i < 10; i++ {
			x := append([]byte{}, b...)
			for k := r.Intn(4) + 1; k > 0; k-- {
				x[r.Intn(len(x))] = byte(r.Uint32())
			}
			d3 := newConnectionDatabase(time.Hour)
			d3.unmarshallBinary(x)
			d3.gobDecode(x)
		}
		// gob
		g, err := db.gobEncode()
		if err != nil {
			t.Fatal(err)
		}
		d4 := newConnectionDatabase(time.Hour)
		d4.connectionMap[netip.AddrPortFrom(netip.AddrFrom4([4]byte{1, 2, 3, 4}), 5)] = connectionInfo{1, 2}
		if err := d4.gobDecode(g); err != nil || !reflect.DeepEqual(d4.connectionMap, cp) {
			t.Fatalf("gob: %v: %v came back as %v", err, cp, d4.connectionMap)
		}
	}
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestVerifTableFile(t *testing.T) {
	vNew(t)
	r := rand.New(rand.NewSource(vSeed()))
	dir := t.TempDir() + "/"
	old := config.CachePath
	defer func() { config.CachePath = old }()
	config.CachePath = dir
	config.Config.UDP.ConnDB.Trim = time.Hour
	for n := 0; n < vRounds(30); n++ {
		u := &UDPTracker{conndb: newConnectionDatabase(time.Hour)}
		u.conndb.connectionMap = vTable(r)
		if err := u.WriteConns(); err != nil {
			t.Fatal(err)
		}
		u2 := new(UDPTracker)
		u2.Init(nil)
		if !reflect.DeepEqual(u2.conndb.connectionMap, u.conndb.connectionMap) {
			t.Fatalf("the saved table %v was loaded as %v", u.conndb.connectionMap, u2.conndb.connectionMap)
		}
		if u2.Connections() != len(u.conndb.connectionMap) {
			t.Fatalf("Connections() = %d", u2.Connections())
		}
		b, _ := os.ReadFile(filepath.Join(dir, "conn.db"))
		switch r.Intn(4) {
		case 0:
			os.Remove(filepath.Join(dir, "conn.db"))
		case 1:
			os.WriteFile(filepath.Join(dir, "conn.db"), b[:r.Intn(len(b))], 0644)
		case 2:
			os.WriteFile(filepath.Join(dir, "conn.db"), bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(50)), 0644)
		case 3:
			x := append([]byte{}, b...)
			x[r.Intn(len(x))]++
			os.WriteFile(filepath.Join(dir, "conn.db"), x, 0644)
		}
		u3 := new(UDPTracker)
		u3.Init(nil)
		u3.conndb.add(7, netip.AddrPortFrom(netip.AddrFrom4([4]byte{1, 2, 3, 4}), 5))
		if !u3.conndb.check(7, netip.AddrPortFrom(netip.AddrFrom4([4]byte{1, 2, 3, 4}), 5)) {
			t.Fatalf("the table is not usable after a failed load")
		}
	}
}
