package udp

import (
	"math/rand"
	"net/netip"
	"testing"
	"time"
)

func TestVerifTrim(t *testing.T) {
	vNew(t)
	r := rand.New(rand.NewSource(vSeed()))
	for n := 0; n < vRounds(400); n++ {
		exp := []int64{0, 1, 5, 60, 3600}[r.Intn(5)]
		db := newConnectionDatabase(time.Duration(exp) * time.Second)
		if db.expiry != exp {
			t.Fatalf("expiry %d for %d seconds", db.expiry, exp)
		}
		t0 := time.Now().Unix()
		want := map[netip.AddrPort]connectionInfo{}
		for i := r.Intn(50); i > 0; i-- {
			k := netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, byte(r.Intn(3)), byte(r.Intn(256))}), uint16(r.Intn(3)))
			age := []int64{0, exp - 1, exp - 2, exp, exp + 1, exp + 2, exp + 3, 2*exp + 10, int64(r.Intn(7200)), t0}[r.Intn(10)]
			if age < 0 {
				age = 0
			}
			db.connectionMap[k] = connectionInfo{r.Int63(), t0 - age}
			want[k] = db.connectionMap[k]
		}
		db.trim()
		t1 := time.Now().Unix()
		for k, v := range want {
			got, ok := db.connectionMap[k]
			if ok && got != v {
				t.Fatalf("trim changed %v: %v -> %v", k, v, got)
			}
			if ok && t0-v.TimeStamp > exp {
				t.Fatalf("age %d kept with expiry %d", t0-v.TimeStamp, exp)
			}
			if !ok && t1-v.TimeStamp <= exp {
				t.Fatalf("age %d removed with expiry %d", t1-v.TimeStamp, exp)
			}
		}
		if db.size() > len(want) || db.size() != len(db.connectionMap) {
			t.Fatalf("size %d of %d", db.size(), len(db.connectionMap))
		}
		// add and check
		k := netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 9, 9, 9}), uint16(r.Intn(65536)))
		before := map[netip.AddrPort]connectionInfo{}
		for a, b := range db.connectionMap {
			before[a] = b
		}
		id := r.Int63()
		db.add(id, k)
		if c := db.connectionMap[k]; c.ID != id || c.TimeStamp < t0 || c.TimeStamp > time.Now().Unix() {
			t.Fatalf("add(%d) stored %v", id, c)
		}
		for a, b := range before {
			if a != k && db.connectionMap[a] != b {
				t.Fatalf("add changed %v", a)
			}
		}
		if !db.check(id, k) || db.check(id^1, k) || db.check(id, netip.AddrPortFrom(k.Addr(), k.Port()+1)) {
			t.Fatalf("check is wrong for %v", k)
		}
		if db.check(0, netip.AddrPortFrom(netip.AddrFrom4([4]byte{99, 9, 9, 9}), 1)) {
			t.Fatalf("check accepts an unknown address")
		}
	}
}
