package udp

import (
	"testing"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifDatagrams(t *testing.T) {
	e := vNew(t)
	for h := 0; h < 3; h++ {
		var k storage.Hash
		for i := range k {
			k[i] = byte(h)
		}
		e.db.c[k], e.db.i[k] = []int{0, 70000, 1 << 24}[h], []int{0, 3, 1 << 25}[h]
	}
	for n := 0; n < vRounds(4000); n++ {
		i := e.r.Intn(len(e.cl))
		config.Config.UDP.ConnDB.Validate = e.r.Intn(6) > 0
		d := e.datagram(i)
		if d[11] == 3 && n%50 != 0 {
			d[11] = 1 // no reply: slow to check
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("datagram %x from %v: panic: %v", d, e.addr[i], p)
				}
			}()
			if err := e.step(i, d); err != nil {
				t.Fatalf("datagram %x from %v (validate %v): %v", d, e.addr[i], config.Config.UDP.ConnDB.Validate, err)
			}
		}()
	}
}
