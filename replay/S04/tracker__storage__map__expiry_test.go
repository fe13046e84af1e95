package gomap

import (
	"testing"
	"time"
)

func TestVerifExpiry(t *testing.T) {
	vRun(t, 40, 200, func(e *vEnv) error {
		if e.r.Intn(6) == 0 {
			for h, s := range e.m {
				for i, p := range s {
					p.LastSeen = time.Now().Unix() - []int64{0, e.expiry - 3, e.expiry + 1, e.expiry * 3}[e.r.Intn(4)]
					s[i] = p
					e.db.hashmap[h].Peers[i].LastSeen = p.LastSeen
				}
			}
			if err := e.trim(); err != nil {
				return err
			}
			return e.contents()
		}
		return nil
	})
}
