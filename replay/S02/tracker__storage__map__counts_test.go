package gomap

import (
	"testing"

	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifCounts(t *testing.T) {
	vRun(t, 40, 200, func(e *vEnv) error {
		if err := e.counts(); err != nil || e.r.Intn(20) > 0 {
			return err
		}
		data, err := e.db.encodeBinary()
		if err != nil {
			return err
		}
		db := new(Memory)
		if _, _, err = db.decodeBinary(data); err != nil {
			return err
		}
		return (&vEnv{db: db, hashes: e.hashes}).counts()
	})
}

func TestVerifBigSwarm(t *testing.T) {
	e := vNew(1)
	for i := 0; i < 70000; i++ {
		e.db.Save(e.ips[0], 1, i%7 == 0, e.hashes[0], storage.PeerID{byte(i), byte(i >> 8), byte(i >> 16)})
	}
	if err := e.counts(); err != nil {
		t.Fatal(err)
	}
}
