package gomap

import (
	"testing"

	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifStats(t *testing.T) {
	vRun(t, 40, 200, (*vEnv).stats)
}

func TestVerifStatsBigSwarm(t *testing.T) {
	e := vNew(1)
	id := func(i int) storage.PeerID { return storage.PeerID{byte(i), byte(i >> 8), byte(i >> 16)} }
	for i := 0; i < 70000; i++ {
		e.db.Save(e.ips[0], 1, i%7 == 0, e.hashes[0], id(i))
	}
	for i := 0; i < 69999; i++ {
		e.db.Drop(e.hashes[0], id(i))
	}
	if err := e.stats(); err != nil {
		t.Fatal(err)
	}
	e.db.Drop(e.hashes[0], id(69999))
	if err := e.stats(); err != nil {
		t.Fatal(err)
	}
}

func TestVerifStartup(t *testing.T) {
	e := vNew(1)
	for i := 0; i < 200; i++ {
		if err := e.step(); err != nil {
			t.Fatal(err)
		}
	}
	for a := range vLastIPs {
		stats.IPStats.Delete(a)
	}
	if err := e.db.SyncExpvars(); err != nil {
		t.Fatal(err)
	}
	if err := e.stats(); err != nil {
		t.Fatal(err)
	}
	if err := new(Memory).SyncExpvars(); err == nil {
		t.Fatal("no error for a database that is not loaded")
	}
}
