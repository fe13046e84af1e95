package gomap

import (
	"fmt"
	"testing"

	"github.com/crimist/trakx/tracker/storage"
)

// vParse reads the documented layout.
func vParse(b []byte) (m vModel, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("layout: %v", p)
		}
	}()
	take := func(n int) []byte {
		x := b[:n]
		b = b[n:]
		return x
	}
	le := func(n int) (v uint64) {
		for i, c := range take(n) {
			v |= uint64(c) << (8 * i)
		}
		return
	}
	m = vModel{}
	for len(b) > 0 {
		var h storage.Hash
		copy(h[:], take(20))
		if m[h] != nil {
			return nil, fmt.Errorf("swarm %x twice", h)
		}
		m[h] = map[storage.PeerID]storage.Peer{}
		for n := le(4); n > 0; n-- {
			var id storage.PeerID
			copy(id[:], take(20))
			if _, ok := m[h][id]; ok {
				return nil, fmt.Errorf("peer %x twice", id)
			}
			var p storage.Peer
			p.Complete = take(1)[0] != 0
			if err := p.IP.UnmarshalBinary(take(int(le(4)))); err != nil {
				return nil, err
			}
			p.Port = uint16(le(2))
			p.LastSeen = int64(le(8))
			m[h][id] = p
		}
	}
	return m, nil
}

func TestVerifRoundTrip(t *testing.T) {
	k := 0
	vRun(t, 30, 150, func(e *vEnv) error {
		if k++; k%7 > 0 {
			return nil
		}
		data, err := e.db.encodeBinary()
		if err != nil {
			return err
		}
		m, err := vParse(data)
		if err != nil {
			return fmt.Errorf("%v in %x", err, data)
		}
		if len(m) != len(e.db.hashmap) {
			return fmt.Errorf("%d swarms encoded, %d stored", len(m), len(e.db.hashmap))
		}
		if err := vSame(e.db, m); err != nil {
			return fmt.Errorf("encoded form: %v", err)
		}
		for _, in := range [][]byte{data, vEncode(m)} {
			db := new(Memory)
			np, nh, err := db.decodeBinary(in)
			if err != nil {
				return err
			}
			n := 0
			for _, s := range m {
				n += len(s)
			}
			if len(db.hashmap) != len(m) || np != n || nh != len(m) {
				return fmt.Errorf("%d swarms decoded, reported %d peers %d swarms, encoded %d and %d", len(db.hashmap), np, nh, n, len(m))
			}
			if err := vSame(db, m); err != nil {
				return fmt.Errorf("decoded: %v", err)
			}
			if err := (&vEnv{db: db, hashes: e.hashes}).counts(); err != nil {
				return err
			}
		}
		return nil
	})
}
