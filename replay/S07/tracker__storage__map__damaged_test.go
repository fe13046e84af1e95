package gomap

import (
	"fmt"
	"testing"
)

func vLoad(data []byte, truncated bool) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("decoding %x: panic: %v", data, p)
		}
	}()
	db := new(Memory)
	_, _, err = db.decodeBinary(data)
	if err != nil {
		return nil
	}
	if truncated {
		return fmt.Errorf("decoding %x: truncated data accepted", data)
	}
	for h, pm := range db.hashmap {
		c := 0
		for id, p := range pm.Peers {
			if p == nil || !p.IP.IsValid() {
				return fmt.Errorf("decoding %x: peer %x is %v", data, id, p)
			}
			if p.Complete {
				c++
			}
		}
		if pm.Complete != c || pm.Incomplete != len(pm.Peers)-c {
			return fmt.Errorf("decoding %x: swarm %x counts %d/%d, %d/%d stored", data, h, pm.Complete, pm.Incomplete, c, len(pm.Peers)-c)
		}
	}
	return nil
}

func TestVerifDamaged(t *testing.T) {
	n := 0
	vRun(t, 10, 100, func(e *vEnv) error {
		if n++; n%12 > 0 {
			return nil
		}
		data, err := e.db.encodeBinary()
		if err != nil {
			return err
		}
		if len(data) == 0 {
			return vLoad(data, false)
		}
		// every truncation inside the last swarm's records is an error
		ends := map[int]bool{0: true}
		for pos := 0; pos < len(data); {
			k := int(data[pos+20]) | int(data[pos+21])<<8
			pos += 24
			for ; k > 0; k-- {
				pos += 20 + 1 + 4 + int(data[pos+21]) + 2 + 8
			}
			ends[pos] = true
		}
		for i := 0; i < 4; i++ {
			k := e.r.Intn(len(data))
			if err := vLoad(data[:k:k], !ends[k]); err != nil {
				return err
			}
			d := append([]byte{}, data...)
			for j := e.r.Intn(4); j >= 0; j-- {
				d[e.r.Intn(len(d))] = []byte{0, 1, 2, 3, 4, 5, 16, 17, 0x7f, 0x80, 0xff}[e.r.Intn(11)]
			}
			if err := vLoad(d, false); err != nil {
				return err
			}
			// a peer or swarm repeated
			d = append(append([]byte{}, data...), data...)
			if err := vLoad(d, false); err != nil {
				return err
			}
		}
		// every swarm with each of its peers repeated
		for h, s := range e.m {
			if e.r.Intn(4) > 0 {
				continue
			}
			for id := range s {
				rec := vEncode(vModel{h: {id: s[id]}})
				d := append(append([]byte{}, rec...), rec[24:]...)
				d[20] = 2
				if err := vLoad(d, false); err != nil {
					return err
				}
			}
		}
		return nil
	})
}
