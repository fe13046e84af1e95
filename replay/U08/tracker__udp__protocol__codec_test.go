package protocol

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifCodec(t *testing.T) {
	sd, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(sd) + 1))
	rounds := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds *= 20
	}
	be := binary.BigEndian
	type enc interface{ Marshall() ([]byte, error) }
	put := func(vs ...interface{}) (b []byte) {
		for _, v := range vs {
			switch v := v.(type) {
			case uint16:
				b = be.AppendUint16(b, v)
			case uint32:
				b = be.AppendUint32(b, v)
			case uint64:
				b = be.AppendUint64(b, v)
			case []byte:
				b = append(b, v...)
			}
		}
		return
	}
	same := func(what string, m enc, want []byte) {
		t.Helper()
		b, err := m.Marshall()
		if err != nil || !bytes.Equal(b, want) {
			t.Fatalf("%s %+v encodes to %x (%v), want %x", what, m, b, err, want)
		}
	}
	for n := 0; n < rounds; n++ {
		sz := []int{0, 1, 7, 8, 15, 16, 17, 19, 20, 35, 36, 97, 98, 99, 150, r.Intn(1600)}[r.Intn(16)]
		d := make([]byte, sz)
		r.Read(d)
		orig := append([]byte{}, d...)
		var a, a0 Announce
		err := a.Unmarshall(d)
		if (err != nil) != (sz < 98) {
			t.Fatalf("announce of %d bytes: %v", sz, err)
		}
		if sz >= 98 {
			a0 = Announce{int64(be.Uint64(d)), Action(be.Uint32(d[8:])), int32(be.Uint32(d[12:])), storage.Hash(*(*[20]byte)(d[16:36])), storage.PeerID(*(*[20]byte)(d[36:56])), int64(be.Uint64(d[56:])), int64(be.Uint64(d[64:])), int64(be.Uint64(d[72:])), event(be.Uint32(d[80:])), be.Uint32(d[84:]), be.Uint32(d[88:]), int32(be.Uint32(d[92:])), be.Uint16(d[96:])}
			if a != a0 {
				t.Fatalf("%x decodes to %+v, want %+v", d, a, a0)
			}
			same("announce", &a, d[:98])
		}
		var c Connect
		if err := c.Unmarshall(d); (err != nil) != (sz < 16) {
			t.Fatalf("connect of %d bytes: %v", sz, err)
		}
		var cr ConnectResp
		if err := cr.Unmarshall(d); (err != nil) != (sz < 16) {
			t.Fatalf("connect response of %d bytes: %v", sz, err)
		}
		if sz >= 16 {
			if c != (Connect{int64(be.Uint64(d)), Action(be.Uint32(d[8:])), int32(be.Uint32(d[12:]))}) {
				t.Fatalf("%x decodes to %+v", d, c)
			}
			if cr != (ConnectResp{Action(be.Uint32(d)), int32(be.Uint32(d[4:])), int64(be.Uint64(d[8:]))}) {
				t.Fatalf("%x decodes to %+v", d, cr)
			}
			same("connect", &c, d[:16])
			same("connect response", &cr, d[:16])
		}
		var s Scrape
		if err := s.Unmarshall(d); (err != nil) != (sz < 16) {
			t.Fatalf("scrape of %d bytes: %v", sz, err)
		}
		if sz >= 16 {
			if s.ConnectionID != int64(be.Uint64(d)) || s.Action != Action(be.Uint32(d[8:])) || s.TransactionID != int32(be.Uint32(d[12:])) || len(s.InfoHashes) != (sz-16)/20 {
				t.Fatalf("%x decodes to %+v", d, s)
			}
			for i, h := range s.InfoHashes {
				if !bytes.Equal(h[:], d[16+20*i:36+20*i]) {
					t.Fatalf("infohash %d of %x is %x", i, d, h)
				}
			}
		}
		var ar AnnounceResp
		if err := ar.Unmarshall(d); (err != nil) != (sz < 20) {
			t.Fatalf("announce response of %d bytes: %v", sz, err)
		}
		if sz >= 20 {
			if !reflect.DeepEqual(ar, AnnounceResp{Action(be.Uint32(d)), int32(be.Uint32(d[4:])), int32(be.Uint32(d[8:])), int32(be.Uint32(d[12:])), int32(be.Uint32(d[16:])), append([]byte{}, d[20:]...)}) {
				t.Fatalf("%x decodes to %+v", d, ar)
			}
			same("announce response", &ar, d)
		}
		var e Error
		if err := e.Unmarshall(d); (err != nil) != (sz < 8) {
			t.Fatalf("error of %d bytes: %v", sz, err)
		}
		if sz >= 8 {
			if e.Action != Action(be.Uint32(d)) || e.TransactionID != int32(be.Uint32(d[4:])) || !bytes.Equal(e.ErrorString, d[8:]) {
				t.Fatalf("%x decodes to %+v", d, e)
			}
			same("error", &e, d)
		}
		sr := ScrapeResp{Action: Action(r.Uint32()), TransactionID: int32(r.Uint32())}
		w := put(uint32(sr.Action), uint32(sr.TransactionID))
		for i := r.Intn(80); i > 0; i-- {
			in := ScrapeInfo{Complete: int32(r.Uint32()), Downloaded: int32(r.Uint32()), Incomplete: int32(r.Uint32())}
			sr.Info = append(sr.Info, in)
			w = append(w, put(uint32(in.Complete), uint32(in.Downloaded), uint32(in.Incomplete))...)
		}
		same("scrape response", &sr, w)
		if !bytes.Equal(d, orig) {
			t.Fatalf("decoding changed the datagram")
		}
	}
}
