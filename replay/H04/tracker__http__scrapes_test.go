package http

import (
	"fmt"
	"strings"
	"testing"

	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifScrapes(t *testing.T) {
	vConfig()
	r, thorough := vSeed()
	n := 10000
	if thorough {
		n = 300000
	}
	for i := 0; i < n; i++ {
		db := &vDB{counts: map[storage.Hash][2]int{}}
		var q []string
		body, bad, count := "", false, 0
		k := r.Intn(5)
		if r.Intn(10) == 0 {
			k = 35 + r.Intn(10)
		}
		size := 0
		for j := 0; j < k; j++ {
			if r.Intn(6) == 0 {
				q = append(q, []string{"x=1", "info_hash", "Info_hash=", "nfo_hash=aaaaaaaaaaaaaaaaaaaa", "peer_id=aaaaaaaaaaaaaaaaaaaa"}[r.Intn(5)])
				continue
			}
			h := vBytes(r, 20)
			if r.Intn(30) == 0 {
				h = vBytes(r, []int{0, 1, 19, 21, 40}[r.Intn(5)])
			}
			if count > 0 && r.Intn(10) == 0 && !bad {
				h = strings.Repeat("z", 20)
			}
			e := "info_hash=" + vEscape(r, h)
			if size+len(e) > 2200 {
				break
			}
			size += len(e) + 1
			q = append(q, e)
			count++
			bad = bad || len(h) != 20
			var key storage.Hash
			copy(key[:], h)
			if _, ok := db.counts[key]; !ok {
				db.counts[key] = [2]int{r.Intn(1 << 20), r.Intn(100)}
			}
			body += vStr(h) + fmt.Sprintf("d8:completei%de10:incompletei%dee", db.counts[key][0], db.counts[key][1])
		}
		target := "/scrape"
		if len(q) > 0 {
			target += "?" + strings.Join(q, "&")
		}
		c := &vConn{request: "GET " + target + " HTTP/1.1\r\n\r\n", remote: "1.2.3.4:5"}
		vServe(t, db, nil, c)
		if len(db.log) > 0 {
			t.Fatalf("%q changed the database: %q", c.request, db.log)
		}
		out := string(c.out)
		switch {
		case count == 0 || bad:
			if !strings.HasPrefix(out, vOK+"d14:failure reason") {
				t.Fatalf("%q: %q, want a failure reason", c.request, out)
			}
		case out != vOK+"d5:filesd"+body+"ee":
			t.Fatalf("%q: answered\n%q, want\n%q", c.request, out, vOK+"d5:filesd"+body+"ee")
		}
	}
}
