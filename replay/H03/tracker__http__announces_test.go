package http

import (
	"fmt"
	"net"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/crimist/trakx/tracker/storage"
)

func TestVerifAnnounces(t *testing.T) {
	vConfig()
	r, thorough := vSeed()
	n := 20000
	if thorough {
		n = 600000
	}
	num := func(s string) (int, bool) { v, err := strconv.Atoi(s); return v, err == nil }
	for i := 0; i < n; i++ {
		v := map[string]string{"info_hash": vBytes(r, 20), "peer_id": vBytes(r, 20), "port": strconv.Itoa(1 + r.Intn(65535))}
		odd := func(k string, vals ...string) {
			if r.Intn(12) == 0 {
				v[k] = vals[r.Intn(len(vals))]
			}
		}
		odd("info_hash", "", vBytes(r, 19), vBytes(r, 21), vBytes(r, 40))
		odd("peer_id", "", vBytes(r, 19), vBytes(r, 21))
		odd("port", "", "0", "65536", "-1", "1", "65535", "80a", "0x50", "4294967376", "99999999999999999999")
		for k := 0; k < 3; k++ {
			odd("numwant", "", "0", "1", "29", "30", "31", "79", "80", "81", "200", "-1", "x", "1e3", "18446744073709551615", "9223372036854775807")
			odd("left", "0", "1", "", "00", "-0")
			odd("event", "started", "completed", "stopped", "", "paused", "Stopped")
			odd("compact", "1", "0", "", "11")
			odd("no_peer_id", "1", "0", "")
		}
		var q []string
		for k, val := range v {
			if (val == "1") && r.Intn(4) == 0 {
				q = append(q, k) // without a value
				continue
			}
			q = append(q, k+"="+vEscape(r, val))
		}
		for k := r.Intn(4); k > 0; k-- {
			q = append(q, []string{"key=1", "ip=9.9.9.9", "uploaded=5", "downloaded=0", "corrupt=0", "Event=stopped", "lefts=0", "xinfo_hash=a"}[r.Intn(8)])
		}
		r.Shuffle(len(q), func(a, b int) { q[a], q[b] = q[b], q[a] })
		host := []string{"1.2.3.4", "255.0.0.1", "2001:db8::5", "::ffff:1.2.3.4"}[r.Intn(4)]
		db := &vDB{counts: map[storage.Hash][2]int{}}
		var h storage.Hash
		copy(h[:], v["info_hash"])
		cs := [2]int{r.Intn(100000), r.Intn(5)}
		db.counts[h] = cs
		c := &vConn{request: "GET /announce?" + strings.Join(q, "&") + " HTTP/1.1\r\nHost: x\r\n\r\n", remote: net.JoinHostPort(host, "6881")}
		vServe(t, db, nil, c)

		port, portOK := num(v["port"])
		want, wantOK := num(v["numwant"])
		if v["numwant"] == "" {
			want, wantOK = 30, true
		}
		fail, calls := "", []string(nil)
		switch {
		case len(v["info_hash"]) != 20:
			fail = "Invalid infohash"
		case len(v["peer_id"]) != 20:
			fail = "Invalid peerid"
		case v["event"] == "stopped":
			calls = []string{fmt.Sprintf("drop %q %q", v["info_hash"], v["peer_id"])}
		case !portOK || port < 1 || port > 65535:
			fail = "Invalid port"
		case !wantOK || want < 0:
			fail = "Invalid numwant"
		default:
			if want > 80 {
				want = 80
			}
			calls = []string{fmt.Sprintf("save %v %d %v %q %q", netip.MustParseAddr(host), port, v["event"] == "completed" || v["left"] == "0", v["info_hash"], v["peer_id"])}
		}
		if !reflect.DeepEqual(db.log, calls) {
			t.Fatalf("%q from %s: database calls %q, want %q", c.request, host, db.log, calls)
		}
		out := string(c.out)
		switch {
		case fail != "":
			if out != vFailure(fail) && !strings.HasPrefix(out, vOK+"d14:failure reason") {
				t.Fatalf("%q: %q, want failure %q", c.request, out, fail)
			}
		case strings.HasPrefix(calls[0], "drop"):
			if out != vOK {
				t.Fatalf("%q: %q", c.request, out)
			}
		default:
			ok := false
			for iv := 1000; iv < 1050; iv++ {
				head := fmt.Sprintf("%sd8:intervali%de8:completei%de10:incompletei%de", vOK, iv, cs[0], cs[1])
				list := "5:peers" + vStr(fmt.Sprintf("four%d", want)) + "6:peers6" + vStr(fmt.Sprintf("six%d", want)) + "e"
				if v["compact"] != "1" {
					list = "5:peersl" + vStr(fmt.Sprintf("d%v%de", v["no_peer_id"] == "1", want)) + vStr(v["info_hash"]) + "ee"
				}
				ok = ok || out == head+list
			}
			if !ok {
				t.Fatalf("%q: answered %q (numwant %d)", c.request, out, want)
			}
		}
	}
}
