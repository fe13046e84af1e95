package http

import (
	"fmt"
	"net/netip"
	"reflect"
	"strings"
	"testing"
)

// vLast: the right-most entry of the header, or none.
func vLast(req string) (ip string, header, ended bool) {
	i := strings.Index(req, "X-Forwarded-For: ")
	if i < 0 {
		return "", false, false
	}
	v := req[i+len("X-Forwarded-For: "):]
	j := strings.Index(v, "\r\n")
	if j < 0 {
		return "", true, false
	}
	items := strings.Split(v[:j], ",")
	return strings.TrimSpace(items[len(items)-1]), true, true
}

func TestVerifForwarded(t *testing.T) {
	vConfig()
	r, thorough := vSeed()
	n := 20000
	if thorough {
		n = 500000
	}
	items := []string{"1.2.3.4", "2001:db8::7", " 9.9.9.9", "8.8.8.8 ", "", " ", "x", "1.2.3", "unknown", "\t4.4.4.4", "1.2.3.4:80", "fe80::1%eth0", "255.255.255.255"}
	for i := 0; i < n; i++ {
		var xs []string
		for k := r.Intn(4); k >= 0; k-- {
			xs = append(xs, items[r.Intn(len(items))])
		}
		head := []string{"X-Forwarded-For: ", "X-Forwarded-For: ", "X-Forwarded-For: ", "X-Forwarded-For:", "X-Real-Ip: "}[r.Intn(5)] + strings.Join(xs, []string{",", ", "}[r.Intn(2)])
		end := "\r\nAccept: a, b\r\n\r\n"
		if r.Intn(8) == 0 {
			end = []string{"", "\r", "\n\n", "\r\n"}[r.Intn(4)]
		}
		req := "GET /announce?info_hash=aaaaaaaaaaaaaaaaaaaa&peer_id=bbbbbbbbbbbbbbbbbbbb&port=5 HTTP/1.1\r\nHost: x, y\r\n" + head + end
		db := &vDB{}
		// the request before it leaves a header in the worker's buffer
		before := &vConn{request: "GET /heartbeat HTTP/1.1\r\n" + strings.Repeat("X-Forwarded-For: 6.6.6.6, 7.7.7.7\r\n", 10+r.Intn(20)), remote: "3.3.3.3:3"}
		c := &vConn{request: req, remote: "5.5.5.5:55"}
		vServe(t, db, nil, before, c)
		ip, header, ended := vLast(req)
		if !header {
			ip = "5.5.5.5"
		}
		a, err := netip.ParseAddr(ip)
		var want []string
		if !header || ended && err == nil {
			want = []string{fmt.Sprintf("save %v 5 false %q %q", a, "aaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbb")}
		} else if !strings.HasPrefix(string(c.out), vOK+"d14:failure reason") {
			t.Fatalf("%q: answered %q", req, c.out)
		}
		if !reflect.DeepEqual(db.log, want) {
			t.Fatalf("%q: stored %q, want %q", req, db.log, want)
		}
	}
}

func TestVerifForwardedBytes(t *testing.T) {
	r, thorough := vSeed()
	n := 100000
	if thorough {
		n = 3000000
	}
	pieces := []string{"X-Forwarded-For: ", "X-Forwarded-For:", "\r\n", "\r", "\n", ",", ", ", " ", "\t", "1.1.1.1", "a", "\x00", "\x85", "\xff"}
	for i := 0; i < n; i++ {
		var b strings.Builder
		for k := r.Intn(9); k > 0; k-- {
			b.WriteString(pieces[r.Intn(len(pieces))])
		}
		req := b.String()
		fw, got := parseForwarded([]byte(req))
		ip, header, ended := vLast(req)
		if fw != header || string(got) != ip || !ended && got != nil {
			t.Fatalf("%q: %v %q, want %v %q", req, fw, got, header, ip)
		}
	}
}
