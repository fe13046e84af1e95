package http

import (
	"errors"
	"net"
	"strings"
	"testing"

	"github.com/crimist/trakx/config"
)

func TestVerifWorker(t *testing.T) {
	vConfig()
	r, thorough := vSeed()
	n := 3000
	if thorough {
		n = 100000
	}
	cache := config.EmbeddedCache{"/": "index", "/index.html": "index", "/dmca.html": "dmca"}
	good := "info_hash=aaaaaaaaaaaaaaaaaaaa&peer_id=bbbbbbbbbbbbbbbbbbbb&port=5"
	kinds := []struct {
		req  string
		want string
	}{
		{"GET /announce?" + good + " HTTP/1.1\r\n\r\n", vOK + "d8:interval"},
		{"GET /announce?info_hash=a HTTP/1.1\r\n\r\n", vOK + "d14:failure reason"},
		{"GET /announce HTTP/1.1\r\n\r\n", vOK + "d14:failure reason"},
		{"GET /announce?" + good + "&event=stopped HTTP/1.1\r\n\r\n", "=" + vOK},
		{"GET /scrape?info_hash=aaaaaaaaaaaaaaaaaaaa HTTP/1.1\r\n\r\n", vOK + "d5:filesd"},
		{"GET /scrape?info_hash=a HTTP/1.1\r\n\r\n", vOK + "d14:failure reason"},
		{"GET /scrape HTTP/1.1\r\n\r\n", vOK + "d14:failure reason"},
		{"GET /heartbeat HTTP/1.1\r\n\r\n", "=HTTP/1.1 200\r\n\r\n"},
		{"GET /stats HTTP/1.1\r\n\r\n", "HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n{"},
		{"GET / HTTP/1.1\r\n\r\n", "=" + vOK + "index"},
		{"GET /index.html?a=1 HTTP/1.1\r\n\r\n", "=" + vOK + "index"},
		{"GET /dmca.html HTTP/1.1\r\n\r\n", "=" + vOK + "dmca"},
		{"GET /trakx.yaml HTTP/1.1\r\n\r\n", "=HTTP/1.1 404\r\n\r\n"},
		{"GET /announce/ HTTP/1.1\r\n\r\n", "=HTTP/1.1 404\r\n\r\n"},
		{"GET /Announce?" + good + " HTTP/1.1\r\n\r\n", "=HTTP/1.1 404\r\n\r\n"},
		{"POST /announce HTTP/1.1\r\n\r\n", "=HTTP/1.1 400\r\n\r\n"},
		{"HEAD / HTTP/1.1\r\n\r\n", "=HTTP/1.1 400\r\n\r\n"},
		{"GET /announce?a=% HTTP/1.1\r\n\r\n", "=HTTP/1.1 400\r\n\r\n"},
		{"GET /announce?a=1", "=HTTP/1.1 400\r\n\r\n"},
		{"", "=HTTP/1.1 400\r\n\r\n"},
		{"R0VU!!!!", "=HTTP/1.1 400\r\n\r\n"},
		{strings.Repeat("x", 5000), "=HTTP/1.1 400\r\n\r\n"},
	}
	var conns []*vConn
	var want []string
	for i := 0; i < n; i++ {
		k := kinds[r.Intn(len(kinds))]
		c := &vConn{request: k.req, remote: net.JoinHostPort([]string{"1.2.3.4", "2001:db8::1"}[r.Intn(2)], "80")}
		w := k.want
		if r.Intn(10) == 0 {
			c.readErr = errors.New("i/o timeout")
			w = "="
		} else if strings.HasPrefix(k.req, "GET /announce?info_hash=aaa") && r.Intn(6) == 0 {
			c.remote = "pipe"
			w = vOK + "d14:failure reason"
		}
		conns, want = append(conns, c), append(want, w)
	}
	vServe(t, &vDB{}, cache, conns...)
	for i, c := range conns {
		out := string(c.out)
		if w := want[i]; strings.HasPrefix(w, "=") && out != w[1:] || !strings.HasPrefix(w, "=") && !strings.HasPrefix(out, w) || c.closes != 1 {
			t.Fatalf("request %q from %s: answered %q, closed %d times; want %q", c.request, c.remote, out, c.closes, w)
		}
	}
}
