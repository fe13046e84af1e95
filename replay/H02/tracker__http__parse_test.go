package http

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

// vDecode percent-decodes once, left to right; ok is false when an escape is truncated.
func vDecode(s string) (out []byte, ok bool) {
	hex := func(c byte) byte {
		switch {
		case c >= '0' && c <= '9':
			return c - '0'
		case c >= 'a' && c <= 'f':
			return c - 'a' + 10
		case c >= 'A' && c <= 'F':
			return c - 'A' + 10
		}
		return 0
	}
	for i := 0; i < len(s); {
		if s[i] != '%' {
			out = append(out, s[i])
			i++
			continue
		}
		if i+2 >= len(s) {
			return nil, false
		}
		out = append(out, hex(s[i+1])<<4|hex(s[i+2]))
		i += 3
	}
	return out, true
}

type vParsed struct {
	path   string
	params []string
	valid  bool
}

// vExpect: what a GET request line "GET <target> HTTP/..." must parse to. The target holds no " HTTP/" and no " /".
func vExpect(target string) vParsed {
	path, query, has := strings.Cut(target, "?")
	if !has {
		return vParsed{path: path, valid: true}
	}
	r := vParsed{path: path, valid: true}
	segs := strings.Split(query, "&")
	for i, s := range segs {
		if i >= maxparams {
			return r
		}
		d, ok := vDecode(s)
		if !ok || i == len(segs)-1 && s == "" {
			return vParsed{}
		}
		r.params = append(r.params, string(d))
	}
	return r
}

func vShow(b []byte) string {
	if len(b) > 400 {
		return strconv.Quote(string(b[:400])) + "..."
	}
	return strconv.Quote(string(b))
}

// vParse parses a copy of request followed by rest in one buffer.
func vParse(t *testing.T, request, rest []byte) (p parsed, err error, buf []byte) {
	buf = append(append([]byte{}, request...), rest...)
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("parsing %s panicked: %v", vShow(request), r)
		}
	}()
	p, err = parse(buf, len(request))
	return
}

func vCheck(t *testing.T, request []byte, want vParsed, rest []byte) {
	t.Helper()
	p, err, buf := vParse(t, request, rest)
	if !want.valid {
		if err == nil {
			t.Fatalf("%s: accepted, params %q", vShow(request), p.Params[:3])
		}
		return
	}
	if err != nil {
		t.Fatalf("%s: %v", vShow(request), err)
	}
	if p.Path != want.path || p.Method != "GET" {
		t.Fatalf("%s: path %q method %q, want %q", vShow(request), p.Path, p.Method, want.path)
	}
	for i := range p.Params {
		switch {
		case i < len(want.params) && (p.Params[i] == nil || string(p.Params[i]) != want.params[i]):
			t.Fatalf("%s: parameter %d is %q (nil: %v), want %q", vShow(request), i, p.Params[i], p.Params[i] == nil, want.params[i])
		case i >= len(want.params) && p.Params[i] != nil:
			t.Fatalf("%s: parameter %d is %q, want none", vShow(request), i, p.Params[i])
		}
	}
	if !bytes.Equal(buf[len(request):], rest) {
		t.Fatalf("%s: the bytes after the request changed", vShow(request))
	}
}

func vRand() (*rand.Rand, int) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 60000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 1500000
	}
	return rand.New(rand.NewSource(seed)), n
}

func vTarget(r *rand.Rand) string {
	pieces := []string{"a", "b=c", "&", "&", "%41", "%2f", "%26", "%3F", "%zz", "%4", "%", "=", "?", "\x00", "\xff", "info_hash=", "compact=1", "+", "%25", "%2541", "/"}
	var b strings.Builder
	b.WriteString([]string{"/", "/announce", "/scrape", "/x/y"}[r.Intn(4)])
	if r.Intn(6) == 0 {
		return b.String()
	}
	b.WriteString("?")
	n := r.Intn(12)
	if r.Intn(8) == 0 {
		n = 60 + r.Intn(80)
	}
	for i := 0; i < n; i++ {
		b.WriteString(pieces[r.Intn(len(pieces))])
	}
	if r.Intn(2) == 0 {
		b.WriteByte(byte('a' + r.Intn(26)))
	}
	return b.String()
}

func TestVerifParse(t *testing.T) {
	r, n := vRand()
	for i := 0; i < n; i++ {
		target := vTarget(r)
		if i%40 == 0 { // the parameter limit
			k := 40 + r.Intn(10)
			var ps []string
			for j := 0; j < k; j++ {
				ps = append(ps, fmt.Sprintf("p%%%02x%d=%s", r.Intn(256), j, strings.Repeat("%20", r.Intn(4))))
			}
			target = "/s?" + strings.Join(ps, "&")
		}
		req := []byte("GET " + target + " HTTP/1.1\r\n\r\n")
		rest := []byte("GET /other?q=%41&z=1 HTTP/1.1\r\nX-Forwarded-For: 9.9.9.9\r\n\r\n%41%42")[:r.Intn(60)]
		vCheck(t, req, vExpect(target), rest)
		if i%20 == 0 && len(req)%3 == 0 { // no padding: the decoder is given exactly this request
			e := []byte(base64.StdEncoding.EncodeToString(req))
			vCheck(t, e, vExpect(target), rest)
		}
	}
}
