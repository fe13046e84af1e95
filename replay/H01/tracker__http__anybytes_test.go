package http

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
)

type vRes struct {
	err    string
	path   string
	method string
	params [][]byte
}

func vRun(t *testing.T, req, rest []byte) (res vRes) {
	buf := append(append(make([]byte, 0, len(req)+len(rest)), req...), rest...)
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("request %q followed by %q: panic %v", req, rest, r)
		}
	}()
	p, err := parse(buf, len(req))
	if !bytes.Equal(buf[len(req):], rest) {
		t.Fatalf("request %q: the bytes after it were changed", req)
	}
	if err != nil {
		return vRes{err: fmt.Sprint(err)}
	}
	res = vRes{path: string([]byte(p.Path)), method: string([]byte(p.Method))}
	for _, x := range p.Params {
		if x == nil {
			res.params = append(res.params, nil)
			continue
		}
		res.params = append(res.params, append([]byte("="), x...))
	}
	return
}

// any bytes: no panic, and the result does not depend on what else the buffer holds
func TestVerifAnyBytes(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 200000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 5000000
	}
	r := rand.New(rand.NewSource(seed))
	pieces := []string{"GET /", "GET ", " /", "/", "?", "&", " HTTP/", " HTTP/1.1\r\n", "%", "%4", "%41", "R0VU", "R0VUIC8=", "R0VUIC9hP2I9YyBIVFRQLzEuMQ==", "a", "=", "\x00", "\xff", "POST /", "\r\n\r\n", "HTTP/", " "}
	gen := func(max int) (b []byte) {
		for k := r.Intn(max); k > 0; k-- {
			if r.Intn(8) == 0 {
				b = append(b, byte(r.Intn(256)))
			} else {
				b = append(b, pieces[r.Intn(len(pieces))]...)
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		var req []byte
		if r.Intn(3) == 0 {
			req = append([]byte("GET /"), gen(12)...)
			req = append(req, " HTTP/1.1"[:r.Intn(10)]...)
		} else {
			req = gen(10)
		}
		if r.Intn(50) == 0 {
			for k := 0; k < 46; k++ {
				req = append(append(req, '&'), gen(2)...)
			}
			req = append(req, " HTTP/1.1"...)
		}
		rest := append([]byte(" HTTP/1.1\r\nR0VU"), gen(10)...)
		one, two := vRun(t, req, nil), vRun(t, req, rest)
		if !reflect.DeepEqual(one, two) {
			t.Fatalf("request %q: %+v alone, %+v when the buffer also holds %q", req, one, two, rest)
		}
	}
}
