package http

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
)

func vSeed() (*rand.Rand, bool) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(seed)), os.Getenv("VERIF_TIER") == "thorough"
}

// vConn is a connection which sends one request and records what happens to it.
type vConn struct {
	request  string
	readErr  error
	remote   string
	out      []byte
	log      []string
	closes   int
	deadline [2]bool
}

type vAddr string

func (a vAddr) Network() string { return "tcp" }
func (a vAddr) String() string  { return string(a) }

func (c *vConn) Read(b []byte) (int, error) {
	if c.closes > 0 {
		c.log = append(c.log, "read after close")
	}
	if !c.deadline[0] || !c.deadline[1] {
		c.log = append(c.log, "read before both deadlines were set")
	}
	if c.readErr != nil {
		return 0, c.readErr
	}
	return copy(b, c.request), nil
}
func (c *vConn) Write(b []byte) (int, error) {
	if c.closes > 0 {
		c.log = append(c.log, "write after close")
	}
	c.out = append(c.out, b...)
	return len(b), nil
}
func (c *vConn) Close() error {
	c.closes++
	return nil
}
func (c *vConn) LocalAddr() net.Addr  { return vAddr("127.0.0.1:1337") }
func (c *vConn) RemoteAddr() net.Addr { return vAddr(c.remote) }
func (c *vConn) SetDeadline(t time.Time) error {
	c.deadline = [2]bool{true, true}
	return nil
}
func (c *vConn) SetReadDeadline(t time.Time) error {
	c.deadline[0] = true
	if d := time.Until(t); d > config.Config.HTTP.Timeout.Read || d < config.Config.HTTP.Timeout.Read-time.Minute {
		c.log = append(c.log, "read deadline in "+d.String())
	}
	return nil
}
func (c *vConn) SetWriteDeadline(t time.Time) error {
	c.deadline[1] = true
	if d := time.Until(t); d > config.Config.HTTP.Timeout.Write || d < config.Config.HTTP.Timeout.Write-time.Minute {
		c.log = append(c.log, "write deadline in "+d.String())
	}
	return nil
}

type vListener struct {
	conns []*vConn
	next  int
	fail  map[int]bool // accepts which fail first
	log   []string
}

func (l *vListener) Accept() (net.Conn, error) {
	if l.next > 0 {
		if c := l.conns[l.next-1]; c.closes != 1 {
			l.log = append(l.log, fmt.Sprintf("connection %d (%q) was closed %d times before the next accept", l.next-1, c.request, c.closes))
		}
	}
	if l.fail[l.next] {
		delete(l.fail, l.next)
		return nil, errors.New("accept: too many open files")
	}
	if l.next == len(l.conns) {
		return nil, &net.OpError{Op: "accept", Err: net.ErrClosed}
	}
	l.next++
	return l.conns[l.next-1], nil
}
func (l *vListener) Close() error   { return nil }
func (l *vListener) Addr() net.Addr { return vAddr("127.0.0.1:1337") }

// vDB records the calls and answers with fixed lists.
type vDB struct {
	log    []string
	counts map[storage.Hash][2]int
	want   uint
}

func (d *vDB) Init(storage.Backup) error { return nil }
func (d *vDB) Check() bool               { return true }
func (d *vDB) Backup() storage.Backup    { return nil }
func (d *vDB) Trim()                     { d.log = append(d.log, "trim") }
func (d *vDB) SyncExpvars() error        { return nil }
func (d *vDB) Hashes() int               { return 0 }
func (d *vDB) Save(ip netip.Addr, port uint16, complete bool, h storage.Hash, id storage.PeerID) {
	d.log = append(d.log, fmt.Sprintf("save %v %d %v %q %q", ip, port, complete, string(h[:]), string(id[:])))
}
func (d *vDB) Drop(h storage.Hash, id storage.PeerID) {
	d.log = append(d.log, fmt.Sprintf("drop %q %q", string(h[:]), string(id[:])))
}
func (d *vDB) HashStats(h storage.Hash) (int, int) { c := d.counts[h]; return c[0], c[1] }
func (d *vDB) PeerList(h storage.Hash, n uint, noid bool) [][]byte {
	d.want = n
	return [][]byte{[]byte(fmt.Sprintf("d%v%de", noid, n)), []byte(string(h[:]))}
}
func (d *vDB) PeerListBytes(h storage.Hash, n uint) ([]byte, []byte) {
	d.want = n
	p4, p6 := pools.Peerlists4.Get(), pools.Peerlists6.Get()
	return append(p4[:0], fmt.Sprintf("four%d", n)...), append(p6[:0], fmt.Sprintf("six%d", n)...)
}

func vConfig() {
	config.Config = new(config.Configuration)
	config.Config.LogLevel = "fatal"
	config.Config.HTTP.Timeout.Read = time.Hour
	config.Config.HTTP.Timeout.Write = 2 * time.Hour
	config.Config.Announce.Base = 1000 * time.Second
	config.Config.Announce.Fuzz = 50 * time.Second
	config.Config.Numwant.Default = 30
	config.Config.Numwant.Limit = 80
	pools.Initialize(80)
}

// vServe runs one worker over the connections.
func vServe(t *testing.T, db storage.Database, cache config.EmbeddedCache, conns ...*vConn) {
	t.Helper()
	tr := &HTTPTracker{peerdb: db}
	l := &vListener{conns: conns, fail: map[int]bool{}}
	tr.workers = workers{tracker: tr, listener: l, fileCache: cache}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
			}
			close(done)
		}()
		tr.workers.work()
	}()
	cur := func() string {
		if l.next == 0 {
			return ""
		}
		return fmt.Sprintf("serving %q", conns[l.next-1].request)
	}
	select {
	case s := <-done:
		if s != "" {
			t.Fatal(cur(), s)
		}
	case <-time.After(time.Minute):
		t.Fatal(cur(), "the worker hangs")
	}
	if l.next != len(conns) {
		t.Fatalf("the worker ended after %d of %d connections", l.next, len(conns))
	}
	for i, c := range conns {
		if len(c.log) > 0 {
			t.Fatalf("connection %d (%q): %s", i, c.request, strings.Join(c.log, ", "))
		}
	}
	if len(l.log) > 0 {
		t.Fatal(l.log[0])
	}
}

const vOK = "HTTP/1.1 200\r\n\r\n"

func vStr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

func vFailure(msg string) string { return vOK + "d14:failure reason" + vStr(msg) + "e" }

// vEscape percent-encodes s for a query.
func vEscape(r *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			if r.Intn(4) > 0 {
				b.WriteByte(c)
				continue
			}
		}
		fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[r.Intn(2)], c)
	}
	return b.String()
}

func vBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	r.Read(b)
	return string(b)
}
