package udp

import (
	"net/netip"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"syscall"
	"testing"
	"time"

	"github.com/crimist/trakx/config"
)

func vSaved(n int) *connectionDatabase {
	config.Config = new(config.Configuration)
	config.Config.LogLevel = "fatal"
	db := newConnectionDatabase(time.Hour)
	for i := 0; i < n; i++ {
		db.connectionMap[netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, byte(i >> 8), byte(i)}), 9)] = connectionInfo{int64(i), 7}
	}
	return db
}

func TestVerifTableSave(t *testing.T) {
	if d := os.Getenv("VERIF_LIMITED"); d != "" {
		signal.Ignore(syscall.SIGXFSZ)
		if vSaved(8000).writeToFile(filepath.Join(d, "conn.db")) == nil {
			t.Fatal("a write beyond the file size limit reported success")
		}
		return
	}
	d := t.TempDir()
	old := vSaved(10)
	if err := old.writeToFile(filepath.Join(d, "conn.db")); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("/bin/sh", "-c", "ulimit -f 8; exec \"$0\" -test.run '^TestVerifTableSave$'", os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_LIMITED="+d)
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("limited save: %v\n%s", err, out)
	}
	db := vSaved(0)
	if err := db.loadFromFile(filepath.Join(d, "conn.db")); err != nil || !reflect.DeepEqual(db.connectionMap, old.connectionMap) {
		t.Fatalf("after a failed save: %v, %d entries", err, db.size())
	}
	// while saving, a reader always sees a complete table
	big, stop, bad := vSaved(20000), make(chan bool), make(chan string, 1)
	big.writeToFile(filepath.Join(d, "conn.db"))
	go func() {
		defer close(bad)
		for {
			select {
			case <-stop:
				return
			default:
			}
			x := vSavedEmpty()
			if err := x.loadFromFile(filepath.Join(d, "conn.db")); err != nil || x.size() != 20000 {
				bad <- "a reader saw an incomplete table during a save"
				return
			}
		}
	}()
	for i := 0; i < 15; i++ {
		if err := big.writeToFile(filepath.Join(d, "conn.db")); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	if m := <-bad; m != "" {
		t.Fatal(m)
	}
}

func vSavedEmpty() *connectionDatabase { return &connectionDatabase{} }
