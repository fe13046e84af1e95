package utils

import (
	"bytes"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"testing"
)

func TestVerifAtomicWrite(t *testing.T) {
	if d := os.Getenv("VERIF_LIMITED"); d != "" {
		signal.Ignore(syscall.SIGXFSZ)
		p := filepath.Join(d, "f")
		err := WriteFileAtomic(p, bytes.Repeat([]byte("n"), 100000), 0644)
		if err == nil {
			t.Fatal("a write beyond the file size limit reported success")
		}
		return
	}
	dir := t.TempDir()
	p := filepath.Join(dir, "f")
	a, b := bytes.Repeat([]byte("a"), 1<<20), bytes.Repeat([]byte("b"), 2<<20)
	if err := WriteFileAtomic(p, a, 0644); err != nil {
		t.Fatal(err)
	}
	var stop, bad atomic.Int64
	var what atomic.Value
	done := make(chan bool)
	go func() {
		defer close(done)
		for stop.Load() == 0 {
			x, err := os.ReadFile(p)
			if err != nil {
				bad.Add(1)
				what.Store(err.Error())
			} else if !bytes.Equal(x, a) && !bytes.Equal(x, b) {
				bad.Add(1)
				what.Store("partial contents")
			}
		}
	}()
	for i := 0; i < 40; i++ {
		w := a
		if i%2 == 0 {
			w = b
		}
		if err := WriteFileAtomic(p, w, 0644); err != nil {
			t.Fatal(err)
		}
		if x, _ := os.ReadFile(p); !bytes.Equal(x, w) {
			t.Fatal("wrong contents after a save")
		}
	}
	stop.Store(1)
	<-done
	if bad.Load() > 0 {
		t.Fatalf("the path was seen without complete contents during a save: %v", what.Load())
	}
	es, _ := os.ReadDir(dir)
	if len(es) != 1 {
		t.Fatalf("files left behind: %v", es)
	}
	// a failed write
	old, _ := os.ReadFile(p)
	cmd := exec.Command("/bin/sh", "-c", "ulimit -f 8; exec \"$0\" -test.run '^TestVerifAtomicWrite$'", os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_LIMITED="+dir)
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("limited save: %v\n%s", err, out)
	}
	if x, _ := os.ReadFile(p); !bytes.Equal(x, old) {
		t.Fatalf("a failed save changed the file (%d -> %d bytes)", len(old), len(x))
	}
	// a target that cannot be replaced
	os.MkdirAll(filepath.Join(dir, "d", "x"), 0755)
	if err := WriteFileAtomic(filepath.Join(dir, "d"), a, 0644); err == nil {
		t.Fatal("replacing a directory reported success")
	}
	if err := WriteFileAtomic(filepath.Join(dir, "none", "f"), a, 0644); err == nil {
		t.Fatal("saving into a missing directory reported success")
	}
	if es, _ := os.ReadDir(dir); len(es) != 2 {
		t.Fatalf("files left behind: %v", es)
	}
}
