package controller

import (
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"testing"
	"time"
)

func vPid(t *testing.T, content string) *ProcessIDFile {
	p := filepath.Join(t.TempDir(), "trakx.pid")
	if err := os.WriteFile(p, []byte(content), 0600); err != nil {
		t.Fatal(err)
	}
	return NewProcessIDFile(p)
}

func TestVerifPidFile(t *testing.T) {
	ids := []int{0, 1, -1, 7, 32768, 65535, 4194304, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
	for i := 0; i < 200; i++ {
		ids = append(ids, int(rand.Int63()>>uint(rand.Intn(63))))
	}
	f := vPid(t, "")
	for _, id := range ids {
		if err := f.Write(id); err != nil {
			t.Fatal(err)
		}
		if got, err := f.Read(); err != nil || got != id {
			t.Fatalf("wrote %d, read %d, %v", id, got, err)
		}
		if p, err := f.Process(); err != nil || p == nil || p.Pid != id {
			t.Fatalf("wrote %d, process %v, %v", id, p, err)
		}
	}
	for _, bad := range []string{"x", "12x", " 12", "12\n", "0x10", "1.5", "99999999999999999999", "-", "+"} {
		f := vPid(t, bad)
		if got, err := f.Read(); err != ErrParseFailed || got != ProcessIDFailed {
			t.Fatalf("content %q: %d, %v", bad, got, err)
		}
		if p, err := f.Process(); err != ErrParseFailed || p != nil {
			t.Fatalf("content %q: process %v, %v", bad, p, err)
		}
	}
	f = vPid(t, "123456")
	if err := f.Clear(); err != nil {
		t.Fatal(err)
	}
	if got, err := f.Read(); err != ErrFileEmpty || got != ProcessIDFailed {
		t.Fatalf("after clearing: %d, %v", got, err)
	}
	if got, err := NewProcessIDFile(filepath.Join(t.TempDir(), "none")).Read(); err == nil || got != ProcessIDFailed {
		t.Fatalf("missing file: %d, %v", got, err)
	}
}

// starts a child running the shell script and reaps it; done is closed when it is gone
func vChild(t *testing.T, script string) (pid int, done chan *os.ProcessState) {
	cmd := exec.Command("/bin/sh", "-c", script)
	out, err := cmd.StdoutPipe()
	if err != nil {
		t.Fatal(err)
	}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, 1)
	out.Read(buf) // the script has set its traps
	done = make(chan *os.ProcessState, 1)
	go func() { cmd.Wait(); done <- cmd.ProcessState }()
	t.Cleanup(func() { cmd.Process.Kill() })
	return cmd.Process.Pid, done
}

func vStop(t *testing.T, content string) (*ProcessIDFile, error, time.Duration) {
	f := vPid(t, content)
	c := &Controller{processIDFile: f}
	res := make(chan error, 1)
	start := time.Now()
	go func() { res <- c.Stop() }()
	select {
	case err := <-res:
		return f, err, time.Since(start)
	case <-time.After(25 * time.Second):
		t.Fatal("stopping did not end within 25 s")
	}
	return nil, nil, 0
}

func vContent(f *ProcessIDFile) string { b, _ := os.ReadFile(f.path); return string(b) }

func TestVerifStop(t *testing.T) {
	t.Run("ends", func(t *testing.T) {
		t.Parallel()
		pid, done := vChild(t, "echo; exec sleep 60")
		f, err, _ := vStop(t, strconv.Itoa(pid))
		if err != nil || vContent(f) != "" {
			t.Fatalf("%v, file %q", err, vContent(f))
		}
		select {
		case st := <-done:
			if ws := st.Sys().(syscall.WaitStatus); !ws.Signaled() || ws.Signal() != syscall.SIGINT {
				t.Fatal("ended by", st)
			}
		default:
			t.Fatal("success reported while the process is alive")
		}
	})
	t.Run("slow", func(t *testing.T) {
		t.Parallel()
		pid, done := vChild(t, "trap 'sleep 5; exit 0' INT; echo; while :; do sleep 0.1; done")
		f, err, d := vStop(t, strconv.Itoa(pid))
		if err != nil || vContent(f) != "" || d < 4*time.Second {
			t.Fatalf("%v after %v, file %q", err, d, vContent(f))
		}
		if len(done) == 0 {
			t.Fatal("success reported while the process is alive")
		}
	})
	t.Run("stuck", func(t *testing.T) {
		t.Parallel()
		pid, done := vChild(t, "trap '' INT; echo; exec sleep 60")
		f, err, d := vStop(t, strconv.Itoa(pid))
		if err == nil || vContent(f) != strconv.Itoa(pid) || d < 8*time.Second || d > 20*time.Second {
			t.Fatalf("%v after %v, file %q", err, d, vContent(f))
		}
		if len(done) != 0 {
			t.Fatal("the process is gone")
		}
	})
	t.Run("none", func(t *testing.T) {
		t.Parallel()
		pid, done := vChild(t, "echo; exit 0")
		<-done
		f, err, _ := vStop(t, strconv.Itoa(pid))
		if err == nil || vContent(f) != strconv.Itoa(pid) {
			t.Fatalf("%v, file %q", err, vContent(f))
		}
	})
	t.Run("unreadable", func(t *testing.T) {
		t.Parallel()
		for _, s := range []string{"", "12x"} {
			if f, err, _ := vStop(t, s); err == nil || vContent(f) != s {
				t.Fatalf("%q: %v, file %q", s, err, vContent(f))
			}
		}
	})
}
