package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native is the replay program: the same harnesses compiled with the repository's real code.
type Native struct {
	bin   string
	err   error
	race  bool
	ready chan struct{}
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stde  *lockedBuf
	runs  int
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// buildNative compiles the replay program from the repository's working tree, in the background.
func buildNative(verif, repo, scratch string, race bool) *Native {
	n := &Native{ready: make(chan struct{}), race: race}
	go func() {
		defer close(n.ready)
		rep := map[string]string{}
		for dst, src := range harnessFiles(verif, repo) {
			rep[dst] = src
		}
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		name := "replay"
		args := []string{"build"}
		if race {
			name = "replayrace"
			args = append(args, "-race")
		}
		ov := filepath.Join(scratch, name+".json")
		os.WriteFile(ov, b, 0o644)
		n.bin = filepath.Join(scratch, name)
		args = append(args, "-overlay", ov, "-o", n.bin, harnessP+"/cmd")
		c := exec.Command("go", args...)
		c.Dir = repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		if o, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("%v: %s", err, o)
		}
	}()
	return n
}

type nativeRes struct {
	Failed  []string `json:"failed"`
	Skipped bool     `json:"skipped"`
	Crash   string   `json:"crash,omitempty"`
}

// run replays one concrete harness run; a crash or a run without an end is a result too.
func (n *Native) run(c *Concrete) (*nativeRes, error) {
	<-n.ready
	if n.err != nil {
		return nil, n.err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.runs++
	if n.cmd == nil {
		sh := "ulimit -v 8000000; exec \"$0\""
		if n.race {
			sh = "exec \"$0\""
		}
		n.cmd = exec.Command("sh", "-c", sh, n.bin)
		n.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
		n.in, _ = n.cmd.StdinPipe()
		o, _ := n.cmd.StdoutPipe()
		n.out = bufio.NewReaderSize(o, 1<<16)
		n.stde = &lockedBuf{}
		n.cmd.Stderr = n.stde
		if err := n.cmd.Start(); err != nil {
			n.cmd = nil
			return nil, err
		}
	}
	b, _ := json.Marshal(c)
	type rd struct {
		s   string
		err error
	}
	ch := make(chan rd, 1)
	out := n.out
	io.WriteString(n.in, string(b)+"\n")
	go func() {
		s, err := out.ReadString('\n')
		ch <- rd{s, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			var res nativeRes
			if e := json.Unmarshal([]byte(r.s), &res); e != nil {
				n.stop()
				return nil, e
			}
			return &res, nil
		}
		n.cmd.Wait()
		msg := n.stde.String()
		n.cmd = nil
		return &nativeRes{Crash: crashLine(msg)}, nil
	case <-time.After(20 * time.Second):
		n.stop()
		return &nativeRes{Crash: "no result within 20 s"}, nil
	}
}

// runFresh replays in a new process: what earlier replays left behind in memory plays no part.
func (n *Native) runFresh(c *Concrete) (*nativeRes, error) {
	<-n.ready
	n.mu.Lock()
	n.stop()
	n.mu.Unlock()
	return n.run(c)
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range []string{"panic:", "fatal error:", "runtime:", "WARNING: DATA RACE"} {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	if s == "" {
		return "the process ended"
	}
	return s
}
