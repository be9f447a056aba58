package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var farFuture = time.Now().Add(1000 * time.Hour)

// Native is a native build of the harness and the code under test.
type Native struct {
	bin string
	dir string
	mu  sync.Mutex
}

func buildNative(repo string, ov Overlay, dir string, race bool) (*Native, error) {
	rep := map[string]string{}
	i := 0
	for dst, b := range ov {
		f := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(dst)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		rep[dst] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-overlay", of, "-o", bin}
	}
	args = append(args, "./zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v: %s", err, out)
	}
	return &Native{bin: bin, dir: dir}, nil
}

// NRes is the result of one native run.
type NRes struct {
	Status string   `json:"status"` // ok assert assume panic desync hang crash
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

type nproc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func (n *Native) start(tier int) (*nproc, error) {
	cmd := exec.Command(n.bin)
	cmd.Env = append(os.Environ(), fmt.Sprintf("ZZV_TIER=%d", tier), "GORACE=halt_on_error=1 exitcode=66")
	wd := filepath.Join(n.dir, "cwd")
	os.MkdirAll(wd, 0o755)
	cmd.Dir = wd
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	var eb bytes.Buffer
	cmd.Stderr = &capWriter{b: &eb, n: 1 << 16}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &nproc{cmd, in, bufio.NewReaderSize(r, 1<<16), &eb}, nil
}

type capWriter struct {
	b *bytes.Buffer
	n int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < c.n {
		c.b.Write(p)
	}
	return len(p), nil
}

func (p *nproc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// Run executes the cases one after another.
func (n *Native) Run(cases []*Case, tier int, limit time.Duration) ([]NRes, error) {
	var out []NRes
	var p *nproc
	defer func() {
		if p != nil {
			p.kill()
		}
	}()
	for _, c := range cases {
		if p == nil {
			var err error
			if p, err = n.start(tier); err != nil {
				return nil, err
			}
		}
		b, _ := json.Marshal(c)
		p.in.Write(append(b, '\n'))
		type rd struct {
			line string
			err  error
		}
		ch := make(chan rd, 1)
		q := p
		go func() {
			l, err := q.out.ReadString('\n')
			ch <- rd{l, err}
		}()
		select {
		case r := <-ch:
			if r.err != nil {
				p.cmd.Wait()
				msg := p.err.String()
				st := "crash"
				lab := firstLine(msg)
				if strings.Contains(msg, "DATA RACE") {
					st, lab = "race", "data race"
				}
				out = append(out, NRes{Status: st, Label: lab})
				p.kill()
				p = nil
				continue
			}
			var res NRes
			if err := json.Unmarshal([]byte(r.line), &res); err != nil {
				return nil, err
			}
			out = append(out, res)
		case <-time.After(limit):
			p.kill()
			p = nil
			out = append(out, NRes{Status: "hang"})
		}
	}
	return out, nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic") || strings.Contains(l, "fatal") || strings.Contains(l, "exceeds") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
