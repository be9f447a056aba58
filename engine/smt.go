package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Solver is one long-lived SMT process.
type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
	args []string
}

type SolverStats struct {
	queries, sat, unsat, unknown, cacheHits int64
	nanos                                   int64
	folded                                  int64
}

var stats SolverStats

var solverCmd = []string{"z3-new", "-in", "-smt2"}

func newSolver(argv []string) (*Solver, error) {
	s := &Solver{name: argv[0], args: argv}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.name, "z3") {
		io.WriteString(s.in, "(set-option :print-success false)\n(set-option :timeout 30000)\n")
	} else {
		io.WriteString(s.in, "(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// check asserts the conjunction of cs; with model values for want when sat.
func (s *Solver) check(cs []*Term, want []int32) (Result, map[int32]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.queries, 1)
	txt, p := smtText(cs)
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(txt)
	sb.WriteString("(check-sat)\n")
	io.WriteString(s.in, sb.String())
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.close()
		s.start()
		atomic.AddInt64(&stats.unknown, 1)
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		atomic.AddInt64(&stats.unsat, 1)
		io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		atomic.AddInt64(&stats.sat, 1)
		m := map[int32]uint64{}
		if want != nil {
			var names []string
			var ids []int32
			for _, id := range want {
				if p.vars[id] {
					names = append(names, varInfo(id).name)
					ids = append(ids, id)
				}
			}
			if len(names) > 0 {
				io.WriteString(s.in, "(get-value ("+strings.Join(names, " ")+"))\n")
				resp := s.readSexpr()
				s.out.ReadString('\n')
				vals := parseValues(resp)
				for i, id := range ids {
					m[id] = vals[names[i]]
				}
			}
		}
		io.WriteString(s.in, "(pop 1)\n")
		return Sat, m
	}
	// unknown or (error ...): inconclusive; restart the process to resynchronise
	solverErrs.Store(line, true)
	s.close()
	s.start()
	atomic.AddInt64(&stats.unknown, 1)
	return Unknown, nil
}

var solverErrs sync.Map

func smtText(cs []*Term) (string, *smtPrinter) {
	var sb strings.Builder
	p := &smtPrinter{sb: &sb, done: map[*Term]string{}, vars: map[int32]bool{}, pfx: "t"}
	for _, c := range cs {
		r := p.ref(c)
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	return sb.String(), p
}

func (s *Solver) readSexpr() string {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}

func parseValues(s string) map[string]uint64 {
	out := map[string]uint64{}
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	f := strings.Fields(s)
	for i := 0; i < len(f); i++ {
		if f[i] == "(" && i+2 < len(f) && f[i+1] != "(" {
			name := f[i+1]
			v := f[i+2]
			switch {
			case strings.HasPrefix(v, "#x"):
				n, _ := strconv.ParseUint(v[2:], 16, 64)
				out[name] = n
			case strings.HasPrefix(v, "#b"):
				n, _ := strconv.ParseUint(v[2:], 2, 64)
				out[name] = n
			case v == "true":
				out[name] = 1
			case v == "false":
				out[name] = 0
			case v == "(" && i+4 < len(f) && f[i+3] == "_":
				n, _ := strconv.ParseUint(strings.TrimPrefix(f[i+4], "bv"), 10, 64)
				out[name] = n
			}
		}
	}
	return out
}

// query cache, keyed by sorted constraint ids
var qcache sync.Map // string -> Result

type qrec struct {
	cs  []*Term
	res Result
}

var qlogMu sync.Mutex
var qlog []qrec

func qkey(cs []*Term) string {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*6)
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		b = strconv.AppendInt(b, int64(id), 36)
		b = append(b, ',')
	}
	return string(b)
}

func (s *Solver) cached(cs []*Term) Result {
	k := qkey(cs)
	if r, ok := qcache.Load(k); ok {
		atomic.AddInt64(&stats.cacheHits, 1)
		return r.(Result)
	}
	r, _ := s.check(cs, nil)
	if r != Unknown {
		qcache.Store(k, r)
		qlogMu.Lock()
		if len(qlog) < 200000 {
			qlog = append(qlog, qrec{cs, r})
		}
		qlogMu.Unlock()
	}
	return r
}
