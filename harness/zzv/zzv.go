// Package zzv supplies arbitrary values to harnesses.  The symbolic executor
// intercepts these functions; compiled natively they replay recorded values.
package zzv

import (
	"fmt"
	"os"
	"strconv"
	"syscall"
)

var (
	// Pad answers 0 once the recorded values are used up.
	Pad  bool
	vals []uint64
	pos  int
	obs  []string
	tier = func() int { n, _ := strconv.Atoi(os.Getenv("ZZV_TIER")); return n }()
)

// Stop is the panic value that ends a native run.
type Stop struct{ Status, Label string }

func next() uint64 {
	if pos >= len(vals) && Pad {
		return 0
	}
	if pos >= len(vals) {
		panic(Stop{"desync", "ran out of recorded values"})
	}
	v := vals[pos]
	pos++
	return v
}

func Byte() byte       { return byte(next()) }
func Int() int         { return int(next()) }
func Bool() bool       { return next() == 1 }
func Choice(n int) int { return int(next()) }
func ByteOf(al string) byte {
	if Pad && pos >= len(vals) {
		return al[0]
	}
	return byte(next())
}
func Symbolic() bool { return false }
func Thorough() bool { return tier > 0 }

// MapOrder rotates every later map iteration by order/2 and reverses it when
// order is odd; a native run has the random orders of the Go runtime.
func MapOrder(order int)       {}
func SharedWrites() int        { return 0 }
func Reach(label string)       {}
func ObsStr(l, s string)       { obs = append(obs, l+"="+fmt.Sprintf("%q", []byte(s))) }
func ObsInt(l string, n int)   { obs = append(obs, l+"="+fmt.Sprint(n)) }
func ObsBool(l string, b bool) { obs = append(obs, l+"="+fmt.Sprint(b)) }

func Assume(b bool) {
	if !b {
		panic(Stop{"assume", ""})
	}
}

func Assert(b bool, label string) {
	if !b {
		panic(Stop{"assert", label})
	}
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// OutText and ErrText are what was written to the standard streams during Output
// (in a symbolic run; the executor appends to them).
var OutText, ErrText string

// Output runs f and returns what it wrote to standard output and standard error.
func Output(f func()) (out, errOut string) {
	OutText, ErrText = "", ""
	begin()
	defer func() { out, errOut = finish() }()
	f()
	return
}

var saved, files [3]int

// begin sends the standard streams to files, finish reads them and undoes it.
func begin() {
	for fd := 1; fd <= 2; fd++ {
		f, err := os.CreateTemp("", "zzv")
		if err != nil {
			panic(Stop{"desync", "no temporary file"})
		}
		os.Remove(f.Name())
		files[fd], _ = syscall.Dup(int(f.Fd()))
		f.Close()
		saved[fd], _ = syscall.Dup(fd)
		syscall.Dup3(files[fd], fd, 0)
	}
}

func finish() (string, string) {
	var text [3]string
	for fd := 1; fd <= 2; fd++ {
		syscall.Dup3(saved[fd], fd, 0)
		syscall.Close(saved[fd])
		syscall.Seek(files[fd], 0, 0)
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(files[fd], buf)
			if n <= 0 || err != nil {
				break
			}
			text[fd] += string(buf[:n])
		}
		syscall.Close(files[fd])
	}
	return text[1], text[2]
}

// Run executes f on the recorded values and reports how it ended.
func Run(v []uint64, f func()) (status, label string, o []string) {
	vals, pos, obs = v, 0, nil
	defer func() {
		o = obs
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				status, label = s.Status, s.Label
				return
			}
			status, label = "panic", fmt.Sprint(r)
		}
	}()
	f()
	return "ok", "", obs
}

// ---- derived forms (ordinary code for both executions)

// Pick returns a concrete value in [0,n), one path per value.
func Pick(n int) int {
	c := Choice(n)
	for i := 0; i < n-1; i++ {
		if c == i {
			return i
		}
	}
	return n - 1
}

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Str returns an arbitrary string of length n.
func Str(n int) string { return string(Bytes(n)) }

// StrOf returns an arbitrary string of length n over the bytes of al.
func StrOf(n int, al string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteOf(al)
	}
	return string(b)
}

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Yes is an arbitrary decision, one path per outcome.
func Yes() bool {
	if Bool() {
		return true
	}
	return false
}
