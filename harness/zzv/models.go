package zzv

import (
	"fmt"
	"io"
	"sync"
)

// Models of assembly-backed or reflective standard library functions, executed
// in place of them by the symbolic executor (name: M_ + mangled function name).

func M_internal_bytealg_IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func M_internal_bytealg_IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func M_internal_bytealg_CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func M_internal_bytealg_Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func idx(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func M_strings_Index(s, sub string) int              { return idx(s, sub) }
func M_internal_stringslite_Index(s, sub string) int { return idx(s, sub) }
func M_bytes_Index(s, sub []byte) int                { return idx(string(s), string(sub)) }
func M_internal_bytealg_IndexString(s, sub string) int {
	return idx(s, sub)
}
func M_internal_bytealg_Index(s, sub []byte) int { return idx(string(s), string(sub)) }

func M_strings_LastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func M_internal_bytealg_LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func M_internal_bytealg_CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func M_internal_bytealg_Compare(a, b []byte) int {
	return M_internal_bytealg_CompareString(string(a), string(b))
}

// WrapErr stands for the result of fmt.Errorf.
type WrapErr struct {
	Msg string
	Err error
}

func (e *WrapErr) Error() string { return e.Msg }
func (e *WrapErr) Unwrap() error { return e.Err }

func M_fmt_Errorf(format string, args ...any) error {
	w := &WrapErr{Msg: format}
	wraps := false
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			wraps = true
		}
	}
	if wraps {
		for _, a := range args {
			if e, ok := a.(error); ok {
				w.Err = e
			}
		}
	}
	return w
}

func M_fmt_Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, args...)))
}

func M_fmt_Fprint(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(fmt.Sprint(args...)))
}

func M_fmt_Fprintln(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintln(args...)))
}

func M_io_WriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

func M_errors_Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if M_errors_Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type poolItem struct {
	p *sync.Pool
	x any
}

var pooled []poolItem

// M_sync_Pool_Get takes the value put last, as a single goroutine sees it.
func M_sync_Pool_Get(p *sync.Pool) any {
	for i := len(pooled) - 1; i >= 0; i-- {
		if pooled[i].p == p {
			x := pooled[i].x
			pooled = append(append([]poolItem(nil), pooled[:i]...), pooled[i+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func M_sync_Pool_Put(p *sync.Pool, x any) {
	if x != nil {
		pooled = append(pooled, poolItem{p, x})
	}
}
