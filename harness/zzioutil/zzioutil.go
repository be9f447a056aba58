// Package zzioutil stands in for io/ioutil.
package zzioutil

import (
	"io"

	"github.com/yanun0323/goast/zzos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                 { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                   { return zzos.ReadFile(n) }
func WriteFile(n string, b []byte, p zzos.FileMode) error { return zzos.WriteFile(n, b, p) }
