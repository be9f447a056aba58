// Package zzimports stands in for golang.org/x/tools/imports.
package zzimports

type Options struct {
	Env        any
	Fragment   bool
	AllErrors  bool
	Comments   bool
	TabIndent  bool
	TabWidth   int
	FormatOnly bool
}

var LocalPrefix string

// Hook is what Process does; nil means the input is already right.
var Hook func(string, []byte) ([]byte, error)

func Process(filename string, src []byte, opt *Options) ([]byte, error) {
	if Hook != nil {
		return Hook(filename, src)
	}
	return append([]byte(nil), src...), nil
}
