// Package zzformat stands in for go/format.
package zzformat

// Hook is what Source does; nil means the input is already formatted.
var Hook func([]byte) ([]byte, error)

// Seen holds the inputs given to Source.
var Seen [][]byte

func Source(b []byte) ([]byte, error) {
	Seen = append(Seen, append([]byte(nil), b...))
	if Hook != nil {
		return Hook(b)
	}
	return append([]byte(nil), b...), nil
}
