package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/zzv"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := os.NewFile(3, "out")
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c struct {
			Job  string   `json:"job"`
			Vals []uint64 `json:"vals"`
			Pad  bool     `json:"pad"`
		}
		json.Unmarshal(l, &c)
		zzv.Pad = c.Pad
		st, lab, obs := zzv.Run(c.Vals, func() {
			if !goast.ZZRun(c.Job) {
				panic(zzv.Stop{Status: "desync", Label: "no such harness"})
			}
		})
		b, _ := json.Marshal(map[string]any{"status": st, "label": lab, "obs": obs})
		out.Write(append(b, '\n'))
	}
}
