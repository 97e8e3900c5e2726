// Command replay runs recorded vectors against the compiled code.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verif/harness/v"
)

type vector struct {
	Harness string         `json:"harness"`
	Inputs  []uint64       `json:"inputs"`
	Params  map[string]int `json:"params"`
}
type result struct {
	Result   string   `json:"result"`
	Label    string   `json:"label"`
	Observed []string `json:"observed"`
}

func one(x vector) (r result) {
	f := harnesses[x.Harness]
	if f == nil {
		return result{Result: "error", Label: "no harness " + x.Harness}
	}
	v.Reset(x.Inputs, x.Params)
	defer func() {
		p := recover()
		r.Observed = v.Observed
		switch t := p.(type) {
		case nil:
			r.Result = "ok"
		case v.SkipT:
			r.Result = "skip"
		case v.Violation:
			r.Result, r.Label = "violation", t.Label
			if t.Kind == "alloc" {
				r.Result = "alloc"
			}
		default:
			r.Result, r.Label = "panic", fmt.Sprint(p)
		}
	}()
	f()
	v.CheckAlloc()
	return
}

func main() {
	var vs []vector
	if err := json.NewDecoder(os.Stdin).Decode(&vs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, x := range vs {
		enc.Encode(one(x))
	}
}
