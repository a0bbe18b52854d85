// Command replay runs harnesses natively on values chosen by the solver.
// The table of harnesses is generated at build time.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"soqlverif/sym"
)

var harnesses = map[string]func(){}

type req struct {
	Harness string   `json:"harness"`
	Values  []uint64 `json:"values"`
	Tier    int      `json:"tier"`
	Repeat  int      `json:"repeat"`
}

type res struct {
	Outcome string            `json:"outcome"`
	Obs     []sym.Observation `json:"obs"`
	Reached []string          `json:"reached"`
}

func one(r *req, f func()) (outcome string) {
	sym.Reset(r.Values, r.Tier)
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case sym.AssumeFailed:
				outcome = "assume"
			case sym.AssertFailed:
				outcome = "assert: " + y.Label
			default:
				outcome = fmt.Sprintf("panic: %v", x)
			}
		}
	}()
	f()
	return "ok"
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	dec := json.NewDecoder(in)
	for {
		var r req
		if err := dec.Decode(&r); err != nil {
			return
		}
		var o res
		f := harnesses[r.Harness]
		if f == nil {
			o.Outcome = "no such harness"
		} else {
			n := r.Repeat
			if n < 1 {
				n = 1
			}
			for i := 0; i < n; i++ {
				o.Outcome = one(&r, f)
				if o.Outcome != "ok" {
					break
				}
			}
		}
		o.Obs = sym.Obs
		for k := range sym.Reached {
			o.Reached = append(o.Reached, k)
		}
		sort.Strings(o.Reached)
		b, _ := json.Marshal(o)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
