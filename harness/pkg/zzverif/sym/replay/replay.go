// Package replay is the native driver: it runs harness functions on the concrete values of a counterexample or sampled path.
package replay

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"sigs.k8s.io/controller-tools/pkg/zzverif/sym"
	"sigs.k8s.io/controller-tools/pkg/zzverif/vdriver"
)

type job struct {
	Fn      string            `json:"fn"`
	Vals    map[string]uint64 `json:"vals"`
	Tier    int               `json:"tier"`
	Repeat  int               `json:"repeat"`
	LimitMs int               `json:"limit_ms"`
}

type res struct {
	I    int      `json:"i"`
	Kind string   `json:"kind"`
	Msg  string   `json:"msg"`
	Obs  []string `json:"obs"`
	Runs int      `json:"runs"`
}

// Main runs the jobs in the file named by the first argument.
func Main(fns map[string]func()) {
	if os.Getenv("ZZ_VLOAD_MANIFEST") != "" {
		vdriver.Driver()
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for i, j := range jobs {
		f := fns[j.Fn]
		r := res{I: i}
		if f == nil {
			r.Kind, r.Msg = "missing", j.Fn
		} else {
			if j.Repeat < 1 {
				j.Repeat = 1
			}
			if j.LimitMs <= 0 {
				j.LimitMs = 20000
			}
			deadline := time.Now().Add(time.Duration(j.LimitMs) * time.Millisecond)
			for k := 0; k < j.Repeat && (k == 0 || time.Now().Before(deadline)); k++ {
				x := sym.Run(f, j.Vals, j.Tier, time.Duration(j.LimitMs)*time.Millisecond)
				r.Kind, r.Msg, r.Obs, r.Runs = x.Kind, x.Msg, x.Obs, k+1
				if x.Kind != "ok" {
					break
				}
			}
		}
		enc, _ := json.Marshal(r)
		fmt.Fprintf(out, "@R %s\n", enc)
		if r.Kind == "timeout" {
			os.Exit(3)
		}
	}
}
