// Command replay runs one harness natively on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	_ "aitchverif/props"
	"aitchverif/sym"
)

type job struct {
	Harness string   `json:"harness"`
	Inputs  []sym.In `json:"inputs"`
	Tier    int      `json:"tier"`
	Repeat  int      `json:"repeat"`
	Samples int      `json:"samples"` // distinct runs whose observations are returned
}

type result struct {
	Status string     `json:"status"` // ok, assert, panic, stop
	Msg    string     `json:"msg"`
	Desync bool       `json:"desync"`
	Runs   int        `json:"runs"`
	Obs    [][]string `json:"obs"` // one list per distinct observation vector
}

func main() {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, j := range jobs {
		_ = enc.Encode(runJob(j))
	}
}

func runJob(j job) result {
	if j.Repeat < 1 {
		j.Repeat = 1
	}
	var last result
	seen := map[string]bool{}
	var obs [][]string
	for i := 0; i < j.Repeat; i++ {
		last = run(j)
		last.Runs = i + 1
		k := fmt.Sprint(sym.Obs)
		if !seen[k] && len(seen) < 64 {
			seen[k] = true
			obs = append(obs, sym.Obs)
		}
		if last.Status != "ok" {
			break
		}
	}
	last.Obs = obs
	return last
}

func run(j job) (r result) {
	f := sym.Lookup(j.Harness)
	if f == nil {
		return result{Status: "unknown", Msg: "no harness " + j.Harness}
	}
	sym.Load(j.Inputs, j.Tier)
	defer func() {
		p := recover()
		r.Desync = sym.Desync
		switch x := p.(type) {
		case nil:
			r.Status = "ok"
		case sym.Failure:
			r.Status, r.Msg = "assert", x.Msg
		case sym.Stop:
			r.Status = "stop"
		default:
			r.Status = "panic"
			r.Msg = fmt.Sprint(p)
			if os.Getenv("SYM_STACK") != "" {
				r.Msg += "\n" + string(debug.Stack())
			}
		}
		if sym.Failed != "" && r.Status != "assert" {
			r.Status, r.Msg = "assert", sym.Failed
		}
	}()
	f()
	return
}
