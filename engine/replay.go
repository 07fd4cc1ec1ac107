package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer runs harnesses natively on solver-chosen inputs.
type Replayer struct {
	dir, build string
	tier       int
	once, ronc sync.Once
	bin, rbin  string
	err, rerr  error
	mu         sync.Mutex
	runs       int
}

type replayJob struct {
	Harness string     `json:"harness"`
	Inputs  []cexInput `json:"inputs"`
	Tier    int        `json:"tier"`
	Repeat  int        `json:"repeat"`
}

type replayResult struct {
	Status string     `json:"status"`
	Msg    string     `json:"msg"`
	Desync bool       `json:"desync"`
	Runs   int        `json:"runs"`
	Obs    [][]string `json:"obs"`
	Race   string     `json:"race,omitempty"`
}

func (r *Replayer) compile(race bool) (string, error) {
	name := "replay"
	args := []string{"build"}
	if race {
		name = "replay-race"
		args = append(args, "-race")
	}
	out := filepath.Join(r.build, name)
	args = append(args, "-o", out, "./cmd/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.dir
	if race {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build replay: %v: %s", err, b)
	}
	return out, nil
}

func (r *Replayer) binary(race bool) (string, error) {
	if race {
		r.ronc.Do(func() { r.rbin, r.rerr = r.compile(true) })
		return r.rbin, r.rerr
	}
	r.once.Do(func() { r.bin, r.err = r.compile(false) })
	return r.bin, r.err
}

// run executes jobs in one process.
func (r *Replayer) run(jobs []replayJob, race bool, limit time.Duration) ([]replayResult, error) {
	bin, err := r.binary(race)
	if err != nil {
		return nil, err
	}
	in, _ := json.Marshal(jobs)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if race {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "SYM_RACE=1")
	}
	rerr := cmd.Run()
	var res []replayResult
	dec := json.NewDecoder(&so)
	for {
		var x replayResult
		if dec.Decode(&x) != nil {
			break
		}
		res = append(res, x)
	}
	r.mu.Lock()
	r.runs += len(res)
	r.mu.Unlock()
	if race && strings.Contains(se.String(), "DATA RACE") {
		return []replayResult{{Status: "race", Msg: "data race reported by the race detector", Race: cut(se.String(), 4000)}}, nil
	}
	if len(res) < len(jobs) {
		if ctx.Err() != nil {
			return res, fmt.Errorf("replay timed out")
		}
		// a crash of the whole process (fatal error, panic in a goroutine, stack overflow)
		if rerr != nil && strings.Contains(se.String(), "concurrent map") {
			res = append(res, replayResult{Status: "race", Msg: cut(se.String(), 300)})
			return res, nil
		}
		return res, fmt.Errorf("replay died: %v: %s", rerr, cut(se.String(), 1000))
	}
	return res, nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// confirm replays a candidate; the string says what the real code did.
func (r *Replayer) confirm(c *candidate) (bool, string) {
	rep := 1
	if c.MapOrder {
		rep = 4000
	}
	job := replayJob{c.Harness, c.Inputs, r.tier, rep}
	if c.Kind == "sharedwrite" {
		job.Repeat = 60
		res, err := r.run([]replayJob{job}, true, 120*time.Second)
		if err != nil {
			return false, err.Error()
		}
		if res[0].Status == "race" || res[0].Status == "assert" || res[0].Status == "panic" {
			return true, res[0].Msg + "\n" + res[0].Race
		}
		return false, "no race observed natively"
	}
	res, err := r.run([]replayJob{job}, false, 60*time.Second)
	if err != nil {
		return false, err.Error()
	}
	x := res[0]
	if x.Desync {
		return false, "input mismatch on replay"
	}
	if x.Status == "assert" || x.Status == "panic" {
		return true, fmt.Sprintf("%s: %s (run %d)", x.Status, x.Msg, x.Runs)
	}
	return false, "the real code passed (" + x.Status + ")"
}
