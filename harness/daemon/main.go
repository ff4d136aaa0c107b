// Package main checks the daemon as its users run it: as a process of its own,
// with a database server, a peer, an explorer and clients on the loopback.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"

	"verif/vs"
)

type kase struct {
	Mode  string
	At    int
	Again int
	Top   int
	Batch int
	Grow  int
}

type result struct {
	Fail, Key, Unsupported string
	Events, Second         int
	Trace                  []string
	State                  string
	Flight                 bool
}

// do runs a case in a process of its own.
func do(c kase) result {
	b, _ := json.Marshal(c)
	cmd := exec.Command(filepath.Join(os.Getenv("VS_PLAIN"), "neutrinod-drv"), string(b))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, x bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &x
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Signal(syscall.SIGABRT) })
	err := cmd.Wait()
	t.Stop()
	var r result
	if jerr := json.Unmarshal(o.Bytes(), &r); err != nil || jerr != nil {
		panic(fmt.Sprintf("the driver fails: %v %v %s", err, jerr, x.String()))
	}
	return r
}

// judge reports what a case shows.
func judge(e *vs.Enum, c kase, what string) result {
	r := do(c)
	if r.Unsupported != "" {
		fmt.Fprintf(os.Stderr, "NOTE: the database stand-in does not understand: %s\n", r.Unsupported)
		return r
	}
	where := ""
	if c.At >= 0 && c.At < len(r.Trace) {
		where = " (" + r.Trace[c.At] + ")"
	}
	if r.Fail != "" {
		e.Fail("C28", r.Key, "%s%s: %s", what, where, r.Fail)
	}
	e.Distinct(what + where + r.State)
	return r
}

// points enumerates the events of a first (and second) start.
func points(mode string, top, batch int, again bool) func(e *vs.Enum) {
	return func(e *vs.Enum) {
		done := false
		for k := 0; k < 300; k++ {
			k := k
			e.Case(func() string { return fmt.Sprintf("%s at event %d, chain of %d, batches of %d", mode, k, top, batch) }, func() {
				if done {
					return
				}
				c := kase{Mode: mode, At: k, Again: -1, Top: top, Batch: batch, Grow: 1}
				if again {
					c.Again = (k * 7) % 40
				}
				r := judge(e, c, fmt.Sprintf("%s at event %d", mode, k))
				done = r.Events <= k && r.Unsupported == ""
			})
		}
	}
}

func stuck(e *vs.Enum) {
	for k := 0; k < 12; k++ {
		k := k
		e.Case(func() string { return fmt.Sprintf("the peer is silent after %d messages", k) }, func() {
			judge(e, kase{Mode: "stuck", At: k, Again: -1, Top: 4, Batch: 2}, fmt.Sprintf("silent peer after %d messages", k))
		})
	}
}

func refusals(e *vs.Enum) {
	for _, m := range []string{"address in use", "malformed address", "database down", "peer down", "malformed peer", "unknown network", "no migrations"} {
		m := m
		e.Case(func() string { return m }, func() {
			judge(e, kase{Mode: m, At: -1, Again: -1, Top: 3, Batch: 2}, m)
		})
	}
}

func main() {
	vs.Main([]*vs.Scenario{
		{Name: "kill", Parallel: 2, Secs: 42, Props: []string{"C28"}, Weight: 4, Enum: points("kill", 4, 2, false), Desc: "the daemon is killed at every event (before and after every database statement, at every message to the peer, at every explorer request) and started again"},
		{Name: "term", Parallel: 2, Secs: 42, Props: []string{"C28"}, Weight: 4, Enum: points("term", 4, 2, false), Desc: "a stop signal at every event"},
		{Name: "drop", Parallel: 2, Secs: 55, Props: []string{"C28"}, Weight: 3, Enum: points("drop", 4, 2, false), Desc: "the connection to the database, the peer or the explorer breaks at every event; the daemon is then stopped and started again"},
		{Name: "kill-twice", Parallel: 2, Props: []string{"C28"}, Weight: 2, Thorough: true, Enum: points("kill", 5, 3, true), Desc: "killed at every event and once more at an event of the second start"},
		{Name: "term-twice", Parallel: 2, Props: []string{"C28"}, Weight: 2, Thorough: true, Enum: points("term", 5, 2000, true), Desc: "told to stop at every event and once more in the second start"},
		{Name: "stuck", Parallel: 2, Secs: 5, Props: []string{"C28"}, Enum: stuck, Desc: "a stop signal while the peer has stopped answering after any of its first messages"},
		{Name: "refusals", Parallel: 2, Secs: 3, Props: []string{"C28"}, Enum: refusals, Desc: "what the daemon needs is not there when it starts"},
	})
}
