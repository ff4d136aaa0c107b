package vs

import (
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Scenario is one bounded space of behaviours a harness offers.
type Scenario struct {
	Name  string
	Props []string // the properties whose checks explore it
	Desc  string   // what is enumerated
	// exactly one of Run (explored under the controlled scheduler) and Enum
	// (enumerated input by input) is set
	Run  func()
	Enum func(*Enum)

	MaxSteps  int
	Horizon   time.Duration
	MaxCost   int  // 0: as deep as the tier allows, negative: only the free choices
	Preempt   bool // switching away from a blocked goroutine is free
	Race      bool // also explored with the race detector
	Thorough  bool // only explored by the thorough tier
	Weight    int  // share of the time budget (default 1)
	Parallel  int  // cases that mostly wait: how many more workers (default 1)
	Secs      int  // time the quick tier needs for it
	StepCapOK bool // reaching the step cap ends the path without an alarm
}

// Req is one order to a worker.
type Req struct {
	List     bool
	Scenario string
	Dev      [][2]int // deviations from the default decisions
	Sig      uint64   // expected signature at the last deviation
	Trace    bool
	// enumerations
	Shard, Shards int
	Only          int // 1+index of the single case to run
	Seconds       float64
	Tier          string
}

// Info describes a scenario to the driver.
type Info struct {
	Name, Desc string
	Props      []string
	Enum       bool
	MaxCost    int
	Race       bool
	Thorough   bool
	Weight     int
	Parallel   int
	Secs       int
	Preempt    bool
}

// Resp is a worker's answer.
type Resp struct {
	Infos []Info

	Dev     [][2]int
	N       []int32
	Free    []bool
	Sigs    []uint64
	From    int // first decision reported
	States  []uint64
	Steps   int
	Kind    string
	Tag     string
	Msg     string
	Outcome string
	Trace   []string

	// enumerations
	Evals    int64
	Distinct int64
	Complete bool
	Fails    []EnumFail
	Samples  []string
	Total    int64
}

// EnumFail is a failing case of an enumeration.
type EnumFail struct {
	Index int
	Tag   string
	Key   string
	Msg   string
	Desc  string
}

// Enum enumerates cases; every worker runs its share.
type Enum struct {
	Tier          string
	shard, shards int
	only          int
	deadline      time.Time
	idx           int
	evals         int64
	distinct      map[uint64]struct{}
	stopped       bool
	resp          *Resp
	cur           string
	seenKey       map[string]int
	status        *os.File
	tick          int
}

type enumFail struct{ tag, key, msg string }

// Stopped reports that the time budget is used up.
func (e *Enum) Stopped() bool { return e.stopped }

// Case runs f if the case belongs to this worker. desc names the input.
func (e *Enum) Case(desc func() string, f func()) {
	i := e.idx
	e.idx++
	if e.stopped {
		return
	}
	if e.only > 0 {
		if i != e.only-1 {
			return
		}
	} else if i%e.shards != e.shard {
		return
	}
	if time.Now().After(e.deadline) {
		e.stopped = true
		e.resp.Complete = false
		return
	}
	if e.status != nil {
		fmt.Fprintf(e.status, "%d\n", i+1)
	}
	e.evals++
	if e.evals <= 3 || (e.evals&(e.evals-1)) == 0 && len(e.resp.Samples) < 12 {
		e.resp.Samples = append(e.resp.Samples, desc())
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			fl, ok := r.(enumFail)
			if !ok {
				fl = enumFail{"", "panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
			k := fl.tag + "/" + fl.key
			e.seenKey[k]++
			if e.seenKey[k] <= 3 {
				e.resp.Fails = append(e.resp.Fails, EnumFail{i, fl.tag, fl.key, fl.msg, desc()})
			}
		}()
		f()
	}()
}

// Distinct adds to the set of different observations made.
func (e *Enum) Distinct(s string) { e.distinct[hashStr(s)] = struct{}{} }

// Fail reports that the case breaks property tag; key classifies the failure.
func (e *Enum) Fail(tag, key, format string, a ...interface{}) {
	panic(enumFail{tag, key, fmt.Sprintf(format, a...)})
}

// Sched runs f under the controlled scheduler with the default decisions.
func (e *Enum) Sched(f func()) {
	r := Run(f, Options{})
	switch r.Kind {
	case "ok":
	case "fail":
		panic(enumFail{r.Tag, "sched", r.Msg})
	default:
		panic(enumFail{"", r.Kind, r.Msg})
	}
}

// Main serves the driver; it is the main function of every harness.
func Main(list []*Scenario) {
	debug.SetGCPercent(400)
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		for _, s := range list {
			fmt.Println(s.Name, s.Props)
		}
		return
	}
	by := map[string]*Scenario{}
	for _, s := range list {
		by[s.Name] = s
	}
	// the protocol owns the original standard output
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var status *os.File
	if p := os.Getenv("VS_STATUS"); p != "" {
		status, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	}
	dec := gob.NewDecoder(os.Stdin)
	enc := gob.NewEncoder(out)
	for {
		var q Req
		if err := dec.Decode(&q); err != nil {
			if err == io.EOF {
				return
			}
			fmt.Fprintln(os.Stderr, "vs:", err)
			return
		}
		var p Resp
		if q.List {
			for _, s := range list {
				p.Infos = append(p.Infos, Info{Name: s.Name, Desc: s.Desc, Props: s.Props, Enum: s.Enum != nil, MaxCost: s.MaxCost, Race: s.Race, Thorough: s.Thorough, Weight: s.Weight, Parallel: s.Parallel, Secs: s.Secs, Preempt: s.Preempt})
			}
		} else if sc := by[q.Scenario]; sc == nil {
			p.Kind, p.Msg = "noscenario", q.Scenario
		} else if sc.Enum != nil {
			runEnum(sc, &q, &p, status)
		} else {
			runOne(sc, &q, &p)
		}
		if err := enc.Encode(&p); err != nil {
			return
		}
		if p.Kind == "hang" {
			return
		}
	}
}

func runEnum(sc *Scenario, q *Req, p *Resp, status *os.File) {
	e := &Enum{Tier: q.Tier, shard: q.Shard, shards: q.Shards, only: q.Only, resp: p, distinct: map[uint64]struct{}{}, seenKey: map[string]int{}, status: status}
	e.deadline = time.Now().Add(time.Duration(q.Seconds * float64(time.Second)))
	p.Complete = true
	sc.Enum(e)
	p.Evals = e.evals
	p.Total = int64(e.idx)
	for h := range e.distinct {
		p.Sigs = append(p.Sigs, h)
	}
	sort.Slice(p.Sigs, func(i, j int) bool { return p.Sigs[i] < p.Sigs[j] })
	p.Distinct = int64(len(p.Sigs))
	p.Kind = "ok"
	if len(p.Fails) > 0 {
		p.Kind = "fail"
	}
}

func runOne(sc *Scenario, q *Req, p *Resp) {
	from, at := 0, 0
	if n := len(q.Dev); n > 0 {
		at = q.Dev[n-1][0]
		from = at + 1
	}
	r := Run(sc.Run, Options{Prefix: q.Dev, ExpectAt: at, Expect: q.Sig, MaxSteps: sc.MaxSteps, Horizon: sc.Horizon, Preempt: sc.Preempt, Trace: q.Trace})
	if r.Kind == "stepcap" && sc.StepCapOK {
		r.Kind = "ok"
	}
	p.Dev, p.From, p.Steps, p.Kind, p.Tag, p.Msg, p.Outcome, p.Trace = q.Dev, from, r.Steps, r.Kind, r.Tag, r.Msg, r.Outcome, r.Trace
	p.Msg = strings.ToValidUTF8(p.Msg, "?")
	for i := from; i < len(r.Decisions); i++ {
		d := r.Decisions[i]
		p.N = append(p.N, int32(d.N))
		p.Free = append(p.Free, d.Free)
		p.Sigs = append(p.Sigs, d.Sig)
	}
	if from > len(r.Decisions) && r.Kind == "ok" {
		p.Kind, p.Msg = "diverged", fmt.Sprintf("the execution took %d decisions, the last deviation is at %d", len(r.Decisions), from-1)
	}
	p.States = r.States
	runtime.KeepAlive(r)
}
