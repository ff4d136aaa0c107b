package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/vs"
)

type node struct {
	dev [][2]int
	sig uint64
}

// space is one scenario (in one build) under exploration.
type space struct {
	h    string
	bin  string
	dir  string
	race bool
	info vs.Info

	mu       sync.Mutex
	levels   map[int][]node
	visited  map[uint64]int8
	states   map[uint64]struct{}
	outcomes map[string]int
	samples  []string
	execs    int64
	trans    int64
	maxDec   int
	diverged int64
	capped   int64
	done     int // highest level completed (-1: none)
	trunc    bool
	cost     map[int]int64
	evals    int64
	distinct map[uint64]struct{}
	complete bool
	total    int64
	known    map[string]int
	aborted  map[string]int // ends that belong to another property
	spent    time.Duration
	notes    []string
}

// violation is a failing execution.
type violation struct {
	sp     *space
	dev    [][2]int
	index  int // case of an enumeration
	kind   string
	tag    string
	msg    string
	desc   string
	trace  []string
	isEnum bool
}

func newSpace(h, bin, dir string, race bool, info vs.Info) *space {
	sp := &space{h: h, bin: bin, dir: dir, race: race, info: info, levels: map[int][]node{}, visited: map[uint64]int8{},
		states: map[uint64]struct{}{}, outcomes: map[string]int{}, done: -1, cost: map[int]int64{}, distinct: map[uint64]struct{}{},
		known: map[string]int{}, aborted: map[string]int{}}
	sp.levels[0] = []node{{}}
	return sp
}

func (sp *space) name() string {
	if sp.race {
		return sp.h + "/" + sp.info.Name + "@race"
	}
	return sp.h + "/" + sp.info.Name
}

type checker struct {
	prop    string
	tier    string
	workers int
	known   []knownFinding
	mu      sync.Mutex
	stop    bool
	found   *violation
	verbose bool
}

const maxPending = 3000000

// level explores all executions of the given cost; false if time ran out.
func (c *checker) level(sp *space, lvl int, deadline time.Time) bool {
	start := time.Now()
	defer func() { sp.spent += time.Since(start) }()
	if len(sp.levels[lvl]) == 0 {
		return true
	}
	var wg sync.WaitGroup
	inflight := 0
	cond := sync.NewCond(&sp.mu)
	out := false
	for i := 0; i < c.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				sp.mu.Lock()
				for len(sp.levels[lvl]) == 0 && inflight > 0 && !out && !c.stop {
					cond.Wait()
				}
				if len(sp.levels[lvl]) == 0 || out || c.stop {
					sp.mu.Unlock()
					cond.Broadcast()
					return
				}
				q := sp.levels[lvl]
				n := q[0]
				sp.levels[lvl] = q[1:]
				inflight++
				sp.mu.Unlock()
				var err error
				if w == nil {
					w, err = startWorker(sp.bin, sp.dir)
				}
				var p *vs.Resp
				if err == nil {
					p, err = w.call(&vs.Req{Scenario: sp.info.Name, Dev: n.dev, Sig: n.sig}, 120*time.Second)
				}
				if d, ok := err.(*deadErr); ok && d.code == 66 {
					// the runtime's objects bypass the detector, so that memory
					// they reuse may look raced for; a race is there in a fresh
					// process too
					if w, err = startWorker(sp.bin, sp.dir); err == nil {
						p, err = w.call(&vs.Req{Scenario: sp.info.Name, Dev: n.dev, Sig: n.sig}, 120*time.Second)
					}
				}
				if err != nil || p.Kind == "hang" || w.runs > 20000 {
					if w != nil && err == nil {
						w.stop()
					}
					w = nil
				}
				v := c.absorb(sp, lvl, n, p, err)
				sp.mu.Lock()
				inflight--
				if time.Now().After(deadline) {
					out = true
				}
				sp.mu.Unlock()
				cond.Broadcast()
				if v != nil {
					c.report(v)
				}
			}
		}()
	}
	wg.Wait()
	if c.stop {
		return false
	}
	if len(sp.levels[lvl]) > 0 {
		return false
	}
	delete(sp.levels, lvl)
	if !sp.trunc {
		sp.done = lvl
	}
	return true
}

var raceRe = regexp.MustCompile(`(?m)^  (\S+)\(\)`)

func raceKey(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "race"
	}
	s = s[i:]
	if j := strings.Index(s, "Goroutine "); j > 0 {
		s = s[:j]
	}
	parts := strings.Split(s, "Previous ")
	var k []string
	for _, p := range parts {
		for _, m := range raceRe.FindAllStringSubmatch(p, -1) {
			f := m[1]
			if strings.Contains(f, "neutrino-elements/") && !strings.Contains(f, "vsharness") {
				k = append(k, f[strings.LastIndex(f, "/")+1:])
				break
			}
		}
	}
	sort.Strings(k)
	return "data race: " + strings.Join(k, " | ")
}

func (c *checker) absorb(sp *space, lvl int, n node, p *vs.Resp, err error) *violation {
	sp.mu.Lock()
	defer sp.mu.Unlock()
	sp.execs++
	sp.cost[lvl]++
	if err != nil {
		d, ok := err.(*deadErr)
		if !ok {
			sp.notes = append(sp.notes, err.Error())
			return nil
		}
		if d.late { // hangs are noticed in the process
			sp.notes = append(sp.notes, fmt.Sprintf("an execution took too long: %v", n.dev))
			sp.trunc = true
			return nil
		}
		kind, msg := "crash", fmt.Sprintf("process ended with code %d\n%s", d.code, d.stderr)
		if d.code == 66 {
			kind, msg = "race", raceKey(d.stderr)+"\n"+d.stderr
			if strings.HasPrefix(msg, "data race: \n") { // no frame of the repository in either access
				sp.notes = append(sp.notes, "a race within the harness: "+clip(d.stderr, 600))
				return nil
			}
		}
		return &violation{sp: sp, dev: n.dev, kind: kind, msg: msg}
	}
	sp.trans += int64(p.Steps)
	for _, s := range p.States {
		sp.states[s] = struct{}{}
	}
	if len(p.N)+p.From > sp.maxDec {
		sp.maxDec = len(p.N) + p.From
	}
	switch p.Kind {
	case "diverged":
		sp.diverged++
		if c.verbose && sp.diverged < 5 {
			fmt.Fprintln(os.Stderr, "DIVERGED", sp.name(), n.dev, p.Msg)
		}
		return nil
	case "noscenario":
		sp.notes = append(sp.notes, "no scenario "+p.Msg)
		return nil
	case "ok":
		if _, ok := sp.outcomes[p.Outcome]; !ok {
			if len(sp.samples) < 6 {
				sp.samples = append(sp.samples, fmt.Sprintf("%s deviations=%v -> %s", sp.name(), n.dev, clip(p.Outcome, 240)))
			}
		}
		if len(sp.outcomes) < 100000 {
			sp.outcomes[p.Outcome]++
		}
	}
	// children
	base := append([][2]int{}, n.dev...)
	for i := range p.N {
		pos := p.From + i
		sig := p.Sigs[i]
		if v, ok := sp.visited[sig]; ok && int(v) <= lvl {
			break
		}
		sp.visited[sig] = int8(lvl)
		cost := lvl + 1
		if p.Free[i] {
			cost = lvl
		}
		if sp.info.MaxCost > 0 && cost > sp.info.MaxCost || sp.info.MaxCost < 0 && cost > 0 {
			continue
		}
		if len(sp.levels[cost]) > maxPending {
			sp.trunc = true
			continue
		}
		for a := 1; a < int(p.N[i]); a++ {
			dv := make([][2]int, len(base)+1)
			copy(dv, base)
			dv[len(base)] = [2]int{pos, a}
			sp.levels[cost] = append(sp.levels[cost], node{dv, sig})
		}
	}
	if p.Kind != "ok" {
		return &violation{sp: sp, dev: n.dev, kind: p.Kind, tag: p.Tag, msg: p.Msg}
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *checker) mine(v *violation) bool {
	if v.tag == "" {
		return true
	}
	for _, t := range strings.FieldsFunc(v.tag, func(r rune) bool { return r == ',' || r == ' ' }) {
		if t == c.prop || t == "*" {
			return true
		}
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *checker) report(v *violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stop {
		return
	}
	if !c.mine(v) {
		v.sp.mu.Lock()
		v.sp.aborted[v.tag]++
		v.sp.mu.Unlock()
		if c.verbose && v.sp.aborted[v.tag] < 3 {
			fmt.Fprintln(os.Stderr, "OTHER", v.tag, v.sp.name(), v.dev, firstLine(v.msg))
		}
		return
	}
	if k := c.isKnown(v); k != nil {
		v.sp.mu.Lock()
		v.sp.known[k.ID]++
		v.sp.mu.Unlock()
		return
	}
	if !c.confirm(v) {
		v.sp.mu.Lock()
		v.sp.notes = append(v.sp.notes, "a failing execution did not reproduce: "+clip(firstLine(v.msg), 200))
		v.sp.mu.Unlock()
		fmt.Fprintf(os.Stderr, "UNCONFIRMED %s %v %s %s\n", v.sp.name(), v.dev, v.kind, v.msg)
		return
	}
	c.found = v
	c.stop = true
}

// confirm runs the failing execution again, five times, in fresh processes.
func (c *checker) confirm(v *violation) bool {
	for i := 0; i < 5; i++ {
		w, err := startWorker(v.sp.bin, v.sp.dir)
		if err != nil {
			return false
		}
		var q *vs.Req
		if v.isEnum {
			q = &vs.Req{Scenario: v.sp.info.Name, Shard: 0, Shards: 1, Only: v.index + 1, Seconds: 100, Tier: c.tier}
		} else {
			q = &vs.Req{Scenario: v.sp.info.Name, Dev: v.dev, Trace: i == 0 && !v.sp.race}
		}
		p, err := w.call(q, 150*time.Second)
		kind, tag := "", ""
		if err != nil {
			d, ok := err.(*deadErr)
			if !ok {
				return false
			}
			kind = "crash"
			if d.code == 66 {
				kind = "race"
			}
		} else {
			w.stop()
			kind, tag = p.Kind, p.Tag
			if v.isEnum && len(p.Fails) > 0 {
				tag = p.Fails[0].Tag
				kind = "fail"
			}
			if i == 0 {
				v.trace = p.Trace
			}
		}
		if kind != v.kind || tag != v.tag {
			if c.verbose {
				fmt.Fprintln(os.Stderr, "confirm:", kind, tag, "instead of", v.kind, v.tag)
			}
			return false
		}
	}
	return true
}

// enumerate runs an enumeration, shared among the workers.
func (c *checker) enumerate(sp *space, deadline time.Time) {
	start := time.Now()
	defer func() { sp.spent += time.Since(start) }()
	secs := time.Until(deadline).Seconds()
	if secs < 2 {
		secs = 2
	}
	sp.complete = true
	var wg sync.WaitGroup
	shards := c.workers
	if sp.info.Parallel > 1 {
		shards *= sp.info.Parallel
	}
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w, err := startWorker(sp.bin, sp.dir)
			if err != nil {
				sp.mu.Lock()
				sp.complete = false
				sp.notes = append(sp.notes, err.Error())
				sp.mu.Unlock()
				return
			}
			p, err := w.call(&vs.Req{Scenario: sp.info.Name, Shard: i, Shards: shards, Seconds: secs, Tier: c.tier}, time.Duration(secs+60)*time.Second)
			if err != nil {
				sp.mu.Lock()
				sp.complete = false
				sp.mu.Unlock()
				d, ok := err.(*deadErr)
				if !ok || d.last == 0 {
					sp.mu.Lock()
					sp.notes = append(sp.notes, err.Error())
					if ok {
						sp.notes = append(sp.notes, clip(d.stderr, 400))
					}
					sp.mu.Unlock()
					return
				}
				kind := "crash"
				if d.code == 66 {
					kind = "race"
				}
				c.report(&violation{sp: sp, index: d.last - 1, kind: kind, msg: fmt.Sprintf("case %d ended the process (code %d)\n%s", d.last-1, d.code, d.stderr), isEnum: true})
				return
			}
			w.stop()
			sp.mu.Lock()
			sp.evals += p.Evals
			if p.Total > sp.total {
				sp.total = p.Total
			}
			for _, s := range p.Sigs {
				sp.distinct[s] = struct{}{}
			}
			if !p.Complete {
				sp.complete = false
			}
			if len(sp.samples) < 8 {
				for _, s := range p.Samples {
					if len(sp.samples) < 8 {
						sp.samples = append(sp.samples, clip(s, 240))
					}
				}
			}
			sp.mu.Unlock()
			for _, f := range p.Fails {
				c.report(&violation{sp: sp, index: f.Index, kind: "fail", tag: f.Tag, msg: f.Key + ": " + f.Msg, desc: f.Desc, isEnum: true})
			}
		}(i)
	}
	wg.Wait()
}
