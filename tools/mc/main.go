// Command mc is the model checker's driver: it builds the instrumented
// repository with a harness and explores the harness's scenarios.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/vs"
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Scenario string `json:"scenario"` // regular expression over harness/scenario
	Match    string `json:"match"`    // regular expression over "kind tag message"
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(file string) ([]knownFinding, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("known findings: %v in %s", err, l)
		}
		out = append(out, k)
	}
	return out, nil
}

func (c *checker) isKnown(v *violation) *knownFinding {
	for i := range c.known {
		k := &c.known[i]
		if k.Property != c.prop {
			continue
		}
		if ok, _ := regexp.MatchString(k.Scenario, v.sp.name()); !ok {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, v.kind+" "+firstLine(v.msg)+"\n"+v.msg); ok {
			return k
		}
	}
	return nil
}

// propHarness says which harnesses have scenarios for a property.
var propHarness = map[string][]string{}

func loadProps(verif string) error {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "props.json"))
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &propHarness)
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Scenario string   `json:"scenario"`
	Race     bool     `json:"race"`
	Enum     bool     `json:"enum"`
	Index    int      `json:"index"`
	Dev      [][2]int `json:"deviations"`
	Kind     string   `json:"kind"`
	Tag      string   `json:"tag"`
	Message  string   `json:"message"`
	Case     string   `json:"case,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|explore|replay …")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if err := loadProps(verif); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(verif, repo, os.Args[2:]))
	case "selftest":
		os.Exit(selftest(verif, repo))
	case "replay":
		os.Exit(replay(verif, repo, os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func check(verif, repo string, args []string) int {
	start := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	budget := fs.Float64("secs", 0, "")
	only := fs.String("only", "", "regexp of harness/scenario")
	verbose := fs.Bool("v", false, "")
	maxCost := fs.Int("cost", 0, "")
	norace := fs.Bool("norace", false, "")
	noev := fs.Bool("noevidence", false, "")
	fs.Parse(args)
	known, err := loadKnown(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs := propHarness[*prop]
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	secs := 28.0
	if *tier == "thorough" {
		secs = 700
	}
	if *budget > 0 {
		secs = *budget
	}
	c := &checker{prop: *prop, tier: *tier, workers: 8, known: known, verbose: *verbose}
	var spaces []*space
	var problems []string
	w, err := newWorkspace(verif, repo, hs)
	defer w.close()
	sigc := make(chan os.Signal, 1)
	signal.Notify(sigc, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sigc
		w.close()
		os.Exit(3)
	}()
	if err != nil {
		problems = append(problems, "the tree could not be instrumented: "+clip(err.Error(), 1500))
	} else {
		// the race detector's build finds crashes as well as the plain one
		raceOnly := *prop == "C27" && !*norace
		type built struct {
			bin string
			err error
		}
		builds := make([]chan built, len(hs))
		for i, h := range hs {
			builds[i] = make(chan built, 1)
			go func(c chan built, h string) {
				bin, err := w.build(h, raceOnly)
				c <- built{bin, err}
			}(builds[i], h)
		}
		for i, h := range hs {
			b := <-builds[i]
			bin, err := b.bin, b.err
			if err != nil {
				problems = append(problems, "harness "+h+" does not build against this tree: "+clip(err.Error(), 1500))
				continue
			}
			infos, err := listScenarios(bin, w.dir)
			if err != nil {
				problems = append(problems, h+": "+err.Error())
				continue
			}
			var raceBin string
			for _, in := range infos {
				if !contains(in.Props, *prop) || (in.Thorough && *tier != "thorough" && *only == "") {
					continue
				}
				if *only != "" {
					if ok, _ := regexp.MatchString(*only, h+"/"+in.Name); !ok {
						continue
					}
				}
				if raceOnly {
					if in.Race {
						spaces = append(spaces, newSpace(h, bin, w.dir, true, in))
					}
					continue
				}
				spaces = append(spaces, newSpace(h, bin, w.dir, false, in))
				if in.Race && !*norace {
					if raceBin == "" {
						raceBin, err = w.build(h, true)
						if err != nil {
							problems = append(problems, "race build of "+h+": "+clip(err.Error(), 600))
							raceBin = "-"
						}
					}
					if raceBin != "-" {
						spaces = append(spaces, newSpace(h, raceBin, w.dir, true, in))
					}
				}
			}
		}
	}
	need := 0
	for _, sp := range spaces {
		need += sp.info.Secs
	}
	if *budget == 0 && float64(need) > secs {
		secs = float64(need)
	}
	built := time.Since(start)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	if *maxCost == 0 {
		*maxCost = 99
	}
	c.runAll(spaces, end, *maxCost)
	if *verbose {
		for _, sp := range spaces {
			fmt.Fprintf(os.Stderr, "%-40s execs=%d cost=%v done=%d states=%d dec=%d outcomes=%d diverged=%d known=%v other=%v evals=%d/%d distinct=%d complete=%v spent=%.1fs notes=%v\n", sp.name(), sp.execs, sp.cost, sp.done, len(sp.states), sp.maxDec, len(sp.outcomes), sp.diverged, sp.known, sp.aborted, sp.evals, sp.total, len(sp.distinct), sp.complete, sp.spent.Seconds(), sp.notes)
		}
		fmt.Fprintf(os.Stderr, "built in %.1fs, total %.1fs problems=%v\n", built.Seconds(), time.Since(start).Seconds(), problems)
	}
	if !*noev {
		if err := writeEvidence(verif, c, spaces, problems, start, *tier); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, p := range problems {
		fmt.Println("NOTE: " + firstLine(p))
		if *verbose {
			fmt.Println(p)
		}
	}
	hit := map[string]bool{}
	for _, sp := range spaces {
		for k := range sp.known {
			hit[k] = true
		}
	}
	if c.found == nil {
		for _, k := range known {
			if k.Property == *prop && k.Status != "fixed" {
				note := ""
				if !hit[k.ID] {
					note = " (not reached in this run)"
				}
				fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", *prop, k.What, note)
			}
		}
		fmt.Printf("OK property=%s\n", *prop)
		return 0
	}
	path := writeReplay(verif, c.prop, c.found)
	fmt.Printf("%s: %s\n", c.found.sp.name(), c.found.msg)
	if c.found.desc != "" {
		fmt.Println("case:", c.found.desc)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	return 1
}

func writeReplay(verif, prop string, v *violation) string {
	dir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, time.Now().UnixNano()))
	b, _ := json.MarshalIndent(replayFile{Property: prop, Harness: v.sp.h, Scenario: v.sp.info.Name, Race: v.sp.race, Enum: v.isEnum, Index: v.index, Dev: v.dev, Kind: v.kind, Tag: v.tag, Message: v.msg, Case: v.desc, Trace: v.trace}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func listScenarios(bin, dir string) ([]vs.Info, error) {
	w, err := startWorker(bin, dir)
	if err != nil {
		return nil, err
	}
	defer w.stop()
	p, err := w.call(&vs.Req{List: true}, 30*time.Second)
	if err != nil {
		if d, ok := err.(*deadErr); ok {
			return nil, fmt.Errorf("%v %s", err, clip(d.stderr, 500))
		}
		return nil, err
	}
	return p.Infos, nil
}

// runAll deepens all spaces level by level until the time is used up.
func (c *checker) runAll(spaces []*space, end time.Time, maxCost int) {
	// enumerations first: each gets a share of at most half of the time
	var enums, scheds []*space
	for _, sp := range spaces {
		if sp.info.Weight == 0 {
			sp.info.Weight = 1
		}
		if sp.info.Enum {
			enums = append(enums, sp)
		} else {
			scheds = append(scheds, sp)
		}
	}
	wsum := func(l []*space) (n int) {
		for _, s := range l {
			n += s.info.Weight
		}
		return
	}
	for i, sp := range enums {
		if c.stop {
			return
		}
		left := time.Until(end)
		share := left * time.Duration(sp.info.Weight) / time.Duration(wsum(enums[i:])+wsum(scheds))
		c.enumerate(sp, time.Now().Add(share))
	}
	active := append([]*space{}, scheds...)
	for lvl := 0; lvl <= maxCost && len(active) > 0 && !c.stop; lvl++ {
		// cheapest first, so that every space reaches the level if it can
		sort.SliceStable(active, func(i, j int) bool { return len(active[i].levels[lvl]) < len(active[j].levels[lvl]) })
		var next []*space
		for i, sp := range active {
			if c.stop {
				return
			}
			left := time.Until(end)
			if left <= 0 && lvl > 0 {
				sp.trunc = true
				continue
			}
			share := left * time.Duration(sp.info.Weight) / time.Duration(wsum(active[i:]))
			if lvl == 0 && share < 2*time.Second {
				share = 2 * time.Second
			}
			if c.level(sp, lvl, time.Now().Add(share)) {
				if len(sp.levels[lvl+1]) > 0 {
					next = append(next, sp)
				} else if len(sp.levels) == 0 && !sp.trunc && sp.info.MaxCost == 0 {
					sp.complete = true
				} else if len(sp.levels) == 0 && !sp.trunc {
					sp.complete = true
				}
			} else {
				sp.trunc = true
				// what is left of the level is tried again if time remains
				if lvl > 0 {
					next = append(next, sp)
				}
			}
		}
		// come back to what the time slice cut off
		active = active[:0]
		for _, sp := range next {
			if len(sp.levels[lvl]) > 0 {
				if left := time.Until(end); left > 0 && !c.stop {
					if c.level(sp, lvl, time.Now().Add(left/2)) {
						sp.trunc = false
						sp.done = lvl
					}
				}
			}
			if len(sp.levels[lvl]) == 0 {
				active = append(active, sp)
			}
		}
	}
}

func writeEvidence(verif string, c *checker, spaces []*space, problems []string, start time.Time, tier string) error {
	var states, trans, execs, evals, distinct, diverged int64
	exhaustive := len(problems) == 0 && len(spaces) > 0
	var samples []interface{}
	var per []map[string]interface{}
	var outcomes int64
	for _, sp := range spaces {
		m := map[string]interface{}{"scenario": sp.name(), "enumerates": sp.info.Desc, "seconds": round1(sp.spent.Seconds())}
		if sp.info.Enum {
			evals += sp.evals
			distinct += int64(len(sp.distinct))
			m["cases"], m["cases_in_space"], m["distinct_observations"], m["complete"] = sp.evals, sp.total, len(sp.distinct), sp.complete
			if !sp.complete {
				exhaustive = false
			}
		} else {
			execs += sp.execs
			states += int64(len(sp.states))
			trans += sp.trans
			outcomes += int64(len(sp.outcomes))
			diverged += sp.diverged
			m["executions"], m["states"], m["transitions"], m["distinct_outcomes"] = sp.execs, len(sp.states), sp.trans, len(sp.outcomes)
			m["deviation_bound_completed"], m["executions_by_cost"], m["whole_space"] = sp.done, sp.cost, sp.complete
			m["longest_decision_sequence"] = sp.maxDec
			if !sp.complete {
				exhaustive = false
			}
		}
		if len(sp.known) > 0 {
			m["known_findings_hit"] = sp.known
		}
		if len(sp.aborted) > 0 {
			m["paths_ended_by_another_property"] = sp.aborted
		}
		if sp.diverged > 0 {
			m["diverged"] = sp.diverged
		}
		if len(sp.notes) > 0 {
			m["notes"] = sp.notes
		}
		per = append(per, m)
		for i, s := range sp.samples {
			if i < 3 {
				samples = append(samples, s)
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "nothing was run")
	}
	level := propLevel(verif, c.prop)
	cov := map[string]interface{}{"samples": samples, "exhaustive": exhaustive, "scenarios": per}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, execs
	if level != "model_checking" || evals > 0 {
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = "every case of the stated finite space is run on the real code; an observation is non-trivial and distinct when its digest (input class, result, events) differs from all others"
		if evals == 0 {
			cov["evaluations"], cov["distinct_nontrivial"] = execs, outcomes
			cov["rule"] = "every schedule and environment decision within the deviation bound; distinct by the digest of what the execution observed"
		}
	}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	viol := 0
	if c.found != nil {
		viol = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": []string{
			"goroutine switches matter only at synchronisation operations (the race-build scenarios check the absence of data races separately)",
			"each deviation from the default scheduling or environment decision costs one; the bound completed per scenario is deviation_bound_completed",
			"network, clock, database server and HTTP transport are modelled by the harness",
		},
		"wall_s": round1(time.Since(start).Seconds()), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(verif, "evidence", c.prop+".json"), b, 0o644)
}

func round1(f float64) float64 { return float64(int64(f*10+0.5)) / 10 }

func propLevel(verif, prop string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == prop {
				return c.Level
			}
		}
	}
	return "model_checking"
}

func replay(verif, repo string, args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w, err := newWorkspace(verif, repo, []string{f.Harness})
	defer w.close()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := w.build(f.Harness, f.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	wk, err := startWorker(bin, w.dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	q := &vs.Req{Scenario: f.Scenario, Dev: f.Dev, Trace: true}
	if f.Enum {
		q = &vs.Req{Scenario: f.Scenario, Shards: 1, Only: f.Index + 1, Seconds: 100, Tier: "quick"}
	}
	p, err := wk.call(q, 200*time.Second)
	if err != nil {
		fmt.Println(err)
		if d, ok := err.(*deadErr); ok {
			fmt.Println(d.stderr)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	wk.stop()
	for _, t := range p.Trace {
		fmt.Println(t)
	}
	fmt.Println("result:", p.Kind, p.Tag, p.Msg)
	for _, x := range p.Fails {
		fmt.Println("case:", x.Desc, x.Tag, x.Key, x.Msg)
	}
	if p.Kind != "ok" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	return 0
}

// selftest instruments the tree and builds every harness once.
func selftest(verif, repo string) int {
	seen := map[string]bool{}
	var hs []string
	for _, l := range propHarness {
		for _, h := range l {
			if !seen[h] {
				seen[h] = true
				hs = append(hs, h)
			}
		}
	}
	sort.Strings(hs)
	w, err := newWorkspace(verif, repo, hs)
	defer w.close()
	if err != nil {
		fmt.Println("NOTE:", err)
		return 0
	}
	for _, h := range hs {
		bin, err := w.build(h, false)
		if err == nil {
			var infos []vs.Info
			infos, err = listScenarios(bin, w.dir)
			fmt.Println(h, len(infos), "scenarios")
		}
		if err != nil {
			fmt.Println("NOTE:", h, err)
		}
	}
	return 0
}
