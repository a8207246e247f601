package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// Prop is a property and the harnesses that decide it.
type Prop struct {
	ID        string
	Level     string
	Rule      string
	Assume    []string
	Harnesses []*Harness
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func main() {
	if s := os.Getenv("MC_FIRST"); s != "" {
		firstUseChild(s)
	}
	propID := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "internal: harness to run")
	shardF := flag.String("shard", "0/1", "internal")
	result := flag.String("result", "", "internal")
	progressF := flag.String("progress", "", "internal")
	replay := flag.String("replay", "", "replay a recorded violation")
	one := flag.String("one", "", "internal: run one case given as JSON choices")
	oneDev := flag.Int("onedev", 0, "internal")
	evidence := flag.String("evidence", "", "evidence file")
	knownF := flag.String("known", "", "known findings file")
	variant := flag.String("variant", "", "label of this build variant")
	budget := flag.Int("budget", 0, "seconds")
	merge := flag.Bool("merge", false, "merge into an existing evidence file")
	only := flag.String("harness", "", "run only this harness")
	list := flag.Bool("list", false, "list")
	flag.Parse()
	thorough = *tier == "thorough"
	if *list {
		for _, p := range props {
			for _, h := range p.Harnesses {
				fmt.Println(p.ID, h.Name)
			}
		}
		return
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *propID {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *propID)
		os.Exit(3)
	}
	known := map[string]bool{}
	var findings []knownFinding
	if *knownF != "" {
		b, err := os.ReadFile(*knownF)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "{") {
				continue
			}
			var k knownFinding
			if err := json.Unmarshal([]byte(l), &k); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(3)
			}
			if k.Property == p.ID && k.Key != "" {
				known[k.Key] = true
				findings = append(findings, k)
			}
		}
	}
	if *replay != "" {
		doReplay(p, *replay)
		return
	}
	if *worker != "" {
		doWorker(p, *worker, *shardF, *result, *progressF, *one, *oneDev, *budget, known)
		return
	}
	os.Exit(doParent(p, *tier, *evidence, *knownF, *variant, *budget, *merge, *only, known, findings))
}

func harness(p *Prop, name string) *Harness {
	for _, h := range p.Harnesses {
		if h.Name == name {
			return h
		}
	}
	fmt.Fprintln(os.Stderr, "no such harness", name)
	os.Exit(3)
	return nil
}

func limits() {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(400)
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

func doWorker(p *Prop, name, shardS, result, progressF, one string, oneDev, budget int, known map[string]bool) {
	limits()
	h := harness(p, name)
	if one != "" {
		var ch []int
		if err := json.Unmarshal([]byte(one), &ch); err != nil {
			panic(err)
		}
		x, v, _ := runCase(h, ch, oneDev, true, nil)
		out := found{Choices: x.ch, Dev: x.dev, MaxDev: oneDev, Desc: x.desc}
		if v != nil {
			out.Msg, out.Key = v.Msg, v.Key
		}
		writeJSON(result, out)
		return
	}
	var si, sn int
	fmt.Sscanf(shardS, "%d/%d", &si, &sn)
	deadline = time.Now().Add(time.Duration(budget) * time.Second)
	workers := numWorkers()
	if h.Single {
		workers = 1
		runtime.GOMAXPROCS(2)
	}
	progress := mmapFile(progressF, false)
	if sn > 1 {
		progress = progress[si*slotSize : (si+1)*slotSize]
	}
	res := explore(h, workers, si, sn, progress, known)
	var buf bytes.Buffer
	for _, v := range res.Hashes {
		binary.Write(&buf, binary.LittleEndian, v)
	}
	if err := os.WriteFile(result+".hashes", buf.Bytes(), 0600); err != nil {
		panic(err)
	}
	writeJSON(result, res)
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Variant  string   `json:"variant,omitempty"`
	Tier     string   `json:"tier"`
	Choices  []int    `json:"choices"`
	MaxDev   int      `json:"max_deviations"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	How      string   `json:"how_to_replay"`
}

func doReplay(p *Prop, path string) {
	var r replayFile
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	thorough = r.Tier == "thorough"
	limits()
	x, v, _ := runCase(harness(p, r.Harness), r.Choices, r.MaxDev, true, nil)
	for _, d := range x.desc {
		fmt.Println("  ", d)
	}
	if v == nil {
		fmt.Println("the property holds in this execution")
		return
	}
	fmt.Println(v.Msg)
	os.Exit(1)
}

type procOut struct {
	res    *hresult
	fatal  string // how the worker died, when it did
	choice []int  // the case that kills it
	maxDev int
	desc   []string
}

func doParent(p *Prop, tier, evidence, knownF, variant string, budget int, merge bool, only string, known map[string]bool, findings []knownFinding) int {
	start := time.Now()
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 720
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var results []*hresult
	var viols []replayFile
	seenKnown := map[string]bool{}
	engineError := ""
	for _, h := range p.Harnesses {
		if only != "" && h.Name != only {
			continue
		}
		if h.Thorough && tier != "thorough" {
			continue
		}
		if h.Only != "" && h.Only != variant {
			continue
		}
		left := int(time.Until(end).Seconds())
		if left < 5 {
			left = 5
		}
		n := 1
		if h.Single {
			n = numWorkers()
		}
		hs := time.Now()
		outs := runHarness(self, tmp, p, h, tier, knownF, left, n)
		if unstable(outs) {
			// What happens depends on what happened before in the process. It
			// counts when it happens again in other processes.
			outs = runHarness(self, tmp, p, h, tier, knownF, left, n)
			for _, o := range outs {
				if o.res != nil && len(o.res.Violations) == 0 {
					o.res.Violations = o.res.Unstable
				}
			}
		}
		var m *hresult
		hashes := map[uint64]struct{}{}
		for _, o := range outs {
			if o.fatal != "" {
				if h.Expect != "" && known[h.Expect] {
					seenKnown[h.Expect] = true
					continue
				}
				if o.choice == nil {
					engineError = fmt.Sprintf("%s: worker died and the case could not be found: %s", h.Name, o.fatal)
					continue
				}
				viols = append(viols, replayFile{Property: p.ID, Harness: h.Name, Variant: variant, Tier: tier, Choices: o.choice, MaxDev: o.maxDev, Message: o.fatal, Case: o.desc})
				continue
			}
			for _, k := range o.res.Hashes {
				hashes[k] = struct{}{}
			}
			if m == nil {
				m = o.res
				continue
			}
			m.Runs += o.res.Runs
			m.Skipped += o.res.Skipped
			m.Ops += o.res.Ops
			m.Flaky += o.res.Flaky
			m.Exhaustive = m.Exhaustive && o.res.Exhaustive
			m.Violations = append(m.Violations, o.res.Violations...)
			m.Known = append(m.Known, o.res.Known...)
			if o.res.DevBound < m.DevBound {
				m.DevBound = o.res.DevBound
			}
		}
		if m == nil {
			continue
		}
		m.Distinct = len(hashes)
		if m.Runs == 0 {
			engineError = h.Name + ": nothing was explored"
		}
		results = append(results, m)
		for _, k := range m.Known {
			seenKnown[k.Key] = true
		}
		for _, v := range m.Violations {
			viols = append(viols, replayFile{Property: p.ID, Harness: h.Name, Variant: variant, Tier: tier, Choices: v.Choices, MaxDev: v.MaxDev, Message: v.Msg, Case: v.Desc})
		}
		fmt.Printf("%s %s%s: executions=%d operations=%d distinct=%d deviations<=%d exhaustive=%v %.1fs\n", p.ID, h.Name, label(variant), m.Runs-m.Skipped, m.Ops, m.Distinct, m.DevBound, m.Exhaustive, time.Since(hs).Seconds())
		if len(viols) > 0 {
			break
		}
	}
	for _, k := range findings {
		if seenKnown[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	writeEvidence(p, tier, evidence, variant, merge, results, viols, seenKnown, start)
	if len(viols) > 0 {
		v := viols[0]
		dir := filepath.Join(filepath.Dir(evidence), "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, p.ID+".json")
		v.How = fmt.Sprintf("cd /verif && ./check.sh %s --replay %s", p.ID, path)
		writeJSON(path, v)
		fmt.Printf("harness %s%s, choices %v\n", v.Harness, label(variant), v.Choices)
		for _, d := range v.Case {
			fmt.Println("  " + d)
		}
		fmt.Println(v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if engineError != "" {
		fmt.Fprintln(os.Stderr, engineError)
		return 3
	}
	return 0
}

func unstable(outs []procOut) bool {
	for _, o := range outs {
		if o.res != nil && len(o.res.Unstable) > 0 {
			return true
		}
	}
	return false
}

func label(variant string) string {
	if variant == "" {
		return ""
	}
	return "[" + variant + "]"
}

// runHarness runs a harness in n worker processes, and when one dies finds the
// case that killed it.
func runHarness(self, tmp string, p *Prop, h *Harness, tier, knownF string, left, n int) []procOut {
	pf := filepath.Join(tmp, h.Name+".progress")
	progress := mmapFile(pf, true)
	defer syscall.Munmap(progress)
	type proc struct {
		cmd    *exec.Cmd
		stderr bytes.Buffer
		res    string
		done   chan error
		err    error
		hung   bool
		ended  bool
	}
	var procs []*proc
	for i := 0; i < n; i++ {
		pr := &proc{res: filepath.Join(tmp, fmt.Sprintf("%s.%d.json", h.Name, i)), done: make(chan error, 1)}
		pr.cmd = exec.Command(self, "-prop", p.ID, "-tier", tier, "-worker", h.Name, "-shard", fmt.Sprintf("%d/%d", i, n), "-result", pr.res, "-progress", pf, "-budget", fmt.Sprint(left), "-known", knownF)
		pr.cmd.Stderr = &pr.stderr
		pr.cmd.Stdout = os.Stdout
		if err := pr.cmd.Start(); err != nil {
			return []procOut{{fatal: "cannot start worker: " + err.Error()}}
		}
		go func() { pr.done <- pr.cmd.Wait() }()
		procs = append(procs, pr)
	}
	// a case takes microseconds to milliseconds: one that makes no progress
	// for minutes does not terminate
	const hang = 120 * time.Second
	last := make([]uint64, nSlots)
	since := make([]time.Time, nSlots)
	for running := len(procs); running > 0; {
		for _, pr := range procs {
			if pr.ended {
				continue
			}
			select {
			case pr.err = <-pr.done:
				pr.ended = true
				running--
			default:
			}
		}
		now := time.Now()
		for s := 0; s < nSlots; s++ {
			active, count, _, _ := slotCase(progress[s*slotSize : (s+1)*slotSize])
			if !active || count != last[s] || since[s].IsZero() {
				last[s], since[s] = count, now
			} else if now.Sub(since[s]) > hang {
				i := 0
				if n > 1 {
					i = s
				}
				if i < len(procs) && !procs[i].ended {
					procs[i].hung = true
					procs[i].cmd.Process.Kill()
				}
			}
		}
		if running > 0 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	var outs []procOut
	for i, pr := range procs {
		if pr.err == nil {
			var r hresult
			b, err := os.ReadFile(pr.res)
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil {
				outs = append(outs, procOut{fatal: "no result: " + err.Error()})
				continue
			}
			hb, _ := os.ReadFile(pr.res + ".hashes")
			for j := 0; j+8 <= len(hb); j += 8 {
				r.Hashes = append(r.Hashes, binary.LittleEndian.Uint64(hb[j:]))
			}
			outs = append(outs, procOut{res: &r})
			continue
		}
		o := procOut{fatal: head(pr.stderr.String(), 600)}
		if o.fatal == "" {
			o.fatal = pr.err.Error()
		}
		// find the killer among the cases that were being run
		for s := 0; s < nSlots; s++ {
			if n > 1 && s != i {
				continue
			}
			active, _, md, ch := slotCase(progress[s*slotSize : (s+1)*slotSize])
			if !active {
				continue
			}
			kills := 0
			msg := ""
			for r := 0; r < 2; r++ {
				dead, m := runOne(self, tmp, p, h, tier, ch, md)
				if dead {
					kills++
					msg = m
				}
			}
			if kills == 2 {
				o.choice, o.maxDev, o.fatal = ch, md, msg
				break
			}
		}
		outs = append(outs, o)
	}
	return outs
}

func runOne(self, tmp string, p *Prop, h *Harness, tier string, ch []int, md int) (bool, string) {
	b, _ := json.Marshal(ch)
	res := filepath.Join(tmp, "one.json")
	cmd := exec.Command(self, "-prop", p.ID, "-tier", tier, "-worker", h.Name, "-result", res, "-one", string(b), "-onedev", fmt.Sprint(md))
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return false, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return false, ""
		}
		return true, "the process dies: " + head(errb.String(), 400)
	case <-time.After(90 * time.Second):
		cmd.Process.Kill()
		<-done
		return true, "no termination within 90s (a case normally takes microseconds to milliseconds)"
	}
}

func head(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.TrimSpace(s)
}

func writeEvidence(p *Prop, tier, path, variant string, merge bool, results []*hresult, viols []replayFile, seenKnown map[string]bool, start time.Time) {
	if path == "" {
		return
	}
	var seed int
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	var states, trans, runs int64
	exh := true
	flaky := 0
	var samples []string
	var hs []map[string]interface{}
	for _, r := range results {
		states += int64(r.Distinct)
		trans += r.Ops
		runs += r.Runs - r.Skipped
		exh = exh && r.Exhaustive
		flaky += r.Flaky
		for _, s := range r.Samples {
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			samples = append(samples, s)
		}
		name := r.Harness
		if variant != "" {
			name += "@" + variant
		}
		hs = append(hs, map[string]interface{}{"harness": name, "executions": r.Runs - r.Skipped, "infeasible_skipped": r.Skipped, "operations": r.Ops, "distinct_observed": r.Distinct, "deviation_bound": r.DevBound, "exhaustive_within_bounds": r.Exhaustive, "longest_choice_sequence": r.MaxChoices, "unreproducible": r.Flaky})
	}
	if len(samples) == 0 {
		samples = append(samples, "none: exploration ended at the first violation")
	}
	var knownKeys []string
	for k := range seenKnown {
		knownKeys = append(knownKeys, k)
	}
	cov := map[string]interface{}{
		"rule":       p.Rule,
		"samples":    samples,
		"exhaustive": exh,
		"harnesses":  hs,
	}
	if p.Level == "model_checking" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, runs
		cov["explanation"] = "states: distinct observations (sequences of results) of the real code; transitions: operations executed on the real code; traces_validated_against_impl: complete executions, all of them on the real code, each compared with the reference model; exhaustive: every execution within the stated bounds was run"
	} else {
		cov["evaluations"], cov["distinct_nontrivial"] = runs, states
		cov["explanation"] = "evaluations: complete executions of the real code, each with one combination of environment answers; distinct_nontrivial: those with distinct observations; exhaustive: every combination within the stated bounds was run"
	}
	if len(knownKeys) > 0 {
		cov["known_findings_seen"] = knownKeys
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if merge {
		var old map[string]interface{}
		if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &old) == nil {
			oc, _ := old["coverage"].(map[string]interface{})
			for _, k := range []string{"states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial"} {
				if v, ok := oc[k].(float64); ok && cov[k] != nil {
					cov[k] = cov[k].(int64) + int64(v)
				}
			}
			if v, ok := oc["exhaustive"].(bool); ok {
				cov["exhaustive"] = exh && v
			}
			if v, ok := oc["harnesses"].([]interface{}); ok {
				for _, h := range hs {
					v = append(v, h)
				}
				cov["harnesses"] = v
			}
			if v, ok := oc["samples"].([]interface{}); ok {
				for _, s := range samples {
					v = append(v, s)
				}
				cov["samples"] = v
			}
			if v, ok := old["wall_s"].(float64); ok {
				ev["wall_s"] = ev["wall_s"].(float64) + v
			}
			if v, ok := old["violations"].(float64); ok {
				ev["violations"] = len(viols) + int(v)
			}
		}
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	writeJSON(path, ev)
}
