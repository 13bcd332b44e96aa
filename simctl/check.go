package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string          `json:"property"`
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"seed"`
	Digest    string          `json:"digest"`
	Kind      string          `json:"kind"`
	Minimised string          `json:"minimised"`
	Scenario  json.RawMessage `json:"scenario"`
	Log       []string        `json:"log"`
	Stderr    string          `json:"stderr,omitempty"`
}

// crash and livelock break whatever was being checked, except that spinning
// is judged only where progress is part of the property.
func relevant(prop string, r *Result) []Violation {
	var l []Violation
	for _, v := range r.Viol {
		switch {
		case v.Prop == prop:
			l = append(l, v)
		case r.Kind == "crash", r.Kind == "livelock":
			l = append(l, Violation{prop, prop + "/" + v.Class, v.Msg})
		}
	}
	return l
}

type finding struct {
	prop  string
	class string
	re    *regexp.Regexp
	text  string
}

// loadFindings reads known-findings.txt: lines
//
//	finding: property=<id> class=<class> match=<regexp> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadFindings(path string) []finding {
	var l []finding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$`)
	for _, line := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(line); m != nil {
			if r, err := regexp.Compile(m[3]); err == nil {
				l = append(l, finding{m[1], m[2], r, m[4]})
			}
		}
	}
	return l
}

func known(fs []finding, v Violation) bool {
	for _, f := range fs {
		if f.prop == v.Prop && f.class == v.Class && f.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

type stats struct {
	mu        sync.Mutex
	runs      int
	simNs     int64
	steps     uint64
	dec       uint64
	switches  uint64
	stallNs   int64
	faults    map[string]int
	probes    map[string]int
	families  map[string]int
	kinds     map[string]int
	hashes    map[string]bool
	shapes    map[string]bool
	nontriv   map[string]bool
	calls     int
	conns     int
	events    int
	knownHits map[string]int
	samples   []map[string]any
	harness   []string
	odd       []string
	detRuns   int
	detBad    []uint64
}

func (s *stats) add(seed uint64, r *Result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.kinds[r.Kind]++
	if r.Kind == "harness" && len(s.harness) < 5 {
		s.harness = append(s.harness, fmt.Sprintf("seed %d: %s", seed, short(r.Stderr, 1500)))
	}
	if r.Kind != "ok" {
		if len(s.odd) < 20 {
			s.odd = append(s.odd, fmt.Sprintf("%s:%d", r.Kind, seed))
		}
		return
	}
	s.simNs += r.SimNs
	s.steps += r.Steps
	s.dec += r.Dec
	s.switches += r.Switches
	s.stallNs += r.StallNs
	for k, v := range r.Faults {
		s.faults[k] += v
	}
	for k, v := range r.Probes {
		s.probes[k] += v
	}
	s.families[r.Family]++
	s.hashes[r.Hash] = true
	s.shapes[r.Shape] = true
	if r.Calls+r.Conns > 0 && (r.Switches > 0 || len(r.Faults) > 0) {
		s.nontriv[r.Shape+r.Hash] = true
	}
	s.calls += r.Calls
	s.conns += r.Conns
	s.events += r.Events
	if len(s.samples) < 3 && r.Calls > 0 {
		s.samples = append(s.samples, map[string]any{"seed": seed, "family": r.Family, "steps": r.Steps, "decisions": r.Dec,
			"simulated_s": float64(r.SimNs) / 1e9, "faults": r.Faults, "calls": r.Calls, "connections": r.Conns, "digest": r.Digest})
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func check(verif, repo, prop, tier string) int {
	t0 := time.Now()
	seed := uint64(envInt("VERIF_SEED", 1))
	fmt.Printf("check %s tier=%s VERIF_SEED=%d\n", prop, tier, seed)
	b, err := build(verif, repo, prop)
	if err != nil {
		fmt.Println("BUILD ERROR:", err)
		return 2
	}
	buildS := time.Since(t0).Seconds()
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	lim := &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	r := &Runner{Bin: b.Bin, Certs: filepath.Join(verif, "worker", "certs"), Prop: prop, Tmp: tmp}
	fs := loadFindings(filepath.Join(verif, "known-findings.txt"))

	budget := time.Duration(envInt("SIM_SECONDS", map[string]int{"quick": 40, "thorough": 600}[tier])) * time.Second
	workers := envInt("SIM_WORKERS", 8)
	st := &stats{faults: map[string]int{}, probes: map[string]int{}, families: map[string]int{}, kinds: map[string]int{},
		hashes: map[string]bool{}, shapes: map[string]bool{}, nontriv: map[string]bool{}, knownHits: map[string]int{}}

	// every run of this check derives from VERIF_SEED
	seedOf := func(i int) uint64 { return seed*10_000_000 + uint64(i) }
	type hit struct {
		seed uint64
		sc   []byte
		v    Violation
	}
	var mu sync.Mutex
	var hits []hit
	next := 0
	stop := false
	s0 := time.Now()
	deadline := s0.Add(budget)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var scs [][]byte
			first := 0
			for {
				mu.Lock()
				if stop || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				if len(scs) == 0 {
					first = next
					next += batch
					mu.Unlock()
					if scs = generate(r, seedOf(first), batch); scs == nil {
						st.add(seedOf(first), &Result{Kind: "harness", Stderr: "the generator failed"})
						return
					}
				} else {
					mu.Unlock()
				}
				i, sc := first, scs[0]
				first, scs = first+1, scs[1:]
				res := r.run(sc, false)
				st.add(seedOf(i), res)
				// determinism: a sample of runs is done twice
				if i%64 == 7 && res.Kind == "ok" {
					again := r.run(sc, true)
					st.mu.Lock()
					st.detRuns++
					if again.Kind != res.Kind || again.Digest != res.Digest || again.Hash != res.Hash {
						st.detBad = append(st.detBad, seedOf(i))
					}
					st.mu.Unlock()
				}
				for _, v := range relevant(prop, res) {
					if known(fs, v) {
						st.mu.Lock()
						st.knownHits[v.Class]++
						st.mu.Unlock()
						continue
					}
					mu.Lock()
					hits = append(hits, hit{seedOf(i), sc, v})
					if len(hits) >= 1 {
						stop = true
					}
					mu.Unlock()
					break
				}
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(s0).Seconds()
	sort.Slice(hits, func(i, j int) bool { return hits[i].seed < hits[j].seed })

	violations := 0
	code := 0
	for _, h := range hits {
		rep := reproduce(r, prop, fs, h.seed, h.sc, h.v)
		if rep == nil {
			fmt.Printf("NOT REPRODUCED: seed=%d %s %s\n", h.seed, h.v.Class, short(h.v.Msg, 400))
			st.harness = append(st.harness, fmt.Sprintf("seed %d: %s was not reproduced in a fresh process", h.seed, h.v.Class))
			continue
		}
		violations++
		code = 1
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", prop, h.seed))
		os.MkdirAll(filepath.Dir(path), 0o755)
		data, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		fmt.Printf("seed %d: %s\n  %s\n  %s\n", h.seed, rep.Class, rep.Message, rep.Minimised)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		break
	}
	seen := map[string]bool{}
	for _, f := range fs {
		if f.prop == prop && !seen[f.text] {
			seen[f.text] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
		}
	}

	inconclusive := st.runs - st.kinds["ok"] - st.kinds["crash"] - st.kinds["livelock"]
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": assumptions(),
		"coverage": map[string]any{
			"evaluations":         st.runs,
			"distinct_nontrivial": len(st.nontriv),
			"rule": "one evaluation is one simulated run: a workload, a fault plan, a network and a scheduler policy drawn from one seed derived from VERIF_SEED, executed in a fresh process and judged by the property's oracle. " +
				"A run is non-trivial if it made at least one call or connection and at least one scheduling decision deviated from FIFO order or one fault fired; two runs are distinct if the digest of their scheduling decisions or the digest of the order of their events differs.",
			"samples":                    st.samples,
			"runs_per_hour":              int(float64(st.runs) / searchS * 3600),
			"seeds_per_hour":             int(float64(st.runs) / searchS * 3600),
			"simulated_seconds":          float64(st.simNs) / 1e9,
			"search_seconds":             searchS,
			"build_seconds":              buildS,
			"distinct_schedules":         len(st.hashes),
			"distinct_event_orders":      len(st.shapes),
			"preemption_points_passed":   st.steps,
			"scheduling_decisions":       st.dec,
			"deviating_decisions":        st.switches,
			"injected_stall_seconds":     float64(st.stallNs) / 1e9,
			"faults_fired":               st.faults,
			"rare_conditions_reached":    st.probes,
			"families":                   st.families,
			"calls_and_sends":            st.calls,
			"connections":                st.conns,
			"recorded_events":            st.events,
			"run_outcomes":               st.kinds,
			"inconclusive_runs":          inconclusive,
			"unusual_runs":               st.odd,
			"determinism_pairs_checked":  st.detRuns,
			"determinism_pairs_differed": len(st.detBad),
			"known_findings_hit":         st.knownHits,
			"instrumented_statements":    b.Sites,
			"components_real":            realComponents,
			"components_stubbed":         stubComponents,
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%d runs in %.1f s (%d runs/h), %.0f simulated s, %d distinct schedules, %d event orders, faults %v, outcomes %v, determinism %d/%d\n",
		st.runs, searchS, int(float64(st.runs)/searchS*3600), float64(st.simNs)/1e9, len(st.hashes), len(st.shapes), st.faults, st.kinds, st.detRuns-len(st.detBad), st.detRuns)
	if len(st.odd) > 0 {
		fmt.Println("runs without a verdict or crashed:", st.odd)
	}
	if code == 1 {
		return 1
	}
	for _, h := range st.harness {
		fmt.Println("HARNESS:", h)
	}
	if len(st.detBad) > 0 {
		fmt.Println("NONDETERMINISTIC SEEDS:", st.detBad)
	}
	if st.runs == 0 || st.kinds["harness"] > 0 || inconclusive*10 > st.runs || len(st.detBad)*10 > st.detRuns || len(st.harness) > 0 {
		fmt.Println("ERROR: the check could not do its work")
		return 2
	}
	fmt.Printf("%s held on everything explored\n", prop)
	return 0
}

var realComponents = []string{
	"jlib, jlib/http, jlib/schema: the repository's code from the working tree, with preemption points inserted between statements at build time",
	"examples/fifo (C17): the repository's program, its main renamed",
	"cli/call, cli/notify, cli/watch, cli/benchmark (C22): the repository's programs, with arguments, environment, output and exit handed to the simulation",
	"net/http client and server, crypto/tls, golang.org/x/net/http2 and h2c, gorilla/websocket, mapstructure, encoding/json, golang-jwt: real code",
	"Go runtime: goroutines, channels, select, mutexes, timers are the real implementation under a simulated scheduler, clock and entropy source",
}
var stubComponents = []string{
	"TCP sockets, dialing, listening and name resolution: simulated network inside package net",
	"OS clock, OS entropy, OS threads and preemption: simulated (one thread, faketime, seeded)",
	"logging output: discarded",
}

func assumptions() []string {
	return []string{
		"code runs in zero simulated time; time passes only in timers, network latency and injected stalls",
		"preemption happens at instrumented statements of jlib and at blocking operations, not inside dependencies' statements",
		"sampling: a pass is evidence, not proof",
	}
}

// reproduce confirms a violation in fresh processes, minimises it and
// returns the replay, or nil if it does not reproduce.
func reproduce(r *Runner, prop string, fs []finding, seed uint64, sc []byte, v Violation) *Replay {
	one := func(sc []byte) (*Result, *Violation) {
		res := r.run(sc, true)
		for _, x := range relevant(prop, res) {
			if x.Class == v.Class && !known(fs, x) {
				x := x
				return res, &x
			}
		}
		return res, nil
	}
	a, va := one(sc)
	b, vb := one(sc)
	if va == nil || vb == nil || a.Digest != b.Digest {
		return nil
	}
	m := &minimiser{r: r, one: one, deadline: time.Now().Add(time.Duration(envInt("SIM_MINIMISE", 45)) * time.Second)}
	m.start(sc, a, *va)
	m.minimise()
	return &Replay{Property: prop, Class: v.Class, Message: m.v.Msg, Seed: seed, Digest: m.res.Digest, Kind: m.res.Kind,
		Minimised: m.summary(), Scenario: m.sc, Log: m.res.Log, Stderr: short(m.res.Stderr, 20000)}
}

// batch is how many scenarios one generator process makes.
const batch = 16

// generate makes the scenarios of n seeds.
func generate(r *Runner, seed uint64, n int) [][]byte {
	out, err := execOut(r.Bin, "-certs", r.Certs, "-prop", r.Prop, "-seed", fmt.Sprint(seed), "-gen", fmt.Sprint(n))
	if err != nil {
		return nil
	}
	l := bytes.Split(bytes.TrimSpace(out), []byte("\n"))
	if len(l) != n {
		return nil
	}
	return l
}

// replay runs a replay file and reports whether it fails the same way.
func replay(verif, repo, path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	rep := &Replay{}
	if err := json.Unmarshal(data, rep); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	b, err := build(verif, repo, rep.Property)
	if err != nil {
		fmt.Println("BUILD ERROR:", err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	r := &Runner{Bin: b.Bin, Certs: filepath.Join(verif, "worker", "certs"), Prop: rep.Property, Tmp: tmp}
	res := r.run(rep.Scenario, true)
	w := bufio.NewWriter(os.Stdout)
	for _, l := range res.Log {
		fmt.Fprintln(w, l)
	}
	if res.Stderr != "" {
		fmt.Fprintln(w, short(res.Stderr, 6000))
	}
	w.Flush()
	for _, v := range relevant(rep.Property, res) {
		if v.Class == rep.Class {
			same := res.Digest == rep.Digest
			fmt.Printf("reproduced: %s %s (identical history: %v)\n", v.Class, v.Msg, same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
			return 1
		}
	}
	fmt.Println("not reproduced on this tree")
	return 0
}
