package pbt

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Main is the entry point of a harness binary:
//
//	worker ID DIR | check ID TIER | replay ID FILE | list
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID TIER | replay ID FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "worker":
		setAffinityAndReexec()
		log.Logger = zerolog.New(io.Discard)
		zerolog.SetGlobalLevel(zerolog.Disabled)
		workerMain(registry[os.Args[2]], os.Args[3])
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2], os.Args[3]))
	default:
		os.Exit(2)
	}
}

func newEngine(id, tier string) *engine {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	e := &engine{p: p, tier: tier, keys: map[uint64]struct{}{}, labels: map[string]int{}, perCfg: map[int]int{}, fps: map[int]fpEntry{}}
	e.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			e.seed = v
		} else {
			e.seed = Hash64(s)
		}
	}
	e.root = os.Getenv("VERIF_ROOT")
	if e.root == "" {
		e.root = "/verif"
	}
	cpus := allowedCPUs()
	n := len(cpus)
	nw := n
	if nw > 8 {
		nw = 8
	}
	if nw < 2 {
		nw = 2
	}
	for i := 0; i < nw; i++ {
		k := i + 1
		if k > n {
			k = n
		}
		if p.AllCPUs {
			k = n
		}
		set := make([]int, k)
		for j := 0; j < k; j++ {
			set[j] = cpus[(i*3+j)%n]
		}
		e.configs = append(e.configs, set)
	}
	base := os.TempDir()
	var err error
	e.scratch, err = os.MkdirTemp(base, "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return e
}

func check(id, tier string) int {
	start := time.Now()
	e := newEngine(id, tier)
	defer os.RemoveAll(e.scratch)
	n := e.p.Quick
	limit := 500 * time.Second
	if tier == "thorough" {
		n = e.p.Thorough
		limit = 3000 * time.Second
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	if n < e.p.Fixed {
		n = e.p.Fixed
	}
	if e.p.Cross {
		n *= len(e.configs)
	}
	e.deadline = start.Add(limit)
	var wg sync.WaitGroup
	for c := range e.configs {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			e.runRange(c, c, n, len(e.configs))
		}(c)
	}
	wg.Wait()
	nviol := 0
	var rp string
	s := e
	if e.viol == nil && e.infra == "" {
		if r := e.races(tier); r != nil && r.viol != nil {
			e.viol, s = r.viol, r
		}
	}
	if e.viol != nil {
		nviol = 1
		s.shrink(e.viol)
		rp = s.writeReplay(e.viol)
	}
	e.writeEvidence(start, nviol)
	if e.viol != nil {
		fmt.Printf("%s: violated after %d cases (case %d, %d CPUs): %s\n", id, e.cases, e.viol.index, len(e.configs[e.viol.cfg]), head(e.viol.msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if e.infra != "" {
		fmt.Fprintf(os.Stderr, "%s: harness problem, no verdict: %s\n", id, e.infra)
		return 3
	}
	fmt.Printf("%s: held on %d evaluations in %d cases, %d distinct non-trivial (%.1f s, tier %s, seed %d)\n", id, e.evals, e.cases, len(e.keys), time.Since(start).Seconds(), tier, e.seed)
	return 0
}

// races runs further cases in workers built with the race detector. The detector sees two accesses that are not
// ordered by synchronisation whatever the actual schedule was, so a race does not have to bite to be found.
func (e *engine) races(tier string) *engine {
	n := e.p.Race
	if tier == "thorough" {
		n *= 15
	}
	if n == 0 {
		return nil
	}
	if os.Getenv("VERIF_RACE_BIN") == "" {
		e.raceNote = "not run: the race detector is not available"
		return nil
	}
	p := *e.p
	p.Cross = false
	r := &engine{p: &p, tier: e.tier, keys: map[uint64]struct{}{}, labels: map[string]int{}, perCfg: map[int]int{}, fps: map[int]fpEntry{},
		seed: e.seed + 7777, root: e.root, scratch: e.scratch, race: true, deadline: time.Now().Add(120 * time.Second)}
	if tier == "thorough" {
		r.deadline = time.Now().Add(900 * time.Second)
	}
	for _, k := range []int{len(e.configs) - 1, len(e.configs) / 2, 1} { // few workers: they need memory
		r.configs = append(r.configs, e.configs[k])
	}
	var wg sync.WaitGroup
	for c := range r.configs {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			r.runRange(c, c, n, len(r.configs))
		}(c)
	}
	wg.Wait()
	e.raceNote = fmt.Sprintf("%d cases under the race detector", r.cases)
	if r.infra != "" && r.viol == nil {
		e.raceNote += "; ended early: " + head(r.infra, 300)
	}
	return r
}

func (e *engine) writeEvidence(start time.Time, nviol int) {
	per := map[string]int{}
	for c, k := range e.perCfg {
		per[fmt.Sprintf("%d_cpus", len(e.configs[c]))] += k
	}
	// keep the histogram readable
	type kv struct {
		k string
		v int
	}
	var ls []kv
	for k, v := range e.labels {
		ls = append(ls, kv{k, v})
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].v != ls[j].v {
			return ls[i].v > ls[j].v
		}
		return ls[i].k < ls[j].k
	})
	hist := map[string]int{}
	for i, x := range ls {
		if i >= 400 {
			break
		}
		hist[x.k] = x.v
	}
	samples := e.samples
	if len(samples) == 0 {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations": e.evals, "distinct_nontrivial": len(e.keys), "rule": e.p.Rule, "samples": samples,
		"cases": e.cases, "labels": hist, "cases_per_cpu_config": per, "oracle": e.p.Oracle, "enumerated_cases": e.p.Fixed,
		"stopped_by_time_limit": e.cut,
	}
	if e.raceNote != "" {
		cov["race_detector"] = e.raceNote
	}
	assume := e.p.Assume
	if assume == nil {
		assume = []string{}
	}
	doc := map[string]interface{}{
		"property": e.p.ID, "tier": e.tier, "seed": int64(e.seed & 0x7fffffffffffffff), "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": assume, "violations": nviol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	dir := filepath.Join(e.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, e.p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

func replay(id, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d struct {
		Tape       []uint64 `json:"tape"`
		CPUs       int      `json:"cpus"`
		CPUsB      int      `json:"cpus_b"`
		Enumerated int      `json:"enumerated"`
		Tier       string   `json:"tier"`
		Kind       string   `json:"kind"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e := newEngine(id, d.Tier)
	defer os.RemoveAll(e.scratch)
	find := func(k int) int {
		for i, c := range e.configs {
			if len(c) == k {
				return i
			}
		}
		return len(e.configs) - 1
	}
	if d.Kind == "race" {
		if e.race = true; os.Getenv("VERIF_RACE_BIN") == "" {
			fmt.Fprintln(os.Stderr, "the race detector is not available")
			return 2
		}
	}
	v := &violation{cfg: find(d.CPUs), cfgB: -1, seedIdx: e.p.Fixed, kind: d.Kind}
	if d.Enumerated >= 0 {
		v.seedIdx = d.Enumerated
	}
	if d.CPUsB > 0 {
		v.cfgB = find(d.CPUsB)
	}
	pr := &probe{e: e, ws: map[int]*worker{}}
	defer pr.close()
	ok, msg, _ := pr.fails(v, d.Tape, 5)
	if ok {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	fmt.Println("the recorded input no longer fails")
	return 0
}
