package pbt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one executable property.
type Prop struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Rule     string // what makes a case non-trivial
	Oracle   string
	Assume   []string
	AllCPUs  bool   // true: every worker uses all CPUs (CPU count is irrelevant)
	Cross    bool   // same case on every CPU count, fingerprints compared
	Strata   bool   // the first draw of case i is i modulo the range: that draw goes through all its values in turn
	Memory   uint64 // address space of a worker in GB, 4 if not set
	Race     int    // so many cases also run under the race detector
	Fixed    int    // the first Fixed cases are numbered cases, not random (see Index)
	Run      func(t *T)
	// RunIndexed, if set, runs the enumerated case number i < Fixed.
	RunIndexed func(t *T, i int)
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { registry[p.ID] = p }

type result struct {
	I      int               `json:"i"`
	Status string            `json:"s"`
	Msg    string            `json:"m,omitempty"`
	Labels []string          `json:"l,omitempty"`
	Keys   []uint64          `json:"k,omitempty"`
	Evals  int               `json:"e"`
	Sample string            `json:"x,omitempty"`
	FP     string            `json:"f,omitempty"`
	Tape   []uint64          `json:"t,omitempty"`
	Spans  [][2]int          `json:"sp,omitempty"`
	Attach map[string]string `json:"a,omitempty"`
}

type request struct {
	From, To, Step int
	Seed           uint64
	Div            int // seed index = i/Div
	Tape           []uint64
	IsTape         bool
	WantTape       bool
	Index          int // enumerated case for tapes, -1 otherwise
	Tier           string
	Samples        int
}

// ---------------------------------------------------------------- worker

func runCase(p *Prop, t *T, idx int) (res result) {
	res.Status = "ok"
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case failSignal:
				res.Status, res.Msg = "fail", s.msg
			case skipSignal: // the rest of the case cannot be observed
				t.Label("ended early: a hook is not available")
			case infraSignal:
				res.Status, res.Msg = "infra", s.msg
			default:
				res.Status, res.Msg = "infra", fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}
		if t.Evals == 0 {
			t.Evals = 1
		}
		res.Labels, res.Keys, res.Evals, res.Sample, res.FP = t.Labels, t.Keys, t.Evals, t.Sample, t.Fingerprint
		if res.Status != "ok" {
			res.Tape, res.Spans, res.Attach = t.Tape, t.Spans, t.Attach
		}
	}()
	if idx >= 0 && idx < p.Fixed && p.RunIndexed != nil {
		p.RunIndexed(t, idx)
	} else {
		p.Run(t)
	}
	return
}

func workerMain(p *Prop, dir string) {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1500 << 20)
	if os.Getenv("VERIF_RACE") == "" { // the race detector reserves address space
		gb := p.gigabytes() << 30
		lim := syscall.Rlimit{Cur: gb, Max: gb}
		if err := syscall.Setrlimit(syscall.RLIMIT_AS, &lim); err != nil {
			fmt.Fprintln(os.Stderr, "setrlimit:", err)
		}
	}
	if err := os.Chdir(dir); err != nil {
		fmt.Fprintln(os.Stderr, "chdir:", err)
		os.Exit(4)
	}
	// the code under test logs to stdout: keep the protocol on a private descriptor
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(4)
	}
	syscall.CloseOnExec(fd)
	protoOut := os.NewFile(uintptr(fd), "proto")
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		os.Exit(4)
	}
	syscall.Dup2(int(null.Fd()), 1)
	w := bufio.NewWriter(protoOut)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(w)
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil {
			os.Exit(0)
		}
		if rq.IsTape {
			t := &T{isReply: true, replay: rq.Tape, Dir: dir, CPUs: runtime.NumCPU(), Tier: rq.Tier}
			fmt.Fprintf(w, "S %d\n", rq.From)
			w.Flush()
			res := runCase(p, t, rq.Index)
			raceCheck()
			res.I = rq.From
			if rq.WantTape {
				res.Tape, res.Spans, res.Attach = t.Tape, t.Spans, t.Attach
			}
			fmt.Fprint(w, "R ")
			enc.Encode(res)
			w.Flush()
			continue
		}
		ns := 0
		for i := rq.From; i < rq.To; i += rq.Step {
			si := i / rq.Div
			t := &T{state: Hash64(p.ID, strconv.FormatUint(rq.Seed, 10), strconv.Itoa(si)), Dir: dir, CPUs: runtime.NumCPU(), Tier: rq.Tier}
			if p.Strata {
				t.first = int64(si) + 1
			}
			fmt.Fprintf(w, "S %d\n", i)
			w.Flush()
			res := runCase(p, t, si)
			raceCheck()
			res.I = i
			if res.Sample != "" {
				if ns >= rq.Samples {
					res.Sample = ""
				} else {
					ns++
				}
			}
			fmt.Fprint(w, "R ")
			enc.Encode(res)
			w.Flush()
		}
		if dir := os.Getenv("VERIF_COVERDIR"); dir != "" { // development: which code do the checks reach
			coverage.WriteMetaDir(dir)
			coverage.WriteCountersDir(dir)
		}
		fmt.Fprint(w, "D\n")
		w.Flush()
	}
}

func setAffinityAndReexec() {
	spec := os.Getenv("VERIF_CPUSET")
	if spec == "" || os.Getenv("VERIF_CPUSET_DONE") == spec {
		return
	}
	runtime.LockOSThread()
	var mask [16]uint64
	for _, s := range strings.Split(spec, ",") {
		n, err := strconv.Atoi(s)
		if err != nil || n >= 1024 {
			return
		}
		mask[n/64] |= 1 << uint(n%64)
	}
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, uintptr(len(mask)*8), uintptr(ptr(&mask)))
	if e != 0 {
		fmt.Fprintln(os.Stderr, "sched_setaffinity:", e)
		os.Exit(5)
	}
	env := append(os.Environ(), "VERIF_CPUSET_DONE="+spec)
	exe, err := os.Executable()
	if err != nil {
		os.Exit(5)
	}
	if err := syscall.Exec(exe, os.Args, env); err != nil {
		os.Exit(5)
	}
}

func allowedCPUs() []int {
	var mask [16]uint64
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(mask)*8), uintptr(ptr(&mask)))
	var out []int
	if e == 0 {
		for i := 0; i < 1024; i++ {
			if mask[i/64]&(1<<uint(i%64)) != 0 {
				out = append(out, i)
			}
		}
	}
	if len(out) == 0 {
		for i := 0; i < runtime.NumCPU(); i++ {
			out = append(out, i)
		}
	}
	return out
}

// ---------------------------------------------------------------- parent side of a worker

type worker struct {
	p       *Prop
	cfg     int
	cpus    []int
	dir     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	lines   chan string
	errPath string
}

func (e *engine) startWorker(cfg int) (*worker, error) {
	cpus := e.configs[cfg]
	dir, err := os.MkdirTemp(e.scratch, fmt.Sprintf("w%d-", cfg))
	if err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if e.race {
		exe = os.Getenv("VERIF_RACE_BIN")
	}
	w := &worker{p: e.p, cfg: cfg, cpus: cpus, dir: dir, errPath: dir + ".stderr"}
	w.cmd = exec.Command(exe, "worker", e.p.ID, dir)
	w.cmd.Env = os.Environ()
	if e.race {
		w.cmd.Env = append(w.cmd.Env, "VERIF_RACE="+dir+".race", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+dir+".race")
	}
	if !e.p.AllCPUs {
		ss := make([]string, len(cpus))
		for i, c := range cpus {
			ss[i] = strconv.Itoa(c)
		}
		w.cmd.Env = append(w.cmd.Env, "VERIF_CPUSET="+strings.Join(ss, ","))
	}
	w.cmd.Env = append(w.cmd.Env, "GOTRACEBACK=all")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	ef, err := os.Create(w.errPath)
	if err != nil {
		return nil, err
	}
	defer ef.Close()
	w.cmd.Stderr = ef
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.Stdout = pw
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.lines = make(chan string, 64)
	go func() {
		r := bufio.NewReaderSize(pr, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				break
			}
			w.lines <- l[:len(l)-1]
		}
		pr.Close()
		close(w.lines)
	}()
	return w, nil
}

// stop ends the worker and returns its stderr.
func (w *worker) stop(sig syscall.Signal) string {
	if w == nil {
		return ""
	}
	w.in.Close()
	if sig != 0 {
		syscall.Kill(-w.cmd.Process.Pid, sig)
		if sig == syscall.SIGQUIT {
			time.Sleep(1500 * time.Millisecond)
			syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	go func() {
		for range w.lines {
		}
	}()
	w.cmd.Wait()
	b, _ := os.ReadFile(w.errPath)
	os.Remove(w.errPath)
	os.RemoveAll(w.dir)
	if len(b) > 1<<20 {
		b = b[:1<<20]
	}
	return string(b)
}

// outcome of driving a worker over a request
type outcome struct {
	results []result
	crashed bool
	hung    bool
	at      int // case being run when it crashed or hung
	stderr  string
	state   *os.ProcessState
}

// drive sends a request and collects results; onRes may return false to stop early.
func (w *worker) drive(rq request, limit time.Duration, onRes func(result) bool) (o outcome) {
	o.at = -1
	b, _ := json.Marshal(rq)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		o.crashed = true
	}
	timer := time.NewTimer(limit)
	defer timer.Stop()
	for {
		select {
		case l, ok := <-w.lines:
			if !ok {
				w.cmd.Wait()
				o.crashed = true
				o.state = w.cmd.ProcessState
				b, _ := os.ReadFile(w.errPath)
				if len(b) > 1<<20 {
					b = b[:1<<20]
				}
				o.stderr = string(b)
				return
			}
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			timer.Reset(limit)
			switch {
			case strings.HasPrefix(l, "S "):
				o.at, _ = strconv.Atoi(l[2:])
			case strings.HasPrefix(l, "R "):
				var r result
				if err := json.Unmarshal([]byte(l[2:]), &r); err != nil {
					r.Status, r.Msg = "infra", "protocol: "+err.Error()
				}
				o.at = -1
				if !onRes(r) || rq.IsTape {
					return
				}
			case l == "D":
				return
			}
		case <-timer.C:
			o.hung = true
			return
		}
	}
}

// ---------------------------------------------------------------- engine

type violation struct {
	msg      string
	tape     []uint64
	spans    [][2]int
	cfg      int
	cfgB     int // second configuration of a cross failure, else -1
	index    int
	seedIdx  int
	attach   map[string]string
	kind     string
	original string
}

type engine struct {
	p       *Prop
	tier    string
	seed    uint64
	configs [][]int
	scratch string
	root    string

	mu       sync.Mutex
	evals    int
	cases    int
	keys     map[uint64]struct{}
	labels   map[string]int
	samples  []string
	perCfg   map[int]int
	fps      map[int]fpEntry
	viol     *violation
	infra    string
	deadline time.Time
	cut      bool
	retries  int
	race     bool
	raceNote string
}

const repoPath = "github.com/asap2Go/calibrationReader"

// raceReport returns the first report of the race detector in which the code under test takes part in the race.
// Races on the state of a library (the logger, which every read configures anew) are none of its results.
func raceReport(text string) string {
	for _, s := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if j := strings.Index(s, "=================="); j >= 0 {
			s = s[:j]
		}
		own := 0
		for k, b := range strings.Split(s, "\n\n") { // the first two blocks are the two accesses
			if k > 1 {
				break
			}
			switch accessBy(b) {
			case "own":
				own++
			case "vendor":
				own = -10
			}
		}
		if own > 0 {
			return "WARNING: DATA RACE" + s
		}
	}
	return ""
}

// accessBy says whose code makes the access: the innermost frame outside the standard library.
func accessBy(block string) string {
	ls := strings.Split(block, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if !strings.HasPrefix(ls[i], "  ") || strings.HasPrefix(ls[i], "   ") || !strings.HasPrefix(ls[i+1], "      ") {
			continue
		}
		file := strings.TrimSpace(ls[i+1])
		switch {
		case strings.Contains(file, "/zz_verif/"), strings.HasPrefix(file, "/verif/"):
			return "harness"
		case strings.Contains(file, "/vendor/"):
			return "vendor"
		case strings.HasPrefix(strings.TrimSpace(ls[i]), repoPath):
			return "own"
		}
	}
	return ""
}

// raceCheck ends the worker if the case it has just run showed a race.
func raceCheck() {
	prefix := os.Getenv("VERIF_RACE")
	if prefix == "" {
		return
	}
	b, err := os.ReadFile(prefix + "." + strconv.Itoa(os.Getpid()))
	if err != nil || len(b) == 0 {
		return
	}
	if r := raceReport(string(b)); r != "" {
		fmt.Fprintln(os.Stderr, r)
		os.Exit(66)
	}
}

type fpEntry struct {
	fp  string
	cfg int
}

const hangLimit = 90 * time.Second

func (e *engine) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.viol != nil || e.infra != ""
}

func (e *engine) setViol(v *violation) {
	e.mu.Lock()
	if e.viol == nil {
		e.viol = v
	}
	e.mu.Unlock()
}

func (e *engine) setInfra(s string) {
	e.mu.Lock()
	if e.infra == "" {
		e.infra = s
	}
	e.mu.Unlock()
}

func isGoCrash(stderr string) bool {
	return strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: ") || strings.Contains(stderr, "runtime error")
}

// gigabytes is the address space of a worker; the cases need a small part of it.
func (p *Prop) gigabytes() uint64 {
	if p.Memory > 0 {
		return p.Memory
	}
	return 4
}

// exhausted: the Go runtime gave up because the worker reached its limit.
func exhausted(o outcome) bool {
	return o.crashed && isGoCrash(o.stderr) && (strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate memory"))
}

func isOOM(o outcome) bool {
	if strings.Contains(o.stderr, "out of memory") || strings.Contains(o.stderr, "cannot allocate memory") {
		return true
	}
	return !isGoCrash(o.stderr)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (e *engine) seedIndex(i int) int {
	if e.p.Cross {
		return i / len(e.configs)
	}
	return i
}

func (e *engine) record(cfg int, r result) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.cases++
	e.evals += r.Evals
	e.perCfg[cfg]++
	for _, k := range r.Keys {
		e.keys[k] = struct{}{}
	}
	for _, l := range r.Labels {
		e.labels[l]++
	}
	if r.Sample != "" && len(e.samples) < 12 {
		e.samples = append(e.samples, r.Sample)
	}
	switch r.Status {
	case "infra":
		if e.infra == "" {
			e.infra = r.Msg
		}
		return false
	case "fail":
		if e.viol == nil {
			e.viol = &violation{msg: r.Msg, tape: r.Tape, spans: r.Spans, cfg: cfg, cfgB: -1, index: r.I, seedIdx: e.seedIndex(r.I), attach: r.Attach, kind: "oracle"}
		}
		return false
	}
	if e.p.Cross && r.FP != "" {
		g := r.I / len(e.configs)
		if old, ok := e.fps[g]; ok {
			if old.fp != r.FP && e.viol == nil {
				e.viol = &violation{msg: fmt.Sprintf("outcome differs between %d and %d CPUs:\n--- %d CPUs: %s\n--- %d CPUs: %s", len(e.configs[old.cfg]), len(e.configs[cfg]), len(e.configs[old.cfg]), head(old.fp, 600), len(e.configs[cfg]), head(r.FP, 600)),
					cfg: old.cfg, cfgB: cfg, index: r.I, seedIdx: g, kind: "cross"}
				return false
			}
		} else {
			e.fps[g] = fpEntry{r.FP, cfg}
		}
	}
	return e.viol == nil && e.infra == "" && time.Now().Before(e.deadline)
}

// runRange runs cases [from,to) with step on config cfg, isolating crashes and hangs.
func (e *engine) runRange(cfg, from, to, step int) {
	next := from
	crashes := 0
	for next < to && !e.stopped() {
		if !time.Now().Before(e.deadline) {
			e.mu.Lock()
			e.cut = true
			e.mu.Unlock()
			return
		}
		w, err := e.startWorker(cfg)
		if err != nil {
			e.setInfra("start worker: " + err.Error())
			return
		}
		div := 1
		if e.p.Cross {
			div = len(e.configs)
		}
		o := w.drive(request{From: next, To: to, Step: step, Seed: e.seed, Div: div, Tier: e.tier, Samples: 3}, hangLimit, func(r result) bool {
			next = r.I + step
			return e.record(cfg, r)
		})
		if !o.crashed && !o.hung {
			w.stop(syscall.SIGKILL)
			if next < to && !e.stopped() {
				e.mu.Lock()
				e.cut = true
				e.mu.Unlock()
			}
			return
		}
		sig := syscall.SIGKILL
		if o.hung {
			sig = syscall.SIGQUIT
		}
		se := w.stop(sig)
		if o.stderr == "" {
			o.stderr = se
		}
		if o.at < 0 {
			crashes++
			if crashes > 3 {
				e.setInfra("worker died outside a case: " + head(o.stderr, 2000))
				return
			}
			continue
		}
		at := o.at
		if e.race && o.crashed {
			if r := raceReport(o.stderr); r != "" {
				e.setViol(&violation{msg: "the outcome depends on scheduling, there is a data race: " + head(r, 3000), cfg: cfg, cfgB: -1, index: at, seedIdx: e.seedIndex(at), kind: "race"})
				return
			}
			if !isGoCrash(o.stderr) {
				e.setInfra("race detector: " + head(o.stderr, 500))
				return
			}
		}
		if exhausted(o) { // must reproduce in a fresh worker
			if _, o2 := e.evalSeed(cfg, at, 2*hangLimit); exhausted(o2) {
				e.setViol(&violation{msg: "the process needs unbounded memory: " + head(o2.stderr, 600), cfg: cfg, cfgB: -1, index: at, seedIdx: e.seedIndex(at), kind: "memory"})
				return
			}
		}
		if o.crashed && isOOM(o) {
			e.mu.Lock()
			e.retries++
			n := e.retries
			e.mu.Unlock()
			if n > 5 {
				e.setInfra("workers keep being killed: " + head(o.stderr, 2000))
				return
			}
			time.Sleep(2 * time.Second)
			next = at
			continue
		}
		if o.crashed {
			e.setViol(&violation{msg: "the process crashed: " + crashHead(o.stderr), cfg: cfg, cfgB: -1, index: at, seedIdx: e.seedIndex(at), kind: "crash"})
			return
		}
		// hang: must reproduce in a fresh worker
		r2, o2 := e.evalSeed(cfg, at, 2*hangLimit)
		if o2.hung {
			e.setViol(&violation{msg: "the call does not return (hang, reproduced): " + head(o.stderr, 3000), cfg: cfg, cfgB: -1, index: at, seedIdx: e.seedIndex(at), kind: "hang"})
			return
		}
		if o2.crashed && !isOOM(o2) {
			e.setViol(&violation{msg: "the process crashed: " + crashHead(o2.stderr), cfg: cfg, cfgB: -1, index: at, seedIdx: e.seedIndex(at), kind: "crash"})
			return
		}
		e.mu.Lock()
		e.retries++
		e.mu.Unlock()
		if r2 != nil && !e.record(cfg, *r2) {
			return
		}
		next = at + step
	}
}

func crashHead(s string) string {
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			return head(s[i:], 3000)
		}
	}
	return head(s, 3000)
}

func (e *engine) evalSeed(cfg, i int, limit time.Duration) (*result, outcome) {
	w, err := e.startWorker(cfg)
	if err != nil {
		return nil, outcome{}
	}
	div := 1
	if e.p.Cross {
		div = len(e.configs)
	}
	var res *result
	o := w.drive(request{From: i, To: i + 1, Step: 1, Seed: e.seed, Div: div, Tier: e.tier}, limit, func(r result) bool { res = &r; return true })
	sig := syscall.SIGKILL
	if o.hung {
		sig = syscall.SIGQUIT
	}
	se := w.stop(sig)
	if o.stderr == "" {
		o.stderr = se
	}
	return res, o
}

// probe evaluates tapes on persistent workers, one per configuration.
type probe struct {
	e  *engine
	ws map[int]*worker
}

func (pr *probe) eval(cfg int, tape []uint64, idx int, want bool, limit time.Duration) (result, outcome) {
	w := pr.ws[cfg]
	if w == nil {
		var err error
		w, err = pr.e.startWorker(cfg)
		if err != nil {
			return result{Status: "infra", Msg: err.Error()}, outcome{}
		}
		pr.ws[cfg] = w
	}
	var res result
	res.Status = "none"
	o := w.drive(request{IsTape: true, Tape: tape, WantTape: want, Index: idx, Tier: pr.e.tier}, limit, func(r result) bool { res = r; return true })
	if o.crashed || o.hung {
		sig := syscall.SIGKILL
		se := w.stop(sig)
		if o.stderr == "" {
			o.stderr = se
		}
		pr.ws[cfg] = nil
	}
	return res, o
}

func (pr *probe) close() {
	for _, w := range pr.ws {
		if w != nil {
			w.stop(syscall.SIGKILL)
		}
	}
}

func enumIndex(p *Prop, seedIdx int) int {
	if seedIdx < p.Fixed && p.RunIndexed != nil {
		return seedIdx
	}
	return -1
}

// fails tells whether the tape fails in the way of v, with the message.
func (pr *probe) fails(v *violation, tape []uint64, tries int) (bool, string, result) {
	idx := enumIndex(pr.e.p, v.seedIdx)
	for k := 0; k < tries; k++ {
		if v.cfgB >= 0 {
			a, oa := pr.eval(v.cfg, tape, idx, true, 60*time.Second)
			b, ob := pr.eval(v.cfgB, tape, idx, true, 60*time.Second)
			if oa.crashed || ob.crashed || oa.hung || ob.hung || a.Status == "infra" || b.Status == "infra" {
				continue
			}
			if a.FP != b.FP {
				return true, fmt.Sprintf("outcome differs between %d and %d CPUs:\n--- %d CPUs: %s\n--- %d CPUs: %s", len(pr.e.configs[v.cfg]), len(pr.e.configs[v.cfgB]), len(pr.e.configs[v.cfg]), head(a.FP, 600), len(pr.e.configs[v.cfgB]), head(b.FP, 600)), a
			}
			continue
		}
		lim := 30 * time.Second
		r, o := pr.eval(v.cfg, tape, idx, true, lim)
		if rr := raceReport(o.stderr); v.kind == "race" && o.crashed && rr != "" {
			return true, "the outcome depends on scheduling, there is a data race: " + head(rr, 3000), r
		}
		if o.crashed && !isOOM(o) {
			return true, "the process crashed: " + crashHead(o.stderr), r
		}
		if v.kind == "memory" && exhausted(o) {
			return true, fmt.Sprintf("the process needs unbounded memory (more than %d GB of address space)", pr.e.p.gigabytes()), r
		}
		if o.hung && v.kind == "hang" {
			return true, "the call does not return", r
		}
		if r.Status == "fail" {
			return true, r.Msg, r
		}
	}
	return false, "", result{}
}

// regenTape draws the tape of a generated case without running the code under test is not
// possible in general; instead the tape is recovered from a pure run of the generator.
func (e *engine) recoverTape(v *violation) {
	if v.tape != nil || enumIndex(e.p, v.seedIdx) >= 0 {
		return
	}
	// the draws of a case are the PRNG stream; a long prefix of raw values reproduces it because
	// replay reduces each value modulo the requested range exactly like generation does.
	st := Hash64(e.p.ID, strconv.FormatUint(e.seed, 10), strconv.Itoa(v.seedIdx))
	n := 200000
	raw := make([]uint64, n)
	for i := range raw {
		raw[i] = splitmix(&st)
	}
	if e.p.Strata {
		raw[0] = uint64(v.seedIdx)
	}
	v.tape = raw
}

func (e *engine) shrink(v *violation) {
	e.recoverTape(v)
	v.original = v.msg
	pr := &probe{e: e, ws: map[int]*worker{}}
	defer pr.close()
	tries := 1
	ok, msg, r := pr.fails(v, v.tape, 3)
	if !ok {
		v.msg += "\n(not reproduced on replay: depends on scheduling)"
		if len(v.tape) > 100000 {
			v.tape = v.tape[:100000]
		}
		return
	}
	v.msg = msg
	if r.Attach != nil {
		v.attach = r.Attach
	}
	best := v.tape
	if r.Tape != nil {
		best = r.Tape
	}
	spans := r.Spans
	limit := time.Now().Add(50 * time.Second)
	if os.Getenv("VERIF_NOSHRINK") != "" { // development
		limit = time.Now()
	}
	budget := 3000
	try := func(c []uint64) bool {
		if budget <= 0 || time.Now().After(limit) {
			return false
		}
		budget--
		ok, m, r := pr.fails(v, c, tries)
		if ok {
			if r.Tape != nil {
				c = r.Tape
				spans = r.Spans
			}
			if len(c) > len(best) {
				return false
			}
			best = append([]uint64(nil), c...)
			v.msg = m
			if r.Attach != nil {
				v.attach = r.Attach
			}
			return true
		}
		return false
	}
	if v.kind == "race" {
		limit = limit.Add(-20 * time.Second)
	}
	if v.kind == "hang" {
		budget = 3
	}
	if v.kind == "memory" {
		budget = 8
	}
	if enumIndex(e.p, v.seedIdx) >= 0 {
		v.tape = best
		return
	}
	for round := 0; round < 6; round++ {
		before := len(best)
		improved := false
		// drop runs of outermost spans, halves first
		for size := 1 << 12; size >= 1; size /= 2 {
			for at := 0; ; {
				top := topSpans(spans)
				if at >= len(top) || size > len(top) || budget <= 0 || time.Now().After(limit) {
					break
				}
				end := at + size
				if end > len(top) {
					end = len(top)
				}
				var c []uint64
				pos := 0
				for _, s := range top[at:end] {
					if s[1] > len(best) {
						break
					}
					c = append(c, best[pos:s[0]]...)
					pos = s[1]
				}
				c = append(c, best[pos:]...)
				if try(c) {
					improved = true
				} else {
					at += size
				}
			}
		}
		// drop whole spans (largest first) and replace them by nothing
		for changed := true; changed; {
			changed = false
			ss := append([][2]int(nil), spans...)
			sort.Slice(ss, func(i, j int) bool { return ss[i][1]-ss[i][0] > ss[j][1]-ss[j][0] })
			for _, s := range ss {
				if s[1] > len(best) || s[0] >= s[1] {
					continue
				}
				c := append(append([]uint64(nil), best[:s[0]]...), best[s[1]:]...)
				if try(c) {
					changed, improved = true, true
					break
				}
				if budget <= 0 || time.Now().After(limit) {
					break
				}
			}
		}
		// truncate
		for n := len(best) / 2; n > 0; n /= 2 {
			for len(best) > n && try(best[:len(best)-n]) {
				improved = true
			}
		}
		// zero blocks
		for size := len(best) / 4; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				z := true
				for _, x := range best[i : i+size] {
					if x != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint64(nil), best...)
				for k := i; k < i+size; k++ {
					c[k] = 0
				}
				if try(c) {
					improved = true
				}
				if budget <= 0 || time.Now().After(limit) {
					break
				}
			}
			if budget <= 0 || time.Now().After(limit) {
				break
			}
		}
		// delete blocks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				} else {
					i += size
				}
				if budget <= 0 || time.Now().After(limit) {
					break
				}
			}
		}
		// lower values
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				c := append([]uint64(nil), best...)
				c[i] /= 2
				if !try(c) {
					c = append([]uint64(nil), best...)
					c[i]--
					if !try(c) {
						break
					}
				}
				improved = true
				if i >= len(best) {
					break
				}
			}
			if budget <= 0 || time.Now().After(limit) {
				break
			}
		}
		if !improved || budget <= 0 || time.Now().After(limit) {
			break
		}
		_ = before
	}
	v.tape = best
}

// topSpans returns the outermost spans in order.
func topSpans(spans [][2]int) [][2]int {
	ss := append([][2]int(nil), spans...)
	sort.Slice(ss, func(i, j int) bool {
		if ss[i][0] != ss[j][0] {
			return ss[i][0] < ss[j][0]
		}
		return ss[i][1] > ss[j][1]
	})
	var out [][2]int
	end := 0
	for _, s := range ss {
		if s[0] >= end && s[1] > s[0] {
			out = append(out, s)
			end = s[1]
		}
	}
	return out
}

func (e *engine) writeReplay(v *violation) string {
	dir := filepath.Join(e.root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", e.p.ID, e.tier, e.seed))
	att := map[string]string{}
	for k, c := range v.attach {
		att[k] = head(strconv.QuoteToASCII(c), 60000)
	}
	doc := map[string]interface{}{
		"property": e.p.ID, "seed": e.seed, "tier": e.tier, "case": v.index, "enumerated": enumIndex(e.p, v.seedIdx),
		"cpus": len(e.configs[v.cfg]), "kind": v.kind, "message": v.msg, "first_message": v.original,
		"tape": v.tape, "inputs": att,
		"how": fmt.Sprintf("bash /verif/run.sh %s replay %s", e.p.ID, path),
	}
	if v.cfgB >= 0 {
		doc["cpus_b"] = len(e.configs[v.cfgB])
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}
