// Package pbt is a small property-based testing engine: a choice-tape generator,
// crash-isolated worker processes, shrinking on the tape, and evidence/replay output.
package pbt

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

// T is handed to a property: it draws choices and collects observations.
type T struct {
	state   uint64
	replay  []uint64
	isReply bool
	pos     int
	first   int64 // 1 + the value of the first draw, if it is prescribed
	Tape    []uint64
	Spans   [][2]int

	Dir  string // scratch directory owned by the worker
	CPUs int    // runtime.NumCPU() of the worker
	Tier string

	Labels      []string
	Keys        []uint64
	Evals       int
	Sample      string
	Fingerprint string
	Attach      map[string]string
}

type failSignal struct{ msg string }
type infraSignal struct{ msg string }

func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Hash64 hashes strings.
func Hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// draw returns a value in [0,n); n==0 means the full 64-bit range.
func (t *T) draw(n uint64) uint64 {
	var v uint64
	if t.isReply {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if n != 0 {
				v %= n
			}
		}
	} else {
		v = splitmix(&t.state)
		if t.first > 0 && t.pos == 0 {
			v = uint64(t.first - 1)
		}
		if n != 0 {
			v %= n
		}
	}
	t.pos++
	t.Tape = append(t.Tape, v)
	return v
}

// N draws an integer in [0,n).
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.draw(uint64(n)))
}

// R draws an integer in [lo,hi].
func (t *T) R(lo, hi int) int { return lo + t.N(hi-lo+1) }

// U64 draws any 64-bit value.
func (t *T) U64() uint64 { return t.draw(0) }

// Chance is true with probability num/den; 0 on the tape means false.
func (t *T) Chance(num, den int) bool { return t.N(den) >= den-num }

// Bool is a fair coin.
func (t *T) Bool() bool { return t.N(2) == 1 }

// Pick chooses one string.
func (t *T) Pick(xs ...string) string { return xs[t.N(len(xs))] }

// W draws an index with the given weights.
func (t *T) W(ws ...int) int {
	s := 0
	for _, w := range ws {
		s += w
	}
	k := t.N(s)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// Perm draws a permutation of 0..n-1 (identity when the tape is zero).
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes draws n bytes with a single choice (0 on the tape: all zero).
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	s := t.draw(0)
	if s == 0 {
		return b
	}
	mode := s % 8
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(i)
		case 1:
			b[i] = 0xFF
		default:
			b[i] = byte(splitmix(&s))
		}
	}
	return b
}

// Group marks the draws of f as one span, a unit for the shrinker.
func (t *T) Group(f func()) {
	s := len(t.Tape)
	f()
	t.Spans = append(t.Spans, [2]int{s, len(t.Tape)})
}

// Label adds a name to the histogram of generated shapes.
func (t *T) Label(format string, a ...interface{}) {
	t.Labels = append(t.Labels, fmt.Sprintf(format, a...))
}

// NonTrivial records one non-trivial evaluation identified by key.
func (t *T) NonTrivial(key ...string) { t.Keys = append(t.Keys, Hash64(key...)) }

// Eval counts n evaluations of the property (a case counts at least once).
func (t *T) Eval(n int) { t.Evals += n }

// Fatalf reports a violation of the property.
func (t *T) Fatalf(format string, a ...interface{}) { panic(failSignal{fmt.Sprintf(format, a...)}) }

// Infra reports that the harness itself could not work.
func (t *T) Infra(format string, a ...interface{}) { panic(infraSignal{fmt.Sprintf(format, a...)}) }

// Note attaches a rendered input to the replay file of a failure.
func (t *T) Note(name, content string) {
	if t.Attach == nil {
		t.Attach = map[string]string{}
	}
	t.Attach[name] = content
}

// File writes content to a scratch file and returns its path.
func (t *T) File(name string, content []byte) string {
	p := filepath.Join(t.Dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		t.Infra("mkdir: %v", err)
	}
	if err := os.WriteFile(p, content, 0o644); err != nil {
		t.Infra("write %s: %v", p, err)
	}
	t.Note(name, string(content))
	return p
}

// notAvailable is the panic of a hook whose target is not there (see hookfallback.py).
const notAvailable = "hook not available"

type skipSignal struct{}

// Call runs code under test; a panic there is a violation.
func (t *T) Call(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failSignal); ok {
				panic(r)
			}
			if _, ok := r.(infraSignal); ok {
				panic(r)
			}
			if r == notAvailable {
				panic(skipSignal{})
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			panic(failSignal{fmt.Sprintf("%s panicked: %v\n%s", what, r, st)})
		}
	}()
	f()
}

// Pick2 chooses one int.
func (t *T) Pick2(xs ...int) int { return xs[t.N(len(xs))] }
