package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// cost of one read: processor time and bytes allocated.
func cost(f func()) (time.Duration, uint64) {
	runtime.GC()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	s := cpuTime()
	f()
	e := cpuTime() - s
	runtime.ReadMemStats(&b)
	return e, b.TotalAlloc - a.TotalAlloc
}

// effort: four times the file takes about four times the effort.
func effort(t *pbt.T) {
	debug.SetMemoryLimit(math.MaxInt64)
	debug.SetGCPercent(100)
	var file func(n int) []byte
	var what, ext string
	max := 0
	var read func(p string) bool
	all := gen.Spots()
	switch spot := all[t.N(len(all))]; spot.What {
	default:
		g := gen.A2LGrowth(t, spot)
		file, what, ext, max = g.File, g.What, "a2l", g.Max
		read = func(p string) bool { _, err := a2l.ParseFromFile(p); return err == nil }
	case "ihex":
		file, what, ext = gen.HexGrowth(t, false, spot.Hex)
		read = func(p string) bool { _, err := ihex32.ParseFromFile(p); return err == nil }
	case "srec":
		file, what, ext = gen.HexGrowth(t, true, spot.Hex)
		read = func(p string) bool { _, err := srec19.ParseFromFile(p); return err == nil }
	}
	small, large := file(1), file(2)
	unit := len(large) - len(small)
	if unit <= 0 {
		return
	}
	size := t.Pick2(10<<20, 4<<20, 16<<20, 1<<20)
	if unit > 40 && t.Chance(3, 4) { // many of them
		size = 16 << 20
	}
	n := size / 4 / unit
	if max > 0 && n > max/4 {
		n = max / 4
	}
	if n < 1 {
		n = 1
	}
	head := clip(string(file(2)), 3000)
	t.Note("two-repetitions."+ext, head)
	t.Label("%s: %s", ext, strings.SplitN(what, " \"", 2)[0])
	t.NonTrivial(what, head)
	t.Sample = fmt.Sprintf("%s: %d and %d repetitions of %d bytes", what, n, 4*n, unit)
	ok := false
	p1, p4 := filepath.Join(t.Dir, "one."+ext), filepath.Join(t.Dir, "four."+ext)
	defer os.Remove(p1)
	defer os.Remove(p4)
	// smaller members of the family first: effort that explodes shows early
	for _, k := range []int{n / 16, n / 4, n} {
		if k < 1 {
			continue
		}
		one, four := file(k), file(4*k)
		for p, b := range map[string][]byte{p1: one, p4: four} {
			if err := os.WriteFile(p, b, 0o644); err != nil {
				t.Infra("write: %v", err)
			}
		}
		var c1, c4 time.Duration
		for try := 0; ; try++ {
			x1, a1 := cost(func() { t.Call("reading", func() { read(p1) }) })
			x4, a4 := cost(func() { t.Call("reading", func() { ok = read(p4) }) })
			if try == 0 || x1 > c1 {
				c1 = x1
			}
			if try == 0 || x4 < c4 {
				c4 = x4
			}
			t.Eval(1)
			if a4 > 9*a1+(256<<20) {
				t.Fatalf("%s: reading %d bytes allocates %d MB, reading %d bytes %d MB", what, len(one), a1>>20, len(four), a4>>20)
			}
			if more := len(four) - len(one); a4 > a1 && a4-a1 > 6000*uint64(more)+(256<<20) {
				t.Fatalf("%s: %d bytes more in the file take %d MB more memory", what, more, (a4-a1)>>20)
			}
			if c4 <= 8*c1+time.Second/2 {
				break
			}
			if try == 4 || try >= 2 && c4 > 4*time.Second {
				t.Fatalf("%s: reading %d bytes takes %v of processor time, reading %d bytes %v", what, len(one), c1, len(four), c4)
			}
		}
	}
	t.Label("accepted: %v", ok)
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C06", Quick: 400, Thorough: 6000, Rule: "every family of files with a part that grows", Oracle: "metamorphic: a file four times as large takes at most about eight times the memory and processor time",
		Strata: true, Memory: 7, Run: effort})
}
