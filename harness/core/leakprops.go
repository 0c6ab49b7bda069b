package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// settle waits until no goroutine runs code of the repository any more.
func settle() (left int, dump string) {
	for wait := time.Millisecond; ; wait *= 2 {
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		left, dump = 0, ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			if i := strings.Index(g, "\n"); i >= 0 && (strings.Contains(g, "calibrationReader/a2l.") || strings.Contains(g, "calibrationReader/ihex32.") ||
				strings.Contains(g, "calibrationReader/srec19.") || strings.Contains(g, "calibrationReader.")) && !strings.Contains(g, "zz_verif") {
				left++
				if dump == "" {
					dump = clip(g, 500)
				}
			}
		}
		if left == 0 || wait > 5*time.Second {
			return
		}
		time.Sleep(wait)
	}
}

// openInput returns an input file the process has open.
func openInput(inputs map[string]string) string {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return ""
	}
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil {
			if _, ok := inputs[l]; ok {
				return l
			}
		}
	}
	return ""
}

// leaks: what a sequence of reads leaves behind.
func leaks(t *pbt.T) {
	n := t.R(1, 4)
	var desc []string
	before := map[string]string{}
	var paths []string
	note := func(p string) {
		if b, err := os.ReadFile(p); err == nil {
			if _, ok := before[p]; !ok {
				paths = append(paths, p)
			}
			before[p] = string(b)
		}
	}
	for i := 0; i < n; i++ {
		i := i
		t.Group(func() {
			name := fmt.Sprintf("l%d", i) + strings.Repeat("x", t.N(9))
			switch t.N(5) {
			case 3: // several faults
				d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MinObjs: 3, MaxObjs: 25, Mods: t.Pick2(1, 1, 2)})
				w := d.Words()
				for k := t.R(1, 30); k > 0; k-- {
					w[t.N(len(w))] = gen.AnyWord(t)
				}
				p := t.File(name+".a2l", gen.Render(t, w))
				note(p)
				desc = append(desc, "A2L with several faults")
				parseFile(t, p)
			case 4:
				f := t.Pick("hex", "s19")
				var im *gen.Image
				if f == "hex" {
					im = gen.IHex(t)
				} else {
					im = gen.SRec(t)
				}
				for k := t.R(1, 30); k > 0 && len(im.Recs) > 0; k-- {
					r := t.N(len(im.Recs))
					im.Recs[r].Line = string(mutate(t, []byte(im.Recs[r].Line)))
				}
				p := t.File(name+"."+f, im.Text())
				note(p)
				desc = append(desc, "image with several faults")
				load(t, f, p)
			case 0:
				d := genDocItem(t, name)
				if d.name != "" {
					d.path = t.File(d.name, d.text)
				}
				note(d.path)
				desc = append(desc, d.kind)
				parseFile(t, d.path)
			case 1:
				m := genImg(t, name)
				if m.name != "" {
					m.path = t.File(m.name, m.text)
				}
				note(m.path)
				desc = append(desc, m.kind)
				f := "hex"
				if strings.HasSuffix(m.path, ".s19") {
					f = "s19"
				}
				load(t, f, m.path)
			case 2:
				d, m := genDocItem(t, name), genImg(t, name)
				if d.name != "" {
					d.path = t.File(d.name, d.text)
				}
				if m.name != "" {
					m.path = t.File(m.name, m.text)
				}
				note(d.path)
				note(m.path)
				desc = append(desc, d.kind+"+"+m.kind)
				readCalibration(t, d.path, m.path)
			}
		})
	}
	t.NonTrivial(fmt.Sprint(t.Tape))
	t.Sample = strings.Join(desc, "; ")
	t.Eval(n)
	for _, s := range desc {
		t.Label("%s", s)
	}
	if k, dump := settle(); k > 0 {
		t.Fatalf("%d goroutines are left behind after %v: %s", k, desc, dump)
	}
	for try := 0; ; try++ { // a file that is no longer referenced is closed by the collector
		p := openInput(before)
		if p == "" {
			break
		}
		if try > 20 {
			t.Fatalf("an input file is still open after %v", desc)
		}
		runtime.GC()
		time.Sleep(time.Duration(try) * 10 * time.Millisecond)
	}
	for _, p := range paths {
		if b, err := os.ReadFile(p); err != nil || string(b) != before[p] {
			t.Fatalf("the input file was changed by reading it (%v)", err)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C04", Quick: 2500, Thorough: 60000, Rule: "every sequence of reads", Oracle: "goroutine dump and open files of the process after the calls returned; byte comparison of the inputs", Run: leaks})
}
