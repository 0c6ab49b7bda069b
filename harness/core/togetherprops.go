package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// longImg is an image of many records; some of them have a wrong checksum somewhere.
func longImg(t *pbt.T, name string) imgItem {
	format := t.Pick("s19", "hex")
	n, size, base := t.Pick2(3000, 500, 1200, 6000), t.R(1, 16), uint32(t.N(16))<<20
	bad, noise := -1, t.U64()
	if t.Bool() {
		bad = t.N(n)
		if t.Chance(1, 3) {
			bad = n - 1
		}
	}
	want := map[uint32]byte{}
	var lines []string
	for i := 0; i < n; i++ {
		a := base + uint32(16*i)
		data := make([]byte, size)
		for k := range data {
			noise = (noise ^ noise>>30) * 0xbf58476d1ce4e5b9
			data[k] = byte(noise >> 40)
			noise += 0x9e3779b97f4a7c15
			want[a+uint32(k)] = data[k]
		}
		line := ""
		if format == "s19" {
			line = gen.SrecLine(3, 4, a, data, false)
		} else {
			if a&0xffff == 0 || i == 0 {
				lines = append(lines, gen.HexLine(4, 0, []byte{byte(a >> 24), byte(a >> 16)}, false))
			}
			line = gen.HexLine(0, uint16(a), data, false)
		}
		if i == bad {
			k := len(line) - 1
			line = line[:k] + string("0123456789ABCDEF"[(strings.IndexByte("0123456789ABCDEF", line[k])+1)%16])
		}
		lines = append(lines, line)
	}
	if format == "hex" {
		lines = append(lines, ":00000001FF")
	}
	im := imgItem{name: name + "." + format, text: []byte(strings.Join(lines, "\n") + "\n"), kind: "long image", want: want}
	if bad >= 0 {
		im.kind, im.want = "long image with a wrong checksum", nil
	}
	return im
}

// together: several files or calibrations are read at the same time; each must come out as if it were read alone.
func together(t *pbt.T) {
	type job struct {
		doc      *docItem
		img      *imgItem
		cd       calibrationReader.CalibrationData
		err      error
		panicked string
	}
	n, rounds := t.R(2, 5), t.R(1, 3)
	whole, long := false, false // single files
	switch t.W(4, 4, 1) {
	case 1: // calibrations
		whole = true
	case 2: // images that take their time
		long, n, rounds = true, t.R(4, 8), 3
		t.Label("long images")
	}
	var files []job
	var desc []string
	for i := 0; i < n; i++ {
		i := i
		t.Group(func() {
			j := job{}
			if i > 0 && t.Chance(1, 6) { // one file read twice
				j = files[t.N(i)]
			} else {
				name := fmt.Sprintf("t%d", i)
				if long {
					im := longImg(t, name)
					im.path = t.File(im.name, im.text)
					j.img = &im
				} else if whole || t.Chance(4, 5) {
					d := genDocItem(t, name)
					if d.name != "" {
						d.path = t.File(d.name, d.text)
					}
					j.doc = &d
				}
				if whole || j.doc == nil && j.img == nil {
					im := genImg(t, name)
					if im.name != "" {
						im.path = t.File(im.name, im.text)
					}
					j.img = &im
				}
			}
			files = append(files, j)
			s := ""
			if j.doc != nil {
				s = j.doc.kind
			}
			if j.img != nil {
				s = strings.Trim(s+"+"+j.img.kind, "+")
			}
			desc = append(desc, s)
			t.Label("%s", s)
		})
	}
	t.Label("at the same time:%d", n)
	t.Label("calibrations:%v", whole)
	t.NonTrivial(fmt.Sprint(t.Tape))
	t.Sample = strings.Join(desc, "; ")
	t.Eval(n * rounds)
	for r := 0; r < rounds; r++ {
		jobs := append([]job(nil), files...)
		t.Call("reading at the same time", func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range jobs {
				wg.Add(1)
				go func(j *job) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							j.panicked = fmt.Sprintf("%v\n%s", x, debug.Stack())
						}
					}()
					<-start
					switch {
					case whole:
						j.cd, j.err = calibrationReader.ReadCalibration(j.doc.path, j.img.path)
					case j.doc != nil:
						j.cd.A2l, j.err = a2l.ParseFromFile(j.doc.path)
					case strings.HasSuffix(j.img.path, ".hex"):
						j.cd.Hex, j.err = ihex32.ParseFromFile(j.img.path)
					default:
						j.cd.Hex, j.err = srec19.ParseFromFile(j.img.path)
					}
				}(&jobs[i])
			}
			close(start)
			wg.Wait()
		})
		quiet()
		for i := range jobs {
			j := &jobs[i]
			what := fmt.Sprintf("%s, one of %v read at the same time", desc[i], desc)
			if j.panicked != "" {
				t.Fatalf("%s: panic: %s", what, j.panicked)
			}
			if j.doc != nil && j.doc.doc == nil || j.img != nil && j.img.want == nil {
				if j.err == nil {
					t.Fatalf("%s: accepted", what)
				}
				continue
			}
			if j.err != nil {
				t.Fatalf("%s: rejected: %v", what, j.err)
			}
			if j.doc != nil {
				if df := (&gen.Cmp{}).Doc(j.doc.doc, j.cd.A2l); df != "" {
					t.Fatalf("%s: %s", what, df)
				}
			}
			if j.img != nil {
				if df := gen.DiffImage(j.cd.Hex, j.img.want); df != "" {
					t.Fatalf("%s: %s", what, df)
				}
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C07", Quick: 1500, Thorough: 40000, Rule: "every set of files read at the same time", Oracle: "each read is compared with what was written into its own file",
		Race: 60, Run: together})
}
