package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

func load(t *pbt.T, format, path string) (map[uint32]byte, error) {
	var m map[uint32]byte
	var err error
	t.Call("loading "+format+" file", func() {
		if format == "hex" {
			m, err = ihex32.ParseFromFile(path)
		} else {
			m, err = srec19.ParseFromFile(path)
		}
	})
	return m, err
}

func describe(im *gen.Image) string {
	s := string(im.Text())
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%d records, %d bytes, %d bank records, eol %q: %q", len(im.Recs), len(im.Want), im.Banks, im.EOL, s)
}

func labelImage(t *pbt.T, im *gen.Image) {
	t.Label("records:%s", bucket(len(im.Recs)))
	t.Label("banks:%s", bucket(im.Banks))
	t.Label("eol:%q", im.EOL)
	if im.Crossing {
		t.Label("record crosses 64K border")
	}
	if len(im.Blank) > 0 {
		t.Label("blank lines")
	}
	if len(im.Recs) >= 2*t.CPUs {
		t.Label("several records per goroutine")
	} else {
		t.Label("fewer than 2 records per goroutine")
	}
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n <= 5:
		return "2-5"
	case n <= 20:
		return "6-20"
	case n <= 100:
		return "21-100"
	}
	return ">100"
}

func fidelity(format string) func(t *pbt.T) {
	return func(t *pbt.T) {
		var im *gen.Image
		if format == "hex" {
			im = gen.IHex(t)
		} else {
			im = gen.SRec(t)
		}
		txt := im.Text()
		p := t.File("image."+format, txt)
		labelImage(t, im)
		if len(im.Want) >= 2 && len(im.Recs) >= 2 {
			t.NonTrivial(string(txt))
		}
		t.Sample = describe(im)
		m, err := load(t, format, p)
		if err != nil {
			t.Fatalf("a well-formed file is rejected: %v", err)
		}
		if d := gen.DiffImage(m, im.Want); d != "" {
			t.Fatalf("the image differs from the file: %s", d)
		}
	}
}

func damage(format string) func(t *pbt.T) {
	return func(t *pbt.T) {
		var im *gen.Image
		if format == "hex" {
			im = gen.IHex(t)
		} else {
			im = gen.SRec(t)
		}
		name, at := gen.Damage(t, im)
		if name == "" {
			return
		}
		if t.Chance(1, 6) { // a second damage elsewhere does not heal the first
			im.Damaged = map[int]bool{at: true}
			if n2, _ := gen.Damage(t, im); n2 != "" {
				t.Label("two damaged records")
			}
		}
		txt := im.Text()
		p := t.File("image."+format, txt)
		t.Label("damage:%s", name)
		t.Label("records:%s", bucket(len(im.Recs)))
		t.NonTrivial(string(txt))
		t.Sample = fmt.Sprintf("%s in record %d %q of %d records", name, at, im.Recs[at].Line, len(im.Recs))
		m, err := load(t, format, p)
		if err == nil {
			t.Fatalf("a file with damage %q in record %d (%q) is loaded without error (%d bytes)", name, at, im.Recs[at].Line, len(m))
		}
	}
}

func fpImage(m map[uint32]byte, err error) string {
	if err != nil {
		return "rejected"
	}
	as := make([]int, 0, len(m))
	for a := range m {
		as = append(as, int(a))
	}
	sort.Ints(as)
	var sb strings.Builder
	for _, a := range as {
		fmt.Fprintf(&sb, "%08x=%02x ", a, m[uint32(a)])
	}
	s := sb.String()
	return fmt.Sprintf("%d bytes #%x %.200s", len(m), pbt.Hash64(s), s)
}

// cpuIndependence: one set of files, loaded repeatedly and concurrently, on every CPU count.
func cpuIndependence(t *pbt.T) {
	n := t.R(1, 3)
	type item struct {
		path, format, damage string
		want                 map[uint32]byte
	}
	var items []item
	for i := 0; i < n; i++ {
		var im *gen.Image
		if t.Bool() {
			im = gen.SRec(t)
		} else {
			im = gen.IHex(t)
		}
		it := item{format: im.Format, want: im.Want}
		switch t.W(6, 2, 1) {
		case 1:
			it.damage, _ = gen.Damage(t, im)
		case 2: // grey area: arbitrary edit, only determinism is required
			if len(im.Recs) > 0 {
				k := t.N(len(im.Recs))
				l := im.Recs[k].Line
				im.Recs[k].Line = l + t.Pick(" ", "00", "\t", "  ", "x", "\n", "\r")
				it.damage = "?"
			}
		}
		it.path = t.File(fmt.Sprintf("f%d.%s", i, im.Format), im.Text())
		t.NonTrivial(string(im.Text()))
		t.Label("format:%s", im.Format)
		t.Label("kind:%s", map[bool]string{true: "damaged", false: "valid"}[it.damage != ""])
		items = append(items, it)
		if i == 0 {
			t.Sample = fmt.Sprintf("%d files; first: %s", n, describe(im))
		}
	}
	reps := t.R(1, 2)
	t.Label("concurrent loads:%d", n*reps)
	type out struct {
		m   map[uint32]byte
		err error
		bad interface{}
	}
	outs := make([]out, n*reps)
	done := make(chan int, n*reps)
	for j := range outs {
		go func(j int) {
			it := items[j%n]
			defer func() {
				if r := recover(); r != nil {
					outs[j].bad = r
				}
				done <- j
			}()
			if it.format == "hex" {
				outs[j].m, outs[j].err = ihex32.ParseFromFile(it.path)
			} else {
				outs[j].m, outs[j].err = srec19.ParseFromFile(it.path)
			}
		}(j)
	}
	for range outs {
		<-done
	}
	t.Eval(n * reps)
	var fps []string
	for j, o := range outs {
		it := items[j%n]
		if o.bad != nil {
			t.Fatalf("concurrent load %d panicked: %v", j, o.bad)
		}
		switch it.damage {
		case "":
			if o.err != nil {
				t.Fatalf("load %d of %d: well-formed file %s rejected: %v", j, len(outs), it.path, o.err)
			}
			if d := gen.DiffImage(o.m, it.want); d != "" {
				t.Fatalf("load %d of %d concurrent loads returned another image than its file: %s", j, len(outs), d)
			}
		case "?":
		default:
			if o.err == nil {
				t.Fatalf("load %d: file with damage %q accepted", j, it.damage)
			}
		}
		fp := fpImage(o.m, o.err)
		if j >= n && fp != fps[j%n] {
			t.Fatalf("two loads of the same file differ: %s / %s", fps[j%n], fp)
		}
		fps = append(fps, fp)
	}
	t.Fingerprint = strings.Join(fps[:n], " | ")
}

// arbitrary content: mutated and random files.
func hexRobust(t *pbt.T) {
	var content []byte
	format := t.Pick("hex", "s19")
	kind := t.W(4, 2, 2, 1, 1)
	switch kind {
	case 0: // mutated well-formed file
		var im *gen.Image
		if format == "hex" {
			im = gen.IHex(t)
		} else {
			im = gen.SRec(t)
		}
		if len(im.Recs) > 60 {
			im.Recs = im.Recs[:60]
		}
		content = im.Text()
		for k := t.R(1, 6); k > 0; k-- {
			content = mutate(t, content)
		}
	case 1: // lines over a small alphabet around the interesting lengths
		var sb bytes.Buffer
		for k := t.N(20); k > 0; k-- {
			n := t.N(16)
			if t.Chance(1, 4) {
				n = t.N(60)
			}
			switch t.W(3, 2, 1, 1) {
			case 0:
				sb.WriteString(t.Pick(":", "S3", "S0", "S", "S1", "S7", ""))
			case 1:
				sb.WriteString(t.Pick(":02000004", ":00000001", ":10", "S315", "S305", "S3"))
			}
			for i := 0; i < n; i++ {
				sb.WriteByte("0123456789abcdefABCDEF:SG \t\x00\xff"[t.N(29)])
			}
			sb.WriteString(t.Pick("\n", "\r\n", "\r", "\n\n", ""))
		}
		content = sb.Bytes()
	case 2:
		content = t.Bytes(t.N(200))
	case 3:
		content = []byte(t.Pick("", "\n", "\r\n", ":", "S", "S3", "\r\n\r\n", ":00000001FF", ":\n", "S3\n", "\x00", ":::::::::::", "SSSSSSSSSSSSSSS", "S3S3S3S3S3S3S3", ":0200000400\n", ":02000004\r\n", "\xef\xbb\xbf:00000001FF\n"))
	case 4: // other format's content
		var im *gen.Image
		if format == "hex" {
			im = gen.SRec(t)
		} else {
			im = gen.IHex(t)
		}
		content = im.Text()
	}
	p := t.File("any."+format, content)
	if t.Chance(1, 60) {
		p = t.Dir + "/" + t.Pick("missing."+format, "", "any."+format+"/x")
		kind = 9
	}
	t.Label("kind:%d %s", kind, format)
	t.NonTrivial(format, string(content))
	t.Sample = fmt.Sprintf("%s: %.120q", format, content)
	m, err := load(t, format, p)
	if kind == 9 {
		if err == nil {
			t.Fatalf("loading unreadable path %q succeeded", p)
		}
		return
	}
	if err != nil {
		t.Label("rejected")
		return
	}
	t.Label("accepted")
	if len(m)*2 > len(content) {
		t.Fatalf("%d bytes loaded from a file of only %d characters", len(m), len(content))
	}
	if kind == 4 && len(m) > 0 {
		t.Fatalf("%d bytes loaded from a file in the other format", len(m))
	}
	// every loaded byte must be spelled out at that address by some line
	ok := spelled(format, content)
	for a, v := range m {
		if !ok[uint64(a)<<8|uint64(v)] {
			t.Fatalf("loaded byte %02X at address %08X is not spelled out by any line of the file", v, a)
		}
	}
}

// spelled returns the address/value pairs any line of the file could denote: for Intel-HEX a data
// line under any bank named in the file (or none), for S-record an S1/S2/S3 line.
func spelled(format string, content []byte) map[uint64]bool {
	out := map[uint64]bool{}
	lines := strings.FieldsFunc(string(content), func(r rune) bool { return r == '\n' || r == '\r' })
	hv := func(s string) (uint64, bool) {
		var v uint64
		for i := 0; i < len(s); i++ {
			c := s[i]
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | uint64(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | uint64(c-'a'+10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | uint64(c-'A'+10)
			default:
				return 0, false
			}
		}
		return v, true
	}
	if format == "hex" {
		banks := map[uint64]bool{0: true}
		for _, l := range lines {
			l = strings.TrimSpace(l)
			if len(l) >= 13 && l[0] == ':' && (l[7:9] == "04" || l[7:9] == "02") {
				if v, ok := hv(l[9:13]); ok {
					if l[7:9] == "04" {
						banks[v<<16] = true
					} else {
						banks[v<<4] = true
					}
				}
			}
		}
		for _, l := range lines {
			l = strings.TrimSpace(l)
			if len(l) < 11 || l[0] != ':' {
				continue
			}
			a, ok := hv(l[3:7])
			if !ok {
				continue
			}
			for i := 9; i+2 <= len(l); i += 2 {
				v, ok := hv(l[i : i+2])
				if !ok {
					break
				}
				for b := range banks {
					out[uint64(uint32(b+a+uint64((i-9)/2)))<<8|v] = true
				}
			}
		}
		return out
	}
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if len(l) < 4 || l[0] != 'S' || l[1] < '1' || l[1] > '3' {
			continue
		}
		alen := int(l[1]-'0') + 1
		if len(l) < 4+2*alen {
			continue
		}
		a, ok := hv(l[4 : 4+2*alen])
		if !ok {
			continue
		}
		for i := 4 + 2*alen; i+2 <= len(l); i += 2 {
			v, ok := hv(l[i : i+2])
			if !ok {
				break
			}
			out[uint64(uint32(a+uint64((i-4-2*alen)/2)))<<8|v] = true
		}
	}
	return out
}

func mutate(t *pbt.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return []byte{byte(t.N(256))}
	}
	p := t.N(len(b))
	switch t.N(7) {
	case 0:
		b[p] = byte(t.N(256))
	case 1:
		b[p] = "0123456789ABCDEFabcdef:S\r\n \t"[t.N(28)]
	case 2:
		q := p + t.N(len(b)-p)
		b = append(b[:p], b[q:]...)
	case 3:
		b = b[:p]
	case 4:
		q := p + t.N(len(b)-p)
		if q > p+200 {
			q = p + 200
		}
		ins := append([]byte(nil), b[p:q]...)
		b = append(b[:p], append(ins, b[p:]...)...)
	case 5:
		ins := []byte(t.Pick("\n", "\r\n", ":", "S3", "00", "\x00", "\r", " "))
		b = append(b[:p], append(ins, b[p:]...)...)
	case 6:
		b = b[p:]
	}
	return b
}

var cpuAssume = []string{"worker processes are pinned to 1..8 CPUs, so the parsers' split into goroutines varies as it would between machines with up to 8 CPUs", "schedules are those the Go runtime produces under this load; they are sampled, not enumerated"}

func init() {
	pbt.Register(&pbt.Prop{ID: "H01", Quick: 6500, Thorough: 60000, Run: fidelity("hex"),
		Rule:   "at least two records and two data bytes; distinct by file text",
		Oracle: "reference image built by the generator together with the file", Assume: cpuAssume})
	pbt.Register(&pbt.Prop{ID: "S01", Quick: 6500, Thorough: 60000, Run: fidelity("s19"),
		Rule:   "at least two records and two data bytes; distinct by file text",
		Oracle: "reference image built by the generator together with the file", Assume: cpuAssume})
	pbt.Register(&pbt.Prop{ID: "H02", Quick: 6500, Thorough: 60000, Run: damage("hex"),
		Rule:   "a damage was applied; distinct by damaged file text",
		Oracle: "a file with a damage that the format makes detectable must be rejected", Assume: cpuAssume})
	pbt.Register(&pbt.Prop{ID: "S02", Quick: 6500, Thorough: 60000, Run: damage("s19"),
		Rule:   "a damage was applied; distinct by damaged file text",
		Oracle: "a file with a damage that the format makes detectable must be rejected", Assume: cpuAssume})
	pbt.Register(&pbt.Prop{ID: "H03", Quick: 170, Race: 60, Thorough: 3500, Cross: true, Run: cpuIndependence,
		Rule:   "every generated file; distinct by file text",
		Oracle: "reference image per file under concurrent loads, plus equality of the outcome across CPU counts and repetitions", Assume: cpuAssume})
	pbt.Register(&pbt.Prop{ID: "H04", Quick: 8000, Thorough: 80000, Run: hexRobust,
		Rule:   "every generated file content; distinct by format and content",
		Oracle: "the loader returns; a successful load contains only address/value pairs some line spells out", Assume: cpuAssume})
}
