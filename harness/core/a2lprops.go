package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
	"github.com/rs/zerolog"
)

func quiet() { zerolog.SetGlobalLevel(zerolog.Disabled) }

func init() { quiet() }

func parseFile(t *pbt.T, path string) (a2l.A2L, error) {
	var a a2l.A2L
	var err error
	t.Call("parsing the A2L file", func() { a, err = a2l.ParseFromFile(path) })
	return a, err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func labelDoc(t *pbt.T, d *gen.Doc, txt []byte) {
	n := 0
	for _, m := range d.Mods {
		n += len(m.Objs)
		for _, o := range m.Objs {
			t.Label("object:%s", o.Kind.Key.Kw)
		}
	}
	t.Label("objects:%s", bucket(n))
	t.Label("lines:%s", bucket(strings.Count(string(txt), "\n")))
	t.Label("modules:%d", len(d.Mods))
}

// check parses the text and compares it with the document.
func checkDoc(t *pbt.T, d *gen.Doc, txt []byte) a2l.A2L {
	a, err := parseFile(t, t.File("in.a2l", txt))
	if err != nil {
		t.Fatalf("a well-formed A2L file is rejected: %v", err)
	}
	c := &gen.Cmp{}
	if df := c.Doc(d, a); df != "" {
		t.Fatalf("%s", df)
	}
	if c.Fields == 0 {
		t.Infra("no field could be compared")
	}
	for m := range c.Missing {
		t.Label("field not found (not compared): %s", m)
	}
	return a
}

func countOpts(n *gen.Node) int {
	c := len(n.Kids)
	for _, k := range n.Kids {
		c += countOpts(k)
	}
	return c
}

func contentProp(groups string, singles int, kinds []string, maxObjs int) func(t *pbt.T) {
	return func(t *pbt.T) {
		spec := gen.DocSpec{Kinds: gen.AllKinds(groups), MinObjs: 1, MaxObjs: maxObjs, Singles: singles, Meta: groups == "A06"}
		if groups == "A06" {
			spec.MinObjs, spec.MaxObjs, spec.Kinds = 0, 2, gen.AllKinds("")
		}
		d := gen.GenDoc(t, spec)
		if t.Bool() {
			p, _ := gen.Force(t, d, groups)
			t.Label("place:%s", p)
		}
		txt := gen.Render(t, d.Words())
		labelDoc(t, d, txt)
		opts, objs := 0, 0
		for _, m := range d.Mods {
			for _, o := range m.Objs {
				if o.Kind.Group == groups || strings.Contains(groups, o.Kind.Group) {
					objs++
					opts += countOpts(o.Node)
					for _, k := range o.Node.Kids {
						t.Label("%s/%s", o.Kind.Key.Kw, k.Key.Kw)
					}
				}
			}
		}
		if opts > 0 {
			t.NonTrivial(string(txt))
		}
		t.Sample = fmt.Sprintf("%d objects, %d optional elements: %s", objs, opts, clip(string(txt), 300))
		t.Eval(objs)
		checkDoc(t, d, txt)
	}
}

func completeness(t *pbt.T) {
	max := 40
	switch t.W(5, 3, 1) {
	case 1:
		max = 160
	case 2:
		max = 6
	}
	min, small := 0, false
	if t.Chance(1, map[bool]int{true: 10, false: 80}[t.Tier == "thorough"]) {
		min, max = 300, 1500
	}
	kinds := gen.AllKinds("")
	switch t.W(10, 10, 1) {
	case 1: // few kinds, many of each: the channels of one kind fill up
		k := 1 + t.N(3)
		var sel []*gen.ModKind
		for i := 0; i < k; i++ {
			sel = append(sel, kinds[t.N(len(kinds))])
		}
		kinds = sel
	case 2: // more than a thousand of one kind
		kinds = []*gen.ModKind{kinds[t.N(len(kinds))]}
		min, max, small = 1050, 2600, true
		if t.Chance(1, 3) {
			min, max = 2600, 9000
		}
	}
	d := gen.GenDoc(t, gen.DocSpec{Kinds: kinds, MinObjs: min, MaxObjs: max, Singles: t.N(4), Small: small})
	txt := gen.Render(t, d.Words())
	labelDoc(t, d, txt)
	if len(d.Mods[0].Objs) >= 2 {
		t.NonTrivial(string(txt))
	}
	t.Sample = fmt.Sprintf("%d objects, %d bytes: %s", len(d.Mods[0].Objs), len(txt), clip(string(txt), 200))
	checkDoc(t, d, txt)
}

// layoutProp: the same words in two layouts.
func layoutProp(t *pbt.T) {
	spec := gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: 12, Singles: 1}
	if t.Chance(1, 150) { // long lines
		spec.MinObjs, spec.MaxObjs, spec.Small = 800, 2000, true
	}
	d := gen.GenDoc(t, spec)
	w := d.Words()
	t1 := []byte(strings.Join(w, "\n") + "\n")
	t2 := gen.Render(t, w)
	labelDoc(t, d, t2)
	if string(t1) != string(t2) {
		t.NonTrivial(string(t2))
	}
	if strings.Contains(string(t2), "/*") {
		t.Label("block comment or marker")
	}
	if strings.Contains(string(t2), "//") {
		t.Label("line comment or marker")
	}
	t.Sample = clip(string(t2), 300)
	a1, err1 := parseFile(t, t.File("plain.a2l", t1))
	if err1 != nil {
		t.Fatalf("one word per line: rejected: %v", err1)
	}
	a2, err2 := parseFile(t, t.File("layout.a2l", t2))
	if err2 != nil {
		t.Fatalf("accepted with one word per line, rejected in another layout: %v", err2)
	}
	if x, y := gen.DumpA2L(a1), gen.DumpA2L(a2); x != y {
		t.Fatalf("the result depends on the layout: %s", firstDiff(x, y))
	}
	c := &gen.Cmp{}
	if df := c.Doc(d, a2); df != "" {
		t.Fatalf("%s", df)
	}
	if t.Chance(1, 4) { // escaped quotation marks do not end a text; what they read as is left open
		w3 := append([]string(nil), w...)
		n := 0
		for i, x := range w3 {
			if strings.HasPrefix(x, `"`) && len(x) >= 2 && t.Chance(1, 3) {
				at := 1 + t.N(len(x)-1)
				if at < len(x) && x[at]&0xc0 == 0x80 { // not inside a character
					continue
				}
				w3[i] = x[:at] + `\"` + x[at:]
				n++
			}
		}
		if n > 0 {
			t.Label("escaped quotation marks")
			a3, err3 := parseFile(t, t.File("escaped.a2l", gen.Render(t, w3)))
			if err3 != nil {
				t.Fatalf("rejected with escaped quotation marks in texts: %v", err3)
			}
			plain := strings.NewReplacer(`\`, "", `"`, "", "'", "")
			if x, y := plain.Replace(gen.DumpA2L(a1)), plain.Replace(gen.DumpA2L(a3)); x != y {
				t.Fatalf("escaped quotation marks in texts change other content: %s", firstDiff(x, y))
			}
		}
	}
}

func firstDiff(x, y string) string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("at %d: %q / %q", i, clip(x[lo:], 160), clip(y[lo:], 160))
}

// a2lCPU: one file, valid or broken, on every CPU count, twice.
func a2lCPU(t *pbt.T) {
	spec := gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: t.Pick2(10, 3, 60), Singles: t.N(3), Mods: t.Pick2(1, 1, 1, 2)}
	if t.Chance(1, 100) {
		spec.MinObjs, spec.MaxObjs, spec.Small = 800, 2500, true
	}
	d := gen.GenDoc(t, spec)
	var txt []byte
	fault := ""
	if t.Chance(1, 3) {
		fault, txt = gen.Fault(t, d, nil)
	} else {
		txt = gen.Render(t, d.Words())
	}
	t.NonTrivial(string(txt))
	labelDoc(t, d, txt)
	t.Label("fault:%s", fault)
	t.Sample = fmt.Sprintf("fault %q, %d bytes: %s", fault, len(txt), clip(string(txt), 200))
	p := t.File("in.a2l", txt)
	var first string
	for i := 0; i < 2; i++ {
		a, err := parseFile(t, p)
		fp := "rejected"
		if err == nil {
			dump := gen.DumpA2L(a)
			fp = fmt.Sprintf("accepted, %d characters #%x", len(dump), pbt.Hash64(dump))
			if fault == "" {
				c := &gen.Cmp{}
				if df := c.Doc(d, a); df != "" {
					fp = "wrong content: " + df
				}
			}
		}
		if i == 0 {
			first = fp
		} else if fp != first {
			t.Fatalf("two parses of the same file differ: %s / %s", first, fp)
		}
	}
	t.Eval(2)
	t.Fingerprint = first
}

// strata numbers the places of the grammar combined with the kinds of faults and one or two modules; the
// numbers above are free draws. The total is odd so that a stratum meets every CPU count.
func strata(t *pbt.T) (p *gen.Path, kind, mods int) {
	ps := gen.Paths("")
	n := len(ps) * gen.FaultKinds * 2
	k := t.N(n + n/2 | 1)
	if k >= n {
		return nil, 0, 0
	}
	return ps[k/2/gen.FaultKinds], k / 2 % gen.FaultKinds, 1 + k%2
}

func a2lFaults(t *pbt.T) {
	p, kind, mods := strata(t)
	var d *gen.Doc
	var name string
	var txt []byte
	if p != nil {
		d = gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: 3, Singles: t.N(3), Mods: mods})
		focus := gen.ForcePath(t, d, p)
		if kind == 0 || kind == 8 {
			var bs []gen.BadText
			if kind == 0 {
				bs = gen.BadValues(t, d, focus, 10)
			} else {
				bs = gen.KeywordsAsValues(t, d, focus, 10)
			}
			for _, b := range bs {
				t.NonTrivial(string(b.Text))
				t.Label("fault:%s", strings.SplitN(b.Name, ":", 2)[0])
				t.Sample = fmt.Sprintf("%s: %s", b.Name, clip(string(b.Text), 250))
				t.Eval(1)
				if _, err := parseFile(t, t.File("broken.a2l", b.Text)); err == nil {
					t.Fatalf("a broken A2L file (%s) is parsed without error", b.Name)
				}
			}
			if len(bs) > 0 {
				return
			}
		}
		name, txt = gen.FaultKind(t, d, focus, kind)
		if name == "" { // not possible there
			kind = 0
			if t.Bool() {
				kind = 7
			}
			name, txt = gen.FaultKind(t, d, focus, kind)
		}
	} else {
		d = gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MinObjs: 1, MaxObjs: 8, Singles: t.N(4), Mods: t.Pick2(1, 1, 2)})
		for i := 0; i < 4 && name == ""; i++ {
			name, txt = gen.Fault(t, d, nil)
		}
	}
	if name == "" {
		return
	}
	t.NonTrivial(string(txt))
	t.Label("fault:%s", strings.SplitN(name, ":", 2)[0])
	t.Label("modules:%d", len(d.Mods))
	t.Sample = fmt.Sprintf("%s: %s", name, clip(string(txt), 250))
	a, err := parseFile(t, t.File("broken.a2l", txt))
	if err == nil {
		n := 0
		if p := gen.Field(gen.Field(reflect.ValueOf(a), "Project"), "Modules"); p.IsValid() {
			n = p.Len()
		}
		t.Fatalf("a broken A2L file (%s) is parsed without error (%d modules)", name, n)
	}
}

func mutateA2L(t *pbt.T, words []string) []string {
	w := append([]string(nil), words...)
	for k := t.R(1, 6); k > 0 && len(w) > 2; k-- {
		i := t.N(len(w))
		switch t.N(9) {
		case 0:
			w = append(w[:i], w[i+1:]...)
		case 1:
			j := t.N(len(w))
			w[i], w[j] = w[j], w[i]
		case 2:
			w[i] = gen.AnyWord(t)
		case 3:
			w = append(w[:i], append([]string{gen.AnyWord(t)}, w[i:]...)...)
		case 4:
			w = w[:i]
		case 5:
			w = w[i:]
		case 6: // splice a piece elsewhere
			j := i + t.N(20)
			if j > len(w) {
				j = len(w)
			}
			piece := append([]string(nil), w[i:j]...)
			at := t.N(len(w))
			w = append(w[:at], append(piece, w[at:]...)...)
		case 7:
			w[i] = string(t.Bytes(t.N(5))) + w[i]
		case 8:
			if len(w[i]) > 0 {
				w[i] = w[i][:t.N(len(w[i])+1)]
			}
		}
	}
	return w
}

func a2lRobust(t *pbt.T) {
	var content []byte
	place, fault, mods := strata(t)
	kind := 5
	if place == nil {
		kind = t.W(5, 3, 2, 1, 1)
	}
	switch kind {
	case 0, 3:
		d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: 6, Singles: t.N(3), Mods: t.Pick2(1, 1, 2)})
		w := mutateA2L(t, d.Words())
		content = gen.Render(t, w)
		if kind == 3 {
			for k := t.R(1, 5); k > 0; k-- {
				content = mutate(t, content)
			}
		}
	case 1: // words of the grammar in any order, in an outer frame
		var w []string
		frame := t.N(4)
		if frame > 0 {
			w = append(w, "/begin", "PROJECT", "p", `""`)
		}
		if frame > 1 {
			w = append(w, "/begin", "MODULE", "m", `""`)
		}
		for k := t.Pick2(3, 10, 40); k > 0; k-- {
			w = append(w, gen.AnyWord(t))
		}
		if frame > 2 {
			w = append(w, "/end", "MODULE", "/end", "PROJECT")
		}
		content = gen.Render(t, w)
	case 2:
		content = t.Bytes(t.N(300))
	case 5: // a fault at one place of the grammar
		d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: 2, Singles: t.N(2), Mods: mods})
		focus := gen.ForcePath(t, d, place)
		if fault < 7 && t.Chance(2, 3) {
			_, content = gen.FaultKind(t, d, focus, fault)
			if content != nil {
				break
			}
		}
		w, b, e := gen.FocusWords(d, focus)
		if fault == 7 { // the file ends at each of the words of this place, or at some of them
			at := make([]int, 0, e-b)
			for i := b; i < e; i++ {
				at = append(at, i+1)
			}
			for len(at) > 9 {
				k := t.N(len(at))
				at = append(at[:k], at[k+1:]...)
			}
			for _, i := range at {
				content = gen.Render(t, w[:i])
				t.Label("kind:ends inside")
				t.NonTrivial(string(content))
				t.Eval(1)
				_, _ = parseFile(t, t.File("any.a2l", content))
			}
			t.Sample = fmt.Sprintf("%d files that end inside %s: %s", len(at), place, clip(fmt.Sprintf("%q", content), 250))
			return
		}
		if t.Bool() { // the file ends here
			content = gen.Render(t, w[:t.R(b, e-1)])
			break
		}
		piece := append([]string(nil), w[b:e]...)
		piece = mutateA2L(t, piece)
		w = append(append(append([]string(nil), w[:b]...), piece...), w[e:]...)
		content = gen.Render(t, w)
	case 4:
		content = []byte(t.Pick("", " ", "\n", "\"", "/*", "//", "/", "/begin", "/end", "/begin PROJECT", "\\", "\x00", "\xff\xfe", "/begin /begin", "\"\"\"", "*/", "/begin MODULE",
			"/end MODULE", "/begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE", "/begin PROJECT p \"\" /begin MODULE", "/begin PROJECT p \"\" /begin MODULE m",
			"/begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE /end PROJECT /begin PROJECT", "ASAP2_VERSION", "ASAP2_VERSION 1", "/begin PROJECT /end PROJECT",
			"/begin PROJECT p \"\" /end PROJECT", "/begin PROJECT p \"\" /begin MODULE /end MODULE /end PROJECT", "/begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE /end MODULE /end PROJECT"))
	}
	p := t.File("any.a2l", content)
	if t.Chance(1, 60) {
		p = t.Dir + "/" + t.Pick("missing.a2l", "", "any.a2l/x")
		kind = 9
	}
	t.Label("kind:%d", kind)
	t.NonTrivial(string(content))
	t.Sample = fmt.Sprintf("kind %d: %s", kind, clip(fmt.Sprintf("%q", content), 250))
	_, err := parseFile(t, p)
	if err != nil {
		t.Label("rejected")
	} else {
		t.Label("accepted")
		if kind == 9 {
			t.Fatalf("parsing unreadable path %q succeeded", p)
		}
	}
}

func multiModule(t *pbt.T) {
	mods, max := t.R(2, 4), t.Pick2(8, 3, 25)
	if t.Chance(1, 20) {
		mods, max = t.R(5, 20), 3
		if t.Chance(1, 10) {
			mods = t.R(60, 300)
		}
	}
	d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: max, Singles: t.N(3), Mods: mods})
	if t.Bool() { // a copy of a module: the same identifiers again
		d.Mods = append(d.Mods, d.Mods[t.N(len(d.Mods))])
	}
	txt := gen.Render(t, d.Words())
	labelDoc(t, d, txt)
	t.NonTrivial(string(txt))
	t.Sample = fmt.Sprintf("%d modules, %d bytes: %s", len(d.Mods), len(txt), clip(string(txt), 200))
	a := checkDoc(t, d, txt)
	// each module alone
	i := t.N(len(d.Mods))
	one := *d
	one.Mods = []*gen.Mod{d.Mods[i]}
	b, err := parseFile(t, t.File("one.a2l", gen.Render(t, one.Words())))
	if err != nil {
		t.Fatalf("module %d is accepted in a multi-module file but rejected alone: %v", i, err)
	}
	ms, bs := gen.Field(gen.Field(reflect.ValueOf(a), "Project"), "Modules"), gen.Field(gen.Field(reflect.ValueOf(b), "Project"), "Modules")
	if !ms.IsValid() || !bs.IsValid() {
		return
	}
	var x, y strings.Builder
	skip := map[string]bool{"errors": true}
	gen.Dump(&x, ms.Index(i), skip)
	gen.Dump(&y, bs.Index(0), skip)
	if x.String() != y.String() {
		t.Fatalf("module %d of %d differs from the same module alone: %s", i, len(d.Mods), firstDiff(x.String(), y.String()))
	}
}

// disguise writes a file over an earlier one of the same name; now and then size and time stamp stay the same.
func disguise(t *pbt.T, name string, content []byte, hide bool) string {
	p := filepath.Join(t.Dir, name)
	var size int64
	if hide {
		if st, err := os.Stat(p); err == nil {
			size = st.Size()
		}
		eol := "\n"
		if bytes.Contains(content, []byte("\r\n")) {
			eol = "\r\n"
		}
		for int64(len(content)) < size || len(content)%4096 > 1 { // blank lines at the end
			content = append(content, eol...)
		}
	}
	p = t.File(name, content)
	if hide {
		at := time.Unix(1700000000, 0)
		if err := os.Chtimes(p, at, at); err != nil {
			t.Infra("%v", err)
		}
	}
	return p
}

// history: a sequence of parses in one process.
func parseHistory(t *pbt.T) {
	type step struct {
		kind, path string
		name       string
		text       []byte
		doc        *gen.Doc
	}
	hide := t.Bool()
	n := t.R(2, 6)
	var steps []step
	var desc []string
	for i := 0; i < n; i++ {
		i := i
		t.Group(func() {
			s := step{}
			switch t.W(4, 2, 3, 1, 1) {
			case 0, 1:
				s.kind = "valid"
				mods := 1
				if t.Chance(1, 3) {
					mods = t.R(2, 3)
					s.kind = "multi-module"
				}
				s.doc = gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: t.Pick2(5, 1, 20), Singles: t.N(3), Mods: mods})
				s.text = gen.Render(t, s.doc.Words())
			case 2:
				d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MinObjs: 1, MaxObjs: 6, Singles: t.N(3), Mods: t.Pick2(1, 1, 2)})
				f, txt := gen.Fault(t, d, nil)
				if f == "" {
					txt = nil
				}
				s.kind = "damaged"
				s.text = txt
			case 3:
				s.kind = "unreadable"
				s.path = t.Dir + "/nothing.a2l"
			case 4: // an earlier file again
				if len(steps) > 0 {
					s = steps[t.N(len(steps))]
				} else {
					s.kind, s.path = "unreadable", t.Dir
				}
			}
			if s.path == "" && s.name == "" {
				s.name = fmt.Sprintf("h%d.a2l", i)
				if t.Bool() {
					s.name = "h.a2l"
				}
			}
			steps = append(steps, s)
			desc = append(desc, s.kind)
		})
	}
	t.Label("steps:%d", n)
	for i := 1; i < n; i++ {
		t.Label("%s after %s", desc[i], desc[i-1])
	}
	t.NonTrivial(fmt.Sprint(t.Tape))
	t.Sample = strings.Join(desc, ", ")
	t.Eval(n)
	var results []a2l.A2L
	var dumps []string
	var at []int
	for i, s := range steps {
		if s.name != "" {
			s.path = disguise(t, s.name, s.text, hide)
		}
		a, err := parseFile(t, s.path)
		if s.doc == nil {
			if err == nil {
				t.Fatalf("step %d of %v: %s file accepted", i, desc, s.kind)
			}
			continue
		}
		if err != nil {
			t.Fatalf("step %d of %v: well-formed file rejected: %v", i, desc, err)
		}
		c := &gen.Cmp{}
		if df := c.Doc(s.doc, a); df != "" {
			t.Fatalf("step %d of %v: %s", i, desc, df)
		}
		results = append(results, a)
		dumps = append(dumps, gen.DumpA2L(a))
		at = append(at, i)
	}
	for i := range results {
		if x := gen.DumpA2L(results[i]); x != dumps[i] {
			t.Fatalf("the result of step %d of %v was changed by later parses: %s", at[i], desc, firstDiff(dumps[i], x))
		}
	}
}

func init() {
	content := "the generator keeps a syntax tree; every written attribute is compared with the field of the parsed object, unwritten ones must be unset"
	nt := "at least one optional keyword or nested block of the kinds in question is written"
	asm := []string{"numbers are decimal; texts contain no backslash and no runs of blanks; identifiers are unique per kind and no keywords", "a field that cannot be found under its name is left out of the comparison (reported as a label)"}
	pbt.Register(&pbt.Prop{ID: "A01", Quick: 6000, Race: 150, Thorough: 80000, Rule: "at least two objects in the module", Oracle: "identifier sets and contents kept by the generator", Assume: asm, Run: completeness})
	pbt.Register(&pbt.Prop{ID: "A02", Quick: 8000, Thorough: 200000, Rule: nt, Oracle: content, Assume: asm, Run: contentProp("A02", 0, nil, 10)})
	pbt.Register(&pbt.Prop{ID: "A03", Quick: 8000, Thorough: 200000, Rule: nt, Oracle: content, Assume: asm, Run: contentProp("A03", 2, nil, 10)})
	pbt.Register(&pbt.Prop{ID: "A04", Quick: 8000, Thorough: 200000, Rule: nt, Oracle: content, Assume: asm, Run: contentProp("A04", 0, nil, 12)})
	pbt.Register(&pbt.Prop{ID: "A05", Quick: 8000, Thorough: 200000, Rule: nt, Oracle: content, Assume: asm, Run: contentProp("A05", 0, nil, 10)})
	pbt.Register(&pbt.Prop{ID: "A06", Quick: 8000, Thorough: 200000, Rule: nt, Oracle: content, Assume: asm, Run: contentProp("A06", 3, nil, 2)})
	pbt.Register(&pbt.Prop{ID: "A07", Quick: 5500, Thorough: 120000, Rule: "the two layouts differ", Oracle: "metamorphic: equal dumps of two layouts, and the syntax tree", Assume: asm, Run: layoutProp})
	pbt.Register(&pbt.Prop{ID: "A08", Quick: 500, Race: 400, Thorough: 20000, Rule: "every file counts", Oracle: "metamorphic: the fingerprint of the outcome is equal on 1..8 CPUs and in a repetition", Assume: asm, Cross: true, Run: a2lCPU})
	pbt.Register(&pbt.Prop{ID: "A09", Quick: 16000, Strata: true, Thorough: 200000, Rule: "every faulty file counts", Oracle: "one fault put into a well-formed file must lead to an error", Assume: asm, Run: a2lFaults})
	pbt.Register(&pbt.Prop{ID: "A10", Quick: 16000, Strata: true, Thorough: 250000, Rule: "every content counts", Oracle: "the parser returns: no panic, hang or process death", Run: a2lRobust})
	pbt.Register(&pbt.Prop{ID: "A11", Quick: 3500, Thorough: 80000, Rule: "two or more modules", Oracle: "syntax tree of each module; metamorphic: a module alone parses to the same content", Assume: asm, Run: multiModule})
	pbt.Register(&pbt.Prop{ID: "A12", Quick: 2800, Thorough: 60000, Rule: "every history of two or more parses", Oracle: "each step is judged by its own syntax tree or fault; earlier results keep their dump", Assume: asm, Run: parseHistory})
}
