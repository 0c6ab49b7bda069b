package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

func readCalibration(t *pbt.T, a2lPath, hexPath string) (calibrationReader.CalibrationData, error) {
	var cd calibrationReader.CalibrationData
	var err error
	t.Call("reading the calibration", func() { cd, err = calibrationReader.ReadCalibration(a2lPath, hexPath) })
	quiet()
	return cd, err
}

// subFile writes a file below a directory of its own.
func subFile(t *pbt.T, rel string, content []byte) string {
	root := filepath.Join(t.Dir, "tree")
	if err := os.RemoveAll(root); err != nil {
		t.Infra("%v", err)
	}
	p := filepath.Join(root, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		t.Infra("%v", err)
	}
	if err := os.WriteFile(p, content, 0o644); err != nil {
		t.Infra("%v", err)
	}
	t.Note(rel, string(content))
	return p
}

type imgItem struct {
	path, kind string
	name       string
	text       []byte
	want       map[uint32]byte // nil if it must be rejected
}

func genImg(t *pbt.T, name string) imgItem {
	format := t.Pick("hex", "s19")
	var im *gen.Image
	if format == "hex" {
		im = gen.IHex(t)
	} else {
		im = gen.SRec(t)
	}
	switch t.W(5, 3, 1) {
	case 1:
		dm, _ := gen.Damage(t, im)
		if dm == "" {
			return imgItem{path: t.Dir + "/nothing." + format, kind: "missing image"}
		}
		return imgItem{name: name + "." + format, text: im.Text(), kind: "damaged image"}
	case 2:
		return imgItem{path: t.Dir + "/nothing." + format, kind: "missing image"}
	}
	return imgItem{name: name + "." + format, text: im.Text(), kind: "image", want: im.Want}
}

type docItem struct {
	path, kind string
	name       string
	text       []byte
	doc        *gen.Doc // nil if it must be rejected
}

func genDocItem(t *pbt.T, name string) docItem {
	d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MinObjs: 1, MaxObjs: t.Pick2(6, 2, 20), Singles: t.N(3), Mods: t.Pick2(1, 1, 1, 1, 2, 3, 4)})
	switch t.W(5, 3, 1) {
	case 1:
		f, txt := gen.Fault(t, d, nil)
		if f == "" {
			return docItem{path: t.Dir + "/nothing.a2l", kind: "missing A2L"}
		}
		return docItem{name: name + ".a2l", text: txt, kind: "broken A2L"}
	case 2:
		return docItem{path: t.Dir + "/nothing.a2l", kind: "missing A2L"}
	}
	return docItem{name: name + ".a2l", text: gen.Render(t, d.Words()), kind: "A2L", doc: d}
}

// combine: sequences of reads of good and bad pairs.
func combine(t *pbt.T) {
	n := t.R(1, 4)
	hide := t.Bool()
	var docs []docItem
	var imgs []imgItem
	var desc []string
	for i := 0; i < n; i++ {
		i := i
		t.Group(func() {
			name := fmt.Sprintf("c%d", i)
			if t.Bool() {
				name = "c"
			}
			if i > 0 && t.Chance(1, 4) { // the same A2L again with another image
				docs = append(docs, docs[t.N(i)])
			} else {
				docs = append(docs, genDocItem(t, name))
			}
			imgs = append(imgs, genImg(t, name))
			desc = append(desc, docs[i].kind+"+"+imgs[i].kind)
		})
	}
	for i, s := range desc {
		t.Label("%s", s)
		if i > 0 {
			t.Label("after another read")
		}
	}
	t.NonTrivial(fmt.Sprint(t.Tape))
	t.Sample = strings.Join(desc, "; ")
	t.Eval(n)
	type kept struct {
		cd   calibrationReader.CalibrationData
		dump string
		i    int
	}
	var keep []kept
	for i := range docs {
		if docs[i].name != "" {
			docs[i].path = disguise(t, docs[i].name, docs[i].text, hide)
		}
		if imgs[i].name != "" {
			imgs[i].path = disguise(t, imgs[i].name, imgs[i].text, hide)
		}
		cd, err := readCalibration(t, docs[i].path, imgs[i].path)
		good := docs[i].doc != nil && imgs[i].want != nil
		if !good {
			if err == nil {
				t.Fatalf("read %d (%s) succeeds", i, desc[i])
			}
			if len(cd.Hex) != 0 || len(cd.A2l.Project.Modules) != 0 {
				t.Fatalf("read %d (%s) fails but returns partial data: %d bytes, %d modules", i, desc[i], len(cd.Hex), len(cd.A2l.Project.Modules))
			}
			continue
		}
		if err != nil {
			t.Fatalf("read %d (%s) fails: %v", i, desc[i], err)
		}
		if d := gen.DiffImage(cd.Hex, imgs[i].want); d != "" {
			t.Fatalf("read %d: the image differs from the file: %s", i, d)
		}
		c := &gen.Cmp{}
		if df := c.Doc(docs[i].doc, cd.A2l); df != "" {
			t.Fatalf("read %d: %s", i, df)
		}
		if cd.ModuleIndex != 0 {
			t.Fatalf("read %d: module %d is selected instead of the first", i, cd.ModuleIndex)
		}
		alone, err := parseFile(t, docs[i].path)
		if err != nil {
			t.Fatalf("read %d: the A2L file is accepted by ReadCalibration and rejected by the A2L parser: %v", i, err)
		}
		dump := gen.DumpA2L(cd.A2l)
		if x := gen.DumpA2L(alone); x != dump {
			t.Fatalf("read %d: the A2L content differs from what the A2L parser returns: %s", i, firstDiff(x, dump))
		}
		keep = append(keep, kept{cd, dump, i})
	}
	for _, k := range keep {
		if gen.DumpA2L(k.cd.A2l) != k.dump || gen.DiffImage(k.cd.Hex, imgs[k.i].want) != "" {
			t.Fatalf("the result of read %d was changed by later reads", k.i)
		}
	}
}

const tinyA2L = "/begin PROJECT p \"\"\n/begin MODULE m \"\"\n/end MODULE\n/end PROJECT\n"

func dispatch(t *pbt.T) {
	var im *gen.Image
	content := t.Pick("hex", "s19")
	if content == "hex" {
		im = gen.IHex(t)
	} else {
		im = gen.SRec(t)
	}
	if len(im.Want) == 0 {
		return
	}
	ext := ""
	want := ""
	switch t.W(4, 4, 4) {
	case 0:
		ext = t.Pick(".hex", ".HEX", ".Hex", ".hEX", ".heX", ".HeX")
	case 1:
		ext = t.Pick(".s19", ".S19")
	case 2:
		ext = t.Pick(".txt", "", ".bin", ".he", ".hexx", ".s1", ".s199", ".srec", ".mot", ".hex.bak", ".s19.old", ".hex~", ".s19 ", "hex", "s19", ".a2l", ".h86", ".s28", ".s37", ".ihex", ".hex.gz", ".", ".hex.")
	}
	base := t.Pick("image", "x", "a.b", "v1.2.3", "my.hex", "my.s19", "my.HEX", "hex", "s19", "with space", "hexdata", "x.s19.y", "ü")
	if t.Chance(1, 3) {
		base = t.Pick("image", "x", "a.b", "hex", "s19") // keep the plain case frequent
	}
	dir := t.Pick("", "d/", "proj.hex/", "proj.s19/", "P.HEX/", "a/b.hex.d/", ".s19/", ".hex/", "x.S19/y/")
	rel := dir + base + ext
	want = "" // the part behind the last dot of the file name decides
	if last := rel[strings.LastIndex(rel, "/")+1:]; strings.Contains(last, ".") {
		switch strings.ToLower(last[strings.LastIndex(last, "."):]) {
		case ".hex":
			want = "hex"
		case ".s19":
			want = "s19"
		}
	}
	p := subFile(t, rel, im.Text())
	ap := t.File("tiny.a2l", []byte(tinyA2L))
	t.Label("name:%s content:%s", map[string]string{"hex": "*.hex", "s19": "*.s19", "": "other"}[want], content)
	if dir != "" {
		t.Label("directory with a dot")
	}
	if dir != "" || base != "image" || ext != ".hex" {
		t.NonTrivial(rel, content, string(im.Text()))
	}
	t.Sample = fmt.Sprintf("%s content under the name %q", content, rel)
	cd, err := readCalibration(t, ap, p)
	switch {
	case want == "":
		if err == nil {
			t.Fatalf("%q has no supported extension but is loaded (%d bytes)", rel, len(cd.Hex))
		}
	case want == content:
		if err != nil {
			t.Fatalf("%s content in %q is rejected: %v", content, rel, err)
		}
		if d := gen.DiffImage(cd.Hex, im.Want); d != "" {
			t.Fatalf("the image of %q differs from the file: %s", rel, d)
		}
	default:
		if err == nil {
			t.Fatalf("%s content is loaded from %q, which must be read as %s (%d bytes)", content, rel, want, len(cd.Hex))
		}
	}
}

// lookup by identifier.
func lookup(t *pbt.T) {
	var pub []*gen.ModKind
	for _, k := range gen.ModKinds {
		if k.Public && k.ID != "" {
			pub = append(pub, k)
		}
	}
	kinds := append(append([]*gen.ModKind{}, pub...), gen.AllKinds("")...)
	d := gen.GenDoc(t, gen.DocSpec{Kinds: kinds, MinObjs: 1, MaxObjs: t.Pick2(12, 4, 40), Singles: 3, Mods: t.Pick2(1, 1, 2, 3)})
	// the same few names in all kinds
	pool := []string{"obj0", "obj1", "obj2", "Same.Name", "obj1_1", "OBJ1"}
	if t.Chance(1, 4) { // one name in nearly all kinds
		pool = pool[:1]
	}
	names := map[string]bool{}
	for _, m := range d.Mods {
		used := map[string]bool{}
		for _, o := range m.Objs {
			if o.Kind.ID != "" {
				if nm := pool[t.N(len(pool))]; t.Chance(2, 3) && !used[o.Kind.Field+nm] {
					o.Node.Vals[0] = nm
				}
				if used[o.Kind.Field+o.Name()] { // keep names unique per kind
					o.Node.Vals[0] = fmt.Sprintf("u%d", len(used))
				}
				used[o.Kind.Field+o.Name()] = true
				names[o.Name()] = true
			}
			if o.Kind.Key.Kw == "MOD_PAR" {
				sc := map[string]bool{}
				for _, k := range o.Node.Kids {
					if k.Key.Kw != "SYSTEM_CONSTANT" {
						continue
					}
					if nm := `"` + pool[t.N(len(pool))] + `"`; t.Bool() && !sc[nm] {
						k.Vals[0] = nm
					}
					if sc[k.Vals[0]] {
						k.Vals[0] = fmt.Sprintf(`"sc%d"`, len(sc))
					}
					sc[k.Vals[0]] = true
					names[strings.Trim(k.Vals[0], `"`)] = true
					names[k.Vals[0]] = true
				}
			}
		}
	}
	txt := gen.Render(t, d.Words())
	a, err := parseFile(t, t.File("in.a2l", txt))
	if err != nil {
		t.Fatalf("a well-formed A2L file is rejected: %v", err)
	}
	mi := t.N(len(d.Mods))
	cd := calibrationReader.CalibrationData{A2l: a, ModuleIndex: uint8(mi)}
	mods := gen.Field(gen.Field(reflect.ValueOf(a), "Project"), "Modules")
	if !mods.IsValid() || mods.Len() != len(d.Mods) {
		t.Fatalf("%d modules parsed, %d written", mods.Len(), len(d.Mods))
	}
	mv := mods.Index(mi)
	queries := []string{"", "no_such_object", "obj", "obj0 "}
	for n := range names {
		queries = append(queries, n)
	}
	sortStrings(queries)
	several := 0
	for _, q := range queries {
		var res []interface{}
		t.Call("looking up "+q, func() { res = cd.GetObjectByIdent(q) })
		type exp struct {
			kw   string
			node *gen.Node
			typ  reflect.Type
		}
		var want []exp
		for _, o := range d.Mods[mi].Objs {
			if o.Kind.ID != "" && o.Kind.Public && o.Name() == q {
				f := gen.Field(mv, o.Kind.Field)
				if !f.IsValid() || f.Kind() != reflect.Map {
					t.Infra("module field %s not found", o.Kind.Field)
				}
				want = append(want, exp{o.Kind.Key.Kw, o.Node, elemType(f.Type().Elem())})
			}
			if o.Kind.Key.Kw == "MOD_PAR" {
				for _, k := range o.Node.Kids {
					if k.Key.Kw == "SYSTEM_CONSTANT" && k.Vals[0] == q { // the identifier of a constant is written in quotation marks
						want = append(want, exp{"SYSTEM_CONSTANT", k, reflect.TypeOf(a2l.SystemConstant{})})
					}
				}
			}
		}
		if len(want) > 1 {
			several++
		}
		t.Eval(1)
		got := map[reflect.Type]reflect.Value{}
		for _, r := range res {
			v := reflect.ValueOf(r)
			for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
				v = v.Elem()
			}
			if !v.IsValid() {
				t.Fatalf("looking up %q returns an empty object", q)
			}
			if _, dup := got[v.Type()]; dup {
				t.Fatalf("looking up %q returns two objects of type %v", q, v.Type())
			}
			got[v.Type()] = v
		}
		for _, w := range want {
			t.Label("found:%s", w.kw)
			v, ok := got[w.typ]
			if !ok {
				t.Fatalf("looking up %q in module %d of %d misses the %s", q, mi, len(d.Mods), w.kw)
			}
			c := &gen.Cmp{}
			if df := c.Node(w.node, v, w.kw+" "+q); df != "" {
				t.Fatalf("looking up %q in module %d of %d: %s", q, mi, len(d.Mods), df)
			}
		}
		if len(res) != len(want) {
			t.Fatalf("looking up %q in module %d of %d returns %d objects, %d are defined", q, mi, len(d.Mods), len(res), len(want))
		}
	}
	t.Label("modules:%d", len(d.Mods))
	if several > 0 {
		t.NonTrivial(string(txt), fmt.Sprint(mi))
	}
	t.Sample = fmt.Sprintf("%d identifiers looked up in module %d of %d, %d with several objects", len(queries), mi, len(d.Mods), several)
}

func elemType(x reflect.Type) reflect.Type {
	for x.Kind() == reflect.Ptr {
		x = x.Elem()
	}
	return x
}

// positions of record layout components.
func positions(t *pbt.T) {
	key := gen.RecordKey
	node := &gen.Node{Key: key, Vals: []string{"RL"}}
	chance := t.Pick2(2, 1, 5, 10)
	type comp struct {
		field string
		pos   int
		dt    string
	}
	var comps []comp
	var absent []string
	camel := func(kw string) string {
		out := ""
		for _, w := range strings.Split(strings.ToLower(kw), "_") {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
		return out
	}
	base := t.Pick2(1, 0, 100, 65400)
	gap := t.Pick2(1, 2, 3)
	var ks []*gen.Key
	for _, o := range key.Opts {
		if len(o.Params) < 2 || o.Params[0].Field != "Position" {
			continue
		}
		if t.Chance(chance, 10) {
			ks = append(ks, o)
		} else {
			absent = append(absent, camel(o.Kw))
		}
	}
	perm := t.Perm(len(ks))
	for i, o := range ks {
		pos := base + perm[i]*gap
		if pos > 65535 {
			pos = perm[i]
		}
		n := gen.GenNode(t, o, &gen.Sizes{}, "")
		n.Vals[0] = fmt.Sprint(pos)
		node.Kids = append(node.Kids, n)
		comps = append(comps, comp{camel(o.Kw), pos, n.Vals[1]})
	}
	clash := ""
	if len(comps) > 1 && t.Chance(1, 3) {
		i := t.N(len(comps))
		j := t.N(len(comps) - 1)
		if j >= i {
			j++
		}
		comps[j].pos = comps[i].pos
		node.Kids[j].Vals[0] = node.Kids[i].Vals[0]
		clash = comps[i].field + " and " + comps[j].field
	}
	// components without position
	for _, o := range key.Opts {
		if len(o.Params) == 0 || o.Params[0].Field != "Position" {
			if t.Chance(1, 6) {
				node.Kids = append(node.Kids, gen.GenNode(t, o, &gen.Sizes{}, ""))
			}
		}
	}
	if t.Bool() {
		p := t.Perm(len(node.Kids))
		kids := make([]*gen.Node, len(p))
		for i, j := range p {
			kids[i] = node.Kids[j]
		}
		node.Kids = kids
	}
	words := append([]string{"/begin", "PROJECT", "p", `""`, "/begin", "MODULE", "m", `""`}, node.Words(nil)...)
	words = append(words, "/end", "MODULE", "/end", "PROJECT")
	txt := strings.Join(words, "\n") + "\n"
	t.Label("components:%s", bucket(len(comps)))
	if clash != "" {
		t.Label("two components at one position")
	}
	for _, c := range comps {
		t.Label("component:%s", c.field)
	}
	if len(comps) > 1 {
		t.NonTrivial(txt)
	}
	t.Sample = clip(strings.Join(node.Words(nil), " "), 300)
	a, err := parseFile(t, t.File("rl.a2l", []byte(txt)))
	if err != nil {
		t.Fatalf("a well-formed A2L file is rejected: %v", err)
	}
	if len(a.Project.Modules) != 1 {
		t.Fatalf("%d modules", len(a.Project.Modules))
	}
	rl, ok := a.Project.Modules[0].RecordLayouts["RL"]
	if !ok {
		t.Fatalf("record layout not found")
	}
	var got map[uint16]string
	t.Call("computing the component order", func() { got, err = rl.GetRecordLayoutRelativePositions() })
	if clash != "" {
		if err == nil {
			t.Fatalf("%s share one position, which is not reported", clash)
		}
		return
	}
	if err != nil {
		t.Fatalf("the component order of a layout without clashes fails: %v", err)
	}
	for _, c := range comps {
		if got[uint16(c.pos)] != c.field {
			t.Fatalf("position %d is written for %s, the component order has %q there", c.pos, c.field, got[uint16(c.pos)])
		}
	}
	if len(got) != len(comps) {
		t.Fatalf("the component order has %d entries, %d components have a position: %v", len(got), len(comps), got)
	}
	for _, c := range comps {
		if c.field == "Reserved" {
			continue
		}
		var dt a2l.DataTypeEnum
		t.Call("data type of "+c.field, func() { dt, err = rl.GetDatatypeByFieldName(c.field) })
		if err != nil || dt.String() != c.dt {
			t.Fatalf("the data type of %s is written as %s, reported is %q (error %v)", c.field, c.dt, dt.String(), err)
		}
	}
	for _, f := range append(absent, "NoSuchField") {
		var dt a2l.DataTypeEnum
		t.Call("data type of "+f, func() { dt, err = rl.GetDatatypeByFieldName(f) })
		if err == nil {
			t.Fatalf("a data type %q is reported for %s, which the layout does not have", dt.String(), f)
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C01", Quick: 2000, Race: 100, Thorough: 60000, Rule: "every sequence of reads counts", Oracle: "the generator knows image, A2L content and damage of every file; comparison with the individual parsers",
		Assume: []string{"one ReadCalibration at a time; the working directory is writable (the reader creates calibReader.log there)"}, Run: combine})
	pbt.Register(&pbt.Prop{ID: "C02", Quick: 4500, Thorough: 100000, Rule: "name or directory is not the plain image.hex", Oracle: "the extension decides the format: equal image, or rejection",
		Run: dispatch})
	pbt.Register(&pbt.Prop{ID: "C03", Quick: 6000, Thorough: 80000, Rule: "at least one identifier names several objects", Oracle: "the objects of the selected module in the generator's syntax tree",
		Assume: []string{"identifiers are unique per kind; the order of the returned objects is not specified"}, Run: lookup})
	pbt.Register(&pbt.Prop{ID: "V01", Quick: 8000, Thorough: 200000, Rule: "at least two positioned components", Oracle: "positions and data types as written", Run: positions})
}
