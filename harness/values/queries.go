package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// query is a question to a calibration; the answer is rendered as text.
type query struct {
	what string
	ask  func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string
}

// namer gives the identifiers of one copy of the calibration.
type namer func(string) string

func answer(v interface{}, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%v", v)
}

// queryHistory: questions leave the calibration as it is and do not disturb one another.
func queryHistory(t *pbt.T) {
	m := &module{}
	o := orders[t.N(len(orders))]
	mc := drawAlign(t, t.Pick2(0, 2, 4))
	if o.text != "" || len(mc) > 0 || t.Bool() {
		m.add(modCommon(o, mc)...)
	}
	var qs []query
	add := func(what string, ask func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string) {
		qs = append(qs, query{what, ask})
	}
	// characteristics and their layouts
	hex := map[uint32]byte{}
	type object struct {
		name, layout string
		comps        []comp
	}
	var objs []object
	n := t.R(1, 4)
	for i := 0; i < n; i++ {
		l := drawLayout(t, fmt.Sprintf("RL%d~~", i))
		lname := l.name
		l.draw(t)
		start := uint32(t.Pick2(0x1000, 0x80000001, 0x7fffff)) + uint32(i*0x80000) + uint32(t.N(64))
		l.place(start, mc, o.big, hex)
		ob := object{name: fmt.Sprintf("C%d~~", i), layout: lname}
		for _, c := range l.comps {
			ob.comps = append(ob.comps, *c)
		}
		objs = append(objs, ob)
		m.add(l.words(t)...)
		name := fmt.Sprintf("C%d~~", i)
		m.add("/begin", "CHARACTERISTIC", name, `"c"`, t.Pick("MAP", "CURVE", "VALUE"), fmt.Sprintf("0x%X", start), l.name, "0", "NO_COMPU_METHOD", "0", "1", "/end", "CHARACTERISTIC")
		add("the values of "+name, func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
			c, rl := mod.Characteristics[nm(name)], mod.RecordLayouts[nm(lname)]
			got := calibrationReader.VerifReadValues(cd, &c, &rl)
			var ks []string
			for k, v := range got {
				ks = append(ks, fmt.Sprintf("%s=%v", k, v))
			}
			sort.Strings(ks)
			return strings.Join(ks, " ")
		})
		d := &dtypes[t.N(len(dtypes))]
		at := start + uint32(t.N(16))
		add(fmt.Sprintf("the aligned address of %#x for %s", at, d.name), func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
			rl := mod.RecordLayouts[nm(lname)]
			return answer(calibrationReader.VerifAlign(cd, at, d.e, &rl), nil)
		})
		add("the order of "+l.name, func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
			rl := mod.RecordLayouts[nm(lname)]
			p, err := rl.GetRecordLayoutRelativePositions()
			return answer(p, err)
		})
	}
	// conversions
	var idents []string
	for i := t.R(1, 4); i > 0; i-- {
		name := fmt.Sprintf("conv%d~~", i)
		idents = append(idents, name)
		rows := t.Pick2(3, 1, 8)
		var keys []float64
		for j := 0; j < rows; j++ {
			keys = append(keys, float64(t.N(20)-5))
		}
		switch t.N(5) {
		case 0:
			w := []string{"/begin", "COMPU_TAB", name, `"t"`, "TAB_NOINTP", strconv.Itoa(rows)}
			seen := map[float64]bool{}
			for j := range keys {
				for seen[keys[j]] { // one row per key
					keys[j]++
				}
				seen[keys[j]] = true
				w = append(w, fl(keys[j]), fl(drawF(t)))
			}
			if t.Bool() {
				w = append(w, "DEFAULT_VALUE_NUMERIC", fl(drawF(t)))
			}
			m.add(append(w, "/end", "COMPU_TAB")...)
			m.add(methodWords(name, "TAB_NOINTP", "COMPU_TAB_REF", name)...)
		case 1:
			w := []string{"/begin", "COMPU_VTAB", name, `"t"`, "TAB_VERB", strconv.Itoa(rows)}
			seen := map[float64]bool{}
			for j := range keys {
				for seen[keys[j]] {
					keys[j]++
				}
				seen[keys[j]] = true
				w = append(w, fl(keys[j]), gen.Str(t))
			}
			if t.Bool() {
				w = append(w, "DEFAULT_VALUE", gen.Str(t))
			}
			m.add(append(w, "/end", "COMPU_VTAB")...)
			for _, x := range append(keys, 3.5, 77) {
				x := x
				add(fmt.Sprintf("the text of %v in %s", x, name), func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
					tab := mod.CompuVTabs[nm(name)]
					return answer(calibrationReader.VerifVerbal(cd, x, &tab))
				})
			}
			continue
		case 2:
			w := []string{"/begin", "COMPU_VTAB_RANGE", name, `"t"`, strconv.Itoa(rows)}
			for j, p := range t.Perm(rows) {
				keys[j] = float64(p*4) - 5
				w = append(w, fl(keys[j]), fl(keys[j]+float64(t.N(4))), gen.Str(t))
			}
			if t.Bool() {
				w = append(w, "DEFAULT_VALUE", gen.Str(t))
			}
			m.add(append(w, "/end", "COMPU_VTAB_RANGE")...)
			for _, x := range append(keys, 3.5, 77) {
				x := x
				add(fmt.Sprintf("the text of %v in %s", x, name), func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
					tab := mod.CompuVTabRanges[nm(name)]
					return answer(calibrationReader.VerifVerbalRange(cd, x, &tab))
				})
			}
			continue
		case 3:
			m.add(methodWords(name, "LINEAR", "COEFFS_LINEAR", fl(drawF(t)), fl(drawF(t)))...)
		case 4:
			m.add(methodWords(name, "RAT_FUNC", "COEFFS", fl(float64(t.N(5)-2)), fl(float64(t.N(9)-4)), fl(float64(t.N(9)-4)), fl(float64(t.N(3)-1)), fl(float64(t.N(5)-2)), fl(float64(t.N(5)-2)))...)
		}
		for _, x := range append(keys, 3.5, -0.25) {
			x := x
			add(fmt.Sprintf("the physical value of %v by %s", x, name), func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
				cm := mod.CompuMethods[nm(name)]
				return answer(calibrationReader.VerifConvert(cd, x, &cm))
			})
		}
	}
	// constants
	m.add("/begin", "MOD_PAR", `"c"`)
	for i := t.N(4); i > 0; i-- {
		m.add("SYSTEM_CONSTANT", fmt.Sprintf(`"K%d~~"`, i), gen.Str(t))
	}
	m.add("/end", "MOD_PAR")
	for _, k := range []string{`"K1~~"`, `"K2~~"`, `"nothing~~"`} {
		k := k
		add("constant "+k, func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
			return answer(calibrationReader.VerifConstant(cd, nm(k)))
		})
	}
	for _, id := range append(idents, "C0~~", "C1~~", "RL0~~", `"K1~~"`, "nothing~~", "") {
		id := id
		add("the objects named "+id, func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
			var out []string
			for _, x := range cd.GetObjectByIdent(nm(id)) {
				out = append(out, fmt.Sprintf("%T %+v", x, x))
			}
			sort.Strings(out)
			return strings.Join(out, "\n")
		})
	}
	bits := t.U64()
	raw := dtypes[t.N(len(dtypes))]
	add("the value of some bytes", func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
		return answer(calibrationReader.VerifDecode(cd, raw.raw(bits, o.big), raw.e))
	})
	add("an address", func(cd *calibrationReader.CalibrationData, mod *a2l.Module, nm namer) string {
		return answer(calibrationReader.VerifAddress(cd, fmt.Sprintf("0x%X", uint32(bits))))
	})

	decoys := t.Pick2(0, 0, 1)
	mk := func(nm namer) *calibrationReader.CalibrationData {
		mods := []*module{m}
		if decoys > 0 {
			x := &module{}
			x.add("/begin", "MOD_PAR", `"c"`, "SYSTEM_CONSTANT", `"K1~~"`, `"other"`, "/end", "MOD_PAR")
			mods = append([]*module{x}, mods...)
		}
		for i, x := range mods {
			y := &module{}
			for _, w := range x.words {
				y.add(nm(w))
			}
			mods[i] = y
		}
		cd := build(t, mods...)
		cd.ModuleIndex = uint8(decoys)
		cd.Hex = make(map[uint32]byte, len(hex))
		for a, b := range hex {
			cd.Hex[a] = b
		}
		return cd
	}
	plain := func(w string) string { return strings.ReplaceAll(w, "~~", "") }
	ask := func(cd *calibrationReader.CalibrationData, q *query) string {
		return q.ask(cd, &cd.A2l.Project.Modules[cd.ModuleIndex], plain)
	}
	cd := mk(plain)
	before := gen.DumpA2L(cd.A2l)
	// the answer to each question as the first one: in a copy with identifiers nobody has asked for yet
	suffix := fmt.Sprintf("_%016x", t.U64())
	fresh := mk(func(w string) string { return strings.ReplaceAll(w, "~~", suffix) })
	first := make([]string, len(qs))
	for i := range qs {
		t.Call(qs[i].what, func() {
			first[i] = qs[i].ask(fresh, &fresh.A2l.Project.Modules[decoys], func(w string) string { return strings.ReplaceAll(w, "~~", suffix) })
		})
		first[i] = strings.ReplaceAll(first[i], suffix, "")
		t.Label("question: %s", strings.Fields(qs[i].what)[1])
	}
	for i := range objs {
		if !o.ok {
			break
		}
		ob := &objs[i]
		ch, rl := cd.A2l.Project.Modules[decoys].Characteristics[plain(ob.name)], cd.A2l.Project.Modules[decoys].RecordLayouts[plain(ob.layout)]
		var got map[string]interface{}
		t.Call("reading the values", func() { got = calibrationReader.VerifReadValues(cd, &ch, &rl) })
		for j := range ob.comps {
			if c := &ob.comps[j]; c.field != "" {
				if v, ok := got[c.field]; ok {
					if d := c.check(v, false, false, o.big); d != "" {
						t.Fatalf("%s: %s", plain(ob.name), d)
					}
				}
			}
		}
	}
	t.NonTrivial(strings.Join(m.words, " "))
	t.Sample = fmt.Sprintf("%d questions, e.g. %s = %s", len(qs), qs[0].what, first[0])
	t.Eval(len(qs))
	// an answer the asker keeps
	kept := map[string]func() string{}
	for _, id := range append([]string{"C0~~", "RL0~~", `"K1~~"`}, idents...) {
		objs := cd.GetObjectByIdent(plain(id))
		kept["the objects named "+plain(id)] = func() string { return fmt.Sprintf("%+v", objs) }
	}
	rl0 := cd.A2l.Project.Modules[decoys].RecordLayouts["RL0"]
	if pos, err := rl0.GetRecordLayoutRelativePositions(); err == nil {
		kept["the order of RL0"] = func() string { return fmt.Sprint(pos) }
	}
	keptText := map[string]string{}
	for k, f := range kept {
		keptText[k] = f()
	}
	// again in another order, some several times
	for k := 0; k < len(qs)+5; k++ {
		i := t.N(len(qs))
		var got string
		t.Call(qs[i].what, func() { got = ask(cd, &qs[i]) })
		t.Eval(1)
		if got != first[i] {
			t.Fatalf("%s: the answer is %q, asked on its own it is %q", qs[i].what, got, first[i])
		}
	}
	// side by side
	if t.Chance(1, 2) {
		w := t.R(2, 4)
		var orders [][]int
		for g := 0; g < w; g++ {
			orders = append(orders, t.Perm(len(qs)))
		}
		bad := make([]string, w)
		var wg sync.WaitGroup
		for g := 0; g < w; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for _, i := range orders[g] {
					if got := ask(cd, &qs[i]); got != first[i] && bad[g] == "" {
						bad[g] = fmt.Sprintf("%s: asked while others ask as well the answer is %q, on its own %q", qs[i].what, got, first[i])
					}
				}
			}(g)
		}
		wg.Wait()
		t.Label("asked side by side")
		t.Eval(w * len(qs))
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s", b)
			}
		}
	}
	for k, f := range kept {
		if got := f(); got != keptText[k] {
			t.Fatalf("%s: the answer given before is changed by later questions from %s to %s", k, keptText[k], got)
		}
	}
	if after := gen.DumpA2L(cd.A2l); after != before {
		t.Fatalf("asking has changed the A2L content")
	}
	if len(cd.Hex) != len(hex) || int(cd.ModuleIndex) != decoys {
		t.Fatalf("asking has changed the image or the selected module")
	}
	for a, b := range hex {
		if x, ok := cd.Hex[a]; !ok || x != b {
			t.Fatalf("asking has changed the image at %#x", a)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C05", Quick: 1500, Thorough: 60000, Race: 200, Rule: "every calibration that is asked", Oracle: "metamorphic: every answer equals the one to the same question asked first and alone; dumps of A2L content and image before and after; answers kept by the asker stay as they are",
		Assume: []string{"one question at a time or several goroutines that only ask"}, Run: func(t *pbt.T) {
			queryHistory(t)
			if t.Chance(1, 3) { // another calibration with the same identifiers
				queryHistory(t)
			}
		}})
}
