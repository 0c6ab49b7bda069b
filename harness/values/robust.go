package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// damage changes some words of a file.
func damage(t *pbt.T, w []string, b, e int) []string {
	w = append([]string(nil), w...)
	for k := t.R(1, 3); k > 0 && e-b > 1; k-- {
		i := t.R(b, e-1)
		switch t.N(6) {
		case 0:
			w = append(w[:i], w[i+1:]...)
			e--
		case 1:
			j := t.R(b, e-1)
			w[i], w[j] = w[j], w[i]
		case 2:
			w[i] = gen.AnyWord(t)
		case 3:
			w[i] = t.Pick("0", "-1", "1e300", "65535", "0x0", "99999999999", "255", `""`)
		case 4:
			w = append(w[:i], append([]string{w[t.N(len(w))]}, w[i:]...)...)
			e++
		case 5:
			w = append(w[:i], append([]string{w[i]}, w[i:]...)...)
			e++
		}
	}
	return w
}

// ask asks everything that can be asked of the selected module.
func askAll(t *pbt.T, cd *calibrationReader.CalibrationData, seeds []uint64) {
	at := 0
	num := func(n int) int {
		at++
		return int(seeds[at%len(seeds)]>>8) % n
	}
	var m a2l.Module
	if int(cd.ModuleIndex) < len(cd.A2l.Project.Modules) {
		m = cd.A2l.Project.Modules[cd.ModuleIndex]
	}
	ask := func(what string, f func()) {
		t.Eval(1)
		t.Call(what, f)
	}
	idents := []string{"", "x", " "}
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Map && f.Type().Key().Kind() == reflect.String {
			for _, k := range f.MapKeys() {
				idents = append(idents, k.String())
			}
		}
	}
	sort.Strings(idents)
	for _, id := range idents {
		id := id
		ask(fmt.Sprintf("looking up %q", id), func() { cd.GetObjectByIdent(id) })
	}
	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
		return
	}
	values := []float64{0, 1, -1, 0.5, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.NaN(), 1e-300, 255, 65536}
	for name, cm := range m.CompuMethods {
		for _, x := range values {
			cm, x := cm, x
			ask(fmt.Sprintf("converting %g by %s", x, name), func() { _, _ = calibrationReader.VerifConvert(cd, x, &cm) })
		}
	}
	for name, tab := range m.CompuTabs { // numeric tables are reached through a method
		cm := a2l.CompuMethod{Name: "by " + name, ConversionType: a2l.TabNointp, ConversionTypeSet: true}
		cm.CompuTabRef.ConversionTable, cm.CompuTabRef.ConversionTableSet = name, true
		for _, x := range append(tab.InVal, values...) {
			x := x
			ask(fmt.Sprintf("converting %g by table %s", x, name), func() { _, _ = calibrationReader.VerifConvert(cd, x, &cm) })
		}
	}
	for name, tab := range m.CompuVTabs {
		tab := tab
		for _, x := range append(append([]float64(nil), tab.InVal...), values...) {
			x := x
			ask(fmt.Sprintf("converting %g by verbal table %s", x, name), func() { _, _ = calibrationReader.VerifVerbal(cd, x, &tab) })
		}
	}
	for name, tab := range m.CompuVTabRanges {
		tab := tab
		for _, x := range append(append(append([]float64(nil), tab.InValMin...), tab.InValMax...), values...) {
			x := x
			ask(fmt.Sprintf("converting %g by range table %s", x, name), func() { _, _ = calibrationReader.VerifVerbalRange(cd, x, &tab) })
		}
	}
	for k := range m.ModPar.SystemConstants {
		k := k
		ask("asking for constant "+k, func() { _, _ = calibrationReader.VerifConstant(cd, k) })
	}
	ask("asking for an unknown constant", func() { _, _ = calibrationReader.VerifConstant(cd, "\x00") })
	for _, d := range dtypes {
		d := d
		for n := 0; n <= 9; n++ {
			n := n
			ask(fmt.Sprintf("decoding %d bytes as %s", n, d.name), func() { _, _ = calibrationReader.VerifDecode(cd, make([]byte, n), d.e) })
		}
	}
	addresses := []string{"0x0", "0x1000", "0xFFFFFFF0", "0xFFFFFFFF", "", "0x", "zz", "-1", "0x100000000"}
	var chars []a2l.Characteristic
	for _, c := range m.Characteristics {
		chars = append(chars, c)
		addresses = append(addresses, c.Address)
	}
	chars = append(chars, a2l.Characteristic{}, a2l.Characteristic{Name: "c", Deposit: "?", DepositSet: true, Address: "0x1000"})
	for _, s := range addresses {
		s := s
		ask(fmt.Sprintf("converting address %q", s), func() { _, _ = calibrationReader.VerifAddress(cd, s) })
	}
	for name, rl := range m.RecordLayouts {
		rl := rl
		ask("ordering layout "+name, func() { _, _ = rl.GetRecordLayoutRelativePositions() })
		rt := reflect.TypeOf(rl)
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i).Name
			ask("asking layout "+name+" for the data type of "+f, func() { _, _ = rl.GetDatatypeByFieldName(f) })
		}
		for _, d := range dtypes {
			d := d
			for _, x := range []uint32{0, 1, 0x1001, 0xFFFFFFFD} {
				x := x
				ask(fmt.Sprintf("aligning %#x for %s in layout %s", x, d.name, name), func() { calibrationReader.VerifAlign(cd, x, d.e, &rl) })
			}
		}
		for k := 0; k < 3; k++ {
			c := chars[num(len(chars))]
			c.Deposit, c.DepositSet = name, true
			if k > 0 {
				c.Address = addresses[num(len(addresses))]
			}
			ask(fmt.Sprintf("reading the values at %s by layout %s", c.Address, name), func() { calibrationReader.VerifReadValues(cd, &c, &rl) })
		}
	}
	for _, c := range chars {
		c := c
		ask("reading the values of "+c.Name, func() { calibrationReader.VerifReadValues(cd, &c, &a2l.RecordLayout{}) })
	}
}

// storedAnything asks for the values of objects whose counts and values in the image are anything at all.
func storedAnything(t *pbt.T) {
	o := orders[t.N(5)]
	mc := drawAlign(t, t.Pick2(0, 2, 4))
	m := &module{}
	m.add(modCommon(o, mc)...)
	hex := map[uint32]byte{}
	var texts []string
	huge := false
	for i := 0; i < t.Pick2(1, 1, 2, 3); i++ {
		l := drawLayout(t, fmt.Sprintf("RL%d", i))
		l.draw(t)
		for _, c := range l.comps {
			if c.kind != "count" && !(c.kind == "scalar" && strings.HasPrefix(c.kw, "NO_AXIS")) || t.Chance(1, 4) {
				continue
			}
			u := t.U64()
			switch t.N(6) {
			case 0:
				u = ^uint64(0)
			case 1:
				u = 1 << uint(8*c.d.size-1)
			case 2:
				u = 1<<uint(8*c.d.size-1) - 1
			case 3:
				u = c.d.enc(int64(1) << uint(t.R(8, 53)))
			case 4:
				u = 0x0101010101010101 * uint64(t.R(0, 2))
			}
			c.bits, huge = []uint64{u}, true
		}
		start := uint32(t.Pick2(0x1000, 0, 0x80000001, 0x7fffff, 0xffffff00)) + uint32(i*0x80000)
		l.place(start, mc, o.big, hex)
		w := l.words(t)
		m.add(w...)
		texts = append(texts, fmt.Sprintf("%s at %#x", strings.Join(w, " "), start))
		m.add("/begin", "CHARACTERISTIC", fmt.Sprintf("C%d", i), `"c"`, "MAP", fmt.Sprintf("0x%X", start), l.name, "0", "NO_COMPU_METHOD", "0", "1", "/end", "CHARACTERISTIC")
	}
	cd := build(t, m)
	cd.Hex = hex
	if t.Chance(1, 3) {
		for a := range hex {
			if splitNoise(uint64(a))%16 == 0 {
				delete(hex, a)
			}
		}
	}
	t.Label("file:stored counts of any size:%v", huge)
	t.NonTrivial(texts...)
	t.Sample = strings.Join(texts, "; ")
	askAll(t, cd, []uint64{t.U64(), t.U64(), t.U64()})
}

// queryRobust: whatever has been accepted can be asked.
func queryRobust(t *pbt.T) {
	var focus []*gen.Path
	for _, p := range gen.Paths("") {
		if p.Kind != nil {
			switch p.Kind.Key.Kw {
			case "RECORD_LAYOUT", "COMPU_METHOD", "COMPU_TAB", "COMPU_VTAB", "COMPU_VTAB_RANGE", "MOD_COMMON", "MOD_PAR", "CHARACTERISTIC":
				focus = append(focus, p)
			}
		}
	}
	k := t.N(len(focus) + len(focus)/3)
	if k >= len(focus) {
		storedAnything(t)
		return
	}
	p := focus[k]
	d := gen.GenDoc(t, gen.DocSpec{Kinds: gen.AllKinds(""), MaxObjs: t.Pick2(2, 6, 12), Singles: t.N(3), Mods: t.Pick2(1, 1, 2)})
	n := gen.ForcePath(t, d, p)
	w, b, e := gen.FocusWords(d, n)
	kind := t.W(6, 4, 1)
	switch kind {
	case 0:
		t.Label("file:damaged")
		w = damage(t, w, b, e)
	case 1:
		t.Label("file:well-formed")
	case 2:
		t.Label("file:no module")
		w = []string{"/begin", "PROJECT", "p", `""`, "/end", "PROJECT"}
	}
	path := t.File("any.a2l", gen.Render(t, w))
	cd := &calibrationReader.CalibrationData{Hex: map[uint32]byte{}}
	var err error
	t.Call("parsing the A2L file", func() { cd.A2l, err = a2l.ParseFromFile(path) })
	if err != nil {
		t.Label("rejected")
		return
	}
	// the image around the addresses in use, with and without holes
	var starts []uint64
	for _, m := range cd.A2l.Project.Modules {
		for _, c := range m.Characteristics {
			if x, err := strconv.ParseUint(strings.TrimPrefix(c.Address, "0x"), 16, 32); err == nil && len(starts) < 6 {
				starts = append(starts, x)
			}
		}
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
	size, holes, fill := uint64(t.Pick2(600, 40, 0)), t.Pick2(0, 0, 10, 2), byte(t.Pick2(1, 0, 0xff, 3))
	for _, s := range append(starts, 0x1000, 0, 0xFFFFFFF0) {
		for i := uint64(0); i < size; i++ {
			if holes == 0 || t.N(holes) != 0 {
				x := fill
				if t.Chance(1, 3) {
					x = byte(t.N(256))
				}
				cd.Hex[uint32(s+i)] = x
			}
		}
	}
	if mods := len(cd.A2l.Project.Modules); mods > 0 {
		cd.ModuleIndex = uint8(t.N(mods))
		if t.Chance(1, 16) { // there is no such module
			cd.ModuleIndex = uint8(mods)
		}
	}
	seeds := []uint64{t.U64(), t.U64(), t.U64(), t.U64(), t.U64()}
	t.Label("at %s", p.Kind.Key.Kw)
	t.NonTrivial(strings.Join(w, " "))
	t.Sample = fmt.Sprintf("%s, asked after damage %v", p, kind == 0)
	askAll(t, cd, seeds)
	_ = os.Remove(path)
}

func init() {
	pbt.Register(&pbt.Prop{ID: "C08", Quick: 12000, Thorough: 150000, Strata: true, Rule: "every accepted file that is asked", Oracle: "every question returns: no panic, hang or process death",
		Run: queryRobust})
}
