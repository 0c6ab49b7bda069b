package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/gen"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

func modCommon(o order, al map[string]int) []string {
	w := []string{"/begin", "MOD_COMMON", `"c"`}
	if o.text != "" {
		w = append(w, "BYTE_ORDER", o.text)
	}
	for _, c := range alignClasses {
		if b, ok := al[c]; ok {
			w = append(w, "ALIGNMENT_"+c, strconv.Itoa(b))
		}
	}
	return append(w, "/end", "MOD_COMMON")
}

// ---- V02

func drawBits(t *pbt.T, d *dtype) uint64 {
	switch t.W(4, 2, 2, 2) {
	case 1: // extremes
		w := uint(8 * d.size)
		m := ^uint64(0) >> (64 - w)
		return []uint64{0, m, m >> 1, m ^ m>>1, 1, m - 1}[t.N(6)]
	case 2:
		return d.enc(int64(t.N(200) - 100))
	case 3: // one byte differs
		return uint64(t.N(256)) << uint(8*t.N(d.size))
	}
	return t.U64()
}

func decode(t *pbt.T) {
	o := orders[t.N(len(orders))]
	m := &module{}
	if o.text != "" || t.Bool() {
		m.add(modCommon(o, nil)...)
	}
	cd := around(t, m, func() *module {
		x := &module{}
		x.add(modCommon(orders[t.N(len(orders))], nil)...)
		return x
	})
	t.Label("byte order:%s", o.text)
	var sample []string
	for k := t.R(4, 12); k > 0; k-- {
		t.Group(func() {
			d := &dtypes[t.N(len(dtypes))]
			if n := d.e.GetDatatypeLength(); int(n) != 8*d.size {
				t.Fatalf("the size of %s is stated as %d bits", d.name, n)
			}
			u := drawBits(t, d)
			b := d.raw(u, o.big)
			short := t.Chance(1, 8)
			if short {
				b = b[:t.N(len(b))]
			} else if t.Chance(1, 8) { // the bytes behind the value do not matter
				b = append(b, t.Bytes(t.Pick2(1, 2, 4, 8, 24, 25, 28, 30, 31, 60, 250, 255, 256, 300))...)
				t.Label("surplus bytes")
			}
			if g := d.e.GetType(); !d.isType(g) {
				t.Fatalf("the Go type of %s is stated as %T", d.name, g)
			}
			if e := d.e; e.String() != d.name {
				t.Fatalf("the name of %s is stated as %q", d.name, e.String())
			}
			var got float64
			var err error
			text := string(b)
			t.Call("decoding", func() { got, err = calibrationReader.VerifDecode(cd, b, d.e) })
			t.Eval(1)
			if string(b) != text {
				t.Fatalf("decoding %x as %s changes the bytes to %x", text, d.name, b)
			}
			t.Label("type:%s", d.name)
			t.NonTrivial(d.name, o.text, fmt.Sprintf("%x", b))
			sample = append(sample, fmt.Sprintf("%s %x", d.name, b))
			switch {
			case short:
				t.Label("too few bytes")
				if err == nil {
					t.Fatalf("%d bytes decode as %s to %v without error", len(b), d.name, got)
				}
			case !o.ok:
				if err == nil && d.size > 1 {
					t.Fatalf("byte order %s: bytes %x decode as %s to %v without error", o.text, b, d.name, got)
				}
			default:
				if want := d.bits(u); err != nil || !same(got, want) || got == 0 && math.Signbit(got) != math.Signbit(want) {
					t.Fatalf("byte order %q: bytes %x decode as %s to %v (error %v), want %v", o.text, b, d.name, got, err, want)
				}
			}
		})
	}
	t.Sample = fmt.Sprintf("byte order %q: %s", o.text, strings.Join(sample, ", "))
}

// ---- V03

func drawAlign(t *pbt.T, chance int, more ...int) map[string]int {
	al := map[string]int{}
	for _, c := range alignClasses {
		if t.Chance(chance, 8) {
			al[c] = t.Pick2(append([]int{1, 2, 4, 8, 16, 3, 32, 5}, more...)...)
		}
	}
	return al
}

func alignUp(addr, b uint32) uint32 {
	if r := addr % b; r != 0 {
		addr += b - r
	}
	return addr
}

func border(d *dtype, rl, mc map[string]int) uint32 {
	if b, ok := rl[d.align]; ok {
		return uint32(b)
	}
	if b, ok := mc[d.align]; ok {
		return uint32(b)
	}
	return d.def
}

func alignWords(al map[string]int) []string {
	var w []string
	for _, c := range alignClasses {
		if b, ok := al[c]; ok {
			w = append(w, "ALIGNMENT_"+c, strconv.Itoa(b))
		}
	}
	return w
}

func align(t *pbt.T) {
	big := []int{64, 6, 7, 12, 100, 128, 256, 300, 1000, 32767, 65535}
	mc, rl := drawAlign(t, t.Pick2(2, 0, 4, 8), big...), drawAlign(t, t.Pick2(2, 0, 4, 8), big...)
	m := &module{}
	if len(mc) > 0 || t.Bool() {
		m.add(modCommon(order{}, mc)...)
	}
	m.add("/begin", "RECORD_LAYOUT", "RL")
	m.add(alignWords(rl)...)
	m.add("/end", "RECORD_LAYOUT")
	cd := around(t, m, func() *module {
		x := &module{}
		x.add(modCommon(order{}, drawAlign(t, 6))...)
		return x
	})
	lay, ok := cd.A2l.Project.Modules[cd.ModuleIndex].RecordLayouts["RL"]
	if !ok {
		t.Fatalf("record layout not found")
	}
	t.Sample = fmt.Sprintf("module %v, layout %v", mc, rl)
	for i := range dtypes {
		d := &dtypes[i]
		b := border(d, rl, mc)
		src := "default"
		if _, ok := rl[d.align]; ok {
			src = "layout"
		} else if _, ok := mc[d.align]; ok {
			src = "module"
		}
		base := uint32(t.U64() % 0xfff00000)
		addrs := []uint32{base, base / b * b, base/b*b + 1, base/b*b + b - 1, uint32(t.N(64))}
		for _, a := range addrs {
			var got uint32
			t.Call("aligning", func() { got = calibrationReader.VerifAlign(cd, a, d.e, &lay) })
			t.Eval(1)
			if want := alignUp(a, b); got != want {
				t.Fatalf("%s at %#x with border %d (%s): aligned to %#x, want %#x", d.name, a, b, src, got, want)
			}
			if a%b != 0 {
				t.NonTrivial(d.name, src, fmt.Sprint(b), fmt.Sprint(a))
			}
		}
		t.Label("%s:%s", d.name, src)
	}
}

// ---- V04

type comp struct {
	kw, field string
	kind      string // scalar, count, axis, skip, reserved, ident, fnc
	d         *dtype
	size      int // reserved
	fixed     int // axis: the fixed number of points, 0 if it is stored
	count     *comp
	rest      []string
	pos       int
	// per characteristic
	bits  []uint64
	vals  []float64
	addrs []uint32
}

func camel(kw string) string {
	out := ""
	for _, w := range strings.Split(strings.ToLower(kw), "_") {
		out += strings.ToUpper(w[:1]) + w[1:]
	}
	return out
}

// most is the largest integer up to which the data type represents all integers.
func (d *dtype) most() int64 {
	switch {
	case d.float && d.size == 2:
		return 1 << 11
	case d.float && d.size == 4:
		return 1 << 24
	case d.size == 8:
		return 1 << 53
	case d.signed:
		return 1<<uint(8*d.size-1) - 1
	}
	return 1<<uint(8*d.size) - 1
}

// integer draws an integer the data type represents.
func integer(t *pbt.T, d *dtype) int64 {
	hi := d.most()
	if t.Bool() {
		hi = min(hi, 100)
	}
	v := int64(t.U64() % uint64(hi+1))
	if t.Chance(1, 8) {
		v = hi
	}
	if d.signed && t.Bool() {
		v = -v
		if t.Chance(1, 8) && !d.float && d.size < 8 {
			v = -d.most() - 1
		}
	}
	return v
}

type layout struct {
	name  string
	comps []*comp
	al    map[string]int
}

func drawLayout(t *pbt.T, name string) *layout {
	l := &layout{name: name, al: drawAlign(t, t.Pick2(0, 2, 4))}
	var before, comps []*comp
	density := t.Pick2(2, 1, 4, 7)
	scalar := func(kw string) *comp {
		return &comp{kw: kw, field: camel(kw), kind: "scalar", d: &dtypes[t.N(len(dtypes))]}
	}
	for _, ax := range gen.Axes {
		for _, kw := range []string{"DIST_OP_", "SHIFT_OP_", "OFFSET_"} {
			if t.Chance(density, 16) {
				comps = append(comps, scalar(kw+ax))
			}
		}
		for _, kw := range []string{"RIP_ADDR_", "SRC_ADDR_"} {
			if t.Chance(density, 24) {
				comps = append(comps, &comp{kw: kw + ax, kind: "skip", d: &dtypes[t.N(len(dtypes))]})
			}
		}
		if t.Chance(density, 10) {
			a := &comp{kw: "AXIS_PTS_" + ax, field: "AxisPts" + ax, kind: "axis", d: &dtypes[t.N(len(dtypes))], rest: []string{"INDEX_INCR", "DIRECT"}}
			comps = append(comps, a)
			how := t.W(3, 3, 1)
			if how != 1 {
				a.fixed = t.Pick2(1, 2, 3, 7, 12, 40, 130, 300)
				t.Label("fixed number of points")
			}
			if how != 0 {
				a.count = &comp{kw: "NO_AXIS_PTS_" + ax, field: "NoAxisPts" + ax, kind: "count", d: &dtypes[t.N(len(dtypes))]}
				a.fixed = int(min(int64(a.fixed), a.count.d.most()))
				before = append(before, a.count)
				t.Label("stored number of points")
			}
		} else if t.Chance(density, 24) { // a count without axis
			comps = append(comps, scalar("NO_AXIS_PTS_"+ax))
		}
	}
	if t.Chance(density, 10) {
		comps = append(comps, scalar("NO_RESCALE_X"))
	}
	if t.Chance(density, 24) {
		comps = append(comps, &comp{kw: "RIP_ADDR_W", kind: "skip", d: &dtypes[t.N(len(dtypes))]})
	}
	if t.Chance(density, 8) {
		comps = append(comps, &comp{kw: "IDENTIFICATION", field: "Identification", kind: "ident", d: &dtypes[t.N(len(dtypes))]})
	}
	if t.Chance(density, 8) {
		k := t.N(3)
		comps = append(comps, &comp{kw: "RESERVED", kind: "reserved", size: []int{1, 2, 4}[k], rest: []string{[]string{"BYTE", "WORD", "LONG"}[k]}})
	}
	if len(comps) == 0 {
		comps = append(comps, scalar("OFFSET_X"))
	}
	// order: the counts of an axis precede its points
	for _, j := range t.Perm(len(comps)) {
		l.comps = append(l.comps, comps[j])
	}
	for _, b := range before {
		limit := 0
		for i, c := range l.comps {
			if c.count == b {
				limit = i
			}
		}
		at := t.N(limit + 1)
		l.comps = append(l.comps, nil)
		copy(l.comps[at+1:], l.comps[at:])
		l.comps[at] = b
	}
	if t.Chance(1, 4) {
		l.comps = append(l.comps, &comp{kw: "FNC_VALUES", kind: "fnc", d: &dtypes[t.N(len(dtypes))], rest: []string{"ROW_DIR", "DIRECT"}})
	}
	pos := t.Pick2(1, 0, 7)
	for _, c := range l.comps {
		c.pos = pos
		pos += 1 + t.Pick2(0, 0, 0, 1, 9, 250)
	}
	return l
}

func (l *layout) words(t *pbt.T) []string {
	w := []string{"/begin", "RECORD_LAYOUT", l.name}
	var lines [][]string
	for _, c := range l.comps {
		x := []string{c.kw, strconv.Itoa(c.pos)}
		if c.d != nil {
			x = append(x, c.d.name)
		}
		lines = append(lines, append(x, c.rest...))
		if c.fixed > 0 {
			lines = append(lines, []string{"FIX_NO_" + c.kw, strconv.Itoa(c.fixed)})
		}
	}
	al := alignWords(l.al)
	for i := 0; i+1 < len(al); i += 2 {
		lines = append(lines, al[i:i+2])
	}
	for _, j := range t.Perm(len(lines)) {
		w = append(w, lines[j]...)
	}
	return append(w, "/end", "RECORD_LAYOUT")
}

// draw gives the components new values.
func (l *layout) draw(t *pbt.T) {
	for _, c := range l.comps {
		c.bits, c.vals, c.addrs = nil, nil, nil
		switch c.kind {
		case "scalar":
			v := integer(t, c.d)
			c.bits, c.vals = []uint64{c.d.enc(v)}, []float64{float64(v)}
		case "ident":
			u := t.U64()
			c.bits, c.vals = []uint64{u}, []float64{c.d.bits(u)}
		case "axis":
			n := c.fixed
			if n == 0 {
				n = int(min(int64(t.Pick2(1, 2, 3, 7, 12, 40, 127, 200, 255, 300)), c.count.d.most()))
			}
			if c.count != nil {
				c.count.bits, c.count.vals = []uint64{c.count.d.enc(int64(n))}, []float64{float64(n)}
			}
			var u uint64
			for i := 0; i < n; i++ {
				if i < 12 {
					u = drawBits(t, c.d)
				} else {
					u = splitNoise(u + uint64(i))
				}
				c.bits = append(c.bits, u)
				c.vals = append(c.vals, c.d.bits(u))
			}
		}
	}
}

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// place writes the values into the image and returns the address behind them.
func (l *layout) place(start uint32, mc map[string]int, big bool, hex map[uint32]byte) (cur uint32, padding bool) {
	cur = start
	for _, c := range l.comps {
		switch c.kind {
		case "reserved":
			cur += uint32(c.size)
		case "skip":
			cur = alignUp(cur, border(c.d, l.al, mc)) + uint32(c.d.size)
		case "fnc":
		default:
			for _, u := range c.bits {
				x := alignUp(cur, border(c.d, l.al, mc))
				padding = padding || x != cur
				c.addrs = append(c.addrs, x)
				for i, b := range c.d.raw(u, big) {
					hex[x+uint32(i)] = b
				}
				cur = x + uint32(c.d.size)
			}
		}
	}
	for a := int64(start) - 20; a < int64(cur)+20 && a <= 0xffffffff; a++ { // noise everywhere
		if a >= 0 {
			if _, ok := hex[uint32(a)]; !ok {
				hex[uint32(a)] = byte(splitNoise(uint64(a)))
			}
		}
	}
	return
}

func readValues(t *pbt.T) {
	o := orders[t.N(5)]
	mc := drawAlign(t, t.Pick2(0, 2, 4))
	lays := []*layout{drawLayout(t, "RL")}
	if t.Chance(1, 4) {
		lays = append(lays, drawLayout(t, "RL2"))
	}
	m := &module{}
	if o.text != "" || len(mc) > 0 || t.Bool() {
		m.add(modCommon(o, mc)...)
	}
	// a layout and an address that cannot be used
	broken := t.Pick2(0, 0, 0, 0, 0, 0, 0, 1, 2, 3)
	var texts []string
	for i, l := range lays {
		if i == 0 && broken == 1 {
			continue // the deposit is not defined in this module
		}
		w := l.words(t)
		if i == 0 && broken == 2 { // one position twice
			k := "NO_RESCALE_X"
			for _, c := range l.comps {
				if c.kw == k {
					k = ""
				}
			}
			if k == "" {
				broken = 0
			} else {
				w = append(w[:len(w)-2:len(w)-2], k, strconv.Itoa(l.comps[t.N(len(l.comps))].pos), "UBYTE", "/end", "RECORD_LAYOUT")
			}
		}
		m.add(w...)
		texts = append(texts, strings.Join(w, " "))
	}
	hex := map[uint32]byte{}
	type object struct {
		name  string
		lay   *layout
		start uint32
		comps []comp
	}
	var objs []*object
	char := func(name, lay string, addr uint32) []string {
		a := fmt.Sprintf(t.Pick("0x%X", "0x%x", "0x%08X"), addr)
		if broken == 3 && name == "C0" {
			a = t.Pick("0x", "0xG", "ADDR", "0x123456789", "0x1.5")
		}
		return []string{"/begin", "CHARACTERISTIC", name, `"c"`, t.Pick("MAP", "CURVE", "VALUE", "VAL_BLK", "CUBOID"), a, lay, "0", "NO_COMPU_METHOD", "0", "1", "/end", "CHARACTERISTIC"}
	}
	n := t.Pick2(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		l := lays[0]
		if i > 0 {
			l = lays[t.N(len(lays))]
		}
		start := uint32(t.Pick2(0x1000, 0, 0x80000001, 0x7fffff, 0xa0000003, 0xffe00000, 0x7fffffe0)) + uint32(i*0x80000) + uint32(t.N(64))
		l.draw(t)
		if i == 0 && t.Chance(1, 8) { // the object fills the last bytes of the address space
			end, _ := l.place(0, mc, o.big, map[uint32]byte{})
			for s := -end; s > -end-40; s-- {
				for k := range l.comps {
					l.comps[k].addrs = nil
				}
				if e, _ := l.place(s, mc, o.big, map[uint32]byte{}); e == 0 {
					start = s
					t.Label("up to the last address")
					break
				}
			}
			for k := range l.comps {
				l.comps[k].addrs = nil
			}
		}
		ob := &object{name: fmt.Sprintf("C%d", i), lay: l, start: start}
		_, padding := l.place(start, mc, o.big, hex)
		if padding {
			t.Label("padding between components")
		}
		for _, c := range l.comps {
			ob.comps = append(ob.comps, *c)
		}
		objs = append(objs, ob)
		m.add(char(ob.name, l.name, start)...)
	}
	cd := around(t, m, func() *module {
		x := &module{}
		x.add(modCommon(orders[t.N(5)], drawAlign(t, 4))...)
		x.add("/begin", "RECORD_LAYOUT", "RL", "OFFSET_X", "1", "UWORD", "IDENTIFICATION", "2", "UBYTE", "/end", "RECORD_LAYOUT")
		x.add("/begin", "CHARACTERISTIC", "C0", `"c"`, "MAP", fmt.Sprintf("0x%X", objs[0].start), "RL", "0", "NO_COMPU_METHOD", "0", "1", "/end", "CHARACTERISTIC")
		return x
	})
	cd.Hex = hex
	// a hole in the image
	hole, holeOf := -1, t.N(len(objs))
	var holeAt uint32
	if t.Chance(1, 4) && broken == 0 {
		cs := objs[holeOf].comps
		k := t.N(len(cs))
		if c := cs[k]; len(c.addrs) > 0 {
			hole = k
			holeAt = c.addrs[t.N(len(c.addrs))] + uint32(t.N(c.d.size))
			delete(hex, holeAt)
			t.Label("hole in the image")
		}
	}
	t.Label("byte order:%s", o.text)
	t.Label("characteristics:%d", len(objs))
	if broken > 0 {
		t.Label("unusable: %s", []string{"", "undefined layout", "position used twice", "malformed address"}[broken])
	}
	total := 0
	for _, ob := range objs {
		for i, c := range ob.comps {
			t.Label("component:%s", c.kw)
			total += len(c.bits)
			if i > 0 && c.kind == "reserved" {
				t.Label("reserved gap between components")
			}
		}
	}
	if total >= 2 {
		t.NonTrivial(strings.Join(texts, " "), fmt.Sprint(objs[0].start, o.text, mc, broken))
	}
	t.Sample = fmt.Sprintf("at %#x, byte order %q, module alignment %v: %s", objs[0].start, o.text, mc, strings.Join(texts, " "))
	mod := &cd.A2l.Project.Modules[cd.ModuleIndex]
	images := len(hex)
	for rep := 0; rep < 2; rep++ { // again: the order must not vary
		for at, ob := range objs {
			ch, ok1 := mod.Characteristics[ob.name]
			rl, ok2 := mod.RecordLayouts[ob.lay.name]
			if !ok1 || !ok2 && broken != 1 {
				t.Fatalf("characteristic or record layout not found")
			}
			var got map[string]interface{}
			t.Call("reading the values", func() { got = calibrationReader.VerifReadValues(cd, &ch, &rl) })
			t.Eval(len(ob.comps))
			bad := ob.lay == lays[0] && (broken == 1 || broken == 2) || broken == 3 && at == 0
			seen := map[string]bool{}
			for i := range ob.comps {
				c := &ob.comps[i]
				seen[c.field] = !bad
				if _, ok := got[c.field]; c.field == "" || bad || !ok {
					continue
				}
				h := hole >= 0 && at == holeOf
				if d := c.check(got[c.field], h && i >= hole, h && i == hole, o.big); d != "" {
					if h {
						d += fmt.Sprintf(" (the image lacks the byte at %#x)", holeAt)
					}
					t.Fatalf("%s: %s", ob.name, d)
				}
			}
			for f, v := range got {
				if !seen[f] && !empty(v) {
					if bad {
						t.Fatalf("%s: %s is %v, but %s", ob.name, f, v, []string{"", "the layout is not defined", "two components share a position", "the address is malformed"}[broken])
					}
					t.Fatalf("%s: %s is %v, but the layout has no such component", ob.name, f, v)
				}
			}
		}
	}
	if len(hex) != images {
		t.Fatalf("reading changes the image")
	}
}

func splitNoise(x uint64) uint64 {
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func empty(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case int64:
		return x == 0
	case float64:
		return x == 0
	case []float64:
		return len(x) == 0
	case []byte:
		return len(x) == 0
	}
	return false
}

// check compares a component. Behind a hole (lenient) a value may be missing; at the hole it must not be complete.
func (c *comp) check(v interface{}, lenient, hole bool, big bool) string {
	if lenient && empty(v) {
		return ""
	}
	at := ""
	if len(c.addrs) > 0 {
		at = fmt.Sprintf(" (%s at %#x)", c.d.name, c.addrs[0])
	}
	switch c.kind {
	case "scalar", "count":
		var f float64
		switch x := v.(type) {
		case int64:
			f = float64(x)
		case float64:
			f = x
		default:
			return fmt.Sprintf("%s is %v%s, the image holds %v", c.kw, v, at, c.vals[0])
		}
		if hole {
			return fmt.Sprintf("%s is %v%s although the image lacks a byte of it", c.kw, f, at)
		}
		if f != c.vals[0] {
			return fmt.Sprintf("%s is %v%s, the image holds %v", c.kw, f, at, c.vals[0])
		}
	case "ident":
		if hole {
			return fmt.Sprintf("%s is %v%s although the image lacks a byte of it", c.kw, v, at)
		}
		switch x := v.(type) {
		case []byte:
			if string(x) != string(c.d.raw(c.bits[0], big)) {
				return fmt.Sprintf("%s is %x%s, the image holds %x", c.kw, x, at, c.d.raw(c.bits[0], big))
			}
		case float64:
			if !same(x, c.vals[0]) {
				return fmt.Sprintf("%s is %v%s, the image holds %v", c.kw, x, at, c.vals[0])
			}
		default:
			return fmt.Sprintf("%s is %v%s, the image holds %x", c.kw, v, at, c.d.raw(c.bits[0], big))
		}
	case "axis":
		x, ok := v.([]float64)
		if !ok {
			return fmt.Sprintf("%s is %v, the image holds %v", c.kw, v, c.vals)
		}
		if hole && len(x) >= len(c.vals) {
			return fmt.Sprintf("%s is %v%s although the image lacks a byte of it", c.kw, x, at)
		}
		if !lenient && len(x) != len(c.vals) || len(x) > len(c.vals) {
			return fmt.Sprintf("%s has %d points%s, %d are stored", c.kw, len(x), at, len(c.vals))
		}
		for i := range x {
			if !same(x[i], c.vals[i]) {
				return fmt.Sprintf("point %d of %s is %v%s, the image holds %v (%d points)", i, c.kw, x[i], at, c.vals[i], len(c.vals))
			}
		}
	}
	return ""
}

// ---- V05

func fl(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func methodWords(name, conv string, extra ...string) []string {
	w := []string{"/begin", "COMPU_METHOD", name, `"m"`, conv, `"%6.2"`, `"u"`}
	return append(append(w, extra...), "/end", "COMPU_METHOD")
}

func drawF(t *pbt.T) float64 {
	f, err := strconv.ParseFloat(gen.Float(t), 64)
	if err != nil || math.Abs(f) > 1e12 || math.Abs(f) < 1e-12 {
		return float64(t.N(1000) - 500)
	}
	return f
}

func convert(t *pbt.T, cd *calibrationReader.CalibrationData, name string, x float64) (float64, error) {
	cm, ok := cd.A2l.Project.Modules[cd.ModuleIndex].CompuMethods[name]
	if !ok {
		t.Fatalf("conversion method %s not found", name)
	}
	var y float64
	var err error
	t.Call("converting", func() { y, err = calibrationReader.VerifConvert(cd, x, &cm) })
	t.Eval(1)
	return y, err
}

func formula(t *pbt.T) {
	m := &module{}
	var todo []func(cd *calibrationReader.CalibrationData)
	var desc []string
	coefC := func(v ...float64) []string {
		w := []string{"COEFFS"}
		if len(v) == 2 {
			w[0] = "COEFFS_LINEAR"
		}
		for _, x := range v {
			w = append(w, fl(x))
		}
		return w
	}
	for i := 0; i < 4; i++ {
		name := fmt.Sprintf("cm%d", i)
		t.Group(func() {
			switch t.W(1, 4, 8, 3) {
			case 0:
				extra := []string{}
				if t.Bool() { // coefficients that do not matter
					extra = coefC(drawF(t), drawF(t))
				}
				m.add(methodWords(name, "IDENTICAL", extra...)...)
				xs := []float64{drawF(t), drawKey(t)}
				desc = append(desc, "identical")
				todo = append(todo, func(cd *calibrationReader.CalibrationData) {
					for _, x := range xs {
						if y, err := convert(t, cd, name, x); err != nil || y != x {
							t.Fatalf("IDENTICAL converts %v to %v (error %v)", x, y, err)
						}
					}
				})
			case 1:
				a, b := drawF(t), drawF(t)
				xs := []float64{drawF(t), drawKey(t), drawF(t)}
				if t.Chance(1, 5) {
					a = 0
				}
				if t.Chance(1, 5) {
					b = 0
				}
				extra := coefC(a, b)
				if t.Chance(1, 4) {
					extra = append(extra, coefC(drawF(t), drawF(t), drawF(t), drawF(t), drawF(t), drawF(t))...)
				}
				m.add(methodWords(name, "LINEAR", extra...)...)
				desc = append(desc, fmt.Sprintf("linear %v %v", a, b))
				t.Label("linear")
				todo = append(todo, func(cd *calibrationReader.CalibrationData) {
					for _, x := range xs {
						t.NonTrivial("linear", fl(a), fl(b), fl(x))
						y, err := convert(t, cd, name, x)
						if want := a*x + b; err != nil || math.Abs(y-want) > 1e-9*(math.Abs(a*x)+math.Abs(b)) {
							t.Fatalf("LINEAR %v %v converts %v to %v (error %v), want %v", a, b, x, y, err, want)
						}
					}
				})
			case 2:
				todo = append(todo, ratFunc(t, m, name, coefC, &desc))
			case 3:
				conv := t.Pick("LINEAR", "RAT_FUNC", "FORM", "TAB_VERB", "TAB_INTP", "TAB_NOINTP")
				extra := []string{}
				switch {
				case conv == "LINEAR" && t.Bool():
					extra = coefC(1, 2, 3, 4, 5, 6)
				case conv == "RAT_FUNC" && t.Bool():
					extra = coefC(2, 3)
				case conv == "FORM" && t.Bool():
					extra = []string{"/begin", "FORMULA", `"X1*2"`, "/end", "FORMULA"}
				case strings.HasPrefix(conv, "TAB") && t.Bool():
					extra = []string{"COMPU_TAB_REF", "no_such_table"}
				}
				m.add(methodWords(name, conv, extra...)...)
				desc = append(desc, conv+" without its data")
				t.Label("%s without its data", conv)
				x := float64(t.N(20))
				t.NonTrivial(conv, strings.Join(extra, " "), fl(x))
				todo = append(todo, func(cd *calibrationReader.CalibrationData) {
					if y, err := convert(t, cd, name, x); err == nil {
						t.Fatalf("%s %v converts %v to %v without error", conv, extra, x, y)
					}
				})
			}
		})
	}
	cd := around(t, m, func() *module {
		x := &module{}
		for i := 0; i < 4; i++ {
			x.add(methodWords(fmt.Sprintf("cm%d", i), "LINEAR", "COEFFS_LINEAR", "3", "1")...)
		}
		return x
	})
	t.Sample = strings.Join(desc, "; ")
	for _, f := range todo {
		f(cd)
	}
}

// ratFunc: INT = (aP^2+bP+c)/(dP^2+eP+f) with small integers, so that all intermediate values are exact.
func ratFunc(t *pbt.T, m *module, name string, coef func(...float64) []string, desc *[]string) func(cd *calibrationReader.CalibrationData) {
	k := func() float64 { return float64(t.N(21) - 10) }
	var a, b, c, d, e, f float64
	switch t.W(3, 2, 2, 3, 3) {
	case 4: // the usual case with any coefficients
		b, c, f = drawF(t), drawF(t), drawF(t)
		if t.Bool() {
			c = 0
		}
		if b == 0 || f == 0 {
			b, f = 1, 0.1
		}
		xs := []float64{drawKey(t), float64(t.N(65536)), -float64(t.N(3000))}
		m.add(methodWords(name, "RAT_FUNC", coef(0, b, c, 0, 0, f)...)...)
		*desc = append(*desc, fmt.Sprintf("RAT_FUNC 0 %v %v 0 0 %v", b, c, f))
		t.Label("rational: linear with any coefficients")
		return func(cd *calibrationReader.CalibrationData) {
			for _, x := range xs {
				t.NonTrivial("rat linear", fl(b), fl(c), fl(f), fl(x))
				got, err := convert(t, cd, name, x)
				if want := (f*x - c) / b; err != nil || math.Abs(got-want) > 1e-9*(math.Abs(f*x)+math.Abs(c))/math.Abs(b) {
					t.Fatalf("RAT_FUNC 0 %v %v 0 0 %v converts %v to %v (error %v), want %v", b, c, f, x, got, err, want)
				}
			}
		}
	case 0: // linear, the usual case
		b, c, f = k(), k(), k()
	case 1: // linear over linear
		b, c, e, f = k(), k(), k(), k()
	case 2: // parabola
		a, b, c, f = k(), k(), k(), k()
	case 3:
		a, b, c, d, e, f = k(), k(), k(), k(), k(), k()
	}
	scale := math.Ldexp(1, t.Pick2(0, -3, 4, -34, 30))
	a, b, c, d, e, f = a*scale, b*scale, c*scale, d*scale, e*scale, f*scale
	var y float64
	phys := math.NaN()
	for try := 0; try < 6; try++ { // an internal value that some physical value has
		p := float64(t.N(41)-20) / pickF(t, 1, 1, 2, 4)
		num, den := a*p*p+b*p+c, d*p*p+e*p+f
		if den == 0 {
			continue
		}
		if q := num / den; q*64 == math.Trunc(q*64) && math.Abs(q) < 1e6 {
			y, phys = q, p
			break
		}
	}
	if phys != phys || t.Chance(1, 5) {
		y, phys = float64(t.N(41)-20), math.NaN()
	}
	m.add(methodWords(name, "RAT_FUNC", coef(a, b, c, d, e, f)...)...)
	qa, qb, qc := a-d*y, b-e*y, c-f*y
	den := func(p float64) float64 { return d*p*p + e*p + f }
	var roots []float64
	doubtful := false
	disc := qb*qb - 4*qa*qc
	switch {
	case qa != 0 && disc >= 0:
		s := math.Sqrt(disc)
		roots = []float64{(-qb + s) / (2 * qa), (-qb - s) / (2 * qa)}
		if disc == 0 {
			roots = roots[:1]
		}
	case qa == 0 && qb != 0:
		roots = []float64{-qc / qb}
	}
	var valid []float64
	for _, r := range roots {
		if math.Abs(den(r)) < 1e-6*(math.Abs(d)*r*r+math.Abs(e*r)+math.Abs(f)) || den(r) == 0 {
			doubtful = doubtful || den(r) != 0 || r != math.Trunc(r*1024)/1024
			continue
		}
		valid = append(valid, r)
	}
	*desc = append(*desc, fmt.Sprintf("RAT_FUNC %v %v %v %v %v %v at %v", a, b, c, d, e, f, y))
	t.NonTrivial("rat", fl(a), fl(b), fl(c), fl(d), fl(e), fl(f), fl(y))
	t.Label("rational: %d solutions", len(valid))
	return func(cd *calibrationReader.CalibrationData) {
		got, err := convert(t, cd, name, y)
		if doubtful {
			return
		}
		what := fmt.Sprintf("RAT_FUNC %v %v %v %v %v %v", a, b, c, d, e, f)
		if len(valid) == 0 {
			if err == nil {
				t.Fatalf("%s: no physical value has the internal value %v, but it converts to %v without error", what, y, got)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: converting %v fails (%v), want %v", what, y, err, valid)
		}
		for _, r := range valid {
			if math.Abs(got-r) <= 1e-9*(1+math.Abs(r)) {
				return
			}
		}
		t.Fatalf("%s: %v converts to %v, want %v", what, y, got, valid)
	}
}

// ---- V06

func drawKey(t *pbt.T) float64 {
	if t.Chance(1, 4) {
		return drawF(t)
	}
	return float64(t.N(24) - 4)
}

func tables(t *pbt.T) {
	m := &module{}
	var todo []func(cd *calibrationReader.CalibrationData)
	var desc []string
	for i := 0; i < 3; i++ {
		i := i
		t.Group(func() {
			n := t.Pick2(1, 2, 3, 5, 9, 40, 0, 150)
			if n == 0 {
				t.Label("no rows")
			}
			hasDef := t.Bool()
			missing := t.Chance(1, 10)
			kind := t.N(3)
			tab := fmt.Sprintf("tab%d", i)
			ref := tab
			if missing {
				ref = "no_such_table"
			}
			desc = append(desc, fmt.Sprintf("%s with %d rows, default %v, missing %v", []string{"TAB_NOINTP", "TAB_VERB", "range"}[kind], n, hasDef, missing))
			t.Label("%s default:%v missing:%v", []string{"TAB_NOINTP", "TAB_VERB", "range"}[kind], hasDef, missing)
			var keys []float64
			probe := func() float64 {
				if len(keys) > 0 && t.Chance(3, 4) {
					k := keys[t.N(len(keys))]
					if t.Chance(1, 4) {
						k += pickF(t, 0.5, -0.5, 1, -1, 1e-6, -1e-6, 1e-11)
					}
					return k
				}
				return drawKey(t)
			}
			switch kind {
			case 0:
				rows := map[float64][]float64{}
				w := []string{"/begin", "COMPU_TAB", tab, `"t"`, "TAB_NOINTP", strconv.Itoa(n)}
				for j := 0; j < n; j++ {
					k, v := drawKey(t), drawF(t)
					w = append(w, fl(k), fl(v))
					rows[k] = append(rows[k], v)
					keys = append(keys, k)
				}
				def := drawF(t)
				if t.Chance(1, 6) {
					def = 0
				}
				if hasDef {
					w = append(w, "DEFAULT_VALUE_NUMERIC", fl(def))
				}
				m.add(append(w, "/end", "COMPU_TAB")...)
				cm := fmt.Sprintf("cm%d", i)
				m.add(methodWords(cm, "TAB_NOINTP", "COMPU_TAB_REF", ref)...)
				for q := 0; q < 5; q++ {
					x := probe()
					t.NonTrivial(fmt.Sprint(rows, hasDef, x))
					todo = append(todo, func(cd *calibrationReader.CalibrationData) {
						y, err := convert(t, cd, cm, x)
						hit := rows[x]
						switch {
						case missing || hit == nil && !hasDef:
							if err == nil {
								t.Fatalf("TAB_NOINTP (missing table: %v): %v has no row and no default, but converts to %v without error", missing, x, y)
							}
						case hit == nil:
							if err != nil || y != def {
								t.Fatalf("TAB_NOINTP: %v has no row and converts to %v (error %v) instead of the default %v", x, y, err, def)
							}
						default:
							for _, h := range hit {
								if err == nil && y == h {
									return
								}
							}
							t.Fatalf("TAB_NOINTP: %v converts to %v (error %v), the row says %v", x, y, err, hit)
						}
					})
				}
			case 1:
				rows := map[float64][]string{}
				w := []string{"/begin", "COMPU_VTAB", tab, `"t"`, "TAB_VERB", strconv.Itoa(n)}
				for j := 0; j < n; j++ {
					k, v := drawKey(t), fmt.Sprintf(`"text%d"`, j)
					if t.Chance(1, 12) {
						v = `""`
					}
					w = append(w, fl(k), v)
					rows[k] = append(rows[k], v)
					keys = append(keys, k)
				}
				if hasDef {
					w = append(w, "DEFAULT_VALUE", `"otherwise"`)
				}
				m.add(append(w, "/end", "COMPU_VTAB")...)
				for q := 0; q < 5; q++ {
					x := probe()
					t.NonTrivial(fmt.Sprint(rows, hasDef, x))
					todo = append(todo, func(cd *calibrationReader.CalibrationData) {
						var y string
						var err error
						tb := a2l.CompuVTab{Name: ref, NameSet: true}
						if !missing {
							tb = cd.A2l.Project.Modules[cd.ModuleIndex].CompuVTabs[ref]
						}
						t.Call("converting", func() { y, err = calibrationReader.VerifVerbal(cd, x, &tb) })
						t.Eval(1)
						verdict(t, "COMPU_VTAB", x, y, err, rows[x], hasDef, missing)
					})
				}
			case 2:
				type row struct {
					lo, hi float64
					out    string
				}
				var rows []row
				w := []string{"/begin", "COMPU_VTAB_RANGE", tab, `"t"`, strconv.Itoa(n)}
				style := t.N(3)
				cur := float64(t.N(10) - 5)
				for j := 0; j < n; j++ {
					r := row{cur, cur + pickF(t, 0, 1, 2, 0.5, 10), fmt.Sprintf(`"text%d"`, j)}
					switch style {
					case 0: // integer ranges: the next starts behind the last
						r.hi = math.Trunc(r.hi)
						if r.hi < r.lo {
							r.hi = r.lo
						}
						cur = r.hi + 1
					case 1: // contiguous ranges
						cur = r.hi
						if r.hi == r.lo {
							r.hi++
							cur = r.hi
						}
					case 2: // with gaps
						cur = r.hi + pickF(t, 1, 0.5, 3)
					}
					rows = append(rows, r)
					keys = append(keys, r.lo, r.hi, (r.lo+r.hi)/2)
				}
				for _, j := range t.Perm(n) {
					w = append(w, fl(rows[j].lo), fl(rows[j].hi), rows[j].out)
				}
				if hasDef {
					w = append(w, "DEFAULT_VALUE", `"otherwise"`)
				}
				m.add(append(w, "/end", "COMPU_VTAB_RANGE")...)
				for q := 0; q < 6; q++ {
					x := probe()
					var half, closed []string
					for _, r := range rows {
						if r.lo <= x && (x < r.hi || r.lo == r.hi && x == r.hi) {
							half = append(half, r.out)
						}
						if r.lo <= x && x <= r.hi {
							closed = append(closed, r.out)
						}
					}
					if half == nil {
						half = closed
					}
					t.NonTrivial(fmt.Sprint(rows, hasDef, x))
					todo = append(todo, func(cd *calibrationReader.CalibrationData) {
						var y string
						var err error
						tb := a2l.CompuVTabRange{Name: ref, NameSet: true}
						if !missing {
							tb = cd.A2l.Project.Modules[cd.ModuleIndex].CompuVTabRanges[ref]
						}
						t.Call("converting", func() { y, err = calibrationReader.VerifVerbalRange(cd, x, &tb) })
						t.Eval(1)
						verdict(t, fmt.Sprintf("COMPU_VTAB_RANGE %v", rows), x, y, err, half, hasDef, missing)
					})
				}
			}
		})
	}
	cd := around(t, m, func() *module {
		x := &module{}
		for i := 0; i < 3; i++ {
			tab := fmt.Sprintf("tab%d", i)
			x.add("/begin", "COMPU_TAB", tab, `""`, "TAB_NOINTP", "1", "1", "77", "DEFAULT_VALUE_NUMERIC", "78", "/end", "COMPU_TAB")
			x.add("/begin", "COMPU_VTAB", tab, `""`, "TAB_VERB", "1", "1", `"wrong"`, "DEFAULT_VALUE", `"wrong"`, "/end", "COMPU_VTAB")
			x.add("/begin", "COMPU_VTAB_RANGE", tab, `""`, "1", "1", "2", `"wrong"`, "DEFAULT_VALUE", `"wrong"`, "/end", "COMPU_VTAB_RANGE")
			x.add("/begin", "COMPU_TAB", "no_such_table", `""`, "TAB_NOINTP", "1", "1", "77", "DEFAULT_VALUE_NUMERIC", "78", "/end", "COMPU_TAB")
		}
		return x
	})
	t.Sample = strings.Join(desc, "; ")
	for _, f := range todo {
		f(cd)
	}
}

func verdict(t *pbt.T, what string, x float64, y string, err error, hit []string, hasDef, missing bool) {
	unq := func(s string) string { return strings.Trim(s, `"`) }
	switch {
	case missing:
		if err == nil {
			t.Fatalf("%s: the table does not exist, but %v converts to %s without error", what, x, y)
		}
	case hit == nil && !hasDef:
		if err == nil {
			t.Fatalf("%s: %v has no row and no default, but converts to %s without error", what, x, y)
		}
	case hit == nil:
		if err != nil || unq(y) != "otherwise" {
			t.Fatalf("%s: %v has no row and converts to %q (error %v) instead of the default", what, x, y, err)
		}
	default:
		for _, h := range hit {
			if err == nil && unq(y) == unq(h) {
				return
			}
		}
		t.Fatalf("%s: %v converts to %q (error %v), the row says %v", what, x, y, err, hit)
	}
}

// ---- V07

func texts(t *pbt.T) {
	o := orders[t.N(len(orders))]
	m := &module{}
	if o.text != "" || t.Bool() {
		m.add(modCommon(o, nil)...)
	}
	pool := []string{"SYS_A", "SYS_B", "sys_a", "V", "Ver 2", "x.y", "N_CYL", "7"}
	names := func(n int) map[string]string {
		out := map[string]string{}
		for i := 0; i < n; i++ {
			out[`"`+pool[t.N(len(pool))]+`"`] = gen.Str(t)
		}
		return out
	}
	par := func(c map[string]string) []string {
		w := []string{"/begin", "MOD_PAR", `"c"`}
		for _, n := range pool {
			if v, ok := c[`"`+n+`"`]; ok {
				w = append(w, "SYSTEM_CONSTANT", `"`+n+`"`, v)
			}
		}
		return append(w, "/end", "MOD_PAR")
	}
	cs := names(t.N(6))
	if len(cs) > 0 || t.Bool() {
		m.add(par(cs)...)
	}
	cd := around(t, m, func() *module {
		x := &module{}
		x.add(modCommon(orders[t.N(len(orders))], nil)...)
		x.add(par(names(6))...)
		return x
	})
	t.Label("byte order:%s", o.text)
	var sample []string
	for i := 0; i < 6; i++ {
		t.Group(func() {
			v := uint32(t.U64() >> uint(32+t.N(32)))
			txt := fmt.Sprintf(t.Pick("0x%X", "0x%x", "0x%08X", "0x%04x", "0x%06X"), v)
			bad := t.Chance(1, 4)
			if bad {
				txt = t.Pick("", "0x", "0xG1", "0x12 ", " 0x1", "xyz", "0x123456789", "0xFFFFFFFFF", "0x1.5", "0x-1", "-0x1", "0x12_34", "0x12h", "0x0x", "$12", "0x100000000")
			}
			sample = append(sample, txt)
			var got uint32
			var err error
			t.Call("converting the address text", func() { got, err = calibrationReader.VerifAddress(cd, txt) })
			t.Eval(1)
			t.NonTrivial(txt, o.text)
			if bad && err == nil {
				t.Fatalf("address text %q converts to %#x without error", txt, got)
			}
			if !bad && (err != nil || got != v) {
				t.Fatalf("address text %q converts to %#x (error %v) with byte order %q", txt, got, err, o.text)
			}
		})
	}
	for _, n := range append(append([]string{}, pool...), "nothing", "") {
		n = `"` + n + `"`
		var got string
		var err error
		t.Call("looking up a constant", func() { got, err = calibrationReader.VerifConstant(cd, n) })
		t.Eval(1)
		want, ok := cs[n]
		if ok {
			t.Label("known constant")
			t.NonTrivial("const", n, want)
		}
		if !ok && err == nil {
			t.Fatalf("constant %s is not defined in the selected module, but has the value %q", n, got)
		}
		if ok && (err != nil || got != want && got != strings.TrimSuffix(strings.TrimPrefix(want, `"`), `"`)) {
			t.Fatalf("constant %s is written as %q, the lookup returns %q (error %v)", n, want, got, err)
		}
	}
	t.Sample = fmt.Sprintf("byte order %q, addresses %v, constants %v", o.text, sample, cs)
}

func init() {
	pbt.Register(&pbt.Prop{ID: "V02", Quick: 5000, Thorough: 300000, Rule: "every distinct combination of type, byte order and bytes", Oracle: "independent decoding of the bit pattern", Run: decode})
	pbt.Register(&pbt.Prop{ID: "V03", Quick: 4000, Thorough: 200000, Rule: "the address is not aligned yet", Oracle: "smallest multiple of the effective border not below the address",
		Assume: []string{"alignment borders are at least 1", "no wrap-around at the end of the address space"}, Run: align})
	pbt.Register(&pbt.Prop{ID: "V04", Quick: 6000, Thorough: 300000, Rule: "at least two stored values", Oracle: "reference layout of the components into an image filled with noise",
		Assume: []string{"direct addressing, INDEX_INCR, no AXIS_RESCALE_X; FNC_VALUES only as the last component and not judged", "counts precede their axis; scalar components hold integral values below 2^53", "the module's byte order applies"}, Run: readValues})
	pbt.Register(&pbt.Prop{ID: "V05", Quick: 5000, Thorough: 300000, Rule: "every linear, rational or incomplete method", Oracle: "solutions of the defining equation; exact small-integer arithmetic decides solvability", Run: formula})
	pbt.Register(&pbt.Prop{ID: "V06", Quick: 5000, Thorough: 300000, Rule: "every distinct table and probe", Oracle: "row, default or error according to the written table",
		Assume: []string{"among several rows with one key any is accepted; at the border of two adjoining ranges the one that starts there"}, Run: tables})
	pbt.Register(&pbt.Prop{ID: "V07", Quick: 4000, Thorough: 200000, Rule: "every address text and known constant", Oracle: "the number spelled by the text; the constants written in the selected module",
		Assume: []string{"address texts are hexadecimal with the prefix 0x"}, Run: texts})
}
