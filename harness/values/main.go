// Command values decides the properties of value reading and conversion, which are observed through the hooks (build tag verif).
package main

import (
	"math"
	"reflect"
	"strings"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

func main() { pbt.Main() }

// dtype is a data type with its written name, size and alignment class.
type dtype struct {
	name   string
	e      a2l.DataTypeEnum
	size   int
	signed bool
	float  bool
	align  string
	def    uint32
}

var dtypes = []dtype{
	{"UBYTE", a2l.UBYTE, 1, false, false, "BYTE", 1},
	{"SBYTE", a2l.SBYTE, 1, true, false, "BYTE", 1},
	{"UWORD", a2l.UWORD, 2, false, false, "WORD", 2},
	{"SWORD", a2l.SWORD, 2, true, false, "WORD", 2},
	{"ULONG", a2l.ULONG, 4, false, false, "LONG", 4},
	{"SLONG", a2l.SLONG, 4, true, false, "LONG", 4},
	{"A_UINT64", a2l.AUint64, 8, false, false, "INT64", 8},
	{"A_INT64", a2l.AInt64, 8, true, false, "INT64", 8},
	{"FLOAT16_IEEE", a2l.Float16Ieee, 2, true, true, "FLOAT16_IEEE", 2},
	{"FLOAT32_IEEE", a2l.Float32Ieee, 4, true, true, "FLOAT32_IEEE", 4},
	{"FLOAT64_IEEE", a2l.Float64Ieee, 8, true, true, "FLOAT64_IEEE", 8},
}

var alignClasses = []string{"BYTE", "WORD", "LONG", "INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"}

// bits interprets the lowest bits of u as a value of the data type.
func (d *dtype) bits(u uint64) float64 {
	switch {
	case d.float && d.size == 2:
		s, e, m := u>>15&1, int(u>>10&31), float64(u&1023)
		var f float64
		switch e {
		case 0:
			f = math.Ldexp(m, -24)
		case 31:
			f = math.Inf(1)
			if m != 0 {
				f = math.NaN()
			}
		default:
			f = math.Ldexp(1024+m, e-25)
		}
		if s == 1 {
			f = -f
		}
		return f
	case d.float && d.size == 4:
		return float64(math.Float32frombits(uint32(u)))
	case d.float:
		return math.Float64frombits(u)
	case d.signed:
		sh := uint(64 - 8*d.size)
		return float64(int64(u<<sh) >> sh)
	}
	if d.size < 8 {
		u &= 1<<uint(8*d.size) - 1
	}
	return float64(u)
}

// raw spells the lowest bytes of u.
func (d *dtype) raw(u uint64, big bool) []byte {
	b := make([]byte, d.size)
	for i := range b {
		k := i
		if big {
			k = d.size - 1 - i
		}
		b[i] = byte(u >> uint(8*k))
	}
	return b
}

// enc returns the bits of a small integer.
func (d *dtype) enc(v int64) uint64 {
	switch {
	case d.float && d.size == 2:
		if v == 0 {
			return 0
		}
		var s uint64
		if v < 0 {
			s, v = 1<<15, -v
		}
		e := 0
		for v>>uint(e+1) != 0 {
			e++
		}
		return s | uint64(e+15)<<10 | uint64(v)<<uint(10-e)&1023
	case d.float && d.size == 4:
		return uint64(math.Float32bits(float32(v)))
	case d.float:
		return math.Float64bits(float64(v))
	}
	return uint64(v)
}

func same(a, b float64) bool { return a == b || a != a && b != b }

// order is a written byte order.
type order struct {
	text string // "" if none is written
	big  bool
	ok   bool
}

var orders = []order{{"", true, true}, {"BIG_ENDIAN", true, true}, {"MSB_FIRST", true, true}, {"LITTLE_ENDIAN", false, true}, {"MSB_LAST", false, true},
	{"MSB_FIRST_MSW_LAST", false, false}, {"MSB_LAST_MSW_FIRST", false, false}}

// module text; the selected module is surrounded by others.
type module struct{ words []string }

func (m *module) add(w ...string) { m.words = append(m.words, w...) }

func build(t *pbt.T, mods ...*module) *calibrationReader.CalibrationData {
	var sb strings.Builder
	sb.WriteString("/begin PROJECT p \"\"\n")
	for i, m := range mods {
		sb.WriteString("/begin MODULE m" + string(rune('0'+i)) + " \"\"\n")
		sb.WriteString(strings.ReplaceAll(strings.Join(m.words, " "), " /", "\n/"))
		sb.WriteString("\n/end MODULE\n")
	}
	sb.WriteString("/end PROJECT\n")
	p := t.File("in.a2l", []byte(sb.String()))
	var a a2l.A2L
	var err error
	t.Call("parsing the A2L file", func() { a, err = a2l.ParseFromFile(p) })
	if err != nil {
		t.Fatalf("a well-formed A2L file is rejected: %v", err)
	}
	if len(a.Project.Modules) != len(mods) {
		t.Fatalf("%d modules parsed, %d written", len(a.Project.Modules), len(mods))
	}
	return &calibrationReader.CalibrationData{A2l: a, Hex: map[uint32]byte{}}
}

// around places m among decoy modules and selects it.
func around(t *pbt.T, m *module, decoy func() *module) *calibrationReader.CalibrationData {
	n := t.Pick2(0, 0, 1, 2)
	at := t.N(n + 1)
	var mods []*module
	for i := 0; i <= n; i++ {
		if i == at {
			mods = append(mods, m)
		} else {
			mods = append(mods, decoy())
		}
	}
	t.Label("modules:%d selected:%d", n+1, at)
	cd := build(t, mods...)
	cd.ModuleIndex = uint8(at)
	return cd
}

func pickF(t *pbt.T, xs ...float64) float64 { return xs[t.N(len(xs))] }

// isType tells whether x is a value of the Go type that corresponds to the data type.
func (d *dtype) isType(x interface{}) bool {
	if x == nil {
		return false
	}
	r := reflect.TypeOf(x)
	if int(r.Size()) != d.size {
		return false
	}
	switch r.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return d.signed && !d.float
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return !d.signed || d.float && d.size == 2 // half floats are kept in a type of their own
	case reflect.Float32, reflect.Float64:
		return d.float
	}
	return false
}
