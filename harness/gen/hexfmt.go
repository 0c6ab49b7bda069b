// Package gen holds the generators and reference models shared by the properties.
package gen

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// Rec is one record of an image file; Kind is 'D' for data.
type Rec struct {
	Line string // without line end
	Data bool
	Type int
}

// Image is a generated image file with its reference content.
type Image struct {
	Recs     []Rec
	Want     map[uint32]byte
	EOL      string
	FinalEOL bool
	SUB      bool        // DOS end-of-text mark behind the last record
	Blank    map[int]int // blank lines before record i
	Banks    int
	Crossing bool
	Format   string
	Damaged  map[int]bool // records Damage must leave alone
}

// Text renders the file.
func (im *Image) Text() []byte {
	var sb strings.Builder
	for i, r := range im.Recs {
		for k := 0; k < im.Blank[i]; k++ {
			sb.WriteString(im.EOL)
		}
		sb.WriteString(r.Line)
		if i+1 < len(im.Recs) || im.FinalEOL {
			sb.WriteString(im.EOL)
		}
	}
	if im.SUB && im.FinalEOL {
		sb.WriteString("\x1a")
	}
	return []byte(sb.String())
}

// HexLine builds an Intel-HEX record with a correct checksum.
func HexLine(typ int, addr uint16, data []byte, lower bool) string {
	return HexLineCount(len(data), typ, addr, data, lower)
}

// HexLineCount is HexLine with an explicit byte count field.
func HexLineCount(count, typ int, addr uint16, data []byte, lower bool) string {
	sum := byte(count) + byte(addr>>8) + byte(addr) + byte(typ)
	for _, d := range data {
		sum += d
	}
	f := ":%02X%04X%02X%X%02X"
	if lower {
		f = ":%02x%04x%02x%x%02x"
	}
	return fmt.Sprintf(f, byte(count), addr, typ, data, byte(-sum))
}

// SrecLine builds an S-record with a correct checksum. alen is the number of address bytes.
func SrecLine(typ int, alen int, addr uint32, data []byte, lower bool) string {
	return SrecLineCount(alen+len(data)+1, typ, alen, addr, data, lower)
}

// SrecLineCount is SrecLine with an explicit byte count.
func SrecLineCount(count, typ, alen int, addr uint32, data []byte, lower bool) string {
	sum := byte(count)
	ab := []byte{byte(addr >> 24), byte(addr >> 16), byte(addr >> 8), byte(addr)}[4-alen:]
	for _, d := range ab {
		sum += d
	}
	for _, d := range data {
		sum += d
	}
	f := "S%d%02X%X%X%02X"
	if lower {
		f = "S%d%02x%x%x%02x"
	}
	return fmt.Sprintf(f, typ, byte(count), ab, data, ^sum)
}

func recLen(t *pbt.T, max int) int {
	n := 0
	switch t.W(3, 3, 2, 1, 1) {
	case 0:
		n = t.R(1, 16)
	case 1:
		n = 16
	case 2:
		n = 32
	case 3:
		n = t.N(max + 1)
	case 4:
		n = t.Pick2(1, 0, max)
	}
	if n > max {
		n = max
	}
	return n
}

func count(t *pbt.T, big int) int {
	switch t.W(400, 400, 300, 100, 20, 2) {
	case 5:
		if t.Bool() { // more records than 16 bits count
			return t.R(165*big, 210*big)
		}
		return t.R(20*big, 60*big)
	case 0:
		return t.R(1, 6)
	case 1:
		return t.R(1, 20)
	case 2:
		return t.R(1, 60)
	case 3:
		return t.R(1, big)
	}
	return t.R(1, 10*big)
}

func layout(t *pbt.T, im *Image) {
	if t.Chance(1, 8) { // upper and lower case digits within one record
		s := t.U64() | 1
		for i := range im.Recs {
			l := []byte(im.Recs[i].Line)
			for j := 1; j < len(l); j++ {
				s = s*6364136223846793005 + 1442695040888963407
				if s>>63 == 0 {
					l[j] = strings.ToLower(string(l[j : j+1]))[0]
				} else {
					l[j] = strings.ToUpper(string(l[j : j+1]))[0]
				}
			}
			im.Recs[i].Line = string(l)
		}
	}
	im.EOL = "\n"
	if t.Bool() {
		im.EOL = "\r\n"
	}
	im.FinalEOL = !t.Chance(1, 4)
	im.SUB = t.Chance(1, 20)
	im.Blank = map[int]int{}
	if t.Chance(1, 6) {
		for k := t.R(1, 4); k > 0; k-- {
			im.Blank[t.N(len(im.Recs)+1)] += t.R(1, 3)
		}
	}
}

func put(want map[uint32]byte, addr uint32, data []byte) bool {
	for i := range data {
		if _, dup := want[addr+uint32(i)]; dup {
			return false
		}
	}
	for i, d := range data {
		want[addr+uint32(i)] = d
	}
	return true
}

// IHex generates a well-formed I32HEX file.
func IHex(t *pbt.T) *Image {
	im := &Image{Want: map[uint32]byte{}, Format: "hex"}
	n := count(t, 400)
	bank := uint32(0)
	style := t.W(3, 3, 2) // mixed, contiguous, many banks
	cases := t.W(4, 2, 1) // upper, lower, per record
	low := func() bool { return cases == 1 || (cases == 2 && t.Bool()) }
	glued := t.Chance(1, 15) // several files in one: end-of-file records in between
	addr := uint32(0)
	if style == 1 {
		addr = uint32(t.N(0x10000))
	}
	newBank := func() {
		switch t.W(3, 2, 2, 1, 2) {
		case 0:
			bank = (bank + 1) & 0xFFFF
		case 1:
			bank = 0
		case 2:
			bank = uint32(t.N(0x10000))
		case 3:
			bank = 0xFFFF
		case 4:
			bank = uint32(t.N(4))
		}
		im.Recs = append(im.Recs, Rec{Line: HexLine(4, 0, []byte{byte(bank >> 8), byte(bank)}, low()), Type: 4})
		im.Banks++
	}
	if t.Chance(3, 4) {
		newBank()
	}
	for i := 0; i < n; i++ {
		t.Group(func() {
			pBank := 12
			if style == 2 {
				pBank = 3
			}
			if style != 1 && t.Chance(1, pBank) {
				newBank()
			}
			if t.Chance(1, 40) { // start addresses do not move the data
				v, typ := uint32(t.U64()), t.Pick2(5, 3)
				im.Recs = append(im.Recs, Rec{Line: HexLine(typ, 0, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, low()), Type: typ})
			}
			if glued && t.Chance(1, 12) {
				im.Recs = append(im.Recs, Rec{Line: HexLine(1, 0, nil, low()), Type: 1})
			}
			ln := recLen(t, 255)
			var data []byte
			if style == 1 {
				if addr == 0x10000 { // next bank of a contiguous file
					bank = (bank + 1) & 0xFFFF
					addr = 0
					im.Recs = append(im.Recs, Rec{Line: HexLine(4, 0, []byte{byte(bank >> 8), byte(bank)}, low()), Type: 4})
					im.Banks++
				}
				if addr+uint32(ln) > 0x10000 {
					ln = int(0x10000 - addr)
				}
				data = t.Bytes(ln)
				if put(im.Want, bank<<16|addr, data) {
					im.Recs = append(im.Recs, Rec{Line: HexLine(0, uint16(addr), data, low()), Data: true})
				}
				addr += uint32(ln)
				return
			}
			a := uint32(t.N(0x10000))
			if t.Chance(1, 3) {
				a = uint32(t.N(64)) * 16
			}
			if t.Chance(1, 25) {
				a = uint32(0x10000 - t.R(1, 20))
			}
			full := bank<<16 + a
			if uint64(full)+uint64(ln) > 1<<32 {
				ln = int(uint64(1)<<32 - uint64(full))
			}
			if a+uint32(ln) > 0x10000 {
				im.Crossing = true
			}
			data = t.Bytes(ln)
			if put(im.Want, full, data) {
				im.Recs = append(im.Recs, Rec{Line: HexLine(0, uint16(a), data, low()), Data: true})
			}
		})
	}
	if t.Chance(1, 12) {
		v := uint32(t.U64())
		im.Recs = append(im.Recs, Rec{Line: HexLine(3, 0, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, low()), Type: 3})
	}
	if t.Chance(1, 8) {
		v := uint32(t.U64())
		im.Recs = append(im.Recs, Rec{Line: HexLine(5, 0, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, low()), Type: 5})
	}
	if !t.Chance(1, 10) {
		a := 0
		if t.Chance(1, 12) { // with the start address of old tools
			a = t.N(0x10000)
		}
		im.Recs = append(im.Recs, Rec{Line: HexLine(1, uint16(a), nil, low()), Type: 1})
	}
	layout(t, im)
	return im
}

// SRec generates a well-formed S-record file whose data records are S3.
func SRec(t *pbt.T) *Image {
	im := &Image{Want: map[uint32]byte{}, Format: "s19"}
	n := count(t, 400)
	cases := t.W(4, 2, 1)
	low := func() bool { return cases == 1 || (cases == 2 && t.Bool()) }
	if t.Chance(2, 3) {
		hl := t.N(20)
		if t.Chance(1, 10) {
			hl = t.R(20, 252)
		}
		im.Recs = append(im.Recs, Rec{Line: SrecLine(0, 2, 0, t.Bytes(hl), low()), Type: 0})
	}
	glued := t.Chance(1, 8) // dataless records in between
	contiguous := t.Bool()
	addr := uint32(t.U64())
	if t.Chance(1, 3) {
		addr = uint32(t.N(4)) * 0x10000
	}
	nd := 0
	for i := 0; i < n; i++ {
		t.Group(func() {
			if glued && t.Chance(1, 10) {
				switch t.W(2, 2, 1, 1, 1, 1) {
				case 0:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(0, 2, uint32(t.N(0x10000)), t.Bytes(t.N(40)), low()), Type: 0})
				case 1:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(5, 2, uint32(nd), nil, low()), Type: 5})
				case 2:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(6, 3, uint32(nd), nil, low()), Type: 6})
				case 3:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(7, 4, uint32(t.U64()), nil, low()), Type: 7})
				case 4:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(8, 3, uint32(t.U64()), nil, low()), Type: 8})
				case 5:
					im.Recs = append(im.Recs, Rec{Line: SrecLine(9, 2, uint32(t.U64()), nil, low()), Type: 9})
				}
			}
			ln := recLen(t, 250)
			if !contiguous {
				switch t.W(2, 2, 1) {
				case 0:
					addr = uint32(t.U64())
				case 1:
					addr = uint32(t.N(0x4000))
				case 2:
					addr = 0xFFFFFFFF - uint32(t.N(40))
				}
			}
			if uint64(addr)+uint64(ln) > 1<<32 {
				ln = int(uint64(1)<<32 - uint64(addr))
			}
			data := t.Bytes(ln)
			if put(im.Want, addr, data) {
				im.Recs = append(im.Recs, Rec{Line: SrecLine(3, 4, addr, data, low()), Data: true, Type: 3})
				nd++
			}
			addr += uint32(ln)
		})
	}
	if t.Chance(1, 2) {
		im.Recs = append(im.Recs, Rec{Line: SrecLine(5, 2, uint32(nd), nil, low()), Type: 5})
	} else if t.Chance(1, 4) {
		im.Recs = append(im.Recs, Rec{Line: SrecLine(6, 3, uint32(nd), nil, low()), Type: 6})
	}
	if t.Chance(3, 4) {
		im.Recs = append(im.Recs, Rec{Line: SrecLine(7, 4, uint32(t.U64()), nil, low()), Type: 7})
	} else if t.Chance(1, 3) {
		typ := t.Pick2(8, 9)
		im.Recs = append(im.Recs, Rec{Line: SrecLine(typ, 11-typ, uint32(t.U64()), nil, low()), Type: typ})
	}
	layout(t, im)
	return im
}

// Damage applies one damage that a loader has to notice; the returned name is "" if none applied.
// where receives the index of the damaged record.
func Damage(t *pbt.T, im *Image) (string, int) {
	if len(im.Recs) == 0 {
		return "", 0
	}
	isHex := im.Format == "hex"
	var cand []int
	for i, r := range im.Recs {
		// header, count and termination records of S-record files carry no image data
		if (isHex || r.Data) && !im.Damaged[i] && len(r.Line) >= 11 {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return "", 0
	}
	w := []int{4, 3, 2, 3, 2, 3, 2, 3, 2}
	if im.Damaged != nil { // a second damage: the number of records stays
		w = w[:7]
	}
	k := cand[t.N(len(cand))]
	l := []byte(im.Recs[k].Line)
	first := 1
	if !isHex {
		first = 2
	}
	hexd := "0123456789ABCDEF"
	set := func(b []byte) { im.Recs[k].Line = string(b) }
	switch t.W(w...) {
	case 0: // one wrong digit anywhere after the start code / type
		p := first + t.N(len(l)-first)
		old := hexVal(l[p])
		nv := (old + 1 + t.N(15)) % 16
		c := hexd[nv]
		if strings.ToLower(string(l)) == string(l) {
			c = strings.ToLower(hexd)[nv]
		}
		l[p] = c
		set(l)
		return "wrong-digit", k
	case 1: // wrong checksum
		v, _ := strconv.ParseUint(string(l[len(l)-2:]), 16, 8)
		v = (v + 1 + uint64(t.N(255))) % 256
		copy(l[len(l)-2:], fmt.Sprintf("%02X", v))
		set(l)
		return "wrong-checksum", k
	case 2: // character that is no hex digit
		p := first + t.N(len(l)-first)
		l[p] = "GgZ?*-.:xS@`"[t.N(12)]
		set(l)
		return "non-hex", k
	case 3: // truncated line
		c := 1 + t.N(len(l)-1)
		set(l[:len(l)-c])
		return "truncated", k
	case 4: // start code missing or wrong
		if t.Bool() {
			set(l[1:])
			return "no-start-code", k
		}
		l[0] = "X;s: 0"[t.N(6)]
		if l[0] == ':' && isHex {
			l[0] = ';'
		}
		if l[0] == ' ' && len(l) > 1 { // leading blank instead of the start code
			l[0] = '#'
		}
		set(l)
		return "bad-start-code", k
	case 5: // byte count disagrees with the line while the checksum is right
		d := im.Recs[k]
		n := (len(d.Line) - 11) / 2
		if isHex {
			a, _ := strconv.ParseUint(d.Line[3:7], 16, 16)
			data := unhex(d.Line[9 : len(d.Line)-2])
			c := (n + 1 + t.N(254)) % 256
			im.Recs[k].Line = HexLineCount(c, d.Type, uint16(a), data, false)
		} else {
			a, _ := strconv.ParseUint(d.Line[4:12], 16, 32)
			data := unhex(d.Line[12 : len(d.Line)-2])
			c := (len(data) + 5 + 1 + t.N(254)) % 256
			im.Recs[k].Line = SrecLineCount(c, 3, 4, uint32(a), data, false)
		}
		return "byte-count", k
	case 6: // one character lost or doubled
		p := first + t.N(len(l)-first)
		if t.Bool() {
			set(append(append([]byte(nil), l[:p]...), l[p+1:]...))
			return "lost-char", k
		}
		set(append(append(append([]byte(nil), l[:p]...), l[p]), l[p:]...))
		return "doubled-char", k
	case 7: // colliding record
		var ds []int
		for i, r := range im.Recs {
			if r.Data && len(r.Line) > 11+2 && (isHex || len(r.Line) > 14) {
				ds = append(ds, i)
			}
		}
		if len(ds) == 0 {
			return "", 0
		}
		// repeat a data record, or define one of its bytes again, right behind it (same bank) or,
		// for S-records, anywhere
		i := ds[t.N(len(ds))]
		r := im.Recs[i]
		if t.Bool() { // not the whole record again but some bytes of it, with the same or another value
			var a uint64
			var old []byte
			if isHex {
				a, _ = strconv.ParseUint(r.Line[3:7], 16, 16)
				old = unhex(r.Line[9 : len(r.Line)-2])
			} else {
				a, _ = strconv.ParseUint(r.Line[4:12], 16, 32)
				old = unhex(r.Line[12 : len(r.Line)-2])
			}
			off := t.N(len(old))
			if isHex && a+uint64(off) > 0xFFFF {
				off = 0
			}
			data := t.Bytes(1)
			if t.Bool() {
				data = []byte{old[off]}
			}
			a += uint64(off)
			if k := uint64(t.N(20)); t.Chance(1, 3) && a >= k { // the last of several bytes
				a -= k
				data = append(t.Bytes(int(k)), data...)
			}
			if isHex {
				r.Line = HexLine(0, uint16(a), data, false)
			} else {
				r.Line = SrecLine(3, 4, uint32(a), data, false)
			}
		}
		if isHex && t.Chance(1, 3) { // anywhere, with the bank selected and restored
			bank := func(end int) string {
				for j := end - 1; j >= 0; j-- {
					if im.Recs[j].Type == 4 {
						return im.Recs[j].Line
					}
				}
				return HexLine(4, 0, []byte{0, 0}, false)
			}
			end := len(im.Recs)
			if im.Recs[end-1].Type == 1 {
				end--
			}
			at := t.N(end + 1)
			ins := []Rec{{Line: bank(i), Type: 4}, r, {Line: bank(at), Type: 4}}
			im.Recs = append(im.Recs[:at:at], append(ins, im.Recs[at:]...)...)
			return "collision", at + 1
		}
		at := i + 1
		if isHex {
			for at < len(im.Recs) && im.Recs[at].Type != 4 && im.Recs[at].Type != 1 && t.Bool() {
				at++
			}
		} else {
			for at < len(im.Recs) && im.Recs[at].Data && t.Chance(3, 4) {
				at++
			}
		}
		im.Recs = append(im.Recs[:at], append([]Rec{r}, im.Recs[at:]...)...)
		return "collision", at
	case 8: // data in a record type that cannot be honoured
		if isHex {
			// an extended segment address moves the data that follow; unknown types carry unknown meaning
			r := Rec{Type: 2, Line: HexLine(2, 0, []byte{byte(t.R(1, 255)), byte(t.N(256))}, false)}
			switch t.W(3, 3, 3, 3) {
			case 1:
				r.Type = t.Pick2(6, 7, 8, 9, 10, 16, 0x40, 0x80, 0xFF)
				r.Line = HexLine(r.Type, uint16(t.N(0x10000)), t.Bytes(t.N(20)), false)
			case 2:
				r.Type = t.R(6, 255)
				r.Line = HexLine(r.Type, uint16(t.N(0x10000)), t.Bytes(t.N(20)), false)
			case 3: // an extended linear address of another length than two bytes
				r.Type = 4
				r.Line = HexLine(4, 0, t.Bytes(t.Pick2(1, 0, 3, 4)), false)
			}
			// in front of a data record
			var ds []int
			for i, r := range im.Recs {
				if r.Data {
					ds = append(ds, i)
				}
			}
			if len(ds) == 0 {
				return "", 0
			}
			at := ds[t.N(len(ds))]
			im.Recs = append(im.Recs[:at], append([]Rec{r}, im.Recs[at:]...)...)
			return "unsupported-type", at
		}
		if t.Chance(1, 3) { // a type no format knows, over an otherwise right line
			l[1] = "4ABDFZ?: s-"[t.N(11)]
			set(l)
			return "unknown-type", k
		}
		typ := 1 + t.N(2)
		im.Recs[k].Line = SrecLine(typ, typ+1, uint32(t.N(0x10000)), append(t.Bytes(t.R(1, 20)), 1), false)
		return "unsupported-type", k
	}
	return "", 0
}

func hexVal(c byte) int {
	v, err := strconv.ParseUint(string([]byte{c}), 16, 8)
	if err != nil {
		return 0
	}
	return int(v)
}

func unhex(s string) []byte {
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		v, _ := strconv.ParseUint(s[i:i+2], 16, 8)
		b = append(b, byte(v))
	}
	return b
}

// DiffImage compares images and describes the first difference ("" if equal).
func DiffImage(got, want map[uint32]byte) string {
	var as []uint32
	for a, v := range want {
		g, ok := got[a]
		if !ok || g != v {
			as = append(as, a)
		}
	}
	if len(as) > 0 {
		sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
		g, ok := got[as[0]]
		if !ok {
			return fmt.Sprintf("%d of %d bytes missing or wrong; first: address %08X (want %02X) is missing; %d bytes loaded", len(as), len(want), as[0], want[as[0]], len(got))
		}
		return fmt.Sprintf("%d of %d bytes missing or wrong; first: address %08X is %02X, want %02X", len(as), len(want), as[0], g, want[as[0]])
	}
	if len(got) != len(want) {
		for a, v := range got {
			if _, ok := want[a]; !ok {
				return fmt.Sprintf("%d bytes loaded, %d in the file; e.g. address %08X=%02X is not in the file", len(got), len(want), a, v)
			}
		}
	}
	return ""
}
