package gen

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// Growth is a family of files: the text before, a part that is repeated, the text behind.
type Growth struct {
	What           string
	Before, Behind string
	Max            int    // largest number of repetitions, 0 if there is none
	Unit           string // "#" is replaced by the number of the repetition
}

// File writes the member with n repetitions.
func (g *Growth) File(n int) []byte {
	var sb strings.Builder
	sb.Grow(len(g.Before) + len(g.Behind) + n*(len(g.Unit)+8))
	sb.WriteString(g.Before)
	if parts := strings.Split(g.Unit, "#"); len(parts) == 1 {
		for i := 0; i < n; i++ {
			sb.WriteString(g.Unit)
		}
	} else {
		for i := 0; i < n; i++ {
			no := strconv.Itoa(i)
			for j, p := range parts {
				if j > 0 {
					sb.WriteString(no)
				}
				sb.WriteString(p)
			}
		}
	}
	sb.WriteString(g.Behind)
	return []byte(sb.String())
}

const mark = "\x00"

// Spot is a place where a file can grow.
type Spot struct {
	What string
	Path *Path
	Hex  int // kind of image file
}

var spots []Spot

// Spots lists the places where files can grow: every list, table, raw text and repeatable keyword of the grammar, every kind
// of object, the texts, comments, white space and modules around them, and the records of image files.
func Spots() []Spot {
	if spots != nil {
		return spots
	}
	seen := map[*Key]bool{}
	for _, p := range Paths("") {
		k := p.Last()
		if !seen[k] {
			seen[k] = true
			if k.List != nil {
				spots = append(spots, Spot{What: "list", Path: p})
			}
			if k.Rows != nil {
				spots = append(spots, Spot{What: "rows", Path: p})
			}
			if k.Text != "" || k.Raw != "" {
				spots = append(spots, Spot{What: "words", Path: p})
			}
		}
		if k.Rep && len(p.Keys) > 0 {
			spots = append(spots, Spot{What: "repetitions", Path: p})
		}
		if len(p.Keys) == 0 && p.Kind != nil && p.Kind.ID != "" {
			spots = append(spots, Spot{What: "objects", Path: p})
		}
	}
	for _, s := range []string{"texts", "texts", "texts", "comments", "comments", "comment", "comment", "white space", "stray", "stray", "stray", "modules", "modules"} {
		spots = append(spots, Spot{What: s})
	}
	for i := 0; i < 5; i++ {
		for j := 0; j < 2; j++ {
			spots = append(spots, Spot{What: "ihex", Hex: i}, Spot{What: "srec", Hex: i})
		}
	}
	return spots
}

// A2LGrowth draws a family of A2L files that grow at the spot.
func A2LGrowth(t *pbt.T, spot Spot) *Growth {
	g := &Growth{}
	mods := t.Pick2(1, 1, 1, 2)
	d := GenDoc(t, DocSpec{Kinds: AllKinds(""), MaxObjs: t.Pick2(1, 4, 12), Mods: mods, Singles: 1, Meta: t.Bool(), Small: t.Bool()})
	sep := t.Pick(" ", "\n", "\r\n", "\n\t", "  ")
	join := func(w []string) string {
		for i := range w {
			w[i] = strings.ReplaceAll(w[i], "#", "_")
		}
		return strings.Join(w, sep)
	}
	unit := ""
	repeat := func(n *Node) string {
		short := t.Chance(3, 4)
		if short { // many small ones
			id := ""
			if len(n.Vals) > 0 && len(n.Key.Params) > 0 && n.Key.Params[0].Kind == KID {
				id = "o"
			}
			n = GenNode(t, n.Key, &Sizes{}, id)
		}
		w := n.Words(nil)
		for i := range w {
			if short && len(w[i]) > 12 && w[i][0] == '"' {
				w[i] = `"t"`
			}
			w[i] = strings.ReplaceAll(w[i], "#", "_")
		}
		if len(n.Vals) > 0 && len(n.Key.Params) > 0 && t.Chance(7, 8) {
			at := 1
			if n.Key.Block {
				at = 2
			}
			switch n.Key.Params[0].Kind {
			case KID, KStr:
				if x := w[at]; strings.HasSuffix(x, `"`) {
					w[at] = strings.TrimSuffix(x, `"`) + "#\""
				} else {
					w[at] += "#"
				}
			}
		}
		return strings.Join(w, sep) + sep
	}
	g.What = spot.What
	if p := spot.Path; p != nil {
		g.What += " of " + p.String()
		n := ForcePath(t, d, p)
		switch spot.What {
		case "list":
			n.List = append(n.List, mark)
			unit = strings.ReplaceAll(token(t, n.Key.List), "#", "_")
			if n.Key.List.Kind == KID {
				unit += "#"
			}
			unit += sep
		case "rows":
			n.Rows = append(n.Rows, []string{mark})
			var w []string
			for i := range n.Key.Rows {
				w = append(w, token(t, &n.Key.Rows[i]))
			}
			unit = join(w) + sep
		case "words":
			n.Toks = append(n.Toks, mark)
			unit = t.Pick("word ", "w\n", "{ char[2]; };\n", "\"text\" ", "1 ", "0x1F 0x20\n", "/begin X /end X\n")
		case "repetitions":
			unit = repeat(n)
			replaced := false
			var walk func(m *Node)
			walk = func(m *Node) {
				for i, c := range m.Kids {
					if c == n && !replaced {
						m.Kids[i] = &Node{Key: &Key{Kw: mark}}
						replaced = true
						return
					}
					walk(c)
				}
			}
			for _, m := range d.Mods {
				for _, o := range m.Objs {
					walk(o.Node)
				}
			}
			if !replaced && d.Header != nil {
				walk(d.Header)
			}
		case "objects":
			unit = repeat(n)
			for _, m := range d.Mods {
				for i, o := range m.Objs {
					if o.Node == n {
						m.Objs[i] = &Obj{Kind: o.Kind, Node: &Node{Key: &Key{Kw: mark}}}
					}
				}
			}
		}
	}
	if spot.What == "modules" {
		m := d.Mods[t.N(len(d.Mods))]
		var w []string
		for _, o := range m.Objs {
			w = o.Node.Words(w)
			if len(w) > 60 {
				break
			}
		}
		unit = "/begin MODULE m# \"\"" + sep + join(w) + sep + "/end MODULE" + sep
	}
	w := d.Words()
	at := t.N(len(w) + 1)
	insert := func(s string) { w = append(w[:at:at], append([]string{s}, w[at:]...)...) }
	switch spot.What {
	case "texts":
		var texts []int
		for i, x := range w {
			if strings.HasPrefix(x, `"`) && strings.HasSuffix(x, `"`) && len(x) >= 2 {
				texts = append(texts, i)
			}
		}
		if len(texts) > 0 {
			unit = t.Pick("word ", "w", "a b\n", "/* x */", "// ", "\t\t", `\" `, "/begin X ", "'")
			w[texts[t.N(len(texts))]] = `"` + mark + `"`
		}
	case "comments":
		unit = t.Pick("/* c */", "// c\n", "/**/", "/* \" */ ", "/* /begin X /end X */\n", "//\n")
		insert("\n" + mark + "\n")
	case "comment":
		unit = t.Pick("c ", "* ", "// ", "/ ", "\" ", "\n", "/begin X ")
		insert("/*" + mark + "*/")
	case "white space":
		unit = t.Pick(" ", "\n", "\t", "\r\n", "\n\n\n ")
		insert(mark)
	case "stray": // not A2L at all
		unit = t.Pick("word ", "/", "\"\" ", "/begin ", "/end X\n", "/begin X\n", "1 ", "x", "\\", "\x00", "/begin GROUP g \"\"\n", "/begin MODULE m \"\"\n", "\xff", "/begin IF_DATA X\n")
		insert(mark)
	}
	if spot.Path == nil && spot.What != "modules" {
		g.What += fmt.Sprintf(" %q", unit)
	}
	for i := range w {
		if w[i] == "" {
			w[i] = " "
		}
	}
	txt := strings.Join(w, sep)
	if spot.What == "modules" {
		txt = strings.TrimSuffix(strings.TrimSuffix(txt, "PROJECT"), "/end"+sep) + mark + sep + "/end PROJECT"
	}
	i := strings.Index(txt, mark)
	if i < 0 { // the place is not in the text
		i = len(txt)
		txt += mark
		unit, g.What = "\n", "blank lines at the end"
	}
	g.Before, g.Behind, g.Unit = txt[:i], txt[i+len(mark):], unit
	if strings.Contains(unit, "MODULE") { // each takes some kilobytes
		g.Max = 1<<21/len(unit) + 1
	}
	if t.Chance(1, 12) { // cut off
		g.Behind = g.Behind[:t.N(len(g.Behind)+1)]
		g.What += ", cut off"
	}
	return g
}

// HexGrowth draws a family of image files.
func HexGrowth(t *pbt.T, srec bool, kind int) (file func(n int) []byte, what, ext string) {
	ext = "hex"
	if srec {
		ext = "s19"
	}
	eol := t.Pick("\n", "\r\n")
	data := t.Bytes(t.Pick2(16, 32, 1, 4, 100, 240))
	stride := t.Pick2(len(data), 256, 65536, 1<<20)
	stray := t.Pick("x", ":", "S", "S3", ":00", "0", eol, " ", "S0030000FC"+eol, ":00000001FF"+eol, ":020000040000FA"+eol)
	down := t.Chance(1, 4)
	what = []string{"records", "records that define one address", "stray text", "records and a damaged one at the end", "stray text between two records"}[kind]
	if kind != 1 {
		what += fmt.Sprintf(" every %d bytes", stride)
	}
	if kind == 2 || kind == 4 {
		what = fmt.Sprintf("%s %q", []string{"", "", "stray text", "", "text between two records"}[kind], stray)
	}
	rec := func(sb *strings.Builder, addr uint32, bank *uint32) {
		if srec {
			sb.WriteString(SrecLine(3, 4, addr, data, false))
		} else {
			if addr>>16 != *bank {
				*bank = addr >> 16
				sb.WriteString(HexLine(4, 0, []byte{byte(addr >> 24), byte(addr >> 16)}, false) + eol)
			}
			sb.WriteString(HexLine(0, uint16(addr), data, false))
		}
		sb.WriteString(eol)
	}
	file = func(n int) []byte {
		var sb strings.Builder
		bank := uint32(0)
		switch kind {
		case 2:
			sb.WriteString(strings.Repeat(stray, n))
		case 4:
			rec(&sb, 0, &bank)
			sb.WriteString(strings.Repeat(stray, n))
			rec(&sb, 0x1000, &bank)
		default:
			for i := 0; i < n; i++ {
				a := uint32(i) * uint32(stride)
				if down {
					a = uint32(n-i) * uint32(stride)
				}
				if kind == 1 {
					a = 0
				}
				rec(&sb, a, &bank)
			}
			if kind == 3 {
				sb.WriteString(":0000000" + eol)
			}
		}
		return []byte(sb.String())
	}
	return
}
