package gen

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// Node is a written keyword or block.
type Node struct {
	Key  *Key
	Vals []string
	List []string
	Rows [][]string
	Toks []string
	Kids []*Node
}

// Obj is a module-level object.
type Obj struct {
	Kind *ModKind
	Node *Node
}

// Name returns the identifier of the object.
func (o *Obj) Name() string {
	for i, p := range o.Node.Key.Params {
		if p.Field == o.Kind.ID {
			return o.Node.Vals[i]
		}
	}
	return ""
}

// Mod is a written module.
type Mod struct {
	Node *Node
	Objs []*Obj
}

// Doc is a written A2L file.
type Doc struct {
	Asap2, A2mlV, Project, Header *Node
	Mods                          []*Mod
	HeaderLast                    bool
}

// Names hands out object names that are unique per kind.
type Names struct {
	used map[string]bool
	n    int
}

// NewNames returns an empty name supply.
func NewNames() *Names { return &Names{used: map[string]bool{}} }

// Get draws a name that is new in the given kind.
func (ns *Names) Get(t *pbt.T, kind string) string {
	n := Ident(t)
	if t.Bool() {
		n = t.Pick("obj", "obj", "Obj", "OBJ") + strconv.Itoa(t.N(40))
	}
	for ns.used[kind+"\x00"+n] {
		ns.n++
		n = n + "_" + strconv.Itoa(ns.n)
	}
	ns.used[kind+"\x00"+n] = true
	return n
}

// Ident draws an identifier that is no keyword.
func Ident(t *pbt.T) string {
	switch t.W(120, 40, 40, 20, 1) {
	case 4:
		return "long_" + strings.Repeat("x", t.R(30, 1100)) + strconv.Itoa(t.N(10))
	case 0:
		return t.Pick("ref", "a", "x_val", "K", "Map1", "sig", "tq", "n_eng", "CURVE_1", "T") + strconv.Itoa(t.N(100))
	case 1:
		return t.Pick("ASAM.C.SCALAR.", "Mod.Sub.", "a.b.") + "v" + strconv.Itoa(t.N(1000))
	case 2:
		return t.Pick("arr", "S_x") + "[" + strconv.Itoa(t.N(20)) + "]" + t.Pick("", "._0_", "[1]")
	}
	return t.Pick("Begin", "END_1", "PROJECTx", "CHARACTERISTIC_2", "_9", "NO_INPUT_QUANTITY", "NO_COMPU_METHOD", "if_data", "a-b", "v1.2")
}

// Str draws a text in quotation marks.
func Str(t *pbt.T) string {
	switch t.W(50, 20, 40, 20, 10, 1) {
	case 5:
		n := t.R(30, 300)
		if t.Chance(1, 10) {
			n = t.R(300, 3000)
		}
		return `"` + strings.Repeat(t.Pick("x", "word ", "/* ", "// "), n) + `end"`
	case 0:
		return `"` + t.Pick("text", "rpm", "%4.2", "", " ", "a b", " a", "b ", "Long name of it", "1.2.3", "42", "m/s", "kg*m") + `"`
	case 1:
		return `"s` + strconv.Itoa(t.N(100000)) + `"`
	case 2: // marks of other syntax inside the string
		return `"` + t.Pick("see // note", "/* no comment */", "a /* b", "b */ c", "/begin CHARACTERISTIC x", "/end MODULE", "http://x.y/z", "READ_ONLY", "FORMAT",
			"/end PROJECT", "it's", "// /* */", "/ /", "IF_DATA /begin", "*/", "/*", "//", "/begin MODULE m", "/end CHARACTERISTIC") + `"`
	case 3: // several words, also leading and trailing blanks
		n := t.R(1, 6)
		w := make([]string, n)
		for i := range w {
			w[i] = t.Pick("", "word", "x", "1", "-", "(a)", "and", "{;}")
		}
		for i := 1; i < len(w); i++ { // no double blanks in the middle
			if w[i] == "" && (w[i-1] == "" || i < len(w)-1) {
				w[i] = "w"
			}
		}
		return `"` + strings.Join(w, " ") + `"`
	}
	return `"` + t.Pick("°C", "µm", "\xb0C", "Größe", "日本", "Ω", "é è") + `"`
}

func num(t *pbt.T, lo, hi int64) string {
	var v int64
	switch t.W(10, 2, 2, 6, 1) {
	case 0:
		v = int64(t.N(17))
		if lo < 0 && t.Chance(1, 3) {
			v = -v
		}
	case 1:
		v = lo
	case 2:
		v = hi
	case 3:
		v = lo + int64(t.U64()%uint64(hi-lo+1))
	case 4: // leading zeros do not make a number octal
		return t.Pick("0", "00", "000") + strconv.Itoa(t.N(130))
	}
	return strconv.FormatInt(v, 10)
}

// Float draws a floating point literal.
func Float(t *pbt.T) string {
	switch t.W(4, 3, 2, 2) {
	case 0:
		return strconv.Itoa(t.N(200))
	case 1:
		return fmt.Sprintf("%s%d.%d", t.Pick("", "-"), t.N(1000), t.N(1000))
	case 2:
		return t.Pick("0", "0.0", "-1", "1e3", "3.4E+38", "-2.5e-7", "1.7976931348623157e308", "4294967295", "0.000001", "-0.5", "5e-324", "100000000000000000000", ".5", "7.", "+2.5", "-0", "010", "1E5", "0.1", "123456789012345678", "-.25e+02")
	}
	return strconv.FormatFloat(float64(int64(t.U64())>>uint(t.N(60)))/float64(int(1)<<uint(t.N(20))), 'g', -1, 64)
}

// Hex draws an address text.
func Hex(t *pbt.T) string {
	switch t.W(4, 2, 1) {
	case 0:
		return fmt.Sprintf("0x%X", uint32(t.U64()))
	case 1:
		return fmt.Sprintf("0x%0*x", t.R(1, 8), t.N(65536))
	}
	return strconv.Itoa(t.N(100000))
}

func token(t *pbt.T, p *Param) string {
	switch p.Kind {
	case KStr:
		return Str(t)
	case KID, KRaw:
		return Ident(t)
	case KU16:
		return num(t, 0, 65535)
	case KU32:
		return num(t, 0, 4294967295)
	case KI16:
		return num(t, -32768, 32767)
	case KI32:
		return num(t, -2147483648, 2147483647)
	case KF:
		return Float(t)
	case KAddr:
		return Hex(t)
	case KEnum:
		return p.Enum[t.N(len(p.Enum))]
	}
	panic("kind")
}

// rawTokens: the content of IF_DATA, which the parser keeps uninterpreted.
func rawTokens(t *pbt.T) []string {
	var out []string
	var open []string
	n := t.Pick2(0, 1, 3, 8, 20)
	if t.Chance(1, 12) {
		n = t.R(40, 300)
	}
	for ; n > 0; n-- {
		switch t.W(4, 2, 2, 2, 2) {
		case 0:
			out = append(out, t.Pick("0x12", "7", "-3", "1.5", "KP_BLOB", "ETK", "RASTER", "INTERN", "QP_BLOB"))
		case 1:
			out = append(out, Str(t))
		case 2:
			out = append(out, t.Pick("FORMAT", "READ_ONLY", "BYTE_ORDER", "MSB_LAST", "PHYS_UNIT", "VERSION", "DISPLAY_IDENTIFIER", "ADDRESS", "VALUE"))
		case 3:
			k := t.Pick("SOURCE", "RASTER", "XCP_ON_CAN", "DAQ", "EVENT", "TP_BLOB", "CHARACTERISTIC", "GROUP")
			open = append(open, k)
			out = append(out, "/begin", k)
		case 4:
			if len(open) > 0 {
				out = append(out, "/end", open[len(open)-1])
				open = open[:len(open)-1]
			}
		}
	}
	for len(open) > 0 {
		out = append(out, "/end", open[len(open)-1])
		open = open[:len(open)-1]
	}
	return out
}

// Sizes controls the amount of content.
type Sizes struct {
	Opt  int // chance in 8 that an optional keyword is written
	Big  int // chance in 60 that a list is long
	Deep int
}

// DrawSizes draws a size profile.
func DrawSizes(t *pbt.T) *Sizes {
	return &Sizes{Opt: t.Pick2(1, 0, 2, 4, 7, 8), Big: t.Pick2(1, 0, 4)}
}

func (sz *Sizes) listLen(t *pbt.T) int {
	if t.Chance(sz.Big, 60) {
		switch t.W(100, 20, 1) {
		case 1:
			return t.R(200, 600)
		case 2:
			return t.R(600, 3000)
		}
		return t.R(20, 150)
	}
	return t.Pick2(1, 0, 2, 3, 6)
}

// GenNode draws the content of a keyword.
func GenNode(t *pbt.T, k *Key, sz *Sizes, id string) *Node {
	n := &Node{Key: k}
	np := len(k.Params)
	if k.MinP >= 0 {
		np = t.R(k.MinP, len(k.Params))
	}
	rows := 0
	if k.Rows != nil {
		rows = sz.listLen(t)
	}
	for i := 0; i < np; i++ {
		p := &k.Params[i]
		switch {
		case k.Count != "" && p.Field == k.Count:
			n.Vals = append(n.Vals, strconv.Itoa(rows))
		case i == 0 && id != "":
			n.Vals = append(n.Vals, id)
		default:
			n.Vals = append(n.Vals, token(t, p))
		}
	}
	for r := 0; r < rows; r++ {
		row := make([]string, len(k.Rows))
		for j := range row {
			if r > 0 && t.Chance(1, 16) { // the same value again
				row[j] = n.Rows[t.N(r)][j]
				continue
			}
			row[j] = token(t, &k.Rows[j])
		}
		n.Rows = append(n.Rows, row)
	}
	if k.List != nil {
		for c := sz.listLen(t); c > 0; c-- {
			if len(n.List) > 0 && t.Chance(1, 12) { // the same member again
				n.List = append(n.List, n.List[t.N(len(n.List))])
				continue
			}
			n.List = append(n.List, token(t, k.List))
		}
	}
	if k.Text != "" {
		for c := sz.listLen(t); c > 0; c-- {
			if k.Kw == "A2ML" {
				n.Toks = append(n.Toks, t.Pick("block", "struct", "{", "};", "taggedunion", "uint;", "enum", `"IF_DATA"`, `"x y";`, "char[256];", "FORMAT", "VERSION", "READ_ONLY", "(", ")*;"))
			} else {
				n.Toks = append(n.Toks, Str(t))
			}
		}
		if k.Kw == "A2ML" && len(n.Toks) > 0 && t.Chance(1, 80) { // long
			w := n.Toks
			for c := t.R(100, 20000) / len(w); c > 0; c-- {
				n.Toks = append(n.Toks, w...)
			}
		}
	}
	if k.Raw != "" {
		n.Toks = rawTokens(t)
	}
	if len(k.Opts) > 0 && sz.Opt > 0 && sz.Deep < 5 {
		sub := *sz
		sub.Deep++
		if sub.Deep > 1 && sub.Opt > 4 {
			sub.Opt = 4
		}
		var used map[string]bool
		for _, o := range k.Opts {
			if !t.Chance(sz.Opt, 8) {
				continue
			}
			c := 1
			if o.Rep || o.MapKey != "" {
				c = t.Pick2(1, 2, 3)
				if o.MapKey != "" {
					c = sz.listLen(t)
				}
			}
			for ; c > 0; c-- {
				t.Group(func() {
					kid := GenNode(t, o, &sub, "")
					if o.MapKey != "" { // names are unique
						if used == nil {
							used = map[string]bool{}
						}
						for used[kid.Vals[0]] {
							kid.Vals[0] = `"C` + strconv.Itoa(len(used)) + `_` + strings.Trim(kid.Vals[0], `"`) + `"`
						}
						used[kid.Vals[0]] = true
					}
					n.Kids = append(n.Kids, kid)
				})
			}
		}
		n.Kids = arrange(t, n.Kids)
	}
	return n
}

// arrange shuffles optional keywords; a list that extends to the end of the block comes last but for IF_DATA.
func arrange(t *pbt.T, kids []*Node) []*Node {
	if len(kids) > 1 && t.Bool() {
		out := make([]*Node, len(kids))
		for i, j := range t.Perm(len(kids)) {
			out[i] = kids[j]
		}
		kids = out
	}
	return kids
}

// Words returns the words of the node; a text in quotation marks is one word.
func (n *Node) Words(out []string) []string {
	k := n.Key
	if k.Block {
		out = append(out, "/begin", k.Kw)
	} else {
		out = append(out, k.Kw)
	}
	out = append(out, n.Vals...)
	out = append(out, n.List...)
	for _, r := range n.Rows {
		out = append(out, r...)
	}
	out = append(out, n.Toks...)
	for _, c := range n.Kids {
		out = c.Words(out)
	}
	if k.Block {
		out = append(out, "/end", k.Kw)
	}
	return out
}

// Words returns the words of the file.
func (d *Doc) Words() []string {
	var out []string
	if d.Asap2 != nil {
		out = d.Asap2.Words(out)
	}
	if d.A2mlV != nil {
		out = d.A2mlV.Words(out)
	}
	out = append(append(out, "/begin", "PROJECT"), d.Project.Vals...)
	if d.Header != nil && !d.HeaderLast {
		out = d.Header.Words(out)
	}
	for _, m := range d.Mods {
		out = append(append(out, "/begin", "MODULE"), m.Node.Vals...)
		for _, o := range m.Objs {
			out = o.Node.Words(out)
		}
		out = append(out, "/end", "MODULE")
	}
	if d.Header != nil && d.HeaderLast {
		out = d.Header.Words(out)
	}
	return append(out, "/end", "PROJECT")
}

// DocSpec controls the generation of a file.
type DocSpec struct {
	Kinds   []*ModKind // kinds to draw objects from (weighted by repetition)
	MaxObjs int
	MinObjs int
	Mods    int
	Singles int // chance in 4 of each singleton
	Meta    bool
	Small   bool // objects without optional content
}

// AllKinds returns the named kinds of the given groups ("" for all).
func AllKinds(groups string) []*ModKind {
	var out []*ModKind
	for _, m := range ModKinds {
		if m.ID != "" && (groups == "" || strings.Contains(groups, m.Group)) {
			out = append(out, m)
		}
	}
	return out
}

// GenMod draws a module.
func GenMod(t *pbt.T, spec *DocSpec, sz *Sizes) *Mod {
	m := &Mod{Node: GenNode(t, ModuleKey, &Sizes{}, "")}
	ns := NewNames()
	n := spec.MinObjs
	if spec.MaxObjs > n {
		n += t.N(spec.MaxObjs - n + 1)
	}
	for i := 0; i < n && len(spec.Kinds) > 0; i++ {
		t.Group(func() {
			k := spec.Kinds[t.N(len(spec.Kinds))]
			m.Objs = append(m.Objs, &Obj{Kind: k, Node: GenNode(t, k.Key, sz, ns.Get(t, k.Key.Kw))})
		})
	}
	for _, k := range ModKinds {
		if k.ID == "" && t.Chance(spec.Singles, 4) {
			k := k
			t.Group(func() {
				o := &Obj{Kind: k, Node: GenNode(t, k.Key, sz, "")}
				at := t.N(len(m.Objs) + 1)
				m.Objs = append(m.Objs, nil)
				copy(m.Objs[at+1:], m.Objs[at:])
				m.Objs[at] = o
			})
		}
	}
	return m
}

// GenDoc draws a file.
func GenDoc(t *pbt.T, spec DocSpec) *Doc {
	d := &Doc{Project: GenNode(t, ProjectKey, &Sizes{}, "")}
	sz := DrawSizes(t)
	if spec.Small {
		sz = &Sizes{}
	}
	if spec.Meta || t.Bool() {
		if t.Chance(3, 4) {
			d.Asap2 = GenNode(t, Asap2Key, sz, "")
		}
		if t.Bool() {
			d.A2mlV = GenNode(t, A2mlVerKey, sz, "")
		}
		if t.Chance(3, 4) {
			d.Header = GenNode(t, HeaderKey, &Sizes{Opt: 4}, "")
			d.HeaderLast = t.Chance(1, 6)
		}
	}
	if spec.Mods == 0 {
		spec.Mods = 1
	}
	for i := 0; i < spec.Mods; i++ {
		d.Mods = append(d.Mods, GenMod(t, &spec, sz))
	}
	return d
}

var commentTexts = []string{"", "note", "it's a \"quoted\" word", "/begin CHARACTERISTIC x", "/end MODULE", "/end PROJECT", "FORMAT", "an open \" quote", "/begin IF_DATA",
	"* * *", "READ_ONLY", "// nested", "a = b / c", "/ begin", "MATRIX_DIM 3 4", "°", "--- next ---", "/begin MODULE m2 \"\" /end MODULE", "x*y", "'", "0x1234"}

func comment(t *pbt.T, eol string) string {
	switch t.W(3, 3, 2) {
	case 0:
		return "//" + t.Pick("", " ") + commentTexts[t.N(len(commentTexts))] + eol
	case 1:
		return "/*" + t.Pick("", " ") + strings.ReplaceAll(commentTexts[t.N(len(commentTexts))], "*/", "") + t.Pick("", " ") + "*/"
	}
	var sb strings.Builder
	sb.WriteString("/*")
	if t.Chance(1, 300) { // a long line
		sb.WriteString(strings.Repeat(" /begin MODULE x", t.R(10, 5000)))
	}
	for c := t.R(1, 4); c > 0; c-- {
		sb.WriteString(t.Pick("", " ", "  ") + strings.ReplaceAll(commentTexts[t.N(len(commentTexts))], "*/", "") + eol)
	}
	return sb.String() + t.Pick("", " ") + "*/"
}

// Render joins words to a text. Style 0 is a plain layout.
func Render(t *pbt.T, words []string) []byte {
	var sb strings.Builder
	eol := t.Pick("\n", "\r\n")
	style := t.W(4, 2, 1, 3, 3)
	if len(words) > 8000 && t.Chance(1, 3) { // a line of more than 64 KB
		style = 2
	}
	// comments per 100 separators
	cm := 0
	if style == 3 {
		cm = t.Pick2(3, 10, 40)
	}
	mixed := style >= 3 && t.Chance(1, 8) // both kinds of line ends in one file
	sep := func(lineBreak bool) {
		if mixed {
			eol = t.Pick("\n", "\r\n")
		}
		switch style {
		case 0:
			if lineBreak {
				sb.WriteString(eol)
			} else {
				sb.WriteString(" ")
			}
		case 1: // one word per line
			sb.WriteString(eol)
		case 2: // everything on one line
			sb.WriteString(" ")
		default:
			glue := false
			if cm > 0 && t.Chance(cm, 100) {
				if t.Bool() {
					sb.WriteString(t.Pick(" ", eol, "\t"))
				}
				sb.WriteString(comment(t, eol))
				glue = t.Chance(1, 3)
			}
			if !glue {
				sb.WriteString(t.Pick(" ", eol, "  ", "\t", eol+eol, " "+eol+"\t", eol+"    "))
			}
		}
	}
	if style == 3 && t.Bool() {
		sb.WriteString(comment(t, eol))
		sb.WriteString(eol)
	}
	if style == 4 {
		sb.WriteString(t.Pick("", eol, "  ", "\ufeff", eol+eol+"\t"))
	}
	for i, w := range words {
		if i > 0 {
			sep(w == "/begin" || w == "/end")
		}
		if style >= 3 && strings.HasPrefix(w, `"`) && strings.Contains(w, " ") && t.Chance(1, 4) {
			// white space inside a text in quotation marks: a run of it reads as one blank
			w = strings.ReplaceAll(w, " ", t.Pick("  ", "\t", eol, eol+"\t ", " "+eol+eol))
		}
		sb.WriteString(w)
	}
	if style == 3 && t.Bool() {
		sep(true)
		sb.WriteString(strings.TrimRight(comment(t, eol), "\r\n"))
	}
	sb.WriteString(t.Pick(eol, "", eol+eol, " "))
	return []byte(sb.String())
}

// Path leads from a module-level kind (or the project header, Kind nil) to one keyword of the grammar.
type Path struct {
	Kind *ModKind
	Keys []*Key // below the kind
}

// Last returns the keyword the path leads to.
func (p *Path) Last() *Key {
	if len(p.Keys) > 0 {
		return p.Keys[len(p.Keys)-1]
	}
	if p.Kind == nil {
		return HeaderKey
	}
	return p.Kind.Key
}

func (p *Path) String() string {
	s := "HEADER"
	if p.Kind != nil {
		s = p.Kind.Key.Kw
	}
	for _, k := range p.Keys {
		s += "/" + k.Kw
	}
	return s
}

var pathCache = map[string][]*Path{}

// Paths lists the places of the grammar in the given groups ("" for all).
func Paths(groups string) []*Path {
	if p := pathCache[groups]; p != nil {
		return p
	}
	var out []*Path
	var walk func(kind *ModKind, keys []*Key, k *Key)
	walk = func(kind *ModKind, keys []*Key, k *Key) {
		out = append(out, &Path{kind, keys})
		for _, o := range k.Opts {
			walk(kind, append(append([]*Key(nil), keys...), o), o)
		}
	}
	for _, m := range ModKinds {
		if groups == "" || strings.Contains(groups, m.Group) {
			walk(m, nil, m.Key)
		}
	}
	if groups == "" || groups == "A06" {
		walk(nil, nil, HeaderKey)
	}
	pathCache[groups] = out
	return out
}

// Force draws one place of the grammar and writes it into the document; it returns the new (or the present) node.
func Force(t *pbt.T, d *Doc, groups string) (*Path, *Node) {
	ps := Paths(groups)
	p := ps[t.N(len(ps))]
	return p, ForcePath(t, d, p)
}

// ForcePath writes the given place of the grammar into the document.
func ForcePath(t *pbt.T, d *Doc, p *Path) *Node {
	sz := &Sizes{Opt: t.Pick2(0, 1, 2, 4), Big: 1}
	var n *Node
	switch {
	case p.Kind == nil:
		if d.Header == nil {
			d.Header = GenNode(t, HeaderKey, sz, "")
		}
		n = d.Header
	default:
		m := d.Mods[len(d.Mods)-1]
		if t.Chance(1, 4) {
			m = d.Mods[t.N(len(d.Mods))]
		}
		if p.Kind.ID == "" {
			for _, o := range m.Objs {
				if o.Kind == p.Kind {
					n = o.Node
				}
			}
		}
		if n == nil {
			id := ""
			if p.Kind.ID != "" {
				id = "focus" + strconv.Itoa(len(m.Objs))
			}
			n = GenNode(t, p.Kind.Key, sz, id)
			at := t.N(len(m.Objs) + 1)
			m.Objs = append(m.Objs, nil)
			copy(m.Objs[at+1:], m.Objs[at:])
			m.Objs[at] = &Obj{Kind: p.Kind, Node: n}
		}
	}
	for _, k := range p.Keys {
		var kid *Node
		if !(k.Rep && t.Bool()) {
			for _, c := range n.Kids {
				if c.Key == k {
					kid = c
				}
			}
		}
		if kid == nil {
			kid = GenNode(t, k, sz, "")
			if k.MapKey != "" {
				kid.Vals[0] = `"focus` + strconv.Itoa(len(n.Kids)) + `"`
			}
			at := t.N(len(n.Kids) + 1)
			n.Kids = append(n.Kids, nil)
			copy(n.Kids[at+1:], n.Kids[at:])
			n.Kids[at] = kid
		}
		n = kid
	}
	return n
}
