package gen

import (
	"fmt"
	"strings"

	"github.com/asap2Go/calibrationReader/zz_verif/pbt"
)

// AnyWord draws any word of the language, for robustness tests.
func AnyWord(t *pbt.T) string {
	all := allWords()
	switch t.W(4, 2, 3, 1) {
	case 0:
		return all[t.N(len(all))]
	case 1:
		return t.Pick("/begin", "/end")
	case 2:
		return t.Pick("0", "1", "-1", "65536", "99999999999999999999", "x", `""`, `"a b"`, "0x10", "1.5", "nan", "inf", `"`, "/", "/*", "*/", "//", `\`, `\"`, "", "1e999", `a"b`, "/begin/end", "/beginX", `x"`, "'")
	}
	return Str(t)
}

var wordsCache []string

func allWords() []string {
	if wordsCache != nil {
		return wordsCache
	}
	seen := map[string]bool{}
	var walk func(k *Key)
	put := func(s string) {
		if !seen[s] {
			seen[s] = true
			wordsCache = append(wordsCache, s)
		}
	}
	walk = func(k *Key) {
		put(k.Kw)
		if k.Block {
			put("/begin " + k.Kw)
			put("/end " + k.Kw)
		}
		for _, p := range append(append([]Param(nil), k.Params...), k.Rows...) {
			for _, e := range p.Enum {
				put(e)
			}
		}
		for _, o := range k.Opts {
			walk(o)
		}
	}
	for _, k := range []*Key{Asap2Key, A2mlVerKey, ProjectKey, ModuleKey, HeaderKey} {
		walk(k)
	}
	for _, m := range ModKinds {
		walk(m.Key)
	}
	return wordsCache
}

// span is a place in the word list.
type span struct {
	node  *Node
	begin int // index of "/begin" (blocks) or of the keyword
	body  int // first index after the keyword
	par   int // index after the parameters
	end   int // index of "/end" (blocks) or after the last word
	depth int
}

type flat struct {
	words []string
	spans []span
	// places where a foreign keyword can be put: index -> keywords allowed there
	slots []slot
}

type slot struct {
	at      int
	allowed map[string]bool
	where   string
	node    *Node
}

func allowedIn(k *Key) map[string]bool {
	m := map[string]bool{}
	for _, o := range k.Opts {
		m[o.Kw] = true
	}
	return m
}

func (f *flat) add(n *Node, depth int) {
	k := n.Key
	s := span{node: n, begin: len(f.words), depth: depth}
	if k.Block {
		f.words = append(f.words, "/begin", k.Kw)
	} else {
		f.words = append(f.words, k.Kw)
	}
	s.body = len(f.words)
	al := allowedIn(k)
	uninterpreted := k.Raw != "" || k.Kw == "A2ML"
	for i, v := range n.Vals {
		if k.Block && !uninterpreted && i > 0 {
			f.slots = append(f.slots, slot{len(f.words), al, "between parameters of " + k.Kw, n})
		}
		f.words = append(f.words, v)
	}
	s.par = len(f.words)
	f.words = append(f.words, n.List...)
	for _, r := range n.Rows {
		f.words = append(f.words, r...)
	}
	f.words = append(f.words, n.Toks...)
	for _, c := range n.Kids {
		if k.Block && !uninterpreted {
			f.slots = append(f.slots, slot{len(f.words), al, "in " + k.Kw, n})
		}
		f.add(c, depth+1)
	}
	if k.Block && !uninterpreted {
		f.slots = append(f.slots, slot{len(f.words), al, "at the end of " + k.Kw, n})
	}
	s.end = len(f.words)
	if k.Block {
		f.words = append(f.words, "/end", k.Kw)
	}
	f.spans = append(f.spans, s)
}

func flatten(d *Doc) *flat {
	f := &flat{}
	top := map[string]bool{"ASAP2_VERSION": true, "A2ML_VERSION": true, "PROJECT": true}
	f.slots = append(f.slots, slot{0, top, "before the project", nil})
	if d.Asap2 != nil {
		f.add(d.Asap2, 0)
	}
	if d.A2mlV != nil {
		f.add(d.A2mlV, 0)
	}
	prj := map[string]bool{"HEADER": true, "MODULE": true}
	pb := len(f.words)
	f.words = append(append(f.words, "/begin", "PROJECT"), d.Project.Vals...)
	f.slots = append(f.slots, slot{len(f.words), prj, "in PROJECT", nil})
	if d.Header != nil && !d.HeaderLast {
		f.add(d.Header, 1)
	}
	mod := map[string]bool{}
	for _, k := range ModKinds {
		mod[k.Key.Kw] = true
	}
	for _, m := range d.Mods {
		mb := len(f.words)
		f.words = append(append(f.words, "/begin", "MODULE"), m.Node.Vals...)
		f.slots = append(f.slots, slot{len(f.words), mod, "in MODULE", nil})
		for _, o := range m.Objs {
			f.add(o.Node, 2)
			f.slots = append(f.slots, slot{len(f.words), mod, "in MODULE", nil})
		}
		f.spans = append(f.spans, span{node: m.Node, begin: mb, body: mb + 2, par: mb + 4, end: len(f.words), depth: 1})
		f.words = append(f.words, "/end", "MODULE")
		f.slots = append(f.slots, slot{len(f.words), prj, "in PROJECT", nil})
	}
	if d.Header != nil && d.HeaderLast {
		f.add(d.Header, 1)
	}
	f.spans = append(f.spans, span{node: d.Project, begin: pb, body: pb + 2, par: pb + 4, end: len(f.words)})
	f.words = append(f.words, "/end", "PROJECT")
	f.slots = append(f.slots, slot{len(f.words), top, "after the project", nil})
	return f
}

// keywords the parser does not count as keywords outside the blocks that know them
var softKeywords = map[string]bool{"READ_ONLY": true, "READ_WRITE": true, "VAR_SEPARATOR": true, "RESERVED": true, "FIX_AXIS_PAR": true}

var inlineKeys, blockKeys []*Key

func collectKeys() {
	if inlineKeys != nil {
		return
	}
	seen := map[string]bool{}
	var walk func(k *Key)
	walk = func(k *Key) {
		id := fmt.Sprint(k.Kw, k.Block)
		if !seen[id] && !softKeywords[k.Kw] {
			seen[id] = true
			if k.Block {
				if k.Kw != "PROJECT" && k.Kw != "MODULE" {
					blockKeys = append(blockKeys, k)
				}
			} else {
				inlineKeys = append(inlineKeys, k)
			}
		}
		for _, o := range k.Opts {
			walk(o)
		}
	}
	for _, m := range ModKinds {
		walk(m.Key)
	}
	walk(HeaderKey)
}

func opaque(n *Node) bool { return n.Key.Raw != "" || n.Key.Kw == "A2ML" }

// Fault renders the document with one structural fault; the name is empty if none was possible. With a focus
// the fault is placed in or at that node.
func Fault(t *pbt.T, d *Doc, focus *Node) (string, []byte) {
	return FaultKind(t, d, focus, t.W(6, 3, 3, 3, 4, 2, 2, 2, 2))
}

// FaultKinds is the number of kinds of faults.
const FaultKinds = 9

// FaultKind is Fault with a given kind of fault.
func FaultKind(t *pbt.T, d *Doc, focus *Node, kind int) (string, []byte) {
	collectKeys()
	f := flatten(d)
	w := f.words
	spans, slots := f.spans, f.slots
	if focus != nil {
		spans, slots = nil, nil
		for _, s := range f.spans {
			if s.node == focus {
				spans = append(spans, s)
			}
		}
		for _, s := range f.slots {
			if s.node == focus {
				slots = append(slots, s)
			}
		}
	}
	blocks := func(withOpaque bool) []span {
		var c []span
		for _, s := range spans {
			if s.node.Key.Block && (withOpaque || !opaque(s.node)) {
				c = append(c, s)
			}
		}
		return c
	}
	cut := func(i, j int) []string { return append(append([]string(nil), w[:i]...), w[j:]...) }
	put := func(i int, x ...string) []string {
		return append(append(append([]string(nil), w[:i]...), x...), w[i:]...)
	}
	switch kind {
	case 0: // bad number or enumeration value
		c := candidates(spans)
		if len(c) == 0 {
			return "", nil
		}
		x := c[t.N(len(c))]
		return bad(t, w, x, t.N(2))
	case 1: // begin marker missing
		c := blocks(true)
		if len(c) == 0 {
			return "", nil
		}
		s := c[t.N(len(c))]
		return "begin marker missing: " + s.node.Key.Kw, Render(t, cut(s.begin, s.begin+2))
	case 2: // end marker missing
		c := blocks(false)
		if len(c) == 0 {
			return "", nil
		}
		s := c[t.N(len(c))]
		return "end marker missing: " + s.node.Key.Kw, Render(t, cut(s.end, s.end+2))
	case 3: // cut off at any byte
		txt := append(Render(t, w[:len(w)-2]), "\n/end PROJECT"...)
		n := t.N(len(txt))
		return fmt.Sprintf("cut off: after %d of %d bytes", n, len(txt)), txt[:n]
	case 4: // foreign keyword
		if len(slots) == 0 {
			return "", nil
		}
		sl := slots[t.N(len(slots))]
		k := inlineKeys[t.N(len(inlineKeys))]
		if sl.allowed[k.Kw] {
			return "", nil
		}
		return "keyword out of place: " + k.Kw + " " + sl.where, Render(t, put(sl.at, GenNode(t, k, &Sizes{}, "").Words(nil)...))
	case 5: // foreign block
		if len(slots) == 0 {
			return "", nil
		}
		sl := slots[t.N(len(slots))]
		k := blockKeys[t.N(len(blockKeys))]
		if sl.allowed[k.Kw] {
			return "", nil
		}
		return "block out of place: " + k.Kw + " " + sl.where, Render(t, put(sl.at, GenNode(t, k, &Sizes{}, "").Words(nil)...))
	case 6: // misspelled marker
		c := blocks(false)
		if len(c) == 0 {
			return "", nil
		}
		s := c[t.N(len(c))]
		nw := append([]string(nil), w...)
		at := s.begin + 1
		if t.Bool() {
			at = s.end + 1
		}
		nw[at] = nw[at] + t.Pick("X", "_1")
		return "marker misspelled: " + nw[at-1] + " " + nw[at], Render(t, nw)
	case 7: // cut off between two words
		if len(spans) == 0 {
			return "", nil
		}
		s := spans[t.N(len(spans))]
		n := t.R(s.begin, s.end+1)
		if n >= len(w) {
			n = len(w) - 1
		}
		return fmt.Sprintf("cut off: after %d of %d words", n, len(w)), Render(t, w[:n])
	case 8: // a keyword in the place of a value
		bs := f.keywordsAsValues(t, spans, 1)
		if len(bs) == 0 {
			return "", nil
		}
		return bs[0].Name, bs[0].Text
	}
	return "", nil
}

// keywordsAsValues returns files in which a keyword that is not allowed in any block around stands in the place of a
// value, one for every value (up to a limit).
func (f *flat) keywordsAsValues(t *pbt.T, spans []span, max int) []BadText {
	type place struct {
		at int
		kw string
	}
	var c []place
	for _, s := range spans {
		if !opaque(s.node) {
			for at := s.body; at < s.par+len(s.node.List); at++ {
				c = append(c, place{at, s.node.Key.Kw})
			}
			at := s.par + len(s.node.List)
			for _, r := range s.node.Rows {
				for range r {
					c = append(c, place{at, s.node.Key.Kw})
					at++
				}
			}
		}
	}
	for len(c) > max {
		k := t.N(len(c))
		c = append(c[:k], c[k+1:]...)
	}
	var out []BadText
	for _, x := range c {
		k := inlineKeys[t.N(len(inlineKeys))]
		ok := true
		for _, s := range f.spans {
			if s.begin <= x.at && x.at < s.end && allowedIn(s.node.Key)[k.Kw] {
				ok = false
			}
		}
		if ok {
			nw := append([]string(nil), f.words...)
			nw[x.at] = k.Kw
			out = append(out, BadText{fmt.Sprintf("keyword in the place of a value: %s for %s of %s", k.Kw, f.words[x.at], x.kw), Render(t, nw)})
		}
	}
	return out
}

// KeywordsAsValues is keywordsAsValues for the values of one node.
func KeywordsAsValues(t *pbt.T, d *Doc, focus *Node, max int) []BadText {
	collectKeys()
	f := flatten(d)
	for _, s := range f.spans {
		if s.node == focus {
			return f.keywordsAsValues(t, []span{s}, max)
		}
	}
	return nil
}

type cand struct {
	at int
	p  *Param
	kw string
}

// candidates lists the numbers and enumeration values.
func candidates(spans []span) []cand {
	var c []cand
	add := func(at int, p *Param, s span) {
		switch p.Kind {
		case KStr, KID, KAddr, KRaw:
		default:
			c = append(c, cand{at, p, s.node.Key.Kw})
		}
	}
	for _, s := range spans {
		for i := range s.node.Vals {
			add(s.body+i, &s.node.Key.Params[i], s)
		}
		at := s.par
		for range s.node.List {
			add(at, s.node.Key.List, s)
			at++
		}
		for _, r := range s.node.Rows {
			for j := range r {
				add(at, &s.node.Key.Rows[j], s)
				at++
			}
		}
	}
	return c
}

func bad(t *pbt.T, w []string, x cand, class int) (string, []byte) {
	v := BadValue(t, x.p, class)
	nw := append([]string(nil), w...)
	nw[x.at] = v
	return fmt.Sprintf("bad value: %s for %s of %s", v, x.p.Field, x.kw), Render(t, nw)
}

// BadText is a file with one bad value.
type BadText struct {
	Name string
	Text []byte
}

// BadValues returns files with one bad value each, two for every number and enumeration value of the node (up to a limit).
func BadValues(t *pbt.T, d *Doc, focus *Node, max int) []BadText {
	f := flatten(d)
	var out []BadText
	for _, s := range f.spans {
		if s.node != focus {
			continue
		}
		c := candidates([]span{s})
		for len(c) > max {
			k := t.N(len(c))
			c = append(c[:k], c[k+1:]...)
		}
		for _, x := range c {
			for class := 0; class < 2; class++ {
				n, txt := bad(t, f.words, x, class)
				out = append(out, BadText{n, txt})
			}
		}
	}
	return out
}

// BadValue draws a text which is no value of the parameter (class 0) or a number beyond its range (class 1).
func BadValue(t *pbt.T, p *Param, class int) string {
	if class == 1 {
		switch p.Kind {
		case KU16:
			return t.Pick("65536", "-1", "70000", "99999999999999999999", "4294967296", "65537")
		case KU32:
			return t.Pick("4294967296", "-1", "4294967297", "99999999999999999999")
		case KI16:
			return t.Pick("32768", "-32769", "65535", "65536", "-65536", "4294967296")
		case KI32:
			return t.Pick("2147483648", "-2147483649", "4294967295", "4294967296")
		case KF:
			return t.Pick("1e999", "-1e400", "2e308")
		}
	}
	switch p.Kind {
	case KEnum:
		e := p.Enum[t.N(len(p.Enum))]
		return t.Pick("FOO", "UNKNOWN_VALUE", "42", `"text"`, "X_1", e+"X", "X"+e, strings.ToLower(e))
	case KF:
		return t.Pick("abc", "1,5", "--1", "1.2.3", `"1"`, "x1", "1x", "-", "1.5.")
	case KI16, KI32:
		return t.Pick("abc", "1.5", "12x", "--1", `"7"`, "+-1", "x")
	}
	return t.Pick("abc", "1.5", "12x", `"7"`, "x", "1-")
}

// FocusWords returns the words of the document and the range of them that belongs to the node.
func FocusWords(d *Doc, focus *Node) (words []string, begin, end int) {
	f := flatten(d)
	for _, s := range f.spans {
		if s.node == focus {
			e := s.end
			if focus.Key.Block {
				e += 2
			}
			return f.words, s.begin, e
		}
	}
	return f.words, 0, len(f.words)
}
