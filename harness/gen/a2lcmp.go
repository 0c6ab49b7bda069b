package gen

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var fieldCache sync.Map // reflect.Type -> map[string]int

// Field finds a field ignoring case; the zero Value if there is none.
func Field(v reflect.Value, name string) reflect.Value {
	v = deref(v)
	if v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	c, ok := fieldCache.Load(v.Type())
	if !ok {
		m := map[string]int{}
		for i := 0; i < v.NumField(); i++ {
			m[strings.ToLower(v.Type().Field(i).Name)] = i
		}
		fieldCache.Store(v.Type(), m)
		c = m
	}
	if i, ok := c.(map[string]int)[strings.ToLower(name)]; ok {
		return v.Field(i)
	}
	return reflect.Value{}
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		v = v.Elem()
	}
	return v
}

func isZero(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !isZero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isZero(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// Cmp compares a written node with parsed structures.
type Cmp struct {
	Fields  int // compared fields
	Missing map[string]bool
}

func (c *Cmp) scalar(tok string, v reflect.Value, path string) string {
	v = deref(v)
	if !v.IsValid() {
		return ""
	}
	c.Fields++
	bad := func() string { return fmt.Sprintf("%s is %s, written was %s", path, show(v), tok) }
	switch v.Kind() {
	case reflect.String:
		if v.String() != tok {
			return bad()
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		x, err := strconv.ParseUint(tok, 10, 64)
		if err != nil || v.Uint() != x {
			return bad()
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		x, err := strconv.ParseInt(tok, 10, 64)
		if err != nil || v.Int() != x {
			return bad()
		}
	case reflect.Float64, reflect.Float32:
		x, err := strconv.ParseFloat(tok, 64)
		if err != nil || v.Float() != x {
			return bad()
		}
	default:
		c.Fields--
	}
	return ""
}

func show(v reflect.Value) string {
	var sb strings.Builder
	Dump(&sb, v, nil)
	s := sb.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// set compares the flag belonging to a field, if there is one.
func (c *Cmp) set(v reflect.Value, field string, want bool, path string) string {
	f := Field(v, field+"Set")
	if f.IsValid() && f.Kind() == reflect.Bool && f.Bool() != want {
		return fmt.Sprintf("%s.%sSet is %v, written: %v", path, field, f.Bool(), want)
	}
	return ""
}

func (c *Cmp) get(v reflect.Value, field, path string) reflect.Value {
	f := Field(v, field)
	if !f.IsValid() {
		if c.Missing == nil {
			c.Missing = map[string]bool{}
		}
		c.Missing[path+"."+field] = true
	}
	return f
}

func (c *Cmp) list(toks []string, v reflect.Value, path string) string {
	v = deref(v)
	if !v.IsValid() || (v.Kind() != reflect.Slice && v.Kind() != reflect.Array) {
		return ""
	}
	if v.Len() != len(toks) {
		return fmt.Sprintf("%s has %d members (%s), written were %d: %.300q", path, v.Len(), show(v), len(toks), toks)
	}
	for i, t := range toks {
		if d := c.scalar(t, v.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}

// Node compares n with the structure v.
func (c *Cmp) Node(n *Node, v reflect.Value, path string) string {
	v = deref(v)
	if !v.IsValid() {
		return ""
	}
	k := n.Key
	if k.Flag {
		f := c.get(v, "value", path)
		if f.IsValid() && f.Kind() == reflect.Bool && !f.Bool() {
			return path + " is not set although written"
		}
		return c.set(v, "value", true, path)
	}
	for i := range k.Params {
		p := &k.Params[i]
		field := p.Field
		idx := -1
		if h := strings.IndexByte(field, '#'); h >= 0 {
			idx, _ = strconv.Atoi(field[h+1:])
			field = field[:h]
		}
		f := deref(c.get(v, field, path))
		if !f.IsValid() {
			continue
		}
		if idx >= 0 {
			if f.Len() != 5 {
				return fmt.Sprintf("%s.%s has %d members, 5 were written", path, field, f.Len())
			}
			f = f.Index(idx)
		}
		if i >= len(n.Vals) {
			if !isZero(f) {
				return fmt.Sprintf("%s.%s is %s although not written", path, field, show(f))
			}
			if d := c.set(v, field, false, path); d != "" {
				return d
			}
			continue
		}
		if d := c.scalar(n.Vals[i], f, path+"."+field); d != "" {
			return d
		}
		if d := c.set(v, field, true, path); d != "" {
			return d
		}
	}
	if k.List != nil {
		if d := c.list(n.List, c.get(v, k.List.Field, path), path+"."+k.List.Field); d != "" {
			return d
		}
		if d := c.set(v, k.List.Field, true, path); d != "" {
			return d
		}
	}
	for j := range k.Rows {
		col := make([]string, len(n.Rows))
		for r := range n.Rows {
			col[r] = n.Rows[r][j]
		}
		if d := c.list(col, c.get(v, k.Rows[j].Field, path), path+"."+k.Rows[j].Field); d != "" {
			return d
		}
	}
	if k.Text != "" {
		want := ""
		for _, w := range n.Toks {
			want += " " + w
		}
		f := deref(c.get(v, k.Text, path))
		if f.IsValid() && f.Kind() == reflect.String {
			c.Fields++
			if f.String() != want {
				return fmt.Sprintf("%s.%s is %q, written was %q", path, k.Text, f.String(), want)
			}
		}
	}
	if k.Raw != "" {
		if d := c.list(joinTwo(n.Toks), c.get(v, k.Raw, path), path+"."+k.Raw); d != "" {
			return d
		}
	}
	return c.opts(n, k.Opts, v, path)
}

// joinTwo merges "/begin" X into one token, as the parser's tokens are.
func joinTwo(w []string) []string {
	var out []string
	for i := 0; i < len(w); i++ {
		if (w[i] == "/begin" || w[i] == "/end") && i+1 < len(w) {
			out = append(out, w[i]+" "+w[i+1])
			i++
			continue
		}
		out = append(out, w[i])
	}
	return out
}

func (c *Cmp) opts(n *Node, opts []*Key, v reflect.Value, path string) string {
	for _, o := range opts {
		var kids []*Node
		for _, k := range n.Kids {
			if k.Key == o {
				kids = append(kids, k)
			}
		}
		f := deref(c.get(v, o.Field, path))
		if !f.IsValid() {
			continue
		}
		p := path + "." + o.Field
		switch {
		case o.MapKey != "":
			if f.Kind() != reflect.Map {
				continue
			}
			if f.Len() != len(kids) {
				return fmt.Sprintf("%s has %d entries, written were %d", p, f.Len(), len(kids))
			}
			for _, k := range kids {
				e := f.MapIndex(reflect.ValueOf(k.Vals[0]).Convert(f.Type().Key()))
				if !e.IsValid() {
					return fmt.Sprintf("%s has no entry %s", p, k.Vals[0])
				}
				if d := c.Node(k, e, p+"["+k.Vals[0]+"]"); d != "" {
					return d
				}
			}
		case o.Rep:
			if f.Kind() != reflect.Slice {
				continue
			}
			if f.Len() != len(kids) {
				return fmt.Sprintf("%s has %d entries, written were %d", p, f.Len(), len(kids))
			}
			for i, k := range kids {
				if d := c.Node(k, f.Index(i), fmt.Sprintf("%s[%d]", p, i)); d != "" {
					return d
				}
			}
		case o.Direct:
			if len(kids) > 0 {
				if d := c.scalar(kids[0].Vals[0], f, p); d != "" {
					return d
				}
			} else if !isZero(f) && !(f.Kind() == reflect.String && f.String() == o.Deflt) {
				return fmt.Sprintf("%s is %s although not written", p, show(f))
			}
			if d := c.set(v, o.Field, len(kids) > 0, path); d != "" {
				return d
			}
		default:
			if len(kids) > 0 {
				if d := c.Node(kids[0], f, p); d != "" {
					return d
				}
			} else if !isZero(f) {
				return fmt.Sprintf("%s is %s although not written", p, show(f))
			}
			if d := c.set(v, o.Field, len(kids) > 0, path); d != "" {
				return d
			}
		}
	}
	return ""
}

// Module compares a written module with the parsed one.
func (c *Cmp) Module(m *Mod, v reflect.Value) string {
	v = deref(v)
	path := "module " + m.Node.Vals[0]
	if d := c.Node(m.Node, v, path); d != "" {
		return d
	}
	by := map[*ModKind][]*Obj{}
	for _, o := range m.Objs {
		by[o.Kind] = append(by[o.Kind], o)
	}
	for _, k := range ModKinds {
		f := deref(c.get(v, k.Field, "module"))
		if !f.IsValid() {
			continue
		}
		objs := by[k]
		p := path + "." + k.Field
		if k.ID == "" {
			if len(objs) > 0 {
				if d := c.Node(objs[0].Node, f, p); d != "" {
					return d
				}
			} else if !isZero(f) {
				return fmt.Sprintf("%s is %s although the file has none", p, show(f))
			}
			continue
		}
		if f.Kind() != reflect.Map {
			continue
		}
		for _, o := range objs {
			e := f.MapIndex(reflect.ValueOf(o.Name()).Convert(f.Type().Key()))
			if !e.IsValid() {
				return fmt.Sprintf("%s lacks %s, which the file defines (%d defined, %d found)", p, o.Name(), len(objs), f.Len())
			}
			if d := c.Node(o.Node, e, p+"["+o.Name()+"]"); d != "" {
				return d
			}
		}
		if f.Len() != len(objs) {
			return fmt.Sprintf("%s has %d objects, the file defines %d", p, f.Len(), len(objs))
		}
	}
	return ""
}

// Doc compares a written file with the parsed A2L.
func (c *Cmp) Doc(d *Doc, a interface{}) string {
	v := reflect.ValueOf(a)
	for _, x := range []struct {
		n *Node
		f string
	}{{d.Asap2, "Asap2Version"}, {d.A2mlV, "A2mlVersion"}} {
		f := c.get(v, x.f, "a2l")
		if x.n == nil {
			if !isZero(f) {
				return x.f + " is " + show(f) + " although not written"
			}
			continue
		}
		if df := c.Node(x.n, f, x.f); df != "" {
			return df
		}
	}
	pr := c.get(v, "Project", "a2l")
	if df := c.Node(d.Project, pr, "project"); df != "" {
		return df
	}
	h := c.get(pr, "header", "project")
	if d.Header == nil {
		if h.IsValid() && !isZero(h) {
			return "header is " + show(h) + " although not written"
		}
	} else if df := c.Node(d.Header, h, "header"); df != "" {
		return df
	}
	ms := deref(c.get(pr, "Modules", "project"))
	if !ms.IsValid() || ms.Kind() != reflect.Slice {
		return ""
	}
	if ms.Len() != len(d.Mods) {
		return fmt.Sprintf("%d modules parsed, the file has %d", ms.Len(), len(d.Mods))
	}
	for i, m := range d.Mods {
		if df := c.Module(m, ms.Index(i)); df != "" {
			return df
		}
	}
	return ""
}

// Dump writes a canonical text of any value, including unexported fields; zero fields are left out.
func Dump(sb *strings.Builder, v reflect.Value, skip map[string]bool) {
	v = deref(v)
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if skip[n] || isZero(v.Field(i)) {
				continue
			}
			sb.WriteString(n + ":")
			Dump(sb, v.Field(i), skip)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			Dump(sb, v.Index(i), skip)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		var es []kv
		for _, key := range v.MapKeys() {
			var kb strings.Builder
			Dump(&kb, key, skip)
			es = append(es, kv{kb.String(), v.MapIndex(key)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		sb.WriteString("map[")
		for _, e := range es {
			sb.WriteString(e.k + ":")
			Dump(sb, e.v, skip)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	default:
		sb.WriteString("<" + v.Kind().String() + ">")
	}
}

// DumpA2L is the canonical text of a parsed file.
func DumpA2L(a interface{}) string {
	var sb strings.Builder
	Dump(&sb, reflect.ValueOf(a), map[string]bool{"errors": true})
	return sb.String()
}
