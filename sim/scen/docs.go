package scen

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// DocGen makes documents.
type DocGen struct {
	R      *Rng
	Single bool   // objects have at most one member: one order only
	Size   int    // rough number of values
	BadRE  int    // percentage of "re" members that are not regular expressions
	Dup    int    // percentage of scalars that are not unique
	Broad  int    // percentage more of documents that are objects with many members
	Alike  bool   // documents are full of structures that are almost the same
	Salt   string // makes patterns unlike those of other runs
	Far    int    // percentage of patterns that differ from one another only after a long beginning, of this length
	FarLen int
	n      int
}

var names = []string{"a", "b", "c", "k", "id", "v", "s", "re", "tags", "sub", "x-y", "0", "3", "length", "名", "kids"}

func (g *DocGen) scalar() any {
	g.n++
	if g.R.P(g.Dup) {
		return Of[any](g.R, nil, true, false, 0.0, 1.0, "", "s", 2.5)
	}
	switch g.R.Pick(50, 30, 6, 3, 3, 3, 2) {
	case 0:
		return float64(g.n)
	case 1:
		return "s" + strconv.Itoa(g.n) + g.tail()
	case 2:
		return float64(g.n) + 0.5
	case 3:
		return -float64(g.n)
	case 4:
		return fmt.Sprintf("é\"%d\\\n", g.n)
	case 5:
		return Of[any](g.R, nil, true, false)
	default:
		return "<s&" + strconv.Itoa(g.n) + ">"
	}
}

// tail makes some strings longer.
func (g *DocGen) tail() string {
	if !g.R.P(25) {
		return ""
	}
	if g.R.P(15) { // alike for long
		return strings.Repeat("0", Of(g.R, 8, 16, 30, 32, 64, 128)) + strconv.Itoa(g.R.N(10))
	}
	return strings.Repeat(Of(g.R, "0", "é", "x", ",", "1,2"), g.R.In(1, 6))
}

func (g *DocGen) pattern() any {
	g.n++
	if g.R.P(g.BadRE) {
		return Of(g.R, "[", "(", "a**b(", "s[", "(?P<", "\\", "s{2,1}", "x)") + Of(g.R, "", strconv.Itoa(g.n))
	}
	if g.R.P(g.Far) { // patterns that differ late
		return g.Salt + strings.Repeat("y", g.FarLen) + "|" + Of(g.R, "[0-4]", "[5-9]", "s", "^s[1-3]", "^.{2}$", "0|1", "t$", "("+strconv.Itoa(g.n%10)+")")
	}
	switch g.R.N(6) {
	case 5:
		return strconv.Itoa(g.n%10) + "|" + g.Salt
	case 0:
		return "^s" + strconv.Itoa(g.n%10)
	case 1:
		return strconv.Itoa(g.n % 100)
	case 2:
		return "s|" + strconv.Itoa(g.n)
	case 3:
		return "[" + strconv.Itoa(g.n%10) + "-9]"
	default:
		return "^s[0-9]+$"
	}
}

func (g *DocGen) key() string { return names[g.R.N(len(names))] }

// value makes a random tree of about n values.
func (g *DocGen) value(n, depth int) any {
	if n <= 1 || depth <= 0 {
		if g.R.P(12) {
			if g.R.P(50) {
				return []any{}
			}
			return map[string]any{}
		}
		return g.scalar()
	}
	w := g.R.In(1, 6)
	if g.R.P(10) {
		w = g.R.In(6, 30)
	}
	if w > n {
		w = n
	}
	if g.R.P(50) {
		a := make([]any, 0, w)
		for i := 0; i < w; i++ {
			a = append(a, g.value((n-1)/w, depth-1))
		}
		return a
	}
	o := map[string]any{}
	if g.Single {
		w = 1
	}
	for i := 0; i < w; i++ {
		k := g.key()
		if i >= 8 {
			k += strconv.Itoa(i)
		}
		if k == "re" {
			o[k] = g.pattern()
			continue
		}
		o[k] = g.value((n-1)/w, depth-1)
	}
	return o
}

func (g *DocGen) item() any {
	g.n++
	id := float64(g.n)
	if g.Single {
		switch g.R.N(5) {
		case 0:
			return map[string]any{"id": id}
		case 1:
			return map[string]any{"s": "s" + strconv.Itoa(g.n)}
		case 2:
			return map[string]any{"sub": map[string]any{"id": id}}
		case 3:
			return map[string]any{"tags": []any{id, "s" + strconv.Itoa(g.n)}}
		default:
			return []any{id, map[string]any{"v": id}}
		}
	}
	o := map[string]any{"id": id, "s": "s" + strconv.Itoa(g.n) + g.tail()}
	if g.R.P(60) {
		o["v"] = g.scalar()
	}
	if g.R.P(70) {
		o["re"] = g.pattern()
	}
	if g.R.P(50) {
		t := []any{}
		like := g.R.N(3)
		for i := g.R.N(5); i > 0; i-- {
			switch like {
			case 0:
				t = append(t, g.scalar())
			case 1:
				t = append(t, float64(g.R.N(50)))
			default:
				t = append(t, Of(g.R, "s", "t", "")+strconv.Itoa(g.R.N(50)))
			}
		}
		o["tags"] = t
	}
	if g.R.P(30) {
		o["sub"] = g.value(g.R.In(1, 6), 2)
	}
	if g.R.P(3) {
		w := map[string]any{}
		for i := g.R.In(5, 60); i > 0; i-- {
			w[g.key()+strconv.Itoa(i)] = g.scalar()
		}
		o["w"] = w
	}
	if g.R.P(15) {
		k := []any{}
		for i := g.R.N(3); i > 0; i-- {
			g.n++
			k = append(k, map[string]any{"id": float64(g.n), "s": "s" + strconv.Itoa(g.n)})
		}
		o["kids"] = k
	}
	return o
}

// vary makes a copy of v that is the same or almost so.
func (g *DocGen) vary(v any, p int) any {
	if g.R.P(p) {
		return Of[any](g.R, nil, 0.0, 1.0, "", "s", "1", true, false, []any{}, map[string]any{}, g.scalar())
	}
	switch v := v.(type) {
	case []any:
		a := make([]any, 0, len(v))
		for _, e := range v {
			a = append(a, g.vary(e, p))
		}
		if len(a) > 0 && g.R.P(p) {
			a = a[:len(a)-1]
		}
		return a
	case map[string]any:
		o := map[string]any{}
		for _, k := range sortedKeys(v) {
			if g.R.P(p) {
				if !g.Single {
					o[Of(g.R, "k", "id", "v", "w")] = g.vary(v[k], p)
				}
				continue
			}
			o[k] = g.vary(v[k], p)
		}
		return o
	}
	return v
}

// alike makes a document of structures that are nearly the same.
func (g *DocGen) alike() any {
	var proto any = []any{g.scalar(), nil, map[string]any{"id": g.scalar()}}
	if g.R.P(75) {
		o := map[string]any{"x": g.scalar()}
		if !g.Single {
			for i := g.R.In(1, 5); i > 0; i-- {
				o[g.key()] = Of[any](g.R, nil, g.scalar(), g.scalar(), []any{g.scalar()}, map[string]any{"y": nil}, 0.0)
			}
		}
		delete(o, "re")
		proto = o
	}
	l := []any{}
	for i := g.Size/10 + 2; i > 0; i-- {
		l = append(l, g.vary(proto, Of(g.R, 0, 3, 10, 20)))
	}
	if g.Single || g.R.P(40) {
		return l
	}
	return map[string]any{"a": l, "b": g.vary(proto, 10), "c": []any{g.vary(proto, 5), g.vary(proto, 10)}, "v": g.scalar()}
}

// Chain makes a document of depth d.
func (g *DocGen) Chain(d int) any {
	v := g.scalar()
	if g.R.P(60) { // something to find at the bottom
		v = g.value(g.R.In(2, 30), 3)
	}
	arrays := Of(g.R, 50, 50, 50, 0, 100)
	for i := 0; i < d; i++ {
		if g.R.P(arrays) {
			switch {
			case g.R.P(5):
				v = []any{Of[any](g.R, []any{}, []any{g.scalar()}, map[string]any{"id": g.scalar()}), v}
			case g.R.P(3):
				v = []any{v, map[string]any{"id": g.scalar()}}
			case g.R.P(15):
				v = []any{v, g.scalar()}
			case g.R.P(5):
				v = []any{g.scalar(), v}
			default:
				v = []any{v}
			}
		} else {
			o := map[string]any{Of(g.R, "a", "b", "kids"): v}
			if !g.Single && g.R.P(20) {
				o["id"] = g.scalar()
			}
			if !g.Single && g.R.P(3) {
				o["sub"] = []any{g.scalar()}
			}
			v = o
		}
	}
	return v
}

// Wide makes an array of n values, or an object.
func (g *DocGen) Wide(n int) any {
	if !g.Single && g.R.P(25) {
		o := map[string]any{}
		kind := g.R.N(4)
		for i := g.R.In(n/50, n/25); i >= 0; i-- {
			var v any = []any{float64(i)}
			switch {
			case kind == 1:
				v = map[string]any{"id": float64(i), "s": "s"}
			case kind == 2 && i%3 == 0:
				v = float64(i)
			case kind == 3:
				v = g.scalar()
			}
			o["m"+strconv.Itoa(i)] = v
		}
		if g.R.P(50) {
			return map[string]any{"a": o}
		}
		return o
	}
	a := make([]any, 0, n)
	kind, only := g.R.Pick(20, 35, 30, 15), g.R.P(60)
	var same any = []any{g.scalar()}
	for i := 0; i < n; i++ {
		switch k := g.R.N(200); {
		case kind == 1 && (only || k > 2):
			a = append(a, []any{float64(i)})
		case kind == 2 && (only || k > 2):
			a = append(a, map[string]any{"id": float64(i)})
		case kind == 3:
			a = append(a, same)
		case k == 0:
			a = append(a, []any{})
		case k == 1:
			a = append(a, map[string]any{"a": []any{g.scalar()}})
		default:
			a = append(a, g.scalar())
		}
	}
	if !g.R.P(50) {
		return a
	}
	return map[string]any{"a": a}
}

// EditDoc makes a few changes to a document, as its owner might between two evaluations, calling yield in between.
func EditDoc(v any, seed uint64, yield func()) {
	r := NewRng(seed)
	g := &DocGen{R: r, Dup: 40}
	for k := r.In(1, 4); k > 0; k-- {
		var l []any
		var find func(v any)
		find = func(v any) {
			if len(l) >= 5000 {
				return
			}
			switch v := v.(type) {
			case []any:
				l = append(l, v)
				for _, e := range v {
					find(e)
				}
			case map[string]any:
				l = append(l, v)
				for _, k := range sortedKeys(v) {
					find(v[k])
				}
			}
		}
		find(v)
		if len(l) == 0 {
			return
		}
		g.n = r.N(40)
		c := l[r.N(len(l))]
		if r.P(40) {
			c = l[r.N(len(l))%((len(l)+3)/4)] // near the top
		}
		var x any = g.scalar()
		if r.P(15) {
			x = g.pattern()
		}
		if r.P(15) {
			x = Of[any](r, []any{}, map[string]any{}, []any{x}, map[string]any{"id": x})
		}
		switch c := c.(type) {
		case []any:
			if len(c) == 0 {
				continue
			}
			i, j := r.N(len(c)), r.N(len(c))
			if r.P(40) {
				c[i], c[j] = c[j], c[i]
			} else {
				c[i] = x
			}
		case map[string]any:
			ks := sortedKeys(c)
			if len(ks) == 0 {
				c[g.key()] = x
				continue
			}
			key := ks[r.N(len(ks))]
			switch {
			case r.P(20):
				delete(c, key)
				c[Of(r, "a", "b", "id", "v")] = x
			case r.P(15) && len(ks) > 1:
				delete(c, key)
			default:
				c[key] = x
			}
		}
		yield()
	}
}

// nearly is a name that somebody might take for k.
func nearly(r *Rng, k string) string {
	for i := 0; i < 5; i++ {
		n := k
		switch r.Pick(30, 20, 20, 8, 8, 8, 6) {
		case 0:
			n = strings.ToUpper(k)
		case 1:
			if k != "" && k[0] < 0x80 {
				n = strings.ToUpper(k[:1]) + k[1:]
			}
		case 2: // change the case of one letter
			b := []byte(k)
			if len(b) > 0 {
				if c := &b[r.N(len(b))]; *c >= 'a' && *c <= 'z' || *c >= 'A' && *c <= 'Z' {
					*c ^= 0x20
				}
			}
			n = string(b)
		case 3:
			n = k + " "
		case 4:
			n = "0" + k
		case 5:
			n = k + Of(r, "_", "-", "s", "\u0301", ".0")
		default:
			if k != "" && k[len(k)-1] < 0x80 {
				n = k[:len(k)-1]
			}
		}
		if n != k {
			return n
		}
	}
	return k
}

// near adds members with almost the same names to some objects of v.
func (g *DocGen) near(v any) {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			g.near(e)
		}
	case map[string]any:
		ks := sortedKeys(v)
		for _, k := range ks {
			g.near(v[k])
		}
		if len(ks) == 0 || !g.R.P(50) {
			return
		}
		k := ks[g.R.N(len(ks))]
		for i := g.R.In(1, 4); i > 0; i-- {
			n := nearly(g.R, k)
			if _, ok := v[n]; !ok && n != "re" {
				v[n] = g.scalar()
			}
		}
	}
}

// Doc makes a document.
func (g *DocGen) Doc() any {
	v := g.doc()
	if !g.Single && g.R.P(10) {
		g.near(v)
	}
	return v
}

func (g *DocGen) doc() any {
	n := g.Size
	if g.Alike {
		return g.alike()
	}
	kind := g.R.Pick(30, 30, 8, 8, 8, 6, 6, 4)
	if g.R.P(g.Broad) {
		kind = 6
		n += 20
	}
	switch kind {
	case 0: // catalogue
		m := n/6 + 1
		items := make([]any, 0, m)
		for i := 0; i < m; i++ {
			if g.R.P(8) {
				items = append(items, g.scalar())
			} else if g.R.P(4) {
				items = append(items, Of[any](g.R, []any{}, map[string]any{}, []any{[]any{}}))
			} else {
				items = append(items, g.item())
			}
		}
		if g.Single || g.R.P(40) {
			if g.R.P(50) {
				return map[string]any{"a": items}
			}
			return items
		}
		o := map[string]any{"a": items, "v": g.scalar(), "re": g.pattern(), "b": []any{g.scalar(), g.scalar(), g.scalar()}}
		if g.R.P(40) {
			o["c"] = g.value(8, 3)
		}
		return o
	case 1:
		return g.value(n, g.R.In(2, 8))
	case 2: // wide and mixed
		a := make([]any, 0, n)
		for i := 0; i < n; i++ {
			switch g.R.Pick(70, 10, 10, 10) {
			case 0:
				a = append(a, g.scalar())
			case 1:
				a = append(a, []any{g.scalar()})
			case 2:
				a = append(a, map[string]any{g.key(): g.scalar()})
			default:
				a = append(a, Of[any](g.R, []any{}, map[string]any{}, nil))
			}
		}
		return a
	case 3: // deep
		d := n / 2
		if d > 800 {
			d = 800
		}
		return g.Chain(d)
	case 4: // matrix
		m := g.R.In(1, 8)
		a := []any{}
		like := g.R.N(3)
		for i := 0; i <= n/(m+1); i++ {
			row := []any{}
			for j := g.R.N(m + 1); j > 0; j-- {
				switch like {
				case 0:
					row = append(row, g.scalar())
				case 1:
					row = append(row, float64(g.R.N(50)))
				default:
					row = append(row, "s"+strconv.Itoa(g.R.N(50)))
				}
			}
			a = append(a, row)
		}
		return a
	case 5: // trivial
		return Of[any](g.R, []any{}, map[string]any{}, nil, true, "s1", 1.0, []any{[]any{}}, []any{nil}, map[string]any{"a": nil},
			[]any{map[string]any{}}, map[string]any{"a": []any{}}, []any{[]any{}, []any{}, map[string]any{}})
	case 6: // wide object
		o := map[string]any{}
		m := n
		if g.Single {
			m = 1
		}
		full := Of(g.R, 5, 5, 5, 50, 100)
		if m > 10 && !g.Single && g.R.P(4) {
			m = g.R.In(200, 2000)
		}
		for i := 0; i < m; i++ {
			if g.R.P(full) {
				o["m"+strconv.Itoa(i)] = g.value(Of(g.R, 2, 5), 2)
				continue
			}
			o["m"+strconv.Itoa(i)] = g.scalar()
		}
		if !g.Single {
			o["a"] = []any{g.scalar(), map[string]any{"id": g.scalar()}}
		}
		return o
	default: // the same small structures many times over
		var x any = []any{g.scalar(), []any{g.scalar()}}
		if g.R.P(50) {
			x = map[string]any{"a": []any{g.scalar(), g.scalar()}}
		}
		a := []any{}
		for i := 0; i <= n/4; i++ {
			a = append(a, x)
		}
		return a
	}
}

// JSONText writes v as JSON, with members in an order chosen by r, and blanks if ws.
func JSONText(v any, r *Rng, ws bool) string {
	var sb strings.Builder
	jsonText(&sb, v, r, ws)
	return sb.String()
}

func jsonText(sb *strings.Builder, v any, r *Rng, ws bool) {
	sp := func() {
		if ws && r.P(15) {
			sb.WriteByte(" \t\n"[r.N(3)])
		}
	}
	switch v := v.(type) {
	case nil:
		sb.WriteString("null")
	case bool:
		sb.WriteString(strconv.FormatBool(v))
	case float64:
		sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
	case string:
		jsonString(sb, v, r)
	case []any:
		sb.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(',')
			}
			sp()
			jsonText(sb, e, r, ws)
			sp()
		}
		sb.WriteByte(']')
	case map[string]any:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i := len(ks) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
		sb.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			sp()
			jsonString(sb, k, r)
			sp()
			sb.WriteByte(':')
			sp()
			jsonText(sb, v[k], r, ws)
			sp()
		}
		sb.WriteByte('}')
	default:
		panic(fmt.Sprintf("jsonText %T", v))
	}
}

func jsonString(sb *strings.Builder, s string, r *Rng) {
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(c)
		case c == '\n':
			sb.WriteString(`\n`)
		case c < 0x20 || c < 0x10000 && r.P(1):
			fmt.Fprintf(sb, `\u%04x`, c)
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
}
