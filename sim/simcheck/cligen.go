package main

// Makes up runs of jpath.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"syscall"

	"verifsim/model"
	"verifsim/scen"
)

const manyIn1000 = 6 // runs with a great many values

var (
	readErrs  = []syscall.Errno{syscall.EIO, syscall.EISDIR, syscall.ESTALE, syscall.ETIMEDOUT, syscall.ENXIO, syscall.EOVERFLOW, syscall.ENOMEM}
	openErrs  = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.ELOOP, syscall.ENFILE, syscall.ENOMEM, syscall.ENXIO}
	writeErrs = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE, syscall.EDQUOT, syscall.EFBIG}
)

// plan makes up how calls transfer n bytes.
func plan(r *scen.Rng, n int) []uint64 {
	low := 1
	if n > 20000 {
		low = n/4000 + 1
	}
	one := func() uint64 {
		switch r.Pick(25, 30, 20, 15, 10) {
		case 0:
			return uint64(low)
		case 1:
			return uint64(low + r.N(7))
		case 2:
			return uint64(low + r.N(100))
		case 3:
			return scen.Of[uint64](r, 511, 512, 513, 4095, 4096, 65536)
		default:
			return uint64(low + r.N(n+1))
		}
	}
	var p []uint64
	switch r.Pick(25, 25, 50) {
	case 0:
		return nil
	case 1:
		p = []uint64{one()}
	default:
		for i := r.In(1, 8); i > 0; i-- {
			p = append(p, one())
		}
	}
	if r.P(45) { // interruptions
		for i := r.In(1, 3); i > 0; i-- {
			at := r.N(len(p) + 1)
			p = append(p[:at:at], append([]uint64{0}, p[at:]...)...)
		}
		if r.P(5) && n < 3000 { // a storm of them
			p = append(make([]uint64, r.In(5, 25)), p...)
		}
	}
	return p
}

// cliGen makes the parts of a run.
type cliGen struct {
	r     *scen.Rng
	prop  string
	k     *cliCase
	dg    *scen.DocGen
	fails bool // evaluation may fail
	one   bool // one order of results only
	tiny  bool // only very small values
	re    bool // values are lists of objects with patterns that are all different
}

// doc makes a value for the path, unless there is none yet.
func (g *cliGen) doc() any {
	r := g.r
	if g.re {
		l := []any{}
		for i := r.In(1, 8); i > 0; i-- {
			re := scen.Of(r, "^s|", "[0-9]|", "^s[0-9]+$|", "x|.|") + mark + scen.Of(r, "", "+", "x")
			l = append(l, map[string]any{"s": fmt.Sprint("s", r.N(1000)), "re": re})
		}
		return l
	}
	if g.tiny {
		return scen.Of[any](r, nil, true, 0.0, 12.0, -7.5, "", "s1", []any{}, map[string]any{}, []any{1.0}, []any{2.0, "x"}, map[string]any{"a": 3.0})
	}
	switch r.Pick(72, 18, 10) {
	case 0:
		g.dg.Size = []int{r.In(1, 8), r.In(5, 40), r.In(30, 120)}[r.Pick(45, 40, 15)]
		return g.dg.Doc()
	case 1:
		return scen.Of[any](r, nil, true, false, 0.0, 12.0, -7.5, 1e21, "", "s1", "x\"y\\z\n", "é名😀", 1234567.0, "<&>", []any{}, map[string]any{})
	default:
		n := r.In(1, 300)
		if r.P(30) {
			n = r.In(1000, 9000)
		}
		return scen.Of[any](r, strings.Repeat("x", n), []any{strings.Repeat("long ", n)}, map[string]any{"a": strings.Repeat("\n", n)})
	}
}

// value makes a value whose results are known.
func (g *cliGen) value() any {
	r := g.r
	for i := 0; ; i++ {
		v := g.doc()
		if i > 60 {
			v = nil
		}
		o := model.Eval(g.k.Path.AST, v)
		if i <= 60 && (o.Limit || o.Err && (!g.fails || i <= 30 && r.P(70)) || g.one && !o.Err && !o.Tree.Single() || !o.Err && o.Tree.N > 3000) {
			continue
		}
		return v
	}
}

// failing makes a value that cannot be evaluated, if it can find one.
func (g *cliGen) failing() (any, bool) {
	for i := 0; i < 40; i++ {
		v := g.doc()
		if o := model.Eval(g.k.Path.AST, v); o.Err && !o.Limit {
			return v, true
		}
	}
	return nil, false
}

func (g *cliGen) path() {
	r := g.r
	g.dg = &scen.DocGen{R: r, Single: g.one && r.P(70)}
	g.dg.Size = r.In(5, 60)
	if g.fails {
		g.dg.BadRE = r.In(5, 40)
	}
	pg := &scen.PathGen{R: r, Doc: g.dg.Doc(), Filter: 25, Nest: 30, Ordered: g.one}
	n := r.N(5)
	if r.P(30) {
		n = 0
	}
	var p model.Path
	if g.fails {
		pg.Dyn = r.In(10, 60)
		pg.Err = r.In(20, 80)
		pg.Filter = 80
		n = r.In(1, 4)
		for i := 0; i < 6; i++ {
			p = pg.Path(n)
			g.k.Path = scen.PathSpec{AST: p, Text: p.Text(model.Plain)}
			if _, ok := g.failing(); ok {
				return
			}
		}
		return
	}
	if n > 0 {
		p = pg.Path(n)
	}
	g.k.Path = scen.PathSpec{AST: p, Text: p.Text(model.Plain)}
}

// line writes v on one line.
func (g *cliGen) line(v any) string {
	r := g.r
	s := scen.JSONText(v, r, r.P(30))
	s = strings.ReplaceAll(s, "\n", " ")
	if r.P(10) {
		s = strings.Repeat(" ", r.N(3)) + s + scen.Of(r, "", " ", "\t", "\r")
	}
	return s
}

// long lengthens a line.
func (g *cliGen) long(s string) string {
	r := g.r
	n := scen.Of(r, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 131072, 70000, 262145) + r.In(-2, 2)
	if r.P(3) {
		n = r.In(1<<20, 3<<20)
		if r.P(20) {
			n = scen.Of(r, 4<<20, 8<<20, 16<<20, 20<<20) + r.In(-2, 2)
		}
	}
	if n <= len(s)+2 {
		return s
	}
	pad := n - len(s)
	switch r.N(3) {
	case 0:
		return s + strings.Repeat(" ", pad)
	case 1:
		return strings.Repeat(" ", pad) + s
	default: // a value instead
		if n < 10 {
			return s
		}
		v := any(strings.Repeat("v", n-4))
		o := model.Eval(g.k.Path.AST, []any{v})
		if o.Err || o.Limit {
			return s
		}
		return `["` + v.(string) + `"]`
	}
}

// content makes a stream of values.
func (g *cliGen) content(n int) []byte {
	r := g.r
	var sb strings.Builder
	bad := -1
	if g.fails && n > 0 {
		bad = r.N(n)
	}
	next := func(i int) any {
		if i == bad {
			if v, ok := g.failing(); ok {
				return v
			}
		}
		return g.value()
	}
	if g.k.Lines {
		for i := 0; i < n; i++ {
			s := g.line(next(i))
			if r.P(map[bool]int{true: 12, false: 2}[g.prop == "C13"]) {
				s = g.long(s)
			}
			sb.WriteString(s)
			if i < n-1 || r.P(70) {
				sb.WriteString("\n")
			}
		}
		return []byte(sb.String())
	}
	ws := func(must bool) {
		if !must && r.P(30) {
			return
		}
		sb.WriteString(scen.Of(r, " ", "\n", "\n", "\n", "\t", "\r\n", "\n\n", "  \n "))
	}
	if r.P(10) {
		ws(false)
	}
	for i := 0; i < n; i++ {
		v := next(i)
		s := scen.JSONText(v, r, r.P(40))
		if r.P(3) {
			s += strings.Repeat(" ", r.In(1, 5000))
		}
		sb.WriteString(s)
		if i == n-1 {
			if r.P(70) {
				ws(false)
			}
			break
		}
		switch v.(type) {
		case []any, map[string]any:
			ws(false)
		default:
			ws(true)
		}
	}
	return []byte(sb.String())
}

func (g *cliGen) count() int {
	r := g.r
	return []int{0, 1, r.In(2, 5), r.In(3, 15), r.In(20, 80)}[r.Pick(5, 15, 40, 33, 7)]
}

// many puts a great many small values before the content.
func (g *cliGen) many(f *cliFile) {
	r := g.r
	for i := 0; i < 20; i++ {
		s := scen.Of(r, "1", "[]", "{}", "null", "true", `""`, "-3", `"ab"`, " 7")
		var v any
		json.Unmarshal([]byte(s), &v)
		if o := model.Eval(g.k.Path.AST, v); o.Err || o.Limit || g.one && !o.Tree.Single() {
			continue
		}
		n := scen.Of(r, 65536, 70000, 90000, 131072, 150000) + r.In(-3, 3)
		f.set(append(bytes.Repeat([]byte(s+"\n"), n), f.data()...))
		return
	}
}

// damage spoils the content.
func (g *cliGen) damage(f *cliFile) {
	r := g.r
	b := append([]byte{}, f.data()...)
	if len(b) == 0 {
		return
	}
	at := r.N(len(b))
	switch r.N(5) {
	case 4:
		if n := bytes.IndexByte(b[at:], '\n'); n >= 0 && r.P(80) { // between values
			at += n + 1
		}
		odd := g.odd()
		b = append(b[:at:at], append([]byte(odd), b[at:]...)...)
		f.Damage = fmt.Sprintf("%q inserted at %d", odd, at)
	case 0, 1:
		b = b[:at]
		f.Damage = fmt.Sprintf("truncated at %d", at)
	case 2:
		c := b[at]
		b[at] = scen.Of[byte](r, '}', ']', '"', ',', 'x', 0, 0xff, '{', '[', ':', '\\', '\n', c^1)
		f.Damage = fmt.Sprintf("byte %d changed from %q to %q", at, c, b[at])
	default:
		n := r.In(1, 20)
		if at+n > len(b) {
			n = len(b) - at
		}
		b = append(b[:at:at], b[at+n:]...)
		f.Damage = fmt.Sprintf("%d bytes lost at %d", n, at)
	}
	f.set(b)
}

// odd is something that's not part of any JSON value, but might be thought to be of no consequence.
func (g *cliGen) odd() string {
	if g.r.P(25) {
		return string(rune(g.r.N(32)))
	}
	return scen.Of(g.r, "\ufeff", "\u00a0", "\v", "\f", "\x00", "\u2028", "\u0085", "\b", "\x1e", "\x1a", "\x04", "\x7f", "#", "//", ",", ";", "\ufeff ",
		"#!", "--", "---", "...", "/*", "data: ", "\\", "'", "`", ":", "+", ")]}'", "\xff\xfe", "<", "EOF", "NaN", "undefined")
}

// readFault makes reading fail somewhere.
func (g *cliGen) readFault(f *cliFile) {
	r := g.r
	b := f.data()
	at := r.N(len(b) + 1)
	switch r.N(4) {
	case 0: // near the end of a value
		for i := 0; i < 50 && at < len(b); i++ {
			switch b[at] {
			case '\n', '}', ']', '"':
				i = 50
				at += r.In(0, 1)
			default:
				at++
			}
		}
	case 1:
		at = scen.Of(r, 0, len(b), len(b)/2, 512, 4096, 65536)
		if at > len(b) {
			at = len(b)
		}
	}
	f.ReadAt = int64(at)
	f.ReadErr = int(scen.Of(r, readErrs...))
	f.Sticky = r.P(70)
}

// spoil makes the content something other than a sequence of values.
func (g *cliGen) spoil(f *cliFile) {
	r := g.r
	if !g.k.Lines {
		g.damage(f)
		return
	}
	switch r.N(5) {
	case 2: // a line with something about it that only looks like white space
		l := strings.Split(string(f.data()), "\n")
		if i := r.N(len(l)); strings.TrimSpace(l[i]) != "" {
			odd := g.odd()
			if r.P(65) {
				l[i] = odd + l[i]
			} else {
				l[i] += odd
			}
			f.set([]byte(strings.Join(l, "\n")))
			f.Damage = "odd space"
		}
	case 0: // a line that's no value, or two
		l := strings.Split(string(f.data()), "\n")
		i := r.N(len(l))
		bad := scen.Of(r, "", g.odd(), g.odd()+" 1", " ", "1 2", "{}[]", "[1", "x", "{\"a\":}", "nul", "\"a", "[1,]", "1,2", "[] x")
		l = append(l[:i:i], append([]string{bad}, l[i:]...)...)
		if i < len(l)-1 || bad != "" {
			f.set([]byte(strings.Join(l, "\n")))
			f.Damage = "bad line"
		}
	case 1: // a value over two lines
		b := string(f.data())
		if i := strings.Index(b, ","); i > 0 {
			f.set([]byte(b[:i] + "\n" + b[i:]))
			f.Damage = "line broken"
		}
	default:
		g.damage(f)
	}
}

// stream makes the input a long one.
func (g *cliGen) stream() {
	r, k := g.r, g.k
	i := k.inputs()[0]
	f := &k.Files[i]
	tries := 0
	g.tiny = r.P(30)
	if !g.tiny && r.P(15) { // patterns from the values
		g.re = true
		k.Path = scen.PathSpec{AST: scen.MatchPath(r.P(30))}
		k.Path.Text = k.Path.AST.Text(model.Plain)
	}
	another := func() {
		if tries++; tries < 30 {
			g.path()
			return
		}
		g.re = false
		k.Path = scen.PathSpec{}
		k.Path.Text = k.Path.AST.Text(model.Plain)
	}
	for n := r.In(3, 30); ; n++ {
		b := g.content(n)
		if len(b) > 0 && b[len(b)-1] != '\n' {
			b = append(b, '\n')
		}
		plain := b
		if g.re { // spell serial numbers without escapes
			b = bytes.ReplaceAll(b, []byte(`\u3050`), []byte("\u3050"))
			plain = bytes.ReplaceAll(b, []byte(mark), []byte("z"))
		} else if r.P(80) {
			b = marked(b, r)
		}
		f.set(b)
		x := k.expect()
		if !k.countsUp(f, x) { // counting changes more than the numbers
			b = plain
			f.set(b)
			x = k.expect()
		}
		if x.fail != "" || x.limit {
			another()
			continue
		}
		due := 0
		for _, o := range x.must {
			due += len(brief2(leaves(o.Tree))) + 1
		}
		if len(b) < 200 || len(b) > 120000 {
			if n > 60 {
				n = 2
			}
			continue
		}
		if due < len(b)/5 { // little comes out: results must outnumber any reasonable buffer
			another()
			continue
		}
		f.Times = int64(min(r.In(streamOut, 2*streamOut)/due, 250000/n) + 1)
		if g.tiny {
			f.Times = int64(r.In(streamTiny, 2*streamTiny)/n + 1)
		}
		break
	}
	total := int64(len(f.data())) * f.Times
	if i > 0 && f.Times >= 4 && r.P(50) { // the same, read from a file that's named often
		n := min(int64(scen.Of(r, 2, 5, 30, 200, 1500)), f.Times/2)
		f.Times /= n
		for k.Args = nil; n > 0; n-- {
			k.Args = append(k.Args, i)
		}
	}
	f.Plan = nil
	if r.P(60) {
		f.Plan = plan(r, int(total))
	}
	if r.P(40) {
		k.OutPlan = plan(r, int(total))
	}
	if r.P(15) { // nobody listens any more
		k.OutAt, k.OutErr, k.OutSticky = int64(r.N(int(total/5))), int(scen.Of(r, writeErrs...)), true
		if r.P(25) {
			k.OutAt = 0
		}
	}
	if len(k.Args) > 1 {
		return
	}
	switch r.Pick(70, 20, 10) {
	case 1:
		f.ReadAt, f.ReadErr, f.Sticky = total, int(scen.Of(r, readErrs...)), r.P(70)
	case 2:
		f.ReadAt, f.ReadErr, f.Sticky = total-int64(r.N(len(f.data()))), int(scen.Of(r, readErrs...)), true
	}
}

const mark = "\u3050\u3050\u3050\u3050\u3050\u3050" // a serial number, 0

// marked appends serial numbers to some strings of a JSON text.
func marked(text []byte, r *scen.Rng) []byte {
	var b []byte
	in := false
	p, keys := scen.Of(r, 5, 20, 100), r.P(20)
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == '"' {
			key := bytes.HasPrefix(bytes.TrimLeft(text[i+1:], " \t\r\n"), []byte(":"))
			if in && r.P(p) && (!key || keys) {
				b = append(b, mark...)
			}
			in = !in
		}
		b = append(b, c)
		if c == '\\' && in {
			i++
			b = append(b, text[i])
		}
	}
	return b
}

// counted returns the text with serial number n.
func counted(text []byte, n int) []byte {
	s := []rune{}
	for d := 5; d >= 0; d-- {
		s = append(s, 0x3050+rune(n>>(4*d)&15))
	}
	return bytes.ReplaceAll(text, []byte(mark), []byte(string(s)))
}

// countsUp says whether other serial numbers in an input make no other difference to the results.
func (k *cliCase) countsUp(f *cliFile, x *cliExpect) bool {
	text := f.data()
	if !bytes.Contains(text, []byte(mark)) {
		return true
	}
	defer f.set(text)
	for _, n := range []int{0x123456, 0xfedcba, 7} {
		f.set(counted(text, n))
		y := k.expect()
		if y.fail != x.fail || y.limit != x.limit || len(x.must) != len(y.must) {
			return false
		}
		for i := range x.must {
			if string(counted([]byte(brief2(leaves(x.must[i].Tree))), n)) != brief2(leaves(y.must[i].Tree)) {
				return false
			}
		}
	}
	return true
}

// badPaths are texts that Compile rejects.
var badPaths []string

func mode(r *scen.Rng) uint64 {
	return []uint64{0, syscall.S_IFIFO, syscall.S_IFCHR}[r.Pick(60, 30, 10)]
}

// genCLI makes run n. For C12, it is the one without trouble in writing.
func genCLI(prop string, seed uint64, n int) (*cliCase, *scen.Rng) {
	r := scen.NewRng(seed, uint64(prop[1])<<8|uint64(prop[2]), 77, uint64(n))
	k := &cliCase{OutAt: -1}
	g := &cliGen{r: r, prop: prop, k: k}
	switch prop {
	case "C10":
		k.Lines = r.P(25)
	case "C13":
		k.Lines = true
	case "C16":
	default:
		k.Lines = r.P(45)
	}
	g.one = prop == "C12" || prop == "C18" || prop == "C14" && r.P(60)
	g.fails = prop == "C11" && r.P(30) || prop == "C15" && r.P(50) || (prop == "C12" || prop == "C14") && r.P(8)
	g.path()
	stdin := cliFile{ReadAt: -1, Mode: mode(r)}
	nfiles := 0
	switch prop {
	case "C14":
		nfiles = r.In(1, 4)
		if r.P(25) {
			nfiles = r.In(5, 14)
		}
	case "C13":
	case "C15", "C16":
		nfiles = r.In(0, 3)
	case "C18":
		if r.P(30) {
			nfiles = 1
		}
	default:
		if r.P(25) {
			nfiles = 1
		}
	}
	k.Files = []cliFile{stdin}
	dirs := []string{"", "", "", "data/", "/in/", "../"}
	words := []string{"alpha", scen.Of(r, "beta", "beta", "b*", "[ab]eta", "bet?"), scen.Of(r, "gamma", "gamma", "~", "$HOME", "%41", "a,b", "g:1", "g;h", "*"), "delta", "epsilon", "zeta", "eta-file", "theta", "iota x", "kappa", "lambda-名", "mu-file", "nu-file", "-xi"}
	for i := 0; i < nfiles; i++ {
		f := cliFile{Name: scen.Of(r, dirs...) + words[i] + scen.Of(r, ".json", ".txt", ""), ReadAt: -1, Mode: mode(r)}
		if prev := k.Files[r.N(i+1)].Name; prev != "" && r.P(15) { // almost the same name
			name := path.Base(prev)
			switch ext := path.Ext(name); r.N(4) {
			case 0:
				name = strings.TrimSuffix(name, ext) + scen.Of(r, ".json", ".txt", "", ".json.gz")
			case 1:
				name = strings.ToUpper(name)
			}
			name = scen.Of(r, append(dirs[:len(dirs):len(dirs)], strings.TrimSuffix(prev, path.Base(prev)))...) + name
			for j := range k.Files {
				if k.Files[j].Name == name {
					name = f.Name
				}
			}
			f.Name = name
		}
		k.Files = append(k.Files, f)
		k.Args = append(k.Args, i+1)
	}
	if nfiles > 1 && r.P(15) { // a file named twice
		k.Args = append(k.Args, r.In(1, nfiles))
	}
	used := k.inputs()
	for i := range k.Files {
		c := g.count()
		if nfiles > 1 {
			c = []int{0, 1, r.In(1, 4), r.In(3, 10)}[r.Pick(10, 30, 40, 20)]
		}
		f := &k.Files[i]
		if i == 0 && nfiles > 0 {
			f.set([]byte("[not to be read"))
			continue
		}
		b := g.content(c)
		if prop == "C12" && len(b) > 0 && r.P(50) { // more output than is buffered
			for len(b) < 6000 {
				b = append(append(b, '\n'), b...)
			}
			if k.Lines {
				var l []string
				for _, s := range strings.Split(string(b), "\n") {
					if strings.TrimSpace(s) != "" {
						l = append(l, s)
					}
				}
				b = []byte(strings.Join(l, "\n") + "\n")
			}
		}
		f.set(b)
	}
	switch prop {
	case "C10", "C11", "C13", "C14", "C15":
		if r.N(1000) < manyIn1000 {
			g.many(&k.Files[used[r.N(len(used))]])
		}
	}
	transient := func() {
		for i := range k.Files {
			if r.P(15) { // it has grown or shrunk, or isn't what it seems
				k.Files[i].Size = scen.Of(r, -int64(len(k.Files[i].data())), -1, 1, -int64(r.N(5000)), int64(r.N(5000)), 1<<20)
			}
			if i > 0 || len(k.Args) == 0 {
				if r.P(75) {
					k.Files[i].Plan = plan(r, len(k.Files[i].data()))
				}
			}
		}
		if r.P(60) {
			k.OutPlan = plan(r, 5000)
		}
	}
	switch prop {
	case "C10":
		transient()
	case "C11":
		f := &k.Files[used[0]]
		if r.P(70) {
			transient()
		}
		if !g.fails || r.P(20) {
			switch r.Pick(50, 40, 10) {
			case 0:
				g.readFault(f)
			case 1:
				g.damage(f)
			default:
				g.damage(f)
				g.readFault(f)
			}
		}
		if r.P(6) {
			k.ErrErr = int(syscall.EIO)
		}
	case "C12":
		if r.P(40) {
			transient()
		}
		k.OutPlan = nil
		if r.P(12) {
			g.damage(&k.Files[used[0]])
		}
		if r.P(8) {
			g.readFault(&k.Files[used[0]])
		}
	case "C13":
		if r.P(80) {
			transient()
		}
		if r.P(35) {
			g.spoil(&k.Files[0])
		}
	case "C15":
		if r.P(80) {
			transient()
		}
		if i := used[r.N(len(used))]; !g.fails || r.P(20) {
			switch r.Pick(80, 12, 8) {
			case 0:
				g.spoil(&k.Files[i])
			case 1:
				g.readFault(&k.Files[i])
			default:
				if i > 0 {
					k.Files[i].OpenErr = int(scen.Of(r, openErrs...))
				}
			}
		}
	case "C16":
		if r.P(50) {
			transient()
		}
		for i := range k.Files {
			if r.P(20) {
				g.readFault(&k.Files[i])
			}
			if i > 0 && r.P(20) {
				k.Files[i].OpenErr = int(scen.Of(r, openErrs...))
			}
		}
		if r.P(20) {
			k.OutAt, k.OutErr, k.OutSticky = 0, int(scen.Of(r, writeErrs...)), true
		}
		if r.P(10) {
			k.ErrErr = int(syscall.EIO)
		}
		switch {
		case r.P(85) && len(badPaths) > 0:
			if r.P(40) {
				k.Argv = append(k.Argv, "-l")
			}
			if p := badPaths[r.N(len(badPaths))]; strings.HasPrefix(p, "-") || r.P(20) {
				k.Argv = append(k.Argv, "--", p)
			} else {
				k.Argv = append(k.Argv, p)
			}
		default:
			k.Args = nil
			switch r.N(5) {
			case 0:
				k.NoArgs = true
			case 1:
				k.Argv = []string{"-l"}
			case 2:
				k.Argv = []string{"--"}
			case 3:
				k.Argv = []string{"-l", "--"}
			default:
				k.Argv = []string{"-nosuchflag", "$"}
			}
		}
	case "C18":
		g.stream()
	case "C14":
		if r.P(60) {
			transient()
		}
		if r.P(60) {
			k.MaxFD = uint64(r.In(2, 4))
		}
		if r.P(60) {
			i := used[r.N(len(used))]
			f := &k.Files[i]
			switch r.Pick(45, 35, 12, 8) {
			case 0:
				f.OpenErr = int(scen.Of(r, openErrs...))
				if r.P(25) { // no such file, and a name that might mean something else
					f.OpenErr = int(syscall.ENOENT)
					name := scen.Of(r, "", "-", "*", "*.json", "x?", "[a-z]", "~/in", "a b", "http://localhost/x", "@in", "in:3", "/dev/stdin.x", "0", "in.gz")
					taken := false
					for j := range k.Files {
						taken = taken || j > 0 && j != i && k.Files[j].Name == name
					}
					if !taken {
						f.Name = name
					}
				}
			case 1:
				if r.P(20) {
					f.Mode = syscall.S_IFDIR
					f.ReadAt, f.ReadErr, f.Sticky = 0, int(syscall.EISDIR), true
				} else {
					g.readFault(f)
				}
			case 2:
				g.damage(f)
			default:
				f.CloseErr = int(syscall.EIO)
			}
		}
	}
	k.Sched = scen.GenSched(r)
	k.bound()
	return k, r
}

// bound sets the number of steps a run may take.
func (k *cliCase) bound() *cliExpect {
	once := k
	if k.long() >= 0 {
		once = k.once()
	}
	x := once.expect()
	n := uint64(400000) + uint64(x.work)*scen.StepsPerWork + uint64(len(k.Path.Text))*scen.StepsPerByte
	for _, i := range k.inputs() {
		// each byte may be read, and written again, by calls of its own, with interruptions
		n += uint64(len(k.Files[i].data())) * 200 * uint64(max(1, k.Files[i].Times))
		if t := k.Files[i].Times; t > 1 {
			n += uint64(t) * uint64(x.work) * scen.StepsPerWork
		}
	}
	k.Sched.Cap = n
	return x
}

// outTrouble makes a variant of a run that writes n bytes in c calls: writing fails, or the process is killed.
func (k *cliCase) outTrouble(r *scen.Rng, n, calls int) *cliCase {
	t := k.clone()
	if r.P(60) {
		t.OutPlan = plan(r, n)
	}
	at := r.N(n + 1)
	switch r.Pick(40, 25, 10, 10, 15) {
	case 1:
		at = n - 1 - r.N(n/10+1)
	case 2:
		at = 0
	case 3:
		at = n - n%4096
	case 4:
		at = 4096 * r.N(n/4096+1)
	}
	if at >= n {
		at = n - 1
	}
	if at < 0 {
		at = 0
	}
	fail := func() {
		t.OutAt = int64(at)
		t.OutErr = int(scen.Of(r, writeErrs...))
		t.OutSticky = r.P(65)
	}
	kill := func() {
		t.KillAt = uint64(1 + r.N(calls+2))
		t.KillBytes = uint64(r.N(n + 1))
		if r.P(50) {
			t.KillBytes = uint64(r.N(4097))
		}
	}
	switch r.Pick(60, 30, 10) {
	case 0:
		fail()
	case 1:
		kill()
	default:
		fail()
		kill()
	}
	t.bound()
	return t
}
