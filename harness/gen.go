package main

// Generation of data, expressions and programs. Expressions come from a table
// of typed templates; each property names the groups it wants to see most.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type gvar struct {
	name string
	ty   string
}

type Gen struct {
	t       *rapid.T
	scope   []gvar
	n       int
	primary map[string]bool
	banned  map[string]bool
	pPrim   int // percent of choices taken from the primary groups
	pWrong  int // per mille of arguments of a wrong type
	pEmit   int // per mille of expressions wrapped in emit!
	pFault  int // per mille of operations with traced operands, one of which raises an error
	budget  int
	syms    []string
	atTop   bool
	usr     string
}

var bit = rapid.Bool()

// pick is uniform on [0,n).
func (g *Gen) pick(n int) int { return pick(g.t, n) }

func pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for k := 1; k < n*8; k *= 2 {
		v *= 2
		if bit.Draw(t, "") {
			v++
		}
	}
	return v % n
}

func (g *Gen) oneIn(n int) bool { return g.pick(n) == n-1 }
func (g *Gen) pct(n int) bool   { return g.pick(100) >= 100-n }
func (g *Gen) mille(n int) bool { return n > 0 && g.pick(1000) >= 1000-n }

func oneOf[T any](g *Gen, xs ...T) T { return xs[g.pick(len(xs))] }

// size: mostly small, sometimes large
func (g *Gen) size(small, large int) int {
	if g.oneIn(12) {
		return g.pick(large + 1)
	}
	return g.pick(small + 1)
}

func (g *Gen) int64() int64 {
	switch g.pick(12) {
	case 0, 1, 2, 3:
		return int64(g.pick(10))
	case 4, 5:
		return int64(g.pick(200)) - 100
	case 6:
		return oneOf(g, int64(math.MaxInt64), math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<31, -(1 << 31), 1<<31-1, 1<<32, 1<<32-1, 1<<53, 1<<53+1, 1<<62)
	case 7:
		return oneOf(g, int64(1<<24), 1<<24+1, 1<<24-1, -(1<<24 + 1), 16777217+2, 33554433, 1<<25+1, 123456789, 123456790)
	case 8:
		return int64(rapid.Uint64().Draw(g.t, "u64"))
	case 9:
		return int64(g.pick(70000)) * oneOf(g, int64(1), -1)
	case 10:
		return -int64(g.pick(10))
	default:
		return int64(1)<<uint(g.pick(63)) + int64(g.pick(3)) - 1
	}
}

func (g *Gen) float32() float32 {
	switch g.pick(8) {
	case 0, 1:
		return float32(g.pick(2000)-1000) / 4
	case 2:
		return float32(g.pick(20) - 10)
	case 3:
		return oneOf(g, float32(0.1), 1e6, 1e10, 1e-7, 3.4e38, 1e-45, 16777216, 0.5, 1.5, 2.5, 1e20, 123456.789, 0.000001, -0.25)
	case 4:
		return float32(g.pick(100000)) / 1000
	default:
		f := math.Float32frombits(uint32(rapid.Uint32().Draw(g.t, "f32")))
		if f != f || math.IsInf(float64(f), 0) {
			return 1.25
		}
		return f
	}
}

var strAtoms = []string{"a", "b", "ab", "A", "Z", "hello", "World", " ", "  ", "\t", "\n", "0", "42", "-7", "é", "ß", "日本", "x.y", ",", "(", ")", ";", "'", "{", "}", "[", "]", ":", "#", "%", "$", "~", "|", "/", "_"}
var strOdd = []string{"\\", "\"", "\\n", "\\\"", "\r", "~a", "%d"}

func (g *Gen) str() string {
	var b strings.Builder
	for n := g.size(3, 12); n > 0; n-- {
		if g.oneIn(15) {
			b.WriteString(strOdd[g.pick(len(strOdd))])
		} else {
			b.WriteString(strAtoms[g.pick(len(strAtoms))])
		}
	}
	return b.String()
}

var symNames = []string{"a", "b", "c", "d", "foo", "bar-baz", "x1", "set!!", "ok?", "->x", "*star*", "a.b", "<=>", "é", "Up", "+x", "-", "&", "k:", "slot:", "p*:", "$v", "a/b", "_", "%z"}

func (g *Gen) sym() Sym {
	return Sym(symNames[g.pick(len(symNames))])
}

func (g *Gen) atom() V {
	switch g.pick(12) {
	case 0, 1, 2, 3:
		return int64(g.pick(12))
	case 4:
		return g.int64()
	case 5:
		return g.float32()
	case 6, 7:
		return &MStr{s: g.str()}
	case 8:
		return g.pick(2) == 1
	case 9, 10:
		return Sym(symNames[g.pick(5)])
	default:
		return nil
	}
}

// datum: a value with a literal form (numbers, strings, symbols, booleans,
// lists, byte arrays, frames)
func (g *Gen) datum(depth int) V {
	if depth <= 0 || g.pct(45) {
		return g.atom()
	}
	switch g.pick(10) {
	case 0:
		return g.dotted(depth)
	case 1:
		return g.bytesV()
	case 2:
		return g.frameV(depth - 1)
	default:
		return g.listV(depth-1, g.size(4, 12))
	}
}

func (g *Gen) listV(depth, n int) V {
	v := make([]V, n)
	for i := range v {
		v[i] = g.datum(depth)
	}
	return list(v...)
}

func (g *Gen) dotted(depth int) V {
	n := 1 + g.pick(3)
	v := make([]V, n)
	for i := range v {
		v[i] = g.datum(depth - 1)
	}
	var t V
	for t == nil {
		t = g.atom()
		if t == nil {
			t = int64(3)
		}
	}
	return listTail(v, t)
}

// permuted: one of the orders and beginnings of a few atoms, so that lists
// alike but for order or length meet
func (g *Gen) permuted() V {
	base := [][]V{{int64(1), int64(2), int64(3)}, {Sym("a"), Sym("b"), Sym("c")}, {int64(1), int64(1), int64(2)}, {list(int64(1)), list(int64(2)), int64(3)}}[g.pick(4)]
	v := append([]V{}, base...)
	for i := len(v) - 1; i > 0; i-- {
		j := g.pick(i + 1)
		v[i], v[j] = v[j], v[i]
	}
	if g.oneIn(4) {
		v = v[:g.pick(3)]
	}
	return list(v...)
}

func (g *Gen) bytesV() V {
	n := g.size(5, 40)
	if n == 0 && g.pct(70) {
		n = 4
	}
	if g.oneIn(80) { // a long one
		b := make([]byte, 100+g.pick(500))
		for i, x := 0, g.pick(256); i < len(b); i++ {
			b[i] = byte(x + i*7)
		}
		return &MBytes{b}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.pick(256))
	}
	return &MBytes{b}
}

func (g *Gen) frameV(depth int) V {
	f := &MFrame{slots: map[string]V{}}
	for n := g.size(3, 8); n > 0; n-- {
		k := oneOf(g, "a:", "b:", "c:", "foo:", "x1:", "bar-baz:", "n:")
		f.slots[k] = g.datum(depth)
	}
	return f
}

// ---- templates ----

type part struct {
	lit string
	ty  string // placeholder
	mod byte   // 0, '*' (0..), '+' (1..), '!' (a variable)
}

type op struct {
	ret   string
	group string
	parts []part
	w     int
	fn    func(g *Gen, d int) string // instead of parts
	src   string
}

var opTable []*op
var opsByRet = map[string][]*op{}

// sub-typing: an expression of a listed type may stand where the key type is
// expected
var subTypes = map[string][]string{
	"any":   {"int", "idx", "flt", "bool", "str", "sym", "list", "ints", "lists", "set", "alist", "frame", "bytes", "any", "nil"},
	"num":   {"int", "idx", "flt", "num"},
	"int":   {"int", "idx"},
	"idx":   {"idx"},
	"list":  {"list", "ints", "lists", "set"},
	"lists": {"lists"},
}

func subs(ty string) []string {
	if s, ok := subTypes[ty]; ok {
		return s
	}
	return []string{ty}
}

// ops registers templates, one per line: RET TEMPLATE
// In a template, {ty} is an argument, {ty*} any number, {ty+} at least one and
// {ty!} a variable holding that type. A leading number is the weight.
func ops(group, text string) {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "//") {
			continue
		}
		w := 2
		f := strings.SplitN(l, " ", 2)
		if n, err := strconv.Atoi(f[0]); err == nil {
			w = n
			f = strings.SplitN(strings.TrimSpace(f[1]), " ", 2)
		}
		o := &op{ret: f[0], group: group, w: w, src: f[1]}
		s := strings.TrimSpace(f[1])
		for s != "" {
			i := strings.Index(s, "{")
			if i < 0 {
				o.parts = append(o.parts, part{lit: s})
				break
			}
			if i > 0 {
				o.parts = append(o.parts, part{lit: s[:i]})
			}
			j := strings.Index(s, "}")
			p := part{ty: s[i+1 : j]}
			switch c := p.ty[len(p.ty)-1]; c {
			case '*', '+', '!':
				p.mod = c
				p.ty = p.ty[:len(p.ty)-1]
			}
			o.parts = append(o.parts, p)
			s = s[j+1:]
		}
		addOp(o)
	}
}

func opFn(group, ret string, w int, fn func(g *Gen, d int) string) {
	addOp(&op{ret: ret, group: group, w: w, fn: fn})
}

func addOp(o *op) {
	opTable = append(opTable, o)
	opsByRet[o.ret] = append(opsByRet[o.ret], o)
}

func newGen(t *rapid.T, primary ...string) *Gen {
	g := &Gen{t: t, primary: map[string]bool{}, banned: map[string]bool{}, pPrim: 65, pWrong: 25, pEmit: 20, pFault: 15, budget: 60}
	for _, p := range primary {
		if strings.HasPrefix(p, "-") {
			g.banned[p[1:]] = true
		} else {
			g.primary[p] = true
		}
	}
	return g
}

// fresh variable name
func (g *Gen) fresh(prefix string) string {
	g.n++
	return prefix + strconv.Itoa(g.n)
}

func (g *Gen) varOf(ty string) (string, bool) {
	ok := map[string]bool{}
	for _, s := range subs(ty) {
		ok[s] = true
	}
	var c []string
	hidden := map[string]bool{}
	for i := len(g.scope) - 1; i >= 0; i-- {
		v := g.scope[i]
		if ok[v.ty] && !hidden[v.name] {
			c = append(c, v.name)
		}
		hidden[v.name] = true
	}
	if len(c) == 0 {
		return "", false
	}
	return c[g.pick(len(c))], true
}

// opsFor lists the candidate ops for a type; groups outside the base set are
// used only when primary.
var baseGroups = map[string]bool{"list": true, "num": true, "cmp": true, "hof": true, "forms": true, "pred": true}

func (g *Gen) opsFor(ty string) (prim, base []*op) {
	for _, s := range subs(ty) {
		for _, o := range opsByRet[s] {
			if g.banned[o.group] {
				continue
			}
			if g.primary[o.group] {
				prim = append(prim, o)
			} else if baseGroups[o.group] {
				base = append(base, o)
			}
		}
	}
	return
}

func (g *Gen) chooseOp(ty string) *op {
	p, b := g.opsFor(ty)
	c := p
	if len(p) == 0 || len(b) > 0 && !g.pct(g.pPrim) {
		c = b
	}
	if len(c) == 0 {
		return nil
	}
	tot := 0
	for _, o := range c {
		tot += o.w
	}
	k := g.pick(tot)
	for _, o := range c {
		if k -= o.w; k < 0 {
			return o
		}
	}
	return c[0]
}

func (g *Gen) render(o *op, d int) (string, bool) {
	if o.fn != nil {
		s := o.fn(g, d)
		return s, s != ""
	}
	faulty, raised := g.mille(g.pFault), false
	arg := func(ty string) string {
		if !faulty || !faultTypes[ty] {
			return g.arg(ty, d-1)
		}
		if !raised && g.pct(40) {
			raised = true
			return `(error "fault")`
		}
		return "(emit! " + g.arg(ty, d-1) + ")"
	}
	var b strings.Builder
	for _, p := range o.parts {
		if p.ty == "" {
			b.WriteString(p.lit)
			continue
		}
		switch p.mod {
		case '!':
			v, ok := g.varOf(p.ty)
			if !ok {
				return "", false
			}
			b.WriteString(v)
		case '*', '+':
			n := g.size(3, 7)
			if p.mod == '+' {
				n++
			}
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				b.WriteString(arg(p.ty))
			}
		default:
			b.WriteString(arg(p.ty))
		}
	}
	return b.String(), true
}

var faultTypes = map[string]bool{"any": true, "list": true, "lists": true, "int": true, "str": true, "flt": true, "bytes": true, "ints": true, "idx": true, "num": true, "alist": true, "fr": true, "frame": true, "set": true, "bool": true, "sym": true, "cnt": true, "bits": true, "bidx": true, "byte": true, "byidx": true, "strs": true, "key": true, "sint": true, "longlist": true, "set0": true, "numstr": true, "nz": true, "bytelist": true}

func isFnType(ty string) bool {
	switch ty {
	case "f0", "f1", "g1", "p1", "q1", "f2", "g2", "lt", "f3", "facc":
		return true
	}
	return false
}

func (g *Gen) arg(ty string, d int) string {
	if g.mille(g.pWrong) {
		ty = oneOf(g, "any", "int", "str", "list", "flt", "sym", "any", "nil", "bool")
	}
	return g.expr(ty, d)
}

// expr writes an expression of the given type.
func (g *Gen) expr(ty string, d int) string {
	s := g.expr0(ty, d)
	if g.mille(g.pEmit) && !isFnType(ty) && ty != "name" {
		return "(emit! " + s + ")"
	}
	return s
}

func (g *Gen) expr0(ty string, d int) string {
	if isFnType(ty) {
		return g.fnExpr(ty, d)
	}
	g.budget--
	if d <= 0 || g.budget < 0 || g.oneIn(5) {
		return g.leaf(ty)
	}
	for i := 0; i < 3; i++ {
		o := g.chooseOp(ty)
		if o == nil {
			break
		}
		if s, ok := g.render(o, d); ok {
			return s
		}
	}
	return g.leaf(ty)
}

func (g *Gen) leaf(ty string) string {
	if v, ok := g.varOf(ty); ok && g.pct(55) {
		return v
	}
	return g.lit(ty)
}

func quoted(v V) string {
	switch x := v.(type) {
	case nil:
		return "'()"
	case *Pair:
		return "'" + text(v)
	case Sym:
		_ = x
		return "'" + text(v)
	}
	return text(v)
}

func (g *Gen) lit(ty string) string {
	switch ty {
	case "any":
		if g.oneIn(24) {
			return g.lit("nil")
		}
		return quoted(g.datum(2))
	case "nil":
		return oneOf(g, "'()", "nil", "()", "(list)", "(cdr '(1))", "(if #f 1)")
	case "idx":
		if g.oneIn(10) {
			return text(g.int64())
		}
		return strconv.Itoa(g.pick(9) - 1)
	case "cnt":
		return strconv.Itoa(g.pick(7))
	case "int":
		return text(g.int64())
	case "sint":
		return strconv.Itoa(g.pick(21) - 10)
	case "flt":
		return text(g.float32())
	case "num":
		if g.pct(60) {
			return text(g.int64())
		}
		return text(g.float32())
	case "bool":
		return oneOf(g, "#t", "#f")
	case "str":
		return text(&MStr{s: g.str()})
	case "sym":
		return "'" + string(g.sym())
	case "list":
		return quoted(g.listV(2, g.size(5, 40)))
	case "ints":
		n := g.size(5, 40)
		v := make([]V, n)
		for i := range v {
			v[i] = int64(g.pick(20) - 4)
		}
		return quoted(list(v...))
	case "lists":
		n := g.size(3, 8)
		v := make([]V, n)
		for i := range v {
			v[i] = g.listV(1, g.size(3, 8))
		}
		return quoted(list(v...))
	case "set":
		n := g.size(5, 14)
		v := make([]V, n)
		for i := range v {
			if g.oneIn(4) {
				v[i] = g.datum(1)
			} else if g.oneIn(8) {
				v[i] = g.permuted()
			} else {
				v[i] = int64(g.pick(8))
			}
		}
		return quoted(list(v...))
	case "alist":
		return g.alistLit()
	case "frame":
		return text(g.selfFrame(1))
	case "bytes":
		return text(g.bytesV())
	}
	if f, ok := litGens[ty]; ok {
		return f(g)
	}
	bugf("no literal for type %q", ty)
	return ""
}

var litGens = map[string]func(g *Gen) string{}

func (g *Gen) alistLit() string {
	n := g.size(4, 10)
	keys := map[string]bool{}
	var items []string
	for i := 0; i < n; i++ {
		k := text(g.key())
		if keys[k] {
			continue
		}
		keys[k] = true
		items = append(items, "("+k+" . "+text(g.datum(1))+")")
	}
	return "'(" + strings.Join(items, " ") + ")"
}

func (g *Gen) key() V {
	switch g.pick(6) {
	case 0, 1, 2:
		return Sym(symNames[g.pick(7)])
	case 3:
		return int64(g.pick(6))
	case 4:
		return &MStr{s: oneOf(g, "a", "b", "k", "")}
	default:
		return g.atom()
	}
}

// fnExpr writes a function of the given shape: f1/p1 take anything, g1/q1/g2
// take integers.
func (g *Gen) fnExpr(ty string, d int) string {
	if g.pct(45) {
		switch ty {
		case "f1":
			return oneOf(g, "list", "list", "not", "nil?", "integer?", "pair?", "emit!", "car", "length", "eq?")
		case "g1":
			return oneOf(g, "succ", "pred", "-", "abs", "+", "emit!", "list", "even?")
		case "p1":
			return oneOf(g, "nil?", "integer?", "string?", "pair?", "list?", "not", "symbol?", "number?", "notnil?")
		case "q1":
			return oneOf(g, "even?", "odd?", "zero?", "positive?", "negative?")
		case "f2":
			return oneOf(g, "list", "cons", "eqv?", "emit!", "append")
		case "g2":
			return oneOf(g, "+", "-", "*", "list", "emit!", "max", "min", "cons")
		case "lt":
			return oneOf(g, "<", ">")
		case "f3":
			return oneOf(g, "list", "emit!")
		}
	}
	saved := len(g.scope)
	var names []string
	bind := func(ty string) {
		n := g.fresh("x")
		names = append(names, n)
		g.scope = append(g.scope, gvar{n, ty})
	}
	ret := "any"
	switch ty {
	case "f0":
	case "f1":
		bind("any")
	case "p1":
		bind("any")
		ret = "bool"
	case "g1":
		bind("int")
		ret = oneOf(g, "any", "int")
	case "q1":
		bind("int")
		ret = "bool"
	case "f2":
		bind("any")
		bind("any")
	case "g2":
		bind("int")
		bind("int")
		ret = oneOf(g, "any", "int")
	case "lt":
		bind("int")
		bind("int")
		ret = "bool"
		g.scope = g.scope[:saved]
		return fmt.Sprintf("(lambda (%s %s) (%s %s %s))", names[0], names[1], oneOf(g, "<", ">"), names[0], names[1])
	case "f3":
		bind("any")
		bind("any")
		bind("any")
	case "facc":
		bind("any")
		bind("any")
	}
	body := ""
	if g.oneIn(5) {
		body = "(emit! " + strings.Join(append([]string{strconv.Itoa(g.pick(5))}, names...), " ") + ") "
	}
	body += g.expr(ret, d-1)
	g.scope = g.scope[:saved]
	return "(lambda (" + strings.Join(names, " ") + ") " + body + ")"
}

// statement ops have return type "stmt": mutations and other forms whose
// effect, not value, matters
func (g *Gen) stmt(d int) string {
	for i := 0; i < 4; i++ {
		o := g.chooseOp("stmt")
		if o == nil {
			return ""
		}
		if s, ok := g.render(o, d); ok {
			return s
		}
	}
	return ""
}

type progOpts struct {
	types   []string // types of the variables defined
	results []string // types of the bare expressions
	minF    int
	maxF    int
	depth   int
	stmtPct int
	echo    bool // end with the value of every variable
}

func (g *Gen) program(o progOpts) []string {
	var forms []string
	n := o.minF + g.pick(o.maxF-o.minF+1)
	for i := 0; i < n; i++ {
		g.budget = 40
		switch {
		case g.pct(35) || i == 0:
			ty := o.types[g.pick(len(o.types))]
			d := 1 + g.pick(2)
			e := g.expr(ty, d)
			v := g.fresh("v")
			forms = append(forms, "(define "+v+" "+e+")")
			g.scope = append(g.scope, gvar{v, ty})
		case g.pct(o.stmtPct):
			g.atTop = true
			s := g.stmt(o.depth)
			g.atTop = false
			if s != "" {
				forms = append(forms, s)
			}
		default:
			forms = append(forms, g.expr(o.results[g.pick(len(o.results))], 1+g.pick(o.depth)))
		}
	}
	if o.echo {
		seen := map[string]bool{}
		for _, v := range g.scope {
			if !isFnType(v.ty) && !strings.HasPrefix(v.ty, "call") && !seen[v.name] {
				seen[v.name] = true
				forms = append(forms, v.name)
			}
		}
	}
	return forms
}

// progProp builds a property over programs.
func progProp(id, rule string, quick, thor int, groups []string, o progOpts, nontrivial func(forms []string, res *progResult) bool) *Prop {
	var p *Prop
	p = &Prop{
		ID: id, Rule: rule, Quick: quick, Thor: thor,
		New:    func() interface{} { return &progCase{} },
		Shrink: shrinkProgCase,
		Gen: func(t *rapid.T) interface{} {
			g := newGen(t, groups...)
			if p.tuneF != nil {
				p.tuneF(g)
			}
			forms := g.program(o)
			if p.finishF != nil {
				forms = p.finishF(g, forms)
			}
			child := g.oneIn(4)
			return &progCase{Forms: specifiedForms(forms, child), Child: child}
		},
		Run: func(c interface{}, r *Rec) error {
			pc := c.(*progCase)
			res, err := runProg(pc, r)
			r.NonTrivial = nontrivial(pc.Forms, res)
			countOps(pc.Forms, res, r)
			return err
		},
	}
	return p
}

// specifiedForms drops the forms whose outcome the model does not specify, so
// that they do not cut a program short.
func specifiedForms(forms []string, child bool) []string {
	for try := 0; try < 6; try++ {
		bad := -1
		in := newInterp()
		env := in.global
		if child {
			env = newEnvBelow(in.global, "case")
		}
		for i, src := range forms {
			f, err := mParse(src)
			if err != nil {
				bugf("generated form does not parse: %q: %v", src, err)
			}
			if o := in.modelForm(f, env); o.kind == 'u' {
				bad = i
				break
			}
		}
		if bad < 0 || len(forms) == 1 {
			return forms
		}
		forms = append(append([]string{}, forms[:bad]...), forms[bad+1:]...)
	}
	return forms
}

// countOps records which operators occurred in the forms that were compared.
func countOps(forms []string, res *progResult, r *Rec) {
	seen := map[string]bool{}
	for i, f := range forms {
		if i >= len(res.outs) {
			break
		}
		for j := 0; j+1 < len(f); j++ {
			if f[j] == '(' {
				k := j + 1
				for k < len(f) && f[k] != ' ' && f[k] != ')' && f[k] != '(' {
					k++
				}
				n := f[j+1 : k]
				if _, ok := primNames[n]; ok {
					seen[n] = true
				}
			}
		}
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Class("op %s", k)
	}
}

var primNames = map[string]bool{}

func indexPrims() {
	for _, p := range modelPrims {
		primNames[p.name] = true
	}
}

// usesAny: the compared forms mention at least one of the group's operators.
func (res *progResult) good(n int) bool { return res != nil && res.ok >= n }

// shuffle puts n things into a random order.
func (g *Gen) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, g.pick(i+1))
	}
}
