package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"

	"github.com/steelseries/golisp"
	"pgregory.net/rapid"
)

// ---- C01: what is printed reads back ----

type printCase struct {
	Text string // canonical text of the value
	Eval bool   // the text is an expression whose value is meant (frames)
}

// selfEval: data that evaluate to themselves, for frame slots
func (g *Gen) selfEval(d int) V {
	switch g.pick(8) {
	case 0, 1:
		return g.int64()
	case 2:
		if g.oneIn(12) {
			return float32(math.Inf(1 - 2*g.pick(2)))
		}
		return g.float32()
	case 3:
		return &MStr{s: g.str()}
	case 4:
		return g.pick(2) == 0
	case 5:
		return g.bytesV()
	case 6:
		return nil
	default:
		if d <= 0 {
			return Sym("naked:")
		}
		return g.selfFrame(d - 1)
	}
}

func (g *Gen) selfFrame(d int) V {
	f := &MFrame{slots: map[string]V{}}
	for n := g.size(4, 10); n > 0; n-- {
		k := oneOf(g, "a:", "b:", "c:", "foo:", "x1:", "bar-baz:", "n:", "é:")
		f.slots[k] = g.selfEval(d)
	}
	return f
}

func (g *Gen) anyRunes() string {
	var b strings.Builder
	for n := g.size(6, 30); n > 0; n-- {
		switch g.pick(6) {
		case 0:
			b.WriteString(strOdd[g.pick(len(strOdd))])
		case 1:
			r := rune(rapid.Uint32Range(1, 0x10ffff).Draw(g.t, ""))
			if r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			b.WriteRune(r)
		case 2:
			b.WriteRune(rune(g.pick(128)))
		default:
			b.WriteString(strAtoms[g.pick(len(strAtoms))])
		}
	}
	return b.String()
}

var oddSymbolRunes = []rune("abz\\.:-+*?!0λжñ中あ∑𝛼😀ﬁßİ^~@")

// anySym gives a symbol of any characters a symbol can be read from.
func (g *Gen) anySym() Sym {
	if g.oneIn(2) {
		return g.sym()
	}
	var b strings.Builder
	for n := 1 + g.size(4, 12); n > 0; n-- {
		var r rune
		switch g.pick(4) {
		case 0:
			r = rune(33 + g.pick(94))
		case 1:
			r = rune(rapid.Uint32Range(161, 0x2fff).Draw(g.t, ""))
		case 2:
			r = rune(rapid.Uint32Range(161, 0x10ffff).Draw(g.t, ""))
		default:
			r = oddSymbolRunes[g.pick(len(oddSymbolRunes))]
		}
		if !symChar(r) || b.Len() == 0 && unicode.IsNumber(r) {
			r = 'y'
		}
		b.WriteRune(r)
	}
	s := b.String()
	if s == "." || s[0] == '-' || s[0] == '@' {
		s = "s" + s
	}
	return Sym(s)
}

// a datum whose printed form is plain text (no frame, whose text is a call)
func (g *Gen) plain(d int) V {
	if d <= 0 || g.pct(35) {
		switch g.pick(4) {
		case 0:
			return &MStr{s: g.anyRunes()}
		case 1:
			return g.anySym()
		}
		return g.atom()
	}
	switch g.pick(9) {
	case 0:
		n := 1 + g.pick(4)
		v := make([]V, n)
		for i := range v {
			v[i] = g.plain(d - 1)
		}
		var t V
		for t == nil {
			t = g.atom()
		}
		return listTail(v, t)
	case 1:
		return g.bytesV()
	case 2:
		return list(Sym(oneOf(g, "quote", "quote", "quasiquote", "unquote", "unquote-splicing")), g.plain(d-1))
	case 3:
		n := 2 + g.pick(3)
		v := []V{Sym("quote")}
		for i := 0; i < n; i++ {
			v = append(v, g.plain(d-1))
		}
		return list(v...)
	}
	n := g.size(5, 40)
	v := make([]V, n)
	for i := range v {
		v[i] = g.plain(d - 1)
	}
	return list(v...)
}

func c01run(c interface{}, r *Rec) error {
	pc := c.(*printCase)
	inModel(true)
	in := newInterp()
	v, err := mParse(pc.Text)
	if err != nil {
		bugf("canonical text does not parse: %q: %v", pc.Text, err)
	}
	if pc.Eval {
		v = in.eval(v, in.global)
	}
	want := mShow(v)
	inModel(false)
	resetReal()
	d := toReal(v)
	if s := rShow(d); s != want {
		bugf("toReal: %s vs %s", s, want)
	}
	printed := golisp.String(d)
	if t := text(v); t != printed {
		return fmt.Errorf("value %s\n printed as %q\n expected %q", want, short(printed, 900), short(t, 900))
	}
	back, err := golisp.Parse(printed)
	if err == nil && pc.Eval {
		back, err = golisp.Eval(back, golisp.Global)
	}
	if err != nil {
		return fmt.Errorf("printed text %q does not read back: %v", short(printed, 900), err)
	}
	if s := rShow(back); s != want {
		return fmt.Errorf("value %s\n printed as %q\n reads back as %s", short(want, 900), short(printed, 900), short(s, 900))
	}
	if !golisp.IsEqual(back, d) && !strings.Contains(want, "f:nan") {
		return fmt.Errorf("value printed as %q is not equal to what it reads back as", short(printed, 900))
	}
	// the same through the language: print inside a string and evaluate the text
	if again := golisp.String(back); again != printed {
		return fmt.Errorf("printing is not stable: %q then %q", short(printed, 900), short(again, 900))
	}
	r.NonTrivial = strings.ContainsAny(printed, "([{\"") || strings.ContainsRune(printed, '.')
	for _, k := range []string{"\\", "[", "{", " . ", "'", "."} {
		if strings.Contains(printed, k) {
			r.Class("contains %s", k)
		}
	}
	r.Sample = printed
	return nil
}

// ---- C02: reading texts ----

type readCase struct {
	Text  string
	Canon string // when not empty: same tokens, single spaces
	Eval  bool   // evaluate the program and compare the effects
	File  bool
}

func runModelAll(in *Interp, src string) (last string, kind byte, trace []string, why string) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(mUnspec); ok {
				kind, why = 'u', u.why
				return
			}
			panic(e)
		}
	}()
	vs, perr := mParseAll(src)
	kind = 'v'
	for _, v := range vs {
		o := in.modelForm(v, in.global)
		trace = append(trace, o.trace...)
		kind, last = o.kind, o.text
		if kind != 'v' {
			return last, kind, trace, o.text
		}
	}
	if perr != nil {
		kind = 'e'
	}
	return
}

func c02run(c interface{}, r *Rec) error {
	rc := c.(*readCase)
	inModel(true)
	if rc.Eval {
		in := newInterp()
		last, kind, trace, why := runModelAll(in, rc.Text)
		inModel(false)
		if kind == 'u' {
			r.Class("unspecified: " + short(why, 40))
			return nil
		}
		resetReal()
		var d *D
		var err error
		if rc.File {
			f := filepath.Join(workDir, "prog.lsp")
			os.WriteFile(f, []byte(rc.Text), 0644)
			d, err = golisp.ProcessFile(f)
			os.Remove(f)
			r.Class("program from a file")
		} else {
			d, err = golisp.ParseAndEvalAll(rc.Text)
		}
		k := byte('v')
		if err != nil {
			k = 'e'
		}
		if k != kind {
			return fmt.Errorf("program %q\n expected %c got %c (%v)", rc.Text, kind, k, err)
		}
		if strings.Join(trace, ";") != strings.Join(realTrace, ";") {
			return fmt.Errorf("program %q\n expected effects %v\n got %v (err %v)", rc.Text, trace, realTrace, err)
		}
		if kind == 'v' && last != "" && rShow(d) != last {
			return fmt.Errorf("program %q\n expected value %s\n got %s", rc.Text, last, rShow(d))
		}
		r.NonTrivial = len(trace) > 1
		r.Class("program, outcome %c", kind)
		r.Sample = rc.Text
		return nil
	}
	var vs []V
	var perr error
	un := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(mUnspec); ok {
					un = u.why
					return
				}
				panic(e)
			}
		}()
		vs, perr = mParseAll(rc.Text)
	}()
	var want []string
	for _, v := range vs {
		want = append(want, mShow(v))
	}
	inModel(false)
	ds, err := golisp.ParseAll(rc.Text)
	if un != "" {
		r.Class("unspecified: " + un)
		return nil
	}
	var got []string
	for _, d := range ds {
		got = append(got, rShow(d))
	}
	if (err != nil) != (perr != nil) {
		return fmt.Errorf("text %q\n expected %v (error: %v)\n got %v (error: %v)", rc.Text, want, perr, got, err)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("text %q\n expected %v\n got %v", rc.Text, want, got)
	}
	if rc.Canon != "" {
		d2, err2 := golisp.ParseAll(rc.Canon)
		var g2 []string
		for _, d := range d2 {
			g2 = append(g2, rShow(d))
		}
		if (err2 != nil) != (err != nil) || strings.Join(g2, "\n") != strings.Join(got, "\n") {
			return fmt.Errorf("layout matters: %q reads as %v, %q as %v (%v, %v)", rc.Text, got, rc.Canon, g2, err, err2)
		}
		r.Class("layout variant")
	}
	// the first expression alone
	d1, err1 := golisp.Parse(rc.Text)
	if err1 == nil && len(want) > 0 && !strings.HasPrefix(strings.TrimSpace(rc.Text), ")") {
		if s := rShow(d1); s != want[0] && !strings.Contains(rc.Text, ")") {
			return fmt.Errorf("first expression of %q reads as %s, expected %s", rc.Text, s, want[0])
		}
	}
	if perr != nil {
		r.Class("malformed text rejected")
	} else {
		r.Class("well-formed text")
	}
	r.NonTrivial = len(rc.Text) > 2
	r.Sample = rc.Text
	return nil
}

// nearHalf writes a float that lies half-way between two single-precision
// numbers, or so near that rounding twice goes wrong.
func (g *Gen) nearHalf() string {
	m := uint64(1)<<24 + uint64(rapid.Uint64Range(0, 1<<24-1).Draw(g.t, ""))
	s := strconv.FormatUint(2*m+1, 10) // 2m+1 needs 25 bits more than the 24
	if g.oneIn(2) {
		s = strconv.FormatUint((2*m+1)*4, 10)
	}
	switch g.pick(3) {
	case 0:
		return s + ".0"
	case 1:
		return s + "." + strings.Repeat("0", 8+g.pick(12)) + "1"
	}
	n, _ := strconv.ParseUint(s, 10, 64)
	return strconv.FormatUint(n-1, 10) + "." + strings.Repeat("9", 8+g.pick(12))
}

// escapedString writes a string in which any character may follow a backslash.
func (g *Gen) escapedString() string {
	var b strings.Builder
	b.WriteByte('"')
	put := func(c rune) {
		if c == '"' || c == '\\' || g.oneIn(4) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	for _, c := range g.str() {
		if g.oneIn(6) {
			b.WriteByte('\\')
			b.WriteByte("ntrabfve0xu;'(\\\" \n"[g.pick(18)])
		}
		put(c)
	}
	if g.oneIn(3) {
		put(rune(32 + g.pick(95)))
	}
	b.WriteByte('"')
	return b.String()
}

// tokens of a random expression
func (g *Gen) tokens(d int, out *[]string) {
	add := func(s string) { *out = append(*out, s) }
	if d <= 0 || g.pct(40) {
		switch g.pick(9) {
		case 0:
			add(fmt.Sprintf("%s%x", oneOf(g, "0x", "#x"), rapid.Uint64Range(0, 1<<62).Draw(g.t, "")>>uint(g.pick(62))))
		case 1:
			add(fmt.Sprintf("#b%b", g.pick(1000)))
		case 2:
			add(oneOf(g, "#t", "#f"))
		case 3:
			if g.oneIn(2) {
				add(g.escapedString())
				return
			}
			add(text(&MStr{s: g.str()}))
		case 4:
			if g.oneIn(3) {
				add(g.nearHalf())
			} else {
				add(text(g.float32()))
			}
		case 5:
			if g.oneIn(8) {
				add(oneOf(g, "0x7fffffffffffffff", "0x4000000000000000", "0xffffffffffffffff", "0x8000000000000000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "#b"+strings.Repeat("1", 63), "#b"+strings.Repeat("1", 64), "0x5fffffffffffffff", "#x7FFFFFFFFFFFFFFF"))
				return
			}
			add(text(g.int64()))
		default:
			add(string(g.anySym()))
		}
		return
	}
	switch g.pick(10) {
	case 0:
		add(oneOf(g, "'", "`", ",", ",@"))
		g.tokens(d-1, out)
	case 1:
		add("[")
		for n := g.size(4, 10); n > 0; n-- {
			if g.oneIn(8) {
				add(oneOf(g, "256", "-1", "x", "#xff", "\"s\"", "1.5"))
			} else {
				add(fmt.Sprint(g.pick(256)))
			}
		}
		add("]")
	case 2:
		add("{")
		for n := g.size(2, 5); n > 0; n-- {
			add(oneOf(g, "a:", "b:", "c:"))
			g.tokens(d-1, out)
		}
		add("}")
	case 3:
		add("(")
		for n := 1 + g.pick(3); n > 0; n-- {
			g.tokens(d-1, out)
		}
		add(".")
		g.tokens(d-1, out)
		add(")")
	default:
		add("(")
		for n := g.size(4, 10); n > 0; n-- {
			g.tokens(d-1, out)
		}
		add(")")
	}
}

func (g *Gen) gap() string {
	var b strings.Builder
	for n := 1 + g.pick(3); n > 0; n-- {
		b.WriteString(oneOf(g, " ", " ", "\n", "\t", "  ", "\r\n", "; c (\" '\n", ";\n", ";;; } ]\n", "\v"))
	}
	return b.String()
}

// layout joins tokens with arbitrary white space and comments, or with nothing
// where the tokens delimit themselves.
func (g *Gen) layout(toks []string) string {
	var b strings.Builder
	if g.pct(30) {
		b.WriteString(g.gap())
	}
	for i, t := range toks {
		b.WriteString(t)
		if i+1 == len(toks) {
			break
		}
		if t == "." {
			b.WriteString(oneOf(g, " ", "\n", "\t", " ; c\n"))
			continue
		}
		n := toks[i+1]
		self := func(s string, last bool) bool {
			if last {
				return strings.ContainsRune("()[]{}\"", rune(s[len(s)-1])) || s == "'" || s == "`" || s == "," || s == ",@"
			}
			return strings.ContainsRune("()[]{}\"'`,", rune(s[0]))
		}
		tight := self(t, true) || self(n, false)
		if t == "," && strings.HasPrefix(n, "@") {
			tight = false
		}
		if tight && g.pct(60) {
			continue
		}
		b.WriteString(g.gap())
	}
	if g.pct(30) {
		b.WriteString(oneOf(g, " ", "\n", "; end", ";", "\n\n"))
	}
	return b.String()
}

var garbage = []string{"(", ")", "[", "]", "{", "}", "\"", "\\", "'", "`", ",", "@", "#", "#t", "#x", "#b", ";", "\n", " ", ".", ". ", "-", "0x", "1.", "a", ":", "|", "\x00", "\xff", "é", "½", "9", "\\n", "()", "\\t", "\\\"", "\"\\r\""}

func init() {
	register(&Prop{
		ID: "C01", Quick: 40000, Thor: 1500000,
		Rule: "random data (integers, finite floats, strings over all of Unicode, symbols, booleans, proper and dotted lists, quote forms, byte arrays; frames of self-evaluating values), depth up to 4: the printed text equals the canonical text, reads back to an equal value and prints the same again; non-trivial: a compound value, a string or a float",
		New:  func() interface{} { return &printCase{} },
		Gen: func(t *rapid.T) interface{} {
			g := newGen(t)
			if g.oneIn(4) {
				return &printCase{text(g.selfFrame(3)), true}
			}
			return &printCase{text(g.plain(4)), false}
		},
		Run: c01run,
	})
	register(&Prop{
		ID: "C02", Quick: 60000, Thor: 2000000,
		Rule: "token sequences of random expressions rendered with arbitrary white space and comments; texts mutated by inserting, deleting and duplicating fragments; and whole programs (from a string or a file) with effects, empty lists and comments at top level and possibly a malformed end; each compared with an independent reader; non-trivial: more than two characters, for programs more than one effect",
		New:  func() interface{} { return &readCase{} },
		Gen: func(t *rapid.T) interface{} {
			g := newGen(t)
			switch g.pick(4) {
			case 0: // layout
				var toks []string
				for n := 1 + g.pick(3); n > 0; n-- {
					g.tokens(3, &toks)
				}
				return &readCase{Text: g.layout(toks), Canon: strings.Join(toks, " ")}
			case 1: // program
				var b strings.Builder
				for n := 1 + g.pick(7); n > 0; n-- {
					switch g.pick(9) {
					case 0:
						b.WriteString("()")
					case 1:
						b.WriteString(oneOf(g, "'x", "42", "\"s\"", "#f", "nil", "'()", ")"))
					case 2:
						b.WriteString("; comment (emit! 1)\n")
					case 3:
						b.WriteString("(define v" + fmt.Sprint(g.pick(3)) + " (emit! " + g.expr("any", 1) + "))")
					case 4:
						b.WriteString("(emit! v" + fmt.Sprint(g.pick(3)) + ")")
					case 5:
						if g.oneIn(3) {
							b.WriteString(oneOf(g, "(car 5)", "(undefined-function 1)", "(emit!)"))
						}
					default:
						b.WriteString("(emit! " + fmt.Sprint(g.pick(100)) + ")")
					}
					b.WriteString(oneOf(g, "", " ", "\n", "; x\n"))
				}
				if g.oneIn(4) {
					b.WriteString(oneOf(g, "(", "(emit! 1", "\"abc", "'", "]", "[1", "{a: ", "(a . ", "(emit! 1 ]", "#"))
				}
				return &readCase{Text: b.String(), Eval: true, File: g.oneIn(3)}
			default: // mutation
				var toks []string
				for n := 1 + g.pick(2); n > 0; n-- {
					g.tokens(2, &toks)
				}
				s := g.layout(toks)
				for n := 1 + g.pick(4); n > 0; n-- {
					i := g.pick(len(s) + 1)
					j := i + g.pick(4)
					if j > len(s) {
						j = len(s)
					}
					switch g.pick(4) {
					case 0:
						s = s[:i] + s[j:]
					case 1:
						s = s[:j] + s[i:]
					default:
						s = s[:i] + garbage[g.pick(len(garbage))] + s[i:]
					}
				}
				return &readCase{Text: strings.ToValidUTF8(s, "\uFFFD")}
			}
		},
		Run: c02run,
	})
}
